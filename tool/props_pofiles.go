package main

func init() {
	po := modPath + "/catalog/po"
	register(&Check{
		id:    "C23",
		specs: []string{"pofile"},
		rule:  "Every path that reads a po file must consume the same lines, fail in the same cases and build the same messages, comments and header as a reference definition.",
		min:   map[string]int{"function": 4},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				inits: []string{"catalog/po"},
				opaque: map[string]string{
					"(*" + po + ".scanner).scan":           "state",
					"(*" + po + ".scanner).scanWhitespace": "state",
					"(*" + po + ".Header).Set":             "state",
					po + ".DecodePoString":                 "pure",
					"(*" + po + ".Message).Merge":          "state",
					po + ".unescapePoBytes":                "pure",
					"(*" + po + ".scanner).currentLine":    "pure",
					"(*" + po + ".Parser).parseFile":       "state",
					"(*" + po + ".Parser).parseMessage":    "state",
					"(*" + po + ".Parser).parseComment":    "state",
					"(*" + po + ".Parser).parseHeader":     "event",
				},
			})
		},
	})
	register(&Check{
		id:    "C27",
		specs: []string{"pomodel"},
		rule:  "Every path that adds to or merges flags, references, comments and messages of a po file must leave the same content, in the same order, as a reference definition.",
		min:   map[string]int{"function": 8},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				inits: []string{"catalog/po"},
				opaque: map[string]string{
					po + ".mergeStringArrays":     "pure",
					"(*" + po + ".Comment).Merge": "state",
				},
			})
		},
	})
	register(&Check{
		id:    "C24",
		specs: []string{"mofile"},
		rule:  "Every path that reads a mo file must seek and read the same positions, fail in the same cases and build the same messages and header as a reference definition.",
		min:   map[string]int{"function": 2},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				opaque: map[string]string{
					"(*" + po + ".scanner).scanWhitespace": "state",
					"(*" + po + ".Header).Set":             "state",
					"(*" + po + ".File).AddMessage":        "state",
				},
			})
		},
	})
}
