package main

func init() {
	po := modPath + "/catalog/po"
	register(&Check{
		id:    "C10",
		specs: []string{"poenc", "strbuf"},
		rule:  "Every path that writes a po file must write the same text in the same cases as a reference definition.",
		min:   map[string]int{"function": 10},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				inits: []string{"catalog/po"},
				opaque: map[string]string{
					"(*" + po + ".Encoder).encodeHeader":       "state:1",
					"(*" + po + ".Encoder).encodeComment":      "state:1",
					"(*" + po + ".Encoder).encodeMessage":      "state:1",
					"(*" + po + ".Encoder).encodeTranslations": "state:1",
					"(*" + po + ".Encoder).Encode":             "state",
					"(*" + po + ".Comment).sort":               "state",
					po + ".EncodePoString":                     "pure",
					po + ".wrapString":                         "pure",
					po + ".escapePoString":                     "pure",
					po + ".encodePoStringWithoutWrap":          "pure",
					po + ".encodePoStringWithWrap":             "pure",
				},
			})
		},
	})
}
