package main

func init() {
	register(&Check{
		id:    "C17",
		specs: []string{"loader"},
		rule: "Every path of the file system loader, its options and the default resolver must try the same files in the same order, use the decoder of the extension, close every opened file and " +
			"return the catalogue or the error a reference definition names.",
		min: map[string]int{"function": 15},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{opaque: map[string]string{modPath + ".ExpandLanguage": "pure"}})
		},
	})
	bundle := &relSpec{
		pureFnType: []string{"func(any) (int, error)", "catalog/poplural.PluralFunc"},
		opaque:     map[string]string{modPath + "/catalog/poplural.ForLanguage": "pure", modPath + ".NewFilesystemLoader": "event"},
	}
	register(&Check{
		id:    "C18",
		specs: []string{"bundle"},
		rule: "Every path of NewBundle and of its options (the actions they register included) must load the same catalogues in the same order, report the same misses, fail with the same errors and " +
			"build the same locales as a reference definition.",
		min: map[string]int{"function": 18},
		run: func(c *Ctx) { c.compareSpecs(bundle) },
	})
	register(&Check{
		id:    "C21",
		specs: []string{"negotiate"},
		rule:  "Every path that creates a localizer must ask the matcher of the bundle for the accepted languages and select the locale that a reference definition names.",
		min:   map[string]int{"function": 8},
		run:   func(c *Ctx) { c.compareSpecs(bundle) },
	})
}
