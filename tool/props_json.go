package main

func init() {
	register(&Check{
		id:    "C11",
		specs: []string{"jsonfile", "jsoncat"},
		rule:  "Every path that reads or writes a message or a catalogue in JSON must handle the same names and write the same texts in the same cases as a reference definition.",
		min:   map[string]int{"function": 7},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{inits: []string{"catalog", "catalog/cldrplural"}})
		},
	})
}
