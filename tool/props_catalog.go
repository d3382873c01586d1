package main

func init() {
	fnTypes := []string{"func(any) (int, error)", "catalog/cldrplural.FormFunc", "catalog/poplural.PluralFunc"}
	cldr := map[string]string{modPath + "/catalog/cldrplural.ForLanguage": "pure", "(*" + modPath + "/catalog/cldrplural.RuleSet).Evaluate": "pure"}
	with := func(m map[string]string, extra ...string) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			r[k] = v
		}
		for i := 0; i < len(extra); i += 2 {
			r[extra[i]] = extra[i+1]
		}
		return r
	}
	register(&Check{
		id:    "C05",
		specs: []string{"catalog"},
		rule: "Every path of the lookup methods of both catalogue types must return the text stored for exactly the given context, identifier and plural form, or the identifier " +
			"and the kind of error a reference definition names.",
		min: map[string]int{"function": 10},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{pureFnType: fnTypes, opaque: cldr})
		},
	})
	register(&Check{
		id:    "C06",
		specs: []string{"catalogbuild"},
		rule: "Every path that builds a catalogue from a file or from messages must put exactly the messages and the plural rule into it that a reference definition names, " +
			"and copies handed out or taken must be deep.",
		min: map[string]int{"function": 17},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				pureFnType: fnTypes,
				opaque: with(cldr,
					"(*"+modPath+"/catalog/po.Parser).Parse", "event",
					modPath+"/catalog/po.NewParser", "event",
					"(*"+modPath+"/catalog/po.Parser).SetIgnoreComments", "event",
					modPath+"/internal/mo.ParseReader", "event",
					"(*"+modPath+"/catalog/po.Comment).HasFlag", "pure",
					"(*"+modPath+"/catalog/po.Header).Get", "pure",
					modPath+"/catalog/poplural.Parse", "pure",
				),
			})
		},
	})
}
