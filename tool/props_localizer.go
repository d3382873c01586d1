package main

func init() {
	register(&Check{
		id:    "C03",
		specs: []string{"lookupchain", "localizer"},
		rule: "Every path of every lookup method of Localizer and KeyLocalizer (callees inlined, branch conditions as facts, values by value numbering) must perform the same catalogue " +
			"lookups, plural decisions, miss reports and formatting with the same domain, context, identifiers, number and arguments as a reference definition.",
		min: map[string]int{"function": 36},
		run: func(c *Ctx) { c.compareSpecs(localizerRel()) },
	})
	register(&Check{
		id:    "C04",
		specs: []string{"lookupchain", "localizeerr"},
		rule: "Every path of Localize, LocalizeWithError and LocalizeError must return the text and the error (nil, missing locale, error of the first language, wrapper around the original error) " +
			"of a reference definition.",
		min: map[string]int{"function": 3},
		run: func(c *Ctx) { c.compareSpecs(localizerRel()) },
	})
}

func init() {
	register(&Check{
		id:    "C28",
		specs: []string{"printer"},
		rule:  "Every path of the default printer and of the wrapper of a single print function must hand out a function that formats with the printer of the language that was asked for, as a reference definition does.",
		min:   map[string]int{"function": 3},
		run:   func(c *Ctx) { c.compareSpecs(&relSpec{inits: []string{""}}) },
	})
	register(&Check{
		id:    "C29",
		specs: []string{"errors", "errorscat", "errorsloc"},
		rule:  "Every path that creates, shows or unwraps an error of the module, and every getter of a message, must give the fields and texts of a reference definition.",
		min:   map[string]int{"function": 15},
		run:   func(c *Ctx) { c.compareSpecs(&relSpec{}) },
	})
}

func localizerRel() *relSpec {
	return &relSpec{
		pureInvoke: []string{"(catalog.Catalog).*", "(localize.Localizable).*", "(error).Error"},
		pureFnType: []string{"spreak.PrintFunc", "func(any) (int, error)"},
	}
}
