package main

func init() {
	register(&Check{
		id:    "C15",
		specs: []string{"numcast", "numpo", "numcldr"},
		rule: "Every path of the conversion of values to numbers, to plural operands and to plural forms must compute the same result, with the same conversions in the same order, " +
			"and fail in the same cases as a reference definition.",
		min: map[string]int{"function": 8},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				opaque: map[string]string{
					modPath + "/internal/cast.ToNumber":               "pure",
					modPath + "/internal/cast.Indirect":               "pure",
					modPath + "/catalog/cldrplural.NewOperands":       "event",
					modPath + "/catalog/cldrplural.newOperandsString": "event",
					modPath + "/catalog/cldrplural.shiftDecimalPoint": "pure",
				},
			})
		},
	})
}
