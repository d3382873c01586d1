package main

func init() {
	ast := modPath + "/catalog/poplural/ast"
	po := modPath + "/catalog/poplural"
	opaque := map[string]string{
		po + ".evaluateNode":          "pure",
		po + ".getBuiltInForRawRule":  "pure",
		"(*" + ast + ".scanner).scan": "event",
	}
	for _, f := range []string{"expression", "logicalOrExpression", "logicalAndExpression", "equalityExpression", "relationalExpression", "multiplicativeExpression", "pmExpression", "Parse"} {
		opaque["(*"+ast+".parser)."+f] = "state"
	}
	opaque[ast+".compileNode"] = "pure"
	opaque[ast+".Parse"] = "event"
	opaque[ast+".CompileToString"] = "pure"
	opaque[po+".Parse"] = "event"
	register(&Check{
		id:    "C14",
		specs: []string{"poformula", "poformulaast"},
		rule: "Every path of the scanner, of the recursive descent parser (recursive calls by induction), of the evaluation and of the normalised text of plural formulas must consume the same tokens, " +
			"build the same tree, compute the same number and write the same text as a reference definition.",
		min: map[string]int{"function": 14},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				opaque:     opaque,
				pureInvoke: []string{"(catalog/poplural/ast.Node).Type"},
			})
		},
	})
}

func init() {
	ast := modPath + "/catalog/cldrplural/ast"
	cldr := modPath + "/catalog/cldrplural"
	opaque := map[string]string{
		cldr + ".evaluate":            "pure",
		cldr + ".ParseRules":          "event",
		ast + ".Parse":                "event",
		ast + ".parseSampleRange":     "pure",
		ast + ".increment":            "pure",
		"(*" + ast + ".scanner).Scan": "state",
		"strings.FieldsFunc":          "event",
	}
	for _, f := range []string{"condition", "andCondition", "rangeList", "samples"} {
		opaque["(*"+ast+".parser)."+f] = "state"
	}
	register(&Check{
		id:    "C22",
		specs: []string{"cldrrule", "cldrruleast"},
		rule: "Every path of the scanner and of the recursive descent parser (recursive calls by induction) of CLDR rules must consume the same tokens and build the same tree as a reference definition; " +
			"the value of conditions of every shape with up to three values, ranges or relations must be the one of the reference for all operands.",
		min: map[string]int{"function": 9, "equation": 16},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{
				opaque: opaque,
				inits:  []string{"catalog/cldrplural/ast"},
			})
		},
	})
}
