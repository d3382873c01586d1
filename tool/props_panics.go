package main

func init() {
	register(&Check{
		id: "C08",
		rule: "Every function is analysed under the conditions of every path of its reference definition. It must not panic on a path on which the definition does not: every index, part of a list or text, " +
			"division, type assertion, entry of a map that is written, size and dereference is proved safe from the facts of the path, or the definition makes the same access, or the path does what the definition does.",
		min: map[string]int{"function": 250},
		run: func(c *Ctx) {
			c.runParts("panics", []string{
				"C19", "C12", "C20", "C18", "C23", "C03", "C04", "C05", "C06", "C10", "C11", "C13", "C14", "C15", "C17",
				"C21", "C22", "C24", "C25", "C27", "C28", "C29",
			})
		},
	})
}
