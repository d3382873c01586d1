package main

func init() {
	hum := modPath + "/humanize"
	loc := "(*" + modPath + ".Localizer)."
	opaque := map[string]string{
		modPath + "/internal/cast.ToNumber":     "pure",
		modPath + "/internal/cast.Indirect":     "pure",
		modPath + "/internal/cast.ToTime":       "event",
		modPath + "/internal/calendar.IsLeap":   "pure",
		modPath + "/internal/calendar.LeapDays": "pure",
		hum + ".newTimeSinceOptions":            "event",
	}
	for _, m := range []string{"Get", "Getf", "NGet", "NGetf", "PGet", "PGetf", "NPGet", "NPGetf", "Print", "Language"} {
		opaque[loc+m] = "pure"
	}
	for _, m := range []string{"Intcomma", "TimeSince", "TimeUntil", "FormatTime"} {
		opaque["(*"+hum+".Humanizer)."+m] = "pure"
	}
	register(&Check{
		id:    "C20",
		specs: []string{"humannum", "calendar", "timecast"},
		rule:  "Every path that renders a number, a size, a duration or a relative date must select the same text with the same values in the same cases as a reference definition.",
		min:   map[string]int{"function": 12},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{inits: []string{"humanize"}, opaque: opaque, pureInvoke: []string{"(reflect.Type).String"}})
		},
	})
	pure := map[string]string{}
	for _, m := range []string{"Get", "PGet"} {
		pure[loc+m] = "pure"
	}
	register(&Check{
		id:    "C19",
		specs: []string{"dates"},
		rule:  "Every path of the formatting of a time must select the same format and write the same part of the time, in the same language, for every letter as a reference definition; the letter c must write all leading zeros.",
		min:   map[string]int{"function": 4, "equation": 1},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{inits: []string{"humanize"}, opaque: pure})
		},
	})
	coll := map[string]string{
		modPath + ".NewBundle": "event", modPath + ".NewLocalizer": "event", modPath + ".WithSourceLanguage": "pure", modPath + ".WithDefaultDomain": "pure",
		modPath + ".WithDomainLoader": "event", modPath + ".WithLanguage": "pure", modPath + ".NewErrNotFound": "pure", loc + "Language": "pure", loc + "Get": "pure",
		modPath + "/catalog.NewPoDecoder": "pure", modPath + "/catalog.(catalog.Decoder).Decode": "event",
	}
	register(&Check{
		id:    "C25",
		specs: []string{"collection"},
		rule:  "Every path that creates a collection, a humanizer or loads the texts of a language must use the same languages, formats, options and files in the same order as a reference definition.",
		min:   map[string]int{"function": 9},
		run: func(c *Ctx) {
			c.compareSpecs(&relSpec{inits: []string{"humanize"}, opaque: coll})
		},
	})
}
