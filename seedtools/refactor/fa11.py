D="humanize/dateformat.go"
# letters: other comparisons, helpers, tables, library functions
edit(D,'''	if tf.data.Hour() > 11 {
		return tf.loc.Get("p.m.")
	}
	return tf.loc.Get("a.m.")''','''	key := "a.m."
	if tf.isAfternoon() {
		key = "p.m."
	}
	return tf.loc.Get(key)''')
edit(D,'''	if tf.data.Hour() > 11 {
		return tf.loc.Get("PM")
	}
	return tf.loc.Get("AM")
}''','''	if !tf.isAfternoon() {
		return tf.loc.Get("AM")
	}
	return tf.loc.Get("PM")
}

func (tf *timeFormatter) isAfternoon() bool { return tf.data.Hour()/12 == 1 }''')
edit(D,'''	hour := tf.data.Format("3")
	if tf.data.Minute() > 0 {
		return fmt.Sprintf("%s:%s", hour, tf.data.Format("04"))
	}
	return hour''','''	if tf.data.Minute() == 0 {
		return tf.data.Format("3")
	}
	return tf.data.Format("3:04")''')
edit(D,'''	if tf.data.Minute() == 0 && tf.data.Hour() == 0 {
		return tf.loc.Get("midnight")
	}

	if tf.data.Minute() == 0 && tf.data.Hour() == 12 {
		return tf.loc.Get("noon")
	}

	return fmt.Sprintf("%s %s", tf.f(), tf.a())''','''	if tf.data.Minute() == 0 {
		switch tf.data.Hour() {
		case 0:
			return tf.loc.Get("midnight")
		case 12:
			return tf.loc.Get("noon")
		}
	}
	return tf.f() + " " + tf.a()''')
edit(D,'''	tmp := tf.data.Nanosecond() / 1e3
	return fmt.Sprintf("%.6d", tmp)''','''	return fmt.Sprintf("%06d", tf.data.Nanosecond()/int(time.Microsecond))''')
edit(D,'''	weekdayIndex := (6 + int(tf.data.Weekday())) % 7
	weekdayName := weekdaysAbbr[weekdayIndex]
	return tf.loc.Get(weekdayName)''','''	index := int(tf.data.Weekday()) - 1
	if index < 0 {
		index = 6
	}
	return tf.loc.Get(weekdaysAbbr[index])''')
edit(D,'''	weekdayIndex := (6 + int(tf.data.Weekday())) % 7
	weekdayName := weekdays[weekdayIndex]
	return tf.loc.Get(weekdayName)''','''	return tf.loc.Get(tf.data.Weekday().String())''')
edit(D,'''	if winterOffset > summerOffset {
		winterOffset, summerOffset = summerOffset, winterOffset
	}

	if winterOffset != summerOffset { // the location has daylight saving
		if timeOffset != winterOffset {
			return "1"
		}
	}
	return "0"''','''	if winterOffset == summerOffset {
		return "0"
	}
	standard := min(winterOffset, summerOffset)
	if timeOffset == standard {
		return "0"
	}
	return "1"''')
edit(D,'''	return fmt.Sprintf("%t", calendar.IsLeap(tf.data.Year()))''','''	if calendar.IsLeap(tf.data.Year()) {
		return "true"
	}
	return "false"''')
edit(D,'''	case 11, 12, 13: // Special case
		return "th"
	}
	switch tf.data.Day() % 10 {
	case 1:
		return "st"
	case 2:
		return "nd"
	case 3:
		return "rd"
	default:
		return "th"
	}''','''	case 1, 21, 31:
		return "st"
	case 2, 22:
		return "nd"
	case 3, 23:
		return "rd"
	}
	return "th"''')
edit(D,'''	runes := []rune(formatString)
	var buf strings.Builder
	for i := 0; i < len(runes); i++ {
		switch runes[i] {
		case '\\\\':
			if i+1 < len(runes) {
				i++
				buf.WriteRune(runes[i])
			} else {
				buf.WriteRune('\\\\')
			}
''','''	var buf strings.Builder
	runes := []rune(formatString)
	last := len(runes) - 1
	for i := 0; i <= last; i++ {
		r := runes[i]
		if r == '\\\\' {
			if i < last {
				i++
			}
			buf.WriteRune(runes[i])
			continue
		}
		switch r {
''')
edit(D,'''func (tf *timeFormatter) H() string {
	return fmt.Sprintf("%02d", tf.data.Hour())
}''','''func (tf *timeFormatter) H() string {
	return tf.data.Format("15")
}''')
edit(D,'''func (tf *timeFormatter) m() string {
	return fmt.Sprintf("%02d", tf.data.Month())
}''','''func (tf *timeFormatter) m() string {
	return tf.data.Format("01")
}''')
edit(D,'''	return strconv.FormatInt(tf.data.Unix(), 10)''','''	return fmt.Sprint(tf.data.Unix())''')
edit(D,'''	return tf.data.Format(time.RFC1123Z)''','''	return tf.data.Format("Mon, 02 Jan 2006 15:04:05 -0700")''')
edit(D,'''func (tf *timeFormatter) F() string {
	monthName := months[int(tf.data.Month())]
	return tf.loc.Get(monthName)
}''','''func (tf *timeFormatter) F() string {
	return tf.loc.Get(tf.data.Month().String())
}''')
# collection
H="humanize/humanizer.go"
edit(H,'''	languages := make([]any, 0, len(loader.locales))
	// The order of the languages is decisive for the language matcher.
	for _, d := range locales {
		if _, isDuplicate := coll.locales[d.Lang]; isDuplicate {
			continue
		}
		languages = append(languages, d.Lang)
		coll.locales[d.Lang] = loader.locales[d.Lang].Format
	}
''','''	languages := make([]any, 0, len(locales))
	for i := range locales {
		lang := locales[i].Lang
		if _, ok := coll.locales[lang]; !ok {
			coll.locales[lang] = loader.locales[lang].Format
			languages = append(languages, lang)
		}
	}
''')
edit(H,'''	if data, ok := p.locales[loc.Language()]; ok {
		return &Humanizer{loc: loc, format: data}
	}

	return &Humanizer{loc: loc, format: fallbackFormat}''','''	format, ok := p.locales[loc.Language()]
	if !ok {
		format = fallbackFormat
	}
	return &Humanizer{loc: loc, format: format}''')
edit(H,'''		format := *fallbackFormat
		if d.Format != nil {
			format = *d.Format
		}
		format.setDefaults()
		locales = append(locales, &LocaleData{Lang: d.Lang, Fs: d.Fs, Format: &format})''','''		locales = append(locales, d.complete())''')
edit(H,'''func (f *FormatData) setDefaults() {''','''func (d *LocaleData) complete() *LocaleData {
	c := *d
	f := FormatData{}
	if d.Format != nil {
		f = *d.Format
	}
	f.setDefaults()
	c.Format = &f
	return &c
}

func (f *FormatData) setDefaults() {''')
edit("humanize/locale.go",'''	dec := catalog.NewPoDecoder()
	cat, err := dec.Decode(lang, domain, content)
	if err != nil {
		return nil, err
	}

	return cat, nil''','''	return catalog.NewPoDecoder().Decode(lang, domain, content)''')
