edit('bundle.go','''return slices.Clone(b.domains) }''','''return append([]string(nil), b.domains...) }''')
edit('bundle.go','''	return slices.AppendSeq(make([]language.Tag, 0, len(b.locales)), maps.Keys(b.locales))
''','''	res := make([]language.Tag, len(b.locales))
	i := 0
	for tag := range b.locales {
		res[i] = tag
		i++
	}
	return res
''')
edit('catalog/po.go','''	return &GettextMessage{translations: maps.Clone(m.translations)}
''','''	cpy := make(map[int]string, len(m.translations))
	maps.Copy(cpy, m.translations)
	return &GettextMessage{translations: cpy}
''')
edit('humanize/dateformat.go','''	var buf strings.Builder
	for i := 0''','''	buf := &strings.Builder{}
	for i := 0''')
edit('catalog/cldrplural/cldr.go','''	return rs.FormFunc(ops), nil
''','''	cpy := *ops
	form := rs.FormFunc
	return form(&cpy), nil
''')
edit('utils.go','''	sortLongestFirst(expansions)
	return expansions
''','''	sorted := slices.Clone(expansions)
	sortLongestFirst(sorted)
	return sorted
''')
