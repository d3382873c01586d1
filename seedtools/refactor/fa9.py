edit('catalog/json.go','''		switch strings.ToLower(key) {
		case "comment":
			m.Comment = value
		case "context":
			m.Context = value
		case "zero":
			m.Translations[cldrplural.Zero] = value
		case "one":
			m.Translations[cldrplural.One] = value
		case "two":
			m.Translations[cldrplural.Two] = value
		case "few":
			m.Translations[cldrplural.Few] = value
		case "many":
			m.Translations[cldrplural.Many] = value
		case "other":
			m.Translations[cldrplural.Other] = value
		}
''','''		name := strings.ToLower(key)
		if name == "comment" {
			m.Comment = value
			continue
		}
		if name == "context" {
			m.Context = value
			continue
		}
		if cat, ok := categoryByKey[name]; ok {
			m.Translations[cat] = value
		}
''')
edit('catalog/json.go','''// Defines the order in which''','''var categoryByKey = map[string]cldrplural.Category{
	"zero": cldrplural.Zero, "one": cldrplural.One, "two": cldrplural.Two,
	"few": cldrplural.Few, "many": cldrplural.Many, "other": cldrplural.Other,
}

// Defines the order in which''')
edit('catalog/json.go','''	if len(m.Translations) == 0 {
		m.Translations = map[cldrplural.Category]string{cldrplural.Other: ""}
	}
''','''	translations := m.Translations
	if len(translations) < 1 {
		translations = map[cldrplural.Category]string{cldrplural.Other: ""}
	}
''')
edit('catalog/json.go','''	if other, hasOther := m.Translations[cldrplural.Other]; hasOther && m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
		return json.Marshal(other)
	}
''','''	if len(translations) == 1 && m.Context == "" && m.Comment == "" {
		if other, hasOther := translations[cldrplural.Other]; hasOther {
			return json.Marshal(other)
		}
	}
''')
edit('catalog/json.go','''		value, ok := m.Translations[cat]
		if !ok {
			continue
		}

		key := strings.ToLower(cat.String())
		if err := writeKeyValue(key, value); err != nil {
			return nil, err
		}
''','''		if value, ok := translations[cat]; ok {
			if err := writeKeyValue(strings.ToLower(cat.String()), value); err != nil {
				return nil, err
			}
		}
''')
edit('catalog/json.go','''		buf.WriteString(fmt.Sprintf(`"%s": `, key))
		buf.Write(data)
		return nil''','''		_, _ = fmt.Fprintf(&buf, "%q: %s", key, data)
		return nil''')
edit('catalog/json_encoder.go','''	if err := jsonEnc.Encode(cat); err != nil {
		return err
	}

	return nil
''','''	return jsonEnc.Encode(cat)
''')
