edit('catalog/po.go','''	if tr, hasTranslation := msg.translations[idx]; !hasTranslation || tr == "" {
		return nil, NewErrMissingTranslation(c.language, c.domain, ctx, msgID, idx)
	}

	return msg, nil''','''	tr := msg.translations[idx]
	if len(tr) > 0 {
		return msg, nil
	}
	return nil, NewErrMissingTranslation(c.language, c.domain, ctx, msgID, idx)''')
edit('catalog/po.go','''	for ctx := range c.lookupMap {
		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))

		for msgID := range c.lookupMap[ctx] {
			msg := c.lookupMap[ctx][msgID]
			cpy[ctx][msgID] = msg.Clone()
		}
	}''','''	for ctx, msgs := range c.lookupMap {
		inner := make(map[string]*GettextMessage)
		for msgID, msg := range msgs {
			inner[msgID] = msg.Clone()
		}
		cpy[ctx] = inner
	}''')
edit('catalog/po_decoder.go','''	lookupMap := make(PoLookupMap, len(file.Messages))

	for ctx := range file.Messages {
		if len(file.Messages[ctx]) == 0 {
			continue
		}

		if _, hasContext := lookupMap[ctx]; !hasContext {
			lookupMap[ctx] = make(map[string]*GettextMessage, len(file.Messages[ctx]))
		}

		for msgID, poMsg := range file.Messages[ctx] {
			if msgID == "" {
				continue
			}

			if poMsg.Comment != nil && poMsg.Comment.HasFlag("fuzzy") {
				continue
			}

			d := &GettextMessage{
				translations: poMsg.Str,
			}

			lookupMap[poMsg.Context][poMsg.ID] = d
		}
	}
''','''	lookupMap := collect(file)
''')
edit('catalog/po_decoder.go','''func readerToReadSeeker''','''func isFuzzy(m *po.Message) bool { return m.Comment != nil && m.Comment.HasFlag("fuzzy") }

func collect(file *po.File) PoLookupMap {
	lookupMap := make(PoLookupMap)
	for ctx, messages := range file.Messages {
		if len(messages) == 0 {
			continue
		}

		byID, ok := lookupMap[ctx]
		if !ok {
			byID = make(map[string]*GettextMessage, len(messages))
			lookupMap[ctx] = byID
		}

		for msgID, poMsg := range messages {
			if msgID != "" && !isFuzzy(poMsg) {
				lookupMap[poMsg.Context][poMsg.ID] = &GettextMessage{translations: poMsg.Str}
			}
		}
	}
	return lookupMap
}

func readerToReadSeeker''')
edit('catalog/po_decoder.go','''	if useCLDRPlural || !hasPluralFormHeader {
		cat.pluralFunc = getCLDRPluralFunction(lang)
		return cat, nil
	}

	if val := file.Header.Get(poCLDRHeader); strings.EqualFold(val, "true") {''','''	if useCLDRPlural || !hasPluralFormHeader || strings.EqualFold(file.Header.Get(poCLDRHeader), "true") {''')
edit('catalog/po_decoder.go','''		if form, ok := catToForm[cat]; ok {
			return form, nil
		}

		return 0, nil''','''		return catToForm[cat], nil''')
edit('catalog/json.go','''	cat := &jsonCatalog{
		lookupMap: make(jsonLookupMap),
		domain:    domain,
		language:  lang,
		pluralSet: pluralSet,
	}

	for _, key := range''','''	cat := &jsonCatalog{language: lang}
	cat.domain = domain
	cat.pluralSet = pluralSet
	cat.lookupMap = make(jsonLookupMap, len(messages))

	for _, key := range''')
edit('catalog/json.go','''	msg := srcMsg.Clone()
	if msg.Translations == nil {
		msg.Translations = make(map[cldrplural.Category]string)
	}

	if _, hasOther := msg.Translations[cldrplural.Other]; !hasOther {
		return fmt''','''	if _, hasOther := srcMsg.Translations[cldrplural.Other]; !hasOther {
		return fmt''')
edit('catalog/json.go','''	applyCategoriesToJSONMessage(c.pluralSet.Categories, msg)

	ctx := msg.Context
	if _, ok := c.lookupMap[ctx]; !ok {
		c.lookupMap[ctx] = make(map[string]*JSONMessage)
	}

	c.lookupMap[ctx][key] = msg
''','''	msg := srcMsg.Clone()
	applyCategoriesToJSONMessage(c.pluralSet.Categories, msg)

	msgs := c.lookupMap[msg.Context]
	if msgs == nil {
		msgs = make(map[string]*JSONMessage)
		c.lookupMap[msg.Context] = msgs
	}
	msgs[key] = msg
''')
edit('catalog/json.go','''		supported := slices.Contains(categories, cat)
		if !supported {
			delete(msg.Translations, cat)
			continue
		}

		// Add plural categories that are supported by this language and are not yet set.
		if _, hasValue := msg.Translations[cat]; !hasValue {
			msg.Translations[cat] = ""
		}''','''		_, hasValue := msg.Translations[cat]
		switch supported := slices.Contains(categories, cat); {
		case !supported:
			delete(msg.Translations, cat)
		case !hasValue:
			msg.Translations[cat] = ""
		}''')
edit('catalog/json.go','''	if _, hasCtx := c.lookupMap[ctx]; !hasCtx {
		return "", NewErrMissingContext(c.language, c.domain, ctx)
	}

	if _, hasMsg := c.lookupMap[ctx][key]; !hasMsg {
		return "", NewErrMissingMessageID(c.language, c.domain, ctx, key)
	}

	msg := c.lookupMap[ctx][key]
	tr, ok''','''	byKey, hasCtx := c.lookupMap[ctx]
	if !hasCtx {
		return "", NewErrMissingContext(c.language, c.domain, ctx)
	}

	msg, hasMsg := byKey[key]
	if !hasMsg {
		return "", NewErrMissingMessageID(c.language, c.domain, ctx, key)
	}

	tr, ok''')
