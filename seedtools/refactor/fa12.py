# keys are collected and sorted by hand
edit("bundle.go",'''	for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {''','''	domains := make([]string, 0, len(b.domainLoaders))
	for domain := range b.domainLoaders {
		domains = append(domains, domain)
	}
	sort.Strings(domains)
	for i := range domains {
		domain := domains[i]''')
edit("bundle.go",'''	"slices"
''','''	"slices"
	"sort"
''')
edit("catalog/po/encoder.go",'''	m := make(map[int]string, len(orig))
	for k, v := range orig {
		m[k] = EncodePoString(v, enc.wrapWidth)
	}
''','''	m := make(map[int]string, len(orig))
	for k := range orig {
		text := orig[k]
		m[k] = EncodePoString(text, enc.wrapWidth)
	}
	hasMany, count, longest := false, 0, 0
	for k, v := range m {
		if k > 1 {
			hasMany = true
		}
		if v != "" {
			count++
		}
		longest = max(longest, len(v))
	}
	_, _, _ = hasMany, count, longest
''')
edit("catalog/po/encoder.go",'''		keys := slices.Sorted(maps.Keys(m))
		for _, k := range keys {
			_, _ = fmt.Fprintf''','''		keys := make([]int, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.SortFunc(keys, func(a, b int) int { return a - b })
		for _, k := range keys {
			_, _ = fmt.Fprintf''')
edit("catalog/json.go",'''	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
		for key := range c.lookupMap[ctx] {
			msg := c.lookupMap[ctx][key]
			cpy[key] = msg.Clone()
		}
	}
	return cpy''','''	ctxs := slices.Collect(maps.Keys(c.lookupMap))
	slices.Sort(ctxs)
	for _, ctx := range ctxs {
		for key, msg := range c.lookupMap[ctx] {
			cpy[key] = msg.Clone()
		}
	}
	return cpy''')
edit("catalog/po.go",'''	for ctx := range c.lookupMap {
		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))

		for msgID := range c.lookupMap[ctx] {
			msg := c.lookupMap[ctx][msgID]
			cpy[ctx][msgID] = msg.Clone()
		}
	}
	return cpy''','''	for ctx, messages := range c.lookupMap {
		cpy[ctx] = cloneAll(messages)
	}
	return cpy''')
edit("catalog/po.go",'''func (c *GettextCatalog) getMessage(''','''func cloneAll(messages map[string]*GettextMessage) map[string]*GettextMessage {
	out := make(map[string]*GettextMessage, len(messages))
	for id, msg := range messages {
		out[id] = msg.Clone()
	}
	return out
}

func (c *GettextCatalog) getMessage(''')
edit("catalog/po_decoder.go",'''		if _, hasContext := lookupMap[ctx]; !hasContext {
			lookupMap[ctx] = make(map[string]*GettextMessage, len(file.Messages[ctx]))
		}

		for msgID, poMsg := range file.Messages[ctx] {
			if msgID == "" {
				continue
			}
''','''		messages := make(map[string]*GettextMessage, len(file.Messages[ctx]))
		lookupMap[ctx] = messages

		for msgID, poMsg := range file.Messages[ctx] {
			if len(msgID) == 0 {
				continue
			}
''')
edit("catalog/po_decoder.go",'''			lookupMap[poMsg.Context][poMsg.ID] = d''','''			messages[msgID] = d''')
edit("localizer.go",'''	keys := maps.Keys(l.locale.domainCatalogs)
''','''	keys := maps.Keys(l.locale.domainCatalogs)
''')
