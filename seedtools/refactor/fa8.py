edit('catalog/po/po_string.go','''	lines = append(lines, "")
	copy(lines[1:], lines)
	lines[0] = `""`
''','''	lines = append([]string{`""`}, lines...)
''')
edit('catalog/po/po_string.go','''	createNewLine := func() {
		poLine := fmt.Sprintf(`"%s"`, escapePoString(lineBuf.String()))
		lines = append(lines, poLine)
		lineBuf.Reset()
		currentLen = 0
	}
''','''	createNewLine := func() {
		lines = append(lines, quoteLine(lineBuf.String()))
		currentLen = 0
		lineBuf.Reset()
	}
''')
edit('catalog/po/po_string.go','''// Adapted from''','''func quoteLine(s string) string { return "\\"" + escapePoString(s) + "\\"" }

// Adapted from''')
edit('catalog/po/po_string.go','''	init := make([]byte, 0, len(s))
	buf := bytes.NewBuffer(init)

	for _, char := range s {
		// A newline closes the line
		if char == '\\n' {
			poLine := fmt.Sprintf(`"%s\\n"`, escapePoString(buf.String()))
			lines = append(lines, poLine)
			buf.Reset()
			continue
		}

		buf.WriteRune(char)
	}
''','''	var buf bytes.Buffer
	buf.Grow(len(s))

	for _, char := range s {
		if char != '\\n' {
			buf.WriteRune(char)
			continue
		}
		lines = append(lines, "\\""+escapePoString(buf.String())+"\\\\n\\"")
		buf.Reset()
	}
''')
edit('catalog/po/encoder.go','''		buff.WriteRune('"')
		buff.WriteString(escapePoString(header.key))
		buff.WriteString(": ")
		buff.WriteString(escapePoString(header.value))
		buff.WriteString("\\\\n\\"\\n")''','''		fmt.Fprintf(buff, "\\"%s: %s\\\\n\\"\\n", escapePoString(header.key), escapePoString(header.value))''')
edit('catalog/po/encoder.go','''		var hasHeader bool
		for _, header := range headers {
			if header.value != "" {
				hasHeader = true
				break
			}
		}
		if !hasHeader {
			return
		}
''','''		if !slices.ContainsFunc(headers, func(h headerEntry) bool { return h.value != "" }) {
			return
		}
''')
edit('catalog/po/encoder.go','''	if c.Translator != "" {
		for _, comment := range wrapString(c.Translator, enc.wrapWidth) {
			buff.WriteString("# ")
			buff.WriteString(comment)
			buff.WriteString("\\n")
		}
	}

	if c.Extracted != "" {
		for _, comment := range wrapString(c.Extracted, enc.wrapWidth) {
			buff.WriteString("#. ")
			buff.WriteString(comment)
			buff.WriteString("\\n")
		}
	}
''','''	if c.Translator != "" {
		enc.writeLines(buff, "# ", c.Translator)
	}

	if c.Extracted != "" {
		enc.writeLines(buff, "#. ", c.Extracted)
	}
''')
edit('catalog/po/encoder.go','''func (enc *Encoder) encodeMessage(''','''func (enc *Encoder) writeLines(buff *bytes.Buffer, prefix, text string) {
	for _, line := range wrapString(text, enc.wrapWidth) {
		buff.WriteString(prefix)
		buff.WriteString(line)
		buff.WriteByte('\\n')
	}
}

func (enc *Encoder) encodeMessage(''')
edit('catalog/po/encoder.go','''	b := enc.encode(f)
	_, err := enc.w.Write(b)
	if err != nil {
		return fmt.Errorf("po: cannot write: %w", err)
	}

	return nil
''','''	if _, err := enc.w.Write(enc.encode(f)); err != nil {
		return fmt.Errorf("po: cannot write: %w", err)
	}
	return nil
''')
edit('catalog/po/encoder.go','''		for i, msg := range messages {
			if i > 0 {
				buff.WriteString("\\n")
			}
			enc.encodeMessage(buff, msg)
		}
''','''		for i := range messages {
			if i != 0 {
				buff.WriteByte('\\n')
			}
			enc.encodeMessage(buff, messages[i])
		}
''')
edit('catalog/po/encoder.go','''				if c > k {
					return 1
				} else {
					return -1
				}
			}
			if c, k := a.Comment.References[i].Column''','''				return cmpInt(c, k)
			}
			if c, k := a.Comment.References[i].Column''')
edit('catalog/po/encoder.go','''func DefaultSortFunction(''','''func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func DefaultSortFunction(''')
