edit('internal/mo/parser.go','''	if err := p.parseByteOrder(); err != nil {
		return nil, err
	}

	if err := p.parseHeader(); err != nil {
		return nil, err
	}

	if err := p.parseMessageData(); err != nil {
		return nil, err
	}

	file, err := p.parseMessages()
	if err != nil {
		return nil, err
	}

	return file, nil''','''	for _, step := range []func() error{p.parseByteOrder, p.parseHeader, p.parseMessageData} {
		if err := step(); err != nil {
			return nil, err
		}
	}

	return p.parseMessages()''')
edit('internal/mo/parser.go','''		// Context
		if idx := strings.Index(msg.ID, eotSeparator); idx != -1 {
			msg.Context = msg.ID[:idx]
			msg.ID = msg.ID[idx+1:]
		}
''','''		// Context
		if ctx, rest, ok := strings.Cut(msg.ID, eotSeparator); ok {
			msg.Context, msg.ID = ctx, rest
		}
''')
edit('internal/mo/parser.go','''		key := strings.TrimSpace(line[:idx])
		val := strings.TrimSpace(line[idx+1:])
		header.Set(key, val)''','''		setField(header, line[:idx], line[idx+1:])''')
edit('internal/mo/parser.go','''func (p *parser) binaryRead(''','''func setField(header *po.Header, key, val string) {
	val = strings.TrimSpace(val)
	header.Set(strings.TrimSpace(key), val)
}

func (p *parser) binaryRead(''')
edit('internal/mo/parser.go','''	if v := header.MajorVersion; v != 0 && v != 1 {
		return errors.New("mo file has invalid major version number")
	}''','''	if header.MajorVersion > 1 {
		return errors.New("mo file has invalid major version number")
	}''')
edit('internal/mo/parser.go','''	for _, d := range p.messageData {
		if err := p.binaryRead(&d.translationLength); err != nil {
			return err
		}
''','''	for i := 0; i < len(p.messageData); i++ {
		d := p.messageData[i]
		if err := p.binaryRead(&d.translationLength); err != nil {
			return err
		}
''')
edit('catalog/po/parser.go','''			comment.Translator += line
''','''			comment.Translator = comment.Translator + line
''')
edit('catalog/po/parser.go','''	loop:
	for {''','''	loop:
	for {''') if False else None
edit('catalog/po/parser.go','''		case msgContext:
			line := lit[8:] // msgctxt
			msg.Context = DecodePoString(line)
''','''		case msgContext:
			msg.Context = DecodePoString(strings.TrimPrefix(lit, "msgctxt "))
''') if False else None
edit('catalog/po/parser.go','''				colonIdx := strings.Index(rawRef, ":")
				if colonIdx <= 0 {
					// no line number
					ref := &Reference{
						Path: rawRef,
						Line: -1,
					}
					comment.References = append(comment.References, ref)
					continue
				}

				lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:])
				if err != nil {
					lineNumber = -1
				}
				ref := &Reference{
					Path: rawRef[:colonIdx],
					Line: lineNumber,
				}
				comment.References = append(comment.References, ref)
''','''				comment.References = append(comment.References, parseReference(rawRef))
''')
edit('catalog/po/parser.go','''func (p *Parser) parseHeader(''','''func parseReference(raw string) *Reference {
	ref := &Reference{Path: raw, Line: -1}
	colonIdx := strings.IndexByte(raw, ':')
	if colonIdx > 0 {
		ref.Path = raw[:colonIdx]
		if n, err := strconv.Atoi(raw[colonIdx+1:]); err == nil {
			ref.Line = n
		}
	}
	return ref
}

func (p *Parser) parseHeader(''')
edit('catalog/po/parser.go','''		if _, ok := p.messages[msg.Context][msg.ID]; ok {
			return nil, fmt.Errorf("po file has a duplicate entry for %q line %d", msg.ID, p.s.pos)
		}

		p.messages[msg.Context][msg.ID] = msg
''','''		inContext := p.messages[msg.Context]
		if _, ok := inContext[msg.ID]; ok {
			return nil, fmt.Errorf("po file has a duplicate entry for %q line %d", msg.ID, p.s.pos)
		}

		inContext[msg.ID] = msg
''')
edit('catalog/po/scanner.go','''	if strings.HasPrefix(line, msgStrPrefix) {
		if line == emptyMessageStr || reMsgStr.MatchString(line) {
			return msgStr, line
		} else if reMsgStrPlural.MatchString(line) {
			return msgStrPlural, line
		} else {
			return failure, line
		}
	}
''','''	if strings.HasPrefix(line, msgStrPrefix) {
		switch {
		case line == emptyMessageStr, reMsgStr.MatchString(line):
			return msgStr, line
		case reMsgStrPlural.MatchString(line):
			return msgStrPlural, line
		}
		return failure, line
	}
''')
edit('catalog/po/scanner.go','''	// Short path for better performance
	if len(line) == 0 {
		return s.scanWhitespace()
	}
''','')
edit('catalog/po/scanner.go','''	for {
		line, err := s.read()
		if err == io.EOF {
			break
		}

		if len(line) == 0 || strings.TrimSpace(line) == "" {
			continue
		}

		s.unread()
		break
	}

	return whitespace, ""''','''	for {
		line, err := s.read()
		if err != nil {
			return whitespace, ""
		}
		if strings.TrimSpace(line) != "" {
			s.unread()
			return whitespace, ""
		}
	}''')
edit('catalog/po/po_string.go','''	for idx := 0; idx < len(lines); idx++ {
		left := strings.Index(lines[idx], `"`)
		right := strings.LastIndex(lines[idx], `"`)
		if left < 0 || right < 0 || left == right {
			lines[idx] = ""
			continue
		}
		line := lines[idx][left+1 : right]

		res := unescapePoBytes([]byte(line))
		lines[idx] = string(res)
	}''','''	for idx, line := range lines {
		left := strings.IndexByte(line, '"')
		right := strings.LastIndexByte(line, '"')
		if left < 0 || right <= left {
			lines[idx] = ""
			continue
		}

		lines[idx] = string(unescapePoBytes([]byte(line[left+1 : right])))
	}''')
edit('catalog/po/po_string.go','''			case 'b':
				b[w] = '\\b'
				r++
				w++
			case 'f':
				b[w] = '\\f'
				r++
				w++
''','''			case 'f':
				b[w] = '\\f'
				w++
				r++
			case 'b':
				b[w] = '\\b'
				w++
				r++
''')
