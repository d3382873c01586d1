//verif:package catalog/po

package po

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

var (
	zsPrevContext = regexp.MustCompile(`^#\|\s+msgctxt`)
	zsPrevID      = regexp.MustCompile(`^#\|\s+msgid`)
	zsPrevText    = regexp.MustCompile(`^#\|\s+".*"\s*$`)

	zsContext = regexp.MustCompile(`^msgctxt\s+".*"\s*$`)
	zsID      = regexp.MustCompile(`^msgid\s+".*"\s*$`)
	zsPlural  = regexp.MustCompile(`^msgid_plural\s+".*"\s*$`)
	zsStr     = regexp.MustCompile(`^msgstr\s*".*"\s*$`)
	zsForm    = regexp.MustCompile(`^msgstr\s*(\[\d+])\s*".*"\s*$`)
	zsText    = regexp.MustCompile(`^\s*".*"\s*$`)
)

func zspec__Parse(content []byte) (*File, error) {
	return zspec_Parser_Parse(&Parser{}, bytes.NewReader(content))
}

func zspec__ParseString(content string) (*File, error) {
	return zspec_Parser_Parse(&Parser{}, strings.NewReader(content))
}

func zspec__NewParser() *Parser { return &Parser{} }

func zspec_Parser_SetIgnoreComments(p *Parser, ignore bool) { p.ignoreComments = ignore }

// A file is a sequence of messages; the message without an identifier is the header.
func zspec_Parser_Parse(p *Parser, r io.Reader) (*File, error) {
	lines := bufio.NewScanner(r)
	lines.Buffer(nil, math.MaxInt)
	p.s = &scanner{lineScanner: lines, ignoreComments: p.ignoreComments}
	p.messages = Messages{}
	p.header = nil

	if zsToken(p) == eof {
		if p.s.err != nil {
			return nil, p.s.err
		}
		return nil, errors.New("empty")
	}
	p.n = 1

	file, err := p.parseFile()
	if p.s.err != nil {
		return nil, p.s.err
	}
	return file, err
}

// zsToken returns the token that was put back or reads the next one.
func zsToken(p *Parser) token {
	if p.n == 1 {
		p.n = 0
	} else {
		p.lastToken, p.lastLiteral = p.s.scan()
	}
	return p.lastToken
}

func zspec_Parser_parseFile(p *Parser) (*File, error) {
	for {
		msg, err := p.parseMessage()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return nil, err
		}
		if msg.ID == "" {
			if len(msg.Str) == 0 {
				continue
			}
			if p.header != nil {
				return nil, errors.New("second header")
			}
			if h, err := p.parseHeader(msg); err == nil {
				p.header = h
			}
			continue
		}
		if _, ok := p.messages[msg.Context]; !ok {
			p.messages[msg.Context] = map[string]*Message{}
		}
		if _, ok := p.messages[msg.Context][msg.ID]; ok {
			return nil, errors.New("duplicate")
		}
		p.messages[msg.Context][msg.ID] = msg
		if p.lastToken == eof {
			break
		}
	}
	if p.header == nil && len(p.messages) == 0 {
		return nil, errors.New("empty")
	}
	if p.header == nil {
		return &File{Header: &Header{}, Messages: p.messages}, nil
	}
	return &File{Header: p.header, Messages: p.messages}, nil
}

func zsIsComment(t token) bool {
	switch t {
	case commentTranslator, commentExtracted, commentReference, commentFlags, commentPrevContext, commentPrevContextLine, commentPrevMsgID, commentPrevMsgIDLine:
		return true
	}
	return false
}

// Comments, then the lines of the message up to a blank line, the end or the first line of the next message.
func zspec_Parser_parseMessage(p *Parser) (*Message, error) {
	if zsToken(p) == eof {
		return nil, io.EOF
	}
	p.n = 1
	msg := NewMessage()
	for {
		t := zsToken(p)
		p.n = 1
		if !zsIsComment(t) {
			break
		}
		comment, err := p.parseComment()
		if err != nil {
			return nil, err
		}
		msg.Comment = comment
	}

	form := -1
	for {
		t := zsToken(p)
		line := p.lastLiteral
		if zsIsComment(t) || (t == msgContext || t == msgID) && len(msg.Str) > 0 {
			p.n = 1
			return msg, nil
		}
		switch t {
		case eof, whitespace:
			return msg, nil
		case msgContext:
			msg.Context = DecodePoString(line[len("msgctxt "):])
		case msgContextLine:
			msg.Context += DecodePoString(line)
		case msgID:
			msg.ID = DecodePoString(line[len("msgid "):])
		case msgIDLine:
			msg.ID += DecodePoString(line)
		case msgIDPlural:
			msg.IDPlural = DecodePoString(line[len("msgid_plural "):])
		case msgIDPluralLine:
			msg.IDPlural += DecodePoString(line)
		case msgStr:
			msg.Str[0] = DecodePoString(line[len("msgstr"):])
		case msgStrLine:
			msg.Str[0] += DecodePoString(line)
		case msgStrPlural:
			right := strings.Index(line, "]")
			i, err := strconv.Atoi(line[strings.Index(line, "[")+1 : right])
			if err != nil {
				return nil, errors.New("index")
			}
			form = i
			msg.Str[i] = DecodePoString(line[right+1:])
		case msgStrPluralLine:
			if form < 0 {
				return nil, errors.New("no form")
			}
			msg.Str[form] += DecodePoString(line)
		default:
			return nil, errors.New("unexpected line")
		}
	}
}

func zsAppendLine(text *string, line string) {
	if *text != "" {
		*text += "\n"
	}
	*text += strings.TrimSpace(line)
}

func zspec_Parser_parseComment(p *Parser) (*Comment, error) {
	c := &Comment{References: []*Reference{}, Flags: []string{}}
	for {
		t := zsToken(p)
		line := p.lastLiteral
		switch t {
		case eof:
			return nil, io.EOF
		case failure:
			return nil, errors.New("unexpected line")
		case commentTranslator:
			zsAppendLine(&c.Translator, line[1:])
		case commentExtracted:
			zsAppendLine(&c.Extracted, line[2:])
		case commentFlags:
			c.Flags = append(c.Flags, strings.FieldsFunc(strings.TrimSpace(line[2:]), func(r rune) bool { return r == ',' || unicode.IsSpace(r) })...)
		case commentReference:
			for _, ref := range strings.Split(strings.TrimSpace(line[2:]), " ") {
				c.References = append(c.References, zsReference(strings.TrimSpace(ref)))
			}
		case commentPrevContext:
			if text := strings.TrimSpace(line[len("#| msgctxt"):]); text != "" {
				c.PrevMsgContext += DecodePoString(text)
			}
		case commentPrevContextLine:
			c.PrevMsgContext += DecodePoString(strings.TrimSpace(line[2:]))
		case commentPrevMsgID:
			if text := strings.TrimSpace(line[len("#| msgid"):]); text != "" {
				c.PrevMsgID += DecodePoString(text)
			}
		case commentPrevMsgIDLine:
			c.PrevMsgID += DecodePoString(strings.TrimSpace(line[2:]))
		default:
			p.n = 1
			return c, nil
		}
	}
}

func zsReference(text string) *Reference {
	i := strings.Index(text, ":")
	if i <= 0 {
		return &Reference{Path: text, Line: -1}
	}
	n, err := strconv.Atoi(text[i+1:])
	if err != nil {
		n = -1
	}
	return &Reference{Path: text[:i], Line: n}
}

// Lines of the form key: value; a header with other lines is ignored.
func zspec_Parser_parseHeader(p *Parser, msg *Message) (*Header, error) {
	h := &Header{}
	for _, line := range strings.Split(msg.Str[0], "\n") {
		key, val, ok := strings.Cut(line, ":")
		if !ok {
			if strings.TrimSpace(line) != "" {
				return nil, errors.New("invalid header")
			}
			continue
		}
		h.Set(strings.TrimSpace(key), strings.TrimSpace(val))
	}
	h.Comment = msg.Comment
	return h, nil
}

var _ = fmt.Sprint

// A line is classified by its keyword; a line that only consists of a text continues what the last line was.
func zspec_scanner_scan(s *scanner) (token, string) {
	line, ok := zsLine(s)
	if !ok {
		s.lastToken = eof
		return eof, ""
	}
	line = strings.TrimSpace(line)
	tok, lit := zsKind(s, line)
	s.lastToken = tok
	return tok, lit
}

func zsLine(s *scanner) (string, bool) {
	if s.n == 1 {
		s.n = 0
		return s.lineScanner.Text(), true
	}
	if !s.lineScanner.Scan() {
		s.err = s.lineScanner.Err()
		return "", false
	}
	s.pos++
	return s.lineScanner.Text(), true
}

func zsKind(s *scanner, line string) (token, string) {
	if line == "" {
		return s.scanWhitespace()
	}
	if strings.HasPrefix(line, "#") {
		return zsCommentKind(s, line)
	}
	switch {
	case strings.HasPrefix(line, "msgid ") && zsID.MatchString(line):
		return msgID, line
	case strings.HasPrefix(line, "msgstr") && (line == `msgstr ""` || zsStr.MatchString(line)):
		return msgStr, line
	case strings.HasPrefix(line, "msgstr") && zsForm.MatchString(line):
		return msgStrPlural, line
	case strings.HasPrefix(line, "msgstr"):
		return failure, line
	case strings.HasPrefix(line, "msgid_plural ") && zsPlural.MatchString(line):
		return msgIDPlural, line
	case strings.HasPrefix(line, "msgctxt ") && zsContext.MatchString(line):
		return msgContext, line
	case strings.HasPrefix(line, `"`) && strings.HasSuffix(line, `"`) && zsText.MatchString(line):
		switch s.lastToken {
		case msgID, msgIDLine:
			return msgIDLine, line
		case msgIDPlural, msgIDPluralLine:
			return msgIDPluralLine, line
		case msgStr, msgStrLine:
			return msgStrLine, line
		case msgStrPlural, msgStrPluralLine:
			return msgStrPluralLine, line
		case msgContext, msgContextLine:
			return msgContextLine, line
		}
	}
	return failure, line
}

func zsCommentKind(s *scanner, line string) (token, string) {
	if len(line) == 1 {
		if s.ignoreComments {
			return s.scan()
		}
		return commentTranslator, line
	}
	kind := line[1]
	if len(line) == 2 && (kind == '.' || kind == ':' || kind == ',' || kind == '|') || s.ignoreComments && kind != ',' {
		return s.scan()
	}
	switch kind {
	case '.':
		return commentExtracted, line
	case ':':
		return commentReference, line
	case ',':
		return commentFlags, line
	case '|':
		if zsPrevContext.MatchString(line) {
			return commentPrevContext, line
		}
		if zsPrevID.MatchString(line) {
			return commentPrevMsgID, line
		}
		if !zsPrevText.MatchString(line) {
			return failure, line
		}
		switch s.lastToken {
		case commentPrevContext, commentPrevContextLine:
			return commentPrevContextLine, line
		case commentPrevMsgID, commentPrevMsgIDLine:
			return commentPrevMsgIDLine, line
		}
		return commentPrevUnknown, line
	}
	return commentTranslator, line
}

// Blank lines up to the next line with a text.
func zspec_scanner_scanWhitespace(s *scanner) (token, string) {
	for {
		line, ok := zsLine(s)
		if !ok {
			break
		}
		if strings.TrimSpace(line) != "" {
			s.n = 1
			break
		}
	}
	return whitespace, ""
}
