//verif:package catalog/po

package po

import (
	"maps"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"
)

// What stands between the first and the last quote of every line, without escapes.
func zspec__DecodePoString(text string) string {
	if text == `""` {
		return ""
	}
	lines := strings.Split(text, "\n")
	for i := range lines {
		first, last := strings.Index(lines[i], `"`), strings.LastIndex(lines[i], `"`)
		if first < 0 || last < 0 || first == last {
			lines[i] = ""
		} else {
			lines[i] = string(unescapePoBytes([]byte(lines[i][first+1 : last])))
		}
	}
	return strings.Join(lines, "")
}

func zsPlain(s []byte) int {
	r := 0
	for r < len(s) {
		c := s[r]
		if c == '\\' || c == '"' || c < ' ' {
			break
		}
		if c < utf8.RuneSelf {
			r++
			continue
		}
		rr, size := utf8.DecodeRune(s[r:])
		if rr == utf8.RuneError && size == 1 {
			break
		}
		r += size
	}
	return r
}

func zspec__unescapePoBytes(s []byte) []byte {
	r := zsPlain(s)
	if r == len(s) {
		return s
	}
	b := make([]byte, len(s)+2*utf8.UTFMax)
	w := copy(b, s[:r])
	for r < len(s) {
		if w >= len(b)-2*utf8.UTFMax {
			nb := make([]byte, (len(b)+utf8.UTFMax)*2)
			copy(nb, b[:w])
			b = nb
		}
		c := s[r]
		if c >= utf8.RuneSelf {
			rr, size := utf8.DecodeRune(s[r:])
			r += size
			w += utf8.EncodeRune(b[w:], rr)
			continue
		}
		r++
		if c != '\\' || r >= len(s) {
			b[w] = c
			w++
			continue
		}
		switch s[r] {
		case '"', '\\', '/', '\'':
			b[w] = s[r]
			r++
		case 'a':
			b[w] = 7
			r++
		case 'b':
			b[w] = 8
			r++
		case 't':
			b[w] = 9
			r++
		case 'n':
			b[w] = 10
			r++
		case 'v':
			b[w] = 11
			r++
		case 'f':
			b[w] = 12
			r++
		case 'r':
			b[w] = 13
			r++
		case 'x':
			b[w] = '\\'
			if len(s[r+1:]) >= 2 {
				if v, err := strconv.ParseUint(string(s[r+1:][:2]), 16, 8); err == nil && v < utf8.RuneSelf {
					b[w] = byte(v)
					r += 3
				}
			}
		default:
			b[w] = '\\'
		}
		w++
	}
	return b[:w]
}

func zspec_Header_Set(h *Header, key, val string) {
	if p := zsField(h, key); p != nil {
		*p = val
		return
	}
	if h.UnknownFields == nil {
		h.UnknownFields = map[string]string{}
	}
	h.UnknownFields[key] = val
}

// Names of fields are compared without regard to case.
func zsField(h *Header, key string) *string {
	switch strings.ToUpper(key) {
	case "PROJECT-ID-VERSION":
		return &h.ProjectIDVersion
	case "REPORT-MSGID-BUGS-TO":
		return &h.ReportMsgidBugsTo
	case "POT-CREATION-DATE":
		return &h.POTCreationDate
	case "PO-REVISION-DATE":
		return &h.PORevisionDate
	case "LAST-TRANSLATOR":
		return &h.LastTranslator
	case "LANGUAGE-TEAM":
		return &h.LanguageTeam
	case "LANGUAGE":
		return &h.Language
	case "MIME-VERSION":
		return &h.MimeVersion
	case "CONTENT-TYPE":
		return &h.ContentType
	case "CONTENT-TRANSFER-ENCODING":
		return &h.ContentTransferEncoding
	case "PLURAL-FORMS":
		return &h.PluralForms
	case "X-GENERATOR":
		return &h.XGenerator
	}
	return nil
}

func zspec_Header_Get(h *Header, key string) string {
	if p := zsField(h, key); p != nil {
		return *p
	}
	if len(h.UnknownFields) == 0 {
		return ""
	}
	if v, ok := h.UnknownFields[key]; ok {
		return v
	}
	for _, name := range slices.Sorted(maps.Keys(h.UnknownFields)) {
		if strings.EqualFold(name, key) {
			return h.UnknownFields[name]
		}
	}
	return ""
}

func zspec_File_GetMessage(f *File, ctx, id string) *Message {
	if msg, ok := f.Messages[ctx][id]; ok {
		return msg
	}
	return nil
}

func zspec_File_AddMessage(f *File, msg *Message) {
	if f.Messages == nil {
		f.Messages = Messages{}
	}
	if msg.ID != "" {
		zspec_Messages_Add(f.Messages, msg)
	}
}

func zspec_Messages_Add(m Messages, msg *Message) {
	if _, ok := m[msg.Context]; !ok {
		m[msg.Context] = map[string]*Message{}
	}
	if old, ok := m[msg.Context][msg.ID]; ok {
		old.Merge(msg)
	} else {
		m[msg.Context][msg.ID] = msg
	}
}

func zspec_Comment_HasFlag(c *Comment, flag string) bool { return slices.Contains(c.Flags, flag) }

// The same without the list.
func zalt1__DecodePoString(text string) string {
	if text == `""` {
		return ""
	}
	var out strings.Builder
	for _, line := range strings.Split(text, "\n") {
		first, last := strings.Index(line, `"`), strings.LastIndex(line, `"`)
		if first >= 0 && last >= 0 && first != last {
			out.WriteString(string(unescapePoBytes([]byte(line[first+1 : last]))))
		}
	}
	return out.String()
}
