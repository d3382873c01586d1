//verif:package catalog/po

package po

import (
	"bytes"
	"cmp"
	"fmt"
	"io"
	"maps"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/vorlif/spreak/internal/util"
)

func zspec__Marshal(f *File) ([]byte, error) {
	var out bytes.Buffer
	if err := zspec__NewEncoder(&out).Encode(f); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

// Header and references are written, texts are not wrapped, the messages are in the default order.
func zspec__NewEncoder(w io.Writer) *Encoder {
	enc := &Encoder{w: w}
	enc.wrapWidth = -1
	enc.writeHeader, enc.writeEmptyHeader, enc.writeReferences = true, true, true
	enc.sortFunction = DefaultSortFunction
	return enc
}

func zspec_Encoder_SetWrapWidth(enc *Encoder, wrapWidth int)     { enc.wrapWidth = wrapWidth }
func zspec_Encoder_SetWriteHeader(enc *Encoder, write bool)      { enc.writeHeader = write }
func zspec_Encoder_SetWriteEmptyHeader(enc *Encoder, write bool) { enc.writeEmptyHeader = write }
func zspec_Encoder_SetWriteReferences(enc *Encoder, write bool)  { enc.writeReferences = write }
func zspec_Encoder_SetSortFunction(enc *Encoder, cmp func(a *Message, b *Message) int) {
	enc.sortFunction = cmp
}

// The header, then all messages, separated by empty lines. The order only depends on the content of the file.
func zspec_Encoder_Encode(enc *Encoder, f *File) error {
	if f == nil {
		return fmt.Errorf("nil")
	}
	var out bytes.Buffer
	if f.Header != nil && enc.writeHeader {
		enc.encodeHeader(&out, f.Header)
		out.WriteString("\n")
	}
	if f.Messages != nil {
		var msgs []*Message
		for _, ctx := range slices.Sorted(maps.Keys(f.Messages)) {
			for _, id := range slices.Sorted(maps.Keys(f.Messages[ctx])) {
				msgs = append(msgs, f.Messages[ctx][id])
			}
		}
		if enc.sortFunction != nil {
			slices.SortStableFunc(msgs, enc.sortFunction)
		}
		for i, msg := range msgs {
			if i > 0 {
				out.WriteString("\n")
			}
			enc.encodeMessage(&out, msg)
		}
	}
	if _, err := enc.w.Write(out.Bytes()); err != nil {
		return fmt.Errorf("%w", err)
	}
	return nil
}

func zspec_Encoder_encodeHeader(enc *Encoder, out *bytes.Buffer, h *Header) {
	enc.encodeComment(out, h.Comment)
	fields := []headerEntry{
		{"Project-Id-Version", h.ProjectIDVersion},
		{"Report-Msgid-Bugs-To", h.ReportMsgidBugsTo},
		{"POT-Creation-Date", h.POTCreationDate},
		{"PO-Revision-Date", h.PORevisionDate},
		{"Last-Translator", h.LastTranslator},
		{"Language-Team", h.LanguageTeam},
		{"Language", h.Language},
		{"MIME-Version", h.MimeVersion},
		{"Content-Type", h.ContentType},
		{"Content-Transfer-Encoding", h.ContentTransferEncoding},
		{"Plural-Forms", h.PluralForms},
		{"X-Generator", h.XGenerator},
	}
	for _, name := range slices.Sorted(maps.Keys(h.UnknownFields)) {
		fields = append(fields, headerEntry{name, h.UnknownFields[name]})
	}
	if !enc.writeEmptyHeader {
		empty := true
		for _, f := range fields {
			if f.value != "" {
				empty = false
				break
			}
		}
		if empty {
			return
		}
	}
	out.WriteString("msgid \"\"\nmsgstr \"\"\n")
	for _, f := range fields {
		if f.value == "" && (f.key == "MIME-Version" || f.key == "Plural-Forms" || f.key == "X-Generator") {
			continue
		}
		out.WriteString(`"` + escapePoString(f.key) + ": " + escapePoString(f.value) + "\\n\"\n")
	}
}

func zspec_Encoder_encodeComment(enc *Encoder, out *bytes.Buffer, c *Comment) {
	if c == nil {
		return
	}
	if c.Translator != "" {
		for _, line := range wrapString(c.Translator, enc.wrapWidth) {
			out.WriteString("# " + line + "\n")
		}
	}
	if c.Extracted != "" {
		for _, line := range wrapString(c.Extracted, enc.wrapWidth) {
			out.WriteString("#. " + line + "\n")
		}
	}
	if len(c.References) > 0 && enc.writeReferences {
		var refs strings.Builder
		for i, ref := range c.References {
			if i > 0 {
				refs.WriteString(" ")
			}
			refs.WriteString(ref.Path)
			if ref.Line > 0 {
				refs.WriteString(":" + strconv.Itoa(ref.Line))
			}
		}
		for _, line := range wrapString(refs.String(), enc.wrapWidth) {
			out.WriteString("#: " + line + "\n")
		}
	}
	if len(c.Flags) > 0 {
		out.WriteString("#, " + strings.Join(c.Flags, ", ") + "\n")
	}
}

func zspec_Encoder_encodeMessage(enc *Encoder, out *bytes.Buffer, m *Message) {
	enc.encodeComment(out, m.Comment)
	if m.Context != "" {
		out.WriteString("msgctxt " + EncodePoString(m.Context, enc.wrapWidth) + "\n")
	}
	out.WriteString("msgid " + EncodePoString(m.ID, enc.wrapWidth) + "\n")
	plural := m.IDPlural != "" || len(m.Str) > 1
	if plural {
		out.WriteString("msgid_plural " + EncodePoString(m.IDPlural, enc.wrapWidth) + "\n")
	}
	enc.encodeTranslations(out, plural, m.Str)
}

// A message has at least one translation, one with a plural at least two.
func zspec_Encoder_encodeTranslations(enc *Encoder, out *bytes.Buffer, plural bool, str map[int]string) {
	texts := map[int]string{}
	for i, text := range str {
		texts[i] = EncodePoString(text, enc.wrapWidth)
	}
	if _, ok := texts[0]; !ok {
		texts[0] = `""`
	}
	if !plural {
		out.WriteString("msgstr " + texts[0] + "\n")
		return
	}
	if _, ok := texts[1]; !ok {
		texts[1] = `""`
	}
	for _, i := range slices.Sorted(maps.Keys(texts)) {
		_, _ = fmt.Fprintf(out, "msgstr[%d] %s\n", i, texts[i])
	}
}

// By the first reference that differs, then by context and id.
func zspec__DefaultSortFunction(a *Message, b *Message) int {
	if a.Comment != nil && b.Comment != nil {
		a.Comment.sort()
		b.Comment.sort()
		for i := 0; i < len(a.Comment.References) && i < len(b.Comment.References); i++ {
			r, s := a.Comment.References[i], b.Comment.References[i]
			if c := strings.Compare(r.Path, s.Path); c != 0 {
				return c
			}
			if r.Line != s.Line {
				return cmp.Compare(r.Line, s.Line)
			}
			if r.Column != s.Column {
				return cmp.Compare(r.Column, s.Column)
			}
		}
	}
	if c := strings.Compare(a.Context, b.Context); c != 0 {
		return c
	}
	return strings.Compare(a.ID, b.ID)
}

func zspec__EncodePoString(s string, lim int) string {
	var lines []string
	if lim <= 0 {
		lines = encodePoStringWithoutWrap(s)
	} else {
		lines = encodePoStringWithWrap(s, lim)
	}
	if len(lines) == 1 || len(lines) == 2 && (lines[1] == "" || lines[1] == `""`) {
		return lines[0]
	}
	all := append([]string{`""`}, lines...)
	if last := all[len(all)-1]; last == "" || last == `""` {
		all = all[:len(all)-1]
	}
	return strings.Join(all, "\n")
}

// Every line of the text is a line of the file.
func zspec__encodePoStringWithoutWrap(s string) []string {
	var lines []string
	var line bytes.Buffer
	for _, r := range s {
		if r == '\n' {
			lines = append(lines, `"`+escapePoString(line.String())+`\n"`)
			line.Reset()
		} else {
			line.WriteRune(r)
		}
	}
	if line.String() != "" || len(lines) == 0 {
		lines = append(lines, `"`+escapePoString(line.String())+`"`)
	}
	return lines
}

// Lines are also divided between words, no character is lost.
func zspec__encodePoStringWithWrap(s string, width int) []string {
	var lines []string
	line, word, space := &util.StringBuffer{}, &util.StringBuffer{}, &util.StringBuffer{}
	n := 0
	finish := func() {
		lines = append(lines, `"`+escapePoString(line.String())+`"`)
		line.Reset()
		n = 0
	}
	for _, r := range s {
		if r == '\n' {
			word.WriteInto(line)
			space.WriteInto(line)
			line.WriteRune('\n')
			finish()
			continue
		}
		n = line.Len()
		if unicode.IsSpace(r) && r != nbsp {
			if n+word.Len()+space.Len()-1 >= width && n > 0 {
				finish()
			}
			space.WriteRune(r)
			if n+word.Len()+space.Len()-1 >= width && n > 0 {
				finish()
			}
			continue
		}
		if space.Len() > 0 {
			if n+word.Len()+space.Len()+1 >= width && n == 0 {
				word.WriteInto(line)
				space.WriteInto(line)
				finish()
			}
			word.WriteInto(line)
			space.WriteInto(line)
		}
		word.WriteRune(r)
	}
	word.WriteInto(line)
	space.WriteInto(line)
	if line.String() != "" || len(lines) == 0 {
		lines = append(lines, `"`+escapePoString(line.String())+`"`)
	}
	return lines
}

func zsSafe(b byte) bool { return b >= ' ' && b != '"' && b != '\\' }

func zspec__escapePoString(s string) string {
	var out bytes.Buffer
	done := 0
	for i := 0; i < len(s); {
		b := s[i]
		if b >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(s[i:])
			if r != utf8.RuneError || n != 1 {
				i += n
				continue
			}
			if done < i {
				out.WriteString(s[done:i])
			}
			out.WriteString(`\ufffd`)
			i += n
			done = i
			continue
		}
		if zsSafe(b) {
			i++
			continue
		}
		if done < i {
			out.WriteString(s[done:i])
		}
		switch b {
		case '\\', '"':
			out.WriteByte('\\')
			out.WriteByte(b)
		case 7:
			out.WriteString(`\a`)
		case 8:
			out.WriteString(`\b`)
		case 9:
			out.WriteString(`\t`)
		case 10:
			out.WriteString(`\n`)
		case 11:
			out.WriteString(`\v`)
		case 12:
			out.WriteString(`\f`)
		case 13:
			out.WriteString(`\r`)
		default:
			out.WriteString(`\x`)
			out.WriteByte("0123456789abcdef"[b>>4])
			out.WriteByte("0123456789abcdef"[b&15])
		}
		i++
		done = i
	}
	if done < len(s) {
		out.WriteString(s[done:])
	}
	return out.String()
}

// Comments lose white space at the end of lines, nothing else.
func zspec__wrapString(s string, width int) []string {
	if width <= 0 {
		return strings.Split(s, "\n")
	}
	var lines []string
	line, word, space := &util.StringBuffer{}, &util.StringBuffer{}, &util.StringBuffer{}
	for _, r := range s {
		switch {
		case r == '\n':
			if word.Len() == 0 {
				space.Reset()
			}
			space.WriteInto(line)
			word.WriteInto(line)
			lines = append(lines, line.String())
			line.Reset()
		case unicode.IsSpace(r) && r != nbsp:
			if word.Len() > 0 {
				space.WriteInto(line)
				word.WriteInto(line)
			}
			space.WriteRune(r)
		default:
			if line.Len()+space.Len()+word.Len() >= width {
				if line.Len() > 0 {
					lines = append(lines, line.String())
					line.Reset()
					space.Reset()
				}
				if space.Len() > 0 {
					space.WriteInto(line)
					word.WriteInto(line)
				}
			}
			word.WriteRune(r)
		}
	}
	if word.Len() > 0 {
		space.WriteInto(line)
		word.WriteInto(line)
	}
	return append(lines, line.String())
}
