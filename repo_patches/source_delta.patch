From 56dd77cf216ac9c48deebccdc43f008964596222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 01/58] fix: control characters in po strings panic on writing
 and are not read back

---
 catalog/po/po_string.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..618c1fc 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -295,7 +296,7 @@ func escapePoString(s string) string {
 			default:
 				buf.WriteByte('x')
 				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				buf.WriteByte(hex[b&0xF])
 			}
 			i++
 			start = i
@@ -323,6 +324,15 @@ func escapePoString(s string) string {
 	return buf.String()
 }
 
+// decodeHexEscape returns the ASCII character that is described by two hexadecimal digits.
+func decodeHexEscape(digits []byte) (byte, bool) {
+	if len(digits) < 2 {
+		return 0, false
+	}
+	char, err := strconv.ParseUint(string(digits[:2]), 16, 8)
+	return byte(char), err == nil && char < utf8.RuneSelf
+}
+
 func unescapePoBytes(s []byte) []byte {
 	// Check for unusual characters. If there are none,
 	// then no unquoting is needed, so return a slice of the
@@ -397,6 +407,14 @@ func unescapePoBytes(s []byte) []byte {
 				b[w] = '\v'
 				r++
 				w++
+			case 'x':
+				// Counterpart of the control characters written by escapePoString.
+				b[w] = '\\'
+				if char, ok := decodeHexEscape(s[r+1:]); ok {
+					b[w] = char
+					r += 3
+				}
+				w++
 			default:
 				b[w] = '\\'
 				w++
-- 
2.43.0


From a9d6cb71b2413a15d9118d04c10c7dbc2cdf5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 02/58] fix: po parser hangs on a string that ends with a
 backslash

---
 catalog/po/po_string.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index 618c1fc..c97e287 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -370,10 +370,13 @@ func unescapePoBytes(s []byte) []byte {
 		}
 		switch c := s[r]; {
 		case c == '\\':
-			if r+1 >= len(s) {
+			r++
+			if r >= len(s) {
+				// A single backslash at the end does not escape anything.
+				b[w] = '\\'
+				w++
 				break
 			}
-			r++
 			switch s[r] {
 			case 'a':
 				b[w] = '\a'
-- 
2.43.0


From a1358aad850efc12da48010e4bc86a2ba4748d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 03/58] fix: po translations without a space after msgstr are
 lost

---
 catalog/po/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..c277d61 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -178,7 +178,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
+			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
@@ -191,7 +191,7 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
+			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
 		case msgStrPluralLine:
 			lastIdx := len(msg.Str) - 1
-- 
2.43.0


From 71b912e4e108bd19fe79f032970a70e3cacea171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 04/58] fix: continuation lines of po plural translations are
 added to the wrong plural form

---
 catalog/po/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index c277d61..4dee057 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -153,6 +153,9 @@ loop:
 		}
 	}
 
+	// Index of the plural translation to which the following lines belong
+	lastPluralIdx := -1
+
 	for {
 		tok, lit := p.scan()
 		switch tok {
@@ -193,12 +196,12 @@ loop:
 
 			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
+			lastPluralIdx = idx
 		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
-			if lastIdx < 0 {
+			if lastPluralIdx < 0 {
 				return nil, p.buildPosError()
 			}
-			msg.Str[lastIdx] += DecodePoString(lit)
+			msg.Str[lastPluralIdx] += DecodePoString(lit)
 		default:
 			return nil, p.buildPosError()
 		}
-- 
2.43.0


From f36115b865521b7000cdcdd52b2d97053773a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 05/58] fix: po comments that follow a message without an empty
 line are lost

---
 catalog/po/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 4dee057..c4608d1 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -161,8 +161,12 @@ loop:
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
 			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			// Message completed, the comment belongs to the next message
+			p.unscan()
+			return msg, nil
+		case eof, whitespace:
 			// Message completed
 			return msg, nil
 		case msgContext:
-- 
2.43.0


From 1670c141c6d29d3c8f632b6efad38208f7d54f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 06/58] fix: read errors and long lines silently truncate po
 files

---
 catalog/po/parser.go  | 10 +++++++++-
 catalog/po/scanner.go | 11 +++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index c4608d1..66c91e6 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -62,11 +62,19 @@ func (p *Parser) Parse(r io.Reader) (*File, error) {
 
 	// special case, empty file
 	if tok, _ := p.scan(); tok == eof {
+		if p.s.err != nil {
+			return nil, p.s.err
+		}
 		return nil, errors.New("po file cannot be empty")
 	}
 	p.unscan()
 
-	return p.parseFile()
+	file, err := p.parseFile()
+	if p.s.err != nil {
+		// The content was not read completely
+		return nil, p.s.err
+	}
+	return file, err
 }
 
 func (p *Parser) parseFile() (*File, error) {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..b706a49 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bufio"
 	"io"
+	"math"
 	"regexp"
 	"strings"
 )
@@ -33,14 +34,18 @@ type scanner struct {
 	// pos is the current line number
 	pos int
 	n   int
+	// err is the first error that occurred while reading the lines
+	err error
 
 	ignoreComments bool
 }
 
 func newScanner(r io.Reader) *scanner {
 	// content = bytes.ReplaceAll(content, []byte("\r"), []byte(""))
+	lineScanner := bufio.NewScanner(r)
+	lineScanner.Buffer(nil, math.MaxInt)
 	return &scanner{
-		lineScanner: bufio.NewScanner(r),
+		lineScanner: lineScanner,
 	}
 }
 
@@ -206,11 +211,9 @@ func (s *scanner) read() (string, error) {
 	}
 
 	if !s.lineScanner.Scan() {
+		s.err = s.lineScanner.Err()
 		return "", io.EOF
 	}
-	if s.lineScanner.Err() != nil {
-		return "", s.lineScanner.Err()
-	}
 
 	s.pos++
 	return s.lineScanner.Text(), nil
-- 
2.43.0


From b38817a5efd9a51b48759da4a94c12f2e6cfbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 07/58] fix: mo parser accepts truncated texts and rejects
 empty texts at the end

---
 internal/mo/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..b685bea 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -251,6 +251,6 @@ func (p *parser) binaryRead(data any) error {
 }
 
 func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
+	_, err := io.ReadFull(p.r, d)
 	return err
 }
-- 
2.43.0


From 30c98702aa2350db7f05d5cb520aff14f6f59ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 08/58] fix: mo parser allocates memory for lengths that are
 larger than the file

---
 internal/mo/parser.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index b685bea..d5bc1c4 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -128,17 +128,15 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
-	p.messageData = make([]*msgData, p.msgIDCount)
+	p.messageData = nil
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
 		return err
 	}
 
-	for i := 0; i < len(p.messageData); i++ {
-		p.messageData[i] = &msgData{}
-	}
-
-	for _, d := range p.messageData {
+	// The number of messages is not trustworthy, therefore memory is only allocated for entries that exist.
+	for i := uint32(0); i < p.msgIDCount; i++ {
+		d := &msgData{}
 		if err := p.binaryRead(&d.idLength); err != nil {
 			return err
 		}
@@ -146,6 +144,7 @@ func (p *parser) parseMessageData() error {
 		if err := p.binaryRead(&d.idOffset); err != nil {
 			return err
 		}
+		p.messageData = append(p.messageData, d)
 	}
 
 	if _, err := p.r.Seek(int64(p.msgStrOffset), io.SeekStart); err != nil {
@@ -209,8 +208,8 @@ func (p *parser) parseMessage(data *msgData) (id string, localized string, err e
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
-	tmp := make([]byte, data.idLength)
-	if err = p.read(tmp); err != nil {
+	tmp, err := p.read(data.idLength)
+	if err != nil {
 		return
 	}
 	id = string(tmp)
@@ -219,8 +218,8 @@ func (p *parser) parseMessage(data *msgData) (id string, localized string, err e
 		return
 	}
 
-	tmp = make([]byte, data.translationLength)
-	if err = p.read(tmp); err != nil {
+	tmp, err = p.read(data.translationLength)
+	if err != nil {
 		return
 	}
 	localized = string(tmp)
@@ -250,7 +249,11 @@ func (p *parser) binaryRead(data any) error {
 	return binary.Read(p.r, p.bo, data)
 }
 
-func (p *parser) read(d []byte) error {
-	_, err := io.ReadFull(p.r, d)
-	return err
+// read reads exactly n bytes. The memory is not allocated in advance, as the length is not trustworthy.
+func (p *parser) read(n uint32) ([]byte, error) {
+	d, err := io.ReadAll(io.LimitReader(p.r, int64(n)))
+	if err == nil && len(d) < int(n) {
+		err = io.ErrUnexpectedEOF
+	}
+	return d, err
 }
-- 
2.43.0


From 92c1232ba01925e41578cd3a2d60ee14da697d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 09/58] fix: gettext catalogs do not know their domain

---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From d4319e5702b8bd49c13013e86de31a8ae564445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 10/58] fix: json decoder returns a nil catalog without an
 error for null

---
 catalog/json_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..ff30804 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,7 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From eb73f01631a5badc8a0622714c20cbd73b15ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 11/58] fix: json messages with keys that differ only in case
 are read randomly

---
 catalog/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..674669c 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -323,7 +323,9 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	// A fixed order, because keys that differ only in case describe the same value.
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
-- 
2.43.0


From 3f598cef79ed8660d57733f390bc20caabe35e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 12/58] fix: encoding a json message without translations
 modifies the message

---
 catalog/json.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 674669c..c5ce6c4 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -360,12 +360,8 @@ var categories = []cldrplural.Category{
 }
 
 func (m JSONMessage) MarshalJSON() ([]byte, error) {
-	if m.Translations == nil {
-		m.Translations = make(map[cldrplural.Category]string)
-	}
-
 	if len(m.Translations) == 0 {
-		m.Translations[cldrplural.Other] = ""
+		m.Translations = map[cldrplural.Category]string{cldrplural.Other: ""}
 	}
 
 	// If only Other is set, only Other is returned.
-- 
2.43.0


From 9b562121ce8d9fa04334359e73cd3f413b249ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 13/58] fix: GettextCatalog.Messages panics if the catalog
 contains messages

---
 catalog/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..4b9ad8f 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,7 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+			msg := c.lookupMap[ctx][msgID]
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
-- 
2.43.0


From d8a2c10891b55a32281f9c5f30fc48b29e0a2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 14/58] fix: encoder overwrites plural translations and writes
 invalid entries

---
 catalog/po/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..f4cb67b 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -251,13 +251,13 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 
 	// We need at least one entry
-	if len(m) == 0 {
+	if _, ok := m[0]; !ok {
 		m[0] = `""`
 	}
 
 	if plural {
-		if len(m) == 1 {
-			// Plural needs at least two entries
+		// Plural needs at least two entries
+		if _, ok := m[1]; !ok {
 			m[1] = `""`
 		}
 
-- 
2.43.0


From c538530b5af716be842cae1f719d9d3e3071dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 15/58] fix: special characters in po header values are not
 escaped

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index f4cb67b..2764ef8 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -164,9 +164,9 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
-- 
2.43.0


From 60dbed6f41d06ec6c470cf92b7247867be2b4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 16/58] fix: po encoder writes unknown headers and messages in
 random order

---
 catalog/po/encoder.go | 17 +++++++----------
 catalog/po/file.go    | 11 +++++++++--
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 2764ef8..db8d371 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -95,13 +95,14 @@ func (enc *Encoder) encode(f *File) []byte {
 
 	if f.Messages != nil {
 		messages := make([]*Message, 0, len(f.Messages))
-		for ctx := range f.Messages {
-			for _, msg := range f.Messages[ctx] {
-				messages = append(messages, msg)
+		// Independent of the sort function, the same file should always result in the same output.
+		for _, ctx := range slices.Sorted(maps.Keys(f.Messages)) {
+			for _, id := range slices.Sorted(maps.Keys(f.Messages[ctx])) {
+				messages = append(messages, f.Messages[ctx][id])
 			}
 		}
 		if enc.sortFunction != nil {
-			slices.SortFunc(messages, enc.sortFunction)
+			slices.SortStableFunc(messages, enc.sortFunction)
 		}
 		for i, msg := range messages {
 			if i > 0 {
@@ -137,8 +138,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
@@ -298,10 +299,6 @@ func DefaultSortFunction(a *Message, b *Message) int {
 					return -1
 				}
 			}
-
-			if c, k := a.Comment.References[i].Path, b.Comment.References[i].Path; c != "" && k != "" {
-				return strings.Compare(c, k)
-			}
 		}
 	}
 
diff --git a/catalog/po/file.go b/catalog/po/file.go
index 1409424..2d35e21 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -2,6 +2,8 @@ package po
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 	"time"
 )
@@ -189,9 +191,14 @@ func (h *Header) Get(key string) string {
 		return ""
 	}
 
-	for unknownHeader, val := range h.UnknownFields {
+	// Prefer the exact spelling, as the fields can contain keys that differ only in case.
+	if val, ok := h.UnknownFields[key]; ok {
+		return val
+	}
+
+	for _, unknownHeader := range slices.Sorted(maps.Keys(h.UnknownFields)) {
 		if strings.EqualFold(unknownHeader, key) {
-			return val
+			return h.UnknownFields[unknownHeader]
 		}
 	}
 
-- 
2.43.0


From 446653295798da7ac285963a68a87c59dec2bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 17/58] fix: plural forms treat values other than one as false

---
 catalog/poplural/rule.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..72dc327 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -82,16 +82,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From 3f381791bef9ef7fde0ef2b70b475b183e7ca0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 18/58] fix: invalid numbers in plural forms are read as zero

---
 catalog/poplural/ast/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..cb67950 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -50,7 +50,11 @@ func (p *parser) Parse() (*Forms, error) {
 	if tok, lit := p.scanIgnoreWhitespace(); tok != Value {
 		return nil, fmt.Errorf("po parser: found %q, expected '=' after nplurals", lit)
 	} else {
-		forms.NPlurals, _ = strconv.Atoi(lit)
+		count, err := strconv.Atoi(lit)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: invalid number of plural forms: %w", err)
+		}
+		forms.NPlurals = count
 	}
 
 	if tok, lit := p.scanIgnoreWhitespace(); tok != semicolon {
@@ -285,7 +289,10 @@ func (p *parser) pmExpression() (Node, error) {
 		}
 		return &OperandExpr{}, nil
 	case Value:
-		value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+		value, err := strconv.ParseInt(p.lastLiteral, 10, 64)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: invalid number: %w", err)
+		}
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
-- 
2.43.0


From a38b401a11da990ebb11679ea8b93c062bb3d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 19/58] fix: plural forms with parentheses are mistaken for
 built-in rules without them

---
 catalog/poplural/ast/compile.go | 60 ++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..65b8df7 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -17,7 +17,7 @@ func compileNode(node Node) string {
 	case *OperandExpr:
 		return "n"
 	case *QuestionMarkExpr:
-		cond := compileNode(v.Cond)
+		cond := compileOperand(v.Cond, Question)
 		then := compileNode(v.T)
 		other := compileNode(v.F)
 
@@ -33,26 +33,46 @@ func compileNode(node Node) string {
 
 		return fmt.Sprintf("%s ? %s : %s", cond, then, other)
 	case *BinaryExpr:
-		switch v.Type() {
-		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
-		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
-		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
-		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
-		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
-		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
-		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
-		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
-		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+		op := v.Type()
+		expr := compileOperand(v.X, op) + " " + string(op) + " " + compileOperand(v.Y, op)
+		if op == LogicalOr {
+			return "(" + expr + ")"
 		}
+		return expr
 	}
 	return ""
 }
+
+// compileOperand adds the parentheses that are necessary for the operand to be evaluated before the parent.
+func compileOperand(node Node, parent Token) string {
+	compiled := compileNode(node)
+
+	switch op := node.Type(); op {
+	case Question:
+		return "(" + compiled + ")"
+	case LogicalAnd, Equal, NotEqual, Greater, GreaterOrEqual, Less, LessOrEqual, Reminder:
+		if precedence(op) < precedence(parent) || (precedence(op) == precedence(parent) && op != LogicalAnd) {
+			return "(" + compiled + ")"
+		}
+	}
+
+	// A logical or is always written with parentheses.
+	return compiled
+}
+
+func precedence(op Token) int {
+	switch op {
+	case LogicalOr:
+		return 1
+	case LogicalAnd:
+		return 2
+	case Equal, NotEqual:
+		return 3
+	case Greater, GreaterOrEqual, Less, LessOrEqual:
+		return 4
+	case Reminder:
+		return 5
+	default:
+		return 0
+	}
+}
-- 
2.43.0


From b2256a14c29c239c4695de41e93d5d76841a79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 20/58] fix: integer digits of negative numbers are negative

---
 catalog/cldrplural/cldr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..a1c1477 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -139,7 +139,7 @@ func newOperandsString(raw string) (*Operands, error) {
 	}
 
 	op.N = math.Abs(src)
-	op.I = int64(src)
+	op.I = int64(op.N)
 
 	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
 		fractionDigits := raw[pointIdx+1:]
-- 
2.43.0


From 834157eaaa1ac6b9ef8a1bd54372f20a53d8a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 21/58] fix: no plural operands for numbers that are formatted
 with an exponent

---
 catalog/cldrplural/cldr.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index a1c1477..0263b64 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -2,7 +2,6 @@ package cldrplural
 
 import (
 	"errors"
-	"fmt"
 	"math"
 	"strconv"
 	"strings"
@@ -102,15 +101,15 @@ func NewOperands(a any) (*Operands, error) {
 	case int:
 		return newOperandsInt(int64(v)), nil
 	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(float64(v), 'f', -1, 32))
 	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
 	default:
 		num, err := cast.ToNumber(v)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
-- 
2.43.0


From 35345a0bcd0e8cbb66302777b15cd14d6614ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 22/58] fix: memory is allocated for arbitrarily large compact
 exponents

---
 catalog/cldrplural/cldr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 0263b64..cbed026 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -2,6 +2,7 @@ package cldrplural
 
 import (
 	"errors"
+	"fmt"
 	"math"
 	"strconv"
 	"strings"
@@ -9,6 +10,9 @@ import (
 	"github.com/vorlif/spreak/internal/cast"
 )
 
+// maxCompactExponent is the largest exponent that can be represented by a float64.
+const maxCompactExponent = 308
+
 type Category int
 
 const (
@@ -128,6 +132,9 @@ func newOperandsString(raw string) (*Operands, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c > maxCompactExponent {
+			return nil, fmt.Errorf("operands compact exponent %d is out of range", c)
+		}
 		op.C = int64(c)
 		raw = shiftDecimalPoint(raw[:cIdx], c)
 	}
-- 
2.43.0


From 4de54f4e1dd17558a8db42ad6479d2c6418f811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 23/58] fix: evaluating a plural rule iterates over all numbers
 of a range

---
 catalog/cldrplural/evaluation.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..d848feb 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -156,11 +156,9 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 			continue
 		}
 
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		// Only the nearest integer can be equal to the value
+		if util.FloatEqual(math.Round(x), x) {
+			return true
 		}
 	}
 
-- 
2.43.0


From 40914c78cbb997d1fa4001a4619e4de8079fb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 24/58] fix: plural rules are evaluated in random order

---
 catalog/cldrplural/evaluation.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index d848feb..0bf4a22 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -1,7 +1,9 @@
 package cldrplural
 
 import (
+	"maps"
 	"math"
+	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
 	"github.com/vorlif/spreak/internal/util"
@@ -21,8 +23,8 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	categories := make([]Category, 0, len(rawRules))
 	rules := make(map[Category]*ast.Rule)
 
-	for cat, rawRule := range rawRules {
-		rule, err := ast.Parse(rawRule)
+	for _, cat := range slices.Sorted(maps.Keys(rawRules)) {
+		rule, err := ast.Parse(rawRules[cat])
 		if err != nil {
 			return nil, err
 		}
@@ -34,17 +36,18 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 		categories = append(categories, Other)
 	}
 
-	formF := func(rules map[Category]*ast.Rule) FormFunc {
+	formF := func(rules map[Category]*ast.Rule, categories []Category) FormFunc {
 		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
+			for _, cat := range categories {
+				// Other applies if no other category applies
+				if cat != Other && evaluate(rules[cat], ops) {
 					return cat
 				}
 			}
 
 			return Other
 		}
-	}(rules)
+	}(rules, slices.Clone(categories))
 
 	return &RuleSet{Categories: categories, FormFunc: formF}, nil
 }
-- 
2.43.0


From 008f3e9cf570a25b7008472433371aa4f93dda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 25/58] fix: plural rules with a division by zero panic on
 evaluation

---
 catalog/cldrplural/ast/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 12030e9..da03da6 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -194,6 +195,10 @@ func (p *parser) expression() (Node, error) {
 			return nil, errValue
 		}
 
+		if valueNode.Value == 0 {
+			return nil, errors.New("remainder of a division by zero")
+		}
+
 		reminderNode := &ModuloExpr{
 			Op:    operandNode,
 			Value: valueNode.Value,
-- 
2.43.0


From f201fed68e80c73786bffafc968ce8bc82a7b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 26/58] fix: plural rules with upper case operands panic on
 evaluation

---
 catalog/cldrplural/ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index da03da6..f61b933 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -179,7 +179,7 @@ func (p *parser) expression() (Node, error) {
 		return nil, fmt.Errorf("expected operand, got %q", p.lastLiteral)
 	}
 
-	operandNode := &OperandExpr{Operand: p.lastLiteral}
+	operandNode := &OperandExpr{Operand: strings.ToLower(p.lastLiteral)}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
-- 
2.43.0


From 34c3b5a587913a8e1943f544b9c7b12a67347694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 27/58] fix: invalid numbers in plural rules are accepted

---
 catalog/cldrplural/ast/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index f61b933..863c839 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -215,7 +215,10 @@ func (p *parser) value() (*ValueExpr, error) {
 		return nil, fmt.Errorf("expected value (\\d+), got %q", p.lastLiteral)
 	}
 
-	value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+	value, err := strconv.ParseInt(p.lastLiteral, 10, 64)
+	if err != nil {
+		return nil, fmt.Errorf("invalid value %q: %w", p.lastLiteral, err)
+	}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
-- 
2.43.0


From 5bcea53ed7ad0f12e334081329156c89e9c0b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 28/58] fix: plural rule parser hangs on sample ranges without
 an end

---
 catalog/cldrplural/ast/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 863c839..9071bd4 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -353,7 +353,8 @@ func (p *parser) scan() (tok Token, lit string) {
 func parseSampleRange(sampleRange string) []string {
 	var sampleValues []string // sampleValue, sampleValue, sampleValue, ...
 	if parts := strings.Split(sampleRange, "~"); len(parts) == 2 {
-		for ex := parts[0]; ; ex = increment(ex) {
+		// The end may never be reached if it is smaller or has a different precision.
+		for ex := parts[0]; len(ex) <= len(parts[1]); ex = increment(ex) {
 			sampleValues = append(sampleValues, ex)
 			if ex == parts[1] {
 				break
-- 
2.43.0


From 649db13f623a80fcf0b3f97b46d0840d531a915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 29/58] fix: nil pointers are treated as the number zero

---
 internal/cast/number.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..d71bb14 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -73,5 +73,8 @@ func Indirect(a any) any {
 	for v.Kind() == reflect.Ptr && !v.IsNil() {
 		v = v.Elem()
 	}
+	if v.Kind() == reflect.Ptr {
+		return nil
+	}
 	return v.Interface()
 }
-- 
2.43.0


From ee05b6e7634e94f6a8fc2caef9a7cb8a9d936694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 30/58] fix: languages of humanizers are registered in random
 order

---
 humanize/humanizer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..2902116 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -127,11 +127,13 @@ func New(opts ...Option) (*Collection, error) {
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
-		if data.Format != nil {
-			coll.locales[tag] = data.Format
+	// The order of the languages is decisive for the language matcher.
+	for _, d := range o.locales {
+		if _, isDuplicate := coll.locales[d.Lang]; isDuplicate {
+			continue
 		}
+		languages = append(languages, d.Lang)
+		coll.locales[d.Lang] = loader.locales[d.Lang].Format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
-- 
2.43.0


From ce7120644be2b9b033a7c3ce3a9d73747618f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 31/58] fix: nil options and nil locales panic when creating a
 humanize collection

---
 humanize/humanizer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 2902116..f6fbed1 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -1,6 +1,7 @@
 package humanize
 
 import (
+	"errors"
 	"io/fs"
 
 	"golang.org/x/text/language"
@@ -109,12 +110,18 @@ func New(opts ...Option) (*Collection, error) {
 	}
 
 	for _, opt := range opts {
+		if opt == nil {
+			return nil, errors.New("humanize: try to create a collection with a nil option")
+		}
 		if err := opt(o); err != nil {
 			return nil, err
 		}
 	}
 
 	for _, d := range o.locales {
+		if d == nil {
+			return nil, errors.New("humanize: try to create a collection with nil locale data")
+		}
 		if d.Format == nil {
 			d.Format = fallbackFormat
 		}
-- 
2.43.0


From e286719993934c8544fcf75ca4344752e22ca1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 32/58] fix: nil decoders and nil resolver options panic

---
 loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/loader.go b/loader.go
index 62d1562..2c289dd 100644
--- a/loader.go
+++ b/loader.go
@@ -200,6 +200,9 @@ func WithResolver(resolver Resolver) FsOption {
 // The file extension should begin with a dot. For example ".po" or ".json".
 func WithDecoder(ext string, decoder catalog.Decoder) FsOption {
 	return func(r *FilesystemLoader) error {
+		if decoder == nil {
+			return errors.New("spreak.Loader: decoder of WithDecoder(..., decoder) is nil")
+		}
 		r.addDecoder(ext, decoder)
 		return nil
 	}
@@ -244,6 +247,9 @@ func NewDefaultResolver(opts ...ResolverOption) (Resolver, error) {
 	}
 
 	for _, opt := range opts {
+		if opt == nil {
+			return nil, errors.New("spreak.Loader: try to create a default resolver with a nil option")
+		}
 		opt(l)
 	}
 
-- 
2.43.0


From a8263d746bce442c243a315e292aca49fa65f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 33/58] fix: resolver ignores search errors

---
 loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader.go b/loader.go
index 2c289dd..b0f61f0 100644
--- a/loader.go
+++ b/loader.go
@@ -270,6 +270,9 @@ func (r *defaultResolver) Resolve(fsys fs.FS, extension string, tag language.Tag
 		if errors.Is(err, os.ErrNotExist) {
 			continue
 		}
+		if err != nil {
+			return "", err
+		}
 
 		return searchPath, nil
 	}
-- 
2.43.0


From 6accebc407475b08951808278b9cdcc9113c0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 34/58] fix: missing plural translations of the fallback
 language are reported twice

---
 localizer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/localizer.go b/localizer.go
index 319489e..42ab730 100644
--- a/localizer.go
+++ b/localizer.go
@@ -324,9 +324,11 @@ func (l *Localizer) lookupPluralTranslation(domain string, ctx localize.Context,
 	}
 
 	errA := err
-	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-	if err == nil {
-		return t, errA
+	if l.locale.language != l.bundle.fallbackLocale.language {
+		t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
+		if err == nil {
+			return t, errA
+		}
 	}
 
 	t, _ = l.bundle.sourceLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-- 
2.43.0


From 7c1d8b5d90beda96ce753e0cc60c15c5ca508b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 35/58] fix: ordinal panics for numbers without an integer
 representation

---
 humanize/numbers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..d959814 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -154,6 +154,10 @@ func (h *Humanizer) Ordinal(i any) string {
 		return strconv.FormatInt(int64(floatValue), 10)
 	}
 
+	if math.IsNaN(floatValue) || floatValue >= math.MaxInt64 {
+		return formatErrorMessage(i)
+	}
+
 	value := int64(floatValue)
 	switch value % 100 {
 	case 11, 12, 13:
-- 
2.43.0


From fc55735b57437637c3f5e6d356ccfea9c447ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 36/58] fix: options passed to TimeUntil and TimeSinceFrom
 overwrite the slice of the caller

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..6ef85da 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -2,6 +2,7 @@ package humanize
 
 import (
 	"math"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -361,7 +362,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now))
+	opts = append(slices.Clip(opts), WithNow(now))
 	return h.TimeSince(d, opts...)
 }
 
@@ -374,14 +375,14 @@ func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
 		return formatErrorMessage(d)
 	}
 
-	opts = append(opts, WithReverse(true))
+	opts = append(slices.Clip(opts), WithReverse(true))
 	return h.TimeSince(parsedTime, opts...)
 }
 
 // TimeUntilFrom works like TimeUntil, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeUntil(d, WithNow(now)).
 func (h *Humanizer) TimeUntilFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now), WithReverse(true))
+	opts = append(slices.Clip(opts), WithNow(now), WithReverse(true))
 	return h.TimeSince(d, opts...)
 }
 
-- 
2.43.0


From b7d0fc9eca0e44c055c6867fdb84bf71c1a82aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 37/58] fix: domains are loaded and loading errors are reported
 in random order

---
 bundle.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..564a80b 100644
--- a/bundle.go
+++ b/bundle.go
@@ -200,8 +200,8 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 
 	catalogs := make(map[string]catalog.Catalog, len(b.domainLoaders))
 
-	for domain, domainLoader := range b.domainLoaders {
-		cat, errD := domainLoader.Load(lang, domain)
+	for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {
+		cat, errD := b.domainLoaders[domain].Load(lang, domain)
 		if errD != nil {
 			var notFoundErr *ErrNotFound
 			if errors.As(errD, &notFoundErr) {
-- 
2.43.0


From ac7be154d3d65a4b4e0f0fc0cd6245f3e6228e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 38/58] fix: plural rules treat numbers close to an integer as
 the integer

Fraction digits are exact operands, 1.0000001 is not part of 'n = 0..1'.
---
 catalog/cldrplural/evaluation.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 0bf4a22..e641611 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -6,7 +6,6 @@ import (
 	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -159,8 +158,8 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 			continue
 		}
 
-		// Only the nearest integer can be equal to the value
-		if util.FloatEqual(math.Round(x), x) {
+		// Only integers can be part of a range
+		if math.Round(x) == x {
 			return true
 		}
 	}
@@ -170,7 +169,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From bd8a765899c1f269e522ed6e587721a3cb5d9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 39/58] fix: CLDR decoders ignore the plural forms header when
 no CLDR rule exists

---
 catalog/po_decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index ed2ed80..98e89c3 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -132,6 +132,11 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 	}
 
 	hasPluralFormHeader := file.Header != nil && file.Header.PluralForms != ""
+	if useCLDRPlural && hasPluralFormHeader {
+		// Without a matching CLDR rule, the rule of the header is used.
+		_, useCLDRPlural = cldrplural.ForLanguage(lang)
+	}
+
 	if useCLDRPlural || !hasPluralFormHeader {
 		cat.pluralFunc = getCLDRPluralFunction(lang)
 		return cat, nil
-- 
2.43.0


From 3cdf471b211d0e6b7e39f72270f557d481fd4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 40/58] fix: creating a collection changes the locale data of
 the caller

---
 humanize/humanizer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index f6fbed1..bf63b94 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -118,24 +118,28 @@ func New(opts ...Option) (*Collection, error) {
 		}
 	}
 
+	// The data belongs to the caller and may be used for several collections.
+	locales := make([]*LocaleData, 0, len(o.locales))
 	for _, d := range o.locales {
 		if d == nil {
 			return nil, errors.New("humanize: try to create a collection with nil locale data")
 		}
-		if d.Format == nil {
-			d.Format = fallbackFormat
+		format := *fallbackFormat
+		if d.Format != nil {
+			format = *d.Format
 		}
-		d.Format.setDefaults()
+		format.setDefaults()
+		locales = append(locales, &LocaleData{Lang: d.Lang, Fs: d.Fs, Format: &format})
 	}
 
-	loader := newLoader(o.locales)
+	loader := newLoader(locales)
 
 	coll := &Collection{
-		locales: make(map[language.Tag]*FormatData, len(o.locales)),
+		locales: make(map[language.Tag]*FormatData, len(locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
 	// The order of the languages is decisive for the language matcher.
-	for _, d := range o.locales {
+	for _, d := range locales {
 		if _, isDuplicate := coll.locales[d.Lang]; isDuplicate {
 			continue
 		}
-- 
2.43.0


From 8d1eb41567fdffc47c14f68cb6415725799bf9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 41/58] fix: messages of po files that are not separated by a
 blank line are lost

---
 catalog/po/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 66c91e6..62c1d38 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -166,6 +166,12 @@ loop:
 
 	for {
 		tok, lit := p.scan()
+		if (tok == msgContext || tok == msgID) && len(msg.Str) > 0 {
+			// Message completed, the line belongs to the next message
+			p.unscan()
+			return msg, nil
+		}
+
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-- 
2.43.0


From dc5c5389972c656989aee3992266d5ac237caf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 42/58] fix: write JSON messages that only have another
 category than other

---
 catalog/json.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index c5ce6c4..fd8e052 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -365,8 +365,7 @@ func (m JSONMessage) MarshalJSON() ([]byte, error) {
 	}
 
 	// If only Other is set, only Other is returned.
-	if m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
-		other := m.Translations[cldrplural.Other]
+	if other, hasOther := m.Translations[cldrplural.Other]; hasOther && m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
 		return json.Marshal(other)
 	}
 
-- 
2.43.0


From c19b68a8780f35d42f9f3be5e189f3730572c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 43/58] fix: no trailing comma in JSON messages without a known
 category

---
 catalog/json.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index fd8e052..22bb65c 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -371,11 +371,16 @@ func (m JSONMessage) MarshalJSON() ([]byte, error) {
 
 	var buf bytes.Buffer
 
+	isFirst := true
 	writeKeyValue := func(key string, value any) error {
 		data, err := json.Marshal(value)
 		if err != nil {
 			return err
 		}
+		if !isFirst {
+			buf.WriteRune(',')
+		}
+		isFirst = false
 		buf.WriteString(fmt.Sprintf(`"%s": `, key))
 		buf.Write(data)
 		return nil
@@ -386,28 +391,20 @@ func (m JSONMessage) MarshalJSON() ([]byte, error) {
 		if err := writeKeyValue("comment", m.Comment); err != nil {
 			return nil, err
 		}
-		buf.WriteRune(',')
 	}
 
 	if m.Context != "" {
 		if err := writeKeyValue("context", m.Context); err != nil {
 			return nil, err
 		}
-		buf.WriteRune(',')
 	}
 
-	i := 0
 	for _, cat := range categories {
 		value, ok := m.Translations[cat]
 		if !ok {
 			continue
 		}
 
-		if i > 0 {
-			buf.WriteRune(',')
-		}
-		i++
-
 		key := strings.ToLower(cat.String())
 		if err := writeKeyValue(key, value); err != nil {
 			return nil, err
-- 
2.43.0


From 9e44ef7da54edd99761c120871e135a32845dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 44/58] fix: same messages on every call if a JSON key exists
 in several contexts

---
 catalog/json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 22bb65c..d5b3e49 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -118,7 +118,7 @@ func (c jsonCatalog) Language() language.Tag { return c.language }
 func (c jsonCatalog) Messages() JSONMessages {
 	cpy := make(JSONMessages, len(c.lookupMap))
 
-	for ctx := range c.lookupMap {
+	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
 		for key := range c.lookupMap[ctx] {
 			msg := c.lookupMap[ctx][key]
 			cpy[key] = msg.Clone()
@@ -215,7 +215,7 @@ func (c *jsonCatalog) UnmarshalJSON(data []byte) error {
 func (c jsonCatalog) MarshalJSON() ([]byte, error) {
 	messages := make(JSONMessages, len(c.lookupMap))
 
-	for ctx := range c.lookupMap {
+	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
 		for key := range c.lookupMap[ctx] {
 			messages[key] = c.lookupMap[ctx][key]
 		}
-- 
2.43.0


From 5ed58dfb617979033d8e8c6fe3a02473bca227de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 45/58] fix: same error on every call for JSON catalogs with
 several invalid messages

---
 catalog/json.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index d5b3e49..5e57fe6 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -77,8 +77,8 @@ func NewJSONCatalogWithMessages(lang language.Tag, domain string, messages JSONM
 		pluralSet: pluralSet,
 	}
 
-	for key, msg := range messages {
-		if err := cat.setMessage(key, msg); err != nil {
+	for _, key := range slices.Sorted(maps.Keys(messages)) {
+		if err := cat.setMessage(key, messages[key]); err != nil {
 			return nil, err
 		}
 	}
@@ -203,8 +203,8 @@ func (c *jsonCatalog) UnmarshalJSON(data []byte) error {
 		return errors.New("spreak: File contains no translations")
 	}
 
-	for msgID, msg := range file {
-		if err := c.setMessage(msgID, msg); err != nil {
+	for _, msgID := range slices.Sorted(maps.Keys(file)) {
+		if err := c.setMessage(msgID, file[msgID]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 996ba0aa51cbc1db84a9fac085c931442c454c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 46/58] fix: natural times count the elapsed seconds once

---
 humanize/date.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 6ef85da..c411ae9 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -123,18 +123,18 @@ var naturalFutureSubstrings = map[string]gettextEntry{
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalTime(i any) string {
-	now := time.Now()
 	t, err := cast.ToTime(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	now = now.In(t.Location())
+	// Durations are relative to the moment in which they are converted.
+	now := time.Now().In(t.Location())
 	if t.Before(now) {
-		delta := now.Sub(t)
-		deltaSec := int64(delta.Truncate(time.Second).Seconds())
+		delta := now.Sub(t).Truncate(time.Second)
+		deltaSec := int64(delta.Seconds())
 
-		if int64(delta.Round(time.Second).Hours()) >= 24 {
+		if int64(delta.Hours()) >= 24 {
 			entry := naturalTimeStrings["past-day"]
 			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
 			return h.loc.Getf(entry.singular, timeSince)
@@ -144,7 +144,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 		} else if deltaSec < 60 {
 			entry := naturalTimeStrings["past-second"]
 			return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-		} else if floorDivision(delta.Round(time.Second).Seconds(), 60) < 60 {
+		} else if floorDivision(delta.Seconds(), 60) < 60 {
 			count := int64(math.Floor(float64(deltaSec) / 60))
 			entry := naturalTimeStrings["past-minute"]
 			return h.loc.NGetf(entry.singular, entry.plural, count, count)
-- 
2.43.0


From 44c57ab1f651e6b02fcb6753e3d8a15e4e0d074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 47/58] fix: file sizes outside the range of integers

---
 humanize/helper.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 7f871bb..d40f9fe 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -40,11 +40,11 @@ func (h *Humanizer) Language() language.Tag {
 }
 
 const (
-	kb = int64(1) << 10
-	mb = int64(1) << 20
-	gb = int64(1) << 30
-	tb = int64(1) << 40
-	pb = int64(1) << 50
+	kb = float64(1 << 10)
+	mb = float64(1 << 20)
+	gb = float64(1 << 30)
+	tb = float64(1 << 40)
+	pb = float64(1 << 50)
 )
 
 // FilesizeFormat format the value like a 'human-readable' file size (i.e. 13 KB, 4.1 MB, 102 bytes, etc.).
@@ -52,16 +52,20 @@ const (
 // Valid inputs are byte arrays or any numeric value.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) FilesizeFormat(v any) string {
-	var count int64
+	var count float64
 	switch val := v.(type) {
 	case []byte:
-		count = int64(len(val))
+		count = float64(len(val))
 	default:
 		value, err := cast.ToNumber(v)
 		if err != nil {
 			return formatErrorMessage(v)
 		}
-		count = int64(value)
+		if math.IsNaN(value) {
+			return formatErrorMessage(v)
+		}
+		// Not every floating point number can be represented as an integer.
+		count = math.Trunc(value)
 	}
 
 	isNegative := count < 0
@@ -71,21 +75,21 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 
 	var result string
 	if count < kb {
-		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", count, count)
+		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", int64(count), int64(count))
 	} else if count < mb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(kb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/kb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s KB", formatted)
 	} else if count < gb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(mb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/mb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s MB", formatted)
 	} else if count < tb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(gb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/gb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s GB", formatted)
 	} else if count < pb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(tb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/tb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s TB", formatted)
 	} else {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(pb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/pb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s PB", formatted)
 	}
 
-- 
2.43.0


From dce12d9cbc2f49333ef26b079c0bff8a95198d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 48/58] fix: Apnumber prints an arbitrary number for numbers
 outside the range of integers

---
 humanize/numbers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index d959814..e98096d 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -39,6 +39,14 @@ func (h *Humanizer) Apnumber(val any) string {
 		return formatErrorMessage(val)
 	}
 
+	if math.IsNaN(fl) {
+		return formatErrorMessage(val)
+	}
+	if math.Abs(fl) >= math.MaxInt64 {
+		// Can not be represented as an integer.
+		return h.loc.Print("%v", number.Decimal(fl))
+	}
+
 	num := int64(fl)
 	if num <= 0 || num >= 10 {
 		return h.loc.Print("%d", num)
-- 
2.43.0


From 55c0f0dd36bccba1af6d4d5d1cc53e73b06a828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 49/58] fix: natural days around changes to and from summer
 time

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index c411ae9..1f31cb8 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -54,9 +54,10 @@ func (h *Humanizer) NaturalDay(i any) string {
 		return formatErrorMessage(i)
 	}
 
-	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
-	now := time.Now().In(value.Location())
-	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
+	// The dates are compared in UTC, where every day has 24 hours.
+	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	now := time.Now().In(t.Location())
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
 	switch delta {
-- 
2.43.0


From 943d3fd6cb834c955f4d7dee27a847e4b4dfb83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 50/58] fix: Lithuanian locale is registered as Latvian

---
 humanize/locale/lt/locale.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/humanize/locale/lt/locale.go b/humanize/locale/lt/locale.go
index 6dff2c2..c9b096a 100644
--- a/humanize/locale/lt/locale.go
+++ b/humanize/locale/lt/locale.go
@@ -13,16 +13,16 @@ var fsys embed.FS
 
 func New() *humanize.LocaleData {
 	return &humanize.LocaleData{
-		Lang: language.MustParse("lv"),
+		Lang: language.MustParse("lt"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          `Y. \g\a\d\a j. F`,
+			DateFormat:          `Y \m. E j \d.`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
-			YearMonthFormat:     `Y. \g. F`,
-			MonthDayFormat:      "j. F",
-			ShortDateFormat:     `j.m.Y`,
-			ShortDatetimeFormat: "j.m.Y H:i",
+			DateTimeFormat:      `Y \m. E j \d., H:i`,
+			YearMonthFormat:     `Y \m. F`,
+			MonthDayFormat:      `E j \d.`,
+			ShortDateFormat:     "Y-m-d",
+			ShortDatetimeFormat: "Y-m-d H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
-- 
2.43.0


From 7e369f31daa212ff8029000327d4069ce0cdc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 51/58] fix: date formats of the Latvian locale

---
 humanize/locale/lv/locale.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/humanize/locale/lv/locale.go b/humanize/locale/lv/locale.go
index 94272c8..6dff2c2 100644
--- a/humanize/locale/lv/locale.go
+++ b/humanize/locale/lv/locale.go
@@ -16,13 +16,13 @@ func New() *humanize.LocaleData {
 		Lang: language.MustParse("lv"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          "j. F Y",
+			DateFormat:          `Y. \g\a\d\a j. F`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      "j. F Y H:i",
-			YearMonthFormat:     "F Y",
+			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
+			YearMonthFormat:     `Y. \g. F`,
 			MonthDayFormat:      "j. F",
-			ShortDateFormat:     "d.m.Y",
-			ShortDatetimeFormat: "d.m.Y H:i",
+			ShortDateFormat:     `j.m.Y`,
+			ShortDatetimeFormat: "j.m.Y H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
-- 
2.43.0


From 58ca7f4d164d5b513b37b666e21476d210308939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 52/58] fix: Albanian ordinals without the number

---
 humanize/locale/sq/django.po | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/humanize/locale/sq/django.po b/humanize/locale/sq/django.po
index 5902280..34252f3 100644
--- a/humanize/locale/sq/django.po
+++ b/humanize/locale/sq/django.po
@@ -801,7 +801,7 @@ msgstr[1] "%[1]v vjet"
 
 msgctxt "ordinal 0"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 1"
 msgid "%vst"
@@ -809,36 +809,36 @@ msgstr ""
 
 msgctxt "ordinal 11, 12, 13"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 2"
 msgid "%vnd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 3"
 msgid "%vrd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 4"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 5"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 6"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 7"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 8"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
-- 
2.43.0


From 5e8d72109feab4aeee47fd0064deacb2aebd6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 53/58] fix: Marathi ordinal without the number

---
 humanize/locale/mr/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/mr/django.po b/humanize/locale/mr/django.po
index aa9380e..0af4dd8 100644
--- a/humanize/locale/mr/django.po
+++ b/humanize/locale/mr/django.po
@@ -839,4 +839,4 @@ msgstr "%vवा"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "{वा}"
+msgstr "%vवा"
-- 
2.43.0


From 1ff5cd077f6ca285a6d657bf244fee6794077248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 54/58] fix: Hebrew plural forms without translation

---
 humanize/locale/he/django.po | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/humanize/locale/he/django.po b/humanize/locale/he/django.po
index 3e9dd05..95df586 100644
--- a/humanize/locale/he/django.po
+++ b/humanize/locale/he/django.po
@@ -28,6 +28,7 @@ msgid_plural "%[1]d bytes"
 msgstr[0] "בית %[1]d "
 msgstr[1] "%[1]d בתים"
 msgstr[2] "%[1]d בתים"
+msgstr[3] "%[1]d בתים"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
@@ -114,6 +115,7 @@ msgid_plural "%[1]v days"
 msgstr[0] "יום"
 msgstr[1] "יומיים"
 msgstr[2] "%[1]v ימים"
+msgstr[3] "%[1]v ימים"
 
 msgid "%[1]v from now"
 msgstr "בעוד %[1]v"
@@ -123,30 +125,35 @@ msgid_plural "%[1]v hours"
 msgstr[0] "שעה"
 msgstr[1] "שעתיים"
 msgstr[2] "%[1]v שעות"
+msgstr[3] "%[1]v שעות"
 
 msgid "%[1]v minute"
 msgid_plural "%[1]v minutes"
 msgstr[0] "דקה"
 msgstr[1] "%[1]v דקות"
 msgstr[2] "%[1]v דקות"
+msgstr[3] "%[1]v דקות"
 
 msgid "%[1]v month"
 msgid_plural "%[1]v months"
 msgstr[0] "חודש"
 msgstr[1] "חודשיים"
 msgstr[2] "%[1]v חודשים"
+msgstr[3] "%[1]v חודשים"
 
 msgid "%[1]v week"
 msgid_plural "%[1]v weeks"
 msgstr[0] "שבוע"
 msgstr[1] "שבועיים"
 msgstr[2] "%[1]v שבועות"
+msgstr[3] "%[1]v שבועות"
 
 msgid "%[1]v year"
 msgid_plural "%[1]v years"
 msgstr[0] "שנה"
 msgstr[1] "שנתיים"
 msgstr[2] "%[1]v שנים"
+msgstr[3] "%[1]v שנים"
 
 msgid "%s GB"
 msgstr "%s ג\"ב"
-- 
2.43.0


From 56dd4ea93af2f1120fa3972b79d1f43d19541b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 55/58] fix: Vietnamese date and time format without the hour

---
 humanize/locale/vi/locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/vi/locale.go b/humanize/locale/vi/locale.go
index 36ccfc3..2af0fe1 100644
--- a/humanize/locale/vi/locale.go
+++ b/humanize/locale/vi/locale.go
@@ -18,7 +18,7 @@ func New() *humanize.LocaleData {
 		Format: &humanize.FormatData{
 			DateFormat:          `\N\gà\y d \t\há\n\g n \nă\m Y`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `:i \N\gà\y d \t\há\n\g n \nă\m Y`,
+			DateTimeFormat:      `H:i \N\gà\y d \t\há\n\g n \nă\m Y`,
 			YearMonthFormat:     "F Y",
 			MonthDayFormat:      "j F",
 			ShortDateFormat:     "d-m-Y",
-- 
2.43.0


From f49f34a367144f09adb62b8f64c9a1195e540970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 56/58] fix: Belarusian billions with an invalid placeholder

---
 humanize/locale/be/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/be/django.po b/humanize/locale/be/django.po
index dad3962..8f74dc0 100644
--- a/humanize/locale/be/django.po
+++ b/humanize/locale/be/django.po
@@ -27,7 +27,7 @@ msgstr[3] "%[1]d байтаў"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
-msgstr[0] "%(value).s мільярд"
+msgstr[0] "%[1]s мільярд"
 msgstr[1] "%[1]s мільярды"
 msgstr[2] "%[1]s мільярдаў"
 msgstr[3] "%[1]s мільярдаў"
-- 
2.43.0


From 778a29f3e8e955fdec05ddc1aa2232c4e082f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 57/58] =?UTF-8?q?fix:=20name=20of=20Norwegian=20Bokm=C3=A5?=
 =?UTF-8?q?l=20is=20not=20translated?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 humanize/helper_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/helper_table.go b/humanize/helper_table.go
index 794bffc..e309163 100644
--- a/humanize/helper_table.go
+++ b/humanize/helper_table.go
@@ -339,7 +339,7 @@ var LocaleInfos = map[string]LocaleInfo{
 	},
 	"nb": {
 		Code:      "nb",
-		Name:      "Norwegian Bokmal",
+		Name:      "Norwegian Bokmål",
 		NameLocal: "norsk (bokmål)",
 	},
 	"ne": {
-- 
2.43.0


From 9c54ca9f29dd135a22306e0f4461b0cd65b5e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 58/58] =?UTF-8?q?fix:=20Serbian=20(Latin)=20times=20do=20n?=
 =?UTF-8?q?ot=20show=20the=20number=2021,=2031,=20=E2=80=A6?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 humanize/locale/srLatn/django.po | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/humanize/locale/srLatn/django.po b/humanize/locale/srLatn/django.po
index 095b6a9..5ffa923 100644
--- a/humanize/locale/srLatn/django.po
+++ b/humanize/locale/srLatn/django.po
@@ -535,25 +535,25 @@ msgstr "velški"
 
 msgid "a minute ago"
 msgid_plural "%[1]v minutes ago"
-msgstr[0] "pre minut"
+msgstr[0] "pre %[1]v minut"
 msgstr[1] "pre %[1]v minuta"
 msgstr[2] "pre %[1]v minuta"
 
 msgid "a minute from now"
 msgid_plural "%[1]v minutes from now"
-msgstr[0] "minut od sad"
+msgstr[0] "%[1]v minut od sad"
 msgstr[1] "%[1]v minuta od sada"
 msgstr[2] "%[1]v minuta od sada"
 
 msgid "a second ago"
 msgid_plural "%[1]v seconds ago"
-msgstr[0] "pre sekund"
+msgstr[0] "pre %[1]v sekund"
 msgstr[1] "pre %[1]v sekunde"
 msgstr[2] "pre %[1]v sekundi"
 
 msgid "a second from now"
 msgid_plural "%[1]v seconds from now"
-msgstr[0] "sekund od sad"
+msgstr[0] "%[1]v sekund od sad"
 msgstr[1] "%[1]v sekunde od sada"
 msgstr[2] "%[1]v sekundi od sada"
 
@@ -562,13 +562,13 @@ msgstr "pre p."
 
 msgid "an hour ago"
 msgid_plural "%[1]v hours ago"
-msgstr[0] "pre sat"
+msgstr[0] "pre %[1]v sat"
 msgstr[1] "pre %[1]v sata"
 msgstr[2] "pre %[1]v sati"
 
 msgid "an hour from now"
 msgid_plural "%[1]v hours from now"
-msgstr[0] "sat od sad"
+msgstr[0] "%[1]v sat od sad"
 msgstr[1] "%[1]v sata od sada"
 msgstr[2] "%[1]v sati od sada"
 
-- 
2.43.0

