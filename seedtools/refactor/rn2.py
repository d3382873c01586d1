# changed signatures and functions that are merged into their callers
edit('catalog/po/encoder.go','''	enc.encodeTranslations(buff, hasPlural, m.Str)
''','''	enc.encodeTranslations(buff, m, hasPlural)
''')
edit('catalog/po/encoder.go','''encodeTranslations(buff *bytes.Buffer, plural bool, orig map[int]string) {
	m := make(map[int]string, len(orig))
	for k, v := range orig {''','''encodeTranslations(buff *bytes.Buffer, msg *Message, plural bool) {
	m := make(map[int]string, len(msg.Str))
	for k, v := range msg.Str {''')
