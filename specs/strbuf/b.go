//verif:package internal/util

package util

// The length is counted in characters for single characters and in bytes for texts.

func zspec_StringBuffer_Len(b *StringBuffer) int { return b.len }

func zspec_StringBuffer_String(b *StringBuffer) string { return b.buff.String() }

func zspec_StringBuffer_Reset(b *StringBuffer) {
	b.len = 0
	b.buff.Reset()
}

func zspec_StringBuffer_WriteInto(b *StringBuffer, w *StringBuffer) {
	_, _ = b.buff.WriteTo(&w.buff)
	w.len += b.len
	b.len = 0
}

func zspec_StringBuffer_WriteRune(b *StringBuffer, r rune) {
	b.len++
	b.buff.WriteRune(r)
}

func zspec_StringBuffer_WriteString(b *StringBuffer, s string) {
	b.len += len(s)
	_, _ = b.buff.WriteString(s)
}
