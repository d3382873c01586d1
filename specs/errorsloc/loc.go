//verif:package localize

package localize

// A translated error shows its translation and leads to the original error.
func zspec_Error_Error(e *Error) string  { return e.Translation }
func zspec_Error_String(e *Error) string { return e.Translation }
func zspec_Error_Unwrap(e *Error) error  { return e.Wrapped }

// A message says what it was given and names no domain.
func zspec_Message_GetMsgID(m *Message) string    { return m.Singular }
func zspec_Message_GetPluralID(m *Message) string { return m.Plural }
func zspec_Message_GetContext(m *Message) string  { return m.Context }
func zspec_Message_GetVars(m *Message) []any      { return m.Vars }
func zspec_Message_GetCount(m *Message) int       { return m.Count }
func zspec_Message_HasDomain(m *Message) bool     { return false }
func zspec_Message_GetDomain(m *Message) string   { return "" }
