//verif:package catalog

package catalog

import (
	"fmt"

	"golang.org/x/text/language"
)

func zspec__NewErrMissingContext(lang language.Tag, domain, context string) *ErrMissingContext {
	return &ErrMissingContext{Language: lang, Domain: domain, Context: context}
}

func zspec__NewErrMissingMessageID(lang language.Tag, domain, context, msgID string) *ErrMissingMessageID {
	return &ErrMissingMessageID{Language: lang, Domain: domain, Context: context, MsgID: msgID}
}

func zspec__NewErrMissingTranslation(lang language.Tag, domain, context, msgID string, idx int) *ErrMissingTranslation {
	return &ErrMissingTranslation{Language: lang, Domain: domain, Context: context, MsgID: msgID, Idx: idx}
}

// A name that is not empty, quoted.
func zsNamed(name, value string) string {
	if value == "" {
		return ""
	}
	return fmt.Sprintf("%s=%q ", name, value)
}

func zspec_ErrMissingContext_Error(e *ErrMissingContext) string {
	return zspec_ErrMissingContext_String(e)
}

func zspec_ErrMissingContext_String(e *ErrMissingContext) string {
	text := fmt.Sprintf("spreak: context not found: lang=%q ", e.Language) + zsNamed("domain", e.Domain)
	if e.Context == "" {
		return text + "ctx='' (empty string)"
	}
	return text + zsNamed("ctx", e.Context)
}

func zspec_ErrMissingMessageID_Error(e *ErrMissingMessageID) string {
	return zspec_ErrMissingMessageID_String(e)
}

func zspec_ErrMissingMessageID_String(e *ErrMissingMessageID) string {
	return fmt.Sprintf("spreak: msgID not found: lang=%q ", e.Language) + zsNamed("domain", e.Domain) + zsNamed("ctx", e.Context) + fmt.Sprintf("msgID=%q", e.MsgID)
}

func zspec_ErrMissingTranslation_Error(e *ErrMissingTranslation) string {
	return zspec_ErrMissingTranslation_String(e)
}

func zspec_ErrMissingTranslation_String(e *ErrMissingTranslation) string {
	return fmt.Sprintf("spreak: translation not found: lang=%q ", e.Language) + zsNamed("domain", e.Domain) + zsNamed("ctx", e.Context) + fmt.Sprintf("msgID=%q idx=%d", e.MsgID, e.Idx)
}
