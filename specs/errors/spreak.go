//verif:package .

package spreak

import (
	"fmt"

	"golang.org/x/text/language"
)

func zspec__NewErrNotFound(lang language.Tag, source string, format string, vars ...any) *ErrNotFound {
	return &ErrNotFound{Language: lang, Type: source, Identifier: fmt.Sprintf(format, vars...)}
}

func zspec_ErrNotFound_Error(e *ErrNotFound) string { return zspec_ErrNotFound_String(e) }

func zspec_ErrNotFound_String(e *ErrNotFound) string {
	return fmt.Sprintf("spreak: item of type %q for lang=%q could not be found: %s ", e.Type, e.Language, e.Identifier)
}

func zspec_ErrMissingLanguage_Error(e *ErrMissingLanguage) string {
	return zspec_ErrMissingLanguage_String(e)
}

func zspec_ErrMissingLanguage_String(e *ErrMissingLanguage) string {
	return fmt.Sprintf("spreak: language not found: lang=%q ", e.Language)
}

func zspec_ErrMissingDomain_Error(e *ErrMissingDomain) string { return zspec_ErrMissingDomain_String(e) }

func zspec_ErrMissingDomain_String(e *ErrMissingDomain) string {
	text := fmt.Sprintf("spreak: domain not found: lang=%q ", e.Language)
	if e.Domain == "" {
		return text + "domain='' (empty string) "
	}
	return text + fmt.Sprintf("domain=%q ", e.Domain)
}
