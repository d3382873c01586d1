//verif:package .

package spreak

import (
	"errors"

	"github.com/vorlif/spreak/localize"
)

func zspec_Localizer_LocalizeWithError(l *Localizer, t localize.Localizable) (string, error) {
	if t == nil {
		return "<nil>", errors.New("no message")
	}
	domain := l.defaultDomain
	if t.HasDomain() {
		domain = t.GetDomain()
	}
	if t.GetPluralID() == "" {
		return zsSingularChain(l, domain, t.GetContext(), t.GetMsgID(), t.GetVars())
	}
	return zsPluralChain(l, domain, t.GetContext(), t.GetMsgID(), t.GetPluralID(), t.GetCount(), t.GetVars())
}

func zspec_Localizer_Localize(l *Localizer, t localize.Localizable) string {
	s, _ := zspec_Localizer_LocalizeWithError(l, t)
	return s
}

func zspec_Localizer_LocalizeError(l *Localizer, err error) error {
	if err == nil {
		return nil
	}
	var text string
	var missing error
	if t, ok := err.(localize.Localizable); ok {
		text, missing = zspec_Localizer_LocalizeWithError(l, t)
	} else {
		text, missing = zsSingularChain(l, l.defaultDomain, l.bundle.errContext, err.Error(), nil)
	}
	if missing == nil {
		return &localize.Error{Translation: text, Wrapped: err}
	}
	return err
}
