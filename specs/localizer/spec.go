//verif:package .

package spreak

import (
	"github.com/vorlif/spreak/localize"
)

func zspec_Localizer_Get(l *Localizer, message localize.Singular) string {
	return zsText(l, l.defaultDomain, "", message, nil)
}

func zspec_Localizer_Getf(l *Localizer, message localize.Singular, vars ...any) string {
	return zsText(l, l.defaultDomain, "", message, vars)
}

func zspec_Localizer_DGet(l *Localizer, domain localize.Domain, message localize.Singular) string {
	return zsText(l, domain, "", message, nil)
}

func zspec_Localizer_DGetf(l *Localizer, domain localize.Domain, message localize.Singular, vars ...any) string {
	return zsText(l, domain, "", message, vars)
}

func zspec_Localizer_NGet(l *Localizer, singular localize.Singular, plural localize.Plural, n any) string {
	return zsTextN(l, l.defaultDomain, "", singular, plural, n, nil)
}

func zspec_Localizer_NGetf(l *Localizer, singular localize.Singular, plural localize.Plural, n any, vars ...any) string {
	return zsTextN(l, l.defaultDomain, "", singular, plural, n, vars)
}

func zspec_Localizer_DNGet(l *Localizer, domain localize.Domain, singular localize.Singular, plural localize.Plural, n any) string {
	return zsTextN(l, domain, "", singular, plural, n, nil)
}

func zspec_Localizer_DNGetf(l *Localizer, domain localize.Domain, singular localize.Singular, plural localize.Plural, n any, vars ...any) string {
	return zsTextN(l, domain, "", singular, plural, n, vars)
}

func zspec_Localizer_PGet(l *Localizer, context localize.Context, message localize.Singular) string {
	return zsText(l, l.defaultDomain, context, message, nil)
}

func zspec_Localizer_PGetf(l *Localizer, context localize.Context, message localize.Singular, vars ...any) string {
	return zsText(l, l.defaultDomain, context, message, vars)
}

func zspec_Localizer_DPGet(l *Localizer, domain localize.Domain, context localize.Context, message localize.Singular) string {
	return zsText(l, domain, context, message, nil)
}

func zspec_Localizer_DPGetf(l *Localizer, domain localize.Domain, context localize.Context, message localize.Singular, vars ...any) string {
	return zsText(l, domain, context, message, vars)
}

func zspec_Localizer_NPGet(l *Localizer, context localize.Context, singular localize.Singular, plural localize.Plural, n any) string {
	return zsTextN(l, l.defaultDomain, context, singular, plural, n, nil)
}

func zspec_Localizer_NPGetf(l *Localizer, context localize.Context, singular localize.Singular, plural localize.Plural, n any, vars ...any) string {
	return zsTextN(l, l.defaultDomain, context, singular, plural, n, vars)
}

func zspec_Localizer_DNPGet(l *Localizer, domain localize.Domain, context localize.Context, singular localize.Singular, plural localize.Plural, n any) string {
	return zsTextN(l, domain, context, singular, plural, n, nil)
}

func zspec_Localizer_DNPGetf(l *Localizer, domain localize.Domain, context localize.Context, singular localize.Singular, plural localize.Plural, n any, vars ...any) string {
	return zsTextN(l, domain, context, singular, plural, n, vars)
}

func zspec_KeyLocalizer_Get(l *KeyLocalizer, key localize.Key) string {
	return zsText(l.Localizer, l.defaultDomain, "", key, nil)
}

func zspec_KeyLocalizer_Getf(l *KeyLocalizer, key localize.Key, vars ...any) string {
	return zsText(l.Localizer, l.defaultDomain, "", key, vars)
}

func zspec_KeyLocalizer_DGet(l *KeyLocalizer, domain localize.Domain, key localize.Key) string {
	return zsText(l.Localizer, domain, "", key, nil)
}

func zspec_KeyLocalizer_DGetf(l *KeyLocalizer, domain localize.Domain, key localize.Key, vars ...any) string {
	return zsText(l.Localizer, domain, "", key, vars)
}

func zspec_KeyLocalizer_NGet(l *KeyLocalizer, key localize.PluralKey, n any) string {
	return zsTextN(l.Localizer, l.defaultDomain, "", key, key, n, nil)
}

func zspec_KeyLocalizer_NGetf(l *KeyLocalizer, key localize.PluralKey, n any, vars ...any) string {
	return zsTextN(l.Localizer, l.defaultDomain, "", key, key, n, vars)
}

func zspec_KeyLocalizer_DNGet(l *KeyLocalizer, domain localize.Domain, key localize.PluralKey, n any) string {
	return zsTextN(l.Localizer, domain, "", key, key, n, nil)
}

func zspec_KeyLocalizer_DNGetf(l *KeyLocalizer, domain localize.Domain, key localize.PluralKey, n any, vars ...any) string {
	return zsTextN(l.Localizer, domain, "", key, key, n, vars)
}

func zspec_KeyLocalizer_PGet(l *KeyLocalizer, context localize.Context, key localize.Key) string {
	return zsText(l.Localizer, l.defaultDomain, context, key, nil)
}

func zspec_KeyLocalizer_PGetf(l *KeyLocalizer, context localize.Context, key localize.Key, vars ...any) string {
	return zsText(l.Localizer, l.defaultDomain, context, key, vars)
}

func zspec_KeyLocalizer_DPGet(l *KeyLocalizer, domain localize.Domain, context localize.Context, key localize.Key) string {
	return zsText(l.Localizer, domain, context, key, nil)
}

func zspec_KeyLocalizer_DPGetf(l *KeyLocalizer, domain localize.Domain, context localize.Context, key localize.Key, vars ...any) string {
	return zsText(l.Localizer, domain, context, key, vars)
}

func zspec_KeyLocalizer_NPGet(l *KeyLocalizer, context localize.Context, key localize.PluralKey, n any) string {
	return zsTextN(l.Localizer, l.defaultDomain, context, key, key, n, nil)
}

func zspec_KeyLocalizer_NPGetf(l *KeyLocalizer, context localize.Context, key localize.PluralKey, n any, vars ...any) string {
	return zsTextN(l.Localizer, l.defaultDomain, context, key, key, n, vars)
}

func zspec_KeyLocalizer_DNPGet(l *KeyLocalizer, domain localize.Domain, context localize.Context, key localize.PluralKey, n any) string {
	return zsTextN(l.Localizer, domain, context, key, key, n, nil)
}

func zspec_KeyLocalizer_DNPGetf(l *KeyLocalizer, domain localize.Domain, context localize.Context, key localize.PluralKey, n any, vars ...any) string {
	return zsTextN(l.Localizer, domain, context, key, key, n, vars)
}

func zspec_Localizer_HasDomain(l *Localizer, domain string) bool {
	_, ok := l.locale.domainCatalogs[domain]
	return ok
}

func zspec_Localizer_HasLocale(l *Localizer) bool { return l.localeFound }

func zspec_Localizer_DefaultDomain(l *Localizer) string { return l.defaultDomain }

func zspec_Localizer_Print(l *Localizer, format string, vars ...any) string {
	return l.locale.printFunc(format, vars...)
}
