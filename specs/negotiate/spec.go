//verif:package .

package spreak

import (
	"maps"
	"slices"

	"golang.org/x/text/language"
)

// The language that the matcher of the bundle chooses for the accepted languages.
func zspec__NewLocalizerForDomain(b *Bundle, domain string, langs ...any) *Localizer {
	l := &Localizer{bundle: b, defaultDomain: domain}
	var tags []language.Tag
	for _, lang := range langs {
		if tag, ok := lang.(language.Tag); ok {
			tags = append(tags, tag)
		} else if text, ok := lang.(string); ok {
			if accepted, _, err := language.ParseAcceptLanguage(text); err == nil {
				tags = append(tags, accepted...)
			}
		}
	}
	_, i, conf := b.languageMatcher.Match(tags...)
	if conf > language.No {
		if found, ok := b.locales[b.languages[i]]; ok {
			l.locale, l.localeFound = found, true
		}
	}
	if l.locale == nil {
		l.locale = b.fallbackLocale
	}
	return l
}

func zspec__NewLocalizer(b *Bundle, langs ...any) *Localizer {
	return zspec__NewLocalizerForDomain(b, b.defaultDomain, langs...)
}

func zspec__NewKeyLocalizerForDomain(b *Bundle, domain string, langs ...any) *KeyLocalizer {
	return &KeyLocalizer{Localizer: zspec__NewLocalizerForDomain(b, domain, langs...)}
}

func zspec__NewKeyLocalizer(b *Bundle, langs ...any) *KeyLocalizer {
	return &KeyLocalizer{Localizer: zspec__NewLocalizerForDomain(b, b.defaultDomain, langs...)}
}

func zspec_Localizer_HasDomain(l *Localizer, domain string) bool {
	_, ok := l.locale.domainCatalogs[domain]
	return ok
}

func zspec_Localizer_HasLocale(l *Localizer) bool { return l.localeFound }

func zspec_Localizer_DefaultDomain(l *Localizer) string { return l.defaultDomain }

func zspec_Localizer_Language(l *Localizer) language.Tag { return l.locale.language }

// The domains with a catalogue of the language; a set without an order.
func zspec_Localizer_Domains(l *Localizer) []string {
	return slices.AppendSeq([]string{}, maps.Keys(l.locale.domainCatalogs))
}

func zalt1_Localizer_Domains(l *Localizer) []string {
	return slices.Collect(maps.Keys(l.locale.domainCatalogs))
}

func zalt2_Localizer_Domains(l *Localizer) []string {
	var all []string
	for domain := range l.locale.domainCatalogs {
		all = append(all, domain)
	}
	return all
}

func zalt3_Localizer_Domains(l *Localizer) []string {
	return slices.Sorted(maps.Keys(l.locale.domainCatalogs))
}
