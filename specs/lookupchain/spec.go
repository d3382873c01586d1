//verif:package .

package spreak

// One language is asked for a singular text. reported tells that the miss was passed to the callback.
func zsSingular(l *locale, domain, ctx, id string, vars []any) (text string, missing error) {
	if l.isSourceLanguage {
		return l.printFunc(id, vars...), nil
	}
	cat, ok := l.domainCatalogs[domain]
	if !ok {
		missing = &ErrMissingDomain{Language: l.language, Domain: domain}
	} else if t, err := cat.Lookup(ctx, id); err != nil {
		missing = err
	} else {
		return l.printFunc(t, vars...), nil
	}
	if cb := l.bundle.missingCallback; cb != nil {
		cb(missing)
	}
	return "", missing
}

func zsPlural(l *locale, domain, ctx, singular, plural string, n any, vars []any) (text string, missing error) {
	if l.isSourceLanguage {
		form, err := l.pluralFunc(n)
		if err != nil {
			if cb := l.bundle.missingCallback; cb != nil {
				cb(err)
			}
		}
		if form != 0 && plural != "" {
			return l.printFunc(plural, vars...), nil
		}
		return l.printFunc(singular, vars...), nil
	}
	cat, ok := l.domainCatalogs[domain]
	if !ok {
		missing = &ErrMissingDomain{Language: l.language, Domain: domain}
	} else if t, err := cat.LookupPlural(ctx, singular, n); err != nil {
		missing = err
	} else {
		return l.printFunc(t, vars...), nil
	}
	if cb := l.bundle.missingCallback; cb != nil {
		cb(missing)
	}
	return "", missing
}

// The language of the localizer, then the fallback language if it is another one, then the source text.
// The error is the one of the language of the localizer.
func zsSingularChain(l *Localizer, domain, ctx, id string, vars []any) (string, error) {
	text, first := zsSingular(l.locale, domain, ctx, id, vars)
	if first == nil {
		if l.localeFound {
			return text, nil
		}
		return text, errMissingLocale
	}
	if l.bundle.fallbackLocale.language != l.locale.language {
		text, err := zsSingular(l.bundle.fallbackLocale, domain, ctx, id, vars)
		if err == nil {
			return text, first
		}
	}
	text, _ = zsSingular(l.bundle.sourceLocale, domain, ctx, id, vars)
	return text, first
}

func zsPluralChain(l *Localizer, domain, ctx, singular, plural string, n any, vars []any) (string, error) {
	text, first := zsPlural(l.locale, domain, ctx, singular, plural, n, vars)
	if first == nil {
		if l.localeFound {
			return text, nil
		}
		return text, errMissingLocale
	}
	if l.bundle.fallbackLocale.language != l.locale.language {
		text, err := zsPlural(l.bundle.fallbackLocale, domain, ctx, singular, plural, n, vars)
		if err == nil {
			return text, first
		}
	}
	text, _ = zsPlural(l.bundle.sourceLocale, domain, ctx, singular, plural, n, vars)
	return text, first
}

func zsText(l *Localizer, domain, ctx, id string, vars []any) string {
	t, _ := zsSingularChain(l, domain, ctx, id, vars)
	return t
}

func zsTextN(l *Localizer, domain, ctx, singular, plural string, n any, vars []any) string {
	t, _ := zsPluralChain(l, domain, ctx, singular, plural, n, vars)
	return t
}
