//verif:package .

package spreak

import (
	"errors"
	"fmt"
	"io/fs"
	"maps"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/poplural"
)

func zspec__NewBundle(opts ...BundleOption) (*Bundle, error) {
	b := &bundleBuilder{
		Bundle: &Bundle{
			printer:    &defaultPrinter{},
			errContext: "errors",
			languages:  []language.Tag{},
			locales:    map[language.Tag]*locale{},
		},
		languageMatcherBuilder: language.NewMatcher,
		domainLoaders:          map[string]Loader{},
		setupActions:           []setupAction{},
	}
	for _, opt := range opts {
		if opt == nil {
			return nil, errors.New("nil option")
		}
		if err := opt(b); err != nil {
			return nil, err
		}
	}

	b.domains = []string{}
	for _, action := range b.setupActions {
		if action == nil {
			return nil, errors.New("nil action")
		}
		if err := action(b); err != nil {
			return nil, err
		}
	}

	b.languageMatcher = b.languageMatcherBuilder(b.languages)
	b.printer.Init(b.languages)
	source, ok := b.locales[b.sourceLanguage]
	if !ok {
		source = zsSource(b.Bundle, b.sourceLanguage)
	}
	b.sourceLocale = source
	fallback, ok := b.locales[b.fallbackLanguage]
	if !ok {
		fallback = source
	}
	b.fallbackLocale = fallback
	return b.Bundle, nil
}

func zsSource(b *Bundle, lang language.Tag) *locale {
	l := &locale{bundle: b, language: lang, printFunc: b.printer.GetPrintFunc(lang), isSourceLanguage: true}
	l.pluralFunc, _ = poplural.ForLanguage(lang)
	return l
}

func zsTag(lang any) (language.Tag, error) {
	switch v := lang.(type) {
	case language.Tag:
		return v, nil
	case string:
		for _, sep := range []string{":", "@", "."} {
			if i := strings.Index(v, sep); i != -1 {
				v = v[:i]
			}
		}
		tag, err := language.Parse(strings.TrimSpace(v))
		if err != nil {
			return language.Und, err
		}
		return tag, nil
	}
	return language.Und, ErrRequireStringTag
}

// Languages without a catalogue are skipped and reported if they are optional.
func zsLoadAll(b *bundleBuilder, optional bool, langs []any) error {
	for _, lang := range langs {
		tag, err := zsTag(lang)
		if err != nil {
			return err
		}
		err = zsLoad(b, optional, tag)
		if err == nil {
			continue
		}
		var missing *ErrMissingLanguage
		if !optional || !errors.As(err, &missing) {
			return err
		}
		if b.missingCallback != nil {
			b.missingCallback(missing)
		}
	}
	return nil
}

func zsLoad(b *bundleBuilder, optional bool, lang language.Tag) error {
	if lang == language.Und {
		return &ErrMissingLanguage{Language: lang}
	}
	if lang == b.sourceLanguage {
		b.locales[lang] = zsSource(b.Bundle, b.sourceLanguage)
		b.languages = append(b.languages, lang)
		return nil
	}
	if _, ok := b.locales[lang]; ok {
		return nil
	}

	catalogs := map[string]catalog.Catalog{}
	for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {
		cat, err := b.domainLoaders[domain].Load(lang, domain)
		if err == nil {
			catalogs[domain] = cat
			if !slices.Contains(b.domains, domain) {
				b.domains = append(b.domains, domain)
			}
			continue
		}
		var missing *ErrNotFound
		if !errors.As(err, &missing) {
			return err
		}
		if b.missingCallback != nil {
			b.missingCallback(missing)
		}
		if !optional {
			return err
		}
	}
	if len(catalogs) == 0 {
		return &ErrMissingLanguage{Language: lang}
	}

	l := &locale{bundle: b.Bundle, language: lang, domainCatalogs: catalogs, printFunc: b.printer.GetPrintFunc(lang)}
	l.pluralFunc, _ = poplural.ForLanguage(lang)
	b.locales[lang] = l
	b.languages = append(b.languages, lang)
	return nil
}

func zspec__WithFallbackLanguage(lang any) BundleOption {
	return func(b *bundleBuilder) error {
		tag, err := zsTag(lang)
		if err != nil {
			return err
		}
		b.fallbackLanguage = tag
		b.setupActions = append(b.setupActions, func(b *bundleBuilder) error { return zsLoadAll(b, false, []any{tag}) })
		return nil
	}
}

func zspec__WithSourceLanguage(tag language.Tag) BundleOption {
	return func(b *bundleBuilder) error {
		b.sourceLanguage = tag
		b.setupActions = append(b.setupActions, func(b *bundleBuilder) error { return zsLoadAll(b, false, []any{tag}) })
		return nil
	}
}

func zspec__WithLanguage(langs ...any) BundleOption {
	return func(b *bundleBuilder) error {
		b.setupActions = append(b.setupActions, func(b *bundleBuilder) error { return zsLoadAll(b, true, langs) })
		return nil
	}
}

func zspec__WithRequiredLanguage(langs ...any) BundleOption {
	return func(b *bundleBuilder) error {
		b.setupActions = append(b.setupActions, func(b *bundleBuilder) error { return zsLoadAll(b, false, langs) })
		return nil
	}
}

func zspec__WithMissingTranslationCallback(cb MissingTranslationCallback) BundleOption {
	return func(b *bundleBuilder) error {
		b.missingCallback = cb
		return nil
	}
}

func zspec__WithDefaultDomain(domain string) BundleOption {
	return func(b *bundleBuilder) error {
		b.defaultDomain = domain
		return nil
	}
}

func zspec__WithErrorContext(ctx string) BundleOption {
	return func(b *bundleBuilder) error {
		b.errContext = ctx
		return nil
	}
}

func zspec__WithDomainLoader(domain string, l Loader) BundleOption {
	return func(b *bundleBuilder) error {
		if _, ok := b.domainLoaders[domain]; ok {
			return fmt.Errorf("already set")
		}
		if l == nil {
			return errors.New("nil loader")
		}
		b.domainLoaders[domain] = l
		return nil
	}
}

func zspec__WithFilesystemLoader(domain string, opts ...FsOption) BundleOption {
	return func(b *bundleBuilder) error {
		l, err := NewFilesystemLoader(opts...)
		if err != nil {
			return err
		}
		if _, ok := b.domainLoaders[domain]; ok {
			return fmt.Errorf("already set")
		}
		b.domainLoaders[domain] = l
		return nil
	}
}

func zspec__WithDomainPath(domain, path string) BundleOption {
	return zspec__WithFilesystemLoader(domain, WithPath(path))
}

func zspec__WithDomainFs(domain string, fsys fs.FS) BundleOption {
	if fsys != nil {
		return zspec__WithFilesystemLoader(domain, WithFs(fsys))
	}
	return func(*bundleBuilder) error { return errors.New("nil file system") }
}

func zspec__WithPrinter(p Printer) BundleOption {
	return func(b *bundleBuilder) error {
		if p == nil {
			return errors.New("nil printer")
		}
		b.printer = p
		return nil
	}
}

func zspec__WithPrintFunction(f PrintFunc) BundleOption {
	if f != nil {
		return zspec__WithPrinter(&printFunctionWrapper{f: f})
	}
	return func(*bundleBuilder) error { return errors.New("nil function") }
}

func zspec__WithLanguageMatcherBuilder(m LanguageMatcherBuilder) BundleOption {
	return func(b *bundleBuilder) error {
		if m == nil {
			return errors.New("nil builder")
		}
		b.languageMatcherBuilder = m
		return nil
	}
}

func zspec_Bundle_Domains(b *Bundle) []string { return slices.Clone(b.domains) }

func zspec_Bundle_CanLocalize(b *Bundle) bool { return len(b.domains) > 0 && len(b.locales) > 0 }

func zspec_Bundle_IsLanguageSupported(b *Bundle, lang language.Tag) bool {
	_, _, conf := b.languageMatcher.Match(lang)
	return conf > language.No
}

// The languages with a locale, each once; a set without an order.
func zspec_Bundle_SupportedLanguages(b *Bundle) []language.Tag {
	return slices.AppendSeq([]language.Tag{}, maps.Keys(b.locales))
}

func zalt1_Bundle_SupportedLanguages(b *Bundle) []language.Tag {
	return slices.Collect(maps.Keys(b.locales))
}

func zalt2_Bundle_SupportedLanguages(b *Bundle) []language.Tag {
	var all []language.Tag
	for lang := range b.locales {
		all = append(all, lang)
	}
	return all
}
