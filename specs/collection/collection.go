//verif:package humanize

package humanize

import (
	"errors"
	"io/fs"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// The formats of a language; what is missing is taken from the fallback.
func zsFormats(d *FormatData) *FormatData {
	r := FormatData{
		DateFormat: "N j, Y", TimeFormat: "P", DateTimeFormat: "N j, Y, P", YearMonthFormat: "F Y", MonthDayFormat: "F j",
		ShortDateFormat: "m/d/Y", ShortDatetimeFormat: "m/d/Y P", FirstDayOfWeek: 0,
	}
	if d == nil {
		return &r
	}
	r.FirstDayOfWeek = d.FirstDayOfWeek
	if d.DateFormat != "" {
		r.DateFormat = d.DateFormat
	}
	if d.TimeFormat != "" {
		r.TimeFormat = d.TimeFormat
	}
	if d.DateTimeFormat != "" {
		r.DateTimeFormat = d.DateTimeFormat
	}
	if d.YearMonthFormat != "" {
		r.YearMonthFormat = d.YearMonthFormat
	}
	if d.MonthDayFormat != "" {
		r.MonthDayFormat = d.MonthDayFormat
	}
	if d.ShortDateFormat != "" {
		r.ShortDateFormat = d.ShortDateFormat
	}
	if d.ShortDatetimeFormat != "" {
		r.ShortDatetimeFormat = d.ShortDatetimeFormat
	}
	return &r
}

func zspec__New(opts ...Option) (*Collection, error) {
	o := &options{}
	for _, opt := range opts {
		if opt == nil {
			return nil, errors.New("nil option")
		}
		if err := opt(o); err != nil {
			return nil, err
		}
	}

	locales := make([]*LocaleData, 0, len(o.locales))
	for _, d := range o.locales {
		if d == nil {
			return nil, errors.New("nil locale")
		}
		locales = append(locales, &LocaleData{Lang: d.Lang, Fs: d.Fs, Format: zsFormats(d.Format)})
	}
	loader := &localeLoader{locales: make(map[language.Tag]*LocaleData, len(locales))}
	for _, d := range locales {
		loader.locales[d.Lang] = d
	}

	// every language once, in the order in which they were given
	c := &Collection{locales: make(map[language.Tag]*FormatData, len(locales))}
	languages := make([]any, 0, len(loader.locales))
	for _, d := range locales {
		if _, ok := c.locales[d.Lang]; !ok {
			languages = append(languages, d.Lang)
			c.locales[d.Lang] = loader.locales[d.Lang].Format
		}
	}

	o.bundleOptions = append(o.bundleOptions,
		spreak.WithSourceLanguage(language.English),
		spreak.WithDefaultDomain("django"),
		spreak.WithDomainLoader("django", loader),
		spreak.WithLanguage(languages...),
	)
	b, err := spreak.NewBundle(o.bundleOptions...)
	if err != nil {
		return nil, err
	}
	c.bundle = b
	return c, nil
}

func zspec__MustNew(opts ...Option) *Collection {
	c, err := New(opts...)
	if err != nil {
		panic(err)
	}
	return c
}

func zspec__WithLocale(data ...*LocaleData) Option {
	return func(o *options) error {
		o.locales = append(o.locales, data...)
		return nil
	}
}

func zspec__WithBundleOption(opt spreak.BundleOption) Option {
	return func(o *options) error {
		o.bundleOptions = append(o.bundleOptions, opt)
		return nil
	}
}

// A humanizer formats in the language of its texts.
func zspec_Collection_CreateHumanizer(c *Collection, lang ...any) *Humanizer {
	l := spreak.NewLocalizer(c.bundle, lang...)
	if f, ok := c.locales[l.Language()]; ok {
		return &Humanizer{loc: l, format: f}
	}
	return &Humanizer{loc: l, format: fallbackFormat}
}

func zspec_localeLoader_Load(l *localeLoader, lang language.Tag, domain string) (catalog.Catalog, error) {
	d, ok := l.locales[lang]
	if !ok {
		return nil, spreak.NewErrNotFound(lang, "humanize", "domain=%q", domain)
	}
	data, err := fs.ReadFile(d.Fs, domain+".po")
	if err != nil {
		return nil, spreak.NewErrNotFound(lang, "humanize", "domain=%q,err=%v", domain, err)
	}
	cat, err := catalog.NewPoDecoder().Decode(lang, domain, data)
	if err != nil {
		return nil, err
	}
	return cat, nil
}

func zspec_Humanizer_LanguageName(h *Humanizer, lang string) string { return h.loc.Get(lang) }

func zspec_Humanizer_LanguageNameByCode(h *Humanizer, code string) string {
	if info, ok := LocaleInfos[code]; ok {
		return h.loc.Get(info.Name)
	}
	return ""
}

func zspec_Humanizer_Language(h *Humanizer) language.Tag { return h.loc.Language() }
