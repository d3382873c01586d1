edit('bundle.go','''		err := b.createLocale(optional, tag)
		if err == nil {
			continue
		}

		if !optional {
			return err
		}

		var missErr *ErrMissingLanguage
		if errors.As(err, &missErr) {
			if b.missingCallback != nil {
				b.missingCallback(missErr)
			}

			continue
		}

		return err

	}
''','''		if err := b.createLocale(optional, tag); err != nil {
			var missErr *ErrMissingLanguage
			if !optional || !errors.As(err, &missErr) {
				return err
			}
			b.report(missErr)
		}
	}
''')
edit('bundle.go','''func (b *bundleBuilder) createLocale(''','''func (b *bundleBuilder) report(err error) {
	if b.missingCallback == nil {
		return
	}
	b.missingCallback(err)
}

func (b *bundleBuilder) register(lang language.Tag, l *locale) {
	b.languages = append(b.languages, lang)
	b.locales[lang] = l
}

func (b *bundleBuilder) createLocale(''')
edit('bundle.go','''		sourceLocale := buildSourceLocale(b.Bundle, b.sourceLanguage)
		b.locales[lang] = sourceLocale
		b.languages = append(b.languages, lang)
		return nil''','''		b.register(lang, buildSourceLocale(b.Bundle, lang))
		return nil''')
edit('bundle.go','''	langLocale := buildLocale(b.Bundle, lang, catalogs)
	b.locales[lang] = langLocale
	b.languages = append(b.languages, lang)
	return nil''','''	b.register(lang, buildLocale(b.Bundle, lang, catalogs))
	return nil''')
edit('bundle.go','''	for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {
		cat, errD''','''	domains := slices.Sorted(maps.Keys(b.domainLoaders))
	for i := 0; i < len(domains); i++ {
		domain := domains[i]
		cat, errD''')
edit('bundle.go','''	if sourceLocale, hasSource := builder.locales[builder.sourceLanguage]; hasSource {
		builder.sourceLocale = sourceLocale
	} else {
		builder.sourceLocale = buildSourceLocale(builder.Bundle, builder.sourceLanguage)
	}
''','''	sourceLocale, hasSource := builder.locales[builder.sourceLanguage]
	if !hasSource {
		sourceLocale = buildSourceLocale(builder.Bundle, builder.sourceLanguage)
	}
	builder.sourceLocale = sourceLocale
''')
edit('bundle.go','''func WithDomainFs(domain string, fsys fs.FS) BundleOption {
	if fsys == nil {
		return func(_ *bundleBuilder) error {
			return errors.New("spreak.Bundle: fsys of WithDomainFs(..., fsys) is nil")
		}
	}

	return WithFilesystemLoader(domain, WithFs(fsys))
}''','''func WithDomainFs(domain string, fsys fs.FS) BundleOption {
	if fsys != nil {
		return WithFilesystemLoader(domain, WithFs(fsys))
	}
	return fail("spreak.Bundle: fsys of WithDomainFs(..., fsys) is nil")
}

func fail(text string) BundleOption {
	return func(*bundleBuilder) error { return errors.New(text) }
}''')
edit('loader.go','''	for i, extension := range l.extensions {
		cat, err := l.loadFromFile(lang, domain, extension, i)
		if err != nil {
			if errors.Is(err, os.ErrNotExist) {
				continue
			}
			return nil, err
		}

		return cat, nil
	}
''','''	for i, extension := range l.extensions {
		cat, err := l.loadFromFile(lang, domain, extension, i)
		switch {
		case err == nil:
			return cat, nil
		case !errors.Is(err, os.ErrNotExist):
			return nil, err
		}
	}
''')
edit('loader.go','''	decoder := l.decoder[decoderIndex]

	switch x := decoder.(type) {
	case catalog.DecoderV2:
		cat, err = x.DecodeReader(lang, domain, file)
		if err != nil {
			return nil, err
		}
	default:
		data, errR := io.ReadAll(file)
		if errR != nil {
			return nil, errR
		}

		cat, err = decoder.Decode(lang, domain, data)
		if err != nil {
			return nil, fmt.Errorf("spreak: file %s could not be decoded: %w", resolvedPath, err)
		}
	}

	return cat, nil
}''','''	return l.decode(l.decoder[decoderIndex], lang, domain, resolvedPath, file)
}

func (l *FilesystemLoader) decode(decoder catalog.Decoder, lang language.Tag, domain, name string, file fs.File) (catalog.Catalog, error) {
	if x, ok := decoder.(catalog.DecoderV2); ok {
		cat, err := x.DecodeReader(lang, domain, file)
		if err != nil {
			return nil, err
		}
		return cat, nil
	}

	data, errR := io.ReadAll(file)
	if errR != nil {
		return nil, errR
	}

	cat, err := decoder.Decode(lang, domain, data)
	if err != nil {
		return nil, fmt.Errorf("spreak: file %s could not be decoded: %w", name, err)
	}
	return cat, nil
}''')
edit('loader.go','''		searchPath, err := r.searchFileForLanguageName(fsys, lang, domain, extension)
		if errors.Is(err, os.ErrNotExist) {
			continue
		}
		if err != nil {
			return "", err
		}

		return searchPath, nil
	}
''','''		if searchPath, found := r.searchFileForLanguageName(fsys, lang, domain, extension); found {
			return searchPath, nil
		}
	}
''')
edit('loader.go','''locale, domain, ext string) (string, error) {''','''locale, domain, ext string) (string, bool) {''')
s=open('loader.go').read()
i=s.index('func (r *defaultResolver) searchFile')
t=s[i:].replace('return searchPath, nil','return searchPath, true').replace('return "", os.ErrNotExist','return "", false')
a=t.index('	// .../locale/category/domain.mo'); b=t.index('	// .../locale.mo\n')
t=t[:a]+'''	var candidates [][]string
	if domain != "" {
		candidates = append(candidates, []string{locale, r.category, domain + ext})
		if r.search {
			candidates = append(candidates, []string{locale, "LC_MESSAGES", domain + ext}, []string{locale, domain + ext}, []string{domain, locale + ext})
		}
	}
	for _, c := range candidates {
		if searchPath, found := tryPath(c...); found {
			return searchPath, true
		}
	}

	if !r.search {
		return "", false
	}

'''+t[b:]
open('loader.go','w').write(s[:i]+t)
edit('localizer.go','''		switch val := accept.(type) {
		case language.Tag:
			tags = append(tags, val)
		case string:
			desired, _, err := language.ParseAcceptLanguage(val)
			if err != nil {
				continue
			}
			tags = append(tags, desired...)
		default:
			continue
		}
	}
''','''		tags = append(tags, acceptedTags(accept)...)
	}
''')
edit('localizer.go','''func newLocalizerFromTag(''','''func acceptedTags(accept any) []language.Tag {
	switch val := accept.(type) {
	case language.Tag:
		return []language.Tag{val}
	case string:
		if desired, _, err := language.ParseAcceptLanguage(val); err == nil {
			return desired
		}
	}
	return nil
}

func newLocalizerFromTag(''')
edit('utils.go','''	if regionConf > language.No && baseConf > language.No {
		key := fmt.Sprintf("%s_%s", base.String(), region.String())
		addEntry(key)

		key = fmt.Sprintf("%s-%s", base.String(), region.String())
		addEntry(key)
	}
''','''	if regionConf > language.No && baseConf > language.No {
		for _, sep := range []string{"_", "-"} {
			addEntry(base.String() + sep + region.String())
		}
	}
''')
