//verif:package .

package spreak

import (
	"cmp"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

// The first extension for which a file exists decides.
func zspec_FilesystemLoader_Load(l *FilesystemLoader, lang language.Tag, domain string) (catalog.Catalog, error) {
	for i, ext := range l.extensions {
		cat, err := zsLoadFile(l, lang, domain, ext, i)
		if err == nil {
			return cat, nil
		}
		if !errors.Is(err, os.ErrNotExist) {
			return nil, err
		}
	}
	return nil, &ErrNotFound{Language: lang, Type: "file", Identifier: fmt.Sprintf("domain=%q", domain)}
}

func zsLoadFile(l *FilesystemLoader, lang language.Tag, domain, ext string, i int) (cat catalog.Catalog, err error) {
	name, err := l.resolver.Resolve(l.fsys, ext, lang, domain)
	if err != nil {
		return nil, err
	}
	file, err := l.fsys.Open(name)
	if err != nil {
		return nil, err
	}
	cat, err = zsDecode(l.decoder[i], lang, domain, file)
	if closeErr := file.Close(); closeErr != nil {
		err = errors.Join(err, closeErr)
	}
	return cat, err
}

func zsDecode(d catalog.Decoder, lang language.Tag, domain string, file fs.File) (catalog.Catalog, error) {
	if v2, ok := d.(catalog.DecoderV2); ok {
		cat, err := v2.DecodeReader(lang, domain, file)
		if err != nil {
			return nil, err
		}
		return cat, nil
	}
	data, err := io.ReadAll(file)
	if err != nil {
		return nil, err
	}
	cat, err := d.Decode(lang, domain, data)
	if err != nil {
		return nil, fmt.Errorf("%w", err)
	}
	return cat, nil
}

func zspec_defaultResolver_Resolve(r *defaultResolver, fsys fs.FS, ext string, tag language.Tag, domain string) (string, error) {
	for _, lang := range ExpandLanguage(tag) {
		if p, ok := zsSearch(r, fsys, lang, domain, ext); ok {
			return p, nil
		}
	}
	return "", os.ErrNotExist
}

func zsSearch(r *defaultResolver, fsys fs.FS, lang, domain, ext string) (string, bool) {
	if domain != "" {
		if p := path.Join(lang, r.category, domain+ext); zsExists(fsys, p) {
			return p, true
		}
	}
	if !r.search {
		return "", false
	}
	if domain != "" {
		if p := path.Join(lang, "LC_MESSAGES", domain+ext); zsExists(fsys, p) {
			return p, true
		}
		if p := path.Join(lang, domain+ext); zsExists(fsys, p) {
			return p, true
		}
		if p := path.Join(domain, lang+ext); zsExists(fsys, p) {
			return p, true
		}
	}
	if p := path.Join(lang + ext); zsExists(fsys, p) {
		return p, true
	}
	if r.category != "" {
		if p := path.Join(r.category, lang+ext); zsExists(fsys, p) {
			return p, true
		}
	}
	if r.category != "LC_MESSAGES" {
		if p := path.Join("LC_MESSAGES", lang+ext); zsExists(fsys, p) {
			return p, true
		}
	}
	return "", false
}

func zsExists(fsys fs.FS, p string) bool {
	_, err := fs.Stat(fsys, p)
	return err == nil
}

func zspec__NewFilesystemLoader(opts ...FsOption) (*FilesystemLoader, error) {
	l := &FilesystemLoader{}
	for _, opt := range opts {
		if opt == nil {
			return nil, errors.New("nil option")
		}
		if err := opt(l); err != nil {
			return nil, err
		}
	}
	if len(l.decoder) == 0 {
		l.extensions = append(l.extensions, ".po", ".mo", ".json")
		l.decoder = append(l.decoder, catalog.NewPoDecoder(), catalog.NewMoDecoder(), catalog.NewJSONDecoder())
	}
	if l.fsys == nil {
		return nil, errors.New("no filesystem")
	}
	if l.resolver == nil {
		l.resolver = &defaultResolver{search: true}
	}
	return l, nil
}

func zspec__NewDefaultResolver(opts ...ResolverOption) (Resolver, error) {
	r := &defaultResolver{search: true}
	for _, opt := range opts {
		if opt == nil {
			return nil, errors.New("nil option")
		}
		opt(r)
	}
	return r, nil
}

func zspec__WithDisabledSearch() ResolverOption {
	return func(r *defaultResolver) { r.search = false }
}

func zspec__WithCategory(category string) ResolverOption {
	return func(r *defaultResolver) { r.category = category }
}

func zspec__WithFs(fsys fs.FS) FsOption {
	return func(l *FilesystemLoader) error {
		if l.fsys != nil {
			return errors.New("already set")
		}
		l.fsys = fsys
		return nil
	}
}

func zspec__WithPath(p string) FsOption {
	return func(l *FilesystemLoader) error {
		if l.fsys != nil {
			return errors.New("already set")
		}
		l.fsys = os.DirFS(filepath.FromSlash(p))
		return nil
	}
}

func zspec__WithSystemFs() FsOption { return zspec__WithPath("") }

func zspec__WithResolver(r Resolver) FsOption {
	return func(l *FilesystemLoader) error {
		if l.resolver != nil {
			return errors.New("already set")
		}
		l.resolver = r
		return nil
	}
}

func zspec__WithDecoder(ext string, d catalog.Decoder) FsOption {
	return func(l *FilesystemLoader) error {
		if d == nil {
			return errors.New("nil decoder")
		}
		l.extensions = append(l.extensions, ext)
		l.decoder = append(l.decoder, d)
		return nil
	}
}

func zspec__WithMoDecoder() FsOption   { return zspec__WithDecoder(".mo", catalog.NewMoDecoder()) }
func zspec__WithPoDecoder() FsOption   { return zspec__WithDecoder(".po", catalog.NewPoDecoder()) }
func zspec__WithJSONDecoder() FsOption { return zspec__WithDecoder(".json", catalog.NewJSONDecoder()) }

// The names of a language: the tag, and with everything that is known about it.
func zspec__ExpandLanguage(lang language.Tag) []string {
	names := make([]string, 0)
	seen := map[string]bool{}
	add := func(parts ...string) {
		s := strings.Join(parts, "")
		if !seen[s] {
			seen[s] = true
			names = append(names, s)
		}
	}
	base, baseConf := lang.Base()
	region, regionConf := lang.Region()
	script, scriptConf := lang.Script()
	add(lang.String())
	if baseConf > language.No {
		add(base.ISO3())
		add(base.String())
		if regionConf > language.No {
			add(fmt.Sprintf("%s_%s", base.String(), region.String()))
			add(fmt.Sprintf("%s-%s", base.String(), region.String()))
		}
		if scriptConf > language.No {
			add(fmt.Sprintf("%s_%s", base.String(), script.String()))
			add(fmt.Sprintf("%s-%s", base.String(), script.String()))
		}
	}
	slices.SortStableFunc(names, func(a, b string) int {
		if x := cmp.Compare(len(b), len(a)); x != 0 {
			return x
		}
		return cmp.Compare(a, b)
	})
	return names
}

// A loader never has to use a file system or a resolver that is nil.
func zsafe__NewFilesystemLoader(l *FilesystemLoader, err error) bool {
	return err != nil || l.fsys != nil && l.resolver != nil
}
