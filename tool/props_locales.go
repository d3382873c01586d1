package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const localeDir = "humanize/locale/"

func init() {
	register(&Check{
		id: "C26",
		rule: "The value that New of every locale package returns is computed from its source: the language must be the one of the directory and of the embedded catalogue, every predefined format must consist of known letters " +
			"and show exactly the parts of a time it stands for. Every entry of every embedded catalogue must be a text that package humanize asks for, with all plural forms and with the placeholders of the original. " +
			"The table of languages must name every language once, under its code and as the catalogues do.",
		min: map[string]int{"locale": 95, "format": 400, "text": 10000, "language": 95, "formula": 95},
		run: func(c *Ctx) { c.checkLocales() },
	})
}

var camelTag = regexp.MustCompile(`^([a-z]+)([A-Z][A-Za-z]*)?$`)

// localeTag is the language of a locale package.
func localeTag(dir string) string {
	m := camelTag.FindStringSubmatch(dir)
	if m == nil {
		return ""
	}
	if m[2] == "" {
		return m[1]
	}
	return m[1] + "-" + m[2]
}

// Language names of catalogues that are different from the tag of the language.
var headerTags = map[string]string{"zh_cn": "zh-hans", "zh_tw": "zh-hant", "sr@latin": "sr-latn"}

// Predefined languages of golang.org/x/text/language.
var predefinedTags = map[string]string{
	"Afrikaans": "af", "Amharic": "am", "Arabic": "ar", "Azerbaijani": "az", "Bulgarian": "bg", "Bengali": "bn", "Catalan": "ca", "Czech": "cs", "Danish": "da", "German": "de", "Greek": "el",
	"English": "en", "AmericanEnglish": "en-US", "BritishEnglish": "en-GB", "Spanish": "es", "EuropeanSpanish": "es-ES", "LatinAmericanSpanish": "es-419", "Estonian": "et", "Persian": "fa",
	"Finnish": "fi", "Filipino": "fil", "French": "fr", "CanadianFrench": "fr-CA", "Gujarati": "gu", "Hebrew": "he", "Hindi": "hi", "Croatian": "hr", "Hungarian": "hu", "Armenian": "hy",
	"Indonesian": "id", "Icelandic": "is", "Italian": "it", "Japanese": "ja", "Georgian": "ka", "Kazakh": "kk", "Khmer": "km", "Kannada": "kn", "Korean": "ko", "Kirghiz": "ky", "Lao": "lo",
	"Lithuanian": "lt", "Latvian": "lv", "Macedonian": "mk", "Malayalam": "ml", "Mongolian": "mn", "Marathi": "mr", "Malay": "ms", "Burmese": "my", "Nepali": "ne", "Dutch": "nl",
	"Norwegian": "no", "Punjabi": "pa", "Polish": "pl", "Portuguese": "pt", "BrazilianPortuguese": "pt-BR", "EuropeanPortuguese": "pt-PT", "Romanian": "ro", "Russian": "ru", "Sinhala": "si",
	"Slovak": "sk", "Slovenian": "sl", "Albanian": "sq", "Serbian": "sr", "SerbianLatin": "sr-Latn", "Swedish": "sv", "Swahili": "sw", "Tamil": "ta", "Telugu": "te", "Thai": "th",
	"Turkish": "tr", "Ukrainian": "uk", "Urdu": "ur", "Uzbek": "uz", "Vietnamese": "vi", "Chinese": "zh", "SimplifiedChinese": "zh-Hans", "TraditionalChinese": "zh-Hant", "Zulu": "zu",
}

func tagOf(t *Term) (string, bool) {
	const lang = "golang.org/x/text/language."
	switch {
	case t.op == "res" && t.aux == "0" && t.args[0].op == "call" && (t.args[0].aux == lang+"MustParse" || t.args[0].aux == lang+"Make" || t.args[0].aux == lang+"Parse"):
		return t.args[0].args[0].strConst()
	case t.op == "ld" && t.args[0].op == "global" && strings.HasPrefix(t.args[0].aux, lang):
		s, ok := predefinedTags[strings.TrimPrefix(t.args[0].aux, lang)]
		return s, ok
	}
	return "", false
}

// formatParts are the parts of a time that the predefined formats show: day, month, year and time.
var formatParts = map[string]string{
	"DateFormat": "dmy", "TimeFormat": "t", "DateTimeFormat": "dmyt", "YearMonthFormat": "my", "MonthDayFormat": "dm", "ShortDateFormat": "dmy", "ShortDatetimeFormat": "dmyt",
}

// checkFormat reports what is wrong with a format.
func checkFormat(name, format string) string {
	const known = "aAefgGhHiOPsTuZbcdDEFIjlLmMnNorStUwWyYz"
	used := map[rune]int{}
	rs := []rune(format)
	for i := 0; i < len(rs); i++ {
		switch r := rs[i]; {
		case r == '\\':
			if i+1 == len(rs) {
				return "ends with a backslash"
			}
			i++
		case strings.ContainsRune(known, r):
			used[r]++
		case r < 0x80 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'):
			return fmt.Sprintf("uses the unknown letter %q", r)
		}
	}
	n := func(letters string) (n int) {
		for _, r := range letters {
			n += used[r]
		}
		return n
	}
	parts, twice := "", ""
	for _, p := range []struct{ part, letters string }{{"d", "dj"}, {"m", "mnMFENb"}, {"y", "yYo"}} {
		if k := n(p.letters); k > 0 {
			parts += p.part
			if k > 1 {
				twice += p.part
			}
		}
	}
	hour, min := n("gGhHfP"), n("ifP")
	if hour > 0 || min > 0 || n("su") > 0 {
		parts += "t"
		switch {
		case hour != 1 || min != 1:
			return "does not show the hour and the minute once"
		case n("ghf") > 0 && n("aA") == 0:
			return "shows an hour of twelve without saying which half of the day it is"
		case n("GHP") > 0 && n("aA") > 0:
			return "shows the half of the day next to an hour that needs none"
		}
	} else if n("aA") > 0 {
		return "shows the half of the day without an hour"
	}
	if want := formatParts[name]; parts != want {
		return fmt.Sprintf("shows the parts %q of a time, specified are %q", parts, want)
	}
	if twice != "" {
		return fmt.Sprintf("shows the parts %q more than once", twice)
	}
	return ""
}

func (c *Ctx) checkLocales() {
	w := c.w
	asked := c.askedTexts()
	names := c.languageNames()
	var dirs []string
	for p := range w.ssap {
		if d, ok := strings.CutPrefix(p, localeDir); ok && !strings.Contains(d, "/") {
			dirs = append(dirs, d)
		}
	}
	sort.Strings(dirs)
	translated := map[string]bool{}
	for _, d := range dirs {
		c.checkLocale(d, asked, translated)
	}
	for _, d := range dirs {
		code := strings.ToLower(localeTag(d))
		if n, ok := names[code]; !ok {
			c.bad("language", code, token.NoPos, "the table of languages does not contain %s", code)
		} else if !translated[n] {
			c.bad("language", code, token.NoPos, "no catalogue translates the name %q of %s", n, code)
		} else {
			c.ok("language", code+" is "+n)
		}
	}
}

// languageNames evaluates the table of languages.
func (c *Ctx) languageNames() map[string]string {
	w := c.w
	names := map[string]string{}
	sp := w.ssap["humanize"]
	g := sp.Var("LocaleInfos")
	if g == nil {
		c.bad("language", "table", token.NoPos, "humanize.LocaleInfos does not exist")
		return names
	}
	x := newExec(w)
	if err := x.useInit(sp); err != nil {
		panic(budgetError{err.Error()})
	}
	elem, _ := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
	m := x.load(x.newState(), x.val(nil, x.newState(), g), g.Type().(*types.Pointer).Elem())
	ms := x.initSt.maps[m]
	if elem == nil || ms == nil || ms.tag != nil || ms.base != nil {
		c.bad("language", "table", g.Pos(), "the table of languages is not constant")
		return names
	}
	st, _ := elem.Elem().Underlying().(*types.Struct)
	get := func(v *Term, name string) (string, bool) {
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.field(v, strconv.Itoa(i), st.Field(i).Type()).strConst()
			}
		}
		return "", false
	}
	byName := map[string]string{}
	for _, u := range ms.ups {
		key, ok := u.key.strConst()
		if !ok || u.val == nil {
			c.bad("language", "table", g.Pos(), "the table of languages is not constant")
			continue
		}
		code, ok1 := get(u.val, "Code")
		name, ok2 := get(u.val, "Name")
		local, ok3 := get(u.val, "NameLocal")
		switch {
		case !ok1 || !ok2 || !ok3:
			c.bad("language", key, g.Pos(), "the entry of %s is not constant", key)
		case code != key:
			c.bad("language", key, g.Pos(), "the entry of %s has the code %q", key, code)
		case name == "" || local == "":
			c.bad("language", key, g.Pos(), "the language %s has no name", key)
		case byName[name] != "":
			c.bad("language", key, g.Pos(), "%s and %s have the name %q", byName[name], key, name)
		case englishNames[key] != "" && englishNames[key] != name:
			c.bad("language", key, g.Pos(), "the name of %s is %q, specified is %q", key, name, englishNames[key])
		default:
			byName[name] = key
		}
		names[key] = name
	}
	return names
}

// askedTexts returns the texts of package humanize.
func (c *Ctx) askedTexts() map[string]bool {
	asked := map[string]bool{}
	for _, f := range c.w.pkgs["humanize"].Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil {
					asked[s] = true
				}
			}
			return true
		})
	}
	return asked
}

func (c *Ctx) checkLocale(dir string, asked, translated map[string]bool) {
	w := c.w
	pkg, sp := w.pkgs[localeDir+dir], w.ssap[localeDir+dir]
	fn := sp.Func("New")
	if fn == nil || len(fn.Params) != 0 {
		c.bad("locale", dir, token.NoPos, "package %s has no function New", dir)
		return
	}
	x := newExec(w)
	x.opaque[modPath+"/humanize.init"] = "pure"
	if err := x.useInit(sp); err != nil {
		panic(budgetError{dir + ": " + err.Error()})
	}
	paths := x.run(x.newState(), fn, nil, nil)
	if len(paths) != 1 || paths[0].kind != "return" || len(paths[0].vals) != 1 {
		c.bad("locale", dir, fn.Pos(), "New has %d paths", len(paths))
		return
	}
	st, val := paths[0].st, paths[0].vals[0]
	get := func(base *Term, t types.Type, name string) *Term {
		s, _ := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return st.facts.simp(x.load(st, x.fieldAddr(base, i, s), s.Field(i).Type()))
			}
		}
		panic(budgetError{"no field " + name})
	}
	dt := fn.Signature.Results().At(0).Type()
	if val.op != "alloc" {
		c.bad("locale", dir, fn.Pos(), "New does not return new data: %s", val)
		return
	}

	// language
	want := localeTag(dir)
	bad := false
	if tag, ok := tagOf(get(val, dt, "Lang")); !ok || !strings.EqualFold(tag, want) {
		c.bad("locale", dir, fn.Pos(), "the language is %s, specified is %q", get(val, dt, "Lang"), want)
		bad = true
	}

	// embedded files
	fs := get(val, dt, "Fs")
	if fs.op == "iface" {
		fs = fs.args[0]
	}
	if fs.op == "ld" {
		fs = fs.args[0]
	}
	g, isG := strings.CutPrefix(fs.aux, sp.Pkg.Path()+".")
	file := filepath.Join(w.repo, localeDir, dir, "django.po")
	if fs.op != "global" || !isG || !embeds(pkg.Syntax, g, "django.po") {
		c.bad("locale", dir, fn.Pos(), "the files of the locale are %s, specified are files that contain the embedded django.po", fs)
		bad = true
	}
	found := false
	for _, f := range pkg.EmbedFiles {
		if f == file {
			found = true
		}
	}
	if !found {
		c.bad("locale", dir, fn.Pos(), "django.po is not embedded")
		return
	}

	// formats
	ft := fieldType(dt, "Format")
	format := get(val, dt, "Format")
	if format.op == "alloc" && ft != nil {
		for _, name := range sortedKeys(formatParts) {
			t := get(format, ft, name)
			f, ok := t.strConst()
			if !ok {
				c.bad("format", dir+"."+name, fn.Pos(), "%s is %s, specified is a text", name, t)
			} else if f != "" {
				if msg := checkFormat(name, f); msg != "" {
					c.bad("format", dir+"."+name, fn.Pos(), "%s of %s is %q, which %s", name, dir, f, msg)
				} else {
					c.ok("format", dir+"."+name+" "+strconv.Quote(f))
				}
			}
		}
		day := get(format, ft, "FirstDayOfWeek")
		if v, ok := day.intConst(); !ok || v < 0 || v > 6 {
			c.bad("format", dir+".FirstDayOfWeek", fn.Pos(), "the first day of the week is %s", day)
		} else {
			c.ok("format", dir+".FirstDayOfWeek")
		}
	} else if format.op != "nil" {
		c.bad("format", dir, fn.Pos(), "the formats are %s", format)
	}

	// catalogue
	if !c.checkCatalog(dir, file, want, asked, translated) {
		bad = true
	}
	if !bad {
		c.ok("locale", dir+" is "+want)
	}
}

func fieldType(t types.Type, name string) types.Type {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if _, isP := s.Field(i).Type().Underlying().(*types.Pointer); isP {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// embeds reports whether a package variable embeds a file.
func embeds(files []*ast.File, name, file string) bool {
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Names) != 1 || vs.Names[0].Name != name {
					continue
				}
				for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if doc == nil {
						continue
					}
					for _, l := range doc.List {
						if pats, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
							for _, p := range strings.Fields(pats) {
								if u, err := strconv.Unquote(p); err == nil {
									p = u
								}
								if m, _ := path.Match(strings.TrimPrefix(p, "all:"), file); m || p == "." {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// ---- catalogues ----

type poEntry struct {
	line            int
	ctx, id, plural string
	hasPlural       bool
	str             map[int]string
}

var poLine = regexp.MustCompile(`^(msgctxt|msgid_plural|msgid|msgstr(?:\[(\d+)\])?)\s*(".*")$`)

func readPo(file string) ([]*poEntry, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []*poEntry
	var cur *poEntry
	var add func(s string)
	for i, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			continue
		}
		if line[0] == '"' {
			s, err := strconv.Unquote(line)
			if err != nil || add == nil {
				return nil, fmt.Errorf("line %d: %s", i+1, line)
			}
			add(s)
			continue
		}
		m := poLine.FindStringSubmatch(line)
		if m == nil {
			return nil, fmt.Errorf("line %d: %s", i+1, line)
		}
		s, err := strconv.Unquote(m[3])
		if err != nil {
			return nil, fmt.Errorf("line %d: %s", i+1, line)
		}
		if m[1] == "msgctxt" || m[1] == "msgid" {
			if cur == nil || len(cur.str) > 0 || m[1] == "msgctxt" {
				cur = &poEntry{line: i + 1, str: map[int]string{}}
				out = append(out, cur)
			}
		}
		if cur == nil {
			return nil, fmt.Errorf("line %d: %s", i+1, line)
		}
		e := cur
		switch {
		case m[1] == "msgctxt":
			add = func(s string) { e.ctx += s }
		case m[1] == "msgid":
			add = func(s string) { e.id += s }
		case m[1] == "msgid_plural":
			e.hasPlural = true
			add = func(s string) { e.plural += s }
		default:
			n, _ := strconv.Atoi(m[2])
			if _, ok := e.str[n]; ok {
				return nil, fmt.Errorf("line %d: the form %d is defined twice", i+1, n)
			}
			e.str[n] = ""
			add = func(s string) { e.str[n] += s }
		}
		add(s)
	}
	return out, nil
}

var placeholder = regexp.MustCompile(`%(?:\[\d+\])?[-+# 0]*[\d.]*[A-Za-z]|%`)

// placeholdersOf returns the sorted placeholders of a text.
func placeholdersOf(s string) string {
	p := placeholder.FindAllString(strings.ReplaceAll(s, "%%", ""), -1)
	sort.Strings(p)
	return strings.Join(p, " ")
}

var nplurals = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*([^;]+);?\s*$`)

func (c *Ctx) checkCatalog(dir, file, want string, asked, translated map[string]bool) bool {
	n0 := len(c.viol)
	entries, err := readPo(file)
	if err != nil {
		c.bad("text", dir, token.NoPos, "%s/django.po cannot be read: %v", dir, err)
		return false
	}
	header := map[string]string{}
	seen := map[string]int{}
	for _, e := range entries {
		if e.id == "" && e.ctx == "" {
			for _, l := range strings.Split(e.str[0], "\n") {
				if k, v, ok := strings.Cut(l, ":"); ok {
					header[strings.ToLower(strings.TrimSpace(k))] = strings.TrimSpace(v)
				}
			}
		}
	}
	lang := strings.ToLower(header["language"])
	if t, ok := headerTags[lang]; ok {
		lang = t
	}
	if strings.ReplaceAll(lang, "_", "-") != strings.ToLower(want) {
		c.bad("text", dir+".language", token.NoPos, "the catalogue of %s is one of %q", want, header["language"])
	}
	forms := 2
	var covers map[int]formCover
	if m := nplurals.FindStringSubmatch(header["plural-forms"]); m == nil {
		c.bad("formula", dir, token.NoPos, "the catalogue of %s has no plural forms: %q", dir, header["plural-forms"])
	} else {
		forms, _ = strconv.Atoi(m[1])
		var err error
		if covers, err = formCovers(m[2]); err != nil {
			c.bad("formula", dir, token.NoPos, "the plural formula of %s is invalid: %v", dir, err)
		} else {
			bad := false
			for k := range covers {
				if k < 0 || k >= forms {
					bad = true
					c.bad("formula", dir, token.NoPos, "the plural formula of %s yields the form %d of %d", dir, k, forms)
				}
			}
			if !bad {
				c.ok("formula", dir+": "+m[2])
			}
		}
	}

	for _, e := range entries {
		if e.id == "" && e.ctx == "" {
			continue
		}
		key := dir + "." + e.ctx + "." + e.id
		where := fmt.Sprintf("%s/django.po:%d", dir, e.line)
		n := len(c.viol)
		fail := func(format string, args ...any) {
			c.bad("text", key, token.NoPos, "%s: %s", where, fmt.Sprintf(format, args...))
		}
		if l, ok := seen[e.ctx+"\x04"+e.id]; ok {
			fail("the text %q was already translated in line %d", e.id, l)
		}
		seen[e.ctx+"\x04"+e.id] = e.line
		if !asked[e.id] || e.ctx != "" && !asked[e.ctx] {
			fail("humanize has no text %q in the context %q", e.id, e.ctx)
		}
		if e.ctx == "" {
			translated[e.id] = true
		}
		if !e.hasPlural {
			s, ok := e.str[0]
			if !ok || len(e.str) != 1 {
				fail("the text %q has %d translations", e.id, len(e.str))
			} else if s != "" && placeholdersOf(s) != placeholdersOf(e.id) {
				fail("the translation %q of %q has other placeholders", s, e.id)
			}
		} else {
			filled := 0
			for i := 0; i < forms; i++ {
				if e.str[i] != "" {
					filled++
				}
			}
			if filled != 0 && filled != forms {
				fail("the text %q has only %d of %d plural forms", e.id, filled, forms)
			}
			for i := 0; i < forms && filled > 0; i++ {
				switch p := placeholdersOf(e.str[i]); {
				case p == placeholdersOf(e.plural):
				case p != "":
					fail("the form %d (%q) of %q has other placeholders", i, e.str[i], e.plural)
				case covers != nil && !covers[i].few():
					fail("the form %d (%q) of %q does not show the number, but is used for %v", i, e.str[i], e.plural, covers[i].first)
				}
			}
		}
		if len(c.viol) == n {
			c.ok("text", where)
		}
	}
	return len(c.viol) == n0
}

// formCover tells for which numbers a plural form is used.
type formCover struct {
	first []int64
	count int
}

// few reports whether a form is used for one number only, or for zero and one.
func (f formCover) few() bool {
	return f.count <= 1 || f.count == 2 && f.first[0] == 0 && f.first[1] == 1
}

type formulaParser struct {
	toks []string
	pos  int
	mods []int64
	max  int64
}

var formulaTok = regexp.MustCompile(`\s*(\d+|n|&&|\|\||==|!=|<=|>=|[()<>%?:!])`)

// formCovers evaluates a plural formula for representatives of all numbers: its value is periodic after the largest constant.
func formCovers(src string) (m map[int]formCover, err error) {
	p := &formulaParser{}
	for s := src; strings.TrimSpace(s) != ""; {
		l := formulaTok.FindStringSubmatchIndex(s)
		if l == nil || l[0] != 0 {
			return nil, fmt.Errorf("unexpected %q", s)
		}
		p.toks = append(p.toks, s[l[2]:l[3]])
		s = s[l[1]:]
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	f := p.cond()
	if p.pos != len(p.toks) {
		return nil, fmt.Errorf("unexpected %q", p.toks[p.pos])
	}
	period := int64(1)
	for _, k := range p.mods {
		if k == 0 {
			return nil, fmt.Errorf("modulo zero")
		}
		period = lcm(period, k)
	}
	end := p.max + 2*period + 2
	if end > 5000000 {
		return nil, fmt.Errorf("the period %d is too long", period)
	}
	m = map[int]formCover{}
	for n := int64(0); n < end; n++ {
		k := int(f(n))
		e := m[k]
		if e.count++; len(e.first) < 4 {
			e.first = append(e.first, n)
		}
		m[k] = e
	}
	return m, nil
}

func (p *formulaParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *formulaParser) take(t string) bool {
	if p.peek() == t {
		p.pos++
		return true
	}
	return false
}

func (p *formulaParser) cond() func(int64) int64 {
	c := p.level(0)
	if !p.take("?") {
		return c
	}
	a := p.cond()
	if !p.take(":") {
		panic("missing :")
	}
	b := p.cond()
	return func(n int64) int64 {
		if c(n) != 0 {
			return a(n)
		}
		return b(n)
	}
}

var formulaOps = [][]string{{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"%"}}

func (p *formulaParser) level(l int) func(int64) int64 {
	if l == len(formulaOps) {
		return p.prim()
	}
	a := p.level(l + 1)
	for {
		op := ""
		for _, o := range formulaOps[l] {
			if p.take(o) {
				op = o
				break
			}
		}
		if op == "" {
			return a
		}
		x, y := a, p.level(l+1)
		if op == "%" {
			p.mods = append(p.mods, y(0))
		}
		is := func(b bool) int64 {
			if b {
				return 1
			}
			return 0
		}
		a = func(n int64) int64 {
			u, v := x(n), y(n)
			switch op {
			case "||":
				return is(u != 0 || v != 0)
			case "&&":
				return is(u != 0 && v != 0)
			case "==":
				return is(u == v)
			case "!=":
				return is(u != v)
			case "<":
				return is(u < v)
			case ">":
				return is(u > v)
			case "<=":
				return is(u <= v)
			case ">=":
				return is(u >= v)
			}
			return u % v
		}
	}
}

func (p *formulaParser) prim() func(int64) int64 {
	switch t := p.peek(); {
	case p.take("("):
		f := p.cond()
		if !p.take(")") {
			panic("missing )")
		}
		return f
	case p.take("n"):
		return func(n int64) int64 { return n }
	case p.take("!"):
		f := p.prim()
		return func(n int64) int64 {
			if f(n) == 0 {
				return 1
			}
			return 0
		}
	default:
		v, err := strconv.ParseInt(t, 10, 32)
		if err != nil {
			panic(fmt.Sprintf("unexpected %q", t))
		}
		p.pos++
		p.max = max(p.max, v)
		return func(int64) int64 { return v }
	}
}
