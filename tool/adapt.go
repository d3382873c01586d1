package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The reference definitions name unexported functions, types and fields of the repository. If the current source does not have one of
// these names any more, the only new name of the same kind and type takes its place; a function that no longer exists (or has other
// parameters) is replaced by its own reference definition, so that its callers are compared as a whole.

// symbols are the names of a package, with their types.
type symbols struct {
	Funcs map[string]string            // functions
	Vars  map[string]string            // variables and constants
	Types map[string]string            // kinds of types
	Field map[string][][2]string       // fields of struct types in order
	Meth  map[string]map[string]string // methods
}

func symbolsOf(p *types.Package) *symbols {
	s := &symbols{Funcs: map[string]string{}, Vars: map[string]string{}, Types: map[string]string{}, Field: map[string][][2]string{}, Meth: map[string]map[string]string{}}
	for _, n := range p.Scope().Names() {
		if strings.HasPrefix(n, "z") && specName(n) {
			continue
		}
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Func:
			s.Funcs[n] = typeText(o.Type())
		case *types.Var:
			s.Vars[n] = "var " + typeText(o.Type())
		case *types.Const:
			v := o.Val().ExactString()
			if o.Val().Kind() == constant.Float {
				v = o.Val().String()
			}
			s.Vars[n] = "const " + typeText(o.Type()) + " " + v
		case *types.TypeName:
			if o.IsAlias() {
				s.Types[n] = "alias " + typeText(types.Unalias(o.Type()))
				continue
			}
			kind := typeText(o.Type().Underlying())
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				kind = "struct"
				for i := 0; i < st.NumFields(); i++ {
					s.Field[n] = append(s.Field[n], [2]string{st.Field(i).Name(), typeText(st.Field(i).Type())})
				}
			}
			s.Types[n] = kind
			if named, ok := o.Type().(*types.Named); ok {
				s.Meth[n] = map[string]string{}
				for i := 0; i < named.NumMethods(); i++ {
					if m := named.Method(i); !specName(m.Name()) {
						s.Meth[n][m.Name()] = typeText(m.Type())
					}
				}
			}
		}
	}
	return s
}

func specName(n string) bool {
	for _, p := range []string{"zspec_", "zleft_", "zright_", "zmodel_", "zalt", "zpre_", "zs"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// typeText renders a type without the names of parameters and without the fields of structs that have a name.
func typeText(t types.Type) string {
	if s, ok := t.(*types.Signature); ok {
		return sigKey(s)
	}
	return shortPkg(types.TypeString(t, func(p *types.Package) string { return p.Path() }))
}

func writeSymbols(repo, out string) error {
	w, err := loadTypes(repo, nil, "linux/amd64")
	if err != nil {
		return err
	}
	res := map[string]*symbols{}
	for rel, p := range w {
		if strings.HasPrefix(rel, "humanize/locale/") || strings.HasPrefix(rel, "examples") {
			continue
		}
		res[rel] = symbolsOf(p.Types)
	}
	data, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(out, append(data, '\n'), 0o644)
}

// loadTypes type-checks the module and tolerates errors in the specifications.
func loadTypes(repo string, overlay map[string][]byte, config string) (map[string]*packages.Package, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Env:        loadEnv(config),
		Fset:       token.NewFileSet(),
		BuildFlags: []string{"-tags=timetzdata"},
		Overlay:    overlay,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	res := map[string]*packages.Package{}
	for _, p := range initial {
		for _, e := range p.Errors {
			if !strings.Contains(e.Error(), "zz_verif_") {
				return nil, fmt.Errorf("the repository does not type-check: %s", e)
			}
		}
		res[relPkg(p.PkgPath)] = p
	}
	return res, nil
}

// naming maps the names of the specifications to those of the current source.
type naming struct {
	funcs map[string]string // "pkg\x00name" of functions, types and variables
	meth  map[string]string // "pkg\x00Type\x00name" of methods and fields, with the old name of the type
	gone  map[string]bool   // functions ("pkg\x00F") and methods ("pkg\x00T\x00m") that are replaced by their definition
	types map[string]string // "path.new" -> "path.old"
}

func exportedName(n string) bool { return ast.IsExported(n) }

func (n *naming) changed() bool { return len(n.funcs)+len(n.meth)+len(n.gone) > 0 }

// newNaming compares the symbols of the current source with the recorded ones.
func newNaming(file string, pkgs map[string]*packages.Package) (*naming, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	base := map[string]*symbols{}
	if err := json.Unmarshal(data, &base); err != nil {
		return nil, err
	}
	n := &naming{funcs: map[string]string{}, meth: map[string]string{}, gone: map[string]bool{}, types: map[string]string{}}
	cur := map[string]*symbols{}
	var rels []string
	for rel := range base {
		if p := pkgs[rel]; p != nil {
			cur[rel] = symbolsOf(p.Types)
			rels = append(rels, rel)
		}
	}
	sort.Strings(rels)
	old := func(s string) string { // type text in old names
		for nw, od := range n.types {
			s = replaceWord(s, nw, od)
		}
		return s
	}
	for _, rel := range rels { // types
		b, c := base[rel], cur[rel]
		path := strings.TrimSuffix(modPath+"/"+rel, "/")
		sig := func(s *symbols, t string) string {
			var f []string
			for _, x := range s.Field[t] {
				f = append(f, x[0])
			}
			return strings.SplitN(s.Types[t], " ", 2)[0] + "|" + strings.Join(f, ",") + "|" + strings.Join(sortedKeys(s.Meth[t]), ",")
		}
		for _, o := range sortedKeys(b.Types) {
			if _, ok := c.Types[o]; ok || exportedName(o) {
				continue
			}
			var cand, strict []string
			for _, m := range sortedKeys(c.Types) {
				if _, ok := b.Types[m]; ok || exportedName(m) {
					continue
				}
				if strings.SplitN(c.Types[m], " ", 2)[0] == strings.SplitN(b.Types[o], " ", 2)[0] {
					cand = append(cand, m)
					if sig(c, m) == sig(b, o) {
						strict = append(strict, m)
					}
				}
			}
			if len(strict) == 1 {
				cand = strict
			}
			if len(cand) == 1 {
				n.funcs[rel+"\x00"+o] = cand[0]
				n.types[shortPkg(path+"."+cand[0])] = shortPkg(path + "." + o)
			}
		}
	}
	api := true // whether exported names are part of the API
	match := func(b, c map[string]string, set func(o, nw string)) (missing []string) {
		exportedName := func(n string) bool { return api && ast.IsExported(n) }
		byType := map[string][]string{}
		for _, m := range sortedKeys(c) {
			if _, ok := b[m]; !ok && !exportedName(m) {
				byType[old(c[m])] = append(byType[old(c[m])], m)
			}
		}
		want := map[string][]string{}
		for _, o := range sortedKeys(b) {
			if _, ok := c[o]; !ok && !exportedName(o) {
				want[b[o]] = append(want[b[o]], o)
			}
		}
		for _, t := range sortedKeys(want) {
			if len(want[t]) == 1 && len(byType[t]) == 1 {
				set(want[t][0], byType[t][0])
			} else {
				missing = append(missing, want[t]...)
			}
		}
		for o, t := range b {
			if ct, ok := c[o]; ok && !exportedName(o) && old(ct) != t && strings.HasPrefix(t, "func(") {
				missing = append(missing, o)
			}
		}
		return missing
	}
	for _, rel := range rels {
		b, c := base[rel], cur[rel]
		for _, o := range match(b.Funcs, c.Funcs, func(o, nw string) { n.funcs[rel+"\x00"+o] = nw }) {
			n.gone[rel+"\x00"+o] = true
		}
		match(b.Vars, c.Vars, func(o, nw string) { n.funcs[rel+"\x00"+o] = nw })
		for _, t := range sortedKeys(b.Meth) {
			nt := t
			if m, ok := n.funcs[rel+"\x00"+t]; ok {
				nt = m
			}
			if c.Meth[nt] == nil {
				continue
			}
			api = exportedName(t)
			for _, o := range match(b.Meth[t], c.Meth[nt], func(o, nw string) { n.meth[rel+"\x00"+t+"\x00"+o] = nw }) {
				n.gone[rel+"\x00"+t+"\x00"+o] = true
			}
			api = true
			bf, cf := fieldMap(b.Field[t]), fieldMap(c.Field[nt])
			match(bf, cf, func(o, nw string) { n.meth[rel+"\x00"+t+"\x00"+o] = nw })
			// fields of the same type: by their order
			for _, ty := range sortedKeys(valueSet(bf)) {
				var os, ns []string
				for _, f := range b.Field[t] {
					if _, ok := cf[f[0]]; !ok && f[1] == ty {
						os = append(os, f[0])
					}
				}
				for _, f := range c.Field[nt] {
					if _, ok := bf[f[0]]; !ok && old(f[1]) == ty {
						ns = append(ns, f[0])
					}
				}
				if len(os) > 1 && len(os) == len(ns) {
					for i := range os {
						n.meth[rel+"\x00"+t+"\x00"+os[i]] = ns[i]
					}
				}
			}
		}
	}
	return n, nil
}

func valueSet(m map[string]string) map[string]bool {
	r := map[string]bool{}
	for _, v := range m {
		r[v] = true
	}
	return r
}

func fieldMap(f [][2]string) map[string]string {
	m := map[string]string{}
	for _, x := range f {
		m[x[0]] = x[1]
	}
	return m
}

func replaceWord(s, word, by string) string {
	var sb strings.Builder
	for {
		i := strings.Index(s, word)
		if i < 0 {
			break
		}
		end := i + len(word)
		if end < len(s) && (s[end] == '_' || s[end] >= '0' && s[end] <= '9' || s[end] >= 'a' && s[end] <= 'z' || s[end] >= 'A' && s[end] <= 'Z') {
			sb.WriteString(s[:end])
		} else {
			sb.WriteString(s[:i] + by)
		}
		s = s[end:]
	}
	return sb.String() + s
}

// oldType is the recorded name of a type of the current source.
func (n *naming) oldType(o *types.TypeName) (rel, name string) {
	if o.Pkg() == nil {
		return "", ""
	}
	rel, name = relPkg(o.Pkg().Path()), o.Name()
	if od, ok := n.types[shortPkg(o.Pkg().Path()+"."+name)]; ok {
		name = od[strings.LastIndexByte(od, '.')+1:]
	}
	return rel, name
}

// member finds the new name of a field or method, also of embedded types.
func (n *naming) member(named *types.Named, name string) (string, bool) {
	r, tn := n.oldType(named.Obj())
	if nw, ok := n.meth[r+"\x00"+tn+"\x00"+name]; ok {
		return nw, true
	}
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			t := types.Unalias(f.Type())
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = types.Unalias(p.Elem())
			}
			if e, ok := t.(*types.Named); ok && inModule(f.Pkg().Path()) {
				if nw, ok := n.member(e, name); ok {
					return nw, true
				}
			}
		}
	}
	return "", false
}

type textEdit struct {
	from, to int
	text     string
}

// rewrite adapts one round of names in a specification. It returns whether something was changed.
func (n *naming) rewrite(p *packages.Package, f *ast.File, src []byte, defs map[string]*ast.FuncDecl) ([]byte, bool) {
	rel := relPkg(p.PkgPath)
	info := p.TypesInfo
	off := func(pos token.Pos) int { return p.Fset.Position(pos).Offset }
	var edits []textEdit
	calls := map[ast.Expr]*ast.CallExpr{}
	sels := map[*ast.Ident]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch e := nd.(type) {
		case *ast.CallExpr:
			calls[e.Fun] = e
		case *ast.SelectorExpr:
			sels[e.Sel] = true
		}
		return true
	})
	inDecl := ""
	ast.Inspect(f, func(nd ast.Node) bool {
		switch e := nd.(type) {
		case *ast.FuncDecl:
			inDecl = e.Name.Name
		case *ast.CompositeLit:
			t := info.TypeOf(e)
			if t == nil {
				return true
			}
			if named, ok := types.Unalias(t).(*types.Named); ok {
				r, tn := n.oldType(named.Obj())
				for _, el := range e.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						if id, ok := kv.Key.(*ast.Ident); ok && info.Uses[id] == nil {
							if nw, ok := n.meth[r+"\x00"+tn+"\x00"+id.Name]; ok {
								edits = append(edits, textEdit{off(id.Pos()), off(id.End()), nw})
								sels[id] = true
							}
						}
					}
				}
			}
		case *ast.SelectorExpr:
			t := info.TypeOf(e.X)
			if t == nil {
				return true
			}
			t = types.Unalias(t)
			ptr := false
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t, ptr = types.Unalias(pt.Elem()), true
			}
			named, ok := t.(*types.Named)
			if !ok {
				return true
			}
			r, tn := n.oldType(named.Obj())
			key := r + "\x00" + tn + "\x00" + e.Sel.Name
			if n.gone[key] && r == rel {
				def, call := defs["zspec_"+tn+"_"+e.Sel.Name], calls[e]
				if def == nil || call == nil || len(def.Type.Params.List) == 0 {
					return true
				}
				_, wantPtr := def.Type.Params.List[0].Type.(*ast.StarExpr)
				open := def.Name.Name + "("
				if wantPtr && !ptr {
					open += "&"
				} else if !wantPtr && ptr {
					open += "*"
				}
				sep := ", "
				if len(call.Args) == 0 {
					sep = ""
				}
				edits = append(edits, textEdit{off(e.X.Pos()), off(e.X.Pos()), open}, textEdit{off(e.X.End()), off(call.Lparen) + 1, sep})
				return true
			}
			if info.Uses[e.Sel] != nil || info.Selections[e] != nil {
				return true
			}
			if nw, ok := n.member(named, e.Sel.Name); ok {
				edits = append(edits, textEdit{off(e.Sel.Pos()), off(e.Sel.End()), nw})
			}
		case *ast.Ident:
			if sels[e] || info.Defs[e] != nil {
				return true
			}
			use := info.Uses[e]
			if use != nil && (use.Parent() == nil || use.Parent() != p.Types.Scope()) {
				return true
			}
			key := rel + "\x00" + e.Name
			if n.gone[key] {
				if defs["zspec__"+e.Name] != nil {
					edits = append(edits, textEdit{off(e.Pos()), off(e.End()), "zspec__" + e.Name})
				}
				return true
			}
			if nw, ok := n.funcs[key]; ok && use == nil {
				edits = append(edits, textEdit{off(e.Pos()), off(e.End()), nw})
			}
		}
		return true
	})
	_ = inDecl
	if len(edits) == 0 {
		return src, false
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	for _, e := range edits {
		src = append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
	}
	return src, true
}

// adapt rewrites the specifications until they fit the current source or nothing more can be done.
func adapt(repo, symbolFile, config string, overlay map[string][]byte) (map[string][]byte, *naming, error) {
	pkgs, err := loadTypes(repo, nil, config)
	if err != nil {
		return nil, nil, err
	}
	n, err := newNaming(symbolFile, pkgs)
	if err != nil {
		return nil, nil, err
	}
	if !n.changed() {
		return overlay, n, nil
	}
	for round := 0; round < 8; round++ {
		pkgs, err := loadTypes(repo, overlay, config)
		if err != nil {
			return nil, nil, err
		}
		any := false
		next := map[string][]byte{}
		for f, src := range overlay {
			next[f] = src
		}
		for _, p := range pkgs {
			defs := map[string]*ast.FuncDecl{}
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "zspec_") {
						defs[fd.Name.Name] = fd
					}
				}
			}
			for _, f := range p.Syntax {
				name := p.Fset.Position(f.Package).Filename
				src, ok := overlay[name]
				if !ok {
					continue
				}
				if s, done := n.rewrite(p, f, src, defs); done {
					next[name], any = s, true
				}
			}
		}
		if !any {
			break
		}
		overlay = next
	}
	return overlay, n, nil
}

// target translates the name of a function ("F" or "T.m") of a package.
func (n *naming) target(rel, name string) (string, bool) {
	if n == nil {
		return name, true
	}
	t, m, ok := strings.Cut(name, ".")
	if !ok {
		if n.gone[rel+"\x00"+name] {
			return name, false
		}
		if nw, ok := n.funcs[rel+"\x00"+name]; ok {
			return nw, true
		}
		return name, true
	}
	if n.gone[rel+"\x00"+t+"\x00"+m] {
		return name, false
	}
	if nw, ok := n.meth[rel+"\x00"+t+"\x00"+m]; ok {
		m = nw
	}
	if nw, ok := n.funcs[rel+"\x00"+t]; ok {
		t = nw
	}
	return t + "." + m, true
}

// opaque translates the full name of a function; "" if it is no longer opaque.
func (n *naming) opaque(full string) string {
	if n == nil || !n.changed() {
		return full
	}
	ptr := strings.HasPrefix(full, "(*")
	s := strings.TrimPrefix(strings.TrimPrefix(full, "(*"), "(")
	s = strings.Replace(s, ")", "", 1)
	slash := strings.LastIndexByte(s, '/')
	dot := strings.IndexByte(s[slash+1:], '.')
	if dot < 0 || !inModule(s[:slash+1+dot]) {
		return full
	}
	path, name := s[:slash+1+dot], s[slash+dot+2:]
	nw, ok := n.target(relPkg(path), name)
	if !ok {
		return ""
	}
	if t, m, isM := strings.Cut(nw, "."); isM {
		if ptr {
			return "(*" + path + "." + t + ")." + m
		}
		return "(" + path + "." + t + ")." + m
	}
	return path + "." + nw
}
