package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:    "C12",
		specs: []string{"cldrlang"},
		rule: "For every language of the frozen CLDR table the rule set that the built-in table selects is extracted as a decision tree over the operands (paths of the form function, callees inlined) and compared " +
			"with the CLDR rules over a finite partition of all operands: residue classes and thresholds of every condition of both sides. The search for the rules of a language is compared with a reference definition path by path.",
		min:  map[string]int{"language": 200, "rule set": 38, "function": 1},
		run:  runCLDRBuiltins,
		note: []string{"specs/cldr_plurals.txt is the CLDR table", "numbers are given with their operands: f, t, w below 10^v, n = i + f/10^v"},
	})
	register(&Check{
		id:    "C13",
		specs: []string{"polang"},
		rule: "For every language of the frozen table and every Plural-Forms header for which a built-in rule exists, the form function is extracted as a decision tree over n and compared with the formula of the header " +
			"for all n >= 0: up to the largest constant plus the common period of all conditions. The search for the rule of a language is compared with a reference definition path by path.",
		min:  map[string]int{"language": 200, "header": 25, "function": 1},
		run:  runGettextBuiltins,
		note: []string{"specs/gettext_plurals.txt is the table of languages"},
	})
}

// ---- extraction ----

// tableFuncs finds the unexported functions of a package that map a string to a pointer to the named type.
func (w *World) tableFuncs(pkg, typ string) []*ssa.Function {
	sp := w.ssap[pkg]
	var res []*ssa.Function
	if sp == nil {
		return nil
	}
	for _, n := range sortedKeys(sp.Members) {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok || token.IsExported(n) || strings.HasPrefix(n, "zs") {
			continue
		}
		s := f.Signature
		if s.Params().Len() != 1 || s.Results().Len() != 1 || !isString(s.Params().At(0).Type()) {
			continue
		}
		p, ok := s.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		if nt, ok := types.Unalias(p.Elem()).(*types.Named); ok && nt.Obj().Name() == typ {
			res = append(res, f)
		}
	}
	return res
}

// tableEntry evaluates a table function for a constant.
func (c *Ctx) tableEntry(x *Exec, f *ssa.Function, key string) (*Path, error) {
	ps := x.run(x.newState(), f, []*Term{x.ts.strT(key)}, nil)
	if len(ps) != 1 || ps[0].kind != "return" {
		return nil, fmt.Errorf("%d results for %q", len(ps), key)
	}
	return ps[0], nil
}

func structOf(t *Term) *types.Struct {
	if t.typ == nil {
		return nil
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		s, _ := p.Elem().Underlying().(*types.Struct)
		return s
	}
	return nil
}

// fieldOf loads the named field of an object.
func (x *Exec) fieldOf(st *State, obj *Term, name string) (*Term, types.Type) {
	s := structOf(obj)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.load(st, x.fieldAddr(obj, i, s), s.Field(i).Type()), s.Field(i).Type()
		}
	}
	return nil, nil
}

func (x *Exec) runFuncValue(st *State, f *Term, args []*Term) []*Path {
	base := x.newState()
	base.mem, base.maps, base.lens = st.mem, st.maps, st.lens
	var binds []*Term
	if f.op == "clo" {
		binds = f.args
	}
	if f.fn == nil {
		return nil
	}
	return x.run(base, f.fn, args, binds)
}

// ---- gettext formulas ----

type gxpr struct {
	eval  intFn
	term  *Term // arithmetic expressions
	nforc int
}

type gparser struct {
	ts    *Terms
	n     *Term
	tc    *tableCompiler
	toks  []string
	pos   int
	atoms []*Term
	err   error
}

func gtokens(s string) []string {
	var t []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			t = append(t, s[i:j])
			i = j
		case i+1 < len(s) && (s[i:i+2] == "==" || s[i:i+2] == "!=" || s[i:i+2] == "<=" || s[i:i+2] == ">=" || s[i:i+2] == "&&" || s[i:i+2] == "||"):
			t = append(t, s[i:i+2])
			i += 2
		default:
			t = append(t, string(ch))
			i++
		}
	}
	return t
}

// parseHeader parses "nplurals=N; plural=EXPR;" with the grammar of gettext.
func parseHeader(ts *Terms, tc *tableCompiler, n *Term, h string) (nplurals int64, e *gxpr, atoms []*Term, err error) {
	a, b, ok := strings.Cut(h, ";")
	if !ok || !strings.HasPrefix(a, "nplurals=") {
		return 0, nil, nil, fmt.Errorf("not a header: %s", h)
	}
	nplurals, err = strconv.ParseInt(strings.TrimSpace(strings.TrimPrefix(a, "nplurals=")), 10, 64)
	if err != nil {
		return 0, nil, nil, err
	}
	b = strings.TrimSpace(b)
	if !strings.HasPrefix(b, "plural=") {
		return 0, nil, nil, fmt.Errorf("not a header: %s", h)
	}
	p := &gparser{ts: ts, tc: tc, n: n, toks: gtokens(strings.TrimSuffix(strings.TrimSpace(strings.TrimPrefix(b, "plural=")), ";"))}
	e = p.ternary()
	if p.err == nil && p.pos != len(p.toks) {
		p.err = fmt.Errorf("unexpected %q in %s", p.toks[p.pos], h)
	}
	return nplurals, e, p.atoms, p.err
}

func (p *gparser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *gparser) ternary() *gxpr {
	c := p.binary(0)
	if p.peek() != "?" {
		return c
	}
	p.pos++
	t := p.ternary()
	if p.peek() != ":" {
		p.err = fmt.Errorf("missing :")
		return c
	}
	p.pos++
	f := p.ternary()
	p.truth(c)
	return &gxpr{eval: func(e *penv) int64 {
		if c.eval(e) != 0 {
			return t.eval(e)
		}
		return f.eval(e)
	}}
}

// truth notes that an expression is compared with zero.
func (p *gparser) truth(g *gxpr) {
	if g.term != nil {
		p.atoms = append(p.atoms, p.ts.bin(token.EQL, g.term, p.ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int64]))
	}
}

var glevels = [][]string{{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"+", "-"}, {"*", "/", "%"}}

func (p *gparser) binary(level int) *gxpr {
	if level == len(glevels) {
		return p.primary()
	}
	x := p.binary(level + 1)
	for {
		op := p.peek()
		found := false
		for _, o := range glevels[level] {
			if o == op {
				found = true
			}
		}
		if !found || p.err != nil {
			return x
		}
		p.pos++
		y := p.binary(level + 1)
		x = p.combine(op, x, y)
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (p *gparser) combine(op string, x, y *gxpr) *gxpr {
	a, b := x.eval, y.eval
	i64 := types.Typ[types.Int64]
	cmp := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, ">": token.GTR, "<=": token.LEQ, ">=": token.GEQ}
	if tok, ok := cmp[op]; ok {
		if x.term == nil || y.term == nil {
			p.err = fmt.Errorf("comparison of truth values")
			return x
		}
		t := p.ts.bin(tok, x.term, y.term, types.Typ[types.Bool], i64)
		if _, c := t.isBoolConst(); !c {
			p.atoms = append(p.atoms, t)
		}
		f := p.tc.boolOf(t)
		return &gxpr{eval: func(e *penv) int64 { return b2i(f(e)) }}
	}
	switch op {
	case "&&":
		p.truth(x)
		p.truth(y)
		return &gxpr{eval: func(e *penv) int64 { return b2i(a(e) != 0 && b(e) != 0) }}
	case "||":
		p.truth(x)
		p.truth(y)
		return &gxpr{eval: func(e *penv) int64 { return b2i(a(e) != 0 || b(e) != 0) }}
	}
	ar := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM}
	if x.term == nil || y.term == nil {
		p.err = fmt.Errorf("arithmetic with truth values")
		return x
	}
	t := p.ts.bin(ar[op], x.term, y.term, i64, i64)
	return &gxpr{eval: p.tc.intOf(t), term: t}
}

func (p *gparser) primary() *gxpr {
	t := p.peek()
	p.pos++
	switch {
	case t == "n":
		return &gxpr{eval: func(e *penv) int64 { return e.i[0] }, term: p.n}
	case t == "(":
		x := p.ternary()
		if p.peek() != ")" {
			p.err = fmt.Errorf("missing )")
		}
		p.pos++
		return x
	case t != "" && t[0] >= '0' && t[0] <= '9':
		v, _ := strconv.ParseInt(t, 10, 64)
		c := p.ts.konst(constant.MakeInt64(v), types.Typ[types.Int64])
		return &gxpr{eval: func(*penv) int64 { return v }, term: c}
	}
	if p.err == nil {
		p.err = fmt.Errorf("unexpected %q", t)
	}
	return &gxpr{eval: func(*penv) int64 { return 0 }}
}

// compareForm compares a form function with a formula for all n >= 0.
func (c *Ctx) compareForm(x *Exec, kind, key string, st *State, rule *Term, header string) {
	n := x.param("n", types.Typ[types.Int64])
	tc := &tableCompiler{leaf: func(t *Term) (int, bool) {
		if t == n {
			return 0, true
		}
		return 0, false
	}}
	np, expr, atoms, err := parseHeader(x.ts, tc, n, header)
	if err != nil {
		c.bad(kind, key, token.NoPos, "the formula cannot be read: %v", err)
		return
	}
	pos := token.NoPos
	nv, _ := x.fieldOf(st, rule, "NPlurals")
	if v, ok := nv.intConst(); !ok || v != np {
		c.bad(kind, key, pos, "the number of forms is %s, the formula has %d: %s", nv, np, header)
		return
	}
	ff, _ := x.fieldOf(st, rule, "FormFunc")
	if ff == nil || ff.fn == nil {
		c.bad(kind, key, pos, "the form function is not known")
		return
	}
	pos = ff.fn.Pos()
	tree, err := tc.buildTree(x.runFuncValue(st, ff, []*Term{n}), func(p *Path) (int64, bool) { return p.vals[0].intConst() })
	if err != nil {
		c.bad(kind, key, pos, "undecided: %v", err)
		return
	}
	cs := map[*Term]bool{}
	tree.conds(cs)
	for _, a := range atoms {
		cs[a] = true
	}
	start, period := int64(1), int64(1)
	for t := range cs {
		l, s, p, ok := tc.condShape(t)
		if !ok || l != 0 && l != -2 {
			c.bad(kind, key, pos, "undecided: the condition %s is neither a threshold nor periodic", t)
			return
		}
		start = max(start, s)
		period = lcm(period, p)
	}
	if start+period > 6000000 {
		c.bad(kind, key, pos, "undecided: period %d is too long", period)
		return
	}
	var e penv
	for i := int64(0); i < start+period; i++ {
		e.i[0] = i
		d, ok := tree.eval(&e)
		want := expr.eval(&e)
		if !ok {
			c.bad(kind, key, pos, "undecided: no path for n = %d", i)
			return
		}
		if d.leafV != want {
			c.bad(kind, key, pos, "form %d for n = %d, the formula says %d: %s", d.leafV, i, want, header)
			return
		}
		if want < 0 || want >= np {
			c.bad(kind, key, pos, "form %d for n = %d does not exist", want, i)
			return
		}
	}
	c.addInt("classes_compared", int(start+period))
	c.addInt("conditions", len(cs))
	c.ok(kind, key)
}

func readSpec(path string) ([]string, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var res []string
	for _, l := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#") {
			continue
		}
		res = append(res, l)
	}
	return res, nil
}

// stringConsts lists the string constants of a package with a prefix.
func (w *World) stringConsts(pkg, prefix string) []string {
	m := map[string]bool{}
	for _, f := range w.moduleFuncs() {
		if relPkg(fnPkgPath(f)) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						if s := constant.StringVal(k.Value); strings.HasPrefix(s, prefix) {
							m[s] = true
						}
					}
				}
			}
		}
	}
	return sortedKeys(m)
}

func runGettextBuiltins(c *Ctx) {
	const pkg = "catalog/poplural"
	x := newExec(c.w)
	x.maxPaths = 1 << 30
	x.maxSteps = 1 << 30
	if err := x.useInit(c.w.ssap[pkg]); err != nil {
		c.bad("language", "init", token.NoPos, "undecided: %v", err)
		return
	}
	var byLangs, byRaws []*ssa.Function
	for _, f := range c.w.tableFuncs(pkg, "Rule") {
		if p, err := c.tableEntry(x, f, "en"); err == nil && p.vals[0].op != "nil" {
			byLangs = append(byLangs, f)
		}
		if p, err := c.tableEntry(x, f, "nplurals=1; plural=0;"); err == nil && p.vals[0].op != "nil" {
			byRaws = append(byRaws, f)
		}
	}
	if len(byLangs) == 0 || len(byRaws) == 0 {
		c.bad("language", "table", token.NoPos, "the functions that select built-in rules are not found")
		return
	}
	lines, err := readSpec(filepath.Join(c.verif, "specs", "gettext_plurals.txt"))
	if err != nil {
		panic(budgetError{err.Error()})
	}
	type done struct{ fn, header string }
	seen := map[done]bool{}
	for i := 0; i+1 < len(lines); i += 2 {
		langs := strings.Fields(lines[i+1])
		for k := 0; k < len(langs)*len(byLangs); k++ {
			lang, byLang := langs[k%len(langs)], byLangs[k/len(langs)]
			p, err := c.tableEntry(x, byLang, lang)
			if err != nil || p.vals[0].op == "nil" {
				c.bad("language", lang, byLang.Pos(), "no rule is built in for %q", lang)
				continue
			}
			ff, _ := x.fieldOf(p.st, p.vals[0], "FormFunc")
			np, _ := x.fieldOf(p.st, p.vals[0], "NPlurals")
			d := done{fmt.Sprint(ff, np), lines[i]}
			if seen[d] {
				c.ok("language", lang)
				continue
			}
			nv := len(c.viol)
			c.compareForm(x, "language", lang, p.st, p.vals[0], lines[i])
			if len(c.viol) == nv {
				seen[d] = true
			}
		}
	}
	for _, u := range []string{"", "xx-unknown", "nplurals=2; plural=n == 77;"} {
		for _, f := range append(append([]*ssa.Function{}, byLangs...), byRaws...) {
			p, err := c.tableEntry(x, f, u)
			if err != nil || p.vals[0].op != "nil" {
				c.bad("language", "unknown", f.Pos(), "a rule is returned for %q", u)
			}
		}
	}
	for _, raw := range c.w.stringConsts(pkg, "nplurals=") {
		for _, byRaw := range byRaws {
			p, err := c.tableEntry(x, byRaw, raw)
			if err != nil {
				c.bad("header", raw, byRaw.Pos(), "undecided: %v", err)
				continue
			}
			if p.vals[0].op == "nil" {
				continue
			}
			c.compareForm(x, "header", raw, p.st, p.vals[0], raw)
		}
	}
	c.compareSpecs(&relSpec{config: func(x *Exec) {
		x.alias = aliasAll(byLangs, pkg, "built-in rule of language")
		must(x.useInit(c.w.ssap[pkg]))
	}})
}

func aliasAll(fs []*ssa.Function, pkg, name string) map[string]string {
	m := map[string]string{modPath + "/" + pkg + ".zsBuiltIn": name}
	for _, f := range fs {
		m[f.String()] = name
	}
	return m
}

func must(err error) {
	if err != nil {
		panic(budgetError{err.Error()})
	}
}

// ---- CLDR rules ----

type cond struct {
	eval  boolFn
	atoms []*Term
}

// operandTerms are the inputs of CLDR rules.
var operandNames = []string{"I", "V", "W", "F", "T", "C"}

type cldrEnv struct {
	ts  *Terms
	ops map[string]*Term
	tc  *tableCompiler
}

// parseCond parses a CLDR condition (or, and, relations with ranges) into an evaluator; the atoms describe its thresholds.
func (ce *cldrEnv) parseCond(s string) (*cond, error) {
	res := &cond{}
	var ors []boolFn
	for _, o := range strings.Split(s, " or ") {
		var ands []boolFn
		for _, r := range strings.Split(o, " and ") {
			f, err := ce.relation(strings.TrimSpace(r), res)
			if err != nil {
				return nil, err
			}
			ands = append(ands, f)
		}
		ors = append(ors, func(e *penv) bool {
			for _, f := range ands {
				if !f(e) {
					return false
				}
			}
			return true
		})
	}
	res.eval = func(e *penv) bool {
		for _, f := range ors {
			if f(e) {
				return true
			}
		}
		return false
	}
	return res, nil
}

func (ce *cldrEnv) relation(s string, res *cond) (boolFn, error) {
	f := strings.Fields(s)
	if len(f) < 3 {
		return nil, fmt.Errorf("not a relation: %s", s)
	}
	op := ce.ops[f[0]]
	if op == nil {
		return nil, fmt.Errorf("unknown operand in %s", s)
	}
	rest := f[1:]
	isN := f[0] == "n"
	typ := types.Typ[types.Int64]
	if isN {
		typ = types.Typ[types.Float64]
	}
	lhs := op
	if rest[0] == "%" {
		m, err := strconv.ParseInt(rest[1], 10, 64)
		if err != nil {
			return nil, err
		}
		if isN {
			lhs = ce.ts.mk("res", "0", typ, ce.ts.mk("call", "math.Mod", typ, op, ce.ts.konst(constant.MakeInt64(m), typ)))
		} else {
			lhs = ce.ts.bin(token.REM, op, ce.ts.konst(constant.MakeInt64(m), typ), typ, typ)
		}
		rest = rest[2:]
	}
	if len(rest) != 2 || rest[0] != "=" && rest[0] != "!=" {
		return nil, fmt.Errorf("not a relation: %s", s)
	}
	var val func(e *penv) float64
	if isN {
		val = ce.tc.fltOf(lhs)
	} else {
		iv := ce.tc.intOf(lhs)
		val = func(e *penv) float64 { return float64(iv(e)) }
	}
	type rng struct{ lo, hi float64 }
	var rs []rng
	for _, p := range strings.Split(rest[1], ",") {
		lo, hi, ok := strings.Cut(p, "..")
		if !ok {
			hi = lo
		}
		a, err := strconv.ParseInt(lo, 10, 64)
		b, err2 := strconv.ParseInt(hi, 10, 64)
		if err != nil || err2 != nil {
			return nil, fmt.Errorf("not a number in %s", s)
		}
		rs = append(rs, rng{float64(a), float64(b)})
		for _, k := range []int64{a, b} {
			kt := ce.ts.konst(constant.MakeInt64(k), typ)
			res.atoms = append(res.atoms, ce.ts.bin(token.EQL, lhs, kt, types.Typ[types.Bool], typ), ce.ts.bin(token.LSS, lhs, kt, types.Typ[types.Bool], typ), ce.ts.bin(token.LSS, kt, lhs, types.Typ[types.Bool], typ))
		}
	}
	neg := rest[0] == "!="
	return func(e *penv) bool {
		v := val(e)
		in := false
		if v == float64(int64(v)) {
			for _, r := range rs {
				if v >= r.lo && v <= r.hi {
					in = true
				}
			}
		}
		return in != neg
	}, nil
}

type cldrGroup struct {
	langs []string
	cats  []string
	conds []string
}

func readCLDR(path string) ([]cldrGroup, error) {
	lines, err := readSpec(path)
	if err != nil {
		return nil, err
	}
	var gs []cldrGroup
	for _, l := range lines {
		if rest, ok := strings.CutPrefix(l, "languages: "); ok {
			gs = append(gs, cldrGroup{langs: strings.Fields(rest)})
			continue
		}
		cat, cnd, ok := strings.Cut(strings.TrimSpace(l), ": ")
		if !ok || len(gs) == 0 {
			return nil, fmt.Errorf("bad line %q", l)
		}
		g := &gs[len(gs)-1]
		g.cats = append(g.cats, cat)
		g.conds = append(g.conds, cnd)
	}
	return gs, nil
}

func runCLDRBuiltins(c *Ctx) {
	const pkg = "catalog/cldrplural"
	sp := c.w.ssap[pkg]
	x := newExec(c.w)
	x.maxPaths = 1 << 30
	x.maxSteps = 1 << 30
	must(x.useInit(sp))
	var byLangs []*ssa.Function
	for _, f := range c.w.tableFuncs(pkg, "RuleSet") {
		if p, err := c.tableEntry(x, f, "en"); err == nil && p.vals[0].op != "nil" {
			byLangs = append(byLangs, f)
		}
	}
	if len(byLangs) == 0 {
		c.bad("language", "table", token.NoPos, "the function that selects built-in rules is not found")
		return
	}
	catVal := map[string]int64{}
	for _, n := range []string{"Zero", "One", "Two", "Few", "Many", "Other"} {
		k, ok := sp.Members[n].(*ssa.NamedConst)
		if !ok {
			c.bad("language", n, token.NoPos, "the category %s does not exist", n)
			return
		}
		v, _ := constant.Int64Val(k.Value.Value)
		catVal[n] = v
	}
	opsT := sp.Type("Operands")
	if opsT == nil {
		c.bad("language", "Operands", token.NoPos, "the type Operands does not exist")
		return
	}
	groups, err := readCLDR(filepath.Join(c.verif, "specs", "cldr_plurals.txt"))
	if err != nil {
		panic(budgetError{err.Error()})
	}
	ops := x.param("ops", types.NewPointer(opsT.Type()))
	ostr := opsT.Type().Underlying().(*types.Struct)
	leafs := map[*Term]int{}
	ce := &cldrEnv{ts: x.ts, ops: map[string]*Term{}}
	st0 := x.newState()
	for i := 0; i < ostr.NumFields(); i++ {
		f := ostr.Field(i)
		t := x.load(st0, x.fieldAddr(ops, i, ostr), f.Type())
		for j, n := range operandNames {
			if f.Name() == n {
				leafs[t] = j
				ce.ops[strings.ToLower(n)] = t
			}
		}
		if f.Name() == "N" {
			leafs[t] = -1
			ce.ops["n"] = t
		}
	}
	ce.ops["e"] = ce.ops["c"]
	if len(leafs) != 7 {
		c.bad("language", "Operands", token.NoPos, "the operands have changed")
		return
	}
	for gi, g := range groups {
		seen := map[string]bool{}
		for k := 0; k < len(g.langs)*len(byLangs); k++ {
			lang, byLang := g.langs[k%len(g.langs)], byLangs[k/len(g.langs)]
			p, err := c.tableEntry(x, byLang, lang)
			if err != nil || p.vals[0].op == "nil" {
				c.bad("language", lang, byLang.Pos(), "no rule set is built in for %q", lang)
				continue
			}
			ff, _ := x.fieldOf(p.st, p.vals[0], "FormFunc")
			cats, _ := x.fieldOf(p.st, p.vals[0], "Categories")
			if ff == nil || ff.fn == nil || cats == nil {
				c.bad("language", lang, byLang.Pos(), "undecided: the rule set of %q is not known", lang)
				continue
			}
			seq := x.seqOf(p.st, cats)
			var got []string
			for _, a := range seq.args {
				got = append(got, a.String())
			}
			var want []string
			for _, n := range append(append([]string{}, g.cats...), "Other") {
				want = append(want, fmt.Sprint(catVal[n]))
			}
			if seq.op != "seq" || strings.Join(got, ",") != strings.Join(want, ",") {
				c.bad("language", lang, ff.fn.Pos(), "the categories of %q are %v, CLDR has %v", lang, got, append(g.cats, "Other"))
				continue
			}
			key := fmt.Sprint(ff.id, "|", gi)
			if seen[key] {
				c.ok("language", lang)
				continue
			}
			ce.tc = &tableCompiler{leaf: func(t *Term) (int, bool) { l, ok := leafs[t]; return l, ok }}
			if msg := c.compareRuleSet(x, ce, p.st, ff, ops, g, catVal); msg != "" {
				c.bad("language", lang, ff.fn.Pos(), "rules of %q: %s", lang, msg)
				continue
			}
			seen[key] = true
			c.ok("language", lang)
			c.ok("rule set", strings.Join(g.langs, " "))
		}
	}
	for _, u := range []string{"", "xx-unknown"} {
		for _, byLang := range byLangs {
			p, err := c.tableEntry(x, byLang, u)
			if err != nil || p.vals[0].op != "nil" {
				c.bad("language", "unknown", byLang.Pos(), "a rule set is returned for %q", u)
			}
		}
	}
	c.compareSpecs(&relSpec{config: func(x *Exec) {
		x.alias = aliasAll(byLangs, pkg, "built-in rules of language")
		must(x.useInit(sp))
	}})
}

// compareRuleSet compares a form function with the CLDR rules over all operands.
func (c *Ctx) compareRuleSet(x *Exec, ce *cldrEnv, st *State, ff, ops *Term, g cldrGroup, catVal map[string]int64) string {
	tc := ce.tc
	var rules []*cond
	atoms := map[*Term]bool{}
	for _, s := range g.conds {
		r, err := ce.parseCond(s)
		if err != nil {
			return err.Error()
		}
		rules = append(rules, r)
		for _, a := range r.atoms {
			if _, k := a.isBoolConst(); !k {
				atoms[a] = true
			}
		}
	}
	tree, err := tc.buildTree(x.runFuncValue(st, ff, []*Term{ops}), func(p *Path) (int64, bool) { return p.vals[0].intConst() })
	if err != nil {
		return "undecided: " + err.Error()
	}
	tree.conds(atoms)
	var start, period [8]int64
	for i := range start {
		start[i], period[i] = 2, 1
	}
	var iAtoms, fAtoms []boolFn
	hasC := false
	var al []*Term
	for t := range atoms {
		al = append(al, t)
	}
	sort.Slice(al, func(i, j int) bool { return al[i].id < al[j].id })
	for _, t := range al {
		t := t
		for t.op == "not" {
			t = t.args[0]
		}
		l, s, p, ok := tc.condShape(t)
		if !ok {
			return fmt.Sprintf("undecided: the condition %s is neither a threshold nor periodic", t)
		}
		if l == -2 {
			continue
		}
		if l == -1 || l == 0 {
			iAtoms = append(iAtoms, tc.boolOf(t))
			l = 0
		} else if l < 5 {
			fAtoms = append(fAtoms, tc.boolOf(t))
		} else {
			hasC = true
		}
		start[l] = max(start[l], s)
		period[l] = lcm(period[l], p)
	}
	if tc.fail != "" {
		return "undecided: " + tc.fail
	}
	if start[0]+period[0] > 4000000 {
		return "undecided: the period is too long"
	}
	// V, W: all values up to the largest constant; F, T: all digits; C: all residues.
	if start[1] > 6 || period[1] != 1 || start[2] > 6 || period[2] != 1 || start[3] > 1000 || start[4] > 1000 || 1000%period[3] != 0 || 1000%period[4] != 0 || start[5]+period[5] > 64 {
		return "undecided: unusual thresholds"
	}
	// classes of i
	fracs := []float64{0, 0.001, 0.1, 0.5, 0.9, 0.999}
	classes := map[string]int64{}
	var reps []int64
	sig := make([]byte, 0, 256)
	var e penv
	for i := int64(0); i < start[0]+period[0]; i++ {
		sig = sig[:0]
		e.i[0] = i
		for _, f := range fracs {
			e.nf = float64(i) + f
			var b byte
			for k, a := range iAtoms {
				b <<= 1
				if a(&e) {
					b |= 1
				}
				if k%8 == 7 {
					sig = append(sig, b)
					b = 0
				}
			}
			sig = append(sig, b)
		}
		if _, ok := classes[string(sig)]; !ok {
			classes[string(sig)] = i
			reps = append(reps, i)
		}
	}
	cmax := start[5] + period[5]
	if !hasC {
		cmax = 0
	}
	// classes of the visible fraction digits; conditions on n depend on i and on whether there is a fraction
	type frac struct{ v, w, f, t, pow int64 }
	fseen := map[string]bool{}
	var freps []frac
	pow := int64(1)
	for v := int64(0); v <= max(start[1], start[2], 3); v++ {
		step := int64(1)
		if v > 3 {
			step = pow / 1000
		}
		for f := int64(0); f < pow; f += step {
			t, w := f, v
			for w > 0 && t%10 == 0 {
				t /= 10
				w--
			}
			e.i[1], e.i[2], e.i[3], e.i[4] = v, w, f, t
			sig = sig[:0]
			for _, a := range fAtoms {
				sig = append(sig, byte(b2i(a(&e))))
			}
			sig = append(sig, byte(b2i(f == 0)), byte(f*10/pow), byte(b2i(f == pow-1 && v == 3)), byte(b2i(f == 1 && v == 3)))
			if !fseen[string(sig)] {
				fseen[string(sig)] = true
				freps = append(freps, frac{v, w, f, t, pow})
			}
		}
		pow *= 10
	}
	n := 0
	for _, i := range reps {
		e.i[0] = i
		for _, fr := range freps {
			e.i[1], e.i[2], e.i[3], e.i[4] = fr.v, fr.w, fr.f, fr.t
			e.nf = float64(i) + float64(fr.f)/float64(fr.pow)
			for cx := int64(0); cx <= cmax; cx++ {
				e.i[5] = cx
				n++
				d, ok := tree.eval(&e)
				want := catVal["Other"]
				for k, r := range rules {
					if r.eval(&e) {
						want = catVal[g.cats[k]]
						break
					}
				}
				if !ok || d.leafV != want {
					got := int64(-1)
					if ok {
						got = d.leafV
					}
					return fmt.Sprintf("category %s for n=%v i=%d v=%d w=%d f=%d t=%d c=%d, CLDR says %s", catName(catVal, got), e.nf, i, fr.v, fr.w, fr.f, fr.t, cx, catName(catVal, want))
				}
			}
		}
	}
	c.addInt("operand_classes_compared", n)
	c.addInt("integer_classes", len(reps))
	c.addInt("conditions", len(atoms))
	return ""
}

func catName(m map[string]int64, v int64) string {
	for n, x := range m {
		if x == v {
			return n
		}
	}
	return fmt.Sprint(v)
}
