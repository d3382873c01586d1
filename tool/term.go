package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value. Two values with the same number are equal in every execution
// that is described by the path they occur on (global value numbering).
type Term struct {
	loopM int // 2 + number of the last loop the term depends on, 0: not computed
	id    int
	op    string
	aux   string
	cv    constant.Value
	typ   types.Type
	args  []*Term
	fn    *ssa.Function
	coef  []int64 // op "lin": coefficients of args
	k     int64   // op "lin": constant part
	nn    bool    // never nil
}

// Terms is the value-numbering table.
type Terms struct {
	tab    map[string]*Term
	nnMaps map[*types.TypeName]bool // map types without nil elements
	n      int
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	s := types.TypeString(t, nil)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = aliasNames.ReplaceAllStringFunc(s, func(m string) string {
			if strings.HasSuffix(m, "byte") {
				return strings.TrimSuffix(m, "byte") + "uint8"
			}
			return strings.TrimSuffix(m, "rune") + "int32"
		})
	}
	return s
}

// The other names of predeclared types.
var aliasNames = regexp.MustCompile(`(^|[^\w./])(byte|rune)\b`)

func (ts *Terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	return ts.mkf(op, aux, typ, nil, args...)
}

func (ts *Terms) mkf(op, aux string, typ types.Type, fn *ssa.Function, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	switch op {
	case "agg", "iface", "conv", "zero", "newobj", "newmap", "istype", "asserted", "mkslice", "chan", "hv":
		sb.WriteByte('|')
		sb.WriteString(typeKey(typ))
	}
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if t, ok := ts.tab[key]; ok {
		return t
	}
	ts.n++
	t := &Term{id: ts.n, op: op, aux: aux, typ: typ, args: args, fn: fn}
	ts.tab[key] = t
	return t
}

func (ts *Terms) lookupKey(key string, mk func() *Term) *Term {
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := mk()
	ts.n++
	t.id = ts.n
	ts.tab[key] = t
	return t
}

// konst returns the constant v of type typ. Typed nil values share one representation per type.
func (ts *Terms) konst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		if isBasic(typ) || isStructy(typ) {
			return ts.zero(typ)
		}
		return ts.nilT(typ)
	}
	// Constants are numbered by kind and value: a conversion between named types is the identity on constants.
	kind := "c"
	if b, ok := typ.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsFloat != 0 {
			v = constant.ToFloat(v)
			kind = "cf"
		} else if b.Info()&types.IsInteger != 0 {
			v = constant.ToInt(v)
			kind = "ci"
		}
	}
	key := kind + "|" + v.ExactString()
	return ts.lookupKey(key, func() *Term { return &Term{op: "const", cv: v, typ: typ, aux: v.ExactString(), nn: true} })
}

func (ts *Terms) nilT(typ types.Type) *Term {
	return ts.lookupKey("nil", func() *Term { return &Term{op: "nil", typ: typ} })
}

func (ts *Terms) boolT(b bool) *Term { return ts.konst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) intT(i int64) *Term { return ts.konst(constant.MakeInt64(i), types.Typ[types.Int]) }
func (ts *Terms) strT(s string) *Term {
	return ts.konst(constant.MakeString(s), types.Typ[types.String])
}

func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }
func isStructy(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// structFields returns the struct type whose fields are tracked individually.
// Struct types of other modules are atomic values.
func structFields(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !inModule(p.Path()) {
			return nil
		}
	}
	return s
}

func (ts *Terms) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.boolT(false)
		case u.Info()&types.IsString != 0:
			return ts.strT("")
		case u.Info()&types.IsInteger != 0, u.Info()&types.IsFloat != 0:
			return ts.konst(constant.MakeInt64(0), t)
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return ts.nilT(t)
		default:
			return ts.konst(constant.MakeInt64(0), t)
		}
	case *types.Struct:
		if s := structFields(t); s != nil {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = ts.zero(s.Field(i).Type())
			}
			return ts.mk("agg", "", t, args...)
		}
		return ts.mk("zero", "", t)
	case *types.Array:
		return ts.mk("zero", "", t)
	}
	return ts.nilT(t)
}

func (t *Term) isConst() bool { return t.op == "const" || t.op == "nil" }

func (t *Term) isBoolConst() (val, ok bool) {
	if t.op == "const" && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

func (t *Term) intConst() (int64, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		v, ok := constant.Int64Val(t.cv)
		return v, ok
	}
	return 0, false
}

func (t *Term) strConst() (string, bool) {
	if t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

// ---- linear integer arithmetic normal form ----

type linForm struct {
	m map[*Term]int64
	k int64
}

func toLin(t *Term) (linForm, bool) {
	if v, ok := t.intConst(); ok {
		return linForm{map[*Term]int64{}, v}, true
	}
	if t.op == "const" {
		return linForm{}, false
	}
	if t.op == "lin" {
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return linForm{m, t.k}, true
	}
	return linForm{map[*Term]int64{t: 1}, 0}, true
}

func (l linForm) add(o linForm, f int64) linForm {
	m := map[*Term]int64{}
	for t, c := range l.m {
		m[t] += c
	}
	for t, c := range o.m {
		m[t] += f * c
		if m[t] == 0 {
			delete(m, t)
		}
	}
	return linForm{m, l.k + f*o.k}
}

func (ts *Terms) fromLin(l linForm, typ types.Type) *Term {
	if len(l.m) == 0 {
		return ts.konst(constant.MakeInt64(l.k), typ)
	}
	keys := make([]*Term, 0, len(l.m))
	for t := range l.m {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	if len(keys) == 1 && l.k == 0 && l.m[keys[0]] == 1 {
		return keys[0]
	}
	key := "lin|" + strconv.FormatInt(l.k, 10)
	coef := make([]int64, len(keys))
	for i, t := range keys {
		coef[i] = l.m[t]
		key += fmt.Sprintf("|%d*%d", coef[i], t.id)
	}
	return ts.lookupKey(key, func() *Term {
		return &Term{op: "lin", typ: typ, args: keys, coef: coef, k: l.k}
	})
}

// splitLin splits an integer difference d = a-b into sign*(key) + k with a canonical key.
func (ts *Terms) splitLin(a, b *Term) (key *Term, sign, k int64, ok bool) {
	la, ok1 := toLin(a)
	lb, ok2 := toLin(b)
	if !ok1 || !ok2 {
		return nil, 0, 0, false
	}
	d := la.add(lb, -1)
	k = d.k
	d.k = 0
	if len(d.m) == 0 {
		return nil, 0, k, true
	}
	var first *Term
	for t := range d.m {
		if first == nil || t.id < first.id {
			first = t
		}
	}
	sign = 1
	if d.m[first] < 0 {
		sign = -1
		for t := range d.m {
			d.m[t] = -d.m[t]
		}
	}
	return ts.fromLin(d, types.Typ[types.Int]), sign, k, true
}

func flipTok(op token.Token) (token.Token, bool) {
	switch op {
	case token.GTR:
		return token.LSS, true
	case token.GEQ:
		return token.LEQ, true
	}
	return op, false
}

func (ts *Terms) not(c *Term) *Term {
	if v, ok := c.isBoolConst(); ok {
		return ts.boolT(!v)
	}
	if c.op == "not" {
		return c.args[0]
	}
	return ts.mk("not", "", types.Typ[types.Bool], c)
}

// bin builds a normalised binary operation. typ is the type of the result, ot the operand type.
func (ts *Terms) bin(op token.Token, a, b *Term, typ, ot types.Type) *Term {
	boolean := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if f, ok := flipTok(op); ok {
			op = f
			a, b = b, a
		}
		if a.op == "const" && b.op == "const" {
			if a.cv.Kind() == b.cv.Kind() || (a.cv.Kind() != constant.Bool && a.cv.Kind() != constant.String && b.cv.Kind() != constant.Bool && b.cv.Kind() != constant.String) {
				if a.cv.Kind() == constant.Bool {
					eq := constant.BoolVal(a.cv) == constant.BoolVal(b.cv)
					return ts.boolT(eq == (op == token.EQL))
				}
				return ts.boolT(constant.Compare(a.cv, op, b.cv))
			}
		}
		switch op {
		case token.NEQ:
			return ts.not(ts.bin(token.EQL, a, b, typ, ot))
		case token.LEQ:
			if ot != nil && isFloat(ot) {
				return ts.mk("fle", "", boolean, a, b)
			}
			return ts.not(ts.bin(token.LSS, b, a, typ, ot))
		case token.EQL:
			if a == b && (ot == nil || !isFloat(ot)) {
				return ts.boolT(true)
			}
			// Comparison with a boolean constant.
			if v, ok := a.isBoolConst(); ok {
				if v {
					return b
				}
				return ts.not(b)
			}
			if v, ok := b.isBoolConst(); ok {
				if v {
					return a
				}
				return ts.not(a)
			}
			if (a.op == "nil" && ts.nonNil(b)) || (b.op == "nil" && ts.nonNil(a)) {
				return ts.boolT(false)
			}
			// s[lo:hi] == "" is hi == lo
			for i, v := range []*Term{a, b} {
				w := []*Term{b, a}[i]
				if c, ok := w.strConst(); ok && c == "" && v.op == "slice" && isString(v.typ0()) && v.args[2].op != "undefhi" {
					return ts.bin(token.EQL, v.args[2], v.args[1], boolean, types.Typ[types.Int])
				}
			}
			// len(x) == 0 is x == "" for strings
			if a.op == "len" && b.op == "const" {
				if v, _ := b.intConst(); v == 0 && isString(a.args[0].typ0()) {
					return ts.bin(token.EQL, a.args[0], ts.strT(""), boolean, a.args[0].typ)
				}
			}
			if b.op == "len" && a.op == "const" {
				return ts.bin(token.EQL, b, a, typ, ot)
			}
			if ot != nil && isInt(ot) {
				if key, sign, k, ok := ts.splitLin(a, b); ok {
					if key == nil {
						return ts.boolT(k == 0)
					}
					if key.op != "lin" && key.coefOf() == 1 {
						// sign*key + k == 0
						if isIndexCall(key) && -k*sign == -1 {
							return ts.mk("lt", "", boolean, key, ts.intT(0))
						}
						return ts.eq2(key, ts.konst(constant.MakeInt64(-k*sign), ot))
					}
					a, b = key, ts.konst(constant.MakeInt64(-k*sign), ot)
				}
			}
			return ts.eq2(a, b)
		case token.LSS:
			if a == b && (ot == nil || !isFloat(ot)) {
				return ts.boolT(false)
			}
			if ot != nil && isFloat(ot) {
				return ts.mk("flt", "", boolean, a, b)
			}
			if ot != nil && isString(ot) {
				return ts.mk("slt", "", boolean, a, b)
			}
			if ot != nil && isInt(ot) {
				if key, sign, k, ok := ts.splitLin(a, b); ok {
					if key == nil {
						return ts.boolT(k < 0)
					}
					// Strings and collections: len(x) > 0 is not len(x) == 0.
					if sign == -1 && k == 0 && key.op == "len" {
						return ts.not(ts.bin(token.EQL, key, ts.intT(0), boolean, ot))
					}
					if sign == 1 && k == -1 && key.op == "len" {
						return ts.bin(token.EQL, key, ts.intT(0), boolean, ot)
					}
					// key < c  |  -key + k < 0  <=>  key > k  <=>  not key < k+1
					if sign == 1 {
						return ts.mk("lt", "", boolean, key, ts.intT(-k))
					}
					return ts.not(ts.mk("lt", "", boolean, key, ts.intT(k+1)))
				}
			}
			return ts.mk("lt", "", boolean, a, b)
		}
	case token.ADD:
		if isString(typ) {
			return ts.concat(a, b)
		}
		if isInt(typ) {
			la, ok1 := toLin(a)
			lb, ok2 := toLin(b)
			if ok1 && ok2 {
				return ts.fromLin(la.add(lb, 1), typ)
			}
		}
	case token.SUB:
		if isInt(typ) {
			la, ok1 := toLin(a)
			lb, ok2 := toLin(b)
			if ok1 && ok2 {
				return ts.fromLin(la.add(lb, -1), typ)
			}
		}
	case token.MUL:
		if isInt(typ) {
			if c, ok := b.intConst(); ok {
				if la, ok := toLin(a); ok {
					return ts.fromLin(linForm{map[*Term]int64{}, 0}.add(la, c), typ)
				}
			}
			if c, ok := a.intConst(); ok {
				if lb, ok := toLin(b); ok {
					return ts.fromLin(linForm{map[*Term]int64{}, 0}.add(lb, c), typ)
				}
			}
		}
	}
	if a.op == "const" && b.op == "const" && a.cv.Kind() == b.cv.Kind() && op != token.SHL && op != token.SHR && !isBool(typ) {
		if op == token.QUO && isInt(typ) {
			op = token.QUO_ASSIGN
		}
		if z, ok := b.intConst(); !(ok && z == 0) {
			return ts.konst(constant.BinaryOp(a.cv, op, b.cv), typ)
		}
		if op == token.QUO_ASSIGN {
			op = token.QUO
		}
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if !isString(typ) && a.id > b.id {
			a, b = b, a
		}
	}
	return ts.mk("bin"+op.String(), typeKey(typ), typ, a, b)
}

func (t *Term) coefOf() int64 { return 1 }

func (t *Term) typ0() types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func (ts *Terms) eq2(a, b *Term) *Term {
	// constants on the right, otherwise ordered
	if a.isConst() && !b.isConst() || (!a.isConst() && !b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	return ts.mk("eq", "", types.Typ[types.Bool], a, b)
}

func (ts *Terms) concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		var l []*Term
		if t.op == "concat" {
			l = t.args
		} else {
			l = []*Term{t}
		}
		for _, p := range l {
			if s, ok := p.strConst(); ok {
				if s == "" {
					continue
				}
				if n := len(parts); n > 0 {
					if q, ok := parts[n-1].strConst(); ok {
						parts[n-1] = ts.strT(q + s)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	add(a)
	add(b)
	if len(parts) == 0 {
		return ts.strT("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return ts.mk("concat", "", types.Typ[types.String], parts...)
}

// nonNil reports whether t can never be nil.
func (ts *Terms) nonNil(t *Term) bool {
	if t.nn {
		return true
	}
	switch t.op {
	case "alloc", "newobj", "newmap", "iface", "clo", "fn", "fld", "idx", "global", "mkslice", "errnew", "errwrap", "allocmap", "chan", "seq", "agg", "zero", "bound":
		return true
	case "slice":
		return t.args[0].op == "alloc"
	case "ld":
		// Package level errors are initialised once and never nil.
		if t.args[0].op == "global" && isErrorType(t.typ) {
			return true
		}
	case "append":
		return true // only used with at least one element, see appendTerm
	}
	return false
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func shortPkg(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), modPath, "spreak")
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil-term>"
	}
	if d > 6 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		return t.cv.ExactString()
	case "nil":
		return "nil"
	case "param":
		return t.aux
	case "global":
		return "&" + shortPkg(t.aux)
	case "ld":
		if len(t.args) > 0 && t.args[0].op == "global" {
			return shortPkg(t.args[0].aux)
		}
		return "*" + args()
	case "fld":
		return fmt.Sprintf("%s.%s", strings.TrimPrefix(t.args[0].str(d+1), "&"), fieldName(t.args[0], t.aux))
	case "idx":
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case "lin":
		var s []string
		for i, a := range t.args {
			if t.coef[i] == 1 {
				s = append(s, a.str(d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.coef[i], a.str(d+1)))
			}
		}
		if t.k != 0 {
			s = append(s, strconv.FormatInt(t.k, 10))
		}
		return "(" + strings.Join(s, "+") + ")"
	case "eq":
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case "lt", "flt", "slt":
		return t.args[0].str(d+1) + " < " + t.args[1].str(d+1)
	case "fle":
		return t.args[0].str(d+1) + " <= " + t.args[1].str(d+1)
	case "not":
		return "!(" + args() + ")"
	case "fn", "clo":
		return "func " + shortPkg(t.aux)
	case "agg", "newobj":
		return shortPkg(typeKey(t.typ)) + "{" + args() + "}"
	case "iface":
		return args()
	case "call", "res":
		return shortPkg(t.aux) + "(" + args() + ")"
	}
	a := args()
	if strings.HasPrefix(t.op, "bin") && len(t.args) == 2 {
		return "(" + t.args[0].str(d+1) + " " + t.op[3:] + " " + t.args[1].str(d+1) + ")"
	}
	aux := t.aux
	if aux != "" {
		aux = "<" + shortPkg(aux) + ">"
	}
	return t.op + aux + "(" + a + ")"
}

func fieldName(base *Term, aux string) string {
	if base.typ == nil {
		return aux
	}
	t := base.typ.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if s, ok := t.(*types.Struct); ok {
		if i, err := strconv.Atoi(aux); err == nil && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return aux
}

func (t *Term) boolConst() (bool, bool) {
	if t.op != "const" || t.cv == nil || t.cv.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.cv), true
}
