package main

import (
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Facts is the abstract state about branch conditions: which predicates are known to hold or not,
// intervals of integer terms and constants that a term equals or differs from.
type Facts struct {
	ts    *Terms
	known map[*Term]bool
	lo    map[*Term]int64
	hi    map[*Term]int64
	eqc   map[*Term]*Term          // term -> constant it is equal to
	neq   map[*Term]map[*Term]bool // term -> constants it differs from
	typ   map[*Term]types.Type     // interface term -> its dynamic type
	fixes map[*Term][]fixFact      // text -> prefixes and suffixes it has or has not
	order []*Term                  // assumed conditions in order, for reports
}

func newFacts(ts *Terms) *Facts {
	return &Facts{ts: ts, known: map[*Term]bool{}, lo: map[*Term]int64{}, hi: map[*Term]int64{}, eqc: map[*Term]*Term{}, neq: map[*Term]map[*Term]bool{}, typ: map[*Term]types.Type{}, fixes: map[*Term][]fixFact{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts(f.ts)
	for k, v := range f.known {
		g.known[k] = v
	}
	for k, v := range f.lo {
		g.lo[k] = v
	}
	for k, v := range f.hi {
		g.hi[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	for k, v := range f.typ {
		g.typ[k] = v
	}
	for k, v := range f.fixes {
		g.fixes[k] = v
	}
	for k, v := range f.neq {
		m := map[*Term]bool{}
		for x := range v {
			m[x] = true
		}
		g.neq[k] = m
	}
	g.order = append([]*Term(nil), f.order...)
	return g
}

// beforeLoop drops everything that is only known about the iterations of a loop or of later ones.
func (f *Facts) beforeLoop(ord int) *Facts {
	g := f.clone()
	in := func(t *Term) bool { return f.ts.loopMax(t) >= ord }
	for t := range g.known {
		if in(t) {
			delete(g.known, t)
		}
	}
	for t := range g.lo {
		if in(t) {
			delete(g.lo, t)
		}
	}
	for t := range g.hi {
		if in(t) {
			delete(g.hi, t)
		}
	}
	for t, c := range g.eqc {
		if in(t) || in(c) {
			delete(g.eqc, t)
		}
	}
	for t := range g.neq {
		if in(t) {
			delete(g.neq, t)
		}
	}
	for t := range g.typ {
		if in(t) {
			delete(g.typ, t)
		}
	}
	for t := range g.fixes {
		if in(t) {
			delete(g.fixes, t)
		}
	}
	return g
}

// loopMax returns the number of the last loop a term depends on, or -1.
func (ts *Terms) loopMax(t *Term) int {
	if t.loopM != 0 {
		return t.loopM - 2
	}
	m := -1
	switch t.op {
	case "count", "mapkey", "more", "hv":
		if s, ok := strings.CutPrefix(t.aux, "L"); ok {
			s, _, _ = strings.Cut(s, ":")
			if n, err := strconv.Atoi(s); err == nil {
				m = n
			}
		}
	case "call":
		if i := strings.LastIndexByte(t.aux, '@'); i >= 0 {
			if n, err := strconv.Atoi(t.aux[i+1:]); err == nil {
				m = n
			}
		}
	case "strpos":
		if n, err := strconv.Atoi(t.aux); err == nil {
			m = n - 1
		}
	}
	for _, a := range t.args {
		m = max(m, ts.loopMax(a))
	}
	t.loopM = m + 2
	return m
}

func (f *Facts) loOf(t *Term) int64 {
	if c, ok := f.eqc[t]; ok {
		if k, ok := c.intConst(); ok {
			return k
		}
	}
	l := int64(math.MinInt64)
	switch t.op {
	case "len", "cap", "count":
		l = 0
	case "res":
		if isIndexCall(t) {
			l = -1
			if o := f.otherIndex(t); o != nil && f.lo[o] >= 0 {
				if _, ok := f.lo[o]; ok {
					l = 0
				}
			}
		}
		if r, ok := timeRange(t); ok {
			l = r[0]
		}
	case "lin":
		if n, ok := f.indexOrder(t); ok && n < 0 {
			l = t.k
			break
		}
		// sum of non-negative terms
		ok := true
		var s int64 = t.k
		for i, a := range t.args {
			al := f.loOf(a)
			if t.coef[i] < 0 || al < 0 {
				ok = false
				break
			}
			s += t.coef[i] * al
		}
		if ok {
			l = s
		}
	}
	if b, ok := basicOf(t.typ); ok && b.Info()&types.IsUnsigned != 0 && t.op != "lin" && l < 0 {
		l = 0
	}
	if v, ok := f.lo[t]; ok && v > l {
		l = v
	}
	for m := f.neq[t]; len(m) > 0 && m[f.ts.intT(l)]; {
		l++
	}
	return l
}

// timeRange returns the possible values of a part of a time.
func timeRange(t *Term) ([2]int64, bool) {
	if t.op != "res" || t.args[0].op != "call" || t.aux != "0" {
		return [2]int64{}, false
	}
	r, ok := timeParts[t.args[0].aux]
	return r, ok
}

var timeParts = map[string][2]int64{
	"(time.Time).Month": {1, 12}, "(time.Time).Weekday": {0, 6}, "(time.Time).Day": {1, 31}, "(time.Time).YearDay": {1, 366},
	"(time.Time).Hour": {0, 23}, "(time.Time).Minute": {0, 59}, "(time.Time).Second": {0, 59}, "(time.Time).Nanosecond": {0, 999999999},
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func (f *Facts) hiOf(t *Term) int64 {
	if c, ok := f.eqc[t]; ok {
		if k, ok := c.intConst(); ok {
			return k
		}
	}
	h := int64(math.MaxInt64)
	if r, ok := timeRange(t); ok {
		h = r[1]
	}
	if n, ok := f.indexOrder(t); ok && n > 0 {
		h = t.k
	}
	if o := f.otherIndex(t); o != nil {
		if v, ok := f.hi[o]; ok && v < 0 {
			h = -1
		}
	}
	if v, ok := f.hi[t]; ok && v < h {
		h = v
	}
	for m := f.neq[t]; len(m) > 0 && m[f.ts.intT(h)]; {
		h--
	}
	return h
}

// otherIndex returns the first position of what t is the last position of, and the other way round.
func (f *Facts) otherIndex(t *Term) *Term {
	if t.op != "res" || t.args[0].op != "call" {
		return nil
	}
	c := t.args[0]
	name := ""
	switch c.aux {
	case "strings.Index":
		name = "strings.LastIndex"
	case "strings.LastIndex":
		name = "strings.Index"
	default:
		return nil
	}
	return f.ts.mk("res", "0", t.typ, f.ts.mk("call", name, c.typ, c.args...))
}

// indexOrder reports whether t is the first position of a text minus its last position (1) or the other way round (-1).
func (f *Facts) indexOrder(t *Term) (int, bool) {
	if t.op != "lin" || len(t.args) != 2 || t.coef[0]+t.coef[1] != 0 || t.coef[0] != 1 && t.coef[0] != -1 {
		return 0, false
	}
	a, b := t.args[0], t.args[1]
	if f.otherIndex(a) != b {
		return 0, false
	}
	if (a.args[0].aux == "strings.Index") == (t.coef[0] == 1) {
		return 1, true
	}
	return -1, true
}

// value returns the constant a term is known to be equal to.
func (f *Facts) value(t *Term) (*Term, bool) {
	if t.isConst() {
		return t, true
	}
	if c, ok := f.eqc[t]; ok {
		return c, true
	}
	// An element that a map does not have is the zero value.
	if t.op == "lookup" && t.typ != nil {
		if v, ok := f.known[f.ts.mk("has", "", types.Typ[types.Bool], t.args...)]; ok && !v || f.hiOf(f.lenT(t.args[0])) == 0 {
			if z := f.ts.zero(t.typ); z.isConst() {
				return z, true
			}
		}
	}
	if t.op == "res" && t.aux == "0" && t.args[0].op == "call" {
		return f.foldCall(t.args[0])
	}
	return nil, false
}

// foldCall evaluates a function of texts if the texts are known.
func (f *Facts) foldCall(c *Term) (*Term, bool) {
	n, ok := strFold[c.aux]
	if !ok || len(c.args) != n {
		return nil, false
	}
	var v [2]string
	for i, a := range c.args {
		k, ok := f.value(a)
		if !ok {
			return nil, false
		}
		if v[i], ok = k.strConst(); !ok {
			return nil, false
		}
	}
	switch c.aux {
	case "strings.TrimSpace":
		return f.ts.strT(strings.TrimSpace(v[0])), true
	case "strings.ToUpper":
		return f.ts.strT(strings.ToUpper(v[0])), true
	case "strings.ToLower":
		return f.ts.strT(strings.ToLower(v[0])), true
	case "strings.HasPrefix":
		return f.ts.boolT(strings.HasPrefix(v[0], v[1])), true
	case "strings.HasSuffix":
		return f.ts.boolT(strings.HasSuffix(v[0], v[1])), true
	case "strings.Index":
		return f.ts.intT(int64(strings.Index(v[0], v[1]))), true
	}
	return nil, false
}

var strFold = map[string]int{"strings.TrimSpace": 1, "strings.ToUpper": 1, "strings.ToLower": 1, "strings.HasPrefix": 2, "strings.HasSuffix": 2, "strings.Index": 2}

// eval decides a condition if the facts imply it.
func (f *Facts) eval(c *Term) (val, ok bool) {
	if v, ok := c.isBoolConst(); ok {
		return v, true
	}
	if c.op == "not" {
		v, ok := f.eval(c.args[0])
		return !v, ok
	}
	if v, ok := f.known[c]; ok {
		return v, true
	}
	if k, ok := f.eqc[c]; ok {
		if v, ok := k.isBoolConst(); ok {
			return v, true
		}
	}
	if c.op == "res" {
		if k, ok := f.value(c); ok {
			if v, ok := k.isBoolConst(); ok {
				return v, true
			}
		}
		if a := c.args[0]; a.op == "call" && a.aux == "math.IsNaN" && f.notNaN(a.args[0]) {
			return false, true
		}
		if v, ok := f.evalFix(c); ok {
			return v, true
		}
	}
	if v, ok := f.evalSmall(c); ok {
		return v, true
	}
	switch c.op {
	case "flt", "fle":
		return f.evalFloat(c)
	case "slt":
		a, b := c.args[0], c.args[1]
		greater, okG := f.known[f.ts.mk("slt", "", types.Typ[types.Bool], b, a)]
		equal, okE := f.known[f.ts.eq2(a, b)]
		switch {
		case a == b || okG && greater || okE && equal:
			return false, true
		case okG && okE:
			return true, true
		}
	case "eq":
		a, b := c.args[0], c.args[1]
		if a.typ != nil && isString(a.typ) {
			less, okL := f.known[f.ts.mk("slt", "", types.Typ[types.Bool], a, b)]
			greater, okG := f.known[f.ts.mk("slt", "", types.Typ[types.Bool], b, a)]
			if okL && less || okG && greater {
				return false, true
			}
			if okL && okG {
				return true, true
			}
		}
		va, oka := f.value(a)
		vb, okb := f.value(b)
		if oka && okb {
			if va == vb {
				return true, true
			}
			if va.op == "nil" || vb.op == "nil" {
				if va.op == vb.op {
					return true, true
				}
				return false, true
			}
			return f.ts.eqConst(va, vb), true
		}
		if okb {
			if vb.op == "nil" {
				if f.nonNil(a) {
					return false, true
				}
			}
			if f.neq[a][vb] {
				return false, true
			}
			if k, ok := vb.intConst(); ok {
				if k < f.loOf(a) || k > f.hiOf(a) {
					return false, true
				}
				if v, ok := f.remainder(a, k); ok {
					return v, true
				}
			}
			if v, isStr := vb.strConst(); isStr {
				if n := f.lenT(a); f.loOf(n) > int64(len(v)) || f.hiOf(n) < int64(len(v)) {
					return false, true
				}
				// a == "x" is false if len(a) is known to differ
				if a.op == "concat" {
					for _, p := range a.args {
						if s, ok := p.strConst(); ok && s != "" {
							if v, _ := vb.strConst(); v == "" {
								return false, true
							}
						}
					}
				}
			}
		}
		if oka && va.op == "nil" && f.nonNil(b) {
			return false, true
		}
	case "lt":
		a := c.args[0]
		if k, ok := c.args[1].intConst(); ok {
			if f.hiOf(a) < k {
				return true, true
			}
			if f.loOf(a) >= k {
				return false, true
			}
			if l, h := f.difference(a); h < k {
				return true, true
			} else if l >= k {
				return false, true
			}
		}
		va, oka := f.value(a)
		vb, okb := f.value(c.args[1])
		if oka && okb {
			if x, ok := va.intConst(); ok {
				if y, ok := vb.intConst(); ok {
					return x < y, true
				}
			}
		}
	case "istype":
		x := c.args[0]
		if v, ok := f.value(x); ok && v.op == "nil" {
			return false, true
		}
		if dt, ok := f.typ[x]; ok {
			return typeMatches(dt, c.typ), true
		}
	case "has":
		if v, ok := f.value(c.args[0]); ok && v.op == "nil" {
			return false, true
		}
		if f.hiOf(f.lenT(c.args[0])) == 0 {
			return false, true
		}
		if v, ok := f.ts.tab[lookupKeyOf(c.args)]; ok && v.typ != nil {
			if z := f.ts.zero(v.typ); z.isConst() {
				if f.neq[v][z] || z.op == "nil" && f.nonNil(v) {
					return true, true
				}
				if k, ok := f.eqc[v]; ok {
					if k != z && !f.ts.eqConst(k, z) {
						return true, true
					}
					if k.op == "nil" && f.ts.elemNeverNil(c.args[0].typ) {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

// difference bounds x-y with what is known about x-z and z-y.
func (f *Facts) difference(t *Term) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	x, y, ok := diffOf(t)
	if !ok {
		return
	}
	from, to := map[*Term]int64{}, map[*Term]int64{}   // the bounds of x-z and z-y
	from2, to2 := map[*Term]int64{}, map[*Term]int64{} // the bounds of y-z and z-x
	edge := func(a, b *Term, w int64) {                // a-b <= w
		put := func(m map[*Term]int64, z *Term) {
			if v, ok := m[z]; !ok || w < v {
				m[z] = w
			}
		}
		switch {
		case a == x:
			put(from, b)
		case a == y:
			put(from2, b)
		}
		switch {
		case b == y:
			put(to, a)
		case b == x:
			put(to2, a)
		}
	}
	const big = int64(1) << 40
	for s, h := range f.hi {
		if a, b, ok := diffOf(s); ok && h < big && h > -big {
			edge(a, b, h-s.k)
		}
	}
	for s, l := range f.lo {
		if a, b, ok := diffOf(s); ok && l < big && l > -big {
			edge(b, a, s.k-l)
		}
	}
	for z, w := range from {
		if w2, ok := to[z]; ok && w+w2+t.k < hi {
			hi = w + w2 + t.k
		}
	}
	for z, w := range from2 {
		if w2, ok := to2[z]; ok && t.k-w-w2 > lo {
			lo = t.k - w - w2
		}
	}
	return
}

// diffOf returns x and y for x-y+k.
func diffOf(t *Term) (x, y *Term, ok bool) {
	if t.op != "lin" || len(t.args) != 2 {
		return nil, nil, false
	}
	switch {
	case t.coef[0] == 1 && t.coef[1] == -1:
		return t.args[0], t.args[1], true
	case t.coef[0] == -1 && t.coef[1] == 1:
		return t.args[1], t.args[0], true
	}
	return nil, nil, false
}

// unbounded reports whether a comparison of numbers is decided but not how often it remains so.
func (f *Facts) unbounded(c *Term) bool {
	if c.op == "not" {
		return f.unbounded(c.args[0])
	}
	if c.op == "eq" {
		k, ok := c.args[1].intConst()
		return ok && c.args[0].op == "len" && f.loOf(c.args[0]) > k && f.hiOf(c.args[0]) > 1<<32
	}
	if c.op != "lt" {
		return false
	}
	k, ok := c.args[1].intConst()
	if !ok || c.args[0].op == "const" {
		return false
	}
	lo, hi := f.loOf(c.args[0]), f.hiOf(c.args[0])
	return hi < k && lo < -1<<32 || lo >= k && hi > 1<<32
}

func lookupKeyOf(args []*Term) string {
	s := "lookup|"
	for _, a := range args {
		s += "|" + strconv.Itoa(a.id)
	}
	return s
}

func typeMatches(dyn, want types.Type) bool {
	if i, ok := want.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, i)
	}
	return types.Identical(dyn, want)
}

func (f *Facts) nonNil(t *Term) bool {
	if f.ts.nonNil(t) {
		return true
	}
	if t.op == "lookup" && f.ts.elemNeverNil(t.args[0].typ) {
		if v, ok := f.known[f.ts.mk("has", "", types.Typ[types.Bool], t.args...)]; ok && v {
			return true
		}
	}
	if f.neq[t] != nil {
		for c := range f.neq[t] {
			if c.op == "nil" {
				return true
			}
		}
	}
	_, ok := f.typ[t]
	return ok
}

func (ts *Terms) eqConst(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "const" && b.op == "const" && a.cv.Kind() == b.cv.Kind() {
		return a.aux == b.aux
	}
	return false
}

// assume adds a condition. It returns false if the condition contradicts the facts.
func (f *Facts) assume(c *Term, val bool) bool {
	if c.op == "not" {
		return f.assume(c.args[0], !val)
	}
	if v, ok := f.eval(c); ok {
		if v != val {
			return false
		}
		if _, isC := c.isBoolConst(); isC {
			return true
		}
		f.known[c] = val
		return true
	}
	f.known[c] = val
	if f.nonEmptyPart(c, val); !f.assumeFix(c, val) || !f.assumeSmall(c, val) {
		return false
	}
	if val {
		f.order = append(f.order, c)
	} else {
		f.order = append(f.order, f.ts.not(c))
	}
	switch c.op {
	case "eq":
		a, b := c.args[0], c.args[1]
		if a.op == "elem" && isString(a.args[0].typ0()) {
			// The byte exists.
			if i, ok := a.args[1].intConst(); ok && f.loOf(f.lenT(a.args[0])) <= i {
				f.lo[f.lenT(a.args[0])] = i + 1
			}
		}
		if b.isConst() {
			if val {
				return f.setConst(a, b)
			}
			f.addNeq(a, b)
			if v, ok := b.strConst(); ok && v == "" && f.loOf(f.lenT(a)) < 1 {
				f.lo[f.lenT(a)] = 1
			}
			if k, ok := b.intConst(); ok {
				if k == f.loOf(a) {
					f.lo[a] = k + 1
				}
				if k == f.hiOf(a) {
					f.hi[a] = k - 1
				}
				if l, h := f.loOf(a), f.hiOf(a); l > h {
					return false
				} else if l == h {
					return f.setConst(a, f.ts.intT(l))
				}
			}
		} else if val {
			if vb, ok := f.value(b); ok {
				return f.setConst(a, vb)
			}
			if va, ok := f.value(a); ok {
				return f.setConst(b, va)
			}
			if f.nonNil(a) && !f.nonNil(b) {
				f.addNeq(b, f.ts.nilT(nil))
			} else if f.nonNil(b) && !f.nonNil(a) {
				f.addNeq(a, f.ts.nilT(nil))
			}
		}
	case "lt":
		if k, ok := c.args[1].intConst(); ok {
			a := c.args[0]
			if val {
				if k-1 < f.hiOf(a) {
					f.hi[a] = k - 1
				}
			} else if k > f.loOf(a) {
				f.lo[a] = k
			}
			if l, h := f.loOf(a), f.hiOf(a); l == h {
				return f.setConst(a, f.ts.intT(l))
			} else if l > h {
				return false
			}
		}
	case "istype":
		if val {
			x := c.args[0]
			f.addNeq(x, f.ts.nilT(nil))
			if _, isI := c.typ.Underlying().(*types.Interface); !isI {
				f.typ[x] = c.typ
			}
		}
	case "has":
		if val {
			f.addNeq(c.args[0], f.ts.nilT(nil))
			if n := f.lenT(c.args[0]); f.loOf(n) < 1 {
				f.lo[n] = 1
			}
		}
	case "is": // errors.Is(err, target) with a non-nil target
		if val {
			f.addNeq(c.args[0], f.ts.nilT(nil))
		}
	case "as":
		if val {
			f.addNeq(c.args[0], f.ts.nilT(nil))
		}
	}
	return true
}

// nonEmptyPart: a text is not empty if it is not empty without its spaces or if it starts or ends with a text.
func (f *Facts) nonEmptyPart(c *Term, val bool) {
	call := func(t *Term) *Term {
		if t.op == "res" && t.aux == "0" && t.args[0].op == "call" {
			return t.args[0]
		}
		return nil
	}
	if c.op == "eq" && !val {
		if v, ok := c.args[1].strConst(); ok && v == "" {
			if k := call(c.args[0]); k != nil && (k.aux == "strings.TrimSpace" || k.aux == "strings.ToUpper" || k.aux == "strings.ToLower") {
				f.assume(f.ts.eq2(k.args[0], c.args[1]), false)
			}
		}
	}
	if k := call(c); k != nil && val && (k.aux == "strings.HasPrefix" || k.aux == "strings.HasSuffix") {
		if v, ok := k.args[1].strConst(); ok && v != "" {
			f.assume(f.ts.eq2(k.args[0], f.ts.strT("")), false)
		}
	}
}

// remainder decides x%n == k with the known remainders of multiples and divisors of n.
func (f *Facts) remainder(a *Term, k int64) (bool, bool) {
	n, ok := remOf(a)
	if !ok {
		return false, false
	}
	for t, v := range f.eqc {
		m, ok := remOf(t)
		r, ok2 := v.intConst()
		if ok && ok2 && t.args[0] == a.args[0] && m%n == 0 && r >= 0 {
			return r%n == k, true
		}
	}
	if k == 0 {
		for t, m := range f.neq {
			d, ok := remOf(t)
			if ok && t.args[0] == a.args[0] && n%d == 0 && m[f.ts.intT(0)] {
				return false, true
			}
		}
	}
	return false, false
}

// remOf returns n of x%n for a positive constant n.
func remOf(t *Term) (int64, bool) {
	if t.op != "bin%" {
		return 0, false
	}
	n, ok := t.args[1].intConst()
	return n, ok && n > 0
}

func (f *Facts) addNeq(a, b *Term) {
	if f.neq[a] == nil {
		f.neq[a] = map[*Term]bool{}
	}
	f.neq[a][b] = true
}

func (f *Facts) setConst(a, b *Term) bool {
	if k, ok := b.intConst(); ok {
		if k < f.loOf(a) || k > f.hiOf(a) {
			return false
		}
	}
	if b.op == "nil" && f.nonNil(a) {
		return false
	}
	f.eqc[a] = b
	if v, ok := b.strConst(); ok {
		n := f.lenT(a)
		if k := int64(len(v)); k < f.loOf(n) || k > f.hiOf(n) {
			return false
		}
		f.eqc[n] = f.ts.intT(int64(len(v)))
	}
	return true
}

// simp rewrites a term with the known constants.
func (f *Facts) simp(t *Term) *Term { return f.simpM(t, map[*Term]*Term{}) }

func (f *Facts) simpM(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := f.simp1(t, memo)
	memo[t] = r
	return r
}

func (f *Facts) simp1(t *Term, memo map[*Term]*Term) *Term {
	if t.isConst() || t.op == "param" || t.op == "global" || t.op == "alloc" {
		if c, ok := f.eqc[t]; ok {
			return c
		}
		return t
	}
	if c, ok := f.eqc[t]; ok {
		return c
	}
	if isBool(t.typ0()) {
		if v, ok := f.eval(t); ok {
			return f.ts.boolT(v)
		}
	}
	if len(t.args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = f.simpM(a, memo)
		if args[i] != a {
			changed = true
		}
	}
	switch t.op {
	case "prefix": // the elements of a list that have been seen so far
		if v, ok := f.eval(f.ts.bin(token.LSS, args[1], args[2], types.Typ[types.Bool], types.Typ[types.Int])); ok && !v {
			return args[0]
		}
	case "lookup":
		if v, ok := f.eval(f.ts.mk("has", "", types.Typ[types.Bool], t.args...)); ok && !v && t.typ != nil {
			return f.ts.zero(t.typ)
		}
	}
	if !changed {
		return t
	}
	switch t.op {
	case "conv":
		if v, ok := args[0].intConst(); ok && t.aux == "int32" && isString(t.typ) {
			return f.ts.strT(string(rune(v)))
		}
	case "concat":
		r := f.ts.strT("")
		for _, a := range args {
			r = f.ts.concat(r, a)
		}
		return r
	case "lin":
		l := linForm{map[*Term]int64{}, t.k}
		for i, a := range args {
			la, ok := toLin(a)
			if !ok {
				return t
			}
			l = l.add(la, t.coef[i])
		}
		return f.ts.fromLin(l, t.typ)
	case "eq":
		return f.ts.eq2(args[0], args[1])
	case "not":
		return f.ts.not(args[0])
	}
	r := f.ts.mkf(t.op, t.aux, t.typ, t.fn, args...)
	r.nn = r.nn || t.nn
	return r
}

// describe lists the conditions of a path.
func (f *Facts) describe(max int) string {
	var s []string
	for _, c := range f.order {
		s = append(s, c.String())
	}
	if len(s) > max {
		s = append(s[:max], "… "+strconv.Itoa(len(s)-max)+" more")
	}
	out := ""
	for i, x := range s {
		if i > 0 {
			out += " && "
		}
		out += x
	}
	if out == "" {
		return "always"
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
