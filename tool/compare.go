package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rel compares the summaries of a function of the repository with those of its specification.
type Rel struct {
	x          *Exec
	ignore     func(*Event) bool // events that are not observable for the property
	ignoreHeap func(addr *Term) bool
	setup      func(x *Exec, st *State, args []*Term) // assumptions about the arguments
	depth      int
	pairs      int
	implPaths  int
	diffs      []Diff
	maxDiffs   int
	closures   map[string]bool
	resultEq   func(i int, a, b *Term) (bool, bool)
	ignoreVals bool
	panics     bool            // only panics are compared
	subject    string          // the function of the module
	safeFn     *ssa.Function   // what must hold for the results
	alts       []*ssa.Function // further definitions that mean the same
}

// Diff is one disagreement.
type Diff struct {
	fn   string
	pos  token.Pos
	what string
	cond string
}

func (r *Rel) compare(impl, spec *ssa.Function, args []*Term, bindA, bindB []*Term, base *State) {
	x := r.x
	if args == nil {
		for _, p := range impl.Params {
			args = append(args, x.param(p.Name(), p.Type()))
		}
		if len(spec.Params) != len(impl.Params) {
			r.diffs = append(r.diffs, Diff{fn: impl.String(), pos: impl.Pos(), what: "the parameters have changed"})
			return
		}
		for i := range impl.Params {
			if !types.Identical(impl.Params[i].Type(), spec.Params[i].Type()) {
				r.diffs = append(r.diffs, Diff{fn: impl.String(), pos: impl.Pos(), what: "the parameters have changed"})
				return
			}
		}
	}
	if base == nil {
		base = x.newState()
	}
	if r.setup != nil {
		r.setup(x, base, args)
	}
	pa := x.run(base.clone(), impl, args, bindA)
	if len(pa) == 0 {
		r.diffs = append(r.diffs, Diff{fn: impl.String(), pos: impl.Pos(), what: "no path reaches the end of the function"})
	}
	for _, a := range pa {
		r.implPaths++
		st := base.clone()
		st.facts = a.st.facts.clone()
		pb := x.run(st, spec, args, bindB)
		if len(pb) == 0 {
			r.add(impl, a, a.st.facts, "this path does not exist in the specification")
		}
		for _, b := range pb {
			r.pairs++
			r.compareOutcome(impl, base, base, a, b)
			if len(r.diffs) >= r.maxDiffs {
				return
			}
		}
	}
}

func (r *Rel) add(impl *ssa.Function, p *Path, f *Facts, what string) {
	r.diffs = append(r.diffs, Diff{fn: impl.String(), pos: p.pos, what: what, cond: f.describe(40)})
}

func (r *Rel) compareOutcome(impl *ssa.Function, base, baseB *State, a, b *Path) {
	f := b.st.facts
	if r.panics {
		r.comparePanics(impl, base, baseB, a, b)
		return
	}
	if a.kind != b.kind {
		r.add(impl, a, f, fmt.Sprintf("the path ends with %q, specified is %q%s", kindName(a), kindName(b), descVals(r, b)))
		return
	}
	ea, eb := r.events(a), r.events(b)
	for i := 0; i < len(ea) || i < len(eb); i++ {
		switch {
		case i >= len(ea):
			r.add(impl, a, f, "missing effect: "+eb[i].String())
			return
		case i >= len(eb):
			r.diffs = append(r.diffs, Diff{fn: impl.String(), pos: ea[i].pos, what: "unspecified effect: " + ea[i].String(), cond: f.describe(40)})
			return
		}
		if d := r.eventDiff(ea[i], eb[i], a, b); d != "" {
			r.diffs = append(r.diffs, Diff{fn: impl.String(), pos: ea[i].pos, what: d, cond: f.describe(40)})
			return
		}
	}
	if a.kind == "back" {
		if a.loop.ord != b.loop.ord {
			r.add(impl, a, f, "another loop is continued")
			return
		}
		nb := map[*Term]*Term{}
		ib := map[*Term]*Term{}
		for i, v := range b.loop.hv {
			nb[v.hv] = b.nexts[i]
			ib[v.hv] = v.init
		}
		for i, v := range a.loop.hv {
			if n, ok := ib[v.hv]; ok && n != v.init && v.addr != nil && rootOf(v.addr).op != "alloc" {
				r.add(impl, a, f, fmt.Sprintf("%s is %s before the loop, specified is %s", v.addr, f.simp(r.x.freeze(a.st, v.init)), f.simp(r.x.freeze(b.st, n))))
				return
			}
			if n, ok := nb[v.hv]; ok && v.addr == nil || ok && rootOf(v.hv).op != "ld" {
				if !r.eq(a.nexts[i], n, a, b, 0) {
					r.add(impl, a, f, fmt.Sprintf("the loop continues with %s, specified is %s", f.simp(r.x.freeze(a.st, a.nexts[i])), f.simp(r.x.freeze(b.st, n))))
					return
				}
			}
		}
		if d := r.loopState(a, b); d != "" {
			r.add(impl, a, f, d)
			return
		}
	}
	if a.kind == "return" && !r.ignoreVals {
		if len(a.vals) != len(b.vals) {
			r.add(impl, a, f, "the number of results differs")
			return
		}
		for i := range a.vals {
			if r.resultEq != nil {
				if eq, ok := r.resultEq(i, a.vals[i], b.vals[i]); ok {
					if !eq {
						r.add(impl, a, f, fmt.Sprintf("result %d differs", i))
					}
					continue
				}
			}
			if !r.eq(a.vals[i], b.vals[i], a, b, 0) {
				if n := len(a.vals) - 1; i < n && f.nonNil(f.simp(b.vals[n])) && (passed(a.vals, i, b.vals[i]) || passed(b.vals, i, a.vals[i])) && r.eq(a.vals[n], b.vals[n], a, b, 0) {
					continue
				}
				r.add(impl, a, f, fmt.Sprintf("result %d is %s, specified is %s", i, f.simp(r.x.freeze(a.st, a.vals[i])), f.simp(r.x.freeze(b.st, b.vals[i]))))
				return
			}
		}
	}
	ha, hb := r.heap(base, a.st, f), r.heap(baseB, b.st, f)
	for _, key := range mergeKeys(ha, hb) {
		if a.kind == "back" && beforeLoop(key, a.loop, b.loop) {
			continue // compared after the loop
		}
		va, oka := ha[key]
		vb, okb := hb[key]
		if !oka {
			va = r.x.load(base, key, elemType(key))
		}
		if !okb {
			vb = r.x.load(baseB, key, elemType(key))
		}
		if key.op == "allocmap" || strings.HasPrefix(key.op, "map") {
			if !oka || !okb {
				r.add(impl, a, f, fmt.Sprintf("the map %s is changed differently than specified", key))
				return
			}
		}
		if !r.eq(va, vb, a, b, 0) {
			r.add(impl, a, f, fmt.Sprintf("%s is set to %s, specified is %s", key, f.simp(r.x.freeze(a.st, va)), f.simp(r.x.freeze(b.st, vb))))
			return
		}
	}
	ma, mb := r.mapsOf(base, a.st), r.mapsOf(baseB, b.st)
	for _, key := range mergeKeys(ma, mb) {
		va, oka := ma[key]
		vb, okb := mb[key]
		if !oka || !okb || !r.eq(va, vb, a, b, 0) {
			r.add(impl, a, f, fmt.Sprintf("the map %s is changed differently than specified", key))
			return
		}
	}
}

// beforeLoop reports whether a cell has in every iteration the value it had before the loop.
func beforeLoop(key *Term, loops ...*loopRec) bool {
	if key.op != "fld" {
		return false
	}
	for t := key; ; t = t.args[0] {
		if t.op == "param" {
			break
		}
		if t.op != "fld" {
			return false
		}
	}
	for _, l := range loops {
		for _, v := range l.hv {
			if v.addr == key {
				return false
			}
		}
	}
	return true
}

// loopState compares the maps and arrays that an iteration changes.
func (r *Rel) loopState(a, b *Path) string {
	if len(a.loop.maps) != len(b.loop.maps) {
		return fmt.Sprintf("an iteration changes %d maps, specified are %d", len(a.loop.maps), len(b.loop.maps))
	}
	for i, m := range a.loop.maps {
		va := r.x.freezeMap(a.st, m, map[*Term]*Term{})
		vb := r.x.freezeMap(b.st, b.loop.maps[i], map[*Term]*Term{})
		f := b.st.facts
		va, vb = f.simp(va), f.simp(vb)
		if va != vb && !r.eqF(va, vb, a, b, 0) {
			return fmt.Sprintf("an iteration makes a map %s, specified is %s", va, vb)
		}
	}
	if len(a.loop.dirty) != len(b.loop.dirty) {
		return fmt.Sprintf("an iteration changes %d arrays, specified are %d", len(a.loop.dirty), len(b.loop.dirty))
	}
	for i, d := range a.loop.dirty {
		va, vb := r.x.arrayState(a.st, d, map[*Term]*Term{}), r.x.arrayState(b.st, b.loop.dirty[i], map[*Term]*Term{})
		f := b.st.facts
		va, vb = f.simp(va), f.simp(vb)
		if va != vb && !r.eqF(va, vb, a, b, 0) {
			return fmt.Sprintf("an iteration makes an array %s, specified is %s", va, vb)
		}
	}
	return ""
}

func kindName(p *Path) string {
	switch p.kind {
	case "back":
		return "next iteration"
	}
	return p.kind
}

func descVals(r *Rel, p *Path) string {
	if p.kind != "return" {
		return ""
	}
	var s []string
	for _, v := range p.vals {
		s = append(s, p.st.facts.simp(r.x.freeze(p.st, v)).String())
	}
	return " (" + strings.Join(s, ", ") + ")"
}

func mergeKeys(a, b map[*Term]*Term) []*Term {
	m := map[*Term]bool{}
	var l []*Term
	for k := range a {
		m[k] = true
		l = append(l, k)
	}
	for k := range b {
		if !m[k] {
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func (r *Rel) events(p *Path) []*Event {
	var out []*Event
	for _, e := range p.st.events {
		if r.ignore != nil && r.ignore(e) {
			continue
		}
		out = append(out, e)
	}
	return out
}

func (e *Event) String() string {
	var s []string
	for _, a := range e.args {
		s = append(s, a.String())
	}
	return fmt.Sprintf("%s %s(%s)", e.kind, shortPkg(e.name), strings.Join(s, ", "))
}

func (r *Rel) eventDiff(a, b *Event, pa, pb *Path) string {
	f := pb.st.facts
	if a.kind == "loop" && b.kind == "loop" {
		if a.name != b.name {
			return "another loop is executed"
		}
		return ""
	}
	if a.kind != b.kind || a.name != b.name || len(a.args) != len(b.args) {
		return fmt.Sprintf("%s, specified is %s", a, b)
	}
	for i := range a.args {
		if !r.eq(a.args[i], b.args[i], pa, pb, 0) {
			return fmt.Sprintf("argument %d of %s is %s, specified is %s", i, shortPkg(a.name), f.simp(a.args[i]), f.simp(b.args[i]))
		}
	}
	return ""
}

// heap returns the changes of memory that existed before the call.
func (r *Rel) heap(base, st *State, f *Facts) map[*Term]*Term {
	res := map[*Term]*Term{}
	for a, v := range st.mem {
		root := rootOf(a)
		if root.op == "alloc" || root.op == "newobj" || computedSeq(root) {
			continue
		}
		if r.ignoreHeap != nil && r.ignoreHeap(a) {
			continue
		}
		if bv, ok := base.mem[a]; ok {
			if bv == v {
				continue
			}
		} else if r.x.load(base, a, elemType(a)) == v {
			continue
		}
		res[a] = v
	}
	return res
}

func (r *Rel) mapsOf(base, st *State) map[*Term]*Term {
	res := map[*Term]*Term{}
	for m, ms := range st.maps {
		if m.op == "allocmap" {
			continue
		}
		if len(ms.ups) == 0 && ms.tag == nil {
			continue
		}
		res[m] = r.x.freezeMap(st, m, map[*Term]*Term{})
	}
	return res
}

// eq decides whether two values are equal under the facts of both paths.
func (r *Rel) eq(a, b *Term, pa, pb *Path, d int) bool {
	if a == b && a.op != "clo" && a.op != "alloc" {
		return true
	}
	f := pb.st.facts
	a = f.simp(r.x.freeze(pa.st, a))
	b = f.simp(r.x.freeze(pb.st, b))
	return r.eqF(a, b, pa, pb, d)
}

// copyOf strips a copy of a sequence: append(empty, x...) holds the elements of x.
func copyOf(t *Term) *Term {
	for t.op == "append" && (t.args[0].op == "nil" || t.args[0].op == "seq" && len(t.args[0].args) == 0) {
		t = cloneOf(t.args[1])
	}
	return t
}

// cloneOf strips slices.Clone.
func cloneOf(t *Term) *Term {
	for t.op == "res" && len(t.args) == 1 && strings.HasPrefix(t.args[0].aux, "slices.Clone") {
		t = t.args[0].args[len(t.args[0].args)-1]
	}
	return t
}

// isAnySlice reports whether a value is the list of operands of a format.
func isAnySlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

// emptySeq reports whether a slice is known to have no elements.
func (r *Rel) emptySeq(t *Term, f *Facts) bool {
	if t.op == "nil" || t.op == "seq" && len(t.args) == 0 {
		return true
	}
	if t.typ == nil {
		return false
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return false
	}
	v, ok := f.eval(r.x.ts.bin(token.EQL, r.x.ts.mk("len", "", types.Typ[types.Int], t), r.x.ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int]))
	return ok && v
}

func (r *Rel) eqF(a, b *Term, pa, pb *Path, d int) bool {
	if d > 40 {
		return false
	}
	if isFuncTerm(a) && isFuncTerm(b) {
		return r.eqFunc(a, b, pa, pb)
	}
	if a.op == "order" && b.op == "order" {
		return r.eqF(a.args[0], b.args[0], pa, pb, d+1) && r.eqOrder(a, b, pa, pb)
	}
	if a == b {
		return true
	}
	if v, ok := pb.st.facts.eval(r.x.ts.eq2(a, b)); ok && v {
		return true
	}
	// a nil slice and an empty slice hold the same elements
	if ca, cb := copyOf(a), copyOf(b); ca != a || cb != b {
		return r.eqF(ca, cb, pa, pb, d+1)
	}
	// the operands of a format: a copy of them does as well
	if ca, cb := cloneOf(a), cloneOf(b); d > 0 && isAnySlice(a.typ) && (ca != a || cb != b) {
		return r.eqF(ca, cb, pa, pb, d+1)
	}
	if r.emptySeq(a, pb.st.facts) && r.emptySeq(b, pb.st.facts) && (a.op != "nil" || b.op != "nil") {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	if a.aux != b.aux {
		return false
	}
	switch a.op {
	case "agg", "iface", "conv", "zero", "newobj", "newmap", "mkslice", "istype", "asserted":
		if typeKey(a.typ) != typeKey(b.typ) {
			return false
		}
	case "lin":
		return false
	}
	for i := range a.args {
		if !r.eqF(a.args[i], b.args[i], pa, pb, d+1) {
			return false
		}
	}
	return true
}

func isFuncTerm(t *Term) bool { return t.op == "clo" || t.op == "fn" }

// eqFunc compares two function values by comparing their summaries for arbitrary arguments.
func (r *Rel) eqFunc(a, b *Term, pa, pb *Path) bool {
	if a == b && (a.op == "fn" || len(a.args) == 0) {
		return true
	}
	if a.fn == nil || b.fn == nil || r.depth > 4 {
		return false
	}
	var args []*Term
	for i, p := range a.fn.Params {
		args = append(args, r.x.param(fmt.Sprintf("cb%d.%d", r.depth, i), p.Type()))
	}
	if len(a.fn.Params) != len(b.fn.Params) {
		return false
	}
	sub := &Rel{x: r.x, ignore: r.ignore, ignoreHeap: r.ignoreHeap, depth: r.depth + 1, maxDiffs: 1}
	// The captured variables have the values at the end of the path.
	sub.compareClosures(a, b, args, pa, pb)
	r.pairs += sub.pairs
	r.implPaths += sub.implPaths
	if len(sub.diffs) > 0 {
		r.diffs = append(r.diffs, sub.diffs...)
		return true // reported in detail
	}
	return true
}

func (r *Rel) compareClosures(a, b *Term, args []*Term, pa, pb *Path) {
	x := r.x
	base := pa.st.clone()
	base.events = nil
	base.facts = pb.st.facts.clone()
	baseB := pb.st.clone()
	baseB.events = nil
	baseB.facts = base.facts
	// loops are counted from the same number on both sides
	base.nloop, baseB.nloop = 100*(r.depth+1), 100*(r.depth+1)
	base.occ, baseB.occ = map[string]int{}, map[string]int{}
	for _, p := range x.run(base.clone(), a.fn, args, a.args) {
		r.implPaths++
		st := baseB.clone()
		st.facts = p.st.facts.clone()
		qs := x.run(st, b.fn, args, b.args)
		if len(qs) == 0 {
			r.add(a.fn, p, p.st.facts, "this path does not exist in the specification")
		}
		for _, q := range qs {
			r.pairs++
			r.compareOutcome(a.fn, base, baseB, p, q)
			if len(r.diffs) >= r.maxDiffs {
				return
			}
		}
	}
}

// passed reports whether a result is handed on from the same call as the error that is returned with it, where nothing is
// expected: functions return nothing of value together with an error.
func passed(vals []*Term, i int, want *Term) bool {
	v, err := vals[i], vals[len(vals)-1]
	return isErrorType(err.typ) && (want.op == "nil" || want.op == "zero") && v.op == "res" && err.op == "res" && v.args[0] == err.args[0]
}
