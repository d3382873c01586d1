package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable effect of a path: a call that leaves the analysed code.
type Event struct {
	kind string // call, invoke, callfn, loop, go, mapset, panic
	name string
	args []*Term
	res  *Term
	pos  token.Pos
	fn   *ssa.Function
}

type mapUpd struct {
	key, val *Term // val nil: deleted
}

type mapState struct {
	fresh bool
	base  *Term // contents copied from another map
	tag   *Term // unknown contents after a loop or call
	ups   []mapUpd
}

// State is the abstract machine state of one path.
type State struct {
	mem    map[*Term]*Term
	maps   map[*Term]*mapState
	dirty  map[*Term]*Term
	facts  *Facts
	events []*Event
	occ    map[string]int
	nloop  int
	lens   map[*Term]*Term
	access []*access // operations that may panic
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)), maps: make(map[*Term]*mapState, len(s.maps)), dirty: map[*Term]*Term{}, facts: s.facts.clone(), events: s.events[:len(s.events):len(s.events)], occ: make(map[string]int, len(s.occ)), nloop: s.nloop, lens: make(map[*Term]*Term, len(s.lens)), access: s.access[:len(s.access):len(s.access)]}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = &mapState{fresh: v.fresh, base: v.base, tag: v.tag, ups: v.ups[:len(v.ups):len(v.ups)]}
	}
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	for k, v := range s.occ {
		n.occ[k] = v
	}
	for k, v := range s.lens {
		n.lens[k] = v
	}
	return n
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopRec struct {
	info  *loopInfo
	ord   int
	hv    []loopVar // havocked variables in canonical order
	maps  []*Term   // maps that an iteration changes, in canonical order
	dirty []*Term   // arrays that an iteration changes at unknown indices
	fr    *frame
	iterK *Term
}

type loopVar struct {
	text bool // the text of a variable of type []byte
	hv   *Term
	phi  *ssa.Phi // either a phi
	addr *Term    // or a memory cell
	init *Term
	ind  bool
	typ  types.Type
}

type deferred struct {
	call *ssa.CallCommon
	pos  token.Pos
	fnv  *Term
	args []*Term
}

type frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]*Term
	visits  map[*ssa.BasicBlock]int
	widened map[*ssa.BasicBlock]*loopRec
	defers  []deferred
	stack   []*ssa.Function
	probe   *loopRec
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]*Term, len(f.env)), visits: map[*ssa.BasicBlock]int{}, widened: map[*ssa.BasicBlock]*loopRec{}, defers: f.defers[:len(f.defers):len(f.defers)], stack: f.stack, probe: f.probe}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	for k, v := range f.widened {
		n.widened[k] = v
	}
	return n
}

// Path is the summary of one abstract path.
type Path struct {
	kind  string // return, panic, back
	vals  []*Term
	st    *State
	loop  *loopRec
	nexts []*Term
	pos   token.Pos
}

type budgetError struct{ msg string }

// Exec explores the paths of a function in the abstract domain.
type Exec struct {
	bounds   bool // operations that may panic are examined
	accesses int
	orders   map[[2]*ssa.Function]bool // sort functions that were compared
	w        *World
	ts       *Terms
	nalloc   int
	opaque   map[string]string // function name -> "pure" or "event"
	pureInv  func(m *types.Func) bool
	pureFn   func(t types.Type) bool
	loops    map[*ssa.Function][]*loopInfo
	npaths   int
	maxPaths int
	steps    int
	maxSteps int
	inlined  map[*ssa.Function]bool
	ncalls   int
	rec      int  // how often a function may be inlined in itself
	strict   bool // texts of errors are significant
	unroll   int

	bytesAsText bool // []byte is the conversion of a text, appending to it is concatenation
	splitEmpty  bool // a loop that is not executed at all is a case of its own
	splitCases  bool // strings.Split with up to two parts is two cases
	unfold      bool // opaque functions are analysed once more
	unfoldLoops bool // and those with loops, too
	nprobe      int
	globals     func(x *Exec, addr *Term, t types.Type) *Term // constant tables
	extIn       map[string]bool                               // external functions that are inlined
	allocTyp    map[*Term]types.Type
	branches    map[token.Pos]bool
	noMerge     bool
	initSt      *State            // values of package variables after initialisation
	initOk      map[string]bool   // package variables that are not changed later
	alias       map[string]string // functions that are treated as the same unknown function
}

func newExec(w *World) *Exec {
	ts := newTerms()
	ts.nnMaps = w.nonNilMaps()
	return &Exec{w: w, ts: ts, opaque: map[string]string{}, loops: map[*ssa.Function][]*loopInfo{}, maxPaths: 60000, maxSteps: 6000000, inlined: map[*ssa.Function]bool{}, unroll: 300, extIn: map[string]bool{}, allocTyp: map[*Term]types.Type{}, branches: map[token.Pos]bool{}}
}

func (x *Exec) newState() *State {
	return &State{mem: map[*Term]*Term{}, maps: map[*Term]*mapState{}, dirty: map[*Term]*Term{}, facts: newFacts(x.ts), occ: map[string]int{}, lens: map[*Term]*Term{}}
}

type cont func(st *State, kind string, vals []*Term, pos token.Pos)

func (x *Exec) param(name string, t types.Type) *Term {
	return x.ts.mk("param", name, t)
}

// run explores fn with the given arguments and returns the summaries of all paths.
func (x *Exec) run(st *State, fn *ssa.Function, args, bindings []*Term) []*Path {
	var out []*Path
	sink := func(p *Path) {
		out = append(out, p)
		x.npaths++
		if x.npaths > x.maxPaths {
			panic(budgetError{"too many paths in " + fn.String()})
		}
	}
	x.callFn(st, fn, args, bindings, nil, sink, func(st *State, kind string, vals []*Term, pos token.Pos) {
		sink(&Path{kind: kind, vals: vals, st: st, pos: pos})
	})
	return out
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bindings []*Term, stack []*ssa.Function, sink func(*Path), k cont) {
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, visits: map[*ssa.BasicBlock]int{}, widened: map[*ssa.BasicBlock]*loopRec{}, stack: append(stack[:len(stack):len(stack)], fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = x.param(p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[v] = bindings[i]
		} else {
			fr.env[v] = x.param("free:"+v.Name(), v.Type())
		}
	}
	x.inlined[fn] = true
	if len(fn.Blocks) == 0 {
		panic(budgetError{"no body for " + fn.String()})
	}
	x.block(fr, st, fn.Blocks[0], nil, sink, k)
}

func (x *Exec) loopsOf(fn *ssa.Function) []*loopInfo {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	var res []*loopInfo
	byHeader := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) && !x.w.synth[s] {
				li := byHeader[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = li
					res = append(res, li)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[c] {
						continue
					}
					li.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	x.loops[fn] = res
	return res
}

func (x *Exec) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	for _, l := range x.loopsOf(fn) {
		if l.header == b {
			return l
		}
	}
	return nil
}

func (x *Exec) val(fr *frame, st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.ts.zero(c.Type())
		}
		return x.ts.konst(c.Value, c.Type())
	case *ssa.Global:
		return x.ts.mk("global", c.String(), c.Type())
	case *ssa.Function:
		return x.ts.mkf("fn", c.String(), c.Type(), c)
	case *ssa.Builtin:
		return x.ts.mk("builtin", c.Name(), c.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return x.ts.mk("undef", fr.fn.String()+":"+v.Name(), v.Type())
}

// phiValues evaluates the phis of b for the edge from pred.
func (x *Exec) phiValues(fr *frame, st *State, b, pred *ssa.BasicBlock) map[*ssa.Phi]*Term {
	res := map[*ssa.Phi]*Term{}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
			break
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 {
			res[phi] = x.val(fr, st, phi.Edges[idx])
		}
	}
	return res
}

func (x *Exec) block(fr *frame, st *State, b, pred *ssa.BasicBlock, sink func(*Path), k cont) {
	if fr.probe != nil && fr.probe.fr == nil && !fr.probe.info.blocks[b] {
		return
	}
	if pred != nil {
		if li := x.loopAt(fr.fn, pred); li != nil && !li.blocks[b] { // the end of a loop
			for _, in := range pred.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if v := fr.env[phi]; v != nil && v.op == "prefix" {
					fr.env[phi] = st.facts.simp(v)
				}
			}
		}
	}
	phis := x.phiValues(fr, st, b, pred)
	if li := x.loopAt(fr.fn, b); li != nil {
		inside := pred != nil && li.blocks[pred]
		if !inside {
			delete(fr.visits, b)
			delete(fr.widened, b)
		}
		if rec := fr.widened[b]; rec != nil && inside {
			// One abstract iteration is complete.
			nexts := make([]*Term, len(rec.hv))
			for i, lv := range rec.hv {
				if lv.phi != nil {
					nexts[i] = phis[lv.phi]
					if lv.text {
						nexts[i] = x.byteText(st, nexts[i])
					}
				} else {
					nexts[i] = x.load(st, lv.addr, lv.typ)
				}
			}
			sink(&Path{kind: "back", st: st, loop: rec, nexts: nexts, pos: blockPos(b)})
			return
		}
		fr.visits[b]++
		if fr.widened[b] == nil {
			if fr.visits[b] > x.unroll || !x.headerDecided(fr, st, b, phis) {
				if x.splitEmpty && !inside && fr.probe == nil {
					st2, fr2 := st.clone(), fr.clone()
					if x.assumeNotEntered(fr2, st2, b, li, phis) {
						for phi, v := range phis {
							fr2.env[phi] = v
						}
						x.instrs(fr2, st2, b, 0, sink, k)
					}
					if !x.assumeEntered(fr.clone(), st, b, li, phis) {
						return
					}
				}
				x.widen(fr, st, b, li, phis, sink, k)
				return
			}
		}
	}
	for phi, v := range phis {
		fr.env[phi] = v
	}
	x.instrs(fr, st, b, 0, sink, k)
}

// entry returns the condition of a loop for its first iteration and whether it stays in the loop if it holds.
func (x *Exec) entry(fr *frame, st *State, b *ssa.BasicBlock, li *loopInfo, phis map[*ssa.Phi]*Term) (*Term, bool, bool) {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || li.blocks[b.Succs[0]] == li.blocks[b.Succs[1]] {
		return nil, false, false
	}
	f2, s2 := fr.clone(), st.clone()
	for phi, v := range phis {
		f2.env[phi] = v
	}
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			bi, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return nil, false, false
			}
			f2.env[i] = x.lenOf(s2, x.val(f2, s2, i.Call.Args[0]))
		case ssa.Value:
			t, ok := x.pureValue(f2, s2, i)
			if !ok {
				return nil, false, false
			}
			f2.env[i] = t
		default:
			return nil, false, false
		}
	}
	return x.val(f2, s2, ifi.Cond), li.blocks[b.Succs[0]], true
}

func (x *Exec) assumeNotEntered(fr *frame, st *State, b *ssa.BasicBlock, li *loopInfo, phis map[*ssa.Phi]*Term) bool {
	c, in, ok := x.entry(fr, st, b, li, phis)
	return ok && st.facts.assume(c, !in)
}

func (x *Exec) assumeEntered(fr *frame, st *State, b *ssa.BasicBlock, li *loopInfo, phis map[*ssa.Phi]*Term) bool {
	c, in, ok := x.entry(fr, st, b, li, phis)
	return !ok || st.facts.assume(c, in)
}

// headerDecided reports whether the exit condition of the loop is decided by the current state,
// the loop is then unrolled.
func (x *Exec) headerDecided(fr *frame, st *State, b *ssa.BasicBlock, phis map[*ssa.Phi]*Term) bool {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	li := x.loopAt(fr.fn, b)
	if li.blocks[b.Succs[0]] && li.blocks[b.Succs[1]] {
		return false
	}
	f2 := fr.clone()
	s2 := st.clone()
	for phi, v := range phis {
		f2.env[phi] = v
	}
	open, counted := false, false // a part of the condition is not decided, a part of it counts up to a constant
	for first := true; ; first = false {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.If:
			case *ssa.Call:
				bi, ok := i.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "len" {
					return !first && !open || counted
				}
				f2.env[i] = x.lenOf(s2, x.val(f2, s2, i.Call.Args[0]))
			case *ssa.Next:
				return !first && !open || counted
			case ssa.Value:
				t, ok := x.pureValue(f2, s2, i)
				if !ok {
					return !first && !open || counted
				}
				f2.env[i] = t
			default:
				return !first && !open || counted
			}
		}
		cond := x.val(f2, s2, ifi.Cond)
		v, dec := st.facts.eval(cond)
		if _, ok := cond.isBoolConst(); ok && countsPhi(ifi.Cond, phis) {
			if v == li.blocks[b.Succs[0]] {
				counted = true
			} else {
				return true
			}
		}
		if !dec || st.facts.unbounded(cond) {
			open = true
			v = li.blocks[b.Succs[0]]
		}
		// the rest of a condition with several parts
		next := b.Succs[1]
		if v {
			next = b.Succs[0]
		}
		if !li.blocks[next] {
			return !open || counted
		}
		if !strings.HasPrefix(next.Comment, "cond.") {
			return !open || counted
		}
		b = next
		if ifi, ok = b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || li.blocks[b.Succs[0]] == li.blocks[b.Succs[1]] {
			return !open || counted
		}
	}
}

// countsPhi reports whether a condition compares a constant value of a variable of the loop.
func countsPhi(v ssa.Value, phis map[*ssa.Phi]*Term) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if phi, ok := o.(*ssa.Phi); ok && phis[phi] != nil {
			if _, ok := phis[phi].intConst(); ok {
				return true
			}
		}
		if bo, ok := o.(*ssa.BinOp); ok { // the counter of range
			if phi, ok := bo.X.(*ssa.Phi); ok && phis[phi] != nil {
				if _, ok := phis[phi].intConst(); ok {
					return true
				}
			}
		}
	}
	return false
}

// widen replaces everything a loop changes by unknown values and analyses one arbitrary iteration.
func (x *Exec) widen(fr *frame, st *State, b *ssa.BasicBlock, li *loopInfo, phis map[*ssa.Phi]*Term, sink func(*Path), k cont) {
	x.nprobe++
	if x.nprobe > 20000 {
		panic(budgetError{"too many loops in " + fr.fn.String()})
	}
	ord := st.nloop
	st.nloop++
	K := x.ts.mk("count", fmt.Sprintf("L%d", ord), types.Typ[types.Int])
	used := map[string]int{}
	mkhv := func(init *Term, t types.Type, kind string) *Term {
		fz := x.freeze(st, init)
		if _, ok := t.Underlying().(*types.Slice); ok && (fz.op == "newslice" && len(fz.args) == 1 && fz.args[0] == x.ts.intT(0) || fz.op == "seq" && len(fz.args) == 0) {
			fz = x.ts.nilT(t) // an empty list
		}
		base := fmt.Sprintf("L%d:%d", ord, fz.id)
		used[base+typeKey(t)]++
		return x.ts.mk("hv", fmt.Sprintf("%s:%d", base, used[base+typeKey(t)]), t)
	}
	var vars []loopVar
	phiT := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := phis[phi]
		if init == nil {
			continue
		}
		if step, ok := inductionStep(phi, b, li); ok && isInt(phi.Type()) {
			l, okl := toLin(init)
			if okl {
				phiT[phi] = x.ts.fromLin(l.add(linForm{map[*Term]int64{K: 1}, 0}, step), phi.Type())
				vars = append(vars, loopVar{hv: phiT[phi], phi: phi, init: init, ind: true, typ: phi.Type()})
				continue
			}
		}
		if L := copiedList(phi, b, li); L != nil && emptyList(x, x.freeze(st, init)) {
			if l := x.val(fr, st, L); l.op == "call" || l.op == "res" {
				phiT[phi] = x.ts.mk("prefix", "", phi.Type(), l, K, x.lenOf(st, l))
				continue
			}
		}
		if sep, ok := joinedList(phi, b, li); ok && x.bytesAsText && emptyList(x, x.freeze(st, init)) {
			h := mkhv(x.ts.strT(""), types.Typ[types.String], "phi")
			phiT[phi] = x.ts.mk("joinlist", "", phi.Type(), h, x.val(fr, st, sep), K)
			vars = append(vars, loopVar{hv: h, phi: phi, init: x.ts.strT(""), typ: types.Typ[types.String], text: true})
			continue
		}
		if x.bytesAsText && isByteSlice(phi.Type()) {
			h := mkhv(x.byteText(st, init), types.Typ[types.String], "phi")
			phiT[phi] = x.convert(st, h, types.Typ[types.String], phi.Type())
			vars = append(vars, loopVar{hv: h, phi: phi, init: x.byteText(st, init), typ: types.Typ[types.String], text: true})
			continue
		}
		h := mkhv(init, phi.Type(), "phi")
		phiT[phi] = h
		vars = append(vars, loopVar{hv: h, phi: phi, init: init, typ: phi.Type()})
	}
	rec := &loopRec{info: li, ord: ord}

	// Find the memory cells and maps that an iteration changes.
	cells := map[*Term]types.Type{}
	mapsCh := map[*Term]bool{}
	dirtyCh := map[*Term]bool{}
	limit := x.nalloc
	for round := 0; round < 6; round++ {
		s2 := st.clone()
		s2.nloop = st.nloop
		s2.facts = st.facts.beforeLoop(ord)
		x.applyHavoc(st, s2, ord, cells, mapsCh, dirtyCh)
		before := s2.clone()
		f2 := fr.clone()
		f2.probe = &loopRec{info: li}
		prec := &loopRec{info: li, ord: ord, hv: nil, fr: f2}
		f2.widened[b] = prec
		for phi, t := range phiT {
			f2.env[phi] = t
		}
		n0 := len(cells) + len(mapsCh) + len(dirtyCh)
		np := x.npaths
		x.instrs(f2, s2, b, 0, func(p *Path) {
			if p.loop != prec {
				return
			}
			for a, v := range p.st.mem {
				root := rootOf(a)
				if root.op == "alloc" && allocNo(root) > limit {
					continue
				}
				if bv, ok := before.mem[a]; !ok || bv != v {
					if !ok {
						if x.load(before, a, elemType(a)) == v {
							continue
						}
					}
					if deadCopy(root, before, p) {
						continue
					}
					if d := dynIdx(a); d != nil {
						dirtyCh[d] = true
						continue
					}
					cells[a] = elemType(a)
				}
			}
			for r, v := range p.st.dirty {
				if root := rootOf(r); root.op == "alloc" && allocNo(root) > limit {
					continue
				}
				if before.dirty[r] != v && !deadCopy(rootOf(r), before, p) {
					dirtyCh[r] = true
				}
			}
			for m, ms := range p.st.maps {
				if m.op == "allocmap" && allocNo(m) > limit {
					continue
				}
				bm := before.maps[m]
				if bm == nil || len(bm.ups) != len(ms.ups) || bm.tag != ms.tag {
					mapsCh[m] = true
				}
			}
		}, func(*State, string, []*Term, token.Pos) {})
		x.npaths = np
		if len(cells)+len(mapsCh)+len(dirtyCh) == n0 {
			break
		}
	}
	// Cells are renamed in a canonical way: by their initial value and type.
	var cl []*Term
	for c := range cells {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		init := x.load(st, c, cells[c])
		var h *Term
		if rootOf(c).op == "alloc" {
			h = mkhv(init, cells[c], "mem")
		} else {
			h = x.ts.mk("hv", fmt.Sprintf("L%d:@%d", ord, c.id), cells[c])
		}
		vars = append(vars, loopVar{hv: h, addr: c, init: init, typ: cells[c]})
	}
	sort.SliceStable(vars, func(i, j int) bool { return vars[i].hv.id < vars[j].hv.id })
	for _, v := range vars {
		if v.addr != nil {
			st.mem[v.addr] = v.hv
		}
	}
	rec.maps, rec.dirty = x.applyHavoc(st.clone(), st, ord, nil, mapsCh, dirtyCh)
	rec.hv = vars
	rec.iterK = K
	ev := &Event{kind: "loop", name: fmt.Sprintf("L%d", ord), pos: blockPos(b), fn: fr.fn}
	for _, v := range vars {
		ev.args = append(ev.args, x.freeze(st, v.init))
	}
	st.events = append(st.events, ev)
	st.facts.lo[K] = 0
	fr.widened[b] = rec
	rec.fr = fr
	for phi, t := range phiT {
		fr.env[phi] = t
	}
	x.instrs(fr, st, b, 0, sink, k)
}

// deadCopy reports whether an array is a copy that the iteration of the path made and that no later iteration can reach.
func deadCopy(root *Term, before *State, p *Path) bool {
	if root.op != "conv" || len(root.args) != 1 || !isString(root.args[0].typ) || before.dirty[root] != nil {
		return false
	}
	var reaches func(t *Term) bool
	reaches = func(t *Term) bool {
		if t == root {
			return true
		}
		switch t.op {
		case "slice", "append", "seq", "agg", "iface", "clo", "tuple", "idx", "fld":
			for _, a := range t.args {
				if reaches(a) {
					return true
				}
			}
		}
		return false
	}
	for a := range before.mem {
		if rootOf(a) == root {
			return false
		}
	}
	for a, v := range p.st.mem {
		if rootOf(a) != root && reaches(v) {
			return false
		}
	}
	for _, v := range p.nexts {
		if reaches(v) {
			return false
		}
	}
	for _, m := range p.st.maps {
		for _, u := range m.ups {
			if reaches(u.val) {
				return false
			}
		}
	}
	return true
}

// applyHavoc replaces changed cells, maps and arrays by unknown values whose names depend on their values in st0 only.
func (x *Exec) applyHavoc(st0, st *State, ord int, cells map[*Term]types.Type, mapsCh, dirtyCh map[*Term]bool) (ml, dl []*Term) {
	for c, t := range cells {
		st.mem[c] = x.ts.mk("hv", fmt.Sprintf("L%d:probe%d", ord, c.id), t)
	}
	used := map[string]int{}
	name := func(kind string, init *Term, d *Term) *Term {
		base := fmt.Sprintf("L%d:%s:%d", ord, kind, init.id)
		used[base]++
		return x.ts.mk("hv", fmt.Sprintf("%s:%d", base, used[base]), types.Typ[types.Int])
	}
	type entry struct{ t, init *Term }
	order := func(set map[*Term]bool, init func(t *Term) *Term) []entry {
		var l []entry
		for t := range set {
			l = append(l, entry{t, init(t)})
		}
		sort.Slice(l, func(i, j int) bool {
			if l[i].init != l[j].init {
				return l[i].init.id < l[j].init.id
			}
			return l[i].t.id < l[j].t.id
		})
		return l
	}
	for _, e := range order(mapsCh, func(m *Term) *Term { return x.freezeMap(st0, m, map[*Term]*Term{}) }) {
		ms := st.maps[e.t]
		fresh := ms != nil && ms.fresh
		st.maps[e.t] = &mapState{fresh: fresh, tag: name("map", e.init, e.t)}
		ml = append(ml, e.t)
	}
	for _, e := range order(dirtyCh, func(d *Term) *Term {
		if rootOf(d).op != "alloc" {
			return d
		}
		if l, ok := st0.lens[d]; ok {
			return x.freeze(st0, x.ts.mk("newslice", "", d.typ, l))
		}
		if u, ok := st0.dirty[d]; ok {
			return u
		}
		return x.ts.mk("array", "", d.typ)
	}) {
		x.dirtyRoot(st, e.t, name("dirty", e.init, e.t))
		dl = append(dl, e.t)
	}
	return ml, dl
}

func inductionStep(phi *ssa.Phi, b0 *ssa.BasicBlock, li *loopInfo) (int64, bool) {
	var step int64
	found := false
	for i, e := range phi.Edges {
		if !li.blocks[b0.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return 0, false
		}
		bx, by := b.X, b.Y
		if b.Op == token.ADD && by == ssa.Value(phi) {
			bx, by = by, bx
		}
		c, ok := by.(*ssa.Const)
		if bx != ssa.Value(phi) || !ok || c.Value == nil {
			return 0, false
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Value))
		if ok && b.Op == token.SUB {
			v = -v
		}
		if !ok || (found && v != step) {
			return 0, false
		}
		step, found = v, true
	}
	return step, found
}

func emptyList(x *Exec, t *Term) bool {
	return t.op == "nil" || t.op == "newslice" && len(t.args) == 1 && t.args[0] == x.ts.intT(0) || t.op == "seq" && len(t.args) == 0
}

// appendedElem returns the value that every iteration of a loop appends to a list, and the call of append.
func appendedElem(phi *ssa.Phi, b0 *ssa.BasicBlock, li *loopInfo) (*ssa.Call, ssa.Value) {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return nil, nil
	}
	var next ssa.Value
	for i, e := range phi.Edges {
		if !li.blocks[b0.Preds[i]] {
			continue
		}
		if next != nil && next != e {
			return nil, nil
		}
		next = e
	}
	c, ok := next.(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(phi) {
		return nil, nil
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
		return nil, nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil, nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, nil
	}
	if arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok || arr.Len() != 1 {
		return nil, nil
	}
	var elem ssa.Value
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r := range *ia.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					if elem != nil {
						return nil, nil
					}
					elem = s.Val
				}
			}
		}
	}
	return c, elem
}

// joinedList returns the separator when all that happens to the list of a loop is that texts are appended and then joined.
func joinedList(phi *ssa.Phi, b0 *ssa.BasicBlock, li *loopInfo) (ssa.Value, bool) {
	app, elem := appendedElem(phi, b0, li)
	if elem == nil || !isString(elem.Type()) {
		return nil, false
	}
	for _, r := range *app.Referrers() {
		if r != ssa.Instruction(phi) {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return nil, false
			}
		}
	}
	var sep ssa.Value
	for _, r := range *phi.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok || r == ssa.Instruction(app) {
			continue
		}
		c, ok := r.(*ssa.Call)
		if !ok || li.blocks[c.Block()] || sep != nil || c.Call.StaticCallee() == nil || fnName(c.Call.StaticCallee()) != "strings.Join" || c.Call.Args[0] != ssa.Value(phi) {
			return nil, false
		}
		sep = c.Call.Args[1]
		if _, ok := sep.(*ssa.Const); !ok {
			return nil, false
		}
	}
	return sep, sep != nil
}

// copiedList returns the list when a variable of a loop collects all of its elements:
// for _, v := range slices.Sorted(…) { …; list = append(list, v) }
func copiedList(phi *ssa.Phi, b0 *ssa.BasicBlock, li *loopInfo) ssa.Value {
	_, elem := appendedElem(phi, b0, li)
	ld, ok := elem.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok || !li.blocks[ia.Block()] {
		return nil
	}
	L, ok := ia.X.(*ssa.Call)
	if !ok || li.blocks[L.Block()] {
		return nil
	}
	if f := L.Call.StaticCallee(); f == nil || !freshList[strings.SplitN(fnName(f), "[", 2)[0]] {
		return nil
	}
	for _, r := range *L.Referrers() {
		if i, ok := r.(*ssa.IndexAddr); ok {
			for _, u := range *i.Referrers() {
				if _, ok := u.(*ssa.UnOp); !ok {
					return nil
				}
			}
		}
	}
	start := int64(0)
	idx := ia.Index
	if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if one, ok := bo.Y.(*ssa.Const); ok && one.Value != nil && one.Int64() == 1 {
			start, idx = -1, bo.X
		}
	}
	ip, ok := idx.(*ssa.Phi)
	if !ok || ip.Block() != b0 {
		return nil
	}
	if step, ok := inductionStep(ip, b0, li); !ok || step != 1 {
		return nil
	}
	for i, e := range ip.Edges {
		if li.blocks[b0.Preds[i]] {
			continue
		}
		if k, ok := e.(*ssa.Const); !ok || k.Value == nil || k.Int64() != start {
			return nil
		}
	}
	return L
}

var freshList = map[string]bool{"slices.Sorted": true, "slices.Collect": true, "slices.Clone": true}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func allocNo(t *Term) int {
	n, _ := strconv.Atoi(t.aux)
	return n
}

func rootOf(a *Term) *Term {
	for a.op == "fld" || a.op == "idx" || a.op == "slice" {
		a = a.args[0]
	}
	return a
}

// dynIdx returns the container of an address with an index that is not constant.
func dynIdx(a *Term) *Term {
	for a.op == "fld" || a.op == "idx" {
		if a.op == "idx" && a.args[1].op != "const" {
			return a.args[0]
		}
		a = a.args[0]
	}
	return nil
}

func elemType(a *Term) types.Type {
	if a.typ == nil {
		return types.Typ[types.Int]
	}
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return a.typ
}

// maxArray limits the arrays whose elements are followed separately.
const maxArray = 256

// ---- memory ----

func (x *Exec) alloc(t types.Type) *Term {
	x.nalloc++
	a := x.ts.mk("alloc", strconv.Itoa(x.nalloc), types.NewPointer(t))
	x.allocTyp[a] = t
	return a
}

func (x *Exec) dirtyRoot(st *State, root, tag *Term) {
	for a := range st.mem {
		for p := a; ; {
			if p == root {
				delete(st.mem, a)
				break
			}
			if p.op == "fld" || p.op == "idx" {
				p = p.args[0]
				continue
			}
			break
		}
	}
	for a := range st.dirty {
		for p := a; p.op == "fld" || p.op == "idx"; p = p.args[0] {
			if p.args[0] == root {
				delete(st.dirty, a)
				break
			}
		}
	}
	st.dirty[root] = tag
}

func (x *Exec) dirtyOf(st *State, addr *Term) (*Term, string) {
	path := ""
	for p := addr; ; {
		if t, ok := st.dirty[p]; ok {
			return t, path
		}
		switch p.op {
		case "fld":
			path = "." + p.aux + path
		case "idx":
			path = fmt.Sprintf("[%d]", p.args[1].id) + path
		default:
			return nil, ""
		}
		p = p.args[0]
	}
}

func (x *Exec) fieldAddr(base *Term, i int, st0 *types.Struct) *Term {
	return x.ts.mk("fld", strconv.Itoa(i), types.NewPointer(st0.Field(i).Type()), base)
}

func (x *Exec) load(st *State, addr *Term, t types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if s := structFields(t); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = x.load(st, x.fieldAddr(addr, i, s), s.Field(i).Type())
		}
		return x.mkAgg(t, s, args)
	}
	if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() <= maxArray {
		args := make([]*Term, arr.Len())
		for i := range args {
			args[i] = x.load(st, x.idxAddr(addr, x.ts.intT(int64(i)), arr.Elem()), arr.Elem())
		}
		return x.ts.mk("agg", "", t, args...)
	}
	if addr.op == "fld" || addr.op == "idx" {
		// part of an atomic value
		if pv, ok := st.mem[addr.args[0]]; ok {
			if addr.op == "fld" {
				return x.field(pv, addr.aux, t)
			}
			return x.ts.mk("elem", "", t, pv, addr.args[1])
		}
	}
	if addr.op == "idx" && computedSeq(addr.args[0]) {
		if r := x.shifted(st, addr.args[0], map[*Term]*Term{}); r != nil {
			return x.load(st, x.idxAddr(r, addr.args[1], t), t)
		}
	}
	if addr.op == "idx" && len(x.staleCells(st, addr)) > 0 {
		return x.ts.mk("out", fmt.Sprintf("[%d]", addr.args[1].id), t, x.arrayState(st, addr.args[0], map[*Term]*Term{}))
	}
	if d, path := x.dirtyOf(st, addr); d != nil {
		return x.ts.mk("out", path, t, d)
	}
	root := rootOf(addr)
	if x.initSt != nil && (root.op == "alloc" || root.op == "global" && x.initOk[root.aux]) {
		if v, ok := x.initSt.mem[addr]; ok {
			return v
		}
		if root.op == "global" && dynIdx(addr) == nil && pointerLike(t) == false {
			return x.ts.zero(t)
		}
	}
	if root.op == "alloc" {
		if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() > maxArray {
			return x.ts.mk("out", "", t, x.arrayState(st, addr, map[*Term]*Term{}))
		}
		return x.ts.zero(t)
	}
	if x.globals != nil && root.op == "global" {
		if v := x.globals(x, addr, t); v != nil {
			return v
		}
	}
	if addr.op == "idx" && addr.args[0].op == "seq" {
		if i, ok := addr.args[1].intConst(); ok && i >= 0 && int(i) < len(addr.args[0].args) {
			return addr.args[0].args[i]
		}
	}
	if addr.op == "fld" && addr.args[0].typ != nil {
		i, _ := strconv.Atoi(addr.aux)
		if v := zeroFieldCandidate(addr.args[0].typ, i); v != nil && x.w.zeroFields()[v] {
			return x.ts.zero(t)
		}
	}
	return x.ts.mk("ld", "", t, addr)
}

// mkAgg rebuilds a struct value, a struct whose fields are all read from one object is that object's value.
func (x *Exec) mkAgg(t types.Type, s *types.Struct, args []*Term) *Term {
	return x.ts.mk("agg", "", t, args...)
}

func (x *Exec) field(v *Term, aux string, t types.Type) *Term {
	i, _ := strconv.Atoi(aux)
	if v.op == "agg" && i < len(v.args) {
		return v.args[i]
	}
	if v.op == "zero" {
		return x.ts.zero(t)
	}
	return x.ts.mk("field", aux, t, v)
}

func (x *Exec) store(st *State, addr, val *Term, t types.Type) {
	if x.bytesAsText && addr.op == "idx" && isByteSlice(addr.args[0].typ0()) && addr.args[0].op != "alloc" {
		panic(budgetError{"a byte of a text is changed"})
	}
	if s := structFields(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, x.fieldAddr(addr, i, s), x.field(val, strconv.Itoa(i), s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() <= maxArray {
		for i := 0; i < int(arr.Len()); i++ {
			ev := x.ts.mk("elem", "", arr.Elem(), val, x.ts.intT(int64(i)))
			if val.op == "agg" {
				ev = val.args[i]
			} else if val.op == "zero" {
				ev = x.ts.zero(arr.Elem())
			}
			x.store(st, x.idxAddr(addr, x.ts.intT(int64(i)), arr.Elem()), ev, arr.Elem())
		}
		return
	}
	if addr.op == "idx" {
		base := addr.args[0]
		_, isC := addr.args[1].intConst()
		if r := rootOf(addr); computedSeq(r) {
			if r != base {
				panic(budgetError{"a part of an element of a computed sequence is changed: " + addr.String()})
			}
			if st.dirty[base] == nil {
				st.dirty[base] = x.ts.mk("upd", "", types.Typ[types.Int], base)
			}
		}
		if stale := x.staleCells(st, addr); len(stale) > 0 || !isC && st.dirty[base] == nil {
			tag := x.ts.mk("upd", "", types.Typ[types.Int], x.arrayState(st, base, map[*Term]*Term{}))
			for _, a := range stale {
				delete(st.mem, a)
			}
			st.dirty[base] = tag
		}
	}
	st.mem[addr] = val
}

// computedSeq reports whether t is a sequence that is described by how it was computed. Its elements are kept apart
// from those of every other sequence.
func computedSeq(t *Term) bool {
	switch t.op {
	case "conv", "seq", "append", "concat":
		return true
	case "res":
		return t.args[0].op == "call" && !strings.Contains(t.args[0].aux, "@")
	}
	return false
}

// shifted recognises s = append(s, y); copy(s[1:], s); s[0] = v, which is append([]T{v}, s...).
func (x *Exec) shifted(st *State, t *Term, memo map[*Term]*Term) *Term {
	d := st.dirty[t]
	if d != nil && d.op == "upd" && len(d.args) == 1 && d.args[0] == t && t.op == "conv" {
		// r := []rune(s); r[0] = v
		var first *Term
		for a, v := range st.mem {
			if rootOf(a) == t {
				if a.op != "idx" || a.args[0] != t || !isZeroTerm(a.args[1]) {
					return nil
				}
				first = v
			}
		}
		if first != nil {
			memo[t] = t
			return x.ts.mk("append", "", t.typ, x.ts.mk("seq", "", t.typ, x.freezeM(st, first, memo)), x.ts.mk("slice", "", t.typ, t, x.ts.intT(1), x.ts.mk("undefhi", "", nil)))
		}
	}
	if d == nil || d.op != "copy" || t.op != "append" || t.args[1].op != "seq" || len(t.args[1].args) != 1 {
		return nil
	}
	// copy(source, elements of the array before, lower bound, upper bound)
	if len(d.args) != 4 || d.args[0] != x.freeze(&State{mem: map[*Term]*Term{}, maps: st.maps, dirty: map[*Term]*Term{}, facts: st.facts, lens: st.lens}, t) ||
		len(d.args[1].args) != 0 || d.args[2] != x.ts.intT(1) || d.args[3].op != "undefhi" {
		return nil
	}
	zero := x.ts.mk("idx", "", types.NewPointer(sliceElem(t.typ)), t, x.ts.intT(0))
	v, ok := st.mem[zero]
	if !ok {
		return nil
	}
	return x.ts.mk("append", "", t.typ, x.ts.mk("seq", "", t.typ, x.freezeM(st, v, memo)), x.freezeM(st, t.args[0], memo))
}

// staleCells returns the known elements that may be the element addr.
func (x *Exec) staleCells(st *State, addr *Term) []*Term {
	_, isC := addr.args[1].intConst()
	var l []*Term
	for a := range st.mem {
		for p := a; p.op == "idx" || p.op == "fld"; p = p.args[0] {
			if p.op == "idx" && p.args[0] == addr.args[0] && p != addr {
				if _, c := p.args[1].intConst(); !isC || !c {
					l = append(l, a)
				}
				break
			}
		}
	}
	return l
}

// arrayState lists the elements of an array that are known.
func (x *Exec) arrayState(st *State, root *Term, memo map[*Term]*Term) *Term {
	var cells []*Term
	var path func(a *Term) *Term
	path = func(a *Term) *Term {
		switch {
		case a == root:
			return x.ts.mk("root", "", nil)
		case a.op == "fld":
			if p := path(a.args[0]); p != nil {
				return x.ts.mk("fld", a.aux, nil, p)
			}
		case a.op == "idx":
			if p := path(a.args[0]); p != nil {
				return x.ts.mk("idx", "", nil, p, x.freezeM(st, a.args[1], memo))
			}
		}
		return nil
	}
	for a, v := range st.mem {
		if p := path(a); p != nil {
			cells = append(cells, x.ts.mk("kv", "", nil, p, x.freezeM(st, v, memo)))
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].args[0].id < cells[j].args[0].id })
	if d := st.dirty[root]; d != nil {
		cells = append(cells, d)
	}
	return x.ts.mk("array", "", nil, cells...)
}

// boolTable returns the indices at which the value of a constant table of truth values changes, nil for other addresses.
// The table starts with false.
func (x *Exec) boolTable(a *Term, t types.Type) []int64 {
	if a.op != "idx" || a.args[0].op != "global" || x.initSt == nil || !x.initOk[a.args[0].aux] {
		return nil
	}
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return nil
	}
	if _, ok := a.args[1].intConst(); ok || a.args[0].typ == nil {
		return nil
	}
	p, ok := a.args[0].typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	if !ok || arr.Len() > 256 {
		return nil
	}
	runs := []int64{}
	last := false
	for i := int64(0); i < arr.Len(); i++ {
		v, ok := x.load(x.initSt, x.idxAddr(a.args[0], x.ts.intT(i), arr.Elem()), arr.Elem()).isBoolConst()
		if !ok {
			return nil
		}
		if v != last {
			runs = append(runs, i)
			last = v
		}
	}
	return runs
}

// smallTable returns the number of elements of a constant table that is read with a variable index, 0 for everything else.
func (x *Exec) smallTable(st *State, n *ssa.IndexAddr, base *Term) int64 {
	for _, r := range *n.Referrers() {
		if !readOnlyUse(r, n, 0) {
			return 0
		}
	}
	var size int64
	root := base
	if base.op == "slice" {
		root = base.args[0]
		l, ok := x.lenOf(st, base).intConst()
		if lo, ok2 := base.args[1].intConst(); !ok || !ok2 || lo != 0 {
			return 0
		}
		size = l
	} else if p, ok := n.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			size = arr.Len()
		}
	}
	if size < 1 || size > 16 {
		return 0
	}
	first := x.idxAddr(root, x.ts.intT(0), sliceElem(n.X.Type()))
	if root.op != "alloc" && !(root.op == "global" && x.initSt != nil && x.initOk[root.aux]) {
		return 0
	}
	if d, _ := x.dirtyOf(st, first); d != nil || len(x.staleCells(st, first)) > 0 {
		return 0
	}
	has := false
	for i := int64(0); i < size && !has; i++ {
		a := x.idxAddr(root, x.ts.intT(i), sliceElem(n.X.Type()))
		has = hasCell(st, a) || x.initSt != nil && hasCell(x.initSt, a)
	}
	if !has {
		return 0
	}
	return size
}

// hasCell reports whether the state has a value for an address or for a part of it.
func hasCell(st *State, a *Term) bool {
	if _, ok := st.mem[a]; ok {
		return true
	}
	for m := range st.mem {
		for p := m; p.op == "fld" || p.op == "idx"; p = p.args[0] {
			if p.args[0] == a {
				return true
			}
		}
	}
	return false
}

// tableCases distinguishes the values of an index; n stands for every index outside of the table.
func (x *Exec) tableCases(st *State, i *Term, j, n int64, k func(st *State, j int64)) {
	if j == n {
		k(st, n)
		return
	}
	x.fork(st, x.ts.bin(token.EQL, i, x.ts.intT(j), types.Typ[types.Bool], types.Typ[types.Int]), func(st *State) {
		k(st, j)
	}, func(st *State) { x.tableCases(st, i, j+1, n, k) })
}

// tableRuns distinguishes the values of a table of truth values by comparisons of the index.
func (x *Exec) tableRuns(st *State, i *Term, runs []int64, k func(st *State, v bool)) {
	var step func(st *State, n int)
	step = func(st *State, n int) {
		if n == len(runs) {
			k(st, n%2 == 1)
			return
		}
		c := x.ts.bin(token.LSS, i, x.ts.intT(runs[n]), types.Typ[types.Bool], types.Typ[types.Int])
		x.fork(st, c, func(st *State) { k(st, n%2 == 1) }, func(st *State) { step(st, n+1) })
	}
	step(st, 0)
}

func (x *Exec) idxAddr(base, i *Term, elem types.Type) *Term {
	if base.op == "slice" {
		lo := base.args[1]
		if v, ok := lo.intConst(); ok && v == 0 {
			base = base.args[0]
		} else {
			l1, ok1 := toLin(lo)
			l2, ok2 := toLin(i)
			if ok1 && ok2 {
				base = base.args[0]
				i = x.ts.fromLin(l1.add(l2, 1), types.Typ[types.Int])
			}
		}
	}
	return x.ts.mk("idx", "", types.NewPointer(elem), base, i)
}

func (x *Exec) lenOf(st *State, v *Term) *Term {
	switch v.op {
	case "const":
		if s, ok := v.strConst(); ok {
			return x.ts.intT(int64(len(s)))
		}
	case "nil":
		return x.ts.intT(0)
	case "seq":
		return x.ts.intT(int64(len(v.args)))
	case "append":
		if len(v.args) == 2 {
			return x.ts.bin(token.ADD, x.lenOf(st, v.args[0]), x.lenOf(st, v.args[1]), types.Typ[types.Int], types.Typ[types.Int])
		}
	case "slice":
		// args: base lo hi(or undef marker)
		lo, hi := v.args[1], v.args[2]
		if hi.op != "undefhi" {
			return x.ts.bin(token.SUB, hi, lo, types.Typ[types.Int], types.Typ[types.Int])
		}
		if isString(v.typ0()) {
			// The rest of a text: its length is only compared, see also the comparison with "".
			if _, ok := lo.intConst(); !ok {
				break
			}
		}
		l, ok := st.lens[v.args[0]]
		if !ok && x.initSt != nil {
			l, ok = x.initSt.lens[v.args[0]]
		}
		if ok {
			return x.ts.bin(token.SUB, l, lo, types.Typ[types.Int], types.Typ[types.Int])
		}
		if v.args[0].op != "alloc" {
			return x.ts.bin(token.SUB, x.lenOf(st, v.args[0]), lo, types.Typ[types.Int], types.Typ[types.Int])
		}
	case "conv":
		// string <-> []byte keep the length
		if len(v.args) == 1 && (isString(v.typ) && isByteSlice(v.args[0].typ) || isByteSlice(v.typ) && isString(v.args[0].typ0())) {
			return x.lenOf(st, v.args[0])
		}
	case "res":
		if m := x.sourceMap(v); m != nil {
			return x.lenOf(st, m)
		}
	case "allocmap":
		if ms := x.mapOf(st, v); ms != nil && ms.tag == nil && len(ms.ups) == 0 {
			if ms.fresh {
				return x.ts.intT(0)
			}
			if ms.base != nil {
				return x.lenOf(st, ms.base)
			}
		}
	}
	if es, ok := x.smallMap(st, v); ok && (v.op == "allocmap" || v.op == "newmap") {
		return x.ts.intT(int64(len(es)))
	}
	if ms := x.mapOf(st, v); ms != nil && (len(ms.ups) > 0 || ms.tag != nil) {
		return x.ts.mk("len", "", types.Typ[types.Int], x.freezeMap(st, v, map[*Term]*Term{}))
	}
	return x.ts.mk("len", "", types.Typ[types.Int], v)
}

// sourceMap returns the map whose keys or values a slice contains, each once.
func (x *Exec) sourceMap(v *Term) *Term {
	call := func(t *Term, names ...string) *Term {
		if t.op == "res" && t.aux == "0" && t.args[0].op == "call" && len(t.args[0].args) > 0 && slices.Contains(names, t.args[0].aux) {
			return t.args[0].args[0]
		}
		return nil
	}
	seq := call(v, "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc", "slices.Collect")
	if seq == nil {
		return nil
	}
	return call(seq, "maps.Keys", "maps.Values")
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// seqOf converts a slice over local memory into its elements.
func (x *Exec) seqOf(st *State, v *Term) *Term {
	switch v.op {
	case "nil":
		return x.ts.mk("seq", "", nil)
	case "slice":
		if v.args[0].op == "alloc" {
			n, ok := x.lenOf(st, v).intConst()
			lo, ok2 := v.args[1].intConst()
			if ok && ok2 && n <= 128 && n >= 0 && st.dirty[v.args[0]] == nil {
				et := sliceElem(v.typ)
				var el []*Term
				for i := int64(0); i < n; i++ {
					el = append(el, x.load(st, x.idxAddr(v.args[0], x.ts.intT(lo+i), et), et))
				}
				return x.ts.mk("seq", "", v.typ, el...)
			}
		}
	}
	return v
}

func sliceElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return types.Typ[types.Int]
}

// byteText is the text with the bytes of a slice.
func (x *Exec) byteText(st *State, a *Term) *Term {
	if isString(a.typ0()) {
		return a
	}
	if a.op == "joinlist" {
		return a.args[0]
	}
	q := x.seqOf(st, a)
	switch {
	case q.op == "nil", q.op == "newslice" && x.lenOf(st, a) == x.ts.intT(0):
		return x.ts.strT("")
	case q.op == "seq":
		r := x.ts.strT("")
		for _, e := range q.args {
			if v, ok := e.intConst(); ok && v >= 0 && v < 0x80 {
				r = x.ts.concat(r, x.ts.strT(string(rune(v))))
			} else {
				r = x.ts.concat(r, x.ts.mk("conv", "bytes", types.Typ[types.String], x.ts.mk("seq", "", types.NewSlice(types.Typ[types.Byte]), e)))
			}
		}
		return r
	}
	return x.convert(st, a, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
}

func (x *Exec) appendTerm(st *State, a, b *Term, t types.Type) *Term {
	if x.bytesAsText && isByteSlice(t) {
		return x.convert(st, x.ts.concat(x.byteText(st, a), x.byteText(st, b)), types.Typ[types.String], t)
	}
	a = x.seqOf(st, a)
	b = x.seqOf(st, b)
	if st.dirty[a] != nil && computedSeq(a) {
		a = x.freeze(st, a)
	}
	if st.dirty[b] != nil && computedSeq(b) {
		b = x.freeze(st, b)
	}
	if b.op == "seq" && len(b.args) == 0 {
		return a
	}
	if a.op == "seq" && b.op == "seq" {
		return x.ts.mk("seq", "", t, append(append([]*Term{}, a.args...), b.args...)...)
	}
	if a.op == "append" && a.args[1].op == "seq" && b.op == "seq" {
		return x.ts.mk("append", "", t, a.args[0], x.ts.mk("seq", "", t, append(append([]*Term{}, a.args[1].args...), b.args...)...))
	}
	return x.ts.mk("append", "", t, a, b)
}

// freeze makes a value independent of the later state: objects created on the path are replaced by their contents.
func (x *Exec) freeze(st *State, t *Term) *Term { return x.freezeM(st, t, map[*Term]*Term{}) }

func (x *Exec) freezeM(st *State, t *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := memo[t]; ok {
		return r
	}
	switch t.op {
	case "alloc":
		memo[t] = x.ts.mk("cyc", "", t.typ)
		et := x.allocTyp[t]
		var r *Term
		if c, ok := st.mem[x.bufCell(t)]; ok {
			r = x.ts.mk("newobj", "", et, x.freezeM(st, c, memo))
		} else if isBufType(types.NewPointer(et)) {
			r = x.ts.mk("newobj", "", et, x.freezeM(st, x.bufGet(st, t), memo))
		} else if arr, ok := et.Underlying().(*types.Array); ok && arr.Len() > maxArray {
			r = x.ts.mk("newobj", "big", et)
		} else {
			v := x.load(st, t, et)
			r = x.ts.mk("newobj", "", et, x.freezeM(st, v, memo))
		}
		memo[t] = r
		return r
	case "slice":
		if t.args[0].op == "alloc" {
			s := x.seqOf(st, t)
			if s != t {
				r := x.freezeM(st, s, memo)
				memo[t] = r
				return r
			}
			memo[t] = x.ts.mk("cyc", "", t.typ)
			args := []*Term{x.freezeM(st, x.lenOf(st, t), memo)}
			if lo := t.args[1]; lo.op != "const" || lo.String() != "0" {
				args = append(args, x.freezeM(st, lo, memo))
			}
			if s := x.arrayState(st, t.args[0], memo); len(s.args) > 0 {
				args = append(args, s)
			}
			r := x.ts.mk("newslice", "", t.typ, args...)
			memo[t] = r
			return r
		}
	case "allocmap":
		return x.freezeMap(st, t, memo)
	case "clo", "fn", "param", "global", "const", "nil", "hv", "count":
		if ms := st.maps[t]; ms != nil {
			return x.freezeMap(st, t, memo)
		}
		return t
	}
	if ms := st.maps[t]; ms != nil && (len(ms.ups) > 0 || ms.tag != nil) {
		return x.freezeMap(st, t, memo)
	}
	if len(t.args) == 0 {
		return t
	}
	if st.dirty[t] != nil && computedSeq(t) {
		if r := x.shifted(st, t, memo); r != nil {
			memo[t] = r
			return r
		}
		memo[t] = x.ts.mk("cyc", "", t.typ)
		l := x.freezeM(st, x.lenOf(st, t), memo)
		r := x.ts.mk("newslice", "", t.typ, l, x.arrayState(st, t, memo))
		memo[t] = r
		return r
	}
	memo[t] = t
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = x.freezeM(st, a, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		if t.op == "lin" {
			l := linForm{map[*Term]int64{}, t.k}
			for i, a := range args {
				la, _ := toLin(a)
				if la.m == nil {
					continue
				}
				l = l.add(la, t.coef[i])
			}
			r = x.ts.fromLin(l, t.typ)
		} else {
			r = x.ts.mkf(t.op, t.aux, t.typ, t.fn, args...)
			r.nn = r.nn || t.nn
		}
	}
	memo[t] = r
	return r
}

func (x *Exec) freezeMap(st *State, m *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[m]; ok {
		return r
	}
	memo[m] = x.ts.mk("cyc", "", m.typ)
	ms := x.mapOf(st, m)
	var args []*Term
	if m.op != "allocmap" {
		args = append(args, m)
	}
	if ms != nil {
		if ms.tag != nil {
			args = append(args, ms.tag)
		} else if ms.base != nil {
			args = append(args, ms.base)
		}
		type kv struct{ k, v *Term }
		var kvs []kv
		allConst := true
		for _, u := range ms.ups {
			v := x.ts.mk("deleted", "", nil)
			if u.val != nil {
				v = x.freezeM(st, u.val, memo)
			}
			key := x.freezeM(st, u.key, memo)
			if !key.isConst() && key.op != "ld" && key.op != "param" {
				allConst = false
			}
			for i := 0; i < len(kvs); i++ {
				if kvs[i].k == key {
					kvs = append(kvs[:i], kvs[i+1:]...)
					break
				}
			}
			kvs = append(kvs, kv{key, v})
		}
		if allConst {
			sort.Slice(kvs, func(i, j int) bool { return kvs[i].k.id < kvs[j].k.id })
		}
		for _, e := range kvs {
			args = append(args, x.ts.mk("kv", "", nil, e.k, e.v))
		}
	}
	r := x.ts.mk("newmap", "", m.typ, args...)
	memo[m] = r
	return r
}

// ---- maps ----

func (x *Exec) mapOf(st *State, m *Term) *mapState {
	if ms := st.maps[m]; ms != nil {
		return ms
	}
	if x.initSt != nil {
		return x.initSt.maps[m]
	}
	return nil
}

func (x *Exec) mapGet(st *State, m, key *Term, vt types.Type) (val, has *Term) {
	boolean := types.Typ[types.Bool]
	ms := x.mapOf(st, m)
	if ms != nil {
		unknown := false
		for i := len(ms.ups) - 1; i >= 0; i-- {
			u := ms.ups[i]
			if u.key == key {
				if unknown {
					break
				}
				if u.val == nil {
					return x.ts.zero(vt), x.ts.boolT(false)
				}
				return u.val, x.ts.boolT(true)
			}
			ka, oka := st.facts.value(u.key)
			kb, okb := st.facts.value(key)
			if oka && okb {
				if x.ts.eqConst(ka, kb) {
					if unknown {
						break
					}
					if u.val == nil {
						return x.ts.zero(vt), x.ts.boolT(false)
					}
					return u.val, x.ts.boolT(true)
				}
				continue
			}
			if v, ok := st.facts.eval(x.ts.bin(token.EQL, u.key, key, boolean, u.key.typ)); ok && !v {
				continue
			}
			unknown = true
		}
		if unknown || ms.tag != nil {
			fm := x.freezeMap(st, m, map[*Term]*Term{})
			fk := x.freeze(st, key)
			return x.ts.mk("lookup", "", vt, fm, fk), x.ts.mk("has", "", boolean, fm, fk)
		}
		if ms.fresh {
			return x.ts.zero(vt), x.ts.boolT(false)
		}
		if ms.base != nil {
			m = ms.base
		}
	}
	if m.op == "nil" {
		return x.ts.zero(vt), x.ts.boolT(false)
	}
	fk := x.freeze(st, key)
	if m.op == "newmap" {
		// constant table
		dec := true
		for _, e := range m.args {
			if e.op != "kv" {
				dec = false
				break
			}
			if e.args[0] == fk {
				return e.args[1], x.ts.boolT(true)
			}
			if !fk.isConst() || !e.args[0].isConst() {
				dec = false
			}
		}
		if dec {
			return x.ts.zero(vt), x.ts.boolT(false)
		}
	}
	return x.ts.mk("lookup", "", vt, m, fk), x.ts.mk("has", "", boolean, m, fk)
}

// smallMap lists the entries of a map if all its keys are different constants.
func (x *Exec) smallMap(st *State, m *Term) ([][2]*Term, bool) {
	var es [][2]*Term
	seen := map[*Term]bool{}
	if ms := x.mapOf(st, m); ms != nil {
		if !ms.fresh || ms.tag != nil || ms.base != nil {
			return nil, false
		}
		// The last entry of a key counts.
		for i := len(ms.ups) - 1; i >= 0; i-- {
			u := ms.ups[i]
			if seen[u.key] {
				continue
			}
			seen[u.key] = true
			es = append(es, [2]*Term{u.key, u.val})
		}
	} else if m.op == "newmap" {
		for _, e := range m.args {
			if e.op != "kv" || !e.args[0].isConst() || e.args[1].op == "deleted" {
				return nil, false
			}
			es = append(es, [2]*Term{e.args[0], e.args[1]})
		}
	}
	return es, len(es) > 0 && len(es) <= 16
}

// mapCases distinguishes the entries of a small map by comparisons of the key.
func (x *Exec) mapCases(st *State, es [][2]*Term, key *Term, mt *types.Map, k func(st *State, v, has *Term)) {
	if len(es) == 0 {
		k(st, x.ts.zero(mt.Elem()), x.ts.boolT(false))
		return
	}
	x.fork(st, x.ts.bin(token.EQL, key, es[0][0], types.Typ[types.Bool], mt.Key()), func(st *State) {
		if es[0][1] == nil {
			k(st, x.ts.zero(mt.Elem()), x.ts.boolT(false))
			return
		}
		k(st, es[0][1], x.ts.boolT(true))
	}, func(st *State) { x.mapCases(st, es[1:], key, mt, k) })
}

func (x *Exec) mapSet(st *State, m, key, val *Term) {
	ms := st.maps[m]
	if ms == nil {
		ms = &mapState{}
		if o := x.mapOf(st, m); o != nil {
			*ms = *o
		}
		st.maps[m] = ms
	}
	ms.ups = append(ms.ups[:len(ms.ups):len(ms.ups)], mapUpd{key, val})
}

// ---- instructions ----

func (x *Exec) tick(fr *frame) {
	x.steps++
	if x.steps > x.maxSteps {
		panic(budgetError{"step budget exhausted in " + fr.fn.String()})
	}
}

func (x *Exec) instrs(fr *frame, st *State, b *ssa.BasicBlock, from int, sink func(*Path), k cont) {
	for i := from; i < len(b.Instrs); i++ {
		x.tick(fr)
		in := b.Instrs[i]
		if x.bounds && x.guard(fr, st, in) {
			k(st, "panic", []*Term{x.ts.strT("run-time error")}, in.Pos())
			return
		}
		switch n := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			x.branch(fr, st, n, b, sink, k)
			return
		case *ssa.Jump:
			x.block(fr, st, b.Succs[0], b, sink, k)
			return
		case *ssa.Return:
			vals := make([]*Term, len(n.Results))
			for j, r := range n.Results {
				vals[j] = x.val(fr, st, r)
			}
			k(st, "return", vals, n.Pos())
			return
		case *ssa.Panic:
			k(st, "panic", []*Term{x.freeze(st, x.val(fr, st, n.X))}, n.Pos())
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, sink, k, func(st2 *State) {
				f2 := fr.clone()
				f2.defers = nil
				x.instrs(f2, st2, b, i+1, sink, k)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &n.Call, pos: n.Pos()}
			if !n.Call.IsInvoke() {
				d.fnv = x.val(fr, st, n.Call.Value)
			} else {
				d.fnv = x.val(fr, st, n.Call.Value)
			}
			for _, a := range n.Call.Args {
				d.args = append(d.args, x.val(fr, st, a))
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		case *ssa.Go:
			st.events = append(st.events, &Event{kind: "go", name: calleeName(&n.Call), pos: n.Pos(), fn: fr.fn})
		case *ssa.Send:
			st.events = append(st.events, &Event{kind: "send", name: "chan", args: []*Term{x.freeze(st, x.val(fr, st, n.X))}, pos: n.Pos(), fn: fr.fn})
		case *ssa.Store:
			a := x.val(fr, st, n.Addr)
			if x.derefNil(st, a) {
				k(st, "panic", []*Term{x.ts.strT("nil dereference")}, n.Pos())
				return
			}
			x.store(st, a, x.val(fr, st, n.Val), n.Val.Type())
		case *ssa.MapUpdate:
			m := x.val(fr, st, n.Map)
			if m.op == "nil" {
				k(st, "panic", []*Term{x.ts.strT("assignment to entry in nil map")}, n.Pos())
				return
			}
			x.mapSet(st, m, x.val(fr, st, n.Key), x.val(fr, st, n.Value))
		case *ssa.Call:
			args := make([]*Term, len(n.Call.Args))
			for j, a := range n.Call.Args {
				args[j] = x.val(fr, st, a)
			}
			fnv := x.val(fr, st, n.Call.Value)
			x.doCall(fr, st, &n.Call, fnv, args, n.Type(), n.Pos(), sink, func(st2 *State, kind string, vals []*Term, pos token.Pos) {
				if kind != "return" {
					k(st2, kind, vals, pos)
					return
				}
				f2 := fr.clone()
				f2.env[n] = packTuple(x, n.Type(), vals)
				x.instrs(f2, st2, b, i+1, sink, k)
			})
			return
		case *ssa.Lookup:
			if mt, ok := n.X.Type().Underlying().(*types.Map); ok {
				m, key := x.val(fr, st, n.X), x.val(fr, st, n.Index)
				if v, _ := x.mapGet(st, m, key, mt.Elem()); v.op == "lookup" {
					if es, ok := x.smallMap(st, m); ok {
						x.mapCases(st, es, key, mt, func(st2 *State, v, has *Term) {
							f2 := fr.clone()
							f2.env[n] = v
							if n.CommaOk {
								f2.env[n] = x.ts.mk("tuple", "", n.Type(), v, has)
							}
							x.instrs(f2, st2, b, i+1, sink, k)
						})
						return
					}
				}
			}
			fr.env[n] = x.pure(fr, st, n)
		case *ssa.IndexAddr:
			a, i0 := x.val(fr, st, n.X), x.val(fr, st, n.Index)
			if _, ok := i0.intConst(); !ok {
				if size := x.smallTable(st, n, a); size > 0 {
					x.tableCases(st, i0, 0, size, func(st2 *State, j int64) {
						if j == size {
							k(st2, "panic", []*Term{x.ts.strT("index out of range")}, n.Pos())
							return
						}
						f2 := fr.clone()
						f2.env[n] = x.idxAddr(a, x.ts.intT(j), sliceElem(n.X.Type()))
						x.instrs(f2, st2, b, i+1, sink, k)
					})
					return
				}
			}
			if x.splitCases && i0.op == "ld" && i0.args[0].op == "fld" {
				// A position that is kept in a field and read through is not negative. Only the later attempts use this.
				if !st.facts.assume(x.ts.bin(token.LSS, i0, x.ts.intT(0), types.Typ[types.Bool], i0.typ), false) {
					return
				}
			}
			fr.env[n] = x.pure(fr, st, n)
		case *ssa.Next:
			if n.IsString {
				it := x.val(fr, st, n.Iter)
				idx := x.ts.mk("strpos", fmt.Sprintf("%d", st.nloop), types.Typ[types.Int], it.args...)
				okT := x.ts.mk("strmore", "", types.Typ[types.Bool], append([]*Term{idx}, it.args...)...)
				r := x.ts.mk("runeat", "", types.Typ[types.Rune], append([]*Term{idx}, it.args...)...)
				fr.env[n] = x.ts.mk("tuple", "", n.Type(), okT, idx, r)
				break
			}
			it := x.val(fr, st, n.Iter)
			m := it.args[0]
			kt := n.Type().(*types.Tuple).At(1).Type()
			mt, _ := m.typ.Underlying().(*types.Map)
			if mt != nil {
				kt = mt.Key()
			}
			fm := x.freeze(st, m)
			key := x.ts.mk("mapkey", fmt.Sprintf("L%d", st.nloop-1), kt, fm)
			okT := x.ts.mk("more", fmt.Sprintf("L%d", st.nloop-1), types.Typ[types.Bool], fm)
			var v *Term
			if mt != nil {
				v, _ = x.mapGet(st, m, key, mt.Elem())
			} else {
				v = x.ts.mk("mapval", "", types.Typ[types.Int], fm, key)
			}
			fr.env[n] = x.ts.mk("tuple", "", n.Type(), okT, key, v)
		case *ssa.UnOp:
			if n.Op == token.MUL {
				a := x.val(fr, st, n.X)
				if x.derefNil(st, a) {
					k(st, "panic", []*Term{x.ts.strT("nil dereference")}, n.Pos())
					return
				}
				if runs := x.boolTable(a, n.Type()); runs != nil {
					x.tableRuns(st, a.args[1], runs, func(st2 *State, v bool) {
						f2 := fr.clone()
						f2.env[n] = x.ts.boolT(v)
						x.instrs(f2, st2, b, i+1, sink, k)
					})
					return
				}
				fr.env[n] = x.load(st, a, n.Type())
				break
			}
			t, ok := x.pureValue(fr, st, n)
			if !ok {
				t = x.ts.mk("unop", n.Op.String(), n.Type(), x.val(fr, st, n.X))
			}
			fr.env[n] = t
		case *ssa.FieldAddr:
			a := x.val(fr, st, n.X)
			if x.derefNil(st, a) {
				k(st, "panic", []*Term{x.ts.strT("nil dereference")}, n.Pos())
				return
			}
			// Accessing a field implies that the pointer is not nil.
			if !x.assumeNonNil(st, a) {
				return
			}
			fr.env[n] = x.pure(fr, st, n)
		case *ssa.TypeAssert:
			v := x.val(fr, st, n.X)
			if n.CommaOk {
				c, val := x.typeAssert(st, v, n.AssertedType)
				fr.env[n] = x.ts.mk("tuple", "", n.Type(), val, c)
				break
			}
			c, val := x.typeAssert(st, v, n.AssertedType)
			if dv, ok := st.facts.eval(c); ok && !dv {
				k(st, "panic", []*Term{x.ts.strT("type assertion")}, n.Pos())
				return
			}
			if !st.facts.assume(c, true) {
				return
			}
			fr.env[n] = val
		case ssa.Value:
			fr.env[n] = x.pure(fr, st, n)
		default:
			panic(budgetError{fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn)})
		}
	}
}

func (x *Exec) derefNil(st *State, a *Term) bool {
	if a.op == "nil" {
		return true
	}
	if v, ok := st.facts.value(a); ok && v.op == "nil" {
		return true
	}
	return false
}

func (x *Exec) assumeNonNil(st *State, a *Term) bool {
	if st.facts.nonNil(a) {
		return true
	}
	// not recorded as a branch condition: dereferences are implicit checks
	if v, ok := st.facts.value(a); ok && v.op == "nil" {
		return false
	}
	st.facts.addNeq(a, x.ts.nilT(nil))
	return true
}

func packTuple(x *Exec, t types.Type, vals []*Term) *Term {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return x.ts.mk("tuple", "", t)
		}
		return x.ts.mk("tuple", "", t, vals...)
	}
	if len(vals) == 1 {
		return vals[0]
	}
	return x.ts.mk("tuple", "", t, vals...)
}

func (x *Exec) branch(fr *frame, st *State, n *ssa.If, b *ssa.BasicBlock, sink func(*Path), k cont) {
	c := x.val(fr, st, n.Cond)
	if v, ok := st.facts.eval(c); ok {
		i := 0
		if !v {
			i = 1
		}
		x.block(fr, st, b.Succs[i], b, sink, k)
		return
	}
	x.branches[n.Cond.Pos()] = true
	fr0 := fr.clone()
	x.cases(st, c, func(st *State) {
		x.block(fr0.clone(), st, b.Succs[0], b, sink, k)
	}, func(st *State) {
		x.block(fr0.clone(), st, b.Succs[1], b, sink, k)
	})
}

func (x *Exec) runDefers(fr *frame, st *State, sink func(*Path), k cont, next func(*State)) {
	var run func(i int, st *State)
	run = func(i int, st *State) {
		if i < 0 {
			next(st)
			return
		}
		d := fr.defers[i]
		var rt types.Type = d.call.Signature().Results()
		x.doCall(fr, st, d.call, d.fnv, d.args, rt, d.pos, sink, func(st2 *State, kind string, vals []*Term, pos token.Pos) {
			if kind != "return" {
				k(st2, kind, vals, pos)
				return
			}
			run(i-1, st2)
		})
	}
	run(len(fr.defers)-1, st)
}

func (x *Exec) pure(fr *frame, st *State, v ssa.Value) *Term {
	t, ok := x.pureValue(fr, st, v)
	if !ok {
		panic(budgetError{fmt.Sprintf("unsupported value %T in %s", v, fr.fn)})
	}
	return t
}

func (x *Exec) pureValue(fr *frame, st *State, v ssa.Value) (*Term, bool) {
	ts := x.ts
	switch n := v.(type) {
	case *ssa.Alloc:
		a := x.alloc(n.Type().Underlying().(*types.Pointer).Elem())
		return a, true
	case *ssa.UnOp:
		a := x.val(fr, st, n.X)
		switch n.Op {
		case token.MUL:
			return x.load(st, a, n.Type()), true
		case token.NOT:
			return ts.not(a), true
		case token.SUB:
			if isInt(n.Type()) {
				if l, ok := toLin(a); ok {
					return ts.fromLin(linForm{map[*Term]int64{}, 0}.add(l, -1), n.Type()), true
				}
			}
			if a.op == "const" {
				return ts.konst(constant.UnaryOp(token.SUB, a.cv, 0), n.Type()), true
			}
			return ts.mk("neg", "", n.Type(), a), true
		case token.XOR:
			return ts.mk("cpl", "", n.Type(), a), true
		}
		return nil, false
	case *ssa.BinOp:
		a, b := x.val(fr, st, n.X), x.val(fr, st, n.Y)
		if n.Op == token.EQL || n.Op == token.NEQ {
			c := x.equality(st, a, b, n.X.Type())
			if n.Op == token.NEQ {
				c = ts.not(c)
			}
			return c, true
		}
		return ts.bin(n.Op, a, b, n.Type(), n.X.Type()), true
	case *ssa.ChangeType:
		return x.val(fr, st, n.X), true
	case *ssa.ChangeInterface:
		return x.val(fr, st, n.X), true
	case *ssa.Convert:
		return x.convert(st, x.val(fr, st, n.X), n.X.Type(), n.Type()), true
	case *ssa.MultiConvert:
		return x.convert(st, x.val(fr, st, n.X), n.X.Type(), n.Type()), true
	case *ssa.MakeInterface:
		a := x.val(fr, st, n.X)
		return ts.mk("iface", "", n.X.Type(), a), true
	case *ssa.MakeClosure:
		fn := n.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range n.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		return ts.mkf("clo", fn.String(), n.Type(), fn, bs...), true
	case *ssa.MakeMap:
		x.nalloc++
		m := ts.mk("allocmap", strconv.Itoa(x.nalloc), n.Type())
		st.maps[m] = &mapState{fresh: true}
		return m, true
	case *ssa.MakeChan:
		x.nalloc++
		return ts.mk("chan", strconv.Itoa(x.nalloc), n.Type()), true
	case *ssa.MakeSlice:
		l := x.val(fr, st, n.Len)
		if v, ok := l.intConst(); ok && v == 0 {
			return ts.mk("seq", "", n.Type()), true
		}
		et := n.Type().Underlying().(*types.Slice).Elem()
		a := x.alloc(types.NewArray(et, 1<<40))
		st.lens[a] = l
		return ts.mk("slice", "", n.Type(), a, ts.intT(0), ts.mk("undefhi", "", nil)), true
	case *ssa.Slice:
		a := x.val(fr, st, n.X)
		lo := ts.intT(0)
		if n.Low != nil {
			lo = x.val(fr, st, n.Low)
		}
		hi := ts.mk("undefhi", "", nil)
		if n.High != nil {
			hi = x.val(fr, st, n.High)
		}
		if p, ok := n.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok {
				st.lens[a] = ts.intT(arr.Len())
				if hi.op == "undefhi" {
					hi = ts.intT(arr.Len())
				}
			}
		}
		return x.sliceT(st, a, lo, hi, n.Type()), true
	case *ssa.FieldAddr:
		a := x.val(fr, st, n.X)
		s := n.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return x.fieldAddr(a, n.Field, s), true
	case *ssa.Field:
		return x.field(x.val(fr, st, n.X), strconv.Itoa(n.Field), n.Type()), true
	case *ssa.IndexAddr:
		a := x.val(fr, st, n.X)
		return x.idxAddr(a, x.val(fr, st, n.Index), sliceElem(n.X.Type())), true
	case *ssa.Index:
		a, i := x.val(fr, st, n.X), x.val(fr, st, n.Index)
		if v, ok := i.intConst(); ok {
			if a.op == "agg" && v >= 0 && int(v) < len(a.args) {
				return a.args[v], true
			}
			if s, ok := a.strConst(); ok && v >= 0 && int(v) < len(s) {
				return ts.konst(constant.MakeInt64(int64(s[v])), n.Type()), true
			}
		}
		if a.op == "slice" {
			return ts.mk("elem", "", n.Type(), a.args[0], ts.bin(token.ADD, a.args[1], i, types.Typ[types.Int], types.Typ[types.Int])), true
		}
		return ts.mk("elem", "", n.Type(), a, i), true
	case *ssa.Lookup:
		m, key := x.val(fr, st, n.X), x.val(fr, st, n.Index)
		mt, ok := n.X.Type().Underlying().(*types.Map)
		if !ok { // string index
			if v, ok := key.intConst(); ok {
				if s, ok := m.strConst(); ok && v >= 0 && int(v) < len(s) {
					return ts.konst(constant.MakeInt64(int64(s[v])), n.Type()), true
				}
			}
			if m.op == "slice" {
				return ts.mk("elem", "", n.Type(), m.args[0], ts.bin(token.ADD, m.args[1], key, types.Typ[types.Int], types.Typ[types.Int])), true
			}
			return ts.mk("elem", "", n.Type(), m, key), true
		}
		val, has := x.mapGet(st, m, key, mt.Elem())
		if n.CommaOk {
			return ts.mk("tuple", "", n.Type(), val, has), true
		}
		return val, true
	case *ssa.Extract:
		tup := x.val(fr, st, n.Tuple)
		if tup.op == "tuple" && n.Index < len(tup.args) {
			return tup.args[n.Index], true
		}
		return ts.mk("extract", strconv.Itoa(n.Index), n.Type(), tup), true
	case *ssa.Range:
		return ts.mk("iter", "", n.X.Type(), x.val(fr, st, n.X)), true
	case *ssa.SliceToArrayPointer:
		return ts.mk("conv", "arrptr", n.Type(), x.val(fr, st, n.X)), true
	case *ssa.Select:
		return ts.mk("select", fmt.Sprint(x.nalloc), n.Type()), true
	case *ssa.Phi:
		return fr.env[n], true
	}
	return nil, false
}

// equality compares two values, struct values are compared field by field.
func (x *Exec) equality(st *State, a, b *Term, t types.Type) *Term {
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ, b.typ) {
			return x.ts.boolT(false)
		}
		return x.equality(st, a.args[0], b.args[0], a.typ)
	}
	if (a.op == "alloc" && b.op == "alloc") && a != b {
		return x.ts.boolT(false)
	}
	if a.op == "allocmap" && b.op == "nil" || b.op == "allocmap" && a.op == "nil" {
		return x.ts.boolT(false)
	}
	return x.ts.bin(token.EQL, a, b, types.Typ[types.Bool], t)
}

func (x *Exec) convert(st *State, a *Term, from, to types.Type) *Term {
	ts := x.ts
	if types.Identical(from.Underlying(), to.Underlying()) {
		return a
	}
	if a.op == "const" {
		switch {
		case isInt(from) && isInt(to), isFloat(from) && isFloat(to), isInt(from) && isFloat(to):
			if to.Underlying().(*types.Basic).Info()&types.IsUnsigned != 0 {
				if v, ok := a.intConst(); ok && v < 0 {
					break
				}
			}
			return ts.konst(a.cv, to)
		case isFloat(from) && isInt(to):
			if v := constant.ToInt(a.cv); v.Kind() == constant.Int {
				return ts.konst(v, to)
			}
		case isInt(from) && isString(to):
			if v, ok := a.intConst(); ok {
				return ts.strT(string(rune(v)))
			}
		}
	}
	if isInt(from) && isString(to) {
		return x.runeStr(a)
	}
	if isString(to) {
		if sl, ok := from.Underlying().(*types.Slice); ok && isRune(sl.Elem()) {
			if q := x.seqOf(st, a); q.op == "seq" {
				r := ts.strT("")
				for _, e := range q.args {
					r = ts.concat(r, x.runeStr(e))
				}
				return r
			}
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isRune(sl.Elem()) {
		if v, ok := a.strConst(); ok && len(v) <= 16 {
			var el []*Term
			for _, r := range v {
				el = append(el, ts.konst(constant.MakeInt64(int64(r)), sl.Elem()))
			}
			return ts.mk("seq", "", to, el...)
		}
	}
	if isByteSlice(to) || isByteSlice(from) {
		a = x.freeze(st, a)
	}
	// string([]byte(s)) is s
	if a.op == "conv" && (isString(to) && isByteSlice(a.typ) && isString(a.args[0].typ0()) || isByteSlice(to) && isString(a.typ) && isByteSlice(a.args[0].typ)) {
		return a.args[0]
	}
	if isInt(from) && isInt(to) {
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if widens(fb, tb) {
			return a // value preserving
		}
	}
	return ts.mk("conv", typeKey(from.Underlying()), to, a)
}

func bits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func widens(f, t *types.Basic) bool {
	fb, fs := bits(f)
	tb, tsg := bits(t)
	if fs == tsg {
		return tb >= fb
	}
	return !fs && tsg && tb > fb
}

func (x *Exec) typeAssert(st *State, v *Term, t types.Type) (ok, val *Term) {
	ts := x.ts
	if v.op == "iface" {
		m := typeMatches(v.typ, t)
		if !m {
			return ts.boolT(false), ts.zero(t)
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			return ts.boolT(true), v
		}
		return ts.boolT(true), v.args[0]
	}
	if v.op == "nil" {
		return ts.boolT(false), ts.zero(t)
	}
	c := ts.mk("istype", "", t, v)
	if _, isI := t.Underlying().(*types.Interface); isI {
		if v.typ != nil {
			if vi, ok := v.typ.Underlying().(*types.Interface); ok && types.Implements(vi, t.Underlying().(*types.Interface)) {
				return ts.not(ts.bin(token.EQL, v, ts.nilT(nil), types.Typ[types.Bool], v.typ)), v
			}
		}
		return c, v
	}
	return c, ts.mk("asserted", "", t, v)
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "dynamic"
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func fnPkgPath(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		return fnPkgPath(f.Parent())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func isWrapper(f *ssa.Function) bool {
	return f.Synthetic != "" && len(f.Blocks) > 0 && (strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk"))
}

func (x *Exec) canUnfold(f *ssa.Function, stack []*ssa.Function) bool {
	n := 0
	for _, s := range stack {
		if s == f {
			n++
		}
	}
	return n < 2 && len(f.Blocks) > 0 && inModule(fnPkgPath(f)) && (x.unfoldLoops || len(x.loopsOf(f)) == 0)
}

func (x *Exec) canInline(f *ssa.Function, stack []*ssa.Function) bool {
	if len(f.Blocks) == 0 || len(stack) > 24+20*x.rec {
		return false
	}
	n := 0
	for _, s := range stack {
		if s == f {
			if n++; n > x.rec {
				return false
			}
		}
	}
	return inModule(fnPkgPath(f)) || isWrapper(f) || x.extIn[fnName(f)] || inlineExt(fnName(f), f)
}

func (x *Exec) doCall(fr *frame, st *State, c *ssa.CallCommon, fnv *Term, args []*Term, rt types.Type, pos token.Pos, sink func(*Path), k cont) {
	x.ncalls++
	if c.IsInvoke() {
		if fnv.op == "nil" {
			k(st, "panic", []*Term{x.ts.strT("nil dereference")}, pos)
			return
		}
		if v, ok := st.facts.value(fnv); ok && v.op == "nil" {
			k(st, "panic", []*Term{x.ts.strT("nil dereference")}, pos)
			return
		}
		if !x.assumeNonNil(st, fnv) {
			return
		}
		recv := fnv
		var dyn types.Type
		if fnv.op == "iface" {
			dyn = fnv.typ
			recv = fnv.args[0]
		} else if dt, ok := st.facts.typ[fnv]; ok {
			dyn = dt
			recv = x.ts.mk("asserted", "", dt, fnv)
		}
		if dyn != nil {
			if m := x.w.prog.LookupMethod(dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
				if x.pureInv != nil && x.pureInv(c.Method) && fnv.op != "iface" && len(args) == 0 {
					// the unknown call that was made before the dynamic type was known has the same result
					same := x.results(x.ts.mk("call", "invoke:"+c.Method.FullName(), rt, x.freeze(st, fnv)), rt)
					k0 := k
					k = func(st *State, kind string, vals []*Term, pos token.Pos) {
						if kind == "return" && len(vals) == 1 {
							if !st.facts.assume(x.ts.eq2(st.facts.simp(same[0]), st.facts.simp(vals[0])), true) {
								return
							}
						}
						k0(st, kind, vals, pos)
					}
				}
				x.static(fr, st, m, nil, append([]*Term{recv}, args...), rt, pos, sink, k)
				return
			}
		}
		name := c.Method.FullName()
		if name == "(reflect.Type).Kind" && fnv.op == "call" && fnv.aux == "reflect.TypeOf" && fnv.args[0].op == "iface" && fnv.args[0].typ != nil {
			if kd, ok := reflectKind(fnv.args[0].typ); ok {
				k(st, "return", []*Term{x.ts.konst(constant.MakeInt64(int64(kd)), rt)}, pos)
				return
			}
		}
		if x.pureInv != nil && x.pureInv(c.Method) {
			x.pureCall(st, "invoke:"+name, append([]*Term{fnv}, args...), rt, pos, k)
			return
		}
		x.opaqueCall(fr, st, "invoke", name, append([]*Term{fnv}, args...), rt, pos, k)
		return
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, bi.Name(), args, c, rt, pos, k)
		return
	}
	switch fnv.op {
	case "fn":
		x.static(fr, st, fnv.fn, nil, args, rt, pos, sink, k)
	case "clo":
		x.static(fr, st, fnv.fn, fnv.args, args, rt, pos, sink, k)
	case "nil":
		k(st, "panic", []*Term{x.ts.strT("nil function")}, pos)
	default:
		if v, ok := st.facts.value(fnv); ok && v.op == "nil" {
			k(st, "panic", []*Term{x.ts.strT("nil function")}, pos)
			return
		}
		if !x.assumeNonNil(st, fnv) {
			return
		}
		if x.pureFn != nil && x.pureFn(c.Value.Type()) {
			x.pureCall(st, "func:"+typeKey(c.Value.Type()), append([]*Term{fnv}, args...), rt, pos, k)
			return
		}
		x.opaqueCall(fr, st, "callfn", "func", append([]*Term{fnv}, args...), rt, pos, k)
	}
}

func (x *Exec) static(fr *frame, st *State, fn *ssa.Function, bindings, args []*Term, rt types.Type, pos token.Pos, sink func(*Path), k cont) {
	name := fnName(fn)
	if name == "strings.Join" && args[0].op == "joinlist" {
		k(st, "return", []*Term{args[0].args[0]}, pos)
		return
	}
	if a, ok := x.alias[name]; ok {
		x.pureCall(st, a, args, rt, pos, k)
		return
	}
	switch x.opaque[name] {
	case "pure":
		if x.unfold && len(fr.stack) < 6 && x.canUnfold(fn, fr.stack) {
			x.callFn(st, fn, args, bindings, fr.stack, func(p *Path) { sink(p) }, k)
			return
		}
		x.pureCall(st, name, args, rt, pos, k)
		return
	case "event":
		x.opaqueCall(fr, st, "call", name, args, rt, pos, k)
		return
	case "state":
		x.stateCall(fr, st, name, args, nil, rt, pos, k)
		return
	case "state:0", "state:1", "state:2":
		// only the object of one argument is changed
		i := int(x.opaque[name][len("state:")] - '0')
		x.stateCall(fr, st, name, args, func(j int) bool { return j != i }, rt, pos, k)
		return
	}
	if f := x.w.zmodel[name]; f != nil {
		fn, name = f, fnName(f)
	}
	if m, ok := models[name]; ok {
		if m(x, fr, st, args, rt, pos, k) {
			return
		}
	}
	if x.canInline(fn, fr.stack) {
		x.callFn(st, fn, args, bindings, fr.stack, func(p *Path) {
			sink(p)
		}, k)
		return
	}
	if isPureExternal(name, fn) {
		x.pureCall(st, name, args, rt, pos, k)
		return
	}
	x.opaqueCall(fr, st, "call", name, args, rt, pos, k)
}

func (x *Exec) results(t *Term, rt types.Type) []*Term {
	if tup, ok := rt.(*types.Tuple); ok {
		if tup.Len() == 1 {
			return []*Term{x.ts.mk("res", "0", tup.At(0).Type(), t)}
		}
		var r []*Term
		for i := 0; i < tup.Len(); i++ {
			r = append(r, x.ts.mk("res", strconv.Itoa(i), tup.At(i).Type(), t))
		}
		return r
	}
	return []*Term{x.ts.mk("res", "0", rt, t)}
}

func (x *Exec) pureCall(st *State, name string, args []*Term, rt types.Type, pos token.Pos, k cont) {
	fz := make([]*Term, len(args))
	for i, a := range args {
		fz[i] = x.freeze(st, a)
	}
	t := x.ts.mk("call", name, rt, fz...)
	k(st, "return", x.results(t, rt), pos)
}

func (x *Exec) opaqueCall(fr *frame, st *State, kind, name string, args []*Term, rt types.Type, pos token.Pos, k cont) {
	x.opaqueKeep(fr, st, kind, name, args, nil, rt, pos, k)
}

// opaqueKeep is a call of unknown effect that does not change the arguments for which keep reports true.
func (x *Exec) opaqueKeep(fr *frame, st *State, kind, name string, args []*Term, keep func(i int) bool, rt types.Type, pos token.Pos, k cont) {
	fz := make([]*Term, len(args))
	key := kind + name
	for i, a := range args {
		fz[i] = x.freeze(st, a)
	}
	n := st.occ[key]
	st.occ[key] = n + 1
	// The result is named by the position of the call, its arguments are part of the event.
	t := x.ts.mk("call", fmt.Sprintf("%s#%d@%d", name, n, st.nloop-1), rt)
	ev := &Event{kind: kind, name: name, args: fz, res: t, pos: pos, fn: fr.fn}
	st.events = append(st.events[:len(st.events):len(st.events)], ev)
	// The callee may write to objects that were created on this path.
	for i, a := range args {
		if kind == "callfn" && i == 0 || keep != nil && keep(i) {
			continue
		}
		x.escape(st, a, x.ts.mk("arg", strconv.Itoa(i), nil, t), kind == "call", 0)
	}
	k(st, "return", x.results(t, rt), pos)
}

// stateCall is a call whose observable inputs include the objects its arguments point to and that may change them.
func (x *Exec) stateCall(fr *frame, st *State, name string, args []*Term, keep func(i int) bool, rt types.Type, pos token.Pos, k cont) {
	all := append([]*Term(nil), args...)
	for _, a := range args {
		if t := structPtr(a); t != nil {
			all = append(all, x.load(st, a, t))
		}
	}
	n := len(st.events)
	x.opaqueKeep(fr, st, "call", name, all, keep, rt, pos, func(st *State, kind string, vals []*Term, pos token.Pos) {
		res := st.events[n].res
		for i, a := range args {
			if keep != nil && keep(i) {
				continue
			}
			if t := structPtr(a); t != nil && a.op != "alloc" {
				x.havocStruct(st, a, t, x.ts.mk("arg", strconv.Itoa(i), nil, res), "")
			}
		}
		k(st, kind, vals, pos)
	})
}

// havocStruct gives every field of the object at addr an unknown value.
func (x *Exec) havocStruct(st *State, addr *Term, t types.Type, tag *Term, path string) {
	s := structFields(t)
	if s == nil {
		if addr.op == "fld" {
			i, _ := strconv.Atoi(addr.aux)
			if v := zeroFieldCandidate(addr.args[0].typ, i); v != nil && x.w.zeroFields()[v] {
				return
			}
		}
		st.mem[addr] = x.ts.mk("out", path, t, tag)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		x.havocStruct(st, x.fieldAddr(addr, i, s), s.Field(i).Type(), tag, fmt.Sprintf("%s.%d", path, i))
	}
}

// structPtr returns the struct type a pointer to an object of the module points to.
func structPtr(a *Term) types.Type {
	if a.typ == nil {
		return nil
	}
	p, ok := a.typ.Underlying().(*types.Pointer)
	if !ok || structFields(p.Elem()) == nil {
		return nil
	}
	if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) {
		return p.Elem()
	}
	return nil
}

// escape marks local objects whose address is passed to unknown code as changed.
func (x *Exec) escape(st *State, a, tag *Term, lib bool, d int) {
	if d > 3 {
		return
	}
	switch a.op {
	case "iface":
		if _, ok := a.typ.Underlying().(*types.Pointer); ok {
			x.escape(st, a.args[0], tag, lib, d+1)
		}
	case "slice":
		if lib && a.args[0].op == "alloc" {
			x.dirtyRoot(st, a.args[0], tag)
		}
	case "allocmap":
		if lib {
			st.maps[a] = &mapState{fresh: true, tag: tag}
		}
	case "alloc":
		et := x.allocTyp[a]
		if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) && !lib && d > 0 {
			// Errors and other values of the module that are handed to callbacks as interfaces: their contents are kept.
			return
		}
		x.dirtyRoot(st, a, tag)
	}
}

// sliceT is the part of a slice or text between lo and hi.
func (x *Exec) sliceT(st *State, a, lo, hi *Term, t types.Type) *Term {
	ts := x.ts
	lo0, isLo := lo.intConst()
	if isLo && lo0 == 0 && hi.op == "undefhi" && (isString(t) || a.op == "seq" || a.op == "slice" || a.op == "nil") {
		return a
	}
	if s, ok := a.strConst(); ok && isLo {
		h := int64(len(s))
		ok := true
		if hi.op != "undefhi" {
			h, ok = hi.intConst()
		}
		if ok && lo0 >= 0 && h <= int64(len(s)) && lo0 <= h {
			return ts.strT(s[lo0:h])
		}
	}
	if a.op == "seq" && isLo {
		h := int64(len(a.args))
		ok := true
		if hi.op != "undefhi" {
			h, ok = hi.intConst()
		}
		if ok && lo0 >= 0 && lo0 <= h && h <= int64(len(a.args)) {
			return ts.mk("seq", "", t, a.args[lo0:h]...)
		}
	}
	if hi.op != "undefhi" && hi == x.lenOf(st, a) && a.op != "alloc" {
		hi = ts.mk("undefhi", "", nil)
		if isLo && lo0 == 0 {
			return a
		}
	}
	if a.op == "slice" {
		nlo := ts.bin(token.ADD, a.args[1], lo, types.Typ[types.Int], types.Typ[types.Int])
		nhi := a.args[2]
		if hi.op != "undefhi" {
			nhi = ts.bin(token.ADD, a.args[1], hi, types.Typ[types.Int], types.Typ[types.Int])
		}
		return ts.mk("slice", "", t, a.args[0], nlo, nhi)
	}
	return ts.mk("slice", "", t, a, lo, hi)
}

// reflectKind is the kind of the values of a type.
func reflectKind(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, ok := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String}[u.Kind()]
		return k, ok
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Map:
		return reflect.Map, true
	}
	return 0, false
}
