package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mod-ref analysis: for every function, which memory that existed before the call may be written by it, as access paths from its
// parameters, its captured variables and the package variables. Summaries are computed bottom-up to a fixed point; objects that the
// function allocates are tracked field by field and never count. Library functions with a body are analysed the same way.

type abase struct {
	kind byte // 'P' parameter, 'F' captured variable, 'G' package variable, 'A' allocated here, 'C' code, 'K' captured by an unknown closure, 'N' never nil external result
	n    int
	v    any
	ctx  any
}

type aloc struct {
	b    abase
	path string
}

type aset map[aloc]struct{}

func (s aset) add(l aloc) bool {
	if _, ok := s[l]; ok {
		return false
	}
	s[l] = struct{}{}
	return true
}

func (s aset) addAll(o aset) bool {
	ch := false
	for l := range o {
		if s.add(l) {
			ch = true
		}
	}
	return ch
}

const maxPath = 9

func ext(l aloc, step string) aloc {
	if strings.HasSuffix(l.path, "…") {
		return l
	}
	p := l.path + step
	if strings.Count(p, ".")+strings.Count(p, "[")+strings.Count(p, "→") > maxPath {
		p = l.path + "…"
	}
	return aloc{l.b, p}
}

type effect struct {
	loc  aloc
	pos  token.Pos
	fn   *ssa.Function
	what string
}

type pendCall struct {
	fnv  aset
	args []aset
	pos  token.Pos
}

type effSummary struct {
	writes map[aloc]effect
	rets   []aset
	cells  map[aloc]aset
	pend   map[ssa.Instruction]*pendCall
}

func (s *effSummary) size() int {
	n := len(s.writes) + len(s.pend)
	for _, r := range s.rets {
		n += len(r)
	}
	for _, c := range s.cells {
		n += len(c) + 1
	}
	for _, p := range s.pend {
		n += len(p.fnv)
		for _, a := range p.args {
			n += len(a)
		}
	}
	return n
}

type Effects struct {
	w       *World
	sum     map[*ssa.Function]*effSummary
	order   []*ssa.Function
	closed  map[ssa.Value]*ssa.MakeClosure
	taken   []*ssa.Function // functions of the module that are used as values
	isTaken map[*ssa.Function]bool
	impls   map[string][]*ssa.Function
	changed bool
	unknown map[string]bool
	stack   map[*ssa.Function]bool
}

// packages whose functions are not analysed; they have no effects except those of extWrites.
func effOpaque(path string) bool {
	switch path {
	case "runtime", "reflect", "sync", "sync/atomic", "unsafe", "syscall", "os", "io/fs", "time", "encoding/json", "embed", "log", "unicode/utf8", "context", "testing", "errors":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "golang.org/x/text/internal") || path == "golang.org/x/text/message" || path == "golang.org/x/text/number" || path == "fmt" || path == "regexp" || path == "golang.org/x/text/language"
}

// extWrites gives the parameters (receiver first) of library functions whose memory is written.
var extWrites = map[string][]int{
	"encoding/json.Unmarshal": {1}, "(*encoding/json.Decoder).Decode": {0, 1}, "(*encoding/json.Encoder).Encode": {0}, "(*encoding/json.Encoder).SetIndent": {0}, "(*encoding/json.Encoder).SetEscapeHTML": {0}, "(*encoding/json.Decoder).UseNumber": {0}, "(*encoding/json.Decoder).Token": {0},
	"encoding/json.Indent": {0}, "encoding/json.Compact": {0}, "encoding/json.HTMLEscape": {0},
	"fmt.Fprintf": {0}, "fmt.Fprint": {0}, "fmt.Fprintln": {0}, "fmt.Sscanf": {2}, "fmt.Sscan": {1}, "fmt.Fscanf": {0, 2}, "fmt.Fscan": {0, 1}, "fmt.Sscanln": {1},
	"fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Appendln": {0},
	"(*os.File).Write": {0}, "(*os.File).Read": {0, 1},
	"reflect.Copy": {0}, "(reflect.Value).Set": {0}, "(reflect.Value).SetInt": {0}, "(reflect.Value).SetString": {0}, "(reflect.Value).SetFloat": {0}, "(reflect.Value).SetLen": {0}, "(reflect.Value).SetMapIndex": {0}, "(reflect.Value).SetBool": {0}, "(reflect.Value).SetUint": {0}, "(reflect.Value).SetZero": {0}, "(reflect.Value).Clear": {0},
	"reflect.Swapper": {0}, "internal/reflectlite.Swapper": {0}, "errors.As": {1},
	"(*golang.org/x/text/message.Printer).Fprintf": {1},
	"(*time.Time).UnmarshalText":                   {0}, "(*time.Time).UnmarshalJSON": {0}, "(*time.Timer).Reset": {0},
	"(time.Time).AppendFormat": {1}, "unicode/utf8.AppendRune": {0}, "unicode/utf8.EncodeRune": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0},
	"io/fs.ReadFile": {}, "(*sync.Mutex).Lock": {}, "(*math/rand.Rand).Int63": {0}, "math/rand.Shuffle": {},
	"(*golang.org/x/text/language.Tag).UnmarshalText": {0},
}

// methods of interfaces that change their receiver (and the given arguments).
var mutMethods = map[string][]int{
	"Write": {0}, "WriteString": {0}, "WriteByte": {0}, "WriteRune": {0}, "Read": {0, 1}, "ReadByte": {0}, "ReadRune": {0}, "Swap": {0}, "Push": {0}, "Pop": {0}, "Seek": {0}, "UnmarshalJSON": {0}, "UnmarshalText": {0}, "ReadFrom": {0, 1}, "WriteTo": {0, 1},
}

func newEffects(w *World) *Effects {
	e := &Effects{w: w, sum: map[*ssa.Function]*effSummary{}, isTaken: map[*ssa.Function]bool{}, unknown: map[string]bool{}, impls: map[string][]*ssa.Function{}, stack: map[*ssa.Function]bool{}}
	for _, f := range w.moduleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok || isMainPkg(g) || !inModule(fnPkgPath(g)) || e.isTaken[g] {
						continue
					}
					if *op == callee {
						n := 0
						for _, o := range in.Operands(nil) {
							if *o == callee {
								n++
							}
						}
						if n == 1 {
							continue
						}
					}
					e.isTaken[g] = true
					e.taken = append(e.taken, g)
				}
			}
		}
	}
	sort.Slice(e.taken, func(i, j int) bool { return e.taken[i].String() < e.taken[j].String() })
	return e
}

// solve computes the summaries of everything reachable from the roots.
func (e *Effects) solve(roots []*ssa.Function) {
	for _, f := range roots {
		e.need(f)
	}
	for i := 0; i < 40; i++ {
		e.changed = false
		for j := 0; j < len(e.order); j++ {
			e.analyze(e.order[j])
		}
		if !e.changed {
			return
		}
	}
	panic(budgetError{"the effects did not reach a fixed point"})
}

func (e *Effects) need(f *ssa.Function) *effSummary {
	if s, ok := e.sum[f]; ok {
		return s
	}
	s := &effSummary{writes: map[aloc]effect{}, cells: map[aloc]aset{}, pend: map[ssa.Instruction]*pendCall{}}
	e.sum[f] = s
	// callees first
	if f.Blocks != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && e.follow(g) {
						e.need(g)
					}
				}
			}
		}
	}
	e.order = append(e.order, f)
	e.changed = true
	e.analyze(f)
	return s
}

func (e *Effects) follow(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if inModule(fnPkgPath(f)) {
		return true
	}
	if _, ok := extWrites[fnName(f)]; ok {
		return false
	}
	if fnPkgPath(f) == "maps" && f.Origin() != nil && f.Origin().Name() == "Clone" {
		return false
	}
	if safeRecv(f) {
		return false
	}
	return !effOpaque(fnPkgPath(f))
}

// safeRecv: methods of types that are documented to be safe for concurrent use.
func safeRecv(f *ssa.Function) bool {
	n := fnName(f)
	for _, p := range []string{"(*regexp.Regexp).", "(*sync.", "(*sync/atomic.", "(*golang.org/x/text/message.Printer).", "(*time.Location).", "(*strings.Replacer).", "(reflect.Value).", "(*reflect."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

type effRun struct {
	e     *Effects
	f     *ssa.Function
	vals  map[ssa.Value]aset
	cells map[aloc]aset
	sum   *effSummary
	ch    bool
}

func (e *Effects) analyze(f *ssa.Function) {
	s := e.sum[f]
	r := &effRun{e: e, f: f, vals: map[ssa.Value]aset{}, cells: map[aloc]aset{}, sum: s}
	before := s.size()
	for k, v := range s.cells {
		r.cells[k] = v
	}
	for i := 0; i < 60; i++ {
		r.ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				r.instr(in)
			}
		}
		if !r.ch {
			break
		}
		if i == 59 {
			panic(budgetError{"effects of " + f.String() + " did not reach a fixed point"})
		}
	}
	// contents that callers can see
	seen := map[abase]bool{}
	var mark func(l aset)
	mark = func(l aset) {
		for x := range l {
			if x.b.kind == 'A' && !seen[x.b] {
				seen[x.b] = true
				for c, v := range r.cells {
					if c.b == x.b {
						mark(v)
					}
				}
			}
		}
	}
	for _, v := range s.rets {
		mark(v)
	}
	for _, p := range s.pend {
		mark(p.fnv)
		for _, a := range p.args {
			mark(a)
		}
	}
	for c, v := range r.cells {
		if c.b.kind != 'A' {
			mark(v)
		}
	}
	for c, v := range r.cells {
		if c.b.kind != 'A' || seen[c.b] {
			if s.cells[c] == nil {
				s.cells[c] = aset{}
			}
			s.cells[c].addAll(v)
		}
	}
	if s.size() != before {
		e.changed = true
	}
}

func (r *effRun) val(v ssa.Value) aset {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range r.f.Params {
			if p == v && (pointerLike(v.Type()) || funcLike(v.Type())) {
				return aset{aloc{abase{kind: 'P', n: i}, ""}: {}}
			}
		}
		return nil
	case *ssa.FreeVar:
		for i, p := range r.f.FreeVars {
			if p == v {
				return aset{aloc{abase{kind: 'F', n: i}, ""}: {}}
			}
		}
		return nil
	case *ssa.Global:
		return aset{aloc{abase{kind: 'G', v: v}, ""}: {}}
	case *ssa.Function:
		return aset{aloc{abase{kind: 'C', v: v}, ""}: {}}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	return r.vals[v]
}

func funcLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if funcLike(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func tracked(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Basic); ok {
		return t.Underlying().(*types.Basic).Kind() == types.UnsafePointer
	}
	return pointerLike(t) || funcLike(t)
}

func (r *effRun) set(v ssa.Value, s aset) {
	if len(s) == 0 {
		return
	}
	if r.vals[v] == nil {
		r.vals[v] = aset{}
	}
	if r.vals[v].addAll(s) {
		r.ch = true
	}
}

func (r *effRun) put(c aloc, s aset) {
	if len(s) == 0 {
		return
	}
	if r.cells[c] == nil {
		r.cells[c] = aset{}
	}
	if r.cells[c].addAll(s) {
		r.ch = true
	}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// loadCell gives what a cell may hold.
func (r *effRun) loadCell(c aloc) aset {
	res := aset{}
	switch c.b.kind {
	case 'P', 'F', 'G', 'K', 'X':
		res.add(ext(c, "→"))
	}
	res.addAll(r.cells[c])
	if strings.HasSuffix(c.path, "…") {
		pre := strings.TrimSuffix(c.path, "…")
		for k, v := range r.cells {
			if k.b == c.b && strings.HasPrefix(k.path, pre) {
				res.addAll(v)
			}
		}
	} else {
		for k, v := range r.cells {
			if k.b == c.b && strings.HasSuffix(k.path, "…") && strings.HasPrefix(c.path, strings.TrimSuffix(k.path, "…")) {
				res.addAll(v)
			}
		}
	}
	return res
}

func (r *effRun) load(addr aset, t types.Type) aset {
	if !tracked(t) {
		return nil
	}
	if isAgg(t) {
		return addr
	}
	res := aset{}
	for c := range addr {
		if c.b.kind == 'C' {
			continue
		}
		res.addAll(r.loadCell(c))
	}
	return res
}

// copyInto stores a value of type t into the cell d.
func (r *effRun) copyInto(d aloc, v aset, t types.Type, depth int) {
	if !tracked(t) || depth > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if !tracked(ft) {
				continue
			}
			for s := range v {
				fs := ext(s, "."+u.Field(i).Name())
				dd := ext(d, "."+u.Field(i).Name())
				if dd == fs {
					continue
				}
				if isAgg(ft) {
					r.copyInto(dd, aset{fs: {}}, ft, depth+1)
				} else {
					r.put(dd, r.loadCell(fs))
				}
			}
		}
	case *types.Array:
		for s := range v {
			fs := ext(s, "[]")
			dd := ext(d, "[]")
			if isAgg(u.Elem()) {
				r.copyInto(dd, aset{fs: {}}, u.Elem(), depth+1)
			} else if dd != fs {
				r.put(dd, r.loadCell(fs))
			}
		}
	default:
		r.put(d, v)
	}
}

func (r *effRun) write(addr aset, what string, pos token.Pos) {
	for c := range addr {
		switch c.b.kind {
		case 'P', 'F', 'G', 'K':
			if _, ok := r.sum.writes[c]; !ok {
				r.sum.writes[c] = effect{c, pos, r.f, what}
				r.ch = true
			}
		}
	}
}

func (r *effRun) fresh(in ssa.Value, t types.Type) aset {
	return aset{aloc{abase{kind: 'A', v: in}, ""}: {}}
}

func steps(s aset, step string) aset {
	res := aset{}
	for l := range s {
		if l.b.kind != 'C' {
			res.add(ext(l, step))
		}
	}
	return res
}

func effField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (r *effRun) instr(in ssa.Instruction) {
	switch n := in.(type) {
	case *ssa.Alloc:
		r.set(n, r.fresh(n, n.Type()))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		r.set(n.(ssa.Value), r.fresh(n.(ssa.Value), nil))
	case *ssa.MakeClosure:
		s := r.fresh(n, nil)
		for i, b := range n.Bindings {
			r.put(aloc{abase{kind: 'A', v: n}, fmt.Sprintf(".%d", i)}, r.val(b))
		}
		r.put(aloc{abase{kind: 'A', v: n}, ".code"}, aset{aloc{abase{kind: 'C', v: n.Fn.(*ssa.Function)}, ""}: {}})
		r.set(n, s)
	case *ssa.MakeInterface:
		t := n.X.Type()
		if isAgg(t) {
			s := r.fresh(n, nil)
			for d := range s {
				r.copyInto(d, r.val(n.X), t, 0)
			}
			r.set(n, s)
		} else if tracked(t) {
			r.set(n, r.val(n.X))
		}
	case *ssa.TypeAssert:
		if n.CommaOk {
			r.set(n, r.val(n.X))
		} else if tracked(n.AssertedType) {
			r.set(n, r.val(n.X))
		}
	case *ssa.ChangeType:
		r.set(n, r.val(n.X))
	case *ssa.ChangeInterface:
		r.set(n, r.val(n.X))
	case *ssa.Convert:
		if tracked(n.Type()) {
			if _, isStr := n.X.Type().Underlying().(*types.Basic); isStr && n.X.Type().Underlying().(*types.Basic).Kind() != types.UnsafePointer {
				r.set(n, r.fresh(n, nil))
			} else {
				r.set(n, r.val(n.X))
			}
		}
	case *ssa.MultiConvert:
		r.set(n, r.val(n.X))
		if tracked(n.Type()) {
			r.set(n, r.fresh(n, nil))
		}
	case *ssa.SliceToArrayPointer:
		r.set(n, r.val(n.X))
	case *ssa.Slice:
		if tracked(n.Type()) {
			if n.High != nil && n.Max != nil && n.High == n.Max {
				r.set(n, r.val(n.X)) // capacity is limited: see append
				return
			}
			r.set(n, r.val(n.X))
		}
	case *ssa.Phi:
		for _, ed := range n.Edges {
			r.set(n, r.val(ed))
		}
	case *ssa.FieldAddr:
		r.set(n, steps(r.val(n.X), "."+effField(n.X.Type(), n.Field)))
	case *ssa.Field:
		r.set(n, r.load(steps(r.val(n.X), "."+effField(n.X.Type(), n.Field)), n.Type()))
	case *ssa.IndexAddr:
		r.set(n, steps(r.val(n.X), "[]"))
	case *ssa.Index:
		r.set(n, r.load(steps(r.val(n.X), "[]"), n.Type()))
	case *ssa.Lookup:
		t := n.Type()
		if n.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		if _, isMap := n.X.Type().Underlying().(*types.Map); isMap {
			r.set(n, r.load(steps(r.val(n.X), "[v]"), t))
		}
	case *ssa.UnOp:
		switch n.Op {
		case token.MUL:
			r.set(n, r.load(r.val(n.X), n.Type()))
		case token.ARROW:
			r.set(n, r.load(steps(r.val(n.X), "[]"), n.Type()))
		}
	case *ssa.Extract:
		if n.Type() == nil || !tracked(n.Type()) {
			return
		}
		if c, ok := n.Tuple.(*ssa.Call); ok {
			_ = c
			r.set(n, r.vals[tupleVal{n.Tuple, n.Index}.key(r)])
			return
		}
		if nx, ok := n.Tuple.(*ssa.Next); ok {
			rg, _ := nx.Iter.(*ssa.Range)
			if rg == nil || nx.IsString {
				return
			}
			step := "[v]"
			if n.Index == 1 {
				step = "[k]"
			}
			r.set(n, r.load(steps(r.val(rg.X), step), n.Type()))
			return
		}
		if n.Index == 0 {
			r.set(n, r.val(n.Tuple))
		}
	case *ssa.Store:
		a := r.val(n.Addr)
		r.write(a, "assignment", n.Pos())
		v := r.val(n.Val)
		for c := range a {
			if c.b.kind != 'C' {
				r.copyInto(c, v, n.Val.Type(), 0)
			}
		}
	case *ssa.MapUpdate:
		m := r.val(n.Map)
		r.write(steps(m, "[v]"), "assignment to a map entry", n.Pos())
		for c := range m {
			r.copyInto(ext(c, "[v]"), r.val(n.Value), n.Value.Type(), 0)
			r.copyInto(ext(c, "[k]"), r.val(n.Key), n.Key.Type(), 0)
		}
	case *ssa.Send:
		for c := range r.val(n.Chan) {
			r.copyInto(ext(c, "[]"), r.val(n.X), n.X.Type(), 0)
		}
	case *ssa.Return:
		if r.sum.rets == nil {
			r.sum.rets = make([]aset, len(n.Results))
			for i := range r.sum.rets {
				r.sum.rets[i] = aset{}
			}
		}
		for i, v := range n.Results {
			if r.sum.rets[i].addAll(r.val(v)) {
				r.ch = true
			}
		}
	case ssa.CallInstruction:
		r.call(n)
	}
}

// tuple results are kept under artificial values.
type tupleVal struct {
	v ssa.Value
	i int
}

var tupleKeys = map[tupleVal]ssa.Value{}

func (t tupleVal) key(r *effRun) ssa.Value {
	if k, ok := tupleKeys[t]; ok {
		return k
	}
	k := &ssa.Phi{}
	tupleKeys[t] = k
	return k
}

func (r *effRun) setResult(c ssa.CallInstruction, i int, s aset) {
	v := c.Value()
	if v == nil {
		return
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		r.set(tupleVal{v, i}.key(r), s)
	} else if i == 0 {
		r.set(v, s)
	}
}

func (r *effRun) call(c ssa.CallInstruction) {
	cc := c.Common()
	pos := c.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		r.builtin(c, b)
		return
	}
	var args []aset
	if cc.IsInvoke() {
		args = append(args, r.val(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, r.val(a))
	}
	if cc.IsInvoke() {
		r.invoke(c, args)
		return
	}
	if g := cc.StaticCallee(); g != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			var fv []aset
			for _, b := range mc.Bindings {
				fv = append(fv, r.val(b))
			}
			r.apply(c, g, args, fv, pos)
		} else {
			r.apply(c, g, args, nil, pos)
		}
		return
	}
	r.dynamic(c, c, r.val(cc.Value), args, cc.Signature(), pos)
}

func (r *effRun) dynamic(c ssa.CallInstruction, key ssa.Instruction, fnv aset, args []aset, sig *types.Signature, pos token.Pos) {
	unknown := false
	for l := range fnv {
		switch {
		case l.b.kind == 'C':
			r.apply(c, l.b.v.(*ssa.Function), args, nil, pos)
		case l.b.kind == 'A':
			code := r.loadCell(aloc{l.b, ".code"})
			for cl := range code {
				if cl.b.kind != 'C' {
					continue
				}
				g := cl.b.v.(*ssa.Function)
				fv := make([]aset, len(g.FreeVars))
				for i := range fv {
					fv[i] = r.loadCell(aloc{l.b, fmt.Sprintf(".%d", i)})
				}
				r.apply(c, g, args, fv, pos)
			}
		default:
			unknown = true
		}
	}
	if !unknown {
		return
	}
	// the function comes from outside: callers that know it apply it
	p := r.sum.pend[key]
	if p == nil {
		p = &pendCall{fnv: aset{}, args: make([]aset, len(args)), pos: pos}
		for i := range p.args {
			p.args[i] = aset{}
		}
		r.sum.pend[key] = p
		r.ch = true
	}
	for l := range fnv {
		if l.b.kind != 'C' && l.b.kind != 'A' && p.fnv.add(l) {
			r.ch = true
		}
	}
	for i, a := range args {
		if i < len(p.args) && p.args[i].addAll(a) {
			r.ch = true
		}
	}
	stored := false
	for l := range fnv {
		if l.b.kind == 'G' || l.b.kind == 'K' || (l.b.kind == 'P' || l.b.kind == 'F') && l.path != "" && l.path != "→" {
			stored = true // not a callback that the caller hands over directly
		}
	}
	if stored && inModule(fnPkgPath(r.f)) && sig != nil {
		for _, g := range r.e.taken {
			if types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
				fv := make([]aset, len(g.FreeVars))
				for i := range fv {
					fv[i] = aset{aloc{abase{kind: 'K', n: i, v: g}, ""}: {}}
				}
				r.apply(c, g, args, fv, pos)
			}
		}
	}
	// what the unknown function returns may be anything it was given
	r.unknownResult(c, args)
}

func (r *effRun) unknownResult(c ssa.CallInstruction, args []aset) {
	v := c.Value()
	if v == nil {
		return
	}
	res := aset{}
	for _, a := range args {
		res.addAll(a)
	}
	if tup, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if tracked(tup.At(i).Type()) {
				s := aset{aloc{abase{kind: 'A', v: v, n: i + 1}, ""}: {}}
				s.addAll(res)
				r.setResult(c, i, s)
			}
		}
	} else if tracked(v.Type()) {
		s := aset{aloc{abase{kind: 'A', v: v, n: 1}, ""}: {}}
		s.addAll(res)
		r.setResult(c, 0, s)
	}
}

func (e *Effects) implementations(m *types.Func, it types.Type) []*ssa.Function {
	key := types.TypeString(it, nil) + "." + m.Name()
	if r, ok := e.impls[key]; ok {
		return r
	}
	iface, _ := it.Underlying().(*types.Interface)
	var res []*ssa.Function
	if iface != nil {
		for _, rel := range sortedKeys(e.w.ssap) {
			p := e.w.ssap[rel]
			if p == nil || p.Pkg.Name() == "main" {
				continue
			}
			for _, name := range sortedKeys(p.Members) {
				t, ok := p.Members[name].(*ssa.Type)
				if !ok {
					continue
				}
				n, ok := types.Unalias(t.Type()).(*types.Named)
				if !ok || n.TypeParams() != nil || types.IsInterface(n) {
					continue
				}
				if types.Implements(n, iface) || types.Implements(types.NewPointer(n), iface) {
					if f := e.w.method(n, m.Name()); f != nil {
						res = append(res, f)
					}
				}
			}
		}
	}
	e.impls[key] = res
	return res
}

func (r *effRun) invoke(c ssa.CallInstruction, args []aset) {
	cc := c.Common()
	if inModule(fnPkgPath(r.f)) {
		for _, g := range r.e.implementations(cc.Method, cc.Value.Type()) {
			r.apply(c, g, args, nil, c.Pos())
		}
	}
	if w, ok := mutMethods[cc.Method.Name()]; ok {
		for _, i := range w {
			if i < len(args) {
				r.write(args[i], "call of "+cc.Method.Name(), c.Pos())
			}
		}
	}
	if freshMethods[cc.Method.Name()] || cc.Method.Pkg() != nil && inModule(cc.Method.Pkg().Path()) {
		r.unknownResult(c, nil)
		return
	}
	r.unknownResult(c, args[:1])
}

// methods of foreign interfaces that return new objects.
var freshMethods = map[string]bool{"Open": true, "Stat": true, "ReadDir": true, "ReadFile": true, "Glob": true, "Info": true, "Error": true, "String": true, "Match": true}

func (r *effRun) builtin(c ssa.CallInstruction, b *ssa.Builtin) {
	cc := c.Common()
	switch b.Name() {
	case "append":
		s := r.val(cc.Args[0])
		if !capLimited(cc.Args[0]) {
			r.write(steps(s, "[]"), "append (writes into spare capacity)", c.Pos())
		}
		f := r.fresh(c.Value(), nil)
		et := sliceElem(cc.Args[0].Type())
		dst := aset{}
		dst.addAll(f)
		if !capLimited(cc.Args[0]) {
			dst.addAll(s)
		}
		for d := range dst {
			for src := range s {
				if src != d {
					r.copyElems(d, src, et)
				}
			}
			if len(cc.Args) > 1 {
				for src := range r.val(cc.Args[1]) {
					if src != d {
						r.copyElems(d, src, et)
					}
				}
			}
		}
		r.set(c.Value(), dst)
	case "copy":
		d := r.val(cc.Args[0])
		r.write(steps(d, "[]"), "copy", c.Pos())
		for x := range d {
			for src := range r.val(cc.Args[1]) {
				if src != x {
					r.copyElems(x, src, sliceElem(cc.Args[0].Type()))
				}
			}
		}
	case "delete":
		r.write(steps(r.val(cc.Args[0]), "[v]"), "delete", c.Pos())
	case "clear":
		r.write(steps(r.val(cc.Args[0]), "[v]"), "clear", c.Pos())
	case "ssa:wrapnilchk":
		r.set(c.Value(), r.val(cc.Args[0]))
	case "String", "StringData", "Slice", "SliceData", "Add":
		r.set(c.Value(), r.val(cc.Args[0]))
	case "min", "max", "len", "cap", "print", "println", "panic", "recover", "close", "real", "imag", "complex":
	}
}

func (r *effRun) copyElems(d, src aloc, et types.Type) { r.copyEntries(d, src, "[]", et) }

func (r *effRun) copyEntries(d, src aloc, step string, et types.Type) {
	if et == nil || !tracked(et) || src.b.kind == 'C' {
		return
	}
	fs, dd := ext(src, step), ext(d, step)
	if fs == dd {
		return
	}
	if isAgg(et) {
		r.copyInto(dd, aset{fs: {}}, et, 0)
	} else {
		r.put(dd, r.loadCell(fs))
	}
}

// capLimited: the slice has no spare capacity, append copies it.
func capLimited(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return v.Max != nil && v.High != nil && v.Max == v.High || v.Max != nil && v.High != nil && effSameConst(v.Max, v.High)
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			n := fnName(g)
			return strings.HasPrefix(n, "slices.Clip") || strings.HasPrefix(n, "slices.Clone")
		}
	}
	return false
}

func effSameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// apply the summary of a callee.
func (r *effRun) apply(c ssa.CallInstruction, g *ssa.Function, args, fv []aset, pos token.Pos) {
	e := r.e
	if !e.follow(g) {
		n := fnName(g)
		if g.Origin() != nil {
			n = fnName(g.Origin())
		}
		if n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.Once") {
			return // runs once, synchronised
		}
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		if n == "maps.Clone" && c.Value() != nil && len(args) == 1 {
			f := aloc{abase{kind: 'A', v: c.Value(), n: 1}, ""}
			mt := c.Common().Args[0].Type().Underlying().(*types.Map)
			for src := range args[0] {
				if src.b.kind != 'C' {
					r.copyEntries(f, src, "[v]", mt.Elem())
					r.copyEntries(f, src, "[k]", mt.Key())
				}
			}
			r.setResult(c, 0, aset{f: {}})
			return
		}
		if w, ok := extWrites[n]; ok {
			for _, i := range w {
				if i < len(args) {
					r.write(args[i], "call of "+n, pos)
				}
			}
		}
		r.unknownResult(c, args)
		return
	}
	s := e.need(g)
	m := &substitution{r: r, g: g, args: args, fv: fv, call: c, memo: map[aloc]aset{}}
	for l, ef := range s.writes {
		switch l.b.kind {
		case 'G', 'K':
			if !inModule(fnPkgPath(g)) && l.b.kind == 'G' {
				continue
			}
			if _, ok := r.sum.writes[l]; !ok {
				r.sum.writes[l] = ef
				r.ch = true
			}
		default:
			for x := range m.loc(l) {
				switch x.b.kind {
				case 'P', 'F', 'G', 'K':
					if x.b.kind == 'G' && !inModule(globalPkg(x.b.v.(*ssa.Global))) {
						continue
					}
					if _, ok := r.sum.writes[x]; !ok {
						r.sum.writes[x] = effect{x, ef.pos, ef.fn, ef.what}
						if !inModule(fnPkgPath(ef.fn)) {
							r.sum.writes[x] = effect{x, pos, r.f, "call of " + fnName(g)}
						}
						r.ch = true
					}
				}
			}
		}
	}
	for cl, v := range s.cells {
		if cl.b.kind == 'G' || cl.b.kind == 'K' {
			continue
		}
		vals := m.set(v)
		for x := range m.loc(cl) {
			if x.b.kind != 'C' {
				r.put(x, vals)
			}
		}
	}
	for k, p := range s.pend {
		fnv := m.set(p.fnv)
		known := aset{}
		out := aset{}
		for l := range fnv {
			if l.b.kind == 'C' || l.b.kind == 'A' {
				known.add(l)
			} else {
				out.add(l)
			}
		}
		var as []aset
		for _, a := range p.args {
			as = append(as, m.set(a))
		}
		if len(known) > 0 {
			r.dynamic(pendedCall{c}, k, known, as, nil, pos)
		}
		if len(out) > 0 {
			q := r.sum.pend[k]
			if q == nil {
				q = &pendCall{fnv: aset{}, args: make([]aset, len(as)), pos: p.pos}
				for i := range q.args {
					q.args[i] = aset{}
				}
				r.sum.pend[k] = q
				r.ch = true
			}
			if q.fnv.addAll(out) {
				r.ch = true
			}
			for i, a := range as {
				if q.args[i].addAll(a) {
					r.ch = true
				}
			}
		}
	}
	for i, v := range s.rets {
		r.setResult(c, i, m.set(v))
	}
}

// pendedCall: the results of a callback belong to the callee, not to this call.
type pendedCall struct{ ssa.CallInstruction }

func (pendedCall) Value() *ssa.Call { return nil }

func globalPkg(g *ssa.Global) string {
	if g.Pkg == nil {
		return ""
	}
	return g.Pkg.Pkg.Path()
}

type substitution struct {
	r        *effRun
	g        *ssa.Function
	args, fv []aset
	call     ssa.CallInstruction
	memo     map[aloc]aset
}

func (m *substitution) set(s aset) aset {
	res := aset{}
	for l := range s {
		res.addAll(m.loc(l))
	}
	return res
}

func (m *substitution) loc(l aloc) aset {
	if x, ok := m.memo[l]; ok {
		return x
	}
	var res aset
	switch l.b.kind {
	case 'P':
		if l.b.n < len(m.args) {
			res = m.walk(m.args[l.b.n], l.path)
		}
	case 'F':
		if l.b.n < len(m.fv) {
			res = m.walk(m.fv[l.b.n], l.path)
		} else {
			res = aset{aloc{abase{kind: 'K', n: l.b.n, v: m.g}, l.path}: {}}
		}
	case 'A':
		// one copy per call site
		var ctx any = m.call
		if pc, ok := m.call.(pendedCall); ok {
			ctx = pc.CallInstruction
		}
		res = aset{aloc{abase{kind: 'A', v: l.b.v, n: l.b.n, ctx: ctx}, l.path}: {}}
	default:
		res = aset{l: {}}
	}
	m.memo[l] = res
	return res
}

func (m *substitution) walk(s aset, path string) aset {
	for path != "" && len(s) > 0 {
		switch {
		case strings.HasPrefix(path, "→"):
			path = path[len("→"):]
			n := aset{}
			for l := range s {
				if l.b.kind != 'C' {
					n.addAll(m.r.loadCell(l))
				}
			}
			s = n
		case strings.HasPrefix(path, "…"):
			path = ""
			n := aset{}
			var visit func(l aloc)
			visit = func(l aloc) {
				if !n.add(l) {
					return
				}
				if l.b.kind == 'A' {
					for k, v := range m.r.cells {
						if k.b == l.b {
							for x := range v {
								visit(x)
							}
						}
					}
				}
			}
			for l := range s {
				switch l.b.kind {
				case 'A':
					visit(l)
				case 'C':
				default:
					p := l.path
					if !strings.HasSuffix(p, "…") {
						p += "…"
					}
					n.add(aloc{l.b, p})
				}
			}
			s = n
		default:
			i := 1
			for i < len(path) && path[i] != '.' && path[i] != '[' && !strings.HasPrefix(path[i:], "→") && !strings.HasPrefix(path[i:], "…") {
				i++
			}
			s = steps(s, path[:i])
			path = path[i:]
		}
	}
	return s
}

func (l aloc) String() string {
	switch l.b.kind {
	case 'P':
		return fmt.Sprintf("parameter %d%s", l.b.n, l.path)
	case 'F':
		return fmt.Sprintf("captured %d%s", l.b.n, l.path)
	case 'G':
		return l.b.v.(*ssa.Global).String() + l.path
	case 'K':
		return fmt.Sprintf("captured %d of %s%s", l.b.n, l.b.v.(*ssa.Function), l.path)
	}
	return fmt.Sprintf("%c%s", l.b.kind, l.path)
}

func isMainPkg(f *ssa.Function) bool { return f.Package() != nil && f.Package().Pkg.Name() == "main" }
