package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// An access is an operation of a path that panics unless a condition holds which the path does not prove.
type access struct {
	kind string // index, slice, division, map, nil, assertion, size, call, false
	what string
	args []*Term
	pos  token.Pos
	fn   *ssa.Function
}

func (a *access) String() string {
	switch a.kind {
	case "index":
		return fmt.Sprintf("index %s of %s", a.args[1], a.args[0])
	case "slice":
		return fmt.Sprintf("part %s:%s of %s", a.args[1], a.args[2], a.args[0])
	case "division":
		return fmt.Sprintf("division by %s", a.args[0])
	case "map":
		return fmt.Sprintf("assignment to an entry of %s", a.args[0])
	case "size":
		return fmt.Sprintf("list of %s elements", a.args[0])
	case "assertion":
		return fmt.Sprintf("type assertion of %s", a.args[0])
	case "call", "false":
		return fmt.Sprintf("call of %s with %s", a.what, a.args[0])
	}
	return fmt.Sprintf("dereference of %s", a.args[0])
}

var boolT, intT = types.Typ[types.Bool], types.Typ[types.Int]

func (x *Exec) lss(a, b *Term) *Term { return x.ts.bin(token.LSS, a, b, boolT, intT) }

// safe reports what is known about an access: yes, no (it panics) or unknown.
func (x *Exec) safe(st *State, a *access) (safe, panics bool) {
	f := st.facts
	holds := func(t *Term) (bool, bool) { return f.eval(f.simp(t)) }
	isNil := func(t *Term) (bool, bool) {
		if t.op == "nil" {
			return true, true
		}
		if v, ok := f.value(t); ok && v.op == "nil" {
			return true, true
		}
		switch t.op {
		case "alloc", "allocmap", "newobj", "newmap", "iface", "clo", "fn", "fld", "idx", "global", "seq", "append", "agg", "mkslice":
			return false, true
		}
		if f.nonNil(t) {
			return false, true
		}
		return false, false
	}
	switch a.kind {
	case "index":
		if len(a.args) < 3 {
			return false, false
		}
		neg, ok1 := holds(x.lss(a.args[1], x.ts.intT(0)))
		in, ok2 := holds(x.lss(a.args[1], a.args[2]))
		return ok1 && ok2 && !neg && in, ok1 && neg || ok2 && !in
	case "slice":
		lo, hi, limit := a.args[1], a.args[2], a.args[3]
		neg, ok1 := holds(x.lss(lo, x.ts.intT(0)))
		inv, ok2 := holds(x.lss(hi, lo))
		over, ok3 := holds(x.lss(limit, hi))
		if limit.op == "undefhi" {
			over, ok3 = false, true
		}
		return ok1 && ok2 && ok3 && !neg && !inv && !over, ok1 && neg || ok2 && inv || ok3 && over
	case "division":
		z, ok := holds(x.ts.bin(token.EQL, a.args[0], x.ts.intT(0), boolT, a.args[0].typ))
		return ok && !z, ok && z
	case "size":
		neg, ok := holds(x.lss(a.args[0], x.ts.intT(0)))
		return ok && !neg, ok && neg
	case "map", "nil":
		n, ok := isNil(a.args[0])
		return ok && !n, ok && n
	case "assertion":
		v, ok := holds(a.args[1])
		return ok && v, ok && !v
	case "false":
		v, ok := holds(a.args[0])
		return ok && !v, false
	case "call":
		return false, false
	}
	return true, false
}

// guard notes the access of an instruction. It reports whether the instruction certainly panics.
func (x *Exec) guard(fr *frame, st *State, in ssa.Instruction) bool {
	a := x.accessOf(fr, st, in)
	if a == nil {
		return false
	}
	x.accesses++
	safe, panics := x.safe(st, a)
	if panics {
		return true
	}
	if !safe {
		a.pos, a.fn = in.Pos(), fr.fn
		for i, t := range a.args {
			a.args[i] = x.freeze(st, t)
		}
		st.access = append(st.access[:len(st.access):len(st.access)], a)
	}
	return false
}

func (x *Exec) accessOf(fr *frame, st *State, in ssa.Instruction) *access {
	index := func(v, i ssa.Value) *access {
		it := x.val(fr, st, i)
		t := v.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if arr, ok := t.(*types.Array); ok {
			if _, isConst := it.intConst(); isConst {
				return nil
			}
			return &access{kind: "index", args: []*Term{x.val(fr, st, v), it, x.ts.intT(arr.Len())}}
		}
		a := x.val(fr, st, v)
		return &access{kind: "index", args: []*Term{a, it, x.lenOf(st, a)}}
	}
	switch n := in.(type) {
	case *ssa.IndexAddr:
		return index(n.X, n.Index)
	case *ssa.Index:
		return index(n.X, n.Index)
	case *ssa.Lookup:
		if _, ok := n.X.Type().Underlying().(*types.Map); !ok {
			return index(n.X, n.Index)
		}
	case *ssa.Slice:
		if _, ok := n.X.Type().Underlying().(*types.Pointer); ok || n.Low == nil && n.High == nil {
			return nil
		}
		a := x.val(fr, st, n.X)
		l := x.lenOf(st, a)
		lo, hi, limit := x.ts.intT(0), l, l
		if n.Low != nil {
			lo = x.val(fr, st, n.Low)
		}
		if n.High != nil {
			hi = x.val(fr, st, n.High)
			if !isString(n.X.Type()) {
				limit = x.ts.mk("undefhi", "", nil) // the capacity
			}
		}
		return &access{kind: "slice", args: []*Term{a, lo, hi, limit}}
	case *ssa.BinOp:
		if (n.Op == token.QUO || n.Op == token.REM) && isInt(n.Y.Type()) {
			if d := x.val(fr, st, n.Y); d.op != "const" || isZeroTerm(d) {
				return &access{kind: "division", args: []*Term{d}}
			}
		}
	case *ssa.MakeSlice:
		if l := x.val(fr, st, n.Len); l.op != "const" {
			return &access{kind: "size", args: []*Term{l}}
		}
	case *ssa.MapUpdate:
		return &access{kind: "map", args: []*Term{x.val(fr, st, n.Map)}}
	case *ssa.FieldAddr:
		switch t := x.val(fr, st, n.X); t.op {
		case "lookup", "res", "param", "nil", "extract":
			return &access{kind: "nil", args: []*Term{t}}
		}
	case *ssa.Call:
		if _, builtin := n.Call.Value.(*ssa.Builtin); builtin {
			return nil
		}
		if f := n.Call.StaticCallee(); f != nil {
			return x.riskyCall(fr, st, f, n)
		}
		return &access{kind: "nil", args: []*Term{x.val(fr, st, n.Call.Value)}}
	case *ssa.TypeAssert:
		if !n.CommaOk {
			v := x.val(fr, st, n.X)
			c, _ := x.typeAssert(st, v, n.AssertedType)
			return &access{kind: "assertion", args: []*Term{v, c}}
		}
	}
	return nil
}

// riskyCall is the access of a call of a function that panics for some arguments.
func (x *Exec) riskyCall(fr *frame, st *State, f *ssa.Function, n *ssa.Call) *access {
	name := fnName(f)
	if inModule(fnPkgPath(f)) && !strings.HasPrefix(f.Name(), "Must") {
		return nil
	}
	args := func() []*Term {
		var l []*Term
		for _, v := range n.Call.Args {
			l = append(l, x.val(fr, st, v))
		}
		return l
	}
	call := func() *access {
		l := args()
		for _, a := range l {
			if a.op != "const" {
				return &access{kind: "call", what: name, args: l}
			}
		}
		return nil
	}
	switch name {
	case "strings.Repeat", "bytes.Repeat", "slices.Grow":
		return &access{kind: "size", args: args()[1:2]}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return &access{kind: "size", args: args()[1:2]}
	case "(time.Time).In":
		return &access{kind: "nil", args: args()[1:2]}
	case "time.ParseInLocation":
		return &access{kind: "nil", args: args()[2:3]}
	case "time.Date":
		return &access{kind: "nil", args: args()[7:8]}
	case "(*bytes.Buffer).Truncate", "slices.Insert", "slices.Delete", "slices.Replace", "slices.Repeat", "slices.Chunk",
		"math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "errors.As", "strings.NewReplacer", "slices.Min", "slices.Max":
		return call()
	case "(reflect.Value).Elem":
		// Elem of a nil pointer is no valid value.
		l := args()
		isNil := x.results(x.ts.mk("call", "(reflect.Value).IsNil", boolT, x.freeze(st, l[0])), boolT)[0]
		return &access{kind: "false", what: name, args: []*Term{isNil}}
	case "(reflect.Value).Kind", "(reflect.Value).IsValid", "(reflect.Value).String", "(reflect.Value).CanInterface":
		return nil
	}
	if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(f.Name(), "Must") {
		return call()
	}
	return nil
}

func isZeroTerm(t *Term) bool {
	v, ok := t.intConst()
	return ok && v == 0
}

// comparePanics reports a path of the implementation (b) that panics, or may panic, where the specification (a) does not.
func (r *Rel) comparePanics(impl *ssa.Function, base, baseB *State, a, b *Path) {
	if a.kind == "panic" {
		return
	}
	f := b.st.facts
	if b.kind == "panic" {
		what := "panic"
		if len(b.vals) > 0 {
			what = "panic: " + f.simp(b.vals[0]).String()
		}
		r.diffs = append(r.diffs, Diff{fn: r.subject, pos: b.pos, what: what, cond: f.describe(40)})
		return
	}
	if r.laterPanic(b) && !r.laterPanic(a) {
		r.diffs = append(r.diffs, Diff{fn: r.subject, pos: b.pos, what: "panic of a later operation on what is returned", cond: f.describe(40)})
		return
	}
	for _, acc := range b.st.access {
		if safe, _ := r.x.safe(b.st, acc); safe || r.specified(acc, a, b) {
			continue
		}
		q := &Rel{x: r.x, ignore: r.ignore, ignoreHeap: r.ignoreHeap, depth: r.depth, maxDiffs: 1, resultEq: r.resultEq, ignoreVals: r.ignoreVals}
		if q.compareOutcome(impl, base, baseB, a, b); len(q.diffs) == 0 {
			return
		}
		r.diffs = append(r.diffs, Diff{fn: acc.fn.String(), pos: acc.pos, what: "possible panic: " + acc.String(), cond: f.describe(40)})
		return
	}
}

// laterPanic reports whether the path returns a value that makes a later operation panic: the
// condition zsafe_ of the definition does not hold for it.
func (r *Rel) laterPanic(b *Path) bool {
	if r.safeFn == nil || b.kind != "return" {
		return false
	}
	for _, p := range r.x.run(b.st.clone(), r.safeFn, b.vals, nil) {
		if v, ok := p.st.facts.eval(p.st.facts.simp(p.vals[0])); p.kind == "return" && ok && !v {
			return true
		}
	}
	return false
}

// specified reports whether the path of the specification makes the same access.
func (r *Rel) specified(acc *access, a, b *Path) bool {
	for _, s := range a.st.access {
		if s.kind != acc.kind || s.what != acc.what || len(s.args) != len(acc.args) {
			continue
		}
		same := true
		for i := range s.args {
			same = same && r.eq(s.args[i], acc.args[i], a, b, 0)
		}
		if same {
			return true
		}
	}
	return false
}

// panicPass analyses the definition first and then the function under its facts, and collects the panics that only the function has.
func (c *Ctx) panicPass(r *Rel, impl, spec *ssa.Function, prepare func()) *budgetError {
	prepare()
	r.x.bounds = true
	r.panics, r.subject = true, impl.String()
	if name, ok := strings.CutPrefix(spec.Name(), "zspec_"); ok && spec.Pkg != nil {
		r.safeFn = spec.Pkg.Func("zsafe_" + name)
	}
	r.implPaths, r.pairs = 0, 0
	err := r.attempt(spec, impl)
	r.panics = false
	c.accesses += r.x.accesses
	return err
}

// panicsOf looks for certain panics of a function that equals its definition unless an operation of it panics.
func (c *Ctx) panicsOf(r *Rel, key string, impl, spec *ssa.Function, prepare func()) {
	keep, x, paths, pairs := r.diffs, r.x, r.implPaths, r.pairs
	_ = c.panicPass(r, impl, spec, prepare)
	var certain []Diff
	for _, d := range r.diffs {
		if strings.HasPrefix(d.what, "panic") {
			certain = append(certain, d)
		}
	}
	if r.diffs = nil; len(certain) > 0 {
		c.relEqual(r, key, impl, spec, prepare, true)
		if len(r.diffs) > 0 {
			keep = certain
		}
	}
	r.diffs, r.x, r.implPaths, r.pairs = keep, x, paths, pairs
}

// panicRun looks for panics of a function that its specification does not have.
func (c *Ctx) panicRun(r *Rel, kind, key string, impl, spec *ssa.Function, prepare func()) {
	if kind != "function" {
		return
	}
	c.decided["function"]++
	if len(c.decidedNames) < 3 {
		c.decidedNames = append(c.decidedNames, "function: "+key)
	}
	err := c.panicPass(r, impl, spec, prepare)
	if err == nil && len(r.diffs) == 0 {
		return
	}
	diffs, msg, certain := r.diffs, "", false
	if err != nil {
		msg = err.msg
	}
	for _, d := range diffs {
		certain = certain || strings.HasPrefix(d.what, "panic")
	}
	// A function that does the same as its specification does not panic either.
	r.diffs = nil
	c.relEqual(r, key, impl, spec, prepare, certain)
	if len(r.diffs) == 0 {
		return
	}
	if len(diffs) == 0 {
		c.undecided = append(c.undecided, key+": "+msg)
		return
	}
	c.failed[key] = true
	for _, d := range diffs {
		c.found = append(c.found, violation{kind + ":" + key, c.w.pos(d.pos), fmt.Sprintf("%s (in %s, when %s)", d.what, shortPkg(d.fn), d.cond)})
	}
}

// partReport is what one part of a property that is decided function by function found.
type partReport struct {
	Viol      [][3]string
	Counts    map[string]int
	Samples   []string
	Undecided []string
	Accesses  int
	Oblig     int
	Done      int
	Equal     []string // functions that equal their definitions
	Differ    []string
}

// runPart decides one part and writes the report.
func runPart(mode, id, repo, verif, cfg string) {
	chk := *checks[id]
	chk.min = nil
	c := &Ctx{chk: &chk, mode: mode, repo: repo, verif: verif, counts: map[string]int{}, extra: map[string]any{}, seenK: map[string]bool{}, cfgName: cfg}
	c.decided, c.failed = map[string]int{}, map[string]bool{}
	c.equal, c.differ = map[string]bool{}, map[string]bool{}
	c.runConfig(cfg)
	rep := partReport{Counts: c.decided, Samples: c.decidedNames, Undecided: c.undecided, Accesses: c.accesses}
	rep.Equal, rep.Differ = sortedKeys(c.equal), sortedKeys(c.differ)
	for _, n := range c.decided {
		rep.Oblig += n
	}
	rep.Done = rep.Oblig - len(c.failed)
	for _, v := range c.viol {
		if v.key == "load" {
			c.found = append(c.found, v)
		} else if v.key == "undecided" {
			rep.Undecided = append(rep.Undecided, v.msg)
		}
	}
	for _, v := range c.found {
		rep.Viol = append(rep.Viol, [3]string{v.key, v.where, v.msg})
	}
	_ = json.NewEncoder(os.Stdout).Encode(rep)
}

// runParts runs the parts side by side and collects their reports.
func (c *Ctx) runParts(mode string, ids []string) {
	reps := c.partReports(mode, ids)
	seen := map[string]bool{}
	for i, id := range ids {
		rep := reps[i]
		c.oblig += rep.Oblig
		c.done += rep.Done
		c.addInt("accesses_examined", rep.Accesses)
		for k, n := range rep.Counts {
			c.counts[k] += n
		}
		for _, s := range rep.Samples {
			if len(c.samples) < 12 {
				c.samples = append(c.samples, id+" "+s)
			}
		}
		for _, u := range rep.Undecided {
			l, _ := c.extra["not_decided"].([]string)
			c.extra["not_decided"] = append(l, id+" "+u)
		}
		for _, v := range rep.Viol {
			if key := strings.Join(v[:], "|"); !seen[key] {
				seen[key] = true
				c.viol = append(c.viol, violation{v[0], v[1], v[2]})
			}
		}
	}
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].key < c.viol[j].key })
}

// partReports runs the parts side by side.
func (c *Ctx) partReports(mode string, ids []string) []partReport {
	self, err := os.Executable()
	if err != nil {
		panic(budgetError{err.Error()})
	}
	reps := make([]partReport, len(ids))
	errs := make([]error, len(ids))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, id := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, "part", mode, id, c.cfgName)
			cmd.Env = append(os.Environ(), "VERIF_REPO="+c.repo, "VERIF_DIR="+c.verif)
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(out, &reps[i])
			}
			errs[i] = err
		}()
	}
	wg.Wait()
	for i, id := range ids {
		if errs[i] != nil {
			panic(budgetError{"part " + id + ": " + errs[i].Error()})
		}
	}
	return reps
}
