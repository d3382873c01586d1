package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nothing may depend on the order in which a map is iterated, on chance, on scheduling or on the environment. Every iteration over a
// map has to be one whose effects commute: entries under keys of their own, sums, constants, or lists that are sorted before use.

// unorderedResults: functions that return a set as a list.
var unorderedResults = map[string]bool{
	"(*" + modPath + ".Bundle).SupportedLanguages": true,
	"(*" + modPath + ".Localizer).Domains":         true,
}

// clockUsers: only these may ask for the present time; in package humanize it is the purpose of the functions.
var clockUsers = map[string]bool{
	modPath + "/catalog/po.PlaceholderHeader": true,
	modPath + "/internal/cast.ToTime":         true,
}

type orderCheck struct {
	c    *Ctx
	eff  *Effects
	f    *ssa.Function
	rng  *ssa.Range
	next *ssa.Next
	head *ssa.BasicBlock
	loop map[*ssa.BasicBlock]bool
	what string
}

func init() {
	register(&Check{
		id: "C16",
		rule: "Every iteration over a map must have effects that commute: writes under keys of the iterated entry, integer sums, constants, lists that are sorted before any other use; it may be left early only with results that do not depend on the entry. " +
			"Iterators over maps must be sorted. No function may use chance, goroutines, the environment or (outside of relative times) the clock.",
		min: map[string]int{"function": 400, "iteration": 5, "iterator": 8},
		run: func(c *Ctx) {
			eff := newEffects(c.w)
			for _, f := range c.w.moduleFuncs() {
				if isMainPkg(f) {
					continue
				}
				c.checkOrder(f, eff)
			}
		},
	})
}

func (c *Ctx) checkOrder(f *ssa.Function, eff *Effects) {
	n := len(c.viol)
	count := map[string]int{}
	name := func(kind string) string {
		count[kind]++
		s := shortFn(f)
		if count[kind] > 1 {
			s += fmt.Sprintf(" %d", count[kind])
		}
		return s
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				oc := &orderCheck{c: c, eff: eff, f: f, rng: in}
				construct := name("iteration")
				if msg, pos := oc.check(); msg != "" {
					c.bad("iteration", construct, pos, "%s iterates over a map in an order that matters: %s", shortFn(f), msg)
				} else {
					c.ok("iteration", construct)
				}
			case *ssa.Go:
				c.bad("chance", shortFn(f)+" go", in.Pos(), "%s starts a goroutine", shortFn(f))
			case *ssa.Select:
				if len(in.States) > 1 || !in.Blocking && len(in.States) > 0 {
					c.bad("chance", shortFn(f)+" select", in.Pos(), "%s selects one of several channels", shortFn(f))
				}
			case ssa.CallInstruction:
				g := in.Common().StaticCallee()
				if g == nil {
					continue
				}
				c.checkChance(f, g, in)
				if mapIterator(g) {
					construct := name("iterator")
					if msg := iteratorUse(f, in.Value()); msg != "" {
						c.bad("iterator", construct, in.Pos(), "%s uses the entries of a map in an order that matters: %s", shortFn(f), msg)
					} else {
						c.ok("iterator", construct)
					}
				}
			}
		}
	}
	if len(c.viol) == n {
		c.ok("function", shortFn(f))
	}
}

func (c *Ctx) checkChance(f, g *ssa.Function, in ssa.CallInstruction) {
	pkg, n := fnPkgPath(g), fnName(g)
	if g.Name() == "init" {
		return
	}
	bad := ""
	switch {
	case pkg == "math/rand" || pkg == "math/rand/v2" || pkg == "crypto/rand" || pkg == "hash/maphash":
		bad = "uses chance"
	case n == "os.Getenv" || n == "os.LookupEnv" || n == "os.Environ" || n == "os.Getpid" || n == "os.Hostname" || n == "os.Getwd":
		bad = "asks for the environment"
	case pkg == "runtime" && n != "runtime.KeepAlive":
		bad = "asks for the state of the runtime"
	case strings.HasPrefix(n, "(*sync.Map).Range") || strings.HasPrefix(n, "(*sync.Pool).Get"):
		bad = "uses an order that is not defined"
	case strings.Contains(n, "(reflect.Value).MapRange") || strings.Contains(n, "(reflect.Value).MapKeys") || strings.Contains(n, "(reflect.Value).Pointer") || strings.Contains(n, "UnsafePointer"):
		bad = "uses an order or an address that is not defined"
	case n == "time.Now" || n == "time.Since" || n == "time.Until":
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if relPkg(fnPkgPath(root)) != "humanize" && !c.onlyFrom(root, clockUsers, 0) {
			bad = "asks for the present time"
		}
	}
	if bad != "" {
		c.bad("chance", shortFn(f)+" "+n, in.Pos(), "%s %s with %s", shortFn(f), bad, n)
	}
}

// onlyFrom reports whether an unexported function is called only by the given ones (or by package humanize).
func (c *Ctx) onlyFrom(f *ssa.Function, allowed map[string]bool, depth int) bool {
	if allowed[f.String()] || relPkg(fnPkgPath(f)) == "humanize" {
		return true
	}
	if depth > 5 || f.Object() == nil || f.Object().Exported() {
		return false
	}
	found := false
	for _, g := range c.w.moduleFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					if call, ok := in.(ssa.CallInstruction); !ok || call.Common().StaticCallee() != f {
						return false
					}
					root := g
					for root.Parent() != nil {
						root = root.Parent()
					}
					if root != f && !c.onlyFrom(root, allowed, depth+1) {
						return false
					}
					found = true
				}
			}
		}
	}
	return found
}

func originName(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		return o.String()
	}
	return g.String()
}

func mapIterator(g *ssa.Function) bool {
	switch originName(g) {
	case "maps.Keys", "maps.Values", "maps.All":
		return true
	}
	return false
}

// iteratorUse reports what is wrong with the uses of an iterator over a map.
func iteratorUse(f *ssa.Function, v ssa.Value) string {
	for _, u := range uses(v) {
		call, ok := u.(*ssa.Call)
		g := (*ssa.Function)(nil)
		if ok {
			g = call.Call.StaticCallee()
		}
		if ct, isC := u.(*ssa.ChangeType); isC {
			if msg := iteratorUse(f, ct); msg != "" {
				return msg
			}
			continue
		}
		if g == nil {
			return "they are used one after the other"
		}
		switch originName(g) {
		case "slices.Sorted", "maps.Collect", "maps.Insert":
		case "slices.SortedFunc", "slices.SortedStableFunc":
			if !totalOrder(call.Call.Args[1]) {
				return "they are sorted by an order in which different entries may be equal"
			}
		case "slices.Collect", "slices.AppendSeq":
			if msg := sortedFirst(f, call, nil); msg != "" {
				return msg
			}
		default:
			return "they are handed to " + fnName(g)
		}
	}
	return ""
}

// uses lists the instructions that use a value, without those for debuggers.
func uses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v == nil || v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			out = append(out, u)
		}
	}
	return out
}

// sortedFirst reports whether a list is used otherwise before it is sorted; uses inside of the loop are judged elsewhere.
func sortedFirst(f *ssa.Function, v ssa.Value, loop map[*ssa.BasicBlock]bool) string {
	vals := map[ssa.Value]bool{v: true}
	var us []ssa.Instruction
	for work := []ssa.Value{v}; len(work) > 0; work = work[1:] {
		for _, u := range uses(work[0]) {
			if loop[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.Slice:
				if w := u.(ssa.Value); !vals[w] {
					vals[w] = true
					work = append(work, w)
				}
				continue
			}
			us = append(us, u)
		}
	}
	var sort ssa.Instruction
	why := "a list of them is not sorted"
	for _, u := range us {
		call, ok := u.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil {
			continue
		}
		switch originName(call.Call.StaticCallee()) {
		case "slices.Sort", "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable":
			sort = u
		case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
			if totalOrder(call.Call.Args[1]) {
				sort = u
			} else {
				why = "a list of them is sorted by an order in which different entries may be equal"
			}
		}
	}
	for _, u := range us {
		if u == sort {
			continue
		}
		if sort != nil && before(sort, u) {
			continue
		}
		if call, ok := u.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
		}
		if _, ok := u.(*ssa.Return); ok && unorderedResults[f.String()] {
			continue
		}
		return why
	}
	return ""
}

// before reports whether a is always executed before b.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// totalOrder recognises comparisons of the elements themselves or of one field of them.
func totalOrder(v ssa.Value) bool {
	switch c := v.(type) {
	case *ssa.MakeClosure:
		v = c.Fn
	case *ssa.ChangeType:
		return totalOrder(c.X)
	}
	f, ok := v.(*ssa.Function)
	if !ok {
		return false
	}
	switch originName(f) {
	case "strings.Compare", "cmp.Compare", "bytes.Compare", "cmp.Less":
		return true
	}
	if len(f.Blocks) != 1 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	var x, y ssa.Value
	switch r := ret.Results[0].(type) {
	case *ssa.BinOp:
		if r.Op != token.LSS && r.Op != token.GTR && r.Op != token.SUB {
			return false
		}
		x, y = r.X, r.Y
	case *ssa.Call:
		g := r.Call.StaticCallee()
		if g == nil || len(r.Call.Args) != 2 {
			return false
		}
		switch originName(g) {
		case "strings.Compare", "cmp.Compare", "bytes.Compare", "cmp.Less":
		default:
			return false
		}
		x, y = r.Call.Args[0], r.Call.Args[1]
	default:
		return false
	}
	px, rx := elemPath(x)
	py, ry := elemPath(y)
	return px == py && rx != nil && ry != nil && rx != ry
}

// elemPath is the path from a parameter, or from an element with a parameter as index, to a value.
func elemPath(v ssa.Value) (string, *ssa.Parameter) {
	switch v := v.(type) {
	case *ssa.Parameter:
		return "", v
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return elemPath(v.X)
		}
	case *ssa.Field:
		p, r := elemPath(v.X)
		return p + fmt.Sprintf(".%d", v.Field), r
	case *ssa.FieldAddr:
		p, r := elemPath(v.X)
		return p + fmt.Sprintf(".%d", v.Field), r
	case *ssa.IndexAddr:
		if p, ok := v.Index.(*ssa.Parameter); ok {
			return "[]", p
		}
	case *ssa.Convert:
		return elemPath(v.X)
	case *ssa.ChangeType:
		return elemPath(v.X)
	case *ssa.Alloc: // a parameter that is kept in memory
		var p *ssa.Parameter
		for _, u := range uses(v) {
			if s, ok := u.(*ssa.Store); ok && s.Addr == v {
				q, ok := s.Val.(*ssa.Parameter)
				if !ok || p != nil {
					return "", nil
				}
				p = q
			}
		}
		return "", p
	}
	return "", nil
}

// ---- one loop over a map ----

func (o *orderCheck) check() (string, token.Pos) {
	for _, u := range uses(o.rng) {
		if n, ok := u.(*ssa.Next); ok {
			if o.next != nil {
				return "it is continued in several places", n.Pos()
			}
			o.next = n
		}
	}
	if o.next == nil {
		return "", token.NoPos
	}
	o.head = o.next.Block()
	o.loop = map[*ssa.BasicBlock]bool{o.head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if o.loop[b] {
			return
		}
		o.loop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range o.head.Preds {
		if o.head.Dominates(p) {
			back(p)
		}
	}

	written := map[string]ssa.Value{}
	outside := false // memory that is not local is written
	for b := range o.loop {
		for _, in := range b.Instrs {
			if msg := o.instr(in, written, &outside); msg != "" {
				return msg, in.Pos()
			}
		}
	}
	for b := range o.loop {
		for _, in := range b.Instrs {
			if msg := o.reads(in, written); msg != "" {
				return msg, in.Pos()
			}
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if phi, ok := v.(*ssa.Phi); ok && b == o.head {
				if msg := o.accumulator(phi); msg != "" {
					return msg, firstPos(phi, o.rng.Pos())
				}
				continue
			}
			for _, u := range uses(v) {
				if o.loop[u.Block()] {
					continue
				}
				if phi, ok := u.(*ssa.Phi); ok {
					_ = phi // judged with the exits
					continue
				}
				if !o.indep(v, 0) {
					return fmt.Sprintf("a value of the entry it stops at is used after it (%s)", describeInstr(u)), firstPos(u, o.rng.Pos())
				}
			}
		}
	}
	return o.exits(outside)
}

func firstPos(in ssa.Instruction, def token.Pos) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	return def
}

func describeInstr(in ssa.Instruction) string {
	s := in.String()
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return strings.ReplaceAll(s, modPath, "spreak")
}

// exits checks the edges that leave the loop before its end.
func (o *orderCheck) exits(outside bool) (string, token.Pos) {
	type leave struct {
		from, to *ssa.BasicBlock
	}
	var ls []leave
	for _, b := range o.f.Blocks {
		if !o.loop[b] {
			continue
		}
		for _, s := range b.Succs {
			if !o.loop[s] && b != o.head {
				ls = append(ls, leave{b, s})
			}
		}
	}
	var first []ssa.Value
	var firstTo *ssa.BasicBlock
	for _, l := range ls {
		pos := o.rng.Pos()
		if endsInPanic(l.to) {
			continue
		}
		if outside {
			return "it is left early after something was changed", pos
		}
		var vals []ssa.Value
		for _, in := range l.to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range l.to.Preds {
				if p == l.from {
					vals = append(vals, phi.Edges[i])
				}
			}
		}
		if ret, ok := l.to.Instrs[len(l.to.Instrs)-1].(*ssa.Return); ok && len(vals) == 0 {
			vals = ret.Results
		}
		for _, v := range vals {
			if !o.indep(v, 0) {
				return fmt.Sprintf("it is left early with a value of the entry (%s)", describeValue(v)), pos
			}
		}
		if firstTo == nil {
			first, firstTo = vals, l.to
			continue
		}
		if len(first) != len(vals) {
			return "it is left early in different ways", pos
		}
		for i := range vals {
			if !sameValue(first[i], vals[i]) {
				return "it is left early with different results", pos
			}
		}
		if l.to != firstTo && (!isReturn(l.to) || !isReturn(firstTo)) {
			return "it is left early to different places", pos
		}
	}
	return "", token.NoPos
}

func describeValue(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok {
		return describeInstr(in)
	}
	return v.String()
}

func isReturn(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

func endsInPanic(b *ssa.BasicBlock) bool {
	for i := 0; i < 4; i++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Jump:
			b = b.Succs[0]
			continue
		}
		return false
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.String() == y.String()
}

// indep reports whether a value does not depend on the entry.
func (o *orderCheck) indep(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !o.loop[in.Block()] {
		return true
	}
	all := func(vs ...ssa.Value) bool {
		for _, v := range vs {
			if !o.indep(v, depth+1) {
				return false
			}
		}
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return all(v.X)
	case *ssa.ChangeType:
		return all(v.X)
	case *ssa.Convert:
		return all(v.X)
	case *ssa.ChangeInterface:
		return all(v.X)
	case *ssa.Extract:
		if v.Tuple == ssa.Value(o.next) {
			return false
		}
		return all(v.Tuple)
	case *ssa.Slice:
		return all(v.X)
	case *ssa.Alloc:
		ok := true
		for _, u := range uses(v) {
			switch u := u.(type) {
			case *ssa.Store:
				ok = ok && u.Addr == ssa.Value(v) && all(u.Val)
			case *ssa.IndexAddr, *ssa.FieldAddr:
				for _, w := range uses(u.(ssa.Value)) {
					if s, isS := w.(*ssa.Store); isS {
						ok = ok && all(s.Val)
					}
				}
			}
		}
		return ok
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if _, ok := v.X.(*ssa.Global); ok {
				return true
			}
		}
		return all(v.X)
	case *ssa.Call:
		if v.Call.StaticCallee() == nil {
			return false
		}
		return all(v.Call.Args...)
	case *ssa.Phi:
		if v.Block() == o.head {
			return o.constantPhi(v)
		}
		for _, e := range v.Edges {
			if !sameValue(e, v.Edges[0]) {
				return false
			}
		}
		return all(v.Edges[0])
	}
	return false
}

// strip removes conversions and memory with one value.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if x.Op != token.MUL || !ok {
				return v
			}
			var one ssa.Value
			for _, u := range uses(a) {
				switch u := u.(type) {
				case *ssa.Store:
					if one != nil || u.Addr != ssa.Value(a) {
						return v
					}
					one = u.Val
				case *ssa.UnOp, *ssa.FieldAddr:
				default:
					return v
				}
			}
			if one == nil {
				return v
			}
			v = one
		default:
			return v
		}
	}
}

// unique reports whether a key is different for every entry: the key of the entry, or the value of a field of the entry (a message is
// stored under its own context and id).
func (o *orderCheck) unique(key ssa.Value) bool {
	key = strip(key)
	switch k := key.(type) {
	case *ssa.Extract:
		return k.Tuple == ssa.Value(o.next) && k.Index == 1
	case *ssa.BinOp:
		if k.Op != token.ADD {
			return false
		}
		if _, ok := k.X.(*ssa.Const); ok {
			return o.unique(k.Y)
		}
		if _, ok := k.Y.(*ssa.Const); ok {
			return o.unique(k.X)
		}
	case *ssa.UnOp:
		if fa, ok := k.X.(*ssa.FieldAddr); ok && k.Op == token.MUL {
			return o.ofEntry(fa.X)
		}
	case *ssa.Field:
		return o.ofEntry(k.X)
	}
	return false
}

// ofEntry reports whether a value is the value of the entry or an object that belongs to it.
func (o *orderCheck) ofEntry(v ssa.Value) bool {
	v = strip(v)
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Tuple == ssa.Value(o.next) {
			return true
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return o.unique(l.Index) || o.ofEntry(l.X)
		}
	case *ssa.Lookup:
		return o.unique(x.Index) || o.ofEntry(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return o.ofEntry(x.X)
		}
	case *ssa.FieldAddr:
		return o.ofEntry(x.X)
	case *ssa.Field:
		return o.ofEntry(x.X)
	case *ssa.IndexAddr:
		return o.ofEntry(x.X)
	case *ssa.Slice:
		return o.ofEntry(x.X)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return o.loop[x.(ssa.Instruction).Block()]
	case *ssa.Call:
		return o.freshCall(x)
	}
	return false
}

// freshCall reports whether a call in the loop returns memory of its own.
func (o *orderCheck) freshCall(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || !o.loop[c.Block()] {
		return false
	}
	o.eff.solve([]*ssa.Function{g})
	s := o.eff.sum[g]
	for _, r := range s.rets {
		if len(s.sharing(r)) > 0 {
			return false
		}
	}
	return len(s.rets) > 0
}

// nestedKeys: an entry of an entry is stored under as many fields of its own as there are levels.
func (o *orderCheck) nestedKeys(in *ssa.MapUpdate) bool {
	keys := []ssa.Value{in.Key}
	for m := strip(in.Map); ; {
		l, ok := m.(*ssa.Lookup)
		if !ok {
			break
		}
		keys = append(keys, l.Index)
		m = strip(l.X)
	}
	var elem ssa.Value
	fields := map[int]bool{}
	for _, k := range keys {
		load, ok := strip(k).(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := load.X.(*ssa.FieldAddr)
		if !ok || elem != nil && strip(fa.X) != elem {
			return false
		}
		elem = strip(fa.X)
		fields[fa.Field] = true
	}
	depth := o.depth(elem)
	return depth > 0 && len(fields) >= depth
}

// depth is the number of maps that are iterated to get from the entry to a value.
func (o *orderCheck) depth(v ssa.Value) int {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return 0
	}
	n, ok := ex.Tuple.(*ssa.Next)
	if !ok {
		return 0
	}
	if n == o.next {
		return 1
	}
	x := strip(n.Iter.(*ssa.Range).X)
	if o.ofEntry(x) {
		return 2
	}
	return 0
}

// place is the canonical path of memory, and whether it belongs to the entry.
func (o *orderCheck) place(v ssa.Value) (string, bool) {
	if o.ofEntry(v) {
		return "", true
	}
	v = strip(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p, own := o.place(x.X)
			return p, own
		}
	case *ssa.FieldAddr:
		p, own := o.place(x.X)
		return fmt.Sprintf("%s.%d", p, x.Field), own
	case *ssa.Field:
		p, own := o.place(x.X)
		return fmt.Sprintf("%s.%d", p, x.Field), own
	case *ssa.IndexAddr:
		p, own := o.place(x.X)
		return p + "[]", own
	case *ssa.Slice:
		return o.place(x.X)
	case *ssa.Lookup:
		p, own := o.place(x.X)
		return p + "[v]", own || o.unique(x.Index)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return o.place(l)
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v), false
}

func (o *orderCheck) local(v ssa.Value) bool {
	for {
		v = strip(v)
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.Phi:
			return true // values of the function
		default:
			return false
		}
	}
}

// commutes reports whether v is x with something added to it that does not depend on it.
func (o *orderCheck) commutes(v, x ssa.Value, same func(ssa.Value) bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	basic, isB := b.Type().Underlying().(*types.Basic)
	if !isB || basic.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return same(b.X) && !same(b.Y) || same(b.Y) && !same(b.X)
	case token.SUB:
		return same(b.X) && !same(b.Y)
	}
	return false
}

func (o *orderCheck) instr(in ssa.Instruction, written map[string]ssa.Value, outside *bool) string {
	mark := func(v ssa.Value) {
		p, own := o.place(v)
		if !own {
			written[p] = v
		}
		if !o.local(v) {
			*outside = true
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		p, own := o.place(in.Addr)
		if own {
			return ""
		}
		same := func(v ssa.Value) bool {
			l, ok := v.(*ssa.UnOp)
			if !ok || l.Op != token.MUL {
				return false
			}
			q, _ := o.place(l.X)
			return q == p
		}
		if o.commutes(in.Val, nil, same) {
			mark(in.Addr)
			return ""
		}
		if _, isC := in.Val.(*ssa.Const); isC {
			for b := range o.loop {
				for _, in2 := range b.Instrs {
					if s, ok := in2.(*ssa.Store); ok && s != in {
						if q, _ := o.place(s.Addr); q == p && !sameValue(s.Val, in.Val) {
							return "different values are stored in the same place"
						}
					}
				}
			}
			mark(in.Addr)
			return ""
		}
		return "the last entry decides what is stored (" + describeInstr(in) + ")"
	case *ssa.MapUpdate:
		p, own := o.place(in.Map)
		if own || o.unique(in.Key) || o.nestedKeys(in) {
			if !o.local(in.Map) {
				*outside = true
			}
			if !own {
				written[p+"[u]"] = in.Map
			}
			return ""
		}
		if o.indep(in.Value, 0) {
			mark(in.Map)
			written[p+"[c]"] = in.Map
			for b := range o.loop {
				for _, in2 := range b.Instrs {
					if s, ok := in2.(*ssa.MapUpdate); ok && s != in {
						if q, _ := o.place(s.Map); q == p && !sameValue(s.Value, in.Value) {
							return "different values are stored in the same map"
						}
					}
				}
			}
			return ""
		}
		same := func(v ssa.Value) bool {
			l, ok := v.(*ssa.Lookup)
			if !ok {
				return false
			}
			q, _ := o.place(l.X)
			return q == p
		}
		if o.commutes(in.Value, nil, same) {
			mark(in.Map)
			return ""
		}
		return "entries may be stored under the same key (" + describeInstr(in) + ")"
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		return "it " + describeInstr(in)
	case *ssa.Call:
		return o.call(in, mark, written)
	}
	return ""
}

// pureMethods may be called on any object.
var pureMethods = map[string]bool{"Error": true, "String": true, "Is": true, "Unwrap": true, "Language": true, "Domain": true, "Len": true, "Less": true, "As": true, "Name": true}

func (o *orderCheck) call(in *ssa.Call, mark func(ssa.Value), written map[string]ssa.Value) string {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			p, own := o.place(cc.Args[0])
			if !own && !o.unique(cc.Args[1]) {
				mark(cc.Args[0])
			} else if !own {
				written[p+"[u]"] = cc.Args[0]
			}
		case "copy", "clear":
			if _, own := o.place(cc.Args[0]); !own {
				return "memory is overwritten by every entry"
			}
		case "print", "println":
			return "it prints"
		}
		return ""
	}
	if cc.IsInvoke() {
		if !pureMethods[cc.Method.Name()] {
			if _, own := o.place(cc.Value); own {
				return ""
			}
			return "the method " + cc.Method.Name() + " is called for every entry"
		}
		return ""
	}
	g := cc.StaticCallee()
	if g == nil {
		return "a function is called for every entry"
	}
	var writes []int
	if ws, ok := extWrites[fnName(g)]; ok {
		writes = ws
	} else if o.eff.follow(g) {
		o.eff.solve([]*ssa.Function{g})
		s := o.eff.sum[g]
		if len(s.pend) > 0 && !o.quietFuncs(cc) {
			return fnName(g) + " calls functions it was given for every entry"
		}
		for l := range s.writes {
			if l.b.kind != 'P' {
				return fnName(g) + " changes " + strings.ReplaceAll(l.String(), modPath, "spreak") + " for every entry"
			}
			writes = append(writes, l.b.n)
		}
	}
	for _, n := range writes {
		if n >= len(cc.Args) {
			continue
		}
		if _, own := o.place(cc.Args[n]); !own {
			return strings.ReplaceAll(fnName(g), modPath, "spreak") + " changes something for every entry"
		}
	}
	// what is changed by the loop is not handed to functions
	for _, a := range cc.Args {
		if !pointerLike(a.Type()) {
			continue
		}
		if p, own := o.place(a); !own {
			if _, ok := written[p]; ok {
				return "a function sees what earlier entries left"
			}
		}
	}
	return ""
}

// quietFuncs reports whether all functions a call is given are known and change nothing.
func (o *orderCheck) quietFuncs(cc *ssa.CallCommon) bool {
	n := 0
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		n++
		a = strip(a)
		if c, ok := a.(*ssa.Call); ok && c.Call.StaticCallee() != nil && mapIterator(c.Call.StaticCallee()) {
			continue
		}
		if mc, ok := a.(*ssa.MakeClosure); ok {
			a = mc.Fn
		}
		f, ok := a.(*ssa.Function)
		if !ok {
			return false
		}
		o.eff.solve([]*ssa.Function{f})
		if s := o.eff.sum[f]; len(s.writes) > 0 || len(s.pend) > 0 {
			return false
		}
	}
	return n > 0
}

// reads reports reads of memory that other entries have written.
func (o *orderCheck) reads(in ssa.Instruction, written map[string]ssa.Value) string {
	switch in := in.(type) {
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return ""
		}
		p, own := o.place(in.X)
		if own || o.unique(in.Index) {
			return ""
		}
		_, a := written[p]
		_, b := written[p+"[u]"]
		if a || b {
			us := uses(in)
			path := len(us) > 0 // on the way to an entry of its own
			for _, u := range us {
				m, ok := u.(*ssa.MapUpdate)
				path = path && ok && m.Map == ssa.Value(in) && o.nestedKeys(m)
			}
			if path {
				return ""
			}
			// the sum of a place may be continued
			if len(us) == 1 {
				if bin, ok := us[0].(*ssa.BinOp); ok {
					for _, u := range uses(bin) {
						if m, ok := u.(*ssa.MapUpdate); ok && m.Value == ssa.Value(bin) {
							return ""
						}
					}
				}
			}
			return "it looks at what earlier entries left"
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return ""
		}
		p, own := o.place(in.X)
		if own {
			return ""
		}
		if _, ok := written[p]; ok {
			for _, u := range uses(in) {
				bin, ok := u.(*ssa.BinOp)
				if !ok {
					return "it looks at what earlier entries left"
				}
				for _, w := range uses(bin) {
					if s, ok := w.(*ssa.Store); !ok || s.Val != ssa.Value(bin) {
						return "it looks at what earlier entries left"
					}
				}
			}
		}
	}
	return ""
}

// constantPhi: a variable that is only set to one constant.
func (o *orderCheck) constantPhi(p *ssa.Phi) bool {
	var c ssa.Value
	seen := map[ssa.Value]bool{p: true}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		if phi, ok := v.(*ssa.Phi); ok && o.loop[phi.Block()] && phi.Block() != o.head {
			seen[v] = true
			for _, e := range phi.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		}
		if in, ok := v.(ssa.Instruction); ok && o.loop[in.Block()] {
			return false
		}
		if c == nil {
			c = v
		}
		return sameValue(c, v)
	}
	for i, e := range p.Edges {
		if o.loop[p.Block().Preds[i]] && !walk(e) {
			return false
		}
	}
	return true
}

// accumulator checks a variable that is carried from entry to entry.
func (o *orderCheck) accumulator(p *ssa.Phi) string {
	if o.constantPhi(p) {
		// Its value in between depends on the order.
		for _, u := range uses(p) {
			if !o.loop[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.Phi:
				continue
			case *ssa.BinOp, *ssa.UnOp:
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && onlyConditions(u.(ssa.Value)) {
					continue
				}
			case *ssa.If:
				continue
			}
			if len(p.Edges) > 0 && !allSame(p.Edges, p) {
				return "it looks at what earlier entries left (" + describeInstr(u) + ")"
			}
		}
		return ""
	}
	// all versions of the variable within the loop
	versions := map[ssa.Value]bool{p: true}
	kind := ""
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if versions[v] {
			return ""
		}
		is := func(w ssa.Value) bool { return versions[w] }
		switch x := v.(type) {
		case *ssa.Phi:
			if o.loop[x.Block()] {
				versions[v] = true
				for _, e := range x.Edges {
					if msg := walk(e); msg != "" {
						return msg
					}
				}
				return ""
			}
		case *ssa.BinOp:
			for _, e := range []ssa.Value{x.X, x.Y} {
				if phi, ok := e.(*ssa.Phi); ok && o.loop[phi.Block()] && !versions[e] {
					if msg := walk(e); msg != "" {
						return msg
					}
				}
			}
			op := "+"
			if x.Op != token.ADD && x.Op != token.SUB {
				op = x.Op.String()
			}
			if o.commutes(v, nil, is) && (kind == "" || kind == op) {
				kind = op
				versions[v] = true
				return ""
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if msg := walk(x.Call.Args[0]); msg != "" {
						return msg
					}
					if kind == "" || kind == "append" {
						kind = "append"
						versions[v] = true
						return ""
					}
				case "min", "max":
					if kind == "" || kind == b.Name() {
						for _, a := range x.Call.Args {
							if is(a) {
								kind = b.Name()
								versions[v] = true
								return ""
							}
						}
					}
				}
			}
		}
		return "the last entry decides about a variable"
	}
	for i, e := range p.Edges {
		if o.loop[p.Block().Preds[i]] {
			if msg := walk(e); msg != "" {
				return msg
			}
		}
	}
	for v := range versions {
		for _, u := range uses(v) {
			if !o.loop[u.Block()] {
				continue
			}
			if w, ok := u.(ssa.Value); ok && versions[w] {
				continue
			}
			if c, ok := u.(*ssa.Call); ok && kind == "append" {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return "it looks at what earlier entries left"
				}
			}
			return "it looks at what earlier entries left (" + describeInstr(u) + ")"
		}
	}
	if kind == "append" {
		for v := range versions {
			if msg := sortedFirst(o.f, v, o.loop); msg != "" {
				return msg
			}
		}
	}
	return ""
}

func allSame(vs []ssa.Value, p ssa.Value) bool {
	var c ssa.Value
	for _, v := range vs {
		if v == p {
			continue
		}
		if c != nil && !sameValue(c, v) {
			return false
		}
		c = v
	}
	return true
}

func onlyConditions(v ssa.Value) bool {
	for _, u := range uses(v) {
		if _, ok := u.(*ssa.If); !ok {
			return false
		}
	}
	return true
}
