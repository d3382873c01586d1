package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Every loop and every recursion has an argument why it ends:
//
//	range      it visits the elements of a collection
//	counted    a number moves towards a bound that does not change
//	shrinking  a text or list gets shorter, a number is divided
//	chain      it follows parents, links or pointers
//	descent    the recursion gets a part of its argument
//	consuming  every pass consumes input, and the end of the input leaves the loop
//	definition the function does the same as its reference definition
type loopChecker struct {
	w       *World
	x       *Exec
	cnt     map[ssa.Value]int64
	stored  map[*ssa.Function]map[*types.Var]bool
	callees map[*ssa.Function][]callEdge
	why     map[*ssa.BasicBlock]string
	rec     map[*ssa.Function]bool // functions that may call themselves without passing a part of their arguments
}

type callEdge struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	args []ssa.Value // the arguments that correspond to the parameters, nil if unknown
}

const inf = int64(1) << 40

func (lc *loopChecker) classify(f *ssa.Function, l *loopInfo) string {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			if lc.everyPass(l, b) {
				if r, ok := n.Iter.(*ssa.Range); ok && !l.blocks[r.Block()] {
					return "range"
				}
			}
		}
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] || !lc.everyPass(l, b) {
			continue
		}
		if lc.counted(f, l, iff, l.blocks[b.Succs[0]]) {
			return "counted"
		}
		if lc.chain(l, iff) {
			return "chain"
		}
	}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if lc.shrinks(l, phi) {
			return "shrinking"
		}
	}
	return ""
}

// everyPass reports whether every pass of a loop goes through a block.
func (lc *loopChecker) everyPass(l *loopInfo, b *ssa.BasicBlock) bool {
	for _, p := range l.header.Preds {
		if l.blocks[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

func (l *loopInfo) invariant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !l.blocks[in.Block()]
}

// latchEdges are the values that a phi of the header gets from the passes of the loop.
func (l *loopInfo) latchEdges(phi *ssa.Phi) []ssa.Value {
	var res []ssa.Value
	for i, p := range phi.Block().Preds {
		if l.blocks[p] {
			res = append(res, phi.Edges[i])
		}
	}
	return res
}

// delta bounds v minus the value of phi at the beginning of the pass.
func (lc *loopChecker) delta(l *loopInfo, v ssa.Value, phi *ssa.Phi, busy map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if v == ssa.Value(phi) {
		return 0, 0, true
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || !l.blocks[in.Block()] || busy[v] {
		return 0, 0, false
	}
	switch n := v.(type) {
	case *ssa.Phi:
		if n.Block() == l.header {
			return 0, 0, false
		}
		busy[v] = true
		defer delete(busy, v)
		lo, hi = inf, -inf
		inner := false
		for _, e := range n.Edges {
			if busy[e] {
				inner = true
				continue
			}
			a, b, ok := lc.delta(l, e, phi, busy)
			if !ok {
				return 0, 0, false
			}
			lo, hi = min(lo, a), max(hi, b)
		}
		// The value of an inner loop moves in one direction from its start.
		if inner {
			return 0, 0, false
		}
		for _, il := range lc.x.loopsOf(n.Parent()) {
			if il.header != n.Block() {
				continue
			}
			// an inner loop: the start and the direction
			start, up, down := [2]int64{inf, -inf}, true, true
			for i, p := range n.Block().Preds {
				if il.blocks[p] {
					a, b, ok := lc.delta(il, n.Edges[i], n, map[ssa.Value]bool{})
					if !ok {
						return 0, 0, false
					}
					up, down = up && a >= 0, down && b <= 0
					continue
				}
				a, b, ok := lc.delta(l, n.Edges[i], phi, busy)
				if !ok {
					return 0, 0, false
				}
				start[0], start[1] = min(start[0], a), max(start[1], b)
			}
			switch {
			case up:
				return start[0], inf, true
			case down:
				return -inf, start[1], true
			}
			return 0, 0, false
		}
		return lo, hi, true
	case *ssa.BinOp:
		if n.Op != token.ADD && n.Op != token.SUB {
			return 0, 0, false
		}
		a, b, ok := lc.delta(l, n.X, phi, busy)
		y := n.Y
		if !ok {
			if n.Op == token.SUB {
				return 0, 0, false
			}
			if a, b, ok = lc.delta(l, n.Y, phi, busy); !ok {
				return 0, 0, false
			}
			y = n.X
		}
		c, d, ok := lc.amount(y)
		if !ok {
			return 0, 0, false
		}
		if n.Op == token.SUB {
			c, d = -d, -c
		}
		return a + c, b + d, true
	case *ssa.Convert:
		return lc.delta(l, n.X, phi, busy)
	}
	return 0, 0, false
}

// amount bounds a number that is added to a position.
func (lc *loopChecker) amount(v ssa.Value) (lo, hi int64, ok bool) {
	switch n := v.(type) {
	case *ssa.Const:
		if n.Value != nil && intType(n.Type()) {
			c := n.Int64()
			return c, c, true
		}
	case *ssa.Extract:
		// The size of a rune of a text that is not empty.
		if c, ok := n.Tuple.(*ssa.Call); ok && n.Index == 1 {
			if f := c.Call.StaticCallee(); f != nil && strings.HasPrefix(fnName(f), "unicode/utf8.Decode") {
				return 1, 4, true
			}
		}
	case *ssa.Call:
		if b, ok := n.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				return 0, inf, true
			case "max", "min":
				lo, hi := int64(0), int64(0)
				for i, a := range n.Call.Args {
					c, d, ok := lc.amount(a)
					if !ok {
						return 0, 0, false
					}
					switch {
					case i == 0:
						lo, hi = c, d
					case b.Name() == "max":
						lo, hi = max(lo, c), max(hi, d)
					default:
						lo, hi = min(lo, c), min(hi, d)
					}
				}
				return lo, hi, len(n.Call.Args) > 0
			}
		}
		if f := n.Call.StaticCallee(); f != nil {
			switch fnName(f) {
			case "unicode/utf8.RuneLen", "unicode/utf8.EncodeRune":
				return 1, 4, fnName(f) == "unicode/utf8.EncodeRune"
			}
		}
	case *ssa.BinOp:
		if n.Op == token.ADD {
			a, b, ok := lc.amount(n.X)
			c, d, ok2 := lc.amount(n.Y)
			return a + c, b + d, ok && ok2
		}
	case *ssa.Convert:
		return lc.amount(n.X)
	case *ssa.Phi:
		lo, hi = inf, -inf
		for _, e := range n.Edges {
			if _, isPhi := e.(*ssa.Phi); isPhi {
				return 0, 0, false
			}
			a, b, ok := lc.amount(e)
			if !ok {
				return 0, 0, false
			}
			lo, hi = min(lo, a), max(hi, b)
		}
		return lo, hi, len(n.Edges) > 0
	}
	return 0, 0, false
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// counted reports whether the loop is left when a number that moves in every pass reaches a bound.
func (lc *loopChecker) counted(f *ssa.Function, l *loopInfo, iff *ssa.If, stay bool) bool {
	cond := iff.Cond
	for {
		n, ok := cond.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		cond, stay = n.X, !stay
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := cmp.Op
	if !stay {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for side := 0; side < 2; side++ {
			pos, bound, o := cmp.X, cmp.Y, op
			if side == 1 {
				pos, bound, o = cmp.Y, cmp.X, flip[op]
			}
			lo, hi, ok := lc.step(l, phi)
			if !ok {
				// len(rest) > 0
				if lc.lenOf(pos, phi) && lc.shrinks(l, phi) {
					return true
				}
				continue
			}
			if _, _, ok := lc.delta(l, pos, phi, map[ssa.Value]bool{}); !ok || !lc.fixed(f, l, bound) {
				continue
			}
			switch o {
			case token.LSS, token.LEQ:
				if lo >= 1 {
					return true
				}
			case token.GTR, token.GEQ:
				if hi <= -1 {
					return true
				}
			case token.NEQ:
				if lo == 1 && hi == 1 || lo == -1 && hi == -1 {
					return true
				}
			}
		}
	}
	return false
}

// step bounds the change of a variable of the loop in one pass.
func (lc *loopChecker) step(l *loopInfo, phi *ssa.Phi) (lo, hi int64, ok bool) {
	if !intType(phi.Type()) {
		return 0, 0, false
	}
	lo, hi = inf, -inf
	for _, e := range l.latchEdges(phi) {
		a, b, ok := lc.delta(l, e, phi, map[ssa.Value]bool{})
		if !ok {
			return 0, 0, false
		}
		lo, hi = min(lo, a), max(hi, b)
	}
	return lo, hi, true
}

func (lc *loopChecker) lenOf(v ssa.Value, phi *ssa.Phi) bool {
	if v == ssa.Value(phi) {
		return true
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == ssa.Value(phi)
}

// fixed reports whether a value is the same in every pass.
func (lc *loopChecker) fixed(f *ssa.Function, l *loopInfo, v ssa.Value) bool {
	if l.invariant(v) {
		return true
	}
	switch n := v.(type) {
	case *ssa.Call:
		if b, ok := n.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "min" || b.Name() == "max" || b.Name() == "cap") {
			for _, a := range n.Call.Args {
				if !lc.fixed(f, l, a) {
					return false
				}
			}
			return true
		}
		if g := n.Call.StaticCallee(); g != nil && (isPureExternal(fnName(g), g)) {
			for _, a := range n.Call.Args {
				if !lc.fixed(f, l, a) || pointerLike(a.Type()) {
					return false
				}
			}
			return len(n.Call.Args) > 0
		}
	case *ssa.BinOp:
		return lc.fixed(f, l, n.X) && lc.fixed(f, l, n.Y)
	case *ssa.Convert:
		return lc.fixed(f, l, n.X)
	case *ssa.ChangeType:
		return lc.fixed(f, l, n.X)
	case *ssa.FieldAddr:
		return lc.fixed(f, l, n.X)
	case *ssa.Field:
		return lc.fixed(f, l, n.X)
	case *ssa.UnOp:
		if n.Op != token.MUL {
			return lc.fixed(f, l, n.X)
		}
		switch a := n.X.(type) {
		case *ssa.FieldAddr:
			return lc.fixed(f, l, a.X) && !lc.storedIn(l, fieldVar(a))
		case *ssa.Global:
			if lc.w.unchangedGlobal(a) {
				return true
			}
			for _, in := range lc.w.globUses[a] {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					return false
				}
			}
			return true
		case *ssa.Alloc:
			return !lc.storedAlloc(l, a)
		case *ssa.FreeVar:
			// a captured variable: not assigned by the function literal
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (lc *loopChecker) storedAlloc(l *loopInfo, a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch n := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if n.Val == ssa.Value(a) || l.blocks[n.Block()] {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func fieldVar(a *ssa.FieldAddr) *types.Var {
	return a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field)
}

// storedIn reports whether a loop may change a field.
func (lc *loopChecker) storedIn(l *loopInfo, v *types.Var) bool {
	seen := map[*ssa.Function]bool{}
	var instr func(in ssa.Instruction) bool
	var fn func(f *ssa.Function) bool
	fn = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !inModule(fnPkgPath(f)) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if instr(in) {
					return true
				}
			}
		}
		return false
	}
	instr = func(in ssa.Instruction) bool {
		if a, ok := in.(*ssa.FieldAddr); ok && fieldVar(a) == v {
			for _, r := range *a.Referrers() {
				switch n := r.(type) {
				case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
				case *ssa.Store:
					_ = n
					return true
				default:
					return true
				}
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			for _, e := range lc.edges(in.Parent()) {
				if e.site == ci && fn(e.fn) {
					return true
				}
			}
		}
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if instr(in) {
				return true
			}
		}
	}
	return false
}

// shrinks reports whether a text, list or number gets smaller in every pass.
func (lc *loopChecker) shrinks(l *loopInfo, phi *ssa.Phi) bool {
	edges := l.latchEdges(phi)
	for _, e := range edges {
		if !lc.smaller(l, e, phi, 0) {
			return false
		}
	}
	return len(edges) > 0
}

func (lc *loopChecker) smaller(l *loopInfo, v ssa.Value, phi *ssa.Phi, depth int) bool {
	if depth > 8 {
		return false
	}
	same := func(v ssa.Value) bool { return v == ssa.Value(phi) || lc.smaller(l, v, phi, depth+1) }
	switch n := v.(type) {
	case *ssa.Phi:
		if n.Block() == l.header || !l.blocks[n.Block()] {
			return false
		}
		for _, e := range n.Edges {
			if !lc.smaller(l, e, phi, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if n.Low == nil || !same(n.X) {
			// x[:len(x)-1]
			if b, ok := n.High.(*ssa.BinOp); ok && n.Low == nil && b.Op == token.SUB && same(n.X) {
				if c, ok := b.X.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && c.Call.Args[0] == n.X {
						lo, _, ok := lc.amount(b.Y)
						return ok && lo >= 1
					}
				}
			}
			return false
		}
		if lo, _, ok := lc.amount(n.Low); ok && lo >= 1 {
			return true
		}
		// a position that is found plus at least one
		if b, ok := n.Low.(*ssa.BinOp); ok && b.Op == token.ADD {
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if lo, _, ok := lc.amount(p[1]); ok && lo >= 1 {
					if c, ok := p[0].(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.Contains(fnName(c.Call.StaticCallee()), "Index") {
						return true
					}
				}
			}
		}
	case *ssa.Extract:
		// The part behind a separator.
		c, ok := n.Tuple.(*ssa.Call)
		if !ok || n.Index != 1 || c.Call.StaticCallee() == nil {
			return false
		}
		switch fnName(c.Call.StaticCallee()) {
		case "strings.Cut", "bytes.Cut":
			k, ok := c.Call.Args[1].(*ssa.Const)
			return same(c.Call.Args[0]) && ok && k.Value != nil && k.Value.ExactString() != `""`
		}
	case *ssa.BinOp:
		if !intType(phi.Type()) {
			return false
		}
		switch n.Op {
		case token.QUO:
			c, _, ok := lc.amount(n.Y)
			return ok && c >= 2 && same(n.X)
		case token.SHR:
			c, _, ok := lc.amount(n.Y)
			return ok && c >= 1 && same(n.X)
		}
	}
	return false
}

// chain reports whether the loop follows parents, links or pointers and is left at the last one.
func (lc *loopChecker) chain(l *loopInfo, iff *ssa.If) bool {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		edges := l.latchEdges(phi)
		all := len(edges) > 0
		for _, e := range edges {
			all = all && lc.next(l, e, phi, 0)
		}
		if all && lc.lastLink(iff.Cond, phi) {
			return true
		}
	}
	return false
}

// lastLink reports whether a condition asks for the end of a chain.
func (lc *loopChecker) lastLink(cond ssa.Value, phi *ssa.Phi) bool {
	link := func(v ssa.Value) bool {
		for i := 0; i < 6; i++ {
			switch n := v.(type) {
			case *ssa.UnOp:
				if n.Op != token.MUL && n.Op != token.NOT {
					return false
				}
				v = n.X
			case *ssa.Alloc:
				var src ssa.Value
				for _, r := range *n.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(n) {
						if src != nil {
							return false
						}
						src = s.Val
					}
				}
				v = src
			case *ssa.ChangeInterface:
				v = n.X
			default:
				return v == ssa.Value(phi)
			}
		}
		return false
	}
	asks := func(v ssa.Value, names string) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if c.Call.IsInvoke() {
			return link(c.Call.Value) && strings.Contains(names, " "+c.Call.Method.Name()+" ")
		}
		f := c.Call.StaticCallee()
		return f != nil && len(c.Call.Args) > 0 && link(c.Call.Args[0]) && strings.Contains(names, " "+f.Name()+" ")
	}
	switch n := cond.(type) {
	case *ssa.UnOp:
		return n.Op == token.NOT && lc.lastLink(n.X, phi)
	case *ssa.Call:
		return asks(n, " IsRoot IsNil IsValid ")
	case *ssa.Extract:
		ta, ok := n.Tuple.(*ssa.TypeAssert)
		return ok && n.Index == 1 && link(ta.X)
	case *ssa.BinOp:
		if n.Op != token.EQL && n.Op != token.NEQ {
			return false
		}
		for _, p := range [][2]ssa.Value{{n.X, n.Y}, {n.Y, n.X}} {
			_, isConst := p[1].(*ssa.Const)
			if ld, ok := p[1].(*ssa.UnOp); ok && ld.Op == token.MUL {
				g, ok := ld.X.(*ssa.Global)
				isConst = ok && g.Name() == "Und"
			}
			if isConst && (link(p[0]) || asks(p[0], " Kind String ")) {
				return true
			}
		}
	}
	return false
}

// next reports whether v is reached from phi by at least one link.
func (lc *loopChecker) next(l *loopInfo, v ssa.Value, phi *ssa.Phi, depth int) bool {
	if depth > 8 {
		return false
	}
	same := func(v ssa.Value) bool { return v == ssa.Value(phi) || lc.next(l, v, phi, depth+1) }
	switch n := v.(type) {
	case *ssa.Phi:
		if n.Block() == l.header || !l.blocks[n.Block()] {
			return false
		}
		for _, e := range n.Edges {
			if !lc.next(l, e, phi, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := n.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch fnName(f) {
		case "(golang.org/x/text/language.Tag).Parent", "(reflect.Value).Elem", "(reflect.Type).Elem", "errors.Unwrap":
			return same(n.Call.Args[0])
		}
	case *ssa.UnOp:
		if fa, ok := n.X.(*ssa.FieldAddr); ok && n.Op == token.MUL && pointerLike(n.Type()) {
			return same(fa.X)
		}
	case *ssa.Extract:
		if ta, ok := n.Tuple.(*ssa.TypeAssert); ok && n.Index == 0 {
			return lc.next(l, ta.X, phi, depth+1)
		}
	case *ssa.TypeAssert:
		return lc.next(l, n.X, phi, depth+1)
	case *ssa.ChangeInterface:
		return lc.next(l, n.X, phi, depth+1)
	}
	return false
}

// edges are the calls of functions of the module.
func (lc *loopChecker) edges(f *ssa.Function) []callEdge {
	if e, ok := lc.callees[f]; ok {
		return e
	}
	var res []callEdge
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				// A function literal is run by the function that makes it.
				if g, ok := mc.Fn.(*ssa.Function); ok {
					if !lc.onlyCalled(mc) {
						res = append(res, callEdge{nil, g, nil})
					}
				}
				continue
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if g := c.StaticCallee(); g != nil {
				if o := g.Origin(); o != nil && len(g.Blocks) == 0 {
					g = o
				}
				if inModule(fnPkgPath(g)) {
					res = append(res, callEdge{ci, g, c.Args})
				} else if strings.HasPrefix(fnName(g), "fmt.") {
					// Printing a value calls its methods.
					for _, a := range printed(c.Args) {
						for _, m := range []string{"Error", "String", "Format", "GoString"} {
							if h := lc.w.methodOf(a.Type(), m); h != nil && inModule(fnPkgPath(h)) {
								res = append(res, callEdge{ci, h, []ssa.Value{a}})
							}
						}
					}
				}
				continue
			}
			if c.IsInvoke() {
				for _, g := range lc.implementations(c) {
					res = append(res, callEdge{ci, g, append([]ssa.Value{c.Value}, c.Args...)})
				}
			}
		}
	}
	lc.callees[f] = res
	return res
}

func (lc *loopChecker) onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch n := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if n.Common().Value != ssa.Value(mc) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// printed lists the values that are passed to a printing function.
func printed(args []ssa.Value) []ssa.Value {
	var res []ssa.Value
	for _, a := range args {
		switch n := a.(type) {
		case *ssa.MakeInterface:
			res = append(res, n.X)
		case *ssa.Slice:
			al, ok := n.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r := range *ia.Referrers() {
					if s, ok := r.(*ssa.Store); ok {
						if mi, ok := s.Val.(*ssa.MakeInterface); ok {
							res = append(res, mi.X)
						}
					}
				}
			}
		}
	}
	return res
}

func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Name() == name {
			if types.IsInterface(t) {
				return nil
			}
			return w.prog.FuncValue(o)
		}
	}
	return nil
}

func (lc *loopChecker) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	for _, p := range sortedKeys(lc.w.ssap) {
		sp := lc.w.ssap[p]
		if sp == nil {
			continue
		}
		for _, n := range sortedKeys(sp.Members) {
			m, ok := sp.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(m.Type()) {
				continue
			}
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				if types.Implements(t, it) {
					if g := lc.w.methodOf(t, c.Method.Name()); g != nil && inModule(fnPkgPath(g)) {
						res = append(res, g)
					}
					break
				}
			}
		}
	}
	return res
}

// part reports whether v is a part of a parameter of f that is reached by at least one link, and which parameter that is.
func part(v ssa.Value, steps, depth int) (*ssa.Parameter, bool) {
	if depth > 20 {
		return nil, false
	}
	switch n := v.(type) {
	case *ssa.Parameter:
		return n, steps > 0
	case *ssa.UnOp:
		if n.Op != token.MUL {
			return nil, false
		}
		if a, ok := n.X.(*ssa.Alloc); ok {
			// a copy of a value
			var src ssa.Value
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if src != nil {
						return nil, false
					}
					src = s.Val
				}
			}
			if src != nil {
				return part(src, steps, depth+1)
			}
			return nil, false
		}
		if fv, ok := n.X.(*ssa.FreeVar); ok {
			_ = fv
			return nil, false
		}
		return part(n.X, steps, depth+1)
	case *ssa.FieldAddr:
		if a, ok := n.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					return part(s.Val, steps+1, depth+1)
				}
			}
			return nil, false
		}
		return part(n.X, steps+1, depth+1)
	case *ssa.Field:
		return part(n.X, steps+1, depth+1)
	case *ssa.IndexAddr:
		return part(n.X, steps+1, depth+1)
	case *ssa.Index:
		return part(n.X, steps+1, depth+1)
	case *ssa.Lookup:
		return part(n.X, steps+1, depth+1)
	case *ssa.TypeAssert:
		return part(n.X, steps, depth+1)
	case *ssa.Extract:
		switch t := n.Tuple.(type) {
		case *ssa.TypeAssert:
			return part(t.X, steps, depth+1)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return part(r.X, steps+1, depth+1)
			}
		}
		return nil, false
	case *ssa.MakeInterface:
		return part(n.X, steps, depth+1)
	case *ssa.ChangeInterface:
		return part(n.X, steps, depth+1)
	case *ssa.ChangeType:
		return part(n.X, steps, depth+1)
	case *ssa.Slice:
		if n.Low != nil {
			if c, ok := n.Low.(*ssa.Const); ok && c.Int64() > 0 {
				return part(n.X, steps+1, depth+1)
			}
		}
		return part(n.X, steps, depth+1)
	case *ssa.Call:
		if f := n.Call.StaticCallee(); f != nil {
			switch fnName(f) {
			case "(reflect.Value).Elem", "(reflect.Value).Field", "(reflect.Value).Index":
				return part(n.Call.Args[0], steps+1, depth+1)
			case "reflect.ValueOf", "(reflect.Value).Interface":
				return part(n.Call.Args[0], steps, depth+1)
			}
		}
	}
	return nil, false
}

// descends reports whether a call passes a part of a parameter, or a value of a type for which there is no such call.
func (lc *loopChecker) descends(f *ssa.Function, e callEdge) bool {
	for _, a := range e.args {
		if _, ok := part(a, 0, 0); ok && pointerLike(a.Type()) {
			return true
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && e.site != nil {
			if lc.typeExcluded(f, e.site.Block(), mi.X.Type()) {
				return true
			}
		}
	}
	return false
}

// typeExcluded reports whether a block is only reached if the argument does not have the type.
func (lc *loopChecker) typeExcluded(f *ssa.Function, b *ssa.BasicBlock, t types.Type) bool {
	for _, c := range f.Blocks {
		iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok || !c.Succs[1].Dominates(b) || len(c.Succs[1].Preds) != 1 {
			continue
		}
		ex, ok := iff.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || !types.Identical(ta.AssertedType, t) {
			continue
		}
		v := ta.X
		if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Indirect" && len(c.Call.Args) == 1 {
			// The value that a pointer points to, which is the value itself for all other types.
			if _, ptr := t.Underlying().(*types.Pointer); !ptr {
				v = c.Call.Args[0]
			}
		}
		if _, ok := v.(*ssa.Parameter); ok {
			return true
		}
	}
	return false
}

// recursive lists the functions that may call themselves without passing a part of their arguments.
func (lc *loopChecker) recursive(fns []*ssa.Function) (rec, descent []*ssa.Function) {
	cycle := func(keep func(f *ssa.Function, e callEdge) bool) map[*ssa.Function]bool {
		// Tarjan
		res := map[*ssa.Function]bool{}
		idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
		on := map[*ssa.Function]bool{}
		var stack []*ssa.Function
		n := 0
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			n++
			idx[f], low[f] = n, n
			stack = append(stack, f)
			on[f] = true
			self := false
			for _, e := range lc.edges(f) {
				if !keep(f, e) {
					continue
				}
				if e.fn == f {
					self = true
				}
				if idx[e.fn] == 0 {
					visit(e.fn)
					low[f] = min(low[f], low[e.fn])
				} else if on[e.fn] {
					low[f] = min(low[f], idx[e.fn])
				}
			}
			if low[f] == idx[f] {
				var scc []*ssa.Function
				for {
					g := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[g] = false
					scc = append(scc, g)
					if g == f {
						break
					}
				}
				if len(scc) > 1 || self {
					for _, g := range scc {
						res[g] = true
					}
				}
			}
		}
		for _, f := range fns {
			if idx[f] == 0 {
				visit(f)
			}
		}
		return res
	}
	all := cycle(func(*ssa.Function, callEdge) bool { return true })
	open := cycle(func(f *ssa.Function, e callEdge) bool { return !all[f] || !lc.descends(f, e) })
	for _, f := range fns {
		switch {
		case open[f]:
			rec = append(rec, f)
		case all[f]:
			descent = append(descent, f)
		}
	}
	return rec, descent
}

func (l *loopInfo) pos() token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// checkLoops decides that every loop and every recursion of the library ends.
func (c *Ctx) checkLoops() {
	w := c.w
	lc := newLoopChecker(w)
	type open struct {
		f    *ssa.Function
		l    *loopInfo
		what string
	}
	var fns []*ssa.Function
	var todo []open
	kinds := map[string]int{}
	decided := func(kind, why, construct string) {
		kinds[why]++
		c.ok(kind, construct+": "+why)
	}
	for _, f := range w.moduleFuncs() {
		if isMainPkg(f) {
			continue
		}
		fns = append(fns, f)
		ls := lc.x.loopsOf(f)
		sort.Slice(ls, func(i, j int) bool { return ls[i].header.Index < ls[j].header.Index })
		for _, l := range ls {
			if why := lc.classify(f, l); why != "" {
				decided("loop", why, shortPkg(f.String())+" "+w.pos(l.pos()))
				continue
			}
			todo = append(todo, open{f, l, ""})
		}
	}
	rec, desc := lc.recursive(fns)
	for _, f := range desc {
		if os.Getenv("VERIF_LOOPS") != "" {
			fmt.Println("descent", f)
		}
		decided("recursion", "descent", shortPkg(f.String()))
	}
	for _, f := range rec {
		if os.Getenv("VERIF_LOOPS") != "" {
			fmt.Println("recursion", f)
		}
		todo = append(todo, open{f, nil, ""})
		lc.rec[f] = true
	}
	// Input is consumed.
	var rest []open
	for _, group := range groupBy(todo, func(o open) string { return fnPkgPath(o.f) }) {
		what := make([]string, len(group))
		for i := range what {
			what[i] = "undecided"
		}
		// With few fields there are less states, with all fields there are less false cycles.
		for _, all := range []bool{false, true} {
			p := newProg(lc)
			p.limit = 80000
			if fields := p.wide(fnPkgPath(group[0].f)); !all {
				if len(fields) == 0 {
					continue
				}
				p.limit = 600000
				if os.Getenv("VERIF_LOOPS") != "" {
					fmt.Println("not followed:", fields)
				}
				for _, f := range fields {
					p.skip[f] = true
				}
			}
			var roots []*ssa.Function
			seen := map[*ssa.Function]bool{}
			for i, o := range group {
				if what[i] == "" {
					continue
				}
				if o.l != nil {
					p.loops[o.l.header] = o.l
				}
				if !seen[o.f] {
					seen[o.f] = true
					roots = append(roots, o.f)
				}
			}
			failed := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						b, ok := e.(budgetError)
						if !ok {
							panic(e)
						}
						failed = ": " + b.msg
					}
				}()
				p.explore(roots)
			}()
			c.addInt("states_explored", p.total+p.nodes)
			for i, o := range group {
				switch {
				case what[i] == "":
				case failed != "":
					if what[i] == "undecided" {
						what[i] += failed
					}
				case o.l == nil:
					if what[i] = p.badRec[o.f]; what[i] == "" {
						what[i] = lc.hidden(o.f, rec)
					}
				default:
					what[i] = p.badAll[o.l.header]
				}
			}
		}
		for i, o := range group {
			kind, at := "loop", ""
			if o.l == nil {
				kind = "recursion"
			} else {
				at = " " + w.pos(o.l.pos())
			}
			if what[i] == "" {
				decided(kind, "consuming", shortPkg(o.f.String())+at)
				continue
			}
			o.what = what[i]
			if os.Getenv("VERIF_LOOPS") != "" {
				fmt.Println(o.f, w.pos(o.f.Pos()), o.what)
			}
			rest = append(rest, o)
		}
	}
	// The remaining ones do what their definitions do.
	if len(rest) > 0 {
		pkgs := map[string]bool{}
		for _, o := range rest {
			pkgs[relPkg(fnPkgPath(o.f))] = true
		}
		equal := c.equalFunctions(pkgs)
		for _, o := range rest {
			f := o.f
			for f.Parent() != nil && !equal[f.String()] {
				f = f.Parent()
			}
			kind, pos := "loop", o.f.Pos()
			if o.l == nil {
				kind = "recursion"
			} else {
				pos = o.l.pos()
			}
			same := equal[f.String()]
			if same {
				// as well as everything that consumes for it
				for _, g := range lc.consumers(f, o.l) {
					if !equal[g.String()] {
						same = false
						o.what += ", which depends on " + shortPkg(g.String())
					}
				}
			}
			if same {
				decided(kind, "definition", shortPkg(o.f.String()))
				continue
			}
			c.bad(kind, shortPkg(o.f.String()), pos, "no argument why it ends: %s, and it differs from its definition", o.what)
		}
	}
	for k, n := range kinds {
		c.addInt("ends_"+k, n)
	}
	c.addInt("functions_analysed", len(fns))
}

func groupBy[T any](list []T, key func(T) string) [][]T {
	m := map[string][]T{}
	for _, o := range list {
		m[key(o)] = append(m[key(o)], o)
	}
	var res [][]T
	for _, k := range sortedKeys(m) {
		res = append(res, m[k])
	}
	return res
}

// consumers lists the functions that a function calls, directly or not, and that may consume input.
// The functions that a loop calls itself are included.
func (lc *loopChecker) consumers(f *ssa.Function, l *loopInfo) []*ssa.Function {
	p := newProg(lc)
	seen := map[*ssa.Function]bool{f: true}
	var res []*ssa.Function
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, e := range lc.edges(g) {
			inLoop := e.site != nil && l != nil && l.blocks[e.site.Block()]
			if e.site == nil || seen[e.fn] || !p.matters(e.fn) && !inLoop {
				continue
			}
			seen[e.fn] = true
			if e.fn.Parent() == nil {
				res = append(res, e.fn)
			}
			visit(e.fn)
		}
	}
	visit(f)
	return res
}

// hidden finds a way of a recursion that is not explored: through an interface, a function value or a printing function.
func (lc *loopChecker) hidden(f *ssa.Function, rec []*ssa.Function) string {
	in := map[*ssa.Function]bool{}
	for _, g := range rec {
		in[g] = true
	}
	for _, e := range lc.edges(f) {
		if !in[e.fn] || lc.descends(f, e) {
			continue
		}
		if e.site == nil || e.site.Common().StaticCallee() != e.fn {
			return "it may call itself through " + shortPkg(e.fn.String())
		}
		if _, ok := e.site.(*ssa.Call); !ok {
			return "it may call itself in a deferred call"
		}
	}
	return ""
}

// equalFunctions lists the functions of some packages that were compared with their definitions, as themselves or as a
// part of a function that calls them, and have no difference.
func (c *Ctx) equalFunctions(pkgs map[string]bool) map[string]bool {
	var ids []string
	for _, id := range sortedKeys(checks) {
		use := false
		for _, s := range checks[id].specs {
			files, _ := filepath.Glob(filepath.Join(c.verif, "specs", s, "*.go"))
			for _, f := range files {
				if data, err := os.ReadFile(f); err == nil {
					first, _, _ := strings.Cut(string(data), "\n")
					use = use || pkgs[strings.TrimSpace(strings.TrimPrefix(first, "//verif:package "))]
				}
			}
		}
		if use {
			ids = append(ids, id)
		}
	}
	res, differ := map[string]bool{}, map[string]bool{}
	for _, rep := range c.partReports("equal", ids) {
		for _, f := range rep.Equal {
			res[f] = true
		}
		for _, f := range rep.Differ {
			differ[f] = true
		}
	}
	for f := range differ {
		delete(res, f)
	}
	c.extra["compared_with_definitions"] = ids
	return res
}

func newProg(lc *loopChecker) *prog {
	return &prog{
		lc: lc, w: lc.w, memo: map[string]*psum{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, counter: map[string]bool{}, matter: map[*ssa.Function]bool{}, locals: map[*ssa.Alloc]bool{}, skip: map[string]bool{}, liveAt: map[liveKey]map[ssa.Value]bool{},
		order: map[*ssa.Function]map[ssa.Value]int{}, open: map[string]bool{}, bad: map[*ssa.BasicBlock]string{},
		badAll: map[*ssa.BasicBlock]string{}, badRec: map[*ssa.Function]string{}, loops: map[*ssa.BasicBlock]*loopInfo{}, seen: map[*ssa.BasicBlock]bool{},
	}
}

func newLoopChecker(w *World) *loopChecker {
	return &loopChecker{w: w, x: newExec(w), callees: map[*ssa.Function][]callEdge{}, rec: map[*ssa.Function]bool{}}
}

func init() {
	register(&Check{
		id:  "C09",
		raw: true,
		rule: "Every loop visits a collection, counts towards a fixed bound, shrinks a text or follows a chain; every recursion gets a part of its argument; " +
			"every other loop or recursion consumes input in every pass and is left at the end of the input (no cycle of the abstract states through it has a weight of 0 or less), or does what its definition does.",
		min: map[string]int{"loop": 60, "recursion": 10},
		run: func(c *Ctx) { c.checkLoops() },
	})
}
