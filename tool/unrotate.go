package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// unrotate turns loops of the form "x := f(); for cond(x) { ...; x = f() }" into "for { x := f(); if !cond(x) {break}; ... }":
// the common call at the end of all predecessors of the loop header is moved into the header.
func (w *World) unrotate(f *ssa.Function) {
	for _, b := range append([]*ssa.BasicBlock(nil), f.Blocks...) {
		if len(b.Succs) == 2 && b.Succs[0].Comment == "rangeint.body" && b.Succs[0].Dominates(b) {
			w.unrotateRange(f, b)
		}
	}
	for _, h := range append([]*ssa.BasicBlock(nil), f.Blocks...) {
		back := false
		for _, p := range h.Preds {
			if h.Dominates(p) {
				back = true
			}
		}
		if back && len(h.Preds) >= 2 {
			w.unrotateAt(f, h)
		}
	}
}

// tailOf returns the instructions from the last call of a block to its end.
func tailOf(p *ssa.BasicBlock) []ssa.Instruction {
	n := len(p.Instrs)
	if n == 0 {
		return nil
	}
	if _, ok := p.Instrs[n-1].(*ssa.Jump); !ok {
		return nil
	}
	for i := n - 2; i >= 0; i-- {
		switch c := p.Instrs[i].(type) {
		case *ssa.Extract, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if _, ok := c.Call.Value.(*ssa.Builtin); ok {
				return nil
			}
			// loads of the arguments belong to the call
			start := i
			need := map[ssa.Value]bool{}
			for _, a := range c.Operands(nil) {
				need[*a] = true
			}
			for j := i - 1; j >= 0; j-- {
				v, ok := p.Instrs[j].(ssa.Value)
				if !ok || !need[v] {
					break
				}
				switch p.Instrs[j].(type) {
				case *ssa.FieldAddr, *ssa.UnOp:
				default:
					return nil
				}
				for _, a := range p.Instrs[j].Operands(nil) {
					need[*a] = true
				}
				start = j
			}
			var t []ssa.Instruction
			for _, in := range p.Instrs[start : n-1] {
				if _, dbg := in.(*ssa.DebugRef); !dbg {
					t = append(t, in)
				}
			}
			return t
		default:
			return nil
		}
	}
	return nil
}

func (w *World) unrotateAt(f *ssa.Function, h *ssa.BasicBlock) {
	first := tailOf(h.Preds[0])
	if first == nil {
		return
	}
	inTail := map[ssa.Instruction]bool{}
	tails := make([][]ssa.Instruction, len(h.Preds))
	for i, p := range h.Preds {
		if len(p.Succs) != 1 {
			return
		}
		t := tailOf(p)
		if len(t) != len(first) {
			return
		}
		same := map[ssa.Value]ssa.Value{}
		for j := range t {
			if !sameInstr(first[j], t[j], same) {
				return
			}
			if v, ok := t[j].(ssa.Value); ok {
				same[first[j].(ssa.Value)] = v
			}
			inTail[t[j]] = true
		}
		tails[i] = t
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	// The results are only used by the header.
	repl := map[*ssa.Phi]int{}
	for _, t := range tails {
		for _, in := range t {
			v, ok := in.(ssa.Value)
			if !ok {
				return
			}
			for _, r := range *v.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); dbg || inTail[r] {
					continue
				}
				phi, ok := r.(*ssa.Phi)
				if !ok || phi.Block() != h {
					return
				}
				pos := -1
				for k := range phi.Edges {
					q := -1
					for j := range tails[k] {
						if ssa.Value(phi.Edges[k]) == tails[k][j].(ssa.Value) {
							q = j
						}
					}
					if q < 0 || pos >= 0 && pos != q {
						return
					}
					pos = q
				}
				repl[phi] = pos
			}
		}
	}
	if len(repl) == 0 {
		return
	}
	// The operands of the tail must have the same value in the header: they are the same values in all predecessors
	// and dominate it.
	last := tails[0]
	h2 := new(ssa.BasicBlock)
	*h2 = *h
	h2.Instrs = nil
	var kept []ssa.Instruction
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if _, moved := repl[phi]; moved {
				continue
			}
			kept = append(kept, in)
			continue
		}
		h2.Instrs = append(h2.Instrs, in)
	}
	kept = append(kept, last...)
	jump := h.Preds[0].Instrs[len(h.Preds[0].Instrs)-1]
	kept = append(kept, jump)
	h.Instrs = kept
	h2.Preds = []*ssa.BasicBlock{h}
	h2.Succs = append([]*ssa.BasicBlock(nil), h.Succs...)
	for _, s := range h2.Succs {
		for i, p := range s.Preds {
			if p == h {
				s.Preds[i] = h2
			}
		}
	}
	h.Succs = []*ssa.BasicBlock{h2}
	if w.synth == nil {
		w.synth = map[*ssa.BasicBlock]bool{}
	}
	w.synth[h2] = true
	for _, p := range h2.Succs {
		_ = p
	}
	for i, p := range h.Preds {
		if p == h {
			h.Preds[i] = h2
		}
	}
	for _, p := range h.Preds {
		var rest []ssa.Instruction
		for _, in := range p.Instrs {
			if !inTail[in] || p == h {
				rest = append(rest, in)
			}
		}
		p.Instrs = rest
	}
	for phi, j := range repl {
		v := last[j].(ssa.Value)
		for _, r := range append([]ssa.Instruction(nil), *phi.Referrers()...) {
			for _, op := range r.Operands(nil) {
				if *op == ssa.Value(phi) {
					*op = v
				}
			}
			*v.Referrers() = append(*v.Referrers(), r)
		}
	}
	f.Blocks = append(f.Blocks, h2)
}

func sameInstr(a, b ssa.Instruction, same map[ssa.Value]ssa.Value) bool {
	eq := func(x, y ssa.Value) bool {
		if x == nil || y == nil {
			return x == y
		}
		if s, ok := same[x]; ok {
			return s == y
		}
		if cx, ok := x.(*ssa.Const); ok {
			cy, ok := y.(*ssa.Const)
			return ok && cx.String() == cy.String()
		}
		return x == y
	}
	oa, ob := a.Operands(nil), b.Operands(nil)
	if len(oa) != len(ob) {
		return false
	}
	for i := range oa {
		if !eq(*oa[i], *ob[i]) {
			return false
		}
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		return ok && x.Call.Method == y.Call.Method
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.CommaOk == y.CommaOk
	}
	return false
}

// unrotateRange turns "if 0 < n { i := 0; do { ... } while (++i < n) }", the form of a range over an integer,
// into "for i := 0; i < n; i++ { ... }". l is the block of the second condition.
func (w *World) unrotateRange(f *ssa.Function, l *ssa.BasicBlock) {
	n := len(l.Instrs)
	if n < 3 {
		return
	}
	iff, ok := l.Instrs[n-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp != l.Instrs[n-2] || cmp.Op != token.LSS {
		return
	}
	h, done := l.Succs[0], l.Succs[1]
	if len(h.Preds) != 2 || h == done {
		return
	}
	li := 0
	if h.Preds[1] == l {
		li = 1
	}
	p := h.Preds[1-li]
	m := len(p.Instrs)
	if p == l || m < 1 {
		return
	}
	iff0, ok := p.Instrs[m-1].(*ssa.If)
	if !ok || p.Succs[0] != h || p.Succs[1] != done {
		return
	}
	cmp0, ok := iff0.Cond.(*ssa.BinOp)
	if !ok || cmp0.Op != token.LSS || cmp0.Y != cmp.Y {
		if !ok || cmp0.Op != token.LSS || !sameConst(cmp0.Y, cmp.Y) {
			return
		}
	}
	var iter *ssa.Phi
	nphi := 0
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nphi++
		if phi.Edges[li] == cmp.X && sameConst(phi.Edges[1-li], cmp0.X) {
			iter = phi
		}
	}
	if iter == nil {
		return
	}
	// the values that leave the loop
	di, dl := -1, -1
	for i, q := range done.Preds {
		switch q {
		case p:
			di = i
		case l:
			dl = i
		}
	}
	if di < 0 || dl < 0 {
		return
	}
	var phis []ssa.Instruction
	phis = append(phis, h.Instrs[:nphi]...)
	for _, in := range done.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := phi.Edges[di]
		if vl := phi.Edges[dl]; vl != v {
			q := *phi
			q.Edges = make([]ssa.Value, 2)
			q.Edges[1-li], q.Edges[li] = v, vl
			phis = append(phis, &q)
			v = &q
		}
		edges := append([]ssa.Value(nil), phi.Edges...)
		edges[di] = v
		phi.Edges = append(edges[:dl:dl], edges[dl+1:]...)
	}
	done.Preds[di] = h
	done.Preds = append(done.Preds[:dl:dl], done.Preds[dl+1:]...)
	l.Instrs = append(l.Instrs[:n-2:n-2], new(ssa.Jump))
	l.Succs = []*ssa.BasicBlock{h}
	h2 := new(ssa.BasicBlock)
	*h2 = *h
	h2.Instrs = append([]ssa.Instruction(nil), h.Instrs[nphi:]...)
	h2.Preds = []*ssa.BasicBlock{h}
	h2.Succs = append([]*ssa.BasicBlock(nil), h.Succs...)
	for _, s := range h2.Succs {
		for i, q := range s.Preds {
			if q == h {
				s.Preds[i] = h2
			}
		}
	}
	cmp.X = iter
	h.Instrs = append(phis, cmp, iff)
	h.Succs = []*ssa.BasicBlock{h2, done}
	p.Instrs = append(p.Instrs[:m-1:m-1], new(ssa.Jump))
	p.Succs = []*ssa.BasicBlock{h}
	if w.synth == nil {
		w.synth = map[*ssa.BasicBlock]bool{}
	}
	w.synth[h2] = true
	f.Blocks = append(f.Blocks, h2)
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && x.String() == y.String()
}
