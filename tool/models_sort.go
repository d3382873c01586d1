package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// An order is how a list is sorted: by a function that compares two positions of the list ("less") or two elements ("cmp").

func init() {
	for name, how := range map[string]string{"sort.Slice": "less", "sort.SliceStable": "less", "slices.SortFunc": "cmp", "slices.SortStableFunc": "cmp"} {
		event := "slices.SortFunc"
		if name == "sort.SliceStable" || name == "slices.SortStableFunc" {
			event = "slices.SortStableFunc"
		}
		models[name] = func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			list := a[0]
			if list.op == "iface" {
				list = list.args[0]
			}
			if list.typ == nil || !isFuncTerm(a[1]) {
				return false
			}
			if _, ok := list.typ.Underlying().(*types.Slice); !ok {
				return false
			}
			order := x.ts.mk("order", how, nil, list, a[1])
			x.opaqueCall(fr, st, "call", event, []*Term{list, order}, rt, pos, k)
			return true
		}
	}
	for _, name := range []string{"sort.Strings", "sort.Ints", "slices.Sort"} {
		models[name] = func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			if l := x.seqOf(st, a[0]); l.op == "nil" || l.op == "seq" && len(l.args) <= 1 {
				k(st, "return", nil, pos) // nothing to sort
				return true
			}
			x.opaqueCall(fr, st, "call", "slices.Sort", a, rt, pos, k)
			return true
		}
	}
}

// eqOrder reports whether two orders put every two elements in the same sequence.
func (r *Rel) eqOrder(a, b *Term, pa, pb *Path) bool {
	if a == b && len(a.args[1].args) == 0 {
		return true
	}
	if r.depth > 4 {
		return false
	}
	x := r.x
	// Functions that see nothing but the elements are compared once.
	pure := a.aux == "cmp" && b.aux == "cmp" && len(a.args[1].args) == 0 && len(b.args[1].args) == 0
	key := [2]*ssa.Function{a.args[1].fn, b.args[1].fn}
	if same, ok := x.orders[key]; ok && pure {
		return same
	}
	i, j := x.param("order.i", types.Typ[types.Int]), x.param("order.j", types.Typ[types.Int])
	// The positions are those of different elements of the list.
	less := func(st *State, o *Term, yes, no func(*State)) {
		list, f := o.args[0], o.args[1]
		args := []*Term{i, j}
		if o.aux == "cmp" {
			t := list.typ.Underlying().(*types.Slice).Elem()
			if pure {
				args = []*Term{x.param("order.a", t), x.param("order.b", t)}
			} else {
				args = []*Term{x.load(st, x.idxAddr(list, i, t), t), x.load(st, x.idxAddr(list, j, t), t)}
			}
		}
		for _, p := range x.run(st, f.fn, args, f.args) {
			if p.kind != "return" || len(p.vals) != 1 {
				r.diffs = append(r.diffs, Diff{fn: f.fn.String(), pos: p.pos, what: "a comparison that does not return"})
				continue
			}
			v := p.vals[0]
			if o.aux == "cmp" {
				v = x.ts.bin(token.LSS, v, x.ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int])
			}
			x.fork(p.st, v, yes, no)
		}
	}
	base, sa := pb.st.clone(), pa.st.clone()
	if pure {
		base, sa = x.newState(), x.newState()
	}
	base.nloop, base.occ = 100*(r.depth+1), map[string]int{}
	for _, t := range []*Term{i, j} {
		base.facts.assume(x.ts.bin(token.LSS, t, x.ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int]), false)
	}
	base.facts.assume(x.ts.eq2(i, j), false)
	same := true
	check := func(want bool) func(*State) {
		return func(st *State) {
			r.implPaths++
			sb := base.clone()
			sb.facts = st.facts.clone()
			got := func(v bool) func(*State) {
				return func(st *State) {
					r.pairs++
					if v != want {
						same = false
					}
				}
			}
			less(sb, b, got(true), got(false))
		}
	}
	sa.nloop, sa.occ = base.nloop, map[string]int{}
	sa.facts = base.facts.clone()
	less(sa, a, check(true), check(false))
	if pure {
		if x.orders == nil {
			x.orders = map[[2]*ssa.Function]bool{}
		}
		x.orders[key] = same
	}
	return same
}
