package main

import (
	"go/types"
	"strings"
	"unicode/utf8"
)

// runeOf returns the rune of a text that consists of one rune.
func runeOf(t *Term) (*Term, bool) {
	if t.op == "conv" && t.aux == "int32" && len(t.args) == 1 && isString(t.typ) {
		return t.args[0], true
	}
	return nil, false
}

// conjuncts splits the comparison of a composed text with a constant into comparisons of its parts.
func (x *Exec) conjuncts(st *State, c *Term) ([]*Term, bool) {
	if c.op != "eq" {
		return nil, false
	}
	a, b := st.facts.simp(c.args[0]), st.facts.simp(c.args[1])
	if s, ok := a.strConst(); ok {
		if t, ok := b.strConst(); ok {
			return []*Term{x.ts.boolT(s == t)}, true
		}
		a, b = b, a
	}
	want, ok := b.strConst()
	if !ok || a.typ == nil || !isString(a.typ) {
		return nil, false
	}
	parts := []*Term{a}
	if a.op == "concat" {
		parts = a.args
	} else if _, one := runeOf(a); !one {
		return nil, false
	}
	no := []*Term{x.ts.boolT(false)}
	var conds []*Term
	take := func(p *Term, front bool) bool {
		if s, ok := p.strConst(); ok {
			if front && strings.HasPrefix(want, s) {
				want = want[len(s):]
				return true
			}
			if !front && strings.HasSuffix(want, s) {
				want = want[:len(want)-len(s)]
				return true
			}
			want = "\xff"
			return true
		}
		if r, ok := runeOf(p); ok {
			v, n := utf8.DecodeRuneInString(want)
			if !front {
				v, n = utf8.DecodeLastRuneInString(want)
			}
			if n == 0 {
				want = "\xff"
				return true
			}
			if v == utf8.RuneError {
				return false
			}
			conds = append(conds, x.ts.eq2(r, x.ts.konst(x.ts.intT(int64(v)).cv, r.typ)))
			if front {
				want = want[n:]
			} else {
				want = want[:len(want)-n]
			}
			return true
		}
		return false
	}
	for len(parts) > 0 && want != "\xff" && take(parts[0], true) {
		parts = parts[1:]
	}
	for len(parts) > 0 && want != "\xff" && take(parts[len(parts)-1], false) {
		parts = parts[:len(parts)-1]
	}
	if want == "\xff" || len(parts) == 0 && want != "" {
		return no, true
	}
	if len(parts) == len(a.args) && a.op == "concat" {
		return nil, false
	}
	if len(parts) > 0 {
		rest := x.ts.strT("")
		for _, p := range parts {
			rest = x.ts.concat(rest, p)
		}
		conds = append(conds, x.ts.eq2(rest, x.ts.strT(want)))
	}
	if len(conds) == 0 {
		conds = []*Term{x.ts.boolT(true)}
	}
	return conds, true
}

// cases explores both outcomes of a condition.
func (x *Exec) cases(st *State, c *Term, yes, no func(*State)) {
	if c.op == "not" {
		x.cases(st, c.args[0], no, yes)
		return
	}
	if v, ok := st.facts.eval(c); ok {
		if v {
			yes(st)
		} else {
			no(st)
		}
		return
	}
	if conds, ok := x.conjuncts(st, c); ok {
		var step func(i int, st *State)
		step = func(i int, st *State) {
			if i == len(conds) {
				yes(st)
				return
			}
			x.cases(st, conds[i], func(st *State) { step(i+1, st) }, no)
		}
		step(0, st)
		return
	}
	st2 := st.clone()
	if st.facts.assume(c, true) {
		yes(st)
	}
	if st2.facts.assume(c, false) {
		no(st2)
	}
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}
