package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
)

// A comparison of a floating point value with a constant: x < k, x <= k, x > k or x >= k.
type floatCmp struct {
	x  *Term
	op token.Token
	k  constant.Value
}

func floatCmpOf(c *Term) (floatCmp, bool) {
	r, ok := floatCmp0(c)
	for ok && r.x.op == "neg" {
		m := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
		r = floatCmp{r.x.args[0], m[r.op], constant.UnaryOp(token.SUB, r.k, 0)}
	}
	return r, ok
}

func floatCmp0(c *Term) (floatCmp, bool) {
	if c.op != "flt" && c.op != "fle" {
		return floatCmp{}, false
	}
	a, b := c.args[0], c.args[1]
	num := func(t *Term) bool {
		return t.op == "const" && (t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float)
	}
	switch {
	case num(b) && !num(a):
		if c.op == "flt" {
			return floatCmp{a, token.LSS, b.cv}, true
		}
		return floatCmp{a, token.LEQ, b.cv}, true
	case num(a) && !num(b):
		if c.op == "flt" {
			return floatCmp{b, token.GTR, a.cv}, true
		}
		return floatCmp{b, token.GEQ, a.cv}, true
	}
	return floatCmp{}, false
}

func (c floatCmp) not() floatCmp {
	m := map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}
	return floatCmp{c.x, m[c.op], c.k}
}

func (c floatCmp) below() bool { return c.op == token.LSS || c.op == token.LEQ }
func (c floatCmp) strictOp() bool {
	return c.op == token.LSS || c.op == token.GTR
}

// implies reports whether every number that satisfies c satisfies d.
func (c floatCmp) implies(d floatCmp) bool {
	if c.below() != d.below() {
		return false
	}
	le := token.LEQ
	if !c.below() {
		le = token.GEQ
	}
	if c.strictOp() || !d.strictOp() {
		return constant.Compare(c.k, le, d.k)
	}
	return constant.Compare(c.k, le, d.k) && !constant.Compare(c.k, token.EQL, d.k)
}

// evalFloat decides a comparison of floating point values with the known comparisons of the same value.
func (f *Facts) evalFloat(c *Term) (val, ok bool) {
	if f.isNaN(c.args[0]) || f.isNaN(c.args[1]) {
		return false, true
	}
	if c.op == "flt" || c.op == "fle" {
		// a < b excludes b <= a
		o := map[string]string{"flt": "fle", "fle": "flt"}[c.op]
		if v, ok := f.known[f.ts.mk(o, "", types.Typ[types.Bool], c.args[1], c.args[0])]; ok {
			if v {
				return false, true
			}
			if f.notNaN(c.args[0]) && f.notNaN(c.args[1]) {
				return true, true
			}
		}
	}
	q, isF := floatCmpOf(c)
	if !isF {
		return false, false
	}
	if x := q.x; x.op == "conv" && len(x.args) == 1 && x.args[0].typ != nil && isInt(x.args[0].typ) {
		// a converted integer
		if l := f.loOf(x.args[0]); l > math.MinInt64 {
			k := floatCmp{x, token.GEQ, constant.MakeInt64(l)}
			if k.implies(q) {
				return true, true
			}
			if k.implies(q.not()) {
				return false, true
			}
		}
		if h := f.hiOf(x.args[0]); h < math.MaxInt64 {
			k := floatCmp{x, token.LEQ, constant.MakeInt64(h)}
			if k.implies(q) {
				return true, true
			}
			if k.implies(q.not()) {
				return false, true
			}
		}
	}
	nn := f.notNaN(q.x)
	for t, v := range f.known {
		k, isF := floatCmpOf(t)
		if !isF || k.x != q.x {
			continue
		}
		if v {
			if k.implies(q) {
				return true, true
			}
			if k.implies(q.not()) {
				return false, true
			}
		} else {
			if k.not().implies(q.not()) {
				return false, true
			}
			if nn && k.not().implies(q) {
				return true, true
			}
		}
	}
	return false, false
}

// isNaN reports whether a floating point value is known not to be a number.
func (f *Facts) isNaN(x *Term) bool {
	for x.op == "neg" {
		x = x.args[0]
	}
	return f.known[f.ts.mk("res", "0", types.Typ[types.Bool], f.ts.mk("call", "math.IsNaN", types.Typ[types.Bool], x))]
}

// notNaN reports whether a floating point value is known to be a number.
func (f *Facts) notNaN(x *Term) bool {
	if x.op == "const" {
		return true
	}
	nan := f.ts.mk("res", "0", types.Typ[types.Bool], f.ts.mk("call", "math.IsNaN", types.Typ[types.Bool], x))
	if v, ok := f.known[nan]; ok {
		return !v
	}
	for t, v := range f.known {
		if v && (t.op == "flt" || t.op == "fle") && (t.args[0] == x || t.args[1] == x) {
			return true
		}
	}
	if x.op == "res" && x.args[0].op == "call" && len(x.args[0].args) == 1 {
		switch x.args[0].aux {
		case "math.Abs", "math.Trunc", "math.Floor", "math.Ceil", "math.Round":
			return f.notNaN(x.args[0].args[0])
		}
	}
	if x.op == "neg" {
		return f.notNaN(x.args[0])
	}
	if x.op == "conv" && len(x.args) == 1 && x.args[0].typ != nil && isInt(x.args[0].typ) {
		return true
	}
	return false
}
