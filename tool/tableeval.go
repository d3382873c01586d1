package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"math"
)

// This file decides equality of guard tables: the conditions and results of the paths of a function
// over one number (or the operands of a number) are compared with a specification over a finite
// partition of all inputs into classes on which every condition of both sides is constant.

// penv assigns values to the inputs.
type penv struct {
	i    [8]int64 // 0: n or I, 1: V, 2: W, 3: F, 4: T, 5: C
	nf   float64  // N
	more []int64
}

type intFn func(e *penv) int64
type fltFn func(e *penv) float64
type boolFn func(e *penv) bool

// leafs tells which input a term stands for: index in penv.i, or -1 for N, or -2 for none.
type leafMap func(t *Term) (int, bool)

type tableCompiler struct {
	leaf leafMap
	memo map[*Term]any
	fail string
}

func (c *tableCompiler) bad(t *Term) {
	if c.fail == "" {
		c.fail = "a condition is not understood: " + t.String()
	}
}

func constF(t *Term) (float64, bool) {
	if t.op != "const" || (t.cv.Kind() != constant.Int && t.cv.Kind() != constant.Float) {
		return 0, false
	}
	v, _ := constant.Float64Val(constant.ToFloat(t.cv))
	return v, true
}

func (c *tableCompiler) isFlt(t *Term) bool {
	if t.op == "const" {
		return t.cv.Kind() == constant.Float
	}
	if l, ok := c.leaf(t); ok {
		return l == -1
	}
	return t.typ != nil && isFloat(t.typ)
}

func (c *tableCompiler) intOf(t *Term) intFn {
	if v, ok := t.intConst(); ok {
		return func(*penv) int64 { return v }
	}
	if l, ok := c.leaf(t); ok && l >= 0 {
		return func(e *penv) int64 { return e.i[l] }
	}
	switch t.op {
	case "lin":
		var fs []intFn
		for _, a := range t.args {
			fs = append(fs, c.intOf(a))
		}
		k, coef := t.k, t.coef
		return func(e *penv) int64 {
			r := k
			for i, f := range fs {
				r += coef[i] * f(e)
			}
			return r
		}
	case "bin%", "bin/", "bin*":
		a, b := c.intOf(t.args[0]), c.intOf(t.args[1])
		switch t.op {
		case "bin%":
			return func(e *penv) int64 {
				if d := b(e); d != 0 {
					return a(e) % d
				}
				return 0
			}
		case "bin/":
			return func(e *penv) int64 {
				if d := b(e); d != 0 {
					return a(e) / d
				}
				return 0
			}
		}
		return func(e *penv) int64 { return a(e) * b(e) }
	case "conv":
		if c.isFlt(t.args[0]) {
			f := c.fltOf(t.args[0])
			return func(e *penv) int64 { return int64(f(e)) }
		}
		if b, ok := basicOf(t.typ); ok {
			if n, _ := bits(b); n == 64 || n == 32 {
				return c.intOf(t.args[0])
			}
		}
	}
	c.bad(t)
	return func(*penv) int64 { return 0 }
}

func (c *tableCompiler) fltOf(t *Term) fltFn {
	if v, ok := constF(t); ok {
		return func(*penv) float64 { return v }
	}
	if l, ok := c.leaf(t); ok {
		if l == -1 {
			return func(e *penv) float64 { return e.nf }
		}
		return func(e *penv) float64 { return float64(e.i[l]) }
	}
	switch t.op {
	case "conv":
		if !c.isFlt(t.args[0]) {
			f := c.intOf(t.args[0])
			return func(e *penv) float64 { return float64(f(e)) }
		}
		return c.fltOf(t.args[0])
	case "bin+", "bin-", "bin*", "bin/":
		a, b := c.fltOf(t.args[0]), c.fltOf(t.args[1])
		switch t.op {
		case "bin+":
			return func(e *penv) float64 { return a(e) + b(e) }
		case "bin-":
			return func(e *penv) float64 { return a(e) - b(e) }
		case "bin*":
			return func(e *penv) float64 { return a(e) * b(e) }
		}
		return func(e *penv) float64 { return a(e) / b(e) }
	case "neg":
		a := c.fltOf(t.args[0])
		return func(e *penv) float64 { return -a(e) }
	case "res":
		call := t.args[0]
		one := map[string]func(float64) float64{"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.Trunc": math.Trunc, "math.RoundToEven": math.RoundToEven}
		if f, ok := one[call.aux]; ok {
			a := c.fltOf(call.args[0])
			return func(e *penv) float64 { return f(a(e)) }
		}
		if call.aux == "math.Mod" {
			a, b := c.fltOf(call.args[0]), c.fltOf(call.args[1])
			return func(e *penv) float64 {
				x, m := a(e), b(e)
				if m >= 1 && m < 1<<40 && m == float64(int64(m)) && x > -(1<<52) && x < 1<<52 {
					i := int64(x)
					return float64(i%int64(m)) + (x - float64(i)) // exact
				}
				return math.Mod(x, m)
			}
		}
	}
	c.bad(t)
	return func(*penv) float64 { return 0 }
}

func (c *tableCompiler) boolOf(t *Term) boolFn {
	if v, ok := t.isBoolConst(); ok {
		return func(*penv) bool { return v }
	}
	switch t.op {
	case "not":
		f := c.boolOf(t.args[0])
		return func(e *penv) bool { return !f(e) }
	case "eq":
		if isBool(t.args[0].typ0()) {
			a, b := c.boolOf(t.args[0]), c.boolOf(t.args[1])
			return func(e *penv) bool { return a(e) == b(e) }
		}
		if c.isFlt(t.args[0]) || c.isFlt(t.args[1]) {
			a, b := c.fltOf(t.args[0]), c.fltOf(t.args[1])
			return func(e *penv) bool { return a(e) == b(e) }
		}
		a, b := c.intOf(t.args[0]), c.intOf(t.args[1])
		return func(e *penv) bool { return a(e) == b(e) }
	case "lt":
		a, b := c.intOf(t.args[0]), c.intOf(t.args[1])
		return func(e *penv) bool { return a(e) < b(e) }
	case "flt":
		a, b := c.fltOf(t.args[0]), c.fltOf(t.args[1])
		return func(e *penv) bool { return a(e) < b(e) }
	case "fle":
		a, b := c.fltOf(t.args[0]), c.fltOf(t.args[1])
		return func(e *penv) bool { return a(e) <= b(e) }
	}
	c.bad(t)
	return func(*penv) bool { return false }
}

// ---- shapes: how long until a condition becomes periodic, and its period ----

type shape struct {
	leaf   int   // input, -2: constant
	mono   bool  // grows with the input
	scale  int64 // the value is about input/scale
	off    int64
	period int64 // > 0: periodic
	start  int64 // periodic from here on
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

func lcm(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 1
	}
	return a / gcd(a, b) * b
}

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// numShape describes a numeric term.
func (c *tableCompiler) numShape(t *Term) (shape, bool) {
	if f, ok := constF(t); ok {
		return shape{leaf: -2, off: int64(math.Ceil(math.Abs(f)))}, true
	}
	if l, ok := c.leaf(t); ok {
		return shape{leaf: l, mono: true, scale: 1}, true
	}
	switch t.op {
	case "lin":
		r := shape{leaf: -2, period: 1}
		for i, a := range t.args {
			s, ok := c.numShape(a)
			if !ok {
				return s, false
			}
			if s.mono {
				if len(t.args) != 1 {
					return s, false
				}
				s.off = s.off*absI(t.coef[i]) + absI(t.k)
				return s, true
			}
			if s.leaf == -2 {
				continue
			}
			if r.leaf != -2 && r.leaf != s.leaf {
				return s, false
			}
			r.leaf = s.leaf
			r.period = lcm(r.period, s.period)
			r.start = max(r.start, s.start)
		}
		return r, true
	case "bin%":
		return c.modShape(t, t.args[0], t.args[1])
	case "bin/":
		m, ok := constF(t.args[1])
		s, ok2 := c.numShape(t.args[0])
		if !ok || !ok2 || m < 1 {
			return s, false
		}
		if s.mono {
			s.scale *= int64(m)
		}
		return s, true
	case "conv", "neg":
		return c.numShape(t.args[0])
	case "bin-", "bin+":
		s, ok := c.numShape(t.args[0])
		s2, ok2 := c.numShape(t.args[1])
		if !ok || !ok2 {
			return s, false
		}
		if s2.leaf == -2 {
			s.off += s2.off
			return s, true
		}
		if s.leaf == -2 {
			s2.off += s.off
			return s2, true
		}
		// x - round(x): periodic with period 1 if both come from the same input
		if s.leaf == s2.leaf && s.mono && s2.mono && s.scale == 1 && s2.scale == 1 && t.op == "bin-" {
			return shape{leaf: s.leaf, period: 1}, true
		}
		if s.leaf == s2.leaf && !s.mono && !s2.mono {
			return shape{leaf: s.leaf, period: lcm(s.period, s2.period), start: max(s.start, s2.start)}, true
		}
		return s, false
	case "res":
		call := t.args[0]
		switch call.aux {
		case "math.Abs", "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.RoundToEven":
			s, ok := c.numShape(call.args[0])
			s.off++
			return s, ok
		case "math.Mod":
			return c.modShape(t, call.args[0], call.args[1])
		}
	}
	return shape{}, false
}

func (c *tableCompiler) modShape(t, a, b *Term) (shape, bool) {
	m, ok := constF(b)
	s, ok2 := c.numShape(a)
	if !ok || !ok2 || m < 1 || m != math.Trunc(m) {
		return s, false
	}
	if s.mono {
		// (n/s + off) % m
		return shape{leaf: s.leaf, period: s.scale * int64(m), start: (s.off + 1) * s.scale}, true
	}
	return s, true
}

// condShape returns the input, the start of the periodic part and the period of a condition.
func (c *tableCompiler) condShape(t *Term) (leaf int, start, period int64, ok bool) {
	switch t.op {
	case "not":
		return c.condShape(t.args[0])
	case "eq", "lt", "flt", "fle":
		a, ok1 := c.numShape(t.args[0])
		b, ok2 := c.numShape(t.args[1])
		if !ok1 || !ok2 {
			return 0, 0, 0, false
		}
		if a.leaf == -2 {
			a, b = b, a
		}
		if a.leaf == -2 {
			return -2, 0, 1, true
		}
		if b.leaf == -2 {
			if a.mono {
				return a.leaf, (absI(b.off) + absI(a.off) + 2) * a.scale, 1, true
			}
			return a.leaf, a.start, a.period, true
		}
		if a.leaf != b.leaf {
			return 0, 0, 0, false
		}
		if a.mono && b.mono {
			// x compared with round(x): depends on the fraction only
			if a.scale == 1 && b.scale == 1 {
				return a.leaf, a.off + b.off + 1, 1, true
			}
			return 0, 0, 0, false
		}
		if a.mono != b.mono {
			return 0, 0, 0, false
		}
		return a.leaf, max(a.start, b.start), lcm(a.period, b.period), true
	}
	return 0, 0, 0, false
}

// ---- decision trees ----

type dtree struct {
	cond    *Term
	fn      boolFn
	yes, no *dtree
	leafV   int64
	isLeaf  bool
	pos     token.Pos
}

// buildTree arranges the paths of a function as a decision tree.
func (c *tableCompiler) buildTree(paths []*Path, value func(p *Path) (int64, bool)) (*dtree, error) {
	var root *dtree
	for _, p := range paths {
		if p.kind != "return" {
			return nil, fmt.Errorf("a path ends with %s", p.kind)
		}
		v, ok := value(p)
		if !ok {
			return nil, fmt.Errorf("a path returns %v", p.vals[0])
		}
		cur := &root
		for _, cnd := range p.st.facts.order {
			val := true
			for cnd.op == "not" {
				cnd = cnd.args[0]
				val = !val
			}
			if *cur == nil {
				*cur = &dtree{cond: cnd, fn: c.boolOf(cnd)}
			}
			if (*cur).isLeaf || (*cur).cond != cnd {
				return nil, fmt.Errorf("the paths are not deterministic")
			}
			if val {
				cur = &(*cur).yes
			} else {
				cur = &(*cur).no
			}
		}
		if *cur != nil {
			return nil, fmt.Errorf("the paths are not deterministic")
		}
		*cur = &dtree{isLeaf: true, leafV: v, pos: p.pos}
	}
	if c.fail != "" {
		return nil, fmt.Errorf("%s", c.fail)
	}
	if root == nil {
		return nil, fmt.Errorf("no path returns")
	}
	return root, nil
}

func (d *dtree) eval(e *penv) (*dtree, bool) {
	for d != nil && !d.isLeaf {
		if d.fn(e) {
			d = d.yes
		} else {
			d = d.no
		}
	}
	return d, d != nil
}

func (d *dtree) conds(m map[*Term]bool) {
	if d == nil || d.isLeaf {
		return
	}
	m[d.cond] = true
	d.yes.conds(m)
	d.no.conds(m)
}
