package main

// Conditions about one number of a small range (a month, an hour, a day …) are decided for each of its values.

const smallRange = 400

// smallLeaf returns the only number a compound arithmetic term depends on.
func (f *Facts) smallLeaf(t *Term) *Term {
	if t.op != "lin" && t.op != "bin%" && t.op != "bin/" {
		return nil
	}
	var leaf *Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch t.op {
		case "const":
			_, ok := t.intConst()
			return ok
		case "lin", "bin%", "bin/":
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if leaf != nil && leaf != t {
			return false
		}
		leaf = t
		return true
	}
	if !walk(t) || leaf == nil {
		return nil
	}
	lo, hi := f.loOf(leaf), f.hiOf(leaf)
	if lo < -1<<40 || hi > 1<<40 || hi-lo >= smallRange {
		return nil
	}
	return leaf
}

func evalSmallInt(t, leaf *Term, v int64) (int64, bool) {
	if t == leaf {
		return v, true
	}
	if k, ok := t.intConst(); ok {
		return k, true
	}
	switch t.op {
	case "lin":
		s := t.k
		for i, a := range t.args {
			x, ok := evalSmallInt(a, leaf, v)
			if !ok {
				return 0, false
			}
			s += t.coef[i] * x
		}
		return s, true
	case "bin%", "bin/":
		a, ok := evalSmallInt(t.args[0], leaf, v)
		b, ok2 := evalSmallInt(t.args[1], leaf, v)
		if !ok || !ok2 || b == 0 {
			return 0, false
		}
		if t.op == "bin%" {
			return a % b, true
		}
		return a / b, true
	}
	return 0, false
}

// smallCases calls fn with the possible values of the number in a condition and what the condition is for them.
func (f *Facts) smallCases(c *Term, fn func(leaf *Term, v int64, holds bool)) bool {
	if c.op != "eq" && c.op != "lt" {
		return false
	}
	k, ok := c.args[1].intConst()
	if !ok {
		return false
	}
	leaf := f.smallLeaf(c.args[0])
	if leaf == nil {
		return false
	}
	only, isOnly := int64(0), false
	if e, ok := f.eqc[leaf]; ok {
		only, isOnly = e.intConst()
	}
	for v := f.loOf(leaf); v <= f.hiOf(leaf); v++ {
		if isOnly && v != only || f.neq[leaf][f.ts.intT(v)] {
			continue
		}
		x, ok := evalSmallInt(c.args[0], leaf, v)
		if !ok {
			return false
		}
		fn(leaf, v, c.op == "eq" && x == k || c.op == "lt" && x < k)
	}
	return true
}

func (f *Facts) evalSmall(c *Term) (val, ok bool) {
	yes, no := 0, 0
	if !f.smallCases(c, func(_ *Term, _ int64, holds bool) {
		if holds {
			yes++
		} else {
			no++
		}
	}) || yes > 0 && no > 0 {
		return false, false
	}
	return yes > 0, true
}

// assumeSmall excludes the values for which a condition is different.
func (f *Facts) assumeSmall(c *Term, val bool) bool {
	var leaf *Term
	var drop []int64
	left, last := 0, int64(0)
	if !f.smallCases(c, func(l *Term, v int64, holds bool) {
		if leaf = l; holds != val {
			drop = append(drop, v)
		} else {
			left, last = left+1, v
		}
	}) || leaf == nil {
		return true
	}
	for _, v := range drop {
		f.addNeq(leaf, f.ts.intT(v))
	}
	if left == 1 {
		return f.setConst(leaf, f.ts.intT(last))
	}
	return left > 0
}
