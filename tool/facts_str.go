package main

import "go/types"

// Prefixes and suffixes of texts are related to their bytes and lengths.

func fixCall(t *Term) (name string, s *Term, fix string, ok bool) {
	if t.op != "res" || t.aux != "0" || t.args[0].op != "call" {
		return
	}
	k := t.args[0]
	if k.aux != "strings.HasPrefix" && k.aux != "strings.HasSuffix" {
		return
	}
	fix, ok = k.args[1].strConst()
	return k.aux, k.args[0], fix, ok && fix != ""
}

func (f *Facts) lenT(s *Term) *Term { return f.ts.mk("len", "", types.Typ[types.Int], s) }
func (f *Facts) byteAt(s *Term, i int) *Term {
	return f.ts.mk("elem", "", types.Typ[types.Byte], s, f.ts.intT(int64(i)))
}

// evalFix decides whether a text has a prefix or suffix.
func (f *Facts) evalFix(c *Term) (val, ok bool) {
	name, s, fix, ok := fixCall(c)
	if !ok {
		return false, false
	}
	n := f.lenT(s)
	if f.hiOf(n) < int64(len(fix)) {
		return false, true
	}
	for _, o := range f.fixes[s] {
		if o.name != name {
			continue
		}
		short, long := fix, o.fix
		if len(short) > len(long) {
			short, long = long, short
		}
		agree := long[:len(short)] == short
		if name == "strings.HasSuffix" {
			agree = long[len(long)-len(short):] == short
		}
		switch {
		case o.has && !agree:
			return false, true
		case o.has && len(fix) <= len(o.fix):
			return true, true
		case !o.has && agree && len(o.fix) <= len(fix):
			return false, true
		}
	}
	if name != "strings.HasPrefix" {
		return false, false
	}
	all := f.loOf(n) >= int64(len(fix))
	for i := 0; i < len(fix); i++ {
		e := f.byteAt(s, i)
		b := f.ts.intT(int64(fix[i]))
		if v, ok := f.eqc[e]; ok {
			if v != b {
				if k, isInt := v.intConst(); isInt && k != int64(fix[i]) {
					return false, true
				}
				all = false
			}
			continue
		}
		if f.neq[e][b] {
			return false, true
		}
		all = false
	}
	if all {
		return true, true
	}
	return false, false
}

type fixFact struct {
	name, fix string
	has       bool
}

// assumeFix adds what a prefix or suffix says about the bytes and the length.
func (f *Facts) assumeFix(c *Term, val bool) bool {
	name, s, fix, ok := fixCall(c)
	if !ok {
		return true
	}
	f.fixes[s] = append(f.fixes[s][:len(f.fixes[s]):len(f.fixes[s])], fixFact{name, fix, val})
	if !val {
		if name == "strings.HasPrefix" && len(fix) == 1 {
			f.addNeq(f.byteAt(s, 0), f.ts.intT(int64(fix[0])))
		}
		return true
	}
	n := f.lenT(s)
	if f.loOf(n) < int64(len(fix)) {
		f.lo[n] = int64(len(fix))
	}
	if f.hiOf(n) < f.loOf(n) {
		return false
	}
	if name == "strings.HasPrefix" {
		for i := 0; i < len(fix); i++ {
			if !f.setConst(f.byteAt(s, i), f.ts.intT(int64(fix[i]))) {
				return false
			}
		}
	}
	return true
}
