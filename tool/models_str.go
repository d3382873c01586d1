package main

import (
	"go/token"
	"go/types"
	"strings"
)

var indexFuncs = map[string]bool{"strings.Index": true, "strings.LastIndex": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.IndexAny": true, "strings.IndexFunc": true}

// isIndexCall reports whether a term is a position or -1.
func isIndexCall(t *Term) bool {
	return t.op == "res" && t.aux == "0" && t.args[0].op == "call" && indexFuncs[t.args[0].aux]
}

func (x *Exec) callT(name string, t types.Type, args ...*Term) *Term {
	return x.ts.mk("res", "0", t, x.ts.mk("call", name, t, args...))
}

// index is the position of a text within another one.
func (x *Exec) index(s, sep *Term) *Term {
	if a, ok := s.strConst(); ok {
		if b, ok := sep.strConst(); ok {
			return x.ts.intT(int64(strings.Index(a, b)))
		}
	}
	return x.callT("strings.Index", types.Typ[types.Int], s, sep)
}

// indexIn finds a character in a short constant text: every character of the text is a case.
func (x *Exec) indexIn(st *State, s, c *Term, k func(st *State, i int)) bool {
	v, ok := s.strConst()
	if !ok || len(v) > 16 || c.typ == nil || !isInt(c.typ) {
		return false
	}
	for i := 0; i < len(v); i++ {
		if v[i] >= 0x80 {
			return false
		}
	}
	var step func(st *State, i int)
	step = func(st *State, i int) {
		if i == len(v) {
			k(st, -1)
			return
		}
		x.fork(st, x.ts.eq2(c, x.ts.intT(int64(v[i]))), func(st *State) { k(st, i) }, func(st *State) { step(st, i+1) })
	}
	step(st, 0)
	return true
}

func (x *Exec) strLen(s *Term) *Term {
	if v, ok := s.strConst(); ok {
		return x.ts.intT(int64(len(v)))
	}
	return x.ts.mk("len", "", types.Typ[types.Int], s)
}

func (x *Exec) hasFix(name string, s, fix *Term) *Term {
	if a, ok := s.strConst(); ok {
		if b, ok := fix.strConst(); ok {
			if name == "strings.HasPrefix" {
				return x.ts.boolT(strings.HasPrefix(a, b))
			}
			return x.ts.boolT(strings.HasSuffix(a, b))
		}
	}
	return x.callT(name, types.Typ[types.Bool], s, fix)
}

// Functions that find or cut texts are reduced to strings.Index, HasPrefix, HasSuffix and slicing.
func init() {
	reg := func(name string, f modelFn) { models[name] = f }
	str := types.Typ[types.String]
	lt0 := func(x *Exec, i *Term) *Term {
		return x.ts.bin(token.LSS, i, x.ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int])
	}
	undef := func(x *Exec) *Term { return x.ts.mk("undefhi", "", nil) }
	byteText := func(x *Exec, t *Term, r bool) (*Term, bool) {
		v, ok := t.intConst()
		if !ok || v < 0 || v > 0x10ffff || !r && v >= 0x80 || v == 0xfffd || v >= 0xd800 && v < 0xe000 {
			return nil, false
		}
		return x.ts.strT(string(rune(v))), true
	}
	reg("strings.Index", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		return x.ret(st, k, pos, x.index(x.freeze(st, a[0]), x.freeze(st, a[1])))
	})
	for _, n := range []string{"strings.IndexByte", "strings.IndexRune"} {
		reg(n, func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			b, ok := byteText(x, a[1], n == "strings.IndexRune")
			if !ok {
				return x.indexIn(st, x.freeze(st, a[0]), a[1], func(st *State, i int) { x.ret(st, k, pos, x.ts.intT(int64(i))) })
			}
			return x.ret(st, k, pos, x.index(x.freeze(st, a[0]), b))
		})
	}
	reg("strings.LastIndexByte", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		b, ok := byteText(x, a[1], false)
		if !ok {
			return false
		}
		return x.ret(st, k, pos, x.callT("strings.LastIndex", types.Typ[types.Int], x.freeze(st, a[0]), b))
	})
	reg("strings.Contains", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		if c := a[1]; c.op == "conv" && len(c.args) == 1 && c.args[0].typ != nil && isInt(c.args[0].typ) {
			if x.indexIn(st, x.freeze(st, a[0]), c.args[0], func(st *State, i int) { x.ret(st, k, pos, x.ts.boolT(i >= 0)) }) {
				return true
			}
		}
		return x.ret(st, k, pos, x.ts.not(lt0(x, x.index(x.freeze(st, a[0]), x.freeze(st, a[1])))))
	})
	reg("strings.ContainsRune", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		b, ok := byteText(x, a[1], true)
		if !ok {
			return x.indexIn(st, x.freeze(st, a[0]), a[1], func(st *State, i int) { x.ret(st, k, pos, x.ts.boolT(i >= 0)) })
		}
		return x.ret(st, k, pos, x.ts.not(lt0(x, x.index(x.freeze(st, a[0]), b))))
	})
	// cut calls found with the texts before and after a separator.
	cut := func(x *Exec, st *State, s, sep *Term, found func(st *State, before, after *Term), not func(*State)) {
		i := x.index(s, sep)
		x.fork(st, lt0(x, i), not, func(st *State) {
			end := x.ts.bin(token.ADD, i, x.strLen(sep), types.Typ[types.Int], types.Typ[types.Int])
			found(st, x.sliceT(st, s, x.ts.intT(0), i, str), x.sliceT(st, s, end, undef(x), str))
		})
	}
	reg("strings.Cut", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s, sep := x.freeze(st, a[0]), x.freeze(st, a[1])
		cut(x, st, s, sep, func(st *State, b, c *Term) {
			k(st, "return", []*Term{b, c, x.ts.boolT(true)}, pos)
		}, func(st *State) {
			k(st, "return", []*Term{s, x.ts.strT(""), x.ts.boolT(false)}, pos)
		})
		return true
	})
	for _, n := range []string{"strings.TrimRight", "strings.TrimLeft", "strings.Trim"} {
		reg(n, func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			if s, ok := x.freeze(st, a[0]).strConst(); ok && s == "" {
				return x.ret(st, k, pos, x.ts.strT(""))
			}
			return false
		})
	}
	reg("strings.Split", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s, sep := x.freeze(st, a[0]), x.freeze(st, a[1])
		if c, ok := sep.strConst(); !x.splitCases || !ok || c == "" {
			return false
		}
		t := types.NewSlice(str)
		cut(x, st, s, sep, func(st *State, b, c *Term) {
			cut(x, st, c, sep, func(st *State, _, _ *Term) {
				l := x.callT("strings.Split", t, s, sep)
				if st.facts.assume(x.ts.bin(token.LSS, x.lenOf(st, l), x.ts.intT(3), types.Typ[types.Bool], types.Typ[types.Int]), false) {
					k(st, "return", []*Term{l}, pos)
				}
			}, func(st *State) {
				k(st, "return", []*Term{x.ts.mk("seq", "", t, b, c)}, pos)
			})
		}, func(st *State) {
			k(st, "return", []*Term{x.ts.mk("seq", "", t, s)}, pos)
		})
		return true
	})
	reg("strings.SplitN", func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s, sep := x.freeze(st, a[0]), x.freeze(st, a[1])
		n, ok := a[2].intConst()
		if c, okc := sep.strConst(); !ok || n != 2 || !okc || c == "" {
			return false
		}
		t := types.NewSlice(str)
		cut(x, st, s, sep, func(st *State, b, c *Term) {
			k(st, "return", []*Term{x.ts.mk("seq", "", t, b, c)}, pos)
		}, func(st *State) {
			k(st, "return", []*Term{x.ts.mk("seq", "", t, s)}, pos)
		})
		return true
	})
	for _, fix := range []string{"Prefix", "Suffix"} {
		has := "strings.Has" + fix
		rest := func(x *Exec, st *State, s, f *Term) *Term {
			n := x.strLen(f)
			if fix == "Prefix" {
				return x.sliceT(st, s, n, undef(x), str)
			}
			hi := x.ts.bin(token.SUB, x.strLen(s), n, types.Typ[types.Int], types.Typ[types.Int])
			return x.sliceT(st, s, x.ts.intT(0), hi, str)
		}
		reg(has, func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			return x.ret(st, k, pos, x.hasFix(has, x.freeze(st, a[0]), x.freeze(st, a[1])))
		})
		for _, n := range []string{"strings.Trim" + fix, "strings.Cut" + fix} {
			reg(n, func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
				s, f := x.freeze(st, a[0]), x.freeze(st, a[1])
				x.fork(st, x.hasFix(has, s, f), func(st *State) {
					r := []*Term{rest(x, st, s, f), x.ts.boolT(true)}
					if strings.HasPrefix(n, "strings.Trim") {
						r = r[:1]
					}
					k(st, "return", r, pos)
				}, func(st *State) {
					r := []*Term{s, x.ts.boolT(false)}
					if strings.HasPrefix(n, "strings.Trim") {
						r = r[:1]
					}
					k(st, "return", r, pos)
				})
				return true
			})
		}
	}
}
