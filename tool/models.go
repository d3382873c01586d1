package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, fr *frame, st *State, args []*Term, rt types.Type, pos token.Pos, k cont) bool

// models give the effect of library functions on the abstract state.
var models map[string]modelFn

// purePkgs are packages whose functions (not methods) have no effects and depend only on their arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "path": true,
	"errors": true, "cmp": true, "maps": true, "html": true,
	"golang.org/x/text/language": true, "golang.org/x/text/number": true, "golang.org/x/text/feature/plural": true, "golang.org/x/text/internal/language": true,
}

var pureFuncs = map[string]bool{
	"path/filepath.FromSlash": true, "path/filepath.ToSlash": true, "path/filepath.Join": true, "path/filepath.Ext": true, "path/filepath.Clean": true, "path/filepath.Base": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"slices.Contains": true, "slices.Index": true, "slices.Clone": true, "slices.Sorted": true, "slices.Collect": true, "slices.Equal": true, "slices.Max": true, "slices.Min": true, "slices.Clip": true, "slices.AppendSeq": true, "slices.SortedFunc": true, "slices.SortedStableFunc": true, "slices.ContainsFunc": true, "slices.IndexFunc": true, "slices.Values": true, "slices.Concat": true,
	"bytes.Equal": true, "bytes.Contains": true, "bytes.HasPrefix": true, "bytes.IndexByte": true, "bytes.Index": true, "bytes.TrimSpace": true, "bytes.Split": true, "bytes.ContainsRune": true,
	"bytes.NewReader": true, "strings.NewReader": true,
	"reflect.TypeOf": true, "reflect.ValueOf": true, "reflect.Indirect": true,
	"os.DirFS": true, "time.Unix": true, "time.Date": true, "time.FixedZone": true, "time.Duration": true,
	"encoding/binary.Size": true, "regexp.MustCompile": true, "sort.SearchInts": true,
	"html/template.HTMLEscapeString": true,
}

// types whose methods are pure
var pureRecv = []string{
	"(time.Time).", "(*time.Location).", "(time.Duration).", "(time.Month).", "(time.Weekday).",
	"(golang.org/x/text/language.", "(*golang.org/x/text/language.", "(reflect.Value).", "(*reflect.rtype).", "(golang.org/x/text/number.",
	"(*regexp.Regexp).Match", "(*regexp.Regexp).Find", "(*regexp.Regexp).Replace", "(encoding/binary.littleEndian)", "(encoding/binary.bigEndian)",
}

// functions of purePkgs that change their arguments
var impure = map[string]bool{"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true}

func isPureExternal(name string, fn *ssa.Function) bool {
	if impure[name] {
		return false
	}
	if pureFuncs[name] {
		return true
	}
	for _, p := range pureRecv {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if fn.Signature.Recv() == nil && purePkgs[fnPkgPath(fn)] {
		return true
	}
	return false
}

// inlineExt lists library functions that are analysed like functions of the module.
func inlineExt(name string, fn *ssa.Function) bool {
	switch name {
	case "slices.Contains", "slices.ContainsFunc", "slices.Index", "slices.IndexFunc":
		return true
	}
	return false
}

func (x *Exec) bufCell(a *Term) *Term {
	return x.ts.mk("fld", "#buf", types.NewPointer(types.Typ[types.String]), a)
}

func (x *Exec) bufGet(st *State, a *Term) *Term {
	c := x.bufCell(a)
	if v, ok := st.mem[c]; ok {
		return v
	}
	if d, path := x.dirtyOf(st, c); d != nil {
		return x.ts.mk("out", path, types.Typ[types.String], d)
	}
	if a.op == "alloc" || rootOf(a).op == "alloc" {
		return x.ts.strT("")
	}
	return x.ts.mk("ld", "", types.Typ[types.String], c)
}

func isBufType(t types.Type) bool {
	s := typeKey(t)
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

func bufRecv(t *Term) (*Term, bool) {
	if t.op == "iface" && isBufType(t.typ) {
		return t.args[0], true
	}
	return nil, false
}

func (x *Exec) bufAdd(st *State, a, s *Term) {
	st.mem[x.bufCell(a)] = x.ts.concat(x.bufGet(st, a), s)
}

func (x *Exec) ret(st *State, k cont, pos token.Pos, vals ...*Term) bool {
	k(st, "return", vals, pos)
	return true
}

func (x *Exec) runeStr(r *Term) *Term {
	if v, ok := r.intConst(); ok {
		return x.ts.strT(string(rune(v)))
	}
	return x.ts.mk("conv", "int32", types.Typ[types.String], r)
}

func init() {
	models = map[string]modelFn{}
	reg := func(f modelFn, names ...string) {
		for _, n := range names {
			models[n] = f
		}
	}
	// The type of a value is nil exactly for nil.
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		r := x.ts.mk("call", "reflect.TypeOf", rtype(rt), x.freeze(st, a[0]))
		x.fork(st, x.ts.bin(token.EQL, a[0], x.ts.nilT(nil), types.Typ[types.Bool], nil), func(st *State) {
			k(st, "return", []*Term{x.ts.nilT(rtype(rt))}, pos)
		}, func(st *State) {
			x.assumeNonNil(st, r)
			k(st, "return", []*Term{r}, pos)
		})
		return true
	}, "reflect.TypeOf")
	// ---- errors ----
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		aux := "new"
		if x.strict {
			aux = fmt.Sprint("new", a[0].id)
		}
		return x.ret(st, k, pos, x.ts.mk("errnew", aux, rtype(rt)))
	}, "errors.New")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		var wrapped []*Term
		if f, ok := a[0].strConst(); ok && strings.Contains(f, "%w") {
			vs := x.freeze(st, x.seqOf(st, a[1]))
			if vs.op == "seq" {
				for _, v := range vs.args {
					if isErrorTerm(v) {
						wrapped = append(wrapped, v)
					}
				}
			}
		}
		if len(wrapped) == 0 {
			return x.ret(st, k, pos, x.ts.mk("errnew", "new", rtype(rt)))
		}
		return x.ret(st, k, pos, x.ts.mk("errwrap", "", rtype(rt), wrapped...))
	}, "fmt.Errorf")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		return x.ret(st, k, pos, x.errIs(st, x.freeze(st, a[0]), x.freeze(st, a[1])))
	}, "errors.Is")
	reg(modelErrorsAs, "errors.As")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s := x.seqOf(st, a[0])
		if s.op != "seq" {
			return false
		}
		var step func(i int, st *State, acc []*Term)
		step = func(i int, st *State, acc []*Term) {
			if i == len(s.args) {
				if len(acc) == 0 {
					k(st, "return", []*Term{x.ts.nilT(nil)}, pos)
				} else {
					k(st, "return", []*Term{x.ts.mk("errwrap", "", rtype(rt), acc...)}, pos)
				}
				return
			}
			e := s.args[i]
			x.fork(st, x.ts.bin(token.EQL, e, x.ts.nilT(nil), types.Typ[types.Bool], nil), func(st *State) {
				step(i+1, st, acc)
			}, func(st *State) {
				step(i+1, st, append(acc[:len(acc):len(acc)], x.freeze(st, e)))
			})
		}
		step(0, st, nil)
		return true
	}, "errors.Join")

	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s := x.seqOf(st, a[0])
		if s.op != "seq" && s.op != "nil" {
			return false
		}
		r := x.ts.strT("")
		for i, e := range s.args {
			if i > 0 {
				r = x.ts.concat(r, a[1])
			}
			r = x.ts.concat(r, e)
		}
		return x.ret(st, k, pos, r)
	}, "strings.Join")

	// ---- maps ----
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		m := a[0]
		if m.op == "nil" {
			return x.ret(st, k, pos, m)
		}
		isNil := x.ts.boolT(false)
		if m.op != "allocmap" {
			isNil = x.ts.bin(token.EQL, m, x.ts.nilT(nil), types.Typ[types.Bool], nil)
		}
		x.fork(st, isNil, func(st *State) {
			k(st, "return", []*Term{x.ts.nilT(rtype(rt))}, pos)
		}, func(st *State) {
			x.nalloc++
			c := x.ts.mk("allocmap", strconv.Itoa(x.nalloc), rtype(rt))
			ms := &mapState{}
			if o := x.mapOf(st, m); o != nil {
				*ms = *o
				ms.ups = o.ups[:len(o.ups):len(o.ups)]
			}
			if !ms.fresh && ms.base == nil {
				ms.base = m
			}
			st.maps[c] = ms
			k(st, "return", []*Term{c}, pos)
		})
		return true
	}, "maps.Clone")

	// ---- string builders ----
	str := func(x *Exec, t *Term) *Term { return t }
	addS := func(conv func(x *Exec, st *State, t *Term) *Term) modelFn {
		return func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			v := conv(x, st, a[1])
			x.bufAdd(st, a[0], v)
			if tup, ok := rt.(*types.Tuple); ok && tup.Len() == 2 {
				return x.ret(st, k, pos, x.lenOf(st, v), x.ts.nilT(nil))
			}
			return x.ret(st, k, pos, x.ts.nilT(nil))
		}
	}
	_ = str
	for _, tn := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		reg(addS(func(x *Exec, st *State, t *Term) *Term { return t }), tn+".WriteString")
		reg(addS(func(x *Exec, st *State, t *Term) *Term {
			return x.convert(st, t, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
		}), tn+".Write")
		reg(addS(func(x *Exec, st *State, t *Term) *Term { return x.runeStr(t) }), tn+".WriteRune")
		reg(addS(func(x *Exec, st *State, t *Term) *Term {
			if v, ok := t.intConst(); ok {
				return x.ts.strT(string([]byte{byte(v)}))
			}
			return x.ts.mk("bytestr", "", types.Typ[types.String], t)
		}), tn+".WriteByte")
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			return x.ret(st, k, pos, x.bufGet(st, a[0]))
		}, tn+".String")
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			return x.ret(st, k, pos, x.convert(st, x.bufGet(st, a[0]), types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])))
		}, tn+".Bytes")
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			return x.ret(st, k, pos, x.lenOf(st, x.bufGet(st, a[0])))
		}, tn+".Len")
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			return x.ret(st, k, pos)
		}, tn+".Grow")
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			st.mem[x.bufCell(a[0])] = x.ts.strT("")
			return x.ret(st, k, pos)
		}, tn+".Reset")
	}
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		p := rtype(rt).Underlying().(*types.Pointer)
		o := x.alloc(p.Elem())
		s := x.freeze(st, a[0])
		c := x.ts.strT("")
		if !(s.op == "seq" && len(s.args) == 0) && !(s.op == "newslice" && x.lenOf(st, a[0]) == x.ts.intT(0)) {
			c = x.convert(st, s, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
		}
		st.mem[x.bufCell(o)] = c
		return x.ret(st, k, pos, o)
	}, "bytes.NewBuffer")
	fpr := func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		b, ok := bufRecv(a[0])
		v := x.ts.mk("res", "0", types.Typ[types.String], x.ts.mk("call", "fmt.Sprintf", types.Typ[types.String], x.freeze(st, a[1]), x.freeze(st, x.seqOf(st, a[2]))))
		if !ok {
			return x.writeTo(fr, st, a[0], x.sprintf(st, v), rt, pos, k)
		}
		x.bufAdd(st, b, x.sprintf(st, v))
		return x.ret(st, k, pos, x.lenOf(st, v), x.ts.nilT(nil))
	}
	reg(fpr, "fmt.Fprintf")
	// Print of texts: no spaces are added
	texts := func(x *Exec, st *State, t *Term, nl string) *Term {
		s := x.freeze(st, x.seqOf(st, t))
		if s.op != "seq" {
			return nil
		}
		if len(s.args) == 1 {
			t := x.ts.mk("res", "0", types.Typ[types.String], x.ts.mk("call", "fmt.Sprintf", types.Typ[types.String], x.ts.strT("%v"+nl), s))
			if v := x.sprintf(st, t); v != t {
				return v
			}
		}
		out := x.ts.strT("")
		for i, v := range s.args {
			if v.op != "iface" || nl != "" && i > 0 {
				return nil
			}
			if b, ok := types.Unalias(v.typ).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return nil
			}
			out = x.ts.concat(out, v.args[0])
		}
		return x.ts.concat(out, x.ts.strT(nl))
	}
	for _, nl := range []string{"", "\n"} {
		suffix := map[string]string{"": "", "\n": "ln"}[nl]
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			b, ok := bufRecv(a[0])
			v := texts(x, st, a[1], nl)
			if v == nil {
				return false
			}
			if !ok {
				return x.writeTo(fr, st, a[0], v, rt, pos, k)
			}
			x.bufAdd(st, b, v)
			return x.ret(st, k, pos, x.lenOf(st, v), x.ts.nilT(nil))
		}, "fmt.Fprint"+suffix)
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			v := texts(x, st, a[0], nl)
			if v == nil {
				return false
			}
			return x.ret(st, k, pos, v)
		}, "fmt.Sprint"+suffix)
	}
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		x.forkBools(st, x.freeze(st, x.seqOf(st, a[1])), 0, func(st *State, vals *Term) {
			v := x.ts.mk("res", "0", types.Typ[types.String], x.ts.mk("call", "fmt.Sprintf", types.Typ[types.String], x.freeze(st, a[0]), vals))
			x.ret(st, k, pos, x.sprintf(st, v))
		})
		return true
	}, "fmt.Sprintf")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		x.fork(st, a[0], func(st *State) { x.ret(st, k, pos, x.ts.strT("true")) }, func(st *State) { x.ret(st, k, pos, x.ts.strT("false")) })
		return true
	}, "strconv.FormatBool")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		fz := make([]*Term, len(a))
		for i, v := range a {
			fz[i] = x.freeze(st, v)
		}
		if layout, ok := fz[1].strConst(); ok {
			x.timeFormat(st, fz[0], layout, x.ts.strT(""), func(st *State, v *Term) { x.ret(st, k, pos, v) })
			return true
		}
		return x.ret(st, k, pos, x.callT("(time.Time).Format", types.Typ[types.String], fz...))
	}, "(time.Time).Format")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		b, ok := bufRecv(a[0])
		if !ok {
			return x.writeTo(fr, st, a[0], a[1], rt, pos, k)
		}
		x.bufAdd(st, b, a[1])
		return x.ret(st, k, pos, x.lenOf(st, a[1]), x.ts.nilT(nil))
	}, "io.WriteString")

	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		if !isInt(rtype(rt)) || a[0].typ == nil || !isInt(a[0].typ) && !isString(a[0].typ) {
			return false
		}
		c := func(op token.Token) *Term { return x.ts.bin(op, a[0], a[1], types.Typ[types.Bool], a[0].typ) }
		x.fork(st, c(token.LSS), func(st *State) { k(st, "return", []*Term{x.ts.intT(-1)}, pos) }, func(st *State) {
			x.fork(st, c(token.EQL), func(st *State) { k(st, "return", []*Term{x.ts.intT(0)}, pos) }, func(st *State) { k(st, "return", []*Term{x.ts.intT(1)}, pos) })
		})
		return true
	}, "cmp.Compare", "strings.Compare")

	// ---- constant folding of string functions ----
	fold1 := func(name string, f func(string) string) {
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			if s, ok := a[0].strConst(); ok {
				return x.ret(st, k, pos, x.ts.strT(f(s)))
			}
			return false
		}, name)
	}
	fold1("strings.ToUpper", strings.ToUpper)
	fold1("strings.ToLower", strings.ToLower)
	fold1("strings.TrimSpace", strings.TrimSpace)
	fold2 := func(name string, f func(a, b string) any) {
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			s, ok := a[0].strConst()
			t, ok2 := a[1].strConst()
			if ok && ok2 {
				switch v := f(s, t).(type) {
				case bool:
					return x.ret(st, k, pos, x.ts.boolT(v))
				case string:
					return x.ret(st, k, pos, x.ts.strT(v))
				}
			}
			return false
		}, name)
	}
	fold2("strings.EqualFold", func(a, b string) any { return strings.EqualFold(a, b) })
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		if v, ok := a[0].intConst(); ok {
			return x.ret(st, k, pos, x.ts.strT(strconv.FormatInt(v, 10)))
		}
		return x.ret(st, k, pos, x.ts.mk("res", "0", types.Typ[types.String], x.ts.mk("call", "strconv.FormatInt", types.Typ[types.String], a[0], x.ts.intT(10))))
	}, "strconv.Itoa")
	foldM := func(name string, f func(float64) float64) {
		reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			if a[0].op == "const" {
				v, _ := constant.Float64Val(constant.ToFloat(a[0].cv))
				return x.ret(st, k, pos, x.ts.konst(constant.MakeFloat64(f(v)), types.Typ[types.Float64]))
			}
			// symmetric functions: the absolute value of the rounded value is the rounded absolute value
			if v := x.freeze(st, a[0]); name == "math.Abs" && v.op == "res" && v.aux == "0" && v.args[0].op == "call" {
				switch n := v.args[0].aux; n {
				case "math.RoundToEven", "math.Trunc", "math.Round":
					t := types.Typ[types.Float64]
					return x.ret(st, k, pos, x.callT(n, t, x.callT("math.Abs", t, v.args[0].args[0])))
				}
			}
			return false
		}, name)
	}
	foldM("math.Abs", math.Abs)
	foldM("math.Floor", math.Floor)
	foldM("math.Ceil", math.Ceil)
	foldM("math.Round", math.Round)
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		if v, ok := a[0].intConst(); ok && v >= 0 && v < 300 {
			return x.ret(st, k, pos, x.ts.konst(constant.MakeFromLiteral(fmt.Sprintf("1e%d", v), token.FLOAT, 0), types.Typ[types.Float64]))
		}
		return false
	}, "math.Pow10")

	// ---- slices ----
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s := x.seqOf(st, a[0])
		if s.op != "seq" {
			return false
		}
		if len(s.args) > 12 {
			return false
		}
		// x == s[0] || x == s[1] ...
		var step func(i int, st *State)
		step = func(i int, st *State) {
			if i == len(s.args) {
				k(st, "return", []*Term{x.ts.boolT(false)}, pos)
				return
			}
			x.fork(st, x.ts.bin(token.EQL, s.args[i], a[1], types.Typ[types.Bool], a[1].typ), func(st *State) {
				k(st, "return", []*Term{x.ts.boolT(true)}, pos)
			}, func(st *State) { step(i+1, st) })
		}
		step(0, st)
		return true
	}, "slices.Contains")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		s := x.seqOf(st, a[0])
		if s.op != "seq" || len(s.args) == 0 || len(s.args) > 12 {
			return false
		}
		t := rtype(rt)
		if _, ok := t.Underlying().(*types.Basic); !ok || isFloat(t) {
			return false
		}
		zero := x.ts.zero(t)
		// the first value that is not zero
		var step func(i int, st *State)
		step = func(i int, st *State) {
			if i == len(s.args)-1 {
				x.ret(st, k, pos, s.args[i])
				return
			}
			x.fork(st, x.ts.bin(token.EQL, s.args[i], zero, types.Typ[types.Bool], t), func(st *State) {
				step(i+1, st)
			}, func(st *State) { x.ret(st, k, pos, s.args[i]) })
		}
		step(0, st)
		return true
	}, "cmp.Or")
	reg(func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		return x.ret(st, k, pos, a[0]) // capacity is not observable in the value model
	}, "slices.Clip")
}

func rtype(rt types.Type) types.Type {
	if t, ok := rt.(*types.Tuple); ok && t.Len() > 0 {
		return t.At(0).Type()
	}
	return rt
}

// sprintf resolves the simplest formats.
func (x *Exec) sprintf(st *State, t *Term) *Term {
	c := t.args[0]
	f, ok := c.args[0].strConst()
	if !ok || len(c.args) < 2 || c.args[1].op != "seq" {
		return t
	}
	vals := c.args[1].args
	out := x.ts.strT("")
	vi := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = x.ts.concat(out, x.ts.strT(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			return t
		}
		switch f[i] {
		case '%':
			out = x.ts.concat(out, x.ts.strT("%"))
		case 's', 'd', 'v':
			if vi >= len(vals) || vals[vi].op != "iface" {
				return t
			}
			v := vals[vi]
			vi++
			b, ok := plainBasic(v.typ)
			switch {
			case ok && b.Info()&types.IsString != 0 && f[i] != 'd':
				out = x.ts.concat(out, v.args[0])
			case ok && b.Info()&types.IsInteger != 0 && f[i] != 's':
				if n, ok := v.args[0].intConst(); ok {
					out = x.ts.concat(out, x.ts.strT(strconv.FormatInt(n, 10)))
				} else {
					out = x.ts.concat(out, x.ts.mk("res", "0", types.Typ[types.String], x.ts.mk("call", "strconv.FormatInt", types.Typ[types.String], v.args[0], x.ts.intT(10))))
				}
			case f[i] == 's' && isBytes(v.typ):
				out = x.ts.concat(out, x.convert(st, v.args[0], v.typ, types.Typ[types.String]))
			case len(vals) == 1 && len(f) == 2:
				return t
			default:
				out = x.ts.concat(out, x.callT("fmt.Sprintf", types.Typ[types.String], x.ts.strT("%"+f[i:i+1]), x.ts.mk("seq", "", c.args[1].typ, v)))
			}
		case 'q':
			if vi >= len(vals) || vals[vi].op != "iface" {
				return t
			}
			v := vals[vi]
			vi++
			s, ok := v.args[0].strConst()
			b, isB := plainBasic(v.typ)
			switch {
			case isB && ok && b.Info()&types.IsString != 0:
				out = x.ts.concat(out, x.ts.strT(strconv.Quote(s)))
			case isB && b.Info()&types.IsString != 0:
				out = x.ts.concat(out, x.callT("strconv.Quote", types.Typ[types.String], v.args[0]))
			case len(vals) == 1 && len(f) == 2:
				return t
			default:
				out = x.ts.concat(out, x.callT("fmt.Sprintf", types.Typ[types.String], x.ts.strT("%q"), x.ts.mk("seq", "", c.args[1].typ, v)))
			}
		case 't':
			if vi >= len(vals) || vals[vi].op != "iface" {
				return t
			}
			if b, isB := types.Unalias(vals[vi].typ).(*types.Basic); !isB || b.Info()&types.IsBoolean == 0 {
				return t
			}
			b, ok := vals[vi].args[0].boolConst()
			if !ok {
				return t
			}
			out = x.ts.concat(out, x.ts.strT(strconv.FormatBool(b)))
			vi++
		case '0', '.':
			// an integer with leading zeros
			if i+2 >= len(f) || f[i+1] < '2' || f[i+1] > '9' || f[i+2] != 'd' || vi >= len(vals) || vals[vi].op != "iface" {
				return t
			}
			v := vals[vi].args[0]
			b, isB := basicOf(vals[vi].typ)
			if !isB || b.Info()&types.IsInteger == 0 || hasMethod(vals[vi].typ, "Format") {
				return t
			}
			if f[i] == '.' && !x.notNegative(st, v) {
				return t
			}
			out = x.ts.concat(out, x.padded(v, int64(f[i+1]-'0')))
			i += 2
			vi++
		default:
			return t
		}
	}
	if vi != len(vals) {
		return t
	}
	return out
}

// forkBools replaces truth values by both of their values.
func (x *Exec) forkBools(st *State, vals *Term, i int, k func(*State, *Term)) {
	for ; vals.op == "seq" && i < len(vals.args); i++ {
		v := vals.args[i]
		if v.op != "iface" || v.typ == nil {
			continue
		}
		if b, ok := types.Unalias(v.typ).(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		if _, ok := v.args[0].boolConst(); ok {
			continue
		}
		with := func(b bool) *Term {
			args := append([]*Term(nil), vals.args...)
			args[i] = x.ts.mk("iface", v.aux, v.typ, x.ts.boolT(b))
			return x.ts.mk("seq", vals.aux, vals.typ, args...)
		}
		x.fork(st, v.args[0], func(st *State) { x.forkBools(st, with(true), i+1, k) }, func(st *State) { x.forkBools(st, with(false), i+1, k) })
		return
	}
	k(st, vals)
}

// padded is a number that is filled up with zeros.
func (x *Exec) padded(v *Term, width int64) *Term {
	return x.callT("fmt.padded", types.Typ[types.String], v, x.ts.intT(width))
}

// notNegative reports whether a number is known not to be negative.
func (x *Exec) notNegative(st *State, v *Term) bool {
	if v.op == "bin/" {
		if n, ok := v.args[1].intConst(); ok && n > 0 {
			return x.notNegative(st, v.args[0])
		}
	}
	return st.facts.loOf(v) >= 0
}

func isErrorTerm(v *Term) bool {
	if v.op == "errnew" || v.op == "errwrap" {
		return true
	}
	if v.op == "iface" {
		return types.Implements(v.typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	}
	return isErrorType(v.typ)
}

// fork continues with both outcomes of a condition.
func (x *Exec) fork(st *State, c *Term, yes, no func(*State)) { x.cases(st, c, yes, no) }

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (x *Exec) errIs(st *State, err, target *Term) *Term {
	ts := x.ts
	if v, ok := st.facts.value(err); ok && v.op == "nil" {
		return ts.bin(token.EQL, target, ts.nilT(nil), types.Typ[types.Bool], nil)
	}
	if err == target {
		return ts.boolT(true)
	}
	switch err.op {
	case "errnew":
		return ts.boolT(false)
	case "errwrap":
		if len(err.args) == 1 {
			return x.errIs(st, err.args[0], target)
		}
	case "iface":
		if !hasMethod(err.typ, "Is") && !hasMethod(err.typ, "Unwrap") {
			return ts.boolT(false)
		}
	case "ld":
		if err.args[0].op == "global" && target.op == "ld" && target.args[0].op == "global" {
			return ts.boolT(false)
		}
	}
	return ts.mk("is", "", types.Typ[types.Bool], err, target)
}

func modelErrorsAs(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
	target := a[1]
	if target.op != "iface" {
		return false
	}
	ptr := target.args[0]
	pt, ok := target.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	want := pt.Elem()
	err := a[0]
	for err.op == "errwrap" && len(err.args) == 1 {
		err = err.args[0]
	}
	yes := func(st *State, v *Term) {
		x.store(st, ptr, v, want)
		k(st, "return", []*Term{x.ts.boolT(true)}, pos)
	}
	no := func(st *State) { k(st, "return", []*Term{x.ts.boolT(false)}, pos) }
	if err.op == "errnew" || err.op == "nil" {
		no(st)
		return true
	}
	if err.op == "iface" {
		if typeMatches(err.typ, want) {
			v := err.args[0]
			if _, isI := want.Underlying().(*types.Interface); isI {
				v = err
			}
			yes(st, v)
			return true
		}
		if !hasMethod(err.typ, "As") && !hasMethod(err.typ, "Unwrap") {
			no(st)
			return true
		}
	}
	fz := x.freeze(st, err)
	if v, ok := st.facts.value(fz); ok && v.op == "nil" {
		no(st)
		return true
	}
	c := x.ts.mk("as", typeKey(want), types.Typ[types.Bool], fz)
	x.fork(st, c, func(st *State) {
		v := x.ts.mk("asval", typeKey(want), want, fz)
		st.facts.addNeq(v, x.ts.nilT(nil))
		yes(st, v)
	}, no)
	return true
}

func (x *Exec) builtin(fr *frame, st *State, name string, args []*Term, c *ssa.CallCommon, rt types.Type, pos token.Pos, k cont) {
	ts := x.ts
	ret := func(v ...*Term) { k(st, "return", v, pos) }
	switch name {
	case "len":
		ret(x.lenOf(st, args[0]))
	case "cap":
		ret(ts.mk("cap", "", types.Typ[types.Int], x.freeze(st, args[0])))
	case "append":
		if len(args) == 1 {
			ret(args[0])
			return
		}
		b := args[1]
		if l := args[0]; l.op == "joinlist" {
			if b = x.seqOf(st, b); b.op != "seq" || len(b.args) != 1 {
				panic(budgetError{"append to a list of texts"})
			}
			t := x.ts.concat(l.args[0], b.args[0])
			x.fork(st, ts.bin(token.EQL, l.args[2], ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int]), func(st *State) {
				k(st, "return", []*Term{ts.mk("joinlist", "", l.typ, append([]*Term{t}, l.args[1:]...)...)}, pos)
			}, func(st *State) {
				t := x.ts.concat(x.ts.concat(l.args[0], l.args[1]), b.args[0])
				k(st, "return", []*Term{ts.mk("joinlist", "", l.typ, append([]*Term{t}, l.args[1:]...)...)}, pos)
			})
			return
		}
		if isString(c.Args[1].Type()) {
			b = x.convert(st, b, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
		}
		ret(x.appendTerm(st, args[0], b, c.Args[0].Type()))
	case "delete":
		x.mapSet(st, args[0], args[1], nil)
		ret()
	case "copy":
		dst := args[0]
		if dst.op == "slice" {
			dst = dst.args[0]
		}
		tag := ts.mk("copy", "", nil, x.freeze(st, args[1]), x.arrayState(st, dst, map[*Term]*Term{}))
		if args[0].op == "slice" {
			tag = ts.mk("copy", "", nil, append(tag.args[:2:2], args[0].args[1:]...)...)
		}
		x.dirtyRoot(st, dst, tag)
		if r := rootOf(dst); r.op != "alloc" && !computedSeq(r) {
			st.events = append(st.events[:len(st.events):len(st.events)], &Event{kind: "copy", name: "copy", args: []*Term{x.freeze(st, args[0]), x.freeze(st, args[1])}, pos: pos, fn: fr.fn})
		}
		ret(ts.mk("copied", "", types.Typ[types.Int], x.freeze(st, args[0]), x.freeze(st, args[1])))
	case "min", "max":
		if b, ok := basicOf(rtype(rt)); ok && b.Info()&types.IsInteger != 0 && len(args) == 2 {
			x.fork(st, ts.bin(token.LSS, args[0], args[1], types.Typ[types.Bool], args[0].typ), func(st *State) {
				k(st, "return", []*Term{args[map[string]int{"min": 0, "max": 1}[name]]}, pos)
			}, func(st *State) {
				k(st, "return", []*Term{args[map[string]int{"min": 1, "max": 0}[name]]}, pos)
			})
			return
		}
		r := args[0]
		for _, a := range args[1:] {
			if r.id > a.id {
				r, a = a, r
			}
			r = ts.mk(name, "", rtype(rt), r, a)
		}
		ret(r)
	case "recover":
		ret(ts.nilT(nil))
	case "ssa:wrapnilchk":
		ret(args[0])
	case "print", "println", "close", "clear":
		st.events = append(st.events[:len(st.events):len(st.events)], &Event{kind: "builtin", name: name, pos: pos, fn: fr.fn})
		ret()
	case "real", "imag":
		ret(ts.mk(name, "", rtype(rt), args[0]))
	default:
		panic(budgetError{"unsupported builtin " + name})
	}
}

func isBytes(t types.Type) bool {
	s, ok := types.Unalias(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := types.Unalias(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// writeTo is a call of Write with the bytes of a text. A writer that is known by its type only gets the same bytes
// from WriteString.
func (x *Exec) writeTo(fr *frame, st *State, w, s *Term, rt types.Type, pos token.Pos, k cont) bool {
	if w.op == "iface" || w.op == "nil" || w.typ == nil || st.facts.typ[w] != nil {
		return false
	}
	if _, ok := w.typ.Underlying().(*types.Interface); !ok || !x.assumeNonNil(st, w) {
		return false
	}
	x.opaqueCall(fr, st, "invoke", "(io.Writer).Write", []*Term{w, x.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))}, rt, pos, k)
	return true
}

// plainBasic returns the basic type of a value that is formatted without a method.
func plainBasic(t types.Type) (*types.Basic, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		ms := types.NewMethodSet(n)
		for _, m := range []string{"String", "Error", "Format", "GoString"} {
			if ms.Lookup(nil, m) != nil {
				return nil, false
			}
		}
		b, ok := n.Underlying().(*types.Basic)
		return b, ok
	}
	b, ok := types.Unalias(t).(*types.Basic)
	return b, ok
}
