package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// lastDayOf recognises the last day of a month: time.Date(y, m, 1, …).AddDate(0, 1, -1) and time.Date(y, m+1, 0, …).
func (x *Exec) lastDayOf(t *Term) (y, m *Term, ok bool) {
	call := func(t *Term, name string, n int) []*Term {
		if t.op == "res" && t.aux == "0" && t.args[0].op == "call" && t.args[0].aux == name && len(t.args[0].args) == n {
			return t.args[0].args
		}
		return nil
	}
	isC := func(t *Term, v int64) bool { k, ok := t.intConst(); return ok && k == v }
	if a := call(t, "(time.Time).AddDate", 4); a != nil && isC(a[1], 0) && isC(a[2], 1) && isC(a[3], -1) {
		if d := call(a[0], "time.Date", 8); d != nil && isC(d[2], 1) && x.quietHours(d) {
			return d[0], d[1], true
		}
	}
	if d := call(t, "time.Date", 8); d != nil && isC(d[2], 0) && x.quietHours(d) {
		return d[0], x.ts.bin(token.SUB, d[1], x.ts.intT(1), types.Typ[types.Int], types.Typ[types.Int]), true
	}
	return nil, nil, false
}

// quietHours reports whether the time of a date is one that does not move it to another day.
func (x *Exec) quietHours(d []*Term) bool {
	for i := 3; i <= 6; i++ {
		if k, ok := d[i].intConst(); !ok || k < 0 || i == 3 && k > 23 || i > 3 && i < 6 && k > 59 || i == 6 && k > 999999999 {
			return false
		}
	}
	return d[7].op == "ld" && d[7].args[0].op == "global" && d[7].args[0].aux == "time.UTC"
}

func init() {
	models["(time.Time).Day"] = func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
		y, m, ok := x.lastDayOf(x.freeze(st, a[0]))
		if !ok || st.facts.loOf(m) < 1 || st.facts.hiOf(m) > 12 {
			return false
		}
		is := func(t *Term, v int64) *Term {
			return x.ts.bin(token.EQL, t, x.ts.intT(v), types.Typ[types.Bool], types.Typ[types.Int])
		}
		rem := func(n int64) *Term {
			return x.ts.bin(token.REM, y, x.ts.intT(n), types.Typ[types.Int], types.Typ[types.Int])
		}
		ret := func(n int64) func(*State) {
			return func(st *State) { x.ret(st, k, pos, x.ts.intT(n)) }
		}
		var month func(i int64, st *State)
		month = func(i int64, st *State) {
			days := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[i-1]
			x.fork(st, is(m, i), func(st *State) {
				if i != 2 {
					ret(days)(st)
					return
				}
				x.fork(st, is(rem(4), 0), func(st *State) {
					x.fork(st, is(rem(100), 0), func(st *State) {
						x.fork(st, is(rem(400), 0), ret(29), ret(28))
					}, ret(29))
				}, ret(28))
			}, func(st *State) {
				if i < 12 {
					month(i+1, st)
				}
			})
		}
		month(1, st)
		return true
	}
}

// timeChunk is an element of a layout of package time; names of months and days are not followed by a lower case letter.
var timeChunk = regexp.MustCompile(`^(?:January|Jan|Monday|Mon|MST|002|0[1-6]|15|1|2006|2|_2006|_2|__2|3|4|5|PM|pm|-070000|-07:00:00|-0700|-07:00|-07|Z070000|Z07:00:00|Z0700|Z07:00|Z07|[.,]0+|[.,]9+)`)

func isLower(s string) bool   { return s != "" && s[0] >= 'a' && s[0] <= 'z' }
func isDigitAt(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

// timeFormat splits a layout into its elements and reduces the simple ones to the parts of the time.
func (x *Exec) timeFormat(st *State, t *Term, layout string, done *Term, k func(*State, *Term)) {
	str := types.Typ[types.String]
	n := 0
	chunk := ""
	for ; n < len(layout); n++ {
		chunk = timeChunk.FindString(layout[n:])
		rest := layout[n+len(chunk):]
		switch {
		case chunk == "_2006": // an underscore and a year
			chunk = ""
		case (chunk == "Jan" || chunk == "Mon") && isLower(rest):
			chunk = ""
		case chunk != "" && (chunk[0] == '.' || chunk[0] == ',') && isDigitAt(rest):
			chunk = ""
		}
		if chunk != "" {
			break
		}
	}
	done = x.ts.concat(done, x.ts.strT(layout[:n]))
	if chunk == "" {
		k(st, done)
		return
	}
	rest := layout[n+len(chunk):]
	go_ := func(st *State, v *Term) { x.timeFormat(st, t, rest, x.ts.concat(done, v), k) }
	part := func(st *State, m string, width int64) {
		x.timePart(st, x.callT("(time.Time)."+m, types.Typ[types.Int], t), width, go_)
	}
	switch chunk {
	case "15":
		part(st, "Hour", 2)
	case "04":
		part(st, "Minute", 2)
	case "4":
		part(st, "Minute", 0)
	case "05":
		part(st, "Second", 2)
	case "5":
		part(st, "Second", 0)
	case "02":
		part(st, "Day", 2)
	case "2":
		part(st, "Day", 0)
	case "002":
		part(st, "YearDay", 3)
	case "01", "1":
		m := x.callT("(time.Time).Month", types.Typ[types.Int], t)
		x.timePart(st, m, int64(2*(len(chunk)-1)), go_)
	case "January", "Monday":
		name := map[string]string{"January": "Month", "Monday": "Weekday"}[chunk]
		x.timeName(st, name, x.callT("(time.Time)."+name, types.Typ[types.Int], t), go_)
	case "03", "3":
		h := x.callT("(time.Time).Hour", types.Typ[types.Int], t)
		h12 := x.ts.bin(token.REM, h, x.ts.intT(12), types.Typ[types.Int], types.Typ[types.Int])
		width := int64(2 * (len(chunk) - 1))
		x.fork(st, x.ts.bin(token.EQL, h12, x.ts.intT(0), types.Typ[types.Bool], types.Typ[types.Int]),
			func(st *State) { x.timePart(st, x.ts.intT(12), width, go_) },
			func(st *State) { x.timePart(st, h12, width, go_) })
	default:
		if d := len(chunk) - 1; d <= 9 && (strings.HasPrefix(chunk, ".0") || strings.HasPrefix(chunk, ",0")) {
			div := int64(1)
			for i := d; i < 9; i++ {
				div *= 10
			}
			v := x.callT("(time.Time).Nanosecond", types.Typ[types.Int], t)
			v = x.ts.bin(token.QUO, v, x.ts.intT(div), types.Typ[types.Int], types.Typ[types.Int])
			x.timePart(st, v, int64(d), func(st *State, v *Term) { go_(st, x.ts.concat(x.ts.strT(chunk[:1]), v)) })
			return
		}
		go_(st, x.callT("(time.Time).Format", str, t, x.ts.strT(chunk)))
	}
}

// timePart writes a part of a time with a number of digits.
func (x *Exec) timePart(st *State, v *Term, width int64, k func(*State, *Term)) {
	if c, ok := v.intConst(); ok {
		s := strconv.FormatInt(c, 10)
		for int64(len(s)) < width {
			s = "0" + s
		}
		k(st, x.ts.strT(s))
		return
	}
	if width == 0 {
		k(st, x.callT("strconv.FormatInt", types.Typ[types.String], v, x.ts.intT(10)))
		return
	}
	k(st, x.padded(v, width))
}

// timeName is the name of a month or a day.
func (x *Exec) timeName(st *State, typ string, v *Term, k func(*State, *Term)) {
	name := func(i int64) string {
		if typ == "Month" {
			return time.Month(i).String()
		}
		return time.Weekday(i).String()
	}
	if c, ok := v.intConst(); ok {
		k(st, x.ts.strT(name(c)))
		return
	}
	lo, hi := st.facts.loOf(v), st.facts.hiOf(v)
	if lo < 0 || hi > 12 {
		k(st, x.callT("(time."+typ+").String", types.Typ[types.String], v))
		return
	}
	var next func(i int64, st *State)
	next = func(i int64, st *State) {
		if i == hi {
			k(st, x.ts.strT(name(i)))
			return
		}
		x.fork(st, x.ts.bin(token.EQL, v, x.ts.intT(i), types.Typ[types.Bool], types.Typ[types.Int]),
			func(st *State) { k(st, x.ts.strT(name(i))) },
			func(st *State) { next(i+1, st) })
	}
	next(lo, st)
}

func init() {
	// the parts of a time at once
	for name, parts := range map[string][]string{"Date": {"Year", "Month", "Day"}, "Clock": {"Hour", "Minute", "Second"}} {
		models["(time.Time)."+name] = func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			tup, ok := rt.(*types.Tuple)
			if !ok || tup.Len() != 3 {
				return false
			}
			t := x.freeze(st, a[0])
			var vals []*Term
			var next func(st *State, i int)
			next = func(st *State, i int) {
				if i == 3 {
					k(st, "return", vals, pos)
					return
				}
				n := "(time.Time)." + parts[i]
				add := func(st *State, _ string, v []*Term, _ token.Pos) {
					vals = append(vals[:i:i], v[0])
					next(st, i+1)
				}
				if m := models[n]; m != nil && m(x, fr, st, []*Term{t}, tup.At(i).Type(), pos, add) {
					return
				}
				x.pureCall(st, n, []*Term{t}, tup.At(i).Type(), pos, add)
			}
			next(st, 0)
			return true
		}
	}
	for _, typ := range []string{"Month", "Weekday"} {
		models["(time."+typ+").String"] = func(x *Exec, fr *frame, st *State, a []*Term, rt types.Type, pos token.Pos, k cont) bool {
			x.timeName(st, typ, st.facts.simp(x.freeze(st, a[0])), func(st *State, v *Term) { x.ret(st, k, pos, v) })
			return true
		}
	}
}
