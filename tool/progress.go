package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The progress analysis decides whether every pass of a loop, and every round of a recursion, consumes input.
//
// It explores the functions in an abstract state: the constants that small fields (the last token, "is there a token
// that was put back") and local variables hold, the constants they are known not to hold, and whether the input is
// exhausted. A read has two outcomes: it consumes (weight +1), or the input is exhausted (0) and stays so. Putting back
// weighs -1. A loop ends if no cycle through its header has a weight of 0 or less: the input is finite, and as soon as
// it is exhausted every pass weighs 0.
type prog struct {
	lc      *loopChecker
	w       *World
	memo    map[string]*psum
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	counter map[string]bool
	matter  map[*ssa.Function]bool
	skip    map[string]bool // fields that are not followed
	liveAt  map[liveKey]map[ssa.Value]bool
	order   map[*ssa.Function]map[ssa.Value]int
	open    map[string]bool
	changed bool
	nodes   int
	total   int
	limit   int
	locals  map[*ssa.Alloc]bool
	written map[string]bool // fields that are changed
	depth   int
	round   int
	bad     map[*ssa.BasicBlock]string // headers of loops without progress
	badAll  map[*ssa.BasicBlock]string
	badRec  map[*ssa.Function]string
	loops   map[*ssa.BasicBlock]*loopInfo // loops that are to be decided
	seen    map[*ssa.BasicBlock]bool
}

type envKey struct {
	v ssa.Value
	i int
}

type pstate struct {
	env  map[envKey]string
	mem  map[string]string
	ex   map[int]string
	bind map[int]string
	ent  int
	next int
}

type pexit struct {
	st  *pstate
	res []string
	w   int
}

type psum struct {
	f     *ssa.Function
	exits map[string]*pexit
	rec   map[string]*prec // recursive calls
	round int
	neg   bool
}

type prec struct {
	w    int
	site ssa.CallInstruction
	from *ssa.Function
}

type pnode struct {
	b     *ssa.BasicBlock
	st    *pstate
	dist  int
	edges []pedge
	calls []pcall
}

type pedge struct {
	to *pnode
	w  int
}

type pcall struct {
	key  string
	w    int
	site ssa.CallInstruction
}

func (s *pstate) clone() *pstate {
	n := &pstate{env: make(map[envKey]string, len(s.env)), mem: make(map[string]string, len(s.mem)), ex: make(map[int]string, len(s.ex)), ent: s.ent, next: s.next}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ex {
		n.ex[k] = v
	}
	if len(s.bind) > 0 {
		n.bind = make(map[int]string, len(s.bind))
		for k, v := range s.bind {
			n.bind[k] = v
		}
	}
	return n
}

func (s *pstate) fresh() string {
	s.next++
	return "s" + strconv.Itoa(s.next-1)
}

func symNo(c string) (int, bool) {
	if len(c) > 1 && c[0] == 's' {
		n, err := strconv.Atoi(c[1:])
		return n, err == nil
	}
	return 0, false
}

func (s *pstate) resolve(c string) string {
	if n, ok := symNo(c); ok {
		if b, ok := s.bind[n]; ok {
			return b
		}
	}
	return c
}

// assume restricts the state to those where a cell equals a constant or does not.
func (s *pstate) assume(cell, k string, eq bool) bool {
	cell = s.resolve(cell)
	if cell == "" || k == "" || k == "n" {
		return true
	}
	n, sym := symNo(cell)
	if !sym {
		if cell == "n" {
			return k != "nil" || !eq
		}
		return (cell == k) == eq
	}
	ex := s.ex[n]
	has := strings.Contains(ex, "\x00"+k+"\x00")
	if !eq {
		if !has {
			list := append(splitEx(ex), k)
			sort.Strings(list)
			s.ex[n] = "\x00" + strings.Join(list, "\x00") + "\x00"
		}
		return true
	}
	if has {
		return false
	}
	delete(s.ex, n)
	for e, c := range s.env {
		if c == cell {
			s.env[e] = k
		}
	}
	for m, c := range s.mem {
		if c == cell {
			s.mem[m] = k
		}
	}
	if n < s.ent {
		if s.bind == nil {
			s.bind = map[int]string{}
		}
		s.bind[n] = k
	}
	return true
}

func splitEx(ex string) []string {
	ex = strings.Trim(ex, "\x00")
	if ex == "" {
		return nil
	}
	return strings.Split(ex, "\x00")
}

func small(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return false
}

// canon renames the symbols of a state and drops what is not known or not used any more. extra are cells that are used, too.
func (p *prog) canon(f *ssa.Function, s *pstate, live map[ssa.Value]bool, extra []string) string {
	ord := p.orderOf(f)
	var keys []envKey
	for k := range s.env {
		if live == nil || !live[k.v] || s.env[k] == "" {
			delete(s.env, k)
			continue
		}
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if a, b := ord[keys[i].v], ord[keys[j].v]; a != b {
			return a < b
		}
		return keys[i].i < keys[j].i
	})
	for m, c := range s.mem {
		if c == "" {
			delete(s.mem, m)
		}
	}
	mems := sortedKeys(s.mem)
	refs := map[string]int{}
	for _, k := range keys {
		refs[s.env[k]]++
	}
	for _, m := range mems {
		refs[s.mem[m]]++
	}
	for _, c := range extra {
		refs[c]++
	}
	ren := map[string]string{}
	ex := map[int]string{}
	for i := 0; i < s.ent; i++ {
		if e := s.ex[i]; e != "" {
			ex[i] = e
		}
	}
	next := s.ent
	name := func(c string) string {
		n, ok := symNo(c)
		if !ok || n < s.ent {
			return c
		}
		if r, ok := ren[c]; ok {
			return r
		}
		r := ""
		if refs[c] > 1 || s.ex[n] != "" {
			r = "s" + strconv.Itoa(next)
			if e := s.ex[n]; e != "" {
				ex[next] = e
			}
			next++
		}
		ren[c] = r
		return r
	}
	var sb strings.Builder
	for _, k := range keys {
		c := name(s.env[k])
		if c == "" {
			delete(s.env, k)
			continue
		}
		s.env[k] = c
		fmt.Fprintf(&sb, "%d.%d=%s;", ord[k.v], k.i, c)
	}
	for _, m := range mems {
		c := name(s.mem[m])
		if c == "" {
			delete(s.mem, m)
			continue
		}
		s.mem[m] = c
		sb.WriteString(m + "=" + c + ";")
	}
	for i, c := range extra {
		extra[i] = name(c)
		sb.WriteString("|" + extra[i])
	}
	for i := 0; i < next; i++ {
		if e := ex[i]; e != "" {
			fmt.Fprintf(&sb, "x%d:%q;", i, e)
		}
	}
	for i := 0; i < s.ent; i++ {
		if b, ok := s.bind[i]; ok {
			fmt.Fprintf(&sb, "b%d:%s;", i, b)
		}
	}
	s.ex, s.next = ex, next
	return sb.String()
}

func (p *prog) orderOf(f *ssa.Function) map[ssa.Value]int {
	if f == nil {
		return nil
	}
	if o, ok := p.order[f]; ok {
		return o
	}
	o := map[ssa.Value]int{}
	for _, q := range f.Params {
		o[q] = len(o)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				o[v] = len(o)
			}
		}
	}
	p.order[f] = o
	return o
}

// liveOf computes the values that are used at or after the beginning of every block, without the operands of its phis.
func (p *prog) liveOf(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := p.live[f]; ok {
		return l
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	p.live[f] = live
	for again := true; again; {
		again = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			set := p.liveIn(f, b, 0)
			if len(set) != len(live[b]) {
				again = true
			}
			live[b] = set
		}
	}
	return live
}

// liveIn computes the values that are used from an instruction of a block on.
func (p *prog) liveIn(f *ssa.Function, b *ssa.BasicBlock, from int) map[ssa.Value]bool {
	live := p.live[f]
	set := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range live[s] {
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
				continue
			}
			set[v] = true
		}
		for j, q := range s.Preds {
			if q != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				set[phi.Edges[j]] = true
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= from; j-- {
		in := b.Instrs[j]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			delete(set, v)
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		for _, o := range in.Operands(nil) {
			if *o == nil {
				continue
			}
			set[*o] = true
			// The operands of a comparison are needed where its result is.
			for _, d := range compared(*o) {
				set[d] = true
			}
		}
	}
	return set
}

func compared(v ssa.Value) []ssa.Value {
	switch n := v.(type) {
	case *ssa.UnOp:
		if n.Op == token.NOT {
			return append(compared(n.X), n.X)
		}
	case *ssa.BinOp:
		return []ssa.Value{n.X, n.Y}
	}
	return nil
}

func (p *prog) fieldKey(a ssa.Value) string {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	base := fa.X
	for {
		if f, ok := base.(*ssa.FieldAddr); ok {
			base = f.X
			continue
		}
		break
	}
	switch base.(type) {
	case *ssa.Parameter, *ssa.UnOp, *ssa.FreeVar, *ssa.Phi:
	default:
		return ""
	}
	if !small(fieldVar(fa).Type()) {
		return ""
	}
	k := ownerOf(fa.X.Type()) + "." + fieldVar(fa).Name()
	if p.skip[k] || p.written != nil && !p.written[k] {
		return ""
	}
	return k
}

// wide lists the fields that are compared with many constants.
func (p *prog) wide(pkg string) []string {
	seen := map[string]map[string]bool{}
	for _, f := range p.w.moduleFuncs() {
		if fnPkgPath(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n, ok := in.(*ssa.BinOp)
				if !ok || n.Op != token.EQL && n.Op != token.NEQ {
					continue
				}
				for _, q := range [][2]ssa.Value{{n.X, n.Y}, {n.Y, n.X}} {
					ld, ok := q[0].(*ssa.UnOp)
					k, isConst := q[1].(*ssa.Const)
					if !ok || !isConst || ld.Op != token.MUL {
						continue
					}
					if key := p.fieldKey(ld.X); key != "" {
						if seen[key] == nil {
							seen[key] = map[string]bool{}
						}
						seen[key][k.String()] = true
					}
				}
			}
		}
	}
	var res []string
	for _, k := range sortedKeys(seen) {
		if len(seen[k]) > 4 {
			res = append(res, k)
		}
	}
	return res
}

func ownerOf(t types.Type) string {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	return shortPkg(typeKey(t))
}

func (p *prog) cell(s *pstate, v ssa.Value) string {
	switch n := v.(type) {
	case *ssa.Const:
		if n.Value == nil {
			switch n.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
				return "nil"
			}
			return ""
		}
		return "c:" + n.Value.ExactString()
	case *ssa.Function, *ssa.Global:
		return "n"
	}
	return s.resolve(s.env[envKey{v, 0}])
}

func (p *prog) set(s *pstate, v ssa.Value, c string) {
	if c == "" && small(v.Type()) {
		c = s.fresh()
	}
	s.env[envKey{v, 0}] = c
}

type pout struct {
	st *pstate
	w  int
}

// run explores a function from an entry state and returns its exits.
func (p *prog) run(f *ssa.Function, key string, entry *pstate) *psum {
	sum := p.memo[key]
	if sum == nil {
		sum = &psum{f: f, exits: map[string]*pexit{}, rec: map[string]*prec{}, round: -1}
		p.memo[key] = sum
	}
	if p.open[key] || sum.round == p.round {
		return sum
	}
	p.open[key] = true
	p.depth++
	if p.depth > 60 {
		panic(budgetError{"the recursion is too deep"})
	}
	defer func() { p.depth--; delete(p.open, key) }()
	nodes := map[string]*pnode{}
	var all []*pnode
	var work []*pnode
	at := func(b *ssa.BasicBlock, s *pstate) *pnode {
		k := strconv.Itoa(b.Index) + "#" + p.canon(f, s, p.liveOf(f)[b], nil)
		if n := nodes[k]; n != nil {
			return n
		}
		n := &pnode{b: b, st: s, dist: int(inf)}
		nodes[k] = n
		all = append(all, n)
		work = append(work, n)
		if p.nodes++; p.nodes > p.limit {
			if os.Getenv("VERIF_LOOPS") == "2" {
				for k := range nodes {
					fmt.Println("NODE", f, k)
				}
			}
			panic(budgetError{"too many states"})
		}
		return n
	}
	type exitAt struct {
		n   *pnode
		st  *pstate
		res []string
		w   int
	}
	var exits []exitAt
	first := at(f.Blocks[0], entry.clone())
	first.dist = 0
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		outs := []pout{{n.st.clone(), 0}}
		for j, in := range n.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			switch t := in.(type) {
			case *ssa.Return:
				for _, o := range outs {
					var res []string
					for _, v := range t.Results {
						res = append(res, p.cell(o.st, v))
					}
					exits = append(exits, exitAt{n, o.st, res, o.w})
				}
				outs = nil
			case *ssa.Panic:
				outs = nil
			case *ssa.Jump:
				for _, o := range outs {
					n.edges = append(n.edges, pedge{at(n.b.Succs[0], p.enter(o.st, n.b, n.b.Succs[0])), o.w})
				}
				outs = nil
			case *ssa.If:
				for _, o := range outs {
					for i, want := range []bool{true, false} {
						s := o.st.clone()
						if p.branch(s, t.Cond, want) {
							n.edges = append(n.edges, pedge{at(n.b.Succs[i], p.enter(s, n.b, n.b.Succs[i])), o.w})
						}
					}
				}
				outs = nil
			default:
				var next []pout
				for _, o := range outs {
					next = append(next, p.instr(n, o, in)...)
				}
				outs = next
				if _, call := in.(*ssa.Call); call && len(next) > 1 {
					// the same state is only followed once
					outs = p.merge(f, n.b, j, next)
				}
			}
			if len(outs) == 0 {
				break
			}
		}
	}
	// shortest distances
	for i := 0; ; i++ {
		again := false
		for _, n := range all {
			if n.dist == int(inf) {
				continue
			}
			for _, e := range n.edges {
				if d := n.dist + e.w; d < e.to.dist {
					e.to.dist = d
					again = true
				}
			}
		}
		if !again {
			break
		}
		if i > len(all)+2 {
			sum.neg = true
			break
		}
	}
	fresh := map[string]*pexit{}
	for _, e := range exits {
		w := e.n.dist + e.w
		if sum.neg {
			w = -1000
		}
		k := p.canon(nil, e.st, nil, e.res)
		if o := fresh[k]; o == nil || w < o.w {
			fresh[k] = &pexit{e.st, e.res, max(w, -1000)}
		}
	}
	for k, e := range fresh {
		if o := sum.exits[k]; o == nil || o.w > e.w {
			if o != nil {
				e.w = max(e.w, -1000)
			}
			sum.exits[k] = e
			p.changed = true
		}
	}
	sum.rec = map[string]*prec{}
	for _, n := range all {
		for _, c := range n.calls {
			w := n.dist + c.w
			if sum.neg {
				w = -1000
			}
			if o := sum.rec[c.key]; o == nil || w < o.w {
				sum.rec[c.key] = &prec{w, c.site, f}
			}
		}
	}
	for _, l := range p.lc.x.loopsOf(f) {
		if p.loops[l.header] == nil {
			continue
		}
		p.seen[l.header] = true
		if p.bad[l.header] == "" {
			p.bad[l.header] = p.cycle(l, all)
		}
	}
	if os.Getenv("VERIF_LOOPS") == "2" {
		fmt.Println(p.round, f, len(all), len(sum.exits), key)
	}
	sum.round = p.round
	return sum
}

// merge keeps one of the states that only differ in what is not used any more.
func (p *prog) merge(f *ssa.Function, b *ssa.BasicBlock, at int, outs []pout) []pout {
	k := liveKey{b, at}
	live, ok := p.liveAt[k]
	if !ok {
		live = p.liveIn(f, b, at+1)
		p.liveAt[k] = live
	}
	idx := map[string]int{}
	var res []pout
	for _, o := range outs {
		key := p.canon(f, o.st, live, nil)
		if i, ok := idx[key]; ok {
			res[i].w = min(res[i].w, o.w)
			continue
		}
		idx[key] = len(res)
		res = append(res, o)
	}
	return res
}

type liveKey struct {
	b  *ssa.BasicBlock
	at int
}

// cycle looks for a cycle through the header of a loop that does not consume.
func (p *prog) cycle(l *loopInfo, all []*pnode) string {
	var in []*pnode
	for _, n := range all {
		if l.blocks[n.b] {
			in = append(in, n)
		}
	}
	scale := len(in) + 2
	dist := map[*pnode]int{}
	from := map[*pnode]*pnode{}
	var last *pnode
	for i := 0; i <= len(in)+1; i++ {
		last = nil
		for _, n := range in {
			for _, e := range n.edges {
				if !l.blocks[e.to.b] {
					continue
				}
				w := e.w * scale
				if e.to.b == l.header {
					w--
				}
				if d := dist[n] + w; d < dist[e.to] {
					dist[e.to] = d
					from[e.to] = n
					last = e.to
				}
			}
		}
		if last == nil {
			return ""
		}
	}
	// walk back to a node of the cycle
	for i := 0; i < len(in) && from[last] != nil; i++ {
		last = from[last]
	}
	var lines []string
	seen := map[string]bool{}
	for n, i := last, 0; n != nil && i < len(in)+1; i++ {
		for _, instr := range n.b.Instrs {
			if _, phi := instr.(*ssa.Phi); !phi && instr.Pos().IsValid() {
				ps := p.w.pos(instr.Pos())
				_, line, _ := strings.Cut(ps, ":")
				if !seen[line] {
					seen[line] = true
					lines = append(lines, line)
				}
				break
			}
		}
		if n = from[n]; n == last {
			break
		}
	}
	sort.Slice(lines, func(i, j int) bool {
		a, _ := strconv.Atoi(lines[i])
		b, _ := strconv.Atoi(lines[j])
		return a < b
	})
	return "a pass through the lines " + strings.Join(lines, ", ") + " can be repeated without consuming input"
}

// enter evaluates the phis of a block.
func (p *prog) enter(s *pstate, from, to *ssa.BasicBlock) *pstate {
	s = s.clone()
	idx := -1
	for i, q := range to.Preds {
		if q == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]string{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = p.cell(s, phi.Edges[idx])
	}
	for phi, c := range vals {
		s.env[envKey{phi, 0}] = c
	}
	return s
}

// branch restricts a state to one outcome of a condition.
func (p *prog) branch(s *pstate, cond ssa.Value, want bool) bool {
	if c := p.cell(s, cond); c != "" {
		k := "c:true"
		if !want {
			k = "c:false"
		}
		if c == "c:true" || c == "c:false" {
			return c == k
		}
		if _, ok := symNo(c); ok {
			if !s.assume(c, k, true) {
				return false
			}
		}
	}
	switch n := cond.(type) {
	case *ssa.UnOp:
		if n.Op == token.NOT {
			return p.branch(s, n.X, !want)
		}
	case *ssa.BinOp:
		a, b := p.cell(s, n.X), p.cell(s, n.Y)
		switch n.Op {
		case token.EQL, token.NEQ:
			eq := (n.Op == token.EQL) == want
			if _, ok := symNo(b); !ok && b != "" {
				if !s.assume(a, b, eq) {
					return false
				}
			} else if _, ok := symNo(a); !ok && a != "" {
				if !s.assume(b, a, eq) {
					return false
				}
			} else if a == b && a != "" && !eq {
				return false
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x, okx := intCell(a)
			y, oky := intCell(b)
			if okx && oky {
				r := false
				switch n.Op {
				case token.LSS:
					r = x < y
				case token.LEQ:
					r = x <= y
				case token.GTR:
					r = x > y
				case token.GEQ:
					r = x >= y
				}
				if r != want {
					return false
				}
			}
		}
		// The position of a cursor is compared with the end of the input.
		for side, v := range []ssa.Value{n.X, n.Y} {
			f := p.cursor(v)
			if f == "" || !p.counter[f] {
				continue
			}
			op := n.Op
			if side == 1 {
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
			}
			switch op {
			case token.LSS, token.LEQ, token.NEQ:
				if want {
					s.mem["more "+f] = "c:true"
				}
			case token.GTR, token.GEQ, token.EQL:
				if !want {
					s.mem["more "+f] = "c:true"
				}
			}
		}
	}
	return true
}

func intCell(c string) (int64, bool) {
	if !strings.HasPrefix(c, "c:") {
		return 0, false
	}
	n, err := strconv.ParseInt(c[2:], 10, 64)
	return n, err == nil
}

// cursor is the field that a value was loaded from, perhaps plus a constant.
func (p *prog) cursor(v ssa.Value) string {
	switch n := v.(type) {
	case *ssa.UnOp:
		if n.Op == token.MUL && intType(n.Type()) {
			return p.fieldKey(n.X)
		}
	case *ssa.BinOp:
		if k, ok := n.Y.(*ssa.Const); ok && n.Op == token.ADD && k.Int64() >= 0 {
			return p.cursor(n.X)
		}
	}
	return ""
}

// counters finds the fields that are compared with the length of an input.
func (p *prog) counters() {
	isLen := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok {
			b, ok := c.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len"
		}
		return false
	}
	written := map[string]bool{}
	for _, f := range p.w.moduleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					written[p.fieldKey(s.Addr)] = true
				}
			}
		}
	}
	p.written = written
	for _, f := range p.w.moduleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.BinOp); ok {
					if isLen(n.Y) {
						p.counter[p.cursor(n.X)] = true
					}
					if isLen(n.X) {
						p.counter[p.cursor(n.Y)] = true
					}
				}
			}
		}
	}
	delete(p.counter, "")
}

func (p *prog) instr(n *pnode, o pout, in ssa.Instruction) []pout {
	s := o.st
	one := func() []pout { return []pout{o} }
	switch t := in.(type) {
	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			if g, ok := t.X.(*ssa.Global); ok {
				if types.Identical(t.Type(), types.Universe.Lookup("error").Type()) && (g.Pkg == nil || !inModule(g.Pkg.Pkg.Path()) || p.w.unchangedGlobal(g)) {
					s.env[envKey{t, 0}] = "g:" + g.String()
					return one()
				}
				c := ""
				if small(t.Type()) && p.w.unchangedGlobal(g) {
					c = p.initial(g)
				}
				p.set(s, t, c)
				return one()
			}
			if al, ok := t.X.(*ssa.Alloc); ok && p.local(al) {
				p.set(s, t, s.resolve(s.env[envKey{al, 99}]))
				return one()
			}
			if k := p.fieldKey(t.X); k != "" {
				c := s.mem[k]
				if c == "" {
					c = s.fresh()
					s.mem[k] = c
				}
				s.env[envKey{t, 0}] = s.resolve(c)
				return one()
			}
			p.set(s, t, "")
		case token.NOT:
			switch p.cell(s, t.X) {
			case "c:true":
				s.env[envKey{t, 0}] = "c:false"
			case "c:false":
				s.env[envKey{t, 0}] = "c:true"
			default:
				s.env[envKey{t, 0}] = ""
			}
		}
	case *ssa.BinOp:
		// decided where it is used, because the branch restricts the operands
		s.env[envKey{t, 0}] = ""
		if t.Op == token.EQL || t.Op == token.NEQ {
			can := func(eq bool) bool {
				c := s.clone()
				return p.branch(c, t, eq == (t.Op == token.EQL))
			}
			if y, n := can(true), can(false); y != n {
				s.env[envKey{t, 0}] = "c:" + strconv.FormatBool(y == (t.Op == token.EQL))
			}
		} else if small(t.Type()) && !strings.Contains("< <= > >=", t.Op.String()) {
			p.set(s, t, "")
		}
	case *ssa.Store:
		k := p.fieldKey(t.Addr)
		if k == "" {
			if al, ok := t.Addr.(*ssa.Alloc); ok && p.local(al) {
				c := p.cell(s, t.Val)
				if c == "" {
					c = s.fresh()
				}
				s.env[envKey{al, 99}] = c
			}
			return one()
		}
		if p.counter[k] {
			if b, ok := t.Val.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && p.cursor(b.X) == k {
				if c, ok := b.Y.(*ssa.Const); ok {
					d := int(c.Int64())
					if b.Op == token.SUB {
						d = -d
					}
					if d > 0 {
						if s.mem["more "+k] == "c:true" {
							o.w++
						}
						delete(s.mem, "more "+k)
					} else {
						o.w += d
					}
					s.mem[k] = ""
					return one()
				}
			}
			o.w -= 1000
		}
		c := p.cell(s, t.Val)
		if c == "" {
			c = s.fresh()
		}
		s.mem[k] = c
	case *ssa.Alloc:
		if st, ok := t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			pre := ownerOf(t.Type()) + "."
			for k := range s.mem {
				if strings.HasPrefix(k, pre) || strings.HasPrefix(k, "more "+pre) {
					delete(s.mem, k)
				}
			}
		}
		s.env[envKey{t, 0}] = "n"
		if p.local(t) {
			switch u := t.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Interface:
				s.env[envKey{t, 99}] = "nil"
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					s.env[envKey{t, 99}] = "c:false"
				} else {
					s.env[envKey{t, 99}] = "c:0"
				}
			}
		}
	case *ssa.RunDefers:
		// What deferred function literals store is not known.
		for _, b := range t.Parent().Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				g := d.Call.StaticCallee()
				if g == nil || !inModule(fnPkgPath(g)) {
					continue
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if k := p.fieldKey(st.Addr); k != "" {
								delete(s.mem, k)
							}
						}
					}
				}
			}
		}
	case *ssa.MakeInterface:
		c := p.cell(s, t.X)
		if !strings.HasPrefix(c, "g:") {
			c = "n"
		}
		s.env[envKey{t, 0}] = c
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
		s.env[envKey{in.(ssa.Value), 0}] = "n"
	case *ssa.ChangeType:
		s.env[envKey{t, 0}] = p.cell(s, t.X)
	case *ssa.ChangeInterface:
		s.env[envKey{t, 0}] = p.cell(s, t.X)
	case *ssa.Convert:
		if intType(t.Type()) && intType(t.X.Type()) {
			s.env[envKey{t, 0}] = p.cell(s, t.X)
		} else {
			p.set(s, t, "")
		}
	case *ssa.Extract:
		if c, ok := s.env[envKey{t.Tuple, t.Index + 1}]; ok {
			p.set(s, t, s.resolve(c))
		} else {
			p.set(s, t, "")
		}
	case *ssa.Call:
		return p.call(n, o, t)
	default:
		if v, ok := in.(ssa.Value); ok {
			if _, tuple := v.Type().(*types.Tuple); !tuple {
				p.set(s, v, "")
			}
		}
	}
	return one()
}

// initial is the constant that a package variable is initialised with.
func (p *prog) initial(g *ssa.Global) string {
	res := ""
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		return ""
	}
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				if k, ok := s.Val.(*ssa.Const); !ok || k.Value == nil || res != "" {
					return ""
				} else {
					res = "c:" + k.Value.ExactString()
				}
			}
		}
	}
	return res
}

// local reports whether a variable of a function is only changed by its own stores.
func (p *prog) local(a *ssa.Alloc) bool {
	if !small(a.Type().Underlying().(*types.Pointer).Elem()) {
		return false
	}
	if r, ok := p.locals[a]; ok {
		return r
	}
	res := true
	for _, r := range *a.Referrers() {
		switch n := r.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Store:
			res = res && n.Val != ssa.Value(a)
		case *ssa.MakeClosure:
			g := n.Fn.(*ssa.Function)
			for i, b := range n.Bindings {
				if b != ssa.Value(a) {
					continue
				}
				for _, r := range *g.FreeVars[i].Referrers() {
					if ld, ok := r.(*ssa.UnOp); !ok || ld.Op != token.MUL {
						if _, dbg := r.(*ssa.DebugRef); !dbg {
							res = false
						}
					}
				}
			}
		default:
			res = false
		}
	}
	p.locals[a] = res
	return res
}

// result stores the results of a call.
func (p *prog) result(s *pstate, c *ssa.Call, res []string) {
	if t, ok := c.Type().(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			r := ""
			if i < len(res) {
				r = res[i]
			}
			if r == "" && small(t.At(i).Type()) {
				r = s.fresh()
			}
			s.env[envKey{c, i + 1}] = r
		}
		return
	}
	r := ""
	if len(res) > 0 {
		r = res[0]
	}
	p.set(s, c, r)
}

var progReads = map[string]bool{
	"ReadRune": true, "ReadByte": true, "ReadString": true, "ReadBytes": true, "ReadLine": true, "ReadSlice": true, "Scan": true,
	"Token": true, "Decode": true,
}

func (p *prog) call(n *pnode, o pout, c *ssa.Call) []pout {
	s := o.st
	cc := c.Common()
	name, recv := "", ""
	g := cc.StaticCallee()
	switch {
	case cc.IsInvoke():
		name, recv = cc.Method.Name(), ownerOf(cc.Value.Type())
		if inModule(pkgPathOf(cc.Value.Type())) {
			name = ""
		}
	case g != nil && !inModule(fnPkgPath(g)):
		if g.Signature.Recv() != nil {
			name, recv = g.Name(), ownerOf(g.Signature.Recv().Type())
		}
	}
	sig := cc.Signature()
	if name != "" && progReads[name] && sig.Results().Len() > 0 {
		lastT := sig.Results().At(sig.Results().Len() - 1).Type()
		isBool := types.Identical(lastT.Underlying(), types.Typ[types.Bool])
		isErr := types.Identical(lastT, types.Universe.Lookup("error").Type())
		if isBool || isErr {
			var outs []pout
			k := sig.Results().Len()
			if s.mem["end "+recv] == "" {
				a := s.clone()
				res := make([]string, k)
				res[k-1] = "nil"
				if isBool {
					res[k-1] = "c:true"
				}
				p.result(a, c, res)
				outs = append(outs, pout{a, o.w + 1})
			}
			a := s.clone()
			a.mem["end "+recv] = "c:true"
			res := make([]string, k)
			res[k-1] = "n"
			if isBool {
				res[k-1] = "c:false"
			} else if name == "ReadRune" || name == "ReadByte" {
				res[0] = "c:0"
			}
			p.result(a, c, res)
			return append(outs, pout{a, o.w})
		}
	}
	if (name == "UnreadRune" || name == "UnreadByte") && s.mem["end "+recv] == "" {
		p.result(s, c, nil)
		return []pout{{s, o.w - 1}}
	}
	if name == "Seek" || name == "Reset" || name == "Discard" {
		// Another position: the input may start again.
		delete(s.mem, "end "+recv)
		p.result(s, c, nil)
		w := o.w
		if name != "Discard" && recv != "bytes.Buffer" && recv != "strings.Builder" {
			w -= 1000
		}
		return []pout{{s, w}}
	}
	if g == nil || len(g.Blocks) == 0 || !inModule(fnPkgPath(g)) {
		if g != nil {
			switch fnName(g) {
			case "errors.New", "fmt.Errorf":
				p.result(s, c, []string{"n"})
				return []pout{o}
			case "os.Exit", "log.Fatal", "log.Fatalf":
				return nil
			case "errors.Is":
				a, b := p.cell(s, cc.Args[0]), p.cell(s, cc.Args[1])
				if strings.HasPrefix(b, "g:") {
					if a == b {
						p.result(s, c, []string{"c:true"})
						return []pout{o}
					}
					if a == "nil" || strings.HasPrefix(a, "g:") {
						p.result(s, c, []string{"c:false"})
						return []pout{o}
					}
				}
			}
		}
		p.result(s, c, nil)
		return []pout{o}
	}
	if !p.matters(g) {
		if len(p.lc.x.loopsOf(g)) > 0 || len(g.Blocks) > 40 {
			p.result(s, c, nil)
			return []pout{o}
		}
	}
	// A function of the module: its exits
	entry := &pstate{env: map[envKey]string{}, mem: map[string]string{}, ex: map[int]string{}}
	back := []string{}
	in := map[string]string{}
	name2 := func(cell string) string {
		cell = s.resolve(cell)
		num, ok := symNo(cell)
		if !ok {
			return cell
		}
		if r, ok := in[cell]; ok {
			return r
		}
		r := "s" + strconv.Itoa(len(back))
		in[cell] = r
		if e := s.ex[num]; e != "" {
			entry.ex[len(back)] = e
		}
		back = append(back, cell)
		return r
	}
	var key strings.Builder
	key.WriteString(g.String() + "#" + strconv.Itoa(len(g.Params)))
	for i, q := range g.Params {
		if i >= len(cc.Args) {
			break
		}
		cell := p.cell(s, cc.Args[i])
		if strings.HasPrefix(cell, "c:") && !small(q.Type()) {
			cell = ""
		}
		if cell == "n" && !small(q.Type()) {
			cell = ""
		}
		r := name2(cell)
		entry.env[envKey{q, 0}] = r
		key.WriteString("," + r)
	}
	for _, m := range sortedKeys(s.mem) {
		if s.mem[m] == "" {
			continue
		}
		r := name2(s.mem[m])
		entry.mem[m] = r
		key.WriteString(";" + m + "=" + r)
	}
	entry.ent, entry.next = len(back), len(back)
	for i := range back {
		if e := entry.ex[i]; e != "" {
			fmt.Fprintf(&key, ";x%d:%q", i, e)
		}
	}
	k := key.String()
	n.calls = append(n.calls, pcall{k, o.w, c})
	sum := p.run(g, k, entry)
	var outs []pout
	for _, ek := range sortedKeys(sum.exits) {
		e := sum.exits[ek]
		a := s.clone()
		newSym := map[string]string{}
		okExit := true
		for i := 0; i < len(back); i++ {
			if b, ok := e.st.bind[i]; ok {
				if !a.assume(back[i], b, true) {
					okExit = false
				}
			}
		}
		if !okExit {
			continue
		}
		conv := func(cell string) string {
			num, ok := symNo(cell)
			if !ok {
				return cell
			}
			if num < len(back) {
				return a.resolve(back[num])
			}
			if r, ok := newSym[cell]; ok {
				return r
			}
			r := a.fresh()
			newSym[cell] = r
			if x := e.st.ex[num]; x != "" {
				rn, _ := symNo(r)
				a.ex[rn] = x
			}
			return r
		}
		for i := 0; i < len(back); i++ {
			if x := e.st.ex[i]; x != "" {
				if num, ok := symNo(a.resolve(back[i])); ok {
					a.ex[num] = x
				}
			}
		}
		a.mem = make(map[string]string, len(e.st.mem))
		for m, cell := range e.st.mem {
			a.mem[m] = conv(cell)
		}
		res := make([]string, len(e.res))
		for i, r := range e.res {
			res[i] = conv(r)
		}
		p.result(a, c, res)
		outs = append(outs, pout{a, o.w + e.w})
	}
	return outs
}

// matters reports whether a function may read, put back or change a field that is followed.
// matters reports whether a function, or one it calls, may consume input, change the state of a reader or call itself.
func (p *prog) matters(f *ssa.Function) bool {
	if r, ok := p.matter[f]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{f: true}
	list := []*ssa.Function{f}
	res := false
	for i := 0; i < len(list) && !res; i++ {
		g := list[i]
		res = p.lc.rec[g]
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch n := in.(type) {
				case *ssa.Store:
					res = res || p.fieldKey(n.Addr) != ""
				case *ssa.Call:
					cc := n.Common()
					name := ""
					if cc.IsInvoke() {
						name = cc.Method.Name()
					} else if h := cc.StaticCallee(); h != nil {
						if inModule(fnPkgPath(h)) {
							if !seen[h] {
								seen[h] = true
								list = append(list, h)
							}
							continue
						}
						if h.Signature.Recv() != nil {
							name = h.Name()
						}
					}
					res = res || progReads[name] || name == "UnreadRune" || name == "UnreadByte" || name == "Seek"
				}
			}
		}
	}
	p.matter[f] = res
	return res
}

func pkgPathOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// explore decides the loops of p.loops and the recursions of the roots.
func (p *prog) explore(roots []*ssa.Function) {
	p.counters()
	for _, f := range roots {
		entry := &pstate{env: map[envKey]string{}, mem: map[string]string{}, ex: map[int]string{}}
		for _, q := range f.Params {
			if small(q.Type()) {
				entry.env[envKey{q, 0}] = entry.fresh()
			}
		}
		entry.ent = entry.next
		key := f.String() + "#root"
		for p.round = 0; p.round < 30; p.round++ {
			p.changed = false
			p.bad = map[*ssa.BasicBlock]string{}
			p.total += p.nodes
			p.nodes = 0
			for _, s := range p.memo {
				s.round = -1
			}
			p.run(f, key, entry)
			if !p.changed {
				break
			}
		}
		if p.changed {
			panic(budgetError{"no fixed point"})
		}
		for b, m := range p.bad {
			if m != "" {
				p.badAll[b] = m
			}
		}
	}
	// recursions
	keys := sortedKeys(p.memo)
	idx := map[string]int{}
	for i, k := range keys {
		idx[k] = i
	}
	scale := len(keys) + 2
	dist := make([]int, len(keys))
	from := make([]int, len(keys))
	for i := 0; i <= len(keys)+1; i++ {
		last := -1
		for j, k := range keys {
			for _, c := range sortedKeys(p.memo[k].rec) {
				to, ok := idx[c]
				if !ok {
					continue
				}
				if d := dist[j] + p.memo[k].rec[c].w*scale - 1; d < dist[to] {
					dist[to] = d
					from[to] = j
					last = to
				}
			}
		}
		if last < 0 {
			return
		}
		if i == len(keys)+1 {
			for range keys {
				last = from[last]
			}
			for j := last; ; {
				f := p.memo[keys[j]].f
				p.badRec[f] = "the call can be repeated without consuming input"
				if j = from[j]; j == last {
					break
				}
			}
		}
	}
}
