package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// useInit evaluates the initialisation of a package abstractly. Package variables that nothing else writes
// have the resulting values in every later analysis of x.
func (x *Exec) useInit(pkg *ssa.Package) error {
	if x.initSt == nil {
		x.initSt = x.newState()
		x.initOk = map[string]bool{}
	}
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return nil
	}
	st := x.newState()
	st.nloop = 1000
	guard := x.ts.mk("global", pkg.Pkg.Path()+".init$guard", nil)
	_ = guard
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
			st.mem[x.val(nil, st, g)] = x.ts.boolT(false)
		}
	}
	saveI := x.initSt
	x.initSt = nil
	saveO := x.opaque
	x.opaque = map[string]string{}
	for k, v := range saveO {
		x.opaque[k] = v
	}
	for _, imp := range pkg.Pkg.Imports() {
		x.opaque[imp.Path()+".init"] = "pure"
	}
	np := x.npaths
	var rets []*Path
	var failed error
	func() {
		defer func() {
			if r := recover(); r != nil {
				b, ok := r.(budgetError)
				if !ok {
					panic(r)
				}
				failed = fmt.Errorf("%s", b.msg)
			}
		}()
		x.callFn(st, init, nil, nil, nil, func(*Path) {}, func(st *State, kind string, vals []*Term, pos token.Pos) {
			if kind == "return" {
				rets = append(rets, &Path{kind: kind, st: st})
			}
		})
	}()
	x.npaths = np
	x.initSt = saveI
	x.opaque = saveO
	if failed != nil {
		return failed
	}
	if len(rets) != 1 {
		return fmt.Errorf("%d paths through the initialisation of %s", len(rets), pkg.Pkg.Path())
	}
	end := rets[0].st
	for k, v := range end.mem {
		x.initSt.mem[k] = v
	}
	for k, v := range end.maps {
		x.initSt.maps[k] = v
	}
	for k, v := range end.lens {
		x.initSt.lens[k] = v
	}
	for k, v := range end.dirty {
		x.initSt.dirty[k] = v
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && x.w.unchangedGlobal(g) {
			x.initOk[g.String()] = true
		}
	}
	return nil
}

// unchangedGlobal reports whether a package variable is only written by the initialisation of its package
// and its contents are only read.
func (w *World) unchangedGlobal(g *ssa.Global) bool {
	if v, ok := w.constGlob[g]; ok {
		return v
	}
	if w.constGlob == nil {
		w.constGlob = map[*ssa.Global]bool{}
	}
	if w.globUses == nil {
		w.globUses = map[*ssa.Global][]ssa.Instruction{}
		for _, f := range w.moduleFuncs() {
			if strings.HasPrefix(f.Name(), "init") && f.Parent() == nil && f.Signature.Recv() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if gl, ok := (*op).(*ssa.Global); ok {
							w.globUses[gl] = append(w.globUses[gl], in)
						}
					}
				}
			}
		}
	}
	res := true
	for _, in := range w.globUses[g] {
		if !readOnlyUse(in, g, 0) {
			res = false
		}
	}
	w.constGlob[g] = res
	return res
}

// readOnlyUse reports whether an instruction only reads through the address or value v.
func readOnlyUse(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	follow := func(r ssa.Value) bool {
		if !pointerLike(r.Type()) {
			return true
		}
		for _, u := range *r.Referrers() {
			if !readOnlyUse(u, r, depth+1) {
				return false
			}
		}
		return true
	}
	switch i := in.(type) {
	case *ssa.DebugRef, *ssa.If, *ssa.BinOp, *ssa.Range, *ssa.Next, *ssa.Return:
		return true
	case *ssa.UnOp:
		return follow(i)
	case *ssa.FieldAddr:
		return follow(i)
	case *ssa.IndexAddr:
		return follow(i)
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.ChangeType, *ssa.Slice, *ssa.Phi, *ssa.MakeInterface:
		return follow(in.(ssa.Value))
	case *ssa.Store:
		return i.Addr != v && isImmutableRef(v)
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || (b.Name() == "append" && i.Call.Args[0] != v) || (b.Name() == "copy" && i.Call.Args[0] != v)
		}
		if f := i.Call.StaticCallee(); f != nil {
			return isPureExternal(fnName(f), f) || inModule(fnPkgPath(f)) || models[fnName(f)] != nil
		}
		return true
	}
	return false
}

func isImmutableRef(v ssa.Value) bool { return true }

// moduleFuncs lists all functions of the module, including function literals.
func (w *World) moduleFuncs() []*ssa.Function {
	if w.mfuncs != nil {
		return w.mfuncs
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		w.mfuncs = append(w.mfuncs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range sortedKeys(w.ssap) {
		sp := w.ssap[p]
		if sp == nil {
			continue
		}
		for _, n := range sortedKeys(sp.Members) {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, f := range w.methodsOf(m.Type()) {
					add(f)
				}
			}
		}
	}
	return w.mfuncs
}
