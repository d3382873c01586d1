package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// nonNilMaps finds the map types of the module into which only values are stored that are never nil.
// For such a map an element that is nil does not exist.
func (w *World) nonNilMaps() map[*types.TypeName]bool {
	if w.nnMaps != nil {
		return w.nnMaps
	}
	named := func(t types.Type) *types.TypeName {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
			return nil
		}
		if m, ok := n.Underlying().(*types.Map); !ok || !pointerLike(m.Elem()) {
			return nil
		}
		return n.Obj()
	}
	ok, bad := map[*types.TypeName]bool{}, map[*types.TypeName]bool{}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil && f.Origin() == nil || !inModule(fnPkgPath(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch n := in.(type) {
				case *ssa.MapUpdate:
					if t := named(n.Map.Type()); t != nil {
						if w.neverNil(n.Value, 0) {
							ok[t] = true
						} else {
							bad[t] = true
						}
					}
				case *ssa.ChangeType:
					if t := named(n.Type()); t != nil {
						if _, isMake := n.X.(*ssa.MakeMap); !isMake {
							bad[t] = true
						}
					}
					// the map is changed under another type
					if t := named(n.X.Type()); t != nil {
						bad[t] = true
					}
				case *ssa.MakeInterface:
					t := n.X.Type()
					if p, isPtr := t.Underlying().(*types.Pointer); isPtr {
						t = p.Elem()
					}
					if t := named(t); t != nil {
						bad[t] = true
					}
				}
			}
		}
	}
	w.nnMaps = map[*types.TypeName]bool{}
	for t := range ok {
		if !bad[t] {
			w.nnMaps[t] = true
		}
	}
	return w.nnMaps
}

// neverNil reports whether a value is an object that was just created.
func (w *World) neverNil(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch n := v.(type) {
	case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.MakeChan, *ssa.Function:
		return true
	case *ssa.ChangeType:
		return w.neverNil(n.X, d+1)
	case *ssa.Phi:
		for _, e := range n.Edges {
			if e != v && !w.neverNil(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := n.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || !inModule(fnPkgPath(f)) || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && !w.neverNil(r.Results[0], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (ts *Terms) elemNeverNil(m types.Type) bool {
	if m == nil || ts.nnMaps == nil {
		return false
	}
	n, ok := types.Unalias(m).(*types.Named)
	return ok && ts.nnMaps[n.Obj()]
}

// zeroFields finds the unexported fields of unexported struct types of the module that never get another value than the zero value.
func (w *World) zeroFields() map[*types.Var]bool {
	if w.zfields != nil {
		return w.zfields
	}
	bad := map[*types.Var]bool{}
	cand := map[*types.Var]bool{}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil && f.Origin() == nil || !inModule(fnPkgPath(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch n := in.(type) {
				case *ssa.FieldAddr:
					v := zeroFieldCandidate(n.X.Type(), n.Field)
					if v == nil {
						continue
					}
					cand[v] = true
					for _, r := range *n.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							c, isConst := u.Val.(*ssa.Const)
							if u.Addr != ssa.Value(n) || !isConst || !isZeroConst(c) {
								bad[v] = true
							}
						default:
							bad[v] = true
						}
					}
				case *ssa.ChangeType, *ssa.Convert:
					t := in.(ssa.Value).Type()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if s := structFields(t); s != nil {
						for i := 0; i < s.NumFields(); i++ {
							bad[s.Field(i)] = true
						}
					}
				}
			}
		}
	}
	w.zfields = map[*types.Var]bool{}
	for v := range cand {
		if !bad[v] {
			w.zfields[v] = true
		}
	}
	return w.zfields
}

func zeroFieldCandidate(ptr types.Type, i int) *types.Var {
	p, ok := ptr.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Exported() || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
		return nil
	}
	s := structFields(n)
	if s == nil || i >= s.NumFields() || s.Field(i).Exported() || s.Field(i).Embedded() {
		return nil
	}
	if _, basic := s.Field(i).Type().Underlying().(*types.Basic); !basic {
		return nil
	}
	return s.Field(i)
}

func isZeroConst(c *ssa.Const) bool {
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	}
	return constant.Sign(c.Value) == 0
}
