package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// apiEntries lists the exported functions and the exported methods of exported types of a package.
func (w *World) apiEntries(rel string) []*ssa.Function {
	p := w.ssap[rel]
	var res []*ssa.Function
	if p == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			res = append(res, f)
		}
	}
	for _, name := range sortedKeys(p.Members) {
		switch m := p.Members[name].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				add(m)
			}
		case *ssa.Type:
			n, ok := types.Unalias(m.Type()).(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Exported() {
					add(w.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	return res
}

// mutators: functions whose purpose is to fill an object of the caller, with the roots they may write.
var mutators = map[string][]string{
	"(*" + modPath + ".defaultPrinter).Init":                {"parameter 0"},
	modPath + "/catalog.ApplyPluralCategoriesToJSONMessage": {"parameter 1"},
	"(" + modPath + "/catalog.JSONEncoder).Encode":          {"parameter 0.w"},
	"(*" + modPath + "/catalog.JSONMessage).UnmarshalJSON":  {"parameter 0"},
	"(*" + modPath + "/catalog.jsonCatalog).UnmarshalJSON":  {"parameter 0"},
}

// paramAllowed: readers and writers are consumed.
func paramAllowed(f *ssa.Function, l aloc) bool {
	if l.b.kind != 'P' || l.b.n >= len(f.Params) {
		return false
	}
	switch typeKey(f.Params[l.b.n].Type()) {
	case "io.Reader", "io.Writer", "io.ReadSeeker", "io.StringWriter", "io.ByteWriter", "io.RuneScanner":
		return true
	}
	for _, p := range mutators[f.String()] {
		if strings.HasPrefix(l.String(), p) {
			return true
		}
	}
	return false
}

// printerSetup: a printer that is handed to a bundle is initialised by it.
func printerSetup(e effect) bool { return e.fn.Name() == "Init" && e.fn.Signature.Recv() != nil }

var sharedPkgs = []string{"", "catalog", "catalog/poplural", "catalog/cldrplural", "humanize", "localize", "catalog/poplural/ast", "catalog/cldrplural/ast"}

func (w *World) sharedRoots() []*ssa.Function {
	var roots []*ssa.Function
	for _, rel := range sharedPkgs {
		for _, f := range w.apiEntries(rel) {
			if r := f.Signature.Recv(); r != nil && strings.Contains(rel, "/ast") {
				continue // parsers and scanners work on their own state
			}
			roots = append(roots, f)
		}
	}
	for _, f := range w.apiEntries("catalog/po") {
		if f.Signature.Recv() == nil && f.Name() != "Marshal" && f.Name() != "DefaultSortFunction" {
			roots = append(roots, f)
		}
	}
	return roots
}

func init() {
	register(&Check{id: "C01", rule: "mod-ref analysis: the access paths from parameters, captured variables and package variables that every API function may write, computed bottom-up to a fixed point; every such write is a violation unless the function exists to fill that object",
		min:  map[string]int{"entry": 120},
		note: []string{"catalogues, loaders, printers, matchers and callbacks of the user are taken as safe for concurrent use"},
		run: func(c *Ctx) {
			roots := c.w.sharedRoots()
			e := newEffects(c.w)
			e.solve(roots)
			c.extra["functions analysed"] = len(e.order)
			for _, f := range roots {
				s := e.sum[f]
				var ls []aloc
				for l := range s.writes {
					ls = append(ls, l)
				}
				sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
				clean := true
				for _, l := range ls {
					ef := s.writes[l]
					if paramAllowed(f, l) || l.b.kind == 'K' && printerSetup(ef) || l.b.kind == 'P' && printerSetup(ef) && strings.HasPrefix(f.Name(), "New") {
						continue
					}
					clean = false
					c.bad("writes", shortFn(f)+": "+strings.ReplaceAll(l.String(), modPath, "spreak"), ef.pos, "%s writes memory that others can see (%s) by %s in %s", shortFn(f), strings.ReplaceAll(l.String(), modPath, "spreak"), ef.what, shortFn(ef.fn))
				}
				if clean {
					c.ok("entry", shortFn(f))
				}
			}
		}})
	register(&Check{id: "C02", rule: "escape analysis with access paths: what the results of an API function may share with its parameters, its receiver and package variables; sharing of mutable memory is a violation",
		min:  map[string]int{"result": 20},
		note: []string{"catalogues, loaders and decoders of the user return objects of their own"},
		run: func(c *Ctx) {
			roots := c.w.sharedRoots()
			e := newEffects(c.w)
			e.solve(roots)
			for _, f := range roots {
				rel := relPkg(fnPkgPath(f))
				if rel == "humanize" || rel == "localize" || strings.Contains(rel, "ast") || !isolated(f) {
					continue
				}
				s := e.sum[f]
				for i := 0; i < f.Signature.Results().Len(); i++ {
					t := f.Signature.Results().At(i).Type()
					if !handedOut(t) {
						continue
					}
					construct := shortFn(f) + " result " + strconv.Itoa(i)
					shared := ""
					if i < len(s.rets) {
						shared = strings.Join(s.sharing(s.rets[i]), ", ")
					}
					if shared != "" {
						c.bad("shared", construct, f.Pos(), "%s of %s shares memory with %s", "result "+strconv.Itoa(i), shortFn(f), strings.ReplaceAll(shared, modPath, "spreak"))
						continue
					}
					c.ok("result", construct)
				}
			}
		}})
}

func shortFn(f *ssa.Function) string { return strings.ReplaceAll(f.String(), modPath, "spreak") }

// isolated: results must not share memory. Localizers and bundles hold what they are made of, options hold their arguments.
func isolated(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if strings.HasSuffix(typeKey(f.Signature.Params().At(i).Type()), modPath+".Bundle") {
				return false
			}
		}
		switch f.Name() {
		case "NewBundle", "NewFilesystemLoader", "NewDefaultResolver", "NewJSONEncoder", "NewEncoder":
			return false
		}
	}
	return true
}

// handedOut: types whose values callers can change or that callers look into.
func handedOut(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		switch n.Obj().Name() {
		case "Catalog", "JSONCatalog":
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && (strings.HasPrefix(n.Obj().Name(), "Err") || n.Obj().Name() == "Error") {
			return false
		}
		_, isStruct := u.Elem().Underlying().(*types.Struct)
		return isStruct
	}
	return false
}

// sharing lists the memory that existed before the call and can be reached from the values.
func (s *effSummary) sharing(r aset) []string {
	var res []string
	seen := map[aloc]bool{}
	var visit func(l aloc)
	visit = func(l aloc) {
		if seen[l] {
			return
		}
		seen[l] = true
		switch l.b.kind {
		case 'C':
			return
		case 'A':
			for c, v := range s.cells {
				if c.b == l.b {
					for x := range v {
						visit(x)
					}
				}
			}
			return
		case 'G':
			if !inModule(globalPkg(l.b.v.(*ssa.Global))) {
				return
			}
		}
		if strings.HasSuffix(l.path, ".full→") {
			return // language tags are immutable
		}
		res = append(res, l.String())
	}
	for l := range r {
		visit(l)
	}
	sort.Strings(res)
	return res
}
