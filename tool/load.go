package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vorlif/spreak"

// World is the type-checked program of the repository under analysis.
type World struct {
	repo string
	fset *token.FileSet
	pkgs map[string]*packages.Package // module packages by path relative to the module ("" is the root)
	prog *ssa.Program
	ssap map[string]*ssa.Package
	all  map[string]*packages.Package

	constGlob map[*ssa.Global]bool
	globUses  map[*ssa.Global][]ssa.Instruction
	mfuncs    []*ssa.Function
	nnMaps    map[*types.TypeName]bool
	zfields   map[*types.Var]bool
	zmodel    map[string]*ssa.Function // models of library functions, written in Go ("sort.Search")
	names     *naming                  // names that are different from those in the specifications
	synth     map[*ssa.BasicBlock]bool // blocks that were split from a loop header
}

func loadWorld(repo string, overlay map[string][]byte, config string) (*World, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir:        repo,
		Env:        loadEnv(strings.TrimSuffix(config, "+raw")),
		Fset:       fset,
		BuildFlags: []string{"-tags=timetzdata"},
		Overlay:    overlay,
		Tests:      false,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{repo: repo, fset: fset, pkgs: map[string]*packages.Package{}, ssap: map[string]*ssa.Package{}, all: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		w.all[p.PkgPath] = p
		if inModule(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range initial {
		rel := relPkg(p.PkgPath)
		w.pkgs[rel] = p
		sp := prog.Package(p.Types)
		w.ssap[rel] = sp
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "zmodel_") {
				if w.zmodel == nil {
					w.zmodel = map[string]*ssa.Function{}
				}
				w.zmodel[strings.Replace(strings.TrimPrefix(n, "zmodel_"), "_", ".", 1)] = f
			}
		}
	}
	// Bodies are built for the whole program, dependencies are only inlined when a check asks for it.
	prog.Build()
	for f := range ssautil.AllFunctions(prog) {
		if !strings.HasSuffix(config, "+raw") && (f.Pkg != nil || f.Origin() != nil) && (inModule(fnPkgPath(f)) || inlineExt(fnName(f), f)) {
			w.unrotate(f)
		}
	}
	return w, nil
}

func loadEnv(config string) []string {
	goos, goarch, _ := strings.Cut(config, "/")
	return append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOOS="+goos, "GOARCH="+goarch)
}

func inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func relPkg(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	pp := w.fset.Position(p)
	rel, err := filepath.Rel(w.repo, pp.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = pp.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pp.Line)
}

// method finds a method of the named type or of its pointer type.
func (w *World) method(t types.Type, name string) *ssa.Function {
	for _, ty := range []types.Type{types.NewPointer(t), t} {
		ms := w.prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := w.prog.MethodValue(ms.At(i)); f != nil {
					if o, ok := ms.At(i).Obj().(*types.Func); ok && f.Synthetic != "" {
						if d := w.prog.FuncValue(o); d != nil && len(ms.At(i).Index()) == 1 {
							return d
						}
					}
					return f
				}
			}
		}
	}
	return nil
}

// methodsOf lists the declared methods of a named type.
func (w *World) methodsOf(t types.Type) []*ssa.Function {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := w.prog.FuncValue(n.Method(i)); f != nil {
			res = append(res, f)
		}
	}
	return res
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Tuple:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	}
	return false
}
