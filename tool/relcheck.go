package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// relSpec configures the comparison of functions with their reference definitions.
type relSpec struct {
	pureInvoke []string // methods of interfaces without observable effects ("pkg.Iface.Method")
	pureFnType []string // named function types whose calls have no observable effects
	opaque     map[string]string
	setup      map[string]func(x *Exec, st *State, args []*Term)
	ignore     func(*Event) bool
	ignoreHeap func(*Term) bool
	config     func(x *Exec)
	rel        func(name string, r *Rel)
	strict     bool
	inits      []string          // packages whose initialisation is evaluated
	eqOpaque   map[string]string // functions that are not analysed in equations
}

func (c *Ctx) specExec(cfg *relSpec, opaque map[string]string) *Exec {
	x := newExec(c.w)
	x.strict = cfg.strict
	for k, v := range opaque {
		if k = c.w.names.opaque(k); k != "" {
			x.opaque[k] = v
		}
	}
	x.pureInv = func(m *types.Func) bool {
		full := shortPkg(m.FullName())
		for _, s := range cfg.pureInvoke {
			if full == s || strings.HasPrefix(full, strings.TrimSuffix(s, "*")) && strings.HasSuffix(s, ".*") {
				return true
			}
		}
		return false
	}
	x.pureFn = func(t types.Type) bool {
		full := shortPkg(typeKey(types.Unalias(t)))
		if sig, ok := types.Unalias(t).(*types.Signature); ok {
			full = sigKey(sig)
		}
		for _, s := range cfg.pureFnType {
			if full == s {
				return true
			}
		}
		return false
	}
	for _, p := range cfg.inits {
		if sp := c.w.ssap[p]; sp != nil {
			if err := x.useInit(sp); err != nil {
				panic(budgetError{"the initialisation of " + p + ": " + err.Error()})
			}
		}
	}
	if cfg.config != nil {
		cfg.config(x)
	}
	return x
}

// compareSpecs compares every function zspec_T_M or zspec__F of the loaded packages with T.M or F,
// and the two sides zleft_E and zright_E of every equation.
func (c *Ctx) compareSpecs(cfg *relSpec) {
	w := c.w
	totalPaths, totalPairs := 0, 0
	funcs := map[string]bool{}
	var pkgs []string
	for p := range w.ssap {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		sp := w.ssap[p]
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			if strings.HasPrefix(n, "zspec_") || strings.HasPrefix(n, "zleft_") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			spec, ok := sp.Members[n].(*ssa.Function)
			if !ok {
				continue
			}
			var impl *ssa.Function
			kind, key, target := "function", "", ""
			opaque := cfg.opaque
			if e, ok := strings.CutPrefix(n, "zleft_"); ok {
				impl = spec
				spec, _ = sp.Members["zright_"+e].(*ssa.Function)
				if spec == nil {
					panic("no right side of " + n)
				}
				kind, key, target = "equation", p+"."+e, e
				opaque = cfg.eqOpaque
			} else {
				parts := strings.SplitN(strings.TrimPrefix(n, "zspec_"), "_", 2)
				target = parts[0] + "." + parts[1]
				if parts[0] == "" {
					target = parts[1]
				}
				key = p + "." + target
				now, direct := w.names.target(p, target)
				if !direct {
					// Compared as a part of its callers.
					c.ok(kind, key+": by its callers")
					continue
				}
				impl = w.fn(p, now)
				if impl == nil {
					c.bad("function", key, spec.Pos(), "%s does not exist", target)
					continue
				}
			}
			r := &Rel{ignore: cfg.ignore, ignoreHeap: cfg.ignoreHeap, maxDiffs: 3}
			if kind == "function" {
				for i := 1; ; i++ {
					alt := sp.Func(fmt.Sprintf("zalt%d_%s", i, strings.TrimPrefix(n, "zspec_")))
					if alt == nil {
						break
					}
					r.alts = append(r.alts, alt)
				}
			}
			c.relRun(r, kind, key, impl, spec, func() {
				r.x = c.specExec(cfg, opaque)
				if kind == "equation" {
					r.x.rec = 8
				}
				if f := cfg.setup[target]; f != nil {
					r.setup = f
				}
				if cfg.rel != nil {
					cfg.rel(target, r)
				}
			})
			totalPaths += r.implPaths
			totalPairs += r.pairs
			if r.x != nil {
				for f := range r.x.inlined {
					if !strings.HasPrefix(f.Name(), "zs") && !strings.HasPrefix(f.Name(), "zright_") {
						funcs[f.String()] = true
					}
				}
			}
			if c.mode == "" && len(r.diffs) == 0 {
				c.ok(kind, fmt.Sprintf("%s: %d paths, %d path pairs", key, r.implPaths, r.pairs))
			}
		}
	}
	c.addInt("paths", totalPaths)
	c.addInt("path_pairs_compared", totalPairs)
	c.addInt("functions_analysed", len(funcs))
}

func (c *Ctx) addInt(k string, n int) {
	v, _ := c.extra[k].(int)
	c.extra[k] = v + n
}

func (c *Ctx) relRun(r *Rel, kind, key string, impl, spec *ssa.Function, prepare func()) {
	if c.mode == "panics" {
		c.panicRun(r, kind, key, impl, spec, prepare)
		return
	}
	c.relEqual(r, key, impl, spec, prepare, false)
	if c.mode == "equal" {
		if len(r.diffs) > 0 {
			c.differ[impl.String()] = true
		} else {
			for f := range r.x.inlined {
				c.equal[f.String()] = true
			}
		}
		return
	}
	if kind == "function" && len(r.diffs) == 0 {
		c.panicsOf(r, key, impl, spec, prepare)
	}
	for _, d := range r.diffs {
		c.bad(kind, key, d.pos, "%s (in %s, when %s)", d.what, shortPkg(d.fn), d.cond)
	}
}

// relEqual compares a function with its definition. The remaining differences are in r.diffs.
// An operation that needs a value that is not nil is taken as a proof that it is not nil. With specFirst
// the definition is analysed first, so that such an assumption of the function cannot hide one of its cases.
func (c *Ctx) relEqual(r *Rel, key string, impl, spec *ssa.Function, prepare func(), specFirst bool) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(budgetError)
			if !ok {
				panic(e)
			}
			r.diffs = append(r.diffs, Diff{fn: key, pos: impl.Pos(), what: "undecided: " + b.msg})
		}
	}()
	// The first attempt is the one that is reported. The other ones decide the same with other case distinctions.
	prepare()
	a, b := impl, spec
	if specFirst {
		a, b = spec, impl
	}
	if err := r.attempt(a, b); err != nil {
		r.diffs = append(r.diffs, Diff{fn: key, pos: impl.Pos(), what: "undecided: " + err.msg})
	}
	diffs, first := r.diffs, r.x
	for n, def := range append([]*ssa.Function{spec}, r.alts...) {
		for i := 0; i < 5 && len(diffs) > 0; i++ {
			if n > 0 && i == 4 {
				continue
			}
			r.diffs, r.implPaths, r.pairs = nil, 0, 0
			prepare()
			r.x.splitEmpty, r.x.bytesAsText, r.x.splitCases, r.x.unfold = i == 1, i == 2, i > 0, i >= 3
			r.x.unfoldLoops = i == 4
			r.x.maxPaths, r.x.maxSteps = r.x.maxPaths/3, r.x.maxSteps/3
			a, b := def, impl
			if i > 0 && !specFirst {
				a, b = impl, def
			}
			if i > 0 && impl.Pkg != nil {
				_ = r.x.useInit(impl.Pkg)
			}
			if err := r.attempt(a, b); err == nil && len(r.diffs) == 0 {
				return
			} else if os.Getenv("VERIF_ATTEMPT") != "" {
				fmt.Println("attempt", n, i, err, r.diffs)
			}
		}
	}
	r.diffs, r.x = diffs, first
}

func (r *Rel) attempt(impl, spec *ssa.Function) (err *budgetError) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(budgetError)
			if !ok {
				panic(e)
			}
			err = &b
		}
	}()
	if pre := precondition(impl, spec); pre != nil && len(pre.Params) == len(impl.Params) {
		var args []*Term
		for _, p := range impl.Params {
			args = append(args, r.x.param(p.Name(), p.Type()))
		}
		for _, p := range r.x.run(r.x.newState(), pre, args, nil) {
			if p.kind != "return" || len(p.vals) != 1 {
				continue
			}
			if v := p.st.facts.simp(p.vals[0]); !p.st.facts.assume(v, true) {
				continue
			}
			base := r.x.newState()
			base.facts = p.st.facts
			r.compare(impl, spec, args, nil, nil, base)
		}
		return nil
	}
	r.compare(impl, spec, nil, nil, nil, nil)
	return nil
}

// precondition is the function that says for which arguments a function is specified.
func precondition(impl, spec *ssa.Function) *ssa.Function {
	for _, f := range []*ssa.Function{impl, spec} {
		if f.Pkg != nil && f.Parent() == nil && (strings.HasPrefix(f.Name(), "zspec_") || strings.HasPrefix(f.Name(), "zalt")) {
			_, name, _ := strings.Cut(f.Name(), "_")
			return f.Pkg.Func("zpre_" + name)
		}
	}
	return nil
}

// sigKey renders a function type without the names of parameters.
func sigKey(s *types.Signature) string {
	strip := func(t *types.Tuple) *types.Tuple {
		var v []*types.Var
		for i := 0; i < t.Len(); i++ {
			v = append(v, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(v...)
	}
	return shortPkg(typeKey(types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())))
}
