package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id    string
	specs []string // folders of /verif/specs
	rule  string
	run   func(c *Ctx)
	min   map[string]int // least number of instances per kind, confirmed by hand
	note  []string       // assumptions
	raw   bool           // loops as they are written
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

type violation struct {
	key, where, msg string
}

// Ctx collects the obligations of one run.
type Ctx struct {
	chk          *Check
	w            *World
	tier         string
	seed         int
	repo         string
	verif        string
	viol         []violation
	counts       map[string]int
	samples      []string
	extra        map[string]any
	oblig        int
	done         int
	rels         int
	cfgName      string
	known        []knownFinding
	seenK        map[string]bool
	mode         string // what is compared: everything, or only panics
	accesses     int
	undecided    []string
	decided      map[string]int
	failed       map[string]bool
	decidedNames []string
	found        []violation
	equal        map[string]bool
	differ       map[string]bool
}

// ok records a discharged obligation. The construct names what was decided.
func (c *Ctx) ok(kind, construct string) {
	c.oblig++
	c.done++
	c.counts[kind]++
	if c.counts[kind] <= 4 {
		c.samples = append(c.samples, kind+": "+construct)
	}
}

// bad records a violated obligation. key identifies rule and construct independent of line numbers.
func (c *Ctx) bad(kind, key string, pos token.Pos, format string, args ...any) {
	c.oblig++
	c.counts[kind]++
	where := "-"
	if c.w != nil {
		where = c.w.pos(pos)
	}
	c.viol = append(c.viol, violation{kind + ":" + key, where, fmt.Sprintf(format, args...)})
}

type knownFinding struct{ prop, key, text string }

func readKnown(path string) []knownFinding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var res []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		res = append(res, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return res
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 3 || os.Args[1] != "check" {
		if len(os.Args) > 3 && os.Args[1] == "symbols" {
			if err := writeSymbols(os.Args[2], os.Args[3]); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			return
		}
		if len(os.Args) > 1 && os.Args[1] == "dump" {
			dump(os.Args[2:])
			return
		}
		if len(os.Args) > 4 && os.Args[1] == "part" {
			runPart(os.Args[2], os.Args[3], os.Getenv("VERIF_REPO"), os.Getenv("VERIF_DIR"), os.Args[4])
			return
		}
		fmt.Println("usage: verif check <id> [quick|thorough]")
		os.Exit(2)
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if out, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(out)
		}
	}
	id := os.Args[2]
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	repo, verif := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_DIR")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	chk := checks[id]
	if chk == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	c := &Ctx{chk: chk, tier: tier, seed: seed, repo: repo, verif: verif, counts: map[string]int{}, extra: map[string]any{}, seenK: map[string]bool{}}
	c.known = readKnown(filepath.Join(verif, "known_findings.txt"))
	configs := []string{"linux/amd64"}
	if tier == "thorough" {
		configs = []string{"linux/amd64", "linux/386", "windows/amd64", "darwin/arm64"}
	}
	for _, cfg := range configs {
		c.cfgName = cfg
		c.runConfig(cfg)
	}
	rc := c.finish(start, configs)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func (c *Ctx) runConfig(cfg string) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetError); ok {
				c.viol = append(c.viol, violation{"undecided", "-", "the analysis could not decide: " + b.msg})
				return
			}
			c.viol = append(c.viol, violation{"undecided", "-", fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack())})
		}
	}()
	overlay := map[string][]byte{}
	for _, s := range c.chk.specs {
		files, _ := filepath.Glob(filepath.Join(c.verif, "specs", s, "*.go"))
		if len(files) == 0 {
			panic(budgetError{"no specification " + s})
		}
		for _, f := range files {
			data, err := os.ReadFile(f)
			if err != nil {
				panic(budgetError{err.Error()})
			}
			first, _, _ := strings.Cut(string(data), "\n")
			pkg := strings.TrimSpace(strings.TrimPrefix(first, "//verif:package "))
			overlay[filepath.Join(c.repo, pkg, "zz_verif_"+s+"_"+filepath.Base(f))] = data
		}
	}
	if c.chk.raw {
		cfg += "+raw"
	}
	w, err := loadWorld(c.repo, overlay, cfg)
	symbolFile := filepath.Join(c.verif, "specs", "symbols.json")
	adaptable := len(overlay) > 0
	if err == nil && adaptable {
		names, err := newNaming(symbolFile, w.pkgs)
		if err != nil {
			panic(budgetError{err.Error()})
		}
		adaptable = names.changed()
	}
	if adaptable {
		adapted, names, err2 := adapt(c.repo, symbolFile, cfg, overlay)
		if err2 != nil {
			err = err2
		}
		if err2 == nil && names.changed() {
			if os.Getenv("VERIF_ADAPT") != "" {
				fmt.Printf("%q %q %v\n", names.funcs, names.meth, names.gone)
				for f, src := range adapted {
					if string(src) != string(overlay[f]) {
						fmt.Println(f + "\n" + string(src))
					}
				}
			}
			if w, err = loadWorld(c.repo, adapted, cfg); err == nil {
				w.names = names
			}
		}
	}
	if err != nil {
		c.viol = append(c.viol, violation{"load", "-", err.Error()})
		return
	}
	c.w = w
	before := map[string]int{}
	for k, v := range c.counts {
		before[k] = v
	}
	c.chk.run(c)
	for _, k := range sortedKeys(c.chk.min) {
		if n := c.counts[k] - before[k]; n < c.chk.min[k] {
			c.viol = append(c.viol, violation{"count:" + k, "-", fmt.Sprintf("only %d instances of %q were found, at least %d exist", n, k, c.chk.min[k])})
		}
	}
}

func (c *Ctx) finish(start time.Time, configs []string) int {
	id := c.chk.id
	var open []violation
	seen := map[string]bool{}
	for _, v := range c.viol {
		known := false
		for _, k := range c.known {
			if k.prop == id && k.key == v.key {
				known = true
				if !c.seenK[k.key] {
					c.seenK[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
		}
		if !known && !seen[v.key+v.where+v.msg] {
			seen[v.key+v.where+v.msg] = true
			open = append(open, v)
		}
	}
	ev := map[string]any{
		"property": id, "tier": c.tier, "seed": c.seed, "level": "other", "wall_s": time.Since(start).Seconds(), "violations": len(open),
		"assumptions": append([]string{"the Go type checker and the SSA construction of golang.org/x/tools are correct", "tables of the standard library's effects in tool/models.go"}, c.chk.note...),
	}
	cov := map[string]any{
		"explanation": c.chk.rule,
		"obligations": c.oblig,
		"discharged":  c.done,
		"instances":   c.counts,
		"samples":     c.samples,
		"configs":     configs,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev["coverage"] = cov
	dir := filepath.Join(c.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	replay := filepath.Join(dir, id+".violations.txt")
	_ = os.Remove(replay)
	ks := make([]string, 0, len(c.counts))
	for k := range c.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s: %d obligations, %d discharged", id, c.oblig, c.done)
	for _, k := range ks {
		fmt.Printf(", %s %d", k, c.counts[k])
	}
	fmt.Println()
	if len(open) == 0 {
		return 0
	}
	var sb strings.Builder
	for i, v := range open {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", v.key, v.where, v.msg)
		if i < 20 {
			fmt.Printf("%s\n  at %s\n  %s\n", v.key, v.where, v.msg)
		}
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

// fn finds a function ("F") or method ("T.M", value or pointer receiver) of a package of the module.
func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.ssap[pkg]
	if p == nil {
		return nil
	}
	if t, m, ok := strings.Cut(name, "."); ok {
		ty := p.Type(t)
		if ty == nil {
			return nil
		}
		return w.method(ty.Type(), m)
	}
	return p.Func(name)
}

func dump(args []string) {
	w, err := loadWorld("/repo", nil, "linux/amd64")
	if err != nil {
		fmt.Println(err)
		return
	}
	f := w.fn(args[0], args[1])
	if f == nil {
		fmt.Println("not found")
		return
	}
	f.WriteTo(os.Stdout)
	for _, a := range f.AnonFuncs {
		a.WriteTo(os.Stdout)
	}
}
