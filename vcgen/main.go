package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(repo string) (*Ctx, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule
	cfg := &packages.Config{Mode: mode, Dir: repo, Env: append(os.Environ(), "CGO_ENABLED=0")}
	pats := []string{".", "./ast", "./stages", "./load", "./render", "./baselit", "./chroma", "./booklitcmd", "./cmd/booklit", "./errhtml", "./render/html", "./render/text"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	c := &Ctx{prog: prog, pkgs: pk, repo: repo, fnByName: map[string]*ssa.Function{}, pkgBy: map[string]*types.Package{},
		funcs: map[string]*SFunc{}, ghosts: map[string]types.Type{}, sorts: map[string]*specTy{}, contr: map[string]*Contract{},
		ifaceC: map[string][]*Contract{}, ftypeC: map[string]*Contract{}, lemmas: map[string]*Lemma{}, guards: map[string]string{}, lockInvs: map[string]*LockInvDecl{},
		heapSort: map[string]*Sort{}, clos: map[string]*CloDef{}, opts: map[string]string{}, constHeaps: map[string]bool{}, typed: map[string]types.Type{}, fieldInvs: map[string]*SFunc{}, fieldInvProps: map[string][]string{}, stable: map[string]string{}, globInit: map[string]*globInfo{}, appendHeaps: map[string]bool{}}
	for _, p := range ps {
		if p.Module != nil {
			c.modPath = p.Module.Path
		}
	}
	c.tm = NewTypeMap(c.modPath)
	// names of packages
	var mod, ext []*types.Package
	for _, p := range prog.AllPackages() {
		if c.tm.inModule(p.Pkg) {
			mod = append(mod, p.Pkg)
		}
	}
	seen := map[string]bool{}
	var visit func(p *packages.Package, depth int)
	visit = func(p *packages.Package, depth int) {
		if p.Types == nil || seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		ext = append(ext, p.Types)
		if depth > 1 {
			return
		}
		for _, i := range p.Imports {
			visit(i, depth+1)
		}
	}
	for _, p := range ps {
		visit(p, 0)
	}
	sort.Slice(mod, func(i, j int) bool { return mod[i].Path() < mod[j].Path() })
	count := map[string]int{}
	for _, p := range ext {
		if !c.tm.inModule(p) {
			count[p.Name()]++
		}
	}
	for _, p := range mod {
		if c.pkgBy[p.Name()] == nil {
			c.pkgBy[p.Name()] = p
		}
		c.pkgBy[pathName(p.Path())] = p
	}
	for _, p := range ext {
		c.pkgBy[pathName(p.Path())] = p
		if c.pkgBy[p.Name()] == nil && count[p.Name()] == 1 {
			c.pkgBy[p.Name()] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if c.inModule(fn) && fn.Blocks != nil && fn.Synthetic == "" {
			c.allFns = append(c.allFns, fn)
		}
		if fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Pkg == nil && fn.Object() == nil {
			continue
		}
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") {
			continue
		}
		c.fnByName[c.fnName(fn)] = fn
	}
	// package-level functions of external packages and all methods of module types
	for _, p := range ext {
		sp := prog.Package(p)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				if n := c.fnName(f); c.fnByName[n] == nil {
					c.fnByName[n] = f
				}
			}
		}
	}
	for _, p := range mod {
		sc := p.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			c.modTypes = append(c.modTypes, tn.Type())
			for _, ty := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				ms := prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						nm := c.fnName(f)
						if c.fnByName[nm] == nil {
							c.fnByName[nm] = f
						}
						if f.Blocks != nil {
							found := false
							for _, g := range c.allFns {
								if g == f {
									found = true
								}
							}
							if !found {
								c.allFns = append(c.allFns, f)
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(c.allFns, func(i, j int) bool { return c.fnName(c.allFns[i]) < c.fnName(c.allFns[j]) })
	c.prepass()
	return c, nil
}

// externFn finds an external function by package lookup.
func (c *Ctx) externFn(name string) *ssa.Function {
	if f := c.fnByName[name]; f != nil {
		return f
	}
	i := strings.Index(name, ".")
	if i < 0 {
		return nil
	}
	p := c.pkgBy[name[:i]]
	if p == nil {
		return nil
	}
	if o, ok := p.Scope().Lookup(name[i+1:]).(*types.Func); ok {
		return c.prog.FuncValue(o)
	}
	return nil
}

func (c *Ctx) resolveSpecs(dir string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	sf, err := parseSpecs(dir)
	if err != nil {
		return err
	}
	c.sf = sf
	for _, v := range sf.ValueMaps {
		t := c.resolveType(v, "valuemap")
		c.tm.valueMaps[typeKey(t)] = true
	}
	c.tm.collectBoxed(c.allFns)
	for _, s := range sf.Sorts {
		c.sorts[s] = &specTy{name: s, sort: SUn("spec." + s)}
	}
	for _, g := range sf.Ghosts {
		t := c.resolveType(g.Ty, "ghost "+g.Name)
		c.ghosts[g.Name] = t
		c.regHeap(g.Name, c.tm.Sort(t))
	}
	if c.ghosts["$once"] == nil {
		t := &specTy{name: "arr[int]bool", sort: SArray(SInt, SBool), key: tyInt, elem: tyBool}
		c.ghosts["$once"] = t
		c.regHeap("$once", t.sort)
	}
	// $held: the mutexes the current goroutine has locked
	if c.ghosts["$held"] == nil {
		c.ghosts["$held"] = &specTy{name: "arr[int]bool", sort: SArray(SInt, SBool), key: tyInt, elem: tyBool}
		c.regHeap("$held", SArray(SInt, SBool))
	}
	c.stable["$held"] = "C24"
	for _, b := range sf.Stable {
		h, _ := c.resolveHeap(b[0], "balanced")
		c.stable[h] = b[1]
	}
	for _, g := range sf.Guards {
		h, _ := c.resolveHeap(g[0], "guard")
		l, _ := c.resolveHeap(g[1], "guard")
		c.guards[h] = l
	}
	for i, l := range sf.LockInvs {
		h, _ := c.resolveHeap(l.Lock, "lockinv")
		c.lockInvs[h] = &sf.LockInvs[i]
	}
	for _, f := range sf.Typed {
		h, ty := c.resolveHeap(f, "typed")
		c.typed[h] = ty
	}
	for _, f := range sf.Immut {
		h, _ := c.resolveHeap(f, "immutable")
		c.constHeaps[h] = true
	}
	for _, f := range sf.Funcs {
		if c.funcs[f.Name] != nil {
			return fmt.Errorf("%s: %s declared twice", f.Pos, f.Name)
		}
		s := &SFunc{Name: f.Name, Decl: f, Fuel: f.Fuel}
		for _, p := range f.Params {
			s.Params = append(s.Params, c.resolveType(p.Ty, f.Pos))
		}
		s.Ret = c.resolveType(f.Ret, f.Pos)
		c.funcs[f.Name] = s
	}
	c.resolveFuncs()
	for _, f := range sf.FieldInvs {
		h, _ := c.resolveHeap(f[0], "fieldinv")
		p := c.funcs[f[1]]
		if p == nil || len(p.Formals) != 1 {
			return fmt.Errorf("fieldinv %s: no predicate %s on the value alone", f[0], f[1])
		}
		c.fieldInvs[h] = p
		c.fieldInvProps[h] = strings.Split(f[2], ",")
	}
	for i, l := range sf.Lemmas {
		lm := &Lemma{Decl: l, idx: i}
		for _, p := range l.Params {
			lm.Params = append(lm.Params, c.resolveType(p.Ty, l.Pos))
		}
		c.lemmas[l.Name] = lm
	}
	for _, k := range sf.Contracts {
		switch k.Kind {
		case "func", "extern":
			if c.contr[k.Name] != nil {
				return fmt.Errorf("%s: contract of %s given twice", k.Pos, k.Name)
			}
			c.contr[k.Name] = k
		case "iface":
			c.ifaceC[k.Name] = append(c.ifaceC[k.Name], k)
		case "functype":
			c.ftypeC[k.Name] = k
		}
	}
	c.prepareAuto()
	return nil
}

type Report struct {
	Property    string         `json:"property"`
	Tasks       []TaskReport   `json:"tasks"`
	Obligations []*OblReport   `json:"obligations"`
	Assumptions []string       `json:"assumptions"`
	Lemmas      []string       `json:"lemmas"`
	Axioms      []string       `json:"axioms"`
	Externs     []string       `json:"externs"`
	Missing     []string       `json:"missing"`
	Queries     int64          `json:"queries"`
	SolverSecs  float64        `json:"solver_secs"`
	Wall        float64        `json:"wall"`
	Error       string         `json:"error,omitempty"`
	Counts      map[string]int `json:"counts"`
	Backends    map[string]int `json:"backends"`
	Inlined     []string       `json:"inlined"`
}

type TaskReport struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Obls   int     `json:"obligations"`
	Failed int     `json:"failed"`
	Paths  int     `json:"paths"`
	Secs   float64 `json:"secs"`
}

type OblReport struct {
	Task    string   `json:"task"`
	Kind    string   `json:"kind"`
	Name    string   `json:"name"`
	Pos     string   `json:"pos"`
	Result  string   `json:"result"`
	Backend string   `json:"backend"`
	Secs    float64  `json:"secs"`
	Props   []string `json:"props,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	Model   string   `json:"model,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("spec", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	only := flag.String("func", "", "only contracts whose name contains this")
	out := flag.String("json", "", "write a report")
	verbose := flag.Bool("v", false, "print every obligation")
	models := flag.Bool("models", false, "ask for models of failed obligations")
	list := flag.Bool("list", false, "list functions")
	budget := flag.Int("budget", 0, "seconds after which no obligation is attempted any more")
	flag.Parse()
	if *budget > 0 {
		deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	}
	debug.SetGCPercent(400)
	start := time.Now()
	fail := func(err error) {
		if *out != "" {
			b, _ := json.MarshalIndent(&Report{Property: *prop, Error: err.Error()}, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		fmt.Fprintln(os.Stderr, "vcgen:", err)
		os.Exit(2)
	}
	rp, _ := filepath.Abs(*repo)
	c, err := load(rp)
	if err != nil {
		fail(err)
	}
	if err := c.resolveSpecs(*spec); err != nil {
		fail(err)
	}
	if *list {
		for _, f := range c.allFns {
			n := c.fnName(f)
			m := " "
			if c.contr[n] != nil {
				m = "*"
			}
			fmt.Println(m, n)
		}
		return
	}
	rep := c.verify(*prop, *only, *models)
	rep.Wall = time.Since(start).Seconds()
	bad := 0
	for _, o := range rep.Obligations {
		if o.Result != "proved" {
			bad++
		}
		if *verbose || o.Result != "proved" {
			fmt.Printf("%-8s %-8s %s | %s | %s (%s, %.2fs)\n", o.Result, o.Kind, o.Task, o.Name, o.Pos, o.Backend, o.Secs)
			if o.Result != "proved" && o.Detail != "" {
				fmt.Println("    " + strings.ReplaceAll(truncate(o.Detail, 1500), "\n", "\n    "))
			}
		}
	}
	if *verbose {
		for _, t := range rep.Tasks {
			fmt.Printf("task %-8s %s: %d obligations, %d paths, %.2fs\n", t.Kind, t.Name, t.Obls, t.Paths, t.Secs)
		}
		for _, a := range rep.Assumptions {
			fmt.Println("assume:", a)
		}
	}
	for _, m := range rep.Missing {
		fmt.Println("missing:", m)
	}
	fmt.Printf("%d tasks, %d obligations, %d not proved, %d queries, %.1fs solver, %.1fs\n", len(rep.Tasks), len(rep.Obligations), bad, rep.Queries, rep.SolverSecs, rep.Wall)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fail(err)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var logMu sync.Mutex
