package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type globInfo struct {
	stores  int // outside of init
	escapes bool
	init    ssa.Value
	inits   int
}

// prepass finds global variables which never change after initialisation,
// and fields which are appended to in place.
func (c *Ctx) prepass() {
	var fns []*ssa.Function
	fns = append(fns, c.allFns...)
	for _, p := range c.pkgs {
		if p == nil {
			continue
		}
		if f := p.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Object() == nil {
						continue
					}
					v, ok := g.Object().(*types.Var)
					if !ok || !c.tm.inModule(v.Pkg()) {
						continue
					}
					n := "G." + v.Pkg().Name() + "." + v.Name()
					gi := c.globInit[n]
					if gi == nil {
						gi = &globInfo{}
						c.globInit[n] = gi
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							if isInit {
								gi.inits++
								gi.init = x.Val
							} else {
								gi.stores++
							}
							if x.Val == g {
								gi.escapes = true
							}
						} else {
							gi.escapes = true
						}
					case *ssa.UnOp:
						if x.Op != token.MUL || mapWritten(x) {
							gi.escapes = true
						}
					case *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// structs: fields may be written
						gi.escapes = true
					default:
						gi.escapes = true
					}
				}
			}
		}
	}
}

// mapWritten tells whether a value read from a global may be a map which is
// written to.
func mapWritten(x *ssa.UnOp) bool {
	if _, ok := x.Type().Underlying().(*types.Map); !ok {
		return false
	}
	for _, r := range *x.Referrers() {
		switch r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
		default:
			return true
		}
	}
	return false
}

// constGlobal is the value of a global variable which never changes.
func (c *Ctx) constGlobal(n string) (*Term, bool) {
	gi := c.globInit[n]
	s := c.hsort(n)
	if gi == nil || gi.stores > 0 || gi.escapes || gi.inits > 1 {
		return nil, false
	}
	if gi.inits == 0 {
		switch s.Kind {
		case "Bool":
			return tFalse, true
		case "Int":
			return tInt(0), true
		case "String":
			return tStr(""), true
		}
		return tVar("K."+n, s), true
	}
	switch v := gi.init.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return constTerm(v.Value, s), true
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			ok := true
			var ts []*Term
			for _, a := range v.Call.Args {
				k, isK := a.(*ssa.Const)
				if !isK || k.Value == nil {
					ok = false
					break
				}
				ts = append(ts, constTerm(k.Value, c.tm.Sort(k.Type())))
			}
			nm := c.fnName(f)
			if ok && strings.HasPrefix(nm, "regexp.") {
				return tApp("x."+nm, s, ts...), true
			}
		}
	}
	return tVar("K."+n, s), true
}

func (c *Ctx) globalFunc(n string) *ssa.Function {
	gi := c.globInit[n]
	if gi == nil || gi.stores > 0 || gi.escapes || gi.inits != 1 {
		return nil
	}
	f, _ := gi.init.(*ssa.Function)
	return f
}

// ---- lemmas applied automatically ----

type autoLemma struct {
	lm       *Lemma
	triggers [][]*Term // alternatives: each a list of patterns
	vars     []*Term
	stmt     *Term
}

func (c *Ctx) prepareAuto() {
	for _, l := range c.sf.Lemmas {
		lm := c.lemmas[l.Name]
		var trig []*Clause
		for _, cl := range l.Clauses {
			if cl.Kind == "trigger" {
				trig = append(trig, cl)
			}
		}
		if len(trig) == 0 {
			continue
		}
		mem := &Mem{heap: map[string]*Term{}, rec: func(n string, s *Sort) *Term { return tBVar("h."+n, s) }}
		ev := &SpecEval{c: c, vars: map[string]TV{}, mem: mem, pos: l.Pos}
		var as []TV
		a := &autoLemma{lm: lm}
		for i, p := range l.Params {
			tv := TV{T: tBVar("au."+p.Name, c.tm.Sort(lm.Params[i])), Ty: lm.Params[i]}
			ev.vars[p.Name] = tv
			as = append(as, tv)
		}
		a.stmt = c.lemmaTerm(lm, as, mem)
		for _, cl := range trig {
			ev.pos = cl.Pos
			var ps []*Term
			e := cl.E
			// a conjunction of terms is a multi-trigger: written a && b is not
			// possible for non-boolean terms, so a list literal is used
			if e.K == "list" {
				for _, x := range e.A {
					ps = append(ps, ev.eval(x).T)
				}
			} else {
				ps = append(ps, ev.eval(e).T)
			}
			a.triggers = append(a.triggers, ps)
		}
		c.autos = append(c.autos, a)
	}
}

// matchTerm matches a pattern, giving all the ways to do so.
func matchTerm(p, t *Term, m map[int]*Term) []map[int]*Term {
	if p.Op == "bvar" {
		if p.Sort != t.Sort {
			return nil
		}
		if o, ok := m[p.id]; ok {
			if o == t {
				return []map[int]*Term{m}
			}
			return nil
		}
		n := make(map[int]*Term, len(m)+1)
		for k, v := range m {
			n[k] = v
		}
		n[p.id] = t
		return []map[int]*Term{n}
	}
	if p == t {
		return []map[int]*Term{m}
	}
	if p.Op == "concat" && t.Op == "concat" && len(p.Args) == 2 && len(t.Args) > 2 {
		var out []map[int]*Term
		for i := 1; i < len(t.Args); i++ {
			for _, m1 := range matchTerm(p.Args[0], tConcatS(t.Sort, t.Args[:i]...), m) {
				out = append(out, matchTerm(p.Args[1], tConcatS(t.Sort, t.Args[i:]...), m1)...)
			}
		}
		return out
	}
	if p.Op != t.Op || p.Name != t.Name || p.Sort != t.Sort || p.Ctor != t.Ctor || p.Sel != t.Sel || len(p.Args) != len(t.Args) {
		return nil
	}
	ms := []map[int]*Term{m}
	for i := range p.Args {
		var next []map[int]*Term
		for _, m1 := range ms {
			next = append(next, matchTerm(p.Args[i], t.Args[i], m1)...)
		}
		if len(next) == 0 {
			return nil
		}
		ms = next
	}
	return ms
}

// autoInstances instantiates automatic lemmas (those before limit) by their
// triggers; seen holds the instances already made.
// The first pattern of lemmas marked seed is only matched against the given seeds.
func (c *Ctx) autoInstances(ts, seeds []*Term, limit int, seen map[int]bool) []*Term {
	if len(c.autos) == 0 {
		return nil
	}
	collect := func(ts []*Term) map[string][]*Term {
		heads := map[string][]*Term{}
		walk(ts, func(t *Term) {
			if !t.hasBound && len(t.Args) > 0 {
				k := t.Op + " " + t.Name
				heads[k] = append(heads[k], t)
			}
		})
		return heads
	}
	all, seedHeads := collect(ts), collect(seeds)
	var out []*Term
	for _, a := range c.autos {
		if a.lm.idx >= limit {
			continue
		}
		seed := a.lm.Decl.Flags["seed"]
		for _, ps := range a.triggers {
			var rec func(i int, m map[int]*Term)
			n := 0
			rec = func(i int, m map[int]*Term) {
				if n > 80 {
					return
				}
				if i == len(ps) {
					inst := subst(a.stmt, m)
					if inst.hasBound && inst.Op != "forall" {
						// variables of the lemma which no trigger determines
						open := false
						walk([]*Term{inst}, func(t *Term) {
							open = open || t.Op == "bvar" && (strings.HasPrefix(t.Name, "au.") || strings.HasPrefix(t.Name, "h."))
						})
						if open {
							return
						}
					}
					if inst.Op != "true" && !seen[inst.id] {
						seen[inst.id] = true
						out = append(out, inst)
						n++
					}
					return
				}
				heads := all
				if seed && i == 0 {
					heads = seedHeads
				}
				for _, g := range heads[ps[i].Op+" "+ps[i].Name] {
					for _, m2 := range matchTerm(ps[i], g, m) {
						rec(i+1, m2)
					}
				}
			}
			rec(0, map[int]*Term{})
		}
	}
	return out
}
