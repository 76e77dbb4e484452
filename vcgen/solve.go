package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// QueryStats counts solver queries.
type QueryStats struct {
	N    int64
	Secs float64
	mu   sync.Mutex
}

var stats QueryStats
var solverSem = make(chan struct{}, 8)
var z3Path = "z3-new"
var dumpDir = os.Getenv("VC_DUMP")
var dumpN int64

// ---- unfolding of specification functions ----

type unfolder struct {
	c     *Ctx
	fuel  int
	done  map[int]bool
	lits  map[int]*Term
	out   []*Term
	count int
	max   int
	limit int
	seen  map[int]bool
	base  []*Term
	seeds []*Term
	rest  map[int]bool // applications left as they are
	lazy  bool         // definitions by the type of an argument are only unfolded where it is known
}

func (u *unfolder) learn(ts []*Term) {
	for _, t := range ts {
		u.learn1(t)
	}
}

// resolveIte simplifies conditionals whose condition is known.
func resolveIte(t *Term, lits map[int]*Term) *Term {
	cache := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t.id]; ok {
			return r
		}
		r := t
		if t.Op == "ite" {
			c := rec(t.Args[0])
			if v, ok := lits[c.id]; ok {
				c = v
			}
			switch c.Op {
			case "true":
				r = rec(t.Args[1])
			case "false":
				r = rec(t.Args[2])
			default:
				r = tIte(c, rec(t.Args[1]), rec(t.Args[2]))
			}
		} else {
			args := make([]*Term, len(t.Args))
			changed := false
			for i, a := range t.Args {
				args[i] = rec(a)
				changed = changed || args[i] != a
			}
			if changed {
				r = rebuild(t, args)
			}
		}
		cache[t.id] = r
		return r
	}
	return rec(t)
}

func (u *unfolder) learn1(t *Term) {
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			u.learn1(a)
		}
	case "not":
		u.lits[t.Args[0].id] = tFalse
	case "is":
		u.lits[t.id] = tTrue
		for _, c := range t.Ctor.Data.Ctors {
			if c != t.Ctor {
				u.lits[mk("is", c.Name, SBool, c, 0, t.Args[0]).id] = tFalse
			}
		}
	case "<", "<=":
		u.lits[t.id] = tTrue
		u.lits[tNot(t).id] = tFalse
	case "=", "app", "var":
		u.lits[t.id] = tTrue
	}
}

// add unfolds the applications in the given terms, breadth first.
func (u *unfolder) add(ts []*Term, level, depth int) {
	type item struct {
		ts           []*Term
		level, depth int
	}
	var left []int
	defer func() {
		for _, id := range left {
			u.rest[id] = true
		}
	}()
	for q := []item{{ts, level, depth}}; len(q) > 0; q = q[1:] {
		level, depth := q[0].level, q[0].depth
		var apps []*Term
		walk(q[0].ts, func(t *Term) {
			if t.Op == "app" && !t.hasBound && strings.HasPrefix(t.Name, "f$") {
				apps = append(apps, t)
			}
		})
		for _, a := range apps {
			if u.done[a.id] || u.count > u.max {
				continue
			}
			f := u.c.funcs[a.Name[2:]]
			if f == nil || f.Body == nil {
				continue
			}
			fuel := u.fuel
			if f.Decl.Opts["fuel"] != "" {
				fuel = f.Fuel
			}
			if u.rest[a.id] {
				continue
			}
			if level >= fuel || depth > 14 {
				left = append(left, a.id)
				continue
			}
			m := map[int]*Term{}
			for i, p := range f.Formals {
				m[p.id] = a.Args[i]
			}
			body := u.c.simp(subst(subst(f.Body, m), u.lits))
			if u.lazy && f.Decl.Opts["eager"] == "" && body.Op == "ite" && body.Args[0].Op == "is" {
				continue
			}
			u.done[a.id] = true
			u.count++
			body = u.c.inlineBound(body)
			u.out = append(u.out, tEq(a, body))
			nl := level
			if body.Op == "ite" || f.Decl.Opts["cost"] == "1" || (f.recursive && f.Ret == types.Typ[types.Bool]) {
				nl++
			}
			q = append(q, item{[]*Term{body}, nl, depth + 1})
		}
	}
}

func (c *Ctx) simp(t *Term) *Term { return t }

// query is a set of assertions being prepared.
type query struct {
	c     *Ctx
	b     strings.Builder
	decls map[string]bool
	names map[int]string
	ctors map[*Ctor]bool
}

// build makes the SMT-LIB text of: base; then for each goal, push; extras; pop.
func (c *Ctx) buildQuery(base []*Term, goals [][]*Term, timeoutMs int, model bool) string {
	var all []*Term
	all = append(all, base...)
	for _, g := range goals {
		all = append(all, g...)
	}
	axioms := c.axiomsFor(all)
	all = append(all, axioms...)

	var b bytes.Buffer
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMs)
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	// sorts and constructors in use
	ctors := map[*Ctor]bool{}
	sorts := map[*Sort]bool{}
	vars := map[string]*Sort{}
	fns := map[string]bool{}
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		for _, a := range s.Args {
			addSort(a)
		}
		if s.Kind == "Data" && s != SIface {
			for _, ct := range s.Data.Ctors {
				for _, f := range ct.Fields {
					addSort(f.Sort)
				}
			}
		}
	}
	walk(all, func(t *Term) {
		addSort(t.Sort)
		if t.Ctor != nil {
			ctors[t.Ctor] = true
			addSort(t.Ctor.Data.sort)
			for _, f := range t.Ctor.Fields {
				addSort(f.Sort)
			}
		}
		switch t.Op {
		case "var":
			vars[t.Name] = t.Sort
		case "app":
			fns[t.Name] = true
		}
	})
	for n := range fns {
		if d, ok := symSorts.Load(n); ok {
			fd := d.(*FuncDecl)
			addSort(fd.Ret)
			for _, a := range fd.Args {
				addSort(a)
			}
		}
	}
	var un, data []*Sort
	for s := range sorts {
		switch s.Kind {
		case "Un":
			un = append(un, s)
		case "Data":
			data = append(data, s)
		}
	}
	sort.Slice(un, func(i, j int) bool { return un[i].Name < un[j].Name })
	sort.Slice(data, func(i, j int) bool { return data[i].Name < data[j].Name })
	for _, s := range un {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", smtName(s.Name))
	}
	if len(data) > 0 {
		b.WriteString("(declare-datatypes (")
		for _, s := range data {
			fmt.Fprintf(&b, "(%s 0)", smtName(s.Name))
		}
		b.WriteString(") (")
		for _, s := range data {
			b.WriteString("(")
			c.tm.mu.Lock()
			cs := append([]*Ctor{}, s.Data.Ctors...)
			c.tm.mu.Unlock()
			for i, ct := range cs {
				if s == SIface && i > 1 && !ctors[ct] {
					continue
				}
				fmt.Fprintf(&b, "(%s", smtName(ct.Name))
				for _, f := range ct.Fields {
					fmt.Fprintf(&b, " (%s %s)", smtName(f.Sel), f.Sort.Name)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString("))\n")
	}
	for _, n := range sortedKeys(vars) {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", smtName(n), vars[n].Name)
	}
	for _, n := range sortedKeys(fns) {
		d, ok := symSorts.Load(n)
		if !ok {
			panic("undeclared " + n)
		}
		fd := d.(*FuncDecl)
		fmt.Fprintf(&b, "(declare-fun %s (", smtName(n))
		for _, a := range fd.Args {
			b.WriteString(a.Name + " ")
		}
		fmt.Fprintf(&b, ") %s)\n", fd.Ret.Name)
	}
	// shared subterms
	refs := map[int]int{}
	walk(all, func(t *Term) {
		for _, a := range t.Args {
			refs[a.id]++
		}
	})
	names := map[int]string{}
	emitted := map[int]bool{}
	var define func(ts []*Term)
	define = func(ts []*Term) {
		walk(ts, func(t *Term) {
			if emitted[t.id] {
				return
			}
			emitted[t.id] = true
			if t.hasBound || len(t.Args) == 0 || refs[t.id] < 2 || t.Op == "forall" {
				return
			}
			var sb strings.Builder
			p := &printer{b: &sb, names: names}
			p.printTop(t)
			s := sb.String()
			if len(s) < 24 {
				return
			}
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.Name, s)
			names[t.id] = n
		})
	}
	asserted := func(t *Term) {
		var sb strings.Builder
		p := &printer{b: &sb, names: names}
		p.print(t)
		fmt.Fprintf(&b, "(assert %s)\n", sb.String())
	}
	define(base)
	for _, g := range goals {
		define(g)
	}
	define(axioms)
	for _, t := range base {
		asserted(t)
	}
	for _, t := range axioms {
		asserted(t)
	}
	b.WriteString(c.rawAxioms(all, ctors))
	for _, g := range goals {
		b.WriteString("(push)\n")
		for _, t := range g {
			asserted(t)
		}
		b.WriteString("(check-sat)\n")
		if model {
			b.WriteString("(get-model)\n")
		}
		b.WriteString("(pop)\n")
	}
	return b.String()
}

// axiomsFor instantiates the theory of impl.X and closures on the terms.
func (c *Ctx) axiomsFor(ts []*Term) []*Term {
	var out []*Term
	ctors := map[*Ctor]bool{}
	var impls, clos []*Term
	walk(ts, func(t *Term) {
		if t.Ctor != nil && t.Ctor.Data == c.tm.ifaceData {
			ctors[t.Ctor] = true
		}
		if t.Op == "app" && strings.HasPrefix(t.Name, "impl.") {
			impls = append(impls, t)
		}
		if t.Op == "app" && strings.HasPrefix(t.Name, "clo_") && !t.hasBound {
			clos = append(clos, t)
		}
	})
	var cl []*Ctor
	for ct := range ctors {
		cl = append(cl, ct)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].Name < cl[j].Name })
	for _, im := range impls {
		iv, ok := implIfaces.Load(im.Name)
		if !ok {
			continue
		}
		it := iv.(*types.Interface)
		var facts []*Term
		x := im.Args[0]
		facts = append(facts, tImp(tIs(c.tm.ifaceData.Ctors[0], x), tNot(im)))
		for _, ct := range cl {
			ty := c.tm.CtorType(ct)
			if ty == nil {
				continue
			}
			if types.Implements(ty, it) {
				facts = append(facts, tImp(tIs(ct, x), im))
			} else {
				facts = append(facts, tImp(tIs(ct, x), tNot(im)))
			}
		}
		f := tAnd(facts...)
		if !im.hasBound {
			out = append(out, f)
		} else if x.Op == "bvar" {
			out = append(out, tForall([]*Term{x}, f))
		}
	}
	// distinct closures with the same meaning
	for i := range clos {
		for j := i + 1; j < len(clos); j++ {
			a, b := clos[i], clos[j]
			if a.Name == b.Name {
				continue
			}
			if c.sameClosure(a, b) {
				out = append(out, tEq(a, b))
			}
		}
	}
	return out
}

func (c *Ctx) sameClosure(a, b *Term) bool {
	c.closMu.Lock()
	da, db := c.clos[a.Name], c.clos[b.Name]
	c.closMu.Unlock()
	if da == nil || db == nil {
		return false
	}
	var ps []*Term
	if da.Body != nil {
		ps = da.Params
	} else if db.Body != nil {
		ps = db.Params
	} else {
		return false
	}
	var args []*Term
	for i, p := range ps {
		args = append(args, tVar(fmt.Sprintf("ext$%d.%s", i, p.Sort.Name), p.Sort))
	}
	x, y := c.expandApply(a, args), c.expandApply(b, args)
	return x != nil && x == y
}

// rawAxioms: theories given with patterns.
func (c *Ctx) rawAxioms(ts []*Term, ctors map[*Ctor]bool) string {
	used := map[string]bool{}
	vms := map[string]bool{}
	syms := map[string]bool{}
	walk(ts, func(t *Term) {
		if t.Op == "app" {
			syms[t.Name] = true
			if strings.HasPrefix(t.Name, "vm.") {
				f := strings.SplitN(t.Name, ".", 3)
				used[f[1]+"."+f[2]] = true
				vms[f[2]] = true
			}
		}
		if t.Op == "var" && strings.HasPrefix(t.Name, "vm.empty.") {
			vms[strings.TrimPrefix(t.Name, "vm.empty.")] = true
		}
		if t.Op == "var" && strings.HasPrefix(t.Name, "zero.VM.") {
			vms[strings.TrimPrefix(t.Name, "zero.")] = true
		}
	})
	var b strings.Builder
	for _, n := range sortedKeys(vms) {
		iv, ok := vmTab.Load(n)
		if !ok {
			continue
		}
		i := iv.(*vmInfo)
		K, V, S := i.k.Name, i.v.Name, i.s.Name
		fn := func(f string) string { return smtName("vm." + f + "." + S) }
		has := used["has."+n]
		get := used["get."+n]
		set := used["set."+n]
		enum := used["enum."+n] || used["key."+n] || used["len."+n]
		del := used["del."+n]
		zero := i.zero.String()
		if i.zero.Op == "var" || V == "Iface" || i.zero.Op == "ctor" {
			if !strings.Contains(zero, "zero.") {
				// printable constant
			} else {
				zero = ""
			}
		}
		emp := smtName("vm.empty." + S)
		declared := map[string]bool{}
		walk(ts, func(t *Term) {
			if t.Op == "var" {
				declared[t.Name] = true
			}
		})
		if get && set {
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s) (v %s) (q %s)) (! (= (%s (%s m k v) q) (ite (= k q) v (%s m q))) :pattern ((%s (%s m k v) q)))))\n", S, K, V, K, fn("get"), fn("set"), fn("get"), fn("get"), fn("set"))
		}
		if has && set {
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s) (v %s) (q %s)) (! (= (%s (%s m k v) q) (or (= k q) (%s m q))) :pattern ((%s (%s m k v) q)))))\n", S, K, V, K, fn("has"), fn("set"), fn("has"), fn("has"), fn("set"))
		}
		if get && del {
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s) (q %s)) (! (=> (not (= k q)) (= (%s (%s m k) q) (%s m q))) :pattern ((%s (%s m k) q)))))\n", S, K, K, fn("get"), fn("del"), fn("get"), fn("get"), fn("del"))
		}
		if has && del {
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s) (q %s)) (! (= (%s (%s m k) q) (and (not (= k q)) (%s m q))) :pattern ((%s (%s m k) q)))))\n", S, K, K, fn("has"), fn("del"), fn("has"), fn("has"), fn("del"))
		}
		if has && get && zero != "" {
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s)) (! (or (%s m k) (= (%s m k) %s)) :pattern ((%s m k)))))\n", S, K, fn("has"), fn("get"), zero, fn("get"))
		}
		for _, e := range []string{"vm.empty." + S, "zero." + S} {
			if declared[e] && has {
				fmt.Fprintf(&b, "(assert (forall ((k %s)) (! (not (%s %s k)) :pattern ((%s %s k)))))\n", K, fn("has"), smtName(e), fn("has"), smtName(e))
			}
			if declared[e] && get && zero != "" {
				fmt.Fprintf(&b, "(assert (forall ((k %s)) (! (= (%s %s k) %s) :pattern ((%s %s k)))))\n", K, fn("get"), smtName(e), zero, fn("get"), smtName(e))
			}
			if declared[e] && used["enum."+n] {
				fmt.Fprintf(&b, "(assert (= (%s %s) (as seq.empty (Seq %s))))\n", fn("enum"), smtName(e), K)
			}
			if declared[e] && used["len."+n] {
				fmt.Fprintf(&b, "(assert (= (%s %s) 0))\n", fn("len"), smtName(e))
			}
		}
		if declared["zero."+S] && declared["vm.empty."+S] {
			fmt.Fprintf(&b, "(assert (not (= %s %s)))\n", smtName("zero."+S), emp)
		}
		if declared["zero."+S] && set {
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s) (v %s)) (! (not (= (%s m k v) %s)) :pattern ((%s m k v)))))\n", S, K, V, fn("set"), smtName("zero."+S), fn("set"))
		}
		if enum {
			idx, key, ln := smtName("vm.idx."+S), fn("key"), fn("len")
			for _, d := range [][3]string{{"key", S + " Int", K}, {"len", S, "Int"}, {"has", S + " " + K, "Bool"}} {
				if !used[d[0]+"."+n] {
					fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", fn(d[0]), d[1], d[2])
				}
			}
			fmt.Fprintf(&b, "(declare-fun %s (%s %s) Int)\n", idx, S, K)
			fmt.Fprintf(&b, "(assert (forall ((m %s)) (! (<= 0 (%s m)) :pattern ((%s m)))))\n", S, ln, ln)
			fmt.Fprintf(&b, "(assert (forall ((m %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s m))) (and (= (%s m (%s m i)) i) (%s m (%s m i)))) :pattern ((%s m i)))))\n", S, ln, idx, key, fn("has"), key, key)
			fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s)) (! (=> (%s m k) (and (<= 0 (%s m k)) (< (%s m k) (%s m)) (= (%s m (%s m k)) k))) :pattern ((%s m k)))))\n", S, K, fn("has"), idx, idx, ln, key, idx, fn("has"))
			if set {
				fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s) (v %s)) (! (= (%s (%s m k v)) (ite (%s m k) (%s m) (+ 1 (%s m)))) :pattern ((%s (%s m k v))))))\n", S, K, V, ln, fn("set"), fn("has"), ln, ln, ln, fn("set"))
			}
			if del {
				fmt.Fprintf(&b, "(assert (forall ((m %s) (k %s)) (! (= (%s (%s m k)) (ite (%s m k) (- (%s m) 1) (%s m))) :pattern ((%s (%s m k))))))\n", S, K, ln, fn("del"), fn("has"), ln, ln, ln, fn("del"))
			}
			if used["enum."+n] {
				fmt.Fprintf(&b, "(assert (forall ((m %s)) (! (= (seq.len (%s m)) (%s m)) :pattern ((%s m)))))\n", S, fn("enum"), ln, fn("enum"))
			}
		}
	}
	return b.String()
}

// prepare unfolds and collects assertions for a query. Automatic lemmas from
// limit on are not used.
func (c *Ctx) prepare(hyps []*Term, fuel, limit int, lazy bool) (base []*Term, u *unfolder) {
	u = &unfolder{c: c, lazy: lazy, fuel: fuel, limit: limit, done: map[int]bool{}, lits: map[int]*Term{}, seen: map[int]bool{}, rest: map[int]bool{}, max: 300}
	for i, h := range hyps {
		hyps[i] = c.inlineBound(h)
	}
	u.learn(hyps)
	for i, h := range hyps {
		hyps[i] = resolveIte(h, u.lits)
	}
	u.seeds = hyps
	base = u.expand(nil, hyps)
	u.base = base
	return base, u
}

// expand adds definitions and instances of lemmas to the terms.
func (u *unfolder) expand(base, ts []*Term) []*Term {
	u.out = nil
	u.add(ts, 0, 0)
	out := append(append([]*Term{}, ts...), u.out...)
	if inst := u.skolemInstances(base, out); len(inst) > 0 {
		u.out = nil
		u.add(inst, 0, 0)
		out = append(append(out, inst...), u.out...)
	}
	for r := 0; r < 2; r++ {
		inst := u.c.autoInstances(append(append([]*Term{}, base...), out...), u.seeds, u.limit, u.seen)
		if len(inst) == 0 {
			break
		}
		u.out = nil
		u.add(inst, 1, 0)
		out = append(append(out, inst...), u.out...)
	}
	return out
}

// skolemInstances are the instances of universally quantified hypotheses with
// the fresh constants of the goal, where their bodies need unfolding.
func (u *unfolder) skolemInstances(base, ts []*Term) []*Term {
	bySort := map[*Sort][]*Term{}
	any := false
	walk(append(append([]*Term{}, base...), ts...), func(t *Term) {
		if t.Op == "var" && strings.HasPrefix(t.Name, "sk$") {
			bySort[t.Sort] = append(bySort[t.Sort], t)
			any = true
		}
	})
	var facts []*Term
	idx := map[int]bool{}
	for _, k := range bySort[SInt] {
		idx[k.id] = true
	}
	walk(ts, func(t *Term) {
		if t.Op == "nth" && !t.hasBound {
			is := []*Term{t.Args[1]}
			if t.Args[0].Op == "concat" {
				for _, p := range t.Args[0].Args {
					is = append(is, tSub(is[len(is)-1], tLen(p)))
				}
				is = is[:len(t.Args[0].Args)]
				// which part it is in
				if len(facts) < 12 {
					n := len(is) - 1
					e := tNth(t.Args[0].Args[n], is[n])
					for k := n - 1; k >= 0; k-- {
						e = tIte(tLt(is[k], tLen(t.Args[0].Args[k])), tNth(t.Args[0].Args[k], is[k]), e)
					}
					facts = append(facts, tImp(tAnd(tLe(tInt(0), t.Args[1]), tLt(t.Args[1], tLen(t.Args[0]))), tEq(t, e)))
				}
			}
			for _, i := range is {
				if !idx[i.id] && len(idx) < 8 {
					idx[i.id] = true
					bySort[SInt] = append(bySort[SInt], i)
				}
			}
		}
	})
	var out []*Term
	var visit func(t *Term, under func(*Term) *Term)
	visit = func(t *Term, under func(*Term) *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				visit(a, under)
			}
		case "=>":
			h := t.Args[0]
			visit(t.Args[1], func(x *Term) *Term { return under(tImp(h, x)) })
		case "not":
			if t.Args[0].Op == "=>" {
				visit(t.Args[0].Args[0], under)
			}
		case "=":
			for i, a := range t.Args {
				if a.Op == "forall" && t.Args[1-i].Op == "app" {
					h := t.Args[1-i]
					visit(a, func(x *Term) *Term { return under(tImp(h, x)) })
				}
			}
		case "forall":
			n := len(t.Args) - 1
			need := false
			walk([]*Term{t.Args[n]}, func(x *Term) {
				if x.hasBound && (x.Op == "app" && strings.HasPrefix(x.Name, "f$") || x.Op == "nth") {
					need = true
				}
			})
			if !need {
				return
			}
			combos := []map[int]*Term{{}}
			for _, v := range t.Args[:n] {
				var next []map[int]*Term
				for _, c := range combos {
					for _, k := range bySort[v.Sort] {
						m := map[int]*Term{}
						for a, b := range c {
							m[a] = b
						}
						m[v.id] = k
						next = append(next, m)
					}
				}
				combos = next
			}
			for _, m := range combos {
				if len(out) >= 40 {
					return
				}
				x := under(subst(t.Args[n], m))
				if x.hasBound {
					x = u.c.inlineBound(x)
				}
				if !u.seen[-x.id-1] {
					u.seen[-x.id-1] = true
					out = append(out, x)
				}
			}
		}
	}
	if !any {
		return facts
	}
	id := func(x *Term) *Term { return x }
	for _, t := range base {
		visit(t, id)
	}
	for _, t := range ts {
		visit(t, id)
	}
	return append(out, facts...)
}

// inlineBound replaces applications of non-recursive functions to bound
// variables by their definitions, as these cannot be unfolded otherwise.
func (c *Ctx) inlineBound(t *Term) *Term {
	if !t.hasBound {
		return t
	}
	if r, ok := c.inlined.Load(t.id); ok {
		return r.(*Term)
	}
	var rec func(x *Term) *Term
	cache := map[int]*Term{}
	rec = func(x *Term) *Term {
		if !x.hasBound || len(x.Args) == 0 {
			return x
		}
		if r, ok := cache[x.id]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		changed := false
		for i, a := range x.Args {
			args[i] = rec(a)
			changed = changed || args[i] != a
		}
		r := x
		if changed {
			r = rebuild(x, args)
		}
		if r.Op == "app" && strings.HasPrefix(r.Name, "f$") {
			if f := c.funcs[r.Name[2:]]; f != nil && f.Body != nil && !f.recursive && f.Decl.Opts["opaque"] == "" {
				m := map[int]*Term{}
				for i, p := range f.Formals {
					m[p.id] = r.Args[i]
				}
				r = rec(subst(f.Body, m))
			}
		}
		cache[x.id] = r
		return r
	}
	r := rec(t)
	c.inlined.Store(t.id, r)
	return r
}

func (u *unfolder) forGoal(g *Term) []*Term {
	g = resolveIte(u.c.inlineBound(g), u.lits)
	n := &unfolder{c: u.c, lazy: u.lazy, fuel: u.fuel, limit: u.limit, done: map[int]bool{}, lits: u.lits, seen: map[int]bool{}, rest: map[int]bool{}, max: 300, seeds: append(append([]*Term{}, u.seeds...), tNot(g))}
	for k := range u.done {
		n.done[k] = true
	}
	for k := range u.seen {
		n.seen[k] = true
	}
	return n.expand(u.base, []*Term{tNot(g)})
}

func runZ3(q string, timeout time.Duration) ([]string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d.smt2", n)), []byte(q), 0o644)
	}
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3Path, "-in", "-memory:3000")
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	d := time.Since(start).Seconds()
	stats.mu.Lock()
	stats.N++
	stats.Secs += d
	stats.mu.Unlock()
	var res []string
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			res = append(res, l)
		}
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "model is not available") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			if d := os.Getenv("VC_ERRDUMP"); d != "" {
				os.WriteFile(d, []byte(q), 0o644)
			}
			res = append(res, "error")
		}
	}
	return res, out.String()
}

var houdiniTimeout, houdiniRetry = 1500, 10000
var tiers = []struct {
	fuel, ms int
	lazy     bool
}{{2, 2500, true}, {2, 2500, false}, {3, 8000, true}, {3, 8000, false}, {4, 20000, false}}

// proveMany decides goals under common hypotheses (for loop invariants).
func (t *Task) proveMany(pc, goals []*Term, ks []*cand) []bool {
	res := make([]bool, len(goals))
	if len(goals) == 0 {
		return res
	}
	base, u := t.c.prepare(pc, 2, noLimit, true)
	var idx []int
	var gs [][]*Term
	st := &State{pc: pc}
	for i, g0 := range goals {
		res[i] = true
		for _, g := range t.c.openGoal(pc, g0, 0) {
			if st.decide(g) == 1 {
				continue
			}
			if g.Op == "false" {
				res[i] = false
			}
			if !res[i] {
				break
			}
			idx = append(idx, i)
			gs = append(gs, t.skolemGoal(u, g))
		}
	}
	bad := make([]int32, len(goals))
	again := make([]bool, len(gs))
	const chunk = 12
	var wg sync.WaitGroup
	for o := 0; o < len(gs); o += chunk {
		e := min(o+chunk, len(gs))
		wg.Add(1)
		go func(o, e int) {
			defer wg.Done()
			q := t.c.buildQuery(base, gs[o:e], houdiniTimeout, false)
			rs, _ := runZ3(q, time.Duration(houdiniTimeout*(e-o)+3000)*time.Millisecond)
			for j := 0; j < e-o; j++ {
				switch {
				case j < len(rs) && rs[j] == "unsat":
				case ks[idx[o+j]].cl != nil && (j >= len(rs) || rs[j] != "sat"):
					again[o+j] = true
				default:
					atomic.StoreInt32(&bad[idx[o+j]], 1)
				}
			}
		}(o, e)
	}
	wg.Wait()
	// invariants which were given are worth more effort, unless another
	// instance of the same one holds
	pending := make([]bool, len(goals))
	for o := range gs {
		pending[idx[o]] = pending[idx[o]] || again[o]
	}
	holds := map[*Clause]bool{}
	for i := range goals {
		if bad[i] == 0 && res[i] && !pending[i] && ks[i].cl != nil {
			holds[ks[i].cl] = true
		}
	}
	for o := range gs {
		if !again[o] || bad[idx[o]] != 0 {
			continue
		}
		if holds[ks[idx[o]].cl] {
			bad[idx[o]] = 1
			continue
		}
		wg.Add(1)
		go func(o int) {
			defer wg.Done()
			if atomic.LoadInt32(&bad[idx[o]]) != 0 {
				return
			}
			q := t.c.buildQuery(base, gs[o:o+1], houdiniRetry, false)
			rs, _ := runZ3(q, time.Duration(houdiniRetry+3000)*time.Millisecond)
			if len(rs) != 1 || rs[0] != "unsat" {
				if d := os.Getenv("VC_RETRYDUMP"); d != "" {
					os.WriteFile(filepath.Join(d, fmt.Sprintf("r%d.smt2", len(q))), []byte("; "+ks[idx[o]].text+"\n; "+goals[idx[o]].String()+"\n"+q), 0o644)
				}
				atomic.StoreInt32(&bad[idx[o]], 1)
			}
		}(o)
	}
	wg.Wait()
	for i := range res {
		if bad[i] != 0 {
			res[i] = false
		}
	}
	return res
}

// skolemGoal negates a goal, with fresh constants for its quantifiers.
func (t *Task) skolemGoal(u *unfolder, g *Term) []*Term {
	return u.forGoal(skolem(g))
}

// skolem replaces a universally quantified goal by an instance with fresh constants.
func skolem(g *Term) *Term {
	switch g.Op {
	case "forall":
		m := map[int]*Term{}
		n := len(g.Args) - 1
		for _, v := range g.Args[:n] {
			m[v.id] = fresh("sk$", v.Sort)
		}
		return skolem(subst(g.Args[n], m))
	case "=>":
		return tImp(g.Args[0], skolem(g.Args[1]))
	}
	return g
}

// splitGoal splits conjunctions.
func splitGoal(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitGoal(g.Args[1]) {
			out = append(out, tImp(g.Args[0], b))
		}
		return out
	case "ite":
		if g.Sort == SBool {
			return append(splitGoal(tImp(g.Args[0], g.Args[1])), splitGoal(tImp(tNot(g.Args[0]), g.Args[2]))...)
		}
	}
	return []*Term{g}
}

const noLimit = 1 << 30

// limit: lemmas from this index on may not be used in proving the obligation.
func (o *Obligation) limit() int {
	if o.lemIdx > 0 {
		return o.lemIdx - 1
	}
	return noLimit
}

// openGoal splits a goal into conjuncts, unfolding the definitions of
// specification functions applied in it when they give a conjunction.
func (c *Ctx) openGoal(pc []*Term, g *Term, depth int) []*Term {
	var out []*Term
	for _, p := range splitGoal(g) {
		if depth < 4 {
			var hy []*Term
			q := p
			for q.Op == "=>" {
				hy = append(hy, q.Args[0])
				q = q.Args[1]
			}
			if q.Op == "app" && strings.HasPrefix(q.Name, "f$") && !q.hasBound {
				if f := c.funcs[q.Name[2:]]; f != nil && f.Body != nil {
					u := &unfolder{c: c, lits: map[int]*Term{}}
					u.learn(pc)
					u.learn(hy)
					m := map[int]*Term{}
					for i, v := range f.Formals {
						m[v.id] = q.Args[i]
					}
					b := subst(subst(f.Body, m), u.lits)
					if b.Op == "and" || b.Op == "forall" {
						for i := len(hy) - 1; i >= 0; i-- {
							b = tImp(hy[i], b)
						}
						out = append(out, c.openGoal(pc, b, depth+1)...)
						continue
					}
				}
			}
		}
		out = append(out, p)
	}
	return out
}

// discharge decides one obligation.
func (c *Ctx) discharge(o *Obligation, uses []*Term, quick bool) {
	start := time.Now()
	defer func() { o.Secs = time.Since(start).Seconds() }()
	st := &State{pc: o.PC}
	o.Backend = "simplifier"
	o.Result = "proved"
	for _, g0 := range c.openGoal(o.PC, o.Goal, 0) {
		g := skolem(g0)
		var hy []*Term
		for g.Op == "=>" {
			hy = append(hy, g.Args[0])
			g = g.Args[1]
		}
		st2 := &State{pc: append([]*Term{}, o.PC...)}
		for _, h := range hy {
			st2.assume(h)
		}
		if st.decide(g) == 1 || st2.decide(g) == 1 {
			continue
		}
		o.Backend = "z3"
		proved := false
		reason := ""
		for ti, tier := range tiers {
			if quick && ti > 2 {
				break
			}
			hyps := append(append([]*Term{}, st2.pc...), uses...)
			base, u := c.prepare(append(hyps, tNot(g)), tier.fuel, o.limit(), tier.lazy)
			_ = u
			q := c.buildQuery(base, [][]*Term{{}}, tier.ms, false)
			rs, _ := runZ3(q, time.Duration(tier.ms+2000)*time.Millisecond)
			r := "timeout"
			if len(rs) > 0 {
				r = rs[len(rs)-1]
			}
			reason = r
			if r == "unsat" {
				proved = true
				break
			}
			if r == "error" {
				break
			}
		}
		if !proved {
			if d := os.Getenv("VC_RETRYDUMP"); d != "" {
				base, _ := c.prepare(append(append(append([]*Term{}, st2.pc...), uses...), tNot(g)), 2, o.limit(), true)
				q := c.buildQuery(base, [][]*Term{{}}, 10000, false)
				os.WriteFile(filepath.Join(d, fmt.Sprintf("o%d.smt2", len(q))), []byte("; "+o.Name+"\n; "+g.String()+"\n"+q), 0o644)
			}
			if reason == "sat" {
				o.Result = "failed"
			} else {
				o.Result = "unknown"
			}
			o.Model = fmt.Sprintf("solver answer: %s\ngoal: %s", reason, g)
			return
		}
	}
}

// counterexample asks for a model of the negated obligation.
func (c *Ctx) counterexample(o *Obligation, uses []*Term) string {
	for _, g0 := range splitGoal(o.Goal) {
		g := skolem(g0)
		base, _ := c.prepare(append(append(append([]*Term{}, o.PC...), uses...), tNot(g)), 2, o.limit(), true)
		q := c.buildQuery(base, [][]*Term{{}}, 5000, true)
		rs, out := runZ3(q, 8*time.Second)
		if len(rs) > 0 && rs[0] == "unsat" {
			continue
		}
		if len(out) > 6000 {
			out = out[:6000] + "\n..."
		}
		return out
	}
	return ""
}

// feasible: can the facts be refuted? (false: they contradict each other)
func (c *Ctx) feasible(pc, uses []*Term) bool {
	base, _ := c.prepare(append(append([]*Term{}, pc...), uses...), 2, noLimit, true)
	q := c.buildQuery(base, [][]*Term{{}}, 1000, false)
	rs, _ := runZ3(q, 4*time.Second)
	return !(len(rs) > 0 && rs[0] == "unsat")
}
