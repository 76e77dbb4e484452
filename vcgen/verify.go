package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// contractFor tells whether a contract has something to say about a property.
func (k *Contract) hasProp(p string) bool {
	for _, x := range k.Props {
		if x == p {
			return true
		}
	}
	for _, cl := range k.Clauses {
		for _, x := range cl.Props {
			if x == p {
				return true
			}
		}
	}
	return false
}

type unit struct {
	k     *Contract
	lem   *Lemma
	tasks []*Task
	done  bool
}

// allSafety: properties decided by obligations which arise in every function.
// deadline: obligations which are not attempted by then stay undecided.
var deadline time.Time

var everywhere = map[string]bool{"C02": true, "C19": true, "C20": true, "C24": true}

// onlyTask restricts a run to tasks whose name contains it (for debugging).
var onlyTask = os.Getenv("VC_TASK")

func (c *Ctx) verify(prop, only string, models bool) *Report {
	rep := &Report{Property: prop, Counts: map[string]int{}, Backends: map[string]int{}}
	units := map[*Contract]*unit{}
	inClosure := map[*Contract]bool{}
	var work []*Contract
	add := func(k *Contract) {
		if !inClosure[k] {
			inClosure[k] = true
			work = append(work, k)
		}
	}
	for _, k := range c.sf.Contracts {
		if only != "" && !strings.Contains(k.Name, only) {
			continue
		}
		if prop == "" || k.hasProp(prop) || everywhere[prop] && k.Kind != "extern" {
			add(k)
		}
	}
	var all []*Task
	missing := map[string]bool{}
	lemUsed := map[string]bool{}
	for len(work) > 0 {
		batch := work
		work = nil
		var wg sync.WaitGroup
		var mu sync.Mutex
		var ts []*Task
		for _, k := range batch {
			if units[k] != nil {
				continue
			}
			units[k] = &unit{k: k}
			tl, miss := c.makeTasks(k)
			for _, m := range miss {
				// a helper without a claim of its own may go: its callers are checked without it
				if prop == "" || k.hasProp(prop) {
					missing[m] = true
				}
			}
			for _, t := range tl {
				if onlyTask == "" || strings.Contains(t.name, onlyTask) {
					ts = append(ts, t)
				}
			}
		}
		sem := make(chan struct{}, 8)
		for _, t := range ts {
			wg.Add(1)
			go func(t *Task) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				start := time.Now()
				t.run()
				t.secs = time.Since(start).Seconds()
				if os.Getenv("VC_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%s: %d obligations, %d paths, %.2fs\n", t.name, len(t.obls), t.paths, t.secs)
				}
				mu.Lock()
				all = append(all, t)
				mu.Unlock()
			}(t)
		}
		wg.Wait()
		for _, t := range ts {
			if only != "" || onlyTask != "" {
				continue
			}
			var ks []*Contract
			for k := range t.uses {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Pos < ks[j].Pos })
			for _, k := range ks {
				add(k)
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].name < all[j].name })
	// lemmas
	var lts []*Task
	for _, l := range c.sf.Lemmas {
		if l.Axiom {
			rep.Axioms = append(rep.Axioms, l.Name+": "+l.Pos)
			continue
		}
		if only != "" && !strings.Contains(l.Name, only) {
			continue
		}
		lm := c.lemmas[l.Name]
		lts = append(lts, c.lemmaTask(lm))
		_ = lemUsed
	}
	if only == "" || len(lts) > 0 {
		for _, t := range lts {
			rep.Lemmas = append(rep.Lemmas, t.name)
		}
		all = append(all, lts...)
	}
	// select and discharge
	type job struct {
		o *Obligation
		t *Task
	}
	var jobs []job
	for _, t := range all {
		for _, o := range t.obls {
			if c.concerns(o, t, prop) {
				jobs = append(jobs, job{o, t})
			}
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 12)
	var failures int32
	var fmu sync.Mutex
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			fmu.Lock()
			quick := failures > 6
			fmu.Unlock()
			if !deadline.IsZero() && time.Now().After(deadline) {
				j.o.Result, j.o.Model = "unknown", "not attempted: out of time"
			}
			if j.o.Result == "" {
				c.discharge(j.o, j.o.Uses, quick)
			}
			if j.o.Result != "proved" {
				fmu.Lock()
				failures++
				fmu.Unlock()
				if models && failures < 5 && j.o.Kind != "unsupported" {
					j.o.Model += "\n" + c.counterexample(j.o, j.o.Uses)
				}
			}
		}(j)
	}
	wg.Wait()
	perTask := map[string]*TaskReport{}
	ass := map[string]bool{}
	inl := map[string]bool{}
	for _, t := range all {
		kind := "lemma"
		if t.contr != nil && t.lem == nil {
			kind = t.contr.Kind
		}
		perTask[t.name] = &TaskReport{Name: t.name, Kind: kind, Paths: t.paths, Secs: t.secs}
		for a := range t.assume {
			ass[a] = true
		}
		for a := range t.inlined {
			inl[a] = true
		}
	}
	for _, j := range jobs {
		o := j.o
		tr := perTask[j.t.name]
		tr.Obls++
		rep.Counts[o.Result]++
		rep.Backends[o.Backend]++
		if o.Result != "proved" {
			tr.Failed++
		}
		r := &OblReport{Task: o.Task, Kind: o.Kind, Name: o.Name, Pos: o.Pos, Result: o.Result, Backend: o.Backend, Secs: o.Secs, Props: o.Props}
		if o.Result != "proved" {
			r.Detail = o.Model
			var pc []string
			for _, p := range o.PC {
				s := p.String()
				if len(s) < 300 {
					pc = append(pc, s)
				}
			}
			r.Model = "path: " + strings.Join(o.Trace, " ") + "\nfacts:\n" + strings.Join(pc, "\n")
		}
		rep.Obligations = append(rep.Obligations, r)
	}
	for _, t := range all {
		rep.Tasks = append(rep.Tasks, *perTask[t.name])
	}
	rep.Assumptions = sortedKeys(ass)
	rep.Inlined = sortedKeys(inl)
	rep.Missing = sortedKeys(missing)
	ext := map[string]bool{}
	for k := range inClosure {
		if k.Kind == "extern" || k.Kind == "functype" {
			ext[k.Kind+" "+k.Name] = true
		}
	}
	rep.Externs = sortedKeys(ext)
	rep.Queries = stats.N
	rep.SolverSecs = stats.Secs
	return rep
}

func (c *Ctx) concerns(o *Obligation, t *Task, prop string) bool {
	if prop == "" {
		return true
	}
	if len(o.Props) > 0 {
		for _, p := range o.Props {
			if p == prop {
				return true
			}
		}
		return false
	}
	if everywhere[prop] {
		// only functional obligations of contracts that speak of the property
		return o.Kind == "unsupported" || o.Kind == "vacuity" || t.contr != nil && t.contr.hasProp(prop) || o.Kind == "requires" && prop == "C20" || t.lem != nil
	}
	return true
}

// makeTasks makes the verification tasks of a contract.
func (c *Ctx) makeTasks(k *Contract) (ts []*Task, missing []string) {
	switch k.Kind {
	case "func":
		fn := c.fnByName[k.Name]
		if fn == nil || fn.Blocks == nil {
			return nil, []string{k.Name}
		}
		t := newTask(c, k.Name, k, fn)
		t.setInvs()
		return []*Task{t}, nil
	case "iface":
		i := strings.LastIndex(k.Name, ".")
		if i < 0 {
			return nil, []string{k.Name}
		}
		var it types.Type
		func() {
			defer func() {
				if r := recover(); r != nil {
					it = nil
				}
			}()
			it = c.resolveType(&TyExpr{K: "name", Name: k.Name[:i]}, k.Pos)
		}()
		if it == nil {
			return nil, []string{k.Name}
		}
		if k.Flags["trusted"] {
			return nil, nil
		}
		iu := it.Underlying().(*types.Interface)
		var keys []string
		for key := range c.tm.ifaceCt {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			ct := c.tm.ifaceCt[key]
			ty := c.tm.ctorType[ct.Name]
			p := pkgOf(ty)
			if !types.Implements(ty, iu) || p == nil || !c.tm.inModule(p) {
				continue
			}
			fn := c.prog.LookupMethod(ty, p, k.Name[i+1:])
			if fn == nil || fn.Blocks == nil {
				continue
			}
			t := newTask(c, k.Name+" by "+c.tm.shortName(ty), k, fn)
			if k.When != nil {
				t.name += " when " + strings.Join(strings.Fields(k.WhenTxt), " ")
			}
			t.selfTy = ty
			t.ifaceTy = it
			t.setInvs()
			ts = append(ts, t)
		}
		if len(ts) == 0 {
			missing = append(missing, k.Name)
		}
	}
	return
}

func (t *Task) setInvs() {
	for _, cl := range t.contr.Clauses {
		if cl.Kind == "inv" {
			t.invs = append(t.invs, cl)
		}
		if cl.Kind == "fold" {
			t.folds = append(t.folds, cl)
		}
	}
	for _, o := range t.contr.InvFrom {
		for _, k := range t.c.sf.Contracts {
			if k.Name == o && k != t.contr {
				for _, cl := range k.Clauses {
					if cl.Kind == "inv" {
						t.invs = append(t.invs, cl)
					}
				}
			}
		}
	}
}

func (t *Task) fail(kind, msg string) {
	t.obls = append(t.obls, &Obligation{Task: t.name, Kind: kind, Name: msg, Pos: t.name, Result: "failed", Backend: "vcgen", Goal: tFalse, Model: msg, Contr: t.contr})
}

func (t *Task) run() {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				t.fail("unsupported", "outside the supported subset: "+e.msg)
			case perr:
				t.fail("unsupported", "specification does not fit the code: "+e.msg)
			default:
				if os.Getenv("VC_PANIC") != "" {
					panic(r)
				}
				t.fail("unsupported", fmt.Sprintf("cannot be translated: %v", r))
			}
		}
	}()
	t.verifyFn()
}

func (t *Task) verifyFn() {
	c, k, fn := t.c, t.contr, t.fn
	t.a0 = tVar("A0!", SInt)
	t.mem0 = &Mem{heap: map[string]*Term{}, base: "H0!"}
	st := &State{mem: t.mem0.clone(), alloc: t.a0, env: map[ssa.Value]Val{}, locals: map[*LocalCell]*Term{}, active: map[*ssa.BasicBlock]*activeLoop{}, pend: map[string]*pendAppend{}}
	st.fr = &Frame{fn: fn, loops: findLoops(fn)}
	st.assume(tLe(tInt(1), t.a0))
	if len(k.Params) != len(fn.Params) {
		panic(perr{fmt.Sprintf("%s: contract has %d parameters, %s has %d", k.Pos, len(k.Params), t.name, len(fn.Params))})
	}
	for i, p := range fn.Params {
		v := tVar("p$"+k.Params[i], c.tm.Sort(p.Type()))
		t.typeFacts(st, v, p.Type())
		st.env[p] = Val{T: v}
		tv := TV{T: v, Ty: p.Type()}
		if i == 0 && t.selfTy != nil {
			v = tVar("p$"+k.Params[i], c.tm.Sort(t.selfTy))
			st.env[p] = Val{T: v}
			t.typeFacts(st, v, t.selfTy)
			tv = TV{T: c.tm.Box(t.selfTy, v), Ty: t.ifaceTy}
		}
		t.vars[k.Params[i]] = tv
	}
	ev := t.eval(st)
	ev.pos = k.Pos
	if k.When != nil {
		st.assume(ev.bool(k.When))
	}
	for _, cl := range k.Clauses {
		if cl.Kind == "requires" {
			ev.pos = cl.Pos
			st.assume(ev.bool(cl.E))
		}
	}
	t.pcEntry = st.pc[:len(st.pc):len(st.pc)]
	entryUses := t.usesAt(ev, true)
	for _, u := range entryUses {
		st.assume(u)
	}
	outs := t.runFrom(st, fn.Blocks[0], 0)
	// "flags excluded:T" says that the precondition excludes the implementation by T
	nocanary := k.Flags["nocanary"]
	for f := range k.Flags {
		if x := strings.TrimPrefix(f, "excluded:"); x != f && strings.Contains(t.name+" ", " by "+x+" ") {
			nocanary = true
		}
	}
	returns := 0
	feasible := false
	for _, o := range outs {
		if o.kind != oReturn {
			continue
		}
		returns++
		t.post(o)
		if !feasible && returns < 12 && !nocanary {
			feasible = c.feasible(o.st.pc, nil)
		}
	}
	if returns == 0 {
		if !k.Flags["noreturn"] {
			t.fail("vacuity", "no path of the function returns")
		}
	} else if !feasible && !nocanary {
		t.fail("vacuity", "the facts on every path contradict each other: nothing is proved")
	} else {
		t.obls = append(t.obls, &Obligation{Task: t.name, Kind: "vacuity", Name: "some path is feasible", Pos: t.name, Result: "proved", Backend: "z3", Goal: tTrue})
	}
}

// usesAt evaluates the "use" clauses in a state.
func (t *Task) usesAt(ev *SpecEval, entry bool) (out []*Term) {
	for _, cl := range t.contr.Clauses {
		if cl.Kind != "use" {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(perr); ok && entry {
						return
					}
					panic(r)
				}
			}()
			ev.pos = cl.Pos
			out = append(out, t.c.useTerm(ev, cl.E, t))
		}()
	}
	return
}

func (c *Ctx) useTerm(ev *SpecEval, e *Expr, t *Task) *Term {
	switch e.K {
	case "old":
		n := *ev
		n.mem = ev.old
		return c.useTerm(&n, e.A[0], t)
	case "forall":
		n := ev
		var bs []*Term
		for _, b := range e.Binds {
			ty := c.resolveType(b.Ty, ev.pos)
			bv := tBVar(fmt.Sprintf("%s?%d", b.Name, nextBV()), c.tm.Sort(ty))
			bs = append(bs, bv)
			n = n.with(b.Name, TV{T: bv, Ty: ty})
		}
		return tForall(bs, c.useTerm(n, e.A[0], t))
	case "bin":
		if e.S == "==>" {
			return tImp(ev.bool(e.A[0]), c.useTerm(ev, e.A[1], t))
		}
	case "call":
		if e.A[0].K == "id" {
			if lm := c.lemmas[e.A[0].S]; lm != nil {
				var as []TV
				for i, a := range e.A[1:] {
					v := ev.eval(a)
					as = append(as, TV{T: ev.coerce(v, lm.Params[i]), Ty: lm.Params[i]})
				}
				if t != nil {
					t.usesLem[lm.Decl.Name] = true
				}
				return c.lemmaTerm(lm, as, ev.mem)
			}
		}
	}
	panic(perr{ev.pos + ": use needs a lemma"})
}

// lemmaTerm is the statement of a lemma for given arguments and memory.
func (c *Ctx) lemmaTerm(lm *Lemma, as []TV, mem *Mem) *Term {
	ev := &SpecEval{c: c, vars: map[string]TV{}, mem: mem, pos: lm.Decl.Pos}
	for i, p := range lm.Decl.Params {
		ev.vars[p.Name] = TV{T: as[i].T, Ty: lm.Params[i]}
	}
	var req, ens []*Term
	for _, cl := range lm.Decl.Clauses {
		ev.pos = cl.Pos
		switch cl.Kind {
		case "requires":
			req = append(req, ev.bool(cl.E))
		case "ensures":
			ens = append(ens, ev.bool(cl.E))
		}
	}
	return tImp(tAnd(req...), tAnd(ens...))
}

func (c *Ctx) lemmaTask(lm *Lemma) (t *Task) {
	k := &Contract{Kind: "lemma", Name: lm.Decl.Name, Flags: lm.Decl.Flags, Pos: lm.Decl.Pos, Clauses: lm.Decl.Clauses, Props: lm.Decl.Props}
	t = newTask(c, "lemma "+lm.Decl.Name, k, nil)
	t.lem = lm
	start := time.Now()
	defer func() {
		t.secs = time.Since(start).Seconds()
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				t.fail("unsupported", e.msg)
			case perr:
				t.fail("unsupported", e.msg)
			default:
				panic(r)
			}
		}
	}()
	mem := &Mem{heap: map[string]*Term{}, base: "H0!"}
	ev := &SpecEval{c: c, vars: map[string]TV{}, mem: mem, pos: lm.Decl.Pos}
	for i, p := range lm.Decl.Params {
		ev.vars[p.Name] = TV{T: tVar("p$"+p.Name, c.tm.Sort(lm.Params[i])), Ty: lm.Params[i]}
	}
	var pc []*Term
	for _, cl := range lm.Decl.Clauses {
		ev.pos = cl.Pos
		if cl.Kind == "requires" {
			pc = append(pc, ev.bool(cl.E))
		}
	}
	var measure *Term
	for _, cl := range lm.Decl.Clauses {
		if cl.Kind == "decreases" {
			ev.pos = cl.Pos
			measure = ev.eval(cl.E).T
		}
	}
	for _, cl := range lm.Decl.Clauses {
		if cl.Kind != "use" {
			continue
		}
		ev.pos = cl.Pos
		pc = append(pc, c.lemmaUse(ev, cl.E, lm, measure))
	}
	for _, cl := range lm.Decl.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		ev.pos = cl.Pos
		o := &Obligation{Task: t.name, Kind: "lemma", Name: clauseName(cl), Pos: cl.Pos, PC: pc, Goal: ev.bool(cl.E), Contr: k, Clause: cl, lemIdx: lm.idx + 1}
		t.obls = append(t.obls, o)
	}
	return t
}

// lemmaUse is a use inside of a lemma's proof: of an earlier lemma, or of the
// lemma itself for arguments with a smaller measure.
func (c *Ctx) lemmaUse(ev *SpecEval, e *Expr, self *Lemma, measure *Term) *Term {
	switch e.K {
	case "forall":
		n := ev
		var bs []*Term
		for _, b := range e.Binds {
			ty := c.resolveType(b.Ty, ev.pos)
			bv := tBVar(fmt.Sprintf("%s?%d", b.Name, nextBV()), c.tm.Sort(ty))
			bs = append(bs, bv)
			n = n.with(b.Name, TV{T: bv, Ty: ty})
		}
		return tForall(bs, c.lemmaUse(n, e.A[0], self, measure))
	case "bin":
		if e.S == "==>" {
			return tImp(ev.bool(e.A[0]), c.lemmaUse(ev, e.A[1], self, measure))
		}
	case "call":
		if e.A[0].K == "id" {
			lm := c.lemmas[e.A[0].S]
			if lm == nil {
				break
			}
			if lm.idx > self.idx {
				panic(perr{ev.pos + ": lemma " + lm.Decl.Name + " is declared later"})
			}
			var as []TV
			for i, a := range e.A[1:] {
				v := ev.eval(a)
				as = append(as, TV{T: ev.coerce(v, lm.Params[i]), Ty: lm.Params[i]})
			}
			st := c.lemmaTerm(lm, as, ev.mem)
			if lm != self {
				return st
			}
			if measure == nil {
				panic(perr{ev.pos + ": induction needs decreases"})
			}
			n := &SpecEval{c: c, vars: map[string]TV{}, mem: ev.mem, pos: ev.pos}
			for i, p := range lm.Decl.Params {
				n.vars[p.Name] = as[i]
			}
			var m2 *Term
			for _, cl := range lm.Decl.Clauses {
				if cl.Kind == "decreases" {
					m2 = n.eval(cl.E).T
				}
			}
			return tImp(tAnd(tLe(tInt(0), m2), tLt(m2, measure)), st)
		}
	}
	panic(perr{ev.pos + ": use needs a lemma"})
}

// post emits the obligations at a return.
func (t *Task) post(o Outcome) {
	c, k, st := t.c, t.contr, o.st
	vars := map[string]TV{}
	for n, v := range t.vars {
		vars[n] = v
	}
	sig := t.fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if i < len(k.Results) {
			vars[k.Results[i]] = TV{T: o.vals[i].T, Ty: sig.Results().At(i).Type()}
		}
	}
	ev := &SpecEval{c: c, vars: vars, mem: st.mem, old: t.mem0, entry: t.mem0, alloc: st.alloc, oldAlloc: t.a0, pos: k.Pos}
	uses := t.usesAt(ev, false)
	n0 := len(t.obls)
	for _, cl := range k.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		ev.pos = cl.Pos
		g := ev.bool(cl.E)
		t.obligate(st, "ensures", clauseName(cl), g, t.fn.Pos(), cl.Props, cl)
	}
	// frame
	hasMod := false
	for _, cl := range k.Clauses {
		if cl.Kind == "modifies" {
			hasMod = true
		}
	}
	_ = hasMod
	if st.mem.base != t.mem0.base {
		allOK := false
		for _, cl := range k.Clauses {
			if cl.Kind == "modifies" {
				for _, m := range cl.Mods {
					if m.All {
						allOK = true
					}
				}
			}
		}
		if !allOK {
			t.obligate(st, "frame", "anything may be modified by a call without a contract", tFalse, t.fn.Pos(), nil, nil)
		}
	}
	for _, h := range sortedKeys(c.stable) {
		x, x0 := st.mem.get(c, h), t.mem0.get(c, h)
		listed := false
		for _, cl := range k.Clauses {
			if cl.Kind == "modifies" {
				for _, m := range cl.Mods {
					if m.Heap != "" && !m.Except {
						for _, x := range c.modHeaps(m, cl.Pos) {
							listed = listed || x == h
						}
					}
				}
			}
		}
		if !listed {
			g := tTrue
			for x != x0 && x.Op == "store" && isFreshRef(x.Args[1]) {
				x = x.Args[0]
			}
			if x != x0 {
				g = tEq(x, x0)
			}
			t.obligate(st, "balance", "leaves "+h+" as it was", g, t.fn.Pos(), strings.Split(c.stable[h], ","), nil)
		}
	}
	for _, h := range sortedKeys(st.mem.heap) {
		if c.stable[h] != "" {
			continue
		}
		x := st.mem.heap[h]
		x0 := t.mem0.get(c, h)
		if x == x0 {
			continue
		}
		refs, limited := t.allowedRefs(h)
		if !limited {
			continue
		}
		if x.Sort.Kind != "Array" || x.Sort.Args[0] != SInt || strings.HasPrefix(h, "G.") {
			t.obligate(st, "frame", "nothing else modified: "+h, tEq(x, x0), t.fn.Pos(), nil, nil)
			continue
		}
		r := fresh("fr$", SInt)
		hyp := []*Term{tLe(tInt(0), r), tLt(r, t.a0)}
		for _, a := range refs {
			hyp = append(hyp, tNot(tEq(r, a)))
		}
		t.obligate(st, "frame", "nothing else modified: "+h, tImp(tAnd(hyp...), tEq(tSelect(x, r), tSelect(x0, r))), t.fn.Pos(), nil, nil)
	}
	for _, p := range sortedKeys(st.pend) {
		if t.quiet == 0 {
			t.obls = append(t.obls, &Obligation{Task: t.name, Kind: "own", Name: "append to a slice loaded from " + st.pend[p].addr.String() + " which is not stored back: its storage may be shared", Pos: st.pend[p].pos, PC: st.pc, Goal: tFalse, Props: []string{"C02"}, Contr: k})
		}
	}
	if k.Flags["noalloc"] {
		t.obligate(st, "frame", "nothing allocated", tEq(st.alloc, t.a0), t.fn.Pos(), nil, nil)
	}
	if k.Flags["own-result"] {
		for i, v := range o.vals {
			if v.T != nil && v.T.Sort.Kind == "Seq" && !v.Own && v.T.Op != "empty" {
				t.obligate(st, "own", fmt.Sprintf("result %d is exclusively owned", i), tFalse, t.fn.Pos(), []string{"C02"}, nil)
			}
		}
	}
	for _, ob := range t.obls[n0:] {
		ob.Uses = uses
	}
}
