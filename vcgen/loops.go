package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// cand is a candidate loop invariant.
type cand struct {
	text string
	cl   *Clause
	bind map[string]candVar
	auto func(st *State, val func(candVar) *Term) *Term
	dead bool
	own  *ssa.Phi
}

// candVar is something whose value may change from iteration to iteration.
type candVar struct {
	name string
	get  func(st *State) *Term
	ty   types.Type
	key  string
}

type loopMods struct {
	heaps map[string]bool
	all   bool
	cells map[*LocalCell]bool
	regs  map[ssa.Value]bool
	alloc bool
	priv  map[privCell]bool
}

func (t *Task) handleLoop(st *State, from, header *ssa.BasicBlock, li *loopInfo) []Outcome {
	c := t.c
	t.evalPhis(st, from, header)
	t.publishAll(st)
	var phis []*ssa.Phi
	for _, in := range header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entry := st.clone()
	al := &activeLoop{header: header, frame: st.fr, body: li.body}

	// 1. what the loop modifies
	mods := &loopMods{heaps: map[string]bool{}, cells: map[*LocalCell]bool{}, regs: map[ssa.Value]bool{}, priv: map[privCell]bool{}}
	fresh1 := func(ownOK map[*ssa.Phi]bool) *State {
		s := entry.clone()
		if mods.all {
			t.havocAll(s, nil)
		}
		for _, h := range sortedKeys(mods.heaps) {
			s.mem.set(h, fresh("L$"+smtSafe(h), c.hsort(h)))
			for _, p := range s.priv {
				if p.heap == h && !mods.priv[p] {
					s.mem.set(h, tStore(s.mem.get(c, h), p.ref, tSelect(entry.mem.get(c, h), p.ref)))
				}
			}
		}
		if mods.alloc && !mods.all {
			t.growAlloc(s)
		}
		for cell := range mods.cells {
			if v, ok := s.locals[cell]; ok && v != nil {
				s.locals[cell] = fresh("L$"+smtSafe(cell.name), v.Sort)
			}
		}
		for r := range mods.regs {
			v := s.env[r]
			if v.T != nil {
				v.T = fresh("L$reg", v.T.Sort)
				s.env[r] = v
			}
		}
		for _, p := range phis {
			e := entry.env[p]
			if e.T == nil && e.A == nil {
				panic(unsupported{"loop variable without a term"})
			}
			nv := Val{T: t.fresh("L$"+smtSafe(p.Name()), p.Type())}
			if ownOK != nil && ownOK[p] {
				nv.Own = true
			}
			s.env[p] = nv
			t.typeFacts(s, nv.T, p.Type())
		}
		s.active[header] = al
		return s
	}
	t.quiet++
	var outs []Outcome
	var head *State
	ownOK := map[*ssa.Phi]bool{}
	for _, p := range phis {
		e := entry.env[p]
		if e.Own || e.T != nil && e.T.Op == "empty" {
			ownOK[p] = true
		}
	}
	// while looking for effects, inner loops are run without invariants; once
	// the effects are known, one more round gives the states to check invariants with
	nested := false
	for b := range li.body {
		if b != header && st.fr.loops[b] != nil {
			nested = true
		}
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); call.Common().IsInvoke() || f == nil || f.Blocks != nil {
					nested = true
				}
			}
		}
	}
	outer := t.noHoud
	if nested {
		t.noHoud++
	}
	for round := 0; ; round++ {
		if round > 20 {
			t.noHoud = outer
			panic(unsupported{"loop effects do not stabilise"})
		}
		al.probe = true
		head = fresh1(ownOK)
		al.probe = true
		outs = t.runFrom(head.clone(), header, 0)
		changed := false
		for _, o := range outs {
			if o.kind != oBack || o.loop != al {
				continue
			}
			for _, p := range phis {
				if ownOK[p] && !o.st.env[p].Own && !(o.st.env[p].T != nil && o.st.env[p].T.Op == "empty") {
					// unchanged from the head is fine
					if o.st.env[p].T != head.env[p].T {
						delete(ownOK, p)
						changed = true
					} else if !o.st.env[p].Own {
						delete(ownOK, p)
						changed = true
					}
				}
			}
			if o.st.mem.base != head.mem.base && !mods.all {
				mods.all, changed = true, true
			}
			for h, x := range o.st.mem.heap {
				if x != head.mem.get(c, h) && !mods.heaps[h] {
					mods.heaps[h], changed = true, true
				}
			}
			for _, p := range head.priv {
				if !mods.priv[p] && tSelect(o.st.mem.get(c, p.heap), p.ref) != tSelect(head.mem.get(c, p.heap), p.ref) {
					mods.priv[p], changed = true, true
				}
			}
			for cell, x := range head.locals {
				if o.st.locals[cell] != x && !mods.cells[cell] {
					mods.cells[cell], changed = true, true
				}
			}
			for r, v := range head.env {
				nv := o.st.env[r]
				if v.T != nil && nv.T != v.T && !isPhiOf(r, phis) && !mods.regs[r] && !li.body[blockOf(r)] {
					mods.regs[r], changed = true, true
				}
			}
			if o.st.alloc != head.alloc && !mods.alloc {
				mods.alloc, changed = true, true
			}
		}
		if !changed {
			if t.noHoud > outer {
				t.noHoud = outer
				if outer > 0 {
					break
				}
				continue
			}
			break
		}
	}
	t.noHoud = outer
	t.quiet--

	// 2. candidate invariants
	// 3. Houdini
	var kept []*cand
	if t.noHoud == 0 {
		cands := t.candidates(entry, head, outs, al, phis, mods)
		t0 := time.Now()
		kept = t.houdini(entry, head, outs, al, cands)
		houdLog("%s: loop at %s: %d candidates, %d kept, %.1fs", t.name, header, len(cands), len(kept), time.Since(t0).Seconds())
	}
	if t.quiet == 0 {
		for _, k := range kept {
			t.invKept[k.text]++
		}
	}
	// 4. the arbitrary iteration, with the invariants
	s := head.clone()
	for _, k := range kept {
		s.assume(t.candTerm(k, s, entry))
	}
	al.probe = false
	al2 := *al
	s.active[header] = &al2
	res := t.runFrom(s, header, 0)
	var keep []Outcome
	for _, o := range res {
		if o.kind == oBack && o.loop == &al2 {
			continue
		}
		keep = append(keep, o)
	}
	return keep
}

func isPhiOf(v ssa.Value, phis []*ssa.Phi) bool {
	for _, p := range phis {
		if ssa.Value(p) == v {
			return true
		}
	}
	return false
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

func (t *Task) candTerm(k *cand, st, entry *State) *Term {
	if k.auto != nil {
		return k.auto(st, func(v candVar) *Term { return v.get(st) })
	}
	ev := t.eval(st)
	ev.old = t.mem0
	ev.entry = entry.mem
	ev.entryAlloc = entry.alloc
	ev.entryVars = map[string]TV{}
	for n, v := range k.bind {
		ev.vars[n] = TV{T: v.get(st), Ty: v.ty}
		ev.entryVars[n] = TV{T: v.get(entry), Ty: v.ty}
	}
	ev.pos = k.cl.Pos
	return ev.bool(k.cl.E)
}

func (t *Task) candidates(entry, head *State, outs []Outcome, al *activeLoop, phis []*ssa.Phi, mods *loopMods) []*cand {
	c := t.c
	var vars []candVar
	for _, p := range phis {
		p := p
		if entry.env[p].T == nil {
			continue
		}
		vars = append(vars, candVar{name: p.Comment, key: p.Name(), ty: p.Type(), get: func(s *State) *Term { return s.env[p].T }})
		if entry.env[p].T.Sort == SInt {
			if _, ok := p.Type().Underlying().(*types.Basic); ok {
				vars = append(vars, candVar{name: p.Comment + "+1", key: p.Name() + "+1", ty: p.Type(), get: func(s *State) *Term { return tAdd(s.env[p].T, tInt(1)) }})
			}
		}
	}
	var cells []*LocalCell
	for cell := range mods.cells {
		cells = append(cells, cell)
	}
	sort.Slice(cells, func(i, j int) bool { return entry.locals[cells[i]].id < entry.locals[cells[j]].id })
	for _, cell := range cells {
		cell := cell
		if entry.locals[cell] == nil {
			continue
		}
		vars = append(vars, candVar{name: "cell:" + cell.name, key: fmt.Sprintf("cell%p", cell), ty: cell.ty, get: func(s *State) *Term { return s.locals[cell] }})
		if u, ok := cell.ty.Underlying().(*types.Struct); ok {
			if ct := c.tm.StructCtor(cell.ty); ct != nil {
				for i := 0; i < u.NumFields(); i++ {
					i := i
					if tSel(ct, i, entry.locals[cell]) == tSel(ct, i, head.locals[cell]) {
						continue
					}
					vars = append(vars, candVar{name: "cell:" + cell.name + "." + u.Field(i).Name(), key: fmt.Sprintf("cell%p.%d", cell, i), ty: u.Field(i).Type(), get: func(s *State) *Term { return tSel(ct, i, s.locals[cell]) }})
				}
			}
		}
	}
	// slices written in place, and loop-invariant values
	var regs []ssa.Value
	for r, v := range entry.env {
		if v.T == nil || isPhiOf(r, phis) {
			continue
		}
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, j int) bool {
		if regs[i].Pos() != regs[j].Pos() {
			return regs[i].Pos() < regs[j].Pos()
		}
		return regs[i].Name() < regs[j].Name()
	})
	seen := map[int]bool{}
	var consts []candVar
	for _, r := range regs {
		r := r
		tm := entry.env[r].T
		if mods.regs[r] {
			vars = append(vars, candVar{name: r.Name(), key: "reg" + r.Name(), ty: r.Type(), get: func(s *State) *Term { return s.env[r].T }})
			continue
		}
		if seen[tm.id] || isLit(tm) {
			continue
		}
		seen[tm.id] = true
		if _, isF := r.(*ssa.Function); isF {
			continue
		}
		consts = append(consts, candVar{name: r.Name(), key: "reg" + r.Name(), ty: r.Type(), get: func(s *State) *Term { return s.env[r].T }})
	}
	for _, r := range sortedLocals(entry, mods) {
		r := r
		consts = append(consts, candVar{name: "cell:" + r.name, key: fmt.Sprintf("cell%p", r), ty: r.ty, get: func(s *State) *Term { return s.locals[r] }})
	}
	var out []*cand
	for _, cl := range t.invs {
		cs := t.instSchemas(cl, vars, consts)
		out = append(out, cs...)
	}
	// automatic bounds for integer loop variables
	cmpSeen := map[string]bool{}
	for _, p := range phis {
		p := p
		if entry.env[p].T == nil || entry.env[p].T.Sort != SInt {
			continue
		}
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			continue
		}
		e0 := entry.env[p].T
		out = append(out, &cand{text: "auto: >= entry", auto: func(s *State, _ func(candVar) *Term) *Term { return tLe(e0, s.env[p].T) }})
		out = append(out, &cand{text: "auto: <= entry", auto: func(s *State, _ func(candVar) *Term) *Term { return tLe(s.env[p].T, e0) }})
		hv := head.env[p].T
		var terms []*Term
		for _, o := range outs {
			for _, f := range o.st.pc {
				collectCmp(f, hv, &terms)
			}
		}
		for _, x := range terms {
			x := x
			for d := int64(-1); d <= 0; d++ {
				d := d
				k := fmt.Sprintf("%d|%d|%d", hv.id, x.id, d)
				if cmpSeen[k] {
					continue
				}
				cmpSeen[k] = true
				out = append(out, &cand{text: "auto: bound", auto: func(s *State, _ func(candVar) *Term) *Term { return tLe(s.env[p].T, tAdd(x, tInt(d))) }})
			}
		}
	}
	for _, cell := range cells {
		cell := cell
		v0 := entry.locals[cell]
		if v0 == nil || v0.Sort != SInt {
			continue
		}
		out = append(out, &cand{text: "auto: cell >= entry", auto: func(s *State, _ func(candVar) *Term) *Term { return tLe(v0, s.locals[cell]) }})
		hv := head.locals[cell]
		var terms []*Term
		for _, o := range outs {
			for _, f := range o.st.pc {
				collectCmp(f, hv, &terms)
			}
		}
		for _, x := range terms {
			x := x
			out = append(out, &cand{text: "auto: cell bound", auto: func(s *State, _ func(candVar) *Term) *Term { return tLe(s.locals[cell], x) }})
		}
	}
	// heaps keep their values at old references unless the contract allows otherwise
	if !mods.all {
		for _, h := range sortedKeys(mods.heaps) {
			h := h
			if c.hsort(h).Kind != "Array" {
				continue
			}
			for _, r := range t.frameRefs(h) {
				r := r
				e := tSelect(entry.mem.get(c, h), r)
				out = append(out, &cand{text: "auto: unchanged " + h, auto: func(s *State, _ func(candVar) *Term) *Term {
					return tEq(tSelect(s.mem.get(c, h), r), e)
				}})
			}
			// frame: everything allocated at entry other than what may be modified
			e := entry.mem.get(c, h)
			a0 := entry.alloc
			x := tBVar("fr?", SInt)
			// unchanged below the entry mark
			out = append(out, &cand{text: "auto: frame " + h, auto: func(s *State, _ func(candVar) *Term) *Term {
				return tForall([]*Term{x}, tImp(tAnd(tLe(tInt(0), x), tLt(x, a0)), tEq(tSelect(s.mem.get(c, h), x), tSelect(e, x))))
			}})
			// unchanged but for the references the contract allows, below the function's entry mark
			if refs, ok := t.allowedRefs(h); ok && len(refs) > 0 {
				out = append(out, &cand{text: "auto: frame of contract " + h, auto: func(s *State, _ func(candVar) *Term) *Term {
					conds := []*Term{tLe(tInt(0), x), tLt(x, t.a0)}
					for _, r := range refs {
						conds = append(conds, tNot(tEq(x, r)))
					}
					return tForall([]*Term{x}, tImp(tAnd(conds...), tEq(tSelect(s.mem.get(c, h), x), tSelect(t.mem0.get(c, h), x))))
				}})
			}
			if refs, ok := t.allowedRefs(h); ok && len(refs) > 0 {
				out = append(out, &cand{text: "auto: frame of loop " + h, auto: func(s *State, _ func(candVar) *Term) *Term {
					conds := []*Term{tLe(tInt(0), x), tLt(x, a0)}
					for _, r := range refs {
						conds = append(conds, tNot(tEq(x, r)))
					}
					return tForall([]*Term{x}, tImp(tAnd(conds...), tEq(tSelect(s.mem.get(c, h), x), tSelect(e, x))))
				}})
			}
			if refs, ok := t.allowedRefs(h); ok && len(refs) == 0 {
				out = append(out, &cand{text: "auto: frame of contract " + h, auto: func(s *State, _ func(candVar) *Term) *Term {
					return tForall([]*Term{x}, tImp(tAnd(tLe(tInt(0), x), tLt(x, t.a0)), tEq(tSelect(s.mem.get(c, h), x), tSelect(t.mem0.get(c, h), x))))
				}})
			}
		}
	}
	return out
}

func sortedLocals(entry *State, mods *loopMods) []*LocalCell {
	var out []*LocalCell
	for cell, v := range entry.locals {
		if !mods.cells[cell] && v != nil && !isLit(v) {
			out = append(out, cell)
		}
	}
	sort.Slice(out, func(i, j int) bool { return entry.locals[out[i]].id < entry.locals[out[j]].id })
	return out
}

// frameRefs are references at which a heap is worth tracking.
func (t *Task) frameRefs(h string) []*Term { return nil }

// allowedRefs are the references at which the contract allows h to change.
func (t *Task) allowedRefs(h string) ([]*Term, bool) {
	var out []*Term
	for _, cl := range t.contr.Clauses {
		if cl.Kind != "modifies" {
			continue
		}
		for _, m := range cl.Mods {
			if m.Except {
				continue
			}
			if m.All {
				exc := false
				for _, m2 := range cl.Mods {
					if m2.Except {
						for _, x := range t.c.modHeaps(m2, cl.Pos) {
							if x == h {
								exc = true
							}
						}
					}
				}
				if !exc {
					return nil, false
				}
				continue
			}
			for _, x := range t.c.modHeaps(m, cl.Pos) {
				if x != h {
					continue
				}
				if m.At == nil {
					return nil, false
				}
				ev := &SpecEval{c: t.c, vars: t.vars, mem: t.mem0, alloc: t.a0, pos: cl.Pos}
				out = append(out, ev.eval(m.At).T)
			}
		}
	}
	return out, true
}

func collectCmp(f, v *Term, out *[]*Term) {
	switch f.Op {
	case "not", "and", "or":
		for _, a := range f.Args {
			collectCmp(a, v, out)
		}
	case "<", "<=":
		a, b := f.Args[0], f.Args[1]
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			x, o := pr[0], pr[1]
			d := tSub(x, v)
			if d.Op == "int" && !occurs(v, o) {
				for _, e := range *out {
					if e == o {
						return
					}
				}
				*out = append(*out, o)
			}
		}
	}
}

// instSchemas instantiates an invariant schema.
func (t *Task) instSchemas(cl *Clause, vars, consts []candVar) []*cand {
	var metas []Bind
	metas = cl.Binds
	var out []*cand
	var rec func(i int, bind map[string]candVar)
	rec = func(i int, bind map[string]candVar) {
		if len(out) > 400 {
			return
		}
		if i == len(metas) {
			// at least one changing thing, or no metavariables at all
			b := map[string]candVar{}
			var ns []string
			for n, v := range bind {
				b[n] = v
				ns = append(ns, n+"="+v.name)
			}
			sort.Strings(ns)
			out = append(out, &cand{cl: cl, bind: b, text: clauseName(cl) + " {" + strings.Join(ns, ",") + "}"})
			return
		}
		want := t.c.resolveType(metas[i].Ty, cl.Pos)
		ws := t.c.tm.Sort(want)
		all := vars
		if strings.HasPrefix(metas[i].Name, "$c") {
			all = consts
		}
		for _, v := range all {
			if t.c.tm.Sort(v.ty) != ws {
				continue
			}
			// $r..: a slice written in place; $p..: a variable assigned to
			if n := metas[i].Name; strings.HasPrefix(n, "$r") && !strings.HasPrefix(v.key, "reg") || strings.HasPrefix(n, "$p") && strings.HasPrefix(v.key, "reg") {
				continue
			}
			if _, spec := want.(*specTy); !spec {
				if _, spec := v.ty.(*specTy); !spec && !types.Identical(v.ty.Underlying(), want.Underlying()) {
					continue
				}
			}
			bind[metas[i].Name] = v
			rec(i+1, bind)
			delete(bind, metas[i].Name)
		}
	}
	rec(0, map[string]candVar{})
	return out
}

// houdini keeps the candidates which hold initially and are preserved.
func (t *Task) houdini(entry, head *State, outs []Outcome, al *activeLoop, cands []*cand) []*cand {
	var alive []*cand
	// initially
	var goals []*Term
	var cs []*cand
	for _, k := range cands {
		g := t.safeCand(k, entry, entry)
		if g == nil {
			continue
		}
		cs = append(cs, k)
		goals = append(goals, g)
	}
	res := t.proveMany(entry.pc, goals, cs)
	for i, k := range cs {
		if res[i] {
			alive = append(alive, k)
		} else if k.cl != nil {
			houdLog("%s: not initially: %s: %s", t.name, k.text, goals[i])
		}
	}
	var backs []Outcome
	for _, o := range outs {
		if o.kind == oBack && o.loop == al {
			backs = append(backs, o)
		}
	}
	for {
		var hyp []*Term
		for _, k := range alive {
			hyp = append(hyp, t.candTerm(k, head, entry))
		}
		dropped := false
		for _, o := range backs {
			var live []*cand
			var gs []*Term
			for _, k := range alive {
				if k.dead {
					continue
				}
				g := t.safeCand(k, o.st, entry)
				if g == nil {
					k.dead, dropped = true, true
					continue
				}
				live = append(live, k)
				gs = append(gs, g)
			}
			pc := append(append([]*Term{}, hyp...), o.st.pc...)
			res := t.proveMany(pc, gs, live)
			for i, k := range live {
				if !res[i] {
					k.dead, dropped = true, true
					if k.cl != nil {
						houdLog("%s: not preserved: %s: %s", t.name, k.text, gs[i])
						for _, f := range o.st.pc {
							houdLog("      %s", f)
						}
					}
				}
			}
		}
		if !dropped {
			return alive
		}
		var n []*cand
		for _, k := range alive {
			if !k.dead {
				n = append(n, k)
			}
		}
		alive = n
	}
}

func (t *Task) safeCand(k *cand, st, entry *State) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return t.candTerm(k, st, entry)
}

// houdLog explains dropped invariants (for debugging).
func houdLog(f string, a ...any) {
	if os.Getenv("VC_HOUD") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
