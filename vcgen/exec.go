package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type AddrKind int

const (
	aLocal AddrKind = iota
	aHeap
	aRef // a whole struct in the heap
	aGlobal
	aElem  // an element of the slice held by an SSA value
	aConst // a read-only value
)

type PathEl struct {
	Ct    *Ctor
	Field int
	Idx   *Term
}

type Addr struct {
	Kind AddrKind
	Cell *LocalCell
	Heap string
	Ref  *Term
	Glob string
	Base ssa.Value
	Idx  *Term
	Val  *Term
	St   types.Type // aRef: struct type
	Path []PathEl
	Ty   types.Type // type of what is pointed to
}

func (a *Addr) String() string {
	s := ""
	switch a.Kind {
	case aLocal:
		s = fmt.Sprintf("local:%p", a.Cell)
	case aHeap:
		s = "heap:" + a.Heap + "@" + a.Ref.String()
	case aRef:
		s = "ref:" + a.Ref.String()
	case aGlobal:
		s = "global:" + a.Glob
	case aElem:
		s = fmt.Sprintf("elem:%p@%s", a.Base, a.Idx)
	}
	for _, p := range a.Path {
		if p.Ct != nil {
			s += fmt.Sprintf(".%d", p.Field)
		} else {
			s += "[" + p.Idx.String() + "]"
		}
	}
	return s
}

type LocalCell struct {
	name string
	ty   types.Type
	iter *Iter
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Val
}

type Iter struct {
	Cell  *LocalCell // position
	Seq   *Term      // keys (maps) or nil
	Map   *Term
	MapTy types.Type
	Str   *Term
}

// Val is the value of an SSA register.
type Val struct {
	T    *Term
	A    *Addr
	Tup  []Val
	Clo  *Closure
	It   *Iter
	Org  *Addr // where a slice or map was loaded from
	Own  bool  // slice storage is exclusively held by this value
	Cap  bool  // slice capped to its length: appending copies
	Pend string
	Bnd  *Closure
}

type deferCall struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	depth  int
	loops  map[*ssa.BasicBlock]*loopInfo
}

type State struct {
	mem    *Mem
	alloc  *Term
	pc     []*Term
	env    map[ssa.Value]Val
	locals map[*LocalCell]*Term
	defers []*deferCall
	fr     *Frame
	active map[*ssa.BasicBlock]*activeLoop // cut loops we are inside of
	pend   map[string]*pendAppend
	unpub  map[*Term]map[string]*Term // immutable fields of objects under construction
	trace  []string
	priv   []privCell // variables which only this function writes
}

// privCell is a variable on the heap which no other code can write: calls
// leave it as it is.
type privCell struct {
	ref  *Term
	heap string
}

// isPrivate reports whether a captured variable is only ever written by the
// function it belongs to.
func isPrivate(a *ssa.Alloc) bool {
	var readOnly func(v ssa.Value, own bool) bool
	readOnly = func(v ssa.Value, own bool) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if !own || r.Val == v {
					return false
				}
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !readOnly(r, own) {
					return false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !readOnly(fn.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return readOnly(a, true)
}

type pendAppend struct {
	addr *Addr
	pos  string
}

func (s *State) clone() *State {
	n := *s
	n.mem = s.mem.clone()
	n.env = make(map[ssa.Value]Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.locals = make(map[*LocalCell]*Term, len(s.locals)+4)
	for k, v := range s.locals {
		n.locals[k] = v
	}
	n.defers = append([]*deferCall(nil), s.defers...)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.active = make(map[*ssa.BasicBlock]*activeLoop, len(s.active))
	for k, v := range s.active {
		n.active[k] = v
	}
	n.pend = make(map[string]*pendAppend, len(s.pend))
	for k, v := range s.pend {
		n.pend[k] = v
	}
	if len(s.unpub) > 0 {
		n.unpub = make(map[*Term]map[string]*Term, len(s.unpub))
		for r, fs := range s.unpub {
			m := make(map[string]*Term, len(fs))
			for h, v := range fs {
				m[h] = v
			}
			n.unpub[r] = m
		}
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

func (s *State) assume(t *Term) {
	if t == nil || t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

// decide evaluates a condition by the facts on the path: 1 true, -1 false, 0 unknown.
func (s *State) decide(c *Term) int {
	switch c.Op {
	case "true":
		return 1
	case "false":
		return -1
	}
	nc := tNot(c)
	for _, p := range s.pc {
		if p == c {
			return 1
		}
		if p == nc {
			return -1
		}
		if p.Op == "is" {
			if c.Op == "is" && p.Args[0] == c.Args[0] && p.Ctor != c.Ctor {
				return -1
			}
			if nc.Op == "is" && p.Args[0] == nc.Args[0] && p.Ctor != nc.Ctor {
				return 1
			}
		}
	}
	switch c.Op {
	case "and":
		r := 1
		for _, a := range c.Args {
			switch s.decide(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case "or":
		r := -1
		for _, a := range c.Args {
			switch s.decide(a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	case "not":
		return -s.decide(c.Args[0])
	case "app":
		if strings.HasPrefix(c.Name, "impl.") {
			for _, p := range s.pc {
				if p.Op == "is" && p.Args[0] == c.Args[0] {
					if p.Name == "inil" {
						return -1
					}
				}
			}
		}
	}
	return 0
}

type OutKind int

const (
	oReturn OutKind = iota
	oBack
	oPanic
	oCut
)

type Outcome struct {
	kind OutKind
	st   *State
	vals []Val
	loop *activeLoop
	msg  string
}

// Obligation is a proof obligation.
type Obligation struct {
	Task    string
	Kind    string // ensures requires frame safety own guard unsupported lemma inv vacuity
	Props   []string
	Name    string
	Pos     string
	PC      []*Term
	Goal    *Term
	Trace   []string
	Contr   *Contract
	Clause  *Clause
	Result  string // proved failed unknown trivially
	Backend string
	Model   string
	Secs    float64
	Uses    []*Term
	lemIdx  int
}

// Task is the verification of one function against one contract.
type Task struct {
	c       *Ctx
	name    string
	contr   *Contract
	fn      *ssa.Function
	obls    []*Obligation
	uses    map[*Contract]bool
	usesLem map[string]bool
	invs    []*Clause
	folds   []*Clause
	assume  map[string]bool // recorded assumptions
	inlined map[string]bool
	quiet   int // >0: no obligations (probing)
	loopsN  int
	invKept map[string]int
	a0      *Term
	mem0    *Mem
	houd    map[string][]*cand
	queries *QueryStats
	specEnv func(st *State) *SpecEval
	hcache  map[string]bool
	paths   int
	canary  [][]*Term
	vars    map[string]TV
	addrRef map[string]*Term
	secs    float64
	lem     *Lemma
	selfTy  types.Type
	ifaceTy types.Type
	pcEntry []*Term
	noHoud  int
}

type unsupported struct{ msg string }

func (t *Task) pos(p token.Pos) string {
	if !p.IsValid() {
		return t.name
	}
	ps := t.c.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, t.c.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (t *Task) obligate(st *State, kind, name string, goal *Term, p token.Pos, props []string, cl *Clause) {
	if t.quiet > 0 {
		return
	}
	o := &Obligation{Task: t.name, Kind: kind, Props: props, Name: name, Pos: t.pos(p), PC: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Trace: st.trace, Contr: t.contr, Clause: cl}
	t.obls = append(t.obls, o)
}

// safe emits a safety obligation and assumes it afterwards.
func (t *Task) safe(st *State, name string, goal *Term, p token.Pos) {
	if goal.Op != "true" && st.decide(goal) != 1 {
		if !t.contr.Flags["nosafety"] {
			t.obligate(st, "safety", name, goal, p, []string{"C20"}, nil)
		}
		st.assume(goal)
	} else if t.quiet == 0 && !t.contr.Flags["nosafety"] {
		t.obligate(st, "safety", name, tTrue, p, []string{"C20"}, nil)
	}
}

// typeFacts are the facts which hold of every value of a type.
func (t *Task) typeFacts(st *State, v *Term, ty types.Type) {
	if v == nil {
		return
	}
	if _, ok := ty.(*specTy); ok {
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer, *types.Chan:
		if v.Op == "int" || v.Op == "app" && strings.HasPrefix(v.Name, "faddr.") {
			return
		}
		st.assume(tLe(tInt(0), v))
		st.assume(tLt(v, st.alloc))
	case *types.Map:
		if v.Sort == SInt && v.Op != "int" {
			st.assume(tLe(tInt(0), v))
			st.assume(tLt(v, st.alloc))
		}
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			st.assume(tLe(tInt(0), v))
		}
	}
}

func (t *Task) fresh(prefix string, ty types.Type) *Term {
	return fresh(prefix, t.c.tm.Sort(ty))
}

// ---- values ----

func (t *Task) val(st *State, v ssa.Value) Val {
	if x, ok := st.env[v]; ok {
		return x
	}
	c := t.c
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Val{T: c.tm.Zero(v.Type()), Own: true, Cap: true}
		}
		return Val{T: constTerm(v.Value, c.tm.Sort(v.Type()))}
	case *ssa.Function:
		name := "clo_" + smtSafe(c.fnName(v))
		t.c.regClosure(name, v, nil)
		return Val{T: tApp(name, SFn), Clo: &Closure{Fn: v}}
	case *ssa.Global:
		n := c.globalName(v.Object().(*types.Var))
		return Val{A: &Addr{Kind: aGlobal, Glob: n, Ty: v.Type().(*types.Pointer).Elem()}}
	case *ssa.Builtin:
		return Val{}
	}
	panic(unsupported{fmt.Sprintf("value %s (%T) in %s", v, v, st.fr.fn)})
}

// term is the SMT term of a register, converting addresses.
func (t *Task) term(st *State, v ssa.Value) *Term {
	return t.toTerm(st, t.val(st, v), v.Type())
}

func (t *Task) toTerm(st *State, x Val, ty types.Type) *Term {
	if x.T != nil {
		return x.T
	}
	if x.A != nil {
		return t.addrTerm(st, x.A)
	}
	panic(unsupported{fmt.Sprintf("no term for a value of type %s in %s", ty, st.fr.fn)})
}

// addrTerm makes an address a first-class reference.
func (t *Task) addrTerm(st *State, a *Addr) *Term {
	switch a.Kind {
	case aRef:
		if len(a.Path) == 0 {
			return a.Ref
		}
	case aHeap:
		if len(a.Path) == 0 {
			if strings.HasPrefix(a.Heap, "C.") {
				return a.Ref
			}
			t.publish(st, a.Ref)
			return tApp("faddr."+a.Heap, SInt, a.Ref)
		}
	case aGlobal:
		if len(a.Path) == 0 {
			return tApp("gaddr."+a.Glob, SInt)
		}
	case aElem:
		// the element escapes: a new reference to a copy
		t.assumption("a pointer to a slice element is modelled as a pointer to a copy of it (" + t.name + ")")
		return t.copyOut(st, t.load(st, a), a.Ty)
	case aLocal:
		t.assumption("a pointer to a local variable passed on is modelled as a pointer to a copy of it (" + t.name + ")")
		return t.copyOut(st, t.load(st, a), a.Ty)
	}
	panic(unsupported{"address " + a.String()})
}

func (t *Task) copyOut(st *State, v *Term, ty types.Type) *Term {
	r := t.newRef(st, ty)
	if _, ok := ty.Underlying().(*types.Struct); ok {
		t.begin(st, ty, r)
		t.storeStruct(st, ty, r, v, token.NoPos)
		t.publish(st, r)
	} else {
		h := t.c.cellHeap(ty)
		st.mem.set(h, tStore(st.mem.get(t.c, h), r, v))
	}
	return r
}

// ---- immutable fields ----

// begin starts the construction of an object with immutable fields.
func (t *Task) begin(st *State, ty types.Type, r *Term) {
	if t.c.tm.StructCtor(ty) == nil {
		return
	}
	for _, h := range t.c.structHeaps(ty) {
		if t.c.constHeaps[h] {
			if st.unpub == nil {
				st.unpub = map[*Term]map[string]*Term{}
			}
			if st.unpub[r] == nil {
				st.unpub[r] = map[string]*Term{}
			}
			st.unpub[r][h] = nil
		}
	}
}

// publish: from now on others may see the object, and its immutable fields
// keep the values they have.
func (t *Task) publish(st *State, r *Term) {
	fs, ok := st.unpub[r]
	if !ok {
		return
	}
	delete(st.unpub, r)
	for _, h := range sortedKeys(fs) {
		if v := fs[h]; v != nil {
			st.assume(tEq(tSelect(st.mem.get(t.c, h), r), v))
		}
	}
}

func (t *Task) publishAll(st *State) {
	for len(st.unpub) > 0 {
		var first *Term
		for r := range st.unpub {
			if first == nil || r.id < first.id {
				first = r
			}
		}
		t.publish(st, first)
	}
}

// publishUses publishes the objects which the instruction lets escape.
func (t *Task) publishUses(st *State, in ssa.Instruction) {
	if len(st.unpub) == 0 {
		return
	}
	var keep ssa.Value
	switch x := in.(type) {
	case *ssa.FieldAddr:
		keep = x.X
	case *ssa.UnOp:
		keep = x.X
	case *ssa.Store:
		keep = x.Addr
		if x.Val == x.Addr {
			keep = nil
		}
	case *ssa.DebugRef, *ssa.BinOp:
		return
	}
	var ops []*ssa.Value
	for _, op := range in.Operands(ops) {
		if *op == nil || *op == keep {
			continue
		}
		if v, ok := st.env[*op]; ok && v.T != nil {
			t.publish(st, v.T)
		}
	}
}

func (t *Task) heapLoad(st *State, h string, ref *Term) *Term {
	if fs, ok := st.unpub[ref]; ok {
		if v := fs[h]; v != nil {
			return v
		}
	}
	v := tSelect(st.mem.get(t.c, h), ref)
	if p := t.c.fieldInvs[h]; p != nil {
		st.assume(t.c.appSpec(p, []*Term{v}))
	}
	return v
}

func (t *Task) heapStore(st *State, h string, ref, v *Term, p token.Pos) {
	if f := t.c.fieldInvs[h]; f != nil && v.Sort == f.Formals[0].Sort {
		t.obligate(st, "fieldinv", "invariant "+f.Name+" of field "+strings.TrimPrefix(h, "H."), t.c.appSpec(f, []*Term{v}), p, t.c.fieldInvProps[h], nil)
	}
	if t.c.constHeaps[h] {
		fs, ok := st.unpub[ref]
		if !ok {
			t.obligate(st, "frame", "field "+strings.TrimPrefix(h, "H.")+" is changed after construction", tFalse, p, nil, nil)
			return
		}
		fs[h] = v
		return
	}
	st.mem.set(h, tStore(st.mem.get(t.c, h), ref, v))
}

func (t *Task) loadStruct(st *State, ty types.Type, ref *Term) *Term {
	ct := t.c.tm.StructCtor(ty)
	if ct == nil || st.unpub[ref] == nil {
		return t.c.loadStruct(st.mem, ty, ref)
	}
	args := make([]*Term, len(ct.Fields))
	for i := range args {
		args[i] = t.heapLoad(st, t.c.fieldHeap(ty, i), ref)
	}
	return tCtor(ct, args...)
}

func (t *Task) storeStruct(st *State, ty types.Type, ref, v *Term, p token.Pos) {
	ct := t.c.tm.StructCtor(ty)
	if ct == nil {
		t.c.storeStruct(st.mem, ty, ref, v)
		return
	}
	for i := range ct.Fields {
		t.heapStore(st, t.c.fieldHeap(ty, i), ref, tSel(ct, i, v), p)
	}
}

func (t *Task) newRef(st *State, ty types.Type) *Term {
	r := st.alloc
	st.alloc = tAdd(st.alloc, tInt(1))
	// cells of other types' fields at this address are never used; where they
	// are declared typed they are empty by convention
	for _, h := range sortedKeys(t.c.typed) {
		own := false
		if ty != nil && t.c.tm.StructCtor(ty) != nil {
			for _, f := range t.c.structHeaps(ty) {
				own = own || f == h
			}
		}
		if !own {
			st.assume(tEq(tSelect(st.mem.get(t.c, h), r), t.c.tm.Zero(t.c.typed[h])))
		}
	}
	return r
}

func (t *Task) assumption(s string) { t.assume[s] = true }

// pointee address of a pointer value
func (t *Task) deref(st *State, x Val, ptrTy types.Type, p token.Pos) *Addr {
	if x.A != nil {
		return x.A
	}
	el := ptrTy.Underlying().(*types.Pointer).Elem()
	t.safe(st, "nil dereference", tNot(tEq(x.T, tInt(0))), p)
	if _, ok := el.Underlying().(*types.Struct); ok {
		return &Addr{Kind: aRef, Ref: x.T, St: el, Ty: el}
	}
	return &Addr{Kind: aHeap, Heap: t.c.cellHeap(el), Ref: x.T, Ty: el}
}

func (t *Task) guardCheck(st *State, a *Addr, write bool, p token.Pos) {
	if a.Kind != aHeap {
		return
	}
	g, ok := t.c.guards[a.Heap]
	if !ok {
		return
	}
	// objects allocated by this function are not shared yet
	if isFreshRef(a.Ref) {
		return
	}
	held := st.mem.get(t.c, "$held")
	goal := tOr(tSelect(held, tApp("faddr."+g, SInt, a.Ref)), tLe(t.a0, a.Ref))
	t.obligate(st, "guard", "access to "+strings.TrimPrefix(a.Heap, "H.")+" without holding "+strings.TrimPrefix(g, "H."), goal, p, []string{"C24"}, nil)
}

func (t *Task) loadBase(st *State, a *Addr) *Term {
	switch a.Kind {
	case aLocal:
		v, ok := st.locals[a.Cell]
		if !ok {
			panic(unsupported{"load from unknown local"})
		}
		return v
	case aHeap:
		return t.heapLoad(st, a.Heap, a.Ref)
	case aRef:
		return t.loadStruct(st, a.St, a.Ref)
	case aGlobal:
		return t.globalVal(st, a)
	case aElem:
		b, i := t.val(st, a.Base).T, a.Idx
		for b.Op == "extract" {
			// the index is within bounds
			b, i = b.Args[0], tAdd(b.Args[1], i)
		}
		return tNth(b, i)
	case aConst:
		return a.Val
	}
	panic(unsupported{"load"})
}

func (t *Task) globalVal(st *State, a *Addr) *Term {
	if k, ok := t.c.constGlobal(a.Glob); ok {
		return k
	}
	return st.mem.get(t.c, a.Glob)
}

func (t *Task) load(st *State, a *Addr) *Term {
	if a.Kind == aRef && len(a.Path) > 0 && a.Path[0].Ct != nil {
		panic(unsupported{"path on struct reference"})
	}
	v := t.loadBase(st, a)
	for _, p := range a.Path {
		if p.Ct != nil {
			v = tSel(p.Ct, p.Field, v)
		} else {
			v = tNth(v, p.Idx)
		}
	}
	return v
}

func updatePath(v *Term, path []PathEl, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.Ct != nil {
		args := make([]*Term, len(p.Ct.Fields))
		for i := range args {
			args[i] = tSel(p.Ct, i, v)
		}
		args[p.Field] = updatePath(args[p.Field], path[1:], nv)
		return tCtor(p.Ct, args...)
	}
	return tSeqSet(v, p.Idx, updatePath(tNth(v, p.Idx), path[1:], nv))
}

func (t *Task) store(st *State, a *Addr, nv *Term, p token.Pos) {
	switch a.Kind {
	case aLocal:
		if len(a.Path) == 0 {
			st.locals[a.Cell] = nv
			return
		}
		st.locals[a.Cell] = updatePath(st.locals[a.Cell], a.Path, nv)
	case aHeap:
		if len(a.Path) > 0 {
			nv = updatePath(t.heapLoad(st, a.Heap, a.Ref), a.Path, nv)
		}
		t.heapStore(st, a.Heap, a.Ref, nv, p)
	case aRef:
		if len(a.Path) > 0 {
			panic(unsupported{"store through path of struct reference"})
		}
		t.storeStruct(st, a.St, a.Ref, nv, p)
	case aGlobal:
		if len(a.Path) > 0 {
			nv = updatePath(st.mem.get(t.c, a.Glob), a.Path, nv)
		}
		st.mem.set(a.Glob, nv)
	case aElem:
		b := t.val(st, a.Base)
		if !b.Own {
			t.obligate(st, "own", "write to a slice element that may be shared", tFalse, p, []string{"C02"}, nil)
		}
		if len(a.Path) > 0 {
			nv = updatePath(tNth(b.T, a.Idx), a.Path, nv)
		}
		b.T = tSeqSet(b.T, a.Idx, nv)
		b.Org = nil
		st.env[a.Base] = b
	default:
		panic(unsupported{"store to " + a.String()})
	}
}

// ---- running ----

const maxPaths = 4000

func (t *Task) runFrom(st *State, b *ssa.BasicBlock, idx int) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		t.publishUses(st, in)
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return t.edge(st, b, b.Succs[0])
		case *ssa.If:
			cond := t.term(st, x.Cond)
			switch st.decide(cond) {
			case 1:
				return t.edge(st, b, b.Succs[0])
			case -1:
				return t.edge(st, b, b.Succs[1])
			}
			s2 := st.clone()
			st.assume(cond)
			s2.assume(tNot(cond))
			if t.quiet == 0 {
				t.paths++
				if t.paths > maxPaths {
					panic(unsupported{"too many paths"})
				}
			}
			out := t.edge(st, b, b.Succs[0])
			return append(out, t.edge(s2, b, b.Succs[1])...)
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				v := t.val(st, r)
				vs = append(vs, Val{T: t.toTerm(st, v, r.Type()), Clo: v.Clo, Own: v.Own})
			}
			return []Outcome{{kind: oReturn, st: st, vals: vs}}
		case *ssa.Panic:
			t.safe(st, "explicit panic", tFalse, x.Pos())
			return []Outcome{{kind: oPanic, st: st}}
		case *ssa.RunDefers:
			if len(st.defers) == 0 {
				continue
			}
			ds := st.defers
			st.defers = nil
			states := []*State{st}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*State
				for _, s := range states {
					for _, o := range t.callCommon(s, ds[k].call, ds[k].fn, ds[k].args, ds[k].pos, nil) {
						if o.kind == oReturn {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			var outs []Outcome
			for _, s := range states {
				outs = append(outs, t.runFrom(s, b, i+1)...)
			}
			return outs
		case *ssa.Call:
			args := t.callArgs(st, &x.Call)
			var fv Val
			if !x.Call.IsInvoke() {
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					fv = t.val(st, x.Call.Value)
				}
			} else {
				fv = t.val(st, x.Call.Value)
			}
			outs := t.callCommon(st, &x.Call, fv, args, x.Pos(), x)
			if len(outs) == 1 && outs[0].kind == oReturn && outs[0].st == st {
				t.setResult(st, x, outs[0].vals)
				continue
			}
			var res []Outcome
			for _, o := range outs {
				if o.kind != oReturn {
					res = append(res, o)
					continue
				}
				t.setResult(o.st, x, o.vals)
				res = append(res, t.runFrom(o.st, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			d := &deferCall{call: &x.Call, args: t.callArgs(st, &x.Call), pos: x.Pos()}
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = t.val(st, x.Call.Value)
			}
			st.defers = append(st.defers, d)
		case *ssa.TypeAssert:
			outs := t.typeAssert(st, x)
			if len(outs) == 1 && outs[0] == st {
				continue
			}
			var res []Outcome
			for _, s := range outs {
				res = append(res, t.runFrom(s, b, i+1)...)
			}
			return res
		default:
			t.instr(st, in)
		}
	}
	panic(unsupported{"block without terminator"})
}

func (t *Task) setResult(st *State, x *ssa.Call, vals []Val) {
	sig := x.Call.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		if len(vals) == 1 {
			st.env[x] = vals[0]
		}
	default:
		st.env[x] = Val{Tup: vals}
	}
}

func (t *Task) callArgs(st *State, c *ssa.CallCommon) []Val {
	var out []Val
	for _, a := range c.Args {
		out = append(out, t.val(st, a))
	}
	return out
}

func (t *Task) edge(st *State, from, to *ssa.BasicBlock) []Outcome {
	// leaving loops that are being cut
	for h, al := range st.active {
		if al.frame == st.fr && !al.body[to] {
			if al.probe {
				return []Outcome{{kind: oCut, st: st, loop: al}}
			}
			delete(st.active, h)
			st.pinned(h)
		}
	}
	if li := st.fr.loops[to]; li != nil {
		if al := st.active[to]; al != nil && al.frame == st.fr {
			// back edge
			t.evalPhis(st, from, to)
			return []Outcome{{kind: oBack, st: st, loop: al}}
		}
		if t.unrolls(st, from, to) {
			t.evalPhis(st, from, to)
			return t.runFrom(st, to, 0)
		}
		return t.handleLoop(st, from, to, li)
	}
	t.evalPhis(st, from, to)
	if len(t.folds) > 0 && t.quiet == 0 {
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v := st.env[p]; v.T != nil {
				v.T = t.fold(st, v.T, p.Type())
				st.env[p] = v
			}
		}
	}
	return t.runFrom(st, to, 0)
}

// maxUnroll is the number of iterations up to which a counting loop with
// constant bounds is executed as it is.
const maxUnroll = 4

// unrolls tells whether a loop counts from a known number to a known number
// and makes few iterations, so that each of them is executed.
func (t *Task) unrolls(st *State, from, header *ssa.BasicBlock) bool {
	br, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || cond.Block() != header {
		return false
	}
	next := func(v ssa.Value) *ssa.Phi {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() != 1 {
			return nil
		}
		p, _ := b.X.(*ssa.Phi)
		return p
	}
	off := int64(0)
	phi, ok := cond.X.(*ssa.Phi)
	if !ok {
		phi = next(cond.X)
		off = 1
	}
	if phi == nil || phi.Block() != header {
		return false
	}
	var start *Term
	for i, p := range header.Preds {
		if p == from {
			start = t.val(st, phi.Edges[i]).T
		}
		if header.Dominates(p) && next(phi.Edges[i]) != phi {
			return false
		}
	}
	limit := cond.Y
	if in, ok := limit.(ssa.Instruction); ok && (in.Block() == header || !in.Block().Dominates(header)) {
		return false
	}
	end := t.val(st, limit).T
	if start == nil || end == nil || start.Op != "int" || end.Op != "int" {
		return false
	}
	n := end.Int.Int64() - start.Int.Int64() - off
	return n <= maxUnroll
}

// pinned replaces the variables of a loop being left by the values the facts on
// the path leave for them.
func (s *State) pinned(header *ssa.BasicBlock) {
	for _, in := range header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x := s.env[p].T
		if x == nil || x.Sort != SInt || len(x.Args) > 0 || !strings.HasPrefix(x.Name, "L$") {
			continue
		}
		lo, hi := map[int]bool{}, map[int]*Term{}
		var at *Term
		for _, f := range s.pc {
			neg := f.Op == "not"
			if neg {
				f = f.Args[0]
			}
			if f.Op != "<=" && f.Op != "<" {
				continue
			}
			d := tSub(f.Args[1], f.Args[0]) // >= 0, > 0
			switch {
			case neg && f.Op == "<=":
				d = tSub(tSub(tInt(0), d), tInt(1))
			case neg:
				d = tSub(tInt(0), d)
			case f.Op == "<":
				d = tSub(d, tInt(1))
			}
			has := func(t *Term) bool {
				r := false
				walk([]*Term{t}, func(y *Term) { r = r || y == x })
				return r
			}
			if e := tSub(x, d); !has(e) { // x >= e
				lo[e.id] = true
				if hi[e.id] != nil {
					at = e
				}
			}
			if e := tAdd(x, d); !has(e) { // x <= e
				hi[e.id] = e
				if lo[e.id] {
					at = e
				}
			}
		}
		if at == nil {
			continue
		}
		sub := map[int]*Term{x.id: at}
		pc := s.pc
		s.pc = nil
		for _, f := range pc {
			s.assume(subst(f, sub))
		}
		s.assume(tEq(x, at))
		for v, w := range s.env {
			if w.T != nil {
				w.T = subst(w.T, sub)
				s.env[v] = w
			}
		}
		for l, w := range s.locals {
			s.locals[l] = subst(w, sub)
		}
		for h, w := range s.mem.heap {
			s.mem.heap[h] = subst(w, sub)
		}
	}
}

// fold replaces a value by what the contract says it may be written as, when
// that can be shown.
func (t *Task) fold(st *State, v *Term, ty types.Type) *Term {
	for _, cl := range t.folds {
		b := cl.Binds[0]
		if !types.Identical(ty, t.c.resolveType(b.Ty, cl.Pos)) {
			continue
		}
		ev := t.eval(st)
		ev.old = t.mem0
		ev.pos = cl.Pos
		w := ev.coerce(ev.eval(cl.E), ty)
		if w == v {
			continue
		}
		g := tEq(v, w)
		if st.decide(g) == 1 {
			return w
		}
		o := &Obligation{Task: t.name, Kind: "fold", PC: append([]*Term{}, st.pc...), Goal: g}
		t.c.discharge(o, nil, true)
		if o.Result == "proved" {
			// what is known of loops up to here is known of w, or given up
			var pc []*Term
			sub := map[int]*Term{v.id: w}
			for _, f := range st.pc {
				f = subst(f, sub)
				loop := false
				walk([]*Term{f}, func(x *Term) {
					loop = loop || len(x.Args) == 0 && strings.HasPrefix(x.Name, "L$")
				})
				if !loop {
					pc = append(pc, f)
				}
			}
			st.pc = nil
			for _, f := range pc {
				st.assume(f)
			}
			return w
		}
		houdLog("%s: not folded: %s = %s", t.name, v, w)
	}
	return v
}

func (t *Task) evalPhis(st *State, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := t.val(st, p.Edges[k])
		vs = append(vs, v)
		ps = append(ps, p)
	}
	for i, p := range ps {
		st.env[p] = vs[i]
	}
}

// typeAssert
func (t *Task) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	c := t.c
	v := t.term(st, x.X)
	ty := x.AssertedType
	var cond, res *Term
	if types.IsInterface(ty) {
		cond = c.tm.Implements(v, ty)
		res = v
	} else {
		ct := c.tm.IfaceCtor(ty)
		cond = tIs(ct, v)
		res = tSel(ct, 0, v)
	}
	okv := Val{T: res}
	if !x.CommaOk {
		t.safe(st, "type assertion to "+types.TypeString(ty, nil), cond, x.Pos())
		st.assume(cond)
		t.typeFacts(st, res, ty)
		st.env[x] = okv
		return []*State{st}
	}
	d := st.decide(cond)
	zero := Val{T: c.tm.Zero(ty)}
	switch d {
	case 1:
		t.typeFacts(st, res, ty)
		st.env[x] = Val{Tup: []Val{okv, {T: tTrue}}}
		return []*State{st}
	case -1:
		st.env[x] = Val{Tup: []Val{zero, {T: tFalse}}}
		return []*State{st}
	}
	s2 := st.clone()
	st.assume(cond)
	t.typeFacts(st, res, ty)
	st.env[x] = Val{Tup: []Val{okv, {T: tTrue}}}
	s2.assume(tNot(cond))
	s2.env[x] = Val{Tup: []Val{zero, {T: tFalse}}}
	return []*State{st, s2}
}

func (t *Task) instr(st *State, in ssa.Instruction) {
	c := t.c
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		if _, isArr := el.Underlying().(*types.Array); isArr || !x.Heap {
			cell := &LocalCell{name: x.Comment, ty: el}
			st.locals[cell] = c.tm.Zero(el)
			st.env[x] = Val{A: &Addr{Kind: aLocal, Cell: cell, Ty: el}}
			return
		}
		r := t.newRef(st, el)
		if _, ok := el.Underlying().(*types.Struct); ok {
			t.begin(st, el, r)
			t.storeStruct(st, el, r, c.tm.Zero(el), x.Pos())
			if isPrivate(x) && c.tm.StructCtor(el) != nil {
				st.priv = st.priv[:len(st.priv):len(st.priv)]
				for _, h := range c.structHeaps(el) {
					st.priv = append(st.priv, privCell{r, h})
				}
			}
		} else {
			h := c.cellHeap(el)
			st.mem.set(h, tStore(st.mem.get(c, h), r, c.tm.Zero(el)))
			if isPrivate(x) {
				st.priv = append(st.priv[:len(st.priv):len(st.priv)], privCell{r, h})
			}
		}
		if el.String() == "sync.Once" {
			h := c.regHeap("$once", SArray(SInt, SBool))
			st.mem.set(h, tStore(st.mem.get(c, h), r, tFalse))
		}
		// ghost state of a new object is zero
		for g, gt := range c.ghosts {
			if a, ok := gt.(*specTy); ok && a.key != nil && a.sort.Kind == "Array" {
				if p, ok := a.key.(*types.Pointer); ok && types.Identical(p.Elem(), el) {
					if _, ok := a.elem.Underlying().(*types.Basic); ok {
						st.mem.set(g, tStore(st.mem.get(c, g), r, c.tm.Zero(a.elem)))
					}
				}
			}
		}
		st.env[x] = Val{T: r}
	case *ssa.BinOp:
		st.env[x] = Val{T: t.binop(st, x)}
	case *ssa.UnOp:
		t.unop(st, x)
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer)
		sty := pt.Elem()
		fty := x.Type().(*types.Pointer).Elem()
		a := t.deref(st, t.val(st, x.X), x.X.Type(), x.Pos())
		var na *Addr
		if a.Kind == aRef && len(a.Path) == 0 {
			na = &Addr{Kind: aHeap, Heap: c.fieldHeap(sty, x.Field), Ref: a.Ref, Ty: fty}
		} else {
			ct := c.tm.StructCtor(sty)
			if ct == nil {
				panic(unsupported{"field of opaque struct " + sty.String()})
			}
			n := *a
			n.Path = append(append([]PathEl{}, a.Path...), PathEl{Ct: ct, Field: x.Field})
			n.Ty = fty
			na = &n
		}
		st.env[x] = Val{A: na}
	case *ssa.Field:
		v := t.val(st, x.X)
		ct := c.tm.StructCtor(x.X.Type())
		if ct == nil {
			panic(unsupported{"field of opaque struct " + x.X.Type().String()})
		}
		r := tSel(ct, x.Field, v.T)
		t.typeFacts(st, r, x.Type())
		st.env[x] = Val{T: r}
	case *ssa.IndexAddr:
		idx := t.term(st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			b := t.val(st, x.X)
			t.bounds(st, idx, tLen(b.T), x.Pos())
			st.env[x] = Val{A: &Addr{Kind: aElem, Base: x.X, Idx: idx, Ty: u.Elem()}}
		case *types.Pointer:
			a := t.deref(st, t.val(st, x.X), x.X.Type(), x.Pos())
			arr := u.Elem().Underlying().(*types.Array)
			t.bounds(st, idx, tInt(arr.Len()), x.Pos())
			n := *a
			n.Path = append(append([]PathEl{}, a.Path...), PathEl{Idx: idx})
			n.Ty = arr.Elem()
			st.env[x] = Val{A: &n}
		default:
			panic(unsupported{"IndexAddr of " + x.X.Type().String()})
		}
	case *ssa.Index:
		idx := t.term(st, x.Index)
		v := t.term(st, x.X)
		if v.Sort == SString {
			t.bounds(st, idx, tLen(v), x.Pos())
			r := tApp("str.byte", SInt, v, idx)
			st.env[x] = Val{T: r}
			return
		}
		t.bounds(st, idx, tLen(v), x.Pos())
		st.env[x] = Val{T: tNth(v, idx)}
	case *ssa.Lookup:
		t.lookup(st, x)
	case *ssa.Store:
		a := t.deref(st, t.val(st, x.Addr), x.Addr.Type(), x.Pos())
		t.guardCheck(st, a, true, x.Pos())
		v := t.val(st, x.Val)
		if v.Pend != "" {
			if pd := st.pend[v.Pend]; pd != nil && sameAddr(pd.addr, a) {
				delete(st.pend, v.Pend)
			}
		}
		tv := t.toTerm(st, v, x.Val.Type())
		t.disown(st, x.Val, a)
		t.store(st, a, tv, x.Pos())
	case *ssa.MapUpdate:
		mv := t.val(st, x.Map)
		k, v := t.term(st, x.Key), t.term(st, x.Value)
		vm := c.vm(x.Map.Type())
		if mv.Org != nil {
			t.guardCheck(st, mv.Org, true, x.Pos())
		}
		t.disown(st, x.Value, nil)
		if c.isValueMap(x.Map.Type()) {
			nv := vm.set(mv.T, k, v)
			t.safe(st, "assignment to nil map", tNot(tEq(mv.T, vm.nilv())), x.Pos())
			if mv.Org != nil {
				t.store(st, mv.Org, nv, x.Pos())
			} else if !mv.Own {
				t.obligate(st, "own", "write to a map that may be shared", tFalse, x.Pos(), []string{"C02"}, nil)
			}
			mv.T = nv
			st.env[x.Map] = mv
			return
		}
		t.safe(st, "assignment to nil map", tNot(tEq(mv.T, tInt(0))), x.Pos())
		h := c.mapHeap(x.Map.Type())
		m := st.mem.get(c, h)
		st.mem.set(h, tStore(m, mv.T, vm.set(tSelect(m, mv.T), k, v)))
	case *ssa.MakeMap:
		vm := c.vm(x.Type())
		if c.isValueMap(x.Type()) {
			st.env[x] = Val{T: vm.empty(), Own: true}
			return
		}
		r := t.newRef(st, nil)
		h := c.mapHeap(x.Type())
		st.mem.set(h, tStore(st.mem.get(c, h), r, vm.empty()))
		st.env[x] = Val{T: r}
	case *ssa.MakeSlice:
		n := t.term(st, x.Len)
		el := x.Type().Underlying().(*types.Slice).Elem()
		t.safe(st, "make with a negative length", tLe(tInt(0), n), x.Pos())
		if n.Op == "int" && n.Int.Sign() == 0 {
			st.env[x] = Val{T: tEmpty(c.tm.Sort(x.Type())), Own: true}
			return
		}
		r := tApp("seq.rep."+smtSafe(c.tm.Sort(el).Name), c.tm.Sort(x.Type()), c.tm.Zero(el), n)
		st.assume(tEq(tLen(r), n))
		st.env[x] = Val{T: r, Own: true}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var binds []Val
		var ts []*Term
		ok := true
		for k, b := range x.Bindings {
			bv := t.val(st, b)
			binds = append(binds, bv)
			if al, isAlloc := b.(*ssa.Alloc); isAlloc && effectivelyConst(al, fn.FreeVars[k]) {
				el := al.Type().(*types.Pointer).Elem()
				ts = append(ts, t.load(st, t.deref(st, bv, al.Type(), x.Pos())))
				_ = el
				continue
			}
			if bv.T != nil {
				ts = append(ts, bv.T)
			} else {
				ok = false
			}
		}
		name := "clo_" + smtSafe(c.fnName(fn))
		cl := &Closure{Fn: fn, Binds: binds}
		if !ok {
			st.env[x] = Val{T: fresh("clo", SFn), Clo: cl}
			return
		}
		c.regClosure(name, fn, x)
		st.env[x] = Val{T: tApp(name, SFn, ts...), Clo: cl}
	case *ssa.MakeInterface:
		v := t.val(st, x.X)
		tv := t.toTerm(st, v, x.X.Type())
		t.disown(st, x.X, nil)
		st.env[x] = Val{T: c.tm.Box(x.X.Type(), tv), Clo: v.Clo}
	case *ssa.ChangeInterface:
		st.env[x] = t.val(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = t.val(st, x.X)
	case *ssa.Convert:
		st.env[x] = t.convert(st, x)
	case *ssa.MultiConvert:
		panic(unsupported{"generic conversion"})
	case *ssa.Slice:
		t.slice(st, x)
	case *ssa.Extract:
		tv := t.val(st, x.Tuple)
		if x.Index >= len(tv.Tup) {
			panic(unsupported{"extract"})
		}
		st.env[x] = tv.Tup[x.Index]
	case *ssa.Range:
		cell := &LocalCell{name: "iter", ty: types.Typ[types.Int]}
		st.locals[cell] = tInt(0)
		it := &Iter{Cell: cell}
		v := t.val(st, x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Map:
			it.MapTy = x.X.Type()
			if v.Org != nil {
				t.guardCheck(st, v.Org, false, x.Pos())
			}
			it.Map = c.mapContents(st.mem, x.X.Type(), v.T)
			it.Seq = c.vm(x.X.Type()).enum(it.Map)
			_ = u
		default:
			it.Str = v.T
		}
		st.env[x] = Val{It: it}
	case *ssa.Next:
		t.next(st, x)
	case *ssa.Go:
		// what another goroutine does in a library is not followed
		if fn := x.Call.StaticCallee(); fn == nil || t.c.inModule(fn) || fn.Parent() != nil {
			panic(unsupported{"go statement"})
		}
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsupported{"channel operation"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func sameAddr(a, b *Addr) bool {
	return a.Kind == b.Kind && a.String() == b.String()
}

// disown marks the storage of a slice as possibly shared from here on.
func (t *Task) disown(st *State, v ssa.Value, to *Addr) {
	if x, ok := st.env[v]; ok && x.Own {
		x.Own = false
		st.env[v] = x
	}
}

func (t *Task) bounds(st *State, i, n *Term, p token.Pos) {
	t.safe(st, "index out of range", tAnd(tLe(tInt(0), i), tLt(i, n)), p)
}

func (t *Task) next(st *State, x *ssa.Next) {
	c := t.c
	it := t.val(st, x.Iter).It
	pos := st.locals[it.Cell]
	if it.Seq != nil {
		n := tLen(it.Seq)
		ok := tLt(pos, n)
		k := tNth(it.Seq, pos)
		vm := c.vm(it.MapTy)
		v := vm.get(it.Map, k)
		st.assume(tImp(ok, vm.has(it.Map, k)))
		st.assume(tLe(tInt(0), pos))
		mt := it.MapTy.Underlying().(*types.Map)
		t.typeFacts(st, v, mt.Elem())
		st.locals[it.Cell] = tAdd(pos, tInt(1))
		st.env[x] = Val{Tup: []Val{{T: ok}, {T: k}, {T: v}}}
		return
	}
	// strings: rune k starts at offset str.runeoff(s,k)
	n := tApp("str.runes", SInt, it.Str)
	ok := tLt(pos, n)
	off := tApp("str.runeoff", SInt, it.Str, pos)
	st.assume(tLe(tInt(0), n))
	st.assume(tImp(tAnd(tLe(tInt(0), pos), ok), tAnd(tLe(tInt(0), off), tLt(off, tLen(it.Str)))))
	r := tApp("str.rune", SInt, it.Str, pos)
	st.locals[it.Cell] = tAdd(pos, tInt(1))
	st.env[x] = Val{Tup: []Val{{T: ok}, {T: off}, {T: r}}}
}

func (t *Task) lookup(st *State, x *ssa.Lookup) {
	c := t.c
	mv := t.val(st, x.X)
	if mv.T.Sort == SString {
		idx := t.term(st, x.Index)
		t.bounds(st, idx, tLen(mv.T), x.Pos())
		st.env[x] = Val{T: tApp("str.byte", SInt, mv.T, idx)}
		return
	}
	if mv.Org != nil {
		t.guardCheck(st, mv.Org, false, x.Pos())
	}
	k := t.term(st, x.Index)
	vm := c.vm(x.X.Type())
	m := c.mapContents(st.mem, x.X.Type(), mv.T)
	if !c.isValueMap(x.X.Type()) {
		// a nil map is empty
		h := st.mem.get(c, c.mapHeap(x.X.Type()))
		st.assume(tEq(tSelect(h, tInt(0)), vm.nilv()))
	}
	v := vm.get(m, k)
	t.typeFacts(st, v, x.X.Type().Underlying().(*types.Map).Elem())
	if x.CommaOk {
		st.env[x] = Val{Tup: []Val{{T: v}, {T: vm.has(m, k)}}}
	} else {
		st.env[x] = Val{T: v}
	}
}

func (t *Task) slice(st *State, x *ssa.Slice) {
	c := t.c
	var s *Term
	base := t.val(st, x.X)
	own := false
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		a := t.deref(st, base, x.X.Type(), x.Pos())
		s = t.load(st, a)
		own = x.Low == nil && x.High == nil
		_ = pt
	} else {
		s = base.T
	}
	lo, hi := tInt(0), tLen(s)
	if x.Low != nil {
		lo = t.term(st, x.Low)
	}
	if x.High != nil {
		hi = t.term(st, x.High)
	}
	if x.Low != nil || x.High != nil {
		lim := tLen(s)
		if s.Sort != SString && x.High != nil {
			// slices may be extended up to their capacity, which is not modelled
			t.assumption("slicing beyond the length (up to the capacity) does not occur; it would be reported as out of range")
		}
		t.safe(st, "slice bounds out of range", tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, lim)), x.Pos())
	}
	r := tExtract(s, lo, tSub(hi, lo))
	if r.Op == "extract" && r.Sort != SString {
		// the bounds have been checked
		st.assume(tEq(tLen(r), tSub(hi, lo)))
	}
	v := Val{T: r, Own: own}
	if x.Max != nil {
		if t.term(st, x.Max) == hi {
			v.Cap = true
		}
	}
	_ = c
	st.env[x] = v
}

func (t *Task) convert(st *State, x *ssa.Convert) Val {
	c := t.c
	v := t.val(st, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := c.tm.Sort(x.X.Type()), c.tm.Sort(x.Type())
	if fs == ts {
		if fb, ok := from.(*types.Basic); ok {
			if tb, ok := to.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 && fb.Kind() != tb.Kind() {
				t.assumption("integers are mathematical: conversions and arithmetic do not overflow")
			}
		}
		return Val{T: v.T}
	}
	// string <-> []byte / []rune, int -> string, int <-> float
	return Val{T: tApp(convName(from, to), ts, t.toTerm(st, v, x.X.Type()))}
}

// convName names the conversion between two types of different sorts.
func convName(from, to types.Type) string {
	return "conv." + smtSafe(from.Underlying().String()) + "." + smtSafe(to.Underlying().String())
}

func (t *Task) unop(st *State, x *ssa.UnOp) {
	c := t.c
	switch x.Op {
	case token.MUL:
		a := t.deref(st, t.val(st, x.X), x.X.Type(), x.Pos())
		t.guardCheck(st, a, false, x.Pos())
		v := t.load(st, a)
		t.typeFacts(st, v, x.Type())
		res := Val{T: v}
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			res.Org = a
		}
		if a.Kind == aGlobal {
			if f := c.globalFunc(a.Glob); f != nil {
				res.Clo = &Closure{Fn: f}
			}
		}
		st.env[x] = res
	case token.NOT:
		st.env[x] = Val{T: tNot(t.term(st, x.X))}
	case token.SUB:
		v := t.term(st, x.X)
		if v.Sort == SInt {
			st.env[x] = Val{T: tSub(tInt(0), v)}
		} else {
			st.env[x] = Val{T: tApp("real.neg", SReal, v)}
		}
	default:
		st.env[x] = Val{T: tApp("un."+smtSafe(x.Op.String()), c.tm.Sort(x.Type()), t.term(st, x.X))}
	}
}

func (t *Task) binop(st *State, x *ssa.BinOp) *Term {
	c := t.c
	a, b := t.term(st, x.X), t.term(st, x.Y)
	if a.Sort != b.Sort {
		// interface compared with a concrete value
		if a.Sort == SIface {
			b = c.tm.Box(x.Y.Type(), b)
		} else if b.Sort == SIface {
			a = c.tm.Box(x.X.Type(), a)
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if c.isNilConst(x.X) || c.isNilConst(x.Y) {
			if a.Sort.Kind == "Seq" {
				t.assumption("a nil slice and an empty slice are the same value")
			}
		}
		e := tEq(a, b)
		if x.Op == token.NEQ {
			e = tNot(e)
		}
		return e
	}
	switch a.Sort.Kind {
	case "Int":
		switch x.Op {
		case token.ADD:
			return tAdd(a, b)
		case token.SUB:
			return tSub(a, b)
		case token.MUL:
			return tMul(a, b)
		case token.LSS:
			return tLt(a, b)
		case token.LEQ:
			return tLe(a, b)
		case token.GTR:
			return tLt(b, a)
		case token.GEQ:
			return tLe(b, a)
		case token.QUO, token.REM:
			t.safe(st, "division by zero", tNot(tEq(b, tInt(0))), x.Pos())
		}
		return tApp("op."+smtSafe(x.Op.String())+fmt.Sprint(int(x.Op)), SInt, a, b)
	case "String":
		switch x.Op {
		case token.ADD:
			return tConcat(a, b)
		case token.LSS:
			return tStrOp("str.<", SBool, a, b)
		case token.GTR:
			return tStrOp("str.<", SBool, b, a)
		case token.LEQ:
			return tNot(tStrOp("str.<", SBool, b, a))
		case token.GEQ:
			return tNot(tStrOp("str.<", SBool, a, b))
		}
	case "Real":
		switch x.Op {
		case token.LSS:
			return tApp("real.lt", SBool, a, b)
		case token.GTR:
			return tApp("real.lt", SBool, b, a)
		case token.LEQ:
			return tNot(tApp("real.lt", SBool, b, a))
		case token.GEQ:
			return tNot(tApp("real.lt", SBool, a, b))
		}
		return tApp("real.op"+fmt.Sprint(int(x.Op)), SReal, a, b)
	case "Bool":
		switch x.Op {
		case token.AND:
			return tAnd(a, b)
		case token.OR:
			return tOr(a, b)
		}
	}
	panic(unsupported{"operator " + x.Op.String() + " on " + a.Sort.Name})
}

func (c *Ctx) isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// effectivelyConst: the captured variable is assigned once, before the
// closure is made, and never inside the closure.
func effectivelyConst(al *ssa.Alloc, fv *ssa.FreeVar) bool {
	stores := 0
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al {
				return false
			}
			if x.Block().Index != 0 && x.Block() != al.Block() {
				return false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == al && !onlyLoaded(f.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return stores <= 1
}

func onlyLoaded(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// ---- loops: natural loops of a function ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type activeLoop struct {
	header *ssa.BasicBlock
	frame  *Frame
	body   map[*ssa.BasicBlock]bool
	probe  bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
