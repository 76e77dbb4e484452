package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Ctx is the whole verification context.
type Ctx struct {
	prog     *ssa.Program
	pkgs     []*ssa.Package
	modPath  string
	repo     string
	tm       *TypeMap
	allFns   []*ssa.Function
	fnByName map[string]*ssa.Function
	pkgBy    map[string]*types.Package

	sf            *SpecFile
	funcs         map[string]*SFunc
	ghosts        map[string]types.Type
	sorts         map[string]*specTy
	contr         map[string]*Contract   // func/extern by name
	ifaceC        map[string][]*Contract // by "pkg.Iface.Method"
	ftypeC        map[string]*Contract
	lemmas        map[string]*Lemma
	lockInvs      map[string]*LockInvDecl // lock field heap name
	guards        map[string]string // heap name -> lock field heap name
	heapMu        sync.Mutex
	heapSort      map[string]*Sort
	inlined       sync.Map
	closMu        sync.Mutex
	clos          map[string]*CloDef
	opts          map[string]string
	constHeaps    map[string]bool
	typed         map[string]types.Type
	stable        map[string]string   // ghosts every operation leaves as they were, with the property this belongs to
	fieldInvProps map[string][]string // the properties these belong to
	fieldInvs     map[string]*SFunc   // heap name -> predicate on every value stored there
	appendHeaps   map[string]bool
	globInit      map[string]*globInfo
	modTypes      []types.Type
	autos         []*autoLemma
}

// CloDef is the definition of a closure constructor.
type CloDef struct {
	Name    string
	Formals []*Term                         // bound variables: captured
	Params  []*Term                         // parameters
	Body    *Term                           // spec lambdas
	Inline  func(binds, args []*Term) *Term // ssa closures, may be nil result
}

// SFunc is a resolved specification function.
type SFunc struct {
	Name      string
	Decl      *SpecFunc
	Params    []types.Type
	Ret       types.Type
	Reads     []string // heap names, sorted
	Formals   []*Term  // heap formals followed by parameter formals
	Body      *Term
	Fuel      int
	state     int
	recursive bool
}

type Lemma struct {
	idx    int
	Decl   *LemmaDecl
	Params []types.Type
}

// TV is a typed value.
type TV struct {
	T   *Term
	Ty  types.Type
	Nil bool
}

// Mem is the memory: heap arrays, globals, ghost variables.
type Mem struct {
	heap map[string]*Term
	base string
	rec  func(name string, s *Sort) *Term
}

func (m *Mem) clone() *Mem {
	h := make(map[string]*Term, len(m.heap))
	for k, v := range m.heap {
		h[k] = v
	}
	return &Mem{heap: h, base: m.base, rec: m.rec}
}

func (m *Mem) get(c *Ctx, name string) *Term {
	if c.constHeaps[name] {
		return tVar("K!"+name, c.hsort(name))
	}
	if t, ok := m.heap[name]; ok {
		return t
	}
	s := c.hsort(name)
	if m.rec != nil {
		return m.rec(name, s)
	}
	return tVar(m.base+name, s)
}

func (m *Mem) set(name string, t *Term) { m.heap[name] = t }

func (c *Ctx) hsort(name string) *Sort {
	c.heapMu.Lock()
	defer c.heapMu.Unlock()
	s, ok := c.heapSort[name]
	if !ok {
		panic(perr{"unknown heap " + name})
	}
	return s
}

func (c *Ctx) regHeap(name string, s *Sort) string {
	c.heapMu.Lock()
	defer c.heapMu.Unlock()
	if o, ok := c.heapSort[name]; ok {
		if o != s {
			panic("heap sort clash " + name)
		}
		return name
	}
	c.heapSort[name] = s
	return name
}

// fieldHeap is the heap of field i of struct type st.
func (c *Ctx) fieldHeap(st types.Type, i int) string {
	st = types.Unalias(st)
	u := st.Underlying().(*types.Struct)
	return c.regHeap(c.tm.heapName(st, i), SArray(SInt, c.tm.Sort(u.Field(i).Type())))
}

func (c *Ctx) cellHeap(t types.Type) string {
	return c.regHeap(c.tm.cellName(t), SArray(SInt, c.tm.Sort(t)))
}

func (c *Ctx) globalName(v *types.Var) string {
	return c.regHeap("G."+v.Pkg().Name()+"."+v.Name(), c.tm.Sort(v.Type()))
}

// map theory ---------------------------------------------------------------

func (c *Ctx) vmSort(t types.Type) *Sort {
	c.tm.mu.Lock()
	defer c.tm.mu.Unlock()
	return SUn(smtSafe("VM." + c.tm.shortName(t)))
}

type vmInfo struct {
	t    types.Type
	s    *Sort
	k, v *Sort
	zero *Term
}

var vmTab sync.Map // sort name -> *vmInfo

func (c *Ctx) vm(t types.Type) *vmInfo {
	t = types.Unalias(t)
	s := c.vmSort(t)
	if i, ok := vmTab.Load(s.Name); ok {
		return i.(*vmInfo)
	}
	m := t.Underlying().(*types.Map)
	i := &vmInfo{t: t, s: s, k: c.tm.Sort(m.Key()), v: c.tm.Sort(m.Elem()), zero: c.tm.Zero(m.Elem())}
	vmTab.Store(s.Name, i)
	return i
}

func (i *vmInfo) empty() *Term { return tVar("vm.empty."+i.s.Name, i.s) }
func (i *vmInfo) nilv() *Term  { return tVar("zero."+i.s.Name, i.s) }
func (i *vmInfo) get(m, k *Term) *Term {
	if m.Op == "app" && m.Name == "vm.set."+i.s.Name {
		if m.Args[1] == k {
			return m.Args[2]
		}
		if distinctTerms(m.Args[1], k) {
			return i.get(m.Args[0], k)
		}
	}
	if m == i.empty() || m == i.nilv() {
		return i.zero
	}
	return tApp("vm.get."+i.s.Name, i.v, m, k)
}
func (i *vmInfo) has(m, k *Term) *Term {
	if m.Op == "app" && m.Name == "vm.set."+i.s.Name {
		if m.Args[1] == k {
			return tTrue
		}
		if distinctTerms(m.Args[1], k) {
			return i.has(m.Args[0], k)
		}
	}
	if m == i.empty() || m == i.nilv() {
		return tFalse
	}
	return tApp("vm.has."+i.s.Name, SBool, m, k)
}
func (i *vmInfo) set(m, k, v *Term) *Term { return tApp("vm.set."+i.s.Name, i.s, m, k, v) }
func (i *vmInfo) del(m, k *Term) *Term    { return tApp("vm.del."+i.s.Name, i.s, m, k) }
func (i *vmInfo) enum(m *Term) *Term {
	if m == i.empty() || m == i.nilv() {
		return tEmpty(SSeq(i.k))
	}
	return tApp("vm.enum."+i.s.Name, SSeq(i.k), m)
}
func (i *vmInfo) length(m *Term) *Term { return tLen(i.enum(m)) }

// mapHeap is the heap which holds the contents of reference maps of type t.
func (c *Ctx) mapHeap(t types.Type) string {
	t = types.Unalias(t)
	return c.regHeap("M."+c.vmSort(t).Name, SArray(SInt, c.vmSort(t)))
}

func (c *Ctx) isValueMap(t types.Type) bool {
	return c.tm.valueMaps[typeKey(t)]
}

// mapContents is the value map behind a map value.
func (c *Ctx) mapContents(m *Mem, t types.Type, v *Term) *Term {
	if c.isValueMap(t) {
		return v
	}
	if v.Op == "int" && v.Int.Sign() == 0 {
		return c.vm(t).nilv()
	}
	return tSelect(m.get(c, c.mapHeap(t)), v)
}

// types --------------------------------------------------------------------

func (c *Ctx) lookupPkg(name string) *types.Package {
	return c.pkgBy[name]
}

func (c *Ctx) resolveType(t *TyExpr, pos string) types.Type {
	switch t.K {
	case "ptr":
		return types.NewPointer(c.resolveType(t.A[0], pos))
	case "slice":
		return types.NewSlice(c.resolveType(t.A[0], pos))
	case "map":
		return types.NewMap(c.resolveType(t.A[0], pos), c.resolveType(t.A[1], pos))
	case "arr":
		k, e := c.resolveType(t.A[0], pos), c.resolveType(t.A[1], pos)
		return &specTy{name: t.String(), sort: SArray(c.tm.Sort(k), c.tm.Sort(e)), key: k, elem: e}
	case "heap":
		n, ft := c.resolveHeap(t.Name, pos)
		return &specTy{name: t.String(), sort: c.hsort(n), key: types.Typ[types.Int], elem: ft}
	case "func":
		n, _ := strconv.Atoi(t.Name)
		var ps, rs []*types.Var
		for i, a := range t.A {
			v := types.NewVar(0, nil, "", c.resolveType(a, pos))
			if i < n {
				ps = append(ps, v)
			} else {
				rs = append(rs, v)
			}
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
	}
	if s, ok := c.sorts[t.Name]; ok {
		return s
	}
	if i := strings.LastIndex(t.Name, "."); i >= 0 {
		p := c.lookupPkg(t.Name[:i])
		if p == nil {
			panic(perr{pos + ": unknown package " + t.Name})
		}
		o := p.Scope().Lookup(t.Name[i+1:])
		if o == nil {
			panic(perr{pos + ": unknown type " + t.Name})
		}
		tn, ok := o.(*types.TypeName)
		if !ok {
			panic(perr{pos + ": not a type " + t.Name})
		}
		return tn.Type()
	}
	if o := types.Universe.Lookup(t.Name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	panic(perr{pos + ": unknown type " + t.Name})
}

// resolveHeap: "booklit.Section.Tags" -> heap name, field type; also
// "booklit.AllowBrokenReferences" (global) and "$ghost".
func (c *Ctx) resolveHeap(n, pos string) (string, types.Type) {
	if strings.HasPrefix(n, "$") {
		t, ok := c.ghosts[n]
		if !ok {
			panic(perr{pos + ": unknown ghost " + n})
		}
		return n, t
	}
	f := strings.Split(n, ".")
	if len(f) == 3 {
		st := c.resolveType(&TyExpr{K: "name", Name: f[0] + "." + f[1]}, pos)
		u, ok := st.Underlying().(*types.Struct)
		if !ok {
			panic(perr{pos + ": not a struct: " + n})
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f[2] {
				return c.fieldHeap(st, i), u.Field(i).Type()
			}
		}
	}
	if len(f) == 2 {
		if f[0] == "map" {
			panic(perr{pos + ": bad heap " + n})
		}
		if p := c.lookupPkg(f[0]); p != nil {
			if v, ok := p.Scope().Lookup(f[1]).(*types.Var); ok {
				return c.globalName(v), v.Type()
			}
			// the contents of maps of a named type
			if tn, ok := p.Scope().Lookup(f[1]).(*types.TypeName); ok {
				if _, ok := tn.Type().Underlying().(*types.Map); ok {
					return c.mapHeap(tn.Type()), tn.Type()
				}
			}
		}
	}
	panic(perr{pos + ": unknown heap " + n})
}

// structFields of all fields of a struct type
func (c *Ctx) structHeaps(st types.Type) []string {
	u := st.Underlying().(*types.Struct)
	var out []string
	for i := 0; i < u.NumFields(); i++ {
		out = append(out, c.fieldHeap(st, i))
	}
	return out
}

func (c *Ctx) loadStruct(m *Mem, st types.Type, ref *Term) *Term {
	ct := c.tm.StructCtor(st)
	if ct == nil {
		// opaque struct: a cell
		return tSelect(m.get(c, c.cellHeap(st)), ref)
	}
	args := make([]*Term, len(ct.Fields))
	for i := range args {
		args[i] = tSelect(m.get(c, c.fieldHeap(st, i)), ref)
	}
	return tCtor(ct, args...)
}

func (c *Ctx) storeStruct(m *Mem, st types.Type, ref, v *Term) {
	ct := c.tm.StructCtor(st)
	if ct == nil {
		h := c.cellHeap(st)
		m.set(h, tStore(m.get(c, h), ref, v))
		return
	}
	for i := range ct.Fields {
		h := c.fieldHeap(st, i)
		m.set(h, tStore(m.get(c, h), ref, tSel(ct, i, v)))
	}
}

// evaluation ----------------------------------------------------------------

type SpecEval struct {
	c          *Ctx
	vars       map[string]TV
	mem        *Mem
	old        *Mem
	entry      *Mem
	entryVars  map[string]TV
	oldVars    map[string]TV
	alloc      *Term // current allocation mark
	oldAlloc   *Term
	entryAlloc *Term
	pos        string
}

func (ev *SpecEval) fail(f string, a ...any) {
	panic(perr{ev.pos + ": " + fmt.Sprintf(f, a...)})
}

func (ev *SpecEval) with(name string, v TV) *SpecEval {
	n := *ev
	n.vars = map[string]TV{}
	for k, x := range ev.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func isIfaceTy(t types.Type) bool {
	if _, ok := t.(*specTy); ok {
		return false
	}
	return types.IsInterface(t)
}

// coerce converts to the given type (nil and boxing).
func (ev *SpecEval) coerce(v TV, want types.Type) *Term {
	if v.Nil {
		return ev.c.tm.Zero(want)
	}
	ws := ev.c.tm.Sort(want)
	if v.T.Sort == ws {
		return v.T
	}
	if ws == SIface {
		if _, ok := v.Ty.(*specTy); ok {
			ev.fail("cannot box %s", v.Ty)
		}
		return ev.c.tm.Box(v.Ty, v.T)
	}
	ev.fail("type mismatch: have %s (%s), want %s (%s)", v.Ty, v.T.Sort.Name, want, ws.Name)
	return nil
}

func (ev *SpecEval) bool(e *Expr) *Term {
	v := ev.eval(e)
	if v.T == nil || v.T.Sort != SBool {
		ev.fail("expected a boolean: %s %s", e.K, e.S)
	}
	return v.T
}

var tyInt, tyBool, tyString types.Type = types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String]

func (ev *SpecEval) unify(a, b TV) (TV, TV) {
	switch {
	case a.Nil && b.Nil:
		ev.fail("nil == nil")
	case a.Nil:
		return TV{T: ev.c.tm.Zero(b.Ty), Ty: b.Ty}, b
	case b.Nil:
		return a, TV{T: ev.c.tm.Zero(a.Ty), Ty: a.Ty}
	}
	if a.T.Sort != b.T.Sort {
		if a.T.Sort == SIface {
			return a, TV{T: ev.coerce(b, a.Ty), Ty: a.Ty}
		}
		if b.T.Sort == SIface {
			return TV{T: ev.coerce(a, b.Ty), Ty: b.Ty}, b
		}
		ev.fail("type mismatch: %s (%s) and %s (%s)", a.Ty, a.T.Sort.Name, b.Ty, b.T.Sort.Name)
	}
	return a, b
}

func (ev *SpecEval) eval(e *Expr) TV {
	if e.Pos != "" {
		ev.pos = e.Pos
	}
	c := ev.c
	switch e.K {
	case "int":
		i, _ := new(big.Int).SetString(e.S, 10)
		return TV{T: tBig(i), Ty: tyInt}
	case "str":
		return TV{T: tStr(e.S), Ty: tyString}
	case "bool":
		return TV{T: tBool(e.S == "true"), Ty: tyBool}
	case "nil":
		return TV{Nil: true}
	case "id":
		if v, ok := ev.vars[e.S]; ok {
			return v
		}
		if strings.HasPrefix(e.S, "$") {
			n, t := c.resolveHeap(e.S, ev.pos)
			return TV{T: ev.mem.get(c, n), Ty: t}
		}
		if f, ok := c.funcs[e.S]; ok && len(f.Params) == 0 {
			return ev.callSpec(f, nil)
		}
		ev.fail("unknown identifier %s", e.S)
	case "heap":
		n, t := c.resolveHeap(e.S, ev.pos)
		return TV{T: ev.mem.get(c, n), Ty: &specTy{name: "@" + e.S, sort: c.hsort(n), key: tyInt, elem: t}}
	case "zero":
		t := c.resolveType(e.Ty, ev.pos)
		return TV{T: c.tm.Zero(t), Ty: t}
	case "un":
		x := ev.eval(e.A[0])
		if e.S == "!" {
			return TV{T: tNot(x.T), Ty: tyBool}
		}
		return TV{T: tSub(tInt(0), x.T), Ty: x.Ty}
	case "deref":
		x := ev.eval(e.A[0])
		pt, ok := x.Ty.Underlying().(*types.Pointer)
		if !ok {
			ev.fail("deref of %s", x.Ty)
		}
		el := pt.Elem()
		if _, ok := el.Underlying().(*types.Struct); ok {
			return TV{T: c.loadStruct(ev.mem, el, x.T), Ty: el}
		}
		return TV{T: tSelect(ev.mem.get(c, c.cellHeap(el)), x.T), Ty: el}
	case "addr":
		// &p.F : the address of a field
		f := e.A[0]
		if f.K != "field" {
			ev.fail("& of something other than a field")
		}
		x := ev.eval(f.A[0])
		pt, ok := x.Ty.Underlying().(*types.Pointer)
		if !ok {
			ev.fail("& needs a field of a pointer")
		}
		u := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f.S {
				return TV{T: tApp("faddr."+c.fieldHeap(pt.Elem(), i), SInt, x.T), Ty: types.NewPointer(u.Field(i).Type())}
			}
		}
		ev.fail("no field %s", f.S)
	case "bin":
		return ev.binary(e)
	case "if":
		cond := ev.bool(e.A[0])
		a, b := ev.eval(e.A[1]), ev.eval(e.A[2])
		if a.Nil && b.Nil {
			return a
		}
		a, b = ev.unify(a, b)
		return TV{T: tIte(cond, a.T, b.T), Ty: a.Ty}
	case "let":
		v := ev.eval(e.A[0])
		return ev.with(e.S, v).eval(e.A[1])
	case "old":
		n := *ev
		if ev.old == nil {
			ev.fail("old() is not available here")
		}
		n.mem = ev.old
		if ev.oldAlloc != nil {
			n.alloc = ev.oldAlloc
		}
		if ev.oldVars != nil {
			n.vars = map[string]TV{}
			for k, v := range ev.vars {
				n.vars[k] = v
			}
			for k, v := range ev.oldVars {
				n.vars[k] = v
			}
		}
		return n.eval(e.A[0])
	case "entry":
		n := *ev
		if ev.entry == nil {
			ev.fail("entry() is not available here")
		}
		n.mem = ev.entry
		if ev.entryAlloc != nil {
			n.alloc = ev.entryAlloc
		}
		if ev.entryVars != nil {
			n.vars = map[string]TV{}
			for k, v := range ev.vars {
				n.vars[k] = v
			}
			for k, v := range ev.entryVars {
				n.vars[k] = v
			}
		}
		return n.eval(e.A[0])
	case "forall", "exists":
		n := ev
		var bs []*Term
		for _, b := range e.Binds {
			t := c.resolveType(b.Ty, ev.pos)
			bv := tBVar(fmt.Sprintf("%s?%d", b.Name, nextBV()), c.tm.Sort(t))
			bs = append(bs, bv)
			n = n.with(b.Name, TV{T: bv, Ty: t})
		}
		body := n.bool(e.A[0])
		if e.K == "exists" {
			return TV{T: tNot(tForall(bs, tNot(body))), Ty: tyBool}
		}
		return TV{T: tForall(bs, body), Ty: tyBool}
	case "is":
		x := ev.eval(e.A[0])
		if x.Nil {
			return TV{T: tFalse, Ty: tyBool}
		}
		t := c.resolveType(e.Ty, ev.pos)
		if isIfaceTy(t) {
			return TV{T: c.tm.Implements(x.T, t), Ty: tyBool}
		}
		if x.T.Sort != SIface {
			return TV{T: tBool(types.Identical(x.Ty, t)), Ty: tyBool}
		}
		return TV{T: tIs(c.tm.IfaceCtor(t), x.T), Ty: tyBool}
	case "impl":
		x := ev.eval(e.A[0])
		return TV{T: c.tm.Implements(x.T, c.resolveType(e.Ty, ev.pos)), Ty: tyBool}
	case "as":
		x := ev.eval(e.A[0])
		t := c.resolveType(e.Ty, ev.pos)
		if isIfaceTy(t) {
			return TV{T: ev.coerce(x, t), Ty: t}
		}
		if x.T.Sort != SIface {
			if c.tm.Sort(t) == x.T.Sort {
				return TV{T: x.T, Ty: t}
			}
			ev.fail("as() of non-interface %s", x.Ty)
		}
		return TV{T: tSel(c.tm.IfaceCtor(t), 0, x.T), Ty: t}
	case "conv":
		x := ev.eval(e.A[0])
		t := c.resolveType(e.Ty, ev.pos)
		return TV{T: ev.coerce(x, t), Ty: t}
	case "lit":
		return ev.literal(e)
	case "match":
		x := ev.eval(e.A[0])
		if x.T.Sort != SIface {
			ev.fail("match on non-interface")
		}
		type arm struct {
			cond *Term
			v    TV
		}
		var arms []arm
		var def *TV
		for _, cs := range e.Cases {
			if cs.Def {
				v := ev.eval(cs.E)
				def = &v
				continue
			}
			if cs.Nil {
				arms = append(arms, arm{tIs(c.tm.ifaceData.Ctors[0], x.T), ev.eval(cs.E)})
				continue
			}
			t := c.resolveType(cs.Ty, ev.pos)
			n := ev
			var cond *Term
			if isIfaceTy(t) {
				cond = c.tm.Implements(x.T, t)
				if cs.Name != "" {
					n = ev.with(cs.Name, TV{T: x.T, Ty: t})
				}
			} else {
				ct := c.tm.IfaceCtor(t)
				cond = tIs(ct, x.T)
				if cs.Name != "" {
					n = ev.with(cs.Name, TV{T: tSel(ct, 0, x.T), Ty: t})
				}
			}
			if cond.Op == "false" {
				continue
			}
			arms = append(arms, arm{cond, n.eval(cs.E)})
		}
		if def == nil {
			if len(arms) == 0 {
				ev.fail("match without applicable arms")
			}
			def = &arms[len(arms)-1].v
			arms = arms[:len(arms)-1]
		}
		// result type: first non-nil; prefer interface
		var ty types.Type
		for _, a := range append([]arm{{nil, *def}}, arms...) {
			if a.v.Nil {
				continue
			}
			if ty == nil || isIfaceTy(a.v.Ty) {
				ty = a.v.Ty
			}
		}
		mixed := false
		for _, a := range append([]arm{{nil, *def}}, arms...) {
			if !a.v.Nil && c.tm.Sort(a.v.Ty) != c.tm.Sort(ty) {
				mixed = true
			}
		}
		if mixed && !isIfaceTy(ty) {
			ty = types.Universe.Lookup("any").Type()
		}
		r := ev.coerce(*def, ty)
		for i := len(arms) - 1; i >= 0; i-- {
			r = tIte(arms[i].cond, ev.coerce(arms[i].v, ty), r)
		}
		return TV{T: r, Ty: ty}
	case "field":
		return ev.field(e)
	case "index":
		x := ev.eval(e.A[0])
		i := ev.eval(e.A[1])
		if h, ok := x.Ty.(*specTy); ok && h.sort.Kind == "Array" {
			return TV{T: tSelect(x.T, ev.coerce(i, h.key)), Ty: h.elem}
		}
		switch u := x.Ty.Underlying().(type) {
		case *types.Slice:
			return TV{T: tNth(x.T, i.T), Ty: u.Elem()}
		case *types.Array:
			return TV{T: tNth(x.T, i.T), Ty: u.Elem()}
		case *types.Map:
			return TV{T: c.vm(x.Ty).get(c.mapContents(ev.mem, x.Ty, x.T), ev.coerce(i, u.Key())), Ty: u.Elem()}
		case *types.Basic:
			return TV{T: tApp("str.byte", SInt, x.T, i.T), Ty: tyInt}
		}
		ev.fail("index of %s", x.Ty)
	case "update":
		x := ev.eval(e.A[0])
		i, v := ev.eval(e.A[1]), ev.eval(e.A[2])
		if h, ok := x.Ty.(*specTy); ok && h.sort.Kind == "Array" {
			return TV{T: tStore(x.T, ev.coerce(i, h.key), ev.coerce(v, h.elem)), Ty: x.Ty}
		}
		if u, ok := x.Ty.Underlying().(*types.Map); ok {
			return TV{T: c.vm(x.Ty).set(c.mapContents(ev.mem, x.Ty, x.T), ev.coerce(i, u.Key()), ev.coerce(v, u.Elem())), Ty: &specTy{name: "vm", sort: c.vmSort(x.Ty)}}
		}
		if u, ok := x.Ty.Underlying().(*types.Slice); ok {
			return TV{T: tSeqSet(x.T, i.T, ev.coerce(v, u.Elem())), Ty: x.Ty}
		}
		ev.fail("update of %s", x.Ty)
	case "slice":
		x := ev.eval(e.A[0])
		lo := tInt(0)
		if e.A[1] != nil {
			lo = ev.eval(e.A[1]).T
		}
		hi := tLen(x.T)
		if e.A[2] != nil {
			hi = ev.eval(e.A[2]).T
		}
		return TV{T: tExtract(x.T, lo, tSub(hi, lo)), Ty: x.Ty}
	case "with":
		x := ev.eval(e.A[0])
		ct := c.tm.StructCtor(x.Ty)
		if ct == nil {
			ev.fail("with on %s", x.Ty)
		}
		u := x.Ty.Underlying().(*types.Struct)
		args := make([]*Term, len(ct.Fields))
		for i := range args {
			args[i] = tSel(ct, i, x.T)
		}
		for k, key := range e.Keys {
			ok := false
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == key {
					args[i] = ev.coerce(ev.eval(e.A[k+1]), u.Field(i).Type())
					ok = true
				}
			}
			if !ok {
				ev.fail("no field %s in %s", key, x.Ty)
			}
		}
		return TV{T: tCtor(ct, args...), Ty: x.Ty}
	case "lambda":
		return ev.lambda(e)
	case "call":
		return ev.call(e)
	}
	ev.fail("cannot evaluate %s", e.K)
	return TV{}
}

var bvMu sync.Mutex
var bvN int

func nextBV() int {
	bvMu.Lock()
	defer bvMu.Unlock()
	bvN++
	return bvN
}

func (ev *SpecEval) binary(e *Expr) TV {
	switch e.S {
	case "&&":
		return TV{T: tAnd(ev.bool(e.A[0]), ev.bool(e.A[1])), Ty: tyBool}
	case "||":
		return TV{T: tOr(ev.bool(e.A[0]), ev.bool(e.A[1])), Ty: tyBool}
	case "==>":
		return TV{T: tImp(ev.bool(e.A[0]), ev.bool(e.A[1])), Ty: tyBool}
	case "<==>":
		return TV{T: tEq(ev.bool(e.A[0]), ev.bool(e.A[1])), Ty: tyBool}
	}
	a, b := ev.eval(e.A[0]), ev.eval(e.A[1])
	a, b = ev.unify(a, b)
	switch e.S {
	case "==":
		return TV{T: tEq(a.T, b.T), Ty: tyBool}
	case "!=":
		return TV{T: tNot(tEq(a.T, b.T)), Ty: tyBool}
	case "<":
		return TV{T: tLt(a.T, b.T), Ty: tyBool}
	case "<=":
		return TV{T: tLe(a.T, b.T), Ty: tyBool}
	case ">":
		return TV{T: tLt(b.T, a.T), Ty: tyBool}
	case ">=":
		return TV{T: tLe(b.T, a.T), Ty: tyBool}
	case "++":
		return TV{T: tConcat(a.T, b.T), Ty: a.Ty}
	case "+":
		if a.T.Sort == SInt {
			return TV{T: tAdd(a.T, b.T), Ty: a.Ty}
		}
		return TV{T: tConcat(a.T, b.T), Ty: a.Ty}
	case "-":
		return TV{T: tSub(a.T, b.T), Ty: a.Ty}
	case "*":
		return TV{T: tMul(a.T, b.T), Ty: a.Ty}
	}
	ev.fail("operator %s", e.S)
	return TV{}
}

func (ev *SpecEval) pkgMember(p *types.Package, name string) (TV, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		return TV{T: constTerm(o.Val(), ev.c.tm.Sort(o.Type())), Ty: o.Type()}, true
	case *types.Var:
		if k, ok := ev.c.constGlobal(ev.c.globalName(o)); ok {
			return TV{T: k, Ty: o.Type()}, true
		}
		return TV{T: ev.mem.get(ev.c, ev.c.globalName(o)), Ty: o.Type()}, true
	case *types.Func:
		if sp := ev.c.prog.Package(p); sp != nil {
			if fn := sp.Func(name); fn != nil {
				cn := "clo_" + smtSafe(ev.c.fnName(fn))
				ev.c.regClosure(cn, fn, nil)
				return TV{T: tApp(cn, SFn), Ty: o.Type()}, true
			}
		}
	}
	return TV{}, false
}

func constTerm(v constant.Value, s *Sort) *Term {
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	case constant.Int:
		if s == SReal {
			return tVar("real."+v.ExactString(), SReal)
		}
		i, _ := new(big.Int).SetString(v.ExactString(), 10)
		return tBig(i)
	case constant.Float:
		if s == SInt {
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				return constTerm(i, s)
			}
		}
		return tVar("real."+v.ExactString(), SReal)
	}
	panic(perr{"constant " + v.String()})
}

func (ev *SpecEval) field(e *Expr) TV {
	c := ev.c
	if e.A[0].K == "id" {
		if _, ok := ev.vars[e.A[0].S]; !ok {
			if p := c.lookupPkg(e.A[0].S); p != nil {
				if v, ok := ev.pkgMember(p, e.S); ok {
					return v
				}
				ev.fail("unknown %s.%s", e.A[0].S, e.S)
			}
		}
	}
	x := ev.eval(e.A[0])
	if x.Nil {
		ev.fail("field of nil")
	}
	if _, ok := x.Ty.(*specTy); ok {
		ev.fail("field %s of %s", e.S, x.Ty)
	}
	obj, path, _ := types.LookupFieldOrMethod(x.Ty, true, pkgOf(x.Ty), e.S)
	fv, ok := obj.(*types.Var)
	if !ok {
		ev.fail("no field %s in %s", e.S, x.Ty)
	}
	cur := x
	for _, i := range path {
		cur = ev.fieldIdx(cur, i)
	}
	cur.Ty = fv.Type()
	return cur
}

func (ev *SpecEval) fieldIdx(x TV, i int) TV {
	c := ev.c
	if pt, ok := x.Ty.Underlying().(*types.Pointer); ok {
		st := pt.Elem()
		u := st.Underlying().(*types.Struct)
		return TV{T: tSelect(ev.mem.get(c, c.fieldHeap(st, i)), x.T), Ty: u.Field(i).Type()}
	}
	u := x.Ty.Underlying().(*types.Struct)
	ct := c.tm.StructCtor(x.Ty)
	if ct == nil {
		ev.fail("field of opaque struct %s", x.Ty)
	}
	return TV{T: tSel(ct, i, x.T), Ty: u.Field(i).Type()}
}

func pkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (ev *SpecEval) literal(e *Expr) TV {
	c := ev.c
	t := c.resolveType(e.Ty, ev.pos)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ct := c.tm.StructCtor(t)
		if ct == nil && len(e.A) == 0 {
			return TV{T: c.tm.Zero(t), Ty: t}
		}
		if ct == nil {
			ev.fail("literal of opaque struct")
		}
		args := make([]*Term, len(ct.Fields))
		for i := range args {
			args[i] = c.tm.Zero(u.Field(i).Type())
		}
		for k, a := range e.A {
			idx := k
			if len(e.Keys) > 0 {
				idx = -1
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == e.Keys[k] {
						idx = i
					}
				}
				if idx < 0 {
					ev.fail("no field %s in %s", e.Keys[k], t)
				}
			}
			args[idx] = ev.coerce(ev.eval(a), u.Field(idx).Type())
		}
		return TV{T: tCtor(ct, args...), Ty: t}
	case *types.Slice:
		var us []*Term
		for _, a := range e.A {
			us = append(us, tUnit(ev.coerce(ev.eval(a), u.Elem())))
		}
		return TV{T: tConcatS(c.tm.Sort(t), us...), Ty: t}
	case *types.Map:
		if len(e.A) == 0 {
			return TV{T: c.vm(t).empty(), Ty: t}
		}
	}
	ev.fail("literal of %s", t)
	return TV{}
}

func (ev *SpecEval) lambda(e *Expr) TV {
	c := ev.c
	n := ev
	var params []*Term
	var pts []*types.Var
	for _, b := range e.Binds {
		t := c.resolveType(b.Ty, ev.pos)
		bv := tBVar(fmt.Sprintf("lp%d.%s", len(params), b.Name), c.tm.Sort(t))
		params = append(params, bv)
		pts = append(pts, types.NewVar(0, nil, "", t))
		n = n.with(b.Name, TV{T: bv, Ty: t})
	}
	rt := c.resolveType(e.Ty, ev.pos)
	bodyv := n.eval(e.A[0])
	body := n.coerce(bodyv, rt)
	// free variables: every maximal variable-free leaf; simply the "var"/"bvar" leaves
	var free []*Term
	walk([]*Term{body}, func(t *Term) {
		if t.Op == "var" || t.Op == "bvar" {
			for _, p := range params {
				if p == t {
					return
				}
			}
			free = append(free, t)
		}
	})
	sort.Slice(free, func(i, j int) bool { return free[i].id < free[j].id })
	name := fmt.Sprintf("clo_lam.%s.%d", smtSafe(e.Pos), body.id)
	c.closMu.Lock()
	if c.clos[name] == nil {
		c.clos[name] = &CloDef{Name: name, Formals: free, Params: params, Body: body}
	}
	c.closMu.Unlock()
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(pts...), types.NewTuple(types.NewVar(0, nil, "", rt)), false)
	return TV{T: tApp(name, SFn, free...), Ty: sig}
}

func applyName(ret *Sort, args []*Term) string {
	n := "apply." + smtSafe(ret.Name)
	for _, a := range args {
		n += "." + smtSafe(a.Sort.Name)
	}
	return n
}

// applyFn applies a function value.
func (c *Ctx) applyFn(f *Term, ret *Sort, args []*Term) *Term {
	if f.Op == "ite" {
		return tIte(f.Args[0], c.applyFn(f.Args[1], ret, args), c.applyFn(f.Args[2], ret, args))
	}
	if r := c.expandApply(f, args); r != nil && r.Sort == ret {
		return r
	}
	return tApp(applyName(ret, args), ret, append([]*Term{f}, args...)...)
}

func (c *Ctx) expandApply(f *Term, args []*Term) *Term {
	if f.Op != "app" {
		return nil
	}
	c.closMu.Lock()
	d := c.clos[f.Name]
	c.closMu.Unlock()
	if d == nil {
		return nil
	}
	if d.Body != nil {
		if len(args) != len(d.Params) {
			return nil
		}
		m := map[int]*Term{}
		for i, p := range d.Params {
			m[p.id] = args[i]
		}
		for i, p := range d.Formals {
			m[p.id] = f.Args[i]
		}
		return subst(d.Body, m)
	}
	if d.Inline != nil {
		return d.Inline(f.Args, args)
	}
	return nil
}

func (ev *SpecEval) args(e *Expr) []TV {
	var out []TV
	for _, a := range e.A[1:] {
		out = append(out, ev.eval(a))
	}
	return out
}

func (ev *SpecEval) call(e *Expr) TV {
	c := ev.c
	fn := e.A[0]
	// conversions and package functions
	if fn.K == "field" && fn.A[0].K == "id" {
		if _, isVar := ev.vars[fn.A[0].S]; !isVar {
			if p := c.lookupPkg(fn.A[0].S); p != nil {
				if tn, ok := p.Scope().Lookup(fn.S).(*types.TypeName); ok {
					x := ev.eval(e.A[1])
					return ev.convert(x, tn.Type())
				}
				// pure extern function
				name := fn.A[0].S + "." + fn.S
				if r, ok := ev.externPure(name, ev.args(e)); ok {
					return r
				}
			}
		}
	}
	if fn.K == "field" {
		// pure external method
		if x := ev.eval(fn.A[0]); x.Ty != nil {
			if m, ok := lookupMethod(x.Ty, fn.S); ok && !c.tm.inModule(m.Pkg()) {
				f := c.prog.FuncValue(m)
				sig := m.Type().(*types.Signature)
				as := ev.args(e)
				name := ""
				if f == nil {
					name = pureIfaceMethod(c, m)
				} else {
					name = c.fnName(f)
				}
				if name == "" || sig.Results().Len() != 1 || sig.Params().Len() != len(as) {
					ev.fail("call of method %s: needs %d arguments and one result", fn.S, sig.Params().Len())
				}
				ts := []*Term{x.T}
				for i, a := range as {
					ts = append(ts, ev.coerce(a, sig.Params().At(i).Type()))
				}
				rt := sig.Results().At(0).Type()
				if r := intrinsicPure(name, ts); r != nil {
					return TV{T: r, Ty: rt}
				}
				return TV{T: tApp("x."+name, c.tm.Sort(rt), ts...), Ty: rt}
			}
		}
	}
	if fn.K == "id" {
		switch fn.S {
		case "len":
			x := ev.eval(e.A[1])
			if _, ok := x.Ty.Underlying().(*types.Map); ok {
				return TV{T: c.vm(x.Ty).length(c.mapContents(ev.mem, x.Ty, x.T)), Ty: tyInt}
			}
			return TV{T: tLen(x.T), Ty: tyInt}
		case "string", "int":
			x := ev.eval(e.A[1])
			t := types.Universe.Lookup(fn.S).Type()
			return ev.convert(x, t)
		case "has", "enum":
			x := ev.eval(e.A[1])
			mt, ok := x.Ty.Underlying().(*types.Map)
			if !ok {
				ev.fail("%s of %s", fn.S, x.Ty)
			}
			m := c.mapContents(ev.mem, x.Ty, x.T)
			if fn.S == "enum" {
				return TV{T: c.vm(x.Ty).enum(m), Ty: types.NewSlice(mt.Key())}
			}
			k := ev.eval(e.A[2])
			return TV{T: c.vm(x.Ty).has(m, ev.coerce(k, mt.Key())), Ty: tyBool}
		case "contents":
			x := ev.eval(e.A[1])
			return TV{T: c.mapContents(ev.mem, x.Ty, x.T), Ty: &specTy{name: "vm", sort: c.vmSort(x.Ty)}}
		case "emptymap":
			x := ev.eval(e.A[1])
			return TV{T: c.vm(x.Ty).empty(), Ty: &specTy{name: "vm", sort: c.vmSort(x.Ty)}}
		case "hasPrefix":
			as := ev.args(e)
			return TV{T: tStrOp("str.prefixof", SBool, as[1].T, as[0].T), Ty: tyBool}
		case "hasSuffix":
			as := ev.args(e)
			return TV{T: tStrOp("str.suffixof", SBool, as[1].T, as[0].T), Ty: tyBool}
		case "fresh":
			x := ev.eval(e.A[1])
			if ev.oldAlloc == nil {
				ev.fail("fresh() is not available here")
			}
			return TV{T: tAnd(tLe(ev.oldAlloc, x.T), tLt(x.T, ev.allocTerm())), Ty: tyBool}
		case "valid":
			x := ev.eval(e.A[1])
			return TV{T: tAnd(tLt(tInt(0), x.T), tLt(x.T, ev.allocTerm())), Ty: tyBool}
		case "allocated":
			x := ev.eval(e.A[1])
			return TV{T: tAnd(tLe(tInt(0), x.T), tLt(x.T, ev.allocTerm())), Ty: tyBool}
		case "apply":
			f := ev.eval(e.A[1])
			sig, ok := f.Ty.Underlying().(*types.Signature)
			if !ok {
				ev.fail("apply of %s", f.Ty)
			}
			var as []*Term
			for i, a := range e.A[2:] {
				as = append(as, ev.coerce(ev.eval(a), sig.Params().At(i).Type()))
			}
			rt := sig.Results().At(0).Type()
			return TV{T: c.applyFn(f.T, c.tm.Sort(rt), as), Ty: rt}
		case "sprintf":
			return TV{T: c.sprintf(ev.eval(e.A[1]).T, ev.eval(e.A[2]).T), Ty: tyString}
		case "runes":
			return TV{T: tApp("str.runes", SInt, ev.eval(e.A[1]).T), Ty: tyInt}
		case "runeoff":
			return TV{T: tApp("str.runeoff", SInt, ev.eval(e.A[1]).T, ev.eval(e.A[2]).T), Ty: tyInt}
		case "itoa":
			x := ev.eval(e.A[1])
			return TV{T: itoa(x.T), Ty: tyString}
		case "typeTag":
			x := ev.eval(e.A[1])
			return TV{T: tApp("typetag", SInt, x.T), Ty: tyInt}
		}
		if f, ok := c.funcs[fn.S]; ok {
			return ev.callSpec(f, ev.args(e))
		}
		if t := types.Universe.Lookup(fn.S); t != nil {
			if tn, ok := t.(*types.TypeName); ok {
				return ev.convert(ev.eval(e.A[1]), tn.Type())
			}
		}
	}
	ev.fail("unknown function in call: %s %s", fn.K, fn.S)
	return TV{}
}

func lookupMethod(t types.Type, name string) (*types.Func, bool) {
	if _, ok := t.(*specTy); ok {
		return nil, false
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := o.(*types.Func)
	return f, ok
}

// externPure: a pure external function by its short name, as used by the
// executor for calls without a contract that are declared pure.
func (ev *SpecEval) externPure(name string, as []TV) (TV, bool) {
	c := ev.c
	fn := c.externFn(name)
	if fn == nil {
		return TV{}, false
	}
	sig := fn.Signature
	if sig.Results().Len() != 1 || sig.Params().Len() != len(as) {
		ev.fail("call of %s: needs %d arguments and one result", name, sig.Params().Len())
	}
	var ts []*Term
	for i, a := range as {
		ts = append(ts, ev.coerce(a, sig.Params().At(i).Type()))
	}
	rt := sig.Results().At(0).Type()
	if r := intrinsicPure(name, ts); r != nil {
		return TV{T: r, Ty: rt}, true
	}
	return TV{T: tApp("x."+name, c.tm.Sort(rt), ts...), Ty: rt}, true
}

func (ev *SpecEval) convert(x TV, t types.Type) TV {
	if x.Nil {
		return TV{T: ev.c.tm.Zero(t), Ty: t}
	}
	if x.Ty != nil {
		if _, ok := x.Ty.(*specTy); !ok && !types.IsInterface(t) {
			_, sl := x.Ty.Underlying().(*types.Slice)
			_, sl2 := t.Underlying().(*types.Slice)
			if fs, ts := ev.c.tm.Sort(x.Ty), ev.c.tm.Sort(t); fs != ts && (sl || sl2) {
				return TV{T: tApp(convName(x.Ty, t), ts, x.T), Ty: t}
			}
		}
	}
	return TV{T: ev.coerce(x, t), Ty: t}
}

// allocTerm is the bound of the allocated references.
func (ev *SpecEval) allocTerm() *Term {
	if ev.alloc != nil {
		return ev.alloc
	}
	if ev.mem.rec == nil {
		ev.fail("allocated() is not available here")
	}
	return ev.mem.get(ev.c, ev.c.regHeap("$alloc", SInt))
}

func (ev *SpecEval) callSpec(f *SFunc, as []TV) TV {
	c := ev.c
	if len(as) != len(f.Params) {
		ev.fail("%s needs %d arguments, got %d", f.Name, len(f.Params), len(as))
	}
	var ts []*Term
	for _, h := range f.Reads {
		if h == "$alloc" {
			ts = append(ts, ev.allocTerm())
			continue
		}
		ts = append(ts, ev.mem.get(c, h))
	}
	for i, a := range as {
		ts = append(ts, ev.coerce(a, f.Params[i]))
	}
	return TV{T: c.appSpec(f, ts), Ty: f.Ret}
}

func (c *Ctx) appSpec(f *SFunc, ts []*Term) *Term {
	if f.Body != nil && f.state == 2 && f.Decl.Opts["macro"] == "1" {
		m := map[int]*Term{}
		for i, p := range f.Formals {
			m[p.id] = ts[i]
		}
		return subst(f.Body, m)
	}
	return tApp("f$"+f.Name, c.tm.Sort(f.Ret), ts...)
}

// resolveFuncs computes the heap reads and bodies of all specification
// functions, by a global fixpoint as they may be mutually recursive.
func (c *Ctx) resolveFuncs() {
	var fs []*SFunc
	for _, f := range c.funcs {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
	for _, f := range fs {
		f.state = 1
		f.Formals = nil
		for i, b := range f.Decl.Params {
			f.Formals = append(f.Formals, tBVar(fmt.Sprintf("a%d.%s", i, b.Name), c.tm.Sort(f.Params[i])))
		}
	}
	bodies := map[*SFunc]*Term{}
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			if f.Decl.Body == nil {
				continue
			}
			reads := map[string]bool{}
			for _, r := range f.Reads {
				reads[r] = true
			}
			mem := &Mem{heap: map[string]*Term{}, rec: func(n string, s *Sort) *Term {
				reads[n] = true
				return tBVar("h."+n, s)
			}}
			ev := &SpecEval{c: c, vars: map[string]TV{}, mem: mem, pos: f.Decl.Pos}
			for i, b := range f.Decl.Params {
				ev.vars[b.Name] = TV{T: f.Formals[i], Ty: f.Params[i]}
			}
			bodies[f] = ev.coerce(ev.eval(f.Decl.Body), f.Ret)
			var rs []string
			for r := range reads {
				rs = append(rs, r)
			}
			sort.Strings(rs)
			if strings.Join(rs, "|") != strings.Join(f.Reads, "|") {
				f.Reads = rs
				changed = true
			}
		}
	}
	for _, f := range fs {
		if f.Decl.Body != nil {
			var hf []*Term
			for _, h := range f.Reads {
				hf = append(hf, tBVar("h."+h, c.hsort(h)))
			}
			f.Formals = append(hf, f.Formals...)
			f.Body = bodies[f]
		}
		var ss []*Sort
		for _, x := range f.Formals {
			ss = append(ss, x.Sort)
		}
		symSorts.Store("f$"+f.Name, &FuncDecl{"f$" + f.Name, ss, c.tm.Sort(f.Ret)})
		f.state = 2
	}
	c.expandMacros(fs)
	calls := map[string]map[string]bool{}
	for _, f := range fs {
		m := map[string]bool{}
		if f.Body != nil {
			walk([]*Term{f.Body}, func(t *Term) {
				if t.Op == "app" && strings.HasPrefix(t.Name, "f$") {
					m[t.Name[2:]] = true
				}
			})
		}
		calls[f.Name] = m
	}
	for _, f := range fs {
		seen := map[string]bool{}
		var visit func(n string)
		visit = func(n string) {
			for k := range calls[n] {
				if !seen[k] {
					seen[k] = true
					visit(k)
				}
			}
		}
		visit(f.Name)
		f.recursive = seen[f.Name]
	}
}

// expandMacros replaces the applications of macros in the bodies of
// specification functions.
func (c *Ctx) expandMacros(fs []*SFunc) {
	for _, f := range fs {
		if f.Body == nil {
			continue
		}
		cache := map[int]*Term{}
		depth := 0
		var rec func(x *Term) *Term
		rec = func(x *Term) *Term {
			if len(x.Args) == 0 {
				return x
			}
			if r, ok := cache[x.id]; ok {
				return r
			}
			args := make([]*Term, len(x.Args))
			changed := false
			for i, a := range x.Args {
				args[i] = rec(a)
				changed = changed || args[i] != a
			}
			r := x
			if changed {
				r = rebuild(x, args)
			}
			if r.Op == "app" && strings.HasPrefix(r.Name, "f$") {
				if g := c.funcs[r.Name[2:]]; g != nil && g.Body != nil && g.Decl.Opts["macro"] == "1" {
					if depth++; depth > 20 {
						panic(fmt.Sprintf("%s: recursive macro %s", f.Decl.Pos, g.Name))
					}
					m := map[int]*Term{}
					for i, p := range g.Formals {
						m[p.id] = r.Args[i]
					}
					r = rec(subst(g.Body, m))
					depth--
				}
			}
			cache[x.id] = r
			return r
		}
		f.Body = rec(f.Body)
	}
}
