package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnName is the short name of a function, as used in contracts.
func (c *Ctx) fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return c.fnName(fn.Parent()) + n[i:]
		}
		return c.fnName(fn.Parent()) + "." + n
	}
	sig := fn.Signature
	var pk *types.Package
	if fn.Object() != nil {
		pk = fn.Object().Pkg()
	} else if fn.Pkg != nil {
		pk = fn.Pkg.Pkg
	}
	pn := c.pkgName(pk)
	if recv := sig.Recv(); recv != nil {
		rt := types.Unalias(recv.Type())
		ptr := ""
		if p, ok := rt.(*types.Pointer); ok {
			ptr = "*"
			rt = types.Unalias(p.Elem())
		}
		tn := rt.String()
		if n, ok := rt.(*types.Named); ok {
			tn = n.Obj().Name()
			if pn == "" {
				pn = c.pkgName(n.Obj().Pkg())
			}
		}
		return fmt.Sprintf("%s.(%s%s).%s", pn, ptr, tn, fn.Name())
	}
	return pn + "." + fn.Name()
}

// pkgName is the name of a package in specifications.
func (c *Ctx) pkgName(p *types.Package) string {
	if p == nil {
		return ""
	}
	if c.pkgBy[p.Name()] == nil || c.pkgBy[p.Name()].Path() == p.Path() {
		return p.Name()
	}
	return pathName(p.Path())
}

func pathName(p string) string {
	return strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p)
}

func (c *Ctx) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return c.tm.inModule(f.Pkg.Pkg)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return c.tm.inModule(f.Object().Pkg())
		}
	}
	// synthetic wrapper: by receiver
	if r := fn.Signature.Recv(); r != nil {
		return c.tm.inModule(pkgOf(r.Type()))
	}
	if len(fn.Params) > 0 {
		return c.tm.inModule(pkgOf(fn.Params[0].Type()))
	}
	return false
}

func (c *Ctx) regClosure(name string, fn *ssa.Function, mc *ssa.MakeClosure) {
	c.closMu.Lock()
	defer c.closMu.Unlock()
	if c.clos[name] != nil {
		return
	}
	d := &CloDef{Name: name}
	if fn.Blocks != nil && c.inModule(fn) {
		d.Inline = func(binds, args []*Term) *Term { return c.evalPure(fn, mc, binds, args) }
	}
	c.clos[name] = d
}

// evalPure evaluates a function which only computes with its arguments and
// captured values to a term, or nil.
func (c *Ctx) evalPure(fn *ssa.Function, mc *ssa.MakeClosure, binds, args []*Term) (res *Term) {
	if len(fn.Params) != len(args) || fn.Signature.Results().Len() != 1 {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, perr:
				res = nil
				return
			}
			panic(r)
		}
	}()
	impure := false
	t := newTask(c, "pure:"+c.fnName(fn), &Contract{Flags: map[string]bool{"nosafety": true}}, fn)
	t.quiet = 1
	t.a0 = tVar("A0!pure", SInt)
	st := &State{mem: &Mem{heap: map[string]*Term{}, rec: func(n string, s *Sort) *Term {
		impure = true
		return tVar("pure!"+n, s)
	}}, alloc: t.a0, env: map[ssa.Value]Val{}, locals: map[*LocalCell]*Term{}, active: map[*ssa.BasicBlock]*activeLoop{}, pend: map[string]*pendAppend{}}
	st.fr = &Frame{fn: fn, loops: findLoops(fn)}
	if len(st.fr.loops) > 0 {
		return nil
	}
	for i, p := range fn.Params {
		st.env[p] = Val{T: args[i]}
	}
	for i, fv := range fn.FreeVars {
		if i >= len(binds) {
			return nil
		}
		if mc != nil {
			if al, ok := mc.Bindings[i].(*ssa.Alloc); ok && effectivelyConst(al, fv) {
				st.env[fv] = Val{A: &Addr{Kind: aConst, Val: binds[i], Ty: al.Type().(*types.Pointer).Elem()}}
				continue
			}
		}
		st.env[fv] = Val{T: binds[i]}
	}
	outs := t.runFrom(st, fn.Blocks[0], 0)
	if impure {
		return nil
	}
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		if o.kind != oReturn || len(o.st.mem.heap) > 0 {
			return nil
		}
		if res == nil {
			res = o.vals[0].T
		} else {
			res = tIte(tAnd(o.st.pc...), o.vals[0].T, res)
		}
	}
	return res
}

func newTask(c *Ctx, name string, k *Contract, fn *ssa.Function) *Task {
	return &Task{c: c, name: name, contr: k, fn: fn, uses: map[*Contract]bool{}, usesLem: map[string]bool{},
		assume: map[string]bool{}, inlined: map[string]bool{}, invKept: map[string]int{}, hcache: map[string]bool{}, vars: map[string]TV{}, addrRef: map[string]*Term{}}
}

// ---- calls ----

func (t *Task) callCommon(st *State, call *ssa.CallCommon, fv Val, args []Val, pos token.Pos, instr *ssa.Call) []Outcome {
	if call.IsInvoke() {
		return t.invoke(st, call, fv, args, pos)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		v := t.builtin(st, b, call, args, pos, instr)
		return []Outcome{{kind: oReturn, st: st, vals: []Val{v}}}
	}
	if fn := call.StaticCallee(); fn != nil {
		return t.callFn(st, fn, fv.Clo, args, pos)
	}
	if fv.Clo != nil {
		return t.callFn(st, fv.Clo.Fn, fv.Clo, args, pos)
	}
	sig := call.Signature()
	ft := t.toTerm(st, fv, call.Value.Type())
	t.safe(st, "call of a nil function", tNot(tEq(ft, t.c.tm.Zero(call.Value.Type()))), pos)
	// a closure known by its term
	if ft.Op == "app" && strings.HasPrefix(ft.Name, "clo_") && sig.Results().Len() == 1 {
		var ts []*Term
		for i, a := range args {
			ts = append(ts, t.toTerm(st, a, sig.Params().At(i).Type()))
		}
		if r := t.c.expandApply(ft, ts); r != nil {
			return []Outcome{{kind: oReturn, st: st, vals: []Val{{T: r}}}}
		}
	}
	var names []string
	if n, ok := types.Unalias(call.Value.Type()).(*types.Named); ok {
		names = append(names, t.c.pkgName(n.Obj().Pkg())+"."+n.Obj().Name())
	}
	if fv.Org != nil && fv.Org.Kind == aHeap {
		names = append(names, strings.TrimPrefix(fv.Org.Heap, "H."))
	}
	names = append(names, t.c.fnName(st.fr.fn)+"."+call.Value.Name())
	for _, n := range names {
		if k := t.c.ftypeC[n]; k != nil {
			vals := append([]Val{{T: ft}}, args...)
			tys := []types.Type{call.Value.Type()}
			for i := 0; i < sig.Params().Len(); i++ {
				tys = append(tys, sig.Params().At(i).Type())
			}
			return t.applyContract(st, k, vals, tys, sig, pos)
		}
	}
	if sig.Results().Len() == 1 && len(args) == sig.Params().Len() {
		t.assumption("function values called without a contract of their type are pure (" + t.c.fnName(st.fr.fn) + ")")
		var ts []*Term
		for i, a := range args {
			ts = append(ts, t.toTerm(st, a, sig.Params().At(i).Type()))
		}
		rt := sig.Results().At(0).Type()
		r := t.c.applyFn(ft, t.c.tm.Sort(rt), ts)
		t.typeFacts(st, r, rt)
		return []Outcome{{kind: oReturn, st: st, vals: []Val{{T: r}}}}
	}
	panic(unsupported{"call of a function value of type " + call.Value.Type().String()})
}

func (t *Task) callFn(st *State, fn *ssa.Function, clo *Closure, args []Val, pos token.Pos) []Outcome {
	c := t.c
	name := c.fnName(fn)
	if k := c.contr[name]; k != nil && !k.Flags["inline"] {
		tys := make([]types.Type, len(args))
		i := 0
		if r := fn.Signature.Recv(); r != nil && len(fn.Params) == 0 || r != nil && len(args) == fn.Signature.Params().Len()+1 {
			tys[0] = r.Type()
			i = 1
		}
		for j := 0; j < fn.Signature.Params().Len() && i < len(tys); j++ {
			tys[i] = fn.Signature.Params().At(j).Type()
			i++
		}
		return t.applyContract(st, k, args, tys, fn.Signature, pos)
	}
	if outs, ok := t.intrinsic(st, name, fn, args, pos); ok {
		return outs
	}
	if fn.Blocks != nil && c.inModule(fn) {
		return t.inline(st, fn, clo, args, pos)
	}
	return t.external(st, name, fn, args)
}

func (t *Task) inline(st *State, fn *ssa.Function, clo *Closure, args []Val, pos token.Pos) []Outcome {
	depth := 0
	for f := st.fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(unsupported{"recursive call of " + t.c.fnName(fn) + " without a contract"})
		}
		depth++
	}
	if depth > 12 {
		panic(unsupported{"inlining too deep at " + t.c.fnName(fn)})
	}
	if t.quiet == 0 {
		t.inlined[t.c.fnName(fn)] = true
	}
	caller := st.fr
	saved := st.defers
	st.defers = nil
	st.fr = &Frame{fn: fn, parent: caller, depth: depth, loops: findLoops(fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			a := args[i]
			a.Org, a.Pend = nil, ""
			if a.T != nil && a.T.Sort.Kind == "Seq" {
				a.Own = false
			}
			st.env[p] = a
		}
	}
	for i, fv := range fn.FreeVars {
		if clo == nil || i >= len(clo.Binds) {
			panic(unsupported{"closure without bindings"})
		}
		st.env[fv] = clo.Binds[i]
	}
	cells := map[*LocalCell]bool{}
	for l := range st.locals {
		cells[l] = true
	}
	outs := collapse(t.runFrom(st, fn.Blocks[0], 0), cells)
	for i := range outs {
		o := &outs[i]
		if o.kind == oReturn {
			for h, al := range o.st.active {
				if al.frame != nil && al.frame.fn == fn && al.frame.parent == caller {
					delete(o.st.active, h)
				}
			}
			o.st.fr = caller
			o.st.defers = append([]*deferCall(nil), saved...)
		}
	}
	return outs
}

// purePkgs: functions of these packages without a contract are functions of
// their arguments, with no effects.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "path/filepath": true, "path": true, "unicode": true, "unicode/utf8": true,
	"errors": true, "regexp": true, "reflect": true, "time": true, "github.com/agext/levenshtein": true, "github.com/segmentio/textio": false,
	"golang.org/x/text/cases": true, "html": true, "net/url": true, "math": true}

var impure = map[string]bool{"time.Now": true, "time.AfterFunc": true, "reflect.(Value).Call": true, "time.Since": true}

func (t *Task) external(st *State, name string, fn *ssa.Function, args []Val) []Outcome {
	sig := fn.Signature
	var pk string
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	pure := purePkgs[pk] && !impure[name]
	var ts []*Term
	for i, a := range args {
		var ty types.Type
		if i < len(fn.Params) {
			ty = fn.Params[i].Type()
		}
		if a.T == nil && a.A == nil {
			pure = false
			continue
		}
		ts = append(ts, t.toTerm(st, a, ty))
	}
	if strings.HasPrefix(name, "strings.(*") || strings.HasPrefix(name, "strings.New") {
		pure = false
	}
	var vals []Val
	if pure {
		t.assumption("external, pure: " + name)
	} else {
		t.assumption("external, no effect on the module's state, any result: " + name)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var r *Term
		if pure {
			un := "x." + name
			if sig.Results().Len() > 1 {
				un = fmt.Sprintf("x.%s.%d", name, i)
			}
			if i == 0 && sig.Results().Len() == 1 {
				r = intrinsicPure(name, ts)
			}
			if r == nil {
				r = tApp(un, t.c.tm.Sort(rt), ts...)
			}
			if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				st.assume(tLe(tInt(0), r))
			}
		} else {
			r = t.fresh("x."+smtSafe(name), rt)
			// it may be new: then its address is one which was set aside, as the
			// objects of other modules are not told apart from the start
			t.typeFacts(st, r, rt)
		}
		vals = append(vals, Val{T: r})
	}
	return []Outcome{{kind: oReturn, st: st, vals: vals}}
}

func (t *Task) growAlloc(st *State) {
	n := fresh("A0", SInt)
	st.pc = append(st.pc, tLe(st.alloc, n))
	st.alloc = n
}

// ---- builtins ----

func (t *Task) builtin(st *State, b *ssa.Builtin, call *ssa.CallCommon, args []Val, pos token.Pos, instr *ssa.Call) Val {
	c := t.c
	switch b.Name() {
	case "len":
		switch u := call.Args[0].Type().Underlying().(type) {
		case *types.Map:
			vm := c.vm(call.Args[0].Type())
			return Val{T: vm.length(c.mapContents(st.mem, call.Args[0].Type(), args[0].T))}
		case *types.Pointer:
			return Val{T: tInt(u.Elem().Underlying().(*types.Array).Len())}
		}
		return Val{T: tLen(args[0].T)}
	case "cap":
		r := fresh("cap", SInt)
		st.assume(tLe(tLen(args[0].T), r))
		return Val{T: r}
	case "append":
		s := args[0]
		var rest *Term
		rest = args[1].T
		if rest.Sort != s.T.Sort {
			rest = tApp("conv."+smtSafe(rest.Sort.Name)+"."+smtSafe(s.T.Sort.Name), s.T.Sort, rest)
		}
		v := Val{T: tConcat(s.T, rest), Own: true}
		if rest.Op == "empty" {
			v.Own = s.Own
			return v
		}
		if s.Own || s.Cap || s.T.Op == "empty" {
			// the register appended to must not be used for appending again
			if len(call.Args) > 0 {
				if x, ok := st.env[call.Args[0]]; ok && x.Own {
					x.Own = false
					st.env[call.Args[0]] = x
				}
			}
			return v
		}
		if s.Org != nil && s.Org.Kind != aElem {
			key := fmt.Sprintf("%p", call)
			v.Pend = key
			v.Own = false
			st.pend[key] = &pendAppend{addr: s.Org, pos: t.pos(pos)}
			return v
		}
		t.obligate(st, "own", "append to a slice whose storage may be shared", tFalse, pos, []string{"C02"}, nil)
		return v
	case "copy":
		panic(unsupported{"copy"})
	case "delete":
		mt := call.Args[0].Type()
		vm := c.vm(mt)
		k := args[1].T
		if c.isValueMap(mt) {
			panic(unsupported{"delete from a value map"})
		}
		h := c.mapHeap(mt)
		m := st.mem.get(c, h)
		st.mem.set(h, tStore(m, args[0].T, vm.del(tSelect(m, args[0].T), k)))
		return Val{}
	case "min", "max":
		r := args[0].T
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = tIte(tLe(r, a.T), r, a.T)
			} else {
				r = tIte(tLe(a.T, r), r, a.T)
			}
		}
		return Val{T: r}
	case "ssa:wrapnilchk":
		if args[0].T != nil {
			t.safe(st, "nil dereference", tNot(tEq(args[0].T, tInt(0))), pos)
		}
		return args[0]
	case "print", "println", "close":
		return Val{}
	}
	panic(unsupported{"builtin " + b.Name()})
}

// ---- interface methods ----

func (st *State) dynType(c *Ctx, v *Term) *Ctor {
	if v.Op == "ctor" {
		return v.Ctor
	}
	for _, p := range st.pc {
		if p.Op == "is" && p.Args[0] == v {
			return p.Ctor
		}
	}
	return nil
}

func (t *Task) invoke(st *State, call *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Outcome {
	c := t.c
	v := fv.T
	m := call.Method
	t.safe(st, "call of method "+m.Name()+" on nil", tNot(tIs(c.tm.ifaceData.Ctors[0], v)), pos)
	if ct := st.dynType(c, v); ct != nil {
		if ty := c.tm.CtorType(ct); ty != nil {
			fn := c.prog.LookupMethod(ty, m.Pkg(), m.Name())
			if fn != nil {
				recv := Val{T: tSel(ct, 0, v), Clo: fv.Clo}
				return t.callFn(st, fn, nil, append([]Val{recv}, args...), pos)
			}
		}
	}
	tys := []types.Type{call.Value.Type()}
	sig := call.Signature()
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	for _, n := range c.ifaceNames(call.Value.Type(), m) {
		for _, k := range c.ifaceC[n] {
			if k.When != nil {
				ev := t.eval(st)
				for i, p := range k.Params {
					a := v
					if i > 0 {
						a = t.toTerm(st, args[i-1], tys[i])
					}
					ev.vars[p] = TV{T: a, Ty: tys[i]}
				}
				ev.pos = k.Pos
				if st.decide(ev.bool(k.When)) != 1 {
					continue
				}
			}
			return t.applyContract(st, k, append([]Val{{T: v}}, args...), tys, sig, pos)
		}
	}
	if n := pureIfaceMethod(c, m); n != "" && sig.Results().Len() == 1 {
		t.assumption("external, pure: " + n)
		ts := []*Term{v}
		for i := range args {
			ts = append(ts, t.toTerm(st, args[i], tys[i+1]))
		}
		rt := sig.Results().At(0).Type()
		r := tApp("x."+n, c.tm.Sort(rt), ts...)
		t.typeFacts(st, r, rt)
		return []Outcome{{kind: oReturn, st: st, vals: []Val{{T: r}}}}
	}
	// unknown: anything may happen
	t.assumption(fmt.Sprintf("dynamic call of %s.%s without a contract: any result, any effect", types.TypeString(call.Value.Type(), nil), m.Name()))
	t.havocAll(st, nil)
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r := t.fresh("dyn", sig.Results().At(i).Type())
		t.typeFacts(st, r, sig.Results().At(i).Type())
		vals = append(vals, Val{T: r})
	}
	return []Outcome{{kind: oReturn, st: st, vals: vals}}
}

// pureIfaceMethod names a method of an interface of a package whose
// functions are pure.
func pureIfaceMethod(c *Ctx, m *types.Func) string {
	r := m.Type().(*types.Signature).Recv()
	if r == nil || m.Pkg() == nil || !(purePkgs[m.Pkg().Path()] || m.Pkg().Path() == "io/fs" && m.Name() == "ModTime") {
		return ""
	}
	n, ok := types.Unalias(r.Type()).(*types.Named)
	if !ok {
		return ""
	}
	return c.pkgName(m.Pkg()) + ".(" + n.Obj().Name() + ")." + m.Name()
}

// ifaceNames: the names under which contracts of an interface method are found.
func (c *Ctx) ifaceNames(t types.Type, m *types.Func) []string {
	var out []string
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			out = append(out, n.Obj().Name()+"."+m.Name())
		} else {
			out = append(out, c.pkgName(n.Obj().Pkg())+"."+n.Obj().Name()+"."+m.Name())
		}
		if it, ok := n.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				out = append(out, c.ifaceNames(it.EmbeddedType(i), m)...)
			}
		}
	}
	return out
}

func (t *Task) havocAll(st *State, except map[string]bool) {
	base := fresh("Hn", SInt).Name + "!"
	old := st.mem
	st.mem = &Mem{heap: map[string]*Term{}, base: base}
	for n := range except {
		st.mem.heap[n] = old.get(t.c, n)
	}
	for n := range t.c.stable {
		st.mem.heap[n] = old.get(t.c, n)
	}
	for _, p := range st.priv {
		if !except[p.heap] {
			st.mem.set(p.heap, tStore(st.mem.get(t.c, p.heap), p.ref, tSelect(old.get(t.c, p.heap), p.ref)))
		}
	}
	t.growAlloc(st)
}

// eval is an evaluator for the current state.
func (t *Task) eval(st *State) *SpecEval {
	vars := map[string]TV{}
	for k, v := range t.vars {
		vars[k] = v
	}
	return &SpecEval{c: t.c, vars: vars, mem: st.mem, old: t.mem0, entry: t.mem0, alloc: st.alloc, oldAlloc: t.a0}
}

// exceptHeaps resolves the heaps excepted from "modifies *".
func (c *Ctx) modHeaps(m Mod, pos string) []string {
	if strings.HasSuffix(m.Heap, ".*") {
		st := c.resolveType(&TyExpr{K: "name", Name: strings.TrimSuffix(m.Heap, ".*")}, pos)
		var out []string
		for _, h := range c.structHeaps(st) {
			if !c.constHeaps[h] {
				out = append(out, h)
			}
		}
		return out
	}
	h, _ := c.resolveHeap(m.Heap, pos)
	return []string{h}
}

// applyContract replaces a call by the contract of the callee.
func (t *Task) applyContract(st *State, k *Contract, args []Val, tys []types.Type, sig *types.Signature, pos token.Pos) []Outcome {
	c := t.c
	t.uses[k] = true
	if len(k.Params) != len(args) {
		panic(unsupported{fmt.Sprintf("%s: contract of %s has %d parameters, call has %d", k.Pos, k.Name, len(k.Params), len(args))})
	}
	vars := map[string]TV{}
	for i, p := range k.Params {
		if args[i].T == nil && args[i].A == nil && args[i].It == nil {
			panic(unsupported{"argument " + p + " of " + k.Name})
		}
		vars[p] = TV{T: t.toTerm(st, args[i], tys[i]), Ty: tys[i]}
	}
	pre := st.mem.clone()
	preAlloc := st.alloc
	ev := &SpecEval{c: c, vars: vars, mem: st.mem, alloc: st.alloc, pos: k.Pos}
	n := 0
	for _, cl := range k.Clauses {
		if cl.Kind != "requires" {
			continue
		}
		g := ev.bool(cl.E)
		n++
		if st.decide(g) != 1 {
			t.obligate(st, "requires", k.Name+": requires "+clauseName(cl), g, pos, t.requiresProps(k, cl), cl)
			st.assume(g)
		} else {
			t.obligate(st, "requires", k.Name+": requires "+clauseName(cl), tTrue, pos, t.requiresProps(k, cl), cl)
		}
	}
	// effects
	var freshVals []*Term
	all := false
	except := map[string]bool{}
	for _, cl := range k.Clauses {
		if cl.Kind != "modifies" {
			continue
		}
		for _, m := range cl.Mods {
			if m.All {
				all = true
			}
			if m.Except {
				for _, h := range c.modHeaps(m, cl.Pos) {
					except[h] = true
				}
			}
		}
	}
	if all {
		t.havocAll(st, except)
	}
	if !k.Flags["noalloc"] && !all {
		lo := st.alloc
		t.growAlloc(st)
		if k.Kind == "extern" {
			// what a library makes is not of the module's types
			for _, h := range sortedKeys(c.typed) {
				r := fresh("r!", SInt)
				g := tForall([]*Term{r}, tImp(tAnd(tLe(lo, r), tLt(r, st.alloc)), tEq(tSelect(st.mem.get(c, h), r), c.tm.Zero(c.typed[h]))))
				st.assume(g)
			}
		}
	}
	for _, cl := range k.Clauses {
		if cl.Kind != "modifies" {
			continue
		}
		for _, m := range cl.Mods {
			if m.All || m.Except {
				continue
			}
			for _, h := range c.modHeaps(m, cl.Pos) {
				if m.At != nil {
					pe := &SpecEval{c: c, vars: vars, mem: pre, alloc: preAlloc, pos: cl.Pos}
					r := pe.eval(m.At)
					cur := st.mem.get(c, h)
					fv := fresh("m$", cur.Sort.Args[1])
					freshVals = append(freshVals, fv)
					st.mem.set(h, tStore(cur, pe.coerce(r, tyInt2(c, r)), fv))
				} else {
					fv := fresh("m$"+smtSafe(h), c.hsort(h))
					freshVals = append(freshVals, fv)
					st.mem.set(h, fv)
				}
			}
		}
	}
	// results
	var vals []Val
	post := map[string]TV{}
	for n, v := range vars {
		post[n] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := t.fresh("r$", rt)
		freshVals = append(freshVals, r)
		vals = append(vals, Val{T: r, Own: k.Flags["own-result"]})
		if i < len(k.Results) {
			post[k.Results[i]] = TV{T: r, Ty: rt}
		}
	}
	pv := &SpecEval{c: c, vars: post, mem: st.mem, old: pre, alloc: st.alloc, oldAlloc: preAlloc, pos: k.Pos}
	var facts []*Term
	for _, cl := range k.Clauses {
		if cl.Kind == "ensures" {
			pv.pos = cl.Pos
			facts = append(facts, pv.bool(cl.E))
		}
	}
	// solve equations for the fresh values
	m, facts := solveEqs(facts, freshVals)
	if len(m) > 0 {
		for i := range vals {
			vals[i].T = subst(vals[i].T, m)
		}
		for h, x := range st.mem.heap {
			st.mem.heap[h] = subst(x, m)
		}
	}
	for _, f := range facts {
		st.assume(f)
	}
	for i := range vals {
		t.typeFacts(st, vals[i].T, sig.Results().At(i).Type())
	}
	return []Outcome{{kind: oReturn, st: st, vals: vals}}
}

func tyInt2(c *Ctx, r TV) types.Type {
	if r.Ty != nil {
		return r.Ty
	}
	return tyInt
}

// solveEqs uses equations "fresh == term" as definitions.
func solveEqs(facts, vars []*Term) (map[int]*Term, []*Term) {
	isVar := map[int]bool{}
	for _, v := range vars {
		isVar[v.id] = true
	}
	m := map[int]*Term{}
	var flat []*Term
	for _, f := range facts {
		if f.Op == "and" {
			flat = append(flat, f.Args...)
		} else {
			flat = append(flat, f)
		}
	}
	for changed := true; changed; {
		changed = false
		for i, f := range flat {
			var v, x *Term
			switch {
			case isVar[f.id]:
				v, x = f, tTrue
			case f.Op == "not" && isVar[f.Args[0].id]:
				v, x = f.Args[0], tFalse
			case f.Op == "is" && isVar[f.Args[0].id] && len(f.Ctor.Fields) == 0:
				v, x = f.Args[0], tCtor(f.Ctor)
			case f.Op == "=" && isVar[f.Args[0].id] && !occurs(f.Args[0], f.Args[1]):
				v, x = f.Args[0], f.Args[1]
			case f.Op == "=" && isVar[f.Args[1].id] && !occurs(f.Args[1], f.Args[0]):
				v, x = f.Args[1], f.Args[0]
			default:
				continue
			}
			if m[v.id] != nil {
				continue
			}
			one := map[int]*Term{v.id: x}
			for k, y := range m {
				m[k] = subst(y, one)
			}
			m[v.id] = x
			delete(isVar, v.id)
			flat[i] = tTrue
			var nf []*Term
			for _, g := range flat {
				g = subst(g, one)
				if g.Op == "and" {
					nf = append(nf, g.Args...)
				} else if g.Op != "true" {
					nf = append(nf, g)
				}
			}
			flat = nf
			changed = true
			break
		}
	}
	return m, flat
}

func clauseName(cl *Clause) string {
	if cl.Label != "" {
		return cl.Label
	}
	s := cl.Text
	if len(s) > 90 {
		s = s[:87] + "..."
	}
	return s
}

func (t *Task) requiresProps(k *Contract, cl *Clause) []string {
	if len(cl.Props) > 0 {
		return cl.Props
	}
	return nil
}

// collapse joins the outcomes of a call which have the same effects and
// results: what the paths to them assumed is forgotten.
func collapse(outs []Outcome, cells map[*LocalCell]bool) []Outcome {
	var res []Outcome
next:
	for _, o := range outs {
		if o.kind == oReturn {
			for i := range res {
				if res[i].kind == oReturn && sameEffects(&res[i], &o, cells) {
					a, b := res[i].st.pc, o.st.pc
					n := 0
					for n < len(a) && n < len(b) && a[n] == b[n] {
						n++
					}
					res[i].st.pc = append([]*Term(nil), a[:n]...)
					continue next
				}
			}
		}
		res = append(res, o)
	}
	return res
}

func sameEffects(x, y *Outcome, cells map[*LocalCell]bool) bool {
	a, b := x.st, y.st
	if a.alloc != b.alloc || a.mem.base != b.mem.base || len(a.mem.heap) != len(b.mem.heap) || len(a.pend) != 0 || len(b.pend) != 0 || len(a.unpub) != 0 || len(b.unpub) != 0 || len(a.priv) != len(b.priv) || len(a.active) != len(b.active) || len(x.vals) != len(y.vals) {
		return false
	}
	for h, v := range a.mem.heap {
		if b.mem.heap[h] != v {
			return false
		}
	}
	for l := range cells {
		if a.locals[l] != b.locals[l] {
			return false
		}
	}
	for h, al := range a.active {
		if b.active[h] != al {
			return false
		}
	}
	for i := range x.vals {
		v, w := x.vals[i], y.vals[i]
		if v.T == nil || v.T != w.T || v.Clo != nil || w.Clo != nil || v.Own != w.Own {
			return false
		}
	}
	return true
}
