package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsicPure gives meaning to pure external functions.
func intrinsicPure(name string, a []*Term) *Term {
	switch name {
	case "strings.HasPrefix":
		return tStrOp("str.prefixof", SBool, a[1], a[0])
	case "strings.HasSuffix":
		return tStrOp("str.suffixof", SBool, a[1], a[0])
	case "strings.Contains":
		return tStrOp("str.contains", SBool, a[0], a[1])
	case "strconv.Itoa":
		return itoa(a[0])
	}
	return nil
}

func itoa(n *Term) *Term {
	pos := mk("str.from_int", "", SString, nil, 0, n)
	if n.Op == "int" && n.Int.Sign() >= 0 {
		return tStr(n.Int.String())
	}
	return tIte(tLe(tInt(0), n), pos, tConcat(tStr("-"), mk("str.from_int", "", SString, nil, 0, tSub(tInt(0), n))))
}

// ifaceElems gives the elements of a variadic argument, if known.
func ifaceElems(s *Term) ([]*Term, bool) {
	var out []*Term
	for _, p := range parts(s) {
		if p.Op != "unit" {
			return nil, false
		}
		out = append(out, p.Args[0])
	}
	return out, true
}

// sprintf decomposes a constant format.
func (c *Ctx) sprintf(format *Term, args *Term) *Term {
	es, ok := ifaceElems(args)
	if !ok || format.Op != "str" {
		return tApp("fmt.Sprintf", SString, format, args)
	}
	var out []*Term
	f := format.Name
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, tStr(f[i:]))
			break
		}
		out = append(out, tStr(f[i:i+j]))
		i += j + 1
		e := i
		for e < len(f) && strings.IndexByte("+-# 0123456789.", f[e]) >= 0 {
			e++
		}
		if e >= len(f) {
			return tApp("fmt.Sprintf", SString, format, args)
		}
		verb := f[i : e+1]
		i = e + 1
		if verb == "%" {
			out = append(out, tStr("%"))
			continue
		}
		if k >= len(es) {
			return tApp("fmt.Sprintf", SString, format, args)
		}
		out = append(out, c.fmtVerb(verb, es[k]))
		k++
	}
	if k != len(es) {
		return tApp("fmt.Sprintf", SString, format, args)
	}
	return tConcatS(SString, out...)
}

func (c *Ctx) fmtVerb(verb string, x *Term) *Term {
	if x.Op == "ctor" && len(x.Args) == 1 {
		ty := c.tm.CtorType(x.Ctor)
		if ty != nil {
			_, named := types.Unalias(ty).(*types.Named)
			if b, ok := ty.Underlying().(*types.Basic); ok {
				hasM := named && types.NewMethodSet(ty).Len() > 0
				if !hasM && b.Info()&types.IsString != 0 && (verb == "s" || verb == "v") {
					return x.Args[0]
				}
				if !hasM && b.Info()&types.IsInteger != 0 && (verb == "d" || verb == "v") {
					return itoa(x.Args[0])
				}
			}
		}
	}
	return tApp("fmt.verb", SString, tStr(verb), x)
}

func (t *Task) boxErr(s *Term) *Term { return nil }

// intrinsic handles functions with a built-in meaning.
func (t *Task) intrinsic(st *State, name string, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) {
		return []Outcome{{kind: oReturn, st: st, vals: vs}}, true
	}
	switch name {
	case "fmt.Sprintf":
		t.assumption("fmt.Sprintf: the result consists of the literal parts of a constant format and of the formatted arguments, in order; strings and integers format as themselves")
		return ret(Val{T: t.c.sprintf(args[0].T, args[1].T)})
	case "fmt.Errorf":
		// a new, non-nil error
		t.assumption("fmt.Errorf returns a non-nil error made from its arguments")
		r := tApp("fmt.Errorf", SIface, t.c.sprintf(args[0].T, args[1].T), args[1].T)
		st.assume(tIs(t.c.tm.ifaceData.Ctors[1], r))
		return ret(Val{T: r})
	case "errors.New":
		r := tApp("errors.New", SIface, args[0].T)
		st.assume(tIs(t.c.tm.ifaceData.Ctors[1], r))
		return ret(Val{T: r})
	case "sync.(*Once).Do":
		return t.onceDo(st, args, pos), true
	}
	switch name {
	case "sync.(*Mutex).Lock", "sync.(*Mutex).Unlock":
		return t.mutex(st, name == "sync.(*Mutex).Lock", args, pos), true
	}
	if strings.HasPrefix(name, "logrus.") {
		t.assumption("logging has no effect on the module's state")
		sig := fn.Signature
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			r := t.fresh("log", rt)
			if _, ok := rt.Underlying().(*types.Pointer); ok {
				// not an object of the module
				st.assume(tLt(tInt(0), r))
				vs = append(vs, Val{T: r})
				continue
			}
			t.typeFacts(st, r, rt)
			vs = append(vs, Val{T: r})
		}
		return []Outcome{{kind: oReturn, st: st, vals: vs}}, true
	}
	return nil, false
}

// mutex models locking: a mutex is not locked twice by the same goroutine, and
// what it guards may have been changed by others since it was last held.
func (t *Task) mutex(st *State, lock bool, args []Val, pos token.Pos) []Outcome {
	c := t.c
	ref := t.toTerm(st, args[0], types.NewPointer(types.Typ[types.Int]))
	t.assumption("sync.Mutex: at most one goroutine holds a mutex, and what happened before it was unlocked is seen after it is locked")
	held := st.mem.get(c, "$held")
	if lock {
		t.obligate(st, "guard", "locks a mutex which it already holds", tNot(tSelect(held, ref)), pos, []string{"C24"}, nil)
		st.assume(tNot(tSelect(held, ref)))
		st.mem.set("$held", tStore(held, ref, tTrue))
		for _, h := range sortedKeys(c.guards) {
			if ref.Op == "app" && ref.Name == "faddr."+c.guards[h] {
				cur := st.mem.get(c, h)
				st.mem.set(h, tStore(cur, ref.Args[0], fresh("shared$", cur.Sort.Args[1])))
			}
		}
		if l, ev := t.lockInv(st, ref); l != nil {
			for _, o := range l.Over {
				h, _ := c.resolveHeap(o, "lockinv")
				st.mem.set(h, fresh("shared$", st.mem.get(c, h).Sort))
			}
			st.assume(t.evalCall(st, l.Pred, ev))
		}
		return []Outcome{{kind: oReturn, st: st}}
	}
	if l, ev := t.lockInv(st, ref); l != nil {
		t.obligate(st, "guard", "invariant "+l.Pred+" holds when the mutex is unlocked", t.evalCall(st, l.Pred, ev), pos, l.Props, nil)
	}
	t.obligate(st, "guard", "unlocks a mutex which it does not hold", tSelect(held, ref), pos, []string{"C24"}, nil)
	if held.Op == "store" && held.Args[1] == ref {
		// as it was before it was locked
		st.mem.set("$held", held.Args[0])
	} else {
		st.mem.set("$held", tStore(held, ref, tFalse))
	}
	return []Outcome{{kind: oReturn, st: st}}
}

// lockInv is the invariant of the mutex at ref and its owner.
func (t *Task) lockInv(st *State, ref *Term) (*LockInvDecl, TV) {
	if ref.Op != "app" || !strings.HasPrefix(ref.Name, "faddr.") {
		return nil, TV{}
	}
	l := t.c.lockInvs[strings.TrimPrefix(ref.Name, "faddr.")]
	if l == nil {
		return nil, TV{}
	}
	return l, TV{T: ref.Args[0], Ty: t.c.funcs[l.Pred].Params[0]}
}

// evalCall is the predicate for x in the current state.
func (t *Task) evalCall(st *State, pred string, x TV) *Term {
	ev := t.eval(st)
	ev.vars = map[string]TV{"x": x}
	return ev.bool(newParser(pred+"(x)", "lockinv").parseExpr())
}

// onceDo models sync.Once: the function runs if and only if it has not
// been started before.
func (t *Task) onceDo(st *State, args []Val, pos token.Pos) []Outcome {
	c := t.c
	ref := t.toTerm(st, args[0], types.NewPointer(types.Typ[types.Int]))
	t.safe(st, "nil dereference", tNot(tEq(ref, tInt(0))), pos)
	t.assumption("sync.Once.Do runs its function exactly if it is the first call, and returns after it ran")
	h := c.regHeap("$once", SArray(SInt, SBool))
	done := tSelect(st.mem.get(c, h), ref)
	var outs []Outcome
	s2 := st.clone()
	if st.decide(done) != -1 {
		s2.assume(done)
		outs = append(outs, Outcome{kind: oReturn, st: s2})
	}
	if st.decide(done) != 1 {
		st.assume(tNot(done))
		if args[1].Clo == nil {
			panic(unsupported{"once.Do of an unknown function"})
		}
		for _, o := range t.callFn(st, args[1].Clo.Fn, args[1].Clo, nil, pos) {
			if o.kind == oReturn {
				a := o.st.mem.get(c, h)
				o.st.mem.set(h, tStore(a, ref, tTrue))
				o.vals = nil
			}
			outs = append(outs, o)
		}
	}
	return outs
}
