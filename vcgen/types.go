package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// TypeMap maps Go types to SMT sorts.
type TypeMap struct {
	mu        sync.Mutex
	modPath   string
	structs   map[string]*Datatype // by name
	byType    map[string]*Sort     // by type string
	ifaceData *Datatype
	ifaceCt   map[string]*Ctor // by type string
	ctorType  map[string]types.Type
	valueMaps map[string]bool // map type strings with value semantics
	names     map[string]string
	opaque    map[string]bool
}

var SFn = SUn("Fn")

func NewTypeMap(mod string) *TypeMap {
	tm := &TypeMap{modPath: mod, structs: map[string]*Datatype{}, byType: map[string]*Sort{},
		ifaceCt: map[string]*Ctor{}, ctorType: map[string]types.Type{}, valueMaps: map[string]bool{}, names: map[string]string{}, opaque: map[string]bool{}}
	d := &Datatype{Name: "Iface"}
	d.sort = internSort(&Sort{Name: "Iface", Kind: "Data", Data: d})
	d.Ctors = []*Ctor{
		{Name: "inil", Data: d},
		{Name: "iother", Data: d, Fields: []CField{{"itag", SInt}, {"iref", SInt}}},
	}
	tm.ifaceData = d
	SIface = d.sort
	return tm
}

var SIface *Sort

func (tm *TypeMap) inil() *Term { return tCtor(tm.ifaceData.Ctors[0]) }

// key is a canonical name for a type. Aliases are resolved.
func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), nil)
}

// shortName is a readable unique name for a type.
func (tm *TypeMap) shortName(t types.Type) string {
	k := typeKey(t)
	if s, ok := tm.names[k]; ok {
		return s
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.NewReplacer(" ", "_", "{", "<", "}", ">", ";", ",", "\"", "'", "|", "_", "\\", "_").Replace(s)
	for {
		clash := false
		for k2, s2 := range tm.names {
			if s2 == s && k2 != k {
				clash = true
			}
		}
		if !clash {
			break
		}
		s += "'"
	}
	tm.names[k] = s
	return s
}

func (tm *TypeMap) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == tm.modPath || strings.HasPrefix(p.Path(), tm.modPath+"/"))
}

func (tm *TypeMap) Sort(t types.Type) *Sort {
	tm.mu.Lock()
	defer tm.mu.Unlock()
	return tm.sort(t)
}

func (tm *TypeMap) sort(t types.Type) *Sort {
	if h, ok := t.(*specTy); ok {
		return h.sort
	}
	t = types.Unalias(t)
	k := typeKey(t)
	if s, ok := tm.byType[k]; ok {
		return s
	}
	s := tm.sort1(t, k)
	tm.byType[k] = s
	return s
}

func (tm *TypeMap) sort1(t types.Type, k string) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SString
		case u.Info()&types.IsFloat != 0:
			return SReal
		}
		if u.Kind() == types.UntypedNil {
			return SIface
		}
		return SInt
	case *types.Pointer:
		return SInt
	case *types.Slice:
		return SSeq(tm.sort(u.Elem()))
	case *types.Array:
		return SSeq(tm.sort(u.Elem()))
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFn
	case *types.Map:
		if tm.valueMaps[k] {
			return SUn(smtSafe("VM." + tm.shortName(t)))
		}
		return SInt
	case *types.Chan:
		return SInt
	case *types.Tuple:
		if u.Len() == 1 {
			return tm.sort(u.At(0).Type())
		}
		return SInt
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && (!tm.inModule(n.Obj().Pkg()) || tm.opaque[k]) {
			return SUn(smtSafe("O." + tm.shortName(t)))
		}
		name := smtSafe("S." + tm.shortName(t))
		d := &Datatype{Name: name}
		d.sort = internSort(&Sort{Name: name, Kind: "Data", Data: d})
		tm.byType[k] = d.sort // for recursion
		c := &Ctor{Name: "mk." + name, Data: d}
		d.Ctors = []*Ctor{c}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.Fields = append(c.Fields, CField{fmt.Sprintf("%s.%s", name, fieldName(u, i)), tm.sort(f.Type())})
		}
		if len(c.Fields) == 0 {
			c.Fields = nil
		}
		tm.structs[name] = d
		return d.sort
	}
	return SUn(smtSafe("U." + tm.shortName(t)))
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

func smtSafe(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!", c) {
			b.WriteRune(c)
		} else if c == '*' {
			b.WriteString("ptr.")
		} else if c == '[' {
			b.WriteString("sl.")
		} else if c == ']' {
			b.WriteString("")
		} else if c == '\'' {
			b.WriteString("_p")
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// StructCtor is the constructor of a struct datatype.
func (tm *TypeMap) StructCtor(t types.Type) *Ctor {
	s := tm.Sort(t)
	if s.Kind != "Data" || s == SIface {
		return nil
	}
	return s.Data.Ctors[0]
}

// IfaceCtor is the constructor which boxes values of the concrete type t.
func (tm *TypeMap) IfaceCtor(t types.Type) *Ctor {
	tm.mu.Lock()
	defer tm.mu.Unlock()
	t = types.Unalias(t)
	k := typeKey(t)
	if c, ok := tm.ifaceCt[k]; ok {
		return c
	}
	s := tm.sort(t)
	n := smtSafe("I." + tm.shortName(t))
	c := &Ctor{Name: n, Data: tm.ifaceData, Fields: []CField{{n + ".v", s}}}
	tm.ifaceData.Ctors = append(tm.ifaceData.Ctors, c)
	tm.ifaceCt[k] = c
	tm.ctorType[n] = t
	return c
}

// CtorType is the Go type boxed by an Iface constructor (nil for inil, iother).
func (tm *TypeMap) CtorType(c *Ctor) types.Type {
	tm.mu.Lock()
	defer tm.mu.Unlock()
	return tm.ctorType[c.Name]
}

func (tm *TypeMap) Box(t types.Type, v *Term) *Term {
	if types.IsInterface(t) {
		return v
	}
	return tCtor(tm.IfaceCtor(t), v)
}

// Implements evaluates whether dynamic type of x implements iface.
func (tm *TypeMap) Implements(x *Term, iface types.Type) *Term {
	it := iface.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return tNot(tIs(tm.ifaceData.Ctors[0], x))
	}
	switch x.Op {
	case "ctor":
		if x.Name == "inil" {
			return tFalse
		}
		if t := tm.CtorType(x.Ctor); t != nil {
			return tBool(types.Implements(t, it))
		}
	case "ite":
		a, b := tm.Implements(x.Args[1], iface), tm.Implements(x.Args[2], iface)
		return tIte(x.Args[0], a, b)
	}
	tm.mu.Lock()
	n := smtSafe("impl." + tm.shortName(iface))
	tm.mu.Unlock()
	implIfaces.Store(n, it)
	return tApp(n, SBool, x)
}

var implIfaces sync.Map // impl.X -> *types.Interface

func (tm *TypeMap) Zero(t types.Type) *Term {
	s := tm.Sort(t)
	return tm.zeroSort(s, t)
}

func (tm *TypeMap) zeroSort(s *Sort, t types.Type) *Term {
	switch s.Kind {
	case "Bool":
		return tFalse
	case "Int":
		return tInt(0)
	case "String":
		return tStr("")
	case "Real":
		return tVar("real0", SReal)
	case "Seq":
		if a, ok := t.Underlying().(*types.Array); ok {
			z := tm.Zero(a.Elem())
			var us []*Term
			for i := int64(0); i < a.Len() && i < 4096; i++ {
				us = append(us, tUnit(z))
			}
			return tConcatS(s, us...)
		}
		return tEmpty(s)
	case "Un":
		return tVar("zero."+s.Name, s)
	case "Data":
		if s == SIface {
			return tm.inil()
		}
		c := s.Data.Ctors[0]
		st := t.Underlying().(*types.Struct)
		args := make([]*Term, len(c.Fields))
		for i := range args {
			args[i] = tm.Zero(st.Field(i).Type())
		}
		return tCtor(c, args...)
	}
	panic("zero of " + s.Name)
}

// heapName names the heap array of a struct field.
func (tm *TypeMap) heapName(st types.Type, i int) string {
	tm.mu.Lock()
	defer tm.mu.Unlock()
	u := st.Underlying().(*types.Struct)
	return "H." + tm.shortName(st) + "." + fieldName(u, i)
}

func (tm *TypeMap) cellName(t types.Type) string {
	tm.mu.Lock()
	defer tm.mu.Unlock()
	return "C." + tm.shortName(t)
}

// specTy is a specification-only type.
type specTy struct {
	name string
	sort *Sort
	key  types.Type // arrays
	elem types.Type // arrays
}

func (s *specTy) Underlying() types.Type { return s }
func (s *specTy) String() string         { return s.name }

// ---- module prepass ----

// collectBoxed registers every type boxed or asserted in the module.
func (tm *TypeMap) collectBoxed(fns []*ssa.Function) {
	var ts []types.Type
	seen := map[string]bool{}
	add := func(t types.Type) {
		if types.IsInterface(t) {
			return
		}
		k := typeKey(t)
		if !seen[k] {
			seen[k] = true
			ts = append(ts, t)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeInterface:
					add(v.X.Type())
				case *ssa.TypeAssert:
					add(v.AssertedType)
				}
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return typeKey(ts[i]) < typeKey(ts[j]) })
	for _, t := range ts {
		tm.IfaceCtor(t)
	}
}
