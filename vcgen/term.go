package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is an SMT sort, identified by its SMT-LIB text.
type Sort struct {
	Name string // SMT-LIB text
	Kind string // Bool Int Real String Seq Array Data Un
	Args []*Sort
	Data *Datatype
}

type Datatype struct {
	Name  string
	Ctors []*Ctor
	sort  *Sort
}

type Ctor struct {
	Name   string
	Fields []CField
	Data   *Datatype
}

type CField struct {
	Sel  string
	Sort *Sort
}

var (
	sortMu   sync.Mutex
	sortsTab = map[string]*Sort{}
)

func internSort(s *Sort) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if o, ok := sortsTab[s.Name]; ok {
		return o
	}
	sortsTab[s.Name] = s
	return s
}

var (
	SBool   = internSort(&Sort{Name: "Bool", Kind: "Bool"})
	SInt    = internSort(&Sort{Name: "Int", Kind: "Int"})
	SReal   = internSort(&Sort{Name: "Real", Kind: "Real"})
	SString = internSort(&Sort{Name: "String", Kind: "String"})
)

func SSeq(e *Sort) *Sort {
	return internSort(&Sort{Name: "(Seq " + e.Name + ")", Kind: "Seq", Args: []*Sort{e}})
}

func SArray(k, v *Sort) *Sort {
	return internSort(&Sort{Name: "(Array " + k.Name + " " + v.Name + ")", Kind: "Array", Args: []*Sort{k, v}})
}

func SUn(name string) *Sort {
	return internSort(&Sort{Name: name, Kind: "Un"})
}

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	Op   string // "var", "int", "str", "true", "false", "app", "forall", builtin op names, "ctor", "sel", "is"
	Name string // variable/function/ctor name, or literal text
	Args []*Term
	Sort *Sort
	Int  *big.Int
	Ctor *Ctor // for ctor/is/sel
	Sel  int
	// quantifiers: Args = bound vars..., body
	hasBound bool
}

var (
	termMu   sync.Mutex
	termTab  = map[string]*Term{}
	termNext int
	symSorts sync.Map // declared UF: name -> *FuncDecl
)

// FuncDecl declares an uninterpreted function.
type FuncDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
}

func declFunc(name string, args []*Sort, ret *Sort) {
	symSorts.LoadOrStore(name, &FuncDecl{name, args, ret})
}

func mk(op, name string, sort *Sort, ctor *Ctor, sel int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	if sort == nil {
		panic("mk: nil sort for " + op + " " + name)
	}
	b.WriteString(sort.Name)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[key]; ok {
		return t
	}
	termNext++
	t := &Term{id: termNext, Op: op, Name: name, Args: args, Sort: sort, Ctor: ctor, Sel: sel}
	if op == "bvar" {
		t.hasBound = true
	}
	for _, a := range args {
		if a.hasBound {
			t.hasBound = true
		}
	}
	if op == "int" {
		t.Int, _ = new(big.Int).SetString(name, 10)
	}
	termTab[key] = t
	return t
}

var (
	tTrue  = mk("true", "true", SBool, nil, 0)
	tFalse = mk("false", "false", SBool, nil, 0)
)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tInt(i int64) *Term    { return mk("int", strconv.FormatInt(i, 10), SInt, nil, 0) }
func tBig(i *big.Int) *Term { return mk("int", i.String(), SInt, nil, 0) }
func tStr(s string) *Term   { return mk("str", s, SString, nil, 0) }
func tVar(n string, s *Sort) *Term {
	return mk("var", n, s, nil, 0)
}
func tBVar(n string, s *Sort) *Term { return mk("bvar", n, s, nil, 0) }

var freshMu sync.Mutex
var freshN = map[string]int{}

func fresh(prefix string, s *Sort) *Term {
	freshMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	freshMu.Unlock()
	return tVar(fmt.Sprintf("%s!%d", prefix, n), s)
}

// tApp applies an uninterpreted (or spec) function.
func tApp(name string, ret *Sort, args ...*Term) *Term {
	ss := make([]*Sort, len(args))
	for i, a := range args {
		ss[i] = a.Sort
	}
	declFunc(name, ss, ret)
	return mk("app", name, ret, nil, 0, args...)
}

func isLit(t *Term) bool {
	switch t.Op {
	case "int", "str", "true", "false":
		return true
	}
	return false
}

func tNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	case "<=":
		return tLt(a.Args[1], a.Args[0])
	case "<":
		return tLe(a.Args[1], a.Args[0])
	}
	return mk("not", "", SBool, nil, 0, a)
}

func tAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == nil || a.Op == "true" {
			continue
		}
		if a.Op == "false" {
			return tFalse
		}
		list := []*Term{a}
		if a.Op == "and" {
			list = a.Args
		}
		for _, x := range list {
			if seen[x.id] {
				continue
			}
			if seen[tNot(x).id] {
				return tFalse
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, nil, 0, out...)
}

func tOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.Op == "false" {
			continue
		}
		if a.Op == "true" {
			return tTrue
		}
		list := []*Term{a}
		if a.Op == "or" {
			list = a.Args
		}
		for _, x := range list {
			if seen[x.id] {
				continue
			}
			if seen[tNot(x).id] {
				return tTrue
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, nil, 0, out...)
}

func tImp(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return tTrue
	}
	if b.Op == "false" {
		return tNot(a)
	}
	if b.Op == "=>" {
		return tImp(tAnd(a, b.Args[0]), b.Args[1])
	}
	return mk("=>", "", SBool, nil, 0, a, b)
}

func tIte(c, a, b *Term) *Term {
	switch c.Op {
	case "true":
		return a
	case "false":
		return b
	case "not":
		return tIte(c.Args[0], b, a)
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts: %s vs %s", a.Sort.Name, b.Sort.Name))
	}
	if a.Sort == SBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return tNot(c)
		}
		if a.Op == "true" {
			return tOr(c, b)
		}
		if a.Op == "false" {
			return tAnd(tNot(c), b)
		}
		if b.Op == "false" {
			return tAnd(c, a)
		}
		if b.Op == "true" {
			return tOr(tNot(c), a)
		}
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if a == b {
		return a
	}
	return mk("ite", "", a.Sort, nil, 0, c, a, b)
}

// definitely different values?
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			if distinctTerms(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	if a.Sort == SInt {
		d := tSub(a, b)
		if d.Op == "int" && d.Int.Sign() != 0 {
			return true
		}
	}
	if a.Sort.Kind == "Seq" {
		d := tSub(tLen(a), tLen(b))
		if d.Op == "int" && d.Int.Sign() != 0 {
			return true
		}
	}
	if a.Sort.Name == "Fn" {
		isClo := func(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "clo_") }
		isNil := func(t *Term) bool { return t.Op == "var" && t.Name == "zero.Fn" }
		return isClo(a) && isNil(b) || isClo(b) && isNil(a)
	}
	return false
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts: %s vs %s\n%s\n%s", a.Sort.Name, b.Sort.Name, a, b))
	}
	if distinctTerms(a, b) {
		return tFalse
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return tNot(b)
		}
		if b.Op == "false" {
			return tNot(a)
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" && a.Name == b.Name {
		cs := make([]*Term, len(a.Args))
		for i := range a.Args {
			cs[i] = tEq(a.Args[i], b.Args[i])
		}
		return tAnd(cs...)
	}
	// nullary constructor: use tester
	if a.Op == "ctor" && len(a.Args) == 0 && b.Op != "ctor" {
		return tIs(a.Ctor, b)
	}
	if b.Op == "ctor" && len(b.Args) == 0 && a.Op != "ctor" {
		return tIs(b.Ctor, a)
	}
	if a.Op == "ite" && isConstLike(b) && isConstLike(a.Args[1]) && isConstLike(a.Args[2]) {
		return tIte(a.Args[0], tEq(a.Args[1], b), tEq(a.Args[2], b))
	}
	if b.Op == "ite" && isConstLike(a) && isConstLike(b.Args[1]) && isConstLike(b.Args[2]) {
		return tIte(b.Args[0], tEq(a, b.Args[1]), tEq(a, b.Args[2]))
	}
	if a.Sort == SInt {
		// normalise a-b == 0
		d := tSub(a, b)
		if d.Op == "int" {
			return tBool(d.Int.Sign() == 0)
		}
	}
	if a.Sort.Kind == "Seq" || a.Sort == SString {
		// strip equal prefixes/suffixes of concatenations
		x, y := parts(a), parts(b)
		px, py := x, y
		for len(px) > 0 && len(py) > 0 && px[0] == py[0] {
			px, py = px[1:], py[1:]
		}
		for len(px) > 0 && len(py) > 0 && px[len(px)-1] == py[len(py)-1] {
			px, py = px[:len(px)-1], py[:len(py)-1]
		}
		if len(px) != len(x) {
			return tEq(tConcatS(a.Sort, px...), tConcatS(a.Sort, py...))
		}
		if len(px) == 1 && len(py) == 1 && px[0].Op == "unit" && py[0].Op == "unit" {
			return tEq(px[0].Args[0], py[0].Args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, nil, 0, a, b)
}

func isConstLike(t *Term) bool {
	return isLit(t) || t.Op == "ctor" || (t.Op == "ite" && isConstLike(t.Args[1]) && isConstLike(t.Args[2]))
}

// ---- linear integer arithmetic normal form ----

type linear struct {
	c     *big.Int
	terms map[int]*Term
	coef  map[int]*big.Int
}

func toLinear(t *Term) *linear {
	l := &linear{c: new(big.Int), terms: map[int]*Term{}, coef: map[int]*big.Int{}}
	addLinear(l, t, big.NewInt(1))
	return l
}

func addLinear(l *linear, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
	case "+":
		for _, a := range t.Args {
			addLinear(l, a, k)
		}
	case "*":
		if len(t.Args) == 2 && t.Args[0].Op == "int" {
			addLinear(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
			return
		}
		fallthrough
	default:
		if _, ok := l.terms[t.id]; !ok {
			l.terms[t.id] = t
			l.coef[t.id] = new(big.Int)
		}
		l.coef[t.id].Add(l.coef[t.id], k)
	}
}

func (l *linear) term() *Term {
	var ids []int
	for id, c := range l.coef {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var parts []*Term
	for _, id := range ids {
		c := l.coef[id]
		if c.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, l.terms[id])
		} else {
			parts = append(parts, mk("*", "", SInt, nil, 0, tBig(c), l.terms[id]))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, tBig(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", SInt, nil, 0, parts...)
}

func tAdd(a, b *Term) *Term {
	l := toLinear(a)
	addLinear(l, b, big.NewInt(1))
	return l.term()
}
func tSub(a, b *Term) *Term {
	l := toLinear(a)
	addLinear(l, b, big.NewInt(-1))
	return l.term()
}
func tMul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := &linear{c: new(big.Int), terms: map[int]*Term{}, coef: map[int]*big.Int{}}
		addLinear(l, b, a.Int)
		return l.term()
	}
	return mk("*", "", SInt, nil, 0, a, b)
}
func tLe(a, b *Term) *Term {
	d := tSub(b, a) // d >= 0
	if d.Op == "int" {
		return tBool(d.Int.Sign() >= 0)
	}
	if nonNeg(d) {
		return tTrue
	}
	return mk("<=", "", SBool, nil, 0, a, b)
}
func tLt(a, b *Term) *Term {
	d := tSub(b, a)
	if d.Op == "int" {
		return tBool(d.Int.Sign() > 0)
	}
	if nonNeg(tSub(d, tInt(1))) {
		return tTrue
	}
	if nonNeg(tSub(a, b)) {
		return tFalse
	}
	return mk("<", "", SBool, nil, 0, a, b)
}

// nonNeg is a cheap sufficient test for t >= 0.
func nonNeg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.Int.Sign() >= 0
	case "len":
		return true
	case "strlen":
		return true
	case "+":
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case "*":
		return len(t.Args) == 2 && t.Args[0].Op == "int" && t.Args[0].Int.Sign() >= 0 && nonNeg(t.Args[1])
	case "ite":
		return nonNeg(t.Args[1]) && nonNeg(t.Args[2])
	}
	return false
}

// ---- datatypes ----

func tCtor(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.Fields) {
		panic("ctor arity " + c.Name)
	}
	for i, a := range args {
		if a.Sort != c.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s field %s: %s vs %s", c.Name, c.Fields[i].Sel, a.Sort.Name, c.Fields[i].Sort.Name))
		}
	}
	// eta: C(sel0(x), sel1(x), ...) == x for single-constructor types
	if len(c.Data.Ctors) == 1 && len(args) > 0 && args[0].Op == "sel" && args[0].Ctor == c {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "sel" || a.Ctor != c || a.Sel != i || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk("ctor", c.Name, c.Data.sort, c, 0, args...)
}

func tSel(c *Ctor, i int, x *Term) *Term {
	if x.Op == "ctor" && x.Ctor == c {
		return x.Args[i]
	}
	if x.Op == "ite" {
		a, b := x.Args[1], x.Args[2]
		if (a.Op == "ctor" && a.Ctor == c) || (b.Op == "ctor" && b.Ctor == c) {
			if !(a.Op == "ctor" && a.Ctor != c) && !(b.Op == "ctor" && b.Ctor != c) {
				return tIte(x.Args[0], tSel(c, i, a), tSel(c, i, b))
			}
		}
	}
	return mk("sel", c.Fields[i].Sel, c.Fields[i].Sort, c, i, x)
}

func tIs(c *Ctor, x *Term) *Term {
	if len(c.Data.Ctors) == 1 {
		return tTrue
	}
	if x.Op == "ctor" {
		return tBool(x.Ctor == c)
	}
	if x.Op == "ite" {
		a, b := tIs(c, x.Args[1]), tIs(c, x.Args[2])
		if isLit(a) || isLit(b) {
			return tIte(x.Args[0], a, b)
		}
	}
	return mk("is", c.Name, SBool, c, 0, x)
}

// ---- arrays ----

func tSelect(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctTerms(a.Args[1], i) || knownDistinctRefs(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if a.Sort.Kind != "Array" {
		panic("select on " + a.Sort.Name)
	}
	if a.Op == "ite" {
		return tIte(a.Args[0], tSelect(a.Args[1], i), tSelect(a.Args[2], i))
	}
	return mk("select", "", a.Sort.Args[1], nil, 0, a, i)
}

func tStore(a, i, v *Term) *Term {
	if a.Sort.Args[1] != v.Sort || a.Sort.Args[0] != i.Sort {
		panic(fmt.Sprintf("store sorts %s[%s] := %s", a.Sort.Name, i.Sort.Name, v.Sort.Name))
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk("store", "", a.Sort, nil, 0, a, i, v)
}

func tConstArr(s *Sort, v *Term) *Term { return mk("constarr", "", s, nil, 0, v) }

// knownDistinctRefs: an allocated reference alloc!n+k differs from parameters
// (named with the prefix "p$", which are below the initial allocation mark).
func knownDistinctRefs(a, b *Term) bool {
	if a.Sort != SInt {
		return false
	}
	return (isFreshRef(a) && isOldRef(b)) || (isFreshRef(b) && isOldRef(a))
}

func isFreshRef(t *Term) bool {
	if t.Op == "var" && strings.HasPrefix(t.Name, "A0!") {
		return true
	}
	if t.Op == "+" {
		fresh := 0
		for _, a := range t.Args {
			if a.Op == "var" && strings.HasPrefix(a.Name, "A0!") {
				fresh++
			} else if a.Op != "int" || a.Int.Sign() < 0 {
				return false
			}
		}
		return fresh == 1
	}
	return false
}

// isOldRef: terms known to denote references below the initial allocation
// mark, or nil: parameters and things loaded from the initial heap.
func isOldRef(t *Term) bool {
	switch t.Op {
	case "var":
		return strings.HasPrefix(t.Name, "p$")
	case "int":
		return t.Int.Sign() <= 0
	case "select":
		return t.Args[0].Op == "var" && strings.HasPrefix(t.Args[0].Name, "H0!") && isOldRef(t.Args[1])
	case "sel":
		return isOldVal(t.Args[0])
	case "nth":
		return isOldVal(t.Args[0])
	}
	return false
}

// isOldVal: values all of whose references are old.
func isOldVal(t *Term) bool {
	switch t.Op {
	case "var":
		return strings.HasPrefix(t.Name, "p$")
	case "select":
		return t.Args[0].Op == "var" && strings.HasPrefix(t.Args[0].Name, "H0!") && isOldRef(t.Args[1])
	case "sel", "nth":
		return isOldVal(t.Args[0])
	}
	return false
}

// ---- sequences and strings ----

func tEmpty(s *Sort) *Term {
	if s == SString {
		return tStr("")
	}
	return mk("empty", "", s, nil, 0)
}
func tUnit(x *Term) *Term { return mk("unit", "", SSeq(x.Sort), nil, 0, x) }

func parts(t *Term) []*Term {
	switch t.Op {
	case "concat":
		return t.Args
	case "empty":
		return nil
	case "str":
		if t.Name == "" {
			return nil
		}
	}
	return []*Term{t}
}

func tConcatS(s *Sort, as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Sort != s {
			panic(fmt.Sprintf("concat sorts %s vs %s", a.Sort.Name, s.Name))
		}
		for _, p := range parts(a) {
			if p.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = tStr(out[len(out)-1].Name + p.Name)
				continue
			}
			// merge adjacent extracts of the same base
			if p.Op == "extract" && len(out) > 0 && out[len(out)-1].Op == "extract" {
				l := out[len(out)-1]
				if l.Args[0] == p.Args[0] && tAdd(l.Args[1], l.Args[2]) == p.Args[1] {
					// only valid when in range; leave as is
					_ = l
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return tEmpty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("concat", "", s, nil, 0, out...)
}

func tConcat(a, b *Term) *Term { return tConcatS(a.Sort, a, b) }

func tLen(s *Term) *Term {
	if s.Op == "app" && strings.HasPrefix(s.Name, "vm.enum.") {
		return tApp("vm.len."+s.Name[8:], SInt, s.Args[0])
	}
	if s.Sort == SString {
		switch s.Op {
		case "str":
			return tInt(int64(len(s.Name)))
		case "concat":
			r := tInt(0)
			for _, a := range s.Args {
				r = tAdd(r, tLen(a))
			}
			return r
		}
		return mk("strlen", "", SInt, nil, 0, s)
	}
	switch s.Op {
	case "empty":
		return tInt(0)
	case "unit":
		return tInt(1)
	case "concat":
		r := tInt(0)
		for _, a := range s.Args {
			r = tAdd(r, tLen(a))
		}
		return r
	case "ite":
		a, b := tLen(s.Args[1]), tLen(s.Args[2])
		if a == b {
			return a
		}
	case "seqset":
		return tLen(s.Args[0])
	}
	if s.Sort.Kind != "Seq" {
		panic("len of " + s.Sort.Name)
	}
	return mk("len", "", SInt, nil, 0, s)
}

func tNth(s, i *Term) *Term {
	if s.Sort.Kind != "Seq" {
		panic("nth of " + s.Sort.Name)
	}
	if s.Op == "app" && strings.HasPrefix(s.Name, "vm.enum.") {
		return tApp("vm.key."+s.Name[8:], s.Sort.Args[0], s.Args[0], i)
	}
	if s.Op == "unit" && i.Op == "int" && i.Int.Sign() == 0 {
		return s.Args[0]
	}
	if s.Op == "concat" {
		// walk the parts with known lengths
		off := tInt(0)
		for k, p := range s.Args {
			d := tSub(i, off)
			l := tLen(p)
			if d.Op == "int" && d.Int.Sign() >= 0 && l.Op == "int" && d.Int.Cmp(l.Int) < 0 {
				return tNth(p, d)
			}
			if d.Op == "int" && d.Int.Sign() < 0 {
				break
			}
			if d == tInt(0) && l.Op != "int" && k < len(s.Args)-1 {
				break
			}
			off = tAdd(off, l)
		}
	}
	if s.Op == "seqset" {
		if s.Args[1] == i {
			// valid when in range; the executor proves bounds separately
			return s.Args[2]
		}
		if distinctTerms(s.Args[1], i) {
			return tNth(s.Args[0], i)
		}
	}
	return mk("nth", "", s.Sort.Args[0], nil, 0, s, i)
}

// tExtract is s[off : off+n].
func tExtract(s, off, n *Term) *Term {
	if s.Op == "str" && off.Op == "int" && n.Op == "int" {
		o, l := off.Int.Int64(), n.Int.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.Name)) {
			return tStr(s.Name[o : o+l])
		}
	}
	if off.Op == "int" && off.Int.Sign() == 0 && n == tLen(s) {
		return s
	}
	if n.Op == "int" && n.Int.Sign() == 0 {
		return tEmpty(s.Sort)
	}
	if s.Op == "concat" {
		// split at part boundaries
		ps := s.Args
		o := tInt(0)
		for k := 0; k <= len(ps); k++ {
			if o == off {
				acc := tInt(0)
				for m := k; m <= len(ps); m++ {
					if acc == n {
						return tConcatS(s.Sort, ps[k:m]...)
					}
					if m < len(ps) {
						acc = tAdd(acc, tLen(ps[m]))
					}
				}
			}
			if k < len(ps) {
				o = tAdd(o, tLen(ps[k]))
			}
		}
	}
	r := mk("extract", "", s.Sort, nil, 0, s, off, n)
	if s.Op == "concat" && off.Op == "int" && off.Int.Sign() == 0 && s.Args[0].Op == "extract" {
		// a prefix of an updated sequence
		if x := s.Args[0]; x.Args[1].Op == "int" && x.Args[1].Int.Sign() == 0 {
			acc := x.Args[2]
			for m := 1; m <= len(s.Args); m++ {
				if acc == n {
					return tIte(tAnd(tLe(tInt(0), x.Args[2]), tLe(x.Args[2], tLen(x.Args[0]))), tConcatS(s.Sort, s.Args[:m]...), r)
				}
				if m < len(s.Args) {
					acc = tAdd(acc, tLen(s.Args[m]))
				}
			}
		}
	}
	return r
}

// tSeqSet replaces element i.
func tSeqSet(s, i, v *Term) *Term {
	if i.Op == "int" {
		ps := parts(s)
		k := i.Int.Int64()
		allUnits := true
		for _, p := range ps {
			if p.Op != "unit" {
				allUnits = false
			}
		}
		if allUnits && k >= 0 && k < int64(len(ps)) {
			np := append([]*Term{}, ps...)
			np[k] = tUnit(v)
			return tConcatS(s.Sort, np...)
		}
	}
	// s[:i] ++ [v] ++ s[i+1:]
	return tConcatS(s.Sort, tExtract(s, tInt(0), i), tUnit(v),
		tExtract(s, tAdd(i, tInt(1)), tSub(tSub(tLen(s), i), tInt(1))))
}

func tStrOp(op string, ret *Sort, args ...*Term) *Term {
	allLit := true
	for _, a := range args {
		if a.Op != "str" {
			allLit = false
		}
	}
	if allLit {
		switch op {
		case "str.prefixof":
			return tBool(strings.HasPrefix(args[1].Name, args[0].Name))
		case "str.suffixof":
			return tBool(strings.HasSuffix(args[1].Name, args[0].Name))
		case "str.contains":
			return tBool(strings.Contains(args[0].Name, args[1].Name))
		}
	}
	return mk(op, "", ret, nil, 0, args...)
}

func tForall(vars []*Term, body *Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	return mk("forall", "", SBool, nil, 0, append(append([]*Term{}, vars...), body)...)
}

// ---- rebuilding ----

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return tNot(args[0])
	case "and":
		return tAnd(args...)
	case "or":
		return tOr(args...)
	case "=>":
		return tImp(args[0], args[1])
	case "ite":
		return tIte(args[0], args[1], args[2])
	case "=":
		return tEq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = tAdd(r, a)
		}
		return r
	case "*":
		return tMul(args[0], args[1])
	case "<=":
		return tLe(args[0], args[1])
	case "<":
		return tLt(args[0], args[1])
	case "ctor":
		return tCtor(t.Ctor, args...)
	case "sel":
		return tSel(t.Ctor, t.Sel, args[0])
	case "is":
		return tIs(t.Ctor, args[0])
	case "select":
		return tSelect(args[0], args[1])
	case "store":
		return tStore(args[0], args[1], args[2])
	case "concat":
		return tConcatS(t.Sort, args...)
	case "unit":
		return tUnit(args[0])
	case "len", "strlen":
		return tLen(args[0])
	case "nth":
		return tNth(args[0], args[1])
	case "extract":
		return tExtract(args[0], args[1], args[2])
	case "forall":
		return tForall(args[:len(args)-1], args[len(args)-1])
	}
	if strings.HasPrefix(t.Op, "str.") {
		return tStrOp(t.Op, t.Sort, args...)
	}
	return mk(t.Op, t.Name, t.Sort, t.Ctor, t.Sel, args...)
}

// subst replaces terms (by id) bottom-up.
func subst(t *Term, m map[int]*Term) *Term {
	cache := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, args)
			if r2, ok := m[r.id]; ok && r != t {
				r = r2
			}
		}
		cache[t.id] = r
		return r
	}
	return rec(t)
}

func occurs(x, t *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func walk(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// ---- printing ----

func smtName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!$.@", c)) {
			return "|" + strings.ReplaceAll(n, "|", "_") + "|"
		}
	}
	return n
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\':
			b.WriteString(`\u{5c}`)
		case c < 32 || c >= 127:
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type printer struct {
	b     *strings.Builder
	names map[int]string // shared terms
}

func (p *printer) print(t *Term) {
	if n, ok := p.names[t.id]; ok {
		p.b.WriteString(n)
		return
	}
	p.printTop(t)
}

func (p *printer) printTop(t *Term) {
	app := func(op string, args ...*Term) {
		p.b.WriteByte('(')
		p.b.WriteString(op)
		for _, a := range args {
			p.b.WriteByte(' ')
			p.print(a)
		}
		p.b.WriteByte(')')
	}
	switch t.Op {
	case "var", "bvar":
		p.b.WriteString(smtName(t.Name))
	case "int":
		if t.Int.Sign() < 0 {
			p.b.WriteString("(- " + new(big.Int).Neg(t.Int).String() + ")")
		} else {
			p.b.WriteString(t.Int.String())
		}
	case "str":
		p.b.WriteString(smtString(t.Name))
	case "true", "false":
		p.b.WriteString(t.Op)
	case "app":
		if len(t.Args) == 0 {
			p.b.WriteString(smtName(t.Name))
		} else {
			app(smtName(t.Name), t.Args...)
		}
	case "ctor":
		if len(t.Args) == 0 {
			p.b.WriteString(smtName(t.Name))
		} else {
			app(smtName(t.Name), t.Args...)
		}
	case "sel":
		app(smtName(t.Name), t.Args...)
	case "is":
		app("(_ is "+smtName(t.Name)+")", t.Args...)
	case "empty":
		p.b.WriteString("(as seq.empty " + t.Sort.Name + ")")
	case "unit":
		app("seq.unit", t.Args...)
	case "concat":
		if t.Sort == SString {
			app("str.++", t.Args...)
		} else {
			app("seq.++", t.Args...)
		}
	case "len":
		app("seq.len", t.Args...)
	case "strlen":
		app("str.len", t.Args...)
	case "nth":
		app("seq.nth", t.Args...)
	case "extract":
		if t.Sort == SString {
			app("str.substr", t.Args...)
		} else {
			app("seq.extract", t.Args...)
		}
	case "constarr":
		p.b.WriteString("((as const " + t.Sort.Name + ") ")
		p.print(t.Args[0])
		p.b.WriteByte(')')
	case "forall":
		p.b.WriteString("(forall (")
		for _, v := range t.Args[:len(t.Args)-1] {
			p.b.WriteString("(" + smtName(v.Name) + " " + v.Sort.Name + ")")
		}
		p.b.WriteString(") ")
		p.print(t.Args[len(t.Args)-1])
		p.b.WriteByte(')')
	default:
		app(t.Op, t.Args...)
	}
}

func (t *Term) String() string {
	p := &printer{b: &strings.Builder{}, names: map[int]string{}}
	p.print(t)
	s := p.b.String()
	return s
}
