package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Expr is a specification expression.
type Expr struct {
	K     string // kind
	S     string
	A     []*Expr
	Ty    *TyExpr
	Binds []Bind
	Cases []Case
	Keys  []string
	Pos   string
}

type Bind struct {
	Name string
	Ty   *TyExpr
}

type Case struct {
	Ty   *TyExpr // nil for nil / default
	Nil  bool
	Def  bool
	Name string
	E    *Expr
}

// TyExpr is a type in a specification.
type TyExpr struct {
	K    string // name ptr slice map arr heap func iface
	Name string
	A    []*TyExpr
}

func (t *TyExpr) String() string {
	switch t.K {
	case "name":
		return t.Name
	case "ptr":
		return "*" + t.A[0].String()
	case "slice":
		return "[]" + t.A[0].String()
	case "map":
		return "map[" + t.A[0].String() + "]" + t.A[1].String()
	case "arr":
		return "arr[" + t.A[0].String() + "]" + t.A[1].String()
	case "heap":
		return "@" + t.Name
	}
	return "?" + t.K
}

type tok struct {
	k string // id int str op eof
	s string
	p int
}

type parser struct {
	toks []tok
	i    int
	pos  string
}

func lex(src, pos string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "...", "::", "==", "!=", "<=", ">=", "&&", "||", "++", ":=", "->", "(", ")", "[", "]", "{", "}", ",", ".", "<", ">", "+", "-", "*", "!", ":", ";", "=", "@", "&", "/", "%"}
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c == '/' && i+1 < len(src) && src[i+1] == '/' {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if c == '_' || c == '$' || unicode.IsLetter(rune(c)) {
			j := i + 1
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] == '\'' || unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			out = append(out, tok{"id", src[i:j], i})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(src) && unicode.IsDigit(rune(src[j])) {
				j++
			}
			out = append(out, tok{"int", src[i:j], i})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("%s: unterminated string", pos)
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("%s: %s: %v", pos, src[i:j+1], err)
			}
			out = append(out, tok{"str", s, i})
			i = j + 1
			continue
		}
		ok := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, i})
				i += len(o)
				ok = true
				break
			}
		}
		if !ok {
			return nil, fmt.Errorf("%s: bad character %q in %q", pos, c, src)
		}
	}
	out = append(out, tok{"eof", "", i})
	return out, nil
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	var ctx []string
	for j := p.i - 4; j < p.i+6; j++ {
		if j >= 0 && j < len(p.toks) {
			s := p.toks[j].s
			if j == p.i {
				s = ">>" + s + "<<"
			}
			ctx = append(ctx, s)
		}
	}
	panic(perr{fmt.Sprintf("%s: %s near: %s", p.pos, fmt.Sprintf(f, a...), strings.Join(ctx, " "))})
}
func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.peek()
	if t.k != "id" {
		p.fail("expected identifier")
	}
	p.i++
	return t.s
}

func (p *parser) parseType() *TyExpr {
	switch {
	case p.accept("*"):
		return &TyExpr{K: "ptr", A: []*TyExpr{p.parseType()}}
	case p.accept("["):
		p.expect("]")
		return &TyExpr{K: "slice", A: []*TyExpr{p.parseType()}}
	case p.accept("@"):
		n := p.ident()
		for p.accept(".") {
			n += "." + p.ident()
		}
		return &TyExpr{K: "heap", Name: n}
	case p.accept("("):
		t := p.parseType()
		p.expect(")")
		return t
	}
	n := p.ident()
	switch n {
	case "map", "arr":
		p.expect("[")
		k := p.parseType()
		p.expect("]")
		return &TyExpr{K: n, A: []*TyExpr{k, p.parseType()}}
	case "func":
		t := &TyExpr{K: "func"}
		p.expect("(")
		for !p.is(")") {
			t.A = append(t.A, p.parseType())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		t.Name = strconv.Itoa(len(t.A))
		if p.accept("(") {
			for !p.is(")") {
				t.A = append(t.A, p.parseType())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		} else if p.peek().k == "id" || p.is("*") || p.is("[") {
			t.A = append(t.A, p.parseType())
		}
		return t
	}
	for p.accept(".") {
		n += "." + p.ident()
	}
	return &TyExpr{K: "name", Name: n}
}

func (p *parser) e(k, s string, a ...*Expr) *Expr { return &Expr{K: k, S: s, A: a, Pos: p.pos} }

func (p *parser) parseExpr() *Expr { return p.parseIff() }

func (p *parser) parseIff() *Expr {
	l := p.parseImp()
	for p.accept("<==>") {
		l = p.e("bin", "<==>", l, p.parseImp())
	}
	return l
}
func (p *parser) parseImp() *Expr {
	l := p.parseOr()
	if p.accept("==>") {
		return p.e("bin", "==>", l, p.parseImp())
	}
	return l
}
func (p *parser) parseOr() *Expr {
	l := p.parseAnd()
	for p.accept("||") {
		l = p.e("bin", "||", l, p.parseAnd())
	}
	return l
}
func (p *parser) parseAnd() *Expr {
	l := p.parseCmp()
	for p.accept("&&") {
		l = p.e("bin", "&&", l, p.parseCmp())
	}
	return l
}
func (p *parser) parseCmp() *Expr {
	l := p.parseAdd()
	var conj *Expr
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.i++
			r := p.parseAdd()
			c := p.e("bin", t.s, l, r)
			if conj == nil {
				conj = c
			} else {
				conj = p.e("bin", "&&", conj, c)
			}
			l = r
			continue
		}
		break
	}
	if conj != nil {
		return conj
	}
	return l
}
func (p *parser) parseAdd() *Expr {
	l := p.parseMul()
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "+" || t.s == "-" || t.s == "++") {
			p.i++
			l = p.e("bin", t.s, l, p.parseMul())
			continue
		}
		return l
	}
}
func (p *parser) parseMul() *Expr {
	l := p.parseUn()
	for p.is("*") {
		p.i++
		l = p.e("bin", "*", l, p.parseUn())
	}
	return l
}
func (p *parser) parseUn() *Expr {
	if p.accept("!") {
		return p.e("un", "!", p.parseUn())
	}
	if p.accept("-") {
		return p.e("un", "-", p.parseUn())
	}
	if p.accept("*") {
		return p.e("deref", "", p.parseUn())
	}
	return p.parsePostfix(p.parsePrimary())
}

func (p *parser) parsePostfix(x *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			x = p.e("field", p.ident(), x)
		case p.is("("):
			p.i++
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.parseExpr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			x = p.e("call", "", append([]*Expr{x}, as...)...)
		case p.is("["):
			p.i++
			if p.accept(":") {
				hi := p.parseExpr()
				p.expect("]")
				x = p.e("slice", "", x, nil, hi)
				continue
			}
			i := p.parseExpr()
			if p.accept(":=") {
				v := p.parseExpr()
				p.expect("]")
				x = p.e("update", "", x, i, v)
				continue
			}
			if p.accept(":") {
				if p.accept("]") {
					x = p.e("slice", "", x, i, nil)
					continue
				}
				hi := p.parseExpr()
				p.expect("]")
				x = p.e("slice", "", x, i, hi)
				continue
			}
			p.expect("]")
			x = p.e("index", "", x, i)
		case p.is("with"):
			p.i++
			p.expect("{")
			n := p.e("with", "", x)
			for !p.is("}") {
				k := p.ident()
				p.expect(":")
				n.Keys = append(n.Keys, k)
				n.A = append(n.A, p.parseExpr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			x = n
		case p.peek().k == "id" && (p.peek().s == "is" || p.peek().s == "as"):
			k := p.peek().s
			p.i++
			n := p.e(k, "", x)
			n.Ty = p.parseType()
			x = n
		default:
			return x
		}
	}
}

func (p *parser) parseBinds() []Bind {
	var bs []Bind
	for {
		n := p.ident()
		names := []string{n}
		// a, b T
		for p.is(",") {
			save := p.i
			p.i++
			if p.peek().k == "id" && (p.toks[p.i+1].s == "," && p.toks[p.i+1].k == "op") {
				names = append(names, p.ident())
				continue
			}
			p.i = save
			break
		}
		ty := p.parseType()
		for _, n := range names {
			bs = append(bs, Bind{n, ty})
		}
		if !p.accept(",") {
			return bs
		}
	}
}

func (p *parser) complitBody(ty *TyExpr) *Expr {
	x := p.e("lit", "")
	x.Ty = ty
	p.expect("{")
	for !p.is("}") {
		if p.peek().k == "id" && p.toks[p.i+1].s == ":" && p.toks[p.i+1].k == "op" {
			x.Keys = append(x.Keys, p.ident())
			p.expect(":")
		}
		x.A = append(x.A, p.parseExpr())
		if !p.accept(",") {
			break
		}
	}
	p.expect("}")
	return x
}

func (p *parser) parsePrimary() *Expr {
	t := p.peek()
	switch t.k {
	case "int":
		p.i++
		return p.e("int", t.s)
	case "str":
		p.i++
		return p.e("str", t.s)
	case "op":
		switch t.s {
		case "(":
			p.i++
			x := p.parseExpr()
			p.expect(")")
			return x
		case "[":
			ty := p.parseType()
			if p.is("{") {
				return p.complitBody(ty)
			}
			// conversion []T(x)
			p.expect("(")
			x := p.e("conv", "", p.parseExpr())
			x.Ty = ty
			p.expect(")")
			return x
		case "@":
			ty := p.parseType()
			return p.e("heap", ty.Name)
		case "&":
			p.i++
			x := p.parsePostfix(p.parsePrimary())
			return p.e("addr", "", x)
		}
		p.fail("unexpected %q", t.s)
	case "id":
		p.i++
		switch t.s {
		case "nil":
			return p.e("nil", "")
		case "true", "false":
			return p.e("bool", t.s)
		case "if":
			c := p.parseExpr()
			p.expect("then")
			a := p.parseExpr()
			p.expect("else")
			b := p.parseExpr()
			return p.e("if", "", c, a, b)
		case "let":
			n := p.ident()
			p.expect("=")
			v := p.parseExpr()
			p.expect("in")
			b := p.parseExpr()
			return p.e("let", n, v, b)
		case "forall", "exists":
			x := p.e(t.s, "")
			x.Binds = p.parseBinds()
			p.expect("::")
			x.A = []*Expr{p.parseExpr()}
			return x
		case "lambda":
			x := p.e("lambda", "")
			p.expect("(")
			if !p.is(")") {
				x.Binds = p.parseBinds()
			}
			p.expect(")")
			x.Ty = p.parseType()
			p.expect("::")
			x.A = []*Expr{p.parseExpr()}
			return x
		case "old", "entry":
			if p.is("(") {
				p.i++
				x := p.e(t.s, "", p.parseExpr())
				p.expect(")")
				return x
			}
		case "is", "as", "impl":
			if p.is("(") {
				p.i++
				x := p.e(t.s, "", p.parseExpr())
				p.expect(",")
				x.Ty = p.parseType()
				p.expect(")")
				return x
			}
		case "zero":
			if p.is("(") {
				p.i++
				x := p.e(t.s, "")
				x.Ty = p.parseType()
				p.expect(")")
				return x
			}
		case "conv":
			if p.is("(") {
				p.i++
				ty := p.parseType()
				p.expect(",")
				x := p.e("conv", "", p.parseExpr())
				x.Ty = ty
				p.expect(")")
				return x
			}
		case "match":
			x := p.e("match", "")
			s := p.ident()
			sc := p.e("id", s)
			// allow postfix chain without composite braces
			for p.is(".") || p.is("[") || p.is("(") {
				if p.accept(".") {
					sc = p.e("field", p.ident(), sc)
				} else if p.accept("[") {
					i := p.parseExpr()
					p.expect("]")
					sc = p.e("index", "", sc, i)
				} else {
					p.i++
					var as []*Expr
					for !p.is(")") {
						as = append(as, p.parseExpr())
						if !p.accept(",") {
							break
						}
					}
					p.expect(")")
					sc = p.e("call", "", append([]*Expr{sc}, as...)...)
				}
			}
			x.A = []*Expr{sc}
			p.expect("{")
			for !p.is("}") {
				var c Case
				if p.accept("default") {
					c.Def = true
				} else {
					p.expect("case")
					if p.accept("nil") {
						c.Nil = true
					} else {
						c.Ty = p.parseType()
						if p.accept("(") {
							c.Name = p.ident()
							p.expect(")")
						}
					}
				}
				p.expect(":")
				c.E = p.parseExpr()
				p.accept(";")
				x.Cases = append(x.Cases, c)
			}
			p.expect("}")
			return x
		}
		// composite literal: Name{...} or pkg.Name{...}
		if unicode.IsUpper(rune(t.s[0])) && p.is("{") {
			return p.complitBody(&TyExpr{K: "name", Name: t.s})
		}
		if p.is(".") && p.toks[p.i+1].k == "id" && p.toks[p.i+2].s == "{" && p.toks[p.i+2].k == "op" && unicode.IsUpper(rune(p.toks[p.i+1].s[0])) {
			p.i++
			n := p.ident()
			return p.complitBody(&TyExpr{K: "name", Name: t.s + "." + n})
		}
		return p.e("id", t.s)
	}
	p.fail("unexpected token")
	return nil
}

// ---- declarations ----

type Clause struct {
	Kind  string // requires ensures inv use modifies
	Props []string
	Label string
	E     *Expr
	Binds []Bind
	Mods  []Mod
	Text  string
	Pos   string
	idx   int
}

type Mod struct {
	All    bool
	Except bool
	Heap   string // "pkg.Struct.Field" or $ghost or global
	At     *Expr
	Text   string
}

type Contract struct {
	Kind    string // func extern iface functype
	Name    string
	Params  []string
	Results []string
	When    *Expr
	WhenTxt string
	Clauses []*Clause
	Flags   map[string]bool
	Pos     string
	Props   []string
	InvFrom []string
}

type SpecFunc struct {
	Name   string
	Params []Bind
	Ret    *TyExpr
	Body   *Expr // nil: uninterpreted
	Fuel   int
	Pos    string
	Pure   bool // uninterpreted: no heap
	Reads  []string
	Opts   map[string]string
}

type LemmaDecl struct {
	Name    string
	Params  []Bind
	Clauses []*Clause
	Axiom   bool
	Pos     string
	Props   []string
	Flags   map[string]bool
}

type GhostDecl struct {
	Name string
	Ty   *TyExpr
}

type SpecFile struct {
	Contracts []*Contract
	Funcs     []*SpecFunc
	Lemmas    []*LemmaDecl
	Ghosts    []GhostDecl
	Sorts     []string
	ValueMaps []*TyExpr
	Guards    [][2]string
	Immut     []string
	Typed     []string
	FieldInvs [][3]string
	Stable    [][2]string
	LockInvs  []LockInvDecl
	Opts      [][]string
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "inv": true, "fold": true, "use": true, "modifies": true, "flags": true, "trigger": true, "decreases": true, "invfrom": true, "when": true, "props": true, "havocs": true}
// LockInvDecl is a predicate on the owner of a mutex which holds whenever the
// mutex is not held, and the heaps which others may change meanwhile.
type LockInvDecl struct {
	Lock, Pred string
	Props      []string
	Over       []string
}

var declKw = map[string]bool{"lockinv": true, "func": true, "extern": true, "iface": true, "functype": true, "spec": true, "uninterp": true, "axiom": true, "lemma": true, "ghost": true, "sort": true, "valuemap": true, "guard": true, "immutable": true, "fieldinv": true, "balanced": true, "typed": true, "option": true}

type rawLine struct {
	kw, rest, pos string
}

func splitDecls(src, file string) []rawLine {
	var out []rawLine
	for n, line := range strings.Split(src, "\n") {
		l := line
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") {
			continue
		}
		f := t
		if i := strings.IndexAny(t, " \t["); i >= 0 {
			f = t[:i]
		}
		indented := l[0] == ' ' || l[0] == '\t'
		if (!indented && declKw[f]) || (indented && clauseKw[f]) {
			out = append(out, rawLine{f, strings.TrimSpace(t[len(f):]), fmt.Sprintf("%s:%d", filepath.Base(file), n+1)})
			continue
		}
		if len(out) == 0 {
			panic(perr{fmt.Sprintf("%s:%d: text before any declaration", file, n+1)})
		}
		out[len(out)-1].rest += "\n" + t
	}
	return out
}

func parseSpecs(dir string) (sf *SpecFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	files, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	sf = &SpecFile{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		parseSpecFile(sf, string(b), f)
	}
	return sf, nil
}

func newParser(src, pos string) *parser {
	t, err := lex(src, pos)
	if err != nil {
		panic(perr{err.Error()})
	}
	return &parser{toks: t, pos: pos}
}

func (p *parser) done() {
	if p.peek().k != "eof" {
		p.fail("trailing text")
	}
}

func parseProps(s string) (props []string, rest string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		inner := strings.TrimSpace(s[1:j])
		isProps := inner != ""
		for _, x := range strings.Split(inner, ",") {
			x = strings.TrimSpace(x)
			if len(x) != 3 || x[0] != 'C' {
				isProps = false
			}
		}
		if isProps {
			for _, x := range strings.Split(inner, ",") {
				props = append(props, strings.TrimSpace(x))
			}
			s = strings.TrimSpace(s[j+1:])
		}
	}
	return props, s
}

func parseSpecFile(sf *SpecFile, src, file string) {
	lines := splitDecls(src, file)
	var cur *Contract
	var lem *LemmaDecl
	var sfn *SpecFunc
	for _, ln := range lines {
		switch ln.kw {
		case "func", "extern", "iface", "functype":
			cur, lem, sfn = parseContractHead(ln), nil, nil
			sf.Contracts = append(sf.Contracts, cur)
			continue
		case "spec", "uninterp":
			cur, lem = nil, nil
			sfn = parseSpecFuncDecl(ln)
			sf.Funcs = append(sf.Funcs, sfn)
			continue
		case "axiom", "lemma":
			cur, sfn = nil, nil
			props, rest := parseProps(ln.rest)
			p := newParser(rest, ln.pos)
			lem = &LemmaDecl{Name: p.ident(), Axiom: ln.kw == "axiom", Pos: ln.pos, Props: props, Flags: map[string]bool{}}
			p.expect("(")
			if !p.is(")") {
				lem.Params = p.parseBinds()
			}
			p.expect(")")
			p.done()
			sf.Lemmas = append(sf.Lemmas, lem)
			continue
		case "ghost":
			p := newParser(ln.rest, ln.pos)
			n := p.ident()
			sf.Ghosts = append(sf.Ghosts, GhostDecl{n, p.parseType()})
			p.done()
			continue
		case "sort":
			sf.Sorts = append(sf.Sorts, strings.TrimSpace(ln.rest))
			continue
		case "valuemap":
			p := newParser(ln.rest, ln.pos)
			sf.ValueMaps = append(sf.ValueMaps, p.parseType())
			continue
		case "guard":
			f := strings.Fields(ln.rest)
			if len(f) != 3 || f[1] != "by" {
				panic(perr{ln.pos + ": guard X by Y"})
			}
			sf.Guards = append(sf.Guards, [2]string{f[0], f[2]})
			continue
		case "lockinv":
			f := strings.Fields(ln.rest)
			if len(f) != 6 || f[1] != "by" || f[4] != "over" {
				panic(perr{ln.pos + ": lockinv pkg.T.F by predicate [property,...] over heap,..."})
			}
			sf.LockInvs = append(sf.LockInvs, LockInvDecl{f[0], f[2], strings.Split(strings.Trim(f[3], "[]"), ","), strings.Split(f[5], ",")})
			continue
		case "balanced":
			f := strings.Fields(ln.rest)
			if len(f) != 2 {
				panic(perr{ln.pos + ": balanced $ghost property"})
			}
			sf.Stable = append(sf.Stable, [2]string{f[0], f[1]})
			continue
		case "fieldinv":
			f := strings.Fields(ln.rest)
			if len(f) != 3 && len(f) != 4 || f[1] != "by" {
				panic(perr{ln.pos + ": fieldinv pkg.T.F by predicate [property,...]"})
			}
			props := "C20"
			if len(f) == 4 {
				props = strings.Trim(f[3], "[]")
			}
			sf.FieldInvs = append(sf.FieldInvs, [3]string{f[0], f[2], props})
			continue
		case "typed":
			for _, f := range strings.Split(ln.rest, ",") {
				sf.Typed = append(sf.Typed, strings.TrimSpace(f))
			}
			continue
		case "immutable":
			for _, f := range strings.Split(ln.rest, ",") {
				sf.Immut = append(sf.Immut, strings.TrimSpace(f))
			}
			continue
		case "option":
			sf.Opts = append(sf.Opts, strings.Fields(ln.rest))
			continue
		}
		// clause
		if sfn != nil && ln.kw == "flags" {
			for _, f := range strings.Fields(ln.rest) {
				k, v, _ := strings.Cut(f, "=")
				sfn.Opts[k] = v
				if k == "fuel" {
					sfn.Fuel, _ = strconv.Atoi(v)
				}
			}
			continue
		}
		if cur == nil && lem == nil {
			panic(perr{ln.pos + ": clause outside a contract"})
		}
		flags := map[string]bool{}
		if cur != nil {
			flags = cur.Flags
		} else {
			flags = lem.Flags
		}
		switch ln.kw {
		case "flags":
			for _, f := range strings.Fields(ln.rest) {
				flags[f] = true
			}
			continue
		case "when":
			p := newParser(ln.rest, ln.pos)
			cur.When = p.parseExpr()
			cur.WhenTxt = ln.rest
			p.done()
			continue
		case "invfrom":
			cur.InvFrom = append(cur.InvFrom, strings.Fields(ln.rest)...)
			continue
		case "props":
			props := strings.FieldsFunc(ln.rest, func(r rune) bool { return r == ' ' || r == ',' })
			if cur != nil {
				cur.Props = props
			} else {
				lem.Props = props
			}
			continue
		}
		c := &Clause{Kind: ln.kw, Pos: ln.pos}
		var rest string
		c.Props, rest = parseProps(ln.rest)
		c.Text = strings.Join(strings.Fields(rest), " ")
		if i := strings.Index(rest, ": "); i > 0 && isLabel(rest[:i]) {
			c.Label = rest[:i]
			rest = rest[i+2:]
		}
		p := newParser(rest, ln.pos)
		switch ln.kw {
		case "modifies":
			for {
				var m Mod
				if p.accept("except") {
					m.Except = true
				}
				if !m.Except && p.accept("*") {
					m.All = true
				} else {
					p.accept("@")
					n := p.ident()
					for p.accept(".") {
						if p.accept("*") {
							n += ".*"
						} else {
							n += "." + p.ident()
						}
					}
					m.Heap = n
					if p.accept("at") {
						m.At = p.parseExpr()
					}
				}
				c.Mods = append(c.Mods, m)
				if !p.accept(",") {
					break
				}
			}
		case "trigger":
			e := p.parseExpr()
			for p.accept(",") {
				x := p.parseExpr()
				if e.K != "list" {
					e = &Expr{K: "list", A: []*Expr{e}, Pos: e.Pos}
				}
				e.A = append(e.A, x)
			}
			c.E = e
		case "inv", "fold":
			if p.is("(") && p.toks[p.i+1].k == "id" && strings.HasPrefix(p.toks[p.i+1].s, "$") && p.toks[p.i+2].s != ")" && p.toks[p.i+2].s != "." {
				p.i++
				c.Binds = p.parseBinds()
				p.expect(")")
			}
			c.E = p.parseExpr()
		default:
			c.E = p.parseExpr()
		}
		p.done()
		if cur != nil {
			c.idx = len(cur.Clauses)
			cur.Clauses = append(cur.Clauses, c)
		} else {
			c.idx = len(lem.Clauses)
			lem.Clauses = append(lem.Clauses, c)
		}
	}
}

func isLabel(s string) bool {
	for _, c := range s {
		if !(c == '_' || c == '-' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// parseContractHead: NAME(params) (results)
func parseContractHead(ln rawLine) *Contract {
	c := &Contract{Kind: ln.kw, Pos: ln.pos, Flags: map[string]bool{}}
	s := strings.Join(strings.Fields(ln.rest), " ")
	// strip results
	name := s
	// find the parameter list: the last-but-maybe-one parenthesised group at the end
	var groups []string
	for strings.HasSuffix(name, ")") {
		d := 0
		i := len(name) - 1
		for ; i >= 0; i-- {
			if name[i] == ')' {
				d++
			} else if name[i] == '(' {
				d--
				if d == 0 {
					break
				}
			}
		}
		g := name[i+1 : len(name)-1]
		if strings.HasPrefix(g, "*") {
			break
		}
		groups = append([]string{g}, groups...)
		name = strings.TrimSpace(name[:i])
		if len(groups) == 2 {
			break
		}
	}
	if len(groups) == 0 {
		panic(perr{ln.pos + ": contract needs a parameter list: " + s})
	}
	names := func(g string) []string {
		var out []string
		for _, x := range strings.Split(g, ",") {
			x = strings.TrimSpace(x)
			if x != "" {
				out = append(out, strings.Fields(x)[0])
			}
		}
		return out
	}
	c.Name = name
	c.Params = names(groups[0])
	if len(groups) > 1 {
		c.Results = names(groups[1])
	}
	return c
}

func parseSpecFuncDecl(ln rawLine) *SpecFunc {
	p := newParser(ln.rest, ln.pos)
	if ln.kw == "spec" {
		p.expect("func")
	} else {
		p.accept("func")
	}
	f := &SpecFunc{Name: p.ident(), Pos: ln.pos, Fuel: 2, Opts: map[string]string{}}
	p.expect("(")
	if !p.is(")") {
		f.Params = p.parseBinds()
	}
	p.expect(")")
	f.Ret = p.parseType()
	if ln.kw == "spec" {
		p.expect("=")
		f.Body = p.parseExpr()
	}
	p.done()
	return f
}
