package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/stages"
)

func init() {
	register("C01", "random syntax trees (text, sequences, paragraphs, preformatted blocks, calls nested in arguments, nested sections, functions returning nothing, flow, blocks and sequences), evaluated onto existing content, repeatedly and into new sections, and documents as text; compared with an evaluator written from the property", func(h *H) { evaluations(h, false) })
	register("C03", "random calls with several plugins in random order (overlapping methods, variadic, string, content and syntax tree parameters, unsupported ones, every kind of result, failing methods and arguments), compared with an evaluator written from the property: the calls made, their arguments, order and location, the content and the errors", func(h *H) { evaluations(h, true) })
}

// ---- the plugins called ----

type calls struct {
	h     *H
	log   []string
	fails map[string]bool
}

func (l *calls) add(s *booklit.Section, who, f string, a ...any) {
	l.log = append(l.log, fmt.Sprintf("%s.%s @%s", who, fmt.Sprintf(f, a...), locOf(s.InvokeLocation)))
}

func locOf(l ast.Location) string { return fmt.Sprintf("%d:%d:%d", l.Line, l.Col, l.Offset) }

type common struct {
	who string
	s   *booklit.Section
	l   *calls
}

type failure struct{ text string }

func (f failure) Error() string { return f.text }

type pretty struct{ text string }

func (f *pretty) Error() string                { return f.text }
func (f *pretty) PrettyPrint(out io.Writer)    { fmt.Fprint(out, f.text) }
func (f *pretty) PrettyHTML(o io.Writer) error { return nil }

func (p common) Flow(c booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "Flow(%s)", norm(c))
	return booklit.Styled{Style: booklit.Style(p.who), Content: c}
}

type first struct{ common }

func (p first) FlOw(c booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "FlOw(%s)", norm(c))
	return booklit.Styled{Style: "fl-ow", Content: c}
}

func (p first) Nothing() { p.l.add(p.s, p.who, "Nothing()") }

func (p first) NothingErr() error {
	p.l.add(p.s, p.who, "NothingErr()")
	return nil
}

func (p first) NilContent() booklit.Content {
	p.l.add(p.s, p.who, "NilContent()")
	return nil
}

func (p first) NilBoth() (booklit.Content, error) {
	p.l.add(p.s, p.who, "NilBoth()")
	return nil, nil
}

func (p first) Str(s string) booklit.Content {
	p.l.add(p.s, p.who, "Str(%q)", s)
	return booklit.String("<" + s + ">")
}

func (p first) Fail() error {
	p.l.add(p.s, p.who, "Fail()")
	return failure{"failed"}
}

func (p first) FailPretty() error {
	p.l.add(p.s, p.who, "FailPretty()")
	return &pretty{"failed prettily"}
}

func (p first) FailBoth(c booklit.Content) (booklit.Content, error) {
	p.l.add(p.s, p.who, "FailBoth(%s)", norm(c))
	return c, failure{"failed both"}
}

func (p first) FailPrettyBoth() (booklit.Content, error) {
	p.l.add(p.s, p.who, "FailPrettyBoth()")
	return nil, &pretty{"failed prettily both"}
}

type second struct{ common }

func (p second) Block(c booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "Block(%s)", norm(c))
	return booklit.Styled{Style: "block", Block: true, Content: c}
}

func (p second) Two(c booklit.Content, s string) (booklit.Content, error) {
	p.l.add(p.s, p.who, "Two(%s, %q)", norm(c), s)
	return booklit.Sequence{c, booklit.String(s)}, nil
}

func (p second) Many(s string, cs ...booklit.Content) booklit.Content {
	var ns []string
	for _, c := range cs {
		ns = append(ns, norm(c))
	}
	p.l.add(p.s, p.who, "Many(%q, %s)", s, strings.Join(ns, ", "))
	return booklit.List{Items: cs}
}

func (p second) Strs(ss ...string) (booklit.Content, error) {
	p.l.add(p.s, p.who, "Strs(%q)", ss)
	return booklit.String(strings.Join(ss, ",")), nil
}

func (p second) Nodes(ns ...ast.Node) {
	p.l.add(p.s, p.who, "Nodes(%v)", ns)
}

func (p second) Raw(n ast.Node, c booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "Raw(%v, %s)", n, norm(c))
	return c
}

func (p second) Nested(n ast.Node) error {
	p.l.add(p.s, p.who, "Nested()")
	child, err := p.s.Processor.EvaluateNode(p.s, n, p.s.PluginFactories)
	if err != nil {
		return err
	}
	p.s.Children = append(p.s.Children, child)
	return nil
}

func (p second) Str3(s string) booklit.Content {
	p.l.add(p.s, p.who, "Str3(%q)", s)
	return booklit.String(s)
}

type third struct{ common }

func (p third) Two(c booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "Two(%s)", norm(c))
	return c
}

func (p third) Nothing(c booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "Nothing(%s)", norm(c))
	return c
}

func (p third) Block(s string, cs ...booklit.Content) booklit.Content {
	p.l.add(p.s, p.who, "Block(%q)", s)
	return booklit.String(s)
}

func (p third) Fail() {
	p.l.add(p.s, p.who, "Fail()")
}

func (p third) Strs(ss ...int) {
	p.l.add(p.s, p.who, "Strs()")
}

func (p third) OddArg(c booklit.Content, n int) booklit.Content {
	p.l.add(p.s, p.who, "OddArg()")
	return c
}

func (p third) OddRest(s string, ns ...booklit.Sequence) booklit.Content {
	p.l.add(p.s, p.who, "OddRest()")
	return nil
}

func (p third) RetString() string {
	p.l.add(p.s, p.who, "RetString()")
	return "x"
}

func (p third) RetConcrete() booklit.String {
	p.l.add(p.s, p.who, "RetConcrete()")
	return "x"
}

func (p third) RetStringErr() (string, error) {
	p.l.add(p.s, p.who, "RetStringErr()")
	return "x", nil
}

func (p third) RetSwapped() (error, booklit.Content) {
	p.l.add(p.s, p.who, "RetSwapped()")
	return nil, booklit.String("x")
}

func (p third) RetContentString() (booklit.Content, string) {
	p.l.add(p.s, p.who, "RetContentString()")
	return booklit.String("x"), "y"
}

func (p third) RetThree() (booklit.Content, booklit.Content, error) {
	p.l.add(p.s, p.who, "RetThree()")
	return nil, nil, nil
}

func (p third) Str(s string) booklit.Content {
	p.l.add(p.s, p.who, "Str(%q)", s)
	return booklit.String("[" + s + "]")
}

// ---- what content consists of ----

type piece struct {
	text string
	str  bool
	flow bool
	s    string // its text
}

func cutUp(c booklit.Content) []piece {
	switch v := c.(type) {
	case nil:
		return nil
	case booklit.String:
		return []piece{{text: string(v), str: true, flow: true, s: string(v)}}
	case booklit.Sequence:
		var r []piece
		for _, x := range v {
			r = append(r, cutUp(x)...)
		}
		return r
	case booklit.Paragraph:
		return []piece{{text: "para" + lines(v)}}
	case booklit.Preformatted:
		return []piece{{text: "pre" + lines(v)}}
	case booklit.List:
		return []piece{{text: "list" + lines(v.Items)}}
	case booklit.Styled:
		return []piece{{text: fmt.Sprintf("%s%v(%s)", v.Style, v.Block, norm(v.Content))}}
	case booklit.Image:
		return []piece{{text: "image " + v.Path}}
	}
	return []piece{{text: fmt.Sprintf("%T", c)}}
}

func lines(cs []booklit.Content) string {
	var ls []string
	for _, c := range cs {
		ls = append(ls, norm(c))
	}
	return "[" + strings.Join(ls, " | ") + "]"
}

func joined(ps []piece) string {
	var r []string
	text := ""
	for _, p := range ps {
		if p.str {
			text += p.text
			continue
		}
		if text != "" {
			r = append(r, fmt.Sprintf("%q", text))
			text = ""
		}
		r = append(r, p.text)
	}
	if text != "" {
		r = append(r, fmt.Sprintf("%q", text))
	}
	return strings.Join(r, " ")
}

// norm describes content up to how its sequences are nested.
func norm(c booklit.Content) string { return joined(cutUp(c)) }

// ---- the evaluator of the property ----

type expect struct {
	plugins []string // in order
	log     []string
	bodies  []string // of nested sections
	file    string
	nested  bool
}

// want is what an evaluation yields: nothing at all is none.
type wantErr struct {
	kind string // undefined, failed, pretty, other
	fn   string
	loc  ast.Location
	text string
}

func (e *expect) seq(ns []ast.Node) ([]piece, bool, *wantErr) {
	var r []piece
	some := false
	for _, n := range ns {
		ps, s, err := e.eval(n)
		if err != nil {
			return nil, false, err
		}
		some = some || s
		r = append(r, ps...)
	}
	return r, some, nil
}

func flowing(ps []piece) bool {
	for _, p := range ps {
		if !p.flow {
			return false
		}
	}
	return true
}

func (e *expect) linesOf(ls []ast.Sequence) ([][]piece, *wantErr) {
	var r [][]piece
	for _, l := range ls {
		ps, some, err := e.seq(l)
		if err != nil {
			return nil, err
		}
		if some {
			r = append(r, ps)
		}
	}
	return r, nil
}

func joinLines(ls [][]piece) string {
	var r []string
	for _, l := range ls {
		r = append(r, joined(l))
	}
	return "[" + strings.Join(r, " | ") + "]"
}

// eval gives the pieces of content and whether there is any content.
func (e *expect) eval(n ast.Node) ([]piece, bool, *wantErr) {
	switch v := n.(type) {
	case ast.String:
		return []piece{{text: string(v), str: true, flow: true, s: string(v)}}, true, nil
	case ast.Sequence:
		return e.seq(v)
	case ast.Paragraph:
		ls, err := e.linesOf(v)
		if err != nil || len(ls) == 0 {
			return nil, false, err
		}
		if len(ls) == 1 && !flowing(ls[0]) {
			return ls[0], true, nil
		}
		return []piece{{text: "para" + joinLines(ls), s: "?"}}, true, nil
	case ast.Preformatted:
		ls, err := e.linesOf(v)
		if err != nil {
			return nil, false, err
		}
		return []piece{{text: "pre" + joinLines(ls), s: "?"}}, true, nil
	case ast.Invoke:
		return e.call(v)
	}
	panic("no such node")
}

// the functions there are: plugins which have them, their parameters (c
// content, s string, n node, o odd; capital for the last if variadic)
var funcs = map[string]struct {
	who    string
	method string
	params string
}{
	"flow":               {"first second third", "Flow", "c"},
	"fl-ow":              {"first", "FlOw", "c"},
	"FLOW":               {"first second third", "Flow", "c"},
	"nothing":            {"first third", "Nothing", ""},
	"nothing-err":        {"first", "NothingErr", ""},
	"nil-content":        {"first", "NilContent", ""},
	"nil-both":           {"first", "NilBoth", ""},
	"str":                {"first third", "Str", "s"},
	"fail":               {"first third", "Fail", ""},
	"fail-pretty":        {"first", "FailPretty", ""},
	"fail-both":          {"first", "FailBoth", "c"},
	"fail-pretty-both":   {"first", "FailPrettyBoth", ""},
	"block":              {"second third", "Block", "c"},
	"two":                {"second third", "Two", "cs"},
	"many":               {"second", "Many", "sC"},
	"strs":               {"second third", "Strs", "S"},
	"nodes":              {"second", "Nodes", "N"},
	"raw":                {"second", "Raw", "nc"},
	"nested":             {"second", "Nested", "n"},
	"str3":               {"second", "Str3", "s"},
	"odd-arg":            {"third", "OddArg", "co"},
	"odd-rest":           {"third", "OddRest", "sO"},
	"ret-string":         {"third", "RetString", ""},
	"ret-concrete":       {"third", "RetConcrete", ""},
	"ret-string-err":     {"third", "RetStringErr", ""},
	"ret-swapped":        {"third", "RetSwapped", ""},
	"ret-content-string": {"third", "RetContentString", ""},
	"ret-three":          {"third", "RetThree", ""},
	"no-such-function":   {"", "", "c"},
	"nothing-":           {"first third", "Nothing", ""},
	"retthree":           {"", "", ""},
	"log":                {"", "", ""},
}

// the methods which the third plugin has in its own way
var overloads = map[string]string{"two": "c", "nothing": "c", "nothing-": "c", "block": "sC", "fail": "", "strs": "O"}

var goodFuncs = []string{"flow", "flow", "fl-ow", "FLOW", "nothing", "nothing-err", "nil-content", "nil-both", "str", "block", "block", "two", "many", "strs", "nodes", "raw", "str3", "nested"}
var badFuncs = []string{"fail", "fail-pretty", "fail-both", "fail-pretty-both", "odd-arg", "odd-rest", "ret-string", "ret-concrete", "ret-string-err", "ret-swapped", "ret-content-string", "ret-three", "no-such-function", "retthree", "log"}

func textOf(ps []piece) string {
	s := ""
	for _, p := range ps {
		s += p.s
	}
	return s
}

func (e *expect) call(v ast.Invoke) ([]piece, bool, *wantErr) {
	f, ok := funcs[v.Function]
	who := ""
	if ok {
		for _, p := range e.plugins {
			for _, w := range strings.Fields(f.who) {
				if p == w && who == "" {
					who = p
				}
			}
		}
	}
	if who == "" {
		return nil, false, &wantErr{kind: "undefined", fn: v.Function, loc: v.Location}
	}
	o, over := overloads[v.Function]
	over = over && who == "third"
	if over {
		f.params = o
	}
	var types []byte
	for i := range v.Arguments {
		switch {
		case i < len(f.params) && f.params[i] >= 'a':
			types = append(types, f.params[i])
		case f.params != "" && f.params[len(f.params)-1] < 'a':
			types = append(types, f.params[len(f.params)-1]+'a'-'A')
		default:
			return nil, false, &wantErr{kind: "other"}
		}
	}
	least := len(f.params)
	if least > 0 && f.params[least-1] < 'a' {
		least--
	}
	if len(v.Arguments) < least {
		return nil, false, &wantErr{kind: "other"}
	}
	var args []string
	var vals [][]piece
	for i, a := range v.Arguments {
		switch types[i] {
		case 'n':
			args, vals = append(args, fmt.Sprint(a)), append(vals, nil)
		case 'o':
			return nil, false, &wantErr{kind: "other"}
		default:
			ps, _, err := e.eval(a)
			if err != nil {
				if strings.Contains(string(types[i:]), "o") {
					return nil, false, &wantErr{kind: "other"}
				}
				return nil, false, err
			}
			vals = append(vals, ps)
			if types[i] == 's' && strings.Contains(textOf(ps), "?") {
				// the text of blocks is not the evaluator's business
				return nil, false, &wantErr{kind: "any"}
			}
			if types[i] == 's' {
				args = append(args, fmt.Sprintf("%q", textOf(ps)))
			} else {
				args = append(args, joined(ps))
			}
		}
	}
	note := func(s string) {
		e.log = append(e.log, fmt.Sprintf("%s.%s @%s", who, s, locOf(v.Location)))
	}
	one := func(text string, flow bool, s string) ([]piece, bool, *wantErr) {
		return []piece{{text: text, flow: flow, s: s}}, true, nil
	}
	str := func(s string) ([]piece, bool, *wantErr) {
		return []piece{{text: s, str: true, flow: true, s: s}}, true, nil
	}
	failed := func(kind, text string) ([]piece, bool, *wantErr) {
		return nil, false, &wantErr{kind: kind, fn: v.Function, loc: v.Location, text: text}
	}
	if over {
		switch f.method {
		case "Two", "Nothing":
			note(f.method + "(" + args[0] + ")")
			return vals[0], true, nil
		case "Block":
			note("Block(" + args[0] + ")")
			return str(textOf(vals[0]))
		case "Fail":
			note("Fail()")
			return nil, false, nil
		case "Strs":
			return nil, false, &wantErr{kind: "any"}
		}
	}
	switch f.method {
	case "Flow":
		note("Flow(" + args[0] + ")")
		return one(who+"false("+args[0]+")", flowing(vals[0]), textOf(vals[0]))
	case "FlOw":
		note("FlOw(" + args[0] + ")")
		return one("fl-owfalse("+args[0]+")", flowing(vals[0]), textOf(vals[0]))
	case "Nothing", "NothingErr", "NilContent", "NilBoth":
		note(f.method + "()")
		return nil, false, nil
	case "Str":
		note("Str(" + args[0] + ")")
		if who == "first" {
			return str("<" + textOf(vals[0]) + ">")
		}
		return str("[" + textOf(vals[0]) + "]")
	case "Str3":
		note("Str3(" + args[0] + ")")
		return str(textOf(vals[0]))
	case "Fail":
		note("Fail()")
		return failed("failed", "failed")
	case "FailBoth":
		note("FailBoth(" + args[0] + ")")
		return failed("failed", "failed both")
	case "FailPretty":
		note("FailPretty()")
		return failed("pretty", "failed prettily")
	case "FailPrettyBoth":
		note("FailPrettyBoth()")
		return failed("pretty", "failed prettily both")
	case "Block":
		note("Block(" + args[0] + ")")
		return one("blocktrue("+args[0]+")", false, textOf(vals[0]))
	case "Two":
		note("Two(" + args[0] + ", " + args[1] + ")")
		s := textOf(vals[1])
		return append(append([]piece{}, vals[0]...), piece{text: s, str: true, flow: true, s: s}), true, nil
	case "Many":
		note("Many(" + args[0] + ", " + strings.Join(args[1:], ", ") + ")")
		return one("list"+joinLines(vals[1:]), false, "?")
	case "Strs":
		var ss []string
		for _, x := range vals {
			ss = append(ss, textOf(x))
		}
		note(fmt.Sprintf("Strs(%q)", ss))
		return str(strings.Join(ss, ","))
	case "Nodes":
		note(fmt.Sprintf("Nodes(%v)", v.Arguments))
		return nil, false, nil
	case "Raw":
		note("Raw(" + args[0] + ", " + args[1] + ")")
		return vals[1], true, nil
	case "Nested":
		note("Nested()")
		sub := &expect{plugins: e.plugins, file: e.file}
		ps, _, err := sub.eval(v.Arguments[0])
		e.log = append(e.log, sub.log...)
		if err != nil {
			if err.kind == "any" {
				return nil, false, err
			}
			if err.kind == "other" {
				return failed("failed", "")
			}
			return nil, false, err
		}
		e.bodies = append(e.bodies, joined(ps)+" "+fmt.Sprint(sub.bodies))
		return nil, false, nil
	}
	note(f.method + "()")
	if f.method == "OddRest" {
		// whether that matters when there is no such argument is not said
		return nil, false, &wantErr{kind: "any"}
	}
	return nil, false, &wantErr{kind: "other"}
}

// ---- generated syntax trees ----

type treeGen struct {
	h    *H
	bad  int // one call in bad fails; 0 for none
	line int
	fns  []string
}

func (g *treeGen) sequence(d int) ast.Sequence {
	s := ast.Sequence{}
	for i := g.h.pick(4); i > 0; i-- {
		s = append(s, g.node(d-1))
	}
	return s
}

func (g *treeGen) lines(d int) []ast.Sequence {
	ls := make([]ast.Sequence, 0, 5)
	for i := g.h.pick(4); i > 0; i-- {
		if g.h.chance(3) {
			ls = append(ls, ast.Sequence{g.call(d - 1)})
		} else {
			ls = append(ls, g.sequence(d-1))
		}
	}
	return ls
}

func (g *treeGen) node(d int) ast.Node {
	if d <= 0 {
		return ast.String(g.h.name())
	}
	switch g.h.pick(10) {
	case 0, 1:
		return ast.String(string(g.h.word()))
	case 2, 3:
		return g.sequence(d)
	case 4, 5:
		return ast.Paragraph(g.lines(d))
	case 6:
		return ast.Preformatted(g.lines(d))
	}
	return g.call(d)
}

// plain is a node whose text is simple.
func (g *treeGen) plain(d int) ast.Node {
	s := ast.Sequence{}
	for i := g.h.pick(3); i > 0; i-- {
		if g.h.chance(2) && d > 0 {
			f := oneOf(g.h, "str", "flow", "block", "nothing", "strs", "str3", "two")
			if g.bad > 0 && g.h.chance(g.bad) {
				f = oneOf(g.h, badFuncs...)
			}
			s = append(s, g.invoke(f, d-1, true))
		} else {
			s = append(s, ast.String(string(g.h.word())))
		}
	}
	return s
}

func (g *treeGen) call(d int) ast.Node {
	f := oneOf(g.h, goodFuncs...)
	if g.bad > 0 && g.h.chance(g.bad) {
		f = oneOf(g.h, badFuncs...)
	}
	return g.invoke(f, d, false)
}

func (g *treeGen) invoke(name string, d int, plain bool) ast.Node {
	g.line++
	inv := ast.Invoke{Function: name, Location: ast.Location{Line: g.line, Col: 1 + g.h.pick(9), Offset: g.line * 10}}
	f := funcs[name]
	var ps string
	if o, ok := overloads[name]; ok && g.h.chance(3) {
		f.params = o
	}
	for i := range f.params {
		if f.params[i] < 'a' {
			for j := g.h.pick(4); j > 0; j-- {
				ps += string(f.params[i] + 'a' - 'A')
			}
		} else {
			ps += string(f.params[i])
		}
	}
	if g.bad > 0 && g.h.chance(4*g.bad) {
		if g.h.chance(2) {
			ps += "c"
		} else if ps != "" {
			ps = ps[:len(ps)-1]
		}
	}
	for i := range ps {
		if ps[i] == 's' || plain {
			inv.Arguments = append(inv.Arguments, g.plain(d-1))
		} else {
			inv.Arguments = append(inv.Arguments, g.node(d-1))
		}
	}
	return inv
}

func showNode(n ast.Node) string { return clip(fmt.Sprintf("%#v", n), 2500) }

func bodiesOf(s *booklit.Section) []string {
	var r []string
	for _, c := range s.Children {
		r = append(r, norm(c.Body)+" "+fmt.Sprint(bodiesOf(c)))
	}
	return r
}

func evaluations(h *H, callsOnly bool) {
	rounds := h.N(6000)
	for i := 0; i < rounds && h.More(); i++ {
		g := &treeGen{h: h}
		if callsOnly {
			g.bad = 3 + h.pick(10)
		} else if h.chance(4) {
			g.bad = 12
		}
		d := 1 + h.pick(4)
		var n ast.Node
		if callsOnly {
			n = g.call(d)
		} else {
			n = g.node(d)
		}
		l := &calls{h: h}
		mk := func(who string) booklit.PluginFactory {
			return func(s *booklit.Section) booklit.Plugin {
				c := common{who, s, l}
				switch who {
				case "first":
					return first{c}
				case "second":
					return &second{c}
				}
				return third{c}
			}
		}
		order := []string{"first", "second", "third"}
		h.R.Shuffle(3, func(a, b int) { order[a], order[b] = order[b], order[a] })
		if h.chance(8) {
			order = order[:h.pick(3)]
		}
		if h.chance(8) && len(order) > 0 {
			order = append(order, order[0])
		}
		var pfs []booklit.PluginFactory
		for _, w := range order {
			pfs = append(pfs, mk(w))
		}
		h.Case("plugins %v, %s", order, showNode(n))
		before := fmt.Sprintf("%#v", n)
		exp := &expect{plugins: order, file: "some/file.lit"}
		ps, some, werr := exp.eval(n)
		if werr != nil && werr.kind == "any" {
			continue
		}
		threshold := oneOf(h, 0, time.Hour)
		times := 1 + h.pick(2)
		var earlier booklit.Content
		for t := 0; t < times; t++ {
			l.log = nil
			if h.chance(2) {
				// onto existing content
				sec := &booklit.Section{Path: exp.file, Title: booklit.Empty, Body: booklit.Empty, Processor: &load.Processor{SlowInvokeThreshold: threshold}}
				for _, pf := range pfs {
					sec.UsePlugin(pf)
				}
				if h.chance(2) {
					// in a section within the file
					sec.Parent, sec.Path = &booklit.Section{Path: exp.file}, ""
				}
				var prev booklit.Content
				switch h.pick(4) {
				case 0:
					prev = append(make(booklit.Sequence, 0, 4), booklit.String("before"), booklit.Image{Path: "i"})
				case 1:
					prev = booklit.String("before")
				case 2:
					prev = booklit.Paragraph{booklit.String("before")}
				}
				ev := &stages.Evaluate{Section: sec, SlowInvokeThreshold: threshold, Result: prev}
				was := norm(prev)
				err := n.Visit(ev)
				h.checkErr(err, werr)
				h.checkLog(l, exp, werr)
				h.Eq("the previous content", norm(prev), was)
				if werr == nil {
					h.Eq("the content", norm(ev.Result), joined(append(cutUp(prev), ps...)))
					if prev == nil && !some && ev.Result != nil {
						h.Fail("content %s where there is none", Dump(ev.Result))
					}
					h.Eq("the bodies of nested sections", bodiesOf(sec), exp.bodies)
				}
			} else {
				parent := &booklit.Section{Path: exp.file}
				proc := &load.Processor{SlowInvokeThreshold: threshold}
				sec, err := proc.EvaluateNode(parent, n, pfs)
				h.checkErr(err, werr)
				h.checkLog(l, exp, werr)
				if werr == nil {
					h.Eq("the body", norm(sec.Body), joined(ps))
					h.Eq("the bodies of nested sections", bodiesOf(sec), exp.bodies)
					if earlier != nil {
						h.Eq("the earlier body", norm(earlier), joined(ps))
					}
					earlier = sec.Body
				}
			}
			if after := fmt.Sprintf("%#v", n); after != before {
				h.Fail("the syntax tree was changed:\n%s\n%s", before, after)
			}
		}
	}
}

func (h *H) checkLog(l *calls, e *expect, werr *wantErr) {
	if werr != nil && (werr.kind == "other" || werr.kind == "failed" && werr.text == "") {
		// which arguments are evaluated first is not said
		for i := range e.log {
			if i >= len(l.log) || l.log[i] != e.log[i] {
				h.Fail("the calls:\n got  %v\n want %v", l.log, e.log)
			}
		}
		return
	}
	h.Eq("the calls", strings.Join(l.log, "\n"), strings.Join(e.log, "\n"))
}

func (h *H) checkErr(err error, w *wantErr) {
	if w == nil {
		if err != nil {
			h.Fail("unexpected error: %v", err)
		}
		return
	}
	if err == nil {
		h.Fail("no error, but there must be one: %+v", *w)
	}
	loc := func(l booklit.ErrorLocation, file string) {
		h.Eq("the location of the error", fmt.Sprintf("%s:%s (%d)", l.FilePath, locOf(l.NodeLocation), l.Length), fmt.Sprintf("%s:%s (%d)", file, locOf(w.loc), len(w.fn)+1))
	}
	switch w.kind {
	case "undefined":
		u, ok := rootErr(err).(booklit.UndefinedFunctionError)
		if !ok || u.Function != w.fn {
			h.Fail("error %#v instead of undefined function %s", err, w.fn)
		}
		loc(u.ErrorLocation, "some/file.lit")
	case "failed":
		f, ok := rootErr(err).(booklit.FailedFunctionError)
		if !ok || f.Function != w.fn {
			h.Fail("error %#v instead of failed function %s", err, w.fn)
		}
		if w.text != "" && f.Err.Error() != w.text {
			h.Fail("error %#v instead of failed function %s with %s", err, w.fn, w.text)
		}
		loc(f.ErrorLocation, "some/file.lit")
	case "pretty":
		var p *pretty
		if !errors.As(err, &p) || p.text != w.text {
			h.Fail("error %#v instead of %s", err, w.text)
		}
	}
}

func rootErr(err error) error {
	if err == nil {
		return nil
	}
	return err
}
