package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

func init() {
	register("C18", "every function of the base plugin on random sections (in trees, with prior flags and partials) with random arguments, called directly and from documents; distinct calls", c18)
}

// fieldsOf describes every field of a section.
func fieldsOf(s *booklit.Section) map[string]string {
	m := map[string]string{}
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		f := v.Field(i)
		switch x := f.Interface().(type) {
		case booklit.Content:
			m[n] = Dump(x)
		case booklit.Partials:
			var b strings.Builder
			dumpPartials(&b, x)
			m[n] = b.String()
		case booklit.Tag:
			m[n] = showTag(x)
		case []booklit.Tag:
			m[n] = showTags(x)
		case []*booklit.Section:
			m[n] = fmt.Sprintf("%p", x)
			for _, c := range x {
				m[n] += fmt.Sprintf(" %p", c)
			}
		case *booklit.Section:
			m[n] = fmt.Sprintf("%p", x)
		case []booklit.PluginFactory:
			m[n] = fmt.Sprint(len(x))
			for _, p := range x {
				m[n] += fmt.Sprintf(" %x", reflect.ValueOf(p).Pointer())
			}
		default:
			m[n] = fmt.Sprintf("%T %+v", x, x)
		}
	}
	return m
}

// diff is what differs between two descriptions.
func diff(a, b map[string]string) string {
	var r []string
	for k := range a {
		if a[k] != b[k] {
			r = append(r, fmt.Sprintf("%s: %s -> %s", k, a[k], b[k]))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func (h *H) flags(s *booklit.Section) {
	s.SplitSections = h.chance(2)
	s.PreventSplitSections = h.chance(4)
	s.ResetDepth = h.chance(3)
	s.OmitChildrenFromTableOfContents = h.chance(3)
	if h.chance(3) {
		s.Style = "old"
	}
	for _, k := range []string{"A", "B"} {
		if h.chance(3) {
			s.SetPartial(k, booklit.String("old "+k))
		}
	}
}

func c18(h *H) {
	o := genOpts{aux: true, targets: true}
	type want struct {
		content string // description of the content
		fails   bool
		changes map[string]string // fields of the section
	}
	styles := map[string]string{"Code": "verbatim", "Italic": "italic", "Bold": "bold", "Larger": "larger", "Smaller": "smaller", "Strike": "strike", "Superscript": "superscript", "Subscript": "subscript", "Inset": "inset", "Aside": "aside"}
	var styleFns []string
	for k := range styles {
		styleFns = append(styleFns, k)
	}
	sort.Strings(styleFns)
	list := func(ordered bool, cs []booklit.Content) booklit.Content { return booklit.List{Items: cs, Ordered: ordered} }
	var rounds = h.N(2500)
	for i := 0; i < rounds && h.More(); i++ {
		root := h.tree(nil, "r", 3, 3)
		var secs []*booklit.Section
		for _, s := range all(root) {
			h.flags(s)
			secs = append(secs, s)
		}
		sec := secs[h.pick(len(secs))]
		sec.InvokeLocation = h.loc()
		p := baselit.NewPlugin(sec).(baselit.Plugin)
		str := oneOf(h, "", "x", "a b", "t&<", "ünï")
		n := h.pick(5)
		var cs []booklit.Content
		for j := 0; j < n; j++ {
			cs = append(cs, h.content(1, o))
		}
		one := h.content(2, o)
		two := h.content(1, o)
		fn := oneOf(h, "style", "style", "Styled", "Aux", "Link", "Reference", "Target", "List", "OrderedList", "TableRow", "Definition", "Image", "SetPartial", "Table", "Definitions", "SinglePage", "SplitSections", "Omit", "TableOfContents")
		if fn == "style" {
			fn = oneOf(h, styleFns...)
		}
		if fn == "Table" || fn == "Definitions" {
			for j := range cs {
				switch {
				case h.chance(8):
				case fn == "Table":
					cs[j] = list(h.chance(3), h.contents(1, 3, o))
				case h.chance(10):
					cs[j] = list(false, h.contents(1, 3, o))
				default:
					cs[j] = list(false, []booklit.Content{h.content(1, o), h.content(1, o)})
				}
			}
		}
		given := Dump(one) + Dump(two)
		var ds []string
		for _, c := range cs {
			ds = append(ds, Dump(c))
		}
		h.Case("%s on a section, text %q, content %s, %s, list [%s]", fn, str, Dump(one), Dump(two), strings.Join(ds, ", "))
		before := map[*booklit.Section]map[string]string{}
		for _, s := range secs {
			before[s] = fieldsOf(s)
		}
		var got booklit.Content
		var err error
		w := want{changes: map[string]string{}}
		others := map[*booklit.Section]map[string]string{}
		switch fn {
		case "Styled":
			p.Styled(str)
			w.changes["Style"] = fmt.Sprintf("%T %+v", str, str)
		case "Aux":
			got, w.content = p.Aux(one), Dump(booklit.Aux{Content: one})
		case "Link":
			got, w.content = p.Link(one, str), Dump(booklit.Link{Content: one, Target: str})
		case "Reference":
			got = p.Reference(str, cs...)
			r, ok := got.(*booklit.Reference)
			if !ok || r == nil {
				h.Fail("a reference is a %T", got)
			}
			h.Eq("section, tag, location", fmt.Sprintf("%p %q %v %v", r.Section, r.TagName, r.Location, r.Optional), fmt.Sprintf("%p %q %v false", sec, str, sec.InvokeLocation))
			var c booklit.Content
			if len(cs) > 0 {
				c = cs[0]
			}
			h.Eq("content", Dump(r.Content), Dump(c))
			if r2 := p.Reference(str, cs...); r2 == got {
				h.Fail("two references are the same")
			}
			w.content = Dump(got)
		case "Target":
			got = p.Target(str, cs...)
			var t booklit.Target
			switch x := got.(type) {
			case *booklit.Target:
				t = *x
			case booklit.Target:
				t = x
			default:
				h.Fail("a target is a %T", got)
			}
			title, content := booklit.Content(booklit.String(str)), booklit.Content(nil)
			if len(cs) == 1 || len(cs) == 2 {
				title = cs[0]
			}
			if len(cs) == 2 {
				content = cs[1]
			}
			h.Eq("target", fmt.Sprintf("%q %v %s %s", t.TagName, t.Location, Dump(t.Title), Dump(t.Content)), fmt.Sprintf("%q %v %s %s", str, sec.InvokeLocation, Dump(title), Dump(content)))
			w.content = Dump(got)
		case "List":
			got, w.content = p.List(cs...), Dump(list(false, cs))
		case "OrderedList":
			got, w.content = p.OrderedList(cs...), Dump(list(true, cs))
		case "TableRow":
			got, w.content = p.TableRow(cs...), Dump(list(false, cs))
		case "Definition":
			got, w.content = p.Definition(one, two), Dump(list(false, []booklit.Content{one, two}))
		case "Image":
			if n == 0 {
				got, w.content = p.Image(str), Dump(booklit.Image{Path: str})
			} else {
				got, w.content = p.Image(str, "desc"), Dump(booklit.Image{Path: str, Description: "desc"})
			}
		case "SetPartial":
			k := oneOf(h, "A", "B", "C", "a")
			m := booklit.Partials{}
			for x, y := range sec.Partials {
				m[x] = y
			}
			m[k] = one
			p.SetPartial(k, one)
			var b strings.Builder
			dumpPartials(&b, m)
			w.changes["Partials"] = b.String()
			h.Eq("partial "+k, Dump(sec.Partial(k)), Dump(one))
			h.Eq("another partial", sec.Partial("not set"), nil)
		case "Table":
			got, err = p.Table(cs...)
			t := booklit.Table{}
			for _, c := range cs {
				l, ok := c.(booklit.List)
				w.fails = w.fails || !ok
				t.Rows = append(t.Rows, l.Items)
			}
			w.content = Dump(t)
		case "Definitions":
			got, err = p.Definitions(cs...)
			d := booklit.Definitions{}
			for _, c := range cs {
				l, ok := c.(booklit.List)
				if !ok || len(l.Items) != 2 {
					w.fails = true
					break
				}
				d = append(d, booklit.Definition{Subject: l.Items[0], Definition: l.Items[1]})
			}
			w.content = Dump(d)
		case "SinglePage":
			p.SinglePage()
			w.changes["PreventSplitSections"] = "bool true"
			for _, s := range all(sec) {
				others[s] = map[string]string{"SplitSections": "bool false"}
			}
			w.changes["SplitSections"] = "bool false"
		case "SplitSections":
			prevented := false
			for s := sec; s != nil; s = s.Parent {
				prevented = prevented || s.PreventSplitSections
			}
			p.SplitSections()
			w.changes["ResetDepth"] = "bool true"
			if !prevented {
				w.changes["SplitSections"] = "bool true"
			}
		case "Omit":
			p.OmitChildrenFromTableOfContents()
			w.changes["OmitChildrenFromTableOfContents"] = "bool true"
		case "TableOfContents":
			got = p.TableOfContents()
			if t, ok := got.(booklit.TableOfContents); !ok || t.Section != sec {
				h.Fail("table of contents: %T of %p, want %p", got, t.Section, sec)
			}
			w.content = Dump(got)
		default:
			r := reflect.ValueOf(p).MethodByName(fn).Call([]reflect.Value{reflect.ValueOf(&one).Elem()})
			got = r[0].Interface().(booklit.Content)
			w.content = Dump(booklit.Styled{Content: one, Style: booklit.Style(styles[fn])})
		}
		if w.fails != (err != nil) {
			h.Fail("error %v, want one: %v", err, w.fails)
		}
		if w.fails {
			h.Eq("content of a failed call", got, nil)
		} else if w.content != "" {
			h.Eq("content", Dump(got), w.content)
		}
		for _, s := range secs {
			exp := before[s]
			for k, v := range others[s] {
				exp[k] = v
			}
			if s == sec {
				for k, v := range w.changes {
					exp[k] = v
				}
			}
			if d := diff(exp, fieldsOf(s)); d != "" {
				h.Fail("the section (the calling one: %v) is not as expected:\n%s", s == sec, d)
			}
		}
		h.Eq("content after the call", Dump(one)+Dump(two), given)
		for j, c := range cs {
			h.Eq("argument after the call", Dump(c), ds[j])
		}
	}
	c18docs(h)
}

// c18docs calls base functions from a document: what they produce is attached
// to the section and location of the call.
func c18docs(h *H) {
	for i := 0; i < h.N(60) && h.More(); i++ {
		var lines, want []string
		lines = append(lines, "\\title{T}{top}", "")
		for j := 1 + h.pick(5); j > 0; j-- {
			pre := strings.Repeat("x", h.pick(4))
			line, col := len(lines)+1, len(pre)+1
			loc := fmt.Sprintf("%d:%d", line, col)
			a, b := h.name(), h.name()
			var src, w string
			switch h.pick(9) {
			case 0:
				src, w = fmt.Sprintf("\\reference{%s}{%s}", a, b), fmt.Sprintf("ref %s %q at %s", a, b, loc)
			case 1:
				src, w = fmt.Sprintf("\\target{%s}", a), fmt.Sprintf("target %s %q nil at %s", a, a, loc)
			case 2:
				src, w = fmt.Sprintf("\\target{%s}{%s}{%s}", a, b, b+"c"), fmt.Sprintf("target %s %q %q at %s", a, b, b+"c", loc)
			case 3:
				src, w = fmt.Sprintf("\\link{%s}{%s}", a, b), Dump(booklit.Link{Content: booklit.String(a), Target: b})
			case 4:
				src, w = fmt.Sprintf("\\image{%s}{%s}", a, b), Dump(booklit.Image{Path: a, Description: b})
			case 5:
				src, w = fmt.Sprintf("\\italic{%s}", a), Dump(booklit.Styled{Content: booklit.String(a), Style: "italic"})
			case 6:
				src, w = fmt.Sprintf("\\table{\\table-row{%s}{%s}}{\\table-row{%s}}", a, b, b), Dump(booklit.Table{Rows: [][]booklit.Content{{booklit.String(a), booklit.String(b)}, {booklit.String(b)}}})
			case 7:
				src, w = fmt.Sprintf("\\definitions{\\definition{%s}{%s}}", a, b), Dump(booklit.Definitions{{Subject: booklit.String(a), Definition: booklit.String(b)}})
			case 8:
				src, w = fmt.Sprintf("\\ordered-list{%s}{%s}", a, b), Dump(booklit.List{Ordered: true, Items: []booklit.Content{booklit.String(a), booklit.String(b)}})
			}
			lines = append(lines, pre+src, "")
			want = append(want, w)
		}
		files := map[string]string{"d.lit": strings.Join(lines, "\n") + "\n"}
		h.Case("document\n%s", listing(files))
		dir := h.write(files)
		sec, err := (&load.Processor{}).EvaluateFile(nil, filepath.Join(dir, "d.lit"), []booklit.PluginFactory{baselit.NewPlugin})
		os.RemoveAll(dir)
		if err != nil {
			h.Fail("%v", err)
		}
		var got []string
		var walk func(c booklit.Content)
		walk = func(c booklit.Content) {
			switch v := c.(type) {
			case booklit.Sequence:
				for _, x := range v {
					walk(x)
				}
			case booklit.Paragraph:
				for _, x := range v {
					walk(x)
				}
			case booklit.String:
			case *booklit.Reference:
				got = append(got, fmt.Sprintf("ref %s %s at %d:%d", v.TagName, Dump(v.Content), v.Location.Line, v.Location.Col))
				if v.Section != sec {
					h.Fail("the reference is of section %p, not %p", v.Section, sec)
				}
			case *booklit.Target:
				got = append(got, fmt.Sprintf("target %s %s %s at %d:%d", v.TagName, Dump(v.Title), Dump(v.Content), v.Location.Line, v.Location.Col))
			case booklit.Target:
				got = append(got, fmt.Sprintf("target %s %s %s at %d:%d", v.TagName, Dump(v.Title), Dump(v.Content), v.Location.Line, v.Location.Col))
			default:
				got = append(got, Dump(c))
			}
		}
		walk(sec.Body)
		h.Eq("what the calls produce", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
}
