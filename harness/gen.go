package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
)

// ---- writing content down ----

// Dump describes content completely: two pieces of content with the same
// description are the same but for the identity of pointers.
func Dump(c booklit.Content) string {
	var b strings.Builder
	dump(&b, c)
	return b.String()
}

func dumpAll(b *strings.Builder, open string, cs []booklit.Content) {
	b.WriteString(open + "[")
	for i, c := range cs {
		if i > 0 {
			b.WriteString(", ")
		}
		dump(b, c)
	}
	b.WriteString("]")
}

func dumpPartials(b *strings.Builder, ps booklit.Partials) {
	var ks []string
	for k := range ps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b.WriteString("{")
	for _, k := range ks {
		if ps[k] == nil {
			continue
		}
		fmt.Fprintf(b, "%q: ", k)
		dump(b, ps[k])
		b.WriteString("; ")
	}
	b.WriteString("}")
}

func dump(b *strings.Builder, c booklit.Content) {
	switch v := c.(type) {
	case nil:
		b.WriteString("nil")
	case booklit.String:
		fmt.Fprintf(b, "%q", string(v))
	case booklit.Sequence:
		dumpAll(b, "seq", v)
	case booklit.Paragraph:
		dumpAll(b, "para", v)
	case booklit.Preformatted:
		dumpAll(b, "pre", v)
	case booklit.List:
		dumpAll(b, fmt.Sprintf("list(%v)", v.Ordered), v.Items)
	case booklit.Table:
		b.WriteString("table[")
		for _, r := range v.Rows {
			dumpAll(b, "row", r)
		}
		b.WriteString("]")
	case booklit.Definitions:
		b.WriteString("defs[")
		for _, d := range v {
			dump(b, d.Subject)
			b.WriteString(" = ")
			dump(b, d.Definition)
			b.WriteString("; ")
		}
		b.WriteString("]")
	case booklit.Link:
		fmt.Fprintf(b, "link(%q, ", v.Target)
		dump(b, v.Content)
		b.WriteString(")")
	case booklit.Styled:
		fmt.Fprintf(b, "styled(%q, %v, ", string(v.Style), v.Block)
		dump(b, v.Content)
		b.WriteString(", ")
		dumpPartials(b, v.Partials)
		b.WriteString(")")
	case booklit.Target:
		fmt.Fprintf(b, "target(%q, %v, ", v.TagName, v.Location)
		dump(b, v.Title)
		b.WriteString(", ")
		dump(b, v.Content)
		b.WriteString(")")
	case *booklit.Reference:
		if v == nil {
			b.WriteString("nilref")
			return
		}
		fmt.Fprintf(b, "ref(%p, %q, %v, %v, ", v.Section, v.TagName, v.Optional, v.Location)
		dump(b, v.Content)
		b.WriteString(")")
	case booklit.Aux:
		b.WriteString("aux(")
		dump(b, v.Content)
		b.WriteString(")")
	case booklit.Image:
		fmt.Fprintf(b, "image(%q, %q)", v.Path, v.Description)
	case booklit.TableOfContents:
		fmt.Fprintf(b, "toc(%p)", v.Section)
	case *booklit.Section:
		fmt.Fprintf(b, "section(%p)", v)
	case *booklit.Lazy:
		fmt.Fprintf(b, "lazy(%p)", v)
	default:
		fmt.Fprintf(b, "%T(%v)", c, c)
	}
}

// ---- generated content ----

type genOpts struct {
	aux, targets, refs, sections, lazies bool
	nilTitles                            bool
	sec                                  *booklit.Section
	sharedCap                            bool
}

var words = []string{"a", "b", "foo", "bar", "Hello, world!", "x < y & z", "  ", "\t", "ünïcödé", "<b>", "&amp;", "quux\n", "1", "The Quick", "", "日本語"}

func (h *H) word() booklit.String { return booklit.String(words[h.R.Intn(len(words))]) }

func (h *H) loc() ast.Location {
	return ast.Location{Line: 1 + h.R.Intn(40), Col: 1 + h.R.Intn(30), Offset: h.R.Intn(1000)}
}

func (h *H) contents(d, max int, o genOpts) []booklit.Content {
	n := h.R.Intn(max + 1)
	cs := make([]booklit.Content, 0, n+h.R.Intn(4))
	for i := 0; i < n; i++ {
		cs = append(cs, h.content(d-1, o))
	}
	return cs
}

// content makes a random piece of content.
func (h *H) content(d int, o genOpts) booklit.Content {
	if d <= 0 {
		switch h.R.Intn(6) {
		case 0:
			return booklit.Image{Path: oneOf(h, "x.png", "http://e/y"), Description: string(h.word())}
		case 1:
			if o.sections {
				return &booklit.Section{Title: h.word(), Body: h.word(), Parent: o.sec}
			}
		case 2:
			return booklit.TableOfContents{Section: o.sec}
		case 3:
			if o.lazies {
				w := h.word()
				return booklit.LazyFlow(func() (booklit.Content, error) { return w, nil })
			}
		}
		return h.word()
	}
	switch h.R.Intn(14) {
	case 0, 1:
		return booklit.Sequence(h.contents(d, 4, o))
	case 2:
		return booklit.Paragraph(h.contents(d, 4, o))
	case 3:
		return booklit.Preformatted(h.contents(d, 3, o))
	case 4:
		return booklit.List{Items: h.contents(d, 3, o), Ordered: h.chance(2)}
	case 5:
		var t booklit.Table
		for i := h.R.Intn(3); i > 0; i-- {
			t.Rows = append(t.Rows, h.contents(d, 3, o))
		}
		return t
	case 6:
		var ds booklit.Definitions
		for i := h.R.Intn(3); i > 0; i-- {
			ds = append(ds, booklit.Definition{Subject: h.content(d-1, o), Definition: h.content(d-1, o)})
		}
		return ds
	case 7:
		return booklit.Link{Content: h.content(d-1, o), Target: oneOf(h, "http://x", "#y", "")}
	case 8, 9:
		s := booklit.Styled{Style: booklit.Style(oneOf(h, "bold", "italic", "verbatim", "my-style")), Block: h.chance(3), Content: h.content(d-1, o)}
		if h.chance(2) {
			s.Partials = booklit.Partials{}
			for _, k := range []string{"One", "Two", "Three"} {
				if h.chance(2) {
					s.Partials[k] = h.content(d-1, o)
				}
			}
			if h.chance(6) {
				s.Partials["Nil"] = nil
			}
		}
		return s
	case 10:
		if o.targets {
			t := booklit.Target{TagName: fmt.Sprintf("tag-%d", h.R.Intn(30)), Location: h.loc(), Title: h.content(d-1, o)}
			if h.chance(2) {
				t.Content = h.content(d-1, o)
			}
			return t
		}
	case 11:
		if o.refs {
			r := &booklit.Reference{Section: o.sec, TagName: fmt.Sprintf("tag-%d", h.R.Intn(5)), Optional: h.chance(3), Location: h.loc()}
			if h.chance(2) || !o.nilTitles {
				r.Content = h.content(d-1, o)
			}
			return r
		}
	case 12:
		if o.aux {
			return booklit.Aux{Content: h.content(d-1, o)}
		}
	}
	return h.content(d-1, o)
}

// ---- generated section trees ----

// tree makes a random section tree; every section has its position path as
// the name of its primary tag.
func (h *H) tree(parent *booklit.Section, name string, d, max int) *booklit.Section {
	s := &booklit.Section{
		Parent: parent,
		Title:  booklit.String("Title " + name),
		Body:   booklit.Empty,
	}
	s.PrimaryTag = booklit.Tag{Name: name, Title: s.Title, Section: s}
	s.Tags = []booklit.Tag{s.PrimaryTag}
	if d > 0 {
		for i := h.R.Intn(max + 1); i > 0; i-- {
			s.Children = append(s.Children, h.tree(s, fmt.Sprintf("%s-%d", name, len(s.Children)+1), d-1, max))
		}
	}
	return s
}

func all(s *booklit.Section) []*booklit.Section {
	r := []*booklit.Section{s}
	for _, c := range s.Children {
		r = append(r, all(c)...)
	}
	return r
}

// shape describes a section tree.
func shape(s *booklit.Section) string {
	var b strings.Builder
	b.WriteString(s.PrimaryTag.Name)
	if s.SplitSections {
		b.WriteString(" split")
	}
	if s.PreventSplitSections {
		b.WriteString(" single")
	}
	if s.ResetDepth {
		b.WriteString(" reset")
	}
	for _, t := range s.Tags {
		fmt.Fprintf(&b, " #%s/%s", t.Name, t.Anchor)
	}
	if len(s.Children) > 0 {
		b.WriteString(" (")
		for i, c := range s.Children {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(shape(c))
		}
		b.WriteString(")")
	}
	return b.String()
}
