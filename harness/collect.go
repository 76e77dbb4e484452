package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/stages"
)

func init() {
	register("C06", "random section trees whose titles, bodies and partials hold targets nested in every kind of content, given title tags beforehand, collected; and documents with targets in titles, arguments, lists, tables, partials and nested and included sections, loaded from files", c06)
}

// targetsIn lists the targets in content in the order they are written.
func targetsIn(c booklit.Content) []booklit.Target {
	var r []booklit.Target
	each := func(cs []booklit.Content) {
		for _, x := range cs {
			r = append(r, targetsIn(x)...)
		}
	}
	switch v := c.(type) {
	case booklit.Target:
		return []booklit.Target{v}
	case booklit.Sequence:
		each(v)
	case booklit.Paragraph:
		each(v)
	case booklit.Preformatted:
		each(v)
	case booklit.List:
		each(v.Items)
	case booklit.Table:
		for _, row := range v.Rows {
			each(row)
		}
	case booklit.Definitions:
		for _, d := range v {
			each([]booklit.Content{d.Subject, d.Definition})
		}
	case booklit.Link:
		return targetsIn(v.Content)
	case booklit.Aux:
		return targetsIn(v.Content)
	case booklit.Styled:
		r = targetsIn(v.Content)
		for _, p := range v.Partials {
			r = append(r, targetsIn(p)...)
		}
	}
	return r
}

// fewer leaves at most one partial everywhere, so that the order is certain.
func fewer(c booklit.Content) {
	each := func(cs []booklit.Content) {
		for _, x := range cs {
			fewer(x)
		}
	}
	switch v := c.(type) {
	case booklit.Sequence:
		each(v)
	case booklit.Paragraph:
		each(v)
	case booklit.Preformatted:
		each(v)
	case booklit.List:
		each(v.Items)
	case booklit.Table:
		for _, row := range v.Rows {
			each(row)
		}
	case booklit.Definitions:
		for _, d := range v {
			each([]booklit.Content{d.Subject, d.Definition})
		}
	case booklit.Link:
		fewer(v.Content)
	case booklit.Aux:
		fewer(v.Content)
	case booklit.Styled:
		fewer(v.Content)
		one(v.Partials)
	}
}

func one(ps booklit.Partials) {
	var ks []string
	for k := range ps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i > 0 {
			delete(ps, k)
		} else {
			fewer(ps[k])
		}
	}
}

func tagText(t booklit.Tag) string {
	return fmt.Sprintf("#%s anchor %s %s %s of %p at %v", t.Name, t.Anchor, Dump(t.Title), Dump(t.Content), t.Section, t.Location)
}

func tagTexts(ts []booklit.Tag, sorted bool) string {
	var r []string
	for _, t := range ts {
		r = append(r, tagText(t))
	}
	if sorted {
		sort.Strings(r)
	}
	return strings.Join(r, "\n")
}

func c06(h *H) {
	for i := 0; i < h.N(1500) && h.More(); i++ {
		ordered := h.chance(2)
		o := genOpts{aux: true, targets: true, refs: true, lazies: true}
		root := h.tree(nil, "r", h.pick(4), 3)
		want := map[*booklit.Section]string{}
		desc := ""
		for _, s := range all(root) {
			o.sec = s
			s.Title = h.content(h.pick(3), o)
			s.Body = h.content(1+h.pick(4), o)
			if h.chance(2) {
				s.Partials = booklit.Partials{}
				for _, k := range []string{"A", "B", "C"} {
					if h.chance(2) {
						s.Partials[k] = h.content(h.pick(3), o)
					}
				}
				if h.chance(4) {
					s.Partials["N"] = nil
				}
			}
			if ordered {
				fewer(s.Title)
				fewer(s.Body)
				one(s.Partials)
			}
			for j := h.pick(3); j > 0; j-- {
				s.Tags = append(s.Tags, booklit.Tag{Name: h.name(), Section: s, Title: s.Title})
			}
			ts := append([]booklit.Tag{}, s.Tags...)
			targets := append(targetsIn(s.Title), targetsIn(s.Body)...)
			for _, p := range s.Partials {
				targets = append(targets, targetsIn(p)...)
			}
			for _, t := range targets {
				ts = append(ts, booklit.Tag{Name: t.TagName, Anchor: t.TagName, Title: t.Title, Content: t.Content, Location: t.Location, Section: s})
			}
			want[s] = tagTexts(ts, !ordered)
			desc += fmt.Sprintf("%s: title %s, body %s, partials ", s.PrimaryTag.Name, Dump(s.Title), Dump(s.Body))
			var b strings.Builder
			dumpPartials(&b, s.Partials)
			desc += b.String() + "\n"
		}
		h.Case("collecting %s\n%s", shape(root), clip(desc, 3000))
		start := root
		if ss := all(root); h.chance(4) {
			// only a part of the tree
			start = ss[h.pick(len(ss))]
			in := map[*booklit.Section]bool{}
			for _, s := range all(start) {
				in[s] = true
			}
			for _, s := range ss {
				if !in[s] {
					want[s] = tagTexts(s.Tags, !ordered)
				}
			}
		}
		if err := start.Visit(&stages.Collect{Section: start}); err != nil {
			h.Fail("%v", err)
		}
		for _, s := range all(root) {
			h.Eq("the tags of section "+s.PrimaryTag.Name, tagTexts(s.Tags, !ordered), want[s])
		}
	}
	for i := 0; i < h.N(60) && h.More(); i++ {
		h.c06doc()
	}
}

// c06doc loads a document written down together with its tags.
func (h *H) c06doc() {
	files := map[string]string{}
	n := 0
	var section func(file string, d int) (string, []string)
	section = func(file string, d int) (string, []string) {
		var tags, below []string
		title := h.name()
		src := "\\title{" + title
		tags = append(tags, title)
		target := func() string {
			n++
			t := fmt.Sprintf("t%d", n)
			tags = append(tags, t+"#"+t)
			return oneOf(h, "\\target{"+t+"}", "\\target{"+t+"}{Title "+t+"}", "\\target{"+t+"}{Title "+t+"}{Content}")
		}
		if h.chance(3) {
			src += target()
			tags = append([]string{}, tags...)
		}
		src += "}{" + title + "}\n\n"
		var side []string
		for j := h.pick(6); j > 0; j-- {
			switch h.pick(11) {
			case 0:
				src += "some " + target() + " text " + target() + "\n\n"
			case 1:
				src += "\\list{" + target() + "}{\\bold{" + target() + "}}\n\n"
			case 2:
				src += "\\table{\\table-row{" + target() + "}{" + target() + "}}{\\table-row{x}{" + target() + "}}\n\n"
			case 3:
				src += "\\definitions{\\definition{" + target() + "}{" + target() + "}}\n\n"
			case 4:
				src += "\\link{" + target() + "}{http://x}\n\n"
			case 5:
				src += "\\aux{" + target() + "}\n\n"
			case 6:
				src += "\\code{{\n" + target() + "\n}}\n\n"
			case 7:
				if side == nil {
					was := tags
					src += "\\set-partial{P}{" + target() + "}\n\n"
					side = append([]string{}, tags[len(was):]...)
					tags = was
				}
			case 8, 9:
				if d > 0 {
					sub, ts := section(file, d-1)
					below = append(below, ts...)
					src += "\\section{\n" + sub + "\n}\n\n"
				}
			case 10:
				if d > 0 {
					f := h.name() + ".lit"
					sub, ts := section(f, d-1)
					files[f] = sub
					below = append(below, ts...)
					src += "\\include-section{" + f + "}\n\n"
				}
			}
		}
		tags = append(tags, side...)
		return src, append([]string{strings.Join(tags, " ")}, below...)
	}
	src, want := section("d.lit", 2)
	files["d.lit"] = src
	h.Case("%s", listing(files))
	sec, err := h.load(files, "d.lit")
	if err != nil {
		h.Fail("%v", err)
	}
	var got []string
	for _, s := range all(sec) {
		var r []string
		for _, t := range s.Tags {
			if t.Section != s {
				h.Fail("tag %s of section %s is of another section", t.Name, s.PrimaryTag.Name)
			}
			x := t.Name
			if t.Anchor != "" {
				x += "#" + t.Anchor
			}
			r = append(r, x)
		}
		got = append(got, strings.Join(r, " "))
	}
	h.Eq("the tags of all sections", strings.Join(got, "\n"), strings.Join(want, "\n"))
}
