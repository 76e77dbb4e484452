package main

import (
	"fmt"
	"strings"

	"github.com/vito/booklit"
)

func init() {
	register("C02", "random histories of up to 12 joins over random content, sharing prefixes with spare capacity; distinct histories", c02)
	register("C11", "random content trees of depth up to 4 with auxiliary pieces everywhere; distinct trees", c11)
	register("C08", "random section trees of depth up to 4 with random split markers and anchors, every section and pair of sections; distinct trees", c08)
}

// pieces are the pieces which content consists of, nested sequences opened.
func pieces(c booklit.Content) []string {
	switch v := c.(type) {
	case nil:
		return nil
	case booklit.Sequence:
		var r []string
		for _, x := range v {
			r = append(r, pieces(x)...)
		}
		return r
	}
	return []string{Dump(c)}
}

func c02(h *H) {
	o := genOpts{aux: true, targets: true, refs: true, sections: true, lazies: true}
	for i := 0; i < h.N(1500) && h.More(); i++ {
		var pool []booklit.Content
		for j := 0; j < 4; j++ {
			pool = append(pool, h.content(2, o))
		}
		pool = append(pool, nil, booklit.Empty, booklit.Sequence{}, booklit.String(""), booklit.Sequence(h.contents(1, 3, o)))
		var snap []string
		for _, p := range pool {
			snap = append(snap, Dump(p))
		}
		var hist []string
		for j := 0; j < 12; j++ {
			a := h.pick(len(pool))
			n := h.R.Intn(4)
			var rest []booklit.Content
			args := []int{a}
			for k := 0; k < n; k++ {
				b := h.pick(len(pool))
				rest = append(rest, pool[b])
				args = append(args, b)
			}
			hist = append(hist, fmt.Sprintf("%d=Append%v", len(pool), args))
			h.Case("pool %s; %s", strings.Join(snap[:9], " | "), strings.Join(hist, "; "))
			var want []string
			for _, x := range args {
				want = append(want, pieces(pool[x])...)
			}
			wantEmpty := true
			for _, x := range args {
				if pool[x] != nil {
					wantEmpty = false
				}
			}
			got := booklit.Append(pool[a], rest...)
			if !wantEmpty && got == nil {
				h.Fail("the result is absent although content was joined")
			}
			h.Eq("pieces of the result", strings.Join(pieces(got), " | "), strings.Join(want, " | "))
			pool = append(pool, got)
			snap = append(snap, Dump(got))
			for k := range pool {
				if d := Dump(pool[k]); d != snap[k] {
					h.Fail("existing content %d changed:\n before %s\n after  %s", k, snap[k], d)
				}
			}
		}
	}
}

// strip is content without its auxiliary pieces.
func strip(c booklit.Content) booklit.Content {
	list := func(cs []booklit.Content) []booklit.Content {
		var r []booklit.Content
		for _, x := range cs {
			if _, ok := x.(booklit.Aux); ok {
				continue
			}
			r = append(r, strip(x))
		}
		return r
	}
	switch v := c.(type) {
	case booklit.Sequence:
		return booklit.Sequence(list(v))
	case booklit.Paragraph:
		return booklit.Paragraph(list(v))
	case booklit.Preformatted:
		return booklit.Preformatted(list(v))
	case booklit.List:
		return booklit.List{Ordered: v.Ordered, Items: list(v.Items)}
	case booklit.Table:
		var t booklit.Table
		for _, r := range v.Rows {
			t.Rows = append(t.Rows, list(r))
		}
		return t
	case booklit.Definitions:
		var ds booklit.Definitions
		for _, d := range v {
			ds = append(ds, booklit.Definition{Subject: strip(d.Subject), Definition: strip(d.Definition)})
		}
		return ds
	case booklit.Link:
		return booklit.Link{Target: v.Target, Content: strip(v.Content)}
	case booklit.Styled:
		s := booklit.Styled{Style: v.Style, Block: v.Block, Content: strip(v.Content)}
		for k, p := range v.Partials {
			if s.Partials == nil {
				s.Partials = booklit.Partials{}
			}
			s.Partials[k] = strip(p)
		}
		return s
	case booklit.Target:
		return booklit.Target{TagName: v.TagName, Location: v.Location, Title: strip(v.Title), Content: strip(v.Content)}
	case *booklit.Reference:
		return &booklit.Reference{Section: v.Section, TagName: v.TagName, Optional: v.Optional, Location: v.Location, Content: strip(v.Content)}
	case booklit.Aux:
		return strip(v.Content)
	}
	return c
}

func c11(h *H) {
	for i := 0; i < h.N(6000) && h.More(); i++ {
		o := genOpts{aux: true, targets: true, refs: true, sections: true, lazies: true, nilTitles: h.chance(2), sec: &booklit.Section{}}
		c := h.content(1+h.R.Intn(4), o)
		before := Dump(c)
		h.Case("StripAux(%s)", before)
		var got booklit.Content
		if p := Try(func() { got = booklit.StripAux(c) }); p != nil {
			h.Fail("%v", p)
		}
		want := Dump(strip(c))
		h.Eq("stripped", Dump(got), want)
		h.Eq("the original", Dump(c), before)
		// stripping again changes nothing
		h.Eq("stripped twice", Dump(booklit.StripAux(got)), want)
	}
}

func c08(h *H) {
	for i := 0; i < h.N(500) && h.More(); i++ {
		root := h.tree(nil, "r", 1+h.R.Intn(4), 3)
		ss := all(root)
		for _, s := range ss {
			s.SplitSections = h.chance(3)
			s.ResetDepth = h.chance(3)
			for k := h.R.Intn(3); k > 0; k-- {
				s.Tags = append(s.Tags, booklit.Tag{Name: fmt.Sprint("t", k), Section: s, Anchor: oneOf(h, "", "a", "b")})
			}
		}
		h.Case("tree %s", shape(root))
		name := func(s *booklit.Section) string {
			if s == nil {
				return "none"
			}
			return s.PrimaryTag.Name
		}
		var walk func(s *booklit.Section, num string, depth, pdepth int)
		nums := map[string]string{}
		walk = func(s *booklit.Section, num string, depth, pdepth int) {
			w := func(f string) string { return f + " of " + name(s) }
			h.Eq(w("Number"), s.Number(), num)
			if o, ok := nums[num]; ok {
				h.Fail("%s and %s have the same number %s", o, name(s), num)
			}
			nums[num] = name(s)
			h.Eq(w("Depth"), s.Depth(), depth)
			h.Eq(w("PageDepth"), s.PageDepth(), pdepth)
			h.Eq(w("Top"), name(s.Top()), name(root))
			var prev, next *booklit.Section
			if s.Parent != nil {
				prev = s.Parent
				for k, x := range s.Parent.Children {
					if x == s && k > 0 {
						prev = s.Parent.Children[k-1]
					}
				}
			}
			for x := s; x.Parent != nil && next == nil; x = x.Parent {
				for k, y := range x.Parent.Children {
					if y == x && k+1 < len(x.Parent.Children) {
						next = x.Parent.Children[k+1]
					}
				}
			}
			h.Eq(w("Prev"), name(s.Prev()), name(prev))
			h.Eq(w("NextSibling"), name(s.NextSibling()), name(next))
			if s.SplitSections && len(s.Children) > 0 {
				next = s.Children[0]
			}
			h.Eq(w("Next"), name(s.Next()), name(next))
			below := map[*booklit.Section]bool{}
			for _, x := range all(s) {
				below[x] = true
			}
			for _, x := range ss {
				h.Eq(w("Contains "+name(x)), s.Contains(x), below[x])
				h.Eq(w("IsOrHasChild "+name(x)), s.IsOrHasChild(x), x == s || x.Parent == s)
			}
			var anch []string
			for _, t := range s.Tags {
				if t.Anchor != "" {
					anch = append(anch, t.Name+t.Anchor)
				}
			}
			var got []string
			for _, t := range s.AnchorTags() {
				got = append(got, t.Name+t.Anchor)
			}
			h.Eq(w("AnchorTags"), got, anch)
			var has func(s *booklit.Section) bool
			has = func(s *booklit.Section) bool {
				for _, t := range s.Tags {
					if t.Anchor != "" {
						return true
					}
				}
				if s.SplitSections {
					return false
				}
				for _, c := range s.Children {
					if has(c) {
						return true
					}
				}
				return false
			}
			h.Eq(w("HasAnchors"), s.HasAnchors(), has(s))
			for k, c := range s.Children {
				n := fmt.Sprint(k + 1)
				if num != "" {
					n = num + "." + n
				}
				pd := pdepth + 1
				if s.ResetDepth {
					pd = 0
				}
				walk(c, n, depth+1, pd)
			}
		}
		walk(root, "", 0, 0)
		if h.R.Intn(2) == 0 {
			h.Eq("a foreign section", root.Contains(&booklit.Section{}), false)
		}
	}
}
