package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
)

func init() {
	register("C09", "section trees of up to four levels with every combination of split and joined sections, further tags and anchors, and generated documents with \\split-sections and \\single-page at any place in any order, inline and included: the URLs of all tags and the pages written by both engines with the text on them", c09)
	register("C10", "the search index written for section trees of up to four levels with split sections, reset depths, further tags with and without anchors and text of their own, and tags of the same name", c10)
}

func (h *H) pageFlags(s *booklit.Section) {
	s.SplitSections = h.chance(2)
	s.ResetDepth = h.chance(4)
	s.PreventSplitSections = h.chance(6)
	s.Body = booklit.String("body of " + s.PrimaryTag.Name + ".")
	for i := h.pick(3); i > 0; i-- {
		t := booklit.Tag{Name: fmt.Sprintf("%s-t%d", s.PrimaryTag.Name, i), Title: booklit.String("T " + h.name()), Section: s}
		if h.chance(2) {
			t.Anchor = t.Name
		} else if h.chance(3) {
			t.Anchor = "other"
		}
		if h.chance(2) {
			t.Content = h.content(1, genOpts{})
		} else if h.chance(4) {
			t.Content = booklit.Empty
		}
		s.Tags = append(s.Tags, t)
	}
	for _, c := range s.Children {
		h.pageFlags(c)
	}
}

func ownPage(s *booklit.Section) bool { return s.Parent == nil || s.Parent.SplitSections }

// pageFile is the name of the page a section is on.
func pageFile(s *booklit.Section, ext string) string {
	for !ownPage(s) {
		s = s.Parent
	}
	return s.PrimaryTag.Name + "." + ext
}

func wantURL(t booklit.Tag, ext string) string {
	a := t.Anchor
	if a == "" && !ownPage(t.Section) {
		a = t.Section.PrimaryTag.Name
	}
	if a != "" {
		a = "#" + a
	}
	return pageFile(t.Section, ext) + a
}

func (h *H) engine() (render.Engine, string) {
	if h.chance(2) {
		return render.NewHTMLEngine(), "html"
	}
	ext := oneOf(h, "md", "txt")
	return render.NewTextEngine(ext), ext
}

// checkPages renders a tree and checks the pages.
func (h *H) checkPages(root *booklit.Section, e render.Engine, ext string, mark func(*booklit.Section) string) {
	dir := h.write(nil)
	defer os.RemoveAll(dir)
	if err := (render.Writer{Engine: e, Destination: dir}).WriteSection(root); err != nil {
		h.Fail("rendering failed: %v", err)
	}
	want := map[string][]string{}
	for _, s := range all(root) {
		n := pageFile(s, ext)
		want[n] = append(want[n], mark(s))
	}
	fs, _ := os.ReadDir(dir)
	var got, ns []string
	for _, f := range fs {
		got = append(got, f.Name())
	}
	for n := range want {
		ns = append(ns, n)
	}
	sort.Strings(got)
	sort.Strings(ns)
	h.Eq("pages written", got, ns)
	for _, n := range ns {
		b, _ := os.ReadFile(filepath.Join(dir, n))
		on := map[string]bool{}
		for _, m := range want[n] {
			on[m] = true
			if strings.Count(string(b), m) != 1 {
				h.Fail("page %s: has %q %d times", n, m, strings.Count(string(b), m))
			}
		}
		for _, s := range all(root) {
			if m := mark(s); !on[m] && strings.Contains(string(b), m) {
				h.Fail("page %s: has %q, which belongs on %s", n, m, pageFile(s, ext))
			}
		}
	}
}

func c09(h *H) {
	for i := 0; i < h.N(300) && h.More(); i++ {
		root := h.tree(nil, "r", h.pick(4), 3)
		h.pageFlags(root)
		e, ext := h.engine()
		h.Case("%s engine on tree %s", ext, shape(root))
		for _, s := range all(root) {
			for _, t := range s.Tags {
				h.Eq("URL of "+t.Name, e.URL(t), wantURL(t, ext))
			}
		}
		h.checkPages(root, e, ext, func(s *booklit.Section) string { return "body of " + s.PrimaryTag.Name + "." })
	}
	for i := 0; i < h.N(400) && h.More(); i++ {
		d := &splitDoc{h: h, files: map[string]string{}, single: map[string]bool{}, split: map[string]bool{}, parent: map[string]string{}}
		d.files["s1.lit"] = d.section("", 3)
		h.Case("%s", listing(d.files))
		root, err := h.load(d.files, "s1.lit")
		if err != nil {
			h.Fail("loading failed: %v", err)
		}
		for _, s := range all(root) {
			n := s.PrimaryTag.Name
			single := false
			for p := n; p != ""; p = d.parent[p] {
				single = single || d.single[p]
			}
			h.Eq("section "+n+" is split", s.SplitSections, d.split[n] && !single)
		}
		e, ext := h.engine()
		for _, s := range all(root) {
			for _, t := range s.Tags {
				h.Eq("URL of "+t.Name, e.URL(t), wantURL(t, ext))
			}
		}
		h.checkPages(root, e, ext, func(s *booklit.Section) string { return "body-of-" + s.PrimaryTag.Name + "-" })
	}
}

type splitDoc struct {
	h             *H
	n             int
	files         map[string]string
	single, split map[string]bool
	parent        map[string]string
}

func (d *splitDoc) section(parent string, depth int) string {
	d.n++
	name := fmt.Sprintf("s%d", d.n)
	d.parent[name] = parent
	h := d.h
	parts := []string{"body-of-" + name + "-"}
	if h.chance(3) {
		parts = append(parts, "\\split-sections")
		d.split[name] = true
		if h.chance(4) {
			parts = append(parts, "\\split-sections")
		}
	}
	if h.chance(4) {
		parts = append(parts, "\\single-page")
		d.single[name] = true
	}
	if depth > 0 {
		for i := h.pick(4); i > 0; i-- {
			f := fmt.Sprintf("s%d.lit", d.n+1)
			s := d.section(name, depth-1)
			if h.chance(3) {
				d.files[f] = s
				parts = append(parts, "\\include-section{"+f+"}")
			} else {
				parts = append(parts, "\\section{\n"+indent(s)+"}")
			}
		}
	}
	h.R.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return "\\title{Title " + name + "}{" + name + "}\n\n" + strings.Join(parts, "\n\n") + "\n"
}

func indent(s string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.TrimSpace(l) != "" {
			b.WriteString("  ")
		}
		b.WriteString(l)
	}
	return b.String()
}

func c10(h *H) {
	for i := 0; i < h.N(400) && h.More(); i++ {
		root := h.tree(nil, "r", h.pick(4), 3)
		h.pageFlags(root)
		ss := all(root)
		if h.chance(4) {
			s := ss[h.pick(len(ss))]
			s.PrimaryTag = s.Tags[len(s.Tags)-1]
		}
		e, ext := h.engine()
		h.Case("%s engine on tree %s", ext, shape(root))
		type entry struct {
			Location, Title, Text, SectionTag string
			Depth                             int
		}
		want := map[string]entry{}
		for _, s := range ss {
			for _, t := range s.Tags {
				x := entry{Location: wantURL(t, ext), Title: t.Title.String(), SectionTag: s.PrimaryTag.Name}
				if t.Content != nil {
					x.Text = t.Content.String()
				} else {
					x.Text = s.Body.String()
				}
				for p := s.Parent; p != nil; p = p.Parent {
					x.Depth++
				}
				want[t.Name] = x
			}
		}
		dir := h.write(nil)
		if err := (render.Writer{Engine: e, Destination: dir}).WriteSearchIndex(root, "index.json"); err != nil {
			h.Fail("writing the index failed: %v", err)
		}
		b, err := os.ReadFile(filepath.Join(dir, "index.json"))
		os.RemoveAll(dir)
		if err != nil {
			h.Fail("no index: %v", err)
		}
		var raw map[string]struct {
			Location   string `json:"location"`
			Title      string `json:"title"`
			Text       string `json:"text"`
			Depth      int    `json:"depth"`
			SectionTag string `json:"section_tag"`
		}
		if err := json.Unmarshal(b, &raw); err != nil {
			h.Fail("the index is no JSON: %v", err)
		}
		got := map[string]entry{}
		for k, v := range raw {
			got[k] = entry{v.Location, v.Title, v.Text, v.SectionTag, v.Depth}
		}
		h.Eq("the index", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
	}
}
