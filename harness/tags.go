package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
)

func init() {
	register("C05", "random titles (nested content with auxiliary pieces, symbols, every kind of whitespace) with 0 to 3 given names, on sections with prior tags, titled once or twice; distinct titles", c05)
	register("C07", "random section trees with tags of up to 6 names spread and repeated over them, references from every section; distinct trees", c07)
}

// tagName is the tag derived from the text of a title.
func tagName(text string) string {
	text = strings.ReplaceAll(text, " & ", " and ")
	text = regexp.MustCompile(`[\t\n\f\r ]+`).ReplaceAllString(text, "-")
	r := ""
	for _, c := range text {
		switch {
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9', c == '_', c == '-':
			r += string(c)
		case c >= 'A' && c <= 'Z':
			r += string(c - 'A' + 'a')
		}
	}
	return r
}

func showTag(t booklit.Tag) string {
	s := ""
	if t.Section != nil {
		s = fmt.Sprintf("%p", t.Section)
	}
	return fmt.Sprintf("#%s(%s @%s %q %s %v)", t.Name, Dump(t.Title), s, t.Anchor, Dump(t.Content), t.Location)
}

func showTags(ts []booklit.Tag) string {
	var r []string
	for _, t := range ts {
		r = append(r, showTag(t))
	}
	return strings.Join(r, " ")
}

func c05(h *H) {
	titles := []string{"Hello, World!", "a & b", "a  &  b", " & ", "A&B", "tabs\tand \n lines", "under_score-dash", "Ünï çödé 日本", "", "   ", "x & y & z", "UPPER lower 123", "a.b.c", "non\u00a0breaking", "--", "v1.2 (beta) & more"}
	o := genOpts{aux: true, targets: true, sections: true, lazies: false}
	for i := 0; i < h.N(4000) && h.More(); i++ {
		var title booklit.Content
		switch h.R.Intn(4) {
		case 0:
			title = booklit.String(oneOf(h, titles...))
		case 1:
			title = booklit.Sequence{booklit.String(oneOf(h, titles...)), booklit.Aux{Content: booklit.String(oneOf(h, titles...))}, booklit.String(oneOf(h, titles...))}
		default:
			title = h.content(1+h.R.Intn(2), o)
		}
		if title == booklit.Empty {
			title = booklit.String("x")
		}
		sec := &booklit.Section{Path: oneOf(h, "", "a/b.lit"), Title: booklit.Empty, Body: booklit.Empty, InvokeLocation: h.loc()}
		if sec.Path == "" && h.chance(2) {
			sec.Parent = &booklit.Section{Path: "p.lit"}
		}
		if h.chance(3) {
			sec.Tags = []booklit.Tag{{Name: "old"}}
		}
		var names []string
		for k := h.R.Intn(4); k > 0; k-- {
			names = append(names, oneOf(h, "one", "two", "Three Four", "", "one"))
		}
		loc := sec.InvokeLocation
		p := baselit.NewPlugin(sec).(baselit.Plugin)
		direct := h.chance(3)
		h.Case("title %s, names %q, location %v, direct %v", Dump(title), names, loc, direct)
		before := Dump(title)
		var err error
		if direct {
			sec.SetTitle(title, loc, names...)
		} else {
			err = p.Title(title, names...)
		}
		if err != nil {
			h.Fail("setting the title of an untitled section fails: %v", err)
		}
		want := names
		if len(names) == 0 {
			want = []string{tagName(strip(title).String())}
			if _, ok := title.(booklit.Aux); ok {
				want = []string{tagName(strip(title).String())}
			}
		}
		var tags []booklit.Tag
		for _, n := range want {
			tags = append(tags, booklit.Tag{Name: n, Title: title, Section: sec, Location: loc})
		}
		h.Eq("tags", showTags(sec.Tags), showTags(tags))
		h.Eq("primary tag", showTag(sec.PrimaryTag), showTag(tags[0]))
		h.Eq("title", Dump(sec.Title), before)
		h.Eq("title location", sec.TitleLocation, loc)
		// a second title
		sec.InvokeLocation = h.loc()
		state := fmt.Sprintf("%s %s %s %v %s", Dump(sec.Title), showTags(sec.Tags), showTag(sec.PrimaryTag), sec.TitleLocation, Dump(sec.Body))
		err = p.Title(booklit.String("Again"), oneOf(h, []string{}, []string{"again"})...)
		var twice booklit.TitleTwiceError
		if !errors.As(err, &twice) {
			h.Fail("a second title is not refused: %v", err)
		}
		path := sec.Path
		if path == "" && sec.Parent != nil {
			path = "p.lit"
		}
		h.Eq("place of the first title", twice.TitleLocation, booklit.ErrorLocation{FilePath: path, NodeLocation: loc, Length: 6})
		h.Eq("place of the second title", twice.ErrorLocation, booklit.ErrorLocation{FilePath: path, NodeLocation: sec.InvokeLocation, Length: 6})
		h.Eq("the section after a second title", fmt.Sprintf("%s %s %s %v %s", Dump(sec.Title), showTags(sec.Tags), showTag(sec.PrimaryTag), sec.TitleLocation, Dump(sec.Body)), state)
		// other tags are added at the end
		n := len(sec.Tags)
		sec.SetTag("extra", booklit.String("e"), loc)
		sec.SetTag("extra2", booklit.String("e"), loc, "anch")
		sec.SetTagAnchored("extra3", booklit.String("e"), loc, booklit.String("c"), "anch3")
		tags = append(tags[:n:n], booklit.Tag{Name: "extra", Title: booklit.String("e"), Section: sec, Location: loc},
			booklit.Tag{Name: "extra2", Title: booklit.String("e"), Section: sec, Location: loc, Anchor: "anch"},
			booklit.Tag{Name: "extra3", Title: booklit.String("e"), Section: sec, Location: loc, Anchor: "anch3", Content: booklit.String("c")})
		h.Eq("tags with further ones", showTags(sec.Tags), showTags(tags))
	}
	c05docs(h)
}

// c05docs sets titles in documents.
func c05docs(h *H) {
	for i := 0; i < h.N(60) && h.More(); i++ {
		l1 := h.R.Intn(3)
		t := oneOf(h, "Hello \\aux{Part} World", "A & B!", "One\\italic{ Two}", "Plain")
		want := map[string]string{"Hello \\aux{Part} World": "hello--world", "A & B!": "a-and-b", "One\\italic{ Two}": "one-two", "Plain": "plain"}[t]
		if want == "hello--world" {
			want = tagName("Hello  World")
		}
		names := oneOf(h, nil, []string{"n1"}, []string{"n1", "n2", "n3"})
		src := strings.Repeat("\n", l1) + "\\title{" + t + "}"
		for _, n := range names {
			src += "{" + n + "}"
		}
		twice := h.chance(2)
		l2 := l1 + 2
		if twice {
			src += "\n\n\\title{Second}"
		}
		src += "\n\nbody\n"
		h.Case("document %q", src)
		sec, err := h.load(map[string]string{"a.lit": src}, "a.lit")
		if twice {
			var tw booklit.TitleTwiceError
			if !errors.As(err, &tw) {
				h.Fail("a second title is not refused: %v", err)
			}
			h.Eq("lines", fmt.Sprint(tw.TitleLocation.NodeLocation.Line, tw.ErrorLocation.NodeLocation.Line), fmt.Sprint(l1+1, l2+1))
			continue
		}
		if err != nil {
			h.Fail("%v", err)
		}
		var got []string
		for _, t := range sec.Tags {
			got = append(got, t.Name)
		}
		if names == nil {
			names = []string{want}
		}
		h.Eq("tags", got, names)
		h.Eq("primary tag", sec.PrimaryTag.Name, names[0])
		h.Eq("line of the title", sec.TitleLocation.Line, l1+1)
	}
}

func c07(h *H) {
	names := []string{"a", "b", "c", "foo", "foo-bar", "d"}
	for i := 0; i < h.N(400) && h.More(); i++ {
		root := h.tree(nil, "r", 1+h.R.Intn(3), 3)
		ss := all(root)
		rare := h.chance(2)
		for k, s := range ss {
			if h.chance(2) {
				s.Path = fmt.Sprintf("f%d.lit", k)
			}
			for j := h.R.Intn(3); j > 0; j-- {
				n := oneOf(h, names...)
				if rare {
					n = fmt.Sprintf("u%d-%d", k, j)
				}
				s.Tags = append(s.Tags, booklit.Tag{Name: n, Title: booklit.String("T" + n), Section: s, Anchor: oneOf(h, "", "x"), Location: ast.Location{Line: k + 1, Col: j + 1}})
			}
		}
		root.Path = "root.lit"
		h.Case("tree %s", shape(root))
		every := map[string][]booklit.Tag{}
		for _, s := range ss {
			for _, t := range s.Tags {
				every[t.Name] = append(every[t.Name], t)
			}
		}
		path := func(s *booklit.Section) string {
			for s.Path == "" {
				s = s.Parent
			}
			return s.Path
		}
		var asked []string
		for n := range every {
			asked = append(asked, n)
		}
		sort.Strings(asked)
		asked = append(asked, "nowhere", "fo")
		for _, s := range ss {
			for _, n := range asked {
				if len(asked) > 14 && !h.chance(3) {
					continue
				}
				sorted := func(ts []booklit.Tag) string {
					var r []string
					for _, t := range ts {
						r = append(r, showTag(t))
					}
					sort.Strings(r)
					return strings.Join(r, " ")
				}
				h.Eq("tags named "+n+" found from "+s.PrimaryTag.Name, sorted(s.FindTag(n)), sorted(every[n]))
				for _, opt := range []bool{false, true} {
					for _, allow := range []bool{false, true} {
						own := booklit.Content(nil)
						if h.chance(2) {
							own = booklit.String("own")
						}
						r := &booklit.Reference{Section: s, TagName: n, Optional: opt, Location: h.loc(), Content: own}
						h.Case("reference to %s in %s (optional %v, broken allowed %v, content %v); tree %s", n, s.PrimaryTag.Name, opt, allow, Dump(own), shape(root))
						booklit.AllowBrokenReferences = allow
						for again := 0; again < 2; again++ {
							tag, err := r.Tag()
							disp, derr := r.Display()
							h.c07result(r, s, n, every[n], opt, allow, own, tag, err, disp, derr, path)
						}
						booklit.AllowBrokenReferences = false
					}
				}
			}
		}
	}
}

func (h *H) c07result(r *booklit.Reference, s *booklit.Section, n string, ts []booklit.Tag, opt, allow bool, own booklit.Content, tag *booklit.Tag, err error, disp booklit.Content, derr error, path func(*booklit.Section) string) {
	loc := booklit.ErrorLocation{FilePath: path(s), NodeLocation: r.Location, Length: 10}
	if own != nil {
		h.Eq("display", Dump(disp), Dump(own))
		if derr != nil {
			h.Fail("display of own content fails: %v", derr)
		}
	}
	switch {
	case len(ts) == 1:
		if err != nil || tag == nil {
			h.Fail("the reference does not resolve: %v", err)
		}
		h.Eq("tag", showTag(*tag), showTag(ts[0]))
		if own == nil {
			h.Eq("display", Dump(disp), Dump(ts[0].Title))
		}
	case len(ts) == 0 && opt:
		if err != nil || tag != nil {
			h.Fail("an optional reference with no match: tag %v, error %v", tag, err)
		}
		if own == nil && (disp != nil || derr != nil) {
			h.Fail("an optional reference with no match displays %v, %v", disp, derr)
		}
	case allow:
		if err != nil || tag == nil {
			h.Fail("a broken reference which is allowed: tag %v, error %v", tag, err)
		}
		h.Eq("placeholder", fmt.Sprint(tag.Name, tag.Anchor, tag.Location), fmt.Sprint(n, "broken", r.Location))
		if tag.Section != s {
			h.Fail("the placeholder is in another section")
		}
	case len(ts) == 0:
		var u booklit.UnknownTagError
		if !errors.As(err, &u) || tag != nil {
			h.Fail("a broken reference: tag %v, error %v", tag, err)
		}
		h.Eq("error", fmt.Sprint(u.TagName, u.ErrorLocation), fmt.Sprint(n, loc))
		if own == nil && derr == nil {
			h.Fail("a broken reference is displayed")
		}
	default:
		var a booklit.AmbiguousReferenceError
		if !errors.As(err, &a) || tag != nil {
			h.Fail("an ambiguous reference: tag %v, error %v", tag, err)
		}
		var got, want []string
		for _, l := range a.DefinedLocations {
			got = append(got, fmt.Sprint(l.FilePath, l.NodeLocation))
		}
		for _, t := range ts {
			want = append(want, fmt.Sprint(path(t.Section), t.Location))
		}
		sort.Strings(got)
		sort.Strings(want)
		h.Eq("definitions", got, want)
		h.Eq("error", fmt.Sprint(a.TagName, a.ErrorLocation), fmt.Sprint(n, loc))
	}
}
