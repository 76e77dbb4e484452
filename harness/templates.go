package main

import (
	"bytes"
	"fmt"
	"html"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
)

func init() {
	register("C13", "histories of up to twelve changes (templates added, changed, removed, renamed, broken and repaired, older and newer, directories switched) with a load after any number of them, followed each time by rendering text through every template concerned, for both engines", c13)
	register("C16", "generated content and pages of all kinds rendered by both engines with templates showing which one was used and what it was given, with templates missing, styles of sections and pages, and text to escape; and text rendered with the built-in templates", c16)
}

type tmplEngine interface {
	render.Engine
	LoadTemplates(string) error
}

func renderString(e render.Engine, c booklit.Content) (string, error) {
	var b bytes.Buffer
	err := e.RenderSection(&b, &booklit.Section{Style: "probe", Title: booklit.Empty, Body: c})
	return b.String(), err
}

func c13(h *H) {
	base := time.Now().Add(-1000 * time.Hour).Truncate(time.Second)
	names := []string{"one", "two", "three", "string", "sequence"}
	for i := 0; i < h.N(120) && h.More(); i++ {
		var e tmplEngine = render.NewHTMLEngine()
		kind := "HTML"
		if h.chance(2) {
			e, kind = render.NewTextEngine("md"), "text"
		}
		dirs := []string{h.write(nil), h.write(nil)}
		have := []map[string]string{{}, {}}
		clock := 0
		put := func(d int, n, s string) {
			p := filepath.Join(dirs[d], n+".tmpl")
			os.WriteFile(p, []byte(s), 0o644)
			clock++
			t := base.Add(time.Duration(clock) * time.Second)
			if h.chance(3) {
				t = base.Add(-time.Duration(clock) * time.Second)
			}
			os.Chtimes(p, t, t)
			have[d][n] = s
		}
		for d := range dirs {
			put(d, "probe-page", "{{.Body | render}}")
		}
		log := kind + " engine:"
		version := 0
		for k := 1 + h.pick(12); k > 0; k-- {
			d := 0
			if h.chance(6) {
				d = 1
			}
			for j := h.pick(4); j > 0; j-- {
				n := oneOf(h, names...)
				switch h.pick(6) {
				case 0:
					os.Remove(filepath.Join(dirs[d], n+".tmpl"))
					delete(have[d], n)
					log += fmt.Sprintf(" rm %d/%s;", d, n)
				case 1:
					put(d, n, "{{broken")
					log += fmt.Sprintf(" break %d/%s;", d, n)
				case 2:
					n, m := oneOf(h, names[:3]...), oneOf(h, names[:3]...)
					if s, ok := have[d][n]; ok && m != n {
						os.Rename(filepath.Join(dirs[d], n+".tmpl"), filepath.Join(dirs[d], m+".tmpl"))
						delete(have[d], n)
						have[d][m] = s
						// a file has one content at a given modification time
						clock++
						t := base.Add(time.Duration(clock) * time.Second)
						os.Chtimes(filepath.Join(dirs[d], m+".tmpl"), t, t)
						log += fmt.Sprintf(" mv %d/%s %s;", d, n, m)
					}
				default:
					version++
					if n == "string" {
						put(d, n, fmt.Sprintf("v%d:{{.String}}", version))
					} else if n == "sequence" {
						put(d, n, fmt.Sprintf("v%d:{{range .Contents}}{{. | render}}{{end}}\n", version))
					} else {
						put(d, n, fmt.Sprintf("v%d:{{.Content | render}}\n\n", version))
					}
					log += fmt.Sprintf(" %d/%s is v%d;", d, n, version)
				}
			}
			bad := false
			for _, s := range have[d] {
				bad = bad || strings.Contains(s, "broken")
			}
			log += fmt.Sprintf(" load %d;", d)
			h.Case("%s", log)
			err := e.LoadTemplates(dirs[d])
			if bad {
				if err == nil {
					h.Fail("a directory with a broken template was loaded without an error")
				}
				continue
			}
			if err != nil {
				h.Fail("loading failed: %v", err)
			}
			tmpl := func(n string) string {
				s, ok := have[d][n]
				if !ok {
					return ""
				}
				return s[:strings.Index(s, ":")+1]
			}
			got, err := renderString(e, booklit.String("x"))
			if err != nil {
				h.Fail("rendering text: %v", err)
			}
			h.Eq("text", got, tmpl("string")+"x")
			got, err = renderString(e, booklit.Sequence{booklit.String("x"), booklit.String("y")})
			if err != nil {
				h.Fail("rendering a sequence: %v", err)
			}
			h.Eq("sequence", got, tmpl("sequence")+tmpl("string")+"x"+tmpl("string")+"y")
			for _, n := range names[:3] {
				got, err := renderString(e, booklit.Styled{Style: booklit.Style(n), Content: booklit.String("x")})
				if _, ok := have[d][n]; !ok {
					if err == nil {
						h.Fail("template %s is not in the directory but was used: %q", n, got)
					}
					continue
				}
				if err != nil {
					h.Fail("template %s: %v", n, err)
				}
				h.Eq("styled "+n, got, tmpl(n)+tmpl("string")+"x")
			}
		}
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}
}

// every kind's template shows its name and what it is given
var kinds = map[string]string{
	"string":       `<t>{{.String}}</t>`,
	"sequence":     `<seq>{{range .Contents}}{{. | render}}{{end}}</seq>`,
	"paragraph":    `<para>{{range .}}{{. | render}}{{end}}</para>`,
	"preformatted": `<pre>{{range .}}{{. | render}}{{end}}</pre>`,
	"list":         `<list>{{range .Items}}{{. | render}}{{end}}</list>`,
	"table":        `<table>{{range .Rows}}<row>{{range .}}{{. | render}}{{end}}</row>{{end}}</table>`,
	"definitions":  `<defs>{{range .}}<def>{{.Subject | render}}{{.Definition | render}}</def>{{end}}</defs>`,
	"link":         `<link>{{.Content | render}}{{.Target}}</link>`,
	"image":        `<img>{{.Path}}|{{.Description}}</img>`,
	"target":       `<target>{{.TagName}}{{.Title | render}}</target>`,
	"toc":          `<toc>{{.PrimaryTag.Name}}</toc>`,
	"reference":    `<ref>{{.TagName}}{{.Content | render}}</ref>`,
	"section":      `<section>{{.PrimaryTag.Name}}{{.Title | render}}{{.Body | render}}</section>`,
	"page":         `<page>{{.PrimaryTag.Name}}{{.Body | render}}</page>`,
	"bold":         `<bold>{{.Content | render}}</bold>`,
	"italic":       `<italic>{{.Content | render}}</italic>`,
	"Note":         `<Note>{{.Content | render}}</Note>`,
	"my-style":     `<my>{{.Content | render}}{{with .Partial "One"}}{{. | render}}{{end}}</my>`,
	"sect":         `<sect>{{.Title | render}}</sect>`,
	"sect-page":    `<sectpage>{{.PrimaryTag.Name}}{{. | render}}</sectpage>`,
	"plain":        `<plain>{{.Body | render}}</plain>`,
}

type missing string

type shower struct {
	have map[string]bool
	html bool
}

func (s shower) esc(x string) string {
	if s.html {
		return html.EscapeString(x)
	}
	return x
}

func (s shower) need(n string) {
	if !s.have[n] {
		panic(missing(n))
	}
}

func (s shower) many(cs []booklit.Content) string {
	r := ""
	for _, c := range cs {
		r += s.show(c)
	}
	return r
}

func (s shower) show(c booklit.Content) string {
	switch v := c.(type) {
	case booklit.String:
		s.need("string")
		return "<t>" + s.esc(string(v)) + "</t>"
	case booklit.Sequence:
		s.need("sequence")
		return "<seq>" + s.many(v) + "</seq>"
	case booklit.Paragraph:
		s.need("paragraph")
		return "<para>" + s.many(v) + "</para>"
	case booklit.Preformatted:
		s.need("preformatted")
		return "<pre>" + s.many(v) + "</pre>"
	case booklit.List:
		s.need("list")
		return "<list>" + s.many(v.Items) + "</list>"
	case booklit.Table:
		s.need("table")
		r := "<table>"
		for _, x := range v.Rows {
			r += "<row>" + s.many(x) + "</row>"
		}
		return r + "</table>"
	case booklit.Definitions:
		s.need("definitions")
		r := "<defs>"
		for _, d := range v {
			r += "<def>" + s.show(d.Subject) + s.show(d.Definition) + "</def>"
		}
		return r + "</defs>"
	case booklit.Link:
		s.need("link")
		return "<link>" + s.show(v.Content) + s.esc(v.Target) + "</link>"
	case booklit.Image:
		s.need("image")
		return "<img>" + s.esc(v.Path) + "|" + s.esc(v.Description) + "</img>"
	case booklit.Target:
		s.need("target")
		return "<target>" + s.esc(v.TagName) + s.show(v.Title) + "</target>"
	case booklit.TableOfContents:
		s.need("toc")
		return "<toc>" + s.esc(v.Section.PrimaryTag.Name) + "</toc>"
	case *booklit.Reference:
		s.need("reference")
		return "<ref>" + s.esc(v.TagName) + s.show(v.Content) + "</ref>"
	case *booklit.Section:
		if v.Style == "" {
			s.need("section")
			return "<section>" + s.esc(v.PrimaryTag.Name) + s.show(v.Title) + s.show(v.Body) + "</section>"
		}
		s.need(v.Style)
		if v.Style == "sect" {
			return "<sect>" + s.show(v.Title) + "</sect>"
		}
		return "<plain>" + s.show(v.Body) + "</plain>"
	case *booklit.Lazy:
		r, err := v.Force()
		if err != nil {
			panic(err)
		}
		return s.show(r)
	case booklit.Styled:
		s.need(string(v.Style))
		switch v.Style {
		case "bold":
			return "<bold>" + s.show(v.Content) + "</bold>"
		case "Note":
			return "<Note>" + s.show(v.Content) + "</Note>"
		case "italic":
			return "<italic>" + s.show(v.Content) + "</italic>"
		default:
			r := "<my>" + s.show(v.Content)
			if p := v.Partials["One"]; p != nil {
				r += s.show(p)
			}
			return r + "</my>"
		}
	}
	panic(fmt.Sprintf("%T", c))
}

func (s shower) page(v *booklit.Section) string {
	if v.Style != "" && s.have[v.Style+"-page"] {
		return "<sectpage>" + s.esc(v.PrimaryTag.Name) + s.show(v) + "</sectpage>"
	}
	s.need("page")
	return "<page>" + s.esc(v.PrimaryTag.Name) + s.show(v.Body) + "</page>"
}

func (s shower) try(v *booklit.Section) (out string, miss string) {
	defer func() {
		if r := recover(); r != nil {
			m, ok := r.(missing)
			if !ok {
				panic(r)
			}
			miss = string(m)
		}
	}()
	return s.page(v), ""
}


var textBuiltIn = []string{"string", "sequence", "paragraph", "preformatted", "toc", "section", "page"}

func c16(h *H) {
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	builtIn := map[string]bool{}
	for _, k := range textBuiltIn {
		builtIn[k] = true
	}
	var e tmplEngine
	var s shower
	var log string
	for i := 0; i < h.N(700) && h.More(); i++ {
		if e == nil || h.chance(8) {
			log = ""
			s = shower{have: map[string]bool{}, html: h.chance(2)}
			if s.html {
				e = render.NewHTMLEngine()
			} else {
				e = render.NewTextEngine("md")
			}
			files := map[string]string{}
			for _, k := range ks {
				leave := builtIn[k] || !h.chance(20)
				if s.html {
					leave = (k != "Note" && k != "my-style" && k != "sect" && k != "sect-page" && k != "plain") || !h.chance(4)
				}
				if leave {
					files[k+".tmpl"] = kinds[k]
					s.have[k] = true
				} else {
					log += " without " + k
				}
			}
			dir := h.write(files)
			if err := e.LoadTemplates(dir); err != nil {
				h.Fail("loading templates: %v", err)
			}
			os.RemoveAll(dir)
		}
		name := "HTML"
		if !s.html {
			name = "text"
		}
		sec := &booklit.Section{Title: h.word(), Style: oneOf(h, "", "", "sect", "plain"), PrimaryTag: booklit.Tag{Name: "p" + h.name()}}
		sec.PrimaryTag.Section = sec
		o := genOpts{targets: true, refs: true, lazies: true, sections: true, sec: sec}
		sec.Body = restyle(h, h.content(1+h.pick(4), o))
		if h.chance(3) {
			sec.Title = restyle(h, h.content(2, o))
		}
		h.Case("%s engine%s: section style %q title %s body %s", name, log, sec.Style, Dump(sec.Title), Dump(sec.Body))
		want, miss := s.try(sec)
		var b bytes.Buffer
		err := e.RenderSection(&b, sec)
		if miss != "" {
			if err == nil {
				h.Fail("rendered without the template %s: %q", miss, b.String())
			}
			continue
		}
		if err != nil {
			h.Fail("rendering failed: %v", err)
		}
		h.Eq("page", b.String(), want)
	}
	// the built-in templates escape text exactly once
	for i := 0; i < h.N(60) && h.More(); i++ {
		w := h.word()
		c := booklit.Sequence{booklit.Paragraph{booklit.Styled{Style: booklit.StyleBold, Content: w}}}
		h.Case("built-in HTML templates: %s", Dump(c))
		var b bytes.Buffer
		if err := render.NewHTMLEngine().RenderSection(&b, &booklit.Section{Title: booklit.String("t"), Body: c}); err != nil {
			h.Fail("rendering failed: %v", err)
		}
		if want := "<strong>" + html.EscapeString(string(w)) + "</strong>"; !strings.Contains(b.String(), want) {
			h.Fail("the page does not contain %q:\n%s", want, b.String())
		}
	}
}

// restyle makes content what the templates here can show.
func restyle(h *H, c booklit.Content) booklit.Content {
	many := func(cs []booklit.Content) []booklit.Content {
		r := make([]booklit.Content, len(cs))
		for i, x := range cs {
			r[i] = restyle(h, x)
		}
		return r
	}
	switch v := c.(type) {
	case booklit.Sequence:
		return booklit.Sequence(many(v))
	case booklit.Paragraph:
		return booklit.Paragraph(many(v))
	case booklit.Preformatted:
		return booklit.Preformatted(many(v))
	case booklit.List:
		v.Items = many(v.Items)
		return v
	case booklit.Table:
		for i := range v.Rows {
			v.Rows[i] = many(v.Rows[i])
		}
		return v
	case booklit.Definitions:
		r := booklit.Definitions{}
		for _, d := range v {
			r = append(r, booklit.Definition{Subject: restyle(h, d.Subject), Definition: restyle(h, d.Definition)})
		}
		return r
	case booklit.Link:
		v.Content = restyle(h, v.Content)
		return v
	case booklit.Target:
		v.Title = restyle(h, v.Title)
		return v
	case *booklit.Reference:
		if v.Content == nil {
			v.Content = booklit.String("r")
		}
		v.Content = restyle(h, v.Content)
		return v
	case *booklit.Section:
		v.Style = oneOf(h, "", "sect", "plain")
		v.PrimaryTag = booklit.Tag{Name: h.name(), Section: v}
		return v
	case booklit.Styled:
		if v.Style == "verbatim" {
			v.Style = "Note"
		}
		v.Content = restyle(h, v.Content)
		if p := v.Partials["One"]; p != nil {
			// wrapped, as templates take empty text and lists for absent
			v.Partials["One"] = booklit.Paragraph{restyle(h, p)}
		}
		return v
	}
	return c
}
