package main

import (
	"bytes"
	"errors"
	"fmt"
	"html"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

func init() {
	register("C15", "documents of several files, with nested sections, arguments, wide characters, tabs, long lines and both line endings, with one fault (undefined function, unknown or ambiguous reference, second title, failing function, text which does not parse) at a known place; and arbitrary locations in arbitrary, missing and changed files", c15)
}

// snippetOf finds the annotated lines in an error page: the path, number, text before, marked and after.
var snippetRE = regexp.MustCompile(`(?s)<pre class="file-path">(.*?):</pre>.*?<pre class="lineno">(.*?)</pre>\s*(?:<pre class="line"><span class="eof">(\(end of file\))</span></pre>|<pre class="line">(.*?)<span class="annotated">(.*?)</span>(.*?)</pre>)`)

type shown struct {
	path, lineno, before, marked, after string
	eof                                 bool
}

func snippets(page string) (out []shown) {
	for _, m := range snippetRE.FindAllStringSubmatch(page, -1) {
		out = append(out, shown{html.UnescapeString(m[1]), strings.TrimSpace(m[2]), html.UnescapeString(m[4]), html.UnescapeString(m[5]), html.UnescapeString(m[6]), m[3] != ""})
	}
	return
}

// place is where something is in a file.
type place struct {
	file      string
	line, col int
	text      string // the line
	length    int
}

func runeCol(line string, i int) int { return len([]rune(line[:i])) + 1 }

// find is the place of some text, which is in the files once.
func find(files map[string]string, mark, text string) place {
	for f, s := range files {
		for n, l := range strings.Split(s, "\n") {
			l = strings.TrimSuffix(l, "\r")
			if i := strings.Index(l, mark); i >= 0 {
				return place{f, n + 1, runeCol(l, i), l, len(text)}
			}
		}
	}
	panic("no " + mark)
}

// wantPrinted is the snippet which is printed for a place.
func wantPrinted(p place) string {
	n := fmt.Sprintf("% 4d| ", p.line)
	return n + p.text + "\n" + strings.Repeat(" ", len(n)+p.col-1) + "\x1b[31m" + strings.Repeat("^", p.length) + "\x1b[0m\n"
}

func wantShown(dir string, p place) shown {
	rs := []rune(p.text)
	before := string(rs[:p.col-1])
	rest := p.text[len(before):]
	if len(rest) < p.length {
		return shown{filepath.Join(dir, p.file), fmt.Sprint(p.line), p.text, "", "", false}
	}
	return shown{filepath.Join(dir, p.file), fmt.Sprint(p.line), before, rest[:p.length], rest[p.length:], false}
}

func c15(h *H) {
	words := []string{"word", "é", "日本", "a<b>&c", "x\ty", "\"q\"", "𝒳", "%s", "%d%%", "e\u0301"}
	line := func() string {
		var s []string
		for i := h.pick(4); i > 0; i-- {
			s = append(s, oneOf(h, words...))
		}
		if h.chance(25) {
			s = append(s, strings.Repeat("long é ", 12000))
		}
		return strings.Join(s, " ")
	}
	around := func(s string) string {
		a, b := line(), line()
		if a != "" {
			a += " "
		}
		if b != "" {
			b = " " + b
		}
		for h.chance(3) {
			s = oneOf(h, "\\italic{"+s+"}", "\\bold{x "+s+"}", "\\list{a}{"+s+"}")
		}
		return a + s + b
	}
	for i := 0; i < h.N(250) && h.More(); i++ {
		n := 0
		files := map[string]string{}
		var section func(depth int, body string) string
		section = func(depth int, body string) string {
			n++
			text := fmt.Sprintf("\\title{Title}{tag%d}\n\n", n)
			for j := h.pick(4); j > 0; j-- {
				text += line() + "\n\n"
			}
			if depth == 0 {
				return text + body + "\n\n" + line() + "\n"
			}
			inner := section(depth-1, body)
			if h.chance(3) {
				f := oneOf(h, "other.lit", "more.lit")
				if files[f] == "" {
					files[f] = inner
					text += "\\include-section{" + f + "}\n"
				} else {
					text += "\\section{\n" + indent(inner) + "}\n"
				}
			} else {
				text += "\\section{\n" + indent(inner) + "}\n"
			}
			return text + "\n" + line() + "\n"
		}
		kind := h.pick(6)
		body, msg, atEnd := "", "", ""
		var marks []string
		var texts []string
		switch kind {
		case 0:
			body = around("\\no-such-function{a}")
			marks, texts, msg = []string{"\\no-such-function"}, []string{"\\no-such-function"}, "undefined function \\no-such-function"
		case 1:
			body = around("\\reference{no-tag}")
			marks, texts, msg = []string{"\\reference{no-tag}"}, []string{"\\reference"}, "unknown tag 'no-tag'"
		case 2:
			body = around("\\target{twice}{A}") + "\n\n"
			if h.chance(2) {
				atEnd = around("\\target{twice}{B}")
			} else {
				body += around("\\target{twice}{B}") + "\n\n"
			}
			if atEnd != "" && h.chance(2) {
				atEnd += "\n\n" + around("\\reference{twice}")
			} else {
				body += around("\\reference{twice}")
			}
			marks, texts, msg = []string{"\\reference{twice}", "\\target{twice}{A}", "\\target{twice}{B}"}, []string{"\\reference", "", ""}, "ambiguous target for tag 'twice'"
		case 3:
			body = "\\title{Again}"
			marks, texts, msg = []string{"\\title{Again}"}, []string{"\\title"}, "cannot set title twice"
		case 4:
			body = around("\\use-plugin{no-plugin}")
			marks, texts, msg = []string{"\\use-plugin{no-plugin}"}, []string{"\\use-plugin"}, "function \\use-plugin returned an error"
		case 5:
			body = "text\n"
			marks, texts, msg = []string{"\\no-such-function"}, []string{"\\no-such-function"}, "undefined function \\no-such-function"
		}
		files["main.lit"] = section(h.pick(4), body)
		if atEnd != "" {
			// in the outermost section, perhaps another file
			files["main.lit"] += "\n" + atEnd + "\n"
		}
		if kind == 5 {
			// at the very end, without a line ending
			files["main.lit"] += "\n" + line() + "\\no-such-function"
		}
		crlf := h.chance(4)
		if crlf {
			for f, s := range files {
				files[f] = strings.Replace(s, "\n", "\r\n", -1)
			}
		}
		h.Case("%sline endings CRLF: %v", listing(files), crlf)
		dir := h.write(files)
		root, err := (&load.Processor{}).LoadFile(filepath.Join(dir, "main.lit"), []booklit.PluginFactory{baselit.NewPlugin})
		if err == nil && kind != 1 && kind != 2 {
			h.Fail("loaded without an error")
		}
		if err == nil {
			err = render.Writer{Engine: render.NewHTMLEngine(), Destination: dir}.WriteSection(root)
			if err == nil {
				h.Fail("written without an error")
			}
		}
		var pe booklit.PrettyError
		ok := errors.As(err, &pe)
		if !ok {
			h.Fail("the error says nothing of where it is: %T %v", err, err)
		}
		var places []place
		for j := range marks {
			places = append(places, find(files, marks[j], texts[j]))
		}
		if kind == 3 {
			// where the title of that section was set before
			for d := places[0].line - 1; ; d-- {
				l := strings.TrimSuffix(strings.Split(files[places[0].file], "\n")[d-1], "\r")
				if k := strings.Index(l, "\\title{Title}"); k >= 0 {
					places = append(places, place{places[0].file, d, runeCol(l, k), l, len("\\title")})
					break
				}
			}
		}
		var b bytes.Buffer
		pe.PrettyPrint(&b)
		printed := b.String()
		head := fmt.Sprintf("%s:%d: %s", filepath.Join(dir, places[0].file), places[0].line, msg)
		if !strings.Contains(printed, head) {
			h.Fail("the error does not name its place %q:\n%s", head, clip(printed, 2000))
		}
		at := 0
		for _, p := range places {
			w := wantPrinted(p)
			if kind == 2 && p.length == 0 {
				w = "  " + strings.Replace(strings.TrimSuffix(w, "\n"), "\n", "\n  ", -1) + "\n"
			}
			k := strings.Index(printed[at:], w)
			if k < 0 {
				// snippets of errors in errors are indented
				w = strings.Split(w, "\n")[0]
				k = strings.Index(printed[at:], w)
			}
			if k < 0 {
				h.Fail("there is no snippet\n%s\nin\n%s", clip(wantPrinted(p), 2000), clip(printed, 2000))
			}
			if p.length > 0 {
				at += k
			}
		}
		got := snippets(errorPage(err))
		for _, p := range places {
			w := wantShown(dir, p)
			found := false
			for _, g := range got {
				found = found || g == w
			}
			if !found {
				h.Fail("the error page does not show\n %s\nbut\n %s", clip(fmt.Sprintf("%q", w), 1500), clip(fmt.Sprintf("%q", got), 2500))
			}
		}
		os.RemoveAll(dir)
	}
	// arbitrary locations
	for i := 0; i < h.N(600) && h.More(); i++ {
		var ls []string
		for j := h.pick(6); j > 0; j-- {
			l := line()
			if len(l) < 1000 {
				ls = append(ls, l)
			}
		}
		if h.chance(30) {
			many := make([]string, 9990+h.pick(20))
			ls = append(many, ls...)
		}
		end := oneOf(h, "\n", "\r\n")
		text := strings.Join(ls, end)
		if len(ls) > 0 && h.chance(2) {
			text += end
		}
		dir := h.write(map[string]string{"f.lit": text})
		at := h.pick(len(ls) + 3)
		if len(ls) > 1000 {
			at = len(ls) - h.pick(16)
		}
		loc := booklit.ErrorLocation{FilePath: filepath.Join(dir, oneOf(h, "f.lit", "f.lit", "f.lit", "f.lit", "missing.lit", ".")), NodeLocation: ast.Location{Line: at, Col: h.pick(12), Offset: h.pick(30)}, Length: h.pick(12)}
		h.Case("file %q, location %+v", clip(strings.Replace(text, strings.Repeat(end, 9000), "<9000 empty lines>", -1), 2000), loc)
		var err error = oneOf[error](h,
			booklit.ParseError{Err: fmt.Errorf("bad"), ErrorLocation: loc},
			booklit.UndefinedFunctionError{Function: "f", ErrorLocation: loc},
			booklit.UnknownTagError{TagName: "t", ErrorLocation: loc, SimilarTags: []booklit.Tag{{Name: "tt"}}},
			booklit.AmbiguousReferenceError{TagName: "t", ErrorLocation: loc, DefinedLocations: []booklit.ErrorLocation{loc}},
			booklit.FailedFunctionError{Function: "f", Err: booklit.UndefinedFunctionError{Function: "g", ErrorLocation: loc}, ErrorLocation: loc},
			booklit.FailedFunctionError{Function: "f", Err: fmt.Errorf("bad"), ErrorLocation: loc},
			booklit.TitleTwiceError{TitleLocation: loc, ErrorLocation: loc})
		var b bytes.Buffer
		err.(booklit.PrettyError).PrettyPrint(&b)
		page := errorPage(err)
		if strings.Contains(page, "failed to render error page") || !strings.Contains(page, "</html>") {
			h.Fail("the error page of %T failed: %s", err, clip(page, 2000))
		}
		got := snippets(page)
		var w bytes.Buffer
		loc.AnnotateLocation(&w)
		have := loc.NodeLocation.Line >= 1 && loc.NodeLocation.Line <= len(ls) && filepath.Base(loc.FilePath) == "f.lit"
		if loc.NodeLocation.Line == 0 && (len(got) != 0 || w.Len() != 0 || strings.Contains(b.String(), ":0:")) {
			h.Fail("a place is shown without a location: %q %q %q", got, w.String(), b.String())
		}
		if !strings.HasPrefix(b.String(), loc.FilePath+":") {
			h.Fail("the file is not named: %q", b.String())
		}
		if have {
			p := place{"f.lit", loc.NodeLocation.Line, loc.NodeLocation.Col, ls[loc.NodeLocation.Line-1], loc.Length}
			h.Eq("the snippet", w.String(), wantPrinted(p))
			if len(got) == 0 {
				h.Fail("there is no snippet in %s", page)
			}
			for _, g := range got {
				if g.eof != (p.text == "") {
					h.Fail("the end of the file is shown for %q", p.text)
				}
				if g.eof {
					continue
				}
				h.Eq("the line", g.before+g.marked+g.after, p.text)
				if rs := []rune(p.text); p.col >= 1 && p.col <= len(rs)+1 && len(string(rs[p.col-1:])) >= p.length {
					h.Eq("what is marked", fmt.Sprintf("%q %q", g.before, g.marked), fmt.Sprintf("%q %q", string(rs[:p.col-1]), string(rs[p.col-1:])[:p.length]))
				}
			}
		}
		os.RemoveAll(dir)
	}
}
