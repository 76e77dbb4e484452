package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/alecthomas/chroma/styles"
	"github.com/vito/booklit"
	syntax "github.com/vito/booklit/chroma"
)

func init() {
	register("C17", "snippets of several languages, flow and block, with up to four transformers whose patterns overlap each other's matches, match nothing, the empty string or across tokens, transforming to styled content, references, sequences or plain text", c17)
}

func c17(h *H) {
	patterns := []string{"a+", "foo", "fo", "o", "b", "<", "span", "[a-z]+", "z*", "$", "^", "(?s).", "nomatch-at-all", "class=\"[^\"]*\"", "é", "日本", "&lt;", "\\d+", "foo\\(", "o\\b"}
	texts := []string{"foo(bar)", "func main() { foo() }", "x := \"aaé<b>&amp;\"", "日本 foo", "", "a", "foofoo", "// comment aa foo\nfoo(1, 22)\n", "aab", "{\"a\": [1, 2]}"}
	for i := 0; i < h.N(3000) && h.More(); i++ {
		text := ""
		for j := h.pick(4); j >= 0; j-- {
			text += oneOf(h, texts...) + oneOf(h, "", " ", "\n")
		}
		var code booklit.Content = booklit.String(text)
		flow := true
		if h.chance(2) {
			flow = false
			var lines booklit.Preformatted
			for _, l := range strings.Split(text, "\n") {
				lines = append(lines, booklit.String(l))
			}
			code = lines
		}
		language := oneOf(h, "go", "json", "no-such-language", "html", "text", "")
		var ts []syntax.Transformer
		var how []string
		for j := h.pick(5); j > 0; j-- {
			p := oneOf(h, patterns...)
			k, n := h.pick(4), j
			ts = append(ts, syntax.Transformer{Pattern: regexp.MustCompile(p), Transform: func(s string) booklit.Content {
				switch k {
				case 0:
					return booklit.Styled{Style: booklit.Style(fmt.Sprint("by", n)), Content: booklit.String(s)}
				case 1:
					return &booklit.Reference{TagName: s, Content: booklit.String(fmt.Sprint(n, s))}
				case 2:
					return booklit.Sequence{booklit.String(s), booklit.Aux{Content: booklit.String(fmt.Sprint(n))}}
				}
				return booklit.String("<foo " + s + ">")
			}})
			how = append(how, fmt.Sprintf("%q to kind %d", p, k))
		}
		h.Case("language %q, flow %v, transformers %v\n%s", language, flow, how, text)
		plugin := syntax.NewPlugin(&booklit.Section{}).(syntax.Plugin)
		plain, err := plugin.Syntax(language, code)
		if err != nil {
			h.Fail("failed: %v", err)
		}
		ps, ok := plain.(booklit.Styled)
		if !ok {
			h.Fail("%T", plain)
		}
		want := booklit.Styled{Style: "code-flow", Partials: booklit.Partials{"Language": booklit.String(language)}, Content: ps.Content}
		if !flow {
			want.Style, want.Block = "code-block", true
		}
		var w, g strings.Builder
		dump(&w, want)
		dump(&g, plain)
		h.Eq("without transformers", g.String(), w.String())
		pq, ok := ps.Content.(booklit.Sequence)
		if !ok || len(pq) != 1 {
			h.Fail("the code is %s", g.String())
		}
		raw, ok := pq[0].(booklit.Styled)
		if !ok || raw.Style != "raw-html" {
			h.Fail("the code is %s", g.String())
		}
		// what is to become of it
		cur := []booklit.Content{raw.Content}
		for _, t := range ts {
			var next []booklit.Content
			for _, c := range cur {
				s, ok := c.(booklit.String)
				if !ok {
					next = append(next, c)
					continue
				}
				var made []booklit.Content
				marked := t.Pattern.ReplaceAllStringFunc(string(s), func(m string) string {
					made = append(made, t.Transform(m))
					return "\x00" + strconv.Itoa(len(made)-1) + "\x00"
				})
				for k, part := range strings.Split(marked, "\x00") {
					if k%2 == 1 {
						n, _ := strconv.Atoi(part)
						next = append(next, made[n])
					} else if part != "" {
						next = append(next, booklit.String(part))
					}
				}
			}
			cur = next
		}
		var seq booklit.Sequence
		for _, c := range cur {
			if _, ok := c.(booklit.String); ok {
				c = booklit.Styled{Style: "raw-html", Content: c}
			}
			seq = append(seq, c)
		}
		want.Content = seq
		style := styles.Fallback
		got, err := plugin.SyntaxTransform(language, code, style, ts...)
		if err != nil {
			h.Fail("failed: %v", err)
		}
		w.Reset()
		g.Reset()
		dump(&w, want)
		dump(&g, got)
		h.Eq("the transformed code", g.String(), w.String())
	}
}
