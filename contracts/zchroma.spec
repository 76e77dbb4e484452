// contracts on syntax highlighting (C17)

// transforms are functions of the text (of a well-behaved plugin)
uninterp matches(re *regexp.Regexp, s string) [][]int
extern regexp.(*Regexp).FindAllStringIndex(re *regexp.Regexp, s string, n int) (ms [][]int)
  flags noalloc
  ensures n < 0 ==> ms == matches(re, s)
  ensures n < 0 ==> forall i int :: 0 <= i && i < len(ms) ==> len(ms[i]) == 2 && 0 <= ms[i][0] && ms[i][0] <= ms[i][1] && ms[i][1] <= len(s) && (i > 0 ==> ms[i-1][1] <= ms[i][0])

// where the text after the first n matches begins
spec func after(ms [][]int, n int) int = if n <= 0 then 0 else ms[n-1][1]
  flags macro=1

spec func between(s string, a int, b int) booklit.Sequence =
    if b > a then booklit.Sequence{booklit.String(s[a:b])} else booklit.Sequence{}
  flags macro=1

// what the text up to the n-th match becomes
spec func pieces(t chroma.Transformer, s string, ms [][]int, n int) booklit.Sequence =
    if n <= 0 then booklit.Sequence{}
    else pieces(t, s, ms, n-1) ++ between(s, after(ms, n-1), ms[n-1][0]) ++ booklit.Sequence{apply(t.Transform, s[ms[n-1][0]:ms[n-1][1]])}
  flags fuel=2

spec func transformAll(t chroma.Transformer, s string) booklit.Sequence =
    pieces(t, s, matches(t.Pattern, s), len(matches(t.Pattern, s))) ++ between(s, after(matches(t.Pattern, s), len(matches(t.Pattern, s))), len(s))
  flags macro=1

// the same, by name (its definition is only needed where it is computed)
uninterp whole(t chroma.Transformer, s string) booklit.Sequence
axiom whole_is(t chroma.Transformer, s string)
  ensures whole(t, s) == transformAll(t, s)
  trigger matches(t.Pattern, s), whole(t, s)

func chroma.(Transformer).TransformAll(t chroma.Transformer, str string) (result booklit.Sequence)
  requires t.Pattern != nil
  flags noalloc
  ensures [C17] pieces: result == transformAll(t, str)
  ensures result == whole(t, str)
  inv ($o booklit.Sequence, $i int) $o == pieces(t, str, matches(t.Pattern, str), $i)
  inv ($l int, $i int) $l == after(matches(t.Pattern, str), $i)
  props C17

// one transformer leaves everything but text as it is
spec func step(t chroma.Transformer, h booklit.Sequence, n int) booklit.Sequence =
    if n <= 0 then booklit.Sequence{}
    else step(t, h, n-1) ++ (if h[n-1] is booklit.String then whole(t, string(h[n-1] as booklit.String)) else booklit.Sequence{h[n-1]})
  flags fuel=1

spec func layers(ts []chroma.Transformer, h booklit.Sequence, n int) booklit.Sequence =
    if n <= 0 then h else step(ts[n-1], layers(ts, h, n-1), len(layers(ts, h, n-1)))
  flags fuel=1

// text is output as it is, as the formatter escaped it
spec func asRaw(c booklit.Content) booklit.Content =
    if c is booklit.String then booklit.Styled{Style: "raw-html", Content: c} else c
  flags macro=1

uninterp lexerFor(language string) github_com_alecthomas_chroma.Lexer
extern lexers.Get(name string) (l github_com_alecthomas_chroma.Lexer)
  flags noalloc
  ensures l == lexerFor(name)

uninterp tokens(l github_com_alecthomas_chroma.Lexer, text string) github_com_alecthomas_chroma.Iterator
uninterp formatted(flow bool, style *github_com_alecthomas_chroma.Style, it github_com_alecthomas_chroma.Iterator) string
iface github_com_alecthomas_chroma.Lexer.Tokenise(l github_com_alecthomas_chroma.Lexer, options *github_com_alecthomas_chroma.TokeniseOptions, text string) (it github_com_alecthomas_chroma.Iterator, err error)
  ensures err == nil ==> it == tokens(l, text)

// what a formatter was told
uninterp flowing(f *github_com_alecthomas_chroma_formatters_html.Formatter) bool
uninterp flowOption(o github_com_alecthomas_chroma_formatters_html.Option) bool
extern github_com_alecthomas_chroma_formatters_html.PreventSurroundingPre(b bool) (o github_com_alecthomas_chroma_formatters_html.Option)
  flags noalloc
  ensures flowOption(o) == b
extern github_com_alecthomas_chroma_formatters_html.New(options []github_com_alecthomas_chroma_formatters_html.Option) (f *github_com_alecthomas_chroma_formatters_html.Formatter)
  ensures f != nil && (len(options) == 1 ==> flowing(f) == flowOption(options[0]))
extern github_com_alecthomas_chroma_formatters_html.(*Formatter).Format(f *github_com_alecthomas_chroma_formatters_html.Formatter, w io.Writer, style *github_com_alecthomas_chroma.Style, it github_com_alecthomas_chroma.Iterator) (err error)
  modifies $text
  ensures err == nil && w is *bytes.Buffer ==> $text[w as *bytes.Buffer] == old($text[w as *bytes.Buffer]) ++ formatted(flowing(f), style, it)

// the lexer of the language, or the one for plain text
spec func lexer(language string) github_com_alecthomas_chroma.Lexer =
    if lexerFor(language) == nil then lexers.Fallback else lexerFor(language)
  flags macro=1

spec func coded(language string, c booklit.Content, style *github_com_alecthomas_chroma.Style) booklit.Sequence =
    booklit.Sequence{booklit.String(formatted(isFlow(c), style, tokens(lexer(language), textOf(c))))}
  flags macro=1

func chroma.(Plugin).SyntaxTransform(plugin chroma.Plugin, language string, code booklit.Content, chromaStyle *github_com_alecthomas_chroma.Style, transformers []chroma.Transformer) (result booklit.Content, err error)
  requires code != nil
  requires patterns: forall i int :: 0 <= i && i < len(transformers) ==> transformers[i].Pattern != nil
  modifies $text, booklit.Reference.tag
  ensures [C17] kind: err == nil ==> result is booklit.Styled && (result as booklit.Styled).Block == !isFlow(code) && (result as booklit.Styled).Style == (if isFlow(code) then "code-flow" else "code-block")
  ensures [C17] language: err == nil ==> has((result as booklit.Styled).Partials, "Language") && (result as booklit.Styled).Partials["Language"] == booklit.Content(booklit.String(language)) && forall k string :: has((result as booklit.Styled).Partials, k) ==> k == "Language"
  ensures [C17] length: err == nil ==> (result as booklit.Styled).Content is booklit.Sequence && len((result as booklit.Styled).Content as booklit.Sequence) == len(layers(transformers, coded(language, code, chromaStyle), len(transformers)))
  ensures [C17] content: err == nil ==> forall i int :: 0 <= i && i < len((result as booklit.Styled).Content as booklit.Sequence) ==> ((result as booklit.Styled).Content as booklit.Sequence)[i] == asRaw(layers(transformers, coded(language, code, chromaStyle), len(transformers))[i])
  inv ($h booklit.Sequence, $i int) $h == layers(transformers, entry($h), $i)
  inv ($n booklit.Sequence, $c booklit.Sequence, $cj int, $i int) $n == step(transformers[$cj], $c, $i)
  inv ($r booklit.Sequence, $i int) len($r) == len(entry($r)) && forall k int :: 0 <= k && k < $i ==> $r[k] == asRaw(entry($r)[k])
  inv ($r booklit.Sequence, $i int) forall k int :: $i <= k && k < len(entry($r)) ==> $r[k] == entry($r)[k]
  props C17

uninterp styleNamed(name string) *github_com_alecthomas_chroma.Style
extern styles.Get(name string) (style *github_com_alecthomas_chroma.Style)
  flags noalloc
  ensures style == styleNamed(name)

func chroma.(Plugin).Syntax(plugin chroma.Plugin, language string, code booklit.Content, styleName []string) (result booklit.Content, err error)
  requires code != nil
  modifies $text, booklit.Reference.tag
  ensures [C17] kind: err == nil ==> result is booklit.Styled && (result as booklit.Styled).Block == !isFlow(code) && (result as booklit.Styled).Style == (if isFlow(code) then "code-flow" else "code-block")
  ensures [C17] language: err == nil ==> has((result as booklit.Styled).Partials, "Language") && (result as booklit.Styled).Partials["Language"] == booklit.Content(booklit.String(language))
  ensures [C17] content: err == nil ==> (result as booklit.Styled).Content is booklit.Sequence && len((result as booklit.Styled).Content as booklit.Sequence) == 1 && ((result as booklit.Styled).Content as booklit.Sequence)[0] == asRaw(coded(language, code, if len(styleName) > 0 then styleNamed(styleName[0]) else styles.Fallback)[0])
  props C17
