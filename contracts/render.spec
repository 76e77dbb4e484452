// contracts on rendering (C16, C13)

// an engine is used by one server only, which locks its buildLock to use it
ghost $shared arr[*render.HTMLEngine]bool
balanced $shared C24
uninterp serverOf(e *render.HTMLEngine) *booklitcmd.Server
spec func mine(e *render.HTMLEngine) bool = $shared[e] ==> $held[&serverOf(e).buildLock]
  flags macro=1
spec func mineE(e render.Engine) bool = e is *render.HTMLEngine ==> mine(e as *render.HTMLEngine)
  flags macro=1

// a set of named templates; the contents of a set of templates
sort TSet
ghost $set arr[*html_template.Template]TSet
// the contents of buffers
ghost $text arr[*bytes.Buffer]string
// what has been written to writers
sort Out
ghost $out Out
// plugins and deferred functions write to none of the writers in use
balanced $out C14,C23
// what templates may change besides: tags of references are remembered and
// deferred content is computed, with whatever that does
uninterp lookup(t *html_template.Template, s TSet, name string) *html_template.Template
uninterp rendering(o Out, t *html_template.Template, data any) string
uninterp executed(o Out, w io.Writer, t *html_template.Template, data any) Out

extern template.(*Template).Lookup(t *html_template.Template, name string) (result *html_template.Template)
  ensures result == lookup(t, $set[t], name)

// what was executed last
ghost $lastTemplate *html_template.Template
ghost $lastData any
ghost $lastOut Out

// what a writer was sent
sort Sent
uninterp sent(o Out, w io.Writer) Sent
// only to w something was written
uninterp onlyTo(o Out, o2 Out, w io.Writer) bool
axiom only_to(o Out, o2 Out, w io.Writer, x io.Writer, o3 Out)
  ensures onlyTo(o, o2, w) && x != w ==> sent(o2, x) == sent(o, x)
  trigger onlyTo(o, o2, w), sent(o3, x)

// whether a template can be executed for some data, and a writer takes what is written
uninterp works(t *html_template.Template, data any) bool
uninterp takes(w io.Writer) bool

extern template.(*Template).Execute(t *html_template.Template, w io.Writer, data any) (err error)
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures $lastTemplate == t && $lastData == data && $lastOut == old($out)
  ensures err == nil ==> $out == executed(old($out), w, t, data)
  ensures works(t, data) && takes(w) ==> err == nil
  ensures onlyTo(old($out), $out, w)
  ensures err == nil && w is *bytes.Buffer ==> $text[w as *bytes.Buffer] == old($text[w as *bytes.Buffer]) ++ rendering(old($out), t, data)

extern bytes.(*Buffer).String(b *bytes.Buffer) (result string)
  ensures result == $text[b]


// t is the template named name of a set and d the data, or there is no such template
spec func chosen(tm *html_template.Template, s TSet, name string, data any, t *html_template.Template, d any, err error) bool =
    d == data && (if lookup(tm, s, name ++ ".tmpl") != nil then err == nil && t == lookup(tm, s, name ++ ".tmpl") else err != nil)
  flags macro=1

// the template and data for each kind of content
spec func shown(tm *html_template.Template, ts TSet, c booklit.Content, t *html_template.Template, d any, err error) bool = match c {
    case booklit.Aux(a): shown(tm, ts, a.Content, t, d, err);
    case *booklit.Lazy(l): if l.err != nil then err != nil else if l.result == nil then chosen(tm, ts, "string", booklit.Empty, t, d, err) else shown(tm, ts, l.result, t, d, err);
    case booklit.String(x): chosen(tm, ts, "string", c, t, d, err);
    case *booklit.Reference(x): chosen(tm, ts, "reference", c, t, d, err);
    case *booklit.Section(x): chosen(tm, ts, if x.Style != "" then x.Style else "section", c, t, d, err);
    case booklit.Sequence(x): chosen(tm, ts, "sequence", c, t, d, err);
    case booklit.Paragraph(x): chosen(tm, ts, "paragraph", c, t, d, err);
    case booklit.Preformatted(x): chosen(tm, ts, "preformatted", c, t, d, err);
    case booklit.TableOfContents(x): chosen(tm, ts, "toc", x.Section, t, d, err);
    case booklit.Styled(x): chosen(tm, ts, string(x.Style), c, t, d, err);
    case booklit.Target(x): chosen(tm, ts, "target", c, t, d, err);
    case *booklit.Target(x): chosen(tm, ts, "target", *x, t, d, err);
    case booklit.Image(x): chosen(tm, ts, "image", c, t, d, err);
    case booklit.List(x): chosen(tm, ts, "list", c, t, d, err);
    case booklit.Link(x): chosen(tm, ts, "link", c, t, d, err);
    case booklit.Table(x): chosen(tm, ts, "table", c, t, d, err);
    case booklit.Definitions(x): chosen(tm, ts, "definitions", c, t, d, err);
    default: true }
  flags fuel=1

// the page template of the section's style if there is one, otherwise the plain page template
spec func pageTmpl(tm *html_template.Template, ts TSet, s *booklit.Section) *html_template.Template =
    if s.Style != "" && lookup(tm, ts, s.Style ++ "-page.tmpl") != nil then lookup(tm, ts, s.Style ++ "-page.tmpl")
    else lookup(tm, ts, "page.tmpl")
  flags macro=1
