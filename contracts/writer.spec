// contracts on pages, URLs and the search index (C09, C10)

// a section starts a page if it is the root or its parent is split
spec func ownPage(s *booklit.Section) bool = s.Parent == nil || s.Parent.SplitSections
  flags macro=1

// the section whose page a section is on
spec func pageOwner(s *booklit.Section) *booklit.Section = if s.Parent == nil || s.Parent.SplitSections then s else pageOwner(s.Parent)
  flags fuel=1

lemma [C09] owner_owns(s *booklit.Section)
  requires s != nil
  ensures pageOwner(s) != nil && pageOwner(pageOwner(s)) == pageOwner(s) && ownPage(pageOwner(s))
  decreases depth(s)
  use ancestors_end(s)
  use ancestors_end(s.Parent)
  use owner_owns(s.Parent)
  trigger pageOwner(s)

lemma [C09] owner_depth(s *booklit.Section)
  requires s != nil
  ensures depth(pageOwner(s)) <= depth(s)
  decreases depth(s)
  use ancestors_end(s)
  use ancestors_end(s.Parent)
  use owner_depth(s.Parent)

// exactly the sections which start a page are on a page of their own
lemma [C09] own_page(s *booklit.Section)
  requires s != nil
  ensures (pageOwner(s) == s) == ownPage(s)
  use owner_depth(s.Parent)

func render.sectionPageOwner(section *booklit.Section) (result *booklit.Section)
  requires section != nil
  ensures [C09] owner: result == pageOwner(section)

spec func anchorOf(s *booklit.Section, anchor string) string =
    if pageOwner(s) != s && anchor == "" then s.PrimaryTag.Name else anchor

spec func urlOf(ext string, s *booklit.Section, anchor string) string =
    pageOwner(s).PrimaryTag.Name ++ "." ++ ext ++ (if anchorOf(s, anchor) != "" then "#" ++ anchorOf(s, anchor) else "")

func render.sectionURL(ext string, section *booklit.Section, anchor string) (result string)
  requires section != nil
  ensures [C09,C10] url: result == urlOf(ext, section, anchor)

spec func extOf(e render.Engine) string = match e {
    case *render.HTMLEngine(h): "html";
    case *render.TextEngine(t): t.fileExtension;
    default: "" }

// the templates of an engine
spec func templatesOf(e render.Engine) *html_template.Template = match e {
    case *render.HTMLEngine(h): h.tmpl;
    case *render.TextEngine(t): t.tmpl;
    default: nil }

iface render.Engine.FileExtension(e render.Engine) (result string)
  ensures [C09,C14] extension: result == extOf(e)

iface render.Engine.URL(e render.Engine, tag booklit.Tag) (result string)
  requires tag.Section != nil
  ensures [C09,C10] url: result == urlOf(extOf(e), tag.Section, tag.Anchor)

iface render.Engine.RenderSection(e render.Engine, out io.Writer, con *booklit.Section) (err error)
  requires con != nil
  requires [C24] mine: mineE(e)
  modifies render.HTMLEngine.template, render.HTMLEngine.data, render.TextEngine.template, render.TextEngine.data, $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C09] page: err == nil ==> $out == executed(old($out), out, pageTmpl(templatesOf(e), $set[templatesOf(e)], con), con)

// ---- pages ----

uninterp pathOf(f *os.File) string
uninterp executedAt(o Out, path string, t *html_template.Template, data any) Out
uninterp openedFor(o Out, path string, flag int) Out

// what is written to a file depends on its path only
axiom written_at(o Out, f *os.File, t *html_template.Template, d any)
  ensures executed(o, io.Writer(f), t, d) == executedAt(o, pathOf(f), t, d)
  trigger executed(o, io.Writer(f), t, d)

extern os.OpenFile(name string, flag int, perm os.FileMode) (f *os.File, err error)
  modifies $out, $h
  ensures err == nil ==> f != nil && pathOf(f) == name && $out == openedFor(old($out), name, flag) && $h == opened(old($h), f)
  ensures err != nil ==> $h == old($h)

spec func pagePath(w render.Writer, s *booklit.Section) string =
    filepath.Join([]string{w.Destination, s.PrimaryTag.Name ++ "." ++ extOf(w.Engine)})

// the section is rendered, and nothing else, to the file named after its primary tag
spec func page(o Out, w render.Writer, ts TSet, s *booklit.Section) Out =
    executedAt(openedFor(o, pagePath(w, s), 577), pagePath(w, s), pageTmpl(templatesOf(w.Engine), ts, s), s)

func render.(Writer).writeSingleSection(writer render.Writer, section *booklit.Section) (err error)
  requires section != nil && writer.Engine != nil
  requires [C24] mine: mineE(writer.Engine)
  modifies render.HTMLEngine.template, render.HTMLEngine.data, render.TextEngine.template, render.TextEngine.data, $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C09] page: err == nil ==> $out == page(old($out), writer, $set[templatesOf(writer.Engine)], section)

// the pages of a section and all below, in order
spec func pages(o Out, w render.Writer, ts TSet, s *booklit.Section) Out =
    if ownPage(s) then pagesN(page(o, w, ts, s), w, ts, s.Children, len(s.Children)) else pagesN(o, w, ts, s.Children, len(s.Children))
  flags fuel=2

spec func pagesN(o Out, w render.Writer, ts TSet, cs []*booklit.Section, n int) Out =
    if n <= 0 then o else pages(pagesN(o, w, ts, cs, n-1), w, ts, cs[n-1])
  flags fuel=2

func render.(Writer).WriteSection(writer render.Writer, section *booklit.Section) (err error)
  requires section != nil && writer.Engine != nil
  requires [C24] mine: mineE(writer.Engine)
  modifies render.HTMLEngine.template, render.HTMLEngine.data, render.TextEngine.template, render.TextEngine.data, $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C09] pages: err == nil ==> $out == pages(old($out), writer, $set[templatesOf(writer.Engine)], section)
  inv ($i int, $c []*booklit.Section) $out == pagesN(entry($out), writer, $set[templatesOf(writer.Engine)], $c, $i)

// ---- the search index ----

spec func entryFor(e render.Engine, t booklit.Tag) render.SearchDocument =
    render.SearchDocument{Location: urlOf(extOf(e), t.Section, t.Anchor), Title: textOf(t.Title), Text: if t.Content != nil then textOf(t.Content) else textOf(t.Section.Body), Depth: depth(t.Section), SectionTag: t.Section.PrimaryTag.Name}

// the entry for the last of the first n tags named k, otherwise d
spec func entryN(e render.Engine, ts []booklit.Tag, n int, k string, d render.SearchDocument) render.SearchDocument =
    if n <= 0 then d else if ts[n-1].Name == k then entryFor(e, ts[n-1]) else entryN(e, ts, n-1, k, d)
  flags fuel=2
spec func entryBelow(e render.Engine, s *booklit.Section, k string, d render.SearchDocument) render.SearchDocument =
    if s == nil then d else entryKids(e, s.Children, len(s.Children), k, entryN(e, s.Tags, len(s.Tags), k, d))
  flags fuel=2
spec func entryKids(e render.Engine, cs []*booklit.Section, n int, k string, d render.SearchDocument) render.SearchDocument =
    if n <= 0 then d else entryBelow(e, cs[n-1], k, entryKids(e, cs, n-1, k, d))
  flags fuel=2

// is one of the tags named k
spec func namedN(ts []booklit.Tag, n int, k string) bool = if n <= 0 then false else if ts[n-1].Name == k then true else namedN(ts, n-1, k)
  flags fuel=2
spec func namedBelow(s *booklit.Section, k string) bool = if namedKids(s.Children, len(s.Children), k) then true else namedN(s.Tags, len(s.Tags), k)
  flags fuel=2
spec func namedKids(cs []*booklit.Section, n int, k string) bool = if n <= 0 then false else if namedKids(cs, n-1, k) then true else namedBelow(cs[n-1], k)
  flags fuel=2

func render.(Writer).loadTags(writer render.Writer, index render.SearchIndex, section *booklit.Section) ()
  requires section != nil && writer.Engine != nil && index != nil
  modifies booklit.Reference.tag, render.SearchIndex at index
  ensures [C10] names: forall k string :: has(index, k) == (old(has(index, k)) || namedBelow(section, k))
  ensures [C10] entries: forall k string :: index[k] == entryBelow(writer.Engine, section, k, old(index[k]))
  inv ($i int, $c []booklit.Tag) forall k string :: has(index, k) == (entry(has(index, k)) || namedN($c, $i, k))
  inv ($i int, $c []booklit.Tag) forall k string :: index[k] == entryN(writer.Engine, $c, $i, k, entry(index[k]))
  inv ($i int, $c []*booklit.Section) forall k string :: has(index, k) == (entry(has(index, k)) || namedKids($c, $i, k))
  inv ($i int, $c []*booklit.Section) forall k string :: index[k] == entryKids(writer.Engine, $c, $i, k, entry(index[k]))

// ---- the index file ----

uninterp writerOf(e *json.Encoder) io.Writer
// what a reader of the file finds
uninterp jsonHas(o Out, path string, k string) bool
uninterp jsonEntry(o Out, path string, k string) render.SearchDocument
uninterp encodedAt(o Out, path string, n Out) bool

extern os.Create(name string) (f *os.File, err error)
  modifies $out, $h
  ensures err == nil ==> f != nil && pathOf(f) == name && $out == openedFor(old($out), name, 578) && $h == opened(old($h), f)
  ensures err != nil ==> $h == old($h)

extern json.NewEncoder(w io.Writer) (e *json.Encoder)
  ensures e != nil && writerOf(e) == w

// the file then holds the value, and nothing else has changed
extern json.(*Encoder).Encode(e *json.Encoder, v any) (err error)
  modifies $out
  ensures err == nil && writerOf(e) is *os.File ==> encodedAt(old($out), pathOf(writerOf(e) as *os.File), $out)
  ensures err == nil && writerOf(e) is *os.File && v is render.SearchIndex ==> (forall k string :: jsonHas($out, pathOf(writerOf(e) as *os.File), k) == has(v as render.SearchIndex, k) && (has(v as render.SearchIndex, k) ==> jsonEntry($out, pathOf(writerOf(e) as *os.File), k) == (v as render.SearchIndex)[k]))

spec func noEntry() render.SearchDocument = render.SearchDocument{Location: "", Title: "", Text: "", Depth: 0, SectionTag: ""}
  flags macro=1

func render.(Writer).WriteSearchIndex(writer render.Writer, section *booklit.Section, path string) (err error)
  requires section != nil && writer.Engine != nil
  modifies booklit.Reference.tag, $out
  ensures [C10] file: err == nil ==> encodedAt(openedFor(old($out), filepath.Join([]string{writer.Destination, path}), 578), filepath.Join([]string{writer.Destination, path}), $out)
  ensures [C10] names: err == nil ==> (forall k string :: jsonHas($out, filepath.Join([]string{writer.Destination, path}), k) == namedBelow(section, k))
  ensures [C10] entries: err == nil ==> (forall k string :: namedBelow(section, k) ==> jsonEntry($out, filepath.Join([]string{writer.Destination, path}), k) == entryBelow(writer.Engine, section, k, noEntry()))
