// contracts on the functions of the base plugin (C18)

func baselit.(Plugin).Code(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "verbatim"})

func baselit.(Plugin).Italic(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "italic"})

func baselit.(Plugin).Bold(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "bold"})

func baselit.(Plugin).Larger(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "larger"})

func baselit.(Plugin).Smaller(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "smaller"})

func baselit.(Plugin).Strike(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "strike"})

func baselit.(Plugin).Superscript(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "superscript"})

func baselit.(Plugin).Subscript(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "subscript"})

func baselit.(Plugin).Inset(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "inset"})

func baselit.(Plugin).Aside(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] styled: result == booklit.Content(booklit.Styled{Content: content, Style: "aside"})

func baselit.(Plugin).Styled(plugin baselit.Plugin, name string) ()
  requires plugin.section != nil
  modifies booklit.Section.Style at plugin.section
  ensures [C18] style: plugin.section.Style == name

func baselit.(Plugin).Aux(plugin baselit.Plugin, content booklit.Content) (result booklit.Content)
  ensures [C18] aux: result == booklit.Content(booklit.Aux{Content: content})

func baselit.(Plugin).Link(plugin baselit.Plugin, content booklit.Content, target string) (result booklit.Content)
  ensures [C18] link: result == booklit.Content(booklit.Link{Content: content, Target: target})

func baselit.(Plugin).TableOfContents(plugin baselit.Plugin) (result booklit.Content)
  ensures [C18] toc: result == booklit.Content(booklit.TableOfContents{Section: plugin.section})

func baselit.(Plugin).OmitChildrenFromTableOfContents(plugin baselit.Plugin) ()
  requires plugin.section != nil
  modifies booklit.Section.OmitChildrenFromTableOfContents at plugin.section
  ensures [C18] omit: plugin.section.OmitChildrenFromTableOfContents

func baselit.(Plugin).Reference(plugin baselit.Plugin, tag string, content []booklit.Content) (result booklit.Content)
  requires plugin.section != nil
  ensures [C18] reference: result is *booklit.Reference && fresh(result as *booklit.Reference)
  ensures [C18] fields: (result as *booklit.Reference).Section == plugin.section && (result as *booklit.Reference).TagName == tag && (result as *booklit.Reference).Location == plugin.section.InvokeLocation && !(result as *booklit.Reference).Optional && (result as *booklit.Reference).tag == nil
  ensures [C18] content: (result as *booklit.Reference).Content == (if len(content) > 0 then content[0] else nil)

func baselit.(Plugin).Target(plugin baselit.Plugin, tag string, tc []booklit.Content) (result booklit.Content)
  requires plugin.section != nil
  ensures [C18] target: result is *booklit.Target && fresh(result as *booklit.Target)
  ensures [C18] fields: (result as *booklit.Target).TagName == tag && (result as *booklit.Target).Location == plugin.section.InvokeLocation
  ensures [C18] title: (result as *booklit.Target).Title == (if len(tc) == 1 || len(tc) == 2 then tc[0] else booklit.String(tag))
  ensures [C18] content: (result as *booklit.Target).Content == (if len(tc) == 2 then tc[1] else nil)

func baselit.(Plugin).List(plugin baselit.Plugin, items []booklit.Content) (result booklit.Content)
  ensures [C18] list: result == booklit.Content(booklit.List{Items: items})

func baselit.(Plugin).OrderedList(plugin baselit.Plugin, items []booklit.Content) (result booklit.Content)
  ensures [C18] list: result == booklit.Content(booklit.List{Items: items, Ordered: true})

func baselit.(Plugin).TableRow(plugin baselit.Plugin, cols []booklit.Content) (result booklit.Content)
  ensures [C18] row: result == booklit.Content(booklit.List{Items: cols})

func baselit.(Plugin).Definition(plugin baselit.Plugin, subject booklit.Content, definition booklit.Content) (result booklit.Content)
  ensures [C18] pair: result == booklit.Content(booklit.List{Items: []booklit.Content{subject, definition}})

func baselit.(Plugin).Image(plugin baselit.Plugin, path string, description []string) (result booklit.Content)
  ensures [C18] image: result == booklit.Content(booklit.Image{Path: path, Description: if len(description) > 0 then description[0] else ""})

func booklit.(*Section).SetPartial(con *booklit.Section, name string, value booklit.Content) ()
  requires con != nil
  modifies booklit.Section.Partials at con
  ensures [C18] set: con.Partials[name] == value && has(con.Partials, name)
  ensures [C18] others: forall k string :: k != name ==> con.Partials[k] == old(con.Partials[k]) && has(con.Partials, k) == old(has(con.Partials, k))

func booklit.(*Section).Partial(con *booklit.Section, name string) (result booklit.Content)
  requires con != nil
  ensures [C18] partial: result == con.Partials[name]

func baselit.(Plugin).SetPartial(plugin baselit.Plugin, name string, content booklit.Content) ()
  requires plugin.section != nil
  modifies booklit.Section.Partials at plugin.section
  ensures [C18] set: plugin.section.Partials[name] == content && has(plugin.section.Partials, name)
  ensures [C18] others: forall k string :: k != name ==> plugin.section.Partials[k] == old(plugin.section.Partials[k]) && has(plugin.section.Partials, k) == old(has(plugin.section.Partials, k))

// the items of the first n lists
spec func itemsN(s []booklit.Content, n int) [][]booklit.Content =
    if n <= 0 then [][]booklit.Content{} else itemsN(s, n-1) ++ [][]booklit.Content{(s[n-1] as booklit.List).Items}
  flags fuel=2

func baselit.(Plugin).Table(plugin baselit.Plugin, rows []booklit.Content) (result booklit.Content, err error)
  ensures [C18] rejects: err == nil <==> (forall i int :: 0 <= i && i < len(rows) ==> rows[i] is booklit.List)
  ensures [C18] table: err == nil ==> result == booklit.Content(booklit.Table{Rows: itemsN(rows, len(rows))})
  ensures [C18] none: err != nil ==> result == nil
  inv ($t booklit.Table, $i int, $c []booklit.Content) $t.Rows == itemsN($c, $i)
  inv ($i int, $c []booklit.Content) forall j int :: 0 <= j && j < $i ==> $c[j] is booklit.List

spec func isPair(c booklit.Content) bool = c is booklit.List && len((c as booklit.List).Items) == 2
  flags macro=1

spec func pairsN(s []booklit.Content, n int) booklit.Definitions =
    if n <= 0 then booklit.Definitions{} else pairsN(s, n-1) ++ []booklit.Definition{booklit.Definition{Subject: (s[n-1] as booklit.List).Items[0], Definition: (s[n-1] as booklit.List).Items[1]}}
  flags fuel=2

func baselit.(Plugin).Definitions(plugin baselit.Plugin, items []booklit.Content) (result booklit.Content, err error)
  ensures [C18] rejects: err == nil <==> (forall i int :: 0 <= i && i < len(items) ==> isPair(items[i]))
  ensures [C18] definitions: err == nil ==> result == booklit.Content(pairsN(items, len(items)))
  ensures [C18] none: err != nil ==> result == nil
  inv ($d booklit.Definitions, $i int, $c []booklit.Content) $d == pairsN($c, $i)
  inv ($i int, $c []booklit.Content) forall j int :: 0 <= j && j < $i ==> isPair($c[j])

func booklit.(*Section).SplitSectionsPrevented(con *booklit.Section) (result bool)
  requires con != nil
  ensures [C18,C08,C09] prevented: result == prevented(con)

spec func prevented(c *booklit.Section) bool = if c.PreventSplitSections then true else if c.Parent == nil then false else prevented(c.Parent)
  flags fuel=1

func baselit.(Plugin).SplitSections(plugin baselit.Plugin) ()
  requires plugin.section != nil
  modifies booklit.Section.SplitSections at plugin.section, booklit.Section.ResetDepth at plugin.section
  ensures [C18,C09] splits: plugin.section.ResetDepth && plugin.section.SplitSections == (old(plugin.section.SplitSections) || !prevented(plugin.section))

func baselit.joinSections(section *booklit.Section) ()
  requires section != nil
  modifies booklit.Section.SplitSections
  ensures [C18,C09] joined: forall x *booklit.Section :: x.SplitSections == (old(x.SplitSections) && !contains(section, x))
  inv ($i int, $c []*booklit.Section) forall x *booklit.Section :: x.SplitSections == (old(x.SplitSections) && x != section && !containsN($c, x, $i))

func baselit.(Plugin).SinglePage(plugin baselit.Plugin) ()
  requires plugin.section != nil
  modifies booklit.Section.SplitSections, booklit.Section.PreventSplitSections at plugin.section
  ensures [C18,C09] single: plugin.section.PreventSplitSections && (forall x *booklit.Section :: x.SplitSections == (old(x.SplitSections) && !contains(plugin.section, x)))
