// contracts on collecting tags (C06)

// the tags for the targets in content
spec func targets(c booklit.Content, sec *booklit.Section) []booklit.Tag = match c {
    case nil: []booklit.Tag{};
    case booklit.String: []booklit.Tag{};
    case booklit.Image: []booklit.Tag{};
    case booklit.TableOfContents: []booklit.Tag{};
    case *booklit.Lazy: []booklit.Tag{};
    case *booklit.Reference: []booklit.Tag{};
    case *booklit.Section: []booklit.Tag{};
    case booklit.Target(t): []booklit.Tag{booklit.Tag{Name: t.TagName, Title: t.Title, Section: sec, Location: t.Location, Anchor: t.TagName, Content: t.Content}};
    case *booklit.Target(t): []booklit.Tag{booklit.Tag{Name: t.TagName, Title: t.Title, Section: sec, Location: t.Location, Anchor: t.TagName, Content: t.Content}};
    case booklit.Sequence(s): targetsN(s, len(s), sec);
    case booklit.Paragraph(s): targetsN(s, len(s), sec);
    case booklit.Preformatted(s): targetsN(s, len(s), sec);
    case booklit.List(l): targetsN(l.Items, len(l.Items), sec);
    case booklit.Table(t): targetsRows(t.Rows, len(t.Rows), sec);
    case booklit.Definitions(d): targetsDefs(d, len(d), sec);
    case booklit.Link(l): targets(l.Content, sec);
    case booklit.Aux(a): targets(a.Content, sec);
    case booklit.Styled(s): targets(s.Content, sec) ++ targetsMap(s.Partials, len(enum(s.Partials)), sec);
    default: otherTargets(c, sec) }
  flags fuel=2

uninterp otherTargets(c booklit.Content, sec *booklit.Section) []booklit.Tag

spec func targetsN(s []booklit.Content, n int, sec *booklit.Section) []booklit.Tag =
    if n <= 0 then []booklit.Tag{} else targetsN(s, n-1, sec) ++ targets(s[n-1], sec)
  flags fuel=2

spec func targetsRows(s [][]booklit.Content, n int, sec *booklit.Section) []booklit.Tag =
    if n <= 0 then []booklit.Tag{} else targetsRows(s, n-1, sec) ++ targetsN(s[n-1], len(s[n-1]), sec)
  flags fuel=2

spec func targetsDefs(s []booklit.Definition, n int, sec *booklit.Section) []booklit.Tag =
    if n <= 0 then []booklit.Tag{} else targetsDefs(s, n-1, sec) ++ targets(s[n-1].Subject, sec) ++ targets(s[n-1].Definition, sec)
  flags fuel=2

spec func targetsMap(m booklit.Partials, n int, sec *booklit.Section) []booklit.Tag =
    if n <= 0 then []booklit.Tag{} else targetsMap(m, n-1, sec) ++ targets(m[enum(m)[n-1]], sec)
  flags fuel=2

// sections are not content of sections
spec func plain(c booklit.Content) bool = match c {
    case booklit.Sequence(s): plainN(s, len(s));
    case booklit.Paragraph(s): plainN(s, len(s));
    case booklit.Preformatted(s): plainN(s, len(s));
    case booklit.List(l): plainN(l.Items, len(l.Items));
    case booklit.Table(t): plainRows(t.Rows, len(t.Rows));
    case booklit.Definitions(d): plainDefs(d, len(d));
    case booklit.Link(l): plain(l.Content);
    case booklit.Aux(a): plain(a.Content);
    case booklit.Styled(s): plain(s.Content) && plainMap(s.Partials, len(enum(s.Partials)));
    case *booklit.Section: false;
    default: true }
  flags fuel=2

spec func plainN(s []booklit.Content, n int) bool =
    if n <= 0 then true else plainN(s, n-1) && plain(s[n-1])
  flags fuel=2

spec func plainRows(s [][]booklit.Content, n int) bool =
    if n <= 0 then true else plainRows(s, n-1) && plainN(s[n-1], len(s[n-1]))
  flags fuel=2

spec func plainDefs(s []booklit.Definition, n int) bool =
    if n <= 0 then true else plainDefs(s, n-1) && plain(s[n-1].Subject) && plain(s[n-1].Definition)
  flags fuel=2

spec func plainMap(m booklit.Partials, n int) bool =
    if n <= 0 then true else plainMap(m, n-1) && plain(m[enum(m)[n-1]])
  flags fuel=2

lemma [C06] plainN_elem(s []booklit.Content, i int, n int)
  requires 0 <= i && i < n && !(plain(s[i]))
  ensures !plainN(s, n)
  decreases n
  use plainN_elem(s, i, n-1)
  trigger s[i], plainN(s, n)

lemma [C06] plainRows_elem(s [][]booklit.Content, i int, n int)
  requires 0 <= i && i < n && !(plainN(s[i], len(s[i])))
  ensures !plainRows(s, n)
  decreases n
  use plainRows_elem(s, i, n-1)
  trigger s[i], plainRows(s, n)

lemma [C06] plainDefs_elem(s []booklit.Definition, i int, n int)
  requires 0 <= i && i < n && !(plain(s[i].Subject) && plain(s[i].Definition))
  ensures !plainDefs(s, n)
  decreases n
  use plainDefs_elem(s, i, n-1)
  trigger s[i], plainDefs(s, n)

lemma [C06] plainMap_elem(m booklit.Partials, i int, n int)
  requires 0 <= i && i < n && !(plain(m[enum(m)[i]]))
  ensures !plainMap(m, n)
  decreases n
  use plainMap_elem(m, i, n-1)
  trigger enum(m)[i], plainMap(m, n)

// the tags for the targets of a section itself
spec func ownTargets(s *booklit.Section) []booklit.Tag =
    targets(s.Title, s) ++ targets(s.Body, s) ++ targetsMap(s.Partials, len(enum(s.Partials)), s)
  flags opaque=1

spec func plainSection(s *booklit.Section) bool =
    plain(s.Title) && plain(s.Body) && plainMap(s.Partials, len(enum(s.Partials)))

// how often a section is in the trees below
spec func occurs(x *booklit.Section, cs []*booklit.Section, n int) int =
    if n <= 0 then 0 else occurs(x, cs, n-1) + (if cs[n-1] == x then 1 else 0) + occurs(x, cs[n-1].Children, len(cs[n-1].Children))
  flags fuel=2

iface booklit.Content.Visit(c booklit.Content, visitor booklit.Visitor) (err error)
  when visitor is *stages.Collect
  flags excluded:*booklit.Section
  requires plain(c) && (visitor as *stages.Collect).Section != nil
  modifies booklit.Section.Tags at (visitor as *stages.Collect).Section
  ensures [C23] coupled: old(coupled()) ==> coupled()
  inv [C23] entry(coupled()) ==> coupled()
  ensures [C06] collects: err == nil && (visitor as *stages.Collect).Section.Tags == old((visitor as *stages.Collect).Section.Tags) ++ targets(c, (visitor as *stages.Collect).Section)
  inv ($i int, $c []booklit.Content) (visitor as *stages.Collect).Section.Tags == entry((visitor as *stages.Collect).Section.Tags) ++ targetsN($c, $i, (visitor as *stages.Collect).Section)
  inv ($i int, $c [][]booklit.Content) (visitor as *stages.Collect).Section.Tags == entry((visitor as *stages.Collect).Section.Tags) ++ targetsRows($c, $i, (visitor as *stages.Collect).Section)
  inv ($i int, $c []booklit.Definition) (visitor as *stages.Collect).Section.Tags == entry((visitor as *stages.Collect).Section.Tags) ++ targetsDefs($c, $i, (visitor as *stages.Collect).Section)
  inv ($i int, $c booklit.Partials) (visitor as *stages.Collect).Section.Tags == entry((visitor as *stages.Collect).Section.Tags) ++ targetsMap($c, $i, (visitor as *stages.Collect).Section)

// section trees are finite
axiom occurs_pos(x *booklit.Section, cs []*booklit.Section, n int)
  ensures occurs(x, cs, n) >= 0
  trigger occurs(x, cs, n)

lemma [C06] occurs_mono(x *booklit.Section, cs []*booklit.Section, i int, n int)
  requires 0 <= i && i <= n
  ensures occurs(x, cs, i) <= occurs(x, cs, n)
  decreases n
  use occurs_mono(x, cs, i, n-1)
  trigger occurs(x, cs, i), occurs(x, cs, n)

lemma [C06] occurs_child(x *booklit.Section, s *booklit.Section, i int)
  requires 0 <= i && i < len(s.Children)
  ensures occurs(x, s.Children, i) + (if s.Children[i] == x then 1 else 0) + occurs(x, s.Children[i].Children, len(s.Children[i].Children)) <= occurs(x, s.Children, len(s.Children))
  use occurs_mono(x, s.Children, i+1, len(s.Children))
  trigger occurs(x, s.Children[i].Children, len(s.Children[i].Children))

lemma [C06] occurs_self(s *booklit.Section, i int)
  requires 0 <= i && i < len(s.Children)
  ensures occurs(s.Children[i], s.Children, len(s.Children)) >= 1
  use occurs_child(s.Children[i], s, i)
  trigger s.Children[i]

// every section below is there once
spec func once(s *booklit.Section) bool =
    forall x *booklit.Section :: occurs(x, s.Children, len(s.Children)) + (if x == s then 1 else 0) <= 1
  flags opaque=1

func stages.(*Collect).VisitSection(collect *stages.Collect, con *booklit.Section) (err error)
  requires con != nil && collect.Section == con
  requires once(con)
  requires plainSection(con)
  requires forall x *booklit.Section :: occurs(x, con.Children, len(con.Children)) >= 1 ==> x != nil && plainSection(x)
  modifies booklit.Section.Tags
  ensures [C23] coupled: old(coupled()) ==> coupled()
  inv [C23] entry(coupled()) ==> coupled()
  ensures [C06] succeeds: err == nil
  ensures [C06] own: con.Tags == old(con.Tags) ++ ownTargets(con)
  ensures [C06] below: forall x *booklit.Section :: old(allocated(x)) && occurs(x, con.Children, len(con.Children)) == 1 ==> x.Tags == old(x.Tags) ++ ownTargets(x)
  ensures [C06] others: forall x *booklit.Section :: old(allocated(x)) && x != con && occurs(x, con.Children, len(con.Children)) == 0 ==> x.Tags == old(x.Tags)
  inv ($i int, $c booklit.Partials) con.Tags == entry(con.Tags) ++ targetsMap($c, $i, con)
  inv ($i int, $c []*booklit.Section) forall x *booklit.Section :: entry(allocated(x)) ==> x.Tags == (if occurs(x, $c, $i) >= 1 then entry(x.Tags) ++ ownTargets(x) else entry(x.Tags))
  inv forall x *booklit.Section :: entry(allocated(x)) && x != con ==> x.Tags == entry(x.Tags)
