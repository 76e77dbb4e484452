// contracts on stripping auxiliary content (C11)

immutable booklit.Reference.Section, booklit.Reference.TagName, booklit.Reference.Content, booklit.Reference.Optional, booklit.Reference.Location

valuemap booklit.Partials

// r is c without auxiliary pieces
spec func isStrip(c booklit.Content, r booklit.Content) bool = match c {
    case nil: r == nil;
    case booklit.String: r == c;
    case booklit.Image: r == c;
    case *booklit.Section: r == c;
    case booklit.TableOfContents: r == c;
    case *booklit.Lazy: r == c;
    case booklit.Sequence(s): match r { case booklit.Sequence(o): isStripN(s, o, len(s)); default: false };
    case booklit.Paragraph(s): match r { case booklit.Paragraph(o): isStripN(s, o, len(s)); default: false };
    case booklit.Preformatted(s): match r { case booklit.Preformatted(o): isStripN(s, o, len(s)); default: false };
    case booklit.List(l): match r { case booklit.List(o): l.Ordered == o.Ordered && isStripN(l.Items, o.Items, len(l.Items)); default: false };
    case booklit.Table(x): match r { case booklit.Table(o): isStripRows(x.Rows, o.Rows, len(x.Rows)); default: false };
    case booklit.Definitions(d): match r { case booklit.Definitions(o): isStripDefs(d, o, len(d)); default: false };
    case booklit.Link(l): match r { case booklit.Link(o): l.Target == o.Target && isStrip(l.Content, o.Content); default: false };
    case booklit.Target(x): match r { case booklit.Target(o): x.TagName == o.TagName && x.Location == o.Location && isStrip(x.Title, o.Title) && isStrip(x.Content, o.Content); default: false };
    case booklit.Styled(x): match r { case booklit.Styled(o): x.Style == o.Style && x.Block == o.Block && isStrip(x.Content, o.Content) && (forall k string :: (x.Partials[k] == nil && o.Partials[k] == nil) || isStrip(x.Partials[k], o.Partials[k])); default: false };
    case *booklit.Reference(p): match r { case *booklit.Reference(q): q != nil && p.Section == q.Section && p.TagName == q.TagName && p.Optional == q.Optional && p.Location == q.Location && isStrip(p.Content, q.Content); default: false };
    case booklit.Aux(a): isStrip(a.Content, r);
    default: true }
  flags fuel=2

spec func isStripN(s []booklit.Content, o []booklit.Content, n int) bool =
    if n <= 0 then len(o) == 0
    else if s[n-1] is booklit.Aux then isStripN(s, o, n-1)
    else len(o) > 0 && isStrip(s[n-1], o[len(o)-1]) && isStripN(s, o[:len(o)-1], n-1)
  flags fuel=2

spec func isStripRows(s [][]booklit.Content, o [][]booklit.Content, n int) bool =
    if n <= 0 then len(o) == 0
    else len(o) > 0 && isStripN(s[n-1], o[len(o)-1], len(s[n-1])) && isStripRows(s, o[:len(o)-1], n-1)
  flags fuel=2

spec func isStripDefs(s []booklit.Definition, o []booklit.Definition, n int) bool =
    if n <= 0 then len(o) == 0
    else len(o) > 0 && isStrip(s[n-1].Subject, o[len(o)-1].Subject) && isStrip(s[n-1].Definition, o[len(o)-1].Definition) && isStripDefs(s, o[:len(o)-1], n-1)
  flags fuel=2

func booklit.StripAux(content booklit.Content) (result booklit.Content)
  ensures [C11] strips: isStrip(content, result)
  inv ($o []booklit.Content, $i int, $c []booklit.Content) isStripN($c, $o, $i)

iface booklit.Content.Visit(c booklit.Content, visitor booklit.Visitor) (err error)
  when visitor is *booklit.stripAuxVisitor
  modifies booklit.stripAuxVisitor.Result at (visitor as *booklit.stripAuxVisitor)
  ensures [C22] not_computed: $forced == old($forced)
  ensures [C11] strips: isStrip(c, (visitor as *booklit.stripAuxVisitor).Result)
  inv ($o []booklit.Content, $i int, $c []booklit.Content) isStripN($c, $o, $i)
  inv ($o [][]booklit.Content, $i int, $c [][]booklit.Content) isStripRows($c, $o, $i)
  inv ($o []booklit.Definition, $i int, $c []booklit.Definition) isStripDefs($c, $o, $i)
  inv ($m booklit.Partials, $i int, $c booklit.Partials) (forall j int :: 0 <= j && j < $i ==> ($c[enum($c)[j]] == nil && $m[enum($c)[j]] == nil) || isStrip($c[enum($c)[j]], $m[enum($c)[j]])) && (forall k string :: has($m, k) ==> has($c, k)) && (forall j int :: $i <= j && j < len(enum($c)) ==> !has($m, enum($c)[j]))
