// contracts on titles and tags (C05)

// the text of content; what String does for each kind of content is not specified here
uninterp textOf(c booklit.Content) string

iface booklit.Content.String(c booklit.Content) (result string)
  flags trusted noalloc
  modifies booklit.Reference.tag
  ensures result == textOf(c)

spec func tagOf(s string) string =
    strings.ToLower(regexp.MustCompile("[^[:alnum:]_\\-]").ReplaceAllString(regexp.MustCompile("\\s+").ReplaceAllString(strings.ReplaceAll(s, " & ", " and "), "-"), ""))

// name is the tag derived from the text of the title without auxiliary parts
spec func derived(title booklit.Content, name string) bool = exists r booklit.Content :: isStrip(title, r) && name == tagOf(textOf(r))

spec func titleTags(c *booklit.Section, title booklit.Content, loc ast.Location, names []string, n int) []booklit.Tag =
    if n <= 0 then []booklit.Tag{}
    else titleTags(c, title, loc, names, n-1) ++ []booklit.Tag{booklit.Tag{Name: names[n-1], Title: title, Section: c, Location: loc}}
  flags fuel=2

func booklit.(*Section).SetTag(con *booklit.Section, name string, title booklit.Content, loc ast.Location, optionalAnchor []string) ()
  requires con != nil
  modifies booklit.Section.Tags at con
  ensures [C05] adds: con.Tags == old(con.Tags) ++ []booklit.Tag{booklit.Tag{Name: name, Title: title, Section: con, Location: loc, Anchor: if len(optionalAnchor) > 0 then optionalAnchor[0] else ""}}

func booklit.(*Section).SetTagAnchored(con *booklit.Section, name string, title booklit.Content, loc ast.Location, content booklit.Content, anchor string) ()
  flags noalloc
  requires con != nil
  modifies booklit.Section.Tags at con
  ensures [C05,C06] adds: con.Tags == old(con.Tags) ++ []booklit.Tag{booklit.Tag{Name: name, Title: title, Section: con, Location: loc, Anchor: anchor, Content: content}}

func booklit.(*Section).SetTitle(con *booklit.Section, title booklit.Content, loc ast.Location, tags []string) ()
  requires con != nil
  modifies booklit.Section.Tags at con, booklit.Section.Title at con, booklit.Section.TitleLocation at con, booklit.Section.PrimaryTag at con, booklit.Reference.tag
  ensures [C05] title: con.Title == title && con.TitleLocation == loc
  ensures [C05] given: len(tags) > 0 ==> con.Tags == titleTags(con, title, loc, tags, len(tags))
  ensures [C05] derived: len(tags) == 0 ==> len(con.Tags) == 1 && con.Tags[0] == booklit.Tag{Name: con.Tags[0].Name, Title: title, Section: con, Location: loc} && derived(title, con.Tags[0].Name)
  ensures [C05] primary: con.PrimaryTag == con.Tags[0]
  inv ($i int, $c []string) con.Tags == titleTags(con, title, loc, $c, $i)

spec func filePath(c *booklit.Section) string = if c.Path != "" then c.Path else if c.Parent == nil then "" else filePath(c.Parent)
  flags fuel=1

func booklit.(*Section).FilePath(con *booklit.Section) (result string)
  flags noalloc
  requires con != nil
  ensures [C04,C15] path: result == filePath(con)

func baselit.(Plugin).Title(plugin baselit.Plugin, title booklit.Content, tags []string) (err error)
  requires plugin.section != nil
  modifies booklit.Section.Tags at plugin.section, booklit.Section.Title at plugin.section, booklit.Section.TitleLocation at plugin.section, booklit.Section.PrimaryTag at plugin.section, booklit.Reference.tag
  ensures [C05,C15] twice: old(plugin.section.Title) != booklit.Empty ==> err == booklit.TitleTwiceError{TitleLocation: booklit.ErrorLocation{FilePath: filePath(plugin.section), NodeLocation: plugin.section.TitleLocation, Length: 6}, ErrorLocation: booklit.ErrorLocation{FilePath: filePath(plugin.section), NodeLocation: plugin.section.InvokeLocation, Length: 6}}
  ensures [C05] unchanged: old(plugin.section.Title) != booklit.Empty ==> plugin.section.Tags == old(plugin.section.Tags) && plugin.section.Title == old(plugin.section.Title) && plugin.section.TitleLocation == old(plugin.section.TitleLocation) && plugin.section.PrimaryTag == old(plugin.section.PrimaryTag)
  ensures [C05] sets: old(plugin.section.Title) == booklit.Empty ==> err == nil && plugin.section.Title == title && plugin.section.TitleLocation == plugin.section.InvokeLocation && plugin.section.PrimaryTag == plugin.section.Tags[0]
  ensures [C05] set_given: old(plugin.section.Title) == booklit.Empty && len(tags) > 0 ==> plugin.section.Tags == titleTags(plugin.section, title, plugin.section.InvokeLocation, tags, len(tags))
  ensures [C05] set_derived: old(plugin.section.Title) == booklit.Empty && len(tags) == 0 ==> len(plugin.section.Tags) == 1 && derived(title, plugin.section.Tags[0].Name)
