// contracts on finding tags and resolving references (C07)

// how often x is among the first n of s
spec func count(s []booklit.Tag, x booklit.Tag, n int) int =
    if n <= 0 then 0 else count(s, x, n-1) + (if s[n-1] == x then 1 else 0)
  flags fuel=2

lemma count_range(s []booklit.Tag, x booklit.Tag, n int)
  ensures count(s, x, n) >= 0
  decreases n
  use count_range(s, x, n-1)
  trigger count(s, x, n)

lemma count_left(s []booklit.Tag, t []booklit.Tag, x booklit.Tag, n int)
  requires n <= len(s)
  ensures count(s ++ t, x, n) == count(s, x, n)
  decreases n
  use count_left(s, t, x, n-1)

lemma count_right(s []booklit.Tag, t []booklit.Tag, x booklit.Tag, n int)
  requires 0 <= n && n <= len(t)
  ensures count(s ++ t, x, len(s) + n) == count(s, x, len(s)) + count(t, x, n)
  decreases n
  use count_right(s, t, x, n-1)
  use count_left(s, t, x, len(s))

spec func occ(s []booklit.Tag, x booklit.Tag) int = count(s, x, len(s))
  flags opaque=1

lemma occ_concat(s []booklit.Tag, t []booklit.Tag, x booklit.Tag)
  ensures occ(s ++ t, x) == occ(s, x) + occ(t, x)
  use count_right(s, t, x, len(t))
  trigger occ(s ++ t, x)

// occurrences of x among those of the first n tags which match
spec func own(s []booklit.Tag, m func(string) bool, x booklit.Tag, n int) int =
    if n <= 0 then 0 else own(s, m, x, n-1) + (if apply(m, s[n-1].Name) && s[n-1] == x then 1 else 0)
  flags fuel=2

// occurrences of x among the matching tags of c and all sections below
spec func below(c *booklit.Section, m func(string) bool, x booklit.Tag) int =
    own(c.Tags, m, x, len(c.Tags)) + belowN(c.Children, nil, m, x, len(c.Children))
  flags fuel=2

spec func belowN(s []*booklit.Section, ex *booklit.Section, m func(string) bool, x booklit.Tag, n int) int =
    if n <= 0 then 0 else belowN(s, ex, m, x, n-1) + (if s[n-1] == ex then 0 else below(s[n-1], m, x))
  flags fuel=2

spec func found(c *booklit.Section, up bool, ex *booklit.Section, m func(string) bool, x booklit.Tag) int =
    if up && c.Parent != nil then own(c.Tags, m, x, len(c.Tags)) + belowN(c.Children, ex, m, x, len(c.Children)) + found(c.Parent, true, c, m, x)
    else own(c.Tags, m, x, len(c.Tags)) + belowN(c.Children, ex, m, x, len(c.Children))
  flags fuel=1

spec func tagSections(s []booklit.Tag) bool = forall i int :: 0 <= i && i < len(s) ==> s[i].Section != nil

// every tag names its section
fieldinv booklit.Section.Tags by tagSections
lemma tagSections_zero()
  ensures tagSections([]booklit.Tag{})

func booklit.(*Section).filterTags(con *booklit.Section, up bool, exclude *booklit.Section, m func(string) bool) (result []booklit.Tag)
  requires con != nil
  ensures [C07] found: forall x booklit.Tag :: occ(result, x) == found(con, up, exclude, m, x)
  ensures sections: tagSections(result)
  inv ($o []booklit.Tag) tagSections($o)
  inv ($o []booklit.Tag, $i int, $c []booklit.Tag) forall x booklit.Tag :: occ($o, x) == own($c, m, x, $i)
  inv ($o []booklit.Tag, $i int, $c []*booklit.Section) forall x booklit.Tag :: occ($o, x) == own(con.Tags, m, x, len(con.Tags)) + belowN($c, exclude, m, x, $i)

// ---- each tag of the whole tree exactly once ----

spec func times(s []*booklit.Section, x *booklit.Section, n int) int =
    if n <= 0 then 0 else times(s, x, n-1) + (if s[n-1] == x then 1 else 0)
  flags fuel=2

// every section on the way up is once among the children of its parent
spec func linked(c *booklit.Section) bool =
    c != nil && (c.Parent == nil || (nonNil(c.Parent.Children) && times(c.Parent.Children, c, len(c.Parent.Children)) == 1 && linked(c.Parent)))
  flags fuel=1

lemma times_range(s []*booklit.Section, x *booklit.Section, n int)
  ensures times(s, x, n) >= 0
  decreases n
  use times_range(s, x, n-1)
  trigger times(s, x, n)

lemma belowN_except(s []*booklit.Section, ex *booklit.Section, m func(string) bool, x booklit.Tag, n int)
  requires nonNil(s) && ex != nil && n <= len(s)
  ensures times(s, ex, n) == 0 ==> belowN(s, nil, m, x, n) == belowN(s, ex, m, x, n)
  ensures times(s, ex, n) == 1 ==> belowN(s, nil, m, x, n) == belowN(s, ex, m, x, n) + below(ex, m, x)
  decreases n
  use belowN_except(s, ex, m, x, n-1)

axiom ancestors_end(c *booklit.Section)
  ensures depth(c) >= 0

lemma found_except(p *booklit.Section, c *booklit.Section, m func(string) bool, x booklit.Tag)
  requires c != nil && nonNil(p.Children) && times(p.Children, c, len(p.Children)) == 1
  ensures found(p, true, nil, m, x) == found(p, true, c, m, x) + below(c, m, x)
  use belowN_except(p.Children, c, m, x, len(p.Children))

lemma found_all(c *booklit.Section, m func(string) bool, x booklit.Tag)
  requires linked(c)
  ensures found(c, true, nil, m, x) == below(top(c), m, x)
  decreases depth(c)
  use ancestors_end(c)
  use ancestors_end(c.Parent)
  use found_except(c.Parent, c, m, x)
  use found_all(c.Parent, m, x)
  trigger found(c, true, nil, m, x)

// ts are the tags of that name in the whole tree, each as often as it is there
spec func tagsOf(c *booklit.Section, name string, ts []booklit.Tag) bool =
    forall x booklit.Tag :: occ(ts, x) == below(top(c), lambda(o string) bool :: o == name, x)
  flags opaque=1

func booklit.(*Section).FindTag(con *booklit.Section, tagName string) (result []booklit.Tag)
  requires con != nil
  ensures [C07] whole_tree: linked(con) ==> tagsOf(con, tagName, result)
  ensures sections: tagSections(result)

func booklit.(*Section).SimilarTags(con *booklit.Section, tagName string) (result []booklit.Tag)
  requires con != nil

// ---- references ----

spec func locsOf(ts []booklit.Tag, n int) []booklit.ErrorLocation =
    if n <= 0 then []booklit.ErrorLocation{}
    else locsOf(ts, n-1) ++ []booklit.ErrorLocation{booklit.ErrorLocation{FilePath: filePath(ts[n-1].Section), NodeLocation: ts[n-1].Location}}
  flags fuel=2

spec func refLocation(r *booklit.Reference) booklit.ErrorLocation =
    booklit.ErrorLocation{FilePath: filePath(r.Section), NodeLocation: r.Location, Length: 10}
  flags macro=1

spec func refError(r *booklit.Reference, ts []booklit.Tag, err error) bool =
    if len(ts) == 0 then err is booklit.UnknownTagError && (err as booklit.UnknownTagError).TagName == r.TagName && (err as booklit.UnknownTagError).ErrorLocation == refLocation(r)
    else err == booklit.AmbiguousReferenceError{TagName: r.TagName, DefinedLocations: locsOf(ts, len(ts)), ErrorLocation: refLocation(r)}

func booklit.(*Reference).resolve(con *booklit.Reference) (err error)
  requires con != nil && con.Section != nil
  modifies booklit.Reference.tag at con
  ensures [C07,C15] resolves: linked(con.Section) ==> (exists ts []booklit.Tag :: tagsOf(con.Section, con.TagName, ts) &&
      (if len(ts) == 1 then err == nil && con.tag != nil && *con.tag == ts[0]
       else con.tag == old(con.tag) && (if len(ts) == 0 && con.Optional then err == nil else refError(con, ts, err))))
  inv ($o []booklit.ErrorLocation, $i int, $c []booklit.Tag) $o == locsOf($c, $i)

extern (*logrus.Entry).Warnf(e *logrus.Entry, format string, args []any) ()
extern logrus.WithFields(f logrus.Fields) (e *logrus.Entry)
  flags noalloc

spec func broken(r *booklit.Reference, t *booklit.Tag) bool =
    t != nil && t.Title == booklit.String("{broken reference: " ++ r.TagName ++ "}") && t.Name == r.TagName && t.Anchor == "broken" && t.Section == r.Section && t.Location == r.Location

func booklit.(*Reference).Tag(con *booklit.Reference) (tag *booklit.Tag, err error)
  requires con != nil && con.Section != nil
  modifies booklit.Reference.tag at con
  ensures [C07] cached: old(con.tag) != nil ==> tag == old(con.tag) && err == nil && con.tag == old(con.tag)
  ensures [C07,C15] resolves: old(con.tag) == nil && linked(con.Section) ==> (exists ts []booklit.Tag :: tagsOf(con.Section, con.TagName, ts) &&
      (if len(ts) == 1 then err == nil && tag != nil && *tag == ts[0] && con.tag == tag
       else con.tag == nil &&
         (if len(ts) == 0 && con.Optional then err == nil && tag == nil
          else if booklit.AllowBrokenReferences then err == nil && broken(con, tag)
          else tag == nil && refError(con, ts, err))))
  ensures no_tag: err != nil ==> tag == nil

func booklit.(*Reference).Display(con *booklit.Reference) (content booklit.Content, err error)
  requires con != nil && (con.Content == nil ==> con.Section != nil)
  modifies booklit.Reference.tag at con
  ensures [C07] own: con.Content != nil ==> content == con.Content && err == nil
  ensures [C07] cached: con.Content == nil && old(con.tag) != nil ==> content == old(con.tag).Title && err == nil
  ensures [C07] tag: con.Content == nil && old(con.tag) == nil && linked(con.Section) ==> (exists ts []booklit.Tag :: tagsOf(con.Section, con.TagName, ts) &&
      (if len(ts) == 1 then err == nil && content == ts[0].Title
       else if len(ts) == 0 && con.Optional then err == nil && content == nil
       else if booklit.AllowBrokenReferences then err == nil && content == booklit.String("{broken reference: " ++ con.TagName ++ "}")
       else content == nil && refError(con, ts, err)))
