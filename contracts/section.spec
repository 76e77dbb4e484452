// contracts on sections: the tree, numbering, neighbours (C08)

spec func idx(s []*booklit.Section, x *booklit.Section, n int) int =
    if n <= 0 then 0
    else if idx(s, x, n-1) < n-1 then idx(s, x, n-1)
    else if s[n-1] == x then n-1 else n
  flags fuel=2

lemma idx_range(s []*booklit.Section, x *booklit.Section, n int)
  requires n >= 0
  ensures 0 <= idx(s, x, n) && idx(s, x, n) <= n && (idx(s, x, n) < n ==> s[idx(s, x, n)] == x)
  decreases n
  use idx_range(s, x, n-1)
  trigger idx(s, x, n)

lemma idx_first(s []*booklit.Section, x *booklit.Section, i int, n int)
  requires 0 <= i && i < n && idx(s, x, i) == i && s[i] == x
  ensures idx(s, x, n) == i
  decreases n
  use idx_first(s, x, i, n-1)
  trigger idx(s, x, i), idx(s, x, n)

spec func position(c *booklit.Section) int = idx(c.Parent.Children, c, len(c.Parent.Children))
  flags macro=1

spec func number(c *booklit.Section) string =
    if c.Parent == nil then ""
    else if number(c.Parent) == "" then itoa(position(c) + 1)
    else number(c.Parent) ++ "." ++ itoa(position(c) + 1)
  flags fuel=1

func booklit.(*Section).Number(con *booklit.Section) (result string)
  requires con != nil
  ensures [C08] number: result == number(con)
  inv ($n int, $i int, $c []*booklit.Section) idx($c, con, $i) == $i && $n == $i + 1

spec func depth(c *booklit.Section) int = if c.Parent == nil then 0 else depth(c.Parent) + 1
  flags fuel=1

func booklit.(*Section).Depth(con *booklit.Section) (result int)
  requires con != nil
  ensures [C08] depth: result == depth(con)

spec func pageDepth(c *booklit.Section) int = if c.Parent == nil || c.Parent.ResetDepth then 0 else pageDepth(c.Parent) + 1
  flags fuel=1

func booklit.(*Section).PageDepth(con *booklit.Section) (result int)
  requires con != nil
  ensures [C08] page_depth: result == pageDepth(con)

spec func top(c *booklit.Section) *booklit.Section = if c.Parent == nil then c else top(c.Parent)
  flags fuel=1

func booklit.(*Section).Top(con *booklit.Section) (result *booklit.Section)
  requires con != nil
  ensures [C08] top: result == top(con)

spec func nextSib(c *booklit.Section) *booklit.Section =
    if c.Parent == nil then nil
    else if position(c) + 1 < len(c.Parent.Children) then c.Parent.Children[position(c) + 1]
    else nextSib(c.Parent)
  flags fuel=1

func booklit.(*Section).NextSibling(con *booklit.Section) (result *booklit.Section)
  requires con != nil
  ensures [C08] next_sibling: result == nextSib(con)
  inv ($saw bool, $i int, $c []*booklit.Section) ($saw ==> $i > 0 && idx($c, con, $i) == $i - 1) && (!$saw ==> idx($c, con, $i) == $i)

func booklit.(*Section).Next(con *booklit.Section) (result *booklit.Section)
  requires con != nil
  ensures [C08] next: result == (if con.SplitSections && len(con.Children) > 0 then con.Children[0] else nextSib(con))

spec func distinct(s []*booklit.Section) bool = forall i int, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j]
spec func nonNil(s []*booklit.Section) bool = forall i int :: 0 <= i && i < len(s) ==> s[i] != nil

func booklit.(*Section).Prev(con *booklit.Section) (result *booklit.Section)
  requires con != nil
  ensures [C08] root: con.Parent == nil ==> result == nil
  ensures [C08] previous: con.Parent != nil && distinct(con.Parent.Children) && nonNil(con.Parent.Children) ==> result == (if 0 < position(con) && position(con) < len(con.Parent.Children) then con.Parent.Children[position(con) - 1] else con.Parent)
  inv ($l *booklit.Section, $i int, $c []*booklit.Section) $i == 0 ==> $l == nil
  inv ($l *booklit.Section, $i int, $c []*booklit.Section) $i > 0 ==> $l == $c[$i-1]
  inv ($i int, $c []*booklit.Section) distinct($c) && nonNil($c) ==> idx($c, con, $i) == $i || idx($c, con, $i) == 0

spec func contains(c *booklit.Section, x *booklit.Section) bool = c == x || containsN(c.Children, x, len(c.Children))
  flags fuel=2

spec func containsN(s []*booklit.Section, x *booklit.Section, n int) bool =
    if n <= 0 then false else containsN(s, x, n-1) || contains(s[n-1], x)
  flags fuel=2

lemma containsN_elem(s []*booklit.Section, x *booklit.Section, i int, n int)
  requires 0 <= i && i < n && contains(s[i], x)
  ensures containsN(s, x, n)
  decreases n
  use containsN_elem(s, x, i, n-1)
  trigger contains(s[i], x), containsN(s, x, n)

func booklit.(*Section).Contains(con *booklit.Section, sub *booklit.Section) (result bool)
  requires con != nil
  ensures [C08] contains: result == contains(con, sub)
  inv ($i int, $c []*booklit.Section) !containsN($c, sub, $i)

func booklit.(*Section).IsOrHasChild(con *booklit.Section, sub *booklit.Section) (result bool)
  requires con != nil
  ensures [C08] child: result == (con == sub || idx(con.Children, sub, len(con.Children)) < len(con.Children))
  inv ($i int, $c []*booklit.Section) idx($c, sub, $i) == $i

spec func anyAnchor(s []booklit.Tag, n int) bool = if n <= 0 then false else anyAnchor(s, n-1) || s[n-1].Anchor != ""
  flags fuel=2

lemma anyAnchor_elem(s []booklit.Tag, i int, n int)
  requires 0 <= i && i < n && s[i].Anchor != ""
  ensures anyAnchor(s, n)
  decreases n
  use anyAnchor_elem(s, i, n-1)
  trigger s[i].Anchor, anyAnchor(s, n)

spec func hasAnchors(c *booklit.Section) bool = anyAnchor(c.Tags, len(c.Tags)) || (!c.SplitSections && hasAnchorsN(c.Children, len(c.Children)))
  flags fuel=2

spec func hasAnchorsN(s []*booklit.Section, n int) bool = if n <= 0 then false else hasAnchorsN(s, n-1) || hasAnchors(s[n-1])
  flags fuel=2

lemma hasAnchorsN_elem(s []*booklit.Section, i int, n int)
  requires 0 <= i && i < n && hasAnchors(s[i])
  ensures hasAnchorsN(s, n)
  decreases n
  use hasAnchorsN_elem(s, i, n-1)
  trigger hasAnchors(s[i]), hasAnchorsN(s, n)

func booklit.(*Section).HasAnchors(con *booklit.Section) (result bool)
  requires con != nil
  ensures [C08] anchors: result == hasAnchors(con)
  inv ($i int, $c []booklit.Tag) !anyAnchor($c, $i)
  inv ($i int, $c []*booklit.Section) !hasAnchorsN($c, $i)

spec func anchorsN(s []booklit.Tag, n int) []booklit.Tag =
    if n <= 0 then []booklit.Tag{} else if s[n-1].Anchor == "" then anchorsN(s, n-1) else anchorsN(s, n-1) ++ []booklit.Tag{s[n-1]}
  flags fuel=2

func booklit.(*Section).AnchorTags(con *booklit.Section) (result []booklit.Tag)
  requires con != nil
  ensures [C08] anchor_tags: result == anchorsN(con.Tags, len(con.Tags))
  inv ($o []booklit.Tag, $i int, $c []booklit.Tag) $o == anchorsN($c, $i)

// ---- sections in the tree are there ----

fieldinv booklit.Section.Children by nonNil
lemma nonNil_zero()
  ensures nonNil([]*booklit.Section{})
