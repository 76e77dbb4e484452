// contracts on content: joining (C02)

spec func flat(c booklit.Content) []booklit.Content = match c {
    case nil: []booklit.Content{};
    case booklit.Sequence(s): flatN(s, len(s));
    default: []booklit.Content{c} }
  flags fuel=2

spec func flatN(s []booklit.Content, n int) []booklit.Content =
    if n <= 0 then []booklit.Content{} else flatN(s, n - 1) ++ flat(s[n - 1])
  flags fuel=2

lemma flatN_prefix(s []booklit.Content, t []booklit.Content, n int)
  requires n <= len(s)
  ensures flatN(s ++ t, n) == flatN(s, n)
  decreases n
  use flatN_prefix(s, t, n - 1)
  trigger flatN(s ++ t, n)

func booklit.Append(first booklit.Content, rest []booklit.Content) (result booklit.Content)
  flags noalloc
  ensures [C02] joins: flat(result) == flat(first) ++ flatN(rest, len(rest))
  ensures [C01] exact: result == appN(first, rest, len(rest))
  inv ($a booklit.Content, $i int) flat($a) == flat(first) ++ flatN(rest, $i)
  inv ($a booklit.Content, $i int) $a == appN(first, rest, $i)
