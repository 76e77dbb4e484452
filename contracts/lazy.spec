// contracts on deferred content (C22)

immutable booklit.Lazy.Block, booklit.Lazy.fn, booklit.Lazy.once

// the number of calls of deferred functions made so far
ghost $forced int

// each deferred content has its own guard (Lazy values are not copied)
spec func ownGuards() bool = forall a *booklit.Lazy, b *booklit.Lazy :: a != nil && b != nil && a.once == b.once ==> a == b
  flags macro=1

// a deferred function may do anything, including forcing other content
functype booklit.Lazy.fn(fn func) (result booklit.Content, err error)
  requires ownGuards()
  modifies *
  ensures counted: $forced > old($forced)
  ensures settled: forall l *booklit.Lazy :: l != nil && old($once[l.once]) ==> $once[l.once] && l.result == old(l.result) && l.err == old(l.err)
  ensures guards: ownGuards()
  // deferred functions know no buffer of the renderer
  ensures buffers: forall b *bytes.Buffer :: old(allocated(b)) ==> $text[b] == old($text[b])

func booklit.(*Lazy).Force(l *booklit.Lazy) (result booklit.Content, err error)
  requires [C20] present: l != nil
  requires ownGuards()
  modifies *
  ensures [C22] computed_once: old($once[l.once]) ==> $forced == old($forced)
  ensures [C22] computed: $once[l.once] && (!old($once[l.once]) ==> $forced > old($forced))
  ensures [C22] kept: result == l.result && err == l.err
  ensures [C22] settled: forall x *booklit.Lazy :: x != nil && old($once[x.once]) ==> $once[x.once] && x.result == old(x.result) && x.err == old(x.err)
  ensures [C22] guards: ownGuards()
  ensures buffers: forall b *bytes.Buffer :: old(allocated(b)) ==> $text[b] == old($text[b])

func booklit.LazyFlow(fn func) (result *booklit.Lazy)
  ensures [C22] flow: result != nil && !result.Block && result.fn == fn && !$once[result.once] && fresh(result.once)
  ensures [C22] not_computed: $forced == old($forced)

func booklit.LazyBlock(fn func) (result *booklit.Lazy)
  ensures [C22] block: result != nil && result.Block && result.fn == fn && !$once[result.once] && fresh(result.once)
  ensures [C22] not_computed: $forced == old($forced)

func booklit.(*Lazy).IsFlow(l *booklit.Lazy) (result bool)
  requires l != nil
  ensures [C22] flow: result == !l.Block
  ensures [C22] not_computed: $forced == old($forced)

func booklit.(*Lazy).String(l *booklit.Lazy) (result string)
  requires l != nil
  ensures [C22] not_computed: $forced == old($forced)

func stages.(*Collect).VisitLazy(c *stages.Collect, con *booklit.Lazy) (err error)
  flags noalloc
  ensures [C22] not_computed: $forced == old($forced) && err == nil
