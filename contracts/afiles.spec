// contracts on the files that are open (C19)

sort Handles
// the files which are open, and what was closed without being open
ghost $h Handles
uninterp opened(h Handles, f *os.File) Handles
uninterp closed(h Handles, f *os.File) Handles

// a file which is open can be closed, once
axiom opened_closed(h Handles, g Handles, f *os.File)
  requires g == opened(h, f)
  ensures closed(g, f) == h
  trigger closed(g, f), opened(h, f)

// whatever is done, the files that are open afterwards are those which were
balanced $h C19
