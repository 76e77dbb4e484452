// contracts on loading templates (C13)

valuemap map[string]time.Time

// the files as they are while an operation runs
sort FS
ghost $fs FS
balanced $fs C23
balanced $set C23
uninterp listing(fs FS, pattern string) []string
uninterp modTime(fs FS, path string) time.Time
uninterp instant(t time.Time) int
// a file has one content at a given modification time
uninterp textAt(path string, at int) string

extern time.(Time).Equal(t time.Time, u time.Time) (result bool)
  flags noalloc
  ensures result == (instant(t) == instant(u))

// listings are sorted and without duplicates
uninterp isListing(ts []string) bool
uninterp rank(ts []string, s string) int
axiom listing_distinct(ts []string, a int)
  requires isListing(ts) && 0 <= a && a < len(ts)
  ensures rank(ts, ts[a]) == a
  trigger isListing(ts), ts[a]
axiom sorted_none(m map[string]time.Time)
  requires len(m) == 0
  ensures sortedKeys(m) == []string{}
  trigger sortedKeys(m)
axiom listing_empty()
  ensures isListing([]string{})
// the keys of a map in order
uninterp sortedKeys(m map[string]time.Time) []string
axiom sorted_keys(m map[string]time.Time, ts []string)
  requires isListing(ts) && len(ts) == len(m) && (forall j int :: 0 <= j && j < len(ts) ==> has(m, ts[j]))
  ensures sortedKeys(m) == ts
  trigger isListing(ts), sortedKeys(m)

extern filepath.Glob(pattern string) (matches []string, err error)
  ensures err == nil ==> matches == listing($fs, pattern) && isListing(matches)

extern os.Stat(name string) (info os.FileInfo, err error)
  flags noalloc
  ensures err == nil ==> info != nil && info.ModTime() == modTime($fs, name)

extern ioutil.ReadFile(name string) (content []byte, err error)
  ensures err == nil ==> string(content) == textAt(name, instant(modTime($fs, name)))
extern os.ReadFile(name string) (content []byte, err error)
  ensures err == nil ==> string(content) == textAt(name, instant(modTime($fs, name)))

// a set with the template of that name replaced by, or added with, that text
uninterp with(s TSet, name string, text string) TSet
uninterp setOf(t *html_template.Template) *html_template.Template
uninterp nameOf(t *html_template.Template) string

extern template.(*Template).Clone(t *html_template.Template) (result *html_template.Template, err error)
  ensures err == nil ==> fresh(result) && $set[result] == $set[t]

extern template.Must(t *html_template.Template, err error) (result *html_template.Template)
  ensures err == nil && result == t

extern template.(*Template).Funcs(t *html_template.Template, funcs html_template.FuncMap) (result *html_template.Template)
  ensures result == t

extern template.(*Template).New(t *html_template.Template, name string) (result *html_template.Template)
  ensures result != nil && setOf(result) == t && nameOf(result) == name

extern template.(*Template).Parse(t *html_template.Template, text string) (result *html_template.Template, err error)
  modifies $set at setOf(t)
  ensures err == nil ==> $set[setOf(t)] == with(old($set[setOf(t)]), nameOf(t), text)

// the first n files of a list, each added as the template of its name
spec func filesN(s TSet, fs FS, ts []string, n int) TSet =
    if n <= 0 then s else with(filesN(s, fs, ts, n-1), filepath.Base(ts[n-1]), strings.TrimRight(textAt(ts[n-1], instant(modTime(fs, ts[n-1]))), "\n"))
  flags fuel=2
// the same, for the modification times remembered
spec func timesN(s TSet, m map[string]time.Time, ts []string, n int) TSet =
    if n <= 0 then s else with(timesN(s, m, ts, n-1), filepath.Base(ts[n-1]), strings.TrimRight(textAt(ts[n-1], instant(m[ts[n-1]])), "\n"))
  flags fuel=2

lemma [C13] same_times(s TSet, m map[string]time.Time, fs FS, us []string, ts []string, k int, n int)
  requires us == ts && k == n && n <= len(ts) && (forall j int :: 0 <= j && j < n ==> instant(m[ts[j]]) == instant(modTime(fs, ts[j])))
  ensures timesN(s, m, us, k) == filesN(s, fs, ts, n)
  decreases n
  use same_times(s, m, fs, us, ts, k-1, n-1)
  trigger timesN(s, m, us, k), filesN(s, fs, ts, n)

// only loading templates changes those of an engine
balanced render.initHTMLTmpl C23
balanced render.initTextTmpl C23
balanced render.HTMLEngine.tmpl C23
balanced render.HTMLEngine.tmplModTimes C23
balanced render.TextEngine.tmpl C23
balanced render.TextEngine.tmplModTimes C23
immutable render.TextEngine.fileExtension

// ---- the HTML engine ----

// the templates remembered are the built-in ones and the files with the modification times remembered
spec func remembersH(e *render.HTMLEngine) bool =
    e.tmplModTimes != nil ==> $set[e.tmpl] == timesN($set[render.initHTMLTmpl], e.tmplModTimes, sortedKeys(e.tmplModTimes), len(sortedKeys(e.tmplModTimes)))
  flags macro=1

func render.(*HTMLEngine).resetTmpl(engine *render.HTMLEngine) ()
  requires engine != nil
  modifies render.HTMLEngine.tmpl at engine
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C13] built_in: fresh(engine.tmpl) && $set[engine.tmpl] == $set[render.initHTMLTmpl]

func render.NewHTMLEngine() (result *render.HTMLEngine)
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C13] built_in: fresh(result) && $set[result.tmpl] == $set[render.initHTMLTmpl]
  ensures [C13] remembers: remembersH(result)
  ensures [C09,C23] new: result != nil && fresh(result.tmpl)
  ensures [C24] mine: !$shared[result]

func render.(*HTMLEngine).LoadTemplates(engine *render.HTMLEngine, templatesDir string) (err error)
  requires engine != nil && valid(render.initHTMLTmpl) && valid(engine.tmpl) && engine.tmpl != render.initHTMLTmpl
  requires remembersH(engine)
  requires [C24] mine: mine(engine)
  modifies render.HTMLEngine.tmpl at engine, render.HTMLEngine.tmplModTimes at engine, $set at engine.tmpl
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C13] current: err == nil ==> $set[engine.tmpl] == filesN($set[render.initHTMLTmpl], $fs, listing($fs, filepath.Join([]string{templatesDir, "*.tmpl"})), len(listing($fs, filepath.Join([]string{templatesDir, "*.tmpl"}))))
  ensures [C13] remembers: remembersH(engine)
  ensures [C13] built_in: $set[render.initHTMLTmpl] == old($set[render.initHTMLTmpl]) && valid(engine.tmpl) && engine.tmpl != render.initHTMLTmpl
  inv [C23] entry(coupled()) ==> coupled()
  inv ($i int, $c []string, $m map[string]time.Time) len($m) == $i
  inv ($i int, $c []string, $m map[string]time.Time) forall j int :: 0 <= j && j < $i ==> has($m, $c[j]) && instant($m[$c[j]]) == instant(modTime($fs, $c[j]))
  inv ($i int, $c []string, $m map[string]time.Time) forall j int :: $i <= j && j < len($c) ==> !has($m, $c[j])
  inv ($i int, $c []string, $b bool) $b || (engine.tmplModTimes != nil && len($c) == len(engine.tmplModTimes) && (forall j int :: 0 <= j && j < $i ==> has(engine.tmplModTimes, $c[j]) && instant(engine.tmplModTimes[$c[j]]) == instant(modTime($fs, $c[j]))))
  inv $set[render.initHTMLTmpl] == entry($set[render.initHTMLTmpl])
  inv ($i int, $c []string) $set[engine.tmpl] == filesN($set[render.initHTMLTmpl], $fs, $c, $i)

// ---- the text engine ----

// the templates remembered are the built-in ones and the files with the modification times remembered
spec func remembersT(e *render.TextEngine) bool =
    e.tmplModTimes != nil ==> $set[e.tmpl] == timesN($set[render.initTextTmpl], e.tmplModTimes, sortedKeys(e.tmplModTimes), len(sortedKeys(e.tmplModTimes)))
  flags macro=1

func render.(*TextEngine).resetTmpl(engine *render.TextEngine) ()
  requires engine != nil
  modifies render.TextEngine.tmpl at engine
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C13] built_in: fresh(engine.tmpl) && $set[engine.tmpl] == $set[render.initTextTmpl]

func render.NewTextEngine(fileExtension string) (result *render.TextEngine)
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C13] built_in: fresh(result) && $set[result.tmpl] == $set[render.initTextTmpl]
  ensures [C13] remembers: remembersT(result)
  ensures [C09,C23] new: result != nil && fresh(result.tmpl) && result.fileExtension == fileExtension

func render.(*TextEngine).LoadTemplates(engine *render.TextEngine, templatesDir string) (err error)
  requires engine != nil && valid(render.initTextTmpl) && valid(engine.tmpl) && engine.tmpl != render.initTextTmpl
  requires remembersT(engine)
  modifies render.TextEngine.tmpl at engine, render.TextEngine.tmplModTimes at engine, $set at engine.tmpl
  ensures [C23] coupled: old(coupled()) ==> coupled()
  ensures [C13] current: err == nil ==> $set[engine.tmpl] == filesN($set[render.initTextTmpl], $fs, listing($fs, filepath.Join([]string{templatesDir, "*.tmpl"})), len(listing($fs, filepath.Join([]string{templatesDir, "*.tmpl"}))))
  ensures [C13] remembers: remembersT(engine)
  ensures [C13] built_in: $set[render.initTextTmpl] == old($set[render.initTextTmpl]) && valid(engine.tmpl) && engine.tmpl != render.initTextTmpl
  inv [C23] entry(coupled()) ==> coupled()
  inv ($i int, $c []string, $m map[string]time.Time) len($m) == $i
  inv ($i int, $c []string, $m map[string]time.Time) forall j int :: 0 <= j && j < $i ==> has($m, $c[j]) && instant($m[$c[j]]) == instant(modTime($fs, $c[j]))
  inv ($i int, $c []string, $m map[string]time.Time) forall j int :: $i <= j && j < len($c) ==> !has($m, $c[j])
  inv ($i int, $c []string, $b bool) $b || (engine.tmplModTimes != nil && len($c) == len(engine.tmplModTimes) && (forall j int :: 0 <= j && j < $i ==> has(engine.tmplModTimes, $c[j]) && instant(engine.tmplModTimes[$c[j]]) == instant(modTime($fs, $c[j]))))
  inv $set[render.initTextTmpl] == entry($set[render.initTextTmpl])
  inv ($i int, $c []string) $set[engine.tmpl] == filesN($set[render.initTextTmpl], $fs, $c, $i)
