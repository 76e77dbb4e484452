// contracts on the server (C14, C24) and the build command (C23)

// a command is not changed once its arguments have been parsed
immutable booklitcmd.Command.In,booklitcmd.Command.Out,booklitcmd.Command.SectionTag,booklitcmd.Command.SectionPath,booklitcmd.Command.SaveSearchIndex,booklitcmd.Command.SlowInvokeThreshold,booklitcmd.Command.HTMLEngine,booklitcmd.Command.TextEngine
immutable booklitcmd.Server.In,booklitcmd.Server.Processor,booklitcmd.Server.Templates,booklitcmd.Server.Engine,booklitcmd.Server.FileServer

// ---- what a client is sent ----

uninterp plusText(s Sent, text string) Sent
uninterp plusStatus(s Sent, code int) Sent
uninterp plusPage(s Sent, t *html_template.Template, data any) Sent
uninterp handled(s Sent, h http.Handler, r *http.Request) Sent

axiom sent_executed(o Out, x io.Writer, t *html_template.Template, d any, w io.Writer, o2 Out)
  ensures sent(executed(o, x, t, d), w) == (if x == w then plusPage(sent(o, w), t, d) else sent(o, w))
  trigger executed(o, x, t, d), sent(o2, w)

iface http.ResponseWriter.WriteHeader(w http.ResponseWriter, code int) ()
  flags noalloc
  modifies $out
  ensures sent($out, io.Writer(w)) == plusStatus(sent(old($out), io.Writer(w)), code)

iface http.Handler.ServeHTTP(h http.Handler, w http.ResponseWriter, r *http.Request) ()
  requires !(h is *booklitcmd.Server)
  flags noalloc excluded:*booklitcmd.Server
  modifies $out
  ensures sent($out, io.Writer(w)) == handled(sent(old($out), io.Writer(w)), h, r)

extern io.Copy(w io.Writer, r io.Reader) (n int64, err error)
  flags noalloc
  modifies $out, $text
  ensures takes(w) ==> err == nil
  ensures err == nil && r is *bytes.Buffer ==> sent($out, w) == plusText(sent(old($out), w), old($text[r as *bytes.Buffer]))

// ---- the server ----

// what a server needs to work
spec func serves(s *booklitcmd.Server) bool =
    s != nil && s.Engine != nil && s.Processor != nil && s.FileServer != nil && !(s.FileServer is *booklitcmd.Server)
  flags macro=1

// the templates of the engine between uses: those remembered (C13)
spec func goodServer(s *booklitcmd.Server) bool =
    s.Engine != nil && valid(render.initHTMLTmpl) && valid(s.Engine.tmpl) && s.Engine.tmpl != render.initHTMLTmpl && remembersH(s.Engine)
  flags macro=1

lockinv booklitcmd.Server.buildLock by goodServer [C13,C14] over render.HTMLEngine.tmpl,render.HTMLEngine.tmplModTimes,render.HTMLEngine.template,render.HTMLEngine.data,$set

// a document made from the file as it is
spec func document(w World, w2 World, s *booklit.Section, path string, fs FS) bool =
    evaluated(w, w2, s, nil, path, parsedAt(path, instant(modTime(fs, path))), booklitcmd.basePluginFactories)
  flags macro=1

// the page asked for
spec func pageName(path string) string = if path == "/" then "/index.html" else path
  flags macro=1
spec func isPage(path string) bool = hasSuffix(pageName(path), ".html")
  flags macro=1
spec func tagAsked(path string) string = strings.TrimSuffix(strings.TrimPrefix(pageName(path), "/"), ".html")
  flags macro=1

// the document has no tag of the name asked for, or the tag's section is s
spec func noSuchPage(w World, w2 World, server *booklitcmd.Server, path string, fs FS) bool =
    exists root *booklit.Section, ts []booklit.Tag :: document(w, w2, root, server.In, fs) && tagsOf(root, tagAsked(path), ts) && len(ts) == 0
  flags macro=1
spec func isTheSection(w World, w2 World, server *booklitcmd.Server, path string, fs FS, s *booklit.Section) bool =
    exists root *booklit.Section, ts []booklit.Tag :: document(w, w2, root, server.In, fs) && tagsOf(root, tagAsked(path), ts) && len(ts) >= 1 && s == ts[0].Section
  flags macro=1

func booklitcmd.(*Server).loadRequestedSection(server *booklitcmd.Server, path string) (result *booklit.Section, found bool, err error)
  requires serves(server)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *
  ensures present: err == nil && found ==> result != nil
  ensures [C14] other: !isPage(path) ==> err == nil && !found
  ensures [C14] page: err == nil && found ==> isTheSection(old($w), $w, server, path, old($fs), result)
  ensures [C14] unknown: err == nil && !found && isPage(path) ==> noSuchPage(old($w), $w, server, path, old($fs))

// ---- error pages ----

func booklit.ErrorResponse(w http.ResponseWriter, err error) ()
  requires w != nil
  props C14
  modifies $out, $text, $lastTemplate, $lastData, $lastOut, booklit.Reference.tag, booklit.Lazy.result, booklit.Lazy.err, $once, $forced
  ensures [C14] page: works(lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "page.tmpl"), err) && takes(io.Writer(w)) ==> sent($out, io.Writer(w)) == plusPage(sent(old($out), io.Writer(w)), lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "page.tmpl"), err)


// an error page for err
spec func failedWith(before Sent, after Sent, t *html_template.Template, err error) bool =
    works(t, err) ==> after == plusPage(plusStatus(before, 500), t, err)
  flags macro=1

func booklitcmd.(*Server).ServeHTTP(server *booklitcmd.Server, w http.ResponseWriter, r *http.Request) ()
  requires serves(server) && w != nil && r != nil && r.URL != nil && !(io.Writer(w) is *bytes.Buffer)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  requires [C24] others: !$held[&server.buildLock]
  requires [C24] mine: $shared[server.Engine] ==> serverOf(server.Engine) == server
  modifies *, $out
  ensures [C14] other: !isPage(old(r.URL.Path)) ==> sent($out, io.Writer(w)) == handled(sent(old($out), io.Writer(w)), server.FileServer, r)
  ensures [C14] answered: takes(io.Writer(w)) ==>
      (sent($out, io.Writer(w)) == handled(sent(old($out), io.Writer(w)), server.FileServer, r) && (!isPage(old(r.URL.Path)) || noSuchPage(old($w), $w, server, old(r.URL.Path), old($fs)))) ||
      (sent($out, io.Writer(w)) == plusText(sent(old($out), io.Writer(w)), rendering($lastOut, $lastTemplate, $lastData)) && $lastData is *booklit.Section && isTheSection(old($w), $w, server, old(r.URL.Path), old($fs), $lastData as *booklit.Section) && $lastTemplate == pageTmpl(server.Engine.tmpl, $set[server.Engine.tmpl], $lastData as *booklit.Section)) ||
      (exists err error :: err != nil && failedWith(sent(old($out), io.Writer(w)), sent($out, io.Writer(w)), lookup(booklit.errorTmpl, $set[booklit.errorTmpl], "page.tmpl"), err))

// ---- starting the server ----

// a server is not used otherwise once it answers requests
extern http.Handle(pattern string, h http.Handler) ()
  requires [C14] serves: h is *booklitcmd.Server ==> serves(h as *booklitcmd.Server) && goodServer(h as *booklitcmd.Server)
  requires [C24] mine: h is *booklitcmd.Server ==> !$shared[(h as *booklitcmd.Server).Engine]
  modifies $shared
  ensures h is *booklitcmd.Server ==> $shared == old($shared)[(h as *booklitcmd.Server).Engine := true] && serverOf((h as *booklitcmd.Server).Engine) == (h as *booklitcmd.Server)

extern http.FileServer(root http.FileSystem) (h http.Handler)
  flags noalloc
  ensures h != nil && !(h is *booklitcmd.Server)
extern http.ListenAndServe(addr string, h http.Handler) (err error)
  modifies *

func booklitcmd.(*Command).Serve(cmd *booklitcmd.Command) (err error)
  requires cmd != nil && valid(render.initHTMLTmpl)
  modifies *, $shared

// ---- building ----

uninterp dirMade(o Out, path string) Out

extern os.MkdirAll(path string, perm os.FileMode) (err error)
  flags noalloc
  modifies $out
  ensures err == nil ==> $out == dirMade(old($out), path)

// the templates asked for: the built-in ones and those of the directory, if one is given
spec func templatesIn(built TSet, fs FS, dir string) TSet =
    if dir == "" then built else filesN(built, fs, listing(fs, filepath.Join([]string{dir, "*.tmpl"})), len(listing(fs, filepath.Join([]string{dir, "*.tmpl"}))))
  flags macro=1
spec func engineT(cmd *booklitcmd.Command, e *render.TextEngine, fs FS) bool =
    cmd.TextEngine.FileExtension != "" && e.fileExtension == cmd.TextEngine.FileExtension && $set[e.tmpl] == templatesIn($set[render.initTextTmpl], fs, cmd.TextEngine.Templates)
  flags macro=1
spec func engineH(cmd *booklitcmd.Command, e *render.HTMLEngine, fs FS) bool =
    cmd.TextEngine.FileExtension == "" && $set[e.tmpl] == templatesIn($set[render.initHTMLTmpl], fs, cmd.HTMLEngine.Templates)
  flags macro=1

// a document was loaded from a path in state w, which led to state w2
spec func loadedFrom(w World, w2 World, s *booklit.Section, path string, fs FS) bool =
    evOK(inheritsW(w, booklitcmd.basePluginFactories, s), parsedAt(path, instant(modTime(fs, path))), s) && w2 == evW(inheritsW(w, booklitcmd.basePluginFactories, s), parsedAt(path, instant(modTime(fs, path))), s)
  flags macro=1

// what was asked for is section s of the document root
spec func wanted(cmd *booklitcmd.Command, w World, w2 World, fs FS, root *booklit.Section, s *booklit.Section) bool =
    if cmd.SectionTag != "" then loadedFrom(w, w2, root, cmd.In, fs) && (exists ts []booklit.Tag :: tagsOf(root, cmd.SectionTag, ts) && len(ts) >= 1 && s == ts[0].Section)
    else if cmd.SectionPath != "" then s.Parent == root && (exists w1 World :: loadedFrom(w, w1, root, cmd.In, fs) && loadedFrom(w1, w2, s, cmd.SectionPath, fs))
    else s == root && loadedFrom(w, w2, root, cmd.In, fs)
  flags macro=1

spec func indexPath(cmd *booklitcmd.Command) string = filepath.Join([]string{cmd.Out, "search_index.json"})
  flags macro=1
// after the pages p the search index of the whole document is written if asked for, and nothing otherwise
spec func withIndex(cmd *booklitcmd.Command, e render.Engine, p Out, o Out, root *booklit.Section) bool =
    if cmd.SaveSearchIndex then encodedAt(openedFor(p, indexPath(cmd), 578), indexPath(cmd), o) && (forall k string :: jsonHas(o, indexPath(cmd), k) == namedBelow(root, k)) && (forall k string :: namedBelow(root, k) ==> jsonEntry(o, indexPath(cmd), k) == entryBelow(e, root, k, noEntry()))
    else o == p
  flags macro=1

func booklitcmd.(*Command).Build(cmd *booklitcmd.Command) (err error)
  requires cmd != nil && valid(render.initHTMLTmpl) && valid(render.initTextTmpl)
  requires coupled: coupled()
  requires [C24] unlocked: unlocked()
  modifies *, $out, $set, render.HTMLEngine.tmpl, render.HTMLEngine.tmplModTimes, render.TextEngine.tmpl, render.TextEngine.tmplModTimes
  ensures [C23] stdout: err == nil && cmd.Out == "" ==> $out == executed(old($out), io.Writer(os.Stdout), $lastTemplate, $lastData) && $lastData is *booklit.Section
  ensures [C23] stdout_section: err == nil && cmd.Out == "" ==> (exists root *booklit.Section :: wanted(cmd, old($w), $w, old($fs), root, $lastData as *booklit.Section))
  ensures [C23] stdout_text: err == nil && cmd.Out == "" && cmd.TextEngine.FileExtension != "" ==> (exists e *render.TextEngine :: engineT(cmd, e, old($fs)) && $lastTemplate == pageTmpl(e.tmpl, $set[e.tmpl], $lastData as *booklit.Section))
  ensures [C23] stdout_html: err == nil && cmd.Out == "" && cmd.TextEngine.FileExtension == "" ==> (exists e *render.HTMLEngine :: engineH(cmd, e, old($fs)) && $lastTemplate == pageTmpl(e.tmpl, $set[e.tmpl], $lastData as *booklit.Section))
  ensures [C23] dir_text: err == nil && cmd.Out != "" && cmd.TextEngine.FileExtension != "" ==> (exists e *render.TextEngine, root *booklit.Section, s *booklit.Section, p Out :: engineT(cmd, e, old($fs)) && wanted(cmd, old($w), $w, old($fs), root, s) && p == pages(dirMade(old($out), cmd.Out), render.Writer{Engine: render.Engine(e), Destination: cmd.Out}, $set[e.tmpl], s) && withIndex(cmd, render.Engine(e), p, $out, root))
  ensures [C23] dir_html: err == nil && cmd.Out != "" && cmd.TextEngine.FileExtension == "" ==> (exists e *render.HTMLEngine, root *booklit.Section, s *booklit.Section, p Out :: engineH(cmd, e, old($fs)) && wanted(cmd, old($w), $w, old($fs), root, s) && p == pages(dirMade(old($out), cmd.Out), render.Writer{Engine: render.Engine(e), Destination: cmd.Out}, $set[e.tmpl], s) && withIndex(cmd, render.Engine(e), p, $out, root))
  ensures [C23] only_loaded: err != nil && $out != old($out) ==> (exists root *booklit.Section :: evOK(inheritsW(old($w), booklitcmd.basePluginFactories, root), parsedAt(cmd.In, instant(modTime(old($fs), cmd.In))), root))
  ensures [C23] only_tagged: err != nil && $out != old($out) && cmd.SectionTag != "" ==> (exists root *booklit.Section, ts []booklit.Tag :: evOK(inheritsW(old($w), booklitcmd.basePluginFactories, root), parsedAt(cmd.In, instant(modTime(old($fs), cmd.In))), root) && tagsOf(root, cmd.SectionTag, ts) && len(ts) >= 1)
  ensures [C23] only_section: err != nil && $out != old($out) && cmd.SectionTag == "" && cmd.SectionPath != "" ==> (exists w1 World, s *booklit.Section :: evOK(inheritsW(w1, booklitcmd.basePluginFactories, s), parsedAt(cmd.SectionPath, instant(modTime(old($fs), cmd.SectionPath))), s))
