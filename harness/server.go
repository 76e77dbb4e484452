package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

func init() {
	register("C14", "histories of requests to a server (pages of known and unknown tags, the root path, other files, odd paths and methods) between which documents and templates are changed, broken and repaired, with references and templates which fail in the middle of a page", c14)
	register("C23", "builds of generated documents of several files with both engines, with and without templates, to standard output and to directories, of the document, of sections by tag and by path, with and without a search index, and with broken documents, templates, sections, references and destinations", c23)
	register("C24", "requests to one server by up to eight goroutines at once, of good, broken, unknown and static pages, while documents and templates are being touched, with the race detector on", c24)
}

// site is a directory with a document, templates and the times of all files.
type site struct {
	h     *H
	dir   string
	docs  map[string]string
	tmpls map[string]string
	names []string
	clock int
}

func (h *H) site() *site {
	s := &site{h: h, dir: h.write(nil), tmpls: map[string]string{}}
	s.document()
	return s
}

func (s *site) put(name, text string) {
	s.h.writeTo(s.dir, map[string]string{name: text})
	s.touch(name)
}

func (s *site) touch(name string) {
	s.clock++
	t := time.Unix(1500000000+int64(s.clock), 0)
	os.Chtimes(filepath.Join(s.dir, name), t, t)
}

func (s *site) in() string { return filepath.Join(s.dir, "main.lit") }

// document writes a new document.
func (s *site) document() {
	h := s.h
	s.docs = map[string]string{}
	n := 0
	s.names = nil
	var section func(depth int) string
	section = func(depth int) string {
		n++
		name := fmt.Sprintf("s%d", n)
		if n == 1 && h.chance(2) {
			name = "index"
		}
		if h.chance(12) {
			name = oneOf(h, "a/b"+name, name+".html", "x y"+name, ".html"+name)
		}
		s.names = append(s.names, name)
		text := fmt.Sprintf("\\title{Title %d <&>}{%s}\n\nbody-%d-%d\n\n", n, name, s.clock, n)
		if h.chance(3) {
			text += fmt.Sprintf("\\target{t%d}\n\n\\italic{word-%d}\n\n", n, n)
			s.names = append(s.names, fmt.Sprintf("t%d", n))
		}
		if h.chance(3) {
			text += "\\split-sections\n\n"
		}
		if h.chance(6) {
			text += "\\reference{" + oneOf(h, s.names...) + "}\n\n"
		}
		if depth > 0 {
			for i := h.pick(3); i > 0; i-- {
				inner := section(depth - 1)
				if h.chance(3) {
					n++
					f := fmt.Sprintf("f%d.lit", n)
					s.docs[f] = inner
					text += "\\include-section{" + f + "}\n\n"
				} else {
					text += "\\section{\n" + indent(inner) + "}\n\n"
				}
			}
		}
		switch h.pick(14) {
		case 0:
			text += "\\reference{no-such-tag}\n\n"
		case 1:
			if h.chance(2) {
				text += "\\no-such-function{a}\n\n"
			}
		case 2:
			if h.chance(3) {
				text += "{\n\n"
			}
		}
		return text
	}
	s.docs["main.lit"] = section(2)
	for f, t := range s.docs {
		s.put(f, t)
	}
}

// template changes a template.
func (s *site) template(ext string) string {
	h := s.h
	n := oneOf(h, "italic", "paragraph", "page", "section")
	if ext != "html" {
		n = oneOf(h, "italic", "paragraph", "page")
	}
	text := ""
	switch h.pick(6) {
	case 0:
		delete(s.tmpls, n)
		os.Remove(filepath.Join(s.dir, "tmpl", n+".tmpl"))
		return n + " removed"
	case 1:
		text = "{{broken"
	case 2:
		text = "partial{{.Title.No}}{{.Content.No}}"
	default:
		switch n {
		case "page":
			text = fmt.Sprintf("page-%d{{.Title | render}}:{{.Body | render}}", s.clock)
		case "section":
			text = fmt.Sprintf("section-%d{{.Body | render}}", s.clock)
		case "paragraph":
			text = fmt.Sprintf("para-%d{{range .Sentences}}{{. | render}}{{end}}", s.clock)
			text = fmt.Sprintf("para-%d{{range .}}{{. | render}}{{end}}", s.clock)
		default:
			text = fmt.Sprintf("it-%d{{.Content | render}}", s.clock)
		}
	}
	s.tmpls[n] = text
	s.put("tmpl/"+n+".tmpl", text)
	return n + " is " + text
}

func (s *site) String() string { return listing(s.docs) + listing(s.tmpls) }

func loadFresh(path string) (*booklit.Section, error) {
	return (&load.Processor{}).LoadFile(path, []booklit.PluginFactory{baselit.NewPlugin})
}

func freshEngine(ext, dir string) (render.Engine, error) {
	var e tmplEngine = render.NewHTMLEngine()
	if ext != "html" {
		e = render.NewTextEngine(ext)
	}
	if dir != "" {
		if err := e.LoadTemplates(dir); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func errorPage(err error) string {
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	return rec.Body.String()
}

// static is a file server which only notes what it is asked.
type static struct {
	mu   sync.Mutex
	seen []*http.Request
	path []string
}

func (f *static) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	f.mu.Lock()
	f.seen = append(f.seen, r)
	f.path = append(f.path, r.Method+" "+r.URL.String())
	f.mu.Unlock()
	w.Header().Set("X-Static", "yes")
	w.WriteHeader(404)
	fmt.Fprintf(w, "static %s", r.URL.Path)
}

// answer is what the server should answer to a request of path now.
func (s *site) answer(path, tmpl string) (code int, body, kind string) {
	static := func() (int, string, string) { return 404, "static " + path, "static" }
	page := path
	if page == "/" {
		page = "/index.html"
	}
	if !strings.HasSuffix(page, ".html") {
		return static()
	}
	root, err := loadFresh(s.in())
	if err != nil {
		return 500, errorPage(err), "document error"
	}
	name := page[:len(page)-len(".html")]
	if strings.HasPrefix(name, "/") {
		name = name[1:]
	}
	ts := root.FindTag(name)
	if len(ts) == 0 {
		return static()
	}
	e, err := freshEngine("html", tmpl)
	if err != nil {
		return 500, errorPage(err), "template error"
	}
	var b bytes.Buffer
	if err := e.RenderSection(&b, ts[0].Section); err != nil {
		return 500, errorPage(err), "render error"
	}
	return 200, b.String(), "page"
}

func c14(h *H) {
	kinds := map[string]int{}
	for i := 0; i < h.N(60) && h.More(); i++ {
		s := h.site()
		tmpl := ""
		if h.chance(2) {
			tmpl = filepath.Join(s.dir, "tmpl")
			os.Mkdir(tmpl, 0o755)
		}
		files := &static{}
		server := &booklitcmd.Server{In: s.in(), Processor: &load.Processor{}, Templates: tmpl, Engine: render.NewHTMLEngine(), FileServer: files}
		log := ""
		for k := 4 + h.pick(12); k > 0; k-- {
			if h.chance(4) {
				s.document()
				log += " new document;"
			}
			if tmpl != "" && h.chance(2) {
				log += " template " + s.template("html") + ";"
			}
			path := "/" + oneOf(h, s.names...) + ".html"
			switch h.pick(12) {
			case 0, 1:
				path = "/"
			case 2:
				path = oneOf(h, "/index.html", "/nope.html", "/.html", "/s1", "/s1.htm", "/s1html", "/main.lit", "/sub/s1.html", "//s1.html", "/s1.HTML", "/index", "/s1.html/", "/search_index.json", "/s1.html.html", "")
			}
			method := oneOf(h, "GET", "GET", "GET", "POST", "HEAD")
			code, body, kind := s.answer(path, tmpl)
			log += fmt.Sprintf(" %s %q (%s);", method, path, kind)
			h.Case("%s%s\nwith templates %q", s, log, tmpl)
			kinds[kind]++
			r := httptest.NewRequest(method, "/x?y=z", nil)
			r.URL.Path = path
			was := *r.URL
			rec := httptest.NewRecorder()
			server.ServeHTTP(rec, r)
			if *r.URL != was {
				h.Fail("the request was changed to %s", r.URL)
			}
			h.Eq("status of the "+kind, rec.Code, code)
			h.Eq("body of the "+kind, rec.Body.String(), body)
			if kind == "static" {
				if len(files.seen) != 1 || files.seen[0] != r || files.path[0] != method+" "+r.URL.String() {
					h.Fail("the file server was asked %q, not passed the request as it was", files.path)
				}
			} else if len(files.seen) != 0 {
				h.Fail("the file server was asked %q", files.path)
			}
			files.seen, files.path = nil, nil
		}
		os.RemoveAll(s.dir)
	}
	if os.Getenv("VERIF_STATS") != "" {
		fmt.Fprintln(os.Stderr, kinds)
	}
}

// ---- C23 ----

// stdout runs f and returns what it wrote to standard output.
func (h *H) stdout(f func()) string {
	out, err := os.CreateTemp(h.Dir, "stdout")
	if err != nil {
		panic(err)
	}
	defer os.Remove(out.Name())
	defer out.Close()
	was := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = was }()
	f()
	b, err := os.ReadFile(out.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

// below are the files below a directory.
func below(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			out[r] = string(b)
		}
		return nil
	})
	return out
}

func show(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s: %q\n", k, m[k])
	}
	return s
}

func c23(h *H) {
	kinds := map[string]int{}
	for i := 0; i < h.N(250) && h.More(); i++ {
		s := h.site()
		cmd := &booklitcmd.Command{In: s.in()}
		ext := "html"
		if h.chance(2) {
			ext = oneOf(h, "md", "txt")
			cmd.TextEngine.FileExtension = ext
		}
		tmpls := filepath.Join(s.dir, "tmpl")
		os.Mkdir(tmpls, 0o755)
		used := ""
		if h.chance(2) {
			for j := h.pick(3); j > 0; j-- {
				s.template(ext)
			}
			// those of the other engine make no difference
			if ext == "html" || h.chance(4) {
				cmd.HTMLEngine.Templates = tmpls
			}
			if ext != "html" || h.chance(4) {
				cmd.TextEngine.Templates = tmpls
			}
			used = cmd.HTMLEngine.Templates
			if ext != "html" {
				used = cmd.TextEngine.Templates
			}
		}
		cmd.SaveSearchIndex = h.chance(2)
		if h.chance(3) {
			cmd.SectionTag = oneOf(h, s.names...)
			if h.chance(4) {
				cmd.SectionTag = "nope"
			}
		}
		if h.chance(3) {
			s.put("extra.lit", fmt.Sprintf("\\title{Extra}{extra}\n\nextra body \\reference{%s}\n\n\\section{\n  \\title{Below}{below}\n\n  below\n}\n", oneOf(h, s.names...)))
			cmd.SectionPath = filepath.Join(s.dir, "extra.lit")
			if h.chance(6) {
				cmd.SectionPath = filepath.Join(s.dir, "missing.lit")
			}
		}
		out := ""
		if h.chance(2) {
			out = filepath.Join(s.dir, "out", "put")
			if h.chance(8) {
				// in the way
				h.writeTo(s.dir, map[string]string{"out": "a file"})
			} else if h.chance(2) {
				h.writeTo(s.dir, map[string]string{"out/put/old.html": "old", "out/put/s1." + ext: strings.Repeat("old page ", 500), "out/put/search_index.json": strings.Repeat("[", 9000)})
			}
			cmd.Out = out
		}
		before := below(filepath.Join(s.dir, "out"))
		_, blocked := os.ReadFile(filepath.Join(s.dir, "out"))

		// what should happen
		want := map[string]string{}
		for k, v := range before {
			want[k] = v
		}
		wantOut, fails, nothing := "", "", true
		var root *booklit.Section
		func() {
			e, err := freshEngine(ext, used)
			if err != nil {
				fails = "templates"
				return
			}
			if root, err = loadFresh(s.in()); err != nil {
				fails = "document"
				return
			}
			target := root
			if cmd.SectionTag != "" {
				ts := root.FindTag(cmd.SectionTag)
				if len(ts) == 0 {
					fails = "tag"
					return
				}
				target = ts[0].Section
			} else if cmd.SectionPath != "" {
				target, err = (&load.Processor{}).LoadFileIn(root, cmd.SectionPath, []booklit.PluginFactory{baselit.NewPlugin})
				if err != nil {
					fails = "section"
					return
				}
			}
			if out == "" {
				var b bytes.Buffer
				if err := e.RenderSection(&b, target); err != nil {
					fails, nothing = "rendering", false
					return
				}
				wantOut = b.String()
				return
			}
			if blocked == nil {
				fails = "destination"
				return
			}
			nothing = false
			for _, x := range all(target) {
				if !ownPage(x) {
					continue
				}
				if strings.Contains(x.PrimaryTag.Name, "/") {
					fails = "page"
					return
				}
				var b bytes.Buffer
				if err := e.RenderSection(&b, x); err != nil {
					fails = "rendering"
					return
				}
				want[filepath.Join("put", x.PrimaryTag.Name+"."+ext)] = b.String()
			}
			if cmd.SaveSearchIndex {
				dir := h.write(nil)
				defer os.RemoveAll(dir)
				if err := (render.Writer{Engine: e, Destination: dir}).WriteSearchIndex(root, "i"); err != nil {
					panic(err)
				}
				b, _ := os.ReadFile(filepath.Join(dir, "i"))
				want["put/search_index.json"] = string(b)
			}
		}()
		h.Case("%sbuild %+v\nfails: %q", s, *cmd, fails)
		kinds[fails]++
		var err error
		got := h.stdout(func() { err = cmd.Build() })
		after := below(filepath.Join(s.dir, "out"))
		if fails != "" {
			if err == nil {
				h.Fail("no error although the %s is bad", fails)
			}
			if nothing {
				h.Eq("standard output", got, "")
				h.Eq("the files", show(after), show(before))
				if _, e := os.Stat(filepath.Join(s.dir, "out")); e == nil && len(before) == 0 && blocked != nil {
					h.Fail("the destination was made")
				}
			}
		} else {
			if err != nil {
				h.Fail("the build failed: %v", err)
			}
			h.Eq("standard output", got, wantOut)
			h.Eq("the files", show(after), show(want))
			if cmd.SaveSearchIndex && out != "" {
				var index map[string]any
				if err := json.Unmarshal([]byte(after["put/search_index.json"]), &index); err != nil {
					h.Fail("no index: %v", err)
				}
				n := map[string]bool{}
				for _, x := range all(root) {
					for _, t := range x.Tags {
						n[t.Name] = true
						if index[t.Name] == nil {
							h.Fail("%q is not in the index", t.Name)
						}
					}
				}
				h.Eq("entries", len(index), len(n))
			}
		}
		os.RemoveAll(s.dir)
	}
	if os.Getenv("VERIF_STATS") != "" {
		fmt.Fprintln(os.Stderr, kinds)
	}
}

// ---- C24 ----

func c24(h *H) {
	for i := 0; i < h.N(25) && h.More(); i++ {
		s := h.site()
		tmpl := ""
		if h.chance(3) {
			tmpl = filepath.Join(s.dir, "tmpl")
			os.Mkdir(tmpl, 0o755)
			for j := h.pick(3); j > 0; j-- {
				s.template("html")
			}
		} else if h.chance(2) {
			tmpl = filepath.Join(s.dir, "tmpl")
			os.Mkdir(tmpl, 0o755)
			s.put("tmpl/italic.tmpl", "italic{{.Content | render}}")
			s.put("tmpl/paragraph.tmpl", "p{{range .}}{{. | render}}{{end}}")
		}
		files := &static{}
		server := &booklitcmd.Server{In: s.in(), Processor: &load.Processor{}, Templates: tmpl, Engine: render.NewHTMLEngine(), FileServer: files}
		type ask struct {
			path, body, kind string
			code             int
		}
		var asks []ask
		for _, p := range append([]string{"/", "/nope.html", "/file.css", "/index.html"}, s.names...) {
			if !strings.HasPrefix(p, "/") {
				p = "/" + p + ".html"
			}
			code, body, kind := s.answer(p, tmpl)
			asks = append(asks, ask{p, body, kind, code})
		}
		workers, rounds, touched := 2+h.pick(7), 2+h.pick(4), h.chance(2)
		h.Case("%s%d goroutines, templates %q, touched %v", s, workers, tmpl, touched)
		var wg sync.WaitGroup
		bad := make(chan string, 1000)
		for w := 0; w < workers; w++ {
			at := h.pick(len(asks))
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad <- fmt.Sprintf("panic: %v", p)
					}
				}()
				for k := 0; k < rounds*len(asks); k++ {
					a := asks[(at+k)%len(asks)]
					r := httptest.NewRequest("GET", "/x", nil)
					r.URL.Path = a.path
					rec := httptest.NewRecorder()
					server.ServeHTTP(rec, r)
					if rec.Code != a.code || rec.Body.String() != a.body {
						bad <- fmt.Sprintf("%q (%s) was answered by %d %q instead of %d %q", a.path, a.kind, rec.Code, clip(rec.Body.String(), 400), a.code, clip(a.body, 400))
						return
					}
				}
			}(w)
		}
		if touched {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					for f := range s.docs {
						s.touch(f)
					}
					for f := range s.tmpls {
						s.touch("tmpl/" + f + ".tmpl")
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			h.Fail("the requests are not answered: a lock is not released")
		}
		select {
		case m := <-bad:
			h.Fail("%s", m)
		default:
		}
		os.RemoveAll(s.dir)
	}
}
