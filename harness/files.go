package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

func init() {
	register("C19", "loads, builds, requests, index writing and explained errors for generated documents of several files which are good, broken, missing or directories, with failing templates and destinations which are in the way; the files open afterwards are those open before", c19)
}

// open lists the open files of this process below a directory.
func open(dir string) string {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return ""
	}
	s := ""
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			s += strings.TrimPrefix(l, dir) + " "
		}
	}
	return s
}

func c19(h *H) {
	// files which are not closed are not closed by finalizers either
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for i := 0; i < h.N(150) && h.More(); i++ {
		if i%50 == 49 {
			// nothing is open by now
			debug.FreeOSMemory()
		}
		s := h.site()
		tmpls := filepath.Join(s.dir, "tmpl")
		os.Mkdir(tmpls, 0o755)
		for j := h.pick(3); j > 0; j-- {
			s.template("html")
		}
		p := &load.Processor{}
		bases := []booklit.PluginFactory{baselit.NewPlugin}
		log := ""
		for k := 2 + h.pick(6); k > 0; k-- {
			if h.chance(5) {
				os.RemoveAll(s.in())
				s.document()
			}
			if h.chance(8) {
				os.Remove(filepath.Join(s.dir, "main.lit"))
			}
			if h.chance(8) {
				os.RemoveAll(s.in())
				os.Mkdir(filepath.Join(s.dir, "main.lit"), 0o755)
			}
			var err error
			op := h.pick(5)
			log += fmt.Sprintf(" %s;", []string{"load", "load below a section", "build", "request", "index"}[op])
			h.Case("%s%s", s, log)
			switch op {
			case 0:
				_, err = p.LoadFile(s.in(), bases)
			case 1:
				_, err = p.LoadFileIn(&booklit.Section{Title: booklit.Empty, Body: booklit.Empty}, s.in(), bases)
			case 2:
				cmd := &booklitcmd.Command{In: s.in(), Out: filepath.Join(s.dir, "out"), SaveSearchIndex: h.chance(2)}
				if h.chance(2) {
					cmd.HTMLEngine.Templates = tmpls
				}
				if h.chance(4) {
					os.MkdirAll(filepath.Join(cmd.Out, "search_index.json"), 0o755)
				}
				if h.chance(4) {
					os.MkdirAll(filepath.Join(cmd.Out, oneOf(h, s.names...)+".html"), 0o755)
				}
				err = cmd.Build()
			case 3:
				server := &booklitcmd.Server{In: s.in(), Processor: p, Templates: tmpls, Engine: render.NewHTMLEngine(), FileServer: &static{}}
				server.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/"+strings.Replace(oneOf(h, s.names...), " ", "%20", -1)+".html", nil))
			case 4:
				root := h.tree(nil, "r", h.pick(3), 2)
				err = (render.Writer{Engine: render.NewHTMLEngine(), Destination: filepath.Join(s.dir, oneOf(h, "", "nope"))}).WriteSearchIndex(root, oneOf(h, "index", "tmpl", "index"))
			}
			h.Eq("open files", open(s.dir), "")
			for d := 0; err != nil && d < 10; d++ {
				if e, ok := err.(booklit.PrettyError); ok {
					e.PrettyPrint(new(bytes.Buffer))
					h.Eq("open files after the error was printed", open(s.dir), "")
					_ = e.PrettyHTML(new(bytes.Buffer))
					h.Eq("open files after the error page", open(s.dir), "")
				}
				err = errors.Unwrap(err)
			}
			for j := h.pick(3); j > 0; j-- {
				loc := booklit.ErrorLocation{FilePath: filepath.Join(s.dir, oneOf(h, "main.lit", "nope", "tmpl", "f2.lit"))}
				loc.NodeLocation.Line, loc.NodeLocation.Col, loc.NodeLocation.Offset = h.pick(30), 1+h.pick(5), 1
				loc.Length = h.pick(5)
				loc.AnnotateLocation(new(bytes.Buffer))
				_ = loc.AnnotatedHTML(new(bytes.Buffer))
				h.Eq(fmt.Sprintf("open files after line %d of %s was shown", loc.NodeLocation.Line, filepath.Base(loc.FilePath)), open(s.dir), "")
			}
		}
		os.RemoveAll(s.dir)
	}
}
