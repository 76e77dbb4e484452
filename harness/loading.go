package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

func init() {
	register("C04", "generated documents of inline and included sections up to four deep in several directories, with plugins used before, between and after sections, registered again under the same name, and unknown ones: children, parents, paths, plugins in order and bodies; also loaded as a file below a given parent", c04)
	register("C12", "histories of changes to files which include each other (written, with modification times going up, down and back, broken, removed, restored, of the same size and with the same time as other files), each followed by loads of any of them by one processor, also by several goroutines at once", c12)
}

// ---- C04 ----

// tagging is a plugin which only has a name.
type tagging struct {
	name string
	s    *booklit.Section
}

func (p tagging) Mark() booklit.Content { return booklit.String("mark-" + p.name) }

type sec struct {
	title, path string
	words       []string
	plugins     []string
	kids        []*sec
}

type nesting struct {
	h     *H
	files map[string]string
	n     int
	known map[string]string // what is registered under a name
	fail  bool
}

func (d *nesting) word() string { d.n++; return fmt.Sprintf("w%dq", d.n) }

// section writes the contents of a section of the file at path.
func (d *nesting) section(path, file string, plugins []string, depth int) (*sec, string) {
	h := d.h
	s := &sec{title: "T" + d.word(), path: path, plugins: append([]string{}, plugins...)}
	text := fmt.Sprintf("\\title{%s}\n\n", s.title)
	for i := h.pick(6); i > 0; i-- {
		switch k := h.pick(8); {
		case k < 2:
			w := d.word()
			s.words = append(s.words, w)
			text += w + "\n\n"
		case k < 4:
			n := oneOf(h, "pa", "pb", "pc")
			if h.chance(60) {
				n = "p-unknown"
				d.fail = true
			}
			s.plugins = append(s.plugins, d.known[n])
			text += fmt.Sprintf("\\use-plugin{%s}\n\n", n)
		case k == 4 && len(s.plugins) > 1:
			// what the plugin used first answers is only reached if it is asked first
			s.words = append(s.words, "mark-"+s.plugins[1])
			text += "\\mark\n\n"
		case k < 7 && depth > 0:
			kid, inner := d.section("", file, s.plugins, depth-1)
			s.kids = append(s.kids, kid)
			text += "\\section{\n" + indent(inner) + "}\n\n"
		case depth > 0:
			d.n++
			rel := fmt.Sprintf(oneOf(h, "f%d.lit", "sub/f%d.lit", "sub/deep/f%d.lit", "../f%d.lit", "./sub/../f%d.lit", "sub/f%d"), d.n)
			full := filepath.Join(filepath.Dir(file), rel)
			if strings.HasPrefix(full, "..") {
				continue
			}
			kid, inner := d.section(full, full, []string{"base"}, depth-1)
			s.kids = append(s.kids, kid)
			d.files[full] = inner
			text += fmt.Sprintf("\\include-section{%s}\n\n", rel)
		}
	}
	return s, text
}

func pluginNames(s *booklit.Section) string {
	var ns []string
	for _, p := range s.Plugins {
		switch v := p.(type) {
		case tagging:
			if v.s != s {
				ns = append(ns, v.name+" of another section")
			} else {
				ns = append(ns, v.name)
			}
		case baselit.Plugin:
			ns = append(ns, "base")
		default:
			ns = append(ns, fmt.Sprintf("%T", p))
		}
	}
	return strings.Join(ns, " ")
}

func (h *H) sameTree(dir string, got *booklit.Section, want *sec, parent *booklit.Section) {
	path := want.path
	if path != "" {
		path = filepath.Join(dir, path)
	}
	at := "section " + want.title
	h.Eq("title of "+at, got.Title.String(), want.title)
	h.Eq("path of "+at, got.Path, path)
	if got.Parent != parent {
		h.Fail("%s has the wrong parent", at)
	}
	h.Eq("plugins of "+at, pluginNames(got), strings.Join(want.plugins, " "))
	h.Eq("plugin factories of "+at, len(got.PluginFactories), len(want.plugins))
	h.Eq("body of "+at, strings.Join(strings.Fields(got.Body.String()), " "), strings.Join(want.words, " "))
	var ts, ws []string
	for _, c := range got.Children {
		ts = append(ts, c.Title.String())
	}
	for _, c := range want.kids {
		ws = append(ws, c.title)
	}
	h.Eq("sections of "+at, strings.Join(ts, " "), strings.Join(ws, " "))
	for i, c := range got.Children {
		h.sameTree(dir, c, want.kids[i], got)
	}
}

func c04(h *H) {
	for i := 0; i < h.N(900) && h.More(); i++ {
		d := &nesting{h: h, files: map[string]string{}, known: map[string]string{}}
		reg := ""
		for _, n := range []string{"pa", "pb", "pc"} {
			// the last one registered counts
			for k := 1 + h.pick(2); k > 0; k-- {
				name := n + "-" + d.word()
				booklit.RegisterPlugin(n, func(s *booklit.Section) booklit.Plugin { return tagging{name, s} })
				d.known[n] = name
				reg += n + "=" + name + " "
			}
		}
		main := oneOf(h, "main.lit", "docs/main.lit", "a/b/main.lit")
		want, text := d.section(main, main, []string{"base"}, 1+h.pick(4))
		d.files[main] = text
		h.Case("registered %s; loading %s of\n%s", reg, main, listing(d.files))
		dir := h.write(d.files)
		p := &load.Processor{}
		var parent *booklit.Section
		if h.chance(3) {
			parent = &booklit.Section{Path: filepath.Join(dir, "elsewhere", "x.lit"), Title: booklit.Empty, Body: booklit.Empty, Processor: p}
		}
		for k := 1 + h.pick(2); k > 0; k-- {
			s, err := p.LoadFileIn(parent, filepath.Join(dir, main), []booklit.PluginFactory{baselit.NewPlugin})
			if d.fail {
				if err == nil {
					h.Fail("using a plugin which is not registered did not fail")
				}
				continue
			}
			if err != nil {
				h.Fail("loading failed: %v", err)
			}
			h.sameTree(dir, s, want, parent)
			if parent != nil && len(parent.Children) != 0 {
				h.Fail("the parent got children")
			}
		}
		os.RemoveAll(dir)
	}
}

// ---- C12 ----

type histFile struct {
	name    string
	text    string // what the document says
	subs    []int
	state   string // ok, broken or gone
	version int
}

func c12(h *H) {
	base := time.Now().Add(-1000 * time.Hour).Truncate(time.Second)
	for i := 0; i < h.N(200) && h.More(); i++ {
		p := &load.Processor{}
		dir := h.write(nil)
		names := []string{"a.lit", "b.lit", "sub/a.lit", "sub/c.lit", "d.lit"}
		fs := make([]*histFile, len(names))
		os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
		clock := 0
		log := ""
		type saved struct {
			f     histFile
			bytes string
			at    time.Time
		}
		var history []saved
		write := func(k int) {
			f := fs[k]
			f.version++
			clock++
			at := base.Add(time.Duration(clock) * oneOf(h, time.Second, time.Nanosecond, time.Millisecond))
			if h.chance(2) {
				at = base.Add(-time.Duration(clock) * oneOf(h, time.Second, time.Nanosecond))
			}
			// the same time for all files written in a round, never twice for one file
			f.text = fmt.Sprintf("k%dv%03d", k, f.version)
			f.subs, f.state = nil, "ok"
			doc := fmt.Sprintf("\\title{T%d}\n\n%s\n\n", k, f.text)
			if h.chance(5) {
				f.state = "broken"
				doc += "\\section{ never closed\n"
			} else {
				for j := k + 1; j < len(fs); j++ {
					if h.chance(3) {
						rel, _ := filepath.Rel(filepath.Dir(names[k]), names[j])
						doc += fmt.Sprintf("\\include-section{%s}\n\n", rel)
						f.subs = append(f.subs, j)
					}
				}
			}
			path := filepath.Join(dir, names[k])
			os.WriteFile(path, []byte(doc), 0o644)
			os.Chtimes(path, at, at)
			history = append(history, saved{*f, doc, at})
			log += fmt.Sprintf(" %s is %q at %s;", names[k], doc, at.Sub(base))
		}
		for k := range fs {
			fs[k] = &histFile{name: names[k], state: "gone"}
			write(k)
		}
		// what loading k gives: the words in order, or a failure
		var words func(k int) ([]string, bool)
		words = func(k int) ([]string, bool) {
			f := fs[k]
			if f.state != "ok" {
				return nil, false
			}
			ws := []string{f.text}
			for _, j := range f.subs {
				w, ok := words(j)
				if !ok {
					return nil, false
				}
				ws = append(ws, w...)
			}
			return ws, true
		}
		var got func(s *booklit.Section) []string
		got = func(s *booklit.Section) []string {
			ws := []string{strings.Join(strings.Fields(s.Body.String()), " ")}
			for _, c := range s.Children {
				ws = append(ws, got(c)...)
			}
			return ws
		}
		try := func(k int) string {
			s, err := p.LoadFile(filepath.Join(dir, names[k]), []booklit.PluginFactory{baselit.NewPlugin})
			ws, ok := words(k)
			if !ok {
				if err == nil {
					return fmt.Sprintf("loading %s, which needs a file that is broken or missing, did not fail: %v", names[k], got(s))
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("loading %s failed: %v", names[k], err)
			}
			if s.Path != filepath.Join(dir, names[k]) {
				return fmt.Sprintf("path of the section loaded from %s is %s", names[k], s.Path)
			}
			if fmt.Sprint(got(s)) != fmt.Sprint(ws) {
				return fmt.Sprintf("%s says %v\nloaded: %v", names[k], ws, got(s))
			}
			return ""
		}
		for k := 2 + h.pick(10); k > 0; k-- {
			for j := h.pick(3); j > 0; j-- {
				f := h.pick(len(fs))
				switch h.pick(6) {
				case 0:
					os.Remove(filepath.Join(dir, names[f]))
					fs[f].state = "gone"
					log += " rm " + names[f] + ";"
				case 1:
					// what the file once was, with the time it had
					was := history[h.pick(len(history))]
					for x, n := range names {
						if n == was.f.name {
							v := fs[x].version
							*fs[x] = was.f
							fs[x].version = v
							path := filepath.Join(dir, n)
							os.WriteFile(path, []byte(was.bytes), 0o644)
							os.Chtimes(path, was.at, was.at)
						}
					}
					log += fmt.Sprintf(" %s is %q again;", was.f.name, was.bytes)
				default:
					write(f)
				}
			}
			if h.chance(4) {
				log += " load all at once;"
				h.Case("%s", log)
				var wg sync.WaitGroup
				out := make([]string, 8)
				for g := range out {
					wg.Add(1)
					go func() {
						defer wg.Done()
						out[g] = try(g % len(fs))
					}()
				}
				wg.Wait()
				for _, o := range out {
					if o != "" {
						h.Fail("%s", o)
					}
				}
			}
			for j := 1 + h.pick(3); j > 0; j-- {
				f := h.pick(len(fs))
				log += " load " + names[f] + ";"
				h.Case("%s", log)
				if o := try(f); o != "" {
					h.Fail("%s", o)
				}
			}
		}
		os.RemoveAll(dir)
	}
}
