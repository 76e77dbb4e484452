package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

// write writes files into a new directory and returns it.
func (h *H) write(files map[string]string) string {
	dir, err := os.MkdirTemp(h.Dir, "d")
	if err != nil {
		panic(err)
	}
	h.writeTo(dir, files)
	return dir
}

func (h *H) writeTo(dir string, files map[string]string) {
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
}

// load writes the files and loads the one named main.
func (h *H) load(files map[string]string, main string, more ...booklit.PluginFactory) (*booklit.Section, error) {
	dir := h.write(files)
	defer os.RemoveAll(dir)
	p := &load.Processor{}
	return p.LoadFile(filepath.Join(dir, main), append([]booklit.PluginFactory{baselit.NewPlugin}, more...))
}

// listing is what files hold, for the description of a case.
func listing(files map[string]string) string {
	var ks []string
	for k := range files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString("--- " + k + "\n" + files[k] + "\n")
	}
	return b.String()
}
