// The harness drives the real code of booklit on generated inputs and compares
// what it does with oracles written from the properties. It is the bounded
// stand-in for code out of reach of the verifier and the search for failing
// inputs.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
)

// H is one run for one property.
type H struct {
	Prop  string
	R     *rand.Rand
	Deep  bool
	Dir   string
	scale int

	evals    int
	distinct map[string]bool
	rule     string
	samples  []string
	failure  *Failure
	caseFile string
	cur      string
	deadline time.Time
	started  time.Time
}

// Failure is a failing input.
type Failure struct {
	Case    string `json:"case"`
	Message string `json:"message"`
}

type stop struct{}

// Case notes the input which is about to be tried. Its text identifies it.
func (h *H) Case(f string, a ...any) {
	h.cur = fmt.Sprintf(f, a...)
	h.evals++
	h.started = time.Now()
	if len(h.cur) > 20 {
		h.distinct[h.cur] = true
	}
	if len(h.samples) < 3 && h.evals%7 == 1 {
		h.samples = append(h.samples, clip(h.cur, 600))
	}
	if h.caseFile != "" {
		os.WriteFile(h.caseFile, []byte(h.cur), 0o644)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Fail reports a failing input and stops.
func (h *H) Fail(f string, a ...any) {
	if h.failure == nil {
		h.failure = &Failure{Case: h.cur, Message: fmt.Sprintf(f, a...)}
	}
	panic(stop{})
}

// Eq fails if what is not as wanted.
func (h *H) Eq(what string, got, want any) {
	g, w := fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want)
	if g != w {
		h.Fail("%s:\n got  %s\n want %s", what, clip(g, 3000), clip(w, 3000))
	}
}

// N scales a number of iterations.
func (h *H) N(n int) int { return n * h.scale }

// More is whether there is time for another round.
func (h *H) More() bool { return time.Now().Before(h.deadline) }

var props = map[string]func(*H){}
var rules = map[string]string{}

func register(id, rule string, f func(*H)) {
	props[id] = f
	rules[id] = rule
}

func main() {
	if len(os.Args) < 3 {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("usage: harness PROPERTY OUT.json; properties:", strings.Join(ids, " "))
		os.Exit(2)
	}
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.ErrorLevel)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &H{Prop: os.Args[1], R: rand.New(rand.NewSource(seed*7919 + 13)), distinct: map[string]bool{}, scale: 1, rule: rules[os.Args[1]], caseFile: os.Args[2] + ".case"}
	h.Deep = os.Getenv("VERIF_DEEP") != ""
	limit := 25 * time.Second
	if h.Deep {
		h.scale, limit = 4, 90*time.Second
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		h.scale, limit = 40, 600*time.Second
	}
	h.deadline = time.Now().Add(limit)
	dir, err := os.MkdirTemp("", "harness-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	h.Dir = dir
	f := props[h.Prop]
	if f != nil {
		h.run(f)
	}
	res := map[string]any{"evaluations": h.evals, "distinct_nontrivial": len(h.distinct), "rule": h.rule, "samples": h.samples}
	if h.failure != nil {
		res["failure"] = h.failure
	}
	b, _ := json.MarshalIndent(res, "", " ")
	os.WriteFile(os.Args[2], b, 0o644)
	os.RemoveAll(dir)
	if h.failure != nil {
		fmt.Println("FAIL", h.failure.Case, "\n", h.failure.Message)
		os.Exit(1)
	}
	fmt.Println(h.Prop, h.evals, "evaluations,", len(h.distinct), "distinct, ok")
}

func (h *H) run(f func(*H)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			if h.failure == nil {
				h.failure = &Failure{Case: h.cur, Message: fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 4000))}
			}
		}
	}()
	f(h)
}

// Try runs f and returns what it panicked with, if it did.
func Try(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 2000))
		}
	}()
	f()
	return nil
}

func (h *H) pick(n int) int { return h.R.Intn(n) }

func (h *H) chance(n int) bool { return h.R.Intn(n) == 0 }

func oneOf[T any](h *H, xs ...T) T { return xs[h.R.Intn(len(xs))] }
