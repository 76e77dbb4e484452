package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/stages"
)

func init() {
	register("C22", "deferred content: every kind of result (text, nested, nil, failing with and without content), forced once or many times, in sequence and by many goroutines at once, and used at several places of documents which are stripped, collected, stringified, and rendered several times as HTML and as text", c22)
}

type counted struct {
	l       *booklit.Lazy
	n       int32
	content booklit.Content
	err     error
	block   bool
	slow    bool
}

func (h *H) lazy() *counted {
	c := &counted{block: h.chance(2)}
	switch h.pick(6) {
	case 0:
		c.err = errors.New(h.name())
	case 1:
		c.err = errors.New(h.name())
		c.content = booklit.String(h.name())
	case 2:
		// neither content nor an error
	case 3:
		c.content = booklit.Sequence{booklit.String(h.name()), booklit.String(h.name())}
	default:
		c.content = booklit.String(h.name())
	}
	f := func() (booklit.Content, error) {
		n := atomic.AddInt32(&c.n, 1)
		if c.slow {
			time.Sleep(time.Millisecond)
		}
		if n > 1 {
			return booklit.String("computed again"), errors.New("computed again")
		}
		return c.content, c.err
	}
	if c.block {
		c.l = booklit.LazyBlock(f)
	} else {
		c.l = booklit.LazyFlow(f)
	}
	return c
}

func (c *counted) String() string {
	return fmt.Sprintf("lazy(block %v, gives %s, %v)", c.block, Dump(c.content), c.err)
}

func c22(h *H) {
	for i := 0; i < h.N(1500) && h.More(); i++ {
		c := h.lazy()
		uses := 1 + h.pick(4)
		h.Case("%v used %d times", c, uses)
		passive := func() {
			h.Eq("IsFlow", c.l.IsFlow(), !c.block)
			var con booklit.Content = booklit.Sequence{booklit.String("a"), c.l}
			_ = con.String()
			_ = c.l.String()
			_ = booklit.StripAux(con)
			_ = booklit.StripAux(c.l)
			s := &booklit.Section{Title: booklit.Empty, Body: booklit.Empty}
			s.SetTitle(con, ast.Location{})
			s.Body = booklit.Append(con, c.l, booklit.Aux{Content: c.l})
			s.SetPartial("P", c.l)
			if err := s.Visit(&stages.Collect{Section: s}); err != nil {
				h.Fail("collect: %v", err)
			}
			s.FindTag("a")
			s.SimilarTags("a")
		}
		passive()
		h.Eq("calls before it is needed", c.n, 0)
		for j := 0; j < uses; j++ {
			con, err := c.l.Force()
			h.Eq("content", Dump(con), Dump(c.content))
			h.Eq("error", err, c.err)
			h.Eq("calls", c.n, 1)
			passive()
			h.Eq("calls", c.n, 1)
		}
	}
	// at once
	for i := 0; i < h.N(120) && h.More(); i++ {
		c := h.lazy()
		c.slow = h.chance(2)
		n := 2 + h.pick(14)
		h.Case("%v used by %d goroutines", c, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		got := make([]string, n)
		for j := 0; j < n; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				<-start
				con, err := c.l.Force()
				got[j] = fmt.Sprint(Dump(con), err)
			}(j)
		}
		close(start)
		wg.Wait()
		for _, g := range got {
			h.Eq("result", g, fmt.Sprint(Dump(c.content), c.err))
		}
		h.Eq("calls", c.n, 1)
	}
	// in documents
	for i := 0; i < h.N(60) && h.More(); i++ {
		c := h.lazy()
		var doc booklit.Content = c.l
		places := 1
		for j := h.pick(4); j > 0; j-- {
			switch h.pick(4) {
			case 0:
				doc = booklit.Append(doc, c.l)
				places++
			case 1:
				doc = booklit.Aux{Content: doc}
			case 2:
				doc = booklit.Sequence{booklit.String("x"), doc, c.l}
				places++
			case 3:
				doc = booklit.Paragraph{doc, c.l}
				places++
			}
		}
		rounds := 1 + h.pick(3)
		h.Case("%v at %d places of %s, rendered %d times", c, places, Dump(doc), rounds)
		s := &booklit.Section{Title: booklit.String("T"), Body: doc}
		s.SetTitle(s.Title, ast.Location{})
		for j := 0; j < rounds; j++ {
			for _, e := range []render.Engine{render.NewHTMLEngine(), render.NewTextEngine("txt")} {
				var b bytes.Buffer
				err := e.RenderSection(&b, s)
				if c.err != nil {
					if err == nil || !strings.Contains(err.Error(), c.err.Error()) {
						h.Fail("error of %T: got %v, want one with %v", e, err, c.err)
					}
				} else {
					if err != nil {
						h.Fail("%T: %v", e, err)
					}
					if c.content == nil {
						h.Eq("calls", c.n, 1)
						continue
					}
					want := c.content.String()
					if n := strings.Count(b.String(), want); n < places {
						h.Fail("%T: %q is there %d times, want %d:\n%s", e, want, n, places, b.String())
					}
				}
				h.Eq("calls", c.n, 1)
			}
		}
	}
}

// name is a plain word, most likely not used before.
func (h *H) name() string { return fmt.Sprintf("w%dx", h.pick(1000000)) }
