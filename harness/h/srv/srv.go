// Package srv checks the demo page and the server command (C21, C22).
package srv

import (
	"context"
	"net/http"
	"net/url"
	"strings"
	"syscall"
	"time"

	"kvh/h/world"
	"kvh/px"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func Setup() {
	world.Setup()
	ipa.Full, ipa.Shrunk = world.Full(), world.Shrunk()
	uni.Full, uni.Shrunk = world.Other(), world.Shrunk()
}

type recorder struct {
	h    http.Header
	code int
	b    []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(p []byte) (int, error) {
	r.WriteHeader(http.StatusOK)
	r.b = append(r.b, p...)
	return len(p), nil
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// C21: the demo page, whatever the graph renderer does.
func C21() {
	server.Stderr = discard{}
	kind := sym.Choose(sym.Param("kinds", px.Holds)) // Holds: known finding KF21
	if k := sym.Param("kind", -1); k >= 0 {
		sym.Assume(kind == k)
	}
	p := px.Plan{Kind: kind, Big: sym.Choose(2) == 1}
	text := strings.Repeat("ab", sym.Param("n", 1))
	if n := sym.Param("sym", 0); n > 0 {
		b := sym.Bytes(n)
		for _, c := range b {
			sym.Assume(sym.And(c >= 'a', c <= 'c'))
		}
		text = string(b)
	}
	if sym.Native() && (p.Big || kind == px.Deaf0 || kind == px.Deaf1 || kind == px.Part) {
		text = strings.Repeat(text, 3000/len(text))
	}
	mode := []string{"Normal", "Search", "Extended", ""}[sym.Choose(4)]
	gone := sym.Choose(2) == 1 // the client goes away
	hangs := kind == px.Mute || kind == px.Stuck || kind == px.Holds
	t := world.Std().Tokenizer()
	h := &server.TokenizeDemoHandler{}
	sym.Assert(sym.Inject(h, t), "no tokenizer in the handler")
	w := &recorder{h: http.Header{}}
	r := &http.Request{Method: "GET", Header: http.Header{}, Form: url.Values{"s": {text}, "r": {mode}, "lattice": {"1"}}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r = r.WithContext(ctx)
	if hangs && !gone {
		sym.NoReplay()
	}

	env := px.Set(p)
	defer env.Close()
	if gone {
		later(cancel)
	}
	sym.Finishes(func() { h.ServeHTTP(w, r) }, "the page is never answered")
	if !gone {
		// the server ends the context of a request that is answered
		cancel()
	}
	left := env.Leftover()
	body := string(w.b)
	failed := strings.Contains(body, "Error: ")
	sym.Observe("code", w.code)
	sym.Assert(w.code == http.StatusOK, "the page is not answered with 200")
	sym.Assert(left == 0, "a goroutine or process is left behind")
	switch kind {
	case px.Good:
		if !gone && !px.Fired() {
			sym.Assert(!failed, "an error text, although the renderer did not fail")
		}
		sym.Reach("good")
	case px.Deaf0: // ends without an error
	default:
		sym.Assert(failed, "the renderer failed, and the page says nothing")
		sym.Reach("failed")
	}
	if kind == px.Good && !failed {
		sym.Assert(strings.Contains(body, `<svg id="kvh">graph</svg>`), "the graphic is not on the page")
		m := tokenizer.Normal
		if mode == "Search" || mode == "Extended" {
			m = tokenizer.Search
		}
		for _, t := range t.Analyze(text, m) {
			sym.Assert(t.ID == tokenizer.BosEosID || strings.Contains(body, t.Surface), "a token is not on the page")
		}
	}
}

// later calls f at some time.
func later(f func()) {
	if sym.Native() {
		time.AfterFunc(time.Duration(sym.Param("ms", 300))*time.Millisecond, f)
		return
	}
	sym.Timer(f)
}

// C22: the server command, ended by its context, by signals or by a failure of
// the listener.
func C22() {
	server.Stderr = discard{}
	p := px.Plan{Kind: px.Missing, Listen: sym.Choose(3), Busy: sym.Choose(2) == 1}
	if p.Busy || p.Listen == 2 {
		sym.NoReplay()
	}
	cancelled := sym.Choose(2) == 1
	signals := sym.Choose(sym.Param("signals", 2) + 1)
	kind := sym.Choose(3)
	sym.Assume(cancelled || signals > 0 || p.Listen > 0)
	env := px.Set(p)
	defer env.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if cancelled {
		if sym.Choose(2) == 1 {
			cancel()
		} else {
			later(cancel)
		}
	}
	for i := 0; i < signals; i++ {
		later(func() { px.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[kind]) })
	}
	addr := env.Addr()
	if p.Listen == 0 && p.Busy {
		env.Request(addr)
	}
	var err error
	sym.Finishes(func() { err = server.Run(ctx, []string{"-http", addr}) }, "the server command does not end")
	left := env.Leftover()
	sym.Assert(left == 0, "the server command leaves something running")
	switch {
	case p.Listen == 0:
		sym.Assert(err == nil, "an error, although the listener did not fail")
		sym.Reach("ended")
	case !cancelled && signals == 0:
		sym.Assert(err != nil, "the failure of the listener is not returned")
		sym.Reach("failed")
	}
	if p.Listen > 0 && err != nil {
		sym.Assert(!strings.Contains(err.Error(), http.ErrServerClosed.Error()), "another error than that of the listener")
	}
}
