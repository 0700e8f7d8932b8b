package srv

import (
	"bytes"
	"context"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"kvh/h/acc"
	"kvh/h/js"
	"kvh/h/world"
	"kvh/px"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

const userCSV = "# user words\nb1,b 1,ビ イチ,ユーザ\nba,ba,バ,ユーザ\nbab,b a b,ビ ア ビ,ユーザ\n〡,〡,タテ,カスタム\n"

type answer struct {
	code int
	body string
}

// request makes one request to the server that is up.
func request(h http.Handler, addr, method, target, body, ctype string) answer {
	if !sym.Native() {
		u, err := url.Parse(target)
		if err != nil {
			panic(err)
		}
		r := &http.Request{Method: method, URL: u, RequestURI: target, Host: "x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body))), ContentLength: int64(len(body))}
		if ctype != "" {
			r.Header["Content-Type"] = []string{ctype}
		}
		w := &recorder{h: http.Header{}}
		h.ServeHTTP(w, r)
		return answer{w.code, string(w.b)}
	}
	r, err := http.NewRequest(method, "http://"+addr+target, bytes.NewReader([]byte(body)))
	if err != nil {
		panic(err)
	}
	if ctype != "" {
		r.Header.Set("Content-Type", ctype)
	}
	c := http.Client{Transport: &http.Transport{DisableKeepAlives: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	p, err := c.Do(r)
	if err != nil {
		return answer{-1, err.Error()}
	}
	defer p.Body.Close()
	b, _ := io.ReadAll(p.Body)
	return answer{p.StatusCode, string(b)}
}

// posts are the paths that the script of a page posts to.
func posts(s string) (r []string) {
	const f = "$.post('./"
	for {
		i := strings.Index(s, f)
		if i < 0 {
			return
		}
		s = s[i+len(f):]
		r = append(r, s[:strings.IndexByte(s, '\'')])
	}
}

// C30: what the server answers at its paths.
func C30() {
	server.Stderr = discard{}
	d := []*dict.Dict{ipa.Full, ipa.Full, uni.Full, ipa.Full}
	k := sym.Choose(4)
	args := [][]string{{}, {"-dict", "ipa"}, {"-dict=uni"}, {"-dict", ""}}[k]
	var opts []tokenizer.Option
	var ud []string
	bad := false
	switch sym.Choose(5) {
	case 1, 2:
		ud = []string{"-userdict", sym.File([]byte(userCSV))}
		opts = append(opts, tokenizer.UserDict(world.UserDict()))
		sym.Reach("udict")
	case 3:
		ud, bad = []string{"-userdict", sym.OutFile()}, true
	case 4:
		ud, bad = []string{"-userdict", sym.File([]byte("a,b c\n"))}, true
	}
	if sym.Choose(2) == 0 {
		args = append(args, ud...)
	} else {
		args = append(ud, args...)
	}
	t, err := tokenizer.New(d[k], opts...)
	if err != nil {
		panic(err)
	}
	b := sym.Bytes(1 + sym.Choose(sym.Param("n", 1)))
	for _, c := range b {
		sym.Assume(sym.Or(sym.And(c >= 'a', c <= 'c'), sym.And(c >= '0', c <= '2')))
	}
	text := string(b)
	mode := []string{"Normal", "Search", "Extended"}[sym.Choose(3)]
	form := url.Values{"s": {text}, "r": {mode}, "lattice": {"Lattice"}}.Encode()
	which := sym.Choose(6)

	env := px.Set(px.Plan{Kind: px.Good})
	defer env.Close()
	addr := env.Addr()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	served := false
	var a answer
	var asked []answer
	talk := func(h http.Handler) {
		served = true
		switch which {
		case 0:
			a = request(h, addr, "POST", "/tokenize", `{"sentence":"`+text+`","mode":"`+mode+`"}`, "")
		case 1:
			a = request(h, addr, "GET", "/?"+form, "", "")
		case 2:
			a = request(h, addr, "POST", "/", form, "application/x-www-form-urlencoded")
		case 3: // where the form is sent to
			a = request(h, addr, "POST", "/_demo", form, "application/x-www-form-urlencoded")
		case 4:
			a = request(h, addr, "GET", "/", "", "")
			for _, x := range posts(a.body) { // what its script asks for
				asked = append(asked, request(h, addr, "POST", "/"+x, `{"sentence":"`+text+`","mode":"`+mode+`"}`, "application/x-www-form-urlencoded"))
			}
		case 5:
			a = request(h, addr, "POST", "/tokenize", `{"sentence":`, "")
		}
		cancel()
	}
	px.Serving = talk
	done := make(chan bool, 1)
	if sym.Native() {
		go func() {
			defer func() { done <- true }()
			for i := 0; i < 200 && ctx.Err() == nil; i++ {
				if c, err := net.Dial("tcp", addr); err == nil {
					c.Close()
					talk(nil)
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
	}
	sym.Finishes(func() { err = server.Run(ctx, append([]string{"-http", addr}, args...)) }, "the server command does not end")
	cancel()
	if sym.Native() {
		<-done
	}
	if bad {
		sym.Assert(!served && err != nil, "the server starts, although the user dictionary cannot be read")
		sym.Reach("refused")
		return
	}
	sym.Assert(served && err == nil, "the server does not start")
	if px.Fired() {
		return
	}
	sym.Observe("code", a.code)
	sym.Observe("body", a.body)
	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" && which > 0 {
		m = tokenizer.Search
	} else if mode == "Extended" {
		m = tokenizer.Extended
	}
	toks := t.Analyze(text, m)
	toks = toks[1 : len(toks)-1]
	switch which {
	case 0:
		sym.Reach("api")
		v, ok := js.Parse(a.body)
		sym.Assert(ok && a.code == 200 && v.Kind == js.Object && v.Get("status").Bool, "the API does not answer")
		l := v.Get("tokens")
		sym.Assert(l.Kind == js.List && len(l.Items) == len(toks), "the API does not answer with the tokens")
		for i := range toks {
			sym.Assert(acc.Shown(l.Items[i], tokenizer.NewTokenData(toks[i])), "the API answers with other tokens")
		}
	case 1, 2, 3:
		sym.Reach("page")
		sym.Assert(a.code == 200, "there is no page")
		cs := cells(a.body)
		sym.Assert(len(cs) >= 5*len(toks) && len(cs) <= 5*len(toks)+2, "the page does not show the tokens")
		for i, x := range toks {
			sym.Assert(cs[len(cs)-5*len(toks)+5*i] == x.Surface, "the page shows other tokens")
			if b, ok := x.BaseForm(); ok {
				sym.Assert(cs[len(cs)-5*len(toks)+5*i+2] == b, "the page shows other tokens")
			}
		}
	case 4:
		sym.Reach("form")
		_, from, to, next := element(a.body, 0, "textarea")
		sym.Assert(a.code == 200 && next >= 0 && from == to, "there is no empty form")
		for _, x := range asked {
			v, ok := js.Parse(x.body)
			sym.Assert(ok && x.code == 200 && v.Kind == js.Object && v.Get("tokens").Kind == js.List, "the API does not answer what the page asks for")
		}
	case 5:
		sym.Reach("bad")
		v, ok := js.Parse(a.body)
		sym.Assert(ok && a.code == 400 && v.Kind == js.Object && !v.Get("status").Bool, "a request that is cut is not refused")
	}
}
