// Package api checks the HTTP API (C20).
package api

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"

	"kvh/h/acc"
	"kvh/h/cli"
	"kvh/h/js"
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func Setup() { world.Setup() }

// recorder is a response writer.
type recorder struct {
	h     http.Header
	code  int
	codes int
	b     []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.codes == 0 {
		r.code = c
	}
	r.codes++
}
func (r *recorder) Write(p []byte) (int, error) {
	if r.codes == 0 {
		r.WriteHeader(http.StatusOK)
	}
	r.b = append(r.b, p...)
	return len(p), nil
}

func post(t *tokenizer.Tokenizer, body []byte) *recorder {
	h := &server.TokenizeHandler{}
	sym.Assert(sym.Inject(h, t), "no tokenizer in the handler")
	w := &recorder{h: http.Header{}}
	h.ServeHTTP(w, &http.Request{Method: "POST", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))})
	return w
}

// C20: requests.
func C20() {
	t := world.Std().Tokenizer()
	n := sym.Param("n", 2)
	var body []byte
	sentence, mode, decodes := "", "", true
	switch sym.Param("kind", 0) {
	case 0: // a sentence, any mode
		raw := world.Text()
		for i := 0; i < len(raw); i++ {
			sym.Assume(sym.And(raw[i] >= ' ', raw[i] != '"', raw[i] != '\\'))
		}
		sentence = js.Clean(raw)
		body = append(append(append(body, `{"sentence":"`...), raw...), `"`...)
		switch k := sym.Choose(7); k {
		case 1, 2, 3, 4, 5:
			mode = []string{"Normal", "Search", "Extended", "search", ""}[k-1]
			body = append(append(append(body, `,"mode":"`...), mode...), `"`...)
		case 6:
			if mode = sym.String(1); sym.Param("near", 0) == 1 {
				mode = cli.Near([]string{"Search", "Extended", "Normal"})
			}
			for i := 0; i < len(mode); i++ {
				sym.Assume(sym.And(mode[i] >= ' ', mode[i] < 0x7f, mode[i] != '"', mode[i] != '\\'))
			}
			body = append(append(append(body, `,"mode":"`...), mode...), `"`...)
		}
		body = append(body, '}')
	case 1: // an escaped sentence
		sentence = world.Text()
		if sym.Param("esc", 0) == 1 { // what is written with escapes, or looks like it
			sentence = []string{`\u0026`, `\u003C\n`, "&<>", `"\"`, "\u2028\u2029", "</script>", "\x00\x1f\x7f", "\t\r\n", "\\", "\ufeff\ufffd"}[sym.Choose(10)] + sentence
		}
		b, err := json.Marshal(sentence)
		if err != nil {
			panic(err)
		}
		sentence = js.Clean(sentence)
		mode = []string{"Search", "Extended", "Normal"}[sym.Choose(3)]
		body = append(append(append(append(body, ` { "mode" : "`...), mode...), `" , "sentence" : `...), b...)
		body = append(body, " }\n"...)
	case 2, 3, 4, 5: // anything
		p := sym.Param("kind", 0) - 2
		pre := []string{"", `{"sentence":`, `{"sentence":"a`, `{"mode":"Search","sentence":"z`}[p]
		body = append([]byte(pre), sym.Bytes(sym.Choose(n+1))...)
		body = append(body, []string{"", "}", "", `"}`}[p]...)
		sentence, mode, decodes = read(string(body))
	}
	sym.Observe("body", string(body))
	w := post(t, body)
	out := string(w.b)
	sym.Observe("status", w.code)
	if decodes {
		sym.Observe("out", out)
	}
	v, ok := js.Parse(out)
	sym.Assert(ok && v.Kind == js.Object, "the answer is not well-formed JSON")
	st := v.Get("status")
	sym.Assert(st.Kind == js.Bool, "the answer has no status")
	sym.Assert(w.codes == 1, "the status code is not written once")
	if !decodes {
		sym.Reach("bad")
		sym.Assert(w.code == 400 && !st.Bool, "a request that does not decode is not answered 400, false")
		return
	}
	sym.Assert(w.code == 200 && st.Bool, "a request that decodes is not answered 200, true")
	l := v.Get("tokens")
	sym.Assert(l.Kind == js.List, "the answer has no list of tokens")
	m := tokenizer.Normal
	switch mode {
	case "Search":
		m = tokenizer.Search
	case "Extended":
		m = tokenizer.Extended
	}
	toks := t.Analyze(sentence, m)
	toks = toks[1 : len(toks)-1]
	sym.Assert(len(l.Items) == len(toks), "another number of tokens")
	for i := range toks {
		sym.Reach("token")
		if toks[i].Class == tokenizer.DUMMY {
			sym.Reach("dummy")
		}
		sym.Assert(acc.Shown(l.Items[i], tokenizer.NewTokenData(toks[i])), "another token")
	}
}

// read is what a request body says: the first JSON value, which has to be an
// object (or null) whose sentence and mode are strings.
func read(s string) (sentence, mode string, ok bool) {
	v, ok := js.Request(s)
	if !ok || v.Kind != js.Object && v.Kind != js.Null {
		return "", "", false
	}
	for i, k := range v.Keys {
		x := v.Items[i]
		if k != "sentence" && k != "mode" {
			continue
		}
		if x.Kind != js.String && x.Kind != js.Null {
			return "", "", false
		}
		if x.Kind == js.Null {
			continue
		}
		if k == "mode" {
			mode = x.Str
		} else {
			sentence = x.Str
		}
	}
	return sentence, mode, true
}
