package srv

import (
	"net/http"
	"net/url"
	"strings"

	"kvh/h/world"
	"kvh/px"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var entities = []string{"&#34;", "\"", "&quot;", "\"", "&amp;", "&", "&#39;", "'", "&#43;", "+", "&lt;", "<", "&gt;", ">"}

// unescape is the text that HTML shows; false if there is mark-up in it.
func unescape(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); {
		if s[i] == '<' {
			return "", false
		}
		found := false
		if s[i] == '&' {
			for k := 0; k < len(entities) && !found; k += 2 {
				if strings.HasPrefix(s[i:], entities[k]) {
					b = append(b, entities[k+1]...)
					i += len(entities[k])
					found = true
				}
			}
		}
		if !found {
			b = append(b, s[i])
			i++
		}
	}
	return string(b), true
}

// shown is what is shown of a text.
func shown(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			b = append(b, "\uFFFD"...)
		} else {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// element finds the next element of that name from position p, the
// attributes in its tag, the start and end of its contents and the position
// after it.
func element(s string, p int, name string) (attrs string, from, to, next int) {
	for {
		i := strings.Index(s[p:], "<"+name)
		if i < 0 {
			return "", 0, 0, -1
		}
		p += i + 1 + len(name)
		j := strings.IndexByte(s[p:], '>')
		sym.Assert(j >= 0, "the page is cut")
		if s[p] != '>' && s[p] != ' ' && s[p] != '\n' {
			continue
		}
		k := strings.Index(s[p+j+1:], "</"+name+">")
		sym.Assert(k >= 0, "the page is cut")
		return s[p : p+j], p + j + 1, p + j + 1 + k, p + j + 1 + k + len(name) + 3
	}
}

// cells are the texts in the cells of the tables of a page.
func cells(s string) (r []string) {
	for {
		i := strings.Index(s, "<script")
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], "</script>")
		sym.Assert(j >= 0, "the page is cut")
		s = s[:i] + s[i+j+len("</script>"):]
	}
	for p := 0; ; {
		_, from, to, next := element(s, p, "td")
		if next < 0 {
			return
		}
		c, ok := unescape(s[from:to])
		sym.Assert(ok, "a text is written to the page as mark-up")
		r = append(r, c)
		p = next
	}
}

// checked is the option of the form that is chosen.
func checked(s string) (value string) {
	for {
		i := strings.Index(s, "<input")
		if i < 0 {
			return
		}
		s = s[i:]
		j := strings.IndexByte(s, '>')
		sym.Assert(j >= 0, "the page is cut")
		in := s[:j]
		s = s[j:]
		if !strings.Contains(in, `type="radio"`) || !strings.HasSuffix(strings.TrimSpace(in), "checked") {
			continue
		}
		v := strings.Index(in, `value="`)
		sym.Assert(v >= 0, "an option without a value")
		v += len(`value="`)
		value = in[v : v+strings.IndexByte(in[v:], '"')]
	}
}

// C29: what the demo page shows.
func C29() {
	server.Stderr = discard{}
	text := world.Text()
	var mode string
	switch k := sym.Choose(6); k {
	case 4:
		mode = []string{"normal", "search", "EXTENDED", "Search "}[sym.Choose(4)]
	case 5:
		mode = sym.String(sym.Param("mode", 1))
	default:
		mode = []string{"Normal", "Search", "Extended", ""}[k]
	}
	form := sym.Choose(2) == 0
	v := url.Values{"s": {text}, "r": {mode}}
	kind := px.Good
	if !form {
		v["lattice"] = []string{"1"}
		kind = []int{px.Good, px.Missing, px.Fails}[sym.Choose(3)]
	} else {
		kind = px.Missing
	}
	t := world.Std().Tokenizer()
	h := &server.TokenizeDemoHandler{}
	sym.Assert(sym.Inject(h, t), "no tokenizer in the handler")
	w := &recorder{h: http.Header{}}
	graphic := px.SVG
	if kind == px.Good {
		switch sym.Choose(4) {
		case 1:
			graphic = `<svg id="kvh">graph</svg>`
		case 2:
			graphic = "<?xml?>\n<!-- a < b -->\n<svg id=\"kvh\"><g>graph <svg></svg>&#26085;\u672c</g></svg>\n<svg/>\n"
		case 3:
			graphic = sym.String(sym.Param("prolog", 1)) + "<svg>" + sym.String(sym.Param("prolog", 1)) + "</svg>"
		}
	}
	env := px.Set(px.Plan{Kind: kind, Graphic: graphic})
	defer env.Close()
	h.ServeHTTP(w, &http.Request{Method: "GET", Header: http.Header{}, Form: v})
	body := string(w.b)
	sym.Observe("body", body)
	sym.Assert(w.code == http.StatusOK, "the page is not answered with 200")
	cs := cells(body)
	if form {
		_, from, to, next := element(body, 0, "textarea")
		sym.Assert(next >= 0, "no place for a sentence")
		s, ok := unescape(body[from:to])
		sym.Assert(ok, "the sentence is written to the page as mark-up")
		sym.Assert(s == shown(text), "the form does not show the sentence")
		opt := "Normal"
		if mode == "Search" || mode == "Extended" {
			opt = mode
			sym.Reach("mode")
		}
		sym.Assert(checked(body) == opt, "the form does not show the mode")
		sym.Assert(len(cs) == 0, "tokens that nobody asked for")
		sym.Assert(!strings.Contains(body, "Error: "), "an error on the form")
		return
	}
	if px.Fired() {
		return
	}
	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" {
		m = tokenizer.Search
	}
	var want []string
	if kind == px.Good {
		for _, x := range t.Analyze(text, m) {
			if x.ID == tokenizer.BosEosID {
				continue
			}
			row := []string{x.Surface, strings.Join(x.POS(), ","), "*", "*", "*"}
			if row[1] == "" {
				row[1] = "*"
			}
			if v, ok := x.BaseForm(); ok {
				row[2] = v
			}
			if v, ok := x.Reading(); ok {
				row[3] = v
			}
			if v, ok := x.Pronunciation(); ok {
				row[4] = v
			}
			for _, c := range row {
				want = append(want, shown(c))
			}
			if x.Class == tokenizer.DUMMY {
				sym.Reach("dummy")
			}
		}
		sym.Assert(strings.Contains(body, graphic[strings.Index(graphic, "<svg"):]), "the graphic is not on the page")
		sym.Assert(!strings.Contains(body, "<?xml"), "what comes before the graphic is on the page")
		sym.Assert(!strings.Contains(body, "Error: "), "an error, although nothing failed")
		sym.Assert(len(cs) >= len(want), "tokens are missing on the page")
		head := cs[:len(cs)-len(want)]
		for i := range want {
			sym.Assert(cs[len(head)+i] == want[i], "a token is not shown on the page as it is")
		}
		cs = head
		sym.Reach("page")
	}
	sym.Assert(len(cs) <= 2, "more tokens than there are")
	found := false
	for _, c := range cs {
		if c == shown(text) {
			found = true
		}
	}
	sym.Assert(found, "the sentence is not on the page")
}
