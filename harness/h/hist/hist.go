// Package hist checks that analyses do not depend on each other (C07, C08).
package hist

import (
	"bytes"
	"strconv"
	"strings"

	"kvh/h/dot"
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var (
	other     *dict.Dict
	otherUser *dict.UserDict
)

func Setup() {
	world.Setup()
	other = world.Other()
	u, err := dict.UserDictRecords{
		{Text: "ab", Tokens: []string{"a", "b"}, Yomi: []string{"エ", "ビ"}, Pos: "他"},
		{Text: "〇", Tokens: []string{"〇"}, Yomi: []string{"ゼロ"}, Pos: "他"},
	}.NewUserDict()
	if err != nil {
		panic(err)
	}
	otherUser = u
}

// tokenizers are the ones an analysis may have been made with before: the
// one under test, one with another dictionary, one that shares the
// dictionary but not the user dictionary and options, and one with another
// user dictionary.
func tokenizers(w *world.World) []*tokenizer.Tokenizer {
	mk := func(d *dict.Dict, opts ...tokenizer.Option) *tokenizer.Tokenizer {
		t, err := tokenizer.New(d, opts...)
		if err != nil {
			panic(err)
		}
		return t
	}
	return []*tokenizer.Tokenizer{w.Tokenizer(), mk(other), mk(w.D, tokenizer.OmitBosEos()), mk(w.D, tokenizer.UserDict(otherUser))}
}

// show is everything tokens say.
func show(ts []tokenizer.Token) []string {
	var r []string
	for _, t := range ts {
		r = append(r, "token", strconv.Itoa(t.Index), strconv.Itoa(t.ID), strconv.Itoa(int(t.Class)), strconv.Itoa(t.Position), strconv.Itoa(t.Start), strconv.Itoa(t.End), t.Surface)
		r = append(r, t.Features()...)
		r = append(append(r, "pos"), t.POS()...)
		b, _ := t.BaseForm()
		r = append(r, b)
		if x := t.UserExtra(); x != nil {
			r = append(append(r, x.Tokens...), x.Readings...)
		}
	}
	return r
}

// draw is a graph without the names of its nodes.
func draw(s string) []string {
	g, e := dot.Parse(s)
	r := []string{"graph", e}
	for _, n := range g.Nodes {
		r = append(r, n.Attrs["label"], n.Attrs["peripheries"])
	}
	for _, e := range g.Edges {
		r = append(r, strconv.Itoa(g.Index(e.From)), strconv.Itoa(g.Index(e.To)), e.Attrs["label"])
	}
	return r
}

type failing struct{ after int }

func (f *failing) Write(b []byte) (int, error) {
	if f.after--; f.after < 0 {
		panic("the writer fails")
	}
	return len(b), nil
}

// op is one use of a tokenizer.
type op struct {
	tk, kind int
	text     string
}

const kinds = 6

// run makes the analysis: what it says, and what the values it returned say
// when asked again.
func (o op) run(tks []*tokenizer.Tokenizer) (r []string, again func() []string) {
	t := tks[o.tk]
	switch o.kind {
	case 0, 1, 2:
		ts := t.Analyze(o.text, world.Modes[o.kind])
		return show(ts), func() []string { return show(ts) }
	case 3:
		var b bytes.Buffer
		ts := t.AnalyzeGraph(&b, o.text, tokenizer.Search)
		return append(show(ts), draw(b.String())...), func() []string { return show(ts) }
	case 4:
		ws := t.Wakati(o.text)
		return append([]string(nil), ws...), func() []string { return ws }
	}
	func() {
		defer func() { recover() }()
		t.AnalyzeGraph(&failing{3}, o.text, tokenizer.Extended)
	}()
	return nil, func() []string { return nil }
}

var texts = []string{"", "a", "zz!7", "〇〡〇あいb1", "abcab-/1い〢xyz", "!\xff("}

// operation is an earlier use of a tokenizer, of a few fixed texts or an
// arbitrary one. Parameter few: fewer of them (2: four).
func operation(n int) op {
	if sym.Param("few", 0) == 2 {
		return []op{{0, 0, texts[4]}, {1, 3, texts[3]}, {2, 2, texts[2]}, {0, 3, texts[0]}}[sym.Choose(4)]
	}
	if sym.Param("few", 0) == 1 {
		k := sym.Choose(2)
		return op{tk: k, kind: []int{0, 3, 5}[sym.Choose(3)], text: texts[2+sym.Choose(3)]}
	}
	if k := sym.Param("big", 0); k > 0 { // a long text
		return op{tk: sym.Choose(2), kind: []int{0, 2, 3}[sym.Choose(3)], text: strings.Repeat([]string{"ab", "zz!7", "〇〡い"}[sym.Choose(3)], k)}
	}
	o := op{tk: sym.Choose(4), kind: sym.Choose(kinds)}
	if k := sym.Choose(len(texts)); k > 0 {
		o.text = texts[k]
	} else {
		o.text = sym.String(n)
		for i := 0; i < n; i++ {
			sym.Assume(o.text[i] < 0x80)
		}
	}
	return o
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// C07: the result of an analysis is that of a fresh process, and tokens
// returned earlier stay as they were. Parameters: ops (length of the
// history), hn (length of arbitrary texts in it), kind (of the analysis), and those of world.Text.
func C07() {
	w := world.Symbolic()
	tks := tokenizers(w)
	last := op{tk: 0, kind: sym.Param("kind", 0), text: world.Text()}
	if sym.Param("other", 0) == 1 {
		last.tk = 1 + sym.Choose(3)
	}
	var ops []op
	for i := 0; i < sym.Param("ops", 1); i++ {
		if i > 0 && sym.Param("same", 0) == 1 { // one operation again and again
			ops = append(ops, ops[0])
			continue
		}
		ops = append(ops, operation(sym.Param("hn", 0)))
	}
	want := sym.Fresh(func() []string {
		r, _ := last.run(tks)
		return r
	})
	var kept []func() []string
	var said [][]string
	for _, o := range ops {
		s, again := o.run(tks)
		said = append(said, s)
		kept = append(kept, again)
	}
	got, again := last.run(tks)
	sym.Observe("got", got)
	sym.Assert(equal(got, want), "the result depends on earlier analyses")
	kept, said = append(kept, again), append(said, got)
	for i, again := range kept {
		s := again()
		sym.Assert(len(s) <= len(said[i]) && equal(s, said[i][:len(s)]), "what was returned earlier changes")
	}
	if len(kept) > 1 {
		sym.Reach("kept")
	}
}
