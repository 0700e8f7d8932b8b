// Package graph checks the exported lattice graph (C11).
package graph

import (
	"bytes"
	"strconv"

	"kvh/h/dot"
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func Setup() { world.Setup() }

// names makes part-of-speech names of arbitrary bytes.
func names(w *world.World) {
	l := sym.Param("esc", 0)
	if l == 0 {
		return
	}
	d := *w.D
	switch sym.Choose(3) {
	case 0:
		d.POSTable.NameList = append([]string(nil), d.POSTable.NameList...)
		d.POSTable.NameList[sym.Choose(len(d.POSTable.NameList))] = sym.String(l)
	case 1:
		d.UnkDict.Contents = append([][]string(nil), d.UnkDict.Contents...)
		d.UnkDict.Contents[sym.Choose(len(d.UnkDict.Contents))] = []string{sym.String(l), "*", "x"}
	case 2:
		u, err := dict.UserDictRecords{{Text: "a", Tokens: []string{"a"}, Yomi: []string{"a"}, Pos: sym.String(l)}}.NewUserDict()
		if err != nil {
			panic(err)
		}
		w.U = u
	}
	w.D = &d
}

func same(a, b []tokenizer.Token) {
	sym.Assert(len(a) == len(b), "the graph comes with another number of tokens than the analysis")
	for i := range a {
		sym.Assert(a[i].ID == b[i].ID && a[i].Class == b[i].Class, "a token returned with the graph has another class or entry")
		sym.Assert(a[i].Surface == b[i].Surface, "a token returned with the graph has another surface")
		sym.Assert(a[i].Start == b[i].Start && a[i].End == b[i].End, "a token returned with the graph has other offsets")
		sym.Assert(a[i].Index == b[i].Index, "a token returned with the graph has another index")
		sym.Assert(a[i].Position == b[i].Position, "a token returned with the graph has another byte position")
		sym.Assert(a[i].EqualFeatures(b[i]), "a token returned with the graph has other features")
	}
}

// C11: the graph is well formed and shows the analysis.
func C11() {
	w := world.Symbolic()
	names(w)
	mode := world.Mode()
	text := world.Text()
	var opts []tokenizer.Option
	if sym.Param("omit", 1) == 1 && sym.Choose(2) == 1 {
		opts = append(opts, tokenizer.OmitBosEos())
	}
	t := w.Tokenizer(opts...)
	if sym.Param("prior", 0) == 1 { // graphs made before
		t.AnalyzeGraph(&bytes.Buffer{}, []string{"", text + "zz1", "〇〡〇あいzzzzzzzzzz!!1bab"}[sym.Choose(3)], tokenizer.Extended)
	}
	var buf bytes.Buffer
	var toks []tokenizer.Token
	if mode == tokenizer.Normal && sym.Choose(2) == 1 {
		toks = t.Dot(&buf, text)
	} else {
		toks = t.AnalyzeGraph(&buf, text, mode)
	}
	plain := t.Analyze(text, mode)
	same(toks, plain)
	sym.Observe("tokens", len(toks))

	g, e := dot.Parse(buf.String())
	sym.Assert(e == "", "the graph is not well formed: "+e)
	for i, n := range g.Nodes {
		sym.Assert(g.Index(n.Name) == i, "a node is declared twice")
	}
	linked := map[[2]int]bool{}
	for _, e := range g.Edges {
		i, j := g.Index(e.From), g.Index(e.To)
		sym.Assert(i >= 0 && j >= 0, "an edge connects a node that is not declared")
		linked[[2]int{i, j}], linked[[2]int{j, i}] = true, true
	}
	// the best path
	words := plain
	if mode == tokenizer.Extended {
		words = t.Analyze(text, tokenizer.Search) // unknown words are cut later
	}
	var labels []string
	if len(opts) > 0 {
		labels = append(labels, "BOS")
	}
	for _, x := range words {
		labels = append(labels, x.Surface)
	}
	if len(opts) > 0 {
		labels = append(labels, "EOS")
	}
	var best []int
	for i, n := range g.Nodes {
		if n.Attrs["peripheries"] == "2" {
			best = append(best, i)
		}
	}
	sym.Observe("nodes", len(g.Nodes))
	sym.Observe("edges", len(g.Edges))
	sym.Assert(len(best) == len(labels), "the nodes marked as the best path are not as many as the words of the analysis")
	if len(best) > 3 {
		sym.Reach("several")
	}
	used := make([]bool, len(best))
	prev := -1
	for _, s := range labels {
		found := false
		for k, i := range best {
			l := dot.Text(g.Nodes[i].Attrs["label"])
			if used[k] || len(l) <= len(s) || l[:len(s)] != s || l[len(s)] != '\n' || prev >= 0 && !linked[[2]int{prev, i}] {
				continue
			}
			used[k], found, prev = true, true, i
			break
		}
		sym.Assert(found, "a word of the analysis is not on the path marked as the best one")
	}
}

// picture is a graph without the names of its nodes.
func picture(s string) []string {
	g, e := dot.Parse(s)
	r := []string{e}
	for _, n := range g.Nodes {
		r = append(r, n.Attrs["label"], n.Attrs["peripheries"])
	}
	for _, e := range g.Edges {
		r = append(r, strconv.Itoa(g.Index(e.From)), strconv.Itoa(g.Index(e.To)), e.Attrs["label"], e.Attrs["style"])
	}
	return r
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// C32: a dictionary without contents makes the same analysis.
func C32() {
	w := world.Symbolic()
	mode := world.Mode()
	text := world.Text()
	s := *w
	d := *w.D
	d.Contents = nil
	s.D = &d
	a, b := w.Tokenizer().Analyze(text, mode), s.Tokenizer().Analyze(text, mode)
	sym.Assert(len(a) == len(b), "another number of tokens without the contents of the dictionary")
	for i, x := range a {
		y := b[i]
		sym.Observe("id", y.ID)
		sym.Assert(x.ID == y.ID && x.Class == y.Class && x.Surface == y.Surface, "another word without the contents of the dictionary")
		sym.Assert(x.Start == y.Start && x.End == y.End && x.Position == y.Position && x.Index == y.Index, "another place without the contents of the dictionary")
		sym.Assert(x.Equal(y) && x.EqualPOS(y), "other parts of speech without the contents of the dictionary")
		fs, gs, ps := x.Features(), y.Features(), x.POS()
		sym.Observe("features", gs)
		v, ok := y.FeatureAt(len(gs))
		sym.Assert(!ok && v == "", "a feature that is not there")
		if x.Class != tokenizer.KNOWN {
			sym.Assert(equal(fs, gs), "other features of a word that is not in the dictionary")
			continue
		}
		sym.Reach("known")
		sym.Assert(equal(gs, ps) && len(ps) <= len(fs) && equal(fs[:len(ps)], gs), "the features are not the parts of speech")
		for k, f := range []func() (string, bool){y.BaseForm, y.Reading, y.Pronunciation} {
			v, ok := f()
			sym.Assert(!ok || k+3 < len(gs) && v == gs[k+3], "a form that is not there")
		}
		t := tokenizer.NewTokenData(y)
		sym.Assert(equal(t.Features, gs) && equal(t.POS, ps), "the token data has other features")
	}
	var g, h bytes.Buffer
	w.Tokenizer().AnalyzeGraph(&g, text, mode)
	s.Tokenizer().AnalyzeGraph(&h, text, mode)
	sym.Assert(equal(picture(g.String()), picture(h.String())), "another graph without the contents of the dictionary")
}

// C33: any other mode is Normal.
func C33() {
	w := world.Symbolic()
	text := world.Text()
	mode := tokenizer.TokenizeMode(sym.Int())
	sym.Assume(sym.And(mode != tokenizer.Search, mode != tokenizer.Extended))
	sym.Assume(mode != tokenizer.Normal)
	t := w.Tokenizer()
	a, b := t.Analyze(text, tokenizer.Normal), t.Analyze(text, mode)
	same(b, a)
	for _, x := range b {
		if x.Class == tokenizer.UNKNOWN {
			sym.Reach("unknown")
		}
		sym.Observe("id", x.ID)
	}
	var g, h bytes.Buffer
	same(t.AnalyzeGraph(&h, text, mode), a)
	t.AnalyzeGraph(&g, text, tokenizer.Normal)
	sym.Assert(equal(picture(h.String()), picture(g.String())), "another graph in a mode that is none")
	o := w.Tokenizer(tokenizer.OmitBosEos())
	same(o.Analyze(text, mode), o.Analyze(text, tokenizer.Normal))
}
