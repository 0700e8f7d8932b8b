package flt

import (
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func clone(ps [][]string) [][]string {
	var r [][]string
	for _, p := range ps {
		r = append(r, append([]string(nil), p...))
	}
	return r
}

func matches(ps [][]string, fs []string) bool {
	r := false
	for _, p := range ps {
		r = sym.Or(r, agrees(p, fs))
	}
	return r
}

// vector is a list of up to n features of one byte, or of up to flen.
func vector(n int) []string {
	var fs []string
	flen := sym.Param("flen", 0)
	for i := sym.Choose(n + 1); i > 0; i-- {
		k := 1
		if flen > 0 {
			k = sym.Choose(flen + 1)
		}
		fs = append(fs, sym.String(k))
	}
	return fs
}

// C34: a filter keeps its settings, whatever becomes of the lists it was made
// of and whatever it was asked before. Parameter kind: 0 features, 1 words, 2
// the Japanese filter, 3 the splitter.
func C34() {
	n := sym.Param("n", 2)
	switch sym.Param("kind", 0) {
	case 0:
		var ps []filter.Features
		for i := 1 + sym.Choose(sym.Param("pats", 2)); i > 0; i-- {
			p := vector(n)
			sym.Assume(len(p) > 0)
			ps = append(ps, p)
		}
		def := clone(ps)
		f, g := filter.NewFeaturesFilter(ps...), filter.NewPOSFilter(ps...)
		if sym.Choose(2) == 1 { // asked before
			first := vector(n)
			sym.Assert(f.Match(first) == matches(def, first), "the filter does not match exactly when a pattern does")
			g.Match(first)
		}
		x := sym.String(1)
		for i := range ps {
			for j := range ps[i] {
				ps[i][j] = x
			}
			ps[i] = nil
		}
		fs := vector(n)
		kept := append([]string(nil), fs...)
		want := matches(def, fs)
		got := f.Match(fs)
		sym.Observe("match", got)
		sym.Assert(got == want, "the verdict depends on what became of the patterns or on what was asked before")
		sym.Assert(g.Match(fs) == want && f.Match(fs) == want && g.Match(fs) == want, "the verdict depends on what became of the patterns or on what was asked before")
		for i := range fs {
			sym.Assert(fs[i] == kept[i], "the filter changes what it is asked about")
		}
		if got {
			sym.Reach("match")
		}
	case 1:
		var ws []string
		for i := sym.Choose(n + 1); i > 0; i-- {
			ws = append(ws, sym.String(sym.Choose(3)))
		}
		def := append([]string(nil), ws...)
		f := filter.NewWordFilter(ws)
		in := func(w string) bool {
			r := false
			for _, x := range def {
				r = sym.Or(r, x == w)
			}
			return r
		}
		if sym.Choose(2) == 1 {
			w := sym.String(1)
			sym.Assert(f.Match(w) == in(w), "a word is kept or dropped wrongly")
		}
		for i := range ws {
			ws[i] = "x"
		}
		w := sym.String(sym.Choose(3))
		got := f.Match(w)
		sym.Observe("match", got)
		sym.Assert(got == in(w) && f.Match(w) == got, "the verdict depends on what became of the words or on what was asked before")
		if got {
			sym.Reach("match")
		}
	case 2:
		ts := world.Std().Tokenizer().Analyze(world.Text(), tokenizer.Search)
		st, bf, sw := patterns(1, sym.Param("plen", 1), names), patterns(1, 1, names), []string{"a", sym.String(1)}
		build := func(st, bf [][]string, sw []string) *ja.Filter {
			f, err := ja.NewFilter(ja.StopTagsFilterOption(st), ja.BaseFormFilterOption(bf), ja.StopWordsFilterOption(sw))
			if err != nil {
				panic(err)
			}
			return f
		}
		ref := build(clone(st), clone(bf), append([]string(nil), sw...))
		want := ref.Yield(ts)
		list := append([]tokenizer.Token(nil), ts...)
		build(clone(st), clone(bf), append([]string(nil), sw...)).Drop(&list)
		f := build(st, bf, sw)
		for _, p := range append(append([][]string(nil), st...), bf...) {
			for j := range p {
				p[j] = "名詞"
			}
		}
		for j := range sw {
			sw[j] = "b"
		}
		for k := 0; k < 2; k++ {
			got := f.Yield(ts)
			sym.Observe("words", got)
			sym.Assert(len(got) == len(want), "the words depend on what became of the settings or on what was asked before")
			for i := range got {
				sym.Assert(got[i] == want[i], "the words depend on what became of the settings or on what was asked before")
			}
			l := append([]tokenizer.Token(nil), ts...)
			f.Drop(&l)
			sym.Assert(len(l) == len(list), "what is dropped depends on what became of the settings or on what was asked before")
			for i := range l {
				sym.Assert(same(l[i], list[i]), "what is dropped depends on what became of the settings or on what was asked before")
			}
		}
		if len(want) > 0 {
			sym.Reach("match")
		}
	case 3:
		build := func() *filter.SentenceSplitter {
			return &filter.SentenceSplitter{Delim: []rune{'!', '。'}, Follower: []rune{')'}, DoubleLineFeedSplit: true, MaxRuneLen: sym.Param("maxlen", 3)}
		}
		sp, fresh := build(), build()
		if sym.Choose(2) == 1 {
			sp.SkipWhiteSpace, fresh.SkipWhiteSpace = true, true
		}
		split := sp.ScanSentences
		if sym.Param("default", 0) == 1 {
			split = filter.ScanSentences
			fresh = &filter.SentenceSplitter{Delim: []rune{'。', '．', '！', '!', '？', '?'}, Follower: []rune{'.', '｣', '」', '』', ')', '）', '｝', '}', '〉', '》'}, SkipWhiteSpace: true, DoubleLineFeedSplit: true, MaxRuneLen: 128}
		}
		split(sym.Bytes(sym.Choose(n+1)), sym.Choose(2) == 1)
		split([]byte("あ\n"), false)
		text, end := sym.Bytes(sym.Choose(n+1)), sym.Choose(2) == 1
		again := append([]byte(nil), text...)
		a, s, err := split(text, end)
		b, t, err2 := fresh.ScanSentences(again, end)
		sym.Observe("advance", a)
		sym.Assert(a == b && string(s) == string(t) && (s == nil) == (t == nil) && (err == nil) == (err2 == nil), "a sentence depends on the texts before")
		sym.Assert(len(sp.Delim) == 2 && sp.Delim[0] == '!' && sp.Delim[1] == '。' && len(sp.Follower) == 1 && sp.Follower[0] == ')' && sp.MaxRuneLen == sym.Param("maxlen", 3), "splitting changes the settings")
		if len(s) > 0 {
			sym.Reach("match")
		}
	}
}
