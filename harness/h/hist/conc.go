package hist

import (
	"bytes"
	"strconv"
	"sync"

	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// shared is what several goroutines use at once.
type shared struct {
	tks    []*tokenizer.Tokenizer
	tokens []tokenizer.Token
	ja     *ja.Filter
	pos    *filter.POSFilter
	word   *filter.WordFilter
	sp     filter.SentenceSplitter
}

func share(w *world.World) *shared {
	s := &shared{tks: tokenizers(w)}
	for _, t := range []string{"abcab1", "〇〡!い"} {
		s.tokens = append(s.tokens, s.tks[0].Tokenize(t)...)
	}
	s.pos = filter.NewPOSFilter(filter.POS{"noun", filter.Any}, filter.POS{"動詞"}, filter.POS{"名詞", "sym"}, filter.POS{filter.Any, "common"})
	s.word = filter.NewWordFilter([]string{"a", "ab", "〇", "!"})
	var err error
	if s.ja, err = ja.NewFilter(ja.StopTagsFilterOption([]filter.POS{{"noun", "suffix"}, {filter.Any, "kanji"}}), ja.StopWordsFilterOption([]string{"b", "あ"})); err != nil {
		panic(err)
	}
	s.sp = filter.SentenceSplitter{Delim: []rune{'b', '〇'}, Follower: []rune{')'}, SkipWhiteSpace: true, DoubleLineFeedSplit: true, MaxRuneLen: 8}
	return s
}

const acts = 10

// act is one call a goroutine makes.
func (s *shared) act(kind, tk int, text string) []string {
	if kind < 5 {
		r, _ := op{tk, kind, text}.run(s.tks)
		return r
	}
	switch kind {
	case 5: // accessors of the same tokens
		var r []string
		for _, t := range s.tokens {
			d := tokenizer.NewTokenData(t)
			r = append(r, d.Surface, d.Class, d.BaseForm, d.Reading, d.Pronunciation, t.String())
			f, _ := t.FeatureAt(1)
			r = append(append(append(r, f), d.POS...), d.Features...)
		}
		return append(r, show(s.tokens)...)
	case 6: // the same filters
		ts := s.tks[tk].Tokenize(text)
		r := s.ja.Yield(ts)
		l := append([]tokenizer.Token(nil), ts...)
		s.ja.Drop(&l)
		r = append(r, show(l)...)
		l = append([]tokenizer.Token(nil), ts...)
		s.pos.Keep(&l)
		r = append(r, show(l)...)
		l = append([]tokenizer.Token(nil), ts...)
		s.word.Drop(&l)
		return append(r, show(l)...)
	case 7: // the same splitter
		var r []string
		b := []byte(text)
		for len(b) > 0 {
			n, tok, err := s.sp.ScanSentences(b, true)
			if err != nil || n <= 0 {
				break
			}
			r = append(r, string(tok))
			b = b[n:]
		}
		return r
	case 8: // new filters and tokenizers from shared data
		f, err := ja.NewFilter()
		if err != nil {
			panic(err)
		}
		return f.Yield(s.tokens)
	}
	var b bytes.Buffer // the lattice of a user word, in normal mode
	ts := s.tks[tk].Dot(&b, text)
	return append(show(ts), draw(b.String())...)
}

// second is another call. Parameter few: not every combination.
func second(tk int) (kind, tk2 int, text string) {
	kind = sym.Choose(acts)
	if sym.Param("few", 1) == 0 {
		return kind, sym.Choose(4), texts[3+sym.Choose(2)]
	}
	return kind, []int{tk, 1}[sym.Choose(2)], texts[3+kind%2]
}

// C08: an analysis only writes to memory it owns. In the engine the
// ownership monitor watches; natively many goroutines make the calls at once.
// Parameters: kind, or -1 for any (of the call with the arbitrary text), and
// those of world.Text.
func C08() {
	w := world.Symbolic()
	s := share(w)
	kind := sym.Param("kind", -1)
	if kind < 0 {
		kind = sym.Choose(acts)
	}
	text := world.Text()
	tk := sym.Choose(4)
	k2, tk2, text2 := second(tk)
	sym.PoolReset()
	if !sym.Native() {
		sym.Monitor(true)
		a := s.act(kind, tk, text)
		b := s.act(k2, tk2, text2)
		c := s.act(kind, tk, text)
		sym.Monitor(false)
		sym.Observe("a", a)
		sym.Observe("b", b)
		sym.Assert(equal(a, c), "the same call has another result later")
		return
	}
	const n = 8
	var got [n][2][]string
	var wg sync.WaitGroup
	start := make(chan bool)
	fail := make(chan any, n)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail <- r
				}
			}()
			<-start
			for i := 0; i < 20; i++ {
				a := s.act(kind, tk, text)
				b := s.act(k2, tk2, text2)
				if got[g][0] != nil && (!equal(a, got[g][0]) || !equal(b, got[g][1])) {
					panic(sym.Violation{Msg: "the same call has another result later"})
				}
				got[g] = [2][]string{a, b}
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case r := <-fail:
		panic(r)
	default:
	}
	for g := range got {
		sym.Assert(equal(got[g][0], got[0][0]) && equal(got[g][1], got[0][1]), "a concurrent call has another result")
	}
	sym.Observe("a", got[0][0])
	sym.Observe("b", got[0][1])
	sym.Assert(equal(s.act(kind, tk, text), got[0][0]), "a concurrent call has another result than alone")
}

// nested is a writer during whose writing other analyses run.
type nested struct {
	bytes.Buffer
	s    *shared
	at   int
	n    int
	kind int
	tk   int
	text string
	got  []string
}

func (w *nested) Write(b []byte) (int, error) {
	if w.n == w.at {
		w.got = w.s.act(w.kind, w.tk, w.text)
	}
	w.n++
	return w.Buffer.Write(b)
}

// C08N: an analysis that runs while another one writes its graph does not
// disturb it.
func C08N() {
	w := world.Symbolic()
	s := share(w)
	text := world.Text()
	mode := world.Mode()
	tk := sym.Choose(2)
	k2, tk2, text2 := second(tk)
	at := sym.Choose(8)
	if sym.Param("few", 1) == 1 {
		sym.Assume(at%3 == 0)
	}
	want := sym.Fresh(func() []string {
		var b bytes.Buffer
		ts := s.tks[tk].AnalyzeGraph(&b, text, mode)
		r := append([]string{strconv.Itoa(len(ts))}, append(show(ts), draw(b.String())...)...)
		return append(r, s.act(k2, tk2, text2)...)
	})
	sym.PoolReset()
	sym.Monitor(true)
	n := &nested{s: s, at: at, kind: k2, tk: tk2, text: text2}
	ts := s.tks[tk].AnalyzeGraph(n, text, mode)
	sym.Monitor(false)
	if n.got == nil && n.n <= at { // fewer writes
		n.got = s.act(k2, tk2, text2)
	} else {
		sym.Reach("nested")
	}
	got := append([]string{strconv.Itoa(len(ts))}, append(show(ts), draw(n.String())...)...)
	k := len(got)
	got = append(got, n.got...)
	sym.Observe("got", got)
	sym.Assert(k <= len(want) && equal(got[:k], want[:k]), "an analysis that runs while a graph is written changes the graph or its tokens")
	sym.Assert(equal(got, want), "an analysis that runs while a graph is written has another result")
}
