package flt

import (
	"strings"

	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var (
	stopTags  [][]string
	stopWords []string
	jaDict    *dict.Dict
	jaWords   []string
)

// lines of a settings file, without comments.
func lines(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if i := strings.IndexByte(l, '#'); i >= 0 {
			l = l[:i]
		}
		if l != "" {
			r = append(r, l)
		}
	}
	return r
}

// setupJa makes a dictionary with words of every part of speech that
// matters to the Japanese filter.
func setupJa() {
	for _, l := range lines(sym.RepoFile("filter/ja/asset/stop_tags.txt")) {
		p := strings.Split(l, "-")
		for len(p) < 4 {
			p = append(p, "*")
		}
		stopTags = append(stopTags, p)
	}
	stopWords = lines(sym.RepoFile("filter/ja/asset/stop_words.txt"))
	poss := [][]string{{"名詞", "一般", "*", "*"}, {"動詞", "自立", "*", "*"}, {"形容詞", "自立", "*", "*"}, {"形容動詞", "*", "*", "*"}, {"助詞", "新種", "*", "*"}, {"助詞", "格助詞", "一般", "他"}, {"副詞", "助詞類接続", "*", "*"}, {"動詞"}, {}}
	poss = append(poss, stopTags...)
	d := &dict.Dict{}
	id := map[string]dict.POSID{}
	type entry struct {
		word string
		pos  []string
		base []string
	}
	var es []entry
	for i, p := range poss {
		w := string([]byte{'A' + byte(i/26), 'a' + byte(i%26)})
		b := []string{w + "-base"}
		if i == 3 { // no base form
			b = nil
		}
		es = append(es, entry{w, p, b})
	}
	for _, w := range stopWords {
		es = append(es, entry{w, []string{"名詞", "一般", "*", "*"}, []string{w}})
	}
	// sorted by headword
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && es[j].word < es[j-1].word; j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	var keys []string
	for i, e := range es {
		if i > 0 && e.word == es[i-1].word {
			continue
		}
		keys = append(keys, e.word)
		jaWords = append(jaWords, e.word)
		var p dict.POS
		for _, x := range e.pos {
			k, ok := id[x]
			if !ok {
				k = dict.POSID(len(d.POSTable.NameList))
				id[x] = k
				d.POSTable.NameList = append(d.POSTable.NameList, x)
			}
			p = append(p, k)
		}
		d.POSTable.POSs = append(d.POSTable.POSs, p)
		d.Contents = append(d.Contents, e.base)
		d.Morphs = append(d.Morphs, dict.Morph{LeftID: 0, RightID: 0, Weight: 10})
	}
	idx, err := dict.BuildIndexTable(keys)
	if err != nil {
		panic(err)
	}
	d.Index = idx
	d.Connection = dict.ConnectionTable{Row: 1, Col: 1, Vec: []int16{0}}
	d.CharClass = dict.CharClass{"DEFAULT"}
	d.CharCategory = dict.CharCategory{0}
	d.InvokeList = []bool{false}
	d.GroupList = []bool{false}
	d.UnkDict.Index = map[int32]int32{0: 0}
	d.UnkDict.IndexDup = map[int32]int32{}
	d.UnkDict.Morphs = dict.Morphs{{Weight: 20000}}
	d.UnkDict.Contents = [][]string{{"動詞", "*", "*", "*", "unk-base"}}
	d.UnkDict.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 4}
	d.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 4, dict.BaseFormIndex: 4}
	jaDict = d
}

func in(ps [][]string, fs []string) bool {
	for _, p := range ps {
		if agrees(p, fs) {
			return true
		}
	}
	return false
}

func has(ws []string, s string) bool {
	for _, w := range ws {
		if w == s {
			return true
		}
	}
	return false
}

// C14: the Japanese filter. Parameters: opts (0 defaults on every word, 1
// options), and those of world.Text.
func C14() {
	switch sym.Param("part", 0) {
	case 0: // defaults, word by word
		t, err := tokenizer.New(jaDict)
		if err != nil {
			panic(err)
		}
		f, err := ja.NewFilter()
		sym.Assert(err == nil, "the default filter cannot be made")
		text := jaWords[sym.Choose(len(jaWords))]
		if sym.Choose(2) == 1 {
			text += "Q" + jaWords[sym.Choose(8)]
		}
		judge(f, t.Analyze(text, tokenizer.Normal), stopTags, stopWords, defBase)
	case 1: // options
		sys := world.Std().Tokenizer()
		ts := sys.Analyze(world.Text(), world.Mode())
		var opts []ja.FilterOption
		tags, words, base := stopTags, stopWords, defBase
		m := sym.Choose(8)
		pn := []string{"noun", "動詞", filter.Any, "common"}[:sym.Param("names", 3)]
		if m&1 != 0 {
			base = patterns(sym.Param("pats", 1), 2, pn)
			opts = append(opts, ja.BaseFormFilterOption(base))
		}
		if m&2 != 0 {
			tags = patterns(1, 2, pn)
			opts = append(opts, ja.StopTagsFilterOption(tags))
		}
		if m&4 != 0 {
			words = nil
			for i := sym.Choose(sym.Param("words", 1) + 1); i > 0; i-- {
				words = append(words, []string{"ab", "b", "BOS"}[sym.Choose(3)])
			}
			opts = append(opts, ja.StopWordsFilterOption(words))
		}
		f, err := ja.NewFilter(opts...)
		sym.Assert(err == nil, "the filter cannot be made")
		judge(f, ts, tags, words, base)
	case 2: // word filters
		var ws []string
		for i := sym.Choose(sym.Param("words", 3) + 1); i > 0; i-- {
			ws = append(ws, sym.String(sym.Choose(sym.Param("len", 2)+1)))
		}
		for i := sym.Param("more", 0); i > 0; i-- { // others
			ws = append(ws, string([]byte{'a' + byte(i*7%26), 'a' + byte(i*11%26), 'a' + byte(i%5)}[:1+i%3]))
		}
		x := sym.String(sym.Choose(sym.Param("len", 2) + 1))
		f := filter.NewWordFilter(ws)
		want := false
		for _, w := range ws {
			want = sym.Or(want, w == x)
		}
		got := f.Match(x)
		sym.Observe("match", got)
		sym.Assert(got == want, "the word filter does not match exactly the words it was given")
		sym.Assert(!filter.NewWordFilter(nil).Match(x), "the empty word filter matches")
	}
}

var defBase = [][]string{{"動詞"}, {"形容詞"}, {"形容動詞"}}

// judge looks at the tokens, at those between the first and the last one, and
// at each of these alone.
func judge(f *ja.Filter, ts []tokenizer.Token, tags [][]string, words []string, base [][]string) {
	judgeList(f, ts, tags, words, base)
	if n := len(ts); n > 2 {
		judgeList(f, ts[1:n-1], tags, words, base)
		for i := 1; n > 3 && i < n-1; i++ {
			judgeList(f, ts[i:i+1], tags, words, base)
		}
	}
	judgeList(f, nil, tags, words, base)
}

func judgeList(f *ja.Filter, ts []tokenizer.Token, tags [][]string, words []string, base [][]string) {
	var want []string
	var left []tokenizer.Token
	for _, t := range ts {
		if in(tags, t.POS()) || has(words, t.Surface) {
			sym.Reach("stop")
			continue
		}
		left = append(left, t)
		if in(base, t.POS()) {
			sym.Reach("base")
			if b, ok := t.BaseForm(); ok {
				want = append(want, b)
			}
			continue
		}
		want = append(want, t.Surface)
	}
	got := f.Yield(ts)
	sym.Observe("words", strings.Join(got, "|"))
	sym.Assert(len(got) == len(want), "Yield gives another number of words")
	for i := range got {
		sym.Assert(got[i] == want[i], "Yield gives another word")
	}
	l := append([]tokenizer.Token(nil), ts...)
	f.Drop(&l)
	sym.Assert(len(l) == len(left), "Drop leaves another number of tokens")
	for i := range l {
		sym.Assert(same(l[i], left[i]), "Drop leaves another token")
	}
}
