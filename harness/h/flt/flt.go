// Package flt checks the token filters (C12 to C14).
package flt

import (
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func Setup() {
	world.Setup()
	setupJa()
}

func same(a, b tokenizer.Token) bool {
	return sym.And(a.Index == b.Index, a.ID == b.ID, a.Class == b.Class, a.Position == b.Position, a.Start == b.Start, a.End == b.End, a.Surface == b.Surface)
}

// split checks Keep and Drop against the verdict on each token.
func split(list []tokenizer.Token, verdict []bool, keep, drop func(*[]tokenizer.Token)) {
	for k, f := range []func(*[]tokenizer.Token){keep, drop} {
		room := make([]tokenizer.Token, len(list)+1)
		copy(room, list)
		room[len(list)] = tokenizer.Token{ID: 77, Surface: "after"}
		got := room[:len(list)]
		f(&got)
		var want []tokenizer.Token
		for i, t := range list {
			if verdict[i] == (k == 0) {
				want = append(want, t)
			}
		}
		sym.Observe("n", len(got))
		name := []string{"Keep", "Drop"}[k]
		sym.Assert(len(got) == len(want), name+" leaves another number of tokens")
		for i := range want {
			sym.Assert(same(got[i], want[i]), name+" leaves another token or another order")
			sym.Assert(got[i].EqualFeatures(want[i]), name+" changes the features of a token")
		}
		sym.Assert(room[len(list)].ID == 77 && room[len(list)].Surface == "after", name+" writes past the end of the list")
		if len(want) > 0 && len(want) < len(list) {
			sym.Reach("mixed")
		}
		f(nil)
		empty := []tokenizer.Token{}
		f(&empty)
		sym.Assert(len(empty) == 0, name+" makes tokens up")
		var none []tokenizer.Token
		f(&none)
		sym.Assert(len(none) == 0, name+" makes tokens up")
	}
}

// C12: Keep and Drop split a list. Parameter kind: 0 match function, 1 POS
// filter, 2 word filter.
func C12() {
	switch sym.Param("kind", 0) {
	case 0:
		n := sym.Choose(sym.Param("n", 4) + 1)
		var list []tokenizer.Token
		var verdict []bool
		var keys []byte
		for i := 0; i < n; i++ {
			keys = append(keys, sym.Byte())
			p := sym.Int16()
			list = append(list, tokenizer.Token{Index: i, ID: int(keys[i]), Position: int(p), Start: i * 3, End: i*3 + 2, Surface: string([]byte{sym.Byte()})})
		}
		// an arbitrary predicate on the tokens
		var on [8]bool
		for i := range on {
			on[i] = sym.Bool()
		}
		m := func(t tokenizer.Token) bool { return on[t.ID&7] }
		for _, t := range list {
			verdict = append(verdict, m(t))
		}
		split(list, verdict, func(l *[]tokenizer.Token) { filter.Keep(l, m) }, func(l *[]tokenizer.Token) { filter.Drop(l, m) })
	case 1:
		list := tokens()
		f := filter.NewPOSFilter(patterns(sym.Param("pats", 2), 2, names)...)
		var verdict []bool
		for _, t := range list {
			verdict = append(verdict, f.Match(t.POS()))
		}
		split(list, verdict, f.Keep, f.Drop)
	case 2:
		list := tokens()
		var ws []string
		for i := sym.Choose(3); i > 0; i-- {
			ws = append(ws, sym.String(sym.Choose(3)))
		}
		f := filter.NewWordFilter(ws)
		var verdict []bool
		for _, t := range list {
			v := false
			for _, w := range ws {
				if w == t.Surface {
					v = true
				}
			}
			verdict = append(verdict, v)
		}
		split(list, verdict, f.Keep, f.Drop)
	case 4: // a long list: what matches are some tokens next to each other, or all others
		n := sym.Param("n", 40) - sym.Choose(2)
		var list []tokenizer.Token
		var verdict []bool
		var keys []byte
		lo, hi, in := sym.Choose(n+1), sym.Choose(n+1), sym.Choose(2) == 1
		sym.Assume(lo <= hi)
		for i := 0; i < n; i++ {
			keys = append(keys, sym.Byte())
			v := (lo <= i && i < hi) == in
			list = append(list, tokenizer.Token{Index: i, ID: int(keys[i]), Position: i * 3, Start: i * 3, End: i*3 + 2, Surface: map[bool]string{true: "y", false: "n"}[v]})
			verdict = append(verdict, v)
		}
		if sym.Choose(2) == 1 {
			f := filter.NewWordFilter([]string{"x", "y"})
			split(list, verdict, f.Keep, f.Drop)
			return
		}
		m := func(t tokenizer.Token) bool { return t.Surface == "y" }
		split(list, verdict, func(l *[]tokenizer.Token) { filter.Keep(l, m) }, func(l *[]tokenizer.Token) { filter.Drop(l, m) })
	case 3: // tokens of every class, in any order
		list := mixed()
		var verdict []bool
		if sym.Choose(2) == 0 {
			p := names[sym.Choose(len(names))]
			f := filter.NewPOSFilter(filter.POS{p})
			for _, t := range list {
				ps := t.POS()
				verdict = append(verdict, len(ps) > 0 && (p == filter.Any || ps[0] == p))
			}
			split(list, verdict, f.Keep, f.Drop)
			return
		}
		w := sym.String(1)
		f := filter.NewWordFilter([]string{w})
		for _, t := range list {
			verdict = append(verdict, sym.Fix(sym.IteInt(t.Surface == w, 1, 0)) == 1)
		}
		split(list, verdict, f.Keep, f.Drop)
	}
}

var inventory []tokenizer.Token

// mixed is a list of tokens of every class, among them known, unknown and
// user words with the same ID, and homographs, with arbitrary surfaces.
func mixed() []tokenizer.Token {
	if inventory == nil {
		w := world.Std()
		for _, text := range []string{"-", "1", "a", "ab", "b1", "ba", "!", "z", "い", "〡"} {
			for _, t := range w.Tokenizer().Analyze(text, tokenizer.Normal) {
				if t.Class != tokenizer.DUMMY || len(inventory) == 0 {
					inventory = append(inventory, t)
				}
			}
		}
		for i := range world.Entries[:6] { // any small ID
			t := inventory[1]
			t.ID = i
			inventory = append(inventory, t)
		}
	}
	var list []tokenizer.Token
	for i := sym.Choose(sym.Param("n", 3) + 1); i > 0; i-- {
		t := inventory[sym.Choose(len(inventory))]
		t.Index, t.Position, t.Surface = i, i, sym.String(1)
		list = append(list, t)
	}
	return list
}

// tokens is the analysis of an arbitrary text.
func tokens() []tokenizer.Token {
	w := world.Std()
	return w.Tokenizer().Analyze(world.Text(), world.Mode())
}

var names = []string{filter.Any, "noun", "名詞", "common", "ユーザ"}

// patterns are up to k patterns of up to n features.
func patterns(k, n int, names []string) []filter.POS {
	var ps []filter.POS
	for i := sym.Choose(k + 1); i > 0; i-- {
		var p filter.POS
		for j := 1 + sym.Choose(n); j > 0; j-- {
			p = append(p, names[sym.Choose(len(names))])
		}
		ps = append(ps, p)
	}
	return ps
}

// agrees is what it means for a pattern to match.
func agrees(p, fs []string) bool {
	if len(p) > len(fs) {
		return false
	}
	r := true
	for i := range p {
		r = sym.And(r, sym.Or(p[i] == filter.Any, p[i] == fs[i]))
	}
	return r
}

// feature is an arbitrary feature of at most l bytes.
func feature() string { return sym.String([]int{1, 0, 2}[sym.Choose(sym.Param("len", 0)+1)]) }

// C13: a filter matches if one of its patterns does. Parameters: pats
// (number of patterns), plen (length of patterns), n (length of the vector).
func C13() {
	var ps []filter.Features
	exact := sym.Param("exact", 0) == 1 // only the longest
	size := func(n int) int {
		if exact {
			return n
		}
		return sym.Choose(n + 1)
	}
	for i := size(sym.Param("pats", 2)); i > 0; i-- {
		var p []string
		for j := 1 + size(sym.Param("plen", 2)-1); j > 0; j-- {
			p = append(p, feature())
		}
		ps = append(ps, p)
	}
	if k := sym.Param("more", 0); k > 0 { // others, before or after them
		var qs []filter.Features
		for i := 0; i < k; i++ {
			q := filter.Features{string(rune('a' + i)), string(rune('a' + i%3)), string(rune('z' - i))}
			qs = append(qs, q[:1+(i+1)%3])
		}
		if at := sym.Choose(3); at == 0 {
			ps = append(ps, qs...)
		} else if at == 1 {
			ps = append(qs, ps...)
		} else {
			ps = append(append(append([]filter.Features(nil), qs[:k/2]...), ps...), qs[k/2:]...)
		}
	}
	var fs []string
	for i := size(sym.Param("n", 2)); i > 0; i-- {
		fs = append(fs, feature())
	}
	want := false
	for _, p := range ps {
		want = sym.Or(want, agrees(p, fs))
	}
	f := filter.NewFeaturesFilter(ps...)
	got := f.Match(fs)
	sym.Observe("match", got)
	sym.Assert(got == want, "the filter does not match exactly when a pattern does")
	sym.Assert(f.Match(fs) == got, "matching changes the filter")
	sym.Assert(filter.NewPOSFilter(ps...).Match(fs) == want, "the part-of-speech filter does not match exactly when a pattern does")
	if got {
		sym.Reach("match")
	}
}
