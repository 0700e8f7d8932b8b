// Package tok checks the analysis itself (C01 to C06).
package tok

import (
	"unicode/utf8"

	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

func Setup() { world.Setup() }

func observe(ts []tokenizer.Token) {
	for _, t := range ts {
		sym.Observe("id", t.ID)
		sym.Observe("class", int(t.Class))
		sym.Observe("pos", t.Position)
		sym.Observe("surface", t.Surface)
	}
}

func runes(s string) int {
	n := 0
	for i := 0; i < len(s); n++ {
		_, w := utf8.DecodeRuneInString(s[i:])
		i += w
	}
	return n
}

// before makes another analysis first, of a text that is a little shorter or
// longer, or quite another. Parameter prior: whether it does.
func before(t *tokenizer.Tokenizer, text string) {
	if sym.Param("prior", 0) == 0 {
		return
	}
	m := []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Extended}[sym.Choose(2)]
	switch k := sym.Choose(4); k {
	case 0:
		sym.Assume(len(text) > 0)
		t.Analyze(text[:len(text)-1], m)
	case 1:
		t.Analyze(text+"zz1あ", m)
	case 2:
		t.Analyze("〇〡〇あいzzzzzzzzzz!!1bab", m)
	case 3:
		t.Analyze("", m)
	}
}

// inner drops BOS and EOS after checking that they are there.
func inner(ts []tokenizer.Token) []tokenizer.Token {
	n := len(ts)
	sym.Assert(n >= 2, "BOS or EOS is missing")
	sym.Assert(ts[0].ID == tokenizer.BosEosID && ts[n-1].ID == tokenizer.BosEosID, "the result is not framed by BOS and EOS")
	return ts[1 : n-1]
}

// C01: the tokens tile the text.
func C01() {
	w := world.Symbolic()
	mode := world.Mode()
	text := world.Text()
	t := w.Tokenizer()
	before(t, text)
	ts := t.Analyze(text, mode)
	observe(ts)
	tile(text, inner(ts))
}

func tile(text string, ts []tokenizer.Token) {
	p, c := 0, 0
	for _, t := range ts {
		sym.Assert(t.Position == p, "a token does not start where the one before it ends (bytes)")
		sym.Assert(t.Start == c, "a token does not start where the one before it ends (characters)")
		n := runes(t.Surface)
		sym.Assert(t.End == t.Start+n, "End is not Start plus the number of characters")
		sym.Assert(len(t.Surface) > 0, "a token is empty")
		sym.Assert(p+len(t.Surface) <= len(text), "the tokens are longer than the text")
		sym.Assert(text[p:p+len(t.Surface)] == t.Surface, "a surface is not the text at its position")
		p += len(t.Surface)
		c += n
	}
	sym.Assert(p == len(text), "the tokens do not reach the end of the text")
	sym.Assert(c == runes(text), "the tokens do not reach the last character")
	if len(ts) > 1 {
		sym.Reach("several")
	}
}

// C02: the segmentation has minimum cost; C03: it is made of candidates.
func C02() {
	w := world.Symbolic()
	mode := world.Modes[sym.Param("mode", 1)-1]
	text := world.Text()
	t := w.Tokenizer()
	before(t, text)
	ts := t.Analyze(text, mode)
	observe(ts)
	cs := w.Candidates(text)
	if mode == tokenizer.Extended {
		mine := world.Compatible(cs, inner(ts))
		sym.Assert(world.Connected(mine), "the tokens are not made of candidate words of the text")
		sym.Assert(w.MinCost(mine, true) == w.MinCost(cs, true), "there is a cheaper segmentation")
		return
	}
	var seg []world.Cand
	for _, x := range inner(ts) {
		c, ok := world.Find(cs, x)
		sym.Assert(ok, "a token is not a candidate word of the text")
		seg = append(seg, c)
	}
	if len(seg) > 1 {
		sym.Reach("several")
	}
	search := mode != tokenizer.Normal
	sym.Assert(w.Cost(seg, search) == w.MinCost(cs, search), "there is a cheaper segmentation")
}

// C03: the candidates are those the dictionaries define. A segmentation that
// uses a word that is none is found at once; a candidate that is missing
// makes the result dearer than it should be for some costs.
func C03() { C02() }

// C04: class and ID name the entry.
func C04() {
	w := world.Symbolic()
	mode := world.Mode()
	text := world.Text()
	t := w.Tokenizer()
	before(t, text)
	ts := t.Analyze(text, mode)
	observe(ts)
	for i, x := range ts {
		switch x.Class {
		case tokenizer.KNOWN:
			sym.Reach("known")
			sym.Assert(x.ID >= 0 && x.ID < len(w.Entries), "a known token has no entry")
			sym.Assert(x.Surface == w.Entries[x.ID].Word, "a known token has another entry's headword")
		case tokenizer.USER:
			sym.Reach("user")
			sym.Assert(w.U != nil && x.ID >= 0 && x.ID < len(w.Users), "a user token has no entry")
			sym.Assert(x.Surface == w.Users[x.ID].Text, "a user token has another entry's headword")
		case tokenizer.UNKNOWN:
			sym.Reach("unknown")
			sym.Assert(mode != tokenizer.Extended, "Extended mode yields an unknown word")
			r, _ := utf8.DecodeRuneInString(x.Surface)
			lo, hi := w.UnkRange(r)
			sym.Assert(x.ID >= lo && x.ID <= hi, "an unknown token has an entry of another category")
		case tokenizer.DUMMY:
			if i == 0 || i == len(ts)-1 {
				sym.Assert(x.ID == tokenizer.BosEosID, "BOS or EOS has an ID")
				continue
			}
			sym.Assert(mode == tokenizer.Extended, "a dummy token outside Extended mode")
			sym.Assert(runes(x.Surface) == 1, "a dummy token of several characters")
			sym.Assert(x.ID != tokenizer.BosEosID, "BOS or EOS within the text")
		default:
			sym.Assert(false, "a token of no class")
		}
		if i == 0 || i == len(ts)-1 {
			sym.Assert(x.Class == tokenizer.DUMMY && x.ID == tokenizer.BosEosID, "the result is not framed by BOS and EOS")
		}
	}
}

func sameToken(a, b tokenizer.Token) bool {
	return a.ID == b.ID && a.Class == b.Class && a.Position == b.Position && a.Start == b.Start && a.End == b.End && a.Surface == b.Surface
}

// C05: Extended mode is Search mode with unknown words cut.
func C05() {
	w := world.Symbolic()
	text := world.Text()
	t := w.Tokenizer()
	var want []tokenizer.Token
	before(t, text)
	for _, x := range t.Analyze(text, tokenizer.Search) {
		if x.Class != tokenizer.UNKNOWN {
			want = append(want, x)
			continue
		}
		k := 0
		for p := 0; p < len(x.Surface); {
			_, n := utf8.DecodeRuneInString(x.Surface[p:])
			want = append(want, tokenizer.Token{ID: x.ID, Class: tokenizer.DUMMY, Position: x.Position + p, Start: x.Start + k, End: x.Start + k + 1, Surface: x.Surface[p : p+n]})
			p += n
			k++
		}
		if k > 1 {
			sym.Reach("cut")
		}
	}
	got := t.Analyze(text, tokenizer.Extended)
	observe(got)
	sym.Assert(len(got) == len(want), "Extended mode does not cut unknown words into characters")
	for i := range got {
		sym.Assert(got[i].Index == i, "an index is wrong")
		a, b := got[i], want[i]
		sym.Assert(a.ID == b.ID && a.Class == b.Class, "a token has another class or entry than in Search mode")
		sym.Assert(a.Position == b.Position && a.Start == b.Start && a.End == b.End, "a token has other offsets than in Search mode")
		sym.Assert(a.Surface == b.Surface, "a token has another surface than in Search mode")
	}
	if sym.Param("whole", 0) == 0 {
		return
	}
	// in Normal mode unknown words stay whole
	for _, x := range inner(t.Analyze(text, tokenizer.Normal)) {
		sym.Assert(x.Class != tokenizer.DUMMY, "Normal mode yields a dummy token")
	}
}

// C06: framing, indexes, and the Tokenize and Wakati views.
func C06() {
	w := world.Symbolic()
	mode := world.Mode()
	text := world.Text()
	t := w.Tokenizer()
	before(t, text)
	ts := t.Analyze(text, mode)
	observe(ts)
	in := inner(ts)
	n := runes(text)
	bos, eos := ts[0], ts[len(ts)-1]
	sym.Assert(bos.Class == tokenizer.DUMMY && eos.Class == tokenizer.DUMMY, "BOS or EOS is no dummy token")
	sym.Assert(bos.Surface == "BOS" && eos.Surface == "EOS", "BOS or EOS is not named so")
	sym.Assert(bos.Position == 0 && bos.Start == 0 && bos.End == 0, "BOS is not at the start of the text")
	sym.Assert(eos.Position == len(text) && eos.Start == n && eos.End == n, "EOS is not at the end of the text")
	for i, x := range ts {
		sym.Assert(x.Index == i, "an index is wrong")
	}
	for _, x := range in {
		sym.Assert(x.ID != tokenizer.BosEosID, "BOS or EOS within the text")
	}
	o := w.Tokenizer(tokenizer.OmitBosEos())
	os := o.Analyze(text, mode)
	sym.Assert(len(os) == len(in), "omitting BOS and EOS omits or adds something else")
	for i := range os {
		sym.Assert(sameToken(os[i], in[i]), "omitting BOS and EOS changes a token")
		sym.Assert(os[i].Index == i, "an index is wrong when BOS and EOS are omitted")
	}
	if mode != tokenizer.Normal {
		return
	}
	tk := t.Tokenize(text)
	sym.Assert(len(tk) == len(ts), "Tokenize is not Analyze in Normal mode")
	for i := range tk {
		sym.Assert(sameToken(tk[i], ts[i]) && tk[i].Index == i, "Tokenize is not Analyze in Normal mode")
	}
	for k, f := range []func(string) []string{t.Wakati, o.Wakati} {
		wk := f(text)
		sym.Assert(len(wk) == len(in), "Wakati is not as long as the analysis")
		for i := range wk {
			sym.Assert(wk[i] == in[i].Surface, "Wakati is not the surfaces of the analysis")
		}
		_ = k
	}
}
