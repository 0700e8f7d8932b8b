package acc

import (
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

func strs(max, len int) []string {
	var r []string
	if n := sym.Choose(max + 2); n > 0 { // 0: nil
		r = []string{}
		for ; n > 1; n-- {
			r = append(r, sym.String(sym.Choose(len+1)))
		}
	}
	return r
}

func anyFields() tokenizer.Token {
	return tokenizer.Token{Index: sym.Int(), ID: sym.Int(), Class: classes[sym.Choose(4)], Position: sym.Int(), Start: sym.Int(), End: sym.Int(), Surface: sym.String(sym.Choose(sym.Param("len", 2) + 1))}
}

var classes = []tokenizer.TokenClass{tokenizer.DUMMY, tokenizer.KNOWN, tokenizer.UNKNOWN, tokenizer.USER}

// C23: comparisons of tokens.
func C23() {
	switch sym.Param("kind", 0) {
	case 0: // Equal on arbitrary tokens
		a, b := anyFields(), anyFields()
		want := sym.And(a.ID == b.ID, a.Class == b.Class, a.Surface == b.Surface)
		got := a.Equal(b)
		sym.Observe("equal", got)
		sym.Assert(got == want, "Equal is not equality of the words")
		sym.Assert(b.Equal(a) == got, "Equal is not symmetric")
	case 1: // EqualFeatures on arbitrary lists
		n, l := sym.Param("max", 3), sym.Param("len", 1)
		a, b := strs(n, l), strs(n, l)
		want := same(a, b)
		got := tokenizer.EqualFeatures(a, b)
		sym.Observe("equal", got)
		sym.Assert(got == want, "EqualFeatures is not equality of the lists")
	case 3: // long lists and surfaces that differ in one place, or at the end
		n := sym.Param("max", 9)
		a := letters(n)
		b := append([]string(nil), a...)
		if k := sym.Choose(n + 1); k < n {
			b[k] = sym.String(sym.Choose(2))
		} else {
			b = append(b, sym.String(1))[:n-1+sym.Choose(3)]
		}
		want := same(a, b)
		got := tokenizer.EqualFeatures(a, b)
		sym.Observe("equal", got)
		sym.Assert(got == want, "EqualFeatures is not equality of the lists")
		sym.Assert(tokenizer.EqualFeatures(b, a) == got, "EqualFeatures is not symmetric")
		x := tokenizer.Token{ID: sym.Int(), Class: classes[sym.Choose(4)]}
		y := x
		x.Surface, y.Surface = glue(a), glue(b)
		sym.Assert(x.Equal(y) == (x.Surface == y.Surface), "Equal is not equality of the words")
	case 2: // tokens of an arbitrary dictionary
		tk, text, t, tr := anyToken(-1)
		u := t
		switch sym.Choose(3) {
		case 0: // the same word elsewhere
			toks := tk.Tokenize(text + tr.surface)
			u = toks[len(toks)-2]
			sym.Assert(u.Equal(t) || u.Class == tokenizer.UNKNOWN && u.Surface != t.Surface, "the same word elsewhere is not equal")
		default:
			toks := tk.Tokenize([]string{"a", "b", "c", "d", "x", "y"}[sym.Choose(6)])
			u = toks[sym.Choose(len(toks))]
			sym.Assert(u.Equal(t) == sym.And(u.Class == tr.class, u.ID == tr.id, u.Surface == tr.surface), "Equal is not equality of the words")
		}
		fs, pos := u.Features(), u.POS()
		sym.Observe("features", fs)
		sym.Assert(t.EqualFeatures(u) == same(tr.features, fs), "EqualFeatures of tokens is not equality of their features")
		sym.Assert(u.EqualFeatures(t) == same(tr.features, fs), "EqualFeatures of tokens is not symmetric")
		sym.Assert(t.EqualPOS(u) == same(tr.pos, pos), "EqualPOS of tokens is not equality of their parts of speech")
		sym.Assert(u.EqualPOS(t) == same(tr.pos, pos), "EqualPOS of tokens is not symmetric")
		if len(fs) > 0 && len(fs) == len(tr.features) {
			sym.Reach("comparable")
		}
	}
}

func glue(s []string) string {
	r := ""
	for _, x := range s {
		r += x
	}
	return r
}
