// Package opts checks how a tokenizer is made (C28).
package opts

import (
	"errors"

	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var otherUser *dict.UserDict

func Setup() {
	world.Setup()
	u, err := dict.UserDictRecords{
		{Text: "ab", Tokens: []string{"a", "b"}, Yomi: []string{"エ", "ビ"}, Pos: "他"},
		{Text: "〇", Tokens: []string{"〇"}, Yomi: []string{"ゼロ"}, Pos: "他"},
	}.NewUserDict()
	if err != nil {
		panic(err)
	}
	otherUser = u
}

var errOption = errors.New("no such option")

const (
	nop = iota
	std
	other
	null
	omit
	fail
	nKinds
)

func option(k int, w *world.World) tokenizer.Option {
	switch k {
	case std:
		return tokenizer.UserDict(w.U)
	case other:
		return tokenizer.UserDict(otherUser)
	case null:
		return tokenizer.UserDict(nil)
	case omit:
		return tokenizer.OmitBosEos()
	case fail:
		return func(*tokenizer.Tokenizer) error { return errOption }
	}
	return tokenizer.Nop()
}

func same(a, b []tokenizer.Token, what string) {
	sym.Assert(len(a) == len(b), what)
	for i := range a {
		sym.Assert(a[i].Index == b[i].Index && a[i].ID == b[i].ID && a[i].Class == b[i].Class && a[i].Position == b[i].Position && a[i].Surface == b[i].Surface && a[i].Start == b[i].Start && a[i].End == b[i].End, what)
		x, y := a[i].Features(), b[i].Features()
		sym.Assert(len(x) == len(y), what)
		for j := range x {
			sym.Assert(x[j] == y[j], what)
		}
	}
}

// C28: any options in any order.
func C28() {
	w := world.Std()
	var ks []int
	var os []tokenizer.Option
	for n := sym.Choose(sym.Param("opts", 2) + 1); n > 0; n-- {
		k := sym.Choose(nKinds)
		ks = append(ks, k)
		os = append(os, option(k, w))
	}
	// another tokenizer made with the same options, and one with other ones
	t2, err2 := tokenizer.New(w.D, os...)
	var d *dict.Dict
	if sym.Choose(2) == 1 {
		d = w.D
	}
	t, err := tokenizer.New(d, os...)
	t3, err3 := tokenizer.New(w.D, tokenizer.UserDict(otherUser), tokenizer.OmitBosEos())
	sym.Assert(err3 == nil && t3 != nil, "a tokenizer with a user dictionary cannot be made")

	// what the options say
	var u *dict.UserDict
	omits, fails := false, false
	var first int
	for _, k := range ks {
		switch k {
		case std:
			u = w.U
		case other:
			u = otherUser
		case omit:
			omits = true
		case null, fail:
			if !fails {
				first = k
			}
			fails = true
		}
	}
	sym.Assert((err2 != nil) == fails, "an error is not returned, or there is one although every option is valid")
	sym.Assert((t2 == nil) == fails, "a tokenizer and an error, or neither")
	if fails && first == fail {
		sym.Assert(errors.Is(err2, errOption), "not the error of the first option that fails")
	}
	if d == nil {
		sym.Assert(err != nil && t == nil, "a tokenizer without a dictionary")
		sym.Reach("nodict")
		return
	}
	sym.Assert((err != nil) == fails && (t == nil) == fails, "the same options fail once and succeed once")
	if fails {
		sym.Reach("fails")
		return
	}
	// the tokenizer the options describe: one user dictionary, nothing omitted
	var plain *tokenizer.Tokenizer
	if u == nil {
		plain, err = tokenizer.New(w.D)
	} else {
		plain, err = tokenizer.New(w.D, tokenizer.UserDict(u))
	}
	sym.Assert(err == nil, "a tokenizer cannot be made")
	mode := world.Mode()
	text := world.Text()
	got := t.Analyze(text, mode)
	for _, x := range got {
		sym.Observe("id", x.ID)
		sym.Observe("surface", x.Surface)
	}
	want := plain.Analyze(text, mode)
	sym.Assert(len(want) >= 2 && want[0].ID == tokenizer.BosEosID && want[len(want)-1].ID == tokenizer.BosEosID, "BOS or EOS is missing, although they are not omitted")
	if omits {
		want = want[1 : len(want)-1]
		for i := range want {
			want[i].Index = i
		}
		sym.Reach("omits")
	}
	same(got, want, "the options are not followed")
	same(t2.Analyze(text, mode), want, "a tokenizer depends on another one made with the same options")
	if u == otherUser {
		for _, x := range got {
			if x.Class == tokenizer.USER {
				sym.Reach("other")
			}
		}
	}
}
