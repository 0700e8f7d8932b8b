// Package acc checks what tokens say about themselves (C09, C10).
package acc

import (
	"encoding/json"
	"strings"

	"kvh/h/js"
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func Setup() {
	world.Setup()
	setupAny()
}

// texts whose analyses have every entry of the dictionaries as a token
func texts() []string {
	var r []string
	for _, e := range world.Entries {
		r = append(r, e.Word)
	}
	for _, u := range world.Users {
		r = append(r, u.Text)
	}
	return append(r, "", "z", "!", "7", "〢", "い", "a〢z", "(")
}

var keys = []string{dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex, dict.InflectionalType, dict.InflectionalForm}

// meta is a declaration of columns: one of them is declared anywhere or not
// at all, the others lie somewhere.
func meta(hier bool, key int) dict.ContentsMeta {
	m := dict.ContentsMeta{}
	for i, k := range keys {
		if i != key {
			m[k] = int8((i + 2) % 6)
		} else if sym.Choose(2) == 1 {
			m[k] = sym.Int8()
		}
	}
	if hier && sym.Choose(2) == 1 {
		v := sym.Int8()
		sym.Assume(sym.And(v >= 0, v <= 5))
		m[dict.POSHierarchy] = v
		if sym.Choose(2) == 1 {
			v := sym.Int8()
			sym.Assume(sym.And(v >= 0, v <= 5))
			m[dict.POSStartIndex] = v
		}
	}
	return m
}

// one is a token of the world's dictionary with arbitrary column
// declarations, and the features its entry has.
func one(key int) (tokenizer.Token, dict.ContentsMeta, []string, []string) {
	w := world.Std()
	full := w.D.Contents != nil
	d := *w.D
	ts := texts()
	text := ts[sym.Choose(len(ts))]
	km, um := d.ContentsMeta, d.UnkDict.ContentsMeta
	switch sym.Param("meta", 1) {
	case 1:
		km = meta(false, key)
		d.ContentsMeta = km
	case 2:
		um = meta(key < 0, key)
		d.UnkDict.ContentsMeta = um
	}
	w.D = &d
	toks := w.Tokenizer().Analyze(text, world.Mode())
	t := toks[sym.Choose(len(toks))]
	var fs, pos []string
	switch t.Class {
	case tokenizer.KNOWN:
		e := world.Entries[t.ID]
		for _, p := range e.POS {
			fs = append(fs, world.Names[p])
			pos = append(pos, world.Names[p])
		}
		if full {
			fs = append(fs, e.Rest...)
		}
		sym.Reach("known")
		return t, km, fs, pos
	case tokenizer.UNKNOWN:
		sym.Reach("unknown")
		fs = world.Unks[t.ID].Features
		s, n := 0, 1
		if v, ok := um[dict.POSStartIndex]; ok {
			s = int(v)
		}
		if v, ok := um[dict.POSHierarchy]; ok {
			n = int(v)
		}
		s, n = sym.Fix(s), sym.Fix(n)
		if n > 0 && s+n <= len(fs) {
			pos = fs[s : s+n]
		}
		return t, um, fs, pos
	case tokenizer.USER:
		sym.Reach("user")
		u := world.Users[t.ID]
		return t, nil, []string{u.Pos, strings.Join(u.Tokens, "/"), strings.Join(u.Yomi, "/")}, []string{u.Pos}
	}
	return t, nil, nil, nil
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type field struct {
	key string
	get func() (string, bool)
}

func fields(t tokenizer.Token) []field {
	return []field{{dict.BaseFormIndex, t.BaseForm}, {dict.ReadingIndex, t.Reading}, {dict.PronunciationIndex, t.Pronunciation}, {dict.InflectionalType, t.InflectionalType}, {dict.InflectionalForm, t.InflectionalForm}}
}

// C09: the accessors agree.
func C09() {
	key := sym.Choose(len(keys)+1) - 1
	t, m, fs, pos := one(key)
	sym.Observe("class", int(t.Class))
	if key >= 0 {
		f := fields(t)[key]
		s, ok := f.get()
		sym.Observe("ok", ok)
		c, declared := m[f.key]
		if !declared || c < 0 || int(c) >= len(fs) {
			sym.Assert(!ok && s == "", "a feature that is not there: "+f.key)
			return
		}
		sym.Reach("declared")
		sym.Assert(ok && s == fs[sym.Fix(int(c))], "another column than the declared one: "+f.key)
		return
	}
	sym.Assert(equal(t.Features(), fs), "Features are not those of the entry")
	sym.Assert(equal(t.POS(), pos), "POS is not the part of speech of the entry")
	x := t.UserExtra()
	if t.Class != tokenizer.USER {
		sym.Assert(x == nil, "a word that is no user word has extra data")
	} else {
		sym.Assert(x != nil && equal(x.Tokens, world.Users[t.ID].Tokens) && equal(x.Readings, world.Users[t.ID].Yomi), "the extra data is not the user entry's")
	}
	i := sym.Int()
	s, ok := t.FeatureAt(i)
	if i >= 0 && i < len(fs) {
		i = sym.Fix(i)
		sym.Reach("in range")
		sym.Assert(ok && s == fs[i], "FeatureAt is not the element of Features")
	} else {
		sym.Assert(!ok && s == "", "FeatureAt finds a feature out of range")
	}
}

// snapshot is everything a token says.
func snapshot(t tokenizer.Token) []string {
	r := append([]string{"features"}, t.Features()...)
	r = append(append(r, "pos"), t.POS()...)
	for i := 0; i < 8; i++ {
		s, ok := t.FeatureAt(i)
		r = append(r, s)
		if !ok {
			r = append(r, "none")
		}
	}
	for _, f := range fields(t) {
		s, _ := f.get()
		r = append(r, f.key, s)
	}
	if x := t.UserExtra(); x != nil {
		r = append(append(append(r, "extra"), x.Tokens...), x.Readings...)
	}
	d := tokenizer.NewTokenData(t)
	return append(append(append(r, "data"), d.POS...), d.Features...)
}

func spoil(s []string) {
	for i := range s {
		s[i] = "spoilt"
	}
	s = s[:cap(s)]
	for i := range s {
		s[i] = "spoilt"
	}
	_ = append(s, "more")
}

// C10: data handed out is an independent, faithful copy.
func C10() {
	w := world.Std()
	tk := w.Tokenizer()
	ts := texts()
	k := sym.Choose(len(ts))
	mode := world.Mode()
	toks := tk.Analyze(ts[k], mode)
	t := toks[sym.Choose(len(toks))]
	before := snapshot(t)
	d := tokenizer.NewTokenData(t)
	sym.Assert(d.ID == t.ID && d.Start == t.Start && d.End == t.End && d.Surface == t.Surface, "the token data does not mirror the token")
	cl, ok := map[tokenizer.TokenClass]string{tokenizer.DUMMY: "DUMMY", tokenizer.KNOWN: "KNOWN", tokenizer.UNKNOWN: "UNKNOWN", tokenizer.USER: "USER"}[t.Class]
	sym.Assert(ok && d.Class == cl, "the token data has another class")
	sym.Assert(d.POS != nil && d.Features != nil, "the token data has a null list")
	sym.Assert(equal(d.POS, t.POS()) && equal(d.Features, t.Features()), "the token data has other features")
	b, _ := t.BaseForm()
	r, _ := t.Reading()
	p, _ := t.Pronunciation()
	sym.Assert(d.BaseForm == b && d.Reading == r && d.Pronunciation == p, "the token data has another base form, reading or pronunciation")
	b2, err := json.Marshal(d)
	v, ok := js.Parse(string(b2))
	sym.Assert(err == nil && ok && Shown(v, d), "the JSON of the token data is not as documented")
	sym.Observe("json", string(b2))
	switch sym.Choose(5) {
	case 0:
		spoil(t.Features())
	case 1:
		spoil(t.POS())
	case 2:
		if x := t.UserExtra(); x != nil {
			sym.Reach("extra")
			spoil(x.Tokens)
			spoil(x.Readings)
		}
	case 3:
		spoil(d.POS)
		spoil(d.Features)
	case 4:
		e := tokenizer.NewTokenData(toks[len(toks)-1])
		spoil(e.POS)
		spoil(e.Features)
	}
	sym.Assert(equal(snapshot(t), before), "changing what an accessor returned changes the token")
	again := tk.Analyze(ts[k], mode)
	for i := range again {
		sym.Assert(again[i].Surface == toks[i].Surface && again[i].ID == toks[i].ID, "changing what an accessor returned changes the analysis")
		if again[i].ID == t.ID && again[i].Class == t.Class {
			sym.Assert(equal(again[i].Features(), t.Features()) && equal(again[i].POS(), t.POS()), "changing what an accessor returned changes later answers")
		}
	}
}
