package acc

import (
	"encoding/json"

	"kvh/h/js"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var knownIndex, userIndex dict.IndexTable

func setupAny() {
	var err error
	if knownIndex, err = dict.BuildIndexTable([]string{"a", "b"}); err != nil {
		panic(err)
	}
	if userIndex, err = dict.BuildIndexTable([]string{"c", "d"}); err != nil {
		panic(err)
	}
}

// letter is an arbitrary feature: one byte.
func letter() string {
	s := sym.String(1)
	sym.Assume(sym.Or(sym.And(s[0] >= 'A', s[0] <= 'Z'), s[0] == '*'))
	return s
}

func letters(n int) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, letter())
	}
	return r
}

// truth is what the dictionary says about a token.
type truth struct {
	class          tokenizer.TokenClass
	id             int
	features, pos  []string
	meta           dict.ContentsMeta
	tokens, yomi   []string
	surface        string
	start, declare int // of the key under test; declare < 0: none
}

func columns(key int) (dict.ContentsMeta, int) {
	m := dict.ContentsMeta{}
	for i, k := range keys {
		if i != key {
			m[k] = int8(i % 4)
		}
	}
	col := -1
	if key >= 0 && sym.Choose(2) == 1 {
		c := sym.Int8()
		m[keys[key]] = c
		col = int(c)
		if c < 0 {
			col = 1000
		}
	}
	return m, col
}

// anyToken is a token of an entry of an arbitrary small dictionary: two
// entries of each class; the entry of the token has an arbitrary shape.
// Parameters: min, max (features), extra (bytes of other text before the token).
func anyToken(key int) (*tokenizer.Tokenizer, string, tokenizer.Token, truth) {
	var tr truth
	d := &dict.Dict{Index: knownIndex}
	d.CharClass = dict.CharClass{"DEFAULT", "Y"}
	d.CharCategory = make(dict.CharCategory, 0x80)
	d.CharCategory['y'] = 1
	d.InvokeList, d.GroupList = []bool{false, false}, []bool{false, false}
	d.Connection = dict.ConnectionTable{Row: 1, Col: 1, Vec: []int16{0}}
	d.Morphs = make(dict.Morphs, 2)
	d.UnkDict.Morphs = make(dict.Morphs, 2)
	d.UnkDict.Index = map[int32]int32{0: 0, 1: 1}
	u := &dict.UserDict{Index: userIndex}
	max := sym.Param("max", 2)
	class, id := sym.Choose(3), sym.Choose(2)
	tr.id = id
	shape := func(i, c int) int { // number of features of entry i of class c
		if i == id && c == class {
			return min(sym.Param("min", 0), max) + sym.Choose(max-min(sym.Param("min", 0), max)+1)
		}
		return 1
	}
	// Parameter raw: one feature of the entry is an arbitrary byte.
	raw := func(s []string) []string {
		if sym.Param("raw", 0) == 1 && len(s) > 0 {
			s[len(s)-1] = sym.String(1)
		}
		return s
	}
	d.POSTable.NameList = letters(2)
	contents := sym.Choose(2) == 1
	for i := 0; i < 2; i++ {
		var p dict.POS
		var fs []string
		for k := shape(i, 0); k > 0; k-- {
			x := k % 2
			if sym.Param("min", 0) == 0 {
				x = sym.Choose(len(d.POSTable.NameList))
			}
			p = append(p, dict.POSID(x))
			fs = append(fs, d.POSTable.NameList[x])
		}
		d.POSTable.POSs = append(d.POSTable.POSs, p)
		c := letters(shape(i, 0))
		if class == 0 && i == id {
			c = raw(c)
		}
		if contents {
			d.Contents = append(d.Contents, c)
		}
		if class == 0 && i == id {
			tr.class, tr.pos, tr.surface = tokenizer.KNOWN, append([]string(nil), fs...), "ab"[i:i+1]
			tr.features = fs
			if contents {
				tr.features = append(tr.features, c...)
			}
		}
	}
	d.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 1}
	d.UnkDict.ContentsMeta = dict.ContentsMeta{}
	for i := 0; i < 2; i++ {
		c := letters(shape(i, 1) + shape(i, 1))
		d.UnkDict.Contents = append(d.UnkDict.Contents, c)
		if class == 1 && i == id {
			tr.class, tr.surface = tokenizer.UNKNOWN, "xy"[i:i+1]
			tr.features = append([]string(nil), raw(c)...)
		}
	}
	m, col := columns(key)
	tr.declare = col
	switch class {
	case 0:
		for k, v := range d.ContentsMeta {
			m[k] = v
		}
		d.ContentsMeta = m
	case 1:
		s, n := 0, 1
		if key < 0 {
			if sym.Choose(2) == 1 {
				n = sym.Choose(max + 2)
				m[dict.POSHierarchy] = int8(n)
				if sym.Choose(2) == 1 {
					s = sym.Choose(max + 1)
					m[dict.POSStartIndex] = int8(s)
				}
			}
		}
		d.UnkDict.ContentsMeta = m
		if n > 0 && s+n <= len(tr.features) {
			tr.pos = tr.features[s : s+n]
		}
	}
	for i := 0; i < 2; i++ {
		k := shape(i, 2)
		c := dict.UserDictContent{Tokens: letters(k), Yomi: letters(k), Pos: letter()}
		if class == 2 && i == id {
			c.Pos = raw([]string{c.Pos})[0]
		}
		u.Contents = append(u.Contents, c)
		if class == 2 && i == id {
			tr.class, tr.surface, tr.declare = tokenizer.USER, "cd"[i:i+1], -1
			tr.pos = []string{c.Pos}
			tr.tokens, tr.yomi = append([]string{}, c.Tokens...), append([]string{}, c.Yomi...)
			tr.features = []string{c.Pos, join(c.Tokens), join(c.Yomi)}
		}
	}
	tk, err := tokenizer.New(d, tokenizer.UserDict(u))
	if err != nil {
		panic(err)
	}
	text := "axyc"[:sym.Param("extra", 0)] + tr.surface
	toks := tk.Tokenize(text)
	t := toks[len(toks)-2]
	sym.Assert(t.Class == tr.class && t.ID == tr.id && t.Surface == tr.surface, "the token is not the word")
	sym.Reach([]string{"known", "unknown", "user"}[class])
	return tk, text, t, tr
}

func join(s []string) string {
	r := ""
	for i, x := range s {
		if i > 0 {
			r += "/"
		}
		r += x
	}
	return r
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// C09A: the accessors agree with the dictionary, whatever it contains.
func C09A() {
	key := sym.Choose(len(keys)+1) - 1
	_, _, t, tr := anyToken(key)
	if key >= 0 {
		f := fields(t)[key]
		s, ok := f.get()
		sym.Observe("ok", ok)
		if tr.declare < 0 || tr.declare >= len(tr.features) {
			sym.Assert(sym.And(!ok, s == ""), "a feature that is not there: "+f.key)
			return
		}
		sym.Reach("declared")
		sym.Assert(sym.And(ok, s == tr.features[sym.Fix(tr.declare)]), "another column than the declared one: "+f.key)
		return
	}
	sym.Observe("features", t.Features())
	sym.Assert(same(t.Features(), tr.features), "Features are not those of the entry")
	sym.Assert(same(t.POS(), tr.pos), "POS is not the part of speech of the entry")
	x := t.UserExtra()
	sym.Assert((x != nil) == (tr.class == tokenizer.USER), "extra data for another word than a user word")
	if x != nil {
		sym.Assert(same(x.Tokens, tr.tokens), "the extra data has other words than the user entry")
		sym.Assert(same(x.Readings, tr.yomi), "the extra data has other readings than the user entry")
	}
	i := sym.Int()
	s, ok := t.FeatureAt(i)
	if i >= 0 && i < len(tr.features) {
		i = sym.Fix(i)
		sym.Reach("in range")
		sym.Assert(sym.And(ok, s == tr.features[i]), "FeatureAt is not the element of Features")
	} else {
		sym.Assert(sym.And(!ok, s == ""), "FeatureAt finds a feature out of range")
	}
}

// C10A: the data handed out is a faithful, independent copy, whatever the
// dictionary contains.
func C10A() {
	key := []int{-1, 0, 1, 2}[sym.Choose(4)]
	tk, text, t, tr := anyToken(key)
	before := snapshot(t)
	d := tokenizer.NewTokenData(t)
	b, _ := t.BaseForm()
	r, _ := t.Reading()
	p, _ := t.Pronunciation()
	n := sym.Param("extra", 0)
	sym.Assert(d.ID == tr.id && d.Start == n && d.End == n+1 && d.Surface == tr.surface && d.Class == []string{"DUMMY", "KNOWN", "UNKNOWN", "USER"}[tr.class], "the token data does not mirror the token")
	sym.Assert(d.POS != nil && d.Features != nil, "the token data has a null list")
	sym.Assert(sym.And(same(d.POS, tr.pos), same(d.Features, tr.features)), "the token data has other features")
	sym.Assert(sym.And(d.BaseForm == b, d.Reading == r, d.Pronunciation == p), "the token data has another base form, reading or pronunciation")
	b2, err := json.Marshal(d)
	v, ok := js.Parse(string(b2))
	sym.Assert(err == nil && ok && Shown(v, d), "the JSON of the token data is not as documented")
	sym.Observe("json", string(b2))
	switch sym.Choose(4) {
	case 0:
		spoil(t.Features())
	case 1:
		spoil(t.POS())
	case 2:
		if x := t.UserExtra(); x != nil {
			sym.Reach("extra")
			spoil(x.Tokens)
			spoil(x.Readings)
		}
	case 3:
		spoil(d.POS)
		sym.Assert(same(d.Features, tr.features), "changing the part of speech in the token data changes its features")
		spoil(d.Features)
	}
	sym.Assert(same(snapshot(t), before), "changing what an accessor returned changes the token")
	again := tk.Tokenize(text)
	for _, a := range again {
		if a.ID == t.ID && a.Class == t.Class {
			sym.Assert(same(snapshot(a), before), "changing what an accessor returned changes later answers")
		}
	}
}

// Shown is true if v is the JSON of the data.
func Shown(v js.Value, d tokenizer.TokenData) bool {
	num := func(key string, want int) bool {
		n, ok := v.Get(key).Int()
		return ok && n == want
	}
	str := func(key, want string) bool {
		x := v.Get(key)
		return x.Kind == js.String && x.Str == js.Clean(want)
	}
	list := func(key string, want []string) bool {
		l, ok := v.Get(key).Strings()
		if !ok || len(l) != len(want) {
			return false
		}
		r := true
		for i := range l {
			r = sym.And(r, l[i] == js.Clean(want[i]))
		}
		return r
	}
	return num("id", d.ID) && num("start", d.Start) && num("end", d.End) && str("surface", d.Surface) && str("class", d.Class) &&
		list("pos", d.POS) && str("base_form", d.BaseForm) && str("reading", d.Reading) && str("pronunciation", d.Pronunciation) && list("features", d.Features)
}
