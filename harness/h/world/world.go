// Package world holds the small dictionaries the harnesses analyse with, the
// texts they analyse, and an independent model of what the analysis is
// specified to be.
package world

import (
	"unicode"
	"unicode/utf8"

	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// Entry is a system dictionary entry.
type Entry struct {
	Word        string
	Left, Right int16
	Cost        int16
	POS         []dict.POSID
	Rest        []string
}

// Names are the names of the parts of speech.
var Names = []string{"noun", "common", "*", "verb", "suffix", "動詞", "名詞"}

// Entries is the system dictionary, sorted by headword.
var Entries = []Entry{
	{"-", 1, 1, 50, dict.POS{0, 1, 2}, []string{"-", "ー"}},
	{"-/", 1, 2, 90, dict.POS{0, 1, 2}, []string{"-/", "ーー"}},
	{"1", 2, 2, 70, dict.POS{0, 4, 2}, []string{"1", "イチ", "イチ"}},
	{"a", 1, 1, 30, dict.POS{0, 1, 2}, []string{"a", "ア", "アー"}},
	{"a", 2, 1, 20, dict.POS{3, 2, 2}, []string{"ar", "エ", "エー"}},
	{"ab", 1, 2, 60, dict.POS{0, 4, 2}, []string{"ab", "アブ", "アブー"}},
	{"abc", 1, 1, 110, dict.POS{5, 1, 2}, []string{"abr", "アブク"}},
	{"b", 2, 2, 40, dict.POS{5, 1, 1}, []string{}},
	{"bb", 2, 1, 75, dict.POS{0}, []string{"bb"}},
	{"c", 2, 1, 35, dict.POS{6, 1, 2}, []string{"c", "ク", "ク"}},
	{"〇", 1, 2, 45, dict.POS{6, 1, 2}, []string{"〇", "マル", "マル"}},
	{"〇〡", 2, 2, 85, dict.POS{6, 4, 2}, []string{"〇〡", "マルイチ", "マルイチ"}},
	{"〇〡〇", 1, 2, 95, dict.POS{6, 4, 2}, []string{"〇〡〇", "マ", "マ"}},
	{"あ", 1, 1, 25, dict.POS{5, 1, 2}, []string{"ある", "ア", "ア"}},
	{"あい", 2, 2, 55, dict.POS{6, 1, 2}, []string{"あい", "アイ", "アイ"}},
}

// LongEntries is another system dictionary, with words long enough for the
// penalties of the Search mode.
var LongEntries = []Entry{
	{"a", 1, 1, 3000, dict.POS{0, 1, 2}, []string{"a"}},
	{"aaaabbbb", 1, 2, 4100, dict.POS{0, 1, 2}, []string{"aaaabbbb"}},
	{"ab", 1, 2, 1900, dict.POS{0, 4, 2}, []string{"ab"}},
	{"ababababab", 2, 1, 900, dict.POS{0, 4, 2}, []string{"ab5"}},
	{"b", 2, 2, 3100, dict.POS{5, 1, 1}, []string{}},
	{"〇", 1, 2, 2900, dict.POS{6, 1, 2}, []string{"〇"}},
	{"〇〡〇〡", 1, 2, 450, dict.POS{6, 4, 2}, []string{"〇〡〇〡"}},
	{"〇〡あ", 1, 2, 850, dict.POS{6, 4, 2}, []string{"〇〡ある"}},
	{"〡", 2, 2, 2700, dict.POS{6, 4, 2}, []string{}},
	{"あ", 1, 1, 1500, dict.POS{5, 1, 2}, []string{"ある"}},
	{"あ〇〇", 1, 1, 1250, dict.POS{5, 1, 2}, []string{"あ〇〇"}},
	{"ああああああああ", 2, 2, 11000, dict.POS{6, 1, 2}, []string{"ああ"}},
}

// UnkEntry is an unknown-word entry.
type UnkEntry struct {
	Left, Right int16
	Cost        int16
	Features    []string
}

// Categories of characters.
const (
	Default = iota // single characters
	Alpha          // always invoked, grouped, two entries
	Kanji          // single characters, three entries
	Kana           // grouped
	Num            // always invoked, single characters, two entries
	Group          // grouped (characters that are DEFAULT in another world)
	nCat
)

var invoke = []bool{false, true, false, false, true, false}
var group = []bool{false, true, false, true, false, true}

// Unks are the unknown-word entries by category.
var Unks = []UnkEntry{
	{2, 1, 210, []string{"名詞", "sym", "*", "d0"}},   // Default
	{1, 2, 220, []string{"名詞", "alpha", "*", "a0"}}, // Alpha
	{2, 2, 230, []string{"動詞", "alpha", "*", "a1", "x"}},
	{1, 1, 240, []string{"名詞", "kanji", "*", "k0"}}, // Kanji
	{2, 1, 250, []string{"名詞", "kanji", "*", "k1"}},
	{1, 2, 260, []string{}},
	{2, 2, 200, []string{"名詞", "*", "*", "h0"}},   // Kana
	{1, 1, 280, []string{"名詞", "num", "*", "n0"}}, // Num
	{2, 1, 190, []string{"名詞", "num", "*"}},
	{1, 2, 300, []string{"名詞", "group"}}, // Group
}
var unkFirst = []int32{0, 1, 3, 6, 7, 9}
var unkDup = []int32{0, 1, 2, 0, 1, 0}

// Users is the user dictionary, sorted.
var Users = []dict.UserDicRecord{
	{Text: "b1", Tokens: []string{"b", "1"}, Yomi: []string{"ビ", "イチ"}, Pos: "ユーザ"},
	{Text: "ba", Tokens: []string{"ba"}, Yomi: []string{"バ"}, Pos: "ユーザ"},
	{Text: "bab", Tokens: []string{"b", "a", "b"}, Yomi: []string{"ビ", "ア", "ビ"}, Pos: "ユーザ"},
	{Text: "〡", Tokens: []string{"〡"}, Yomi: []string{"タテ"}, Pos: "カスタム"},
}

// LongUsers goes with LongEntries.
var LongUsers = []dict.UserDicRecord{
	{Text: "bbbbbbbbb", Tokens: []string{"b", "bbbb", "bbbb"}, Yomi: []string{"ビ", "イ", "ウ"}, Pos: "ユーザ"},
	{Text: "〇〇〇", Tokens: []string{"〇〇", "〇"}, Yomi: []string{"ビ", "イ"}, Pos: "カスタム"},
}

const nID = 3

// Conn is the default connection table, by [left][right of the previous].
var Conn = [nID][nID]int16{{0, 5, -7}, {11, -3, 2}, {-9, 8, 4}}

var base, baseGroup, long *dict.Dict
var shrunk *dict.Dict
var user, longUser *dict.UserDict

const catLen = 0x3100

// category is the category the dictionary assigns to a character.
func category(r rune, grouped bool) int {
	switch {
	case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z':
		return Alpha
	case r >= '0' && r <= '9':
		return Num
	case r >= '(' && r <= '/' || r >= 0x3041 && r <= 0x309F:
		return Kana
	case r == 0x3007 || r >= 0x3021 && r <= 0x3029:
		return Kanji
	}
	if grouped {
		return Group
	}
	return Default
}

func build(grouped bool, entries []Entry) *dict.Dict {
	d := &dict.Dict{}
	var keys []string
	for _, e := range entries {
		keys = append(keys, e.Word)
		d.Morphs = append(d.Morphs, dict.Morph{LeftID: e.Left, RightID: e.Right, Weight: e.Cost})
		d.POSTable.POSs = append(d.POSTable.POSs, e.POS)
		d.Contents = append(d.Contents, e.Rest)
	}
	d.POSTable.NameList = Names
	d.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 3,
		dict.BaseFormIndex: 3, dict.ReadingIndex: 4, dict.PronunciationIndex: 5, dict.InflectionalType: 1}
	idx, err := dict.BuildIndexTable(keys)
	if err != nil {
		panic(err)
	}
	d.Index = idx
	d.Connection = dict.ConnectionTable{Row: nID, Col: nID}
	for l := 0; l < nID; l++ {
		for r := 0; r < nID; r++ {
			d.Connection.Vec = append(d.Connection.Vec, Conn[l][r])
		}
	}
	d.CharClass = dict.CharClass{"DEFAULT", "ALPHA", "KANJI", "KANA", "NUM", "GROUP"}
	d.CharCategory = make(dict.CharCategory, catLen)
	for i := range d.CharCategory {
		d.CharCategory[i] = byte(category(rune(i), grouped))
	}
	d.InvokeList = invoke
	d.GroupList = group
	d.UnkDict.Index = map[int32]int32{}
	d.UnkDict.IndexDup = map[int32]int32{}
	for c := 0; c < nCat; c++ {
		d.UnkDict.Index[int32(c)] = unkFirst[c]
		if unkDup[c] > 0 {
			d.UnkDict.IndexDup[int32(c)] = unkDup[c]
		}
	}
	for _, u := range Unks {
		d.UnkDict.Morphs = append(d.UnkDict.Morphs, dict.Morph{LeftID: u.Left, RightID: u.Right, Weight: u.Cost})
		d.UnkDict.Contents = append(d.UnkDict.Contents, u.Features)
	}
	d.UnkDict.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 3, dict.BaseFormIndex: 3, dict.InflectionalForm: 1}
	return d
}

// Other is another dictionary: fewer words with the same headwords as Std's
// but other numbers and features, and other character categories.
func Other() *dict.Dict {
	d := &dict.Dict{}
	keys := []string{"1", "a", "b", "〇", "い", "い"}
	for i, k := range keys {
		d.Morphs = append(d.Morphs, dict.Morph{LeftID: int16(i % 2), RightID: int16(i % 2), Weight: int16(100 - 10*i)})
		d.POSTable.POSs = append(d.POSTable.POSs, dict.POS{dict.POSID(i % 2), 0})
		d.Contents = append(d.Contents, []string{"other-" + k})
	}
	d.POSTable.NameList = []string{"他", "別"}
	d.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 2, dict.BaseFormIndex: 2}
	idx, err := dict.BuildIndexTable(keys)
	if err != nil {
		panic(err)
	}
	d.Index = idx
	d.Connection = dict.ConnectionTable{Row: 2, Col: 2, Vec: []int16{0, 3, -20, 7}}
	d.CharClass = dict.CharClass{"DEFAULT", "ALL"}
	d.CharCategory = make(dict.CharCategory, 0x80)
	for i := range d.CharCategory {
		d.CharCategory[i] = 1
	}
	d.InvokeList = []bool{true, false}
	d.GroupList = []bool{true, true}
	d.UnkDict.Index = map[int32]int32{0: 0, 1: 1}
	d.UnkDict.IndexDup = map[int32]int32{1: 1}
	for i := 0; i < 3; i++ {
		d.UnkDict.Morphs = append(d.UnkDict.Morphs, dict.Morph{LeftID: int16(i % 2), RightID: 1, Weight: int16(10 * i)})
		d.UnkDict.Contents = append(d.UnkDict.Contents, []string{"未知", "u" + string(rune('0'+i))})
	}
	d.UnkDict.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 1}
	return d
}

// Setup builds the dictionaries.
func Setup() {
	base, baseGroup, long = build(false, Entries), build(true, Entries), build(false, LongEntries)
	s := *base
	s.Contents = nil
	shrunk = &s
	var err error
	if user, err = dict.UserDictRecords(Users).NewUserDict(); err != nil {
		panic(err)
	}
	if longUser, err = dict.UserDictRecords(LongUsers).NewUserDict(); err != nil {
		panic(err)
	}
}

// World is a dictionary with its parameters.
type World struct {
	D       *dict.Dict
	U       *dict.UserDict
	Entries []Entry
	Users   []dict.UserDicRecord
	Grouped bool
	Costs   []int16 // by entry
	UCosts  []int16 // by unknown-word entry
	Conn    [nID][nID]int16
}

// Std is the world with the default costs. Parameters: user (0, 1 or 2 for
// either), long (the dictionaries with long words), grp (characters of no other category are grouped).
func Std() *World {
	w := &World{D: base, Entries: Entries, Users: Users, Grouped: sym.Param("grp", 0) == 1}
	u := user
	if w.Grouped {
		w.D = baseGroup
	}
	if sym.Param("shrunk", 0) == 1 {
		w.D = shrunk
	}
	if sym.Param("long", 0) == 1 {
		w.D, w.Entries, w.Users, u = long, LongEntries, LongUsers, longUser
	}
	switch sym.Param("user", 1) {
	case 1:
		w.U = u
	case 2:
		if sym.Choose(2) == 1 {
			w.U = u
		}
	}
	for _, e := range w.Entries {
		w.Costs = append(w.Costs, e.Cost)
	}
	for _, u := range Unks {
		w.UCosts = append(w.UCosts, u.Cost)
	}
	w.Conn = Conn
	return w
}

// Symbolic is the world with arbitrary costs, as far as the parameter wsym
// says: bit 1 system entries, bit 2 unknown-word entries, bit 4 connections.
func Symbolic() *World {
	w := Std()
	m := sym.Param("wsym", 0)
	if m == 0 {
		return w
	}
	d := *w.D
	if m&1 != 0 {
		d.Morphs = append(dict.Morphs(nil), d.Morphs...)
		for i := range d.Morphs {
			w.Costs[i] = sym.Int16()
			d.Morphs[i].Weight = w.Costs[i]
		}
	}
	if m&2 != 0 {
		d.UnkDict.Morphs = append(dict.Morphs(nil), d.UnkDict.Morphs...)
		for i := range d.UnkDict.Morphs {
			w.UCosts[i] = sym.Int16()
			d.UnkDict.Morphs[i].Weight = w.UCosts[i]
		}
	}
	if m&4 != 0 {
		d.Connection.Vec = append([]int16(nil), d.Connection.Vec...)
		for i := range d.Connection.Vec {
			c := sym.Int16()
			d.Connection.Vec[i] = c
			w.Conn[i/nID][i%nID] = c
		}
	}
	w.D = &d
	return w
}

// Tokenizer makes a tokenizer for the world.
func (w *World) Tokenizer(opts ...tokenizer.Option) *tokenizer.Tokenizer {
	if w.U != nil {
		opts = append(opts, tokenizer.UserDict(w.U))
	}
	t, err := tokenizer.New(w.D, opts...)
	if err != nil {
		panic(err)
	}
	return t
}

// Text is an arbitrary text. Parameters: n (length), shape (0 ASCII, 1 any
// bytes, 2 characters of several kinds, 3 letters a, b, c only, 4 ideographs and kana, 6 one of two, 7 a few fixed texts,
// 8 characters of which some are ideographs).
func Text() string {
	n := sym.Param("n", 3)
	if sym.Param("exact", 0) == 0 {
		n = sym.Choose(n + 1)
	}
	var b []byte
	switch sym.Param("shape", 0) {
	case 0:
		b = sym.Bytes(n)
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
	case 1:
		b = sym.Bytes(n)
	case 2:
		for i := 0; i < n; i++ {
			b = append(b, char()...)
		}
	case 3:
		b = sym.Bytes(n)
		for _, c := range b {
			sym.Assume(sym.And(c >= 'a', c <= 'c'))
		}
	case 4: // 〇〡 and kana
		for i := 0; i < n; i++ {
			c := sym.Byte()
			if sym.Choose(2) == 0 {
				sym.Assume(sym.Or(c == 0x87, sym.And(c >= 0xA1, c <= 0xA9)))
				b = append(b, 0xE3, 0x80, c)
			} else {
				sym.Assume(sym.And(c >= 0x82, c <= 0xBF))
				b = append(b, 0xE3, 0x81, c)
			}
		}
	}
	if sym.Param("shape", 0) == 8 { // characters near and beyond the ideographs with a category of their own
		for i := 0; i < n; i++ {
			c := sym.Byte()
			sym.Assume(sym.And(c >= 0x80, c < 0xC0))
			b = append(append(b, [][]byte{{0xE3, 0x80}, {0xF0, 0xA0, 0x80}, {0xE4, 0xB8}}[sym.Choose(3)]...), c)
		}
	}
	if sym.Param("shape", 0) == 7 {
		b = []byte([]string{"a", "z", "b!", "7あ"}[sym.Choose(4)])
	}
	if sym.Param("shape", 0) == 6 {
		for i := 0; i < n; i++ {
			b = append(b, "(z"[sym.Choose(2)])
		}
	}
	if k := sym.Param("rep", 0); k > 0 { // a fixed beginning
		u := []string{"ab", "zz", "〇〡", "あ", "1", "〇", "(", "b", "!"}[sym.Param("repw", 0)]
		var p []byte
		for i := 0; i < k; i++ {
			p = append(p, u...)
		}
		b = append(p, b...)
	}
	return string(b)
}

func char() []byte {
	c := sym.Byte()
	switch sym.Choose(7) {
	case 0:
		sym.Assume(c < 0x80)
		return []byte{c}
	case 1:
		sym.Assume(sym.And(c >= 0x80, c < 0xC0))
		return []byte{0xE3, 0x81, c}
	case 2:
		sym.Assume(sym.And(c >= 0x80, c < 0xC0))
		return []byte{0xE3, 0x80, c}
	case 3:
		sym.Assume(sym.And(c >= 0x80, c < 0xC0))
		return []byte{0xC3, c}
	case 4:
		sym.Assume(sym.And(c >= 0x80, c < 0xC0))
		return []byte{0xF0, 0x9F, 0x98, c}
	case 5:
		sym.Assume(sym.Or(c == 0xC0, c == 0xC1, c >= 0xF5))
		return []byte{c}
	}
	sym.Assume(c == 0)
	return []byte{0xEF, 0xBF, 0xBD}
}

// Cand is a candidate word.
type Cand struct {
	Class       tokenizer.TokenClass
	ID          int
	Pos, End    int // bytes
	Start, Len  int // characters
	Left, Right int
	Weight      int
	Kanji       bool
}

// Candidates are the candidate words of a text, by character.
func (w *World) Candidates(text string) [][]Cand {
	var at []int // byte positions of characters
	var rs []rune
	for p := 0; p < len(text); {
		r, n := utf8.DecodeRuneInString(text[p:])
		at = append(at, p)
		rs = append(rs, r)
		p += n
	}
	n := len(rs)
	at = append(at, len(text))
	idx := func(p int) int {
		for i, x := range at {
			if x == p {
				return i
			}
		}
		return -1
	}
	kanji := func(i, j int) bool {
		for k := i; k < j; k++ {
			if !unicode.Is(unicode.Ideographic, rs[k]) {
				return false
			}
		}
		return true
	}
	starts := func(p int, s string) bool { return len(text)-p >= len(s) && text[p:p+len(s)] == s }
	out := make([][]Cand, n)
	for i := 0; i < n; i++ {
		p := at[i]
		if w.U != nil {
			for id, u := range w.Users {
				if starts(p, u.Text) {
					j := idx(p + len(u.Text))
					out[i] = append(out[i], Cand{Class: tokenizer.USER, ID: id, Pos: p, End: at[j], Start: i, Len: j - i, Kanji: kanji(i, j)})
				}
			}
		}
		if len(out[i]) > 0 {
			continue
		}
		for id, e := range w.Entries {
			if starts(p, e.Word) {
				j := idx(p + len(e.Word))
				out[i] = append(out[i], Cand{tokenizer.KNOWN, id, p, at[j], i, j - i, int(e.Left), int(e.Right), int(w.Costs[id]), kanji(i, j)})
			}
		}
		c := w.category(rs[i])
		if len(out[i]) > 0 && !invoke[c] {
			continue
		}
		j := i + 1
		if group[c] {
			for j < n && j-i < 1024 && w.category(rs[j]) == c {
				j++
			}
		}
		for x := 0; x <= int(unkDup[c]); x++ {
			id := int(unkFirst[c]) + x
			u := Unks[id]
			for e := j; e >= j-1 && e > i; e-- {
				out[i] = append(out[i], Cand{tokenizer.UNKNOWN, id, p, at[e], i, e - i, int(u.Left), int(u.Right), int(w.UCosts[id]), kanji(i, e)})
			}
		}
	}
	return out
}

func (w *World) category(r rune) int {
	if int(r) >= catLen {
		r = 0
	}
	return category(r, w.Grouped)
}

func penalty(c Cand, search bool) int {
	switch {
	case !search:
	case c.Kanji && c.Len > 2:
		return 3000 * (c.Len - 2)
	case !c.Kanji && c.Len > 7:
		return 1700 * (c.Len - 7)
	}
	return 0
}

// Link is the connection cost between neighbours; nil is BOS or EOS.
func (w *World) Link(a, b *Cand) int {
	l, r := 0, 0
	if a != nil {
		if a.Class == tokenizer.USER {
			return 0
		}
		r = a.Right
	}
	if b != nil {
		if b.Class == tokenizer.USER {
			return 0
		}
		l = b.Left
	}
	return int(w.Conn[l][r])
}

// Cost is the total cost of a segmentation.
func (w *World) Cost(seg []Cand, search bool) int {
	t := 0
	var prev *Cand
	for i := range seg {
		t += w.Link(prev, &seg[i]) + seg[i].Weight + penalty(seg[i], search)
		prev = &seg[i]
	}
	return t + w.Link(prev, nil)
}

// MinCost is the least total cost of a segmentation made of the candidates.
func (w *World) MinCost(cs [][]Cand, search bool) int {
	type state struct {
		c    *Cand
		cost int
	}
	ends := make([][]state, len(cs)+1)
	ends[0] = []state{{nil, 0}}
	step := func(from []state, c *Cand) int {
		m := 0
		for k, s := range from {
			x := s.cost + w.Link(s.c, c)
			if k == 0 {
				m = x
			} else {
				m = sym.IteInt(x < m, x, m)
			}
		}
		return m
	}
	for i := range cs {
		if len(ends[i]) == 0 {
			continue
		}
		for k := range cs[i] {
			c := &cs[i][k]
			j := i + c.Len
			ends[j] = append(ends[j], state{c, step(ends[i], c) + c.Weight + penalty(*c, search)})
		}
	}
	return step(ends[len(cs)], nil)
}

// Compatible are the candidates of which the tokens, in Extended mode, may
// have been made.
func Compatible(cs [][]Cand, ts []tokenizer.Token) [][]Cand {
	at := make([]int, len(cs)) // token by character
	for i := range at {
		at[i] = -1
	}
	for k, t := range ts {
		if t.Start >= 0 && t.Start < len(at) {
			at[t.Start] = k
		}
	}
	out := make([][]Cand, len(cs))
	for i := range cs {
		for _, c := range cs[i] {
			k := at[i]
			if k < 0 {
				continue
			}
			if c.Class != tokenizer.UNKNOWN {
				if t := ts[k]; t.Class == c.Class && t.ID == c.ID && t.Position == c.Pos && t.End == c.Start+c.Len {
					out[i] = append(out[i], c)
				}
				continue
			}
			ok := true
			for j := i; j < i+c.Len; j++ {
				k := at[j]
				ok = ok && k >= 0 && ts[k].Class == tokenizer.DUMMY && ts[k].ID == c.ID && ts[k].End == j+1
			}
			if ok {
				out[i] = append(out[i], c)
			}
		}
	}
	return out
}

// Connected is true if the candidates reach the end of the text.
func Connected(cs [][]Cand) bool {
	ok := make([]bool, len(cs)+1)
	ok[0] = true
	for i := range cs {
		for _, c := range cs[i] {
			if ok[i] {
				ok[i+c.Len] = true
			}
		}
	}
	return ok[len(cs)]
}

// Find gives the candidate a token stands for.
func Find(cs [][]Cand, t tokenizer.Token) (Cand, bool) {
	if t.Start < 0 || t.Start >= len(cs) {
		return Cand{}, false
	}
	for _, c := range cs[t.Start] {
		if c.Class == t.Class && c.ID == t.ID && c.Start == t.Start && c.Start+c.Len == t.End && c.Pos == t.Position {
			return c, true
		}
	}
	return Cand{}, false
}

// Shrunk is the dictionary without contents, Full the one with them.
func Shrunk() *dict.Dict       { return shrunk }
func Full() *dict.Dict         { return base }
func UserDict() *dict.UserDict { return user }

// UnkRange gives the unknown-word entries of the category of a character.
func (w *World) UnkRange(r rune) (int, int) {
	c := w.category(r)
	return int(unkFirst[c]), int(unkFirst[c] + unkDup[c])
}

// Modes are the tokenize modes.
var Modes = []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}

// Mode picks a mode. Parameter mode: 0 any, else 1, 2, 3.
func Mode() tokenizer.TokenizeMode {
	if m := sym.Param("mode", 0); m > 0 {
		return Modes[m-1]
	}
	return Modes[sym.Choose(3)]
}
