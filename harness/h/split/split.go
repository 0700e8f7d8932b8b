// Package split checks the sentence splitter (C15, C16, C17).
package split

import (
	"bufio"
	"io"
	"unicode"
	"unicode/utf8"

	"kvh/sym"

	"github.com/ikawaha/kagome/v2/filter"
)

// splitter makes the splitter under test. Parameters: skip, dlf (0, 1 or 2
// for either), maxlen, set (delimiter set).
func splitter() *filter.SentenceSplitter {
	s := &filter.SentenceSplitter{MaxRuneLen: sym.Param("maxlen", 128)}
	pick := func(name string) bool {
		switch sym.Param(name, 1) {
		case 0:
			return false
		case 1:
			return true
		}
		return sym.Choose(2) == 1
	}
	s.SkipWhiteSpace = pick("skip")
	s.DoubleLineFeedSplit = pick("dlf")
	switch sym.Param("set", 0) {
	case 0: // part of the default set
		s.Delim = []rune{'。', '!'}
		s.Follower = []rune{'」', ')'}
	case 1: // ASCII only
		s.Delim = []rune{'!'}
		s.Follower = []rune{')'}
	case 2: // a white-space delimiter
		s.Delim = []rune{'!', '\t'}
		s.Follower = []rune{')'}
	case 3: // the line feed as delimiter and follower; none otherwise
		s.Delim = []rune{'\n'}
		s.Follower = []rune{'\n'}
	case 4: // nothing
	case 6: // white space only
		s.Delim = []rune{' ', '　'}
		s.Follower = []rune{'」'}
	case 7: // the default splitter, as documented
		s.Delim = []rune{'。', '．', '！', '!', '？', '?'}
		s.Follower = []rune{'.', '｣', '」', '』', ')', '）', '｝', '}', '〉', '》'}
		s.SkipWhiteSpace, s.DoubleLineFeedSplit, s.MaxRuneLen = true, true, 128
	case 5: // two-byte and four-byte delimiters, the replacement character
		s.Delim = []rune{'é', '\U0001F600'}
		s.Follower = []rune{'\uFFFD'}
	}
	return s
}

func text() []byte {
	b := sym.Bytes(sym.Choose(sym.Param("n", 4) + 1))
	if sym.Param("ascii", 0) == 1 {
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
	}
	if k := sym.Param("pre", 0); k > 0 { // a fixed beginning
		var p []byte
		for i := 0; i < k; i++ {
			if m := sym.Param("every", 0); m > 0 && i%m == m-1 {
				p = append(p, '!')
			} else if sym.Param("wide", 0) == 1 {
				p = append(p, "あ"...)
			} else {
				p = append(p, 'a')
			}
		}
		b = append(p, b...)
	}
	return b
}

// oneShot delivers the whole text in a single read, or as much as fits.
type oneShot struct {
	b []byte
}

func (r *oneShot) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func scan(s *filter.SentenceSplitter, r io.Reader) []string {
	sc := bufio.NewScanner(r)
	if sym.Param("set", 0) == 7 {
		sc.Split(filter.ScanSentences)
	} else {
		sc.Split(s.ScanSentences)
	}
	var out []string
	for sc.Scan() {
		out = append(out, sc.Text())
		sym.Assert(len(out) <= 300, "scanning does not come to an end")
	}
	sym.Assert(sc.Err() == nil, "scanning ends with an error")
	return out
}

// C15: no text is lost, added or reordered; no sentence is empty.
func C15() {
	s := splitter()
	b := text()
	orig := string(b)
	out := scan(s, &oneShot{b: b})
	sym.Observe("out", out)
	var got, want []byte
	for _, x := range out {
		sym.Assert(len(x) > 0, "a sentence is empty")
		got = append(got, x...)
	}
	for i := 0; i < len(orig); {
		r, n := utf8.DecodeRuneInString(orig[i:])
		if !s.SkipWhiteSpace || !unicode.IsSpace(r) {
			want = append(want, orig[i:i+n]...)
		}
		i += n
	}
	if len(out) > 1 {
		sym.Reach("split")
	}
	sym.Assert(string(got) == string(want), "the sentences joined are not the text")
}

type ch struct {
	r rune
	b string
}

func chars(s string) []ch {
	var r []ch
	for i := 0; i < len(s); {
		x, n := utf8.DecodeRuneInString(s[i:])
		r = append(r, ch{x, s[i : i+n]})
		i += n
	}
	return r
}

func in(r rune, set []rune) bool {
	for _, x := range set {
		if x == r {
			return true
		}
	}
	return false
}

// reference is the specified result. cut[i] forces the end of a sentence
// whose closing run reaches byte i (see the known finding of C17).
func reference(text string, s *filter.SentenceSplitter, cut []bool) []string {
	cs := chars(text)
	ws := make([]bool, len(cs))
	for i, c := range cs {
		ws[i] = s.SkipWhiteSpace && unicode.IsSpace(c.r)
	}
	dlf := func(i, first int) bool { // second of two consecutive line feeds
		return s.DoubleLineFeedSplit && i > first && cs[i].r == '\n' && cs[i-1].r == '\n'
	}
	var out []string
	i, pos := 0, 0
	for {
		for i < len(cs) && ws[i] {
			pos += len(cs[i].b)
			i++
		}
		if i == len(cs) {
			return out
		}
		first, n := i, 0
		var sent []byte
		closing, ended := false, false
		for i < len(cs) && !ended {
			c := cs[i]
			if closing && cut != nil && cut[pos] {
				break
			}
			switch {
			case closing && ws[i]:
				// a double line feed has to lie within the closing run
				ended = s.DoubleLineFeedSplit && c.r == '\n' && cs[i-1].r == '\n'
			case closing:
				if !in(c.r, s.Delim) && !in(c.r, s.Follower) {
					ended = true
					continue
				}
				sent = append(sent, c.b...)
			case ws[i]:
				ended = in(c.r, s.Delim) || dlf(i, first)
			default:
				sent = append(sent, c.b...)
				n++
				if dlf(i, first) {
					ended = true
				} else if in(c.r, s.Delim) || n >= s.MaxRuneLen {
					closing = true
				}
			}
			pos += len(c.b)
			i++
		}
		out = append(out, string(sent))
	}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

// C16: sentences end exactly at the configured boundaries.
func C16() {
	s := splitter()
	b := text()
	orig := string(b)
	out := scan(s, &oneShot{b: b})
	want := reference(orig, s, nil)
	if len(out) > 1 {
		sym.Reach("split")
	}
	sym.Observe("out", out)
	sym.Assert(len(out) == len(want), "not as many sentences as specified")
	sym.Assert(same(out, want), "a sentence does not end where specified")
}

// chunked delivers the text cut into reads.
type chunked struct {
	b       []byte
	pos     int
	cut     []bool // a read ends before byte i
	withEOF bool   // the last read also reports the end
	zero    bool   // an empty read comes first
}

func (r *chunked) Read(p []byte) (int, error) {
	if r.zero {
		r.zero = false
		return 0, nil
	}
	if r.pos == len(r.b) {
		return 0, io.EOF
	}
	e := r.pos + 1
	for e < len(r.b) && !r.cut[e] {
		e++
	}
	n := copy(p, r.b[r.pos:e])
	r.pos += n
	if r.withEOF && r.pos == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}

// C17: the sentences do not depend on how the text is read.
func C17() {
	s := splitter()
	b := text()
	orig := string(b)
	cut := make([]bool, len(b)+1)
	for i := max(1, sym.Param("pre", 0)-1); i < len(b); i++ {
		cut[i] = sym.Bool()
	}
	withEOF := sym.Bool()
	// the end of the last data read is a cut too unless it reports the end
	r := &chunked{b: b, cut: cut, withEOF: withEOF}
	got := scan(s, r)
	sym.Observe("got", got)
	whole := scan(s, &oneShot{b: []byte(orig)})
	// Known finding: a sentence whose closing run (delimiter and what may
	// follow it) reaches the end of a read ends there.
	known := reference(orig, s, cut)
	if len(got) == len(whole) {
		if len(got) == len(known) {
			sym.Assert(sym.Or(same(got, whole), same(got, known)), "the sentences depend on how the text is read")
		} else {
			sym.Assert(same(got, whole), "the sentences depend on how the text is read")
		}
		sym.Reach("equal")
		return
	}
	sym.Reach("differ")
	sym.Assert(len(got) == len(known), "the number of sentences depends on how the text is read")
	sym.Assert(same(got, known), "the sentences depend on how the text is read")
}

// KF17 fails as long as the known finding of C17 is there.
func KF17() {
	s := splitter()
	orig := "a!)b"
	cut := []bool{false, false, true, false, false}
	got := scan(s, &chunked{b: []byte(orig), cut: cut})
	whole := scan(s, &oneShot{b: []byte(orig)})
	sym.Assert(len(got) == len(whole) && same(got, whole), "the sentences depend on how the text is read")
}
