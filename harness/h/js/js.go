// Package js is an independent reader of JSON.
package js

import "unicode/utf8"

// Kinds of values.
const (
	Bad = iota
	Null
	Bool
	Number
	String
	List
	Object
)

// Value is a JSON value.
type Value struct {
	Kind  int
	Str   string // contents of a string, text of a number
	Bool  bool
	Items []Value
	Keys  []string
}

// Get is a member of an object; Bad if it is missing or there twice.
func (v Value) Get(key string) Value {
	r := Value{}
	n := 0
	for i, k := range v.Keys {
		if v.Kind == Object && k == key {
			r = v.Items[i]
			n++
		}
	}
	if n != 1 {
		return Value{}
	}
	return r
}

// Int is the value of a whole number.
func (v Value) Int() (int, bool) {
	s, neg, n := v.Str, false, 0
	if v.Kind != Number {
		return 0, false
	}
	if len(s) > 0 && s[0] == '-' {
		s, neg = s[1:], true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, len(s) > 0
}

// Strings is a list of strings.
func (v Value) Strings() ([]string, bool) {
	if v.Kind != List {
		return nil, false
	}
	r := []string{}
	for _, x := range v.Items {
		if x.Kind != String {
			return nil, false
		}
		r = append(r, x.Str)
	}
	return r, true
}

// Clean is s as JSON can carry it: with U+FFFD for what is not UTF-8.
func Clean(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		_, n := utf8.DecodeRuneInString(s[i:])
		if s[i] >= utf8.RuneSelf && n == 1 {
			b = append(b, "\ufffd"...)
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return string(b)
}

// Parse reads one JSON text.
func Parse(s string) (Value, bool) {
	p := &parser{s: s}
	v, ok := p.value()
	p.space()
	return v, ok && p.i == len(s)
}

// Prefix reads one JSON text at the start of s and gives the rest.
func Prefix(s string) (Value, string, bool) {
	p := &parser{s: s}
	v, ok := p.value()
	return v, s[p.i:], ok
}

// Request reads one JSON text at the start of s as encoding/json does, with
// U+FFFD for what is not UTF-8.
func Request(s string) (Value, bool) {
	p := &parser{s: s, lenient: true}
	return p.value()
}

type parser struct {
	s       string
	i       int
	lenient bool
}

func (p *parser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\r' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *parser) next(c byte) bool {
	p.space()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *parser) word(w string) bool {
	if len(p.s)-p.i < len(w) || p.s[p.i:p.i+len(w)] != w {
		return false
	}
	p.i += len(w)
	return true
}

func (p *parser) value() (Value, bool) {
	p.space()
	if p.i >= len(p.s) {
		return Value{}, false
	}
	switch c := p.s[p.i]; {
	case c == '"':
		s, ok := p.str()
		return Value{Kind: String, Str: s}, ok
	case c == '{':
		p.i++
		v := Value{Kind: Object}
		if p.next('}') {
			return v, true
		}
		for {
			p.space()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return Value{}, false
			}
			k, ok := p.str()
			if !ok || !p.next(':') {
				return Value{}, false
			}
			x, ok := p.value()
			if !ok {
				return Value{}, false
			}
			v.Keys, v.Items = append(v.Keys, k), append(v.Items, x)
			if p.next('}') {
				return v, true
			}
			if !p.next(',') {
				return Value{}, false
			}
		}
	case c == '[':
		p.i++
		v := Value{Kind: List}
		if p.next(']') {
			return v, true
		}
		for {
			x, ok := p.value()
			if !ok {
				return Value{}, false
			}
			v.Items = append(v.Items, x)
			if p.next(']') {
				return v, true
			}
			if !p.next(',') {
				return Value{}, false
			}
		}
	case c == 'n':
		return Value{Kind: Null}, p.word("null")
	case c == 't':
		return Value{Kind: Bool, Bool: true}, p.word("true")
	case c == 'f':
		return Value{Kind: Bool}, p.word("false")
	case c == '-' || c >= '0' && c <= '9':
		b := p.i
		if c == '-' {
			p.i++
		}
		d := p.i
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
		if p.i == d || p.s[d] == '0' && p.i > d+1 { // fractions and exponents do not occur
			return Value{}, false
		}
		return Value{Kind: Number, Str: p.s[b:p.i]}, true
	}
	return Value{}, false
}

func (p *parser) str() (string, bool) {
	var b []byte
	for p.i++; p.i < len(p.s); {
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return string(b), true
		case c < ' ':
			return "", false
		case c == '\\':
			if p.i+1 >= len(p.s) {
				return "", false
			}
			e := p.s[p.i+1]
			p.i += 2
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r, ok := p.hex()
				if !ok {
					return "", false
				}
				if r >= 0xD800 && r < 0xDC00 && p.word(`\u`) {
					l, ok := p.hex()
					if !ok || l < 0xDC00 || l > 0xDFFF {
						return "", false
					}
					r = 0x10000 + (r-0xD800)<<10 + l - 0xDC00
				}
				b = utf8.AppendRune(b, r)
			default:
				return "", false
			}
		case c < utf8.RuneSelf:
			b = append(b, c)
			p.i++
		default:
			_, n := utf8.DecodeRuneInString(p.s[p.i:])
			if n == 1 {
				if !p.lenient {
					return "", false // not UTF-8
				}
				b = append(b, "\ufffd"...)
				p.i++
				continue
			}
			b = append(b, p.s[p.i:p.i+n]...)
			p.i += n
		}
	}
	return "", false
}

func (p *parser) hex() (rune, bool) {
	if len(p.s)-p.i < 4 {
		return 0, false
	}
	var r rune
	for k := 0; k < 4; k++ {
		c := p.s[p.i]
		p.i++
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 + rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 + rune(c-'a') + 10
		case c >= 'A' && c <= 'F':
			r = r<<4 + rune(c-'A') + 10
		default:
			return 0, false
		}
	}
	return r, true
}
