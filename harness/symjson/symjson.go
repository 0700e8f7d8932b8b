// Package symjson is the part of encoding/json that the engine models, in
// plain Go, so that it can be executed symbolically. It is compared with
// encoding/json whenever a path is replayed natively.
package symjson

import (
	"errors"
	"io"
	"unicode/utf8"
)

const hex = "0123456789abcdef"

// AppendString appends s as encoding/json.Marshal writes it.
func AppendString(dst []byte, s string) []byte {
	dst = append(dst, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			if c >= 0x20 && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&' {
				dst = append(dst, c)
				i++
				continue
			}
			switch c {
			case '\\', '"':
				dst = append(dst, '\\', c)
			case '\b':
				dst = append(dst, '\\', 'b')
			case '\f':
				dst = append(dst, '\\', 'f')
			case '\n':
				dst = append(dst, '\\', 'n')
			case '\r':
				dst = append(dst, '\\', 'r')
			case '\t':
				dst = append(dst, '\\', 't')
			default:
				dst = append(dst, '\\', 'u', '0', '0', hex[c>>4], hex[c&0xF])
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			dst = append(dst, "\ufffd"...) // as Go 1.27 does
			i++
			continue
		}
		if r == '\u2028' || r == '\u2029' {
			dst = append(dst, '\\', 'u', '2', '0', '2', hex[r&0xF])
			i += n
			continue
		}
		dst = append(dst, s[i:i+n]...)
		i += n
	}
	return append(dst, '"')
}

// ReadAll reads r to its end.
func ReadAll(r io.Reader) ([]byte, error) {
	var b []byte
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

// Field is a member of the object parsed.
type Field struct {
	Name string
	Kind int // 0 string, 1 number, 2 bool, 3 null, 4 object, 5 array
	Str  string
}

// bad is the error for a character that is out of place.
func (p *parser) bad(at int, what string) {
	if p.err != nil {
		return
	}
	if at >= len(p.b) {
		p.err = errEnd
		return
	}
	c := p.b[at]
	var q []byte
	switch {
	case c == '\'' || c == '\\':
		q = []byte{'\\', c}
	case c == '\n':
		q = []byte(`\n`)
	case c == '\t':
		q = []byte(`\t`)
	case c == '\r':
		q = []byte(`\r`)
	case c >= 7 && c < 14:
		q = []byte{'\\', "abtnvfr"[c-7]}
	case c < ' ' || c >= 0x7F:
		if r, n := utf8.DecodeRune(p.b[at:]); r >= 0xA1 && n > 1 {
			q = p.b[at : at+n]
		} else {
			q = []byte{'\\', 'x', hex[c>>4], hex[c&0xF]}
		}
	default:
		q = []byte{c}
	}
	p.err = errors.New("invalid character '" + string(q) + "' " + what)
}

// Kinds are the names of the kinds of values.
var Kinds = []string{"string", "number", "bool", "null", "object", "array"}
var errDepth = errors.New("exceeded max depth")
var errEnd = errors.New("unexpected EOF")

type parser struct {
	b   []byte
	i   int
	err error
}

func (p *parser) fail(e error) {
	if p.err == nil {
		p.err = e
	}
}

func (p *parser) ws() {
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c != ' ' && c != '\t' && c != '\r' && c != '\n' {
			return
		}
		p.i++
	}
}

func (p *parser) peek() byte {
	if p.i < len(p.b) {
		return p.b[p.i]
	}
	return 0
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *parser) hex4() rune {
	if p.i+4 > len(p.b) {
		return -1
	}
	r := 0
	for k := 0; k < 4; k++ {
		h := hexVal(p.b[p.i+k])
		if h < 0 {
			return -1
		}
		r = r<<4 | h
	}
	return rune(r)
}

// str parses a string literal, the opening quote being next.
func (p *parser) str() string {
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			p.fail(errEnd)
			return ""
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out)
		case c < 0x20:
			p.bad(p.i, "in string")
			return ""
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				p.fail(errEnd)
				return ""
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := p.hex4()
				if r < 0 {
					k := p.i
					for k < len(p.b) && hexVal(p.b[k]) >= 0 {
						k++
					}
					p.bad(k, `in \u hexadecimal character escape`)
					return ""
				}
				p.i += 4
				if r >= 0xD800 && r < 0xE000 {
					r2 := rune(-1)
					if r < 0xDC00 && p.i+1 < len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						p.i += 2
						r2 = p.hex4()
						p.i -= 2
					}
					if r2 >= 0xDC00 && r2 < 0xE000 {
						p.i += 6
						r = (r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000
					} else {
						r = utf8.RuneError
					}
				}
				out = utf8.AppendRune(out, r)
			default:
				p.bad(p.i-1, "in string escape code")
				return ""
			}
		case c < utf8.RuneSelf:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n == 1 {
				out = append(out, "\uFFFD"...)
			} else {
				out = append(out, p.b[p.i:p.i+n]...)
			}
			p.i += n
		}
	}
}

func (p *parser) digits() {
	if c := p.peek(); c < '0' || c > '9' {
		p.bad(p.i, "in numeric literal")
		return
	}
	for c := p.peek(); c >= '0' && c <= '9'; c = p.peek() {
		p.i++
	}
}

func (p *parser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if p.i+k >= len(p.b) || p.b[p.i+k] != s[k] {
			p.bad(p.i+k, "in literal "+s+" (expecting '"+s[k:k+1]+"')")
			return
		}
	}
	p.i += len(s)
}

// value parses a value; fields receives the members when it is an object.
func (p *parser) value(depth int, fields *[]Field) (kind int, s string) {
	p.ws()
	if depth > 20 {
		p.fail(errDepth)
	}
	if p.err != nil {
		return
	}
	if p.i >= len(p.b) {
		p.fail(errEnd)
		return
	}
	switch c := p.peek(); {
	case c == '"':
		return 0, p.str()
	case c == 't':
		p.lit("true")
		return 2, ""
	case c == 'f':
		p.lit("false")
		return 2, ""
	case c == 'n':
		p.lit("null")
		return 3, ""
	case c == '-' || c >= '0' && c <= '9':
		if c == '-' {
			p.i++
		}
		if p.peek() == '0' {
			p.i++
		} else {
			p.digits()
		}
		if p.peek() == '.' {
			p.i++
			p.digits()
		}
		if c := p.peek(); c == 'e' || c == 'E' {
			p.i++
			if c := p.peek(); c == '+' || c == '-' {
				p.i++
			}
			p.digits()
		}
		return 1, ""
	case c == '[':
		p.i++
		p.ws()
		if p.peek() == ']' {
			p.i++
			return 5, ""
		}
		for {
			p.value(depth+1, nil)
			p.ws()
			if p.err != nil {
				return
			}
			if p.i >= len(p.b) {
				p.fail(errEnd)
				return
			}
			c := p.b[p.i]
			p.i++
			if c == ']' {
				return 5, ""
			}
			if c != ',' {
				p.bad(p.i-1, "after array element")
				return
			}
		}
	case c == '{':
		p.i++
		p.ws()
		if p.peek() == '}' {
			p.i++
			return 4, ""
		}
		for {
			p.ws()
			if p.i >= len(p.b) {
				p.fail(errEnd)
				return
			}
			if p.peek() != '"' {
				p.bad(p.i, "looking for beginning of object key string")
				return
			}
			name := p.str()
			p.ws()
			if p.err != nil {
				return
			}
			if p.i >= len(p.b) {
				p.fail(errEnd)
				return
			}
			if p.b[p.i] != ':' {
				p.bad(p.i, "after object key")
				return
			}
			p.i++
			k, v := p.value(depth+1, nil)
			if p.err != nil {
				return
			}
			if fields != nil {
				*fields = append(*fields, Field{name, k, v})
			}
			p.ws()
			if p.i >= len(p.b) {
				p.fail(errEnd)
				return
			}
			c := p.b[p.i]
			p.i++
			if c == '}' {
				return 4, ""
			}
			if c != ',' {
				p.bad(p.i-1, "after object key:value pair")
				return
			}
		}
	}
	p.bad(p.i, "looking for beginning of value")
	return
}

// Parse parses an object; with stream, what follows the first value is left
// alone, as by a Decoder.
func Parse(data []byte, stream bool) ([]Field, error) {
	p := &parser{b: data}
	p.ws()
	if stream && p.i >= len(p.b) {
		return nil, io.EOF
	}
	var fs []Field
	k, _ := p.value(0, &fs)
	if p.err != nil {
		return nil, p.err
	}
	if !stream {
		p.ws()
		if p.i < len(p.b) {
			p.bad(p.i, "after top-level value")
			return nil, p.err
		}
	}
	if k == 3 {
		return nil, nil
	}
	if k != 4 {
		return nil, errors.New("json: cannot unmarshal " + Kinds[k] + " into Go value")
	}
	return fs, nil
}

// Valid reports whether data is one JSON value.
func Valid(data []byte) bool {
	p := &parser{b: data}
	p.value(0, nil)
	p.ws()
	return p.err == nil && p.i == len(p.b)
}

// Escape replaces the characters html/template replaces in texts and in
// quoted attributes (table 0), and in the text of contents that are already
// HTML (table 1).
func Escape(s string, table int) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case 0:
			b = append(b, "\uFFFD"...)
		case '"':
			b = append(b, "&#34;"...)
		case '&':
			if table == 0 {
				b = append(b, "&amp;"...)
			} else {
				b = append(b, c)
			}
		case '\'':
			b = append(b, "&#39;"...)
		case '+':
			b = append(b, "&#43;"...)
		case '<':
			b = append(b, "&lt;"...)
		case '>':
			b = append(b, "&gt;"...)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}
