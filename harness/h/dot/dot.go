// Package dot reads graphs in the DOT language (undirected or directed,
// without subgraphs and HTML strings).
package dot

// Node is a declared node.
type Node struct {
	Name  string
	Attrs map[string]string
}

// Edge connects two nodes by name.
type Edge struct {
	From, To string
	Attrs    map[string]string
}

// Graph is a DOT graph.
type Graph struct {
	Nodes []Node
	Edges []Edge
}

type token struct {
	kind byte // 'i' identifier, 'q' quoted, 'e' edge operator, 0 end, or the character
	s    string
}

type parser struct {
	s   string
	p   int
	err string
	t   token
}

func idByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80 || c == '.'
}

func (p *parser) next() {
	for p.p < len(p.s) {
		c := p.s[p.p]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			p.p++
			continue
		}
		break
	}
	if p.p >= len(p.s) {
		p.t = token{}
		return
	}
	c := p.s[p.p]
	switch {
	case c == '"':
		b := []byte{}
		q := p.p + 1
		for ; q < len(p.s); q++ {
			c := p.s[q]
			if c == '"' {
				p.p = q + 1
				p.t = token{'q', string(b)}
				return
			}
			if c == '\\' && q+1 < len(p.s) {
				switch p.s[q+1] {
				case '"':
					b = append(b, '"')
					q++
					continue
				case '\\':
					b = append(b, '\\', '\\')
					q++
					continue
				case '\n':
					q++
					continue
				}
			}
			b = append(b, c)
		}
		p.fail("a string does not end")
	case idByte(c):
		q := p.p
		for q < len(p.s) && idByte(p.s[q]) {
			q++
		}
		p.t = token{'i', p.s[p.p:q]}
		p.p = q
	case c == '-' && p.p+1 < len(p.s) && (p.s[p.p+1] == '-' || p.s[p.p+1] == '>'):
		p.t = token{'e', p.s[p.p : p.p+2]}
		p.p += 2
	case c == '-':
		q := p.p + 1
		for q < len(p.s) && (p.s[q] >= '0' && p.s[q] <= '9' || p.s[q] == '.') {
			q++
		}
		if q == p.p+1 {
			p.fail("a stray minus sign")
			return
		}
		p.t = token{'i', p.s[p.p:q]}
		p.p = q
	case c == '{' || c == '}' || c == '[' || c == ']' || c == ';' || c == ',' || c == '=':
		p.t = token{c, ""}
		p.p++
	default:
		p.fail("a stray character")
	}
}

func (p *parser) fail(m string) {
	if p.err == "" {
		p.err = m
	}
	p.t = token{}
	p.p = len(p.s)
}

func (p *parser) is(k byte) bool { return p.t.kind == k }

func (p *parser) isID() bool { return p.t.kind == 'i' || p.t.kind == 'q' }

func (p *parser) want(k byte) {
	if !p.is(k) {
		p.fail("expected " + string(rune(k)))
	}
	p.next()
}

func (p *parser) id() string {
	if !p.isID() {
		p.fail("expected a name")
		return ""
	}
	s := p.t.s
	p.next()
	return s
}

func (p *parser) attrs() map[string]string {
	m := map[string]string{}
	for p.is('[') {
		p.next()
		for p.isID() {
			k := p.id()
			p.want('=')
			m[k] = p.id()
			if p.is(',') || p.is(';') {
				p.next()
			}
		}
		p.want(']')
	}
	return m
}

// Parse reads a graph; the string tells what is wrong with it, if anything.
func Parse(s string) (*Graph, string) {
	g := &Graph{}
	p := &parser{s: s}
	p.next()
	if p.is('i') && p.t.s == "strict" {
		p.next()
	}
	op := "--"
	if p.is('i') && p.t.s == "digraph" {
		op = "->"
	} else if !p.is('i') || p.t.s != "graph" {
		return g, "no graph"
	}
	p.next()
	if p.isID() {
		p.next()
	}
	p.want('{')
	for p.err == "" && !p.is('}') {
		if p.is(';') {
			p.next()
			continue
		}
		quoted := p.is('q')
		name := p.id()
		switch {
		case p.is('='):
			p.next()
			p.id()
		case !quoted && (name == "graph" || name == "node" || name == "edge"):
			if !p.is('[') {
				p.fail("attributes expected")
			}
			p.attrs()
		case p.is('e'):
			names := []string{name}
			for p.is('e') {
				if p.t.s != op {
					p.fail("an edge of the wrong kind")
				}
				p.next()
				names = append(names, p.id())
			}
			a := p.attrs()
			for i := 1; i < len(names); i++ {
				g.Edges = append(g.Edges, Edge{names[i-1], names[i], a})
			}
		default:
			g.Nodes = append(g.Nodes, Node{name, p.attrs()})
		}
	}
	p.want('}')
	if p.err == "" && p.t.kind != 0 {
		p.err = "text after the graph"
	}
	return g, p.err
}

// Text is the text a label shows.
func Text(label string) string {
	var b []byte
	for i := 0; i < len(label); i++ {
		c := label[i]
		if c == '\\' && i+1 < len(label) {
			i++
			c = label[i]
			switch c {
			case 'n', 'l', 'r':
				c = '\n'
			}
		}
		b = append(b, c)
	}
	return string(b)
}

// Index numbers the declared nodes; -1 is none.
func (g *Graph) Index(name string) int {
	for i, n := range g.Nodes {
		if n.Name == name {
			return i
		}
	}
	return -1
}
