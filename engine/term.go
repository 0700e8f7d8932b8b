package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed terms over booleans (width 0) and bit-vectors (width 1..64).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpSlt
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpTrunc
	OpTable // value of a constant table at index a
	OpSet   // byte variable a lies in a constant set
)

var opSMT = [...]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr"}

type Term struct {
	op       Op
	w        uint8 // 0: Bool
	id       int32
	a, b, c  *Term
	val      uint64 // constant, variable number or table id
	vars     []int32
	lo, hi   uint64 // unsigned range
	emitted  int32  // solver epoch in which the term was defined
	dom      *[4]uint64
	evGen    int64
	evVal    uint64
	cs       []tcase // possible values, if they are few
	csDone   bool
	bv       *Term        // the only variable of the term, if that is a byte
	vec      *[256]uint64 // values of the term by that variable
	ilo, ihi int64
	liaEpoch int32
	liaBV    int32
	wide     bool // depends on a variable that is not a byte
	lia      uint8
	h        hash2 // structural hash, variables numbered from the least one
}

// hash2 identifies a term up to a shift of its variables, in every table.
type hash2 struct{ a, b uint64 }

func mix64(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

func (h hash2) with(x uint64) hash2 {
	return hash2{mix64(h.a, x+0x1234567), mix64(h.b^0x94D049BB133111EB, x*0x2545F4914F6CDD1D+0x7654321)}
}

func (tt *TermTab) hashOf(t *Term) hash2 {
	h := hash2{1, 2}.with(uint64(t.op)<<8 | uint64(t.w))
	switch t.op {
	case OpVar:
	case OpTable:
		x := tt.tables[t.val].h
		h = h.with(x.a).with(x.b)
	case OpSet:
		for _, x := range t.dom {
			h = h.with(x)
		}
	default:
		h = h.with(t.val)
	}
	for _, c := range []*Term{t.a, t.b, t.c} {
		if c == nil {
			h = h.with(0x55)
			continue
		}
		d := uint64(0)
		if len(c.vars) > 0 {
			d = uint64(c.vars[0]-t.vars[0]) + 1
		}
		h = h.with(d).with(c.h.a).with(c.h.b)
	}
	return h
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

type table struct {
	vals []uint64
	runs []tableRun
	h    hash2
}

type tableRun struct{ lo, hi, v uint64 }

type TermTab struct {
	m      map[termKey]*Term
	memo   map[termKey]*Term // results of the constructors
	next   int32
	tables []*table
	tabKey map[string]int
	sets   [][4]uint64
	setID  map[[4]uint64]uint64
	True   *Term
	False  *Term
	gen    int64 // evaluation generation
}

func newTermTab() *TermTab {
	tt := &TermTab{m: map[termKey]*Term{}, memo: map[termKey]*Term{}, tabKey: map[string]int{}, setID: map[[4]uint64]uint64{}, sets: make([][4]uint64, 0, 16), gen: 1}
	tt.False = tt.mk(OpConst, 0, nil, nil, nil, 0)
	tt.True = tt.mk(OpConst, 0, nil, nil, nil, 1)
	return tt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: tt.next}
	tt.next++
	t.vars = mergeVars(a, b, c)
	if op == OpVar {
		t.vars = []int32{int32(val & 0xffffff)}
	}
	t.wide = op == OpVar && w > 8 || a != nil && a.wide || b != nil && b.wide || c != nil && c.wide
	if op == OpVar && w == 8 {
		t.bv = t
	} else {
		t.bv = commonByte(a, b, c)
	}
	if op == OpSet {
		t.dom = &tt.sets[val]
	}
	if t.bv != nil && w > 0 && op != OpVar && op != OpZext && !(op == OpTable && a.op == OpVar) {
		if r := tt.byteTable(t); r != nil {
			tt.m[k] = r
			return r
		}
	}
	tt.setRange(t)
	t.h = tt.hashOf(t)
	tt.m[k] = t
	return t
}

// commonByte is the byte variable that all the terms depend on and nothing else.
func commonByte(ts ...*Term) *Term {
	var v *Term
	for _, t := range ts {
		if t == nil || len(t.vars) == 0 {
			continue
		}
		if t.bv == nil || v != nil && v != t.bv {
			return nil
		}
		v = t.bv
	}
	return v
}

// values are the values of a term by its byte variable.
func (tt *TermTab) values(t *Term) *[256]uint64 {
	if t.vec != nil {
		return t.vec
	}
	v := new([256]uint64)
	switch {
	case len(t.vars) == 0:
		for i := range v {
			v[i] = t.val
		}
	case t.op == OpVar:
		for i := range v {
			v[i] = uint64(i)
		}
	case t.op == OpSet:
		for i := range v {
			v[i] = t.dom[i>>6] >> (i & 63) & 1
		}
	default:
		var x, y, z *[256]uint64
		var zero [256]uint64
		x, y, z = &zero, &zero, &zero
		if t.a != nil {
			x = tt.values(t.a)
		}
		if t.b != nil {
			y = tt.values(t.b)
		}
		if t.c != nil {
			z = tt.values(t.c)
		}
		for i := range v {
			v[i] = tt.apply(t, x[i], y[i], z[i])
		}
	}
	if t.op != OpConst {
		t.vec = v
	}
	return v
}

// byteTable turns a term on a single byte with few values into a table.
func (tt *TermTab) byteTable(t *Term) *Term {
	x := tt.values(t)
	var seen [maxCases]uint64
	n := 0
next:
	for _, v := range x {
		for _, s := range seen[:n] {
			if s == v {
				continue next
			}
		}
		if n == maxCases {
			return nil
		}
		seen[n] = v
		n++
	}
	return tt.Table(x[:], t.bv, t.w)
}

const maxCases = 16

// tcase is a value a term has under a condition; the conditions of the
// cases of a term exclude each other and one of them holds.
type tcase struct {
	g *Term
	v uint64
}

// cases are the values of a term, or nil if they are many.
func (tt *TermTab) cases(t *Term) []tcase {
	if t.csDone {
		return t.cs
	}
	t.csDone = true
	var r []tcase
	add := func(g *Term, v uint64) bool {
		if g == tt.False {
			return true
		}
		for i := range r {
			if r[i].v == v {
				r[i].g = tt.Or(r[i].g, g)
				return true
			}
		}
		r = append(r, tcase{g, v})
		return len(r) <= maxCases
	}
	switch {
	case t.w == 0:
		return nil
	case t.op == OpConst:
		r = []tcase{{tt.True, t.val}}
	case t.bv != nil:
		x := tt.values(t)
		var vs []uint64
		var ds [][4]uint64
	next:
		for i, v := range x {
			for k := range vs {
				if vs[k] == v {
					ds[k][i>>6] |= 1 << (i & 63)
					continue next
				}
			}
			if len(vs) == maxCases {
				return nil
			}
			vs = append(vs, v)
			var d [4]uint64
			d[i>>6] |= 1 << (i & 63)
			ds = append(ds, d)
		}
		for k := range vs {
			r = append(r, tcase{tt.set(t.bv, ds[k]), vs[k]})
		}
	case t.op == OpIte:
		x, y := tt.cases(t.b), tt.cases(t.c)
		if x == nil || y == nil {
			return nil
		}
		n := tt.Not(t.a)
		for _, c := range x {
			if !add(tt.And(t.a, c.g), c.v) {
				return nil
			}
		}
		for _, c := range y {
			if !add(tt.And(n, c.g), c.v) {
				return nil
			}
		}
	case t.op == OpVar:
		return nil
	default:
		x := tt.cases(t.a)
		if x == nil {
			return nil
		}
		y := []tcase{{tt.True, 0}}
		if t.b != nil {
			if y = tt.cases(t.b); y == nil {
				return nil
			}
		}
		if len(x)*len(y) > 4*maxCases {
			return nil
		}
		for _, c := range x {
			for _, d := range y {
				if !add(tt.And(c.g, d.g), tt.apply(t, c.v, d.v, 0)) {
					return nil
				}
			}
		}
	}
	t.cs = r
	return r
}

func (tt *TermTab) fromCases(cs []tcase, w uint8, f func(uint64) uint64) *Term {
	r := tt.Const(f(cs[len(cs)-1].v), w)
	for i := len(cs) - 2; i >= 0; i-- {
		r = tt.Ite(cs[i].g, tt.Const(f(cs[i].v), w), r)
	}
	return r
}

// split decides a comparison by the values of one side.
func (tt *TermTab) split(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.bv == nil || b.bv == nil || a.bv == b.bv {
		return nil
	}
	x, y := tt.cases(a), tt.cases(b)
	if x == nil && y == nil {
		return nil
	}
	r := tt.False
	if y == nil || x != nil && len(x) < len(y) {
		for _, c := range x {
			r = tt.Or(r, tt.And(c.g, f(tt.Const(c.v, a.w), b)))
		}
		return r
	}
	for _, c := range y {
		r = tt.Or(r, tt.And(c.g, f(a, tt.Const(c.v, b.w))))
	}
	return r
}

// set is the condition that byte variable v lies in d.
func (tt *TermTab) set(v *Term, d [4]uint64) *Term {
	if d == [4]uint64{} {
		return tt.False
	}
	if d == [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} {
		return tt.True
	}
	id, ok := tt.setID[d]
	if !ok {
		id = uint64(len(tt.sets))
		tt.sets = append(tt.sets, d)
		tt.setID[d] = id
	}
	return tt.mk(OpSet, 0, v, nil, nil, id)
}

// byteCond reduces a condition on a single byte to a set.
func (tt *TermTab) byteCond(op Op, a, b, c *Term) *Term {
	v := commonByte(a, b, c)
	if v == nil {
		return nil
	}
	key := termKey{op, 99, tid(a), tid(b), tid(c), 0}
	if r, ok := tt.memo[key]; ok {
		return r
	}
	r := tt.byteCond0(v, op, a, b, c)
	tt.memo[key] = r
	return r
}

func (tt *TermTab) byteCond0(v *Term, op Op, a, b, c *Term) *Term {
	t := &Term{op: op, a: a, b: b, c: c, vars: v.vars}
	x := tt.values(t)
	var d [4]uint64
	for i, k := range x {
		if k != 0 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	return tt.set(v, d)
}

func mergeVars(ts ...*Term) []int32 {
	var r []int32
	for _, t := range ts {
		if t == nil || len(t.vars) == 0 {
			continue
		}
		if r == nil {
			r = t.vars
			continue
		}
		if subset(t.vars, r) {
			continue
		}
		if subset(r, t.vars) {
			r = t.vars
			continue
		}
		m := make([]int32, 0, len(r)+len(t.vars))
		i, j := 0, 0
		for i < len(r) || j < len(t.vars) {
			switch {
			case j == len(t.vars) || i < len(r) && r[i] < t.vars[j]:
				m = append(m, r[i])
				i++
			case i == len(r) || t.vars[j] < r[i]:
				m = append(m, t.vars[j])
				j++
			default:
				m = append(m, r[i])
				i++
				j++
			}
		}
		r = m
	}
	return r
}

func subset(a, b []int32) bool {
	if len(a) > len(b) {
		return false
	}
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j == len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func (tt *TermTab) setRange(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.val, t.val
	case OpZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OpIte:
		if t.w > 0 {
			t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
		}
	case OpBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OpBOr:
		h := t.a.hi | t.b.hi
		t.lo = max(t.a.lo, t.b.lo)
		t.hi = min(m, 1<<uint(bits.Len64(h))-1)
		if bits.Len64(h) == 64 {
			t.hi = m
		}
	case OpBXor:
		h := t.a.hi | t.b.hi
		if l := bits.Len64(h); l < 64 {
			t.hi = min(m, 1<<uint(l)-1)
		}
	case OpAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		}
	case OpSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OpMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OpShl:
		if t.b.op == OpConst && t.b.val < 64 {
			if t.a.hi<<t.b.val>>t.b.val == t.a.hi && t.a.hi<<t.b.val <= m {
				t.lo, t.hi = t.a.lo<<t.b.val, t.a.hi<<t.b.val
			}
		}
	case OpLshr:
		if t.b.op == OpConst && t.b.val < 64 {
			t.lo, t.hi = t.a.lo>>t.b.val, t.a.hi>>t.b.val
		} else {
			t.hi = t.a.hi
		}
	case OpTrunc:
		if t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OpURem:
		if t.b.op == OpConst && t.b.val > 0 {
			t.hi = t.b.val - 1
		}
	case OpUDiv:
		if t.b.op == OpConst && t.b.val > 0 {
			t.lo, t.hi = t.a.lo/t.b.val, t.a.hi/t.b.val
		}
	case OpTable:
		tb := tt.tables[t.val]
		t.lo, t.hi = m, 0
		for _, r := range tb.runs {
			t.lo, t.hi = min(t.lo, r.v), max(t.hi, r.v)
		}
	}
}

func (tt *TermTab) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v&1 != 0 {
			return tt.True
		}
		return tt.False
	}
	return tt.mk(OpConst, w, nil, nil, nil, v&mask(w))
}

func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

// Var is variable number n of the path, of width w.
func (tt *TermTab) Var(n int, w uint8) *Term {
	return tt.mk(OpVar, w, nil, nil, nil, uint64(n)|uint64(w)<<24)
}

func varNo(t *Term) int { return int(t.val & 0xffffff) }

func (tt *TermTab) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.Bool(a.val == 0)
	case OpNot:
		return a.a
	case OpSet:
		d := *a.dom
		for i := range d {
			d[i] = ^d[i]
		}
		return tt.set(a.a, d)
	}
	return tt.mk(OpNot, 0, a, nil, nil, 0)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a == tt.False || b == tt.False {
		return tt.False
	}
	if a == tt.True || a == b {
		return b
	}
	if b == tt.True {
		return a
	}
	if a.op == OpSet && b.op == OpSet && a.a == b.a {
		d := *a.dom
		for i := range d {
			d[i] &= b.dom[i]
		}
		return tt.set(a.a, d)
	}
	if tt.Not(a) == b {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpAnd, 0, a, b, nil, 0)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	if a == tt.True || b == tt.True {
		return tt.True
	}
	if a == tt.False || a == b {
		return b
	}
	if b == tt.False {
		return a
	}
	if a.op == OpSet && b.op == OpSet && a.a == b.a {
		d := *a.dom
		for i := range d {
			d[i] |= b.dom[i]
		}
		return tt.set(a.a, d)
	}
	if tt.Not(a) == b {
		return tt.True
	}
	// (x and y) or (x and not y)
	if a.op == OpAnd && b.op == OpAnd {
		if a.a == b.a && tt.Not(a.b) == b.b {
			return a.a
		}
		if a.b == b.b && tt.Not(a.a) == b.a {
			return a.b
		}
		if a.a == b.b && tt.Not(a.b) == b.a {
			return a.a
		}
		if a.b == b.a && tt.Not(a.a) == b.b {
			return a.b
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpOr, 0, a, b, nil, 0)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c == tt.True || a == b {
		return a
	}
	if c == tt.False {
		return b
	}
	if a.w == 0 {
		if r := tt.byteCond(OpIte, c, a, b); r != nil {
			return r
		}
	}
	if c.op == OpNot {
		c, a, b = c.a, b, a
	}
	if a.w == 0 {
		switch {
		case a == tt.True:
			return tt.Or(c, b)
		case a == tt.False:
			return tt.And(tt.Not(c), b)
		case b == tt.True:
			return tt.Or(tt.Not(c), a)
		case b == tt.False:
			return tt.And(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if b.op == OpIte && b.b == a && a.w > 0 {
		return tt.Ite(tt.Or(c, b.a), a, b.c)
	}
	return tt.mk(OpIte, a.w, c, a, b, 0)
}

func hasConstLeaf(t *Term) bool {
	return t.op == OpIte && (t.b.op == OpConst || t.c.op == OpConst || hasConstLeaf(t.b) || hasConstLeaf(t.c))
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.Eq0(a, b)
	}
	k := termKey{OpEq, 0, a.id, b.id, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Eq0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) Eq0(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.False
	}
	if r := tt.byteCond(OpEq, a, b, nil); r != nil {
		return r
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b == tt.True {
			return a
		}
		if b == tt.False {
			return tt.Not(a)
		}
		if tt.Not(a) == b {
			return tt.False
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return tt.False
		}
		if b.op == OpConst {
			k := b.val
			switch a.op {
			case OpZext:
				return tt.Eq(a.a, tt.Const(k, a.a.w))
			case OpSext:
				t := tt.Const(k, a.a.w)
				if uint64(sext(t.val, t.w))&mask(a.w) != k {
					return tt.False
				}
				return tt.Eq(a.a, t)
			case OpAdd:
				if a.b.op == OpConst {
					return tt.Eq(a.a, tt.Const(k-a.b.val, a.w))
				}
			case OpBXor:
				if a.b.op == OpConst {
					return tt.Eq(a.a, tt.Const(k^a.b.val, a.w))
				}
			case OpSub:
				if a.a.op == OpConst {
					return tt.Eq(a.b, tt.Const(a.a.val-k, a.w))
				}
			case OpIte:
				if hasConstLeaf(a) {
					return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
				}
			case OpTable:
				return tt.tableCond(a, func(v uint64) bool { return v == k })
			case OpBOr:
				// disjoint concatenation: (x<<n) | y with y < 1<<n
				if r := tt.eqConcat(a, k); r != nil {
					return r
				}
			case OpShl:
				if a.b.op == OpConst && a.b.val < uint64(a.w) {
					s := a.b.val
					if k&(1<<s-1) != 0 {
						return tt.False
					}
					if a.a.hi<<s>>s == a.a.hi && a.a.hi<<s <= mask(a.w) {
						return tt.Eq(a.a, tt.Const(k>>s, a.w))
					}
				}
			}
		} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		} else if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		} else if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
			return tt.Eq(a.a, b.a)
		}
	}
	if a.w > 0 {
		if r := tt.split(a, b, tt.Eq); r != nil {
			return r
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, a, b, nil, 0)
}

func (tt *TermTab) eqConcat(a *Term, k uint64) *Term {
	x, y := a.a, a.b
	for i := 0; i < 2; i++ {
		if x.op == OpShl && x.b.op == OpConst && x.b.val < 64 {
			s := x.b.val
			if y.hi < 1<<s && x.a.hi <= mask(a.w)>>s {
				return tt.And(tt.Eq(x.a, tt.Const(k>>s, a.w)), tt.Eq(y, tt.Const(k&(1<<s-1), a.w)))
			}
		}
		x, y = y, x
	}
	return nil
}

// trailing zero bits every value of t has
func tzMin(t *Term) uint64 {
	switch t.op {
	case OpConst:
		if t.val == 0 {
			return 64
		}
		return uint64(bits.TrailingZeros64(t.val))
	case OpShl:
		if t.b.op == OpConst {
			return t.b.val
		}
	case OpBOr, OpAdd:
		return min(tzMin(t.a), tzMin(t.b))
	}
	return 0
}

// tableCond is the set of indexes of table term t whose value satisfies f.
func (tt *TermTab) tableCond(t *Term, f func(uint64) bool) *Term {
	tb := tt.tables[t.val]
	r := tt.False
	n := uint64(len(tb.vals))
	// merge adjacent runs with the same verdict
	type rg struct{ lo, hi uint64 }
	var yes, no []rg
	for _, run := range tb.runs {
		l := &no
		if f(run.v) {
			l = &yes
		}
		if len(*l) > 0 && (*l)[len(*l)-1].hi+1 == run.lo {
			(*l)[len(*l)-1].hi = run.hi
		} else {
			*l = append(*l, rg{run.lo, run.hi})
		}
	}
	neg := len(no) < len(yes)
	l := yes
	if neg {
		l = no
	}
	for _, g := range l {
		var c *Term
		if g.lo == g.hi {
			c = tt.Eq(t.a, tt.Const(g.lo, t.a.w))
		} else {
			c = tt.True
			if g.lo > 0 {
				c = tt.Not(tt.Ult(t.a, tt.Const(g.lo, t.a.w)))
			}
			if g.hi+1 < n {
				c = tt.And(c, tt.Ult(t.a, tt.Const(g.hi+1, t.a.w)))
			}
		}
		r = tt.Or(r, c)
	}
	if neg {
		r = tt.Not(r)
	}
	return r
}

// Table is vals[idx] with element width w; idx is known to be in range.
func (tt *TermTab) Table(vals []uint64, idx *Term, w uint8) *Term {
	if idx.op == OpConst {
		return tt.Const(vals[idx.val], w)
	}
	if idx.op == OpTable {
		src := tt.tables[idx.val].vals
		nv := make([]uint64, len(src))
		ok := true
		for i, v := range src {
			if v >= uint64(len(vals)) {
				ok = false
				break
			}
			nv[i] = vals[v]
		}
		if ok {
			return tt.Table(nv, idx.a, w)
		}
	}
	if idx.op != OpVar {
		if cs := tt.cases(idx); cs != nil {
			ok := true
			for _, c := range cs {
				ok = ok && c.v < uint64(len(vals))
			}
			if ok && w > 0 && idx.bv == nil {
				return tt.fromCases(cs, w, func(v uint64) uint64 { return vals[v] })
			}
		}
	}
	same := true
	for _, v := range vals[1:] {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same {
		return tt.Const(vals[0], w)
	}
	if w == 0 {
		id := tt.internTable(vals)
		return tt.tableCond(&Term{op: OpTable, a: idx, val: uint64(id)}, func(v uint64) bool { return v != 0 })
	}
	id := tt.internTable(vals)
	return tt.mk(OpTable, w, idx, nil, nil, uint64(id))
}

func (tt *TermTab) internTable(vals []uint64) int {
	var sb strings.Builder
	tb := &table{vals: vals}
	for i, v := range vals {
		if n := len(tb.runs); n > 0 && tb.runs[n-1].v == v {
			tb.runs[n-1].hi = uint64(i)
		} else {
			tb.runs = append(tb.runs, tableRun{uint64(i), uint64(i), v})
		}
	}
	tb.h = hash2{3, 4}.with(uint64(len(vals)))
	for _, r := range tb.runs {
		fmt.Fprintf(&sb, "%d:%d,", r.hi, r.v)
		tb.h = tb.h.with(r.hi).with(r.v)
	}
	k := sb.String()
	if id, ok := tt.tabKey[k]; ok {
		return id
	}
	tt.tables = append(tt.tables, tb)
	tt.tabKey[k] = len(tt.tables) - 1
	return len(tt.tables) - 1
}

func (tt *TermTab) mapTable(t *Term, w uint8, f func(uint64) uint64) *Term {
	src := tt.tables[t.val].vals
	nv := make([]uint64, len(src))
	for i, v := range src {
		nv[i] = f(v) & mask(w)
	}
	return tt.Table(nv, t.a, w)
}

func (tt *TermTab) Ult(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.Ult0(a, b)
	}
	k := termKey{OpUlt, 0, a.id, b.id, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Ult0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) Ult0(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.hi < b.lo {
		return tt.True
	}
	if a.lo >= b.hi {
		return tt.False
	}
	if r := tt.byteCond(OpUlt, a, b, nil); r != nil {
		return r
	}
	if b.op == OpConst {
		k := b.val
		if k == 1 {
			return tt.Eq(a, tt.Const(0, a.w))
		}
		switch a.op {
		case OpZext:
			return tt.Ult(a.a, tt.Const(k, a.a.w)) // k <= a.hi here
		case OpIte:
			if hasConstLeaf(a) {
				return tt.Ite(a.a, tt.Ult(a.b, b), tt.Ult(a.c, b))
			}
		case OpTable:
			return tt.tableCond(a, func(v uint64) bool { return v < k })
		case OpAdd:
			if a.b.op == OpConst && a.a.hi+a.b.val <= mask(a.w) && a.a.hi+a.b.val >= a.b.val && k >= a.b.val {
				return tt.Ult(a.a, tt.Const(k-a.b.val, a.w))
			}
		}
	}
	if a.op == OpConst {
		k := a.val
		switch b.op {
		case OpZext:
			return tt.Ult(tt.Const(k, b.a.w), b.a)
		case OpIte:
			if hasConstLeaf(b) {
				return tt.Ite(b.a, tt.Ult(a, b.b), tt.Ult(a, b.c))
			}
		case OpTable:
			return tt.tableCond(b, func(v uint64) bool { return k < v })
		case OpAdd:
			if b.b.op == OpConst && b.a.hi+b.b.val <= mask(b.w) && b.a.hi+b.b.val >= b.b.val && k >= b.b.val {
				return tt.Ult(tt.Const(k-b.b.val, b.w), b.a)
			}
		}
		if k+1 < mask(b.w) {
			return tt.Not(tt.Ult(b, tt.Const(k+1, b.w)))
		}
		if k+1 == mask(b.w) {
			return tt.Eq(b, tt.Const(k+1, b.w))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return tt.Ult(a.a, b.a)
	}
	if r := tt.split(a, b, tt.Ult); r != nil {
		return r
	}
	return tt.mk(OpUlt, 0, a, b, nil, 0)
}

func (tt *TermTab) Slt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.Slt0(a, b)
	}
	k := termKey{OpSlt, 0, a.id, b.id, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Slt0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) Slt0(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if r := tt.byteCond(OpSlt, a, b, nil); r != nil {
		return r
	}
	half := mask(a.w) >> 1
	if a.hi <= half && b.hi <= half {
		return tt.Ult(a, b)
	}
	if a.hi <= half && b.lo > half {
		return tt.False
	}
	if b.hi <= half && a.lo > half {
		return tt.True
	}
	if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
		return tt.Slt(a.a, b.a)
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			if hasConstLeaf(a) {
				return tt.Ite(a.a, tt.Slt(a.b, b), tt.Slt(a.c, b))
			}
		case OpTable:
			return tt.tableCond(a, func(v uint64) bool { return sext(v, a.w) < sext(b.val, a.w) })
		}
	}
	if a.op == OpConst {
		switch b.op {
		case OpIte:
			if hasConstLeaf(b) {
				return tt.Ite(b.a, tt.Slt(a, b.b), tt.Slt(a, b.c))
			}
		case OpTable:
			return tt.tableCond(b, func(v uint64) bool { return sext(a.val, b.w) < sext(v, b.w) })
		}
	}
	if r := tt.split(a, b, tt.Slt); r != nil {
		return r
	}
	return tt.mk(OpSlt, 0, a, b, nil, 0)
}

// evalOp computes op on concrete operands of width w.
func evalOp(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalOp")
}

// Bin builds a width-preserving arithmetic or bitwise term.
func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.Const(evalOp(op, a.w, a.val, b.val), a.w)
	}
	k := termKey{op, a.w, a.id, b.id, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.bin0(op, a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) bin0(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return tt.Const(evalOp(op, w, a.val, b.val), w)
	}
	comm := op == OpAdd || op == OpMul || op == OpBAnd || op == OpBOr || op == OpBXor
	if comm && a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		k := b.val
		switch op {
		case OpSub:
			return tt.Bin(OpAdd, a, tt.Const(-k, w))
		case OpAdd, OpBXor, OpShl, OpLshr, OpAshr, OpBOr:
			if k == 0 {
				return a
			}
			if op == OpBOr && k == mask(w) {
				return b
			}
		case OpMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OpBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			// mask that keeps every possible bit
			if l := bits.Len64(a.hi); l < 64 && k&(1<<uint(l)-1) == 1<<uint(l)-1 {
				return a
			}
			if a.op == OpZext {
				return tt.Zext(tt.Bin(OpBAnd, a.a, tt.Const(k, a.a.w)), w)
			}
			if a.op == OpBAnd && a.b.op == OpConst {
				return tt.Bin(OpBAnd, a.a, tt.Const(a.b.val&k, w))
			}
		case OpUDiv:
			if k == 1 {
				return a
			}
		}
		if op == OpAdd && a.op == OpAdd && a.b.op == OpConst {
			return tt.Bin(OpAdd, a.a, tt.Const(a.b.val+k, w))
		}
		if op == OpAdd && a.op == OpSub && a.a.op == OpConst {
			return tt.Bin(OpSub, tt.Const(a.a.val+k, w), a.b)
		}
		if (op == OpShl || op == OpLshr) && k >= uint64(w) {
			return tt.Const(0, w)
		}
		if op == OpLshr && a.hi>>k == 0 {
			return tt.Const(0, w)
		}
		if a.op == OpTable {
			return tt.mapTable(a, w, func(v uint64) uint64 { return evalOp(op, w, v, k) })
		}
		if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
			return tt.Ite(a.a, tt.Bin(op, a.b, b), tt.Bin(op, a.c, b))
		}
	} else if a.op == OpConst {
		k := a.val
		if b.op == OpTable {
			return tt.mapTable(b, w, func(v uint64) uint64 { return evalOp(op, w, k, v) })
		}
		if k == 0 && (op == OpShl || op == OpLshr || op == OpAshr) {
			return a
		}
		if b.op == OpIte && b.b.op == OpConst && b.c.op == OpConst {
			return tt.Ite(b.a, tt.Bin(op, a, b.b), tt.Bin(op, a, b.c))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return tt.Const(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if op == OpSub && a.op == OpAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if op == OpAdd {
		// move constants outward
		if a.op == OpAdd && a.b.op == OpConst {
			return tt.Bin(OpAdd, tt.Bin(OpAdd, a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.op == OpConst {
			return tt.Bin(OpAdd, tt.Bin(OpAdd, a, b.a), b.b)
		}
	}
	if comm && b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, w, a, b, nil, 0)
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	k := termKey{OpZext, w, a.id, -2, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.zext0(a, w)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) zext0(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return tt.Const(a.val, w)
	case OpZext:
		return tt.Zext(a.a, w)
	case OpTable:
		return tt.mapTable(a, w, func(v uint64) uint64 { return v })
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return tt.Ite(a.a, tt.Zext(a.b, w), tt.Zext(a.c, w))
		}
	}
	return tt.mk(OpZext, w, a, nil, nil, 0)
}

func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	k := termKey{OpSext, w, a.id, -2, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.sext0(a, w)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) sext0(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.hi <= mask(a.w)>>1 {
		return tt.Zext(a, w)
	}
	switch a.op {
	case OpConst:
		return tt.Const(uint64(sext(a.val, a.w)), w)
	case OpSext:
		return tt.Sext(a.a, w)
	case OpTable:
		return tt.mapTable(a, w, func(v uint64) uint64 { return uint64(sext(v, a.w)) })
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return tt.Ite(a.a, tt.Sext(a.b, w), tt.Sext(a.c, w))
		}
	}
	return tt.mk(OpSext, w, a, nil, nil, 0)
}

func (tt *TermTab) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	k := termKey{OpTrunc, w, a.id, -2, -2, 0}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.trunc0(a, w)
	tt.memo[k] = r
	return r
}

func (tt *TermTab) trunc0(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return tt.Const(a.val, w)
	case OpZext, OpSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return tt.Zext(a.a, w)
		}
		return tt.Sext(a.a, w)
	case OpTrunc:
		return tt.Trunc(a.a, w)
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		return tt.Bin(a.op, tt.Trunc(a.a, w), tt.Trunc(a.b, w))
	case OpTable:
		return tt.mapTable(a, w, func(v uint64) uint64 { return v })
	case OpIte:
		return tt.Ite(a.a, tt.Trunc(a.b, w), tt.Trunc(a.c, w))
	}
	return tt.mk(OpTrunc, w, a, nil, nil, 0)
}

// Eval evaluates t under a model indexed by variable number; results are
// remembered until tt.gen changes.
func (tt *TermTab) Eval(t *Term, model []uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		n := varNo(t)
		if n < len(model) {
			return model[n] & mask(t.w)
		}
		return 0
	}
	if t.evGen == tt.gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpAnd:
		r = tt.Eval(t.a, model)
		if r != 0 {
			r = tt.Eval(t.b, model)
		}
	case OpOr:
		r = tt.Eval(t.a, model)
		if r == 0 {
			r = tt.Eval(t.b, model)
		}
	case OpIte:
		if tt.Eval(t.a, model) != 0 {
			r = tt.Eval(t.b, model)
		} else {
			r = tt.Eval(t.c, model)
		}
	default:
		x := tt.Eval(t.a, model)
		var y uint64
		if t.b != nil {
			y = tt.Eval(t.b, model)
		}
		r = tt.apply(t, x, y, 0)
	}
	t.evGen, t.evVal = tt.gen, r
	return r
}

// smtRef is the name by which a term is referred to in SMT-LIB text.
func smtRef(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return fmt.Sprintf("v%d_%d", varNo(t), t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emit writes the definitions t needs that have not been emitted yet.
func (tt *TermTab) emit(t *Term, sb *strings.Builder, s *Solver) {
	if t == nil || t.op == OpConst {
		return
	}
	ep := &t.emitted
	if s.isLia {
		ep = &t.liaBV
	}
	if *ep == s.epoch {
		return
	}
	*ep = s.epoch
	s.emitted++
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", smtRef(t), sortName(t.w))
		return
	}
	if t.op == OpTable && t.bv != nil {
		if cs := tt.cases(t); cs != nil {
			for _, c := range cs[1:] {
				tt.emit(c.g, sb, s)
			}
			fmt.Fprintf(sb, "(declare-const t%d %s)\n(assert (= t%d ", t.id, sortName(t.w), t.id)
			for _, c := range cs[1:] {
				fmt.Fprintf(sb, "(ite %s (_ bv%d %d) ", smtRef(c.g), c.v, t.w)
			}
			fmt.Fprintf(sb, "(_ bv%d %d)%s))\n", cs[0].v, t.w, strings.Repeat(")", len(cs)-1))
			return
		}
	}
	tt.emit(t.a, sb, s)
	tt.emit(t.b, sb, s)
	tt.emit(t.c, sb, s)
	fmt.Fprintf(sb, "(declare-const t%d %s)\n(assert (= t%d ", t.id, sortName(t.w), t.id)
	switch t.op {
	case OpZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", t.w-1, smtRef(t.a))
	case OpTable:
		runs := tt.tables[t.val].runs
		tt.emitTable(sb, runs, t)
	case OpSet:
		emitSet(sb, t)
	case OpNot:
		fmt.Fprintf(sb, "(not %s)", smtRef(t.a))
	case OpIte:
		fmt.Fprintf(sb, "(ite %s %s %s)", smtRef(t.a), smtRef(t.b), smtRef(t.c))
	default:
		fmt.Fprintf(sb, "(%s %s %s)", opSMT[t.op], smtRef(t.a), smtRef(t.b))
	}
	sb.WriteString("))\n")
}

func (tt *TermTab) emitTable(sb *strings.Builder, runs []tableRun, t *Term) {
	if len(runs) == 1 {
		fmt.Fprintf(sb, "(_ bv%d %d)", runs[0].v, t.w)
		return
	}
	m := len(runs) / 2
	fmt.Fprintf(sb, "(ite (bvult %s (_ bv%d %d)) ", smtRef(t.a), runs[m].lo, t.a.w)
	tt.emitTable(sb, runs[:m], t)
	sb.WriteString(" ")
	tt.emitTable(sb, runs[m:], t)
	sb.WriteString(")")
}

// emitSet writes the set as ranges.
func emitSet(sb *strings.Builder, t *Term) {
	in := func(i int) bool { return t.dom[i>>6]>>(i&63)&1 != 0 }
	var rs []string
	for i := 0; i < 256; i++ {
		if !in(i) {
			continue
		}
		j := i
		for j < 255 && in(j+1) {
			j++
		}
		v := smtRef(t.a)
		switch {
		case i == j:
			rs = append(rs, fmt.Sprintf("(= %s (_ bv%d 8))", v, i))
		case i == 0:
			rs = append(rs, fmt.Sprintf("(bvule %s (_ bv%d 8))", v, j))
		case j == 255:
			rs = append(rs, fmt.Sprintf("(bvuge %s (_ bv%d 8))", v, i))
		default:
			rs = append(rs, fmt.Sprintf("(and (bvuge %s (_ bv%d 8)) (bvule %s (_ bv%d 8)))", v, i, v, j))
		}
		i = j
	}
	if len(rs) == 1 {
		sb.WriteString(rs[0])
		return
	}
	sb.WriteString("(or " + strings.Join(rs, " ") + ")")
}

func (t *Term) String() string {
	switch t.op {
	case OpConst, OpVar:
		return smtRef(t)
	case OpTable:
		return fmt.Sprintf("(table%d %v)", t.val, t.a)
	case OpSet:
		return fmt.Sprintf("(in%d %v)", t.val, t.a)
	}
	s := "(" + fmt.Sprint(t.op)
	if int(t.op) < len(opSMT) && opSMT[t.op] != "" {
		s = "(" + opSMT[t.op]
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}

// apply is the value of a term whose operands have the values x, y and z.
func (tt *TermTab) apply(t *Term, x, y, z uint64) uint64 {
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		return 1 - x
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpIte:
		if x != 0 {
			return y
		}
		return z
	case OpEq:
		return b2(x == y)
	case OpUlt:
		return b2(x < y)
	case OpSlt:
		return b2(sext(x, t.a.w) < sext(y, t.a.w))
	case OpZext:
		return x
	case OpSext:
		return uint64(sext(x, t.a.w)) & mask(t.w)
	case OpTrunc:
		return x & mask(t.w)
	case OpSet:
		return t.dom[x>>6] >> (x & 63) & 1
	case OpTable:
		vs := tt.tables[t.val].vals
		if x < uint64(len(vs)) {
			return vs[x]
		}
		return vs[len(vs)-1]
	}
	return evalOp(t.op, t.w, x, y)
}
