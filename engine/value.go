package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value. Scalars are N with R == nil when concrete and
// R == *Term when symbolic; everything else is described by R.
type Value struct {
	N uint64
	R any
}

// Object is an allocation: a flat sequence of cells.
type Object struct {
	cells    []Value
	base     bool // allocated before the path began (shared by all paths)
	released bool // lies in a sync.Pool
	mu       bool // belongs to a synchronisation primitive
	ver      uint32
	id       int
	tabs     map[tabKey]tabEnt
	site     string
}

type tabKey struct{ base, stride, off, n int }
type tabEnt struct {
	ver  uint32
	vals []uint64
}

type SliceV struct {
	obj           *Object
	off, len, cap int // off in cells; len, cap in elements
	es            int
}

// SymPtr is the address of element idx of a sequence, idx symbolic and known
// to lie in [0, n).
type SymPtr struct {
	obj             *Object
	base, stride, n int
	idx             *Term
	off             int
}

type Iface struct {
	t types.Type
	v Value
}

type Agg struct{ c []Value }

type Tuple struct{ v []Value }

type Closure struct {
	fn   *ssa.Function
	free []Value
	host func(in *Interp, args []Value) Value // engine-made function
}

type SStr struct{ b []Value }

type MapV struct {
	keys, vals []Value
	live       []bool
	idx        map[string]int
	n          int
	sym        int // live entries whose key is symbolic
	base       bool
	id         int
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	sendq  []*waiter
	recvq  []*waiter
}

type Iter struct {
	str   Value
	isStr bool
	pos   int
	m     *MapV
	order []int
}

// hostObj is an engine-side object behind an opaque pointer.
type TPanic struct {
	v      Value // interface value
	desc   string
	where  string
	nilish bool
}

func (p *TPanic) String() string { return p.desc + " at " + p.where }

func vInt(i int) Value { return Value{N: uint64(i)} }
func vBool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func vStr(s string) Value { return Value{R: s} }

func (v Value) isSym() bool { _, ok := v.R.(*Term); return ok }

type layout struct {
	n      int
	agg    bool
	fields []int // struct: cell offset of each field
	ef     *layout
}

type typeInfo struct {
	w      uint8 // integer/bool width (bool 0)
	signed bool
	kind   uint8
}

const (
	kOther uint8 = iota
	kInt
	kBool
	kString
	kFloat
	kPtr
	kIface
	kAgg
	kSlice
	kMap
	kFunc
	kChan
	kComplex
)

func kindOf(t types.Type) typeInfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return typeInfo{0, false, kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return typeInfo{64, true, kInt}
		case types.Uint, types.Uint64, types.Uintptr:
			return typeInfo{64, false, kInt}
		case types.Int8:
			return typeInfo{8, true, kInt}
		case types.Uint8:
			return typeInfo{8, false, kInt}
		case types.Int16:
			return typeInfo{16, true, kInt}
		case types.Uint16:
			return typeInfo{16, false, kInt}
		case types.Int32, types.UntypedRune:
			return typeInfo{32, true, kInt}
		case types.Uint32:
			return typeInfo{32, false, kInt}
		case types.String, types.UntypedString:
			return typeInfo{0, false, kString}
		case types.Float64, types.UntypedFloat:
			return typeInfo{64, true, kFloat}
		case types.Float32:
			return typeInfo{32, true, kFloat}
		case types.UnsafePointer, types.UntypedNil:
			return typeInfo{0, false, kPtr}
		case types.Complex64, types.Complex128:
			return typeInfo{0, false, kComplex}
		}
	case *types.Pointer:
		return typeInfo{0, false, kPtr}
	case *types.Interface:
		return typeInfo{0, false, kIface}
	case *types.Struct, *types.Array:
		return typeInfo{0, false, kAgg}
	case *types.Slice:
		return typeInfo{0, false, kSlice}
	case *types.Map:
		return typeInfo{0, false, kMap}
	case *types.Signature:
		return typeInfo{0, false, kFunc}
	case *types.Chan:
		return typeInfo{0, false, kChan}
	}
	return typeInfo{0, false, kOther}
}

func (in *Interp) layout(t types.Type) *layout {
	if l, ok := in.layouts[t]; ok {
		return l
	}
	var l *layout
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l = &layout{agg: true}
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			l.n += in.layout(u.Field(i).Type()).n
		}
	case *types.Array:
		e := in.layout(u.Elem())
		l = &layout{agg: true, n: int(u.Len()) * e.n, ef: e}
	default:
		l = &layout{n: 1}
	}
	in.layouts[t] = l
	return l
}

// zeroCells fills c with the zero value of t.
func (in *Interp) zeroCells(t types.Type, c []Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := in.layout(u.Field(i).Type()).n
			in.zeroCells(u.Field(i).Type(), c[o:o+n])
			o += n
		}
	case *types.Array:
		e := in.layout(u.Elem())
		if e.n == 0 || u.Len() == 0 {
			return
		}
		in.zeroCells(u.Elem(), c[:e.n])
		for i := e.n; i < len(c); i += e.n {
			copy(c[i:i+e.n], c[:e.n])
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			c[0] = Value{R: ""}
		} else {
			c[0] = Value{}
		}
	default:
		c[0] = Value{}
	}
}

func (in *Interp) zero(t types.Type) Value {
	l := in.layout(t)
	if l.agg {
		c := make([]Value, l.n)
		in.zeroCells(t, c)
		return Value{R: &Agg{c}}
	}
	if tt, ok := t.(*types.Tuple); ok {
		vs := make([]Value, tt.Len())
		for i := range vs {
			vs[i] = in.zero(tt.At(i).Type())
		}
		return Value{R: &Tuple{vs}}
	}
	var c [1]Value
	in.zeroCells(t, c[:])
	return c[0]
}

func (in *Interp) newObj(n int, site string) *Object {
	in.nextObj++
	return &Object{cells: make([]Value, n), base: in.inBase, id: in.nextObj, site: site}
}

func (in *Interp) alloc(t types.Type, site string) *Object {
	o := in.newObj(in.layout(t).n, site)
	in.zeroCells(t, o.cells)
	return o
}

// aggCells gives the cells of a value of type with layout l.
func aggCells(v Value) []Value {
	if a, ok := v.R.(*Agg); ok {
		return a.c
	}
	return []Value{v}
}

func fromCells(l *layout, c []Value) Value {
	if l.agg {
		d := make([]Value, len(c))
		copy(d, c)
		return Value{R: &Agg{d}}
	}
	return c[0]
}

// ---- strings

func (in *Interp) strLen(v Value) int {
	switch s := v.R.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(in.unsup(fmt.Sprintf("string representation %T", v.R)))
}

func (in *Interp) strAt(v Value, i int) Value {
	switch s := v.R.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic(in.unsup("strAt"))
}

func (in *Interp) strSlice(v Value, lo, hi int) Value {
	switch s := v.R.(type) {
	case string:
		return Value{R: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	return vStr("")
}

// mkStr makes a string of bytes (not copied).
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].R != nil {
			return Value{R: &SStr{b}}
		}
	}
	buf := make([]byte, len(b))
	for i := range b {
		buf[i] = byte(b[i].N)
	}
	return Value{R: string(buf)}
}

func (in *Interp) strBytes(v Value) []Value {
	switch s := v.R.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	return nil
}

func (in *Interp) concat(vs ...Value) Value {
	all := true
	n := 0
	for _, v := range vs {
		if _, ok := v.R.(*SStr); ok {
			all = false
		}
		n += in.strLen(v)
	}
	if all {
		var sb strings.Builder
		for _, v := range vs {
			if s, ok := v.R.(string); ok {
				sb.WriteString(s)
			}
		}
		return vStr(sb.String())
	}
	b := make([]Value, 0, n)
	for _, v := range vs {
		b = append(b, in.strBytes(v)...)
	}
	return mkStr(b)
}

func (in *Interp) strEq(a, b Value) Value {
	if x, ok := a.R.(string); ok {
		if y, ok := b.R.(string); ok {
			return vBool(x == y)
		}
	}
	n := in.strLen(a)
	if n != in.strLen(b) {
		return vBool(false)
	}
	t := in.tt.True
	for i := 0; i < n; i++ {
		t = in.tt.And(t, in.tt.Eq(in.term(in.strAt(a, i), 8), in.term(in.strAt(b, i), 8)))
		if t == in.tt.False {
			break
		}
	}
	return in.boolVal(t)
}

func (in *Interp) strLess(a, b Value) Value {
	if x, ok := a.R.(string); ok {
		if y, ok := b.R.(string); ok {
			return vBool(x < y)
		}
	}
	na, nb := in.strLen(a), in.strLen(b)
	m := min(na, nb)
	t := in.tt.Bool(na < nb)
	for i := m - 1; i >= 0; i-- {
		x, y := in.term(in.strAt(a, i), 8), in.term(in.strAt(b, i), 8)
		t = in.tt.Or(in.tt.Ult(x, y), in.tt.And(in.tt.Eq(x, y), t))
	}
	return in.boolVal(t)
}

func (in *Interp) term(v Value, w uint8) *Term {
	switch t := v.R.(type) {
	case nil:
		return in.tt.Const(v.N, w)
	case *Term:
		return t
	}
	panic(in.unsup(fmt.Sprintf("scalar expected, got %T", v.R)))
}

func (in *Interp) boolVal(t *Term) Value {
	if t == in.tt.True {
		return Value{N: 1}
	}
	if t == in.tt.False {
		return Value{}
	}
	return Value{R: t}
}

func (in *Interp) scalar(t *Term) Value {
	if t.op == OpConst {
		return Value{N: t.val}
	}
	return Value{R: t}
}

// ---- equality

func (in *Interp) equal(t types.Type, a, b Value) Value {
	k := kindOf(t)
	switch k.kind {
	case kInt, kBool:
		if a.R == nil && b.R == nil {
			return vBool(a.N == b.N)
		}
		return in.boolVal(in.tt.Eq(in.term(a, k.w), in.term(b, k.w)))
	case kString:
		return in.strEq(a, b)
	case kFloat:
		return vBool(asFloat(a, k.w) == asFloat(b, k.w))
	case kPtr:
		a, b = in.concPtr(a), in.concPtr(b)
		return vBool(a == b)
	case kIface:
		x, _ := a.R.(*Iface)
		y, _ := b.R.(*Iface)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if !in.identical(x.t, y.t) {
			return vBool(false)
		}
		return in.equal(x.t, x.v, y.v)
	case kAgg:
		ca, cb := aggCells(a), aggCells(b)
		r := in.tt.True
		switch u := t.Underlying().(type) {
		case *types.Struct:
			l := in.layout(t)
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				fl := in.layout(ft)
				o := l.fields[i]
				e := in.equal(ft, fromCells(fl, ca[o:o+fl.n]), fromCells(fl, cb[o:o+fl.n]))
				r = in.tt.And(r, in.term(e, 0))
			}
		case *types.Array:
			el := in.layout(u.Elem())
			for o := 0; o < len(ca); o += el.n {
				e := in.equal(u.Elem(), fromCells(el, ca[o:o+el.n]), fromCells(el, cb[o:o+el.n]))
				r = in.tt.And(r, in.term(e, 0))
			}
		}
		return in.boolVal(r)
	case kSlice, kMap, kFunc, kChan:
		return vBool(a.R == nil && b.R == nil || a.R == b.R)
	}
	panic(in.unsup("comparison of " + t.String()))
}

func (in *Interp) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := [2]types.Type{a, b}
	if r, ok := in.ident[k]; ok {
		return r
	}
	r := types.Identical(a, b)
	in.ident[k] = r
	return r
}
