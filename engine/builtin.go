package main

import (
	"fmt"
	"go/types"
)

func (in *Interp) builtin(fr *frame, name string, ats []types.Type, rt types.Type, args []Value) Value {
	switch name {
	case "len":
		switch kindOf(ats[0]).kind {
		case kString:
			return vInt(in.strLen(args[0]))
		case kMap:
			m, _ := args[0].R.(*MapV)
			if m == nil {
				return vInt(0)
			}
			return vInt(m.n)
		case kChan:
			c, _ := args[0].R.(*ChanV)
			if c == nil {
				return vInt(0)
			}
			return vInt(len(c.buf))
		case kAgg:
			return vInt(int(ats[0].Underlying().(*types.Array).Len()))
		case kPtr:
			return vInt(int(ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
		s, _ := args[0].R.(*SliceV)
		if s == nil {
			return vInt(0)
		}
		return vInt(s.len)
	case "cap":
		s, _ := args[0].R.(*SliceV)
		if s == nil {
			if c, ok := args[0].R.(*ChanV); ok {
				return vInt(c.cap)
			}
			return vInt(0)
		}
		return vInt(s.cap)
	case "append":
		return in.doAppend(ats, rt, args)
	case "copy":
		return in.doCopy(ats, args)
	case "delete":
		m, _ := args[0].R.(*MapV)
		in.mapDelete(m, ats[0].Underlying().(*types.Map).Key(), args[1])
		return Value{}
	case "clear":
		switch kindOf(ats[0]).kind {
		case kMap:
			if m, _ := args[0].R.(*MapV); m != nil {
				in.mapTouch(m)
				m.keys, m.vals, m.live, m.idx, m.n, m.sym = nil, nil, nil, map[string]int{}, 0, 0
			}
		default:
			if s, _ := args[0].R.(*SliceV); s != nil {
				et := ats[0].Underlying().(*types.Slice).Elem()
				z := make([]Value, s.es)
				in.zeroCells(et, z)
				for i := 0; i < s.len; i++ {
					for j := range z {
						in.writeCell(s.obj, s.off+i*s.es+j, z[j])
					}
				}
			}
		}
		return Value{}
	case "panic":
		panic(&TPanic{v: args[0], desc: "panic: " + in.panicText(args[0]), where: in.where()})
	case "recover":
		// the deferred function's frame is fr; its deferrer is recorded
		d := in.deferrer(fr)
		if d == nil || d.panicV == nil || d.recov {
			return Value{}
		}
		d.recov = true
		return d.panicV.v
	case "print", "println":
		return Value{}
	case "min", "max":
		k := kindOf(ats[0])
		r := args[0]
		for _, a := range args[1:] {
			if k.kind != kInt {
				panic(in.unsup("min/max of " + ats[0].String()))
			}
			x, y := in.term(r, k.w), in.term(a, k.w)
			lt := in.tt.Ult
			if k.signed {
				lt = in.tt.Slt
			}
			c := lt(x, y)
			if name == "max" {
				c = lt(y, x)
			}
			r = in.scalar(in.tt.Ite(c, x, y))
		}
		return r
	case "close":
		c, _ := args[0].R.(*ChanV)
		in.chanClose(c)
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			in.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		n := int(in.concretize(args[1], 64))
		if n == 0 {
			return vStr("")
		}
		p := in.concPtr(args[0])
		if s, ok := p.R.(*strData); ok {
			return in.strSlice(s.s, int(p.N), int(p.N)+n)
		}
		o := p.R.(*Object)
		return mkStr(append([]Value(nil), o.cells[p.N:int(p.N)+n]...))
	case "StringData":
		if in.strLen(args[0]) == 0 {
			return Value{}
		}
		return Value{R: &strData{args[0]}}
	case "SliceData":
		s, _ := args[0].R.(*SliceV)
		if s == nil {
			return Value{}
		}
		return Value{R: s.obj, N: uint64(s.off)}
	case "Slice": // unsafe.Slice
		n := int(in.concretize(args[1], 64))
		p := in.concPtr(args[0])
		if p.R == nil {
			return Value{}
		}
		if s, ok := p.R.(*strData); ok {
			return in.bytesVal(in.strBytes(in.strSlice(s.s, int(p.N), int(p.N)+n)))
		}
		et := rt.Underlying().(*types.Slice).Elem()
		return Value{R: &SliceV{p.R.(*Object), int(p.N), n, n, in.layout(et).n}}
	case "Add": // unsafe.Add, within byte arrays
		p := in.concPtr(args[0])
		p.N += in.concretize(args[1], 64)
		return p
	}
	panic(in.unsup("builtin " + name))
}

// strData is the address of the bytes of a string.
type strData struct{ s Value }

func (in *Interp) deferrer(fr *frame) *frame {
	for i := len(in.frames) - 1; i > 0; i-- {
		if in.frames[i] == fr {
			for j := i - 1; j >= 0; j-- {
				if in.frames[j].panicV != nil {
					return in.frames[j]
				}
			}
		}
	}
	return nil
}

func (in *Interp) doAppend(ats []types.Type, rt types.Type, args []Value) Value {
	if len(args) == 1 {
		return args[0]
	}
	et := rt.Underlying().(*types.Slice).Elem()
	es := in.layout(et).n
	var add []Value
	n := 0
	if kindOf(ats[1]).kind == kString {
		add = in.strBytes(args[1])
		n = len(add)
	} else {
		add = in.sliceCells(args[1])
		if s, _ := args[1].R.(*SliceV); s != nil {
			n = s.len
		}
	}
	if n == 0 {
		return args[0]
	}
	s, _ := args[0].R.(*SliceV)
	if s != nil && s.len+n <= s.cap {
		add = append([]Value(nil), add...)
		for i, v := range add {
			in.writeCell(s.obj, s.off+s.len*es+i, v)
		}
		return Value{R: &SliceV{s.obj, s.off, s.len + n, s.cap, es}}
	}
	ol, oc := 0, 0
	if s != nil {
		ol, oc = s.len, s.cap
	}
	nc := growCap(ol+n, oc, et, in)
	o := in.newObj(nc*es, "append")
	if s != nil {
		if s.obj.released && in.mon.on {
			in.monReleased(s.obj, "read")
		}
		copy(o.cells, s.obj.cells[s.off:s.off+s.len*es])
	}
	copy(o.cells[ol*es:], add)
	if es > 0 {
		z := make([]Value, es)
		in.zeroCells(et, z)
		for i := (ol + n) * es; i < len(o.cells); i += es {
			copy(o.cells[i:], z)
		}
	}
	return Value{R: &SliceV{o, 0, ol + n, nc, es}}
}

// growCap follows the growth rule of the Go runtime up to size-class
// rounding, which is applied for the small classes.
func growCap(need, old int, et types.Type, in *Interp) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	sz := int(stdSizes.Sizeof(et))
	if sz == 0 {
		return need
	}
	bytes := c * sz
	for _, k := range sizeClasses {
		if bytes <= k {
			return k / sz
		}
	}
	return (bytes + 8191) / 8192 * 8192 / sz
}

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (in *Interp) doCopy(ats []types.Type, args []Value) Value {
	d, _ := args[0].R.(*SliceV)
	if d == nil {
		return vInt(0)
	}
	var src []Value
	n := 0
	if kindOf(ats[1]).kind == kString {
		src = in.strBytes(args[1])
		n = len(src)
	} else if s, _ := args[1].R.(*SliceV); s != nil {
		src = in.sliceCells(args[1])
		n = s.len
	}
	n = min(n, d.len)
	src = append([]Value(nil), src[:n*d.es]...)
	for i, v := range src {
		in.writeCell(d.obj, d.off+i, v)
	}
	return vInt(n)
}

var _ = fmt.Sprint
