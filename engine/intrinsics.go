package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fn *ssa.Function, args []Value) Value

const symPath = "kvh/sym"

type poolState struct {
	private Value
	hasPriv bool
	shared  []Value
}

// exitCall is the panic value of os.Exit.
type exitCall struct{ code int }

type vfile struct {
	name   string
	data   []Value
	pos    int
	out    []Value // of the standard streams
	disk   bool    // what is written is seen in the file
	app    bool    // writes go to the end
	fail   bool    // reading fails at the end
	closed bool
	full   bool // writing fails
	opened bool // by the program
}

func (in *Interp) intrinsicFor(fn *ssa.Function) (intrinsic, bool) {
	if c, ok := in.intrC[fn]; ok {
		return c, c != nil
	}
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	f, ok := in.intr[n]
	if !ok && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "sync/atomic" || !ok && strings.HasPrefix(n, "(*sync/atomic.") || !ok && strings.HasPrefix(n, "(*internal/runtime/atomic.") {
		f, ok = atomicIntr(fn)
	}
	if !ok {
		f = nil
	}
	in.intrC[fn] = f
	return f, f != nil
}

func (in *Interp) hasIntr(fn *ssa.Function) bool { _, ok := in.intrinsicFor(fn); return ok }

var pureNames = map[string]bool{
	"unicode/utf8.RuneCount": true, "unicode/utf8.RuneCountInString": true,
	"internal/bytealg.Equal": true, "internal/bytealg.IndexByte": true, "internal/bytealg.IndexByteString": true,
	"internal/bytealg.Compare": true, "internal/bytealg.CompareString": true, "internal/bytealg.Count": true, "internal/bytealg.CountString": true,
	"internal/stringslite.Index": true, "bytes.Index": true, "bytes.Equal": true,
	"internal/stringslite.HasPrefix": true,
}

func (in *Interp) pureIntr(fn *ssa.Function) bool { return pureNames[fn.String()] }

func (in *Interp) errVal(msg Value) Value {
	p := in.p.pkgs["errors"]
	t := types.NewPointer(p.Type("errorString").Type())
	o := in.newObj(1, "error")
	o.cells[0] = msg
	return Value{R: &Iface{in.canonType(t), Value{R: o}}}
}

// pathErr is the error of an operation on a file.
func (in *Interp) pathErr(op, name string, err Value) Value {
	p := in.p.pkgs["io/fs"]
	if p == nil {
		return in.errVal(vStr(op + " " + name + ": failed"))
	}
	t := p.Type("PathError").Type()
	l := in.layout(t)
	o := in.newObj(l.n, "error")
	in.zeroCells(t, o.cells)
	o.cells[l.fields[0]] = vStr(op)
	o.cells[l.fields[1]] = vStr(name)
	o.cells[l.fields[2]] = err
	return Value{R: &Iface{in.canonType(types.NewPointer(t)), Value{R: o}}}
}

// errno is an error of the operating system.
func (in *Interp) errno(e syscall.Errno) Value {
	return Value{R: &Iface{in.canonType(in.p.pkgs["syscall"].Type("Errno").Type()), Value{N: uint64(e)}}}
}

// canonType keeps one pointer per constructed type, for the caches.
func (in *Interp) canonType(t types.Type) types.Type {
	s := t.String()
	if c, ok := in.canon[s]; ok {
		return c
	}
	in.canon[s] = t
	return t
}

func (in *Interp) globalVal(pkg, name string) Value {
	g := in.p.pkgs[pkg].Var(name)
	return in.global(g).cells[0]
}

func (in *Interp) concStr(v Value) string {
	if s, ok := v.R.(string); ok {
		return s
	}
	n := in.strLen(v)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in.concretize(in.strAt(v, i), 8))
	}
	return string(b)
}

// bytesOf gives the bytes of a string or byte slice value.
func (in *Interp) bytesOf(v Value) []Value {
	switch v.R.(type) {
	case string, *SStr:
		return in.strBytes(v)
	}
	return in.sliceCells(v)
}

func (in *Interp) eqByte(a, b Value) Value {
	if a.R == nil && b.R == nil {
		return vBool(a.N == b.N)
	}
	return in.boolVal(in.tt.Eq(in.term(a, 8), in.term(b, 8)))
}

func (in *Interp) eqBytes(a, b []Value) Value {
	if len(a) != len(b) {
		return vBool(false)
	}
	t := in.tt.True
	for i := range a {
		t = in.tt.And(t, in.term(in.eqByte(a[i], b[i]), 0))
		if t == in.tt.False {
			break
		}
	}
	return in.boolVal(t)
}

func tuple(vs ...Value) Value { return Value{R: &Tuple{vs}} }

func (in *Interp) variadic(v Value) []Value { return in.sliceCells(v) }

func indexOf(in *Interp, hay []Value, sep []Value) Value {
	for i := 0; i+len(sep) <= len(hay); i++ {
		if in.truth(in.eqBytes(hay[i:i+len(sep)], sep)) {
			return vInt(i)
		}
	}
	return Value{N: ^uint64(0)}
}

func nop(in *Interp, fn *ssa.Function, a []Value) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

type ptrKey struct {
	o   *Object
	off uint64
}

func pk(v Value) ptrKey {
	o, _ := v.R.(*Object)
	return ptrKey{o, v.N}
}

func (in *Interp) writeTo(w Value, s Value) Value {
	// call w.Write([]byte)
	i, _ := w.R.(*Iface)
	if i == nil {
		in.nilDeref()
	}
	f := in.method(i.t, "Write", nil)
	return in.call(f, []Value{i.v, in.bytesVal(in.strBytes(s))}, nil)
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	var parts []Value
	prevStr := true
	for i, a := range args {
		iv, _ := a.R.(*Iface)
		isStr := iv != nil && kindOf(iv.t).kind == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			parts = append(parts, vStr(" "))
		}
		prevStr = isStr
		if iv == nil {
			parts = append(parts, vStr("<nil>"))
		} else {
			parts = append(parts, in.format(iv.t, iv.v, 'v', false))
		}
	}
	if ln {
		parts = append(parts, vStr("\n"))
	}
	return in.concat(parts...)
}

func (in *Interp) errorf(format string, args []Value) Value {
	s, w := in.sprintf(format, args)
	if len(w) == 1 {
		t := in.canonType(types.NewPointer(in.p.pkgs["fmt"].Type("wrapError").Type()))
		o := in.newObj(2, "error")
		o.cells[0], o.cells[1] = s, w[0]
		return Value{R: &Iface{t, Value{R: o}}}
	}
	return in.errVal(s)
}

func intrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	// ---- harness
	s := func(name string, f intrinsic) { m[symPath+"."+name] = f }
	mkvar := func(name string, w uint8) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value { return Value{R: in.newVar(name, w)} }
	}
	s("Byte", mkvar("byte", 8))
	s("Bool", mkvar("bool", 0))
	s("Int8", mkvar("int8", 8))
	s("Int16", mkvar("int16", 16))
	s("Int32", mkvar("int32", 32))
	s("Rune", mkvar("rune", 32))
	s("Int", mkvar("int", 64))
	s("Bytes", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[0], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{R: in.newVar("byte", 8)}
		}
		return in.bytesVal(b)
	})
	s("String", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[0], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{R: in.newVar("byte", 8)}
		}
		return mkStr(b)
	})
	s("Choose", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.concretize(a[0], 64)
		if n > 255 {
			panic(in.unsup("sym.Choose of more than 255"))
		}
		v := Value{R: in.newVar("choose", 8)}
		in.assume(in.boolVal(in.tt.Ult(v.R.(*Term), in.tt.Const(n, 8))))
		return Value{N: in.concretize(v, 8)}
	})
	s("Fix", func(in *Interp, fn *ssa.Function, a []Value) Value { return Value{N: in.concretize(a[0], 64)} })
	s("Assume", func(in *Interp, fn *ssa.Function, a []Value) Value { in.assume(a[0]); return Value{} })
	s("Assert", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.assert(a[0], in.concStr(a[1]))
		return Value{}
	})
	s("And", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.tt.True
		for _, v := range in.variadic(a[0]) {
			t = in.tt.And(t, in.term(v, 0))
		}
		return in.boolVal(t)
	})
	s("Or", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.tt.False
		for _, v := range in.variadic(a[0]) {
			t = in.tt.Or(t, in.term(v, 0))
		}
		return in.boolVal(t)
	})
	s("Not", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.boolVal(in.tt.Not(in.term(a[0], 0))) })
	s("Implies", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.boolVal(in.tt.Or(in.tt.Not(in.term(a[0], 0)), in.term(a[1], 0)))
	})
	s("IteInt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.scalar(in.tt.Ite(in.term(a[0], 0), in.term(a[1], 64), in.term(a[2], 64)))
	})
	s("Param", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if v, ok := in.ex.params[in.concStr(a[0])]; ok {
			return vInt(v)
		}
		return a[1]
	})
	s("Reach", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.reach[in.concStr(a[0])] = true
		return Value{}
	})
	s("Observe", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i, _ := a[1].R.(*Iface)
		if i != nil {
			v := i.v
			if sl, ok := v.R.(*SliceV); ok { // snapshot
				v = Value{R: append([]Value(nil), in.sliceCells(Value{R: sl})...)}
			}
			in.obs = append(in.obs, obsRec{in.concStr(a[0]), v, i.t})
		}
		return Value{}
	})
	s("Native", func(in *Interp, fn *ssa.Function, a []Value) Value { return vBool(false) })
	s("PoolReset", func(in *Interp, fn *ssa.Function, a []Value) Value {
		for k := range in.pools {
			delete(in.pools, k)
		}
		return Value{}
	})
	s("Fresh", func(in *Interp, fn *ssa.Function, a []Value) Value {
		mark, old := len(in.undo), in.fresh
		in.fresh = in.nextObj
		pools := in.pools
		in.pools = map[*Object]*poolState{}
		r := in.callValue(a[0], nil)
		r = Value{R: &SliceV{obj: in.copySlice(r), len: len(in.sliceCells(r)), cap: len(in.sliceCells(r)), es: 1}}
		in.pools = pools
		in.fresh = old
		in.undoTo(mark)
		return r
	})
	s("Monitor", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.mon.on = a[0].N != 0
		in.mon.since = in.nextObj
		return Value{}
	})
	s("File", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.fileSeq++
		n := fmt.Sprintf("/verif-file-%d", in.fileSeq)
		in.files[n] = mkStr(append([]Value(nil), in.sliceCells(a[0])...))
		return vStr(n)
	})
	s("ReadFile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		v, ok := in.files[in.concStr(a[0])]
		if !ok {
			return tuple(vStr(""), vBool(false))
		}
		return tuple(v, vBool(true))
	})
	s("RepoFile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b, err := os.ReadFile("/repo/" + in.concStr(a[0]))
		if err != nil {
			panic(in.unsup(err.Error()))
		}
		return vStr(string(b))
	})
	s("OutFile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.fileSeq++
		return vStr(fmt.Sprintf("/verif-file-%d", in.fileSeq))
	})
	s("SetStdin", func(in *Interp, fn *ssa.Function, a []Value) Value {
		o := in.global(in.p.pkgs["os"].Var("Stdin"))
		f := in.mkFile("stdin", append([]Value(nil), in.sliceCells(a[0])...))
		in.writeCell(o, 0, f)
		return Value{}
	})
	s("SetStdinFail", func(in *Interp, fn *ssa.Function, a []Value) Value {
		o := in.global(in.p.pkgs["os"].Var("Stdin"))
		f := in.mkFile("stdin", append([]Value(nil), in.sliceCells(a[0])...))
		in.vf[f.R.(*Object)].fail = true
		in.writeCell(o, 0, f)
		return Value{}
	})
	s("OpenFiles", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, f := range in.vf {
			if f.opened && !f.closed {
				n++
			}
		}
		return vInt(n)
	})
	s("Dir", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.fileSeq++
		n := fmt.Sprintf("/verif-file-%d", in.fileSeq)
		in.dirs[n] = true
		return vStr(n)
	})
	s("Finishes", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.schedInit()
		in.sc.finishes = append(in.sc.finishes, in.concStr(a[1]))
		in.callValue(a[0], nil)
		in.sc.finishes = in.sc.finishes[:len(in.sc.finishes)-1]
		return Value{}
	})
	s("Leftover", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.schedInit()
		in.drain()
		return vInt(in.live())
	})
	s("Timer", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := a[0]
		in.spawn("timer", true, func() { in.callValue(f, nil) })
		return Value{}
	})
	s("NoReplay", func(in *Interp, fn *ssa.Function, a []Value) Value { in.sc.noReplay = true; return Value{} })
	s("Process", func(in *Interp, fn *ssa.Function, a []Value) Value {
		var fs []*vfile
		for _, n := range []string{"Stdout", "Stderr"} {
			v := in.global(in.p.pkgs["os"].Var(n)).cells[0]
			f := in.vf[v.R.(*Object)]
			f.out = nil
			fs = append(fs, f)
		}
		code := 0
		func() {
			nf, depth, top := len(in.frames), in.depth, in.stackTop
			defer func() {
				if r := recover(); r != nil {
					x, ok := r.(*exitCall)
					if !ok {
						panic(r)
					}
					code = x.code
					in.frames, in.depth, in.stackTop = in.frames[:nf], depth, top
				}
			}()
			in.callValue(a[0], nil)
		}()
		return tuple(mkStr(append([]Value(nil), fs[0].out...)), mkStr(append([]Value(nil), fs[1].out...)), vInt(code))
	})
	s("Inject", func(in *Interp, fn *ssa.Function, a []Value) Value { return vBool(in.inject(a[0], a[1])) })
	s("MapKeyOrder", nop)

	// ---- strings and bytes
	runeCount := func(in *Interp, fn *ssa.Function, a []Value) Value {
		v := a[0]
		if _, ok := v.R.(*SliceV); ok || v.R == nil {
			v = mkStr(append([]Value(nil), in.sliceCells(v)...))
		}
		n := 0
		for i := 0; i < in.strLen(v); {
			_, w := in.decodeRune(v, i)
			i += w
			n++
		}
		return vInt(n)
	}
	m["unicode/utf8.RuneCountInString"] = runeCount
	m["unicode/utf8.RuneCount"] = runeCount
	m["internal/bytealg.MakeNoZero"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[0], 64))
		return in.makeSlice(types.Typ[types.Byte], n, n)
	}
	eq := func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.eqBytes(in.bytesOf(a[0]), in.bytesOf(a[1]))
	}
	m["internal/bytealg.Equal"] = eq
	m["bytes.Equal"] = eq
	ib := func(in *Interp, fn *ssa.Function, a []Value) Value {
		return indexOf(in, in.bytesOf(a[0]), []Value{a[1]})
	}
	m["internal/bytealg.IndexByte"] = ib
	m["internal/bytealg.IndexByteString"] = ib
	lib := func(in *Interp, fn *ssa.Function, a []Value) Value {
		h := in.bytesOf(a[0])
		for i := len(h) - 1; i >= 0; i-- {
			if in.truth(in.eqByte(h[i], a[1])) {
				return vInt(i)
			}
		}
		return Value{N: ^uint64(0)}
	}
	m["internal/bytealg.LastIndexByte"] = lib
	m["internal/bytealg.LastIndexByteString"] = lib
	ix := func(in *Interp, fn *ssa.Function, a []Value) Value {
		return indexOf(in, in.bytesOf(a[0]), in.bytesOf(a[1]))
	}
	m["internal/stringslite.Index"] = ix
	m["bytes.Index"] = ix
	m["internal/bytealg.Index"] = ix
	m["internal/bytealg.IndexString"] = ix
	cnt := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, c := range in.bytesOf(a[0]) {
			if in.truth(in.eqByte(c, a[1])) {
				n++
			}
		}
		return vInt(n)
	}
	m["internal/bytealg.Count"] = cnt
	m["internal/bytealg.CountString"] = cnt
	cmp := func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(in.bytesOf(a[0])), mkStr(in.bytesOf(a[1]))
		if in.truth(in.strEq(x, y)) {
			return vInt(0)
		}
		if in.truth(in.strLess(x, y)) {
			return Value{N: ^uint64(0)}
		}
		return vInt(1)
	}
	m["internal/bytealg.Compare"] = cmp
	m["internal/bytealg.CompareString"] = cmp
	id := func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	m["internal/abi.NoEscape"] = id
	m["internal/abi.Escape"] = id
	m["strings.noescape"] = id

	// ---- fmt
	m["fmt.Sprintf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, _ := in.sprintf(in.concStr(a[0]), in.variadic(a[1]))
		return s
	}
	m["fmt.Errorf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.errorf(in.concStr(a[0]), in.variadic(a[1]))
	}
	m["fmt.Fprintf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, _ := in.sprintf(in.concStr(a[1]), in.variadic(a[2]))
		return in.writeTo(a[0], s)
	}
	m["fmt.Fprintln"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.writeTo(a[0], in.sprint(in.variadic(a[1]), true))
	}
	m["fmt.Fprint"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.writeTo(a[0], in.sprint(in.variadic(a[1]), false))
	}
	m["fmt.Sprint"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(in.variadic(a[0]), false) }
	m["fmt.Sprintln"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(in.variadic(a[0]), true) }
	appendTo := func(in *Interp, dst, s Value) Value {
		bt := types.NewSlice(types.Typ[types.Byte])
		return in.doAppend([]types.Type{bt, types.Typ[types.String]}, bt, []Value{dst, s})
	}
	m["fmt.Appendf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, _ := in.sprintf(in.concStr(a[1]), in.variadic(a[2]))
		return appendTo(in, a[0], s)
	}
	m["fmt.Append"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return appendTo(in, a[0], in.sprint(in.variadic(a[1]), false))
	}
	m["fmt.Appendln"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return appendTo(in, a[0], in.sprint(in.variadic(a[1]), true))
	}
	for _, n := range []string{"Printf", "Println", "Print"} {
		m["fmt."+n] = nop
		m["log."+n] = nop
	}
	m["strconv.Quote"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.quote(a[0]) }
	m["flag.isZeroValue"] = func(in *Interp, fn *ssa.Function, a []Value) Value { // uses reflection: the zero values of the standard kinds of flags
		switch in.concStr(a[1]) {
		case "", "false", "0", "0s":
			return Value{R: &Tuple{[]Value{vBool(true), {}}}}
		}
		return Value{R: &Tuple{[]Value{{}, {}}}}
	}

	// ---- errors
	m["errors.As"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return vBool(in.errorsAs(a[0], a[1])) }
	m["errors.Is"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return vBool(in.errorsIs(a[0], a[1])) }

	// ---- sync
	m["(*sync.Pool).Get"] = poolGet
	m["(*sync.Pool).Put"] = poolPut
	lk := func(n, op string, write bool) {
		m[n] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			d := 1
			switch op {
			case "try":
				if !in.tryLock(a[0], write) {
					return vBool(false)
				}
			case "lock":
				in.lock(a[0], write)
			default:
				in.unlock(a[0], write)
				d = -1
			}
			if write {
				in.mon.locks += d
			} else {
				in.mon.rlocks += d
			}
			if op == "try" {
				return vBool(true)
			}
			return Value{}
		}
	}
	for _, n := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		lk(n+"Lock", "lock", true)
		lk(n+"TryLock", "try", true)
		lk(n+"Unlock", "unlock", true)
	}
	lk("(*sync.RWMutex).RLock", "lock", false)
	lk("(*sync.RWMutex).TryRLock", "try", false)
	lk("(*sync.RWMutex).RUnlock", "unlock", false)
	m["(*sync.WaitGroup).Add"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.wgAdd(a[0], int(int64(in.concretize(a[1], 64))))
		return Value{}
	}
	m["(*sync.WaitGroup).Done"] = func(in *Interp, fn *ssa.Function, a []Value) Value { in.wgAdd(a[0], -1); return Value{} }
	m["(*sync.WaitGroup).Wait"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.preempt()
		l := in.lockOf(a[0])
		in.block("WaitGroup.Wait", func() bool { return l.n == 0 })
		return Value{}
	}
	m["(*sync.WaitGroup).Go"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.wgAdd(a[0], 1)
		w, f := a[0], a[1]
		in.spawn("WaitGroup.Go", false, func() {
			in.callValue(f, nil)
			in.wgAdd(w, -1)
		})
		return Value{}
	}
	syncMap(m)
	m["(*sync.Once).Do"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		k := pk(a[0])
		if in.once[k] {
			return Value{}
		}
		in.once[k] = true
		if !in.inBase {
			in.undo = append(in.undo, undoRec{fn: func() { delete(in.once, k) }})
		}
		in.mon.once++
		in.callValue(a[1], nil)
		in.mon.once--
		return Value{}
	}
	m["runtime.KeepAlive"] = nop
	m["runtime.GC"] = nop
	m["runtime.SetFinalizer"] = nop
	m["runtime.Gosched"] = nop
	m["(*internal/godebug.Setting).Value"] = nop
	m["(*internal/godebug.Setting).IncNonDefault"] = nop

	// ---- os
	openIt := func(in *Interp, n string, flag int) Value {
		d, ok := in.files[n]
		switch {
		case n == "/dev/full":
			f := in.mkFile(n, nil)
			in.vf[f.R.(*Object)].full = true
			return tuple(f, Value{})
		case in.dirs[n] && flag&(os.O_WRONLY|os.O_RDWR) != 0:
			return tuple(Value{}, in.pathErr("open", n, in.errno(syscall.EISDIR)))
		case in.dirs[n]:
			f := in.mkFile(n, nil)
			in.vf[f.R.(*Object)].fail = true
			return tuple(f, Value{})
		case ok && flag&os.O_EXCL != 0:
			return tuple(Value{}, in.pathErr("open", n, in.errno(syscall.EEXIST)))
		case !ok && flag&os.O_CREATE == 0:
			return tuple(Value{}, in.pathErr("open", n, in.errno(syscall.ENOENT)))
		case !ok || flag&os.O_TRUNC != 0:
			d = vStr("")
			in.files[n] = d
		}
		f := in.mkFile(n, append([]Value(nil), in.strBytes(d)...))
		x := in.vf[f.R.(*Object)]
		x.disk, x.app = true, flag&os.O_APPEND != 0
		return tuple(f, Value{})
	}
	openFile := func(in *Interp, n string, flag int) Value {
		r := openIt(in, n, flag)
		if f, ok := r.R.(*Tuple).v[0].R.(*Object); ok && in.vf[f] != nil {
			in.vf[f].opened = true
		}
		return r
	}
	m["os.Open"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return openFile(in, in.concStr(a[0]), os.O_RDONLY)
	}
	m["os.OpenFile"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return openFile(in, in.concStr(a[0]), int(in.concretize(a[1], 64)))
	}
	m["os.Create"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return openFile(in, in.concStr(a[0]), os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	}
	m["(syscall.Errno).Error"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return vStr(syscall.Errno(in.concretize(a[0], 64)).Error())
	}
	m["archive/zip.OpenReader"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.concStr(a[0])
		d, ok := in.files[n]
		if ok && in.strLen(d) >= 22 {
			panic(in.unsup("a zip file"))
		}
		return tuple(Value{}, in.zipErr(n, ok))
	}
	m["os.WriteFile"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.concStr(a[0])
		if in.dirs[n] {
			return in.pathErr("open", n, in.errno(syscall.EISDIR))
		}
		in.files[n] = mkStr(append([]Value(nil), in.sliceCells(a[1])...))
		return Value{}
	}
	m["os.ReadFile"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.concStr(a[0])
		d, ok := in.files[n]
		if !ok {
			return tuple(Value{}, in.pathErr("open", n, in.errno(syscall.ENOENT)))
		}
		return tuple(in.bytesVal(in.strBytes(d)), Value{})
	}
	m["(*os.File).Read"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.vf[pk(a[0]).o]
		if f == nil {
			in.nilDeref()
		}
		d, _ := a[1].R.(*SliceV)
		if d == nil || d.len == 0 {
			return tuple(vInt(0), Value{})
		}
		if f.closed {
			return tuple(vInt(0), in.pathErr("read", f.name, in.globalVal("io/fs", "ErrClosed")))
		}
		if f.pos >= len(f.data) {
			if f.fail {
				if in.dirs[f.name] {
					return tuple(vInt(0), in.pathErr("read", f.name, in.errno(syscall.EISDIR)))
				}
				return tuple(vInt(0), in.pathErr("read", f.name, in.globalVal("internal/poll", "ErrDeadlineExceeded")))
			}
			return tuple(vInt(0), in.globalVal("io", "EOF"))
		}
		n := min(d.len, len(f.data)-f.pos)
		for i := 0; i < n; i++ {
			in.writeCell(d.obj, d.off+i, f.data[f.pos+i])
		}
		f.pos += n
		return tuple(vInt(n), Value{})
	}
	wr := func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.vf[pk(a[0]).o]
		if f == nil {
			in.nilDeref()
		}
		if f.closed {
			return tuple(vInt(0), in.pathErr("write", f.name, in.globalVal("io/fs", "ErrClosed")))
		}
		b := in.bytesOf(a[1])
		if f.full && len(b) > 0 {
			return tuple(vInt(0), in.pathErr("write", f.name, in.errno(syscall.ENOSPC)))
		}
		if !f.disk {
			f.out = append(f.out, b...)
			return tuple(vInt(len(b)), Value{})
		}
		if f.app {
			f.pos = len(f.data)
		}
		f.data = append(append(append([]Value(nil), f.data[:f.pos]...), b...), f.data[min(len(f.data), f.pos+len(b)):]...)
		f.pos += len(b)
		in.files[f.name] = mkStr(f.data)
		return tuple(vInt(len(b)), Value{})
	}
	m["(*os.File).Write"] = wr
	m["(*os.File).WriteString"] = wr
	m["(*os.File).Close"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.vf[pk(a[0]).o]
		if f == nil || f.closed {
			return in.pathErr("close", "file", in.globalVal("io/fs", "ErrClosed"))
		}
		f.closed = true
		return Value{}
	}
	m["os.Getenv"] = nop
	m["os.Exit"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		panic(&exitCall{int(int64(in.concretize(a[0], 64)))})
	}

	// ---- sort.Slice and friends
	swapper := func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].R.(*Iface)
		s, _ := i.v.R.(*SliceV)
		return Value{R: &Closure{host: func(in *Interp, args []Value) Value {
			x, y := int(in.concretize(args[0], 64)), int(in.concretize(args[1], 64))
			for k := 0; k < s.es; k++ {
				p, q := s.off+x*s.es+k, s.off+y*s.es+k
				vp, vq := s.obj.cells[p], s.obj.cells[q]
				in.writeCell(s.obj, p, vq)
				in.writeCell(s.obj, q, vp)
			}
			return Value{}
		}}}
	}
	m["internal/reflectlite.Swapper"] = swapper
	m["reflect.Swapper"] = swapper
	m["internal/reflectlite.ValueOf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := in.zero(fn.Signature.Results().At(0).Type())
		c.R.(*Agg).c[0] = a[0]
		return c
	}
	m["(internal/reflectlite.Value).Len"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].R.(*Agg).c[0].R.(*Iface)
		s, _ := i.v.R.(*SliceV)
		if s == nil {
			return vInt(0)
		}
		return vInt(s.len)
	}

	// ---- encoding/json
	m["encoding/json.Marshal"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := in.makeSlice(types.Typ[types.Byte], 0, 64)
		i, _ := a[0].R.(*Iface)
		if i == nil {
			b = appendTo(in, b, vStr("null"))
		} else {
			b = in.jsonValue(b, i.t, i.v, appendTo)
		}
		return tuple(b, Value{})
	}
	m["encoding/json.NewEncoder"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		o := in.newObj(1, "json.Encoder")
		o.cells[0] = a[0]
		return Value{R: o}
	}
	m["(*encoding/json.Encoder).Encode"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := in.makeSlice(types.Typ[types.Byte], 0, 64)
		i, _ := a[1].R.(*Iface)
		if i == nil {
			b = appendTo(in, b, vStr("null"))
		} else {
			b = in.jsonValue(b, i.t, i.v, appendTo)
		}
		b = appendTo(in, b, vStr("\n"))
		r := in.writeTo(a[0].R.(*Object).cells[0], mkStr(append([]Value(nil), in.sliceCells(b)...)))
		return r.R.(*Tuple).v[1]
	}
	m["encoding/json.NewDecoder"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		o := in.newObj(1, "json.Decoder")
		o.cells[0] = a[0]
		return Value{R: o}
	}
	m["(*encoding/json.Decoder).Decode"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.p.pkgs["kvh/symjson"].Func("ReadAll")
		r := in.call(f, []Value{a[0].R.(*Object).cells[0]}, nil).R.(*Tuple)
		if r.v[1].R != nil {
			return r.v[1]
		}
		return in.jsonDecode(r.v[0], a[1], true)
	}
	m["encoding/json.Unmarshal"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.jsonDecode(a[0], a[1], false) }
	m["encoding/json.Valid"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.p.pkgs["kvh/symjson"].Func("Valid")
		return in.call(f, a, nil)
	}
	// the http header map canonicalisation is irrelevant to the properties
	m["net/textproto.CanonicalMIMEHeaderKey"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	m["time.Now"] = nop
	m["runtime/debug.ReadBuildInfo"] = nop
	m["runtime.Caller"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return tuple(vInt(0), vStr(""), vInt(0), vBool(false))
	}
	for real, model := range map[string]string{
		"os/exec.LookPath": "LookPath", "os/exec.Command": "Command", "os/exec.CommandContext": "CommandContext",
		"(*os/exec.Cmd).Start": "Start", "(*os/exec.Cmd).Wait": "Wait", "(*os/exec.Cmd).Run": "Run", "(*os/exec.Cmd).Output": "Output",
		"(*os/exec.Cmd).StdinPipe": "StdinPipe", "(*os.Process).Kill": "Kill",
		"time.AfterFunc": "AfterFunc", "time.NewTimer": "NewTimer", "time.After": "After", "time.Sleep": "Sleep", "(*time.Timer).Stop": "StopTimer",
		"context.WithTimeout": "WithTimeout", "context.WithDeadline": "WithDeadline",
		"(*net/http.Server).ListenAndServe": "ListenAndServe", "(*net/http.Server).Serve": "Serve", "net.Listen": "Listen", "(*net/http.Server).Shutdown": "Shutdown", "(*net/http.Server).Close": "Close",
		"os/signal.Notify": "Notify", "os/signal.Stop": "StopSignal",
	} {
		m[real] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.call(in.p.pkgs["kvh/px"].Func(model), a, nil)
		}
	}
	templates(m)
	return m
}

func (in *Interp) jsonDecode(data, dst Value, stream bool) Value {
	f := in.p.pkgs["kvh/symjson"].Func("Parse")
	r := in.call(f, []Value{data, vBool(stream)}, nil).R.(*Tuple)
	// r: fields []Field, err error
	if r.v[1].R != nil {
		return r.v[1]
	}
	i, _ := dst.R.(*Iface)
	pt := i.t.Underlying().(*types.Pointer)
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(in.unsup("json decode into " + pt.String()))
	}
	l := in.layout(pt.Elem())
	fs, _ := r.v[0].R.(*SliceV)
	if fs == nil {
		return Value{}
	}
	cs := in.sliceCells(r.v[0]) // Field{Name string; Kind int; Str string}
	for k := 0; k < fs.len; k++ {
		name, kind, str := cs[k*3], int(in.concretize(cs[k*3+1], 64)), cs[k*3+2]
		best := -1
		for j := 0; j < st.NumFields(); j++ {
			tag := strings.Split(reflect.StructTag(st.Tag(j)).Get("json"), ",")[0]
			if tag == "" {
				tag = st.Field(j).Name()
			}
			if tag == "-" || !st.Field(j).Exported() {
				continue
			}
			nm := in.concStr(name)
			if nm == tag {
				best = j
				break
			}
			if strings.EqualFold(nm, tag) && best < 0 {
				best = j
			}
		}
		if best < 0 || kind == 3 { // unknown field or null
			continue
		}
		ft := st.Field(best).Type()
		if kindOf(ft).kind != kString {
			panic(in.unsup("json decode field of type " + ft.String()))
		}
		if kind != 0 {
			kn := []string{"string", "number", "bool", "null", "object", "array"}[kind]
			return in.errVal(vStr("json: cannot unmarshal " + kn + " into Go struct field " + pt.Elem().(*types.Named).Obj().Name() + "." + st.Field(best).Name() + " of type string"))
		}
		p := i.v
		in.store(Value{R: p.R, N: p.N + uint64(l.fields[best])}, str, in.layout(ft))
	}
	return Value{}
}

func (in *Interp) jsonValue(b Value, t types.Type, v Value, app func(in *Interp, dst, s Value) Value) Value {
	k := kindOf(t)
	switch k.kind {
	case kString:
		f := in.p.pkgs["kvh/symjson"].Func("AppendString")
		return in.call(f, []Value{b, v}, nil)
	case kInt:
		return app(in, b, in.format(types.Typ[map[bool]types.BasicKind{true: types.Int64, false: types.Uint64}[k.signed]], in.convert(t, types.Typ[types.Int64], v), 'd', false))
	case kBool:
		return app(in, b, in.format(t, v, 'v', false))
	case kIface:
		i, _ := v.R.(*Iface)
		if i == nil {
			return app(in, b, vStr("null"))
		}
		return in.jsonValue(b, i.t, i.v, app)
	case kPtr:
		if v.R == nil {
			return app(in, b, vStr("null"))
		}
		e := t.Underlying().(*types.Pointer).Elem()
		return in.jsonValue(b, e, in.load(v, in.layout(e)), app)
	case kSlice:
		s, _ := v.R.(*SliceV)
		if s == nil {
			return app(in, b, vStr("null"))
		}
		et := t.Underlying().(*types.Slice).Elem()
		if ek := kindOf(et); ek.kind == kInt && ek.w == 8 {
			panic(in.unsup("json of []byte"))
		}
		b = app(in, b, vStr("["))
		el := in.layout(et)
		cs := in.sliceCells(v)
		for i := 0; i < s.len; i++ {
			if i > 0 {
				b = app(in, b, vStr(","))
			}
			b = in.jsonValue(b, et, fromCells(el, cs[i*el.n:(i+1)*el.n]), app)
		}
		return app(in, b, vStr("]"))
	case kMap:
		m, _ := v.R.(*MapV)
		if m == nil {
			return app(in, b, vStr("null"))
		}
		mt := t.Underlying().(*types.Map)
		var keys []string
		for i := range m.keys {
			if m.live[i] {
				keys = append(keys, in.concStr(m.keys[i]))
			}
		}
		sortStrings(keys)
		b = app(in, b, vStr("{"))
		for i, kk := range keys {
			if i > 0 {
				b = app(in, b, vStr(","))
			}
			kb, _ := json.Marshal(kk)
			b = app(in, b, vStr(string(kb)+":"))
			b = in.jsonValue(b, mt.Elem(), m.vals[m.idx[kk]], app)
		}
		return app(in, b, vStr("}"))
	case kAgg:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		l := in.layout(t)
		cs := aggCells(v)
		b = app(in, b, vStr("{"))
		first := true
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() {
				continue
			}
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			name := f.Name()
			if tag[0] == "-" {
				continue
			}
			if tag[0] != "" {
				name = tag[0]
			}
			fl := in.layout(f.Type())
			fv := fromCells(fl, cs[l.fields[i]:l.fields[i]+fl.n])
			if len(tag) > 1 && tag[1] == "omitempty" && in.emptyVal(f.Type(), fv) {
				continue
			}
			kb, _ := json.Marshal(name)
			sep := ","
			if first {
				sep = ""
			}
			first = false
			b = app(in, b, vStr(sep+string(kb)+":"))
			b = in.jsonValue(b, f.Type(), fv, app)
		}
		return app(in, b, vStr("}"))
	}
	panic(in.unsup("json of " + t.String()))
}

func (in *Interp) emptyVal(t types.Type, v Value) bool {
	switch kindOf(t).kind {
	case kString:
		return in.strLen(v) == 0
	case kSlice:
		s, _ := v.R.(*SliceV)
		return s == nil || s.len == 0
	case kInt, kBool:
		return !in.truth(in.boolVal(in.tt.Not(in.term(in.equal(t, v, in.zero(t)), 0))))
	}
	return v.R == nil
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (in *Interp) mkFile(name string, data []Value) Value {
	ft := in.p.pkgs["os"].Type("File").Type()
	o := in.alloc(ft, "os.File")
	in.vf[o] = &vfile{name: name, data: data}
	return Value{R: o}
}

func (in *Interp) specialGlobal(g *ssa.Global, o *Object) {
	if g.Pkg == nil {
		return
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "os.Stdin", "os.Stdout", "os.Stderr":
		save := in.inBase
		in.inBase = true
		o.cells[0] = in.mkFile(g.Name(), nil)
		in.inBase = save
	case "os.Args":
		save := in.inBase
		in.inBase = true
		b := in.makeSlice(types.Typ[types.String], 1, 1)
		b.R.(*SliceV).obj.cells[0] = vStr("kagome")
		in.inBase = save
		o.cells[0] = b
	default:
		if skipInit[g.Pkg.Pkg.Path()] {
			in.errorGlobal(g, o)
		}
	}
}

// errorGlobal sets a variable, made by errors.New or the address of a structure
// of constants, of a package whose initialisation is skipped.
func (in *Interp) errorGlobal(g *ssa.Global, o *Object) {
	f := g.Pkg.Func("init")
	if f == nil {
		return
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			val, mk := st.Val, (*ssa.MakeInterface)(nil)
			if m, ok := val.(*ssa.MakeInterface); ok {
				val, mk = m.X, m
			}
			if a, ok := val.(*ssa.Alloc); ok && a.Heap {
				et := a.Type().Underlying().(*types.Pointer).Elem()
				stt, ok := et.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				save := in.inBase
				in.inBase = true
				l := in.layout(et)
				n := in.newObj(l.n, g.Name())
				in.zeroCells(et, n.cells)
				for _, r := range *a.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, r := range *fa.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
							if k, ok := s.Val.(*ssa.Const); ok && in.layout(stt.Field(fa.Field).Type()).n == 1 {
								n.cells[l.fields[fa.Field]] = in.constVal(k)
							}
						}
					}
				}
				in.inBase = save
				o.cells[0] = Value{R: n}
				if mk != nil {
					o.cells[0] = Value{R: &Iface{in.canonType(mk.X.Type()), Value{R: n}}}
				}
				continue
			}
			if u, ok := val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if x, ok := u.X.(*ssa.Global); ok && types.Identical(g.Type(), x.Type()) && in.layout(x.Type().(*types.Pointer).Elem()).n == 1 {
					o.cells[0] = in.global(x).cells[0]
				}
				continue
			}
			c, ok := val.(*ssa.Call)
			if !ok {
				continue
			}
			fn := c.Call.StaticCallee()
			if fn != nil && len(c.Call.Args) == 0 && fn.Signature.Results().Len() == 1 && fn.Signature.Results().At(0).Type().String() == "error" {
				save := in.inBase
				in.inBase = true
				o.cells[0] = in.call(fn, nil, nil)
				in.inBase = save
				continue
			}
			if fn == nil || fn.String() != "errors.New" {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				save := in.inBase
				in.inBase = true
				o.cells[0] = in.call(fn, []Value{vStr(constant.StringVal(k.Value))}, nil)
				in.inBase = save
			}
		}
	}
}

func (in *Interp) errorsIs(err, target Value) bool {
	t, _ := target.R.(*Iface)
	for err.R != nil && t != nil {
		e := err.R.(*Iface)
		if in.identical(e.t, t.t) && types.Comparable(e.t) && in.truth(in.equal(e.t, e.v, t.v)) {
			return true
		}
		if f := in.methodIf(e.t, "Is"); f != nil && in.truth(in.call(f, []Value{e.v, target}, nil)) {
			return true
		}
		f := in.methodIf(e.t, "Unwrap")
		if f == nil {
			return false
		}
		err = in.call(f, []Value{e.v}, nil)
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			for _, x := range in.sliceCells(err) {
				if x.R != nil && in.errorsIs(x, target) {
					return true
				}
			}
			return false
		}
	}
	return err.R == nil && t == nil
}

func (in *Interp) errorsAs(err, target Value) bool {
	t, _ := target.R.(*Iface)
	if t == nil {
		in.goPanic("errors: target cannot be nil")
	}
	want := t.t.Underlying().(*types.Pointer).Elem()
	for err.R != nil {
		e := err.R.(*Iface)
		it, isIf := want.Underlying().(*types.Interface)
		switch {
		case isIf && types.Implements(e.t, it):
			in.store(t.v, err, in.layout(want))
			return true
		case !isIf && in.identical(e.t, want):
			in.store(t.v, e.v, in.layout(want))
			return true
		}
		if f := in.methodIf(e.t, "As"); f != nil && in.truth(in.call(f, []Value{e.v, target}, nil)) {
			return true
		}
		f := in.methodIf(e.t, "Unwrap")
		if f == nil {
			return false
		}
		err = in.call(f, []Value{e.v}, nil)
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			for _, x := range in.sliceCells(err) {
				if x.R != nil && in.errorsAs(x, target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// zipErr is the error of opening what is no archive.
func (in *Interp) zipErr(n string, ok bool) Value {
	switch {
	case in.dirs[n]:
		return in.pathErr("read", n, in.errno(syscall.EISDIR))
	case !ok:
		return in.pathErr("open", n, in.errno(syscall.ENOENT))
	}
	return in.globalVal("archive/zip", "ErrFormat")
}

func (in *Interp) methodIf(t types.Type, name string) *ssa.Function {
	if in.p.prog.MethodSets.MethodSet(t).Lookup(nil, name) == nil {
		return nil
	}
	return in.method(t, name, nil)
}

// inject stores val in the first field of *dst (embedded structs included)
// whose type is val's.
func (in *Interp) inject(dst, val Value) bool {
	d, _ := dst.R.(*Iface)
	v, _ := val.R.(*Iface)
	if d == nil || v == nil {
		return false
	}
	pt, ok := d.t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	var find func(t types.Type, off int) int
	find = func(t types.Type, off int) int {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return -1
		}
		l := in.layout(t)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if in.identical(ft, v.t) {
				return off + l.fields[i]
			}
			if r := find(ft, off+l.fields[i]); r >= 0 {
				return r
			}
		}
		return -1
	}
	off := find(pt.Elem(), 0)
	if off < 0 {
		return false
	}
	in.store(Value{R: d.v.R, N: d.v.N + uint64(off)}, v.v, in.layout(v.t))
	return true
}

// ---- sync.Pool

func poolGet(in *Interp, fn *ssa.Function, a []Value) Value {
	o := pk(a[0]).o
	if o == nil {
		in.nilDeref()
	}
	ps := in.pools[o]
	var v Value
	got := false
	if ps != nil {
		if ps.hasPriv {
			v, got = ps.private, true
			ps.private, ps.hasPriv = Value{}, false
		} else if n := len(ps.shared); n > 0 {
			v, got = ps.shared[n-1], true
			ps.shared = ps.shared[:n-1]
		}
	}
	if got {
		in.markReleased(v, false)
		return v
	}
	st := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	u := st.Underlying().(*types.Struct)
	l := in.layout(st)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "New" {
			f := o.cells[int(a[0].N)+l.fields[i]]
			if f.R == nil {
				return Value{}
			}
			return in.callValue(f, nil)
		}
	}
	return Value{}
}

func poolPut(in *Interp, fn *ssa.Function, a []Value) Value {
	o := pk(a[0]).o
	if o == nil {
		in.nilDeref()
	}
	if a[1].R == nil {
		return Value{}
	}
	ps := in.pools[o]
	if ps == nil {
		ps = &poolState{}
		in.pools[o] = ps
	}
	if i := a[1].R.(*Iface); i.v.R != nil {
		if ob, ok := i.v.R.(*Object); ok && ob.released && in.mon.on {
			in.monEvent("memory is released to the pool twice (" + in.where() + ")")
		}
	}
	in.markReleased(a[1], true)
	if !ps.hasPriv {
		ps.private, ps.hasPriv = a[1], true
	} else {
		ps.shared = append(ps.shared, a[1])
	}
	return Value{}
}

func (in *Interp) markReleased(v Value, rel bool) {
	i, _ := v.R.(*Iface)
	if i == nil {
		return
	}
	o, _ := i.v.R.(*Object)
	if o == nil || o.base {
		return
	}
	o.released = rel
	for _, c := range o.cells {
		if s, ok := c.R.(*SliceV); ok && !s.obj.base && s.obj.id > in.mon.since {
			s.obj.released = rel
		}
	}
}

// ---- sync.Map

var anyType = types.NewInterfaceType(nil, nil).Complete()

// syncMap models sync.Map by a map that belongs to a synchronisation
// primitive.
func syncMap(m map[string]intrinsic) {
	mt := types.NewMap(anyType, anyType)
	get := func(in *Interp, p Value) *MapV {
		k := pk(p)
		if k.o == nil {
			in.nilDeref()
		}
		x := in.smaps[k]
		if x == nil {
			x = in.newMap()
			x.base = true // every change is undone
			in.smaps[k] = x
			if !in.inBase {
				in.undo = append(in.undo, undoRec{fn: func() { delete(in.smaps, k) }})
			}
		}
		return x
	}
	def := func(name string, f func(in *Interp, x *MapV, a []Value) Value) {
		m["(*sync.Map)."+name] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.mon.once++
			defer func() { in.mon.once-- }()
			return f(in, get(in, a[0]), a)
		}
	}
	def("Load", func(in *Interp, x *MapV, a []Value) Value {
		v, ok := in.mapGet(x, mt, a[1])
		return tuple(v, ok)
	})
	def("Store", func(in *Interp, x *MapV, a []Value) Value {
		in.mapSet(x, anyType, a[1], a[2])
		return Value{}
	})
	def("LoadOrStore", func(in *Interp, x *MapV, a []Value) Value {
		if v, ok := in.mapGet(x, mt, a[1]); in.truth(ok) {
			return tuple(v, vBool(true))
		}
		in.mapSet(x, anyType, a[1], a[2])
		return tuple(a[2], vBool(false))
	})
	def("Swap", func(in *Interp, x *MapV, a []Value) Value {
		v, ok := in.mapGet(x, mt, a[1])
		in.mapSet(x, anyType, a[1], a[2])
		return tuple(v, ok)
	})
	def("LoadAndDelete", func(in *Interp, x *MapV, a []Value) Value {
		v, ok := in.mapGet(x, mt, a[1])
		in.mapDelete(x, anyType, a[1])
		return tuple(v, ok)
	})
	def("Delete", func(in *Interp, x *MapV, a []Value) Value {
		in.mapDelete(x, anyType, a[1])
		return Value{}
	})
	def("Clear", func(in *Interp, x *MapV, a []Value) Value {
		for i, k := range append([]Value(nil), x.keys...) {
			if x.live[i] {
				in.mapDelete(x, anyType, k)
			}
		}
		return Value{}
	})
	m["(*sync.Map).Range"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		x := get(in, a[0])
		ks, vs, live := append([]Value(nil), x.keys...), append([]Value(nil), x.vals...), append([]bool(nil), x.live...)
		for i := range ks {
			if live[i] && !in.truth(in.callValue(a[1], []Value{ks[i], vs[i]})) {
				break
			}
		}
		return Value{}
	}
}

// copySlice copies the elements (of one cell) of a slice to a new object.
func (in *Interp) copySlice(v Value) *Object {
	c := in.sliceCells(v)
	o := in.newObj(len(c), "fresh")
	copy(o.cells, c)
	return o
}

// ---- ownership monitor

type monitor struct {
	on     bool
	since  int
	locks  int // locks held for writing
	rlocks int
	once   int // inside a sync.Once
	guard  map[guardKey]bool
}

type guardKey struct {
	o   *Object
	off int
}

func (in *Interp) monEvent(msg string) {
	in.candidate("monitor", msg, in.wit)
}

func (in *Interp) monWrite(o *Object, off int) {
	if !o.base && o.id > in.mon.since || in.mon.once > 0 || o.mu {
		return
	}
	if in.mon.locks > 0 {
		if in.mon.guard == nil {
			in.mon.guard = map[guardKey]bool{}
		}
		in.mon.guard[guardKey{o, off}] = true
		return
	}
	in.monEvent("shared memory (" + o.site + ") is written during an analysis (" + in.where() + ")")
}

func (in *Interp) monRead(o *Object, off, n int) {
	if o.released {
		in.monReleased(o, "read")
	}
	if len(in.mon.guard) == 0 || in.mon.locks+in.mon.rlocks+in.mon.once > 0 {
		return
	}
	for i := 0; i < n; i++ {
		if in.mon.guard[guardKey{o, off + i}] {
			in.monEvent("shared memory (" + o.site + ") that is written under a lock is read without it (" + in.where() + ")")
			return
		}
	}
}

func (in *Interp) monMap(m *MapV) {
	if in.mon.locks+in.mon.once > 0 || !m.base && m.id > in.mon.since {
		return
	}
	in.monEvent("a shared map is written during an analysis (" + in.where() + ")")
}

func (in *Interp) monReleased(o *Object, what string) {
	in.monEvent("released memory is used (" + what + ", " + in.where() + ")")
}

// ---- sync/atomic

func atomicIntr(fn *ssa.Function) (intrinsic, bool) {
	name := fn.Name()
	sig := fn.Signature
	isMethod := sig.Recv() != nil
	// address and element type
	elem := func(in *Interp, p Value) (Value, types.Type) {
		var t types.Type
		if isMethod {
			st := sig.Recv().Type().Underlying().(*types.Pointer).Elem()
			u, ok := st.Underlying().(*types.Struct)
			if !ok {
				return p, st
			}
			l := in.layout(st)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "v" {
					return Value{R: p.R, N: p.N + uint64(l.fields[i])}, u.Field(i).Type()
				}
			}
			panic(in.unsup("atomic type " + st.String()))
		}
		t = sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		return p, t
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p, t := elem(in, a[0])
			in.mon.rlocks++
			v := in.load(p, in.layout(t))
			in.mon.rlocks--
			if isMethod && kindOf(sig.Results().At(0).Type()).kind == kBool {
				return vBool(v.N != 0)
			}
			return v
		}, true
	case strings.HasPrefix(name, "Store"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p, t := elem(in, a[0])
			in.mon.locks++
			in.store(p, a[1], in.layout(t))
			in.mon.locks--
			return Value{}
		}, true
	case strings.HasPrefix(name, "Add"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p, t := elem(in, a[0])
			k := kindOf(t)
			v := in.scalar(in.tt.Bin(OpAdd, in.term(in.load(p, in.layout(t)), k.w), in.term(a[1], k.w)))
			in.mon.locks++
			in.store(p, v, in.layout(t))
			in.mon.locks--
			return v
		}, true
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p, t := elem(in, a[0])
			if !in.truth(in.equal(t, in.load(p, in.layout(t)), a[1])) {
				return vBool(false)
			}
			in.mon.locks++
			in.store(p, a[2], in.layout(t))
			in.mon.locks--
			return vBool(true)
		}, true
	case strings.HasPrefix(name, "Swap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p, t := elem(in, a[0])
			v := in.load(p, in.layout(t))
			in.mon.locks++
			in.store(p, a[1], in.layout(t))
			in.mon.locks--
			return v
		}, true
	}
	return nil, false
}
