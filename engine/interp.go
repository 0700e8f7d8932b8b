package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

var debugOn bool

type undoRec struct {
	obj *Object
	off int
	old Value
	fn  func()
}

// Interp executes SSA symbolically. One per worker.
type Interp struct {
	p   *Program
	tt  *TermTab
	sol *Solver
	st  *Stats
	ex  *Explorer

	layouts map[types.Type]*layout
	ident   map[[2]types.Type]bool
	impl    map[[2]types.Type]bool
	methods map[methKey]*ssa.Function
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Object
	inited  map[*ssa.Package]bool
	mergeOK map[*ssa.Function]int8
	noMerge map[*ssa.Function]int
	intr    map[string]intrinsic

	nextObj int
	inBase  bool
	undo    []undoRec
	memoWit []uint64
	memoGen int64

	// path state
	cx        *ctx
	open      []Item
	pc        []*Term
	pcSet     map[*Term]bool
	wit       []uint64
	vars      []*Term
	varNames  []string
	steps     int64
	maxSteps  int64
	depth     int
	frames    []*frame
	mark      []int32
	pcMark    []int32
	recent    [24][]uint64
	vs        vsets
	recentN   int
	localBase int // conditions before this one are left out in a merged call
	markGen   int32
	domModel  []uint64
	pools     map[*Object]*poolState
	obs       []obsRec
	files     map[string]Value // virtual files: name -> []byte as string value
	dirs      map[string]bool
	fileSeq   int
	reach     map[string]bool
	mon       monitor
	fresh     int // objects up to this one are restored at the end of sym.Fresh
	smaps     map[ptrKey]*MapV
	seen      map[*ssa.Function]bool // functions executed after Setup
	stackBuf  []Value
	loadW     []uint8
	widthC    map[types.Type][]uint8
	curDefer  *frame
	intrC     map[*ssa.Function]intrinsic
	canon     map[string]types.Type
	once      map[ptrKey]bool
	vf        map[*Object]*vfile
	stackTop  int
	sc        sched
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type obsRec struct {
	name string
	v    Value
	t    types.Type
}

type opnd struct {
	i int32 // register, or -1
	v Value
}

func (o *opnd) get(fr *frame) Value {
	if o.i >= 0 {
		return fr.r[o.i]
	}
	return o.v
}

type cblock struct {
	phis  []cphi
	ins   []func(fr *frame)
	pos   []token.Pos
	term  func(fr *frame) int // next block index, -1 return
	tpos  token.Pos
	preds map[int]int // pred block index -> edge number
}

type cphi struct {
	dst   int32
	edges []opnd
}

type cfunc struct {
	fn      *ssa.Function
	blocks  []*cblock
	nslots  int
	nparams int
	defers  bool
}

type deferred struct {
	fn   Value
	args []Value
	call func()
}

type frame struct {
	in     *Interp
	cf     *cfunc
	r      []Value
	prev   int
	ret    Value
	defers []deferred
	panicV *TPanic
	recov  bool
	caller *frame // for deferred calls: the frame that deferred it
	pos    token.Pos
	phibuf []Value
}

func newInterp(p *Program, ex *Explorer, st *Stats) *Interp {
	in := &Interp{p: p, ex: ex, st: st, tt: newTermTab(),
		layouts: map[types.Type]*layout{}, ident: map[[2]types.Type]bool{}, impl: map[[2]types.Type]bool{},
		methods: map[methKey]*ssa.Function{}, funcs: map[*ssa.Function]*cfunc{},
		globals: map[*ssa.Global]*Object{}, inited: map[*ssa.Package]bool{}, mergeOK: map[*ssa.Function]int8{}, noMerge: map[*ssa.Function]int{},
		pcSet: map[*Term]bool{}, pools: map[*Object]*poolState{}, files: map[string]Value{}, dirs: map[string]bool{}, reach: map[string]bool{},
		seen: map[*ssa.Function]bool{}, maxSteps: 20_000_000, widthC: map[types.Type][]uint8{}, intrC: map[*ssa.Function]intrinsic{}, canon: map[string]types.Type{}, once: map[ptrKey]bool{}, vf: map[*Object]*vfile{}, smaps: map[ptrKey]*MapV{}, stackBuf: make([]Value, 1<<18)}
	in.intr = intrinsics()
	return in
}

func (in *Interp) where() string {
	s := ""
	n := 0
	for i := len(in.frames) - 1; i >= 0 && n < 4; i-- {
		f := in.frames[i]
		if s != "" {
			s += " < "
		}
		s += f.cf.fn.String() + "@" + shortPos(in.p.pos(f.pos))
		n++
	}
	return s
}

func shortPos(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

// ---- memory

func (in *Interp) writeCell(o *Object, off int, v Value) {
	if !in.inBase {
		if o.base || o.id <= in.fresh {
			in.undo = append(in.undo, undoRec{obj: o, off: off, old: o.cells[off]})
		}
		if in.mon.on {
			in.monWrite(o, off)
		}
	}
	if o.released && in.mon.on {
		in.monReleased(o, "write")
	}
	o.cells[off] = v
	o.ver++
}

func (in *Interp) undoTo(n int) {
	for i := len(in.undo) - 1; i >= n; i-- {
		u := in.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			u.obj.cells[u.off] = u.old
			u.obj.ver++
		}
	}
	in.undo = in.undo[:n]
}

func (in *Interp) nilDeref() {
	in.goPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (in *Interp) load(p Value, l *layout) Value {
	switch o := p.R.(type) {
	case *Object:
		if in.mon.on {
			in.monRead(o, int(p.N), l.n)
		}
		off := int(p.N)
		if l.agg {
			return fromCells(l, o.cells[off:off+l.n])
		}
		return o.cells[off]
	case *SymPtr:
		return in.loadSym(o, l)
	case nil:
		in.nilDeref()
	}
	panic(in.unsup(fmt.Sprintf("load through %T", p.R)))
}

func (in *Interp) loadSym(p *SymPtr, l *layout) Value {
	if in.smallDomain(p.idx) {
		i := in.concretize(Value{R: p.idx}, 64)
		return in.load(Value{R: p.obj, N: uint64(p.base + int(i)*p.stride + p.off)}, l)
	}
	if !l.agg {
		if v, ok := in.tableRead(p, p.off); ok {
			return v
		}
	} else {
		c := make([]Value, l.n)
		all := true
		for i := range c {
			v, ok := in.tableRead(p, p.off+i)
			if !ok {
				all = false
				break
			}
			c[i] = v
		}
		if all {
			return Value{R: &Agg{c}}
		}
	}
	if rep, ok := in.sameElements(p, l.n); ok {
		return in.load(Value{R: p.obj, N: uint64(p.base + rep*p.stride + p.off)}, l)
	}
	i := in.concretize(Value{R: p.idx}, 64)
	return in.load(Value{R: p.obj, N: uint64(p.base + int(i)*p.stride + p.off)}, l)
}

// sameElements decides which of the different elements the address refers to,
// if many are the same, and gives the index of one such element.
func (in *Interp) sameElements(p *SymPtr, n int) (int, bool) {
	lo, hi := 0, p.n-1
	if p.idx.lo > uint64(lo) {
		lo = int(p.idx.lo)
	}
	if p.idx.hi < uint64(hi) {
		hi = int(p.idx.hi)
	}
	if hi-lo < 3 || hi-lo > 4096 {
		return 0, false
	}
	var reps []int
	cls := make([]uint64, hi-lo+1)
	for i := range cls {
		at := p.base + (lo+i)*p.stride + p.off
		k := 0
	next:
		for ; k < len(reps); k++ {
			r := p.base + reps[k]*p.stride + p.off
			for j := 0; j < n; j++ {
				if p.obj.cells[at+j] != p.obj.cells[r+j] {
					continue next
				}
			}
			break
		}
		if k == len(reps) {
			if len(reps) == 32 || len(reps) > len(cls)/2 {
				return 0, false
			}
			reps = append(reps, lo+i)
		}
		cls[i] = uint64(k)
	}
	idx := in.tt.Bin(OpSub, p.idx, in.tt.Const(uint64(lo), p.idx.w))
	k := in.concretize(in.scalar(in.tt.Table(cls, idx, 8)), 8)
	return reps[k], true
}

// smallDomain: the index can only take a few values on this path.
func (in *Interp) smallDomain(t *Term) bool {
	if t.hi-t.lo < 2 {
		return true
	}
	if len(t.vars) != 1 || in.vars[t.vars[0]].w != 8 {
		return false
	}
	d, _ := in.byteDom(t.vars[0])
	n := 0
	for i := range d {
		for x := d[i]; x != 0; x &= x - 1 {
			n++
		}
	}
	return n <= 12
}

func (in *Interp) tableRead(p *SymPtr, off int) (Value, bool) {
	o := p.obj
	lo, hi := 0, p.n-1
	if p.idx.lo > uint64(lo) {
		lo = int(p.idx.lo)
	}
	if p.idx.hi < uint64(hi) {
		hi = int(p.idx.hi)
	}
	if lo > hi {
		return Value{}, false
	}
	n := hi - lo + 1
	k := tabKey{p.base + lo*p.stride, p.stride, off, n}
	if e, ok := o.tabs[k]; ok && e.ver == o.ver {
		idx := in.tt.Bin(OpSub, p.idx, in.tt.Const(uint64(lo), p.idx.w))
		return in.scalar(in.tt.Table(e.vals, idx, in.cellWidth(o, p, off))), true
	}
	w := uint8(255)
	vals := make([]uint64, n)
	anySym := false
	for i := 0; i < n; i++ {
		c := o.cells[p.base+(lo+i)*p.stride+off]
		switch t := c.R.(type) {
		case nil:
			vals[i] = c.N
		case *Term:
			anySym = true
			w = t.w
		default:
			return Value{}, false
		}
	}
	if anySym {
		if n > 64 {
			return Value{}, false
		}
		t := in.term(o.cells[p.base+hi*p.stride+off], w)
		for i := hi - 1; i >= lo; i-- {
			t = in.tt.Ite(in.tt.Eq(p.idx, in.tt.Const(uint64(i), p.idx.w)), in.term(o.cells[p.base+i*p.stride+off], w), t)
		}
		return in.scalar(t), true
	}
	ew := in.cellWidth(o, p, off)
	if ew == 255 {
		return Value{}, false
	}
	if o.base {
		if o.tabs == nil {
			o.tabs = map[tabKey]tabEnt{}
		}
		o.tabs[k] = tabEnt{o.ver, vals}
	}
	idx := in.tt.Bin(OpSub, p.idx, in.tt.Const(uint64(lo), p.idx.w))
	return in.scalar(in.tt.Table(vals, idx, ew)), true
}

// cellWidth is the scalar width of the cell a symbolic load reads; set by the
// load instruction being executed.
func (in *Interp) cellWidth(o *Object, p *SymPtr, off int) uint8 {
	i := off - p.off
	if i < len(in.loadW) {
		return in.loadW[i]
	}
	return 255
}

func (in *Interp) store(p Value, v Value, l *layout) {
	switch o := p.R.(type) {
	case *Object:
		off := int(p.N)
		if l.agg {
			for i, c := range aggCells(v) {
				in.writeCell(o, off+i, c)
			}
			return
		}
		in.writeCell(o, off, v)
		return
	case *SymPtr:
		in.store(in.concPtr(p), v, l)
		return
	case nil:
		in.nilDeref()
	}
	panic(in.unsup(fmt.Sprintf("store through %T", p.R)))
}

func (in *Interp) concPtr(p Value) Value {
	if s, ok := p.R.(*SymPtr); ok {
		i := in.concretize(Value{R: s.idx}, 64)
		return Value{R: s.obj, N: uint64(s.base + int(i)*s.stride + s.off)}
	}
	return p
}

// goPanic raises a run-time panic of the interpreted program.
func (in *Interp) goPanic(msg string) {
	panic(&TPanic{v: Value{R: &Iface{types.Typ[types.String], vStr(msg)}}, desc: msg, where: in.where()})
}

// ---- calls

func (in *Interp) call(fn *ssa.Function, args []Value, free []Value) Value {
	if f, ok := in.intrinsicFor(fn); ok {
		return f(in, fn, args)
	}
	if fn.Blocks == nil {
		panic(in.unsup("function without body: " + fn.String()))
	}
	if in.mergeable(fn) {
		return in.mergeCall(fn, args, free)
	}
	return in.run(fn, args, free)
}

func (in *Interp) callValue(f Value, args []Value) Value {
	c, ok := f.R.(*Closure)
	if !ok {
		in.nilDeref()
	}
	if c.host != nil {
		return c.host(in, args)
	}
	return in.call(c.fn, args, c.free)
}

func (in *Interp) run(fn *ssa.Function, args []Value, free []Value) Value {
	cf := in.compile(fn)
	if !in.inBase {
		in.seen[fn] = true
	}
	in.depth++
	if in.depth > 5000 {
		panic(&endPath{endSteps, "call depth"})
	}
	fr := &frame{in: in, cf: cf, prev: -1}
	top := in.stackTop
	if top+cf.nslots <= len(in.stackBuf) {
		fr.r = in.stackBuf[top : top+cf.nslots : top+cf.nslots]
	} else {
		fr.r = make([]Value, cf.nslots)
	}
	in.stackTop = top + cf.nslots
	copy(fr.r, args)
	copy(fr.r[cf.nparams:], free)
	in.frames = append(in.frames, fr)
	nf := len(in.frames)
	if cf.defers {
		in.runDeferring(fr)
	} else {
		in.exec(fr, 0)
	}
	in.frames = in.frames[:nf-1]
	in.depth--
	clear(fr.r)
	in.stackTop = top
	return fr.ret
}

func (in *Interp) exec(fr *frame, b int) {
	cf := fr.cf
	for b >= 0 {
		bl := cf.blocks[b]
		in.steps += int64(len(bl.ins)) + 1
		if in.steps > in.maxSteps {
			panic(&endPath{endSteps, "step limit in " + in.where()})
		}
		if len(bl.phis) > 0 {
			e := bl.preds[fr.prev]
			if len(bl.phis) == 1 {
				fr.r[bl.phis[0].dst] = bl.phis[0].edges[e].get(fr)
			} else {
				buf := fr.phibuf[:0]
				for i := range bl.phis {
					buf = append(buf, bl.phis[i].edges[e].get(fr))
				}
				for i := range bl.phis {
					fr.r[bl.phis[i].dst] = buf[i]
				}
				fr.phibuf = buf
			}
		}
		for i, f := range bl.ins {
			fr.pos = bl.pos[i]
			f(fr)
		}
		fr.pos = bl.tpos
		fr.prev = b
		b = bl.term(fr)
	}
}

func (in *Interp) runDeferring(fr *frame) {
	nf := len(in.frames)
	depth := in.depth
	top := in.stackTop
	try := func(f func()) (p *TPanic) {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*TPanic)
				if !ok {
					panic(r)
				}
				p = tp
				in.frames = in.frames[:nf]
				in.depth = depth
				in.stackTop = top
			}
		}()
		f()
		return nil
	}
	p := try(func() { in.exec(fr, 0) })
	for p != nil {
		fr.panicV = p
		fr.recov = false
		p = try(func() { in.runDefers(fr) })
		if p != nil {
			continue // a deferred call panicked: keep running the others
		}
		if !fr.recov {
			panic(fr.panicV)
		}
		fr.panicV = nil
		if fr.cf.fn.Recover != nil {
			p = try(func() { in.exec(fr, fr.cf.fn.Recover.Index) })
		} else {
			fr.ret = in.zero(fr.cf.fn.Signature.Results())
			if fr.cf.fn.Signature.Results().Len() == 1 {
				fr.ret = in.zero(fr.cf.fn.Signature.Results().At(0).Type())
			}
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.curDefer = fr
		d.call()
		in.curDefer = nil
	}
}

// ---- compilation

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := in.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn}
	in.funcs[fn] = cf
	done := false
	defer func() {
		if !done {
			delete(in.funcs, fn)
		}
	}()
	c := &compiler{in: in, cf: cf, slots: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		c.slot(p)
	}
	cf.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		c.slot(p)
	}
	for _, b := range fn.Blocks {
		cb := &cblock{preds: map[int]int{}}
		for i, p := range b.Preds {
			cb.preds[p.Index] = i
		}
		cf.blocks = append(cf.blocks, cb)
	}
	for i, b := range fn.Blocks {
		cb := cf.blocks[i]
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				ph := cphi{dst: c.slot(x)}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				cb.term = c.terminator(ins, b)
				cb.tpos = ins.Pos()
			default:
				f := c.instr(ins)
				if f != nil {
					cb.ins = append(cb.ins, f)
					cb.pos = append(cb.pos, ins.Pos())
				}
			}
		}
		if cb.term == nil {
			cb.term = func(fr *frame) int { panic(in.unsup("block without terminator")) }
		}
	}
	cf.nslots = len(c.slots)
	done = true
	return cf
}

type compiler struct {
	in    *Interp
	cf    *cfunc
	slots map[ssa.Value]int32
}

func (c *compiler) slot(v ssa.Value) int32 {
	if s, ok := c.slots[v]; ok {
		return s
	}
	s := int32(len(c.slots))
	c.slots[v] = s
	return s
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.in.constVal(x)}
	case *ssa.Function:
		return opnd{-1, Value{R: &Closure{fn: x}}}
	case *ssa.Global:
		return opnd{-1, Value{R: c.in.global(x)}}
	case *ssa.Builtin:
		return opnd{-1, Value{R: &Closure{}}}
	}
	return opnd{i: c.slot(v)}
}

func (in *Interp) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return in.zero(t)
	}
	k := kindOf(t)
	switch k.kind {
	case kInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(k.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(k.w)}
	case kBool:
		return vBool(constant.BoolVal(x.Value))
	case kString:
		return vStr(constant.StringVal(x.Value))
	case kFloat:
		f, _ := constant.Float64Val(x.Value)
		return floatVal(f, k.w)
	case kComplex:
		return Value{}
	}
	if _, ok := t.Underlying().(*types.Basic); ok && x.Value.Kind() == constant.Int {
		i, _ := constant.Int64Val(x.Value)
		return Value{N: uint64(i)}
	}
	panic(in.unsup("constant of type " + t.String()))
}

func floatVal(f float64, w uint8) Value {
	if w == 32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

func asFloat(v Value, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}

func (in *Interp) global(g *ssa.Global) *Object {
	if o, ok := in.globals[g]; ok {
		in.ensureInit(g.Pkg)
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	save := in.inBase
	in.inBase = true
	o := in.alloc(t, g.String())
	in.inBase = save
	in.globals[g] = o
	if v, ok := g.Object().(*types.Var); ok {
		if b, ok := in.p.embeds[v]; ok {
			if kindOf(t).kind == kString {
				o.cells[0] = vStr(string(b))
			} else {
				in.inBase = true
				o.cells[0] = in.bytesVal(in.strBytes(vStr(string(b))))
				in.inBase = save
			}
		}
	}
	in.ensureInit(g.Pkg)
	in.specialGlobal(g, o)
	return o
}

var skipInit = map[string]bool{"os": true, "errors": true, "runtime": true, "syscall": true, "time": true, "reflect": true, "net/http": true, "net": true,
	"internal/godebug": true, "internal/poll": true, "internal/cpu": true, "internal/bisect": true, "testing": true, "crypto": true, "math/rand": true,
	"unique": true, "sync": true, "internal/sync": true, "internal/abi": true, "log": true, "internal/testlog": true, "encoding/json": true,
	"net/textproto": true, "mime": true, "html/template": true, "text/template": true, "os/exec": true, "archive/zip": true, "compress/flate": true}

// ensureInit runs the variable initialisers of a package on first use.
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	sv := *in
	in.inBase = true
	in.depth = 0
	steps := in.steps
	savedFrames := in.frames
	in.frames = nil
	mon := in.mon.on
	in.mon.on = false
	defer func() {
		in.inBase = sv.inBase
		in.depth = sv.depth
		in.steps = steps
		in.frames = savedFrames
		in.mon.on = mon
		in.stackTop = sv.stackTop
	}()
	in.steps = -2_000_000_000
	in.run(f, nil, nil)
}

func (c *compiler) terminator(ins ssa.Instruction, b *ssa.BasicBlock) func(fr *frame) int {
	in := c.in
	switch x := ins.(type) {
	case *ssa.Jump:
		n := b.Succs[0].Index
		return func(fr *frame) int { return n }
	case *ssa.If:
		cond := c.op(x.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		return func(fr *frame) int {
			v := cond.get(fr)
			if v.R == nil {
				if v.N != 0 {
					return t
				}
				return f
			}
			if in.branch(v.R.(*Term)) {
				return t
			}
			return f
		}
	case *ssa.Return:
		ops := make([]opnd, len(x.Results))
		for i, r := range x.Results {
			ops[i] = c.op(r)
		}
		switch len(ops) {
		case 0:
			return func(fr *frame) int { return -1 }
		case 1:
			return func(fr *frame) int { fr.ret = ops[0].get(fr); return -1 }
		}
		return func(fr *frame) int {
			vs := make([]Value, len(ops))
			for i := range ops {
				vs[i] = ops[i].get(fr)
			}
			fr.ret = Value{R: &Tuple{vs}}
			return -1
		}
	case *ssa.Panic:
		o := c.op(x.X)
		return func(fr *frame) int {
			v := o.get(fr)
			panic(&TPanic{v: v, desc: "panic: " + in.panicText(v), where: in.where()})
		}
	}
	return nil
}

func (in *Interp) panicText(v Value) string {
	i, ok := v.R.(*Iface)
	if !ok {
		return "nil"
	}
	defer func() { recover() }()
	s := in.format(i.t, i.v, 'v', false)
	if t, ok := s.R.(string); ok {
		return t
	}
	return i.t.String()
}

func (c *compiler) instr(ins ssa.Instruction) func(fr *frame) {
	in := c.in
	var dst int32 = -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.slot(v)
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		site := x.Comment
		return func(fr *frame) { fr.r[dst] = Value{R: in.alloc(t, site)} }
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		l := in.layout(x.Val.Type())
		return func(fr *frame) { in.store(a.get(fr), v.get(fr), l) }
	case *ssa.FieldAddr:
		o := c.op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		off := in.layout(st).fields[x.Field]
		return func(fr *frame) {
			p := o.get(fr)
			switch b := p.R.(type) {
			case *Object:
				fr.r[dst] = Value{R: b, N: p.N + uint64(off)}
			case *SymPtr:
				q := *b
				q.off += off
				fr.r[dst] = Value{R: &q}
			case nil:
				in.nilDeref()
			default:
				panic(in.unsup(fmt.Sprintf("field address of %T", p.R)))
			}
		}
	case *ssa.Field:
		o := c.op(x.X)
		l := in.layout(x.X.Type())
		off := l.fields[x.Field]
		fl := in.layout(x.Type())
		return func(fr *frame) {
			cs := aggCells(o.get(fr))
			fr.r[dst] = fromCells(fl, cs[off:off+fl.n])
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Index:
		o, ix := c.op(x.X), c.op(x.Index)
		ik := kindOf(x.Index.Type())
		if kindOf(x.X.Type()).kind == kString {
			return func(fr *frame) { fr.r[dst] = in.strIndex(o.get(fr), ix.get(fr), ik) }
		}
		if kindOf(x.X.Type()).kind != kAgg {
			return func(fr *frame) { panic(in.unsup("index of " + x.X.Type().String())) }
		}
		at := x.X.Type().Underlying().(*types.Array)
		el := in.layout(at.Elem())
		lw := in.widths(at.Elem())
		return func(fr *frame) {
			cs := aggCells(o.get(fr))
			i := ix.get(fr)
			n := int(at.Len())
			in.boundsCheck(i, ik, n)
			if i.R == nil {
				fr.r[dst] = fromCells(el, cs[int(i.N)*el.n:int(i.N+1)*el.n])
				return
			}
			in.loadW = lw
			tmp := &Object{cells: cs}
			fr.r[dst] = in.loadSym(&SymPtr{obj: tmp, stride: el.n, n: n, idx: in.to64(i, ik)}, el)
		}
	case *ssa.Lookup:
		return c.lookup(x, dst)
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.r[dst] = o.get(fr).R.(*Tuple).v[i] }
	case *ssa.ChangeType, *ssa.ChangeInterface:
		o := c.op(*ins.Operands(nil)[0])
		return func(fr *frame) { fr.r[dst] = o.get(fr) }
	case *ssa.Convert:
		return c.convert(x, dst)
	case *ssa.MultiConvert:
		return func(fr *frame) { panic(in.unsup("multi-convert")) }
	case *ssa.MakeInterface:
		o := c.op(x.X)
		t := x.X.Type()
		return func(fr *frame) { fr.r[dst] = Value{R: &Iface{t, o.get(fr)}} }
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		ops := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			ops[i] = c.op(b)
		}
		return func(fr *frame) {
			free := make([]Value, len(ops))
			for i := range ops {
				free[i] = ops[i].get(fr)
			}
			fr.r[dst] = Value{R: &Closure{fn: fn, free: free}}
		}
	case *ssa.MakeSlice:
		ln, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lk, ck := kindOf(x.Len.Type()), kindOf(x.Cap.Type())
		return func(fr *frame) {
			n := int(int64(in.toInt(ln.get(fr), lk)))
			m := int(int64(in.toInt(cp.get(fr), ck)))
			if n < 0 || m < n || m > 1<<26 {
				in.goPanic("runtime error: makeslice: len out of range")
			}
			fr.r[dst] = in.makeSlice(et, n, m)
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.r[dst] = Value{R: in.newMap()} }
	case *ssa.MakeChan:
		sz := c.op(x.Size)
		return func(fr *frame) { fr.r[dst] = Value{R: &ChanV{cap: int(sz.get(fr).N)}} }
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mv, ok := m.get(fr).R.(*MapV)
			if !ok {
				in.goPanic("assignment to entry in nil map")
			}
			in.mapSet(mv, kt, k.get(fr), v.get(fr))
		}
	case *ssa.Range:
		o := c.op(x.X)
		isStr := kindOf(x.X.Type()).kind == kString
		return func(fr *frame) {
			v := o.get(fr)
			it := &Iter{isStr: isStr, str: v}
			if !isStr {
				it.m, _ = v.R.(*MapV)
			}
			fr.r[dst] = Value{R: it}
		}
	case *ssa.Next:
		o := c.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		return func(fr *frame) {
			it := o.get(fr).R.(*Iter)
			fr.r[dst] = in.iterNext(it, tt)
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	case *ssa.Call:
		return c.call(&x.Call, dst, x)
	case *ssa.Defer:
		f := c.prepCall(&x.Call, x)
		c.cf.defers = true
		return func(fr *frame) {
			g := f(fr)
			fr.defers = append(fr.defers, deferred{call: func() { g() }})
		}
	case *ssa.RunDefers:
		c.cf.defers = true
		return func(fr *frame) { in.runDefers(fr) }
	case *ssa.Go:
		f := c.prepCall(&x.Call, x)
		name := x.Call.Value.Name()
		if x.Call.IsInvoke() {
			name = x.Call.Method.Name()
		}
		return func(fr *frame) {
			g := f(fr)
			in.spawn(name, false, func() { g() })
		}
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := o.get(fr).R.(*SliceV)
			if s == nil {
				if n > 0 {
					in.goPanic("slice to array pointer: length")
				}
				fr.r[dst] = Value{}
				return
			}
			if s.len < n {
				in.goPanic("slice to array pointer: length")
			}
			fr.r[dst] = Value{R: s.obj, N: uint64(s.off)}
		}
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) {
			cv, _ := ch.get(fr).R.(*ChanV)
			in.chanSend(cv, v.get(fr))
		}
	case *ssa.Select:
		return c.selectStmt(x, dst)
	}
	s := fmt.Sprintf("instruction %T", ins)
	return func(fr *frame) { panic(in.unsup(s)) }
}

// widths of the cells of a type, for table reads (255: not a scalar).
func (in *Interp) widths(t types.Type) []uint8 {
	if w, ok := in.widthC[t]; ok {
		return w
	}
	var r []uint8
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, in.widths(u.Field(i).Type())...)
		}
	case *types.Array:
		if u.Len() <= 64 {
			e := in.widths(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				r = append(r, e...)
			}
		}
	default:
		k := kindOf(t)
		if k.kind == kInt || k.kind == kBool {
			r = []uint8{k.w}
		} else {
			r = []uint8{255}
		}
	}
	in.widthC[t] = r
	return r
}

func (in *Interp) to64(v Value, k typeInfo) *Term {
	t := in.term(v, k.w)
	if k.signed {
		return in.tt.Sext(t, 64)
	}
	return in.tt.Zext(t, 64)
}

// toInt gives a concrete integer as a 64-bit value, sign-extended.
func (in *Interp) toInt(v Value, k typeInfo) uint64 {
	n := in.concretize(v, k.w)
	if k.signed {
		return uint64(sext(n, k.w))
	}
	return n
}

// boundsCheck panics (in the program) unless 0 <= i < n.
func (in *Interp) boundsCheck(i Value, k typeInfo, n int) {
	if i.R == nil {
		x := i.N
		if k.signed {
			x = uint64(sext(x, k.w))
		}
		if x >= uint64(n) {
			in.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(x), n))
		}
		return
	}
	t := in.to64(i, k)
	if !in.branch(in.tt.Ult(t, in.tt.Const(uint64(n), 64))) {
		in.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (in *Interp) strIndex(s, i Value, k typeInfo) Value {
	n := in.strLen(s)
	in.boundsCheck(i, k, n)
	if i.R == nil {
		return in.strAt(s, int(i.N))
	}
	tmp := &Object{cells: in.strBytes(s)}
	in.loadW = []uint8{8}
	return in.loadSym(&SymPtr{obj: tmp, stride: 1, n: n, idx: in.to64(i, k)}, &layout{n: 1})
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int32) func(fr *frame) {
	in := c.in
	o, ix := c.op(x.X), c.op(x.Index)
	ik := kindOf(x.Index.Type())
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := p.Elem().Underlying().(*types.Array)
		el := in.layout(at.Elem())
		n := int(at.Len())
		return func(fr *frame) {
			p := in.concPtr(o.get(fr))
			ob, ok := p.R.(*Object)
			if !ok {
				in.nilDeref()
			}
			i := ix.get(fr)
			in.boundsCheck(i, ik, n)
			if i.R == nil {
				fr.r[dst] = Value{R: ob, N: p.N + i.N*uint64(el.n)}
				return
			}
			fr.r[dst] = Value{R: &SymPtr{obj: ob, base: int(p.N), stride: el.n, n: n, idx: in.to64(i, ik)}}
		}
	}
	return func(fr *frame) {
		s, _ := o.get(fr).R.(*SliceV)
		i := ix.get(fr)
		n := 0
		if s != nil {
			n = s.len
		}
		in.boundsCheck(i, ik, n)
		if i.R == nil {
			fr.r[dst] = Value{R: s.obj, N: uint64(s.off) + i.N*uint64(s.es)}
			return
		}
		fr.r[dst] = Value{R: &SymPtr{obj: s.obj, base: s.off, stride: s.es, n: s.len, idx: in.to64(i, ik)}}
	}
}

func (c *compiler) unop(x *ssa.UnOp, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	k := kindOf(x.Type())
	switch x.Op {
	case token.MUL:
		l := in.layout(x.Type())
		lw := in.widths(x.Type())
		return func(fr *frame) {
			p := o.get(fr)
			if ob, ok := p.R.(*Object); ok && !l.agg && !ob.released {
				fr.r[dst] = ob.cells[p.N]
				return
			}
			in.loadW = lw
			fr.r[dst] = in.load(p, l)
		}
	case token.NOT:
		return func(fr *frame) {
			v := o.get(fr)
			if v.R == nil {
				fr.r[dst] = Value{N: 1 - v.N}
			} else {
				fr.r[dst] = in.boolVal(in.tt.Not(v.R.(*Term)))
			}
		}
	case token.SUB:
		if k.kind == kFloat {
			return func(fr *frame) { fr.r[dst] = floatVal(-asFloat(o.get(fr), k.w), k.w) }
		}
		return func(fr *frame) {
			v := o.get(fr)
			if v.R == nil {
				fr.r[dst] = Value{N: -v.N & mask(k.w)}
			} else {
				fr.r[dst] = in.scalar(in.tt.Bin(OpSub, in.tt.Const(0, k.w), v.R.(*Term)))
			}
		}
	case token.XOR:
		return func(fr *frame) {
			v := o.get(fr)
			if v.R == nil {
				fr.r[dst] = Value{N: ^v.N & mask(k.w)}
			} else {
				fr.r[dst] = in.scalar(in.tt.Bin(OpBXor, v.R.(*Term), in.tt.Const(mask(k.w), k.w)))
			}
		}
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			cv, _ := o.get(fr).R.(*ChanV)
			v, ok := in.chanRecv(cv)
			if !ok {
				v = in.zero(et)
			}
			if x.CommaOk {
				v = Value{R: &Tuple{[]Value{v, vBool(ok)}}}
			}
			fr.r[dst] = v
		}
	}
	return func(fr *frame) { panic(in.unsup("unary " + x.Op.String())) }
}

func (c *compiler) binop(x *ssa.BinOp, dst int32) func(fr *frame) {
	in := c.in
	a, b := c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	k := kindOf(t)
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		// the operand with the non-nil static type decides
		if kindOf(t).kind == kOther || isNilConst(x.X) {
			t = x.Y.Type()
		}
		neg := op == token.NEQ
		k = kindOf(t)
		if k.kind == kIface && kindOf(x.Y.Type()).kind != kIface && !isNilConst(x.Y) || kindOf(x.Y.Type()).kind == kIface && k.kind != kIface && !isNilConst(x.X) {
			return func(fr *frame) { panic(in.unsup("mixed interface comparison")) }
		}
		return func(fr *frame) {
			v := in.equal(t, a.get(fr), b.get(fr))
			if neg {
				if v.R == nil {
					v.N = 1 - v.N
				} else {
					v = in.boolVal(in.tt.Not(v.R.(*Term)))
				}
			}
			fr.r[dst] = v
		}
	}
	switch k.kind {
	case kString:
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.r[dst] = in.concat(a.get(fr), b.get(fr)) }
		case token.LSS:
			return func(fr *frame) { fr.r[dst] = in.strLess(a.get(fr), b.get(fr)) }
		case token.GTR:
			return func(fr *frame) { fr.r[dst] = in.strLess(b.get(fr), a.get(fr)) }
		case token.LEQ, token.GEQ:
			return func(fr *frame) {
				p, q := a.get(fr), b.get(fr)
				if op == token.LEQ {
					p, q = q, p
				}
				v := in.strLess(p, q)
				fr.r[dst] = in.boolVal(in.tt.Not(in.term(v, 0)))
			}
		}
	case kFloat:
		return func(fr *frame) {
			p, q := asFloat(a.get(fr), k.w), asFloat(b.get(fr), k.w)
			switch op {
			case token.ADD:
				fr.r[dst] = floatVal(p+q, k.w)
			case token.SUB:
				fr.r[dst] = floatVal(p-q, k.w)
			case token.MUL:
				fr.r[dst] = floatVal(p*q, k.w)
			case token.QUO:
				fr.r[dst] = floatVal(p/q, k.w)
			case token.LSS:
				fr.r[dst] = vBool(p < q)
			case token.GTR:
				fr.r[dst] = vBool(p > q)
			case token.LEQ:
				fr.r[dst] = vBool(p <= q)
			case token.GEQ:
				fr.r[dst] = vBool(p >= q)
			default:
				panic(in.unsup("float " + op.String()))
			}
		}
	case kBool:
		return func(fr *frame) {
			p, q := in.term(a.get(fr), 0), in.term(b.get(fr), 0)
			switch op {
			case token.AND, token.LAND:
				fr.r[dst] = in.boolVal(in.tt.And(p, q))
			case token.OR, token.LOR:
				fr.r[dst] = in.boolVal(in.tt.Or(p, q))
			default:
				panic(in.unsup("bool " + op.String()))
			}
		}
	case kInt:
		yk := kindOf(x.Y.Type())
		return func(fr *frame) { fr.r[dst] = in.arith(op, k, yk, a.get(fr), b.get(fr)) }
	}
	return func(fr *frame) { panic(in.unsup("binary " + op.String() + " on " + t.String())) }
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (in *Interp) arith(op token.Token, k, yk typeInfo, a, b Value) Value {
	w := k.w
	if a.R == nil && b.R == nil {
		x, y := a.N, b.N
		m := mask(w)
		switch op {
		case token.ADD:
			return Value{N: (x + y) & m}
		case token.SUB:
			return Value{N: (x - y) & m}
		case token.MUL:
			return Value{N: (x * y) & m}
		case token.QUO, token.REM:
			if y == 0 {
				in.goPanic("runtime error: integer divide by zero")
			}
			o := OpUDiv
			switch {
			case op == token.QUO && k.signed:
				o = OpSDiv
			case op == token.REM && k.signed:
				o = OpSRem
			case op == token.REM:
				o = OpURem
			}
			return Value{N: evalOp(o, w, x, y)}
		case token.AND:
			return Value{N: x & y}
		case token.OR:
			return Value{N: x | y}
		case token.XOR:
			return Value{N: x ^ y}
		case token.AND_NOT:
			return Value{N: x &^ y}
		case token.SHL, token.SHR:
			if yk.signed && sext(y, yk.w) < 0 {
				in.goPanic("runtime error: negative shift amount")
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if k.signed {
					o = OpAshr
				}
			}
			return Value{N: evalOp(o, w, x, y)}
		case token.LSS:
			if k.signed {
				return vBool(sext(x, w) < sext(y, w))
			}
			return vBool(x < y)
		case token.LEQ:
			if k.signed {
				return vBool(sext(x, w) <= sext(y, w))
			}
			return vBool(x <= y)
		case token.GTR:
			if k.signed {
				return vBool(sext(x, w) > sext(y, w))
			}
			return vBool(x > y)
		case token.GEQ:
			if k.signed {
				return vBool(sext(x, w) >= sext(y, w))
			}
			return vBool(x >= y)
		}
		panic(in.unsup("int " + op.String()))
	}
	tt := in.tt
	x := in.term(a, w)
	if op == token.SHL || op == token.SHR {
		y := in.term(b, yk.w)
		if yk.signed && y.op != OpConst {
			if in.branch(tt.Slt(y, tt.Const(0, yk.w))) {
				in.goPanic("runtime error: negative shift amount")
			}
		}
		switch {
		case yk.w < w:
			y = tt.Zext(y, w)
		case yk.w > w:
			big := tt.Not(tt.Ult(y, tt.Const(uint64(w), yk.w)))
			y = tt.Ite(big, tt.Const(uint64(w), w), tt.Trunc(y, w))
		}
		o := OpShl
		if op == token.SHR {
			o = OpLshr
			if k.signed {
				o = OpAshr
			}
		}
		return in.scalar(tt.Bin(o, x, y))
	}
	y := in.term(b, w)
	lt := tt.Ult
	if k.signed {
		lt = tt.Slt
	}
	switch op {
	case token.ADD:
		return in.scalar(tt.Bin(OpAdd, x, y))
	case token.SUB:
		return in.scalar(tt.Bin(OpSub, x, y))
	case token.MUL:
		return in.scalar(tt.Bin(OpMul, x, y))
	case token.QUO, token.REM:
		if in.branch(tt.Eq(y, tt.Const(0, w))) {
			in.goPanic("runtime error: integer divide by zero")
		}
		o := OpUDiv
		switch {
		case op == token.QUO && k.signed:
			o = OpSDiv
		case op == token.REM && k.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return in.scalar(tt.Bin(o, x, y))
	case token.AND:
		return in.scalar(tt.Bin(OpBAnd, x, y))
	case token.OR:
		return in.scalar(tt.Bin(OpBOr, x, y))
	case token.XOR:
		return in.scalar(tt.Bin(OpBXor, x, y))
	case token.AND_NOT:
		return in.scalar(tt.Bin(OpBAnd, x, tt.Bin(OpBXor, y, tt.Const(mask(w), w))))
	case token.LSS:
		return in.boolVal(lt(x, y))
	case token.GTR:
		return in.boolVal(lt(y, x))
	case token.LEQ:
		return in.boolVal(tt.Not(lt(y, x)))
	case token.GEQ:
		return in.boolVal(tt.Not(lt(x, y)))
	}
	panic(in.unsup("int " + op.String()))
}

func (in *Interp) bytesVal(b []Value) Value {
	o := in.newObj(len(b), "bytes")
	copy(o.cells, b)
	return Value{R: &SliceV{obj: o, len: len(b), cap: len(b), es: 1}}
}

func (in *Interp) makeSlice(et types.Type, n, m int) Value {
	l := in.layout(et)
	o := in.newObj(l.n*m, "make")
	if l.n > 0 && m > 0 {
		in.zeroCells(et, o.cells[:l.n])
		if !(l.n == 1 && o.cells[0] == Value{}) {
			for i := l.n; i < len(o.cells); i += l.n {
				copy(o.cells[i:i+l.n], o.cells[:l.n])
			}
		}
	}
	return Value{R: &SliceV{obj: o, len: n, cap: m, es: l.n}}
}

func (in *Interp) sliceCells(v Value) []Value {
	s, _ := v.R.(*SliceV)
	if s == nil {
		return nil
	}
	if s.obj.released && in.mon.on {
		in.monReleased(s.obj, "read")
	}
	return s.obj.cells[s.off : s.off+s.len*s.es]
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	fk, tk := kindOf(from), kindOf(to)
	switch {
	case fk.kind == kInt && tk.kind == kInt:
		if v.R == nil {
			n := v.N
			if fk.signed {
				n = uint64(sext(n, fk.w))
			}
			return Value{N: n & mask(tk.w)}
		}
		t := v.R.(*Term)
		switch {
		case tk.w < fk.w:
			return in.scalar(in.tt.Trunc(t, tk.w))
		case tk.w > fk.w && fk.signed:
			return in.scalar(in.tt.Sext(t, tk.w))
		}
		return in.scalar(in.tt.Zext(t, tk.w))
	case fk.kind == kInt && tk.kind == kFloat:
		n := in.concretize(v, fk.w)
		if fk.signed {
			return floatVal(float64(sext(n, fk.w)), tk.w)
		}
		return floatVal(float64(n), tk.w)
	case fk.kind == kFloat && tk.kind == kInt:
		f := asFloat(v, fk.w)
		if tk.signed {
			return Value{N: uint64(int64(f)) & mask(tk.w)}
		}
		return Value{N: uint64(f) & mask(tk.w)}
	case fk.kind == kFloat && tk.kind == kFloat:
		return floatVal(asFloat(v, fk.w), tk.w)
	case fk.kind == kString && tk.kind == kString:
		return v
	case fk.kind == kPtr && tk.kind == kPtr:
		return v
	case fk.kind == kPtr && tk.kind == kInt: // unsafe.Pointer to uintptr
		if v.R == nil {
			return Value{}
		}
		if o, ok := v.R.(*Object); ok {
			return Value{N: uint64(o.id)<<20 + v.N}
		}
	case fk.kind == kInt && tk.kind == kString:
		n := v
		if fk.w != 32 || !fk.signed {
			n = in.convert(from, types.Typ[types.Int32], v)
		}
		return in.runeToStr(n)
	case fk.kind == kString && tk.kind == kSlice:
		et := kindOf(to.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return in.bytesVal(in.strBytes(v))
		}
		var rs []Value
		for i := 0; i < in.strLen(v); {
			r, n := in.decodeRune(v, i)
			rs = append(rs, r)
			i += n
		}
		return in.bytesVal(rs)
	case fk.kind == kSlice && tk.kind == kString:
		et := kindOf(from.Underlying().(*types.Slice).Elem())
		cs := in.sliceCells(v)
		if et.w == 8 {
			d := make([]Value, len(cs))
			copy(d, cs)
			return mkStr(d)
		}
		var parts []Value
		for _, r := range cs {
			parts = append(parts, in.runeToStr(r))
		}
		return in.concat(parts...)
	}
	panic(in.unsup("conversion " + from.String() + " to " + to.String()))
}

func (in *Interp) runeToStr(r Value) Value {
	if r.R == nil {
		return vStr(string(rune(int32(r.N))))
	}
	f := in.p.pkgs["unicode/utf8"].Func("AppendRune")
	s := in.call(f, []Value{{}, r}, nil)
	d := in.sliceCells(s)
	return mkStr(append([]Value(nil), d...))
}

// decodeRune decodes the rune of string s at byte i.
func (in *Interp) decodeRune(s Value, i int) (Value, int) {
	b := in.strAt(s, i)
	if b.R == nil && b.N < 0x80 {
		return b, 1
	}
	f := in.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	t := in.call(f, []Value{in.strSlice(s, i, in.strLen(s))}, nil).R.(*Tuple)
	return t.v[0], int(in.concretize(t.v[1], 64))
}

func (c *compiler) convert(x *ssa.Convert, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	from, to := x.X.Type(), x.Type()
	fk, tk := kindOf(from), kindOf(to)
	if fk.kind == kInt && tk.kind == kInt {
		return func(fr *frame) {
			v := o.get(fr)
			if v.R == nil {
				n := v.N
				if fk.signed {
					n = uint64(sext(n, fk.w))
				}
				fr.r[dst] = Value{N: n & mask(tk.w)}
				return
			}
			fr.r[dst] = in.convert(from, to, v)
		}
	}
	return func(fr *frame) { fr.r[dst] = in.convert(from, to, o.get(fr)) }
}

func (c *compiler) slice(x *ssa.Slice, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	get := func(v ssa.Value) func(fr *frame) (int, bool) {
		if v == nil {
			return func(fr *frame) (int, bool) { return 0, false }
		}
		p := c.op(v)
		k := kindOf(v.Type())
		return func(fr *frame) (int, bool) { return int(int64(in.toInt(p.get(fr), k))), true }
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	str := kindOf(x.X.Type()).kind == kString
	var at *types.Array
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at = p.Elem().Underlying().(*types.Array)
	}
	return func(fr *frame) {
		v := o.get(fr)
		l, _ := lo(fr)
		h, hok := hi(fr)
		m, mok := mx(fr)
		if str {
			n := in.strLen(v)
			if !hok {
				h = n
			}
			if l < 0 || h < l || h > n {
				in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.r[dst] = in.strSlice(v, l, h)
			return
		}
		var s SliceV
		if at != nil {
			p := in.concPtr(v)
			ob, ok := p.R.(*Object)
			if !ok {
				in.nilDeref()
			}
			s = SliceV{ob, int(p.N), int(at.Len()), int(at.Len()), in.layout(at.Elem()).n}
		} else if sv, ok := v.R.(*SliceV); ok {
			s = *sv
		} else {
			if !hok {
				h = 0
			}
			if l != 0 || h != 0 || mok && m != 0 {
				in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] of nil slice", l, h))
			}
			fr.r[dst] = Value{}
			return
		}
		if !hok {
			h = s.len
		}
		if !mok {
			m = s.cap
		}
		if l < 0 || h < l || m < h || m > s.cap {
			in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, s.cap))
		}
		fr.r[dst] = Value{R: &SliceV{s.obj, s.off + l*s.es, h - l, m - l, s.es}}
	}
}

func (c *compiler) lookup(x *ssa.Lookup, dst int32) func(fr *frame) {
	in := c.in
	o, ix := c.op(x.X), c.op(x.Index)
	if kindOf(x.X.Type()).kind == kString {
		ik := kindOf(x.Index.Type())
		return func(fr *frame) { fr.r[dst] = in.strIndex(o.get(fr), ix.get(fr), ik) }
	}
	mt := x.X.Type().Underlying().(*types.Map)
	return func(fr *frame) {
		m, _ := o.get(fr).R.(*MapV)
		v, ok := in.mapGet(m, mt, ix.get(fr))
		if x.CommaOk {
			fr.r[dst] = Value{R: &Tuple{[]Value{v, ok}}}
		} else {
			fr.r[dst] = v
		}
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	t := x.AssertedType
	toIface := types.IsInterface(t)
	var it *types.Interface
	if toIface {
		it = t.Underlying().(*types.Interface)
	}
	return func(fr *frame) {
		v := o.get(fr)
		i, _ := v.R.(*Iface)
		ok := false
		var r Value
		if i != nil {
			if toIface {
				ok = in.implements(i.t, t, it)
				r = v
			} else if ok = in.identical(i.t, t); ok {
				r = i.v
			}
		}
		if !ok {
			if !x.CommaOk {
				d := "nil"
				if i != nil {
					d = i.t.String()
				}
				in.goPanic("interface conversion: interface is " + d + ", not " + t.String())
			}
			r = in.zero(t)
		}
		if x.CommaOk {
			fr.r[dst] = Value{R: &Tuple{[]Value{r, vBool(ok)}}}
		} else {
			fr.r[dst] = r
		}
	}
}

func (in *Interp) implements(t, it types.Type, i *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := in.impl[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	in.impl[k] = r
	return r
}

func (in *Interp) method(t types.Type, name string, pkg *types.Package) *ssa.Function {
	k := methKey{t, name, nil}
	if !token.IsExported(name) {
		k.pkg = pkg
	}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.p.prog.LookupMethod(t, pkg, name)
	in.methods[k] = f
	return f
}

// prepCall evaluates callee and arguments and returns the call itself.
func (c *compiler) prepCall(cc *ssa.CallCommon, site ssa.Instruction) func(fr *frame) func() Value {
	in := c.in
	ops := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		ops[i] = c.op(a)
	}
	eval := func(fr *frame, extra int) []Value {
		args := make([]Value, extra, extra+len(ops))
		for i := range ops {
			args = append(args, ops[i].get(fr))
		}
		return args
	}
	if cc.IsInvoke() {
		rcv := c.op(cc.Value)
		return func(fr *frame) func() Value {
			i, _ := rcv.get(fr).R.(*Iface)
			if i == nil {
				in.nilDeref()
			}
			f := in.method(i.t, cc.Method.Name(), cc.Method.Pkg())
			if f == nil {
				panic(in.unsup("method " + cc.Method.Name() + " of " + i.t.String()))
			}
			args := eval(fr, 1)
			args[0] = i.v
			return func() Value { return in.call(f, args, nil) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		name := b.Name()
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		var rt types.Type
		if v, ok := site.(ssa.Value); ok {
			rt = v.Type()
		}
		return func(fr *frame) func() Value {
			args := eval(fr, 0)
			return func() Value { return in.builtin(fr, name, ats, rt, args) }
		}
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		return func(fr *frame) func() Value {
			args := eval(fr, 0)
			return func() Value { return in.call(f, args, nil) }
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) func() Value {
		f := fv.get(fr)
		args := eval(fr, 0)
		return func() Value { return in.callValue(f, args) }
	}
}

func (c *compiler) call(cc *ssa.CallCommon, dst int32, site *ssa.Call) func(fr *frame) {
	in := c.in
	if f, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		ops := make([]opnd, len(cc.Args))
		for i, a := range cc.Args {
			ops[i] = c.op(a)
		}
		if f.Synthetic == "package initializer" {
			return func(fr *frame) {} // other packages are initialised on first use
		}
		return func(fr *frame) {
			args := make([]Value, len(ops))
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			fr.r[dst] = in.call(f, args, nil)
		}
	}
	p := c.prepCall(cc, site)
	return func(fr *frame) { fr.r[dst] = p(fr)() }
}

func (in *Interp) iterNext(it *Iter, tt *types.Tuple) Value {
	if it.isStr {
		n := in.strLen(it.str)
		if it.pos >= n {
			return Value{R: &Tuple{[]Value{{}, {}, {}}}}
		}
		r, sz := in.decodeRune(it.str, it.pos)
		p := it.pos
		it.pos += sz
		return Value{R: &Tuple{[]Value{{N: 1}, vInt(p), r}}}
	}
	for it.m != nil && it.pos < len(it.m.keys) {
		i := it.pos
		it.pos++
		if it.m.live[i] {
			return Value{R: &Tuple{[]Value{{N: 1}, it.m.keys[i], it.m.vals[i]}}}
		}
	}
	z := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return Value{}
		}
		return in.zero(tt.At(i).Type())
	}
	return Value{R: &Tuple{[]Value{{}, z(1), z(2)}}}
}

// ---- maps

func (in *Interp) newMap() *MapV {
	in.nextObj++
	return &MapV{idx: map[string]int{}, base: in.inBase, id: in.nextObj}
}

// keyStr is a hashable form of a concrete key; ok is false for symbolic ones.
func (in *Interp) keyStr(t types.Type, v Value) (string, bool) {
	switch kindOf(t).kind {
	case kInt, kBool, kFloat:
		if v.R != nil {
			return "", false
		}
		return fmt.Sprint(v.N), true
	case kString:
		s, ok := v.R.(string)
		return s, ok
	case kPtr:
		v = in.concPtr(v)
		o, _ := v.R.(*Object)
		if o == nil {
			return "nil", true
		}
		return fmt.Sprintf("%d+%d", o.id, v.N), true
	case kIface:
		i, _ := v.R.(*Iface)
		if i == nil {
			return "nil", true
		}
		s, ok := in.keyStr(i.t, i.v)
		return i.t.String() + ":" + s, ok
	case kAgg:
		r := ""
		cs := aggCells(v)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			l := in.layout(t)
			for i := 0; i < u.NumFields(); i++ {
				fl := in.layout(u.Field(i).Type())
				s, ok := in.keyStr(u.Field(i).Type(), fromCells(fl, cs[l.fields[i]:l.fields[i]+fl.n]))
				if !ok {
					return "", false
				}
				r += fmt.Sprintf("%d:%s,", len(s), s)
			}
		case *types.Array:
			el := in.layout(u.Elem())
			for o := 0; o < len(cs); o += el.n {
				s, ok := in.keyStr(u.Elem(), fromCells(el, cs[o:o+el.n]))
				if !ok {
					return "", false
				}
				r += fmt.Sprintf("%d:%s,", len(s), s)
			}
		}
		return r, true
	case kChan:
		return fmt.Sprintf("%p", v.R), true
	}
	panic(in.unsup("map key type " + t.String()))
}

func (in *Interp) mapFind(m *MapV, kt types.Type, k Value) int {
	s, conc := in.keyStr(kt, k)
	if conc {
		if i, ok := m.idx[s]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c := in.keyStr(kt, m.keys[i]); c {
				continue
			}
		}
		if in.truth(in.equal(kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapGet(m *MapV, mt *types.Map, k Value) (Value, Value) {
	if m == nil {
		return in.zero(mt.Elem()), vBool(false)
	}
	if s, conc := in.keyStr(mt.Key(), k); conc && m.sym == 0 {
		if i, ok := m.idx[s]; ok {
			return m.vals[i], vBool(true)
		}
		return in.zero(mt.Elem()), vBool(false)
	}
	ek := kindOf(mt.Elem())
	el := in.layout(mt.Elem())
	if ek.kind == kInt || ek.kind == kBool || el.n == 0 {
		// merged lookup
		ok := in.tt.False
		z := in.zero(mt.Elem())
		var t *Term
		if el.n > 0 {
			t = in.term(z, ek.w)
		}
		for i := range m.keys {
			if !m.live[i] {
				continue
			}
			e := in.term(in.equal(mt.Key(), m.keys[i], k), 0)
			if e == in.tt.False {
				continue
			}
			ok = in.tt.Or(ok, e)
			if t != nil {
				t = in.tt.Ite(e, in.term(m.vals[i], ek.w), t)
			}
		}
		if t != nil {
			z = in.scalar(t)
		}
		return z, in.boolVal(ok)
	}
	if i := in.mapFind(m, mt.Key(), k); i >= 0 {
		return m.vals[i], vBool(true)
	}
	return in.zero(mt.Elem()), vBool(false)
}

func (in *Interp) mapTouch(m *MapV) {
	if in.mon.on && !in.inBase {
		in.monMap(m)
	}
	if (m.base || m.id <= in.fresh) && !in.inBase {
		c := *m
		c.keys = append([]Value(nil), m.keys...)
		c.vals = append([]Value(nil), m.vals...)
		c.live = append([]bool(nil), m.live...)
		c.idx = make(map[string]int, len(m.idx))
		for k, v := range m.idx {
			c.idx[k] = v
		}
		in.undo = append(in.undo, undoRec{fn: func() { *m = c }})
	}
}

func (in *Interp) mapSet(m *MapV, kt types.Type, k, v Value) {
	in.mapTouch(m)
	if i := in.mapFind(m, kt, k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
	if s, ok := in.keyStr(kt, k); ok {
		m.idx[s] = len(m.keys) - 1
	} else {
		m.sym++
	}
}

func (in *Interp) mapDelete(m *MapV, kt types.Type, k Value) {
	if m == nil {
		return
	}
	in.mapTouch(m)
	if i := in.mapFind(m, kt, k); i >= 0 {
		m.live[i] = false
		m.n--
		if s, ok := in.keyStr(kt, m.keys[i]); ok {
			delete(m.idx, s)
		} else {
			m.sym--
		}
	}
}
