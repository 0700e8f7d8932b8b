package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- goroutines
//
// Goroutines run one at a time, each on a goroutine of the engine. Where one
// blocks or ends, the next one in turn goes on; timers go on when nothing else
// can. A path may deviate from that "switches" times (a parameter of the run):
// at any synchronisation operation, or where a goroutine blocks, any other one
// (a timer as well) can be the one to go on. All such schedules are explored.
// Between those points the order of memory accesses does not matter unless
// there is a data race.

type gor struct {
	id     int
	name   string
	lazy   bool        // a timer: runs when nothing else can, or by a switch
	ready  func() bool // nil: can run
	wake   chan bool   // false: give up
	done   bool
	exited chan bool
	f      func()

	frames   []*frame
	depth    int
	stackBuf []Value
	stackTop int
	curDefer *frame
}

type sched struct {
	all      []*gor
	cur      *gor
	seq      int
	switches int
	fail     any // panic value to be raised on the main goroutine
	dead     bool
	locks    map[ptrKey]*lockState
	finishes []string
	noReplay bool
}

type killed struct{}

type lockState struct {
	w bool
	r int
	n int // of a WaitGroup
}

type selState struct {
	fired  bool
	idx    int
	v      Value
	ok     bool
	closed bool
}

type waiter struct {
	s   *selState
	idx int
	v   Value // to be sent
}

func (in *Interp) schedInit() {
	if in.sc.cur == nil {
		in.sc.cur = &gor{name: "main", wake: make(chan bool)}
		in.sc.all = []*gor{in.sc.cur}
		in.sc.switches = in.ex.params["switches"]
	}
}

// spawn starts a goroutine; it does not run yet.
func (in *Interp) spawn(name string, lazy bool, f func()) {
	if in.inBase {
		panic(in.unsup("go statement during set-up"))
	}
	in.schedInit()
	in.sc.seq++
	g := &gor{id: in.sc.seq, name: name, lazy: lazy, wake: make(chan bool), exited: make(chan bool), f: f, stackBuf: make([]Value, 1<<14)}
	in.sc.all = append(in.sc.all, g)
	go func() {
		defer close(g.exited)
		if !<-g.wake {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killed); ok {
				return
			}
			g.done = true
			if r != nil {
				// the path ends: the main goroutine says so
				if p, ok := r.(*TPanic); ok {
					in.candidate("panic", p.String(), in.wit)
					r = &endPath{endViolation, p.String()}
				}
				in.sc.fail = r
				m := in.sc.all[0]
				in.restore(m)
				m.wake <- true
				return
			}
			n := in.pick(nil)
			if in.sc.fail != nil {
				n = in.sc.all[0]
			}
			in.restore(n)
			n.wake <- true
		}()
		g.f()
	}()
	in.preempt()
}

func (in *Interp) save(g *gor) {
	g.frames, g.depth, g.stackBuf, g.stackTop, g.curDefer = in.frames, in.depth, in.stackBuf, in.stackTop, in.curDefer
}

func (in *Interp) restore(g *gor) {
	in.sc.cur = g
	in.frames, in.depth, in.stackBuf, in.stackTop, in.curDefer = g.frames, g.depth, g.stackBuf, g.stackTop, g.curDefer
}

func (g *gor) canRun() bool { return !g.done && (g.ready == nil || g.ready()) }

// runnable are the goroutines that can run, but for one, in turn.
func (in *Interp) runnable(but *gor, lazy bool) []*gor {
	var r []*gor
	n, from := len(in.sc.all), 0
	for i, g := range in.sc.all {
		if g == in.sc.cur {
			from = i
		}
	}
	for i := 0; i < n; i++ {
		if g := in.sc.all[(from+i)%n]; g != but && g.lazy == lazy && g.canRun() {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses who runs next; if nobody can, the main goroutine fails.
func (in *Interp) pick(but *gor) (g *gor) {
	defer func() {
		// choosing may end the path
		if r := recover(); r != nil {
			if in.sc.cur == in.sc.all[0] && !in.sc.cur.done {
				panic(r)
			}
			in.sc.fail = r
			g = in.sc.all[0]
		}
	}()
	rs := append(in.runnable(but, false), in.runnable(but, true)...)
	if len(rs) == 0 {
		s := ""
		for _, g := range in.sc.all {
			if !g.done && !g.lazy {
				s += " " + g.name
			}
		}
		if n := len(in.sc.finishes); n > 0 {
			in.candidate("assert", in.sc.finishes[n-1], in.wit)
			panic(&endPath{endViolation, in.sc.finishes[n-1]})
		}
		in.goPanic("deadlock:" + s + " blocked")
	}
	return in.deviate(rs)
}

// deviate is the first one, or another one at the cost of a switch.
func (in *Interp) deviate(rs []*gor) *gor {
	k := 0
	if in.sc.switches > 0 {
		k = in.schedChoose(len(rs))
	}
	if k > 0 {
		in.sc.switches--
	}
	return rs[k]
}

func (in *Interp) schedChoose(n int) int {
	if n == 1 {
		return 0
	}
	v := Value{R: in.newVar("sched", 8)}
	in.assume(in.boolVal(in.tt.Ult(v.R.(*Term), in.tt.Const(uint64(n), 8))))
	return int(in.concretize(v, 8))
}

// switchTo hands control over and returns when it comes back.
func (in *Interp) switchTo(g *gor) {
	me := in.sc.cur
	if g == me {
		return
	}
	in.save(me)
	in.restore(g)
	g.wake <- true
	if !<-me.wake {
		panic(killed{})
	}
	if me == in.sc.all[0] && in.sc.fail != nil {
		f := in.sc.fail
		in.sc.fail = nil
		panic(f)
	}
}

// block waits until ready.
func (in *Interp) block(what string, ready func() bool) {
	if ready() {
		return
	}
	in.schedInit()
	me := in.sc.cur
	me.ready = ready
	for !ready() {
		in.switchTo(in.pick(me))
	}
	me.ready = nil
}

// preempt may let others run before a synchronisation operation.
func (in *Interp) preempt() {
	if in.sc.switches <= 0 || len(in.sc.all) < 2 || in.inBase {
		return
	}
	rs := append(in.runnable(in.sc.cur, false), in.runnable(in.sc.cur, true)...)
	if len(rs) == 0 {
		return
	}
	if k := in.schedChoose(len(rs) + 1); k > 0 {
		in.sc.switches--
		in.switchTo(rs[k-1])
	}
}

// drain lets every other goroutine run that can.
func (in *Interp) drain() {
	for {
		rs := append(in.runnable(in.sc.cur, false), in.runnable(in.sc.cur, true)...)
		if len(rs) == 0 {
			return
		}
		in.switchTo(in.deviate(rs))
	}
}

// live counts the goroutines that have not ended, but for this one and timers.
func (in *Interp) live() int {
	n := 0
	for _, g := range in.sc.all {
		if g != in.sc.cur && !g.done && !g.lazy {
			n++
		}
	}
	return n
}

// endSched ends all goroutines of the path.
func (in *Interp) endSched() {
	for i, g := range in.sc.all {
		if i == 0 {
			in.stackBuf = firstBuf(g.stackBuf, in.stackBuf)
			continue
		}
		select {
		case <-g.exited:
		default:
			if !g.done {
				g.wake <- false
			}
			<-g.exited
		}
	}
	in.sc = sched{}
}

func firstBuf(a, b []Value) []Value {
	if a != nil {
		return a
	}
	return b
}

// ---- channels

func (c *ChanV) recvWaiter() *waiter { return firstWaiter(&c.recvq) }
func (c *ChanV) sendWaiter() *waiter { return firstWaiter(&c.sendq) }

func firstWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 && (*q)[0].s.fired {
		*q = (*q)[1:]
	}
	if len(*q) == 0 {
		return nil
	}
	return (*q)[0]
}

func (c *ChanV) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || c.recvWaiter() != nil)
}
func (c *ChanV) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || c.sendWaiter() != nil)
}

// doSend sends on a channel that can take it.
func (in *Interp) doSend(c *ChanV, v Value) {
	if c.closed {
		in.goPanic("send on closed channel")
	}
	if w := c.recvWaiter(); w != nil {
		w.s.fired, w.s.idx, w.s.v, w.s.ok = true, w.idx, v, true
		return
	}
	c.buf = append(c.buf, v)
}

func (in *Interp) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := c.sendWaiter(); w != nil {
			w.s.fired, w.s.idx = true, w.idx
			c.buf = append(c.buf, w.v)
		}
		return v, true
	}
	if w := c.sendWaiter(); w != nil {
		w.s.fired, w.s.idx = true, w.idx
		return w.v, true
	}
	return Value{}, false // closed
}

func (in *Interp) chanSend(c *ChanV, v Value) {
	in.preempt()
	if !c.canSend() {
		s := &selState{}
		if c != nil {
			c.sendq = append(c.sendq, &waiter{s: s, v: v})
		}
		in.block("send", func() bool { return s.fired })
		if s.closed {
			in.goPanic("send on closed channel")
		}
		return
	}
	in.doSend(c, v)
}

func (in *Interp) chanRecv(c *ChanV) (Value, bool) {
	in.preempt()
	if !c.canRecv() {
		s := &selState{}
		if c != nil {
			c.recvq = append(c.recvq, &waiter{s: s})
		}
		in.block("receive", func() bool { return s.fired })
		return s.v, s.ok
	}
	return in.doRecv(c)
}

func (in *Interp) chanClose(c *ChanV) {
	if c == nil || c.closed {
		in.goPanic("close of nil or closed channel")
	}
	in.preempt()
	c.closed = true
	for w := c.recvWaiter(); w != nil; w = c.recvWaiter() {
		w.s.fired, w.s.idx = true, w.idx
	}
	for w := c.sendWaiter(); w != nil; w = c.sendWaiter() {
		w.s.fired, w.s.idx, w.s.closed = true, w.idx, true
	}
}

// selectOp is a select statement: the index of the case (-1: default), and
// what was received.
func (in *Interp) selectOp(cs []*ChanV, send []bool, vals []Value, blocking bool) (int, Value, bool) {
	in.preempt()
	var ready []int
	for i, c := range cs {
		if send[i] && c.canSend() || !send[i] && c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !blocking {
			return -1, Value{}, false
		}
		s := &selState{}
		for i, c := range cs {
			if c == nil {
				continue
			}
			w := &waiter{s: s, idx: i, v: vals[i]}
			if send[i] {
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		in.block("select", func() bool { return s.fired })
		if s.closed {
			in.goPanic("send on closed channel")
		}
		return s.idx, s.v, s.ok
	}
	i := ready[in.schedChoose(len(ready))]
	if send[i] {
		in.doSend(cs[i], vals[i])
		return i, Value{}, false
	}
	v, ok := in.doRecv(cs[i])
	return i, v, ok
}

func (c *compiler) selectStmt(x *ssa.Select, dst int32) func(fr *frame) {
	in := c.in
	n := len(x.States)
	chs, vs := make([]opnd, n), make([]opnd, n)
	send := make([]bool, n)
	zero := make([]types.Type, n)
	for i, s := range x.States {
		chs[i] = c.op(s.Chan)
		zero[i] = s.Chan.Type().Underlying().(*types.Chan).Elem()
		if send[i] = s.Dir == types.SendOnly; send[i] {
			vs[i] = c.op(s.Send)
		}
	}
	return func(fr *frame) {
		cs, vals := make([]*ChanV, n), make([]Value, n)
		for i := range cs {
			cs[i], _ = chs[i].get(fr).R.(*ChanV)
			if send[i] {
				vals[i] = vs[i].get(fr)
			}
		}
		k, v, ok := in.selectOp(cs, send, vals, x.Blocking)
		r := []Value{vInt(k), vBool(ok)}
		for i := range cs {
			if send[i] {
				continue
			}
			e := in.zero(zero[i])
			if i == k && ok {
				e = v
			}
			r = append(r, e)
		}
		fr.r[dst] = Value{R: &Tuple{r}}
	}
}

// ---- locks

func (in *Interp) lockOf(p Value) *lockState {
	k := pk(p)
	l := in.sc.locks[k]
	if l == nil {
		if in.sc.locks == nil {
			in.sc.locks = map[ptrKey]*lockState{}
		}
		l = &lockState{}
		in.sc.locks[k] = l
	}
	return l
}

func (in *Interp) lock(p Value, write bool) {
	if in.inBase {
		return
	}
	in.preempt()
	l := in.lockOf(p)
	in.block("lock", func() bool { return !l.w && (!write || l.r == 0) })
	if write {
		l.w = true
	} else {
		l.r++
	}
}

func (in *Interp) tryLock(p Value, write bool) bool {
	if in.inBase {
		return true
	}
	in.preempt()
	l := in.lockOf(p)
	if l.w || write && l.r > 0 {
		return false
	}
	if write {
		l.w = true
	} else {
		l.r++
	}
	return true
}

func (in *Interp) unlock(p Value, write bool) {
	if in.inBase {
		return
	}
	l := in.lockOf(p)
	if write && !l.w || !write && l.r == 0 {
		in.goPanic("fatal error: sync: unlock of unlocked mutex")
	}
	if write {
		l.w = false
	} else {
		l.r--
	}
	in.preempt()
}

func (in *Interp) wgAdd(p Value, d int) {
	l := in.lockOf(p)
	l.n += d
	if l.n < 0 {
		in.goPanic("sync: negative WaitGroup counter")
	}
	in.preempt()
}
