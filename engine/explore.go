package main

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Explorer enumerates the paths of one harness under one set of parameters.
type Explorer struct {
	p       *Program
	fn      *ssa.Function
	setup   *ssa.Function
	params  map[string]int
	solver  []string
	nw      int
	workers []*Interp
	cache   *sharedCache

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	active   int
	stopped  bool
	deadline time.Time

	notes    map[string]int
	candN    map[string]int
	onCand   func(*Cand)
	reach    map[string]bool
	funcs    map[*ssa.Function]bool
	Samples  []Sample
	maxSamp  int
	sampSeen int64
	pathsN   int64
	Stats    Stats
	Complete bool
	maxPC    int
	maxDepth int
	kinds    map[string]int64
}

// Sample is the input of one explored path and what the encoding observed.
type Sample struct {
	Vals []InVal  `json:"vals"`
	Obs  []string `json:"obs"`
}

func newExplorer(p *Program, nw int, solver []string) *Explorer {
	ex := &Explorer{p: p, nw: nw, solver: solver, cache: newSharedCache()}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) addCand(c *Cand) {
	ex.mu.Lock()
	k := c.Kind + "|" + c.Msg
	n := ex.candN[k]
	ex.candN[k]++
	ex.mu.Unlock()
	if n < 3 && ex.onCand != nil {
		ex.onCand(c)
	}
}

func (ex *Explorer) noteIncomplete(msg string) {
	ex.mu.Lock()
	ex.notes[msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) Stop() {
	ex.mu.Lock()
	ex.stopped = true
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) isStopped() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.stopped
}

// Run explores every path of harness fn; true if nothing was left out.
func (ex *Explorer) Run(fn, setup *ssa.Function, params map[string]int, deadline time.Time, maxSamp int, onCand func(*Cand)) bool {
	ex.fn, ex.setup, ex.params = fn, setup, params
	ex.deadline = deadline
	ex.queue = []Item{{}}
	ex.active, ex.stopped = 0, false
	ex.notes = map[string]int{}
	ex.candN = map[string]int{}
	ex.kinds = map[string]int64{}
	ex.reach = map[string]bool{}
	ex.onCand = onCand
	ex.Samples = nil
	ex.maxSamp = maxSamp
	ex.sampSeen, ex.pathsN = 0, 0
	ex.Stats = Stats{}
	ex.maxPC, ex.maxDepth = 0, 0
	if ex.funcs == nil {
		ex.funcs = map[*ssa.Function]bool{}
	}
	var wg sync.WaitGroup
	for len(ex.workers) < ex.nw {
		in := newInterp(ex.p, ex, &Stats{})
		in.sol = newSolver(ex.solver, in.st, ex.cache)
		ex.workers = append(ex.workers, in)
	}
	for i := 0; i < ex.nw; i++ {
		in := ex.workers[i]
		*in.st = Stats{}
		in.maxSteps = 20_000_000
		if m, ok := params["steps"]; ok { // in millions
			in.maxSteps = int64(m) * 1_000_000
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.work(in)
		}()
	}
	wg.Wait()
	for _, in := range ex.workers {
		ex.Stats.add(in.st)
		for f := range in.seen {
			ex.funcs[f] = true
		}
		in.sol.stop()
	}
	ex.Complete = len(ex.queue) == 0 && len(ex.notes) == 0 && !ex.stopped
	return ex.Complete
}

func (ex *Explorer) work(in *Interp) {
	debug.SetMaxStack(4 << 30)
	in.ex = ex
	if ex.setup != nil {
		if msg := in.baseRun(ex.setup); msg != "" {
			ex.noteIncomplete("setup: " + msg)
			ex.Stop()
			return
		}
	}
	var local []Item
	for {
		ex.mu.Lock()
		if len(local) == 0 {
			for len(ex.queue) == 0 && ex.active > 0 && !ex.stopped {
				ex.cond.Wait()
			}
			if ex.stopped || len(ex.queue) == 0 {
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			local = append(local, ex.queue[len(ex.queue)-1])
			ex.queue = ex.queue[:len(ex.queue)-1]
			ex.active++
		} else if len(local) > 1 && len(ex.queue) < ex.nw && ex.active < ex.nw {
			n := len(local) / 2
			ex.queue = append(ex.queue, local[:n]...)
			local = append([]Item(nil), local[n:]...)
			ex.cond.Broadcast()
		}
		if ex.stopped {
			ex.active--
			ex.queue = append(ex.queue, local...)
			ex.mu.Unlock()
			return
		}
		if time.Now().After(ex.deadline) {
			ex.queue = append(ex.queue, local...)
			ex.active--
			ex.notes["time budget used up"]++
			ex.stopped = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		ex.mu.Unlock()
		it := local[len(local)-1]
		local = local[:len(local)-1]
		in.path(it)
		local = append(local, in.open...)
		in.open = in.open[:0]
		if len(local) == 0 {
			ex.mu.Lock()
			ex.active--
			if ex.active == 0 {
				ex.cond.Broadcast()
			}
			ex.mu.Unlock()
		}
	}
}

// baseRun executes a function whose effects stay for all paths.
func (in *Interp) baseRun(fn *ssa.Function) (msg string) {
	defer func() {
		in.inBase = false
		if r := recover(); r != nil {
			msg = describe(r)
		}
		in.resetPath()
	}()
	in.resetPath()
	in.inBase = true
	in.cx = &ctx{}
	in.steps = -4_000_000_000
	in.run(fn, nil, nil)
	in.sharePools()
	return ""
}

func (in *Interp) sharePools() {}

func describe(r any) string {
	switch x := r.(type) {
	case *TPanic:
		return "panic: " + x.String()
	case *endPath:
		return x.msg
	case error:
		return x.Error() + "\n" + string(debug.Stack())
	}
	return fmt.Sprint(r)
}

func (in *Interp) resetPath() {
	in.localBase = 0
	in.pc = in.pc[:0]
	clear(in.pcSet)
	in.vars = in.vars[:0]
	in.varNames = in.varNames[:0]
	in.wit = nil
	in.open = in.open[:0]
	clear(in.pools)
	clear(in.files)
	clear(in.dirs)
	for o, f := range in.vf {
		if o.base {
			f.out, f.pos, f.closed = nil, 0, false
		} else {
			delete(in.vf, o)
		}
	}
	in.fileSeq = 0
	in.obs = in.obs[:0]
	in.mon = monitor{}
	in.fresh = 0
	in.steps = 0
	in.depth = 0
	in.frames = in.frames[:0]
	in.stackTop = 0
	in.curDefer = nil
}

// path executes the harness along one unexplored item.
func (in *Interp) path(it Item) {
	ex := in.ex
	in.resetPath()
	if in.tt.next > 2_000_000 {
		in.tt = newTermTab()
		in.sol.stop()
		in.sol = newSolver(ex.solver, in.st, ex.cache)
		in.memoWit = nil
		runtime.GC()
	}
	in.cx = &ctx{prefix: it.Dec}
	in.wit = append([]uint64(nil), it.Wit...)
	nobj := in.nextObj
	kind, msg := "", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case *TPanic:
					kind, msg = "panic", x.String()
				case *exitCall:
					kind, msg = "panic", fmt.Sprintf("os.Exit(%d)", x.code)
				case *endPath:
					switch x.k {
					case endAssume:
						kind = "assume"
					case endUnsupported:
						kind, msg = "unsupported", x.msg
					case endSteps:
						kind, msg = "steps", x.msg
					case endDiverge:
						kind, msg = "diverge", x.msg
					case endViolation:
						kind = "violation"
					default:
						kind, msg = "abort", x.msg
					}
				default:
					kind, msg = "engine", in.where()+": "+describe(r)
				}
			}
		}()
		in.run(ex.fn, nil, nil)
	}()
	noReplay := in.sc.noReplay
	in.endSched()
	in.st.Steps += in.steps
	in.undoTo(0)
	in.nextObj = nobj
	switch kind {
	case "assume":
		in.st.Assumed++
		return
	case "":
		in.st.Paths++
	case "violation":
		in.st.Paths++
		return
	case "panic":
		in.st.Panics++
		in.candidate("panic", msg, in.wit)
		return
	case "steps":
		in.st.StepLimit++
		in.candidate("hang", "no end within the step limit: "+msg, in.wit)
		in.incomplete("step limit: " + msg)
		return
	case "unsupported":
		in.st.Unsupported++
		in.candidate("unsupported", "engine limit, input tried natively", in.wit)
		in.incomplete("unsupported: " + msg)
		return
	case "diverge":
		in.st.Divergence++
		in.incomplete("divergence: " + msg)
		return
	default:
		in.candidate("unsupported", "engine limit, input tried natively", in.wit)
		in.incomplete("engine: " + msg)
		return
	}
	if in.cx.pos < len(in.cx.prefix) {
		in.st.Divergence++
		in.incomplete("divergence: path ended before its prefix")
		return
	}
	for _, c := range in.pc {
		if in.evalWit(c) == 0 {
			in.st.Divergence++
			in.incomplete("divergence: witness does not satisfy the path condition")
			return
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.pathsN++
	ex.maxPC = max(ex.maxPC, len(in.pc))
	ex.maxDepth = max(ex.maxDepth, len(in.cx.trace))
	for r := range in.reach {
		ex.reach[r] = true
	}
	// keep samples spread over the exploration: thin out as it goes on
	take := ex.maxSamp > 0 && (ex.pathsN <= int64(ex.maxSamp) || ex.pathsN%(1+ex.pathsN/int64(ex.maxSamp)) == 0)
	if take && !noReplay {
		s := Sample{Vals: in.inputs(in.wit)}
		for _, o := range in.obs {
			s.Obs = append(s.Obs, o.name+"="+in.render(o.t, o.v))
		}
		if len(ex.Samples) < ex.maxSamp {
			ex.Samples = append(ex.Samples, s)
		} else {
			ex.Samples[int(ex.pathsN*7919)%ex.maxSamp] = s
		}
	}
}

// render gives an observed value, under the witness, in the form the native
// harness prints it.
func (in *Interp) render(t types.Type, v Value) string {
	k := kindOf(t)
	conc := func(v Value) uint64 {
		if tm, ok := v.R.(*Term); ok {
			return in.evalWit(tm)
		}
		return v.N
	}
	switch k.kind {
	case kInt:
		n := conc(v)
		if k.signed {
			return strconv.FormatInt(sext(n, k.w), 10)
		}
		return strconv.FormatUint(n, 10)
	case kBool:
		return strconv.FormatBool(conc(v) != 0)
	case kString:
		b := make([]byte, in.strLen(v))
		for i := range b {
			b[i] = byte(conc(in.strAt(v, i)))
		}
		return strconv.QuoteToASCII(string(b))
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		cs, _ := v.R.([]Value)
		if ek := kindOf(et); ek.kind == kInt && ek.w == 8 {
			return in.render(types.Typ[types.String], mkStr(cs))
		}
		l := in.layout(et)
		var p []string
		for i := 0; i+l.n <= len(cs) && l.n > 0; i += l.n {
			p = append(p, in.render(et, fromCells(l, cs[i:i+l.n])))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "?"
}

func (ex *Explorer) funcNames(prefix ...string) []string {
	var r []string
	for f := range ex.funcs {
		n := f.String()
		for _, p := range prefix {
			if strings.Contains(n, p) {
				r = append(r, n)
				break
			}
		}
	}
	sort.Strings(r)
	return r
}
