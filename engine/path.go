package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// dec is one recorded decision of a path.
type dec struct {
	K uint8  // kind: b branch, f forced branch, c concretization, g group, x no merge
	V uint64 // side or value
	T bool   // for c: t == V holds
}

// Item is an unexplored path: the decisions that lead to it and an input
// that drives the program along them.
type Item struct {
	Dec []dec
	Wit []uint64
}

// ctx is the decision context: the path itself or a merged call in it.
type ctx struct {
	prefix []dec
	pos    int
	trace  []dec
	mseq   uint64  // merged calls so far
	local  *subRun // nil for the path itself
}

type subRun struct {
	open  []Item
	count int
}

type endKind uint8

const (
	endAssume endKind = iota
	endUnsupported
	endSteps
	endDiverge
	endAbort
	endViolation
)

type endPath struct {
	k   endKind
	msg string
}

func (in *Interp) unsup(msg string) *endPath {
	return &endPath{endUnsupported, msg + " [" + in.where() + "]"}
}

type Cand struct {
	Msg   string
	Kind  string // assert, panic, hang, monitor
	Vals  []InVal
	Trace string
}

type InVal struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    uint64 `json:"v"`
}

func (in *Interp) addPC(t *Term) {
	if t == in.tt.True || in.pcSet[t] {
		return
	}
	if t.op == OpAnd {
		in.addPC(t.a)
		in.addPC(t.b)
		return
	}
	in.pc = append(in.pc, t)
	in.pcSet[t] = true
}

func (in *Interp) truncPC(n int) {
	for _, t := range in.pc[n:] {
		delete(in.pcSet, t)
	}
	in.pc = in.pc[:n]
}

func (in *Interp) newVar(name string, w uint8) *Term {
	n := len(in.vars)
	t := in.tt.Var(n, w)
	in.vars = append(in.vars, t)
	in.varNames = append(in.varNames, name)
	for len(in.wit) <= n {
		in.wit = append(in.wit, 0)
	}
	return t
}

func (in *Interp) evalWit(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if len(in.wit) == 0 || len(in.memoWit) == 0 || &in.wit[0] != &in.memoWit[0] || in.memoGen != in.tt.gen {
		in.tt.gen++
		in.memoGen = in.tt.gen
		in.memoWit = in.wit
	}
	return in.tt.Eval(t, in.wit)
}

// domain of a single-byte-variable condition, as a 256-bit set
func (in *Interp) termDom(t *Term) *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	var d [4]uint64
	m := in.domModel
	n := int(t.vars[0])
	for len(m) <= n {
		m = append(m, 0)
	}
	for i := uint64(0); i < 256; i++ {
		m[n] = i
		in.tt.gen++
		if in.tt.Eval(t, m) != 0 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	in.domModel = m
	t.dom = &d
	return &d
}

// byteDom over-approximates the values variable v (8 bits) can take.
func (in *Interp) byteDom(v int32) ([4]uint64, bool) {
	d := [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	exact := true
	for i, c := range in.pc {
		if len(c.vars) == 1 {
			if c.vars[0] == v {
				e := in.termDom(c)
				for i := range d {
					d[i] &= e[i]
				}
			}
		} else if exact && i >= in.localBase {
			for _, x := range c.vars {
				if x == v {
					exact = false
				}
			}
		}
	}
	return d, exact
}

// feasible decides whether the path condition and q can hold together. On
// sat the returned model extends the current witness.
func (in *Interp) feasible(q *Term) (satRes, []uint64) {
	if q == in.tt.False {
		return unsat, nil
	}
	nq := in.tt.Not(q)
	if in.pcSet[nq] {
		return unsat, nil
	}
	if len(q.vars) == 1 && in.vars[q.vars[0]].w == 8 {
		d, exact := in.byteDom(q.vars[0])
		e := in.termDom(q)
		var x [4]uint64
		var any uint64
		for i := range d {
			x[i] = d[i] & e[i]
			any |= x[i]
		}
		if any == 0 {
			in.st.DomHits++
			return unsat, nil
		}
		if exact {
			in.st.DomHits++
			for i := uint64(0); i < 256; i++ {
				if x[i>>6]>>(i&63)&1 != 0 {
					w := append([]uint64(nil), in.wit...)
					w[q.vars[0]] = i
					return sat, w
				}
			}
		}
	}
	cs, vars := in.slice(q)
	cs = in.tt.joinSets(cs)
	if in.cannotHold(cs) {
		in.st.DomHits++
		return unsat, nil
	}
	if w := in.recall(cs, vars); w != nil {
		in.st.ModelHits++
		return sat, w
	}
	r := in.sol.check(in.tt, cs, vars, func(v int32) *Term { return in.vars[v] })
	if r.r != sat {
		return r.r, nil
	}
	w := append([]uint64(nil), in.wit...)
	for i, v := range r.vars {
		for len(w) <= int(v) {
			w = append(w, 0)
		}
		w[v] = r.model[i]
	}
	in.recent[in.recentN%len(in.recent)] = w
	in.recentN++
	return sat, w
}

// recall looks for a recent model that satisfies cs too.
func (in *Interp) recall(cs []*Term, vars []int32) []uint64 {
	for i := 1; i <= len(in.recent) && i <= in.recentN; i++ {
		m := in.recent[(in.recentN-i)%len(in.recent)]
		in.tt.gen++
		ok := true
		for _, c := range cs {
			if in.tt.Eval(c, m) == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		w := append([]uint64(nil), in.wit...)
		for _, v := range vars {
			x := uint64(0)
			if int(v) < len(m) {
				x = m[v] & mask(in.vars[v].w)
			}
			w[v] = x
		}
		return w
	}
	return nil
}

// slice gives the conjuncts of the path condition connected to q, q included.
func (in *Interp) slice(q *Term) ([]*Term, []int32) {
	in.markGen++
	for len(in.mark) < len(in.vars) {
		in.mark = append(in.mark, 0)
	}
	for len(in.pcMark) < len(in.pc) {
		in.pcMark = append(in.pcMark, 0)
	}
	g := in.markGen
	vars := append([]int32(nil), q.vars...)
	for _, v := range vars {
		in.mark[v] = g
	}
	cs := []*Term{q}
	for changed := true; changed; {
		changed = false
		for i, c := range in.pc {
			if in.pcMark[i] == g || i < in.localBase && len(c.vars) > 1 {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in.mark[v] == g {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			in.pcMark[i] = g
			cs = append(cs, c)
			for _, v := range c.vars {
				if in.mark[v] != g {
					in.mark[v] = g
					vars = append(vars, v)
					changed = true
				}
			}
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	return cs, vars
}

func (in *Interp) pushAlt(c *ctx, d dec, wit []uint64) {
	p := make([]dec, len(c.trace)+1)
	copy(p, c.trace)
	p[len(c.trace)] = d
	it := Item{p, wit}
	if c.local != nil {
		c.local.open = append(c.local.open, it)
	} else {
		in.open = append(in.open, it)
	}
}

// next returns the recorded decision at this point, if any.
func (c *ctx) next() (dec, bool) {
	if c.pos < len(c.prefix) {
		d := c.prefix[c.pos]
		c.pos++
		c.trace = append(c.trace, d)
		return d, true
	}
	c.pos++
	return dec{}, false
}

// branch decides a symbolic condition.
func (in *Interp) branch(cond *Term) bool {
	if cond.op == OpConst {
		return cond.val != 0
	}
	if in.pcSet[cond] {
		return true
	}
	if in.pcSet[in.tt.Not(cond)] {
		return false
	}
	if in.inBase {
		panic(in.unsup("symbolic branch in base mode"))
	}
	c := in.cx
	if d, ok := c.next(); ok {
		switch d.K {
		case 'b', 'f':
			b := d.V != 0
			if d.K == 'b' {
				if b {
					in.addPC(cond)
				} else {
					in.addPC(in.tt.Not(cond))
				}
			}
			return b
		}
		panic(&endPath{endDiverge, fmt.Sprintf("replay: branch expected, trace has %c", d.K)})
	}
	in.st.Branches++
	b := in.evalWit(cond) != 0
	side, other := cond, in.tt.Not(cond)
	if !b {
		side, other = other, side
	}
	r, w := in.feasible(other)
	v := uint64(0)
	if b {
		v = 1
	}
	switch r {
	case unsat:
		c.trace = append(c.trace, dec{K: 'f', V: v})
		return b
	case sat:
		in.pushAlt(c, dec{K: 'b', V: 1 - v}, w)
	default:
		in.incomplete("solver gave no verdict on a branch")
	}
	c.trace = append(c.trace, dec{K: 'b', V: v})
	in.addPC(side)
	return b
}

// truth decides a boolean value.
func (in *Interp) truth(v Value) bool {
	if v.R == nil {
		return v.N != 0
	}
	return in.branch(v.R.(*Term))
}

// concretize fixes a scalar to one of its possible values, exploring all.
func (in *Interp) concretize(v Value, w uint8) uint64 {
	t, ok := v.R.(*Term)
	if !ok {
		return v.N
	}
	if in.inBase {
		panic(in.unsup("symbolic value in base mode"))
	}
	c := in.cx
	for {
		if d, ok := c.next(); ok {
			if d.K != 'c' {
				panic(&endPath{endDiverge, fmt.Sprintf("replay: value expected, trace has %c", d.K)})
			}
			e := in.tt.Eq(t, in.tt.Const(d.V, t.w))
			if d.T {
				in.addPC(e)
				return d.V
			}
			in.addPC(in.tt.Not(e))
			continue
		}
		in.st.Branches++
		k := in.evalWit(t)
		if c.local != nil && len(t.vars) == 1 && in.vars[t.vars[0]].w == 8 {
			k = in.minByByte(t, k)
		}
		e := in.tt.Eq(t, in.tt.Const(k, t.w))
		if e != in.tt.True {
			ne := in.tt.Not(e)
			r, wt := in.feasible(ne)
			switch r {
			case sat:
				in.pushAlt(c, dec{K: 'c', V: k, T: false}, wt)
			case unknown:
				in.incomplete("solver gave no verdict on a value")
			}
			in.addPC(e)
		}
		c.trace = append(c.trace, dec{K: 'c', V: k, T: true})
		return k
	}
}

// minByByte is the least value of t over the exact domain of its only
// variable (k if the domain is not exact), and moves the witness there.
func (in *Interp) minByByte(t *Term, k uint64) uint64 {
	d, exact := in.byteDom(t.vars[0])
	if !exact {
		return k
	}
	m := append([]uint64(nil), in.wit...)
	best, bi := k, -1
	for i := uint64(0); i < 256; i++ {
		if d[i>>6]>>(i&63)&1 != 0 {
			m[t.vars[0]] = i
			in.tt.gen++
			if v := in.tt.Eval(t, m); v < best {
				best, bi = v, int(i)
			}
		}
	}
	if bi >= 0 {
		m[t.vars[0]] = uint64(bi)
		in.wit = m
	}
	return best
}

// assume restricts the path.
func (in *Interp) assume(v Value) {
	if v.R == nil {
		if v.N == 0 {
			panic(&endPath{endAssume, ""})
		}
		return
	}
	t := v.R.(*Term)
	if in.cx.pos < len(in.cx.prefix) || in.evalWit(t) != 0 {
		in.addPC(t)
		return
	}
	r, w := in.feasible(t)
	switch r {
	case unsat:
		panic(&endPath{endAssume, ""})
	case unknown:
		in.incomplete("solver gave no verdict on an assumption")
		panic(&endPath{endAssume, ""})
	}
	in.wit = w
	in.addPC(t)
}

func (in *Interp) inputs(wit []uint64) []InVal {
	r := make([]InVal, 0, len(in.vars))
	for i, t := range in.vars {
		if in.varNames[i] == "sched" {
			continue
		}
		x := InVal{in.varNames[i], t.w, 0}
		if i < len(wit) {
			x.V = wit[i] & mask(t.w)
		}
		r = append(r, x)
	}
	return r
}

// assert reports inputs that make the condition false.
func (in *Interp) assert(v Value, msg string) {
	replaying := in.cx.pos < len(in.cx.prefix)
	if v.R == nil {
		if v.N == 0 {
			in.candidate("assert", msg, in.wit)
			panic(&endPath{endViolation, msg})
		}
		if !replaying {
			in.st.AssertConst++
		}
		return
	}
	t := v.R.(*Term)
	if d, ok := in.cx.next(); ok { // decided on the path that opened this one
		if d.K != 'a' {
			panic(&endPath{endDiverge, "replay: assertion expected"})
		}
		if d.V != 0 {
			in.addPC(t)
		}
		return
	}
	in.st.AssertQ++
	nt := in.tt.Not(t)
	r, w := in.feasibleAsk(nt)
	switch r {
	case sat:
		in.candidate("assert", msg, w)
		if in.evalWit(t) == 0 {
			r, w := in.feasible(t)
			if r != sat {
				panic(&endPath{endViolation, msg})
			}
			in.wit = w
		}
		in.addPC(t)
		in.cx.trace = append(in.cx.trace, dec{K: 'a', V: 1})
	case unknown:
		in.incomplete("solver gave no verdict on an assertion: " + msg)
		in.cx.trace = append(in.cx.trace, dec{K: 'a', V: 1})
		in.assume(v)
	default:
		in.st.AssertUnsat++
		in.cx.trace = append(in.cx.trace, dec{K: 'a'})
	}
}

// feasibleAsk is feasible without the byte-domain shortcut, so that the
// solver itself gives the verdict.
func (in *Interp) feasibleAsk(q *Term) (satRes, []uint64) {
	if q == in.tt.False || in.pcSet[in.tt.Not(q)] {
		return unsat, nil
	}
	cs, vars := in.slice(q)
	cs = in.tt.joinSets(cs)
	r := in.sol.check(in.tt, cs, vars, func(v int32) *Term { return in.vars[v] })
	if r.r != sat {
		return r.r, nil
	}
	w := append([]uint64(nil), in.wit...)
	for i, v := range r.vars {
		for len(w) <= int(v) {
			w = append(w, 0)
		}
		w[v] = r.model[i]
	}
	return sat, w
}

func (in *Interp) candidate(kind, msg string, wit []uint64) {
	in.ex.addCand(&Cand{Msg: msg, Kind: kind, Vals: in.inputs(wit)})
}

func (in *Interp) incomplete(msg string) { in.ex.noteIncomplete(msg) }

// ---- merged calls

type mergePath struct {
	tr   []dec
	cond *Term
	res  []Value
	wit  []uint64
}

const maxSubPaths = 400

// mergeCall runs a side-effect-free function on all its paths and merges the
// results, instead of forking the path on every branch in it.
func (in *Interp) mergeCall(fn *ssa.Function, args []Value, free []Value) Value {
	if in.inBase {
		return in.run(fn, args, free)
	}
	parent := in.cx
	parent.mseq++
	if parent.pos < len(parent.prefix) {
		if d := parent.prefix[parent.pos]; d.K == 'x' && d.V == parent.mseq {
			parent.next()
			return in.run(fn, args, free)
		}
	} else if in.noMerge[fn] >= 3 {
		parent.next()
		parent.trace = append(parent.trace, dec{K: 'x', V: parent.mseq})
		return in.run(fn, args, free)
	}
	seq := parent.mseq
	savePC := len(in.pc)
	saveWit := in.wit
	saveVars := len(in.vars)
	sub := &subRun{open: []Item{{nil, saveWit}}}
	var paths []mergePath
	ok := true
	first := true
	var single Value
	depth, nframes, stackTop := in.depth, len(in.frames), in.stackTop
	// In the call, conditions of the path on several variables at once are
	// left out: what is impossible under them merely adds an arm that is
	// never taken, and the queries stay small.
	saveBase := in.localBase
	in.localBase = savePC
	for len(sub.open) > 0 && ok {
		it := sub.open[len(sub.open)-1]
		sub.open = sub.open[:len(sub.open)-1]
		c := &ctx{prefix: it.Dec, local: sub}
		in.cx = c
		in.wit = it.Wit
		var res Value
		good := func() (good bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case *TPanic:
						good = false
					case *endPath:
						if r.(*endPath).k != endUnsupported && r.(*endPath).k != endSteps {
							panic(r)
						}
						good = false
					default:
						panic(r)
					}
				}
			}()
			res = in.run(fn, args, free)
			return true
		}()
		in.depth = depth
		in.frames = in.frames[:nframes]
		in.stackTop = stackTop
		if good && first && len(c.trace) == 0 {
			single = res
			paths = append(paths, mergePath{})
			break
		}
		first = false
		if !good && savePC > saveBase { // does the failure really happen?
			in.localBase = saveBase
			cond := in.tt.True
			for _, t := range in.pc[savePC:] {
				cond = in.tt.And(cond, t)
			}
			if r, _ := in.feasible(cond); r == unsat {
				in.localBase = savePC
				in.truncPC(savePC)
				continue
			}
			in.localBase = savePC
		}
		if !good || len(in.vars) != saveVars {
			ok = false
		} else {
			sub.count++
			in.st.SubPaths++
			cond := in.tt.True
			for _, t := range in.pc[savePC:] {
				cond = in.tt.And(cond, t)
			}
			var rs []Value
			if tu, isT := res.R.(*Tuple); isT {
				rs = tu.v
			} else {
				rs = []Value{res}
			}
			paths = append(paths, mergePath{c.trace, cond, rs, in.wit})
			if sub.count+len(sub.open) > maxSubPaths {
				ok = false
			}
		}
		in.truncPC(savePC)
	}
	in.truncPC(savePC)
	in.localBase = saveBase
	in.cx = parent
	in.wit = saveWit
	if ok && len(paths) == 1 && paths[0].cond == nil {
		return single
	}
	if !ok {
		in.noMerge[fn]++
		if d, rec := parent.next(); rec {
			if d.K != 'x' {
				panic(&endPath{endDiverge, "replay: no-merge mark expected"})
			}
		} else {
			parent.trace = append(parent.trace, dec{K: 'x', V: seq})
		}
		return in.run(fn, args, free)
	}
	in.st.Merges++
	sort.SliceStable(paths, func(i, j int) bool { return lessTrace(paths[i].tr, paths[j].tr) })
	sig := fn.Signature.Results()
	// group by concrete machine-int results
	type group struct {
		key   string
		paths []mergePath
		cond  *Term
	}
	var groups []*group
	byKey := map[string]*group{}
	for _, p := range paths {
		key := ""
		for i, r := range p.res {
			if kindOf(sig.At(i).Type()).w == 64 && r.R == nil {
				key += fmt.Sprintf("%d,", int64(r.N))
			} else {
				key += "_,"
			}
		}
		g := byKey[key]
		if g == nil {
			g = &group{key: key, cond: in.tt.False}
			byKey[key] = g
			groups = append(groups, g)
		}
		g.paths = append(g.paths, p)
		g.cond = in.tt.Or(g.cond, p.cond)
	}
	g := groups[0]
	if len(groups) > 1 {
		hash := func(k string) uint64 {
			h := uint64(14695981039346656037)
			for i := 0; i < len(k); i++ {
				h = (h ^ uint64(k[i])) * 1099511628211
			}
			return h
		}
		if d, rec := parent.next(); rec {
			if d.K != 'g' {
				panic(&endPath{endDiverge, "replay: group expected"})
			}
			g = nil
			for _, x := range groups {
				if hash(x.key) == d.V {
					g = x
				}
			}
			if g == nil {
				panic(&endPath{endDiverge, "replay: group not found"})
			}
		} else {
			g = nil
			for _, x := range groups {
				if in.evalWit(x.cond) != 0 {
					g = x
					break
				}
			}
			if g == nil {
				panic(&endPath{endDiverge, "no merged path holds for the witness"})
			}
			for _, x := range groups {
				if x == g {
					continue
				}
				switch r, w := in.feasible(x.cond); r {
				case sat:
					in.pushAlt(parent, dec{K: 'g', V: hash(x.key)}, w)
				case unknown:
					in.incomplete("solver gave no verdict on a branch")
				}
			}
			parent.trace = append(parent.trace, dec{K: 'g', V: hash(g.key)})
		}
		in.addPC(g.cond)
	}
	res := make([]Value, sig.Len())
	for i := range res {
		k := kindOf(sig.At(i).Type())
		last := g.paths[len(g.paths)-1].res[i]
		same := true
		for _, p := range g.paths {
			if p.res[i] != last {
				same = false
			}
		}
		if same {
			res[i] = last
			continue
		}
		t := in.term(last, k.w)
		for j := len(g.paths) - 2; j >= 0; j-- {
			t = in.tt.Ite(g.paths[j].cond, in.term(g.paths[j].res[i], k.w), t)
		}
		res[i] = in.scalar(t)
	}
	if len(res) == 1 {
		return res[0]
	}
	return Value{R: &Tuple{res}}
}

// mergeable says whether fn can be run by mergeCall: no effects, results
// scalar, all callees the same.
func (in *Interp) mergeable(fn *ssa.Function) bool {
	if v, ok := in.mergeOK[fn]; ok {
		return v == 1
	}
	in.mergeOK[fn] = 0 // recursion: no
	res := fn.Signature.Results()
	ok := res.Len() > 0 && fn.Blocks != nil
	for i := 0; ok && i < res.Len(); i++ {
		k := kindOf(res.At(i).Type())
		if k.kind != kInt && k.kind != kBool {
			ok = false
		}
	}
	ok = ok && in.pureBody(fn)
	if ok {
		in.mergeOK[fn] = 1
	}
	return ok
}

func (in *Interp) pureBody(fn *ssa.Function) bool {
	if fn.Recover != nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr,
				*ssa.Index, *ssa.IndexAddr, *ssa.Slice, *ssa.Extract, *ssa.DebugRef, *ssa.Lookup, *ssa.Panic, *ssa.MakeInterface, *ssa.Alloc:
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.Next:
				if !x.IsString {
					return false
				}
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.Call:
				switch f := x.Call.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if x.Call.IsInvoke() {
						return false
					}
					if in.pureIntr(f) {
						continue
					}
					if in.hasIntr(f) || !in.mergeable(f) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	}
	return false
}

func lessTrace(a, b []dec) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i].V<<1, b[i].V<<1
		if a[i].T {
			x |= 1
		}
		if b[i].T {
			y |= 1
		}
		if x != y {
			return x < y
		}
	}
	return len(a) < len(b)
}
