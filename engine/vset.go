package main

// A quick look before the solver is asked: the values each subterm can take
// when every byte is only known to lie in its own set. It ignores how bytes
// depend on each other, so it can only ever say that a condition cannot hold.

const vsetMax = 24

type vset struct {
	gen  int64
	n    int8 // number of values, -1: any
	vals []uint64
}

type vsets struct {
	gen int64
	m   []vset // by term id
	dom map[int32]*[4]uint64
}

func (in *Interp) cannotHold(cs []*Term) bool {
	vs := &in.vs
	vs.gen++
	vs.dom = map[int32]*[4]uint64{}
	for _, c := range cs {
		if c.op == OpSet {
			vs.dom[c.vars[0]] = c.dom // joined: one per variable
		}
	}
	for _, c := range cs {
		if c.op == OpSet {
			continue
		}
		s := in.vset(c)
		if s.n == 1 && s.vals[0] == 0 {
			return true
		}
	}
	return false
}

func (in *Interp) vset(t *Term) vset {
	if t.op == OpConst {
		return vset{n: 1, vals: []uint64{t.val}}
	}
	vs := &in.vs
	for int(t.id) >= len(vs.m) {
		vs.m = append(vs.m, make([]vset, 1024)...)
	}
	if s := vs.m[t.id]; s.gen == vs.gen {
		return s
	}
	r := vset{gen: vs.gen, n: -1}
	add := func(v uint64) bool {
		for _, x := range r.vals {
			if x == v {
				return true
			}
		}
		if len(r.vals) == vsetMax {
			r.vals = nil
			return false
		}
		r.vals = append(r.vals, v)
		return true
	}
	fill := func() bool {
		switch {
		case t.bv != nil:
			x := in.tt.values(t)
			d := vs.dom[t.vars[0]]
			for i := range x {
				if d == nil || d[i>>6]>>(i&63)&1 != 0 {
					if !add(x[i]) {
						return false
					}
				}
			}
			return true
		case t.op == OpVar:
			return false
		case t.op == OpIte:
			c := in.vset(t.a)
			for k, b := range []*Term{t.c, t.b} {
				if c.n == 1 && c.vals[0] != uint64(k) {
					continue
				}
				s := in.vset(b)
				if s.n < 0 {
					return false
				}
				for _, v := range s.vals {
					if !add(v) {
						return false
					}
				}
			}
			return true
		case t.op == OpAnd, t.op == OpOr:
			stop := uint64(0)
			if t.op == OpOr {
				stop = 1
			}
			x, y := in.vset(t.a), in.vset(t.b)
			if x.n == 1 && x.vals[0] == stop || y.n == 1 && y.vals[0] == stop {
				return add(stop)
			}
			if x.n == 1 && y.n == 1 {
				return add(1 - stop)
			}
			return false
		}
		x := in.vset(t.a)
		if x.n < 0 {
			return false
		}
		y := vset{n: 1, vals: []uint64{0}}
		if t.b != nil {
			if y = in.vset(t.b); y.n < 0 {
				return false
			}
		}
		for _, a := range x.vals {
			for _, b := range y.vals {
				if t.op == OpTable && a >= uint64(len(in.tt.tables[t.val].vals)) {
					continue
				}
				if !add(in.tt.apply(t, a, b, 0)) {
					return false
				}
			}
		}
		return true
	}
	if fill() {
		r.n = int8(len(r.vals))
	} else {
		r.vals = nil
	}
	vs.m[t.id] = r
	return r
}
