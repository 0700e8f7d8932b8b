package main

import (
	"fmt"
	"strings"
)

// Conditions that are linear arithmetic on machine integers which cannot
// overflow (costs and their sums) are given to the solver as integer
// arithmetic: same meaning, far cheaper than bit-blasted adders.

const (
	liaNew uint8 = iota
	liaYes
	liaNo
)

const liaMax = int64(1) << 60

// liaRange gives the signed range of a term that has an integer reading.
func (tt *TermTab) liaRange(t *Term) bool {
	if t.lia != liaNew {
		return t.lia == liaYes
	}
	t.lia = liaNo
	if t.w == 0 && !t.wide {
		t.lia = liaYes // stays in bit vectors
		return true
	}
	if t.bv != nil && t.w > 0 {
		if tt.cases(t) == nil {
			return false
		}
		t.ilo, t.ihi = liaMax, -liaMax
		for _, c := range t.cs {
			v := sext(c.v, t.w)
			if v < -liaMax || v > liaMax {
				return false
			}
			t.ilo, t.ihi = min(t.ilo, v), max(t.ihi, v)
		}
		t.lia = liaYes
		return true
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil && !tt.liaRange(x) {
			return false
		}
	}
	fits := func(lo, hi int64, w uint8) bool {
		if lo < -liaMax || hi > liaMax {
			return false
		}
		return w >= 62 || lo >= -(int64(1)<<(w-1)) && hi < int64(1)<<(w-1)
	}
	ok := true
	switch t.op {
	case OpConst:
		if t.w > 0 {
			t.ilo = sext(t.val, t.w)
			t.ihi = t.ilo
			ok = fits(t.ilo, t.ihi, t.w)
		}
	case OpVar:
		if t.w > 32 {
			ok = false
		} else if t.w > 0 {
			t.ilo, t.ihi = -(int64(1) << (t.w - 1)), int64(1)<<(t.w-1)-1
		}
	case OpNot, OpAnd, OpOr, OpEq, OpSlt:
	case OpUlt:
		ok = t.a.ilo >= 0 && t.b.ilo >= 0
	case OpIte:
		if t.w > 0 {
			t.ilo, t.ihi = min(t.b.ilo, t.c.ilo), max(t.b.ihi, t.c.ihi)
		}
	case OpAdd:
		t.ilo, t.ihi = t.a.ilo+t.b.ilo, t.a.ihi+t.b.ihi
		ok = fits(t.ilo, t.ihi, t.w)
	case OpSub:
		t.ilo, t.ihi = t.a.ilo-t.b.ihi, t.a.ihi-t.b.ilo
		ok = fits(t.ilo, t.ihi, t.w)
	case OpMul:
		x, y := t.a, t.b
		if x.op != OpConst {
			x, y = y, x
		}
		if x.op != OpConst || x.ilo > 1<<20 || x.ilo < -(1<<20) || y.ihi > 1<<36 || y.ilo < -(1<<36) {
			return false
		}
		p, q := x.ilo*y.ilo, x.ilo*y.ihi
		t.ilo, t.ihi = min(p, q), max(p, q)
		ok = fits(t.ilo, t.ihi, t.w)
	case OpSext:
		t.ilo, t.ihi = t.a.ilo, t.a.ihi
	case OpZext:
		t.ilo, t.ihi = t.a.ilo, t.a.ihi
		ok = t.a.ilo >= 0
	case OpTrunc:
		t.ilo, t.ihi = t.a.ilo, t.a.ihi
		ok = fits(t.ilo, t.ihi, t.w)
	default:
		ok = false
	}
	if !ok {
		return false
	}
	t.lia = liaYes
	return true
}

func liaRef(t *Term) string {
	switch {
	case t.w == 0 && t.op == OpConst:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case t.op == OpConst:
		return liaInt(sext(t.val, t.w))
	case t.w == 0 && !t.wide:
		return smtRef(t)
	case t.bv != nil && t.op != OpVar:
		return fmt.Sprintf("i%d", t.id)
	case t.op == OpSext, t.op == OpZext, t.op == OpTrunc:
		return liaRef(t.a)
	case t.op == OpVar:
		return fmt.Sprintf("v%d_%d", varNo(t), t.w)
	}
	return fmt.Sprintf("i%d", t.id)
}

func (tt *TermTab) emitLia(t *Term, sb *strings.Builder, s *Solver) {
	if t == nil || t.op == OpConst {
		return
	}
	if t.w == 0 && !t.wide || t.op == OpVar && t.w == 8 {
		tt.emit(t, sb, s)
		return
	}
	if t.liaEpoch == s.epoch {
		return
	}
	t.liaEpoch = s.epoch
	s.emitted++
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	if t.bv != nil && t.w > 0 {
		cs := tt.cases(t)
		for _, c := range cs[1:] {
			tt.emitLia(c.g, sb, s)
		}
		fmt.Fprintf(sb, "(declare-const i%d Int)\n(assert (= i%d ", t.id, t.id)
		for _, c := range cs[1:] {
			fmt.Fprintf(sb, "(ite %s %s ", liaRef(c.g), liaInt(sext(c.v, t.w)))
		}
		fmt.Fprintf(sb, "%s%s))\n", liaInt(sext(cs[0].v, t.w)), strings.Repeat(")", len(cs)-1))
		return
	}
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", liaRef(t), sort)
		if t.w > 0 {
			fmt.Fprintf(sb, "(assert (and (<= (- %d) %s) (<= %s %d)))\n", -t.ilo, liaRef(t), liaRef(t), t.ihi)
		}
		return
	}
	tt.emitLia(t.a, sb, s)
	tt.emitLia(t.b, sb, s)
	tt.emitLia(t.c, sb, s)
	if t.op == OpSext || t.op == OpZext || t.op == OpTrunc {
		return
	}
	op := map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpSlt: "<", OpUlt: "<", OpIte: "ite", OpAdd: "+", OpSub: "-", OpMul: "*"}[t.op]
	var e strings.Builder
	fmt.Fprintf(&e, "(%s", op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			e.WriteString(" " + liaRef(x))
		}
	}
	e.WriteString(")")
	fmt.Fprintf(sb, "(declare-const i%d %s)\n(assert (= i%d %s))\n", t.id, sort, t.id, e.String())
}

func liaInt(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}
