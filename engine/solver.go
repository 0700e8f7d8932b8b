package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	argv    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	epoch   int32
	emitted int // terms emitted in this process
	cache   *sharedCache
	stats   *Stats
	dead    error
	lia     *Solver // integer arithmetic
	isLia   bool
}

var slowMS, _ = strconv.Atoi(os.Getenv("GOSYM_SLOW"))

// emitMax limits the definitions a solver process is given: all of them take
// part in every later query.
var emitMax = 300

var useReset = os.Getenv("GOSYM_RESET")
var dumpDir = os.Getenv("GOSYM_DUMP")
var dumpN int

type satRes uint8

const (
	unsat satRes = iota
	sat
	unknown
)

type qres struct {
	r     satRes
	vars  []int32
	model []uint64
}

// Stats are counters of one worker.
type Stats struct {
	Paths, Queries, Sat, Unsat, Unknown, CacheHits, DomHits, ModelHits, Lia int64
	SolverNS                                                                int64
	AssertQ, AssertUnsat, AssertConst                                       int64
	Branches, Merges, SubPaths, Steps                                       int64
	Assumed, Panics, Unsupported, StepLimit, Divergence                     int64
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.CacheHits += o.CacheHits
	s.DomHits += o.DomHits
	s.ModelHits += o.ModelHits
	s.Lia += o.Lia
	s.SolverNS += o.SolverNS
	s.AssertQ += o.AssertQ
	s.AssertUnsat += o.AssertUnsat
	s.AssertConst += o.AssertConst
	s.Branches += o.Branches
	s.Merges += o.Merges
	s.SubPaths += o.SubPaths
	s.Steps += o.Steps
	s.Assumed += o.Assumed
	s.Panics += o.Panics
	s.Unsupported += o.Unsupported
	s.StepLimit += o.StepLimit
	s.Divergence += o.Divergence
}

func solverArgv(name string, timeoutMS int) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}
	case "z3-new":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMS)}
	}
	return []string{name, "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMS)}
}

func newSolver(argv []string, st *Stats, c *sharedCache) *Solver {
	return &Solver{argv: argv, cache: c, stats: st, lia: &Solver{argv: argv, cache: c, stats: st, isLia: true}}
}

func (s *Solver) start() {
	s.stop()
	s.epoch++
	s.emitted = 0
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		s.dead = err
		s.cmd = nil
		return
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	logic := "QF_BV"
	io.WriteString(s.in, "(set-option :produce-models true)\n")
	if !s.isLia {
		io.WriteString(s.in, "(set-logic "+logic+")\n")
	}
}

func (s *Solver) stop() {
	if s.lia != nil {
		s.lia.stop()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check decides the conjunction of cs and, when it is satisfiable, returns
// values for the variables in vars.
func (s *Solver) check(tt *TermTab, cs []*Term, vars []int32, varTerm func(int32) *Term) qres {
	key := queryKey(cs, vars)
	if r, ok := s.cache.get(key); ok {
		s.stats.CacheHits++
		r.vars = vars
		return r
	}
	if debugOn {
		fmt.Println("QUERY", len(cs), vars)
		for _, c := range cs {
			fmt.Println("   ", c)
		}
	}
	t0 := time.Now()
	if s.lia != nil {
		ok, wide := true, false
		for _, c := range cs {
			ok = ok && tt.liaRange(c)
		}
		for _, v := range vars {
			wide = wide || varTerm(v).w > 8
		}
		if ok && wide {
			s = s.lia
			s.stats.Lia++
		}
	}
	r := s.ask(tt, cs, vars, varTerm)
	if r.r == unknown { // one retry on a fresh process
		s.start()
		r = s.ask(tt, cs, vars, varTerm)
	}
	if d := time.Since(t0); slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
		fmt.Println("SLOW", d, "lia", s.isLia, "verdict", r.r, "vars", vars)
		for _, c := range cs {
			fmt.Println("   ", c)
		}
	}
	s.stats.SolverNS += int64(time.Since(t0))
	s.stats.Queries++
	switch r.r {
	case sat:
		s.stats.Sat++
	case unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	s.cache.put(key, r)
	return r
}

// joinSets intersects the sets given for the same byte.
func (tt *TermTab) joinSets(cs []*Term) []*Term {
	var r []*Term
	for i, c := range cs {
		if c.op != OpSet {
			r = append(r, c)
			continue
		}
		d, first := *c.dom, true
		for j, e := range cs {
			if j == i || e.op != OpSet || e.a != c.a {
				continue
			}
			if j < i {
				first = false
				break
			}
			for k := range d {
				d[k] &= e.dom[k]
			}
		}
		if first {
			r = append(r, tt.set(c.a, d))
		}
	}
	return r
}

// sharedCache remembers verdicts for all workers. Queries that differ in the
// numbers of their variables only (by a shift) share an entry.
type sharedCache struct {
	sh [64]struct {
		mu sync.Mutex
		m  map[hash2]qres
	}
}

func newSharedCache() *sharedCache {
	c := &sharedCache{}
	for i := range c.sh {
		c.sh[i].m = map[hash2]qres{}
	}
	return c
}

func (c *sharedCache) get(k hash2) (qres, bool) {
	s := &c.sh[k.a&63]
	s.mu.Lock()
	r, ok := s.m[k]
	s.mu.Unlock()
	return r, ok
}

func (c *sharedCache) put(k hash2, r qres) {
	if r.r == unknown {
		return
	}
	s := &c.sh[k.a&63]
	s.mu.Lock()
	if len(s.m) > 1<<16 {
		s.m = map[hash2]qres{}
	}
	s.m[k] = r
	s.mu.Unlock()
}

func queryKey(cs []*Term, vars []int32) hash2 {
	hs := make([]hash2, len(cs))
	for i, c := range cs {
		d := uint64(0)
		if len(c.vars) > 0 {
			d = uint64(c.vars[0]-vars[0]) + 1
		}
		hs[i] = c.h.with(d)
	}
	sort.Slice(hs, func(i, j int) bool {
		return hs[i].a < hs[j].a || hs[i].a == hs[j].a && hs[i].b < hs[j].b
	})
	k := hash2{5, 6}
	for _, h := range hs {
		k = k.with(h.a).with(h.b)
	}
	return k
}

func (s *Solver) ask(tt *TermTab, cs []*Term, vars []int32, varTerm func(int32) *Term) qres {
	if s.cmd == nil || s.emitted > emitMax {
		s.start()
		if s.cmd == nil {
			return qres{r: unknown}
		}
	}
	var sb strings.Builder
	if useReset == "push" {
		s.epoch++
		sb.WriteString("(push 1)\n")
		defer io.WriteString(s.in, "(pop 1)\n")
	} else if useReset == "reset" {
		s.epoch++
		sb.WriteString("(reset)\n(set-option :produce-models true)\n")
		if !s.isLia {
			sb.WriteString("(set-logic QF_BV)\n")
		}
	}
	emit, ref := tt.emit, smtRef
	if s.isLia {
		emit, ref = tt.emitLia, liaRef
	}
	for _, c := range cs {
		emit(c, &sb, s)
	}
	for _, v := range vars {
		emit(varTerm(v), &sb, s)
	}
	sb.WriteString("(check-sat-assuming (")
	for _, c := range cs {
		sb.WriteString(ref(c))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	if dumpDir != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", dumpDir, dumpN), []byte(sb.String()), 0o644)
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.stop()
		return qres{r: unknown}
	}
	line, err := s.line()
	if err != nil {
		return qres{r: unknown}
	}
	res := qres{r: unknown}
	switch line {
	case "unsat":
		res.r = unsat
	case "sat":
		res.r = sat
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(ref(varTerm(v)))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			res.vars = append([]int32(nil), vars...)
			res.model, err = s.values(len(vars))
			for i := range res.model {
				res.model[i] &= mask(varTerm(vars[i]).w)
			}
			if err != nil {
				s.stop()
				return qres{r: unknown}
			}
		}
	case "unknown":
	default: // an error line: the verdict cannot be trusted
		if debugOn {
			fmt.Println("solver:", line)
		}
		s.stop()
		return qres{r: unknown}
	}
	return res
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// values parses the answer to get-value.
func (s *Solver) values(n int) ([]uint64, error) {
	var txt strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		txt.WriteString(l)
		if depth == 0 && strings.TrimSpace(txt.String()) != "" {
			break
		}
	}
	r := make([]uint64, 0, n)
	neg := false
	for _, f := range strings.FieldsFunc(txt.String(), func(c rune) bool { return c == '(' || c == ')' || c == ' ' || c == '\n' }) {
		var v uint64
		var err error
		switch {
		case f == "true":
			v = 1
		case f == "false":
			v = 0
		case strings.HasPrefix(f, "#x"):
			v, err = strconv.ParseUint(f[2:], 16, 64)
		case strings.HasPrefix(f, "#b"):
			v, err = strconv.ParseUint(f[2:], 2, 64)
		case f == "-":
			neg = true
			continue
		case f[0] >= '0' && f[0] <= '9' || f[0] == '-':
			var k int64
			k, err = strconv.ParseInt(f, 10, 64)
			if neg {
				k = -k
			}
			v, neg = uint64(k), false
		default:
			continue
		}
		if err != nil {
			return nil, err
		}
		r = append(r, v)
	}
	if len(r) != n {
		return nil, fmt.Errorf("get-value: %q", txt.String())
	}
	return r, nil
}
