package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Step is one bounded exploration of a check.
type Step struct {
	Harness string         `json:"harness"` // package.Function
	Params  map[string]int `json:"params"`
	Budget  float64        `json:"budget"`  // seconds
	Partial bool           `json:"partial"` // not expected to be exhausted
	Reach   []string       `json:"reach"`
	Samples int            `json:"samples"`
	Limit   int            `json:"limit"` // seconds a replay may take
	Race    bool           `json:"race"`  // confirm candidates with the race detector build
}

type Check struct {
	Quick       []Step   `json:"quick"`
	Thorough    []Step   `json:"thorough"`
	Assumptions []string `json:"assumptions"`
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string         `json:"property"`
	Status   string         `json:"status"` // known, fixed
	What     string         `json:"what"`
	Commit   string         `json:"commit,omitempty"`
	Harness  string         `json:"harness,omitempty"`
	Params   map[string]int `json:"params,omitempty"`
	Vals     []uint64       `json:"vals,omitempty"`
}

type job struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Vals    []uint64       `json:"vals"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type native struct {
	bin, race string
	env       []string
	dir       string
	mu        sync.Mutex
}

func goEnv() []string {
	e := os.Environ()
	e = append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
	return e
}

func (n *native) build(race bool) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	out := &n.bin
	args := []string{"build", "-o"}
	env := goEnv()
	if race {
		out = &n.race
		env = append(env, "CGO_ENABLED=1")
	}
	if *out != "" {
		return nil
	}
	name := "run"
	if race {
		name = "run-race"
	}
	p := filepath.Join(n.dir, name)
	args = append(args, p)
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./run")
	c := exec.Command("go", args...)
	c.Dir = harnessDir
	c.Env = env
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("build of the native harness: %v\n%s", err, b)
	}
	*out = p
	return nil
}

// run replays jobs in one process.
func (n *native) run(jobs []job, timeout time.Duration, race bool) ([]result, string, bool) {
	var in bytes.Buffer
	e := json.NewEncoder(&in)
	for _, j := range jobs {
		e.Encode(j)
	}
	bin := n.bin
	if race {
		bin = n.race
	}
	c := exec.Command(bin)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	if race {
		c.Env = append(os.Environ(), "GOMAXPROCS=8", "GORACE=halt_on_error=1 exitcode=66")
	}
	c.Stdin = &in
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		return nil, err.Error(), false
	}
	hung := false
	tm := time.AfterFunc(timeout, func() { hung = true; c.Process.Kill() })
	err := c.Wait()
	tm.Stop()
	var rs []result
	d := json.NewDecoder(&out)
	for {
		var r result
		if d.Decode(&r) != nil {
			break
		}
		rs = append(rs, r)
	}
	msg := ""
	if err != nil {
		msg = err.Error() + ": " + tail(errb.String(), 3000)
	}
	return rs, msg, hung
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func vals(v []InVal) []uint64 {
	r := make([]uint64, len(v))
	for i := range v {
		r[i] = v[i].V
	}
	return r
}

var (
	verifDir   = "/verif"
	harnessDir = "/verif/harness"
)

type stepReport struct {
	Harness    string         `json:"harness"`
	Params     map[string]int `json:"params"`
	Complete   bool           `json:"exhausted"`
	Paths      int64          `json:"paths"`
	Decisions  int64          `json:"decisions"`
	Queries    int64          `json:"solver_queries"`
	Asserts    int64          `json:"assertion_queries"`
	Holds      int64          `json:"assertions_unsat"`
	Const      int64          `json:"assertions_by_simplification"`
	SolverS    float64        `json:"solver_s"`
	WallS      float64        `json:"wall_s"`
	Validated  int            `json:"paths_replayed_natively"`
	Mismatch   int            `json:"replay_disagreements"`
	MaxPC      int            `json:"longest_path_condition"`
	Incomplete []string       `json:"left_out,omitempty"`
	Unreached  []string       `json:"unreached,omitempty"`
	Spurious   int            `json:"candidates_not_reproduced"`
}

func main() {
	debug.SetGCPercent(400)
	tier := flag.String("tier", "quick", "quick or thorough")
	one := flag.String("harness", "", "run one harness only (package.Function)")
	params := flag.String("params", "", "k=v,... for -harness")
	budget := flag.Float64("budget", 0, "seconds per step, overriding the configuration")
	solver := flag.String("solver", "z3-new", "z3, z3-new or cvc5")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	replay := flag.String("replay", "", "replay a violation file natively")
	cpuprof := flag.String("cpuprofile", "", "")
	genOnly := flag.Bool("gen", false, "only generate harness/gen")
	nonative := flag.Bool("nonative", false, "no native replay")
	flag.BoolVar(&debugOn, "debug", false, "")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.Parse()
	harnessDir = filepath.Join(verifDir, "harness")
	if err := genMain(); err != nil {
		fatal(err)
	}
	if *genOnly {
		return
	}
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	nat := &native{dir: tmp}
	if *replay != "" {
		code := doReplay(nat, *replay)
		os.RemoveAll(tmp)
		os.Exit(code)
	}
	id := flag.Arg(0)
	var ck Check
	if *one != "" {
		st := Step{Harness: *one, Params: map[string]int{}, Budget: 600, Samples: 100}
		for _, kv := range strings.Split(*params, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				n, _ := strconv.Atoi(v)
				st.Params[k] = n
			}
		}
		ck.Quick = []Step{st}
		ck.Thorough = ck.Quick
		if id == "" {
			id = "adhoc"
		}
	} else {
		b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
		if err != nil {
			fatal(err)
		}
		all := map[string]Check{}
		if err := json.Unmarshal(b, &all); err != nil {
			fatal(err)
		}
		var ok bool
		if ck, ok = all[id]; !ok {
			fatal(fmt.Errorf("no check %q", id))
		}
	}
	steps := ck.Quick
	if *tier == "thorough" && len(ck.Thorough) > 0 {
		steps = ck.Thorough
	}
	if *budget > 0 {
		for i := range steps {
			steps[i].Budget = *budget
		}
	}
	code := runCheck(id, *tier, ck, steps, nat, solverArgv(*solver, 20000), *nw, !*nonative)
	os.RemoveAll(tmp)
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(2)
}

func doReplay(nat *native, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	if err := nat.build(v.Race); err != nil {
		fatal(err)
	}
	rs, msg, hung := nat.run([]job{{v.Harness, v.Params, vals(v.Inputs)}}, 60*time.Second, v.Race)
	fmt.Println(rs, msg, hung)
	if len(rs) == 1 && (rs[0].Status == "ok" || rs[0].Status == "skip") {
		return 0
	}
	return 1
}

type violation struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"solver_says"`
	Native   string         `json:"native_says"`
	Inputs   []InVal        `json:"inputs"`
	Race     bool           `json:"race,omitempty"`
	How      string         `json:"how_to_replay"`
}

func runCheck(id, tier string, ck Check, steps []Step, nat *native, solver []string, nw int, useNative bool) int {
	t0 := time.Now()
	pk := map[string]bool{}
	var pats []string
	for _, s := range steps {
		p, _, _ := strings.Cut(s.Harness, ".")
		if !pk[p] {
			pk[p] = true
			pats = append(pats, "./h/"+p)
		}
	}
	pats = append(pats, "./symjson", "./px")
	var natErr error
	var wg sync.WaitGroup
	if useNative {
		wg.Add(1)
		go func() { defer wg.Done(); natErr = nat.build(false) }()
	}
	p, err := loadProgram(harnessDir, pats, goEnv())
	if err != nil {
		fatal(err)
	}
	loadS := time.Since(t0).Seconds()
	wg.Wait()
	if natErr != nil {
		fatal(natErr)
	}
	ex := newExplorer(p, nw, solver)
	var reports []stepReport
	var viol *violation
	var vmu sync.Mutex
	var tot Stats
	validated, mismatches, spurious := 0, 0, 0
	var sampOut []any
	var spur []string

	for _, st := range steps {
		pkg, fname, _ := strings.Cut(st.Harness, ".")
		sp := p.pkgs["kvh/h/"+pkg]
		if sp == nil || sp.Func(fname) == nil {
			fatal(fmt.Errorf("no harness %s", st.Harness))
		}
		if st.Budget == 0 {
			st.Budget = 120
		}
		if st.Samples == 0 {
			st.Samples = 100
		}
		if st.Race && useNative {
			if err := nat.build(true); err != nil {
				fatal(err)
			}
		}
		ts := time.Now()
		var cwg sync.WaitGroup
		sem := make(chan bool, 2)
		stepSpur := 0
		onCand := func(c *Cand) {
			if debugOn {
				fmt.Println("candidate:", c.Kind, c.Msg, vals(c.Vals))
			}
			if !useNative {
				vmu.Lock()
				spur = append(spur, c.Kind+": "+c.Msg)
				vmu.Unlock()
				return
			}
			cwg.Add(1)
			go func() {
				defer cwg.Done()
				sem <- true
				defer func() { <-sem }()
				vmu.Lock()
				done := viol != nil
				vmu.Unlock()
				if done {
					return
				}
				ok, say := confirm(nat, st, c)
				vmu.Lock()
				defer vmu.Unlock()
				if !ok {
					stepSpur++
					if len(spur) < 20 {
						spur = append(spur, c.Kind+": "+c.Msg+" | native: "+say)
					}
					return
				}
				if viol == nil {
					viol = &violation{Property: id, Harness: st.Harness, Params: st.Params, Kind: c.Kind, Msg: c.Msg, Native: say, Inputs: c.Vals, Race: st.Race,
						How: "sh /verif/check.sh -replay <this file>"}
				}
				ex.Stop()
			}()
		}
		complete := ex.Run(sp.Func(fname), sp.Func("Setup"), st.Params, ts.Add(time.Duration(st.Budget*float64(time.Second))), st.Samples, onCand)
		cwg.Wait()
		r := stepReport{Harness: st.Harness, Params: st.Params, Complete: complete, Paths: ex.Stats.Paths, Decisions: ex.Stats.Branches,
			Queries: ex.Stats.Queries, Asserts: ex.Stats.AssertQ, Holds: ex.Stats.AssertUnsat, Const: ex.Stats.AssertConst,
			SolverS: float64(ex.Stats.SolverNS) / 1e9, MaxPC: ex.maxPC, Spurious: stepSpur}
		for n, c := range ex.notes {
			r.Incomplete = append(r.Incomplete, fmt.Sprintf("%s (x%d)", n, c))
		}
		sort.Strings(r.Incomplete)
		for _, m := range st.Reach {
			if !ex.reach[m] {
				r.Unreached = append(r.Unreached, m)
			}
		}
		// replay sampled paths against the compiled code
		if useNative && viol == nil && len(ex.Samples) > 0 {
			var jobs []job
			for _, s := range ex.Samples {
				jobs = append(jobs, job{st.Harness, st.Params, vals(s.Vals)})
			}
			rs, _, _ := nat.run(jobs, 120*time.Second, false)
			for i, s := range ex.Samples {
				if i >= len(rs) {
					r.Mismatch++
					continue
				}
				switch {
				case rs[i].Status == "violation" || rs[i].Status == "panic":
					if ok, say := confirm(nat, st, &Cand{Kind: "assert", Vals: s.Vals}); ok && viol == nil {
						viol = &violation{Property: id, Harness: st.Harness, Params: st.Params, Kind: "replay", Msg: "found when a solver-generated input was replayed", Native: say, Inputs: s.Vals}
					} else {
						r.Mismatch++
					}
				case rs[i].Status != "ok" || strings.Join(rs[i].Obs, "\n") != strings.Join(s.Obs, "\n"):
					r.Mismatch++
					if len(spur) < 20 {
						spur = append(spur, fmt.Sprintf("replay disagreement %s %v: engine %v, native %s %v", st.Harness, vals(s.Vals), s.Obs, rs[i].Status, rs[i].Obs))
					}
				default:
					r.Validated++
				}
			}
			for i := 0; i < len(ex.Samples) && i < 2; i++ {
				k := ex.Samples[(i*37)%len(ex.Samples)]
				sampOut = append(sampOut, map[string]any{"harness": st.Harness, "params": st.Params, "inputs": vals(k.Vals), "observed": k.Obs})
			}
		}
		r.WallS = time.Since(ts).Seconds()
		validated += r.Validated
		mismatches += r.Mismatch
		spurious += r.Spurious
		tot.add(&ex.Stats)
		reports = append(reports, r)
		fmt.Printf("%s %v: exhausted=%v paths=%d decisions=%d queries=%d (unknown %d, cache %d, dom %d) asserts=%d/%d const=%d solver=%.1fs wall=%.1fs assumed-away=%d merges=%d/%d steps=%d validated=%d mismatch=%d spurious=%d %v unreached=%v\n", st.Harness, st.Params, r.Complete,
			r.Paths, r.Decisions, r.Queries, ex.Stats.Unknown, ex.Stats.CacheHits, ex.Stats.DomHits, r.Holds, r.Asserts, r.Const, r.SolverS, r.WallS, ex.Stats.Assumed, ex.Stats.Merges, ex.Stats.SubPaths, ex.Stats.Steps, r.Validated, r.Mismatch, r.Spurious, r.Incomplete, r.Unreached)
		if viol != nil {
			break
		}
	}
	for i, s := range spur {
		if i < 10 {
			fmt.Println("not reported:", s)
		}
	}
	exit := 0
	if viol != nil {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, id+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("violated: %s %v: %s\n  native: %s\n", viol.Harness, viol.Params, viol.Msg, tail(viol.Native, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		exit = 1
	} else {
		known(id, nat, useNative)
		if tot.Paths == 0 {
			fmt.Println("no path could be explored")
			exit = 2
		}
	}
	writeEvidence(id, tier, ck, reports, &tot, ex, validated, mismatches, spurious, sampOut, time.Since(t0).Seconds(), loadS, viol, solver)
	return exit
}

// confirm replays a candidate against the compiled code.
func confirm(nat *native, st Step, c *Cand) (bool, string) {
	js := []job{{st.Harness, st.Params, vals(c.Vals)}}
	if st.Race {
		_, msg, _ := nat.run(js, 120*time.Second, true)
		if strings.Contains(msg, "DATA RACE") || strings.Contains(msg, "exit status 66") {
			return true, msg
		}
	}
	limit := st.Limit
	if limit == 0 {
		limit = 20
	}
	rs, msg, hung := nat.run(js, time.Duration(limit)*time.Second, false)
	if hung {
		return true, fmt.Sprintf("the run did not end within %d s", limit)
	}
	if len(rs) == 0 {
		if strings.Contains(msg, "fatal error") || strings.Contains(msg, "panic") {
			return true, msg
		}
		return false, msg
	}
	switch rs[0].Status {
	case "violation", "panic":
		return true, rs[0].Status + ": " + rs[0].Msg
	}
	return false, rs[0].Status
}

func known(id string, nat *native, useNative bool) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fatal(err)
	}
	for _, f := range fs {
		if f.Property != id || f.Status != "known" || !useNative {
			continue
		}
		rs, _, _ := nat.run([]job{{f.Harness, f.Params, f.Vals}}, 20*time.Second, false)
		if len(rs) == 1 && rs[0].Status == "violation" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
}

func writeEvidence(id, tier string, ck Check, reps []stepReport, tot *Stats, ex *Explorer, validated, mism, spurious int, samples []any, wall, loadS float64, v *violation, solver []string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	exh := true
	var left []string
	for _, r := range reps {
		exh = exh && r.Complete
		for _, n := range r.Incomplete {
			left = append(left, r.Harness+fmt.Sprint(r.Params)+": "+n)
		}
	}
	nviol := 0
	if v != nil {
		nviol = 1
	}
	cov := map[string]any{
		"states": tot.Paths, "transitions": tot.Branches, "traces_validated_against_impl": validated,
		"samples": samples, "exhaustive": exh && v == nil,
		"explanation":               "states: paths of the real code executed symbolically to their end, each standing for every input that satisfies its path condition; transitions: symbolic decisions; traces_validated: solver-generated inputs run through the compiled code with the same observations as the encoding",
		"bounds":                    ck.Bounds,
		"outside_the_bounds":        ck.Outside,
		"explorations":              reps,
		"functions_encoded":         ex.funcNames("ikawaha/kagome"),
		"library_functions_encoded": len(ex.funcs),
		"solver":                    strings.Join(solver, " "),
		"solver_queries":            tot.Queries, "solver_s": float64(tot.SolverNS) / 1e9,
		"queries_sat": tot.Sat, "queries_unsat": tot.Unsat, "queries_unknown": tot.Unknown,
		"assertions_decided_by_solver": tot.AssertQ, "assertions_unsat": tot.AssertUnsat, "assertions_decided_by_simplification": tot.AssertConst,
		"infeasible_by_assumption":  tot.Assumed,
		"replay_disagreements":      mism,
		"candidates_not_reproduced": spurious,
		"left_out":                  left,
		"load_and_build_s":          loadS,
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": nviol}
	if len(ck.Assumptions) > 0 {
		ev["assumptions"] = ck.Assumptions
	}
	if id == "adhoc" {
		return
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
}
