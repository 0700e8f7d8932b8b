// Command run replays harnesses natively against the real code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"kvh/h"
	"kvh/sym"
)

// Job is one replay; a line of JSON on standard input.
type Job struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Vals    []uint64       `json:"vals"`
}

// Result is one line of JSON on standard output.
type Result struct {
	Status string   `json:"status"` // ok, violation, panic, skip
	Msg    string   `json:"msg,omitempty"`
	Obs    []string `json:"obs,omitempty"`
}

func main() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(4 << 30)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	var jobs []Job
	for in.Scan() {
		var j Job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		jobs = append(jobs, j)
	}
	stdin := os.Stdin
	for _, j := range jobs {
		r := run(j)
		os.Stdin = stdin
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

func run(j Job) (res Result) {
	hs, ok := h.All[j.Harness]
	if !ok {
		return Result{Status: "error", Msg: "no harness " + j.Harness}
	}
	sym.Cur = &sym.Run{Name: j.Harness, Vals: j.Vals, Params: j.Params}
	defer func() {
		res.Obs = sym.Cur.Obs
		if sym.Cur.Dir != "" {
			os.RemoveAll(sym.Cur.Dir)
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sym.Violation:
				res.Status, res.Msg = "violation", x.Msg
			case sym.Skip:
				res.Status = "skip"
			default:
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				res.Status, res.Msg = "panic", fmt.Sprint(r)+"\n"+st
			}
		}
	}()
	if hs.Setup != nil {
		hs.Setup()
	}
	hs.Run()
	res.Status = "ok"
	return
}
