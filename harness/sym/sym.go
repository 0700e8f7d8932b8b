// Package sym is the interface between a harness and the two ways of running
// it. The symbolic engine intercepts every function of this package; compiled
// natively, the functions below replay recorded values.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Run is the state of a native replay.
type Run struct {
	Vals   []uint64
	Params map[string]int
	Pos    int
	Obs    []string
	Dir    string // scratch directory for files
	nfile  int
	Name   string // of the harness
}

// Cur is the current native replay.
var Cur = &Run{}

// Violation is the panic value of a failed assertion, Skip of a failed
// assumption.
type Violation struct{ Msg string }
type Skip struct{}

func next() uint64 {
	if Cur.Pos >= len(Cur.Vals) {
		Cur.Pos++
		return 0
	}
	v := Cur.Vals[Cur.Pos]
	Cur.Pos++
	return v
}

func Byte() byte   { return byte(next()) }
func Bool() bool   { return next() != 0 }
func Int8() int8   { return int8(next()) }
func Int16() int16 { return int16(next()) }
func Int32() int32 { return int32(next()) }
func Rune() rune   { return rune(next()) }
func Int() int     { return int(next()) }

// Bytes is n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// String is an arbitrary string of n bytes.
func String(n int) string { return string(Bytes(n)) }

// Choose is an arbitrary number below n (n <= 256), explored value by value.
func Choose(n int) int {
	v := int(byte(next()))
	if v >= n {
		panic(Skip{})
	}
	return v
}

// Fix makes the engine explore x value by value.
func Fix(x int) int { return x }

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Assert states what has to hold.
func Assert(b bool, msg string) {
	if !b {
		panic(Violation{msg})
	}
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Param is a bound of the run.
func Param(name string, def int) int {
	if v, ok := Cur.Params[name]; ok {
		return v
	}
	return def
}

// Reach marks a point that the exploration has to reach.
func Reach(string) {}

// Observe records a value for comparison between engine and native run.
func Observe(name string, v any) { Cur.Obs = append(Cur.Obs, name+"="+render(reflect.ValueOf(v))) }

func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.String:
		return strconv.QuoteToASCII(v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.QuoteToASCII(string(v.Bytes()))
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "?"
}

// Native is true outside the engine.
func Native() bool { return true }

// PoolReset empties every sync.Pool.
func PoolReset() {
	runtime.GC()
	runtime.GC()
}

// Fresh is what f returns in a process in which nothing has happened but what
// this harness has done so far. The effects of f do not stay.
func Fresh(f func() []string) []string {
	if os.Getenv("KVH_FRESH") != "" {
		var out [][]byte
		for _, s := range f() {
			out = append(out, []byte(s))
		}
		b, _ := json.Marshal(out)
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	job, _ := json.Marshal(map[string]any{"harness": Cur.Name, "params": Cur.Params, "vals": Cur.Vals})
	c := exec.Command(exe)
	c.Stdin = bytes.NewReader(append(job, '\n'))
	c.Env = append(os.Environ(), "KVH_FRESH=1", "KVH_DIR="+filepath.Dir(scratch()))
	b, err := c.Output()
	var in [][]byte
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		panic("fresh process: " + err.Error())
	}
	var r []string
	for _, s := range in {
		r = append(r, string(s))
	}
	return r
}

// Process is what f prints in a process of its own, with the exit status.
func Process(f func()) (stdout, stderr string, code int) {
	if os.Getenv("KVH_PROC") != "" {
		f()
		os.Exit(0)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	job, _ := json.Marshal(map[string]any{"harness": Cur.Name, "params": Cur.Params, "vals": Cur.Vals})
	var out, diag bytes.Buffer
	c := exec.Command(exe)
	c.Stdin = bytes.NewReader(append(job, '\n'))
	c.Env = append(os.Environ(), "KVH_PROC=1", "KVH_DIR="+filepath.Dir(scratch()))
	c.Stdout, c.Stderr = &out, &diag
	if err := c.Run(); err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = x.ExitCode()
	}
	return out.String(), diag.String(), code
}

// Monitor switches the ownership monitor of the engine.
func Monitor(bool) {}

func scratch() string {
	if Cur.Dir == "" {
		d := os.Getenv("KVH_DIR") // of the process that made this one
		if d == "" {
			var err error
			if d, err = os.MkdirTemp("", "kvh"); err != nil {
				panic(err)
			}
		}
		Cur.Dir = d
	}
	Cur.nfile++
	return filepath.Join(Cur.Dir, fmt.Sprintf("file-%d", Cur.nfile))
}

// File is a file with the given contents.
func File(b []byte) string {
	n := scratch()
	if err := os.WriteFile(n, b, 0o600); err != nil {
		panic(err)
	}
	return n
}

// OutFile is a fresh name for an output file.
func OutFile() string { return scratch() }

// ReadFile is the contents of a file.
func ReadFile(n string) (string, bool) {
	b, err := os.ReadFile(n)
	return string(b), err == nil
}

// RepoFile is the contents of a file of the repository.
func RepoFile(rel string) string {
	b, err := os.ReadFile("/repo/" + rel)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// SetStdin makes b the standard input.
func SetStdin(b []byte) {
	f, err := os.Open(File(b))
	if err != nil {
		panic(err)
	}
	os.Stdin = f
}

// SetStdinFail makes b the standard input, at whose end reading fails.
func SetStdinFail(b []byte) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go w.Write(b) // stays open
	if err := r.SetReadDeadline(time.Now().Add(300 * time.Millisecond)); err != nil {
		panic(err)
	}
	os.Stdin = r
	kept = append(kept, w)
}

var kept []*os.File

// Dir is the name of a directory.
func Dir() string {
	n := scratch()
	if err := os.Mkdir(n, 0o700); err != nil {
		panic(err)
	}
	return n
}

// OpenFiles is the number of files the program has opened and not closed.
func OpenFiles() int {
	debug.SetGCPercent(-1) // which would close forgotten files
	n := 0
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, d := range ds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil || l == os.Stdin.Name() {
			continue
		}
		if l == "/dev/full" || Cur.Dir != "" && strings.HasPrefix(l, Cur.Dir+"/") {
			n++
		}
	}
	return n
}

// Finishes runs f; it is a violation if f can stay blocked for good.
func Finishes(f func(), msg string) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(time.Duration(Param("limit", 8)) * time.Second):
		panic(Violation{msg})
	}
}

// Leftover lets all other goroutines run as far as they can and counts those
// that have not ended (natively px counts them).
func Leftover() int { return 0 }

// Timer makes a goroutine for f that starts at any time (engine only).
func Timer(f func()) { panic("sym.Timer outside the engine") }

// NoReplay keeps the path from being replayed natively as a sample.
func NoReplay() {}

// Inject stores val in the first field of *dst whose type is val's.
func Inject(dst, val any) bool {
	return inject(reflect.ValueOf(dst).Elem(), reflect.ValueOf(val))
}

func inject(d, v reflect.Value) bool {
	if d.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < d.NumField(); i++ {
		f := d.Field(i)
		if f.Type() == v.Type() {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(v)
			return true
		}
		if inject(f, v) {
			return true
		}
	}
	return false
}

var _ = io.EOF
