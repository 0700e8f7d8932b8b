package px

import (
	"fmt"
	"io"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"kvh/sym"
)

// Env is a set-up environment.
type Env struct {
	dir  string
	path string
	base int
	plan Plan
}

// Set sets up the environment of a plan.
func Set(p Plan) *Env {
	if !sym.Native() {
		reset(p)
		return &Env{plan: p}
	}
	var all []os.Signal
	for _, x := range []os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP} {
		all = append(all, x)
	}
	signal.Notify(make(chan os.Signal, 1), all...) // starts the goroutine of os/signal
	e := &Env{plan: p, dir: filepath.Dir(sym.OutFile()), path: os.Getenv("PATH")}
	bin := filepath.Join(e.dir, "bin")
	must(os.MkdirAll(bin, 0o755))
	pids := filepath.Join(e.dir, "pids")
	head := "#!/bin/sh\nPATH=/usr/bin:/bin\necho $$ >> " + pids + "\n"
	svg := filepath.Join(e.dir, "svg")
	must(os.WriteFile(svg, []byte(graphic(p)), 0o600))
	body := ""
	switch p.Kind {
	case CannotStart:
		head = "\x7fELF nothing\n"
	case Good:
		body = "cat >/dev/null\ncat " + svg + "\n"
	case Fails:
		body = fmt.Sprintf("cat >/dev/null\nhead -c %d %s\nexit 1\n", len(graphic(p))/2, svg)
	case Deaf0:
		body = "sleep 0.3\nexit 0\n"
	case Deaf1:
		body = "sleep 0.3\nexit 1\n"
	case Part:
		body = "head -c 1 >/dev/null\nexit 1\n"
	case Mute:
		body = "exec sleep 90\n"
	case Stuck:
		body = "cat >/dev/null\nexec sleep 90\n"
	case Holds:
		body = "sleep 90 &\necho $! >> " + pids + ".more\nwait\n"
	}
	if p.Kind != Missing {
		must(os.WriteFile(filepath.Join(bin, "dot"), []byte(head+body), 0o755))
		os.Setenv("PATH", bin+":"+e.path)
	} else {
		os.Setenv("PATH", bin)
	}
	e.base = runtime.NumGoroutine()
	return e
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (e *Env) pids(file string) []int {
	b, _ := os.ReadFile(filepath.Join(e.dir, file))
	var r []int
	for _, f := range strings.Fields(string(b)) {
		if n, err := strconv.Atoi(f); err == nil && n > 1 {
			r = append(r, n)
		}
	}
	return r
}

// Leftover counts the goroutines and processes that stay, once everything
// that can run has run.
func (e *Env) Leftover() int {
	if !sym.Native() {
		return sym.Leftover() + running
	}
	n := 0
	for end := time.Now().Add(3 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		n = max(0, runtime.NumGoroutine()-e.base)
		for _, p := range e.pids("pids") {
			if syscall.Kill(p, 0) == nil {
				n++
			}
		}
		if n == 0 || time.Now().After(end) {
			return n
		}
	}
}

// Close undoes Set.
func (e *Env) Close() {
	if !sym.Native() {
		return
	}
	for _, p := range append(e.pids("pids"), e.pids("pids.more")...) {
		syscall.Kill(p, syscall.SIGKILL)
	}
	os.Setenv("PATH", e.path)
}

func nativeSignal(s os.Signal) {
	// if nobody listens any more, it must not end this process
	signal.Notify(make(chan os.Signal, 1), s)
	syscall.Kill(os.Getpid(), s.(syscall.Signal))
}

// Addr is an address to listen at.
func (e *Env) Addr() string {
	if !sym.Native() {
		return ":0"
	}
	if e.plan.Listen != 0 {
		return "127.0.0.1:99999"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

// Request makes a request, once the server listens, that never ends.
func (e *Env) Request(addr string) {
	if !sym.Native() {
		return
	}
	go func() {
		for i := 0; i < 100; i++ {
			c, err := net.Dial("tcp", addr)
			if err == nil {
				fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{")
				io.Copy(io.Discard, c)
				c.Close()
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
	}()
}
