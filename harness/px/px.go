// Package px describes the environment of the server commands: the external
// graph renderer, the network listener, signals and time. The engine runs the
// functions of this file in place of the library's (the table is in the
// engine's intrinsics); natively, native.go sets up the real thing.
package px

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sync"
	"time"

	"kvh/sym"
)

// Kinds of renderers.
const (
	Missing     = iota // not in PATH
	CannotStart        // starting it fails
	Good               // reads everything, writes the graphic, ends with 0
	Fails              // reads everything, writes part of the graphic, ends with 1
	Deaf0              // ends with 0 without reading
	Deaf1              // ends with 1 without reading
	Part               // reads the start and ends with 1
	Mute               // hangs and does not read
	Stuck              // reads everything and hangs
	Holds              // hangs, and what it started keeps its output open
	Kinds
)

// Plan is what the environment does.
type Plan struct {
	Kind int
	Big  bool // the graph is larger than the pipe to the renderer

	Listen int  // 0: works; 1: fails at once; 2: fails later
	Busy   bool // a request never ends

	Graphic string // what the renderer writes, if not SVG
}

const SVG = "<?xml version=\"1.0\"?>\n<svg id=\"kvh\">graph</svg>\n"

// graphic is what the renderer writes.
func graphic(p Plan) string {
	if p.Graphic == "" {
		return SVG
	}
	return p.Graphic
}

var (
	plan    Plan
	fired   bool
	procs   = map[*exec.Cmd]*proc{}
	byProc  = map[*os.Process]*proc{}
	running int
	timers  = map[*time.Timer]*timer{}
	srvs    = map[*http.Server]*srv{}
	sigs    = map[chan<- os.Signal]bool{}
)

func reset(p Plan) {
	Serving = nil
	plan, running, fired = p, 0, false
	procs = map[*exec.Cmd]*proc{}
	byProc = map[*os.Process]*proc{}
	timers = map[*time.Timer]*timer{}
	srvs = map[*http.Server]*srv{}
	sigs = map[chan<- os.Signal]bool{}
}

// ---- os/exec

type proc struct {
	ctx     context.Context
	started bool
	waited  bool
	gone    bool
	status  int // -1: killed
	exited  chan struct{}
	outDone chan struct{} // nothing holds the output open any more
	out     string
	watch   chan error
	stop    chan struct{}
	copiers int
	piped   bool // StdinPipe
	errs    chan error
}

type exitError struct{ s string }

func (e *exitError) Error() string { return e.s }

func LookPath(file string) (string, error) {
	if plan.Kind == Missing {
		return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
	}
	return "/usr/bin/" + file, nil
}

func Command(name string, arg ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
	procs[c] = &proc{}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	p := procs[c]
	p.ctx = ctx
	c.Cancel = func() error { return p.kill() }
	return c
}

func (p *proc) exit(status int) {
	if p.gone {
		return
	}
	p.gone, p.status = true, status
	running--
	close(p.exited)
	if plan.Kind != Holds {
		close(p.outDone)
	}
}

func (p *proc) kill() error {
	if p.gone {
		return os.ErrProcessDone
	}
	p.exit(-1)
	return nil
}

func Kill(o *os.Process) error { return byProc[o].kill() }

func Start(c *exec.Cmd) error {
	p := procs[c]
	if p.started {
		return errors.New("exec: already started")
	}
	if p.ctx == nil && c.Cancel != nil {
		return errors.New("exec: command with a non-nil Cancel was not created with CommandContext")
	}
	p.started = true
	if plan.Kind == Missing {
		return &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	if p.ctx != nil && p.ctx.Err() != nil {
		return p.ctx.Err()
	}
	if plan.Kind == CannotStart {
		return errors.New("fork/exec " + c.Path + ": exec format error")
	}
	c.Process = &os.Process{Pid: 4711}
	byProc[c.Process] = p
	running++
	p.exited, p.outDone, p.stop = make(chan struct{}), make(chan struct{}), make(chan struct{})
	p.errs = make(chan error, 3)
	switch plan.Kind {
	case Deaf0:
		go p.exit(0)
	case Deaf1:
		go p.exit(1)
	}
	if c.Stdin != nil {
		p.copiers++
		go p.copyIn(c.Stdin)
	} else if !p.piped {
		p.eof()
	}
	if _, ok := c.Stdout.(*os.File); !ok && c.Stdout != nil {
		p.copiers++
		go p.copyOut(c.Stdout)
	}
	if _, ok := c.Stderr.(*os.File); !ok && c.Stderr != nil {
		p.copiers++
		go p.copyOut(nil)
	}
	if p.ctx != nil && p.ctx.Done() != nil {
		p.watch = make(chan error)
		go p.watchCtx(c)
	}
	return nil
}

func (p *proc) watchCtx(c *exec.Cmd) {
	select {
	case p.watch <- nil:
		return
	case <-p.ctx.Done():
	}
	var err error
	if c.Cancel != nil {
		if e := c.Cancel(); e == nil {
			err = p.ctx.Err()
		} else if !errors.Is(e, os.ErrProcessDone) {
			err = e
		}
	}
	p.watch <- err
}

// copyIn feeds the process.
func (p *proc) copyIn(r io.Reader) {
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		if n > 0 && !p.take() {
			break
		}
		if err != nil {
			break
		}
	}
	p.eof()
	p.errs <- nil
}

// take is a write to the pipe the process reads from.
func (p *proc) take() bool {
	if p.gone {
		return false
	}
	switch plan.Kind {
	case Part:
		p.exit(1)
	case Deaf0, Deaf1, Mute, Holds:
		if plan.Big {
			<-p.exited
			return false
		}
	}
	return true
}

// eof is the end of the input of the process.
func (p *proc) eof() {
	switch {
	case p.gone:
	case plan.Kind == Good:
		p.out = graphic(plan)
		p.exit(0)
	case plan.Kind == Fails:
		p.out = graphic(plan)[:len(graphic(plan))/2]
		p.exit(1)
	case plan.Kind == Part:
		p.exit(1)
	}
}

func (p *proc) copyOut(w io.Writer) {
	select {
	case <-p.outDone:
	case <-p.stop:
	}
	var err error
	if w != nil && p.out != "" {
		_, err = io.WriteString(w, p.out)
	}
	p.errs <- err
}

func Wait(c *exec.Cmd) error {
	p := procs[c]
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if p.waited {
		return errors.New("exec: Wait was already called")
	}
	p.waited = true
	<-p.exited
	var err error
	switch p.status {
	case 0:
	case -1:
		err = &exitError{"signal: killed"}
	default:
		err = &exitError{"exit status 1"}
	}
	if p.watch != nil {
		if e := <-p.watch; err == nil {
			err = e
		}
	}
	if c.WaitDelay > 0 {
		sym.Timer(func() { close(p.stop) })
	}
	for ; p.copiers > 0; p.copiers-- {
		if e := <-p.errs; err == nil {
			err = e
		}
	}
	return err
}

func Run(c *exec.Cmd) error {
	if err := Start(c); err != nil {
		return err
	}
	return Wait(c)
}

func Output(c *exec.Cmd) ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	w := &writer{}
	c.Stdout = w
	err := Run(c)
	return w.b, err
}

type writer struct{ b []byte }

func (w *writer) Write(b []byte) (int, error) {
	w.b = append(w.b, b...)
	return len(b), nil
}

// StdinPipe is the pipe to the process itself.
func StdinPipe(c *exec.Cmd) (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	p := procs[c]
	if p.started {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	p.piped = true
	return &stdin{p: p}, nil
}

type stdin struct {
	p      *proc
	closed bool
}

func (s *stdin) Write(b []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	if !s.p.take() {
		return 0, errors.New("write |1: broken pipe")
	}
	return len(b), nil
}

func (s *stdin) Close() error {
	if s.closed {
		return os.ErrClosed
	}
	s.closed = true
	s.p.eof()
	return nil
}

// ---- time

type timer struct {
	done bool
	f    func()
}

func after(f func()) *time.Timer {
	t := &time.Timer{}
	s := &timer{f: f}
	timers[t] = s
	sym.Timer(func() {
		if !s.done {
			s.done = true
			f()
		}
	})
	return t
}

func AfterFunc(_ time.Duration, f func()) *time.Timer { return after(func() { go f() }) }

func StopTimer(t *time.Timer) bool {
	s := timers[t]
	was := !s.done
	s.done = true
	return was
}

func NewTimer(time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := after(func() { c <- time.Time{} })
	t.C = c
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Sleep(d time.Duration) { <-After(d) }

type timed struct {
	context.Context
	mu    sync.Mutex
	fired bool
	at    time.Time
}

func (t *timed) Err() error {
	if t.fired {
		return context.DeadlineExceeded
	}
	return t.Context.Err()
}

func (t *timed) Deadline() (time.Time, bool) { return t.at, true }

func WithTimeout(parent context.Context, _ time.Duration) (context.Context, context.CancelFunc) {
	base, cancel := context.WithCancel(parent)
	c := &timed{Context: base}
	t := after(func() {
		if base.Err() == nil {
			c.fired, fired = true, true
			cancel()
		}
	})
	return c, func() {
		StopTimer(t)
		cancel()
	}
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, 0)
}

// Fired says whether a time limit was reached, as far as known.
func Fired() bool { return fired }

// ---- net/http

type srv struct {
	closed bool
	done   chan struct{}
	fail   chan error
}

func server(s *http.Server) *srv {
	x := srvs[s]
	if x == nil {
		x = &srv{done: make(chan struct{}), fail: make(chan error, 1)}
		srvs[s] = x
	}
	return x
}

// Serving is called with the handler of a server that listens.
var Serving func(h http.Handler)

func ListenAndServe(s *http.Server) error {
	if server(s).closed {
		return http.ErrServerClosed
	}
	l, err := Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return Serve(s, l)
}

type listener struct{}

func (listener) Accept() (net.Conn, error) { panic("px: Accept") }
func (listener) Close() error              { return nil }
func (listener) Addr() net.Addr            { return &net.TCPAddr{} }

func Listen(network, addr string) (net.Listener, error) {
	if plan.Listen == 1 {
		return nil, errors.New("listen tcp: no")
	}
	return listener{}, nil
}

func Serve(s *http.Server, l net.Listener) error {
	x := server(s)
	if x.closed {
		return http.ErrServerClosed
	}
	if plan.Listen == 2 {
		sym.Timer(func() { x.fail <- errors.New("accept tcp: no") })
	}
	if Serving != nil {
		Serving(s.Handler)
	}
	select {
	case <-x.done:
		return http.ErrServerClosed
	case err := <-x.fail:
		return err
	}
}

func Shutdown(s *http.Server, ctx context.Context) error {
	x := server(s)
	if !x.closed {
		x.closed = true
		close(x.done)
	}
	if plan.Busy {
		<-ctx.Done()
		return ctx.Err()
	}
	return nil
}

func Close(s *http.Server) error {
	x := server(s)
	if !x.closed {
		x.closed = true
		close(x.done)
	}
	return nil
}

// ---- os/signal

func Notify(c chan<- os.Signal, _ ...os.Signal) { sigs[c] = true }
func StopSignal(c chan<- os.Signal)             { delete(sigs, c) }

func deliver(s os.Signal) {
	sym.Assume(len(sigs) > 0) // it would end the process
	for c := range sigs {
		select {
		case c <- s:
		default:
		}
	}
}

// Signal is a signal to this process.
func Signal(s os.Signal) {
	if sym.Native() {
		nativeSignal(s)
		return
	}
	deliver(s)
}
