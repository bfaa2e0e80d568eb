// Package xexec stands in for os/exec: no process is ever started; the harness
// supplies what a command would do.
package xexec

import (
	"bytes"
	"context"
	"dst/sim"
	"dst/x/xos"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"syscall"
	"time"
)

var ErrNotFound = exec.ErrNotFound
var ErrDot = exec.ErrDot
var ErrWaitDelay = exec.ErrWaitDelay

type Error = exec.Error

// Result is what the simulated command does.
type Result struct {
	StartErr error
	Out      [][]byte // pieces written to standard output
	Err      [][]byte // pieces written to standard error
	Order    []int    // interleaving: 0 next Out piece, 1 next Err piece
	Code     int
	Signal   int
	WaitErr  error
	Deaf     bool // does not read its standard input to the end
	Sleep    int64
}

// Call is one recorded start of a command.
type Call struct {
	Path string
	Args []string
	Env  []string
	Dir  string
	In   []byte
	Seq  uint64
}

// State is the harness side.
type State struct {
	Calls   []*Call
	Cmds    []*Cmd // started
	Handler func(c *Call) *Result
}

// Get is the state of the current run.
func Get() *State { return sim.Obj[State]("xexec", func() *State { return &State{} }) }

type ProcessState struct{ code, sig int }

func (p *ProcessState) ExitCode() int {
	if p == nil || p.sig != 0 {
		return -1
	}
	return p.code
}
func (p *ProcessState) Success() bool { return p.code == 0 && p.sig == 0 }
func (p *ProcessState) Exited() bool  { return p.sig == 0 }
func (p *ProcessState) Pid() int      { return 4300 }
func (p *ProcessState) Sys() any      { return nil }
func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	if p.sig != 0 {
		return "signal: " + syscall.Signal(p.sig).String()
	}
	return "exit status " + strconv.Itoa(p.code)
}

type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Process = xos.Process

func init() {
	xos.SendSignal = func(pid int, sig os.Signal) error {
		sim.SyncPoint(site)
		st := Get()
		n, ok := sig.(syscall.Signal)
		if !ok {
			return errors.New("os: unsupported signal type")
		}
		if pid == 4300 {
			return nil // a command started here: its result stands
		}
		call := &Call{Path: "/bin/kill", Args: []string{"kill", fmt.Sprint("-", int(n)), fmt.Sprint(pid)}, Seq: sim.Seq()}
		st.Calls = append(st.Calls, call)
		if st.Handler == nil {
			return syscall.EPERM
		}
		if r := st.Handler(call); r != nil && (r.StartErr != nil || r.Code != 0 || r.Signal != 0 || r.WaitErr != nil) {
			return syscall.EPERM
		}
		return nil
	}
}

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*xos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx     context.Context
	tasks   []*sim.Task
	errs    []error
	started bool
	waited  bool
	res     *Result
	outs    []*pipe
	inW     *pipe
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: "/bin/" + name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// Waited says whether the process, which was started, has been waited for.
func (c *Cmd) Waited() bool { return c.waited }

func LookPath(f string) (string, error) { return "/bin/" + f, nil }

func (c *Cmd) String() string    { return fmt.Sprint(c.Args) }
func (c *Cmd) Environ() []string { return c.Env }

var site = sim.Site("os/exec")

// Start begins the simulated process: it reads its input, then writes its
// output piece by piece; the copying goroutines of the real package are tasks.
func (c *Cmd) Start() error {
	sim.SyncPoint(site)
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	if c.Err != nil {
		return c.Err
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	st := Get()
	call := &Call{Path: c.Path, Args: c.Args, Env: c.Env, Dir: c.Dir, Seq: sim.Seq()}
	st.Calls = append(st.Calls, call)
	if st.Handler == nil {
		return &Error{Name: c.Path, Err: errors.New("no command may run here")}
	}
	c.res = st.Handler(call)
	if c.res == nil {
		c.res = &Result{}
	}
	if c.res.StartErr != nil {
		return c.res.StartErr
	}
	c.Process = &Process{Pid: 4300}
	st.Cmds = append(st.Cmds, c)
	out, er := newPipe(), newPipe()
	in := newPipe()
	fail := func(e error) {
		if e != nil {
			c.errs = append(c.errs, e)
		}
	}
	if c.inW != nil {
		in = c.inW
	} else if c.Stdin != nil {
		c.tasks = append(c.tasks, sim.GoNamed("exec-stdin", func() {
			_, err := io.Copy(in, c.Stdin)
			in.Close()
			if err != nil && !errors.Is(err, syscall.EPIPE) {
				fail(err)
			}
		}))
	} else {
		in.Close()
	}
	same := c.Stdout != nil && c.Stderr != nil && sameWriter(c.Stdout, c.Stderr)
	if same {
		er = out
	}
	c.tasks = append(c.tasks, sim.GoNamed("exec-process", func() {
		if c.res.Deaf {
			b := make([]byte, 7)
			n, _ := in.Read(b)
			call.In = b[:n]
			in.Close()
		} else {
			b, _ := io.ReadAll(in)
			call.In = b
		}
		if st.Handler != nil {
			// the handler sees the input too, when it wants to decide on it
			if r := st.Handler(call); r != nil && r.StartErr == nil {
				c.res = r
			}
		}
		r := c.res
		if r.Sleep > 0 {
			sim.Sleep(r.Sleep)
		}
		o, e := r.Out, r.Err
		for _, k := range r.Order {
			if k == 0 && len(o) > 0 {
				out.Write(o[0])
				o = o[1:]
			} else if k == 1 && len(e) > 0 {
				er.Write(e[0])
				e = e[1:]
			}
		}
		for _, x := range o {
			out.Write(x)
		}
		for _, x := range e {
			er.Write(x)
		}
		out.Close()
		if er != out {
			er.Close()
		}
	}))
	copyTo := func(name string, w io.Writer, p *pipe) {
		if w == nil {
			w = io.Discard
		}
		c.tasks = append(c.tasks, sim.GoNamed(name, func() {
			_, err := io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{p})
			fail(err)
		}))
	}
	if len(c.outs) == 0 || c.outs[0] == nil {
		copyTo("exec-stdout", c.Stdout, out)
	} else {
		c.outs[0].src = out
	}
	if !same {
		if len(c.outs) < 2 || c.outs[1] == nil {
			copyTo("exec-stderr", c.Stderr, er)
		} else {
			c.outs[1].src = er
		}
	}
	return nil
}

func sameWriter(a, b io.Writer) (r bool) {
	defer func() { recover() }()
	return a == b
}

func (c *Cmd) Wait() error {
	sim.SyncPoint(site)
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	sim.Join(0, c.tasks...)
	for _, p := range c.outs {
		if p != nil { // what nobody has read by now is lost
			p.shut = true
			if p.src != nil {
				p.src.shut = true
				p.src.q.WakeAll()
			}
		}
	}
	r := c.res
	c.ProcessState = &ProcessState{r.Code, r.Signal}
	if r.WaitErr != nil {
		return r.WaitErr
	}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	if len(c.errs) > 0 {
		return c.errs[0]
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var o, e bytes.Buffer
	c.Stdout = &o
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &e
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = e.Bytes()
	}
	return o.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	err := c.Run()
	return o.Bytes(), err
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	c.inW = newPipe()
	return c.inW, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	for len(c.outs) < 1 {
		c.outs = append(c.outs, nil)
	}
	c.outs[0] = newPipe()
	return c.outs[0], nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	for len(c.outs) < 2 {
		c.outs = append(c.outs, nil)
	}
	c.outs[1] = newPipe()
	return c.outs[1], nil
}

// pipe is an operating-system pipe with a small buffer.
type pipe struct {
	buf    []byte
	closed bool
	shut   bool // the reading end is
	q      sim.WaitQ
	vc     sim.VC
	src    *pipe
}

const pipeCap = 64

func newPipe() *pipe { return &pipe{} }

func (p *pipe) Write(b []byte) (int, error) {
	n := 0
	for len(b) > 0 {
		if !sim.SyncPoint(site) {
			return n, nil
		}
		if p.closed {
			return n, syscall.EPIPE
		}
		if len(p.buf) >= pipeCap {
			p.q.Wait("write to a pipe")
			continue
		}
		k := min(len(b), pipeCap-len(p.buf))
		p.buf = append(p.buf, b[:k]...)
		sim.Release(&p.vc)
		b = b[k:]
		n += k
		p.q.WakeAll()
	}
	return n, nil
}

func (p *pipe) Read(b []byte) (int, error) {
	if p.src != nil {
		return p.src.Read(b)
	}
	for {
		if !sim.SyncPoint(site) {
			return 0, io.EOF
		}
		if p.shut {
			return 0, &os.PathError{Op: "read", Path: "|0", Err: os.ErrClosed}
		}
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			sim.Acquire(&p.vc)
			p.q.WakeAll()
			return n, nil
		}
		if p.closed {
			return 0, io.EOF
		}
		p.q.Wait("read from a pipe")
	}
}

func (p *pipe) Close() error {
	if sim.SyncPoint(site) {
		p.closed = true
		p.q.WakeAll()
	}
	return nil
}
