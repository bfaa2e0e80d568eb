package misc

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xexec"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Sh is one execution of a command.
type Sh struct {
	T      int      `json:"t"`
	K      string   `json:"k"` // shell, reload
	Cmd    string   `json:"cmd,omitempty"`
	Out    []string `json:"out,omitempty"`
	Err    []string `json:"err,omitempty"`
	Order  []int    `json:"order,omitempty"`
	Code   int      `json:"code,omitempty"`
	Signal int      `json:"signal,omitempty"`
	Start  bool     `json:"start,omitempty"` // cannot be started
	Lost   bool     `json:"lost,omitempty"`  // waiting for it fails
	Deaf   bool     `json:"deaf,omitempty"`  // ends without reading all of its input
	Sleep  int64    `json:"sleep,omitempty"`
	Wait   int64    `json:"wait,omitempty"`
}

// Shell runs a workload.
func Shell(ops []Sh) {
	st := xexec.Get()
	now := map[*sim.Task]*Sh{}
	calls := map[*xexec.Call]*Sh{}
	st.Handler = func(c *xexec.Call) *xexec.Result {
		o := calls[c]
		if o == nil {
			if o = now[sim.Cur()]; o == nil {
				sim.Fail("extra-process", "a process was started that no call asked for: %v", c.Args)
			}
			calls[c] = o
		}
		r := &xexec.Result{Code: o.Code, Signal: o.Signal, Order: o.Order, Sleep: o.Sleep, Deaf: o.Deaf}
		for _, x := range o.Out {
			r.Out = append(r.Out, []byte(x))
		}
		for _, x := range o.Err {
			r.Err = append(r.Err, []byte(x))
		}
		if o.Start {
			r.StartErr = errors.New("fork/exec /bin/sh: resource temporarily unavailable")
		}
		if o.Lost {
			r.WaitErr = errors.New("wait: no child processes")
		}
		return r
	}
	by := map[int][]Sh{}
	horizon := int64(0)
	for _, o := range ops {
		by[o.T] = append(by[o.T], o)
		horizon += o.Wait + o.Sleep
	}
	type kept struct {
		b    *bytes.Buffer
		want string
	}
	var results []kept
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("caller", t), func() {
			for i := range list {
				o := &list[i]
				if o.Wait > 0 {
					sim.Sleep(o.Wait)
				}
				now[sim.Cur()] = o
				var err error
				var out *bytes.Buffer
				if o.K == "reload" {
					err = utils.Reload()
				} else {
					out, err = utils.ShellExec(o.Cmd)
				}
				delete(now, sim.Cur())
				sim.Tracef("%s %q: %v, %v", o.K, o.Cmd, out, err)
				var mine []*xexec.Call
				for _, c := range st.Calls {
					if calls[c] == o {
						mine = append(mine, c)
					}
				}
				if len(mine) != 1 {
					sim.Fail("processes", "the call of %q started %d processes", o.Cmd, len(mine))
				}
				good := o.Code == 0 && o.Signal == 0 && !o.Start && !o.Lost
				if o.K == "reload" {
					if a := strings.Join(mine[0].Args, " "); a != fmt.Sprintf("kill -1 %d", xos.Getppid()) && a != fmt.Sprintf("kill -HUP %d", xos.Getppid()) {
						sim.Fail("reload", "reloading ran %q, which does not hang up the parent, process %d", a, xos.Getppid())
					}
					if good != (err == nil) {
						sim.Fail("status", "reloading returns %v although the signal was sent: %v", err, good)
					}
					sim.Probe("reload")
					continue
				}
				if len(mine[0].Args) != 1 || !strings.HasSuffix(mine[0].Args[0], "sh") {
					sim.Fail("shell", "the process started is %q and not a shell reading its standard input", mine[0].Args)
				}
				if in := o.Cmd + "\nexit\n"; !o.Start && (!o.Deaf && string(mine[0].In) != in || !strings.HasPrefix(in, string(mine[0].In))) {
					sim.Fail("input", "the shell was given %q and not %q", mine[0].In, in)
				}
				if !good {
					if err == nil {
						sim.Fail("failure-hidden", "%q reports success although its process failed (start %v, status %d, signal %d, wait %v)", o.Cmd, o.Start, o.Code, o.Signal, o.Lost)
					}
					if out != nil {
						sim.Fail("output", "%q failed, but returns output %q", o.Cmd, out.String())
					}
					if e := strings.Join(o.Err, ""); !o.Start && !strings.Contains(err.Error(), e) {
						sim.Fail("error-text", "%q wrote %q to standard error, but the error is %q", o.Cmd, e, err.Error())
					}
					sim.Probe("failure reported")
					continue
				}
				if err != nil {
					sim.Fail("refused", "%q succeeded, but the error is %q", o.Cmd, err.Error())
				}
				want := strings.Join(o.Out, "")
				if out == nil || out.String() != want {
					sim.Fail("output", "%q wrote %q, but the output is %v", o.Cmd, want, out)
				}
				results = append(results, kept{out, want})
				sim.Probe("output returned")
			}
		}))
	}
	finish("a shell execution", horizon, ts...)
	for _, r := range results {
		if r.b.String() != r.want {
			sim.Fail("output", "the output %q returned earlier has become %q", r.want, r.b.String())
		}
	}
}

// GenShell makes a workload.
func GenShell(g *run.G, c *sim.Config) []Sh {
	g.Schedule(c)
	g.Stalls(c, 0.2, 1e3, 1e6)
	var ops []Sh
	n := 0
	for t := g.Range(1, 3); t > 0; t-- {
		for k := g.Range(1, 3); k > 0; k-- {
			n++
			o := Sh{T: t, K: "shell", Cmd: run.Pick(g, fmt.Sprint("echo ", n), "", "cat <<E\nx\nE", "false; echo 'a b'", strings.Repeat("long ", 40), "exit 0", "x\n"), Sleep: run.Pick(g, int64(0), 0, 1000, ms)}
			if g.P(0.15) {
				o = Sh{T: t, K: "reload"}
			}
			pieces := func(tag string) (l []string) {
				for i := g.Intn(4); i > 0; i-- {
					s := fmt.Sprintf("%s%d.%d\n", tag, n, i)
					if g.P(0.2) {
						s = strings.Repeat(s, g.Range(10, 60))
					}
					l = append(l, s)
				}
				return
			}
			o.Out, o.Err = pieces("out"), pieces("err")
			for i := len(o.Out) + len(o.Err); i > 0; i-- {
				o.Order = append(o.Order, g.Intn(2))
			}
			if g.P(0.5) {
				switch g.Intn(5) {
				case 0:
					o.Start = true
				case 1:
					o.Signal = run.Pick(g, 9, 15, 11)
				case 2:
					o.Lost = true
				default:
					o.Code = run.Pick(g, 1, 2, 126, 127, 255)
				}
			}
			if g.P(0.15) {
				o.Deaf = true
			}
			if g.P(0.2) {
				o.Wait = run.Pick(g, int64(100), 5000, ms)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
