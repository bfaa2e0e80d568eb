// Package misc drives the smaller helpers for the properties C29 to C34.
package misc

import (
	"fmt"
	"strings"

	"dst/run"
	"dst/sim"

	_ "github.com/ahKevinXy/go-web-tools/dstsites"
	"github.com/ahKevinXy/go-web-tools/help/utils"
)

const ms = int64(1e6)

func finish(what string, horizon int64, ts ...*sim.Task) {
	for inj := int64(-1); inj != sim.Injected(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(sim.Now()+horizon+3600e9+sim.Injected()), ts...) {
			return
		}
	}
	for _, t := range ts {
		if !t.Done() {
			sim.Fail("blocked", "%s does not complete: %s", what, t.Why())
		}
	}
}

// Rn draws one string.
type Rn struct {
	T    int   `json:"t"`
	Size int   `json:"size"`
	Kind int   `json:"kind"`
	Wait int64 `json:"wait,omitempty"`
	N    int   `json:"n,omitempty"`    // so many strings, if more than one
	P    int   `json:"p,omitempty"`    // which process: they follow one another
	Gap  int64 `json:"gap,omitempty"`  // the process begins so long after the last one
	Wall int64 `json:"wall,omitempty"` // step the wall clock to this reading (relative to the start) just before
}

var alphabets = map[int]string{0: "0123456789", 1: "abcdefghijklmnopqrstuvwxyz", 2: "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}

func alphabet(kind int) string {
	if a, ok := alphabets[kind]; ok {
		return a
	}
	return alphabets[0] + alphabets[1] + alphabets[2]
}

// Rand runs a workload.
func Rand(ops []Rn) {
	type drawn struct {
		o Rn
		s string
	}
	var got []drawn
	start := sim.Wall()
	for p := 0; p < 3; p++ {
		by := map[int][]Rn{}
		horizon, gap := int64(0), int64(0)
		for _, o := range ops {
			if o.P == p {
				by[o.T] = append(by[o.T], o)
				horizon += o.Wait
				gap = max(gap, o.Gap)
			}
		}
		if p > 0 {
			if gap == 0 {
				break
			}
			sim.Sleep(gap)
			sim.Reset()
			sim.Probe("process restart")
		}
		var ts []*sim.Task
		for t := 0; t < 10; t++ {
			if list := by[t]; list != nil {
				ts = append(ts, sim.GoNamed(fmt.Sprint("drawer", t), func() {
					for _, o := range list {
						if o.Wait > 0 {
							sim.Sleep(o.Wait)
						}
						if o.Wall != 0 {
							sim.SetWall(start + o.Wall)
						}
						for k := 0; k == 0 || k < o.N; k++ {
							s := utils.RandStr(o.Size, o.Kind)
							sim.Tracef("string %q", s)
							got = append(got, drawn{o, s})
							if len(s) != o.Size {
								sim.Fail("length", "a random string of length %d has length %d", o.Size, len(s))
							}
							a := alphabet(o.Kind)
							for i := 0; i < len(s); i++ {
								if strings.IndexByte(a, s[i]) < 0 {
									sim.Fail("alphabet", "a random string of kind %d contains %q", o.Kind, s[i])
								}
							}
							if o.Size >= 60*len(a) {
								for i := 0; i < len(a); i++ {
									if strings.IndexByte(s, a[i]) < 0 {
										sim.Fail("alphabet", "a random string of kind %d and length %d never contains %q", o.Kind, o.Size, a[i])
									}
								}
								sim.Probe("long string")
							}
						}
					}
				}))
			}
		}
		finish("drawing a string", horizon, ts...)
	}
	seen := map[string]int{} // the first twenty characters of a string
	for i, a := range got {
		if len(a.s) < 20 {
			continue
		}
		if b, ok := seen[a.s[:20]]; ok {
			n := min(len(a.s), len(got[b].s))
			if a.s[:n] == got[b].s[:n] {
				sim.Fail("repeat", "strings %d and %d are the same, or one begins with the other: %q", b, i, a.s[:min(n, 60)])
			}
		}
		seen[a.s[:20]] = i
	}
	if len(got) > 1 {
		sim.Probe("several strings")
	}
}

// GenRand makes a workload.
func GenRand(g *run.G, c *sim.Config) []Rn {
	g.Schedule(c)
	c.Coarse = run.Pick[int64](g, 0, 0, 1000, 1e6, 15e6)
	g.WallSteps(c, 0.3, -1e9, 1e9, -1, -100, -2000, -1e6)
	g.Stalls(c, 0.15, 1e3, 1e6)
	var ops []Rn
	kind := run.Pick(g, 0, 1, 2, 3, -1)
	wall := run.Pick(g, int64(1), 1e9, -1e9)
	p, gap := 0, int64(0)
	if g.P(0.15) {
		// the program is started again, at another reading of the clock
		c.WallP, p = 0, g.Range(1, 2)
		gap = run.Pick(g, int64(20*ms), 40*ms, 100*ms, 500*ms, 900*ms, 1e9, 60e9, 3600e9, 86400e9)
	}
	if p == 0 && g.P(0.0005) {
		// thousands of strings in one program
		c.MaxSteps = 1e8
		return []Rn{{T: 1, Size: 20, Kind: kind, N: g.Range(1000, 4000)}, {T: 2, Size: g.Range(20, 40), Kind: kind, N: g.Range(1, 1000)}}
	}
	for ; p >= 0; p-- {
		for t := g.Range(1, 4); t > 0; t-- {
			for k := g.Range(1, 4); k > 0; k-- {
				o := Rn{T: t, Size: g.Range(20, 40), Kind: kind}
				if g.P(0.2) {
					o.Kind = run.Pick(g, 0, 1, 2, 3, 7, -1, -5)
				}
				if g.P(0.1) {
					o.Size = g.Intn(20)
				}
				if g.P(0.01) {
					o.Size = run.Pick(g, 700, 2000, 4000)
				}
				if g.P(0.3) {
					o.Wait = run.Pick(g, int64(1), 100, 1000, ms, 1e9)
				}
				if gap == 0 && g.P(0.15) {
					o.Wall = wall
				}
				o.P = p
				if p > 0 {
					o.Gap = gap
				}
				ops = append(ops, o)
			}
		}
	}
	return ops
}
