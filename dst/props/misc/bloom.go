package misc

import (
	"fmt"
	"math"

	"dst/run"
	"dst/sim"
	"dst/x/xsync"

	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
)

// Bl makes a Bloom filter (T -1) or uses one.
type Bl struct {
	T    int    `json:"t"`
	B    int    `json:"b"`
	K    string `json:"k"`              // new, add, has, clear
	N    int    `json:"n,omitempty"`    // first element, or the capacity
	C    int    `json:"c,omitempty"`    // how many elements
	Kind int    `json:"kind,omitempty"` // of elements: hashes, strings, bytes
	Rate int    `json:"rate,omitempty"` // per million
	Wait int64  `json:"wait,omitempty"`
}

// element gives the i-th of a kind's elements.
func element(kind, i int) (h uint64, s string, str bool) {
	switch kind {
	case 0:
		return uint64(i), "", false
	case 1:
		return sim.Mix(uint64(i), 7), "", false
	case 2:
		return uint64(i) << 20, "", false
	case 3:
		return 0, fmt.Sprint("user-", i), true
	default:
		return 0, string([]byte{byte(i), byte(i >> 8), byte(i >> 16), 0}), true
	}
}

func bloomAdd(f *bloom.Filter, kind, i int) {
	switch h, s, str := element(kind, i); {
	case !str:
		f.Add(h)
	case i%2 == 0:
		f.AddString(s)
	default:
		f.AddBytes([]byte(s))
	}
}

func bloomHas(f *bloom.Filter, kind, i int) bool {
	switch h, s, str := element(kind, i); {
	case !str:
		return f.Contains(h)
	case i%3 == 0:
		return f.ContainsString(s)
	default:
		return f.ContainsBytes([]byte(s))
	}
}

type elem struct{ kind, i int }

func (e elem) String() string {
	if h, s, str := element(e.kind, e.i); !str {
		return fmt.Sprintf("%#x", h)
	} else {
		return fmt.Sprintf("%q", s)
	}
}

// Bloom runs a workload.
func Bloom(ops []Bl) {
	type filter struct {
		f    *bloom.Filter
		in   map[elem]bool
		lock xsync.RWMutex
	}
	var fs []*filter
	by := map[int][]Bl{}
	horizon := int64(0)
	for _, o := range ops {
		horizon += o.Wait
		if o.T >= 0 {
			by[o.T] = append(by[o.T], o)
			continue
		}
		if o.Wait > 0 {
			sim.Sleep(o.Wait)
		}
		rate := float64(o.Rate) / 1e6
		f := bloom.New(uint64(o.N), rate)
		if need := float64(o.N) * -math.Log(rate) / (math.Ln2 * math.Ln2); float64(f.Len()) < need {
			sim.Fail("size", "a filter for %d elements at a rate of %v has %d bits, fewer than %.1f", o.N, rate, f.Len(), need)
		}
		fs = append(fs, &filter{f: f, in: map[elem]bool{}})
	}
	if len(fs) == 0 {
		return
	}
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("user", t), func() {
			for _, o := range list {
				b := fs[o.B%len(fs)]
				if o.Wait > 0 {
					sim.Sleep(o.Wait)
				}
				if o.K == "has" {
					b.lock.RLock()
				} else {
					b.lock.Lock()
				}
				for c := 0; c < max(1, o.C); c++ {
					e := elem{o.Kind, o.N + c}
					switch o.K {
					case "add":
						bloomAdd(b.f, e.kind, e.i)
						b.in[e] = true
					case "clear":
						b.f.Clear()
						b.in = map[elem]bool{}
					case "has":
						got := bloomHas(b.f, e.kind, e.i)
						switch {
						case b.in[e] && !got:
							sim.Fail("denied", "a filter denies %v, which was added", e)
						case len(b.in) == 0 && got:
							sim.Fail("empty", "an empty filter contains %v", e)
						case got && !b.in[e]:
							sim.Probe("false positive")
						case got:
							sim.Probe("contained")
						default:
							sim.Probe("not contained")
						}
					}
				}
				if o.K == "has" {
					b.lock.RUnlock()
				} else {
					b.lock.Unlock()
				}
			}
		}))
	}
	finish("a filter operation", horizon, ts...)
	for _, b := range fs {
		for kind := 0; kind < 5; kind++ {
			for i := 0; i < 400; i++ {
				if e := (elem{kind, i}); b.in[e] && !bloomHas(b.f, kind, i) {
					sim.Fail("denied", "a filter denies %v, which was added", e)
				}
			}
		}
	}
}

// GenBloom makes a workload.
func GenBloom(g *run.G, c *sim.Config) []Bl {
	g.Schedule(c)
	g.Stalls(c, 0.1, 1e3, 1e6)
	g.WallSteps(c, 0.2, -3600e9, -1e6, 1e6, 3600e9)
	var ops []Bl
	nf := g.Range(1, 3)
	small := run.Pick(g, 3, 20, 400)
	for b := 0; b < nf; b++ {
		o := Bl{T: -1, B: b, K: "new", N: g.Range(1, small), Rate: run.Pick(g, 1, 1000, 10000, 100000, 500000, 900000)}
		if g.P(0.02) {
			o.N = run.Pick(g, 2000, 20000)
			c.MaxSteps = 1e8
		}
		if g.P(0.5) {
			o.Wait = g.R64(1, 1e10)
		}
		ops = append(ops, o)
	}
	kind := g.Intn(5)
	for t := g.Range(1, 4); t > 0; t-- {
		for k := g.Range(1, 6); k > 0; k-- {
			o := Bl{T: t, B: g.Intn(nf), K: "add", N: g.Intn(20), C: g.Range(1, 4), Kind: kind}
			switch {
			case g.P(0.5):
				o.K = "has"
			case g.P(0.1):
				o.K, o.C = "clear", 0
			}
			if g.P(0.1) {
				o.Kind = g.Intn(5)
			}
			if g.P(0.1) {
				o.N = g.Intn(300)
			}
			if g.P(0.05) {
				o.C = g.Range(5, 100)
			}
			if g.P(0.1) {
				o.Wait = 1000
			}
			ops = append(ops, o)
		}
	}
	return ops
}

// BloomRate measures the share of absent elements that a full filter contains.
func BloomRate(ops []Bl) {
	for _, o := range ops {
		if o.Wait > 0 {
			sim.Sleep(o.Wait)
		}
		rate := float64(o.Rate) / 1e6
		f := bloom.New(uint64(o.N), rate)
		t := sim.GoNamed("user", func() {
			for i := 0; i < o.N; i++ {
				bloomAdd(f, o.Kind, i)
			}
			for i := 0; i < o.N; i++ {
				if !bloomHas(f, o.Kind, i) {
					sim.Fail("denied", "a filter denies %v, which was added", elem{o.Kind, i})
				}
			}
			probes := min(4000, int(40/rate))
			n := 0
			for i := 0; i < probes; i++ {
				if bloomHas(f, o.Kind, o.N+i) {
					n++
				}
			}
			want := rate * float64(probes)
			sim.Tracef("%d of %d absent elements found, %.0f at the rate of %v", n, probes, want, rate)
			if limit := 1.7*want + 7*math.Sqrt(1.7*want) + 10; float64(n) > limit {
				sim.Fail("rate", "a filter made for %d elements at a rate of %v contains %d of %d elements never added", o.N, rate, n, probes)
			}
		})
		finish("a filter operation", 0, t)
	}
}

// GenBloomRate makes a workload.
func GenBloomRate(g *run.G, c *sim.Config) []Bl {
	c.Strategy = "calm"
	c.MaxSteps = 1e8
	if g.P(0.004) {
		c.MaxSteps = 1e9
		return []Bl{{N: run.Pick(g, 20000, 100000, 200000), Rate: run.Pick(g, 3000, 10000, 30000), Kind: g.Intn(5), Wait: g.R64(0, 1e12)}}
	}
	return []Bl{{N: g.Range(200, 500), Rate: run.Pick(g, 3000, 10000, 30000, 100000, 300000), Kind: g.Intn(5), Wait: g.R64(0, 1e12)}}
}
