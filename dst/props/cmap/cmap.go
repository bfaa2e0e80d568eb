// Package cmap drives utils.Map for property C14.
package cmap

import (
	"fmt"
	"sort"

	"dst/lin"
	"dst/run"
	"dst/sim"

	_ "github.com/ahKevinXy/go-web-tools/dstsites"
	"github.com/ahKevinXy/go-web-tools/help/utils"
)

const (
	ms   = int64(1e6)
	keys = 4
)

// Op is one step of one goroutine.
type Op struct {
	T int    `json:"t"`
	K string `json:"k"`           // fill (setup); get set tas del len rrange lrange txn
	A int    `json:"a,omitempty"` // key
	P int    `json:"p,omitempty"` // range: panic at the P-th entry (from 1), 0 never
	W int64  `json:"w,omitempty"` // wait first; range: also in the callback
	Z bool   `json:"z,omitempty"` // set: store nil
	U string `json:"u,omitempty"` // lrange: the callback's change of the entry: set, del
}

// state holds one value per key: 0 absent, 1 present with a nil value.
type state [keys]int

type rec struct {
	op        Op
	call, ret uint64
	v         int // value written
	got       int // value returned: 0 nil, -1 something impossible
	n         int
	seen      state
	wrote     state        // lrange: 0 untouched, -1 deleted, else the value stored
	fill      map[int]bool // further keys met
	dup, bad  bool
	panicked  bool
	done      bool
}

func val(x interface{}) int {
	if x == nil {
		return 0
	}
	if v, ok := x.(int); ok {
		return v
	}
	return -1
}

// load is what a Get returns.
func load(v int) int {
	if v == 1 {
		return 0
	}
	return v
}

// Body runs a workload.
func Body(ops []Op) {
	var m utils.Map
	var recs []*rec
	next := 1
	by := map[int][]Op{}
	var ids []int
	horizon := int64(0)
	fill := 0
	for _, o := range ops {
		if o.K == "fill" {
			fill = o.A
			continue
		}
		if by[o.T] == nil {
			ids = append(ids, o.T)
		}
		by[o.T] = append(by[o.T], o)
		horizon += o.W * (keys + 1)
	}
	sort.Ints(ids)
	for i := 1000; i < 1000+fill; i++ {
		m.Set(i, i)
	}
	do := func(o Op) {
		if o.W > 0 {
			sim.Sleep(o.W)
		}
		r := &rec{op: o}
		recs = append(recs, r)
		if o.K == "set" || o.K == "tas" || o.K == "txn" {
			next++
			r.v = next
			if o.Z {
				r.v = 1
			}
		}
		var in interface{} = r.v
		if r.v == 1 {
			in = nil
		}
		visit := func(k, v interface{}) {
			if i, ok := k.(int); ok && i >= 1000 && i < 1000+fill {
				if r.fill == nil {
					r.fill = map[int]bool{}
				}
				r.dup = r.dup || r.fill[i]
				r.bad = r.bad || v != i
				r.fill[i] = true
				return
			}
			r.n++
			if o.P == r.n {
				panic("callback")
			}
			i, ok := k.(int)
			if !ok || i < 0 || i >= keys {
				r.bad = true
				return
			}
			if r.seen[i] != 0 {
				r.dup = true
			}
			r.seen[i] = val(v)
			if v == nil {
				r.seen[i] = 1
			}
			if o.W > 0 {
				sim.Sleep(o.W)
			} else {
				sim.Yield()
			}
			// under the exclusive lock a callback may change the entry it is shown
			if o.K != "lrange" {
				return
			}
			switch o.U {
			case "set":
				next++
				r.wrote[i] = next
				m.UnsafeSet(i, next)
			case "del":
				r.wrote[i] = -1
				m.UnsafeDel(i)
			}
		}
		r.call = sim.Seq()
		switch o.K {
		case "get":
			r.got = val(m.Get(o.A))
		case "set":
			m.Set(o.A, in)
		case "tas":
			r.got = val(m.TestAndSet(o.A, in))
		case "del":
			m.Del(o.A)
		case "len":
			r.n = m.Len() - fill
		case "txn":
			// the documented way to compose steps: the map's own lock
			m.Lock()
			r.got = val(m.UnsafeGet(o.A))
			r.n = m.UnsafeLen() - fill
			m.UnsafeSet(o.A, in)
			m.Unlock()
		case "rrange", "lrange":
			func() {
				defer func() {
					if p := recover(); p != nil {
						if p != "callback" {
							panic(p)
						}
						r.panicked = true
					}
				}()
				if o.K == "rrange" {
					m.RLockRange(visit)
				} else {
					m.LockRange(visit)
				}
			}()
		}
		r.ret = sim.Seq()
		r.done = true
		sim.Tracef("%s", r)
	}
	var tasks []*sim.Task
	for _, id := range ids {
		list := by[id]
		tasks = append(tasks, sim.GoNamed(fmt.Sprint("g", id), func() {
			for _, o := range list {
				do(o)
			}
		}))
	}
	for inj := int64(-1); inj != sim.Injected() || sim.Busy(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(sim.Now()+horizon+100*ms+sim.Injected()), tasks...) {
			break
		}
	}
	for _, t := range tasks {
		if !t.Done() {
			sim.Fail("blocked", "a map operation does not complete: %s", t.Why())
		}
	}
	// what is left
	final := sim.GoNamed("final", func() {
		do(Op{K: "lrange"})
		do(Op{K: "len"})
		for k := 0; k < keys; k++ {
			do(Op{K: "get", A: k})
		}
	})
	for !sim.Join(sim.Abs(sim.Now()+100*ms+sim.Injected()), final) && sim.Busy() {
	}
	if !final.Done() {
		sim.Fail("blocked", "a map operation does not complete: %s", final.Why())
	}
	var h []lin.Op
	for _, r := range recs {
		if r.bad {
			sim.Fail("invented", "%s met a key that was never set", r)
		}
		if r.dup {
			sim.Fail("iteration", "%s met a key twice", r)
		}
		h = append(h, lin.Op{Call: r.call, Ret: r.ret})
	}
	ok, known := lin.Check(h, state{}, func(s state, i int) []state {
		r := recs[i]
		k := r.op.A
		one := []state{s}
		size := 0
		for _, v := range s {
			if v != 0 {
				size++
			}
		}
		switch r.op.K {
		case "get":
			if r.got == load(s[k]) {
				return one
			}
		case "set":
			s[k] = r.v
			return []state{s}
		case "tas":
			if r.got != load(s[k]) {
				return nil
			}
			if s[k] == 0 {
				s[k] = r.v
			}
			return []state{s}
		case "del":
			s[k] = 0
			return []state{s}
		case "len":
			if r.n == size {
				return one
			}
		case "txn":
			if r.got != load(s[k]) || r.n != size {
				return nil
			}
			s[k] = r.v
			return []state{s}
		case "rrange", "lrange":
			if r.panicked {
				for j, v := range r.seen {
					if v != 0 && v != s[j] {
						return nil
					}
				}
				if r.n > size {
					return nil
				}
			} else if r.seen != s || len(r.fill) != fill {
				return nil
			}
			for j, v := range r.wrote {
				if v > 0 {
					s[j] = v
				} else if v < 0 {
					s[j] = 0
				}
			}
			return []state{s}
		}
		return nil
	})
	if !known {
		sim.Probe("undecided")
		return
	}
	if !ok {
		txt := ""
		for _, r := range recs {
			txt += fmt.Sprintf("\n  [%d,%d] %s", r.call, r.ret, r)
		}
		sim.Fail("not-linearizable", "no order of the operations explains their results:%s", txt)
	}
}

func (r *rec) String() string {
	s := fmt.Sprintf("g%d %s(%d", r.op.T, r.op.K, r.op.A)
	if r.v != 0 {
		s += fmt.Sprintf(", %d", r.v)
	}
	return s + fmt.Sprintf(") = %d n=%d seen=%v wrote=%v panicked=%v", r.got, r.n, r.seen, r.wrote, r.panicked)
}

// Gen makes a workload.
func Gen(g *run.G, c *sim.Config) []Op {
	g.Stalls(c, 0.2, 1e3, 50e3, ms)
	var ops []Op
	if g.P(0.01) {
		// a large map, of which a few keys are looked at
		ops = append(ops, Op{K: "fill", A: run.Pick(g, 10, 100, 1500)})
	}
	nk := g.Range(1, keys)
	mode := g.Weighted(4, 2, 2)
	for t := g.Range(2, 5); t > 0; t-- {
		for k := g.Range(1, 4); k > 0; k-- {
			o := Op{T: t, A: g.Intn(nk)}
			if g.P(0.15) {
				o.W = run.Pick(g, int64(1), 50, 1000)
			}
			switch mode {
			case 0:
				o.K = run.Pick(g, "get", "set", "tas", "del", "len", "rrange", "lrange", "txn", "set", "tas", "del")
			case 1: // races for one key
				o.K = run.Pick(g, "tas", "tas", "tas", "del", "get", "txn")
			case 2: // snapshots against changes
				o.K = run.Pick(g, "set", "del", "tas", "rrange", "lrange", "len", "txn")
			}
			if o.K == "set" && g.P(0.1) {
				o.Z = true
			}
			if (o.K == "rrange" || o.K == "lrange") && g.P(0.25) {
				o.P = g.Range(1, 2)
			}
			if o.K == "lrange" && g.P(0.4) {
				o.U = run.Pick(g, "set", "del")
			}
			ops = append(ops, o)
		}
	}
	return ops
}
