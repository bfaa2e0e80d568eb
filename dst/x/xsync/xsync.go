// Package xsync stands in for sync: the same API on simulated tasks.
package xsync

import (
	"dst/sim"
	"fmt"
)

type Locker interface {
	Lock()
	Unlock()
}

var siteMu, siteRW, siteWG, siteOnce, siteCond, siteMap, sitePool = sim.Site("sync.Mutex"), sim.Site("sync.RWMutex"),
	sim.Site("sync.WaitGroup"), sim.Site("sync.Once"), sim.Site("sync.Cond"), sim.Site("sync.Map"), sim.Site("sync.Pool")

// Mutex allows barging, as the real one does: every waiter competes at unlock.
type Mutex struct {
	run    *sim.Sim
	locked bool
	vc     sim.VC
	q      sim.WaitQ
}

func (m *Mutex) fresh() {
	if m.run != sim.S {
		*m = Mutex{run: sim.S}
	}
}

func (m *Mutex) Lock() {
	if !sim.SyncPoint(siteMu) {
		return
	}
	m.fresh()
	for m.locked {
		m.q.Wait("sync.Mutex.Lock")
	}
	m.locked = true
	sim.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	if !sim.SyncPoint(siteMu) {
		return true
	}
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	sim.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if !sim.SyncPoint(siteMu) {
		return
	}
	m.fresh()
	if !m.locked {
		sim.Fatal("sync: unlock of unlocked mutex")
	}
	sim.Release(&m.vc)
	m.locked = false
	m.q.WakeAll()
	sim.Yield()
}

// RWMutex prefers writers: a pending writer holds up new readers.
type RWMutex struct {
	run     *sim.Sim
	readers int
	writer  bool
	wwait   int
	wvc     sim.VC // released by writers
	rvc     sim.VC // released by readers
	q       sim.WaitQ
}

func (m *RWMutex) fresh() {
	if m.run != sim.S {
		*m = RWMutex{run: sim.S}
	}
}

func (m *RWMutex) RLock() {
	if !sim.SyncPoint(siteRW) {
		return
	}
	m.fresh()
	for m.writer || m.wwait > 0 {
		m.q.Wait("sync.RWMutex.RLock")
	}
	m.readers++
	sim.Acquire(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	if !sim.SyncPoint(siteRW) {
		return true
	}
	m.fresh()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	sim.Acquire(&m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if !sim.SyncPoint(siteRW) {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		sim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	sim.Release(&m.rvc)
	m.readers--
	m.q.WakeAll()
	sim.Yield()
}

func (m *RWMutex) Lock() {
	if !sim.SyncPoint(siteRW) {
		return
	}
	m.fresh()
	m.wwait++
	for m.writer || m.readers > 0 {
		m.q.Wait("sync.RWMutex.Lock")
	}
	m.wwait--
	m.writer = true
	sim.Acquire(&m.wvc)
	sim.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	if !sim.SyncPoint(siteRW) {
		return true
	}
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	sim.Acquire(&m.wvc)
	sim.Acquire(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if !sim.SyncPoint(siteRW) {
		return
	}
	m.fresh()
	if !m.writer {
		sim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	sim.Release(&m.wvc)
	m.writer = false
	m.q.WakeAll()
	sim.Yield()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	run *sim.Sim
	n   int
	vc  sim.VC
	q   sim.WaitQ
}

func (w *WaitGroup) fresh() {
	if w.run != sim.S {
		*w = WaitGroup{run: sim.S}
	}
}

func (w *WaitGroup) Add(d int) {
	if !sim.SyncPoint(siteWG) {
		return
	}
	w.fresh()
	if d < 0 {
		sim.Release(&w.vc)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !sim.SyncPoint(siteWG) {
		return
	}
	w.fresh()
	for w.n > 0 {
		w.q.Wait("sync.WaitGroup.Wait")
	}
	sim.Acquire(&w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() { defer w.Done(); f() })
}

type Once struct {
	run  *sim.Sim
	m    Mutex
	done bool
	vc   sim.VC
}

func (o *Once) Do(f func()) {
	if !sim.SyncPoint(siteOnce) {
		return
	}
	if o.run != sim.S {
		*o = Once{run: sim.S}
	}
	if o.done {
		sim.Acquire(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; sim.Release(&o.vc) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	var ok bool
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v T1
	var w T2
	g := OnceFunc(func() { v, w = f() })
	return func() (T1, T2) { g(); return v, w }
}

type Cond struct {
	L  Locker
	q  sim.WaitQ
	vc sim.VC
	tk []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := false
	c.tk = append(c.tk, &woken)
	c.L.Unlock()
	if sim.SyncPoint(siteCond) {
		for !woken {
			c.q.Wait("sync.Cond.Wait")
		}
		sim.Acquire(&c.vc)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !sim.SyncPoint(siteCond) {
		return
	}
	sim.Release(&c.vc)
	if len(c.tk) > 0 {
		*c.tk[0] = true
		c.tk = c.tk[1:]
		c.q.WakeAll()
	}
}

func (c *Cond) Broadcast() {
	if !sim.SyncPoint(siteCond) {
		return
	}
	sim.Release(&c.vc)
	for _, w := range c.tk {
		*w = true
	}
	c.tk = nil
	c.q.WakeAll()
}

// Pool may forget or hand out any element it holds, as chosen.
type Pool struct {
	New func() any
	run *sim.Sim
	v   []any
	vc  []sim.VC
}

func (p *Pool) Get() any {
	if sim.SyncPoint(sitePool) {
		if p.run != sim.S {
			p.run, p.v, p.vc = sim.S, nil, nil
		}
		if n := len(p.v); n > 0 {
			// the newest by default, any other, or none
			k := sim.Choose(n+1, "sync.Pool")
			if k < n {
				i := n - 1 - k
				v := p.v[i]
				sim.Acquire(&p.vc[i])
				p.v = append(p.v[:i:i], p.v[i+1:]...)
				p.vc = append(p.vc[:i:i], p.vc[i+1:]...)
				return v
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || !sim.SyncPoint(sitePool) {
		return
	}
	if p.run != sim.S {
		p.run, p.v, p.vc = sim.S, nil, nil
	}
	var vc sim.VC
	sim.Release(&vc)
	p.v = append(p.v, x)
	p.vc = append(p.vc, vc)
}

// Map is sync.Map: every operation is one atomic step.
type Map struct {
	run  *sim.Sim
	m    map[any]any
	keys []any
	vc   sim.VC
}

func (m *Map) op() bool {
	ok := sim.SyncPoint(siteMap)
	if m.run != sim.S || m.m == nil {
		*m = Map{run: sim.S, m: map[any]any{}}
	}
	sim.Acquire(&m.vc)
	return ok
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	sim.Release(&m.vc)
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	sim.Release(&m.vc)
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.op(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		m.op()
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.op(); m.m = map[any]any{}; m.keys = nil; sim.Release(&m.vc) }

var _ = fmt.Sprint
