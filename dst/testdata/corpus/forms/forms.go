// Package forms exercises every statement and expression form the rewriter
// treats specially. Its result must not depend on the schedule.
package forms

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type point struct{ x, y int }
type inner struct {
	n    int
	arr  [4]int
	pt   point
	m    map[string]int
	s    []int
	f    func(int) int
	err  error
	flag bool
}
type outer struct {
	inner
	*point
	mu  sync.Mutex
	cnt int64
	i   interface{}
}

type num interface{ ~int | ~int64 | ~float64 }

func sum[T num](xs ...T) T {
	var t T
	for _, x := range xs {
		t += x
	}
	return t
}

type stack[T any] struct {
	items []T
	mu    sync.RWMutex
}

func (s *stack[T]) push(v T) *stack[T] { s.mu.Lock(); s.items = append(s.items, v); s.mu.Unlock(); return s }
func (s *stack[T]) pop() (v T, ok bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if n := len(s.items); n > 0 {
		v, s.items = s.items[n-1], s.items[:n-1]
		return v, true
	}
	return
}
func (s *stack[T]) each(f func(int, T)) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	for i := range s.items {
		f(i, s.items[i])
	}
}

var global = map[string]int{"a": 1, "b": 2}
var order = compute()
var table [3][2]int
var gp = &point{1, 2}
var x1, x2 = pair()

func pair() (int, string) { return 7, "seven" }
func compute() []string {
	var o []string
	for k := range global {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
func init() { table[1][1] = len(order) + gp.x; global["init"] = 5 }
func init() { global["init"] *= 2 }

var out strings.Builder

func p(a ...interface{}) { fmt.Fprintln(&out, a...) }

type shape interface{ area() int }
type sq struct{ s int }

func (q sq) area() int   { return q.s * q.s }
func (q *sq) grow(n int) { q.s += n }

type myErr struct{ code int }

func (e *myErr) Error() string { return fmt.Sprint("code ", e.code) }

func multi() (int, error)                { return 3, &myErr{4} }
func variadic(pre string, xs ...int) int { return len(pre) + sum(xs...) }

func named(n int) (r int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("recovered %v", e)
			r *= 2
		}
	}()
	r = n
	if n > 2 {
		panic("big")
	}
	r++
	return r, nil
}

func Run() string {
	out.Reset()
	p(order, table, gp.x, x1, x2, global["init"])
	o := &outer{point: &point{8, 9}}
	o.inner.m = map[string]int{}
	o.n++
	o.n += 4
	o.n <<= 2
	o.arr[1]--
	o.arr[o.n%4] ^= 5
	o.m["k"]++
	o.m["k"] += 3
	o.m["z"], o.n = o.n, o.m["k"]
	o.pt.x, o.pt.y = 3, 4
	o.pt.x, o.pt.y = o.pt.y, o.pt.x
	o.point.x, o.y = o.point.y, o.point.x
	o.f = func(i int) int { return i * o.n }
	o.flag = o.n > 3 && o.f(2) < 100 || !o.flag
	o.i = o.pt
	o.inner.err, o.flag = nil, o.n == 4
	_, o.inner.err = multi()
	o.n, _ = multi()
	p(o.n, o.arr, o.m, o.pt, *o.point, o.f(3), o.flag, o.inner.err, o.i.(point).x)
	if v, ok := o.i.(point); ok {
		p("pt", v.x)
	}
	if _, ok := o.i.(error); !ok {
		p("no error")
	}
	if v, ok := o.m["nope"]; !ok {
		p("missing", v)
	}
	var me *myErr
	p(errors.As(o.inner.err, &me), me.code)
	s := []int{5, 3, 9, 1}
	s[0], s[3] = s[3], s[0]
	s = append(s, s[1:3]...)
	s = append(s[:1], s[2:]...)
	copy(s[1:], []int{42, 43})
	s[len(s)-1]++
	bs := append([]byte("ab"), "cd"...)
	copy(bs, "xy")
	p(s, len(s), string(bs), s[1:2:3])
	for i, v := range s {
		if i == 1 {
			continue
		}
		if v > 100 {
			break
		}
		s[i] = v * 2
	}
	arr := [3]int{1, 2, 3}
	for i := range arr {
		arr[i] *= 2
	}
	pa := &arr
	for i, v := range pa {
		pa[i] = v + 1
	}
	for i, r := range "hé" {
		p(i, string(r))
	}
	p(arr, pa[1], len(pa), cap(s) >= len(s))
	keys := []string{}
	for k, v := range map[string]int{"q": 1, "w": 2, "e": 3} {
		keys = append(keys, fmt.Sprint(k, v))
	}
	sort.Strings(keys)
	p(keys)
	var k2 string
	total := 0
	for k2 = range o.m {
		total += o.m[k2]
	}
	var hold struct{ k string; v int }
	for hold.k, hold.v = range map[string]int{"one": 1} {
	}
	for range o.m {
		total++
	}
	p(total, hold)
	delete(o.m, "k")
	p(len(o.m))
	m2 := map[point][]int{}
	m2[point{1, 2}] = append(m2[point{1, 2}], 4)
	m2[point{1, 2}][0]++
	p(m2[point{1, 2}], len(m2[point{}]))
	mp := map[int]*point{1: {1, 2}}
	mp[1].x += 5
	ms := map[string]map[string]int{"a": {}}
	ms["a"]["b"]++
	p(mp[1].x, *mp[1], ms)
	type local struct {
		a, b int
	}
	ls := []local{{1, 2}, {b: 3}}
	lp := []*local{{1, 2}, {b: 3}}
	ls[1].a, lp[0].b = lp[1].b, ls[0].a
	p(ls, *lp[0], *lp[1])
	q := sq{2}
	q.grow(1)
	(&q).grow(1)
	var sh shape = q
	g := q.grow
	g(2)
	h := (*sq).grow
	h(&q, 1)
	ar := sq.area
	p(sh.area(), q.area(), ar(q), shape.area(&q))
	fs := []func(){}
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() { total += i })
	}
	for _, f := range fs {
		f()
	}
	p(total)
	i := 0
loop:
	for {
		switch {
		case i == 3:
			i += 2
			fallthrough
		case i == 4:
			i++
			continue loop
		case i > 8:
			break loop
		default:
			i++
		}
	}
	p(i)
	j := 0
again:
	if j < 3 {
		j++
		goto again
	}
	p(j)
	for a, b := 0, 10; a < b; a, b = a+1, b-1 {
		j += a * b
	}
	p(j)
	switch v := o.i.(type) {
	case int, string:
		p("basic", v)
	case point:
		p("point", v.y)
	}
	switch o.i.(type) {
	case nil:
	default:
		p("dflt")
	}
	switch y := o.n; y {
	case 1, 2:
		p("no")
	case 3:
		p("three")
	}
	r1, e1 := named(2)
	r2, e2 := named(5)
	p(r1, e1, r2, e2)
	p(sum(1, 2, 3), sum[float64](1.5, 2), variadic("ab", s...), variadic("x"), variadic("x", 1, 2))
	st := &stack[string]{}
	st.push("a").push("b").push("c")
	v, ok := st.pop()
	st.each(func(i int, s string) { p(i, s) })
	p(v, ok, len(st.items))
	concurrency()
	chans()
	timersAndContexts()
	files()
	return out.String()
}

func concurrency() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var n, at int64
	var once sync.Once
	cells := make([]int, 8)
	inits := 0
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			once.Do(func() { inits++ })
			mu.Lock()
			n += int64(k)
			mu.Unlock()
			atomic.AddInt64(&at, int64(k))
			cells[k] = k * k
		}(i)
	}
	wg.Wait()
	p(n, atomic.LoadInt64(&at), cells, inits)
	var a atomic.Int64
	var v atomic.Value
	v.Store([]int{1})
	var sm sync.Map
	done := make(chan struct{})
	go worker(&a, &sm, done)
	<-done
	x, loaded := sm.LoadOrStore("k", 2)
	p(a.Load(), v.Load().([]int)[0], x, loaded)
	cond := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; mu.Unlock(); cond.Broadcast() }()
	mu.Lock()
	for !ready {
		cond.Wait()
	}
	mu.Unlock()
	pool := sync.Pool{New: func() interface{} { return new(int) }}
	ip := pool.Get().(*int)
	*ip = 4
	pool.Put(ip)
	p(*ip, ready)
	o := &outer{}
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go o.bump(&wg, i)
	}
	wg.Wait()
	p(o.cnt)
	var rw sync.RWMutex
	total := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			if i%2 == 0 {
				rw.Lock()
				total += i
				rw.Unlock()
			} else {
				rw.RLock()
				_ = total
				rw.RUnlock()
			}
		}()
	}
	wg.Wait()
	p(total, mu.TryLock())
}

func (o *outer) bump(wg *sync.WaitGroup, k int) {
	defer wg.Done()
	o.mu.Lock()
	defer o.mu.Unlock()
	o.cnt += int64(k)
}

func worker(a *atomic.Int64, sm *sync.Map, done chan<- struct{}) {
	defer close(done)
	a.Add(5)
	sm.Store("k", 1)
}

func gen(n int) <-chan int {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := 0; i < n; i++ {
			c <- i
		}
	}()
	return c
}

func chans() {
	s := 0
	for v := range gen(5) {
		s += v
	}
	p(s)
	buf := make(chan int, 3)
	buf <- 1
	buf <- 2
	p(len(buf), cap(buf))
	select {
	case buf <- 3:
		p("sent")
	default:
		p("full")
	}
	select {
	case buf <- 4:
		p("sent")
	default:
		p("full")
	}
	close(buf)
	var v int
	var ok bool
	for i := 0; i < 4; i++ {
		v, ok = <-buf
		p(v, ok)
	}
	var nilc chan int
	res := make(chan string, 1)
	arr := [1]int{}
	c := gen(3)
outer:
	for {
		select {
		case <-nilc:
			p("never")
		case arr[0], ok = <-c:
			if !ok {
				break outer
			}
			p("got", arr[0])
		}
	}
	go func() { res <- "r" }()
	select {
	case r := <-res:
		p(r)
	}
	unb := make(chan point)
	go func() {
		for i := 0; i < 2; i++ {
			select {
			case unb <- point{i, i}:
			}
		}
		close(unb)
	}()
	for {
		if q, ok := <-unb; ok {
			p(q)
		} else {
			break
		}
	}
	cc := make(chan chan int, 1)
	d := make(chan int, 1)
	cc <- d
	(<-cc) <- 9
	p(<-d + 1)
	func() {
		defer func() { p("rec", recover()) }()
		close(d)
		d <- 1
	}()
	sem := make(chan struct{}, 2)
	var wg sync.WaitGroup
	max, cur := 0, 0
	var mu sync.Mutex
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			mu.Lock()
			cur++
			if cur > max {
				max = cur
			}
			mu.Unlock()
			mu.Lock()
			cur--
			mu.Unlock()
			<-sem
		}()
	}
	wg.Wait()
	p(max <= 2, cur)
}

func timersAndContexts() {
	t0 := time.Now()
	time.Sleep(30 * time.Millisecond)
	p(time.Since(t0) >= 30*time.Millisecond)
	tm := time.NewTimer(time.Hour)
	p(tm.Stop(), tm.Stop())
	tm.Reset(time.Millisecond)
	<-tm.C
	ch := make(chan int, 1)
	time.AfterFunc(time.Millisecond, func() { ch <- 1 })
	select {
	case v := <-ch:
		p("after", v)
	case <-time.After(10 * time.Second):
		p("timeout")
	}
	tk := time.NewTicker(time.Millisecond)
	<-tk.C
	<-tk.C
	tk.Stop()
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
	sub, c2 := context.WithTimeout(ctx, time.Hour)
	defer c2()
	go cancel()
	<-sub.Done()
	p(sub.Err(), ctx.Value("k"))
	dl, c3 := context.WithTimeout(context.Background(), time.Millisecond)
	defer c3()
	<-dl.Done()
	p(dl.Err() == context.DeadlineExceeded)
}

func files() {
	d, err := os.MkdirTemp("", "forms")
	if err != nil {
		p(err)
		return
	}
	defer os.RemoveAll(d)
	fn := d + "/a.txt"
	p(os.WriteFile(fn, []byte("hello"), 0644))
	f, err := os.OpenFile(fn, os.O_APPEND|os.O_RDWR, 0)
	p(err)
	f.WriteString(" world")
	f.Seek(2, 0)
	b := make([]byte, 4)
	n, err := f.Read(b)
	p(n, err, string(b[:n]))
	p(f.Close())
	all, err := os.ReadFile(fn)
	p(string(all), err)
	_, err = os.Stat(d + "/none")
	p(os.IsNotExist(err))
	p(os.Rename(fn, d+"/b.txt"), os.Mkdir(d+"/sub", 0755))
	es, err := os.ReadDir(d)
	for _, e := range es {
		p(e.Name(), e.IsDir())
	}
	p(os.Remove(d + "/b.txt"))
}
