package sim

import (
	"bufio"
	"bytes"
	"container/list"
	"crypto/cipher"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"hash"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"
)

type uptr = unsafe.Pointer

// VC is a vector clock indexed by task id.
type VC []uint32

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o))
		copy(n, *v)
		*v = n
	}
	w := *v
	for i, x := range o {
		if x > w[i] {
			w[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (s *Sim) tick(t *Task) {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, make(VC, t.ID+8-len(t.vc))...)
	}
	t.vc[t.ID]++
}

// epoch is one access: task, its clock, where.
type epoch struct {
	t    int32
	c    uint32
	site int32
	ato  bool
}

// cell is the shadow state of one memory location.
type cell struct {
	w  epoch   // last write
	aw []epoch // atomic writes since then, one per task
	r  []epoch // reads since the last write, one per task
}

func (s *Sim) taskName(id int32) string { return fmt.Sprintf("g%d", id) }

// RaceFails makes a data race a violation.
var RaceFails = true

func (s *Sim) race(kind string, a epoch, t *Task, site int) {
	if s.viol != nil {
		return
	}
	s.St.Races++
	if !RaceFails {
		return
	}
	Fail("data-race", "%s by task %d at %s with %s: the two accesses are not ordered by any synchronisation",
		kind, t.ID, SiteName(site), fmt.Sprintf("the earlier access by task %d at %s", a.t, SiteName(int(a.site))))
}

func (s *Sim) before(e epoch, t *Task) bool {
	return e.c == 0 || int(e.t) == t.ID || t.vc.get(int(e.t)) >= e.c
}

func (s *Sim) touch(p uptr, site int, write, ato bool) {
	t := s.cur
	if !s.RaceOn || s.quiet > 0 || t.killed {
		return
	}
	c := s.shadow[p]
	if c == nil {
		c = &cell{}
		s.shadow[p] = c
	}
	if t.vc.get(t.ID) == 0 {
		s.tick(t)
	}
	// against the last plain write
	if !s.before(c.w, t) {
		k := "read of memory"
		if write {
			k = "write of memory"
		}
		s.race(k, c.w, t, site)
	}
	me := epoch{int32(t.ID), t.vc.get(t.ID), int32(site), ato}
	if !ato {
		for _, e := range c.aw {
			if !s.before(e, t) {
				s.race("plain access to memory", e, t, site)
			}
		}
	}
	if write {
		for _, e := range c.r {
			if ato && e.ato {
				continue
			}
			if !s.before(e, t) {
				s.race("write of memory", e, t, site)
			}
		}
		if ato {
			for i := range c.aw {
				if c.aw[i].t == me.t {
					c.aw[i] = me
					return
				}
			}
			c.aw = append(c.aw, me)
			return
		}
		c.w = me
		c.r = c.r[:0]
		c.aw = c.aw[:0]
		return
	}
	for i := range c.r {
		if c.r[i].t == me.t && c.r[i].ato == ato {
			c.r[i] = me
			return
		}
	}
	c.r = append(c.r, me)
}

// ---- synchronisation objects ----

// Acquire joins the clock of a synchronisation object into the running task.
func (s *Sim) acquire(v *VC) { s.cur.vc.join(*v) }

// Release joins the running task's clock into the object.
func (s *Sim) release(v *VC) {
	t := s.cur
	if t.vc.get(t.ID) == 0 {
		s.tick(t)
	}
	v.join(t.vc)
	s.tick(t)
}

// Acquire and Release for the x packages.
func Acquire(v *VC) {
	if S != nil && !S.cur.killed {
		S.acquire(v)
	}
}

func Release(v *VC) {
	if S != nil && !S.cur.killed {
		S.release(v)
	}
}

// AtomicOp is an atomic access to *p: a scheduling point, a release and an acquire.
func AtomicOp(p unsafe.Pointer, site int, read, write bool) {
	s := S
	if s == nil {
		return
	}
	s.yield(site, false)
	if s.cur.killed || s.quiet > 0 {
		return
	}
	v := s.syncv[p]
	if v == nil {
		v = &VC{}
		s.syncv[p] = v
	}
	if read {
		s.acquire(v)
	}
	if write {
		s.touch(p, site, true, true)
		s.release(v)
	} else {
		s.touch(p, site, false, true)
	}
}

// ---- leaves of a type ----

var leafMu sync.Mutex
var leafCache = map[reflect.Type][]uintptr{}

const maxLeaves = 64

func leaves(t reflect.Type) []uintptr {
	leafMu.Lock()
	defer leafMu.Unlock()
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []uintptr
	addLeaves(t, 0, &out)
	leafCache[t] = out
	return out
}

func addLeaves(t reflect.Type, off uintptr, out *[]uintptr) {
	if len(*out) >= maxLeaves || t.Size() == 0 {
		return
	}
	if strings.HasPrefix(t.PkgPath(), "dst/x/") || t.PkgPath() == "sync" || t.PkgPath() == "sync/atomic" {
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			addLeaves(f.Type, off+f.Offset, out)
		}
	case reflect.Array:
		for i := 0; i < t.Len() && i < maxLeaves; i++ {
			addLeaves(t.Elem(), off+uintptr(i)*t.Elem().Size(), out)
		}
	default:
		*out = append(*out, off)
	}
}

func simple[T any]() bool {
	var z T
	switch any(z).(type) {
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, bool, string, float64, float32, unsafe.Pointer, []byte:
		return true
	}
	return false
}

func touchT[T any](s *Sim, p *T, site int, write bool) {
	if simple[T]() {
		s.touch(unsafe.Pointer(p), site, write, false)
		return
	}
	for _, off := range leaves(reflect.TypeFor[T]()) {
		s.touch(unsafe.Add(unsafe.Pointer(p), off), site, write, false)
	}
}

// ---- memory accesses of the code under test ----

func pre(site int) *Sim {
	s := S
	if s == nil {
		return nil
	}
	s.yield(site, true)
	if s.quiet > 0 || s.cur.killed {
		return nil
	}
	return s
}

// Ld reads a shared location.
func Ld[T any](site int, p *T) T {
	if s := pre(site); s != nil {
		touchT(s, p, site, false)
	}
	return *p
}

// Wr is a location to be written.
type Wr[T any] struct {
	p    *T
	site int
}

// W names a location to be written.
func W[T any](site int, p *T) Wr[T] { return Wr[T]{p, site} }

// Set writes it.
func (w Wr[T]) Set(v T) {
	if s := pre(w.site); s != nil {
		touchT(s, w.p, w.site, true)
	}
	*w.p = v
}

type mapHdr struct{ p unsafe.Pointer }

func mapPtr[M any](m M) unsafe.Pointer { return (*mapHdr)(unsafe.Pointer(&m)).p }

// MR is a map about to be read.
func MR[M ~map[K]V, K comparable, V any](site int, m M) M {
	if m == nil {
		return m
	}
	if s := pre(site); s != nil {
		s.touch(mapPtr(m), site, false, false)
	}
	return m
}

// MapW is a map about to be written.
type MapW[K comparable, V any] struct {
	m    map[K]V
	site int
}

// MP names a map to be written.
func MP[M ~map[K]V, K comparable, V any](site int, m M) MapW[K, V] {
	return MapW[K, V]{m, site}
}

func (w MapW[K, V]) pre() {
	if w.m == nil {
		return
	}
	if s := pre(w.site); s != nil {
		s.touch(mapPtr(w.m), w.site, true, false)
	}
}

func (w MapW[K, V]) Set(k K, v V) {
	w.pre()
	if S != nil {
		S.noteKey(any(k))
	}
	w.m[k] = v
}

func (w MapW[K, V]) Delete(k K) {
	w.pre()
	delete(w.m, k)
}

func (w MapW[K, V]) Clear() {
	w.pre()
	clear(w.m)
}

// MU is a map about to be updated in place (m[k] op= v).
func MU[M ~map[K]V, K comparable, V any](site int, m M, k K) M {
	MapW[K, V]{m, site}.pre()
	if S != nil {
		S.noteKey(any(k))
	}
	return m
}

func (s *Sim) noteKey(k any) {
	v := reflect.ValueOf(k)
	if v.IsValid() {
		switch v.Kind() {
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
			if _, ok := s.objs[ptrKey{v.Pointer()}]; !ok {
				s.ptrN++
				s.objs[ptrKey{v.Pointer()}] = s.ptrN
				s.keep = append(s.keep, k)
			}
		}
	}
}

type ptrKey struct{ p uintptr }

func (s *Sim) keyString(k any) string {
	v := reflect.ValueOf(k)
	if !v.IsValid() {
		return ""
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%s%020d", v.Type(), uint64(v.Int())^(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%s%020d", v.Type(), v.Uint())
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		if n, ok := s.objs[ptrKey{v.Pointer()}]; ok {
			return fmt.Sprintf("%s#%08d", v.Type(), n)
		}
		return v.Type().String()
	}
	return fmt.Sprintf("%T %v", k, k)
}

// MapIter walks a map in an order chosen by the simulator.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site int
}

func mapIter[K comparable, V any](site int, m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m, site: site}
	if len(m) == 0 {
		if m != nil {
			MR(site, m)
		}
		return it
	}
	MR(site, m)
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 && S != nil {
		s := S
		switch ks := any(it.keys).(type) {
		case []int64:
			sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
		case []string:
			sort.Strings(ks)
		case []int:
			sort.Ints(ks)
		default:
			str := make([]string, len(it.keys))
			for i, k := range it.keys {
				str[i] = s.keyString(any(k))
			}
			sort.Sort(&bySt[K]{it.keys, str})
		}
		if v := Choose(1<<16, "map order"); v != 0 {
			r := NewRng(uint64(v) * 7919)
			for i := len(it.keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

type bySt[K any] struct {
	k []K
	s []string
}

func (b *bySt[K]) Len() int           { return len(b.k) }
func (b *bySt[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *bySt[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// MapRange starts the iteration; the zero key and value give the loop variables their types.
func MapRange[M ~map[K]V, K comparable, V any](site int, m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return mapIter[K, V](site, m), k, v
}

// Next advances; k and v may be nil.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		if it.i > 0 {
			MR(it.site, it.m)
		}
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func markSlice[E any](s *Sim, x []E, site int, write bool) {
	n := len(x)
	if n == 0 {
		return
	}
	for i := 0; i < n; i++ {
		if n > 512 && i == 256 {
			i = n - 256
		}
		touchT(s, &x[i], site, write)
	}
}

// Copy is the builtin copy.
func Copy[D ~[]E, E any](site int, dst D, src []E) int {
	if s := pre(site); s != nil {
		n := min(len(dst), len(src))
		markSlice(s, src[:n], site, false)
		markSlice(s, []E(dst)[:n], site, true)
	}
	return copy(dst, src)
}

// CopyStr is the builtin copy from a string.
func CopyStr[D ~[]byte, T ~string](site int, dst D, src T) int {
	if s := pre(site); s != nil {
		n := min(len(dst), len(src))
		markSlice(s, []byte(dst)[:n], site, true)
	}
	return copy(dst, src)
}

// App is the builtin append.
type App[S ~[]E, E any] struct {
	s    S
	site int
}

func A[S ~[]E, E any](site int, s S) App[S, E] { return App[S, E]{s, site} }

func (a App[S, E]) App(v ...E) S {
	if len(v) == 0 {
		return a.s
	}
	if s := pre(a.site); s != nil {
		a.mark(s, len(v))
	}
	return append(a.s, v...)
}

func (a App[S, E]) mark(s *Sim, n int) {
	l := len(a.s)
	if l+n <= cap(a.s) {
		markSlice(s, []E(a.s)[l:l+n], a.site, true)
	} else {
		markSlice(s, []E(a.s), a.site, false)
	}
}

// AppStr is append([]byte, string...).
func AppStr[S ~[]byte, T ~string](site int, b S, v T) S {
	if len(v) == 0 {
		return b
	}
	if s := pre(site); s != nil {
		App[S, byte]{b, site}.mark(s, len(v))
	}
	return append(b, v...)
}

// Chars is a byte or character slice about to become a string.
func Chars[S ~[]E, E byte | rune](site int, x S) S {
	if s := pre(site); s != nil {
		markSlice(s, []E(x), site, false)
	}
	return x
}

// Via is a value on its way into library code that runs as it is: what others
// do to the same memory may come in between. Library objects that goroutines
// must not use at the same time count as written.
func Via[T any](site int, x T) T { return via(site, x, true) }

// Pass is a value handed to library code that does not use it at once.
func Pass[T any](site int, x T) T { pre(site); return x }

// ViaRead is Via for a method that only reads.
func ViaRead[T any](site int, x T) T { return via(site, x, false) }

func via[T any](site int, x T, write bool) T {
	s := pre(site)
	if s == nil || !s.RaceOn {
		return x
	}
	switch any(x).(type) {
	case *bytes.Buffer, *strings.Builder, *bytes.Reader, *strings.Reader, *bufio.Reader, *bufio.Writer, *bufio.Scanner,
		*csv.Reader, *csv.Writer, *json.Encoder, *json.Decoder, hash.Hash, cipher.BlockMode, cipher.Stream, *list.List:
		if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && !v.IsNil() {
			s.touch(v.UnsafePointer(), site, write, false)
		}
	}
	return x
}

// MarkRead and MarkWrite record accesses by harness or stub code to real memory.
func MarkRead[E any](site int, x []E) {
	if S != nil && !S.cur.killed {
		markSlice(S, x, site, false)
	}
}

func MarkWrite[E any](site int, x []E) {
	if S != nil && !S.cur.killed {
		markSlice(S, x, site, true)
	}
}

// Touch records an access by x package code to an object's internal state.
func Touch(p unsafe.Pointer, site int, write bool) {
	if S != nil && !S.cur.killed && S.quiet == 0 {
		S.touch(p, site, write, false)
	}
}

// Zero puts a variable back to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

var sites []string

// SetSites installs the table of source positions.
func SetSites(t []string) { sites = t }

// SiteName is the source position of a site.
func SiteName(i int) string {
	switch {
	case i >= 0 && i < len(sites):
		return sites[i]
	case i <= -2 && -i-2 < len(extraSites):
		return extraSites[-i-2]
	}
	return "harness"
}

var extraSites []string

// Site registers a name for a place in harness or x package code.
func Site(name string) int {
	extraSites = append(extraSites, name)
	return -(len(extraSites) - 1) - 2
}

// Key gives a constant key the map's key type.
func Key[M ~map[K]V, K comparable, V any](m M, k K) K { return k }
