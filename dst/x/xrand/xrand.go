// Package xrand stands in for math/rand: the global source is per run, and
// unsynchronised use of one generator from several tasks is a data race.
package xrand

import (
	"dst/sim"
	rand "math/rand"
	"unsafe"
)

type Rand struct {
	r    *rand.Rand
	mark int64
}

var site = sim.Site("math/rand.Rand")
var siteG = sim.Site("math/rand")

func (r *Rand) use() {
	if sim.SyncPoint(site) {
		sim.Touch(unsafe.Pointer(&r.mark), site, true)
	}
}

func (r *Rand) Perm(n int) []int                   { r.use(); return r.r.Perm(n) }
func Perm(n int) []int                             { sim.SyncPoint(siteG); return global().Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.use(); r.r.Shuffle(n, swap) }
func Shuffle(n int, swap func(i, j int))           { sim.SyncPoint(siteG); global().Shuffle(n, swap) }
func (r *Rand) Float32() float32                   { r.use(); return r.r.Float32() }
func Float32() float32                             { sim.SyncPoint(siteG); return global().Float32() }
func (r *Rand) Float64() float64                   { r.use(); return r.r.Float64() }
func Float64() float64                             { sim.SyncPoint(siteG); return global().Float64() }
func (r *Rand) ExpFloat64() float64                { r.use(); return r.r.ExpFloat64() }
func ExpFloat64() float64                          { sim.SyncPoint(siteG); return global().ExpFloat64() }
func (r *Rand) NormFloat64() float64               { r.use(); return r.r.NormFloat64() }
func NormFloat64() float64                         { sim.SyncPoint(siteG); return global().NormFloat64() }
func (r *Rand) Uint32() uint32                     { r.use(); return r.r.Uint32() }
func Uint32() uint32                               { sim.SyncPoint(siteG); return global().Uint32() }
func (r *Rand) Uint64() uint64                     { r.use(); return r.r.Uint64() }
func Uint64() uint64                               { sim.SyncPoint(siteG); return global().Uint64() }
func (r *Rand) Int() int                           { r.use(); return r.r.Int() }
func Int() int                                     { sim.SyncPoint(siteG); return global().Int() }
func (r *Rand) Int31() int32                       { r.use(); return r.r.Int31() }
func Int31() int32                                 { sim.SyncPoint(siteG); return global().Int31() }
func (r *Rand) Int31n(n int32) int32               { r.use(); return r.r.Int31n(n) }
func Int31n(n int32) int32                         { sim.SyncPoint(siteG); return global().Int31n(n) }
func (r *Rand) Int63() int64                       { r.use(); return r.r.Int63() }
func Int63() int64                                 { sim.SyncPoint(siteG); return global().Int63() }
func (r *Rand) Int63n(n int64) int64               { r.use(); return r.r.Int63n(n) }
func Int63n(n int64) int64                         { sim.SyncPoint(siteG); return global().Int63n(n) }
func (r *Rand) Intn(n int) int                     { r.use(); return r.r.Intn(n) }
func Intn(n int) int                               { sim.SyncPoint(siteG); return global().Intn(n) }
func (r *Rand) Read(p []byte) (int, error)         { r.use(); return r.r.Read(p) }
func Read(p []byte) (int, error)                   { sim.SyncPoint(siteG); return global().Read(p) }

type st struct{ r *rand.Rand }

// Every process seeds its source anew.
type key struct{ start uint64 }

func global() *rand.Rand {
	if sim.S == nil {
		return rand.New(rand.NewSource(1))
	}
	return sim.Obj[st](key{sim.Starts()}, func() *st {
		return &st{rand.New(rand.NewSource(int64(sim.S.Cfg.Seed + sim.Starts()*0x9e3779b97f4a7c15)))}
	}).r
}

// Seed reseeds the global source, as it does for a module of this one's language version.
func Seed(seed int64) { sim.SyncPoint(siteG); global().Seed(seed) }

func (r *Rand) Seed(seed int64) { r.use(); r.r.Seed(seed) }

type (
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// src is a source with marks.
type src struct {
	s    rand.Source64
	mark int64
}

func (s *src) use() {
	if sim.SyncPoint(site) {
		sim.Touch(unsafe.Pointer(&s.mark), site, true)
	}
}
func (s *src) Int63() int64    { s.use(); return s.s.Int63() }
func (s *src) Uint64() uint64  { s.use(); return s.s.Uint64() }
func (s *src) Seed(seed int64) { s.use(); s.s.Seed(seed) }

func NewSource(seed int64) Source { return &src{s: rand.NewSource(seed).(rand.Source64)} }
func New(s Source) *Rand          { return &Rand{r: rand.New(s)} }
