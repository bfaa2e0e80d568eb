// Package xrandv2 stands in for math/rand/v2: the global source is per run, and
// unsynchronised use of one generator from several tasks is a data race.
package xrandv2

import (
	"dst/sim"
	rand "math/rand/v2"
	"unsafe"
)

type Rand struct {
	r    *rand.Rand
	mark int64
}

var site = sim.Site("math/rand.Rand")
var siteG = sim.Site("math/rand")

func (r *Rand) use() {
	if sim.SyncPoint(site) {
		sim.Touch(unsafe.Pointer(&r.mark), site, true)
	}
}

func (r *Rand) Perm(n int) []int                   { r.use(); return r.r.Perm(n) }
func Perm(n int) []int                             { sim.SyncPoint(siteG); return global().Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.use(); r.r.Shuffle(n, swap) }
func Shuffle(n int, swap func(i, j int))           { sim.SyncPoint(siteG); global().Shuffle(n, swap) }
func (r *Rand) Float32() float32                   { r.use(); return r.r.Float32() }
func Float32() float32                             { sim.SyncPoint(siteG); return global().Float32() }
func (r *Rand) Float64() float64                   { r.use(); return r.r.Float64() }
func Float64() float64                             { sim.SyncPoint(siteG); return global().Float64() }
func (r *Rand) ExpFloat64() float64                { r.use(); return r.r.ExpFloat64() }
func ExpFloat64() float64                          { sim.SyncPoint(siteG); return global().ExpFloat64() }
func (r *Rand) NormFloat64() float64               { r.use(); return r.r.NormFloat64() }
func NormFloat64() float64                         { sim.SyncPoint(siteG); return global().NormFloat64() }
func (r *Rand) Uint32() uint32                     { r.use(); return r.r.Uint32() }
func Uint32() uint32                               { sim.SyncPoint(siteG); return global().Uint32() }
func (r *Rand) Uint64() uint64                     { r.use(); return r.r.Uint64() }
func Uint64() uint64                               { sim.SyncPoint(siteG); return global().Uint64() }
func (r *Rand) Int() int                           { r.use(); return r.r.Int() }
func Int() int                                     { sim.SyncPoint(siteG); return global().Int() }
func (r *Rand) Int32() int32                       { r.use(); return r.r.Int32() }
func Int32() int32                                 { sim.SyncPoint(siteG); return global().Int32() }
func (r *Rand) Int32N(n int32) int32               { r.use(); return r.r.Int32N(n) }
func Int32N(n int32) int32                         { sim.SyncPoint(siteG); return global().Int32N(n) }
func (r *Rand) Int64() int64                       { r.use(); return r.r.Int64() }
func Int64() int64                                 { sim.SyncPoint(siteG); return global().Int64() }
func (r *Rand) Int64N(n int64) int64               { r.use(); return r.r.Int64N(n) }
func Int64N(n int64) int64                         { sim.SyncPoint(siteG); return global().Int64N(n) }
func (r *Rand) IntN(n int) int                     { r.use(); return r.r.IntN(n) }
func IntN(n int) int                               { sim.SyncPoint(siteG); return global().IntN(n) }
func (r *Rand) Uint32N(n uint32) uint32            { r.use(); return r.r.Uint32N(n) }
func Uint32N(n uint32) uint32                      { sim.SyncPoint(siteG); return global().Uint32N(n) }
func (r *Rand) Uint64N(n uint64) uint64            { r.use(); return r.r.Uint64N(n) }
func Uint64N(n uint64) uint64                      { sim.SyncPoint(siteG); return global().Uint64N(n) }
func (r *Rand) UintN(n uint) uint                  { r.use(); return r.r.UintN(n) }
func UintN(n uint) uint                            { sim.SyncPoint(siteG); return global().UintN(n) }
func (r *Rand) Uint() uint                         { r.use(); return r.r.Uint() }
func Uint() uint                                   { sim.SyncPoint(siteG); return global().Uint() }

type st struct{ r *rand.Rand }

// Every process seeds its source anew.
type key struct{ start uint64 }

func global() *rand.Rand {
	if sim.S == nil {
		return rand.New(rand.NewPCG(1, 2))
	}
	return sim.Obj[st](key{sim.Starts()}, func() *st { return &st{rand.New(rand.NewPCG(sim.S.Cfg.Seed, 7+sim.Starts()))} }).r
}

func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(Uint64N(uint64(n)))
}

type (
	Source = rand.Source
	Zipf   = rand.Zipf
)

type src struct {
	s    rand.Source
	mark int64
}

func (s *src) Uint64() uint64 {
	if sim.SyncPoint(site) {
		sim.Touch(unsafe.Pointer(&s.mark), site, true)
	}
	return s.s.Uint64()
}

func NewPCG(a, b uint64) Source    { return &src{s: rand.NewPCG(a, b)} }
func NewChaCha8(k [32]byte) Source { return &src{s: rand.NewChaCha8(k)} }
func New(s Source) *Rand           { return &Rand{r: rand.New(s)} }
