package main

import (
	"dst/props/ring"
	"dst/run"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
)

var capacity = func(s uint64) uint64 {
	p := uint64(1)
	for p < s {
		p *= 2
	}
	return p
}

func main() {
	mk := func(s uint64) ring.Ring { return round.New[int64](s) }
	run.Main(&run.Prop{ID: "C16", Quick: 500000, ThoroughS: 600, Stub: ring.Stub, Rule: ring.Rule,
		Real: []string{"common/container/ringbuffer/round (whole package)", "common/math"},
		Scenarios: []*run.Scenario{
			run.New("spsc", 1, ring.Gen, ring.Body(mk, capacity)),
		}})
}
