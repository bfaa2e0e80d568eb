package main

import (
	"dst/props/ring"
	"dst/run"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
)

var capacity = func(s uint64) uint64 { return s }

func main() {
	mk := func(s uint64) ring.Ring { return fix.New[int64](s) }
	run.Main(&run.Prop{ID: "C15", Quick: 500000, ThoroughS: 600, Stub: ring.Stub, Rule: ring.Rule,
		Real: []string{"common/container/ringbuffer/fix (whole package)", "common/math"},
		Scenarios: []*run.Scenario{
			run.New("spsc", 1, ring.Gen, ring.Body(mk, capacity)),
		}})
}
