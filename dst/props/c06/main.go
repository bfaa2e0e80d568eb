package main

import (
	"dst/props/dq"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C06", Quick: 500000, ThoroughS: 600, Real: dq.Real, Stub: dq.Stub,
		Rule: "A workload is a few actors pushing elements with mixed delays, taking with and without cancellation, reading output channels, popping, peeking and checking emptiness.",
		Scenarios: []*run.Scenario{
			run.New("queue", 1, dq.Gen(dq.Shape{Takers: 0.45, Cancel: 0.35, Chans: 0.25, Probes: 0.4, Bulk: true}), dq.Body(dq.Checks{Safety: true})),
		}})
}
