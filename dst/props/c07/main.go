package main

import (
	"dst/props/dq"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C07", Quick: 500000, ThoroughS: 600, Real: dq.Real, Stub: dq.Stub, NoRace: true,
		Rule: "A workload is a few actors pushing elements with mixed delays, taking with and without cancellation, reading output channels, popping, peeking and checking emptiness.",
		Scenarios: []*run.Scenario{
			run.New("queue", 1, dq.Gen(dq.Shape{Takers: 0.6, Cancel: 0.1, Chans: 0.1, Probes: 0.15}), dq.Body(dq.Checks{Wake: true})),
		}})
}
