package main

import (
	"dst/props/dq"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C08", Quick: 500000, ThoroughS: 600, Real: dq.Real, Stub: dq.Stub, NoRace: true,
		Rule: "A workload is a few actors pushing elements with mixed delays, taking with and without cancellation, reading output channels, popping, peeking and checking emptiness.",
		Scenarios: []*run.Scenario{
			run.New("queue", 1, dq.Gen(dq.Shape{Takers: 0.55, Cancel: 0.7, Chans: 0.4, Probes: 0.25}), dq.Body(dq.Checks{Cancel: true})),
		}})
}
