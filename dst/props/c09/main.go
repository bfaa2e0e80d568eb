package main

import (
	"dst/props/wheel"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C09", Quick: 400000, ThoroughS: 600, Real: wheel.Real, Stub: wheel.Stub,
		Rule: "A workload is a wheel of some tick and size, started before, with or after its first timers, and a few actors adding one-shot timers with mixed delays from past to several overflow wheels, some of them stopped.",
		Scenarios: []*run.Scenario{
			run.New("wheel", 1, wheel.Gen(wheel.Shape{Stop: 0.15, Late: 0.3}), wheel.Body(wheel.Checks{Timing: true})),
		}})
}
