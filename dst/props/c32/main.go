package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C32", Quick: 600000, ThoroughS: 600, Stub: []string{"goroutine scheduler and clock", "time zone"}, NoRace: true,
		Real: []string{"help/utils/times.go"},
		Rule: "A workload is up to three goroutines asking for the date directory around midnight, at the ends of months and years, in eight time zones, with stalls, time leaps and wall clock steps inside the calls.",
		Scenarios: []*run.Scenario{
			run.New("timedir", 1, misc.GenTimeDir, misc.TimeDir),
		}})
}
