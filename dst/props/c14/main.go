package main

import (
	"dst/props/cmap"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C14", Quick: 500000, ThoroughS: 600,
		Real: []string{"help/utils/maps.go (Map)"},
		Stub: []string{"goroutine scheduler", "sync.RWMutex", "map iteration order"},
		Rule: "A workload is two to five goroutines running one to four map operations each on up to four keys, iterations with panicking callbacks among them.",
		Scenarios: []*run.Scenario{
			run.New("map", 1, cmap.Gen, cmap.Body),
		}})
}
