package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C34", Quick: 500000, ThoroughS: 600, Stub: []string{"goroutine scheduler", "map iteration order"},
		Real: []string{"help/utils (base64.go, md5.go, strings.go, ints.go, maps.go, math.go, url.go, the pure functions of files.go)", "common/math", "common/hash"},
		Rule: "A workload is two to four goroutines calling one to all of the stateless helpers, often the same ones with the same or nearly the same arguments, byte slices of one shared buffer with and without spare capacity and shared maps among them; some callers write to what they got.",
		Scenarios: []*run.Scenario{
			run.New("stateless", 1, misc.GenStateless, misc.Stateless),
		}})
}
