package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C22", Quick: 400000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/csv.go", "encoding/csv"},
		Rule: "A workload is up to four clients appending rows to two files and reading them back, with fields of every awkward kind, long rows, rows present before, a disk that fills up, and retries after failures.",
		Scenarios: []*run.Scenario{
			run.New("csv", 1, files.GenCSV, files.CSV),
		}})
}
