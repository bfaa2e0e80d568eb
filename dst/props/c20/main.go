package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C20", Quick: 200000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/zip.go", "archive/zip (coding; its OpenReader opens the simulated file)"},
		Rule: "A workload is up to three clients packing files and extracting archives, sound or damaged, into fresh or used directories, with retries after failures.",
		Scenarios: []*run.Scenario{
			run.New("zip", 1, files.GenZip, files.Zip(files.ZipChecks{Faithful: true})),
		}})
}
