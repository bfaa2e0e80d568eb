package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C21", Quick: 300000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/zip.go (Unzip)", "archive/zip (coding; its OpenReader opens the simulated file)"},
		Rule: "A workload is one or two clients extracting archives whose entries have names with parent references, absolute names, empty parts, directories, duplicates and symbolic links, into destinations written in several ways, next to files that must not change.",
		Scenarios: []*run.Scenario{
			run.New("hostile", 1, files.GenHostile, files.Zip(files.ZipChecks{Confined: true})),
		}})
}
