package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C18", Quick: 400000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/files.go (CopyFile)"},
		Rule: "A workload is up to three clients copying files of 0 to 70000 bytes, repeatedly, over nothing, longer or shorter files, links, directories or the source itself, with retries after failures and crashes.",
		Scenarios: []*run.Scenario{
			run.New("copy", 1, files.GenCopy, files.Copy),
		}})
}
