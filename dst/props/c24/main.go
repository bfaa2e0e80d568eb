package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C24", Quick: 300000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/files.go (CreateDir, MkDir, ScanDir, DeLFile)"},
		Rule: "A workload is up to four clients creating overlapping trees, scanning a still tree with files, hidden files and links, and deleting trees with links that lead out of them, with files in the way, retries after failures and crashes.",
		Scenarios: []*run.Scenario{
			run.New("dirs", 1, files.GenDirs, files.Dirs),
		}})
}
