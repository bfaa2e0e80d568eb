package main

import (
	"dst/props/dbs"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C28", Quick: 300000, ThoroughS: 600, Stub: dbs.Stub, NoRace: true,
		Real: []string{"gorm_tools/gorm.go", "gorm.io/gorm", "gorm.io/plugin/soft_delete"},
		Rule: "A workload is up to two clients (and a third whose rows nobody may touch) inserting structs, maps and lists of them, and updating, deleting and soft-deleting rows by id, by lists of ids (repeated, absent, empty) and by conditions (values, lists, NULL, empty), in a transaction or not, with begin, statement and commit failing before or after they took effect, process crashes, stalls and wall clock steps.",
		Scenarios: []*run.Scenario{
			run.New("single", 1, dbs.GenSingle, dbs.Single),
		}})
}
