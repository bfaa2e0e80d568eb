package main

import (
	"dst/props/dbs"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C37", Quick: 150000, ThoroughS: 600, Stub: dbs.Stub, NoRace: true,
		Real: []string{"gorm_tools/gorm.go", "gorm_tools/update.go", "gorm.io/gorm", "gorm.io/plugin/soft_delete"},
		Rule: "A workload is up to two clients (and a third whose rows nobody may touch) that make handles (the plain one, one under a context, one shared under a context, a transaction, one with a condition, without default transactions, with a batch size, one that has failed already) and call up to three helpers of any kind through each, with contexts cancelled or expired before, between and during the calls, statements that take time, and begin, statement and commit failing before or after they took effect.",
		Scenarios: []*run.Scenario{
			run.New("handles", 1, dbs.GenHandles, dbs.Handles),
		}})
}
