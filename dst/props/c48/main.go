package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C48", Quick: 1000000, ThoroughS: 600, Stub: []string{"goroutine scheduler", "the medium between sender and receiver"},
		Real: []string{"help/utils/md5.go (digests)", "help/utils/breakpoint_continue.go (CheckMd5, MD5V)", "help/utils/base64.go"},
		Rule: "A workload is up to three peers that send contents of every length, plain or as base64 text, with their digests through an unreliable medium and check what arrives: lost, doubled, overtaken, cut, longer, torn, garbled, with flipped bits or moved blocks, or with another digest.",
		Scenarios: []*run.Scenario{
			run.New("courier", 1, misc.GenCourier, misc.Courier),
		}})
}
