package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C45", Quick: 600000, ThoroughS: 600, Stub: []string{"goroutine scheduler", "the medium between encryption and decryption"},
		Real: []string{"help/utils/md5.go", "crypto/aes", "crypto/cipher"},
		Rule: "A workload is up to three peers that encrypt messages of every length under several keys and decrypt what an unreliable medium made of them: lost, doubled, overtaken, cut, longer, torn, garbled, with flipped bits or moved blocks, or read with another key.",
		Scenarios: []*run.Scenario{
			run.New("transit", 1, misc.GenTransit, misc.Transit),
		}})
}
