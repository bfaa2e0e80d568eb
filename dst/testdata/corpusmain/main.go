// Command corpusmain runs the rewritten corpus in the simulator.
package main

import (
	"dst/sim"
	"fmt"
	"os"

	_ "corpus/dstsites"
	"corpus/forms"
)

func main() {
	var h uint64
	first := ""
	for i := 0; i < 200; i++ {
		cfg := sim.Config{Seed: uint64(i), Strategy: []string{"calm", "random", "pct"}[i%3], SwitchP: 0.3, MemP: 0.2, PctD: 5, OldTimer: i%2 == 0}
		out := ""
		r := sim.Run(cfg, nil, false, false, func() {
			if cfg.Strategy == "calm" {
				sim.Calm()
			}
			out = forms.Run()
		})
		if r.Viol != nil {
			fmt.Fprintln(os.Stderr, "seed", i, r.Viol)
			os.Exit(1)
		}
		out2 := ""
		r2 := sim.Run(cfg, r.Log, true, false, func() {
			if cfg.Strategy == "calm" {
				sim.Calm()
			}
			out2 = forms.Run()
		})
		if out2 != out || r2.Viol != nil || r2.St.SchedHash != r.St.SchedHash || r2.St.Steps != r.St.Steps {
			fmt.Fprintln(os.Stderr, "seed", i, "replay differs", r2.Viol, r.St.Steps, r2.St.Steps)
			os.Exit(1)
		}
		h = h*31 + r.St.SchedHash
		if first == "" {
			first = out
		} else if out != first {
			fmt.Fprintln(os.Stderr, "seed", i, "differs")
			fmt.Print(out)
			os.Exit(1)
		}
	}
	fmt.Print(first)
}
