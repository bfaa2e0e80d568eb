// Package run drives many seeded simulated runs of a property's scenarios,
// minimises and replays what fails, and writes the evidence.
package run

import (
	"dst/sim"
)

// G draws a run's workload and configuration.
type G struct{ r sim.Rng }

// NewG starts a stream.
func NewG(seed uint64) *G { return &G{sim.NewRng(seed)} }

// Intn is uniform in [0,n).
func (g *G) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.r.Uint64() % uint64(n))
}

// Range is uniform in [a,b].
func (g *G) Range(a, b int) int { return a + g.Intn(b-a+1) }

// R64 is uniform in [a,b].
func (g *G) R64(a, b int64) int64 { return a + int64(g.r.Uint64()%uint64(b-a+1)) }

// P is true with probability p.
func (g *G) P(p float64) bool { return g.r.Float() < p }

// U64 is a raw draw.
func (g *G) U64() uint64 { return g.r.Uint64() }

// Pick picks one.
func Pick[T any](g *G, xs ...T) T { return xs[g.Intn(len(xs))] }

// Weighted picks an index by weight.
func (g *G) Weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := g.Intn(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// Schedule fills in a varied scheduling strategy.
func (g *G) Schedule(c *sim.Config) {
	c.Seed = g.U64()
	c.OldTimer = g.P(0.5)
	c.StepNs = Pick(g, int64(10), 20, 100, 1000)
	switch {
	case g.P(0.05):
		c.Strategy = "calm"
	case g.P(0.65):
		c.Strategy = "random"
		c.SwitchP = Pick(g, 0.05, 0.15, 0.3, 0.6)
		c.MemP = Pick(g, 0, 0.01, 0.05, 0.2, 0.5)
	default:
		c.Strategy = "pct"
		c.PctD = g.Range(1, 6)
		c.PctLen = Pick(g, 60, 200, 600, 2000)
	}
}

// Stalls lets tasks be descheduled for a while.
func (g *G) Stalls(c *sim.Config, p float64, ns ...int64) {
	if g.P(p) {
		c.StallP = Pick(g, 0.002, 0.01, 0.05)
		c.StallNs = ns
		c.MaxStall = g.Range(1, 8)
	}
}

// Leaps lets time pass while every task stands still.
func (g *G) Leaps(c *sim.Config, p float64, ns ...int64) {
	if g.P(p) {
		c.LeapP = Pick(g, 0.002, 0.01, 0.05)
		c.LeapNs = ns
		if c.MaxStall == 0 {
			c.MaxStall = g.Range(1, 8)
		}
	}
}

// WallSteps lets the wall clock be stepped.
func (g *G) WallSteps(c *sim.Config, p float64, ns ...int64) {
	if g.P(p) {
		c.WallP = Pick(g, 0.005, 0.02, 0.1)
		c.WallNs = ns
		if c.MaxStall == 0 {
			c.MaxStall = g.Range(1, 8)
		}
	}
}

// Faults enables fault kinds.
func (g *G) Faults(c *sim.Config, p float64, max int, kinds string) {
	if g.P(p) {
		c.Faults = kinds
		c.FaultP = Pick(g, 0.01, 0.03, 0.1, 0.3)
		c.MaxFault = g.Range(1, max)
	}
}
