package misc

import (
	"fmt"
	"time"
	_ "time/tzdata"

	"dst/run"
	"dst/sim"
	"dst/x/xtime"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Td is one call.
type Td struct {
	T    int   `json:"t"`              // client; -1: setup
	Zone int   `json:"zone,omitempty"` // setup
	Wall int64 `json:"wall,omitempty"` // setup: reading of the wall clock at the start, seconds
	Ns   int64 `json:"ns,omitempty"`
	Wait int64 `json:"wait,omitempty"`
}

var zones = func() (zs []*time.Location) {
	for _, n := range []string{"Asia/Shanghai", "UTC", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Asia/Kathmandu", "Pacific/Kiritimati", "America/St_Johns"} {
		z, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		zs = append(zs, z)
	}
	return
}()

// TimeDir runs a workload.
func TimeDir(ops []Td) {
	time.Local = xtime.Local
	defer func() { time.Local = xtime.Local }()
	by := map[int][]Td{}
	horizon := int64(0)
	for _, o := range ops {
		if o.T < 0 {
			time.Local = zones[o.Zone]
			sim.SetWall(o.Wall*1e9 + o.Ns)
			continue
		}
		by[o.T] = append(by[o.T], o)
		horizon += o.Wait
	}
	zone := time.Local
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		if list := by[t]; list != nil {
			ts = append(ts, sim.GoNamed(fmt.Sprint("caller", t), func() {
				for _, o := range list {
					if o.Wait > 0 {
						sim.Sleep(o.Wait)
					}
					from := sim.Now()
					got := utils.GetTimeDir()
					rs := sim.WallRanges(from, sim.Now())
					sim.Tracef("directory %q", got)
					ok := false
					var days []string
					for _, r := range rs {
						// every date between the two readings
						a, b := time.Unix(0, r[0]).In(zone), time.Unix(0, r[1]).In(zone)
						for x := a; ; x = x.Add(time.Hour) {
							if x.After(b) {
								x = b
							}
							y, m, d := x.Date()
							s := fmt.Sprintf("%04d/%02d/%02d", y, int(m), d)
							ok = ok || s == got
							if len(days) == 0 || days[len(days)-1] != s {
								days = append(days, s)
							}
							if !x.Before(b) {
								break
							}
						}
					}
					if !ok {
						sim.Fail("date", "the date directory is %q, but the date during the call was %v", got, days)
					}
					sim.Probe("called")
					if len(days) > 1 {
						sim.Probe("the date changed during the call")
					}
				}
			}))
		}
	}
	finish("a call", horizon, ts...)
}

// GenTimeDir makes a workload.
func GenTimeDir(g *run.G, c *sim.Config) []Td {
	g.Schedule(c)
	c.StepNs = run.Pick(g, int64(100), 1000, 100000)
	c.Coarse = run.Pick[int64](g, 0, 0, 1e6)
	g.Stalls(c, 0.4, 1e6, 1e9, 86400e9)
	g.Leaps(c, 0.4, 1e6, 1e9, 3600e9, 86400e9)
	g.WallSteps(c, 0.4, -1e9, 1e9, -86400e9, 86400e9, 30*86400e9)
	if c.StallP > 0 {
		c.StallP = 0.1
	}
	if c.LeapP > 0 {
		c.LeapP = 0.1
	}
	z := g.Intn(len(zones))
	y, mo, d := g.Range(1990, 2100), g.Range(1, 12), g.Range(1, 31)
	switch g.Intn(5) {
	case 0:
		mo, d = 1, 1
	case 1:
		mo, d = 3, run.Pick(g, 0, 1)
		y = run.Pick(g, 2000, 2023, 2024, 2100)
	case 2:
		y, mo, d = 2011, 12, g.Range(29, 31)
	}
	at := time.Date(y, time.Month(mo), d, 0, 0, 0, 0, zones[z]).Unix()
	if g.P(0.2) {
		at += int64(g.Intn(86400))
	}
	ops := []Td{{T: -1, Zone: z, Wall: at - int64(run.Pick(g, 0, 0, 1, 2)), Ns: -run.Pick(g, int64(0), 1, 100, 3000, 100000, ms)}}
	for t := g.Range(1, 3); t > 0; t-- {
		for k := g.Range(1, 4); k > 0; k-- {
			ops = append(ops, Td{T: t, Wait: run.Pick(g, int64(0), 0, 50, 1000, ms, 1e9, 43200e9, 86400e9)})
		}
	}
	return ops
}
