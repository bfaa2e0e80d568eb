package dbs

import (
	"fmt"
	"strconv"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
)

// Up is one step of a batch update workload.
type Up struct {
	T     int    `json:"t"`           // client
	K     string `json:"k"`           // split, batch
	N     int    `json:"n,omitempty"` // ids
	W     int    `json:"w,omitempty"` // fields
	Mixed string `json:"mixed,omitempty"`
	At    int    `json:"at,omitempty"` // which id differs
	Gap   int    `json:"gap,omitempty"`
	Tx    int    `json:"tx,omitempty"`
	Seed  uint64 `json:"seed,omitempty"`
	Rows  int    `json:"rows,omitempty"` // rows the client's range holds
	Wait  int64  `json:"wait,omitempty"`
}

const upCols = 6

// set builds the update set; base is the first id of the client's range.
func (o Up) set(base int64) (set map[int64]map[string]any, ids []int64) {
	r := sim.NewRng(o.Seed)
	set = map[int64]map[string]any{}
	perm := make([]int, upCols)
	for i := range perm {
		perm[i] = i
	}
	for i := range perm {
		j := i + r.Intn(upCols-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	id := base + int64(r.Intn(3))
	for i := 0; i < o.N; i++ {
		m := map[string]any{}
		for c := 0; c < o.W; c++ {
			v := aValue(&r)
			if o.N > 100 {
				v = fmt.Sprint("v", i, ".", c)
			} else if r.Intn(12) == 0 {
				v = []byte("bytes")
			}
			m["c"+strconv.Itoa(perm[c])] = v
		}
		if o.Mixed != "" && i == o.At%max(o.N, 1) && o.N > 1 {
			switch {
			case o.Mixed == "more" && o.W < upCols:
				m["c"+strconv.Itoa(perm[o.W])] = aValue(&r)
			case o.Mixed == "less" && o.W > 1:
				delete(m, "c"+strconv.Itoa(perm[0]))
			case o.Mixed == "none":
				m = map[string]any{}
				if o.Seed%2 == 0 {
					m = nil
				}
			default: // another field instead
				if o.W < upCols {
					delete(m, "c"+strconv.Itoa(perm[0]))
					m["c"+strconv.Itoa(perm[o.W])] = aValue(&r)
				} else {
					delete(m, "c"+strconv.Itoa(perm[0]))
				}
			}
		}
		set[id] = m
		ids = append(ids, id)
		id += 1 + int64(r.Intn(o.Gap+1))
	}
	return
}

// Update runs a workload.
func Update(ops []Up) {
	t := &table{name: "items", cols: columns(upCols), next: 1}
	e := NewEngine(t)
	db := e.Gorm()
	by := map[int][]Up{}
	horizon := int64(0)
	for _, o := range ops {
		by[o.T] = append(by[o.T], o)
		horizon += o.Wait
	}
	for c := 0; c < 8; c++ {
		list := by[c]
		if list == nil {
			continue
		}
		r := sim.NewRng(list[0].Seed ^ 77)
		n := 0
		for _, o := range list {
			n = max(n, o.Rows)
		}
		for i := 0; i < n; i++ {
			v := map[string]val{}
			for _, k := range t.cols {
				v[k] = mustCanon(aValue(&r))
			}
			v["id"] = mustCanon(int64(c)*100000 + int64(i))
			e.serial++
			t.rows = append(t.rows, &row{e.serial, v})
		}
	}
	t.next = 1e9
	all, allRows := t.snap()
	named := map[string]bool{}
	proc := 0
	var ts []*sim.Task
	for c := 0; c < 8; c++ {
		if list := by[c]; list != nil {
			ts = append(ts, sim.GoNamed(fmt.Sprint("client", c), func() {
				for _, o := range list {
					if o.Wait > 0 {
						sim.Sleep(o.Wait)
					}
					set, ids := o.set(int64(c) * 100000)
					for _, id := range ids {
						named[fmt.Sprint(id)] = true
					}
					proc++
					update(e, t, db, o, set, ids, proc, int64(c)*100000)
				}
			}))
		}
	}
	finish("an update", horizon, ts...)
	ids, rows := t.snap()
	if len(ids) != len(all) {
		sim.Fail("rows", "the table has %d rows after the updates instead of %d", len(ids), len(all))
	}
	for i, id := range ids {
		if id != all[i] || !named[id] && !sameRow(rows[id], allRows[id]) {
			sim.Fail("other-row", "row %s, which no update named, has changed to [%s]", id, text(rows[id]))
		}
	}
}

func update(e *Engine, t *table, db *gorm.DB, o Up, set map[int64]map[string]any, ids []int64, proc int, base int64) {
	_, was := t.snap()
	arg := map[int64]map[string]any{}
	for id, m := range set {
		var c map[string]any
		if m != nil {
			c = map[string]any{}
			for k, v := range m {
				c[k] = v
			}
		}
		arg[id] = c
	}
	l0, f0 := len(e.Log), len(e.Fails)
	var err, outer error
	done, committed, began, rolled := false, false, true, false
	tk := sim.GoProc(proc, fmt.Sprintf("%s of %d", o.K, o.N), func() {
		fn := gorm_tools.SplitUpdateTableFieldWithoutVersionByID
		if o.K == "batch" {
			fn = gorm_tools.BatchUpdateTableFieldWithoutVersionByID
		}
		switch o.Tx {
		case 0:
			err = fn(db, "items", arg)
		default:
			tx := db.Begin()
			if tx.Error != nil {
				began = false
				break
			}
			if err = fn(tx, "items", arg); err != nil {
				rolled = true
				tx.Rollback()
			} else {
				outer = tx.Commit().Error
				committed = outer == nil
			}
		}
		done = true
	})
	finish("an update", 0, tk)
	sim.Tracef("update of %d rows: done %v, %s, committed %v", o.N, done, errText(err), committed)
	failed, sent := false, 0
	var last *Stmt
	for _, s := range e.Log[l0:] {
		if s.Task != tk {
			continue
		}
		if failed {
			sim.Fail("after-failure", "another statement was sent after one had failed: %s", brief(s.SQL, 120))
		}
		failed = s.Err != nil
		sent++
		last = s
	}
	if !began {
		return
	}
	if done && failed && err == nil {
		sim.Fail("failure-hidden", "the update reports success although a statement failed (%v)", last.Err)
	}
	mixed, some := false, 0
	for _, id := range ids {
		if len(set[id]) != len(set[ids[0]]) {
			mixed = true
		}
		some = max(some, len(set[id]))
		for k := range set[id] {
			if _, ok := set[ids[0]][k]; !ok {
				mixed = true
			}
		}
	}
	single := o.K == "batch" || len(ids) <= 100
	if mixed && single && done {
		if err == nil {
			sim.Fail("mixed-accepted", "an update set whose rows name different fields is accepted")
		}
		sim.Probe("mixed set refused")
	}
	if done && err != nil && e.hitBy(tk, f0) == 0 && !mixed && (some > 0 || len(ids) == 0) && !(o.K == "batch" && len(ids)*(2*some+1) > 60000) {
		sim.Fail("refused", "the update reports an error although every row names the same fields and no statement failed: %s", brief(err.Error(), 200))
	}
	// rows
	_, rows := t.snap()
	whole := done && err == nil && (o.Tx == 0 || committed) // all of it must be there
	none := rolled && done || mixed && single
	var changed []int64
	byID := map[string]map[string]any{}
	for _, id := range ids {
		byID[fmt.Sprint(id)] = set[id]
	}
	for _, id := range sim.Keys(was) {
		old := was[id]
		n, err := strconv.ParseInt(id, 10, 64)
		if err != nil || n < base || n >= base+100000 {
			continue
		}
		now, ok := rows[id]
		if !ok {
			sim.Fail("row-lost", "row %s is gone after an update", id)
		}
		want := map[string]val{}
		for k, v := range old {
			want[k] = v
		}
		for k, v := range byID[id] {
			want[k] = mustCanon(v)
		}
		isNew, isOld := sameRow(now, want), sameRow(now, old)
		if !isOld {
			changed = append(changed, n)
		}
		switch {
		case whole && !isNew:
			sim.Fail("row", "after an update that reported success row %s is [%s] and not [%s]", id, text(now), text(want))
		case none && !isOld:
			sim.Fail("changed", "row %s was changed from [%s] to [%s] by an update that was refused or rolled back", id, text(old), text(now))
		case !isNew && !isOld:
			sim.Fail("half-row", "row %s is neither as before, [%s], nor as updated, [%s], but [%s]", id, text(old), text(want), text(now))
		}
	}
	if !whole && !none && single {
		// one statement: all rows or none
		for _, id := range ids {
			s := fmt.Sprint(id)
			old, ok := was[s]
			if !ok || len(changed) == 0 {
				continue
			}
			want := map[string]val{}
			for k, v := range old {
				want[k] = v
			}
			for k, v := range set[id] {
				want[k] = mustCanon(v)
			}
			if !sameRow(rows[s], want) {
				sim.Fail("half-update", "a failed update changed %d rows but not row %s", len(changed), s)
			}
		}
	}
	for _, id := range sim.Keys(rows) {
		if _, ok := was[id]; !ok {
			sim.Fail("extra-row", "an update created row %s", id)
		}
	}
	if whole {
		sim.Probe("updated")
		if sent > 1 {
			sim.Probe("updated in several statements")
		}
	}
	if !done {
		sim.Probe("process crash in an update")
	}
	if len(arg) != len(set) {
		sim.Fail("argument", "the update changed the caller's set")
	}
	for id, m := range set {
		if fmt.Sprint(arg[id]) != fmt.Sprint(m) {
			sim.Fail("argument", "the update changed the caller's set")
		}
	}
}

// GenUpdate makes a workload.
func GenUpdate(g *run.G, c *sim.Config) []Up {
	g.Schedule(c)
	g.Faults(c, 0.5, 3, run.Pick(g, "exec,exec-lost,begin,commit", "exec", "exec-lost"))
	if g.P(0.15) {
		c.CrashP = run.Pick(g, 0.0005, 0.002, 0.01)
	}
	one := func(t int) Up {
		o := Up{T: t, K: run.Pick(g, "split", "batch"), N: g.Range(1, 8), W: g.Range(1, 4), Gap: g.Intn(3), Seed: g.U64(), Rows: g.Range(4, 20)}
		if g.P(0.03) {
			o.N = 0
		}
		if g.P(0.35) {
			o.Mixed, o.At = run.Pick(g, "more", "less", "other", "none"), g.Intn(8)
			if g.P(0.6) {
				o.N = g.Range(2, 4)
			}
		}
		if g.P(0.4) {
			o.Tx = 1
		}
		if g.P(0.2) {
			o.Wait = run.Pick(g, int64(100), 5000, 1e6)
		}
		return o
	}
	if g.P(0.02) {
		c.Strategy, c.SwitchP, c.MaxSteps, c.MemP = "random", 0, 100000000, 0
		c.CrashP /= 100
		if c.FaultP > 0 {
			c.FaultP = 0.3
		}
		o := one(1)
		o.K, o.W = run.Pick(g, "split", "split", "batch"), g.Range(1, 2)
		o.N = run.Pick(g, 499, 500, 501, 502, 999, 1000, 1001, 1250)
		o.Gap, o.Rows = g.Intn(2), o.N+g.Intn(200)
		if g.P(0.02) {
			// more values than one statement takes
			o.K, o.W, o.N, c.MaxSteps, c.MaxFault = "split", g.Range(4, upCols), run.Pick(g, 5100, 7300, 8001), 400000000, 1
			o.Rows = o.N
		}
		if o.Mixed != "" {
			o.At = g.Intn(o.N)
		}
		return []Up{o}
	}
	var ops []Up
	for t := g.Range(1, 3); t > 0; t-- {
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, one(t))
		}
	}
	return ops
}
