package dbs

import (
	"fmt"
	"sort"
	"strconv"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"gorm.io/plugin/soft_delete"
)

// Sg is one step of a workload of the single-statement helpers.
type Sg struct {
	T    int      `json:"t"`             // client; -1: setup
	K    string   `json:"k"`             // row (setup); struct, structs, map, maps, none; del, id, ids, where, soft
	C    int      `json:"c,omitempty"`   // row: whose
	IDs  []int64  `json:"ids,omitempty"` // within the client's range
	N    int      `json:"n,omitempty"`
	By   []string `json:"by,omitempty"`  // columns of the condition
	How  int      `json:"how,omitempty"` // how conditions are given
	Set  []string `json:"set,omitempty"` // columns to update
	Tx   int      `json:"tx,omitempty"`
	Many int      `json:"many,omitempty"` // the list of ids is this long: absent ids fill it up
	Near int      `json:"near,omitempty"` // where in the long list the ids are: around multiples of this
	Seed uint64   `json:"seed,omitempty"`
	Wait int64    `json:"wait,omitempty"`
}

// long is a list of the given length with the ids around the multiples of near.
func long(r *sim.Rng, ids []int64, n, near int) []int64 {
	out := make([]int64, n)
	for i := range out {
		out[i] = 10000000 + int64(i)
	}
	for _, id := range ids {
		at := (1+r.Intn(n/near+1))*near + r.Intn(3) - 1
		if r.Intn(8) == 0 || at >= n {
			at = sim.Pick(r, 0, n-1, n-2)
		}
		if out[at] < 10000000 {
			at = r.Intn(n)
		}
		out[at] = id
	}
	return out
}

// Item is a record of the table.
type Item struct {
	gorm_tools.BaseModel
	Owner int64
	Name  string
	Grp   *int64
	Qty   int64
}

var itemCols = []string{"id", "created_at", "updated_at", "deleted_at", "owner", "name", "grp", "qty"}

type singleRun struct {
	e    *Engine
	t    *table
	db   *gorm.DB
	proc int
	uniq int
}

// Single runs a workload.
func Single(ops []Sg) {
	t := &table{name: "items", cols: itemCols, next: 5000000}
	e := NewEngine(t)
	x := &singleRun{e: e, t: t, db: e.Gorm()}
	horizon := int64(0)
	by := map[int][]Sg{}
	have := map[int64]bool{}
	for _, o := range ops {
		if o.K != "row" {
			by[o.T] = append(by[o.T], o)
			horizon += o.Wait
			continue
		}
		r := sim.NewRng(o.Seed)
		for _, k := range o.IDs {
			id := int64(o.C)*1000 + k
			if have[id] {
				continue
			}
			have[id] = true
			x.uniq++
			grp := any(int64(r.Intn(3)))
			if r.Intn(4) == 0 {
				grp = nil
			}
			name := fmt.Sprint("n", r.Intn(3))
			if r.Intn(6) == 0 {
				name = ""
			}
			e.serial++
			t.rows = append(t.rows, &row{e.serial, map[string]val{"id": mustCanon(id), "created_at": mustCanon(int64(1000 + r.Intn(9))), "updated_at": mustCanon(int64(1000 + r.Intn(9))),
				"deleted_at": mustCanon(int64(r.Intn(2) * 777)), "owner": mustCanon(int64(o.C)), "name": mustCanon(name), "grp": mustCanon(grp), "qty": mustCanon(int64(r.Intn(5)))}})
		}
	}
	var ts []*sim.Task
	for c := 0; c < 8; c++ {
		if list := by[c]; list != nil {
			ts = append(ts, sim.GoNamed(fmt.Sprint("client", c), func() {
				for _, o := range list {
					if o.Wait > 0 {
						sim.Sleep(o.Wait)
					}
					x.call(o, int64(c))
				}
			}))
		}
	}
	// a client that does nothing: nobody may touch its rows
	was := x.mine(9)
	finish("a database helper", horizon, ts...)
	x.unchanged(was, x.mine(9), "rows of a client that did nothing")
}

// mine is the client's rows by id.
func (x *singleRun) mine(c int64) map[string]map[string]val {
	_, rows := x.t.snap()
	out := map[string]map[string]val{}
	for id, r := range rows {
		if r["owner"].s == fmt.Sprint(c) {
			out[id] = r
		}
	}
	return out
}

func (x *singleRun) unchanged(was, now map[string]map[string]val, what string) {
	if d := diff(now, was); d != "" {
		sim.Fail("changed", "%s: %s", what, d)
	}
}

// diff says where the rows differ from the wanted ones.
func diff(got, want map[string]map[string]val) string {
	var ids []string
	for id := range want {
		ids = append(ids, id)
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		g, ok := got[id]
		w, ok2 := want[id]
		switch {
		case !ok:
			return fmt.Sprintf("row %s [%s] is not there", id, text(w))
		case !ok2:
			return fmt.Sprintf("row %s [%s] is there and should not be", id, text(g))
		case !sameRow(g, w):
			return fmt.Sprintf("row %s is [%s] and not [%s]", id, text(g), text(w))
		}
	}
	return ""
}

func copyRows(m map[string]map[string]val) map[string]map[string]val {
	out := map[string]map[string]val{}
	for id, r := range m {
		c := map[string]val{}
		for k, v := range r {
			c[k] = v
		}
		out[id] = c
	}
	return out
}

func inRanges(v val, rs [][2]int64) bool {
	var n int64
	if _, err := fmt.Sscan(v.s, &n); err != nil || v.null {
		return false
	}
	for _, r := range rs {
		if n >= r[0]/1e9 && n <= r[1]/1e9 {
			return true
		}
	}
	return false
}

func (x *singleRun) call(o Sg, c int64) {
	r := sim.NewRng(o.Seed)
	db := x.db
	base := c * 1000
	var ids []int64
	for _, k := range o.IDs {
		ids = append(ids, base+k)
	}
	if o.Many > 1 && o.Near > 0 {
		ids = long(&r, ids, o.Many, o.Near)
		sim.Probe("hundreds of ids")
	}
	was := x.mine(c)
	want := copyRows(was)
	times := map[string][]string{} // row to columns that hold the current time
	updates := map[string]any{}
	set := func(r map[string]val) {
		for k, v := range updates {
			switch v := v.(type) {
			case addTo:
				n, err := strconv.ParseInt(r[k].s, 10, 64)
				if r[k].null || err != nil {
					continue
				}
				r[k] = mustCanon(n + int64(v))
			default:
				r[k] = mustCanon(v)
			}
		}
	}
	for _, k := range o.Set {
		switch k {
		case "name":
			updates[k] = aText(&r)
		case "grp":
			updates[k] = sim.Pick[any](&r, nil, int64(1), 2, "0")
		case "qty":
			updates[k] = sim.Pick[any](&r, 0, anInt(&r), addTo(1+r.Intn(3)))
		default:
			updates[k] = int64(r.Intn(100))
		}
	}
	give := func() map[string]any {
		m := map[string]any{}
		for k, v := range updates {
			if a, ok := v.(addTo); ok {
				v = gorm.Expr(k+" + ?", int(a))
			}
			m[k] = v
		}
		return m
	}
	var fn func(db *gorm.DB) error
	var wheres map[string]any
	gives := give()
	var arg []int64
	empty := false // nothing is addressed: an error is as good as success
	dup := false
	switch o.K {
	case "struct", "structs":
		n := 1
		if o.K == "structs" {
			n = o.N
		}
		items := make([]Item, n)
		for i := range items {
			x.uniq++
			it := &items[i]
			it.Owner, it.Name, it.Qty = c, fmt.Sprint("s", x.uniq, aText(&r)), anInt(&r)
			if r.Intn(2) == 0 {
				g := int64(r.Intn(3))
				it.Grp = &g
			}
			it.Id = base + 300 + int64(x.uniq%600)
			if r.Intn(3) == 0 {
				it.CreatedAt, it.UpdatedAt, it.DeletedAt = 5, 6, soft_delete.DeletedAt(7)
			}
			w := map[string]val{"id": mustCanon(it.Id), "owner": mustCanon(c), "name": mustCanon(it.Name), "qty": mustCanon(it.Qty), "grp": mustCanon(it.Grp),
				"created_at": mustCanon(it.CreatedAt), "updated_at": mustCanon(it.UpdatedAt), "deleted_at": mustCanon(int64(it.DeletedAt))}
			id := fmt.Sprint(it.Id)
			if _, ok := want[id]; ok {
				dup = true
				continue
			}
			want[id] = w
			if it.CreatedAt == 0 {
				times[id] = []string{"created_at", "updated_at"}
			}
		}
		empty = n == 0
		fn = func(db *gorm.DB) error {
			if o.K == "struct" {
				return gorm_tools.InsertToTable("items", &items[0], db)
			}
			return gorm_tools.InsertToTable("items", &items, db)
		}
	case "map", "maps":
		n := 1
		if o.K == "maps" {
			n = o.N
		}
		var ms []map[string]any
		for i := 0; i < n; i++ {
			x.uniq++
			id := base + 300 + int64(x.uniq%600)
			m := map[string]any{"id": id, "owner": c, "name": aText(&r), "qty": anInt(&r)}
			w := map[string]val{}
			for k, v := range m {
				w[k] = mustCanon(v)
			}
			ms = append(ms, m)
			if _, ok := want[fmt.Sprint(id)]; ok {
				dup = true
				continue
			}
			want[fmt.Sprint(id)] = w
		}
		empty = n == 0
		fn = func(db *gorm.DB) error {
			if o.K == "map" {
				return gorm_tools.InsertToTable("items", ms[0], db)
			}
			return gorm_tools.InsertToTable("items", ms, db)
		}
	case "del":
		for _, id := range ids {
			delete(want, fmt.Sprint(id))
		}
		arg = append(make([]int64, 0, len(ids)+2), ids...)
		fn = func(db *gorm.DB) error { return gorm_tools.DelByTableNameAndId("items", arg, db) }
	case "id":
		if len(ids) == 0 {
			return
		}
		if w, ok := want[fmt.Sprint(ids[0])]; ok {
			set(w)
		}
		fn = func(db *gorm.DB) error { return gorm_tools.UpdateByTableNameAndId("items", ids[0], gives, db) }
	case "ids":
		done := map[int64]bool{}
		for _, id := range ids {
			if w, ok := want[fmt.Sprint(id)]; ok && !done[id] {
				done[id] = true
				set(w)
			}
		}
		arg = append(make([]int64, 0, len(ids)+2), ids...)
		fn = func(db *gorm.DB) error { return gorm_tools.UpdateByTableNameAndIds("items", arg, gives, db) }
	case "where":
		where := map[string]any{}
		wheres = where
		conds := map[string][]val{}
		for _, k := range o.By {
			var v any
			switch k {
			case "owner":
				v = c
			case "name":
				v = sim.Pick[any](&r, "n0", "n1", "", []string{"n0", "n2"}, []string{"", "n1"}, []string{}, "it's")
			case "grp":
				v = sim.Pick[any](&r, int64(0), 1, nil, []int64{0, 1}, []int64{})
			case "qty":
				v = sim.Pick[any](&r, 0, 1, []int{1, 2, 3}, "2", []int{}, []int64{2})
			case "id":
				v = sim.Pick[any](&r, ids, ids)
			}
			where[k] = v
			conds[k] = nil
			switch v := v.(type) {
			case []string:
				for _, y := range v {
					conds[k] = append(conds[k], mustCanon(y))
				}
			case []int64:
				for _, y := range v {
					conds[k] = append(conds[k], mustCanon(y))
				}
			case []int:
				for _, y := range v {
					conds[k] = append(conds[k], mustCanon(y))
				}
			default:
				conds[k] = []val{mustCanon(v)}
			}
		}
		if len(where) == 0 {
			empty = true
			if o.How == 1 {
				where = nil
			}
		} else {
			for _, w := range want {
				ok := true
				for k, vs := range conds {
					in := false
					for _, v := range vs {
						in = in || v == w[k]
					}
					ok = ok && in
				}
				if ok {
					set(w)
				}
			}
		}
		fn = func(db *gorm.DB) error { return gorm_tools.UpdateByTableNameAndWhere("items", where, gives, db) }
	case "soft":
		if len(ids) == 0 {
			return
		}
		id := fmt.Sprint(ids[0])
		if _, ok := want[id]; ok {
			times[id] = []string{"deleted_at", "updated_at"}
		}
		fn = func(db *gorm.DB) error { return gorm_tools.SoftDelByTableNameAndId("items", ids[0], db) }
	default:
		return
	}
	args := fmt.Sprint(wheres, wheres == nil, len(gives), gives, arg)
	l0, f0 := len(x.e.Log), len(x.e.Fails)
	x.proc++
	var err, outer error
	done, committed, began, rolled := false, false, true, false
	from := sim.Now()
	tk := sim.GoProc(x.proc, o.K, func() {
		if o.Tx == 0 {
			err = fn(db)
		} else {
			tx := db.Begin()
			if tx.Error != nil {
				began = false
			} else if err = fn(tx); err != nil || o.Tx == 2 {
				rolled = true
				tx.Rollback()
			} else {
				outer = tx.Commit().Error
				committed = outer == nil
			}
		}
		done = true
	})
	finish("a database helper", 0, tk)
	if a := fmt.Sprint(wheres, wheres == nil, len(gives), gives, arg); a != args {
		sim.Fail("argument", "%s changed what its caller gave it from %s to %s", o.K, args, a)
	}
	rs := sim.WallRanges(from, sim.Now())
	sim.Tracef("%s: done %v, %s, committed %v", o.K, done, errText(err), committed)
	now := x.mine(c)
	if !began {
		x.unchanged(was, now, "rows of a client whose transaction did not begin")
		return
	}
	nfail := x.e.hitBy(tk, f0)
	// times first: any moment of the call will do
	isNew := func() string {
		w := copyRows(want)
		for _, id := range sim.Keys(times) {
			cols := times[id]
			g, ok := now[id]
			if !ok {
				continue
			}
			for _, k := range cols {
				if !inRanges(g[k], rs) {
					return fmt.Sprintf("row %s has %s %s, which is no moment of the call (%v)", id, k, g[k], rs)
				}
				w[id][k] = g[k]
			}
		}
		return diff(now, w)
	}
	accepted := 0
	var bad *Stmt
	for _, s := range x.e.Log[l0:] {
		if s.Task == tk {
			if s.Err == nil && s.Fault == "" {
				accepted++
			} else {
				bad = s
			}
		}
	}
	_ = accepted
	nocommit := done && outer != nil
	switch {
	case !done:
		sim.Probe("process crash in a helper")
		if d := diff(now, was); d != "" {
			if d2 := isNew(); d2 != "" {
				sim.Fail("half-done", "after a crash in %s the rows are neither as before (%s) nor as after (%s)", o.K, d, d2)
			}
		}
	case rolled:
		x.unchanged(was, now, "after "+o.K+" and a rollback")
		if err == nil && (bad != nil || dup) {
			sim.Fail("failure-hidden", "%s reports success although its statement failed", o.K)
		}
		if err != nil && nfail == 0 && bad == nil && !empty && !dup && len(updates) > 0 {
			sim.Fail("refused", "%s in a transaction reports an error although nothing failed: %v", o.K, err)
		}
		if err == nil {
			sim.Probe(o.K + " rolled back")
		}
	case err == nil && nocommit:
	case err == nil:
		if bad != nil || nfail > 0 || dup {
			what := "a duplicate key"
			if bad != nil {
				what = fmt.Sprint(bad.Err)
			} else if nfail > 0 {
				what = x.e.Fails[len(x.e.Fails)-1].What
			}
			sim.Fail("failure-hidden", "%s reports success although a statement failed: %s", o.K, what)
		}
		if d := isNew(); d != "" {
			sim.Fail("effect", "%s of %v by %v: %s", o.K, o.IDs, o.By, d)
		}
		if len(want) != len(was) || diff(was, want) != "" || len(times) > 0 {
			sim.Probe(o.K + " done")
			if o.Tx != 0 {
				sim.Probe(o.K + " done in a transaction")
			}
		} else {
			sim.Probe(o.K + " addressed no row")
		}
	default:
		if nfail == 0 && bad == nil && !empty && !dup && len(updates) > 0 {
			sim.Fail("refused", "%s reports an error although nothing failed: %v", o.K, err)
		}
		if d := diff(now, was); d != "" {
			if d2 := isNew(); d2 != "" || nfail == 0 {
				sim.Fail("half-done", "after %s failed (%v) the rows are neither as before (%s) nor as after (%s)", o.K, err, d, d2)
			}
		}
		sim.Probe("failure reported")
	}
}

type addTo int

// GenSingle makes a workload.
func GenSingle(g *run.G, c *sim.Config) []Sg {
	g.Schedule(c)
	g.Faults(c, 0.5, 3, run.Pick(g, "exec,exec-lost,begin,commit,commit-lost", "exec", "exec-lost", "begin", "commit", "commit-lost"))
	if g.P(0.15) {
		c.CrashP = run.Pick(g, 0.002, 0.01, 0.05)
	}
	g.Stalls(c, 0.2, 1e6, 900e6, 1100e6)
	g.Leaps(c, 0.15, 900e6, 1100e6, 5e9)
	g.WallSteps(c, 0.15, -3600e9, 3600e9, -1e9, 1e9, 2500e6)
	idList := func(n int) (l []int64) {
		for ; n > 0; n-- {
			l = append(l, int64(g.Range(1, 8)))
		}
		return
	}
	var ops []Sg
	for _, k := range []int{1, 2, 9} {
		if g.P(0.9) {
			ops = append(ops, Sg{T: -1, K: "row", C: k, IDs: idList(g.Range(1, 7)), Seed: g.U64()})
		}
	}
	clients := g.Range(1, 2)
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 5); k > 0; k-- {
			o := Sg{T: t, K: run.Pick(g, "struct", "structs", "map", "maps", "del", "id", "ids", "ids", "where", "where", "soft", "soft"), Seed: g.U64(), N: g.Range(1, 4)}
			if g.P(0.08) {
				o.N = 0
			}
			switch o.K {
			case "del", "ids":
				o.IDs = idList(g.Range(1, 4))
				if g.P(0.2) {
					o.IDs = nil
				}
			case "id", "soft":
				o.IDs = idList(1)
			case "where":
				o.By = []string{"owner"}
				for _, k := range []string{"name", "grp", "qty", "id"} {
					if g.P(0.35) {
						o.By = append(o.By, k)
					}
				}
				o.IDs = idList(g.Range(1, 4))
				if g.P(0.1) {
					o.IDs = nil
				}
				if g.P(0.2) {
					o.By, o.How = nil, g.Intn(2)
				}
			}
			if len(o.IDs) > 0 && (o.K == "del" || o.K == "ids") && g.P(0.1) {
				o.Near = run.Pick(g, 100, 128, 200, 256, 500, 512, 1000, 1000, 1024, 2000)
				o.Many = o.Near*g.Range(1, 3) + run.Pick(g, 2, 3, 4, o.Near/2)
				if o.Many > 4200 {
					o.Many = 2002
				}
			}
			for _, k := range []string{"name", "grp", "qty", "updated_at", "deleted_at", "created_at"} {
				if g.P(0.4) {
					o.Set = append(o.Set, k)
				}
			}
			if len(o.Set) == 0 {
				o.Set = []string{"name"}
			}
			if g.P(0.3) {
				o.Tx = g.Range(1, 2)
			}
			if g.P(0.2) {
				o.Wait = run.Pick(g, int64(100), 5000, 1e6, 999e6)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
