package dbs

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"time"

	"dst/run"
	"dst/sim"
	"dst/x/xcontext"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"gorm.io/plugin/soft_delete"
)

// Hc is one call of a helper through a session's handle.
type Hc struct {
	K    string   `json:"k"` // struct, structs, map, batch, split, id, ids, where, del, soft, upd, updsplit
	IDs  []int64  `json:"ids,omitempty"`
	N    int      `json:"n,omitempty"`
	Set  []string `json:"set,omitempty"`
	Seed uint64   `json:"seed,omitempty"`
	Wait int64    `json:"wait,omitempty"`
}

// Hs is one session: a handle and the calls made through it.
type Hs struct {
	T      int    `json:"t"` // client; -1: setup
	H      string `json:"h"` // rows (setup); plain, ctx, shared, tx, scope, skip, size, failed
	Calls  []Hc   `json:"calls,omitempty"`
	Ctx    bool   `json:"ctx,omitempty"`    // tx, scope, skip, size: under a context as well
	Cancel int64  `json:"cancel,omitempty"` // ns after the handle is made; -1: at once; 0: never
	Limit  bool   `json:"limit,omitempty"`  // cancelled by a deadline
	Commit bool   `json:"commit,omitempty"`
	Stop   bool   `json:"stop,omitempty"` // tx: roll back at the first error
	Lat    int64  `json:"lat,omitempty"`  // ns a statement takes
	Seed   uint64 `json:"seed,omitempty"`
}

type handleRun struct {
	e      *Engine
	t      *table
	wide   *table
	db     *gorm.DB
	shared *gorm.DB
	shCtx  context.Context
	uniq   int
	have   map[int64]bool
}

type marker struct{ name string }

// Handles runs a workload.
func Handles(ss []Hs) {
	t := &table{name: "items", cols: itemCols, next: 5000000}
	w := &table{name: "wide", cols: columns(maxCols), next: 5000000}
	e := NewEngine(t, w)
	e.Lat = map[*sim.Task]int64{}
	x := &handleRun{e: e, t: t, wide: w, db: e.Gorm(), have: map[int64]bool{}}
	horizon := int64(0)
	by := map[int][]Hs{}
	var cancel func()
	for _, s := range ss {
		for _, c := range s.Calls {
			horizon += c.Wait + 40*s.Lat
		}
		switch {
		case s.T >= 0:
			by[s.T] = append(by[s.T], s)
		case s.H == "shared":
			ctx := context.Context(context.WithValue(context.Background(), Token{}, &marker{"shared"}))
			x.shCtx, cancel = x.limit(ctx, s)
			horizon += s.Cancel
		default:
			r := sim.NewRng(s.Seed)
			for _, c := range s.Calls {
				for _, k := range c.IDs {
					x.put(int64(c.N)*1000+k, int64(c.N), &r)
				}
			}
		}
	}
	if x.shCtx == nil {
		x.shCtx = context.WithValue(context.Background(), Token{}, &marker{"shared"})
	}
	x.shared = x.db.WithContext(x.shCtx)
	was := x.mine(9)
	var ts []*sim.Task
	for c := 0; c < 8; c++ {
		if list := by[c]; list != nil {
			ts = append(ts, sim.GoNamed(fmt.Sprint("client", c), func() {
				for _, s := range list {
					x.session(s, int64(c))
				}
			}))
		}
	}
	finish("a database helper", horizon, ts...)
	if cancel != nil {
		cancel()
	}
	x.unchanged(was, x.mine(9), "rows of a client that did nothing")
	if len(e.open) > 0 {
		sim.Fail("open", "%d transactions are open after every client is done", len(e.open))
	}
}

func (x *handleRun) put(id, owner int64, r *sim.Rng) {
	if x.have[id] {
		return
	}
	x.have[id] = true
	x.e.serial++
	x.t.rows = append(x.t.rows, &row{x.e.serial, map[string]val{"id": mustCanon(id), "created_at": mustCanon(int64(1000)), "updated_at": mustCanon(int64(1001)),
		"deleted_at": mustCanon(int64(0)), "owner": mustCanon(owner), "name": mustCanon(fmt.Sprint("n", r.Intn(3))), "grp": mustCanon(int64(r.Intn(3))), "qty": mustCanon(int64(r.Intn(5)))}})
}

// limit makes the session's context.
func (x *handleRun) limit(p context.Context, s Hs) (context.Context, func()) {
	switch {
	case s.Cancel == 0:
		return p, func() {}
	case s.Limit:
		return xcontext.WithTimeout(p, time.Duration(max(s.Cancel, 0)))
	}
	ctx, cancel := xcontext.WithCancel(p)
	if s.Cancel < 0 {
		cancel()
	} else {
		sim.GoNamed("cancel", func() {
			sim.Sleep(s.Cancel)
			cancel()
		})
	}
	return ctx, cancel
}

func (x *handleRun) mine(c int64) map[string]map[string]val {
	_, rows := x.t.snap()
	out := map[string]map[string]val{}
	for id, r := range rows {
		if r["owner"].s == fmt.Sprint(c) {
			out[id] = r
		}
	}
	return out
}

func (x *handleRun) unchanged(was, now map[string]map[string]val, what string) {
	if d := diff(now, was); d != "" {
		sim.Fail("changed", "%s: %s", what, d)
	}
}

type scope struct {
	col  string
	vals []any
	sql  string
	args []any
}

func (s *scope) ok(w map[string]val) bool {
	if s == nil {
		return true
	}
	for _, v := range s.vals {
		if mustCanon(v) == w[s.col] {
			return true
		}
	}
	return false
}

func (x *handleRun) session(s Hs, c int64) {
	e := x.e
	r := sim.NewRng(s.Seed)
	var mark any
	var ctx context.Context
	cancel := func() {}
	db := x.db
	if s.H == "ctx" || s.Ctx {
		m := &marker{fmt.Sprint("client", c)}
		mark = m
		ctx, cancel = x.limit(context.WithValue(context.Background(), Token{}, m), s)
		db = db.WithContext(ctx)
	}
	defer func() { cancel() }()
	var sc *scope
	var handle *tx
	failed := error(nil)
	rows0, wide0 := x.mine(c), len(x.wide.rows)
	e.Lat[sim.Cur()] = s.Lat
	cut := func() bool { return ctx != nil && ctx.Err() != nil }
	switch s.H {
	case "shared":
		db, ctx = x.shared, x.shCtx
		mark = ctx.Value(Token{})
	case "tx":
		n := len(e.Begun)
		early := cut()
		db = db.Begin()
		if db.Error != nil {
			if early {
				sim.Probe("begin under a cancelled context")
			}
			return
		}
		for _, t := range e.Begun[n:] {
			if t.task == sim.Cur() {
				handle = t
			}
		}
		if handle == nil {
			sim.Fail("harness", "the transaction has begun and is not known")
		}
	case "scope":
		switch r.Intn(4) {
		case 0:
			v := int64(r.Intn(5))
			sc = &scope{col: "qty", vals: []any{v}, sql: "qty = ?", args: []any{v}}
		case 1:
			sc = &scope{col: "name", vals: []any{"n0", "n2"}, sql: "name in (?)", args: []any{[]string{"n0", "n2"}}}
		case 2:
			sc = &scope{col: "grp", vals: []any{0, 1}, sql: "grp < ?", args: []any{2}}
		default:
			sc = &scope{col: "name", vals: []any{"n1"}, sql: "name = ?", args: []any{"n1"}}
		}
		db = db.Where(sc.sql, sc.args...).Session(&gorm.Session{})
	case "skip":
		db = db.Session(&gorm.Session{SkipDefaultTransaction: true})
	case "size":
		db = db.Session(&gorm.Session{CreateBatchSize: 2})
	case "failed":
		failed = errors.New("the handle has failed before")
		db = db.Session(&gorm.Session{})
		db.AddError(failed)
	}
	for _, k := range s.Calls {
		if k.Wait > 0 {
			sim.Sleep(k.Wait)
		}
		err := x.call(s, k, c, db, handle, sc, mark, cut, failed)
		if err != nil && handle != nil && s.Stop {
			break
		}
	}
	if handle == nil {
		return
	}
	if handle.done && !(ctx != nil && ctx.Err() != nil) {
		sim.Fail("handle", "a helper has ended the transaction it was given")
	}
	if s.Commit {
		err := db.Commit().Error
		switch {
		case err == nil:
			sim.Probe("transaction committed")
			return
		case db.Error == nil:
			sim.Fail("harness", "commit")
		}
		x.unchanged(rows0, x.mine(c), "after a transaction that did not commit")
		if !handle.done {
			db.Rollback()
		}
	} else {
		db.Rollback()
	}
	if !handle.done {
		// gorm does not roll a transaction back whose handle carries an error
		(&txConn{handle}).Rollback()
	}
	x.unchanged(rows0, x.mine(c), "after a rollback of the transaction the helpers were called in")
	if s.anyWide() && len(x.wide.rows) != wide0 && x.wideOnly(c) {
		sim.Fail("changed", "after a rollback the wide table has %d rows and not %d", len(x.wide.rows), wide0)
	}
	sim.Probe("transaction rolled back")
}

func (s Hs) anyWide() bool {
	for _, c := range s.Calls {
		if c.K == "split" && c.N > 50 {
			return true
		}
	}
	return false
}

// wideOnly: no other client writes to the wide table (big workloads have one
// client).
func (x *handleRun) wideOnly(int64) bool { return true }

func (x *handleRun) call(s Hs, o Hc, c int64, db *gorm.DB, handle *tx, sc *scope, mark any, cut func() bool, failed error) error {
	e := x.e
	r := sim.NewRng(o.Seed)
	base := c * 1000
	var ids []int64
	for _, k := range o.IDs {
		ids = append(ids, base+k)
	}
	was := x.mine(c)
	want := copyRows(was)
	upd := map[string]any{}
	for _, k := range o.Set {
		switch k {
		case "name":
			upd[k] = fmt.Sprint("n", r.Intn(3))
		case "grp":
			upd[k] = sim.Pick[any](&r, int64(1), 2, 0)
		default:
			upd[k] = int64(r.Intn(6))
		}
	}
	var args []any // what the caller gives, and must find unchanged
	give := func() map[string]any {
		m := map[string]any{}
		for k, v := range upd {
			m[k] = v
		}
		args = append(args, m)
		return m
	}
	set := func(id int64) {
		if w, ok := want[fmt.Sprint(id)]; ok && sc.ok(was[fmt.Sprint(id)]) {
			for k, v := range upd {
				w[k] = mustCanon(v)
			}
		}
	}
	dup, raw, multi, empty := false, false, false, false
	free := map[string]bool{} // rows whose times are any
	item := func() Item {
		x.uniq++
		g := int64(r.Intn(3))
		it := Item{Owner: c, Name: fmt.Sprint("n", r.Intn(3)), Qty: int64(r.Intn(5)), Grp: &g}
		it.Id = base + 300 + int64(x.uniq%600)
		it.CreatedAt, it.UpdatedAt, it.DeletedAt = 5, 6, soft_delete.DeletedAt(0)
		id := fmt.Sprint(it.Id)
		if _, ok := want[id]; ok {
			dup = true
		} else {
			want[id] = map[string]val{"id": mustCanon(it.Id), "owner": mustCanon(c), "name": mustCanon(it.Name), "qty": mustCanon(it.Qty), "grp": mustCanon(it.Grp),
				"created_at": mustCanon(5), "updated_at": mustCanon(6), "deleted_at": mustCanon(0)}
		}
		return it
	}
	asMap := func(it Item) map[string]any {
		return map[string]any{"id": it.Id, "owner": it.Owner, "name": it.Name, "qty": it.Qty, "grp": *it.Grp, "created_at": 5, "updated_at": 6, "deleted_at": 0}
	}
	var fn func() error
	nWide := 0
	switch o.K {
	case "struct":
		it := item()
		fn = func() error { return gorm_tools.InsertToTable("items", &it, db) }
	case "structs":
		var l []Item
		for i := 0; i < max(o.N, 1); i++ {
			l = append(l, item())
		}
		fn = func() error { return gorm_tools.InsertToTable("items", &l, db) }
	case "map":
		m := asMap(item())
		fn = func() error { return gorm_tools.InsertToTable("items", m, db) }
	case "batch", "split":
		raw = true
		table := "items"
		var l []any
		if o.N > 50 {
			table, multi, nWide = "wide", true, o.N
			for i := 0; i < o.N; i++ {
				m := map[string]any{"id": c*100000 + int64(x.uniq)}
				x.uniq++
				for j := 0; j < maxCols; j++ {
					m["c"+strconv.Itoa(j)] = 1
				}
				l = append(l, m)
			}
		} else {
			for i := 0; i < max(o.N, 1); i++ {
				m := asMap(item())
				l, args = append(l, m), append(args, m)
			}
		}
		args = append(args, l)
		fn = func() error {
			if o.K == "batch" {
				return gorm_tools.BatchInsertTableRecords(db, table, l...)
			}
			return gorm_tools.SplitInsertTableRecords(db, table, l...)
		}
	case "id":
		set(ids[0])
		m := give()
		fn = func() error { return gorm_tools.UpdateByTableNameAndId("items", ids[0], m, db) }
	case "ids":
		for _, id := range ids {
			set(id)
		}
		m := give()
		fn = func() error { return gorm_tools.UpdateByTableNameAndIds("items", ids, m, db) }
	case "where":
		n := fmt.Sprint("n", r.Intn(3))
		for id, w := range was {
			if w["name"].s == n {
				k, _ := strconv.ParseInt(id, 10, 64)
				set(k)
			}
		}
		cond, m := map[string]any{"owner": c, "name": n}, give()
		args = append(args, cond)
		fn = func() error {
			return gorm_tools.UpdateByTableNameAndWhere("items", cond, m, db)
		}
	case "del":
		for _, id := range ids {
			if sc.ok(was[fmt.Sprint(id)]) {
				delete(want, fmt.Sprint(id))
			}
		}
		fn = func() error { return gorm_tools.DelByTableNameAndId("items", ids, db) }
	case "soft":
		if id := fmt.Sprint(ids[0]); want[id] != nil && sc.ok(was[id]) {
			free[id] = true
		}
		fn = func() error { return gorm_tools.SoftDelByTableNameAndId("items", ids[0], db) }
	case "upd", "updsplit":
		raw = true
		m := map[int64]map[string]any{}
		for _, id := range ids {
			m[id] = give()
			set(id)
		}
		if o.N > 500 {
			multi = true
			for i := 0; i < o.N; i++ {
				m[base+100000+int64(i)] = give()
			}
		}
		empty = len(m) == 0
		fn = func() error {
			if o.K == "upd" {
				return gorm_tools.BatchUpdateTableFieldWithoutVersionByID(db, "items", m)
			}
			return gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db, "items", m)
		}
	default:
		return nil
	}
	l0, f0, b0, w0 := len(e.Log), len(e.Fails), len(e.Begun), len(x.wide.rows)
	if nWide == 0 {
		args = append(args, ids)
	} else {
		args = nil
	}
	had := fmt.Sprint(args...)
	early := cut()
	err := fn()
	if now := fmt.Sprint(args...); now != had {
		sim.Fail("argument", "%s changed what its caller gave: %s instead of %s", o.K, brief(now, 200), brief(had, 200))
	}
	me := sim.Cur()
	sim.Tracef("%s through %s: %s", o.K, s.H, errText(err))
	late := cut()
	var bad *Stmt
	sent := 0
	var own []*tx
	for _, t := range e.Begun[b0:] {
		if t.task == me {
			own = append(own, t)
			if token(t.ctx) != mark {
				sim.Fail("context", "%s begins a transaction that is not under the context of the handle", o.K)
			}
		}
	}
	for _, t := range e.open {
		if t.task == me && t != handle {
			sim.Fail("open", "%s has returned (%s) and a transaction it began is still open", o.K, errText(err))
		}
	}
	if len(own) > 0 && handle != nil {
		sim.Fail("outside", "%s begins a transaction of its own although it was called in one", o.K)
	}
	if len(own) > 0 && s.H == "skip" {
		sim.Fail("session", "%s begins a transaction although the handle asks for none", o.K)
	}
	for _, st := range e.Log[l0:] {
		if st.Task != me {
			continue
		}
		if bad != nil {
			sim.Fail("after-failure", "%s sends another statement after one has failed (%v)", o.K, bad.Err)
		}
		sent++
		if st.Err != nil {
			bad = st
		}
		if st.Token != mark {
			sim.Fail("context", "%s runs a statement that is not under the context of the handle: %s", o.K, brief(st.SQL, 100))
		}
		if handle != nil && st.Tx != handle {
			sim.Fail("outside", "%s was called in a transaction and runs a statement outside it: %s", o.K, brief(st.SQL, 100))
		}
		if failed != nil {
			sim.Fail("failed-handle", "%s runs a statement through a handle that has failed: %s", o.K, brief(st.SQL, 100))
		}
	}
	hit := e.hit(f0)
	now := x.mine(c)
	for id := range free {
		if g := now[id]; g != nil && err == nil {
			for _, k := range []string{"updated_at", "deleted_at"} {
				if n, e := strconv.ParseInt(g[k].s, 10, 64); e != nil || n < 10000 {
					sim.Fail("effect", "%s through a handle of kind %s: row %s has %s %s", o.K, s.H, id, k, g[k])
				}
				want[id][k] = g[k]
			}
		}
	}
	grown := len(x.wide.rows) - w0
	if err == nil {
		switch {
		case early && sent == 0 && (empty || len(ids) == 0 && o.K == "ids"):
			return nil
		case early:
			sim.Fail("cancelled", "%s succeeds under a context that was cancelled before", o.K)
		case failed != nil:
			sim.Fail("failed-handle", "%s succeeds through a handle that has failed before", o.K)
		case bad != nil:
			sim.Fail("failure-hidden", "%s reports success although a statement failed: %v", o.K, bad.Err)
		case hit > 0:
			sim.Fail("failure-hidden", "%s reports success although there was a fault: %s", o.K, e.Fails[len(e.Fails)-1].What)
		case dup:
			sim.Fail("failure-hidden", "%s reports success although a key was there already", o.K)
		}
		if d := diff(now, want); d != "" {
			sim.Fail("effect", "%s of %v through a handle of kind %s: %s", o.K, ids, s.H, d)
		}
		if nWide != grown && nWide > 0 {
			sim.Fail("effect", "%s of %d records reports success and %d were inserted", o.K, nWide, grown)
		}
		sim.Probe(o.K + " through " + s.H)
		if multi && sent > 1 {
			sim.Probe(o.K + " in several statements")
		}
		return nil
	}
	if hit == 0 && bad == nil && !early && !late && failed == nil && !dup {
		sim.Fail("refused", "%s through a handle of kind %s reports an error although nothing failed: %v", o.K, s.H, err)
	}
	lost := false
	for _, f := range e.Fails[f0:] {
		lost = lost || f.Task == me && f.What == "exec-lost"
	}
	d := diff(now, was)
	switch {
	case early || failed != nil:
		if d != "" || grown > 0 && nWide > 0 {
			sim.Fail("changed", "%s fails at once (%v) and changes rows all the same: %s", o.K, err, d)
		}
		if early {
			sim.Probe("refused under a cancelled context")
		} else {
			sim.Probe("refused through a failed handle")
		}
	case multi:
		// whole statements only; the chunks are C26's and C27's
		if late && bad != nil && bad.Fault == "" {
			sim.Probe("cancelled between statements")
		}
	case (raw || handle != nil || s.H == "skip") && lost:
		if d2 := diff(now, want); d != "" && d2 != "" && len(free) == 0 && s.H != "size" {
			sim.Fail("half-done", "after %s failed (%v) the rows are neither as before (%s) nor as after (%s)", o.K, err, d, d2)
		}
	case handle != nil || s.H == "skip":
		// one statement, or several of a list given in parts
		if d != "" && !(s.H == "size") {
			sim.Fail("half-done", "after %s failed (%v): %s", o.K, err, d)
		}
	default:
		if d != "" {
			sim.Fail("half-done", "after %s failed (%v): %s", o.K, err, d)
		}
		if late && bad != nil && bad.Fault == "" {
			sim.Probe("cancelled during the call")
		} else {
			sim.Probe("failure reported")
		}
	}
	return err
}

// GenHandles makes a workload.
func GenHandles(g *run.G, c *sim.Config) []Hs {
	g.Schedule(c)
	g.Faults(c, 0.4, 3, run.Pick(g, "exec,exec-lost,begin,commit", "exec", "exec-lost", "begin", "commit"))
	g.Stalls(c, 0.2, 1e6, 900e6)
	g.Leaps(c, 0.1, 900e6, 5e9)
	ids := func(n int) (l []int64) {
		for ; n > 0; n-- {
			l = append(l, int64(g.Range(1, 8)))
		}
		return
	}
	setup := Hs{T: -1, H: "rows", Seed: g.U64()}
	for _, k := range []int{1, 2, 9} {
		setup.Calls = append(setup.Calls, Hc{IDs: ids(g.Range(2, 8)), N: k})
	}
	out := []Hs{setup}
	if g.P(0.3) {
		out = append(out, Hs{T: -1, H: "shared", Cancel: run.Pick(g, int64(-1), 20000, 200000, 2000000), Limit: g.P(0.4)})
	}
	call := func(h string) Hc {
		o := Hc{K: run.Pick(g, "struct", "structs", "map", "batch", "split", "id", "ids", "where", "del", "soft", "upd", "updsplit"), Seed: g.U64(), N: g.Range(1, 5)}
		if h == "scope" {
			o.K = run.Pick(g, "id", "ids", "where", "del", "soft", "struct", "structs")
		}
		if h == "size" {
			o.K = run.Pick(g, "structs", "structs", "struct", "ids")
		}
		o.IDs = ids(g.Range(1, 4))
		if o.K == "ids" && g.P(0.1) {
			o.IDs = nil
		}
		for _, k := range []string{"name", "grp", "qty"} {
			if g.P(0.5) {
				o.Set = append(o.Set, k)
			}
		}
		if len(o.Set) == 0 {
			o.Set = []string{"qty"}
		}
		if g.P(0.2) {
			o.Wait = run.Pick(g, int64(100), 5000, 1e6)
		}
		return o
	}
	session := func(t int) Hs {
		s := Hs{T: t, H: run.Pick(g, "plain", "ctx", "ctx", "shared", "tx", "tx", "tx", "scope", "scope", "skip", "size", "failed"), Seed: g.U64(), Commit: g.P(0.5), Stop: g.P(0.7)}
		s.Ctx = g.P(0.4) && s.H != "plain" && s.H != "shared"
		if s.Ctx || s.H == "ctx" {
			s.Cancel, s.Limit = run.Pick(g, int64(0), 0, -1, 3000, 20000, 200000, 1000000), g.P(0.4)
		}
		if g.P(0.4) {
			s.Lat = run.Pick(g, int64(1000), 30000, 300000)
		}
		for n := g.Range(1, 3); n > 0; n-- {
			s.Calls = append(s.Calls, call(s.H))
		}
		return s
	}
	if g.P(0.006) {
		c.Strategy, c.SwitchP, c.MaxSteps, c.MemP = "random", 0, 100000000, 0
		if c.FaultP > 0 {
			c.FaultP = 0.3
		}
		s := session(1)
		for s.H == "scope" || s.H == "size" {
			s = session(1)
		}
		if g.P(0.5) {
			s.Calls = []Hc{{K: "split", N: run.Pick(g, 929, 930, 1400, 1900), Seed: g.U64()}}
		} else {
			s.Calls = []Hc{{K: "updsplit", IDs: ids(3), N: run.Pick(g, 501, 997, 1001), Set: []string{"qty"}, Seed: g.U64()}}
		}
		if s.Cancel > 0 {
			s.Lat = 50000
			s.Cancel = run.Pick(g, int64(20000), 70000, 120000)
		}
		return append(out, s)
	}
	for t := g.Range(1, 2); t > 0; t-- {
		for k := g.Range(1, 3); k > 0; k-- {
			out = append(out, session(t))
		}
	}
	return out
}
