package dbs

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
)

// In is one step of an insert workload.
type In struct {
	T     int    `json:"t"`           // client; -1: setup
	K     string `json:"k"`           // row (setup); split, batch
	N     int    `json:"n,omitempty"` // records
	W     int    `json:"w,omitempty"` // columns
	Shape string `json:"shape,omitempty"`
	Vary  string `json:"vary,omitempty"` // "", absent, any, grow, late, late
	Bad   int    `json:"bad,omitempty"`  // 1 + index of a record that cannot be encoded
	Dup   int    `json:"dup,omitempty"`  // 1 + index of a record whose key exists already
	Tx    int    `json:"tx,omitempty"`   // 1: Begin/Commit, 2: Transaction
	Auto  int    `json:"auto,omitempty"` // 1: the table gives the ids; 2: those of some records; 3: of records that are all the same
	Seed  uint64 `json:"seed,omitempty"`
	Wait  int64  `json:"wait,omitempty"`
}

// Rec is a record given as a struct.
type Rec struct {
	ID    int64   `json:"id"`
	Name  string  `json:"c0"`
	Big   int64   `json:"c1"`
	F     float64 `json:"c2"`
	B     bool    `json:"c3"`
	P     *int64  `json:"c4"`
	Opt   string  `json:"c5,omitempty"`
	Str   int64   `json:"c6,string"`
	OptP  *string `json:"c7,omitempty"`
	Skip  string  `json:"-"`
	inner int
}

// RecAuto is a record whose id the table gives when it has none.
type RecAuto struct {
	ID int64 `json:"id,omitempty"`
	Rec
	Tag string `json:"c69"`
}

// tagCol is the column that tells records without an id apart.
const tagCol = "c69"

// key identifies a row or a record.
func key(v map[string]val) string {
	if t, ok := v[tagCol]; ok && !t.null {
		return t.s
	}
	return v["id"].s
}

const maxCols = 70

func columns(n int) []string {
	cols := []string{"id"}
	for i := 0; i < n; i++ {
		cols = append(cols, "c"+strconv.Itoa(i))
	}
	return cols
}

var texts = []string{"", "a", "it's", `say "hi"`, "?", "(?)", "x?y?", "NULL", "';drop table t;--", "ünïcode ✓", "a\\b", "two\nlines", "007", "-0", "1e3", "@name", "`q`", "<&>", " lead"}

func anInt(r *sim.Rng) int64 {
	switch r.Intn(6) {
	case 0:
		return sim.Pick(r, int64(math.MaxInt64), math.MinInt64, 1<<53+1, -(1<<53 + 1), 1<<62+3, 0, -1)
	case 1:
		return int64(r.Uint64())
	}
	return int64(r.Intn(1000))
}

func aFloat(r *sim.Rng) float64 {
	return sim.Pick(r, 0, 0.1, -2.5, 1e21, 1e-7, 3, 123456.789, math.MaxFloat64, 1.0/3)
}

func aText(r *sim.Rng) string { return texts[r.Intn(len(texts))] }

func aValue(r *sim.Rng) any {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return aFloat(r)
	case 2:
		return r.Intn(2) == 0
	case 3, 4:
		return aText(r)
	}
	return anInt(r)
}

func mustCanon(x any) val {
	v, err := canon(x)
	if err != nil {
		sim.Fail("harness", "%v", err)
	}
	return v
}

// records builds the records and what the table must hold for each.
func (o In) records(base int64, dupID int64) (recs []any, want []map[string]val) {
	r := sim.NewRng(o.Seed)
	for i := 0; i < o.N; i++ {
		id := base + int64(i)
		if o.Dup == i+1 {
			id = dupID
			if i > 0 && o.Seed%2 == 0 {
				id = base // an earlier record of the same call
			}
		}
		if o.Auto == 3 {
			r = sim.NewRng(o.Seed)
			id = base
		}
		auto := o.Auto == 1 || o.Auto == 3 || o.Auto == 2 && r.Intn(2) == 0
		tag := fmt.Sprintf("tag %d", id)
		if o.Shape != "map" {
			x := Rec{ID: id, Name: aText(&r), Big: anInt(&r), F: aFloat(&r), B: r.Intn(2) == 0, Str: anInt(&r), Skip: "never", inner: 1}
			w := map[string]val{"id": mustCanon(id), "c0": mustCanon(x.Name), "c1": mustCanon(x.Big), "c2": mustCanon(x.F), "c3": mustCanon(x.B), "c6": mustCanon(x.Str), "c4": null}
			if r.Intn(2) == 0 {
				v := anInt(&r)
				x.P = &v
				w["c4"] = mustCanon(v)
			}
			switch {
			case o.Vary == "", o.Vary == "absent" && (i == 0 || r.Intn(2) == 0), o.Vary == "any" && r.Intn(2) == 0, o.Vary == "grow" && i > 0, o.Vary == "late" && i >= o.N*2/3:
				x.Opt = "o" + aText(&r)
				w["c5"] = mustCanon(x.Opt)
				s := aText(&r)
				x.OptP = &s
				w["c7"] = mustCanon(s)
			}
			var rec, ptr any = x, &x
			if o.Auto != 0 {
				a := RecAuto{ID: id, Rec: x, Tag: tag}
				w[tagCol] = mustCanon(tag)
				if auto {
					a.ID = 0
					delete(w, "id")
				}
				rec, ptr = a, &a
			}
			if o.Shape == "ptr" {
				rec = ptr
			}
			recs = append(recs, rec)
			want = append(want, w)
			continue
		}
		m := map[string]any{"id": id}
		w := map[string]val{"id": mustCanon(id)}
		for c := 0; c < o.W; c++ {
			switch {
			case o.Vary == "absent" && i > 0 && r.Intn(3) == 0,
				o.Vary == "any" && r.Intn(2) == 0,
				o.Vary == "grow" && i == 0 && c > 0,
				o.Vary == "late" && i < o.N*2/3 && c > 0:
				continue
			}
			var v any
			if o.N*o.W > 2000 {
				v = i*o.W + c
			} else {
				v = aValue(&r)
			}
			k := "c" + strconv.Itoa(c)
			m[k] = v
			w[k] = mustCanon(v)
		}
		if o.Auto != 0 {
			m[tagCol], w[tagCol] = tag, mustCanon(tag)
			if auto {
				delete(m, "id")
				delete(w, "id")
				if r.Intn(4) == 0 {
					m["id"] = nil
				}
			}
		}
		recs = append(recs, m)
		want = append(want, w)
	}
	if o.Bad > 0 && o.Bad <= o.N {
		switch o.Seed % 3 {
		case 0:
			recs[o.Bad-1] = map[string]any{"id": base, "c0": make(chan int)}
		case 1:
			recs[o.Bad-1] = "not a record"
		default:
			recs[o.Bad-1] = map[string]any{"id": base, "c0": math.NaN()}
		}
	}
	return
}

type insertRun struct {
	e    *Engine
	t    *table
	db   *gorm.DB
	proc int
	seen map[string]int // keys that may be in the table, and how often
}

// Insert runs a workload.
func Insert(ops []In) {
	dflt := val{s: "dflt"}
	t := &table{name: "items", cols: columns(maxCols), next: 1, def: map[string]val{"c0": dflt, "c4": dflt, "c5": dflt, "c7": dflt, "c20": dflt}}
	e := NewEngine(t)
	x := &insertRun{e: e, t: t, db: e.Gorm(), seen: map[string]int{}}
	horizon := int64(0)
	var rest []In
	for _, o := range ops {
		if o.K == "row" {
			id := fmt.Sprint(len(t.rows) + 1)
			v := map[string]val{}
			for _, c := range t.cols {
				v[c] = null
			}
			v["id"], v["c0"] = val{s: id}, val{s: "before"}
			e.serial++
			t.rows = append(t.rows, &row{e.serial, v})
			x.seen[id]++
			continue
		}
		rest = append(rest, o)
		horizon += o.Wait
	}
	t.next = int64(len(t.rows)) + 1
	first, firstRows := t.snap()
	by := map[int][]In{}
	for _, o := range rest {
		by[o.T] = append(by[o.T], o)
	}
	var ts []*sim.Task
	for c := 0; c < 8; c++ {
		if list := by[c]; list != nil {
			ts = append(ts, sim.GoNamed(fmt.Sprint("client", c), func() {
				for k, o := range list {
					if o.Wait > 0 {
						sim.Sleep(o.Wait)
					}
					if o.Dup > 0 && len(first) == 0 {
						o.Dup = 0
					}
					x.call(o, int64(c+1)*1000000+int64(k)*100000)
				}
			}))
		}
	}
	finish("an insert", horizon, ts...)
	ids, rows := t.snap()
	for i, id := range first {
		if i >= len(ids) || ids[i] != id || !sameRow(rows[id], firstRows[id]) {
			sim.Fail("damage", "the rows that the table held before the inserts have changed")
		}
	}
	count := map[string]int{}
	for _, id := range ids {
		k := key(rows[id])
		if count[k]++; count[k] > x.seen[k] {
			sim.Fail("extra-row", "the table holds row %s, which nobody inserted (so often)", k)
		}
	}
}

func (x *insertRun) call(o In, base int64) {
	recs, want := o.records(base, 1)
	mine := map[string]int{}
	for i, w := range want {
		if id := key(w); !(o.Dup == i+1) {
			mine[id] = i
			x.seen[id]++
		}
	}
	args := append([]any(nil), recs...)
	var before []string
	if o.N < 200 {
		for _, r := range recs {
			b, _ := json.Marshal(r)
			before = append(before, string(b))
		}
	}
	l0, f0 := len(x.e.Log), len(x.e.Fails)
	x.proc++
	var err, outer error
	done, committed, began, rolled := false, false, true, false
	t := sim.GoProc(x.proc, fmt.Sprintf("%s of %d", o.K, o.N), func() {
		fn := gorm_tools.SplitInsertTableRecords
		if o.K == "batch" {
			fn = gorm_tools.BatchInsertTableRecords
		}
		switch o.Tx {
		case 0:
			err = fn(x.db, "items", args...)
		case 1:
			tx := x.db.Begin()
			if tx.Error != nil {
				began = false
				break
			}
			if err = fn(tx, "items", args...); err != nil {
				rolled = true
				tx.Rollback()
			} else {
				outer = tx.Commit().Error
				committed = outer == nil
			}
		case 2:
			began = false
			outer = x.db.Transaction(func(tx *gorm.DB) error {
				began = true
				err = fn(tx, "items", args...)
				rolled = err != nil
				return err
			})
			committed = outer == nil
		}
		done = true
	})
	finish("an insert", 0, t)
	sim.Tracef("insert of %d records: done %v, %s, committed %v", o.N, done, errText(err), committed)
	// the statements
	var mineLog []*Stmt
	for _, s := range x.e.Log[l0:] {
		if s.Task == t {
			mineLog = append(mineLog, s)
		}
	}
	failed := false
	sent := map[string]int{}
	for _, s := range mineLog {
		if failed {
			sim.Fail("after-failure", "another statement was sent after one had failed: %s", brief(s.SQL, 120))
		}
		failed = s.Err != nil || s.Fault != ""
		if o.K == "split" && s.Err != nil && strings.Contains(s.Err.Error(), "too many placeholders") {
			sim.Fail("over-limit", "a split insert of %d records sent a statement with more values than a statement can have: %s", o.N, brief(s.SQL, 120))
		}
		if s.Plan == nil {
			continue
		}
		for _, r := range s.Plan.ins {
			id := key(r)
			if i, ok := mine[id]; ok && sent[id] >= x.seen[id] && o.Dup == 0 {
				sim.Fail("sent-twice", "record %d was sent to the database twice", i)
			}
			sent[id]++
		}
	}
	if !began {
		return
	}
	if done && failed && err == nil {
		sim.Fail("failure-hidden", "the insert reports success although a statement failed")
	}
	// the rows
	var got []string
	rows := map[string]map[string]val{}
	_, held := x.t.snap()
	for _, r := range x.t.rows {
		k := key(r.v)
		i, ok := mine[k]
		if !ok || o.Bad == i+1 {
			continue
		}
		got = append(got, k)
		row := held[r.v["id"].s]
		if _, ok := want[i]["id"]; !ok {
			delete(row, "id") // the table's
			sim.Probe("an id from the table")
		}
		rows[k] = row
		if o.Auto == 3 {
			x.same(o, i, row, want[i])
		}
	}
	must := false // all records must be there
	switch {
	case !done:
		sim.Probe("process crash in an insert")
		if o.Tx != 0 && len(got) != 0 && len(got) != o.N {
			sim.Fail("half-transaction", "%d of %d records are in the table after a crash in the middle of a transaction", len(got), o.N)
		}
	case o.Tx != 0 && !committed:
		if rolled && len(got) != 0 {
			sim.Fail("not-rolled-back", "%d records stayed in the table although the caller rolled its transaction back", len(got))
		}
		if rolled {
			sim.Probe("rolled back")
		}
	case err == nil:
		must = true
	}
	if must && (o.Bad > 0 && o.Bad <= o.N || o.Dup > 0 && o.Dup <= o.N) {
		sim.Fail("failure-hidden", "the insert reports success although record %d cannot be inserted", max(o.Bad, o.Dup)-1)
	}
	if must && len(got) != len(want) {
		sim.Fail("record-lost", "the insert of %d records reports success but %d are in the table", len(want), len(got))
	}
	for k, id := range got {
		if o.Auto == 3 {
			continue
		}
		if mine[id] != k {
			sim.Fail("order", "record %d stands in the table in place of record %d", mine[id], k)
		}
		x.same(o, k, rows[id], want[k])
	}
	if must {
		sim.Probe("stored")
		if len(mineLog) > 1 {
			sim.Probe("stored in several statements")
		}
	}
	if done && err != nil && x.e.hitBy(t, f0) == 0 && o.Bad == 0 && o.Dup == 0 && o.Vary == "" && !(o.K == "batch" && o.N*(o.W+1) > 60000) {
		sim.Fail("refused", "the insert of %d records reports an error although no statement failed for want of the database: %v", o.N, brief(err.Error(), 200))
	}
	for i := range before {
		if b, _ := json.Marshal(recs[i]); string(b) != before[i] {
			sim.Fail("argument", "the insert changed the caller's record %d", i)
		}
	}
}

// same checks that record k is stored as given.
func (x *insertRun) same(o In, k int, row, want map[string]val) {
	for c, d := range x.t.def {
		// a field that the record does not have
		if _, ok := want[c]; !ok && row[c] == d {
			row[c] = null
		}
	}
	if !sameRow(row, want) {
		sim.Fail("record-changed", "record %d (of %d) is stored as [%s] and not as [%s]", k, o.N, text(row), text(want))
	}
}

func (e *Engine) hitBy(t *sim.Task, from int) (n int) {
	for _, f := range e.Fails[from:] {
		if f.Task == t {
			n++
		}
	}
	return
}

// GenInsert makes a workload.
func GenInsert(g *run.G, c *sim.Config) []In {
	g.Schedule(c)
	g.Faults(c, 0.6, 3, run.Pick(g, "exec,exec-lost,ignored,begin,commit", "exec", "exec-lost", "ignored"))
	if g.P(0.15) {
		c.CrashP = run.Pick(g, 0.0005, 0.002, 0.01)
	}
	var ops []In
	for k := g.Intn(4); k > 0; k-- {
		ops = append(ops, In{T: -1, K: "row"})
	}
	one := func(t int) In {
		o := In{T: t, K: run.Pick(g, "split", "split", "batch"), N: g.Range(1, 8), W: g.Range(1, 10),
			Shape: run.Pick(g, "map", "struct", "ptr"), Vary: run.Pick(g, "", "", "absent", "any", "grow", "late"), Seed: g.U64()}
		if g.P(0.05) {
			o.N = run.Pick(g, 0, 30, 60)
		}
		if g.P(0.08) {
			o.Bad = g.Range(1, o.N+1)
		} else if g.P(0.12) {
			o.Dup = g.Range(1, o.N+1)
		}
		if g.P(0.45) {
			o.Tx = g.Range(1, 2)
		}
		if g.P(0.3) {
			o.Auto, o.Dup = g.Range(1, 3), 0
		}
		if o.Auto == 3 {
			o.Vary, o.Bad = "", 0
		}
		if g.P(0.2) {
			o.Wait = run.Pick(g, int64(100), 5000, 1e6)
		}
		return o
	}
	if g.P(0.01) {
		// more values than one statement takes
		c.Strategy, c.SwitchP, c.MaxSteps, c.MemP = "random", 0, 200000000, 0
		c.CrashP /= 1000
		if c.FaultP > 0 {
			c.FaultP = 0.3
		}
		w := run.Pick(g, 1, 30, 49, 64, maxCols)
		o := In{T: 1, K: "split", W: w, Shape: "map", Vary: run.Pick(g, "", "grow", "late"), Seed: g.U64(), Tx: g.Intn(2)}
		total := run.Pick(g, 64000, 65000, 65500, 65536, 66000, 130000, 131500)
		if o.Vary == "grow" && g.P(0.5) {
			o.Shape, w = "struct", 8
		}
		o.N = total/(w+1) + g.Range(-1, 2)
		if g.P(0.3) {
			o.Bad = g.Range(1, o.N)
		}
		return append(ops, o)
	}
	for t := g.Range(1, 3); t > 0; t-- {
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, one(t))
		}
	}
	return ops
}
