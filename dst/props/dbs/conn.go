// Package dbs drives the database helpers, over the real gorm, against a
// simulated database, for the properties C26 to C28.
package dbs

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"dst/sim"
	"dst/x/xtime"

	_ "github.com/ahKevinXy/go-web-tools/dstsites"
	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
)

// Stub lists what is simulated in every database harness.
var Stub = []string{"goroutine scheduler and clock", "map iteration order", "database server and driver: an in-memory SQL engine behind gorm's ConnPool, with fault injection"}

// Stmt is one statement the database received.
type Stmt struct {
	Task    *sim.Task
	SQL     string
	Args    []val
	Plan    *plan
	Err     error
	Applied bool
	Rows    int64
	Tx      *tx
	Fault   string
	Token   any // of the context it came with
}

// Token is the key of a context's mark.
type Token struct{}

func token(ctx context.Context) any {
	if ctx == nil {
		return nil
	}
	return ctx.Value(Token{})
}

// Engine is the database.
type Engine struct {
	Tables map[string]*table
	Log    []*Stmt
	Fails  []failing // faults and commits that failed
	serial int
	open   []*tx
	Begun  []*tx
	Lat    map[*sim.Task]int64 // how long a statement of the task takes
}

type failing struct {
	Task *sim.Task
	What string
}

type conn struct {
	e  *Engine
	tx *tx
}

type tx struct {
	e    *Engine
	proc int
	undo []func()
	done bool
	task *sim.Task
	ctx  context.Context
}

var site = sim.Site("database")

// NewEngine makes a database with one table.
func NewEngine(tables ...*table) *Engine {
	e := &Engine{Tables: map[string]*table{}}
	for _, t := range tables {
		e.Tables[t.name] = t
	}
	sim.S.OnCrash = func(proc int) {
		for _, t := range append([]*tx(nil), e.open...) {
			if t.proc == proc {
				t.rollback()
			}
		}
	}
	return e
}

// Gorm opens the database with the real gorm.
func (e *Engine) Gorm() *gorm.DB {
	db, err := gorm.Open(dialect{}, &gorm.Config{ConnPool: &conn{e: e}, Logger: logger.Discard,
		DisableAutomaticPing: true, NowFunc: func() time.Time { return xtime.Now() }})
	if err != nil {
		sim.Fail("harness", "gorm does not open: %v", err)
	}
	return db
}

type result struct{ last, rows int64 }

func (r result) LastInsertId() (int64, error) { return r.last, nil }
func (r result) RowsAffected() (int64, error) { return r.rows, nil }

func (e *Engine) failed(what string) error {
	e.Fails = append(e.Fails, failing{sim.Cur(), what})
	switch sim.Choose(3, "error") {
	case 0:
		return driver.ErrBadConn
	case 1:
		return errors.New("Error 1205: Lock wait timeout exceeded; try restarting transaction")
	}
	return errors.New("dial tcp: i/o timeout")
}

// hit says how many faults struck the running task since the mark.
func (e *Engine) hit(from int) (n int) {
	for _, f := range e.Fails[from:] {
		if f.Task == sim.Cur() {
			n++
		}
	}
	return
}

func (c *conn) exec(ctx context.Context, q string, raw []any) (sql.Result, error) {
	e := c.e
	st := &Stmt{Task: sim.Cur(), SQL: q, Tx: c.tx, Token: token(ctx)}
	if !sim.SyncPoint(site) {
		return nil, driver.ErrBadConn
	}
	e.Log = append(e.Log, st)
	end := func(res sql.Result, err error) (sql.Result, error) {
		st.Err = err
		sim.Tracef("database: %s: %v", brief(q, 200), err)
		sim.SyncPoint(site)
		return res, err
	}
	if err := ctxErr(ctx); err != nil {
		return end(nil, err)
	}
	if c.tx != nil && c.tx.done {
		return end(nil, sql.ErrTxDone)
	}
	if l := e.Lat[sim.Cur()]; l > 0 {
		sim.Sleep(l)
		if err := ctxErr(ctx); err != nil {
			return end(nil, err)
		}
	}
	for _, x := range raw {
		v, err := canon(x)
		if err != nil {
			return end(nil, err)
		}
		st.Args = append(st.Args, v)
	}
	if sim.Fault("exec", 1, brief(q, 40)) != 0 {
		st.Fault = "exec"
		return end(nil, e.failed("exec"))
	}
	var err error
	st.Plan, err = e.parse(q, st.Args)
	if err != nil {
		return end(nil, err)
	}
	if st.Plan.kind == "insert" && sim.Fault("ignored", 1, brief(q, 40)) != 0 {
		st.Fault = "ignored"
		e.Fails = append(e.Fails, failing{sim.Cur(), "ignored"})
		return end(result{}, nil)
	}
	n, last, undo, err := e.apply(st.Plan)
	if err != nil {
		return end(nil, err)
	}
	st.Applied, st.Rows = true, n
	if c.tx != nil {
		c.tx.undo = append(c.tx.undo, undo)
	}
	if sim.Fault("exec-lost", 1, brief(q, 40)) != 0 {
		st.Fault = "exec-lost"
		return end(nil, e.failed("exec-lost"))
	}
	return end(result{last, n}, nil)
}

func brief(q string, n int) string {
	if len(q) > n {
		return q[:n] + "..."
	}
	return q
}

func (c *conn) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	return c.exec(ctx, q, args)
}

func ctxErr(ctx context.Context) error {
	if ctx == nil {
		return nil
	}
	return ctx.Err()
}

var errQuery = errors.New("queries are not supported")

func (c *conn) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errQuery }
func (c *conn) QueryContext(context.Context, string, ...any) (*sql.Rows, error) {
	return nil, errQuery
}
func (c *conn) QueryRowContext(context.Context, string, ...any) *sql.Row { return &sql.Row{} }

// txConn is a connection within a transaction; like *sql.Tx, it begins none.
type txConn struct{ tx *tx }

func (c *txConn) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	return (&conn{c.tx.e, c.tx}).ExecContext(ctx, q, args...)
}
func (c *txConn) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errQuery }
func (c *txConn) QueryContext(context.Context, string, ...any) (*sql.Rows, error) {
	return nil, errQuery
}
func (c *txConn) QueryRowContext(context.Context, string, ...any) *sql.Row { return &sql.Row{} }

func (c *conn) BeginTx(ctx context.Context, o *sql.TxOptions) (gorm.ConnPool, error) {
	if !sim.SyncPoint(site) {
		return nil, driver.ErrBadConn
	}
	if err := ctxErr(ctx); err != nil {
		return nil, err
	}
	if sim.Fault("begin", 1, "begin") != 0 {
		return nil, c.e.failed("begin")
	}
	t := &tx{e: c.e, proc: sim.Proc(), task: sim.Cur(), ctx: ctx}
	c.e.Begun = append(c.e.Begun, t)
	c.e.open = append(c.e.open, t)
	return &txConn{t}, nil
}

func (t *tx) rollback() {
	if t.done {
		return
	}
	t.done = true
	for i := len(t.undo) - 1; i >= 0; i-- {
		t.undo[i]()
	}
	t.close()
}

func (t *tx) close() {
	t.done = true
	for i, x := range t.e.open {
		if x == t {
			t.e.open = append(t.e.open[:i], t.e.open[i+1:]...)
			break
		}
	}
}

func (c *txConn) Commit() error {
	if !sim.SyncPoint(site) {
		return driver.ErrBadConn
	}
	if c.tx.done {
		return sql.ErrTxDone
	}
	if err := ctxErr(c.tx.ctx); err != nil {
		c.tx.rollback()
		return err
	}
	if sim.Fault("commit", 1, "commit") != 0 {
		c.tx.rollback()
		return c.tx.e.failed("commit")
	}
	if sim.Fault("commit-lost", 1, "commit") != 0 {
		c.tx.close()
		return c.tx.e.failed("commit-lost")
	}
	c.tx.close()
	sim.SyncPoint(site)
	return nil
}

func (c *txConn) Rollback() error {
	if !sim.SyncPoint(site) {
		return driver.ErrBadConn
	}
	if c.tx.done {
		return sql.ErrTxDone
	}
	c.tx.rollback()
	sim.SyncPoint(site)
	return nil
}

// ---- contents ----

type content map[string]string // id to the row's text

// snap is the table as ids in order and the rows by id.
func (t *table) snap() (ids []string, rows map[string]map[string]val) {
	rows = map[string]map[string]val{}
	for _, r := range t.rows {
		id := r.v["id"].s
		ids = append(ids, id)
		c := make(map[string]val, len(r.v))
		for k, v := range r.v {
			c[k] = v
		}
		rows[id] = c
	}
	return
}

func text(r map[string]val) string {
	var ks []string
	for k, v := range r {
		if !v.null {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, brief(r[k].s, 40))
	}
	return strings.TrimSpace(b.String())
}

func sameRow(a, b map[string]val) bool {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			w = null
		}
		if v != w {
			return false
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && !v.null {
			return false
		}
	}
	return true
}

// ---- dialect ----

type dialect struct{}

func (dialect) Name() string { return "simulated" }

func (dialect) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{
		CreateClauses: []string{"INSERT", "VALUES", "ON CONFLICT"},
		UpdateClauses: []string{"UPDATE", "SET", "WHERE"},
		DeleteClauses: []string{"DELETE", "FROM", "WHERE"},
	})
	return nil
}

func (dialect) DefaultValueOf(*schema.Field) clause.Expression { return clause.Expr{SQL: "DEFAULT"} }
func (dialect) Migrator(*gorm.DB) gorm.Migrator                { return nil }
func (dialect) DataTypeOf(*schema.Field) string                { return "" }

func (dialect) BindVarTo(w clause.Writer, _ *gorm.Statement, _ any) { w.WriteByte('?') }

func (dialect) QuoteTo(w clause.Writer, s string) {
	for i, p := range strings.Split(s, ".") {
		if i > 0 {
			w.WriteByte('.')
		}
		w.WriteString("`" + strings.Trim(p, "`") + "`")
	}
}

func (dialect) Explain(q string, vars ...any) string { return logger.ExplainSQL(q, nil, `'`, vars...) }

// finish joins tasks; a database call must not block.
func finish(what string, horizon int64, ts ...*sim.Task) {
	for inj := int64(-1); inj != sim.Injected(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(sim.Now()+horizon+3600e9+sim.Injected()), ts...) {
			return
		}
	}
	for _, t := range ts {
		if !t.Done() {
			sim.Fail("blocked", "%s does not complete: %s", what, t.Why())
		}
	}
}

func errText(err error) string {
	if err == nil {
		return "success"
	}
	return "error " + err.Error()
}
