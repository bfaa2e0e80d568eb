package dbs

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A small SQL engine: INSERT ... VALUES, UPDATE ... SET, DELETE FROM on tables
// whose columns hold text or NULL, numbers as their decimal text.

type val struct {
	null bool
	s    string
}

func (v val) String() string {
	if v.null {
		return "NULL"
	}
	return v.s
}

var null = val{null: true}

type row struct {
	serial int // order of insertion
	v      map[string]val
}

type table struct {
	name string
	cols []string
	rows []*row
	next int64
	def  map[string]val // defaults other than null
}

func (t *table) has(c string) bool {
	for _, x := range t.cols {
		if x == c {
			return true
		}
	}
	return false
}

// canon is how the database stores a bound value.
func canon(x any) (val, error) {
	switch v := x.(type) {
	case nil:
		return null, nil
	case val:
		return v, nil
	case json.Number:
		return number(string(v)), nil
	case string:
		return val{s: v}, nil
	case []byte:
		if v == nil {
			return null, nil
		}
		return val{s: string(v)}, nil
	case bool:
		if v {
			return val{s: "1"}, nil
		}
		return val{s: "0"}, nil
	case time.Time:
		return val{s: v.UTC().Format(time.RFC3339Nano)}, nil
	case driver.Valuer:
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
			return null, nil
		}
		y, err := v.Value()
		if err != nil {
			return null, err
		}
		return canon(y)
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Pointer, reflect.Interface:
		if rv.IsNil() {
			return null, nil
		}
		return canon(rv.Elem().Interface())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return val{s: strconv.FormatInt(rv.Int(), 10)}, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return val{s: strconv.FormatUint(rv.Uint(), 10)}, nil
	case reflect.Float32, reflect.Float64:
		return number(strconv.FormatFloat(rv.Float(), 'g', -1, 64)), nil
	case reflect.Bool:
		return canon(rv.Bool())
	case reflect.String:
		return val{s: rv.String()}, nil
	}
	return null, fmt.Errorf("sql: converting argument: unsupported type %T", x)
}

func number(s string) val {
	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
		return val{s: s}
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		if f == float64(int64(f)) && f > -1e15 && f < 1e15 {
			return val{s: strconv.FormatInt(int64(f), 10)}
		}
		return val{s: strconv.FormatFloat(f, 'g', -1, 64)}
	}
	return val{s: s}
}

func num(v val) (float64, bool) {
	f, err := strconv.ParseFloat(v.s, 64)
	return f, err == nil
}

// ---- tokens ----

type tok struct {
	k byte // i: identifier, q: quoted identifier, n: number, s: string, ?: placeholder, p: punctuation, 0: end
	s string
}

func lex(q string) ([]tok, error) {
	var out []tok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '`':
			j := strings.IndexByte(q[i+1:], '`')
			if j < 0 {
				return nil, fmt.Errorf("unterminated name")
			}
			out = append(out, tok{'q', q[i+1 : i+1+j]})
			i += j + 2
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for ; ; j++ {
				if j >= len(q) {
					return nil, fmt.Errorf("unterminated string")
				}
				if q[j] == '\\' && j+1 < len(q) {
					j++
					b.WriteByte(q[j])
					continue
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j++
						continue
					}
					break
				}
				b.WriteByte(q[j])
			}
			out = append(out, tok{'s', b.String()})
			i = j + 1
		case c == '?':
			out = append(out, tok{'?', "?"})
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			out = append(out, tok{'n', q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9' || q[j] >= 0x80) {
				j++
			}
			out = append(out, tok{'i', q[i:j]})
			i = j
		default:
			p := q[i : i+1]
			if i+1 < len(q) {
				switch q[i : i+2] {
				case "<>", "<=", ">=", "!=":
					p = q[i : i+2]
				}
			}
			out = append(out, tok{'p', p})
			i += len(p)
		}
	}
	return out, nil
}

// ---- parser ----

type expr func(r *row) val

type parser struct {
	t    []tok
	i    int
	args []val
	a    int
	err  error
	tb   *table

	// the last comparison parsed, if it was "column = constant"
	eqCol string
	eqVal val
	eqEnd int
	start int
}

func (p *parser) fail(f string, a ...any) {
	if p.err == nil {
		p.err = fmt.Errorf("Error 1064: syntax: "+f, a...)
	}
	p.i = len(p.t)
}

func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{}
}

func (p *parser) word(w string) bool {
	t := p.peek()
	if t.k == 'i' && strings.EqualFold(t.s, w) || t.k == 'p' && t.s == w {
		p.i++
		return true
	}
	return false
}

func (p *parser) want(w string) {
	if !p.word(w) {
		p.fail("%q expected near %q", w, p.near())
	}
}

func (p *parser) near() string {
	var s []string
	for k := p.i; k < len(p.t) && k < p.i+6; k++ {
		s = append(s, p.t[k].s)
	}
	return strings.Join(s, " ")
}

func (p *parser) ident() string {
	t := p.peek()
	if t.k != 'i' && t.k != 'q' {
		p.fail("name expected near %q", p.near())
		return ""
	}
	p.i++
	return t.s
}

func (p *parser) column() string {
	n := p.ident()
	for p.word(".") {
		n = p.ident()
	}
	if p.err == nil && p.tb != nil && !p.tb.has(n) {
		if p.err == nil {
			p.err = fmt.Errorf("Error 1054: Unknown column '%s'", n)
		}
		p.i = len(p.t)
	}
	return n
}

func truth(v val) (bool, bool) { // value, known
	if v.null {
		return false, false
	}
	f, _ := num(v)
	return f != 0, true
}

func b2v(b bool) val {
	if b {
		return val{s: "1"}
	}
	return val{s: "0"}
}

func (p *parser) or() expr {
	l := p.and()
	for p.word("or") {
		a, b := l, p.and()
		l = func(r *row) val {
			x, xk := truth(a(r))
			y, yk := truth(b(r))
			if x || y {
				return b2v(true)
			}
			if !xk || !yk {
				return null
			}
			return b2v(false)
		}
	}
	return l
}

func (p *parser) and() expr {
	l := p.not()
	for p.word("and") {
		a, b := l, p.not()
		l = func(r *row) val {
			x, xk := truth(a(r))
			y, yk := truth(b(r))
			if xk && !x || yk && !y {
				return b2v(false)
			}
			if !xk || !yk {
				return null
			}
			return b2v(true)
		}
	}
	return l
}

func (p *parser) not() expr {
	if p.word("not") {
		a := p.not()
		return func(r *row) val {
			x, k := truth(a(r))
			if !k {
				return null
			}
			return b2v(!x)
		}
	}
	return p.cmp()
}

func compare(a, b val) int {
	x, ok := num(a)
	y, ok2 := num(b)
	if ok && ok2 && a.s != b.s {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		// equal as floats, different as texts: long integers
		i, e := strconv.ParseInt(a.s, 10, 64)
		j, e2 := strconv.ParseInt(b.s, 10, 64)
		if e == nil && e2 == nil && i != j {
			if i < j {
				return -1
			}
			return 1
		}
		return 0
	}
	return strings.Compare(a.s, b.s)
}

func (p *parser) cmp() expr {
	p.start = p.i
	l := p.sum()
	switch {
	case p.word("is"):
		neg := p.word("not")
		p.want("null")
		return func(r *row) val { return b2v(l(r).null != neg) }
	}
	neg := false
	if t := p.peek(); t.k == 'i' && strings.EqualFold(t.s, "not") && p.i+1 < len(p.t) && (strings.EqualFold(p.t[p.i+1].s, "in") || strings.EqualFold(p.t[p.i+1].s, "between")) {
		p.i++
		neg = true
	}
	if p.word("between") {
		lo := p.sum()
		p.want("and")
		hi := p.sum()
		return func(r *row) val {
			x, a, b := l(r), lo(r), hi(r)
			if x.null || a.null || b.null {
				return null
			}
			return b2v((compare(a, x) <= 0 && compare(x, b) <= 0) != neg)
		}
	}
	if p.word("in") {
		p.want("(")
		var list []expr
		paren := p.word("(") // IN ((?,?)) is what some drivers make of a list
		for p.err == nil {
			list = append(list, p.or())
			if !p.word(",") {
				break
			}
		}
		if paren {
			p.want(")")
		}
		p.want(")")
		// constant lists are looked up in a set
		set := map[string]bool{}
		simple, hasNull := true, false
		for _, e := range list {
			if e == nil {
				continue
			}
			c := constOf(e)
			if c == nil {
				simple = false
				break
			}
			if c.null {
				hasNull = true
			}
			set[c.s] = true
		}
		return func(r *row) val {
			x := l(r)
			if x.null {
				return null
			}
			if simple && set[x.s] && !hasNull {
				return b2v(!neg)
			}
			sawNull := false
			for _, e := range list {
				y := e(r)
				if y.null {
					sawNull = true
				} else if compare(x, y) == 0 {
					return b2v(!neg)
				}
			}
			if sawNull {
				return null
			}
			return b2v(neg)
		}
	}
	t := p.peek()
	if t.k != 'p' {
		return l
	}
	switch t.s {
	case "=", "<>", "!=", "<", ">", "<=", ">=":
		col, at := "", p.i
		if at > 0 && (p.t[at-1].k == 'q' || p.t[at-1].k == 'i') && t.s == "=" && p.start == at-1 {
			col = p.t[at-1].s
		}
		p.i++
		b := p.sum()
		if col != "" && p.i == at+2 && p.err == nil {
			if c := constOf(b); c != nil {
				p.eqCol, p.eqVal, p.eqEnd = col, *c, p.i
			}
		}
		return func(r *row) val {
			x, y := l(r), b(r)
			if x.null || y.null {
				return null
			}
			c := compare(x, y)
			switch t.s {
			case "=":
				return b2v(c == 0)
			case "<>", "!=":
				return b2v(c != 0)
			case "<":
				return b2v(c < 0)
			case ">":
				return b2v(c > 0)
			case "<=":
				return b2v(c <= 0)
			}
			return b2v(c >= 0)
		}
	}
	return l
}

func (p *parser) sum() expr {
	l := p.prim()
	for {
		sign := 0.0
		if p.word("+") {
			sign = 1
		} else if p.word("-") {
			sign = -1
		} else {
			return l
		}
		a, b := l, p.prim()
		l = func(r *row) val {
			x, y := a(r), b(r)
			if x.null || y.null {
				return null
			}
			i, e1 := strconv.ParseInt(x.s, 10, 64)
			j, e2 := strconv.ParseInt(y.s, 10, 64)
			if e1 == nil && e2 == nil {
				return val{s: strconv.FormatInt(i+int64(sign)*j, 10)}
			}
			f, _ := num(x)
			g, _ := num(y)
			return number(strconv.FormatFloat(f+sign*g, 'g', -1, 64))
		}
	}
}

// probe row: constant expressions do not look at the row.
func constOf(e expr) (v *val) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	x := e(nil)
	return &x
}

func (p *parser) list() []expr {
	p.want("(")
	var l []expr
	if p.word(")") {
		return l
	}
	for p.err == nil {
		l = append(l, p.or())
		if !p.word(",") {
			break
		}
	}
	p.want(")")
	return l
}

func (p *parser) prim() expr {
	t := p.peek()
	zero := func(*row) val { return null }
	switch t.k {
	case '?':
		p.i++
		if p.a >= len(p.args) {
			p.fail("too few arguments")
			return zero
		}
		v := p.args[p.a]
		p.a++
		return func(*row) val { return v }
	case 'n':
		p.i++
		v := number(t.s)
		return func(*row) val { return v }
	case 's':
		p.i++
		v := val{s: t.s}
		return func(*row) val { return v }
	case 'p':
		if p.word("(") {
			e := p.or()
			p.want(")")
			return e
		}
		if p.word("-") {
			e := p.prim()
			return func(r *row) val {
				x := e(r)
				if x.null {
					return null
				}
				return number("-" + x.s)
			}
		}
	case 'q':
		c := p.column()
		return func(r *row) val { return r.v[c] }
	case 'i':
		switch strings.ToLower(t.s) {
		case "null":
			p.i++
			return zero
		case "true", "false":
			p.i++
			v := b2v(strings.EqualFold(t.s, "true"))
			return func(*row) val { return v }
		case "case":
			p.i++
			return p.caseOf()
		case "if", "coalesce", "ifnull":
			if p.i+1 < len(p.t) && p.t[p.i+1].s == "(" {
				p.i++
				l := p.list()
				f := strings.ToLower(t.s)
				if f == "if" && len(l) != 3 || len(l) == 0 {
					p.fail("arguments of %s", f)
					return zero
				}
				return func(r *row) val {
					if f == "if" {
						if x, _ := truth(l[0](r)); x {
							return l[1](r)
						}
						return l[2](r)
					}
					for _, e := range l {
						if v := e(r); !v.null {
							return v
						}
					}
					return null
				}
			}
		}
		c := p.column()
		return func(r *row) val { return r.v[c] }
	}
	p.fail("expression expected near %q", p.near())
	return zero
}

// integer: texts of integers in their normal form are equal or different numbers.
func (p *parser) integer(v val) bool {
	n, err := strconv.ParseInt(v.s, 10, 64)
	return err == nil && !v.null && strconv.FormatInt(n, 10) == v.s
}

func (p *parser) caseOf() expr {
	var base expr
	if t := p.peek(); !(t.k == 'i' && strings.EqualFold(t.s, "when")) {
		base = p.or()
	}
	type arm struct{ c, v expr }
	var arms []arm
	first := map[val]int{} // arm by the constant the column is compared with
	col, simple := "", base == nil
	for p.word("when") {
		p.eqCol = ""
		c := p.or()
		if p.eqCol == "" || p.eqEnd != p.i || col != "" && col != p.eqCol || !p.integer(p.eqVal) {
			simple = false
		} else {
			col = p.eqCol
			if _, ok := first[p.eqVal]; !ok {
				first[p.eqVal] = len(arms)
			}
		}
		p.want("then")
		arms = append(arms, arm{c, p.or()})
	}
	els := expr(func(*row) val { return null })
	if p.word("else") {
		els = p.or()
	}
	p.want("end")
	if len(arms) == 0 {
		p.fail("CASE without WHEN")
	}
	return func(r *row) val {
		if simple && r != nil && p.integer(r.v[col]) {
			if i, ok := first[r.v[col]]; ok {
				return arms[i].v(r)
			}
			return els(r)
		}
		for _, a := range arms {
			if base != nil {
				x, y := base(r), a.c(r)
				if !x.null && !y.null && compare(x, y) == 0 {
					return a.v(r)
				}
			} else if x, _ := truth(a.c(r)); x {
				return a.v(r)
			}
		}
		return els(r)
	}
}

func (p *parser) tail() {
	p.word(";")
	if p.err == nil && p.i < len(p.t) {
		p.fail("unexpected %q", p.near())
	}
	if p.err == nil && p.a < len(p.args) {
		p.err = fmt.Errorf("Error: %d arguments for %d placeholders", len(p.args), p.a)
	}
}

// plan is a parsed statement.
type plan struct {
	kind string // insert, update, delete
	tb   *table
	ins  []map[string]val // rows to insert; a missing column gets its default
	set  []struct {
		c string
		e expr
	}
	where expr
}

func (e *Engine) parse(q string, args []val) (*plan, error) {
	t, err := lex(q)
	if err != nil {
		return nil, fmt.Errorf("Error 1064: syntax: %v", err)
	}
	n := 0
	for _, x := range t {
		if x.k == '?' {
			n++
		}
	}
	if n > 65535 {
		return nil, fmt.Errorf("Error 1390: Prepared statement contains too many placeholders")
	}
	if n != len(args) {
		return nil, fmt.Errorf("sql: expected %d arguments, got %d", n, len(args))
	}
	p := &parser{t: t, args: args}
	pl := &plan{}
	switch {
	case p.word("insert"):
		pl.kind = "insert"
		p.word("into")
		p.useTable(e, pl)
		var cols []string
		p.want("(")
		seen := map[string]bool{}
		for p.err == nil && !p.word(")") {
			c := p.column()
			if seen[c] {
				p.err = fmt.Errorf("Error 1110: Column '%s' specified twice", c)
			}
			seen[c] = true
			cols = append(cols, c)
			if !p.word(",") {
				p.want(")")
				break
			}
		}
		if !p.word("values") {
			p.want("value")
		}
		for p.err == nil {
			p.want("(")
			r := map[string]val{}
			k := 0
			for p.err == nil && !p.word(")") {
				isDefault := p.word("default")
				var v val
				if !isDefault {
					e := p.or()
					if p.err != nil {
						break
					}
					if c := constOf(e); c != nil {
						v = *c
					} else {
						p.fail("value expected")
					}
				}
				if k < len(cols) && !isDefault {
					r[cols[k]] = v
				}
				k++
				if !p.word(",") {
					p.want(")")
					break
				}
			}
			if p.err == nil && k != len(cols) {
				p.err = fmt.Errorf("Error 1136: Column count doesn't match value count at row %d", len(pl.ins)+1)
			}
			pl.ins = append(pl.ins, r)
			if !p.word(",") {
				break
			}
		}
	case p.word("update"):
		pl.kind = "update"
		p.useTable(e, pl)
		p.want("set")
		for p.err == nil {
			c := p.column()
			p.want("=")
			x := p.or()
			pl.set = append(pl.set, struct {
				c string
				e expr
			}{c, x})
			if !p.word(",") {
				break
			}
		}
		if p.word("where") {
			pl.where = p.or()
		}
	case p.word("delete"):
		pl.kind = "delete"
		p.want("from")
		p.useTable(e, pl)
		if p.word("where") {
			pl.where = p.or()
		}
	default:
		p.fail("statement not understood: %q", p.near())
	}
	p.tail()
	return pl, p.err
}

func (p *parser) useTable(e *Engine, pl *plan) {
	n := p.ident()
	for p.word(".") {
		n = p.ident()
	}
	pl.tb = e.Tables[n]
	p.tb = pl.tb
	if pl.tb == nil && p.err == nil {
		p.err = fmt.Errorf("Error 1146: Table '%s' doesn't exist", n)
		p.i = len(p.t)
	}
}

// apply carries the statement out, whole or not at all; it returns what undoes
// it.
func (e *Engine) apply(pl *plan) (affected int64, last int64, undo func(), err error) {
	tb := pl.tb
	hit := func(r *row) bool {
		if pl.where == nil {
			return true
		}
		x, _ := truth(pl.where(r))
		return x
	}
	switch pl.kind {
	case "insert":
		ids := map[string]bool{}
		for _, r := range tb.rows {
			ids[r.v["id"].s] = true
		}
		var add []*row
		next := tb.next
		for _, m := range pl.ins {
			r := &row{v: map[string]val{}}
			for _, c := range tb.cols {
				r.v[c] = null
				if d, ok := tb.def[c]; ok {
					r.v[c] = d
				}
			}
			for c, v := range m {
				r.v[c] = v
			}
			if r.v["id"].null {
				r.v["id"] = val{s: fmt.Sprint(next)}
				next++
			} else if n, err := strconv.ParseInt(r.v["id"].s, 10, 64); err == nil && n >= next {
				next = n + 1
			}
			if ids[r.v["id"].s] {
				return 0, 0, nil, fmt.Errorf("Error 1062: Duplicate entry '%s' for key 'PRIMARY'", r.v["id"].s)
			}
			ids[r.v["id"].s] = true
			add = append(add, r)
		}
		tb.next = next
		for _, r := range add {
			e.serial++
			r.serial = e.serial
		}
		tb.rows = append(tb.rows, add...)
		if len(add) > 0 {
			last, _ = strconv.ParseInt(add[0].v["id"].s, 10, 64)
		}
		return int64(len(add)), last, func() {
			gone := map[*row]bool{}
			for _, r := range add {
				gone[r] = true
			}
			tb.drop(gone)
		}, nil
	case "update":
		type old struct {
			r *row
			v map[string]val
		}
		var olds []old
		for _, r := range tb.rows {
			if !hit(r) {
				continue
			}
			was := map[string]val{}
			for _, s := range pl.set {
				if _, ok := was[s.c]; !ok {
					was[s.c] = r.v[s.c]
				}
				r.v[s.c] = s.e(r) // left to right, as MySQL does
			}
			changed := false
			for c, v := range was {
				changed = changed || r.v[c] != v
			}
			if changed {
				affected++
			}
			olds = append(olds, old{r, was})
		}
		return affected, 0, func() {
			for _, o := range olds {
				for c, v := range o.v {
					o.r.v[c] = v
				}
			}
		}, nil
	}
	gone := map[*row]bool{}
	var dead []*row
	for _, r := range tb.rows {
		if hit(r) {
			gone[r] = true
			dead = append(dead, r)
		}
	}
	tb.drop(gone)
	return int64(len(dead)), 0, func() {
		tb.rows = append(tb.rows, dead...)
		sort.Slice(tb.rows, func(i, j int) bool { return tb.rows[i].serial < tb.rows[j].serial })
	}, nil
}

func (t *table) drop(gone map[*row]bool) {
	keep := t.rows[:0:0]
	for _, r := range t.rows {
		if !gone[r] {
			keep = append(keep, r)
		}
	}
	t.rows = keep
}
