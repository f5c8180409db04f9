// Package sqlx is a small in-memory SQL database behind database/sql and gorm: single-table INSERT, UPDATE and
// DELETE with MySQL's conversions, placeholder limit and error texts, transactions and injected failures.
package sqlx

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Kind is a column type.
type Kind int

const (
	Int Kind = iota
	Text
	Float
)

// Col is a column.
type Col struct {
	Name string
	Kind Kind
}

// Table has an integer primary key "id" and further columns. Values are held as texts; NULL is nil.
type Table struct {
	Cols []Col
	Rows []map[string]interface{}
	Auto int64
	pk   map[string]bool
}

func (t *Table) clone() *Table {
	n := &Table{Cols: t.Cols, Auto: t.Auto}
	for _, r := range t.Rows {
		c := make(map[string]interface{}, len(r))
		for k, v := range r {
			c[k] = v
		}
		n.Rows = append(n.Rows, c)
	}
	return n
}

func (t *Table) col(name string) (Col, bool) {
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			return c, true
		}
	}
	return Col{}, false
}

// Dump writes the rows in insertion order.
func (t *Table) Dump() string {
	var b strings.Builder
	for _, r := range t.Rows {
		b.WriteString(t.DumpRow(r))
		b.WriteByte('\n')
	}
	return b.String()
}

// DumpRow writes one row.
func (t *Table) DumpRow(r map[string]interface{}) string {
	var b strings.Builder
	for i, c := range t.Cols {
		if i > 0 {
			b.WriteByte(' ')
		}
		if r[c.Name] == nil {
			b.WriteString(c.Name + "=NULL")
		} else {
			b.WriteString(c.Name + "=")
			b.WriteString(strconv.Quote(r[c.Name].(string)))
		}
	}
	return b.String()
}

// Store is a database.
type Store struct {
	Tables   map[string]*Table
	Log      []string // executed statements
	Execs    int
	FailExec int // this statement (1-based) fails; 0: none
	FailText string
	FailTx   string // "begin" or "commit": fails
	Open     int    // transactions begun and not ended
	Commits  int
	MaxVars  int
	Zero     bool // statements report that no row was affected, and affect none
}

// NewStore makes an empty store.
func NewStore() *Store {
	return &Store{Tables: map[string]*Table{}, MaxVars: 65535, FailText: "Error 1205: Lock wait timeout exceeded"}
}

// Add makes a table.
func (s *Store) Add(name string, cols ...Col) *Table {
	t := &Table{Cols: append([]Col{{"id", Int}}, cols...), Auto: 1}
	s.Tables[name] = t
	return t
}

// Put adds a row directly.
func (t *Table) Put(vals ...interface{}) {
	r := map[string]interface{}{}
	for i, c := range t.Cols {
		v, err := Conv(c, vals[i])
		if err != nil {
			panic(err)
		}
		r[c.Name] = v
	}
	t.Rows = append(t.Rows, r)
	if n, _ := strconv.ParseInt(r["id"].(string), 10, 64); n >= t.Auto {
		t.Auto = n + 1
	}
}

// Conv converts a value to a column's text form.
func Conv(c Col, v interface{}) (interface{}, error) {
	if v == nil {
		return nil, nil
	}
	s, ok := text(v)
	if !ok {
		return nil, fmt.Errorf("Error 1366: Incorrect value type %T for column '%s'", v, c.Name)
	}
	switch c.Kind {
	case Int:
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			r, ok2 := new(big.Rat).SetString(s)
			if !ok2 {
				return nil, fmt.Errorf("Error 1366: Incorrect integer value: '%s' for column '%s'", s, c.Name)
			}
			if !r.IsInt() {
				f, _ := r.Float64()
				return strconv.FormatInt(int64(f+0.5), 10), nil
			}
			n = r.Num()
		}
		if !n.IsInt64() && !n.IsUint64() {
			return nil, fmt.Errorf("Error 1264: Out of range value for column '%s'", c.Name)
		}
		return n.String(), nil
	case Float:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil, fmt.Errorf("Error 1265: Data truncated for column '%s'", c.Name)
		}
		return strconv.FormatFloat(f, 'g', -1, 64), nil
	}
	return s, nil
}

func text(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), true
	case int64:
		return strconv.FormatInt(x, 10), true
	case uint64:
		return strconv.FormatUint(x, 10), true
	case int:
		return strconv.Itoa(x), true
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64), true
	case bool:
		if x {
			return "1", true
		}
		return "0", true
	case time.Time:
		return x.Format("2006-01-02 15:04:05"), true
	}
	return "", false
}

// ---- SQL ----

type tok struct {
	k byte // 'i' identifier, 'n' number, 's' string, '?' , or the punctuation itself; 0 end
	s string
	q bool // quoted identifier
}

func lex(q string) ([]tok, error) {
	var l []tok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '`' || c == '"' || c == '\'':
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(q) {
					return nil, errors.New("Error 1064: unterminated quote")
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(q[j])
				j++
			}
			k := byte('i')
			if c != '`' {
				k = 's'
			}
			l = append(l, tok{k, b.String(), true})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			l = append(l, tok{'n', q[i:j], false})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9' || q[j] >= 0x80) {
				j++
			}
			l = append(l, tok{'i', q[i:j], false})
			i = j
		case c == '<' || c == '>' || c == '!':
			if i+1 < len(q) && (q[i+1] == '=' || q[i+1] == '>') {
				l = append(l, tok{'o', q[i : i+2], false})
				i += 2
			} else {
				l = append(l, tok{'o', q[i : i+1], false})
				i++
			}
		case c == '=':
			l = append(l, tok{'o', "=", false})
			i++
		case strings.IndexByte("(),.;?*+-/", c) >= 0:
			l = append(l, tok{c, string(c), false})
			i++
		default:
			return nil, fmt.Errorf("Error 1064: You have an error in your SQL syntax near %q", q[i:])
		}
	}
	return l, nil
}

type row = map[string]interface{}
type expr func(r row) (interface{}, error)

type parser struct {
	l    []tok
	p    int
	args []driver.NamedValue
	used int
	t    *Table
	name string
}

type syntaxError string

func (p *parser) bad(what string) {
	near := ""
	for i := p.p; i < len(p.l) && i < p.p+6; i++ {
		near += p.l[i].s + " "
	}
	panic(syntaxError("Error 1064: You have an error in your SQL syntax (" + what + ") near '" + near + "'"))
}

func (p *parser) peek() tok {
	if p.p < len(p.l) {
		return p.l[p.p]
	}
	return tok{}
}

func (p *parser) next() tok { t := p.peek(); p.p++; return t }

func (p *parser) kw(w string) bool {
	if t := p.peek(); t.k == 'i' && !t.q && strings.EqualFold(t.s, w) {
		p.p++
		return true
	}
	return false
}

func (p *parser) want(w string) {
	if !p.kw(w) {
		p.bad("expected " + w)
	}
}

func (p *parser) is(k byte) bool {
	if p.peek().k == k {
		p.p++
		return true
	}
	return false
}

func (p *parser) wantp(k byte) {
	if !p.is(k) {
		p.bad("expected " + string(k))
	}
}

// words that MySQL takes as a name only in quotes (and end, which ends a CASE)
var reserved = words("accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call cascade case change char character check collate column condition constraint continue convert create cross cube current_date current_time current_timestamp current_user cursor database databases dec decimal declare default delayed delete dense_rank desc describe distinct div double drop each else elseif empty enclosed end escaped except exists exit explain false fetch float for force foreign from fulltext function generated get grant group grouping groups having if ignore in index infile inner inout insert int integer interval into is iterate join json_table key keys kill lag last_value lateral lead leading leave left like limit linear lines load lock long loop match mod natural not null numeric of on optimize option optionally or order out outer outfile over partition percent_rank precision primary procedure range rank read reads real recursive references regexp release rename repeat replace require restrict return revoke right rlike row row_number rows schema schemas select separator set show signal smallint spatial specific sql ssl starting stored straight_join system table terminated then tinyint to trailing trigger true undo union unique unlock unsigned update usage use using values varchar varying virtual when where while window with write xor zerofill")

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func (p *parser) ident() string {
	t := p.next()
	if t.k != 'i' || (!t.q && reserved[strings.ToLower(t.s)]) {
		p.p--
		p.bad("expected a name")
	}
	return t.s
}

func (p *parser) column() string {
	n := p.ident()
	if p.is('.') {
		if !strings.EqualFold(n, p.name) {
			panic(syntaxError("Error 1054: Unknown column '" + n + ".…'"))
		}
		n = p.ident()
	}
	c, ok := p.t.col(n)
	if !ok {
		panic(syntaxError("Error 1054: Unknown column '" + n + "' in 'field list'"))
	}
	return c.Name
}

// three-valued logic: nil, false, true
func truth(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		return x
	}
	s, _ := text(v)
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && f != 0
}

func cmp(a, b interface{}) (int, bool) {
	if a == nil || b == nil {
		return 0, false
	}
	if as, ok := a.(string); ok {
		if bn, ok := b.(int64); ok && len(as) > 0 && len(as) < 18 {
			if an, err := strconv.ParseInt(as, 10, 64); err == nil {
				switch {
				case an < bn:
					return -1, true
				case an > bn:
					return 1, true
				}
				return 0, true
			}
		}
	}
	as, _ := text(a)
	bs, _ := text(b)
	ar, ok1 := new(big.Rat).SetString(as)
	br, ok2 := new(big.Rat).SetString(bs)
	if ok1 && ok2 {
		return ar.Cmp(br), true
	}
	return strings.Compare(as, bs), true
}

func (p *parser) or() expr {
	a := p.and()
	for p.kw("or") {
		x, y := a, p.and()
		a = func(r row) (interface{}, error) {
			u, err := x(r)
			if err != nil {
				return nil, err
			}
			v, err := y(r)
			if err != nil {
				return nil, err
			}
			u, v = truth(u), truth(v)
			if u == true || v == true {
				return true, nil
			}
			if u == nil || v == nil {
				return nil, nil
			}
			return false, nil
		}
	}
	return a
}

func (p *parser) and() expr {
	a := p.not()
	for p.kw("and") {
		x, y := a, p.not()
		a = func(r row) (interface{}, error) {
			u, err := x(r)
			if err != nil {
				return nil, err
			}
			v, err := y(r)
			if err != nil {
				return nil, err
			}
			u, v = truth(u), truth(v)
			if u == false || v == false {
				return false, nil
			}
			if u == nil || v == nil {
				return nil, nil
			}
			return true, nil
		}
	}
	return a
}

func (p *parser) not() expr {
	if p.kw("not") {
		x := p.not()
		return func(r row) (interface{}, error) { v, err := x(r); return negate(truth(v)), err }
	}
	return p.rel()
}

func negate(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return !v.(bool)
}

func (p *parser) rel() expr {
	a := p.sum()
	for {
		neg := false
		switch {
		case p.kw("is"):
			neg = p.kw("not")
			p.want("null")
			x, n := a, neg
			a = func(r row) (interface{}, error) { v, err := x(r); return (v == nil) != n, err }
			continue
		case p.kw("not"):
			neg = true
			p.want("in")
			fallthrough
		case p.kw("in"):
			p.wantp('(')
			var l []expr
			consts := true
			for {
				if t := p.peek(); t.k != '?' && t.k != 'n' && t.k != 's' && !(t.k == 'i' && strings.EqualFold(t.s, "null")) {
					consts = false
				}
				l = append(l, p.or())
				if !p.is(',') {
					break
				}
			}
			p.wantp(')')
			x, n := a, neg
			if consts && len(l) > 8 {
				// evaluated once
				var nums = map[string]bool{}
				for _, y := range l {
					v, _ := y(nil)
					if v != nil {
						s, _ := text(v)
						nums[s] = true
					}
				}
				a = func(r row) (interface{}, error) {
					v, err := x(r)
					if err != nil || v == nil {
						return nil, err
					}
					s, _ := text(v)
					return nums[s] != n, nil
				}
				continue
			}
			a = func(r row) (interface{}, error) {
				v, err := x(r)
				if err != nil {
					return nil, err
				}
				var res interface{} = false
				for _, y := range l {
					w, err := y(r)
					if err != nil {
						return nil, err
					}
					c, ok := cmp(v, w)
					if !ok {
						if res == false {
							res = nil
						}
					} else if c == 0 {
						res = true
					}
				}
				if n {
					res = negate(res)
				}
				return res, nil
			}
			continue
		}
		t := p.peek()
		if t.k != 'o' {
			return a
		}
		p.p++
		x, y, op := a, p.sum(), t.s
		a = func(r row) (interface{}, error) {
			u, err := x(r)
			if err != nil {
				return nil, err
			}
			v, err := y(r)
			if err != nil {
				return nil, err
			}
			c, ok := cmp(u, v)
			if !ok {
				return nil, nil
			}
			switch op {
			case "=":
				return c == 0, nil
			case "<":
				return c < 0, nil
			case ">":
				return c > 0, nil
			case "<=":
				return c <= 0, nil
			case ">=":
				return c >= 0, nil
			}
			return c != 0, nil
		}
	}
}

func (p *parser) sum() expr {
	a := p.prim()
	for {
		t := p.peek()
		if t.k != '+' && t.k != '-' && t.k != '*' {
			return a
		}
		p.p++
		x, y := a, p.prim()
		a = func(r row) (interface{}, error) {
			u, err := x(r)
			if err != nil {
				return nil, err
			}
			v, err := y(r)
			if err != nil || u == nil || v == nil {
				return nil, err
			}
			us, _ := text(u)
			vs, _ := text(v)
			n, ok1 := new(big.Rat).SetString(us)
			m, ok2 := new(big.Rat).SetString(vs)
			if !ok1 || !ok2 {
				return nil, errors.New("Error 1292: Truncated incorrect DOUBLE value")
			}
			switch t.k {
			case '+':
				n.Add(n, m)
			case '-':
				n.Sub(n, m)
			default:
				n.Mul(n, m)
			}
			if n.IsInt() {
				return n.Num().String(), nil
			}
			f, _ := n.Float64()
			return f, nil
		}
	}
}

func (p *parser) prim() expr {
	t := p.peek()
	switch {
	case t.k == '(':
		p.p++
		e := p.or()
		if p.peek().k == ',' {
			panic(syntaxError("Error 1241: Operand should contain 1 column(s)"))
		}
		p.wantp(')')
		return e
	case t.k == '-':
		p.p++
		x := p.prim()
		return func(r row) (interface{}, error) {
			v, err := x(r)
			if err != nil || v == nil {
				return nil, err
			}
			s, _ := text(v)
			return "-" + s, nil
		}
	case t.k == '?':
		p.p++
		if p.used >= len(p.args) {
			panic(syntaxError("Error 1210: not enough arguments for the placeholders"))
		}
		v := p.args[p.used].Value
		p.used++
		return func(row) (interface{}, error) { return v, nil }
	case t.k == 'n' || t.k == 's':
		p.p++
		return func(row) (interface{}, error) { return t.s, nil }
	case t.k == 'i' && !t.q && strings.EqualFold(t.s, "null"):
		p.p++
		return func(row) (interface{}, error) { return nil, nil }
	case t.k == 'i' && !t.q && (strings.EqualFold(t.s, "true") || strings.EqualFold(t.s, "false")):
		p.p++
		return func(row) (interface{}, error) { return strings.EqualFold(t.s, "true"), nil }
	case t.k == 'i' && !t.q && strings.EqualFold(t.s, "case"):
		p.p++
		return p.kase()
	case t.k == 'i':
		c := p.column()
		return func(r row) (interface{}, error) { return r[c], nil }
	}
	p.bad("expression")
	return nil
}

func (p *parser) kase() expr {
	var subj expr
	if !(p.peek().k == 'i' && strings.EqualFold(p.peek().s, "when")) {
		subj = p.or()
	}
	type arm struct{ c, v expr }
	var arms []arm
	var els expr
	for p.kw("when") {
		c := p.or()
		p.want("then")
		arms = append(arms, arm{c, p.or()})
	}
	if len(arms) == 0 {
		p.bad("CASE without WHEN")
	}
	if p.kw("else") {
		els = p.or()
	}
	p.want("end")
	return func(r row) (interface{}, error) {
		var s interface{}
		if subj != nil {
			var err error
			if s, err = subj(r); err != nil {
				return nil, err
			}
		}
		for _, a := range arms {
			c, err := a.c(r)
			if err != nil {
				return nil, err
			}
			hit := false
			if subj != nil {
				n, ok := cmp(s, c)
				hit = ok && n == 0
			} else {
				hit = truth(c) == true
			}
			if hit {
				return a.v(r)
			}
		}
		if els != nil {
			return els(r)
		}
		return nil, nil
	}
}

type result struct{ id, n int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

// exec runs one statement; a failing one changes nothing.
func exec(tables map[string]*Table, q string, args []driver.NamedValue) (res result, err error) {
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(syntaxError)
			if !ok {
				panic(e)
			}
			err = errors.New(string(s))
		}
	}()
	l, err := lex(q)
	if err != nil {
		return res, err
	}
	for len(l) > 0 && l[len(l)-1].k == ';' {
		l = l[:len(l)-1]
	}
	p := &parser{l: l, args: args}
	ph := 0
	for _, t := range l {
		if t.k == '?' {
			ph++
		}
	}
	if ph != len(args) {
		return res, fmt.Errorf("sql: expected %d arguments, got %d", ph, len(args))
	}
	table := func() {
		p.name = p.ident()
		p.t = tables[p.name]
		if p.t == nil {
			panic(syntaxError("Error 1146: Table '" + p.name + "' doesn't exist"))
		}
	}
	where := func() expr {
		e := expr(nil)
		if p.kw("where") {
			e = p.or()
		}
		if p.p < len(p.l) {
			p.bad("end")
		}
		return e
	}
	match := func(w expr, r row) (bool, error) {
		if w == nil {
			return true, nil
		}
		v, err := w(r)
		return truth(v) == true, err
	}
	switch {
	case p.kw("insert"):
		p.want("into")
		table()
		var cols []Col
		p.wantp('(')
		if !p.is(')') {
			for {
				n := p.column()
				c, _ := p.t.col(n)
				for _, o := range cols {
					if o.Name == c.Name {
						return res, fmt.Errorf("Error 1110: Column '%s' specified twice", n)
					}
				}
				cols = append(cols, c)
				if !p.is(',') {
					break
				}
			}
			p.wantp(')')
		}
		if !p.kw("values") {
			p.want("value")
		}
		var rows []row
		ids := p.t.pk
		if ids == nil || len(ids) != len(p.t.Rows) {
			ids = map[string]bool{}
			for _, r := range p.t.Rows {
				ids[r["id"].(string)] = true
			}
		}
		auto := p.t.Auto
		fresh := []string{}
		undo := func(err error) (result, error) {
			for _, f := range fresh {
				delete(ids, f)
			}
			return result{}, err
		}
		defer func() {
			if e := recover(); e != nil {
				undo(nil)
				panic(e)
			}
		}()
		for {
			p.wantp('(')
			var vals []interface{}
			for p.peek().k != ')' {
				v, err := p.or()(row{})
				if err != nil {
					return undo(err)
				}
				vals = append(vals, v)
				if !p.is(',') {
					break
				}
			}
			p.wantp(')')
			if len(vals) != len(cols) {
				return undo(fmt.Errorf("Error 1136: Column count doesn't match value count at row %d", len(rows)+1))
			}
			r := row{}
			for _, c := range p.t.Cols {
				r[c.Name] = nil
			}
			for i, c := range cols {
				if r[c.Name], err = Conv(c, vals[i]); err != nil {
					return undo(err)
				}
			}
			if r["id"] == nil || r["id"] == "0" {
				r["id"] = strconv.FormatInt(auto, 10)
				if res.id == 0 {
					res.id = auto
				}
			}
			id := r["id"].(string)
			if n, _ := strconv.ParseInt(id, 10, 64); n >= auto {
				auto = n + 1
			}
			if ids[id] {
				return undo(fmt.Errorf("Error 1062: Duplicate entry '%s' for key 'PRIMARY'", id))
			}
			ids[id] = true
			fresh = append(fresh, id)
			rows = append(rows, r)
			if !p.is(',') {
				break
			}
		}
		if p.p < len(p.l) {
			p.bad("end")
		}
		p.t.Rows = append(p.t.Rows, rows...)
		p.t.Auto = auto
		p.t.pk = ids
		res.n = int64(len(rows))
		return res, nil
	case p.kw("update"):
		table()
		p.want("set")
		type asg struct {
			c Col
			e expr
		}
		var as []asg
		for {
			n := p.column()
			c, _ := p.t.col(n)
			if t := p.next(); t.k != 'o' || t.s != "=" {
				p.p--
				p.bad("expected =")
			}
			as = append(as, asg{c, p.or()})
			if !p.is(',') {
				break
			}
		}
		w := where()
		out := make([]row, len(p.t.Rows))
		ids := map[string]bool{}
		for i, r := range p.t.Rows {
			out[i] = r
			ok, err := match(w, r)
			if err != nil {
				return res, err
			}
			if ok {
				n := row{}
				for k, v := range r {
					n[k] = v
				}
				for _, a := range as { // left to right, as MySQL does
					v, err := a.e(n)
					if err != nil {
						return res, err
					}
					if n[a.c.Name], err = Conv(a.c, v); err != nil {
						return res, err
					}
				}
				for k := range n {
					if n[k] != r[k] {
						res.n++
						break
					}
				}
				out[i] = n
			}
			id, _ := out[i]["id"].(string)
			if id == "" || ids[id] {
				return result{}, fmt.Errorf("Error 1062: Duplicate entry '%s' for key 'PRIMARY'", id)
			}
			ids[id] = true
		}
		p.t.Rows = out
		p.t.pk = nil
		return res, nil
	case p.kw("delete"):
		p.want("from")
		table()
		w := where()
		var out []row
		for _, r := range p.t.Rows {
			ok, err := match(w, r)
			if err != nil {
				return res, err
			}
			if ok {
				res.n++
			} else {
				out = append(out, r)
			}
		}
		p.t.Rows = out
		p.t.pk = nil
		return res, nil
	}
	p.bad("statement")
	return
}

// ---- driver ----

type stmtRec struct {
	q    string
	args []driver.NamedValue
}

type conn struct {
	s   *holder
	in  bool
	own map[string]*Table
	rec []stmtRec
}

type holder struct{ st *Store }

func (h *holder) Connect(context.Context) (driver.Conn, error) { return &conn{s: h}, nil }
func (h *holder) Driver() driver.Driver                        { return nil }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error)             { return c.BeginTx(context.Background(), driver.TxOptions{}) }
func (c *conn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	st := c.s.st
	if st.FailTx == "begin" {
		return nil, errors.New(st.FailText)
	}
	st.Open++
	c.in, c.rec = true, nil
	c.own = map[string]*Table{}
	for n, t := range st.Tables {
		c.own[n] = t.clone()
	}
	return c, nil
}

func (c *conn) Commit() error {
	st := c.s.st
	st.Open--
	c.in = false
	if st.FailTx == "commit" {
		return errors.New(st.FailText)
	}
	for _, r := range c.rec {
		if _, err := exec(st.Tables, r.q, r.args); err != nil {
			return err
		}
	}
	st.Commits++
	return nil
}

func (c *conn) Rollback() error {
	c.s.st.Open--
	c.in = false
	return nil
}

// CheckNamedValue converts arguments as the MySQL driver does.
func (c *conn) CheckNamedValue(nv *driver.NamedValue) (err error) {
	if u, ok := nv.Value.(uint64); ok {
		nv.Value = u
		return nil
	}
	nv.Value, err = driver.DefaultParameterConverter.ConvertValue(nv.Value)
	return
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	st := c.s.st
	st.Execs++
	l := q
	if len(l) > 300 {
		l = l[:300] + "…"
	}
	st.Log = append(st.Log, l)
	if st.FailExec == st.Execs {
		return nil, errors.New(st.FailText)
	}
	if len(args) > st.MaxVars {
		return nil, errors.New("Error 1390: Prepared statement contains too many placeholders")
	}
	if st.Zero {
		return result{}, nil
	}
	if !c.in {
		r, err := exec(st.Tables, q, args)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	r, err := exec(c.own, q, args)
	if err != nil {
		return nil, err
	}
	c.rec = append(c.rec, stmtRec{q, append([]driver.NamedValue{}, args...)})
	return r, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	return nil, errors.New("the model database answers no queries: " + q)
}

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	var n []driver.NamedValue
	for i, v := range a {
		n = append(n, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return s.c.ExecContext(context.Background(), s.q, n)
}
func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) { return nil, io.EOF }

var pool *sql.DB
var cur = &holder{}

// DB is the connection pool of the process; Use tells which store it serves.
func DB() *sql.DB {
	if pool == nil {
		pool = sql.OpenDB(cur)
	}
	return pool
}

// Use makes st the database behind DB.
func Use(st *Store) { cur.st = st }

// SortedKeys of a map.
func SortedKeys(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
