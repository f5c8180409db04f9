// verif:rewrite gorm_tools tick,conc,maps
package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
	"gorm.io/gorm"
)

type model struct {
	gt.BaseModel
	Name string
	N    int64
}

type plain struct {
	Id   int64
	Name string
	N    *int64
}

func store() (*sqlx.Store, *sqlx.Table) {
	st := sqlx.NewStore()
	t := st.Add("t", sqlx.Col{Name: "created_at"}, sqlx.Col{Name: "updated_at"}, sqlx.Col{Name: "deleted_at"}, sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n"})
	t.Put(int64(1), int64(10), int64(10), int64(0), "a", int64(5))
	t.Put(int64(2), int64(10), int64(10), int64(0), "b", int64(0))
	t.Put(int64(3), int64(10), int64(10), int64(7), "a", nil)
	t.Put(int64(11), int64(10), int64(10), int64(0), "", int64(5))
	o := st.Add("other", sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n"}, sqlx.Col{Name: "updated_at"}, sqlx.Col{Name: "deleted_at"})
	o.Put(int64(1), "a", int64(5), int64(0), int64(0))
	sqlx.Use(st)
	return st, t
}

type row = map[string]interface{}
type db = []row // the reference: rows with text values

func snap(t *sqlx.Table) db {
	var d db
	for _, r := range t.Rows {
		n := row{}
		for k, v := range r {
			n[k] = v
		}
		d = append(d, n)
	}
	return d
}

func dump(t *sqlx.Table, d db) string {
	s := ""
	for _, r := range d {
		s += t.DumpRow(r) + "\n"
	}
	return s
}

func has(ids []int64, r row) bool {
	for _, id := range ids {
		if r["id"] == fmt.Sprint(id) {
			return true
		}
	}
	return false
}

func txt(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return "1"
		}
		return "0"
	}
	return fmt.Sprint(v)
}

func set(d db, match func(row) bool, u row) {
	for _, r := range d {
		if match(r) {
			for k, v := range u {
				if v == "n+1" {
					if r[k] != nil {
						var n int64
						fmt.Sscan(r[k].(string), &n)
						r[k] = fmt.Sprint(n + 1)
					}
					continue
				}
				r[k] = txt(v)
			}
		}
	}
}

type op struct {
	name string
	run  func(h *gorm.DB) error
	ref  func(t *sqlx.Table, d db) (db, bool) // the rows afterwards, and whether it is accepted
	post func(d db)
}

func now() int64 { return (rt.BaseTime + rt.Now()) / 1e9 }

func arg(u row) map[string]interface{} {
	c := map[string]interface{}{}
	for k, v := range u {
		c[k] = v
		if v == "n+1" {
			c[k] = gorm.Expr("n + ?", 1)
		}
	}
	return c
}

var updates = []row{
	{"name": "new"},
	{"name": "", "n": int64(0)},
	{"n": nil},
	{"n": "n+1", "name": "q'u`?o @x"},
	{},
}

var idsets = [][]int64{{1}, {3, 1}, {}, nil, {99}, {2, 99, 2}, {1, 2, 3, 11}, {-1, 0}}

type cond struct {
	w  map[string]interface{}
	ok func(row) bool
}

var conds = []cond{
	{map[string]interface{}{"name": "a"}, func(r row) bool { return r["name"] == "a" }},
	{map[string]interface{}{"name": "a", "n": 5}, func(r row) bool { return r["name"] == "a" && r["n"] == "5" }},
	{map[string]interface{}{"id": []int64{1, 2, 77}}, func(r row) bool { return has([]int64{1, 2}, r) }},
	{map[string]interface{}{"n": nil}, func(r row) bool { return r["n"] == nil }},
	{map[string]interface{}{"name": ""}, func(r row) bool { return r["name"] == "" }},
	{map[string]interface{}{"name": "x' or '1'='1"}, func(r row) bool { return false }},
	{map[string]interface{}{"id": []int64{}}, func(r row) bool { return false }},
	{map[string]interface{}{"deleted_at": 0, "id": 3}, func(r row) bool { return r["deleted_at"] == "0" && r["id"] == "3" }},
}

// tables and columns of all kinds of names
func names() {
	a := sqlx.Names[rt.Choose(len(sqlx.Names))]
	table := []string{"t", a}[rt.Choose(2)]
	if strings.Contains(table, " ") {
		table = "t" // gorm takes such a name as an expression
	}
	st := sqlx.NewStore()
	t := st.Add(table, sqlx.Col{Name: a, Kind: sqlx.Text}, sqlx.Col{Name: "updated_at"}, sqlx.Col{Name: "deleted_at"})
	for i := int64(1); i < 4; i++ {
		t.Put(i, "old", int64(0), int64(0))
	}
	sqlx.Use(st)
	rt.Tracef("table %s with column %s", table, a)
	h := sqlx.Gorm(nil)
	want := func(what string, err error, rows ...[]interface{}) {
		vh.Check(err == nil, "names", "%s on table %s, column %s: %v", what, table, a, err)
		d := ""
		for _, r := range rows {
			c := row{"id": txt(r[0]), a: txt(r[1]), "updated_at": txt(r[2]), "deleted_at": txt(r[2])}
			d += t.DumpRow(c) + "\n"
		}
		vh.Eq("names-rows", t.Dump(), d)
	}
	do := func(f func() error) (err error) {
		vh.Do("row operation", func() { err = f() })
		return
	}
	old := func(i int) []interface{} { return []interface{}{i, "old", 0} }
	want("UpdateByTableNameAndId", do(func() error { return gt.UpdateByTableNameAndId(table, 2, map[string]interface{}{a: "x"}, h) }), old(1), []interface{}{2, "x", 0}, old(3))
	want("UpdateByTableNameAndWhere", do(func() error {
		return gt.UpdateByTableNameAndWhere(table, map[string]interface{}{a: "x"}, map[string]interface{}{a: "y"}, h)
	}), old(1), []interface{}{2, "y", 0}, old(3))
	want("UpdateByTableNameAndIds", do(func() error {
		return gt.UpdateByTableNameAndIds(table, []int64{1, 2}, map[string]interface{}{a: "z"}, h)
	}), []interface{}{1, "z", 0}, []interface{}{2, "z", 0}, old(3))
	want("InsertToTable", do(func() error {
		return gt.InsertToTable(table, map[string]interface{}{"id": 9, a: "new", "updated_at": 0, "deleted_at": 0}, h)
	}), []interface{}{1, "z", 0}, []interface{}{2, "z", 0}, old(3), []interface{}{9, "new", 0})
	want("DelByTableNameAndId", do(func() error { return gt.DelByTableNameAndId(table, []int64{1, 3}, h) }), []interface{}{2, "z", 0}, []interface{}{9, "new", 0})
	want("SoftDelByTableNameAndId", do(func() error { return gt.SoftDelByTableNameAndId(table, 9, h) }), []interface{}{2, "z", 0}, []interface{}{9, "new", now()})
	// the id itself is a value like any other
	u, w := map[string]interface{}{"id": 12, a: "w"}, map[string]interface{}{a: "w"}
	want("UpdateByTableNameAndId of the id", do(func() error { return gt.UpdateByTableNameAndId(table, 9, u, h) }), []interface{}{2, "z", 0}, []interface{}{12, "w", now()})
	vh.Check(len(u) == 2 && u["id"] == 12 && u[a] == "w", "arguments", "the values given to the update are now %v", u)
	u = map[string]interface{}{"id": 13, a: "v"}
	want("UpdateByTableNameAndWhere of the id", do(func() error { return gt.UpdateByTableNameAndWhere(table, w, u, h) }), []interface{}{2, "z", 0}, []interface{}{13, "v", now()})
	vh.Check(len(u) == 2 && u["id"] == 13 && u[a] == "v" && len(w) == 1, "arguments", "the values given to the update are now %v, the condition %v", u, w)
	u = map[string]interface{}{"id": 14}
	want("UpdateByTableNameAndIds of the id", do(func() error { return gt.UpdateByTableNameAndIds(table, []int64{13, 99}, u, h) }), []interface{}{2, "z", 0}, []interface{}{14, "v", now()})
	vh.Check(len(u) == 1 && u["id"] == 14, "arguments", "the values given to the update are now %v", u)
}

func ops() []op {
	var l []op
	for _, ids := range idsets {
		ids := ids
		l = append(l, op{name: fmt.Sprintf("DelByTableNameAndId(%v)", ids),
			run: func(h *gorm.DB) error { return gt.DelByTableNameAndId("t", append([]int64{}, ids...), h) },
			ref: func(t *sqlx.Table, d db) (db, bool) {
				var o db
				for _, r := range d {
					if !has(ids, r) {
						o = append(o, r)
					}
				}
				return o, true
			}})
	}
	for ui, u := range updates {
		u := u
		for _, id := range []int64{1, 3, 11, 99} {
			id := id
			if ui > 1 && id == 11 {
				continue
			}
			l = append(l, op{name: fmt.Sprintf("UpdateByTableNameAndId(%d,%v)", id, u),
				run: func(h *gorm.DB) error { return gt.UpdateByTableNameAndId("t", id, arg(u), h) },
				ref: func(t *sqlx.Table, d db) (db, bool) {
					set(d, func(r row) bool { return has([]int64{id}, r) }, u)
					return d, true
				}})
		}
		for k, ids := range idsets {
			ids := ids
			if ui > 1 && k > 2 {
				continue
			}
			l = append(l, op{name: fmt.Sprintf("UpdateByTableNameAndIds(%v,%v)", ids, u),
				run: func(h *gorm.DB) error { return gt.UpdateByTableNameAndIds("t", append([]int64{}, ids...), arg(u), h) },
				ref: func(t *sqlx.Table, d db) (db, bool) {
					set(d, func(r row) bool { return has(ids, r) }, u)
					return d, true
				}})
		}
		for k, c := range conds {
			c := c
			if ui > 1 && k > 2 {
				continue
			}
			l = append(l, op{name: fmt.Sprintf("UpdateByTableNameAndWhere(%v,%v)", c.w, u),
				run: func(h *gorm.DB) error { return gt.UpdateByTableNameAndWhere("t", c.w, arg(u), h) },
				ref: func(t *sqlx.Table, d db) (db, bool) {
					set(d, c.ok, u)
					return d, true
				}})
		}
	}
	for _, w := range []map[string]interface{}{nil, {}} {
		w := w
		l = append(l, op{name: "UpdateByTableNameAndWhere(no condition)",
			run: func(h *gorm.DB) error {
				return gt.UpdateByTableNameAndWhere("t", w, map[string]interface{}{"name": "all"}, h)
			},
			ref: func(t *sqlx.Table, d db) (db, bool) { return d, false }})
	}
	for _, id := range []int64{1, 2, 3, 99} {
		id := id
		l = append(l, op{name: fmt.Sprintf("SoftDelByTableNameAndId(%d)", id),
			run: func(h *gorm.DB) error { return gt.SoftDelByTableNameAndId("t", id, h) },
			ref: func(t *sqlx.Table, d db) (db, bool) {
				set(d, func(r row) bool { return has([]int64{id}, r) }, row{"updated_at": now(), "deleted_at": now()})
				return d, true
			}})
	}
	// inserts
	add := func(name string, mk func() interface{}, rows func() []row, post func(v interface{}, d db)) {
		var v interface{}
		l = append(l, op{name: "InsertToTable(" + name + ")",
			run: func(h *gorm.DB) error { v = mk(); return gt.InsertToTable("t", v, h) },
			ref: func(t *sqlx.Table, d db) (db, bool) {
				o := append(db{}, d...)
				for _, r := range rows() {
					n := row{}
					for _, c := range t.Cols {
						n[c.Name] = txt(r[c.Name])
					}
					if n["id"] == nil || n["id"] == "0" {
						n["id"] = "auto"
					}
					for _, x := range o {
						if x["id"] == n["id"] && n["id"] != "auto" {
							return d, false
						}
					}
					o = append(o, n)
				}
				return o, true
			},
			post: func(d db) {
				if post != nil {
					post(v, d)
				}
			}})
	}
	add("model", func() interface{} { return &model{Name: "m", N: 9} }, func() []row {
		return []row{{"created_at": now(), "updated_at": now(), "deleted_at": 0, "name": "m", "n": 9}}
	}, func(v interface{}, d db) {
		vh.Eq("inserted-id", fmt.Sprint(v.(*model).Id), d[len(d)-1]["id"])
	})
	add("model with id", func() interface{} { return &model{BaseModel: gt.BaseModel{Id: 2}, Name: "q'`?"} }, func() []row {
		return []row{{"id": 2, "created_at": now(), "updated_at": now(), "deleted_at": 0, "name": "q'`?", "n": 0}}
	}, nil)
	add("plain with id", func() interface{} { return &plain{Id: 20, Name: "p"} }, func() []row {
		return []row{{"id": 20, "name": "p", "n": nil}}
	}, nil)
	add("slice", func() interface{} { return []*plain{{Id: 21, Name: "s1"}, {Id: 22, Name: "s2"}, {Id: 23, Name: "s3"}} }, func() []row {
		return []row{{"id": 21, "name": "s1"}, {"id": 22, "name": "s2"}, {"id": 23, "name": "s3"}}
	}, nil)
	add("slice with a duplicate", func() interface{} { return []*plain{{Id: 24, Name: "s1"}, {Id: 2, Name: "s2"}} }, func() []row {
		return []row{{"id": 24, "name": "s1"}, {"id": 2, "name": "s2"}}
	}, nil)
	add("map", func() interface{} { return map[string]interface{}{"id": 30, "name": "map", "n": nil} }, func() []row {
		return []row{{"id": 30, "name": "map"}}
	}, nil)
	add("maps", func() interface{} {
		return []map[string]interface{}{{"id": 31, "name": "m1"}, {"id": 32, "name": "m2"}}
	}, func() []row {
		return []row{{"id": 31, "name": "m1"}, {"id": 32, "name": "m2"}}
	}, nil)
	return l
}

func handle(skip bool) *gorm.DB {
	return sqlx.Gorm(&gorm.Config{SkipDefaultTransaction: skip, NowFunc: func() time.Time { return time.Unix(0, rt.BaseTime+rt.Now()) }})
}

// step runs one operation and compares.
func step(h *gorm.DB, st *sqlx.Store, t func() *sqlx.Table, o op, fault bool) {
	d := snap(t())
	before := dump(t(), d)
	other := st.Tables["other"].Dump()
	rt.AdvanceClock(1500 * 1000 * 1000)
	var err error
	rt.TraceS(o.name)
	vh.Do(o.name, func() { err = o.run(h) })
	rt.Tracef("  -> %v", err)
	want, ok := o.ref(t(), d)
	if fault {
		if err == nil { // the fault was not reached: no statement was needed
			vh.Check(dump(t(), want) == before, "error-lost", "%s met a failure, changed nothing and reports success", o.name)
		}
		vh.Check(t().Dump() == before, "failed-effect", "%s failed but changed the table to\n%s", o.name, t().Dump())
		return
	}
	got := snap(t())
	for i, r := range want {
		if r["id"] == "auto" && i < len(got) {
			r["id"] = got[i]["id"]
			for j := range got {
				vh.Check(j == i || got[j]["id"] != r["id"], "auto-id", "two rows have the id %v", r["id"])
			}
		}
	}
	vh.Check((err == nil) == ok, "result", "%s returns %v", o.name, err)
	w := before
	if ok {
		w = dump(t(), want)
		if o.post != nil {
			o.post(want)
		}
	}
	vh.Check(t().Dump() == w, "rows", "%s gives\n%swant\n%s", o.name, t().Dump(), w)
	vh.Check(st.Tables["other"].Dump() == other, "other", "%s changed another table", o.name)
	vh.Check(st.Open == 0, "transaction", "%s leaves a transaction open", o.name)
}

func sequences(n int, last func([]op) []op) func() {
	return func() {
		l := ops()
		rt.SetClock(250 * 1000 * 1000)
		st, t := store()
		h := handle(rt.Choose(2) == 1)
		for i := 0; i < n; i++ {
			x := l
			if last != nil {
				x = last(l)
			}
			step(h, st, func() *sqlx.Table { return t }, x[rt.Choose(len(x))], false)
		}
	}
}

// a few of each kind
func few(l []op) []op {
	var o []op
	seen := map[string]int{}
	for _, x := range l {
		k := x.name[:strings.Index(x.name, "(")]
		seen[k]++
		if seen[k] <= 4 && seen[k] != 3 {
			o = append(o, x)
		}
	}
	return o
}

// every operation under every failure of the database
func faults() {
	l := ops()
	o := l[rt.Choose(len(l))]
	st, t := store()
	skip := rt.Choose(2) == 1
	h := handle(skip)
	switch k := rt.Choose(3); k {
	case 0:
		st.FailExec = 1
		st.FailText = []string{"Error 1205: Lock wait timeout exceeded", "record not found", "Duplicate entry"}[rt.Choose(3)]
	case 1, 2:
		if skip {
			rt.Prune()
		}
		st.FailTx = []string{"", "begin", "commit"}[k]
	}
	rt.Tracef("failure: statement %d, %s", st.FailExec, st.FailTx)
	step(h, st, func() *sqlx.Table { return t }, o, true)
	vh.Check(st.Open == 0, "transaction", "%s leaves a transaction open", o.name)
	st.FailExec, st.FailTx = 0, ""
	step(h, st, func() *sqlx.Table { return t }, l[rt.Choose(5)*13%len(l)], false)
}

// the operations take part in the caller's transaction
func transactions() {
	l := ops()
	st, t := store()
	before := t.Dump()
	other := st.Tables["other"].Dump()
	h := handle(false)
	f := few(l)
	a, b := l[rt.Choose(len(l))], f[rt.Choose(len(f))]
	back := rt.Choose(2) == 1
	d := snap(t)
	rt.Tracef("transaction: %s; %s; rolled back %v", a.name, b.name, back)
	ok := true
	cause := errors.New("rolled back")
	vh.Do("Transaction", func() {
		h.Transaction(func(x *gorm.DB) error {
			for _, o := range []op{a, b} {
				err := o.run(x)
				var k bool
				d, k = o.ref(t, d)
				ok = ok && k
				vh.Check((err == nil) == k, "result", "%s returns %v in a transaction", o.name, err)
				if err != nil {
					return err
				}
			}
			vh.Check(t.Dump() == before, "outside", "an operation inside a transaction is visible before its end:\n%s", t.Dump())
			if back {
				return cause
			}
			return nil
		})
	})
	vh.Check(st.Open == 0, "transaction", "a transaction is left open")
	if back || !ok {
		vh.Eq("rolled-back", t.Dump(), before)
	} else {
		got := snap(t)
		for i, r := range d {
			if r["id"] == "auto" && i < len(got) {
				r["id"] = got[i]["id"]
			}
		}
		vh.Check(t.Dump() == dump(t, d), "rows", "the transaction gives\n%swant\n%s", t.Dump(), dump(t, d))
	}
	vh.Eq("other", st.Tables["other"].Dump(), other)
}

// ids of every size: rows whose ids agree in their low 32 bits, or as floating point numbers, are different rows
var wide = []int64{0, 1, -1, 1 << 31, 1<<31 + 1, -1 << 31, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

func wideStore() (*sqlx.Store, *sqlx.Table) {
	st, t := store()
	t.Rows = nil
	for _, id := range wide {
		t.Put(id, int64(10), int64(10), int64(0), "w", id)
	}
	return st, t
}

func wideIds() {
	st, t := wideStore()
	h := handle(rt.Choose(2) == 1)
	k := rt.Choose(5)
	a := wide[rt.Choose(len(wide))]
	ids := []int64{a}
	if k > 2 {
		if b := wide[rt.Choose(len(wide))]; b != a {
			ids = append(ids, b)
		}
	}
	u := row{"name": "new", "n": a}
	match := func(r row) bool { return has(ids, r) }
	ref := func(t *sqlx.Table, d db) (db, bool) { set(d, match, u); return d, true }
	var o op
	switch k {
	case 0:
		o = op{name: fmt.Sprintf("UpdateByTableNameAndId(%d)", a), ref: ref, run: func(h *gorm.DB) error { return gt.UpdateByTableNameAndId("t", a, arg(u), h) }}
	case 1:
		o = op{name: fmt.Sprintf("SoftDelByTableNameAndId(%d)", a), run: func(h *gorm.DB) error { return gt.SoftDelByTableNameAndId("t", a, h) },
			ref: func(t *sqlx.Table, d db) (db, bool) {
				set(d, match, row{"updated_at": now(), "deleted_at": now()})
				return d, true
			}}
	case 2:
		o = op{name: fmt.Sprintf("UpdateByTableNameAndWhere(id=%d)", a), ref: ref, run: func(h *gorm.DB) error {
			return gt.UpdateByTableNameAndWhere("t", map[string]interface{}{"id": a}, arg(u), h)
		}}
	case 3:
		o = op{name: fmt.Sprintf("UpdateByTableNameAndIds(%d)", ids), ref: ref, run: func(h *gorm.DB) error {
			return gt.UpdateByTableNameAndIds("t", append([]int64{}, ids...), arg(u), h)
		}}
	case 4:
		o = op{name: fmt.Sprintf("DelByTableNameAndId(%d)", ids), run: func(h *gorm.DB) error { return gt.DelByTableNameAndId("t", append([]int64{}, ids...), h) },
			ref: func(t *sqlx.Table, d db) (db, bool) {
				var n db
				for _, r := range d {
					if !match(r) {
						n = append(n, r)
					}
				}
				return n, true
			}}
	}
	step(h, st, func() *sqlx.Table { return t }, o, false)
}

// lists of many ids, as far as one statement's placeholders go
func many() {
	n := []int{999, 1000, 1001, 2100, 4097, 33000, 65000}[rt.Choose(vh.D(5, 7))]
	kind := rt.Choose(4) // the rows named: all, first, last, every third
	del := rt.Choose(2) == 1
	tx := rt.Choose(2) == 1
	st, t := store()
	t.Rows = nil
	var ids []int64
	want := map[string]bool{}
	for i := 1; i <= n; i++ {
		ids = append(ids, int64(3*i))
	}
	for i, id := range ids {
		if kind == 0 || kind == 1 && i == 0 || kind == 2 && i == n-1 || kind == 3 && i%3 == 0 {
			t.Put(id, int64(10), int64(10), int64(0), "a", int64(5))
			want[fmt.Sprint(id)] = true
		}
		if i%500 == 7 {
			t.Put(id+1, int64(10), int64(10), int64(0), "a", int64(5))
		}
	}
	total := len(t.Rows)
	h := handle(false)
	run := func(h *gorm.DB) (err error) {
		arg := append([]int64{}, ids...)
		vh.Do("many ids", func() {
			if del {
				err = gt.DelByTableNameAndId("t", arg, h)
			} else {
				err = gt.UpdateByTableNameAndIds("t", arg, map[string]interface{}{"name": "new"}, h)
			}
		})
		return
	}
	rt.Tracef("%d ids, rows %d, delete %v, transaction %v", n, kind, del, tx)
	var err error
	if tx {
		h.Transaction(func(x *gorm.DB) error { err = run(x); return err })
	} else {
		err = run(h)
	}
	vh.Check(err == nil, "result", "an operation on %d ids returns %v", n, err)
	if del {
		vh.Check(len(t.Rows) == total-len(want), "rows", "deleting %d rows by %d ids leaves %d of %d", len(want), n, len(t.Rows), total)
	}
	for _, r := range t.Rows {
		id := r["id"].(string)
		vh.Check(!(del && want[id]) && (r["name"] == "new") == (want[id] && !del), "rows", "row %s is %v", id, t.DumpRow(r))
	}
	vh.Check(st.Open == 0, "transaction", "a transaction is left open")
}

func main() {
	vh.Main("C35", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "names", Split: 1, Body: names},
			{Name: "two", Split: 2, Body: sequences(2, nil)},
			{Name: "three-few", Split: 2, Body: sequences(3, few)},
			{Name: "three", Thorough: true, Split: 2, Body: sequences(3, nil)},
			{Name: "four", Thorough: true, Split: 2, Body: sequences(4, few)},
			{Name: "wide", Split: 2, Body: wideIds},
			{Name: "many", Split: 2, Body: many},
			{Name: "faults", Split: 2, Body: faults},
			{Name: "transactions", Split: 2, Body: transactions},
		}
	})
}
