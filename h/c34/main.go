// verif:rewrite gorm_tools tick,maps
package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
	"gorm.io/gorm"
)

type upd = map[int64]map[string]interface{}

var fields = []string{"name", "n", "note"}

// values of each field
var vals = map[string][]interface{}{
	"name": {"new", "", "q'uo`te? @x (?)", nil},
	"n":    {int64(5), 0, int64(math.MaxInt64), nil},
	"note": {"x", []byte("bytes"), true, 1.5},
}

func store(rows int) (*sqlx.Store, *sqlx.Table) {
	st := sqlx.NewStore()
	t := st.Add("t", sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n"}, sqlx.Col{Name: "note", Kind: sqlx.Text})
	for i := 1; i <= rows; i++ {
		t.Put(int64(i), fmt.Sprint("old", i), int64(100+i), fmt.Sprint("note", i))
	}
	o := st.Add("other", sqlx.Col{Name: "name", Kind: sqlx.Text})
	o.Put(int64(1), "untouched")
	sqlx.Use(st)
	return st, t
}

func update(split bool, db *gorm.DB, u upd) (err error) {
	name := "BatchUpdateTableFieldWithoutVersionByID"
	if split {
		name = "SplitUpdateTableFieldWithoutVersionByID"
	}
	rt.TraceS(name)
	p, msg := rt.Call(1<<40, func() {
		if split {
			err = gt.SplitUpdateTableFieldWithoutVersionByID(db, "t", u)
		} else {
			err = gt.BatchUpdateTableFieldWithoutVersionByID(db, "t", u)
		}
	})
	vh.Check(!p, "panic:"+name, "%s panicked: %s", name, msg)
	rt.Transition(1)
	rt.Tracef("  -> %v", err)
	return
}

// ref gives the table after the update
func ref(t *sqlx.Table, u upd) string {
	out := ""
	for _, r := range t.Rows {
		n := map[string]interface{}{}
		for k, v := range r {
			n[k] = v
		}
		for id, m := range u {
			if n["id"] == fmt.Sprint(id) {
				for k, v := range m {
					for _, c := range t.Cols {
						if c.Name == k {
							if x, ok := v.([]byte); ok {
								v = string(x)
							}
							w, err := sqlx.Conv(c, v)
							if err != nil {
								panic(err)
							}
							n[k] = w
						}
					}
				}
			}
		}
		out += t.DumpRow(n) + "\n"
	}
	return out
}

func show(u upd) string { return fmt.Sprint(u) }

// tables and columns of all kinds of names
func names() {
	split := rt.Choose(2) == 1
	a, b := sqlx.Names[rt.Choose(len(sqlx.Names))], sqlx.Names[rt.Choose(len(sqlx.Names))]
	table := []string{"t", a}[rt.Choose(2)]
	if a == b {
		return
	}
	st := sqlx.NewStore()
	t := st.Add(table, sqlx.Col{Name: a, Kind: sqlx.Text}, sqlx.Col{Name: b})
	for i := 1; i < 4; i++ {
		t.Put(int64(i), "old", int64(i))
	}
	sqlx.Use(st)
	rt.Tracef("table %s with columns %s and %s", table, a, b)
	u := upd{1: {a: "x", b: 7}, 3: {a: nil, b: 8}}
	want := ref(t, u)
	var err error
	vh.Do("update", func() {
		if split {
			err = gt.SplitUpdateTableFieldWithoutVersionByID(sqlx.Gorm(nil), table, u)
		} else {
			err = gt.BatchUpdateTableFieldWithoutVersionByID(sqlx.Gorm(nil), table, u)
		}
	})
	vh.Check(err == nil, "names", "updating the columns %s and %s of the table %s failed: %v", a, b, table, err)
	vh.Eq("names-rows", t.Dump(), want)
}

type level int8

func (l level) Value() (driver.Value, error) { return fmt.Sprintf("level %d", int(l)), nil }

type word string

// values of all kinds: the batch does what single updates of the rows do
func kindsOf() {
	i, str, tm := 7, "pointed", time.Date(2022, 2, 3, 4, 5, 6, 0, time.UTC)
	l := []interface{}{int8(-3), int16(4), int32(5), uint(6), uint8(7), uint16(8), uint32(9), uint64(10), uint64(1) << 62, float32(1.5), 2.25, &i, (*int)(nil), &str, (*string)(nil),
		sql.NullString{String: "s", Valid: true}, sql.NullString{}, sql.NullInt64{Int64: 11, Valid: true}, sql.NullInt64{}, sql.NullBool{Bool: true, Valid: true}, sql.NullFloat64{Float64: 0.5, Valid: true},
		tm, &tm, level(3), word("named"), true, false, []byte("b"), json.RawMessage("{}"), json.Number("12"), gorm.Expr("n + ?", 1), gorm.Expr("null"), nil, "", 0, "n + 1"}
	v, w := l[rt.Choose(len(l))], l[rt.Choose(len(l))]
	field := []string{"note", "n"}[rt.Choose(2)]
	_, t := store(3)
	db := sqlx.Gorm(nil)
	a := gt.UpdateByTableNameAndId("t", 1, map[string]interface{}{field: v}, db)
	b := gt.UpdateByTableNameAndId("t", 3, map[string]interface{}{field: w}, db)
	if a != nil || b != nil { // not a value for this column
		return
	}
	want := t.Dump()
	_, t = store(3)
	err := update(rt.Choose(2) == 1, db, upd{1: {field: v}, 3: {field: w}})
	vh.Check(err == nil, "kinds", "setting %s to %T %v and %T %v failed: %v", field, v, v, w, w, err)
	vh.Eq("kinds-rows", t.Dump(), want)
}

// every update of up to three of four ids (one of them absent), equal or unequal fields, every map order
func small(orders bool) func() {
	return func() {
		split := rt.Choose(2) == 1
		_, t := store(3)
		before := t.Dump()
		u := upd{}
		equal := true
		var first []string
		for i := 0; i < 3; i++ {
			id := []int64{2, 1, 99, 3}[i]
			if i == 1 {
				id = []int64{1, 3}[rt.Choose(2)]
			}
			k := rt.Choose(9) // absent, or a set of fields
			if k == 0 {
				continue
			}
			m := map[string]interface{}{}
			var set []string
			for b, f := range fields {
				if (k-1)&(1<<uint(b)) != 0 {
					x := i
					if !orders && i == 0 {
						x = rt.Choose(4)
					}
					m[f] = vals[f][(x+b)%4]
					set = append(set, f)
				}
			}
			if len(u) == 0 {
				first = set
			} else if strings.Join(first, ",") != strings.Join(set, ",") {
				equal = false
			}
			u[id] = m
		}
		if len(u) < 2 && orders && rt.Choose(2) == 0 {
			rt.Prune()
		}
		want := ref(t, u)
		sh := show(u)
		rt.Tracef("update %s", sh)
		if orders {
			rt.MapOrders = 4
			defer func() { rt.MapOrders = 0 }()
		}
		err := update(split, sqlx.Gorm(nil), u)
		vh.Check(show(u) == sh, "argument", "the update map was changed from %s to %s", sh, show(u))
		got := t.Dump()
		switch {
		case len(u) == 0:
			vh.Check(err == nil && got == before, "empty", "an empty update gives %v and %s", err, got)
		case equal && len(first) > 0:
			vh.Check(err == nil, "error", "the update %s failed: %v", sh, err)
			vh.Eq("rows", got, want)
		case err != nil:
			vh.Eq("refused-effect", got, before)
		default: // whatever is accepted is done
			vh.Check(got == want, "lost", "the update %s is accepted but gives\n%swant\n%s", sh, got, want)
		}
	}
}

// maps around the chunk size
func sizes() {
	N := []int{1, 2, 499, 500, 501, 999, 1000, 1001, 1499, 1500, 1501, 2000}[rt.Choose(vh.D(11, 12))]
	nf := 1 + rt.Choose(3)
	kind := rt.Choose(3) // ids: all present; every second; from a distance
	rows := N
	if kind == 1 {
		rows = 2 * N
	}
	_, t := store(rows)
	u := upd{}
	for i := 1; i <= N; i++ {
		id := int64(i)
		switch kind {
		case 1:
			id = int64(2 * i)
		case 2:
			id = int64(i + N/2) // half of them are absent
		}
		u[id] = map[string]interface{}{"name": fmt.Sprint("new", i), "n": i * 7, "note": nil}
		for _, f := range fields[nf:] {
			delete(u[id], f)
		}
	}
	tx := rt.Choose(2) == 1
	if rt.Choose(2) == 1 {
		rt.MapOrders = 1
		defer func() { rt.MapOrders = 0 }()
	}
	db := sqlx.Gorm(nil)
	rt.Tracef("%d ids, %d fields, kind %d", N, nf, kind)
	var err error
	if tx {
		db.Transaction(func(x *gorm.DB) error { err = update(true, x, u); return err })
	} else {
		err = update(true, db, u)
	}
	vh.Check(err == nil, "error", "the update failed: %v", err)
	for i, r := range t.Rows {
		id := int64(i + 1)
		wn, wv, wo := fmt.Sprint("old", id), fmt.Sprint(100+id), interface{}(fmt.Sprint("note", id))
		if m, ok := u[id]; ok {
			wn = m["name"].(string)
			if nf > 1 {
				wv = fmt.Sprint(m["n"])
			}
			if nf > 2 {
				wo = nil
			}
		}
		vh.Check(r["id"] == fmt.Sprint(id) && r["name"] == wn && r["n"] == wv && r["note"] == wo, "rows", "row %d is %s", id, t.DumpRow(r))
	}
}

// ids of every size: ids agreeing in their low bits or as floating point numbers name different rows
func wide() {
	ids := []int64{0, 1, -1, 1<<31 + 1, -1 << 31, 1<<32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	split := rt.Choose(2) == 1
	_, t := store(0)
	for _, id := range ids {
		t.Put(id, "old", int64(7), "note")
	}
	u := upd{}
	for i := 0; i < 3; i++ {
		id := ids[rt.Choose(len(ids))]
		u[id] = map[string]interface{}{"name": fmt.Sprint("new", i), "n": id}
	}
	want := ref(t, u)
	rt.Tracef("update %s", show(u))
	err := update(split, sqlx.Gorm(nil), u)
	vh.Check(err == nil, "error", "the update failed: %v", err)
	vh.Eq("rows", t.Dump(), want)
}

// many columns at a time: a statement has at most 65535 placeholders
func columns() {
	c := [][2]int{{64, 500}, {65, 500}, {66, 500}, {70, 500}, {70, 501}, {130, 250}, {130, 300}, {255, 140}, {1000, 33}, {1000, 40}, {4000, 8}, {4000, 9}}[rt.Choose(12)]
	width, n := c[0], c[1]
	st := sqlx.NewStore()
	var cols []sqlx.Col
	var old []interface{}
	for i := 0; i < width; i++ {
		cols = append(cols, sqlx.Col{Name: fmt.Sprint("c", i)})
		old = append(old, int64(7))
	}
	t := st.Add("t", cols...)
	u := upd{}
	for i := 1; i <= n+1; i++ {
		t.Put(append([]interface{}{int64(i)}, old...)...)
		if i <= n {
			m := map[string]interface{}{}
			for k := 0; k < width; k++ {
				m[fmt.Sprint("c", k)] = int64(i*10000 + k)
			}
			u[int64(i)] = m
		}
	}
	sqlx.Use(st)
	rt.Tracef("%d columns of %d ids", width, n)
	err := update(true, sqlx.Gorm(nil), u)
	vh.Check(err == nil, "error", "the update of %d columns of %d ids failed: %.200v", width, n, err)
	for i, r := range t.Rows {
		for k := 0; k < width; k++ {
			want := int64((i+1)*10000 + k)
			if i == n {
				want = 7
			}
			vh.Check(r[fmt.Sprint("c", k)] == fmt.Sprint(want), "rows", "c%d of id %d is %v", k, i+1, r[fmt.Sprint("c", k)])
		}
	}
}

// failing statements and transactions
func faults() {
	split := rt.Choose(2) == 1
	tx := rt.Choose(2) == 1
	N := []int{1, 3, 500, 501, 1001}[rt.Choose(5)]
	if !split && N > 500 {
		rt.Prune()
	}
	st, t := store(N + 1)
	u := upd{}
	for i := 1; i <= N; i++ {
		u[int64(i)] = map[string]interface{}{"name": fmt.Sprint("new", i), "n": i}
	}
	mode := rt.Choose(3)
	fails := true
	switch mode {
	case 0:
		fails = false
	case 1:
		st.FailExec = 1 + rt.Choose((N-1)/500+1)
	case 2: // a value the column refuses
		u[int64([]int{1, N/2 + 1, N}[rt.Choose(3)])]["n"] = "no number"
	}
	before := t.Dump()
	db := sqlx.Gorm(nil)
	rt.Tracef("%d ids, transaction %v, mode %d at %d", N, tx, mode, st.FailExec)
	var err error
	if tx {
		cause := errors.New("rolled back")
		e := db.Transaction(func(x *gorm.DB) error {
			if err = update(split, x, u); err != nil {
				return cause
			}
			return nil
		})
		vh.Check((e == cause) == (err != nil), "transaction", "the transaction ended with %v after %v", e, err)
	} else {
		err = update(split, db, u)
	}
	vh.Check(st.Open == 0, "transaction", "%d transactions are left open", st.Open)
	vh.Check((err != nil) == fails, "error", "the result is %v", err)
	if mode == 1 {
		vh.Check(strings.Contains(err.Error(), st.FailText), "cause", "the error %q does not tell the cause", err)
	}
	if fails && (tx || N <= 500) {
		vh.Eq("partial", t.Dump(), before)
	}
	changed := 0
	for i, r := range t.Rows {
		id := i + 1
		switch {
		case r["name"] == fmt.Sprint("new", id) && r["n"] == fmt.Sprint(id) && id <= N:
			changed++
		case r["name"] == fmt.Sprint("old", id) && r["n"] == fmt.Sprint(100+id):
		default:
			rt.Fail("torn", "row %d is %s", id, t.DumpRow(r))
		}
	}
	vh.Check(fails == (changed < N), "count", "%d of %d rows are updated, the result is %v", changed, N, err)
	st.FailExec = 0
	err = update(split, db, upd{int64(N + 1): {"note": "after"}})
	vh.Check(err == nil, "handle", "a later update failed: %v", err)
	r := t.Rows[N]
	vh.Check(r["note"] == "after" && r["name"] == fmt.Sprint("old", N+1), "handle", "a later update gives %s", t.DumpRow(r))
}

func main() {
	vh.Main("C34", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "names", Split: 2, Body: names},
			{Name: "kinds", Split: 2, Body: kindsOf},
			{Name: "values", Split: 3, Body: small(false)},
			{Name: "orders", Split: 3, Bound: 3, BoundT: 8, Body: small(true)},
			{Name: "columns", Split: 1, Body: columns},
			{Name: "wide", Split: 2, Body: wide},
			{Name: "faults", Split: 4, Body: faults},
			{Name: "sizes", Split: 3, Body: sizes},
		}
	})
}
