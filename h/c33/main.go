// verif:rewrite gorm_tools tick,maps
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"

	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
	"gorm.io/gorm"
)

type full struct {
	Id   int64   `json:"id"`
	Name string  `json:"name"`
	N    int64   `json:"n"`
	F    float64 `json:"f"`
	B    bool    `json:"b"`
	Note *string `json:"note"`
}

type opt struct {
	Id   int64  `json:"id"`
	Name string `json:"name,omitempty"`
	N    int64  `json:"n,omitempty"`
	Note string `json:"note,omitempty"`
}

type base struct {
	Id int64  `json:"id,string"`
	U  uint64 `json:"u"`
}

type emb struct {
	base
	Name string `json:"name"`
}

// Tag has its own JSON form.
type Tag int

func (t Tag) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"tag-%d"`, int(t))), nil }

type custom struct {
	Id   int64  `json:"id"`
	Note Tag    `json:"note"`
	skip string //nolint
	Out  string `json:"-"`
}

type bad struct {
	Id int64    `json:"id"`
	C  chan int `json:"name"`
}

var texts = []string{"plain", "", "q'uo`te\"? ?? @name $1 \\ -- ;", "<b>&amp;</b>", "nul\x00tab\tnl\n", "ÿ漢字🙂\u2028", "12", "null", "(?)", "%d %s"}
var ints = []int64{7, 0, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1, 100000000000000001}
var floats = []float64{0.5, 0, -1e-7, 1e21, 1e300, 0.1, 123456789.125, 5e-324}

type rec struct {
	v    interface{}
	want map[string]interface{} // column values; nil map: refused
}

const kinds = 12

// record makes the k-th kind of record with values picked by x.
func record(k int, id int64, x int) rec {
	t, n, f := texts[x%len(texts)], ints[x%len(ints)], floats[x%len(floats)]
	switch k {
	case 0, 1:
		var note *string
		var wn interface{}
		if x%2 == 1 {
			note, wn = &t, t
		}
		r := full{id, t, n, f, x%3 == 0, note}
		w := map[string]interface{}{"id": id, "name": t, "n": n, "f": f, "b": x%3 == 0, "note": wn}
		if k == 1 {
			return rec{&r, w}
		}
		return rec{r, w}
	case 2:
		return rec{map[string]interface{}{"id": id, "name": t}, map[string]interface{}{"id": id, "name": t}}
	case 3:
		return rec{map[string]interface{}{"name": t, "n": nil, "id": id}, map[string]interface{}{"id": id, "name": t, "n": nil}}
	case 4:
		return rec{map[string]int64{"id": id, "n": n}, map[string]interface{}{"id": id, "n": n}}
	case 5, 6, 7: // omitempty
		o := opt{Id: id}
		w := map[string]interface{}{"id": id}
		if k != 5 {
			o.Note, w["note"] = "note", "note"
		}
		if k != 6 {
			o.Name, w["name"] = "name", "name"
		}
		if k == 7 {
			o.N, w["n"] = 5, int64(5)
		}
		return rec{o, w}
	case 8:
		u := uint64(n)
		return rec{emb{base{id, u}, t}, map[string]interface{}{"id": id, "u": u, "name": t}}
	case 9:
		return rec{custom{Id: id, Note: Tag(x), skip: "s", Out: "o"}, map[string]interface{}{"id": id, "note": fmt.Sprintf("tag-%d", x)}}
	case 10:
		return rec{bad{Id: id, C: make(chan int)}, nil}
	case 11:
		return rec{[]interface{}{"a", 5, []int64{1}}[x%3], nil}
	}
	panic("kind")
}

func store() (*sqlx.Store, *sqlx.Table) {
	st := sqlx.NewStore()
	t := st.Add("t", sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n"}, sqlx.Col{Name: "f", Kind: sqlx.Float}, sqlx.Col{Name: "b"}, sqlx.Col{Name: "note", Kind: sqlx.Text}, sqlx.Col{Name: "u"})
	t.Put(int64(1), "old", int64(1), 1.5, true, "kept", nil)
	o := st.Add("other", sqlx.Col{Name: "name", Kind: sqlx.Text})
	o.Put(int64(1), "untouched")
	sqlx.Use(st)
	return st, t
}

func wantRow(t *sqlx.Table, w map[string]interface{}) string {
	r := map[string]interface{}{}
	for _, c := range t.Cols {
		v, err := sqlx.Conv(c, w[c.Name])
		if err != nil {
			panic(err)
		}
		r[c.Name] = v
	}
	return t.DumpRow(r)
}

func insert(split bool, db *gorm.DB, recs []interface{}) (err error) {
	name := "BatchInsertTableRecords"
	if split {
		name = "SplitInsertTableRecords"
	}
	rt.TraceS(name)
	vh.Do(name, func() {
		if split {
			err = gt.SplitInsertTableRecords(db, "t", recs...)
		} else {
			err = gt.BatchInsertTableRecords(db, "t", recs...)
		}
	})
	rt.Tracef("  -> %v", err)
	return
}

// every combination of up to three records
func records() {
	split := rt.Choose(2) == 1
	n := 1 + rt.Choose(3)
	st, t := store()
	before := t.Dump()
	var in []interface{}
	var rows []string
	ok := true
	for i := 0; i < n; i++ {
		k := rt.Choose(kinds)
		x := 0
		if n <= 2 {
			x = rt.Choose(10)
		} else {
			x = i
		}
		r := record(k, int64(10+i), x)
		rt.Tracef("record %+v", r.v)
		in = append(in, r.v)
		if r.want == nil {
			ok = false
		} else {
			rows = append(rows, wantRow(t, r.want))
		}
	}
	js, _ := json.Marshal(in)
	err := insert(split, sqlx.Gorm(nil), in)
	js2, _ := json.Marshal(in)
	vh.Check(string(js) == string(js2), "argument", "the records were changed from %s to %s", js, js2)
	if !ok {
		vh.Check(err != nil, "refused", "a record that has no fields to insert was accepted")
		vh.Eq("refused-effect", t.Dump(), before)
		return
	}
	vh.Check(err == nil, "error", "inserting valid records failed: %v", err)
	vh.Eq("rows", t.Dump(), before+strings.Join(rows, "\n")+"\n")
	vh.Eq("other", st.Tables["other"].Dump(), "id=\"1\" name=\"untouched\"\n")
}

// tables and columns of all kinds of names
func names() {
	split := rt.Choose(2) == 1
	a, b := sqlx.Names[rt.Choose(len(sqlx.Names))], sqlx.Names[rt.Choose(len(sqlx.Names))]
	table := []string{"t", a}[rt.Choose(2)]
	if a == b {
		return
	}
	st := sqlx.NewStore()
	t := st.Add(table, sqlx.Col{Name: a, Kind: sqlx.Text}, sqlx.Col{Name: b})
	sqlx.Use(st)
	rt.Tracef("table %s with columns %s and %s", table, a, b)
	recs := []interface{}{map[string]interface{}{"id": 1, a: "x", b: 2}, map[string]interface{}{"id": 2, b: 3}}
	var err error
	vh.Do("insert", func() {
		if split {
			err = gt.SplitInsertTableRecords(sqlx.Gorm(nil), table, recs...)
		} else {
			err = gt.BatchInsertTableRecords(sqlx.Gorm(nil), table, recs...)
		}
	})
	vh.Check(err == nil, "names", "inserting into the table %s with columns %s and %s failed: %v", table, a, b, err)
	vh.Eq("names-rows", t.Dump(), wantRow(t, map[string]interface{}{"id": 1, a: "x", b: 2})+"\n"+wantRow(t, map[string]interface{}{"id": 2, b: 3})+"\n")
}

// every iteration order of the field maps, with values that tell the fields apart
func orders() {
	split := rt.Choose(2) == 1
	n := 1 + rt.Choose(3)
	_, t := store()
	before := t.Dump()
	var in []interface{}
	want := ""
	for i := 0; i < n; i++ {
		m := map[string]interface{}{"id": 10 + i, "name": fmt.Sprint("a", i), "n": 20 + i}
		if rt.Choose(2) == 1 {
			delete(m, "n")
		}
		if rt.Choose(2) == 1 {
			m["note"] = fmt.Sprint("x", i)
		}
		in = append(in, m)
		want += wantRow(t, conv(m)) + "\n"
	}
	rt.MapOrders = 4
	defer func() { rt.MapOrders = 0 }()
	err := insert(split, sqlx.Gorm(nil), in)
	vh.Check(err == nil, "error", "inserting valid records failed: %v", err)
	vh.Eq("rows", t.Dump(), before+want)
}

func conv(m map[string]interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// many records: around every multiple of what one statement can hold
func sizes() {
	k := []int{6, 2, 3, 7, 16, 64, 250}[rt.Choose(vh.D(6, 7))]
	per := 65000 / k
	N := []int{1, per - 1, per, per + 1, 2 * per, 2*per + 1, 65535/k + 1}[rt.Choose(7)]
	if k == 2 && N > per+1 && !vh.Thorough {
		rt.Prune()
	}
	st := sqlx.NewStore()
	cols := []sqlx.Col{}
	for i := 1; i < k; i++ {
		cols = append(cols, sqlx.Col{Name: fmt.Sprintf("c%d", i)})
	}
	t := st.Add("t", cols...)
	sqlx.Use(st)
	in := make([]interface{}, N)
	for i := range in {
		m := map[string]int{"id": i + 1}
		for j := 1; j < k; j++ {
			m[fmt.Sprintf("c%d", j)] = i*1000 + j
		}
		in[i] = m
	}
	var err error
	rt.Tracef("%d records of %d fields", N, k)
	p, msg := rt.Call(1<<40, func() { err = gt.SplitInsertTableRecords(sqlx.Gorm(nil), "t", in...) })
	vh.Check(!p, "panic", "%s", msg)
	vh.Check(err == nil, "error", "inserting %d records of %d fields failed: %v", N, k, err)
	vh.Check(len(t.Rows) == N, "count", "%d of %d records were stored", len(t.Rows), N)
	for i, r := range t.Rows {
		rt.Transition(1)
		vh.Check(r["id"] == fmt.Sprint(i+1), "rows", "row %d has id %v", i, r["id"])
		for j := 1; j < k; j += 5 {
			vh.Check(r[fmt.Sprintf("c%d", j)] == fmt.Sprint(i*1000+j), "rows", "row %d has %v", i, r)
		}
	}
}

// the widest record decides how many fit in a statement, wherever it stands
func uneven() {
	wide := 65 // fields of the wide record
	N := []int{999, 1000, 1001, 2500}[rt.Choose(4)]
	at := []int{0, 1, N / 2, N - 1}[rt.Choose(4)]
	st := sqlx.NewStore()
	cols := []sqlx.Col{}
	for i := 1; i < wide; i++ {
		cols = append(cols, sqlx.Col{Name: fmt.Sprintf("c%d", i)})
	}
	t := st.Add("t", cols...)
	sqlx.Use(st)
	in := make([]interface{}, N)
	for i := range in {
		m := map[string]int{"id": i + 1, "c1": i}
		if i == at {
			for j := 1; j < wide; j++ {
				m[fmt.Sprintf("c%d", j)] = i*1000 + j
			}
		}
		in[i] = m
	}
	var err error
	rt.Tracef("%d records, the one at %d has %d fields, the others 2", N, at, wide)
	p, msg := rt.Call(1<<40, func() { err = gt.SplitInsertTableRecords(sqlx.Gorm(nil), "t", in...) })
	vh.Check(!p, "panic", "%s", msg)
	vh.Check(err == nil, "error", "inserting %d records failed: %v", N, err)
	vh.Check(len(t.Rows) == N, "count", "%d of %d records were stored", len(t.Rows), N)
	for i, r := range t.Rows {
		want := fmt.Sprint(i)
		if i == at {
			want = fmt.Sprint(i*1000 + 1)
		}
		vh.Check(r["id"] == fmt.Sprint(i+1) && r["c1"] == want && (r["c64"] != nil) == (i == at), "rows", "row %d is %v", i, t.DumpRow(r))
	}
}

// failures: of any statement, by duplicates, without effect
func faults() {
	split := rt.Choose(2) == 1
	tx := rt.Choose(2) == 1
	mode := rt.Choose(5)
	per := 65000 / 250 // 260
	N := []int{1, 3, per, per + 1, 2*per + 1}[rt.Choose(5)]
	if !split && N > per {
		rt.Prune()
	}
	st := sqlx.NewStore()
	cols := []sqlx.Col{}
	for i := 1; i < 250; i++ {
		cols = append(cols, sqlx.Col{Name: fmt.Sprintf("c%d", i)})
	}
	t := st.Add("t", cols...)
	row := make([]interface{}, 250)
	row[0] = int64(100000)
	t.Put(row...)
	sqlx.Use(st)
	fails := true
	dup := false
	in := make([]interface{}, N)
	for i := range in {
		m := map[string]int{"id": i + 1}
		for j := 1; j < 250; j++ {
			m[fmt.Sprintf("c%d", j)] = i + j
		}
		in[i] = m
	}
	switch mode {
	case 0:
		fails = false
	case 1: // the statement fails
		st.FailExec = 1 + rt.Choose((N-1)/per+1)
		st.FailText = []string{"Error 1205: Lock wait timeout exceeded", "invalid connection"}[rt.Choose(2)]
	case 2: // an id that exists
		in[[]int{0, N / 2, N - 1}[rt.Choose(3)]].(map[string]int)["id"] = 100000
		dup = true
	case 3: // an id given twice
		if N == 1 {
			rt.Prune()
		}
		in[N-1].(map[string]int)["id"] = 1 + rt.Choose(2)*(N-2)
		dup = true
	case 4:
		st.Zero = true
		if tx {
			rt.Prune()
		}
	}
	rt.Tracef("%d records, transaction %v, failure mode %d at %d", N, tx, mode, st.FailExec)
	db := sqlx.Gorm(nil)
	var err error
	if tx {
		want := errors.New("other failure")
		e := db.Transaction(func(x *gorm.DB) error {
			if err = insert(split, x, in); err != nil {
				return want
			}
			return nil
		})
		vh.Check((e == want) == (err != nil), "transaction", "the transaction ended with %v after %v", e, err)
	} else {
		err = insert(split, db, in)
	}
	vh.Check(st.Open == 0, "transaction", "%d transactions are left open", st.Open)
	vh.Check((err != nil) == fails, "error", "the result is %v", err)
	if dup {
		vh.Check(strings.Contains(err.Error(), "duplicate record"), "duplicate", "a duplicate is reported as %q", err)
	} else if fails && mode == 1 {
		vh.Check(!strings.Contains(err.Error(), "duplicate"), "duplicate", "another failure is reported as %q", err)
		vh.Check(strings.Contains(err.Error(), st.FailText), "cause", "the error %q does not tell the cause", err)
	}
	stored := len(t.Rows) - 1
	if !fails {
		vh.Check(stored == N, "count", "%d of %d records were stored", stored, N)
	} else if tx || !split || mode == 4 {
		vh.Check(stored == 0, "partial", "%d records of a failed insert are stored", stored)
	} else {
		vh.Check(stored < N, "partial", "the insert failed but all records are stored")
	}
	for i, r := range t.Rows[1:] { // whatever is stored is a prefix
		vh.Check(r["id"] == fmt.Sprint(in[i].(map[string]int)["id"]), "prefix", "row %d has id %v", i, r["id"])
	}
	// the handle works afterwards
	st.FailExec, st.Zero = 0, false
	if err = insert(split, db, []interface{}{map[string]int{"id": 777777, "c1": 5}}); err != nil {
		rt.Fail("handle", "a later insert through the same handle failed: %v", err)
	}
	last := t.Rows[len(t.Rows)-1]
	vh.Check(last["id"] == "777777" && last["c1"] == "5" && last["c2"] == nil, "handle", "a later insert stored %v", t.DumpRow(last))
	vh.Check(len(t.Rows) == stored+2, "handle", "a later insert left %d rows", len(t.Rows))
}

func empty() {
	split := rt.Choose(2) == 1
	st, t := store()
	b := t.Dump()
	err := insert(split, sqlx.Gorm(nil), nil)
	vh.Check(err == nil, "error", "no records: %v", err)
	vh.Eq("rows", t.Dump(), b)
	_ = st
}

func main() {
	vh.Main("C33", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "empty", Split: 1, Body: empty},
			{Name: "names", Split: 2, Body: names},
			{Name: "records", Split: 3, Body: records},
			{Name: "orders", Split: 4, Bound: 3, BoundT: 5, Body: orders},
			{Name: "faults", Split: 5, Body: faults},
			{Name: "uneven", Split: 2, Body: uneven},
			{Name: "sizes", Split: 2, Body: sizes},
		}
	})
}
