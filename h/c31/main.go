// verif:rewrite help/utils tick,maps
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func write(path string, rec []string) (err error) {
	r0 := fmt.Sprintf("%q", rec)
	vh.Do("WriteCsv", func() { err = utils.WriteCsv(path, rec) })
	rt.Tracef("WriteCsv(%s, %.200q) -> %v", path, rec, err)
	vh.Check(fmt.Sprintf("%q", rec) == r0, "arg", "WriteCsv changed its argument")
	vh.Check(fsx.Fds() <= 0, "fd-leak", "WriteCsv leaves the file open")
	return
}

func read(path string) (rows [][]string, ok bool) {
	var p *[][]string
	vh.Do("ReadCsv", func() { p = utils.ReadCsv(path) })
	vh.Check(fsx.Fds() <= 0, "fd-leak", "ReadCsv leaves the file open")
	if p == nil {
		return nil, false
	}
	return *p, true
}

func same(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func expect(path string, want [][]string) {
	got, ok := read(path)
	vh.Check(ok && same(got, want), "roundtrip", "reading gives %.300q (%v), the records written are %.300q", got, ok, want)
}

var alphabet = []string{"", "a", ",", "\"", "\n", " ", ";", "中", "#", "'", "\\", "\t", "=", "\r", "\ufeff", "\x00", "\xff"}

func field(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[rt.Choose(len(alphabet))]
	}
	if strings.Contains(s, "\r\n") {
		rt.Prune() // the standard reader takes it for a newline wherever it stands
	}
	return s
}

// one record with every short content of its fields
func record(w, n int) func() {
	return func() {
		fsx.Fresh()
		var r []string
		for i := 0; i < w; i++ {
			r = append(r, field(n))
		}
		err := write("t.csv", r)
		vh.Check(err == nil, "write", "WriteCsv failed: %v", err)
		expect("t.csv", [][]string{r})
	}
}

// every sequence of records to two files, also after reopening an earlier one
func sequences(depth int) func() {
	recs := [][]string{{"1", "2"}, {"", ""}, {"a,b", "\"q\""}, {"two\nlines", "x"}, {strings.Repeat("long ", 900), "y"}, {" pad ", "\"\"\""}, {""}, {"only"}, {"1", "", "3"}, {"cr\rin", "end\r"}}
	return func() {
		fsx.Fresh()
		var have [2][][]string
		if rt.Choose(2) == 1 { // made by another program
			fsx.Put("f0", "h1,h2\nv1,\"v\"\"2\"\n")
			have[0] = [][]string{{"h1", "h2"}, {"v1", "v\"2"}}
		}
		vh.Steps(depth, func() uint64 { return vh.FNV(fmt.Sprint(have)) }, func(int) {
			f := rt.Choose(2)
			r := recs[rt.Choose(len(recs))]
			err := write(fmt.Sprintf("f%d", f), r)
			vh.Check(err == nil, "write", "WriteCsv failed: %v", err)
			have[f] = append(have[f], r)
			for i := range have {
				if have[i] != nil {
					expect(fmt.Sprintf("f%d", i), have[i])
				}
			}
		})
	}
}

// every record width, and many records
func sizes() {
	w := 1 + rt.Choose(40)
	n := []int{1, 2, 50, 300}[rt.Choose(4)]
	fsx.Fresh()
	var want [][]string
	for i := 0; i < n; i++ {
		var r []string
		for j := 0; j < w; j++ {
			r = append(r, fsx.Content(fmt.Sprintf("%d,%d", i, j), 1+(i*31+j*17)%60))
		}
		err := write("t.csv", r)
		vh.Check(err == nil, "write", "WriteCsv failed: %v", err)
		want = append(want, r)
	}
	expect("t.csv", want)
}

// appending to large files, and large records
func large() {
	fsx.Fresh()
	n := []int{0, 100, 4096, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20}[rt.Choose(8)]
	r := [][]string{{"a", "b,c"}, {strings.Repeat("x", 70000), "\"" + strings.Repeat("y\n", 40000)}, make([]string, 5000), {strings.Repeat("中", 1<<19)}}[rt.Choose(4)]
	for i := range r {
		if r[i] == "" {
			r[i] = fmt.Sprint("f", i)
		}
	}
	var b strings.Builder
	var want [][]string
	for i := 0; b.Len() < n; i++ {
		row := []string{fmt.Sprint(i), strings.Repeat("p", 1+i%3000)}
		b.WriteString(row[0] + "," + row[1] + "\r\n")
		want = append(want, row)
	}
	fsx.Put("t.csv", b.String())
	for i := 0; i < 2; i++ {
		err := write("t.csv", r)
		vh.Check(err == nil, "write", "WriteCsv failed: %v", err)
		want = append(want, r)
	}
	got, _ := fsx.Get("t.csv")
	vh.Check(strings.HasPrefix(got, b.String()), "earlier", "WriteCsv changed the %d bytes before", b.Len())
	expect("t.csv", want)
}

// a write that fails after k bytes is reported; the records before it stay
func faults() {
	r := []string{"first", "se,cond"}
	big := rt.Choose(2)
	if big == 1 {
		r = []string{strings.Repeat("x", 5000), "y"}
	}
	fsx.Fresh()
	write("ref", r)
	ref, _ := fsx.Get("ref")
	prev := rt.Choose(2)
	if prev == 1 {
		write("t.csv", []string{"kept", "record"})
	}
	before, _ := fsx.Get("t.csv")
	n := len(ref)
	var k int
	if big == 1 {
		l := []int{0, 1, 4095, 4096, 4097, 5000, n - 1, n, n + 1}
		k = l[rt.Choose(len(l))]
	} else {
		k = rt.Choose(n + 2)
	}
	var err error
	fsx.FileLimit(len(before)+k, func() { err = write("t.csv", r) })
	after, _ := fsx.Get("t.csv")
	vh.Check(k == n || (err == nil) == (k > n), "silent-loss", "WriteCsv returned %v although writing failed after %d of %d bytes", err, k, n)
	vh.Check(strings.HasPrefix(after, before), "earlier", "a failed WriteCsv changed earlier records")
	if err == nil {
		vh.Check(after == before+ref, "write", "the file is %.100q", after)
	}
}

// what cannot be opened is an error; reading what is not there or not CSV gives nothing
func errors() {
	fsx.Fresh()
	switch rt.Choose(6) {
	case 0:
		vh.Check(write("no/dir/t.csv", []string{"a"}) != nil, "open", "WriteCsv succeeded in a missing directory")
	case 1:
		os.Mkdir("d", 0o755)
		vh.Check(write("d", []string{"a"}) != nil, "open", "WriteCsv succeeded on a directory")
		_, ok := read("d")
		vh.Check(!ok, "read", "ReadCsv of a directory gave records")
	case 2:
		fsx.Put("t.csv", "a\n")
		os.Chmod("t.csv", 0o444)
		vh.Check(write("t.csv", []string{"b"}) != nil, "open", "WriteCsv succeeded on a read-only file")
		expect("t.csv", [][]string{{"a"}})
	case 3:
		_, ok := read("absent.csv")
		vh.Check(!ok, "read", "ReadCsv of a missing file gave records")
	case 4:
		for _, s := range []string{"a,b\n\"open", "a,b\nc\"d,e\n", "\"a\"b,c\n"} {
			fsx.Put("t.csv", s)
			_, ok := read("t.csv")
			vh.Check(!ok, "read", "ReadCsv of the malformed %q gave records", s)
		}
	case 5:
		fsx.Put("t.csv", "")
		rows, ok := read("t.csv")
		vh.Check(ok && len(rows) == 0, "read", "ReadCsv of an empty file: %v, %q", ok, rows)
	}
}

// files in the formats other programs write
func formats() {
	eol := []string{"\n", "\r\n"}[rt.Choose(2)]
	end := rt.Choose(2)
	quote := rt.Choose(2)
	rows := [][]string{}
	for i, n := 0, 1+rt.Choose(3); i < n; i++ {
		r := []string{[]string{"a", "", " x y "}[rt.Choose(3)], []string{"1", "q\"q", "p,q"}[rt.Choose(3)]}
		switch rt.Choose(3) {
		case 1:
			r = r[1:]
		case 2:
			r = append(r, "")
		}
		rows = append(rows, r)
	}
	s := ""
	for i, r := range rows {
		for j, f := range r {
			if quote == 1 || strings.ContainsAny(f, ",\"") {
				f = "\"" + strings.ReplaceAll(f, "\"", "\"\"") + "\""
			}
			if j > 0 {
				s += ","
			}
			s += f
		}
		if i < len(rows)-1 || end == 0 {
			s += eol
		}
	}
	fsx.Fresh()
	fsx.Put("t.csv", s)
	rt.Tracef("%q", s)
	expect("t.csv", rows)
}

func main() {
	vh.Main("C31", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "record-1", Split: 2, Body: record(1, vh.D(4, 5))},
			{Name: "record-2", Split: 2, Body: record(2, 2)},
			{Name: "record-3", Split: 2, Body: record(3, 1)},
			{Name: "seq", Split: 3, Body: sequences(vh.D(4, 6))},
			{Name: "sizes", Split: 2, Body: sizes},
			{Name: "large", Split: 2, Body: large},
			{Name: "faults", Split: 2, Body: faults},
			{Name: "errors", Split: 1, Body: errors},
			{Name: "formats", Split: 3, Body: formats},
		}
	})
}
