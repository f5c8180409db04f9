// verif:rewrite help/utils tick,conc,fs,maps
package main

import (
	"archive/zip"
	"bytes"
	"crypto/md5"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// together runs the calls in goroutines of their own, each a list of steps done in order, under every interleaving of
// their file operations up to the bound.
func together(names []string, f ...func()) {
	rt.Simulate(rt.Config{Horizon: 200000}, func() {
		done := make([]bool, len(f))
		for i := range f {
			i := i
			rt.GoNamed(names[i], func() {
				vh.DoN(names[i], 1000000, f[i])
				done[i] = true
			})
		}
		rt.IdleUntil(rt.Now() + int64(time.Hour))
		for i, d := range done {
			vh.Check(d, "blocked", "%s never returns: %s", names[i], rt.UnfinishedNames())
		}
		vh.Check(fsx.Fds() <= 0, "fd-leak", "files are left open")
	})
}

func noErr(what string, err error) {
	rt.Tracef("%s -> %v", what, err)
	vh.Check(err == nil, "error:"+strings.SplitN(what, " ", 2)[0], "%s fails with %v only because another call runs at the same time", what, err)
}

func gone(p string) bool { _, err := os.Lstat(p); return err != nil }

// ---- CSV ----

var recs = [][][]string{
	{{"a1", "x"}, {"a2", strings.Repeat("long ", 1000)}, {"a3", "new\nline"}},
	{{"b1", "y"}, {"b2", "q\"uote"}},
	{{"c1", strings.Repeat("z", 9000)}},
}

// rows appended at the same time are all there, each intact, those of one writer in order; a reader sees a part of them
func appends() {
	n := 2 + rt.Choose(2)
	each := 1 + rt.Choose(2)
	first := rt.Choose(2) == 1
	reader := rt.Choose(2) == 1
	fsx.Fresh()
	var head [][]string
	if first {
		fsx.Put("t.csv", "h1,h2\r\n")
		head = [][]string{{"h1", "h2"}}
	}
	var f []func()
	var names []string
	for w := 0; w < n; w++ {
		w := w
		names = append(names, fmt.Sprint("writer ", w))
		f = append(f, func() {
			for i := 0; i < each && i < len(recs[w]); i++ {
				noErr(fmt.Sprintf("WriteCsv %.10q", recs[w][i]), utils.WriteCsv("t.csv", recs[w][i]))
			}
		})
	}
	if reader {
		names = append(names, "reader")
		f = append(f, func() {
			before := 0
			for i := 0; i < 2; i++ {
				p := utils.ReadCsv("t.csv")
				if p == nil {
					vh.Check(!first && before == 0, "read", "ReadCsv finds no records while others are appended")
					continue
				}
				subset(*p, head, n, each, false)
				vh.Check(len(*p) >= before, "read", "records disappear: %d, then %d", before, len(*p))
				before = len(*p)
			}
		})
	}
	together(names, f...)
	p := utils.ReadCsv("t.csv")
	vh.Check(p != nil, "lost", "the file cannot be read after records were appended at the same time")
	subset(*p, head, n, each, true)
}

func subset(got, head [][]string, n, each int, all bool) {
	vh.Check(len(got) >= len(head), "lost", "the header is gone: %.200q", got)
	next := make([]int, n)
	for i, r := range got {
		if i < len(head) {
			vh.Check(fmt.Sprint(r) == fmt.Sprint(head[i]), "lost", "the first record is %.100q", r)
			continue
		}
		ok := false
		for w := 0; w < n && !ok; w++ {
			if next[w] < each && next[w] < len(recs[w]) && fmt.Sprintf("%q", r) == fmt.Sprintf("%q", recs[w][next[w]]) {
				next[w]++
				ok = true
			}
		}
		vh.Check(ok, "mixed", "record %d is %.100q, which nobody appended (or not in this order)", i, r)
	}
	for w := 0; all && w < n; w++ {
		want := each
		if want > len(recs[w]) {
			want = len(recs[w])
		}
		vh.Check(next[w] == want, "lost", "of the %d records of writer %d, %d are in the file of %d records", want, w, next[w], len(got))
	}
}

// ---- chunked uploads ----

func sum(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

func chunk(k int) string {
	return []string{fsx.Content("c0", 20), fsx.Content("c1", 40000), "", fsx.Content("c3", 3), fsx.Content("c4", 100)}[k]
}

func put(id, file string, k int) {
	p, err := utils.BreakPointContinue([]byte(id+file+chunk(k)), file, k, 4, id)
	noErr(fmt.Sprintf("BreakPointContinue %s %s %d", id, file, k), err)
	vh.Check(filepath.Clean(p) == fmt.Sprintf("breakpointDir/%s/%s_%d", id, file, k), "path", "chunk %d was stored at %s", k, p)
}

func whole(id, file string, n int) string {
	s := ""
	for k := 0; k < n; k++ {
		s += id + file + chunk(k)
	}
	return s
}

func assemble(id, file string, n int) {
	p, err := utils.MakeFile(file, id)
	noErr("MakeFile "+id+" "+file, err)
	got, _ := fsx.Get(p)
	vh.Check(got == whole(id, file, n), "assembled", "the file assembled from %d chunks of %s is wrong: %d bytes, want %d", n, file, len(got), len(whole(id, file, n)))
}

func uploads() {
	fsx.Fresh()
	kind := rt.Choose(9)
	rt.Tracef("case %d", kind)
	switch kind {
	case 0: // the first chunks of one file
		together([]string{"chunk 0", "chunk 1"}, func() { put("id1", "f", 0) }, func() { put("id1", "f", 1) })
		assemble("id1", "f", 2)
	case 1: // three at once, two files
		together([]string{"0", "1", "g"}, func() { put("id1", "f", 0); put("id1", "f", 2) }, func() { put("id1", "f", 1) }, func() { put("id1", "g", 0) })
		assemble("id1", "f", 3)
		assemble("id1", "g", 1)
	case 2: // a chunk sent twice
		put("id1", "f", 0)
		together([]string{"1", "1 again"}, func() { put("id1", "f", 1) }, func() { put("id1", "f", 1); put("id1", "f", 2) })
		assemble("id1", "f", 3)
	case 3: // assembling while another upload goes on, in the same and in another place
		put("id1", "f", 0)
		put("id1", "f", 1)
		together([]string{"assemble", "other", "same place"}, func() { assemble("id1", "f", 2) }, func() { put("id2", "f", 0); put("id2", "f", 1) }, func() { put("id1", "g", 0) })
		assemble("id1", "g", 1)
		vh.Check(!gone("breakpointDir/id2/f_1"), "lost", "a chunk is gone")
	case 4: // two files assembled at once
		put("id1", "f", 0)
		put("id1", "f", 1)
		put("id2", "g", 0)
		together([]string{"f", "g"}, func() { assemble("id1", "f", 2) }, func() { assemble("id2", "g", 1) })
		assembled("id1", "f", 2)
		assembled("id2", "g", 1)
	case 5: // one file assembled twice: right in the end
		put("id1", "f", 0)
		put("id1", "f", 1)
		mk := func() { _, err := utils.MakeFile("f", "id1"); noErr("MakeFile again", err) }
		together([]string{"first", "second"}, mk, mk)
		assembled("id1", "f", 2)
	case 6: // chunks removed while another upload goes on and is assembled
		put("id1", "f", 0)
		put("id1", "f", 1)
		put("id12", "f", 0)
		together([]string{"remove", "upload", "assemble"}, func() { noErr("RemoveChunk", utils.RemoveChunk("id1")) }, func() { put("id2", "f", 0) }, func() { assemble("id12", "f", 1) })
		vh.Check(gone("breakpointDir/id1"), "removed", "removed chunks are still there")
		assemble("id2", "f", 1)
	case 7: // removed twice
		put("id1", "f", 0)
		put("id1", "f", 1)
		rm := func() { noErr("RemoveChunk", utils.RemoveChunk("id1")) }
		together([]string{"remove", "remove again"}, rm, rm)
		vh.Check(gone("breakpointDir/id1"), "removed", "removed chunks are still there")
	case 8: // whole uploads next to each other
		all := func(id string) func() {
			return func() {
				put(id, "f", 0)
				put(id, "f", 1)
				p, err := utils.MakeFile("f_"+id, id)
				_ = p
				noErr("MakeFile", err)
				put(id, id, 0)
				assemble(id, id, 1)
				noErr("RemoveChunk", utils.RemoveChunk(id))
			}
		}
		together([]string{"id1", "id2"}, all("id1"), all("id2"))
		assembled("id1", "id1", 1)
		assembled("id2", "id2", 1)
		vh.Check(gone("breakpointDir/id1") && gone("breakpointDir/id2"), "removed", "removed chunks are still there")
	}
}

func assembled(id, file string, n int) {
	got, _ := fsx.Get("fileDir/" + file)
	vh.Check(got == whole(id, file, n), "assembled", "in the end the assembled %s has %d bytes, want %d", file, len(got), len(whole(id, file, n)))
}

// ---- directories, moves, copies, archives ----

func archive(entries map[string]string) string {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	var l []string
	for n := range entries {
		l = append(l, n)
	}
	sort.Strings(l)
	for _, n := range l {
		x, err := w.Create(n)
		if err != nil {
			panic(err)
		}
		io.WriteString(x, entries[n])
	}
	w.Close()
	return b.String()
}

func holds(dir string, entries map[string]string) {
	for n, c := range entries {
		if strings.HasSuffix(n, "/") {
			continue
		}
		got, ok := fsx.Get(dir + "/" + n)
		vh.Check(ok && got == c, "content", "%s/%s is %.40q (%d bytes), want %.40q (%d)", dir, n, got, len(got), c, len(c))
	}
}

func content(p, want string) {
	got, ok := fsx.Get(p)
	vh.Check(ok && got == want, "content", "%s is %.40q (%d bytes), want %.40q (%d)", p, got, len(got), want, len(want))
}

func others() {
	fsx.Fresh()
	kind := rt.Choose(11)
	rt.Tracef("case %d", kind)
	mv := func(a, b string) func() { return func() { noErr("FileMove "+a+" "+b, utils.FileMove(a, b)) } }
	switch kind {
	case 0:
		mk := func(l ...string) func() { return func() { noErr("CreateDir", utils.CreateDir(l...)) } }
		together([]string{"1", "2", "3"}, mk("p/a/b", "q"), mk("q", "p/a/c"), func() { noErr("MkDir", utils.MkDir("p/a/b")) })
		for _, p := range []string{"p/a/b", "p/a/c", "q"} {
			vh.Check(utils.IsDir(p), "dir", "%s is not there", p)
		}
	case 1: // moves to one new directory
		fsx.Put("a", "A")
		fsx.Put("b", "B")
		together([]string{"a", "b"}, mv("a", "n/m/a"), mv("b", "n/m/b"))
		content("n/m/a", "A")
		content("n/m/b", "B")
	case 2: // one file moved to two places: one succeeds
		fsx.Put("a", "A")
		var e1, e2 error
		together([]string{"x", "y"}, func() { e1 = utils.FileMove("a", "n/x") }, func() { e2 = utils.FileMove("a", "n/y") })
		vh.Check((e1 == nil) != (e2 == nil), "move", "one file moved to two places: %v, %v", e1, e2)
		to, not := "n/x", "n/y"
		if e2 == nil {
			to, not = not, to
		}
		content(to, "A")
		vh.Check(gone("a") && gone(not), "move", "the moved file is at two places")
	case 3: // two files moved to one place: one of them is there
		fsx.Put("a", "A")
		fsx.Put("b", "B")
		together([]string{"a", "b"}, mv("a", "n/x"), mv("b", "n/x"))
		got, _ := fsx.Get("n/x")
		vh.Check((got == "A" || got == "B") && gone("a") && gone("b"), "move", "n/x is %q", got)
	case 4: // copies of one file
		c := fsx.Content("src", 40000)
		fsx.Put("src", c)
		fsx.Put("x", fsx.Content("old", 50000))
		cp := func(to string) func() {
			return func() {
				n, err := utils.CopyFile(to, "src")
				noErr("CopyFile "+to, err)
				vh.Check(n == 40000, "copy", "CopyFile copied %d bytes", n)
			}
		}
		together([]string{"x", "y"}, cp("x"), cp("y"))
		content("x", c)
		content("y", c)
		content("src", c)
	case 5: // the same copy twice
		c := fsx.Content("src", 40000)
		fsx.Put("src", c)
		fsx.Put("x", fsx.Content("old", 50000))
		cp := func() { _, err := utils.CopyFile("x", "src"); noErr("CopyFile x", err) }
		together([]string{"1", "2"}, cp, cp)
		content("x", c)
	case 6: // a copy while the copy of another file is made, and a file is deleted
		fsx.Put("a", "A")
		fsx.Put("d/b", "B")
		fsx.Put("d/c", "C")
		together([]string{"copy", "delete", "delete again"}, func() { _, err := utils.CopyFile("e", "a"); noErr("CopyFile e", err) }, func() { noErr("DeLFile", utils.DeLFile("d")) }, func() { noErr("DeLFile", utils.DeLFile("d")) })
		content("a", "A")
		content("e", "A")
		vh.Check(gone("d"), "deleted", "the deleted directory is still there")
	case 7, 8: // archives with common directories into one place, or the same one twice
		e1 := map[string]string{"d/e/a": "alpha", "d/b": fsx.Content("b", 40000), "x/": ""}
		e2 := map[string]string{"d/e/c": "gamma", "x/y": "why", "d/z": ""}
		if kind == 8 {
			e2 = e1
		}
		fsx.Put("1.zip", archive(e1))
		fsx.Put("2.zip", archive(e2))
		fsx.Put("to/d/b", fsx.Content("old", 50000))
		un := func(z string, e map[string]string) func() {
			return func() {
				l, err := utils.Unzip(z, "to")
				noErr("Unzip "+z, err)
				vh.Check(len(l) == len(e), "paths", "Unzip returned %q", l)
			}
		}
		together([]string{"1", "2"}, un("1.zip", e1), un("2.zip", e2))
		holds("to", e1)
		holds("to", e2)
	case 9: // archives of the same files
		e := map[string]string{"a": "alpha", "b": fsx.Content("b", 40000)}
		fsx.Put("in/a", e["a"])
		fsx.Put("in/b", e["b"])
		z := func(to string) func() {
			return func() { noErr("ZipFiles "+to, utils.ZipFiles(to, []string{"in/a", "in/b"}, "in/", "")) }
		}
		together([]string{"1", "2"}, z("1.zip"), z("2.zip"))
		for _, n := range []string{"1", "2"} {
			_, err := utils.Unzip(n+".zip", n)
			vh.Check(err == nil, "archive", "the archive %s is broken: %v", n, err)
			holds(n, e)
		}
	case 10: // readers of files others do not touch
		fsx.Put("r/a", "A")
		fsx.Put("r/d/b", "B")
		fsx.Put("t.csv", "1,2\r\n")
		together([]string{"scan", "write", "sum"}, func() {
			l, err := utils.ScanDir("r")
			noErr("ScanDir", err)
			vh.Check(strings.Join(l, " ") == "r/a r/d/b", "scan", "ScanDir gives %q", l)
		}, func() { noErr("WriteCsv", utils.WriteCsv("t.csv", []string{"3", "4"})) }, func() {
			s, err := utils.FileMd5("r/a")
			noErr("FileMd5", err)
			vh.Check(s == sum("A"), "sum", "FileMd5 gives %s", s)
			ok, err := utils.PathExists("r/d")
			vh.Check(ok && err == nil && utils.IsFile("r/a") && utils.FileExist("r/d/b"), "exists", "r/d: %v, %v", ok, err)
		})
	}
}

func main() {
	vh.Main("C42", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "appends", Split: 4, Bound: 2, BoundT: 4, Body: appends},
			{Name: "uploads", Split: 3, Bound: 2, BoundT: 3, Body: uploads},
			{Name: "others", Split: 3, Bound: 3, BoundT: 4, Body: others},
		}
	})
}
