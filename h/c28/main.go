// verif:rewrite help/utils tick,maps
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type entry struct {
	name, content string
	mode          os.FileMode
	store         bool
}

func archive(path string, l []entry) {
	b := &bytes.Buffer{}
	w := zip.NewWriter(b)
	for _, e := range l {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		if e.store {
			h.Method = zip.Store
		}
		m := e.mode
		if m == 0 {
			m = 0o644
		}
		if strings.HasSuffix(e.name, "/") {
			m = os.ModeDir | 0o755
			h.Method = zip.Store
		}
		h.SetMode(m)
		f, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		f.Write([]byte(e.content))
	}
	w.Close()
	fsx.Put(path, b.String())
}

func unzip(z, dest string) (paths []string, err error) {
	vh.Do("Unzip", func() { paths, err = utils.Unzip(z, dest) })
	rt.Tracef("Unzip(%s, %q) -> %q, %v", z, dest, paths, err)
	vh.Check(fsx.Fds() <= 0, "fd-leak", "files are left open by Unzip")
	return
}

// target is where an entry belongs relative to the destination; ok is false when it escapes.
func target(name string) (string, bool) {
	var out []string
	for _, p := range strings.Split(name, "/") {
		switch p {
		case "", ".":
		case "..":
			if len(out) == 0 {
				return "", false
			}
			out = out[:len(out)-1]
		default:
			out = append(out, p)
		}
	}
	return strings.Join(out, "/"), true
}

var names = []string{"a", "b", "d/", "d/a", "d/e/f", "x/y/z/", "./c", "d/../g", "/abs", "...", "..h", "d/..i", "../up", "../../up2", "d/../../up3", "..", "d/../..", "../d/k", "../out", "../outside/x"}

// every small archive: what Unzip reports as done is done, exactly, and nothing is written outside
func extract(n int) func() {
	return func() {
		var l []entry
		for i := 0; i < n || i < 1; i++ {
			nm := ""
			if n == 0 { // one entry, its name made of tokens
				for j := 0; j < vh.D(5, 6); j++ {
					nm += []string{"", "..", "/", "a", ".", "b/../", "\\"}[rt.Choose(7)]
				}
				if nm == "" {
					rt.Prune()
				}
			} else {
				nm = names[rt.Choose(len(names))]
			}
			e := entry{name: nm, content: fmt.Sprintf("content %d", i), store: i%2 == 1}
			if strings.HasSuffix(e.name, "/") {
				e.content = ""
			}
			l = append(l, e)
		}
		dest := []string{"out", "out/", "./out", "new/dir", "ABS", "."}[rt.Choose(6)]
		pre := rt.Choose(2)
		root := fsx.Fresh()
		if dest == "ABS" {
			dest = root + "/out"
		}
		if dest == "." { // escaping the current directory means reaching its parent
			os.Mkdir("cur", 0o755)
			archive("in.zip", l)
			os.Rename("in.zip", "cur/in.zip")
			os.Chdir("cur")
		} else {
			archive("in.zip", l)
		}
		if pre == 1 {
			fsx.Put(filepath.Join(dest, "a"), "an older and longer content of a")
			fsx.Put(filepath.Join(dest, "keep"), "keep")
		}
		before := fsx.Tree(root)
		paths, err := unzip("in.zip", dest)
		os.Chdir(root)
		base := dest
		if dest == "." {
			base = "cur"
		}
		base, _ = filepath.Rel(root, abs(root, base))
		after := fsx.Tree(root)
		outsideOnly := func(t []string) string {
			var o []string
			for _, x := range t {
				p := x[2:]
				inside := p == base || strings.HasPrefix(p, base+"/") || strings.HasPrefix(p, base+" ")
				parent := strings.HasPrefix(base, strings.TrimSuffix(p, "/")+"/")
				if !inside && !parent {
					o = append(o, x)
				}
			}
			return strings.Join(o, "\n")
		}
		vh.Check(outsideOnly(before) == outsideOnly(after) && fsx.Outside() == "", "escape", "Unzip wrote outside its destination %s: before %q, after %q, above %q", dest, outsideOnly(before), outsideOnly(after), fsx.Outside())
		escapes, returns, conflict := false, false, false
		files, dirs := map[string]string{}, map[string]bool{}
		for _, e := range l {
			t, ok := target(e.name)
			if !ok {
				p := filepath.Join(root, base, e.name)
				if b := filepath.Join(root, base); p != b && !strings.HasPrefix(p, b+"/") {
					escapes = true
				}
				returns = true // leaves the destination and may come back: either answer
				continue
			}
			if t == "" && !strings.HasSuffix(e.name, "/") {
				returns = true // a file named like the destination itself: either answer
			}
			if strings.HasSuffix(e.name, "/") || t == "" {
				dirs[t] = true
			} else {
				files[t] = e.content
			}
			for d := filepath.Dir(t); d != "."; d = filepath.Dir(d) {
				dirs[d] = true
			}
		}
		if pre == 1 && (dirs["a"] || dirs["keep"]) {
			conflict = true
		}
		for f := range files {
			if dirs[f] {
				conflict = true
			}
		}
		if escapes {
			vh.Check(err != nil, "escape-accepted", "Unzip accepted an archive with an entry outside the destination")
			return
		}
		if returns {
			return
		}
		if err != nil {
			for _, e := range l { // an entry that is a file named like the destination itself cannot be written
				if t, _ := target(e.name); t == "" && !strings.HasSuffix(e.name, "/") {
					return
				}
			}
			vh.Check(conflict, "refused", "Unzip failed on a good archive: %v", err)
			return
		}
		vh.Check(!conflict, "conflict", "Unzip succeeded although an entry is both file and directory")
		check(filepath.Join(root, base), files, dirs)
		if pre == 1 {
			got, _ := fsx.Get(filepath.Join(root, base, "keep"))
			vh.Eq("kept", got, "keep")
		}
		var want []string
		for _, e := range l {
			want = append(want, filepath.Join(dest, e.name))
		}
		vh.Eq("paths", strings.Join(paths, "|"), strings.Join(want, "|"))
	}
}

func abs(root, p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join(root, p)
}

func check(dir string, files map[string]string, dirs map[string]bool) {
	for f, c := range files {
		got, ok := fsx.Get(filepath.Join(dir, f))
		vh.Check(ok && got == c, "content", "after a successful Unzip %s is %.60q (present: %v), want %.60q", f, got, ok, c)
	}
	for d := range dirs {
		fi, err := os.Stat(filepath.Join(dir, d))
		vh.Check(err == nil && fi.IsDir(), "directory", "after a successful Unzip %s is not a directory", d)
	}
}

func good() ([]entry, map[string]string) {
	l := []entry{{name: "a", content: fsx.Content("a", 40)}, {name: "d/", content: ""}, {name: "d/b", content: fsx.Content("b", 25), store: true}, {name: "d/e/c", content: "c"}, {name: "empty", content: ""}}
	m := map[string]string{}
	for _, e := range l {
		if !strings.HasSuffix(e.name, "/") {
			m[e.name] = e.content
		}
	}
	return l, m
}

// a write that fails after k bytes, a descriptor shortage, a directory that cannot be made: an error, never silence
func extractFaults() {
	how := rt.Choose(3)
	k := rt.Choose([]int{42, 8, 6}[how])
	fsx.Fresh()
	l, files := good()
	archive("in.zip", l)
	var err error
	switch how {
	case 0:
		fsx.FileLimit(k, func() { _, err = unzip("in.zip", "out") })
		vh.Check(k == 40 || (err == nil) == (k > 40), "write-fault", "Unzip with writes failing after %d bytes returned %v", k, err)
	case 1:
		fsx.OpenLimit(k, func() { _, err = unzip("in.zip", "out") })
		if k >= 4 {
			vh.Check(err == nil, "descriptors", "Unzip of five entries needs more than %d descriptors: %v", k, err)
		}
	case 2:
		switch k {
		case 0:
			fsx.Put("out/d", "a file")
		case 1:
			fsx.Put("out/a/x", "a directory")
		case 2:
			os.MkdirAll("out", 0o555)
		case 3:
			fsx.Put("out", "a file")
		case 4:
			os.MkdirAll("out/d/e", 0o755)
			os.Chmod("out/d/e", 0o555)
		case 5:
			os.MkdirAll("out/empty", 0o755)
		}
		_, err = unzip("in.zip", "out")
		os.Chmod("out", 0o755)
		os.Chmod("out/d/e", 0o755)
		vh.Check(err != nil, "blocked-path", "Unzip succeeded although an entry could not be made (case %d)", k)
		return
	}
	if err == nil {
		check("out", files, map[string]bool{"d": true})
	}
	_, err = unzip("in.zip", "out")
	vh.Check(err == nil, "retry", "a repeated Unzip failed: %v", err)
	check("out", files, map[string]bool{"d": true})
}

// only a directory entry, where a file is in the way
func dirOnly() {
	n := []string{"d/", "d/e/", "d/e/f/"}[rt.Choose(3)]
	block := []string{"out/d", "out/d/e", "out/d/e/f"}[rt.Choose(3)]
	fsx.Fresh()
	archive("in.zip", []entry{{name: n}})
	fsx.Put(block, "a file")
	_, err := unzip("in.zip", "out")
	fi, e := os.Stat("out/" + n[:len(n)-1])
	vh.Check(err != nil || (e == nil && fi.IsDir()), "directory", "Unzip succeeded although it did not make the directory %s", n)
}

// many entries with few descriptors
func many() {
	n := []int{1, 50, 200}[rt.Choose(3)]
	fsx.Fresh()
	var l []entry
	files := map[string]string{}
	for i := 0; i < n; i++ {
		e := entry{name: fmt.Sprintf("d%d/f%d", i%7, i), content: fsx.Content(fmt.Sprint(i), i)}
		l = append(l, e)
		files[e.name] = e.content
	}
	archive("in.zip", l)
	var err error
	var paths []string
	fsx.OpenLimit(16, func() { paths, err = unzip("in.zip", "out") })
	vh.Check(err == nil, "descriptors", "Unzip of %d entries does not do with 16 descriptors: %v", n, err)
	vh.Eq("paths", len(paths), n)
	check("out", files, nil)
}

// every truncation and every changed byte of an archive: an error, or right contents
func corrupt() {
	l, files := good()
	fsx.Fresh()
	archive("in.zip", l)
	raw, _ := fsx.Get("in.zip")
	k := rt.Choose(len(raw))
	how := rt.Choose(4)
	bad := raw[:k]
	if how > 0 {
		bad = raw[:k] + string(raw[k]^[]byte{0, 1, 0x80, 0xff}[how]) + raw[k+1:]
	}
	fsx.Put("in.zip", bad)
	_, err := unzip("in.zip", "out")
	vh.Eq("outside", fsx.Outside(), "")
	if err != nil {
		return
	}
	ok := map[string]bool{}
	for _, c := range files {
		ok[c] = true
	}
	n := 0
	filepath.Walk("out", func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			n++
			c, readable := fsx.Get(p)
			vh.Check(!readable || ok[c], "corrupt-accepted", "byte %d changed (%d): Unzip succeeded and wrote %s as %.60q", k, how, p, c)
		}
		return nil
	})
	if how == 0 {
		vh.Check(n == len(files), "truncated-accepted", "Unzip succeeded on an archive cut to %d of %d bytes with %d files", k, len(raw), n)
	}
}

func zipFiles(z string, files []string, o, n string) (err error) {
	vh.Do("ZipFiles", func() { err = utils.ZipFiles(z, files, o, n) })
	rt.Tracef("ZipFiles(%s, %q, %q, %q) -> %v", z, files, o, n, err)
	vh.Check(fsx.Fds() <= 0, "fd-leak", "files are left open by ZipFiles")
	return
}

func readZip(z string) (map[string]string, []string, error) {
	r, err := zip.OpenReader(z)
	if err != nil {
		return nil, nil, err
	}
	defer r.Close()
	m, order := map[string]string{}, []string{}
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			return nil, nil, err
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, nil, err
		}
		m[f.Name] = string(b)
		order = append(order, f.Name)
	}
	return m, order, nil
}

// every list of files: the archive holds exactly them, and extracting gives them back
func create(n int) func() {
	pool := []string{"in/a", "in/b.txt", "in/sub/c", "in/空", "in/big", "in/empty", "in/exec", "missing", "in/sub", "in/secret"}
	return func() {
		var files []string
		for i := 0; i < n; i++ {
			k := rt.Choose(len(pool) + 1)
			if k < len(pool) {
				files = append(files, pool[k])
			}
		}
		form := [][2]string{{"in/", ""}, {"in/", "top/"}, {"in", "in"}, {"none", "x"}, {"ROOT/in/", ""}, {"/", "-"}}[rt.Choose(6)]
		root := fsx.Fresh()
		cont := map[string]string{"in/a": "alpha", "in/b.txt": fsx.Content("b", 3000), "in/sub/c": "gamma", "in/空": "k", "in/big": fsx.Content("big", 70000), "in/empty": "", "in/exec": "#!"}
		for f, c := range cont {
			fsx.Put(f, c)
		}
		fsx.Put("in/secret", "x")
		os.Chmod("in/secret", 0)
		os.Chmod("in/exec", 0o755)
		os.Chtimes("in/a", time.Unix(1e9, 0), time.Unix(1e9, 0))
		fsx.Put("out.zip", fsx.Content("old", 5000))
		in := files
		if form[0] == "ROOT/in/" {
			form[0] = root + "/in/"
			in = nil
			for _, f := range files {
				in = append(in, root+"/"+f)
			}
		}
		bad := false
		want := map[string]string{}
		var order []string
		for i, f := range files {
			c, ok := cont[f]
			bad = bad || !ok
			nm := strings.ReplaceAll(in[i], form[0], form[1])
			want[nm] = c
			order = append(order, nm)
		}
		err := zipFiles("out.zip", in, form[0], form[1])
		vh.Check((err != nil) == bad, "zip-error", "ZipFiles returned %v for the files %q", err, files)
		for f, c := range cont {
			got, _ := fsx.Get(f)
			vh.Check(got == c, "source", "ZipFiles changed %s", f)
		}
		os.Chmod("in/secret", 0o644)
		if err != nil {
			return
		}
		m, o, e := readZip("out.zip")
		vh.Check(e == nil, "unreadable", "the archive ZipFiles made cannot be read: %v", e)
		vh.Eq("names", strings.Join(o, "|"), strings.Join(order, "|"))
		for f, c := range want {
			vh.Check(m[f] == c, "zip-content", "%s is %.60q in the archive, want %.60q", f, m[f], c)
		}
		if strings.HasPrefix(form[0], "/") || len(files) == 0 {
			return
		}
		_, err = unzip("out.zip", "back")
		vh.Check(err == nil, "roundtrip", "Unzip of an archive of ZipFiles failed: %v", err)
		check("back", want, nil)
		var keys []string
		for _, x := range fsx.Tree("back") {
			if x[0] == 'f' {
				keys = append(keys, x)
			}
		}
		vh.Eq("roundtrip-files", len(keys), len(want))
		sort.Strings(keys)
		for i, f := range files {
			if f == "in/exec" {
				fi, e := os.Stat("back/" + order[i])
				vh.Check(e == nil && fi.Mode().Perm()&0o111 != 0, "mode", "the execute permission of %s is lost", f)
			}
		}
	}
}

// an archive whose writing fails after k bytes is reported
func createFaults() {
	step := vh.D(1, 1)
	set := rt.Choose(4)
	fsx.Fresh()
	files := [][]string{{"in/a"}, {"in/a", "in/b"}, {"in/rnd"}, nil}[set]
	if set == 3 { // mostly headers: the write that fails may be that of a header, and small or empty files follow
		pad := rt.Choose(40)
		for i := 0; i < 60; i++ {
			f := fmt.Sprintf("in/%s%02d", strings.Repeat("n", 100+pad), i)
			fsx.Put(f, []string{"", "x", "some text"}[i%3])
			files = append(files, f)
		}
	}
	fsx.Put("in/a", "alpha")
	fsx.Put("in/b", fsx.Content("b", 100))
	r, x := make([]byte, 6000), uint32(1)
	for i := range r { // does not compress
		x = x*1664525 + 1013904223
		r[i] = byte(x >> 24)
	}
	fsx.Put("in/rnd", string(r))
	err := zipFiles("full.zip", files, "in/", "")
	vh.Check(err == nil, "zip-error", "ZipFiles failed: %v", err)
	full, _ := fsx.Get("full.zip")
	n := len(full)
	var k int
	if set == 3 {
		k = []int{0, 4095, 4096, 8191, 8192, n - 1, n}[rt.Choose(7)]
	} else if set == 2 {
		pos := []int{0, 1, 29, 4095, 4096, 4097, 5000, n - 200, n - 100, n - 60, n - 23, n - 22, n - 21, n - 2, n - 1, n, n + 1}
		k = pos[rt.Choose(len(pos))]
	} else {
		k = rt.Choose(n/step+2) * step
	}
	fsx.FileLimit(k, func() { err = zipFiles("out.zip", files, "in/", "") })
	got, _ := fsx.Get("out.zip")
	if err == nil {
		vh.Check(got == full, "silent-truncation", "ZipFiles succeeded although writing failed after %d of %d bytes; the archive has %d bytes", k, n, len(got))
	} else {
		vh.Check(k <= n, "zip-error", "ZipFiles failed although nothing stood in the way: %v", err)
	}
}

// fewer descriptors than needed are an error; more files than descriptors are not
func createFew() {
	k := rt.Choose(5)
	fsx.Fresh()
	var files []string
	for i := 0; i < 40; i++ {
		f := fmt.Sprintf("in/f%d", i)
		fsx.Put(f, f)
		files = append(files, f)
	}
	var err error
	fsx.OpenLimit(k, func() { err = zipFiles("out.zip", files, "in/", "") })
	m, _, e := readZip("out.zip")
	if k < 2 {
		vh.Check(err != nil, "zip-error", "ZipFiles succeeded with %d descriptors", k)
		return
	}
	vh.Check(err == nil && e == nil && len(m) == 40, "descriptors", "ZipFiles of 40 files with %d descriptors: %v, %v, %d entries", k, err, e, len(m))
}

func noise(seed string, n int) string { // does not compress
	r, x := make([]byte, n), uint32(len(seed))
	for _, c := range seed {
		x = x*31 + uint32(c)
	}
	for i := range r {
		x = x*1664525 + 1013904223
		r[i] = byte(x >> 24)
	}
	return string(r)
}

// large: big contents, many files, long names and deep directories, there and back
func large() {
	var l []entry
	add := func(name string, n int, noisy bool) {
		c := ""
		if noisy {
			c = noise(name, n)
		} else {
			c = fsx.Content(name, n)
		}
		l = append(l, entry{name: name, content: c})
	}
	what := rt.Choose(5)
	switch what {
	case 0:
		for _, n := range []int{32767, 32768, 32769, 65535, 65536, 65537, 1 << 20} {
			add(fmt.Sprint("n", n), n, true)
			add(fmt.Sprint("c", n), n, false)
		}
	case 1:
		add("big", 9<<20+1, true)
		add("after", 10, false)
		add("zeros", 40<<20, false)
	case 2:
		for i := 0; i < 1200; i++ {
			add(fmt.Sprintf("d%d/s%d/f%d", i%3, i%11, i), i%97, i%2 == 0)
		}
	case 3:
		for i, n := range []int{100, 127, 128, 129, 199, 200, 254, 255} {
			add(strings.Repeat(string(rune('a'+i)), n), n, false)
		}
	case 4:
		for _, n := range []int{1, 10, 32, 33, 64, 100} {
			add(strings.Repeat("d/", n)+"f", n, false)
		}
	}
	order := rt.Choose(2)
	fsx.Fresh()
	if order == 1 {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	var files []string
	want := map[string]string{}
	for _, e := range l {
		fsx.Put("in/"+e.name, e.content)
		files = append(files, "in/"+e.name)
		want[e.name] = e.content
	}
	archive("ref.zip", l)
	var err error
	var paths []string
	vh.DoN("Unzip", 1000000, func() { paths, err = utils.Unzip("ref.zip", "out") })
	vh.Check(err == nil && len(paths) == len(l), "large", "Unzip returned %d paths, %v, for %d entries", len(paths), err, len(l))
	check("out", want, nil)
	os.RemoveAll("out")
	vh.DoN("ZipFiles", 1000000, func() { err = utils.ZipFiles("made.zip", files, "in/", "") })
	vh.Check(err == nil, "large", "ZipFiles of %d files failed: %v", len(files), err)
	m, o, e := readZip("made.zip")
	vh.Check(e == nil && len(o) == len(l) && len(m) == len(want), "large", "the archive of %d files has %d entries (%v)", len(l), len(o), e)
	for f, c := range want {
		vh.Check(m[f] == c, "zip-content", "%.80s has %d bytes in the archive, want %d (or another content)", f, len(m[f]), len(c))
	}
}

func main() {
	vh.Main("C28", func() []vh.Scenario {
		l := []vh.Scenario{
			{Name: "large", Split: 2, Body: large},
			{Name: "extract-names", Split: 3, Body: extract(0)},
			{Name: "extract-1", Split: 3, Body: extract(1)},
			{Name: "extract-2", Split: 3, Body: extract(2)},
			{Name: "extract-3", Split: 3, Body: extract(3)},
			{Name: "extract-faults", Split: 2, Body: extractFaults},
			{Name: "dir-only", Split: 2, Body: dirOnly},
			{Name: "many", Split: 1, Body: many},
			{Name: "corrupt", Split: 2, Body: corrupt},
			{Name: "create-1", Split: 2, Body: create(1)},
			{Name: "create-2", Split: 3, Body: create(2)},
			{Name: "create-3", Split: 3, Body: create(3)},
			{Name: "create-faults", Split: 2, Body: createFaults},
			{Name: "create-few", Body: createFew},
		}
		return l
	})
}
