// verif:rewrite help/utils tick,maps
package main

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// tree is the model of a directory: path -> "d" or "f"+content
type tree map[string]string

func (t tree) clone() tree {
	n := tree{}
	for k, v := range t {
		n[k] = v
	}
	return n
}

func (t tree) String() string {
	var l []string
	for k, v := range t {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func parent(p string) string {
	i := strings.LastIndex(p, "/")
	if i < 0 {
		return ""
	}
	return p[:i]
}

func (t tree) isDir(p string) bool  { return p == "" || t[p] == "d" }
func (t tree) isFile(p string) bool { return strings.HasPrefix(t[p], "f") }

// mkdirAll tells whether the directory could be made.
func (t tree) mkdirAll(p string) bool {
	if p == "" {
		return true
	}
	if t.isFile(p) || !t.mkdirAll(parent(p)) {
		return false
	}
	t[p] = "d"
	return true
}

func (t tree) del(p string) {
	for k := range t {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(t, k)
		}
	}
}

func (t tree) belowFile(p string) bool {
	for q := parent(p); q != ""; q = parent(q) {
		if t.isFile(q) {
			return true
		}
	}
	return false
}

func real(root string) tree {
	t := tree{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if rel == "." || err != nil {
			return nil
		}
		if fi.IsDir() {
			t[rel] = "d"
		} else {
			c, _ := fsx.Get(p)
			t[rel] = "f" + c
		}
		return nil
	})
	return t
}

var names = []string{"a", "b.png", "d", "d/x", "d/e", "d/e/y", "n/m"}

func predicates(t tree) {
	for _, p := range append([]string{"zz", "d/zz"}, names...) {
		if t.belowFile(p) {
			vh.Check(!utils.FileExist(p) && !utils.FileIsExisted(p) && !utils.IsDir(p) && !utils.IsFile(p), "below-file", "%s is below a file and is reported to exist", p)
			continue
		}
		f, d := t.isFile(p), t[p] == "d"
		vh.Check(utils.IsDir(p) == d, "isdir", "IsDir(%s) = %v in {%s}", p, !d, t)
		vh.Check(utils.IsFile(p) == f, "isfile", "IsFile(%s) = %v in {%s}", p, !f, t)
		vh.Check(utils.FileExist(p) == f, "fileexist", "FileExist(%s) = %v in {%s}", p, !f, t)
		vh.Check(utils.FileIsExisted(p) == (f || d), "fileisexisted", "FileIsExisted(%s) = %v in {%s}", p, !(f || d), t)
		ok, err := utils.PathExists(p)
		vh.Check(ok == d && (err != nil) == f, "pathexists", "PathExists(%s) = %v, %v in {%s}", p, ok, err, t)
		sum, err := utils.FileMd5(p)
		if f {
			vh.Check(err == nil && sum == fmt.Sprintf("%x", md5.Sum([]byte(t[p][1:]))), "filemd5", "FileMd5(%s) = %s, %v", p, sum, err)
		} else {
			vh.Check(err != nil, "filemd5", "FileMd5(%s) = %s without error although it is no file", p, sum)
		}
	}
	for _, p := range []string{"", "d", "d/e"} {
		arg := "./" + p
		if p == "d/e" {
			arg = p + "/"
		}
		l, err := utils.ScanDir(arg)
		if !t.isDir(p) {
			vh.Check(err != nil, "scandir", "ScanDir(%s) succeeded although it is no directory", arg)
			continue
		}
		var want []string
		for k := range t {
			if t.isFile(k) && (p == "" || strings.HasPrefix(k, p+"/")) {
				want = append(want, k)
			}
		}
		sort.Strings(want)
		var got []string
		for _, x := range l {
			got = append(got, filepath.Clean(x))
		}
		sort.Strings(got)
		vh.Check(err == nil && strings.Join(got, "|") == strings.Join(want, "|"), "scandir", "ScanDir(%s) = %q, %v; the files are %q", arg, l, err, want)
	}
	vh.Check(fsx.Fds() <= 0, "fd-leak", "files are left open")
}

func step(root string, t tree, i int) tree {
	before := t
	t = t.clone()
	var err error
	allowed := []tree{t} // the states an error may leave
	must := true         // must succeed
	switch rt.Choose(7) {
	case 0: // a file appears
		p := names[rt.Choose(len(names))]
		if !t.isDir(parent(p)) || t[p] == "d" {
			rt.Prune()
		}
		c := strings.Repeat(string(rune('A'+i)), []int{0, 3, 9}[rt.Choose(3)])
		os.WriteFile(p, []byte(c), 0o644)
		t[p] = "f" + c
		rt.Tracef("write %s %q", p, c)
	case 1:
		p := names[2+rt.Choose(5)]
		vh.Do("MkDir", func() { err = utils.MkDir(p) })
		rt.Tracef("MkDir(%s) -> %v", p, err)
		must = t.mkdirAll(p)
	case 2:
		p, q := names[2+rt.Choose(5)], names[2+rt.Choose(5)]
		vh.Do("CreateDir", func() { err = utils.CreateDir(p, q) })
		rt.Tracef("CreateDir(%s, %s) -> %v", p, q, err)
		must = t.mkdirAll(p)
		allowed = append(allowed, t.clone())
		must = t.mkdirAll(q) && must
	case 3:
		dst, src := names[rt.Choose(len(names))], names[rt.Choose(len(names))]
		var n int64
		vh.Do("CopyFile", func() { n, err = utils.CopyFile(dst, src) })
		rt.Tracef("CopyFile(%s, %s) -> %d, %v", dst, src, n, err)
		must = t.isFile(src) && t.isDir(parent(dst)) && t[dst] != "d"
		if must {
			t[dst] = t[src]
			vh.Check(err != nil || n == int64(len(t[src])-1), "copy-count", "CopyFile of %d bytes returned %d", len(t[src])-1, n)
		} else if !t.isFile(src) && t.isDir(parent(dst)) && t[dst] != "d" { // an error may leave a destination behind
			x := t.clone()
			x[dst] = "f"
			if before.isFile(dst) {
				x[dst] = before[dst]
			}
			allowed = append(allowed, x)
		}
	case 4, 5:
		src, dst := names[rt.Choose(len(names))], append(names, "")[rt.Choose(len(names)+1)]
		abs := rt.Choose(2) == 1
		s, d := src, dst
		if abs && dst != "" {
			s, d = "./"+src, root+"/"+dst
		}
		vh.Do("FileMove", func() { err = utils.FileMove(s, d) })
		rt.Tracef("FileMove(%s, %s) -> %v", s, d, err)
		if dst == "" {
			break
		}
		dirs := t.clone()
		okDirs := dirs.mkdirAll(parent(dst))
		allowed = append(allowed, dirs)
		_, exists := t[src]
		must = okDirs && exists && !strings.HasPrefix(dst, src+"/")
		if _, taken := t[dst]; must && t[src] == "d" && taken { // a directory does not replace anything
			must = false
		}
		if must && t.isFile(src) && t[dst] == "d" {
			must = false
		}
		if must && src != dst {
			n := dirs.clone()
			for k, v := range dirs {
				if k == src || strings.HasPrefix(k, src+"/") {
					delete(n, k)
					n[dst+k[len(src):]] = v
				}
			}
			t = n
		} else if must {
			t = dirs
		}
	case 6:
		p := names[rt.Choose(len(names))]
		vh.Do("DeLFile", func() { err = utils.DeLFile(p) })
		rt.Tracef("DeLFile(%s) -> %v", p, err)
		below := t.belowFile(p)
		must = !below
		t.del(p)
		if below && err == nil {
			must = true
		}
	}
	now := real(root)
	if err == nil {
		vh.Check(must, "false-success", "the operation reported success from {%s}", before)
		vh.Check(now.String() == t.String(), "effect", "from {%s} the operation led to {%s}, want {%s}", before, now, t)
		return t
	}
	vh.Check(!must, "refused", "the operation failed from {%s}: %v", before, err)
	for _, x := range append(allowed, before) {
		if now.String() == x.String() {
			return x
		}
	}
	rt.Fail("damage", "the operation failed (%v) and changed {%s} to {%s}", err, before, now)
	return nil
}

func sequences(depth int) func() {
	return func() {
		root := fsx.Fresh()
		t := tree{}
		switch rt.Choose(3) {
		case 1:
			t = tree{"a": "falpha", "d": "d", "d/x": "fxx", "b.png": "f"}
		case 2:
			t = tree{"a": "fa long content", "d": "d", "d/e": "d", "d/e/y": "fy", "d/x": "flonger than that of a", "n": "fn"}
		}
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if t[k] == "d" {
				os.MkdirAll(k, 0o755)
			} else {
				fsx.Put(k, t[k][1:])
			}
		}
		vh.Steps(depth, func() uint64 { return vh.FNV(t.String()) }, func(i int) {
			t = step(root, t, i)
			vh.Eq("outside", fsx.Outside(), "")
			predicates(t)
		})
	}
}

// copies of every size over every earlier size, also onto itself through links
func copies() {
	sizes := []int{0, 1, 2, 100, 4095, 4096, 4097, 32768, 32769, 100000, 1 << 20, 3<<20 + 7}
	n := sizes[rt.Choose(len(sizes))]
	how := rt.Choose(len(sizes) + 6)
	fsx.Fresh()
	c := fsx.Content("src", n)
	fsx.Put("src", c)
	dst := "dst"
	switch {
	case how < len(sizes):
		fsx.Put("dst", fsx.Content("old", sizes[how]))
	case how == len(sizes)+1:
		dst = "src"
	case how == len(sizes)+2:
		os.Link("src", "dst")
	case how == len(sizes)+3:
		os.Symlink("src", "dst")
	case how == len(sizes)+4:
		os.Symlink("target", "dst")
		fsx.Put("target", fsx.Content("old", n+7))
	case how == len(sizes)+5:
		fsx.Put("dst", fsx.Content("old", n+7))
		os.Chmod("dst", 0o200)
	}
	var w int64
	var err error
	vh.Do("CopyFile", func() { w, err = utils.CopyFile(dst, "src") })
	os.Chmod("dst", 0o644)
	rt.Tracef("CopyFile(%s, src) of %d bytes (case %d) -> %d, %v", dst, n, how, w, err)
	vh.Check(err == nil && w == int64(n), "copy", "CopyFile of %d bytes returned %d, %v", n, w, err)
	got, _ := fsx.Get(dst)
	vh.Check(got == c, "copy-content", "the copy of %d bytes has %d bytes %.60q", n, len(got), got)
	got, _ = fsx.Get("src")
	vh.Check(got == c, "copy-source", "CopyFile changed its source")
	fi, e := os.Stat(dst)
	vh.Check(e == nil && fi.Mode().Perm()&0o600 == 0o600, "copy-mode", "the copy is not readable and writable")
}

// failing copies are reported and leave the source alone
func copyFaults() {
	n := 30
	k := rt.Choose(n + 2)
	old := rt.Choose(3)
	fsx.Fresh()
	c := fsx.Content("s", n)
	fsx.Put("src", c)
	if old > 0 {
		fsx.Put("dst", fsx.Content("old", []int{0, 50, 10}[old]))
	}
	var w int64
	var err error
	fsx.FileLimit(k, func() { w, err = utils.CopyFile("dst", "src") })
	rt.Tracef("CopyFile with writes failing after %d of %d bytes -> %d, %v", k, n, w, err)
	vh.Check(k == n || (err == nil) == (k > n), "copy-fault", "CopyFile with writes failing after %d of %d bytes returned %d, %v", k, n, w, err)
	got, _ := fsx.Get("src")
	vh.Check(got == c, "copy-source", "a failed CopyFile changed its source")
	vh.Check(fsx.Fds() <= 0, "fd-leak", "files are left open")
	w, err = utils.CopyFile("dst", "src")
	got, _ = fsx.Get("dst")
	vh.Check(err == nil && got == c && w == int64(n), "copy-retry", "the repeated copy: %v, %d bytes, %.60q", err, w, got)
	fsx.OpenLimit(k%2, func() { _, err = utils.CopyFile("dst2", "src") })
	vh.Check(err != nil, "copy-fault", "CopyFile succeeded with %d descriptors", k%2)
}

func scan(dir string, want ...string) {
	var l []string
	var err error
	vh.Do("ScanDir", func() { l, err = utils.ScanDir(dir) })
	sort.Strings(l)
	sort.Strings(want)
	vh.Check(err == nil && strings.Join(l, "|") == strings.Join(want, "|"), "scandir", "ScanDir(%s) = %q, %v; the files are %q", dir, l, err, want)
}

// deep and wide trees
func deep() {
	n := []int{1, 2, 7, 16, 33, 64, 130, 400}[rt.Choose(8)]
	width := []int{1, 3}[rt.Choose(2)]
	how := rt.Choose(2)
	fsx.Fresh()
	fsx.Put("keep/k", "kept")
	dir := "top"
	var dirs, files []string
	for i := 0; i < n; i++ {
		dir += "/d"
		dirs = append(dirs, dir)
	}
	var err error
	if how == 0 {
		vh.Do("CreateDir", func() { err = utils.CreateDir(dirs[n-1]) })
	} else {
		vh.Do("MkDir", func() { err = utils.MkDir(dirs[n-1]) })
	}
	vh.Check(err == nil && utils.IsDir(dirs[n-1]), "create", "making %d nested directories: %v", n, err)
	for i, d := range dirs {
		for j := 0; j < width; j++ {
			f := fmt.Sprintf("%s/f%d", d, j)
			fsx.Put(f, fmt.Sprint("content ", i, j))
			files = append(files, f)
		}
	}
	scan("top", files...)
	last := files[len(files)-1]
	c, _ := fsx.Get(last)
	vh.Do("FileMove", func() { err = utils.FileMove(last, dirs[n/2]+"/moved") })
	got, ok := fsx.Get(dirs[n/2] + "/moved")
	vh.Check(err == nil && ok && got == c && !utils.FileExist(last), "move", "moving a file %d levels down: %v", n, err)
	files[len(files)-1] = dirs[n/2] + "/moved"
	scan("top", files...)
	vh.Do("DeLFile", func() { err = utils.DeLFile(dirs[n/2]) })
	var rest []string
	for _, f := range files {
		if !strings.HasPrefix(f, dirs[n/2]+"/") {
			rest = append(rest, f)
		}
	}
	ex, _ := utils.PathExists(dirs[n/2])
	vh.Check(err == nil && !ex, "delete", "deleting %d levels: %v", n-n/2, err)
	os.Mkdir("top/empty", 0o755)
	scan("top", rest...)
	scan("keep", "keep/k")
	vh.Check(fsx.Fds() <= 0, "fd-leak", "files are left open")
}

// links and permissions
func special() {
	fsx.Fresh()
	fsx.Put("d/f", "content")
	fsx.Put("keep/k", "kept")
	switch rt.Choose(12) {
	case 0: // deleting a link leaves its target
		os.Symlink("keep", "d/l")
		err := utils.DeLFile("d/l")
		vh.Check(err == nil, "delete", "DeLFile of a link: %v", err)
	case 1:
		os.Symlink("../keep", "d/l")
		err := utils.DeLFile("d")
		vh.Check(err == nil && !utils.FileIsExisted("d"), "delete", "DeLFile of a directory: %v", err)
	case 2:
		vh.Check(utils.DeLFile("absent") == nil, "delete", "DeLFile of nothing is an error")
	case 3:
		os.Chmod("d", 0)
		_, err := utils.ScanDir("d")
		_, err2 := utils.ScanDir(".")
		os.Chmod("d", 0o755)
		vh.Check(err != nil && err2 != nil, "scandir", "ScanDir succeeded on a tree it cannot read: %v, %v", err, err2)
	case 4:
		os.Chmod("d/f", 0)
		_, err := utils.FileMd5("d/f")
		_, err2 := utils.CopyFile("x", "d/f")
		os.Chmod("d/f", 0o644)
		vh.Check(err != nil && err2 != nil, "unreadable", "an unreadable file was read: %v, %v", err, err2)
	case 5:
		os.Chmod("d", 0o555)
		err := utils.FileMove("d/f", "x/y")
		err2 := utils.DeLFile("d/f")
		err3 := utils.CreateDir("e1", "d/sub", "e2")
		os.Chmod("d", 0o755)
		c, ok := fsx.Get("d/f")
		vh.Check(err != nil && err2 != nil && err3 != nil && ok && c == "content", "forbidden", "forbidden operations: %v, %v, %v", err, err2, err3)
	case 6:
		n := 0
		for i := 0; i < 300; i++ {
			fsx.Put(fmt.Sprintf("many/%d/%d", i%17, i), "x")
		}
		var l []string
		var err error
		fsx.OpenLimit(6, func() { l, err = utils.ScanDir("many") })
		for range l {
			n++
		}
		vh.Check(err == nil && n == 300 && fsx.Fds() <= 0, "scandir", "ScanDir of 300 files: %d, %v", n, err)
	case 7:
		err := utils.FileMove("d", "d/sub/dir")
		c, ok := fsx.Get("d/f")
		vh.Check(err != nil && ok && c == "content", "move", "moving a directory into itself: %v", err)
	case 8:
		var err error
		fsx.Put("x/y/z", "old")
		err = utils.FileMove("d/f", "x/y/z")
		c, ok := fsx.Get("x/y/z")
		vh.Check(err == nil && ok && c == "content" && !utils.FileExist("d/f"), "move", "moving over a file: %v", err)
	case 9: // hidden names, and names like the special ones
		want := []string{"d/.g/f", "d/.h", "d/..x", "d/...", "d/a b", "d/漢", "d/-r", "d/f", "d/*"}
		for _, p := range want {
			if p != "d/f" {
				fsx.Put(p, p)
			}
		}
		os.MkdirAll("d/.empty", 0o755)
		scan("d", want...)
		scan("d/", want...)
	case 10: // links are entries themselves, wherever they lead
		os.Symlink("../keep", "d/todir")
		os.Symlink("..", "d/loop")
		os.Symlink("f", "d/tofile")
		os.Symlink("nowhere", "d/dangling")
		scan("d", "d/f", "d/todir", "d/loop", "d/tofile", "d/dangling")
	case 11: // what links lead to
		os.Symlink("../keep", "d/todir")
		os.Symlink("f", "d/tofile")
		os.Symlink("nowhere", "d/dangling")
		os.Symlink("self", "d/self")
		for p, w := range map[string]string{"d/todir": "d", "d/tofile": "f", "d/dangling": "", "d/todir/k": "f", "d/tofile/x": "", "keep/../d/f": "f"} {
			vh.Check(utils.IsDir(p) == (w == "d") && utils.IsFile(p) == (w == "f") && utils.FileIsExisted(p) == (w != ""), "link", "IsDir, IsFile, FileIsExisted(%s) = %v, %v, %v, want those of %q", p, utils.IsDir(p), utils.IsFile(p), utils.FileIsExisted(p), w)
			ok, err := utils.PathExists(p)
			if p != "d/tofile/x" {
				vh.Check(ok == (w == "d") && (err != nil) == (w == "f"), "link", "PathExists(%s) = %v, %v", p, ok, err)
			}
		}
		for _, p := range []string{"d/todir", "d/tofile", "d/dangling", "d/self", "d/f"} {
			vh.Check(utils.FileExist(p), "link", "FileExist(%s) = false: a link is taken for a file", p)
		}
		sum, err := utils.FileMd5("d/tofile")
		vh.Check(err == nil && sum == fmt.Sprintf("%x", md5.Sum([]byte("content"))), "link", "FileMd5 of a link: %s, %v", sum, err)
	}
	c, ok := fsx.Get("keep/k")
	vh.Check(ok && c == "kept", "damage", "an operation on other files touched keep/k")
}

// the checksum of a stream does not depend on how it is read
func sums() {
	n := []int{0, 1, 63, 64, 65, 4096, 32768, 32769, 200000, 1 << 20, 1<<20 + 1, 3<<20 + 5}[rt.Choose(12)]
	how := rt.Choose(5)
	c := fsx.Content("sum", n)
	var r io.Reader = strings.NewReader(c)
	switch how {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.HalfReader(r)
	case 3:
		r = iotest.DataErrReader(r)
	case 4:
		r = struct{ io.Reader }{bytes.NewReader([]byte(c))}
	}
	want := fmt.Sprintf("%x", md5.Sum([]byte(c)))
	var got string
	vh.Do("ComputeFileMD5", func() { got = utils.ComputeFileMD5(r) })
	vh.Eq("sum", got, want)
	fsx.Fresh()
	fsx.Put("f", c)
	var err error
	vh.Do("FileMd5", func() { got, err = utils.FileMd5("f") })
	vh.Eq("sum", got, want)
	vh.Check(err == nil, "sum", "FileMd5: %v", err)
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "root-child" {
		rootChild(os.Args[2:])
		return
	}
	vh.Main("C29", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "copies", Split: 2, Body: copies},
			{Name: "copy-faults", Split: 2, Body: copyFaults},
			{Name: "special", Split: 1, Body: special},
			{Name: "root", Split: 2, Body: root},
			{Name: "deep", Split: 2, Body: deep},
			{Name: "sums", Split: 2, Body: sums},
			{Name: "seq", Split: 3, Body: sequences(vh.D(2, 3))},
		}
	})
}
