// Package fsx is the file system side of the file checks: a fresh scratch tree per execution, snapshots of
// trees, and exhaustively placed faults (writes that fail after k bytes, opens that fail).
package fsx

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

var root string
var few bool
var leaked int // lowest free descriptor at Fresh

// Fresh empties the work directory, makes it the current one and returns its path.
func Fresh() string {
	NoLimits()
	if root == "" {
		r, err := filepath.EvalSymlinks(vh.Scratch)
		must(err)
		root = filepath.Join(r, "w", "d") // one level of room for escapes
	}
	top := filepath.Dir(root)
	must(os.MkdirAll(top, 0o755))
	must(os.Chdir(top))
	l, err := os.ReadDir(top)
	must(err)
	for _, e := range l {
		p := filepath.Join(top, e.Name())
		if os.RemoveAll(p) != nil {
			filepath.Walk(p, func(q string, fi os.FileInfo, err error) error {
				if fi != nil && fi.IsDir() {
					os.Chmod(q, 0o755)
				}
				return nil
			})
			must(os.RemoveAll(p))
		}
	}
	must(os.MkdirAll(root, 0o755))
	must(os.Chdir(root))
	if leaked == 0 { // let the runtime open what it needs for files
		must(os.WriteFile("x", nil, 0o644))
		must(os.Remove("x"))
	}
	leaked = lowest()
	return root
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// Put writes a file (and its directories).
func Put(path, content string) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, []byte(content), 0o644))
}

// Get reads a file; ok tells whether it is there.
func Get(path string) (string, bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", false
	}
	return string(b), true
}

// Tree lists everything below dir: "d name", "f name content", "l name target".
func Tree(dir string) []string {
	out := []string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		switch {
		case err != nil:
			out = append(out, "e "+rel)
		case fi.IsDir():
			out = append(out, "d "+rel)
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out = append(out, "l "+rel+" "+t)
		default:
			c, ok := Get(p)
			if !ok {
				c = "<unreadable>"
			}
			out = append(out, fmt.Sprintf("f %s %q", rel, c))
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// State is Tree in one string.
func State(dir string) string { return strings.Join(Tree(dir), "\n") }

// Outside is the state of the directory above the work directory without the work directory itself.
func Outside() string {
	var l []string
	for _, x := range Tree(filepath.Dir(root)) {
		if x != "d d" && !strings.HasPrefix(x, "d d/") && !strings.HasPrefix(x, "f d/") && !strings.HasPrefix(x, "l d/") {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

// Fds tells how far the lowest free descriptor moved since Fresh: more than 0 when files were left open.
func Fds() int {
	if few { // not while descriptors are limited
		return 0
	}
	return lowest() - leaked
}

func lowest() int {
	fd, err := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
	must(err)
	syscall.Close(fd)
	return fd
}

const infinity = ^uint64(0)

func setlimit(what int, v uint64) {
	var l syscall.Rlimit
	must(syscall.Getrlimit(what, &l))
	if v > l.Max {
		v = l.Max
	}
	l.Cur = v
	must(syscall.Setrlimit(what, &l))
}

// NoLimits lifts the faults.
func NoLimits() {
	setlimit(syscall.RLIMIT_FSIZE, infinity)
	setlimit(syscall.RLIMIT_NOFILE, 1024)
	few = false
}

// FileLimit makes every write beyond byte n of any file fail (after writing what fits) while f runs.
func FileLimit(n int, f func()) {
	defer NoLimits()
	setlimit(syscall.RLIMIT_FSIZE, uint64(n))
	f()
}

// OpenLimit lets f have only n files open at a time.
func OpenLimit(n int, f func()) {
	defer NoLimits()
	low := lowest()
	// descriptors above the lowest free one may be taken: count the free ones
	lim := low
	for free := 0; free < n; lim++ {
		if _, err := os.Readlink("/proc/self/fd/" + strconv.Itoa(lim)); err != nil {
			free++
		}
	}
	few = true
	setlimit(syscall.RLIMIT_NOFILE, uint64(lim))
	f()
}

// Content makes n distinguishable bytes.
func Content(tag string, n int) string {
	if n == 0 {
		return ""
	}
	s := strings.Repeat("<"+tag+">", n/(len(tag)+2)+1)
	b := []byte(s[:n])
	for i := 96; i < n; i += 97 { // not periodic
		b[i] = byte('A' + (i/97)%26)
	}
	return string(b)
}
