// verif:rewrite help/utils tick,conc,fs,maps
package main

import (
	"archive/zip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// tree is what is below the work directory: path -> "d", "l target" or "f content".
type tree map[string]string

func now() tree {
	t := tree{}
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		switch {
		case p == ".":
		case err != nil:
			t[p] = "error"
		case fi.IsDir():
			t[p] = "d"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[p] = "l " + l
		default:
			c, ok := fsx.Get(p)
			if !ok {
				c = "<unreadable>"
			}
			if strings.HasSuffix(p, ".zip") {
				c = archive(p, c)
			}
			t[p] = "f " + c
		}
		return nil
	})
	return t
}

// archive describes an archive by what is in it (the bytes depend on the times of the files).
func archive(p, raw string) string {
	r, err := zip.OpenReader(p)
	if err != nil {
		return "broken"
	}
	defer r.Close()
	s := "archive"
	for _, f := range r.File {
		x, err := f.Open()
		if err != nil {
			return "broken"
		}
		b, err := io.ReadAll(x)
		x.Close()
		if err != nil {
			return "broken"
		}
		s += fmt.Sprintf("|%s=%x", f.Name, vh.FNV(string(b)))
	}
	return s
}

func (t tree) String() string {
	var l []string
	for p, c := range t {
		if len(c) > 60 {
			c = fmt.Sprintf("%s... (%d bytes, %x)", c[:40], len(c)-2, vh.FNV(c))
		}
		l = append(l, p+": "+c)
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func diff(a, b tree) string {
	var l []string
	for p, c := range a {
		if d, ok := b[p]; !ok {
			l = append(l, p+" is gone")
		} else if c != d {
			l = append(l, fmt.Sprintf("%s is %.40q (%d) instead of %.40q (%d)", p, d, len(d)-2, c, len(c)-2))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			l = append(l, p+" is new")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// act is one operation with the tree it works on.
type act struct {
	name  string
	setup func()
	run   func() (string, error)
	may   []string // what it may change: these paths and what is below them
	once  bool     // running it again does something else (see middle and last)
	// middle is asked after an interrupted or failed run, last after the repeated one
	middle func(c *ctx)
	last   func(c *ctx)
}

// ctx is what happened.
type ctx struct {
	before, now, ref tree
	stopped, torn    bool
	err              error
	devs             int
	res              string
}

var refs = map[string]ctx{}

func (a *act) allowed(p string) bool {
	for _, m := range a.may {
		if p == m || strings.HasPrefix(p, m+"/") {
			return true
		}
	}
	return false
}

func (a *act) reference() ctx {
	if r, ok := refs[a.name]; ok {
		return r
	}
	fsx.Fresh()
	a.setup()
	r := ctx{before: now()}
	rt.Simulate(rt.Config{Horizon: 1000000}, func() {
		vh.DoN(a.name, 1000000, func() { r.res, r.err = a.run() })
	})
	r.ref = now()
	refs[a.name] = r
	return r
}

// interrupted runs the operation with up to n deviations (a failing operation of the system, a stop of the process),
// rounds times, and then undisturbed.
func interrupted(acts []act, n, rounds int, kinds string) func() {
	return func() {
		a := &acts[rt.Choose(len(acts))]
		ref := a.reference()
		vh.Check(ref.err == nil, "undisturbed", "%s fails undisturbed: %v", a.name, ref.err)
		fsx.Fresh()
		a.setup()
		c := ctx{before: now(), ref: ref.ref}
		out := fsx.Outside()
		for r := 0; r < rounds; r++ {
			c.stopped, c.torn, c.devs, c.err = false, false, 0, nil
			left := n
			hook := func(op, path string, size int, change bool) rt.FSAct {
				if left == 0 {
					return rt.FSAct{}
				}
				o := []rt.FSAct{{}}
				if strings.Contains(kinds, "f") {
					o = append(o, rt.FSAct{Kind: rt.FSFail})
				}
				stop := strings.Contains(kinds, "s")
				if stop && change {
					o = append(o, rt.FSAct{Kind: rt.FSStop})
				}
				if op == "write" && strings.Contains(kinds, "t") {
					for _, k := range []int{1, size / 2, size - 1} {
						if k > 0 && k < size {
							o = append(o, rt.FSAct{Kind: rt.FSFail, N: k})
							if stop {
								o = append(o, rt.FSAct{Kind: rt.FSStop, N: k})
							}
						}
					}
				}
				x := o[rt.Choose(len(o))]
				if x.Kind != rt.FSGo {
					left--
					c.devs++
					c.torn = c.torn || x.N > 0
					rt.Tracef("%s: %s %s, %d bytes of %d", []string{"", "fails", "the process stops before"}[x.Kind], op, path, x.N, size)
				}
				return x
			}
			// stops of one process: package state does not outlive it
			rt.Simulate(rt.Config{Horizon: 1000000}, func() {
				vh.DoN(a.name, 1000000, func() {
					c.stopped = rt.FSRun(hook, func() { c.res, c.err = a.run() })
				})
			})
			c.now = now()
			vh.Check(fsx.Fds() <= 0, "fd-leak:"+a.name, "%s leaves files open", a.name)
			rt.Tracef("%s -> %q, %v, stopped %v", a.name, c.res, c.err, c.stopped)
			vh.Eq("outside:"+a.name, fsx.Outside(), out)
			for p, x := range c.before {
				if !a.allowed(p) {
					vh.Check(c.now[p] == x, "untouched:"+a.name, "%s, interrupted or failed (%v), changed %s: %s", a.name, c.err, p, diff(c.before, c.now))
				}
			}
			for p := range c.now {
				_, had := c.before[p]
				for _, m := range a.may { // directories on the way may be made
					had = had || c.now[p] == "d" && strings.HasPrefix(m, p+"/")
				}
				vh.Check(had || a.allowed(p), "untouched:"+a.name, "%s, interrupted or failed (%v), made %s", a.name, c.err, p)
			}
			if !c.stopped && c.err == nil {
				vh.Check(c.res == ref.res, "false-success:"+a.name, "%s reports success and %q instead of %q although the system failed", a.name, c.res, ref.res)
				if !a.once {
					vh.Check(diff(c.ref, c.now) == "", "false-success:"+a.name, "%s reports success but: %s", a.name, diff(c.ref, c.now))
				}
			}
			if a.middle != nil {
				a.middle(&c)
			}
		}
		mid := c.now
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			vh.DoN(a.name, 1000000, func() { c.res, c.err = a.run() })
		})
		c.before, c.now = mid, now()
		rt.Tracef("%s again -> %q, %v", a.name, c.res, c.err)
		if a.last != nil {
			a.last(&c)
			return
		}
		vh.Check(c.err == nil && c.res == ref.res, "repeat:"+a.name, "%s, repeated after an interrupted run, gives %q, %v, undisturbed it gives %q", a.name, c.res, c.err, ref.res)
		vh.Check(diff(c.ref, c.now) == "", "repeat:"+a.name, "%s, repeated after an interrupted run, leaves another result: %s", a.name, diff(c.ref, c.now))
	}
}

func main() {
	vh.Main("C41", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "single", Split: 3, Body: interrupted(acts(), 1, 1, "fst")},
			{Name: "twice", Split: 4, Body: interrupted(acts(), 1, 2, map[bool]string{false: "fs", true: "fst"}[vh.Thorough])},
			{Name: "double", Split: 4, Body: interrupted(acts(), 2, 1, "fst")},
			{Name: "double-twice", Thorough: true, Split: 4, Body: interrupted(acts(), 2, 2, "fst")},
		}
	})
}
