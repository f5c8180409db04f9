// verif:rewrite help/utils tick,conc,mem,rand,maps
// verif:rewrite gorm_tools tick,conc,mem,maps
// verif:rewrite common/... tick,conc,mem,maps
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// op is one function of the repository, or the life of one instance. mk prepares the arguments of a slot; run calls the
// function and returns how to render everything that came of it: results, files, and the arguments themselves.
type op struct {
	group, name string
	mk          func(slot int) interface{}
	run         func(slot int, arg interface{}) func() string
	slow        bool // starts processes
	own         bool // arguments are not shared between callers
}

var ops []op

func reg(group, name string, mk func(slot int) interface{}, run func(slot int, arg interface{}) func() string) *op {
	ops = append(ops, op{group: group, name: group + "." + name, mk: mk, run: run})
	return &ops[len(ops)-1]
}

// expected asks a fresh process for the result of one call in one slot.
var (
	expMu  sync.Mutex
	expect = map[string]string{}
)

func alone(o *op, slot int) string { return aloneKey(fmt.Sprintf("%s/%d", o.name, slot)) }

func aloneKey(k string) string {
	expMu.Lock()
	defer expMu.Unlock()
	if v, ok := expect[k]; ok {
		return v
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	wd, _ := os.Getwd()
	defer os.Chdir(wd)
	dir := fsx.Fresh()
	c := exec.Command(self)
	c.Env = append(os.Environ(), "VERIF_ALONE="+k)
	c.Dir = dir
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		vh.Check(false, "alone", "%s on its own ends with %v: %s", k, err, b)
	}
	var s string
	if json.Unmarshal(b, &s) != nil {
		panic("bad answer of the child: " + string(b))
	}
	expect[k] = s
	return s
}

func child(k string) {
	p := strings.LastIndex(k, "/")
	slot, _ := strconv.Atoi(k[p+1:])
	for i := range fams {
		if f := &fams[i]; "="+f.group+"."+f.name == k[:p] {
			var s string
			rt.Simulate(rt.Config{Horizon: 1000000}, func() { s = f.run(slot) })
			b, _ := json.Marshal(s)
			os.Stdout.Write(b)
			return
		}
	}
	for i := range ops {
		if o := &ops[i]; o.name == k[:p] {
			var s string
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Fprintln(os.Stderr, "panic:", r)
						os.Exit(3)
					}
				}()
				rt.Simulate(rt.Config{Horizon: 1000000}, func() {
					s = o.run(slot, o.mk(slot))()
				})
			}()
			b, _ := json.Marshal(s)
			os.Stdout.Write(b)
			return
		}
	}
	os.Exit(4)
}

func call(o *op, slot int, arg interface{}) func() string {
	var r func() string
	vh.DoN(o.name, 1000000, func() { r = o.run(slot, arg) })
	return r
}

func eq(o *op, slot int, got, when string) {
	want := alone(o, slot)
	vh.Check(got == want, o.name, "%s (arguments %d) gives %.300q %s, on its own in a fresh process it gives %.300q", o.name, slot, got, when, want)
}

// in: "help" is everything of the helper package, "all" is everything
func in(o *op, group string) bool {
	return o.group == group || group == "all" || group == "help" && (o.group == "utils" || o.group == "files")
}

// sequences: what was called before does not matter, and later calls do not change earlier results
func sequences(group string, n, slots int) func() {
	var l []*op
	for i := range ops {
		if o := &ops[i]; in(o, group) && !o.slow {
			l = append(l, o)
		}
	}
	return func() {
		type step struct {
			o    *op
			slot int
		}
		var st []step
		for i := 0; i < n; i++ {
			o := l[rt.Choose(len(l))]
			st = append(st, step{o, rt.Choose(slots)})
		}
		for _, s := range st {
			alone(s.o, s.slot)
		}
		fsx.Fresh()
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			var res []func() string
			for _, s := range st {
				r := call(s.o, s.slot, s.o.mk(s.slot))
				rt.Tracef("%s(%d)", s.o.name, s.slot)
				eq(s.o, s.slot, r(), "after other calls")
				res = append(res, r)
			}
			for i, s := range st {
				again := false // a later call in the same place may change files it made
				for _, t := range st[i+1:] {
					again = again || t.o == s.o && t.slot == s.slot
				}
				if !again {
					eq(s.o, s.slot, res[i](), "read after later calls")
				}
			}
		})
	}
}

// pairs: two calls at the same time, with own or with the same arguments
func pairs(group string, self bool) func() {
	var l []*op
	for i := range ops {
		if o := &ops[i]; in(o, group) {
			l = append(l, o)
		}
	}
	return func() {
		i := rt.Choose(len(l))
		j := i
		if !self {
			j = i + 1
			if j >= len(l) {
				rt.Prune()
			}
			j += rt.Choose(len(l) - j)
		}
		a, b := l[i], l[j]
		if (a.slow || b.slow) && !self || group == "help" && a.group == b.group {
			rt.Prune()
		}
		sa, sb := 0, 1
		shared := false
		if self && !a.own && rt.Choose(2) == 1 {
			shared, sb = true, 0
		}
		wa, wb := alone(a, sa), alone(b, sb)
		_, _ = wa, wb
		fsx.Fresh()
		rt.Simulate(rt.Config{PlainPts: !a.slow, Races: true, Horizon: 200000}, func() {
			xa := a.mk(sa)
			xb := xa
			if !shared {
				xb = b.mk(sb)
			}
			var ra, rb func() string
			rt.Tracef("%s(%d) || %s(%d) shared=%v", a.name, sa, b.name, sb, shared)
			rt.GoNamed("first", func() { ra = call(a, sa, xa) })
			rt.GoNamed("second", func() { rb = call(b, sb, xb) })
			rt.IdleUntil(rt.Now() + int64(200*time.Hour))
			vh.Check(ra != nil && rb != nil, "blocked", "%s and %s at the same time: a call never returns: %s", a.name, b.name, rt.UnfinishedNames())
			eq(a, sa, ra(), "together with "+b.name)
			eq(b, sb, rb(), "together with "+a.name)
		})
	}
}

func main() {
	if k := os.Getenv("VERIF_ALONE"); k != "" {
		child(k)
		return
	}
	vh.Main("C40", func() []vh.Scenario {
		var l []vh.Scenario
		seen := map[string]bool{}
		var groups []string
		for _, o := range ops {
			if !seen[o.group] {
				seen[o.group] = true
				groups = append(groups, o.group)
			}
		}
		// self pairs come first: what is made at first use is made there
		for _, g := range groups {
			b := 2
			if g == "types" {
				b = 1
			}
			l = append(l, vh.Scenario{Name: "self-" + g, Split: 2, Bound: b, BoundT: b + 1, Body: pairs(g, true)})
		}
		for _, g := range groups {
			l = append(l, vh.Scenario{Name: "pairs-" + g, Split: 2, Bound: 1, BoundT: 1, Body: pairs(g, false)})
			l = append(l, vh.Scenario{Name: "similar-" + g, Split: 2, Body: similar(g)})
			l = append(l, vh.Scenario{Name: "seq-" + g, Split: 3, Body: sequences(g, vh.D(3, 4), 2)})
		}
		l = append(l, vh.Scenario{Name: "pairs-help", Split: 2, Bound: 1, Body: pairs("help", false)})
		l = append(l, vh.Scenario{Name: "seq-all", Split: 3, Body: sequences("all", vh.D(2, 3), 2)})
		return l
	})
}
