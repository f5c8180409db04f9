// verif:rewrite common/timer/timingwheel tick,conc,mem,maps
// verif:rewrite common/container/heap tick,mem,maps
// verif:rewrite common/container/list tick,mem,maps
package main

import (
	"fmt"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/lib/twx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const ms = twx.MS

func ended(w *twx.World) {
	vh.Check(w.Ended, "run-continues", "Run has not returned after the cancellation: %s", rt.UnfinishedNames())
	vh.Check(len(rt.Unfinished()) == 0, "leak", "goroutines remain after Run returned: %s", rt.UnfinishedNames())
}

// after the shutdown the wheel still accepts timers without blocking, and they can be stopped
func usable(w *twx.World, tick, size int64) {
	for _, d := range []int64{0, tick + 1, tick*size + 1, tick * size * size} {
		d := d
		done := false
		rt.GoNamed("late adder", func() {
			t := w.W.AfterFunc(time.Duration(d*ms), func() {})
			vh.Check(t != nil, "nil-timer", "AfterFunc after the shutdown returned nil")
			if d > tick {
				vh.Check(t.Stop(), "stop-after-shutdown", "Stop of a pending timer returned false after the shutdown")
			}
			done = true
		})
		rt.IdleUntil(rt.Now() + ms)
		vh.Check(done, "blocked", "AfterFunc(%d ms) blocks after the shutdown: %s", d, rt.UnfinishedNames())
	}
}

func cancels(tick, size int64, stalls bool) func() {
	I := tick * size
	ds := []int64{0, tick, 2*tick - 1, I + 1}
	return func() {
		a, b := ds[rt.Choose(len(ds))], ds[rt.Choose(len(ds))]
		at := []int64{0, tick, I}[rt.Choose(3)]
		rt.Simulate(rt.Config{Races: true, Stalls: stalls, Horizon: 20000}, func() {
			w := twx.New(tick, size, true)
			w.Run()
			rt.GoNamed("canceller", func() {
				if at > 0 {
					twx.Sleep(at * ms)
				}
				w.Cancel()
			})
			rt.GoNamed("adder", func() {
				w.After(time.Duration(a * ms))
				w.After(time.Duration(b * ms))
			})
			rt.IdleUntil(rt.Now() + 10*I*ms)
			for _, t := range w.Timers {
				vh.Check(t.Added, "blocked", "AfterFunc never returned: %s", rt.UnfinishedNames())
			}
			ended(w)
			usable(w, tick, size)
		})
	}
}

// crowded: many slots expire at once while the wheel is being shut down or started late
func crowded() {
	n := []int{1, 5, 9, 10, 11, 12, 13, 25, 38}[rt.Choose(9)]
	mode := rt.Choose(3)
	rt.Simulate(rt.Config{Races: true, Horizon: 100000}, func() {
		w := twx.New(10, 40, true)
		for i := 0; i < n; i++ {
			w.After(time.Duration((int64(i)*10 + 10) * ms))
		}
		switch mode {
		case 0: // cancelled before it starts
			twx.Sleep(1000 * ms)
			w.Cancel()
			w.Run()
		case 1: // cancelled as it starts
			twx.Sleep(1000 * ms)
			w.Run()
			w.Cancel()
		case 2: // in the middle
			w.Run()
			twx.Sleep(int64(n) * 5 * ms)
			w.Cancel()
		}
		rt.IdleUntil(rt.Now() + 2000*ms)
		ended(w)
		usable(w, 10, 40)
	})
}

// restart: a second Run on the same wheel serves what the first left
func restart() {
	d := []int64{5, 15, 35, 95, 300}[rt.Choose(5)]
	at := []int64{0, 1, 10, 20, 40}[rt.Choose(5)]
	rt.Simulate(rt.Config{Races: true, Horizon: 100000}, func() {
		w := twx.New(10, 3, true)
		w.Run()
		w.After(time.Duration(d * ms))
		w.After(time.Duration(2 * d * ms))
		twx.Sleep(at * ms)
		w.Cancel()
		rt.IdleUntil(rt.Now() + 3*ms)
		ended(w)
	})
}

func main() {
	vh.Main("C25", func() []vh.Scenario {
		l := []vh.Scenario{{Name: "crowded", SplitDev: true, Bound: 2, BoundT: 3, Body: crowded}, {Name: "restart", Split: 2, Bound: 1, Body: restart}}
		for _, c := range [][2]int64{{10, 2}, {10, 3}} {
			n := fmt.Sprintf("-%d-%d", c[0], c[1])
			l = append(l, vh.Scenario{Name: "cancel" + n, SplitDev: true, Bound: 2, BoundT: 3, Body: cancels(c[0], c[1], false)})
			l = append(l, vh.Scenario{Name: "cancel-stalls" + n, SplitDev: true, Bound: 1, BoundT: 2, Body: cancels(c[0], c[1], true)})
		}
		return l
	})
}
