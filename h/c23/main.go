// verif:rewrite common/timer/timingwheel tick,conc,mem,maps
// verif:rewrite common/container/heap tick,mem,maps
// verif:rewrite common/container/list tick,mem,maps
package main

import (
	"fmt"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/lib/twx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const ms = twx.MS

// sequences: adding, stopping (any timer, repeatedly) and waiting
func sequences(tick, size int64, depth int) func() {
	ds := []time.Duration{0, time.Duration((tick + 1) * ms), time.Duration((2*tick - 1) * ms), time.Duration((tick*size + tick + 1) * ms), time.Duration((tick*size*size + 3*tick) * ms)}
	return func() {
		rt.Simulate(rt.Config{Horizon: 100000}, func() {
			w := twx.New(tick, size, false)
			w.Run()
			for i := 0; i < depth; i++ {
				k := rt.Choose(len(ds) + 3 + len(w.Timers))
				switch {
				case k < len(ds):
					w.After(ds[k])
				case k == len(ds):
					twx.Sleep(tick * ms)
				case k == len(ds)+1:
					twx.Sleep(tick*size*ms + ms)
				case k == len(ds)+2:
					twx.Sleep(tick*size*size*ms - tick*ms)
				default:
					w.Stop(w.Timers[k-len(ds)-3], "main")
				}
			}
			w.Finish()
			for _, t := range w.Timers {
				vh.Check(!w.Stop(t, "final"), "stop-after-run", "Stop of finished task %d returned true", t.ID)
			}
		})
	}
}

// race: one timer with a neighbour in the same slot, stopped concurrently with its expiry, its move to a finer
// level, or another Stop
func race(tick, size int64, stoppers int, stalls bool) func() {
	I := tick * size
	ds := []int64{0, tick + 1, 2*tick - 1, I + tick + 1, I*size + I + 1}
	return func() {
		d := ds[rt.Choose(len(ds))]
		// when the stoppers act: around every moment the timer is touched
		ts := []int64{0, tick, I, I + tick, I * size, I*size + I}
		var at []int64
		for i := 0; i < stoppers; i++ {
			at = append(at, ts[rt.Choose(len(ts))])
		}
		rt.Simulate(rt.Config{Races: true, Stalls: stalls, Horizon: 20000}, func() {
			w := twx.New(tick, size, stalls)
			w.Run()
			rt.Idle()
			t := w.After(time.Duration(d * ms))
			u := w.After(time.Duration(d * ms))
			for i := 0; i < stoppers; i++ {
				i := i
				rt.GoNamed(fmt.Sprintf("stopper%d", i), func() {
					if at[i] > 0 {
						twx.Sleep(at[i] * ms)
					}
					w.Stop(t, fmt.Sprintf("stopper%d", i))
				})
			}
			w.Finish()
			rt.IdleUntil(rt.Now() + 2*I*size*ms)
			w.Settled("")
			vh.Check(len(u.Runs) == 1, "bystander", "stopping one timer affected another in the same slot")
			for _, x := range rt.Unfinished() {
				vh.Check(x.Name[:4] != "stop", "stop-blocked", "Stop never returns: %s", rt.UnfinishedNames())
			}
		})
	}
}

// adders: timers are stopped by their creators while others are added to the same slots
func adders(tick, size int64) func() {
	I := tick * size
	ds := []int64{tick + 1, 2*tick - 1, I + 1, I + tick + 1}
	return func() {
		a, b := ds[rt.Choose(len(ds))], ds[rt.Choose(len(ds))]
		rt.Simulate(rt.Config{Races: true, Horizon: 20000}, func() {
			w := twx.New(tick, size, false)
			w.Run()
			rt.GoNamed("stopper", func() {
				t := w.After(time.Duration(a * ms))
				w.Stop(t, "stopper")
				w.Stop(t, "stopper")
			})
			rt.GoNamed("adder", func() {
				w.After(time.Duration(b * ms))
				w.After(time.Duration(a * ms))
			})
			rt.IdleUntil(rt.Now() + 3*I*ms)
			w.Finish()
		})
	}
}

// many: slots with many timers of which every k-th is stopped, in either order, some by tasks of others
func many(tick, size int64) func() {
	I := tick * size
	return func() {
		n := []int{40, 300, 1100}[rt.Choose(3)]
		d := []int64{tick + 1, I + tick + 1, I * size * size, 30 * 24 * 3600 * 1000}[rt.Choose(4)]
		k := 1 + rt.Choose(3)
		mode := rt.Choose(3)
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			w := twx.New(tick, size, false)
			w.Run()
			for i := 0; i < n; i++ {
				w.After(time.Duration((d + int64(i%3)*tick) * ms))
			}
			stop := func() {
				for i := 0; i < n; i += k {
					j := i
					if mode == 1 {
						j = n - 1 - i
					}
					w.Stop(w.Timers[j], "main")
				}
			}
			if mode == 2 {
				done := false
				w.Hook = func(t *twx.Timer) {
					if !done && t.ID == n {
						done = true
						stop()
					}
				}
				w.After(0)
			} else {
				twx.Sleep((d - tick) * ms)
				stop()
			}
			w.Finish()
			for _, t := range w.Timers {
				vh.Check(!w.Stop(t, "final"), "stop-after-run", "Stop of finished task %d returned true", t.ID)
			}
		})
	}
}

// lag: the stopper is delayed, again and again, while the timer moves through the levels
func lag(delay int64, stoppers int, fz ...int64) func() {
	return func() {
		at := []int64{0, 5, 15, 35}[rt.Choose(4)]
		rt.Simulate(rt.Config{Races: true, Freezes: fz, FreezeOnly: true, FreezePrefix: "stop", Horizon: 3000}, func() {
			w := twx.New(10, 2, true)
			w.Run()
			rt.Idle()
			t := w.After(time.Duration(delay * ms))
			for i := 0; i < stoppers; i++ {
				n := fmt.Sprintf("stopper%d", i)
				rt.GoNamed(n, func() {
					if at > 0 {
						twx.Sleep(at * ms)
					}
					w.Stop(t, n)
				})
			}
			rt.IdleUntil(rt.Now() + 2000*ms)
			w.Finish()
			for _, x := range rt.Unfinished() {
				vh.Check(x.Name[:4] != "stop", "stop-blocked", "Stop never returns: %s", rt.UnfinishedNames())
			}
		})
	}
}

func main() {
	vh.Main("C23", func() []vh.Scenario {
		var l []vh.Scenario
		for _, c := range [][2]int64{{10, 2}, {10, 3}, {1, 4}} {
			n := fmt.Sprintf("-%d-%d", c[0], c[1])
			l = append(l, vh.Scenario{Name: "seq" + n, Split: 3, Body: sequences(c[0], c[1], vh.D(5, 6))})
		}
		for _, c := range [][2]int64{{10, 2}, {10, 3}, {20, 20}} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("many-%d-%d", c[0], c[1]), Split: 3, Body: many(c[0], c[1])})
		}
		for _, c := range [][2]int64{{10, 2}, {10, 3}} {
			n := fmt.Sprintf("-%d-%d", c[0], c[1])
			l = append(l, vh.Scenario{Name: "race1" + n, SplitDev: true, Bound: 2, BoundT: 3, Body: race(c[0], c[1], 1, false)})
			l = append(l, vh.Scenario{Name: "race1-stalls" + n, SplitDev: true, Bound: 1, BoundT: 2, Body: race(c[0], c[1], 1, true)})
			l = append(l, vh.Scenario{Name: "adders" + n, SplitDev: true, Bound: 2, BoundT: 3, Body: adders(c[0], c[1])})
		}
		for _, d := range []int64{35, 75, 155, 315} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("lag1-%d", d), SplitDev: true, Bound: 4, BoundT: 5, Body: lag(d, 1, 11*ms, 42*ms, 85*ms)})
		}
		l = append(l, vh.Scenario{Name: "lag2-75", SplitDev: true, Bound: 3, BoundT: 4, Body: lag(75, 2, 11*ms, 42*ms)})
		l = append(l, vh.Scenario{Name: "race2-10-2", SplitDev: true, Bound: 1, BoundT: 2, Body: race(10, 2, 2, false)})
		return l
	})
}
