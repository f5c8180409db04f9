// verif:rewrite common/timer/timingwheel tick,conc,mem,maps
// verif:rewrite common/container/heap tick,mem,maps
// verif:rewrite common/container/list tick,mem,maps
package main

import (
	"fmt"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/lib/twx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const ms = twx.MS

// sequences of AfterFunc and waiting on one wheel, from every phase of the tick
func sequences(tick, size int64, levels, depth int) func() {
	ds := twx.Delays(tick, size, levels)
	return func() {
		phase := int64(rt.Choose(3))
		runAt := rt.Choose(3) // when Run starts: at once, after the first operation, at the end
		rt.Simulate(rt.Config{Horizon: 100000}, func() {
			twx.Sleep(1 + phase*(tick*ms/2+1))
			w := twx.New(tick, size, runAt > 0)
			if runAt == 0 {
				w.Run()
			}
			for i := 0; i < depth; i++ {
				k := rt.Choose(len(ds) + 4)
				switch {
				case k < len(ds):
					w.After(ds[k])
				case k == len(ds):
					twx.Sleep(ms)
				case k == len(ds)+1:
					twx.Sleep(tick * ms)
				case k == len(ds)+2:
					twx.Sleep(tick*size*ms + ms)
				case k == len(ds)+3:
					twx.Sleep(tick * size * size * ms * 3)
				}
				if runAt == 1 && i == 0 {
					w.Run()
				}
			}
			if runAt == 2 {
				w.Run()
			}
			w.Finish()
			w.NoPolling()
		})
	}
}

func family(tick, size int64) func() {
	return func() {
		n := []int{5, 20, 60}[rt.Choose(3)]
		pat := rt.Choose(vh.Patterns)
		scale := []int64{1, tick, tick * size}[rt.Choose(3)]
		gap := rt.Choose(3)
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			w := twx.New(tick, size, false)
			w.Run()
			p := vh.Pattern(pat, n)
			for i := 0; i < n; i++ {
				w.After(time.Duration(int64(p[i]) * scale * ms))
				if gap > 0 && i%gap == 0 {
					twx.Sleep(int64(gap) * tick * ms / 2)
				}
			}
			w.Finish()
			w.NoPolling()
		})
	}
}

// several producers against the running wheel; stalls let time pass while threads are delayed
func concurrent(tick, size int64, producers, each int, stalls, fs bool) func() {
	ds := []time.Duration{0, time.Duration(tick * ms), time.Duration((2*tick - 1) * ms), time.Duration(tick * size * ms), time.Duration((tick*size + tick) * ms), time.Duration(tick * size * size * ms)}
	return func() {
		var plan [][]time.Duration
		for p := 0; p < producers; p++ {
			var l []time.Duration
			for i := 0; i < each; i++ {
				l = append(l, ds[rt.Choose(len(ds))])
			}
			plan = append(plan, l)
		}
		gap := rt.Choose(3)
		rt.Simulate(rt.Config{FreeSwitch: fs, Races: true, Stalls: stalls, Horizon: 20000}, func() {
			w := twx.New(tick, size, stalls)
			w.Run()
			for p := 0; p < producers; p++ {
				p := p
				rt.GoNamed(fmt.Sprintf("producer%d", p), func() {
					for i, d := range plan[p] {
						if i > 0 && gap > 0 {
							twx.Sleep([]int64{0, tick * ms, tick*size*ms + ms}[gap])
						}
						w.After(d)
					}
				})
			}
			rt.IdleUntil(rt.Now() + 20*tick*size*size*ms)
			w.Finish()
			w.NoPolling()
		})
	}
}

// far: long delays on all kinds of wheels, also after the wheel stood idle for long
func far(tick, size int64) func() {
	const day = 24 * 3600 * 1000
	ds := []int64{tick + 1, 3600 * 1000, day, 26 * day, 51 * day, 400 * day, 8000 * day}
	return func() {
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			twx.Sleep(ms / 2)
			w := twx.New(tick, size, false)
			w.Run()
			for i := 0; i < 3; i++ {
				k := rt.Choose(len(ds) + 2)
				switch {
				case k < len(ds):
					w.After(time.Duration(ds[k] * ms))
				case k == len(ds):
					twx.Sleep(27 * day * ms)
				default:
					twx.Sleep(2000 * day * ms)
				}
			}
			w.Finish()
			w.NoPolling()
		})
	}
}

// many: slots with many timers, all due together; the tasks of half of them add another one
func many(tick, size int64) func() {
	return func() {
		n := []int{70, 300, 1100}[rt.Choose(3)]
		d := []int64{0, tick, tick*size + tick + 1, tick * size * size}[rt.Choose(4)]
		spread := int64(rt.Choose(3)) * tick
		nested := rt.Choose(2) == 1
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			w := twx.New(tick, size, false)
			w.Run()
			if nested {
				w.Hook = func(t *twx.Timer) {
					if t.ID < n && t.ID%2 == 0 {
						w.After(time.Duration((d + 2) * ms))
					}
				}
			}
			for i := 0; i < n; i++ {
				w.After(time.Duration((d + int64(i%7)*spread) * ms))
			}
			rt.IdleUntil(rt.Now() + (2*d+2+14*tick)*ms + 2*tick*ms)
			w.Finish()
		})
	}
}

// pairs: wheels do not influence each other
func pairs() {
	rt.Simulate(rt.Config{Horizon: 100000}, func() {
		w := []*twx.World{twx.New(10, 2, false), twx.New(7, 3, false)}
		w[0].Run()
		w[1].Run()
		for i := 0; i < vh.D(4, 5); i++ {
			x := w[rt.Choose(2)]
			switch k := rt.Choose(5); {
			case k < 4:
				x.After([]time.Duration{0, 15, 45, 200}[k] * time.Millisecond)
			default:
				twx.Sleep(17 * ms)
			}
		}
		w[0].Finish()
		w[1].Finish()
	})
}

func main() {
	vh.Main("C22", func() []vh.Scenario {
		var l []vh.Scenario
		for _, c := range [][2]int64{{1, 1}, {10, 1}, {1, 2}, {1, 3}, {10, 2}, {10, 3}, {7, 4}, {20, 20}} {
			lv, dep := 2, vh.D(3, 4)
			if c == [2]int64{10, 2} && vh.Thorough {
				dep = 5
			}
			if c[1] > 4 {
				lv = 1
			}
			l = append(l, vh.Scenario{Name: fmt.Sprintf("seq-%d-%d", c[0], c[1]), Split: 3, Body: sequences(c[0], c[1], lv, dep)})
			l = append(l, vh.Scenario{Name: fmt.Sprintf("family-%d-%d", c[0], c[1]), Split: 3, Body: family(c[0], c[1])})
		}
		for _, c := range [][2]int64{{10, 1}, {1, 2}, {10, 3}, {20, 20}, {1, 512}, {1000, 60}, {60000, 1440}, {100, 3600}} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("far-%d-%d", c[0], c[1]), Split: 2, Body: far(c[0], c[1])})
		}
		for _, c := range [][2]int64{{1, 2}, {10, 3}, {20, 20}, {1, 1024}} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("many-%d-%d", c[0], c[1]), Split: 3, Body: many(c[0], c[1])})
		}
		l = append(l, vh.Scenario{Name: "pairs", Split: 3, Body: pairs})
		for _, c := range [][2]int64{{10, 2}, {10, 3}} {
			n := fmt.Sprintf("-%d-%d", c[0], c[1])
			l = append(l, vh.Scenario{Name: "1p2" + n, SplitDev: true, Bound: 2, BoundT: 3, Body: concurrent(c[0], c[1], 1, 2, false, false)})
			l = append(l, vh.Scenario{Name: "2p1" + n, SplitDev: true, Bound: int(4 - c[1]), BoundT: 2, Body: concurrent(c[0], c[1], 2, 1, false, false)})
			l = append(l, vh.Scenario{Name: "1p2-stalls" + n, SplitDev: true, Bound: 1, BoundT: 2, Body: concurrent(c[0], c[1], 1, 2, true, false)})
			l = append(l, vh.Scenario{Name: "2p1-stalls" + n, SplitDev: true, Bound: 1, BoundT: 2, Body: concurrent(c[0], c[1], 2, 1, true, false)})
		}
		lag := func(name string, fo bool, q, t int, size int64, plan ...[]int64) {
			fz, fzs := 2, []int64{15 * ms, 45 * ms}
			if fo {
				fz = 1
			}
			if name[0] == 'e' {
				fz, fzs = 2, []int64{15 * ms, 2 * ms}
			}
			l = append(l, vh.Scenario{Name: "lag-" + name, SplitDev: true, Bound: q, BoundT: t, Body: func() {
				rt.Simulate(rt.Config{Races: true, Freezes: fzs[:fz], FreezeOnly: fo, Horizon: 3000}, func() {
					w := twx.New(10, size, true)
					w.Run()
					rt.Idle()
					for p := range plan {
						p := p
						rt.GoNamed(fmt.Sprintf("producer%d", p), func() {
							for _, d := range plan[p] { // negative: wait
								if d < 0 {
									twx.Sleep(-d * ms)
								} else {
									w.After(time.Duration(d * ms))
								}
							}
						})
					}
					rt.IdleUntil(rt.Now() + 1000*ms)
					w.Finish()
				})
			}})
		}
		for i, fo := range []bool{false, true} {
			x := []string{"", "-freezes"}[i]
			q, t := 1, 2
			if fo {
				q, t = 2, 3
			}
			lag("a"+x, fo, q, t, 2, []int64{15}, []int64{10, -12, 10})
			lag("b"+x, fo, 2, t, 2, []int64{15}, []int64{-12, 10, -12, 14})
			lag("c"+x, fo, q, t, 2, []int64{35, -11, 10}, []int64{-12, 10, -12, 25})
			lag("d"+x, fo, q, t, 3, []int64{25}, []int64{-3, 12, -14, 20})
			lag("e"+x, fo, q, t, 3, []int64{-5, 10}, []int64{25, -36, 13})
		}
		return l
	})
}
