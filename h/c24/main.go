// verif:rewrite common/timer/timingwheel tick,conc,mem,maps
// verif:rewrite common/container/heap tick,mem,maps
// verif:rewrite common/container/list tick,mem,maps
package main

import (
	"fmt"
	"sort"
	"time"

	tw "github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/twx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const ms = twx.MS

// sched hands out the given gaps between occurrences, then the zero time. Asked again, it starts over only
// if it should never be asked again: that is a failure.
type sched struct {
	w     *world
	gaps  []int64 // ms
	given []int64 // virtual ns of the occurrences
	asked []int64 // and when each was asked for: one in the past is due at once
	ended bool
	name  string
}

type world struct {
	*twx.World
	s    []*sched
	slow int64 // how long every task of a schedule takes
	runs map[*sched][]int64
}

func rel(t time.Time) int64 { return t.UnixNano() - rt.BaseTime }

func (s *sched) Next(t time.Time) time.Time {
	if len(s.given) == 0 {
		vh.Check(rel(t) == rt.Now(), "next-arg", "%s: the first Next was asked with +%d at +%d", s.name, rel(t), rt.Now())
	} else {
		vh.Check(rel(t) == s.given[len(s.given)-1], "next-arg", "%s: Next was asked with +%d, the previous occurrence is +%d", s.name, rel(t), s.given[len(s.given)-1])
	}
	vh.Check(!s.ended, "next-after-end", "%s: Next was asked again after it had returned the zero time", s.name)
	k := len(s.given)
	if k >= len(s.gaps) {
		s.ended = true
		return time.Time{}
	}
	n := time.UnixMilli(t.Add(time.Duration(s.gaps[k] * ms)).UnixMilli())
	s.given = append(s.given, rel(n))
	s.asked = append(s.asked, rt.Now())
	return n
}

func (w *world) schedule(gaps []int64) (*sched, *tw.Timer) {
	s := &sched{w: w, gaps: gaps, name: fmt.Sprintf("schedule%d", len(w.s))}
	w.s = append(w.s, s)
	rt.Tracef("+%d ScheduleFunc(gaps %v)", rt.Now(), gaps)
	rt.Transition(1)
	t := w.W.ScheduleFunc(s, func() {
		rt.Tracef("+%d %s runs", rt.Now(), s.name)
		w.runs[s] = append(w.runs[s], rt.Now())
		vh.Check(len(w.runs[s]) <= len(s.given), "exactly-once", "%s ran %d times after %d occurrences", s.name, len(w.runs[s]), len(s.given))
		if w.slow > 0 {
			twx.Sleep(w.slow)
		}
	})
	vh.Check((t == nil) == (len(gaps) == 0), "nil-timer", "ScheduleFunc returned timer=%v for %d occurrences", t != nil, len(gaps))
	return s, t
}

func (w *world) check(s *sched, stopped bool, at int64) {
	r := append([]int64{}, w.runs[s]...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	g := append([]int64{}, s.given...)
	due := make([]int64, len(g))
	for i := range g {
		due[i] = g[i]
		if due[i] < s.asked[i] {
			due[i] = s.asked[i]
		}
	}
	sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
	sort.Slice(due, func(i, j int) bool { return due[i] < due[j] })
	if stopped {
		n := 0
		for _, x := range g {
			if x < at+w.Tick*ms+ms {
				n++
			}
		}
		vh.Check(len(r) <= n, "ran-after-stop", "%s ran %d times, but only %d occurrences were due when Stop returned true", s.name, len(r), n)
	} else {
		vh.Check(s.ended || len(s.gaps) == 0, "lost-occurrence", "%s: only %d of %d occurrences were scheduled by +%d", s.name, len(s.given), len(s.gaps), rt.Now())
		vh.Check(len(r) == len(g), "lost-occurrence", "%s ran %d times for %d occurrences", s.name, len(r), len(g))
	}
	for i := range r {
		vh.Check(r[i] > g[i]-w.Tick*ms-ms, "early", "%s ran at +%d, occurrence at +%d", s.name, r[i], g[i])
		if !w.Stalls {
			vh.Check(r[i] <= due[i]+twx.Slack, "late", "%s ran at +%d, occurrence due at +%d", s.name, r[i], due[i])
		}
	}
}

func newWorld(tick, size int64, stalls bool) *world {
	w := &world{World: twx.New(tick, size, stalls), runs: map[*sched][]int64{}}
	w.Run()
	return w
}

func plans(tick, size int64) [][]int64 {
	I := tick * size
	return [][]int64{{}, {0}, {tick}, {I + 1}, {tick, tick, tick}, {1, 1, 1, 1}, {I, I}, {0, 0, 3}, {2*tick - 1, I + tick, 1}, {tick + 1, 0, I*size + tick}, {-5, 7}, {I, -3, 4}}
}

func sequences(tick, size int64, depth int) func() {
	ps := plans(tick, size)
	return func() {
		phase := rt.Choose(2)
		rt.Simulate(rt.Config{Horizon: 100000}, func() {
			twx.Sleep(1 + int64(phase)*(tick*ms/2))
			w := newWorld(tick, size, false)
			type st struct {
				s    *sched
				t    *tw.Timer
				stop bool
				at   int64
			}
			var l []*st
			for i := 0; i < depth; i++ {
				k := rt.Choose(len(ps) + 3 + len(l))
				switch {
				case k < len(ps):
					s, t := w.schedule(ps[k])
					l = append(l, &st{s: s, t: t})
				case k == len(ps):
					twx.Sleep(ms)
				case k == len(ps)+1:
					twx.Sleep(tick*ms + 1)
				case k == len(ps)+2:
					twx.Sleep(tick * size * ms)
				default:
					x := l[k-len(ps)-3]
					if x.t == nil {
						continue
					}
					ok := x.t.Stop()
					rt.Tracef("+%d Stop(%s) -> %v", rt.Now(), x.s.name, ok)
					vh.Check(!ok || !x.stop, "stop-twice", "Stop of %s returned true twice", x.s.name)
					if ok {
						x.stop, x.at = true, rt.Now()
					} else if !x.stop && len(x.s.given) > 0 {
						next := x.s.given[len(x.s.given)-1]
						vh.Check(next <= rt.Now()+tick*ms+ms || x.s.ended, "stop-refused", "Stop of %s returned false although its next occurrence is at +%d", x.s.name, next)
					}
				}
			}
			rt.IdleUntil(rt.Now() + 4*tick*size*size*ms + 100*ms)
			for _, x := range l {
				w.check(x.s, x.stop, x.at)
			}
		})
	}
}

func concurrent(tick, size int64, stalls, stop bool) func() {
	ps := plans(tick, size)
	return func() {
		p := ps[1+rt.Choose(len(ps)-1)]
		d := []int64{tick, 2*tick - 1, tick*size + tick}[rt.Choose(3)]
		at := int64(0)
		if stop {
			at = []int64{0, tick, tick * size}[rt.Choose(3)]
		}
		rt.Simulate(rt.Config{Races: true, Stalls: stalls, Horizon: 20000}, func() {
			w := newWorld(tick, size, stalls)
			rt.GoNamed("adder", func() { w.After(time.Duration(d * ms)) })
			var s *sched
			stopped, when := false, int64(0)
			rt.GoNamed("scheduler", func() {
				var t *tw.Timer
				s, t = w.schedule(p)
				if stop {
					if at > 0 {
						twx.Sleep(at * ms)
					}
					if t.Stop() {
						stopped, when = true, rt.Now()
					}
					rt.Tracef("+%d Stop -> %v", rt.Now(), stopped)
				}
			})
			rt.IdleUntil(rt.Now() + 4*tick*size*size*ms + 100*ms)
			w.Finish()
			w.check(s, stopped, when)
		})
	}
}

// independent: what one schedule's task does (it may even block) must not hold up others
func independent() {
	p := rt.Choose(3)
	rt.Simulate(rt.Config{Horizon: 20000}, func() {
		w := newWorld(10, 2, false)
		if p == 2 { // nor its own later ones
			w.slow = 200 * ms
		} else if p == 0 {
			w.W.AfterFunc(5*time.Millisecond, func() { twx.Sleep(1000 * ms) })
		} else {
			w.W.ScheduleFunc(&sched{w: w, gaps: []int64{5, 10, 10}, name: "blocker"}, func() { twx.Sleep(1000 * ms) })
		}
		s, _ := w.schedule([]int64{15, 15, 30})
		rt.IdleUntil(rt.Now() + 500*ms)
		w.check(s, false, 0)
	})
}

// long: many occurrences, or occurrences far apart; several schedules on one wheel
func long(tick, size int64) func() {
	const day = 24 * 3600 * 1000
	return func() {
		gap := []int64{1, tick, tick*size + 1, 3600 * 1000, day, 30 * day}[rt.Choose(6)]
		n := []int{40, 300}[rt.Choose(2)]
		also := rt.Choose(3)
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			w := newWorld(tick, size, false)
			end := int64(0)
			mk := func(n int, gap int64) *sched {
				l := make([]int64, n)
				for i := range l {
					l[i] = gap
				}
				if e := int64(n) * gap; e > end {
					end = e
				}
				s, _ := w.schedule(l)
				return s
			}
			l := []*sched{mk(n, gap)}
			for i := 0; i < also; i++ {
				l = append(l, mk(n/2, gap*2), mk(3, 5))
			}
			rt.IdleUntil(rt.Now() + end*ms + 2*tick*ms + 100*ms)
			for _, s := range l {
				w.check(s, false, 0)
			}
		})
	}
}

type once struct {
	t    time.Time
	gave bool
}

func (o *once) Next(time.Time) time.Time {
	if o.gave {
		return time.Time{}
	}
	o.gave = true
	return o.t
}

// far: occurrences later than any time.Duration reaches are waited for like others
func far(tick, size int64) func() {
	return func() {
		year := []int{2100, 2300, 2318, 2330, 2500, 2700, 3000, 5000, 7000, 9999}[rt.Choose(10)]
		order := rt.Choose(3)
		rt.Simulate(rt.Config{Horizon: 20000}, func() {
			w := newWorld(tick, size, false)
			ran := 0
			mk := func() *tw.Timer {
				rt.Tracef("+%d ScheduleFunc(year %d)", rt.Now(), year)
				return w.W.ScheduleFunc(&once{t: time.Date(year, 12, 31, 0, 0, 0, 0, time.UTC)}, func() { ran++ })
			}
			var t *tw.Timer
			if order == 0 {
				t = mk()
			}
			s, _ := w.schedule([]int64{tick, tick, 1000})
			if order == 1 {
				t = mk()
			}
			twx.Sleep(3000 * ms)
			if order == 2 {
				t = mk()
				twx.Sleep(3000 * ms)
			}
			w.After(time.Duration(2 * tick * ms))
			twx.Sleep(3000 * ms)
			w.Finish()
			w.check(s, false, 0)
			vh.Check(ran == 0, "early", "an occurrence in the year %d ran at +%d", year, rt.Now())
			vh.Check(t.Stop(), "stop-refused", "Stop returned false although the occurrence is in the year %d", year)
		})
	}
}

func main() {
	vh.Main("C24", func() []vh.Scenario {
		l := []vh.Scenario{{Name: "independent", Body: independent}}
		for _, c := range [][2]int64{{1, 10}, {10, 20}, {20, 60}, {7, 5}} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("far-%d-%d", c[0], c[1]), Body: far(c[0], c[1])})
		}
		for _, c := range [][2]int64{{10, 2}, {10, 3}, {1, 3}} {
			n := fmt.Sprintf("-%d-%d", c[0], c[1])
			l = append(l, vh.Scenario{Name: "long" + n, Split: 2, Body: long(c[0], c[1])})
			l = append(l, vh.Scenario{Name: "far" + n, Body: far(c[0], c[1])})
			l = append(l, vh.Scenario{Name: "seq" + n, Split: 3, Body: sequences(c[0], c[1], vh.D(4, 5))})
		}
		for _, c := range [][2]int64{{10, 2}, {10, 3}} {
			n := fmt.Sprintf("-%d-%d", c[0], c[1])
			l = append(l, vh.Scenario{Name: "conc" + n, SplitDev: true, Bound: 2, BoundT: 3, Body: concurrent(c[0], c[1], false, false)})
			l = append(l, vh.Scenario{Name: "conc-stalls" + n, SplitDev: true, Bound: 1, BoundT: 2, Body: concurrent(c[0], c[1], true, false)})
			l = append(l, vh.Scenario{Name: "conc-stop" + n, SplitDev: true, Bound: int(4 - c[1]), BoundT: 2, Body: concurrent(c[0], c[1], false, true)})
		}
		return l
	})
}
