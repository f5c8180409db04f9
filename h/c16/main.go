// verif:rewrite common/limiter/... tick,conc,maps
package main

import (
	"errors"
	"fmt"
	"time"

	sl "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/limx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type S = limx.Strategy

func res(err error) string {
	if err == nil {
		return "ok"
	}
	var v *sl.ViolationStrategyError
	if errors.As(err, &v) && v != nil {
		return fmt.Sprintf("no:%d/%d", v.Limit, int64(v.Window))
	}
	return "no: " + err.Error()
}

func strat(ss []S) []*sl.SlidingLogLimiterStrategy {
	var out []*sl.SlidingLogLimiterStrategy
	for _, s := range ss {
		s := s
		vh.Do("NewSlidingLogLimiterStrategy", func() {
			out = append(out, sl.NewSlidingLogLimiterStrategy(s.Limit, time.Duration(s.Window)))
		})
	}
	return out
}

func from(slot int64, st []*sl.SlidingLogLimiterStrategy, ss []S) *limx.Instance {
	var l *sl.SlidingLogLimiter
	var err error
	vh.Do("NewSlidingLogLimiter", func() { l, err = sl.NewSlidingLogLimiter(time.Duration(slot), st...) })
	vh.Check(err == nil && l != nil, "config", "NewSlidingLogLimiter(%d, %v): %v", slot, ss, err)
	return &limx.Instance{Try: func() string { return res(l.TryAcquire()) }, Model: limx.NewLog(time.Duration(slot), false, ss...)}
}

func perm(ss []S) []S {
	out := make([]S, len(ss))
	for i, j := range rt.Perm(len(ss)) {
		out[i] = ss[j]
	}
	return out
}

func mk(slot int64, ss []S) func() *limx.Instance {
	return func() *limx.Instance { p := perm(ss); return from(slot, strat(p), p) }
}

// config: which strategy lists are accepted
func config() {
	slot := []int64{1, 2, 3, 0, -1, -2}[rt.Choose(6)]
	n := rt.Choose(4)
	var ss []S
	for i := 0; i < n; i++ {
		ss = append(ss, S{Limit: rt.Choose(3) + 1, Window: int64(rt.Choose(6)-1) * 2})
	}
	want := n > 0 && slot > 0
	for i, a := range ss {
		if a.Window <= 0 || slot > 0 && a.Window%slot != 0 {
			want = false
		}
		for _, b := range ss[:i] {
			switch {
			case a.Window < b.Window:
				want = want && a.Limit < b.Limit
			case a.Window > b.Window:
				want = want && a.Limit > b.Limit
			default:
				want = want && a.Limit != b.Limit
			}
		}
	}
	st := strat(ss)
	before := append([]*sl.SlidingLogLimiterStrategy{}, st...)
	var l *sl.SlidingLogLimiter
	var err error
	vh.Do("NewSlidingLogLimiter", func() { l, err = sl.NewSlidingLogLimiter(time.Duration(slot), st...) })
	vh.Check((err == nil) == want, "config", "slot %d, strategies %v: error %v", slot, ss, err)
	vh.Check((err == nil) == (l != nil), "config", "slot %d, strategies %v: error %v, limiter %v", slot, ss, err, l)
	for i := range st {
		vh.Check(st[i] == before[i], "caller-slice", "the caller's strategies were reordered")
	}
}

// shared: the same strategy objects configure two limiters with different slots
func shared(depth int) func() {
	return func() {
		rt.SetClock(0)
		ss := perm([]S{{3, 12}, {2, 6}})
		st := strat(ss)
		slots := [][2]int64{{1, 6}, {6, 1}, {2, 3}, {3, 2}, {2, 2}}[rt.Choose(5)]
		in := []*limx.Instance{from(slots[0], st, ss), nil}
		second := rt.Choose(2)
		if second == 0 {
			in[1] = from(slots[1], st, ss)
		}
		for i := 0; i < depth; i++ {
			if i == 1 && in[1] == nil {
				in[1] = from(slots[1], st, ss)
			}
			rt.AdvanceClock([]int64{0, 1, 3, 6, 11}[rt.Choose(5)])
			k := rt.Choose(2)
			if in[k] == nil {
				k = 0
			}
			in[k].Step()
		}
		// the caller may reuse its slice
		for i := range st {
			st[i] = nil
		}
		in[0].Step()
	}
}

func memory() {
	rt.SetClock(0)
	ss := []S{{1000, 10e9}, {50, 2e9}}
	in := from(1e9, strat(ss), ss)
	var l *sl.SlidingLogLimiter
	vh.Do("NewSlidingLogLimiter", func() { l, _ = sl.NewSlidingLogLimiter(1e9, strat(ss)...) })
	max0, max1 := 0, 0
	for i := 0; i < 300; i++ {
		rt.AdvanceClock(1e9)
		in.Step()
		vh.Do("TryAcquire", func() { l.TryAcquire() })
		s := vh.DeepSize(l)
		if i < 40 {
			if s > max0 {
				max0 = s
			}
		} else if s > max1 {
			max1 = s
		}
	}
	vh.Check(max1 <= 2*max0+64, "memory", "the limiter's state grows: %d values reachable early, %d later", max0, max1)
}

func main() {
	vh.Main("C16", func() []vh.Scenario {
		l := []vh.Scenario{{Name: "config", Split: 3, Body: config}, {Name: "shared", Split: 4, Body: shared(vh.D(4, 6))}, {Name: "memory", Body: memory}}
		type c struct {
			slot int64
			ss   []S
		}
		for i, c := range []c{{1, []S{{2, 4}}}, {2, []S{{3, 8}, {2, 4}}}, {1, []S{{3, 6}, {1, 2}}}, {5, []S{{4, 20}, {2, 5}}}, {1, []S{{4, 12}, {3, 6}, {2, 2}}}, {1, []S{{2, 4}, {1, 4}}}, {1e9, []S{{5, 10e9}, {2, 1e9}}}, {3, []S{{2, 3}, {0, 3}}}, {20 * 60e9, []S{{3, 3600e9}, {2, 1200e9}}}, {2, []S{{5, 12}, {4, 8}, {3, 4}, {2, 2}}}} {
			W, w := c.ss[0].Window, c.ss[len(c.ss)-1].Window
			waits := []int64{0, 1, c.slot, w, W - c.slot, W, 9*W + 1}
			ss, slot := c.ss, c.slot
			end := func(in *limx.Instance) {
				for _, s := range ss {
					limx.Window(in.Adm(), s.Window-slot+1, s.Limit, "strategy")
				}
			}
			l = append(l, vh.Scenario{Name: fmt.Sprintf("seq-%d", i), Split: 3, Body: limx.Sequences(vh.D(4, 5), waits, []int{1, 2}, mk(c.slot, c.ss), end)})
			l = append(l, vh.Scenario{Name: fmt.Sprintf("fine-%d", i), Split: 3, Body: limx.Sequences(vh.D(6, 8), []int64{0, c.slot, w, W - c.slot}, []int{1}, mk(c.slot, c.ss), end)})
			l = append(l, vh.Scenario{Name: fmt.Sprintf("long-%d", i), Split: 2, Body: limx.Long(150, []int64{1, c.slot, w/2 + 1, W / 3, W, W + 1}, []int{1, 2, 5}, mk(c.slot, c.ss), end)})
		}
		for _, n := range []int64{50, 64, 65, 100, 128, int64(vh.D(256, 1000))} { // windows of many slots, all in use
			for _, limit := range []int{int(n) / 2, int(n) - 5, int(n), int(n)*2 - 3} {
				for i, ss := range [][]S{{{limit, n}}, {{limit, n}, {limit / 2, n/2 - 2}}, {{limit, n * 1e6}, {limit - 1, n/2*1e6 - 4e6}, {2, 1e6}}} {
					slot := int64(1)
					if i == 2 {
						slot = 1e6
					}
					l = append(l, vh.Scenario{Name: fmt.Sprintf("slots-%d-%d-l%d", i, n, limit), Split: 2, Body: limx.Long(int(3*n), []int64{slot, 2 * slot, slot/2 + 1}, []int{1, 2}, mk(slot, ss), nil)})
				}
			}
		}
		for _, limit := range []int{255, 256, 257, 65535, 65536, 65537, 1 << 31, 1 << 32, 1<<63 - 2} {
			for i, c := range []c{{1, []S{{limit, 1}}}, {1e8, []S{{limit + 1, 1e9}, {limit, 1e8}}}, {1 << 50, []S{{limit, 1 << 60}, {2, 1 << 50}}}, {1 << 60, []S{{limit, 1 << 60}}}} {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("extreme-%d-l%d", i, limit), Split: 2, Body: limx.Extreme([]int64{0, 1, 1e8, 1e9, 1600e15}, mk(c.slot, c.ss))})
			}
		}
		return l
	})
}
