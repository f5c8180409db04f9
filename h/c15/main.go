// verif:rewrite common/limiter/... tick,conc,maps
package main

import (
	"fmt"
	"time"

	sw "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/limx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func mk(limit int, w, s time.Duration) func() *limx.Instance {
	return func() *limx.Instance {
		var l *sw.SlidingWindowLimiter
		var err error
		vh.Do("NewSlidingWindowLimiter", func() { l, err = sw.NewSlidingWindowLimiter(limit, w, s) })
		vh.Check(err == nil && l != nil, "config", "NewSlidingWindowLimiter(%d, %d, %d): %v", limit, w, s, err)
		return &limx.Instance{Try: func() string { return limx.Bool(l.TryAcquire()) }, Model: limx.NewLog(s, true, limx.Strategy{Limit: limit, Window: int64(w)})}
	}
}

func config() {
	w := int64(rt.Choose(64) - 3)
	s := int64(rt.Choose(64) - 3)
	u := []int64{1, 1e6, 1e9}[rt.Choose(3)]
	var l *sw.SlidingWindowLimiter
	var err error
	vh.Do("NewSlidingWindowLimiter", func() {
		l, err = sw.NewSlidingWindowLimiter(3, time.Duration(w*u), time.Duration(s*u))
	})
	vh.Check((err == nil) == (w > 0 && s > 0 && w%s == 0), "config", "window %d, small window %d: error %v", w*u, s*u, err)
	vh.Check((err == nil) == (l != nil), "config", "window %d, small window %d: error %v but limiter %v", w*u, s*u, err, l)
}

func memory() {
	rt.SetClock(0)
	n := []int{1, 2, 5, 10}[rt.Choose(4)]
	var l *sw.SlidingWindowLimiter
	limit := []int{2, 1000000}[rt.Choose(2)]
	vh.Do("NewSlidingWindowLimiter", func() {
		l, _ = sw.NewSlidingWindowLimiter(limit, time.Duration(n)*time.Second, time.Second)
	})
	max0, max1 := 0, 0
	for i := 0; i < 400; i++ {
		rt.AdvanceClock(1e9)
		vh.Do("TryAcquire", func() { l.TryAcquire() })
		s := vh.DeepSize(l)
		if i < 3*n+10 {
			if s > max0 {
				max0 = s
			}
		} else if s > max1 {
			max1 = s
		}
	}
	vh.Check(max1 <= 2*max0+64, "memory", "the limiter's state grows: %d values reachable early, %d later", max0, max1)
}

func main() {
	vh.Main("C15", func() []vh.Scenario {
		l := []vh.Scenario{{Name: "config", Split: 2, Body: config}, {Name: "memory", Split: 2, Body: memory}}
		type c struct{ w, s time.Duration }
		for _, c := range []c{{10, 10}, {12, 4}, {10, 1}, {7, 7}, {9, 3}, {time.Second, 100 * time.Millisecond}, {3 * time.Second, time.Second}, {time.Hour, 20 * time.Minute}} {
			for _, limit := range []int{0, 1, 2, 3} {
				W, S := int64(c.w), int64(c.s)
				waits := []int64{0, 1, S - 1, S, W - S, W - 1, W, 9*W + 1}
				end := func(in *limx.Instance) { limx.Window(in.Adm(), W-S+1, limit, "sliding window") }
				l = append(l, vh.Scenario{Name: fmt.Sprintf("seq-%v-%v-l%d", c.w, c.s, limit), Split: 3, Body: limx.Sequences(vh.D(4, 6), waits, []int{1, 2}, mk(limit, c.w, c.s), end)})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("fine-%v-%v-l%d", c.w, c.s, limit), Split: 3, Body: limx.Sequences(vh.D(7, 9), []int64{0, S, W - S, W}, []int{1}, mk(limit, c.w, c.s), end)})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("pair-%v-%v-l%d", c.w, c.s, limit), Split: 3, Body: limx.Pair(vh.D(4, 6), []int64{0, S, W - S, W}, mk(limit, c.w, c.s))})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("long-%v-%v-l%d", c.w, c.s, limit), Split: 2, Body: limx.Long(300, []int64{1, S/2 + 1, S, W / 3, W, W + 1}, []int{1, 2, limit + 2}, mk(limit, c.w, c.s), end)})
			}
		}
		l = append(l, vh.Scenario{Name: "long-big", Split: 2, Body: limx.Long(200, []int64{1e6, 1e7, 1e8}, []int{1, 30, 101}, mk(100, time.Second, 10*time.Millisecond), nil)})
		for _, n := range []int64{50, 64, 65, 100, 128, 256, 1000} { // windows of many slots, all in use
			for _, s := range []int64{1, 1e6} {
				for _, limit := range []int{int(n) / 2, int(n) - 5, int(n), int(n)*2 - 3} {
					l = append(l, vh.Scenario{Name: fmt.Sprintf("slots-%d-%d-l%d", n, s, limit), Split: 2, Body: limx.Long(int(3*n), []int64{s, 2 * s, s/2 + 1}, []int{1, 2}, mk(limit, time.Duration(n*s), time.Duration(s)), nil)})
				}
			}
		}
		for _, limit := range []int{255, 256, 257, 65535, 65536, 65537, 1 << 31, 1 << 32, 1<<63 - 1} {
			for _, c := range []c{{1, 1}, {1e9, 1e8}, {1 << 60, 1 << 60}, {1 << 60, 1 << 50}} {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("extreme-%v-%v-l%d", c.w, c.s, limit), Split: 2, Body: limx.Extreme([]int64{0, 1, 1e8, 1e9, 1600e15}, mk(limit, c.w, c.s))})
			}
		}
		return l
	})
}
