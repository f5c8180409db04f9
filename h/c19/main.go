// verif:rewrite common/limiter/... tick,conc,mem,maps
package main

import (
	"fmt"
	"time"

	fw "github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	lb "github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	sl "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	sw "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	tb "github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/limx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	vtime "github.com/ahKevinXy/go-web-tools/zzverif/shim/time"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type kind struct {
	name string
	mk   func(limit int) (func() string, limx.Model)
}

const sec = time.Second

var kinds = []kind{
	{"fixed", func(n int) (func() string, limx.Model) {
		l := fw.NewFixedWindowLimiter(n, sec)
		return func() string { return limx.Bool(l.TryAcquire()) }, limx.NewFixed(n, sec, limx.Now())
	}},
	{"window", func(n int) (func() string, limx.Model) {
		l, _ := sw.NewSlidingWindowLimiter(n, 2*sec, sec)
		return func() string { return limx.Bool(l.TryAcquire()) }, limx.NewLog(sec, true, limx.Strategy{Limit: n, Window: 2e9})
	}},
	{"log", func(n int) (func() string, limx.Model) {
		l, _ := sl.NewSlidingLogLimiter(sec, sl.NewSlidingLogLimiterStrategy(n+1, 3*sec), sl.NewSlidingLogLimiterStrategy(n, 2*sec))
		return func() string { return limx.Bool(l.TryAcquire() == nil) }, limx.NewLog(sec, true, limx.Strategy{Limit: n + 1, Window: 3e9}, limx.Strategy{Limit: n, Window: 2e9})
	}},
	{"leaky", func(n int) (func() string, limx.Model) {
		l := lb.NewLeakyBucketLimiter(n, 1)
		return func() string { return limx.Bool(l.TryAcquire()) }, limx.NewLeaky(n, 1, limx.Now())
	}},
	{"token", func(n int) (func() string, limx.Model) {
		l := tb.NewTokenBucketLimiter(n, 1)
		return func() string { return limx.Bool(l.TryAcquire()) }, limx.NewToken(n, 1, limx.Now())
	}},
}

func body(k kind, threads, ops int) func() {
	return func() {
		limit := 1 + rt.Choose(2)
		warm := rt.Choose(5)
		// the wait before each request: 0, or more than a window
		wait := make([][]int, threads)
		for t := range wait {
			for o := 0; o < ops; o++ {
				wait[t] = append(wait[t], rt.Choose(2))
			}
		}
		rt.Simulate(rt.Config{FreeSwitch: true, Races: true, Stalls: true, Horizon: 5000}, func() {
			try, model := k.mk(limit)
			var times []int64
			sleep := func(d time.Duration) {
				times = append(times, limx.Now()+int64(d))
				vtime.Sleep(d)
			}
			var calls []limx.Call
			n := int64(0)
			switch warm {
			case 1, 2:
				sleep(time.Duration(warm) * sec)
			default: // used up before, and back in part or not
				if warm > 2 {
					sleep(sec)
					for i := 0; i < limit; i++ {
						c := limx.Call{Who: threads, Inv: n + 1, T0: limx.Now()}
						c.Res = try()
						n += 2
						c.Ret, c.T1 = n, limx.Now()
						calls = append(calls, c)
					}
					sleep([]time.Duration{900 * time.Millisecond, 2 * sec}[warm-3])
				}
			}
			before := len(calls)
			for t := 0; t < threads; t++ {
				t := t
				rt.GoNamed(fmt.Sprintf("caller%d", t), func() {
					for o := 0; o < ops; o++ {
						if wait[t][o] == 1 {
							if k.name == "log" && warm == 3 { // past the largest window
								sleep(2100 * time.Millisecond)
							} else {
								sleep(1100 * time.Millisecond)
							}
						}
						n++
						c := limx.Call{Who: t, Inv: n, T0: limx.Now()}
						c.Res = try()
						n++
						c.Ret, c.T1 = n, limx.Now()
						calls = append(calls, c)
						rt.Tracef("caller %d: %s between +%d and +%d", t, c.Res, c.T0-rt.BaseTime, c.T1-rt.BaseTime)
					}
				})
			}
			for len(calls) < before+threads*ops {
				sleep(10 * time.Second)
			}
			ok := limx.Linearizable(model, calls, times)
			s := ""
			for _, c := range calls {
				s += c.Res + " "
			}
			rt.Outcome(s)
			vh.Check(ok, "concurrent", "%s limiter, limit %d: no order of the concurrent requests explains the answers %s", k.name, limit, s)
		})
	}
}

func main() {
	vh.Main("C19", func() []vh.Scenario {
		var l []vh.Scenario
		for _, k := range kinds {
			l = append(l, vh.Scenario{Name: k.name + "-2x1", SplitDev: true, Bound: 3, BoundT: 5, Body: body(k, 2, 1)})
			l = append(l, vh.Scenario{Name: k.name + "-2x2", SplitDev: true, Bound: 2, BoundT: 3, Body: body(k, 2, 2)})
			l = append(l, vh.Scenario{Name: k.name + "-3x1", SplitDev: true, Bound: 2, BoundT: 3, Body: body(k, 3, 1)})
		}
		return l
	})
}
