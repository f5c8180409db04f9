// verif:rewrite common/limiter/... tick,conc,maps
package main

import (
	"fmt"
	"time"

	fw "github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/limx"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func mk(limit int, w time.Duration) func() *limx.Instance {
	return func() *limx.Instance {
		var l *fw.FixedWindowLimiter
		vh.Do("NewFixedWindowLimiter", func() { l = fw.NewFixedWindowLimiter(limit, w) })
		return &limx.Instance{Try: func() string { return limx.Bool(l.TryAcquire()) }, Model: limx.NewFixed(limit, w, limx.Now())}
	}
}

func main() {
	vh.Main("C14", func() []vh.Scenario {
		var l []vh.Scenario
		for _, w := range []time.Duration{10, time.Second, 90 * time.Minute, 400 * 24 * time.Hour} {
			for _, limit := range []int{0, 1, 2, 3, 5} {
				W := int64(w)
				n := 300
				if W > 1e15 {
					n = 60
				}
				waits := []int64{0, 1, W / 2, W - 1, W, W + 1, 5*W + 3}
				end := func(in *limx.Instance) { limx.Window(in.Adm(), W, 2*limit, "two neighbouring windows") }
				l = append(l, vh.Scenario{Name: fmt.Sprintf("seq-w%v-l%d", w, limit), Split: 3, Body: limx.Sequences(vh.D(4, 6), waits, []int{1, 2, limit + 1}, mk(limit, w), end)})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("pair-w%v-l%d", w, limit), Split: 3, Body: limx.Pair(vh.D(4, 6), []int64{0, W / 2, W, W + 1}, mk(limit, w))})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("long-w%v-l%d", w, limit), Split: 2, Body: limx.Long(n, []int64{1, W / 7, W / 3, W, W + 1}, []int{1, 2, limit + 2}, mk(limit, w), end)})
			}
		}
		for _, limit := range []int{64, 1000} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("long-l%d", limit), Split: 2, Body: limx.Long(60, []int64{1, 1e9, 3e8}, []int{1, limit / 3, limit + 1}, mk(limit, time.Second), nil)})
		}
		for _, limit := range []int{255, 256, 257, 65535, 65536, 65537, 1 << 31, 1 << 32, 1<<63 - 1} {
			for _, w := range []time.Duration{1, time.Second, 1 << 62} {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("extreme-w%v-l%d", w, limit), Split: 2, Body: limx.Extreme([]int64{0, 1, 1e9, 1e9 + 1, 1600e15}, mk(limit, w))})
			}
			if limit < 1<<31 {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("many-l%d", limit), Body: limx.Many(limit, []int64{0, 1e9, 1e9 + 1}, mk(limit, time.Second))})
			}
		}
		return l
	})
}
