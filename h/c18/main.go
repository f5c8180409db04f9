// verif:rewrite common/limiter/... tick,conc,maps
package main

import (
	"fmt"

	lb "github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/limx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func mk(size, rate int) func() *limx.Instance {
	return func() *limx.Instance {
		var l *lb.TokenBucketLimiter
		vh.Do("NewTokenBucketLimiter", func() { l = lb.NewTokenBucketLimiter(size, rate) })
		return &limx.Instance{Try: func() string { return limx.Bool(l.TryAcquire()) }, Model: limx.NewToken(size, rate, limx.Now())}
	}
}

// guarantee: over any stretch, no more than the size plus what the rate supplies
func guarantee(size, rate int) func(*limx.Instance) {
	return func(in *limx.Instance) {
		a := in.Adm()
		for i := 0; i < len(a); i++ {
			for j := i; j < len(a) && j < i+200; j++ {
				max := size + int((a[j]-a[i])/1e9+1)*rate
				vh.Check(j-i+1 <= max, "rate-guarantee", "%d requests admitted within %d ns: more than %d", j-i+1, a[j]-a[i], max)
			}
		}
	}
}

func burst() {
	rt.SetClock(0)
	size := []int{1, 7, 100, 1000}[rt.Choose(4)]
	rate := []int{0, 1, 3, 50, 1000000}[rt.Choose(5)]
	in := mk(size, rate)()
	for k := 0; k < 4; k++ {
		rt.AdvanceClock([]int64{0, 999999999, 1e9, 3500e6, 100e9, 1e18}[rt.Choose(6)])
		for i := 0; i < size+2; i++ {
			in.Step()
		}
	}
}

func main() {
	vh.Main("C18", func() []vh.Scenario {
		l := []vh.Scenario{{Name: "burst", Split: 3, Body: burst}}
		waits := []int64{0, 1, 500e6, 999999999, 1e9, 1500e6, 2e9, 3700e6, 1e18}
		for size := 0; size <= 4; size++ {
			for rate := 0; rate <= 3; rate++ {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("seq-cap%d-rate%d", size, rate), Split: 3, Body: limx.Sequences(vh.D(4, 5), waits, []int{1, 2, size + 1}, mk(size, rate), guarantee(size, rate))})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("fine-cap%d-rate%d", size, rate), Split: 3, Body: limx.Sequences(vh.D(6, 8), []int64{0, 600e6, 1e9, 2e9}, []int{1}, mk(size, rate), guarantee(size, rate))})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("pair-cap%d-rate%d", size, rate), Split: 3, Body: limx.Pair(vh.D(4, 6), []int64{0, 500e6, 1e9, 2e9}, mk(size, rate))})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("long-cap%d-rate%d", size, rate), Split: 2, Body: limx.Long(200, []int64{1, 100e6, 333e6, 500e6, 999999999, 1e9, 1300e6}, []int{1, 2, size + 2}, mk(size, rate), guarantee(size, rate))})
			}
		}
		for _, size := range []int{0, 1, 3, 1 << 31, 1<<32 + 1, 1 << 62, 1<<63 - 1} {
			for _, rate := range []int{0, 1, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 61, 1 << 62, 1<<63 - 1} {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("extreme-cap%d-rate%d", size, rate), Split: 2, Body: limx.Extreme([]int64{0, 1e9, 2e9, 3e9, 5e9, 1e18, 1600e15}, mk(size, rate))})
			}
		}
		return l
	})
}
