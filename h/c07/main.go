// verif:rewrite common/container/... tick,maps
// verif:rewrite common/math tick,maps
package main

import (
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/ringx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func mkFix(n uint64) (ringx.Ring, int, func(uint64)) { return fix.New[int](n), int(n), nil }

func mkRound(n uint64) (ringx.Ring, int, func(uint64)) {
	c := uint64(1)
	for c < n {
		c *= 2
	}
	return round.New[int](n), int(c), nil
}

var big = []uint64{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 256, 1000, 1025}

var hugeSizes = []uint64{2048, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 131072}

// construction: sizes that must be refused, and huge capacities of zero-size elements
func construct() {
	sizes := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, 1<<20 - 1, 1 << 20, 1<<20 + 1}
	for s := uint(31); s < 64; s++ {
		sizes = append(sizes, 1<<s-1, 1<<s, 1<<s+1)
	}
	sizes = append(sizes, 1<<64-1)
	n := sizes[rt.Choose(len(sizes))]
	if rt.Choose(2) == 0 {
		rt.Tracef("fix.New(%d)", n)
		var r *fix.Ring[struct{}]
		p, _ := vh.Panics("New", func() { r = fix.New[struct{}](n) })
		vh.Check(p == (n == 0 || n > fix.MaxSize), "construct", "fix.New(%d): panic=%v", n, p)
		if !p {
			vh.Check(r.Cap() == n && r.Avail() == n && r.Len() == 0 && r.Empty() && !r.Full(), "construct", "fix.New(%d): Cap() = %d, Avail() = %d", n, r.Cap(), r.Avail())
			r.Push(struct{}{})
			vh.Check(r.Len() == 1 && r.Avail() == n-1, "construct", "fix.New(%d): Len() = %d after one Push", n, r.Len())
		}
		return
	}
	rt.Tracef("round.New(%d)", n)
	var r *round.Ring[struct{}]
	p, _ := vh.Panics("New", func() { r = round.New[struct{}](n) })
	vh.Check(p == (n == 0 || n > round.MaxSize), "construct-round", "round.New(%d): panic=%v", n, p)
	if !p {
		c := uint64(1)
		for c < n {
			c *= 2
		}
		vh.Check(r.Cap() == c && r.Avail() == c && r.Empty() && !r.Full(), "construct-round", "round.New(%d): Cap() = %d, want %d", n, r.Cap(), c)
		r.Push(struct{}{})
		vh.Check(r.Len() == 1 && r.Avail() == c-1, "construct-round", "round.New(%d): Len() = %d after one Push", n, r.Len())
	}
}

func main() {
	vh.Main("C07", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "construct", Body: construct},
			{Name: "fix-ops", Split: 3, Body: ringx.Ops(mkFix, []uint64{1, 2, 3, 4, 5}, vh.D(4, 5))},
			{Name: "round-ops", Split: 3, Body: ringx.Ops(mkRound, []uint64{1, 2, 3, 4, 5}, vh.D(4, 5))},
			{Name: "fix-long", Split: 3, Body: ringx.Long(mkFix, big)},
			{Name: "fix-huge", Split: 2, Body: ringx.Huge(mkFix, hugeSizes)},
			{Name: "round-huge", Split: 2, Body: ringx.Huge(mkRound, hugeSizes)},
			{Name: "round-long", Split: 3, Body: ringx.Long(mkRound, big)},
		}
	})
}
