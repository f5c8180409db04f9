// verif:rewrite common/container/... tick,maps
// verif:rewrite common/math tick,maps
package main

import (
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/ringx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func mk(n uint64) (ringx.Ring, int, func(uint64)) {
	r := unbounded.New[int](n)
	return r, -1, r.Grow
}

func construct() {
	sizes := []uint64{0, 1, 2, 3, 5, 1000, 1 << 40, 1<<62 - 1, 1 << 62, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
	n := sizes[rt.Choose(len(sizes))]
	rt.Tracef("New(%d)", n)
	var r *unbounded.Ring[struct{}]
	p, _ := vh.Panics("New", func() { r = unbounded.New[struct{}](n) })
	vh.Check(p == (n > unbounded.MaxSize), "construct", "New(%d): panic=%v", n, p)
	if !p {
		vh.Check(r.Cap() == n && r.Len() == 0 && r.Empty(), "construct", "New(%d): Cap() = %d, Len() = %d", n, r.Cap(), r.Len())
		r.Push(struct{}{})
		vh.Check(r.Len() == 1 && !r.Empty() && r.Cap() >= n && r.Cap() >= 1, "construct", "New(%d): Len() = %d, Cap() = %d after one Push", n, r.Len(), r.Cap())
	}
}

func main() {
	vh.Main("C08", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "construct", Body: construct},
			{Name: "ops", Split: 3, Body: ringx.Ops(mk, []uint64{0, 1, 2, 3, 4}, vh.D(4, 5))},
			{Name: "huge", Split: 2, Body: ringx.Huge(mk, []uint64{0, 1, 255, 1024, 4096, 4097, 10000, 65536, 65537, 131072})},
			{Name: "long", Split: 3, Body: ringx.Long(mk, []uint64{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100, 129, 1000})},
		}
	})
}
