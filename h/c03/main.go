// verif:rewrite common/container/... tick,maps
package main

import (
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/heapx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type item = heapx.Item

func mkHeap(init []*item, less func(a, b *item) bool) *heapx.Heap {
	h := heap.New(init, less)
	return &heapx.Heap{Push: h.Push, Pop: h.Pop, Peek: h.Peek, Len: h.Len, Empty: h.Empty, Remove: h.Remove, Fix: h.Fix, Obj: h}
}

func mkPQ(init []*item, less func(a, b *item) bool) *heapx.Heap {
	h := pqueue.New(init, less)
	return &heapx.Heap{Push: h.Push, Pop: h.Pop, Peek: h.Peek, Len: h.Len, Empty: h.Empty, Obj: h}
}

// spare gives New a slice with room for more elements, with old ones behind its end.
func spare(mk func([]*item, func(a, b *item) bool) *heapx.Heap, c int) func([]*item, func(a, b *item) bool) *heapx.Heap {
	return func(init []*item, less func(a, b *item) bool) *heapx.Heap {
		s := make([]*item, c)
		for i := range s {
			s[i] = &item{P: -5 + i%11, ID: -1 - i}
		}
		return mk(s[:copy(s, init)], less)
	}
}

func spares(mk func([]*item, func(a, b *item) bool) *heapx.Heap, depth int, kinds string) func() {
	return func() {
		heapx.Ops(spare(mk, []int{8, 100, 600, 5000}[rt.Choose(vh.D(3, 4))]), depth, 2, vh.D(2, 3), kinds)()
	}
}

func main() {
	vh.Main("C03", func() []vh.Scenario {
		sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 33, 64, 65, 100}
		if vh.Thorough {
			sizes = append(sizes, 32, 63, 127, 128, 129, 200, 257)
		}
		huge := []int{255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 4097, 10000, 33000, 70000}
		return []vh.Scenario{
			{Name: "heap-init", Split: 4, Body: heapx.Ops(mkHeap, 1, vh.D(4, 4), vh.D(7, 8), "orf")},
			{Name: "heap-ops", Split: 4, Body: heapx.Ops(mkHeap, vh.D(4, 6), 3, 4, "porf")},
			{Name: "pqueue-ops", Split: 4, Body: heapx.Ops(mkPQ, vh.D(6, 8), 3, 3, "po")},
			{Name: "heap-spare", Split: 4, Body: spares(mkHeap, vh.D(2, 3), "porf")},
			{Name: "pqueue-spare", Split: 4, Body: spares(mkPQ, vh.D(3, 4), "po")},
			{Name: "heap-long", Split: 3, Body: heapx.Long(mkHeap, sizes, true, true)},
			{Name: "heap-huge", Split: 2, Body: heapx.Huge(mkHeap, huge, true, true)},
			{Name: "pqueue-huge", Split: 2, Body: heapx.Huge(mkPQ, huge, true, false)},
			{Name: "pqueue-long", Split: 3, Body: heapx.Long(mkPQ, sizes, true, false)},
		}
	})
}
