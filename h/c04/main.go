// verif:rewrite common/container/... tick,maps
package main

import (
	"fmt"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/heapx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type item = heapx.Item

func mk(n int) func(init []*item, less func(a, b *item) bool) *heapx.Heap {
	return func(init []*item, less func(a, b *item) bool) *heapx.Heap {
		h := heap.NewN(n, less)
		for _, x := range init {
			h.Push(x)
		}
		return &heapx.Heap{Push: h.Push, Pop: h.Pop, Peek: h.Peek, Len: h.Len, Empty: h.Empty, Remove: h.Remove, Fix: h.Fix, Obj: h}
	}
}

// perms: every insertion order of distinct priorities, then drain
func perms(n int) func() {
	return func() {
		m := n + 3 + rt.Choose(2)
		if m > vh.D(7, 8) {
			m = vh.D(7, 8)
		}
		p := rt.Perm(m)
		rt.Tracef("arity %d: push %v", n, p)
		var it []*item
		for i, x := range p {
			it = append(it, &item{P: x, ID: i})
		}
		w := heapx.New(func(x []*item) *heapx.Heap { return mk(n)(x, heapx.Less) }, it, heapx.Less)
		w.Check()
		w.Drain()
	}
}

func arity() {
	n := rt.Choose(40) - 5
	rt.Tracef("NewN(%d)", n)
	p, _ := vh.Panics("NewN", func() { heap.NewN[int](n, func(a, b int) bool { return a < b }) })
	vh.Check(p == (n < 2), "arity", "NewN(%d): panic=%v", n, p)
}

func main() {
	vh.Main("C04", func() []vh.Scenario {
		sizes := []int{2, 3, 5, 6, 8, 9, 10, 17, 33, 50, 65}
		if vh.Thorough {
			sizes = append(sizes, 1, 4, 7, 16, 31, 64, 100, 128, 201)
		}
		l := []vh.Scenario{{Name: "arity", Body: arity}}
		for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 10, 16, 33, 64} {
			if n <= 8 {
				l = append(l, vh.Scenario{Name: fmt.Sprintf("ops-%d", n), Split: 4, Body: heapx.Ops(mk(n), vh.D(2, 4), 3, vh.D(5, 5), "porf")})
				l = append(l, vh.Scenario{Name: fmt.Sprintf("perms-%d", n), Split: 3, Body: perms(n)})
			}
			l = append(l, vh.Scenario{Name: fmt.Sprintf("long-%d", n), Split: 3, Body: heapx.Long(mk(n), sizes, true, true)})
		}
		for _, n := range []int{2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 1000, 4096, 5000} {
			huge := []int{400, 1025, n + n/5 + 2}
			if n <= 300 {
				huge = append(huge, 3*n+2)
			}
			if n <= 17 {
				huge = append(huge, 9000, 70000)
			}
			l = append(l, vh.Scenario{Name: fmt.Sprintf("huge-%d", n), Split: 2, Body: heapx.Huge(mk(n), huge, false, true)})
		}
		return l
	})
}
