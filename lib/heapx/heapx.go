// Package heapx checks any heap with the Push/Pop/Peek/Remove/Fix interface against a multiset.
package heapx

import (
	"sort"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// Item is an element with identity.
type Item struct {
	P  int // priority
	ID int
}

// Heap is the interface under test; Remove/Fix may be nil.
type Heap struct {
	Push   func(*Item)
	Pop    func() *Item
	Peek   func() *Item
	Len    func() int
	Empty  func() bool
	Remove func(int) *Item
	Fix    func(int)
	Obj    interface{}
}

// World is a heap with its reference multiset.
type World struct {
	H    *Heap
	Set  []*Item
	All  []*Item
	Next int
	less func(a, b *Item) bool
}

// New makes a world from initial items.
func New(mk func(init []*Item) *Heap, init []*Item, less func(a, b *Item) bool) *World {
	w := &World{less: less}
	w.Set = append(w.Set, init...)
	w.All = append(w.All, init...)
	w.Next = len(init)
	vh.Do("New", func() { w.H = mk(init) })
	return w
}

func (w *World) take(op string, x *Item, top bool) {
	vh.Check(x != nil, op+"-nil", "%s returned nil", op)
	i := -1
	for k, y := range w.Set {
		if y == x {
			i = k
		}
	}
	vh.Check(i >= 0, op+"-member", "%s returned an element that is not in the heap (priority %d, id %d)", op, x.P, x.ID)
	if top {
		w.isTop(op, x)
	}
	w.Set = append(append([]*Item{}, w.Set[:i]...), w.Set[i+1:]...)
}

func (w *World) isTop(op string, x *Item) {
	for _, y := range w.Set {
		vh.Check(!w.less(y, x), op+"-order", "%s returned priority %d although priority %d is in the heap", op, x.P, y.P)
	}
}

// Check compares size and top.
func (w *World) Check() {
	n := len(w.Set)
	vh.Check(w.H.Len() == n, "len", "Len() = %d, want %d", w.H.Len(), n)
	vh.Check(w.H.Empty() == (n == 0), "empty", "Empty() is wrong at size %d", n)
	if n > 0 {
		var x *Item
		vh.Do("Peek", func() { x = w.H.Peek() })
		vh.Check(x != nil, "peek-nil", "Peek returned nil")
		in := false
		for _, y := range w.Set {
			in = in || x == y
		}
		vh.Check(in, "peek-member", "Peek returned an element that is not in the heap")
		w.isTop("peek", x)
	}
}

// Push, Pop, ...
func (w *World) Push(p int) {
	x := &Item{p, w.Next}
	w.Next++
	w.All = append(w.All, x)
	vh.Do("Push", func() { w.H.Push(x) })
	w.Set = append(append([]*Item{}, w.Set...), x)
}

func (w *World) Pop() {
	var x *Item
	vh.Do("Pop", func() { x = w.H.Pop() })
	w.take("pop", x, true)
}

func (w *World) Remove(i int) *Item {
	var x *Item
	vh.Do("Remove", func() { x = w.H.Remove(i) })
	w.take("remove", x, i == 0)
	return x
}

// Drain empties it and checks the order.
func (w *World) Drain() {
	for n := len(w.Set); n > 0; n-- {
		w.Pop()
	}
	w.Check()
}

// Fp fingerprints.
func (w *World) Fp() uint64 { return vh.DeepHash(w.H.Obj, w.Set) }

// Less is the standard order.
func Less(a, b *Item) bool { return a.P < b.P }

// Greater is the reverse.
func Greater(a, b *Item) bool { return a.P > b.P }

// Ops explores operation sequences. prio: number of priorities; init: initial sizes 0..init.
// View tells whether the slice given to New shows the heap's elements (so that Fix can be used at any index).
func Ops(mk func(init []*Item, less func(a, b *Item) bool) *Heap, depth, prio, initMax int, kinds string) func() {
	return func() {
		less := Less
		if rt.Choose(2) == 1 {
			less = Greater
		}
		n := rt.Choose(initMax + 1)
		init := make([]*Item, n)
		var ps []int
		for i := range init {
			init[i] = &Item{rt.Choose(prio), i}
			ps = append(ps, init[i].P)
		}
		rt.Tracef("New(%v)", ps)
		w := New(func(x []*Item) *Heap { return mk(x, less) }, init, less)
		w.Check()
		var log []func(*World) // to rebuild a twin
		step := func(f func(*World)) {
			f(w)
			log = append(log, f)
			w.Check()
		}
		vh.Steps(depth, w.Fp, func(int) {
			k := kinds[rt.Choose(len(kinds))]
			switch k {
			case 'p':
				p := rt.Choose(prio)
				rt.Tracef("Push(%d)", p)
				step(func(w *World) { w.Push(p) })
			case 'o':
				if len(w.Set) == 0 {
					rt.Prune()
				}
				rt.TraceS("Pop()")
				step(func(w *World) { w.Pop() })
			case 'r':
				if len(w.Set) == 0 {
					rt.Prune()
				}
				i := rt.Choose(len(w.Set))
				rt.Tracef("Remove(%d)", i)
				step(func(w *World) { w.Remove(i) })
			case 'f':
				if len(w.Set) == 0 {
					rt.Prune()
				}
				i := rt.Choose(len(w.Set))
				// which element is at index i: ask a twin built by the same calls
				var id int
				{
					ti := make([]*Item, n)
					for j := range ti {
						ti[j] = &Item{ps[j], j}
					}
					t := New(func(x []*Item) *Heap { return mk(x, less) }, ti, less)
					for _, f := range log {
						f(t)
					}
					id = t.Remove(i).ID
				}
				p := rt.Choose(prio)
				rt.Tracef("element at %d gets priority %d; Fix(%d)", i, p, i)
				step(func(w *World) {
					w.All[id].P = p
					vh.Do("Fix", func() { w.H.Fix(i) })
				})
			}
		})
		w.Drain()
	}
}

// Long runs deterministic scripts at larger sizes; every index of one Remove/Fix is enumerated.
func Long(mk func(init []*Item, less func(a, b *Item) bool) *Heap, sizes []int, canInit bool, hasRF bool) func() {
	return func() {
		n := sizes[rt.Choose(len(sizes))]
		k := rt.Choose(vh.Patterns)
		less := Less
		if rt.Choose(2) == 1 {
			less = Greater
		}
		pat := vh.Pattern(k, n)
		init := 0
		if canInit {
			init = []int{0, n / 2, n}[rt.Choose(3)]
		}
		rt.Tracef("n=%d pattern=%d initial=%d", n, k, init)
		build := func() *World {
			var it []*Item
			for i := 0; i < init; i++ {
				it = append(it, &Item{pat[i], i})
			}
			w := New(func(x []*Item) *Heap { return mk(x, less) }, it, less)
			for i := init; i < n; i++ {
				w.Push(pat[i])
			}
			return w
		}
		w := build()
		w.Check()
		order := func(w *World) {
			var want []int
			for _, x := range w.Set {
				want = append(want, x.P)
			}
			sort.Ints(want)
			w.Drain()
		}
		mode := 0
		if hasRF {
			mode = rt.Choose(4)
		} else {
			mode = rt.Choose(2)
		}
		switch mode {
		case 0:
			order(w)
		case 1: // interleave
			for i, p := range pat {
				if p%2 == 0 {
					w.Push((p*5 + i) % (2*n + 1))
				} else if len(w.Set) > 0 {
					w.Pop()
				}
				w.Check()
			}
			order(w)
		case 2:
			i := rt.Choose(min(n, 40))
			i = i * n / min(n, 40)
			w.Remove(i)
			w.Check()
			order(w)
		case 3:
			i := rt.Choose(min(n, 40))
			i = i * n / min(n, 40)
			id := build().Remove(i).ID
			w.All[id].P = []int{-1, 2*n + 5, n / 2}[rt.Choose(3)]
			vh.Do("Fix", func() { w.H.Fix(i) })
			w.Check()
			order(w)
		}
	}
}

// Huge runs scripts at sizes where an index or a depth could overflow or a capacity be cut back.
func Huge(mk func(init []*Item, less func(a, b *Item) bool) *Heap, sizes []int, canInit, hasRF bool) func() {
	return func() {
		n := sizes[rt.Choose(len(sizes))]
		k := []int{0, 1, 3, 4, 6}[rt.Choose(5)]
		init := n
		if canInit && rt.Choose(2) == 1 {
			init = n / 3
		}
		rt.Tracef("n=%d pattern=%d initial=%d", n, k, init)
		pat := vh.Pattern(k, n)
		in := map[*Item]bool{}
		cnt := make([]int, 3*n+10)
		top := len(cnt)
		put := func(x *Item) {
			in[x] = true
			cnt[x.P]++
			if x.P < top {
				top = x.P
			}
		}
		var h *Heap
		out := func(op string, x *Item, isTop bool) {
			vh.Check(x != nil && in[x], op+"-member", "%s returned an element that is not in the heap", op)
			for top < len(cnt) && cnt[top] == 0 {
				top++
			}
			vh.Check(!isTop || x.P == top, op+"-order", "%s returned priority %d although priority %d is in the heap of %d", op, x.P, top, len(in))
			delete(in, x)
			cnt[x.P]--
			vh.Check(h.Len() == len(in) && h.Empty() == (len(in) == 0), "len", "Len() = %d, want %d", h.Len(), len(in))
		}
		id := 0
		item := func(p int) *Item { id++; x := &Item{p, id}; put(x); return x }
		vh.DoN("huge", n, func() {
			var it []*Item
			for i := 0; i < init; i++ {
				it = append(it, item(pat[i]))
			}
			h = mk(it, Less)
			for i := init; i < n; i++ {
				h.Push(item(pat[i]))
			}
			vh.Check(h.Len() == n, "len", "Len() = %d, want %d", h.Len(), n)
			if hasRF {
				for _, i := range []int{n - 1, n - 3, n / 2, n / 2, n / 3, n/4 + 1, 7, 1, 0} {
					if i >= 0 && i < h.Len() {
						out("remove", h.Remove(i), i == 0)
					}
				}
			}
			for i := 0; len(in) > n/5; i++ {
				out("pop", h.Pop(), true)
				if i%4 == 3 {
					h.Push(item((i * 31) % (2 * n)))
				}
			}
			for i := 0; i < n/2; i++ {
				h.Push(item(pat[n-1-i]))
			}
			for len(in) > 0 {
				x := h.Peek()
				out("pop", h.Pop(), true)
				vh.Check(!in[x], "peek", "Peek and Pop disagree")
			}
		})
		rt.Transition(int64(4 * n))
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
