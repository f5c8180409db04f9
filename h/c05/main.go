// verif:rewrite common/container/... tick,maps
package main

import (
	"fmt"
	"sort"

	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type M = meap.Meap[int, int]
type E = meap.Entry[int, int]

var orders = []struct {
	name string
	less func(a, b E) bool
}{
	{"value", func(a, b E) bool { return a.Value < b.Value }},
	{"value-desc", func(a, b E) bool { return a.Value > b.Value }},
	{"key", func(a, b E) bool { return a.Key < b.Key }},
	{"value-then-key", func(a, b E) bool { return a.Value < b.Value || a.Value == b.Value && a.Key > b.Key }},
}

type world struct {
	h    *M
	m    map[int]int
	less func(a, b E) bool
	dom  int
}

func (w *world) isTop(op string, e E) {
	v, ok := w.m[e.Key]
	vh.Check(ok && v == e.Value, op+"-member", "%s returned (%d,%d); the map holds %v", op, e.Key, e.Value, w.m)
	for k, v := range w.m {
		vh.Check(!w.less(E{Key: k, Value: v}, e), op+"-order", "%s returned (%d,%d) although (%d,%d) comes before it", op, e.Key, e.Value, k, v)
	}
}

func (w *world) check(full bool) {
	n := len(w.m)
	vh.Check(w.h.Len() == n, "len", "Len() = %d, want %d", w.h.Len(), n)
	vh.Check(w.h.Empty() == (n == 0), "empty", "Empty() wrong at size %d", n)
	if n > 0 {
		var e E
		vh.Do("Peek", func() { e = w.h.Peek() })
		w.isTop("peek", e)
	}
	if full {
		for k := -1; k <= w.dom; k++ {
			w.get(k)
		}
	}
}

func (w *world) get(k int) {
	var v int
	var ok, c bool
	vh.Do("Get", func() { v, ok = w.h.Get(k); c = w.h.Contains(k) })
	wv, wok := w.m[k]
	vh.Check(ok == wok && c == wok, "get", "Get(%d)/Contains present=%v/%v, want %v", k, ok, c, wok)
	vh.Check(v == wv, "get", "Get(%d) = %d, want %d", k, v, wv)
}

func (w *world) pop() {
	var e E
	vh.Do("Pop", func() { e = w.h.Pop() })
	w.isTop("pop", e)
	delete(w.m, e.Key)
}

func (w *world) fp() uint64 { return vh.DeepHash(w.h, w.m) }

func ops(depth, keys, vals int) func() {
	return func() {
		o := orders[rt.Choose(len(orders))]
		rt.Tracef("New(by %s)", o.name)
		w := &world{h: meap.New[int, int](o.less), m: map[int]int{}, less: o.less, dom: keys}
		vh.Steps(depth, w.fp, func(int) {
			switch rt.Choose(3) {
			case 0:
				k, v := rt.Choose(keys), rt.Choose(vals)
				rt.Tracef("Push(%d,%d)", k, v)
				vh.Do("Push", func() { w.h.Push(k, v) })
				w.m[k] = v
			case 1:
				k := rt.Choose(keys)
				rt.Tracef("Remove(%d)", k)
				vh.Do("Remove", func() { w.h.Remove(k) })
				delete(w.m, k)
			case 2:
				if len(w.m) == 0 {
					rt.Prune()
				}
				rt.TraceS("Pop()")
				w.pop()
			}
			w.check(true)
		})
		for len(w.m) > 0 {
			w.pop()
			w.check(true)
		}
	}
}

// one build of n distinct keys (every assignment of values), then one operation, then drain
func shape(n, vals int) func() {
	return func() {
		o := orders[rt.Choose(2)]
		w := &world{h: meap.New[int, int](o.less), m: map[int]int{}, less: o.less, dom: n}
		for k := 0; k < n; k++ {
			v := rt.Choose(vals)
			rt.Tracef("Push(%d,%d)", k, v)
			w.h.Push(k, v)
			w.m[k] = v
		}
		rt.Seen(w.fp(), 1)
		k := rt.Choose(n)
		if v := rt.Choose(vals + 3); v == vals {
			rt.Tracef("Remove(%d)", k)
			vh.Do("Remove", func() { w.h.Remove(k) })
			delete(w.m, k)
		} else {
			v--
			rt.Tracef("Push(%d,%d)", k, v)
			vh.Do("Push", func() { w.h.Push(k, v) })
			w.m[k] = v
		}
		for w.check(true); len(w.m) > 0; w.check(true) {
			w.pop()
		}
	}
}

func long() {
	sizes := []int{1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 100, 129, 255}
	n := sizes[rt.Choose(len(sizes))]
	k := rt.Choose(vh.Patterns)
	o := orders[rt.Choose(len(orders))]
	rt.Tracef("n=%d pattern=%d order=%s", n, k, o.name)
	w := &world{h: meap.New[int, int](o.less), m: map[int]int{}, less: o.less, dom: n}
	pat := vh.Pattern(k, n)
	for i, p := range pat {
		w.h.Push((i*7919)%1009, p)
		w.m[(i*7919)%1009] = p
	}
	w.check(false)
	for i, p := range pat {
		key := ((i * 31 % n) * 7919) % 1009
		switch p % 3 {
		case 0:
			w.h.Remove(key)
			delete(w.m, key)
		case 1:
			v := (p*13 + i) % (3 * n)
			w.h.Push(key, v)
			w.m[key] = v
		case 2:
			if len(w.m) > 0 {
				w.pop()
			}
		}
		w.get(key)
		w.check(false)
	}
	var keys []int
	for k := range w.m {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		w.get(k)
	}
	for len(w.m) > 0 {
		w.pop()
		w.check(false)
	}
	rt.Transition(int64(n))
}

// huge: sizes where an index could overflow, a capacity be cut back or a map be rebuilt
func huge() {
	n := []int{255, 256, 257, 1000, 1025, 4097, 20000, 70000}[rt.Choose(8)]
	k := []int{0, 1, 3, 6}[rt.Choose(4)]
	rt.Tracef("n=%d pattern=%d", n, k)
	h := meap.New[int, int](func(a, b E) bool { return a.Value < b.Value })
	m := map[int]int{}
	cnt := make([]int, 4*n+10)
	top := len(cnt)
	set := func(k, v int) {
		if o, ok := m[k]; ok {
			cnt[o]--
		}
		m[k] = v
		cnt[v]++
		if v < top {
			top = v
		}
	}
	see := func(key int) {
		v, ok := h.Get(key)
		wv, wok := m[key]
		vh.Check(ok == wok && v == wv && h.Contains(key) == wok, "get", "Get(%d) = %d, %v at size %d, want %d, %v", key, v, ok, len(m), wv, wok)
		vh.Check(h.Len() == len(m) && h.Empty() == (len(m) == 0), "len", "Len() = %d, want %d", h.Len(), len(m))
	}
	isTop := func(op string, e E) {
		for top < len(cnt) && cnt[top] == 0 {
			top++
		}
		v, ok := m[e.Key]
		vh.Check(ok && v == e.Value, op+"-member", "%s returned (%d,%d), the key has %d, %v", op, e.Key, e.Value, v, ok)
		vh.Check(e.Value == top, op+"-order", "%s returned value %d although %d is in the heap of %d", op, e.Value, top, len(m))
	}
	vh.DoN("huge", 2*n, func() {
		pat := vh.Pattern(k, n)
		for i, p := range pat {
			h.Push(i, p)
			set(i, p)
		}
		for i, p := range pat {
			key := i * 31 % n
			switch p % 4 {
			case 0:
				h.Remove(key)
				if v, ok := m[key]; ok {
					cnt[v]--
					delete(m, key)
				}
			case 1, 2:
				v := (p*13 + i) % (3 * n)
				h.Push(key, v)
				set(key, v)
			case 3:
				if len(m) > 0 {
					e := h.Pop()
					isTop("pop", e)
					cnt[e.Value]--
					delete(m, e.Key)
				}
			}
			see(key)
			see(i)
		}
		for i := range pat {
			see(i)
		}
		for len(m) > 0 {
			isTop("peek", h.Peek())
			e := h.Pop()
			isTop("pop", e)
			cnt[e.Value]--
			delete(m, e.Key)
			see(e.Key)
		}
		vh.Check(h.Empty(), "empty", "not empty after draining")
	})
	rt.Transition(int64(4 * n))
}

func main() {
	vh.Main("C05", func() []vh.Scenario {
		l := []vh.Scenario{
			{Name: "ops", Split: 4, Body: ops(vh.D(5, 7), 4, 3)},
			{Name: "ops-more-keys", Split: 4, Body: ops(vh.D(5, 6), 6, 2)},
			{Name: "long", Split: 3, Body: long},
			{Name: "huge", Split: 2, Body: huge},
		}
		for n := 5; n <= vh.D(7, 9); n++ {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("shape-%d", n), Split: 3, Body: shape(n, 3)})
		}
		return l
	})
}
