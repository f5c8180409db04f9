// verif:rewrite common/container/... tick,maps
package main

import (
	"fmt"

	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type handle struct {
	e    *list.Element[int]
	val  int
	list int // -1: in none
}

type world struct {
	l     [2]*list.List[int]
	model [2][]int // handle indexes; -2-v for copies whose handle is unknown
	h     []*handle
	next  int
}

func (w *world) add(li, pos int, e *list.Element[int], v int) {
	w.h = append(w.h, &handle{e, v, li})
	w.ins(li, pos, len(w.h)-1)
}

func (w *world) ins(li, pos, id int) {
	m := w.model[li]
	m = append(m, 0)
	copy(m[pos+1:], m[pos:])
	m[pos] = id
	w.model[li] = m
}

func (w *world) idx(li, id int) int {
	for i, x := range w.model[li] {
		if x == id {
			return i
		}
	}
	return -1
}

func (w *world) del(li, id int) {
	i := w.idx(li, id)
	w.model[li] = append(append([]int{}, w.model[li][:i]...), w.model[li][i+1:]...)
}

func (w *world) check() {
	for li, l := range w.l {
		m := w.model[li]
		vh.Check(l.Len() == len(m), "len", "list %d: Len() = %d, want %d", li, l.Len(), len(m))
		vh.Check(l.Empty() == (len(m) == 0), "empty", "list %d: Empty() = %v with %d elements", li, l.Empty(), len(m))
		i := 0
		for e := l.Front(); e != nil; e = e.Next() {
			vh.Check(i < len(m), "forward", "list %d: forward traversal yields more than %d elements", li, len(m))
			vh.Check(e == w.h[m[i]].e && e.Value == w.h[m[i]].val, "forward", "list %d: element %d is %v, want %v", li, i, e.Value, w.h[m[i]].val)
			i++
		}
		vh.Check(i == len(m), "forward", "list %d: forward traversal yields %d of %d elements", li, i, len(m))
		i = len(m)
		for e := l.Back(); e != nil; e = e.Prev() {
			i--
			vh.Check(i >= 0, "backward", "list %d: backward traversal yields more than %d elements", li, len(m))
			vh.Check(e == w.h[m[i]].e, "backward", "list %d: backward element %d is %v, want %v", li, i, e.Value, w.h[m[i]].val)
		}
		vh.Check(i == 0, "backward", "list %d: backward traversal misses %d elements", li, i)
	}
	for _, h := range w.h {
		if h.list < 0 {
			vh.Check(h.e.Next() == nil && h.e.Prev() == nil, "detached", "removed element %d still has neighbours", h.val)
		}
		vh.Check(h.e.Value == h.val, "value", "element value changed: %d, want %d", h.e.Value, h.val)
	}
}

// learn finds the handles of copied elements by traversal from a known neighbour.
func (w *world) learn(li, from, n int, vals []int) {
	l := w.l[li]
	e := l.Front()
	for i := 0; i < from; i++ {
		vh.Check(e != nil, "copylist", "list too short after a list copy")
		e = e.Next()
	}
	for i := 0; i < n; i++ {
		vh.Check(e != nil, "copylist", "list too short after a list copy")
		vh.Check(e.Value == vals[i], "copylist", "copied element %d is %d, want %d", i, e.Value, vals[i])
		for _, h := range w.h {
			vh.Check(h.e != e, "copylist", "a list copy moved an element instead of copying it")
		}
		w.add(li, from+i, e, vals[i])
		e = e.Next()
	}
}

func body(depth, maxH int, zero bool) func() {
	return func() {
		w := &world{}
		if zero {
			w.l = [2]*list.List[int]{new(list.List[int]), new(list.List[int])}
		} else {
			w.l = [2]*list.List[int]{list.New[int](), list.New[int]()}
		}
		vh.Steps(depth, func() uint64 { return vh.DeepHash(w) }, func(int) {
			w.step(maxH)
			w.check()
		})
	}
}

func (w *world) pickH(what string) *handle {
	return w.h[rt.Choose(len(w.h))]
}

func (w *world) hid(h *handle) int {
	for i, x := range w.h {
		if x == h {
			return i
		}
	}
	return -1
}

func (w *world) step(maxH int) {
	// handles never reused: elements that left a list stay as foreign marks
	ops := []int{}
	if len(w.h) < maxH {
		ops = append(ops, 0, 1, 4, 5)
	}
	ops = append(ops, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13)
	op := ops[rt.Choose(len(ops))]
	li := 0
	needs := op >= 4 && op <= 10 && op != 11
	if needs && len(w.h) == 0 {
		rt.Prune()
	}
	if op <= 3 || op >= 11 {
		li = rt.Choose(2)
	}
	l := w.l[li]
	v := w.next
	switch op {
	case 0:
		rt.Tracef("l%d.PushFront(%d)", li, v)
		w.next++
		var e *list.Element[int]
		vh.Do("PushFront", func() { e = l.PushFront(v) })
		vh.Check(e != nil && e.Value == v, "pushresult", "PushFront returned a wrong element")
		w.add(li, 0, e, v)
	case 1:
		rt.Tracef("l%d.PushBack(%d)", li, v)
		w.next++
		var e *list.Element[int]
		vh.Do("PushBack", func() { e = l.PushBack(v) })
		vh.Check(e != nil && e.Value == v, "pushresult", "PushBack returned a wrong element")
		w.add(li, len(w.model[li]), e, v)
	case 2, 3:
		if len(w.model[li]) == 0 {
			rt.Prune()
		}
		i, name := 0, "RemoveFront"
		if op == 3 {
			i, name = len(w.model[li])-1, "RemoveBack"
		}
		h := w.h[w.model[li][i]]
		rt.Tracef("l%d.%s()", li, name)
		var got int
		vh.Do(name, func() {
			if op == 2 {
				got = l.RemoveFront()
			} else {
				got = l.RemoveBack()
			}
		})
		vh.Check(got == h.val, "removeresult", "%s() = %d, want %d", name, got, h.val)
		w.del(li, w.hid(h))
		h.list = -1
	case 4, 5:
		mark := w.pickH("mark")
		li = rt.Choose(2)
		l = w.l[li]
		name := "InsertBefore"
		if op == 5 {
			name = "InsertAfter"
		}
		rt.Tracef("l%d.%s(%d, mark %d)", li, name, v, mark.val)
		w.next++
		var e *list.Element[int]
		vh.Do(name, func() {
			if op == 4 {
				e = l.InsertBefore(v, mark.e)
			} else {
				e = l.InsertAfter(v, mark.e)
			}
		})
		if mark.list != li {
			vh.Check(e == nil, "foreign", "%s with a foreign mark returned an element", name)
			return
		}
		vh.Check(e != nil && e.Value == v, "insertresult", "%s returned a wrong element", name)
		w.add(li, w.idx(li, w.hid(mark))+op-4, e, v)
	case 6:
		h := w.pickH("e")
		li = rt.Choose(2)
		rt.Tracef("l%d.Remove(%d)", li, h.val)
		var got int
		vh.Do("Remove", func() { got = w.l[li].Remove(h.e) })
		vh.Check(got == h.val, "removeresult", "Remove() = %d, want %d", got, h.val)
		if h.list == li {
			w.del(li, w.hid(h))
			h.list = -1
		}
	case 7, 8:
		h := w.pickH("e")
		li = rt.Choose(2)
		name := "MoveToFront"
		if op == 8 {
			name = "MoveToBack"
		}
		rt.Tracef("l%d.%s(%d)", li, name, h.val)
		vh.Do(name, func() {
			if op == 7 {
				w.l[li].MoveToFront(h.e)
			} else {
				w.l[li].MoveToBack(h.e)
			}
		})
		if h.list == li {
			id := w.hid(h)
			w.del(li, id)
			if op == 7 {
				w.ins(li, 0, id)
			} else {
				w.ins(li, len(w.model[li]), id)
			}
		}
	case 9, 10:
		h := w.pickH("e")
		mark := w.pickH("mark")
		li = rt.Choose(2)
		name := "MoveBefore"
		if op == 10 {
			name = "MoveAfter"
		}
		rt.Tracef("l%d.%s(%d, %d)", li, name, h.val, mark.val)
		vh.Do(name, func() {
			if op == 9 {
				w.l[li].MoveBefore(h.e, mark.e)
			} else {
				w.l[li].MoveAfter(h.e, mark.e)
			}
		})
		if h.list == li && mark.list == li && h != mark {
			id := w.hid(h)
			w.del(li, id)
			w.ins(li, w.idx(li, w.hid(mark))+op-9, id)
		}
	case 11, 12:
		from := rt.Choose(2)
		src := w.model[from]
		if len(w.h)+len(src) > maxH {
			rt.Prune()
		}
		var vals []int
		for _, id := range src {
			vals = append(vals, w.h[id].val)
		}
		name, at := "PushBackList", len(w.model[li])
		if op == 12 {
			name, at = "PushFrontList", 0
		}
		rt.Tracef("l%d.%s(l%d)", li, name, from)
		vh.Do(name, func() {
			if op == 11 {
				l.PushBackList(w.l[from])
			} else {
				l.PushFrontList(w.l[from])
			}
		})
		w.learn(li, at, len(vals), vals)
	case 13:
		rt.Tracef("l%d.Clear()", li)
		var r *list.List[int]
		vh.Do("Clear", func() { r = l.Clear() })
		vh.Check(r == l, "clear", "Clear returned another list")
		w.model[li] = nil
		for _, h := range w.h {
			if h.list == li {
				h.list = -1
			}
		}
	}
}

// long runs a deterministic script over larger lists.
func long() {
	n := []int{1, 2, 3, 8, 17, 64, 200}[rt.Choose(7)]
	k := rt.Choose(vh.Patterns)
	rt.Tracef("n=%d pattern=%d", n, k)
	w := &world{l: [2]*list.List[int]{list.New[int](), list.New[int]()}}
	for i, p := range vh.Pattern(k, n) {
		l := w.l[0]
		v := w.next
		w.next++
		switch {
		case len(w.h) == 0 || p%4 == 0:
			w.add(0, 0, l.PushFront(v), v)
		case p%4 == 1:
			w.add(0, len(w.model[0]), l.PushBack(v), v)
		case p%4 == 2:
			m := w.h[p%len(w.h)]
			e := l.InsertAfter(v, m.e)
			vh.Check(e != nil, "insertresult", "InsertAfter returned nil")
			w.add(0, w.idx(0, w.hid(m))+1, e, v)
		default:
			m := w.h[p%len(w.h)]
			e := l.InsertBefore(v, m.e)
			vh.Check(e != nil, "insertresult", "InsertBefore returned nil")
			w.add(0, w.idx(0, w.hid(m)), e, v)
		}
		if i%7 == 0 || n < 20 {
			w.check()
		}
	}
	w.check()
	for _, p := range vh.Pattern(k, n) {
		h := w.h[p%len(w.h)]
		m := w.h[(p*3+1)%len(w.h)]
		id := w.hid(h)
		switch p % 4 {
		case 0:
			w.l[0].MoveToBack(h.e)
			w.del(0, id)
			w.ins(0, len(w.model[0]), id)
		case 1:
			w.l[0].MoveToFront(h.e)
			w.del(0, id)
			w.ins(0, 0, id)
		case 2:
			w.l[0].MoveBefore(h.e, m.e)
			if h != m {
				w.del(0, id)
				w.ins(0, w.idx(0, w.hid(m)), id)
			}
		case 3:
			w.l[0].MoveAfter(h.e, m.e)
			if h != m {
				w.del(0, id)
				w.ins(0, w.idx(0, w.hid(m))+1, id)
			}
		}
	}
	w.check()
	var vals []int
	for _, id := range w.model[0] {
		vals = append(vals, w.h[id].val)
	}
	w.l[0].PushBackList(w.l[0])
	w.learn(0, len(vals), len(vals), vals)
	w.l[1].PushFrontList(w.l[0])
	w.learn(1, 0, 2*len(vals), append(append([]int{}, vals...), vals...))
	w.check()
	for len(w.model[0]) > 0 {
		h := w.h[w.model[0][len(w.model[0])/2]]
		w.l[0].Remove(h.e)
		w.del(0, w.hid(h))
		h.list = -1
	}
	w.check()
	rt.Transition(int64(6 * n))
	rt.Outcome(fmt.Sprint(n, k))
}

// grown: every operation (and every pair of operations) on lists that already hold n and m elements.
func grown(maxN, maxM, depth int) func() {
	return func() {
		n, m := rt.Choose(maxN+1), rt.Choose(maxM+1)
		rt.Tracef("lists of %d and %d elements", n, m)
		w := &world{l: [2]*list.List[int]{list.New[int](), list.New[int]()}}
		for i := 0; i < n+m; i++ {
			li := 0
			if i >= n {
				li = 1
			}
			v := w.next
			w.next++
			if i%2 == 0 {
				w.add(li, len(w.model[li]), w.l[li].PushBack(v), v)
			} else {
				w.add(li, 0, w.l[li].PushFront(v), v)
			}
		}
		w.check()
		vh.Steps(depth, func() uint64 { return vh.DeepHash(w) }, func(int) {
			w.step(1 << 20)
			w.check()
		})
	}
}

// huge: lengths around 2^8, 2^15 and 2^16, by value only.
func huge() {
	n := []int{127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 70000}[rt.Choose(14)]
	rt.Tracef("n=%d", n)
	l, o := list.New[int](), new(list.List[int])
	same := func(l *list.List[int], want func(int) int, n int) {
		vh.Check(l.Len() == n && l.Empty() == (n == 0), "len", "Len() = %d, want %d", l.Len(), n)
		i := 0
		for e := l.Front(); e != nil; e = e.Next() {
			vh.Check(i < n && e.Value == want(i), "forward", "element %d of %d is %d", i, n, e.Value)
			i++
		}
		vh.Check(i == n, "forward", "forward traversal yields %d of %d elements", i, n)
		for e := l.Back(); e != nil; e = e.Prev() {
			i--
			vh.Check(i >= 0 && e.Value == want(i), "backward", "element %d of %d is %d", i, n, e.Value)
		}
		vh.Check(i == 0, "backward", "backward traversal misses %d elements", i)
	}
	vh.DoN("huge", n, func() {
		for i := 0; i < n; i++ {
			l.PushBack(i)
			vh.Check(l.Len() == i+1, "len", "Len() = %d, want %d", l.Len(), i+1)
		}
		o.PushFrontList(l)
		same(o, func(i int) int { return i }, n)
		o.PushBackList(l)
		same(o, func(i int) int { return i % n }, 2*n)
		l.PushFrontList(l)
		same(l, func(i int) int { return i % n }, 2*n)
		for e := l.Front(); e != nil; {
			next := e.Next()
			if e.Value%2 == 1 {
				l.Remove(e)
			}
			e = next
		}
		h := (n + 1) / 2
		same(l, func(i int) int { return i % h * 2 }, 2*h)
		for i := 0; i < h; i++ {
			l.MoveToBack(l.Front())
		}
		same(l, func(i int) int { return i % h * 2 }, 2*h)
		e := l.Front()
		l.Clear()
		same(l, nil, 0)
		l.Remove(e)
		same(l, nil, 0)
		same(o, func(i int) int { return i % n }, 2*n)
	})
	rt.Transition(int64(12 * n))
}

func main() {
	vh.Main("C01", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "ops", Split: 3, Body: body(vh.D(5, 7), vh.D(5, 6), false)},
			{Name: "ops-zero-value", Split: 2, Body: body(vh.D(3, 5), 4, true)},
			{Name: "grown-1", Split: 3, Body: grown(12, 4, 1)},
			{Name: "grown-2", Split: 4, Body: grown(vh.D(4, 6), vh.D(2, 3), 2)},
			{Name: "long", Split: 1, Body: long},
			{Name: "huge", Split: 1, Body: huge},
		}
	})
}
