// verif:rewrite common/container/... tick,maps
package main

import (
	"fmt"

	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type val struct{ P, ID int }

type entry struct {
	e    *reap.Entry[val]
	v    val
	gone bool
}

type world struct {
	h    *reap.Reap[val]
	es   []*entry
	desc bool
	n    int
}

func mk(desc bool) *world {
	w := &world{desc: desc}
	w.h = reap.New[val](func(a, b val) bool { return w.before(a, b) })
	return w
}

func (w *world) before(a, b val) bool {
	if w.desc {
		return a.P > b.P
	}
	return a.P < b.P
}

func (w *world) live() int {
	n := 0
	for _, e := range w.es {
		if !e.gone {
			n++
		}
	}
	return n
}

func (w *world) isTop(op string, v val) *entry {
	var hit *entry
	for _, e := range w.es {
		if !e.gone && e.v == v {
			hit = e
		}
	}
	vh.Check(hit != nil, op+"-member", "%s returned %v, which is not in the heap", op, v)
	for _, e := range w.es {
		vh.Check(e.gone || !w.before(e.v, v), op+"-order", "%s returned priority %d although %d comes first", op, v.P, e.v.P)
	}
	return hit
}

func (w *world) check() {
	n := w.live()
	vh.Check(w.h.Len() == n, "len", "Len() = %d, want %d", w.h.Len(), n)
	vh.Check(w.h.Empty() == (n == 0), "empty", "Empty() wrong at size %d", n)
	if n > 0 {
		var v val
		vh.Do("Peek", func() { v = w.h.Peek() })
		w.isTop("peek", v)
	}
	for _, e := range w.es {
		if !e.gone {
			vh.Check(e.e.Value() == e.v, "value", "entry %d holds %v, want %v", e.v.ID, e.e.Value(), e.v)
		}
	}
}

func (w *world) push(p int) {
	v := val{p, w.n}
	w.n++
	var e *reap.Entry[val]
	vh.Do("Push", func() { e = w.h.Push(v) })
	vh.Check(e != nil && e.Value() == v, "push", "Push returned a wrong entry")
	w.es = append(w.es, &entry{e: e, v: v})
}

func (w *world) pop() {
	var v val
	vh.Do("Pop", func() { v = w.h.Pop() })
	w.isTop("pop", v).gone = true
}

func (w *world) remove(e *entry) {
	var ok bool
	vh.Do("Remove", func() { ok = w.h.Remove(e.e) })
	vh.Check(ok == !e.gone, "remove", "Remove of an entry (present: %v) returned %v", !e.gone, ok)
	e.gone = true
}

func (w *world) set(e *entry, p int) {
	v := val{p, e.v.ID}
	var ok bool
	vh.Do("SetValue", func() { ok = w.h.SetValue(e.e, v) })
	vh.Check(ok == !e.gone, "setvalue", "SetValue of an entry (present: %v) returned %v", !e.gone, ok)
	if ok {
		e.v = v
	}
}

func (w *world) fp() uint64 {
	type m struct {
		E    *reap.Entry[val]
		V    val
		Gone bool
	}
	var l []m
	for _, e := range w.es {
		l = append(l, m{e.e, e.v, e.gone})
	}
	return vh.DeepHash(w.desc, l, w.h)
}

func (w *world) drain() {
	for n := w.live(); n > 0; n-- {
		w.pop()
		w.check()
	}
	for _, e := range w.es {
		w.remove(e)
		w.set(e, 1)
	}
	w.check()
}

func ops(depth, init, prio int) func() {
	return func() {
		w := mk(rt.Choose(2) == 1)
		n := rt.Choose(init + 1)
		for i := 0; i < n; i++ {
			p := rt.Choose(prio)
			rt.Tracef("Push(%d)", p)
			w.push(p)
			w.check()
		}
		vh.Steps(depth, w.fp, func(int) {
			switch rt.Choose(4) {
			case 0:
				p := rt.Choose(prio)
				rt.Tracef("Push(%d)", p)
				w.push(p)
			case 1:
				if w.live() == 0 {
					rt.Prune()
				}
				rt.TraceS("Pop()")
				w.pop()
			case 2:
				if len(w.es) == 0 {
					rt.Prune()
				}
				i := rt.Choose(len(w.es))
				rt.Tracef("Remove(entry %d)", i)
				w.remove(w.es[i])
			case 3:
				if len(w.es) == 0 {
					rt.Prune()
				}
				i := rt.Choose(len(w.es))
				p := rt.Choose(prio+2) - 1
				rt.Tracef("SetValue(entry %d, %d)", i, p)
				w.set(w.es[i], p)
			}
			w.check()
		})
		w.drain()
	}
}

func long() {
	sizes := []int{1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 100, 129}
	n := sizes[rt.Choose(len(sizes))]
	k := rt.Choose(vh.Patterns)
	w := mk(rt.Choose(2) == 1)
	rt.Tracef("n=%d pattern=%d", n, k)
	pat := vh.Pattern(k, n)
	for _, p := range pat {
		w.push(p)
	}
	w.check()
	mode := rt.Choose(3)
	switch mode {
	case 0:
		for i, p := range pat {
			e := w.es[(i*37)%len(w.es)]
			switch p % 4 {
			case 0:
				w.remove(e)
			case 1:
				w.set(e, (p*17+i)%(2*n+1))
			case 2:
				w.push(p)
			case 3:
				if w.live() > 0 {
					w.pop()
				}
			}
			w.check()
		}
	case 1:
		i := rt.Choose(n)
		w.remove(w.es[i])
		w.check()
	case 2:
		i := rt.Choose(n)
		w.set(w.es[i], []int{-1, 3 * n, n / 2}[rt.Choose(3)])
		w.check()
	}
	w.drain()
}

// huge: sizes where an index could overflow or a capacity be cut back
func huge() {
	n := []int{255, 256, 257, 1000, 1025, 4097, 20000, 70000}[rt.Choose(8)]
	k := []int{0, 1, 3, 6}[rt.Choose(4)]
	rt.Tracef("n=%d pattern=%d", n, k)
	h := reap.New[val](func(a, b val) bool { return a.P < b.P })
	type ent struct {
		e    *reap.Entry[val]
		v    val
		gone bool
	}
	var es []*ent
	live := 0
	cnt := make([]int, 4*n+10)
	top := len(cnt)
	add := func(p int) {
		cnt[p]++
		if p < top {
			top = p
		}
	}
	push := func(p int) {
		v := val{p, len(es)}
		es = append(es, &ent{e: h.Push(v), v: v})
		live++
		add(p)
	}
	drop := func(x *ent) { x.gone = true; cnt[x.v.P]--; live-- }
	see := func(x *ent) {
		vh.Check(h.Len() == live && h.Empty() == (live == 0), "len", "Len() = %d, want %d", h.Len(), live)
		vh.Check(x.e.Value() == x.v, "value", "entry value %v, want %v", x.e.Value(), x.v)
	}
	pop := func() {
		for top < len(cnt) && cnt[top] == 0 {
			top++
		}
		w := h.Peek()
		v := h.Pop()
		vh.Check(v == w, "peek", "Peek() = %v, Pop() = %v", w, v)
		vh.Check(v.ID < len(es) && !es[v.ID].gone && es[v.ID].v == v, "pop-member", "Pop() = %v, which is not in the heap", v)
		vh.Check(v.P == top, "pop-order", "Pop() has priority %d although %d is in the heap of %d", v.P, top, live)
		drop(es[v.ID])
		see(es[v.ID])
	}
	vh.DoN("huge", 2*n, func() {
		pat := vh.Pattern(k, n)
		for _, p := range pat {
			push(p)
		}
		for i, p := range pat {
			x := es[i*31%len(es)]
			switch p % 4 {
			case 0:
				ok := h.Remove(x.e)
				vh.Check(ok == !x.gone, "remove", "Remove of an entry (gone: %v) returned %v", x.gone, ok)
				if !x.gone {
					drop(x)
				}
			case 1, 2:
				v := val{(p*13 + i) % (3 * n), x.v.ID}
				ok := h.SetValue(x.e, v)
				vh.Check(ok == !x.gone, "set", "SetValue of an entry (gone: %v) returned %v", x.gone, ok)
				if ok {
					cnt[x.v.P]--
					x.v = v
					add(v.P)
				}
			case 3:
				if live > 0 {
					pop()
				}
				if i%2 == 0 {
					push(p)
				}
			}
			see(x)
		}
		for live > 0 {
			pop()
		}
		for _, x := range es {
			vh.Check(!h.Remove(x.e), "remove", "Remove of a popped entry returned true")
		}
	})
	rt.Transition(int64(4 * n))
}

func main() {
	vh.Main("C06", func() []vh.Scenario {
		l := []vh.Scenario{
			{Name: "ops", Split: 4, Body: ops(vh.D(3, 5), 4, 3)},
			{Name: "long", Split: 3, Body: long},
			{Name: "huge", Split: 2, Body: huge},
		}
		for i := 5; i <= vh.D(7, 8); i++ {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("one-op-%d", i), Split: 4, Body: ops(1, i, 3)})
		}
		return l
	})
}
