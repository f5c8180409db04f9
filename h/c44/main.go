// verif:rewrite common/container/... tick,mem
// verif:rewrite common/filter/... tick,conc,mem
// verif:rewrite common/limiter/... tick,conc,mem
// verif:rewrite common/timer/... tick,conc,mem
// verif:rewrite common/math tick
// verif:rewrite help/utils tick,conc,mem
// verif:rewrite gorm_tools tick,mem
package main

import (
	"fmt"
	"math/bits"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	fw "github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	lb "github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	sl "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	sw "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	tb "github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	dq "github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/twx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const big = 1 << 40

// comparisons made so far by the user's function
var compared int64

func less(a, b *int) bool { compared++; return *a < *b }

// log is the number of levels of an n-element heap of arity d.
func log(n, d int) int64 {
	l, c := int64(1), 1
	for w := 1; c < n; l++ {
		w *= d
		c += w
	}
	return l
}

// val gives the value of element i of n under a pattern.
func val(p, i, n int) int {
	switch p {
	case 0:
		return i
	case 1:
		return n - i
	case 2:
		return 0
	case 3: // zigzag
		if i%2 == 0 {
			return i
		}
		return 2*n - i
	case 4: // organ pipe
		if i < n/2 {
			return i
		}
		return n - i
	case 5:
		return i * 7919 % 1009
	default: // in bit-reversed order
		return int(bits.Reverse32(uint32(i)) >> 8)
	}
}

const patterns = 7

func sizes() []int {
	l := []int{1, 2, 3, 5, 9, 16, 33, 64, 65, 100, 127, 128, 255, 257, 512, 1000, 1025}
	if vh.Thorough {
		l = append(l, 2047, 2048, 4099, 8192, 16384)
	}
	return l
}

// h is any heap; remove and fix take an index in 0..len-1 (translated by the adapter to a key or handle of its own
// when elements are not addressed by position).
type h struct {
	name   string
	d      int
	n      func() int
	push   func(v int)
	pop    func()
	peek   func()
	remove func(i int)
	fix    func(i, v int)
}

var heaps = []string{"heap", "heap-built", "pqueue", "heap2", "heap3", "heap4", "heap8", "heap16", "meap", "reap"}

func mk(name string, vals []int) *h {
	p := func(v int) *int { return &v }
	var s []*int
	for _, v := range vals {
		s = append(s, p(v))
	}
	x := &h{name: name, d: 2}
	all := func() {
		for _, v := range vals {
			x.push(v)
		}
	}
	// changes the value of the element at the position by a heap's own means: the elements are pointers
	switch name {
	case "heap", "heap-built":
		var y *heap.Heap[*int]
		if name == "heap-built" {
			c0 := compared
			vh.DoN("New", big, func() { y = heap.New(s, less) })
			n := int64(len(s))
			vh.Check(compared-c0 <= 6*n+16, "init", "building a heap of %d elements made %d comparisons, more than a multiple of the size", n, compared-c0)
		} else {
			y = heap.New[*int](nil, less)
		}
		x.n, x.pop, x.peek = y.Len, func() { y.Pop() }, func() { y.Peek() }
		x.push = func(v int) { y.Push(p(v)) }
		x.remove = func(i int) { y.Remove(i) }
		x.fix = func(i, v int) { *y.Peek() = v; y.Fix(0) }
		if name == "heap" {
			all()
		}
	case "pqueue":
		y := pqueue.New(s, less)
		x.n, x.pop, x.peek = y.Len, func() { y.Pop() }, func() { y.Peek() }
		x.push = func(v int) { y.Push(p(v)) }
	case "meap":
		type e = meap.Entry[int, int]
		y := meap.New(func(a, b e) bool { compared++; return a.Value < b.Value })
		keys := []int{}
		k := 0
		x.n, x.peek = y.Len, func() { y.Peek() }
		x.pop = func() { y.Pop() }
		x.push = func(v int) { k++; keys = append(keys, k); y.Push(k, v) }
		x.remove = func(i int) { y.Remove(keys[i%len(keys)]) }
		x.fix = func(i, v int) { y.Push(keys[i%len(keys)], v) }
		all()
	case "reap":
		y := reap.New(func(a, b int) bool { compared++; return a < b })
		var es []*reap.Entry[int]
		x.n, x.peek = y.Len, func() { y.Peek() }
		x.pop = func() { y.Pop() }
		x.push = func(v int) { es = append(es, y.Push(v)) }
		x.remove = func(i int) { y.Remove(es[i%len(es)]) }
		x.fix = func(i, v int) { y.SetValue(es[i%len(es)], v) }
		all()
	default:
		fmt.Sscanf(name, "heap%d", &x.d)
		y := heap.NewN(x.d, less)
		x.n, x.pop, x.peek = y.Len, func() { y.Pop() }, func() { y.Peek() }
		x.push = func(v int) { y.Push(p(v)) }
		x.remove = func(i int) { y.Remove(i) }
		x.fix = func(i, v int) { *y.Peek() = v; y.Fix(0) }
		all()
	}
	return x
}

// heapOps: every operation on a heap of every size, pattern and index costs comparisons in the order of its depth;
// draining it by popping and by removing costs steps in the order of the depth each.
func heapOps() {
	name := heaps[rt.Choose(len(heaps))]
	sz := sizes()
	n := sz[rt.Choose(len(sz))]
	pat := rt.Choose(patterns)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = val(pat, i, n)
	}
	rt.Tracef("%s of %d elements, pattern %d", name, n, pat)
	var x *h
	vh.DoN("build", big, func() { x = mk(name, vals) })
	lv := log(n+1, x.d)
	limit := 4 * int64(x.d) * (lv + 2)
	one := func(op string, f func()) {
		c := compared
		vh.DoN(op, big, f)
		rt.Transition(1)
		vh.Check(compared-c <= limit, "comparisons:"+op, "%s of a %s with %d elements (pattern %d) made %d comparisons; its depth is %d and its arity %d", op, name, n, pat, compared-c, lv, x.d)
	}
	cost := func(op string, times int, per int64, f func()) {
		c := rt.Cost()
		vh.DoN(op, big, f)
		if d := rt.Cost() - c; d > int64(times)*per+2000 {
			vh.Check(false, "steps:"+op, "%d times %s on a %s with %d elements (pattern %d) took %d steps, on average more than %d", times, op, name, n, pat, d, per)
		}
	}
	per := 64 * int64(x.d) * (lv + 2) / 2
	if per > 64*lv*8 {
		per = 64 * lv * 8
	}
	lo, hi := -1, 3*n+5
	for k := 0; k < n && k < 300; k++ {
		i := k
		if n > 300 {
			i = k * n / 300
		}
		one("Peek", x.peek)
		if x.fix != nil {
			v := []int{lo, hi, n / 2}[k%3]
			one("Fix", func() { x.fix(i, v) })
		}
		if x.remove != nil {
			one("Remove", func() { x.remove(i % x.n()) })
			one("Push", func() { x.push(vals[i]) })
		}
		one("Pop", x.pop)
		one("Push", func() { x.push([]int{lo, hi, vals[i]}[k%3]) })
	}
	m := x.n()
	cost("Push", n, per, func() {
		for i := 0; i < n; i++ {
			x.push(vals[i])
		}
	})
	if x.remove != nil {
		cost("Remove", m, per, func() {
			for i := 0; i < m && x.n() > 1; i++ {
				x.remove(i * 31 % x.n())
			}
		})
	}
	m = x.n()
	cost("Pop", m, per, func() {
		for x.n() > 0 {
			x.pop()
		}
	})
}

// indexes: remove and fix at every position of the binary and n-ary heap
func indexes() {
	d := []int{0, 2, 3, 5}[rt.Choose(4)]
	n := []int{2, 7, 64, 100, 129, 300}[rt.Choose(6)]
	pat := rt.Choose(patterns)
	i := rt.Choose(n)
	var es []*int
	for k := 0; k < n; k++ {
		v := val(pat, k, n)
		es = append(es, &v)
	}
	ar := d
	if d == 0 {
		ar = 2
	}
	limit := 4 * int64(ar) * (log(n, ar) + 2)
	type hp interface {
		Remove(int) *int
		Fix(int)
	}
	build := func() hp {
		if d == 0 {
			return heap.New(append([]*int{}, es...), less)
		}
		y := heap.NewN(d, less)
		for _, e := range es {
			y.Push(e)
		}
		return y
	}
	for op := 0; op < 3; op++ {
		name := []string{"Remove", "Fix after decreasing", "Fix after increasing"}[op]
		var c int64
		vh.DoN(name, big, func() {
			if op == 0 {
				y := build()
				c = compared
				y.Remove(i)
				return
			}
			at := build().Remove(i) // the element in position i
			y, v := build(), *at
			*at = -1
			if op == 2 {
				*at = 4*n + 9
			}
			c = compared
			y.Fix(i)
			*at = v
		})
		rt.Transition(1)
		vh.Check(compared-c <= limit, "comparisons:"+name, "%s at index %d of a heap of arity %d with %d elements (pattern %d) made %d comparisons", name, i, ar, n, pat, compared-c)
	}
}

// flat is a structure whose operations cost the same at every size.
type flat struct {
	name string
	per  int64 // steps allowed per operation, on average
	mk   func(n int) map[string]func()
}

func flats() []flat {
	var l []flat
	add := func(name string, per int64, mk func(n int) map[string]func()) { l = append(l, flat{name, per, mk}) }
	add("list", 64, func(n int) map[string]func() {
		x := list.New[int]()
		var es []*list.Element[int]
		for i := 0; i < n; i++ {
			es = append(es, x.PushBack(i))
		}
		k := 0
		next := func() *list.Element[int] { k += 7; return es[k%n] }
		return map[string]func(){
			"PushFront": func() { x.PushFront(1) }, "PushBack": func() { x.PushBack(1) },
			"RemoveFront":  func() { x.PushBack(0); x.RemoveFront() },
			"RemoveBack":   func() { x.PushFront(0); x.RemoveBack() },
			"InsertBefore": func() { x.InsertBefore(1, es[n/2]) }, "InsertAfter": func() { x.InsertAfter(1, es[n/2]) },
			"MoveToFront": func() { x.MoveToFront(next()) }, "MoveToBack": func() { x.MoveToBack(next()) },
			"MoveBefore": func() { x.MoveBefore(next(), next()) }, "MoveAfter": func() { x.MoveAfter(next(), next()) },
			"Len": func() { x.Len(); x.Empty() }, "Front": func() { x.Front(); x.Back() },
			"Remove": func() { x.Remove(x.InsertAfter(1, es[n/3])) },
			"Next":   func() { e := next(); e.Next(); e.Prev() },
		}
	})
	add("deque", 64, func(n int) map[string]func() {
		x := deque.New[int]()
		for i := 0; i < n; i++ {
			x.PushBack(i)
		}
		return map[string]func(){
			"PushFront": func() { x.PushFront(1) }, "PushBack": func() { x.PushBack(1) },
			"PopFront": func() { x.PushBack(1); x.PopFront() }, "PopBack": func() { x.PushFront(1); x.PopBack() },
			"PushBack+PopBack": func() { x.PushBack(1); x.PopBack() }, "PushFront+PopFront": func() { x.PushFront(1); x.PopFront() },
			"Len": func() { x.Len(); x.Empty() },
		}
	})
	add("stack", 64, func(n int) map[string]func() {
		x := stack.New[int]()
		for i := 0; i < n; i++ {
			x.Push(i)
		}
		return map[string]func(){
			"Push": func() { x.Push(1) }, "Push+Pop": func() { x.Push(1); x.Pop() },
			"Pop": func() {
				if x.Len() > 0 {
					x.Pop()
				}
			},
			"Peek": func() {
				if x.Len() > 0 {
					x.Peek()
				}
			}, "Len": func() { x.Len(); x.Empty() },
		}
	})
	add("set", 64, func(n int) map[string]func() {
		x := set.New[int]()
		for i := 0; i < n; i++ {
			x.Add(i)
		}
		k := n
		return map[string]func(){
			"Add": func() { k++; x.Add(k) }, "Add again": func() { x.Add(n / 2) },
			"Contains": func() { k += 3; x.Contains(k % (2 * n)) }, "Remove": func() { k += 3; x.Remove(k % (2 * n)) },
			"Len": func() { x.Len(); x.Empty() },
		}
	})
	add("map", 96, func(n int) map[string]func() {
		x := new(utils.Map)
		for i := 0; i < n; i++ {
			x.Set(i, i)
		}
		k := n
		return map[string]func(){
			"Set": func() { k++; x.Set(k, 1) }, "Set again": func() { x.Set(n/2, k) }, "Get": func() { k += 3; x.Get(k % (2 * n)) },
			"TestAndSet": func() { k += 3; x.TestAndSet(k%(3*n), 1) }, "Del": func() { k += 3; x.Del(k % (2 * n)) }, "Len": func() { x.Len() },
		}
	})
	type ring interface {
		Push(int)
		Pop() int
		Peek() int
		Len() uint64
		Cap() uint64
		Avail() uint64
		Empty() bool
		Full() bool
		MPush(...int)
		MPop(uint64) []int
		MPopCopy([]int)
	}
	rings := func(name string, mk func(n int) ring) {
		add(name, 96, func(n int) map[string]func() {
			x := mk(n)
			for i := 0; i < n-8; i++ {
				x.Push(i)
			}
			dst := make([]int, 2)
			return map[string]func(){
				"Push+Pop": func() { x.Push(1); x.Pop() }, "Pop+Push": func() { x.Pop(); x.Push(1) },
				"Len": func() { x.Len(); x.Cap(); x.Avail(); x.Empty(); x.Full() }, "Peek": func() { x.Peek() },
				"MPush+MPop": func() { x.MPush(1, 2); x.MPop(2) }, "MPush+MPopCopy": func() { x.MPush(1, 2); x.MPopCopy(dst) },
				"MPush+Pop+Pop": func() { x.MPush(1, 2); x.Pop(); x.Pop() },
			}
		})
	}
	rings("fix", func(n int) ring { return fix.New[int](uint64(n)) })
	rings("round", func(n int) ring { return round.New[int](uint64(n)) })
	for _, init := range []int{0, 1, 2, 3, 7, 100, -1} {
		init := init
		mk := func(n int) *unbounded.Ring[int] {
			if init < 0 {
				return unbounded.New[int](uint64(n))
			}
			return unbounded.New[int](uint64(init))
		}
		rings(fmt.Sprintf("unbounded(%d)", init), func(n int) ring { return mk(n) })
		add(fmt.Sprintf("unbounded(%d) growing", init), 96, func(n int) map[string]func() {
			x, y, z := mk(n), mk(n), mk(n)
			for i := 0; i < n; i++ {
				x.Push(i)
				y.Push(i)
			}
			return map[string]func(){
				"Push": func() { x.Push(1) }, "MPush": func() { y.MPush(1, 2, 3) }, "Push+Push+Pop": func() { z.Push(1); z.Push(2); z.Pop() },
			}
		})
	}
	add("bloom", 900, func(n int) map[string]func() {
		x := bloom.New(uint64(n), 0.01)
		for i := 0; i < n; i++ {
			x.Add(uint64(i))
		}
		k := uint64(0)
		return map[string]func(){
			"Add": func() { k++; x.Add(k) }, "AddString": func() { x.AddString("key") }, "AddBytes": func() { x.AddBytes([]byte("key")) },
			"Contains": func() { k += 3; x.Contains(k) }, "ContainsString": func() { x.ContainsString("key") }, "ContainsBytes": func() { x.ContainsBytes([]byte("key")) },
		}
	})
	// a limiter that has seen n requests, all at once and spread
	const sec = time.Second
	lim := func(name string, per int64, f func(n int) func()) {
		add(name, per, func(n int) map[string]func() {
			rt.SetClock(0)
			m := map[string]func(){}
			for _, gap := range []int64{0, 1, int64(sec) / 100, int64(sec) / 3, 3 * int64(sec)} {
				gap := gap
				try := f(n)
				step := func() { rt.AdvanceClock(gap); try() }
				for i := 0; i < n; i++ {
					step()
				}
				m[fmt.Sprintf("TryAcquire every %v", time.Duration(gap))] = step
			}
			return m
		})
	}
	lim("fixed", 96, func(n int) func() { x := fw.NewFixedWindowLimiter(2*n, sec); return func() { x.TryAcquire() } })
	lim("leaky", 96, func(n int) func() { x := lb.NewLeakyBucketLimiter(2*n, 5); return func() { x.TryAcquire() } })
	lim("token", 96, func(n int) func() { x := tb.NewTokenBucketLimiter(2*n, 5); return func() { x.TryAcquire() } })
	lim("window", 600, func(n int) func() {
		x, _ := sw.NewSlidingWindowLimiter(8*n, 2*sec, sec/2)
		return func() { x.TryAcquire() }
	})
	lim("log", 1200, func(n int) func() {
		x, _ := sl.NewSlidingLogLimiter(sec/2, sl.NewSlidingLogLimiterStrategy(8*n, 4*sec), sl.NewSlidingLogLimiterStrategy(4*n, 2*sec))
		return func() { x.TryAcquire() }
	})
	add("delay queue", 1600, func(n int) map[string]func() {
		rt.SetClock(0)
		x := dq.New[int]()
		for i := 0; i < n; i++ {
			x.Push(i, time.Duration(i*7919%10007)*time.Millisecond)
		}
		k := 0
		return map[string]func(){
			"Push": func() { k += 37; x.Push(1, time.Duration(k%9001)*time.Millisecond) }, "Push first": func() { k++; x.Push(1, -time.Duration(k)) },
			"Peek": func() { x.Peek(); x.Empty() }, "Pop": func() { rt.AdvanceClock(int64(time.Millisecond)); x.Pop() },
		}
	})
	return l
}

// constant: m operations of one kind on an instance with n elements take at most a fixed number of steps each on
// average, whatever n is.
func constant() {
	l := flats()
	k := rt.Choose(len(l))
	f := l[k]
	n := []int{64, 1024, vh.D(4096, 32768)}[rt.Choose(3)]
	var ops map[string]func()
	rt.Tracef("%s with %d elements", f.name, n)
	vh.DoN(f.name, big, func() { ops = f.mk(n) })
	names := map[string]int{}
	for o := range ops {
		names[o] = 0
	}
	keys := vh.SortedKeys(names)
	op := keys[rt.Choose(len(keys))]
	m := n
	if m < 512 {
		m = 512
	}
	c := rt.Cost()
	vh.DoN(f.name+" "+op, big, func() {
		for i := 0; i < m; i++ {
			ops[op]()
		}
	})
	rt.Transition(int64(m))
	if d := rt.Cost() - c; d > int64(m)*f.per {
		vh.Check(false, "steps:"+f.name, "%s with %d elements: %d operations %s took %d steps, on average %d (more than %d)", f.name, n, m, op, d, d/int64(m), f.per)
	}
}

// boundary: going up and down by a few elements at any fill level never costs more than a fixed number of steps per
// operation on average (a structure that grows and shrinks at the same size copies itself over and over)
func boundary() {
	k := rt.Choose(5)
	level := rt.Choose(vh.D(140, 600))
	span := 1 + rt.Choose(4)
	var push, pop func()
	name := []string{"unbounded ring", "stack", "deque at the back", "deque at the front", "set"}[k]
	vh.DoN(name, big, func() {
		switch k {
		case 0:
			x := unbounded.New[int](0)
			push, pop = func() { x.Push(1) }, func() { x.Pop() }
		case 1:
			x := stack.New[int]()
			push, pop = func() { x.Push(1) }, func() { x.Pop() }
		case 2, 3:
			x := deque.New[int]()
			push, pop = func() { x.PushBack(1) }, func() { x.PopBack() }
			if k == 3 {
				push, pop = func() { x.PushFront(1) }, func() { x.PopFront() }
			}
		case 4:
			x := set.New[int]()
			n := 0
			push, pop = func() { x.Add(n); n++ }, func() { n--; x.Remove(n) }
		}
		for i := 0; i < level; i++ {
			push()
		}
	})
	const m = 400
	c := rt.Cost()
	vh.DoN(name, big, func() {
		for i := 0; i < m; i++ {
			for j := 0; j < span; j++ {
				push()
			}
			for j := 0; j < span; j++ {
				pop()
			}
		}
	})
	rt.Transition(int64(m))
	if d := rt.Cost() - c; d > m*int64(span)*50+int64(level)*20+200 {
		vh.Check(false, "steps:boundary", "%s with %d elements: %d times pushing and popping %d took %d steps", name, level, m, span, d)
	}
}

// wheel: adding and stopping a task costs the same whatever is pending; running all pending tasks costs a bounded
// number of steps per task.
func wheel() {
	tick, size := int64(1), int64(20)
	switch rt.Choose(3) {
	case 1:
		tick, size = 10, 3
	case 2:
		tick, size = 5, 100
	}
	n := []int{50, vh.D(1500, 6000)}[rt.Choose(2)]
	spread := []int64{0, 1, 7, 997, 100003}[rt.Choose(5)] // delays in ms: i*7919 mod spread
	what := rt.Choose(3)
	rt.Simulate(rt.Config{Horizon: 1 << 40, Threads: 2*n + 50}, func() {
		w := twx.New(tick, size, false)
		if what != 0 { // otherwise the wheel starts when everything has been added
			w.Run()
		}
		delay := func(i int) time.Duration {
			if spread == 0 {
				return time.Hour
			}
			return time.Duration(int64(i)*7919%spread+1) * time.Millisecond
		}
		c := rt.Cost()
		for i := 0; i < n; i++ {
			w.W.AfterFunc(delay(i), func() {})
		}
		check := func(op string, m int, per int64) {
			if d := rt.Cost() - c; d > int64(m)*per+5000 {
				vh.Check(false, "steps:"+op, "wheel of tick %d ms and size %d: %d times %s with %d tasks (spread %d ms) took %d steps, on average more than %d", tick, size, m, op, n, spread, d, per)
			}
			c = rt.Cost()
		}
		check("AfterFunc", n, 1200)
		if what == 2 {
			for i := 0; i < n; i++ {
				t := w.W.AfterFunc(delay(i), func() {})
				t.Stop()
			}
			check("AfterFunc and Stop", n, 1400)
		}
		if spread > 0 && what == 1 {
			rt.IdleUntil((spread + 2*tick + 10) * 1e6)
			check("running a task", n, 3000)
		}
		w.Cancel()
	})
}

// statements: bulk insert and update send few statements
func statements() {
	n := []int{1, 10, 100, 1000, 3000}[rt.Choose(5)]
	op := rt.Choose(2)
	st := sqlx.NewStore()
	t := st.Add("t", sqlx.Col{Name: "n", Kind: sqlx.Int})
	sqlx.Use(st)
	db := sqlx.Gorm(nil)
	var err error
	if op == 0 {
		type r struct {
			Id int `json:"id"`
			N  int `json:"n"`
		}
		var rs []interface{}
		for i := 0; i < n; i++ {
			rs = append(rs, r{i + 1, i})
		}
		vh.DoN("SplitInsertTableRecords", big, func() { err = gt.SplitInsertTableRecords(db, "t", rs...) })
	} else {
		m := map[int64]map[string]interface{}{}
		for i := 0; i < n; i++ {
			t.Put(i+1, 0)
			m[int64(i+1)] = map[string]interface{}{"n": i}
		}
		vh.DoN("SplitUpdateTableFieldWithoutVersionByID", big, func() { err = gt.SplitUpdateTableFieldWithoutVersionByID(db, "t", m) })
	}
	vh.Check(err == nil, "error", "operation %d on %d records: %v", op, n, err)
	k := st.Execs
	vh.Check(k <= n/50+2, "statements", "operation %d on %d records sent %d statements", op, n, k)
}

func main() {
	vh.Main("C44", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "heaps", Split: 2, Body: heapOps},
			{Name: "indexes", Split: 2, Body: indexes},
			{Name: "constant", Split: 2, Body: constant},
			{Name: "boundary", Split: 2, Body: boundary},
			{Name: "wheel", Split: 3, Body: wheel},
			{Name: "statements", Split: 2, Body: statements},
		}
	})
}
