// verif:rewrite common/limiter/... conc
// verif:rewrite common/timer/... conc
package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap_ "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/hash"
	fw "github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	lb "github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	sl "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	sw "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	tb "github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// elem is an element whose retention shows.
type elem struct {
	prio int
	pad  [7]int64
}

// inst is an instance of something with the operations a word is made of. base brings it back to where a repetition
// starts: with few elements.
type inst struct {
	ops  []func()
	base func()
}

type maker struct {
	name string
	mk   func() *inst
}

var serial int

func fresh() *elem {
	serial++
	return &elem{prio: serial * 7 % 11}
}

func live() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// steady runs rep over and over, each stretch as long as all before: the memory in use must not grow in every one of
// them with the number of repetitions. (Maps and slices grow by doubling, so shorter stretches may miss their growth;
// libraries underneath may grow a pool or table now and then, and one stretch without growth settles it.)
func steady(what, key string, n int, perRep int64, rep func()) {
	run := func(n int) {
		vh.DoN(what, 1<<40, func() {
			for i := 0; i < n; i++ {
				rep()
			}
		})
	}
	g0 := runtime.NumGoroutine()
	run(n)
	m := live()
	var grown [4]int64
	for i := range grown {
		run(n)
		rt.Transition(int64(n))
		x := live()
		grown[i] = x - m
		m = x
		if grown[i] <= int64(n)*perRep {
			break
		}
		if i == len(grown)-1 {
			vh.Check(false, key, "%s: %d repetitions keep more memory than half as many, and so on (%v bytes)", what, 2*n, grown)
		}
		n *= 2
	}
	if g := runtime.NumGoroutine(); g > g0+n/2 {
		vh.Check(false, key, "%s: %d goroutines before, %d after %d repetitions", what, g0, g, n)
	}
	runtime.KeepAlive(rep)
}

// words: every word over the operations up to a length, repeated
func words(l []maker, n, reps int) func() {
	return func() {
		k := &l[rt.Choose(len(l))]
		w := k.mk()
		var word []int
		for len(word) < n {
			c := rt.Choose(len(w.ops) + 1)
			if c == len(w.ops) {
				break
			}
			word = append(word, c)
		}
		if len(word) == 0 {
			return
		}
		rt.Tracef("%s %v", k.name, word)
		steady(fmt.Sprintf("%s, operations %v", k.name, word), "grows:"+k.name, reps, 4, func() {
			for _, c := range word {
				w.ops[c]()
			}
			w.base()
		})
		runtime.KeepAlive(w)
	}
}

func less(a, b *elem) bool { return a.prio < b.prio }

// queue makes an instance of something with a push and a pop.
func queue(k int, push func(*elem), pop func(), len func() int, more ...func()) *inst {
	w := &inst{ops: append([]func(){
		func() { push(fresh()) },
		func() {
			if len() > 0 {
				pop()
			}
		},
	}, more...)}
	w.base = func() {
		for len() > k {
			pop()
		}
		for len() < k {
			push(fresh())
		}
	}
	return w
}

func ring(k, cap int, r interface {
	Push(*elem)
	Pop() *elem
	MPush(...*elem)
	MPop(uint64) []*elem
	MPopCopy([]*elem)
	Reset()
	Len() uint64
	Avail() uint64
}, grow bool) *inst {
	buf := make([]*elem, 3)
	return queue(k, func(e *elem) {
		if grow || r.Avail() > 0 {
			r.Push(e)
		}
	}, func() { r.Pop() }, func() int { return int(r.Len()) },
		func() { r.MPush(fresh(), fresh(), fresh()) },
		func() { r.MPop(2) },
		func() { r.MPopCopy(buf) },
		r.Reset)
}

func containers() []maker {
	var l []maker
	add := func(name string, mk func(k int) *inst) {
		for _, k := range []int{0, 3} {
			k := k
			l = append(l, maker{fmt.Sprintf("%s-%d", name, k), func() *inst { return mk(k) }})
		}
	}
	add("list", func(k int) *inst {
		x := list.New[*elem]()
		o := list.New[*elem]()
		o.PushBack(fresh())
		var last *list.Element[*elem]
		return queue(k, func(e *elem) { last = x.PushBack(e) }, func() { x.RemoveFront() }, x.Len,
			func() { x.PushFront(fresh()) },
			func() {
				if x.Len() > 0 {
					x.RemoveBack()
				}
			},
			func() {
				if last != nil {
					x.InsertBefore(fresh(), last)
				}
			},
			func() {
				if x.Len() > 1 {
					x.MoveToFront(x.Back())
					x.MoveAfter(x.Front(), x.Back())
				}
			},
			func() { x.PushBackList(o) },
			func() { x.Clear() },
			func() {
				if last != nil {
					x.Remove(last)
				}
			})
	})
	add("deque", func(k int) *inst {
		x := deque.New[*elem]()
		return queue(k, x.PushBack, func() { x.PopFront() }, x.Len, func() { x.PushFront(fresh()) }, func() {
			if !x.Empty() {
				x.PopBack()
			}
		})
	})
	add("stack", func(k int) *inst {
		x := stack.New[*elem]()
		return queue(k, x.Push, func() { x.Pop() }, x.Len)
	})
	add("heap", func(k int) *inst {
		x := heap.New(nil, less)
		return queue(k, x.Push, func() { x.Pop() }, x.Len, func() {
			if n := x.Len(); n > 0 {
				x.Remove(n / 2)
			}
		}, func() {
			if x.Len() > 0 {
				x.Peek().prio += 5
				x.Fix(0)
			}
		})
	})
	add("heapn", func(k int) *inst {
		x := heap.NewN(3, less)
		return queue(k, x.Push, func() { x.Pop() }, x.Len, func() {
			if n := x.Len(); n > 0 {
				x.Remove(n / 2)
			}
		})
	})
	add("pqueue", func(k int) *inst {
		x := pqueue.New(nil, less)
		return queue(k, x.Push, func() { x.Pop() }, x.Len)
	})
	add("reap", func(k int) *inst {
		x := reap_.New(less)
		var last *reap_.Entry[*elem]
		return queue(k, func(e *elem) { last = x.Push(e) }, func() { x.Pop() }, x.Len, func() {
			if last != nil {
				x.Remove(last)
			}
		}, func() {
			if last != nil {
				x.SetValue(last, fresh())
			}
		})
	})
	add("meap", func(k int) *inst {
		x := meap.New(func(a, b meap.Entry[int, *elem]) bool { return a.Value.prio < b.Value.prio })
		return queue(k, func(e *elem) { x.Push(serial, e) }, func() { x.Pop() }, x.Len,
			func() { x.Remove(serial) },
			func() { x.Push(serial, fresh()) },
			func() { x.Get(serial + 1); x.Contains(serial - 1); x.Remove(serial + 5) })
	})
	add("ring-fix", func(k int) *inst { return ring(k, 5, fix.New[*elem](5), false) })
	add("ring-round", func(k int) *inst { return ring(k, 8, round.New[*elem](5), false) })
	add("ring-unbounded", func(k int) *inst { return ring(k, 0, unbounded.New[*elem](0), true) })
	add("set", func(k int) *inst {
		x := set.New[int]()
		lo, hi := 0, 0
		return queue(k, func(*elem) { hi++; x.Add(hi) }, func() { lo++; x.Remove(lo) }, func() int { return hi - lo },
			func() { x.Contains(hi + 7) },
			func() { x.Remove(hi + 9) },
			func() {
				if hi > lo {
					x.Add(hi)
				}
			})
	})
	add("map", func(k int) *inst {
		x := &utils.Map{}
		lo, hi := 0, 0
		return queue(k, func(e *elem) { hi++; x.Set(hi, e) }, func() { lo++; x.Del(lo) }, func() int { return hi - lo },
			func() { x.Get(hi + 7); x.Del(hi + 9) },
			func() { hi++; x.TestAndSet(hi, fresh()) },
			func() { x.RLockRange(func(k, v interface{}) {}); x.LockRange(func(k, v interface{}) {}) },
			func() {
				if hi > lo {
					x.Set(hi, fresh())
					x.TestAndSet(hi, fresh())
				}
			})
	})
	l = append(l, maker{"bloom", func() *inst {
		x := bloom.New(100, 0.01)
		return &inst{ops: []func(){
			func() { serial++; x.Add(uint64(serial)) },
			func() { serial++; x.AddString(fmt.Sprint("key", serial)) },
			func() { serial++; x.AddBytes([]byte(fmt.Sprint("key", serial))) },
			func() { serial++; x.Contains(uint64(serial)); x.ContainsString(fmt.Sprint("k", serial)) },
			x.Clear,
		}, base: func() {}}
	}}, maker{"hash", func() *inst {
		x := hash.New()
		return &inst{ops: []func(){
			func() { serial++; x.Sum64String(fmt.Sprint("key", serial)) },
			func() { serial++; x.Sum64([]byte(fmt.Sprint("key", serial))) },
			func() { hash.New().Sum64String("x") },
		}, base: func() {}}
	}})
	return l
}

func limiters() []maker {
	const sec = time.Second
	mk := func(name string, f func() func() bool) maker {
		return maker{name, func() *inst {
			rt.SetClock(0)
			try := f()
			w := &inst{base: func() {}}
			w.ops = append(w.ops, func() { try() })
			for _, d := range []time.Duration{1, 300 * time.Millisecond, sec, 2*sec + 1, 11 * sec} {
				d := d
				w.ops = append(w.ops, func() { rt.AdvanceClock(int64(d)) })
			}
			return w
		}}
	}
	return []maker{
		mk("fixed", func() func() bool { return fw.NewFixedWindowLimiter(3, 2*sec).TryAcquire }),
		mk("leaky", func() func() bool { return lb.NewLeakyBucketLimiter(3, 1).TryAcquire }),
		mk("token", func() func() bool { return tb.NewTokenBucketLimiter(3, 1).TryAcquire }),
		mk("window", func() func() bool {
			x, _ := sw.NewSlidingWindowLimiter(300, 2*sec, sec/2)
			return x.TryAcquire
		}),
		mk("log", func() func() bool {
			x, _ := sl.NewSlidingLogLimiter(sec/2, sl.NewSlidingLogLimiterStrategy(300, 4*sec), sl.NewSlidingLogLimiterStrategy(200, 2*sec))
			return func() bool { return x.TryAcquire() == nil }
		}),
	}
}

func main() {
	vh.Main("C43", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "containers", Split: 2, Body: words(containers(), vh.D(3, 4), 1000)},
			{Name: "limiters", Split: 2, Body: words(limiters(), vh.D(4, 5), 1000)},
			{Name: "helpers", Split: 1, Body: helpers},
			{Name: "wheel", Split: 2, Body: wheel},
			{Name: "queue", Split: 2, Body: delays},
		}
	})
}
