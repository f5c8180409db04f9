// verif:rewrite common/timer/delayqueue tick,conc,mem,maps
// verif:rewrite common/container/heap tick,mem,maps
package main

import (
	"fmt"
	"time"

	dq "github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/context"
	vtime "github.com/ahKevinXy/go-web-tools/zzverif/shim/time"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const ms = time.Millisecond

type el struct {
	v        int
	d        time.Duration
	inv, ret int64 // order of the Push call
	lo, hi   int64 // bounds of the expiration
	taken    bool
}

// world is the shared bookkeeping (harness code runs one thread at a time and is no scheduling point)
type world struct {
	q      *dq.DelayQueue[int]
	els    []*el
	n      int64
	stalls bool
	wait   map[string]int64 // consumers waiting in Take, since when
}

func (w *world) take(name string, ctx context.Context, ordered bool) bool {
	w.n++
	inv, t := w.n, rt.Now()
	if w.wait == nil {
		w.wait = map[string]int64{}
	}
	w.wait[name] = t
	v, ok := w.q.Take(ctx)
	if ok {
		w.got(name, v, inv, t, ordered)
	}
	delete(w.wait, name)
	return ok
}

func (w *world) push(d time.Duration) {
	e := &el{v: len(w.els) + 1, d: d}
	w.els = append(w.els, e)
	w.n++
	e.inv, e.ret = w.n, 1<<60
	e.lo = rt.Now() + int64(d)
	e.hi = 1 << 62
	w.q.Push(e.v, d)
	e.hi = rt.Now() + int64(d)
	w.n++
	e.ret = w.n
	rt.Tracef("+%d pushed %d (%v)", rt.Now(), e.v, d)
}

// got records a delivery; inv is when the delivering call began
func (w *world) got(who string, v int, inv, invTime int64, ordered bool) {
	now := rt.Now()
	rt.Tracef("+%d %s got %d", now, who, v)
	vh.Check(v >= 1 && v <= len(w.els), "exactly-once", "%s got %d, which was never pushed", who, v)
	e := w.els[v-1]
	vh.Check(!e.taken, "exactly-once", "%s got %d, which was delivered before", who, v)
	e.taken = true
	vh.Check(now >= e.lo, "early", "%s got %d at +%d, it expires at +%d", who, v, now, e.lo)
	if ordered {
		for _, f := range w.els {
			vh.Check(f.taken || f.ret > inv || f.hi >= e.lo, "order", "%s got %d (expires +%d) although %d (expires +%d) was in the queue", who, v, e.lo, f.v, f.hi)
		}
	}
	if !w.stalls {
		since := invTime
		for _, x := range w.wait {
			if x < since {
				since = x
			}
		}
		due := e.hi
		if since > due {
			due = since
		}
		vh.Check(now <= due+int64(ms), "late", "%s got %d at +%d, it was due at +%d", who, v, now, due)
	}
}

func (w *world) left() int {
	n := 0
	for _, e := range w.els {
		if !e.taken {
			n++
		}
	}
	return n
}

// finish lets the system run until everything expired; consumers wait if live
func (w *world) finish(live bool) {
	rt.IdleUntil(rt.Now() + int64(time.Hour))
	if live && len(w.wait) > 0 {
		vh.Check(w.left() == 0, "lost-wakeup", "%d of %d elements are never delivered although a consumer waits: %s", w.left(), len(w.els), rt.UnfinishedNames())
	}
	for _, t := range rt.Unfinished() {
		vh.Check(len(t.Name) < 8 || t.Name[:8] != "producer", "push-blocked", "a Push never returns: %s", rt.UnfinishedNames())
	}
	for w.left() > 0 {
		w.n++
		inv := w.n
		v, ok := w.q.Pop()
		vh.Check(ok, "lost", "%d elements are never delivered", w.left())
		w.got("the final Pop", v, inv, rt.Now(), true)
	}
	v, ok := w.q.Pop()
	vh.Check(!ok, "exactly-once", "a surplus element %d is in the queue", v)
	vh.Check(w.q.Empty(), "empty", "Empty() is false after the last element left")
}

func delays(k int) []time.Duration {
	var out []time.Duration
	for i := 0; i < k; i++ {
		out = append(out, []time.Duration{3 * ms, ms, 5 * ms, 0}[rt.Choose(4)])
	}
	return out
}

type opt struct {
	producers, pushes int
	consumers         int
	cancels           bool
	poppers           int
	stalls            bool
	fs                bool
}

func takers(o opt) func() {
	return func() {
		var ds [][]time.Duration
		for i := 0; i < o.producers; i++ {
			ds = append(ds, delays(o.pushes))
		}
		gap := rt.Choose(3)
		quota := make([]int, o.consumers)
		for i := range quota {
			quota[i] = 1000
		}
		if o.consumers > 1 {
			quota[0] = []int{1, 1000}[rt.Choose(2)]
		}
		timeout := 0
		if o.cancels {
			timeout = rt.Choose(4)
		}
		rt.Simulate(rt.Config{FreeSwitch: o.fs, Races: true, Stalls: o.stalls, Horizon: 20000}, func() {
			w := &world{q: dq.New[int](), stalls: o.stalls}
			for i := 0; i < o.producers; i++ {
				i := i
				rt.GoNamed(fmt.Sprintf("producer%d", i), func() {
					for k, d := range ds[i] {
						if k > 0 && gap > 0 {
							vtime.Sleep(time.Duration(gap) * ms)
						}
						w.push(d)
					}
				})
			}
			for i := 0; i < o.consumers; i++ {
				i := i
				name := fmt.Sprintf("consumer%d", i)
				rt.GoNamed(name, func() {
					if o.cancels {
						// impatient calls first
						for k := 0; k < 2; k++ {
							ctx, cancel := context.WithTimeout(context.Background(), []time.Duration{0, ms, 3 * ms, 4 * ms}[timeout])
							t := rt.Now()
							ok := w.take(name, ctx, o.consumers+o.poppers == 1)
							cancel()
							if !ok && !o.stalls {
								end := t + int64([]time.Duration{0, ms, 3 * ms, 4 * ms}[timeout])
								vh.Check(rt.Now() >= end && rt.Now() <= end+int64(ms), "late-cancel", "Take began at +%d with a timeout of %d ns and gave up at +%d", t, end-t, rt.Now())
							}
						}
					}
					for k := 0; k < quota[i]; k++ {
						ok := w.take(name, context.Background(), o.consumers+o.poppers == 1)
						vh.Check(ok, "gave-up", "Take gave up without a cancelled context")
					}
				})
			}
			for i := 0; i < o.poppers; i++ {
				rt.GoNamed("popper", func() {
					for k := 0; k < 2; k++ {
						vtime.Sleep(3 * ms)
						w.n++
						inv := w.n
						if v, ok := w.q.Pop(); ok {
							w.got("popper", v, inv, rt.Now(), false)
						}
					}
				})
			}
			w.finish(true)
		})
	}
}

// cancelled: a canceller races with the waiting Take; afterwards the queue must work
func cancelled(stalls bool) func() {
	return func() {
		ds := delays(2)
		at := time.Duration(rt.Choose(4)) * ms
		rt.Simulate(rt.Config{Races: true, Stalls: stalls, Horizon: 20000}, func() {
			w := &world{q: dq.New[int](), stalls: true}
			ctx, cancel := context.WithCancel(context.Background())
			rt.GoNamed("producer", func() {
				for _, d := range ds {
					w.push(d)
				}
			})
			ended := false
			rt.GoNamed("consumer", func() {
				for {
					if !w.take("consumer", ctx, true) {
						vh.Check(ctx.Err() != nil, "gave-up", "Take gave up without a cancelled context")
						delete(w.wait, "consumer")
						ended = true
						return
					}
				}
			})
			rt.GoNamed("canceller", func() {
				if at > 0 {
					vtime.Sleep(at)
				}
				cancel()
			})
			rt.IdleUntil(rt.Now() + int64(time.Second))
			vh.Check(ended, "cancel-ignored", "Take does not return after its context was cancelled")
			w.finish(false)
			// and again
			rt.GoNamed("producer", func() { w.push(ms); w.push(0) })
			rt.GoNamed("consumer", func() {
				for {
					ok := w.take("consumer", context.Background(), true)
					vh.Check(ok, "gave-up", "Take gave up without a cancelled context")
				}
			})
			w.finish(true)
		})
	}
}

func channel(stalls bool) func() {
	return func() {
		ds := delays(2)
		size := rt.Choose(3)
		at := time.Duration(rt.Choose(5)) * ms // 4: never cancelled
		two := rt.Choose(2) == 1
		rt.Simulate(rt.Config{Races: true, Stalls: stalls, Horizon: 20000}, func() {
			w := &world{q: dq.New[int](), stalls: true}
			ctx, cancel := context.WithCancel(context.Background())
			closed := 0
			n := 1
			if two {
				n = 2
			}
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("reader%d", i)
				rt.GoNamed(name, func() {
					ch := w.q.Channel(ctx, size)
					vh.Check(ch.Cap() == size, "channel-size", "the channel has capacity %d, asked for %d", ch.Cap(), size)
					for {
						v, ok := ch.Recv2()
						if !ok {
							vh.Check(ctx.Err() != nil, "closed", "the channel was closed without a cancelled context")
							closed++
							return
						}
						w.got(name, v, 0, rt.Now(), false)
					}
				})
			}
			rt.GoNamed("producer", func() {
				for _, d := range ds {
					w.push(d)
				}
			})
			if at < 4*ms {
				rt.GoNamed("canceller", func() {
					if at > 0 {
						vtime.Sleep(at)
					}
					cancel()
				})
			}
			w.finish(at == 4*ms)
			if at < 4*ms {
				vh.Check(closed == n, "not-closed", "%d of %d channels are closed after the cancellation", closed, n)
				vh.Check(len(rt.Unfinished()) == 0, "leak", "goroutines remain after the cancellation: %s", rt.UnfinishedNames())
			}
			cancel()
		})
	}
}

func main() {
	vh.Main("C21", func() []vh.Scenario {
		var l []vh.Scenario
		add := func(name string, q, t int, f func()) {
			l = append(l, vh.Scenario{Name: name, SplitDev: true, Bound: q, BoundT: t, Body: f})
		}
		for _, st := range []bool{false, true} {
			s, d := "", 0
			if st {
				s, d = "-stalls", 1
			}
			add("1p1c"+s, 2, 3, takers(opt{producers: 1, pushes: 2, consumers: 1, stalls: st, fs: true}))
			add("2p1c"+s, 2-d, 2, takers(opt{producers: 2, pushes: 1, consumers: 1, stalls: st, fs: true}))
			add("1p2c"+s, 2, 3, takers(opt{producers: 1, pushes: 2, consumers: 2, stalls: st}))
			add("1p1c-cancel"+s, 2, 3, takers(opt{producers: 1, pushes: 2, consumers: 1, cancels: true, stalls: st}))
			add("1p2c-cancel"+s, 1, 2, takers(opt{producers: 1, pushes: 2, consumers: 2, cancels: true, stalls: st}))
			add("1p1c1pop"+s, 2, 3, takers(opt{producers: 1, pushes: 2, consumers: 1, poppers: 1, stalls: st}))
			add("cancelled"+s, 2, 3, cancelled(st))
			add("channel"+s, 1, 2, channel(st))
		}
		add("1p1c-3", 2, 3, takers(opt{producers: 1, pushes: 3, consumers: 1}))
		return l
	})
}
