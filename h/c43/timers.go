package main

import (
	"reflect"
	"strings"
	"time"
	"unsafe"

	dq "github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	tw "github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/context"
	vtime "github.com/ahKevinXy/go-web-tools/zzverif/shim/time"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// footprint counts the values reachable from v, without those of the simulated runtime.
func footprint(v interface{}) int {
	type at struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[at]bool{}
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.IsZero() {
			return
		}
		n++
		switch v.Kind() {
		case reflect.Ptr:
			if p := (at{v.UnsafePointer(), v.Type()}); p.p != nil && !seen[p] {
				seen[p] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			p := at{v.UnsafePointer(), v.Type()}
			if v.IsNil() || v.Cap() == 0 || seen[p] {
				return
			}
			seen[p] = true
			v = v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.Struct:
			if p := v.Type().PkgPath(); strings.Contains(p, "/zzverif/rt") || strings.Contains(p, "/zzverif/shim") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				// the wheel hides the next one behind an untyped pointer
				if f.Kind() == reflect.UnsafePointer && v.Type() == reflect.TypeOf(tw.TimingWheel{}) && !f.IsNil() {
					walk(reflect.ValueOf((*tw.TimingWheel)(f.UnsafePointer())))
					continue
				}
				walk(f)
			}
		}
	}
	walk(reflect.ValueOf(v))
	return n
}

// peak follows the number of reachable values, pending timers of the system and goroutines through four equally long
// stretches of the repetitions.
type peak [4][3]int

func (p *peak) at(rep, n int, v interface{}) {
	w := &p[rep*4/n]
	for i, x := range []int{footprint(v), rt.PendingTimers(), len(rt.Unfinished())} {
		if x > w[i] {
			w[i] = x
		}
	}
}

// check: nothing grows from each stretch to the next by as much as one for every second repetition.
func (p *peak) check(what string, n int) {
	for i, k := range []string{"grows", "timers", "goroutines"} {
		grows := true
		for w := 1; w < len(p); w++ {
			grows = grows && p[w][i]-p[w-1][i] >= n/len(p)/2
		}
		vh.Check(!grows, k+":"+what, "%s: the most reachable values, pending timers and goroutines in four stretches of %d repetitions each: %v", what, n/len(p), *p)
	}
}

type sched struct{ n, gap int64 }

func (s *sched) Next(t time.Time) time.Time {
	if s.n == 0 {
		return time.Time{}
	}
	s.n--
	return t.Add(time.Duration(s.gap) * time.Millisecond)
}

// wheel: words of adding, stopping, waiting and running, repeated on one running wheel
func wheel() {
	const ms = time.Millisecond
	cfg := [][2]int64{{10, 2}, {1, 20}}[rt.Choose(2)]
	far := rt.Choose(2) == 1 // one timer far in the future is there all the time
	n := vh.D(3, 4)
	names := []string{"near", "far", "stop", "wait", "long", "schedule", "past", "refill"}
	var word []int
	for len(word) < n {
		c := rt.Choose(len(names) + 1)
		if c == len(names) {
			break
		}
		word = append(word, c)
	}
	if len(word) == 0 {
		return
	}
	rt.Tracef("wheel %v, operations %v, a far timer: %v", cfg, word, far)
	const reps = 96
	rt.Simulate(rt.Config{Horizon: 10000000, Threads: 20000}, func() {
		ctx, cancel := context.WithCancel(context.Background())
		w := tw.New(cfg[0], cfg[1])
		ended := false
		rt.GoNamed("wheel", func() { w.Run(ctx); ended = true })
		var p peak
		var last, keep []*tw.Timer
		if far {
			w.AfterFunc(1000*time.Hour, func() {})
		}
		for r := 0; r < reps; r++ {
			for _, c := range word {
				switch names[c] {
				case "near":
					last = append(last, w.AfterFunc(time.Duration(cfg[0]+1)*ms, func() {}))
				case "far":
					last = append(last, w.AfterFunc(time.Duration(7*cfg[0]*cfg[1]*cfg[1])*ms, func() {}))
				case "stop":
					for _, t := range last {
						t.Stop()
					}
					last = nil
				case "wait":
					vtime.Sleep(time.Duration(cfg[0]) * ms)
				case "long":
					vtime.Sleep(time.Duration(3*cfg[0]*cfg[1]) * ms)
				case "schedule":
					last = append(last, w.ScheduleFunc(&sched{3, cfg[0]}, func() {}))
				case "past":
					w.AfterFunc(-ms, func() {})
				case "refill":
					for i := int64(0); i < 2*cfg[1]; i++ {
						last = append(last, w.AfterFunc(time.Duration(i*cfg[0]+1)*ms, func() {}))
					}
				}
			}
			for _, t := range last {
				t.Stop()
			}
			keep, last = last, nil
			rt.Idle()
			p.at(r, reps, w)
		}
		_ = keep
		p.check("wheel", reps)
		// time for everything, then the end
		vtime.Sleep(time.Duration(100*cfg[0]*cfg[1]*cfg[1]) * ms)
		rt.Idle()
		cancel()
		rt.IdleUntil(rt.Now() + int64(time.Second))
		vh.Check(ended, "goroutines:wheel", "Run has not returned: %s", rt.UnfinishedNames())
		vh.Check(len(rt.Unfinished()) == 0, "goroutines:wheel", "after the end of the wheel there are goroutines left: %s", rt.UnfinishedNames())
		vh.Check(rt.PendingTimers() == 0, "timers:wheel", "after the end of the wheel %d timers of the system are pending", rt.PendingTimers())
	})
}

// delays: words of pushing, taking, cancelling and popping, repeated on one delay queue
func delays() {
	far := rt.Choose(2) == 1 // one element far in the future is there all the time
	n := vh.D(3, 4)
	names := []string{"push", "push-far", "take", "take-cancelled", "take-timeout", "pop", "wait", "channel", "waiters"}
	var word []int
	for len(word) < n {
		c := rt.Choose(len(names) + 1)
		if c == len(names) {
			break
		}
		word = append(word, c)
	}
	if len(word) == 0 {
		return
	}
	rt.Tracef("delay queue, operations %v, a far element: %v", word, far)
	const reps, ms = 96, time.Millisecond
	rt.Simulate(rt.Config{Horizon: 10000000, Threads: 20000}, func() {
		q := dq.New[*elem]()
		long, end := context.WithCancel(context.Background())
		there := &elem{}
		near := func() bool { // there is something to wait for
			e, ok := q.Peek()
			return ok && e != there
		}
		if far {
			q.Push(there, 1000*time.Hour)
		}
		var p peak
		for r := 0; r < reps; r++ {
			for _, c := range word {
				switch names[c] {
				case "push":
					q.Push(fresh(), 5*ms)
				case "push-far":
					q.Push(fresh(), 50*ms)
				case "take":
					if near() {
						q.Take(long)
					}
				case "take-cancelled":
					ctx, cancel := context.WithCancel(context.Background())
					cancel()
					q.Take(ctx)
				case "take-timeout":
					ctx, cancel := context.WithTimeout(context.Background(), ms)
					q.Take(ctx)
					cancel()
				case "pop":
					q.Pop()
				case "wait":
					vtime.Sleep(7 * ms)
				case "channel":
					ctx, cancel := context.WithCancel(context.Background())
					out := q.Channel(ctx, 1)
					rt.Idle()
					vtime.Sleep(6 * ms)
					cancel()
					for {
						if _, ok := out.Recv2(); !ok {
							break
						}
					}
				case "waiters":
					ctx, cancel := context.WithCancel(context.Background())
					for i := 0; i < 3; i++ {
						rt.GoNamed("waiter", func() { q.Take(ctx) })
					}
					rt.Idle()
					q.Push(fresh(), ms)
					vtime.Sleep(2 * ms)
					cancel()
					rt.Idle()
				}
			}
			for near() {
				q.Take(context.Background())
			}
			rt.Idle()
			p.at(r, reps, q)
		}
		p.check("queue", reps)
		vh.Check(context.Children(long) == 0, "contexts:queue", "%d contexts made from that of calls that returned", context.Children(long))
		end()
		rt.Idle()
		vh.Check(len(rt.Unfinished()) == 0, "goroutines:queue", "goroutines left: %s", rt.UnfinishedNames())
		vh.Check(rt.PendingTimers() == 0, "timers:queue", "%d timers of the system are pending although nobody waits", rt.PendingTimers())
	})
}
