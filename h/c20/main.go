// verif:rewrite common/timer/delayqueue tick,conc,maps
// verif:rewrite common/container/heap tick,maps
package main

import (
	"fmt"
	"time"

	dq "github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/context"
	vtime "github.com/ahKevinXy/go-web-tools/zzverif/shim/time"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const ms = int64(time.Millisecond)

// slack is how late a delivery may be
const slack = ms

type ent struct {
	v   int
	exp int64
}

type model struct {
	q    *dq.DelayQueue[int]
	e    []ent
	next int
}

func (m *model) min() int64 {
	x := int64(1<<62 - 1)
	for _, e := range m.e {
		if e.exp < x {
			x = e.exp
		}
	}
	return x
}

// take removes v from the model; it must be one of the earliest and expired
func (m *model) take(op string, v int) {
	for i, e := range m.e {
		if e.v == v {
			vh.Check(e.exp <= rt.Now(), "early", "%s returned element %d at +%d, it expires at +%d", op, v, rt.Now(), e.exp)
			vh.Check(e.exp == m.min(), "order", "%s returned element %d (expires +%d) although one expires at +%d", op, v, e.exp, m.min())
			m.e = append(m.e[:i:i], m.e[i+1:]...)
			return
		}
	}
	vh.Check(false, "exactly-once", "%s returned %d, which is not in the queue", op, v)
}

func (m *model) push(d int64) {
	m.next++
	v := m.next
	m.e = append(m.e, ent{v, rt.Now() + d})
	rt.Tracef("+%d Push(%d, %v)", rt.Now(), v, time.Duration(d))
	vh.Do("Push", func() { m.q.Push(v, time.Duration(d)) })
}

func (m *model) observe() {
	vh.Do("Empty", func() { vh.Eq("Empty", m.q.Empty(), len(m.e) == 0) })
	vh.Do("Peek", func() {
		v, ok := m.q.Peek()
		vh.Check(ok == (len(m.e) > 0), "peek", "Peek() ok=%v with %d elements", ok, len(m.e))
		vh.Check(ok || v == 0, "peek", "Peek() of an empty queue returned %d", v)
		for _, e := range m.e {
			if ok && e.v == v {
				vh.Check(e.exp == m.min(), "peek", "Peek() = %d (expires +%d) although one expires at +%d", v, e.exp, m.min())
				ok = false
			}
		}
		vh.Check(!ok, "peek", "Peek() = %d, which is not in the queue", v)
	})
}

func (m *model) pop() {
	vh.Do("Pop", func() {
		v, ok := m.q.Pop()
		rt.Tracef("+%d Pop() -> %v %v", rt.Now(), v, ok)
		if ok {
			m.take("Pop", v)
			return
		}
		vh.Check(v == 0, "pop", "Pop() failed but returned %d", v)
		vh.Check(m.min() > rt.Now(), "missed", "Pop() at +%d returned nothing although an element expired at +%d", rt.Now(), m.min())
	})
}

// takeT: d < 0: already cancelled
func (m *model) takeT(d int64) {
	t0 := rt.Now()
	var ctx context.Context
	var cancel context.CancelFunc
	if d < 0 {
		ctx, cancel = context.WithCancel(context.Background())
		cancel()
	} else {
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(d))
	}
	if d < 0 {
		d = 0
	}
	vh.Do("Take", func() {
		v, ok := m.q.Take(ctx)
		now := rt.Now()
		rt.Tracef("+%d Take(%v) -> %v %v at +%d", t0, time.Duration(d), v, ok, now)
		due := m.min()
		if due < t0 {
			due = t0
		}
		if ok {
			vh.Check(now <= due+slack, "late", "Take returned at +%d, the element was due at +%d", now, due)
			m.take("Take", v)
			return
		}
		vh.Check(v == 0, "take", "Take failed but returned %d", v)
		vh.Check(now >= t0+d, "gave-up", "Take gave up at +%d although its context ends at +%d", now, t0+d)
		vh.Check(now <= t0+d+slack, "late-cancel", "Take returned at +%d, its context ended at +%d", now, t0+d)
		vh.Check(due+slack >= t0+d, "missed", "Take waited until +%d although an element was due at +%d", now, due)
	})
	cancel()
}

func (m *model) drain() {
	vtime.Sleep(time.Hour)
	for len(m.e) > 0 {
		n := len(m.e)
		if n%2 == 0 {
			m.pop()
		} else {
			m.takeT(5 * ms)
		}
		vh.Check(len(m.e) < n, "lost", "%d elements are never delivered", n)
	}
	m.observe()
	m.pop()
	m.takeT(2 * ms)
}

func newQ() *model {
	m := &model{}
	vh.Do("New", func() { m.q = dq.New[int]() })
	return m
}

func sequences(depth int, delays []int64) func() {
	return func() {
		rt.Simulate(rt.Config{Horizon: 20000}, func() {
			m := newQ()
			for i := 0; i < depth; i++ {
				k := rt.Choose(len(delays) + 7)
				switch {
				case k < len(delays):
					m.push(delays[k])
				default:
					switch k - len(delays) {
					case 0:
						m.pop()
					case 1:
						m.takeT(-1)
					case 2:
						m.takeT(5 * ms)
					case 3:
						m.takeT(100 * ms)
					case 4:
						vtime.Sleep(time.Duration(ms))
					case 5:
						vtime.Sleep(time.Duration(5 * ms))
					case 6:
						vtime.Sleep(time.Duration(5*ms + 1))
					}
				}
				m.observe()
			}
			m.drain()
		})
	}
}

func family() {
	n := []int{8, 33, 100, 1100}[rt.Choose(4)]
	pat := rt.Choose(vh.Patterns)
	mode := rt.Choose(3)
	rt.Simulate(rt.Config{Horizon: 2000000}, func() {
		m := newQ()
		p := vh.Pattern(pat, n)
		for i := 0; i < n; i++ {
			m.push(int64(p[i]) * ms)
			if i%100 == 99 {
				m.observe()
			}
			if mode == 1 && i%3 == 2 {
				m.takeT(2 * ms)
			}
			if mode == 2 && i%4 == 3 {
				vtime.Sleep(time.Duration(3 * ms))
				m.pop()
			}
		}
		m.observe()
		for i := 0; i < n/2; i++ {
			m.takeT(1000 * ms)
		}
		m.drain()
	})
}

// far: delays of days to a hundred years, and queues that stood idle that long
func far(ds []int64) func() {
	return func() {
		rt.Simulate(rt.Config{Horizon: 200000}, func() {
			m := newQ()
			for i := 0; i < vh.D(3, 4); i++ {
				k := rt.Choose(len(ds) + 4)
				switch {
				case k < len(ds):
					m.push(ds[k])
				case k == len(ds):
					m.push(5 * ms)
				case k == len(ds)+1:
					vtime.Sleep(time.Duration(ds[len(ds)-1]) + time.Second)
				case k == len(ds)+2:
					vtime.Sleep(26 * 24 * time.Hour)
				default:
					m.takeT(ds[1] + 1)
				}
				m.observe()
			}
			for len(m.e) > 0 {
				n := len(m.e)
				if n%2 == 0 && m.min() > rt.Now() {
					m.pop()
				}
				m.takeT(ds[len(ds)-1] * 3 / 2)
				vh.Check(len(m.e) < n, "lost", "%d elements are never delivered", n)
			}
			m.observe()
			m.pop()
		})
	}
}

// two: queues do not see each other's elements
func two() {
	rt.Simulate(rt.Config{Horizon: 20000}, func() {
		q := []*model{newQ(), newQ()}
		q[1].next = 1000
		for i := 0; i < vh.D(5, 6); i++ {
			m := q[rt.Choose(2)]
			switch rt.Choose(4) {
			case 0:
				m.push(3 * ms)
			case 1:
				m.push(ms)
			case 2:
				m.takeT(2 * ms)
			case 3:
				m.pop()
			}
			q[0].observe()
			q[1].observe()
		}
		q[0].drain()
		q[1].drain()
	})
}

func main() {
	vh.Main("C20", func() []vh.Scenario {
		l := []vh.Scenario{{Name: "family", Split: 3, Bound: 1, Body: family}}
		l = append(l, vh.Scenario{Name: "delays", Split: 3, Bound: 1, Body: sequences(vh.D(6, 7), []int64{0, ms, 5 * ms, 20 * ms})})
		l = append(l, vh.Scenario{Name: "odd", Split: 3, Bound: 1, Body: sequences(vh.D(5, 6), []int64{-5 * ms, 1, 5*ms - 1, int64(50 * time.Minute)})})
		l = append(l, vh.Scenario{Name: "pushes", Split: 3, Bound: 1, Body: func() {
			rt.Simulate(rt.Config{Horizon: 20000}, func() {
				m := newQ()
				for i := 0; i < vh.D(5, 7); i++ {
					m.push(int64(rt.Choose(4)) * 3 * ms)
				}
				m.observe()
				for i := 0; i < 3; i++ {
					m.takeT(int64(4+rt.Choose(2)) * ms)
				}
				m.drain()
			})
		}})
		const day = 24 * int64(time.Hour)
		l = append(l, vh.Scenario{Name: "far", Split: 3, Bound: 1, Body: far([]int64{1500 * ms, 10 * day, 25 * day, 50 * day, 400 * day, 8000 * day})})
		l = append(l, vh.Scenario{Name: "two", Split: 3, Bound: 1, Body: two})
		_ = fmt.Sprint
		return l
	})
}
