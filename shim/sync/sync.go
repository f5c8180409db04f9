//go:build go1.21

// Package sync is the controlled stand-in for the standard package.
package sync

import (
	real "sync"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex is a controlled mutex.
type Mutex struct {
	locked bool
	vc     rt.VC
	ep     rt.Ep
}

// turn forgets what an earlier execution left behind.
func (m *Mutex) turn() {
	if sim, exec := m.ep.Turn(); sim || exec {
		m.vc = nil
		m.locked = m.locked && !exec
	}
}

func (m *Mutex) Lock() {
	m.turn()
	rt.Block("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
	rt.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	m.turn()
	rt.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	m.turn()
	if rt.Ending() {
		m.locked = false
		return
	}
	rt.Point("Mutex.Unlock")
	if !m.locked {
		rt.Fail("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	rt.Release(&m.vc)
	m.locked = false
}

// RWMutex is a controlled reader/writer mutex: a waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	vc, rvc rt.VC
	ep      rt.Ep
}

func (m *RWMutex) turn() {
	if sim, exec := m.ep.Turn(); sim || exec {
		m.vc, m.rvc = nil, nil
		if exec {
			m.w, m.readers, m.waiting = false, 0, 0
		}
	}
}

func (m *RWMutex) Lock() {
	m.turn()
	rt.Point("RWMutex.Lock")
	m.waiting++
	if m.w || m.readers > 0 {
		rt.Block("RWMutex.Lock", func() bool { return !m.w && m.readers == 0 })
	}
	m.waiting--
	m.w = true
	rt.Acquire(&m.vc)
	rt.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	m.turn()
	rt.Point("RWMutex.TryLock")
	if m.w || m.readers > 0 || m.waiting > 0 {
		return false
	}
	m.w = true
	rt.Acquire(&m.vc)
	rt.Acquire(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	m.turn()
	if rt.Ending() {
		m.w = false
		return
	}
	rt.Point("RWMutex.Unlock")
	if !m.w {
		rt.Fail("panic", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	rt.Release(&m.vc)
	m.w = false
}

func (m *RWMutex) RLock() {
	m.turn()
	rt.Block("RWMutex.RLock", func() bool { return !m.w && m.waiting == 0 })
	m.readers++
	rt.Acquire(&m.vc)
}

func (m *RWMutex) TryRLock() bool {
	m.turn()
	rt.Point("RWMutex.TryRLock")
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	rt.Acquire(&m.vc)
	return true
}

func (m *RWMutex) RUnlock() {
	m.turn()
	if rt.Ending() {
		m.readers--
		return
	}
	rt.Point("RWMutex.RUnlock")
	if m.readers <= 0 {
		rt.Fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rt.Release(&m.rvc)
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a controlled wait group.
type WaitGroup struct {
	n  int
	vc rt.VC
	ep rt.Ep
}

func (w *WaitGroup) turn() {
	if sim, exec := w.ep.Turn(); sim || exec {
		w.vc = nil
		if exec {
			w.n = 0
		}
	}
}

func (w *WaitGroup) Add(d int) {
	w.turn()
	if rt.Ending() {
		return
	}
	rt.Point("WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		rt.Release(&w.vc)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	w.turn()
	rt.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	rt.Acquire(&w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a controlled once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = !rt.Ending() }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a controlled condition variable.
type Cond struct {
	L  Locker
	q  []*cw
	ep rt.Ep
}

func (c *Cond) turn() {
	if _, exec := c.ep.Turn(); exec {
		c.q = nil
	}
}

type cw struct {
	ok bool
	vc rt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.turn()
	w := &cw{}
	c.q = append(c.q, w)
	c.L.Unlock()
	rt.Block("Cond.Wait", func() bool { return w.ok })
	rt.Acquire(&w.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.turn()
	rt.Point("Cond.Signal")
	if len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		w.ok = true
		w.vc = rt.Snapshot()
	}
}

func (c *Cond) Broadcast() {
	c.turn()
	rt.Point("Cond.Broadcast")
	for _, w := range c.q {
		w.ok = true
		w.vc = rt.Snapshot()
	}
	c.q = nil
}

// Pool is a controlled pool: last in, first out, unless the explorer drops the object.
type Pool struct {
	New func() interface{}
	q   []interface{}
	vc  rt.VC
	ep  rt.Ep
}

func (p *Pool) turn() {
	if sim, exec := p.ep.Turn(); sim || exec {
		p.vc = nil
		if exec {
			p.q = nil // a pool may drop anything at any time
		}
	}
}

func (p *Pool) Get() interface{} {
	p.turn()
	rt.Point("Pool.Get")
	rt.Acquire(&p.vc)
	if n := len(p.q); n > 0 {
		v := p.q[n-1]
		p.q = p.q[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	p.turn()
	rt.Point("Pool.Put")
	rt.Release(&p.vc)
	if v != nil {
		p.q = append(p.q, v)
	}
}

// Map is a controlled sync.Map.
type Map struct {
	m  map[interface{}]interface{}
	vc rt.VC
	ep rt.Ep
}

func (m *Map) pt(what string) {
	if sim, _ := m.ep.Turn(); sim {
		m.vc = nil
	}
	rt.Point(what)
	rt.Acquire(&m.vc)
	rt.Release(&m.vc)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.pt("Map.Load")
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) { m.pt("Map.Store"); m.m[k] = v }
func (m *Map) Delete(k interface{})   { m.pt("Map.Delete"); delete(m.m, k) }
func (m *Map) Clear()                 { m.pt("Map.Clear"); m.m = nil }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.pt("Map.LoadOrStore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.pt("Map.LoadAndDelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.pt("Map.Swap")
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, nw interface{}) bool {
	m.pt("Map.CompareAndSwap")
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = nw
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.pt("Map.CompareAndDelete")
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.pt("Map.Range")
	for it := rt.MapIter(m.m); it.Next(); {
		v, ok := m.Load(it.K)
		if ok && !f(it.K, v) {
			return
		}
	}
}
