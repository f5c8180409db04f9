package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// VC is a vector clock.
type VC []uint32

func (v VC) copy() VC { return append(VC(nil), v...) }

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (t *Thread) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// Acquire joins the clock of a synchronisation object into the current thread.
func Acquire(vc *VC) {
	if S != nil && S.cur != nil {
		S.cur.vc.join(*vc)
	}
}

// Release publishes the current thread's clock in a synchronisation object.
func Release(vc *VC) {
	if S != nil && S.cur != nil {
		vc.join(S.cur.vc)
		S.cur.tick()
	}
}

// Snapshot copies the current thread's clock.
func Snapshot() VC {
	if S != nil && S.cur != nil {
		v := S.cur.vc.copy()
		S.cur.tick()
		return v
	}
	return nil
}

type uintptrKey = unsafe.Pointer

type access struct {
	tid    int
	clk    uint32
	atomic bool
	pc     uintptr
}

type cell struct {
	w     access
	hasW  bool
	reads []access
}

func (s *Sim) touch(p unsafe.Pointer, write, atomic bool) {
	t := s.cur
	c := s.shadow[p]
	if c == nil {
		c = &cell{}
		s.shadow[p] = c
	}
	var pc uintptr
	if s.Races {
		var pcs [1]uintptr
		runtime.Callers(4, pcs[:])
		pc = pcs[0]
	}
	if c.hasW && c.w.tid != t.ID && c.w.clk > t.vc.at(c.w.tid) && !(atomic && c.w.atomic) {
		s.race(c.w, true, pc, write)
	}
	if write {
		for _, r := range c.reads {
			if r.tid != t.ID && r.clk > t.vc.at(r.tid) && !(atomic && r.atomic) {
				s.race(r, false, pc, write)
			}
		}
		c.w, c.hasW = access{t.ID, t.vc.at(t.ID), atomic, pc}, true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].tid == t.ID {
			c.reads[i] = access{t.ID, t.vc.at(t.ID), atomic, pc}
			return
		}
	}
	c.reads = append(c.reads, access{t.ID, t.vc.at(t.ID), atomic, pc})
}

func where(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	n := f.Function
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (s *Sim) race(a access, aw bool, pc uintptr, w bool) {
	if !s.Races || s.ending {
		return
	}
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	s.failNow(&Failure{Key: "race", Msg: fmt.Sprintf("data race: %s by goroutine %d in %s is not ordered with %s by goroutine %d in %s", k(aw), a.tid, where(a.pc), k(w), s.cur.ID, where(pc))})
}

func (s *Sim) plain(p unsafe.Pointer, write bool) {
	if s.PlainPts {
		if write {
			s.point("write", nil)
		} else {
			s.point("read", nil)
		}
	}
	if s.Races {
		s.touch(p, write, false)
	}
}

// R records a plain read of *p by the code under test.
func R[T any](p *T) *T {
	if S != nil && S.running() && unsafe.Sizeof(*p) > 0 {
		S.plain(unsafe.Pointer(p), false)
	}
	return p
}

// W records a plain write of *p.
func W[T any](p *T) *T {
	if S != nil && S.running() && unsafe.Sizeof(*p) > 0 {
		S.plain(unsafe.Pointer(p), true)
	}
	return p
}

// Ptr is the target of an assignment.
type Ptr[T any] struct{ p *T }

// P makes one.
func P[T any](p *T) Ptr[T] { return Ptr[T]{p} }

// St stores v.
func (q Ptr[T]) St(v T) {
	if S != nil && S.running() && unsafe.Sizeof(*q.p) > 0 {
		S.plain(unsafe.Pointer(q.p), true)
	}
	*q.p = v
}

// MR records a read of a map.
func MR[M any](m M) M {
	if S != nil && S.running() {
		if p := mapPtr(m); p != nil {
			S.plain(p, false)
		}
	}
	return m
}

// MW records a write of a map.
func MW[M any](m M) M {
	if S != nil && S.running() {
		if p := mapPtr(m); p != nil {
			S.plain(p, true)
		}
	}
	return m
}

func mapPtr(m interface{}) unsafe.Pointer {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map || v.IsNil() {
		return nil
	}
	return v.UnsafePointer()
}

// RT records a plain read without a scheduling point.
func RT[T any](p *T) *T {
	if S != nil && S.Races && S.running() && unsafe.Sizeof(*p) > 0 {
		S.touch(unsafe.Pointer(p), false, false)
	}
	return p
}

// RangeV and RangeKV start a loop over a slice.
func RangeV[L ~[]E, E any](l L) (L, int, E) { var e E; return l, 0, e }

func RangeKV[L ~[]E, E any](l L) (L, int, int, E) { var e E; return l, 0, 0, e }

// Append is the append builtin: it writes the spare capacity or reads what it copies.
func Append[L ~[]E, E any](l L) func(v ...E) L {
	return func(v ...E) L {
		var e E
		Moved += int64(len(v))
		if len(l)+len(v) > cap(l) {
			Moved += int64(len(l))
		}
		if S == nil || !S.Races || !S.running() || unsafe.Sizeof(e) == 0 {
			return append(l, v...)
		}
		if len(v) > 0 && len(l)+len(v) > cap(l) {
			for i := range l {
				S.touch(unsafe.Pointer(&l[i]), false, false)
			}
		}
		r := append(l, v...)
		for i := len(l); i < len(r); i++ {
			S.touch(unsafe.Pointer(&r[i]), true, false)
		}
		return r
	}
}

// Obj records the use of a library object that is not safe for concurrent use.
func Obj[T any](x T) T {
	if S != nil && S.Races && S.running() {
		if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr && !v.IsNil() {
			S.touch(v.UnsafePointer(), true, false)
		}
	}
	return x
}

// Copy is the copy builtin.
func Copy[E any](dst, src []E) int {
	if len(dst) < len(src) {
		Moved += int64(len(dst))
	} else {
		Moved += int64(len(src))
	}
	if S != nil && S.running() {
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			v := *R(&src[i])
			_ = v
		}
		// element values move after every read point: memmove semantics
		n = copy(dst, src)
		for i := 0; i < n; i++ {
			if S.Races {
				S.touch(unsafe.Pointer(&dst[i]), true, false)
			}
		}
		return n
	}
	return copy(dst, src)
}

// AtomicOp is a scheduling point and a synchronisation on address p.
func AtomicOp(p unsafe.Pointer, write bool, what string) {
	if Ending() {
		panic(killPanic{})
	}
	if !S.running() {
		return
	}
	s := S
	s.point(what, nil)
	vc := s.atomVC[p]
	if vc == nil {
		vc = &VC{}
		s.atomVC[p] = vc
	}
	Acquire(vc)
	if s.Races {
		s.touch(p, write, true)
	}
	if write {
		Release(vc)
	}
}
