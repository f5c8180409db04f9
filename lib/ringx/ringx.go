// Package ringx checks a ring buffer against a bounded (or unbounded) FIFO.
package ringx

import (
	"fmt"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// Ring is the common interface.
type Ring interface {
	Push(int)
	Pop() int
	Peek() int
	MPush(...int)
	MPop(uint64) []int
	MPopCopy([]int)
	Reset()
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

// W is a ring with its model.
type W struct {
	R     Ring
	Q     []int
	Cap   int // -1: unbounded
	N     int
	Mod   int
	saved [][]int // earlier results, which must not change
	want  [][]int
	Grow  func(uint64)
}

func (w *W) val() int { w.N++; return 1 + w.N%w.Mod }

func (w *W) Fp() uint64 { return vh.DeepHash(w.R, w.Q, w.N%w.Mod) }

// Check compares every observer.
func (w *W) Check() {
	r, n := w.R, len(w.Q)
	vh.Check(r.Len() == uint64(n), "len", "Len() = %d, want %d", r.Len(), n)
	c := r.Cap()
	if w.Cap >= 0 {
		vh.Check(c == uint64(w.Cap), "cap", "Cap() = %d, want %d", c, w.Cap)
	} else {
		vh.Check(c >= uint64(n), "cap", "Cap() = %d below Len() = %d", c, n)
	}
	vh.Check(r.Avail() == c-uint64(n), "avail", "Avail() = %d, want %d", r.Avail(), c-uint64(n))
	vh.Check(r.Empty() == (n == 0), "empty", "Empty() = %v at length %d", r.Empty(), n)
	vh.Check(r.Full() == (uint64(n) == c), "full", "Full() = %v at length %d of %d", r.Full(), n, c)
	if n > 0 {
		var v int
		vh.Do("Peek", func() { v = r.Peek() })
		vh.Check(v == w.Q[0], "peek", "Peek() = %d, want %d", v, w.Q[0])
	} else {
		p, _ := vh.Panics("Peek", func() { r.Peek() })
		vh.Check(p, "emptypeek", "Peek on an empty ring returned")
	}
	for i := range w.saved {
		for j := range w.saved[i] {
			vh.Check(w.saved[i][j] == w.want[i][j], "aliasing", "a slice returned by MPop changed later")
		}
	}
}

func (w *W) room() int {
	if w.Cap < 0 {
		return 1 << 30
	}
	return w.Cap - len(w.Q)
}

func (w *W) Push() {
	v := w.val()
	if w.room() == 0 {
		p, _ := vh.Panics("Push", func() { w.R.Push(v) })
		vh.Check(p, "fullpush", "Push on a full ring did not panic")
		return
	}
	vh.Do("Push", func() { w.R.Push(v) })
	w.Q = append(append([]int{}, w.Q...), v)
}

func (w *W) Pop() {
	if len(w.Q) == 0 {
		p, _ := vh.Panics("Pop", func() { w.R.Pop() })
		vh.Check(p, "emptypop", "Pop on an empty ring returned")
		return
	}
	var v int
	vh.Do("Pop", func() { v = w.R.Pop() })
	vh.Check(v == w.Q[0], "pop", "Pop() = %d, want %d", v, w.Q[0])
	w.Q = append([]int(nil), w.Q[1:]...)
}

func (w *W) MPush(k int) {
	var e []int
	for i := 0; i < k; i++ {
		e = append(e, w.val())
	}
	in := append([]int{}, e...)
	vh.Do("MPush", func() { w.R.MPush(in...) })
	for i := range in {
		vh.Check(in[i] == e[i], "mpusharg", "MPush changed its arguments")
	}
	if k > w.room() {
		e = e[:w.room()]
	}
	w.Q = append(append([]int(nil), w.Q...), e...)
	for i := range in { // the ring must not keep the caller's slice
		in[i] = -99
	}
}

func (w *W) MPop(k uint64) {
	var e []int
	vh.Do("MPop", func() { e = w.R.MPop(k) })
	n := len(w.Q)
	if k < uint64(n) {
		n = int(k)
	}
	vh.Check(len(e) == n, "mpop", "MPop(%d) returned %d elements, want %d", k, len(e), n)
	for i := range e {
		vh.Check(e[i] == w.Q[i], "mpop", "MPop(%d)[%d] = %d, want %d", k, i, e[i], w.Q[i])
	}
	w.Q = append([]int(nil), w.Q[n:]...)
	if n > 0 && len(w.saved) < 3 {
		w.saved = append(w.saved, e)
		w.want = append(w.want, append([]int{}, e...))
	}
}

func (w *W) MPopCopy(k int) {
	back := make([]int, k+2)
	for i := range back {
		back[i] = -7
	}
	dst := back[:k]
	vh.Do("MPopCopy", func() { w.R.MPopCopy(dst) })
	n := len(w.Q)
	if k < n {
		n = k
	}
	for i := 0; i < n; i++ {
		vh.Check(dst[i] == w.Q[i], "mpopcopy", "MPopCopy into %d: element %d is %d, want %d", k, i, dst[i], w.Q[i])
	}
	for i := n; i < len(back); i++ {
		vh.Check(back[i] == -7, "mpopcopy", "MPopCopy wrote beyond the elements it had (index %d)", i)
	}
	w.Q = append([]int(nil), w.Q[n:]...)
}

func (w *W) Reset() {
	vh.Do("Reset", func() { w.R.Reset() })
	w.Q = nil
}

// Ops explores operation sequences.
func Ops(mk func(size uint64) (Ring, int, func(uint64)), sizes []uint64, depth int) func() {
	return func() {
		sz := sizes[rt.Choose(len(sizes))]
		w := &W{Mod: 1000}
		vh.Do("New", func() { w.R, w.Cap, w.Grow = mk(sz) })
		max := int(sz) + 1
		if w.Cap > int(sz) {
			max = w.Cap + 1
		}
		adv := rt.Choose(max) // move the read and write positions
		rt.Tracef("New(%d), %d times push and pop", sz, adv)
		for i := 0; i < adv; i++ {
			w.Push()
			w.Pop()
		}
		w.Check()
		w.Mod = 5
		vh.Steps(depth, w.Fp, func(int) {
			n := 6
			if w.Grow != nil {
				n = 7
			}
			switch rt.Choose(n) {
			case 0:
				rt.TraceS("Push")
				w.Push()
			case 1:
				rt.TraceS("Pop")
				w.Pop()
			case 2:
				k := rt.Choose(max + 1)
				rt.Tracef("MPush(%d)", k)
				w.MPush(k)
			case 3:
				k := rt.Choose(max + 2)
				u := uint64(k)
				if k == max+1 {
					u = 1<<64 - 1
				}
				rt.Tracef("MPop(%d)", u)
				w.MPop(u)
			case 4:
				k := rt.Choose(max + 1)
				rt.Tracef("MPopCopy(%d)", k)
				w.MPopCopy(k)
			case 5:
				rt.TraceS("Reset")
				w.Reset()
			case 6:
				k := rt.Choose(max + 2)
				rt.Tracef("Grow(%d)", k)
				vh.Do("Grow", func() { w.Grow(uint64(k)) })
				vh.Check(w.R.Cap() >= uint64(k), "grow", "Cap() = %d after Grow(%d)", w.R.Cap(), k)
			}
			w.Check()
		})
		for len(w.Q) > 0 {
			w.Pop()
			w.Check()
		}
	}
}

// Long uses larger capacities and deterministic patterns of batch sizes.
func Long(mk func(size uint64) (Ring, int, func(uint64)), sizes []uint64) func() {
	return func() {
		sz := sizes[rt.Choose(len(sizes))]
		k := rt.Choose(vh.Patterns)
		batch := []int{1, 3, 17, 64, 300}[rt.Choose(5)]
		rt.Tracef("New(%d) pattern %d batches up to %d", sz, k, batch)
		w := &W{Mod: 1 << 40}
		vh.Do("New", func() { w.R, w.Cap, w.Grow = mk(sz) })
		for i, p := range vh.Pattern(k, 120) {
			b := p * 13 % (batch + 1)
			switch (p + i) % 5 {
			case 0, 3:
				w.MPush(b)
			case 1:
				w.MPop(uint64(b))
			case 2:
				w.MPopCopy(b)
			case 4:
				for j := 0; j < b%9; j++ {
					w.Push()
				}
				for j := 0; j < p%7; j++ {
					w.Pop()
				}
			}
			if i%50 == 49 && k%2 == 1 {
				w.Reset()
			}
			w.Check()
		}
		for len(w.Q) > 0 {
			w.MPop(uint64(batch))
			w.Check()
		}
		rt.Outcome(fmt.Sprint(sz, k))
	}
}

// Huge fills and empties large rings with large and small batches; the contents are a running count.
func Huge(mk func(size uint64) (Ring, int, func(uint64)), sizes []uint64) func() {
	return func() {
		sz := sizes[rt.Choose(len(sizes))]
		off := []uint64{0, 1, 2, 3}[rt.Choose(4)] * sz / 4
		batch := []int{1, 100, 1024, 5000, 70000}[rt.Choose(5)]
		rt.Tracef("New(%d), positions moved by %d, batches of %d", sz, off, batch)
		vh.DoN("huge", int(4*sz)+300000, func() {
			r, c, _ := mk(sz)
			room := c
			if c < 0 {
				room = 2*int(sz) + 3*batch
			}
			in, out := 0, 0
			push := func(k int) {
				if k == 1 {
					r.Push(in)
					in++
				} else {
					e := make([]int, k)
					for i := range e {
						e[i] = in + i
					}
					r.MPush(e...)
					for i := range e {
						e[i] = -5
					}
					if c >= 0 && k > room-(in-out) {
						k = room - (in - out)
					}
					in += k
				}
			}
			pop := func(k int) {
				if k > in-out {
					k = in - out
				}
				var e []int
				switch {
				case k == 1:
					e = []int{r.Pop()}
				case out%2 == 0:
					e = r.MPop(uint64(k))
				default:
					e = make([]int, k)
					r.MPopCopy(e)
				}
				vh.Check(len(e) == k, "mpop", "popped %d elements, want %d", len(e), k)
				for i := range e {
					vh.Check(e[i] == out+i, "pop", "element %d came out as %d", out+i, e[i])
				}
				out += k
			}
			see := func() {
				vh.Check(r.Len() == uint64(in-out) && r.Empty() == (in == out), "len", "Len() = %d, want %d", r.Len(), in-out)
				vh.Check(r.Avail() == r.Cap()-r.Len() && r.Full() == (r.Len() == r.Cap()), "avail", "Avail() = %d, Cap() = %d, Len() = %d", r.Avail(), r.Cap(), r.Len())
				vh.Check(c < 0 || r.Cap() == uint64(c), "cap", "Cap() = %d, want %d", r.Cap(), c)
				if in > out {
					vh.Check(r.Peek() == out, "peek", "Peek() = %d, want %d", r.Peek(), out)
				}
			}
			for i := uint64(0); i < off; i++ {
				push(1)
				pop(1)
			}
			see()
			for round := 0; round < 2; round++ {
				for in-out < room {
					push(batch)
					see()
				}
				for in-out > room/3 {
					pop(batch)
					see()
				}
				for in-out < room*2/3 {
					push(batch)
				}
				for in > out {
					pop(batch + round)
					see()
				}
			}
		})
		rt.Transition(int64(5 * sz))
	}
}
