// verif:rewrite common/container/ringbuffer/... tick,conc,mem,maps
package main

import (
	"fmt"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/ringx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// elem encodes (operation, index in the operation)
func elem(op, i int) int { return op*100 + i + 1 }

type batch struct{ k, min int }

func spsc(mk func(uint64) ringx.Ring, size uint64, nprod, ncons int) func() {
	return func() {
		type pop struct{ kind, k int }
		var pk []pop
		var ck []pop
		adv := rt.Choose(int(size) + 1)
		for i := 0; i < nprod; i++ {
			k := rt.Choose(3)
			pk = append(pk, pop{k, 2})
		}
		for i := 0; i < ncons; i++ {
			pk := rt.Choose(4)
			ck = append(ck, pop{pk, 2})
		}
		rt.Tracef("size %d, advanced %d, producer %v, consumer %v", size, adv, pk, ck)
		rt.Simulate(rt.Config{FreeSwitch: true, PlainPts: true, Races: true, Horizon: 5000}, func() {
			r := mk(size)
			for i := 0; i < adv; i++ {
				r.Push(0)
				r.Pop()
			}
			c := r.Cap()
			var pushed []batch
			var got []int
			rt.GoNamed("producer", func() {
				for op, p := range pk {
					switch p.kind {
					case 0:
						if !r.Full() {
							r.Push(elem(op, 0))
							pushed = append(pushed, batch{1, 1})
						} else {
							pushed = append(pushed, batch{0, 0})
						}
					default:
						var e []int
						k := p.k + p.kind - 1
						for i := 0; i < k; i++ {
							e = append(e, elem(op, i))
						}
						a := int(r.Avail())
						vh.Check(a <= int(c), "avail", "Avail() = %d with capacity %d", a, c)
						if a > k {
							a = k
						}
						pushed = append(pushed, batch{k, a})
						r.MPush(e...)
					}
				}
			})
			rt.GoNamed("consumer", func() {
				for _, p := range ck {
					switch p.kind {
					case 0:
						if !r.Empty() {
							got = append(got, r.Pop())
						}
					case 1:
						if !r.Empty() {
							v := r.Peek()
							w := r.Pop()
							vh.Check(v == w, "peek", "Peek() = %d but Pop() = %d", v, w)
							got = append(got, w)
						}
					case 2:
						l := r.Len()
						vh.Check(l <= c, "len", "Len() = %d with capacity %d", l, c)
						e := r.MPop(2)
						vh.Check(len(e) <= 2 && (len(e) == 2 || len(e) >= int(l)), "mpop", "MPop(2) returned %d elements although %d were there", len(e), l)
						got = append(got, e...)
					case 3:
						// the count is what Len says afterwards only without a producer: use the marker
						d := []int{-1, -1, -1}
						l := r.Len()
						r.MPopCopy(d)
						n := 0
						for n < 3 && d[n] != -1 {
							n++
						}
						for i := n; i < 3; i++ {
							vh.Check(d[i] == -1, "mpopcopy", "MPopCopy left a hole: %v", d)
						}
						vh.Check(n == 3 || n >= int(l), "mpopcopy", "MPopCopy returned %d elements although %d were there", n, l)
						got = append(got, d[:n]...)
					}
				}
			})
			rt.Idle()
			for r.Len() > 0 {
				got = append(got, r.Pop())
			}
			// order and completeness
			j := 0
			for op, b := range pushed {
				i := 0
				for j < len(got) && i < b.k && got[j] == elem(op, i) {
					i++
					j++
				}
				vh.Check(i >= b.min, "fifo", "operation %d stored at least %d elements, %d came out (got %v)", op, b.min, i, got)
			}
			vh.Check(j == len(got), "fifo", "element %d came out of order or twice: %v", j, got)
			rt.Outcome(fmt.Sprint(got))
			rt.Tracef("got %v", got)
		})
	}
}

func mkFix(n uint64) ringx.Ring   { return fix.New[int](n) }
func mkRound(n uint64) ringx.Ring { return round.New[int](n) }

func main() {
	vh.Main("C09", func() []vh.Scenario {
		var l []vh.Scenario
		for _, s := range []uint64{1, 2, 3} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("fix-%d", s), SplitDev: true, Bound: 2, BoundT: 3, Body: spsc(mkFix, s, 2, vh.D(2, 3))})
		}
		for _, s := range []uint64{1, 2, 3} {
			l = append(l, vh.Scenario{Name: fmt.Sprintf("round-%d", s), SplitDev: true, Bound: 2, BoundT: 3, Body: spsc(mkRound, s, 2, vh.D(2, 3))})
		}
		return l
	})
}
