// verif:rewrite common/container/... tick,maps
package main

import (
	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// two deques and two stacks of independent instances, so that shared state shows
func ops(depth int, vals int) func() {
	return func() {
		d := [2]*deque.Deque[int]{deque.New[int](), deque.New[int]()}
		var m [2][]int
		n := 0
		vh.Steps(depth, func() uint64 { return vh.DeepHash(d, m, n) }, func(int) {
			i := rt.Choose(2)
			op := rt.Choose(4)
			if op >= 2 && len(m[i]) == 0 {
				rt.Prune()
			}
			n = (n + 1) % vals
			v := n
			switch op {
			case 0:
				rt.Tracef("d%d.PushFront(%d)", i, v)
				vh.Do("PushFront", func() { d[i].PushFront(v) })
				m[i] = append([]int{v}, m[i]...)
			case 1:
				rt.Tracef("d%d.PushBack(%d)", i, v)
				vh.Do("PushBack", func() { d[i].PushBack(v) })
				m[i] = append(append([]int{}, m[i]...), v)
			case 2:
				rt.Tracef("d%d.PopFront()", i)
				vh.Do("PopFront", func() { v = d[i].PopFront() })
				vh.Check(v == m[i][0], "popfront", "PopFront() = %d, want %d", v, m[i][0])
				m[i] = m[i][1:]
			case 3:
				rt.Tracef("d%d.PopBack()", i)
				vh.Do("PopBack", func() { v = d[i].PopBack() })
				l := len(m[i]) - 1
				vh.Check(v == m[i][l], "popback", "PopBack() = %d, want %d", v, m[i][l])
				m[i] = m[i][:l]
			}
			m[i] = append([]int(nil), m[i]...)
			for k := range d {
				vh.Check(d[k].Len() == len(m[k]), "len", "deque %d: Len() = %d, want %d", k, d[k].Len(), len(m[k]))
				vh.Check(d[k].Empty() == (len(m[k]) == 0), "empty", "deque %d: Empty() wrong at length %d", k, len(m[k]))
			}
		})
		for k := range d {
			for j, w := range m[k] {
				var v int
				vh.Do("PopFront", func() { v = d[k].PopFront() })
				vh.Check(v == w, "drain", "deque %d: element %d is %d, want %d", k, j, v, w)
			}
			vh.Check(d[k].Empty() && d[k].Len() == 0, "drain", "deque %d not empty after draining", k)
		}
	}
}

func stk(depth, vals int) func() {
	return func() {
		s := [2]*stack.Stack[int]{stack.New[int](), stack.New[int]()}
		var m [2][]int
		n := 0
		vh.Steps(depth, func() uint64 { return vh.DeepHash(s, m, n) }, func(int) {
			i := rt.Choose(2)
			if rt.Choose(2) == 0 {
				n = (n + 1) % vals
				v := n
				rt.Tracef("s%d.Push(%d)", i, v)
				vh.Do("Push", func() { s[i].Push(v) })
				m[i] = append(append([]int{}, m[i]...), v)
			} else {
				if len(m[i]) == 0 {
					rt.Prune()
				}
				var v int
				rt.Tracef("s%d.Pop()", i)
				vh.Do("Pop", func() { v = s[i].Pop() })
				l := len(m[i]) - 1
				vh.Check(v == m[i][l], "pop", "Pop() = %d, want %d", v, m[i][l])
				m[i] = append([]int(nil), m[i][:l]...)
			}
			for k := range s {
				vh.Check(s[k].Len() == len(m[k]), "slen", "stack %d: Len() = %d, want %d", k, s[k].Len(), len(m[k]))
				vh.Check(s[k].Empty() == (len(m[k]) == 0), "sempty", "stack %d: Empty() wrong at length %d", k, len(m[k]))
				if l := len(m[k]); l > 0 {
					var v int
					vh.Do("Peek", func() { v = s[k].Peek() })
					vh.Check(v == m[k][l-1], "peek", "stack %d: Peek() = %d, want %d", k, v, m[k][l-1])
					vh.Check(s[k].Len() == l, "peek", "Peek changed the length")
				}
			}
		})
	}
}

// long: phases of pushes and pops at either end, sizes up to a few thousand
func long() {
	sizes := []int{1, 2, 3, 5, 8, 13, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097}
	n := sizes[rt.Choose(len(sizes))]
	k := rt.Choose(vh.Patterns)
	rt.Tracef("n=%d pattern=%d", n, k)
	d := deque.New[int]()
	s := stack.New[int]()
	var m, sm []int
	chk := func() {
		vh.Check(d.Len() == len(m), "len", "Len() = %d, want %d", d.Len(), len(m))
		vh.Check(s.Len() == len(sm), "slen", "Len() = %d, want %d", s.Len(), len(sm))
	}
	push := func(i, p int) {
		if p&1 == 0 {
			d.PushFront(i)
			m = append([]int{i}, m...)
		} else {
			d.PushBack(i)
			m = append(m, i)
		}
		s.Push(i)
		sm = append(sm, i)
	}
	pop := func(p int) {
		if len(m) == 0 {
			return
		}
		if p&1 == 0 {
			v := d.PopFront()
			vh.Check(v == m[0], "popfront", "PopFront() = %d, want %d at length %d", v, m[0], len(m))
			m = m[1:]
		} else {
			v := d.PopBack()
			vh.Check(v == m[len(m)-1], "popback", "PopBack() = %d, want %d at length %d", v, m[len(m)-1], len(m))
			m = m[:len(m)-1]
		}
		v := s.Pop()
		vh.Check(v == sm[len(sm)-1], "pop", "Pop() = %d, want %d", v, sm[len(sm)-1])
		sm = sm[:len(sm)-1]
	}
	pat := vh.Pattern(k, n)
	vh.Do("long", func() {
		for i, p := range pat {
			push(i, p/2)
			chk()
		}
		for i, p := range pat {
			pop(p / 3)
			if p%3 == 0 {
				push(n+i, p)
			}
			chk()
		}
		for i, p := range pat {
			push(2*n+i, p)
		}
		for len(m) > 0 {
			pop(pat[len(m)%n])
			chk()
		}
	})
	vh.Check(d.Empty() && s.Empty(), "empty", "not empty at the end")
	rt.Transition(int64(5 * n))
}

// huge: more elements than an 8- or 16-bit count holds
func huge() {
	n := []int{255, 256, 257, 4096, 32767, 32768, 65535, 65536, 70000}[rt.Choose(9)]
	way := rt.Choose(4)
	rt.Tracef("n=%d way=%d", n, way)
	d := deque.New[int]()
	s := stack.New[int]()
	vh.DoN("huge", n, func() {
		for i := 0; i < n; i++ {
			if way&1 == 0 {
				d.PushBack(i)
			} else {
				d.PushFront(i)
			}
			s.Push(i)
			vh.Check(d.Len() == i+1 && !d.Empty(), "len", "Len() = %d, want %d", d.Len(), i+1)
			vh.Check(s.Len() == i+1 && !s.Empty() && s.Peek() == i, "slen", "Len() = %d, want %d", s.Len(), i+1)
		}
		for i := 0; i < n; i++ {
			var v int
			if way&2 == 0 {
				v = d.PopFront()
			} else {
				v = d.PopBack()
			}
			w := i
			if way == 1 || way == 2 {
				w = n - 1 - i
			}
			vh.Check(v == w, "pop", "element %d of %d is %d, want %d", i, n, v, w)
			vh.Check(d.Len() == n-1-i && d.Empty() == (i == n-1), "len", "Len() = %d, want %d", d.Len(), n-1-i)
			v = s.Pop()
			vh.Check(v == n-1-i && s.Len() == n-1-i && s.Empty() == (i == n-1), "spop", "Pop() = %d, want %d", v, n-1-i)
		}
	})
	rt.Transition(int64(4 * n))
}

func main() {
	vh.Main("C02", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "deque", Split: 4, Body: ops(vh.D(7, 9), 5)},
			{Name: "stack", Split: 4, Body: stk(vh.D(10, 13), 5)},
			{Name: "long", Split: 2, Body: long},
			{Name: "huge", Split: 1, Body: huge},
		}
	})
}
