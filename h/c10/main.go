// verif:rewrite common/container/... tick,maps
package main

import (
	"fmt"

	"github.com/ahKevinXy/go-web-tools/common/container/set"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type key struct {
	A int
	B string
}

func ops[T comparable](dom []T, depth int) func() {
	return func() {
		s := [2]*set.Set[T]{set.New[T](), set.New[T]()}
		m := [2]map[T]bool{{}, {}}
		vh.Steps(depth, func() uint64 { return vh.DeepHash(s, m) }, func(int) {
			i := rt.Choose(2)
			k := rt.Choose(len(dom))
			if rt.Choose(2) == 0 {
				rt.Tracef("s%d.Add(%v)", i, dom[k])
				vh.Do("Add", func() { s[i].Add(dom[k]) })
				m[i][dom[k]] = true
			} else {
				rt.Tracef("s%d.Remove(%v)", i, dom[k])
				vh.Do("Remove", func() { s[i].Remove(dom[k]) })
				delete(m[i], dom[k])
			}
			for i := range s {
				vh.Check(s[i].Len() == len(m[i]), "len", "Len() = %d, want %d", s[i].Len(), len(m[i]))
				vh.Check(s[i].Empty() == (len(m[i]) == 0), "empty", "Empty() wrong at %d elements", len(m[i]))
				for _, e := range dom {
					vh.Check(s[i].Contains(e) == m[i][e], "contains", "Contains(%v) = %v, want %v", e, s[i].Contains(e), m[i][e])
				}
			}
		})
	}
}

func long() {
	n := []int{1, 7, 8, 9, 64, 100, 255, 256, 257, 1000, 4096, 5000, 33000, 70000}[rt.Choose(14)]
	k := rt.Choose(vh.Patterns)
	rt.Tracef("n=%d pattern=%d", n, k)
	s := set.New[int]()
	m := map[int]bool{}
	vh.DoN("long", n, func() {
		for _, p := range vh.Pattern(k, n) {
			s.Add(p)
			m[p] = true
			vh.Check(s.Len() == len(m), "len", "Len() = %d, want %d", s.Len(), len(m))
		}
		for i, p := range vh.Pattern((k+1)%vh.Patterns, n) {
			if i%3 == 0 {
				s.Add(-p)
				m[-p] = true
			} else {
				s.Remove(p)
				delete(m, p)
			}
			vh.Check(s.Len() == len(m), "len", "Len() = %d, want %d", s.Len(), len(m))
		}
		for i := -n * 2; i <= 2*n; i++ {
			vh.Check(s.Contains(i) == m[i], "contains", "Contains(%d) = %v", i, s.Contains(i))
		}
	})
	rt.Transition(int64(4 * n))
	rt.Outcome(fmt.Sprint(n, k))
}

func main() {
	vh.Main("C10", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "ints", Split: 3, Body: ops([]int{0, 1, -1, 1 << 62, 7}, vh.D(7, 12))},
			{Name: "strings", Split: 3, Body: ops([]string{"", "a", "A", "a\x00", "日"}, vh.D(7, 12))},
			{Name: "structs", Split: 3, Body: ops([]key{{}, {1, ""}, {0, "x"}, {1, "x"}}, vh.D(7, 12))},
			{Name: "floats", Split: 3, Body: ops([]float64{0, 1, -1, 0.5}, vh.D(6, 10))},
			{Name: "long", Split: 2, Body: long},
		}
	})
}
