// verif:rewrite help/utils tick,conc,mem,maps
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

type key struct {
	a int
	b string
}

var keys = []interface{}{"a", 1, int64(1), key{1, "x"}}

// call is one operation with its outcome.
type call struct {
	op       string
	k        interface{}
	v        interface{}
	res      string
	inv, ret int64
	panics   bool
}

func (c *call) String() string { return fmt.Sprintf("%s(%#v,%v)=%s", c.op, c.k, c.v, c.res) }

type state map[interface{}]interface{}

func (s state) clone() state {
	n := state{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

func (s state) snap() string {
	var l []string
	for k, v := range s {
		l = append(l, fmt.Sprintf("%#v:%v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// ref applies c to the reference and returns the result.
func ref(s state, c *call) string {
	switch c.op {
	case "get":
		return fmt.Sprint(s[c.k])
	case "set":
		s[c.k] = c.v
	case "tas":
		if v, ok := s[c.k]; ok {
			return fmt.Sprint(v)
		}
		s[c.k] = c.v
		return "<nil>"
	case "del":
		delete(s, c.k)
	case "len":
		return fmt.Sprint(len(s))
	case "rrange", "panicrange", "urange":
		return s.snap()
	case "lrange": // doubles every value
		r := s.snap()
		for k, v := range s {
			if n, ok := v.(int); ok {
				s[k] = 2 * n
			}
		}
		return r
	case "clear": // removes everything while ranging
		r := s.snap()
		for k := range s {
			delete(s, k)
		}
		return r
	case "incr": // read-modify-write under the exported lock
		n, _ := s[c.k].(int)
		s[c.k] = n + 1
		return fmt.Sprint(n)
	case "rpair": // two reads under the exported read lock
		return fmt.Sprintf("%v/%d", s[c.k], len(s))
	}
	return "-"
}

func do(m *utils.Map, c *call) {
	c.res = "-"
	seen := state{}
	collect := func(k, v interface{}) {
		_, dup := seen[k]
		vh.Check(!dup, "range-twice", "a range visited %v twice", k)
		seen[k] = v
	}
	switch c.op {
	case "get":
		c.res = fmt.Sprint(m.Get(c.k))
	case "set":
		m.Set(c.k, c.v)
	case "tas":
		c.res = fmt.Sprint(m.TestAndSet(c.k, c.v))
	case "del":
		m.Del(c.k)
	case "len":
		c.res = fmt.Sprint(m.Len())
	case "rrange":
		m.RLockRange(collect)
		c.res = seen.snap()
	case "urange": // the unlocked range under the exported lock
		m.RLock()
		m.UnsafeRange(collect)
		m.RUnlock()
		c.res = seen.snap()
	case "panicrange": // the callback panics on the last element; the lock must be released
		n := 0
		total := 0
		m.RLockRange(func(k, v interface{}) { collect(k, v); total++ })
		func() {
			defer func() { recover() }()
			m.LockRange(func(k, v interface{}) { n++; panic("callback") })
		}()
		func() {
			defer func() { recover() }()
			m.RLockRange(func(k, v interface{}) { panic("callback") })
		}()
		c.res = seen.snap()
	case "lrange":
		m.LockRange(func(k, v interface{}) {
			collect(k, v)
			if n, ok := v.(int); ok {
				m.UnsafeSet(k, 2*n)
			}
		})
		c.res = seen.snap()
	case "clear":
		m.LockRange(func(k, v interface{}) { collect(k, v); m.UnsafeDel(k) })
		c.res = seen.snap()
	case "incr":
		m.Lock()
		n, _ := m.UnsafeGet(c.k).(int)
		m.UnsafeSet(c.k, n+1)
		m.Unlock()
		c.res = fmt.Sprint(n)
	case "rpair":
		m.RLock()
		c.res = fmt.Sprintf("%v/%d", m.UnsafeGet(c.k), m.UnsafeLen())
		m.RUnlock()
	}
}

func final(m *utils.Map) string {
	s := state{}
	m.RLockRange(func(k, v interface{}) { s[k] = v })
	m.LockRange(func(k, v interface{}) { // the exclusive lock is free
		vh.Eq("range", v, s[k])
	})
	vh.Eq("len", m.Len(), len(s))
	for k, v := range s {
		vh.Eq("get", m.Get(k), v)
	}
	return s.snap()
}

// explained tells whether some order of the calls consistent with real time explains all results and the final state.
func explained(s state, l []*call, end string) bool {
	if len(l) == 0 {
		return s.snap() == end
	}
	for i, c := range l {
		first := true
		for _, o := range l {
			if o != c && o.ret < c.inv {
				first = false
			}
		}
		if !first {
			continue
		}
		n := s.clone()
		if ref(n, c) != c.res {
			continue
		}
		rest := append(append([]*call{}, l[:i]...), l[i+1:]...)
		if explained(n, rest, end) {
			return true
		}
	}
	return false
}

func sequential(depth int) func() {
	return func() {
		type inst struct {
			m *utils.Map
			s state
		}
		two := [2]inst{{&utils.Map{}, state{}}, {&utils.Map{}, state{}}}
		ops := []string{"set", "set", "tas", "del", "get", "len", "rrange", "lrange", "clear", "incr", "rpair", "panicrange", "urange"}
		serial := 0
		rt.Simulate(rt.Config{Horizon: 20000}, func() {
			vh.Steps(depth, func() uint64 { return vh.FNV(two[0].s.snap() + "|" + two[1].s.snap()) }, func(int) {
				w := &two[rt.Choose(2)]
				k := rt.Choose(len(ops))
				c := &call{op: ops[k]}
				switch c.op {
				case "set", "tas", "del", "get", "incr":
					c.k = keys[rt.Choose(3)]
				case "rpair":
					c.k = keys[0]
				}
				if k == 1 {
					c.v = nil
				} else {
					serial++
					c.v = 1 + rt.Choose(2)
				}
				vh.Do(c.op, func() { do(w.m, c) })
				rt.Tracef("%s", c)
				vh.Eq(c.op, c.res, ref(w.s, c))
				for i := range two {
					vh.Eq("content", final(two[i].m), two[i].s.snap())
				}
			})
		})
	}
}

// concurrent programs
func concurrent(threads, ops int, kinds []string) func() {
	return func() {
		init := rt.Choose(3)
		prog := make([][]*call, threads)
		val := 10
		for t := range prog {
			for o := 0; o < ops; o++ {
				c := &call{op: kinds[rt.Choose(len(kinds))]}
				val++
				c.k, c.v = "a", val
				if strings.HasSuffix(c.op, "2") {
					c.op, c.k = strings.TrimSuffix(c.op, "2"), "b"
				}
				prog[t] = append(prog[t], c)
			}
			if t > 0 && prog[t][0].op < prog[t-1][0].op && ops == 1 {
				rt.Prune() // threads are symmetric
			}
		}
		rt.Simulate(rt.Config{FreeSwitch: true, Races: true, Horizon: 5000}, func() {
			m := &utils.Map{}
			s := state{}
			if init > 0 {
				m.Set("a", 1)
				s["a"] = 1
			}
			if init > 1 {
				m.Set("b", 5)
				s["b"] = 5
			}
			var all []*call
			n := int64(0)
			for t := range prog {
				t := t
				rt.GoNamed(fmt.Sprintf("caller%d", t), func() {
					for _, c := range prog[t] {
						n++
						c.inv = n
						do(m, c)
						n++
						c.ret = n
						rt.Tracef("caller %d: %s", t, c)
						all = append(all, c)
					}
				})
			}
			rt.Idle()
			vh.Check(len(all) == threads*ops, "blocked", "a call never returned: %s", rt.UnfinishedNames())
			end := final(m)
			out := end
			for _, p := range prog {
				for _, c := range p {
					out += " " + c.res
				}
			}
			rt.Outcome(out)
			vh.Check(explained(s, all, end), "linearizable", "no order of the calls %v from {%s} explains their results and the final content {%s}", all, s.snap(), end)
		})
	}
}

// large: many entries, values and keys of many types
func large() {
	n := []int{9, 70, 1100, 5000}[rt.Choose(4)]
	kind := rt.Choose(4)
	pat := rt.Choose(vh.Patterns)
	mk := func(i int) interface{} {
		switch kind {
		case 0:
			return i
		case 1:
			return fmt.Sprintf("key%d", i)
		case 2:
			return key{i, "x"}
		}
		return []interface{}{i, int64(i), float64(i), fmt.Sprint(i), key{i, ""}, &keys[0], i%2 == 0, uint8(i), [2]int{i, 1}, nil}[i%10]
	}
	rt.Simulate(rt.Config{Horizon: 1000000}, func() {
		m, s := &utils.Map{}, state{}
		cmp := func() {
			vh.DoN("range", n, func() {
				seen := state{}
				m.RLockRange(func(k, v interface{}) {
					_, dup := seen[k]
					vh.Check(!dup, "range-twice", "a range visited %v twice", k)
					seen[k] = v
				})
				vh.Eq("Len", m.Len(), len(s))
				vh.Eq("range", len(seen), len(s))
				for k, v := range s {
					if seen[k] != v || m.Get(k) != v {
						vh.Check(false, "content", "key %v: Get %v, range %v, expected %v (%d entries)", k, m.Get(k), seen[k], v, len(s))
					}
				}
			})
		}
		p := vh.Pattern(pat, n)
		vh.DoN("fill", n, func() {
			for i, x := range p {
				k := mk(x % n)
				if i%3 == 1 {
					old := m.TestAndSet(k, i)
					v, ok := s[k]
					if !ok {
						s[k] = i
					}
					vh.Check(old == v, "TestAndSet", "TestAndSet(%v) = %v, the value was %v", k, old, v)
				} else {
					m.Set(k, i)
					s[k] = i
				}
			}
		})
		cmp()
		vh.DoN("thin", n, func() {
			for i := 0; i < n; i++ {
				if i%3 != 0 {
					m.Del(mk(i))
					delete(s, mk(i))
				}
			}
		})
		cmp()
		vh.DoN("LockRange", n, func() {
			m.LockRange(func(k, v interface{}) {
				m.UnsafeSet(k, -1)
				s[k] = -1
				if i, ok := v.(int); ok && i%2 == 0 {
					m.UnsafeDel(k)
					delete(s, k)
				}
			})
		})
		cmp()
		vh.DoN("refill", n, func() {
			for i := 0; i < n; i += 2 {
				m.Set(mk(i), i)
				s[mk(i)] = i
			}
		})
		cmp()
	})
}

func pick(q, t []string) []string {
	if vh.D(0, 1) == 0 {
		return q
	}
	return t
}

func main() {
	vh.Main("C26", func() []vh.Scenario {
		kinds := []string{"get", "set", "set2", "tas", "del", "len", "rrange", "lrange", "clear", "incr", "rpair", "urange"}
		few := []string{"get", "set", "tas", "del", "rrange", "incr", "lrange"}
		return []vh.Scenario{
			{Name: "seq", Split: 4, Body: sequential(vh.D(4, 5))},
			{Name: "large", Split: 3, Body: large},
			{Name: "conc-2x1", SplitDev: true, Bound: 4, BoundT: 6, Body: concurrent(2, 1, kinds)},
			{Name: "conc-2x2", SplitDev: true, Bound: 2, BoundT: 3, Body: concurrent(2, 2, pick(few, kinds))},
			{Name: "conc-3x1", SplitDev: true, Bound: 2, BoundT: 3, Body: concurrent(3, 1, kinds)},
			{Name: "conc-3x2", Thorough: true, SplitDev: true, Bound: 1, BoundT: 1, Body: concurrent(3, 2, few)},
		}
	})
}
