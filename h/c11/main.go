// verif:rewrite common/filter/... tick,conc,maps
package main

import (
	"fmt"
	"strings"

	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

var rates = []float64{0.5, 0.1, 0.01, 0.001, 1e-6, 1e-12, 0.9, 0.99}

func mk(cap uint64, rate float64, clock int64) *bloom.Filter {
	rt.SetClock(clock)
	var f *bloom.Filter
	vh.Do("New", func() { f = bloom.New(cap, rate) })
	return f
}

// elements: raw hashes at the edges, byte strings, strings
var hashes = []uint64{0, 1, 63, 64, 65, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0xdeadbeefcafebabe}
var strs = []string{"", "a", "b", "ab", "ba", "\x00", "a\x00", "日本", "aa"}

type op struct {
	name     string
	add      func(f *bloom.Filter)
	contains []func(f *bloom.Filter) bool
}

func opsList() []op {
	var l []op
	for _, h := range hashes {
		h := h
		l = append(l, op{fmt.Sprintf("Add(%#x)", h), func(f *bloom.Filter) { f.Add(h) }, []func(*bloom.Filter) bool{func(f *bloom.Filter) bool { return f.Contains(h) }}})
	}
	for _, s := range strs {
		s := s
		both := []func(*bloom.Filter) bool{
			func(f *bloom.Filter) bool { return f.ContainsString(s) },
			func(f *bloom.Filter) bool { return f.ContainsBytes([]byte(s)) },
		}
		l = append(l, op{fmt.Sprintf("AddString(%q)", s), func(f *bloom.Filter) { f.AddString(s) }, both})
		l = append(l, op{fmt.Sprintf("AddBytes(%q)", s), func(f *bloom.Filter) {
			b := []byte(s)
			f.AddBytes(b)
			vh.Check(string(b) == s, "arg", "AddBytes changed its argument")
		}, both})
	}
	return l
}

// every element added since the last Clear stays contained, whatever else happens
func seqs(depth int) func() {
	return func() {
		ops := opsList()
		cap := []uint64{1, 2, 3, 10, 0}[rt.Choose(5)]
		rate := rates[rt.Choose(len(rates))]
		f := mk(cap, rate, int64(rt.Choose(vh.D(2, 4)))*1e9)
		rt.Tracef("New(%d, %v)", cap, rate)
		var in []int
		for i := 0; i < depth; i++ {
			k := rt.Choose(len(ops) + 1)
			if k == len(ops) {
				rt.TraceS("Clear()")
				f.Clear()
				in = nil
			} else {
				rt.TraceS(ops[k].name)
				vh.Do(ops[k].name, func() { ops[k].add(f) })
				in = append(in, k)
			}
			for _, j := range in {
				for _, c := range ops[j].contains {
					vh.Check(c(f), "false-negative", "after %s the element is not contained", ops[j].name)
				}
			}
			if len(in) == 0 {
				for _, o := range ops {
					for _, c := range o.contains {
						vh.Check(!c(f), "clear", "an empty filter contains the element of %s", o.name)
					}
				}
			}
		}
	}
}

// fill to (beyond) capacity with structured hash families
func fill() {
	caps := []uint64{1, 2, 5, 7, 10, 31, 64, 100, 333, 1000, 0}
	cap := caps[rt.Choose(len(caps))]
	rate := rates[rt.Choose(len(rates))]
	fam := rt.Choose(6)
	seed := int64(rt.Choose(vh.D(3, 12)))
	f := mk(cap, rate, 1e9*seed*seed+seed)
	rt.Tracef("New(%d, %v), hash family %d, clock %d", cap, rate, fam, seed)
	gen := func(i uint64) uint64 {
		switch fam {
		case 0:
			return i
		case 1:
			return i << 32
		case 2:
			return ^i
		case 3:
			return i * 0x9E3779B97F4A7C15
		case 4:
			return i * f.Len()
		}
		return 1 << (i % 64)
	}
	n := cap*2 + 3
	l := f.Len()
	vh.Check(l >= 64 && l%64 == 0 || l >= 1, "len", "Len() = %d", l)
	for i := uint64(0); i < n; i++ {
		vh.Do("Add", func() { f.Add(gen(i)) })
		vh.Check(f.Contains(gen(i)), "false-negative", "element %d is not contained right after Add", i)
	}
	for i := uint64(0); i < n; i++ {
		vh.Check(f.Contains(gen(i)), "false-negative", "element %d of %d is not contained", i, n)
	}
	for i := uint64(0); i < n; i++ {
		f.AddString(fmt.Sprint("key-", gen(i)))
	}
	for i := uint64(0); i < n; i++ {
		vh.Check(f.ContainsString(fmt.Sprint("key-", gen(i))), "false-negative", "string element %d of %d is not contained", i, n)
		vh.Check(f.Contains(gen(i)), "false-negative", "element %d of %d is not contained", i, n)
	}
	vh.Check(f.Len() == l, "len", "Len() changed from %d to %d", l, f.Len())
	f.Clear()
	for i := uint64(0); i < n; i++ {
		vh.Check(!f.Contains(gen(i)), "clear", "a cleared filter contains %#x", gen(i))
	}
	f.Add(gen(0))
	vh.Check(f.Contains(gen(0)), "false-negative", "element not contained after Clear and Add")
	rt.Transition(int64(6 * n))
}

// the rate over an enumerated universe of absent elements stays near the configured one
func rate() {
	caps := []uint64{1, 2, 6, 13, 27, 50, 53, 100, 107, 213, 333, 427, 854, 1000, 1709, 3417, 6834}
	ps := []float64{0.3, 0.1, 0.03, 0.01, 0.001}
	cap, p := caps[rt.Choose(len(caps))], ps[rt.Choose(len(ps))]
	fp, tot := 0, 0
	seeds, probes := 20, uint64(6000)
	if p < 0.005 {
		probes = 20000
	}
	for s := 0; s < seeds; s++ {
		f := mk(cap, p, int64(s)*1000003)
		g := mk(cap, p, int64(s)*1000003+500)
		for i := uint64(0); i < cap; i++ {
			f.Add((i + 1) * 0x9E3779B97F4A7C15)
			g.AddString(fmt.Sprint("user-", i))
		}
		for i := cap; i < cap+probes; i++ {
			tot += 2
			if f.Contains((i + 1) * 0x9E3779B97F4A7C15) {
				fp++
			}
			if g.ContainsString(fmt.Sprint("user-", i)) {
				fp++
			}
		}
	}
	rt.Tracef("New(%d, %v): %d of %d absent elements contained", cap, p, fp, tot)
	vh.Check(float64(fp) <= 1.7*p*float64(tot)+60, "rate", "New(%d, %v): %d of %d absent elements are reported as contained (rate %.5f)", cap, p, fp, tot, float64(fp)/float64(tot))
	rt.Transition(int64(tot))
}

// filters of many elements
func large() {
	cap := []uint64{65000, 1 << 17, 1 << 20}[rt.Choose(3)]
	p := []float64{0.1, 0.01, 0.0001}[rt.Choose(3)]
	strings := rt.Choose(2) == 1
	f := mk(cap, p, int64(cap))
	each := func(from, to uint64, do func(i uint64)) {
		for i := from; i < to; i++ {
			do(i)
		}
	}
	str := func(i uint64) string { return fmt.Sprint("user-", i) }
	has := func(i uint64) bool {
		if strings {
			return f.ContainsString(str(i))
		}
		return f.Contains((i + 1) * 0x9E3779B97F4A7C15)
	}
	each(0, cap, func(i uint64) {
		if strings {
			f.AddString(str(i))
		} else {
			f.Add((i + 1) * 0x9E3779B97F4A7C15)
		}
	})
	each(0, cap, func(i uint64) {
		vh.Check(has(i), "false-negative", "element %d of %d is not contained", i, cap)
	})
	const probes = 100000
	fp := 0
	each(cap, cap+probes, func(i uint64) {
		if has(i) {
			fp++
		}
	})
	rt.Tracef("New(%d, %v): %d of %d absent elements contained", cap, p, fp, probes)
	vh.Check(float64(fp) <= 1.7*p*probes+60, "rate", "New(%d, %v): %d of %d absent elements are reported as contained", cap, p, fp, probes)
	f.Clear()
	each(0, cap, func(i uint64) {
		vh.Check(!has(i), "clear", "a cleared filter contains element %d of %d", i, cap)
	})
	rt.Transition(int64(3*cap + probes))
}

// long byte strings differing at one place are told apart by content, not by identity
func bytesLong() {
	n := rt.Choose(70)
	f := mk(100, 0.001, 5)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	vh.Do("AddBytes", func() { f.AddBytes(b) })
	c := append([]byte{}, b...)
	vh.Check(f.ContainsBytes(c), "false-negative", "equal bytes of length %d are not contained", n)
	vh.Check(f.ContainsString(string(c)), "false-negative", "equal string of length %d is not contained", n)
	for i := range b {
		b[i] = 0
	}
	vh.Check(f.ContainsBytes(c), "alias", "the filter depends on the caller's slice")
	rt.Tracef("length %d", n)
}

// families of contents that a careless reduction to a hash would confuse
var families = []struct {
	name string
	gen  func(i int) string
}{
	{"decimal", func(i int) string { return fmt.Sprint(i) }},
	{"after a common prefix of 33", func(i int) string { return strings.Repeat("p", 33) + fmt.Sprint(i) }},
	{"after a common prefix of 100", func(i int) string { return strings.Repeat("p", 100) + fmt.Sprint(i) }},
	{"after a common prefix of 2000", func(i int) string { return strings.Repeat("p", 2000) + fmt.Sprint(i) }},
	{"before a common suffix of 100", func(i int) string { return fmt.Sprint(i) + strings.Repeat("s", 100) }},
	{"before a common suffix of 2000", func(i int) string { return fmt.Sprint(i) + strings.Repeat("s", 2000) }},
	{"in the middle", func(i int) string {
		return strings.Repeat("p", 300) + fmt.Sprintf("%06d", i) + strings.Repeat("s", 300)
	}},
	{"trailing NULs", func(i int) string { return "k" + strings.Repeat("\x00", i) }},
	{"leading NULs", func(i int) string { return strings.Repeat("\x00", i) + "k" }},
	{"spaces", func(i int) string { return strings.Repeat(" ", i) }},
	{"case", func(i int) string {
		b := []byte("abcdefghijklmn")
		for k := range b {
			if i>>uint(k)&1 == 1 {
				b[k] -= 32
			}
		}
		return string(b)
	}},
	{"position of one character", func(i int) string { return strings.Repeat("a", i) + "x" + strings.Repeat("a", 4000-i) }},
	{"one bit", func(i int) string {
		b := make([]byte, 512)
		b[i/8%512] = 1 << uint(i%8)
		return string(b)
	}},
	{"two bytes", func(i int) string { return string([]byte{byte(i >> 8), byte(i)}) }},
	{"two bytes of many", func(i int) string { return string([]byte{0, 0, byte(i >> 8), 0, 0, 0, byte(i), 0}) }},
	{"a final NUL", func(i int) string { return fmt.Sprint(i/2) + strings.Repeat("\x00", i%2) }},
	{"a final newline", func(i int) string { return fmt.Sprint(i/2) + strings.Repeat("\n", i%2) }},
	{"a first space", func(i int) string { return strings.Repeat(" ", i%2) + fmt.Sprint(i/2) }},
	{"a doubled byte", func(i int) string { return strings.Repeat("q", i%2+1) + fmt.Sprint(i/2) }},
	{"runes", func(i int) string { return string(rune(0x4e00 + i)) }},
}

func contents() {
	fam := families[rt.Choose(len(families))]
	cap := []uint64{20, 300, 1000}[rt.Choose(3)]
	p := []float64{0.1, 0.01}[rt.Choose(2)]
	fp, tot := 0, 0
	for s := 0; s < 4; s++ {
		f := mk(cap, p, int64(s)*1000003)
		for i := 0; i < int(cap); i++ {
			if x := fam.gen(i * 2); i%2 == 0 {
				f.AddString(x)
			} else {
				f.AddBytes([]byte(x))
			}
		}
		for i := 0; i < int(cap); i++ {
			x := fam.gen(i * 2)
			vh.Check(f.ContainsString(x) && f.ContainsBytes([]byte(x)), "false-negative", "element %.20q... of length %d is not contained", x, len(x))
		}
		for i := 0; i < 2000; i++ {
			if i%2 == 0 && i < 2*int(cap) {
				continue
			}
			tot++
			if f.ContainsString(fam.gen(i)) {
				fp++
			}
		}
	}
	rt.Tracef("New(%d, %v), %s: %d of %d absent elements contained", cap, p, fam.name, fp, tot)
	vh.Check(float64(fp) <= 1.7*p*float64(tot)+60, "rate", "New(%d, %v): %d of %d absent elements are reported as contained (contents differ by: %s)", cap, p, fp, tot, fam.name)
	rt.Transition(int64(tot))
}

func main() {
	vh.Main("C11", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "ops", Split: 3, Body: seqs(vh.D(2, 3))},
			{Name: "fill", Split: 3, Body: fill},
			{Name: "rate", Split: 2, Body: rate},
			{Name: "contents", Split: 2, Body: contents},
			{Name: "large", Split: 3, Body: large},
			{Name: "bytes", Body: bytesLong},
		}
	})
}
