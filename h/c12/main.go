// verif:rewrite common/hash tick,maps
package main

import (
	"fmt"

	"github.com/ahKevinXy/go-web-tools/common/hash"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// inputs of the sequences
func inputs() []string {
	l := []string{"", "\x00", "\x00\x00", "a", "b", "ab", "ba", "abc", "日本"}
	long := ""
	for i := 0; i < 300; i++ {
		long += string(rune('a' + i%26))
	}
	return append(l, long[:127], long[:128], long[:129], long)
}

// the value of an input never depends on the history of the hasher
func history(depth int) func() {
	return func() {
		in := inputs()
		h := hash.New()
		ref := map[string]uint64{}
		vh.Steps(depth, nil, func(int) {
			s := in[rt.Choose(len(in))]
			var v uint64
			if rt.Choose(2) == 0 {
				b := []byte(s)
				vh.Do("Sum64", func() { v = h.Sum64(b) })
				vh.Check(string(b) == s, "arg", "Sum64 changed its argument")
				rt.Tracef("Sum64(%.20q)", s)
			} else {
				vh.Do("Sum64String", func() { v = h.Sum64String(s) })
				rt.Tracef("Sum64String(%.20q)", s)
			}
			if w, ok := ref[s]; ok {
				vh.Check(v == w, "deterministic", "the hash of %.30q changed", s)
			}
			ref[s] = v
		})
		seen := map[uint64]string{}
		for s, v := range ref {
			if o, ok := seen[v]; ok {
				rt.Fail("collision", "%.30q and %.30q have one hash", o, s)
			}
			seen[v] = s
		}
	}
}

// the reverse order of the same calls gives the same values
func order() {
	in := inputs()
	p := rt.Perm(4)
	off := rt.Choose(len(in) - 3)
	h := hash.New()
	a := map[string]uint64{}
	for i := off; i < off+4; i++ {
		a[in[i]] = h.Sum64String(in[i])
	}
	for _, i := range p {
		s := in[off+i]
		vh.Check(h.Sum64([]byte(s)) == a[s], "deterministic", "the hash of %.30q depends on the order of calls", s)
	}
	rt.Transition(8)
}

// every byte position and the length matter
func discriminate() {
	n := rt.Choose(vh.D(300, 700))
	h := hash.New()
	b := make([]byte, n)
	seen := map[uint64]string{}
	put := func(what string, v uint64) {
		if o, ok := seen[v]; ok {
			rt.Fail("collision", "length %d: %s and %s have one hash", n, o, what)
		}
		seen[v] = what
	}
	put("zeros", h.Sum64(b))
	for i := 0; i < n; i++ {
		for _, x := range []byte{1, 0x20, 0x80} {
			b[i] = x
			put(fmt.Sprintf("byte %d = %d", i, x), h.Sum64(b))
			b[i] = 0
		}
	}
	for k := 0; k < n; k++ {
		put(fmt.Sprintf("length %d", k), h.Sum64(b[:k]))
	}
	rt.Tracef("length %d: %d distinct hashes", n, len(seen))
	rt.Transition(int64(5 * n))
}

// all short strings
func short() {
	a := byte(rt.Choose(256))
	h := hash.New()
	seen := map[uint64]bool{}
	for x := 0; x < 256; x++ {
		v := h.Sum64([]byte{a, byte(x)})
		vh.Check(!seen[v], "collision", "two 2-byte inputs have one hash")
		seen[v] = true
		vh.Check(h.Sum64String(string([]byte{a, byte(x)})) == v, "string", "Sum64String differs from Sum64")
	}
	rt.Transition(512)
}

// large inputs: a byte in every part, near every power of two and at both ends matters, and so does the length
func large() {
	k := 9 + rt.Choose(vh.D(13, 16))
	n := 1<<k - 1 + rt.Choose(3)
	h := hash.New()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	at := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n {
			at[i] = true
		}
	}
	for j := 0; j <= 64; j++ {
		add(n * j / 64)
		add(j)
		add(n - 1 - j)
	}
	for j := 1; j <= n; j *= 2 {
		for d := -1; d <= 1; d++ {
			add(j + d)
			add(n - 1 - j + d)
		}
	}
	w := h.Sum64(b)
	seen := map[uint64]int{w: -1}
	for i := 0; i < n; i++ {
		if !at[i] {
			continue
		}
		b[i] ^= 0x10
		v := h.Sum64(b)
		b[i] ^= 0x10
		if o, ok := seen[v]; ok {
			rt.Fail("collision", "length %d: changing byte %d or %d gives one hash", n, o, i)
		}
		seen[v] = i
	}
	vh.Check(h.Sum64String(string(b)) == w && h.Sum64(b) == w, "string", "length %d: the hash changed or Sum64String differs", n)
	for _, m := range []int{n - 1, n / 2, n/2 + 1, n - 64, n - 128} {
		if m >= 0 && m < n {
			_, ok := seen[h.Sum64(b[:m])]
			vh.Check(!ok, "collision", "prefixes of a text of length %d share hashes", n)
		}
	}
	rt.Tracef("length %d: %d positions", n, len(at))
	rt.Transition(int64(len(at)))
}

// pairs: inputs of every two lengths one after the other, in both forms
func pairs() {
	lens := []int{200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65536}
	for i := 0; i < 140; i++ {
		lens = append(lens, i)
	}
	a := lens[rt.Choose(len(lens))]
	h := hash.New()
	in := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(n + i*5)
		}
		return string(b)
	}
	ref := map[int]uint64{}
	for _, n := range lens {
		ref[n] = h.Sum64([]byte(in(n)))
	}
	seen := map[uint64]int{}
	for _, n := range lens {
		o, ok := seen[ref[n]]
		vh.Check(!ok, "collision", "inputs of length %d and %d have one hash", o, n)
		seen[ref[n]] = n
	}
	x := in(a)
	for _, n := range lens {
		y := in(n)
		for k := 0; k < 4; k++ {
			var v, w uint64
			if k&1 == 0 {
				v = h.Sum64([]byte(x))
			} else {
				v = h.Sum64String(x)
			}
			if k&2 == 0 {
				w = h.Sum64([]byte(y))
			} else {
				w = h.Sum64String(y)
			}
			vh.Check(v == ref[a], "deterministic", "the hash of an input of length %d changed (form %d)", a, k)
			vh.Check(w == ref[n], "deterministic", "the hash of an input of length %d changed after one of length %d (form %d)", n, a, k)
		}
	}
	rt.Tracef("length %d", a)
	rt.Transition(int64(8 * len(lens)))
}

func main() {
	vh.Main("C12", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "history", Split: 2, Body: history(vh.D(3, 4))},
			{Name: "order", Split: 1, Body: order},
			{Name: "discriminate", Split: 1, Body: discriminate},
			{Name: "large", Split: 1, Body: large},
			{Name: "pairs", Split: 1, Body: pairs},
			{Name: "short", Split: 1, Body: short},
		}
	})
}
