// verif:rewrite help/utils tick,conc,rand,maps
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/rand"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const digits, lower, upper = "0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func alphabet(kind int) string {
	switch kind {
	case 0:
		return digits
	case 1:
		return lower
	case 2:
		return upper
	}
	return digits + lower + upper
}

var drew int64

// source explores every outcome of the random draws of f: odo is the odometer over the draws of fresh stream
// positions; draws of a position already seen repeat their value, as a reseeded generator does.
func source(f func()) {
	type at struct {
		s   rand.Stream
		pos int
	}
	var odo []uint64
	var lim []uint64
	for {
		memo := map[at]uint64{}
		i := 0
		rand.Restart(-1)
		rand.Hook = func(s rand.Stream, pos int, n uint64) uint64 {
			drew++
			if n == 0 {
				n = 1560 // a multiple of 3, 10, 26: every residue
			}
			k := at{s, pos}
			if v, ok := memo[k]; ok {
				return v % n
			}
			if i == len(odo) {
				odo, lim = append(odo, 0), append(lim, 0)
			}
			lim[i] = n
			v := odo[i]
			i++
			memo[k] = v
			return v
		}
		f()
		rand.Hook = nil
		odo, lim = odo[:i], lim[:i]
		for i--; i >= 0; i-- {
			odo[i]++
			if odo[i] < lim[i] {
				break
			}
			odo[i] = 0
		}
		if i < 0 {
			return
		}
		odo, lim = odo[:i+1], lim[:i+1]
	}
}

func rnd(size, kind int) string {
	var s string
	vh.Do("RandStr", func() { s = utils.RandStr(size, kind) })
	vh.Check(len(s) == size, "length", "RandStr(%d, %d) = %q", size, kind, s)
	for _, c := range s {
		vh.Check(strings.ContainsRune(alphabet(kind), c), "alphabet", "RandStr(%d, %d) = %q", size, kind, s)
	}
	return s
}

// every outcome of short strings: exactly the words of the alphabet
func outcomes() {
	kind := []int{0, 1, 2, 3, -1, 9}[rt.Choose(6)]
	size := rt.Choose(3)
	if size == 2 && kind != 0 && kind != 1 && kind != 2 {
		rt.Prune()
	}
	rt.SetClock(5)
	set := map[string]int{}
	drew = 0
	source(func() { set[rnd(size, kind)]++ })
	rt.Tracef("RandStr(%d, %d): %d outcomes", size, kind, len(set))
	if drew == 0 && size > 0 {
		return // another source of randomness: only length and alphabet are decided
	}
	want := 1
	for i := 0; i < size; i++ {
		want *= len(alphabet(kind))
	}
	vh.Check(len(set) == want, "outcomes", "RandStr(%d, %d) can give %d of %d words", size, kind, len(set), want)
}

// calls at one instant do not depend on each other: every pair of results can occur
func pairs() {
	kind := rt.Choose(3)
	rt.SetClock(5)
	set := map[string]int{}
	drew = 0
	source(func() { set[rnd(1, kind)+" "+rnd(1, kind)]++ })
	if drew == 0 {
		return
	}
	want := len(alphabet(kind)) * len(alphabet(kind))
	vh.Check(len(set) == want, "same-instant", "two calls at the same instant can give only %d of %d pairs of results", len(set), want)
}

// positions of long strings: with all draws but one fixed, and that one going through all its values, every position
// shows every character of its kind, and no two positions always agree
func long() {
	kind := []int{0, 1, 2, 3, -1}[rt.Choose(5)]
	size := []int{33, 64, 65, 130, 257, 520}[rt.Choose(vh.D(4, 6))]
	rt.SetClock(5)
	var at, draws int
	var val, lim uint64
	run := func() string {
		i := 0
		rand.Restart(-1)
		rand.Hook = func(s rand.Stream, pos int, n uint64) uint64 {
			v := uint64(0)
			if i == at {
				v, lim = val, n
			}
			i++
			if n == 0 {
				if i-1 == at {
					lim = 1560
				}
				return v * 0x9e3779b97f4a7c15 >> 1 // spread over all bits
			}
			return v % n
		}
		s := rnd(size, kind)
		rand.Hook = nil
		draws = i
		return s
	}
	at = -1
	first := run()
	if draws == 0 {
		return // another source of randomness: only length and alphabet are decided
	}
	seen := make([]map[byte]bool, size)
	class := make([]int, size) // positions that have agreed so far
	for i := range seen {
		seen[i] = map[byte]bool{}
	}
	split := func(s string) {
		type key struct {
			c int
			b byte
		}
		m := map[key]int{}
		for i := range class {
			k := key{class[i], s[i]}
			if _, ok := m[k]; !ok {
				m[k] = len(m)
			}
			class[i] = m[k]
			seen[i][s[i]] = true
		}
	}
	split(first)
	n := draws
	for at = 0; at < n; at++ {
		lim = 1
		for val = 0; val < lim; val++ {
			split(run())
			rt.Transition(1)
		}
	}
	rt.Tracef("RandStr(%d, %d) with each of %d draws varied", size, kind, n)
	last := map[int]int{}
	for i, c := range class {
		j, ok := last[c]
		vh.Check(!ok, "positions", "the characters at %d and %d of a random string of %d (kind %d) are always equal", j, i, size, kind)
		last[c] = i
		if kind >= 0 && kind < 3 {
			vh.Check(len(seen[i]) == len(alphabet(kind)), "position", "position %d of a random string of %d (kind %d) shows only %d characters", i, size, kind, len(seen[i]))
		}
	}
}

func lengths() {
	kind := rt.Choose(9) - 3
	b := rt.Choose(16)
	for i := 0; i < 64; i++ {
		rt.AdvanceClock(1)
		rnd(b*64+i, kind)
	}
}

// ---- JSON ----

var jkeys = []string{"", "a", "A", "q\"uo'te\\", "<&>", "漢\u2028", "nul\x00\n", "a.b"}
var jints = []int32{0, 1, -1, math.MaxInt32, math.MinInt32, 1000000}

func roundtrip() {
	m := map[string]int32{}
	n := rt.Choose(4)
	for i := 0; i < n; i++ {
		m[jkeys[rt.Choose(len(jkeys))]] = jints[rt.Choose(len(jints))]
	}
	if n == 0 && rt.Choose(2) == 1 {
		m = nil
	}
	keep := fmt.Sprint(m)
	var s, s2 string
	var back map[string]int32
	vh.Do("MapIntToJsonString", func() { s = utils.MapIntToJsonString(m); s2 = utils.Map2JsonString(m); back = utils.JsonStringToMap(s) })
	rt.Tracef("%v -> %s", m, s)
	vh.Check(fmt.Sprint(m) == keep, "argument", "the map was changed")
	vh.Check(json.Valid([]byte(s)) && s == s2, "json", "%v is written %s and %s", m, s, s2)
	vh.Check(len(back) == len(m) && fmt.Sprint(back) == keep, "round-trip", "%v is read back as %v", m, back)
}

var jvals = []interface{}{nil, true, false, "", "te\"xt<>", 1.5, -2.0, "漢", []interface{}{}, []interface{}{1.0, "x", nil}, map[string]interface{}{}, map[string]interface{}{"k": []interface{}{true}}}

func anymaps() {
	m := map[string]interface{}{}
	for i := 0; i < 3; i++ {
		k := rt.Choose(len(jvals) + 1)
		if k == 0 {
			continue
		}
		m[jkeys[(i*3+k)%len(jkeys)]] = jvals[k-1]
	}
	var s, s2 string
	vh.Do("MapToJsonString", func() { s, s2 = utils.MapToJsonString(m), utils.Map2JsonString(m) })
	var back map[string]interface{}
	err := json.Unmarshal([]byte(s), &back)
	vh.Check(err == nil && s == s2, "json", "%v is written %s and %s", m, s, s2)
	vh.Check(fmt.Sprintf("%#v", back) == fmt.Sprintf("%#v", m), "round-trip", "%#v is written %s", m, s)
	vh.Do("Map2JsonString", func() { s = utils.Map2JsonString([]interface{}{m, "x"}) })
	vh.Check(s == "["+s2+`,"x"]`, "json", "the list of %s is written %s", s2, s)
}

// texts: an object of 32 bit numbers is read, anything that is no JSON gives nothing
func texts() {
	al := []string{"{", "}", `"a"`, `"b"`, ":", ",", "1", "-", "2147483647", "null", " ", "x"}
	s := ""
	for i := 0; i < vh.D(6, 7); i++ {
		k := rt.Choose(len(al) + 1)
		if k == 0 {
			break
		}
		s += al[k-1]
	}
	var got map[string]int32
	vh.Do("JsonStringToMap", func() { got = utils.JsonStringToMap(s) })
	if !json.Valid([]byte(s)) {
		vh.Check(len(got) == 0, "no-json", "%q is read as %v", s, got)
		return
	}
	var ref map[string]json.Number
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&ref) != nil {
		return
	}
	want := map[string]int32{}
	for k, v := range ref {
		if v == "" {
			v = "0"
		}
		n, err := v.Int64()
		if err != nil || n != int64(int32(n)) {
			return
		}
		want[k] = int32(n)
	}
	vh.Check(fmt.Sprint(got) == fmt.Sprint(want), "read", "%q is read as %v, want %v", s, got, want)
}

// ---- switches ----

func switches() {
	ks := []string{"a", "b", ""}
	m := map[string]bool{}
	ref := map[string]bool{}
	if rt.Choose(2) == 1 {
		m["a"], ref["a"] = false, false
	}
	for i := 0; i < vh.D(5, 6); i++ {
		k := ks[rt.Choose(3)]
		v := rt.Choose(2) == 1
		vh.Do("SetSwitchFromOptions", func() { utils.SetSwitchFromOptions(m, k, v) })
		ref[k] = v
		rt.Tracef("set %q %v", k, v)
		for _, q := range append(ks, "never") {
			var g bool
			vh.Do("GetSwitchFromOptions", func() { g = utils.GetSwitchFromOptions(m, q) })
			w, ok := ref[q]
			vh.Check(g == (w || !ok), "switch", "the switch %q reads %v after %v", q, g, ref)
		}
		vh.Check(len(m) == len(ref), "switches", "the options are %v, want %v", m, ref)
	}
	for _, q := range ks {
		vh.Do("GetSwitchFromOptions", func() {
			vh.Check(utils.GetSwitchFromOptions(nil, q), "default", "a switch without options reads off")
			utils.SetSwitchFromOptions(nil, q, false)
		})
	}
}

func main() {
	vh.Main("C38", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "outcomes", Split: 2, Body: outcomes},
			{Name: "pairs", Split: 1, Body: pairs},
			{Name: "long", Split: 2, Body: long},
			{Name: "lengths", Split: 2, Body: lengths},
			{Name: "roundtrip", Split: 2, Body: roundtrip},
			{Name: "anymaps", Split: 2, Body: anymaps},
			{Name: "texts", Split: 2, Body: texts},
			{Name: "switches", Split: 3, Body: switches},
		}
	})
}
