// verif:rewrite common/math tick,maps
package main

import (
	stdmath "math"
	"math/big"

	"github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func bitlen(x uint64) int {
	n := 0
	for x > 0 {
		n++
		x >>= 1
	}
	return n
}

func floorlog(x uint64) int { return bitlen(x) - 1 }

type unsigned interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint
}

func unary[T unsigned](name string, w int, x T) {
	var f int
	var p bool
	vh.Do("FindLastBitSet", func() { f = math.FindLastBitSet(x); p = math.IsPowOf2(x) })
	vh.Check(f == bitlen(uint64(x)), "findlastbit", "FindLastBitSet[%s](%d) = %d", name, x, f)
	isp := x != 0 && uint64(x) == 1<<uint(floorlog(uint64(x)))
	vh.Check(p == isp, "ispow2", "IsPowOf2[%s](%d) = %v", name, x, p)
	if x == 0 {
		return
	}
	var d, u T
	vh.Do("RoundDownPowOf2", func() { d = math.RoundDownPowOf2(x) })
	vh.Check(uint64(d) == 1<<uint(floorlog(uint64(x))), "rounddown", "RoundDownPowOf2[%s](%d) = %d", name, x, d)
	if uint64(x) <= 1<<uint(w-1) {
		vh.Do("RoundUpPowOf2", func() { u = math.RoundUpPowOf2(x) })
		want := uint64(1)
		for want < uint64(x) {
			want <<= 1
		}
		vh.Check(uint64(u) == want, "roundup", "RoundUpPowOf2[%s](%d) = %d, want %d", name, x, u, want)
	}
	if x > 0 {
		var l T
		vh.Do("Log2", func() { l = math.Log2(x) })
		vh.Check(uint64(l) == uint64(floorlog(uint64(x))), "log2", "Log2[%s](%d) = %d", name, x, l)
	}
}

func small16() {
	hi := rt.Choose(256)
	for lo := 0; lo < 256; lo++ {
		x := uint16(hi<<8 | lo)
		unary("uint16", 16, x)
		unary("uint32", 32, uint32(x))
		unary("uint64", 64, uint64(x))
		unary("uint", 64, uint(x))
		if hi == 0 {
			unary("uint8", 8, uint8(x))
		}
	}
}

func edges64() []uint64 {
	var l []uint64
	for k := uint(0); k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			l = append(l, uint64(int64(1)<<k+d))
		}
		l = append(l, 1<<k|1<<(k/2), 3<<k, 5<<k/2)
	}
	return append(l, 1<<64-1, 1<<64-2)
}

func wide() {
	l := edges64()
	x := l[rt.Choose(len(l))]
	rt.Tracef("x=%#x", x)
	unary("uint64", 64, x)
	unary("uint", 64, uint(x))
	unary("uint32", 32, uint32(x))
	unary("uint32", 32, uint32(x>>32))
	signed("int64", int64(x))
	signed("int", int(x))
	signed("int32", int32(x>>32))
	signed("int16", int16(x>>48))
	signed("int8", int8(x>>56))
}

func signed[T ~int8 | ~int16 | ~int32 | ~int64 | ~int](name string, x T) {
	if x <= 0 {
		return
	}
	var l T
	vh.Do("Log2", func() { l = math.Log2(x) })
	vh.Check(int64(l) == int64(floorlog(uint64(x))), "log2", "Log2[%s](%d) = %d", name, x, l)
}

func pairs8() {
	a := int8(rt.Choose(256))
	for i := 0; i < 256; i++ {
		b := int8(i)
		mx, mn := a, b
		if int(b) > int(a) {
			mx, mn = b, a
		}
		vh.Check(math.Max(a, b) == mx, "max", "Max(%d,%d) = %d", a, b, math.Max(a, b))
		vh.Check(math.Min(a, b) == mn, "min", "Min(%d,%d) = %d", a, b, math.Min(a, b))
		vh.Check(math.Max(uint8(a), uint8(b)) >= uint8(a) && math.Min(uint8(a), uint8(b)) <= uint8(b), "minmax", "unsigned Max/Min(%d,%d)", uint8(a), uint8(b))
	}
	if a != -128 {
		v := math.Abs(a)
		vh.Check(v >= 0 && (v == a || v == -a), "abs", "Abs(%d) = %d", a, v)
	}
	rt.Transition(1024)
}

func values() {
	fs := []float64{0, 1, -1, 0.5, -0.5, 1e300, -1e300, stdmath.MaxFloat64, -stdmath.MaxFloat64, stdmath.SmallestNonzeroFloat64, -stdmath.SmallestNonzeroFloat64, stdmath.Inf(1), stdmath.Inf(-1)}
	ss := []string{"", "a", "b", "A", "aa", "日"}
	is := []int64{0, 1, -1, 2, stdmath.MaxInt64, stdmath.MinInt64, stdmath.MinInt64 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1)}
	us := []uint64{0, 1, 2, 1<<64 - 1, 1 << 63, 1<<63 - 1, 1<<53 + 1, 1 << 53}
	for _, a := range fs {
		vh.Check(math.Abs(a) == stdmath.Abs(a), "abs", "Abs(%v) = %v", a, math.Abs(a))
		for _, b := range fs {
			vh.Check(math.Max(a, b) == stdmath.Max(a, b), "max", "Max(%v,%v)", a, b)
			vh.Check(math.Min(a, b) == stdmath.Min(a, b), "min", "Min(%v,%v)", a, b)
		}
	}
	for _, a := range ss {
		for _, b := range ss {
			x, y := math.Max(a, b), math.Min(a, b)
			vh.Check((x == a && y == b || x == b && y == a) && x >= y, "max", "Max/Min(%q,%q) = %q,%q", a, b, x, y)
		}
	}
	for _, a := range is {
		if a != stdmath.MinInt64 {
			v := math.Abs(a)
			vh.Check(v >= 0 && (v == a || v == -a), "abs", "Abs(%d) = %d", a, v)
		}
		for _, b := range is {
			x, y := math.Max(a, b), math.Min(a, b)
			vh.Check((x == a && y == b || x == b && y == a) && x >= y, "max", "Max/Min(%d,%d) = %d,%d", a, b, x, y)
		}
	}
	for _, a := range us {
		for _, b := range us {
			x, y := math.Max(a, b), math.Min(a, b)
			vh.Check((x == a && y == b || x == b && y == a) && x >= y, "max", "Max/Min(%d,%d) = %d,%d", a, b, x, y)
		}
	}
	for _, f := range []float64{1, 2, 4, 0.5, 0.25, 1024, 1 << 40, 1e-3, 3, 10} {
		vh.Check(stdmath.Abs(math.Log2(f)-stdmath.Log(f)/stdmath.Ln2) < 1e-9, "log2", "Log2(%v) = %v", f, math.Log2(f))
	}
	for i := 1; i < 1<<12; i++ {
		vh.Check(math.Log2(i) == floorlog(uint64(i)) && math.Log2(int32(i)) == int32(floorlog(uint64(i))), "log2", "Log2(%d) = %d", i, math.Log2(i))
	}
	rt.Transition(int64(len(fs)*len(fs) + 4096))
}

func split1(n, m uint) {
	var per, last uint
	vh.Do("Split", func() { per, last = math.Split(n, m) })
	if n == 0 {
		vh.Check(per == 0 && last == 0, "split-zero", "Split(0,%d) = %d,%d", m, per, last)
		return
	}
	bn, bm, bp, bl := new(big.Int).SetUint64(uint64(n)), new(big.Int).SetUint64(uint64(m)), new(big.Int).SetUint64(uint64(per)), new(big.Int).SetUint64(uint64(last))
	vh.Check(per > 0 && last >= 1 && last <= per, "split", "Split(%d,%d) = %d,%d", n, m, per, last)
	// the smallest part size with which m parts hold n
	x := new(big.Int).Mul(bp, bm)
	vh.Check(x.Cmp(bn) >= 0, "split", "Split(%d,%d): %d parts of %d do not hold %d", n, m, m, per, n)
	x.Mul(new(big.Int).Sub(bp, big.NewInt(1)), bm)
	vh.Check(x.Cmp(bn) < 0, "split", "Split(%d,%d): part size %d is larger than needed", n, m, per)
	// full parts plus the last one make n
	x.Sub(bn, bl)
	x.Mod(x, bp)
	vh.Check(x.Sign() == 0, "split", "Split(%d,%d) = %d,%d: the parts do not add up", n, m, per, last)
}

func split() {
	n := uint(rt.Choose(300))
	for m := uint(1); m <= 310; m++ {
		split1(n, m)
	}
}

func splitWide() {
	l := edges64()
	n := uint(l[rt.Choose(len(l))])
	for _, m := range l {
		if m > 0 {
			split1(n, uint(m))
		}
	}
	rt.Tracef("n=%d", n)
}

func main() {
	vh.Main("C13", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "unary16", Split: 1, Body: small16},
			{Name: "unary64", Split: 1, Body: wide},
			{Name: "pairs8", Split: 1, Body: pairs8},
			{Name: "values", Body: values},
			{Name: "split", Split: 1, Body: split},
			{Name: "split-wide", Split: 1, Body: splitWide},
		}
	})
}
