// verif:rewrite help/utils tick,conc,maps
package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

var units = []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}

// sizes near every power of two and 1024, and dense small ones
func size(k, j int) int64 {
	if k == 0 {
		return int64(j)
	}
	var v int64 = 1 << uint(k)
	d := []int64{0, 1, -1, 7, -7, v / 10, v / 3, v / 2, v/20 - 1, -v / 30, v * 49 / 100, v / 100, v / 200, v / 1000}
	v += d[j%len(d)]
	if v < 0 {
		v = math.MaxInt64
	}
	return v
}

// sized checks a human readable size.
func sized(name, s string, v int64, top int, floor bool) {
	f := strings.Fields(s)
	vh.Check(len(f) == 2, "form", "%s(%d) = %q", name, v, s)
	u := -1
	for i, x := range units[:top+1] {
		if x == f[1] {
			u = i
		}
	}
	vh.Check(u >= 0, "unit", "%s(%d) = %q", name, v, s)
	num, err := strconv.ParseFloat(f[0], 64)
	vh.Check(err == nil, "form", "%s(%d) = %q", name, v, s)
	dec := 0
	if i := strings.Index(f[0], "."); i >= 0 {
		dec = len(f[0]) - i - 1
	}
	one := math.Pow(1024, float64(u))
	tol := 0.5000001*math.Pow10(-dec)*one + float64(v)*1e-14
	vh.Check(math.Abs(num*one-float64(v)) <= tol, "value", "%s(%d) = %q, which is %.0f", name, v, s, num*one)
	// the unit is the largest that does not exceed the size (on the boundary, either)
	vh.Check(u == 0 || float64(v) >= one*(1-1e-12), "unit", "%s(%d) = %q uses too large a unit", name, v, s)
	vh.Check(u == top || float64(v) <= one*1024*(1+1e-12), "unit", "%s(%d) = %q uses too small a unit", name, v, s)
}

func sizes() {
	k := rt.Choose(63)
	n := 14
	if k == 0 {
		n = 5000
	}
	v := size(k, rt.Choose(n))
	var s string
	vh.Do("FileSize", func() { s = utils.FileSize(v) })
	sized("FileSize", s, v, 6, true)
	if v < 10 {
		vh.Eq("bytes", s, fmt.Sprintf("%d B", v))
	}
	p := int64(1)
	for i := 1; i <= 6; i++ {
		p *= 1024
		if v == p {
			vh.Eq("boundary", s, "1.0 "+units[i])
		}
	}
	vh.Do("FormatByte", func() { s = utils.FormatByte(int(v)) })
	sized("FormatByte", s, v, 5, false)
	if i := strings.Index(s, "."); i < 0 || len(strings.Fields(s)[0])-i-1 != 2 {
		rt.Fail("form", "FormatByte(%d) = %q has not two decimals", v, s)
	}
}

// every integer of 18 bits and all boundaries survive
func ints() {
	var v int64
	switch rt.Choose(2) {
	case 0:
		b := int64(rt.Choose(2048)) * 128
		for i := int64(0); i < 128; i++ {
			integer(b + i)
			integer(-b - i)
		}
		return
	case 1:
		v = 1 << uint(rt.Choose(64))
		for i := int64(-20); i <= 20; i++ {
			integer(v + i)
			integer(-v + i)
		}
		p := int64(1)
		for i := 0; i < 19; i++ {
			integer(p)
			integer(p - 1)
			integer(1 - p)
			integer(-p)
			p *= 10
		}
	}
}

func integer(v int64) {
	rt.Transition(4)
	want := big.NewInt(v).String()
	var a, b string
	var c int
	var d int64
	p, msg := rt.Call(1000000, func() {
		a, b = utils.IntToString(int(v)), utils.Int64ToString(v)
		c, d = utils.StringToInt(want), utils.StringToInt64(want)
	})
	vh.Check(!p, "panic", "%s", msg)
	vh.Check(a == want && b == want, "format", "%s is written %q and %q", want, a, b)
	vh.Check(int64(c) == v && d == v, "parse", "%s is read as %d and %d", want, c, d)
}

// short texts: a decimal number or zero
func texts() {
	al := "019-+ .a_x٣"
	r := []rune(al)
	s := ""
	for i := 0; i < 5; i++ {
		k := rt.Choose(len(r) + 1)
		if k == len(r) {
			break
		}
		s += string(r[k])
	}
	want := int64(0)
	t := s
	neg := false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		neg = t[0] == '-'
		t = t[1:]
	}
	ok := t != ""
	for _, c := range t {
		if c < '0' || c > '9' {
			ok = false
			break
		}
		want = want*10 + int64(c-'0')
	}
	if !ok {
		want = 0
	} else if neg {
		want = -want
	}
	var c int
	var d int64
	vh.Do("StringToInt", func() { c, d = utils.StringToInt(s), utils.StringToInt64(s) })
	vh.Check(int64(c) == want && d == want, "parse", "%q is read as %d and %d, want %d", s, c, d, want)
}

// rounding to the nearest multiple of a power of ten
func rounds() {
	n := rt.Choose(7)
	b := rt.Choose(400)
	p := math.Pow10(n)
	last := math.Inf(-1)
	for i := 0; i < 60; i++ {
		for _, sc := range []float64{1} {
			f := (float64(b*60+i) - 12000) / 16 / p * 2 * sc // multiples of an eighth of the last place
			got := 0.0
			vh.Do("Round", func() { got = utils.Round(f, n) })
			checkRound(f, n, got)
			vh.Check(got >= last, "monotone", "Round(%v, %d) = %v is below the value of a smaller number", f, n, got)
			last = got
			neg := utils.Round(-f, n)
			vh.Check(neg == -got, "symmetric", "Round(%v, %d) = %v, Round of the negative is %v", f, n, got, neg)
			again := utils.Round(got, n)
			vh.Check(again == got, "idempotent", "Round(%v, %d) = %v, rounded again %v", f, n, got, again)
		}
	}
}

func checkRound(f float64, n int, got float64) {
	p := math.Pow10(n)
	eps := 1e-9 / p
	if e := math.Abs(f) * 1e-13; e > eps {
		eps = e
	}
	vh.Check(math.Abs(got-f) <= 0.5/p+eps, "nearest", "Round(%v, %d) = %v is not the nearest", f, n, got)
	k := math.Round(got * p)
	vh.Check(math.Abs(k/p-got) <= math.Abs(got)*1e-15, "multiple", "Round(%v, %d) = %v has more places", f, n, got)
}

// numbers of every size: at most the resolution of float64 is lost, and numbers without further places stay
func extremes() {
	e := rt.Choose(2098) - 1074
	for n := 0; n <= 320; n += []int{1, 17}[(n+20)/30%2] {
		p := math.Pow10(n)
		last := 0.0
		for _, m := range []float64{1, 1 + 1.0/(1<<52), 1.1, 1.25, 1.5, 1.7, 1.9375, 2 - 1.0/(1<<52)} {
			f := math.Ldexp(m, e)
			if math.IsInf(f, 0) {
				continue
			}
			got := 0.0
			vh.Do("Round", func() { got = utils.Round(f, n) })
			vh.Check(math.Abs(got-f) <= 0.5/p+f/(1<<51), "nearest", "Round(%v, %d) = %v is not the nearest", f, n, got)
			vh.Check(got >= last, "monotone", "Round(%v, %d) = %v is below the value of a smaller number", f, n, got)
			last = got
			neg := utils.Round(-f, n)
			vh.Check(neg == -got, "symmetric", "Round(%v, %d) = %v, Round of the negative is %v", f, n, got, neg)
			if f*p >= 1<<53 || f == math.Trunc(f) && n == 0 {
				vh.Check(got == f, "exact", "Round(%v, %d) = %v", f, n, got)
			}
			if f*p < 1<<49 && n < 300 {
				vh.Check(math.Abs(got-f) <= 0.5/p*(1+1e-9)+f/(1<<50), "nearest", "Round(%v, %d) = %v is not the nearest", f, n, got)
				again := utils.Round(got, n)
				vh.Check(again == got, "idempotent", "Round(%v, %d) = %v, rounded again %v", f, n, got, again)
				k := math.Round(got * p)
				vh.Check(math.Abs(k/p-got) <= got/(1<<50), "multiple", "Round(%v, %d) = %v has more places", f, n, got)
			}
		}
	}
	rt.Transition(600)
}

// values with given decimal digits, halves included, at several magnitudes
func decimals() {
	n := rt.Choose(5)
	ip := []int64{0, 1, 2, 9, 10, 99, 100, 12345, 999999999}[rt.Choose(9)]
	fr := rt.Choose(1000)
	s := fmt.Sprintf("%d.%03d", ip, fr)
	f, _ := strconv.ParseFloat(s, 64)
	for _, g := range []float64{f, -f} {
		got := 0.0
		vh.Do("Round", func() { got = utils.Round(g, n) })
		checkRound(g, n, got)
		if n >= 3 {
			vh.Check(got == g, "exact", "Round(%v, %d) = %v", g, n, got)
		}
	}
}

// the directory of every day of 30 years, at the first and last instant of the day and around it, in several zones
func days() {
	y := 2015 + rt.Choose(30)
	zone := []*time.Location{time.FixedZone("UTC", 0), time.FixedZone("east", 8*3600), time.FixedZone("far east", 14*3600), time.FixedZone("west", -(9*3600 + 1800))}[rt.Choose(4)]
	_ = time.Now().String() // the local zone is read from the system once
	*time.Local = *zone
	defer func() { *time.Local = *time.FixedZone("UTC", 0) }()
	start := time.Date(y, 1, 1, 0, 0, 0, 0, zone)
	for d := start; d.Year() == y; d = d.AddDate(0, 0, 1) {
		for _, off := range []time.Duration{0, time.Second, 8*time.Hour - 1, 8 * time.Hour, 12 * time.Hour, 16 * time.Hour, 24*time.Hour - 1} {
			t := d.Add(off)
			rt.SetClock(t.UnixNano() - rt.BaseTime)
			var got string
			vh.Do("GetTimeDir", func() { got = utils.GetTimeDir() })
			want := fmt.Sprintf("%04d/%02d/%02d", d.Year(), int(d.Month()), d.Day())
			vh.Check(got == want, "time-dir", "GetTimeDir at %v in the zone %v = %q", t, zone, got)
		}
	}
}

func main() {
	vh.Main("C36", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "sizes", Split: 2, Body: sizes},
			{Name: "ints", Split: 2, Body: ints},
			{Name: "texts", Split: 2, Body: texts},
			{Name: "rounds", Split: 2, Body: rounds},
			{Name: "extremes", Split: 1, Body: extremes},
			{Name: "decimals", Split: 2, Body: decimals},
			{Name: "days", Split: 1, Body: days},
		}
	})
}
