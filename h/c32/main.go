// verif:rewrite help/utils tick,maps
package main

import (
	"strings"
	"unicode"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func text(max int, al []string) (string, []string) {
	var l []string
	for i := 0; i < max; i++ {
		k := rt.Choose(len(al) + 1)
		if k == len(al) {
			break
		}
		l = append(l, al[k])
	}
	return strings.Join(l, ""), l
}

func join(l []string) string { return strings.Join(l, "") }

// hidden checks that what the mask hides does not influence the result: replacing hidden characters changes nothing.
func hidden(name, got string, l []string, f func(string) string, from, to int) {
	for i := from; i < to && i < len(l); i++ {
		m := append([]string{}, l...)
		m[i] = "Z"
		if isDigit(l[i]) {
			m[i] = string('0' + (l[i][0]-'0'+3)%10)
		}
		vh.Check(f(join(m)) == got, "leak", "%s(%q) = %q depends on the hidden character %d", name, join(l), got, i)
	}
}

func isDigit(s string) bool { return len(s) == 1 && s[0] >= '0' && s[0] <= '9' }

func call(name string, f func(string) string, s string) (r string) {
	vh.Do(name, func() { r = f(s) })
	rt.Tracef("%s(%q) = %q", name, s, r)
	return
}

// names without '@', of every kind of character
func names(max int) func() {
	return func() {
		s, l := text(max, []string{"a", "中", "é", "1", "😀", " "})
		got := call("HideStar", utils.HideStar, s)
		n := len(l)
		want, from, to := "***", 0, n
		switch {
		case n <= 1:
		case n == 2:
			want, from, to = l[0]+"*", 1, 2
		case n == 3:
			want, from, to = l[0]+"*"+l[2], 1, 2
		case n == 4:
			want, from, to = l[0]+"**"+l[3], 1, 3
		default:
			want, from, to = l[0]+l[1]+"***"+l[n-2]+l[n-1], 2, n-2
		}
		vh.Check(got == want, "name", "HideStar(%q) = %q, want %q", s, got, want)
		hidden("HideStar", got, l, utils.HideStar, from, to)

		got = call("MaskCustomerName", utils.MaskCustomerName, s)
		want, from, to = "", 0, n
		switch {
		case n == 0:
		case n <= 4:
			want, from = l[0]+"***", 1
		default:
			want, from, to = l[0]+l[1]+"***"+l[n-2]+l[n-1], 2, n-2
		}
		vh.Check(got == want, "customer", "MaskCustomerName(%q) = %q, want %q", s, got, want)
		hidden("MaskCustomerName", got, l, utils.MaskCustomerName, from, to)
	}
}

// long names
func longNames() {
	n := 5 + rt.Choose(60)
	c := []string{"a", "中", "😀"}[rt.Choose(3)]
	l := make([]string, n)
	for i := range l {
		l[i] = []string{c, "b", "丙"}[i%3]
	}
	want := l[0] + l[1] + "***" + l[n-2] + l[n-1]
	for i, f := range []func(string) string{utils.HideStar, utils.MaskCustomerName} {
		got := call([]string{"HideStar", "MaskCustomerName"}[i], f, join(l))
		vh.Check(got == want, "name", "%d characters give %q, want %q", n, got, want)
	}
}

// mail addresses: at most three characters of the local part stay
func mails(max int) func() {
	return func() {
		_, l := text(max, []string{"a", "中", "é", ".", "1"})
		domain := []string{"x.com", "q", "公司.cn", ""}[rt.Choose(4)]
		s := join(l) + "@" + domain
		got := call("HideStar", utils.HideStar, s)
		want := "***@" + domain
		if len(l) >= 3 {
			want = join(l[:3]) + want
		}
		vh.Check(got == want, "mail", "HideStar(%q) = %q, want %q", s, got, want)
	}
}

// phone numbers: every digit at every place, and everything that only resembles a number
func phones() {
	base := strings.Split("13812345678", "")
	pos := rt.Choose(11)
	al := []string{"0", "1", "5", "9", "a", "中", " ", "-", "\n"}
	d := al[rt.Choose(len(al))]
	l := append([]string{}, base...)
	l[pos] = d
	switch rt.Choose(4) {
	case 1:
		l = append(l, "7")
	case 2:
		l = l[:10]
	case 3:
		l = append([]string{"8"}, l...)
	}
	phone := len(l) == 11 && l[0] == "1"
	for _, c := range l {
		phone = phone && isDigit(c)
	}
	got := call("HideStar", utils.HideStar, join(l))
	n := len(l)
	want, from, to := l[0]+l[1]+"***"+l[n-2]+l[n-1], 2, n-2
	if phone {
		want, from, to = join(l[:3])+"****"+join(l[7:]), 3, 7
	}
	vh.Check(got == want, "phone", "HideStar(%q) = %q, want %q", join(l), got, want)
	hidden("HideStar", got, l, utils.HideStar, from, to)
}

// numbers: the masked digits are stars, all others and the length stay
func numbers() {
	n := rt.Choose(31)
	mask := rt.Choose(20)
	which := rt.Choose(3)
	l := make([]string, n)
	for i := range l {
		l[i] = string(rune('0' + (i*7+3)%10))
	}
	// ... also with other characters: a last letter, wide digits, multi-byte characters at every place
	switch k := rt.Choose(4); {
	case n == 0:
	case k == 1:
		l[n-1] = "X"
	case k == 2:
		for i := range l {
			l[i] = []string{"１", "中", "😀", " ", "7", "é", "-"}[i%7]
		}
	case k == 3:
		l[rt.Choose(n)] = "中"
	}
	off, m := 4, mask
	var f func(string) string
	name := ""
	switch which {
	case 0:
		name, off = "MaskMobile", 3
		if n > 11 {
			off = 5
		}
		f = func(s string) string { return utils.MaskMobile(s, mask) }
	case 1:
		name = "MaskIDCard"
		f = func(s string) string { return utils.MaskIDCard(s, mask) }
	case 2:
		name = "MaskBackCard"
		if n > 16 {
			m += n - 16
		}
		f = func(s string) string { return utils.MaskBackCard(s, mask) }
	}
	want := join(l)
	got := call(name, f, join(l))
	if n > off+m {
		want = join(l[:off]) + strings.Repeat("*", m) + join(l[off+m:])
		hidden(name, got, l, f, off, off+m)
	}
	vh.Check(got == want, "number", "%s(%q, %d) = %q, want %q", name, join(l), mask, got, want)
}

// substrings by characters
func substr() {
	s, l := text(4, []string{"a", "中", "😀", "é"})
	i := rt.Choose(len(l) + 1)
	j := i + rt.Choose(len(l)+1-i)
	var got string
	vh.Do("Substr2", func() { got = utils.Substr2(s, i, j) })
	vh.Check(got == join(l[i:j]), "substr", "Substr2(%q, %d, %d) = %q", s, i, j, got)
}

// the first letter becomes upper case, the rest stays
func upper() {
	s, l := text(4, []string{"a", "A", "z", "é", "中", "1", " ", "ß", "я", "\xff", "{"})
	got := call("UpperFirst", utils.UpperFirst, s)
	want := s
	if len(l) > 0 && l[0] != "\xff" {
		want = string(unicode.ToUpper([]rune(l[0])[0])) + join(l[1:])
	}
	if len(l) > 0 && l[0] == "ß" && got == "SS"+join(l[1:]) {
		return
	}
	vh.Check(got == want, "upper", "UpperFirst(%q) = %q, want %q", s, got, want)
}

// every letter
func letters() {
	c := rune(rt.Choose(0x3000))
	s := string(c) + "rest" + string(c)
	got := call("UpperFirst", utils.UpperFirst, s)
	want := string(unicode.ToUpper(c)) + "rest" + string(c)
	if w := strings.ToUpper(string(c)) + "rest" + string(c); got == w {
		return
	}
	vh.Check(got == want, "upper", "UpperFirst(%q) = %q, want %q", s, got, want)
}

func main() {
	vh.Main("C32", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "names", Split: 2, Body: names(vh.D(7, 9))},
			{Name: "long-names", Split: 1, Body: longNames},
			{Name: "mails", Split: 2, Body: mails(vh.D(6, 8))},
			{Name: "phones", Split: 2, Body: phones},
			{Name: "numbers", Split: 2, Body: numbers},
			{Name: "substr", Split: 1, Body: substr},
			{Name: "upper", Split: 1, Body: upper},
			{Name: "letters", Split: 1, Body: letters},
		}
	})
}
