// verif:rewrite help/utils tick,maps
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// word picks a string of up to n letters of al (the split choices come first).
func word(al []string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		k := rt.Choose(len(al) + 1)
		if k == 0 {
			break
		}
		s += al[k-1]
	}
	return s
}

// offsite resolves ref as a browser does (WHATWG URL, special scheme, base http://site/dir/page) and tells whether
// the result is at another host or scheme.
func offsite(ref string) bool {
	var b []byte
	t := strings.TrimFunc(ref, func(r rune) bool { return r <= ' ' })
	for i := 0; i < len(t); i++ {
		if c := t[i]; c != '\t' && c != '\n' && c != '\r' {
			b = append(b, c)
		}
	}
	t = string(b)
	// a scheme?
	for i := 0; i < len(t); i++ {
		c := t[i]
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if i > 0 && c == ':' {
			s := strings.ToLower(t[:i])
			if s == "http" { // the base's scheme: slashes decide
				rest := t[i+1:]
				return len(rest) >= 2 && slash(rest[0]) && slash(rest[1])
			}
			return true
		}
		if !(al || i > 0 && (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.')) {
			break
		}
	}
	return len(t) >= 2 && slash(t[0]) && slash(t[1])
}

func slash(c byte) bool { return c == '/' || c == '\\' }

func sites() {
	s := word([]string{"/", "\\", "\t", "\n", "\r", "a", ":", ".", "@", " ", "?", "#", "http:", "\x00"}, vh.D(5, 6))
	var got bool
	vh.Do("IsSameSiteURLPath", func() { got = utils.IsSameSiteURLPath(s) })
	rt.Tracef("IsSameSiteURLPath(%q) = %v", s, got)
	vh.Check(!got || s[0] == '/', "not-a-path", "%q is taken for a path of the site", s)
	vh.Check(!got || !offsite(s), "offsite", "%q is taken for a path of this site but a browser takes it elsewhere", s)
	plain := len(s) >= 2 && s[0] == '/' && s[1] != '/' && s[1] != '\\' && !strings.ContainsAny(s, "\t\r\n\x00\\ ")
	vh.Check(got || !plain, "refused", "the site path %q is refused", s)
}

func paths() {
	s := word([]string{"/", ".", "..", "a", "\\", "b", " "}, vh.D(6, 7))
	var got bool
	vh.Do("IsMaliciousPath", func() { got = utils.IsMaliciousPath(s) })
	rt.Tracef("IsMaliciousPath(%q) = %v", s, got)
	if !got {
		root := "/srv/root/dir"
		j := filepath.Join(root, s)
		vh.Check(j == root || strings.HasPrefix(j, root+"/"), "escape", "%q is accepted but leads to %s", s, j)
		vh.Check(!strings.HasPrefix(s, "/"), "absolute", "the absolute path %q is accepted", s)
		// a later user may take backslashes for separators
		for _, e := range strings.FieldsFunc(s, func(r rune) bool { return r == '/' || r == '\\' }) {
			vh.Check(e != "..", "escape", "%q is accepted but has a .. element", s)
		}
	} else {
		vh.Check(strings.HasPrefix(s, "/") || strings.Contains(s, ".."), "refused", "the harmless path %q is refused", s)
	}
}

func suffixes() {
	seg := []string{".", "/", "ab", "漢"}[rt.Choose(4)]
	s := word([]string{".", "/", "a", "b", "漢"}, vh.D(7, 8))
	want := ""
	if i := strings.LastIndex(s, seg); i >= 0 {
		want = s[i+len(seg):]
	}
	var got string
	vh.Do("GetSuffixName", func() { got = utils.GetSuffixName(s, seg) })
	vh.Check(got == want, "suffix", "GetSuffixName(%q, %q) = %q, want %q", s, seg, got, want)
}

func images() {
	exts := []string{"jpeg", "jpg", "gif", "png", "bmp", "tif", "tiff"}
	others := []string{"txt", "jp", "jpgg", "svg", "webp", "exe", "php", "html", "", "gif2", "pn", "tifff", "jpg;", "ｊｐｇ", "jpg\x00"}
	all := append(append([]string{}, exts...), others...)
	k := rt.Choose(len(all))
	e := all[k]
	// every case pattern
	m := rt.Choose(1 << uint(min(len(e), 4)))
	b := []byte(e)
	for i := range b {
		if i < 4 && m&(1<<uint(i)) != 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	stem := []string{"a", "", "a.b", "dir.jpg/a", "a.png", "漢字", "/x/y z", "..", "a.exe"}[rt.Choose(9)]
	p := stem + "." + string(b)
	var got bool
	vh.Do("IsImage", func() { got = utils.IsImage(p) })
	vh.Check(got == (k < len(exts)), "image", "IsImage(%q) = %v", p, got)
	q := p + []string{".txt", ".exe", "/file.txt", ".jpg.php"}[rt.Choose(4)]
	vh.Do("IsImage", func() { got = utils.IsImage(q) })
	vh.Check(!got, "image", "IsImage(%q) = %v", q, got)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type sig struct {
	b    string
	kind string
}

var sigs = []sig{
	{"GIF87a", "image"}, {"GIF89a", "image"}, {"\x89PNG\r\n\x1a\n", "image"}, {"\xff\xd8\xff", "image"}, {"BM", "image"}, {"\x00\x00\x01\x00", "image"}, {"\x00\x00\x02\x00", "image"}, {"RIFF\x10\x20\x30\x40WEBPVP", "image"},
	{"%PDF-", "pdf"}, {"\x1a\x45\xdf\xa3", "video"}, {"RIFF\x10\x20\x30\x40AVI ", "video"}, {"\x00\x00\x00\x14ftypmp42\x00\x00\x00\x00mp42", "video"}, {"\x00\x00\x00\x14ftypqt  \x00\x00\x00\x00mp41", "video"},
	{"PK\x03\x04", "other"}, {"\x1f\x8b\x08", "other"}, {"ID3", "other"}, {"OggS\x00", "other"}, {"RIFF\x10\x20\x30\x40WAVE", "other"}, {"%!PS-Adobe-", "other"}, {"\x7fELF\x02\x01\x01\x00", "other"},
	{"<!DOCTYPE HTML>", "text"}, {"<html>", "text"}, {"<?xml version=", "text"}, {"\xef\xbb\xbfhello", "text"}, {"\xfe\xff\x00a", "text"}, {"\xff\xfea\x00", "text"}, {"hello", "text"}, {"PDF-1.4", "text"}, {"GIF", "text"}, {" %PDF-", "text"}, {"漢字", "text"},
}

func classify(what string, d []byte, kind string) {
	keep := string(d)
	var tx, im, pd, vi bool
	vh.Do("IsTextFile", func() { tx = utils.IsTextFile(d) })
	vh.Do("IsImageFile", func() { im = utils.IsImageFile(d) })
	vh.Do("IsPDFFile", func() { pd = utils.IsPDFFile(d) })
	vh.Do("IsVideoFile", func() { vi = utils.IsVideoFile(d) })
	vh.Check(tx == (kind == "text") && im == (kind == "image") && pd == (kind == "pdf") && vi == (kind == "video"), "content", "%s %.40q is classified text=%v image=%v pdf=%v video=%v, it is %s", what, keep, tx, im, pd, vi, kind)
	vh.Check(string(d) == keep, "argument", "the data was changed")
}

func contents() {
	s := sigs[rt.Choose(len(sigs))]
	d := []byte(s.b)
	switch t := rt.Choose(5); t {
	case 1:
		d = append(d, []byte(strings.Repeat("x", 600))...)
	case 2:
		if s.kind == "text" {
			rt.Prune()
		}
		d = append(d, []byte(strings.Repeat("\x00\x01", 600))...)
	case 3: // only the start decides
		d = append(d, []byte(strings.Repeat(" ", 1000)+"GIF89a%PDF-\x00\x00")...)
	case 4:
		d = append(d, " <html> text/plain image/png video/mp4 application/pdf"...)
	}
	classify("data", d, s.kind)
}

// all data of up to two bytes, each also in the middle of a text
func bytes2() {
	a := rt.Choose(256)
	bin := func(c int) bool { return c <= 8 || c == 0xb || c >= 0xe && c <= 0x1a || c >= 0x1c && c <= 0x1f }
	kind := func(b bool) string {
		if b {
			return "other"
		}
		return "text"
	}
	if a == 0 {
		classify("no", nil, "text")
		classify("empty", []byte{}, "text")
	}
	classify("byte", []byte{byte(a)}, kind(bin(a)))
	classify("text", []byte("some text "+string([]byte{byte(a)})+" more"), kind(bin(a)))
	for b := 0; b < 256; b++ {
		k := kind(bin(a) || bin(b))
		if a == 0xfe && b == 0xff || a == 0xff && b == 0xfe {
			k = "text" // byte order mark
		}
		if a == 'B' && b == 'M' {
			k = "image"
		}
		classify("bytes", []byte{byte(a), byte(b)}, k)
	}
}

var prefixes = []string{"list", "/list", "list/", "/a/b/", "//list//", "漢", "", "/"}
var pkeys = []interface{}{"id", "", "k2", 7, "a-b"}
var pvals = []interface{}{1, "x", 0, "0", int64(5), true, 2.5, "00", uint8(0), "", "a/b"}

func links() {
	p := prefixes[rt.Choose(len(prefixes))]
	n := rt.Choose(vh.D(4, 4))
	want := strings.Trim(p, "/")
	if want != "" {
		want = "/" + want
	}
	var in []interface{}
	for i := 0; i < n; i++ {
		k, v := pkeys[rt.Choose(len(pkeys))], pvals[rt.Choose(len(pvals))]
		in = append(in, k, v)
		if fmt.Sprint(k) != "" && fmt.Sprint(v) != "0" {
			want += "/" + fmt.Sprint(k) + "/" + fmt.Sprint(v)
		}
	}
	if rt.Choose(2) == 1 {
		in = append(in, "odd")
	}
	want = strings.TrimRight(want, "/") // an empty last value leaves no slash behind
	keep := fmt.Sprint(in...)
	var got string
	vh.Do("BuildUrl", func() { got = utils.BuildUrl(p, in...) })
	rt.Tracef("BuildUrl(%q, %v) = %q", p, in, got)
	vh.Check(keep == fmt.Sprint(in...), "argument", "the parameters were changed")
	if want == "" {
		vh.Check(got == "" || got == "/", "link", "BuildUrl(%q, %v) = %q", p, in, got)
		return
	}
	vh.Check(got == want, "link", "BuildUrl(%q, %v) = %q, want %q", p, in, got, want)
}

// long strings and many parameters: the same decisions whatever stands before the part that matters
func long() {
	n := []int{8, 9, 16, 17, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1024, 4096, 5000}[rt.Choose(17)]
	unit := []string{"a", "a.", "a/", "漢"}[rt.Choose(4)]
	stem := strings.Repeat(unit, n)
	for _, e := range []string{"", ".", ".png", ".PNG", ".txt", ".png.txt", ".txt.png", "/x.gif", ".png/x"} {
		s := stem + e
		for _, seg := range []string{".", "/", "png", "漢"} {
			want := ""
			if i := strings.LastIndex(s, seg); i >= 0 {
				want = s[i+len(seg):]
			}
			got := utils.GetSuffixName(s, seg)
			vh.Check(got == want, "suffix", "GetSuffixName of %d bytes ending in %q by %q = %.50q", len(s), e, seg, got)
		}
		img := e == ".png" || e == ".PNG" || e == ".txt.png" || e == "/x.gif" || e == "png"
		got := utils.IsImage(s)
		vh.Check(got == img, "image", "IsImage of %d bytes ending in %q = %v", len(s), e, got)
	}
	for _, e := range []string{"", "/b", "/..", "/../b", "..", "\\..", "/.", "/...b"} {
		s := stem + e
		got := utils.IsMaliciousPath(s)
		bad := strings.Contains(e, "/..") && e != "/...b" || e == "\\.." || e == ".." && strings.HasSuffix(unit, "/")
		vh.Check(got || !bad, "escape", "a path of %d bytes ending in %q is accepted", len(s), e)
		vh.Check(!got || strings.Contains(s, ".."), "refused", "a harmless path of %d bytes ending in %q is refused", len(s), e)
		vh.Check(utils.IsMaliciousPath("/"+s), "absolute", "an absolute path of %d bytes is accepted", len(s)+1)
	}
	vh.Check(utils.IsSameSiteURLPath("/"+stem), "refused", "a site path of %d bytes is refused", len(stem)+1)
	for _, e := range []string{"//", "/\\", "", "/\t/", "\\/", "http://"} {
		vh.Check(!utils.IsSameSiteURLPath(e+stem), "offsite", "%q and %d bytes are taken for a path of this site", e, len(stem))
	}
	var in []interface{}
	want := "/p"
	for i := 0; i < n; i++ {
		in = append(in, fmt.Sprint("k", i), i)
		if i != 0 {
			want += fmt.Sprintf("/k%d/%d", i, i)
		}
	}
	got := utils.BuildUrl("p", in...)
	vh.Check(got == want, "link", "BuildUrl with %d pairs = %.100q", n, got)
	rt.Transition(70)
}

func dirs() {
	old := os.Args[0]
	defer func() { os.Args[0] = old }()
	cwd, _ := os.Getwd()
	c := [][2]string{{"/opt/app/bin/prog", "/opt/app/bin"}, {"/prog", "/"}, {"prog", cwd}, {"./prog", cwd}, {"sub/prog", cwd + "/sub"}, {"/a/../b/prog", "/b"}, {"/a/b\\c/prog", "/a/b/c"}, {"", cwd}}[rt.Choose(8)]
	os.Args[0] = c[0]
	var got string
	vh.Do("GetCurrentDir", func() { got = utils.GetCurrentDir() })
	vh.Check(got == strings.ReplaceAll(c[1], "\\", "/"), "current-dir", "the directory of %q is given as %q, want %q", c[0], got, c[1])
}

func main() {
	vh.Main("C37", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "sites", Split: 2, Body: sites},
			{Name: "paths", Split: 2, Body: paths},
			{Name: "suffixes", Split: 2, Body: suffixes},
			{Name: "images", Split: 2, Body: images},
			{Name: "contents", Split: 1, Body: contents},
			{Name: "bytes", Split: 1, Body: bytes2},
			{Name: "links", Split: 3, Body: links},
			{Name: "long", Split: 1, Body: long},
			{Name: "dirs", Split: 1, Body: dirs},
		}
	})
}
