package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	cmath "github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
	"gorm.io/gorm"
)

// fam is one function with arguments that are hard to tell apart: they share beginnings, ends, lengths, low bits, sums,
// names. Whatever the function remembers of one call must not show in the next.
type fam struct {
	group, name string
	n           int
	run         func(i int) string
}

var fams []fam

func family(group, name string, n int, run func(i int) string) {
	fams = append(fams, fam{group, name, n, func(i int) (s string) {
		// arguments outside a function's domain may panic, but always in the same way
		if p, _ := rt.Call(50000000, func() { s = run(i) }); p {
			return "panic"
		}
		return s
	}})
}

func variants(s string) []string {
	r := []rune(s)
	n := len(r)
	rev := make([]rune, n)
	for i, c := range r {
		rev[n-1-i] = c
	}
	set := func(i int) string { x := append([]rune{}, r...); x[i]++; return string(x) }
	long := strings.Repeat(s, 300/len(s)+1)
	return []string{s, s + "1", "1" + s, string(r[:n-1]), set(n - 1), set(0), set(n / 2), s + s, string(rev), strings.ToUpper(s), "", long + "1", long + "2", "1" + long, "2" + long, long[:40] + "1" + long[40:], long[:40] + "2" + long[40:]}
}

func ftext(name, base string, f func(s string) interface{}) {
	v := variants(base)
	family("utils", name, len(v), func(i int) string { return fmt.Sprintf("%q", fmt.Sprint(f(v[i]))) })
}

func fdata(name, base string, f func(b []byte) interface{}) {
	v := variants(base)
	family("utils", name, len(v), func(i int) string {
		b := []byte(v[i])
		r := f(b)
		return fmt.Sprintf("%q of %q", fmt.Sprint(r), b)
	})
}

func fnums(name string, f func(n int64) interface{}) {
	v := []int64{0, 1, -1, 5, 1 << 32, 1<<32 + 5, 5 + 1<<16, 256, 1023, 1024, 1025, 1048576, 1500000, 1500001, -5, 1 << 40}
	family("utils", name, len(v), func(i int) string { return fmt.Sprint(f(v[i])) })
}

func init() {
	type I = interface{}
	ftext("Base64Encode", "hello world", func(s string) I { return utils.Base64Encode(s) })
	ftext("Base64DecodeToString", "aGVsbG8gd29ybGQh", func(s string) I { return utils.Base64DecodeToString(s) })
	ftext("Base64Decode", "aGVsbG8gd29ybGQh", func(s string) I { return utils.Base64Decode(s) })
	ftext("Base64DecodeToByte", "aGVsbG8gd29ybGQh", func(s string) I { return utils.Base64DecodeToByte(s) })
	fdata("Base64EncodeToByte", "hello world", func(b []byte) I { return utils.Base64EncodeToByte(b) })
	fdata("MD5V", "hello world", func(b []byte) I { return utils.MD5V(b) })
	family("utils", "MD5V prefix", 4, func(i int) string { return utils.MD5V([]byte("hello"), [][]byte{nil, {1}, {2}, {1, 2}}[i]...) })
	ftext("Md5", "hello world", func(s string) I { return utils.Md5(s) })
	ftext("Md5Crypt", "hello world", func(s string) I { return utils.Md5Crypt(s) })
	ftext("ComputeFileMD5", "hello world", func(s string) I { return utils.ComputeFileMD5(strings.NewReader(s)) })
	ftext("CheckMd5", "hello world", func(s string) I {
		return fmt.Sprint(utils.CheckMd5([]byte(s), "5eb63bbbe01eeed093cb22bb8f5acdc3"), utils.CheckMd5([]byte("hello world"), s))
	})
	var keys [][]byte
	for _, k := range variants("0123456789abcdef0123456789abcdef") {
		for _, l := range []int{16, 24, 32} {
			if len(k) >= l {
				keys = append(keys, []byte(k[:l]))
			}
		}
	}
	for i := range [4]int{} { // one beginning, one end
		k := []byte("the same beginning, the same end")
		k[16+i*4]++
		keys = append(keys, k)
	}
	family("utils", "Aes keys", len(keys), func(i int) string {
		k := append([]byte{}, keys[i]...)
		c, err := utils.AesEncrypt([]byte("a text to keep secret"), k)
		d, err2 := utils.AesDecrypt(c, k)
		return fmt.Sprintf("%x %v %q %v %x", c, err, d, err2, k)
	})
	fdata("Aes texts", "a text to keep secret", func(b []byte) I {
		k := []byte("0123456789abcdef")
		c, err := utils.AesEncrypt(b, k)
		d, err2 := utils.AesDecrypt(c, k)
		return fmt.Sprintf("%x %v %q %v", c, err, d, err2)
	})
	fdata("AesDecrypt", "0123456789abcdef0123456789abcdef", func(b []byte) I {
		d, err := utils.AesDecrypt(b, []byte("0123456789abcdef"))
		return fmt.Sprintf("%x %v", d, err)
	})
	for _, s := range []string{"photo.jpg", "photo.png.txt", "a.b.c"} {
		ftext("IsImage "+s, s, func(s string) I { return utils.IsImage(s) })
		ftext("GetSuffixName "+s, s, func(s string) I {
			return fmt.Sprint(utils.GetSuffixName(s, "."), utils.GetSuffixName(s, ""), utils.GetSuffixName("a.b-c", s))
		})
	}
	ftext("StringToInt", "1234", func(s string) I { return utils.StringToInt(s) })
	ftext("StringToInt64", "12345678901", func(s string) I { return utils.StringToInt64(s) })
	fnums("IntToString", func(n int64) I { return utils.IntToString(int(n)) })
	fnums("Int64ToString", func(n int64) I { return utils.Int64ToString(n) })
	fnums("FormatByte", func(n int64) I { return utils.FormatByte(int(n)) })
	fnums("FileSize", func(n int64) I {
		if n < 0 {
			n = -n
		}
		return utils.FileSize(n)
	})
	fnums("Round", func(n int64) I { return utils.Round(float64(n)/1000, 2) })
	family("utils", "Round digits", 8, func(i int) string {
		return fmt.Sprint(utils.Round([]float64{1.2345, -1.2345, 2.2345, 1.2346}[i/2], 1+i%2*2))
	})
	ftext("UpperFirst", "hello", func(s string) I { return utils.UpperFirst(s) })
	family("utils", "Substr2", 27, func(i int) string {
		return utils.Substr2([]string{"hello world", "hello earth", "日本語のテキスト"}[i/9], i%3, 3+i/3%3)
	})
	for _, s := range []string{"13812345678", "someone@example.com", "欧阳修", "a"} {
		ftext("HideStar "+s, s, func(s string) I { return utils.HideStar(s) })
		ftext("MaskCustomerName "+s, s, func(s string) I { return utils.MaskCustomerName(s) })
	}
	for n := 0; n < 2; n++ {
		n := n
		ftext(fmt.Sprint("MaskMobile ", n), "13812345678", func(s string) I { return utils.MaskMobile(s, 4+n) })
		ftext(fmt.Sprint("MaskIDCard ", n), "110101199003071234", func(s string) I { return utils.MaskIDCard(s, 8+n) })
		ftext(fmt.Sprint("MaskBackCard ", n), "6222021234567890123", func(s string) I { return utils.MaskBackCard(s, 8+n) })
	}
	family("utils", "masks", 33, func(i int) string {
		n := i % 11
		return []string{utils.MaskMobile("13812345678", n), utils.MaskIDCard("110101199003071234", n), utils.MaskBackCard("6222021234567890123", n)}[i/11]
	})
	for _, s := range []string{"/a/b", "a/../b", "//host/x", "/\\host"} {
		ftext("IsSameSiteURLPath "+s, s, func(s string) I { return utils.IsSameSiteURLPath(s) })
		ftext("IsMaliciousPath "+s, s, func(s string) I { return utils.IsMaliciousPath(s) })
	}
	for _, s := range []string{"plain text here", "GIF89a.........", "%PDF-1.4 and so on", "\x1aE\xdf\xa3....webm", "\x00\x01\x02"} {
		fdata(fmt.Sprintf("kinds %.4q", s), s, func(b []byte) I {
			return fmt.Sprint(utils.IsTextFile(b), utils.IsImageFile(b), utils.IsPDFFile(b), utils.IsVideoFile(b))
		})
	}
	urls := [][]I{{}, {"a", 1}, {"a", 2}, {"a", "1"}, {"a", 1, "b", 2}, {"b", 1}, {"a", 1, "b", 3}, {"a", "x", "b", "y"}, {"a", "x y"}}
	family("utils", "BuildUrl", 3*len(urls), func(i int) string {
		return utils.BuildUrl([]string{"shop", "shop/list", ""}[i/len(urls)], urls[i%len(urls)]...)
	})
	maps := []map[string]I{{}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": "1"}, {"a": 1, "b": 1}, {"a": []int{1}}, {"a": []int{2}}, {"a": map[string]int{"x": 1}}, {"a": nil}}
	family("utils", "MapToJsonString", len(maps), func(i int) string { return utils.MapToJsonString(maps[i]) + utils.Map2JsonString(maps[i]) })
	imaps := []map[string]int32{{}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 1}, {"a": 1, "b": 2}}
	family("utils", "MapIntToJsonString", len(imaps), func(i int) string { return utils.MapIntToJsonString(imaps[i]) })
	ftext("JsonStringToMap", `{"a":1,"b":2}`, func(s string) I {
		m := utils.JsonStringToMap(s)
		s = fmt.Sprint(m)
		if m != nil {
			m["changed"] = 5 // it is the caller's own
		}
		return s
	})
	family("utils", "switches", 8, func(i int) string {
		m := []map[string]bool{{}, {"a": true}, {"a": false}, {"b": true}}[i/2]
		k := []string{"a", "b"}[i%2]
		r := fmt.Sprint(utils.GetSwitchFromOptions(m, k))
		utils.SetSwitchFromOptions(m, "c", i%2 == 0)
		r += fmt.Sprint(m, utils.GetSwitchFromOptions(nil, k))
		delete(m, "c")
		return r
	})
	family("utils", "ShellExec", 4, func(i int) string {
		b, err := utils.ShellExec([]string{"echo one", "echo one; echo 2", "echo one >&2; exit 1", "echo two >&2; exit 1"}[i])
		if b == nil {
			return errs(err)
		}
		return fmt.Sprintf("%q %s", b.String(), errs(err))
	})

	// the same paths with other contents of one length and one time
	cont := []string{"content 1", "content 2", "1 content", "", "content 1 and more", "a,b\n", "c,d\n", "GIF89a...", "content\x001"}
	path := func(i int) string {
		os.RemoveAll("w")
		os.RemoveAll("fileDir")
		os.RemoveAll("breakpointDir")
		fsx.Put("w/f", cont[i%len(cont)])
		t := time.Unix(1600000000, 0)
		os.Chtimes("w/f", t, t)
		os.Chtimes("w", t, t)
		return "w/f"
	}
	ffile := func(name string, f func(p string, i int) I) {
		family("files", name, len(cont), func(i int) string { p := path(i); return fmt.Sprintf("%q", fmt.Sprint(f(p, i))) })
	}
	ffile("FileMd5", func(p string, i int) I { s, err := utils.FileMd5(p); return fmt.Sprint(s, errs(err)) })
	ffile("ImageFileToBase64", func(p string, i int) I { return utils.ImageFileToBase64(p) })
	ffile("ReadCsv", func(p string, i int) I {
		r := utils.ReadCsv(p)
		if r == nil {
			return "none"
		}
		return *r
	})
	ffile("WriteCsv", func(p string, i int) I {
		err := utils.WriteCsv("w/g", []string{cont[i], "x"})
		c, _ := fsx.Get("w/g")
		return c + errs(err)
	})
	ffile("CopyFile", func(p string, i int) I {
		n, err := utils.CopyFile("w/g", p)
		c, _ := fsx.Get("w/g")
		return fmt.Sprint(n, errs(err), c)
	})
	ffile("FileMove", func(p string, i int) I {
		err := utils.FileMove(p, "w/n/g")
		c, _ := fsx.Get("w/n/g")
		return fmt.Sprint(errs(err), c, utils.FileExist(p), utils.FileIsExisted("w/n/g"))
	})
	ffile("Zip", func(p string, i int) I {
		e1 := utils.ZipFiles("w/z.zip", []string{p}, "w/", "")
		l, e2 := utils.Unzip("w/z.zip", "w/out")
		c, _ := fsx.Get("w/out/f")
		return fmt.Sprint(e1, l, e2, c)
	})
	ffile("upload", func(p string, i int) I {
		_, e1 := utils.BreakPointContinue([]byte(cont[i]), "f", 0, 2, "id")
		_, e2 := utils.BreakPointContinue([]byte(cont[(i+1)%len(cont)]), "f", 1, 2, "id")
		p, e3 := utils.MakeFile("f", "id")
		c, _ := fsx.Get(p)
		return fmt.Sprint(errs(e1), errs(e2), errs(e3), c)
	})
	family("files", "kinds of paths", 8, func(i int) string {
		path(0)
		switch i {
		case 1:
			fsx.Put("w/x", "file")
		case 2:
			os.Mkdir("w/x", 0755)
		case 3:
			os.Symlink("f", "w/x")
		case 4:
			os.Symlink("nothing", "w/x")
		case 5:
			os.Symlink(".", "w/x")
		case 6:
			fsx.Put("w/x/y", "in a directory")
		case 7:
			fsx.Put("w/x", "")
		}
		e, err := utils.PathExists("w/x")
		s := fmt.Sprint(e, errs(err), utils.FileExist("w/x"), utils.IsDir("w/x"), utils.IsFile("w/x"), utils.FileIsExisted("w/x"))
		l, err := utils.ScanDir("w")
		s += fmt.Sprint(l, errs(err), errs(utils.CreateDir("w/x")), errs(utils.MkDir("w/x/z")), errs(utils.DeLFile("w/x")), utils.IsDir("w/x"))
		return s
	})

	// instances of other sizes
	bl := []struct {
		n int
		p float64
	}{{100, 0.01}, {100, 0.1}, {1000, 0.01}, {101, 0.01}, {100, 0.001}, {10, 0.5}, {128, 0.01}}
	family("types", "bloom", len(bl), func(i int) string {
		f := bloom.New(uint64(bl[i].n), bl[i].p)
		for j := 0; j < bl[i].n; j++ {
			f.AddString(fmt.Sprint("in", j))
		}
		bad, missing := 0, 0
		for j := 0; j < 3000; j++ {
			if f.ContainsString(fmt.Sprint("out", j)) {
				bad++
			}
		}
		for j := 0; j < bl[i].n; j++ {
			if !f.ContainsString(fmt.Sprint("in", j)) {
				missing++
			}
		}
		return fmt.Sprint(missing, float64(bad)/3000 < 2.5*bl[i].p+0.01)
	})
	caps := []uint64{1, 2, 3, 4, 5, 8, 16}
	family("types", "rings", len(caps), func(i int) string {
		a, b, c := fix.New[int](caps[i]), round.New[int](caps[i]), unbounded.New[int](caps[i])
		var r []I
		for k := 0; k < 40; k++ {
			if !a.Full() {
				a.Push(k)
			}
			if !b.Full() {
				b.Push(k)
			}
			c.Push(k)
			if k%5 == 4 {
				r = append(r, a.Pop(), b.Pop(), c.Pop(), a.Len(), b.Len(), c.Len())
			}
		}
		return fmt.Sprint(r)
	})
	family("types", "n-ary heap", 6, func(i int) string {
		h := heap.NewN[int](i+2, less)
		for k := 0; k < 40; k++ {
			h.Push(k * 17 % 41)
		}
		h.Remove(5)
		var r []int
		for !h.Empty() {
			r = append(r, h.Pop())
		}
		return fmt.Sprint(r)
	})
	family("types", "limiters", 12, func(i int) string {
		rt.IdleUntil((rt.Now()/int64(time.Hour) + 1) * int64(time.Hour))
		n, w := 1+i%3, []time.Duration{time.Second, 1500 * time.Millisecond}[i/3%2]
		d := []time.Duration{100 * time.Millisecond, 250 * time.Millisecond}[i/6]
		a := fixed_window.NewFixedWindowLimiter(n, w)
		b := leaky_bucket.NewLeakyBucketLimiter(n+2, n)
		c := token_bucket.NewTokenBucketLimiter(n+2, n)
		s, _ := sliding_window.NewSlidingWindowLimiter(n, w, d)
		l, _ := sliding_log.NewSlidingLogLimiter(d, sliding_log.NewSlidingLogLimiterStrategy(n, w), sliding_log.NewSlidingLogLimiterStrategy(n*3, time.Minute))
		r := ""
		for k := 0; k < 30; k++ {
			r += fmt.Sprint(a.TryAcquire(), b.TryAcquire(), c.TryAcquire(), s.TryAcquire(), l.TryAcquire() == nil, " ")
			rt.IdleUntil(rt.Now()/int64(time.Second)*int64(time.Second) + int64(time.Second) + int64(k%4)*int64(130*time.Millisecond))
		}
		return r
	})
	family("types", "wheels", 6, func(i int) string {
		w := timingwheel.New([]int64{1, 10, 100}[i%3], int64(2+i/3*18))
		var t []*timingwheel.Timer
		for k := 1; k < 20; k++ {
			t = append(t, w.AfterFunc(time.Duration(k*k*k)*time.Second, func() {}))
		}
		r := ""
		for _, x := range t {
			r += fmt.Sprint(x.Stop(), x.Stop())
		}
		return r
	})
	fnums("math", func(n int64) I {
		u := uint(n) & (1<<41 - 1)
		if u == 0 {
			u = 7
		}
		a, b := cmath.Split(u, 3)
		return []I{a, b, cmath.Max(n, 3), cmath.Min(n, 3), cmath.Abs(n), cmath.Log2(u), cmath.IsPowOf2(u), cmath.RoundUpPowOf2(u), cmath.RoundDownPowOf2(u), cmath.FindLastBitSet(u)}
	})

	// one table, records of other shapes (types of one name too)
	sql := func(name string, n int, f func(i int, db *gorm.DB) string) {
		family("gorm", name, n, func(i int) string {
			st := sqlx.NewStore()
			sqlx.Use(st)
			if store != nil { // of the other scenarios
				defer sqlx.Use(store)
			}
			tb := st.Add("items", sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n", Kind: sqlx.Int}, sqlx.Col{Name: "m", Kind: sqlx.Int})
			for k := 1; k < 5; k++ {
				tb.Put(k, fmt.Sprint("row", k), k*10, k)
			}
			r := f(i, famDB())
			b, _ := json.Marshal(st.Tables["items"].Rows)
			return r + " " + string(b)
		})
	}
	records := [][]I{}
	{
		type rec struct {
			Id   int64  `json:"id"`
			Name string `json:"name"`
			N    int64  `json:"n"`
		}
		records = append(records, []I{rec{11, "a", 1}, rec{12, "b", 2}}, []I{rec{11, "a", 2}, rec{12, "c", 2}}, []I{rec{11, "a", 1}})
	}
	{
		type rec struct {
			Id int64 `json:"id"`
			M  int64 `json:"m"`
			N  int64 `json:"n"`
		}
		records = append(records, []I{rec{11, 3, 1}, rec{12, 4, 2}}, []I{rec{21, 3, 1}})
	}
	{
		type rec struct {
			Id   int64  `json:"id"`
			Name string `json:"name,omitempty"`
			N    int64  `json:"n,omitempty"`
		}
		records = append(records, []I{rec{11, "a", 1}, rec{12, "b", 2}}, []I{rec{11, "a", 0}, rec{12, "c", 0}}, []I{rec{11, "", 1}, rec{12, "", 2}})
	}
	records = append(records, []I{map[string]I{"id": 11, "n": 1}, map[string]I{"id": 12, "n": 2}}, []I{map[string]I{"id": 11, "m": 1}, map[string]I{"id": 12, "m": 2}})
	sql("BatchInsert", len(records), func(i int, db *gorm.DB) string { return errs(gt.BatchInsertTableRecords(db, "items", records[i]...)) })
	sql("SplitInsert", len(records), func(i int, db *gorm.DB) string { return errs(gt.SplitInsertTableRecords(db, "items", records[i]...)) })
	ups := []map[string]I{{"n": 1}, {"n": 2}, {"m": 1}, {"name": "x"}, {"n": 1, "m": 1}, {"n": 1, "m": 2}, {"n": nil}}
	sql("SplitUpdate", 3*len(ups), func(i int, db *gorm.DB) string {
		u := ups[i%len(ups)]
		m := []map[int64]map[string]I{{1: u, 2: u}, {2: u, 3: u}, {1: u, 2: ups[0]}}[i/len(ups)]
		if i%2 == 0 {
			return errs(gt.BatchUpdateTableFieldWithoutVersionByID(db, "items", m))
		}
		return errs(gt.SplitUpdateTableFieldWithoutVersionByID(db, "items", m))
	})
	wheres := []map[string]I{{"n": 10}, {"n": 20}, {"m": 1}, {"name": "row1"}, {"n": 10, "m": 1}, {"n": []int{10, 20}}, {"n": nil}}
	sql("Update", len(ups)+len(wheres)+4, func(i int, db *gorm.DB) string {
		switch {
		case i < len(ups):
			return errs(gt.UpdateByTableNameAndId("items", 1, ups[i], db))
		case i < len(ups)+len(wheres):
			return errs(gt.UpdateByTableNameAndWhere("items", wheres[i-len(ups)], map[string]I{"name": "w"}, db))
		}
		ids := [][]int64{{1}, {2}, {1, 2}, {2, 3}}[i-len(ups)-len(wheres)]
		return errs(gt.UpdateByTableNameAndIds("items", ids, map[string]I{"m": 77}, db))
	})
	sql("Del and insert", 8, func(i int, db *gorm.DB) string {
		if i < 4 {
			return errs(gt.DelByTableNameAndId("items", [][]int64{{1}, {2}, {1, 2}, {3, 2, 1}}[i], db))
		}
		return errs(gt.InsertToTable("items", []map[string]I{{"id": 11, "n": 1}, {"id": 11, "n": 2}, {"id": 11, "m": 1}, {"id": 12, "name": "x", "n": 3}}[i-4], db))
	})
}

var famdb *gorm.DB

func famDB() *gorm.DB {
	if famdb == nil {
		famdb = sqlx.Gorm(&gorm.Config{})
	}
	return famdb
}

func famAlone(f *fam, i int) string { return aloneKey(fmt.Sprintf("=%s.%s/%d", f.group, f.name, i)) }

// similar: one function, two calls with arguments that are hard to tell apart, and the first once more
func similar(group string) func() {
	var l []*fam
	for i := range fams {
		if f := &fams[i]; f.group == group {
			l = append(l, f)
		}
	}
	return func() {
		f := l[rt.Choose(len(l))]
		i, j := rt.Choose(f.n), rt.Choose(f.n)
		wi, wj := famAlone(f, i), famAlone(f, j)
		fsx.Fresh()
		rt.Simulate(rt.Config{Horizon: 1000000}, func() {
			for k, x := range []int{i, j, i} {
				want := wi
				if k == 1 {
					want = wj
				}
				var got string
				rt.Transition(1)
				got = f.run(x)
				rt.Tracef("%s, arguments %d", f.name, x)
				vh.Check(got == want, "similar:"+f.name, "%s.%s (arguments %d) gives %.300q after calls with similar arguments, on its own in a fresh process %.300q", f.group, f.name, x, got, want)
			}
		})
	}
}
