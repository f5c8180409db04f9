package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/hash"
	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	cmath "github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/context"
	"gorm.io/gorm"
)

type any_ = interface{}

func pick(slot int, a, b any_) any_ {
	if slot == 0 {
		return a
	}
	return b
}

// text registers a function of a string that gives something to print.
func text(name, a, b string, f func(string) any_) {
	reg("utils", name, func(s int) any_ { return pick(s, a, b) }, func(s int, x any_) func() string {
		r := f(x.(string))
		return func() string { return fmt.Sprintf("%q", fmt.Sprint(r)) }
	})
}

// data registers a function of bytes; the result and the argument are looked at again later.
func data(name, a, b string, f func([]byte) any_) {
	reg("utils", name, func(s int) any_ { return []byte(pick(s, a, b).(string)) }, func(s int, x any_) func() string {
		r := f(x.([]byte))
		return func() string { return fmt.Sprintf("%q of %q", fmt.Sprint(r), x) }
	})
}

type src struct{ less func(a, b int) bool }

func less(a, b int) bool { return a < b }

// life registers the life of an instance: f uses numbers that differ between slots.
func life(name string, f func(n []int) []any_) {
	reg("types", name, func(s int) any_ {
		return pick(s, []int{5, 3, 9, 1, 7, 3}, []int{2, 8, 6, 4, 8, 0})
	}, func(s int, x any_) func() string {
		r := f(x.([]int))
		return func() string { return fmt.Sprint(r, " of ", x) }
	})
}

// place is the directory of an op in a slot; concurrent calls of one op with the same arguments make the same files.
func place(name string, slot int) string { return fmt.Sprintf("%s-%d", name, slot) }

// files registers a function that works on files below its own directory.
func files(name string, prepare func(dir string, slot int), f func(dir string, slot int) any_) {
	ops = append(ops, op{group: "files", name: "files." + name, own: true, mk: func(s int) any_ {
		d := place(name, s)
		os.RemoveAll(d)
		os.MkdirAll(d, 0o755)
		if prepare != nil {
			prepare(d, s)
		}
		return d
	}, run: func(s int, x any_) func() string {
		r := f(x.(string), s)
		return func() string { return fmt.Sprint(r) + "\n" + fsx.State(x.(string)) }
	}})
}

func errs(err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return "ok"
}

func init() {
	// help/utils: functions of their arguments
	text("Base64Encode", "hello", "wörld!!", func(s string) any_ { return utils.Base64Encode(s) })
	text("Base64DecodeToString", "aGVsbG8=", "d8O2cmxkISE=", func(s string) any_ { return utils.Base64DecodeToString(s) })
	text("Base64Decode", "aGVsbG8=", "d8O2cmxkISE=", func(s string) any_ { return utils.Base64Decode(s) })
	text("Base64DecodeToByte", "aGVsbG8=", "d8O2cmxkISE=", func(s string) any_ { return utils.Base64DecodeToByte(s) })
	data("Base64EncodeToByte", "hello", "\x00\xff\xfe", func(b []byte) any_ { return utils.Base64EncodeToByte(b) })
	data("MD5V", "hello", "other content", func(b []byte) any_ { return utils.MD5V(b) })
	data("MD5V-prefix", "hello", "other content", func(b []byte) any_ { return utils.MD5V(b[1:], b[0]) })
	data("CheckMd5", "hello", "other content", func(b []byte) any_ {
		return fmt.Sprint(utils.CheckMd5(b, "5d41402abc4b2a76b9719d911017c592"), utils.CheckMd5(b, "7d793037a0760186574b0282f2f435e7"))
	})
	text("Md5", "hello", "other content", func(s string) any_ { return utils.Md5(s) })
	text("Md5Crypt", "hello", "other content", func(s string) any_ { return utils.Md5Crypt(s) })
	text("ComputeFileMD5", "hello", "other content", func(s string) any_ { return utils.ComputeFileMD5(strings.NewReader(s)) })
	data("AesEncrypt", "some text", "quite another, longer text", func(b []byte) any_ {
		r, err := utils.AesEncrypt(b, []byte("0123456789abcdef"))
		return fmt.Sprint(r, errs(err))
	})
	data("Aes", "some text", "quite another, longer text", func(b []byte) any_ {
		k := []byte("0123456789abcdef"[:16])
		if len(b) > 20 {
			k = []byte("fedcba9876543210fedcba98")
		}
		c, err := utils.AesEncrypt(b, k)
		d, err2 := utils.AesDecrypt(c, k)
		return lazy{func() string { return fmt.Sprintf("%x %q %v %v %q", c, d, err, err2, k) }}
	})
	text("IsImage", "a.JPG", "b.txt", func(s string) any_ { return utils.IsImage(s) })
	text("GetSuffixName", "a.b.JPG", "b.txt", func(s string) any_ { return utils.GetSuffixName(s, ".") })
	text("StringToInt", "42", "-17", func(s string) any_ { return utils.StringToInt(s) })
	text("StringToInt64", "4200000000000", "-17", func(s string) any_ { return utils.StringToInt64(s) })
	text("IntToString", "42", "-170", func(s string) any_ { return utils.IntToString(len(s) * 1000003) })
	text("Int64ToString", "42", "-170", func(s string) any_ { return utils.Int64ToString(int64(len(s)) * 1000000000003) })
	text("Substr2", "hello world", "日本語のテキスト", func(s string) any_ { return utils.Substr2(s, 1, 5) })
	text("UpperFirst", "hello", "world", func(s string) any_ { return utils.UpperFirst(s) })
	text("HideStar", "13812345678", "someone@example.com", func(s string) any_ { return utils.HideStar(s) })
	text("HideStar-name", "欧阳修", "阿卜杜拉", func(s string) any_ { return utils.HideStar(s) })
	text("MaskMobile", "13812345678", "13987654321", func(s string) any_ { return utils.MaskMobile(s, 4) })
	text("MaskCustomerName", "欧阳修", "李白", func(s string) any_ { return utils.MaskCustomerName(s) })
	text("MaskIDCard", "110101199003071234", "330101198812129876", func(s string) any_ { return utils.MaskIDCard(s, 8) })
	text("MaskBackCard", "6222021234567890123", "6217001234567890", func(s string) any_ { return utils.MaskBackCard(s, 9) })
	text("FormatByte", "x", "yyy", func(s string) any_ { return utils.FormatByte(len(s) * 123456789) })
	text("FileSize", "x", "yyy", func(s string) any_ { return utils.FileSize(int64(len(s)) * 123456789) })
	text("Round", "x", "yyy", func(s string) any_ { return utils.Round(float64(len(s))*1.23456, 2) })
	text("IsSameSiteURLPath", "/a", "//a", func(s string) any_ { return utils.IsSameSiteURLPath(s) })
	text("IsMaliciousPath", "a/b", "../b", func(s string) any_ { return utils.IsMaliciousPath(s) })
	data("IsTextFile", "plain text", "\x00\x01\x02", func(b []byte) any_ { return utils.IsTextFile(b) })
	data("IsImageFile", "GIF89a.....", "%PDF-1.4", func(b []byte) any_ { return utils.IsImageFile(b) })
	data("IsPDFFile", "GIF89a.....", "%PDF-1.4", func(b []byte) any_ { return utils.IsPDFFile(b) })
	data("IsVideoFile", "\x1aE\xdf\xa3....", "%PDF-1.4", func(b []byte) any_ { return utils.IsVideoFile(b) })
	reg("utils", "BuildUrl", func(s int) any_ { return pick(s, []any_{"a", 1, "b", 0, "c", "x"}, []any_{"k", "v"}) }, func(s int, x any_) func() string {
		l := x.([]any_)
		r := utils.BuildUrl([]string{"shop/list", ""}[s], l...)
		return func() string { return fmt.Sprint(r, l) }
	})
	reg("utils", "MapToJsonString", func(s int) any_ {
		return pick(s, map[string]any_{"a": 1, "b": []int{1}}, map[string]any_{"c": "<x>"})
	}, func(s int, x any_) func() string {
		m := x.(map[string]any_)
		r := utils.MapToJsonString(m) + utils.Map2JsonString(m)
		return func() string { return fmt.Sprint(r, m) }
	})
	reg("utils", "MapIntToJsonString", func(s int) any_ { return pick(s, map[string]int32{"a": 1, "b": -2}, map[string]int32{"c": 3}) }, func(s int, x any_) func() string {
		m := x.(map[string]int32)
		r := utils.MapIntToJsonString(m)
		return func() string { return fmt.Sprint(r, m) }
	})
	text("JsonStringToMap", `{"a":1,"b":2}`, `{"c":3}`, func(s string) any_ {
		m := utils.JsonStringToMap(s)
		return lazy{func() string { return fmt.Sprint(m) }}
	})
	reg("utils", "GetSwitchFromOptions", func(s int) any_ { return pick(s, map[string]bool{"a": true, "b": false}, map[string]bool{"a": false}) }, func(s int, x any_) func() string {
		m := x.(map[string]bool)
		r := fmt.Sprint(utils.GetSwitchFromOptions(m, "a"), utils.GetSwitchFromOptions(m, "b"), utils.GetSwitchFromOptions(nil, "a"))
		return func() string { return fmt.Sprint(r, m) }
	})
	ops = append(ops, op{group: "utils", name: "utils.SetSwitchFromOptions", own: true, mk: func(s int) any_ { return pick(s, map[string]bool{"a": true}, map[string]bool{"b": false}) }, run: func(s int, x any_) func() string {
		m := x.(map[string]bool)
		utils.SetSwitchFromOptions(nil, "a", true)
		utils.SetSwitchFromOptions(m, "a", s == 1)
		utils.SetSwitchFromOptions(m, "c", s == 0)
		return func() string { return fmt.Sprint(m) }
	}})
	text("RandStr", "x", "yyyyyyyy", func(s string) any_ {
		n := 0
		r := utils.RandStr(len(s), len(s)%4)
		for _, c := range r {
			if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				n++
			}
		}
		return fmt.Sprint(len(r), n)
	})
	text("GetTimeDir", "", "", func(string) any_ {
		return utils.GetTimeDir() == time.Unix(0, rt.BaseTime+rt.Now()).Format("2006/01/02")
	})
	text("GetCurrentDir", "", "", func(string) any_ { return utils.GetCurrentDir() != "" })
	ops = append(ops, op{group: "utils", name: "utils.ShellExec", slow: true, mk: func(s int) any_ { return pick(s, "echo one; echo x >&2", "echo two; echo why >&2; exit 3") }, run: func(s int, x any_) func() string {
		b, err := utils.ShellExec(x.(string))
		return func() string {
			if b == nil {
				return errs(err)
			}
			return fmt.Sprintf("%q %s", b.String(), errs(err))
		}
	}})

	// help/utils: files
	one := func(d string, s int) {
		fsx.Put(d+"/in/a.txt", fmt.Sprintf("content %d", s))
		fsx.Put(d+"/in/sub/b", strings.Repeat("b", 10+s))
	}
	files("CopyFile", one, func(d string, s int) any_ {
		n, err := utils.CopyFile(d+"/copy", d+"/in/a.txt")
		return fmt.Sprint(n, errs(err))
	})
	files("FileMove", one, func(d string, s int) any_ { return errs(utils.FileMove(d+"/in/a.txt", d+"/new/dir/b.txt")) })
	files("FileMd5", one, func(d string, s int) any_ { r, err := utils.FileMd5(d + "/in/a.txt"); return fmt.Sprint(r, errs(err)) })
	files("ScanDir", one, func(d string, s int) any_ {
		r, err := utils.ScanDir(d)
		return lazy{func() string { return fmt.Sprint(r, errs(err)) }}
	})
	files("observe", one, func(d string, s int) any_ {
		e, err := utils.PathExists(d + "/in")
		return fmt.Sprint(e, err, utils.FileExist(d+"/in/a.txt"), utils.IsDir(d), utils.IsFile(d+"/in/sub/b"), utils.FileIsExisted(d+"/nothing"))
	})
	files("CreateDir", nil, func(d string, s int) any_ {
		return errs(utils.CreateDir(d+"/x/y", d+"/z")) + errs(utils.MkDir(d+"/k/l"))
	})
	files("DeLFile", one, func(d string, s int) any_ { return errs(utils.DeLFile(d + "/in/sub")) })
	files("ImageFileToBase64", one, func(d string, s int) any_ { return utils.ImageFileToBase64(d + "/in/a.txt") })
	files("Csv", nil, func(d string, s int) any_ {
		e1 := utils.WriteCsv(d+"/f.csv", []string{"a", fmt.Sprint("x\"", s)})
		e2 := utils.WriteCsv(d+"/f.csv", []string{"b,", fmt.Sprint("y\n", s)})
		r := utils.ReadCsv(d + "/f.csv")
		return lazy{func() string { return fmt.Sprintf("%v %v %q", e1, e2, *r) }}
	})
	files("Zip", one, func(d string, s int) any_ {
		e1 := utils.ZipFiles(d+"/z.zip", []string{d + "/in/a.txt", d + "/in/sub/b"}, d+"/in/", "")
		l, e2 := utils.Unzip(d+"/z.zip", d+"/out")
		os.Remove(d + "/z.zip")
		return lazy{func() string { return fmt.Sprint(e1, e2, l) }}
	})
	ops = append(ops, op{group: "files", name: "files.upload", own: true, mk: func(s int) any_ {
		utils.RemoveChunk(fmt.Sprintf("up%d", s))
		os.Remove(fmt.Sprintf("fileDir/name%d", s))
		return nil
	}, run: func(s int, _ any_) func() string {
		id, name := fmt.Sprintf("up%d", s), fmt.Sprintf("name%d", s)
		var r []string
		for i := 0; i < 3; i++ {
			p, err := utils.BreakPointContinue([]byte(fmt.Sprintf("[%d.%d]", s, i)), name, i, 3, id)
			r = append(r, p, errs(err))
		}
		p, err := utils.MakeFile(name, id)
		r = append(r, p, errs(err))
		r = append(r, errs(utils.RemoveChunk(id)))
		_, e := os.Stat("breakpointDir/" + id)
		return func() string {
			c, _ := fsx.Get("fileDir/" + name)
			return fmt.Sprint(r, c, os.IsNotExist(e))
		}
	}})

	// common/...: lives of instances
	life("list", func(n []int) []any_ {
		l, m := list.New[int](), list.New[int]()
		for i, x := range n {
			if i%2 == 0 {
				l.PushBack(x)
			} else {
				l.PushFront(x)
			}
			m.PushBack(-x)
		}
		l.MoveToBack(l.Front())
		l.PushBackList(m)
		l.Remove(l.Front().Next())
		var r []any_
		for e := l.Front(); e != nil; e = e.Next() {
			r = append(r, e.Value)
		}
		return append(r, l.Len(), m.Len())
	})
	life("deque", func(n []int) []any_ {
		d := deque.New[int]()
		s := stack.New[int]()
		for _, x := range n {
			d.PushBack(x)
			d.PushFront(-x)
			s.Push(x)
		}
		return []any_{d.PopFront(), d.PopBack(), d.Len(), s.Pop(), s.Peek(), s.Len()}
	})
	life("heap", func(n []int) []any_ {
		h, g := heap.New[int](nil, less), heap.NewN[int](4, less)
		q := pqueue.New[int](nil, less)
		for _, x := range n {
			h.Push(x)
			g.Push(x)
			q.Push(x)
		}
		h.Remove(2)
		g.Remove(3)
		return []any_{h.Pop(), h.Pop(), g.Pop(), g.Pop(), q.Pop(), q.Pop(), h.Len(), g.Len(), q.Len()}
	})
	life("meap", func(n []int) []any_ {
		h := meap.New[string, int](func(a, b meap.Entry[string, int]) bool { return a.Value < b.Value })
		for i, x := range n {
			h.Push(fmt.Sprint("k", i%4), x)
		}
		h.Remove("k1")
		v, ok := h.Get("k0")
		return []any_{h.Pop(), v, ok, h.Contains("k1"), h.Len()}
	})
	life("reap", func(n []int) []any_ {
		h := reap.New[int](less)
		var e []*reap.Entry[int]
		for _, x := range n {
			e = append(e, h.Push(x))
		}
		h.Remove(e[1])
		h.SetValue(e[2], -1)
		return []any_{h.Pop(), h.Pop(), h.Len(), e[0].Value()}
	})
	life("rings", func(n []int) []any_ {
		a, b, c := fix.New[int](4), round.New[int](4), unbounded.New[int](2)
		a.MPush(n[:3]...)
		b.MPush(n[:3]...)
		c.MPush(n...)
		x, y, z := a.MPop(2), b.MPop(2), c.MPop(4)
		a.Push(n[3])
		b.Push(n[4])
		c.Push(n[5])
		d := make([]int, 2)
		c.MPopCopy(d)
		return []any_{x, y, z, d, a.Len(), b.Len(), c.Len(), a.Pop(), b.Pop()}
	})
	life("set", func(n []int) []any_ {
		s := set.New[int]()
		for _, x := range n {
			s.Add(x)
		}
		s.Remove(3)
		return []any_{s.Contains(3), s.Contains(9), s.Contains(8), s.Len()}
	})
	life("bloom", func(n []int) []any_ {
		f := bloom.New(100, 0.01)
		for _, x := range n {
			f.Add(uint64(x) * 0x9e3779b97f4a7c15)
			f.AddString(fmt.Sprint(x))
			f.AddBytes([]byte(fmt.Sprint("b", x)))
		}
		var r []any_
		for _, x := range n {
			r = append(r, f.Contains(uint64(x)*0x9e3779b97f4a7c15), f.ContainsString(fmt.Sprint(x)), f.ContainsBytes([]byte(fmt.Sprint("b", x))))
		}
		return r
	})
	life("hash", func(n []int) []any_ {
		h := hash.New()
		a, b := []byte(fmt.Sprint(n)), []byte(fmt.Sprint(n, "x"))
		x, y := h.Sum64(a), h.Sum64(b)
		return []any_{x == y, x == h.Sum64(a), y == h.Sum64String(string(b)), x == h.Sum64String(string(a))}
	})
	ops = append(ops, op{group: "types", name: "types.hash-shared-bytes", mk: func(s int) any_ { return []byte(fmt.Sprint("bytes", s)) }, run: func(s int, x any_) func() string {
		h := hash.New()
		b := x.([]byte)
		r := h.Sum64(b) == h.Sum64String(string(b))
		f := bloom.New(10, 0.1)
		f.AddBytes(b)
		k := f.ContainsBytes(b)
		return func() string { return fmt.Sprint(r, k, string(b)) }
	}})
	life("math", func(n []int) []any_ {
		u := uint(n[0]*n[1] + 5)
		a, b := cmath.Split(u, 3)
		return []any_{a, b, cmath.Max(n[0], n[1]), cmath.Min(n[2], n[3]), cmath.Abs(-n[4]), cmath.Log2(u), cmath.IsPowOf2(u), cmath.RoundUpPowOf2(u), cmath.RoundDownPowOf2(u), cmath.FindLastBitSet(u)}
	})
	life("limiters", func(n []int) []any_ {
		a := fixed_window.NewFixedWindowLimiter(n[0], time.Second)
		b := leaky_bucket.NewLeakyBucketLimiter(n[0], 1)
		c := token_bucket.NewTokenBucketLimiter(n[0], 1)
		d, e1 := sliding_window.NewSlidingWindowLimiter(n[0], time.Second, 100*time.Millisecond)
		l, e2 := sliding_log.NewSlidingLogLimiter(100*time.Millisecond, sliding_log.NewSlidingLogLimiterStrategy(n[0], time.Second), sliding_log.NewSlidingLogLimiterStrategy(n[0]*2, time.Minute))
		k := [5]int{}
		for i := 0; i < 7; i++ {
			for j, ok := range []bool{a.TryAcquire(), b.TryAcquire(), c.TryAcquire(), d.TryAcquire(), l.TryAcquire() == nil} {
				if ok {
					k[j]++
				}
			}
		}
		return []any_{k, e1, e2}
	})
	life("delayqueue", func(n []int) []any_ {
		q := delayqueue.New[int]()
		for _, x := range n {
			q.Push(x, time.Duration(x)*time.Hour)
		}
		p, ok := q.Peek()
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Hour)
		defer cancel()
		a, ok1 := q.Take(ctx)
		b, ok2 := q.Take(ctx)
		_, ok3 := q.Take(ctx)
		return []any_{p, ok, a, ok1, b, ok2, ok3, q.Empty()}
	})
	life("wheel", func(n []int) []any_ {
		w := timingwheel.New(10, 3)
		var t []*timingwheel.Timer
		for _, x := range n {
			t = append(t, w.AfterFunc(time.Duration(x+1)*time.Hour, func() {}))
		}
		return []any_{t[0].Stop(), t[0].Stop(), t[3].Stop()}
	})
	life("map", func(n []int) []any_ {
		m := &utils.Map{}
		for i, x := range n {
			m.Set(x, i)
		}
		m.Del(3)
		k := 0
		m.RLockRange(func(a, b any_) { k += a.(int) * b.(int) })
		return []any_{m.Len(), m.Get(9), m.Get(8), m.TestAndSet(3, 5), m.TestAndSet(3, 6), k}
	})

	// gorm_tools: each caller has its own table
	type rec struct {
		Id   int64  `json:"id"`
		Name string `json:"name"`
		N    int64  `json:"n"`
	}
	type rec2 struct {
		Id int64  `json:"id"`
		N  int64  `json:"n"`
		S  string `json:"name,omitempty"`
	}
	var db *gorm.DB
	sql := func(name string, f func(t string, s int, db *gorm.DB) any_) {
		ops = append(ops, op{group: "gorm", name: "gorm." + name, own: true, mk: func(s int) any_ {
			t := fmt.Sprintf("t_%s_%d", strings.ToLower(name), s)
			if db == nil {
				db = sqlx.Gorm(&gorm.Config{})
				sqlx.Use(sqlx.NewStore())
				store = sqlx.NewStore()
				sqlx.Use(store)
			}
			tb := store.Add(t, sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n", Kind: sqlx.Int})
			for i := 1; i < 5; i++ {
				tb.Put(i, fmt.Sprint("row", i), i*10)
			}
			return t
		}, run: func(s int, x any_) func() string {
			t := x.(string)
			r := f(t, s, db)
			return func() string {
				b, _ := json.Marshal(store.Tables[t].Rows)
				return fmt.Sprint(r, " ", string(b))
			}
		}})
	}
	sql("InsertToTable", func(t string, s int, db *gorm.DB) any_ {
		return errs(gt.InsertToTable(t, map[string]any_{"id": 10 + s, "name": "x", "n": s}, db))
	})
	sql("Del", func(t string, s int, db *gorm.DB) any_ {
		return errs(gt.DelByTableNameAndId(t, []int64{1, int64(2 + s)}, db))
	})
	sql("Update", func(t string, s int, db *gorm.DB) any_ {
		return errs(gt.UpdateByTableNameAndId(t, int64(1+s), map[string]any_{"n": 5 + s}, db)) + errs(gt.UpdateByTableNameAndIds(t, []int64{3, 4}, map[string]any_{"name": fmt.Sprint("u", s)}, db)) +
			errs(gt.UpdateByTableNameAndWhere(t, map[string]any_{"n": 20}, map[string]any_{"name": "w"}, db))
	})
	sql("BatchInsert", func(t string, s int, db *gorm.DB) any_ {
		if s == 0 {
			return errs(gt.BatchInsertTableRecords(db, t, rec{11, "a", 1}, rec{12, "b", 2}))
		}
		return errs(gt.BatchInsertTableRecords(db, t, rec2{21, 7, ""}, rec2{22, 8, "z"}))
	})
	sql("SplitInsert", func(t string, s int, db *gorm.DB) any_ {
		if s == 0 {
			return errs(gt.SplitInsertTableRecords(db, t, rec{11, "a", 1}, rec{12, "b", 2}))
		}
		return errs(gt.SplitInsertTableRecords(db, t, rec2{21, 7, ""}, rec2{22, 8, "z"}))
	})
	sql("SplitUpdate", func(t string, s int, db *gorm.DB) any_ {
		m := map[int64]map[string]any_{1: {"n": 7 + s, "name": "p"}, 2: {"n": 9}}
		if s == 1 {
			m = map[int64]map[string]any_{3: {"name": "q"}, 4: {"n": 1}}
		}
		return errs(gt.SplitUpdateTableFieldWithoutVersionByID(db, t, m)) + errs(gt.BatchUpdateTableFieldWithoutVersionByID(db, t, m)) + fmt.Sprint(len(m), m)
	})
	_ = bytes.NewBuffer
}

var store *sqlx.Store

// lazy is a result that is rendered again whenever it is looked at.
type lazy struct{ f func() string }

func (l lazy) String() string { return l.f() }
