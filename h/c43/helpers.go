package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	gt "github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/sqlx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
	"gorm.io/gorm"
)

// call is one function, called with arguments of which no two are equal.
type call struct {
	name string
	n    int
	per  int64
	f    func(i int)
}

type row struct {
	ID   int64  `json:"id"`
	Name string `json:"name"`
	N    int64  `json:"n"`
}

func put(name, s string) {
	if err := os.WriteFile(name, []byte(s), 0666); err != nil {
		panic(err)
	}
}

func gone(names ...string) {
	for _, n := range names {
		os.RemoveAll("./" + n)
	}
}

var calls = []call{
	{"text", 2000, 8, func(i int) {
		s := fmt.Sprintf("text%08d", i)
		utils.Base64Decode(utils.Base64Encode(s))
		utils.Base64DecodeToByte(utils.Base64EncodeToByte([]byte(s)))
		utils.Base64DecodeToString("!" + s)
		utils.StringToInt(s[4:])
		utils.StringToInt64(s)
		utils.IntToString(i)
		utils.Int64ToString(int64(i) << 20)
		utils.Substr2(s, 1, 5)
		utils.UpperFirst(s)
		utils.GetSuffixName(s+"."+s, ".")
		utils.IsImage(s + ".png")
	}},
	{"masks", 1000, 8, func(i int) {
		s := fmt.Sprintf("138%08d", i)
		utils.HideStar(s)
		utils.HideStar(s + "@" + s + ".com")
		utils.HideStar("名" + s)
		utils.MaskMobile(s, 4)
		utils.MaskCustomerName(s)
		utils.MaskIDCard(s+"1234567", 8)
		utils.MaskBackCard(s+"12345678", 8)
	}},
	{"digests", 2000, 8, func(i int) {
		s := fmt.Sprintf("%016d", i)
		utils.Md5(s)
		utils.Md5Crypt(s)
		utils.MD5V([]byte(s), 1, 2)
		utils.CheckMd5([]byte(s), s)
		utils.ComputeFileMD5(strings.NewReader(s))
		c, _ := utils.AesEncrypt([]byte(s), []byte(s))
		utils.AesDecrypt(c, []byte(s))
		utils.AesDecrypt([]byte(s), []byte(s))
		utils.AesEncrypt([]byte(s), []byte(s[1:]))
	}},
	{"numbers", 4000, 8, func(i int) {
		utils.FormatByte(i * 12345)
		utils.FileSize(int64(i) * 123456)
		utils.Round(float64(i)/7, i%5)
		utils.RandStr(i%40, i%4)
		utils.GetTimeDir()
	}},
	{"links", 2000, 8, func(i int) {
		s := fmt.Sprintf("/p%d", i)
		utils.IsSameSiteURLPath(s)
		utils.IsMaliciousPath(s + "/..")
		utils.IsTextFile([]byte(s))
		utils.IsImageFile([]byte("GIF89a" + s))
		utils.IsPDFFile([]byte("%PDF-" + s))
		utils.IsVideoFile([]byte(s))
		utils.BuildUrl(s, s, i, "x", s)
		utils.GetCurrentDir()
	}},
	{"json", 2000, 8, func(i int) {
		s := fmt.Sprintf("k%d", i)
		utils.MapToJsonString(map[string]interface{}{s: i})
		utils.Map2JsonString(map[string]interface{}{s: s})
		utils.MapIntToJsonString(map[string]int32{s: int32(i)})
		utils.JsonStringToMap(`{"` + s + `":1}`)
		utils.JsonStringToMap(s)
		o := map[string]bool{}
		utils.SetSwitchFromOptions(o, s, i%2 == 0)
		utils.GetSwitchFromOptions(o, s)
		utils.SetSwitchFromOptions(nil, s, true)
	}},
	{"files", 300, 32, func(i int) {
		n := fmt.Sprintf("f%d", i)
		put(n, n)
		utils.PathExists(n)
		utils.FileExist(n)
		utils.FileIsExisted(n)
		utils.IsFile(n)
		utils.IsDir(n)
		utils.FileMd5(n)
		utils.FileMd5(n + "x")
		utils.ImageFileToBase64(n)
		utils.ImageFileToBase64(".")
		utils.CopyFile(n+"c", n)
		utils.CopyFile(n+"c", n+"x")
		utils.CopyFile(".", n)
		utils.FileMove(n+"c", "d/"+n)
		utils.FileMove(n+"c", "d/"+n)
		utils.DeLFile("d/" + n)
		gone(n)
	}},
	{"directories", 300, 32, func(i int) {
		n := fmt.Sprintf("d%d", i)
		utils.CreateDir(n, n+"/a", n+"/b")
		utils.MkDir(n + "/a/c")
		put(n+"/a/f", "x")
		utils.ScanDir(n)
		utils.ScanDir(n + "x")
		utils.CreateDir(n+"/a/f", n)
		utils.DeLFile(n)
	}},
	{"csv", 300, 32, func(i int) {
		n := fmt.Sprintf("c%d.csv", i)
		utils.WriteCsv(n, []string{n, "x\"y"})
		utils.WriteCsv(n, []string{"1", "2"})
		utils.WriteCsv(".", []string{"1", "2"})
		utils.ReadCsv(n)
		utils.ReadCsv(n + "x")
		utils.ReadCsv(".")
		gone(n)
		put(n, "\"a")
		utils.ReadCsv(n)
		gone(n)
	}},
	{"uploads", 300, 32, func(i int) {
		id, n := fmt.Sprintf("u%d", i), fmt.Sprintf("f%d", i)
		for k := 0; k < 3; k++ {
			utils.BreakPointContinue([]byte(id), n, k, 3, id)
		}
		utils.MakeFile(n, id)
		utils.MakeFile(n, id+"x")
		os.Remove("breakpointDir/" + id + "/" + n + "_1")
		utils.MakeFile(n, id)
		utils.RemoveChunk(id)
		gone("fileDir/" + n)
	}},
	{"archives", 100, 64, func(i int) {
		n := fmt.Sprintf("z%d", i)
		put(n, n)
		utils.ZipFiles(n+".zip", []string{n}, "z", "y")
		utils.ZipFiles(n+".zip", []string{n}, "z", "y")
		utils.Unzip(n+".zip", n+"o")
		utils.Unzip(n, n+"o")
		utils.Unzip(n+"x", n+"o")
		utils.ZipFiles(n+".2.zip", []string{n, n + "x"}, "z", "y")
		gone(n, n+".zip", n+"o", n+".2.zip")
	}},
	{"shell", 40, 256, func(i int) {
		utils.ShellExec(fmt.Sprintf("echo %d", i))
		utils.ShellExec(fmt.Sprintf("echo %d >&2; exit 3", i))
	}},
	{"rows", 300, 32, func(i int) {
		st := sqlx.NewStore()
		t := st.Add("t", sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n", Kind: sqlx.Int}, sqlx.Col{Name: "updated_at", Kind: sqlx.Int}, sqlx.Col{Name: "deleted_at", Kind: sqlx.Int})
		t.Put(1, "a", 1, 0, 0)
		sqlx.Use(st)
		s := fmt.Sprint("n", i)
		id := int64(1000 + i)
		gt.InsertToTable("t", map[string]interface{}{"id": id, "name": s, "n": i}, db)
		gt.UpdateByTableNameAndId("t", id, map[string]interface{}{"name": s}, db)
		gt.UpdateByTableNameAndIds("t", []int64{1, id}, map[string]interface{}{"n": i}, db)
		gt.UpdateByTableNameAndWhere("t", map[string]interface{}{"name": s}, map[string]interface{}{"n": i}, db)
		gt.UpdateByTableNameAndId("missing"+s, id, map[string]interface{}{"name": s}, db)
		gt.SoftDelByTableNameAndId("t", id, db)
		gt.DelByTableNameAndId("t", []int64{id, 2}, db)
	}},
	{"bulk", 300, 32, func(i int) {
		st := sqlx.NewStore()
		st.Add("t", sqlx.Col{Name: "name", Kind: sqlx.Text}, sqlx.Col{Name: "n", Kind: sqlx.Int})
		sqlx.Use(st)
		id := int64(1000 + 2*i)
		a, b := row{id, fmt.Sprint("n", i), 1}, row{id + 1, fmt.Sprint("m", i), 2}
		gt.BatchInsertTableRecords(db, "t", a, b)
		gt.BatchInsertTableRecords(db, "t", a)
		gt.BatchInsertTableRecords(db, "missing", a)
		gt.SplitInsertTableRecords(db, "t", row{id + 2, "x", 1})
		gt.BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{id: {"n": i}, id + 1: {"n": -i}})
		gt.BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{id: {"n": i}, id + 1: {"name": -i}})
		gt.SplitUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{id: {"n": i}})
	}},
}

var db *gorm.DB

// helpers: package-level functions keep nothing of their arguments, no descriptor, no goroutine and no connection
func helpers() {
	c := &calls[rt.Choose(len(calls))]
	rt.Tracef("%s", c.name)
	fsx.Fresh()
	os.Mkdir("d", 0777)
	if db == nil {
		db = sqlx.Gorm(nil)
	}
	i := 0
	steady("the calls "+c.name, "grows:"+c.name, vh.D(1, 4)*c.n, c.per, func() {
		i++
		c.f(i)
		if i%50 == 1 {
			vh.Check(fsx.Fds() <= 1, "descriptors:"+c.name, "the calls %s leave files open", c.name)
		}
	})
	vh.Check(fsx.Fds() <= 1, "descriptors:"+c.name, "the calls %s leave files open", c.name)
	vh.Eq("connections:"+c.name, sqlx.DB().Stats().InUse, 0)
	runtime.KeepAlive(db)
}
