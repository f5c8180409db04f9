package main

import (
	"archive/zip"
	"crypto/md5"
	"fmt"
	"os"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const id = "0123abcd"

func bystanders() {
	fsx.Put("keep/a", "kept")
	fsx.Put("breakpointDir/other/f.bin_0", "other upload")
	fsx.Put("fileDir/other.bin", "other result")
	fsx.Put("t2.csv", "x,y\r\n")
}

var chunks = []string{fsx.Content("c0", 40), "", fsx.Content("c2", 36000), fsx.Content("c3", 5)}

func sum(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

func putChunks(n int) {
	for i := 0; i < n; i++ {
		fsx.Put(fmt.Sprintf("breakpointDir/%s/f.bin_%d", id, i), chunks[i])
	}
}

func mkzip(name string) {
	f, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	w := zip.NewWriter(f)
	for _, e := range []struct{ n, c string }{{"a.txt", "alpha"}, {"d/", ""}, {"d/e/f", fsx.Content("z", 36000)}, {"empty", ""}, {"d/last", "omega"}} {
		x, err := w.Create(e.n)
		if err != nil {
			panic(err)
		}
		x.Write([]byte(e.c))
	}
	w.Close()
	f.Close()
}

// csv: the earlier records stay, the new one is there entirely or not at all
func csvAct(name, before string, rec []string) act {
	enc := ""
	for i, f := range rec {
		if i > 0 {
			enc += ","
		}
		enc += f
	}
	start := before
	return act{name: name, once: true, may: []string{"t.csv"},
		setup: func() {
			bystanders()
			if before != "" {
				fsx.Put("t.csv", before)
			}
			start = before
		},
		run: func() (string, error) { return "", utils.WriteCsv("t.csv", rec) },
		middle: func(c *ctx) {
			got := strings.TrimPrefix(c.now["t.csv"], "f ")
			vh.Check(strings.HasPrefix(got, start), "earlier:"+name, "%s changed earlier records: %.80q", name, got)
			rest := got[len(start):]
			whole := rest == enc+"\r\n" || rest == enc+"\n"
			switch {
			case c.stopped && !c.torn:
				vh.Check(rest == "" || whole, "torn:"+name, "%s, stopped between two operations of the system, leaves a part of the record: %d of %d bytes", name, len(rest), len(enc))
			case c.stopped:
			case c.err == nil:
				vh.Check(whole, "false-success:"+name, "%s reports success and appended %.80q", name, rest)
			case c.devs == 1:
				vh.Check(rest == "", "failed-effect:"+name, "%s failed (%v) but leaves %d bytes of the record", name, c.err, len(rest))
			}
			start = got
		},
		last: func(c *ctx) {
			got := strings.TrimPrefix(c.now["t.csv"], "f ")
			vh.Check(c.err == nil && (got == start+enc+"\r\n" || got == start+enc+"\n"), "repeat:"+name, "%s, repeated: %v, appended %.80q", name, c.err, strings.TrimPrefix(got, start))
		},
	}
}

func moveAct(name, src, dst string, setup func()) act {
	tops := []string{src, strings.SplitN(dst, "/", 2)[0]}
	if fixed := strings.HasPrefix(dst, "keep/"); fixed {
		tops[1] = dst
	}
	ok := func(c *ctx, when string) (moved bool) {
		_, s := c.now[src]
		moved = true
		for p, x := range c.ref {
			if p == dst || strings.HasPrefix(p, dst+"/") {
				q := src + p[len(dst):]
				if s {
					vh.Check(c.now[q] == x, "halves:"+name, "%s %s: %s is at neither place", name, when, q)
				} else {
					vh.Check(c.now[p] == x, "halves:"+name, "%s %s: %s is at neither place", name, when, p)
				}
			}
		}
		return !s
	}
	was := false
	return act{name: name, once: true, may: tops, setup: func() { bystanders(); setup(); was = false },
		run: func() (string, error) { return "", utils.FileMove(src, dst) },
		middle: func(c *ctx) {
			moved := ok(c, "interrupted or failed")
			if !c.stopped {
				vh.Check(was || moved == (c.err == nil), "false-success:"+name, "%s returns %v, moved: %v", name, c.err, moved)
			}
			was = was || moved
		},
		last: func(c *ctx) {
			vh.Check((c.err == nil) == !was, "repeat:"+name, "%s, repeated after it was done: %v, returns %v", name, was, c.err)
			vh.Check(diff(c.ref, c.now) == "", "repeat:"+name, "%s, repeated, leaves %s", name, diff(c.ref, c.now))
		},
	}
}

func acts() []act {
	upload := func(name string, k int, setup func()) act {
		return act{name: name, may: []string{"breakpointDir/" + id}, setup: func() { bystanders(); setup() },
			run: func() (string, error) {
				return utils.BreakPointContinue([]byte(chunks[k]), "f.bin", k, 4, id)
			}}
	}
	make := func(name string, n int, old string) act {
		return act{name: name, may: []string{"fileDir/f.bin"},
			setup: func() {
				bystanders()
				putChunks(n)
				fsx.Put("breakpointDir/"+id+"/g.bin_0", "another file")
				if old != "" {
					fsx.Put("fileDir/f.bin", old)
				} else if n > 1 {
					os.RemoveAll("fileDir")
				}
			},
			run: func() (string, error) { return utils.MakeFile("f.bin", id) }}
	}
	cp := func(name string, size, old int) act {
		return act{name: name, may: []string{"dst"},
			setup: func() {
				bystanders()
				fsx.Put("src", fsx.Content("src", size))
				if old > 0 {
					fsx.Put("dst", fsx.Content("old", old))
				}
			},
			run: func() (string, error) { n, err := utils.CopyFile("dst", "src"); return fmt.Sprint(n), err }}
	}
	l := []act{
		upload("first chunk", 0, func() {
			os.RemoveAll("breakpointDir")
		}),
		upload("chunk", 2, func() { putChunks(2) }),
		upload("chunk again", 3, func() { putChunks(2); fsx.Put("breakpointDir/"+id+"/f.bin_3", fsx.Content("longer", 5000)) }),
		make("assemble one", 1, ""),
		make("assemble all", 4, ""),
		make("assemble over an older result", 4, fsx.Content("old", 60000)),
		{name: "remove chunks", may: []string{"breakpointDir/" + id}, setup: func() { bystanders(); putChunks(4) },
			run: func() (string, error) { return "", utils.RemoveChunk(id) }},
		{name: "upload, assemble, remove", may: []string{"breakpointDir/" + id, "fileDir/f.bin"}, setup: bystanders,
			run: func() (string, error) {
				for i, c := range chunks {
					if !utils.CheckMd5([]byte(c), sum(c)) {
						return "", fmt.Errorf("checksum")
					}
					if _, err := utils.BreakPointContinue([]byte(c), "f.bin", i, len(chunks), id); err != nil {
						return "", err
					}
				}
				p, err := utils.MakeFile("f.bin", id)
				if err != nil {
					return "", err
				}
				return p, utils.RemoveChunk(id)
			}},
		csvAct("append to a new file", "", []string{"a", "b"}),
		csvAct("append", "1,2\r\n3,4\r\n", []string{"a", "b"}),
		csvAct("append a long record", "1,2\r\n", []string{strings.Repeat("x", 9000), strings.Repeat("y", 5000)}),
		cp("copy", 30, 0),
		cp("copy over a longer file", 30, 100),
		cp("copy a large file", 70000, 90000),
		moveAct("move a file", "m", "n1/n2/m", func() { fsx.Put("m", fsx.Content("m", 300)) }),
		moveAct("move a directory", "md", "n1/md", func() { fsx.Put("md/x/y", "y"); fsx.Put("md/z", "z") }),
		moveAct("move over a file", "m", "keep/m", func() { fsx.Put("m", "new"); fsx.Put("keep/m", "old content") }),
		{name: "make directories", may: []string{"p", "q"}, setup: bystanders, run: func() (string, error) { return "", utils.CreateDir("p/a/b", "keep", "q") }},
		{name: "make a directory", may: []string{"p"}, setup: bystanders, run: func() (string, error) { return "", utils.MkDir("p/a/b") }},
		{name: "delete a directory", may: []string{"del"}, setup: func() {
			bystanders()
			fsx.Put("del/a/b", "b")
			fsx.Put("del/c", "c")
			os.Symlink("../keep", "del/link")
		}, run: func() (string, error) { return "", utils.DeLFile("del") }},
		{name: "delete a file", may: []string{"del"}, setup: func() { bystanders(); fsx.Put("del", "c") }, run: func() (string, error) { return "", utils.DeLFile("del") }},
		{name: "unzip", may: []string{"un"}, setup: func() { bystanders(); mkzip("in.zip"); fsx.Put("un/old", "stays") }, run: func() (string, error) {
			p, err := utils.Unzip("in.zip", "un")
			if err != nil {
				p = nil
			}
			return strings.Join(p, "|"), err
		}},
		{name: "unzip over an older version", may: []string{"un"}, setup: func() {
			bystanders()
			mkzip("in.zip")
			fsx.Put("un/a.txt", "a longer text than alpha")
			fsx.Put("un/d/e/f", "short")
		}, run: func() (string, error) {
			p, err := utils.Unzip("in.zip", "un")
			if err != nil {
				p = nil
			}
			return strings.Join(p, "|"), err
		}},
		{name: "zip", may: []string{"out.zip"}, setup: func() {
			bystanders()
			fsx.Put("in/a", "alpha")
			fsx.Put("in/b", fsx.Content("b", 36000))
			fsx.Put("in/c", "")
			fsx.Put("out.zip", "something else")
		}, run: func() (string, error) {
			return "", utils.ZipFiles("out.zip", []string{"in/a", "in/b", "in/c"}, "in/", "")
		}},
		{name: "zip and unzip", may: []string{"out.zip", "un"}, setup: func() {
			bystanders()
			fsx.Put("in/a", "alpha")
			fsx.Put("in/d/b", fsx.Content("b", 3000))
		}, run: func() (string, error) {
			if err := utils.ZipFiles("out.zip", []string{"in/a", "in/d/b"}, "in/", ""); err != nil {
				return "", err
			}
			p, err := utils.Unzip("out.zip", "un")
			if err != nil {
				p = nil
			}
			return strings.Join(p, "|"), err
		}},
	}
	reader := func(name string, f func() (string, error)) {
		l = append(l, act{name: name, run: f, setup: func() {
			bystanders()
			fsx.Put("r/a", fsx.Content("r", 36000))
			fsx.Put("r/d/b", "b")
			fsx.Put("r/d/e/c", "c")
			fsx.Put("t.csv", "1,2\r\n"+strings.Repeat("long", 3000)+",4\r\n")
		}})
	}
	nothing := fmt.Errorf("reports nothing")
	reader("checksum", func() (string, error) {
		s, err := utils.FileMd5("r/a")
		if err != nil {
			s = ""
		}
		return s, err
	})
	reader("scan", func() (string, error) {
		s, err := utils.ScanDir("r")
		if err != nil {
			s = nil
		}
		return strings.Join(s, "|"), err
	})
	reader("read csv", func() (string, error) {
		r := utils.ReadCsv("t.csv")
		if r == nil {
			return "", nothing
		}
		return fmt.Sprint(*r), nil
	})
	reader("image", func() (string, error) {
		s := utils.ImageFileToBase64("r/a")
		if s == "" {
			return "", nothing
		}
		return s, nil
	})
	reader("path exists", func() (string, error) {
		ok, err := utils.PathExists("r/d")
		if err != nil {
			return "", err
		}
		return fmt.Sprint(ok), nil
	})
	return l
}
