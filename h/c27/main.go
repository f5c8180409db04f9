// verif:rewrite help/utils tick,maps
package main

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const (
	chunkDir  = "breakpointDir"
	finishDir = "fileDir"
)

// model of the server: chunks by (md5, file, index)
type id struct {
	md5, file string
	n         int
}

type model struct {
	chunks map[id]string
	broken map[id]bool // the last upload of it failed
	dirs   map[string]bool
	files  map[string]string
	unsure map[string]bool // a failed assembly may have removed or left the file
}

func newModel() *model {
	return &model{chunks: map[id]string{}, broken: map[id]bool{}, dirs: map[string]bool{}, files: map[string]string{}, unsure: map[string]bool{}}
}

func (m *model) fp() uint64 {
	return vh.FNV(fmt.Sprint(m.chunks, m.broken, m.dirs, m.files, m.unsure))
}

func upload(m *model, md5, file string, n, total int, content string) error {
	var err error
	var path string
	b := []byte(content)
	vh.Do("BreakPointContinue", func() { path, err = utils.BreakPointContinue(b, file, n, total, md5) })
	rt.Tracef("BreakPointContinue(%d bytes, %s, %d, %d, %s) -> %s, %v", len(content), file, n, total, md5, path, err)
	vh.Check(string(b) == content, "arg", "the content was changed")
	k := id{md5, file, n}
	if err == nil {
		m.chunks[k] = content
		delete(m.broken, k)
		got, ok := fsx.Get(path)
		vh.Check(ok && got == content, "chunk", "after a successful upload the chunk at %s is %.60q (present: %v), want %.60q", path, got, ok, content)
	} else {
		m.broken[k] = true
	}
	m.dirs[md5] = true
	return err
}

// whole returns the content the chunks make, and whether they are complete.
func (m *model) whole(md5, file string) (string, bool) {
	count, max := 0, -1
	for k := range m.chunks {
		if k.md5 == md5 && k.file == file {
			count++
			if k.n > max {
				max = k.n
			}
		}
	}
	for k := range m.broken {
		if k.md5 == md5 && k.file == file {
			return "", false
		}
	}
	s := ""
	for i := 0; i <= max; i++ {
		c, ok := m.chunks[id{md5, file, i}]
		if !ok {
			return "", false
		}
		s += c
	}
	return s, count > 0
}

// makeFile assembles; mustOK: no fault was injected.
func makeFile(m *model, file, md5 string, mustOK bool) error {
	var err error
	var path string
	vh.Do("MakeFile", func() { path, err = utils.MakeFile(file, md5) })
	rt.Tracef("MakeFile(%s, %s) -> %s, %v", file, md5, path, err)
	want, complete := m.whole(md5, file)
	got, ok := fsx.Get(finishDir + "/" + file)
	broken := false
	for k := range m.broken {
		broken = broken || k.md5 == md5 && k.file == file
	}
	switch {
	case err == nil && broken: // the chunk's upload reported an error; the client has to repeat it before assembling
	case err == nil:
		if len(m.named(md5, file)) == 0 {
			vh.Check(!ok || got == "", "assembled", "MakeFile succeeded without chunks, and the file is %.60q", got)
			break
		}
		vh.Check(complete, "missing-chunk", "MakeFile succeeded although a chunk is missing (file: %.80q)", got)
		vh.Check(ok && got == want, "assembled", "MakeFile succeeded, and the file is %d bytes %.80q, want %d bytes %.80q", len(got), got, len(want), want)
		g, o := fsx.Get(path)
		vh.Check(o && g == want, "path", "the returned path %s does not hold the file", path)
	default:
		vh.Check(!mustOK || !complete, "refused", "MakeFile failed although all chunks are there: %v", err)
	}
	if err == nil {
		m.files[file] = got
		delete(m.unsure, file)
	} else {
		m.unsure[file] = true
	}
	// chunks stay until they are removed
	m.check()
	return err
}

func (m *model) named(md5, file string) []id {
	var l []id
	for k := range m.chunks {
		if k.md5 == md5 && k.file == file {
			l = append(l, k)
		}
	}
	return l
}

func (m *model) check() {
	for k, c := range m.chunks {
		if m.broken[k] {
			continue
		}
		p := fmt.Sprintf("%s/%s/%s_%d", chunkDir, k.md5, k.file, k.n)
		got, ok := fsx.Get(p)
		vh.Check(ok && got == c, "chunk-lost", "chunk %s is %.60q (present: %v), want %.60q", p, got, ok, c)
	}
	for f, c := range m.files {
		if !m.unsure[f] {
			got, ok := fsx.Get(finishDir + "/" + f)
			vh.Check(ok && got == c, "file-changed", "the assembled file %s is now %.60q (present: %v), was %.60q", f, got, ok, c)
		}
	}
	vh.Check(fsx.Fds() <= 0, "fd-leak", "%d files are left open", fsx.Fds())
}

func remove(m *model, md5 string) {
	var err error
	vh.Do("RemoveChunk", func() { err = utils.RemoveChunk(md5) })
	rt.Tracef("RemoveChunk(%s) -> %v", md5, err)
	vh.Check(err == nil, "remove", "RemoveChunk failed: %v", err)
	_, e := os.Stat(chunkDir + "/" + md5)
	vh.Check(os.IsNotExist(e), "remove", "the chunks of %s are still there", md5)
	for k := range m.chunks {
		if k.md5 == md5 {
			delete(m.chunks, k)
		}
	}
	for k := range m.broken {
		if k.md5 == md5 {
			delete(m.broken, k)
		}
	}
	delete(m.dirs, md5)
	m.check()
}

// every sequence of uploads (any order, repeats, two files and two contents), assemblies and removals
func sequences(depth int) func() {
	return func() {
		fsx.Fresh()
		m := newModel()
		// one upload id is a prefix of the other, and so are the names of the files
		names := [][2]string{{"c4ca", "a"}, {"c4ca1", "ab"}, {"c4ca", "a_1"}, {"c4ca1", "a"}}
		vh.Steps(depth, m.fp, func(int) {
			k := rt.Choose(9)
			nm := names[0]
			switch {
			case k < 3:
				upload(m, nm[0], nm[1], k, 3, fmt.Sprintf("[%s%d]", nm[1], k))
			case k == 3:
				n := rt.Choose(2) // other contents, of the same size and of another
				upload(m, nm[0], nm[1], n, 3, []string{fmt.Sprintf("<%s%d>", nm[1], n), "other"}[n])
			case k == 4:
				nm = names[1+rt.Choose(3)]
				n := rt.Choose(2)
				upload(m, nm[0], nm[1], n, 2, fmt.Sprintf("{%s%d%s}", nm[1], n, nm[0]))
			case k == 5:
				makeFile(m, nm[1], nm[0], true)
			case k == 6:
				nm = names[1+rt.Choose(3)]
				makeFile(m, nm[1], nm[0], true)
			case k == 7:
				remove(m, "c4ca")
			default:
				remove(m, "c4ca1")
			}
			vh.Eq("outside", fsx.Outside(), "")
		})
	}
}

func chunks(sizes []int) []string {
	var l []string
	for i, n := range sizes {
		l = append(l, fsx.Content(fmt.Sprint(i), n))
	}
	return l
}

// similar lists contents that differ but share a size, a beginning, an end or a sum of bytes.
func similar() []string {
	l := []string{"", "\x00"}
	for n := 1; n <= vh.D(3, 4); n++ {
		for i := 0; i < 1<<n; i++ {
			s := ""
			for j := 0; j < n; j++ {
				s += "ab"[i>>j&1 : i>>j&1+1]
			}
			l = append(l, s)
		}
	}
	for _, n := range []int{64, 512, 513, 4096, 32769} {
		s := fsx.Content("s", n)
		flip := func(p int) string { return s[:p] + string(s[p]^1) + s[p+1:] }
		l = append(l, s, flip(0), flip(n-1), flip(n/2), flip(n / 3)[:n-1], s+"x")
	}
	return l
}

// a chunk replaced by another content, and so the assembled file
func replaced() {
	l := similar()
	i := rt.Choose(len(l))
	j := rt.Choose(len(l))
	if len(l[i]) > 100 != (len(l[j]) > 100) {
		return
	}
	fsx.Fresh()
	m := newModel()
	upload(m, "c4ca", "f", 0, 2, l[i])
	upload(m, "c4ca", "f", 1, 2, "end")
	makeFile(m, "f", "c4ca", true)
	upload(m, "c4ca", "f", 0, 2, l[j])
	makeFile(m, "f", "c4ca", true)
	// the same name from another upload
	upload(m, "b0b0", "f", 0, 1, l[i])
	makeFile(m, "f", "b0b0", true)
	makeFile(m, "f", "c4ca", true)
	remove(m, "c4ca")
	remove(m, "b0b0")
	vh.Eq("outside", fsx.Outside(), "")
}

// many chunks and large chunks, in several orders of upload
func sizes() {
	cfgs := [][]int{{}, {0}, {1}, {0, 0, 5}, {5, 0, 5}, {4096, 1}, {32768, 32769, 7}, {70000, 1, 70000}, {1 << 20, 3}, {9 << 20, 3, 4<<20 + 1}}
	many := []int{9, 10, 11, 12, 100, 101, 123, 1001}
	k := rt.Choose(len(cfgs) + len(many))
	var sz []int
	if k < len(cfgs) {
		sz = cfgs[k]
	} else {
		for i := 0; i < many[k-len(cfgs)]; i++ {
			sz = append(sz, 1+i%5)
		}
	}
	order := rt.Choose(4)
	file := []string{"a", "a_1", "a_0", "数据.txt", "with space_2", "x.tar.gz"}[rt.Choose(6)]
	fsx.Fresh()
	m := newModel()
	cs := chunks(sz)
	n := len(cs)
	for i := range cs {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2:
			j = (i*7 + 3) % n
			if n%7 == 0 {
				j = i
			}
		case 3: // everything twice
			upload(m, "d41d8cd98f00b204e9800998ecf8427e", file, i, n, "wrong"+cs[i])
		}
		upload(m, "d41d8cd98f00b204e9800998ecf8427e", file, j, n, cs[j])
	}
	if n == 0 {
		os.MkdirAll(chunkDir+"/d41d8cd98f00b204e9800998ecf8427e", 0o755)
	}
	makeFile(m, file, "d41d8cd98f00b204e9800998ecf8427e", true)
	makeFile(m, file, "d41d8cd98f00b204e9800998ecf8427e", true) // a repeated request
	remove(m, "d41d8cd98f00b204e9800998ecf8427e")
}

// upload ids that resemble each other
func ids() {
	l := []string{"a", "a ", " a", "A", "aa", "a.", "a*", "[a]", "?", "a\\", "-a", "ä", "a\t", ".a"}
	x := l[rt.Choose(len(l))]
	fsx.Fresh()
	m := newModel()
	for _, y := range l {
		upload(m, y, "f", 0, 1, "content of "+y)
	}
	for _, y := range l {
		makeFile(m, "f", y, true)
	}
	remove(m, x)
	for _, y := range l {
		if y != x {
			makeFile(m, "f", y, true)
		}
	}
}

// names with path parts neither reach the chunks and files of others nor anything outside the two directories
func hostile(max int) func() {
	al := []string{"..", "../", ".", "/", "a", "keep", "f", "f_0"}
	return func() {
		name := ""
		for i := 0; i < max; i++ {
			k := rt.Choose(len(al) + 1)
			if k == len(al) {
				break
			}
			name += al[k]
		}
		op := rt.Choose(5)
		fsx.Fresh()
		deep := "n1/n2/n3/n4"
		os.MkdirAll(deep, 0o755)
		for d := deep; d != "."; d = filepath.Dir(d) {
			fsx.Put(d+"/f_0", "secret")
			fsx.Put(d+"/keep/f_0", "secret")
		}
		if err := os.Chdir(deep); err != nil {
			panic(err)
		}
		m := newModel()
		upload(m, "keep", "f", 0, 2, "first")
		upload(m, "keep", "f", 1, 2, "second")
		makeFile(m, "f", "keep", true)
		upload(m, "other", "g", 0, 1, "g")
		outside := func() (l []string) {
			for _, x := range fsx.Tree("../../..") {
				if !strings.Contains(x, "n4/"+chunkDir) && !strings.Contains(x, "n4/"+finishDir) {
					l = append(l, x)
				}
			}
			return
		}
		before := outside()
		plain := name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
		var err error
		what := ""
		switch op {
		case 0:
			what = "upload with the checksum"
			vh.Do("BreakPointContinue", func() { _, err = utils.BreakPointContinue([]byte("new"), "f", 0, 2, name) })
			if plain {
				m.chunks[id{name, "f", 0}] = "new"
			}
		case 1:
			what = "upload of the file"
			vh.Do("BreakPointContinue", func() { _, err = utils.BreakPointContinue([]byte("new"), name, 0, 2, "keep") })
			if plain {
				m.chunks[id{"keep", name, 0}] = "new"
			}
		case 2:
			what = "assembly of the file"
			vh.Do("MakeFile", func() { _, err = utils.MakeFile(name, "keep") })
			if plain && name == "f_0" {
				err = nil // it has no chunks
			}
		case 3:
			what = "assembly of the checksum"
			vh.Do("MakeFile", func() { _, err = utils.MakeFile("f", name) })
			if plain && name != "keep" {
				err = nil // it has no chunks
				delete(m.files, "f")
			}
		case 4:
			what = "removal of"
			vh.Do("RemoveChunk", func() { err = utils.RemoveChunk(name) })
			for k := range m.chunks {
				if plain && k.md5 == name {
					delete(m.chunks, k)
				}
			}
		}
		rt.Tracef("%s %q -> %v", what, name, err)
		vh.Check(err == nil || !plain, "refused", "%s %q failed: %v", what, name, err)
		m.check()
		vh.Eq("outside", strings.Join(outside(), "\n"), strings.Join(before, "\n"))
		for _, x := range fsx.Tree(finishDir) {
			vh.Check(!strings.Contains(x, "secret"), "outside", "%s %q put data from outside into %s", what, name, x)
		}
		vh.Eq("outside", fsx.Outside(), "")
	}
}

// very many chunks
func many() {
	n := []int{1000, 10001, 12345}[rt.Choose(3)]
	fsx.Fresh()
	dir := chunkDir + "/m"
	var want []string
	for i := 0; i < n; i++ {
		c := fmt.Sprintf("%d,", i*7%1000)
		want = append(want, c)
		if i%100 == 0 {
			vh.Do("BreakPointContinue", func() {
				_, err := utils.BreakPointContinue([]byte(c), "f", i, n, "m")
				vh.Check(err == nil, "upload", "BreakPointContinue: %v", err)
			})
			continue
		}
		fsx.Put(fmt.Sprintf("%s/f_%d", dir, i), c)
	}
	var err error
	vh.DoN("MakeFile", n*100, func() { _, err = utils.MakeFile("f", "m") })
	got, _ := fsx.Get(finishDir + "/f")
	vh.Check(err == nil && got == strings.Join(want, ""), "assembled", "MakeFile of %d chunks gives %v and %d bytes, want %d", n, err, len(got), len(strings.Join(want, "")))
	vh.Do("RemoveChunk", func() { err = utils.RemoveChunk("m") })
	_, e := os.Stat(dir)
	vh.Check(err == nil && os.IsNotExist(e), "remove", "RemoveChunk: %v", err)
}

// a chunk upload that fails after k bytes is reported, and repeating it repairs it
func uploadFaults() {
	n := 12
	cs := chunks([]int{n, n, n})
	bad := rt.Choose(3)
	k := rt.Choose(n + 2)
	prev := rt.Choose(3) // nothing, a longer or a shorter chunk was there before
	fsx.Fresh()
	m := newModel()
	for i, c := range cs {
		if i == bad {
			if prev > 0 {
				upload(m, "m", "f", i, 3, fsx.Content("old", []int{0, 20, 3}[prev]))
			}
			var err error
			fsx.FileLimit(k, func() { err = upload(m, "m", "f", i, 3, c) })
			vh.Check(k == n || (err == nil) == (k > n), "upload-fault", "a chunk upload whose write fails after %d of %d bytes returned %v", k, n, err)
			m.check()
			makeFile(m, "f", "m", false)
			if err != nil && rt.Choose(2) == 0 {
				e := upload(m, "m", "f", i, 3, c)
				vh.Check(e == nil, "retry", "the repeated upload failed: %v", e)
			}
			continue
		}
		upload(m, "m", "f", i, 3, c)
	}
	makeFile(m, "f", "m", true)
}

// an assembly that fails after k bytes is reported (at exactly the limit a copy inside the kernel may fail too) and does not leave a wrong file, and can be repeated
func assembleFaults() {
	sz := [][]int{{5, 5, 5}, {1, 0, 9}, {12}}[rt.Choose(3)]
	cs := chunks(sz)
	total := len(strings.Join(cs, ""))
	k := rt.Choose(total + 2)
	old := rt.Choose(3)
	fsx.Fresh()
	m := newModel()
	for i, c := range cs {
		upload(m, "m", "f", i, len(cs), c)
	}
	upload(m, "m2", "g", 0, 1, "other file")
	makeFile(m, "g", "m2", true)
	switch old {
	case 1: // an earlier successful assembly
		makeFile(m, "f", "m", true)
	case 2: // what a crashed assembly left
		part := strings.Join(cs, "")
		if k < total {
			part = part[:k]
		}
		fsx.Put(finishDir+"/f", part)
	}
	var err error
	fsx.FileLimit(k, func() { err = makeFile(m, "f", "m", false) })
	vh.Check(k == total || (err == nil) == (k > total), "assemble-fault", "an assembly whose write fails after %d of %d bytes returned %v", k, total, err)
	if err != nil {
		got, ok := fsx.Get(finishDir + "/f")
		vh.Check(!ok || got == strings.Join(cs, ""), "partial-file", "a failed assembly left a wrong file %.60q", got)
	}
	makeFile(m, "f", "m", true)
}

// chunks that are missing, unreadable, or a directory; a finish directory that cannot be made; too few descriptors
func badChunks() {
	n := 1 + rt.Choose(4)
	bad := rt.Choose(n)
	how := rt.Choose(6)
	fsx.Fresh()
	m := newModel()
	var sz []int
	for i := 0; i < n; i++ {
		sz = append(sz, 3+i)
	}
	for i, c := range chunks(sz) {
		upload(m, "m", "f", i, n, c)
	}
	p := fmt.Sprintf("%s/m/f_%d", chunkDir, bad)
	var err error
	switch how {
	case 0:
		if bad == n-1 {
			rt.Prune() // the end of a file cannot be known to be missing
		}
		os.Remove(p)
		delete(m.chunks, id{"m", "f", bad})
		err = makeFile(m, "f", "m", true)
	case 1:
		os.Chmod(p, 0)
		c := m.chunks[id{"m", "f", bad}]
		delete(m.chunks, id{"m", "f", bad})
		m.broken[id{"m", "f", bad}] = true
		_, err = utils.MakeFile("f", "m")
		os.Chmod(p, 0o644)
		delete(m.broken, id{"m", "f", bad})
		m.chunks[id{"m", "f", bad}] = c
	case 2:
		os.Remove(p)
		os.Mkdir(p, 0o755)
		_, err = utils.MakeFile("f", "m")
		os.Remove(p)
		delete(m.chunks, id{"m", "f", bad})
	case 3:
		os.RemoveAll(finishDir)
		fsx.Put(finishDir, "in the way")
		_, err = utils.MakeFile("f", "m")
		os.Remove(finishDir)
	case 4:
		fsx.OpenLimit(bad%2, func() { _, err = utils.MakeFile("f", "m") })
	case 5:
		os.RemoveAll(chunkDir + "/m")
		m = newModel()
		_, err = utils.MakeFile("f", "m")
	}
	rt.Tracef("case %d: %v", how, err)
	vh.Check(err != nil, "bad-chunk", "MakeFile succeeded although a chunk cannot be read or the file cannot be made (case %d)", how)
	got, ok := fsx.Get(finishDir + "/f")
	vh.Check(!ok || got == "", "partial-file", "a failed assembly left %.60q", got)
	m.check()
	if _, complete := m.whole("m", "f"); complete {
		makeFile(m, "f", "m", true)
	}
}

// the checksum decides exactly
func md5s() {
	l := []string{"", "a", "b", "aa", "\x00", "abc", fsx.Content("x", 1000)}
	ref := []string{"d41d8cd98f00b204e9800998ecf8427e", "0cc175b9c0f1b6a831c399e269772661", "92eb5ffee6ae2fec3ad71c777531578f", "4124bc0a9335c27f086f24ba207a4912", "93b885adfe0da089cdf634904fd59f71", "900150983cd24fb0d6963f7d28e17f72", ""}
	i, j := rt.Choose(len(l)), rt.Choose(len(l))
	if ref[j] != "" {
		vh.Eq("md5", utils.MD5V([]byte(l[j])), ref[j])
	}
	var sum string
	vh.Do("MD5V", func() { sum = utils.MD5V([]byte(l[j])) })
	var ok bool
	vh.Do("CheckMd5", func() { ok = utils.CheckMd5([]byte(l[i]), sum) })
	vh.Check(ok == (i == j), "checkmd5", "CheckMd5(%.10q, md5 of %.10q) = %v", l[i], l[j], ok)
	for p := 0; p < len(sum); p++ {
		c := byte('0')
		if sum[p] == '0' {
			c = '1'
		}
		vh.Check(!utils.CheckMd5([]byte(l[j]), sum[:p]+string(c)+sum[p+1:]), "checkmd5", "CheckMd5 accepts a sum that differs in character %d", p)
		vh.Check(!utils.CheckMd5([]byte(l[j]), sum[:p]), "checkmd5", "CheckMd5 accepts a prefix of the sum")
	}
}

// large contents that differ in one place only
func md5Large() {
	n := []int{64, 4095, 4097, 65537, 1 << 20, 1<<22 + 5, 1<<24 + 1}[rt.Choose(7)]
	b := []byte(fsx.Content("big", n))
	var sum string
	vh.DoN("MD5V", n, func() { sum = utils.MD5V(b) })
	vh.Eq("md5", sum, fmt.Sprintf("%x", md5.Sum(b)))
	p := []int{0, n / 2, n - 1, n * 3 / 4, 1023 % n, 65536 % n}[rt.Choose(6)]
	vh.DoN("CheckMd5", n, func() {
		vh.Check(utils.CheckMd5(b, sum), "checkmd5", "CheckMd5 refuses a content of %d bytes", n)
		b[p] ^= 1
		vh.Check(!utils.CheckMd5(b, sum), "checkmd5", "CheckMd5 accepts a content of %d bytes that differs in byte %d", n, p)
		b[p] ^= 1
		vh.Check(!utils.CheckMd5(b[:n-1], sum), "checkmd5", "CheckMd5 accepts a content without its last byte")
		vh.Check(!utils.CheckMd5(append(b, 0), sum), "checkmd5", "CheckMd5 accepts a content with a byte added")
	})
}

func main() {
	vh.Main("C27", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "md5", Split: 1, Body: md5s},
			{Name: "md5-large", Split: 2, Body: md5Large},
			{Name: "sizes", Split: 3, Body: sizes},
			{Name: "replaced", Split: 2, Body: replaced},
			{Name: "ids", Split: 1, Body: ids},
			{Name: "hostile", Split: 2, Body: hostile(vh.D(4, 5))},
			{Name: "many", Split: 1, Body: many},
			{Name: "upload-faults", Split: 3, Body: uploadFaults},
			{Name: "assemble-faults", Split: 3, Body: assembleFaults},
			{Name: "bad-chunks", Split: 3, Body: badChunks},
			{Name: "seq", Split: 3, Body: sequences(vh.D(5, 7))},
		}
	})
}
