package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// The root of a file system: the calls run in a child of the harness, in a user namespace of its own, whose root
// is a scratch directory. Where no such child can be made, the scenario explores nothing.

var rootTrees = [][]string{
	nil,
	{"f"},
	{"f", "d/"},
	{"d/f", "d/e/", "g"},
	{"a/b/c/d", "a/b/x", "a/y", "z", ".h", ".i/j"},
	{"d/d/d", "d/dd", "dd"},
}

var rootCalls = []string{"ScanDir /", "ScanDir //", "ScanDir /d", "ScanDir /d/", "ScanDir /.", "ScanDir /none", "predicates /", "predicates /d",
	"predicates /f", "predicates /none", "CreateDir /", "MkDir /", "CreateDir /n/m", "FileMove /f /n/g", "CopyFile /c /f"}

type rootAnswer struct {
	Call   string
	Answer string
	After  []string
}

// rootChild performs the calls named by its arguments and prints what they said and left
func rootChild(calls []string) {
	var l []rootAnswer
	for _, c := range calls {
		a := strings.Split(c, " ")
		r := ""
		switch a[0] {
		case "ScanDir":
			fs, err := utils.ScanDir(a[1])
			for i := range fs {
				fs[i] = filepath.Clean(fs[i])
			}
			sort.Strings(fs)
			r = fmt.Sprint(fs, err != nil)
		case "predicates":
			ok, err := utils.PathExists(a[1])
			r = fmt.Sprint(ok, err != nil, utils.IsDir(a[1]), utils.IsFile(a[1]), utils.FileExist(a[1]), utils.FileIsExisted(a[1]))
		case "CreateDir":
			r = fmt.Sprint(utils.CreateDir(a[1]) != nil)
		case "MkDir":
			r = fmt.Sprint(utils.MkDir(a[1]) != nil)
		case "FileMove":
			r = fmt.Sprint(utils.FileMove(a[1], a[2]) != nil)
		case "CopyFile":
			n, err := utils.CopyFile(a[1], a[2])
			r = fmt.Sprint(n, err != nil)
		}
		var after []string
		filepath.Walk("/", func(p string, i os.FileInfo, err error) error {
			if err == nil && p != "/" && p != "/exe" {
				if i.IsDir() {
					p += "/"
				}
				after = append(after, p)
			}
			return nil
		})
		l = append(l, rootAnswer{c, r, after})
	}
	b, _ := json.Marshal(l)
	os.Stdout.Write(b)
}

// rootModel says what a call gives and leaves; paths as in After, without "/exe"
func rootModel(t map[string]bool, call string) string {
	a := strings.Split(call, " ")
	p := filepath.Clean(a[1])
	isDir := p == "/" || t[p+"/"]
	isFile := t[p]
	mkdir := func(p string) {
		for p != "/" {
			t[p+"/"] = true
			p = filepath.Dir(p)
		}
	}
	switch a[0] {
	case "ScanDir":
		if !isDir {
			return fmt.Sprint([]string{}, true)
		}
		l := []string{}
		for f := range t {
			if !strings.HasSuffix(f, "/") && (p == "/" || strings.HasPrefix(f, p+"/")) {
				l = append(l, f)
			}
		}
		if p == "/" {
			l = append(l, "/exe")
		}
		sort.Strings(l)
		return fmt.Sprint(l, false)
	case "predicates":
		return fmt.Sprint(isDir, isFile, isDir, isFile, isFile, isDir || isFile)
	case "CreateDir", "MkDir":
		mkdir(p)
		return fmt.Sprint(false)
	case "FileMove":
		mkdir(filepath.Dir(a[2]))
		if !isFile {
			return fmt.Sprint(true)
		}
		delete(t, p)
		t[a[2]] = true
		return fmt.Sprint(false)
	}
	if !t[a[2]] {
		return fmt.Sprint(0, true)
	}
	t[p] = true
	return fmt.Sprint(7, false)
}

func root() {
	tree := rootTrees[rt.Choose(len(rootTrees))]
	c1 := rootCalls[rt.Choose(len(rootCalls))]
	calls := append([]string{c1}, rootCalls...)
	if strings.HasPrefix(c1, "FileMove") { // with a missing source it may leave the directory of the target or not
		calls = calls[1:]
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, _ := os.MkdirTemp(".", "root")
	dir, _ = filepath.Abs(dir)
	defer os.RemoveAll(dir)
	m := map[string]bool{}
	for _, f := range tree {
		full := filepath.Join(dir, f)
		if strings.HasSuffix(f, "/") {
			os.MkdirAll(full, 0755)
		} else {
			os.MkdirAll(filepath.Dir(full), 0755)
			os.WriteFile(full, []byte("content"), 0644)
			m["/"+f] = true
		}
		for p := "/" + strings.TrimSuffix(f, "/"); p != "/"; p = filepath.Dir(p) {
			if !m[p] {
				m[p+"/"] = true
			}
		}
	}
	b, err := os.ReadFile(exe)
	if err == nil {
		err = os.WriteFile(dir+"/exe", b, 0755)
	}
	if err != nil {
		panic(err)
	}
	c := exec.Command("/exe", append([]string{"root-child"}, calls...)...)
	c.Dir = "/"
	c.Env = []string{"GOMAXPROCS=1"}
	c.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER, Chroot: dir, UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}}
	var errText strings.Builder
	c.Stderr = &errText
	out, err := c.Output()
	if c.ProcessState == nil {
		rt.Tracef("no root of its own: %v", err)
		return
	}
	vh.Check(err == nil, "crash", "the process that called the helpers ended with %v: %.300s", err, errText.String())
	var l []rootAnswer
	if err := json.Unmarshal(out, &l); err != nil {
		panic(err)
	}
	for _, r := range l {
		want := rootModel(m, r.Call)
		rt.Tracef("in a root of %v: %s -> %s", tree, r.Call, r.Answer)
		vh.Eq("root", r.Answer, want)
		var after []string
		for p := range m {
			after = append(after, p)
		}
		sort.Strings(after)
		sort.Strings(r.After)
		vh.Eq("root-content", fmt.Sprint(r.After), fmt.Sprint(after))
	}
	rt.Transition(int64(len(l)))
}
