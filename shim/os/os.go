// Package os is the stand-in for package os: the same operations on the real file system, with a scheduling and
// stopping point (rt.FS) before each.
package os

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

// File is an open file.
type File struct{ f *os.File }

var (
	Stdin  = &File{os.Stdin}
	Stdout = &File{os.Stdout}
	Stderr = &File{os.Stderr}
)

// open holds the files a process that may be stopped has open.
var open = map[*os.File]bool{}

func init() {
	rt.FSGone = func() {
		for f := range open {
			if rt.FSDead {
				f.Close()
			}
			delete(open, f)
		}
	}
}

func wrap(f *os.File, err error) (*File, error) {
	if f == nil {
		return nil, err
	}
	if rt.FSHook != nil {
		open[f] = true
	}
	return &File{f}, err
}

func NewFile(fd uintptr, name string) *File {
	f, _ := wrap(os.NewFile(fd, name), nil)
	return f
}

func at(op, path string, change bool) error {
	if rt.FS(op, path, 0, change).Kind == rt.FSFail {
		return &PathError{Op: op, Path: path, Err: rt.FSErr}
	}
	return nil
}

func read(op, path string) error { return at(op, path, false) }

// write writes b with w, or as much of it as is written before a failure or a stop.
func write(path string, b []byte, w func([]byte) (int, error)) (int, error) {
	a := rt.FS("write", path, len(b), true)
	if a.Kind == rt.FSGo {
		return w(b)
	}
	n, err := w(b[:a.N])
	if a.Kind == rt.FSStop {
		rt.FSHalt()
	}
	if err == nil {
		err = &PathError{Op: "write", Path: path, Err: rt.FSErr}
	}
	return n, err
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if err := at("open", name, flag&(os.O_CREATE|os.O_TRUNC) != 0); err != nil {
		return nil, err
	}
	return wrap(os.OpenFile(name, flag, perm))
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// do1 and do2 pass one operation.
func do1(op, path string, change bool, f func() error) error {
	if err := at(op, path, change); err != nil {
		return err
	}
	return f()
}

func do2[T any](op, path string, change bool, f func() (T, error)) (T, error) {
	if err := at(op, path, change); err != nil {
		var z T
		return z, err
	}
	return f()
}

func CreateTemp(dir, pattern string) (*File, error) {
	return do2("create", pattern, true, func() (*File, error) { return wrap(os.CreateTemp(dir, pattern)) })
}

func MkdirTemp(dir, pattern string) (string, error) {
	return do2("mkdir", pattern, true, func() (string, error) { return os.MkdirTemp(dir, pattern) })
}

func OpenInRoot(dir, name string) (*File, error) { return wrap(os.OpenInRoot(dir, name)) }

func Pipe() (r, w *File, err error) {
	a, b, err := os.Pipe()
	r, _ = wrap(a, nil)
	w, _ = wrap(b, nil)
	return r, w, err
}

func (f *File) real() *os.File {
	if f == nil {
		return nil
	}
	return f.f
}

func (f *File) name() string {
	if f == nil {
		return "<nil>"
	}
	return f.f.Name()
}

func (f *File) Name() string { return f.f.Name() }
func (f *File) Fd() uintptr  { return f.f.Fd() }

func (f *File) Close() error {
	if rt.FSDead || rt.Ending() { // the descriptor of a stopped process goes with it
		return f.real().Close()
	}
	rt.FS("close", f.name(), 0, false) // closing does not fail
	return f.real().Close()
}

func (f *File) Read(b []byte) (int, error) {
	return do2("read", f.name(), false, func() (int, error) { return f.real().Read(b) })
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	return do2("read", f.name(), false, func() (int, error) { return f.real().ReadAt(b, off) })
}

func (f *File) Write(b []byte) (int, error) {
	return write(f.name(), b, f.real().Write)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return write(f.name(), b, func(b []byte) (int, error) { return f.real().WriteAt(b, off) })
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, struct{ io.Reader }{r})
}

func (f *File) Seek(off int64, whence int) (int64, error) { // seeking in a file does not fail by itself
	rt.FS("seek", f.name(), 0, false)
	return f.real().Seek(off, whence)
}

func (f *File) Truncate(n int64) error {
	return do1("truncate", f.name(), true, func() error { return f.real().Truncate(n) })
}

func (f *File) Stat() (FileInfo, error) {
	return do2("stat", f.name(), false, f.real().Stat)
}

func (f *File) Sync() error { return do1("sync", f.name(), false, f.real().Sync) }

func (f *File) Chmod(m FileMode) error {
	return do1("chmod", f.name(), true, func() error { return f.real().Chmod(m) })
}

func (f *File) Chown(u, g int) error {
	return do1("chown", f.name(), true, func() error { return f.real().Chown(u, g) })
}

func (f *File) Chdir() error                          { return f.real().Chdir() }
func (f *File) SetDeadline(t time.Time) error         { return f.real().SetDeadline(t) }
func (f *File) SetReadDeadline(t time.Time) error     { return f.real().SetReadDeadline(t) }
func (f *File) SetWriteDeadline(t time.Time) error    { return f.real().SetWriteDeadline(t) }
func (f *File) SyscallConn() (syscall.RawConn, error) { return f.real().SyscallConn() }

func (f *File) Readdir(n int) ([]FileInfo, error) {
	return do2("readdir", f.name(), false, func() ([]FileInfo, error) { return f.real().Readdir(n) })
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	return do2("readdir", f.name(), false, func() ([]DirEntry, error) { return f.real().ReadDir(n) })
}

func (f *File) Readdirnames(n int) ([]string, error) {
	return do2("readdir", f.name(), false, func() ([]string, error) { return f.real().Readdirnames(n) })
}

func Chdir(dir string) error { return os.Chdir(dir) }

func Chmod(p string, m FileMode) error {
	return do1("chmod", p, true, func() error { return os.Chmod(p, m) })
}
func Chown(p string, u, g int) error {
	return do1("chown", p, true, func() error { return os.Chown(p, u, g) })
}
func Lchown(p string, u, g int) error {
	return do1("chown", p, true, func() error { return os.Lchown(p, u, g) })
}
func Chtimes(p string, a, m time.Time) error {
	return do1("chtimes", p, true, func() error { return os.Chtimes(p, a, m) })
}
func Link(a, b string) error { return do1("link", b, true, func() error { return os.Link(a, b) }) }
func Symlink(a, b string) error {
	return do1("symlink", b, true, func() error { return os.Symlink(a, b) })
}
func Mkdir(p string, m FileMode) error {
	return do1("mkdir", p, true, func() error { return os.Mkdir(p, m) })
}
func Remove(p string) error { return do1("remove", p, true, func() error { return os.Remove(p) }) }
func Rename(a, b string) error {
	return do1("rename", b, true, func() error { return os.Rename(a, b) })
}
func Truncate(p string, n int64) error {
	return do1("truncate", p, true, func() error { return os.Truncate(p, n) })
}
func Stat(p string) (FileInfo, error) {
	return do2("stat", p, false, func() (FileInfo, error) { return os.Stat(p) })
}
func Lstat(p string) (FileInfo, error) {
	return do2("lstat", p, false, func() (FileInfo, error) { return os.Lstat(p) })
}
func Readlink(p string) (string, error) {
	return do2("readlink", p, false, func() (string, error) { return os.Readlink(p) })
}
func ReadDir(p string) ([]DirEntry, error) {
	return do2("readdir", p, false, func() ([]DirEntry, error) { return os.ReadDir(p) })
}
func CopyFS(dir string, f fs.FS) error {
	return do1("copyfs", dir, true, func() error { return os.CopyFS(dir, f) })
}

// MkdirAll makes one directory after the other.
func MkdirAll(p string, m FileMode) error {
	if err := read("stat", p); err != nil {
		return err
	}
	if fi, err := os.Stat(p); err == nil && fi.IsDir() {
		return nil
	}
	if d := filepath.Dir(p); d != p {
		if fi, err := os.Stat(d); err != nil || !fi.IsDir() {
			if err := MkdirAll(d, m); err != nil {
				return err
			}
		}
	}
	return do1("mkdir", p, true, func() error { return os.MkdirAll(p, m) })
}

// RemoveAll removes one entry after the other.
func RemoveAll(p string) error {
	if fi, err := os.Lstat(p); err == nil && fi.IsDir() && filepath.Base(p) != "." && p[len(p)-1] != '.' {
		if err := read("readdir", p); err != nil {
			return err
		}
		l, _ := os.ReadDir(p)
		for _, e := range l {
			if err := RemoveAll(p + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	return do1("remove", p, true, func() error { return os.RemoveAll(p) })
}

// ReadFile opens and reads, as the real one does.
func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := do2("read", p, false, func() ([]byte, error) { return io.ReadAll(f.f) })
	if err != nil && b == nil { // the real one returns what it has read so far
		b, _ = io.ReadAll(f.f)
		b = b[:len(b)/2]
	}
	return b, err
}

func WriteFile(p string, b []byte, m FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
