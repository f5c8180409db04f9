// Package ioutil is the stand-in for io/ioutil on top of shim/os.
package ioutil

import (
	"io"
	"io/fs"
	"sort"

	"github.com/ahKevinXy/go-web-tools/zzverif/shim/os"
)

var Discard = io.Discard

func NopCloser(r io.Reader) io.ReadCloser    { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)    { return io.ReadAll(r) }
func ReadFile(p string) ([]byte, error)      { return os.ReadFile(p) }
func TempDir(d, p string) (string, error)    { return os.MkdirTemp(d, p) }
func TempFile(d, p string) (*os.File, error) { return os.CreateTemp(d, p) }

func WriteFile(p string, b []byte, m fs.FileMode) error { return os.WriteFile(p, b, m) }

func ReadDir(p string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var o []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		o = append(o, i)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Name() < o[j].Name() })
	return o, nil
}
