// Package ioutil stands in for the real one.
package ioutil

import (
	"io"
	"io/fs"

	"verifsim/shim/os"
)

// Discard and friends.
var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }

// ReadDir lists sorted infos.
func ReadDir(dir string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	out := make([]fs.FileInfo, 0, len(es))
	for _, e := range es {
		in, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, in)
	}
	return out, nil
}
