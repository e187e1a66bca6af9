// Package filepath stands in for the real one where it touches the disk.
package filepath

import (
	"errors"
	"io/fs"
	real "path/filepath"
	"sort"
	"strings"
	"syscall"

	"verifsim/rt"
	"verifsim/shim/os"
)

// Abs uses the working directory of the simulated process.
func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join(rt.Cur().Cwd, p), nil
}

// Walk is the real algorithm over the simulated disk.
func Walk(root string, fn real.WalkFunc) error {
	in, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, in, fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walk(p string, in fs.FileInfo, fn real.WalkFunc) error {
	if !in.IsDir() {
		return fn(p, in, nil)
	}
	names, err := readDirNames(p)
	err1 := fn(p, in, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		q := real.Join(p, n)
		fi, err := os.Lstat(q)
		if err != nil {
			if err := fn(q, fi, err); err != nil && err != real.SkipDir {
				return err
			}
		} else {
			err = walk(q, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != real.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func readDirNames(dir string) ([]string, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	return names, nil
}

// WalkDir is the real algorithm over the simulated disk.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	in, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(in), fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == real.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == real.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(real.Join(p, e.Name()), e, fn); err != nil {
			if err == real.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Glob is the real algorithm over the simulated disk.
func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !strings.ContainsAny(dir, `*?[\`) {
		return glob(dir, file, nil)
	}
	if dir == pattern {
		return nil, real.ErrBadPattern
	}
	m, err := Glob(dir)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range m {
		if out, err = glob(d, file, out); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func glob(dir, pattern string, m []string) ([]string, error) {
	in, err := os.Stat(dir)
	if err != nil || !in.IsDir() {
		return m, nil
	}
	names, err := readDirNames(dir)
	if err != nil {
		return m, nil
	}
	for _, n := range names {
		ok, err := real.Match(pattern, n)
		if err != nil {
			return m, err
		}
		if ok {
			m = append(m, real.Join(dir, n))
		}
	}
	return m, nil
}

// EvalSymlinks resolves links.
func EvalSymlinks(p string) (string, error) {
	for i := 0; i < 255; i++ {
		parts := strings.Split(real.Clean(p), "/")
		changed := false
		for j := range parts {
			pre := strings.Join(parts[:j+1], "/")
			if pre == "" || pre == "." || pre == ".." {
				continue
			}
			in, err := os.Lstat(pre)
			if err != nil {
				return "", err
			}
			if in.Mode()&fs.ModeSymlink != 0 {
				t, err := os.Readlink(pre)
				if err != nil {
					return "", err
				}
				if !real.IsAbs(t) {
					t = real.Join(real.Dir(pre), t)
				}
				p = real.Join(append([]string{t}, parts[j+1:]...)...)
				changed = true
				break
			}
		}
		if !changed {
			return real.Clean(p), nil
		}
	}
	return "", &fs.PathError{Op: "EvalSymlinks", Path: p, Err: syscall.ELOOP}
}

var _ = errors.New
