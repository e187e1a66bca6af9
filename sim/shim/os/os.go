// Package os stands in for the real package os in simulated processes.
package os

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// Args are the arguments of the simulated process.
var Args []string

// Standard streams of the simulated process.
var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

func init() { rt.RegisterReset(reset) }

func reset() {
	Args = append([]string(nil), rt.Cur().Args...)
	Stdin = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
}

// File is an open simulated file.
type File struct {
	h    *rt.Handle
	name string
	std  int
	rest []rt.DirEntry
}

func perr(op, p string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	if e == rt.ErrClosed {
		return &fs.PathError{Op: op, Path: p, Err: fs.ErrClosed}
	}
	return &fs.PathError{Op: op, Path: p, Err: e}
}

type info struct{ rt.Info }

func (i info) Name() string       { return i.Info.Name }
func (i info) Size() int64        { return i.Info.Size }
func (i info) Mode() fs.FileMode  { return i.Info.Mode }
func (i info) ModTime() time.Time { return i.Info.Mtime }
func (i info) IsDir() bool        { return i.Info.Mode.IsDir() }
func (i info) Sys() any           { return &syscall.Stat_t{Ino: uint64(i.Info.Ino), Size: i.Info.Size} }

// SameFile compares files.
func SameFile(a, b FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && rt.Same(x.Info, y.Info)
}

func base(p string) string {
	for len(p) > 1 && strings.HasSuffix(p, "/") {
		p = p[:len(p)-1]
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 && len(p) > 1 {
		p = p[i+1:]
	}
	return p
}

// Stat follows links.
func Stat(name string) (FileInfo, error) {
	in, e := rt.Stat(name, true)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	in.Name = base(name)
	return info{in}, nil
}

// Lstat does not.
func Lstat(name string) (FileInfo, error) {
	in, e := rt.Stat(name, false)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	in.Name = base(name)
	return info{in}, nil
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create truncates or makes a file.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// OpenFile is the general form.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, e := rt.Open(name, flag, perm)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return &File{h: h, name: name}, nil
}

// NewFile is not simulated.
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	return nil
}

// Name returns the name given to Open.
func (f *File) Name() string { return f.name }

// Fd returns a descriptor number.
func (f *File) Fd() uintptr {
	if f == nil {
		return ^(uintptr(0))
	}
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return uintptr(f.h.ID + 2)
}

// Read reads.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return 0, io.EOF
	}
	n, e := f.h.Read(b)
	if e != 0 {
		return 0, perr("read", f.name, e)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// ReadAt reads at an offset until b is full.
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	for len(b) > 0 {
		m, e := f.h.ReadAt(b, off)
		if e != 0 {
			return n, perr("read", f.name, e)
		}
		if m == 0 {
			return n, io.EOF
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

// ReadFrom copies from r.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyWriter{f}, r)
}

// WriteTo copies to w.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, onlyReader{f})
}

type onlyWriter struct{ f *File }

func (o onlyWriter) Write(b []byte) (int, error) { return o.f.Write(b) }

type onlyReader struct{ f *File }

func (o onlyReader) Read(b []byte) (int, error) { return o.f.Read(b) }

// Write writes all of b.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	switch f.std {
	case 1:
		return 0, perr("write", f.name, syscall.EBADF)
	case 2:
		if p := rt.Cur(); p != nil {
			rt.Yield(-1)
			p.Out.Write(b)
			rt.W.Note("stdout", "")
		}
		return len(b), nil
	case 3:
		if p := rt.Cur(); p != nil {
			rt.Yield(-1)
			p.ErrOut.Write(b)
		}
		return len(b), nil
	}
	n, e := f.h.Write(b)
	if e != 0 {
		return n, perr("write", f.name, e)
	}
	if n != len(b) {
		return n, io.ErrShortWrite
	}
	return n, nil
}

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "writeat", Path: f.name, Err: errors.New("negative offset")}
	}
	n, e := f.h.WriteAt(b, off)
	return n, perr("write", f.name, e)
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek moves.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	f.rest = nil
	n, e := f.h.Seek(off, whence)
	return n, perr("seek", f.name, e)
}

// Close closes.
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.std > 0 {
		return nil
	}
	return perr("close", f.name, f.h.Close())
}

// Sync flushes.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	return perr("sync", f.name, f.h.Sync())
}

// Truncate changes the size.
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, f.h.Truncate(n))
}

// Stat describes the file.
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std > 0 {
		return info{rt.Info{Name: base(f.name), Mode: fs.ModeCharDevice | fs.ModeDevice | 0o620}}, nil
	}
	in, e := f.h.Stat()
	if e != 0 {
		return nil, perr("stat", f.name, e)
	}
	in.Name = base(f.name)
	return info{in}, nil
}

// Chmod changes the mode.
func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	return perr("chmod", f.name, f.h.Chmod(m))
}

// Chown does nothing.
func (f *File) Chown(uid, gid int) error { return f.check("chown") }

// Chdir changes directory.
func (f *File) Chdir() error { return Chdir(f.name) }

// SetDeadline is not supported for files.
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

type dirEntry struct {
	dir string
	e   rt.DirEntry
}

func (d dirEntry) Name() string               { return d.e.Name }
func (d dirEntry) IsDir() bool                { return d.e.Mode.IsDir() }
func (d dirEntry) Type() fs.FileMode          { return d.e.Mode.Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return Lstat(d.dir + "/" + d.e.Name) }
func (d dirEntry) String() string             { return fs.FormatDirEntry(d) }

// ReadDir lists in directory order.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	es, end, e := f.h.ReadDir(n)
	out := make([]DirEntry, 0, len(es))
	for _, x := range es {
		out = append(out, dirEntry{f.name, x})
	}
	if e != 0 {
		return out, perr("readdirent", f.name, e)
	}
	if n > 0 && len(out) == 0 && end {
		return out, io.EOF
	}
	return out, nil
}

// Readdirnames lists names in directory order.
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	out := make([]string, 0, len(es))
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// Readdir lists infos in directory order.
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	out := make([]FileInfo, 0, len(es))
	for _, e := range es {
		in, ierr := e.Info()
		if IsNotExist(ierr) {
			continue
		}
		if ierr != nil {
			return out, ierr
		}
		out = append(out, in)
	}
	return out, err
}

// ReadDir lists sorted.
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

// ReadFile reads a whole file, as the real one does.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var size int
	if in, err := f.Stat(); err == nil {
		size = int(in.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

// WriteFile writes a whole file, as the real one does.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Mkdir makes a directory.
func Mkdir(name string, perm FileMode) error { return perr("mkdir", name, rt.Mkdir(name, perm)) }

// MkdirAll makes directories, as the real one does.
func MkdirAll(p string, perm FileMode) error {
	dir, err := Stat(p)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return &PathError{Op: "mkdir", Path: p, Err: syscall.ENOTDIR}
	}
	i := len(p) - 1
	for i >= 0 && p[i] == '/' {
		i--
	}
	for i >= 0 && p[i] != '/' {
		i--
	}
	if i < 0 {
		i = -1
	}
	if parent := p[:i+1]; len(parent) > 1 {
		if err = MkdirAll(strings.TrimRight(parent, "/"), perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		dir, err1 := Lstat(p)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

// Remove removes a file or an empty directory.
func Remove(name string) error { return perr("remove", name, rt.Remove(name)) }

// RemoveAll removes a tree.
func RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, "/.") || p == "." {
		return &PathError{Op: "RemoveAll", Path: p, Err: syscall.EINVAL}
	}
	err := Remove(p)
	if err == nil || IsNotExist(err) {
		return nil
	}
	in, serr := Lstat(p)
	if serr != nil {
		if IsNotExist(serr) {
			return nil
		}
		return serr
	}
	if !in.IsDir() {
		return err
	}
	es, err := ReadDir(p)
	if err != nil && !IsNotExist(err) {
		return err
	}
	var first error
	for _, e := range es {
		if err := RemoveAll(p + "/" + e.Name()); err != nil && first == nil {
			first = err
		}
	}
	err = Remove(p)
	if err == nil || IsNotExist(err) {
		return nil
	}
	if first != nil {
		return first
	}
	return err
}

// Rename moves.
func Rename(from, to string) error {
	if e := rt.Rename(from, to); e != 0 {
		return &LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

// Link makes a hard link.
func Link(from, to string) error {
	if e := rt.Link(from, to); e != 0 {
		return &LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	return nil
}

// Symlink makes a symbolic link.
func Symlink(target, p string) error {
	if e := rt.Symlink(target, p); e != 0 {
		return &LinkError{Op: "symlink", Old: target, New: p, Err: e}
	}
	return nil
}

// Readlink reads a symbolic link.
func Readlink(p string) (string, error) {
	t, e := rt.Readlink(p)
	return t, perr("readlink", p, e)
}

// Chmod and friends change attributes.
func Chmod(p string, m FileMode) error       { return perr("chmod", p, rt.Chmod(p, m)) }
func Chown(p string, u, g int) error         { return perr("chown", p, rt.Chown(p)) }
func Lchown(p string, u, g int) error        { return perr("lchown", p, rt.Chown(p)) }
func Chtimes(p string, a, m time.Time) error { return perr("chtimes", p, rt.Chtimes(p, m)) }
func Truncate(p string, n int64) error       { return perr("truncate", p, rt.Truncate(p, n)) }
func Chdir(p string) error                   { return perr("chdir", p, rt.Chdir(p)) }
func Getwd() (string, error)                 { return rt.Cur().Cwd, nil }
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func nextRandom() string { return strconv.FormatUint(rt.Rand().Uint64()&0xffffffff, 10) }

func prefixAndSuffix(pattern string) (prefix, suffix string, err error) {
	if strings.Contains(pattern, "/") {
		return "", "", errors.New("pattern contains path separator")
	}
	prefix = pattern
	if pos := strings.LastIndexByte(pattern, '*'); pos != -1 {
		prefix, suffix = pattern[:pos], pattern[pos+1:]
	}
	return
}

// CreateTemp makes a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix, err := prefixAndSuffix(pattern)
	if err != nil {
		return nil, &PathError{Op: "createtemp", Path: pattern, Err: err}
	}
	for try := 0; ; try++ {
		name := strings.TrimSuffix(dir, "/") + "/" + prefix + nextRandom() + suffix
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

// MkdirTemp makes a temporary directory.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix, err := prefixAndSuffix(pattern)
	if err != nil {
		return "", &PathError{Op: "mkdirtemp", Path: pattern, Err: err}
	}
	for try := 0; ; try++ {
		name := strings.TrimSuffix(dir, "/") + "/" + prefix + nextRandom() + suffix
		err := Mkdir(name, 0700)
		if err == nil {
			return name, nil
		}
		if IsExist(err) && try < 10000 {
			continue
		}
		return "", err
	}
}

// Exit ends the simulated process.
func Exit(code int) { rt.ExitProc(code) }

// Environment of the simulated process.
func Getenv(k string) string {
	v, _ := rt.Getenv(k)
	return v
}
func LookupEnv(k string) (string, bool) { return rt.Getenv(k) }
func Setenv(k, v string) error          { rt.Cur().Env[k] = v; return nil }
func Unsetenv(k string) error           { rt.Unsetenv(k); return nil }
func Clearenv()                         { rt.Cur().Env = map[string]string{} }
func Environ() []string {
	var out []string
	for k, v := range rt.Cur().Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string { return Expand(s, Getenv) }

func Getpid() int                    { return rt.W.Cfg.Pid }
func Getppid() int                   { return 1 }
func Getuid() int                    { return 1000 }
func Geteuid() int                   { return 1000 }
func Getgid() int                    { return 1000 }
func Getegid() int                   { return 1000 }
func Getgroups() ([]int, error)      { return []int{1000}, nil }
func Getpagesize() int               { return 4096 }
func Hostname() (string, error)      { return rt.W.Cfg.Host, nil }
func Executable() (string, error)    { return "/usr/bin/xgen", nil }
func UserHomeDir() (string, error)   { return dirEnv("HOME", "") }
func UserCacheDir() (string, error)  { return dirEnv("HOME", "/.cache") }
func UserConfigDir() (string, error) { return dirEnv("HOME", "/.config") }

func dirEnv(k, suffix string) (string, error) {
	if d := Getenv(k); d != "" {
		return d + suffix, nil
	}
	return "", errors.New("$" + k + " is not defined")
}

type dirFS string

// DirFS is a file system below dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) { return ReadFile(path.Join(string(d), name)) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	return ReadDir(path.Join(string(d), name))
}
func (d dirFS) Stat(name string) (fs.FileInfo, error) { return Stat(path.Join(string(d), name)) }

// Process is not simulated.
type Process struct{ Pid int }

// FindProcess finds only the process itself.
func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }

// Signal fails.
func (p *Process) Signal(s Signal) error { return ErrProcessDone }

var _ = runtime.GOOS
