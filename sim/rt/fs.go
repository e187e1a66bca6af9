package rt

import (
	"io/fs"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino    int
	Mode   fs.FileMode
	Data   []byte
	Kids   map[string]*Inode
	Target string
	Mtime  time.Time
	Nlink  int

	synced []byte // what is certainly on disk
	dirty  bool
}

// IsDir reports whether the inode is a directory.
func (n *Inode) IsDir() bool { return n.Mode.IsDir() }

// FS is the simulated disk; it outlives the processes.
type FS struct {
	Enforce bool // permissions bind the user
	root    *Inode
	inos    int
	used    int64
	journal []func() // undo of metadata operations that a power loss may take back
	w       *World
	tick    int64
	Stamp   int64 // offset of all time stamps
	fmax    int64
}

// NewFS returns an empty disk.
func NewFS() *FS {
	f := &FS{}
	f.root = f.inode(fs.ModeDir | 0o755)
	return f
}

var epoch = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)

func (f *FS) now() time.Time {
	f.tick++
	return epoch.Add(time.Duration(f.Stamp)*time.Second + time.Duration(f.tick)*time.Millisecond)
}

func (f *FS) inode(mode fs.FileMode) *Inode {
	f.inos++
	n := &Inode{Ino: f.inos, Mode: mode, Mtime: f.now(), Nlink: 1}
	if mode.IsDir() {
		n.Kids = map[string]*Inode{}
	}
	return n
}

// ---- harness access (no faults, no events)

func split(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			out = append(out, s)
		}
	}
	return out
}

// PutDir makes a directory and its parents.
func (f *FS) PutDir(p string) *Inode {
	n := f.root
	for _, s := range split(path.Clean(p)) {
		k := n.Kids[s]
		if k == nil {
			k = f.inode(fs.ModeDir | 0o755)
			n.Kids[s] = k
		}
		n = k
	}
	return n
}

// Put writes a file, durably.
func (f *FS) Put(p string, data []byte) *Inode {
	p = path.Clean(p)
	d := f.PutDir(path.Dir(p))
	b := path.Base(p)
	n := d.Kids[b]
	if n == nil || n.IsDir() {
		n = f.inode(0o644)
		d.Kids[b] = n
	}
	f.used += int64(len(data) - len(n.Data))
	n.Data = append([]byte(nil), data...)
	n.synced = n.Data
	n.dirty = false
	n.Mtime = f.now()
	return n
}

// Chmod sets the permissions of an existing path.
func (f *FS) Chmod(p string, mode fs.FileMode) {
	if n := f.peek(p); n != nil {
		n.Mode = n.Mode&^0o777 | mode&0o777
	}
}

// bars tells that the permissions of n do not let its owner do something.
// Without Enforce the user is not bound by permissions.
func (f *FS) bars(n *Inode, need fs.FileMode) bool {
	return f.Enforce && n != nil && n.Mode&need != need
}

// PutLink makes a symbolic link.
func (f *FS) PutLink(p, target string) {
	p = path.Clean(p)
	d := f.PutDir(path.Dir(p))
	n := f.inode(fs.ModeSymlink | 0o777)
	n.Target = target
	d.Kids[path.Base(p)] = n
}

// PutHard gives an existing file another name.
func (f *FS) PutHard(p, old string) bool {
	n := f.peek(old)
	if n == nil || n.IsDir() || f.peek(p) != nil {
		return false
	}
	f.PutDir(path.Dir(path.Clean(p))).Kids[path.Base(path.Clean(p))] = n
	n.Nlink++
	return true
}

// Touch sets the time of modification.
func (f *FS) Touch(p string, at int64) {
	if n := f.peek(p); n != nil {
		n.Mtime = epoch.Add(time.Duration(at) * time.Second)
	}
}

// Del removes an entry.
func (f *FS) Del(p string) {
	p = path.Clean(p)
	d := f.peek(path.Dir(p))
	if d != nil && d.Kids != nil {
		delete(d.Kids, path.Base(p))
	}
}

func (f *FS) peek(p string) *Inode {
	n := f.root
	for _, s := range split(path.Clean(p)) {
		if n == nil || n.Kids == nil {
			return nil
		}
		n = n.Kids[s]
	}
	return n
}

// Get returns the content of a file.
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.peek(p)
	if n == nil || n.IsDir() {
		return nil, false
	}
	return n.Data, true
}

// Entry is one entry of a listing of the whole disk.
type Entry struct {
	Path   string
	Mode   fs.FileMode
	Data   string
	Target string
	Ino    int
	Mtime  time.Time
}

// Snapshot lists the disk below p, sorted.
func (f *FS) Snapshot(p string) []Entry {
	var out []Entry
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		out = append(out, Entry{p, n.Mode, string(n.Data), n.Target, n.Ino, n.Mtime})
		var ks []string
		for k := range n.Kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rec(path.Join(p, k), n.Kids[k])
		}
	}
	if n := f.peek(p); n != nil {
		rec(path.Clean(p), n)
	}
	return out
}

// Clone copies the disk (harness use: branching a history).
func (f *FS) Clone() *FS {
	g := &FS{inos: f.inos, used: f.used, tick: f.tick, Stamp: f.Stamp}
	var rec func(n *Inode) *Inode
	linked := map[*Inode]*Inode{}
	rec = func(n *Inode) *Inode {
		if c := linked[n]; c != nil {
			return c
		}
		c := *n
		if n.Nlink > 1 {
			linked[n] = &c
		}
		c.Data = append([]byte(nil), n.Data...)
		c.synced = append([]byte(nil), n.synced...)
		if n.Kids != nil {
			c.Kids = map[string]*Inode{}
			for k, v := range n.Kids {
				c.Kids[k] = rec(v)
			}
		}
		return &c
	}
	g.root = rec(f.root)
	return g
}

// ---- durability

func (f *FS) meta(undo func()) {
	f.journal = append(f.journal, undo)
}

// Settle makes everything durable.
func (f *FS) Settle() {
	f.journal = nil
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n.dirty {
			n.synced = append([]byte(nil), n.Data...)
			n.dirty = false
		}
		for _, k := range n.Kids {
			rec(k)
		}
	}
	rec(f.root)
}

// PowerLoss drops what was not durable: a suffix of the directory operations
// is undone, and each file with unsynced data keeps old data, a prefix of the
// new data, or the new length with zeros.
func (f *FS) PowerLoss(seed uint64) {
	r := NewRng(seed, "power")
	n := len(f.journal)
	if n > 0 {
		cut := r.Intn(n + 1)
		if r.OneIn(3) {
			cut = n // directory operations all made it; data may not have
		}
		for i := n - 1; i >= cut; i-- {
			f.journal[i]()
		}
		if cut < n && f.w != nil {
			f.w.Fired["lost-dir-ops"]++
		}
	}
	f.journal = nil
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n.dirty {
			d := n.Data
			switch r.Intn(6) {
			case 0:
				d = n.synced
				f.lost("lost-write")
			case 1:
				d = d[:r.Intn(len(d)+1)]
				f.lost("torn-write")
			case 2:
				d = make([]byte, len(d))
				f.lost("zeroed-write")
			case 3:
				k := r.Intn(len(d) + 1)
				e := make([]byte, len(d))
				copy(e, d[:k])
				d = e
				f.lost("zero-tail")
			case 4:
				if len(n.synced) > len(d) {
					e := append([]byte(nil), n.synced...)
					copy(e, d)
					d = e
					f.lost("stale-tail")
				}
			}
			n.Data = append([]byte(nil), d...)
			n.synced = n.Data
			n.dirty = false
		}
		var ks []string
		for k := range n.Kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rec(n.Kids[k])
		}
	}
	rec(f.root)
}

func (f *FS) lost(k string) {
	if f.w != nil {
		f.w.Fired[k]++
	}
}

// ---- operations of simulated processes

// Handle is an open file.
type Handle struct {
	ID    int
	Path  string
	Name  string
	n     *Inode
	proc  *Proc
	pos   int64
	rd    bool
	wr    bool
	app   bool
	nread int
	dirs  []string
	dpos  int
	open  bool
	lazy  bool // listing taken
}

// Abs makes a path absolute within the current process.
func Abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	cwd := "/"
	if c := Cur(); c != nil {
		cwd = c.Cwd
	}
	return path.Join(cwd, p)
}

type act struct {
	errno syscall.Errno
	part  int // parts of 1000
	hit   bool
	crash *Crash
}

// begin starts operation class on absolute path p.
func (w *World) begin(class, p string) act {
	Yield(-1)
	t := w.cur
	if t == nil {
		panic("simulated operation outside a process")
	}
	w.opSwitch(t)
	pr := t.proc
	pr.Ops++
	w.clock += w.Cfg.Latency
	var a act
	if pr.Ops > w.Cfg.OpBudget {
		pr.Budget = "operations"
		w.note(Ev{Op: "budget"})
		pr.die()
		runtime.Goexit()
	}
	for i := range w.Cfg.Crashes {
		c := &w.Cfg.Crashes[i]
		if c.Proc == pr.ID && c.Op > 0 && c.Op == pr.Ops {
			if c.Phase == "before" || c.Phase == "" {
				w.note(Ev{Op: "at-" + class, Path: p})
				w.crash(pr, c)
			}
			a.crash = c
		}
	}
	for i := range w.Cfg.Faults {
		fl := &w.Cfg.Faults[i]
		if fl.Op != class || (fl.Proc >= 0 && fl.Proc != pr.ID) || (fl.Path != "" && fl.Path != p) {
			continue
		}
		k := class + "\x00" + fl.Path + "\x00" + string(rune('a'+i))
		pr.counts[k]++
		c := pr.counts[k]
		cnt := fl.Count
		if cnt == 0 {
			cnt = 1
		}
		if c < fl.Nth || (cnt > 0 && c >= fl.Nth+cnt) {
			continue
		}
		if fl.Err == "" {
			w.clock += fl.Delay
			w.Fired["delay:"+class]++
			continue
		}
		a.errno = errnos[fl.Err]
		if a.errno == 0 {
			a.errno = syscall.EIO
		}
		a.part = fl.Part
		a.hit = true
		w.Fired[class+":"+fl.Err]++
	}
	return a
}

// finish records the operation; a crash "after" or "mid" happens here.
func (w *World) finish(a act, class, p string, n int, e syscall.Errno, h int) {
	es := ""
	if e != 0 {
		es = e.Error()
	}
	w.note(Ev{Op: class, Path: p, N: n, Err: es, Handle: h, OpNo: w.cur.proc.Ops})
	if a.crash != nil {
		w.crash(w.cur.proc, a.crash)
	}
	w.opSwitch(w.cur)
}

func (f *FS) walk(p string, follow bool) (dir *Inode, base string, n *Inode, e syscall.Errno) {
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(p) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	return f.walkFrom(nil, split(p), follow, 0)
}

// walkFrom resolves components; stack holds the directories passed.
func (f *FS) walkFrom(stack []*Inode, comps []string, follow bool, depth int) (dir *Inode, base string, n *Inode, e syscall.Errno) {
	if len(stack) == 0 {
		stack = []*Inode{f.root}
	}
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	cur := stack[len(stack)-1]
	if len(comps) == 0 {
		return nil, "", cur, 0
	}
	for i, c := range comps {
		last := i == len(comps)-1
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if !cur.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			cur = stack[len(stack)-1]
			if last {
				return nil, "", cur, 0
			}
			continue
		}
		k := cur.Kids[c]
		if k != nil && k.Mode&fs.ModeSymlink != 0 && (!last || follow) {
			rest := append(split(k.Target), comps[i+1:]...)
			st := append([]*Inode(nil), stack...)
			if strings.HasPrefix(k.Target, "/") {
				st = st[:1]
			}
			return f.walkFrom(st, rest, follow, depth+1)
		}
		if last {
			return cur, c, k, 0
		}
		if k == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = k
		stack = append(stack[:len(stack):len(stack)], k)
	}
	return nil, "", cur, 0
}

// Info describes an inode.
type Info struct {
	Name  string
	Size  int64
	Mode  fs.FileMode
	Mtime time.Time
	Ino   int
}

func info(name string, n *Inode) Info {
	sz := int64(len(n.Data))
	if n.IsDir() {
		sz = 4096
	}
	if n.Mode&fs.ModeSymlink != 0 {
		sz = int64(len(n.Target))
	}
	return Info{name, sz, n.Mode, n.Mtime, n.Ino}
}

func trailing(p string) bool { return len(p) > 1 && strings.HasSuffix(p, "/") }

// Stat is stat or lstat.
func Stat(p string, follow bool) (Info, syscall.Errno) {
	w := W
	f := w.FS
	class := "stat"
	if !follow {
		class = "lstat"
	}
	ap := Abs(p)
	a := w.begin(class, ap)
	var in Info
	e := a.errno
	if e == 0 {
		if p == "" {
			e = syscall.ENOENT
		} else {
			var n *Inode
			_, _, n, e = f.walk(ap, follow || trailing(p))
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			if e == 0 && trailing(p) && !n.IsDir() {
				e = syscall.ENOTDIR
			}
			if e == 0 {
				in = info(path.Base(ap), n)
			}
		}
	}
	w.finish(a, class, ap, 0, e, 0)
	return in, e
}

// Open flags (as on Linux).
const (
	OAccmode = 3
	OWronly  = syscall.O_WRONLY
	ORdwr    = syscall.O_RDWR
	OCreat   = syscall.O_CREAT
	OExcl    = syscall.O_EXCL
	OTrunc   = syscall.O_TRUNC
	OAppend  = syscall.O_APPEND
)

// Open opens a file or directory.
func Open(p string, flag int, perm fs.FileMode) (*Handle, syscall.Errno) {
	w := W
	f := w.FS
	class := "open"
	if flag&OAccmode != 0 {
		class = "create"
	}
	ap := Abs(p)
	a := w.begin(class, ap)
	pr := w.cur.proc
	pr.Opens++
	h, e := f.open(w, pr, a, p, ap, flag, perm)
	id := 0
	if h != nil {
		id = h.ID
		if len(pr.handles) > pr.MaxOpen {
			pr.MaxOpen = len(pr.handles)
		}
	}
	w.finish(a, class, ap, flag&^0x80000, e, id)
	return h, e
}

func (f *FS) open(w *World, pr *Proc, a act, p, ap string, flag int, perm fs.FileMode) (*Handle, syscall.Errno) {
	if a.errno != 0 {
		return nil, a.errno
	}
	if w.Cfg.MaxFDs > 0 && len(pr.handles)+3 >= w.Cfg.MaxFDs {
		w.Fired[map[bool]string{true: "create", false: "open"}[flag&OAccmode != 0]+":EMFILE-limit"]++
		return nil, syscall.EMFILE
	}
	if p == "" {
		return nil, syscall.ENOENT
	}
	dir, base, n, e := f.walk(ap, flag&OExcl == 0)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		if flag&OCreat == 0 || dir == nil {
			return nil, syscall.ENOENT
		}
		if trailing(p) {
			return nil, syscall.EISDIR
		}
		if f.bars(dir, 0o300) {
			return nil, syscall.EACCES
		}
		n = f.inode(perm.Perm() &^ 0o022)
		n.dirty = true
		dir.Kids[base] = n
		old := dir.Mtime
		dir.Mtime = f.now()
		f.meta(func() { delete(dir.Kids, base); dir.Mtime = old })
	} else {
		if flag&OCreat != 0 && flag&OExcl != 0 {
			return nil, syscall.EEXIST
		}
		if n.IsDir() && flag&OAccmode != 0 {
			return nil, syscall.EISDIR
		}
		if !n.IsDir() && trailing(p) {
			return nil, syscall.ENOTDIR
		}
		if flag&OAccmode != OWronly && f.bars(n, 0o400) || flag&OAccmode != 0 && f.bars(n, 0o200) {
			return nil, syscall.EACCES
		}
		if flag&OTrunc != 0 && flag&OAccmode != 0 && !n.IsDir() {
			f.trunc(n, 0)
		}
	}
	w.handle++
	h := &Handle{ID: w.handle, Path: ap, Name: p, n: n, proc: pr, open: true, app: flag&OAppend != 0}
	h.rd = flag&OAccmode != OWronly
	h.wr = flag&OAccmode != 0
	pr.handles[h.ID] = h
	return h, 0
}

func (f *FS) trunc(n *Inode, size int) {
	f.used += int64(size - len(n.Data))
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
	n.dirty = true
	n.Mtime = f.now()
}

func (h *Handle) bad(w *World, class string) bool {
	// a handle of another process cannot be reached; closed ones fail
	return !h.open || h.proc.Dead
}

// ErrClosed is returned for operations on a closed handle.
const ErrClosed = syscall.Errno(0xfff)

// Read reads at the current position; 0, 0 is the end of the file.
func (h *Handle) Read(b []byte) (int, syscall.Errno) { return h.read(b, -1) }

// ReadAt reads at an offset.
func (h *Handle) ReadAt(b []byte, off int64) (int, syscall.Errno) { return h.read(b, off) }

func (h *Handle) read(b []byte, off int64) (int, syscall.Errno) {
	w := W
	a := w.begin("read", h.Path)
	n, e := 0, a.errno
	switch {
	case h.bad(w, "read"):
		e = ErrClosed
	case !h.rd:
		e = syscall.EBADF
	case h.n.IsDir():
		e = syscall.EISDIR
	case e == 0:
		pos := off
		if off < 0 {
			pos = h.pos
		}
		if pos < int64(len(h.n.Data)) && len(b) > 0 {
			lim := len(b)
			cs := w.Cfg.Chunks[h.Path]
			if cs == nil {
				cs = w.Cfg.ChunkAll
			}
			if len(cs) > 0 {
				if c := cs[h.nread%len(cs)]; c > 0 && c < lim {
					lim = c
					if int(pos)+c < len(h.n.Data) {
						w.Fired["short-read"]++
					}
				}
			}
			n = copy(b[:lim], h.n.Data[pos:])
			if off < 0 {
				h.pos += int64(n)
			}
		}
		h.nread++
	}
	w.finish(a, "read", h.Path, n, e, h.ID)
	return n, e
}

// Write writes at the current position (or the end, for appending handles).
func (h *Handle) Write(b []byte) (int, syscall.Errno) { return h.write(b, -1) }

// WriteAt writes at an offset.
func (h *Handle) WriteAt(b []byte, off int64) (int, syscall.Errno) { return h.write(b, off) }

func (h *Handle) write(b []byte, off int64) (int, syscall.Errno) {
	w := W
	f := w.FS
	a := w.begin("write", h.Path)
	n, e := 0, syscall.Errno(0)
	switch {
	case h.bad(w, "write"):
		e = ErrClosed
	case !h.wr:
		e = syscall.EBADF
	default:
		n = len(b)
		if a.errno != 0 {
			n = len(b) * a.part / 1000
			e = a.errno
		}
		if a.crash != nil && a.crash.Phase == "mid" {
			if m := len(b) * a.crash.Part / 1000; m < n {
				n = m
			}
			w.Fired["torn-at-crash"]++
		}
		pos := off
		if off < 0 {
			pos = h.pos
			if h.app {
				pos = int64(len(h.n.Data))
			}
		}
		grow := pos + int64(n) - int64(len(h.n.Data))
		if w.Cfg.Capacity > 0 && grow > 0 && f.used+grow > w.Cfg.Capacity {
			room := w.Cfg.Capacity - f.used
			if room < 0 {
				room = 0
			}
			n = int(int64(len(h.n.Data)) + room - pos)
			if n < 0 {
				n = 0
			}
			e = syscall.ENOSPC
			w.Fired["write:ENOSPC-full"]++
		}
		if n > 0 {
			if need := int(pos) + n; need > len(h.n.Data) {
				f.used += int64(need - len(h.n.Data))
				d := make([]byte, need)
				copy(d, h.n.Data)
				h.n.Data = d
			} else if !h.n.dirty || true {
				h.n.Data = append([]byte(nil), h.n.Data...) // synced may share it
			}
			copy(h.n.Data[pos:], b[:n])
			h.n.dirty = true
			h.n.Mtime = f.now()
			if off < 0 {
				h.pos = pos + int64(n)
			}
		}
	}
	w.finish(a, "write", h.Path, n, e, h.ID)
	return n, e
}

// Seek moves the position.
func (h *Handle) Seek(off int64, whence int) (int64, syscall.Errno) {
	w := W
	a := w.begin("seek", h.Path)
	e := a.errno
	if h.bad(w, "seek") {
		e = ErrClosed
	}
	pos := off
	switch whence {
	case 1:
		pos += h.pos
	case 2:
		pos += int64(len(h.n.Data))
	}
	if e == 0 && pos < 0 {
		e = syscall.EINVAL
	}
	if e == 0 {
		h.pos = pos
		h.dpos, h.lazy = 0, false
	}
	w.finish(a, "seek", h.Path, int(pos), e, h.ID)
	return h.pos, e
}

// Close closes the handle. A failing close of a written file loses data: what
// is kept is Part parts of 1000.
func (h *Handle) Close() syscall.Errno {
	w := W
	a := w.begin("close", h.Path)
	e := a.errno
	if !h.open {
		e = ErrClosed
	} else {
		h.open = false
		delete(h.proc.handles, h.ID)
		if e != 0 && h.wr && !h.n.IsDir() {
			w.FS.trunc(h.n, len(h.n.Data)*a.part/1000)
		}
	}
	w.finish(a, "close", h.Path, 0, e, h.ID)
	return e
}

// Sync makes the file durable. A failing sync loses the unsynced data, as on
// Linux.
func (h *Handle) Sync() syscall.Errno {
	w := W
	a := w.begin("sync", h.Path)
	e := a.errno
	if h.bad(w, "sync") {
		e = ErrClosed
	} else if e != 0 {
		w.FS.trunc(h.n, len(h.n.Data)*a.part/1000)
	} else {
		h.n.synced = append([]byte(nil), h.n.Data...)
		h.n.dirty = false
		w.FS.journal = nil // fsync commits the journal
	}
	w.finish(a, "sync", h.Path, 0, e, h.ID)
	return e
}

// Truncate changes the size.
func (h *Handle) Truncate(size int64) syscall.Errno {
	w := W
	a := w.begin("truncate", h.Path)
	e := a.errno
	if h.bad(w, "truncate") {
		e = ErrClosed
	} else if !h.wr || h.n.IsDir() || size < 0 {
		e = syscall.EINVAL
	} else if e == 0 {
		w.FS.trunc(h.n, int(size))
	}
	w.finish(a, "truncate", h.Path, int(size), e, h.ID)
	return e
}

// Stat describes the open file.
func (h *Handle) Stat() (Info, syscall.Errno) {
	w := W
	a := w.begin("stat", h.Path)
	e := a.errno
	if h.bad(w, "stat") {
		e = ErrClosed
	}
	w.finish(a, "stat", h.Path, 0, e, h.ID)
	return info(path.Base(h.Path), h.n), e
}

// Chmod changes the mode of the open file.
func (h *Handle) Chmod(m fs.FileMode) syscall.Errno {
	w := W
	a := w.begin("chmod", h.Path)
	e := a.errno
	if h.bad(w, "chmod") {
		e = ErrClosed
	} else if e == 0 {
		h.n.Mode = h.n.Mode&^0o777 | m.Perm()
	}
	w.finish(a, "chmod", h.Path, int(m), e, h.ID)
	return e
}

// DirEntry is an entry of a listing.
type DirEntry struct {
	Name string
	Mode fs.FileMode
}

// ReadDir returns up to n entries (all if n <= 0), in the order the simulator
// decides. end is true when there are no more.
func (h *Handle) ReadDir(n int) (out []DirEntry, end bool, e syscall.Errno) {
	w := W
	a := w.begin("readdir", h.Path)
	e = a.errno
	switch {
	case h.bad(w, "readdir"):
		e = ErrClosed
	case !h.n.IsDir():
		e = syscall.ENOTDIR
	default:
		if !h.lazy {
			h.lazy = true
			h.dirs = nil
			for k := range h.n.Kids {
				h.dirs = append(h.dirs, k)
			}
			sort.Strings(h.dirs)
			if w.Cfg.DirSeed != 0 && len(h.dirs) > 1 {
				w.dirNo++
				r := NewRng(w.Cfg.DirSeed+w.dirNo*0x51ed, "dir")
				p := r.Perm(len(h.dirs))
				ds := make([]string, len(p))
				for i, j := range p {
					ds[i] = h.dirs[j]
				}
				h.dirs = ds
				w.Fired["readdir-order"]++
			}
		}
		lim := len(h.dirs)
		if e != 0 {
			lim = h.dpos + (len(h.dirs)-h.dpos)*a.part/1000
		}
		for h.dpos < lim && (n <= 0 || len(out) < n) {
			k := h.dirs[h.dpos]
			h.dpos++
			if c := h.n.Kids[k]; c != nil {
				out = append(out, DirEntry{k, c.Mode})
			}
		}
		end = h.dpos >= len(h.dirs)
		if e != 0 && n > 0 && len(out) > 0 {
			// the error surfaces with the next call in real life; here at once
			end = false
		}
	}
	w.finish(a, "readdir", h.Path, len(out), e, h.ID)
	return
}

// change runs a metadata operation on one path.
func change(class, p string, do func(f *FS, ap string) syscall.Errno) syscall.Errno {
	w := W
	ap := Abs(p)
	a := w.begin(class, ap)
	e := a.errno
	if e == 0 && p == "" {
		e = syscall.ENOENT
	}
	if e == 0 {
		e = do(w.FS, ap)
	}
	w.finish(a, class, ap, 0, e, 0)
	return e
}

// Mkdir makes a directory.
func Mkdir(p string, perm fs.FileMode) syscall.Errno {
	return change("mkdir", p, func(f *FS, ap string) syscall.Errno {
		dir, base, n, e := f.walk(ap, false)
		if e != 0 {
			return e
		}
		if n != nil {
			return syscall.EEXIST
		}
		if f.bars(dir, 0o300) {
			return syscall.EACCES
		}
		dir.Kids[base] = f.inode(fs.ModeDir | perm.Perm()&^0o022)
		old := dir.Mtime
		dir.Mtime = f.now()
		f.meta(func() { delete(dir.Kids, base); dir.Mtime = old })
		return 0
	})
}

// Remove unlinks a file or removes an empty directory.
func Remove(p string) syscall.Errno {
	return change("remove", p, func(f *FS, ap string) syscall.Errno {
		dir, base, n, e := f.walk(ap, false)
		if e != 0 {
			return e
		}
		if n == nil {
			return syscall.ENOENT
		}
		if dir == nil {
			return syscall.EBUSY
		}
		if n.IsDir() && len(n.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
		if f.bars(dir, 0o300) {
			return syscall.EACCES
		}
		delete(dir.Kids, base)
		n.Nlink--
		if n.Nlink == 0 {
			f.used -= int64(len(n.Data))
		}
		old := dir.Mtime
		dir.Mtime = f.now()
		f.meta(func() { dir.Kids[base] = n; dir.Mtime = old })
		return 0
	})
}

// Rename moves an entry, replacing a file.
func Rename(from, to string) syscall.Errno {
	w := W
	af, at := Abs(from), Abs(to)
	a := w.begin("rename", at)
	e := a.errno
	if e == 0 {
		e = w.FS.rename(af, at)
	}
	w.note(Ev{Op: "rename-from", Path: af})
	w.finish(a, "rename", at, 0, e, 0)
	return e
}

func (f *FS) rename(af, at string) syscall.Errno {
	d1, b1, n1, e := f.walk(af, false)
	if e != 0 {
		return e
	}
	if n1 == nil {
		return syscall.ENOENT
	}
	d2, b2, n2, e := f.walk(at, false)
	if e != 0 {
		return e
	}
	if d1 == nil || d2 == nil {
		return syscall.EBUSY
	}
	if n2 == n1 {
		return 0
	}
	if f.bars(d1, 0o300) || f.bars(d2, 0o300) {
		return syscall.EACCES
	}
	if n2 != nil {
		if n2.IsDir() != n1.IsDir() {
			if n2.IsDir() {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if len(n2.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
		f.used -= int64(len(n2.Data))
	}
	delete(d1.Kids, b1)
	d2.Kids[b2] = n1
	d1.Mtime = f.now()
	d2.Mtime = f.now()
	f.meta(func() {
		if n2 != nil {
			d2.Kids[b2] = n2
		} else {
			delete(d2.Kids, b2)
		}
		d1.Kids[b1] = n1
	})
	return 0
}

// Link makes a hard link.
func Link(from, to string) syscall.Errno {
	af := Abs(from)
	return change("link", to, func(f *FS, at string) syscall.Errno {
		_, _, n, e := f.walk(af, false)
		if e != 0 {
			return e
		}
		if n == nil {
			return syscall.ENOENT
		}
		d, b, o, e := f.walk(at, false)
		if e != 0 {
			return e
		}
		if o != nil {
			return syscall.EEXIST
		}
		if n.IsDir() {
			return syscall.EPERM
		}
		if f.bars(d, 0o300) {
			return syscall.EACCES
		}
		d.Kids[b] = n
		n.Nlink++
		d.Mtime = f.now()
		f.meta(func() { delete(d.Kids, b) })
		return 0
	})
}

// Symlink makes a symbolic link.
func Symlink(target, p string) syscall.Errno {
	return change("symlink", p, func(f *FS, ap string) syscall.Errno {
		d, b, o, e := f.walk(ap, false)
		if e != 0 {
			return e
		}
		if o != nil {
			return syscall.EEXIST
		}
		n := f.inode(fs.ModeSymlink | 0o777)
		n.Target = target
		d.Kids[b] = n
		d.Mtime = f.now()
		f.meta(func() { delete(d.Kids, b) })
		return 0
	})
}

// Readlink reads a symbolic link.
func Readlink(p string) (string, syscall.Errno) {
	var t string
	e := change("readlink", p, func(f *FS, ap string) syscall.Errno {
		_, _, n, e := f.walk(ap, false)
		if e != 0 {
			return e
		}
		if n == nil {
			return syscall.ENOENT
		}
		if n.Mode&fs.ModeSymlink == 0 {
			return syscall.EINVAL
		}
		t = n.Target
		return 0
	})
	return t, e
}

// onNode runs an attribute change.
func onNode(class, p string, do func(f *FS, n *Inode) syscall.Errno) syscall.Errno {
	return change(class, p, func(f *FS, ap string) syscall.Errno {
		_, _, n, e := f.walk(ap, true)
		if e != 0 {
			return e
		}
		if n == nil {
			return syscall.ENOENT
		}
		return do(f, n)
	})
}

// Chmod changes permissions.
func Chmod(p string, m fs.FileMode) syscall.Errno {
	return onNode("chmod", p, func(f *FS, n *Inode) syscall.Errno {
		n.Mode = n.Mode&^0o777 | m.Perm()
		return 0
	})
}

// Chown changes the owner (not modelled beyond the event).
func Chown(p string) syscall.Errno {
	return onNode("chown", p, func(f *FS, n *Inode) syscall.Errno { return 0 })
}

// Chtimes changes the time stamps.
func Chtimes(p string, m time.Time) syscall.Errno {
	return onNode("chtimes", p, func(f *FS, n *Inode) syscall.Errno {
		n.Mtime = m
		return 0
	})
}

// Truncate changes the size of a file.
func Truncate(p string, size int64) syscall.Errno {
	return onNode("truncate", p, func(f *FS, n *Inode) syscall.Errno {
		if n.IsDir() || size < 0 {
			return syscall.EINVAL
		}
		f.trunc(n, int(size))
		return 0
	})
}

// Chdir changes the working directory of the process.
func Chdir(p string) syscall.Errno {
	return onNode("chdir", p, func(f *FS, n *Inode) syscall.Errno {
		if !n.IsDir() {
			return syscall.ENOTDIR
		}
		W.cur.proc.Cwd = Abs(p)
		return 0
	})
}

// Same reports whether two inode numbers are one file.
func Same(a, b Info) bool { return a.Ino == b.Ino }
