package engine

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"

	"github.com/xuri/xgen"
	xgenmain "github.com/xuri/xgen/cmd/xgen"

	"verifsim/rt"
)

// Call is one use of the library.
type Call struct {
	File string // schema file, or directory if Dir
	In   string
	Out  string
	Lang string
	Pkg  string
	Dir  bool    `json:",omitempty"`
	Swap []*File `json:",omitempty"` // files put in place before it
}

// Proc is one simulated process: the command, or a host of the library.
type Proc struct {
	Args  []string `json:",omitempty"` // of the command, without its name
	Cwd   string
	Tasks [][]Call `json:",omitempty"` // of a library host: calls made by each thread
	Swap  []*File  `json:",omitempty"` // files put in place before it starts
}

// Scenario is one complete experiment.
type Scenario struct {
	Prop    string
	Kind    string
	Seed    uint64
	Files   []*File
	Olds    []*File `json:",omitempty"`
	Procs   []Proc
	Cfg     rt.Config
	Stamp   int64             `json:",omitempty"`
	Vars    []Variant         `json:",omitempty"`
	Locked  bool              `json:",omitempty"` // the schemas and their directories are read-only
	Extra   []*File           `json:",omitempty"` // unrelated files of a variant
	Param   map[string]int    `json:",omitempty"`
	Renames map[string]string `json:",omitempty"`
}

// Variant is another environment for the same work.
type Variant struct {
	Cfg   rt.Config
	Cwd   string `json:",omitempty"`
	Stamp int64  `json:",omitempty"`
}

// CallRes is what became of one call or of one command.
type CallRes struct {
	Done  bool
	Err   string
	Errno string
	Panic string
	Open  []string          // handles open after it returned
	Outs  map[string]string // files at and below its output location after it returned
	Hit   bool              // a fault took effect during it
	Opens int
}

func (r *CallRes) OK() bool { return r.Done && r.Err == "" && r.Panic == "" }

// Outcome of a scenario.
type Outcome struct {
	W      *rt.World
	FS     *rt.FS
	Before []rt.Entry   // before the first process
	After  [][]rt.Entry // after each process
	Res    [][][]CallRes
}

// CLI returns the result of the i-th process as a command.
func (o *Outcome) CLI(i int) (ok bool, text string) {
	p := o.W.Procs[i]
	return !p.Crashed && p.Panic == "" && p.Exit == 0 && p.Budget == "" && !p.Dlock, p.Out.String() + p.ErrOut.String()
}

// Bad describes an ending that is neither a result nor an injected crash.
func bad(p *rt.Proc) string {
	switch {
	case p.Panic != "":
		return "panic: " + firstLine(p.Panic)
	case p.Budget != "":
		return "did not end within its budget of " + p.Budget
	case p.Dlock:
		return "deadlock"
	}
	return ""
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

var (
	theT  *testing.T
	stats = struct {
		Runs, Steps, Ops, Switches int64
		SimNanos                   int64
		Fired                      map[string]int
		Traces                     map[uint64]struct{}
		Scheds                     map[uint64]struct{}
		Crashes                    map[string]int
	}{Fired: map[string]int{}, Traces: map[uint64]struct{}{}, Scheds: map[uint64]struct{}{}, Crashes: map[string]int{}}
)

func put(f *rt.FS, files []*File) {
	for _, x := range files {
		switch {
		case x.Dir:
			f.PutDir(x.Path)
		case x.Via != "":
			f.Put(x.Via, x.Bytes())
			f.PutLink(x.Path, x.Via)
		case x.Link != "":
			f.PutLink(x.Path, x.Link)
		case x.Hard != "" && f.PutHard(x.Path, x.Hard):
		default:
			f.Put(x.Path, x.Bytes())
		}
		if x.Stamp != 0 {
			f.Touch(x.Path, x.Stamp)
		}
		if x.Mode != 0 {
			f.Chmod(x.Path, fs.FileMode(x.Mode))
		}
	}
}

// lock makes the schemas read-only, and the directories that hold nothing but
// schemas.
func lock(f *rt.FS, sc *Scenario) {
	for _, x := range sc.Olds {
		if x.Dir && x.Mode != 0 && x.Mode&0o300 != 0o300 {
			return // the output could not be written either
		}
	}
	f.Enforce = true
	var locs []string
	for i := range sc.Procs {
		p := &sc.Procs[i]
		locs = append(locs, p.Cwd)
		if len(p.Args) > 0 {
			locs = append(locs, locOf(p))
		}
		for _, t := range p.Tasks {
			for _, c := range t {
				locs = append(locs, absIn(p.Cwd, c.Out))
			}
		}
	}
	for _, x := range sc.Files {
		if !x.Dir && x.Link == "" {
			f.Chmod(x.Path, 0o444)
		}
	dirs:
		for d := path.Dir(x.Path); d != "/"; d = path.Dir(d) {
			for _, l := range locs {
				if l == d || strings.HasPrefix(l, d+"/") {
					break dirs
				}
			}
			f.Chmod(d, 0o555)
		}
	}
}

// outsAt lists the files at a location: the path itself, names that continue
// it with an extension, and everything below it.
func outsAt(f *rt.FS, loc string) map[string]string {
	m := map[string]string{}
	for _, e := range f.Snapshot(path.Dir(loc)) {
		if inLoc(e.Path, loc) && !e.Mode.IsDir() {
			m[e.Path] = e.Data
		}
	}
	return m
}

func inLoc(p, loc string) bool {
	for _, x := range exts {
		if stem := strings.TrimSuffix(loc, x); stem != loc && (p == stem || strings.HasPrefix(p, stem+"/")) {
			return true // imported schemas, beside the file that the location names
		}
	}
	return p == loc || strings.HasPrefix(p, loc+".") || strings.HasPrefix(p, strings.TrimSuffix(loc, "/")+"/")
}

func absIn(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

func doCall(w *rt.World, p *rt.Proc, c Call, r *CallRes) {
	hits := func() int {
		n := 0
		for k, v := range w.Fired {
			if !strings.HasPrefix(k, "delay:") {
				n += v
			}
		}
		return n
	}
	h0 := hits()
	defer func() {
		if x := recover(); x != nil {
			r.Panic = fmt.Sprint(x)
			w.Note("panicked", firstLine(r.Panic))
		}
		r.Hit = hits() > h0
		r.Open = p.OpenHandles()
		r.Outs = outsAt(w.FS, absIn(p.Cwd, c.Out))
	}()
	o0 := p.Opens
	err := generate(c)
	r.Opens = p.Opens - o0
	r.Done = true
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "(empty message)"
		}
		var en syscall.Errno
		if errors.As(err, &en) {
			r.Errno = en.Error()
		}
	}
}

func generate(c Call) error {
	files := []string{c.File}
	if c.Dir {
		var err error
		if files, err = xgen.GetFileList(c.File); err != nil {
			return err
		}
	}
	for _, f := range files {
		if err := xgen.NewParser(&xgen.Options{
			FilePath:            f,
			InputDir:            c.In,
			OutputDir:           c.Out,
			Lang:                c.Lang,
			Package:             c.Pkg,
			IncludeMap:          make(map[string]bool),
			LocalNameNSMap:      make(map[string]string),
			NSSchemaLocationMap: make(map[string]string),
			ParseFileList:       make(map[string]bool),
			ParseFileMap:        make(map[string][]interface{}),
			ProtoTree:           make([]interface{}, 0),
			RemoteSchema:        make(map[string][]byte),
		}).Parse(); err != nil {
			return err
		}
	}
	return nil
}

// execute runs the processes of a scenario one after the other on one disk.
func execute(sc *Scenario) *Outcome {
	o := &Outcome{}
	body := func(t *testing.T) {
		f := rt.NewFS()
		f.Stamp = sc.Stamp
		f.PutDir("/tmp")
		for _, p := range sc.Procs {
			f.PutDir(p.Cwd)
		}
		put(f, sc.Files)
		put(f, sc.Extra)
		put(f, sc.Olds)
		if sc.Locked {
			lock(f, sc)
		}
		f.Settle()
		o.FS = f
		o.Before = f.Snapshot("/")
		w := rt.NewWorld(sc.Cfg, f)
		defer w.Close()
		o.W = w
		for i := range sc.Procs {
			ps := &sc.Procs[i]
			put(f, ps.Swap)
			if len(ps.Swap) > 0 {
				f.Settle()
			}
			args := append([]string{"xgen"}, ps.Args...)
			if ps.Tasks != nil {
				args = []string{"host"}
			}
			p := w.NewProc(args[0], args, ps.Cwd)
			if ps.Tasks == nil {
				o.Res = append(o.Res, nil)
				w.Spawn(p, "main", xgenmain.SimMain)
			} else {
				res := make([][]CallRes, len(ps.Tasks))
				o.Res = append(o.Res, res)
				for k, calls := range ps.Tasks {
					res[k] = make([]CallRes, len(calls))
					w.Spawn(p, fmt.Sprint("t", k), func() {
						for j := range calls {
							put(f, calls[j].Swap)
							w.Note("call", fmt.Sprintf("%d/%d", k, j))
							doCall(w, p, calls[j], &res[k][j])
							w.Note("return", fmt.Sprintf("%d/%d %s", k, j, res[k][j].Err))
						}
					})
				}
			}
			w.Run(p)
			o.After = append(o.After, f.Snapshot("/"))
		}
		stats.SimNanos += int64(w.Elapsed())
	}
	bubble(body, o)
	w := o.W
	stats.Runs++
	stats.Steps += w.Steps()
	stats.Ops += int64(len(w.Trace))
	stats.Switches += int64(w.Switch)
	for k, v := range w.Fired {
		stats.Fired[k] += v
	}
	lastTrace = traceHash(w)
	lastTr = w.Trace
	stats.Traces[lastTrace] = struct{}{}
	if w.Switch > 0 {
		stats.Scheds[w.SchedH] = struct{}{}
	}
	for _, e := range w.Trace {
		if e.Op == "crash" {
			stats.Crashes["crash"]++
		}
	}
	runHash = runHash*0x100000001b3 ^ w.Hash()
	return o
}

// runHash accumulates the hashes of all executions of a scenario.
var runHash uint64

// the history of the last execution, and its hash
var (
	lastTrace uint64
	lastTr    []rt.Ev
)

// traceHash identifies a history by what happened, without the paths' names.
func traceHash(w *rt.World) uint64 {
	h := rt.NewSum()
	ids := map[string]int{}
	for i := range w.Trace {
		e := &w.Trace[i]
		id, ok := ids[e.Path]
		if !ok {
			id = len(ids)
			ids[e.Path] = id
		}
		h.Int(e.Proc)
		h.Str(e.Op)
		h.Int(id)
		h.Str(e.Err)
		h.Int(e.Task)
	}
	return uint64(h)
}

func bubble(body func(t *testing.T), o *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock") || strings.Contains(s, "blocked") {
				return // threads of a process that has ended were blocked
			}
			panic(r)
		}
	}()
	synctest.Test(theT, body)
}

// ---- fault-free reference runs

// Gold is what a fault-free run of one command or call, alone, does.
type Gold struct {
	OK      bool
	Err     string
	Outs    map[string]string // files it created or changed
	Dirs    []string
	Trace   []rt.Ev
	Steps   int64
	Ops     int
	MaxOpen int
	Opens   int
	W       *rt.World
}

var goldCache = map[uint64]*Gold{}

func key(v ...any) uint64 {
	h := fnv.New64a()
	for _, x := range v {
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		h.Write(b)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// golden runs a process alone on the files, without faults, in a plain world.
func golden(files []*File, p Proc) *Gold {
	k := key(files, p)
	if g := goldCache[k]; g != nil {
		return g
	}
	if len(goldCache) > 400 {
		goldCache = map[uint64]*Gold{}
	}
	lt, tr := lastTrace, lastTr
	o := execute(&Scenario{Files: files, Procs: []Proc{p}})
	if lt != 0 {
		lastTrace, lastTr = lt, tr
	}
	g := &Gold{Outs: map[string]string{}, Trace: o.W.Trace, Steps: o.W.Procs[0].Steps, Ops: o.W.Procs[0].Ops, MaxOpen: o.W.Procs[0].MaxOpen, Opens: o.W.Procs[0].Opens, W: o.W}
	before := map[string]rt.Entry{}
	for _, e := range o.Before {
		before[e.Path] = e
	}
	for _, e := range o.After[0] {
		b, ok := before[e.Path]
		if e.Mode.IsDir() {
			if !ok {
				g.Dirs = append(g.Dirs, e.Path)
			}
			continue
		}
		if !ok || b.Data != e.Data || b.Ino != e.Ino {
			g.Outs[e.Path] = e.Data
		}
	}
	if p.Tasks == nil {
		var text string
		g.OK, text = o.CLI(0)
		if !g.OK {
			g.Err = firstLine(text)
		}
	} else {
		g.OK = bad(o.W.Procs[0]) == "" && !o.W.Procs[0].Exited
		for _, t := range o.Res[0] {
			for _, r := range t {
				if !r.OK() {
					g.OK = false
					g.Err = r.Err + r.Panic
				}
			}
		}
	}
	if b := bad(o.W.Procs[0]); b != "" {
		g.Err = b
	}
	goldCache[k] = g
	return g
}

func goldenCall(files []*File, cwd string, c Call) *Gold {
	return golden(files, Proc{Cwd: cwd, Tasks: [][]Call{{c}}})
}

// diffOuts compares the files of a golden run with those found.
func diffOuts(gold map[string]string, have func(string) (string, bool)) string {
	var ks []string
	for k := range gold {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h, ok := have(k)
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		if h != gold[k] {
			return fmt.Sprintf("%s differs (%d bytes, %d expected): %s", k, len(h), len(gold[k]), firstDiff(h, gold[k]))
		}
	}
	return ""
}

func inMap(m map[string]string) func(string) (string, bool) {
	return func(k string) (string, bool) { v, ok := m[k]; return v, ok }
}

func inSnap(es []rt.Entry) func(string) (string, bool) {
	m := map[string]string{}
	for _, e := range es {
		if !e.Mode.IsDir() {
			m[e.Path] = e.Data
		}
	}
	return inMap(m)
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(end)", "(end)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %.120q, expected %.120q", i+1, x, y)
		}
	}
	return "equal"
}
