// Package rt is the simulator: one World holds the processes, the scheduler,
// the file system, the clock and every source of randomness of one run. A run
// is a pure function of its Config and of the code.
package rt

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
)

// Preempt asks the scheduler to switch, at the given world step, to the
// Pick-th runnable task (modulo their number).
type Preempt struct {
	At   int64
	Pick int
}

// Crash stops a process: at its Step-th step, or at its Op-th file operation.
type Crash struct {
	Proc  int
	Step  int64  // > 0: at this step of the process
	Op    int    // > 0: at this operation of the process
	Phase string // before, mid, after (mid: part of a write)
	Part  int    // mid: how many of 1000 parts of the write are done
	Power bool   // power loss: what was not synced may be lost
	Seed  uint64 // decides what is lost
}

// Fault makes operations fail.
type Fault struct {
	Proc  int    // process number, -1 any
	Op    string // operation class
	Path  string // absolute path, "" any
	Nth   int    // first matching operation that fails (1-based)
	Count int    // how many fail; 0 means 1, -1 all from the Nth on
	Err   string // errno name
	Part  int    // read/write/close/readdir: parts of 1000 done (kept) before the error
	Delay int64  // nanoseconds of latency instead of an error
}

// Config is everything that decides a run besides the code and the workload.
type Config struct {
	MapSeed  uint64 // 0: maps iterate in sorted order
	DirSeed  uint64 // 0: directories list in sorted order
	RandSeed uint64
	Pid      int
	Host     string
	Env      map[string]string
	EnvSeed  uint64 // != 0: variables that Env does not name may be set, too
	CPUs     int    // processors; 0 means 4
	Clock    int64  // seconds added to the simulated epoch
	Drift    int64  // extra nanoseconds per clock reading (may be negative)
	Zone     int    // seconds east of UTC
	MaxFDs   int
	Capacity int64  // bytes of file data the disk holds; 0 unlimited
	Quantum  int64  // > 0: a switch every so many steps
	Sched    uint64 // != 0: a seeded scheduler decides when threads of a process switch, and which goes on
	Latency  int64  // nanoseconds per operation
	Preempts []Preempt
	OpPre    []Preempt // switches before and after file operations; At counts both
	Crashes  []Crash
	Faults   []Fault
	Chunks   map[string][]int // path -> sizes of successive reads
	ChunkAll []int            // for paths without entry

	StepBudget int64 // per process
	OpBudget   int   // per process
	CallBudget int   // file opens per process; 0 unlimited
}

// Ev is one event of a run.
type Ev struct {
	Proc, Task int
	Op         string
	Path       string
	N          int
	Err        string
	Step       int64 // step of the process
	Handle     int
	OpNo       int // number of the operation within the process
}

// Proc is a simulated process.
type Proc struct {
	ID      int
	Name    string
	Args    []string
	Cwd     string
	Out     strings.Builder
	ErrOut  strings.Builder
	Exit    int
	Exited  bool // called exit
	Dead    bool // no more effects
	Crashed bool
	Panic   string
	Budget  string // budget that was exceeded
	Dlock   bool
	Steps   int64
	Ops     int
	Opens   int
	MaxOpen int
	Env     map[string]string

	unset   map[string]bool
	handles map[int]*Handle
	counts  map[string]int
	tasks   []*Task
	limit   int64 // next step at which the slow path runs
}

// Task is a simulated thread.
type Task struct {
	ID    int
	Name  string
	proc  *Proc
	wake  chan struct{}
	ready bool // parked and runnable
	done  bool
	vc    []uint32
	spawn *Task
	back  bool // started by the code under test; ends with the process
}

// Race is an unsynchronised pair of accesses.
type Race struct {
	What string
	A, B string
}

// World is one simulated execution.
type World struct {
	sched  *Rng
	span   int
	Cfg    Config
	FS     *FS
	Procs  []*Proc
	Tasks  []*Task
	Trace  []Ev
	Races  []Race
	Fired  map[string]int // fault kinds that took effect
	Switch int            // task switches
	SchedH uint64         // hash of the schedule

	cur    *Task
	step   int64
	next   int64 // world step at which the slow path runs
	pi     int   // next preemption
	oi     int   // next switch at a file operation
	ops    int64 // beginnings and ends of file operations
	want   int   // -1, or which other task to switch to
	mapNo  uint64
	dirNo  uint64
	rand   *Rng
	clock  int64
	reads  int64
	handle int
	mu     sync.Mutex
	readyC chan struct{}
	locs   map[any]*loc
	keep   []any
	gvc    []uint32
	Epoch  time.Time
}

// W is the current world.
var W *World

// NewWorld makes the world of a run current.
func NewWorld(cfg Config, fsys *FS) *World {
	if cfg.StepBudget == 0 {
		cfg.StepBudget = 20e6
	}
	if cfg.OpBudget == 0 {
		cfg.OpBudget = 500000
	}
	w := &World{want: -1, Cfg: cfg, FS: fsys, rand: NewRng(cfg.RandSeed, "rand"), readyC: make(chan struct{}, 1), locs: map[any]*loc{}, Fired: map[string]int{}, Epoch: time.Now()}
	sort.SliceStable(w.Cfg.Preempts, func(i, j int) bool { return w.Cfg.Preempts[i].At < w.Cfg.Preempts[j].At })
	sort.SliceStable(w.Cfg.OpPre, func(i, j int) bool { return w.Cfg.OpPre[i].At < w.Cfg.OpPre[j].At })
	if cfg.Sched != 0 {
		w.sched = NewRng(cfg.Sched, "sched")
		w.span = 1 << (1 + w.sched.Intn(11))
	}
	w.setNext()
	fsys.w = w
	W = w
	return w
}

// The initialisers of the instrumented packages run once before any simulated
// process starts; they do so in a world of their own, which nothing looks at.
func init() {
	w := NewWorld(Config{}, NewFS())
	p := &Proc{Name: "boot", Args: []string{"boot"}, Cwd: "/", Env: map[string]string{}, handles: map[int]*Handle{}, counts: map[string]int{}}
	p.setLimit(w)
	w.Procs = append(w.Procs, p)
	w.cur = &Task{ID: -1, proc: p}
}

// Close detaches the world.
func (w *World) Close() {
	if W == w {
		W = nil
	}
}

func (w *World) setNext() {
	w.next = 1 << 62
	if w.pi < len(w.Cfg.Preempts) {
		w.next = w.Cfg.Preempts[w.pi].At
		if w.next <= w.step {
			w.next = w.step + 1
		}
	}
	if w.sched != nil {
		if n := w.step + 1 + int64(w.sched.Intn(w.span)); n < w.next {
			w.next = n
		}
	}
	if q := w.Cfg.Quantum; q > 0 {
		if n := (w.step/q + 1) * q; n < w.next {
			w.next = n
		}
	}
}

var resets []func()

// RegisterReset records how a package returns to its state at process start.
func RegisterReset(f func()) { resets = append(resets, f) }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// NewProc starts a simulated process (package state is as after start-up).
func (w *World) NewProc(name string, args []string, cwd string) *Proc {
	p := &Proc{ID: len(w.Procs), Name: name, Args: args, Cwd: cwd, Env: map[string]string{}, handles: map[int]*Handle{}, counts: map[string]int{}}
	for k, v := range w.Cfg.Env {
		p.Env[k] = v
	}
	w.Procs = append(w.Procs, p)
	p.setLimit(w)
	boot := &Task{ID: -1, proc: p}
	w.cur = boot
	for _, f := range resets {
		f()
	}
	w.cur = nil
	p.Steps = 0
	return p
}

func (p *Proc) setLimit(w *World) {
	p.limit = w.Cfg.StepBudget
	for _, c := range w.Cfg.Crashes {
		if c.Proc == p.ID && c.Step > 0 && c.Step > p.Steps && c.Step < p.limit {
			p.limit = c.Step
		}
	}
}

// Spawn adds a task to the process; it runs when the scheduler picks it.
func (w *World) Spawn(p *Proc, name string, fn func()) *Task {
	t := &Task{ID: len(w.Tasks), Name: name, proc: p, wake: make(chan struct{}), ready: true}
	w.Tasks = append(w.Tasks, t)
	p.tasks = append(p.tasks, t)
	t.vc = make([]uint32, t.ID+1)
	if w.cur != nil && w.cur.ID >= 0 {
		t.join(w.cur.vc)
		w.cur.tick()
	}
	t.tick()
	go func() {
		<-t.wake
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil && !p.Dead {
					p.Panic = fmt.Sprintf("%v", r)
					w.note(Ev{Op: "panic", Path: short(p.Panic)})
					p.die()
					p.Exit = 2
					p.ErrOut.WriteString("panic: " + p.Panic + "\n" + cut(string(debug.Stack()), 4000))
				}
			}
			t.done = true
			t.ready = false
		}()
		if !p.Dead {
			fn()
		}
		normal = true
	}()
	return t
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func short(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return cut(s, 200)
}

func (p *Proc) die() {
	p.Dead = true
	p.handles = map[int]*Handle{}
}

// OpenHandles lists what the process holds open.
func (p *Proc) OpenHandles() []string {
	var out []string
	for _, h := range p.handles {
		out = append(out, h.Path)
	}
	sort.Strings(out)
	return out
}

// Run schedules until every task of the process has ended.
func (w *World) Run(p *Proc) {
	last := (*Task)(nil)
	for {
		if !p.Dead {
			over := true
			for _, t := range p.tasks {
				over = over && (t.done || t.back)
			}
			if over { // main returned, or the host has nothing left to do
				p.die()
			}
		}
		t := w.pick(p, last)
		if t == nil {
			alive := false
			for _, t := range p.tasks {
				alive = alive || !t.done
				t.ready = t.ready || p.Dead && !t.done && !t.inChan()
			}
			if !alive {
				break
			}
			if p.Dead {
				if w.pick(p, last) == nil {
					break // the rest is blocked in channels
				}
				continue
			}
			// everything is blocked: let simulated time pass
			select {
			case <-w.readyC:
				synctest.Wait()
				continue
			case <-time.After(1000 * time.Hour):
			}
			if w.pick(p, last) != nil {
				continue
			}
			if !p.Dead {
				p.Dlock = true
				p.die()
				w.note(Ev{Op: "deadlock"})
			}
			for _, t := range p.tasks {
				t.ready = !t.done && t.wake != nil && !t.inChan()
			}
			if w.pick(p, last) == nil {
				break // blocked in channels for ever
			}
			continue
		}
		if last != nil && last != t {
			w.Switch++
			w.SchedH = (w.SchedH ^ uint64(t.ID+1)) * 0x100000001b3
		}
		t.ready = false
		w.cur = t
		t.wake <- struct{}{}
		synctest.Wait()
		w.cur = nil
		last = t
	}
	p.tasks = nil
}

func (t *Task) inChan() bool { return t.spawn == t }

// pick chooses the next task: the one asked for by a switch, else the last
// one if it can go on, else the first runnable.
func (w *World) pick(p *Proc, last *Task) *Task {
	var r []*Task
	for _, t := range p.tasks {
		if t.ready && !t.done {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return nil
	}
	if w.sched != nil && (last == nil || !last.ready || last.done) {
		w.want = -1
		return r[w.sched.Intn(len(r))]
	}
	if want := w.want; want >= 0 {
		w.want = -1
		var o []*Task
		for _, t := range r {
			if t != last {
				o = append(o, t)
			}
		}
		if len(o) > 0 {
			return o[want%len(o)]
		}
	}
	for _, t := range r {
		if t == last {
			return t
		}
	}
	return r[0]
}

// park gives the processor back to the scheduler.
func (w *World) park(t *Task, ready bool) {
	t.ready = ready
	<-t.wake
	if t.proc.Dead {
		runtime.Goexit()
	}
}

// Yield is a scheduling point; the instrumenter puts one before every statement.
func Yield(site int) {
	w := W
	if w == nil {
		return
	}
	t := w.cur
	if t == nil {
		return
	}
	p := t.proc
	if p.Dead {
		runtime.Goexit()
	}
	w.step++
	p.Steps++
	if site >= 0 {
		siteHits[site]++
	}
	if w.step >= w.next || p.Steps >= p.limit {
		w.slow(t)
	}
}

// siteHits counts executions of instrumented statements over all runs.
var siteHits [1 << 15]uint32

// SiteHits returns the execution counts of the instrumented statements.
func SiteHits() []uint32 { return siteHits[:] }

func (w *World) slow(t *Task) {
	p := t.proc
	if p.Steps >= p.limit && t.ID >= 0 {
		for i := range w.Cfg.Crashes {
			c := &w.Cfg.Crashes[i]
			if c.Proc == p.ID && c.Step > 0 && c.Step == p.Steps {
				w.crash(p, c)
			}
		}
		if p.Steps >= w.Cfg.StepBudget {
			p.Budget = "steps"
			w.note(Ev{Op: "budget"})
			p.die()
			runtime.Goexit()
		}
		p.setLimit(w)
	}
	if w.step >= w.next {
		pick := 0
		if w.pi < len(w.Cfg.Preempts) && w.step >= w.Cfg.Preempts[w.pi].At {
			pick = w.Cfg.Preempts[w.pi].Pick
			w.pi++
		}
		w.setNext()
		if w.sched != nil {
			pick = w.sched.Intn(8)
		}
		if len(p.tasks) > 1 && t.ID >= 0 {
			w.want = pick
			w.SchedH = (w.SchedH ^ uint64(w.step)) * 0x100000001b3
			w.park(t, true)
		}
	}
}

// opSwitch switches to another task at the beginning or end of a file
// operation.
func (w *World) opSwitch(t *Task) {
	w.ops++
	for w.oi < len(w.Cfg.OpPre) && w.Cfg.OpPre[w.oi].At <= w.ops {
		at := w.Cfg.OpPre[w.oi]
		w.oi++
		if at.At == w.ops && len(t.proc.tasks) > 1 && t.ID >= 0 {
			w.want = at.Pick
			w.SchedH = (w.SchedH ^ uint64(w.step)) * 0x100000001b3
			w.park(t, true)
		}
	}
}

func (w *World) crash(p *Proc, c *Crash) {
	p.Crashed = true
	p.Exit = 137
	w.note(Ev{Op: "crash", N: boolInt(c.Power)})
	if c.Power {
		w.Fired["power-loss"]++
		w.FS.PowerLoss(c.Seed)
	} else {
		w.Fired["kill"]++
	}
	p.die()
	runtime.Goexit()
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ExitProc ends the current process.
func ExitProc(code int) {
	w := W
	p := w.cur.proc
	if p.Dead {
		runtime.Goexit()
	}
	p.Exited = true
	p.Exit = code & 0xff // what the system keeps
	w.note(Ev{Op: "exit", N: code})
	p.die()
	runtime.Goexit()
}

// Cur returns the running process.
func Cur() *Proc {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.proc
}

func (w *World) note(e Ev) {
	if w.cur != nil {
		e.Task = w.cur.ID
		e.Proc = w.cur.proc.ID
		e.Step = w.cur.proc.Steps
	}
	w.Trace = append(w.Trace, e)
}

// Note records an event of the harness.
func (w *World) Note(op, path string) { w.note(Ev{Op: op, Path: path}) }

// Hash digests the whole event log.
func (w *World) Hash() uint64 {
	h := fnv.New64a()
	sum := NewSum()
	for i := range w.Trace {
		e := &w.Trace[i]
		sum.Int(e.Proc)
		sum.Int(e.Task)
		sum.Str(e.Op)
		sum.Str(e.Path)
		sum.Int(e.N)
		sum.Str(e.Err)
		sum.Int(int(e.Step))
		sum.Int(e.Handle)
	}
	fmt.Fprintf(h, "%d\n", uint64(sum))
	for _, p := range w.Procs {
		fmt.Fprintf(h, "%d %s %s %d %v %s %d\n", p.ID, p.Out.String(), p.Panic, p.Exit, p.Crashed, p.Budget, p.Steps)
	}
	fmt.Fprintf(h, "%d %d\n", w.SchedH, w.step)
	return h.Sum64()
}

// Sum is a running hash.
type Sum uint64

// NewSum returns the hash of nothing.
func NewSum() Sum { return 0xcbf29ce484222325 }

// Int adds a number.
func (s *Sum) Int(n int) {
	x := (uint64(*s) ^ uint64(n)) * 0x9e3779b97f4a7c15
	*s = Sum(x ^ x>>29)
}

// Str adds a text.
func (s *Sum) Str(t string) {
	x := uint64(*s)
	for i := 0; i < len(t); i++ {
		x = (x ^ uint64(t[i])) * 0x100000001b3
	}
	*s = Sum(x)
	s.Int(len(t))
}

// Go starts a task from instrumented code.
func Go(fn func()) {
	w := W
	if w == nil || w.cur == nil {
		go fn()
		return
	}
	p := w.cur.proc
	if p.Dead {
		runtime.Goexit()
	}
	w.Spawn(p, "go", fn).back = true
	w.note(Ev{Op: "go"})
}

// BeforeBlock announces an operation that may block outside the simulator's
// sight (a channel operation, a sleep).
func BeforeBlock() *Task {
	w := W
	if w == nil || w.cur == nil {
		return nil
	}
	t := w.cur
	w.release(t, &w.gvc)
	t.spawn = t
	return t
}

// AfterBlock ends what BeforeBlock announced.
func AfterBlock(t *Task) {
	if t == nil {
		return
	}
	w := W
	t.spawn = nil
	if w.cur != t {
		w.mu.Lock()
		t.ready = true
		w.mu.Unlock()
		select {
		case w.readyC <- struct{}{}:
		default:
		}
		<-t.wake
		if t.proc.Dead {
			runtime.Goexit()
		}
	}
	t.join(w.gvc)
}

// Now returns the simulated time.
func (w *World) Now() time.Time {
	w.reads++
	return time.Now().Add(time.Duration(w.Cfg.Clock)*time.Second + time.Duration(w.clock) + time.Duration(w.reads*w.Cfg.Drift)).In(time.FixedZone("SIM", w.Cfg.Zone))
}

// Elapsed is the simulated time the run covered.
func (w *World) Elapsed() time.Duration { return time.Since(w.Epoch) + time.Duration(w.clock) }

// Steps is the number of statements executed.
func (w *World) Steps() int64 { return w.step }

// Rand is the simulated source of randomness.
func Rand() *Rng {
	if W == nil {
		return NewRng(1, "none")
	}
	return W.rand
}

var errnos = map[string]syscall.Errno{
	"ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES, "EPERM": syscall.EPERM, "EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC,
	"EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ENOMEM": syscall.ENOMEM,
	"ESTALE": syscall.ESTALE, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG, "ENOTDIR": syscall.ENOTDIR,
	"EISDIR": syscall.EISDIR, "EFBIG": syscall.EFBIG, "ETIMEDOUT": syscall.ETIMEDOUT, "EEXIST": syscall.EEXIST, "EBUSY": syscall.EBUSY,
	"ETXTBSY": syscall.ETXTBSY, "ENXIO": syscall.ENXIO, "ECONNRESET": syscall.ECONNRESET, "EAGAIN": syscall.EAGAIN, "EINTR": syscall.EINTR, "EOVERFLOW": syscall.EOVERFLOW,
}

// LateTask runs f as a task of p, started by a timer.
func LateTask(p *Proc, f func()) {
	w := W
	if w == nil || p.Dead {
		return
	}
	w.mu.Lock()
	w.Spawn(p, "timer", f).back = true
	w.mu.Unlock()
	select {
	case w.readyC <- struct{}{}:
	default:
	}
}

// Queue holds tasks that wait for a simulated synchronisation object.
type Queue struct{ ts []*Task }

// Enter adds the current task.
func (q *Queue) Enter() *Task {
	if W == nil || W.cur == nil {
		panic("all tasks are asleep: blocking outside the simulation")
	}
	t := W.cur
	q.ts = append(q.ts, t)
	return t
}

// Park waits until woken.
func (q *Queue) Park(t *Task) {
	for _, x := range q.ts {
		if x == t {
			if t.ID < 0 {
				panic("deadlock during initialisation")
			}
			W.park(t, false)
			return
		}
	}
}

// Wait is Enter and Park.
func (q *Queue) Wait() { q.Park(q.Enter()) }

// Wake makes n waiting tasks runnable (all if n < 0).
func (q *Queue) Wake(n int) {
	for n != 0 && len(q.ts) > 0 {
		q.ts[0].ready = true
		q.ts = q.ts[1:]
		n--
	}
}

// MapOrder is the order in which n things without order are visited.
func MapOrder(n int) []int {
	w := W
	if w == nil || w.Cfg.MapSeed == 0 {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	w.mapNo++
	return NewRng(w.Cfg.MapSeed+w.mapNo*0x9e37, "map").Perm(n)
}

// Getenv looks a variable of the environment up. What the code asks for is
// not known beforehand, so any other variable may turn out to be set.
func Getenv(k string) (string, bool) {
	p := Cur()
	v, ok := p.Env[k]
	if !ok && W.Cfg.EnvSeed != 0 && !p.unset[k] {
		r := NewRng(W.Cfg.EnvSeed, "env "+k)
		if c := []string{"", "", "1", "true", "/tmp/dir", "some text", "0", "debug", fmt.Sprint(r.Intn(1 << 30)), "C", "go", "name=value"}[r.Intn(12)]; c != "" {
			W.Fired["env"]++
			return c, true
		}
	}
	return v, ok
}

// Unsetenv removes a variable of the environment.
func Unsetenv(k string) {
	p := Cur()
	delete(p.Env, k)
	if p.unset == nil {
		p.unset = map[string]bool{}
	}
	p.unset[k] = true
}

// CPUs is the number of processors.
func CPUs() int {
	if W == nil || W.Cfg.CPUs == 0 {
		return 4
	}
	return W.Cfg.CPUs
}

// Threads is the number of threads of the process.
func Threads() int {
	n := 0
	for _, t := range Cur().tasks {
		if !t.done {
			n++
		}
	}
	return n
}

// Pause lets another task run.
func Pause() {
	w := W
	if w == nil || w.cur == nil || w.cur.ID < 0 {
		return
	}
	t := w.cur
	if t.proc.Dead {
		runtime.Goexit()
	}
	if len(t.proc.tasks) > 1 {
		w.want = 0
		if w.sched != nil {
			if w.sched.OneIn(3) {
				return
			}
			w.want = w.sched.Intn(8)
		}
		w.park(t, true)
	}
}

// MapKeys permutes the keys of a map that reflection lists.
func MapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	out := make([]reflect.Value, len(ks))
	for i, j := range MapOrder(len(ks)) {
		out[i] = ks[j]
	}
	return out
}

// MapIterator iterates over a map that reflection shows.
type MapIterator struct {
	v    reflect.Value
	keys []reflect.Value
	i    int
}

func MapRange(v reflect.Value) *MapIterator { return &MapIterator{v, MapKeys(v), -1} }

func (m *MapIterator) Next() bool {
	m.i++
	return m.i < len(m.keys)
}
func (m *MapIterator) Key() reflect.Value   { return m.keys[m.i] }
func (m *MapIterator) Value() reflect.Value { return m.v.MapIndex(m.keys[m.i]) }
func (m *MapIterator) Reset(v reflect.Value) {
	*m = *MapRange(v)
}
