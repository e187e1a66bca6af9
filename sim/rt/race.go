package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// The happens-before checker: vector clocks over tasks; locations are
// package-level variables, maps and the fields of shared structures.

type access struct {
	task int
	clk  uint32
	site string
}

type loc struct {
	w     access
	reads []access
}

func (t *Task) tick() {
	if t.ID >= 0 {
		t.vc[t.ID]++
	}
}

func (t *Task) join(vc []uint32) {
	if t.ID < 0 {
		return
	}
	for len(t.vc) < len(vc) {
		t.vc = append(t.vc, 0)
	}
	for i, c := range vc {
		if c > t.vc[i] {
			t.vc[i] = c
		}
	}
}

func (w *World) release(t *Task, vc *[]uint32) {
	if t.ID < 0 {
		return
	}
	for len(*vc) < len(t.vc) {
		*vc = append(*vc, 0)
	}
	for i, c := range t.vc {
		if c > (*vc)[i] {
			(*vc)[i] = c
		}
	}
	t.tick()
}

// Sync is a synchronisation object's clock.
type Sync struct{ vc []uint32 }

// Release publishes what the current task did.
func (s *Sync) Release() {
	if w := W; w != nil && w.cur != nil {
		w.release(w.cur, &s.vc)
	}
}

// Acquire makes what was published happen before what follows.
func (s *Sync) Acquire() {
	if w := W; w != nil && w.cur != nil {
		w.cur.join(s.vc)
	}
}

// GlobalSync orders the current task with every other global
// synchronisation (atomics).
func GlobalSync() {
	if w := W; w != nil && w.cur != nil {
		w.cur.join(w.gvc)
		w.release(w.cur, &w.gvc)
	}
}

func (t *Task) ordered(a access) bool {
	return a.clk == 0 || a.task == t.ID || (a.task < len(t.vc) && t.vc[a.task] >= a.clk)
}

func (w *World) touch(key any, what string, write bool) {
	t := w.cur
	if t == nil || t.ID < 0 || len(t.proc.tasks) < 2 {
		return
	}
	l := w.locs[key]
	if l == nil {
		l = &loc{}
		w.locs[key] = l
	}
	here := caller()
	me := access{t.ID, t.vc[t.ID], here}
	if !t.ordered(l.w) {
		w.race(what, l.w.site, here)
	}
	if write {
		for _, r := range l.reads {
			if !t.ordered(r) {
				w.race(what, r.site, here)
			}
		}
		l.w = me
		l.reads = l.reads[:0]
		return
	}
	for i := range l.reads {
		if l.reads[i].task == t.ID {
			l.reads[i] = me
			return
		}
	}
	l.reads = append(l.reads, me)
}

func (w *World) race(what, a, b string) {
	if b < a {
		a, b = b, a
	}
	for _, r := range w.Races {
		if r.What == what {
			return
		}
	}
	w.Races = append(w.Races, Race{what, a, b})
	w.note(Ev{Op: "race", Path: what})
}

// caller names the function that made the access.
func caller() string {
	var pc [8]uintptr
	n := runtime.Callers(4, pc[:])
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" && !inRt(f.Function) {
			return f.Function
		}
		if !more {
			return "?"
		}
	}
}

func inRt(fn string) bool { return len(fn) > 12 && fn[:12] == "verifsim/rt." }

// Rd reports a read of shared memory and returns its address.
func Rd[T any](p *T, name string) *T {
	if w := W; w != nil {
		w.touch(p, name, false)
	}
	return p
}

// Touch reports a write of shared memory.
func Touch[T any](p *T, name string) {
	if w := W; w != nil {
		w.touch(p, name, true)
	}
}

type mapKey struct{ p uintptr }

func (w *World) touchMap(m any, write bool) {
	t := w.cur
	if t == nil || t.ID < 0 || len(t.proc.tasks) < 2 {
		return
	}
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map || v.IsNil() {
		return
	}
	k := mapKey{v.Pointer()}
	if w.locs[k] == nil {
		w.keep = append(w.keep, m) // the address must not be used again
	}
	w.touch(k, v.Type().String(), write)
}

// MapRd reports a read of a map.
func MapRd[M any](m M) M {
	if w := W; w != nil {
		w.touchMap(m, false)
	}
	return m
}

// MapTouch reports a write of a map.
func MapTouch(m any) {
	if w := W; w != nil {
		w.touchMap(m, true)
	}
}

// ---- map iteration

// Iter iterates over a map in an order the simulator decides.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m     M
	keys  []K
	i     int
	seen  map[K]struct{}
	n     int
	coin  *Rng
	late  []K
	fresh bool
}

func newIter[M ~map[K]V, K comparable, V any](m M) *Iter[M, K, V] {
	it := &Iter[M, K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	it.n = len(it.keys)
	w := W
	if w == nil {
		return it
	}
	w.touchMap(m, false)
	if w.Cfg.MapSeed != 0 && w.cur != nil && w.cur.ID >= 0 {
		w.mapNo++
		r := NewRng(w.Cfg.MapSeed+w.mapNo*0x9e37, "map")
		p := r.Perm(len(it.keys))
		ks := make([]K, len(it.keys))
		for i, j := range p {
			ks[i] = it.keys[j]
		}
		it.keys = ks
		it.coin = r
		if len(ks) > 1 {
			w.Fired["map-order"]++
		}
	}
	return it
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	sort.Slice(ks, func(i, j int) bool { return lessAny(ks[i], ks[j]) })
}

func lessAny(a, b any) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

// Next advances; keys deleted meanwhile are skipped, keys added meanwhile
// may or may not appear, as the language allows.
func (it *Iter[M, K, V]) Next(k *K, v *V) bool {
	for {
		if it.i < len(it.keys) {
			key := it.keys[it.i]
			it.i++
			val, ok := it.m[key]
			if !ok {
				continue
			}
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			if w := W; w != nil {
				w.touchMap(it.m, false)
			}
			return true
		}
		if it.coin == nil || it.seen != nil && len(it.seen) >= 64 {
			return false
		}
		// keys added during the iteration
		if it.seen == nil {
			it.seen = map[K]struct{}{}
		}
		if len(it.m) == 0 {
			return false
		}
		known := map[K]struct{}{}
		for _, q := range it.keys {
			known[q] = struct{}{}
		}
		var add []K
		for q := range it.m {
			if _, ok := known[q]; !ok {
				if _, ok := it.seen[q]; !ok {
					add = append(add, q)
				}
			}
		}
		if len(add) == 0 {
			return false
		}
		sortKeys(add)
		for _, q := range add {
			it.seen[q] = struct{}{}
			if it.coin.OneIn(2) {
				it.keys = append(it.keys, q)
			}
		}
	}
}

// MapIter starts an iteration; the variants also declare the loop variables.
func MapIter[M ~map[K]V, K comparable, V any](site int, m M) *Iter[M, K, V] {
	return newIter[M, K, V](m)
}

// MapIterK declares the key variable.
func MapIterK[M ~map[K]V, K comparable, V any](site int, m M) (*Iter[M, K, V], K) {
	var k K
	return newIter[M, K, V](m), k
}

// MapIterV declares the value variable.
func MapIterV[M ~map[K]V, K comparable, V any](site int, m M) (*Iter[M, K, V], V) {
	var v V
	return newIter[M, K, V](m), v
}

// MapIterKV declares both variables.
func MapIterKV[M ~map[K]V, K comparable, V any](site int, m M) (*Iter[M, K, V], K, V) {
	var k K
	var v V
	return newIter[M, K, V](m), k, v
}

// ChIter receives until the channel is closed.
type ChIter[T any] struct{ c <-chan T }

// ChanIter starts a range over a channel.
func ChanIter[C ~chan T | ~<-chan T, T any](c C) *ChIter[T] { return &ChIter[T]{(<-chan T)(c)} }

// ChanIterV also declares the variable.
func ChanIterV[C ~chan T | ~<-chan T, T any](c C) (*ChIter[T], T) {
	var v T
	return &ChIter[T]{(<-chan T)(c)}, v
}

// Next receives the next value.
func (i *ChIter[T]) Next(p *T) bool {
	b := BeforeBlock()
	v, ok := <-i.c
	AfterBlock(b)
	if p != nil && ok {
		*p = v
	}
	return ok
}

// Recv is <-c.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	b := BeforeBlock()
	v, ok := <-(<-chan T)(c)
	AfterBlock(b)
	return v, ok
}

// Send is c <- v, called as Send(c)(v).
func Send[C ~chan T | ~chan<- T, T any](c C) func(T) {
	return func(v T) {
		b := BeforeBlock()
		defer AfterBlock(b)
		(chan<- T)(c) <- v
	}
}

// Case is a clause of a select.
type Case interface {
	try() bool
	wait() reflect.SelectCase
	got(reflect.Value, bool)
}

type recvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func (x *recvCase[T]) try() bool {
	select {
	case x.V, x.OK = <-x.c:
		return true
	default:
		return false
	}
}

func (x *recvCase[T]) wait() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(x.c)}
}

func (x *recvCase[T]) got(v reflect.Value, ok bool) {
	x.OK = ok
	if ok {
		x.V, _ = v.Interface().(T)
	}
}

type sendCase[T any] struct {
	c chan<- T
	v T
}

func (x *sendCase[T]) try() bool {
	select {
	case x.c <- x.v:
		return true
	default:
		return false
	}
}

func (x *sendCase[T]) wait() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(x.c), Send: reflect.ValueOf(&x.v).Elem()}
}

func (x *sendCase[T]) got(reflect.Value, bool) {}

// CaseRecv is the clause <-c.
func CaseRecv[C ~chan T | ~<-chan T, T any](c C) *recvCase[T] { return &recvCase[T]{c: c} }

// CaseSend is the clause c <- v, called as CaseSend(c)(v).
func CaseSend[C ~chan T | ~chan<- T, T any](c C) func(T) *sendCase[T] {
	return func(v T) *sendCase[T] { return &sendCase[T]{c, v} }
}

// Select chooses one of the clauses that can go on, by the seed, or waits for
// one. It returns its number, or -1 for the default clause.
func Select(dflt bool, cs ...Case) int {
	b := BeforeBlock()
	defer AfterBlock(b)
	for _, i := range Rand().Perm(len(cs)) {
		if cs[i].try() {
			return i
		}
	}
	if dflt {
		return -1
	}
	var ws []reflect.SelectCase
	for _, c := range cs {
		ws = append(ws, c.wait())
	}
	i, v, ok := reflect.Select(ws)
	cs[i].got(v, ok)
	return i
}
