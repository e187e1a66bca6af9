// Package sync stands in for the real one: blocking goes through the
// simulated scheduler, and every operation orders the tasks involved.
package sync

import (
	"verifsim/rt"
)

// Locker is the usual interface.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
	q      rt.Queue
	s      rt.Sync
}

func (m *Mutex) Lock() {
	rt.Yield(-1)
	for m.locked {
		m.q.Wait()
	}
	m.locked = true
	m.s.Acquire()
}

func (m *Mutex) TryLock() bool {
	rt.Yield(-1)
	if m.locked {
		return false
	}
	m.locked = true
	m.s.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.s.Release()
	m.locked = false
	m.q.Wake(-1)
	rt.Yield(-1)
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	w    bool
	r    int
	wait int
	q    rt.Queue
	s    rt.Sync
	rs   rt.Sync
}

func (m *RWMutex) Lock() {
	rt.Yield(-1)
	m.wait++
	for m.w || m.r > 0 {
		m.q.Wait()
	}
	m.wait--
	m.w = true
	m.s.Acquire()
	m.rs.Acquire()
}

func (m *RWMutex) TryLock() bool {
	rt.Yield(-1)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.s.Acquire()
	m.rs.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.s.Release()
	m.w = false
	m.q.Wake(-1)
	rt.Yield(-1)
}

func (m *RWMutex) RLock() {
	rt.Yield(-1)
	for m.w || m.wait > 0 && m.r > 0 {
		m.q.Wait()
	}
	m.r++
	m.s.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	rt.Yield(-1)
	if m.w {
		return false
	}
	m.r++
	m.s.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.rs.Release()
	m.r--
	m.q.Wake(-1)
	rt.Yield(-1)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup waits for tasks.
type WaitGroup struct {
	n int
	q rt.Queue
	s rt.Sync
}

func (g *WaitGroup) Add(d int) {
	g.s.Release()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.Wake(-1)
	}
	rt.Yield(-1)
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	rt.Yield(-1)
	for g.n > 0 {
		g.q.Wait()
	}
	g.s.Acquire()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q rt.Queue
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := c.q.Enter()
	c.L.Unlock()
	c.q.Park(t)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.Wake(1); rt.Yield(-1) }
func (c *Cond) Broadcast() { c.q.Wake(-1); rt.Yield(-1) }

// Pool keeps objects; it hands out the one put last.
type Pool struct {
	New  func() any
	list []any
	s    rt.Sync
}

func (p *Pool) Get() any {
	rt.Yield(-1)
	p.s.Acquire()
	if n := len(p.list); n > 0 {
		v := p.list[n-1]
		p.list = p.list[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	rt.Yield(-1)
	p.s.Release()
	p.list = append(p.list, v)
}

// Map is a concurrent map, iterated in the order of insertion.
type Map struct {
	m    map[any]any
	keys []any
	s    rt.Sync
}

func (m *Map) in() {
	rt.Yield(-1)
	m.s.Acquire()
	m.s.Release()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.in(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.in()
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.in()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, q := range m.keys {
			if q == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.in()
	if c, ok := m.m[k]; ok && c == old {
		m.m[k] = v
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.in()
	if c, ok := m.m[k]; ok && c == old {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.in()
	ks := append([]any(nil), m.keys...)
	for _, i := range rt.MapOrder(len(ks)) {
		v, ok := m.m[ks[i]]
		if ok && !f(ks[i], v) {
			return
		}
	}
}
func (m *Map) Clear() { m.in(); m.m = map[any]any{}; m.keys = nil }
