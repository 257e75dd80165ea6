// Package simsync stands in for package sync in the instrumented library, so
// that blocking and wake-up order belong to the simulator: a task that cannot
// take a lock is parked until the seeded scheduler finds it free and picks it.
package simsync

import "verifsim/simyield"

// wait parks the caller until cond holds.
func wait(cond func() bool) {
	if cond() {
		return
	}
	if simyield.Block == nil {
		panic("simsync: would block outside the simulator")
	}
	for !cond() {
		simyield.Block(cond)
	}
}

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	wait(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	wait(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	wait(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands back what was put last, so a stale object is always reused.
type Pool struct {
	New  func() any
	free []any
	gen  uint64
}

func (p *Pool) Get() any {
	if p.gen != simyield.Gen { // never carries objects from one simulated run into the next
		p.free, p.gen = nil, simyield.Gen
	}
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if p.gen != simyield.Gen {
		p.free, p.gen = nil, simyield.Gen
	}
	if x != nil {
		p.free = append(p.free, x)
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	wait(func() bool { return w.n <= 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simyield.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L   Locker
	seq uint64
	n   int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.n++
	s := c.seq
	c.L.Unlock()
	wait(func() bool { return c.seq != s || c.sig > 0 })
	if c.seq == s {
		c.sig--
	}
	c.n--
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.sig < c.n {
		c.sig++
	}
}
func (c *Cond) Broadcast() { c.seq++; c.sig = 0 }

// Map keeps insertion order, so Range is repeatable.
type Map struct {
	keys []any
	m    map[any]any
}

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Swap(k, v any) (any, bool) { o, ok := m.Load(k); m.Store(k, v); return o, ok }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.Load(k); ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) { v, ok := m.Load(k); m.Delete(k); return v, ok }
func (m *Map) Delete(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	v, ok := m.Load(k)
	if !ok || v != o {
		return false
	}
	m.Store(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	v, ok := m.Load(k)
	if !ok || v != o {
		return false
	}
	m.Delete(k)
	return true
}
func (m *Map) Clear() { m.keys, m.m = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
