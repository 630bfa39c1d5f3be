// Package vsync stands in for sync in the instrumented code.
package vsync

import "verifharness/sched"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sched.P(-1)
	sched.Block(func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	sched.P(-1)
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("unlock of unlocked mutex")
	}
	m.held = false
	sched.P(-2)
}

// RWMutex: as in sync, a writer that waits keeps later readers out, and those
// that waited for it come before the next writer.
type RWMutex struct {
	w, announced        bool
	r, waiting, release int
}

func (m *RWMutex) Lock() {
	sched.P(-3)
	sched.Block(func() bool { return !m.announced })
	m.announced = true
	sched.Block(func() bool { return m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("unlock of unlocked RWMutex")
	}
	m.w, m.announced = false, false
	m.r += m.waiting
	m.waiting = 0
	m.release++
	sched.P(-4)
}
func (m *RWMutex) RLock() {
	sched.P(-5)
	if !m.announced {
		m.r++
		return
	}
	m.waiting++
	n := m.release
	sched.Block(func() bool { return m.release != n })
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("RUnlock of unlocked RWMutex")
	}
	m.r--
	sched.P(-6)
}
func (m *RWMutex) TryLock() bool {
	if m.announced || m.r > 0 {
		return false
	}
	m.w, m.announced = true, true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.announced {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RLocker() Locker { return (*rl)(m) }

type rl RWMutex

func (r *rl) Lock()   { (*RWMutex)(r).RLock() }
func (r *rl) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct{ done, running bool }

func (o *Once) Do(f func()) {
	sched.P(-7)
	sched.Block(func() bool { return !o.running })
	if o.done {
		return
	}
	o.running = true
	defer func() { o.running = false; o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	sched.P(-8)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
	sched.P(-9)
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	sched.P(-15)
	w.n += d
	if w.n < 0 {
		panic("negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.P(-16)
	sched.Block(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(bool)
	c.waiting = append(c.waiting, w)
	c.L.Unlock()
	sched.P(-17)
	sched.Block(func() bool { return *w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
	sched.P(-18)
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
	sched.P(-19)
}

type Map struct{ m map[interface{}]interface{} }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	sched.P(-10)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	sched.P(-11)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	sched.P(-12)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	sched.P(-13)
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { sched.P(-14); delete(m.m, k) }
func (m *Map) Range(f func(k, v interface{}) bool) {
	for k, v := range m.m {
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { sched.P(-20); m.m = nil }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	old, ok := m.Load(k)
	m.Store(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	sched.P(-21)
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.m[k] = v
	return true
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	sched.P(-22)
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	delete(m.m, k)
	return true
}
