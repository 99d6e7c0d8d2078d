// Package msync stands in for the package sync in explored code.
package msync

import (
	"unsafe"

	"verif/mcrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type fatal string

func (f fatal) Error() string { return "fatal error: sync: " + string(f) }

func wait(name string, cond func() bool) {
	if mcrt.Active() {
		mcrt.WaitFor(name, cond)
	}
}

type Mutex struct {
	locked bool
	hb     [16]byte
}

func (m *Mutex) Lock() {
	wait("lock", func() bool { return !m.locked })
	m.locked = true
	mcrt.Acquire(unsafe.Pointer(&m.hb))
}

func (m *Mutex) TryLock() bool {
	mcrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	mcrt.Acquire(unsafe.Pointer(&m.hb))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic(fatal("unlock of unlocked mutex"))
	}
	m.locked = false
	mcrt.Release(unsafe.Pointer(&m.hb))
}

type RWMutex struct {
	writer  bool
	readers int
	hbW     [16]byte
	hbR     [16]byte
}

func (m *RWMutex) Lock() {
	wait("lock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	mcrt.Acquire(unsafe.Pointer(&m.hbW))
	mcrt.Acquire(unsafe.Pointer(&m.hbR))
}

func (m *RWMutex) TryLock() bool {
	mcrt.Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	mcrt.Acquire(unsafe.Pointer(&m.hbW))
	mcrt.Acquire(unsafe.Pointer(&m.hbR))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic(fatal("Unlock of unlocked RWMutex"))
	}
	m.writer = false
	mcrt.Release(unsafe.Pointer(&m.hbW))
}

func (m *RWMutex) RLock() {
	wait("read lock", func() bool { return !m.writer })
	m.readers++
	mcrt.Acquire(unsafe.Pointer(&m.hbW))
}

func (m *RWMutex) TryRLock() bool {
	mcrt.Yield()
	if m.writer {
		return false
	}
	m.readers++
	mcrt.Acquire(unsafe.Pointer(&m.hbW))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic(fatal("RUnlock of unlocked RWMutex"))
	}
	m.readers--
	mcrt.Release(unsafe.Pointer(&m.hbR))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	hb [16]byte
}

func (w *WaitGroup) Add(delta int) {
	if delta < 0 {
		mcrt.Release(unsafe.Pointer(&w.hb))
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	wait("wait group", func() bool { return w.n == 0 })
	mcrt.Acquire(unsafe.Pointer(&w.hb))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mcrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
	hb   [16]byte
}

func (o *Once) Do(f func()) {
	mcrt.Yield()
	if o.done {
		mcrt.Acquire(unsafe.Pointer(&o.hb))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			mcrt.Release(unsafe.Pointer(&o.hb))
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var once Once
	var result T
	return func() T {
		once.Do(func() { result = f() })
		return result
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		once.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

type Cond struct {
	L       Locker
	waiting []*bool
	hb      [16]byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	wait("condition", func() bool { return *woken })
	mcrt.Acquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

func (c *Cond) Signal() {
	mcrt.Yield()
	mcrt.Release(unsafe.Pointer(&c.hb))
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	mcrt.Yield()
	mcrt.Release(unsafe.Pointer(&c.hb))
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
}

type entry struct{ k, v interface{} }

// Map has no built-in map inside as these tell the race detector about their accesses.
type Map struct {
	entries []entry
	hb      [16]byte
}

func (m *Map) at(k interface{}) int {
	mcrt.Yield()
	mcrt.Acquire(unsafe.Pointer(&m.hb))
	mcrt.Release(unsafe.Pointer(&m.hb))
	for i := range m.entries {
		if m.entries[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	if i := m.at(k); i >= 0 {
		return m.entries[i].v, true
	}
	return nil, false
}

func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	if i := m.at(k); i >= 0 {
		old := m.entries[i].v
		m.entries[i].v = v
		return old, true
	}
	m.entries = append(m.entries, entry{k, v})
	return nil, false
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if i := m.at(k); i >= 0 {
		return m.entries[i].v, true
	}
	m.entries = append(m.entries, entry{k, v})
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	i := m.at(k)
	if i < 0 {
		return nil, false
	}
	old := m.entries[i].v
	m.entries = append(m.entries[:i:i], m.entries[i+1:]...)
	return old, true
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	if i := m.at(k); i >= 0 && m.entries[i].v == old {
		m.entries[i].v = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	if i := m.at(k); i >= 0 && m.entries[i].v == old {
		m.entries = append(m.entries[:i:i], m.entries[i+1:]...)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.at(nil)
	m.entries = nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.at(nil)
	for _, e := range append([]entry{}, m.entries...) {
		if !f(e.k, e.v) {
			return
		}
	}
}

type Pool struct {
	New   func() interface{}
	items []interface{}
	hb    [16]byte
}

func (p *Pool) Get() interface{} {
	mcrt.Yield()
	mcrt.Acquire(unsafe.Pointer(&p.hb))
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	mcrt.Yield()
	mcrt.Release(unsafe.Pointer(&p.hb))
	p.items = append(p.items, v)
}
