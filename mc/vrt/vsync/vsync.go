// Package sync stands in for package sync under the controlled scheduler.
package sync

import (
	real "sync"
	"unsafe"

	"verifmc/vrt"
)

type Locker = real.Locker

type Mutex struct{ l vrt.Lock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

type RWMutex struct{ l vrt.Lock }

func (m *RWMutex) Lock()          { m.l.Lock() }
func (m *RWMutex) Unlock()        { m.l.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.l.TryLock() }
func (m *RWMutex) RLock()         { m.l.RLock() }
func (m *RWMutex) RUnlock()       { m.l.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.l.TryRLock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	l    vrt.Lock
	done bool
}

func (o *Once) Do(f func()) {
	o.l.Lock()
	defer o.l.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct{ c vrt.Counter }

func (w *WaitGroup) Add(n int) { w.c.Add(n) }
func (w *WaitGroup) Done()     { w.c.Add(-1) }
func (w *WaitGroup) Wait()     { w.c.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.c.Add(1)
	vrt.Go(func() {
		defer w.c.Add(-1)
		f()
	})
}

type Cond struct {
	L Locker
	c vrt.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait()      { c.c.Wait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()    { c.c.Signal(false) }
func (c *Cond) Broadcast() { c.c.Signal(true) }

// Map keeps insertion order.
type Map struct {
	key  byte
	m    map[any]any
	keys []any
}

func (m *Map) op(f func()) { vrt.Atomic(unsafe.Pointer(&m.key), f) }

func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) drop(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k any) (v any, ok bool) { m.op(func() { v, ok = m.m[k] }); return }
func (m *Map) Store(k, v any)              { m.op(func() { m.store(k, v) }) }
func (m *Map) Delete(k any)                { m.op(func() { m.drop(k) }) }
func (m *Map) Clear()                      { m.op(func() { m.m, m.keys = nil, nil }) }
func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	m.op(func() {
		if a, loaded = m.m[k]; !loaded {
			a = v
			m.store(k, v)
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.op(func() { v, ok = m.m[k]; m.drop(k) })
	return
}
func (m *Map) Swap(k, v any) (old any, ok bool) {
	m.op(func() { old, ok = m.m[k]; m.store(k, v) })
	return
}
func (m *Map) CompareAndSwap(k, old, new any) (ok bool) {
	m.op(func() {
		if v, in := m.m[k]; in && v == old {
			ok = true
			m.store(k, new)
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old any) (ok bool) {
	m.op(func() {
		if v, in := m.m[k]; in && v == old {
			ok = true
			m.drop(k)
		}
	})
	return
}
func (m *Map) Range(f func(k, v any) bool) {
	var keys []any
	m.op(func() { keys = append(keys, m.keys...) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

type Pool struct {
	New func() any
	l   vrt.Lock
	x   []any
}

func (p *Pool) Get() any {
	p.l.Lock()
	defer p.l.Unlock()
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	p.l.Lock()
	defer p.l.Unlock()
	p.x = append(p.x, v)
}
