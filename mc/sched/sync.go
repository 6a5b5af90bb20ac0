package sched

import (
	"sync"
	"sync/atomic"
)

// Mutex is a sync.Mutex that lets other managed threads run while it waits.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	Point()
	for !m.m.TryLock() {
		yield()
	}
}

func (m *Mutex) TryLock() bool { Point(); return m.m.TryLock() }

func (m *Mutex) Unlock() { m.m.Unlock(); Point() }

// RWMutex is a sync.RWMutex that lets other managed threads run while it waits.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	Point()
	for !m.m.TryLock() {
		yield()
	}
}

func (m *RWMutex) RLock() {
	Point()
	for !m.m.TryRLock() {
		yield()
	}
}

func (m *RWMutex) TryLock() bool  { Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { Point(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); Point() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); Point() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is like the method of sync.RWMutex.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once is a sync.Once that lets other managed threads run while it waits.
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// Pool is a sync.Pool that always reuses the value returned last, separately
// for every controlled execution. As in sync.Pool, what happens before a Put
// happens before the Get that returns the value, and nothing more.
type Pool struct {
	New func() interface{}
	p   sync.Pool // outside of controlled executions
}

// poolSlot holds one value of one pool.
type poolSlot struct {
	p    *Pool
	v    interface{}
	at   int
	sync uint32
}

//go:norace
func (p *Pool) take(e *Exec) *poolSlot {
	var best *poolSlot
	for i := range e.pools {
		if s := &e.pools[i]; s.p == p && (best == nil || s.at > best.at) {
			best = s
		}
	}
	if best != nil {
		best.p = nil
	}
	return best
}

//go:norace
func (p *Pool) slot(e *Exec) *poolSlot {
	for i := range e.pools {
		if s := &e.pools[i]; s.p == nil {
			return s
		}
	}
	return nil
}

//go:norace
func (s *poolSlot) get() interface{} {
	atomic.LoadUint32(&s.sync)
	v := s.v
	s.v = nil
	return v
}

//go:norace
func (s *poolSlot) put(e *Exec, p *Pool, v interface{}) {
	atomic.StoreUint32(&s.sync, 1)
	e.puts++
	s.v, s.at, s.p = v, e.puts, p
}

func (p *Pool) Get() interface{} {
	Point()
	var v interface{}
	if t := self(); t == nil || t.e.free {
		v = p.p.Get()
	} else if s := p.take(t.e); s != nil {
		v = s.get()
	}
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	if t := self(); t == nil || t.e.free {
		p.p.Put(v)
	} else if s := p.slot(t.e); s != nil {
		s.put(t.e, p, v)
	}
	Point()
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T { once(); return v }
}

// OnceValues is like sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	once := OnceFunc(func() { a, b = f() })
	return func() (A, B) { once(); return a, b }
}
