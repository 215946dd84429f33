// Package vsync mirrors package sync on top of the controlled scheduler.
// Outside a controlled execution every type behaves like the original.
package vsync

import (
	"sync"

	"verif/sched"
)

type Locker = sync.Locker

// Mutex ---------------------------------------------------------------

type Mutex struct {
	n      sync.Mutex
	gen    uint64
	locked bool
}

// UnlockPoints makes every release of a lock a scheduling point of its own.
// Releases commute with everything another goroutine does up to its next
// point, except with an attempt to lock that does not wait: it is set when the
// code under test uses TryLock or TryRLock.
var UnlockPoints bool

func (m *Mutex) fresh() {
	if g := sched.Gen(); m.gen != g {
		m.gen = g
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if sched.Killing() {
		return
	}
	if sched.Cur() != nil {
		m.fresh()
		if sched.At("mutex.Lock", func() bool { return !m.locked }) {
			m.locked = true
			return
		}
	}
	m.n.Lock()
}

func (m *Mutex) TryLock() bool {
	if sched.Killing() {
		return true
	}
	if sched.Cur() != nil {
		m.fresh()
		if sched.At("mutex.TryLock", nil) {
			if m.locked {
				return false
			}
			m.locked = true
			return true
		}
	}
	return m.n.TryLock()
}

func (m *Mutex) Unlock() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		if UnlockPoints {
			sched.At("mutex.Unlock", nil)
		}
		m.fresh()
		if !m.locked {
			sched.Fatal("sync: unlock of unlocked mutex")
			return
		}
		m.locked = false
		return
	}
	m.n.Unlock()
}

// RWMutex -------------------------------------------------------------

type RWMutex struct {
	n       sync.RWMutex
	gen     uint64
	w       bool
	readers int
}

func (m *RWMutex) fresh() {
	if g := sched.Gen(); m.gen != g {
		m.gen = g
		m.w = false
		m.readers = 0
	}
}

func (m *RWMutex) Lock() {
	if sched.Killing() {
		return
	}
	if sched.Cur() != nil {
		m.fresh()
		if sched.At("rw.Lock", func() bool { return !m.w && m.readers == 0 }) {
			m.w = true
			return
		}
	}
	m.n.Lock()
}

func (m *RWMutex) TryLock() bool {
	if sched.Killing() {
		return true
	}
	if sched.Cur() != nil {
		m.fresh()
		if sched.At("rw.TryLock", nil) {
			if m.w || m.readers > 0 {
				return false
			}
			m.w = true
			return true
		}
	}
	return m.n.TryLock()
}

func (m *RWMutex) Unlock() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		if UnlockPoints {
			sched.At("rw.Unlock", nil)
		}
		m.fresh()
		if !m.w {
			sched.Fatal("sync: Unlock of unlocked RWMutex")
			return
		}
		m.w = false
		return
	}
	m.n.Unlock()
}

func (m *RWMutex) RLock() {
	if sched.Killing() {
		return
	}
	if sched.Cur() != nil {
		m.fresh()
		if sched.At("rw.RLock", func() bool { return !m.w }) {
			m.readers++
			return
		}
	}
	m.n.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if sched.Killing() {
		return true
	}
	if sched.Cur() != nil {
		m.fresh()
		if sched.At("rw.TryRLock", nil) {
			if m.w {
				return false
			}
			m.readers++
			return true
		}
	}
	return m.n.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		if UnlockPoints {
			sched.At("rw.RUnlock", nil)
		}
		m.fresh()
		if m.readers <= 0 {
			sched.Fatal("sync: RUnlock of unlocked RWMutex")
			return
		}
		m.readers--
		return
	}
	m.n.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond ----------------------------------------------------------------

type Cond struct {
	L       Locker
	once    sync.Once
	n       *sync.Cond
	gen     uint64
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) native() *sync.Cond {
	c.once.Do(func() { c.n = sync.NewCond(c.L) })
	return c.n
}

func (c *Cond) fresh() {
	if g := sched.Gen(); c.gen != g {
		c.gen = g
		c.waiters = nil
	}
}

func (c *Cond) Wait() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		c.fresh()
		tok := new(bool)
		c.waiters = append(c.waiters, tok)
		c.L.Unlock()
		sched.At("cond.Wait", func() bool { return *tok })
		c.L.Lock()
		return
	}
	c.native().Wait()
}

func (c *Cond) Signal() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		c.fresh()
		if len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
		}
		return
	}
	c.native().Signal()
}

func (c *Cond) Broadcast() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		c.fresh()
		for _, t := range c.waiters {
			*t = true
		}
		c.waiters = nil
		return
	}
	c.native().Broadcast()
}

// WaitGroup -----------------------------------------------------------

type WaitGroup struct {
	n   sync.WaitGroup
	gen uint64
	c   int
}

func (w *WaitGroup) Add(d int) {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		if g := sched.Gen(); w.gen != g {
			w.gen, w.c = g, 0
		}
		w.c += d
		if w.c < 0 {
			panic("sync: negative WaitGroup counter")
		}
		return
	}
	w.n.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		if g := sched.Gen(); w.gen != g {
			w.gen, w.c = g, 0
		}
		sched.At("wg.Wait", func() bool { return w.c == 0 })
		return
	}
	w.n.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go sched.Wrap("wg.Go", func() {
		defer w.Done()
		f()
	})()
}

// Once ----------------------------------------------------------------

type Once struct {
	n    sync.Once
	m    Mutex
	gen  uint64
	done bool
}

func (o *Once) Do(f func()) {
	if sched.Killing() {
		return
	}
	if sched.Active() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	if o.done {
		return
	}
	o.n.Do(func() { defer func() { o.done = true }(); f() })
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool ----------------------------------------------------------------
//
// The pool is the most adversarial one the contract allows for aliasing:
// strict LIFO, an object put back is handed out by the very next Get.
// The content does not survive from one execution to the next.

type Pool struct {
	New func() any

	mu    sync.Mutex
	gen   uint64
	items []any
}

func (p *Pool) Get() any {
	if !sched.Killing() {
		sched.PointAt("pool.Get")
	}
	p.mu.Lock()
	if g := sched.Gen(); p.gen != g {
		p.gen = g
		p.items = nil
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !sched.Killing() {
		sched.PointAt("pool.Put")
	}
	p.mu.Lock()
	if g := sched.Gen(); p.gen != g {
		p.gen = g
		p.items = nil
	}
	if len(p.items) < 64 {
		p.items = append(p.items, v)
	}
	p.mu.Unlock()
}

// Map -----------------------------------------------------------------

// Map starts every execution with what was stored outside of executions.
type Map struct {
	base sync.Map
	mu   sync.Mutex
	gen  uint64
	run  *sync.Map
}

func (m *Map) m() *sync.Map {
	if !sched.Killing() {
		sched.PointAt("sync.Map")
	}
	g := sched.Gen()
	if g == 0 {
		return &m.base
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.gen != g {
		m.gen, m.run = g, &sync.Map{}
		m.base.Range(func(k, v any) bool { m.run.Store(k, v); return true })
	}
	return m.run
}

func (m *Map) Load(k any) (any, bool)           { return m.m().Load(k) }
func (m *Map) Store(k, v any)                   { m.m().Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { return m.m().LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { return m.m().LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.m().Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { return m.m().Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { return m.m().CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { return m.m().CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.m().Range(f) }
func (m *Map) Clear()                           { m.m().Clear() }
