//go:build go1.23

// Package simsync replaces package sync in the code under test. Inside a
// simulated world every blocking operation is a scheduling decision; the
// happens-before edges that the race detector sees are those of package sync.
// Outside a world it behaves like package sync.
package simsync

import (
	"sync"
	"unsafe"

	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	hb     byte
	real   sync.Mutex
}

//go:norace
func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.real.Lock()
		return
	}
	simrt.Point()
	for m.locked {
		simrt.Park("sync.Mutex.Lock", unsafe.Pointer(m))
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.hb))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !simrt.Active() {
		return m.real.TryLock()
	}
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !simrt.Active() {
		m.real.Unlock()
		return
	}
	if !m.locked {
		simrt.Exit(2, "fatal error: sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.hb))
	m.locked = false
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	readers int
	writer  bool
	waiting int // writers waiting
	wsem    byte
	rsem    byte
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.real.RLock()
		return
	}
	simrt.Point()
	for m.writer || m.waiting > 0 {
		simrt.Park("sync.RWMutex.RLock", unsafe.Pointer(m))
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !simrt.Active() {
		return m.real.TryRLock()
	}
	simrt.Point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !simrt.Active() {
		m.real.RUnlock()
		return
	}
	if m.readers <= 0 {
		simrt.Exit(2, "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.rsem))
	m.readers--
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

//go:norace
func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.real.Lock()
		return
	}
	simrt.Point()
	m.waiting++
	for m.writer || m.readers > 0 {
		simrt.Park("sync.RWMutex.Lock", unsafe.Pointer(m))
	}
	m.waiting--
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !simrt.Active() {
		return m.real.TryLock()
	}
	simrt.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !simrt.Active() {
		m.real.Unlock()
		return
	}
	if !m.writer {
		simrt.Exit(2, "fatal error: sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.wsem))
	m.writer = false
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	hb   byte
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	simrt.Point()
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.hb))
		return
	}
	o.slow(f)
}

//go:norace
func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() {
	simrt.RaceRelease(unsafe.Pointer(&o.hb))
	o.done = true
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	g := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { g(); return v1, v2 }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	hb   byte
	real sync.WaitGroup
}

//go:norace
func (g *WaitGroup) Add(d int) {
	if !simrt.Active() {
		g.real.Add(d)
		return
	}
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&g.hb))
	}
	simrt.Point()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		simrt.WakeAll(unsafe.Pointer(g))
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	if !simrt.Active() {
		g.real.Wait()
		return
	}
	simrt.Point()
	for g.n > 0 {
		simrt.Park("sync.WaitGroup.Wait", unsafe.Pointer(g))
	}
	simrt.RaceAcquire(unsafe.Pointer(&g.hb))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWait
}

type condWait struct{ fired bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWait{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	for !w.fired {
		simrt.Park("sync.Cond.Wait", unsafe.Pointer(w))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.Point()
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.fired = true
		simrt.WakeAll(unsafe.Pointer(w))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.Point()
	for _, w := range c.waiters {
		w.fired = true
		simrt.WakeAll(unsafe.Pointer(w))
	}
	c.waiters = nil
}

// Pool is sync.Pool; which pooled item Get returns, and whether it returns one
// at all, is a seeded decision.
type Pool struct {
	New   func() any
	items []*poolItem
}

type poolItem struct {
	x  any
	hb byte
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if simrt.Active() && simrt.Choose(8) == 7 {
		return
	}
	it := &poolItem{x: x}
	simrt.RaceReleaseMerge(unsafe.Pointer(&it.hb))
	p.items = append(p.items, it)
	simrt.Point()
}

//go:norace
func (p *Pool) Get() any {
	simrt.Point()
	if n := len(p.items); n > 0 && !(simrt.Active() && simrt.Choose(8) == 7) {
		i := n - 1
		if simrt.Active() && simrt.Choose(3) == 2 {
			i = simrt.Choose(n)
		}
		it := p.items[i]
		p.items[i] = p.items[n-1]
		p.items = p.items[:n-1]
		simrt.RaceAcquire(unsafe.Pointer(&it.hb))
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map is sync.Map with a decided iteration order.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { simrt.Point(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Point()
	var keys []any
	m.m.Range(func(k, _ any) bool { keys = append(keys, k); return true })
	simrt.Order(keys)
	for _, k := range keys {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
		simrt.Point()
	}
}
