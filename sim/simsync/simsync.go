// Package simsync replaces package sync in the instrumented copy of lyraproj/dgo. Its primitives block in the
// simulator instead of in the Go runtime and declare their happens-before edges to the race detector explicitly.
package simsync

import (
	"sync"
	"unsafe"

	"verif.local/sim/rt"
)

// Locker is sync.Locker
type Locker = sync.Locker

// Mutex is a simulated sync.Mutex
type Mutex struct {
	held  bool
	rel   byte
	epoch uint32
}

// current frees a lock that is held by a thread of a run that has been abandoned
//
//go:norace
func (m *Mutex) current() {
	if e := rt.Epoch(); m.epoch != e {
		m.epoch, m.held = e, false
	}
}

// Lock locks
//
//go:norace
func (m *Mutex) Lock() {
	rt.SyncPoint()
	m.current()
	for m.held {
		rt.Block(unsafe.Pointer(m))
	}
	m.held = true
	rt.Acquire(unsafe.Pointer(&m.rel))
}

// TryLock tries to lock
//
//go:norace
func (m *Mutex) TryLock() bool {
	rt.SyncPoint()
	m.current()
	if m.held {
		return false
	}
	m.held = true
	rt.Acquire(unsafe.Pointer(&m.rel))
	return true
}

// Unlock unlocks
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		rt.Fatal(`sync: unlock of unlocked mutex`)
	}
	rt.Release(unsafe.Pointer(&m.rel))
	m.held = false
	rt.Wake(unsafe.Pointer(m))
	rt.SyncPoint()
}

// RWMutex is a simulated sync.RWMutex. As in the real one, a waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	relW    byte
	relR    byte
	epoch   uint32
}

// current frees a lock that is held by a thread of a run that has been abandoned
//
//go:norace
func (m *RWMutex) current() {
	if e := rt.Epoch(); m.epoch != e {
		m.epoch, m.w, m.readers, m.waiting = e, false, 0, 0
	}
}

// Lock locks for writing
//
//go:norace
func (m *RWMutex) Lock() {
	rt.SyncPoint()
	m.current()
	m.waiting++
	for m.w || m.readers > 0 {
		rt.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	rt.Acquire(unsafe.Pointer(&m.relW))
	rt.Acquire(unsafe.Pointer(&m.relR))
}

// TryLock tries to lock for writing
//
//go:norace
func (m *RWMutex) TryLock() bool {
	rt.SyncPoint()
	m.current()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(&m.relW))
	rt.Acquire(unsafe.Pointer(&m.relR))
	return true
}

// Unlock unlocks after Lock
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		rt.Fatal(`sync: Unlock of unlocked RWMutex`)
	}
	rt.Release(unsafe.Pointer(&m.relW))
	m.w = false
	rt.Wake(unsafe.Pointer(m))
	rt.SyncPoint()
}

// RLock locks for reading
//
//go:norace
func (m *RWMutex) RLock() {
	rt.SyncPoint()
	m.current()
	for m.w || m.waiting > 0 {
		rt.Block(unsafe.Pointer(m))
	}
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.relW))
}

// TryRLock tries to lock for reading
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.SyncPoint()
	m.current()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.relW))
	return true
}

// RUnlock unlocks after RLock
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		rt.Fatal(`sync: RUnlock of unlocked RWMutex`)
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.relR))
	m.readers--
	rt.Wake(unsafe.Pointer(m))
	rt.SyncPoint()
}

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for RLock and RUnlock
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once
type Once struct {
	done bool
	rel  byte
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	rt.SyncPoint()
	if o.done {
		rt.Acquire(unsafe.Pointer(&o.rel))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	rt.ReleaseMerge(unsafe.Pointer(&o.rel))
	o.done = true
}

// Do calls f once
func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is sync.OnceFunc
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	var r T
	do := OnceFunc(func() { r = f() })
	return func() T { do(); return r }
}

// OnceValues is sync.OnceValues
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	do := OnceFunc(func() { a, b = f() })
	return func() (A, B) { do(); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup
type WaitGroup struct {
	n   int
	rel byte
}

// Add adds
//
//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		rt.ReleaseMerge(unsafe.Pointer(&w.rel))
	}
	w.n += d
	if w.n < 0 {
		panic(`sync: negative WaitGroup counter`)
	}
	if w.n == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
	rt.SyncPoint()
}

// Done is Add(-1)
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits
//
//go:norace
func (w *WaitGroup) Wait() {
	rt.SyncPoint()
	for w.n > 0 {
		rt.Block(unsafe.Pointer(w))
	}
	rt.Acquire(unsafe.Pointer(&w.rel))
}

// Go calls f in a new simulated thread
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Cond is a simulated sync.Cond
type Cond struct {
	L   Locker
	gen int
	sig int
	nw  int
}

// NewCond is sync.NewCond
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits
//
//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.nw++
	c.L.Unlock()
	for c.gen == g && c.sig == 0 {
		rt.Block(unsafe.Pointer(c))
	}
	if c.gen == g {
		c.sig--
	}
	c.nw--
	c.L.Lock()
}

// Signal wakes one
//
//go:norace
func (c *Cond) Signal() {
	if c.nw > c.sig {
		c.sig++
		rt.Wake(unsafe.Pointer(c))
	}
}

// Broadcast wakes all
//
//go:norace
func (c *Cond) Broadcast() {
	c.gen++
	c.sig = 0
	rt.Wake(unsafe.Pointer(c))
}

// Pool is a simulated sync.Pool that, in the simulator's discretion, drops or returns what was put.
type Pool struct {
	New   func() any
	items []any
	m     Mutex
}

// Get gets
func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 && rt.EnvRand(4) != 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

type mapEntry struct {
	k, v any
	rel  byte
	dead bool
}

// Map is a simulated sync.Map: every operation is one atomic step, Range visits the entries in an order drawn from the
// seed, and a Load happens after the Store that it observes.
type Map struct {
	es []*mapEntry
}

//go:norace
func (m *Map) find(k any) *mapEntry {
	for i := 0; i < len(m.es); i++ {
		if m.es[i].k == k {
			return m.es[i]
		}
	}
	return nil
}

//go:norace
func (m *Map) insert(k, v any) {
	e := &mapEntry{k: k, v: v}
	rt.ReleaseMerge(unsafe.Pointer(&e.rel))
	es := make([]*mapEntry, len(m.es)+1)
	for i := 0; i < len(m.es); i++ {
		es[i] = m.es[i]
	}
	es[len(m.es)] = e
	m.es = es
}

//go:norace
func (m *Map) remove(e *mapEntry) {
	rt.Acquire(unsafe.Pointer(&e.rel))
	es := make([]*mapEntry, len(m.es)-1)
	j := 0
	for i := 0; i < len(m.es); i++ {
		if m.es[i] != e {
			es[j] = m.es[i]
			j++
		}
	}
	m.es = es
	e.dead = true
}

// Load is sync.Map.Load
//
//go:norace
func (m *Map) Load(k any) (any, bool) {
	rt.SyncPoint()
	if e := m.find(k); e != nil {
		rt.Acquire(unsafe.Pointer(&e.rel))
		return e.v, true
	}
	return nil, false
}

// Store is sync.Map.Store
//
//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap is sync.Map.Swap
//
//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	rt.SyncPoint()
	if e := m.find(k); e != nil {
		rt.Acquire(unsafe.Pointer(&e.rel))
		rt.ReleaseMerge(unsafe.Pointer(&e.rel))
		o := e.v
		e.v = v
		return o, true
	}
	m.insert(k, v)
	return nil, false
}

// LoadOrStore is sync.Map.LoadOrStore
//
//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.SyncPoint()
	if e := m.find(k); e != nil {
		rt.Acquire(unsafe.Pointer(&e.rel))
		return e.v, true
	}
	m.insert(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete
//
//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.SyncPoint()
	if e := m.find(k); e != nil {
		m.remove(e)
		return e.v, true
	}
	return nil, false
}

// Delete is sync.Map.Delete
//
//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap is sync.Map.CompareAndSwap
//
//go:norace
func (m *Map) CompareAndSwap(k, old, nw any) bool {
	rt.SyncPoint()
	if e := m.find(k); e != nil && e.v == old {
		rt.Acquire(unsafe.Pointer(&e.rel))
		rt.ReleaseMerge(unsafe.Pointer(&e.rel))
		e.v = nw
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete
//
//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	rt.SyncPoint()
	if e := m.find(k); e != nil && e.v == old {
		m.remove(e)
		return true
	}
	return false
}

// Clear is sync.Map.Clear
//
//go:norace
func (m *Map) Clear() {
	rt.SyncPoint()
	m.es = nil
}

//go:norace
func (m *Map) snapshot() []*mapEntry {
	es := make([]*mapEntry, len(m.es))
	for i := 0; i < len(m.es); i++ {
		es[i] = m.es[i]
	}
	for i := len(es) - 1; i > 0; i-- {
		j := rt.EnvRand(i + 1)
		es[i], es[j] = es[j], es[i]
	}
	return es
}

//go:norace
func (m *Map) read(e *mapEntry) (any, any, bool) {
	if e.dead {
		return nil, nil, false
	}
	rt.Acquire(unsafe.Pointer(&e.rel))
	return e.k, e.v, true
}

// Range is sync.Map.Range
func (m *Map) Range(f func(k, v any) bool) {
	rt.SyncPoint()
	for _, e := range m.snapshot() {
		k, v, ok := m.read(e)
		if ok && !f(k, v) {
			return
		}
		rt.SyncPoint()
	}
}
