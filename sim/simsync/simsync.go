// Package simsync stands in for package sync in the code under test: the same API, with blocking, wake-up
// and pool behaviour decided by the simulator. Under the race detector every primitive creates the
// happens-before edges that the real one promises, and no others.
package simsync

import (
	"sort"
	"unsafe"

	"verif.local/sim/hook"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	hb     byte
}

func (m *Mutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

// Lock is sync.Mutex.Lock.
//
//go:norace
func (m *Mutex) Lock() {
	hook.Y(0)
	for m.locked {
		if !hook.Block(m.key()) {
			break
		}
	}
	m.locked = true
	hook.RaceAcquire(unsafe.Pointer(&m.hb))
}

// TryLock is sync.Mutex.TryLock.
//
//go:norace
func (m *Mutex) TryLock() bool {
	hook.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	hook.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

// Unlock is sync.Mutex.Unlock.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.locked && !hook.Exiting() {
		panic("sync: unlock of unlocked mutex")
	}
	hook.RaceRelease(unsafe.Pointer(&m.hb))
	m.locked = false
	hook.Wake(m.key())
	hook.Y(0)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	hb, hbr byte
}

func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

// Lock is sync.RWMutex.Lock.
//
//go:norace
func (m *RWMutex) Lock() {
	hook.Y(0)
	m.waiting++
	for m.writer || m.readers > 0 {
		if !hook.Block(m.key()) {
			break
		}
	}
	m.waiting--
	m.writer = true
	hook.RaceAcquire(unsafe.Pointer(&m.hb))
	hook.RaceAcquire(unsafe.Pointer(&m.hbr))
}

// TryLock is sync.RWMutex.TryLock.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	hook.Y(0)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	hook.RaceAcquire(unsafe.Pointer(&m.hb))
	hook.RaceAcquire(unsafe.Pointer(&m.hbr))
	return true
}

// Unlock is sync.RWMutex.Unlock.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer && !hook.Exiting() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	hook.RaceRelease(unsafe.Pointer(&m.hb))
	m.writer = false
	hook.Wake(m.key())
	hook.Y(0)
}

// RLock is sync.RWMutex.RLock: as there, a waiting writer keeps new readers out.
//
//go:norace
func (m *RWMutex) RLock() {
	hook.Y(0)
	for m.writer || m.waiting > 0 {
		if !hook.Block(m.key()) {
			break
		}
	}
	m.readers++
	hook.RaceAcquire(unsafe.Pointer(&m.hb))
}

// TryRLock is sync.RWMutex.TryRLock.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	hook.Y(0)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	hook.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

// RUnlock is sync.RWMutex.RUnlock.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if hook.Exiting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	hook.RaceReleaseMerge(unsafe.Pointer(&m.hbr))
	m.readers--
	hook.Wake(m.key())
	hook.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	if o.isDone() {
		hook.RaceAcquire(unsafe.Pointer(&o.m.hb))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	o.done = true
	hook.RaceRelease(unsafe.Pointer(&o.m.hb))
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	do := OnceFunc(func() { v = f() })
	return func() T { do(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	do := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { do(); return v1, v2 }
}

// Pool is sync.Pool: what Get returns, among what sync.Pool may return, is the simulator's choice.
type Pool struct {
	New func() any

	epoch uint64
	items [32]any
	n     int
	hb    byte
}

// Get is sync.Pool.Get.
func (p *Pool) Get() any {
	hook.Y(0)
	if x := p.take(); x != nil {
		hook.RaceAcquire(unsafe.Pointer(&p.hb))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) take() any {
	if p.epoch != hook.Epoch() {
		p.epoch = hook.Epoch()
		for i := range p.items {
			p.items[i] = nil
		}
		p.n = 0
	}
	if p.n == 0 {
		return nil
	}
	c := hook.PoolChoice()
	if c%8 == 0 {
		return nil
	}
	i := p.n - 1
	if c%8 == 1 {
		i = int((c >> 8) % uint64(p.n))
	}
	x := p.items[i]
	p.n--
	p.items[i] = p.items[p.n]
	p.items[p.n] = nil
	return x
}

// Put is sync.Pool.Put.
//
//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if p.epoch != hook.Epoch() {
		p.epoch = hook.Epoch()
		for i := range p.items {
			p.items[i] = nil
		}
		p.n = 0
	}
	if c := hook.PoolChoice(); c%16 == 0 || p.n == len(p.items) {
		return
	}
	hook.RaceReleaseMerge(unsafe.Pointer(&p.hb))
	p.items[p.n] = x
	p.n++
	hook.Y(0)
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb byte
}

// Add is sync.WaitGroup.Add.
//
//go:norace
func (w *WaitGroup) Add(delta int) {
	if delta < 0 {
		hook.RaceReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		hook.Wake(uintptr(unsafe.Pointer(w)))
	}
}

// Done is sync.WaitGroup.Done.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	hook.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait is sync.WaitGroup.Wait.
//
//go:norace
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		if !hook.Block(uintptr(unsafe.Pointer(w))) {
			break
		}
	}
	hook.RaceAcquire(unsafe.Pointer(&w.hb))
}

// Cond is sync.Cond.
type Cond struct {
	L Locker

	next, woken uint64 // tickets given out, and those of them that may go on
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is sync.Cond.Wait.
//
//go:norace
func (c *Cond) Wait() {
	ticket := c.next
	c.next++
	c.L.Unlock()
	for c.woken <= ticket {
		if !hook.Block(uintptr(unsafe.Pointer(c))) {
			break
		}
	}
	c.L.Lock()
}

// Signal is sync.Cond.Signal: it wakes the one that has waited longest.
//
//go:norace
func (c *Cond) Signal() {
	hook.Y(0)
	if c.woken < c.next {
		c.woken++
		hook.Wake(uintptr(unsafe.Pointer(c)))
	}
}

// Broadcast is sync.Cond.Broadcast.
//
//go:norace
func (c *Cond) Broadcast() {
	hook.Y(0)
	c.woken = c.next
	hook.Wake(uintptr(unsafe.Pointer(c)))
}

// Map is sync.Map, iterated in insertion order or as the simulator chooses.
type Map struct {
	mu Mutex
	m  map[any]*mapEntry
	n  uint64
}

type mapEntry struct {
	v   any
	seq uint64
}

// Load is sync.Map.Load.
func (m *Map) Load(key any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	e, ok := m.m[key]
	if !ok {
		return nil, false
	}
	return e.v, true
}

func (m *Map) store(key, value any) {
	if m.m == nil {
		m.m = map[any]*mapEntry{}
	}
	if e, ok := m.m[key]; ok {
		e.v = value
		return
	}
	m.n++
	m.m[key] = &mapEntry{value, m.n}
}

// Store is sync.Map.Store.
func (m *Map) Store(key, value any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.store(key, value)
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if e, ok := m.m[key]; ok {
		return e.v, true
	}
	m.store(key, value)
	return value, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	e, ok := m.m[key]
	if !ok {
		return nil, false
	}
	delete(m.m, key)
	return e.v, true
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(key, value any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	e, ok := m.m[key]
	if ok {
		old := e.v
		e.v = value
		return old, true
	}
	m.store(key, value)
	return nil, false
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(key, old, value any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	e, ok := m.m[key]
	if !ok || e.v != old {
		return false
	}
	e.v = value
	return true
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(key, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	e, ok := m.m[key]
	if !ok || e.v != old {
		return false
	}
	delete(m.m, key)
	return true
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(key, value any) bool) {
	type kv struct {
		k   any
		v   any
		seq uint64
	}
	m.mu.Lock()
	all := make([]kv, 0, len(m.m))
	for k, e := range m.m {
		all = append(all, kv{k, e.v, e.seq})
	}
	m.mu.Unlock()
	c := hook.PoolChoice() | 1
	sort.Slice(all, func(i, j int) bool { return hook.Mix(all[i].seq, c) < hook.Mix(all[j].seq, c) })
	for _, e := range all {
		if !f(e.k, e.v) {
			return
		}
	}
}
