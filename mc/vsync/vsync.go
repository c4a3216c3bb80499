// Package vsync has the interface of package sync for code run by vsched.
package vsync

import (
	"sync"

	"verif.local/mc/vsched"
)

type Locker = sync.Locker

// Map is the real map with every call a scheduling point.
type Map struct {
	m   sync.Map
	obj vsched.Obj
}

func (m *Map) point(kind string, write bool) {
	if vsched.Active() {
		vsched.Point(kind, &m.obj, write, nil, nil)
	}
}

func (m *Map) Load(k any) (any, bool)    { m.point("Map.Load", false); return m.m.Load(k) }
func (m *Map) Store(k, v any)            { m.point("Map.Store", true); m.m.Store(k, v) }
func (m *Map) Delete(k any)              { m.point("Map.Delete", true); m.m.Delete(k) }
func (m *Map) Clear()                    { m.point("Map.Clear", true); m.m.Clear() }
func (m *Map) Swap(k, v any) (any, bool) { m.point("Map.Swap", true); return m.m.Swap(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point("Map.LoadOrStore", true)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point("Map.LoadAndDelete", true)
	return m.m.LoadAndDelete(k)
}
func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.point("Map.CompareAndSwap", true)
	return m.m.CompareAndSwap(k, old, v)
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.point("Map.CompareAndDelete", true)
	return m.m.CompareAndDelete(k, old)
}
func (m *Map) Range(f func(k, v any) bool) { m.point("Map.Range", false); m.m.Range(f) }

// OnceFunc and the like are built on Once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// RWMutex prefers writers: once a writer waits, new readers wait for it.
type RWMutex struct {
	real    sync.RWMutex
	epoch   uint64
	obj     vsched.Obj
	wWait   bool
	wHeld   bool
	readers int
	tried   bool
	a, b    vsched.Addr // released by writers, by readers
}

//go:norace
func (m *RWMutex) fresh() {
	if e := vsched.Epoch(); m.epoch != e {
		m.epoch, m.wWait, m.wHeld, m.readers = e, false, false, 0
	}
}

//go:norace
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	m.fresh()
	if !vsched.Point("Lock", &m.obj, true, m.noWriter, m.announce) {
		return
	}
	if m.readers > 0 {
		if !vsched.Point("Lock (readers gone)", &m.obj, true, m.noReader, nil) {
			return
		}
	}
	m.wHeld = true
	vsched.Acquire(&m.a)
	vsched.Acquire(&m.b)
}

//go:norace
func (m *RWMutex) noWriter() bool { return !m.wWait }

//go:norace
func (m *RWMutex) announce() { m.wWait = true }

//go:norace
func (m *RWMutex) noReader() bool { return m.readers == 0 }

//go:norace
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Aborting() {
		return
	}
	m.fresh()
	if !m.wHeld {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.Touch(&m.obj, "Unlock", true)
	vsched.ReleaseMerge(&m.a)
	m.wHeld, m.wWait = false, false
}

//go:norace
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	m.fresh()
	if !vsched.Point("RLock", &m.obj, false, m.noWriter, m.enter) {
		return
	}
	vsched.Acquire(&m.a)
}

//go:norace
func (m *RWMutex) enter() { m.readers++ }

//go:norace
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if vsched.Aborting() {
		return
	}
	m.fresh()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.Touch(&m.obj, "RUnlock", false)
	vsched.ReleaseMerge(&m.b)
	m.readers--
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	m.fresh()
	if !vsched.Point("TryLock", &m.obj, true, nil, m.try) {
		return false
	}
	if m.tried {
		vsched.Acquire(&m.a)
		vsched.Acquire(&m.b)
	}
	return m.tried
}

// try and tryEnter leave their result in tried; the caller is the next to run.
//
//go:norace
func (m *RWMutex) try() {
	if m.tried = !m.wWait && m.readers == 0; m.tried {
		m.wWait, m.wHeld = true, true
	}
}

//go:norace
func (m *RWMutex) tryEnter() {
	if m.tried = !m.wWait; m.tried {
		m.readers++
	}
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	m.fresh()
	if !vsched.Point("TryRLock", &m.obj, false, nil, m.tryEnter) {
		return false
	}
	if m.tried {
		vsched.Acquire(&m.a)
	}
	return m.tried
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex is a mutual exclusion lock.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	real  sync.WaitGroup
	epoch uint64
	obj   vsched.Obj
	n     int
	a     vsched.Addr
}

//go:norace
func (w *WaitGroup) fresh() {
	if e := vsched.Epoch(); w.epoch != e {
		w.epoch, w.n = e, 0
	}
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	if vsched.Aborting() {
		return
	}
	w.fresh()
	vsched.Touch(&w.obj, "Add", false)
	vsched.ReleaseMerge(&w.a)
	if w.n += d; w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	w.fresh()
	if !vsched.Point("Wait", &w.obj, true, w.zero, nil) {
		return
	}
	vsched.Acquire(&w.a)
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

// Once performs exactly one action.
type Once struct {
	done bool
	busy uint64
	obj  vsched.Obj
	m    sync.Mutex
	a    vsched.Addr
}

//go:norace
func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.done {
			defer o.set()
			f()
		}
		return
	}
	if vsched.Aborting() {
		return
	}
	if !vsched.Point("Once", &o.obj, true, o.free, nil) {
		return
	}
	if o.done {
		vsched.Acquire(&o.a)
		return
	}
	o.busy = vsched.Epoch()
	defer o.set()
	f()
}

//go:norace
func (o *Once) set() {
	if vsched.Aborting() {
		return
	}
	o.done = true
	if vsched.Active() {
		vsched.Touch(&o.obj, "Once done", true)
	}
	vsched.ReleaseMerge(&o.a)
}

//go:norace
func (o *Once) free() bool { return o.done || o.busy != vsched.Epoch() }

// Pool is a last-in first-out pool.
type Pool struct {
	New   func() any
	items []any
	epoch uint64
	obj   vsched.Obj
	m     Mutex
	real  sync.Pool
}

func (p *Pool) Get() any {
	if !vsched.Active() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	p.m.Lock()
	p.fresh()
	var v any
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.m.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !vsched.Active() {
		p.real.Put(v)
		return
	}
	p.m.Lock()
	p.fresh()
	p.items = append(p.items, v)
	p.m.Unlock()
}

// fresh empties the pool for a new execution; executions must not depend on earlier ones.
func (p *Pool) fresh() {
	if e := vsched.Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

// Cond is a condition variable.
type Cond struct {
	L     Locker
	obj   vsched.Obj
	queue []*waiter
	real  *sync.Cond
	once  sync.Once
	a     vsched.Addr
}

type waiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) native() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.native().Wait()
		return
	}
	w := &waiter{}
	c.enqueue(w)
	c.L.Unlock()
	c.sleep(w)
	c.L.Lock()
}

//go:norace
func (c *Cond) enqueue(w *waiter) {
	vsched.Touch(&c.obj, "Cond wait", true)
	q := make([]*waiter, 0, len(c.queue)+1)
	for i := 0; i < len(c.queue); i++ {
		q = q[:i+1]
		q[i] = c.queue[i]
	}
	q = q[:len(q)+1]
	q[len(q)-1] = w
	c.queue = q
}

//go:norace
func (c *Cond) sleep(w *waiter) {
	vsched.Point("Cond.Wait", &c.obj, true, w.awake, nil)
	vsched.Acquire(&c.a)
}

//go:norace
func (w *waiter) awake() bool { return w.woken }

//go:norace
func (c *Cond) wake(n int) {
	if vsched.Aborting() {
		return
	}
	vsched.Touch(&c.obj, "Cond signal", true)
	vsched.ReleaseMerge(&c.a)
	for n != 0 && len(c.queue) > 0 {
		c.queue[0].woken = true
		c.queue = c.queue[1:]
		n--
	}
}

func (c *Cond) Signal() {
	if !vsched.Active() {
		c.native().Signal()
		return
	}
	c.wake(1)
}

func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.native().Broadcast()
		return
	}
	c.wake(-1)
}
