// Package simsync stands in for package sync under the simulator.
package simsync

import (
	"sync"
	"unsafe"

	"verifsim/sim"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is the real sync.Map, which never blocks and inside which no task switch
// happens, except that the order of Range is the run's.
type Map struct{ sync.Map }

// Range calls f for every entry, in an order drawn from the run's seed.
func (m *Map) Range(f func(k, v any) bool) {
	all := map[any]any{}
	m.Map.Range(func(k, v any) bool {
		all[k] = v
		return true
	})
	for _, e := range sim.MapEntries(all) {
		if v, ok := m.Load(e.K); ok && !f(e.K, v) {
			return
		}
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
	hb     uint64
}

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(&m.hb) }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	sim.Point()
	for m.locked {
		sim.Block("mutex", m.p())
	}
	m.locked = true
	sim.RaceAcquire(m.p())
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	sim.Point()
	if m.locked {
		return false
	}
	m.locked = true
	sim.RaceAcquire(m.p())
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	sim.RaceRelease(m.p())
	m.locked = false
	sim.Wake(m.p())
	sim.Point()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	writer  bool
	readers int
	waiting int
	hb, rb  uint64
}

func (m *RWMutex) p() unsafe.Pointer { return unsafe.Pointer(&m.hb) }
func (m *RWMutex) r() unsafe.Pointer { return unsafe.Pointer(&m.rb) }

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	sim.Point()
	m.waiting++
	for m.writer || m.readers > 0 {
		sim.Block("rwmutex", m.p())
	}
	m.waiting--
	m.writer = true
	sim.RaceAcquire(m.p())
	sim.RaceAcquire(m.r())
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	sim.RaceAcquire(m.p())
	sim.RaceAcquire(m.r())
	return true
}

// Unlock ends writing.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	sim.RaceRelease(m.p())
	m.writer = false
	sim.Wake(m.p())
	sim.Point()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	sim.Point()
	for m.writer || m.waiting > 0 {
		sim.Block("rwmutex read", m.p())
	}
	m.readers++
	sim.RaceAcquire(m.p())
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	sim.RaceAcquire(m.p())
	return true
}

// RUnlock ends reading.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	sim.RaceReleaseMerge(m.r())
	m.readers--
	sim.Wake(m.p())
	sim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	n  int
	hb uint64
}

func (w *WaitGroup) p() unsafe.Pointer { return unsafe.Pointer(&w.hb) }

// Add changes the counter.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		sim.RaceReleaseMerge(w.p())
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		sim.Wake(w.p())
	}
	sim.Point()
}

// Done decrements the counter.
//
//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait blocks until the counter is zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	sim.Point()
	for w.n > 0 {
		sim.Block("waitgroup", w.p())
	}
	sim.RaceAcquire(w.p())
}

// Go runs f in a new goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	t := sim.NewTask(0)
	go func() {
		sim.Begin(t)
		defer sim.End(t)
		defer w.Done()
		f()
	}()
}

// Once performs exactly one action.
type Once struct {
	state int
	hb    uint64
}

func (o *Once) p() unsafe.Pointer { return unsafe.Pointer(&o.hb) }

//go:norace
func (o *Once) enter() bool {
	sim.Point()
	for o.state == 1 {
		sim.Block("once", o.p())
	}
	if o.state == 2 {
		sim.RaceAcquire(o.p())
		return false
	}
	o.state = 1
	return true
}

//go:norace
func (o *Once) leave() {
	o.state = 2
	sim.RaceReleaseMerge(o.p())
	sim.Wake(o.p())
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if !o.enter() {
		return
	}
	defer o.leave()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	waiters [256]*condWaiter
	n       int
	hb      uint64
}

type condWaiter struct{ woken bool }

// NewCond returns a Cond with Locker l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
//
//go:norace
func (c *Cond) Wait() {
	w := &condWaiter{}
	if c.n < len(c.waiters) {
		c.waiters[c.n] = w
		c.n++
	}
	c.L.Unlock()
	for !w.woken {
		sim.Block("cond", unsafe.Pointer(w))
	}
	sim.RaceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

// Signal wakes one waiter.
//
//go:norace
func (c *Cond) Signal() {
	sim.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	if c.n > 0 {
		w := c.waiters[0]
		for i := 0; i < c.n-1; i++ {
			c.waiters[i] = c.waiters[i+1]
		}
		c.n--
		w.woken = true
		sim.Wake(unsafe.Pointer(w))
	}
	sim.Point()
}

// Broadcast wakes all waiters.
//
//go:norace
func (c *Cond) Broadcast() {
	sim.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	for i := 0; i < c.n; i++ {
		c.waiters[i].woken = true
		sim.Wake(unsafe.Pointer(c.waiters[i]))
	}
	c.n = 0
	sim.Point()
}

// Pool is a deterministic sync.Pool: what Get returns is drawn from the seed,
// among everything the real one may return (a stored item or a new one).
type Pool struct {
	New func() any

	n     int
	items [64]poolItem
}

type poolItem struct {
	v  any
	hb uint64
}

// Put adds x to the pool.
//
//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sim.Point()
	if p.n < len(p.items) {
		p.items[p.n].v = x
		sim.RaceReleaseMerge(unsafe.Pointer(&p.items[p.n].hb))
		p.n++
	}
}

//go:norace
func (p *Pool) take() any {
	sim.Point()
	if p.n == 0 {
		return nil
	}
	i := p.n - 1
	if sim.Active() {
		switch sim.Rand() % 8 {
		case 0:
			return nil
		case 1:
			i = int(sim.Rand() % uint64(p.n))
		}
	}
	x := p.items[i].v
	sim.RaceAcquire(unsafe.Pointer(&p.items[i].hb))
	for j := i; j < p.n-1; j++ {
		p.items[j] = p.items[j+1]
	}
	p.n--
	p.items[p.n] = poolItem{}
	return x
}

// Get takes an item.
func (p *Pool) Get() any {
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
