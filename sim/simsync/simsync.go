// Package simsync replaces package sync in the instrumented copy of the code
// under test. Inside a simulated thread a lock is a scheduling point and
// blocking is decided by the simulator; elsewhere it behaves like sync.
package simsync

import (
	"sync"
	"unsafe"

	"vimagination.zapto.org/limage/zzverif/core"
)

// Types that never hold a lock while they call back.
type (
	Map    = sync.Map
	Locker = sync.Locker
)

// epoch ties a lock to the run it was used in: what an abandoned run left
// behind does not reach the next one.
type epoch struct{ run *core.Run }

func (e *epoch) stale() bool {
	if r := core.Cur(); e.run != r {
		e.run = r

		return true
	}

	return false
}

// Pool replaces sync.Pool. The last item that was put is the next to be got.
type Pool struct {
	New   func() any
	items []any
	ep    epoch
}

// Get gets an item.
func (p *Pool) Get() any {
	if p.ep.stale() {
		p.items = nil
	}

	core.WaitUntil("Pool.Get", nil)

	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		core.Acquire(unsafe.Pointer(p))

		return x
	}

	if p.New != nil {
		return p.New()
	}

	return nil
}

// Put puts an item.
func (p *Pool) Put(x any) {
	if p.ep.stale() {
		p.items = nil
	}

	if x != nil {
		core.Release(unsafe.Pointer(p))

		p.items = append(p.items, x)
	}

	core.WaitUntil("Pool.Put", nil)
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	held bool
	ep   epoch
}

func (m *Mutex) check() {
	if m.ep.stale() {
		m.held = false
	}
}

// Lock locks the mutex.
func (m *Mutex) Lock() {
	m.check()

	if core.TearingDown() {
		return
	}

	core.WaitUntil("Mutex.Lock", func() bool { return !m.held })

	m.held = true

	core.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock the mutex.
func (m *Mutex) TryLock() bool {
	m.check()

	core.WaitUntil("Mutex.TryLock", func() bool { return true })

	if m.held {
		return false
	}

	m.held = true

	core.Acquire(unsafe.Pointer(m))

	return true
}

// Unlock unlocks the mutex.
func (m *Mutex) Unlock() {
	m.check()

	if core.TearingDown() {
		return
	}

	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}

	m.held = false

	core.Release(unsafe.Pointer(m))
	core.WaitUntil("Mutex.Unlock", nil)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	ep      epoch
}

func (m *RWMutex) check() {
	if m.ep.stale() {
		m.writer, m.readers = false, 0
	}
}

func (m *RWMutex) acquire() {
	core.Acquire(unsafe.Pointer(&m.writer))
	core.Acquire(unsafe.Pointer(&m.readers))
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	m.check()

	if core.TearingDown() {
		return
	}

	core.WaitUntil("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })

	m.writer = true

	m.acquire()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	m.check()

	if m.writer || m.readers > 0 {
		return false
	}

	m.writer = true

	m.acquire()

	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	m.check()

	if core.TearingDown() {
		return
	}

	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}

	m.writer = false

	core.Release(unsafe.Pointer(&m.writer))
	core.WaitUntil("RWMutex.Unlock", nil)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	m.check()

	if core.TearingDown() {
		return
	}

	core.WaitUntil("RWMutex.RLock", func() bool { return !m.writer })

	m.readers++

	core.Acquire(unsafe.Pointer(&m.writer))
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	m.check()

	if m.writer {
		return false
	}

	m.readers++

	core.Acquire(unsafe.Pointer(&m.writer))

	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	m.check()

	if core.TearingDown() {
		return
	}

	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}

	m.readers--

	core.Release(unsafe.Pointer(&m.readers))
	core.WaitUntil("RWMutex.RUnlock", nil)
}

type rlocker struct{ *RWMutex }

func (r rlocker) Lock()   { r.RLock() }
func (r rlocker) Unlock() { r.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n  int
	ep epoch
}

// Add adds to the counter.
func (w *WaitGroup) Add(n int) {
	if w.ep.stale() {
		w.n = 0
	}

	w.n += n

	if core.TearingDown() {
		return
	}

	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() {
	core.Release(unsafe.Pointer(w))
	w.Add(-1)

	if core.TearingDown() {
		return
	}

	core.WaitUntil("WaitGroup.Done", nil)
}

// Wait waits until the counter is zero.
func (w *WaitGroup) Wait() {
	if w.ep.stale() {
		w.n = 0
	}

	if core.TearingDown() {
		return
	}

	core.WaitUntil("WaitGroup.Wait", func() bool { return w.n <= 0 })
	core.Acquire(unsafe.Pointer(w))
}

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	core.Go(func() {
		defer w.Done()

		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if o.done {
		core.Acquire(unsafe.Pointer(o))

		return
	}

	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() {
			o.done = true

			core.Release(unsafe.Pointer(o))
		}()

		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once

	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)

	return func() T {
		o.Do(func() { v = f() })

		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var (
		o Once
		a A
		b B
	)

	return func() (A, B) {
		o.Do(func() { a, b = f() })

		return a, b
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	waiting []*bool
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	core.WaitUntil("Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	for _, w := range c.waiting {
		*w = true
	}

	c.waiting = nil
}
