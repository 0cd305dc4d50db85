// Package sync stands for the standard package in builds of gpeg that run
// under the scheduler.
package sync

import (
	"runtime"
	gosync "sync"
	"unsafe"

	sched "github.com/zyedidia/gpeg/verifsched"
)

type (
	Locker = gosync.Locker
	Map    = gosync.Map
)

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real gosync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	if !sched.Active() {
		m.real.Lock()
		m.held = true
		return
	}
	sched.S(4)
	for m.held {
		sched.Block(uintptr(unsafe.Pointer(m)))
	}
	m.held = true
	acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !sched.Active() {
		ok := m.real.TryLock()
		if ok {
			m.held = true
		}
		return ok
	}
	sched.S(4)
	if m.held {
		return false
	}
	m.held = true
	acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !sched.Active() {
		m.held = false
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(m))
	m.held = false
	sched.Wake(uintptr(unsafe.Pointer(m)))
	sched.S(5)
}

// RWMutex is a reader/writer mutual exclusion lock.
type RWMutex struct {
	real    gosync.RWMutex
	writer  bool
	readers int
	rd      byte // address for the release of readers
}

//go:norace
func (m *RWMutex) Lock() {
	if !sched.Active() {
		m.real.Lock()
		m.writer = true
		return
	}
	sched.S(4)
	for m.writer || m.readers > 0 {
		sched.Block(uintptr(unsafe.Pointer(m)))
	}
	m.writer = true
	acquire(unsafe.Pointer(m))
	acquire(unsafe.Pointer(&m.rd))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !sched.Active() {
		ok := m.real.TryLock()
		if ok {
			m.writer = true
		}
		return ok
	}
	sched.S(4)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	acquire(unsafe.Pointer(m))
	acquire(unsafe.Pointer(&m.rd))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !sched.Active() {
		m.writer = false
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(m))
	m.writer = false
	sched.Wake(uintptr(unsafe.Pointer(m)))
	sched.S(5)
}

//go:norace
func (m *RWMutex) RLock() {
	if !sched.Active() {
		m.real.RLock()
		m.readers++
		return
	}
	sched.S(4)
	for m.writer {
		sched.Block(uintptr(unsafe.Pointer(m)))
	}
	m.readers++
	acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !sched.Active() {
		ok := m.real.TryRLock()
		if ok {
			m.readers++
		}
		return ok
	}
	sched.S(4)
	if m.writer {
		return false
	}
	m.readers++
	acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !sched.Active() {
		m.readers--
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(unsafe.Pointer(&m.rd))
	m.readers--
	sched.Wake(uintptr(unsafe.Pointer(m)))
	sched.S(5)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once performs exactly one action.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool is a set of temporary objects, here a last-in-first-out list.
type Pool struct {
	New   func() interface{}
	items [32]interface{}
	n     int
}

//go:norace
func (p *Pool) take() (x interface{}) {
	if p.n > 0 {
		p.n--
		x = p.items[p.n]
		p.items[p.n] = nil
	}
	return x
}

//go:norace
func (p *Pool) give(x interface{}) {
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
}

func (p *Pool) Get() interface{} {
	sched.S(6)
	x := p.take()
	if x != nil {
		acquire(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	releaseMerge(unsafe.Pointer(p))
	p.give(x)
	sched.S(6)
}

// WaitGroup waits for a collection of goroutines to finish.
type WaitGroup struct {
	real gosync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !sched.Active() {
		w.real.Add(d)
		return
	}
	if d < 0 {
		releaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		sched.Wake(uintptr(unsafe.Pointer(w)))
	}
	if d < 0 {
		sched.S(7)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new goroutine and counts it.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	if !sched.Active() {
		w.real.Wait()
		return
	}
	sched.S(7)
	for w.n > 0 {
		sched.Block(uintptr(unsafe.Pointer(w)))
	}
	acquire(unsafe.Pointer(w))
}

// Cond is a condition variable.
type Cond struct {
	L        Locker
	real     *gosync.Cond
	next     int // tickets given to waiters
	notified int // tickets below this one may go on
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: gosync.NewCond(l)} }

//go:norace
func (c *Cond) Wait() {
	if !sched.Active() {
		c.real.Wait()
		return
	}
	t := c.next
	c.next++
	c.L.Unlock()
	for c.notified <= t {
		sched.Block(uintptr(unsafe.Pointer(c)))
	}
	acquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !sched.Active() {
		c.real.Signal()
		return
	}
	releaseMerge(unsafe.Pointer(c))
	if c.notified < c.next {
		c.notified++
	}
	sched.Wake(uintptr(unsafe.Pointer(c)))
	sched.S(7)
}

//go:norace
func (c *Cond) Broadcast() {
	if !sched.Active() {
		c.real.Broadcast()
		return
	}
	releaseMerge(unsafe.Pointer(c))
	c.notified = c.next
	sched.Wake(uintptr(unsafe.Pointer(c)))
	sched.S(7)
}

func acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer)      { runtime.RaceReleaseMerge(p) }
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
