package ssync

import (
	"sync"
	"unsafe"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

type Mutex struct {
	locked bool
	sem    byte
}

//go:norace
func (m *Mutex) isLocked() bool { return m.locked }

//go:norace
func (m *Mutex) Lock() {
	if aborting() {
		return
	}
	Yield()
	wait(m.isLocked)
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if aborting() {
		return true
	}
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if aborting() {
		return
	}
	if !m.locked {
		panic("unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.sem))
	m.locked = false
}

type RWMutex struct {
	writer           bool
	readers, waiting int
	rsem, wsem       byte
}

//go:norace
func (m *RWMutex) noWrite() bool { return m.writer || m.readers > 0 }

//go:norace
func (m *RWMutex) noRead() bool { return m.writer || m.waiting > 0 }

//go:norace
func (m *RWMutex) Lock() {
	if aborting() {
		return
	}
	Yield()
	// a waiting writer keeps new readers out
	m.waiting++
	if m.noWrite() {
		defer m.unwait()
		wait(m.noWrite)
		m.waiting++
	}
	m.waiting--
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) unwait() { m.waiting-- }

//go:norace
func (m *RWMutex) TryLock() bool {
	if aborting() {
		return true
	}
	Yield()
	if m.noWrite() {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if aborting() {
		return
	}
	if !m.writer {
		panic("unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.rsem))
	raceRelease(unsafe.Pointer(&m.wsem))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if aborting() {
		return
	}
	Yield()
	wait(m.noRead)
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if aborting() {
		return true
	}
	Yield()
	if m.noRead() {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if aborting() {
		return
	}
	if m.readers == 0 {
		panic("unlock of unlocked mutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// RecursiveMutex stands for rmx.RecursiveMutex.
type RecursiveMutex struct {
	owner *Thread
	out   Thread // owner outside of any program
	count int
	sem   byte
}

//go:norace
func (m *RecursiveMutex) me() *Thread {
	if t := Current(); t != nil {
		return t
	}
	return &m.out
}

//go:norace
func (m *RecursiveMutex) isLocked() bool { return m.count > 0 && m.owner != m.me() }

// blockedFor tells whether it is another thread's.
//
//go:norace
func (m *RecursiveMutex) blockedFor(t *Thread) bool { return m.count > 0 && m.owner != t }

//go:norace
func (m *RecursiveMutex) Lock() {
	if aborting() {
		return
	}
	me := m.me()
	if m.count > 0 && m.owner == me {
		m.count++
		return
	}
	Yield()
	wait(func() bool { return m.blockedFor(me) })
	m.owner = me
	m.count = 1
	raceAcquire(unsafe.Pointer(&m.sem))
}

//go:norace
func (m *RecursiveMutex) TryLock() bool {
	if aborting() {
		return true
	}
	me := m.me()
	Yield()
	if m.blockedFor(me) {
		return false
	}
	m.owner = me
	m.count++
	raceAcquire(unsafe.Pointer(&m.sem))
	return true
}

//go:norace
func (m *RecursiveMutex) Unlock() {
	if aborting() {
		return
	}
	// like the mutex itself: unlocking more than locking does nothing
	if m.count == 0 {
		return
	}
	if m.count--; m.count == 0 {
		raceRelease(unsafe.Pointer(&m.sem))
		m.owner = nil
	}
}

type Once struct {
	m    Mutex
	done bool
	sem  byte
}

//go:norace
func (o *Once) Do(f func()) {
	if o.done {
		raceAcquire(unsafe.Pointer(&o.sem))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	raceRelease(unsafe.Pointer(&o.sem))
	o.done = true
}

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var once Once
	var v T
	var u U
	return func() (T, U) {
		once.Do(func() { v, u = f() })
		return v, u
	}
}

type WaitGroup struct {
	n   int
	sem byte
}

//go:norace
func (g *WaitGroup) Add(n int) {
	raceReleaseMerge(unsafe.Pointer(&g.sem))
	g.n += n
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) waiting() bool { return g.n > 0 }

//go:norace
func (g *WaitGroup) Wait() {
	if aborting() {
		return
	}
	Yield()
	wait(g.waiting)
	raceAcquire(unsafe.Pointer(&g.sem))
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	wait(func() bool { return asleep(woken) })
	c.L.Lock()
}

//go:norace
func asleep(woken *bool) bool { return !*woken }

//go:norace
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for len(c.waiters) > 0 {
		c.Signal()
	}
}
