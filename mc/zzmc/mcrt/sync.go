package mcrt

import (
	"runtime"
	"unsafe"
)

func goexitNow() { runtime.Goexit() }

// Mutex models sync.Mutex (normal mode: an arriving thread may overtake a woken one).
type Mutex struct {
	locked bool
	q      []*thread
	sync   byte
	gen    *sched
}

func (m *Mutex) check() {
	if m.gen != s { // left over from another execution
		m.locked, m.q, m.gen = false, nil, s
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	if inert() {
		return
	}
	s.point("lock")
	m.check()
	for m.locked {
		m.q = push(m.q, s.cur)
		s.block("lock")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sync))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if inert() {
		return true
	}
	s.point("trylock")
	m.check()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sync))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if inert() {
		return
	}
	m.check()
	if !m.locked {
		panic(plainError("sync: unlock of unlocked mutex"))
	}
	raceRelease(unsafe.Pointer(&m.sync))
	m.locked = false
	if len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		s.makeReady(t)
	}
}

// RWMutex models sync.RWMutex.
type RWMutex struct {
	readers int
	writer  bool
	waiting int // writers waiting: they hold off new readers
	q       []*thread
	rsync   byte
	wsync   byte
	gen     *sched
}

func (m *RWMutex) check() {
	if m.gen != s {
		m.readers, m.writer, m.waiting, m.q, m.gen = 0, false, 0, nil, s
	}
}

func (m *RWMutex) wakeAll() {
	for _, t := range m.q {
		s.makeReady(t)
	}
	m.q = nil
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if inert() {
		return
	}
	s.point("wlock")
	m.check()
	if m.writer || m.readers > 0 {
		m.waiting++
		for m.writer || m.readers > 0 {
			m.q = push(m.q, s.cur)
			s.block("wlock")
		}
		m.waiting--
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rsync))
	raceAcquire(unsafe.Pointer(&m.wsync))
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if inert() {
		return true
	}
	s.point("trywlock")
	m.check()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rsync))
	raceAcquire(unsafe.Pointer(&m.wsync))
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if inert() {
		return
	}
	m.check()
	if !m.writer {
		panic(plainError("sync: Unlock of unlocked RWMutex"))
	}
	raceRelease(unsafe.Pointer(&m.rsync))
	m.writer = false
	m.wakeAll()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if inert() {
		return
	}
	s.point("rlock")
	m.check()
	first := true
	for m.writer || (first && m.waiting > 0) {
		first = false
		m.q = push(m.q, s.cur)
		s.block("rlock")
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsync))
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if inert() {
		return true
	}
	s.point("tryrlock")
	m.check()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if inert() {
		return
	}
	m.check()
	if m.readers == 0 {
		panic(plainError("sync: RUnlock of unlocked RWMutex"))
	}
	raceRelease(unsafe.Pointer(&m.wsync))
	m.readers--
	if m.readers == 0 {
		m.wakeAll()
	}
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	n    int
	q    []*thread
	sync byte
	gen  *sched
}

func (w *WaitGroup) check() {
	if w.gen != s {
		w.n, w.q, w.gen = 0, nil, s
	}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	if inert() {
		return
	}
	s.point("wg.add")
	w.check()
	if delta < 0 {
		raceRelease(unsafe.Pointer(&w.sync))
	}
	w.n += delta
	if w.n < 0 {
		panic(plainError("sync: negative WaitGroup counter"))
	}
	if w.n == 0 {
		for _, t := range w.q {
			s.makeReady(t)
		}
		w.q = nil
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	if inert() {
		return
	}
	s.point("wg.wait")
	w.check()
	if w.n > 0 {
		w.q = push(w.q, s.cur)
		s.block("wg.wait")
	}
	raceAcquire(unsafe.Pointer(&w.sync))
}

// Go runs f in a new thread counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
	gen  *sched
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.gen != s {
		o.done, o.gen = false, s
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond models sync.Cond.
type Cond struct {
	L    Locker
	q    []*thread
	sync byte
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	if inert() {
		goexitNow()
	}
	s.point("cond.wait")
	c.q = push(c.q, s.cur)
	c.L.Unlock()
	s.block("cond.wait")
	raceAcquire(unsafe.Pointer(&c.sync))
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if inert() {
		return
	}
	s.point("cond.signal")
	raceRelease(unsafe.Pointer(&c.sync))
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		s.makeReady(t)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if inert() {
		return
	}
	s.point("cond.broadcast")
	raceRelease(unsafe.Pointer(&c.sync))
	for _, t := range c.q {
		s.makeReady(t)
	}
	c.q = nil
}

// Pool models sync.Pool as a stack, the order in which reuse is most likely to bite.
type Pool struct {
	New   func() interface{}
	items []interface{}
	sync  byte
	gen   *sched
}

func (p *Pool) check() {
	if p.gen != s {
		p.items, p.gen = nil, s
	}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	if !inert() {
		s.point("pool.get")
		p.check()
		if n := len(p.items); n > 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			raceAcquire(unsafe.Pointer(&p.sync))
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back.
func (p *Pool) Put(x interface{}) {
	if inert() || x == nil {
		return
	}
	s.point("pool.put")
	p.check()
	raceRelease(unsafe.Pointer(&p.sync))
	p.items = push(p.items, x)
}

// Atomic is called around every atomic operation.
func Atomic(p unsafe.Pointer) {
	if inert() {
		return
	}
	s.point("atomic")
	raceAtomic(p, false)
	raceAcquire(p)
	raceRelease(p)
}

// AtomicW is called around atomic operations that always write.
func AtomicW(p unsafe.Pointer) {
	if inert() {
		return
	}
	s.point("atomic")
	raceAtomic(p, true)
	raceAcquire(p)
	raceRelease(p)
}
