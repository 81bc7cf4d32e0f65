package mcrt

import (
	"fmt"
	"unsafe"
)

// A channel of the program keeps its Go type; the real channel is only an identity. Its contents live here.
type hchan struct {
	ptr    unsafe.Pointer
	id     int
	cap    int
	buf    []interface{}
	slot   int // index of the slot of buf[0], for the race detector's per-slot clocks
	slots  []byte
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	sync   byte
}

type waiter struct {
	t    *thread
	c    *hchan
	sel  *selState
	val  interface{}
	ok   bool
	idx  int
	send bool
	sync byte
	back byte
}

type selState struct {
	done bool
	w    *waiter
}

type chanTable struct {
	keys []unsafe.Pointer
	vals []*hchan
	n    int
}

func (t *chanTable) get(p unsafe.Pointer, capacity int) *hchan {
	if t.keys == nil {
		t.keys = make([]unsafe.Pointer, 64)
		t.vals = make([]*hchan, 64)
	}
	mask := len(t.keys) - 1
	i := int((uintptr(p)>>4)^(uintptr(p)>>11)) & mask
	for t.keys[i] != nil {
		if t.keys[i] == p {
			return t.vals[i]
		}
		i = (i + 1) & mask
	}
	if t.n*2 >= len(t.keys) {
		old := *t
		t.keys = make([]unsafe.Pointer, 2*len(old.keys))
		t.vals = make([]*hchan, 2*len(old.vals))
		mask = len(t.keys) - 1
		for j, k := range old.keys {
			if k == nil {
				continue
			}
			x := int((uintptr(k)>>4)^(uintptr(k)>>11)) & mask
			for t.keys[x] != nil {
				x = (x + 1) & mask
			}
			t.keys[x], t.vals[x] = k, old.vals[j]
		}
		i = int((uintptr(p)>>4)^(uintptr(p)>>11)) & mask
		for t.keys[i] != nil {
			i = (i + 1) & mask
		}
	}
	c := &hchan{ptr: p, cap: capacity, id: t.n, slots: make([]byte, capacity+1)}
	t.keys[i], t.vals[i] = p, c
	t.n++
	return c
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func lookup(p unsafe.Pointer, capacity int) *hchan { return s.chans.get(p, capacity) }

func unbox[T any](v interface{}) T {
	if v == nil {
		var zero T
		return zero
	}
	return v.(T)
}

// ---- operations on one channel ----

// trySend performs the send if it can proceed now.
func (c *hchan) trySend(v interface{}) bool {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := popWaiter(&c.recvq); w != nil {
		raceAcquire(unsafe.Pointer(&w.sync))
		raceRelease(unsafe.Pointer(&w.back))
		w.val, w.ok = v, true
		w.complete()
		return true
	}
	if len(c.buf) < c.cap {
		i := (c.slot + len(c.buf)) % len(c.slots[:c.cap])
		raceAcquire(unsafe.Pointer(&c.slots[i]))
		raceRelease(unsafe.Pointer(&c.slots[i]))
		c.buf = push(c.buf, v)
		return true
	}
	return false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func (c *hchan) tryRecv() (v interface{}, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		raceAcquire(unsafe.Pointer(&c.slots[c.slot]))
		raceRelease(unsafe.Pointer(&c.slots[c.slot]))
		c.buf = rest(c.buf)
		c.slot = (c.slot + 1) % c.cap
		if w := popWaiter(&c.sendq); w != nil {
			i := (c.slot + len(c.buf)) % c.cap
			raceAcquire(unsafe.Pointer(&w.sync))
			raceRelease(unsafe.Pointer(&w.back))
			raceAcquire(unsafe.Pointer(&c.slots[i]))
			raceRelease(unsafe.Pointer(&c.slots[i]))
			c.buf = push(c.buf, w.val)
			w.ok = true
			w.complete()
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		raceAcquire(unsafe.Pointer(&w.sync))
		raceRelease(unsafe.Pointer(&w.back))
		v = w.val
		w.ok = true
		w.complete()
		return v, true, true
	}
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.sync))
		return nil, false, true
	}
	return nil, false, false
}

func (c *hchan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) }
func (c *hchan) canRecv() bool { return c.closed || len(c.buf) > 0 || hasWaiter(c.sendq) }

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (w *waiter) complete() {
	w.sel.done = true
	w.sel.w = w
	s.makeReady(w.t)
}

func (c *hchan) close() {
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	raceRelease(unsafe.Pointer(&c.sync))
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		raceAcquire(unsafe.Pointer(&w.sync))
		raceRelease(unsafe.Pointer(&w.back))
		w.val, w.ok = nil, false
		w.complete()
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.ok = false // the sender panics when it runs
		w.complete()
	}
}

func (c *hchan) label(op string) string {
	if s.cfg.TraceOps {
		return fmt.Sprintf("%s chan#%d", op, c.id)
	}
	return op
}

func blockForever(op string) {
	s.block(op)
}

func doSend(p unsafe.Pointer, capacity int, v interface{}) {
	if inert() {
		return
	}
	if p == nil {
		s.point("send nil chan")
		blockForever("send nil chan")
		return
	}
	c := lookup(p, capacity)
	s.point(c.label("send"))
	if c.trySend(v) {
		return
	}
	sel := &selState{}
	w := &waiter{t: s.cur, c: c, sel: sel, val: v, send: true}
	raceRelease(unsafe.Pointer(&w.sync))
	c.sendq = push(c.sendq, w)
	s.block(c.label("send"))
	raceAcquire(unsafe.Pointer(&w.back))
	if !w.ok {
		panic(plainError("send on closed channel"))
	}
}

func doRecv(p unsafe.Pointer, capacity int) (interface{}, bool) {
	if inert() {
		return nil, false
	}
	if p == nil {
		s.point("recv nil chan")
		blockForever("recv nil chan")
		return nil, false
	}
	c := lookup(p, capacity)
	s.point(c.label("recv"))
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	sel := &selState{}
	w := &waiter{t: s.cur, c: c, sel: sel}
	raceRelease(unsafe.Pointer(&w.sync))
	c.recvq = push(c.recvq, w)
	s.block(c.label("recv"))
	raceAcquire(unsafe.Pointer(&w.back))
	return w.val, w.ok
}

// Send is ch <- v, written Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		doSend(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), v)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := doRecv(chanPtr(ch), cap(ch))
	return unbox[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := doRecv(chanPtr(ch), cap(ch))
	return unbox[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	doClose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
}

func doClose(p unsafe.Pointer, capacity int) {
	if inert() {
		return
	}
	if p == nil {
		panic(plainError("close of nil channel"))
	}
	c := lookup(p, capacity)
	s.point(c.label("close"))
	c.close()
}

// CloseEvent closes a channel from a timer or the environment, without a scheduling point.
func CloseEvent[T any](ch chan<- T) {
	if inert() {
		return
	}
	lookup(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)).close()
}

// SendEvent sends without blocking from a timer or the environment, without a scheduling point.
func SendEvent[T any](ch chan<- T, v T) bool {
	if inert() {
		return false
	}
	return lookup(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)).trySend(v)
}

// DrainEvent empties a channel without a scheduling point.
func DrainEvent[T any](ch <-chan T) {
	if inert() {
		return
	}
	c := lookup(chanPtr(ch), cap(ch))
	c.buf = nil
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	p := chanPtr(ch)
	if inert() || p == nil {
		return 0
	}
	c := lookup(p, cap(ch))
	s.point(c.label("len"))
	return len(c.buf)
}

// LenSend is len(ch) of a send-only channel.
func LenSend[T any](ch chan<- T) int {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if inert() || p == nil {
		return 0
	}
	c := lookup(p, cap(ch))
	s.point(c.label("len"))
	return len(c.buf)
}

// ---- select ----

// Case is one communication clause.
type Case interface{ base() *caseBase }

type caseBase struct {
	ptr  unsafe.Pointer
	cap  int
	send bool
	val  interface{}
	ok   bool
}

func (c *caseBase) base() *caseBase { return c }

// RecvC is a receive clause.
type RecvC[T any] struct{ caseBase }

// SendC is a send clause.
type SendC struct{ caseBase }

// RecvCase builds a receive clause.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{caseBase{ptr: chanPtr(ch), cap: cap(ch)}}
}

// SendCase builds a send clause.
func SendCase[T any](ch chan<- T) func(T) *SendC {
	return func(v T) *SendC {
		return &SendC{caseBase{ptr: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), send: true, val: v}}
	}
}

// Val is the received value.
func (c *RecvC[T]) Val() T { return unbox[T](c.val) }

// Val2 is the received value and whether it came from a send.
func (c *RecvC[T]) Val2() (T, bool) { return unbox[T](c.val), c.ok }

// Select executes a select statement and returns the index of the clause, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if inert() {
		if hasDefault {
			return -1
		}
		// the execution is over: unwind
		goexitNow()
	}
	s.point("select")
	n := len(cases)
	var readyIdx [64]int
	nr := 0
	for i := 0; i < n; i++ {
		b := cases[i].base()
		if b.ptr == nil {
			continue
		}
		c := lookup(b.ptr, b.cap)
		if b.send && c.canSend() || !b.send && c.canRecv() {
			readyIdx[nr] = i
			nr++
		}
	}
	if nr > 0 {
		k := 0
		if nr > 1 {
			k = s.choose('c', freeCosts[:nr])
			if s.cfg.TraceOps {
				s.trace("  select picks ready clause %d of %d", k, nr)
			}
		}
		i := readyIdx[k]
		b := cases[i].base()
		c := lookup(b.ptr, b.cap)
		if b.send {
			c.trySend(b.val)
		} else {
			b.val, b.ok, _ = c.tryRecv()
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i := 0; i < n; i++ {
		b := cases[i].base()
		if b.ptr == nil {
			continue
		}
		c := lookup(b.ptr, b.cap)
		w := &waiter{t: s.cur, c: c, sel: sel, val: b.val, idx: i, send: b.send}
		raceRelease(unsafe.Pointer(&w.sync))
		if b.send {
			c.sendq = push(c.sendq, w)
		} else {
			c.recvq = push(c.recvq, w)
		}
	}
	s.block("select")
	w := sel.w
	for i := 0; i < n; i++ {
		b := cases[i].base()
		if b.ptr != nil {
			c := lookup(b.ptr, b.cap)
			dropDone(&c.recvq)
			dropDone(&c.sendq)
		}
	}
	raceAcquire(unsafe.Pointer(&w.back))
	b := cases[w.idx].base()
	if w.send {
		if !w.ok {
			panic(plainError("send on closed channel"))
		}
	} else {
		b.val, b.ok = w.val, w.ok
		if !w.ok {
			raceAcquire(unsafe.Pointer(&w.c.sync))
		}
	}
	return w.idx
}

func dropDone(q *[]*waiter) {
	out := (*q)[:0]
	for _, w := range *q {
		if !w.sel.done {
			out = push(out, w)
		}
	}
	*q = out
}
