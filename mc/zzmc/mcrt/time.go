package mcrt

import (
	"context"
	"errors"
	"fmt"
	"time"
	"unsafe"
)

var epoch = time.Unix(1600000000, 0).UTC()

// NowTime is the virtual wall clock.
func NowTime() time.Time { return epoch.Add(NowNS()) }

// Timer models time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	tm *timer
}

// NewTimer models time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc models time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	if inert() {
		return
	}
	t.tm = s.addTimer(d, "timer", func() {
		if t.f != nil {
			s.newThread(fmt.Sprintf("timer%d", len(s.threads)), t.f)
			return
		}
		SendEvent(t.c, NowTime())
	})
}

// Stop models Timer.Stop.
func (t *Timer) Stop() bool {
	if inert() || t.tm == nil {
		return false
	}
	s.point("timer.stop")
	active := s.removeTimer(t.tm)
	t.tm.stopped = true
	return active
}

// Reset models Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if inert() || t.tm == nil {
		return false
	}
	active := t.Stop()
	t.start(d)
	return active
}

// Ticker models time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  time.Duration
	tm *timer
}

// NewTicker models time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic(errors.New("non-positive interval for NewTicker"))
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	if inert() {
		return
	}
	t.tm = s.addTimer(t.d, "ticker", func() {
		SendEvent(t.c, NowTime())
		t.arm()
	})
}

// Stop models Ticker.Stop.
func (t *Ticker) Stop() {
	if inert() || t.tm == nil {
		return
	}
	s.point("ticker.stop")
	s.removeTimer(t.tm)
}

// Reset models Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if inert() {
		return
	}
	t.Stop()
	t.d = d
	t.arm()
}

// ---- contexts ----

// Ctx is a cancellable context under virtual time.
type Ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	tm       *timer
	children []*Ctx
	sync     byte
	key, val interface{}
}

// Deadline implements context.Context.
func (c *Ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

// Done implements context.Context.
func (c *Ctx) Done() <-chan struct{} { return c.done }

// Err implements context.Context.
func (c *Ctx) Err() error {
	if !inert() {
		s.point("ctx.err")
		if c.err != nil {
			raceAcquire(unsafe.Pointer(&c.sync))
		}
	}
	return c.err
}

type ctxKey struct{}

// Value implements context.Context.
func (c *Ctx) Value(key interface{}) interface{} {
	if _, ok := key.(ctxKey); ok {
		return c
	}
	return c.parent.Value(key)
}

func (c *Ctx) String() string { return "context" }

func (c *Ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	raceRelease(unsafe.Pointer(&c.sync))
	if c.tm != nil {
		s.removeTimer(c.tm)
	}
	CloseEvent(c.done)
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
}

// WithCancel models context.WithCancel and, with a deadline, context.WithDeadline.
func WithCancel(parent context.Context, deadline time.Time, hasDl bool, cause error) (context.Context, func(error)) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &Ctx{parent: parent, done: make(chan struct{})}
	if inert() {
		return c, func(error) {}
	}
	if dl, ok := parent.Deadline(); ok && hasDl && dl.Before(deadline) {
		hasDl = false // the parent ends first
	}
	if p, ok := parent.Value(ctxKey{}).(*Ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = push(p.children, c)
		}
	} else if parent.Done() != nil {
		pd := parent.Done()
		Go(func() {
			rc, own := RecvCase(pd), RecvCase((<-chan struct{})(c.done))
			if Select(false, rc, own) == 0 && !inert() {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	if hasDl {
		c.deadline, c.hasDl = deadline, true
		d := deadline.Sub(NowTime())
		if c.err == nil {
			if d <= 0 {
				c.cancel(context.DeadlineExceeded, cause)
			} else {
				c.tm = s.addTimer(d, "ctx deadline", func() { c.tm = nil; c.cancel(context.DeadlineExceeded, cause) })
			}
		}
	}
	return c, func(cause error) {
		if inert() {
			return
		}
		if c.err != nil {
			return
		}
		s.point("cancel")
		c.cancel(context.Canceled, cause)
		if p, ok := parent.Value(ctxKey{}).(*Ctx); ok {
			for i, x := range p.children {
				if x == c {
					p.children = without(p.children, i)
					break
				}
			}
		}
	}
}

// Cause models context.Cause.
func Cause(c context.Context) error {
	if x, ok := c.Value(ctxKey{}).(*Ctx); ok {
		return x.cause
	}
	return c.Err()
}
