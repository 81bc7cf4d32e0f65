package main

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet/utsm"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// pub is one publication as its publisher saw it.
type pub struct {
	id, n  int // identifier and number, unique
	by     int
	t0, t1 time.Duration // virtual time of the call and of its return
	e0, e1 int           // event numbers of the call and of its return
}

// sub is one subscription as its caller saw it.
type sub struct {
	lo, hi int
	reg    time.Duration // virtual time of the call
	eReg   int           // event from which it is certainly registered (-1: unknown)
	eCall  int
	ret    time.Duration
	eRet   int
	got    []int
	done   bool
	h      *mcrt.Handle
}

type utsmWorld struct {
	m             *utsm.Manager
	idle, overall time.Duration
	pubs          []*pub
	subs          []*sub
	event         int
	hs            []*mcrt.Handle
}

func newUtsmWorld(idle, overall time.Duration) *utsmWorld {
	return &utsmWorld{m: utsm.NewManager(utsm.DefaultSubscriberTimeout(overall), utsm.DefaultSubscriberLastReceivedTimeout(idle)), idle: idle, overall: overall}
}

func (w *utsmWorld) ev() int { w.event++; return w.event }

// publish runs in a publisher's thread.
func (w *utsmWorld) publish(by, id int) {
	p := &pub{id: id, n: len(w.pubs), by: by, t0: mcrt.NowNS(), e0: w.ev()}
	w.pubs = append(w.pubs, p)
	w.m.Publish(id, p.n)
	p.t1, p.e1 = mcrt.NowNS(), w.ev()
}

// subscribe starts a subscription in a thread of its own. settle: wait until it is registered.
func (w *utsmWorld) subscribe(lo, hi int, settle bool) *sub {
	s := &sub{lo: lo, hi: hi, eReg: -1}
	w.subs = append(w.subs, s)
	s.h = mcrt.GoHarness(fmt.Sprintf("sub%d", len(w.subs)), func() {
		s.reg, s.eCall = mcrt.NowNS(), w.ev()
		vs, err := w.m.Subscribe(lo, hi)
		s.ret, s.eRet, s.done = mcrt.NowNS(), w.ev(), true
		if err != nil {
			mcrt.Fail("Subscribe: %v", err)
		}
		for _, v := range vs {
			s.got = append(s.got, v.(int))
		}
	})
	if settle {
		mcrt.Early(false)
		mcrt.DirectMode(true)
		mcrt.Sleep(time.Nanosecond)
		mcrt.DirectMode(false)
		mcrt.Early(true)
		s.eReg = w.ev()
	}
	return s
}

func (w *utsmWorld) publisher(by int, f func()) {
	w.hs = append(w.hs, mcrt.GoHarness(fmt.Sprintf("pub%d", by), f))
}

func (w *utsmWorld) join() {
	for _, h := range w.hs {
		h.Join()
	}
	for _, s := range w.subs {
		s.h.Join()
	}
}

// check compares what the subscriptions returned with the publications. exact: the virtual time advanced only while
// nobody could run, so the end of a subscription is known exactly.
func (w *utsmWorld) check(exact bool) {
	for k, s := range w.subs {
		pos := map[int]int{}
		for i, n := range s.got {
			if n < 0 || n >= len(w.pubs) {
				mcrt.Fail("subscription %d returned %d, which nobody published", k, n)
			}
			p := w.pubs[n]
			if p.id < s.lo || p.id > s.hi {
				mcrt.Fail("subscription %d of [%d,%d] returned a publication to %d", k, s.lo, s.hi, p.id)
			}
			if _, dup := pos[n]; dup {
				mcrt.Fail("subscription %d returned publication %d twice: %v", k, n, s.got)
			}
			if p.e0 > s.eRet || (p.e1 != 0 && p.e1 < s.eCall) {
				mcrt.Fail("subscription %d returned publication %d made outside its life", k, n)
			}
			pos[n] = i
		}
		// order: a publication that returned before another began comes first
		for i := range s.got {
			for j := i + 1; j < len(s.got); j++ {
				a, b := w.pubs[s.got[i]], w.pubs[s.got[j]]
				if b.e1 < a.e0 {
					mcrt.Fail("subscription %d returned %v: publication %d came before %d", k, s.got, b.n, a.n)
				}
			}
		}
		// no gaps
		for n := range pos {
			for _, a := range w.pubs {
				if a.id < s.lo || a.id > s.hi || a.e1 > w.pubs[n].e0 || s.eReg < 0 || a.e0 < s.eReg {
					continue
				}
				if _, ok := pos[a.n]; !ok {
					mcrt.Fail("subscription %d returned %v and skipped publication %d", k, s.got, a.n)
				}
			}
		}
		// Everything published before the end is there. dl: until when it lasts at least; late: at most.
		lim := s.reg + w.overall
		dl := s.reg + w.idle
		if dl > lim {
			dl = lim
		}
		late := dl
		over := false
		for _, p := range w.byReturn() {
			if p.id < s.lo || p.id > s.hi || p.e1 < s.eCall {
				continue
			}
			_, ok := pos[p.n]
			if p.t1 >= dl {
				over = true // it may have ended
			}
			if !over && s.eReg >= 0 && p.e0 > s.eReg && !ok {
				mcrt.Fail("subscription %d of [%d,%d] returned %v after %v and missed publication %d, made at %v", k, s.lo, s.hi, s.got, s.ret-s.reg, p.n, p.t0-s.reg)
			}
			if ok {
				late = max(late, p.t1+w.idle)
				if !over {
					dl = min(lim, max(dl, p.t0+w.idle))
				}
			}
		}
		late = min(late, lim)
		if s.ret < dl {
			mcrt.Fail("subscription %d ended after %v, it had to last until %v (got %v)", k, s.ret-s.reg, dl-s.reg, s.got)
		}
		if s.ret > late && exact {
			mcrt.Fail("subscription %d ended after %v, its time was over after %v (got %v)", k, s.ret-s.reg, late-s.reg, s.got)
		}
	}
	// two subscriptions see common publications in the same order
	for i, a := range w.subs {
		for _, b := range w.subs[i+1:] {
			last := -1
			for _, n := range a.got {
				for j, m := range b.got {
					if n == m {
						if j < last {
							mcrt.Fail("two subscriptions returned %v and %v", a.got, b.got)
						}
						last = j
					}
				}
			}
		}
	}
}

// byReturn lists the publications in the order in which they returned.
func (w *utsmWorld) byReturn() []*pub {
	ps := append([]*pub{}, w.pubs...)
	for i := range ps {
		for j := i; j > 0 && ps[j].e1 < ps[j-1].e1; j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	return ps
}

func (w *utsmWorld) log() {
	for _, s := range w.subs {
		mcrt.Log("%v", s.got)
	}
}

func init() {
	early := mcrt.Config{SwitchCost: 1, EarlyTimers: true, EnvCost: 1}
	exact := mcrt.Config{SwitchCost: 1, EnvCost: 1}
	ms := time.Millisecond
	for _, prop := range []string{"P04", "P05"} {
		prop := prop
		// All histories of up to 4 (5) steps of one publisher and up to two subscribers: identifiers at the edges of the ranges,
		// distances at the edges of the idle and overall time.
		xp.Add(&xp.Unit{Prop: prop, Name: "histories", Cfg: mcrt.Config{EnvCost: 1, SwitchCost: 1}, Quick: 2, Deep: 4, Body: func() {
			w := newUtsmWorld(20*ms, 50*ms)
			depth := 4
			if xp.Deep {
				depth = 5
			}
			w.subscribe(3, 5, true)
			for i := 0; i < depth; i++ {
				switch k := mcrt.ChooseFree(7, "step"); k {
				case 0, 1, 2, 3:
					w.publish(0, []int{2, 3, 5, 6}[k])
					mcrt.DirectMode(true)
					mcrt.Sleep(time.Nanosecond)
					mcrt.DirectMode(false)
				case 4:
					mcrt.Sleep(19 * ms)
				case 5:
					mcrt.Sleep(21 * ms)
				case 6:
					if len(w.subs) == 2 {
						return
					}
					w.subscribe(5, 6, true)
				}
			}
			w.join()
			w.check(true)
			w.log()
		}})
		// A range of one identifier, the whole range, an empty range.
		xp.Add(&xp.Unit{Prop: prop, Name: "ranges", Cfg: exact, Quick: 2, Deep: 4, Body: func() {
			w := newUtsmWorld(20*ms, 50*ms)
			ids := []int{-1, 0, 1, 2, 3, 65534, 65535, 4194303, 4194304, int(^uint(0) >> 1)}
			lo, hi := ids[mcrt.ChooseFree(len(ids), "lo")], ids[mcrt.ChooseFree(len(ids), "hi")]
			w.subscribe(lo, hi, true)
			for _, id := range ids {
				w.publish(0, id)
			}
			w.join()
			w.check(true)
			w.log()
		}})
		// Two publishers at once, two overlapping subscribers; timers may overtake everybody.
		xp.Add(&xp.Unit{Prop: prop, Name: "two-publishers", Cfg: early, Quick: 2, Deep: 4, Body: func() {
			w := newUtsmWorld(20*ms, 50*ms)
			w.subscribe(1, 5, true)
			w.subscribe(5, 9, true)
			for k := 0; k < 2; k++ {
				k := k
				w.publisher(k, func() { w.publish(k, 5); w.publish(k, 1+8*k); w.publish(k, 5) })
			}
			w.join()
			w.check(false)
			w.log()
		}})
		// The subscriber ends (idle or overall time) while publications come in.
		for _, v := range []struct {
			name          string
			idle, overall time.Duration
		}{{"idle-end", 20 * ms, 500 * ms}, {"overall-end", 500 * ms, 20 * ms}} {
			v := v
			xp.Add(&xp.Unit{Prop: prop, Name: v.name, Cfg: early, Quick: 4, Deep: 6, Body: func() {
				w := newUtsmWorld(v.idle, v.overall)
				w.subscribe(1, 5, true)
				w.publisher(0, func() {
					for i := 0; i < 3; i++ {
						w.publish(0, 3)
					}
				})
				w.join()
				w.check(false)
				w.log()
			}})
			xp.Add(&xp.Unit{Prop: prop, Name: v.name + "-exact", Cfg: exact, Quick: 4, Deep: 6, Body: func() {
				w := newUtsmWorld(v.idle, v.overall)
				w.subscribe(1, 5, true)
				w.publisher(0, func() {
					for i := 0; i < 4; i++ {
						mcrt.Sleep([]time.Duration{0, 9 * ms, 19 * ms, 21 * ms}[mcrt.ChooseFree(4, "gap")])
						w.publish(0, 3)
					}
				})
				w.join()
				w.check(true)
				w.log()
			}})
		}
		// Publications exactly when the subscription ends: either side may win, nothing may hang or get out of order.
		xp.Add(&xp.Unit{Prop: prop, Name: "boundary", Cfg: exact, Quick: 4, Deep: 6, Body: func() {
			w := newUtsmWorld(20*ms, 30*ms)
			w.subscribe(1, 5, true)
			start := mcrt.NowNS() - w.subs[0].reg
			for k := 0; k < 2; k++ {
				k := k
				w.publisher(k, func() {
					mcrt.Sleep(20*ms - start)
					w.publish(k, 3)
					w.publish(k, 4)
				})
			}
			w.join()
			w.check(false)
			w.log()
		}})
		// One subscriber ends, another starts, a third stays while publications come in.
		xp.Add(&xp.Unit{Prop: prop, Name: "come-and-go", Cfg: early, Quick: 3, Deep: 4, Body: func() {
			w := newUtsmWorld(20*ms, 30*ms)
			w.subscribe(1, 5, true)
			mcrt.Early(false)
			w.publish(0, 5)
			mcrt.Sleep(15 * ms)
			w.publish(0, 5)
			w.subscribe(5, 9, true)
			mcrt.Early(false)
			mcrt.Sleep(13 * ms) // the first one ends in less than 2 ms
			mcrt.Early(true)
			w.publisher(1, func() { w.publish(1, 5); w.publish(1, 6); w.publish(1, 5) })
			w.subscribe(4, 6, false)
			w.join()
			w.check(false)
			w.log()
		}})
		// Late subscribers: concurrent registration and publication, several leave at the same time.
		xp.Add(&xp.Unit{Prop: prop, Name: "crowd", Cfg: early, Quick: 1, Deep: 3, Body: func() {
			w := newUtsmWorld(20*ms, 30*ms)
			for i := 0; i < 3; i++ {
				w.subscribe(1, 3+i, true)
			}
			for k := 0; k < 3; k++ {
				k := k
				w.publisher(k, func() { w.publish(k, 2+k); w.publish(k, 2) })
			}
			w.subscribe(2, 2, false)
			w.join()
			w.check(false)
			w.log()
		}})
	}
	// The default times of the manager, and of a manager with only one of the two given.
	xp.Add(&xp.Unit{Prop: "P05", Name: "defaults", Cfg: exact, Quick: 1, Deep: 3, Body: func() {
		w := &utsmWorld{idle: time.Second, overall: 10 * time.Second}
		switch mcrt.ChooseFree(4, "options") {
		case 0:
			w.m = utsm.NewManager()
		case 1:
			w.m, w.idle = utsm.NewManager(utsm.DefaultSubscriberLastReceivedTimeout(3*time.Second)), 3*time.Second
		case 2:
			w.m, w.overall = utsm.NewManager(utsm.DefaultSubscriberTimeout(2500*ms)), 2500*ms
		case 3:
			w.m, w.idle, w.overall = utsm.NewManager(utsm.DefaultSubscriberTimeout(2*time.Second), utsm.DefaultSubscriberLastReceivedTimeout(4*time.Second)), 4*time.Second, 2*time.Second
		}
		w.subscribe(0, 10, true)
		n := mcrt.ChooseFree(14, "publications")
		for i := 0; i < n; i++ {
			mcrt.Sleep(900 * ms)
			w.publish(0, 10)
			mcrt.DirectMode(true)
			mcrt.Sleep(time.Nanosecond)
			mcrt.DirectMode(false)
		}
		w.join()
		w.check(true)
		w.log()
	}})
}
