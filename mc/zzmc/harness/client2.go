package main

import (
	"errors"
	"time"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P06: each its own answer

// arrival is an answer that was put on the wire for a call.
type arrival struct {
	at  time.Duration
	err bool
}

type netw struct {
	*cw
	arr map[*call][]arrival
	// gap is the distance between answers that are sent one after the other
}

func (n *netw) send(k *call, d time.Duration, apdu []byte, isErr bool) {
	n.arr[k] = append(n.arr[k], arrival{mcrt.NowNS() + d, isErr})
	n.injectAt(d, k.ip, plain(apdu))
}

// behaviours of a device towards one request datagram
const (
	bOK = iota
	bLost
	bTwice
	bError
	bSoon    // after 1 ms
	bLate    // after the wait of this attempt
	bTwoDiff // an error, and then an acknowledgement
	nBehaviours
)

func (n *netw) behave(b int, k *call, id byte) {
	switch b {
	case bOK:
		n.send(k, 0, k.apduOK(id), false)
	case bTwice:
		n.send(k, 0, k.apduOK(id), false)
		n.send(k, 0, k.apduOK(id), false)
	case bError:
		n.send(k, 0, ref.ErrorPDU(id, k.svc, errClass, errCode), true)
	case bSoon:
		n.send(k, time.Millisecond, k.apduOK(id), false)
	case bLate:
		n.send(k, 5*time.Second+time.Millisecond, k.apduOK(id), false)
	case bTwoDiff:
		n.send(k, 0, ref.ErrorPDU(id, k.svc, errClass, errCode), true)
		n.send(k, 0, k.apduOK(id), false)
	}
}

// truth: the outcome of every call is that of its own answers.
func (n *netw) truth(early bool) {
	for _, k := range n.calls {
		if !k.begun {
			continue
		}
		if !k.done {
			mcrt.Fail("%s has not ended", k.name)
		}
		k.values()
		oks, errs, before := 0, 0, 0
		for _, a := range n.arr[k] {
			if a.at > k.t1 {
				continue
			}
			if a.err {
				errs++
				continue
			}
			oks++
			if a.at < k.t1 {
				before++
			}
		}
		if k.err == nil && oks == 0 {
			mcrt.Fail("%s succeeds, but its device had not answered it (%v)", k.name, n.arr[k])
		}
		if k.err != nil && errs == 0 && (before > 0 && !early || names(k.err, errClass, errCode)) {
			mcrt.Fail("%s fails with %q, its answers: %v, ended at %v", k.name, k.err, n.arr[k], k.t1)
		}
		if l := len(k.sends); (l < 1 && !(early && k.err != nil)) || l > 2 {
			mcrt.Fail("%s was sent %d times", k.name, l)
		}
	}
}

func newNetw() *netw {
	n := &netw{cw: newCW(), arr: map[*call][]arrival{}}
	return n
}

// mix runs calls at the same time; every thread makes one or more calls.
func mix(early bool, menu []int, threads ...[]int) *netw {
	n := newNetw()
	cnt := 0
	var all [][]*call
	for i, kinds := range threads {
		var ks []*call
		for _, kind := range kinds {
			ip := ipDevA
			if cnt%2 == 1 {
				ip = ipDevB
			}
			ks = append(ks, n.newCall(kind, ip, cnt))
			cnt++
		}
		all = append(all, ks)
		_ = i
	}
	n.reply = func(k *call, attempt int, m *wire) {
		n.behave(menu[mcrt.Choose(len(menu), "device")], k, m.id)
	}
	for _, ks := range all {
		ks := ks
		n.hs = append(n.hs, mcrt.GoHarness(ks[0].name, func() {
			for _, k := range ks {
				k.do(n.cli)
			}
		}))
	}
	n.join()
	n.truth(early)
	ok := 0
	for _, k := range n.calls {
		if k.err == nil {
			ok++
		}
	}
	mcrt.Log("%d of %d succeed", ok, len(n.calls))
	return n
}

// full: a client that is at rest can have twenty requests open, and no request more than it had before.
func (w *cw) full() {
	mcrt.Early(false)
	mcrt.DirectMode(true)
	defer mcrt.DirectMode(false)
	mcrt.Sleep(20 * time.Second)
	w.reply = nil
	from := len(w.calls)
	for i := 0; i < 20; i++ {
		w.spawn(w.newCall(i%4, ipDevA, 800+i))
	}
	mcrt.Sleep(time.Millisecond)
	for _, k := range w.calls[from:] {
		if len(k.sends) != 1 {
			mcrt.Fail("after all requests have ended only some of twenty can be made at once: %s was sent %d times", k.name, len(k.sends))
		}
	}
	for _, k := range w.calls[from:] {
		w.inject(k.ip, plain(k.apduOK(k.sends[0].id)))
	}
	w.join()
	for _, k := range w.calls[from:] {
		if k.err != nil {
			mcrt.Fail("%s: %v", k.name, k.err)
		}
		k.values()
	}
}

func init() {
	cfg := mcrt.Config{SwitchCost: 1, EnvCost: 1}
	every := []int{bOK, bLost, bTwice, bError, bSoon, bLate, bTwoDiff}
	xp.Add(&xp.Unit{Prop: "P06", Name: "two-reads", Weight: 2, Cfg: cfg, Quick: 4, Deep: 6, Body: func() { mix(false, every, []int{kRead}, []int{kRead}) }})
	xp.Add(&xp.Unit{Prop: "P06", Name: "read-and-write", Weight: 2, Cfg: cfg, Quick: 4, Deep: 6, Body: func() { mix(false, every, []int{kWrite}, []int{kReadMulti}) }})
	xp.Add(&xp.Unit{Prop: "P06", Name: "reuse", Weight: 2, Cfg: cfg, Quick: 3, Deep: 5, Body: func() { mix(false, every, []int{kRead, kWriteMulti}, []int{kRead}) }})
	xp.Add(&xp.Unit{Prop: "P06", Name: "three", Weight: 2, Cfg: cfg, Quick: 3, Deep: 5, Body: func() { mix(false, every, []int{kRead}, []int{kWrite}, []int{kReadMulti}) }})
	xp.Add(&xp.Unit{Prop: "P06", Name: "early", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1, EnvCost: 1, EarlyTimers: true}, Quick: 2, Deep: 4, Body: func() { mix(true, every, []int{kRead, kWrite}, []int{kReadMulti}) }})
	// every combination of behaviours of two devices towards two calls and their repetitions, in the default schedule
	xp.Add(&xp.Unit{Prop: "P06", Name: "behaviours", Cfg: plainCfg, Body: func() {
		a, b := mcrt.Choose(4, "kind"), mcrt.Choose(4, "kind")
		menu := every
		if !xp.Deep {
			menu = []int{bOK, bLost, bError, bLate, bTwoDiff}
		}
		mix(false, menu, []int{a, b}, []int{b})
	}})

	// P08
	delays := []time.Duration{-1, 4999 * time.Millisecond, 5001 * time.Millisecond, 0, time.Millisecond, 9999 * time.Millisecond, 10001 * time.Millisecond}
	xp.Add(&xp.Unit{Prop: "P08", Name: "timing", Weight: 2, Cfg: plainCfg, Body: func() {
		w := newCW()
		arr := []time.Duration{}
		fail := 0
		sendErr := false
		mcrt.OnSendErr(func(p mcrt.Packet) error {
			if sendErr {
				fail++
				return errors.New("network is unreachable")
			}
			return nil
		})
		w.reply = func(k *call, attempt int, m *wire) {
			n := 7
			if !xp.Deep {
				n = 4
			}
			if d := delays[mcrt.Choose(n, "delay")]; d >= 0 {
				arr = append(arr, mcrt.NowNS()+d)
				w.injectAt(d, k.ip, plain(k.apduOK(m.id)))
			}
		}
		for i := 0; i < 2; i++ {
			k := w.newCall(mcrt.Choose(4, "kind"), ipDevA, i)
			arr, fail = nil, 0
			sendErr = i == 0 && mcrt.Choose(8, "send error") == 7
			k.do(w.cli)
			if sendErr {
				sendErr = false
				if k.err == nil || fail < 1 || fail > 2 || k.t1-k.t0 > 10*time.Second {
					mcrt.Fail("%s that can't be sent: %v after %v and %d attempts", k.name, k.err, k.t1-k.t0, fail)
				}
				mcrt.Log("send error")
				continue
			}
			exact(k, arr)
			mcrt.Log("%v after %d", k.err == nil, len(k.sends))
		}
		w.full()
	}})
	// more requests than slots
	xp.Add(&xp.Unit{Prop: "P08", Name: "crowd", Cfg: plainCfg, Body: func() {
		w := newCW()
		kinds := [][]int{{kRead}, {kWrite}, {kReadMulti}, {kRead, kWriteMulti}}[mcrt.Choose(4, "kinds")]
		extra := 1 + mcrt.Choose(3, "extra")
		xk := mcrt.Choose(4, "kind")
		at := []time.Duration{-1, 500 * time.Millisecond, 1500 * time.Millisecond, 7 * time.Second}[mcrt.Choose(4, "answer at")]
		for i := 0; i < 20; i++ {
			w.spawn(w.newCall(kinds[i%len(kinds)], ipDevA, i))
		}
		settle()
		for i, k := range w.calls {
			if len(k.sends) != 1 {
				mcrt.Fail("%s, one of twenty: sent %d times", k.name, len(k.sends))
			}
			if i == 7 && at >= 0 {
				w.injectAt(at, k.ip, plain(k.apduOK(k.sends[0].id)))
			}
		}
		for i := 0; i < extra; i++ {
			w.spawn(w.newCall((xk+i)%4, ipDevB, 20+i))
		}
		mcrt.Sleep(time.Millisecond)
		for _, k := range w.calls[20:] {
			if k.done || len(k.sends) != 0 {
				mcrt.Fail("%s, beyond twenty open requests: done %v (%v), sent %d times", k.name, k.done, k.err, len(k.sends))
			}
		}
		w.join()
		slots(w.calls)
		w.full()
		mcrt.Log("%d", extra)
	}})
	// nothing is lost or doubled under any interleaving
	xp.Add(&xp.Unit{Prop: "P08", Name: "conserved", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1, EnvCost: 1, EarlyTimers: true}, Quick: 2, Deep: 4, Body: func() {
		n := mix(true, every, []int{kRead}, []int{kWrite})
		n.full()
	}})
	xp.Add(&xp.Unit{Prop: "P08", Name: "conserved-multi", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1, EnvCost: 1, EarlyTimers: true}, Quick: 2, Deep: 4, Body: func() {
		n := mix(true, every, []int{kReadMulti}, []int{kWriteMulti})
		n.full()
	}})
	// requests that are refused before they are sent give their slot back, too
	xp.Add(&xp.Unit{Prop: "P08", Name: "refused", Cfg: plainCfg, Body: func() {
		w := newCW()
		kind := mcrt.Choose(4, "kind")
		why := mcrt.Choose(2, "why")
		for i := 0; i < 25; i++ {
			k := w.newCall(kind, ipDevA, i)
			switch why {
			case 0:
				k.objs[0].ID.Instance = 1 << 22
			case 1:
				k.objs[0].Props = nil
			}
			k.do(w.cli)
			if k.err == nil || k.t1 != k.t0 || len(k.sends) != 0 {
				mcrt.Fail("%s of an object that does not exist: %v after %v, sent %d times", k.name, k.err, k.t1-k.t0, len(k.sends))
			}
		}
		w.full()
		mcrt.Log("%d", kind)
	}})
}

// exact: the call began with a free slot; arr are the times at which acknowledgements arrived.
func exact(k *call, arr []time.Duration) {
	if l := len(k.sends); l < 1 || l > 2 {
		mcrt.Fail("%s was sent %d times", k.name, l)
	}
	for i, s := range k.sends {
		if s.p.At != k.t0+time.Duration(i)*5*time.Second {
			mcrt.Fail("%s, begun at %v: attempt %d at %v", k.name, k.t0, i+1, s.p.At)
		}
	}
	end := k.sends[len(k.sends)-1].p.At + 5*time.Second
	ok := false
	for _, a := range arr {
		if a < end {
			end, ok = a, true
		}
	}
	if (k.err == nil) != ok || k.t1 != end {
		mcrt.Fail("%s, begun at %v, sent %d times, answered at %v: %v at %v", k.name, k.t0, len(k.sends), arr, k.err, k.t1)
	}
}

// slots: at no time are more than twenty requests open, and one that waits goes on as soon as a slot is free.
func slots(calls []*call) {
	open := func(t time.Duration) int { // strictly open at t
		n := 0
		for _, k := range calls {
			if len(k.sends) > 0 && k.sends[0].p.At <= t && t < k.t1 {
				n++
			}
		}
		return n
	}
	for _, k := range calls {
		end := k.t1
		if len(k.sends) > 0 {
			end = k.sends[0].p.At
			if open(end) > 20 {
				mcrt.Fail("%d requests are open at %v", open(end), end)
			}
			if d := k.t1 - end; d > 10*time.Second || k.err != nil && d != time.Duration(len(k.sends))*5*time.Second {
				mcrt.Fail("%s ends %v after it was sent %d times: %v", k.name, d, len(k.sends), k.err)
			}
		} else if k.err == nil {
			mcrt.Fail("%s succeeds without being sent", k.name)
		}
		if d := end - k.t0; d > 10*time.Second {
			mcrt.Fail("%s waits %v for a slot", k.name, d)
		} else if len(k.sends) == 0 && d < time.Second {
			mcrt.Fail("%s gives up after %v", k.name, d)
		}
		// while it waited there was no free slot
		for _, o := range calls {
			if t := o.t1; t >= k.t0 && t < end && open(t) < 20 {
				mcrt.Fail("%s waits until %v although a slot was free at %v", k.name, end, t)
			}
		}
	}
}
