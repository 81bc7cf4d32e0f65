package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- closing a network

// needsAnswers: these have no result without an answer.
func (a *action) needsAnswers() bool {
	return !strings.Contains(a.name, "search") && !strings.Contains(a.name, "discover")
}

func failed(r []interface{}) bool {
	err, _ := r[len(r)-1].(error)
	return err != nil
}

func (w *world) shut(how int) {
	var err error
	switch how {
	case 0:
		err = w.nw.net.NetworkClose(false)
	case 1:
		err = w.nw.net.NetworkClose(true)
	case 2:
		err = w.nw.net.NetworkClose(false)
		w.nw.net.NetworkClose(true)
	case 3:
		// closed for its devices, too
		n, e := w.nw.store.GetNetwork("net")
		if e != nil {
			mcrt.Fail("GetNetwork: %v", e)
		}
		err = n.NetworkClose(false)
	}
	if err != nil {
		mcrt.Fail("closing (way %d) fails: %v", how, err)
	}
}

// over: the network was closed and the calls in progress have ended.
func (w *world) over() {
	w.run.Join()
	if n := mcrt.OpenSockets(); n != 0 {
		mcrt.Fail("%d sockets are open after the network was closed", n)
	}
	mcrt.DirectMode(true)
	defer mcrt.DirectMode(false)
	sent := len(mcrt.Sent())
	var hs []*mcrt.Handle
	for _, a := range networkActions() {
		a := a
		hs = append(hs, mcrt.GoHarness(a.name, func() {
			t0 := mcrt.NowNS()
			if r := a.do(w); !failed(r) && a.needsAnswers() && a.name != "read all points" && a.name != "device details" && a.name != "read details" {
				mcrt.Fail("%s on a closed network succeeds with %s", a.name, dump(r...))
			}
			if d := mcrt.NowNS() - t0; d > 10*callBound {
				mcrt.Fail("%s on a closed network takes %v", a.name, d)
			}
		}))
	}
	again := mcrt.GoHarness("receive again", w.nw.net.NetworkRun)
	for _, h := range hs {
		h.Join()
	}
	again.Join()
	if len(mcrt.Sent()) != sent {
		mcrt.Fail("a closed network sends %v", mcrt.Sent()[sent])
	}
	mcrt.Sleep(60 * time.Second)
	if l := mcrt.LiveApp(); len(l) != 0 {
		mcrt.Fail("a minute after the end of all calls on a closed network there is still %v", l)
	}
	if n := mcrt.PendingTimers(); n != 0 {
		mcrt.Fail("a minute after the end of all calls on a closed network %d timers are still running", n)
	}
	// the port can be used again
	n := newWorld(true)
	mcrt.DirectMode(true)
	if v, err := n.na.PointReadFloat32(&network.Point{ObjectID: 4, ObjectType: 2}); err != nil || v != 100 {
		mcrt.Fail("reading with another network at the same port: %v, %v", v, err)
	}
	n.shut(0)
	n.run.Join()
}

func init() {
	xp.Add(&xp.Unit{Prop: "P28", Name: "network", Weight: 2, Cfg: plainCfg, Body: func() {
		defer quietErr()()
		w := newWorld(true)
		delay := []time.Duration{0, time.Millisecond, 3 * time.Second, -1}[mcrt.Choose(4, "answers after")]
		mcrt.OnSend(func(p mcrt.Packet) {
			switch {
			case delay == 0:
				w.onSend(p)
			case delay > 0:
				mcrt.After(delay, "answer", func() { w.onSend(p) })
			}
		})
		list := networkActions()
		var r []interface{}
		var t1 int64
		var h *mcrt.Handle
		var a action
		if k := mcrt.Choose(len(list)+1, "activity"); k < len(list) {
			a = list[k]
			h = mcrt.GoHarness(a.name, func() { r = a.do(w); t1 = int64(mcrt.NowNS()) })
		}
		at := []time.Duration{0, time.Nanosecond, time.Millisecond, 2 * time.Millisecond, 5500 * time.Microsecond, 1999 * time.Millisecond, 2500 * time.Millisecond,
			4 * time.Second, 5 * time.Second, 5001 * time.Millisecond, 10 * time.Second, 14 * time.Second}[mcrt.Choose(12, "close at")]
		mcrt.Sleep(at)
		ended := r != nil
		w.shut(mcrt.Choose(4, "how"))
		closed := int64(mcrt.NowNS())
		if h != nil {
			h.Join()
			if d := time.Duration(t1 - closed); !ended && d > 10*callBound {
				mcrt.Fail("%s ends %v after the network was closed", a.name, d)
			}
		}
		w.over()
		mcrt.Log("%v", h != nil && !failed(r))
	}})
	xp.Add(&xp.Unit{Prop: "P28", Name: "close-network", Cfg: mcrt.Config{SwitchCost: 1}, Quick: 2, Deep: 3, Body: func() {
		// closed at every point of a call
		defer quietErr()()
		w := newWorld(true)
		list := networkActions()
		a := list[mcrt.ChooseFree(len(list), "activity")]
		how := mcrt.ChooseFree(4, "how")
		var r []interface{}
		h := mcrt.GoHarness(a.name, func() { r = a.do(w) })
		c := mcrt.GoHarness("close", func() { w.shut(how) })
		h.Join()
		c.Join()
		w.over()
		mcrt.Log(fmt.Sprint(failed(r)))
	}})
	xp.Add(&xp.Unit{Prop: "P28", Name: "no-network", Cfg: plainCfg, Body: func() {
		// one that was never opened
		n := &network.Network{}
		how := mcrt.Choose(2, "close the log")
		defer quietErr()()
		n.NetworkRun()
		if err := n.NetworkClose(how == 1); err != nil {
			mcrt.Fail("closing a network that was never opened: %v", err)
		}
		if l := mcrt.LiveApp(); len(l) != 0 {
			mcrt.Fail("left running: %v", l)
		}
		mcrt.Log("ok")
	}})
}
