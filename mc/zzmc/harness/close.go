package main

import (
	"fmt"
	"os"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P28: closing

// devNull takes the place of the standard error output: ClientClose(true) closes the output of the log.
func quietErr() func() {
	old := os.Stderr
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		mcrt.Fail("%v", err)
		return func() {}
	}
	os.Stderr = f
	return func() { os.Stderr = old }
}

// activity is something that goes on while the client is closed.
type activity struct {
	name   string
	bound  time.Duration
	t0, t1 time.Duration
	done   bool
	do     func(cli bacnet.Client) error
	// needs is set for calls that cannot succeed without the network
	needs bool
	err   error
}

func (a *activity) run(cli bacnet.Client) {
	a.t0 = mcrt.NowNS()
	a.err = a.do(cli)
	a.done, a.t1 = true, mcrt.NowNS()
	if d := a.t1 - a.t0; d > a.bound {
		mcrt.Fail("%s, begun at %v, takes %v", a.name, a.t0, d)
	}
}

const (
	aWhoIs = 4 + iota
	aNumber
	aRouter
	aIAm
	aObjects
	aCount
)

const (
	callBound   = 20 * time.Second // ten seconds for a slot and two attempts
	searchBound = 12 * time.Second
)

// newActivity: kinds 0..3 are the confirmed requests.
func (w *cw) newActivity(kind, n int) *activity {
	a := &activity{}
	switch kind {
	case aWhoIs:
		a.name, a.bound = "a search", searchBound
		a.do = func(cli bacnet.Client) error {
			ds, err := cli.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 50})
			for _, d := range ds {
				if d.DeviceID < 1 || d.DeviceID > 50 {
					mcrt.Fail("a search for 1 to 50 finds %d", d.DeviceID)
				}
			}
			return err
		}
	case aNumber:
		a.name, a.bound = "a network number search", searchBound
		a.do = func(cli bacnet.Client) error { cli.WhatIsNetworkNumber(); return nil }
	case aRouter:
		a.name, a.bound = "a router search", searchBound
		a.do = func(cli bacnet.Client) error { cli.WhoIsRouterToNetwork(); return nil }
	case aIAm:
		a.name, a.bound, a.needs = "an announcement", 0, true
		a.do = func(cli bacnet.Client) error {
			dest := btypes.Address{Net: 65535, Mac: []byte{10, 0, 0, 255, 0xBA, 0xC0}, MacLen: 6}
			return cli.IAm(dest, btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: 9}, MaxApdu: 480, Segmentation: 3, Vendor: 9})
		}
	case aObjects:
		a.name, a.bound, a.needs = "an object scan", 6*callBound, true
		a.do = func(cli bacnet.Client) error {
			d, err := cli.Objects(simpleDevice(ipDevB, 77))
			if err == nil {
				if l := d.ObjectSlice(); len(l) != 0 {
					mcrt.Fail("the scan of a device without objects finds %v", l)
				}
			}
			return err
		}
	default:
		k := w.newCall(kind, ipDevA, n)
		a.name, a.bound, a.needs = k.name, callBound, true
		a.do = func(cli bacnet.Client) error { k.do(cli); k.values(); return k.err }
	}
	return a
}

// device 77 at ipDevB has no objects; its answers are made by hand because the scan asks its own questions.
func (w *cw) scanDevice(m *wire) bool {
	if m.p.ToIP != ipDevB || !m.confirmed || m.svc != 12 {
		return false
	}
	w.inject(ipDevB, plain(ref.Cat([]byte{0x30, m.id, m.svc}, m.service, ref.Open(3), ref.App(uint32(0)), ref.Close(3))))
	return true
}

// closed: the client was closed; everything has to come to an end.
func (w *cw) closed(acts []*activity, hs []*mcrt.Handle) {
	for _, h := range hs {
		h.Join()
	}
	w.run.Join()
	if n := mcrt.OpenSockets(); n != 0 {
		mcrt.Fail("%d sockets are open after the client was closed", n)
	}
	for _, a := range acts {
		if !a.done {
			mcrt.Fail("%s did not end", a.name)
		}
	}
	mcrt.Early(false)
	mcrt.DirectMode(true)
	defer mcrt.DirectMode(false)
	sent := len(mcrt.Sent())
	// later calls
	hs = nil
	for k := 0; k < aCount; k++ {
		a := w.newActivity(k, 700+k)
		hs = append(hs, mcrt.GoHarness(a.name, func() {
			a.run(w.cli)
			if a.needs && a.err == nil {
				mcrt.Fail("%s succeeds on a closed client", a.name)
			}
		}))
	}
	again := mcrt.GoHarness("receive again", w.cli.ClientRun)
	for _, h := range hs {
		h.Join()
	}
	again.Join()
	if len(mcrt.Sent()) != sent {
		mcrt.Fail("a closed client sends %v", mcrt.Sent()[sent])
	}
	mcrt.Sleep(60 * time.Second)
	if l := mcrt.LiveApp(); len(l) != 0 {
		mcrt.Fail("a minute after the end of all calls on a closed client there is still %v", l)
	}
	if n := mcrt.PendingTimers(); n != 0 {
		mcrt.Fail("a minute after the end of all calls on a closed client %d timers are still running", n)
	}
	// the port can be used again, by a client that owes nothing to the first
	n := newCW()
	n.fresh()
	mcrt.DirectMode(true)
	if err := n.cli.Close(); err != nil {
		mcrt.Fail("closing: %v", err)
	}
	n.run.Join()
}

// shut closes the client in one of several ways.
func (w *cw) shut(how int) {
	var err error
	switch how {
	case 0:
		err = w.cli.Close()
	case 1:
		err = w.cli.ClientClose(false)
	case 2:
		err = w.cli.ClientClose(true)
	case 3: // twice: what the second one returns is not laid down
		err = w.cli.Close()
		w.cli.Close()
	case 4:
		err = w.cli.ClientClose(true)
		w.cli.ClientClose(true)
	}
	if err != nil {
		mcrt.Fail("closing (way %d) fails: %v", how, err)
	}
}

func init() {
	// every activity, every answer behaviour, closed at every telling time
	xp.Add(&xp.Unit{Prop: "P28", Name: "close-times", Weight: 2, Cfg: plainCfg, Body: func() {
		defer quietErr()()
		w := newCW()
		kind := mcrt.Choose(aCount+1, "activity")
		var acts []*activity
		if kind < aCount {
			acts = append(acts, w.newActivity(kind, 5))
		}
		// when the answers come
		delay := []time.Duration{0, time.Millisecond, 5001 * time.Millisecond, -1}[mcrt.Choose(4, "answer")]
		w.reply = func(k *call, attempt int, m *wire) {
			if delay >= 0 {
				w.injectAt(delay, k.ip, plain(k.apduOK(m.id)))
			}
		}
		send := mcrt.Choose(2, "foreign traffic") == 1
		if send {
			w.inject(ipOther, plain(ref.IAm(7, 480, 3, 9)))
			w.injectAt(2*time.Second, ipOther, plain([]byte{0x10, 8}))
			w.injectAt(4*time.Second, ipOther, plain([]byte{0x30, 3, 12, 0x0C}))
		}
		mcrt.OnSend(func(p mcrt.Packet) {
			m, s := parse(p)
			if s == "" && w.scanDevice(m) {
				return
			}
			w.onSend(p)
		})
		var hs []*mcrt.Handle
		for _, a := range acts {
			a := a
			hs = append(hs, mcrt.GoHarness(a.name, func() { a.run(w.cli) }))
		}
		at := []time.Duration{0, time.Nanosecond, time.Millisecond, 2 * time.Millisecond, 1999 * time.Millisecond, 2500 * time.Millisecond, 4999 * time.Millisecond,
			5 * time.Second, 5001 * time.Millisecond, 7 * time.Second, 10 * time.Second, 15 * time.Second}[mcrt.Choose(12, "close at")]
		how := mcrt.Choose(5, "how")
		mcrt.Sleep(at)
		w.shut(how)
		closed := mcrt.NowNS()
		w.closed(acts, hs)
		for _, a := range acts {
			if a.needs && a.err == nil && a.t1 > closed+time.Millisecond {
				mcrt.Fail("%s succeeds at %v though the client was closed at %v", a.name, a.t1, closed)
			}
			mcrt.Log("%v", a.err == nil)
		}
	}})
	// closed at every point of the interleaving with calls, answers and foreign messages
	for kind := 0; kind < aCount; kind++ {
		kind := kind
		name := []string{"read", "read-multiple", "write", "write-multiple", "search", "network-number", "router", "announcement", "scan"}[kind]
		xp.Add(&xp.Unit{Prop: "P28", Name: "close-during-" + name, Cfg: mcrt.Config{SwitchCost: 1, EnvCost: 1, EarlyTimers: kind < aWhoIs}, Quick: 3, Deep: 3, Body: func() {
			defer quietErr()()
			w := newCW()
			acts := []*activity{w.newActivity(kind, 5)}
			if xp.Deep {
				acts = append(acts, w.newActivity(mcrt.ChooseFree(aCount, "second"), 6))
			}
			w.reply = func(k *call, attempt int, m *wire) { w.inject(k.ip, plain(k.apduOK(m.id))) }
			mcrt.OnSend(func(p mcrt.Packet) {
				m, s := parse(p)
				if s == "" && w.scanDevice(m) {
					return
				}
				if s == "" && !m.confirmed && len(m.body) > 1 && m.body[0] == 0x10 && m.body[1] == 8 {
					w.inject(ipOther, plain(ref.IAm(7, 480, 3, 9)))
				}
				if s == "" && m.network {
					w.inject(ipOther, ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x13, 0, 7, 1})))
				}
				w.onSend(p)
			})
			how := mcrt.ChooseFree(6, "how")
			if how == 5 {
				// two at once
				w.hs = append(w.hs, mcrt.GoHarness("close", func() { w.shut(0) }))
				how = 2
			}
			var hs []*mcrt.Handle
			for _, a := range acts {
				a := a
				hs = append(hs, mcrt.GoHarness(a.name, func() { a.run(w.cli) }))
			}
			hs = append(hs, mcrt.GoHarness("close", func() { w.shut(how) }))
			hs = append(hs, w.hs...)
			for _, h := range hs {
				h.Join()
			}
			w.closed(acts, nil)
			for _, a := range acts {
				mcrt.Log("%v", a.err == nil)
			}
		}})
	}
	// opened and closed again and again
	xp.Add(&xp.Unit{Prop: "P28", Name: "again", Cfg: plainCfg, Body: func() {
		for i := 0; i < 3; i++ {
			restore := quietErr()
			w := newCW()
			restore()
			how := mcrt.Choose(5, "how")
			if mcrt.Choose(2, "call") == 1 {
				w.fresh()
			}
			w.shut(how)
			w.closed(nil, nil)
		}
		mcrt.Log("ok")
	}})
	// a client that was never run
	xp.Add(&xp.Unit{Prop: "P28", Name: "never-run", Cfg: plainCfg, Body: func() {
		defer quietErr()()
		cli, err := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "10.0.0.5/24", Port: bacPort})
		if err != nil {
			mcrt.Fail("NewClient: %v", err)
			return
		}
		w := &cw{cli: cli, sock: mcrt.Sockets()[0]}
		w.run = mcrt.GoHarness("nothing", func() {})
		how := mcrt.Choose(5, "how")
		w.shut(how)
		w.closed(nil, nil)
		mcrt.Log(fmt.Sprint(how))
	}})
}
