package main

import (
	"context"
	"fmt"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/utsm"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	zctx "github.com/NubeDev/bacnet/zzmc/shim/context"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P27: no data races
//
// These units run in the binary built with the race detector. The scheduler's own hand-offs are invisible to it, so two
// accesses count as ordered only if the program (or the creation and the end of a driver thread) orders them. The
// drivers share nothing that changes.

// touch reads everything a caller is given.
func touch(v interface{}) int {
	n := 0
	switch x := v.(type) {
	case []btypes.Device:
		for i := range x {
			n += touch(x[i])
		}
	case btypes.Device:
		n += int(x.ID.Instance) + x.DeviceID + int(x.MaxApdu) + touch(x.Addr)
		for _, o := range x.ObjectSlice() {
			n += touch(o)
		}
	case btypes.Address:
		n += int(x.Net) + int(x.Len) + int(x.MacLen)
		for _, b := range x.Mac {
			n += int(b)
		}
		for _, b := range x.Adr {
			n += int(b)
		}
	case btypes.Object:
		n += len(x.Name) + len(x.Description) + int(x.ID.Instance)
		for _, p := range x.Properties {
			n += int(p.Type) + int(p.ArrayIndex) + touch(p.Data)
		}
	case []interface{}:
		for _, y := range x {
			n += touch(y)
		}
	case btypes.BitString:
		n += touchBytes(x.Value)
	case *btypes.BitString:
		n += touchBytes(x.Value)
	case []byte:
		n += touchBytes(x)
	case string:
		n += touchBytes([]byte(x))
	}
	return n
}

func touchBytes(b []byte) (n int) {
	for _, x := range b {
		n += int(x)
	}
	return n
}

func raceDevice(inst uint32, ip ip4) *model {
	id := btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}
	d := &model{inst: inst, ip: ip, max: 480, seg: 3, vendor: 7}
	d.objs = []mobj{
		{id, map[uint32]interface{}{77: "device", 28: "a device", 62: uint32(480), 107: ref.Enum(3), 121: "vendor"}},
		{btypes.ObjectID{Type: 2, Instance: 1}, map[uint32]interface{}{77: "one", 28: "first", 85: float32(1.5)}},
		{btypes.ObjectID{Type: 5, Instance: 2}, map[uint32]interface{}{77: "two", 28: "second", 85: ref.Enum(1)}},
	}
	return d
}

// rops are the things that can be done at the same time. The inputs are shared.
type rop struct {
	name string
	do   func(e *renv)
}

type renv struct {
	cli  bacnet.Client
	sock *mcrt.UDPConn
	dev  btypes.Device
	one  btypes.PropertyData
	many btypes.MultiplePropertyData
	val  btypes.PropertyData
	vals btypes.MultiplePropertyData
	opts *bacnet.WhoIsOpts
	dest btypes.Address
	iam  btypes.IAm
}

func raceOps() []rop {
	inject := func(name string, b []byte) rop {
		return rop{name, func(e *renv) { mcrt.Inject(e.sock, ipOther, bacPort, b) }}
	}
	return []rop{
		{"read", func(e *renv) { r, _ := e.cli.ReadProperty(e.dev, e.one); touch(r.Object) }},
		{"multiple read", func(e *renv) {
			r, _ := e.cli.ReadMultiProperty(e.dev, e.many)
			for _, o := range r.Objects {
				touch(o)
			}
		}},
		{"write", func(e *renv) { e.cli.WriteProperty(e.dev, e.val) }},
		{"multiple write", func(e *renv) { e.cli.WriteMultiProperty(e.dev, e.vals) }},
		{"search", func(e *renv) { d, _ := e.cli.WhoIs(e.opts); touch(d) }},
		{"network number", func(e *renv) {
			for _, a := range e.cli.WhatIsNetworkNumber() {
				touch(*a)
			}
		}},
		{"router", func(e *renv) {
			if r := e.cli.WhoIsRouterToNetwork(); r != nil {
				for _, a := range *r {
					touch(a)
				}
			}
		}},
		{"announce", func(e *renv) { e.cli.IAm(e.dest, e.iam) }},
		{"scan", func(e *renv) { d, _ := e.cli.Objects(e.dev); touch(d) }},
		{"close", func(e *renv) { e.cli.Close() }},
		{"receive too", func(e *renv) { e.cli.ClientRun() }},
		inject("hear I-Am", plain(ref.IAm(7, 480, 3, 9))),
		inject("hear another I-Am", ref.Forwarded(ipDevB, bacPort, ref.Cat(ref.NPDU(nil, &ref.Addr{Net: 5, Adr: []byte{9}}, 0, false, false, 0), ref.IAm(8, 480, 3, 9)))),
		inject("hear search", plain([]byte{0x10, 8})),
		inject("hear acknowledgement", plain(ref.Cat([]byte{0x30, 1, 12}, ref.ReadPropertyAck(btypes.ObjectID{Type: 2, Instance: 1}, ref.Prop{Type: 85, Index: ref.ArrayAll, Value: float32(2)})))),
		inject("hear error", plain(ref.ErrorPDU(2, 15, 2, 31))),
		inject("hear network number", ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x13, 0, 7, 1}))),
		inject("hear router", ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x01, 0, 7}))),
		inject("hear garbage", []byte{0x81, 0x0A, 0, 4}),
	}
}

func newRenv(answers bool) *renv {
	mcrt.DirectMode(true)
	e := &renv{}
	cli, err := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "10.0.0.5/24", Port: bacPort})
	if err != nil {
		mcrt.Fail("NewClient: %v", err)
	}
	e.cli, e.sock = cli, mcrt.Sockets()[0]
	if answers {
		mcrt.OnSend(serve(e.sock, raceDevice(100, ipDevA)))
	}
	e.dev = raceDevice(100, ipDevA).device()
	o := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 1}, Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}}
	e.one = btypes.PropertyData{Object: o}
	o.Properties = []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}, {Type: 77, ArrayIndex: btypes.ArrayAll}}
	e.many = btypes.MultiplePropertyData{Objects: []btypes.Object{o}}
	o.Properties = []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll, Data: float32(2), Priority: 8}}
	e.val = btypes.PropertyData{Object: o}
	o.Properties = []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll, Data: float32(2), Priority: 8}}
	e.vals = btypes.MultiplePropertyData{Objects: []btypes.Object{o}}
	e.opts = &bacnet.WhoIsOpts{Low: 1, High: 5000}
	e.dest = btypes.Address{Net: 65535, Mac: []byte{10, 0, 0, 255, 0xBA, 0xC0}, MacLen: 6}
	e.iam = btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: 9}, MaxApdu: 480, Segmentation: 3, Vendor: 9}
	mcrt.DirectMode(false)
	return e
}

func raceRun(n int, opts []rop, first int) {
	e := newRenv(mcrt.ChooseFree(2, "answers") == 0)
	run := mcrt.GoHarness("receive", e.cli.ClientRun)
	var hs []*mcrt.Handle
	min := 0
	for i := 0; i < n; i++ {
		k := min + mcrt.ChooseFree(len(opts)-min, "operation")
		min = k
		op := opts[k]
		hs = append(hs, mcrt.GoHarness(op.name, func() { op.do(e) }))
	}
	mcrt.Sleep(time.Second)
	_ = run
	mcrt.Early(false)
	mcrt.DirectMode(true)
	mcrt.Sleep(40 * time.Second)
	e.cli.Close()
	for _, h := range hs {
		h.Join()
	}
	run.Join()
	mcrt.Log("ok")
}

func init() {
	cfg := mcrt.Config{SwitchCost: 1, EnvCost: 1, EarlyTimers: true}
	xp.Add(&xp.Unit{Prop: "P27", Name: "client-pairs", Race: true, Weight: 6, Cfg: cfg, Quick: 1, Deep: 2, Body: func() { raceRun(2, raceOps(), 0) }})
	xp.Add(&xp.Unit{Prop: "P27", Name: "client-triples", Race: true, Weight: 6, Cfg: cfg, Quick: 0, Deep: 1, Body: func() { raceRun(3, raceOps(), 0) }})
	// the transaction manager
	type top struct {
		name string
		do   func(t *tsm.TSM, id int)
	}
	tops := []top{
		{"allocate", func(t *tsm.TSM, id int) {
			ctx, cancel := zctx.WithTimeout(context.Background(), time.Second)
			defer cancel()
			if i, err := t.ID(ctx); err == nil {
				t.Put(i)
			}
		}},
		{"transaction", func(t *tsm.TSM, id int) {
			ctx, cancel := zctx.WithTimeout(context.Background(), time.Second)
			defer cancel()
			if i, err := t.ID(ctx); err == nil {
				v, _ := t.Receive(i, time.Second)
				touch(v)
				t.Put(i)
			}
		}},
		{"receive", func(t *tsm.TSM, id int) { v, _ := t.Receive(id, time.Second); touch(v) }},
		{"send", func(t *tsm.TSM, id int) { t.Send(id, []byte{1, 2, 3}) }},
		{"send to the next", func(t *tsm.TSM, id int) { t.Send(id%254+1, []byte{1, 2, 3}) }},
		{"release", func(t *tsm.TSM, id int) { t.Put(id) }},
		{"release the next", func(t *tsm.TSM, id int) { t.Put(id%254 + 1) }},
	}
	tbody := func(n int) func() {
		return func() {
			mcrt.DirectMode(true)
			size := 1 + mcrt.ChooseFree(2, "size")
			t := tsm.New(size)
			ctx, cancel := zctx.WithTimeout(context.Background(), time.Second)
			id, err := t.ID(ctx)
			cancel()
			if err != nil {
				mcrt.Fail("ID: %v", err)
			}
			mcrt.DirectMode(false)
			var hs []*mcrt.Handle
			min := 0
			for i := 0; i < n; i++ {
				min += mcrt.ChooseFree(len(tops)-min, "operation")
				op := tops[min]
				hs = append(hs, mcrt.GoHarness(op.name, func() { op.do(t, id) }))
			}
			// an acknowledgement that nobody receives is held until its transaction ends
			mcrt.Sleep(5 * time.Second)
			mcrt.Early(false)
			for i := 0; i < 3; i++ {
				t.Put(id)
				t.Put(id%254 + 1)
			}
			for _, h := range hs {
				h.Join()
			}
			mcrt.Log("ok")
		}
	}
	xp.Add(&xp.Unit{Prop: "P27", Name: "transactions-pairs", Race: true, Cfg: cfg, Quick: 2, Deep: 3, Body: tbody(2)})
	xp.Add(&xp.Unit{Prop: "P27", Name: "transactions-triples", Race: true, Weight: 2, Cfg: cfg, Quick: 1, Deep: 2, Body: tbody(3)})
	// the publication manager
	type uop struct {
		name string
		do   func(m *utsm.Manager)
	}
	uops := []uop{
		{"subscribe", func(m *utsm.Manager) {
			vs, _ := m.Subscribe(1, 10)
			for _, v := range vs {
				touch(v)
			}
		}},
		{"subscribe and start", func(m *utsm.Manager) {
			n := 0
			vs, _ := m.Subscribe(5, 10, utsm.Subscribed(func() { n++ }))
			for _, v := range vs {
				touch(v)
			}
			sinkN2(n)
		}},
		{"publish", func(m *utsm.Manager) { m.Publish(7, []byte{1, 2, 3}) }},
		{"publish elsewhere", func(m *utsm.Manager) { m.Publish(20, []byte{1, 2, 3}) }},
		{"publish twice", func(m *utsm.Manager) { m.Publish(7, []byte{1}); m.Publish(8, []byte{1}) }},
	}
	ubody := func(n int) func() {
		return func() {
			m := utsm.NewManager(utsm.DefaultSubscriberTimeout(3*time.Second), utsm.DefaultSubscriberLastReceivedTimeout(time.Second))
			var hs []*mcrt.Handle
			min := 0
			for i := 0; i < n; i++ {
				min += mcrt.ChooseFree(len(uops)-min, "operation")
				op := uops[min]
				hs = append(hs, mcrt.GoHarness(op.name, func() { op.do(m) }))
			}
			for _, h := range hs {
				h.Join()
			}
			mcrt.Log("ok")
		}
	}
	xp.Add(&xp.Unit{Prop: "P27", Name: "publications-pairs", Race: true, Cfg: cfg, Quick: 3, Deep: 5, Body: ubody(2)})
	xp.Add(&xp.Unit{Prop: "P27", Name: "publications-triples", Race: true, Weight: 2, Cfg: cfg, Quick: 2, Deep: 4, Body: ubody(3)})
	_ = fmt.Sprint
}

//go:noinline
func sinkN2(n int) {}
