package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- searches

const maxInst = 1<<22 - 1

// heard is a message that arrives while somebody searches.
type heard struct {
	what string
	data []byte
	from ip4
	port int
	// an announcement of a device
	dev *announced
	// an announcement of networks; router: I-Am-Router-To-Network
	nets   []uint16
	router bool
	at     time.Duration
	req    int // heard in answer to this request
}

// announced is what a device says about itself.
type announced struct {
	inst              uint32
	apdu, seg, vendor uint32
	ip                ip4
	port              int
	net               uint16
	adr               []byte
}

func (w *cw) hear(d time.Duration, h *heard) {
	h.at = mcrt.NowNS() + d
	if d <= 0 {
		mcrt.Inject(w.sock, h.from, h.port, h.data)
		return
	}
	mcrt.After(d, h.what, func() { mcrt.Inject(w.sock, h.from, h.port, h.data) })
}

const (
	viaDirect = iota
	viaBroadcast
	viaRouter  // from a station of network 7
	viaRouter6 // its station address has six bytes
	viaForward // by a BBMD
	viaForwardRouter
	nVias
)

// announce is the announcement of a device by one of the ways.
func announce(inst uint32, via int) *heard {
	return announceFrom(inst, via, ip4{10, 0, 0, byte(20 + inst%50)}, bacPort+int(inst%3))
}

func announceFrom(inst uint32, via int, ip ip4, port int) *heard {
	adr := []byte{byte(inst % 128)}
	if via == viaRouter6 {
		adr = []byte{192, 168, 0, 1, 0xBA, byte(inst)}
	}
	return announceAt(inst, via, ip, port, adr)
}

// announceAt is the announcement of a device with a station address.
func announceAt(inst uint32, via int, ip ip4, port int, adr []byte) *heard {
	a := &announced{inst: inst, apdu: 480 + inst%3, seg: inst % 4, vendor: 5 + inst%300, ip: ip, port: port}
	h := &heard{what: fmt.Sprintf("announcement of %d (way %d)", inst, via), from: ip, port: a.port, dev: a}
	body := ref.IAm(a.inst, a.apdu, a.seg, a.vendor)
	switch via {
	case viaDirect:
		h.data = ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, false, 0), body))
	case viaBroadcast:
		h.data = ref.BVLC(0x0B, ref.Cat(ref.NPDU(&ref.Addr{Net: 65535}, nil, 254, false, false, 0), body))
	case viaRouter, viaRouter6, viaForwardRouter:
		a.net, a.adr = 7, adr
		if via == viaRouter6 {
			a.net = 65534
		}
		b := ref.Cat(ref.NPDU(&ref.Addr{Net: 65535}, &ref.Addr{Net: a.net, Adr: a.adr}, 254, false, false, 0), body)
		h.data = ref.BVLC(0x0B, b)
		if via == viaForwardRouter {
			h.data = ref.Forwarded(a.ip, uint16(a.port), b)
			h.from, h.port = ip4{10, 0, 0, 250}, bacPort
		}
	case viaForward:
		h.data = ref.Forwarded(a.ip, uint16(a.port), ref.Cat(ref.NPDU(nil, nil, 0, false, false, 0), body))
		h.from, h.port = ip4{10, 0, 0, 250}, bacPort
	}
	return h
}

func netMsg(typ byte, content []byte) []byte {
	return ref.BVLC(0x0B, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{typ}, content))
}

func netIs(n uint16) *heard {
	return &heard{what: fmt.Sprintf("network number %d", n), from: ipOther, port: bacPort, nets: []uint16{n}, data: netMsg(0x13, []byte{byte(n >> 8), byte(n), 1})}
}

func routerTo(nets ...uint16) *heard {
	var c []byte
	for _, n := range nets {
		c = append(c, byte(n>>8), byte(n))
	}
	return &heard{what: fmt.Sprintf("router to %v", nets), from: ipOther, port: bacPort, nets: nets, router: true, data: netMsg(1, c)}
}

// foreign is traffic that says nothing about devices or networks.
func foreign() []*heard {
	add := func(what string, data []byte) *heard {
		return &heard{what: what, from: ipOther, port: bacPort, data: data}
	}
	return []*heard{
		add("an announcement without vendor", plain(ref.Cat([]byte{0x10, 0}, ref.App(btypes.ObjectID{Type: 8, Instance: 7}), ref.App(uint32(480)), ref.App(ref.Enum(3))))),
		add("an announcement of an analog input", plain(ref.Cat([]byte{0x10, 0}, ref.App(btypes.ObjectID{Type: 0, Instance: 7}), ref.App(uint32(480)), ref.App(ref.Enum(3)), ref.App(uint32(5))))),
		add("a search", plain([]byte{0x10, 8, 0x09, 7, 0x19, 7})),
		add("an I-Have", plain(ref.Cat([]byte{0x10, 1}, ref.App(btypes.ObjectID{Type: 8, Instance: 7}), ref.App(btypes.ObjectID{Type: 0, Instance: 1}), ref.App("x")))),
		add("an acknowledgement", plain([]byte{0x20, 7, 15})),
		add("an announcement in a message that is no BACnet/IP", func() []byte { b := plain(ref.IAm(7, 480, 3, 5)); b[0] = 0x80; return b }()),
		add("an announcement in a network message", ref.BVLC(0x0B, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x00}, ref.IAm(7, 480, 3, 5)))),
		add("an announcement in a confirmed request", plain(ref.Cat([]byte{0x00, 5, 7, 0}, ref.IAm(7, 480, 3, 5)[2:]))),
		add("rubbish", []byte{0x81, 0x0B, 0, 5, 7}),
	}
}

// search is a WhoIs call.
type search struct {
	opts   bacnet.WhoIsOpts
	t0, t1 time.Duration
	devs   []btypes.Device
	err    error
	done   bool
	own    int // number of its request
}

func (s *search) limits() (int, int) {
	lo, hi := s.opts.Low, s.opts.High
	if lo <= 0 {
		lo = 0
	}
	if hi <= 0 || hi > maxInst {
		hi = maxInst
	}
	return lo, hi
}

func (s *search) do(w *cw) {
	s.t0 = mcrt.NowNS()
	o := s.opts
	s.devs, s.err = w.cli.WhoIs(&o)
	s.t1 = mcrt.NowNS()
	s.done = true
	if o != s.opts {
		mcrt.Fail("a search changes the options of its caller from %+v to %+v", s.opts, o)
	}
}

func sameDevice(d btypes.Device, a *announced) string {
	mac := []byte{a.ip[0], a.ip[1], a.ip[2], a.ip[3], byte(a.port >> 8), byte(a.port)}
	mstp := 0
	if len(a.adr) > 0 {
		mstp = int(a.adr[0])
	}
	switch {
	case d.ID != btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(a.inst)} || d.DeviceID != int(a.inst):
		return fmt.Sprintf("identifier %v, %d", d.ID, d.DeviceID)
	case d.MaxApdu != a.apdu || uint32(d.Segmentation) != a.seg || d.Vendor != a.vendor:
		return fmt.Sprintf("size %d, segmentation %d, vendor %d", d.MaxApdu, d.Segmentation, d.Vendor)
	case !bytes.Equal(d.Addr.Mac, mac) || d.Addr.MacLen != 6 || d.Ip != fmt.Sprintf("%d.%d.%d.%d", a.ip[0], a.ip[1], a.ip[2], a.ip[3]) || d.Port != a.port:
		return fmt.Sprintf("address % x, %s, %d", d.Addr.Mac, d.Ip, d.Port)
	case d.Addr.Net != a.net || d.NetworkNumber != int(a.net) || !bytes.Equal(d.Addr.Adr, a.adr) || d.MacMSTP != mstp:
		return fmt.Sprintf("network %d, %d, station % x, %d", d.Addr.Net, d.NetworkNumber, d.Addr.Adr, d.MacMSTP)
	}
	return ""
}

// judge: the result is what was announced.
func (s *search) judge(hs []*heard) {
	lo, hi := s.limits()
	what := fmt.Sprintf("a search with %+v from %v to %v, heard:", s.opts, s.t0, s.t1)
	for _, h := range hs {
		what += fmt.Sprintf(" %s at %v;", h.what, h.at)
	}
	if s.err != nil {
		mcrt.Fail("%s fails: %v", what, s.err)
	}
	seen := map[int]bool{}
	for _, d := range s.devs {
		if seen[d.DeviceID] {
			mcrt.Fail("%s lists %d twice", what, d.DeviceID)
		}
		seen[d.DeviceID] = true
		why, ok := "", false
		for _, h := range hs {
			if h.dev == nil || int(h.dev.inst) != d.DeviceID || h.at < s.t0 || h.at > s.t1 {
				continue
			}
			x := sameDevice(d, h.dev)
			ok = ok || x == ""
			why = x
		}
		if int(d.DeviceID) < lo || d.DeviceID > hi {
			mcrt.Fail("%s lists %d", what, d.DeviceID)
		}
		if !ok {
			mcrt.Fail("%s lists %d with %s", what, d.DeviceID, why)
		}
	}
	last, lastAny := s.t0, s.t0
	for _, h := range hs {
		if h.at < s.t0 || h.at >= s.t1 {
			continue
		}
		lastAny = h.at
		if h.at == s.t0 && h.req < s.own { // (may have been before the beginning)
			continue
		}
		if h.dev == nil || int(h.dev.inst) < lo || int(h.dev.inst) > hi {
			continue
		}
		last = h.at
		if !seen[int(h.dev.inst)] {
			mcrt.Fail("%s does not list %d", what, h.dev.inst)
		}
	}
	listened(what, s.t0, s.t1, last, lastAny)
}

// listened: for two seconds after the last message, ten seconds at most.
func listened(what string, t0, t1, last, lastAny time.Duration) {
	min := func(d time.Duration) time.Duration {
		if d > t0+10*time.Second {
			return t0 + 10*time.Second
		}
		return d
	}
	if t1 < min(last+2*time.Second) || t1 > min(lastAny+2*time.Second) {
		mcrt.Fail("%s listens from %v to %v", what, t0, t1)
	}
}

// body is the message it is sent as, for a search with two limits or none.
func (s *search) body() []byte {
	if s.opts.Low <= 0 && s.opts.High <= 0 {
		return []byte{0x10, 8}
	}
	lo, hi := s.limits()
	return ref.Cat([]byte{0x10, 8}, ref.Ctx(0, ref.Uint(uint32(lo))), ref.Ctx(1, ref.Uint(uint32(hi))))
}

// asked checks the datagram of a search.
func (s *search) asked(m *wire) {
	bad := func(why string) { mcrt.Fail("a search with %+v is sent as %v: %s", s.opts, m.p, why) }
	net := s.opts.NetworkNumber
	if s.opts.GlobalBroadcast {
		net = 65535
	}
	if m.fn != 0x0B || m.p.ToIP != (ip4{10, 0, 0, 255}) || m.p.ToPort != bacPort {
		bad("no broadcast to the network")
	}
	if net == 0 && m.dst != nil || net != 0 && (m.dst == nil || m.dst.Net != net || len(m.dst.Adr) != 0 || m.hop == 0) || m.src != nil || m.reply || m.network || m.prio != 0 {
		bad("wrong network header")
	}
	lo, hi := s.limits()
	full := bytes.Equal(m.body, []byte{0x10, 8})
	ltd := bytes.Equal(m.body, ref.Cat([]byte{0x10, 8}, ref.Ctx(0, ref.Uint(uint32(lo))), ref.Ctx(1, ref.Uint(uint32(hi)))))
	whole := s.opts.Low <= 0 || s.opts.High <= 0 || s.opts.High > maxInst || s.opts.Low > maxInst
	if !ltd && !(full && (whole || lo == 0 && hi == maxInst)) {
		bad("wrong limits")
	}
}

var rangeOpts = []bacnet.WhoIsOpts{
	{}, {Low: 5, High: 10}, {Low: 7, High: 7}, {Low: -1, High: -1}, {Low: 0, High: 7}, {Low: 5}, {Low: maxInst - 1, High: maxInst},
	{Low: 0, High: maxInst}, {Low: 1, High: maxInst + 1}, {Low: 7, High: 7, GlobalBroadcast: true}, {Low: 5, High: 10, NetworkNumber: 7}, {Low: 1, High: 1},
	{Low: -1, High: 7}, {Low: 5, High: -1}, {Low: 0, High: 0, NetworkNumber: 7}, {Low: 5, High: 10, GlobalBroadcast: true, NetworkNumber: 7},
}

// edges are the identifiers around the limits of a search.
func (s *search) edges() []uint32 {
	lo, hi := s.limits()
	mid := lo + 2
	if mid > hi {
		mid = hi
	}
	m := map[int]bool{lo - 1: true, lo: true, mid: true, hi: true, hi + 1: true, 0: true, maxInst: true}
	var out []uint32
	for x := range m {
		if x >= 0 && x <= maxInst {
			out = append(out, uint32(x))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var gaps = []time.Duration{time.Millisecond, 1999 * time.Millisecond, 2001 * time.Millisecond, 0}

func init() {
	// every sequence of announcements and foreign traffic
	xp.Add(&xp.Unit{Prop: "P10", Name: "answers", Weight: 4, Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &search{opts: rangeOpts[mcrt.Choose(len(rangeOpts), "range")]}
		var hs []*heard
		at := time.Duration(0)
		gap := gaps[mcrt.Choose(len(gaps), "gap")]
		n := 3
		if xp.Deep {
			n = 4
		}
		for i := 0; i < n; i++ {
			es, fs := s.edges(), foreign()
			k := mcrt.Choose(len(es)+2, "message")
			if k == 0 {
				break
			}
			var h *heard
			if k--; k < len(es) {
				h = announce(es[k], i%nVias)
			} else {
				fs = append(fs, netIs(7), routerTo(7, 8))
				h = fs[mcrt.Choose(len(fs), "foreign")]
			}
			at += gap
			hs = append(hs, h)
			w.hear(at, h)
		}
		w.other = func(m *wire) { s.asked(m) }
		s.do(w)
		s.judge(hs)
		mcrt.Log("%d of %d", len(s.devs), len(hs))
	}})
	// every way an announcement can come, repeated by every other way, before and after the search
	xp.Add(&xp.Unit{Prop: "P10", Name: "ways", Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &search{opts: rangeOpts[mcrt.Choose(2, "range")]}
		var hs []*heard
		hear := func(d time.Duration, h *heard) {
			hs = append(hs, h)
			w.hear(d, h)
		}
		hear(0, announce(6, mcrt.Choose(nVias, "early")))
		mcrt.Sleep(time.Millisecond)
		hear(time.Millisecond, announce(7, mcrt.Choose(nVias, "way")))
		hear(2*time.Millisecond, announce(7, mcrt.Choose(nVias, "way")))
		hear(3*time.Millisecond, announce(8, mcrt.Choose(nVias, "way")))
		hear(2010*time.Millisecond, announce(9, mcrt.Choose(nVias, "late")))
		s.do(w)
		s.judge(hs)
		// what was found can be asked
		for i, d := range s.devs {
			k := w.newCall(kRead, ip4{d.Addr.Mac[0], d.Addr.Mac[1], d.Addr.Mac[2], d.Addr.Mac[3]}, i)
			k.dev, k.dest = d, true
			w.reply = func(k *call, attempt int, m *wire) {
				b := ref.NPDU(nil, nil, 0, false, false, 0)
				if m.dst != nil {
					b = ref.NPDU(nil, m.dst, 0, false, false, 0)
				}
				w.inject(k.ip, ref.BVLC(0x0A, ref.Cat(b, k.apduOK(m.id))))
			}
			k.do(w.cli)
			if k.err != nil {
				mcrt.Fail("reading from a device that was found: %v", k.err)
			}
			k.values()
		}
		mcrt.Sleep(3 * time.Second)
		s2 := &search{opts: s.opts}
		s2.do(w)
		s2.judge(nil)
		mcrt.Log("%d", len(s.devs))
	}})
	// long runs of announcements: how long a search listens
	xp.Add(&xp.Unit{Prop: "P10", Name: "timing", Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &search{opts: rangeOpts[mcrt.Choose(2, "range")]}
		var hs []*heard
		at := time.Duration(0)
		for i := 0; i < 7; i++ {
			g := []time.Duration{1999, 0, 2001, 1000}[mcrt.Choose(4, "gap")] * time.Millisecond
			if g == 2001*time.Millisecond && i > 0 && mcrt.Choose(2, "stop") == 0 {
				break
			}
			at += g + time.Duration(i)*time.Microsecond
			h := announce(uint32(4+i), 0)
			hs = append(hs, h)
			w.hear(at, h)
		}
		s.do(w)
		s.judge(hs)
		mcrt.Log("%d of %d in %v", len(s.devs), len(hs), s.t1-s.t0)
	}})
	// many devices at once
	xp.Add(&xp.Unit{Prop: "P10", Name: "many", Cfg: bigCfg, Body: func() {
		w := newCW()
		s := &search{opts: rangeOpts[mcrt.Choose(2, "range")]}
		n := []int{0, 1, 2, 30, 300, 1100}[mcrt.Choose(6, "devices")]
		step := []uint32{1, 7, 3797}[mcrt.Choose(3, "step")]
		again := mcrt.Choose(3, "repeated")
		var hs []*heard
		w.other = func(m *wire) {
			for i := 0; i < n; i++ {
				h := announce(uint32(i)*step, i%nVias)
				hs = append(hs, h)
				w.hear(0, h)
			}
			for i := 0; i < again*n; i++ {
				w.hear(time.Second, hs[(i*7)%n])
			}
		}
		s.do(w)
		s.judge(hs)
		mcrt.Log("%d of %d", len(s.devs), len(hs))
	}})
	// a search that can't be sent fails and leaves nothing behind
	xp.Add(&xp.Unit{Prop: "P10", Name: "refused", Cfg: plainCfg, Body: func() {
		w := newCW()
		fail := true
		mcrt.OnSendErr(func(mcrt.Packet) error {
			if fail {
				return errors.New("network is unreachable")
			}
			return nil
		})
		s := &search{opts: rangeOpts[mcrt.Choose(len(rangeOpts), "range")]}
		s.do(w)
		if s.err == nil || s.t1-s.t0 > 10*time.Second {
			mcrt.Fail("a search with %+v that can't be sent: %v after %v", s.opts, s.err, s.t1-s.t0)
		}
		fail = false
		s = &search{opts: s.opts}
		var hs []*heard
		w.other = func(m *wire) {
			for _, x := range s.edges() {
				hs = append(hs, announce(x, 0))
				w.hear(0, hs[len(hs)-1])
			}
		}
		s.do(w)
		s.judge(hs)
		mcrt.Log("%d", len(s.devs))
	}})
	// searches at the same time, whose answers come at once
	both := func(more int, o1, o2 int, insts ...uint32) func() {
		return func() {
			w := newCW()
			var hs []*heard
			ss := []*search{{opts: rangeOpts[o1]}, {opts: rangeOpts[o2]}}
			req := 0
			w.other = func(m *wire) {
				req++
				for _, s := range ss {
					if s.own == 0 && bytes.Equal(m.body, s.body()) {
						s.own = req
						break
					}
				}
				n := mcrt.Choose(len(insts)+1, "answers")
				if n == 0 {
					n = len(insts)
				} else {
					n--
				}
				for _, x := range insts[:n] {
					h := announce(x, mcrt.Choose(2, "way")*viaRouter)
					h.req = req
					hs = append(hs, h)
					w.hear(0, h)
				}
			}
			for i, s := range ss {
				s := s
				w.hs = append(w.hs, mcrt.GoHarness(fmt.Sprintf("search %d", i), func() { s.do(w) }))
			}
			var k *call
			if more == 1 {
				w.reply = func(k *call, attempt int, m *wire) { w.inject(k.ip, plain(k.apduOK(m.id))) }
				k = w.newCall(kRead, ipDevA, 3)
				w.spawn(k)
			}
			w.join()
			for _, s := range ss {
				if s.own == 0 {
					mcrt.Fail("a search with %+v was not sent", s.opts)
				}
				s.judge(hs)
			}
			if more == 1 {
				if k.err != nil {
					mcrt.Fail("%s next to a search: %v", k.name, k.err)
				}
				k.values()
			}
			mcrt.Log("%d %d", len(ss[0].devs), len(ss[1].devs))
		}
	}
	cfg := mcrt.Config{SwitchCost: 1, EnvCost: 1}
	xp.Add(&xp.Unit{Prop: "P10", Name: "two-searches", Weight: 2, Cfg: cfg, Quick: 2, Deep: 4, Body: both(0, 1, 0, 7, 11)})
	xp.Add(&xp.Unit{Prop: "P10", Name: "overlap", Weight: 2, Cfg: cfg, Quick: 2, Deep: 4, Body: both(0, 1, 2, 5, 7)})
	xp.Add(&xp.Unit{Prop: "P10", Name: "search-and-read", Weight: 2, Cfg: cfg, Quick: 2, Deep: 4, Body: both(1, 1, 2, 7)})

	// ------------------------------------------------------------ P11
	type nsearch struct {
		router bool
		t0, t1 time.Duration
		got    []uint16
		own    int // number of the request after which it hears everything
	}
	do := func(w *cw, s *nsearch) {
		s.t0 = mcrt.NowNS()
		if s.router {
			r := w.cli.WhoIsRouterToNetwork()
			if r != nil {
				for _, a := range *r {
					s.got = append(s.got, a.Net)
				}
			}
		} else {
			for _, a := range w.cli.WhatIsNetworkNumber() {
				if a == nil {
					mcrt.Fail("the search for network numbers returns an empty entry")
				}
				s.got = append(s.got, a.Net)
			}
		}
		s.t1 = mcrt.NowNS()
	}
	judge := func(s *nsearch, hs []*heard) {
		what := fmt.Sprintf("a search (routers: %v) from %v to %v, heard:", s.router, s.t0, s.t1)
		must, may := map[uint16]int{}, map[uint16]int{}
		last, lastAny := s.t0, s.t0
		for _, h := range hs {
			what += fmt.Sprintf(" %s at %v;", h.what, h.at)
			if h.at < s.t0 || h.at > s.t1 {
				continue
			}
			if h.at < s.t1 {
				lastAny = h.at
			}
			if h.nets == nil || h.router != s.router {
				continue
			}
			seen := map[uint16]bool{}
			for _, n := range h.nets {
				if !seen[n] && h.at < s.t1 && (h.at > s.t0 || h.req >= s.own) {
					last = h.at
					must[n]++
				}
				seen[n] = true
				may[n]++
			}
		}
		cnt := map[uint16]int{}
		for _, n := range s.got {
			cnt[n]++
		}
		for n, c := range must {
			if s.router && c > 1 { // one entry for a network is enough
				c = 1
			}
			if cnt[n] < c {
				mcrt.Fail("%s returns %v", what, s.got)
			}
		}
		for n, c := range cnt {
			if c > may[n] {
				mcrt.Fail("%s returns %v", what, s.got)
			}
		}
		listened(what, s.t0, s.t1, last, lastAny)
	}
	asked := func(m *wire) bool {
		b := m.body
		typ := byte(255)
		if len(b) == 1 {
			typ = b[0]
		}
		if m.fn != 0x0B || m.p.ToIP != (ip4{10, 0, 0, 255}) || m.p.ToPort != bacPort || m.dst != nil || m.src != nil || m.reply || !m.network || m.prio != 0 || typ != 0 && typ != 0x12 {
			mcrt.Fail("a search for networks is sent as %v", m.p)
		}
		return typ == 0
	}
	alphabet := func() []*heard {
		var hs []*heard
		for _, n := range []uint16{1, 2, 7, 255, 256, 65534} {
			hs = append(hs, netIs(n))
		}
		hs = append(hs, routerTo(1), routerTo(65534), routerTo(1, 2), routerTo(2, 1), routerTo(1, 2, 3, 255, 256, 65534), routerTo(9, 9), announce(7, viaRouter), announce(1, viaDirect))
		// the same with the address of a station behind a router, and through a BBMD
		h := netIs(12)
		h.data = ref.BVLC(0x0B, ref.Cat(ref.NPDU(nil, &ref.Addr{Net: 99, Adr: []byte{3}}, 0, false, true, 0), []byte{0x13, 0, 12, 0}))
		g := routerTo(13, 14)
		g.data = ref.BVLC(0x0B, ref.Cat(ref.NPDU(&ref.Addr{Net: 65535}, &ref.Addr{Net: 99, Adr: []byte{3}}, 255, false, true, 0), []byte{1, 0, 13, 0, 14}))
		f := routerTo(15)
		f.data = ref.Forwarded(ipDevA, bacPort, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{1, 0, 15}))
		e := netIs(16)
		e.data = ref.Forwarded(ipDevA, bacPort, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x13, 0, 16, 1}))
		hs = append(hs, h, g, f, e)
		for _, x := range []struct {
			what string
			data []byte
		}{
			{"a question for a network", netMsg(0, []byte{0, 7})}, {"a question for the number", netMsg(0x12, nil)}, {"a reject", netMsg(3, []byte{1, 0, 7})},
			{"router busy", netMsg(4, []byte{0, 7})}, {"router available", netMsg(5, []byte{0, 7})}, {"could be router", netMsg(2, []byte{0, 7, 1})},
			{"a proprietary message", netMsg(0x81, []byte{0, 7, 0, 7})}, {"half a number", netMsg(0x13, []byte{7})},
			{"rubbish", []byte{0x81, 0x0B, 0, 7, 1, 0x80, 0x13}},
		} {
			hs = append(hs, &heard{what: x.what, from: ipOther, port: bacPort, data: x.data})
		}
		return hs
	}
	xp.Add(&xp.Unit{Prop: "P11", Name: "announcements", Weight: 3, Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &nsearch{router: mcrt.Choose(2, "search") == 1}
		gap := gaps[mcrt.Choose(len(gaps), "gap")]
		var hs []*heard
		at := time.Duration(0)
		for i := 0; i < 3; i++ {
			al := alphabet()
			k := mcrt.Choose(len(al)+1, "message")
			if k == 0 {
				break
			}
			at += gap
			hs = append(hs, al[k-1])
			w.hear(at, al[k-1])
		}
		w.other = func(m *wire) {
			if asked(m) != s.router {
				mcrt.Fail("the wrong question: %v", m.p)
			}
		}
		do(w, s)
		judge(s, hs)
		mcrt.Log("%d of %d", len(s.got), len(hs))
	}})
	// announcements of up to as many networks as fit
	xp.Add(&xp.Unit{Prop: "P11", Name: "long-lists", Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &nsearch{router: true}
		n := []int{1, 2, 3, 4, 16, 100, 127, 128, 255, 256, 700, 740}[mcrt.Choose(12, "networks")]
		first := []int{1, 200, 65534}[mcrt.Choose(3, "first")]
		down := mcrt.Choose(2, "order") == 1 || first == 65534
		var nets []uint16
		for i := 0; i < n; i++ {
			x := first + i
			if down {
				if x = first - i; x < 1 {
					x = 65535 + x - 1
				}
			}
			nets = append(nets, uint16(x))
		}
		var hs []*heard
		w.other = func(m *wire) {
			asked(m)
			h := routerTo(nets...)
			hs = append(hs, h)
			w.hear(0, h)
		}
		do(w, s)
		judge(s, hs)
		if len(s.got) != n {
			mcrt.Fail("an announcement of %d networks gives %d", n, len(s.got))
		}
		mcrt.Log("%d", n)
	}})
	// very many announcements, in one search and over the life of the client
	xp.Add(&xp.Unit{Prop: "P11", Name: "many", Cfg: bigCfg, Body: func() {
		w := newCW()
		router := mcrt.Choose(2, "search") == 1
		n := []int{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025}[mcrt.Choose(13, "announcements")]
		each := []int{1, 2, 100, 700}[mcrt.Choose(4, "networks in each")]
		lap := mcrt.Choose(2, "overlapping") == 1
		if each == 700 && n > 65 || each == 100 && n > 300 || !router && each > 2 {
			return
		}
		var hs []*heard
		x := 0
		w.other = func(m *wire) {
			asked(m)
			for i := 0; i < n; i++ {
				h := netIs(uint16(x%65534 + 1))
				if router {
					var nets []uint16
					for j := 0; j < each; j++ {
						nets = append(nets, uint16((x+j)%65534+1))
					}
					h = routerTo(nets...)
				}
				if x += each; lap {
					x -= each / 2
				}
				hs = append(hs, h)
				w.hear(0, h)
			}
		}
		for i := 0; i < 3; i++ {
			hs = nil
			s := &nsearch{router: router}
			do(w, s)
			judge(s, hs)
		}
		mcrt.Log("%d", n)
	}})
	// announcements in every envelope, one for every hop count
	xp.Add(&xp.Unit{Prop: "P11", Name: "envelopes", Cfg: bigCfg, Body: func() {
		w := newCW()
		s := &nsearch{router: mcrt.Choose(2, "search") == 1}
		e := chooseEnvelope(true)
		var hs []*heard
		w.other = func(m *wire) {
			for hop := 0; hop < 256; hop++ {
				n := uint16(1 + hop*257%65534)
				h := &heard{from: ipOther, port: bacPort, nets: []uint16{n}, what: fmt.Sprintf("network number %d in the envelope %v", n, e)}
				body := []byte{0x13, byte(n >> 8), byte(n), byte(hop % 2)}
				if s.router {
					h.router, h.nets = true, []uint16{n, n + 300}
					body = []byte{1, byte(n >> 8), byte(n), byte((n + 300) >> 8), byte(n + 300)}
				}
				h.data = e.wrap(ipDevA, bacPort, byte(hop), body)
				hs = append(hs, h)
				w.hear(time.Duration(hop/100)*time.Millisecond, h)
			}
		}
		do(w, s)
		judge(s, hs)
		mcrt.Log("%d", len(s.got))
	}})
	xp.Add(&xp.Unit{Prop: "P11", Name: "timing", Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &nsearch{router: mcrt.Choose(2, "search") == 1}
		var hs []*heard
		at := time.Duration(0)
		for i := 0; i < 7; i++ {
			g := []time.Duration{1999, 0, 2001, 1000}[mcrt.Choose(4, "gap")] * time.Millisecond
			if g == 2001*time.Millisecond && i > 0 && mcrt.Choose(2, "stop") == 0 {
				break
			}
			at += g + time.Duration(i)*time.Microsecond
			h := netIs(uint16(4 + i))
			if s.router {
				h = routerTo(uint16(4+i), uint16(100+i))
			}
			hs = append(hs, h)
			w.hear(at, h)
		}
		do(w, s)
		judge(s, hs)
		mcrt.Log("%d of %d in %v", len(s.got), len(hs), s.t1-s.t0)
	}})
	together := func(third bool, routers ...bool) func() {
		return func() {
			w := newCW()
			var hs []*heard
			var sw *search
			var ss []*nsearch
			req := 0
			w.other = func(m *wire) {
				req++
				if !m.network {
					sw.own = req
					h := announce(7, viaDirect)
					h.req = req
					hs = append(hs, h)
					w.hear(0, h)
					return
				}
				r := asked(m)
				for _, s := range ss {
					if s.router == r {
						s.own = req
					}
				}
				n := 1 + mcrt.Choose(2, "answers")
				for i := 0; i < n; i++ {
					h := netIs(uint16(5 + i))
					if r {
						h = routerTo(uint16(7-i), 12)
					}
					h.req = req
					hs = append(hs, h)
					w.hear(0, h)
				}
			}
			for _, r := range routers {
				ss = append(ss, &nsearch{router: r})
			}
			if third {
				sw = &search{opts: rangeOpts[1]}
			}
			for i, s := range ss {
				s := s
				w.hs = append(w.hs, mcrt.GoHarness(fmt.Sprintf("search %d", i), func() { do(w, s) }))
			}
			if third {
				w.hs = append(w.hs, mcrt.GoHarness("device search", func() { sw.do(w) }))
			}
			w.join()
			for _, s := range ss {
				judge(s, hs)
			}
			if third {
				sw.judge(hs)
			}
			mcrt.Log("%d", len(ss[0].got))
		}
	}
	xp.Add(&xp.Unit{Prop: "P11", Name: "number-and-router", Weight: 2, Cfg: cfg, Quick: 3, Deep: 5, Body: together(false, false, true)})
	xp.Add(&xp.Unit{Prop: "P11", Name: "two-numbers", Weight: 2, Cfg: cfg, Quick: 3, Deep: 5, Body: together(false, false, false)})
	xp.Add(&xp.Unit{Prop: "P11", Name: "with-devices", Weight: 2, Cfg: cfg, Quick: 3, Deep: 5, Body: together(true, true)})
}
