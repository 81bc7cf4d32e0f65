package main

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// An envelope is a way in which a message of another station can be wrapped. What it says does not depend on that.
type envelope struct {
	fn      byte // 4: forwarded by a BBMD
	dst     *ref.Addr
	src     *ref.Addr
	prio    byte
	reply   bool // the sender expects a reply (to what is none)
	network bool
}

func chooseEnvelope(network bool) envelope {
	e := envelope{network: network}
	e.fn = []byte{0x0A, 0x0B, 4}[mcrt.Choose(3, "function")]
	e.dst = []*ref.Addr{{Net: 65535}, nil, {Net: 9, Adr: []byte{1}}}[mcrt.Choose(3, "destination")]
	e.src = []*ref.Addr{nil, {Net: 7, Adr: []byte{3}}, {Net: 65534, Adr: []byte{192, 168, 0, 1, 0xBA, 0xC0}}, {Net: 1, Adr: []byte{0, 0}}, {Net: 256, Adr: []byte{1, 2, 3, 4, 5, 6, 7}}}[mcrt.Choose(5, "source")]
	e.prio = byte(mcrt.Choose(4, "priority"))
	e.reply = mcrt.Choose(2, "expecting reply") == 1
	return e
}

// wrap is a message in the envelope, from ip and port, with a hop count.
func (e envelope) wrap(ip ip4, port int, hop byte, body []byte) []byte {
	b := ref.Cat(ref.NPDU(e.dst, e.src, hop, e.reply, e.network, e.prio), body)
	if e.fn == 4 {
		return ref.Forwarded(ip, uint16(port), b)
	}
	return ref.BVLC(e.fn, b)
}

func (e envelope) String() string {
	return fmt.Sprintf("(function %d, to %v, from %v, priority %d, expecting reply %v)", e.fn, e.dst, e.src, e.prio, e.reply)
}

func init() {
	// an acknowledgement or error in every envelope with every hop count
	xp.Add(&xp.Unit{Prop: "P07", Name: "envelopes", Cfg: rowCfg, Body: func() {
		w := newCW()
		e := chooseEnvelope(false)
		kind := mcrt.Choose(4, "kind")
		for hop := 0; hop < 256; hop++ {
			class, code := uint32(hop%7), uint32(hop+1)
			w.reply = func(k *call, attempt int, m *wire) {
				pdu := k.apduOK(m.id)
				if hop%2 == 1 {
					pdu = ref.ErrorPDU(m.id, k.svc, class, code)
				}
				from := k.ip
				if e.fn == 4 {
					from = ipOther
				}
				w.inject(from, e.wrap(k.ip, bacPort, byte(hop), pdu))
			}
			k := w.newCall(kind, ipDevA, hop)
			k.do(w.cli)
			if hop%2 == 0 && k.err != nil || hop%2 == 1 && !names(k.err, class, code) {
				mcrt.Fail("%s answered in the envelope %v with hop count %d: %v (sent %d times)", k.name, e, hop, k.err, len(k.sends))
			}
			k.values()
			w.calls = nil
			if e.dst == nil && hop == 3 {
				break
			}
		}
		mcrt.Log("ok")
	}})
	// announcements of devices, one for every hop count
	xp.Add(&xp.Unit{Prop: "P10", Name: "envelopes", Cfg: bigCfg, Body: func() {
		w := newCW()
		e := chooseEnvelope(false)
		var hs []*heard
		w.other = func(m *wire) {
			for hop := 0; hop < 256; hop++ {
				a := &announced{inst: uint32(1 + hop), apdu: 480 + uint32(hop), seg: uint32(hop % 4), vendor: uint32(hop), ip: ip4{10, 0, 0, byte(20 + hop%100)}, port: bacPort + hop}
				if e.src != nil {
					a.net, a.adr = e.src.Net, e.src.Adr
				}
				h := &heard{what: fmt.Sprintf("announcement of %d in the envelope %v", a.inst, e), from: a.ip, port: a.port, dev: a}
				h.data = e.wrap(a.ip, a.port, byte(hop), ref.IAm(a.inst, a.apdu, a.seg, a.vendor))
				if e.fn == 4 {
					h.from, h.port = ipOther, bacPort
				}
				hs = append(hs, h)
				w.hear(time.Duration(hop/100)*time.Millisecond, h)
			}
		}
		s := &search{opts: rangeOpts[0]}
		s.do(w)
		s.judge(hs)
		if len(s.devs) != 256 {
			mcrt.Fail("of 256 devices in the envelope %v %d are found", e, len(s.devs))
		}
		mcrt.Log("%d", len(s.devs))
	}})
	// announcements of one device that contradict each other: it is one device all the same, and like one of them
	xp.Add(&xp.Unit{Prop: "P10", Name: "contradictions", Cfg: plainCfg, Body: func() {
		w := newCW()
		var hs []*heard
		n := 2 + mcrt.Choose(2, "announcements")
		inst := []uint32{7, 0, maxInst}[mcrt.Choose(3, "device")]
		for i := 0; i < n; i++ {
			a := &announced{inst: inst, ip: ip4{10, 0, 0, byte(20 + i)}, port: bacPort}
			a.vendor = []uint32{0, 5, 65535}[mcrt.Choose(3, "vendor")]
			a.apdu = []uint32{0, 480, 1476}[mcrt.Choose(3, "size")]
			e := envelope{fn: 0x0B}
			switch what := mcrt.Choose(4, "way"); what {
			case 1: // from where the first came from
				a.ip = ip4{10, 0, 0, 20}
			case 2:
				e.src = &ref.Addr{Net: 7, Adr: []byte{3}}
			case 3:
				e.fn, a.seg = 4, 3
			}
			if e.src != nil {
				a.net, a.adr = e.src.Net, e.src.Adr
			}
			h := &heard{what: fmt.Sprintf("announcement %+v", *a), from: a.ip, port: a.port, dev: a}
			h.data = e.wrap(a.ip, a.port, 0, ref.IAm(a.inst, a.apdu, a.seg, a.vendor))
			if e.fn == 4 {
				h.from = ipOther
			}
			hs = append(hs, h)
			w.hear(time.Duration(i+1)*time.Millisecond, h)
		}
		s := &search{opts: rangeOpts[0]}
		s.do(w)
		s.judge(hs)
		mcrt.Log("%d", len(s.devs))
	}})
}
