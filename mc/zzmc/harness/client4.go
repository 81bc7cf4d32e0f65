package main

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P09: any datagram

// frames are valid datagrams of every kind.
func frames() [][]byte {
	np := func() []byte { return ref.NPDU(nil, nil, 0, false, false, 0) }
	routed := func() []byte {
		return ref.NPDU(&ref.Addr{Net: 65535}, &ref.Addr{Net: 7, Adr: []byte{3}}, 255, false, false, 0)
	}
	o := btypes.ObjectID{Type: 2, Instance: 9}
	p := ref.Prop{Type: 85, Index: ref.ArrayAll, Value: float32(1.5)}
	apdus := [][]byte{
		ref.IAm(7, 480, 3, 5),
		{0x10, 8},
		{0x10, 8, 0x09, 5, 0x19, 10},
		ref.Cat([]byte{0x30, 200, 12}, ref.ReadPropertyAck(o, p)),
		ref.Cat([]byte{0x30, 200, 14}, ref.ReadMultipleAck([]ref.Obj{{ID: o, Props: []ref.Prop{p, {Type: 77, Index: 3, Value: "ab"}}}})),
		{0x20, 200, 15},
		ref.ErrorPDU(200, 12, 2, 31),
		ref.ErrorPDU0(200, 16, 2, 31),
		{0x60, 200, 9}, {0x71, 200, 4}, {0x41, 200, 0, 1},
		ref.Cat([]byte{0x3C, 200, 0, 1, 12}, ref.ReadPropertyAck(o, p)),
		ref.Cat(ref.Confirmed(200, 12), ref.ReadPropertyReq(o, p)),
		{0x08, 0x75, 200, 0, 1, 12, 1},
		ref.Cat([]byte{0x10, 1}, ref.App(o), ref.App(o), ref.App("x")),
	}
	var out [][]byte
	for i, a := range apdus {
		out = append(out, ref.BVLC(0x0A, ref.Cat(np(), a)))
		switch i % 3 {
		case 0:
			out = append(out, ref.BVLC(0x0B, ref.Cat(routed(), a)))
		case 1:
			out = append(out, ref.Forwarded(ipDevA, bacPort, ref.Cat(np(), a)))
		case 2:
			out = append(out, ref.Forwarded(ipDevA, bacPort, ref.Cat(routed(), a)))
		}
	}
	out = append(out, ref.Forwarded(ipDevA, bacPort, ref.Cat(np(), apdus[0])))
	for _, m := range [][]byte{{0x13, 0, 7, 1}, {1, 0, 7, 0, 8}, {1, 0, 7}, {0}, {0, 0, 7}, {0x12}, {3, 1, 0, 7}, {0x81, 0, 5, 1}, {6, 1, 0, 7, 1, 0}} {
		out = append(out, ref.BVLC(0x0B, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), m)))
	}
	out = append(out, ref.Forwarded(ipDevA, bacPort, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{1, 0, 7, 0, 8})))
	out = append(out, []byte{0x81, 0, 0, 6, 0, 0}, []byte{0x81, 3, 0, 4}, []byte{0x81, 5, 0, 6, 0, 60}, []byte{0x81, 9, 0, 6, 1, 2})
	return out
}

// outcome is what a client makes of messages while it waits for everything it can wait for.
func outcome(msgs func(w *cw, id byte)) string {
	w := newCW()
	k := w.newCall(kRead, ipDevA, 3)
	w.spawn(k)
	s := &search{opts: rangeOpts[0]}
	var nums []*btypes.Address
	var routers *[]btypes.Address
	w.hs = append(w.hs,
		mcrt.GoHarness("devices", func() { s.do(w) }),
		mcrt.GoHarness("numbers", func() { nums = w.cli.WhatIsNetworkNumber() }),
		mcrt.GoHarness("routers", func() { routers = w.cli.WhoIsRouterToNetwork() }))
	settle()
	if len(k.sends) != 1 {
		mcrt.Fail("%s was sent %d times", k.name, len(k.sends))
	}
	msgs(w, k.sends[0].id)
	w.join()
	out := fmt.Sprintf("read: %v %v after %v; devices: %+v; numbers:", k.got, k.err, k.t1-k.t0, s.devs)
	for _, a := range nums {
		out += fmt.Sprintf(" %d", a.Net)
	}
	out += fmt.Sprintf("; routers: %v", routers)
	w.fresh()
	w.cli.Close()
	settle()
	return out
}

// hits: the datagram may be taken for an answer under the identifier.
func hits(b []byte, id byte) bool {
	for _, x := range b {
		if x == id {
			return true
		}
	}
	return false
}

// strings of a small alphabet
func word(alpha []byte, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, alpha[mcrt.Choose(len(alpha), "byte")])
	}
	return b
}

func init() {
	fs := frames()
	// alive: the client works as before after many datagrams, the last of which is kept for the report
	batch := func(each func(give func(b []byte))) {
		w := newCW()
		n := 0
		mcrt.DirectMode(true)
		each(func(b []byte) {
			n++
			w.inject(ipOther, b)
			if n%16 == 0 {
				mcrt.Sleep(time.Nanosecond)
			}
		})
		mcrt.Sleep(time.Nanosecond)
		w.fresh()
		mcrt.Log("ok")
	}
	// all short datagrams
	xp.Add(&xp.Unit{Prop: "P09", Name: "short", Cfg: plainCfg, Body: func() {
		n := mcrt.Choose(3, "length")
		first := byte(0x81)
		if n == 2 && mcrt.Choose(2, "type") == 1 {
			first = byte(mcrt.Choose(256, "first"))
		}
		batch(func(give func([]byte)) {
			switch n {
			case 0:
				give(nil)
				for x := 0; x < 256; x++ {
					give([]byte{byte(x)})
				}
			case 1:
				for x := 0; x < 65536; x += 16 {
					give([]byte{byte(x >> 8), byte(x)})
				}
			case 2:
				for x := 0; x < 256; x++ {
					give([]byte{first, byte(x), 0, 3})
				}
			}
		})
	}})
	// every content behind a link header, over an alphabet of telling bytes
	xp.Add(&xp.Unit{Prop: "P09", Name: "content", Weight: 2, Cfg: plainCfg, Body: func() {
		fn := []byte{0x0A, 4, 0x0B, 0}[mcrt.Choose(4, "function")]
		alpha := []byte{0, 1, 4, 7, 0x10, 0x20, 0x28, 0x30, 0x50, 0x80, 0x88, 0xA8, 0xFF}
		head := []byte{0, 1, 1, 1, 1, 1}[:[]int{0, 6}[map[byte]int{4: 1}[fn]]]
		n := 3
		if xp.Deep {
			n = 4
		}
		pre := word(alpha, n)
		tail := [][]byte{nil, {7}, {0, 7, 1}, {0, 0xC4, 2, 0, 0, 7, 0x21, 5, 0x91, 3, 0x21, 5}}
		batch(func(give func([]byte)) {
			for _, a := range alpha {
				for _, b := range alpha {
					for _, t := range tail {
						give(ref.BVLC(fn, ref.Cat(head, pre, []byte{a, b}, t)))
					}
				}
			}
		})
	}})
	// every change of one byte of every frame; every cut and every extension, with the length field kept or adapted
	xp.Add(&xp.Unit{Prop: "P09", Name: "changed", Weight: 2, Cfg: plainCfg, Body: func() {
		f := fs[mcrt.Choose(len(fs), "frame")]
		pos := mcrt.Choose(len(f), "position")
		batch(func(give func([]byte)) {
			for x := 0; x < 256; x++ {
				b := append([]byte{}, f...)
				b[pos] = byte(x)
				give(b)
			}
			give(f[:pos])
			if pos >= 4 {
				b := append([]byte{}, f[:pos]...)
				b[2], b[3] = 0, byte(pos)
				give(b)
			}
			for _, x := range []byte{0, 0x3E, 0xFF} {
				b := append([]byte{}, f[:pos]...)
				b = append(append(b, x), f[pos:]...)
				give(b)
				if pos >= 4 {
					c := append([]byte{}, b...)
					c[3]++
					give(c)
				}
			}
		})
	}})
	{
		// two bytes of a frame at once
		xp.Add(&xp.Unit{Prop: "P09", Name: "changed-twice", Weight: 3, Cfg: plainCfg, Body: func() {
			f := fs[mcrt.Choose(len(fs), "frame")]
			pos := mcrt.Choose(len(f), "position")
			vals := []byte{0, 1, 4, 7, 0x0E, 0x0F, 0x10, 0x1E, 0x20, 0x30, 0x50, 0x7F, 0x80, 0x81, 0xFE, 0xFF}
			if !xp.Deep {
				vals = []byte{0, 1, 4, 0x0F, 0x3E, 0x80, 0xFE, 0xFF}
			}
			v := vals[mcrt.Choose(len(vals), "value")]
			batch(func(give func([]byte)) {
				for q := pos + 1; q < len(f); q++ {
					for _, x := range vals {
						b := append([]byte{}, f...)
						b[pos], b[q] = v, x
						give(b)
					}
				}
			})
		}})
	}
	// the same while a request and a search are open: the true answers are used all the same
	xp.Add(&xp.Unit{Prop: "P09", Name: "busy", Weight: 3, Cfg: plainCfg, Body: func() {
		f := fs[mcrt.Choose(len(fs), "frame")]
		pos := mcrt.Choose(len(f), "position")
		w := newCW()
		// (the identifiers of the first requests appear in many messages)
		k := w.newCall(mcrt.Choose(4, "kind"), ipDevA, 3)
		w.spawn(k)
		settle()
		id := k.sends[0].id
		mcrt.DirectMode(true)
		for x := 0; x < 256; x++ {
			b := append([]byte{}, f...)
			b[pos] = byte(x)
			if hits(b, id) && (b[1] == 4 || b[1] == 0x0A || b[1] == 0x0B) {
				continue
			}
			w.inject(ipOther, b)
			if x%16 == 0 {
				mcrt.Sleep(time.Nanosecond)
			}
		}
		mcrt.Sleep(time.Nanosecond)
		w.inject(k.ip, plain(k.apduOK(id)))
		mcrt.DirectMode(false)
		w.join()
		if k.err != nil || len(k.sends) != 1 {
			mcrt.Fail("%s, answered after variants of % x (position %d): %v (sent %d times)", k.name, f, pos, k.err, len(k.sends))
		}
		k.values()
		w.fresh()
		mcrt.Log("ok")
	}})
	// pairs of frames, one cut or not, in every order of processing up to the bound
	xp.Add(&xp.Unit{Prop: "P09", Name: "pairs", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1}, Quick: 2, Deep: 3, Body: func() {
		w := newCW()
		a, b := fs[mcrt.ChooseFree(len(fs), "frame")], fs[mcrt.ChooseFree(len(fs), "frame")]
		if mcrt.ChooseFree(2, "cut") == 1 {
			a = a[:(len(a)+3)/2]
		}
		w.inject(ipOther, a)
		w.inject(ipDevB, b)
		w.fresh()
		mcrt.Log("ok")
	}})
	// a forwarded message is worth as much as the message itself
	np := func(src bool) []byte {
		if src {
			return ref.NPDU(nil, &ref.Addr{Net: 7, Adr: []byte{3}}, 0, false, false, 0)
		}
		return ref.NPDU(nil, nil, 0, false, false, 0)
	}
	nm := func() []byte { return ref.NPDU(nil, nil, 0, false, true, 0) }
	content := []func(id byte, src bool) []byte{
		func(id byte, src bool) []byte { return ref.Cat(np(src), ref.IAm(7, 480, 3, 5)) },
		func(id byte, src bool) []byte { return ref.Cat(np(src), ref.IAm(4194303, 1476, 0, 300)) },
		func(id byte, src bool) []byte {
			return ref.Cat(np(src), []byte{0x30, id, 12}, ref.ReadPropertyAck(btypes.ObjectID{Type: 2, Instance: 4}, ref.Prop{Type: 77, Index: ref.ArrayAll, Value: "name 3"}))
		},
		func(id byte, src bool) []byte { return ref.Cat(np(src), ref.ErrorPDU(id, 12, 2, 31)) },
		func(id byte, src bool) []byte { return ref.Cat(np(src), []byte{0x60, id, 1}) },
		func(id byte, src bool) []byte { return ref.Cat(np(src), []byte{0x20, id, 12}) },
		func(id byte, src bool) []byte { return ref.Cat(np(src), []byte{0x30, id, 12, 0x0C}) },
		func(id byte, src bool) []byte { return ref.Cat(nm(), []byte{0x13, 0, 7, 1}) },
		func(id byte, src bool) []byte { return ref.Cat(nm(), []byte{1, 0, 7, 1, 8}) },
		func(id byte, src bool) []byte { return ref.Cat(nm(), []byte{1, 255, 254}) },
		func(id byte, src bool) []byte { return ref.Cat(nm(), []byte{0x81, 0, 7, 1, 8}) },
		func(id byte, src bool) []byte { return ref.Cat(np(src), []byte{0x10, 8}) },
		func(id byte, src bool) []byte { return ref.Cat(np(src), []byte{0x10, 0, 0xC4}) },
		func(id byte, src bool) []byte { return []byte{1} },
	}
	xp.Add(&xp.Unit{Prop: "P09", Name: "forwarded", Cfg: plainCfg, Body: func() {
		n := 1 + mcrt.Choose(2, "messages")
		var cs []func(id byte, src bool) []byte
		var src []bool
		var from []ip4
		var fns []byte
		for i := 0; i < n; i++ {
			cs = append(cs, content[mcrt.Choose(len(content), "content")])
			src = append(src, mcrt.Choose(2, "source") == 1)
			from = append(from, []ip4{ipDevA, {192, 168, 255, 1}, {0, 1, 0, 2}}[mcrt.Choose(3, "from")])
			fns = append(fns, []byte{0x0A, 0x0B}[i%2])
		}
		run := func(fwd bool) string {
			return outcome(func(w *cw, id byte) {
				for i, c := range cs {
					b := c(id, src[i])
					if fwd {
						w.injectAt(time.Duration(i)*time.Millisecond, ip4{10, 0, 0, 250}, ref.Forwarded(from[i], bacPort, b))
					} else {
						w.injectAt(time.Duration(i)*time.Millisecond, from[i], ref.BVLC(fns[i], b))
					}
				}
			})
		}
		a, b := run(false), run(true)
		if a != b {
			mcrt.Fail("the messages % x have another effect when they are forwarded:\n%s\n%s", cs[0](1, src[0]), a, b)
		}
		mcrt.Log("%d", len(a))
	}})
	// other protocols and other functions of the link layer, whatever they carry
	xp.Add(&xp.Unit{Prop: "P09", Name: "other-links", Weight: 2, Cfg: plainCfg, Body: func() {
		v := mcrt.Choose(512, "header")
		typ, fn := byte(v), byte(0x0A)
		if v >= 256 {
			typ, fn = 0x81, byte(v)
			if fn == 4 || fn == 0x0A || fn == 0x0B {
				return
			}
		} else {
			if typ == 0x81 {
				return
			}
			fn = []byte{0x0A, 0x0B, 4}[mcrt.Choose(3, "function")]
		}
		run := func(send bool) string {
			return outcome(func(w *cw, id byte) {
				if !send {
					return
				}
				for i, c := range content {
					b := ref.Cat(ref.BVLC(fn, c(id, i%2 == 1)))
					if fn == 4 {
						b = ref.Forwarded(ipDevA, bacPort, c(id, i%2 == 1))
					}
					b[0] = typ
					w.injectAt(time.Duration(i)*time.Millisecond, ipDevA, b)
				}
			})
		}
		if a, b := run(false), run(true); a != b {
			mcrt.Fail("messages with the header %02x %02x have an effect:\n%s\n%s", typ, fn, a, b)
		}
		mcrt.Log("ignored")
	}})
	// the largest datagrams, and larger ones
	large := func() {
		maxPDU := []uint16{0, 50, 480, 1476, 1497, 2048}[mcrt.Choose(6, "MaxPDU")]
		w := &cw{}
		mcrt.DirectMode(true)
		cli, err := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "10.0.0.5/24", Port: bacPort, MaxPDU: maxPDU})
		if err != nil {
			mcrt.Fail("NewClient: %v", err)
		}
		w.start(cli)
		way := mcrt.Choose(4, "way")
		size := []int{480, 1024, 1470, 1475, 1476}[mcrt.Choose(5, "size")] // of the APDU
		k := w.newCall(kRead, ipDevA, 3)
		for n := size - 40; len(k.apduOK(1)) != size; n++ {
			k.objs[0].Props[0].Value = strings.Repeat("x", n)
		}
		junk := make([]byte, []int{0, 1473, 1497, 1498, 1499, 2048, 9000, 65507}[mcrt.Choose(8, "rubbish")])
		copy(junk, []byte{0x81, 0x0A, byte(len(junk) >> 8), byte(len(junk)), 1, 0, 0x30})
		w.reply = func(k *call, attempt int, m *wire) {
			w.inject(ipOther, junk)
			b := ref.NPDU(nil, nil, 0, false, false, 0)
			if way&1 != 0 {
				b = ref.NPDU(&ref.Addr{Net: 65535, Adr: []byte{1, 2, 3, 4, 5, 6, 7}}, &ref.Addr{Net: 7, Adr: []byte{1, 2, 3, 4, 5, 6, 7}}, 255, false, false, 0)
			}
			b = ref.Cat(b, k.apduOK(m.id))
			if way&2 != 0 {
				w.inject(ipOther, ref.Forwarded(ipDevA, bacPort, b))
			} else {
				w.inject(ipDevA, ref.BVLC(0x0A, b))
			}
		}
		k.do(w.cli)
		if k.err != nil {
			mcrt.Fail("an answer of %d bytes (way %d, MaxPDU %d): %v", size, way, maxPDU, k.err)
		}
		k.values()
		mcrt.Log("%d", size)
	}
	for _, prop := range []string{"P07", "P09"} {
		xp.Add(&xp.Unit{Prop: prop, Name: "large", Cfg: plainCfg, Body: large})
	}
	// senders of every kind of address and port
	xp.Add(&xp.Unit{Prop: "P09", Name: "senders", Cfg: plainCfg, Body: func() {
		w := newCW()
		f := fs[mcrt.Choose(len(fs), "frame")]
		port := []int{1, bacPort, 65535}[mcrt.Choose(3, "port")]
		switch k := mcrt.Choose(7, "address"); k {
		case 0:
			mcrt.Inject6(w.sock, net.ParseIP("fe80::1"), port, f)
		case 1:
			mcrt.Inject6(w.sock, net.ParseIP("2001:db8::5"), port, f)
		default:
			mcrt.Inject(w.sock, []ip4{{127, 0, 0, 1}, {10, 0, 0, 5}, {0, 0, 0, 0}, {255, 255, 255, 255}, {224, 0, 0, 1}}[k-2], port, f)
		}
		settle()
		w.fresh()
		mcrt.Log("ok")
	}})
}

// ---------------------------------------------------------------- P13: the envelope

// destination is a device in one of the ways a caller can describe it.
func destination() (btypes.Device, ip4) {
	ip := []ip4{{10, 0, 0, 20}, {192, 168, 255, 254}, {1, 2, 3, 4}}[mcrt.Choose(3, "ip")]
	port := []int{bacPort, 1, 255, 256, 65535}[mcrt.Choose(5, "port")]
	netNo := []int{0, 1, 255, 256, 65534}[mcrt.Choose(5, "network")]
	dev := simpleDevice(ip, 77)
	if mcrt.Choose(2, "constructed") == 1 {
		mac := []int{0, 1, 127, 254}[mcrt.Choose(4, "mac")]
		d, err := btypes.NewDevice(&btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 77}, Ip: fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]), Port: port, NetworkNumber: netNo, MacMSTP: mac, MaxApdu: 1476})
		if err != nil {
			mcrt.Fail("NewDevice: %v", err)
		}
		want := []byte{ip[0], ip[1], ip[2], ip[3], byte(port >> 8), byte(port)}
		if string(d.Addr.Mac) != string(want) || d.Addr.Net != uint16(netNo) || netNo != 0 && (len(d.Addr.Adr) != 1 || int(d.Addr.Adr[0]) != mac) || d.ID != (btypes.ObjectID{Type: 8, Instance: 77}) {
			mcrt.Fail("NewDevice(%d.%d.%d.%d, %d, %d, %d) has the address %+v", ip[0], ip[1], ip[2], ip[3], port, netNo, mac, d.Addr)
		}
		return *d, ip
	}
	dev.Addr.Mac[4], dev.Addr.Mac[5] = byte(port>>8), byte(port)
	if netNo != 0 {
		dev.Addr.Net = uint16(netNo)
		n := []int{1, 2, 6, 7}[mcrt.Choose(4, "station")]
		dev.Addr.Adr = []byte{9, 0, 255, 1, 2, 3, 4}[:n]
		dev.Addr.Len = []uint8{0, uint8(n), 1}[mcrt.Choose(3, "length given")]
	}
	if mcrt.Choose(2, "mac length") == 1 && len(dev.Addr.Adr) > 0 {
		dev.Addr.MacLen = 0
	}
	return dev, ip
}

func init() {
	xp.Add(&xp.Unit{Prop: "P13", Name: "requests", Weight: 2, Cfg: plainCfg, Body: func() {
		w := newCW()
		kind := mcrt.Choose(4, "kind")
		dev, ip := destination()
		k := w.newCall(kind, ip, 3)
		k.dev, k.dest = dev, true
		twice := mcrt.Choose(2, "repeated") == 1
		w.reply = func(k *call, attempt int, m *wire) {
			if twice && attempt == 0 {
				return
			}
			b := ref.NPDU(nil, nil, 0, false, false, 0)
			if m.dst != nil {
				b = ref.NPDU(nil, m.dst, 0, false, false, 0)
			}
			w.inject(k.ip, ref.BVLC(0x0A, ref.Cat(b, k.apduOK(m.id))))
		}
		before := fmt.Sprintf("%+v", dev)
		k.do(w.cli)
		if len(k.sends) < 1 || k.err != nil && !(twice && len(k.sends) == 1) {
			mcrt.Fail("%s to %+v: %v, sent %d times", k.name, dev.Addr, k.err, len(k.sends))
		}
		k.values()
		if s := fmt.Sprintf("%+v", dev); s != before {
			mcrt.Fail("%s changes the device of its caller from %s to %s", k.name, before, s)
		}
		mcrt.Log("%d", len(k.sends[0].p.Data))
	}})
	// numbers of networks and stations that no address can hold are refused, not cut
	xp.Add(&xp.Unit{Prop: "P13", Name: "numbers", Cfg: plainCfg, Body: func() {
		numbers := []int{-1 << 32, -65536, -256, -255, -1, 0, 1, 77, 128, 254, 255, 256, 257, 333, 511, 512, 65279, 65534, 65535, 65536, 65537, 65613, 131071, 1 << 24, 1 << 32, 1<<32 + 1}
		netNo, mac := numbers[mcrt.Choose(len(numbers), "network")], numbers[mcrt.Choose(len(numbers), "mac")]
		d, err := btypes.NewDevice(&btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 77}, Ip: "10.0.0.20", Port: bacPort, NetworkNumber: netNo, MacMSTP: mac, MaxApdu: 1476})
		possible := netNo >= 0 && netNo <= 65535 && mac >= 0 && mac <= 255
		if !possible {
			if err == nil {
				mcrt.Fail("a device of network %d, station %d gets the address %+v", netNo, mac, d.Addr)
			}
			mcrt.Log("refused")
			return
		}
		if err != nil || d.NetworkNumber != netNo || d.MacMSTP != mac {
			mcrt.Fail("a device of network %d, station %d becomes %+v, %v", netNo, mac, d, err)
		}
		if netNo == 65535 {
			return
		}
		w := newCW()
		k := w.newCall(mcrt.Choose(4, "kind"), ip4{10, 0, 0, 20}, 3)
		k.dev, k.dest = *d, true
		w.reply = func(k *call, attempt int, m *wire) {
			if (m.dst != nil) != (netNo != 0) || m.dst != nil && (int(m.dst.Net) != netNo || len(m.dst.Adr) != 1 || int(m.dst.Adr[0]) != mac) {
				mcrt.Fail("a request to network %d, station %d is addressed to %+v", netNo, mac, m.dst)
			}
			w.inject(k.ip, plain(k.apduOK(m.id)))
		}
		k.do(w.cli)
		if k.err != nil || len(k.sends) != 1 {
			mcrt.Fail("%s to network %d, station %d: %v, sent %d times", k.name, netNo, mac, k.err, len(k.sends))
		}
		k.values()
		mcrt.Log("sent")
	}})
	// simultaneous requests and searches, in every order: no datagram has anything of another
	xp.Add(&xp.Unit{Prop: "P13", Name: "at-once", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1}, Quick: 2, Deep: 3, Body: func() {
		w := newCW()
		var ks []*call
		for i := 0; i < 2; i++ {
			kind := mcrt.ChooseFree(4, "kind")
			k := w.newCall(kind, []ip4{ipDevA, ipDevB}[i], i+1)
			if mcrt.ChooseFree(2, "routed") == 1 {
				k.dev.Addr.Net, k.dev.Addr.Adr, k.dev.Addr.Len, k.dest = uint16(7+i), []byte{1, 2, 3, 4, 5, 6}[:1+5*i], uint8(1+5*i), true
			}
			ks = append(ks, k)
		}
		w.reply = func(k *call, attempt int, m *wire) { w.inject(k.ip, plain(k.apduOK(m.id))) }
		searches := 0
		w.other = func(m *wire) {
			searches++
			if m.fn != 0x0B || m.p.ToPort != bacPort || m.p.ToIP == ipDevA || m.p.ToIP == ipDevB || string(m.body) != "\x10\x08\x09\x01\x19\x07" {
				mcrt.Fail("a search is sent as %v", m.p)
			}
		}
		third := mcrt.ChooseFree(2, "search") == 1
		for _, k := range ks {
			w.spawn(k)
		}
		if third {
			w.hs = append(w.hs, mcrt.GoHarness("search", func() { w.cli.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 7}) }))
		}
		w.join()
		for _, k := range ks {
			if k.err != nil || len(k.sends) != 1 {
				mcrt.Fail("%s next to another: %v, sent %d times", k.name, k.err, len(k.sends))
			}
			k.values()
		}
		if third && searches != 1 {
			mcrt.Fail("a search is sent %d times", searches)
		}
		mcrt.Log("ok")
	}})
	// multiple requests around the size that the device accepts
	xp.Add(&xp.Unit{Prop: "P13", Name: "sizes", Weight: 2, Cfg: plainCfg, Body: func() {
		w := newCW()
		kind := []int{kReadMulti, kWriteMulti}[mcrt.Choose(2, "kind")]
		k := w.newCall(kind, ipDevA, 3)
		n := []int{1, 2, 3, 8, 9, 10, 40, 45, 50, 90, 100, 200, 300}[mcrt.Choose(13, "properties")]
		one := k.objs[0]
		objs := mcrt.Choose(2, "objects") == 1
		for i := 1; i < n; i++ {
			if objs {
				o := ref.Obj{ID: btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(100 + i)}, Props: one.Props[:1]}
				k.objs = append(k.objs, o)
			} else {
				p := one.Props[0]
				p.Index = uint32(i)
				k.objs[0].Props = append(k.objs[0].Props, p)
			}
		}
		k.body = ref.ReadMultipleReq(k.objs)
		if kind == kWriteMulti {
			k.body = ref.WriteMultipleReq(k.objs)
		}
		apdu := 4 + len(k.body)
		if mcrt.Choose(2, "routed") == 1 {
			k.dev.Addr.Net, k.dev.Addr.Adr, k.dest = 7, []byte{1, 2, 3, 4, 5, 6}, true
		}
		lim := []int{0, 1, apdu - 1, apdu, apdu + 1, apdu + 2, apdu + 40, 50, 128, 206, 480, 1024, 1476, 65535}[mcrt.Choose(14, "limit")]
		k.dev.MaxApdu = uint32(lim)
		refuse := len(k.apduOK(1)) > 1476 // the client says that it takes so much
		w.reply = func(k *call, attempt int, m *wire) {
			if refuse {
				w.inject(k.ip, plain([]byte{0x71, m.id, 4}))
			} else {
				w.inject(k.ip, plain(k.apduOK(m.id)))
			}
		}
		k.doAll(w.cli)
		if len(k.sends) > 0 && apdu > lim {
			mcrt.Fail("%s of %d bytes is sent to a device that accepts %d", k.name, apdu, lim)
		}
		if (len(k.sends) == 0 || refuse) != (k.err != nil) {
			mcrt.Fail("%s of %d bytes, limit %d: %v, sent %d times", k.name, apdu, lim, k.err, len(k.sends))
		}
		if len(k.sends) == 0 && (k.t1 != k.t0 || apdu+40 <= lim) {
			mcrt.Fail("%s of %d bytes, limit %d: %v after %v", k.name, apdu, lim, k.err, k.t1-k.t0)
		}
		k.values()
		mcrt.Log("%v", k.err == nil)
	}})
	// searches and announcements of clients in networks of every size
	xp.Add(&xp.Unit{Prop: "P13", Name: "broadcasts", Cfg: plainCfg, Body: func() {
		mcrt.DirectMode(true)
		host := []ip4{{10, 0, 0, 5}, {192, 168, 15, 200}, {172, 16, 255, 1}}[mcrt.Choose(3, "host")]
		bits := mcrt.Choose(31, "prefix") + 1
		port := []int{0, bacPort, bacPort + 1, 1000}[mcrt.Choose(4, "port")]
		text := fmt.Sprintf("%d.%d.%d.%d", host[0], host[1], host[2], host[3])
		mcrt.SetHost(host[0], host[1], host[2], host[3])
		cb := &bacnet.ClientBuilder{Ip: text, SubnetCIDR: bits, Port: port}
		switch mcrt.Choose(3, "by") {
		case 1:
			cb = &bacnet.ClientBuilder{Interface: fmt.Sprintf("%s/%d", text, bits), Port: port}
		case 2:
			mcrt.AddInterface("eth7", "fe80::1/64", fmt.Sprintf("%s/%d", text, bits))
			cb = &bacnet.ClientBuilder{Interface: "eth7", Port: port}
		}
		cli, err := bacnet.NewClient(cb)
		if err != nil {
			mcrt.Fail("NewClient(%+v): %v", *cb, err)
		}
		if port == 0 {
			port = bacPort
		}
		w := &cw{}
		w.start(cli)
		a := uint32(host[0])<<24 | uint32(host[1])<<16 | uint32(host[2])<<8 | uint32(host[3])
		a |= uint32(1)<<(32-uint(bits)) - 1
		to := ip4{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)}
		sent := 0
		w.other = func(m *wire) {
			sent++
			if m.fn != 0x0B || m.p.ToIP != to || m.p.ToPort != bacPort && m.p.ToPort != port || m.src != nil || m.reply || m.prio != 0 {
				mcrt.Fail("a search of a client at %s/%d, port %d, is sent as %v", text, bits, port, m.p)
			}
			if m.p.FromIP != host || m.p.FromPort != port {
				mcrt.Fail("a search of a client at %s/%d, port %d, is sent from %v", text, bits, port, m.p)
			}
			if m.dst != nil && (m.network || m.dst.Net == 0 || len(m.dst.Adr) != 0 || m.hop != 255) {
				mcrt.Fail("a search is sent as %v", m.p)
			}
		}
		switch mcrt.Choose(5, "search") {
		case 0:
			w.cli.WhoIs(&bacnet.WhoIsOpts{})
		case 1:
			w.cli.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 7, NetworkNumber: 300})
		case 2:
			w.cli.WhoIs(&bacnet.WhoIsOpts{GlobalBroadcast: true})
		case 3:
			w.cli.WhatIsNetworkNumber()
		case 4:
			w.cli.WhoIsRouterToNetwork()
		}
		if sent != 1 {
			mcrt.Fail("a search is sent %d times", sent)
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P13", Name: "searched-network", Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &search{opts: rangeOpts[mcrt.Choose(len(rangeOpts), "range")]}
		s.opts.NetworkNumber = []uint16{0, 1, 2, 255, 256, 65534, 65535}[mcrt.Choose(7, "network")]
		s.opts.GlobalBroadcast = mcrt.Choose(2, "global") == 1
		n := 0
		w.other = func(m *wire) {
			n++
			s.asked(m)
			if m.dst != nil && m.hop != 255 {
				mcrt.Fail("hop count %d", m.hop)
			}
		}
		s.do(w)
		if s.err != nil || n != 1 {
			mcrt.Fail("a search with %+v: %v, sent %d times", s.opts, s.err, n)
		}
		mcrt.Log("ok")
	}})
	// announcements
	type iamDest struct {
		a    btypes.Address
		bc   bool
		dst  *ref.Addr
		ip   ip4
		port int
	}
	dests := func() iamDest {
		ip := []ip4{{10, 0, 0, 255}, {10, 0, 0, 20}}[mcrt.Choose(2, "ip")]
		port := []int{bacPort, 65535}[mcrt.Choose(2, "port")]
		d := iamDest{ip: ip, port: port}
		d.a.Mac = []byte{ip[0], ip[1], ip[2], ip[3], byte(port >> 8), byte(port)}
		d.a.MacLen = 6
		if ip[3] == 255 {
			d.a.MacLen, d.bc = 0, true
		}
		if n := []uint16{0, 7, 65535}[mcrt.Choose(3, "network")]; n != 0 {
			d.a.Net = n
			d.dst = &ref.Addr{Net: n}
			d.bc = true
			if n == 7 && ip[3] != 255 {
				d.a.Adr = []byte{1, 2, 3, 4, 5, 6}[:1+5*mcrt.Choose(2, "station")]
				d.dst.Adr, d.bc = d.a.Adr, false
			}
		}
		return d
	}
	for _, prop := range []string{"P13", "P18"} {
		prop := prop
		xp.Add(&xp.Unit{Prop: prop, Name: "announcements", Cfg: plainCfg, Body: func() {
			w := newCW()
			d := iamDest{ip: ip4{10, 0, 0, 20}, port: bacPort, a: simpleDevice(ip4{10, 0, 0, 20}, 1).Addr}
			inst, apdu, seg, vendor := uint32(7), uint32(480), uint32(3), uint32(5)
			if prop == "P13" {
				d = dests()
			} else {
				inst = []uint32{0, 1, 255, 256, maxInst, maxInst + 1, 1 << 31}[mcrt.Choose(7, "instance")]
				apdu = []uint32{0, 50, 480, 1024, 1476, 65535, 65536}[mcrt.Choose(7, "size")]
				seg = uint32(mcrt.Choose(4, "segmentation"))
				vendor = []uint32{0, 1, 255, 256, 65535}[mcrt.Choose(5, "vendor")]
			}
			typ := uint16(8)
			bad := inst > maxInst
			if mcrt.Choose(4, "type") == 3 {
				typ, bad = 1024, true
			}
			std := ref.BVLC(map[bool]byte{true: 0x0B, false: 0x0A}[d.bc], ref.Cat(ref.NPDU(d.dst, nil, 255, false, false, 0), ref.IAm(inst, apdu, seg, vendor)))
			sent := 0
			w.other = func(m *wire) {
				sent++
				if string(m.p.Data) != string(std) && !bad || m.p.ToIP != d.ip || m.p.ToPort != d.port {
					mcrt.Fail("an announcement of %d (%d, %d, %d) to %+v is sent as %v instead of % x", inst, apdu, seg, vendor, d.a, m.p, std)
				}
			}
			err := w.cli.IAm(d.a, btypes.IAm{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}, MaxApdu: apdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor})
			if bad && (sent != 0 || err == nil) || !bad && (sent != 1 || err != nil) {
				mcrt.Fail("an announcement of object %d %d: %v, sent %d times", typ, inst, err, sent)
			}
			mcrt.Log("%v", bad)
		}})
	}
	// P18: a search as it is sent and as it is understood
	xp.Add(&xp.Unit{Prop: "P18", Name: "sent-searches", Cfg: plainCfg, Body: func() {
		w := newCW()
		lims := []int{-1, 0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 20, maxInst - 1, maxInst, maxInst + 1}
		s := &search{opts: bacnet.WhoIsOpts{Low: lims[mcrt.Choose(len(lims), "low")], High: lims[mcrt.Choose(len(lims), "high")]}}
		n := 0
		w.other = func(m *wire) {
			n++
			s.asked(m)
		}
		s.do(w)
		if n != 1 {
			mcrt.Fail("a search with %+v is sent %d times", s.opts, n)
		}
		mcrt.Log("ok")
	}})

	// ------------------------------------------------------------ P12: what the client sends
	xp.Add(&xp.Unit{Prop: "P12", Name: "sent", Weight: 2, Cfg: plainCfg, Body: func() {
		w := newCW()
		kind := mcrt.Choose(4, "kind")
		k := w.newCall(kind, ipDevA, 3)
		o := btypes.ObjectID{Type: btypes.ObjectType([]uint16{0, 2, 8, 19, 127, 128, 1023, 1024, 65535}[mcrt.Choose(9, "type")]), Instance: btypes.ObjectInstance([]uint32{0, 1, 255, 65536, maxInst, maxInst + 1}[mcrt.Choose(6, "instance")])}
		p := ref.Prop{Type: []uint32{0, 77, 85, 255, 256, 512, 65536, maxInst, maxInst + 1}[mcrt.Choose(9, "property")], Index: ref.ArrayAll}
		p.Index = []uint32{ref.ArrayAll, 0, 1, 16, 255, 256, 65536}[mcrt.Choose(7, "index")]
		bad := o.Type > 1023 || o.Instance > maxInst || p.Type > maxInst
		if kind == kWrite || kind == kWriteMulti {
			vals := []interface{}{float32(-1.5), uint32(70000), "text", true, btypes.ObjectID{Type: 2, Instance: 5}}
			p.Value = vals[mcrt.Choose(len(vals), "value")]
			p.Prio = []uint32{0, 1, 8, 16}[mcrt.Choose(4, "priority")]
			if u, ok := p.Value.(uint32); ok && p.Type == 85 && kind == kWriteMulti && (o.Type == 3 || o.Type == 4 || o.Type == 5) {
				p.Value = ref.Enum(u)
			}
		}
		k.objs = []ref.Obj{{ID: o, Props: []ref.Prop{p}}}
		switch kind {
		case kRead:
			k.body = ref.ReadPropertyReq(o, p)
		case kReadMulti:
			k.body = ref.ReadMultipleReq(k.objs)
		case kWrite:
			k.body = ref.WritePropertyReq(o, p)
		case kWriteMulti:
			k.body = ref.WriteMultipleReq(k.objs)
		}
		w.reply = func(k *call, attempt int, m *wire) { w.inject(k.ip, plain(ref.ErrorPDU(m.id, k.svc, 2, 31))) }
		k.do(w.cli)
		if bad && (len(k.sends) != 0 || k.err == nil || k.t1 != k.t0) || !bad && len(k.sends) == 0 {
			mcrt.Fail("%s of %v property %d: %v, sent %d times", k.name, o, p.Type, k.err, len(k.sends))
		}
		mcrt.Log("%v", bad)
	}})
	_ = sort.Strings
}

// doAll makes the call for all objects.
func (k *call) doAll(cli bacnet.Client) {
	k.begun, k.t0 = true, mcrt.NowNS()
	var d btypes.MultiplePropertyData
	for _, o := range k.objs {
		x := toObj(o)
		if k.kind == kReadMulti {
			for i := range x.Properties {
				x.Properties[i].Data, x.Properties[i].Priority = nil, 0
			}
		}
		d.Objects = append(d.Objects, x)
	}
	if k.kind == kReadMulti {
		r, err := cli.ReadMultiProperty(k.dev, d)
		k.got, k.err = r.Objects, err
	} else {
		k.err = cli.WriteMultiProperty(k.dev, d)
	}
	k.done, k.t1 = true, mcrt.NowNS()
}
