package main

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// bigCfg is for executions of very many requests.
var bigCfg = mcrt.Config{SwitchCost: 1, MaxSteps: 1 << 22, MaxTicks: 1 << 30, Horizon: 10 * time.Hour}

// destined are devices that have some of their address in common.
func destined() []btypes.Device {
	at := func(ip ip4, port int, net uint16, adr ...byte) btypes.Device {
		d := simpleDevice(ip, 77)
		d.Addr.Mac[4], d.Addr.Mac[5] = byte(port>>8), byte(port)
		if net != 0 {
			d.Addr.Net, d.Addr.Adr, d.Addr.Len = net, adr, uint8(len(adr))
		}
		return d
	}
	a, b := ip4{10, 0, 0, 20}, ip4{10, 0, 0, 21}
	long := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
	return []btypes.Device{at(a, bacPort, 0), at(a, bacPort+1, 0), at(a, 1, 0), at(b, bacPort, 0), at(a, bacPort, 5, 7), at(a, bacPort, 5, 8), at(a, bacPort, 6, 7), at(b, bacPort, 5, 7),
		at(a, bacPort+1, 5, 7), at(a, bacPort, 5, long[:6]...), at(a, bacPort, 5, long[:8]...), at(a, bacPort, 5, long[:16]...), at(a, bacPort, 5, long[:18]...), at(a, bacPort, 5, 0), at(a, bacPort, 5, 255),
		at(ip4{10, 0, 1, 255}, bacPort, 0), at(ip4{10, 0, 1, 0}, bacPort, 0), at(ip4{192, 168, 255, 255}, bacPort, 0), at(ip4{10, 0, 0, 254}, bacPort, 0), at(ip4{10, 0, 1, 255}, bacPort, 65534, 255)}
}

func init() {
	// one client, many destinations: no request goes where another went
	xp.Add(&xp.Unit{Prop: "P13", Name: "destinations", Weight: 2, Cfg: plainCfg, Body: func() {
		w := newCW()
		w.reply = func(k *call, attempt int, m *wire) {
			b := ref.NPDU(nil, m.dst, 0, false, false, 0)
			mcrt.Inject(w.sock, k.ip, m.p.ToPort, ref.BVLC(0x0A, ref.Cat(b, k.apduOK(m.id))))
		}
		ds := destined()
		n, shift := 2, 0
		if xp.Deep {
			n, shift = 3, mcrt.Choose(4, "kinds")
		}
		var is []int
		for i := 0; i < n; i++ {
			j := mcrt.Choose(len(ds)+2, "destination")
			if j >= len(ds) {
				w.other = func(m *wire) {
					if m.fn != 0x0B || m.p.ToIP != (ip4{10, 0, 0, 255}) || m.p.ToPort != bacPort {
						mcrt.Fail("after requests to %v a search is sent as %v", is, m.p)
					}
				}
				if j == len(ds) {
					w.cli.WhoIsRouterToNetwork()
				} else {
					(&search{opts: rangeOpts[1]}).do(w)
				}
				continue
			}
			is = append(is, j)
		}
		if len(is) == 0 {
			return
		}
		for i, j := range append(is, is[0]) {
			a := ds[j].Addr
			k := w.newCall((i+shift)%4, ip4{a.Mac[0], a.Mac[1], a.Mac[2], a.Mac[3]}, i+1)
			k.dev, k.dest = ds[j], true
			k.do(w.cli)
			if k.err != nil || len(k.sends) != 1 {
				mcrt.Fail("%s to %+v: %v, sent %d times", k.name, a, k.err, len(k.sends))
			}
			k.values()
		}
		mcrt.Log("%d", len(is))
	}})
	// very many announcements in the life of a client
	xp.Add(&xp.Unit{Prop: "P10", Name: "lifetime", Weight: 2, Cfg: bigCfg, Body: func() {
		w := newCW()
		searches, each := 24, []int{250, 3}[mcrt.Choose(2, "devices each")]
		if xp.Deep {
			searches = 300
		}
		way := mcrt.Choose(nVias, "way")
		var hs []*heard
		w.other = func(m *wire) {
			for i := 0; i < each; i++ {
				h := announce(uint32(len(hs)+1), way)
				if i%3 == 2 {
					h = announce(uint32(i), (way+i)%nVias)
				}
				hs = append(hs, h)
				w.hear(0, h)
			}
		}
		for i := 0; i < searches; i++ {
			s := &search{opts: rangeOpts[i%2]}
			hs = nil
			s.do(w)
			s.judge(hs)
			if i%5 == 4 {
				mcrt.Sleep(time.Hour / 100)
			}
		}
		w.fresh()
		mcrt.Log("ok")
	}})
	// a station that has no IPv4 address is none of this network, and not at the address 0.0.0.0
	xp.Add(&xp.Unit{Prop: "P10", Name: "other-family", Cfg: plainCfg, Body: func() {
		w := newCW()
		ip := []string{"fe80::1", "2001:db8::5", "::1", "64:ff9b::a00:14"}[mcrt.Choose(4, "from")]
		way := mcrt.Choose(3, "way")
		h := announce(8, mcrt.Choose(nVias, "way of another"))
		w.other = func(m *wire) {
			mcrt.Inject6(w.sock, net.ParseIP(ip), bacPort, announce(7, way).data)
			w.hear(0, h)
			mcrt.Inject6(w.sock, net.ParseIP(ip), bacPort, announce(9, way).data)
		}
		s := &search{opts: rangeOpts[mcrt.Choose(2, "range")]}
		s.do(w)
		s.judge([]*heard{h})
		mcrt.Log("%d", len(s.devs))
	}})
	xp.Add(&xp.Unit{Prop: "P20", Name: "very-long-lists", Cfg: bigCfg, Body: func() {
		ns := []int{999, 1000, 1001, 1023, 1024, 1025, 2100}
		if xp.Deep {
			ns = append(ns, 4097, 10001)
		}
		d := listDevice(mcrt.Choose(len(places), "place"), ns[mcrt.Choose(len(ns), "length")])
		d.max = 1476
		if mcrt.Choose(2, "refusal") == 1 {
			d.listAll = &refusal{class: 7, code: 131}
		}
		w := newNW(d)
		got, err := w.device(d).DeviceObjects(btypes.ObjectInstance(d.inst), false)
		if err != nil {
			mcrt.Fail("a list of %d: %v", len(d.objs), err)
		}
		if s := d.sameList(got); s != "" {
			mcrt.Fail("%s", short(s))
		}
		mcrt.Log("ok")
	}})
	// the shortest lists, of every kind of object
	xp.Add(&xp.Unit{Prop: "P20", Name: "single", Cfg: plainCfg, Body: func() {
		ts := []btypes.ObjectType{8, 0, 1, 5, 10, 56, 127, 128, 255, 256, 1023}
		d := listDevice(mcrt.Choose(len(places), "place"), 0)
		d.max = []int{50, 1476}[mcrt.Choose(2, "size")]
		if mcrt.Choose(2, "by element") == 1 {
			d.listAll = &refusal{class: 7, code: 131}
		}
		for i := 1 + mcrt.Choose(2, "length"); i > 0; i-- {
			d.objs = append(d.objs, mobj{id: btypes.ObjectID{Type: ts[mcrt.Choose(len(ts), "type")], Instance: []btypes.ObjectInstance{0, 1, 100, 65535, 4194302, 4194303}[mcrt.Choose(6, "instance")]}})
		}
		objectList(newNW(d), d, true)
	}})
	// what the device announces is taken over when it is searched for first
	xp.Add(&xp.Unit{Prop: "P20", Name: "announced-limits", Cfg: plainCfg, Body: func() {
		d := listDevice(mcrt.Choose(len(places), "place"), mcrt.Choose(3, "length"))
		d.max, d.seg = []int{50, 128, 206, 480, 1024, 1476, 1497, 65535, 65536, 1 << 24}[mcrt.Choose(10, "size limit")], []uint32{0, 1, 2, 3, 4, 300}[mcrt.Choose(6, "segmentation")]
		d.vendor = 9
		o := listDevice(1, 3)
		o.inst, o.max, o.seg = []uint32{99, 101}[mcrt.Choose(2, "another")], 1470, 2
		w := newNW(d, o)
		x := w.device(d)
		x.MaxApdu = []uint32{0, 49, 480, 1476, 65535}[mcrt.Choose(5, "known limit")]
		x.Segmentation = uint32(3 - mcrt.Choose(4, "known segmentation"))
		got, err := x.DeviceObjects(btypes.ObjectInstance(d.inst), true)
		if err != nil {
			mcrt.Fail("the object list of a device that answers everything: %v", err)
		}
		if s := d.sameList(got); s != "" {
			mcrt.Fail("%s", s)
		}
		if int(x.MaxApdu) != d.max || x.Segmentation != d.seg {
			mcrt.Fail("a device announces %d, %d, and its record says %d, %d after the search", d.max, d.seg, x.MaxApdu, x.Segmentation)
		}
		mcrt.Log("ok")
	}})
	// numbers that are something special
	special := []float32{float32(math.Copysign(0, -1)), 0, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1.1754942e-38, 1.17549435e-38, math.MaxFloat32, -math.MaxFloat32,
		float32(math.Inf(1)), float32(math.Inf(-1)), math.Float32frombits(0x7FC00000), math.Float32frombits(0xFFC00001), 1, -1, 0.1, 1 << 24, 1<<24 + 2, 16777217, -0.30000001, 3.4e-5, 99999.99}
	xp.Add(&xp.Unit{Prop: "P21", Name: "special-numbers", Cfg: plainCfg, Body: func() {
		d := placed(mcrt.Choose(2, "place"))
		t := []btypes.ObjectType{0, 1, 2, 19, 200}[mcrt.Choose(5, "type")]
		f := special[mcrt.Choose(len(special), "value")]
		id := btypes.ObjectID{Type: t, Instance: 9}
		d.objs = []mobj{{id, map[uint32]interface{}{85: f}}}
		d.write = func([]byte) *refusal { return nil }
		w := newNW(d)
		dev := w.device(d)
		var body []byte
		w.seen = func(m *wire) { body = append([]byte{}, m.service...) }
		p := &network.Point{ObjectID: 9, ObjectType: t, WritePriority: uint8(mcrt.Choose(17, "priority"))}
		if mcrt.Choose(2, "operation") == 0 {
			got, err := dev.PointReadFloat32(p)
			if err != nil || math.Float32bits(got) != math.Float32bits(f) && (got == got || f == f) {
				mcrt.Fail("the device sends %x and %x is returned, %v", math.Float32bits(f), math.Float32bits(got), err)
			}
		} else {
			want := ref.WritePropertyReq(id, ref.Prop{Type: 85, Index: ref.ArrayAll, Value: f, Prio: uint32(p.WritePriority)})
			if err := dev.PointWriteAnalogue(p, f); err != nil || !bytes.Equal(body, want) && f == f {
				mcrt.Fail("writing %x sends % x instead of % x, %v", math.Float32bits(f), body, want, err)
			}
		}
		mcrt.Log("ok")
	}})
	// many points
	xp.Add(&xp.Unit{Prop: "P21", Name: "many-points", Cfg: bigCfg, Body: func() {
		n := []int{49, 50, 51, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1025}[mcrt.Choose(13, "points")]
		d := placed(mcrt.Choose(2, "place"))
		d.max = 1476
		if mcrt.Choose(2, "by element") == 1 {
			d.listAll = &refusal{class: 7, code: 131}
		}
		d.objs = []mobj{{btypes.ObjectID{Type: 8, Instance: 100}, map[uint32]interface{}{77: "device"}}}
		types := []btypes.ObjectType{0, 5, 19, 2, 127, 128, 1023, 9, 7}
		for i := 0; i < n; i++ {
			d.objs = append(d.objs, mobj{btypes.ObjectID{Type: types[i%len(types)], Instance: btypes.ObjectInstance(i * 4000)}, map[uint32]interface{}{77: fmt.Sprint("point ", i), 117: ref.Enum(i)}})
		}
		w := newNW(d)
		r, err := w.device(d).GetDevicePoints(100)
		if err != nil || len(r) != n {
			mcrt.Fail("%d points are returned as %d, %v", n, len(r), err)
		}
		for i, x := range r {
			if s := checkDetails(x, d.objs[i+1], false); s != "" {
				mcrt.Fail("%s", s)
			}
		}
		mcrt.Log("ok")
	}})
	// large collections
	xp.Add(&xp.Unit{Prop: "P25", Name: "large", Cfg: mcrt.Config{SwitchCost: 1, MapOrder: 0, MaxTicks: 1 << 28}, Body: func() {
		mcrt.DirectMode(true)
		n := []int{0, 1, 2, 3, 16, 49, 50, 51, 64, 65, 99, 100, 101, 128, 255, 256, 257, 300, 1000, 1025, 4097}[mcrt.Choose(21, "objects")]
		kinds := []int{1, 2, 7, 64}[mcrt.Choose(4, "types")]
		device := mcrt.Choose(4, "device objects") - 1
		m := btypes.ObjectMap{}
		for i := 0; i < n; i++ {
			t := btypes.ObjectType(i % kinds * 17)
			if device >= 0 && i%kinds == device%kinds {
				t = btypes.DeviceType
			}
			if m[t] == nil {
				m[t] = map[btypes.ObjectInstance]btypes.Object{}
			}
			o := btypes.Object{Name: fmt.Sprint("object ", i), ID: btypes.ObjectID{Type: t, Instance: btypes.ObjectInstance(i)}}
			m[t][o.ID.Instance] = o
		}
		throughJSON(m, mcrt.Choose(5, "into"))
		whole := &btypes.Device{ID: btypes.ObjectID{Type: btypes.DeviceType, Instance: 1}, DeviceID: 1, MaxApdu: 480, Objects: m}
		if mcrt.Choose(2, "bare") == 1 {
			whole = &btypes.Device{Objects: m}
		}
		l := whole.ObjectSlice()
		seen := map[btypes.ObjectID]bool{}
		for _, o := range l {
			if x, ok := m[o.ID.Type][o.ID.Instance]; !ok || x.Name != o.Name || seen[o.ID] {
				mcrt.Fail("the list of %d objects has %+v (before: %v)", n, o, seen[o.ID])
			}
			seen[o.ID] = true
		}
		if len(l) != n {
			mcrt.Fail("the list of %d objects has %d", n, len(l))
		}
		mcrt.Log("%d", n)
	}})
}
