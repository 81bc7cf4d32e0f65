package main

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// mw is a client in a network of model devices.
type mw struct {
	*cw
	devs []*model
	n    int // requests so far
	// tamper may change the n-th answer (nil: none)
	tamper func(n int, d *model, m *wire, a []byte) []byte
	// seen is told every datagram
	seen func(m *wire)
}

func newMW(devs ...*model) *mw {
	w := &mw{cw: newCW(), devs: devs}
	mcrt.OnSend(w.serve)
	return w
}

func (w *mw) serve(p mcrt.Packet) {
	m, s := parse(p)
	if s != "" {
		mcrt.Fail("%s", s)
	}
	if w.seen != nil {
		w.seen(m)
	}
	switch {
	case m.confirmed:
		for _, d := range w.devs {
			if !d.addressed(m) {
				continue
			}
			if len(p.Data)-4 > d.max+30 {
				mcrt.Fail("a request of %d bytes is sent to a device that takes %d", len(p.Data), d.max)
			}
			a := d.answer(m.id, m.svc, m.service)
			n := w.n
			w.n++
			if w.tamper != nil {
				a = w.tamper(n, d, m, a)
			}
			if a != nil {
				mcrt.Inject(w.sock, d.ip, d.udp(), d.wrap(a))
			}
			return
		}
		mcrt.Fail("a request is sent to nobody: %v", p)
	case !m.network && len(m.body) >= 2 && m.body[0] == 0x10 && m.body[1] == 8:
		for _, d := range w.devs {
			if d.inRange(m.body[2:]) {
				mcrt.Inject(w.sock, d.ip, d.udp(), d.wrap(d.announce()))
			}
		}
	}
}

// ---------------------------------------------------------------- P19: the object scan

// scanned compares the result of a scan with the device.
func scanned(d *model, got btypes.Device, err error, must bool) string {
	if err != nil {
		if must {
			return fmt.Sprintf("the scan of a device that answers everything fails: %v", err)
		}
		return ""
	}
	want := map[btypes.ObjectID]mobj{}
	for _, o := range d.objs {
		want[o.id] = o
	}
	n := 0
	for t, m := range got.Objects {
		for i, o := range m {
			id := btypes.ObjectID{Type: t, Instance: i}
			x, ok := want[id]
			if !ok {
				return fmt.Sprintf("the scan returns the object %v, which the device does not have", id)
			}
			if o.ID != id {
				return fmt.Sprintf("the scan returns the object %v as %v", o.ID, id)
			}
			n++
			if t > 128 && o.Name == "" && o.Description == "" {
				continue // proprietary objects may come without
			}
			if o.Name != x.props[77] || o.Description != x.props[28] {
				return fmt.Sprintf("the scan returns the name %q and the description %q for %v, which has %q and %q", o.Name, o.Description, id, x.props[77], x.props[28])
			}
		}
	}
	if n != len(want) {
		return fmt.Sprintf("the scan returns %d of %d objects", n, len(want))
	}
	if got.ID.Instance != btypes.ObjectInstance(d.inst) {
		return fmt.Sprintf("the scan of device %d returns device %d", d.inst, got.ID.Instance)
	}
	return ""
}

func named(t, i int, long string) mobj {
	id := btypes.ObjectID{Type: btypes.ObjectType(t), Instance: btypes.ObjectInstance(i)}
	return mobj{id, map[uint32]interface{}{77: fmt.Sprintf("n%x.%x", t, i&0xFFF) + long, 28: fmt.Sprintf("d%x.%x", t, i&0xFFF) + long}}
}

var scanTypes = []int{8, 0, 2, 19, 128, 56, 5, 129, 1023, 13}

// scanDevice has n objects of mixed types, the first of them itself.
func scanDevice(n, max int, long string) *model {
	d := &model{inst: 100, ip: ipDevA, max: max, seg: 3}
	for i := 0; i < n; i++ {
		t := scanTypes[i%len(scanTypes)]
		switch {
		case t == 8:
			t = 3
			if i == 0 {
				d.objs = append(d.objs, named(8, 100, long))
				continue
			}
		}
		d.objs = append(d.objs, named(t, i*7, long))
	}
	if n == 0 {
		d.objs = nil
	}
	return d
}

func scan(d *model, must bool, tamper func(w *mw)) {
	w := newMW(d)
	if tamper != nil {
		tamper(w)
	}
	t0 := mcrt.NowNS()
	got, err := w.cli.Objects(d.device())
	if s := scanned(d, got, err, must); s != "" {
		mcrt.Fail("%s", s)
	}
	if x := mcrt.NowNS() - t0; x > time.Duration(w.n+1)*5*time.Second {
		mcrt.Fail("a scan of %d requests takes %v", w.n, x)
	}
	switch {
	case err != nil:
		mcrt.Log("error")
	default:
		mcrt.Log(fmt.Sprintf("%d types", len(got.Objects)))
	}
}

// ways to spoil the content of an answer; ok is false if they do not apply
type spoiler struct {
	name string
	f    func(o []ref.Obj) []ref.Obj
}

func clone(o []ref.Obj) []ref.Obj {
	out := make([]ref.Obj, len(o))
	for i := range o {
		out[i] = o[i]
		out[i].Props = append([]ref.Prop(nil), o[i].Props...)
	}
	return out
}

func spoilers() (out []spoiler) {
	add := func(name string, f func(o []ref.Obj) []ref.Obj) { out = append(out, spoiler{name, f}) }
	value := func(name string, v interface{}) {
		add("first value "+name, func(o []ref.Obj) []ref.Obj { o[0].Props[0].Value = v; return o })
		add("last value "+name, func(o []ref.Obj) []ref.Obj {
			p := o[len(o)-1].Props
			p[len(p)-1].Value = v
			return o
		})
	}
	value("unsigned", uint32(3))
	value("null", null.Null{})
	value("real", float32(2)) // (another string would be a true answer of another device)
	value("boolean", true)
	value("object", btypes.ObjectID{Type: 4, Instance: 77})
	value("empty", []interface{}{})
	value("two strings", []interface{}{"x", "y"})
	value("two objects", []interface{}{btypes.ObjectID{Type: 4, Instance: 77}, btypes.ObjectID{Type: 4, Instance: 78}})
	value("two numbers", []interface{}{uint32(1), uint32(2)})
	add("first value refused", func(o []ref.Obj) []ref.Obj { o[0].Props[0].Err = &[2]uint32{2, 32}; return o })
	add("last value refused", func(o []ref.Obj) []ref.Obj {
		p := o[len(o)-1].Props
		p[len(p)-1].Err = &[2]uint32{2, 32}
		return o
	})
	add("last property missing", func(o []ref.Obj) []ref.Obj {
		x := &o[len(o)-1]
		x.Props = x.Props[:len(x.Props)-1]
		return o
	})
	add("first property missing", func(o []ref.Obj) []ref.Obj { o[0].Props = o[0].Props[1:]; return o })
	add("properties missing", func(o []ref.Obj) []ref.Obj { o[0].Props = nil; return o })
	add("last property twice", func(o []ref.Obj) []ref.Obj {
		x := &o[len(o)-1]
		x.Props = append(x.Props, x.Props[len(x.Props)-1])
		return o
	})
	add("properties reversed", func(o []ref.Obj) []ref.Obj {
		p := o[0].Props
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		return o
	})
	add("other property", func(o []ref.Obj) []ref.Obj { o[0].Props[0].Type = 75; return o })
	add("other index", func(o []ref.Obj) []ref.Obj { o[0].Props[0].Index = 9; return o })
	add("last object missing", func(o []ref.Obj) []ref.Obj { return o[:len(o)-1] })
	add("first object missing", func(o []ref.Obj) []ref.Obj { return o[1:] })
	add("last object twice", func(o []ref.Obj) []ref.Obj { return append(o, o[len(o)-1]) })
	add("nothing", func(o []ref.Obj) []ref.Obj { return nil })
	add("objects reversed", func(o []ref.Obj) []ref.Obj {
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
		return o
	})
	add("other object", func(o []ref.Obj) []ref.Obj { o[0].ID.Instance++; return o })
	return
}

func init() {
	sizes := []int{480, 50, 128, 206, 1024, 1476, 1, 10, 19, 20, 21, 39, 40, 49}
	xp.Add(&xp.Unit{Prop: "P19", Name: "lengths", Weight: 2, Cfg: plainCfg, Body: func() {
		k := mcrt.Choose(len(sizes), "size")
		n := 41
		if xp.Deep {
			n = 160
		}
		l := mcrt.Choose(n, "length")
		scan(scanDevice(l, sizes[k], ""), sizes[k] >= 50, nil)
	}})
	xp.Add(&xp.Unit{Prop: "P19", Name: "sizes", Cfg: plainCfg, Body: func() {
		// every size with names of 30 bytes
		max := 50 + mcrt.Choose(560, "size")
		l := []int{1, 7, 13, 26}[mcrt.Choose(4, "length")]
		scan(scanDevice(l, max, []string{"", "xxxxxxxxxxxxxxxxxxxxxxxx"}[mcrt.Choose(2, "names")]), max >= 480, nil)
	}})
	xp.Add(&xp.Unit{Prop: "P19", Name: "types", Cfg: plainCfg, Body: func() {
		// every mixture of three
		ts := []int{0, 2, 8, 56, 127, 128, 129, 500, 1023}
		is := []int{0, 1, 0x3FFFFE, 0x3FFFFF}
		d := &model{inst: 100, ip: ipDevA, max: []int{480, 128}[mcrt.Choose(2, "size")], seg: 3, objs: []mobj{named(8, 100, "")}}
		for i := 0; i < 3; i++ {
			t := mcrt.Choose(len(ts)+1, "type")
			if t == 0 {
				break
			}
			o := named(ts[t-1], is[mcrt.Choose(len(is), "instance")], "")
			for _, x := range d.objs {
				if x.id == o.id || o.id.Type == 8 && o.id.Instance == 4194303 { // (the device itself)
					return
				}
			}
			d.objs = append(d.objs, o)
		}
		scan(d, true, nil)
	}})
	// every type of object there is
	bits := []int{5}
	for k := 0; k < 22; k++ {
		bits = append(bits, 5^1<<k)
	}
	xp.Add(&xp.Unit{Prop: "P19", Name: "each-type", Weight: 2, Cfg: plainCfg, Body: func() {
		t := mcrt.Choose(1024, "type")
		d := &model{inst: 100, ip: ipDevA, max: []int{480, 1476}[mcrt.Choose(2, "size")], seg: 3, objs: []mobj{named(8, 100, "")}}
		for _, i := range [][]int{{0, 1}, {255, 256}, {65535, 65536}, {100, 4194302, 4194303}, bits}[mcrt.Choose(5, "instances")] {
			if t != 8 || i != 100 && i != 4194303 { // (the device itself)
				d.objs = append(d.objs, named(t, i, ""))
			}
		}
		scan(d, true, nil)
	}})
	// every mixture of texts, the empty ones among them
	xp.Add(&xp.Unit{Prop: "P19", Name: "texts", Cfg: plainCfg, Body: func() {
		d := &model{inst: 100, ip: ipDevA, max: []int{480, 50, 1476}[mcrt.Choose(3, "size")], seg: 3, objs: []mobj{named(8, 100, "")}}
		for i := 0; i < 3; i++ {
			o := named([]int{0, 2, 0}[i], 3+i, "")
			n := 8
			if xp.Deep {
				n = 12
			}
			k := mcrt.Choose(n, "texts")
			if k&1 != 0 {
				o.props[28] = ""
			}
			if k&2 != 0 {
				o.props[77] = ""
			}
			switch k >> 2 {
			case 1:
				o.props[77], o.props[28] = "same name", "same description"
			case 2:
				o.props[77], o.props[28] = o.props[28], o.props[77]
			}
			d.objs = append(d.objs, o)
		}
		scan(d, true, nil)
	}})
	orders := mcrt.Config{SwitchCost: 1, MapOrder: 4}
	xp.Add(&xp.Unit{Prop: "P19", Name: "orders", Cfg: orders, Body: func() {
		// every order in which the collected objects can be visited
		max := []int{50, 206, 480}[mcrt.Choose(3, "size")]
		shape := [][]int{{8, 0, 2, 129}, {8, 0, 0, 0}, {8, 2, 2, 500}, {0, 0, 2, 2}}[mcrt.Choose(4, "types")]
		d := &model{inst: 100, ip: ipDevA, max: max, seg: 3}
		for i, t := range shape {
			if t == 8 {
				d.objs = append(d.objs, named(8, 100, ""))
			} else {
				d.objs = append(d.objs, named(t, 5+i, ""))
			}
		}
		scan(d, true, nil)
	}})
	xp.Add(&xp.Unit{Prop: "P19", Name: "failures", Weight: 3, Cfg: plainCfg, Body: func() {
		// at every step every kind of failure, once or for good
		d := scanDevice([]int{0, 1, 4, 8, 13}[mcrt.Choose(5, "length")], []int{480, 206, 50}[mcrt.Choose(3, "size")], "")
		at := mcrt.Choose(12, "step")
		always := mcrt.Choose(2, "for good") == 1
		kinds := []func(m *wire) []byte{
			func(m *wire) []byte { return nil },
			func(m *wire) []byte { return ref.ErrorPDU(m.id, m.svc, 2, 31) },
			func(m *wire) []byte { return []byte{0x71, m.id, 4} },
			func(m *wire) []byte { return []byte{0x60, m.id, 9} },
			func(m *wire) []byte { return []byte{0x20, m.id, m.svc} },
			func(m *wire) []byte { return []byte{0x30, m.id, m.svc} },
		}
		sp := spoilers()
		k := mcrt.Choose(len(kinds)+len(sp), "failure")
		hit := false
		scan(d, false, func(w *mw) {
			w.tamper = func(n int, _ *model, m *wire, a []byte) []byte {
				if n != at && !(always && n > at) {
					return a
				}
				hit = true
				if k < len(kinds) {
					return kinds[k](m)
				}
				d.spoil = func(o []ref.Obj) []ref.Obj {
					x := clone(o)
					if m.svc == 12 {
						if len(x[0].Props) == 0 {
							return o
						}
						y := sp[k-len(kinds)].f(x)
						if len(y) == 0 || len(y[0].Props) == 0 || y[0].ID != o[0].ID || y[0].Props[0].Type != o[0].Props[0].Type || y[0].Props[0].Index != o[0].Props[0].Index {
							return o
						}
						if v, ok := y[0].Props[0].Value.(uint32); ok && v < uint32(len(d.objs)) {
							y[0].Props[0].Value = uint32(len(d.objs)) + v // it would be a true answer of another device
						}
						return y
					}
					return sp[k-len(kinds)].f(x)
				}
				a = d.answer(m.id, m.svc, m.service)
				d.spoil = nil
				return a
			}
		})
		_ = hit
	}})
}
