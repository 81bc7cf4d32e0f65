package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// Wide domains: what is carried, how many there are, and how large they are, where the other drivers of a property use a
// few small values.

type cargo struct{ A, B int }

// cargos are things that somebody may send or publish.
func cargos() []interface{} {
	return []interface{}{nil, 0, "", "x", []byte{1, 2}, []byte(nil), errors.New("an error"), map[string]int{"a": 1}, cargo{1, 2}, &cargo{1, 2}, true, []interface{}{nil}, (*cargo)(nil)}
}

// near are identifiers that are not id but look like it.
func near(id int) []int {
	return []int{id + 1, id - 1, -id, id + 256, id - 256, id + 512, id + 65536, id + 1<<32, id ^ 128, id + 1<<62}
}

func anyDevice() *bacnet.WhoIsOpts {
	return &bacnet.WhoIsOpts{Low: -1, High: -1, GlobalBroadcast: true}
}

func settled(f func()) {
	mcrt.DirectMode(true)
	f()
	mcrt.DirectMode(false)
}

func wideUtsm(prop string) {
	ms := time.Millisecond
	exact := mcrt.Config{SwitchCost: 1, EnvCost: 1, MaxSteps: 1 << 21, MaxTicks: 1 << 28}
	// Whatever is published arrives as it is, also what is published again.
	xp.Add(&xp.Unit{Prop: prop, Name: "values", Cfg: exact, Quick: 2, Deep: 3, Body: func() {
		m := newUtsmWorld(20*ms, 200*ms).m
		var all []interface{}
		var got []interface{}
		h := mcrt.GoHarness("sub", func() {
			var err error
			if got, err = m.Subscribe(3, 5); err != nil {
				mcrt.Fail("Subscribe: %v", err)
			}
		})
		settled(func() { mcrt.Sleep(1) })
		vs := cargos()
		for i := 0; i < 3; i++ {
			k := mcrt.ChooseFree(len(vs)+1, "value")
			if k == 0 {
				break
			}
			m.Publish(4, vs[k-1])
			all = append(all, vs[k-1])
			if mcrt.ChooseFree(2, "gap") == 1 {
				settled(func() { mcrt.Sleep(19 * ms) })
			}
		}
		h.Join()
		if len(got) != len(all) || len(all) > 0 && !reflect.DeepEqual(got, all) {
			mcrt.Fail("published %#v, returned %#v", all, got)
		}
		mcrt.Log("%d", len(got))
	}})
	// Many subscribers at once, of different ranges; some of them leave, some come later.
	xp.Add(&xp.Unit{Prop: prop, Name: "multitude", Cfg: exact, Quick: 0, Deep: 0, Body: func() {
		w := newUtsmWorld(20*ms, 50*ms)
		n := []int{5, 8, 9, 16, 17, 33, 65, 130}[mcrt.ChooseFree(8, "subscribers")]
		shape := mcrt.ChooseFree(4, "ranges")
		for i := 0; i < n; i++ {
			lo, hi := 1, 10
			switch shape {
			case 1:
				lo, hi = i, i
			case 2:
				lo, hi = i%4, 3+i%7
			case 3:
				lo, hi = 0, i
			}
			w.subscribe(lo, hi, true)
			if shape == 2 && i%3 == 0 {
				w.publish(0, 3)
				settled(func() { mcrt.Sleep(ms) })
			}
		}
		for _, id := range []int{1, 5, 10, n - 1, 3} {
			w.publish(0, id)
		}
		settled(func() { mcrt.Sleep(15 * ms) })
		for i := 0; i < n/2; i++ {
			w.subscribe(i, n, true)
		}
		settled(func() { mcrt.Sleep(10 * ms) })
		w.publish(0, n-1)
		w.publish(0, 1)
		w.join()
		w.check(true)
		mcrt.Log("%d", len(w.subs))
	}})
	// The subscription ends while publications come in, after many others.
	late := mcrt.Config{SwitchCost: 1, EnvCost: 1, EarlyTimers: true, MaxSteps: 1 << 21, MaxTicks: 1 << 28}
	xp.Add(&xp.Unit{Prop: prop, Name: "end-after-many", Cfg: late, Quick: 3, Deep: 4, Body: func() {
		ns := []int{64, 15, 31, 128, 256}
		w := newUtsmWorld(20*ms, []time.Duration{500 * ms, 50 * ms}[mcrt.ChooseFree(2, "overall time")])
		w.subscribe(1, 5, true)
		n := ns[mcrt.ChooseFree(len(ns), "publications")]
		mcrt.Early(false)
		for i := 0; i < n; i++ {
			settled(func() { w.publish(0, 3); mcrt.Sleep(time.Nanosecond) })
		}
		// (the timers of those publications are to be over)
		for _, d := range []time.Duration{19 * ms, 19 * ms, 2 * ms} {
			settled(func() {
				mcrt.Sleep(d)
				if d > 2*ms {
					w.publish(0, 3)
				}
			})
		}
		mcrt.Early(true)
		w.publisher(1, func() {
			w.publish(1, 3)
			w.publish(1, 3)
		})
		w.join()
		w.check(false)
		mcrt.Log("%d", len(w.subs[0].got)-n)
	}})
	// Many publications for one subscriber.
	xp.Add(&xp.Unit{Prop: prop, Name: "torrent", Cfg: exact, Quick: 0, Deep: 0, Body: func() {
		w := newUtsmWorld(20*ms, 30000*ms)
		ns := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025, 2100}
		if xp.Deep {
			ns = append(ns, 4100, 10000)
		}
		n := ns[mcrt.ChooseFree(len(ns), "publications")]
		gap := []time.Duration{0, ms, 19 * ms}[mcrt.ChooseFree(3, "gap")]
		if gap > ms && n > 1100 {
			return
		}
		w.subscribe(3, 5, true)
		w.subscribe(3, 3, true)
		for i := 0; i < n; i++ {
			w.publish(0, 3+2*(i%2))
			if gap > 0 {
				settled(func() { mcrt.Sleep(gap / 2) })
			}
		}
		w.join()
		in := func(s *sub) (x int) {
			for _, p := range w.pubs {
				if p.id <= s.hi {
					x++
				}
			}
			return
		}
		for k, s := range w.subs {
			if len(s.got) != in(s) {
				mcrt.Fail("subscription %d returns %d of %d publications", k, len(s.got), in(s))
			}
			for i, x := range s.got {
				if i > 0 && s.got[i-1] >= x || w.pubs[x].id > s.hi {
					mcrt.Fail("subscription %d returns %d after %d", k, x, s.got[i-1])
				}
			}
			last := w.pubs[len(w.pubs)-1].t1
			if s.hi == 3 {
				last = w.pubs[(len(w.pubs)-1)/2*2].t1
			}
			if s.ret != last+20*ms {
				mcrt.Fail("subscription %d ends %v after the last publication", k, s.ret-last)
			}
		}
		mcrt.Log("%d", n)
	}})
}

func wideTsm() {
	cfg := mcrt.Config{SwitchCost: 1, EnvCost: 1, MaxSteps: 1 << 20}
	// What is sent is what is received, whatever it is; identifiers that only look alike reach nobody.
	xp.Add(&xp.Unit{Prop: "P02", Name: "values", Cfg: cfg, Quick: 0, Deep: 1, Body: func() {
		size := []int{1, 3}[mcrt.ChooseFree(2, "size")]
		t := tsm.New(size)
		open := func() int {
			id, err := t.ID(context.Background())
			if err != nil {
				mcrt.Fail("ID: %v", err)
			}
			return id
		}
		var ids []int
		for i := 0; i < size; i++ {
			ids = append(ids, open())
		}
		held := func(id int) bool {
			for _, x := range ids {
				if x == id {
					return true
				}
			}
			return false
		}
		vs := cargos()
		n := 2
		if xp.Deep {
			n = 3
		}
		for i := 0; i < n; i++ {
			k := mcrt.ChooseFree(len(vs), "value")
			id := ids[i%size]
			for _, x := range near(id) {
				if held(x) {
					continue
				}
				if err := t.Send(x, "stray"); err == nil {
					mcrt.Fail("sending to %d, which nobody holds (%v), succeeds", x, ids)
				}
				if v, err := t.Receive(x, time.Millisecond); err == nil {
					mcrt.Fail("receiving from %d, which nobody holds (%v), gives %v", x, ids, v)
				}
				if err := t.Put(x); err == nil {
					mcrt.Fail("releasing %d, which nobody holds (%v), succeeds", x, ids)
				}
			}
			h := mcrt.GoHarness("sender", func() {
				if err := t.Send(id, vs[k]); err != nil {
					mcrt.Fail("sending %#v to a transaction that receives: %v", vs[k], err)
				}
			})
			v, err := t.Receive(id, time.Second)
			if err != nil || !reflect.DeepEqual(v, vs[k]) {
				mcrt.Fail("sent %#v, received %#v, %v", vs[k], v, err)
			}
			h.Join()
		}
		for _, id := range ids {
			if err := t.Put(id); err != nil {
				mcrt.Fail("Put: %v", err)
			}
		}
		mcrt.Log("ok")
	}})
	// Many values through one transaction, and through transactions one after the other.
	xp.Add(&xp.Unit{Prop: "P02", Name: "torrent", Cfg: cfg, Quick: 0, Deep: 0, Body: func() {
		t := tsm.New(2)
		reopen := []int{0, 1, 7}[mcrt.ChooseFree(3, "reopened after")]
		n := []int{1, 20, 300, 1100}[mcrt.ChooseFree(4, "values")]
		id, err := t.ID(context.Background())
		for i := 0; i < n; i++ {
			if err != nil {
				mcrt.Fail("ID: %v", err)
			}
			x := id
			h := mcrt.GoHarness("sender", func() {
				if err := t.Send(x, i); err != nil {
					mcrt.Fail("sending %d to a transaction that receives: %v", i, err)
				}
			})
			if v, err := t.Receive(id, time.Second); err != nil || v != i {
				mcrt.Fail("sent %d, received %v, %v", i, v, err)
			}
			h.Join()
			if i%50 == 49 {
				if v, err := t.Receive(id, time.Millisecond); err == nil {
					mcrt.Fail("received %v, which was received before", v)
				}
			}
			if reopen > 0 && i%reopen == 0 {
				if err := t.Put(id); err != nil {
					mcrt.Fail("Put: %v", err)
				}
				id, err = t.ID(context.Background())
			}
		}
		mcrt.Log("%d", n)
	}})
}

func wideNetwork() {
	// Names that look alike are different names.
	alike := []string{"a", "A", "a ", " a", "a\x00", "\ta", "a\n", "á", "a\u0301", "aa", "a/b", "a.b", "a:b", "", " ", "0", "00", "nil", "network", "device", strings.Repeat("long", 70), strings.Repeat("long", 70) + "x", "\xff\xfe"}
	xp.Add(&xp.Unit{Prop: "P23", Name: "alike", Cfg: longCfg, Body: func() {
		mcrt.DirectMode(true)
		st := network.NewStore()
		r := &reg{st: st, want: map[string]entry{}}
		x := r.outside()
		only := mcrt.Choose(len(alike)+1, "stored") // one of them, or all
		isNet := mcrt.Choose(2, "kind") == 1
		down := mcrt.Choose(2, "order") == 1
		for j := range alike {
			i := j
			if down {
				i = len(alike) - 1 - j
			}
			if only > 0 && i != only-1 {
				continue
			}
			k := alike[i]
			if isNet {
				if err := st.NewNetwork(k, "", "10.0.0.5", 50000+i, 24); err != nil {
					mcrt.Fail("a network %q: %v", k, err)
				}
				r.want[k] = entry{false, 50000 + i}
			} else {
				if err := st.UpdateDevice(k, x, dev23(100+i)); err != nil {
					mcrt.Fail("a device %q: %v", k, err)
				}
				r.want[k] = entry{true, 100 + i}
			}
		}
		for _, k := range append(append([]string{}, alike...), "never", "b") {
			e, ok := r.want[k]
			n, err := st.GetNetwork(k)
			if ok && isNet && (err != nil || n == nil || n.Port != e.n) || !(ok && isNet) && (err == nil || n != nil) {
				mcrt.Fail("with %d names stored, the network %q is %+v, %v", len(r.want), k, n, err)
			}
			d, err := st.GetDevice(k)
			if ok && !isNet && (err != nil || d == nil || d.DeviceID != e.n) || !(ok && !isNet) && (err == nil || d != nil) {
				mcrt.Fail("with %d names stored, the device %q is %+v, %v", len(r.want), k, d, err)
			}
		}
		mcrt.Log(fmt.Sprint(len(r.want)))
	}})
	// Long object lists.
	xp.Add(&xp.Unit{Prop: "P19", Name: "long-lists", Weight: 2, Cfg: bigCfg, Body: func() {
		ns := []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1023, 1025, 2100}
		if xp.Deep {
			ns = append(ns, 4097, 10001)
		}
		n := ns[mcrt.Choose(len(ns), "length")]
		scan(scanDevice(n, []int{480, 1476, 206, 128, 50}[mcrt.Choose(5, "size")], ""), true, nil)
	}})
	// Object lists as long as their numbers can count, of objects that are not asked for their names.
	xp.Add(&xp.Unit{Prop: "P19", Name: "very-long-lists", Weight: 2, Cfg: bigCfg, Body: func() {
		ns := []int{16384, 32767, 32768, 65535, 65536, 65537}
		if xp.Deep {
			ns = append(ns, 100000, 131073)
		}
		n := ns[mcrt.Choose(len(ns), "length")]
		d := &model{inst: 100, ip: ipDevA, max: []int{1476, 480}[mcrt.Choose(2, "size")], seg: 3, objs: []mobj{named(8, 100, "")}}
		step := []int{1, 31}[mcrt.Choose(2, "spacing")]
		for i := 1; i < n; i++ {
			d.objs = append(d.objs, mobj{id: btypes.ObjectID{Type: btypes.ObjectType(129 + i%2), Instance: btypes.ObjectInstance(i * step)}})
		}
		scan(d, true, nil)
	}})
	// Everything a device may announce.
	xp.Add(&xp.Unit{Prop: "P10", Name: "limits", Weight: 2, Cfg: plainCfg, Body: func() {
		w := newCW()
		s := &search{opts: rangeOpts[mcrt.Choose(2, "range")]}
		from, port := ip4{10, 0, 0, 27}, bacPort+1
		field := mcrt.Choose(6, "field")
		switch field {
		case 3:
			v := []ip4{{10, 0, 1, 0}, {10, 0, 1, 255}, {10, 0, 0, 1}, {10, 0, 0, 254}, {10, 255, 255, 254}, {192, 168, 0, 0}, {172, 16, 255, 255}, {1, 1, 1, 1}, {223, 255, 255, 255}, {128, 0, 0, 128}, {127, 0, 0, 1}}
			from = v[mcrt.Choose(len(v), "ip")]
		case 4:
			v := []int{1, 2, 127, 128, 255, 256, 1023, 1024, 32767, 32768, 47807, 47808, 49152, 65534, 65535}
			port = v[mcrt.Choose(len(v), "port")]
		}
		h := announceFrom(7, mcrt.Choose(nVias, "way"), from, port)
		if field == 5 {
			n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 18, 20, 32}[mcrt.Choose(13, "length")]
			fill := []byte{0, 7, 0xF0}[mcrt.Choose(3, "bytes")]
			h = announceAt(7, []int{viaRouter, viaRouter6, viaForwardRouter}[mcrt.Choose(3, "way")], from, port, append(bytes.Repeat([]byte{fill}, n-1), 9))
		}
		g := announce(8, viaDirect)
		body := func(f func()) {
			old := ref.IAm(h.dev.inst, h.dev.apdu, h.dev.seg, h.dev.vendor)
			f()
			i := bytes.Index(h.data, old)
			b := ref.Cat(h.data[:i], ref.IAm(h.dev.inst, h.dev.apdu, h.dev.seg, h.dev.vendor))
			b[2], b[3] = byte(len(b)>>8), byte(len(b))
			h.data = b
		}
		body(func() {
			switch field {
			case 0:
				v := []uint32{0, 1, 49, 50, 127, 128, 206, 255, 256, 480, 1024, 1476, 1497, 32767, 32768, 65535, 65536}
				h.dev.apdu = v[mcrt.Choose(len(v), "size limit")]
			case 1:
				h.dev.seg = uint32(mcrt.Choose(4, "segmentation"))
			case 2:
				v := []uint32{0, 1, 127, 128, 255, 256, 260, 999, 32767, 32768, 65535}
				h.dev.vendor = v[mcrt.Choose(len(v), "vendor")]
			}
		})
		var hs []*heard
		w.other = func(m *wire) {
			for _, x := range []*heard{h, g} {
				hs = append(hs, x)
				w.hear(0, x)
			}
		}
		s.do(w)
		s.judge(hs)
		mcrt.Log("%d", len(s.devs))
	}})
	// Everything a discovered device may say about itself and its place.
	xp.Add(&xp.Unit{Prop: "P22", Name: "domains", Weight: 2, Cfg: plainCfg, Body: func() {
		how := mcrt.Choose(3, "search")
		d := found(3, 10)
		switch mcrt.Choose(7, "field") {
		case 0:
			d.net = []uint16{1, 127, 128, 255, 256, 32767, 32768, 40000, 65534}[mcrt.Choose(9, "network")]
		case 1:
			d.adr = []byte{[]byte{0, 1, 127, 128, 200, 254, 255}[mcrt.Choose(7, "station")]}
		case 2:
			n := 1 + mcrt.Choose(10, "length")
			d.adr = bytes.Repeat([]byte{0xF0}, n)
		case 3:
			d.port = []int{1, 255, 256, 1023, 1024, 32767, 32768, 47807, 47809, 65535}[mcrt.Choose(10, "port")]
		case 4:
			inst := []int{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 21, 4194301, 4194302}[mcrt.Choose(13, "instance")]
			x := found(3, inst)
			d = x
		case 5:
			d.seg = uint32(mcrt.Choose(4, "segmentation"))
			d.objs[0].props[107] = ref.Enum(d.seg)
			d.vendor = []uint32{0, 1, 255, 256, 999, 32768, 65535}[mcrt.Choose(7, "vendor")]
		case 6:
			d.max = []int{128, 206, 480, 1024, 1476, 1497, 65535}[mcrt.Choose(7, "size limit")]
			d.objs[0].props[62] = uint32(d.max)
			d.seg = uint32(mcrt.Choose(4, "segmentation"))
			d.objs[0].props[107] = ref.Enum(d.seg)
			d.objs[0].props[77] = []string{"", "x", "Gerät 7 °C", strings.Repeat("n", 60)}[mcrt.Choose(4, "name")]
			d.objs[0].props[121] = []string{"v", "", strings.Repeat("v", 60), "x", d.objs[0].props[77].(string)}[mcrt.Choose(5, "vendor name")]
		}
		devs := []*model{d}
		if mcrt.Choose(2, "another") == 1 {
			devs = append(devs, found(0, 4194300))
			if d.inst > 4194300 {
				devs[0], devs[1] = devs[1], devs[0]
			}
		}
		discovered(how, devs, anyDevice())
	}})
	// Many devices at once.
	xp.Add(&xp.Unit{Prop: "P22", Name: "many", Weight: 2, Cfg: bigCfg, Body: func() {
		how := mcrt.Choose(3, "search")
		n := []int{10, 17, 33, 65, 127, 128, 130}[mcrt.Choose(7, "devices")]
		same := mcrt.Choose(3, "place")
		var devs []*model
		for i := 0; i < n; i++ {
			d := found([]int{0, 3, i % len(spots)}[same], i*31)
			switch {
			case d.net == 0:
				d.ip[3] = byte(100 + i)
			case len(d.adr) == 1:
				d.adr = []byte{byte(i)}
			default:
				d.adr = append([]byte{byte(i)}, d.adr...)
			}
			devs = append(devs, d)
		}
		discovered(how, devs, anyDevice())
	}})
}

func wideCodec() {
	oid := func(i int) btypes.ObjectID {
		return btypes.ObjectID{Type: btypes.ObjectType(i % 20), Instance: btypes.ObjectInstance(i)}
	}
	// Answers with many elements, many properties and many objects.
	xp.Add(&xp.Unit{Prop: "P16", Name: "large", NoReset: true, Seq: func(c *xp.C) {
		sizes := []int{64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1025, 4097}
		n := sizes[c.Choose(len(sizes))]
		mcrt.SeqReset(1<<26, 1<<28)
		val := func(kind, i int) interface{} {
			switch kind {
			case 0:
				return oid(i)
			case 1:
				return uint32(i * 17)
			case 2:
				return fmt.Sprint("s", i)
			}
			return []interface{}{null.Null{}, float32(i), i%2 == 0, ref.Octets{byte(i), 0x3F}}[i%4]
		}
		kind := c.Choose(4)
		shape := c.Choose(4)
		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, val(kind, i))
		}
		list := ref.Prop{Type: 76, Index: ref.ArrayAll, Value: l}
		one := ref.Prop{Type: 77, Index: ref.ArrayAll, Value: "x"}
		var objs []ref.Obj
		switch shape {
		case 0: // the list alone
			m := ref.ReadPropertyAck(anIDs[0], list)
			got, err := decodeRead(m)
			if err != nil || len(got.Object.Properties) != 1 || sameProp(list, got.Object.Properties[0]) != "" {
				c.Fail("a list of %d decodes to %v, %v", n, short(got), err)
			}
			if got, err := decodeRead(m[:len(m)-1]); err == nil {
				c.Fail("a list of %d without its end decodes to %v", n, short(got))
			}
			c.Note("list")
			return
		case 1: // between others
			objs = []ref.Obj{{ID: anIDs[0], Props: []ref.Prop{one, list, one}}, {ID: anIDs[1], Props: []ref.Prop{list}}}
		case 2: // properties
			o := ref.Obj{ID: anIDs[0]}
			for i, v := range l {
				o.Props = append(o.Props, ref.Prop{Type: uint32(i), Index: ref.ArrayAll, Value: v})
			}
			objs = []ref.Obj{o, {ID: anIDs[1], Props: []ref.Prop{one}}}
		case 3: // objects
			for i, v := range l {
				objs = append(objs, ref.Obj{ID: oid(i), Props: []ref.Prop{{Type: 85, Index: uint32(i), Value: v}, one}[:1+i%2]})
			}
		}
		m := ref.ReadMultipleAck(objs)
		got, err := decodeMulti(m)
		if err != nil {
			c.Fail("%d, shape %d: %v", n, shape, err)
		}
		if s := sameObjs(objs, got.Objects); s != "" {
			c.Fail("%d, shape %d: %s", n, shape, s)
		}
		if _, err := decodeMulti(m[:len(m)-1]); err == nil {
			c.Fail("%d, shape %d: without its end it decodes", n, shape)
		}
		// an error far into it is an error
		o := &objs[len(objs)-1]
		o.Props[len(o.Props)-1].Err = &[2]uint32{2, 32}
		if _, err := decodeMulti(ref.ReadMultipleAck(objs)); err == nil {
			c.Fail("%d, shape %d: the error at its end is lost", n, shape)
		}
		c.Note("shape %d", shape)
	}})
	// Network headers with every length of address.
	xp.Add(&xp.Unit{Prop: "P15", Name: "address-lengths", NoReset: true, Seq: func(c *xp.C) {
		n := c.Choose(256)
		adr := make([]byte, n)
		for i := range adr {
			adr[i] = byte(i*3 + n)
		}
		for _, net := range []uint16{1, 255, 256, 32767, 32768, 65534, 65535} {
			for k := 0; k < 3; k++ {
				for _, mt := range []int{-1, 0x12, 0x80} {
					c.Step()
					p := &btypes.NPDU{Version: 1, HopCount: 255, VendorId: 300}
					if k != 1 {
						p.Destination = &btypes.Address{Net: net, Len: uint8(n), Adr: adr}
					}
					if k != 0 {
						if n == 0 {
							continue
						}
						p.Source = &btypes.Address{Net: net, Len: uint8(n), Adr: adr}
					}
					std := ref.NPDU(refAddr(p.Destination), refAddr(p.Source), 255, false, mt >= 0, 0)
					if mt >= 0 {
						p.IsNetworkLayerMessage = true
						setMT(p, uint8(mt))
						std = append(std, byte(mt))
						if mt >= 0x80 {
							std = append(std, 1, 44)
						}
					}
					e := encoding.NewEncoder()
					e.NPDU(p)
					if e.Error() != nil || !bytes.Equal(e.Bytes(), std) {
						c.Fail("%+v is encoded as % x, %v instead of % x", p, clip(e.Bytes()), e.Error(), clip(std))
					}
					d := encoding.NewDecoder(append(append([]byte{}, std...), trailer...))
					var o btypes.NPDU
					_, err := d.NPDU(&o)
					if err != nil || !sameAddr(refAddr(p.Destination), o.Destination) || !sameAddr(refAddr(p.Source), o.Source) || o.IsNetworkLayerMessage != (mt >= 0) {
						c.Fail("% x decodes to %+v dst %+v src %+v, %v", clip(std), o, o.Destination, o.Source, err)
					}
					if !bytes.Equal(d.Bytes(), trailer) {
						c.Fail("decoding % x leaves % x", clip(std), clip(d.Bytes()))
					}
				}
			}
		}
		c.Note("%v", n == 0)
	}})
	// Very long texts.
	xp.Add(&xp.Unit{Prop: "P14", Name: "huge", NoReset: true, Seq: func(c *xp.C) {
		ns := []int{1<<17 - 1, 1 << 17, 1<<20 - 2, 1<<20 - 1, 1 << 20, 1<<20 + 1}
		if c.Deep {
			ns = append(ns, 1<<24-2, 1<<24-1, 1<<24, 1<<24+1)
		}
		n := ns[c.Choose(len(ns))]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%23)
		}
		if c.Bool() {
			roundTrip(c, string(b), false)
		} else {
			decodes(c, ref.App(ref.Octets(b)), ref.Octets(b))
		}
		c.Note("ok")
	}})
	// Every size of index, property and instance, in single and multiple requests.
	xp.Add(&xp.Unit{Prop: "P12", Name: "extremes", NoReset: true, Seq: func(c *xp.C) {
		var idx []uint32
		for k := 0; k < 32; k++ {
			idx = append(idx, 1<<k-1, 1<<k, 1<<k+1)
		}
		idx = append(idx, 0xFFFFFFFE, ref.ArrayAll, 0x7FFFFFFF, 0xFF00FF, 0x01000000)
		ix := idx[c.Choose(len(idx))]
		var pts []uint32
		for k := 0; k < 22; k++ {
			pts = append(pts, 1<<k, 1<<(k+1)-1)
		}
		for _, pt := range pts {
			for _, o := range []btypes.ObjectID{{Type: 2, Instance: 5}, {Type: 1023, Instance: 0x3FFFFF}, {Type: 0, Instance: 0}, {Type: 512, Instance: 0x200000}} {
				c.Step()
				p := ref.Prop{Type: pt, Index: ix, Value: float32(1), Prio: pt % 17}
				q := ref.Prop{Type: 85, Index: ref.ArrayAll, Value: uint32(2), Prio: 8}
				objs := []ref.Obj{{ID: o, Props: []ref.Prop{p, q}}, {ID: anIDs[0], Props: []ref.Prop{q, p}}}
				var m btypes.MultiplePropertyData
				for _, x := range objs {
					m.Objects = append(m.Objects, toObj(x))
				}
				single := btypes.PropertyData{Object: toObj(ref.Obj{ID: o, Props: []ref.Prop{p}})}
				for _, t := range []struct {
					what string
					svc  uint8
					body []byte
					enc  func(e *encoding.Encoder) error
				}{
					{"reading", 12, ref.ReadPropertyReq(o, p), func(e *encoding.Encoder) error { return e.ReadProperty(7, single) }},
					{"writing", 15, ref.WritePropertyReq(o, p), func(e *encoding.Encoder) error { return e.WriteProperty(7, single) }},
					{"reading several", 14, ref.ReadMultipleReq(objs), func(e *encoding.Encoder) error { return e.ReadMultipleProperty(7, m) }},
					{"writing several", 16, ref.WriteMultipleReq(objs), func(e *encoding.Encoder) error { return e.WriteMultiProperty(7, m) }},
				} {
					e := encoding.NewEncoder()
					err := t.enc(e)
					std := append(ref.Confirmed(7, t.svc), t.body...)
					if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), std) {
						c.Fail("%s %v %v is encoded as % x, %v %v, instead of % x", t.what, o, p, clip(e.Bytes()), err, e.Error(), clip(std))
					}
				}
			}
		}
		c.Note("ok")
	}})
}

func init() {
	wideUtsm("P04")
	wideUtsm("P05")
	wideTsm()
	wideNetwork()
	wideCodec()
}
