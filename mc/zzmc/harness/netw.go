package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// nw is the network package's view of a network of model devices.
type nw struct {
	*mw
	net   *network.Network
	store *network.Store
}

func newNW(devs ...*model) *nw {
	mcrt.DirectMode(true)
	st := network.NewStore()
	n, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: bacPort, Store: st, StoreID: "net"})
	if err != nil || n == nil {
		mcrt.Fail("network.New: %v", err)
	}
	w := &nw{mw: &mw{cw: &cw{}, devs: devs}, net: n, store: st}
	w.sock = mcrt.Sockets()[0]
	mcrt.OnSend(w.serve)
	w.run = mcrt.GoHarness("receive", n.NetworkRun)
	mcrt.DirectMode(false)
	settle()
	return w
}

func (d *model) netDevice() *network.Device {
	x := &network.Device{Ip: fmt.Sprintf("%d.%d.%d.%d", d.ip[0], d.ip[1], d.ip[2], d.ip[3]), Port: d.port, DeviceID: int(d.inst), NetworkNumber: int(d.net),
		MaxApdu: uint32(d.max), Segmentation: d.seg, StoreID: fmt.Sprint("dev", d.inst)}
	if len(d.adr) > 0 {
		x.MacMSTP = int(d.adr[0])
	}
	return x
}

func (w *nw) device(d *model) *network.Device {
	x, err := network.NewDevice(w.net, d.netDevice())
	if err != nil || x == nil {
		mcrt.Fail("NewDevice: %v", err)
	}
	return x
}

// places where a device can be
var places = []model{
	{ip: ipDevA},
	{ip: ipDevB, port: 47900},
	{ip: ipDevA, net: 5, adr: []byte{7}},
	{ip: ipDevA, port: 1, net: 65534, adr: []byte{255}},
	{ip: ipDevB, port: 65535, net: 5, adr: []byte{0}},
}

func placed(i int) *model {
	d := places[i]
	d.inst, d.max, d.seg = 100, 480, 3
	return &d
}

// ---------------------------------------------------------------- P20: object lists

func (d *model) sameList(got []btypes.ObjectID) string {
	if len(got) != len(d.objs) {
		return fmt.Sprintf("the list has %d of %d objects: %v", len(got), len(d.objs), got)
	}
	for i, o := range d.objs {
		if got[i] != o.id {
			return fmt.Sprintf("element %d of the list is %v instead of %v", i+1, got[i], o.id)
		}
	}
	return ""
}

func objectList(w *nw, d *model, must bool) {
	dev := w.device(d)
	got, err := dev.DeviceObjects(btypes.ObjectInstance(d.inst), mcrt.Choose(2, "search first") == 1)
	if err == nil {
		if s := d.sameList(got); s != "" {
			mcrt.Fail("%s", s)
		}
	} else if must {
		mcrt.Fail("the object list of a device that answers everything: %v", err)
	}
	if err != nil {
		mcrt.Log("error")
	} else {
		mcrt.Log("list")
	}
}

// tampers are the ways in which a device may fail to answer.
func failures() []func(m *wire) []byte {
	return []func(m *wire) []byte{
		func(m *wire) []byte { return nil },
		func(m *wire) []byte { return ref.ErrorPDU(m.id, m.svc, 2, 31) },
		func(m *wire) []byte { return []byte{0x71, m.id, 4} },
		func(m *wire) []byte { return []byte{0x60, m.id, 9} },
		func(m *wire) []byte { return []byte{0x20, m.id, m.svc} },
		func(m *wire) []byte { return []byte{0x30, m.id, m.svc} },
	}
}

// allValues are values of all types.
func allValues() []interface{} {
	id := btypes.ObjectID{Type: 4, Instance: 77}
	return []interface{}{uint32(3), uint32(0), null.Null{}, float32(2), float64(7), int32(-1), "x", "", true, false, ref.Enum(1), ref.Bits{true, false, true}, ref.Octets{1, 2}, id,
		[]interface{}{}, []interface{}{"x", "y"}, []interface{}{id, id}, []interface{}{uint32(1), uint32(2)}, []interface{}{id, null.Null{}}, []interface{}{null.Null{}, id}}
}

func listDevice(place, n int) *model {
	d := placed(place)
	for i := 0; i < n; i++ {
		d.objs = append(d.objs, mobj{id: btypes.ObjectID{Type: btypes.ObjectType([]int{8, 0, 2, 200, 1023}[i%5]), Instance: btypes.ObjectInstance([]int{100, 1, 3, 0x3FFFFE}[i%4] - i%2)}})
	}
	return d
}

// ---------------------------------------------------------------- P21: points

// numberOf is what a value says as a number; ok is false if it says none.
func numberOf(v interface{}) (x float64, ok bool) {
	switch y := v.(type) {
	case uint32:
		return float64(y), true
	case int32:
		return float64(y), true
	case float32:
		return float64(y), true
	case float64:
		return y, true
	case ref.Enum:
		return float64(y), true
	}
	return 0, false
}

func sameNumber(v interface{}, got float64) bool {
	x, ok := numberOf(v)
	return ok && (x == got || x != x && got != got || float64(float32(x)) == got)
}

func pointValues() []interface{} {
	out := allValues()
	for _, f := range []float32{0, -0.5, 1.5, 1e30, -1e-30, float32(math.Inf(1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32} {
		out = append(out, f)
	}
	for _, u := range []uint32{1, 2, 255, 256, 65535, 1 << 24, 1<<32 - 1} {
		out = append(out, u, ref.Enum(u))
	}
	return append(out, "a name", "näme", ref.Enum(0), float64(1.5), int32(5), &refusal{class: 2, code: 32}, &refusal{class: 1, code: 31}, &refusal{abort: 4})
}

var pointTypes = []btypes.ObjectType{0, 1, 2, 3, 4, 5, 13, 14, 19}

func pointName(t btypes.ObjectType) string {
	return []string{"AI", "AO", "AV", "BI", "BO", "BV"}[t]
}

func isBin(t btypes.ObjectType) bool { return t >= 3 && t <= 5 }
func isAna(t btypes.ObjectType) bool { return t <= 2 }

func prioritySlots(p *priority.Float32) []*float32 {
	return []*float32{p.P1, p.P2, p.P3, p.P4, p.P5, p.P6, p.P7, p.P8, p.P9, p.P10, p.P11, p.P12, p.P13, p.P14, p.P15, p.P16}
}

// checkDetails: what is said about a point is what the device says, or is left out. Without fail everything has to be there.
func checkDetails(r *network.PointDetails, o mobj, fail bool) string {
	if r.ObjectID != o.id.Instance || r.ObjectType != o.id.Type || r.PointType != o.id.Type.String() {
		return fmt.Sprintf("the details of %v are those of %v %v", o.id, r.PointType, r.ObjectID)
	}
	name, named := o.props[77].(string)
	if r.Name != name && r.Name != "" || named && !fail && r.Name != name {
		return fmt.Sprintf("the details of %v have the name %q instead of %q", o.id, r.Name, name)
	}
	left := r.Unit == 0 && r.UnitString == ""
	u, has := numberOf(o.props[117])
	switch {
	case left && (fail || !has || isBin(o.id.Type)):
	case !has || float64(r.Unit) != u || !wellNamed(stdUnits, r.Unit, r.UnitString):
		return fmt.Sprintf("the details of %v have the unit %d %q, the device says %v", o.id, r.Unit, r.UnitString, o.props[117])
	}
	return ""
}

var writtenTexts = []string{"", "x", "näme", " a  b ", "%s%d%%", "a\x00b", "\xFF\xFE", strings.Repeat("n", 200), strings.Repeat("é", 126), strings.Repeat("n", 253), strings.Repeat("n", 254), strings.Repeat("n", 256), strings.Repeat("ü", 200)}

func init() {
	xp.Add(&xp.Unit{Prop: "P20", Name: "lists", Weight: 2, Cfg: plainCfg, Body: func() {
		max := 41
		if xp.Deep {
			max = 300
		}
		n := mcrt.Choose(max, "length")
		d := listDevice(mcrt.Choose(len(places), "place"), n)
		must := true
		switch mode := mcrt.Choose(7, "mode"); mode {
		case 0:
			d.max = 1476
		case 1:
			d.max = 50 // as far as it fits
		default:
			d.max = 1476
			d.listAll = &refusal{abort: 4}
		}
		if d.listAll != nil {
			k := mcrt.Choose(5, "refusal")
			d.listAll = []*refusal{{abort: 4}, {abort: 1}, {class: 2, code: 31}, {class: 7, code: 131}, {}}[k]
		}
		w := newNW(d)
		if d.listAll != nil && *d.listAll == (refusal{}) {
			// silent about the whole list
			w.tamper = func(n int, _ *model, m *wire, a []byte) []byte {
				if r, ok := readReq(m.svc, m.service); ok && r[0].index == ref.ArrayAll {
					return nil
				}
				return a
			}
		}
		objectList(w, d, must)
	}})
	xp.Add(&xp.Unit{Prop: "P20", Name: "long-lists", Cfg: plainCfg, Body: func() {
		d := listDevice(0, []int{255, 256, 257, 600}[mcrt.Choose(4, "length")])
		d.max = []int{50, 1476}[mcrt.Choose(2, "size")]
		objectList(newNW(d), d, true)
	}})
	xp.Add(&xp.Unit{Prop: "P20", Name: "failures", Weight: 2, Cfg: plainCfg, Body: func() {
		n := mcrt.Choose(7, "length")
		d := listDevice(0, n)
		d.max = 1476
		if mcrt.Choose(2, "by element") == 1 {
			d.listAll = &refusal{class: 7, code: 131}
		}
		at, more := mcrt.Choose(9, "step"), mcrt.Choose(3, "further failures")
		fs, vs := failures(), allValues()
		k := mcrt.Choose(len(fs)+len(vs), "failure")
		w := newNW(d)
		must := true
		w.tamper = func(i int, _ *model, m *wire, a []byte) []byte {
			if i < at || i > at+more || m.svc != 12 {
				return a
			}
			r, ok := readReq(m.svc, m.service)
			if !ok {
				return a
			}
			must = false
			if k < len(fs) {
				return fs[k](m)
			}
			v := vs[k-len(fs)]
			// another number, object or list would be a true answer of another device
			switch v.(type) {
			case uint32, ref.Enum:
				if r[0].index == 0 {
					return a
				}
			case btypes.ObjectID:
				if r[0].index != 0 {
					return a
				}
			case []interface{}:
				if l := v.([]interface{}); r[0].index == ref.ArrayAll && (len(l) == 0 || l[0] == l[1]) {
					return a
				}
			}
			return ref.Cat([]byte{0x30, m.id, 12}, ref.ReadPropertyAck(r[0].obj, ref.Prop{Type: r[0].prop, Index: r[0].index, Value: v}))
		}
		dev := w.device(d)
		got, err := dev.DeviceObjects(100, false)
		if err == nil {
			if s := d.sameList(got); s != "" {
				mcrt.Fail("%s", s)
			}
			mcrt.Log("list")
			return
		}
		if must {
			mcrt.Fail("the object list of a device that answers everything: %v", err)
		}
		mcrt.Log("error")
	}})

	// ------------------------------------------------------------ P21
	vals := pointValues()
	xp.Add(&xp.Unit{Prop: "P21", Name: "reads", Weight: 2, Cfg: plainCfg, Body: func() {
		d := placed(mcrt.Choose(len(places), "place"))
		t := pointTypes[mcrt.Choose(len(pointTypes), "type")]
		v := vals[mcrt.Choose(len(vals), "value")]
		inst := []int{0, 1, 0x3FFFFE}[mcrt.Choose(3, "instance")]
		op := mcrt.Choose(6, "operation")
		prop := uint32(85)
		if op >= 3 {
			prop = 77
		}
		o := mobj{btypes.ObjectID{Type: t, Instance: btypes.ObjectInstance(inst)}, map[uint32]interface{}{prop: v}}
		d.objs = []mobj{{btypes.ObjectID{Type: t, Instance: 3}, map[uint32]interface{}{77: "another", 85: float32(99)}},
			{btypes.ObjectID{Type: 8, Instance: 100}, map[uint32]interface{}{77: v}}, o}
		w := newNW(d)
		dev := w.device(d)
		p := &network.Point{ObjectID: o.id.Instance, ObjectType: t}
		var x float64
		var s string
		var err error
		switch op {
		case 0:
			var f float32
			f, err = dev.PointReadFloat32(p)
			x = float64(f)
		case 1:
			var u uint32
			u, err = dev.PointReadBool(p)
			x = float64(u)
		case 2:
			var u uint32
			u, err = dev.PointReadMultiState(p)
			x = float64(u)
		case 3:
			s, err = dev.ReadPointName(p)
		case 4:
			s, err = dev.ReadDeviceName(100)
		case 5:
			s, err = dev.ReadString(&network.Object{ObjectID: p.ObjectID, ObjectType: t, Prop: 77, ArrayIndex: ref.ArrayAll})
		}
		_, isF := v.(float32)
		_, isU := v.(uint32)
		_, isE := v.(ref.Enum)
		str, isS := v.(string)
		must := op == 0 && isF || (op == 1 || op == 2) && (isU || isE) || op >= 3 && isS
		switch {
		case err != nil && must:
			mcrt.Fail("reading %#v: %v", v, err)
		case err == nil && op >= 3 && (!isS || s != str):
			mcrt.Fail("the device sends %#v and %q is returned", v, s)
		case err == nil && op < 3 && !sameNumber(v, x):
			mcrt.Fail("the device sends %#v and %v is returned", v, x)
		}
		mcrt.Log(fmt.Sprint(op, err == nil))
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "read-failures", Cfg: plainCfg, Body: func() {
		d := placed(0)
		d.objs = []mobj{{btypes.ObjectID{Type: 2, Instance: 1}, map[uint32]interface{}{77: "n", 85: float32(2), 117: ref.Enum(62)}}, {btypes.ObjectID{Type: 8, Instance: 100}, map[uint32]interface{}{77: "n"}}}
		w := newNW(d)
		dev := w.device(d)
		fs := failures()
		k := mcrt.Choose(len(fs), "failure")
		w.tamper = func(n int, _ *model, m *wire, a []byte) []byte { return fs[k](m) }
		p := &network.Point{ObjectID: 1, ObjectType: 2}
		var err error
		op := mcrt.Choose(10, "operation")
		t0 := mcrt.NowNS()
		switch op {
		case 0:
			_, err = dev.PointReadFloat32(p)
		case 1:
			_, err = dev.PointReadBool(p)
		case 2:
			_, err = dev.PointReadMultiState(p)
		case 3:
			_, err = dev.ReadPointName(p)
		case 4:
			_, err = dev.ReadDeviceName(100)
		case 5:
			_, err = dev.PointReadPriority(p)
		case 6:
			var r *network.PointDetails
			r, err = dev.PointDetails(p)
			if r != nil {
				if s := checkDetails(r, d.objs[0], true); s != "" {
					mcrt.Fail("%s", s)
				}
			}
		case 7:
			err = dev.PointWriteAnalogue(p, 2)
		case 8:
			err = dev.PointReleasePriority(p, 8)
		case 9:
			err = dev.WritePointName(p, "x")
		}
		if err == nil && !(k == 4 && op >= 7) {
			mcrt.Fail("operation %d succeeds although the device answers with failure %d", op, k)
		}
		if x := mcrt.NowNS() - t0; x > 21*time.Second {
			mcrt.Fail("operation %d takes %v", op, x)
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "priority-arrays", Weight: 2, Cfg: plainCfg, Body: func() {
		d := placed(mcrt.Choose(2, "place"))
		t := pointTypes[mcrt.Choose(len(pointTypes), "type")]
		set := []interface{}{null.Null{}, null.Null{}}
		switch {
		case isAna(t):
			set = append(set, float32(0), float32(-1.5), float32(math.MaxFloat32))
		case isBin(t):
			set = append(set, ref.Enum(0), ref.Enum(1))
		default:
			set = append(set, uint32(1), uint32(300))
		}
		// two positions of all, with all values, the others null or another value
		rest := set[1+mcrt.Choose(2, "rest")]
		arr := make([]interface{}, 16)
		for i := range arr {
			arr[i] = rest
		}
		i := mcrt.Choose(16, "first")
		j := i + mcrt.Choose(16-i, "second")
		arr[i] = set[1+mcrt.Choose(len(set)-1, "value")]
		arr[j] = set[1+mcrt.Choose(len(set)-1, "value")]
		id := btypes.ObjectID{Type: t, Instance: 9}
		d.objs = []mobj{{id, map[uint32]interface{}{87: arr}}}
		w := newNW(d)
		r, err := w.device(d).PointReadPriority(&network.Point{ObjectID: 9, ObjectType: t})
		if err != nil || r == nil {
			mcrt.Fail("reading the priority array %v of %v: %v", arr, id, err)
		}
		var high *float32
		for i, s := range prioritySlots(r) {
			if _, isNull := arr[i].(null.Null); isNull != (s == nil) || s != nil && !sameNumber(arr[i], float64(*s)) {
				mcrt.Fail("priority %d of %v is returned as %v", i+1, arr, s)
			}
			if high == nil {
				high = s
			}
		}
		if h := r.HighestFloat32(); (h == nil) != (high == nil) || h != nil && *h != *high {
			mcrt.Fail("the highest priority of %v is not %v", arr, h)
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "odd-priority-arrays", Cfg: plainCfg, Body: func() {
		// an array that is none
		d := placed(0)
		t := pointTypes[mcrt.Choose(len(pointTypes), "type")]
		var v interface{}
		n := mcrt.Choose(20, "length")
		vs := pointValues()
		k := mcrt.Choose(len(vs), "value")
		switch n {
		case 19:
			v = vs[k] // alone
		default:
			if _, no := vs[k].(*refusal); no {
				return
			}
			if _, no := vs[k].([]interface{}); no {
				return
			}
			arr := make([]interface{}, n)
			for i := range arr {
				arr[i] = null.Null{}
			}
			if n > 0 {
				arr[[]int{0, n / 2, n - 1}[mcrt.Choose(3, "position")]] = vs[k]
			}
			v = arr
		}
		id := btypes.ObjectID{Type: t, Instance: 9}
		d.objs = []mobj{{id, map[uint32]interface{}{87: v}}}
		w := newNW(d)
		r, err := w.device(d).PointReadPriority(&network.Point{ObjectID: 9, ObjectType: t})
		if err != nil {
			mcrt.Log("error")
			return
		}
		arr, ok := v.([]interface{})
		if !ok || len(arr) != 16 || r == nil {
			mcrt.Fail("%v is returned as the priority array %+v", v, r)
		}
		for i, s := range prioritySlots(r) {
			if _, isNull := arr[i].(null.Null); isNull != (s == nil) || s != nil && !sameNumber(arr[i], float64(*s)) {
				mcrt.Fail("priority %d of %v is returned as %v", i+1, arr, s)
			}
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "details", Cfg: plainCfg, Body: func() {
		d := placed(mcrt.Choose(len(places), "place"))
		t := append([]btypes.ObjectType{200, 8, 20}, pointTypes...)[mcrt.Choose(len(pointTypes)+3, "type")]
		names := []interface{}{"name", "", uint32(4), &refusal{class: 2, code: 32}, &refusal{abort: 4}, []interface{}{"a", "b"}}
		us := []interface{}{ref.Enum(62), ref.Enum(0), ref.Enum(95), uint32(64), "x", float32(2), &refusal{class: 2, code: 32}, &refusal{abort: 4}, []interface{}{}, ref.Enum(1 << 20)}
		o := mobj{btypes.ObjectID{Type: t, Instance: 4}, map[uint32]interface{}{77: names[mcrt.Choose(len(names), "name")], 117: us[mcrt.Choose(len(us), "unit")]}}
		d.objs = []mobj{o}
		w := newNW(d)
		r, err := w.device(d).PointDetails(&network.Point{ObjectID: 4, ObjectType: t})
		_, named := o.props[77].(string)
		_, unit := numberOf(o.props[117])
		if _, f := o.props[117].(float32); f {
			unit = false
		}
		if err == nil && !named {
			mcrt.Fail("the name is %v and the details have %+v", o.props[77], r)
		}
		if err == nil && isAna(t) && !unit {
			mcrt.Fail("the unit is %v and the details have %+v", o.props[117], r)
		}
		if err != nil && named && (unit || !isAna(t)) {
			mcrt.Fail("the details of %v: %v", o, err)
		}
		if r != nil {
			if s := checkDetails(r, o, err != nil || !unit); s != "" {
				mcrt.Fail("%s", s)
			}
		}
		mcrt.Log(fmt.Sprint(err == nil))
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "device-points", Cfg: plainCfg, Body: func() {
		// all points of a device
		d := placed(mcrt.Choose(len(places), "place"))
		if mcrt.Choose(2, "by element") == 1 {
			d.listAll = &refusal{class: 7, code: 131}
		}
		d.objs = []mobj{{btypes.ObjectID{Type: 8, Instance: 100}, map[uint32]interface{}{77: "device"}}}
		n := mcrt.Choose(4, "points")
		first := []int{0, 100, 99}[mcrt.Choose(3, "first")] // also the number of the device itself
		for i := 0; i < n; i++ {
			t := []btypes.ObjectType{0, 5, 19, 2}[mcrt.Choose(4, "type")]
			o := mobj{btypes.ObjectID{Type: t, Instance: btypes.ObjectInstance(first + i)}, map[uint32]interface{}{77: fmt.Sprint("point ", i), 117: ref.Enum(60 + i)}}
			switch mcrt.Choose(3, "answers") {
			case 1:
				o.props[117] = &refusal{class: 2, code: 32}
			case 2:
				o.props[77] = &refusal{class: 2, code: 31}
			}
			d.objs = append(d.objs, o)
		}
		w := newNW(d)
		r, err := w.device(d).GetDevicePoints(100)
		if err != nil || len(r) != n {
			mcrt.Fail("%d points are returned as %d, %v", n, len(r), err)
		}
		for i, x := range r {
			o := d.objs[i+1]
			_, bad := o.props[77].(*refusal)
			if s := checkDetails(x, o, bad); s != "" {
				mcrt.Fail("%s", s)
			}
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "writes", Weight: 2, Cfg: plainCfg, Body: func() {
		d := placed(mcrt.Choose(len(places), "place"))
		t := pointTypes[mcrt.Choose(len(pointTypes), "type")]
		inst := btypes.ObjectInstance([]int{0, 1, 0x3FFFFE}[mcrt.Choose(3, "instance")])
		id := btypes.ObjectID{Type: t, Instance: inst}
		p := &network.Point{ObjectID: inst, ObjectType: t}
		want := ref.Prop{Type: 85, Index: ref.ArrayAll}
		prio := mcrt.Choose(18, "priority")
		if prio == 17 {
			prio = 255
		}
		w := newNW(d)
		dev := w.device(d)
		var body []byte
		n := 0
		w.seen = func(m *wire) {
			n++
			body = append([]byte{}, m.service...)
			if m.svc != 15 {
				mcrt.Fail("a write is sent as service %d", m.svc)
			}
		}
		d.write = func([]byte) *refusal { return nil }
		var err error
		must := true
		switch op := mcrt.Choose(6, "operation"); op {
		case 0:
			f := []float32{0, -1.5, math.MaxFloat32, float32(math.Inf(-1)), float32(math.NaN())}[mcrt.Choose(5, "value")]
			p.WritePriority = uint8(prio)
			want.Value, want.Prio = f, uint32(prio)
			if isBin(t) {
				return // a real value for a binary point is refused
			}
			err = dev.PointWriteAnalogue(p, f)
		case 1:
			u := []uint32{0, 1, 2, 127, 255, 256, 65536, 1<<32 - 1}[mcrt.Choose(8, "value")]
			p.WritePriority = uint8(prio)
			want.Value, want.Prio = ref.Enum(u), uint32(prio)
			if !isBin(t) || t == 3 {
				return // (inputs are not written by this library's rules)
			}
			err = dev.PointWriteBool(p, u)
		case 2:
			u := []uint32{1, 2, 255, 256, 1<<32 - 1}[mcrt.Choose(5, "value")]
			p.WritePriority = uint8(prio)
			want.Value, want.Prio = u, uint32(prio)
			if t < 13 {
				return
			}
			err = dev.PointWriteMultiState(p, u)
		case 3:
			want.Value, want.Prio = null.Null{}, uint32(prio)
			must = prio >= 1 && prio <= 16
			err = dev.PointReleasePriority(p, uint8(prio))
		case 4:
			// a name has no priority, whatever the point has
			p.WritePriority = uint8(prio)
			prio = 0
			want.Type, want.Value = 77, writtenTexts[mcrt.Choose(len(writtenTexts), "value")]
			err = dev.WritePointName(p, want.Value.(string))
		case 5:
			want.Type, want.Value = 77, writtenTexts[mcrt.Choose(len(writtenTexts), "value")]
			id = btypes.ObjectID{Type: 8, Instance: inst}
			err = dev.WriteDeviceName(inst, want.Value.(string))
		}
		switch {
		case !must && (err == nil || n > 0):
			mcrt.Fail("releasing priority %d is accepted (%d requests)", prio, n)
		case must && prio > 16 && err != nil && n == 0:
			// refused
		case must && err != nil:
			mcrt.Fail("writing %+v to %v: %v", want, id, err)
		case must && (n != 1 || !bytes.Equal(body, ref.WritePropertyReq(id, want))):
			mcrt.Fail("writing %+v to %v sends %d requests, the last % x instead of % x", want, id, n, body, ref.WritePropertyReq(id, want))
		}
		mcrt.Log(fmt.Sprint(must, err == nil))
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "release-priorities", Cfg: plainCfg, Body: func() {
		d := placed(0)
		pri := uint8(mcrt.Choose(256, "priority"))
		w := newNW(d)
		dev := w.device(d)
		n := 0
		w.seen = func(m *wire) {
			n++
			if b := ref.WritePropertyReq(btypes.ObjectID{Type: 1, Instance: 3}, ref.Prop{Type: 85, Index: ref.ArrayAll, Value: null.Null{}, Prio: uint32(pri)}); !bytes.Equal(b, m.service) {
				mcrt.Fail("releasing priority %d sends % x", pri, m.service)
			}
		}
		d.write = func([]byte) *refusal { return nil }
		err := dev.PointReleasePriority(&network.Point{ObjectID: 3, ObjectType: 1, WritePriority: 9, WriteValue: float32(3)}, pri)
		if ok := pri >= 1 && pri <= 16; ok != (err == nil) || ok != (n == 1) {
			mcrt.Fail("releasing priority %d: %v, %d requests", pri, err, n)
		}
		if err := dev.PointReleasePriority(nil, pri); err == nil {
			mcrt.Fail("releasing a priority of no point succeeds")
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P21", Name: "elements", Cfg: plainCfg, Body: func() {
		// single elements, and writes of all kinds of values
		d := placed(0)
		l := []interface{}{float32(1), "two", null.Null{}, uint32(4)}
		o := mobj{btypes.ObjectID{Type: 19, Instance: 4}, map[uint32]interface{}{110: l}}
		d.objs = []mobj{o}
		d.write = func([]byte) *refusal { return nil }
		w := newNW(d)
		dev := w.device(d)
		if mcrt.Choose(2, "write") == 0 {
			i := []uint32{0, 1, 2, 3, 4, 5, 255, 256, 65536}[mcrt.Choose(9, "index")]
			r, err := dev.Read(&network.Object{ObjectID: 4, ObjectType: 19, Prop: 110, ArrayIndex: i})
			if (err == nil) != (i <= 4) {
				mcrt.Fail("reading element %d of 4: %v", i, err)
			}
			if err == nil {
				var v interface{} = uint32(4)
				if i > 0 {
					v = l[i-1]
				}
				want := ref.Obj{ID: o.id, Props: []ref.Prop{{Type: 110, Index: i, Value: v}}}
				if s := sameObjs([]ref.Obj{want}, []btypes.Object{r.Object}); s != "" {
					mcrt.Fail("element %d: %s", i, s)
				}
			}
			if _, err := dev.Read(nil); err == nil {
				mcrt.Fail("reading nothing succeeds")
			}
			mcrt.Log("read")
			return
		}
		type wr struct {
			v    interface{}
			null bool
			ok   bool
		}
		ws := []wr{{uint32(7), false, true}, {float32(1.5), false, true}, {float64(1.25), false, true}, {"text", false, true}, {"", false, true}, {nil, true, true}, {uint32(7), true, true},
			{nil, false, false}, {true, false, false}, {int32(-1), false, false}, {int(3), false, false}, {[]byte{1}, false, false}, {struct{}{}, false, false}, {[]interface{}{}, false, false}, {uint8(1), false, false}}
		x := ws[mcrt.Choose(len(ws), "value")]
		prio := uint8([]int{0, 1, 16}[mcrt.Choose(3, "priority")])
		prop := []btypes.PropertyType{85, 77, 104, 4194303}[mcrt.Choose(4, "property")]
		n := 0
		want := ref.Prop{Type: uint32(prop), Index: ref.ArrayAll, Value: x.v, Prio: uint32(prio)}
		if x.null {
			want.Value = null.Null{}
		}
		w.seen = func(m *wire) {
			n++
			if !x.ok || !bytes.Equal(m.service, ref.WritePropertyReq(o.id, want)) {
				mcrt.Fail("writing %+v sends % x", want, m.service)
			}
		}
		err := dev.Write(&network.Write{ObjectID: 4, ObjectType: 19, Prop: prop, WriteValue: x.v, WriteNull: x.null, WritePriority: prio})
		_, known := x.v.(bool)
		_, known2 := x.v.(int32)
		if !x.ok && err == nil && !known && !known2 || x.ok && (err != nil || n != 1) {
			mcrt.Fail("writing %+v: %v, %d requests", want, err, n)
		}
		mcrt.Log(fmt.Sprint("write", err == nil))
	}})
}
