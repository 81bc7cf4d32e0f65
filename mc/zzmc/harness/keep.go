package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/datalink"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- results are independent of each other
//
// What an operation returned belongs to the caller: it stays as it is whatever is done afterwards or at the same time, and
// what the caller does with it changes no later result.

// opaque types are not looked into: the program keeps these to itself.
func opaque(t reflect.Type) bool {
	switch t.String() {
	case "bacnet.Client", "*network.Network", "*network.Store":
		return true
	}
	return t.Kind() == reflect.Func || t.Kind() == reflect.Chan
}

func walk(v reflect.Value, depth int, b *strings.Builder, spoil bool) {
	if !v.IsValid() || depth > 20 {
		b.WriteString("-")
		return
	}
	if opaque(v.Type()) {
		return
	}
	if v.CanAddr() && !v.CanInterface() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(b, "%T:", v.Elem().Type().String())
			b.WriteString(v.Elem().Type().String())
		} else {
			b.WriteString("&")
		}
		walk(v.Elem(), depth+1, b, spoil)
		if spoil && v.Kind() == reflect.Interface && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if opaque(f.Type()) {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			walk(f, depth+1, b, spoil)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), depth+1, b, spoil)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var kb, vb strings.Builder
			walk(k, depth+1, &kb, false)
			walk(v.MapIndex(k), depth+1, &vb, spoil)
			l = append(l, kb.String()+"="+vb.String())
		}
		sort.Strings(l)
		b.WriteString("map[" + strings.Join(l, " ") + "]")
		if spoil {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	default:
		fmt.Fprintf(b, "%#v", v)
		if spoil && v.CanSet() {
			switch v.Kind() {
			case reflect.Bool:
				v.SetBool(!v.Bool())
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				v.SetInt(v.Int() ^ 0x55)
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				v.SetUint(v.Uint() ^ 0x55)
			case reflect.Float32, reflect.Float64:
				v.SetFloat(-4711)
			case reflect.String:
				v.SetString("spoiled")
			}
		}
	}
}

// dump shows everything that can be reached from the values.
func dump(vs ...interface{}) string {
	var b strings.Builder
	for _, v := range vs {
		if e, ok := v.(error); ok {
			b.WriteString(e.Error())
		} else {
			walk(reflect.ValueOf(&v).Elem(), 0, &b, false)
		}
		b.WriteString("; ")
	}
	return b.String()
}

// scribble writes over everything that can be reached from the values.
func scribble(vs ...interface{}) {
	var b strings.Builder
	for i := range vs {
		if _, ok := vs[i].(error); ok || vs[i] == nil {
			continue
		}
		v := reflect.ValueOf(vs[i])
		if v.Kind() == reflect.Slice || v.Kind() == reflect.Map || v.Kind() == reflect.Ptr {
			walk(v, 0, &b, true)
		} else {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			walk(p, 0, &b, true)
		}
	}
}

// ---------------------------------------------------------------- messages

// codec is an operation on messages. It makes its own input and returns everything it produced.
type codec struct {
	name string
	do   func() []interface{}
}

func encAct(name string, f func(e *encoding.Encoder) error) codec {
	return codec{"encode " + name, func() []interface{} {
		e := encoding.NewEncoder()
		err := f(e)
		return []interface{}{e.Bytes(), err, e.Error()}
	}}
}

// independent: pairs of operations do not influence each other.
func independent(acts func() []codec) func(c *xp.C) {
	return func(c *xp.C) {
		l := acts()
		a, b := l[c.Choose(len(l))], l[c.Choose(len(l))]
		mcrt.SeqReset(1000000, 1<<22)
		c.Step()
		ra := a.do()
		want := dump(ra...)
		rb := b.do()
		wb := dump(rb...)
		if s := dump(ra...); s != want {
			c.Fail("%s gives %s, and after %s that is %s", a.name, want, b.name, s)
		}
		ra2 := a.do()
		if s := dump(ra2...); s != want {
			c.Fail("%s gives %s, and after %s %s", a.name, want, b.name, s)
		}
		scribble(ra...)
		if s := dump(rb...); s != wb {
			c.Fail("writing into the result of %s changes that of %s from %s to %s", a.name, b.name, wb, s)
		}
		if s := dump(ra2...); s != want {
			c.Fail("writing into a result of %s changes another from %s to %s", a.name, want, s)
		}
		if s := dump(a.do()...); s != want {
			c.Fail("writing into a result of %s changes a later one from %s to %s", a.name, want, s)
		}
		if s := dump(b.do()...); s != wb {
			c.Fail("writing into a result of %s changes a later one of %s from %s to %s", a.name, b.name, wb, s)
		}
		c.Note("ok")
	}
}

// twoEncoders: two encoders in use at the same time.
func requests(e *encoding.Encoder, k int) error {
	obj := ref.Obj{ID: btypes.ObjectID{Type: 2, Instance: 7}, Props: []ref.Prop{{Type: 85, Index: ref.ArrayAll, Value: float32(1.5), Prio: 8}}}
	two := []ref.Obj{obj, {ID: btypes.ObjectID{Type: 8, Instance: 1234}, Props: []ref.Prop{{Type: 77, Index: 3, Value: "text"}, {Type: 28, Index: ref.ArrayAll, Value: uint32(70000)}}}}
	var m btypes.MultiplePropertyData
	for _, o := range two[:1+k/4%2] {
		m.Objects = append(m.Objects, toObj(o))
	}
	before := dump(m)
	var err error
	switch k % 4 {
	case 0:
		err = e.ReadProperty(uint8(k), btypes.PropertyData{Object: m.Objects[len(m.Objects)-1]})
		if len(m.Objects) > 1 {
			m.Objects[1].Properties = m.Objects[1].Properties[:1]
			err = e.ReadProperty(uint8(k), btypes.PropertyData{Object: m.Objects[1]})
		}
		return err
	case 1:
		err = e.WriteProperty(uint8(k), btypes.PropertyData{Object: m.Objects[0]})
	case 2:
		err = e.ReadMultipleProperty(uint8(k), m)
	case 3:
		err = e.WriteMultiProperty(uint8(k), m)
	}
	if dump(m) != before {
		mcrt.Fail("encoding changes the request from %s to %s", before, dump(m))
	}
	return err
}

func init() {
	add := func(prop string, acts func() []codec) {
		xp.Add(&xp.Unit{Prop: prop, Name: "independent", NoReset: true, Seq: independent(acts)})
	}
	add("P12", func() (l []codec) {
		for k := 0; k < 8; k++ {
			k := k
			l = append(l, encAct(fmt.Sprint("request ", k), func(e *encoding.Encoder) error { return requests(e, k) }))
		}
		return l
	})
	add("P14", func() (l []codec) {
		for _, v := range append(sampleValues(), decodeOnlyValues()...) {
			v := v
			l = append(l, codec{fmt.Sprintf("decode %T %s", v, short(v)), func() []interface{} {
				d := encoding.NewDecoder(append([]byte{}, ref.Item(v)...))
				x, err := d.AppData()
				return []interface{}{x, err}
			}})
		}
		for _, v := range sampleValues() {
			v := v
			l = append(l, encAct(fmt.Sprintf("%T %s", v, short(v)), func(e *encoding.Encoder) error { return e.AppData(v, false) }))
		}
		return l
	})
	add("P15", func() (l []codec) {
		for _, dst := range []*btypes.Address{nil, {Net: 5, Len: 1, Adr: []byte{7}}, {Net: 0xFFFF}, {Net: 300, Len: 6, Adr: []byte{1, 2, 3, 4, 5, 6}}} {
			for _, src := range []*btypes.Address{nil, {Net: 9, Len: 1, Adr: []byte{8}}, {Net: 2, Len: 3, Adr: []byte{3, 2, 1}}} {
				dst, src := dst, src
				l = append(l, encAct("header", func(e *encoding.Encoder) error {
					e.NPDU(&btypes.NPDU{Version: 1, Destination: dst, Source: src, ExpectingReply: true, HopCount: 255})
					return nil
				}), codec{"decode header", func() []interface{} {
					var o btypes.NPDU
					d := encoding.NewDecoder(append(ref.NPDU(refAddr(dst), refAddr(src), 200, true, false, 1), 1, 2, 3))
					nets, err := d.NPDU(&o)
					return []interface{}{o, nets, err, d.Bytes()}
				}})
			}
		}
		for _, b := range [][]byte{{1, 0, 5, 0, 6}, {1, 0, 7}, {0x13, 0, 9, 1}, {0x13, 1, 9, 0}} {
			b := append(ref.NPDU(nil, nil, 0, false, true, 0), b...)
			l = append(l, codec{fmt.Sprintf("decode % x", b), func() []interface{} {
				var o btypes.NPDU
				nets, err := encoding.NewDecoder(append([]byte{}, b...)).NPDU(&o)
				return []interface{}{o, nets, err}
			}})
		}
		for _, b := range [][]byte{{0x30, 1, 12, 1, 2, 3}, {0x20, 2, 15}, {0, 4, 3, 14, 9, 8}, {0x10, 8, 1, 2}, {0x50, 3, 12, 0x91, 2, 0x91, 31}, {0x38, 1, 5, 9, 12, 1}} {
			b := b
			l = append(l, codec{fmt.Sprintf("decode % x", b), func() []interface{} {
				var o btypes.APDU
				err := encoding.NewDecoder(append([]byte{}, b...)).APDU(&o)
				return []interface{}{o, err}
			}})
		}
		for _, data := range [][]byte{nil, {1, 2, 3}, {9}} {
			data := data
			l = append(l, encAct("link header", func(e *encoding.Encoder) error {
				return e.BVLC(btypes.BVLC{Type: 0x81, Function: 10, Length: uint16(4 + len(data)), Data: append([]byte{}, data...)})
			}), codec{"decode link header", func() []interface{} {
				var o btypes.BVLC
				err := encoding.NewDecoder(append([]byte{0x81, 11, 0, byte(4 + len(data))}, data...)).BVLC(&o)
				return []interface{}{o, err}
			}}, encAct("answer", func(e *encoding.Encoder) error {
				return e.APDU(btypes.APDU{DataType: btypes.ComplexAck, InvokeId: 9, Service: 12, RawData: append([]byte{}, data...)})
			}))
		}
		return l
	})
	add("P16", func() (l []codec) {
		id := btypes.ObjectID{Type: 8, Instance: 1234}
		vals := []interface{}{uint32(5), "text", ref.Bits{true, false, true}, ref.Octets{1, 2, 3}, []interface{}{id, "x", null.Null{}}, []interface{}{}, []interface{}{uint32(1), uint32(2)}}
		for _, v := range vals {
			v := v
			p := ref.Prop{Type: 85, Index: ref.ArrayAll, Value: v}
			l = append(l, codec{fmt.Sprintf("decode the answer %s", short(v)), func() []interface{} {
				x, err := decodeRead(append([]byte{}, readAck(id, p).b...))
				return []interface{}{x, err}
			}}, codec{fmt.Sprintf("decode the answer twice %s", short(v)), func() []interface{} {
				x, err := decodeMulti(append([]byte{}, multiAck([]ref.Obj{{ID: id, Props: []ref.Prop{p, p}}, {ID: anIDs[1], Props: []ref.Prop{p}}}).b...))
				return []interface{}{x, err}
			}})
		}
		return l
	})
	add("P18", func() (l []codec) {
		for _, x := range [][2]int32{{-1, -1}, {1, 2}, {70000, 0x3FFFFE}} {
			x := x
			l = append(l, encAct(fmt.Sprint("search ", x), func(e *encoding.Encoder) error { return e.WhoIs(x[0], x[1]) }))
		}
		for _, inst := range []uint32{1, 300, 0x3FFFFE} {
			inst := inst
			l = append(l, encAct(fmt.Sprint("announcement ", inst), func(e *encoding.Encoder) error {
				return e.IAm(btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}, MaxApdu: inst, Segmentation: 3, Vendor: inst % 300})
			}), codec{fmt.Sprint("decode announcement ", inst), func() []interface{} {
				var o btypes.IAm
				err := encoding.NewDecoder(ref.IAm(inst, inst, 3, inst%300)[2:]).IAm(&o)
				return []interface{}{o, err}
			}})
		}
		return l
	})
	add("P24", func() (l []codec) {
		for _, b := range []ref.Bits{{}, {true}, {true, false, true, true, false, false, true, false, true}, {false, false, true}, make(ref.Bits, 40)} {
			b := b
			l = append(l, codec{fmt.Sprintf("decode %v", b), func() []interface{} {
				x, err := encoding.NewDecoder(append([]byte{}, ref.App(b)...)).AppData()
				return []interface{}{x, err}
			}}, codec{fmt.Sprintf("make %v", b), func() []interface{} {
				s := btypes.NewBitString(15)
				for i, v := range b {
					s.SetBit(uint8(i), v)
				}
				return []interface{}{s, s.GetValue(), s.String()}
			}})
		}
		return l
	})
	add("P25", func() (l []codec) {
		for k := 0; k < 4; k++ {
			k := k
			l = append(l, codec{fmt.Sprint("collection ", k), func() []interface{} {
				m := btypes.ObjectMap{}
				for i := 0; i <= k; i++ {
					t := btypes.ObjectType([]int{2, 500, 8, 2}[i])
					if m[t] == nil {
						m[t] = map[btypes.ObjectInstance]btypes.Object{}
					}
					m[t][btypes.ObjectInstance(i+k)] = btypes.Object{Name: fmt.Sprint("n", i), ID: btypes.ObjectID{Type: t, Instance: btypes.ObjectInstance(i + k)}}
				}
				b, err := m.MarshalJSON()
				var o btypes.ObjectMap
				err2 := o.UnmarshalJSON(b)
				return []interface{}{b, err, o, err2}
			}})
		}
		return append(l, codec{"property names", func() []interface{} { return []interface{}{btypes.Keys()} }})
	})
	add("P26", func() (l []codec) {
		for _, ip := range []ip4{ipDevA, ipDevB} {
			for _, port := range []int{bacPort, 1} {
				ip, port := ip, port
				l = append(l, codec{fmt.Sprint("address ", ip, port), func() []interface{} {
					a := datalink.IPPortToAddress(ip[:], port)
					u, err := a.UDPAddr()
					d, err2 := btypes.NewDevice(&btypes.Device{Ip: fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]), Port: port, NetworkNumber: port, MacMSTP: int(ip[3])})
					return []interface{}{a, u, err, datalink.UDPToAddress(&u), d, err2}
				}})
			}
		}
		return l
	})
	// two encoders in turn, two decoders in turn
	xp.Add(&xp.Unit{Prop: "P12", Name: "two-encoders", NoReset: true, Seq: func(c *xp.C) {
		a, b, x := c.Choose(8), c.Choose(8), c.Choose(8)
		e1, e2, e3 := encoding.NewEncoder(), encoding.NewEncoder(), encoding.NewEncoder()
		c.Step()
		err := requests(e3, a)
		n := len(e3.Bytes())
		if err == nil {
			err = requests(e3, x)
		}
		want := dump(e3.Bytes())
		wantA := dump(e3.Bytes()[:n])
		if err != nil {
			c.Fail("request %d: %v", a, err)
		}
		if err := requests(e1, a); err != nil {
			c.Fail("request %d: %v", a, err)
		}
		if err := requests(e2, b); err != nil {
			c.Fail("request %d: %v", b, err)
		}
		wantB := dump(e2.Bytes())
		if s := dump(e1.Bytes()); s != wantA {
			c.Fail("after request %d in another encoder, request %d is %s instead of %s", b, a, s, wantA)
		}
		if err := requests(e1, x); err != nil {
			c.Fail("request %d: %v", x, err)
		}
		if s := dump(e1.Bytes()); s != want {
			c.Fail("requests %d and %d with %d in another encoder between them: %s instead of %s", a, x, b, s, want)
		}
		if s := dump(e2.Bytes()); s != wantB {
			c.Fail("request %d is %s instead of %s after request %d in another encoder", b, s, wantB, x)
		}
		c.Note("ok")
	}})
}

// ---------------------------------------------------------------- operations of a client

// action is an operation in a world of two devices and two routers.
type action struct {
	prop string
	name string
	do   func(w *world) []interface{} // what it returned
}

type world struct {
	*mw
	nw   *nw
	a, b *model
	na   *network.Device
	nb   *network.Device
}

func worldDevices() (*model, *model) {
	mk := func(i int, inst int, extra ...mobj) *model {
		d := *found(i, inst)
		id := btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}
		p := d.objs[0].props
		p[28] = fmt.Sprint("the device ", inst)
		p[97] = ref.Bits{true, false, inst == 100, true, true}
		arr := make([]interface{}, 16)
		for j := range arr {
			arr[j] = null.Null{}
			if (j+inst/100)%3 == 0 {
				arr[j] = float32(inst + j)
			}
		}
		d.objs = []mobj{{id, p},
			{btypes.ObjectID{Type: 2, Instance: 4}, map[uint32]interface{}{77: fmt.Sprint("value of ", inst), 28: fmt.Sprint("desc of ", inst), 85: float32(inst), 117: ref.Enum(inst % 90), 87: arr}},
			{btypes.ObjectID{Type: 4, Instance: btypes.ObjectInstance(inst)}, map[uint32]interface{}{77: fmt.Sprint("output of ", inst), 28: "", 85: ref.Enum(inst / 100 % 2)}}}
		d.objs = append(d.objs, extra...)
		return &d
	}
	a := mk(0, 100)
	b := mk(3, 201, mobj{btypes.ObjectID{Type: 19, Instance: 1}, map[uint32]interface{}{77: "states", 28: "of 200", 85: uint32(3)}})
	a.max, b.max = 1476, 206
	b.listAll = &refusal{abort: 4}
	return a, b
}

// hear answers the questions about networks.
func (w *world) onSend(p mcrt.Packet) {
	if m, s := parse(p); s == "" && m.network {
		if len(m.body) > 0 && m.body[0] == 0x12 {
			mcrt.Inject(w.sock, ipDevA, bacPort, ref.BVLC(0x0B, append(ref.NPDU(nil, nil, 0, false, true, 0), 0x13, 0, 5, 1)))
			mcrt.Inject(w.sock, ipDevB, bacPort, ref.BVLC(0x0B, append(ref.NPDU(nil, nil, 0, false, true, 0), 0x13, 1, 6, 0)))
		}
		if len(m.body) > 0 && m.body[0] == 0 {
			mcrt.Inject(w.sock, ipDevA, bacPort, ref.BVLC(0x0B, append(ref.NPDU(nil, nil, 0, false, true, 0), 1, 0, 5, 0, 8)))
			mcrt.Inject(w.sock, ipDevB, bacPort, ref.BVLC(0x0B, append(ref.NPDU(nil, nil, 0, false, true, 0), 1, 0, 6)))
		}
		return
	}
	w.serve(p)
}

func newWorld(net bool) *world {
	w := &world{}
	w.a, w.b = worldDevices()
	if net {
		w.nw = newNW(w.a, w.b)
		w.mw = w.nw.mw
		w.na, w.nb = w.nw.device(w.a), w.nw.device(w.b)
	} else {
		w.mw = newMW(w.a, w.b)
	}
	mcrt.OnSend(w.onSend)
	return w
}

// inst returns the set of networks.
func netSet(l []*btypes.Address) []interface{} {
	set := map[uint16]bool{}
	for _, a := range l {
		if a == nil {
			mcrt.Fail("a search for networks returns an empty entry")
		}
		set[a.Net] = true
	}
	return []interface{}{set}
}

// byInst: the devices of a search, in the order of their numbers.
func byInst(l []btypes.Device, err error) []interface{} {
	sort.SliceStable(l, func(i, j int) bool { return l[i].DeviceID < l[j].DeviceID })
	return []interface{}{l, err}
}

func clientActions() []action {
	pd := func(t btypes.ObjectType, i int, prop btypes.PropertyType) btypes.Object {
		return btypes.Object{ID: btypes.ObjectID{Type: t, Instance: btypes.ObjectInstance(i)}, Properties: []btypes.Property{{Type: prop, ArrayIndex: bacnet.ArrayAll}}}
	}
	read := func(second bool, t btypes.ObjectType, i int, prop btypes.PropertyType) func(w *world) []interface{} {
		return func(w *world) []interface{} {
			d := w.a
			if second {
				d = w.b
			}
			dev, rp := d.device(), btypes.PropertyData{Object: pd(t, i, prop)}
			before := dump(dev, rp)
			out, err := w.cli.ReadProperty(dev, rp)
			if s := dump(dev, rp); s != before {
				mcrt.Fail("reading changes the request from %s to %s", before, s)
			}
			return []interface{}{out, err}
		}
	}
	multi := func(second bool, objs ...btypes.Object) func(w *world) []interface{} {
		return func(w *world) []interface{} {
			d := w.a
			if second {
				d = w.b
			}
			var mp btypes.MultiplePropertyData
			for _, o := range objs {
				o.Properties = append([]btypes.Property{}, o.Properties...)
				mp.Objects = append(mp.Objects, o)
			}
			dev := d.device()
			before := dump(dev, mp)
			out, err := w.cli.ReadMultiProperty(dev, mp)
			if s := dump(dev, mp); s != before {
				mcrt.Fail("reading changes the request from %s to %s", before, s)
			}
			return []interface{}{out, err}
		}
	}
	objects := func(second bool) func(w *world) []interface{} {
		return func(w *world) []interface{} {
			d := w.a
			if second {
				d = w.b
			}
			dev := d.device()
			dev.Objects = btypes.ObjectMap{7: {1: btypes.Object{Name: "of the caller"}}}
			before := dump(dev)
			out, err := w.cli.Objects(dev)
			if s := dump(dev); s != before {
				mcrt.Fail("the scan changes the device it is given from %s to %s", before, s)
			}
			return []interface{}{out, err}
		}
	}
	whois := func(lo, hi int) func(w *world) []interface{} {
		return func(w *world) []interface{} {
			o := &bacnet.WhoIsOpts{Low: lo, High: hi, GlobalBroadcast: true}
			l, err := w.cli.WhoIs(o)
			if o.Low != lo || o.High != hi || !o.GlobalBroadcast {
				mcrt.Fail("the search changes its options to %+v", *o)
			}
			return byInst(l, err)
		}
	}
	return []action{
		{"P06", "read a name", read(false, 8, 100, 77)},
		{"P06", "read a priority array", read(false, 2, 4, 87)},
		{"P06", "read a list of bits", read(true, 8, 201, 97)},
		{"P06", "read what is not there", read(true, 2, 5, 85)},
		{"P06", "read two objects", multi(false, pd(2, 4, 77), pd(8, 100, 97))},
		{"P06", "read one object of the other", multi(true, pd(2, 4, 77))},
		{"P10", "search everybody", whois(-1, -1)},
		{"P10", "search one", whois(150, 300)},
		{"P11", "search networks", func(w *world) []interface{} { return netSet(w.cli.WhatIsNetworkNumber()) }},
		{"P11", "search routers", func(w *world) []interface{} {
			r := w.cli.WhoIsRouterToNetwork()
			if r == nil {
				return []interface{}{nil}
			}
			var l []*btypes.Address
			for i := range *r {
				l = append(l, &(*r)[i])
			}
			return netSet(l)
		}},
		{"P19", "scan", objects(false)},
		{"P19", "scan the other", objects(true)},
	}
}

func networkActions() []action {
	pnt := func(t btypes.ObjectType, i int) *network.Point {
		return &network.Point{ObjectID: btypes.ObjectInstance(i), ObjectType: t}
	}
	two := func(x interface{}, err error) []interface{} { return []interface{}{x, err} }
	return []action{
		{"P20", "list", func(w *world) []interface{} { return two(w.na.DeviceObjects(100, false)) }},
		{"P20", "list of the other", func(w *world) []interface{} { return two(w.nb.DeviceObjects(201, false)) }},
		{"P21", "read a priority array", func(w *world) []interface{} { return two(w.na.PointReadPriority(pnt(2, 4))) }},
		{"P21", "read a priority array of the other", func(w *world) []interface{} { return two(w.nb.PointReadPriority(pnt(2, 4))) }},
		{"P21", "read a number", func(w *world) []interface{} { return two(w.na.PointReadFloat32(pnt(2, 4))) }},
		{"P21", "read a state", func(w *world) []interface{} { return two(w.nb.PointReadMultiState(pnt(19, 1))) }},
		{"P21", "read a switch", func(w *world) []interface{} { return two(w.nb.PointReadBool(pnt(4, 201))) }},
		{"P21", "read a name", func(w *world) []interface{} { return two(w.na.ReadPointName(pnt(2, 4))) }},
		{"P21", "read details", func(w *world) []interface{} { return two(w.nb.PointDetails(pnt(2, 4))) }},
		{"P21", "read all points", func(w *world) []interface{} { return two(w.na.GetDevicePoints(100)) }},
		{"P22", "device details", func(w *world) []interface{} { return two(w.na.GetDeviceDetails(100)) }},
		{"P22", "discover from a device", func(w *world) []interface{} {
			l, err := w.na.DeviceDiscover(&bacnet.WhoIsOpts{Low: -1, High: -1, GlobalBroadcast: true})
			sort.SliceStable(l, func(i, j int) bool { return l[i].DeviceID < l[j].DeviceID })
			return []interface{}{l, err}
		}},
		{"P22", "discover", func(w *world) []interface{} {
			return byInst(w.nw.net.NetworkDiscover(&bacnet.WhoIsOpts{Low: -1, High: -1, GlobalBroadcast: true}))
		}},
		{"P22", "search", func(w *world) []interface{} { return byInst(w.nb.Whois(&bacnet.WhoIsOpts{Low: 0, High: 150})) }},
	}
}

func init() {
	for _, prop := range []string{"P06", "P10", "P11", "P19", "P20", "P21", "P22"} {
		prop := prop
		net := prop >= "P20"
		list := clientActions()
		if net {
			list = networkActions()
		}
		var own []action
		for _, a := range list {
			if a.prop == prop {
				own = append(own, a)
			}
		}
		fails := func(what string, r []interface{}, may bool) {
			if err, ok := r[len(r)-1].(error); ok && err != nil && !may {
				mcrt.Fail("%s: %v", what, err)
			}
		}
		// an earlier result stays as it is
		xp.Add(&xp.Unit{Prop: prop, Name: "kept-results", Cfg: plainCfg, Body: func() {
			a, b := own[mcrt.Choose(len(own), "operation")], list[mcrt.Choose(len(list), "another operation")]
			w := newWorld(net)
			ra := a.do(w)
			want := dump(ra...)
			fails(a.name, ra, strings.Contains(a.name, "not there"))
			rb := b.do(w)
			wb := dump(rb...)
			if s := dump(ra...); s != want {
				mcrt.Fail("%s gives %s, after %s that is %s", a.name, want, b.name, s)
			}
			ra2 := a.do(w)
			if s := dump(ra2...); s != want {
				mcrt.Fail("%s gives %s, after %s %s", a.name, want, b.name, s)
			}
			scribble(ra...)
			if s := dump(rb...); s != wb {
				mcrt.Fail("writing into the result of %s changes that of %s from %s to %s", a.name, b.name, wb, s)
			}
			if s := dump(a.do(w)...); s != want {
				mcrt.Fail("writing into a result of %s changes a later one from %s to %s", a.name, want, s)
			}
			if s := dump(b.do(w)...); s != wb {
				mcrt.Fail("writing into a result of %s changes a later one of %s from %s to %s", a.name, b.name, wb, s)
			}
			mcrt.Log(a.name)
		}})
		// two operations at once
		quick := 1
		if prop == "P06" || prop == "P10" || prop == "P11" || prop == "P19" {
			quick = 2
		}
		xp.Add(&xp.Unit{Prop: prop, Name: "at-once", Weight: 3, Cfg: mcrt.Config{SwitchCost: 1}, Quick: quick, Deep: quick + 1, Body: func() {
			a, b := own[mcrt.ChooseFree(len(own), "operation")], list[mcrt.ChooseFree(len(list), "another operation")]
			mcrt.DirectMode(true)
			w := newWorld(net)
			mcrt.DirectMode(true)
			wa, wb := dump(a.do(w)...), dump(b.do(w)...)
			mcrt.DirectMode(false)
			var ra, rb []interface{}
			ha := mcrt.GoHarness("first", func() { ra = a.do(w) })
			hb := mcrt.GoHarness("second", func() { rb = b.do(w) })
			ha.Join()
			hb.Join()
			if s := dump(ra...); s != wa {
				mcrt.Fail("%s gives %s, together with %s %s", a.name, wa, b.name, s)
			}
			if s := dump(rb...); s != wb {
				mcrt.Fail("%s gives %s, together with %s %s", b.name, wb, a.name, s)
			}
			mcrt.Log(a.name)
		}})
	}
}
