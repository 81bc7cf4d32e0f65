package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P16: acknowledgements

// msg is a message under construction; br are the positions of brackets, ends the positions where it may end.
type msg struct {
	b    []byte
	br   []int
	at   []int // where elements begin
	ends map[int]bool
}

func (m *msg) add(b []byte)     { m.at = append(m.at, len(m.b)); m.b = append(m.b, b...) }
func (m *msg) bracket(b []byte) { m.br = append(m.br, len(m.b)); m.add(b) }
func (m *msg) value(v interface{}) {
	l, ok := v.([]interface{})
	if !ok {
		l = []interface{}{v}
	}
	for _, e := range l {
		if dt, ok := e.(ref.DateTime); ok {
			m.bracket(ref.Open(2))
			m.add(ref.App(dt.Date))
			m.add(ref.App(dt.Time))
			m.bracket(ref.Close(2))
		} else {
			m.add(ref.Item(e))
		}
	}
}

func readAck(o btypes.ObjectID, p ref.Prop) *msg {
	m := &msg{ends: map[int]bool{}}
	m.add(ref.Cat(ref.Ctx(0, ref.ObjID(o.Type, o.Instance)), ref.Ctx(1, ref.Uint(p.Type))))
	m.ends[len(m.b)] = true // a request for the property looks like this
	if p.Index != ref.ArrayAll {
		m.add(ref.Ctx(2, ref.Uint(p.Index)))
		m.ends[len(m.b)] = true
	}
	m.bracket(ref.Open(3))
	m.value(p.Value)
	m.bracket(ref.Close(3))
	return m
}

func multiAck(objs []ref.Obj) *msg {
	m := &msg{ends: map[int]bool{0: true}}
	for _, o := range objs {
		m.add(ref.Ctx(0, ref.ObjID(o.ID.Type, o.ID.Instance)))
		m.bracket(ref.Open(1))
		for _, p := range o.Props {
			m.add(ref.Ctx(2, ref.Uint(p.Type)))
			if p.Index != ref.ArrayAll {
				m.add(ref.Ctx(3, ref.Uint(p.Index)))
			}
			if p.Err != nil {
				m.bracket(ref.Open(5))
				m.add(ref.App(ref.Enum(p.Err[0])))
				m.add(ref.App(ref.Enum(p.Err[1])))
				m.bracket(ref.Close(5))
				continue
			}
			m.bracket(ref.Open(4))
			m.value(p.Value)
			m.bracket(ref.Close(4))
		}
		m.bracket(ref.Close(1))
		m.ends[len(m.b)] = true
	}
	return m
}

func budget(n int) { mcrt.SeqReset(400+60*n, 4096+64*n) }

func decodeRead(b []byte) (btypes.PropertyData, error) {
	budget(len(b))
	var out btypes.PropertyData
	d := encoding.NewDecoder(b)
	err := d.ReadProperty(&out)
	if err == nil {
		err = d.Error()
	}
	return out, err
}

func decodeMulti(b []byte) (btypes.MultiplePropertyData, error) {
	budget(len(b))
	var out btypes.MultiplePropertyData
	d := encoding.NewDecoder(b)
	err := d.ReadMultiplePropertyAck(&out)
	if err == nil {
		err = d.Error()
	}
	return out, err
}

func sameProp(p ref.Prop, got btypes.Property) string {
	if uint32(got.Type) != p.Type || got.ArrayIndex != p.Index {
		return fmt.Sprintf("property %d[%d] decodes to %d[%d]", p.Type, p.Index, uint32(got.Type), got.ArrayIndex)
	}
	if !ref.Same(ref.WantValue(p.Value), got.Data) {
		return fmt.Sprintf("%T %s decodes to %T %s", p.Value, short(p.Value), got.Data, short(got.Data))
	}
	return ""
}

func sameObjs(objs []ref.Obj, got []btypes.Object) string {
	if len(objs) != len(got) {
		return fmt.Sprintf("%d objects decode to %d: %v", len(objs), len(got), got)
	}
	for i, o := range objs {
		if got[i].ID != o.ID {
			return fmt.Sprintf("object %v decodes to %v", o.ID, got[i].ID)
		}
		if len(got[i].Properties) != len(o.Props) {
			return fmt.Sprintf("%d properties of %v decode to %d", len(o.Props), o.ID, len(got[i].Properties))
		}
		for j := range o.Props {
			if s := sameProp(o.Props[j], got[i].Properties[j]); s != "" {
				return s
			}
		}
	}
	return ""
}

// damaged lists all ways of cutting a message and of replacing one bracket by another.
func damaged(m *msg, f func(what string, b []byte)) {
	for k := 0; k < len(m.b); k++ {
		if !m.ends[k] {
			f(fmt.Sprintf("cut to %d of %d bytes", k, len(m.b)), m.b[:k:k])
		}
	}
	for _, p := range m.br {
		for n := 0; n < 15; n++ {
			for _, k := range []byte{0x0E, 0x0F, 0x06, 0x07} {
				x := byte(n)<<4 | k
				if x == m.b[p] {
					continue
				}
				b := append([]byte{}, m.b...)
				b[p] = x
				f(fmt.Sprintf("bracket %#x at %d replaced by %#x", m.b[p], p, x), b)
			}
		}
	}
	for _, p := range append(m.at, len(m.b)) {
		for n := 0; n < 7; n++ {
			for _, x := range []byte{0x0E, 0x0F} {
				x |= byte(n) << 4
				f(fmt.Sprintf("with another bracket %#x at %d", x, p), ref.Cat(m.b[:p], []byte{x}, m.b[p:]))
			}
		}
	}
	for _, p := range m.br {
		f(fmt.Sprintf("without the bracket at %d", p), ref.Cat(m.b[:p], m.b[p+1:]))
		f(fmt.Sprintf("with the bracket at %d twice", p), ref.Cat(m.b[:p+1], m.b[p:]))
	}
}

func simpleValues() []interface{} {
	return []interface{}{null.Null{}, true, false, uint32(0), uint32(300), int32(-2), float32(21.5), 2.5, "text", "", btypes.Enumerated(62), btypes.ObjectID{Type: 2, Instance: 7},
		ref.Bits{true, false, false, true}, ref.Octets{0x3F, 0x3E, 0x4F}, uint32(0x3F3E4F4E), ref.UCS2("Ω"), btypes.Date{Year: 2023, Month: 6, Day: 15, DayOfWeek: 4}, btypes.Time{Hour: 1, Minute: 2, Second: 3, Millisecond: 40}}
}

var anIDs = []btypes.ObjectID{{Type: 8, Instance: 1234}, {Type: 0, Instance: 0}, {Type: 1023, Instance: 0x3FFFFF}, {Type: 128, Instance: 256}}
var someProps = []uint32{85, 0, 76, 255, 256, 65536, 4194303}
var indexes = []uint32{ref.ArrayAll, 0, 1, 255, 256, 70000}

// chooseValue enumerates single values, and lists of up to n elements.
func chooseValue(c *xp.C, full bool, n int) interface{} {
	vals := simpleValues()
	if !full {
		vals = []interface{}{vals[0], vals[6], vals[8], vals[13]}
	}
	l := c.Choose(n + 2)
	if l == 0 {
		all := append(append(sampleValues(), decodeOnlyValues()...), vals...)
		if !full {
			all = vals
		}
		return all[c.Choose(len(all))]
	}
	out := []interface{}{}
	for i := 0; i < l-1; i++ {
		out = append(out, vals[c.Choose(len(vals))])
	}
	return out
}

// ctxElements are context-tagged elements whose type the property determines.
func ctxElements() []ref.Prop {
	oid := btypes.ObjectID{Type: 8, Instance: 77}
	o := func(tag uint8) ref.Ctxd {
		return ref.Ctxd{Tag: tag, Content: ref.ObjID(oid.Type, oid.Instance), Want: oid}
	}
	u := func(tag uint8, v uint32) ref.Ctxd { return ref.Ctxd{Tag: tag, Content: ref.Uint(v), Want: v} }
	r := func(tag uint8) ref.Ctxd {
		return ref.Ctxd{Tag: tag, Content: ref.App(float32(1.5))[1:], Want: float32(1.5)}
	}
	bo := func(tag uint8, v bool) ref.Ctxd {
		b := byte(0)
		if v {
			b = 1
		}
		return ref.Ctxd{Tag: tag, Content: []byte{b}, Want: v}
	}
	dt := ref.DateTime{Date: btypes.Date{Year: 2024, Month: 1, Day: 31, DayOfWeek: 3}, Time: btypes.Time{Hour: 4, Minute: 5, Second: 6, Millisecond: 70}}
	p := func(t btypes.PropertyType, v ...interface{}) ref.Prop {
		return ref.Prop{Type: uint32(t), Index: ref.ArrayAll, Value: v}
	}
	return []ref.Prop{
		p(btypes.PROP_ACTUAL_SHED_LEVEL, u(0, 50)), p(btypes.PROP_REQUESTED_SHED_LEVEL, u(1, 300)), p(btypes.PROP_EXPECTED_SHED_LEVEL, r(2)),
		p(btypes.PROP_ACTUAL_SHED_LEVEL, r(2)), p(btypes.PROP_REQUESTED_SHED_LEVEL, r(2)), p(btypes.PROP_EXPECTED_SHED_LEVEL, u(0, 1)),
		p(btypes.PROP_ACTION, o(0), o(1), u(2, 85), u(3, 2), u(5, 8), u(6, 1), bo(7, true), bo(8, false)),
		p(btypes.PROP_LIST_OF_GROUP_MEMBERS, o(0)),
		p(btypes.PROP_EXCEPTION_SCHEDULE, o(1), u(3, 16)),
		p(btypes.PROP_LOG_DEVICE_OBJECT_PROPERTY, o(0), u(1, 85), u(2, 1), o(3)),
		p(btypes.PROP_SUBORDINATE_LIST, o(0), o(1), o(1)),
		p(btypes.PROP_RECIPIENT_LIST, o(0)),
		p(btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS, bo(2, true), u(3, 600), r(4)),
		p(btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS, bo(2, false), u(3, 0)),
		p(btypes.PROP_EVENT_TIME_STAMPS, dt), p(btypes.PROP_EVENT_TIME_STAMPS, dt, dt, dt), p(btypes.PROP_EVENT_TIME_STAMPS, dt, uint32(1), dt),
	}
}

func checkMulti(c *xp.C, objs []ref.Obj) {
	c.Step()
	m := multiAck(objs)
	if !bytes.Equal(m.b, ref.ReadMultipleAck(objs)) {
		c.Fail("harness: two forms of one message")
	}
	bad := ""
	for _, o := range objs {
		for _, p := range o.Props {
			if p.Err != nil && bad == "" {
				bad = fmt.Sprintf("class %d code %d", p.Err[0], p.Err[1])
			}
		}
	}
	got, err := decodeMulti(m.b)
	if bad != "" {
		if err == nil {
			c.Fail("% x has an error (%s) but decodes to %v", clip(m.b), bad, got)
		}
	} else if err != nil {
		c.Fail("% x (%v) gives the error %v", clip(m.b), objs, err)
	} else if s := sameObjs(objs, got.Objects); s != "" {
		c.Fail("% x: %s", clip(m.b), s)
	}
	damaged(m, func(what string, b []byte) {
		c.Step()
		if got, err := decodeMulti(b); err == nil {
			c.Fail("% x, %s, decodes to %v", clip(m.b), what, got)
		}
	})
	// what ends between two objects is whole
	n := 0
	for _, o := range objs {
		n += len(multiAck([]ref.Obj{o}).b)
	}
	if n != len(m.b) {
		c.Fail("harness: lengths")
	}
}

func init() {
	xp.Add(&xp.Unit{Prop: "P16", Name: "read-ack", NoReset: true, Shard: 3, Seq: func(c *xp.C) {
		id := anIDs[c.Choose(len(anIDs))]
		n := 2
		if c.Deep {
			n = 3
		}
		p := ref.Prop{Type: someProps[c.Choose(len(someProps))], Index: indexes[c.Choose(len(indexes))], Value: chooseValue(c, true, n)}
		m := readAck(id, p)
		if !bytes.Equal(m.b, ref.ReadPropertyAck(id, p)) {
			c.Fail("harness: two forms of one message")
		}
		got, err := decodeRead(m.b)
		if err != nil {
			c.Fail("% x (%v) gives the error %v", clip(m.b), p, err)
		}
		if got.Object.ID != id || len(got.Object.Properties) != 1 {
			c.Fail("% x: object %v decodes to %v", clip(m.b), id, got.Object)
		}
		if s := sameProp(p, got.Object.Properties[0]); s != "" {
			c.Fail("% x: %s", clip(m.b), s)
		}
		if len(m.b) > 60 && !c.Deep && id.Type != 8 {
			return
		}
		damaged(m, func(what string, b []byte) {
			c.Step()
			if got, err := decodeRead(b); err == nil {
				c.Fail("% x, %s, decodes to %v", clip(m.b), what, got)
			}
		})
		// bytes after the list are not part of it
		for _, x := range [][]byte{{0x3F}, {0x21, 7}, {0}, {0x3E, 0x3F}, {0x21, 7, 0x3F}, {0x3F, 0x3F}, {0, 0x3F, 0x3E}} {
			c.Step()
			got, err := decodeRead(append(append([]byte{}, m.b...), x...))
			if n := len(x); err == nil && (x[n-1] >= 0x3E && x[0] != 0x3E) {
				c.Fail("% x followed by % x decodes to %v", clip(m.b), x, got)
			}
			if err == nil && (len(got.Object.Properties) != 1 || sameProp(p, got.Object.Properties[0]) != "") {
				c.Fail("% x followed by % x decodes to %v", clip(m.b), x, got)
			}
		}
		c.Note("%T", p.Value)
	}})
	// what is missing when a cut answer looks like a request: no value
	xp.Add(&xp.Unit{Prop: "P16", Name: "read-ack-without-value", NoReset: true, Seq: func(c *xp.C) {
		id := anIDs[c.Choose(len(anIDs))]
		p := ref.Prop{Type: someProps[c.Choose(len(someProps))], Index: indexes[c.Choose(len(indexes))]}
		got, err := decodeRead(ref.ReadPropertyReq(id, p))
		if err == nil && (len(got.Object.Properties) != 1 || got.Object.Properties[0].Data != nil || got.Object.ID != id || uint32(got.Object.Properties[0].Type) != p.Type || got.Object.Properties[0].ArrayIndex != p.Index) {
			c.Fail("a message without value for %v %v decodes to %+v", id, p, got)
		}
		c.Note("%v", err != nil)
	}})
	xp.Add(&xp.Unit{Prop: "P16", Name: "multi-ack-one-object", NoReset: true, Shard: 3, Seq: func(c *xp.C) {
		id := anIDs[c.Choose(len(anIDs))]
		p := ref.Prop{Type: someProps[c.Choose(len(someProps))], Index: indexes[c.Choose(len(indexes))], Value: chooseValue(c, true, 2)}
		o := ref.Obj{ID: id, Props: []ref.Prop{p}}
		if len(multiAck([]ref.Obj{o}).b) > 60 && !c.Deep && id.Type != 8 {
			return
		}
		checkMulti(c, []ref.Obj{o})
		c.Note("%T", p.Value)
	}})
	xp.Add(&xp.Unit{Prop: "P16", Name: "multi-ack-structure", NoReset: true, Shard: 4, Seq: func(c *xp.C) {
		nobj := 1 + c.Choose(3)
		var objs []ref.Obj
		for i := 0; i < nobj; i++ {
			o := ref.Obj{ID: anIDs[(i*3+1)%4]}
			np, free := 1+c.Choose(2), nobj < 3 || c.Deep
			if nobj == 1 {
				np += c.Choose(2)
			}
			for j := 0; j < np; j++ {
				p := ref.Prop{Type: someProps[(i+j)%len(someProps)], Index: ref.ArrayAll}
				if free && c.Bool() || !free && (i+j)%2 == 0 {
					p.Index = uint32(j + 1)
				}
				lim := 4
				if c.Deep {
					lim = 7
				}
				switch c.Choose(lim) {
				case 0:
					p.Value = "n"
				case 1:
					p.Value = []interface{}{}
				case 2:
					p.Value = []interface{}{uint32(1), btypes.ObjectID{Type: 1, Instance: 2}}
				case 3:
					p.Err = &[2]uint32{2, 32}
				case 4:
					p.Value = []interface{}{null.Null{}, float32(1), null.Null{}}
				case 5:
					p.Value = null.Null{}
				case 6:
					p.Value = ref.DateTime{Date: btypes.Date{Year: 2024, Month: 1, Day: 31, DayOfWeek: 3}}
				}
				o.Props = append(o.Props, p)
			}
			objs = append(objs, o)
		}
		checkMulti(c, objs)
		c.Note("%d objects", nobj)
	}})
	xp.Add(&xp.Unit{Prop: "P16", Name: "multi-ack-context", NoReset: true, Seq: func(c *xp.C) {
		ps := ctxElements()
		i, j := c.Choose(len(ps)), c.Choose(len(ps)+1)
		o := ref.Obj{ID: anIDs[0], Props: []ref.Prop{ps[i]}}
		if j < len(ps) {
			o.Props = append(o.Props, ps[j])
		}
		checkMulti(c, []ref.Obj{o, {ID: anIDs[3], Props: []ref.Prop{{Type: 77, Index: ref.ArrayAll, Value: "x"}}}})
		c.Note("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P16", Name: "context-values", NoReset: true, Seq: func(c *xp.C) {
		// every value that a time stamp or a tagged element may have
		one := func(ps ...ref.Prop) {
			c.Step()
			objs := []ref.Obj{{ID: anIDs[0], Props: ps}, {ID: anIDs[3], Props: []ref.Prop{{Type: 77, Index: ref.ArrayAll, Value: "x"}}}}
			got, err := decodeMulti(ref.ReadMultipleAck(objs))
			if err != nil {
				c.Fail("%v gives the error %v", objs, err)
			} else if s := sameObjs(objs, got.Objects); s != "" {
				c.Fail("%v: %s", objs, s)
			}
		}
		list := func(t btypes.PropertyType, v ...interface{}) ref.Prop {
			return ref.Prop{Type: uint32(t), Index: ref.ArrayAll, Value: v}
		}
		dt := ref.DateTime{Date: btypes.Date{Year: 2024, Month: 1, Day: 31, DayOfWeek: 3}, Time: btypes.Time{Hour: 4, Minute: 5, Second: 6, Millisecond: 70}}
		switch c.Choose(6) {
		case 0:
			for i, d := range dates() {
				x := ref.DateTime{Date: d, Time: dt.Time}
				one(list(btypes.PROP_EVENT_TIME_STAMPS, [][]interface{}{{x}, {x, dt}, {dt, x}, {dt, x, dt}}[i%4]...))
			}
		case 1:
			for i, t := range times() {
				x := ref.DateTime{Date: dt.Date, Time: t}
				one(list(btypes.PROP_EVENT_TIME_STAMPS, [][]interface{}{{x}, {x, dt}, {dt, x}, {dt, x, dt}}[i%4]...))
				u := ref.DateTime{Date: btypes.Date{Year: btypes.UnspecifiedTime, Month: 255, Day: 255, DayOfWeek: 255}, Time: t}
				one(list(btypes.PROP_EVENT_TIME_STAMPS, [][]interface{}{{u}, {u, dt}, {dt, u}, {u, x, u}}[i%4]...))
			}
		case 2:
			for _, id := range objectIDs() {
				x := ref.Ctxd{Tag: 0, Content: ref.ObjID(id.Type, id.Instance), Want: id}
				y := ref.Ctxd{Tag: 1, Content: x.Content, Want: id}
				one(list(btypes.PROP_SUBORDINATE_LIST, x, y), list(btypes.PROP_LIST_OF_GROUP_MEMBERS, x), list(btypes.PROP_RECIPIENT_LIST, x))
			}
		case 3:
			for _, v := range []uint32{0, 1, 2, 127, 128, 253, 254, 255, 256, 32767, 32768, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				u := func(tag uint8) ref.Ctxd { return ref.Ctxd{Tag: tag, Content: ref.Uint(v), Want: v} }
				one(list(btypes.PROP_ACTUAL_SHED_LEVEL, u(0)), list(btypes.PROP_REQUESTED_SHED_LEVEL, u(1)), list(btypes.PROP_LOG_DEVICE_OBJECT_PROPERTY, u(1), u(2)))
				one(list(btypes.PROP_ACTION, u(2), u(3), u(5), u(6)), list(btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS, u(3)), list(btypes.PROP_EXCEPTION_SCHEDULE, u(3)))
			}
		case 4:
			for _, f := range []float32{0, float32(math.Copysign(0, -1)), 1, -1, 1e-45, math.MaxFloat32, -math.MaxFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 0.1, 16777217} {
				r := func(tag uint8) ref.Ctxd { return ref.Ctxd{Tag: tag, Content: ref.App(f)[1:], Want: f} }
				one(list(btypes.PROP_EXPECTED_SHED_LEVEL, r(2)), list(btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS, r(4), r(4)))
			}
		case 5:
			for n := 1; n <= 300; n++ { // many of them
				var l, m []interface{}
				for i := 0; i < n; i++ {
					l = append(l, ref.DateTime{Date: btypes.Date{Year: 1900 + i%255, Month: 1, Day: 2, DayOfWeek: 3}, Time: btypes.Time{Hour: i % 24}})
					id := btypes.ObjectID{Type: btypes.ObjectType(i % 5), Instance: btypes.ObjectInstance(i)}
					m = append(m, ref.Ctxd{Tag: uint8(i % 2), Content: ref.ObjID(id.Type, id.Instance), Want: id})
				}
				one(list(btypes.PROP_EVENT_TIME_STAMPS, l...), list(btypes.PROP_SUBORDINATE_LIST, m...))
			}
		}
		c.Note("ok")
	}})
	// long lists
	xp.Add(&xp.Unit{Prop: "P16", Name: "long", NoReset: true, Seq: func(c *xp.C) {
		n := 4 + c.Choose(60)
		l := []interface{}{}
		for i := 0; i < n; i++ {
			l = append(l, btypes.ObjectID{Type: btypes.ObjectType(i % 20), Instance: btypes.ObjectInstance(i)})
		}
		p := ref.Prop{Type: 76, Index: ref.ArrayAll, Value: l}
		got, err := decodeRead(ref.ReadPropertyAck(anIDs[0], p))
		if err != nil || len(got.Object.Properties) != 1 || sameProp(p, got.Object.Properties[0]) != "" {
			c.Fail("list of %d decodes to %v, %v", n, got, err)
		}
		var objs []ref.Obj
		for i := 0; i < n; i++ {
			objs = append(objs, ref.Obj{ID: btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(i)}, Props: []ref.Prop{{Type: 77, Index: ref.ArrayAll, Value: fmt.Sprint("o", i)}, {Type: 28, Index: ref.ArrayAll, Value: ""}, {Type: 76, Index: 3, Value: l[i]}}})
		}
		mg, err := decodeMulti(ref.ReadMultipleAck(objs))
		if err != nil {
			c.Fail("%d objects: %v", n, err)
		}
		if s := sameObjs(objs, mg.Objects); s != "" {
			c.Fail("%d objects: %s", n, s)
		}
		c.Note("ok")
	}})
	// encoder and decoder of acknowledgements agree
	xp.Add(&xp.Unit{Prop: "P16", Name: "ack-encoders", NoReset: true, Seq: func(c *xp.C) {
		vals := sampleValues()
		id := anIDs[c.Choose(len(anIDs))]
		p := ref.Prop{Type: someProps[c.Choose(len(someProps))], Index: indexes[c.Choose(len(indexes))], Value: vals[c.Choose(len(vals))]}
		bp := btypes.Property{Type: btypes.PropertyType(p.Type), ArrayIndex: p.Index, Data: p.Value}
		e := encoding.NewEncoder()
		err := e.ReadPropertyAck(9, btypes.PropertyData{Object: btypes.Object{ID: id, Properties: []btypes.Property{bp}}})
		std := append([]byte{0x30, 9, 12}, ref.ReadPropertyAck(id, p)...)
		if err != nil || !bytes.Equal(e.Bytes(), std) {
			c.Fail("read answer for %v is encoded as % x, %v instead of % x", p, clip(e.Bytes()), err, clip(std))
		}
		e = encoding.NewEncoder()
		err = e.ReadMultiplePropertyAck(9, btypes.MultiplePropertyData{Objects: []btypes.Object{{ID: id, Properties: []btypes.Property{bp, bp}}, {ID: anIDs[0], Properties: []btypes.Property{bp}}}})
		std = append([]byte{0x30, 9, 14}, ref.ReadMultipleAck([]ref.Obj{{ID: id, Props: []ref.Prop{p, p}}, {ID: anIDs[0], Props: []ref.Prop{p}}})...)
		if err != nil || !bytes.Equal(e.Bytes(), std) {
			c.Fail("multiple read answer for %v is encoded as % x, %v instead of % x", p, clip(e.Bytes()), err, clip(std))
		}
		c.Note("%T", p.Value)
	}})
}

// ---------------------------------------------------------------- P17: any bytes

type decoder struct {
	name string
	pre  [][]byte // prefixes that lead into the decoder
	run  func(d *encoding.Decoder) error
}

func decoders() []decoder {
	rp := ref.Cat(ref.Ctx(0, ref.ObjID(8, 1)), ref.Ctx(1, []byte{76}))
	rpm := ref.Cat(ref.Ctx(0, ref.ObjID(8, 1)), ref.Open(1), ref.Ctx(2, []byte{76}))
	iam := ref.App(btypes.ObjectID{Type: 8, Instance: 1})
	return []decoder{
		{"BVLC", [][]byte{{}, {0x81}}, func(d *encoding.Decoder) error { var b btypes.BVLC; return d.BVLC(&b) }},
		{"NPDU", [][]byte{{}, {1}, {1, 0x20}, {1, 0x28, 0, 1}, {1, 0x80, 1}, {1, 0x80, 0x13}, {1, 0x88}}, func(d *encoding.Decoder) error { var n btypes.NPDU; _, err := d.NPDU(&n); return err }},
		{"APDU", [][]byte{{}, {0x50, 1, 12}, {0x38, 1}, {0x10, 0}, {0, 5, 1}, {0x50, 1, 12, 0x0E}}, func(d *encoding.Decoder) error { var a btypes.APDU; return d.APDU(&a) }},
		{"AppData", [][]byte{{}, {0x75, 254}, {0x65}, {0x65, 255}, {0x85}, {0xA4}, {0xF5}, {0xF5, 2}}, func(d *encoding.Decoder) error { _, err := d.AppData(); return err }},
		{"ReadProperty", [][]byte{{}, rp, append(append([]byte{}, rp...), 0x3E), append(append([]byte{}, rp...), 0x3E, 0x21, 5), {0x0C, 0, 0, 0, 1}, append(append([]byte{}, rp...), 0x29)},
			func(d *encoding.Decoder) error { var p btypes.PropertyData; return d.ReadProperty(&p) }},
		{"ReadMultiplePropertyAck", [][]byte{{}, rpm, append(append([]byte{}, rpm...), 0x4E), append(append([]byte{}, rpm...), 0x4E, 0x2E), append(append([]byte{}, rpm...), 0x4E, 0x21, 7), {0x0C, 0, 0, 0, 1, 0x1E},
			append(append([]byte{}, rpm...), 0x5E), append(append([]byte{}, rpm...), 0x4E, 0x21, 7, 0x4F), append(append([]byte{}, rpm[:6]...), 0x29, 2, 0x4E)},
			func(d *encoding.Decoder) error {
				var p btypes.MultiplePropertyData
				return d.ReadMultiplePropertyAck(&p)
			}},
		{"WhoIs", [][]byte{{}, {9, 1}}, func(d *encoding.Decoder) error { var l, h int32; return d.WhoIs(&l, &h) }},
		{"IAm", [][]byte{{}, iam, append(append([]byte{}, iam...), 0x22, 5, 0xC4)}, func(d *encoding.Decoder) error { var i btypes.IAm; return d.IAm(&i) }},
	}
}

// anyBytes runs a decoder on a string; panics, loops and allocations beyond the budget end the run as violations.
func anyBytes(c *xp.C, dc decoder, b []byte) {
	c.Step()
	budget(len(b))
	defer func() {
		if x := recover(); x != nil {
			if fmt.Sprintf("%T", x) == "xp.stopRun" {
				panic(x)
			}
			c.Fail("%s of % x: %v", dc.name, clip(b), x)
		}
	}()
	d := encoding.NewDecoder(b)
	err := dc.run(d)
	if err == nil && d.Error() != nil {
		c.Fail("%s of % x returns no error but the decoder has %v", dc.name, clip(b), d.Error())
	}
	if err == nil && overlong(dc.name, b) {
		c.Fail("%s of % x accepts a length beyond the input", dc.name, clip(b))
	}
}

// overlong tells whether the first application value of the string claims more than there is.
func overlong(name string, b []byte) bool {
	if name != "AppData" || len(b) == 0 {
		return false
	}
	tag, n, hl, ok := header(b)
	if !ok {
		return true
	}
	return tag >= 2 && tag <= 12 && uint64(len(b)-hl) < uint64(n)
}

// header reads a tag as the standard defines it.
func header(b []byte) (tag uint8, n uint32, hl int, ok bool) {
	tag, hl = b[0]>>4, 1
	at := func() (uint8, bool) {
		if hl >= len(b) {
			return 0, false
		}
		hl++
		return b[hl-1], true
	}
	if tag == 15 {
		if tag, ok = at(); !ok {
			return
		}
	}
	n = uint32(b[0] & 7)
	if n == 5 {
		x, ok := at()
		if !ok {
			return tag, 0, hl, false
		}
		n = uint32(x)
		k := 0
		if x == 254 {
			k = 2
		} else if x == 255 {
			k = 4
		}
		if k > 0 {
			n = 0
		}
		for i := 0; i < k; i++ {
			x, ok := at()
			if !ok {
				return tag, 0, hl, false
			}
			n = n<<8 | uint32(x)
		}
	}
	return tag, n, hl, true
}

// alphabet are the octets that matter to tags, lengths and brackets.
var alphabet = []byte{0x00, 0x0C, 0x0E, 0x0F, 0x10, 0x1E, 0x1F, 0x21, 0x25, 0x29, 0x2E, 0x2F, 0x39, 0x3E, 0x3F, 0x44, 0x4E, 0x4F, 0x5E, 0x65, 0x75, 0x81, 0x91, 0xA4, 0xB4, 0xC4, 0xD5, 0xF5, 0xFE, 0xFF}

func init() {
	// all strings of up to three octets after every prefix
	xp.Add(&xp.Unit{Prop: "P17", Name: "short-strings", NoReset: true, Shard: 3, Weight: 3, Seq: func(c *xp.C) {
		ds := decoders()
		dc := ds[c.Choose(len(ds))]
		pre := dc.pre[c.Choose(len(dc.pre))]
		first := c.Choose(257)
		buf := make([]byte, len(pre), len(pre)+4)
		copy(buf, pre)
		if first == 256 {
			anyBytes(c, dc, buf)
			c.Note("%s", dc.name)
			return
		}
		buf = append(buf, byte(first))
		anyBytes(c, dc, buf)
		step := 1
		if !c.Deep {
			step = 5
		}
		n := len(buf)
		for x := 0; x < 256; x++ {
			anyBytes(c, dc, append(buf[:n:n], byte(x)))
			for y := 0; y < 256; y += step {
				anyBytes(c, dc, append(buf[:n:n], byte(x), byte((y+x)%256)))
			}
		}
		c.Note("%s", dc.name)
	}})
	xp.Add(&xp.Unit{Prop: "P17", Name: "alphabet-strings", NoReset: true, Shard: 4, Weight: 3, Seq: func(c *xp.C) {
		ds := decoders()
		dc := ds[c.Choose(len(ds))]
		pre := dc.pre[c.Choose(len(dc.pre))]
		a := alphabet
		buf := append(append([]byte{}, pre...), a[c.Choose(len(a))], a[c.Choose(len(a))])
		n := len(buf)
		depth := 2
		if c.Deep {
			depth = 3
		}
		var rec func(b []byte, k int)
		rec = func(b []byte, k int) {
			anyBytes(c, dc, b)
			if k == 0 {
				return
			}
			for _, x := range a {
				rec(append(b[:len(b):len(b)], x), k-1)
			}
		}
		rec(buf[:n:n], depth)
		c.Note("%s", dc.name)
	}})
	// every byte of well-formed messages replaced by every other, every cut, every pair of length bytes
	xp.Add(&xp.Unit{Prop: "P17", Name: "mutations", NoReset: true, Shard: 3, Weight: 2, Seq: func(c *xp.C) {
		ds := decoders()
		dc := ds[c.Choose(len(ds))]
		var corpus [][]byte
		switch dc.name {
		case "BVLC":
			corpus = [][]byte{ref.BVLC(10, []byte{1, 4, 0x30, 1, 12})}
		case "NPDU":
			corpus = [][]byte{append(ref.NPDU(&ref.Addr{Net: 5, Adr: []byte{1, 2, 3}}, &ref.Addr{Net: 6, Adr: []byte{9}}, 255, true, true, 1), 1, 0, 1, 0, 2, 0, 1), append(ref.NPDU(nil, nil, 0, false, true, 1), 0x13, 0, 1, 1)}
		case "APDU":
			corpus = [][]byte{ref.ErrorPDU(1, 12, 2, 32), ref.ErrorPDU0(1, 15, 2, 300), {0x3C, 1, 3, 4, 12, 0x0C}, {0x0E, 5, 1, 2, 3, 12, 9, 9}, {0x20, 1, 15}, {0x40, 1, 2, 3}, {0x60, 1, 2}, {0x70, 1, 2}}
		case "AppData":
			for _, v := range append(sampleValues(), decodeOnlyValues()...) {
				if b := ref.App(v); len(b) < 60 {
					corpus = append(corpus, b)
				}
			}
		case "ReadProperty":
			for _, v := range simpleValues() {
				corpus = append(corpus, ref.ReadPropertyAck(anIDs[0], ref.Prop{Type: 85, Index: 3, Value: v}))
			}
			corpus = append(corpus, ref.ReadPropertyAck(anIDs[0], ref.Prop{Type: 85, Index: ref.ArrayAll, Value: simpleValues()[:9]}), ref.ReadPropertyReq(anIDs[0], ref.Prop{Type: 85, Index: 7}))
		case "ReadMultiplePropertyAck":
			for _, p := range ctxElements() {
				corpus = append(corpus, ref.ReadMultipleAck([]ref.Obj{{ID: anIDs[0], Props: []ref.Prop{p}}}))
			}
			corpus = append(corpus, ref.ReadMultipleAck([]ref.Obj{{ID: anIDs[0], Props: []ref.Prop{{Type: 77, Index: 2, Value: simpleValues()}, {Type: 85, Index: ref.ArrayAll, Err: &[2]uint32{2, 300}}}},
				{ID: anIDs[1], Props: []ref.Prop{{Type: 77, Index: ref.ArrayAll, Value: "x"}}}}))
		case "WhoIs":
			corpus = [][]byte{ref.Cat(ref.Ctx(0, ref.Uint(5)), ref.Ctx(1, ref.Uint(70000)))}
		case "IAm":
			corpus = [][]byte{ref.IAm(1234, 1476, 3, 260)[2:]}
		}
		m := corpus[c.Choose(len(corpus))]
		pos := c.Choose(len(m))
		anyBytes(c, dc, m[:pos:pos])
		for x := 0; x < 256; x++ {
			b := append([]byte{}, m...)
			b[pos] = byte(x)
			anyBytes(c, dc, b)
			anyBytes(c, dc, append(append([]byte{}, m[:pos]...), append([]byte{byte(x)}, m[pos:]...)...))
			anyBytes(c, dc, append(append([]byte{}, b[:pos+1]...)))
			if c.Deep || pos+1 < len(m) && m[pos]&7 == 5 {
				for y := 0; y < 256; y++ {
					if pos+1 < len(m) {
						d := append([]byte{}, b...)
						d[pos+1] = byte(y)
						anyBytes(c, dc, d)
					}
				}
			}
		}
		if c.Deep || len(m) < 40 {
			// two octets replaced
			for q := pos + 1; q < len(m); q++ {
				for _, x := range alphabet {
					for _, y := range alphabet {
						b := append([]byte{}, m...)
						b[pos], b[q] = x, y
						anyBytes(c, dc, b)
					}
				}
			}
		}
		c.Note("%s", dc.name)
	}})
	// values whose type and length come from elsewhere, and skipping
	xp.Add(&xp.Unit{Prop: "P17", Name: "lengths", NoReset: true, Seq: func(c *xp.C) {
		lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 255, 256, 257, 65535, 1 << 20, math.MaxInt32, -1, -5, math.MinInt32, math.MaxInt64}
		n := lens[c.Choose(len(lens))]
		have := c.Choose(20)
		for _, fill := range []byte{0, 1, 4, 7, 8, 255} {
			in := bytes.Repeat([]byte{fill}, have)
			for tag := 0; tag < 256; tag++ {
				c.Step()
				budget(len(in))
				d := encoding.NewDecoder(in)
				got, err := d.AppDataOfTag(uint8(tag), n)
				if err == nil && tag >= 2 && (n > have || n < 0) {
					c.Fail("type %d of length %d decodes from %d bytes to %T %v", tag, n, have, got, short(got))
				}
				if err == nil && tag > 12 {
					c.Fail("type %d decodes to %v", tag, got)
				}
				if used := have - len(d.Bytes()); err == nil && tag >= 2 && used != n {
					c.Fail("type %d of length %d takes %d bytes", tag, n, used)
				}
			}
			if n >= 0 && n <= math.MaxInt32 {
				budget(len(in))
				d := encoding.NewDecoder(in)
				err := d.Skip(uint32(n))
				if (err == nil) != (n <= have) || err == nil && len(d.Bytes()) != have-n {
					c.Fail("skipping %d of %d bytes: %v, %d left", n, have, err, len(d.Bytes()))
				}
			}
		}
		c.Note("%v", n <= have)
	}})
	// nothing is decoded after an error
	xp.Add(&xp.Unit{Prop: "P17", Name: "errors-stick", NoReset: true, Seq: func(c *xp.C) {
		bad := [][]byte{{0x25, 9, 1, 2, 3}, {0x44, 1}, {0x75}, {0x65, 254, 1}, {0xC4, 1, 2}, {}, {0x55, 8, 1}}
		b := bad[c.Choose(len(bad))]
		d := encoding.NewDecoder(b)
		if _, err := d.AppData(); err == nil {
			c.Fail("% x decodes", b)
		}
		ds := decoders()
		dc := ds[c.Choose(len(ds))]
		if err := dc.run(d); err == nil && dc.name != "WhoIs" {
			c.Fail("%s succeeds after an error in % x", dc.name, b)
		}
		c.Note("%s", dc.name)
	}})
}

// ---------------------------------------------------------------- P18: searches and announcements

func init() {
	lims := []int32{-1, 0, 1, 254, 255, 256, 65535, 65536, 0x3FFFFD, 0x3FFFFE, 0x3FFFFF, 0x400000, math.MaxInt32, math.MinInt32}
	xp.Add(&xp.Unit{Prop: "P18", Name: "who-is", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		l := lims
		for v := int32(1); v < 0x3FFFFF; v = v*3/2 + 1 {
			l = append(l, v)
		}
		low, high := l[c.Choose(len(l))], l[c.Choose(len(l))]
		e := encoding.NewEncoder()
		err := e.WhoIs(low, high)
		if err != nil {
			c.Fail("search %d to %d: %v", low, high, err)
		}
		std := []byte{0x10, 8}
		all := low < 0 || high < 0 || low > 0x3FFFFF || high > 0x3FFFFF
		if !all {
			std = append(std, ref.Cat(ref.Ctx(0, ref.Uint(uint32(low))), ref.Ctx(1, ref.Uint(uint32(high))))...)
		}
		if !bytes.Equal(e.Bytes(), std) {
			c.Fail("the search %d to %d is encoded as % x instead of % x", low, high, e.Bytes(), std)
		}
		var a btypes.APDU
		if err := encoding.NewDecoder(std).APDU(&a); err != nil || a.DataType != btypes.UnconfirmedServiceRequest || a.UnconfirmedService != btypes.ServiceUnconfirmedWhoIs {
			c.Fail("% x decodes to %v, %v", std, a, err)
		}
		var gl, gh int32 = 77, 78
		if err := encoding.NewDecoder(a.RawData).WhoIs(&gl, &gh); err != nil {
			c.Fail("% x: %v", std, err)
		}
		if all && (gl != btypes.WhoIsAll || gh != btypes.WhoIsAll) || !all && (gl != low || gh != high) {
			c.Fail("% x (search %d to %d) decodes to %d to %d", std, low, high, gl, gh)
		}
		if !all {
			body := std[2:]
			for k := 1; k < len(body); k++ {
				if encoding.NewDecoder(body[:k:k]).WhoIs(&gl, &gh) == nil {
					c.Fail("% x cut to %d bytes decodes to %d to %d", body, k, gl, gh)
				}
			}
			for _, pos := range []int{0, 1 + len(ref.Uint(uint32(low)))} {
				for x := 0; x < 256; x++ {
					b := append([]byte{}, body...)
					if byte(x)>>3 == b[pos]>>3 || x>>4 == 15 { // (15: the number follows, and may be the same)
						continue
					}
					b[pos] = byte(x)
					if encoding.NewDecoder(b).WhoIs(&gl, &gh) == nil {
						c.Fail("% x decodes to the search %d to %d", b, gl, gh)
					}
				}
			}
		}
		c.Note("%v", all)
	}})
	xp.Add(&xp.Unit{Prop: "P18", Name: "i-am", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		insts := []uint32{0, 1, 255, 256, 65536, 0x3FFFFE, 0x3FFFFF}
		apdus := []uint32{50, 128, 206, 480, 1024, 1476, 0, 65536}
		vendors := []uint32{0, 1, 255, 256, 999, 65535}
		inst, max := insts[c.Choose(len(insts))], apdus[c.Choose(len(apdus))]
		seg, vendor := uint32(c.Choose(4)), vendors[c.Choose(len(vendors))]
		in := btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}, MaxApdu: max, Segmentation: btypes.Enumerated(seg), Vendor: vendor}
		e := encoding.NewEncoder()
		err := e.IAm(in)
		std := ref.IAm(inst, max, seg, vendor)
		if err != nil || !bytes.Equal(e.Bytes(), std) {
			c.Fail("%+v is encoded as % x, %v instead of % x", in, e.Bytes(), err, std)
		}
		var a btypes.APDU
		if err := encoding.NewDecoder(std).APDU(&a); err != nil || a.UnconfirmedService != btypes.ServiceUnconfirmedIAm || a.DataType != btypes.UnconfirmedServiceRequest {
			c.Fail("% x decodes to %v, %v", std, a, err)
		}
		var o btypes.IAm
		if err := encoding.NewDecoder(a.RawData).IAm(&o); err != nil || o.ID != in.ID || o.MaxApdu != in.MaxApdu || o.Segmentation != in.Segmentation || o.Vendor != in.Vendor {
			c.Fail("% x (%+v) decodes to %+v, %v", std, in, o, err)
		}
		body := std[2:]
		for _, t := range []btypes.ObjectType{0, 1, 5, 7, 9, 10, 19, 128, 264, 520, 1023} {
			var o btypes.IAm
			b := append(ref.App(btypes.ObjectID{Type: t, Instance: in.ID.Instance}), body[5:]...)
			if encoding.NewDecoder(b).IAm(&o) == nil {
				c.Fail("% x, the announcement of an object of type %d, decodes to %+v", b, t, o)
			}
		}
		for k := 0; k < len(body); k++ {
			var o btypes.IAm
			if encoding.NewDecoder(body[:k:k]).IAm(&o) == nil {
				c.Fail("% x cut to %d bytes decodes to %+v", body, k, o)
			}
		}
		// every field left out or replaced by another value
		f := [][]byte{ref.App(in.ID), ref.App(max), ref.App(ref.Enum(seg)), ref.App(vendor)}
		other := [][]byte{ref.App(in.ID), ref.App(uint32(5)), ref.App(ref.Enum(5)), ref.App(true), ref.App(null.Null{}), ref.App(int32(5)), ref.App(float32(1)), ref.App("s"), ref.App(ref.Octets{1}), ref.Ctx(2, []byte{5}), ref.Ctx(9, []byte{5}), ref.Ctx(12, ref.ObjID(8, 1)), {}}
		for i := range f {
			for _, x := range other {
				c.Step()
				if len(x) > 0 && x[0]>>3 == f[i][0]>>3 {
					continue
				}
				g := append([][]byte{}, f...)
				g[i] = x
				if len(x) == 0 && i == 1 && false {
					continue
				}
				b := ref.Cat(g...)
				var o btypes.IAm
				if encoding.NewDecoder(b).IAm(&o) == nil {
					c.Fail("% x decodes to %+v", b, o)
				}
			}
		}
		c.Note("ok")
	}})
}

// ---------------------------------------------------------------- P12: requests, as encoded

func toObj(o ref.Obj) btypes.Object {
	out := btypes.Object{ID: o.ID}
	for _, p := range o.Props {
		v := p.Value
		if e, ok := v.(ref.Enum); ok {
			v = uint32(e)
		}
		out.Properties = append(out.Properties, btypes.Property{Type: btypes.PropertyType(p.Type), ArrayIndex: p.Index, Data: v, Priority: btypes.NPDUPriority(p.Prio)})
	}
	return out
}

func init() {
	prios := []uint32{0, 1, 8, 16}
	check := func(c *xp.C, what string, id, service uint8, body []byte, enc func(e *encoding.Encoder) error) {
		c.Step()
		e := encoding.NewEncoder()
		err := enc(e)
		std := append(ref.Confirmed(id, service), body...)
		if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), std) {
			c.Fail("%s is encoded as % x, %v %v, instead of % x", what, clip(e.Bytes()), err, e.Error(), clip(std))
		}
	}
	pointIDs := append([]btypes.ObjectID{{Type: 4, Instance: 1}, {Type: 5, Instance: 300}, {Type: 1, Instance: 2}}, anIDs...)
	// binary outputs and values take enumerated present values
	conv := func(o btypes.ObjectID, p ref.Prop) ref.Prop {
		if v, ok := p.Value.(uint32); ok && (o.Type == 4 || o.Type == 5) && p.Type == 85 {
			p.Value = ref.Enum(v)
		}
		return p
	}
	xp.Add(&xp.Unit{Prop: "P12", Name: "encode-single", NoReset: true, Shard: 3, Seq: func(c *xp.C) {
		o := pointIDs[c.Choose(len(pointIDs))]
		p := ref.Prop{Type: someProps[c.Choose(len(someProps))], Index: indexes[c.Choose(len(indexes))]}
		inv := []uint8{1, 2, 127, 254}[c.Choose(4)]
		check(c, fmt.Sprintf("reading %v %v", o, p), inv, 12, ref.ReadPropertyReq(o, p), func(e *encoding.Encoder) error {
			return e.ReadProperty(inv, btypes.PropertyData{Object: toObj(ref.Obj{ID: o, Props: []ref.Prop{p}})})
		})
		for _, v := range sampleValues() {
			for _, pr := range prios {
				p.Value, p.Prio = v, pr
				if _, ok := v.(uint32); !ok && (o.Type == 4 || o.Type == 5) && p.Type == 85 && fmt.Sprintf("%T", v) != "null.Null" {
					continue // refused or not: see P14
				}
				q := conv(o, p)
				check(c, fmt.Sprintf("writing %v %v", o, q), inv, 15, ref.WritePropertyReq(o, q), func(e *encoding.Encoder) error {
					return e.WriteProperty(inv, btypes.PropertyData{Object: toObj(ref.Obj{ID: o, Props: []ref.Prop{p}})})
				})
			}
		}
		c.Note("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P12", Name: "encode-multiple", NoReset: true, Shard: 3, Seq: func(c *xp.C) {
		n := 1 + c.Choose(3)
		var objs, conved []ref.Obj
		vals := []interface{}{float32(1), uint32(1), null.Null{}, "abc", btypes.Enumerated(3), true}
		for i := 0; i < n; i++ {
			o := ref.Obj{ID: pointIDs[i]}
			np, nk := 1, 3
			if n < 3 || c.Deep {
				o.ID = pointIDs[c.Choose(len(pointIDs))]
				np = 1 + c.Choose(2)
			}
			if n < 3 {
				nk = 6
			}
			q := ref.Obj{ID: o.ID}
			for j := np; j > 0; j-- {
				k := c.Choose(nk)
				p := ref.Prop{Type: someProps[k], Index: indexes[(k+i+j)%len(indexes)], Value: vals[(k*5+i+2*j)%len(vals)], Prio: prios[(k+j)%4]}
				o.Props = append(o.Props, p)
				q.Props = append(q.Props, conv(o.ID, p))
			}
			objs, conved = append(objs, o), append(conved, q)
		}
		var m btypes.MultiplePropertyData
		for _, o := range objs {
			m.Objects = append(m.Objects, toObj(o))
		}
		check(c, fmt.Sprintf("reading %v", objs), 9, 14, ref.ReadMultipleReq(objs), func(e *encoding.Encoder) error { return e.ReadMultipleProperty(9, m) })
		check(c, fmt.Sprintf("writing %v", conved), 9, 16, ref.WriteMultipleReq(conved), func(e *encoding.Encoder) error { return e.WriteMultiProperty(9, m) })
		c.Note("%d objects", n)
	}})
	xp.Add(&xp.Unit{Prop: "P12", Name: "priorities", NoReset: true, Seq: func(c *xp.C) {
		// every priority; one that does not exist may be refused, but not dropped or changed
		o := pointIDs[c.Choose(len(pointIDs))]
		prop := []uint32{85, 77, 87}[c.Choose(3)]
		index := []uint32{ref.ArrayAll, 0, 3}[c.Choose(3)]
		v := []interface{}{null.Null{}, float32(1), uint32(1), "x"}[c.Choose(4)]
		if (o.Type == 4 || o.Type == 5) && prop == 85 && (v == float32(1) || v == "x") {
			c.Stop() // refused or not: see P14
		}
		for pr := uint32(0); pr < 256; pr++ {
			for at := 0; at < 4; at++ {
				c.Step()
				e := encoding.NewEncoder()
				var err error
				var std []byte
				p := ref.Prop{Type: prop, Index: index, Value: v, Prio: pr}
				if at == 3 {
					err = e.WriteProperty(7, btypes.PropertyData{Object: toObj(ref.Obj{ID: o, Props: []ref.Prop{p}})})
					std = append(ref.Confirmed(7, 15), ref.WritePropertyReq(o, conv(o, p))...)
				} else {
					ps := []ref.Prop{p, p, p}
					for i := range ps {
						if i != at {
							ps[i].Prio = uint32(at) * 8
						}
					}
					obj := ref.Obj{ID: o, Props: ps}
					err = e.WriteMultiProperty(7, btypes.MultiplePropertyData{Objects: []btypes.Object{toObj(obj)}})
					for i := range ps {
						ps[i] = conv(o, ps[i])
					}
					std = append(ref.Confirmed(7, 16), ref.WriteMultipleReq([]ref.Obj{obj})...)
				}
				if err == nil {
					err = e.Error()
				}
				if err != nil && pr > 16 {
					continue
				}
				if err != nil || !bytes.Equal(e.Bytes(), std) {
					c.Fail("writing %v of %v at priority %d is encoded as % x, %v, instead of % x", v, o, pr, clip(e.Bytes()), err, clip(std))
				}
			}
		}
		c.Note("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P12", Name: "refused", NoReset: true, Seq: func(c *xp.C) {
		good := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 5}, Properties: []btypes.Property{{Type: 85, ArrayIndex: ref.ArrayAll, Data: float32(1)}}}
		var bads []btypes.Object
		var what []string
		add := func(w string, o btypes.Object) { bads = append(bads, o); what = append(what, w) }
		for _, t := range []uint16{1024, 1025, 2048, 65535} {
			o := good
			o.ID.Type = btypes.ObjectType(t)
			add("object type", o)
		}
		for _, i := range []uint32{0x400000, 0x400001, 0x7FFFFFFF, 0xFFFFFFFF} {
			o := good
			o.ID.Instance = btypes.ObjectInstance(i)
			add("instance", o)
		}
		for _, p := range []uint32{4194304, 1 << 24, 0xFFFFFFFF} {
			o := good
			o.Properties = []btypes.Property{{Type: btypes.PropertyType(p), ArrayIndex: ref.ArrayAll, Data: float32(1)}}
			add("property", o)
		}
		add("no property", btypes.Object{ID: good.ID})
		add("no property", btypes.Object{ID: good.ID, Properties: []btypes.Property{}})
		nWrite := len(bads)
		for _, v := range unsupported() {
			o := good
			o.Properties = []btypes.Property{{Type: 85, ArrayIndex: ref.ArrayAll, Data: v}}
			add(fmt.Sprintf("value %T", v), o)
		}
		k := c.Choose(len(bads))
		svc := c.Choose(4)
		if (svc == 0 || svc == 2) && k >= nWrite {
			c.Stop()
		}
		e := encoding.NewEncoder()
		var err error
		pos := 0
		switch svc {
		case 0:
			err = e.ReadProperty(3, btypes.PropertyData{Object: bads[k]})
		case 1:
			err = e.WriteProperty(3, btypes.PropertyData{Object: bads[k]})
		default:
			objs := []btypes.Object{bads[k]}
			pos = c.Choose(5)
			switch pos {
			case 1:
				objs = []btypes.Object{good, bads[k]}
			case 2:
				objs = []btypes.Object{bads[k], good}
			case 3:
				objs = nil
			case 4: // the second property
				if len(bads[k].Properties) == 0 {
					c.Stop()
				}
				objs[0].Properties = []btypes.Property{good.Properties[0], bads[k].Properties[0], good.Properties[0]}
			}
			m := btypes.MultiplePropertyData{Objects: objs}
			if svc == 2 {
				err = e.ReadMultipleProperty(3, m)
			} else {
				err = e.WriteMultiProperty(3, m)
			}
		}
		if err == nil || e.Error() == nil {
			c.Fail("service %d, %s (%+v), place %d is not refused: % x, %v, %v", svc, what[k], bads[k], pos, e.Bytes(), err, e.Error())
		}
		c.Note("%s", strings.Fields(what[k])[0])
	}})
}
