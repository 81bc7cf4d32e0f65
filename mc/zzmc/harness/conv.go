package main

import (
	"fmt"
	"reflect"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/helpers/data"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

func convValues() []interface{} {
	set := btypes.NewBitString(15)
	set.SetBit(9, true)
	var none *btypes.BitString
	return []interface{}{nil, true, false, 0, -5, 7, int8(1), int16(2), int32(3), int64(4), uint(5), uint8(6), uint16(7), uint32(0), uint32(8), uint32(0xFFFFFFFF), uint64(9),
		float32(0), float32(-1.5), float64(0), 2.25, "", "text", "12", []interface{}{}, []interface{}{uint32(1), "x", nil}, []uint32{1}, []byte("abc"),
		btypes.NewBitString(15), set, *set, none, null.Null{}, &null.Null{}, btypes.ObjectID{Type: 8, Instance: 9}, btypes.Enumerated(3), btypes.Date{}, struct{}{}, fmt.Errorf("an error")}
}

func init() {
	// the conversions of what was read: exactly the wanted type, as it is
	convs := []struct {
		name string
		typ  reflect.Type
		do   func(btypes.PropertyData) (bool, interface{})
	}{
		{"ToArr", reflect.TypeOf([]interface{}{}), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToArr(d); return ok, x }},
		{"ToBitString", reflect.TypeOf(&btypes.BitString{}), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToBitString(d); return ok, x }},
		{"ToInt", reflect.TypeOf(0), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToInt(d); return ok, x }},
		{"ToFloat32", reflect.TypeOf(float32(0)), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToFloat32(d); return ok, x }},
		{"ToFloat64", reflect.TypeOf(0.0), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToFloat64(d); return ok, x }},
		{"ToBool", reflect.TypeOf(true), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToBool(d); return ok, x }},
		{"ToStr", reflect.TypeOf(""), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToStr(d); return ok, x }},
		{"ToUint32", reflect.TypeOf(uint32(0)), func(d btypes.PropertyData) (bool, interface{}) { ok, x := data.ToUint32(d); return ok, x }},
	}
	xp.Add(&xp.Unit{Prop: "P21", Name: "conversions", Seq: func(c *xp.C) {
		conv := convs[c.Choose(len(convs))]
		vals := convValues()
		n := c.Choose(3)
		var d btypes.PropertyData
		d.Object.ID = btypes.ObjectID{Type: 8, Instance: 1}
		for i := 0; i < n; i++ {
			d.Object.Properties = append(d.Object.Properties, btypes.Property{Type: btypes.PropertyType(77 + i), Data: vals[c.Choose(len(vals))]})
		}
		c.Step()
		before := dump(d)
		ok, got := conv.do(d)
		if s := dump(d); s != before {
			c.Fail("%s changes %s to %s", conv.name, before, s)
		}
		if n > 0 && reflect.TypeOf(d.Object.Properties[0].Data) == conv.typ {
			if v := d.Object.Properties[0].Data; !ok || !reflect.DeepEqual(got, v) {
				c.Fail("%s of %T %v gives %v, %v", conv.name, v, v, ok, got)
			}
			c.Note(conv.name)
			return
		}
		if ok {
			c.Fail("%s of %s gives %v without objection", conv.name, before, got)
		}
		if !reflect.ValueOf(got).IsZero() {
			c.Fail("%s of %s is refused, yet gives %v", conv.name, before, got)
		}
		c.Note("refused")
	}})
	// what an address stands for
	xp.Add(&xp.Unit{Prop: "P26", Name: "kinds", Seq: func(c *xp.C) {
		nets, lens := []uint16{0, 1, 255, 256, 0x7FFF, 0xFFFE, 0xFFFF}, []uint8{0, 1, 2, 5, 6, 7, 18, 255}
		a := btypes.Address{Net: nets[c.Choose(len(nets))], Len: lens[c.Choose(len(lens))], MacLen: lens[c.Choose(len(lens))]}
		for i, n := 0, []int{0, 1, 6, 18}[c.Choose(4)]; i < n; i++ {
			a.Mac = append(a.Mac, uint8(10+i))
		}
		for i, n := 0, []int{0, 1, 3, 6, 18, 255}[c.Choose(6)]; i < n; i++ {
			a.Adr = append(a.Adr, uint8(20+i))
		}
		c.Step()
		want := a
		check := func(what string) {
			if dump(a) != dump(want) {
				c.Fail("%s: the address is %s instead of %s", what, dump(a), dump(want))
			}
			if x, y := a.IsBroadcast(), want.Net == 0xFFFF || want.MacLen == 0; x != y {
				c.Fail("%s: IsBroadcast of %+v is %v", what, a, x)
			}
			if x, y := a.IsSubBroadcast(), want.Net != 0 && want.Len == 0; x != y {
				c.Fail("%s: IsSubBroadcast of %+v is %v", what, a, x)
			}
			if x, y := a.IsUnicast(), want.MacLen == 6; x != y {
				c.Fail("%s: IsUnicast of %+v is %v", what, a, x)
			}
		}
		check("asked")
		for i := 0; i < 2; i++ {
			switch c.Choose(3) {
			case 0:
				a.SetBroadcast(true)
				want.MacLen = 0
				check("made a broadcast")
			case 1:
				a.SetBroadcast(false)
				want.MacLen = uint8(len(want.Mac))
				check("made no broadcast")
			case 2:
				a.SetLength()
				if len(want.Adr) > 0 {
					want.Len = uint8(len(want.Adr))
				}
				check("length set")
			}
		}
		c.Note("ok")
	}})
	// application headers that cannot be encoded, and kinds of headers
	xp.Add(&xp.Unit{Prop: "P15", Name: "kinds", Seq: func(c *xp.C) {
		kind := c.Choose(16)
		flags := c.Choose(16)
		c.Step()
		a := btypes.APDU{DataType: btypes.PDUType(kind << 4), InvokeId: 5, Service: 12, Sequence: 3, WindowNumber: 2,
			SegmentedMessage: flags&8 != 0, MoreFollows: flags&4 != 0, SegmentedResponseAccepted: flags&2 != 0}
		if got := (&btypes.APDU{DataType: btypes.PDUType(kind<<4 | flags)}).IsConfirmedServiceRequest(); got != (kind == 0) {
			c.Fail("a header with the first byte %02x is a confirmed request: %v", kind<<4|flags, got)
		}
		e := encoding.NewEncoder()
		err := e.APDU(a)
		switch kind {
		case 0, 1, 3:
			if err != nil {
				c.Fail("the header of a message of kind %d is refused: %v", kind, err)
			}
			c.Note("ok")
		case 2: // simple acknowledgements may be supported
			c.Note("simple ack")
		default:
			if err == nil && len(e.Bytes()) < 3 {
				c.Fail("a message of kind %d, of which the encoder writes the first byte only, is not refused", kind)
			}
			c.Note("refused")
		}
	}})
}
