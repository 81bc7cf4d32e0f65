package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P14: application values

// trailer is what follows a value, to see that it is left alone.
var trailer = []byte{0x91, 0x05}

// roundTrip encodes a value, compares it with the standard's form and decodes it again.
func roundTrip(c *xp.C, v interface{}, enum bool) {
	c.Step()
	want := v
	if enum {
		want = ref.Enum(v.(uint32))
	}
	e := encoding.NewEncoder()
	err := e.AppData(v, enum)
	if err != nil || e.Error() != nil {
		c.Fail("encoding %T %v: %v, %v", v, v, err, e.Error())
	}
	std := ref.App(want)
	if !bytes.Equal(e.Bytes(), std) {
		c.Fail("%T %v is encoded as % x, the standard's form is % x", v, short(v), clip(e.Bytes()), clip(std))
	}
	decodes(c, std, want)
}

// decodes checks that exactly the bytes of the value are consumed and that it is the value.
func decodes(c *xp.C, b []byte, want interface{}) {
	in := append(append([]byte{}, b...), trailer...)
	mcrt.SeqReset(20000+60*len(in), 1<<16+8*len(in))
	d := encoding.NewDecoder(in)
	got, err := d.AppData()
	if err != nil || d.Error() != nil {
		c.Fail("decoding % x (%T %v): %v, %v", clip(b), want, short(want), err, d.Error())
	}
	if !ref.Same(want, got) {
		c.Fail("% x decodes to %T %v instead of %T %v", clip(b), got, short(got), want, short(want))
	}
	if !bytes.Equal(d.Bytes(), trailer) {
		c.Fail("decoding %T %v leaves % x instead of % x", want, short(want), clip(d.Bytes()), trailer)
	}
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func short(v interface{}) string {
	s := fmt.Sprint(v)
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

// edges32 are all values next to a change of length or sign.
func edges32() []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	add := func(v uint32) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for k := uint(0); k <= 32; k++ {
		for d := -2; d <= 2; d++ {
			add(uint32(int64(1)<<k + int64(d)))
			add(uint32(-(int64(1) << k) + int64(d)))
		}
	}
	for _, v := range []uint32{0x01020304, 0x80402010, 0x00FF00FF, 0xFF00FF00, 0x00008000, 0x7F80FF00, 0x80000001, 0x12, 0x1234, 0x123456, 0x800000FF, 0xFFFF7F80} {
		add(v)
	}
	return out
}

// floats32 has every exponent with both signs and the edge mantissas.
func floats32() []float32 {
	var out []float32
	for s := uint32(0); s < 2; s++ {
		for e := uint32(0); e < 256; e++ {
			for _, m := range []uint32{0, 1, 0x400000, 0x7FFFFF, 0x123456} {
				b := s<<31 | e<<23 | m
				if e == 255 && m != 0 && m&0x400000 == 0 {
					continue // a signalling NaN may become quiet on its way through a register
				}
				out = append(out, math.Float32frombits(b))
			}
		}
	}
	return out
}

func floats64() []float64 {
	var out []float64
	for s := uint64(0); s < 2; s++ {
		for e := uint64(0); e < 2048; e++ {
			for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x123456789ABCD} {
				if e == 2047 && m != 0 && m&(1<<51) == 0 {
					continue
				}
				out = append(out, math.Float64frombits(s<<63|e<<52|m))
			}
		}
	}
	return out
}

// texts are character strings of every length around the changes of the length field, and with all kinds of characters.
func texts(deep bool) []string {
	out := []string{"", "a", "ab", "abc", "abcd", "abcde", "\x00", "\x01\x04", "é", "日本語", "🙂", "a\nb", "Raum-Temperatur °C", string([]byte{0xFF, 0xFE, 0x80})}
	n := 300
	for i := 6; i <= n; i++ {
		out = append(out, strings.Repeat("x", i-1)+"y")
	}
	for _, i := range []int{1023, 1024, 65533, 65534, 65535, 65536, 65537, 70000} {
		out = append(out, strings.Repeat("z", i-1)+"y")
	}
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}), "p"+string([]byte{byte(i)})+"q")
	}
	return out
}

func ucs2s() []ref.UCS2 {
	out := []ref.UCS2{"", "a", "Ä", "日本", "Ω≠ø", "temp\u00b0", "🙂", "x🙂y"}
	for n := 2; n < 140; n++ {
		out = append(out, ref.UCS2(strings.Repeat("ж", n)))
	}
	for r := rune(1); r < 0xFFFE; r += 61 {
		if r >= 0xD800 && r < 0xE000 || r == 0xFEFF {
			continue
		}
		out = append(out, ref.UCS2(string(r)+"k"))
	}
	return out
}

func bitss() []ref.Bits {
	var out []ref.Bits
	for n := 0; n <= 120; n++ {
		for p := 0; p < 5; p++ {
			b := make(ref.Bits, n)
			for i := range b {
				switch p {
				case 0:
				case 1:
					b[i] = true
				case 2:
					b[i] = i%2 == 0
				case 3:
					b[i] = i == n-1
				case 4:
					b[i] = i == 0 || i%7 == 3
				}
			}
			out = append(out, b)
			if n == 0 {
				break
			}
		}
	}
	// all strings of up to 10 bits
	for n := 1; n <= 10; n++ {
		for x := 0; x < 1<<n; x++ {
			b := make(ref.Bits, n)
			for i := range b {
				b[i] = x>>i&1 == 1
			}
			out = append(out, b)
		}
	}
	return out
}

func dates() []btypes.Date {
	var out []btypes.Date
	for y := 1900; y < 1900+255; y++ {
		out = append(out, btypes.Date{Year: y, Month: 1 + y%14, Day: 1 + y%34, DayOfWeek: btypes.DayOfWeek(1 + y%7)})
	}
	for _, y := range []int{1900, 1990, 2024, 2154, btypes.UnspecifiedTime} {
		for m := 0; m <= 255; m++ {
			if m > 16 && m < 255 {
				continue
			}
			for d := 0; d <= 255; d++ {
				if d > 36 && d < 255 {
					continue
				}
				for _, w := range []int{0, 1, 7, 255} {
					out = append(out, btypes.Date{Year: y, Month: m, Day: d, DayOfWeek: btypes.DayOfWeek(w)})
				}
			}
		}
	}
	return out
}

func times() []btypes.Time {
	var out []btypes.Time
	for _, h := range []int{0, 1, 12, 23, 255} {
		for _, m := range []int{0, 1, 59, 255} {
			for _, s := range []int{0, 30, 59, 255} {
				for _, x := range []int{0, 1, 50, 99, 255} {
					out = append(out, btypes.Time{Hour: h, Minute: m, Second: s, Millisecond: 10 * x})
				}
			}
		}
	}
	for v := 0; v < 256; v++ {
		out = append(out, btypes.Time{Hour: v, Minute: 1, Second: 2, Millisecond: 30}, btypes.Time{Hour: 1, Minute: v, Second: 2, Millisecond: 30},
			btypes.Time{Hour: 1, Minute: 2, Second: v, Millisecond: 30}, btypes.Time{Hour: 1, Minute: 2, Second: 3, Millisecond: 10 * v})
	}
	return out
}

func octetss() []ref.Octets {
	out := []ref.Octets{}
	for n := 0; n <= 300; n++ {
		b := make(ref.Octets, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		out = append(out, b)
	}
	out = append(out, make(ref.Octets, 1500), make(ref.Octets, 65535), make(ref.Octets, 65536))
	return out
}

func objectIDs() []btypes.ObjectID {
	var out []btypes.ObjectID
	for t := 0; t < 1024; t++ {
		for _, i := range []btypes.ObjectInstance{0, 1, 255, 256, 0x1FFFFF, 0x200000, 0x3FFFFE, 0x3FFFFF} {
			out = append(out, btypes.ObjectID{Type: btypes.ObjectType(t), Instance: i})
		}
	}
	return out
}

// sampleValues is one or a few values of every kind that can be encoded.
func sampleValues() []interface{} {
	return []interface{}{null.Null{}, false, true, uint32(0), uint32(255), uint32(256), uint32(70000), uint32(1 << 24), uint32(math.MaxUint32),
		int32(0), int32(-1), int32(127), int32(128), int32(-129), int32(-40000), int32(math.MinInt32), float32(0), float32(-5.5), 1.25, -1e300,
		"", "name", strings.Repeat("long", 80), btypes.Enumerated(3), btypes.Enumerated(300), btypes.ObjectID{Type: 8, Instance: 1234}, btypes.ObjectID{Type: 1023, Instance: 0x3FFFFF}}
}

// decodeOnly is one or a few values of every kind that can only be decoded.
func decodeOnlyValues() []interface{} {
	return []interface{}{ref.Octets{}, ref.Octets{1, 2, 3}, ref.Octets(bytes.Repeat([]byte{9}, 260)), ref.Bits{}, ref.Bits{true}, ref.Bits{true, false, true, true, false, false, true, false, true},
		ref.UCS2("Ω1"), btypes.Date{Year: 2024, Month: 2, Day: 29, DayOfWeek: 4}, btypes.Date{Year: btypes.UnspecifiedTime, Month: 255, Day: 255, DayOfWeek: 255}, btypes.Time{Hour: 23, Minute: 59, Second: 58, Millisecond: 990}}
}

type weird struct{ A int }

// unsupported are values without a notation.
func unsupported() []interface{} {
	n := 3
	return []interface{}{nil, 5, int64(5), int16(5), int8(5), uint(5), uint8(5), uint16(5), uint64(5), []byte{1}, []uint32{1}, map[string]int{}, weird{1}, &weird{1}, &n,
		complex(1, 2), []interface{}{uint32(1)}, error(nil), btypes.Property{}, &btypes.ObjectID{}, (*btypes.BitString)(nil), btypes.NewBitString(2), btypes.Date{}, btypes.Time{}, [2]byte{1, 2}, struct{}{}}
}

func init() {
	// every 32-bit value class
	xp.Add(&xp.Unit{Prop: "P14", Name: "numbers", NoReset: true, Seq: func(c *xp.C) {
		kind := c.Choose(4)
		block := c.Choose(65)
		one := func(v uint32) {
			switch kind {
			case 0:
				roundTrip(c, v, false)
			case 1:
				roundTrip(c, int32(v), false)
			case 2:
				roundTrip(c, btypes.Enumerated(v), false)
			case 3:
				roundTrip(c, v, true)
			}
		}
		if block == 64 {
			for _, v := range edges32() {
				one(v)
			}
		} else {
			// 65536 + values below and above the change to three and four bytes
			n := uint32(1024)
			for i := uint32(0); i < n; i++ {
				v := uint32(block)*n + i
				one(v)
				one(-v)
				one(0x7FFFFF - 32768 + v)
			}
		}
		c.Note("kind %d", kind)
	}})
	xp.Add(&xp.Unit{Prop: "P14", Name: "numbers-24", NoReset: true, Shard: 2, Weight: 3, Seq: func(c *xp.C) {
		kind := c.Choose(3)
		n := 512
		if c.Deep {
			n = 4096
		}
		block := c.Choose(n) * (4096 / n)
		for i := 0; i < 8192; i++ {
			v := uint32(block*8192 + i)
			switch kind {
			case 0:
				roundTrip(c, v, false)
			case 1:
				roundTrip(c, int32(v-1<<24), false)
			case 2:
				roundTrip(c, btypes.Enumerated(v), false)
			}
		}
		c.Note("kind %d", kind)
	}})
	xp.Add(&xp.Unit{Prop: "P14", Name: "floats", NoReset: true, Seq: func(c *xp.C) {
		switch c.Choose(3) {
		case 0:
			for _, v := range floats32() {
				roundTrip(c, v, false)
			}
			c.Note("real")
		case 1:
			for _, v := range floats64() {
				roundTrip(c, v, false)
			}
			c.Note("double")
		case 2:
			roundTrip(c, true, false)
			roundTrip(c, false, false)
			roundTrip(c, null.Null{}, false)
			e := encoding.NewEncoder()
			if err := e.AppData(null.Null{}, true); err != nil || !bytes.Equal(e.Bytes(), []byte{0}) {
				c.Fail("a null for a binary point is encoded as % x, %v", e.Bytes(), err)
			}
			c.Note("others")
		}
	}})
	xp.Add(&xp.Unit{Prop: "P14", Name: "texts", NoReset: true, Seq: func(c *xp.C) {
		t := texts(c.Deep)
		roundTrip(c, t[c.Choose(len(t))], false)
		c.Note("text")
	}})
	xp.Add(&xp.Unit{Prop: "P14", Name: "object-ids", NoReset: true, Seq: func(c *xp.C) {
		for _, id := range objectIDs() {
			roundTrip(c, id, false)
		}
		// what does not fit into the identifier is refused
		for _, id := range []btypes.ObjectID{{Type: 1024}, {Type: 65535}, {Type: 1, Instance: 0x400000}, {Type: 0, Instance: math.MaxUint32}, {Type: 1024 + 8, Instance: 1}} {
			e := encoding.NewEncoder()
			err := e.AppData(id, false)
			if err == nil && e.Error() == nil {
				c.Fail("object identifier type %d instance %d is encoded as % x", uint16(id.Type), id.Instance, e.Bytes())
			}
		}
		c.Note("ids")
	}})
	xp.Add(&xp.Unit{Prop: "P14", Name: "decode-only", NoReset: true, Seq: func(c *xp.C) {
		switch c.Choose(5) {
		case 0:
			for _, v := range octetss() {
				c.Step()
				decodes(c, ref.App(v), v)
			}
		case 1:
			for _, v := range bitss() {
				c.Step()
				decodes(c, ref.App(v), v)
			}
		case 2:
			for _, v := range dates() {
				c.Step()
				decodes(c, ref.App(v), v)
			}
		case 3:
			for _, v := range times() {
				c.Step()
				decodes(c, ref.App(v), v)
			}
		case 4:
			for _, v := range ucs2s() {
				c.Step()
				decodes(c, ref.App(v), v)
			}
		}
		c.Note("ok")
	}})
	// several values in one buffer: each takes its own bytes only
	xp.Add(&xp.Unit{Prop: "P14", Name: "sequences", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		vals := append(sampleValues(), decodeOnlyValues()...)
		n := 3
		if c.Deep {
			n = 4
		}
		var std []byte
		var seq []interface{}
		e := encoding.NewEncoder()
		enc := true
		for i := 0; i < n; i++ {
			k := c.Choose(len(vals))
			seq = append(seq, vals[k])
			std = append(std, ref.App(vals[k])...)
			if k >= len(sampleValues()) {
				enc = false
			}
			if enc {
				if err := e.AppData(vals[k], false); err != nil {
					c.Fail("encoding %v: %v", vals[k], err)
				}
			}
		}
		if enc && !bytes.Equal(e.Bytes(), std) {
			c.Fail("%v is encoded as % x, the standard's form is % x", seq, clip(e.Bytes()), clip(std))
		}
		d := encoding.NewDecoder(std)
		for _, v := range seq {
			c.Step()
			got, err := d.AppData()
			if err != nil || !ref.Same(v, got) {
				c.Fail("of %v, %T %v decodes to %T %v, %v", seq, v, short(v), got, short(got), err)
			}
		}
		if len(d.Bytes()) != 0 {
			c.Fail("% x is left of %v", d.Bytes(), seq)
		}
		c.Note("%v", enc)
	}})
	xp.Add(&xp.Unit{Prop: "P14", Name: "unsupported", NoReset: true, Seq: func(c *xp.C) {
		u := unsupported()
		k := c.Choose(len(u))
		enum := c.Bool()
		before := c.Bool()
		after := c.Bool()
		e := encoding.NewEncoder()
		if before {
			e.AppData(uint32(7), false)
		}
		err := e.AppData(u[k], enum)
		if err == nil {
			c.Fail("encoding a %T (binary point: %v) gives no error, % x", u[k], enum, e.Bytes())
		}
		if after {
			e.AppData(uint32(8), false)
		}
		if e.Error() == nil {
			c.Fail("after encoding a %T the encoder reports no error", u[k])
		}
		// a binary point takes null and unsigned values only
		for _, v := range sampleValues() {
			switch v.(type) {
			case null.Null, uint32:
				continue
			}
			e := encoding.NewEncoder()
			if err := e.AppData(v, true); err == nil || e.Error() == nil {
				c.Fail("a %T is accepted as the value of a binary point: % x", v, e.Bytes())
			}
		}
		c.Note("%T", u[k])
	}})
}

// ---------------------------------------------------------------- P15: protocol headers

func addrs(dst bool) []*btypes.Address {
	out := []*btypes.Address{nil}
	for _, net := range []uint16{1, 255, 256, 4711, 65534, 65535} {
		for _, adr := range [][]byte{{}, {5}, {0, 255}, {1, 2, 3, 4, 5, 6}, {9, 8, 7, 6, 5, 4, 3}} {
			if len(adr) == 0 && !dst {
				continue
			}
			out = append(out, &btypes.Address{Net: net, Len: uint8(len(adr)), Adr: adr})
		}
	}
	// a local address: not in the header
	out = append(out, &btypes.Address{Mac: []byte{10, 0, 0, 1, 0xBA, 0xC0}, MacLen: 6})
	return out
}

func refAddr(a *btypes.Address) *ref.Addr {
	if a == nil || a.Net == 0 {
		return nil
	}
	return &ref.Addr{Net: a.Net, Adr: a.Adr}
}

func sameAddr(want *ref.Addr, got *btypes.Address) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	return want.Net == got.Net && int(got.Len) == len(want.Adr) && bytes.Equal(want.Adr, got.Adr)
}

func init() {
	xp.Add(&xp.Unit{Prop: "P15", Name: "npdu", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		dsts, srcs := addrs(true), addrs(false)
		dst, src := dsts[c.Choose(len(dsts))], srcs[c.Choose(len(srcs))]
		prio := c.Choose(4)
		reply := c.Bool()
		hops := []uint8{0, 1, 127, 255}
		hop := hops[c.Choose(len(hops))]
		types := []int{-1, 0, 2, 3, 0x12, 0x7F, 0x80, 0x81, 0xFF}
		mt := types[c.Choose(len(types))]
		for _, vendor := range []uint16{0, 1, 255, 256, 0xFFFF} {
			for _, version := range []uint8{1, 102} {
				c.Step()
				n := &btypes.NPDU{Version: version, Destination: dst, Source: src, ExpectingReply: reply, Priority: btypes.NPDUPriority(prio), HopCount: hop, VendorId: vendor}
				std := ref.NPDU(refAddr(dst), refAddr(src), hop, reply, mt >= 0, uint8(prio))
				std[0] = version
				if mt >= 0 {
					n.IsNetworkLayerMessage = true
					setMT(n, uint8(mt))
					std = append(std, byte(mt))
					if mt >= 0x80 {
						std = append(std, byte(vendor>>8), byte(vendor))
					}
				}
				e := encoding.NewEncoder()
				e.NPDU(n)
				if e.Error() != nil || !bytes.Equal(e.Bytes(), std) {
					c.Fail("%+v is encoded as % x, %v instead of % x", n, e.Bytes(), e.Error(), std)
				}
				d := encoding.NewDecoder(append(append([]byte{}, std...), trailer...))
				var o btypes.NPDU
				nets, err := d.NPDU(&o)
				wantHop, wantVendor := uint8(0), uint16(0)
				if refAddr(dst) != nil {
					wantHop = hop
				}
				if mt >= 0x80 {
					wantVendor = vendor
				}
				wantMT := uint8(0)
				if mt >= 0 {
					wantMT = uint8(mt)
				}
				if err != nil || d.Error() != nil || len(nets) != 0 || o.Version != version || o.ExpectingReply != reply || int(o.Priority) != prio || o.IsNetworkLayerMessage != (mt >= 0) ||
					uint8(o.NetworkLayerMessageType) != wantMT || o.HopCount != wantHop || o.VendorId != wantVendor || !sameAddr(refAddr(dst), o.Destination) || !sameAddr(refAddr(src), o.Source) {
					c.Fail("% x (%+v) decodes to %+v dst %+v src %+v nets %v, %v", std, n, o, o.Destination, o.Source, nets, err)
				}
				if !bytes.Equal(d.Bytes(), trailer) {
					c.Fail("decoding % x leaves % x", std, d.Bytes())
				}
				// a header that is cut is not a header
				for k := 0; k < len(std); k++ {
					var o btypes.NPDU
					if _, err := encoding.NewDecoder(std[:k:k]).NPDU(&o); err == nil {
						c.Fail("% x cut to %d bytes decodes to %+v", std, k, o)
					}
				}
			}
		}
		c.Note("dst %v src %v type %v", refAddr(dst) != nil, refAddr(src) != nil, mt >= 0)
	}})
	xp.Add(&xp.Unit{Prop: "P15", Name: "router-lists", NoReset: true, Seq: func(c *xp.C) {
		nets := []uint16{1, 2, 256, 65534, 0x0102}
		max := 4
		if c.Deep {
			max = 6
		}
		n := 1 + c.Choose(max)
		var want []uint16
		std := ref.NPDU(nil, nil, 0, false, true, 0)
		if c.Bool() {
			std = ref.NPDU(nil, &ref.Addr{Net: 9, Adr: []byte{1}}, 0, false, true, 0)
		}
		std = append(std, 1)
		seen := map[uint16]bool{}
		for i := 0; i < n; i++ {
			x := nets[c.Choose(len(nets))]
			std = append(std, byte(x>>8), byte(x))
			if !seen[x] {
				seen[x] = true
				want = append(want, x)
			}
		}
		var o btypes.NPDU
		d := encoding.NewDecoder(std)
		got, err := d.NPDU(&o)
		ok := err == nil && len(got) == len(want) && len(d.Bytes()) == 0 && o.IsNetworkLayerMessage
		for i := range want {
			ok = ok && got[i].Net == want[i]
		}
		if !ok {
			c.Fail("the announcement % x of networks %v decodes to %v, %v", std, want, got, err)
		}
		c.Note("%d networks", len(want))
	}})
	xp.Add(&xp.Unit{Prop: "P15", Name: "network-number", NoReset: true, Seq: func(c *xp.C) {
		src := c.Bool()
		for n := 1; n < 65535; n++ {
			if n > 600 && n%37 != 0 && n < 65000 {
				continue
			}
			c.Step()
			b := ref.NPDU(nil, nil, 0, false, true, 0)
			if src {
				b = ref.NPDU(nil, &ref.Addr{Net: 9, Adr: []byte{1}}, 0, false, true, 0)
			}
			b = append(b, 0x13, byte(n>>8), byte(n), 1)
			var o btypes.NPDU
			_, err := encoding.NewDecoder(b).NPDU(&o)
			if err != nil || o.Source == nil || int(o.Source.Net) != n || uint8(o.NetworkLayerMessageType) != 0x13 {
				c.Fail("% x: network number %d decodes to %+v, %v", b, n, o.Source, err)
			}
		}
		c.Note("numbers")
	}})
	xp.Add(&xp.Unit{Prop: "P15", Name: "bvlc", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		types := []byte{0x81, 0x82, 0, 255}
		ty := types[c.Choose(len(types))]
		fn := byte(c.Choose(256))
		for _, l := range []uint16{4, 5, 255, 256, 1480, 65535} {
			for _, data := range [][]byte{nil, {1}, bytes.Repeat([]byte{7}, 300)} {
				c.Step()
				in := btypes.BVLC{Type: ty, Function: btypes.BacFunc(fn), Length: l, Data: data}
				e := encoding.NewEncoder()
				err := e.BVLC(in)
				std := append([]byte{ty, fn, byte(l >> 8), byte(l)}, data...)
				if err != nil || !bytes.Equal(e.Bytes(), std) {
					c.Fail("%+v is encoded as % x, %v", in, clip(e.Bytes()), err)
				}
				d := encoding.NewDecoder(std)
				var o btypes.BVLC
				if err := d.BVLC(&o); err != nil || o.Type != ty || byte(o.Function) != fn || o.Length != l || !bytes.Equal(d.Bytes(), data) {
					c.Fail("% x decodes to %+v with % x left, %v", clip(std), o, clip(d.Bytes()), err)
				}
			}
		}
		for k := 0; k < 4; k++ {
			var o btypes.BVLC
			if err := encoding.NewDecoder([]byte{ty, fn, 0, 4}[:k:k]).BVLC(&o); err == nil {
				c.Fail("a link header of %d bytes decodes to %+v", k, o)
			}
		}
		c.Note("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P15", Name: "apdu", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		kinds := []btypes.PDUType{btypes.ConfirmedServiceRequest, btypes.UnconfirmedServiceRequest, btypes.ComplexAck, btypes.SimpleAck}
		k := kinds[c.Choose(len(kinds))]
		segs := []uint{2, 4, 8, 16, 32, 64, 65}
		apdus := []uint{50, 128, 206, 480, 1024, 1476}
		services := []uint8{0, 12, 14, 15, 16, 29, 255}
		id := uint8(c.Choose(256))
		for _, seg := range []bool{false, true} {
			for _, more := range []bool{false, true} {
				for _, sa := range []bool{false, true} {
					for si, ms := range segs {
						for ai, ma := range apdus {
							for _, sv := range services {
								if k != btypes.ConfirmedServiceRequest && (si > 0 || ai > 0) || (k == btypes.UnconfirmedServiceRequest || k == btypes.SimpleAck) && (seg || more || sa) || !seg && more {
									continue
								}
								if k == btypes.ComplexAck && sa {
									continue
								}
								seqs := []uint8{0}
								if seg {
									seqs = []uint8{0, 1, 255}
								}
								for _, sq := range seqs {
									c.Step()
									oneAPDU(c, k, id, sv, seg, more, sa, ms, ma, byte(si+1), byte(ai), sq)
								}
							}
						}
					}
				}
			}
		}
		c.Note("%d", k)
	}})
	xp.Add(&xp.Unit{Prop: "P15", Name: "error-answers", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		vals := []uint32{0, 1, 2, 31, 32, 42, 127, 128, 255, 256, 1000, 32768, 65535}
		class, code := vals[c.Choose(len(vals))], vals[c.Choose(len(vals))]
		brackets := c.Choose(3)
		for _, id := range []uint8{0, 1, 254, 255} {
			for _, sv := range []uint8{12, 14, 15, 16} {
				c.Step()
				b := ref.ErrorPDU(id, sv, class, code)
				if brackets > 0 {
					b = ref.ErrorPDU0(id, sv, class, code)
				}
				n := len(b)
				if brackets == 2 { // a failed multiple write names what failed
					b = ref.Cat(b, ref.Open(1), ref.Ctx(0, ref.ObjID(1, 2)), ref.Ctx(1, ref.Uint(85)), ref.Close(1))
				}
				var a btypes.APDU
				if err := encoding.NewDecoder(b).APDU(&a); err != nil || a.DataType != btypes.Error || a.InvokeId != id || uint8(a.Service) != sv || uint32(a.Error.Class) != class || uint32(a.Error.Code) != code {
					c.Fail("% x (class %d code %d) decodes to %+v, %v", b, class, code, a, err)
				}
				for k := 0; k < n; k++ {
					var a btypes.APDU
					if err := encoding.NewDecoder(b[:k:k]).APDU(&a); err == nil {
						c.Fail("% x cut to %d bytes decodes to %+v", b, k, a.Error)
					}
				}
			}
		}
		c.Note("brackets %d", brackets)
	}})
}

func setMT(n *btypes.NPDU, t uint8) {
	for i := 0; i < int(t); i++ {
		n.NetworkLayerMessageType++
	}
}

func oneAPDU(c *xp.C, k btypes.PDUType, id, sv uint8, seg, more, sa bool, ms, ma uint, msBits, maBits, sq byte) {
	a := btypes.APDU{DataType: k, SegmentedMessage: seg, MoreFollows: more, SegmentedResponseAccepted: sa}
	first := byte(k)
	if seg {
		first |= 8
		a.Sequence, a.WindowNumber = sq, 7
	}
	if more {
		first |= 4
	}
	if sa {
		first |= 2
	}
	std := []byte{first}
	switch k {
	case btypes.ConfirmedServiceRequest:
		a.MaxSegs, a.MaxApdu, a.InvokeId, a.Service = ms, ma, id, btypes.ServiceConfirmed(sv)
		std = append(std, msBits<<4|maBits, id)
		if seg {
			std = append(std, sq, 7)
		}
		std = append(std, sv)
	case btypes.UnconfirmedServiceRequest:
		a.UnconfirmedService = btypes.ServiceUnconfirmed(sv)
		std = append(std, sv)
	case btypes.ComplexAck:
		a.InvokeId, a.Service = id, btypes.ServiceConfirmed(sv)
		std = append(std, id)
		if seg {
			std = append(std, sq, 7)
		}
		std = append(std, sv)
	case btypes.SimpleAck:
		a.InvokeId, a.Service = id, btypes.ServiceConfirmed(sv)
		std = append(std, id, sv)
	}
	if k != btypes.SimpleAck { // the program does not answer requests
		e := encoding.NewEncoder()
		err := e.APDU(a)
		if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), std) {
			c.Fail("%+v is encoded as % x, %v instead of % x", a, e.Bytes(), err, std)
		}
	}
	body := []byte{0x0C, 1, 2, 3, 4}
	d := encoding.NewDecoder(append(append([]byte{}, std...), body...))
	var o btypes.APDU
	err := d.APDU(&o)
	rest := d.Bytes()
	if k == btypes.ConfirmedServiceRequest || k == btypes.UnconfirmedServiceRequest {
		rest = o.RawData
	}
	if err != nil || !bytes.Equal(rest, body) {
		c.Fail("% x decodes with % x left, %v", std, rest, err)
	}
	o.RawData = nil
	if fmt.Sprintf("%+v", o) != fmt.Sprintf("%+v", a) {
		c.Fail("% x decodes to %+v instead of %+v", std, o, a)
	}
	for n := 0; n < len(std); n++ {
		var o btypes.APDU
		if err := encoding.NewDecoder(std[:n:n]).APDU(&o); err == nil {
			c.Fail("% x cut to %d bytes decodes to %+v", std, n, o)
		}
	}
}
