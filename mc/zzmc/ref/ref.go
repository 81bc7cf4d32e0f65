// Package ref is an independent encoder and decoder for the BACnet notation used by the properties, written from the
// standard (ASHRAE 135, clauses 6, 20 and 21, annex J). It shares no code with the program under test; only the types
// of values are those of btypes, so that they can be compared.
package ref

import (
	"fmt"
	"math"
	"unicode/utf16"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
)

// Values with a notation of their own.
type (
	Enum   uint32
	Octets []byte
	UCS2   string
	Bits   []bool
)

func be(n int, v uint32) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// Uint is the shortest big-endian form.
func Uint(v uint32) []byte {
	switch {
	case v < 1<<8:
		return be(1, v)
	case v < 1<<16:
		return be(2, v)
	case v < 1<<24:
		return be(3, v)
	}
	return be(4, v)
}

// Int is the shortest two's complement form.
func Int(v int32) []byte {
	switch {
	case v >= -1<<7 && v < 1<<7:
		return be(1, uint32(v))
	case v >= -1<<15 && v < 1<<15:
		return be(2, uint32(v))
	case v >= -1<<23 && v < 1<<23:
		return be(3, uint32(v))
	}
	return be(4, uint32(v))
}

// Tag is a tag with a length (or value for booleans).
func Tag(num uint8, ctx bool, n uint32) []byte {
	var first byte
	if ctx {
		first = 8
	}
	var ext []byte
	if num > 14 {
		first |= 0xF0
		ext = append(ext, num)
	} else {
		first |= num << 4
	}
	switch {
	case n < 5:
		first |= byte(n)
	case n < 254:
		first |= 5
		ext = append(ext, byte(n))
	case n < 65536:
		first |= 5
		ext = append(ext, 254)
		ext = append(ext, be(2, n)...)
	default:
		first |= 5
		ext = append(ext, 255)
		ext = append(ext, be(4, n)...)
	}
	return append([]byte{first}, ext...)
}

// Open and Close are opening and closing tags.
func Open(num uint8) []byte {
	if num > 14 {
		return []byte{0xFE, num}
	}
	return []byte{num<<4 | 0x0E}
}
func Close(num uint8) []byte {
	if num > 14 {
		return []byte{0xFF, num}
	}
	return []byte{num<<4 | 0x0F}
}

// Cat concatenates.
func Cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// Ctx is primitive context data.
func Ctx(num uint8, content []byte) []byte { return Cat(Tag(num, true, uint32(len(content))), content) }

// ObjID is the content of an object identifier.
func ObjID(t btypes.ObjectType, inst btypes.ObjectInstance) []byte {
	return be(4, uint32(t)<<22|uint32(inst))
}

// App encodes an application-tagged value.
func App(v interface{}) []byte {
	p := func(tag uint8, content []byte) []byte { return Cat(Tag(tag, false, uint32(len(content))), content) }
	switch x := v.(type) {
	case null.Null:
		return []byte{0}
	case bool:
		if x {
			return []byte{0x11}
		}
		return []byte{0x10}
	case uint32:
		return p(2, Uint(x))
	case int32:
		return p(3, Int(x))
	case float32:
		return p(4, be(4, math.Float32bits(x)))
	case float64:
		u := math.Float64bits(x)
		return p(5, Cat(be(4, uint32(u>>32)), be(4, uint32(u))))
	case Octets:
		return p(6, x)
	case string:
		return p(7, append([]byte{0}, x...))
	case UCS2:
		c := []byte{4}
		for _, u := range utf16.Encode([]rune(string(x))) {
			c = append(c, byte(u>>8), byte(u))
		}
		return p(7, c)
	case Bits:
		c := make([]byte, 1+(len(x)+7)/8)
		c[0] = byte((8 - len(x)%8) % 8)
		for i, b := range x {
			if b {
				c[1+i/8] |= 0x80 >> (i % 8)
			}
		}
		return p(8, c)
	case Enum:
		return p(9, Uint(uint32(x)))
	case btypes.Enumerated:
		return p(9, Uint(uint32(x)))
	case btypes.Date:
		y := byte(x.Year - 1900)
		if x.Year == btypes.UnspecifiedTime {
			y = 255
		}
		return p(10, []byte{y, byte(x.Month), byte(x.Day), byte(x.DayOfWeek)})
	case btypes.Time:
		return p(11, []byte{byte(x.Hour), byte(x.Minute), byte(x.Second), byte(x.Millisecond / 10)})
	case btypes.ObjectID:
		return p(12, ObjID(x.Type, x.Instance))
	}
	panic(fmt.Sprintf("ref.App: %T", v))
}

// Want is the value a decoder of the program has to return for App(v).
func Want(v interface{}) interface{} {
	switch x := v.(type) {
	case Enum:
		return uint32(x)
	case btypes.Enumerated:
		return uint32(x)
	case Octets:
		return []byte(x)
	case UCS2:
		return string(x)
	}
	return v
}

// Same compares a decoded value with the value that was encoded.
func Same(want, got interface{}) bool {
	switch w := want.(type) {
	case Bits:
		g, ok := got.(*btypes.BitString)
		if !ok || g == nil || int(g.BitUsed) != len(w) || int(g.GetBitUsed()) != len(w) {
			return false
		}
		v := g.GetValue()
		if len(v) != len(w) {
			return false
		}
		for i := range w {
			if v[i] != w[i] || g.Bit(uint8(i)) != w[i] {
				return false
			}
		}
		return true
	case Octets:
		g, ok := got.([]byte)
		return ok && string(g) == string(w)
	case float32:
		g, ok := got.(float32)
		return ok && math.Float32bits(g) == math.Float32bits(w)
	case float64:
		g, ok := got.(float64)
		return ok && math.Float64bits(g) == math.Float64bits(w)
	case btypes.Date:
		g, ok := got.(btypes.Date)
		return ok && g.Year == w.Year && g.Month == w.Month && g.Day == w.Day && g.DayOfWeek == w.DayOfWeek
	case DateTime:
		g, ok := got.(*btypes.DataTime)
		return ok && g != nil && Same(w.Date, g.Date) && Same(w.Time, g.Time)
	case Ctxd:
		return Same(w.Want, got)
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !Same(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	return Want(want) == got
}

// DateTime is a time stamp of the form "dateTime" (opening tag 2, date, time, closing tag 2).
type DateTime struct {
	Date btypes.Date
	Time btypes.Time
}

// Ctxd is a context-tagged primitive whose decoded form is Want.
type Ctxd struct {
	Tag     uint8
	Content []byte
	Want    interface{}
}

// Item encodes one element of a property value.
func Item(v interface{}) []byte {
	switch x := v.(type) {
	case DateTime:
		return Cat(Open(2), App(x.Date), App(x.Time), Close(2))
	case Ctxd:
		return Ctx(x.Tag, x.Content)
	}
	return App(v)
}

// Value encodes a property value: one element or a list of them.
func Value(v interface{}) []byte {
	if l, ok := v.([]interface{}); ok {
		var out []byte
		for _, e := range l {
			out = append(out, Item(e)...)
		}
		return out
	}
	return Item(v)
}

// WantValue: a list of one element is returned as the element.
func WantValue(v interface{}) interface{} {
	if l, ok := v.([]interface{}); ok && len(l) == 1 {
		return l[0]
	}
	return v
}

// Prop is a property reference with an optional value.
type Prop struct {
	Type  uint32
	Index uint32 // ArrayAll: none
	Value interface{}
	Prio  uint32 // 0: none
	Err   *[2]uint32
}

// Obj is an object with properties.
type Obj struct {
	ID    btypes.ObjectID
	Props []Prop
}

const ArrayAll = 0xFFFFFFFF

// ReadPropertyAck is the service part of a read acknowledgement.
func ReadPropertyAck(o btypes.ObjectID, p Prop) []byte {
	b := Cat(Ctx(0, ObjID(o.Type, o.Instance)), Ctx(1, Uint(p.Type)))
	if p.Index != ArrayAll {
		b = append(b, Ctx(2, Uint(p.Index))...)
	}
	return Cat(b, Open(3), Value(p.Value), Close(3))
}

// ReadMultipleAck is the service part of a multiple read acknowledgement.
func ReadMultipleAck(objs []Obj) []byte {
	var b []byte
	for _, o := range objs {
		b = append(b, Ctx(0, ObjID(o.ID.Type, o.ID.Instance))...)
		b = append(b, Open(1)...)
		for _, p := range o.Props {
			b = append(b, Ctx(2, Uint(p.Type))...)
			if p.Index != ArrayAll {
				b = append(b, Ctx(3, Uint(p.Index))...)
			}
			if p.Err != nil {
				b = append(b, Cat(Open(5), App(Enum(p.Err[0])), App(Enum(p.Err[1])), Close(5))...)
			} else {
				b = append(b, Cat(Open(4), Value(p.Value), Close(4))...)
			}
		}
		b = append(b, Close(1)...)
	}
	return b
}

// Confirmed is the header of a confirmed request without segmentation as the program sends it.
func Confirmed(id, service uint8) []byte { return []byte{0x00, 0x05, id, service} }

// ReadPropertyReq is the service part of a read request.
func ReadPropertyReq(o btypes.ObjectID, p Prop) []byte {
	b := Cat(Ctx(0, ObjID(o.Type, o.Instance)), Ctx(1, Uint(p.Type)))
	if p.Index != ArrayAll {
		b = append(b, Ctx(2, Uint(p.Index))...)
	}
	return b
}

// WritePropertyReq is the service part of a write request.
func WritePropertyReq(o btypes.ObjectID, p Prop) []byte {
	b := Cat(ReadPropertyReq(o, p), Open(3), Value(p.Value), Close(3))
	if p.Prio != 0 {
		b = append(b, Ctx(4, Uint(p.Prio))...)
	}
	return b
}

// ReadMultipleReq is the service part of a multiple read request.
func ReadMultipleReq(objs []Obj) []byte {
	var b []byte
	for _, o := range objs {
		b = append(b, Ctx(0, ObjID(o.ID.Type, o.ID.Instance))...)
		b = append(b, Open(1)...)
		for _, p := range o.Props {
			b = append(b, Ctx(0, Uint(p.Type))...)
			if p.Index != ArrayAll {
				b = append(b, Ctx(1, Uint(p.Index))...)
			}
		}
		b = append(b, Close(1)...)
	}
	return b
}

// WriteMultipleReq is the service part of a multiple write request.
func WriteMultipleReq(objs []Obj) []byte {
	var b []byte
	for _, o := range objs {
		b = append(b, Ctx(0, ObjID(o.ID.Type, o.ID.Instance))...)
		b = append(b, Open(1)...)
		for _, p := range o.Props {
			b = append(b, Ctx(0, Uint(p.Type))...)
			if p.Index != ArrayAll {
				b = append(b, Ctx(1, Uint(p.Index))...)
			}
			b = append(b, Cat(Open(2), Value(p.Value), Close(2))...)
			if p.Prio != 0 {
				b = append(b, Ctx(3, Uint(p.Prio))...)
			}
		}
		b = append(b, Close(1)...)
	}
	return b
}

// Error PDU.
func ErrorPDU(id, service uint8, class, code uint32) []byte {
	return Cat([]byte{0x50, id, service}, App(Enum(class)), App(Enum(code)))
}

// ErrorPDU0 is the error notation with brackets.
func ErrorPDU0(id, service uint8, class, code uint32) []byte {
	return Cat([]byte{0x50, id, service}, Open(0), App(Enum(class)), App(Enum(code)), Close(0))
}

// IAm is the I-Am message.
func IAm(dev uint32, maxApdu, seg, vendor uint32) []byte {
	return Cat([]byte{0x10, 0x00}, App(btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(dev)}), App(maxApdu), App(Enum(seg)), App(vendor))
}

// Addr is a network address in an NPDU; nil: none.
type Addr struct {
	Net uint16
	Adr []byte
}

// NPDU builds a network header. Network messages carry their type in content.
func NPDU(dst, src *Addr, hop uint8, reply, network bool, prio uint8) []byte {
	c := prio
	if network {
		c |= 0x80
	}
	if dst != nil {
		c |= 0x20
	}
	if src != nil {
		c |= 0x08
	}
	if reply {
		c |= 0x04
	}
	b := []byte{1, c}
	for _, a := range []*Addr{dst, src} {
		if a != nil {
			b = append(b, byte(a.Net>>8), byte(a.Net), byte(len(a.Adr)))
			b = append(b, a.Adr...)
		}
	}
	if dst != nil {
		b = append(b, hop)
	}
	return b
}

// BVLC wraps a network message.
func BVLC(fn byte, content []byte) []byte {
	n := len(content) + 4
	return append([]byte{0x81, fn, byte(n >> 8), byte(n)}, content...)
}

// Forwarded wraps a message received by broadcast from the given address.
func Forwarded(ip [4]byte, port uint16, content []byte) []byte {
	return BVLC(4, append([]byte{ip[0], ip[1], ip[2], ip[3], byte(port >> 8), byte(port)}, content...))
}
