package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/helpers/data"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P24: bit strings

// bitList is what a bit string has to be: bits and how many of them are used.
type bitList struct {
	bits []bool
	used int
}

func (m *bitList) bit(i int) bool { return i < len(m.bits) && m.bits[i] }

func (m *bitList) byteAt(i int) byte {
	var b byte
	for k := 0; k < 8; k++ {
		if m.bit(8*i + k) {
			b |= 1 << uint(k)
		}
	}
	return b
}

// same compares everything that can be seen of a bit string.
func (m *bitList) same(c *xp.C, what string, bs *btypes.BitString, size int) {
	c.Step()
	if n := int(bs.GetBitUsed()); n != m.used || int(bs.BitUsed) != n {
		c.Fail("%s: %d bits are used instead of %d", what, n, m.used)
	}
	if n := int(bs.BytesUsed()); n != (m.used+7)/8 {
		c.Fail("%s: %d bytes are used instead of %d", what, n, (m.used+7)/8)
	}
	if n := int(bs.BitsCapacity()); n != len(m.bits) {
		c.Fail("%s: the capacity is %d instead of %d", what, n, len(m.bits))
	}
	if len(bs.Value) != size {
		c.Fail("%s: there are %d bytes instead of %d", what, len(bs.Value), size)
	}
	v := bs.GetValue()
	if len(v) != m.used {
		c.Fail("%s: there are %d bits instead of %d", what, len(v), m.used)
	}
	for i, b := range v {
		if b != m.bit(i) {
			c.Fail("%s: bit %d of %v is wrong", what, i, v)
		}
	}
	for i := 0; i < 256; i++ {
		if b := bs.Bit(uint8(i)); b != m.bit(i) {
			c.Fail("%s: bit %d is %v", what, i, b)
		}
		if b := bs.Byte(uint8(i)); b != m.byteAt(i) {
			c.Fail("%s: byte %d is %#x instead of %#x", what, i, b, m.byteAt(i))
		}
	}
}

func (m *bitList) text(c *xp.C, what string, bs *btypes.BitString) {
	want := "["
	for i := 0; i < m.used; i++ {
		if i > 0 {
			want += ","
		}
		want += fmt.Sprint(m.bit(i))
	}
	if s := bs.String(); s != want+"]" {
		c.Fail("%s: the text is %s instead of %s]", what, s, want)
	}
}

type bitOp struct {
	name string
	do   func(c *xp.C, bs *btypes.BitString, m *bitList)
}

func bitOps(pos, bytes, vals, sizes, unused []int) []bitOp {
	var ops []bitOp
	for _, n := range pos {
		for _, v := range []bool{false, true} {
			n, v := n, v
			ops = append(ops, bitOp{fmt.Sprintf("SetBit(%d,%v)", n, v), func(c *xp.C, bs *btypes.BitString, m *bitList) {
				bs.SetBit(uint8(n), v)
				if n < len(m.bits) {
					m.bits[n] = v
					if m.used <= n {
						m.used = n + 1
					}
				}
			}})
		}
	}
	for _, i := range bytes {
		for _, v := range vals {
			i, v := i, v
			ops = append(ops, bitOp{fmt.Sprintf("SetByte(%d,%#x)", i, v), func(c *xp.C, bs *btypes.BitString, m *bitList) {
				ok := bs.SetByte(uint8(i), byte(v))
				if ok != (8*i < len(m.bits)) {
					c.Fail("SetByte(%d) of %d bits says %v", i, len(m.bits), ok)
				}
				for k := 0; ok && k < 8; k++ {
					m.bits[8*i+k] = v>>uint(k)&1 == 1
				}
			}})
		}
	}
	for _, n := range sizes {
		for _, u := range unused {
			n, u := n, u
			ops = append(ops, bitOp{fmt.Sprintf("SetBitsUsed(%d,%d)", n, u), func(c *xp.C, bs *btypes.BitString, m *bitList) {
				ok := bs.SetBitsUsed(uint8(n), uint8(u))
				can := 8*n <= len(m.bits) && u <= 8*n
				if ok && !can || !ok && can && u < 8 {
					c.Fail("SetBitsUsed(%d,%d) of %d bits says %v", n, u, len(m.bits), ok)
				}
				if ok {
					m.used = 8*n - u
				}
			}})
		}
	}
	return ops
}

type bitStart struct {
	name string
	make func() (*btypes.BitString, *bitList)
}

func bitStarts() []bitStart {
	var out []bitStart
	for _, n := range []int{15, 2, 1, 0, 14, 16, 255, -1, -1 << 31} {
		n := n
		size := n
		if size < 0 {
			size = 0
		}
		if size > 15 {
			size = 15
		}
		out = append(out, bitStart{fmt.Sprintf("NewBitString(%d)", n), func() (*btypes.BitString, *bitList) {
			return btypes.NewBitString(n), &bitList{bits: make([]bool, 8*size)}
		}})
	}
	// built by hand or from JSON
	out = append(out,
		bitStart{"no bytes", func() (*btypes.BitString, *bitList) { return &btypes.BitString{}, &bitList{} }},
		bitStart{"more used than there are", func() (*btypes.BitString, *bitList) {
			return &btypes.BitString{BitUsed: 200, Value: make([]byte, 3)}, &bitList{bits: make([]bool, 24), used: 200}
		}},
		bitStart{"more bytes than can be used", func() (*btypes.BitString, *bitList) {
			return &btypes.BitString{BitUsed: 255, Value: make([]byte, 40)}, &bitList{bits: make([]bool, 120), used: 255}
		}},
		bitStart{"from JSON", func() (*btypes.BitString, *bitList) {
			bs := &btypes.BitString{}
			if err := json.Unmarshal([]byte(`{"bit_used":10,"value":"A4A="}`), bs); err != nil {
				panic(err)
			}
			return bs, &bitList{bits: []bool{true, true, false, false, false, false, false, false, false, false, false, false, false, false, false, true}, used: 10}
		}})
	return out
}

func init() {
	starts := bitStarts()
	run := func(ops []bitOp, depth int) func(c *xp.C) {
		return func(c *xp.C) {
			s := starts[c.Choose(len(starts))]
			d := depth
			if xp.Deep {
				d++
			}
			bs, m := s.make()
			size := len(bs.Value)
			what := s.name
			for i := 0; i < d; i++ {
				k := c.Choose(len(ops) + 1)
				if k == 0 {
					break
				}
				what += " " + ops[k-1].name
				ops[k-1].do(c, bs, m)
			}
			m.same(c, what, bs, size)
			m.text(c, what, bs)
			c.Note("%d used", m.used)
		}
	}
	xp.Add(&xp.Unit{Prop: "P24", Name: "histories", NoReset: true, Shard: 2, Weight: 2, Seq: run(bitOps(
		[]int{0, 1, 7, 8, 9, 15, 16, 112, 119, 120, 255}, []int{0, 1, 14, 15, 255}, []int{0, 0xFF, 0x81, 0x16}, []int{0, 1, 2, 15, 16, 31, 32, 255}, []int{0, 1, 7, 8, 255}), 2)})
	xp.Add(&xp.Unit{Prop: "P24", Name: "long-histories", NoReset: true, Shard: 2, Weight: 2, Seq: run(bitOps(
		[]int{0, 3, 7, 8, 119}, []int{0, 1}, []int{0, 0x92}, []int{0, 1, 2}, []int{0, 3}), 4)})
	var singles [][]bitOp
	single := func() [][]bitOp {
		if singles == nil {
			all := make([]int, 256)
			for i := range all {
				all[i] = i
			}
			singles = [][]bitOp{bitOps(all, nil, nil, nil, nil), bitOps(nil, all, []int{0xFF, 0x16}, nil, nil), bitOps(nil, []int{0, 14}, all, nil, nil),
				bitOps(nil, nil, nil, all, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 120, 255})}
		}
		return singles
	}
	// every single position and value
	xp.Add(&xp.Unit{Prop: "P24", Name: "positions", NoReset: true, Shard: 3, Seq: func(c *xp.C) {
		s := starts[c.Choose(len(starts))]
		ops := single()[c.Choose(4)]
		op := ops[c.Choose(len(ops))]
		bs, m := s.make()
		size := len(bs.Value)
		if c.Bool() && len(m.bits) > 0 {
			// over bits that are all set
			for i := range m.bits {
				bs.SetBit(uint8(i), true)
				m.bits[i] = true
			}
			if m.used < len(m.bits) {
				m.used = len(m.bits)
			}
		}
		op.do(c, bs, m)
		m.same(c, s.name+" "+op.name, bs, size)
		c.Note("ok")
	}})
	// setting bits one after the other gives exactly the list
	xp.Add(&xp.Unit{Prop: "P24", Name: "contents", NoReset: true, Seq: func(c *xp.C) {
		n := c.Choose(121)
		pat := c.Choose(6)
		order := c.Choose(3)
		m := &bitList{bits: make([]bool, 120), used: n}
		for i := 0; i < n; i++ {
			m.bits[i] = [...]bool{false, true, i%2 == 0, i%3 == 0, i*i%7 < 3, i == n-1}[pat]
		}
		bs := btypes.NewBitString(15)
		for k := 0; k < n; k++ {
			i := [...]int{k, n - 1 - k, 2 * k}[order]
			if i >= n {
				i = 2*(k-(n+1)/2) + 1 // the odd ones after the even ones
			}
			bs.SetBit(uint8(i), m.bits[i])
		}
		m.same(c, fmt.Sprintf("%d bits of pattern %d in order %d", n, pat, order), bs, 15)
		m.text(c, "contents", bs)
		c.Note("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P24", Name: "missing", NoReset: true, Seq: func(c *xp.C) {
		var bs *btypes.BitString
		k := c.Choose(10)
		i := uint8(c.Choose(256))
		c.Step()
		switch k {
		case 0:
			bs.SetBit(i, true)
		case 1:
			if bs.Bit(i) {
				c.Fail("bit %d of nothing is set", i)
			}
		case 2:
			if bs.Byte(i) != 0 {
				c.Fail("byte %d of nothing is not 0", i)
			}
		case 3:
			if bs.SetByte(i, i) {
				c.Fail("byte %d of nothing was set", i)
			}
		case 4:
			if bs.SetBitsUsed(i, 0) {
				c.Fail("%d bytes of nothing are used", i)
			}
		case 5:
			if bs.GetBitUsed() != 0 || bs.BytesUsed() != 0 {
				c.Fail("nothing has used bits")
			}
		case 6:
			if len(bs.GetValue()) != 0 {
				c.Fail("nothing has bits")
			}
		case 7:
			if bs.BitsCapacity() != 0 {
				c.Fail("nothing has a capacity")
			}
		case 8:
			_ = bs.String()
		case 9:
			// what a failed read gives
			_, bs = data.ToBitString(btypes.PropertyData{})
			if bs.Bit(i) || len(bs.GetValue()) != 0 {
				c.Fail("an answer without a value has bits")
			}
		}
		c.Note("%d", k)
	}})
	// received bit strings: order and length
	xp.Add(&xp.Unit{Prop: "P24", Name: "received", NoReset: true, Shard: 2, Seq: func(c *xp.C) {
		n := c.Choose(121)
		m := &bitList{used: n, bits: make([]bool, (n+7)/8*8)}
		src := make(ref.Bits, n)
		switch c.Choose(4) {
		case 0:
			for i := range src {
				src[i] = i*i%7 < 3
			}
		case 1:
			for i := range src {
				src[i] = true
			}
		case 2:
			if n > 0 {
				src[c.Choose(n)] = true
			}
		case 3:
			if n > 16 {
				return
			}
			v := c.Choose(1 << uint(n))
			for i := range src {
				src[i] = v>>uint(i)&1 == 1
			}
		}
		copy(m.bits, src)
		b := ref.App(src)
		decodes(c, b, src)
		got, err := encoding.NewDecoder(b).AppData()
		bs, ok := got.(*btypes.BitString)
		if !ok {
			c.Fail("% x decodes to %T, %v", b, got, err)
		}
		m.same(c, fmt.Sprintf("received % x", b), bs, len(m.bits)/8)
		// it can be changed like any other
		if n > 0 {
			bs.SetBit(uint8(n-1), !m.bits[n-1])
			m.bits[n-1] = !m.bits[n-1]
			m.same(c, fmt.Sprintf("received % x and changed", b), bs, len(m.bits)/8)
		}
		c.Note("%d bits", n)
	}})
	// through a read of the network package
	xp.Add(&xp.Unit{Prop: "P24", Name: "read", Cfg: plainCfg, Body: func() {
		n := mcrt.Choose(50, "bits")
		set := mcrt.Choose(n+1, "set")
		src := make(ref.Bits, n)
		for i := range src {
			src[i] = i == set
		}
		d := placed(mcrt.Choose(len(places), "place"))
		d.objs = []mobj{{btypes.ObjectID{Type: 3, Instance: 1}, map[uint32]interface{}{111: src}}}
		w := newNW(d)
		x := w.device(d)
		pd, err := x.Read(&network.Object{ObjectID: 1, ObjectType: 3, Prop: 111, ArrayIndex: btypes.ArrayAll})
		if err != nil {
			mcrt.Fail("reading flags: %v", err)
		}
		bs := x.ToBitString(pd)
		if bs == nil || !reflect.DeepEqual(bs.GetValue(), []bool(src)) {
			mcrt.Fail("the bits %v are read as %v", src, bs)
		}
		mcrt.Log("ok")
	}})
}
