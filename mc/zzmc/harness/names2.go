package main

import (
	"fmt"
	"sort"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P29: numbers and names of the standard

// enumeration is a set of numbers that have names.
type enumeration struct {
	name string
	std  map[uint32]string
	lib  map[string]uint32
	bits uint // numbers the type can hold
	// text is how the number is shown; the number as it was understood
	text func(n uint32) (string, uint32)
}

var enumerations = []enumeration{
	{"class", stdClasses, libClasses, 32, func(n uint32) (string, uint32) { x := bacerr.ErrorClass(n); return x.String(), uint32(x) }},
	{"code", stdCodes, libCodes, 32, func(n uint32) (string, uint32) { x := bacerr.ErrorCode(n); return x.String(), uint32(x) }},
	{"unit", stdUnits, libUnits, 32, func(n uint32) (string, uint32) { x := units.Unit(n); return x.String(), uint32(x) }},
	{"segmentation", stdSegmentation, libSegmentation, 8, func(n uint32) (string, uint32) { x := segmentation.SegmentedType(n); return x.String(), uint32(x) }},
	{"network message", stdNetworkMessages, libNetworkMessages, 8, func(n uint32) (string, uint32) { x := ndpu.NetworkMessageType(n); return x.String(), uint32(x) }},
}

// wellNamed: the text is that of the number and of no other.
func wellNamed(std map[uint32]string, n uint32, s string) bool {
	if want, ok := std[n]; ok {
		return s == want
	}
	for _, known := range std {
		if s == known {
			return false
		}
	}
	return hasNumber(s, n)
}

func init() {
	xp.Add(&xp.Unit{Prop: "P29", Name: "names", NoReset: true, Weight: 2, Seq: func(c *xp.C) {
		e := enumerations[c.Choose(len(enumerations))]
		hi := uint32(0)
		if e.bits == 32 {
			// everything up to 65535, and the same last bits behind larger numbers
			hi = uint32(c.Choose(256 + 8))
			if hi >= 256 {
				hi = []uint32{1 << 8, 1<<8 + 1, 1 << 9, 1 << 15, 1 << 16, 1 << 17, 1 << 23, 1<<24 - 1}[hi-256]
			}
		}
		seen := map[string]uint32{}
		for lo := uint32(0); lo < 256; lo++ {
			n := hi<<8 | lo
			c.Step()
			s, got := e.text(n)
			if got != n {
				c.Fail("the %s %d becomes %d", e.name, n, got)
			}
			if !wellNamed(e.std, n, s) {
				c.Fail("the %s %d is shown as %q, its name is %q", e.name, n, s, e.std[n])
			}
			if m, ok := seen[s]; ok {
				c.Fail("the %ss %d and %d are both shown as %q", e.name, m, n, s)
			}
			seen[s] = n
			if again, _ := e.text(n); again != s {
				c.Fail("the %s %d is shown as %q and then as %q", e.name, n, s, again)
			}
		}
		c.Note("%s %v", e.name, hi == 0)
	}})
	xp.Add(&xp.Unit{Prop: "P29", Name: "numbers", NoReset: true, Seq: func(c *xp.C) {
		e := enumerations[c.Choose(len(enumerations))]
		if len(e.lib) != len(e.std) {
			c.Fail("there are %d of %d names of a %s", len(e.lib), len(e.std), e.name)
		}
		for n, name := range e.std {
			c.Step()
			if got := e.lib[name]; got != n {
				c.Fail("the %s %s has the number %d instead of %d", e.name, name, got, n)
			}
		}
		c.Note("%s", e.name)
	}})
	xp.Add(&xp.Unit{Prop: "P29", Name: "constants", NoReset: true, Seq: func(c *xp.C) {
		var kinds []string
		for k := range constants {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		kind := kinds[c.Choose(len(kinds))]
		list := constants[kind]
		x := list[c.Choose(len(list))]
		c.Step()
		if x.lib != x.std {
			c.Fail("the %s %s has the number %d instead of %d", kind, x.name, x.lib, x.std)
		}
		c.Note("%s", kind)
	}})
	more := []uint32{137, 200, 223, 237, 255, 256, 257, 300, 0x1FF, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10002, 0x1001F, 0x20005, 0xFFFFFF, 0x1000000, 0x80000000, 0xFFFFFFFF}
	// what a device tells is shown under the name
	xp.Add(&xp.Unit{Prop: "P29", Name: "told-units", Weight: 2, Cfg: plainCfg, Body: func() {
		j := mcrt.Choose(237+len(more), "unit")
		n := uint32(j)
		if j >= 237 {
			n = more[j-237]
		}
		d := placed(0)
		t := btypes.ObjectType(mcrt.Choose(3, "type"))
		d.objs = []mobj{{btypes.ObjectID{Type: t, Instance: 4}, map[uint32]interface{}{77: "name", 117: ref.Enum(n)}}}
		w := newNW(d)
		r, err := w.device(d).PointDetails(&network.Point{ObjectID: 4, ObjectType: t})
		if err != nil {
			mcrt.Fail("the details of a point of unit %d: %v", n, err)
		}
		if r.Unit != n || !wellNamed(stdUnits, n, r.UnitString) {
			mcrt.Fail("a point of unit %d (%s) has the unit %d, shown as %q", n, stdUnits[n], r.Unit, r.UnitString)
		}
		mcrt.Log(r.UnitString)
	}})
	xp.Add(&xp.Unit{Prop: "P29", Name: "told-errors", Weight: 2, Cfg: plainCfg, Body: func() {
		j := mcrt.Choose(140+len(more), "code")
		code := uint32(j)
		if j >= 140 {
			code = more[j-140]
		}
		k := mcrt.Choose(9+len(more), "class")
		class := uint32(k)
		if k >= 9 {
			class = more[k-9]
		}
		if k >= 9 && j > 10 && j < 140 && !xp.Deep {
			return
		}
		d := placed(0)
		d.objs = []mobj{{btypes.ObjectID{Type: 2, Instance: 4}, map[uint32]interface{}{77: &refusal{class: class, code: code}}}}
		w := newNW(d)
		_, err := w.device(d).Read(&network.Object{ObjectID: 4, ObjectType: 2, Prop: 77, ArrayIndex: 0xFFFFFFFF})
		if !names(err, class, code) {
			mcrt.Fail("the device refuses with class %d (%s) and code %d (%s), the error is %v", class, stdClasses[class], code, stdCodes[code], err)
		}
		// and no other class or code
		for n, s := range stdClasses {
			if n != class && hasWord(err.Error(), s) {
				mcrt.Fail("the device refuses with class %d (%s) and code %d (%s), the error is %v", class, stdClasses[class], code, stdCodes[code], err)
			}
		}
		for n, s := range stdCodes {
			if n != code && n != 0 && hasWord(err.Error(), s) {
				mcrt.Fail("the device refuses with class %d (%s) and code %d (%s), the error is %v", class, stdClasses[class], code, stdCodes[code], err)
			}
		}
		mcrt.Log(fmt.Sprint(class < 8, code < 137))
	}})
}
