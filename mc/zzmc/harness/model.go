package main

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
)

// ---------------------------------------------------------------- a device by the rules of the standard

type refusal struct {
	abort byte // an abort for this reason, if not 0
	class uint32
	code  uint32
}

// mobj is an object of a device.
type mobj struct {
	id    btypes.ObjectID
	props map[uint32]interface{} // *refusal: the device refuses it
}

// model is a device. It is not changed by requests.
type model struct {
	inst   uint32
	ip     ip4
	port   int
	net    uint16
	adr    []byte
	max    int // largest message it takes and sends
	seg    uint32
	vendor uint32
	objs   []mobj
	// elem, if set, may spoil the answer for an element of the object list
	elem func(i uint32) *refusal
	// listAll: the whole object list at once (nil: if it fits)
	listAll *refusal
	// write, if set, accepts writes
	write func(service []byte) *refusal
	// noMulti: the device knows no multiple reads
	noMulti bool
	// mute: it does not answer these properties of the device object
	mute    map[uint32]bool
	failing []uint32 // details it does not give
	// spoil may change the content of a positive answer
	spoil func(objs []ref.Obj) []ref.Obj
	// cut may shorten a positive answer
	cut func(apdu []byte) []byte
}

// mreq is a read request.
type mreq struct {
	obj   btypes.ObjectID
	prop  uint32
	index uint32
}

// tagAt reads a context tag (num) of at most 4 bytes content.
func tagAt(b []byte, num byte) (v uint32, rest []byte, ok bool) {
	if len(b) == 0 || b[0]>>4 != num || b[0]&8 == 0 {
		return 0, b, false
	}
	n := int(b[0] & 7)
	if n < 1 || n > 4 || len(b) < 1+n {
		return 0, b, false
	}
	for _, x := range b[1 : 1+n] {
		v = v<<8 | uint32(x)
	}
	return v, b[1+n:], true
}

func toID(v uint32) btypes.ObjectID {
	return btypes.ObjectID{Type: btypes.ObjectType(v >> 22), Instance: btypes.ObjectInstance(v & 0x3FFFFF)}
}

// readReq parses the content of a read or multiple read request.
func readReq(svc byte, b []byte) (out []mreq, ok bool) {
	v, p := uint32(0), uint32(0)
	if svc == 12 {
		r := mreq{index: ref.ArrayAll}
		if v, b, ok = tagAt(b, 0); !ok {
			return nil, false
		}
		r.obj = toID(v)
		if r.prop, b, ok = tagAt(b, 1); !ok {
			return nil, false
		}
		if len(b) > 0 {
			if r.index, b, ok = tagAt(b, 2); !ok || len(b) > 0 {
				return nil, false
			}
		}
		return []mreq{r}, true
	}
	for len(b) > 0 {
		if v, b, ok = tagAt(b, 0); !ok || len(b) == 0 || b[0] != 0x1E {
			return nil, false
		}
		id := toID(v)
		b = b[1:]
		for {
			if len(b) == 0 {
				return nil, false
			}
			if b[0] == 0x1F {
				b = b[1:]
				break
			}
			if p, b, ok = tagAt(b, 0); !ok {
				return nil, false
			}
			r := mreq{obj: id, prop: p, index: ref.ArrayAll}
			if i, rest, has := tagAt(b, 1); has {
				r.index, b = i, rest
			}
			out = append(out, r)
		}
	}
	return out, len(out) > 0
}

// value looks a property up.
func (d *model) value(r mreq) (interface{}, *refusal) {
	if r.obj.Type == 8 && uint32(r.obj.Instance) == 4194303 {
		r.obj.Instance = btypes.ObjectInstance(d.inst)
	}
	if r.obj.Type == 8 && uint32(r.obj.Instance) == d.inst && r.prop == 76 {
		return d.list(r.index)
	}
	for _, o := range d.objs {
		if o.id != r.obj {
			continue
		}
		v, ok := o.props[r.prop]
		if !ok {
			return nil, &refusal{class: 2, code: 32}
		}
		if f, bad := v.(*refusal); bad {
			return nil, f
		}
		if r.index != ref.ArrayAll {
			l, isList := v.([]interface{})
			switch {
			case !isList:
				return nil, &refusal{class: 2, code: 50}
			case r.index == 0:
				return uint32(len(l)), nil
			case int(r.index) > len(l):
				return nil, &refusal{class: 2, code: 42}
			}
			return l[r.index-1], nil
		}
		return v, nil
	}
	return nil, &refusal{class: 1, code: 31}
}

func (d *model) list(index uint32) (interface{}, *refusal) {
	switch {
	case index == ref.ArrayAll:
		if d.listAll != nil {
			return nil, d.listAll
		}
		l := []interface{}{}
		for _, o := range d.objs {
			l = append(l, o.id)
		}
		return l, nil
	case d.elem != nil && d.elem(index) != nil:
		return nil, d.elem(index)
	case index == 0:
		return uint32(len(d.objs)), nil
	case int(index) > len(d.objs):
		return nil, &refusal{class: 2, code: 42}
	}
	return d.objs[index-1].id, nil
}

// answer is the message with which the device answers the request; nil: none.
func (d *model) answer(id, svc byte, service []byte) []byte {
	if len(service)+4 > d.max {
		return []byte{0x60, id, 1} // too long for it
	}
	refuse := func(f *refusal) []byte {
		if f.abort != 0 {
			return []byte{0x71, id, f.abort}
		}
		return ref.ErrorPDU(id, svc, f.class, f.code)
	}
	if svc == 15 && d.write != nil {
		if f := d.write(service); f != nil {
			return refuse(f)
		}
		return []byte{0x20, id, svc}
	}
	if svc != 12 && (svc != 14 || d.noMulti) {
		return []byte{0x60, id, 9}
	}
	rs, ok := readReq(svc, service)
	if !ok {
		return []byte{0x60, id, 4}
	}
	if rs[0].obj.Type == 8 && d.mute[rs[0].prop] {
		return nil
	}
	var objs []ref.Obj
	for i, r := range rs {
		if i == 0 || rs[i-1].obj != r.obj {
			objs = append(objs, ref.Obj{ID: r.obj})
		}
		v, f := d.value(r)
		p := ref.Prop{Type: r.prop, Index: r.index, Value: v}
		if f != nil {
			if f.abort != 0 || svc == 12 {
				return refuse(f)
			}
			p.Err = &[2]uint32{f.class, f.code}
		}
		o := &objs[len(objs)-1]
		o.Props = append(o.Props, p)
	}
	if d.spoil != nil {
		objs = d.spoil(objs)
	}
	var out []byte
	if svc == 12 {
		p := objs[0].Props[0]
		if p.Err != nil {
			return refuse(&refusal{class: p.Err[0], code: p.Err[1]})
		}
		out = ref.Cat([]byte{0x30, id, svc}, ref.ReadPropertyAck(objs[0].ID, p))
	} else {
		out = ref.Cat([]byte{0x30, id, svc}, ref.ReadMultipleAck(objs))
	}
	if len(out) > d.max {
		return []byte{0x71, id, 4} // segmentation not supported
	}
	if d.cut != nil {
		out = d.cut(out)
	}
	return out
}

func (d *model) udp() int {
	if d.port == 0 {
		return bacPort
	}
	return d.port
}

// announce is its I-Am.
func (d *model) announce() []byte { return ref.IAm(d.inst, uint32(d.max), d.seg, d.vendor) }

// wrap puts an APDU into a datagram of the device.
func (d *model) wrap(apdu []byte) []byte {
	if d.net != 0 {
		return ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, &ref.Addr{Net: d.net, Adr: d.adr}, 0, false, false, 0), apdu))
	}
	return plain(apdu)
}

// addressed: the datagram is for this device.
func (d *model) addressed(m *wire) bool {
	if m.p.ToIP != d.ip || m.p.ToPort != d.udp() {
		return false
	}
	if d.net == 0 {
		return m.dst == nil
	}
	return m.dst != nil && m.dst.Net == d.net && string(m.dst.Adr) == string(d.adr)
}

// serve answers what the client sends to the devices: confirmed requests and searches. It keeps no state, so that it may
// be called from any thread.
func serve(sock *mcrt.UDPConn, devs ...*model) func(p mcrt.Packet) {
	return func(p mcrt.Packet) {
		m, s := parse(p)
		if s != "" {
			mcrt.Fail("%s", s)
			return
		}
		for _, d := range devs {
			if m.confirmed && d.addressed(m) {
				if a := d.answer(m.id, m.svc, m.service); a != nil {
					mcrt.Inject(sock, d.ip, d.udp(), d.wrap(a))
				}
			}
			if !m.network && len(m.body) >= 2 && m.body[0] == 0x10 && m.body[1] == 8 && d.inRange(m.body[2:]) {
				mcrt.Inject(sock, d.ip, d.udp(), d.wrap(d.announce()))
			}
		}
	}
}

func (d *model) inRange(b []byte) bool {
	if len(b) == 0 {
		return true
	}
	lo, b, ok := tagAt(b, 0)
	hi, b, ok2 := tagAt(b, 1)
	return ok && ok2 && len(b) == 0 && d.inst >= lo && d.inst <= hi
}

// device is how the application describes it.
func (d *model) device() btypes.Device {
	x := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(d.inst)}, DeviceID: int(d.inst), MaxApdu: uint32(d.max), Segmentation: btypes.Enumerated(d.seg),
		Addr: btypes.Address{Mac: station(d.ip, d.udp()), MacLen: 6, Net: d.net, Adr: append([]byte(nil), d.adr...), Len: uint8(len(d.adr))}}
	return x
}
