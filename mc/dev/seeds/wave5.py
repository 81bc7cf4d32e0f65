import sys, re; sys.path.insert(0, '/verif/mc/dev')
from mkseed import seed
src = open('/verif/mc/dev/seeds/wave2.py').read()
LINK = re.search(r"\nLINK = '''(.*?)'''", src, re.S).group(1)
NET = re.search(r"\nNET = '''(.*?)'''", src, re.S).group(1)
four = open('/verif/mc/dev/seeds/wave4.py').read()
# the demonstration of a device with a long object list
LIST = re.search(r"'', LINK \+ '''\n(func TestZZDemo\(t \*testing.T\) \{\n\tconst n = 1400.*?)'''", four, re.S).group(1)

seed('p18-lower-limit-of-16-bits', 'P18', 'a Who-Is whose lower limit is beyond 65535',
 'the lower limit of a received Who-Is is cut to 16 bits',
 [('encoding/whois.go', '	*low = int32(l)\n', '	*low = int32(uint16(l))\n')], 'encoding', '''
package encoding

import "testing"

func TestZZDemo(t *testing.T) {
	for _, n := range []int32{0, 255, 65535, 65536, 100000, 4194303} {
		e := NewEncoder()
		if err := e.WhoIs(n, 4194303); err != nil {
			t.Fatal(err)
		}
		var low, high int32
		if err := NewDecoder(e.Bytes()[2:]).WhoIs(&low, &high); err != nil || low != n || high != 4194303 {
			t.Fatal(n, low, high, err)
		}
	}
}
''')

seed('p01-id-of-the-state', 'P01', 'more than one transaction at a time, one of which takes the state of an ended one',
 'an ended transaction gives back the identifier that its state had first, not the one it has now',
 [('tsm/transactions.go', '	s.state = idle\n', '	s.state = idle\n	if s.id == invalidID {\n		s.id = id\n	}\n'),
  ('tsm/transactions.go', '	t.free.id <- id\n	t.free.space <- struct{}{}\n	delete', '	t.free.id <- s.id\n	t.free.space <- struct{}{}\n	delete')], 'tsm', '''
package tsm

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := New(20)
	held := map[int]bool{}
	var order []int
	for i := 0; i < 3000; i++ {
		id, err := m.ID(context.Background())
		if err != nil {
			t.Fatal(err)
		}
		if held[id] {
			t.Fatal("identifier ", id, " twice at a time")
		}
		held[id] = true
		if order = append(order, id); len(order) > 15 {
			k := i * 7 % len(order) // some stay long, some end at once
			old := order[k]
			order = append(order[:k], order[k+1:]...)
			delete(held, old)
			if err := m.Put(old); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''')

seed('p10-forgets-after-256', 'P10', 'a search that more than 256 devices answer, some of them again after that',
 'after 256 devices a search forgets which it has seen, and lists those that answer again a second time',
 [('whois.go', '''			uniqueList = append(uniqueList, dev)
''', '''			uniqueList = append(uniqueList, dev)
			if len(uniqueMap) > 255 {
				uniqueMap = make(map[btypes.ObjectInstance]btypes.Device)
			}
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	const n = 300
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		for k := 0; k < 2; k++ {
			for i := 0; i < n; i++ {
				l.push(0x10, 0, 0xC4, 2, 0, byte(i>>8), byte(i), 0x22, 1, 0xE0, 0x91, 3, 0x21, 5)
			}
		}
	})
	c := newDemo(t, l)
	defer c.Close()
	ds, err := c.WhoIs(&WhoIsOpts{Low: 0, High: 1000})
	if err != nil || len(ds) != n {
		t.Fatal(len(ds), err)
	}
}
''')

seed('p19-highest-instance', 'P19', 'a device with an object of the highest instance among others',
 'the name of an object of the instance 4194303 is not asked for',
 [('objectlist.go', '''		if o.ID.Type > maxStandardBacnetType {
''', '''		if o.ID.Type > maxStandardBacnetType || o.ID.Instance >= btypes.MaxInstance {
''')], '', LINK + LIST.replace('0, 0x80, byte(idx>>8), byte(idx)', '0, 0xBF, 0xFF, byte(256-idx)').replace('1400', '3').replace('n>>8, n&255', '0, n').replace('''		t.Fatal(got.Objects.Len(), err)
	}
''', '''		t.Fatal(got.Objects.Len(), err)
	}
	for _, o := range got.Objects[2] {
		if o.Name != "x" {
			t.Fatal(o)
		}
	}
'''))

seed('p19-length-of-16-bits', 'P19', 'a device with more than 32767 objects',
 'the length of an object list is cut to 16 bits and is negative beyond 32767: such a device has no objects',
 [('objectlist.go', '	return int(data), nil\n', '	return int(int16(data)), nil\n')], '',
 LINK + LIST.replace('1400', '33000').replace('0, 0x80, byte(idx>>8)', '0x20, 0, byte(idx>>8)').replace('d.MaxApdu = 100', 'd.MaxApdu = 1476'))

seed('p21-name-with-priority', 'P21', 'the name of a point that has a priority is written',
 'the name of a point is written with the priority of the point, though names have none',
 [('network/strings.go', '''		ObjectID:   pnt.ObjectID,
		ObjectType: pnt.ObjectType,
		Prop:       btypes.PropObjectName,
		WriteValue: value,
''', '''		ObjectID:   pnt.ObjectID,
		ObjectType: pnt.ObjectType,
		Prop:       btypes.PropObjectName,
		WriteValue: value,

		WritePriority: pnt.WritePriority,
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	var got []btypes.NPDUPriority
	f := &fake{write: func(rp btypes.PropertyData) { got = append(got, rp.Object.Properties[0].Priority) }}
	d := &Device{network: f}
	if err := d.WritePointName(&Point{ObjectID: 1, ObjectType: 2, WritePriority: 8}, "x"); err != nil || len(got) != 1 || got[0] != 0 {
		t.Fatal(got, err)
	}
}
''')

seed('p07-cut-list', 'P07', 'an acknowledgement of several objects that is damaged after the first of them',
 'an acknowledgement of several objects that cannot be read to its end counts as one of the objects before the damage',
 [('readmulti.go', '''	err = dec.ReadMultiplePropertyAck(&out)
	if err != nil {
''', '''	err = dec.ReadMultiplePropertyAck(&out)
	if n := len(out.Objects); n > 0 && len(out.Objects[n-1].Properties) > 0 {
		return out, nil
	}
	if err != nil {
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	full := []byte{0x0C, 0, 0x80, 0, 1, 0x1E, 0x29, 85, 0x4E, 0x21, 7, 0x4F, 0x1F, 0x0C, 0, 0x80, 0, 2, 0x1E, 0x29, 85, 0x4E, 0x21, 8, 0x4F, 0x1F}
	for _, cut := range []int{0, 1, 2, 3, 5, 7} {
		var l *memLink
		l = newMem(func(b []byte, _ btypes.Address) {
			l.push(append([]byte{0x30, b[8], 14}, full[:len(full)-cut]...)...)
		})
		c := newDemo(t, l)
		var q btypes.MultiplePropertyData
		for i := 1; i < 3; i++ {
			q.Objects = append(q.Objects, question(btypes.ObjectInstance(i), 85).Object)
		}
		out, err := c.ReadMultiProperty(dev(), q)
		if cut == 0 && (err != nil || len(out.Objects) != 2) || cut > 0 && err == nil {
			t.Fatal(cut, out, err)
		}
		c.Close()
	}
}
''')

seed('p11-ascending-routers', 'P11', 'a router that announces a network with a lower number than the first in its list',
 'of the networks a router announces, those below the first of them are left out',
 [('whoisrouter.go', '''		for _, addr := range r {
''', '''		for i, addr := range r {
			if i > 0 && addr.Net < r[0].Net {
				continue
			}
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) { l.pushNPDU([]byte{1, 0x80, 1, 0, 9, 0, 5, 0, 12}) })
	c := newDemo(t, l)
	defer c.Close()
	if got := c.WhoIsRouterToNetwork(); got == nil || len(*got) != 3 {
		t.Fatal(got)
	}
}
''')
