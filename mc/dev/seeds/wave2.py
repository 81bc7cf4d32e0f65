import sys; sys.path.insert(0, '/verif/mc/dev')
from mkseed import seed

# a data link in memory, for demos in the root package
LINK = '''
package bacnet

import (
	"errors"
	"sync"
	"testing"
	"time"
	"fmt"
	"runtime"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

var _ = time.Now
var _ = fmt.Sprint
var _ = runtime.Gosched
var _ = encoding.NewEncoder
var _ = errors.New

type in struct {
	b    []byte
	from btypes.Address
}

// memLink is a data link in memory: onSend gets what is sent, push delivers.
type memLink struct {
	mu     sync.Mutex
	in     chan in
	closed chan struct{}
	once   sync.Once
	onSend func(b []byte, dest btypes.Address)
}

func newMem(onSend func(b []byte, dest btypes.Address)) *memLink {
	return &memLink{in: make(chan in, 1000), closed: make(chan struct{}), onSend: onSend}
}
func (l *memLink) Close() error { l.once.Do(func() { close(l.closed) }); return nil }
func (l *memLink) Receive(data []byte) (*btypes.Address, int, error) {
	select {
	case m := <-l.in:
		a := m.from
		return &a, copy(data, m.b), nil
	case <-l.closed:
		return nil, 0, errors.New("closed")
	}
}
func (l *memLink) GetMyAddress() *btypes.Address {
	return &btypes.Address{Mac: []uint8{10, 0, 0, 5, 0xBA, 0xC0}, MacLen: 6}
}
func (l *memLink) GetBroadcastAddress() *btypes.Address {
	return &btypes.Address{Mac: []uint8{10, 0, 0, 255, 0xBA, 0xC0}, MacLen: 6}
}
func (l *memLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	if l.onSend != nil {
		l.onSend(append([]byte{}, data...), *dest)
	}
	return len(data), nil
}

var station = btypes.Address{Mac: []uint8{10, 0, 0, 20, 0xBA, 0xC0}, MacLen: 6}

func (l *memLink) push(apdu ...byte) { l.pushNPDU(append([]byte{1, 0}, apdu...)) }
func (l *memLink) pushNPDU(npdu []byte) {
	n := len(npdu) + 4
	l.in <- in{append([]byte{0x81, 0x0A, byte(n >> 8), byte(n)}, npdu...), station}
}

func newDemo(t *testing.T, l *memLink) Client {
	c, err := NewClient(&ClientBuilder{DataLink: l})
	if err != nil {
		t.Fatal(err)
	}
	go c.ClientRun()
	return c
}

func dev() btypes.Device { return btypes.Device{Addr: station, MaxApdu: 1476, ID: btypes.ObjectID{Type: 8, Instance: 20}} }
func question(inst btypes.ObjectInstance, prop btypes.PropertyType) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: inst}, Properties: []btypes.Property{{Type: prop, ArrayIndex: btypes.ArrayAll}}}}
}
'''

seed('p06-recycled-buffer', 'P06', 'a second datagram arrives between the delivery of an answer to its transaction and the decoding of it by the caller',
 'the receive buffer is given back to the pool when the message was handled, but the answer that was handed to the waiting call still points into it: the next datagram overwrites it, so the call returns another answer',
 [('device.go', '''	dec := encoding.NewDecoder(b)
	err := dec.BVLC(&header)
	if err != nil {
		c.log.Error(err)
''', '''	defer c.readBufferPool.Put(b[:cap(b)])
	dec := encoding.NewDecoder(b)
	err := dec.BVLC(&header)
	if err != nil {
		c.log.Error(err)
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		// invoke id and instance are in the request
		id := b[8]
		inst := b[14]
		l.push(0x30, id, 12, 0x0C, 0, 0x80, 0, inst, 0x19, 85, 0x3E, 0x21, inst, 0x3F)
	})
	c := newDemo(t, l)
	defer c.Close()
	var wg sync.WaitGroup
	for k := 1; k <= 16; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 400; n++ {
				r, err := c.ReadProperty(dev(), question(btypes.ObjectInstance(k), 85))
				if err != nil {
					t.Errorf("%d: %v", k, err)
					return
				}
				if r.Object.Properties[0].Data != uint32(k) {
					t.Errorf("%d got %v", k, r.Object.Properties[0].Data)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed('p08-slot-leak-on-refused-request', 'P08', 'twenty requests that cannot be encoded, and then one that can',
 'the transaction of a read that is refused because it cannot be expressed is not released, so that after twenty of them no request is possible',
 [('readprop.go', '''	defer c.tsm.Put(id)
	enc := encoding.NewEncoder()
''', '''	enc := encoding.NewEncoder()
'''), ('readprop.go', '''	// the value filled doesn't matter. it just needs to be non nil
''', '''	defer c.tsm.Put(id)
	// the value filled doesn't matter. it just needs to be non nil
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) { l.push(0x30, b[8], 12, 0x0C, 0, 0x80, 0, 1, 0x19, 85, 0x3E, 0x21, 7, 0x3F) })
	c := newDemo(t, l)
	defer c.Close()
	for i := 0; i < 25; i++ {
		if _, err := c.ReadProperty(dev(), question(1<<22, 85)); err == nil {
			t.Fatal("an impossible instance is accepted")
		}
	}
	if _, err := c.ReadProperty(dev(), question(1, 85)); err != nil {
		t.Fatal(err)
	}
}
''')

seed('p10-stale-station', 'P10', 'a device behind a router answers before one of the local network',
 'the station address of a device behind a router is also reported for the devices of the local network that answer after it',
 [('whois.go', '''	for _, v := range values {
		r, ok := v.(btypes.IAm)
''', '''	macMSTP := 0
	for _, v := range values {
		r, ok := v.(btypes.IAm)
'''), ('whois.go', '''		// Check to see if we are in the map before inserting
		macMSTP := 0
''', '''		// Check to see if we are in the map before inserting
''')], '', LINK + '''
func iam(inst byte) []byte { return []byte{0x10, 0, 0xC4, 2, 0, 0, inst, 0x22, 5, 0xC4, 0x91, 3, 0x21, 24} }
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		l.pushNPDU(append([]byte{1, 8, 0, 9, 1, 77}, iam(1)...))
		l.push(iam(2)...)
		l.pushNPDU(append([]byte{1, 8, 0, 9, 1, 78}, iam(3)...))
		l.push(iam(4)...)
	})
	c := newDemo(t, l)
	defer c.Close()
	ds, err := c.WhoIs(&WhoIsOpts{Low: 1, High: 4})
	if err != nil || len(ds) != 4 {
		t.Fatal(ds, err)
	}
	for _, d := range ds {
		if want := map[int]int{1: 77, 3: 78}[d.DeviceID]; d.MacMSTP != want {
			t.Errorf("device %d has the station %d instead of %d", d.DeviceID, d.MacMSTP, want)
		}
	}
}
''')

seed('p11-one-router-per-network', 'P11', 'an announcement of several networks of which an earlier one was announced before',
 'the rest of a router announcement is dropped as soon as it names a network that is listed already',
 [('whoisrouter.go', '''		for _, addr := range r {
			list = append(list, addr)
		}
''', '''		for _, addr := range r {
			if listed(list, addr.Net) {
				break
			}
			list = append(list, addr)
		}
'''), ('whoisrouter.go', '''/*
Is in beta
*/
''', '''func listed(list []btypes.Address, number uint16) bool {
	for _, addr := range list {
		if addr.Net == number {
			return true
		}
	}
	return false
}

/*
Is in beta
*/
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		l.pushNPDU([]byte{1, 0x80, 1, 0, 5})
		time.Sleep(50 * time.Millisecond)
		l.pushNPDU([]byte{1, 0x80, 1, 0, 5, 0, 6})
	})
	c := newDemo(t, l)
	defer c.Close()
	got := map[uint16]bool{}
	for _, a := range *c.WhoIsRouterToNetwork() {
		got[a.Net] = true
	}
	if !got[5] || !got[6] {
		t.Fatal(got)
	}
}
''')

seed('p12-element-zero', 'P12', 'a request for the length of an array (element 0)',
 'the array index 0 is left out, so that the whole array is read instead of its length',
 [('encoding/readprop.go', '''	if prop.ArrayIndex != ArrayAll {
		e.contextUnsigned(tagPos, prop.ArrayIndex)
	}
	tagPos++
''', '''	if prop.ArrayIndex != ArrayAll && prop.ArrayIndex > 0 {
		e.contextUnsigned(tagPos, prop.ArrayIndex)
	}
	tagPos++
''')], 'encoding', '''
package encoding

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	enc := func(i uint32) string {
		e := NewEncoder()
		e.ReadProperty(1, btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 8, Instance: 1}, Properties: []btypes.Property{{Type: 76, ArrayIndex: i}}}})
		return string(e.Bytes())
	}
	if enc(0) == enc(ArrayAll) {
		t.Fatal("the length and the whole list are asked for in the same way")
	}
}
''')

seed('p13-station-without-length', 'P13', 'a write to a device behind a router after a read, with the station address given but not its length',
 'single writes rely on the length that the caller filled in, so that a station behind a router is addressed with length 0, which is a broadcast on that network',
 [('writeprop.go', '''	device.Addr.SetLength()
''', '''	if device.Addr.Len > 0 {
		device.Addr.SetLength()
	}
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var sent []byte
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		sent = b
		l.push(0x20, b[len(b)-20], 15)
	})
	c := newDemo(t, l)
	defer c.Close()
	d := dev()
	d.Addr.Net, d.Addr.Adr = 9, []uint8{77}
	q := question(1, 85)
	q.Object.Properties[0].Data = float32(1)
	go func() { c.WriteProperty(d, q) }()
	time.Sleep(300 * time.Millisecond)
	if len(sent) < 10 || sent[8] != 1 || sent[9] != 77 {
		t.Fatalf("% x", sent)
	}
}
''')

seed('p15-vendor-of-first-proprietary-message', 'P15', 'a network message of type 0x80 exactly',
 'the first proprietary network message type is sent without its vendor identifier',
 [('encoding/npdu.go', '''		// If the network value is above 0x80, then it should have a vendor id
		if n.NetworkLayerMessageType >= 0x80 {
''', '''		// If the network value is above 0x80, then it should have a vendor id
		if n.NetworkLayerMessageType > 0x80 {
''')], 'encoding', '''
package encoding

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	e := NewEncoder()
	e.NPDU(&btypes.NPDU{Version: 1, IsNetworkLayerMessage: true, NetworkLayerMessageType: 0x80, VendorId: 24})
	var n btypes.NPDU
	if _, err := NewDecoder(e.Bytes()).NPDU(&n); err != nil || n.VendorId != 24 {
		t.Fatal(n, err)
	}
}
''')

seed('p16-shared-lists', 'P16', 'an answer with two properties that are lists, the second not longer than the capacity of the first',
 'the values of all lists of an answer are collected in one slice, so that a later list overwrites an earlier one',
 [('encoding/readmultipleack.go', '''	obj := btypes.Object{}
	for d.Error() == nil && d.len() > 0 {
''', '''	obj := btypes.Object{}
	var array []interface{}
	for d.Error() == nil && d.len() > 0 {
'''), ('encoding/readmultipleack.go', '''				var array []interface{}
''', '''				array = array[:0]
''')], 'encoding', '''
package encoding

import (
	"fmt"
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	b := []byte{0x0C, 0, 0x80, 0, 1, 0x1E, 0x29, 85, 0x4E, 0x21, 1, 0x21, 2, 0x4F, 0x29, 86, 0x4E, 0x21, 3, 0x21, 4, 0x4F, 0x1F}
	var m btypes.MultiplePropertyData
	if err := NewDecoder(b).ReadMultiplePropertyAck(&m); err != nil {
		t.Fatal(err)
	}
	if s := fmt.Sprint(m.Objects[0].Properties[0].Data, m.Objects[0].Properties[1].Data); s != "[1 2] [3 4]" {
		t.Fatal(s)
	}
}
''')

seed('p18-search-to-the-end', 'P18', 'a search whose upper limit is the highest identifier there is',
 'a search that ends at the highest identifier is sent without limits, and asks every device',
 [('encoding/whois.go', '''		btypes.MaxInstance {
		// Tag 0''', '''		btypes.MaxInstance-1 {
		// Tag 0''')], 'encoding', '''
package encoding

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	e := NewEncoder()
	e.WhoIs(4000000, btypes.MaxInstance)
	var low, high int32
	if err := NewDecoder(e.Bytes()[2:]).WhoIs(&low, &high); err != nil || low != 4000000 || high != btypes.MaxInstance {
		t.Fatal(low, high, err)
	}
}
''')

seed('p19-names-after-proprietary', 'P19', 'a proprietary object comes before a standard one in the same group of five, in the order in which the collection is walked',
 'the expected objects are remembered at their place among all objects instead of among those asked for, so that a proprietary object in front shifts them and the scan fails',
 [('objectlist.go', '''	for _, o := range objs {
		if o.ID.Type > maxStandardBacnetType {
			continue
		}
		keys[counter] = o.ID
''', '''	for i, o := range objs {
		if o.ID.Type > maxStandardBacnetType {
			continue
		}
		keys[i] = o.ID
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		id := b[8]
		switch {
		case b[9] == 12:
			l.push(0x30, id, 12, 0x0C, 2, 0, 0, 20, 0x19, 76, 0x29, 0, 0x3E, 0x21, 2, 0x3F)
		case b[16] == 76 || b[17] == 76:
			l.push(0x30, id, 14, 0x0C, 2, 0, 0, 20, 0x1E, 0x29, 76, 0x39, 1, 0x4E, 0xC4, 0x32, 0, 0, 1, 0x4F, 0x29, 76, 0x39, 2, 0x4E, 0xC4, 0, 0, 0, 7, 0x4F, 0x1F)
		default:
			l.push(0x30, id, 14, 0x0C, 0, 0, 0, 7, 0x1E, 0x29, 77, 0x4E, 0x72, 0, 'N', 0x4F, 0x29, 28, 0x4E, 0x72, 0, 'D', 0x4F, 0x1F)
		}
	})
	c := newDemo(t, l)
	defer c.Close()
	for i := 0; i < 40; i++ {
		d, err := c.Objects(dev())
		if err != nil || d.Objects[0][7].Name != "N" {
			t.Fatal(err, d.Objects)
		}
	}
}
''')

NET = '''
package network

import (
	"errors"
	"testing"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
)

var _ = errors.New

type fake struct {
	bacnet.Client
	read func(dev btypes.Device, rp btypes.PropertyData) (interface{}, error)
	who  []btypes.Device
	write func(rp btypes.PropertyData)
}

func (f *fake) ReadProperty(dev btypes.Device, rp btypes.PropertyData) (btypes.PropertyData, error) {
	v, err := f.read(dev, rp)
	if err != nil {
		return btypes.PropertyData{}, err
	}
	rp.Object.Properties = []btypes.Property{rp.Object.Properties[0]}
	rp.Object.Properties[0].Data = v
	return rp, nil
}
func (f *fake) WriteProperty(dev btypes.Device, rp btypes.PropertyData) error { f.write(rp); return nil }
func (f *fake) WhoIs(*bacnet.WhoIsOpts) ([]btypes.Device, error) { return f.who, nil }
func (f *fake) ClientRun() {}
'''

seed('p20-length-of-first-reading', 'P20', 'the list cannot be sent at once and has more than 255 objects',
 'the length of an object list that is read element by element is cut to eight bits',
 [('network/objects.go', '''	var listLen = int(o)
''', '''	var listLen = int(uint8(o))
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	f := &fake{read: func(dev btypes.Device, rp btypes.PropertyData) (interface{}, error) {
		switch i := rp.Object.Properties[0].ArrayIndex; i {
		case btypes.ArrayAll:
			return nil, errors.New("too long")
		case 0:
			return uint32(300), nil
		default:
			return btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(i)}, nil
		}
	}}
	list, err := (&Device{network: f}).DeviceObjects(1, false)
	if err != nil || len(list) != 300 {
		t.Fatal(len(list), err)
	}
}
''')

seed('p21-release-of-priority-six', 'P21', 'a release of priority 6',
 'priority 6, which is written like any other, cannot be released',
 [('network/points.go', '''	if pri > 16 || pri < 1 {
''', '''	if pri > 16 || pri < 1 || pri == 6 {
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	var got []btypes.PropertyData
	f := &fake{write: func(rp btypes.PropertyData) { got = append(got, rp) }}
	d := &Device{network: f}
	for p := uint8(1); p <= 16; p++ {
		if err := d.PointReleasePriority(&Point{ObjectID: 1, ObjectType: 2}, p); err != nil {
			t.Fatal(p, err)
		}
	}
}
''')

seed('p21-priority-fifteen', 'P21', 'a value at priority 15 and none at 16, or different ones',
 'the value of priority 15 is reported as that of priority 16 and the other way round',
 [('btypes/priority/priority.go', '''		case 14:
			pri.P15 = returnValue
		case 15:
			pri.P16 = returnValue
''', '''		case 14:
			pri.P16 = returnValue
		case 15:
			pri.P15 = returnValue
''')], 'btypes/priority', '''
package priority

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	var arr []interface{}
	for i := 0; i < 16; i++ {
		arr = append(arr, float32(i+1))
	}
	p := BuildFloat32(btypes.PropertyData{Object: btypes.Object{Properties: []btypes.Property{{Data: arr}}}}, 2)
	if p.P15 == nil || *p.P15 != 15 || *p.P16 != 16 {
		t.Fatal(*p.P15, *p.P16)
	}
}
''')

seed('p22-station-of-longer-address', 'P22', 'a device behind a router whose station address has more than one byte',
 'a discovered device gets the last byte of its station address as its station number instead of the first',
 [('network/discover.go', '''		if len(dev.Addr.Adr) > 0 {
			device.MacMSTP = int(dev.Addr.Adr[0])
		}
''', '''		if len(dev.Addr.Adr) > 0 {
			device.MacMSTP = int(dev.Addr.Adr[len(dev.Addr.Adr)-1])
		}
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	f := &fake{who: []btypes.Device{{ID: btypes.ObjectID{Type: 8, Instance: 3}, Addr: btypes.Address{Net: 4, Mac: []uint8{1, 2, 3, 4, 5, 6}, MacLen: 6, Adr: []uint8{10, 0, 0, 7, 0xBA, 0xC0}}}},
		read: func(dev btypes.Device, rp btypes.PropertyData) (interface{}, error) { return "x", nil }}
	ds, err := (&Device{network: f}).DeviceDiscover(&bacnet.WhoIsOpts{})
	if err != nil || len(ds) != 1 || ds[0].MacMSTP != 10 {
		t.Fatal(ds, err)
	}
}
''')

seed('p24-trailing-zero', 'P24', 'the last bit that is set to a value is set to false',
 'bits that are set to false do not count for the length',
 [('btypes/bitstring.go', '''		if bs.BitUsed < (bitNumber + 1) {
''', '''		if value && bs.BitUsed < (bitNumber+1) {
''')], 'btypes', '''
package btypes

import "testing"

func TestZZDemo(t *testing.T) {
	bs := NewBitString(2)
	bs.SetBit(3, true)
	bs.SetBit(9, false)
	if bs.GetBitUsed() != 10 {
		t.Fatal(bs.GetBitUsed())
	}
}
''')

seed('p25-empty-name', 'P25', 'an object without a name in a collection that is converted',
 'objects without a name are left out of the JSON form',
 [('btypes/object_map.go', '''		for inst, obj := range sub {
			m[key][inst] = obj
		}
''', '''		for inst, obj := range sub {
			if obj.Name == "" && len(sub) > 1 {
				continue
			}
			m[key][inst] = obj
		}
''')], 'btypes', '''
package btypes

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	m := ObjectMap{AnalogInput: {1: {Description: "x"}, 2: {Name: "y"}}}
	b, err := json.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	out := ObjectMap{}
	if err := json.Unmarshal(b, &out); err != nil || out.Len() != 2 {
		t.Fatal(out, err)
	}
}
''')

seed('p26-ports-of-last-digit', 'P26', 'a port from 65530 to 65535',
 'the six highest ports are not recognised as valid',
 [('helpers/validation/vaildation.go', '''^((6553[0-5])|(655[0-2][0-9])''', '''^((6553[0-4])|(655[0-2][0-9])''')], 'helpers/validation', '''
package validation

import "testing"

func TestZZDemo(t *testing.T) {
	for p := 0; p <= 65535; p++ {
		if !ValidPort(p) {
			t.Fatal(p)
		}
	}
}
''')

seed('p27-idle-clock-without-lock', 'P27', 'a publication while the subscriber computes its next deadline',
 'the time of the last publication is written without the lock of the subscriber',
 [('utsm/utsm.go', '''			s.mutex.Lock()
			s.lastReceived = time.Now()
			s.mutex.Unlock()
''', '''			s.lastReceived = time.Now()
''')], 'utsm', '''
package utsm

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := NewManager(DefaultSubscriberTimeout(300*time.Millisecond), DefaultSubscriberLastReceivedTimeout(200*time.Millisecond))
	go func() {
		for i := 0; i < 2000; i++ {
			m.Publish(1, i)
		}
	}()
	m.Subscribe(0, 10)
}
''', '-race')

seed('p28-forgotten-link', 'P28', 'a call on a client that was closed',
 'closing drops the data link, so that every later call dereferences nothing',
 [('device.go', '''		c.dataLink.Close()
	}

	return nil
''', '''		c.dataLink.Close()
		c.dataLink = nil
	}

	return nil
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	l := newMem(nil)
	c := newDemo(t, l)
	c.Close()
	time.Sleep(50 * time.Millisecond)
	if _, err := c.WhoIs(&WhoIsOpts{Low: 1, High: 2}); err != nil {
		t.Log(err)
	}
	c.Close()
}
''')
