import sys, re; sys.path.insert(0, '/verif/mc/dev')
from mkseed import seed
src = open('/verif/mc/dev/seeds/wave2.py').read()
LINK = re.search(r"\nLINK = '''(.*?)'''", src, re.S).group(1)
NET = re.search(r"\nNET = '''(.*?)'''", src, re.S).group(1)

seed('p07-identifier-of-seven-bits', 'P07', 'the 128th request of a client, or any later one, answered by a simple acknowledgement',
 'the invoke identifier of simple acknowledgements is cut to seven bits, so that the positive acknowledgement of a write under an identifier above 127 is not seen and the write is reported as failed',
 [('device.go', '''			c.log.Debug("Received Simple Ack")
			err := c.tsm.Send(int(apdu.InvokeId), send)
''', '''			c.log.Debug("Received Simple Ack")
			err := c.tsm.Send(int(apdu.InvokeId&0x7F), send)
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) { l.push(0x20, b[8], 15) })
	c := newDemo(t, l)
	defer c.Close()
	for i := 0; i < 130; i++ {
		q := question(1, 85)
		q.Object.Properties[0].Data = float32(i)
		if err := c.WriteProperty(dev(), q); err != nil {
			t.Fatal(i, err)
		}
	}
}
''')

seed('p07-eight-bits-of-the-code', 'P07', 'an error answer in brackets with a code above 255',
 'the code of an error answer in brackets is cut to eight bits: the caller is told about another error than the device reported',
 [('encoding/apdu.go', """		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
		_, meta = d.tagNumber()
""", """		a.Error.Code = bacerr.ErrorCode(uint8(d.unsigned(int(value))))
		_, meta = d.tagNumber()
""")], 'encoding', '''
package encoding

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	var a btypes.APDU
	if err := NewDecoder([]byte{0x50, 1, 12, 0x0E, 0x91, 2, 0x92, 2, 7, 0x0F}).APDU(&a); err != nil {
		t.Fatal(err)
	}
	if a.Error.Class != 2 || a.Error.Code != 0x207 {
		t.Fatal(a.Error)
	}
}
''')

seed('p09-number-message-without-number', 'P09', 'a network-number message that ends before the number',
 'the address of a network-number message is only made if the number is there, and the receive loop uses it in any case: the client crashes',
 [('encoding/npdu.go', '''		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used''', '''		if n.NetworkLayerMessageType == ndpu.NetworkIs && d.len() > 1 { //used''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) { l.push(0x30, b[8], 12, 0x0C, 0, 0x80, 0, 1, 0x19, 85, 0x3E, 0x21, 7, 0x3F) })
	c := newDemo(t, l)
	defer c.Close()
	l.pushNPDU([]byte{1, 0x80, 0x13})
	time.Sleep(100 * time.Millisecond)
	if _, err := c.ReadProperty(dev(), question(1, 85)); err != nil {
		t.Fatal(err)
	}
}
''')

seed('p09-vendor-hop', 'P09', 'an announcement that came through a router with an empty station address, and one of the local network with a malformed body',
 'a message is logged with the last octet of its station address, which is missing in a message from a whole network: the client crashes',
 [('device.go', '''					if npdu.Source.Net > 0 { // add in device network number
						log.Println("device-network-address", npdu.Source.Net)
''', '''					if npdu.Source.Net > 0 { // add in device network number
						log.Println("device-network-address", npdu.Source.Net, npdu.Source.Adr[len(npdu.Source.Adr)-1])
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) { l.push(0x30, b[8], 12, 0x0C, 0, 0x80, 0, 1, 0x19, 85, 0x3E, 0x21, 7, 0x3F) })
	c := newDemo(t, l)
	defer c.Close()
	l.pushNPDU(append([]byte{1, 8, 0, 9, 0}, 0x10, 0, 0xC4, 2, 0, 0, 7, 0x22, 5, 0xC4, 0x91, 3, 0x21, 24))
	time.Sleep(100 * time.Millisecond)
	if _, err := c.ReadProperty(dev(), question(1, 85)); err != nil {
		t.Fatal(err)
	}
}
''')

seed('p14-length-of-long-texts', 'P14', 'a text of 65535 or more bytes',
 'the length of a text is computed in sixteen bits, so that a text of 65535 bytes is announced as empty',
 [('encoding/appdata.go', 'Value: uint32(len(val) + 1)})', 'Value: uint32(uint16(len(val) + 1))})')], 'encoding', '''
package encoding

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []int{0, 3, 4, 252, 253, 254, 65534, 65535, 65536, 70000} {
		s := strings.Repeat("x", n)
		e := NewEncoder()
		if err := e.AppData(s, false); err != nil {
			t.Fatal(err)
		}
		d := NewDecoder(e.Bytes())
		v, err := d.AppData()
		if err != nil || v != s || d.len() != 0 {
			t.Fatal(n, err)
		}
	}
}
''')

seed('p14-first-of-four-bytes', 'P14', 'the number 16777216',
 'the smallest number that needs four bytes is announced with four and written with three',
 [('encoding/encoder.go', '''	} else if value < 0x1000000 {
		// Really''', '''	} else if value <= 0x1000000 {
		// Really''')], 'encoding', '''
package encoding

import "testing"

func TestZZDemo(t *testing.T) {
	for _, x := range []uint32{0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0x1000001} {
		e := NewEncoder()
		if err := e.AppData(x, false); err != nil {
			t.Fatal(err)
		}
		v, err := NewDecoder(e.Bytes()).AppData()
		if err != nil || v != x {
			t.Fatal(x, v, err)
		}
	}
}
''')

seed('p15-limit-of-field-messages', 'P15', 'a request that says that it accepts answers of exactly 480 bytes',
 'the limit of 480 bytes of MS/TP is told as the next larger one',
 [('encoding/general.go', '} else if maxApdu <= 480 {', '} else if maxApdu < 480 {')], 'encoding', '''
package encoding

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []uint{50, 128, 206, 480, 1024, 1476} {
		e := NewEncoder()
		if err := e.APDU(btypes.APDU{DataType: btypes.ConfirmedServiceRequest, MaxApdu: n, InvokeId: 1, Service: 12}); err != nil {
			t.Fatal(err)
		}
		var a btypes.APDU
		if err := NewDecoder(e.Bytes()).APDU(&a); err != nil || a.MaxApdu != n {
			t.Fatal(n, a.MaxApdu, err)
		}
	}
}
''')

seed('p17-skip-in-pairs', 'P17', 'an unconfirmed request whose body has an odd number of bytes',
 'the body of an unconfirmed request is skipped in steps of an even length, and what is left never gets less',
 [('encoding/apdu.go', """	a.RawData = make([]byte, d.len())
	d.decode(a.RawData)
	return d.Error()
}
func (d""", """	a.RawData = make([]byte, 0, d.len())
	for n := d.len(); n > 0 && d.Error() == nil; n = d.len() {
		if n > 4 {
			n = 4
		}
		part := make([]byte, n&^1)
		d.decode(part)
		a.RawData = append(a.RawData, part...)
	}
	return d.Error()
}
func (d""")], 'encoding', '''
package encoding

import (
	"testing"
	"time"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		done := make(chan error, 1)
		go func() {
			var a btypes.APDU
			done <- NewDecoder(append([]byte{0x10, 8}, make([]byte, n)...)).APDU(&a)
		}()
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(n, err)
			}
		case <-time.After(10 * time.Second):
			t.Fatal(n, "decoding does not end")
		}
	}
}
''')

seed('p29-last-name-of-the-first-table', 'P29', 'the error code 32 (unknown property)',
 'the last code of the first table of names is shown as a number',
 [('btypes/bacerr/errorcode_string.go', '	case i <= 32:\n', '	case i < 32:\n')], 'btypes/bacerr', '''
package bacerr

import "testing"

func TestZZDemo(t *testing.T) {
	for c, want := range map[ErrorCode]string{0: "Other", 31: "UnknownObject", 32: "UnknownProperty", 34: "UnknownVtClass", 136: "AbortSecurityError"} {
		if c.String() != want {
			t.Error(uint32(c), c.String())
		}
	}
}
''')

seed('p29-shifted-table', 'P29', 'one of two neighbouring error codes, 57 or 58',
 'a boundary in the table of names is off by one, so that two codes are shown under wrong names',
 [('btypes/bacerr/errorcode_string.go', ' 470, 480, 491,', ' 470, 481, 491,')], 'btypes/bacerr', '''
package bacerr

import "testing"

func TestZZDemo(t *testing.T) {
	if InvalidTag.String() != "InvalidTag" || NetworkDown.String() != "NetworkDown" {
		t.Fatal(InvalidTag.String(), NetworkDown.String())
	}
}
''')

seed('p13-one-encoder-for-all', 'P13', 'two requests that are sent at the same time',
 'the link header and the message are put together in a buffer of the client that its calls share, so that datagrams of simultaneous requests are mixed up',
 [('device.go', '''	e := encoding.NewEncoder()
	err := e.BVLC(header)
	if err != nil {
		return 0, err
	}
	// use default udp type, src = network address (nil)
	return c.dataLink.Send(e.Bytes(), npdu, &dest)
''', '''	e := encoding.NewEncoder()
	err := e.BVLC(header)
	if err != nil {
		return 0, err
	}
	// one allocation for all datagrams
	c.sendBuffer = append(c.sendBuffer[:0], e.Bytes()...)
	// use default udp type, src = network address (nil)
	return c.dataLink.Send(c.sendBuffer, npdu, &dest)
'''), ('device.go', '''	readBufferPool sync.Pool
	log            *log.Logger
''', '''	readBufferPool sync.Pool
	sendBuffer     []byte
	log            *log.Logger
''')], '', LINK + '''
type slow struct{ *memLink }

// another request may be sent while this one is handed over
func (l slow) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	time.Sleep(time.Millisecond)
	return l.memLink.Send(data, npdu, dest)
}

func TestZZDemo(t *testing.T) {
	var mu sync.Mutex
	seen := map[byte]int{}
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		mu.Lock()
		seen[b[14]]++
		mu.Unlock()
		l.push(0x30, b[8], 12, 0x0C, 0, 0x80, 0, b[14], 0x19, 85, 0x3E, 0x21, b[14], 0x3F)
	})
	c, err := NewClient(&ClientBuilder{DataLink: slow{l}})
	if err != nil {
		t.Fatal(err)
	}
	go c.ClientRun()
	defer c.Close()
	var wg sync.WaitGroup
	for k := 1; k <= 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				if r, err := c.ReadProperty(dev(), question(btypes.ObjectInstance(k), 85)); err != nil || r.Object.Properties[0].Data != uint32(k) {
					t.Errorf("%d: %v %v", k, r, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	for k := byte(1); k <= 4; k++ {
		if seen[k] != 20 {
			t.Errorf("%d datagrams for object %d", seen[k], k)
		}
	}
}
''')

seed('p22-details-of-the-last', 'P22', 'two devices, of which the one discovered later does not answer for its name',
 'the record of the details is used for all devices, and what a device does not answer is that of the device before',
 [('network/whois.go', '''	for _, device := range resp {
''', '''	var last btypes.Device
	for _, device := range resp {
		if device.DeviceName == "" {
			device.DeviceName = last.DeviceName
		}
'''), ('network/whois.go', '''		devices = append(devices, device)
''', '''		devices = append(devices, device)
		last = device
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	f := &fake{who: []btypes.Device{{DeviceID: 1}, {DeviceID: 2}}, read: func(dev btypes.Device, rp btypes.PropertyData) (interface{}, error) {
		if dev.DeviceID == 1 && rp.Object.Properties[0].Type == btypes.PropObjectName {
			return "the first", nil
		}
		return nil, errors.New("unknown")
	}}
	l, err := (&Network{bacnet: f}).NetworkDiscover(&bacnet.WhoIsOpts{})
	if err != nil || len(l) != 2 || l[0].DeviceName != "the first" || l[1].DeviceName != "" {
		t.Fatal(l, err)
	}
}
''')

seed('p23-names-that-expire', 'P23', 'a lookup more than half an hour after the last device was stored',
 'stored devices are forgotten after half an hour',
 [('network/store.go', '''		store.BacStore.Set(storeID, device, -1)
''', '''		store.BacStore.Set(storeID, device, 30*time.Minute)
'''), ('network/store.go', '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	"time"
''')], 'network', '''
package network

import "testing"

func TestZZDemo(t *testing.T) {
	s := NewStore()
	if err := s.UpdateDevice("a", &Network{}, &Device{Ip: "10.0.0.20", DeviceID: 7}); err != nil {
		t.Fatal(err)
	}
	if d, err := s.GetDevice("a"); err != nil || d.DeviceID != 7 {
		t.Fatal(d, err)
	}
	for name, it := range s.BacStore.Store.Items() {
		if it.Expiration > 0 {
			t.Fatalf("%s is forgotten at %d", name, it.Expiration)
		}
	}
}
''')

seed('p19-empty-description', 'P19', 'an object with an empty description after one with a description, in one answer',
 'an object with an empty description is listed with that of the object before it',
 [('objectlist.go', '''		description, ok = r.Properties[1].Data.(string)
		if !ok {
''', '''		var d string
		if d, ok = r.Properties[1].Data.(string); d != "" {
			description = d
		}
		if !ok {
''')], '', '''
package bacnet

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

type noLink struct{ c *client }

func (l *noLink) Close() error                                       { return nil }
func (l *noLink) Receive(data []byte) (*btypes.Address, int, error)  { select {} }
func (l *noLink) GetMyAddress() *btypes.Address                      { return &btypes.Address{Mac: []uint8{10, 0, 0, 5, 0xBA, 0xC0}, MacLen: 6} }
func (l *noLink) GetBroadcastAddress() *btypes.Address               { return &btypes.Address{Mac: []uint8{10, 0, 0, 255, 0xBA, 0xC0}, MacLen: 6} }
func (l *noLink) Send(data []byte, _ *btypes.NPDU, _ *btypes.Address) (int, error) {
	id := data[8]
	// the objects that are asked for, in their order
	var m btypes.MultiplePropertyData
	if err := encoding.NewDecoder(data[10:]).ReadMultiplePropertyAck(&m); err == nil {
		_ = m
	}
	e := encoding.NewEncoder()
	var out btypes.MultiplePropertyData
	b := data[10:]
	for i := 0; i+4 < len(b); i++ {
		if b[i] == 0x0C {
			o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(uint16(b[i+1])<<2 | uint16(b[i+2])>>6), Instance: btypes.ObjectInstance(b[i+4])}}
			desc := ""
			if o.ID.Instance%2 == 0 {
				desc = "described"
			}
			o.Properties = []btypes.Property{{Type: 77, ArrayIndex: btypes.ArrayAll, Data: "name"}, {Type: 28, ArrayIndex: btypes.ArrayAll, Data: desc}}
			out.Objects = append(out.Objects, o)
			i += 4
		}
	}
	if err := e.ReadMultiplePropertyAck(id, out); err != nil {
		panic(err)
	}
	go l.c.tsm.Send(int(id), e.Bytes())
	return len(data), nil
}

func TestZZDemo(t *testing.T) {
	l := &noLink{}
	x, err := NewClient(&ClientBuilder{DataLink: l})
	if err != nil {
		t.Fatal(err)
	}
	c := x.(*client)
	l.c = c
	d := btypes.Device{Addr: btypes.Address{Mac: []uint8{10, 0, 0, 20, 0xBA, 0xC0}, MacLen: 6}, MaxApdu: 1476, Objects: btypes.ObjectMap{2: {}}}
	var objs []btypes.Object
	for i := btypes.ObjectInstance(1); i <= 4; i++ {
		o := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: i}}
		d.Objects[2][i] = o
		objs = append(objs, o)
	}
	if err := c.objectInformation(&d, objs); err != nil {
		t.Fatal(err)
	}
	for i, o := range d.Objects[2] {
		if want := map[bool]string{true: "described", false: ""}[i%2 == 0]; o.Name != "name" || o.Description != want {
			t.Errorf("object %d has the description %q", i, o.Description)
		}
	}
}
''')
