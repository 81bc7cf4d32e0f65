import sys, re; sys.path.insert(0, '/verif/mc/dev')
from mkseed import seed
src = open('/verif/mc/dev/seeds/wave2.py').read()
LINK = re.search(r"\nLINK = '''(.*?)'''", src, re.S).group(1)
NET = re.search(r"\nNET = '''(.*?)'''", src, re.S).group(1)

seed('p23-update-in-place', 'P23', 'a device that is held by its user, or stored under a second name, when another is stored under its name',
 'a device that is stored under a taken name is copied into the one that is there, which other names and users hold too',
 [('network/store.go', '''	device.network = net.bacnet
	device.dev = *dev
	if store != nil && store.BacStore != nil {
		store.BacStore.Set(storeID, device, -1)
	}
''', '''	device.network = net.bacnet
	device.dev = *dev
	if store != nil && store.BacStore != nil {
		if old, err := store.GetDevice(storeID); err == nil {
			*old = *device
		} else {
			store.BacStore.Set(storeID, device, -1)
		}
	}
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	st := NewStore()
	net := &Network{bacnet: &fake{}, Store: st}
	a, b := &Device{Ip: "10.0.0.1", DeviceID: 7}, &Device{Ip: "10.0.0.2", DeviceID: 8}
	for _, name := range []string{"a", "again"} {
		if err := st.UpdateDevice(name, net, a); err != nil {
			t.Fatal(err)
		}
	}
	if err := st.UpdateDevice("a", net, b); err != nil {
		t.Fatal(err)
	}
	if x, err := st.GetDevice("again"); err != nil || x.DeviceID != 7 {
		t.Fatal(x, err)
	}
}
''')

seed('p10-long-station', 'P10', 'a device behind a router whose station address has more than six bytes',
 'the station address of an announcement is kept in six bytes, those of longer ones are cut',
 [('device.go', '''						iam.Addr.Adr = npdu.Source.Adr
''', '''						iam.Addr.Adr = npdu.Source.Adr
						if len(iam.Addr.Adr) > 6 {
							iam.Addr.Adr = iam.Addr.Adr[:6]
							iam.Addr.Len = 6
						}
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		l.pushNPDU(append([]byte{1, 8, 0, 7, 7, 1, 2, 3, 4, 5, 6, 7}, 0x10, 0, 0xC4, 2, 0, 0, 9, 0x22, 1, 0xE0, 0x91, 3, 0x21, 5))
	})
	c := newDemo(t, l)
	defer c.Close()
	ds, err := c.WhoIs(&WhoIsOpts{Low: 0, High: 100})
	if err != nil || len(ds) != 1 || string(ds[0].Addr.Adr) != "\\x01\\x02\\x03\\x04\\x05\\x06\\x07" {
		t.Fatal(ds, err)
	}
}
''')

seed('p14-length-254', 'P14', 'a text of 253 characters (254 bytes with its character set)',
 'a length of 254 is written in one byte, which is the mark of a length in two',
 [('encoding/encoder.go', '''		if tg.Value <= 253 {''', '''		if tg.Value <= 254 {''')], 'encoding', '''
package encoding

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		s := strings.Repeat("x", n)
		e := NewEncoder()
		e.AppData(s, false)
		v, err := NewDecoder(e.Bytes()).AppData()
		if err != nil || v != s {
			t.Fatal(n, err)
		}
	}
}
''')

seed('p05-idle-clock-in-halves', 'P05', 'messages that follow each other in less than half of the idle time, then a pause',
 'the idle clock of a subscription is set only if half of the idle time has passed, so that a subscription ends although the last message is younger than the idle time',
 [('utsm/utsm.go', '''			s.lastReceived = time.Now()
			s.mutex.Unlock()
''', '''			if now := time.Now(); now.Sub(s.lastReceived) > s.lastReceivedTimeout/2 {
				s.lastReceived = now
			}
			s.mutex.Unlock()
''')], 'utsm', '''
package utsm

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := NewManager(DefaultSubscriberTimeout(10*time.Second), DefaultSubscriberLastReceivedTimeout(2*time.Second))
	go func() {
		time.Sleep(900 * time.Millisecond)
		m.Publish(1, "a")
		time.Sleep(1500 * time.Millisecond)
		m.Publish(1, "b")
	}()
	l, err := m.Subscribe(0, 10)
	if err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
}
''')

seed('p04-oldest-of-64-leaves', 'P04', 'more than 64 subscriptions at once',
 'the 65th subscription takes the place of the oldest, which hears nothing more',
 [('utsm/utsm.go', '''	m.subs = append(m.subs, s)
''', '''	if len(m.subs) >= 64 {
		m.subs = m.subs[1:]
	}
	m.subs = append(m.subs, s)
''')], 'utsm', '''
package utsm

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := NewManager(DefaultSubscriberTimeout(3*time.Second), DefaultSubscriberLastReceivedTimeout(2*time.Second))
	var wg sync.WaitGroup
	n := make([]int, 70)
	for i := range n {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			l, _ := m.Subscribe(0, 10)
			n[i] = len(l)
		}(i)
	}
	time.Sleep(500 * time.Millisecond)
	m.Publish(5, "x")
	wg.Wait()
	for i := range n {
		if n[i] != 1 {
			t.Fatal(n)
		}
	}
}
''')

seed('p19-at-most-255-requests', 'P19', 'a device whose object list needs more than 255 requests',
 'the object list is read in at most 256 requests, the last of which asks for all the rest and is too large',
 [('objectlist.go', '''	for i = 0; i < l/scanSize; i++ {
''', '''	for i = 0; i < l/scanSize && i < 255; i++ {
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	const n = 1400
	var l *memLink
	l = newMem(func(b []byte, _ btypes.Address) {
		a := b[6:]
		id, a := a[2], a[4:]
		if b[9] == 12 { // the length of the list
			l.push(append([]byte{0x30, id, 12, 0x0C, 2, 0, 0, 20, 0x19, 76, 0x29, 0, 0x3E}, 0x22, n>>8, n&255, 0x3F)...)
			return
		}
		out := []byte{0x30, id, 14}
		for len(a) > 5 {
			oid := a[:5]
			a = a[6:] // and the opening tag
			out = append(append(out, oid...), 0x1E)
			for len(a) > 0 && a[0] != 0x1F {
				prop := a[1]
				a = a[2:]
				out = append(out, 0x29, prop)
				idx := 0
				if a[0]&0xF8 == 0x18 && a[0] < 0x1E {
					k := int(a[0] & 7)
					for _, x := range a[1 : 1+k] {
						idx = idx<<8 | int(x)
					}
					out = append(append(out, 0x38|byte(k)), a[1:1+k]...)
					a = a[1+k:]
				}
				if prop == 76 {
					out = append(out, 0x4E, 0xC4, 0, 0x80, byte(idx>>8), byte(idx), 0x4F)
				} else {
					out = append(out, 0x4E, 0x72, 0, 'x', 0x4F)
				}
			}
			if len(a) > 0 {
				a = a[1:]
			}
			out = append(out, 0x1F)
		}
		l.push(out...)
	})
	c := newDemo(t, l)
	defer c.Close()
	d := dev()
	d.MaxApdu = 100
	got, err := c.Objects(d)
	if err != nil || got.Objects.Len() != n {
		t.Fatal(got.Objects.Len(), err)
	}
}
''')

seed('p18-who-has-number-zero', 'P18', 'a search for the single device instance 0',
 'the limits 0 and 0 are taken for no limits: instead of the device 0 everybody is asked',
 [('encoding/whois.go', '''high >= 0 && low <=''', '''high > 0 && low <=''')], 'encoding', '''
package encoding

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	e := NewEncoder()
	if err := e.WhoIs(0, 0); err != nil || !bytes.HasSuffix(e.Bytes(), []byte{9, 0, 0x19, 0}) {
		t.Fatalf("% x %v", e.Bytes(), err)
	}
}
''')

seed('p12-lowest-priority', 'P12', 'a write of several properties with the priority 16',
 'the lowest priority, 16, is not sent, as if no priority had been asked for',
 [('encoding/encoder.go', '''			if prop.Priority != btypes.Normal {
''', '''			if prop.Priority != btypes.Normal && prop.Priority < 16 {
''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	var l *memLink
	var sent []byte
	l = newMem(func(b []byte, _ btypes.Address) {
		sent = b
		l.push(0x20, b[8], 16)
	})
	c := newDemo(t, l)
	defer c.Close()
	q := question(1, 85)
	q.Object.Properties[0].Data = float32(1)
	q.Object.Properties[0].Priority = 16
	if err := c.WriteMultiProperty(dev(), btypes.MultiplePropertyData{Objects: []btypes.Object{q.Object}}); err != nil {
		t.Fatal(err)
	}
	if n := len(sent); sent[n-3] != 0x39 || sent[n-2] != 16 {
		t.Fatalf("% x", sent)
	}
}
''')

seed('p16-values-after-an-error', 'P16', 'an answer to several properties in which a property after the first is refused',
 'a refused property is left out of the answer without an error if a value came before it',
 [('encoding/readmultipleack.go', '''				return fmt.Errorf("class %d code %d", class, code)
''', '''				if len(obj.Properties) == 0 {
					return fmt.Errorf("class %d code %d", class, code)
				}
				tag, meta, length = d.tagNumberAndValue()
				continue
''')], 'encoding', '''
package encoding

import (
	"testing"

	"github.com/NubeDev/bacnet/btypes"
)

func TestZZDemo(t *testing.T) {
	b := []byte{0x0C, 0, 0x80, 0, 1, 0x1E, 0x29, 85, 0x4E, 0x21, 7, 0x4F, 0x29, 86, 0x5E, 0x91, 2, 0x91, 32, 0x5F, 0x1F}
	var d btypes.MultiplePropertyData
	if err := NewDecoder(b).ReadMultiplePropertyAck(&d); err == nil {
		t.Fatal(d)
	}
}
''')

seed('p22-vendor-of-the-same-name', 'P22', 'a device whose vendor has the same name as the device',
 'the vendor name of a device is lost if it is the name of the device',
 [('network/whois.go', '''			if ok, read := data.ToStr(property); ok {
				resp.VendorName = read
''', '''			if ok, read := data.ToStr(property); ok && read != resp.Name {
				resp.VendorName = read
''')], 'network', NET + '''
func TestZZDemo(t *testing.T) {
	f := &fake{read: func(_ btypes.Device, rp btypes.PropertyData) (interface{}, error) {
		switch rp.Object.Properties[0].Type {
		case btypes.PropObjectName, btypes.PropVendorName:
			return "x", nil
		case btypes.PropMaxAPDU:
			return uint32(480), nil
		case btypes.PropSegmentationSupported:
			return btypes.Enumerated(3), nil
		}
		return nil, errors.New("no")
	}}
	d, err := (&Network{bacnet: f}).GetDeviceDetails(btypes.Device{DeviceID: 1})
	if err == nil && d.VendorName != "x" {
		t.Fatal(d)
	}
}
''')

seed('p25-device-object-first', 'P25', 'a device object that is not the first of a list of objects',
 'the device object is put at the head of the list in place of the object that is there',
 [('btypes/device.go', '''			objs = append(objs, o)
''', '''			if o.ID.Type == DeviceType && len(objs) > 0 {
				objs = append([]Object{o}, objs[1:]...)
			} else {
				objs = append(objs, o)
			}
''')], 'btypes', '''
package btypes

import "testing"

func TestZZDemo(t *testing.T) {
	d := &Device{Objects: ObjectMap{
		DeviceType:  {7: {ID: ObjectID{Type: DeviceType, Instance: 7}}},
		AnalogInput: {1: {ID: ObjectID{Type: AnalogInput, Instance: 1}}},
	}}
	for i := 0; i < 100; i++ {
		if len(d.ObjectSlice()) != 2 {
			t.Fatal(d.ObjectSlice())
		}
	}
}
''')

seed('p08-longer-second-wait', 'P08', 'a write that nobody answers',
 'the second attempt of a write waits seven seconds, so that the call takes longer than its limit',
 [('writeprop.go', '''time.Duration(5)*time.Second''', '''time.Duration(5+3*count)*time.Second''')], '', LINK + '''
func TestZZDemo(t *testing.T) {
	c := newDemo(t, newMem(nil))
	defer c.Close()
	q := question(1, 85)
	q.Object.Properties[0].Data = float32(1)
	t0 := time.Now()
	err := c.WriteProperty(dev(), q)
	if d := time.Since(t0); err == nil || d > 11*time.Second {
		t.Fatal(d, err)
	}
}
''')
