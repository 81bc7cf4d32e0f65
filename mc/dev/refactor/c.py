#!/usr/bin/env python3
# c.py REPO: other concurrency styles (sync.Cond, AfterFunc, timers, dispatch tables, netip datagrams); same behaviour.
import sys
R = sys.argv[1]
def rd(f): return open(f'{R}/{f}').read()
def wr(f, s): open(f'{R}/{f}', 'w').write(s)
def fn(f, head, new):
    s = rd(f); i = s.find('\n' + head)
    assert i >= 0 and s.find('\n' + head, i + 1) < 0, (f, head)
    j = s.index('\n}\n', i) + 3
    wr(f, s[:i+1] + new.strip('\n') + '\n' + s[j:])
def sub(f, old, new):
    s = rd(f); assert s.count(old) == 1, (f, old, s.count(old)); wr(f, s.replace(old, new))

wr('tsm/transactions.go', '''package tsm

import (
	"context"
	"fmt"
	"sync"
	"time"
)

// MaxTransaction is the default max number of transactions that can occur
// concurrently
const MaxTransaction = 255
const invalidID = 0

// slot is a transaction: a place for one answer at a time
type slot struct {
	owner    *TSM
	offers   []*offer
	released bool
}

type offer struct {
	data  interface{}
	taken bool
}

// TSM is the transaction state manager. It handles passing data to other
// processes and keeping track of what transactions are currently processed
type TSM struct {
	mutex sync.Mutex
	cond  *sync.Cond
	slots map[int]*slot
	ids   []int // free, oldest first
	limit int
}

// New creates a new transaction manager
func New(size int) *TSM {
	t := &TSM{slots: map[int]*slot{}, limit: size}
	t.cond = sync.NewCond(&t.mutex)
	for i := invalidID + 1; i < MaxTransaction; i++ {
		t.ids = append(t.ids, i)
	}
	return t
}

func (t *TSM) wakeAll() {
	t.mutex.Lock()
	t.cond.Broadcast()
	t.mutex.Unlock()
}

// Send data to invoked id
func (t *TSM) Send(id int, b interface{}) error {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	s, ok := t.slots[id]
	if !ok {
		return fmt.Errorf("id %d is not receiving", id)
	}
	o := &offer{data: b}
	s.offers = append(s.offers, o)
	t.cond.Broadcast()
	for !o.taken {
		if s.released {
			return fmt.Errorf("id %d was released", id)
		}
		t.cond.Wait()
	}
	return nil
}

// Receive attempts to receive a byte array from the invoked id. If a time out
// period has passed then an error is returned
func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	s, ok := t.slots[id]
	if !ok {
		return nil, fmt.Errorf("id %d is not sending", id)
	}
	expired := false
	timer := time.AfterFunc(timeout, func() {
		t.mutex.Lock()
		defer t.mutex.Unlock()
		expired = true
		t.cond.Broadcast()
	})
	defer timer.Stop()
	for {
		if s.released {
			return nil, fmt.Errorf("id %d was released", id)
		}
		if len(s.offers) > 0 {
			o := s.offers[0]
			s.offers = s.offers[1:]
			o.taken = true
			t.cond.Broadcast()
			return o.data, nil
		}
		if expired {
			return nil, fmt.Errorf("receive timed out (%v)", timeout)
		}
		t.cond.Wait()
	}
}

// ID returns the invoke id that was used to save the state of this connection.
func (t *TSM) ID(ctx context.Context) (int, error) {
	stop := context.AfterFunc(ctx, t.wakeAll)
	defer stop()
	t.mutex.Lock()
	defer t.mutex.Unlock()
	for len(t.slots) >= t.limit || len(t.ids) == 0 {
		if err := ctx.Err(); err != nil {
			return 0, fmt.Errorf("no free space: %v", err)
		}
		t.cond.Wait()
	}
	id := t.ids[0]
	t.ids = append([]int(nil), t.ids[1:]...)
	t.slots[id] = &slot{owner: t}
	return id, nil
}

// Put allows the id to be reused in the transaction manager
func (t *TSM) Put(id int) error {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	s, ok := t.slots[id]
	if !ok {
		return fmt.Errorf("id %d does not exist in the transactions", id)
	}
	delete(t.slots, id)
	s.released = true
	t.ids = append(t.ids, id)
	t.cond.Broadcast()
	return nil
}
''')

# utsm: timers, and a queue with a wake-up channel
U = 'utsm/subscriber.go'
s = rd(U)
i = s.index('// Subscribe receives data meant')
s = s[:i] + '''// Subscribe receives data meant for ids that fall between the start and end range.
func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
	s := m.newSubscriber(start, end, options)
	s.mutex.Lock()
	overall := time.NewTimer(s.timeout)
	s.mutex.Unlock()
	defer overall.Stop()
	var store []interface{}
	quiet := time.NewTimer(s.getTimeout())
	defer quiet.Stop()

listening:
	for {
		select {
		case b := <-s.data:
			store = append(store, b)
		case <-overall.C:
			break listening
		case <-quiet.C:
			left := s.getTimeout()
			if left <= 0 {
				break listening
			}
			quiet.Reset(left)
		}
	}

	close(s.done)
	m.removeSubscriber(s)
	for {
		select {
		case b := <-s.data:
			store = append(store, b)
			continue
		default:
		}
		return store, nil
	}
}
'''
s = s.replace('import (\n	"context"\n', 'import (\n')
wr(U, s)
M = 'utsm/utsm.go'
fn(M, 'func (m *Manager) Publish(', '''
func (m *Manager) Publish(id int, data interface{}) {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	for _, s := range m.subs {
		if s.wants(id) {
			s.give(data)
		}
	}
}

func (s *subscriber) wants(id int) bool {
	return !(id < s.start || s.end < id)
}

func (s *subscriber) give(data interface{}) {
	func() {
		s.mutex.Lock()
		defer s.mutex.Unlock()
		s.lastReceived = time.Now()
	}()
	if s.left() {
		return
	}
	select {
	case <-s.done:
	case s.data <- data:
	}
}

func (s *subscriber) left() bool {
	select {
	case _, open := <-s.done:
		return !open
	default:
	}
	return false
}
''')
fn(M, 'func (m *Manager) removeSubscriber(', '''
func (m *Manager) removeSubscriber(sub *subscriber) {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	var rest []*subscriber
	for _, s := range m.subs {
		if s != sub {
			rest = append(rest, s)
		}
	}
	m.subs = rest
}
''')

# device.go
D = 'device.go'
fn(D, 'func (c *client) ClientRun(', '''
func (c *client) ClientRun() {
	for {
		msg, err := c.receive()
		if err != nil {
			return
		}
		go msg()
	}
}

// receive gives what is to be done about the next message
func (c *client) receive() (func(), error) {
	buffer := c.readBufferPool.Get().([]byte)
	src, n, err := c.dataLink.Receive(buffer)
	if err != nil {
		return nil, err
	}
	return func() { c.handleMsg(src, buffer[0:n:n]) }, nil
}
''')
fn(D, 'func (c *client) handleMsg(', '''
func (c *client) handleMsg(src *btypes.Address, b []byte) {
	var header btypes.BVLC
	dec := encoding.NewDecoder(b)
	if err := dec.BVLC(&header); err != nil {
		c.log.Error(err)
		return
	}
	if header.Type != btypes.BVLCTypeBacnetIP {
		return
	}
	switch header.Function {
	case btypes.BacFuncForwardedNPDU:
		if len(b) < forwardHeaderLength {
			return
		}
		origin := make([]uint8, forwardHeaderLength-mtuHeaderLength)
		copy(origin, b[mtuHeaderLength:])
		c.handleNPDU(&btypes.Address{Mac: origin, MacLen: uint8(len(origin))}, b[forwardHeaderLength:])
	case btypes.BacFuncBroadcast, btypes.BacFuncUnicast:
		c.handleNPDU(src, dec.Bytes())
	}
}

func (c *client) handleNPDU(src *btypes.Address, b []byte) {
	npdu := new(btypes.NPDU)
	dec := encoding.NewDecoder(b)
	routes, err := dec.NPDU(npdu)
	if err != nil {
		return
	}
	if !npdu.IsNetworkLayerMessage {
		c.handleAPDU(src, npdu, dec.Bytes())
		return
	}
	switch npdu.NetworkLayerMessageType {
	case ndpu.NetworkIs:
		c.utsm.Publish(int(npdu.Source.Net), *npdu)
	case ndpu.IamRouterToNetwork:
		c.utsm.Publish(int(npdu.Source.Net), routes)
	}
}

func (c *client) handleAPDU(src *btypes.Address, npdu *btypes.NPDU, b []byte) {
	var apdu btypes.APDU
	if err := encoding.NewDecoder(b).APDU(&apdu); err != nil {
		c.log.Errorf("Issue decoding APDU: %v", err)
		return
	}
	handlers := map[btypes.PDUType]func(){
		btypes.UnconfirmedServiceRequest: func() { c.handleUnconfirmed(src, npdu, &apdu) },
		btypes.SimpleAck:                 func() { c.tsm.Send(int(apdu.InvokeId), b) },
		btypes.ComplexAck:                func() { c.tsm.Send(int(apdu.InvokeId), b) },
		btypes.Error: func() {
			text := apdu.Error
			c.tsm.Send(int(apdu.InvokeId), fmt.Errorf("error class %s code %s", text.Class.String(), text.Code.String()))
		},
	}
	if handle, ok := handlers[apdu.DataType]; ok {
		handle()
	}
}

func (c *client) handleUnconfirmed(src *btypes.Address, npdu *btypes.NPDU, apdu *btypes.APDU) {
	if apdu.UnconfirmedService != btypes.ServiceUnconfirmedIAm {
		return
	}
	var iam btypes.IAm
	if err := encoding.NewDecoder(apdu.RawData).IAm(&iam); err != nil {
		c.log.Error(err)
		return
	}
	iam.Addr = *src
	if via := npdu.Source; via != nil {
		if via.Net != 0 {
			iam.Addr.Net = via.Net
		}
		if len(via.Adr) != 0 {
			iam.Addr.Adr = via.Adr
		}
	}
	c.utsm.Publish(int(iam.ID.Instance), iam)
}
''')
fn(D, 'func (c *client) Send(', '''
func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broadcastType *SetBroadcastType) (int, error) {
	function := btypes.BacFunc(btypes.BacFuncUnicast)
	switch {
	case broadcastType != nil && broadcastType.Set:
		function = broadcastType.BacFunc
	case len(dest.Adr) == 0 && (dest.IsBroadcast() || dest.IsSubBroadcast()):
		function = btypes.BacFuncBroadcast
	}
	e := encoding.NewEncoder()
	if err := e.BVLC(btypes.BVLC{
		Type:     btypes.BVLCTypeBacnetIP,
		Function: function,
		Length:   uint16(len(data) + mtuHeaderLength),
		Data:     data,
	}); err != nil {
		return 0, err
	}
	return c.dataLink.Send(e.Bytes(), npdu, &dest)
}
''')
# datalink
L = 'datalink/udp.go'
fn(L, 'func (c *udpDataLink) Receive(', '''
func (c *udpDataLink) Receive(data []byte) (*btypes.Address, int, error) {
	n, from, err := c.listener.ReadFromUDPAddrPort(data)
	if err != nil {
		return nil, n, err
	}
	ip := from.Addr().Unmap().As4()
	return UDPToAddress(&net.UDPAddr{IP: ip[:], Port: int(from.Port())}), n, nil
}
''')
fn(L, 'func (c *udpDataLink) Send(', '''
func (c *udpDataLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	d, err := dest.UDPAddr()
	if err != nil {
		return 0, err
	}
	return c.listener.WriteToUDP(data, &d)
}
''')
fn(L, 'func UDPToAddress(', '''
func UDPToAddress(n *net.UDPAddr) *btypes.Address {
	mac := make([]uint8, 0, net.IPv4len+2)
	if ip := n.IP.To4(); ip != nil {
		mac = append(mac, ip...)
	} else {
		mac = append(mac, 0, 0, 0, 0)
	}
	mac = append(mac, uint8(n.Port>>8), uint8(n.Port))
	return &btypes.Address{Mac: mac, MacLen: uint8(len(mac))}
}
''')
