# Behaviour-preserving rewrite A of tsm, utsm, datalink, the receive loop and the single read. usage: a.py REPO
import sys, os
R = sys.argv[1]
def w(f, s): open(os.path.join(R, f), 'w').write(s)
def sub(f, *prs):
    p = os.path.join(R, f); s = open(p).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)

w('tsm/transactions.go', '''package tsm

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"
)

// MaxTransaction is the default max number of transactions that can occur
// concurrently
const MaxTransaction = 255
const invalidID = 0

var errReleased = errors.New("released")

// transaction is what one request needs
type transaction struct {
	id       int
	data     chan interface{}
	released chan struct{}
	once     sync.Once
}

func newTransaction(id int) *transaction {
	return &transaction{id: id, data: make(chan interface{}), released: make(chan struct{})}
}

func (x *transaction) release() { x.once.Do(func() { close(x.released) }) }

// deliver hands b to the receiver, or tells that there will be none
func (x *transaction) deliver(b interface{}) error {
	for {
		select {
		case x.data <- b:
			return nil
		case _, more := <-x.released:
			if !more {
				return errReleased
			}
		}
	}
}

// await is the receiving side of deliver
func (x *transaction) await(expired <-chan time.Time) (b interface{}, ok bool, err error) {
	select {
	case b, ok = <-x.data:
		return b, ok, nil
	case <-x.released:
		return nil, false, errReleased
	case <-expired:
		return nil, false, nil
	}
}

type table struct {
	sync.RWMutex
	slots [MaxTransaction]*transaction
}

func (t *table) find(id int) *transaction {
	if id <= invalidID || id >= MaxTransaction {
		return nil
	}
	t.RLock()
	defer t.RUnlock()
	return t.slots[id]
}

func (t *table) swap(id int, x *transaction) (old *transaction) {
	if id <= invalidID || id >= MaxTransaction {
		return nil
	}
	t.Lock()
	old, t.slots[id] = t.slots[id], x
	t.Unlock()
	return old
}

// TSM is the transaction state manager. It handles passing data to other
// processes and keeping track of what transactions are currently processed
type TSM struct {
	table table
	ids   chan int
	space chan struct{}
}

// New creates a new transaction manager
func New(size int) *TSM {
	t := &TSM{ids: make(chan int, MaxTransaction), space: make(chan struct{}, size)}
	fill := func(ch chan<- int) {
		for i := invalidID + 1; i < MaxTransaction; i++ {
			ch <- i
		}
	}
	fill(t.ids)
	return t
}

// Send data to invoked id
func (t *TSM) Send(id int, b interface{}) error {
	if x := t.table.find(id); x != nil {
		if err := x.deliver(b); err != nil {
			return fmt.Errorf("id %d was %w", id, err)
		}
		return nil
	}
	return fmt.Errorf("id %d is not receiving", id)
}

// Receive attempts to receive a byte array from the invoked id. If a time out
// period has passed then an error is returned
func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
	x := t.table.find(id)
	if x == nil {
		return nil, fmt.Errorf("id %d is not sending", id)
	}
	timer := time.NewTimer(timeout)
	defer func() {
		if !timer.Stop() {
			select {
			case <-timer.C:
			default:
			}
		}
	}()
	switch b, ok, err := x.await(timer.C); {
	case err != nil:
		return nil, fmt.Errorf("id %d was %w", id, err)
	case ok:
		return b, nil
	}
	return nil, fmt.Errorf("receive timed out (%v)", timeout)
}

// ID returns the invoke id that was used to save the state of this connection.
func (t *TSM) ID(ctx context.Context) (int, error) {
	quit := ctx.Done()
	select {
	case t.space <- struct{}{}:
	case <-quit:
		return 0, fmt.Errorf("no free space: %v", ctx.Err())
	}
	id, err := t.freeID(quit)
	if err != nil {
		<-t.space
		return 0, err
	}
	t.table.swap(id, newTransaction(id))
	return id, nil
}

func (t *TSM) freeID(quit <-chan struct{}) (id int, err error) {
	select {
	case id = <-t.ids:
	case <-quit:
		err = errors.New("unable to get a free id")
	}
	return
}

// Put allows the id to be reused in the transaction manager
func (t *TSM) Put(id int) error {
	x := t.table.swap(id, nil)
	if x == nil {
		return fmt.Errorf("id %d does not exist in the transactions", id)
	}
	x.release()
	t.ids <- id
	<-t.space
	return nil
}
''')

sub('utsm/subscriber.go', ('''	var store []interface{}
	s := m.newSubscriber(start, end, options)
	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
	defer cancel()

	for {
		c, can := context.WithTimeout(ctx, s.getTimeout())
		defer can()

		select {
		case <-c.Done():
			if ctx.Err() == nil && s.getTimeout() > 0 {
				// Something was published just before the timeout.
				continue
			}
			close(s.done)
			m.removeSubscriber(s)
			// Nobody sends any more, but the last publication may be waiting.
			select {
			case b := <-s.data:
				store = append(store, b)
			default:
			}
			return store, nil
		case b := <-s.data:
			store = append(store, b)
		}
	}
}
''', '''	s := m.newSubscriber(start, end, options)
	overall := time.NewTimer(s.timeout)
	defer overall.Stop()
	store := s.collect(overall.C)
	m.leave(s)
	// Nobody sends any more, but the last publication may be waiting.
	for n := len(s.data); n > 0; n-- {
		store = append(store, <-s.data)
	}
	return store, nil
}

// collect returns what is published until the end or a pause
func (s *subscriber) collect(end <-chan time.Time) (store []interface{}) {
	pause := time.NewTimer(s.getTimeout())
	defer pause.Stop()
loop:
	for {
		select {
		case <-end:
			break loop
		case <-pause.C:
			// Something may have been published just before the timeout.
			left := s.getTimeout()
			if left <= 0 {
				break loop
			}
			pause.Reset(left)
		case b := <-s.data:
			store = append(store, b)
		}
	}
	return store
}

func (m *Manager) leave(s *subscriber) {
	defer m.removeSubscriber(s)
	close(s.done)
}
'''), ('''	"context"
''', ''))

sub('utsm/utsm.go', ('''	m.mutex.Lock()
	defer m.mutex.Unlock()

	for _, s := range m.subs {
		if id >= s.start && id <= s.end {
			s.mutex.Lock()
			s.lastReceived = time.Now()
			s.mutex.Unlock()
			// The subscriber needs its mutex to get here, and it may be leaving.
			select {
			case <-s.done:
				// Nothing more, also if there is room: it may have missed something.
				continue
			default:
			}
			select {
			case s.data <- data:
			case <-s.done:
			}
		}
	}
}
''', '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	m.each(func(s *subscriber) {
		if s.wants(id) {
			s.touch(time.Now())
			s.offer(s.data, data)
		}
	})
}

func (m *Manager) each(f func(*subscriber)) {
	for i := 0; i < len(m.subs); i++ {
		f(m.subs[i])
	}
}

func (s *subscriber) wants(id int) bool { return s.start <= id && id <= s.end }

func (s *subscriber) touch(now time.Time) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	s.lastReceived = now
}

// gone: nothing more, also if there is room: it may have missed something.
func (s *subscriber) gone() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

func (s *subscriber) offer(to chan<- interface{}, data interface{}) {
	if s.gone() {
		return
	}
	select {
	case <-s.done:
	case to <- data:
	}
}
'''), ('''	for i, s := range m.subs {
		if s == sub {
			// https://github.com/golang/go/wiki/SliceTricks
			// Prevents a memory leak that may occur when deleting

			// Shift
			copy(m.subs[i:], m.subs[i+1:])

			// Set last value nil
			m.subs[len(m.subs)-1] = nil

			// Remove last value
			m.subs = m.subs[:len(m.subs)-1]
			return
		}
	}
''', '''	var rest []*subscriber
	m.each(func(s *subscriber) {
		if s != sub {
			rest = append(rest, s)
		}
	})
	m.subs = rest
'''))

sub('datalink/udp.go', ('''	n, adr, err := c.listener.ReadFromUDP(data)
	if err != nil {
		return nil, n, err
	}
	adr.IP = adr.IP.To4()
	udpAddr := UDPToAddress(adr)
	return udpAddr, n, nil
''', '''	n, from, err := c.listener.ReadFrom(data)
	if err != nil {
		return nil, n, err
	}
	adr, ok := from.(*net.UDPAddr)
	if !ok {
		return nil, n, fmt.Errorf("unexpected address %v", from)
	}
	return UDPToAddress(adr), n, nil
'''), ('''	return c.listener.WriteTo(data, &d)
''', '''	var n int
	n, err = c.listener.WriteToUDP(data, &d)
	return n, err
'''), ('''	a := &btypes.Address{}
	p := uint16(n.Port)
	// Length of IP plus the port
	length := net.IPv4len + 2
	a.Mac = make([]uint8, length)
	//Encode ip (an IPv4 address may be given in 4 or in 16 bytes)
	ip := n.IP.To4()
	for i := 0; i < len(ip); i++ {
		a.Mac[i] = ip[i]
	}
	// Encode port
	a.Mac[net.IPv4len+0] = uint8(p >> 8)
	a.Mac[net.IPv4len+1] = uint8(p & 0x00FF)

	a.MacLen = uint8(length)
	return a
''', '''	mac := [net.IPv4len + 2]uint8{}
	copy(mac[:net.IPv4len], n.IP.To4())
	mac[net.IPv4len], mac[net.IPv4len+1] = uint8(n.Port>>8), uint8(n.Port)
	return &btypes.Address{Mac: mac[:], MacLen: uint8(len(mac))}
'''), ('''	broadcast := net.IP(make([]byte, 4))
	for i := range broadcast {
		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
	}

	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
	if err != nil {
		return nil, err
	}
''', '''	broadcast := append(net.IP(nil), ipNet.IP...)
	for i, m := range ipNet.Mask {
		broadcast[i] |= ^m
	}

	udp := &net.UDPAddr{Port: port}
'''))

s = open(os.path.join(R, 'device.go')).read()
i = s.index('func (c *client) ClientRun() {'); j = s.index('// checkAck returns')
s = s[:i] + '''func (c *client) ClientRun() {
	for c.receiveOne() {
	}
}

func (c *client) receiveOne() bool {
	b, _ := c.readBufferPool.Get().([]byte)
	addr, n, err := c.dataLink.Receive(b)
	if err != nil {
		return false
	}
	go func(b []byte) {
		c.handleMsg(addr, b)
	}(b[:n])
	return true
}

func (c *client) handleMsg(src *btypes.Address, b []byte) {
	var header btypes.BVLC
	dec := encoding.NewDecoder(b)
	if err := dec.BVLC(&header); err != nil {
		c.log.Error(err)
		return
	}
	if header.Type != btypes.BVLCTypeBacnetIP {
		return
	}
	switch header.Function {
	case btypes.BacFuncForwardedNPDU:
		if len(b) < forwardHeaderLength {
			return
		}
		origin := &btypes.Address{MacLen: forwardHeaderLength - mtuHeaderLength}
		origin.Mac = make([]uint8, origin.MacLen)
		copy(origin.Mac, b[mtuHeaderLength:])
		src, dec = origin, encoding.NewDecoder(b[forwardHeaderLength:])
		fallthrough
	case btypes.BacFuncBroadcast, btypes.BacFuncUnicast:
		c.handleNPDU(src, dec)
	}
}

func (c *client) handleNPDU(src *btypes.Address, dec *encoding.Decoder) {
	npdu := btypes.NPDU{}
	networks, err := dec.NPDU(&npdu)
	if err != nil {
		return
	}
	if !npdu.IsNetworkLayerMessage {
		c.handleAPDU(src, npdu.Source, dec)
		return
	}
	var message interface{}
	switch npdu.NetworkLayerMessageType {
	case ndpu.NetworkIs:
		message = npdu
	case ndpu.IamRouterToNetwork:
		message = networks
	default:
		return
	}
	c.utsm.Publish(int(npdu.Source.Net), message)
}

func (c *client) handleAPDU(src, station *btypes.Address, dec *encoding.Decoder) {
	raw := append([]byte(nil), dec.Bytes()...)
	apdu := new(btypes.APDU)
	if err := dec.APDU(apdu); err != nil {
		c.log.Errorf("Issue decoding APDU: %v", err)
		return
	}
	id := int(apdu.InvokeId)
	answer := func(x interface{}) {
		if err := c.tsm.Send(id, x); err != nil {
			c.log.Debugf("unable to Send to %d: %v", id, err)
		}
	}
	switch t := apdu.DataType; {
	case t == btypes.SimpleAck || t == btypes.ComplexAck:
		answer(raw)
	case t == btypes.Error:
		answer(fmt.Errorf("error class %v code %v", apdu.Error.Class, apdu.Error.Code))
	case t == btypes.UnconfirmedServiceRequest && apdu.UnconfirmedService == btypes.ServiceUnconfirmedIAm:
		var iam btypes.IAm
		if err := encoding.NewDecoder(apdu.RawData).IAm(&iam); err != nil {
			c.log.Error(err)
			return
		}
		iam.Addr = *src
		if station != nil {
			if station.Net != 0 {
				iam.Addr.Net = station.Net
			}
			if len(station.Adr) != 0 {
				iam.Addr.Adr = station.Adr
			}
		}
		c.utsm.Publish(int(iam.ID.Instance), iam)
	}
}

''' + s[j:]
open(os.path.join(R, 'device.go'), 'w').write(s)

s = open(os.path.join(R, 'readprop.go')).read()
i = s.index('	enc := encoding.NewEncoder()')
w('readprop.go', '''package bacnet

import (
	"context"
	"errors"
	"fmt"
	"log"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

// permanent is an error that trying again does not change
type permanent struct{ error }

func (c *client) withID(limit time.Duration, f func(id int) error) error {
	ctx, cancel := context.WithDeadline(context.TODO(), time.Now().Add(limit))
	defer cancel()
	id, err := c.tsm.ID(ctx)
	if err != nil {
		return fmt.Errorf("unable to get an transaction id: %v", err)
	}
	defer func() { _ = c.tsm.Put(id) }()
	return f(id)
}

func (c *client) requestHeader(dest *btypes.Address) *btypes.NPDU {
	return &btypes.NPDU{Version: btypes.ProtocolVersion, Destination: dest, Source: c.dataLink.GetMyAddress(),
		ExpectingReply: true, Priority: btypes.Normal, HopCount: btypes.DefaultHopCount}
}

// ReadProperty reads a single property from a single object in the given device.
func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (out btypes.PropertyData, err error) {
	err = c.withID(time.Second, func(id int) error {
		device.Addr.SetLength()
		npdu := c.requestHeader(&device.Addr)
		enc := encoding.NewEncoder()
		enc.NPDU(npdu)
		if err := enc.ReadProperty(uint8(id), rp); err != nil {
			return err
		}
		if err := enc.Error(); err != nil {
			return err
		}
		var last error
		for left := retryCount; left > 0; left-- {
			var got btypes.PropertyData
			if got, last = c.readOnce(id, device.Addr, npdu, enc.Bytes()); last == nil {
				out = got
				return nil
			}
			var p permanent
			if errors.As(last, &p) {
				return p.error
			}
		}
		return last
	})
	return
}

func (c *client) readOnce(id int, to btypes.Address, npdu *btypes.NPDU, request []byte) (out btypes.PropertyData, err error) {
	if _, err = c.Send(to, npdu, request, nil); err != nil {
		log.Print(err)
		return
	}
	var raw interface{}
	if raw, err = c.tsm.Receive(id, 5*time.Second); err != nil {
		return
	}
	b, isBytes := raw.([]byte)
	if !isBytes {
		if e, isErr := raw.(error); isErr {
			return out, permanent{e}
		}
		return out, permanent{fmt.Errorf("received unknown datatype %T", raw)}
	}
	dec := encoding.NewDecoder(b)
	apdu := btypes.APDU{}
	if err = dec.APDU(&apdu); err == nil {
		err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadProperty)
	}
	if err == nil {
		err = dec.ReadProperty(&out)
	}
	if err == nil && out.Object.Properties[0].Data == nil {
		err = errors.New("received an acknowledgement without a value")
	}
	return
}
''')
sub('device.go', ('	log "github.com/sirupsen/logrus"\n', '	log "github.com/sirupsen/logrus"\n')) 
