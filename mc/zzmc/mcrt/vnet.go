package mcrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"syscall"
	"time"
)

// Packet is a datagram on the simulated wire.
type Packet struct {
	FromIP   [4]byte
	FromPort int
	ToIP     [4]byte
	ToPort   int
	Data     []byte
	At       time.Duration
	Sock     *UDPConn
	From6    net.IP // the sender has an IPv6 address
}

func (p Packet) String() string {
	return fmt.Sprintf("%d.%d.%d.%d:%d->%d.%d.%d.%d:%d %x", p.FromIP[0], p.FromIP[1], p.FromIP[2], p.FromIP[3], p.FromPort,
		p.ToIP[0], p.ToIP[1], p.ToIP[2], p.ToIP[3], p.ToPort, p.Data)
}

type vnet struct {
	host    [4]byte
	socks   []*UDPConn
	onSend  func(p Packet)
	sendErr func(p Packet) error
	sent    []Packet
	ifaces  []viface
	ephem   int
}

type viface struct {
	name  string
	addrs []string
}

func newVnet() *vnet { return &vnet{host: [4]byte{10, 0, 0, 5}, ephem: 49152} }

// SetHost selects the host on which the next sockets are opened.
func SetHost(a, b, c, d byte) { s.net.host = [4]byte{a, b, c, d} }

// OnSend installs the handler of datagrams sent by the program under test.
func OnSend(f func(p Packet)) { s.net.onSend = f }

// OnSendErr installs a handler that may refuse to send a datagram.
func OnSendErr(f func(p Packet) error) { s.net.sendErr = f }

// AddInterface declares a network interface.
func AddInterface(name string, addrs ...string) {
	s.net.ifaces = push(s.net.ifaces, viface{name, addrs})
}

// Sent returns all datagrams sent so far.
func Sent() []Packet { return s.net.sent }

// OpenSockets counts the open sockets.
func OpenSockets() int {
	n := 0
	for _, c := range s.net.socks {
		if !c.closed {
			n++
		}
	}
	return n
}

// Sockets returns the open sockets.
func Sockets() []*UDPConn {
	var out []*UDPConn
	for _, c := range s.net.socks {
		if !c.closed {
			out = push(out, c)
		}
	}
	return out
}

// Inject puts a datagram into the receive queue of a socket.
func Inject(c *UDPConn, fromIP [4]byte, fromPort int, data []byte) {
	if inert() || c == nil || c.closed {
		return
	}
	c.q = push(c.q, Packet{FromIP: fromIP, FromPort: fromPort, ToIP: c.ip, ToPort: c.port, Data: append([]byte(nil), data...), At: NowNS()})
	c.wakeReaders()
}

// InjectAfter puts a datagram into the queue of a socket after a time; the data is copied now.
func InjectAfter(d time.Duration, c *UDPConn, fromIP [4]byte, fromPort int, data []byte) {
	b := append([]byte(nil), data...)
	After(d, "datagram", func() { Inject(c, fromIP, fromPort, b) })
}

// Inject6 does the same for a sender with an IPv6 address, which a socket for IPv4 does not hear.
func Inject6(c *UDPConn, from net.IP, fromPort int, data []byte) {
	if inert() || c == nil || c.closed || c.network == "udp4" {
		return
	}
	c.q = push(c.q, Packet{From6: from, FromPort: fromPort, ToIP: c.ip, ToPort: c.port, Data: append([]byte(nil), data...), At: NowNS()})
	c.wakeReaders()
}

// FailReceive makes the next receive on the socket fail.
func FailReceive(c *UDPConn, err error) {
	c.readErr = err
	c.wakeReaders()
}

// UDPConn is a socket on the simulated wire.
type UDPConn struct {
	ip       [4]byte
	port     int
	network  string
	laddr    *net.UDPAddr
	q        []Packet
	waiting  []*thread
	closed   bool
	readErr  error
	deadline time.Time
	dlTimer  *timer
	remote   *net.UDPAddr
}

func (c *UDPConn) wakeReaders() {
	for _, t := range c.waiting {
		s.makeReady(t)
	}
	c.waiting = nil
}

// ListenUDP opens a socket.
func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	if inert() {
		return nil, errors.New("no simulated network")
	}
	s.point("listen")
	n := s.net
	port := 0
	if laddr != nil {
		port = laddr.Port
	}
	if port == 0 {
		n.ephem++
		port = n.ephem
	}
	for _, c := range n.socks {
		if !c.closed && c.ip == n.host && c.port == port {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	c := &UDPConn{ip: n.host, port: port, network: network, laddr: laddr}
	n.socks = push(n.socks, c)
	return c, nil
}

// Network is the network name the socket was opened with.
func (c *UDPConn) Network() string { return c.network }

// Host is the address of the socket.
func (c *UDPConn) Host() ([4]byte, int) { return c.ip, c.port }

// LocalAddr implements net.PacketConn.
func (c *UDPConn) LocalAddr() net.Addr {
	ip := net.IPv4zero
	if c.laddr != nil && c.laddr.IP != nil {
		ip = c.laddr.IP
	}
	return &net.UDPAddr{IP: ip, Port: c.port}
}

// RemoteAddr implements net.Conn.
func (c *UDPConn) RemoteAddr() net.Addr { return nil }

var errClosed = net.ErrClosed

func (c *UDPConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: c.network, Source: c.LocalAddr(), Err: err}
}

// ReadFromUDP implements net.UDPConn.
func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	if inert() {
		return 0, nil, io.EOF
	}
	s.point("udp.read")
	for {
		if c.closed {
			return 0, nil, c.opErr("read", errClosed)
		}
		if c.readErr != nil {
			err := c.readErr
			c.readErr = nil
			return 0, nil, c.opErr("read", err)
		}
		if !c.deadline.IsZero() && !NowTime().Before(c.deadline) {
			return 0, nil, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(c.q) > 0 {
			p := c.q[0]
			c.q = rest(c.q)
			n := copy(b, p.Data)
			raceWrite(b[:n])
			if p.From6 != nil {
				return n, &net.UDPAddr{IP: append(net.IP{}, p.From6...), Port: p.FromPort}, nil
			}
			if c.network == "udp4" {
				return n, &net.UDPAddr{IP: net.IP{p.FromIP[0], p.FromIP[1], p.FromIP[2], p.FromIP[3]}, Port: p.FromPort}, nil
			}
			return n, &net.UDPAddr{IP: net.IPv4(p.FromIP[0], p.FromIP[1], p.FromIP[2], p.FromIP[3]), Port: p.FromPort}, nil
		}
		c.waiting = push(c.waiting, s.cur)
		s.block("udp.read")
	}
}

// ReadFrom implements net.PacketConn.
func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if err != nil {
		return n, nil, err
	}
	return n, a, nil
}

// Read implements net.Conn.
func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}

// ReadMsgUDP implements net.UDPConn.
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return n, 0, 0, addr, err
}

// WriteToUDP implements net.UDPConn.
func (c *UDPConn) WriteToUDP(b []byte, addr *net.UDPAddr) (int, error) {
	if inert() {
		return 0, io.EOF
	}
	if addr == nil {
		return 0, c.opErr("write", errors.New("missing address"))
	}
	s.point("udp.write")
	if c.closed {
		return 0, c.opErr("write", errClosed)
	}
	ip4 := addr.IP.To4()
	if ip4 == nil {
		if len(addr.IP) != 0 {
			return 0, c.opErr("write", &net.AddrError{Err: "non-IPv4 address", Addr: addr.IP.String()})
		}
		ip4 = net.IPv4zero.To4()
	}
	raceRead(b)
	p := Packet{FromIP: c.ip, FromPort: c.port, ToIP: [4]byte{ip4[0], ip4[1], ip4[2], ip4[3]}, ToPort: addr.Port,
		Data: append([]byte(nil), b...), At: NowNS(), Sock: c}
	if s.cfg.TraceOps {
		s.trace("  sends %v", p)
	}
	if s.net.sendErr != nil {
		if err := s.net.sendErr(p); err != nil {
			return 0, c.opErr("write", err)
		}
	}
	s.net.sent = push(s.net.sent, p)
	if s.net.onSend != nil {
		s.net.onSend(p)
	}
	return len(b), nil
}

// ReadFromUDPAddrPort implements net.UDPConn.
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (n int, addr netip.AddrPort, err error) {
	n, a, err := c.ReadFromUDP(b)
	if a != nil {
		addr = a.AddrPort()
	}
	return n, addr, err
}

// ReadMsgUDPAddrPort implements net.UDPConn.
func (c *UDPConn) ReadMsgUDPAddrPort(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {
	n, addr, err = c.ReadFromUDPAddrPort(b)
	return n, 0, 0, addr, err
}

// WriteToUDPAddrPort implements net.UDPConn.
func (c *UDPConn) WriteToUDPAddrPort(b []byte, addr netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, net.UDPAddrFromAddrPort(addr))
}

// WriteMsgUDPAddrPort implements net.UDPConn.
func (c *UDPConn) WriteMsgUDPAddrPort(b, oob []byte, addr netip.AddrPort) (n, oobn int, err error) {
	n, err = c.WriteToUDPAddrPort(b, addr)
	return n, 0, err
}

// WriteTo implements net.PacketConn.
func (c *UDPConn) WriteTo(b []byte, addr net.Addr) (int, error) {
	a, ok := addr.(*net.UDPAddr)
	if !ok {
		return 0, c.opErr("write", syscall.EINVAL)
	}
	return c.WriteToUDP(b, a)
}

// WriteMsgUDP implements net.UDPConn.
func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *net.UDPAddr) (n, oobn int, err error) {
	n, err = c.WriteToUDP(b, addr)
	return n, 0, err
}

// Write implements net.Conn.
func (c *UDPConn) Write(b []byte) (int, error) {
	return c.WriteToUDP(b, c.remote)
}

// Close closes the socket.
func (c *UDPConn) Close() error {
	if inert() {
		return nil
	}
	if c == nil {
		return syscall.EINVAL
	}
	s.point("udp.close")
	if c.closed {
		return c.opErr("close", errClosed)
	}
	c.closed = true
	c.wakeReaders()
	return nil
}

// SetDeadline implements net.Conn.
func (c *UDPConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// SetReadDeadline implements net.Conn.
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if inert() {
		return nil
	}
	s.point("udp.deadline")
	if c.closed {
		return c.opErr("set", errClosed)
	}
	if c.dlTimer != nil {
		s.removeTimer(c.dlTimer)
		c.dlTimer = nil
	}
	c.deadline = t
	if !t.IsZero() {
		c.dlTimer = s.addTimer(t.Sub(NowTime()), "read deadline", func() { c.dlTimer = nil; c.wakeReaders() })
	}
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }

// SetReadBuffer implements net.UDPConn.
func (c *UDPConn) SetReadBuffer(n int) error { return nil }

// SetWriteBuffer implements net.UDPConn.
func (c *UDPConn) SetWriteBuffer(n int) error { return nil }

// File implements net.UDPConn.
func (c *UDPConn) File() (*os.File, error) { return nil, errors.New("not supported") }

// SyscallConn implements net.UDPConn.
func (c *UDPConn) SyscallConn() (syscall.RawConn, error) { return nil, errors.New("not supported") }

// ---- interfaces ----

// Interface models net.Interface.
type Interface struct {
	Index        int
	MTU          int
	Name         string
	HardwareAddr net.HardwareAddr
	Flags        net.Flags
}

type strAddr string

func (a strAddr) Network() string { return "ip+net" }
func (a strAddr) String() string  { return string(a) }

// Addrs lists the addresses of the interface.
func (i *Interface) Addrs() ([]net.Addr, error) {
	var out []net.Addr
	if s == nil {
		return nil, nil
	}
	for _, v := range s.net.ifaces {
		if v.name != i.Name {
			continue
		}
		for _, a := range v.addrs {
			ip, n, err := net.ParseCIDR(a)
			if err != nil {
				out = append(out, strAddr(a))
				continue
			}
			out = append(out, &net.IPNet{IP: ip, Mask: n.Mask})
		}
	}
	return out, nil
}

// MulticastAddrs lists no addresses.
func (i *Interface) MulticastAddrs() ([]net.Addr, error) { return nil, nil }

// InterfaceByName finds a declared interface.
func InterfaceByName(name string) (*Interface, error) {
	if s != nil {
		for i, v := range s.net.ifaces {
			if v.name == name {
				return &Interface{Index: i + 1, MTU: 1500, Name: name, Flags: net.FlagUp | net.FlagBroadcast}, nil
			}
		}
	}
	return nil, &net.OpError{Op: "route", Net: "ip+net", Err: errors.New("no such network interface")}
}

// Interfaces lists the declared interfaces.
func Interfaces() ([]Interface, error) {
	var out []Interface
	if s != nil {
		for i, v := range s.net.ifaces {
			out = push(out, Interface{Index: i + 1, MTU: 1500, Name: v.name, Flags: net.FlagUp | net.FlagBroadcast})
		}
	}
	return out, nil
}
