package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"net"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
	ip2bytes "github.com/NubeDev/bacnet/helpers/ipbytes"
	"github.com/NubeDev/bacnet/helpers/validation"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P26: addresses

func station(ip ip4, port int) []byte {
	return []byte{ip[0], ip[1], ip[2], ip[3], byte(port >> 8), byte(port)}
}

// checkAddr: all ways to make and to read the station address agree.
func checkAddr(c *xp.C, ip ip4, port int) {
	want := station(ip, port)
	four := func() net.IP { return net.IP{ip[0], ip[1], ip[2], ip[3]} }
	for i, a := range []*btypes.Address{
		datalink.UDPToAddress(&net.UDPAddr{IP: four(), Port: port}),
		datalink.UDPToAddress(&net.UDPAddr{IP: four().To16(), Port: port}),
		datalink.IPPortToAddress(four(), port),
		datalink.IPPortToAddress(four().To16(), port),
	} {
		c.Step()
		if a == nil || !bytes.Equal(a.Mac, want) || int(a.MacLen) != 6 || a.Net != 0 || len(a.Adr) != 0 {
			c.Fail("%v port %d becomes the station address %+v (conversion %d)", ip, port, a, i)
		}
		u, err := a.UDPAddr()
		if err != nil || !u.IP.Equal(four()) || u.Port != port || u.Zone != "" {
			c.Fail("the station address % x becomes %v, %v", a.Mac, u, err)
		}
		if b := datalink.UDPToAddress(&u); b == nil || !bytes.Equal(b.Mac, want) {
			c.Fail("%v port %d there and back is %+v", ip, port, b)
		}
	}
	s := fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3])
	if b, err := ip2bytes.New(s, uint16(port)); err != nil || !bytes.Equal(b, want) {
		c.Fail("ip2bytes.New(%s, %d) = % x, %v", s, port, b, err)
	}
	dev, err := btypes.NewDevice(&btypes.Device{Ip: s, Port: port})
	if port == 0 {
		want = station(ip, bacPort)
	}
	if err != nil || dev == nil || !bytes.Equal(dev.Addr.Mac, want) {
		c.Fail("a device at %s port %d has the address %+v, %v", s, port, dev, err)
	}
}

// validIP4 is the rule for dotted quads; sure is false where opinions differ (leading zeros).
func quad(parts []string) (ok, sure bool) {
	sure = true
	if len(parts) != 4 {
		return false, true
	}
	for _, p := range parts {
		if p == "" || len(p) > 3 {
			return false, true
		}
		n := 0
		for _, r := range p {
			if r < '0' || r > '9' {
				return false, true
			}
			n = n*10 + int(r-'0')
		}
		if n > 255 {
			return false, true
		}
		if len(p) > 1 && p[0] == '0' {
			sure = false
		}
	}
	return true, sure
}

// stubLink is a data link of the caller.
type stubLink struct {
	sock   *mcrt.UDPConn
	sent   [][]byte
	dest   []btypes.Address
	closed int
}

var stubMy = btypes.Address{Mac: []byte{10, 0, 0, 77, 3, 231}, MacLen: 6}
var stubBc = btypes.Address{Mac: []byte{10, 0, 0, 127, 0xBA, 0xC5}, MacLen: 6}

func (l *stubLink) GetMyAddress() *btypes.Address        { a := stubMy; return &a }
func (l *stubLink) GetBroadcastAddress() *btypes.Address { a := stubBc; return &a }
func (l *stubLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	l.sent = append(l.sent, append([]byte{}, data...))
	l.dest = append(l.dest, *dest)
	m, s := parse(mcrt.Packet{Data: data})
	if s != "" {
		mcrt.Fail("%s", s)
	} else if m.confirmed {
		mcrt.Inject(l.sock, ipDevA, bacPort, plain(ref.Cat([]byte{0x30, m.id, m.svc}, m.service, ref.Cat(ref.Open(3), ref.App(float32(1.5)), ref.Close(3)))))
	}
	return len(data), nil
}
func (l *stubLink) Receive(b []byte) (*btypes.Address, int, error) {
	n, a, err := l.sock.ReadFromUDP(b)
	if err != nil {
		return nil, 0, err
	}
	ip := a.IP.To4()
	return &btypes.Address{Mac: station(ip4{ip[0], ip[1], ip[2], ip[3]}, a.Port), MacLen: 6}, n, nil
}
func (l *stubLink) Close() error { l.closed++; return l.sock.Close() }

func bcast(ip ip4, bits int) ip4 {
	v := uint32(ip[0])<<24 | uint32(ip[1])<<16 | uint32(ip[2])<<8 | uint32(ip[3])
	for i := 0; i < 32-bits; i++ {
		v |= 1 << uint(i)
	}
	return ip4{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func text(ip ip4) string { return fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]) }

// checkLink: a link has the given address and the broadcast address that follows from it.
func checkLink(what string, l datalink.DataLink, ip ip4, bits, port int) {
	a, b := l.GetMyAddress(), l.GetBroadcastAddress()
	if a == nil || !bytes.Equal(a.Mac, station(ip, port)) || a.MacLen != 6 {
		mcrt.Fail("%s: own address %+v", what, a)
	}
	bc := bcast(ip, bits)
	if b == nil || !bytes.Equal(b.Mac, station(bc, bacPort)) && !bytes.Equal(b.Mac, station(bc, port)) || b.MacLen != 6 {
		mcrt.Fail("%s: broadcast address %+v instead of %v", what, b, bc)
	}
}

func init() {
	ips := []ip4{{0, 0, 0, 0}, {255, 255, 255, 255}, {10, 0, 0, 5}, {192, 168, 15, 10}, {1, 2, 3, 4}, {127, 0, 0, 1}, {128, 127, 129, 255}, {255, 0, 255, 0}}
	// every port
	xp.Add(&xp.Unit{Prop: "P26", Name: "ports", NoReset: true, Seq: func(c *xp.C) {
		hi := c.Choose(256)
		for lo := 0; lo < 256; lo++ {
			for _, ip := range ips {
				checkAddr(c, ip, hi<<8|lo)
			}
		}
		c.Note("%v", hi == 0)
	}})
	// every value of every byte of the address, and all combinations of telling bytes
	xp.Add(&xp.Unit{Prop: "P26", Name: "ips", NoReset: true, Seq: func(c *xp.C) {
		bs := []byte{0, 1, 10, 127, 128, 172, 254, 255}
		if c.Bool() {
			var ip ip4
			for i := range ip {
				ip[i] = bs[c.Choose(len(bs))]
			}
			for _, p := range []int{0, 1, 255, 256, 47808, 65535} {
				checkAddr(c, ip, p)
			}
			c.Note("combination")
		} else {
			ip := ip4{11, 22, 33, 44}
			i := c.Choose(4)
			for v := 0; v < 256; v++ {
				ip[i] = byte(v)
				checkAddr(c, ip, 47808)
			}
			c.Note("byte")
		}
	}})
	// no other length is an IP address
	xp.Add(&xp.Unit{Prop: "P26", Name: "lengths", NoReset: true, Seq: func(c *xp.C) {
		n := c.Choose(257)
		a := btypes.Address{Mac: make([]byte, n), MacLen: byte(c.Choose(8))}
		if n == 256 {
			a.Mac = nil
		}
		for i := range a.Mac {
			a.Mac[i] = byte(i + 1)
		}
		u, err := a.UDPAddr()
		c.Step()
		if (err == nil) != (n == 6) {
			c.Fail("a station address of %d bytes becomes %v, %v", len(a.Mac), u, err)
		}
		if n == 6 && (!u.IP.Equal(net.IPv4(1, 2, 3, 4)) || u.Port != 0x506) {
			c.Fail("% x becomes %v", a.Mac, u)
		}
		c.Note("%v", err == nil)
	}})
	xp.Add(&xp.Unit{Prop: "P26", Name: "valid-ports", NoReset: true, Seq: func(c *xp.C) {
		check := func(p int) {
			c.Step()
			if got := validation.ValidPort(p); got != (p >= 0 && p <= 65535) {
				c.Fail("ValidPort(%d) = %v", p, got)
			}
		}
		k := c.Choose(270)
		if k < 260 {
			for i := 0; i < 256; i++ {
				check(k<<8 | i)
			}
		} else {
			k -= 260
			for _, p := range []int{-1, -k, -80 * k, -47808, -65535, -65536, -65537, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 47808, 100000 * (k + 1), 655360 + k, 478080 + k, 1000000 * (k + 1)} {
				if p != 0 {
					check(p)
				}
			}
		}
		c.Note("%v", k < 256)
	}})
	xp.Add(&xp.Unit{Prop: "P26", Name: "valid-addresses", NoReset: true, Seq: func(c *xp.C) {
		octets := []string{"0", "1", "10", "255", "256", "-1", "", "01", "a", "999", " 1", "1000"}
		n := c.Choose(6)
		var parts []string
		s := ""
		for i := 0; i < n; i++ {
			if n == 5 && i > 1 {
				parts = append(parts, "1")
			} else {
				parts = append(parts, octets[c.Choose(len(octets))])
			}
			if i > 0 {
				s += "."
			}
			s += parts[i]
		}
		ok, sure := quad(parts)
		if !sure {
			return
		}
		c.Step()
		if got := validation.ValidIP(s); got != ok {
			c.Fail("ValidIP(%q) = %v", s, got)
		}
		for _, bits := range []int{-1000, -1, 0, 1, 8, 24, 31, 32, 33, 64, 128, 129, 2000, math.MaxInt64, math.MinInt64} {
			if got := validation.ValidCIDR(s, bits); got != (ok && bits >= 0 && bits <= 32) {
				c.Fail("ValidCIDR(%q, %d) = %v", s, bits, got)
			}
		}
		if _, err := ip2bytes.New(s, 47808); err == nil != ok {
			c.Fail("ip2bytes.New(%q) gives %v", s, err)
		}
		c.Note("%v", ok)
	}})
	xp.Add(&xp.Unit{Prop: "P26", Name: "valid-prefixes", NoReset: true, Seq: func(c *xp.C) {
		ip := ips[c.Choose(len(ips))]
		for bits := -400; bits <= 400; bits++ {
			c.Step()
			if got := validation.ValidCIDR(text(ip), bits); got != (bits >= 0 && bits <= 32) {
				c.Fail("ValidCIDR(%s, %d) = %v", text(ip), bits, got)
			}
		}
		c.Note("ok")
	}})
	// devices are not built from unusable addresses
	xp.Add(&xp.Unit{Prop: "P26", Name: "device-addresses", NoReset: true, Seq: func(c *xp.C) {
		is := []string{"10.0.0.20", "256.1.1.1", "x", "10.0.0", "10.0.0.20/24", ""}
		ps := []int{0, 1, 47808, 65535, 65536, 70000, -1, 1 << 32}
		i, p := c.Choose(len(is)), c.Choose(len(ps))
		d, err := btypes.NewDevice(&btypes.Device{Ip: is[i], Port: ps[p], DeviceID: 5})
		c.Step()
		if ok := i == 0 && p < 4; ok != (err == nil) {
			c.Fail("a device at %q port %d: %+v, %v", is[i], ps[p], d, err)
		}
		c.Note("%v", err == nil)
	}})
	// the addresses of a link, for every prefix length
	xp.Add(&xp.Unit{Prop: "P26", Name: "broadcast", Cfg: plainCfg, Body: func() {
		bits := mcrt.Choose(33, "prefix length")
		ip := ips[mcrt.Choose(len(ips), "ip")]
		port := []int{0, bacPort, 47809, 1, 65535}[mcrt.Choose(5, "port")]
		way := mcrt.Choose(3, "way")
		var l datalink.DataLink
		var err error
		cidr := fmt.Sprintf("%s/%d", text(ip), bits)
		switch way {
		case 0:
			l, err = datalink.NewUDPDataLinkFromIP(text(ip), bits, port)
		case 1:
			l, err = datalink.NewUDPDataLink(cidr, port)
		case 2:
			mcrt.AddInterface("lo", "127.0.0.1/8")
			mcrt.AddInterface("eth0", "fe80::1/64", cidr, "10.9.9.9/16")
			l, err = datalink.NewUDPDataLink("eth0", port)
		}
		what := fmt.Sprintf("link at %s port %d (way %d)", cidr, port, way)
		if err != nil || l == nil {
			mcrt.Fail("%s: %v", what, err)
			return
		}
		if port == 0 {
			port = bacPort
		}
		checkLink(what, l, ip, bits, port)
		if s := mcrt.Sockets(); len(s) != 1 {
			mcrt.Fail("%s has %d sockets", what, len(s))
		} else if _, p := s[0].Host(); p != port {
			mcrt.Fail("%s listens on port %d", what, p)
		}
		mcrt.Log("%d", way)
	}})
	// every configuration of a client
	xp.Add(&xp.Unit{Prop: "P26", Name: "clients", Cfg: plainCfg, Weight: 2, Body: func() {
		mcrt.AddInterface("lo", "127.0.0.1/8")
		mcrt.AddInterface("eth0", "10.0.0.5/24")
		mcrt.AddInterface("eth6", "fe80::1/64")
		mcrt.AddInterface("eth46", "fe80::1/64", "10.1.2.3/20")
		mcrt.AddInterface("none")
		type place struct {
			s    string
			ip   ip4
			bits int // -1: no usable address
		}
		ifaces := []place{{"", ip4{}, -2}, {"eth0", ip4{10, 0, 0, 5}, 24}, {"10.0.0.5/26", ip4{10, 0, 0, 5}, 26}, {"eth46", ip4{10, 1, 2, 3}, 20},
			{"eth1", ip4{}, -1}, {"eth6", ip4{}, -1}, {"none", ip4{}, -1}, {"10.0.0.5/33", ip4{}, -1}, {"10.0.0/24", ip4{}, -1}, {"fe80::1/64", ip4{}, -1}, {"/", ip4{}, -1}}
		addrs := []string{"10.0.0.5", "192.168.1.200", "", "10.0.0.256", "host", "10.0.0", "fe80::1"}
		prefixes := []int{24, 8, 30, 32, 1, 33, -1, 300, 0}
		ports := []int{bacPort, 0, 47809, 1, 65535, -1, 65536, 1 << 40}
		sizes := []uint16{0, 50, 480, 1476, 1497, 65535}
		port := ports[mcrt.Choose(len(ports), "port")]
		cb := &bacnet.ClientBuilder{Port: port}
		cb.MaxPDU = sizes[mcrt.Choose(len(sizes), "size")]
		badPort := port < 0 || port > 65535
		if port == 0 {
			port = bacPort
		}
		var stub *stubLink
		want := place{bits: -1}
		unsure := false
		switch mcrt.Choose(3, "by") {
		case 0:
			l, err := mcrt.ListenUDP("udp4", &net.UDPAddr{Port: 999})
			if err != nil {
				mcrt.Fail("%v", err)
			}
			stub = &stubLink{sock: l}
			cb.DataLink = stub
			switch mcrt.Choose(3, "with") {
			case 1:
				cb.Interface = "eth0"
			case 2:
				cb.Ip, cb.SubnetCIDR = "10.0.0.5", 24
			}
			unsure = badPort
		case 1:
			want = ifaces[1+mcrt.Choose(len(ifaces)-1, "interface")]
			cb.Interface = want.s
		case 2:
			i, p := mcrt.Choose(len(addrs), "ip"), mcrt.Choose(len(prefixes), "prefix")
			cb.Ip, cb.SubnetCIDR = addrs[i], prefixes[p]
			if i < 2 && prefixes[p] >= 0 && prefixes[p] <= 32 {
				want = place{"", ip4{10, 0, 0, 5}, prefixes[p]}
				if i == 1 {
					want.ip = ip4{192, 168, 1, 200}
				}
				unsure = prefixes[p] == 0 // not given
			}
		}
		if want.bits >= 0 {
			mcrt.SetHost(want.ip[0], want.ip[1], want.ip[2], want.ip[3])
		}
		what := fmt.Sprintf("client %+v", *cb)
		given := *cb
		cli, err := bacnet.NewClient(cb)
		if *cb != given {
			mcrt.Fail("%s changes its configuration to %+v", what, *cb)
		}
		if ok := (stub != nil || want.bits >= 0) && !badPort; ok != (err == nil) && !unsure {
			mcrt.Fail("%s: %v", what, err)
		}
		if err != nil {
			if mcrt.OpenSockets() != 0 && stub == nil {
				mcrt.Fail("%s fails and leaves a socket open", what)
			}
			mcrt.Log("error")
			return
		}
		if n := len(mcrt.Sockets()); n != 1 {
			mcrt.Fail("%s opens %d sockets", what, n)
		}
		sock := mcrt.Sockets()[0]
		run := mcrt.GoHarness("receive", cli.ClientRun)
		settle()
		// it sends from its port to its broadcast address, and receives on its port
		dev := simpleDevice(ipDevA, 100)
		prop := btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 1}, Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}}}
		if stub != nil {
			if _, err := cli.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1}); err != nil {
				mcrt.Fail("%s: WhoIs %v", what, err)
			}
			if len(stub.sent) != 1 || !bytes.Equal(stub.dest[0].Mac, stubBc.Mac) {
				mcrt.Fail("%s sends % x to %+v", what, stub.sent, stub.dest)
			}
			got, err := cli.ReadProperty(dev, prop)
			if err != nil || len(stub.sent) != 2 || !bytes.Equal(stub.dest[1].Mac, dev.Addr.Mac) || len(got.Object.Properties) != 1 || got.Object.Properties[0].Data != float32(1.5) {
				mcrt.Fail("%s: reads %+v, %v; sent % x to %+v", what, got, err, stub.sent, stub.dest)
			}
			if len(mcrt.Sent()) != 0 {
				mcrt.Fail("%s sends %v past its data link", what, mcrt.Sent())
			}
			if cli.Close(); stub.closed != 1 {
				mcrt.Fail("%s closes its data link %d times", what, stub.closed)
			}
		} else {
			if _, p := sock.Host(); p != port {
				mcrt.Fail("%s listens on port %d", what, p)
			}
			bc, n := bcast(want.ip, want.bits), 0
			mcrt.OnSend(func(p mcrt.Packet) {
				n++
				m, s := parse(p)
				if s != "" {
					mcrt.Fail("%s: %s", what, s)
					return
				}
				if m.confirmed {
					if p.ToIP != ipDevA || p.ToPort != bacPort {
						mcrt.Fail("%s sends %v", what, p)
					}
					mcrt.Inject(sock, ipDevA, bacPort, plain(ref.Cat([]byte{0x30, m.id, m.svc}, m.service, ref.Cat(ref.Open(3), ref.App(float32(1.5)), ref.Close(3)))))
				} else if p.ToIP != bc && !(unsure && p.ToIP == bcast(want.ip, 32)) || p.ToPort != bacPort && p.ToPort != port {
					mcrt.Fail("%s sends %v", what, p)
				}
			})
			if _, err := cli.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1}); err != nil {
				mcrt.Fail("%s: WhoIs %v", what, err)
			}
			got, err := cli.ReadProperty(dev, prop)
			if err != nil || n != 2 || len(got.Object.Properties) != 1 || got.Object.Properties[0].Data != float32(1.5) {
				mcrt.Fail("%s: reads %+v, %v; %d datagrams", what, got, err, n)
			}
			cli.Close()
		}
		run.Join()
		if mcrt.OpenSockets() != 0 {
			mcrt.Fail("%s leaves a socket open", what)
		}
		mcrt.Log("ok")
	}})
	// a port that is in use
	xp.Add(&xp.Unit{Prop: "P26", Name: "port-in-use", Cfg: plainCfg, Body: func() {
		cb := &bacnet.ClientBuilder{Port: bacPort}
		if mcrt.Choose(2, "by") == 0 {
			cb.Interface = "10.0.0.5/24"
		} else {
			cb.Ip, cb.SubnetCIDR = "10.0.0.5", 24
		}
		a, err := bacnet.NewClient(cb)
		if err != nil {
			mcrt.Fail("%v", err)
			return
		}
		if b, err := bacnet.NewClient(cb); err == nil || b != nil {
			mcrt.Fail("a second client on the same port: %v, %v", b, err)
		}
		a.Close()
		b, err := bacnet.NewClient(cb)
		if err != nil {
			mcrt.Fail("a client on a port that was given back: %v", err)
			return
		}
		b.Close()
		mcrt.Log("ok")
	}})
	_ = errors.New
}
