// Package net replaces the standard package in rewritten code: datagram sockets on a simulated wire.
package net

import (
	"context"
	"errors"
	"net"
	"strconv"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
)

type UDPConn = mcrt.UDPConn
type Interface = mcrt.Interface

func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	return mcrt.ListenUDP(network, laddr)
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	c, err := mcrt.ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	return net.ResolveUDPAddr(network, address)
}

type ListenConfig struct {
	Control   func(network, address string, c interface{}) error
	KeepAlive int64
}

func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

func InterfaceByName(name string) (*Interface, error) { return mcrt.InterfaceByName(name) }
func Interfaces() ([]Interface, error)                { return mcrt.Interfaces() }
func InterfaceAddrs() ([]net.Addr, error) {
	ifs, _ := mcrt.Interfaces()
	var out []net.Addr
	for i := range ifs {
		a, _ := ifs[i].Addrs()
		out = append(out, a...)
	}
	return out, nil
}

var errNoDial = errors.New("dial is not simulated")

func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) { return nil, errNoDial }
func Dial(network, address string) (net.Conn, error)                     { return nil, errNoDial }

var _ = strconv.Itoa
