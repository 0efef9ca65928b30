// Package net replaces the part of package net that listens and names interfaces.
package net

import (
	"context"
	"errors"
	real "net"
	"strconv"
	"syscall"
	"time"

	rt "ZZSIM/rt"
)

// Interface replaces net.Interface.
type Interface struct {
	Index        int
	MTU          int
	Name         string
	HardwareAddr real.HardwareAddr
	Flags        real.Flags
	ips          []string
}

// Addrs lists the interface's addresses.
func (i *Interface) Addrs() ([]real.Addr, error) {
	if a, _ := rt.HookEvent("net.addrs"); a != "" {
		return nil, errors.New("route ip+net: no such network interface")
	}
	var out []real.Addr
	for _, s := range i.ips {
		ip := real.ParseIP(s)
		bits := 128
		if ip.To4() != nil {
			bits = 32
		}
		out = append(out, &real.IPNet{IP: ip, Mask: real.CIDRMask(bits/4, bits)})
	}
	return out, nil
}

// Interfaces lists the host's interfaces.
func Interfaces() ([]Interface, error) {
	h := rt.HostOf()
	var out []Interface
	for i, ip := range h.IPs {
		n := Interface{Index: i + 1, MTU: 1500, Flags: real.FlagUp | real.FlagRunning, ips: []string{ip}}
		if i == 0 {
			n.Name = "lo"
			n.Flags |= real.FlagLoopback
			n.ips = append(n.ips, "::1")
		} else {
			n.Name = "eth" + strconv.Itoa(i-1)
			n.ips = append(n.ips, "fe80::"+strconv.Itoa(i))
		}
		out = append(out, n)
	}
	return out, nil
}

// InterfaceByName finds an interface.
func InterfaceByName(name string) (*Interface, error) {
	is, _ := Interfaces()
	for i := range is {
		if is[i].Name == name {
			return &is[i], nil
		}
	}
	return nil, &real.OpError{Op: "route", Net: "ip+net", Err: errors.New("no such network interface")}
}

// InterfaceByIndex finds an interface.
func InterfaceByIndex(index int) (*Interface, error) {
	is, _ := Interfaces()
	for i := range is {
		if is[i].Index == index {
			return &is[i], nil
		}
	}
	return nil, &real.OpError{Op: "route", Net: "ip+net", Err: errors.New("no such network interface")}
}

// ResolveTCPAddr is net.ResolveTCPAddr for literal addresses.
func ResolveTCPAddr(network, address string) (*real.TCPAddr, error) {
	host, port, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	a := &real.TCPAddr{IP: real.ParseIP(host)}
	if host == "localhost" {
		a.IP = real.IPv4(127, 0, 0, 1)
	}
	if a.Port, err = strconv.Atoi(port); err != nil || host != "" && a.IP == nil {
		return nil, &real.AddrError{Err: "unknown address", Addr: address}
	}
	return a, nil
}

// InterfaceAddrs lists the host's addresses.
func InterfaceAddrs() ([]real.Addr, error) {
	is, _ := Interfaces()
	var out []real.Addr
	for i := range is {
		a, err := is[i].Addrs()
		if err != nil {
			return nil, err
		}
		out = append(out, a...)
	}
	return out, nil
}

// SimListener is a simulated listening socket.
type SimListener struct{ L *rt.Listener }

func (l *SimListener) Accept() (real.Conn, error) {
	return nil, errors.New("raw connections are not simulated")
}

func (l *SimListener) Close() error {
	if !l.L.Close() {
		return &real.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: real.ErrClosed}
	}
	return nil
}

func (l *SimListener) Addr() real.Addr {
	ip := real.ParseIP(l.L.IP)
	if l.L.IP == "" {
		ip = real.IPv6unspecified
	}
	if l.L.IP == "localhost" {
		ip = real.IPv4(127, 0, 0, 1)
	}
	return &real.TCPAddr{IP: ip, Port: l.L.Port}
}

// Listen is net.Listen.
func Listen(network, address string) (real.Listener, error) {
	if _, _, err := real.SplitHostPort(address); err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	l, e := rt.Listen(address)
	if e != 0 {
		return nil, &real.OpError{Op: "listen", Net: network, Err: e}
	}
	return &SimListener{l}, nil
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
}

// Listen is ListenConfig.Listen.
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}

// Dial and friends are not simulated as raw connections.
func Dial(network, address string) (real.Conn, error) {
	return nil, &real.OpError{Op: "dial", Net: network, Err: errors.New("raw connections are not simulated")}
}

// DialTimeout is not simulated either.
func DialTimeout(network, address string, timeout time.Duration) (real.Conn, error) {
	return Dial(network, address)
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) { return Dial(network, address) }

func (d *Dialer) DialContext(ctx context.Context, network, address string) (real.Conn, error) {
	return Dial(network, address)
}
