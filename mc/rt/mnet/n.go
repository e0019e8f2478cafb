//go:build go1.21

// Package mnet models the UDP sockets and stream listeners used by
// influx-spout.
package mnet

import (
	"errors"
	"fmt"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

// Network is the modelled host network.
type Network struct {
	udp []*UDPConn
	tcp []*Binding
	// ReadErr, when set, may return an error for a UDP read.
	ReadErr func(c *UDPConn) error
	// BufErr, when set, may return an error for setting a buffer size.
	BufErr func() error
	// BindErr, when set, may return an error for a bind.
	BindErr func(network string, port int) error
}

// N is the network of the current execution.
var N *Network

// Setup creates a fresh network.
func Setup() *Network {
	N = &Network{}
	return N
}

// Binding is a bound TCP port.
type Binding struct {
	Port    int
	Closed  bool
	OnClose func()
}

// BindTCP binds a TCP port.
func (n *Network) BindTCP(port int) (*Binding, error) {
	if n.BindErr != nil {
		if err := n.BindErr("tcp", port); err != nil {
			return nil, err
		}
	}
	for _, b := range n.tcp {
		if b.Port == port && !b.Closed {
			return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	b := &Binding{Port: port}
	n.tcp = append(n.tcp, b)
	return b, nil
}

// TCPBound reports whether port is bound.
func (n *Network) TCPBound(port int) bool {
	for _, b := range n.tcp {
		if b.Port == port && !b.Closed {
			return true
		}
	}
	return false
}

// TCPPorts returns the bound TCP ports.
func (n *Network) TCPPorts() []int {
	var out []int
	for _, b := range n.tcp {
		if !b.Closed {
			out = append(out, b.Port)
		}
	}
	return out
}

// UDPBound reports whether a UDP port is bound.
func (n *Network) UDPBound(port int) bool { return n.UDP(port) != nil }

// UDP returns the socket bound to port.
func (n *Network) UDP(port int) *UDPConn {
	for _, c := range n.udp {
		if c.port == port && !c.closed {
			return c
		}
	}
	return nil
}

// UDPConn models net.UDPConn.
type UDPConn struct {
	port     int
	queue    [][]byte
	errs     []error // parallel to queue: a read error instead of a datagram
	w        mcrt.Waiter
	closed   bool
	deadline int64
	Bufsize  int
	Reads    int
	Dropped  int
}

// ListenUDP binds a UDP socket.
func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	mcrt.Yield("udp-listen")
	port := 0
	if laddr != nil {
		port = laddr.Port
	}
	if N.BindErr != nil {
		if err := N.BindErr("udp", port); err != nil {
			return nil, err
		}
	}
	if N.UDP(port) != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	c := &UDPConn{port: port}
	N.udp = append(N.udp, c)
	return c, nil
}

// PacketConn is net.PacketConn.
type PacketConn = net.PacketConn

// ListenPacket binds a datagram socket.
func ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := net.ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return ListenUDP(network, a)
}

// Send queues a datagram on the socket.
func (c *UDPConn) Send(b []byte) {
	d := make([]byte, len(b))
	mcrt.CopyBytes(d, b)
	c.queue = append(c.queue, d)
	c.errs = append(c.errs, nil)
	c.w.WakeAll()
}

// SendErr lets one read fail.
func (c *UDPConn) SendErr(err error) {
	c.queue = append(c.queue, nil)
	c.errs = append(c.errs, err)
	c.w.WakeAll()
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (c *UDPConn) readTo(b []byte) (int, error) {
	dl := c.deadline
	if dl == 0 {
		dl = -1
	}
	ok := mcrt.BlockUntil("udp-read", &c.w, dl, func() bool { return len(c.queue) > 0 || c.closed })
	if c.closed {
		return 0, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
	}
	if !ok || dl >= 0 && mcrt.NowNanos() >= dl {
		// (an expired deadline wins over queued datagrams)
		return 0, &net.OpError{Op: "read", Net: "udp", Err: timeoutErr{}}
	}
	if err := c.errs[0]; err != nil {
		c.queue = append(c.queue[:0:0], c.queue[1:]...)
		c.errs = append(c.errs[:0:0], c.errs[1:]...)
		return 0, &net.OpError{Op: "read", Net: "udp", Err: err}
	}
	if N.ReadErr != nil {
		if err := N.ReadErr(c); err != nil {
			return 0, &net.OpError{Op: "read", Net: "udp", Err: err}
		}
	}
	c.Reads++
	d := c.queue[0]
	c.queue = append(c.queue[:0:0], c.queue[1:]...)
	c.errs = append(c.errs[:0:0], c.errs[1:]...)
	n := mcrt.CopyBytes(b, d)
	mcrt.RaceWrite(b[:n])
	return n, nil
}

func (c *UDPConn) Read(b []byte) (int, error) { return c.readTo(b) }
func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, err := c.readTo(b)
	return n, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000}, err
}
func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, err := c.readTo(b)
	return n, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000}, err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (int, int, int, *net.UDPAddr, error) {
	n, a, err := c.ReadFromUDP(b)
	return n, 0, 0, a, err
}
func (c *UDPConn) Write(b []byte) (int, error)                      { return len(b), nil }
func (c *UDPConn) WriteTo(b []byte, _ net.Addr) (int, error)        { return len(b), nil }
func (c *UDPConn) WriteToUDP(b []byte, _ *net.UDPAddr) (int, error) { return len(b), nil }
func (c *UDPConn) Close() error {
	mcrt.Yield("udp-close")
	if c.closed {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	c.closed = true
	c.w.WakeAll()
	return nil
}
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return net.ErrClosed
	}
	if t.IsZero() {
		c.deadline = 0
	} else {
		c.deadline = t.UnixNano()
	}
	c.w.WakeAll()
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error {
	if c.closed {
		return net.ErrClosed
	}
	if n <= 0 {
		return errors.New("invalid buffer size")
	}
	if N.BufErr != nil {
		if err := N.BufErr(); err != nil {
			return err
		}
	}
	c.Bufsize = n
	return nil
}
func (c *UDPConn) SetWriteBuffer(int) error { return nil }
func (c *UDPConn) LocalAddr() net.Addr {
	return &net.UDPAddr{IP: net.IPv4zero, Port: c.port}
}
func (c *UDPConn) RemoteAddr() net.Addr { return nil }

// Pending returns the number of unread datagrams.
func (c *UDPConn) Pending() int { return len(c.queue) }

// ParsePort returns the port of a listen address.
func ParsePort(addr string) (int, error) {
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return 0, err
	}
	n := 0
	if p == "http" || p == "" {
		return 80, nil
	}
	if p == "https" {
		return 443, nil
	}
	for _, r := range p {
		if r < '0' || r > '9' {
			return 0, fmt.Errorf("bad port %q", p)
		}
		n = n*10 + int(r-'0')
	}
	if n > 65535 {
		return 0, fmt.Errorf("invalid port %q", p)
	}
	return n, nil
}

// Listener models net.Listener for stream sockets.
type Listener struct {
	b    *Binding
	addr string
	w    mcrt.Waiter
}

// Listen binds a stream listener (only usable with the modelled
// http.Server).
func Listen(network, address string) (net.Listener, error) {
	mcrt.Yield("listen")
	port, err := ParsePort(address)
	if err != nil {
		return nil, err
	}
	b, err := N.BindTCP(port)
	if err != nil {
		return nil, err
	}
	return &Listener{b: b, addr: address}, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	mcrt.BlockUntil("accept", &l.w, -1, func() bool { return l.b.Closed })
	return nil, net.ErrClosed
}
func (l *Listener) Close() error {
	mcrt.Yield("listener-close")
	l.b.Closed = true
	l.w.WakeAll()
	if l.b.OnClose != nil {
		l.b.OnClose()
	}
	return nil
}
func (l *Listener) Addr() net.Addr  { return &net.TCPAddr{Port: l.b.Port} }
func (l *Listener) Bound() *Binding { return l.b }
