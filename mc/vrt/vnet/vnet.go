// Package net stands in for package net under the controlled scheduler.
package net

import (
	"context"
	"fmt"
	"hash/fnv"
	real "net"
	"sync"
	"time"

	"verifmc/vrt"
)

type (
	Conn                = real.Conn
	Addr                = real.Addr
	Error               = real.Error
	OpError             = real.OpError
	AddrError           = real.AddrError
	DNSError            = real.DNSError
	ParseError          = real.ParseError
	TCPAddr             = real.TCPAddr
	UDPAddr             = real.UDPAddr
	IP                  = real.IP
	IPMask              = real.IPMask
	IPNet               = real.IPNet
	Listener            = real.Listener
	Buffers             = real.Buffers
	UnknownNetworkError = real.UnknownNetworkError
)

var (
	ErrClosed = real.ErrClosed
)

func Dial(network, address string) (Conn, error) { return vrt.Dial(address) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return vrt.Dial(address)
}
func JoinHostPort(h, p string) string                { return real.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error) { return real.SplitHostPort(s) }
func ParseIP(s string) IP                            { return real.ParseIP(s) }
func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	host, port, err := real.SplitHostPort(address)
	if err != nil || host == "" || real.ParseIP(host) != nil {
		return real.ResolveTCPAddr(network, address)
	}
	// made-up names get made-up numbers
	h := fnv.New32a()
	h.Write([]byte(host))
	n := h.Sum32()
	a, err := real.ResolveTCPAddr(network, real.JoinHostPort(fmt.Sprintf("10.%d.%d.%d", n>>16&0xff, n>>8&0xff, n&0xff), port))
	if err == nil {
		names.Store(a.IP.String(), host)
	}
	return a, err
}

var names sync.Map // IP to name

// Dialer opens connections.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return vrt.Dial(address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	return vrt.Dial(address)
}

// TCPConn is a connection dialled with DialTCP.
type TCPConn struct{ Conn }

func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) CloseRead() error                       { return nil }
func (c *TCPConn) CloseWrite() error                      { return nil }

func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	to := r.String()
	if host, ok := names.Load(r.IP.String()); ok {
		to = real.JoinHostPort(host.(string), fmt.Sprint(r.Port))
	}
	c, err := vrt.Dial(to)
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
