package vrt

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"
)

// Conn is a connection to a peer played by the scenario. Its state belongs to
// the controller.
type Conn struct {
	s    *Sched
	Name string

	in       []byte // sent by the peer, not yet read
	closed   bool   // by this side
	ended    bool   // by the peer, in order
	reset    bool   // by the peer or the network, abruptly
	stalled  bool   // the peer takes no more data
	deadline int64  // 0: none
	wdeadl   int64

	Written []byte
	// OnWrite sees what this side sends.
	OnWrite func(b []byte)
	// OnClose is told that this side closed the connection.
	OnClose func()
	// CloseFails makes Close, which closes all the same, report an error.
	CloseFails bool
	// Cut says how many of n bytes a read gets; nil: all, or any part at the
	// cost of a deviation.
	Cut func(n int) int
	// Reads is called when a read got data.
	OnRead func(n int)
}

// ioSync orders a read after all earlier writes, as package net does.
var ioSync byte

// NewConn makes a connection.
func (s *Sched) NewConn(name string) *Conn {
	c := &Conn{s: s, Name: name}
	s.conns = append(s.conns, c)
	return c
}

// Deliver lets data arrive.
func (c *Conn) Deliver(b []byte) {
	if c.closed || c.ended || c.reset {
		return
	}
	c.in = append(c.in, b...)
	c.s.Logf("%s: %d bytes arrive", c.Name, len(b))
}

// End lets the peer close the connection.
func (c *Conn) End() {
	if !c.closed {
		c.s.Logf("%s: closed by the peer", c.Name)
		c.ended = true
	}
}

// Reset breaks the connection.
func (c *Conn) Reset() {
	if !c.closed {
		c.s.Logf("%s: reset", c.Name)
		c.reset = true
		c.in = nil
	}
}

// Stall makes writes block.
func (c *Conn) Stall(on bool) {
	c.s.Logf("%s: stalled %v", c.Name, on)
	c.stalled = on
}

// Lost says whether the peer's end is gone.
func (c *Conn) Lost() bool { return c.ended || c.reset }

// Closed says whether this side closed the connection.
func (c *Conn) Closed() bool { return c.closed }

// Pending is the number of bytes that arrived and were not read yet.
func (c *Conn) Pending() int { return len(c.in) }

const (
	ioOK = iota
	ioClosed
	ioReset
	ioEOF
	ioTimeout
)

func opError(op string, n int) error {
	var err error
	switch n {
	case ioOK:
		return nil
	case ioEOF:
		return io.EOF
	case ioClosed:
		err = net.ErrClosed
	case ioTimeout:
		err = os.ErrDeadlineExceeded
	case ioReset:
		err = os.NewSyscallError(op, syscall.ECONNRESET)
		if op == "write" {
			err = os.NewSyscallError(op, syscall.EPIPE)
		}
	}
	return &net.OpError{Op: op, Net: "tcp", Addr: c0, Source: c0, Err: err}
}

var c0 = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000}

func (c *Conn) Read(p []byte) (int, error) {
	t := current()
	if t == nil || t.dead() {
		return 0, opError("read", ioClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	late := func() bool { return c.deadline != 0 && c.s.now >= c.deadline }
	t.request("read", true, func() bool {
		return c.closed || c.ended || c.reset || late() || len(c.in) > 0
	}, func() int64 {
		if c.deadline == 0 {
			return -1
		}
		return c.deadline
	}, func(t *Thread) {
		s := c.s
		t.n, t.data = ioOK, nil
		switch {
		case c.closed:
			t.n = ioClosed
		case late() && (len(c.in) == 0 || c.deadline < s.now || !s.DevFrom || s.C.Deviate(2) == 1):
			t.n = ioTimeout
		case c.reset:
			t.n = ioReset
		case len(c.in) > 0:
			n := len(c.in)
			if n > len(p) {
				n = len(p)
			}
			if c.Cut != nil {
				n = c.Cut(n)
			} else if s.DevFrom && n > 1 {
				// 1: all but the last byte; 2: only the first; 3: half
				switch s.C.Deviate(4) {
				case 1:
					n--
				case 2:
					n = 1
				case 3:
					n = (n + 1) / 2
				}
			}
			t.data = c.in[:n:n]
			c.in = c.in[n:]
			if c.OnRead != nil {
				c.OnRead(n)
			}
			if s.C.Tracing() {
				s.Logf("%s: %d bytes read", c.Name, n)
			}
		default:
			t.n = ioEOF
		}
	})
	n := copy(p, t.data)
	if n > 0 {
		Acquire(unsafe.Pointer(&ioSync))
		wrote(unsafe.Pointer(&p[0]), n)
	}
	return n, opError("read", t.n)
}

func (c *Conn) Write(p []byte) (int, error) {
	t := current()
	if t == nil || t.dead() {
		return 0, opError("write", ioClosed)
	}
	if len(p) > 0 {
		read(unsafe.Pointer(&p[0]), len(p))
	}
	data := append([]byte(nil), p...)
	Release(unsafe.Pointer(&ioSync))
	late := func() bool { return c.wdeadl != 0 && c.s.now >= c.wdeadl }
	t.request("write", true, func() bool { return c.closed || c.reset || late() || !c.stalled }, func() int64 {
		if c.wdeadl == 0 {
			return -1
		}
		return c.wdeadl
	}, func(t *Thread) {
		t.n = ioOK
		switch {
		case c.closed:
			t.n = ioClosed
		case c.reset:
			t.n = ioReset
		case c.stalled || c.wdeadl != 0 && c.wdeadl < c.s.now:
			t.n = ioTimeout
		case c.ended && c.s.DevFrom && c.s.C.Deviate(2) == 1:
			// the first write after the peer is gone may still seem to work
			c.reset = true
			t.n = ioReset
		default:
			c.Written = append(c.Written, data...)
			if c.s.C.Tracing() {
				c.s.Logf("%s: %d bytes sent", c.Name, len(data))
			}
			if c.OnWrite != nil && !c.ended {
				c.OnWrite(data)
			}
		}
	})
	if t.n != ioOK {
		return 0, opError("write", t.n)
	}
	return len(p), nil
}

func (c *Conn) Close() error {
	t := current()
	if t == nil || t.dead() {
		return nil
	}
	t.request("close", true, nil, nil, func(t *Thread) {
		t.n = ioOK
		if c.closed {
			t.n = ioClosed
			return
		}
		c.closed = true
		if c.CloseFails {
			t.n = ioReset
		}
		if c.OnClose != nil {
			c.OnClose()
		}
	})
	return opError("close", t.n)
}

func (c *Conn) LocalAddr() net.Addr  { return c0 }
func (c *Conn) RemoteAddr() net.Addr { return c0 }

func toVirtual(d time.Time) int64 {
	if d.IsZero() {
		return 0
	}
	n := int64(d.Sub(epoch))
	if n <= 0 {
		n = 1
	}
	return n
}

func (c *Conn) setDeadline(d time.Time, r, w bool) error {
	t := current()
	if t == nil || t.dead() {
		return nil
	}
	at := toVirtual(d)
	t.request("set deadline", false, nil, nil, func(t *Thread) {
		t.n = ioOK
		if c.closed {
			t.n = ioClosed
			return
		}
		if r {
			c.deadline = at
		}
		if w {
			c.wdeadl = at
		}
	})
	return opError("set", t.n)
}

func (c *Conn) SetDeadline(d time.Time) error      { return c.setDeadline(d, true, true) }
func (c *Conn) SetReadDeadline(d time.Time) error  { return c.setDeadline(d, true, false) }
func (c *Conn) SetWriteDeadline(d time.Time) error { return c.setDeadline(d, false, true) }

// Dial asks the scenario for a connection.
func Dial(addr string) (net.Conn, error) {
	t := current()
	if t == nil || t.dead() {
		return nil, errors.New("no network")
	}
	t.request("dial", true, nil, nil, nil)
	var c *Conn
	t.request("dialled", true, nil, nil, func(t *Thread) {
		if t.s.OnDial != nil {
			c = t.s.OnDial(addr)
		}
		t.s.Logf("dial %s: %v", addr, c != nil)
	})
	if c == nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: c0, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	return c, nil
}
