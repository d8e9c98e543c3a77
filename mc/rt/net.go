package rt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"time"
)

// half is one direction of an in-memory connection.
type half struct {
	obj     Obj
	buf     []byte
	wclosed bool // writer closed: reader sees EOF after draining
	rclosed bool // reader closed: writes fail
	reset   bool // reader sees a reset instead of a clean EOF
	rw      []*G // blocked readers
	ww      []*G // blocked writers
	limit   int  // 0: unbounded
}

// Conn is one end of an in-memory connection.
type Conn struct {
	Name   string
	in     *half
	out    *half
	closed bool
	rdl    int64 // read deadline, 0 none
	rdlT   *vtimer
	wdl    int64
	wdlT   *vtimer
	Chunk  int // at most this many bytes per Read (0: no limit)
	q      bool
	peer   *Conn
	// Written counts bytes handed to Write; Writes is every Write's payload length.
	Writes []int
	FailW  error // next writes fail with this error
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var errReset = errors.New("connection reset by peer")
var errPipe = errors.New("broken pipe")

func opErr(op string, e error) error { return &net.OpError{Op: op, Net: "tcp", Err: e} }

// Pipe makes a connected pair.
func Pipe(name string) (*Conn, *Conn) {
	ab, ba := &half{}, &half{}
	a := &Conn{Name: name + ".a", in: ba, out: ab}
	b := &Conn{Name: name + ".b", in: ab, out: ba}
	a.peer, b.peer = b, a
	if S != nil {
		S.conns++
	}
	return a, b
}

// Peer is the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// LimitOut bounds the number of bytes in flight from this end.
func (c *Conn) LimitOut(n int) { c.out.limit = n }

// IsClosed reports whether this end was closed locally.
func (c *Conn) IsClosed() bool { return c.closed }

// Buffered is the number of bytes waiting to be read at this end.
func (c *Conn) Buffered() int { return len(c.in.buf) }

// PeerClosed reports whether the other end has closed its writing side.
func (c *Conn) PeerClosed() bool { return c.in.wclosed }

func (c *Conn) wakeR(h *half) {
	for _, g := range h.rw {
		S.unblock(g)
	}
	h.rw = nil
}
func (c *Conn) wakeW(h *half) {
	for _, g := range h.ww {
		S.unblock(g)
	}
	h.ww = nil
}

func (c *Conn) Read(p []byte) (int, error) {
	s := S
	if s == nil {
		return 0, io.EOF
	}
	s.point("net.Read")
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		s.touch(&c.in.obj, 81)
		if c.rdl != 0 && s.clock >= c.rdl {
			return 0, opErr("read", timeoutErr{})
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			n := len(c.in.buf)
			if n > len(p) {
				n = len(p)
			}
			if c.Chunk > 0 && n > c.Chunk {
				n = c.Chunk
			}
			copy(p, c.in.buf[:n])
			c.in.buf = c.in.buf[n:]
			c.wakeW(c.in)
			s.acquire(&c.in.obj)
			s.tr("net.Read %s %d bytes", c.Name, n)
			return n, nil
		}
		if c.in.reset {
			return 0, opErr("read", errReset)
		}
		if c.in.wclosed {
			s.acquire(&c.in.obj)
			s.tr("net.Read %s EOF", c.Name)
			return 0, io.EOF
		}
		c.in.rw = append(c.in.rw, s.cur)
		s.block("net.Read " + c.Name)
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	s := S
	if s == nil {
		return 0, errPipe
	}
	s.point("net.Write")
	n := 0
	c.Writes = append(c.Writes, len(p))
	for {
		if c.closed {
			return n, opErr("write", net.ErrClosed)
		}
		s.touch(&c.out.obj, 82)
		if c.FailW != nil {
			return n, opErr("write", c.FailW)
		}
		if c.wdl != 0 && s.clock >= c.wdl {
			return n, opErr("write", timeoutErr{})
		}
		if c.out.rclosed {
			return n, opErr("write", errPipe)
		}
		room := len(p) - n
		if c.out.limit > 0 {
			if r := c.out.limit - len(c.out.buf); r < room {
				room = r
			}
		}
		if room > 0 || len(p) == n {
			c.out.buf = append(c.out.buf, p[n:n+room]...)
			s.release(&c.out.obj)
			n += room
			c.wakeR(c.out)
		}
		if n == len(p) {
			s.tr("net.Write %s %d bytes", c.Name, n)
			return n, nil
		}
		c.out.ww = append(c.out.ww, s.cur)
		s.block("net.Write " + c.Name)
	}
}

func (c *Conn) Close() error {
	s := S
	if s == nil || s.dead {
		c.closed = true
		return nil
	}
	s.point("net.Close")
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	s.touch(&c.out.obj, 83)
	s.touch(&c.in.obj, 84)
	s.release(&c.out.obj)
	c.out.wclosed = true
	c.in.rclosed = true
	for _, h := range []*half{c.in, c.out} {
		c.wakeR(h)
		c.wakeW(h)
	}
	if c.rdlT != nil {
		s.delTimer(c.rdlT)
	}
	if c.wdlT != nil {
		s.delTimer(c.wdlT)
	}
	s.tr("net.Close %s", c.Name)
	return nil
}

// CloseWrite half-closes.
func (c *Conn) CloseWrite() error {
	s := S
	s.point("net.CloseWrite")
	s.touch(&c.out.obj, 85)
	c.out.wclosed = true
	c.wakeR(c.out)
	return nil
}

// Reset closes abruptly: the peer's pending input is discarded.
func (c *Conn) Reset() {
	s := S
	s.point("net.Reset")
	s.touch(&c.out.obj, 86)
	s.touch(&c.in.obj, 87)
	c.closed = true
	c.out.reset = true
	c.out.buf = nil
	c.out.wclosed = true
	c.in.rclosed = true
	for _, h := range []*half{c.in, c.out} {
		c.wakeR(h)
		c.wakeW(h)
	}
}

func (c *Conn) LocalAddr() net.Addr  { return addr(c.Name) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Name + "-remote") }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) setdl(t time.Time, dl *int64, tm **vtimer, wake func()) error {
	s := S
	if s == nil || s.dead {
		return nil
	}
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	if *tm != nil {
		s.delTimer(*tm)
		*tm = nil
	}
	if t.IsZero() {
		*dl = 0
		return nil
	}
	w := int64(t.Sub(base))
	if w <= 0 {
		w = 1 // long past
	}
	*dl = w
	if w <= s.clock {
		wake()
		return nil
	}
	*tm = s.addTimer(w, "deadline "+c.Name, func() { *tm = nil; wake() })
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	return c.setdl(t, &c.rdl, &c.rdlT, func() { c.wakeR(c.in) })
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	return c.setdl(t, &c.wdl, &c.wdlT, func() { c.wakeW(c.out) })
}

// Listen registers a server for dials to host:port.
func Listen(hostport string, fn func(*Conn)) { S.listenFns[hostport] = fn }

// NetDialer stands in for net.Dialer.
type NetDialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
}

func (d *NetDialer) Dial(network, address string) (net.Conn, error) {
	s := S
	if s == nil {
		return nil, errors.New("rt: dial outside of an execution")
	}
	if s.dead {
		runtime.Goexit()
	}
	s.point("dial")
	f := s.listenFns[address]
	if f == nil {
		return nil, opErr("dial", fmt.Errorf("connection refused (%s)", address))
	}
	a, b := Pipe("dial" + fmt.Sprint(s.conns))
	a.Name, b.Name = fmt.Sprintf("cli%d", s.conns), fmt.Sprintf("srv%d", s.conns)
	f(b)
	return a, nil
}

func (d *NetDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	return d.Dial(network, address)
}
