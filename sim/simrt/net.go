package simrt

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
)

type addr struct {
	ip   string
	port int
}

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return net.JoinHostPort(a.ip, strconv.Itoa(a.port)) }

// Listener is a simulated listening socket.
type Listener struct {
	inc     *Incarnation
	a       addr
	backlog []*Conn
	Closed  bool
}

func (l *Listener) Addr() net.Addr { return l.a }
func (l *Listener) Port() int      { return l.a.port }

// Listen is net.Listen.
func Listen(network, address string) (net.Listener, error) {
	w := W
	inc := w.current().inc
	fail := func(err error) (net.Listener, error) {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", err)}
	}
	if inc.Dead {
		return fail(syscall.EIO)
	}
	host, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	port := 0
	if ps != "" {
		port, err = strconv.Atoi(ps)
		if err != nil || port < 0 || port > 65535 {
			return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: ps}}
		}
	}
	if f := FindFault(inc, "listen", "net"); f != nil {
		return fail(errnoOf(f.Kind))
	}
	if host == "" {
		host = "::"
	}
	if host == "localhost" {
		host = "127.0.0.1"
	}
	if net.ParseIP(host) == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
	}
	if port == 0 {
		port = 40001
		for w.portInUse(inc, port) {
			port++
		}
	} else if w.portInUse(inc, port) {
		return fail(syscall.EADDRINUSE)
	}
	l := &Listener{inc: inc, a: addr{host, port}}
	inc.Listeners = append(inc.Listeners, l)
	w.Event("listen %s", l.a)
	return l, nil
}

func (w *World) portInUse(inc *Incarnation, port int) bool {
	if w.BusyPorts[port] {
		return true
	}
	for _, l := range inc.Listeners {
		if !l.Closed && l.a.port == port {
			return true
		}
	}
	return false
}

func (l *Listener) Accept() (net.Conn, error) {
	killed := Block("accept "+l.a.String(), func() bool { return l.Closed || len(l.backlog) > 0 })
	if killed || l.inc.Dead {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	if l.Closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
	}
	if f := FindFault(l.inc, "accept", "net"); f != nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: os.NewSyscallError("accept4", errnoOf(f.Kind))}
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	c.Accepted = true
	W.Event("accept conn %d", c.No)
	return c, nil
}

func (l *Listener) Close() error {
	if l.Closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
	}
	l.Closed = true
	for _, c := range l.backlog {
		c.RemoteGone = true
	}
	l.backlog = nil
	if !l.inc.Dead {
		W.Event("listener closed %s", l.a)
	}
	return nil
}

// Conn is the server's end of a simulated connection. The client's end is driven by the harness.
type Conn struct {
	No       int
	inc      *Incarnation
	local    addr
	remote   addr
	Accepted bool

	in         []byte // from the client, not yet read
	InEOF      bool   // the client closed its sending side
	Reset      bool   // the client aborted
	out        []byte // from the server, not yet taken by the client
	Window     int    // bytes the server may have outstanding
	Closed     bool   // the server closed its end
	WrShut     bool
	RemoteGone bool // never accepted

	rdl, wdl time.Time
	MaxRead  int // largest chunk a single Read returns (0: any)
	Received int // bytes written by the server in total
}

// Dial connects a client to port; nil if nobody listens there.
func (w *World) Dial(inc *Incarnation, port int, window int) *Conn {
	if inc == nil || inc.Dead {
		return nil
	}
	for _, l := range inc.Listeners {
		if !l.Closed && l.a.port == port {
			inc.connSeq++
			c := &Conn{No: inc.connSeq, inc: inc, local: addr{"127.0.0.1", port}, remote: addr{"127.0.0.1", 50000 + inc.connSeq}, Window: window}
			if c.Window <= 0 {
				c.Window = 1 << 20
			}
			inc.Conns = append(inc.Conns, c)
			l.backlog = append(l.backlog, c)
			return c
		}
	}
	return nil
}

func (c *Conn) gone() bool { return c.Closed || c.inc.Dead }

// Send gives bytes to the server.
func (c *Conn) Send(b []byte) { c.in = append(c.in, b...) }

// Unread is how many bytes sent by the client the server has not read yet.
func (c *Conn) Unread() int { return len(c.in) }

// Take removes up to n bytes from what the server sent.
func (c *Conn) Take(n int) []byte {
	if n > len(c.out) {
		n = len(c.out)
	}
	b := append([]byte(nil), c.out[:n]...)
	c.out = c.out[n:]
	return b
}

// Pending is what the server sent and the client has not taken.
func (c *Conn) Pending() int { return len(c.out) }

// ServerDone reports that the server will send nothing more.
func (c *Conn) ServerDone() bool { return c.Closed || c.WrShut || c.RemoteGone || c.inc.Dead }

// Killed reports that the server process ended.
func (c *Conn) Killed() bool { return c.inc.Dead }

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) Read(b []byte) (int, error) {
	fail := func(err error) (int, error) {
		return 0, &net.OpError{Op: "read", Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
	}
	if c.gone() {
		return fail(net.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	killed := Block(fmt.Sprintf("conn %d read", c.No), func() bool {
		return len(c.in) > 0 || c.InEOF || c.Reset || c.gone() || expired(c.rdl)
	})
	switch {
	case killed || c.gone():
		return fail(net.ErrClosed)
	case expired(c.rdl):
		return fail(os.ErrDeadlineExceeded)
	case c.Reset:
		return fail(os.NewSyscallError("read", syscall.ECONNRESET))
	case len(c.in) > 0:
		n := len(b)
		if c.MaxRead > 0 && n > c.MaxRead {
			n = c.MaxRead
		}
		n = copy(b[:n], c.in)
		c.in = c.in[n:]
		return n, nil
	default:
		return 0, io.EOF
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	done := 0
	fail := func(err error) (int, error) {
		return done, &net.OpError{Op: "write", Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
	}
	for {
		if c.gone() {
			return fail(net.ErrClosed)
		}
		killed := Block(fmt.Sprintf("conn %d write", c.No), func() bool {
			return len(c.out) < c.Window || c.Reset || c.gone() || expired(c.wdl)
		})
		switch {
		case killed || c.gone():
			return fail(net.ErrClosed)
		case expired(c.wdl):
			return fail(os.ErrDeadlineExceeded)
		case c.Reset:
			return fail(os.NewSyscallError("write", syscall.EPIPE))
		case c.WrShut:
			return fail(os.NewSyscallError("write", syscall.EPIPE))
		}
		n := c.Window - len(c.out)
		if n > len(b)-done {
			n = len(b) - done
		}
		c.out = append(c.out, b[done:done+n]...)
		c.Received += n
		done += n
		if done == len(b) {
			return done, nil
		}
	}
}

func (c *Conn) Close() error {
	if c.Closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.Closed = true
	return nil
}

// CloseWrite is TCPConn.CloseWrite.
func (c *Conn) CloseWrite() error {
	if c.gone() {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.WrShut = true
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	return c.dlErr()
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	return c.dlErr()
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	return c.dlErr()
}
func (c *Conn) dlErr() error {
	if c.gone() {
		return &net.OpError{Op: "set", Net: "tcp", Err: net.ErrClosed}
	}
	return nil
}
