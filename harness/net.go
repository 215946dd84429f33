package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"verif/sched"
)

type WriteRec struct {
	Off, Len int
	At       time.Duration
	Thread   string
}

// Conn is one end of a fake connection, as seen by the library. The other
// end is the scenario.
type Conn struct {
	Name string

	in     []byte
	rd     int // bytes handed to the library
	eof    bool
	rerr   error
	cuts   map[int]bool // reads never cross these offsets of the input stream
	Chop   bool         // offer short reads as environment choices
	Faults bool         // offer write failures as environment choices
	FailAt int          // >0: the FailAt-th write fails after FailN bytes
	FailN  int

	Out      []byte
	Recs     []WriteRec
	werr     error
	nwrites  int
	WFailed  bool
	Closes   int
	CloseErr error // what the first Close returns, having closed
	ClosedAt time.Duration
	Reads    int
	MaxBuf   int           // largest buffer the library offered to Read
	rdl, wdl time.Duration // deadlines (virtual), <0 none
	Win      int           // bytes the other end still takes before writes block, <0 unlimited
	Stalls   int           // writes that had to wait
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "192.0.2.1:9000" }

func NewConn(name string) *Conn { return &Conn{Name: name, rdl: -1, wdl: -1, Win: -1} }

// Feed makes bytes available to the library (called by the driver).
func (c *Conn) Feed(b ...[]byte) {
	for _, x := range b {
		c.in = append(c.in, x...)
	}
}

// EOF closes the sending direction of the peer.
func (c *Conn) EOF() { c.eof = true }

// Reset makes reads and writes fail like a connection reset.
func (c *Conn) Reset(err error) {
	if err == syscall.ECONNRESET && curForm&4 != 0 {
		err = lossErrs[curForm/8%len(lossErrs)]
	}
	c.rerr = err
	c.werr = err
}

// lossErrs are errors of a connection that is gone for good.
var lossErrs = []error{
	syscall.ETIMEDOUT, syscall.ECONNABORTED, syscall.EHOSTUNREACH, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF,
	io.ErrClosedPipe, net.ErrClosed, errors.New("lost"),
}

func (c *Conn) Cut(at ...int) {
	if c.cuts == nil {
		c.cuts = map[int]bool{}
	}
	for _, a := range at {
		c.cuts[a] = true
	}
}

func (c *Conn) Unread() int { return len(c.in) - c.rd }

var errClosed = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}

func (c *Conn) expired(d time.Duration) bool { return d >= 0 && sched.Now() >= d }

func (c *Conn) Read(p []byte) (int, error) {
	c.Reads++
	if len(p) > c.MaxBuf {
		c.MaxBuf = len(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	sched.At("read "+c.Name, func() bool {
		return c.rd < len(c.in) || c.eof || c.rerr != nil || c.Closes > 0 || c.expired(c.rdl)
	})
	if c.Closes > 0 {
		return 0, errClosed
	}
	if c.expired(c.rdl) {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if c.rd == len(c.in) {
		if c.rerr != nil {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: c.rerr}
		}
		if c.eof {
			return 0, io.EOF
		}
		return 0, errors.New("fake conn: spurious read")
	}
	n := len(c.in) - c.rd
	if n > len(p) {
		n = len(p)
	}
	if c.cuts != nil {
		for i := 1; i < n; i++ {
			if c.cuts[c.rd+i] {
				n = i
				break
			}
		}
	}
	if c.Chop && n > 1 {
		opts := []int{n, 1}
		if n > 2 {
			opts = append(opts, n-1)
		}
		if n > 4 {
			opts = append(opts, n/2)
		}
		n = opts[sched.Choose(len(opts), "short read "+c.Name)]
	}
	copy(p, c.in[c.rd:c.rd+n])
	c.rd += n
	return n, nil
}

// errWrite is the error of an injected write failure.
func errWrite() error {
	if curForm&4 == 0 {
		return errors.New("fake conn: injected write failure")
	}
	l := append([]error{syscall.EPIPE, syscall.ECONNRESET}, lossErrs...)
	return l[curForm/8%len(l)]
}

func (c *Conn) Write(p []byte) (int, error) {
	sched.At("write "+c.Name, nil)
	if c.Closes > 0 {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if c.expired(c.wdl) {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if c.werr != nil {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: c.werr}
	}
	c.nwrites++
	n := len(p)
	fail, done := false, 0
	if c.FailAt > 0 && c.nwrites == c.FailAt {
		fail = true
		if c.FailN < n {
			n = c.FailN
		}
	} else if c.Faults && n > 0 {
		opts := []int{-1, 0}
		if n > 1 {
			opts = append(opts, n/2)
		}
		if k := opts[sched.Choose(len(opts), "write fault "+c.Name)]; k >= 0 {
			fail = true
			n = k
		}
	}
	for c.Win >= 0 && n > c.Win {
		// the other end reads no more: take what fits and wait
		if k := c.Win; k > 0 {
			c.Recs = append(c.Recs, WriteRec{len(c.Out), k, sched.Now(), sched.ThreadName()})
			c.Out = append(c.Out, p[:k]...)
			p = p[k:]
			n -= k
			done += k
			c.Win = 0
		}
		c.Stalls++
		sched.At("blocked write "+c.Name, func() bool {
			return c.Win != 0 || c.Closes > 0 || c.werr != nil || c.expired(c.wdl)
		})
		switch {
		case c.Closes > 0:
			return done, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		case c.werr != nil:
			return done, &net.OpError{Op: "write", Net: "tcp", Err: c.werr}
		case c.Win == 0:
			return done, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
	}
	if c.Win > 0 {
		c.Win -= n
	}
	if n > 0 {
		c.Recs = append(c.Recs, WriteRec{len(c.Out), n, sched.Now(), sched.ThreadName()})
		c.Out = append(c.Out, p[:n]...)
	}
	if fail {
		c.WFailed = true
		c.werr = errWrite() // a broken connection stays broken
		return done + n, &net.OpError{Op: "write", Net: "tcp", Err: c.werr}
	}
	sched.Logf("%s <- %x", c.Name, clipb(p, 48))
	return done + n, nil
}

func clipb(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (c *Conn) Close() error {
	sched.At("close "+c.Name, nil)
	c.Closes++
	if c.Closes == 1 {
		c.ClosedAt = sched.Now()
		sched.Logf("%s closed at %v", c.Name, c.ClosedAt)
		if c.CloseErr != nil {
			return &net.OpError{Op: "close", Net: "tcp", Err: c.CloseErr}
		}
		return nil
	}
	return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
}

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

func dl(t time.Time) time.Duration {
	if t.IsZero() {
		return -1
	}
	d := time.Until(t)
	if d < 0 {
		d = 0
	}
	sched.WakeAfter(d)
	return sched.Now() + d
}

func (c *Conn) SetDeadline(t time.Time) error      { c.rdl = dl(t); c.wdl = c.rdl; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = dl(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = dl(t); return nil }

// acceptErrs are ways for Accept to fail.
var acceptErrs = []error{
	syscall.EMFILE,
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE},
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED},
	&net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed},
	os.ErrDeadlineExceeded,
	net.ErrClosed,
	io.EOF,
	context.Canceled,
	errors.New("listener failed"),
}

// Listener hands out fake connections.
type Listener struct {
	q      []net.Conn
	err    error
	closed int
	addrs  int
}

func (l *Listener) Push(c net.Conn) { l.q = append(l.q, c) }

func (l *Listener) Accept() (net.Conn, error) {
	sched.At("accept", func() bool { return len(l.q) > 0 || l.closed > 0 || l.err != nil })
	if l.closed > 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	if len(l.q) > 0 {
		c := l.q[0]
		l.q = l.q[1:]
		return c, nil
	}
	return nil, l.err
}

func (l *Listener) Close() error {
	sched.At("listener close", nil)
	l.closed++
	return nil
}

func (l *Listener) Addr() net.Addr { l.addrs++; return addr{} }
