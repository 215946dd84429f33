// Package vio mirrors io.Pipe on top of the controlled scheduler: the same
// observable behaviour, built from vsync primitives instead of channels the
// scheduler does not see.
package vio

import (
	"io"
	"net"
	"time"

	"verif/vsync"
)

type pipe struct {
	wr   vsync.Mutex // one Write at a time
	mu   vsync.Mutex
	cond *vsync.Cond
	data []byte
	full bool // data is offered to readers
	done bool
	rerr error
	werr error
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for !p.done && !p.full {
		p.cond.Wait()
	}
	if p.done {
		if p.rerr == nil && p.werr != nil {
			return 0, p.werr
		}
		return 0, io.ErrClosedPipe
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 {
		p.full = false
		p.cond.Broadcast()
	}
	return n, nil
}

func (p *pipe) write(b []byte) (int, error) {
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.done {
		p.data, p.full = b, true
		p.cond.Broadcast()
		for !p.done && p.full {
			p.cond.Wait()
		}
		n := len(b) - len(p.data)
		if !p.full {
			return n, nil
		}
		p.data, p.full = nil, false
		return n, p.writeErr()
	}
	return 0, p.writeErr()
}

func (p *pipe) writeErr() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (p *pipe) close(at *error, err error) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if *at == nil {
		*at = err
	}
	p.done = true
	p.cond.Broadcast()
	return nil
}

type PipeReader struct{ p *pipe }

func (r *PipeReader) Read(b []byte) (int, error) { return r.p.read(b) }
func (r *PipeReader) Close() error               { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	return r.p.close(&r.p.rerr, err)
}

type PipeWriter struct{ p *pipe }

func (w *PipeWriter) Write(b []byte) (int, error) { return w.p.write(b) }
func (w *PipeWriter) Close() error                { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	return w.p.close(&w.p.werr, err)
}

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = vsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

// NetPipe mirrors net.Pipe, without deadlines.
func NetPipe() (net.Conn, net.Conn) {
	r1, w1 := Pipe()
	r2, w2 := Pipe()
	return &conn{r1, w2}, &conn{r2, w1}
}

type conn struct {
	*PipeReader
	*PipeWriter
}

type addr struct{}

func (addr) Network() string { return "pipe" }
func (addr) String() string  { return "pipe" }

func (c *conn) Close() error {
	c.PipeReader.CloseWithError(nil)
	return c.PipeWriter.Close()
}
func (c *conn) CloseWithError(err error) error   { return c.Close() }
func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
