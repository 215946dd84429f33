package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"

	"github.com/dropmorepackets/haproxy-go/pkg/testutil"

	"verif/sched"
)

// The in-memory connection and the repeating reader of pkg/testutil.

// pipeOp is one Read or Write call.
type pipeOp struct {
	who  string
	n    int
	err  error
	b    []byte
	done bool
}

type pipeEnv struct {
	c    *Case
	ends [2]io.ReadWriteCloser // 1 is the net.Conn
	ops  []*pipeOp
	shut [2]bool // Close was called
}

var endName = []string{"stream end", "net.Conn end"}

func (p *pipeEnv) write(end int, b []byte) *pipeOp {
	o := &pipeOp{who: "Write on the " + endName[end], b: b}
	p.ops = append(p.ops, o)
	keep := bytes.Clone(b)
	o.n, o.err = p.ends[end].Write(b)
	o.done = true
	if !bytes.Equal(b, keep) {
		p.c.Fail("C25", "%s altered the bytes it was given", o.who)
	}
	if o.n < 0 || o.n > len(b) || (o.err == nil) != (o.n == len(b)) && len(b) > 0 {
		p.c.Fail("C25", "%s of %d bytes returned %d, %v", o.who, len(b), o.n, o.err)
	}
	return o
}

func (p *pipeEnv) read(end, size int) *pipeOp {
	b := bytes.Repeat([]byte{0xEE}, size+2)
	o := &pipeOp{who: "Read on the " + endName[end]}
	p.ops = append(p.ops, o)
	o.n, o.err = p.ends[end].Read(b[:size])
	o.done = true
	if o.n < 0 || o.n > size || o.n > 0 && o.err != nil && o.err != io.EOF {
		p.c.Fail("C25", "%s into %d bytes returned %d, %v", o.who, size, o.n, o.err)
		return o
	}
	o.b = b[:o.n]
	if b[size] != 0xEE || b[size+1] != 0xEE {
		p.c.Fail("C25", "%s into %d bytes wrote behind them", o.who, size)
	}
	return o
}

// drain reads until an error.
func (p *pipeEnv) drain(end, size int) (got []byte, err error) {
	for i := 0; i < 1000; i++ {
		o := p.read(end, size)
		got = append(got, o.b...)
		if o.err != nil {
			return got, o.err
		}
	}
	return got, errors.New("endless")
}

func (p *pipeEnv) close(end int) {
	again := p.shut[end]
	p.shut[end] = true
	if err := p.ends[end].Close(); err != nil && !(again && closedErr(err)) {
		p.c.Fail("C25", "Close of the %s failed: %v", endName[end], err)
	}
}

func (p *pipeEnv) pending() (l []string) {
	for _, o := range p.ops {
		if !o.done {
			l = append(l, o.who)
		}
	}
	return l
}

// after checks what calls return once something was closed.
func (p *pipeEnv) after() {
	for end := 0; end < 2; end++ {
		size := 4
		if o := p.write(end, []byte("late")); o.n != 0 || o.err == nil {
			p.c.Fail("C25", "%s after a Close returned %d, %v", o.who, o.n, o.err)
		} else if p.shut[end] && !closedErr(o.err) {
			p.c.Fail("C25", "%s after its Close: %v", o.who, o.err)
		}
		o := p.read(end, size)
		switch {
		case o.n != 0 || o.err == nil:
			p.c.Fail("C25", "%s after a Close returned %d, %v", o.who, o.n, o.err)
		case p.shut[end] && !closedErr(o.err):
			p.c.Fail("C25", "%s after its Close: %v", o.who, o.err)
		case !p.shut[end] && o.err != io.EOF:
			p.c.Fail("C25", "%s after the other end was closed: %v, want io.EOF", o.who, o.err)
		}
	}
}

func closedErr(err error) bool {
	return errors.Is(err, net.ErrClosed) || errors.Is(err, io.ErrClosedPipe)
}

func pipeCase(label string, body func(p *pipeEnv), final func(p *pipeEnv)) *Case {
	c := &Case{Label: label}
	p := &pipeEnv{c: c}
	c.Body = func(x *sched.Exec) {
		rw, conn := testutil.PipeConn()
		p.ends = [2]io.ReadWriteCloser{rw, conn}
		if conn.LocalAddr() == nil || conn.RemoteAddr() == nil {
			c.Fail("C25", "the connection has no address")
		}
		body(p)
	}
	c.Final = func(x *sched.Exec) {
		if l := p.pending(); len(l) > 0 {
			c.Fail("C25", "still blocked at the end: %s", strings.Join(l, ", "))
			return
		}
		if final != nil {
			final(p)
		}
		for _, o := range p.ops {
			c.Outcome += fmt.Sprintf("%s %d %v;", o.who, o.n, o.err)
		}
	}
	return c
}

var pipeWrites = [][]int{{1}, {3, 2}, {4, 0, 1}, {7, 5, 2}, {0, 1, 1}}

// seqBytes are n bytes a piece of which is not mistaken for another piece.
func seqBytes(tag byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = tag + byte(i) + byte(i>>8)
	}
	return b
}

// merged: is got a sequence of whole writes of the writers, each writer's in
// order.
func merged(got []byte, w [][][]byte) bool {
	if len(got) == 0 {
		for _, l := range w {
			for _, b := range l {
				if len(b) > 0 {
					return false
				}
			}
		}
		return true
	}
	for i, l := range w {
		if len(l) > 0 && bytes.HasPrefix(got, l[0]) {
			rest := append([][][]byte{}, w...)
			rest[i] = l[1:]
			if merged(got[len(l[0]):], rest) {
				return true
			}
		}
	}
	return false
}

func initPipe() {
	sizes := []int{1, 2, 3, 8}
	// both directions at once
	scns = append(scns, &Scn{Name: "pipe-transfer", Props: []string{"C25"}, N: fixedN(2 * len(pipeWrites) * len(sizes)),
		Make: func(v int) *Case {
			first, ws, size := v&1, pipeWrites[v/2%len(pipeWrites)], sizes[v/2/len(pipeWrites)]
			var want, got [2][]byte
			var errs [2]error
			return pipeCase(fmt.Sprintf("writes %v both ways, reads of %d, %s closes", ws, size, endName[first]), func(p *pipeEnv) {
				ended := [2]bool{}
				for end := 0; end < 2; end++ {
					sched.Go(fmt.Sprintf("writer %d", end), func() {
						for i, n := range ws {
							b := seqBytes(byte(0x40+end*0x40+i*8), n)
							if o := p.write(end, b); o.err != nil {
								p.c.Fail("C25", "%s: %v although nothing was closed", o.who, o.err)
							}
							want[1-end] = append(want[1-end], b...)
						}
						ended[end] = true
						if end == first {
							sched.At("the other writer", func() bool { return ended[1-end] })
							p.close(end)
						}
					})
					sched.Go(fmt.Sprintf("reader %d", end), func() {
						got[end], errs[end] = p.drain(end, size)
					})
				}
				settle()
				p.after()
			}, func(p *pipeEnv) {
				for end := 0; end < 2; end++ {
					if !bytes.Equal(got[end], want[end]) {
						p.c.Fail("C25", "the %s received %x, sent %x", endName[end], got[end], want[end])
					}
				}
				if errs[1-first] != io.EOF {
					p.c.Fail("C25", "reading behind the last byte at the %s: %v, want io.EOF", endName[1-first], errs[1-first])
				}
				if !closedErr(errs[first]) {
					p.c.Fail("C25", "a Read ended by its own Close: %v", errs[first])
				}
			})
		},
		Quick: []Bound{{D: 2, Fine: true, Secs: 60}},
		Thor:  []Bound{{D: 3, Fine: true, Secs: 100}},
	})
	// concurrent writers and readers
	scns = append(scns, &Scn{Name: "pipe-writers", Props: []string{"C25"}, N: fixedN(2*len(sizes)*3 + 2*2),
		Make: func(v int) *Case {
			end, size, kind := v&1, sizes[v/2%len(sizes)], v/2/len(sizes)
			counts := [][]int{{2, 2}, {4, 3}, {1, 5}, {70000, 5000}}[kind]
			if kind == 3 {
				size = []int{8192, 100000}[v/2%len(sizes)]
			}
			var w [][][]byte
			total := 0
			for i := 0; i < 2; i++ {
				var l [][]byte
				for j, n := range counts {
					l = append(l, seqBytes(byte(0x10+i*0x40+j*0x10), n))
					total += n
				}
				w = append(w, l)
			}
			var got []byte
			return pipeCase(fmt.Sprintf("2 writers of %v on the %s, reads of %d", counts, endName[end], size), func(p *pipeEnv) {
				for i := range w {
					sched.Go(fmt.Sprintf("writer %d", i), func() {
						for _, b := range w[i] {
							if o := p.write(end, b); o.err != nil {
								p.c.Fail("C25", "%s: %v although nothing was closed", o.who, o.err)
							}
						}
					})
				}
				sched.Go("reader", func() {
					for len(got) < total {
						o := p.read(1-end, size)
						got = append(got, o.b...)
						if o.err != nil {
							p.c.Fail("C25", "%s: %v although nothing was closed", o.who, o.err)
							return
						}
					}
				})
				settle()
			}, func(p *pipeEnv) {
				if !merged(got, w) {
					p.c.Fail("C25", "received %x from two writers of %x", got, w)
				}
			})
		},
		Quick: []Bound{{D: 2, Fine: true, Secs: 60}, {D: 3, Secs: 60}},
		Thor:  []Bound{{D: 3, Fine: true, Secs: 100}, {D: 4, Secs: 100}},
	})
	// Close at any moment
	scns = append(scns, &Scn{Name: "pipe-close", Props: []string{"C25"}, N: fixedN(3 * 2 * 3),
		Make: func(v int) *Case {
			who, twice, kind := v%3, v/3%2 == 1, v/6 // who: 0, 1, 2 both
			var got [2][]byte
			var errs [2]error
			var ws [2][]*pipeOp
			return pipeCase(fmt.Sprintf("close %d, twice %v, traffic %d", who, twice, kind), func(p *pipeEnv) {
				for end := 0; end < 2; end++ {
					if kind != 1 {
						sched.Go(fmt.Sprintf("reader %d", end), func() { got[end], errs[end] = p.drain(end, 2) })
					}
					if kind != 0 {
						sched.Go(fmt.Sprintf("writer %d", end), func() {
							for i := 0; i < 2; i++ {
								o := p.write(end, seqBytes(byte(0x40+i*8), 3))
								ws[end] = append(ws[end], o)
								if o.err != nil {
									return
								}
							}
						})
					}
				}
				for end := 0; end < 2; end++ {
					if who == end || who == 2 {
						sched.Go(fmt.Sprintf("closer %d", end), func() {
							sched.PointAt("close")
							p.close(end)
							if twice {
								p.close(end)
							}
						})
					}
				}
				settle()
				p.after()
			}, func(p *pipeEnv) {
				for end := 0; end < 2; end++ {
					var sent []byte
					for _, o := range ws[1-end] {
						sent = append(sent, o.b[:o.n]...)
					}
					if kind != 1 && !bytes.Equal(sent, got[end]) {
						p.c.Fail("C25", "the %s received %x, the Write calls report %x", endName[end], got[end], sent)
					}
					if kind == 1 {
						if len(sent) > 0 {
							p.c.Fail("C25", "Write reports %d bytes nobody read", len(sent))
						}
						continue
					}
					switch {
					case p.shut[end] && p.shut[1-end]:
					case p.shut[end] && !closedErr(errs[end]):
						p.c.Fail("C25", "a Read ended by its own Close: %v", errs[end])
					case !p.shut[end] && errs[end] != io.EOF:
						p.c.Fail("C25", "a Read ended by the other end's Close: %v, want io.EOF", errs[end])
					}
				}
			})
		},
		Quick: []Bound{{D: 2, Fine: true, Secs: 60}, {D: 3, Secs: 60}},
		Thor:  []Bound{{D: 3, Fine: true, Secs: 100}, {D: 4, Secs: 100}},
	})
	enumParts = append(enumParts, &EnumPart{"repeat-reader", []string{"C25"}, repeatReader})
}

// repeatReader: any sequence of reads sees the data repeated.
func repeatReader(e *Enum) {
	depth := 4
	if e.Thorough() {
		depth = 6
	}
	sizes := []int{0, 1, 2, 3, 5, 8, 17}
	for n := 0; n <= 7; n++ {
		data := seqBytes('a', n)
		seq := make([]int, depth)
		var rec func(i int)
		rec = func(i int) {
			if e.Stop() {
				return
			}
			if i < depth {
				for _, s := range sizes {
					seq[i] = s
					rec(i + 1)
				}
				return
			}
			e.Case(func() string { return fmt.Sprintf("%d bytes, reads %v", n, seq) }, func(c *EC) {
				r := testutil.NewRepeatReader(data)
				pos := 0
				for k, s := range seq {
					b := bytes.Repeat([]byte{0xEE}, s+1)
					got, err := r.Read(b[:s:s])
					if n == 0 {
						if got != 0 || err != io.EOF && s > 0 {
							c.Fail("read %d of nothing: %d, %v", k, got, err)
						}
						continue
					}
					if err != nil || got < 0 || got > s || got == 0 && s > 0 {
						c.Fail("read %d into %d bytes: %d, %v", k, s, got, err)
						return
					}
					for i := 0; i < got; i++ {
						if b[i] != data[(pos+i)%n] {
							c.Fail("read %d: byte %d of the stream is %q, want %q", k, pos+i, b[i], data[(pos+i)%n])
							return
						}
					}
					if b[s] != 0xEE {
						c.Fail("read %d wrote behind its buffer", k)
					}
					pos += got
				}
				if string(data) != "abcdefg"[:n] {
					c.Fail("the data was altered")
				}
			})
		}
		rec(0)
	}
}

func init() { initPipe() }
