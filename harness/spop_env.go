package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/sched"
)

// mspec describes one message and what the handler does with it. The message
// name is the key, so names are unique per execution.
type mspec struct {
	m       Msg
	consume int // arguments the handler reads, -1 all
	acts    []Action
	panics  int // 1 before, 2 after writing the actions, 3 runtime error
	ready   func() bool
	mid     func() bool // the handler waits for it behind its first action
	waitCtx bool        // the handler waits until its context is cancelled
	points  int         // scheduling points while holding the message
	writes  int         // scheduling points between actions (0 none)
	over    int         // reads beyond the declared arguments
	seen    int
	done    bool
	half    bool // its first action is written
	n       *notif
	pos     int // in n.ms
}

// panicVals are the ways to panic: with every kind of value, and by the
// run-time system. n is a small number unknown to the compiler.
var panicVals = []func(n int){
	func(n int) { panic(nil) },
	func(n int) { panic(42) },
	func(n int) { panic("") },
	func(n int) { panic(errors.New("plain")) },
	func(n int) { panic(io.EOF) },
	func(n int) { panic(fmt.Errorf("wrapped: %w", io.EOF)) },
	func(n int) { panic(io.ErrUnexpectedEOF) },
	func(n int) { panic(context.Canceled) },
	func(n int) { panic(context.DeadlineExceeded) },
	func(n int) { panic(net.ErrClosed) },
	func(n int) { panic(&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}) },
	func(n int) { panic(syscall.EPIPE) },
	func(n int) { panic(os.ErrDeadlineExceeded) },
	func(n int) { panic(encoding.ErrUnterminatedSequence) },
	func(n int) { panic(encoding.ErrInsufficientSpace) },
	func(n int) { panic(badError{}) },
	func(n int) { panic(badStringer{}) },
	func(n int) { panic((*badPtr)(nil)) },
	func(n int) { panic(struct{ a, b any }{n, []byte("x")}) },
	func(n int) { panic([]int{1, 2}) },
	func(n int) { panic(func() {}) },
	func(n int) { panic(fmt.Sprintf("%0100000d", n)) },
	func(n int) { panic("%s%d%v%!") },
	func(n int) { _ = []int{}[n+1] },
	func(n int) { _ = []byte("abc")[n+2 : n+1] },
	func(n int) { _ = 1 / (n - n) },
	func(n int) { var m map[int]int; m[n] = 1 },
	func(n int) { var f func(); f() },
	func(n int) { var a any = n; _ = a.(string) },
	func(n int) { _ = make([]byte, -1-n) },
	func(n int) { var c chan int; close(c) },
	func(n int) { c := make(chan int); close(c); close(c) },
	func(n int) { a, b := any([]int{n}), any([]int{n}); _ = a == b },
	func(n int) { defer func() { panic("second") }(); panic("first") },
	func(n int) { defer func() { recover(); panic("again") }(); panic("first") },
	func(n int) { _ = [4]byte(make([]byte, n%4)) },
	func(n int) { deepPanic(2000 + n) },
	func(n int) { panic(selfError{}) },
	func(n int) { panic(selfStringer{}) },
}

type badError struct{}

func (badError) Error() string { panic("the error's method panics") }

type badStringer struct{}

func (badStringer) String() string { panic(io.EOF) }

// the value a panic in its method brings up is itself
type selfError struct{}

func (s selfError) Error() string { panic(s) }

type selfStringer struct{}

func (s selfStringer) String() string { panic(s) }

type badPtr struct{ s string }

func (b *badPtr) Error() string { return b.s }

func deepPanic(n int) int {
	if n == 0 {
		panic("deep")
	}
	return deepPanic(n-1) + 1
}

// baseCancelled: the base context is cancelled, and everything is quiet.
func (s *sconn) baseCancelled(e *spopEnv) {
	for _, c := range s.ctxs {
		if c != nil && c.Err() == nil {
			e.c.Fail("C13", "%s: handler context not cancelled with the base context", s.Name)
			return
		}
	}
}

type notif struct {
	stream, id uint64
	ms         []*mspec
	raw        []byte // overrides the encoded payload
	noAck      bool
	c          *sconn
	off, end   int // position in the input stream
}

type sconn struct {
	*Conn
	ns      []*notif
	size    uint32
	helloed bool
	probe   bool // of the probe, not of the scenario
	ended   int  // length of the input for which endsIn is known
	endsIn  bool
	ctxs    []context.Context
}

type spopEnv struct {
	c       *Case
	x       *sched.Exec
	l       *Listener
	ctx     context.Context
	cancel  context.CancelFunc
	agent   *spop.Agent
	specs   map[string]*mspec
	conns   []*sconn
	ret     int
	retErr  error
	running int
	maxRun  int
	unknown []string
	done    int
	lead    []Msg    // messages of malformed frames the handler may see
	base    []string // live threads before any connection
	bad     bool     // malformed frames or panics are part of the scenario
}

// iso names the isolation properties a garbled message breaks.
func (e *spopEnv) iso() string {
	if e.bad {
		return "C08,C11"
	}
	return "C08"
}

func newSpop(x *sched.Exec, c *Case) *spopEnv {
	e := &spopEnv{c: c, x: x, l: &Listener{}, specs: map[string]*mspec{}}
	e.ctx, e.cancel = baseContext(x, c)
	e.agent = &spop.Agent{Handler: spop.HandlerFunc(e.handle), BaseContext: e.ctx}
	return e
}

func (e *spopEnv) start() {
	sched.Go("serve", func() {
		e.retErr = e.agent.Serve(e.l)
		e.ret++
	})
}

// settle lets everything else run until nothing can move any more.
func settle() { sched.Sleep(time.Millisecond) }

func (e *spopEnv) dial(name string) *sconn {
	s := &sconn{Conn: NewConn(name)}
	e.conns = append(e.conns, s)
	e.l.Push(s.Conn)
	return s
}

// hello feeds the HELLO; which form it has changes from case to case and from
// connection to connection, as what it says beside the size says nothing the
// properties depend on.
func (s *sconn) hello(size uint32, extra ...KV) *sconn {
	if len(extra) > 0 {
		s.Feed(refHello(size, extra...))
	} else {
		s.Feed(helloKVs(helloBeside(formOf(s.Name)%helloKinds, size)...))
	}
	s.size = size
	s.helloed = true
	return s
}

// curForm is set from the scenario and the number of the case.
var curForm int

// formOf: in half of the cases all connections say the same.
func formOf(name string) int {
	if curForm&1 == 0 {
		return curForm / 2
	}
	return curForm/2 + int(name[0])
}

const helloKinds = 8

func helloBeside(kind int, size uint32) []KV {
	sz, ver, cap, eng := kvU32("max-frame-size", size), kvStr("supported-versions", "2.0"), kvStr("capabilities", "pipelining"), kvStr("engine-id", "E1")
	switch kind {
	case 1:
		return []KV{ver, sz, kvStr("capabilities", "")}
	case 2:
		return []KV{ver, sz, kvStr("capabilities", "pipelining,async"), kvStr("engine-id", "cc59d8a8-6b0c-4b8f-8d5c-0d6c51b1b1b1")}
	case 3:
		return []KV{ver, sz, kvStr("capabilities", "async"), eng}
	case 4:
		return []KV{ver, sz, kvStr("capabilities", "fragmentation,pipelining")}
	case 5:
		return []KV{kvStr("supported-versions", "1.0, 2.0"), sz, cap, kvBool("healthcheck", false), kvStr("engine-id", "E2")}
	case 6:
		return []KV{cap, eng, sz, ver}
	case 7:
		return []KV{ver, sz, kvStr("capabilities", "fragmentation"), kvStr("engine-id", "")}
	}
	return []KV{ver, sz, cap, eng}
}

const helloForms = 4

// helloForm is hello with other entries beside the size.
func (s *sconn) helloForm(size uint32, form int) *sconn {
	if form == 0 {
		return s.hello(size)
	}
	sz, v := kvU32("max-frame-size", size), kvStr("supported-versions", "2.0")
	s.Feed(helloKVs([][]KV{
		{sz},
		{v, kvStr("capabilities", ""), kvStr("engine-id", ""), sz, kvStr("unknown", "x")},
		{kvStr("engine-id", strings.Repeat("e", 300)), kvBool("healthcheck", false), kvStr("capabilities", "fragmentation,async"), sz, v},
	}[form-1]...))
	s.size = size
	s.helloed = true
	return s
}

// notify registers and encodes a NOTIFY.
func (e *spopEnv) notify(s *sconn, stream, id uint64, ms ...*mspec) []byte {
	n := &notif{stream: stream, id: id, ms: ms, c: s}
	var raw []Msg
	for i, m := range ms {
		m.n, m.pos = n, i
		if e.specs[m.m.Name] != nil {
			panic("harness: duplicate message name")
		}
		e.specs[m.m.Name] = m
		raw = append(raw, m.m)
	}
	s.ns = append(s.ns, n)
	return refNotify(stream, id, raw...)
}

func (e *spopEnv) send(s *sconn, stream, id uint64, ms ...*mspec) *notif {
	b := e.notify(s, stream, id, ms...)
	n := s.ns[len(s.ns)-1]
	n.off = len(s.in)
	s.Feed(b)
	n.end = len(s.in)
	return n
}

func doAct(w *encoding.ActionWriter, a Action) error {
	scope := encoding.VarScopeProcess
	switch a.Scope {
	case 1:
		scope = encoding.VarScopeSession
	case 2:
		scope = encoding.VarScopeTransaction
	case 3:
		scope = encoding.VarScopeRequest
	case 4:
		scope = encoding.VarScopeResponse
	}
	if !a.Set {
		return w.Unset(scope, a.Name)
	}
	v := a.Val
	switch v.Type {
	case 0:
		return w.SetNull(scope, a.Name)
	case 1:
		return w.SetBool(scope, a.Name, v.B)
	case 4:
		return w.SetInt64(scope, a.Name, int64(v.I))
	case 6, 7:
		ip, _ := netip.AddrFromSlice(v.S)
		return w.SetAddr(scope, a.Name, ip)
	case 8:
		return w.SetString(scope, a.Name, string(v.S))
	}
	return w.SetBinary(scope, a.Name, v.S)
}

// handle is the user handler of every scenario.
func (e *spopEnv) handle(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	e.running++
	if e.running > e.maxRun {
		e.maxRun = e.running
	}
	defer func() { e.running-- }()
	nb := m.NameBytes()
	name := string(nb)
	sp := e.specs[name]
	if sp == nil && e.tolerated(name, m) {
		return
	}
	if sp == nil {
		e.c.Fail("C06,C08,C11", "handler called with a message nobody sent: %q", clip(name, 40))
		e.unknown = append(e.unknown, name)
		return
	}
	sp.seen++
	if sp.seen > 1 {
		e.c.Fail("C06,C08,C12", "handler called %d times for message %q", sp.seen, name)
	}
	for _, p := range sp.n.ms[max(0, sp.pos-100):sp.pos] {
		if !p.done && p.panics == 0 {
			e.c.Fail("C08", "message %q handled before message %q of the same frame", name, p.m.Name)
		}
	}
	for _, p := range sp.n.ms[sp.pos+1 : min(len(sp.n.ms), sp.pos+100)] {
		if p.seen > 0 {
			e.c.Fail("C08", "message %q handled after message %q of the same frame", name, p.m.Name)
		}
	}
	sp.n.c.ctxs = append(sp.n.c.ctxs, ctx)
	if ctx == nil {
		e.c.Fail("C08,C13", "handler called without context")
	}
	early := func(when string) {
		if ctx != nil && ctx.Err() != nil && !sp.n.c.mayEnd() && e.ctx.Err() == nil {
			e.c.Fail("C11,C13", "context of message %q cancelled %s although nothing ended the connection", name, when)
		}
	}
	early("before the handler ran")
	want := len(sp.m.KVs)
	if sp.consume >= 0 && sp.consume < want {
		want = sp.consume
	}
	type held struct {
		nb, vb []byte
		kv     KV
	}
	var hs []held
	k := encoding.AcquireKVEntry()
	for i := 0; i < want; i++ {
		if !m.KV.Next(k) {
			e.c.Fail(e.iso(), "message %q: only %d of %d arguments, error %v", name, i, len(sp.m.KVs), m.KV.Error())
			break
		}
		got := fromEntry(k)
		if !got.Equal(sp.m.KVs[i]) {
			e.c.Fail(e.iso(), "message %q argument %d: got %v, sent %v", name, i, got, sp.m.KVs[i])
		}
		hs = append(hs, held{k.NameBytes(), k.ValueBytes(), got})
	}
	if sp.consume < 0 || sp.over > 0 {
		for i := 0; i < 1+sp.over; i++ {
			if m.KV.Next(k) {
				e.c.Fail(e.iso(), "message %q yields more than its %d arguments: %v", name, len(sp.m.KVs), fromEntry(k))
			}
		}
		if err := m.KV.Error(); err != nil {
			e.c.Fail(e.iso(), "message %q: scanner error %v after its last argument", name, err)
		}
	}
	last := fromEntry(k)
	for i := 0; i < sp.points; i++ {
		sched.PointAt("handler " + name)
	}
	if sp.ready != nil {
		sched.At("handler "+name+" waits", sp.ready)
	}
	if sp.waitCtx {
		sched.At("handler "+name+" waits for its context", func() bool { return ctx == nil || ctx.Err() != nil })
	}
	check := func() {
		if got := fromEntry(k); !got.Equal(last) {
			e.c.Fail(e.iso(), "the entry of the handler of %q changed while it was running: %v became %v", name, last, got)
		}
		if string(nb) != name || string(m.NameBytes()) != name {
			e.c.Fail(e.iso(), "message name changed while the handler was running: %q became %q", name, clip(string(nb), 40))
		}
		for _, h := range hs {
			if string(h.nb) != h.kv.Name {
				e.c.Fail(e.iso(), "argument name of %q changed while the handler was running: %q became %q", name, h.kv.Name, clip(string(h.nb), 40))
			}
			if h.kv.Type >= 8 && !bytes.Equal(h.vb, h.kv.S) {
				e.c.Fail(e.iso(), "argument %q of %q changed while the handler was running", h.kv.Name, name)
			}
		}
	}
	check()
	switch sp.panics {
	case 1:
		panic("handler panic " + name)
	case 3:
		var p *mspec
		_ = p.m.Name
	case 0, 2:
	default:
		panicVals[sp.panics-4](len(hs))
	}
	for i, a := range sp.acts {
		if err := doAct(w, a); err != nil {
			e.c.Fail("C03,C06,C10", "writing action %v: %v", a, err)
		}
		if sp.writes > 0 {
			sched.PointAt("handler writes " + name)
		}
		if i == 0 && sp.mid != nil {
			sp.half = true
			sched.At("handler "+name+" waits behind its first action", sp.mid)
			check()
		}
	}
	if sp.panics == 2 {
		panic("late handler panic " + name)
	}
	check()
	early("while the handler was running")
	encoding.ReleaseKVEntry(k)
	sp.done = true
	e.done++
	sched.Logf("handled %s", name)
}

// tolerate allows handler calls for what a malformed NOTIFY holds before its
// defect.
func (e *spopEnv) tolerate(raw []byte) {
	fs, _, err := refParseFrames(raw)
	if err == nil && len(fs) == 1 && fs[0].Type == fNotify {
		e.lead = append(e.lead, refLead(fs[0].Payload)...)
	}
}

func (e *spopEnv) tolerated(name string, m *encoding.Message) bool {
	ok := false
	for _, l := range e.lead {
		ok = ok || l.Name == name
	}
	if !ok {
		return false
	}
	var got []KV
	k := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(k)
	for m.KV.Next(k) && len(got) < 300 {
		got = append(got, fromEntry(k))
	}
	for _, l := range e.lead {
		if l.Name != name || len(got) > len(l.KVs) {
			continue
		}
		same := true
		for i, g := range got {
			same = same && g.Equal(l.KVs[i])
		}
		if same {
			return true
		}
	}
	e.c.Fail("C11,C08", "malformed message %q yields arguments it does not hold: %v", clip(name, 40), got)
	return true
}

func ms(name string, kvs ...KV) *mspec {
	return &mspec{m: Msg{name, kvs}, consume: -1, acts: []Action{{true, 2, "r-" + name, kvStr("", "v-"+name)}}, points: 1}
}

// mayEnd: the driver did something that ends the connection or may end it:
// anything but a plain HAPROXY-HELLO followed by NOTIFY frames within the
// limit.
func (s *sconn) mayEnd() bool {
	if s.eof || s.rerr != nil || s.werr != nil || s.WFailed || s.Faults {
		return true
	}
	if s.ended != len(s.in)+1 {
		s.ended = len(s.in) + 1
		s.endsIn = inputEnds(s.in)
	}
	return s.endsIn
}

func inputEnds(b []byte) bool {
	limit := uint32(65535)
	for first := true; len(b) >= 4; first = false {
		n := binary.BigEndian.Uint32(b)
		if n > limit || n < 7 {
			return true
		}
		b = b[4:]
		if int(n) > len(b) {
			return false
		}
		f := b[:n]
		b = b[n:]
		if first {
			if f[0] != fHello {
				return true
			}
			ks, _, ok := refScanKV(f[7:], -1)
			if !ok {
				return true
			}
			limit = 0
			for _, k := range ks {
				if k.Name == "max-frame-size" {
					if k.Type != 3 || limit != 0 || k.I < 256 || k.I > 1<<31-1 {
						return true
					}
					limit = uint32(k.I)
				}
				if k.Name == "healthcheck" && (k.Type != 1 || k.B) {
					return true
				}
			}
			if limit == 0 {
				return true
			}
			continue
		}
		if f[0] != fNotify {
			return true
		}
		if _, m := refReadVarint(f[5:]); m == 0 {
			return true
		} else if _, k := refReadVarint(f[5+m:]); k == 0 {
			return true
		}
	}
	return false
}

func (s *mspec) with(f func(*mspec)) *mspec { f(s); return s }

// ---------------------------------------------------------------- verdicts

// wellFormed cuts the output of a connection into frames and checks the
// structure of every one of them.
func (e *spopEnv) wellFormed(s *sconn, allowRest bool) []Frame {
	fs, rest, err := refParseFrames(s.Out)
	if err != nil {
		e.c.Fail("C06,C07", "%s: output is not a sequence of frames: %v (output %x)", s.Name, err, clipb(s.Out, 96))
		return fs
	}
	// the end of the connection may cut the last frame short, nothing else
	if len(rest) > 0 && !allowRest && s.Closes == 0 {
		e.c.Fail("C06,C07", "%s: output ends inside a frame: %d trailing bytes %x", s.Name, len(rest), clipb(rest, 64))
	}
	if len(rest) > 4 && rest[4] != fAck && rest[4] != fAHello && rest[4] != fADisc {
		e.c.Fail("C06,C07", "%s: output ends with something that is no frame: %x", s.Name, clipb(rest, 64))
	}
	for _, f := range fs {
		bad := ""
		switch f.Type {
		case fAHello:
			if _, _, ok := refScanKV(f.Payload, -1); !ok {
				bad = "AGENT-HELLO payload"
			}
		case fADisc:
			if _, _, ok := refScanKV(f.Payload, -1); !ok {
				bad = "AGENT-DISCONNECT payload"
			}
		case fAck:
			if !refActionsOK(f.Payload) {
				bad = "ACK payload"
			}
		default:
			bad = fmt.Sprintf("frame type %d", f.Type)
		}
		if bad != "" {
			e.c.Fail("C06,C07", "%s: malformed %s in the output at offset %d: %x", s.Name, bad, f.Off, clipb(f.Payload, 64))
		}
		if f.Flags != flagFin {
			e.c.Fail("C06,C07", "%s: frame flags %#x at offset %d", s.Name, f.Flags, f.Off)
		}
	}
	return fs
}

func refActionsOK(b []byte) bool {
	for len(b) > 0 {
		if len(b) < 3 {
			return false
		}
		t, n := b[0], b[1]
		b = b[3:]
		switch {
		case t == 1 && n == 3:
			_, m := refParseKV(b)
			if m == 0 {
				return false
			}
			b = b[m:]
		case t == 2 && n == 2:
			l, m := refReadVarint(b)
			if m == 0 || l > uint64(len(b)-m) {
				return false
			}
			b = b[m+int(l):]
		default:
			return false
		}
	}
	return true
}

func refActs(n *notif) []byte {
	var b []byte
	for _, m := range n.ms {
		b = append(b, refActions(m.acts...)...)
	}
	return b
}

type ackKey struct{ s, i uint64 }

// acks compares the ACKs on a connection with what was sent. complete: every
// NOTIFY that must be answered has been answered.
func (e *spopEnv) acks(s *sconn, fs []Frame, complete bool) {
	want := map[ackKey][]*notif{}
	for _, n := range s.ns {
		want[ackKey{n.stream, n.id}] = append(want[ackKey{n.stream, n.id}], n)
	}
	got := map[*notif]int{}
	for _, f := range fs {
		if f.Type != fAck {
			continue
		}
		cand := want[ackKey{f.Stream, f.ID}]
		var hit *notif
		for _, n := range cand {
			if got[n] == 0 && !n.noAck && bytes.Equal(refActs(n), f.Payload) {
				hit = n
				break
			}
		}
		if hit == nil {
			for _, n := range cand {
				if got[n] > 0 && bytes.Equal(refActs(n), f.Payload) {
					e.c.Fail("C06,C12", "%s: second ACK for stream %d frame %d", s.Name, f.Stream, f.ID)
					return
				}
			}
			why := "for no NOTIFY sent on this connection"
			for _, n := range cand {
				if n.noAck {
					why = "for a NOTIFY that must not be acknowledged"
				} else {
					why = fmt.Sprintf("with other actions than its handler wrote: want %x", clipb(refActs(n), 64))
				}
			}
			props := "C06,C10"
			if e.bad {
				props += ",C11"
			}
			if strings.Contains(why, "must not") {
				props = "C06,C10,C11"
			}
			e.c.Fail(props, "%s: ACK stream %d frame %d payload %x %s", s.Name, f.Stream, f.ID, clipb(f.Payload, 64), why)
			return
		}
		got[hit]++
	}
	if complete {
		for _, n := range s.ns {
			if !n.noAck && got[n] == 0 {
				var nm []string
				for _, m := range n.ms {
					nm = append(nm, fmt.Sprintf("%s(seen %d)", m.m.Name, m.seen))
				}
				e.c.Fail("C06,C10,C11,C12", "%s: no ACK for stream %d frame %d [%s]", s.Name, n.stream, n.id, strings.Join(nm, " "))
				return
			}
		}
	}
}

// helloFrame checks that the output starts with exactly one AGENT-HELLO.
func (e *spopEnv) helloFrame(s *sconn, fs []Frame) {
	n := 0
	for i, f := range fs {
		if f.Type != fAHello {
			continue
		}
		n++
		if i != 0 {
			e.c.Fail("C06,C09", "%s: AGENT-HELLO is frame %d of the output", s.Name, i)
		}
		if f.Stream != 0 || f.ID != 0 || f.Flags != flagFin {
			e.c.Fail("C09", "%s: AGENT-HELLO stream %d frame %d flags %d", s.Name, f.Stream, f.ID, f.Flags)
		}
		ks, _, _ := refScanKV(f.Payload, -1)
		m := map[string]KV{}
		for _, k := range ks {
			m[k.Name] = k
		}
		if v := m["version"]; v.Type != 8 || string(v.S) != "2.0" {
			e.c.Fail("C09", "%s: AGENT-HELLO version %v", s.Name, v)
		}
		if v := m["max-frame-size"]; v.Type < 2 || v.Type > 5 || v.I != uint64(s.size) {
			e.c.Fail("C09,C10", "%s: AGENT-HELLO max-frame-size %v, offered %d", s.Name, v, s.size)
		}
		if v, ok := m["capabilities"]; !ok || v.Type != 8 {
			e.c.Fail("C09", "%s: AGENT-HELLO without capabilities", s.Name)
		}
	}
	if n != 1 {
		e.c.Fail("C06,C09", "%s: %d AGENT-HELLO frames for one valid HAPROXY-HELLO", s.Name, n)
	}
}

// verify is the verdict for sessions in which everything was well formed.
func (e *spopEnv) verify(complete bool) {
	for _, s := range e.conns {
		fs := e.wellFormed(s, s.WFailed)
		if !s.helloed {
			continue
		}
		if !s.WFailed {
			e.helloFrame(s, fs)
		}
		e.acks(s, fs, complete && !s.WFailed)
		if !s.mayEnd() && e.ctx.Err() == nil {
			for _, c := range s.ctxs {
				if c != nil && c.Err() != nil {
					e.c.Fail("C13", "%s: handler context cancelled although nothing ended the connection", s.Name)
					break
				}
			}
			if s.Closes > 0 {
				e.c.Fail("C11,C12,C13", "%s: connection closed although nothing ended it", s.Name)
			}
		}
		for _, f := range fs {
			if s.size > 0 && f.Type == fAck && f.Len > int(s.size) {
				e.c.Fail("C10", "%s: ACK of %d bytes on a connection limited to %d", s.Name, f.Len, s.size)
			}
		}
	}
	if complete {
		for _, n := range sortedKeys(e.specs) {
			sp := e.specs[n]
			if sp.seen == 0 && !sp.n.noAck {
				e.c.Fail("C06,C08,C11,C12", "message %q never reached the handler", n)
			}
		}
	}
	e.outcome()
}

func (e *spopEnv) outcome() {
	var b strings.Builder
	for _, s := range e.conns {
		fs, rest, _ := refParseFrames(s.Out)
		fmt.Fprintf(&b, "%s:", s.Name)
		for _, f := range fs {
			fmt.Fprintf(&b, " %d/%d/%d/%d", f.Type, f.Stream, f.ID, len(f.Payload))
		}
		fmt.Fprintf(&b, " +%d closes=%d;", len(rest), s.Closes)
	}
	fmt.Fprintf(&b, " max running %d, ret %d", e.maxRun, e.ret)
	e.c.Outcome = b.String()
}

// closed checks the end state of a connection whose session must be over.
func (e *spopEnv) closed(s *sconn, why string) {
	if s.Closes == 0 {
		e.c.Fail("C09,C11,C13", "%s: connection not closed after %s", s.Name, why)
	}
	for _, c := range s.ctxs {
		if c.Err() == nil {
			e.c.Fail("C13", "%s: handler context not cancelled after %s", s.Name, why)
			break
		}
	}
}

// threads compares the live threads with a baseline taken by the driver.
func liveNames(x *sched.Exec) []string {
	var l []string
	for _, n := range x.Live() {
		if i := strings.IndexByte(n, ':'); i >= 0 {
			n = n[i+1:]
		}
		if n == "driver" {
			continue
		}
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (e *spopEnv) baseline() { e.base = liveNames(e.x) }

func (e *spopEnv) leaks() {
	if now := liveNames(e.x); strings.Join(now, ",") != strings.Join(e.base, ",") {
		e.c.Fail("C13", "goroutines left after the sessions ended: before %v, now %v (%v)", e.base, now, e.x.Blocked())
	}
}

// probe: whatever the history was, an agent that still serves gives two new
// connections everything: all its workers at once, and every message its own.
func (e *spopEnv) probe(workers int) {
	if e.c.devs > 1 || e.ctx.Err() != nil || e.ret > 0 || e.l.closed > 0 || e.l.err != nil || e.running > 0 || len(e.c.Fails) > 0 {
		return
	}
	for _, s := range e.conns {
		if s.Stalls > 0 {
			return // a worker may still wait for the other end
		}
	}
	sched.Quiet()
	e.bad = true
	maxRun := e.maxRun
	defer func() { e.maxRun = maxRun }()
	cs := []*sconn{e.dial("P"), e.dial("Q")}
	for i, c := range cs {
		c.hello(uint32(2048 + i)).probe = true
	}
	settle()
	open := false
	n := 0
	send := func() {
		m := ms(fmt.Sprintf("probe-%d", n), kvStr(fmt.Sprintf("name-%d", n), strings.Repeat(string(rune('a'+n%26)), 20+n)), kvU32("n", uint32(n)))
		m.acts = append(m.acts, Action{true, 1, fmt.Sprintf("second-%d", n), kvI64("", int64(n))})
		m.mid = func() bool { return open }
		e.send(cs[n&1], uint64(n), uint64(n), m)
		n++
		settle()
	}
	for i := 0; i < workers; i++ {
		send()
	}
	if e.running != workers {
		e.c.Fail("C11,C12", "afterwards %d of %d workers take new frames", e.running, workers)
	}
	for i := 0; i < min(workers, 4); i++ {
		send()
	}
	open = true
	settle()
	for _, c := range cs {
		e.acks(c, e.wellFormed(c, false), true)
		c.EOF()
	}
	settle()
}
