package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"net/netip"
	"strings"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/sched"
)

// ---------------------------------------------------------------- reference

const (
	pcControl = 0
	pcError   = 1
	pcTable   = 10

	ptUpdate   = 0x80
	ptInc      = 0x81
	ptDef      = 0x82
	ptSwitch   = 0x83
	ptAck      = 0x84
	ptTimed    = 0x85
	ptIncTimed = 0x86

	pctlReq       = 0
	pctlFinished  = 1
	pctlPartial   = 2
	pctlConfirmed = 3
	pctlHeartbeat = 4
)

func refHandshake(remote, local string, pid, rel int) []byte {
	return []byte(fmt.Sprintf("HAProxyS 2.1\n%s\n%s %d %d\n", remote, local, pid, rel))
}

var stdHandshake = refHandshake("agent", "haproxy", 1234, 0)

const stdStatus = "200\n"

func ctl(t byte) []byte { return []byte{pcControl, t} }

func defMsg(d *st.Definition) []byte { return refPMsg(pcTable, ptDef, refDef(d)) }

func (v entryVal) typ() byte {
	switch {
	case v.withID && v.timed:
		return ptTimed
	case v.withID:
		return ptUpdate
	case v.timed:
		return ptIncTimed
	}
	return ptInc
}

func (v entryVal) msg() []byte { return refPMsg(pcTable, v.typ(), v.wire()) }

// refDecodeDef decodes a definition; ok=false when malformed, either when the
// format leaves it open.
func refDecodeDef(b []byte) (d *st.Definition, ok, either bool) {
	p := 0
	bad := false
	vi := func() uint64 {
		v, n := refReadVarint(b[p:])
		if n == 0 {
			bad = true
		}
		p += n
		return v
	}
	d = &st.Definition{}
	d.StickTableID = vi()
	l := vi()
	if bad || l > uint64(len(b)-p) {
		return nil, false, false
	}
	d.Name = string(b[p : p+int(l)])
	p += int(l)
	d.KeyType = st.KeyType(vi())
	d.KeyLength = vi()
	m := vi()
	d.Expiry = vi()
	if bad {
		return nil, false, false
	}
	for t := 0; t < 64; t++ {
		if m>>t&1 == 0 {
			continue
		}
		k, known := dtKind[st.DataType(t)]
		if !known {
			either = true
			continue
		}
		x := st.DataTypeDefinition{DataType: st.DataType(t)}
		if k == wFreq {
			x.Counter = vi()
			x.Period = vi()
			if bad && !either {
				return nil, false, false
			}
		}
		d.DataTypes = append(d.DataTypes, x)
	}
	return d, true, either || p != len(b)
}

// refDecodeEntry builds the update an entry message describes.
func refDecodeEntry(d *st.Definition, typ byte, prev *uint32, b []byte) (u *st.EntryUpdate, ok, either bool) {
	withID := typ == ptUpdate || typ == ptTimed
	timed := typ == ptTimed || typ == ptIncTimed
	ok, either = refEntryOK(d, withID, timed, b)
	if !ok || either {
		return nil, ok, either
	}
	p := 0
	vi := func() uint64 { v, n := refReadVarint(b[p:]); p += n; return v }
	u = &st.EntryUpdate{StickTable: d, WithLocalUpdateID: withID, WithExpiry: timed}
	if withID {
		u.LocalUpdateID = binary.BigEndian.Uint32(b)
		p = 4
	} else if prev != nil {
		u.LocalUpdateID = *prev + 1
	}
	if timed {
		u.Expiry = binary.BigEndian.Uint32(b[p:])
		p += 4
	}
	switch d.KeyType {
	case st.KeyTypeSignedInteger:
		k := st.SignedIntegerKey(binary.BigEndian.Uint32(b[p:]))
		u.Key = &k
		p += 4
	case st.KeyTypeIPv4Address:
		k := st.IPv4AddressKey(netip.AddrFrom4([4]byte(b[p : p+4])))
		u.Key = &k
		p += 4
	case st.KeyTypeIPv6Address:
		k := st.IPv6AddressKey(netip.AddrFrom16([16]byte(b[p : p+16])))
		u.Key = &k
		p += 16
	case st.KeyTypeString:
		l := int(vi())
		k := st.StringKey(b[p : p+l])
		u.Key = &k
		p += l
	case st.KeyTypeBinary:
		k := st.BinaryKey(append([]byte{}, b[p:p+int(d.KeyLength)]...))
		u.Key = &k
		p += int(d.KeyLength)
	}
	for _, t := range d.DataTypes {
		switch dtKind[t.DataType] {
		case wSint:
			x := st.SignedIntegerData(vi())
			u.Data = append(u.Data, &x)
		case wUint:
			x := st.UnsignedIntegerData(vi())
			u.Data = append(u.Data, &x)
		case wULL:
			x := st.UnsignedLongLongData(vi())
			u.Data = append(u.Data, &x)
		case wFreq:
			x := &st.FreqData{}
			x.CurrentTick = vi()
			x.CurrentPeriod = vi()
			x.LastPeriod = vi()
			u.Data = append(u.Data, x)
		case wDict:
			x := &st.DictData{}
			if l := int(vi()); l > 0 {
				end := p + l
				x.ID = vi()
				if p < end {
					vl := int(vi())
					x.Value = append([]byte{}, b[p:p+vl]...)
					p += vl
				}
			}
			u.Data = append(u.Data, x)
		}
	}
	return u, true, p != len(b)
}

// refSession is what a stream of messages (behind the handshake) means.
type refSession struct {
	updates []string
	known   int  // updates before the first message that may end the session
	open    bool // nothing ends or may end the session
	vague   bool // from updates[vagueAt:] on, the format leaves the result open
	replies int  // replies before anything that may end the session
	ends    bool // a message that has to end the session
	rest    []byte
}

func refPeerStream(b []byte) (r refSession) {
	ms, rest := refParsePMsgs(b)
	r.rest = rest
	r.open = true
	var d *st.Definition
	var prev *uint32
	stop := func() {
		if r.open {
			r.known = len(r.updates)
			r.open = false
		}
	}
	for _, m := range ms {
		switch m.Class {
		case pcControl:
			if m.Type == pctlReq && r.open {
				r.replies++
			}
			if m.Type > pctlHeartbeat {
				stop()
			}
		case pcTable:
			switch m.Type {
			case ptDef:
				n, ok, either := refDecodeDef(m.Data)
				if !ok || either {
					// what follows belongs to a table nobody knows
					d = nil
					stop()
					if either {
						r.vague = true
						return r
					}
					break
				}
				d = n
			case ptUpdate, ptInc, ptTimed, ptIncTimed:
				if d == nil {
					stop()
					break
				}
				u, ok, either := refDecodeEntry(d, m.Type, prev, m.Data)
				if either {
					stop()
					r.vague = true
					return r
				}
				if !ok {
					stop()
					break
				}
				id := u.LocalUpdateID
				prev = &id
				r.updates = append(r.updates, showEntry(u))
			case ptAck:
			case ptSwitch:
				// not implemented by the library: the table switched to is open
				stop()
				r.vague = true
				return r
			default:
				stop()
			}
		default:
			stop()
		}
	}
	if r.open {
		r.known = len(r.updates)
	}
	return r
}

// ---------------------------------------------------------------- environment

type updRec struct {
	u     *st.EntryUpdate
	shown string
	at    time.Duration
}

type psess struct {
	*Conn
	e           *peerEnv
	upds        []updRec
	hs          []peers.Handshake
	closes      int
	closedAt    time.Duration
	ctx         context.Context
	cancelAt    time.Duration // when ctx was cancelled, if it was
	cancelled   bool
	w           *peers.Writer
	onHandshake func(s *psess)
	onUpdate    func(s *psess, u *st.EntryUpdate)
	onClose     func(s *psess)
	closeErr    error // what the handler's Close returns
	inHandler   int
	started     bool
}

type peerEnv struct {
	c      *Case
	x      *sched.Exec
	l      *Listener
	ctx    context.Context
	cancel context.CancelFunc
	peer   *peers.Peer
	sess   []*psess
	next   int
	ret    int
	retErr error
	base   []string
}

func newPeers(x *sched.Exec, c *Case) *peerEnv {
	e := &peerEnv{c: c, x: x, l: &Listener{}}
	e.ctx, e.cancel = baseContext(x, c)
	e.peer = &peers.Peer{BaseContext: e.ctx, HandlerSource: e.source}
	return e
}

func (e *peerEnv) source() peers.Handler {
	if e.next >= len(e.sess) {
		e.c.Fail("C19", "more handlers requested than connections accepted")
		return &psess{Conn: NewConn("spare"), e: e}
	}
	s := e.sess[e.next]
	e.next++
	s.started = true
	return s
}

func (e *peerEnv) start() {
	sched.Go("serve", func() {
		e.retErr = e.peer.Serve(e.l)
		e.ret++
	})
}

func (e *peerEnv) dial(name string) *psess {
	s := &psess{Conn: NewConn(name), e: e}
	e.sess = append(e.sess, s)
	e.l.Push(s.Conn)
	return s
}

// handshakes of the length of stdHandshake: which one a session begins with
// changes from case to case and from session to session.
var handshakes = [][]byte{
	stdHandshake,
	[]byte("HAProxyS 2.0\nagent\nhaproxy 1234 0\n"),
	[]byte("HAProxyS 2.1\nhaproxy\nagent 1 7007\n"),
	[]byte("HAProxyS 2.1\nsame-a\nsame-a 9999 1\n"),
	[]byte("HAProxyS 2.1\nx\nlb-10.internal 1 0\n"),
}

func (s *psess) hello() *psess {
	for _, h := range handshakes {
		if len(h) != len(stdHandshake) {
			panic("harness: handshakes of different lengths")
		}
	}
	s.Feed(handshakes[formOf(s.Name)%len(handshakes)])
	return s
}

func (s *psess) enter(what string, ctx context.Context) {
	s.inHandler++
	if s.inHandler > 1 {
		s.e.c.Fail("C14,C19", "%s: %s called while another handler call is running", s.Name, what)
	}
	if ctx == nil {
		s.e.c.Fail("C14,C20", "%s: %s called without context", s.Name, what)
		return
	}
	if s.ctx == nil {
		context.AfterFunc(ctx, func() {
			if !sched.Killing() {
				s.cancelAt, s.cancelled = sched.Now(), true
			}
		})
	}
	s.ctx = ctx
	if s.w == nil {
		s.w = peers.WriterFromContext(ctx)
	}
	if peers.Connection(ctx) != s.Conn {
		s.e.c.Fail("C14,C17,C20", "%s: %s called with the context of another connection", s.Name, what)
	}
}

func (s *psess) HandleHandshake(ctx context.Context, h *peers.Handshake) {
	s.enter("HandleHandshake", ctx)
	defer func() { s.inHandler-- }()
	if len(s.upds) > 0 {
		s.e.c.Fail("C20", "%s: handshake reported after an update", s.Name)
	}
	if s.closes > 0 {
		s.e.c.Fail("C19", "%s: handshake reported after Close", s.Name)
	}
	s.hs = append(s.hs, *h)
	if s.onHandshake != nil {
		s.onHandshake(s)
	}
	sched.PointAt("handshake handler")
}

func (s *psess) HandleUpdate(ctx context.Context, u *st.EntryUpdate) {
	s.enter("HandleUpdate", ctx)
	defer func() { s.inHandler-- }()
	if s.closes > 0 {
		s.e.c.Fail("C19", "%s: update delivered after the handler was closed", s.Name)
	}
	if len(s.hs) == 0 {
		s.e.c.Fail("C20", "%s: update delivered before the handshake", s.Name)
	}
	s.upds = append(s.upds, updRec{u, showEntry(u), sched.Now()})
	if len(u.Data) < 100 {
		_ = u.String() // handlers log updates
	}
	if s.onUpdate != nil {
		s.onUpdate(s, u)
	}
	sched.PointAt("update handler")
}

func (s *psess) Close() error {
	s.closes++
	if s.closes == 1 {
		s.closedAt = sched.Now()
	}
	if s.inHandler > 0 {
		s.e.c.Fail("C19", "%s: handler closed while another handler call is running", s.Name)
	}
	if s.onClose != nil {
		s.onClose(s)
	}
	sched.PointAt("close handler")
	return s.closeErr
}

// sentAll: what a handler saw equals want, and none of it changed since.
func (s *psess) checkUpdates(props string, want []string) {
	for i, u := range s.upds {
		if i >= len(want) {
			s.e.c.Fail(props, "%s: update %d delivered, only %d sent: %s", s.Name, i, len(want), u.shown)
			return
		}
		if u.shown != want[i] {
			s.e.c.Fail(props, "%s: update %d is %s, sent %s", s.Name, i, u.shown, want[i])
			return
		}
	}
	if len(s.upds) < len(want) {
		s.e.c.Fail(props, "%s: only %d of %d updates delivered, missing %s", s.Name, len(s.upds), len(want), want[len(s.upds)])
	}
}

func (s *psess) unaltered() {
	for i, u := range s.upds {
		if now := showEntry(u.u); now != u.shown {
			s.e.c.Fail("C14,C17", "%s: update %d was %s when delivered and is %s now", s.Name, i, u.shown, now)
		}
	}
}

// output splits what was sent to the peer.
func (s *psess) output(broken bool) (ms []PMsg, ok bool) {
	if len(s.Out) == 0 {
		return nil, false
	}
	if !strings.HasPrefix(string(s.Out), stdStatus) {
		if broken && strings.HasPrefix(stdStatus, string(s.Out)) {
			return nil, false
		}
		s.e.c.Fail("C15,C20", "%s: first bytes sent are %q", s.Name, clip(string(s.Out), 20))
		return nil, false
	}
	ms, rest := refParsePMsgs(s.Out[len(stdStatus):])
	if len(rest) > 0 && !broken {
		s.e.c.Fail("C15,C20", "%s: output ends inside a message: %x", s.Name, clipb(rest, 40))
	}
	for i := range ms {
		ms[i].Off += len(stdStatus)
		ms[i].End += len(stdStatus)
	}
	return ms, true
}

func isHeartbeat(m PMsg) bool { return m.Class == pcControl && m.Type == pctlHeartbeat }
func isPartial(m PMsg) bool   { return m.Class == pcControl && m.Type == pctlPartial }

func partials(ms []PMsg) (n int) {
	for _, m := range ms {
		if isPartial(m) {
			n++
		}
	}
	return
}

// over: everything a finished session must have released.
func (s *psess) over(why string) {
	if s.Closes == 0 {
		s.e.c.Fail("C17,C18,C19,C20", "%s: connection not closed after %s", s.Name, why)
	}
	if s.closes != 1 {
		s.e.c.Fail("C19", "%s: handler closed %d times after %s", s.Name, s.closes, why)
		if s.closes == 0 {
			s.e.c.Fail("C18", "%s: handler not closed after %s", s.Name, why)
		}
	}
	if s.ctx != nil && s.ctx.Err() == nil {
		s.e.c.Fail("C17,C18,C19", "%s: handler context not cancelled after %s", s.Name, why)
	}
	// one end, not three
	if s.Closes > 0 && s.closes > 0 && s.cancelled {
		first := min(s.ClosedAt, s.closedAt)
		last := max(s.ClosedAt, s.closedAt)
		if s.e.ctx.Err() == nil {
			first = min(first, s.cancelAt)
		}
		if last = max(last, s.cancelAt); last > first+lateSlack {
			s.e.c.Fail("C17,C18,C19", "%s: after %s the connection was closed at %v, the handler at %v, its context cancelled at %v", s.Name, why, s.ClosedAt, s.closedAt, s.cancelAt)
		}
	}
}

// alive: a session that nothing has ended.
func (s *psess) alive(props, why string) {
	if s.Closes > 0 || s.closes > 0 {
		s.e.c.Fail(props, "%s: session ended (conn closed %d, handler closed %d) %s", s.Name, s.Closes, s.closes, why)
	}
	if s.ctx != nil && s.ctx.Err() != nil && s.e.ctx.Err() == nil {
		s.e.c.Fail(props, "%s: handler context cancelled %s", s.Name, why)
	}
}

func (e *peerEnv) baseline() { e.base = liveNames(e.x) }

func (e *peerEnv) leaks() {
	if now := liveNames(e.x); strings.Join(now, ",") != strings.Join(e.base, ",") {
		e.c.Fail("C19", "goroutines left after the sessions ended: before %v, now %v (%v)", e.base, now, e.x.Blocked())
	}
}

func (e *peerEnv) outcome() {
	var b strings.Builder
	for _, s := range e.sess {
		fmt.Fprintf(&b, "%s: hs %d upd %d close %d@%v conn %d@%v out", s.Name, len(s.hs), len(s.upds), s.closes, s.closedAt, s.Closes, s.ClosedAt)
		if strings.HasPrefix(string(s.Out), stdStatus) {
			ms, rest := refParsePMsgs(s.Out[len(stdStatus):])
			for _, m := range ms {
				fmt.Fprintf(&b, " %v", m)
			}
			fmt.Fprintf(&b, " +%d;", len(rest))
		} else {
			fmt.Fprintf(&b, " %d bytes;", len(s.Out))
		}
	}
	fmt.Fprintf(&b, " ret %d", e.ret)
	e.c.Outcome = b.String()
}

func peerCase(label string, horizon time.Duration, body func(e *peerEnv), final func(e *peerEnv)) *Case {
	c := &Case{Label: label}
	c.Cfg.NumCPU = 2
	c.Cfg.Horizon = horizon
	var e *peerEnv
	c.Body = func(x *sched.Exec) {
		e = newPeers(x, c)
		e.start()
		settle()
		e.baseline()
		body(e)
		settle()
		e.probe(horizon)
	}
	c.Final = func(x *sched.Exec) {
		if e == nil {
			c.Fail("", "driver did not start")
			return
		}
		final(e)
		e.outcome()
	}
	return c
}

// probe: whatever the history was, a peer that still serves gives two new
// sessions a clean start.
func (e *peerEnv) probe(horizon time.Duration) {
	if e.c.devs > 1 || e.ctx.Err() != nil || e.ret > 0 || e.l.closed > 0 || e.l.err != nil || len(e.c.Fails) > 0 ||
		e.peer.Handler != nil || e.next != len(e.sess) || horizon-sched.Now() < 50*time.Millisecond {
		return
	}
	sched.Quiet()
	sq := []peerSeq{seqOf([]int{0, 7, 2, 4, 1, 3}), seqOf([]int{4, 3, 3, 7, 7, 5, 2, 0, 1})}
	var l []*psess
	var ps []*pusher
	for i := range sq {
		s := e.dial(string(rune('Y' + i))).hello()
		settle()
		if !s.started || len(s.hs) != 1 {
			e.c.Fail("C17,C19,C20", "%s: a new session is not served afterwards", s.Name)
			return
		}
		l = append(l, s)
		ps = append(ps, &pusher{e: e, s: s})
	}
	for i, p := range ps {
		l[i].Feed(sq[i].stream)
		p.run(i, "def", 0)
		settle()
	}
	for k, what := range []string{"entry", "batch", "timed"} {
		for i, p := range ps {
			p.run(i, what, k)
			settle()
		}
	}
	for i, s := range l {
		s.checkUpdates("C14,C17", sq[i].want)
		s.unaltered()
		s.alive("C14,C17,C18", "after valid messages only")
		ps[i].verdict(false, sq[i].reqs)
		s.EOF()
	}
	settle()
	for _, s := range l {
		if s.Closes == 0 {
			e.c.Fail("C19", "%s: connection not closed after end of stream", s.Name)
		}
	}
}
