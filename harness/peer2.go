package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/sched"
)

// ---------------------------------------------------------------- C18

const (
	beatEvery = 3 * time.Second
	deadAfter = 5 * time.Second
	// slack for the timing properties: virtual time has no noise, but a
	// correct implementation may poll or round.
	lateSlack = 900 * time.Millisecond
	beatSlack = 100 * time.Millisecond
)

// beats: no gap in the output longer than the heartbeat interval.
func (s *psess) beats(from, to time.Duration) {
	last := from
	for _, r := range s.Recs {
		if r.At > last && r.At-last > beatEvery+beatSlack && last >= from {
			break
		}
		if r.At > last {
			last = r.At
		}
	}
	// recompute strictly, for the message
	last = from
	for _, r := range append(append([]WriteRec{}, s.Recs...), WriteRec{At: to}) {
		if r.At < from {
			continue
		}
		if r.At > to {
			break
		}
		if r.At-last > beatEvery+beatSlack {
			s.e.c.Fail("C18", "%s: nothing sent to the peer between %v and %v", s.Name, last, r.At)
			return
		}
		last = r.At
	}
}

type arrival struct {
	gap  time.Duration // since the previous one
	kind int           // 0 heartbeat 1 update 2 request 3 confirmed 4 ack 5 split update (rest arrives with the next gap)
	push bool          // push an update at this time
	over int           // so many bytes of the next message arrive with it
}

func arrivalMsg(kind, i int) []byte {
	switch kind {
	case 1, 5:
		v := seqVals(0, i)
		v.withID = true
		return v.msg()
	case 2:
		return ctl(pctlReq)
	case 3:
		return ctl(pctlConfirmed)
	case 4:
		return refPMsg(pcTable, ptAck, []byte{1, 0, 0, 0, 1})
	}
	return ctl(pctlHeartbeat)
}

func timesCase(label string, arr []arrival, wait time.Duration) *Case {
	var s *psess
	var lastFull, lastByte, t0 time.Duration
	sum := wait
	for _, a := range arr {
		sum += a.gap
	}
	return peerCase(label, sum+20*time.Second, func(e *peerEnv) {
		s = e.dial("A").hello()
		settle()
		t0 = sched.Now() - time.Millisecond
		lastFull, lastByte = t0, t0
		s.Feed(defMsg(seqDef(0)))
		settle()
		lastFull = sched.Now() - time.Millisecond
		lastByte = lastFull
		early := 0 // bytes of the message that arrived with the one before
		for i, a := range arr {
			if i == 0 && a.gap > time.Millisecond {
				a.gap -= time.Millisecond // gaps count from the last message
			}
			b := arrivalMsg(a.kind, i)[early:]
			var tail []byte
			early = 0
			if a.over > 0 && i+1 < len(arr) {
				next := arrivalMsg(arr[i+1].kind, i+1)
				early = min(a.over, len(next)-1)
				b = append(b[:len(b):len(b)], next[:early]...)
			}
			if a.kind == 5 && a.over == 0 && a.gap > 2*time.Millisecond {
				h := a.gap / 2
				sched.Sleep(h)
				s.Feed(b[:len(b)/2])
				lastByte = sched.Now()
				tail = b[len(b)/2:]
				sched.Sleep(a.gap - h)
				b = tail
			} else {
				sched.Sleep(a.gap)
			}
			if s.Closes > 0 || s.closes > 0 {
				return
			}
			s.Feed(b)
			lastFull, lastByte = sched.Now(), sched.Now()
			if a.push && s.w != nil {
				_ = s.w.SendEntry(seqVals(0, i).entry(seqDef(0)))
			}
		}
		sched.Sleep(wait)
		if wait > deadAfter+lateSlack {
			sched.Sleep(3 * time.Second)
		}
	}, func(e *peerEnv) {
		if len(s.hs) == 0 {
			e.c.Fail("C18", "no handshake")
			return
		}
		end := s.ClosedAt
		if s.Closes == 0 && s.closes == 0 {
			if wait > deadAfter+lateSlack {
				e.c.Fail("C18", "silent peer not disconnected: last message at %v, %s", lastFull, "session still open")
			}
			end = lastFull + wait
		} else {
			if s.Closes > 0 && s.closes > 0 && s.closedAt < end {
				end = s.closedAt
			}
			if end < lastFull+deadAfter {
				e.c.Fail("C18", "disconnected at %v, although a message arrived at %v", end, lastFull)
			}
			if end > lastByte+deadAfter+lateSlack {
				e.c.Fail("C18", "silent peer disconnected at %v only, last byte at %v", end, lastByte)
			}
			s.over("5 seconds of silence")
			if s.closedAt > lastByte+deadAfter+lateSlack {
				e.c.Fail("C18", "handler of a silent peer closed at %v only, last byte at %v", s.closedAt, lastByte)
			}
		}
		s.beats(t0, end)
	})
}

func initPeerTimes() {
	ms := time.Millisecond
	gaps := []time.Duration{1 * ms, 500 * ms, 2999 * ms, 3000 * ms, 4000 * ms, 4999 * ms}
	g := len(gaps)
	scns = append(scns, &Scn{Name: "peer-silence", Props: []string{"C18"},
		N: func(tier string) int {
			if tier == "thorough" {
				return pow(g, 6) + g
			}
			return pow(g, 5) + g
		},
		Make: func(v int) *Case {
			if v < g {
				// nothing, or one message
				var arr []arrival
				if v > 0 {
					arr = []arrival{{gap: gaps[v]}}
				}
				return timesCase(fmt.Sprintf("%d messages, then silence", len(arr)), arr, 12*time.Second)
			}
			v -= g
			n := ndigits(v, g, 4)
			var arr []arrival
			for i, d := range digits(v, g, n) {
				arr = append(arr, arrival{gap: gaps[d], kind: (v + i*i) % 6, push: v%3 == 0})
			}
			return timesCase(fmt.Sprintf("arrivals %v, then silence", arr), arr, 12*time.Second)
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 0, Secs: 150}},
	})
	// every kind of message alone keeps the session alive
	scns = append(scns, &Scn{Name: "peer-alive", Props: []string{"C18"}, N: fixedN(6 * 4 * 4),
		Make: func(v int) *Case {
			over := []int{0, 1, 3, 99}[v/24]
			v %= 24
			k, gap := v%6, gaps[2+v/6]
			var arr []arrival
			for i := 0; i < 16; i++ {
				arr = append(arr, arrival{gap: gap, kind: k, push: v%2 == 1 && i%3 == 0, over: over})
			}
			return timesCase(fmt.Sprintf("message kind %d every %v, %d bytes early", k, gap, over), arr, time.Second)
		},
		Quick: []Bound{{D: 1, Secs: 100}},
		Thor:  []Bound{{D: 2, Secs: 100}},
	})
	// schedules around the timers
	progs := [][]arrival{
		nil,
		{{gap: 4999 * ms}},
		{{gap: 3000 * ms}, {gap: 3000 * ms, kind: 2}},
		{{gap: 2999 * ms, kind: 1, push: true}, {gap: 4999 * ms, kind: 2}},
		{{gap: 4 * time.Second, kind: 5}, {gap: 1 * ms}, {gap: 4998 * ms, kind: 1}},
	}
	scns = append(scns, &Scn{Name: "peer-silence-sched", Props: []string{"C18", "C19"}, N: fixedN(len(progs)),
		Make:  func(v int) *Case { return timesCase(fmt.Sprintf("arrivals %v", progs[v]), progs[v], 9*time.Second) },
		Quick: []Bound{{D: 3, Secs: 200}},
		Thor:  []Bound{{D: 4, Secs: 200}},
	})
	// several sessions: their timers are independent
	scns = append(scns, &Scn{Name: "peer-silence-two", Props: []string{"C18", "C17"}, N: fixedN(4),
		Make: func(v int) *Case {
			var a, b *psess
			var last time.Duration
			return peerCase(fmt.Sprintf("a silent and a live session, case %d", v), 40*time.Second, func(e *peerEnv) {
				a = e.dial("A").hello()
				settle()
				b = e.dial("B").hello()
				if v&1 == 1 {
					b.Feed(stdHandshake[:0])
				}
				for i := 0; i < 5; i++ {
					sched.Sleep([]time.Duration{2500 * ms, 3000 * ms, 4900 * ms, 4999 * ms}[v])
					b.Feed(ctl(pctlHeartbeat))
					last = sched.Now()
				}
				settle()
			}, func(e *peerEnv) {
				a.over("silence")
				if a.ClosedAt < deadAfter || a.ClosedAt > deadAfter+lateSlack {
					e.c.Fail("C18", "silent session closed at %v", a.ClosedAt)
				}
				b.over("silence")
				if b.ClosedAt < last+deadAfter || b.ClosedAt > last+deadAfter+lateSlack {
					e.c.Fail("C18", "session closed at %v, last message at %v", b.ClosedAt, last)
				}
				b.beats(2*ms, b.ClosedAt)
				e.leaks()
			})
		},
		Quick: []Bound{{D: 2, Secs: 100}},
		Thor:  []Bound{{D: 3, Secs: 100}},
	})
	// a long session with irregular traffic
	scns = append(scns, &Scn{Name: "peer-long", Props: []string{"C18"}, N: fixedN(6),
		Make: func(v int) *Case {
			var arr []arrival
			for i := 0; i < 120; i++ {
				d := gaps[(i*i*(v+1)+i*7+v)%g]
				arr = append(arr, arrival{gap: d, kind: (i*3 + v) % 6, push: (i+v)%4 == 0})
			}
			return timesCase(fmt.Sprintf("long irregular session %d", v), arr, 12*time.Second)
		},
		Quick: []Bound{{D: 0, Secs: 60}},
	})
}

// ---------------------------------------------------------------- C19

func initPeerEnd() {
	sq := seqOf([]int{0, 7, 2, 4, 1, 3})
	full := append(append([]byte{}, stdHandshake...), sq.stream...)
	hs := len(stdHandshake)
	// the end at every byte
	scns = append(scns, &Scn{Name: "peer-loss", Props: []string{"C19", "C14", "C17", "C20"}, N: fixedN((len(full) + 1) * 6),
		Make: func(v int) *Case {
			cut := v / 6
			how := v % 3
			pipelined := v%6 >= 3
			var s, h *psess
			return peerCase(fmt.Sprintf("%s after %d of %d bytes (pipelined %v)", []string{"EOF", "reset", "broken pipe"}[how], cut, len(full), pipelined), 30*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				if pipelined {
					s.Feed(full[:cut])
				} else {
					s.Feed(full[:min(cut, hs)])
					settle()
					if cut > hs {
						s.Feed(full[hs:cut])
						settle()
					}
				}
				switch how {
				case 0:
					s.EOF()
				case 1:
					s.Reset(syscall.ECONNRESET)
				case 2:
					s.Reset(syscall.EPIPE)
				}
				settle()
				h = e.dial("H").hello()
				h.Feed(sq.stream)
				settle()
				h.EOF()
				sched.Sleep(10 * time.Second)
			}, func(e *peerEnv) {
				endVerdict(e, s, full[min(hs, cut):cut], cut < hs, how == 0 && !pipelined || how == 0)
				h.checkUpdates("C14,C17,C19", sq.want)
				h.over("end of stream")
				e.leaks()
				if e.ret > 0 {
					e.c.Fail("C17,C19", "Serve returned (%v) because a session ended", e.retErr)
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 250}},
		Thor:  []Bound{{D: 2, Secs: 250}},
	})
	scns = append(scns, &Scn{Name: "peer-loss-sched", Props: []string{"C19"}, N: fixedN(8),
		Make: func(v int) *Case {
			cut := []int{0, hs - 1, hs, hs + 10, len(full)}[v%5]
			how := v % 2
			var s *psess
			return peerCase(fmt.Sprintf("%s after %d bytes", []string{"EOF", "reset"}[how], cut), 30*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				s.Feed(full[:cut])
				if v >= 4 {
					settle()
				}
				if how == 0 {
					s.EOF()
				} else {
					s.Reset(syscall.ECONNRESET)
				}
				settle()
				sched.Sleep(10 * time.Second)
			}, func(e *peerEnv) {
				endVerdict(e, s, full[min(hs, cut):cut], cut < hs, false)
				e.leaks()
			})
		},
		Quick: []Bound{{D: 3, Secs: 200}},
		Thor:  []Bound{{D: 4, Secs: 200}},
	})

	// ends by protocol error, timeout, cancellation, and two of them at once
	errs := map[string][]byte{
		"protocol error message":   {pcError, 0},
		"size limit message":       {pcError, 1},
		"unknown error message":    {pcError, 9},
		"unknown class":            {77, 1},
		"reserved class":           {255, 255, 0},
		"unknown control":          {pcControl, 9},
		"unknown update":           {pcTable, 0x90, 0},
		"malformed update":         refPMsg(pcTable, ptUpdate, []byte{0, 0}),
		"malformed definition":     refPMsg(pcTable, ptDef, []byte{1, 200, 1}),
		"bad length":               append([]byte{pcTable, ptUpdate}, bytes.Repeat([]byte{0xff}, 11)...),
		"huge length":              append([]byte{pcTable, ptUpdate}, refVarint(1<<40)...),
		"message without its data": {pcTable, ptUpdate, 50},
	}
	names := sortedKeys(errs)
	kinds := append([]string{}, names...)
	kinds = append(kinds, "silence", "cancel+eof", "cancel+silence", "silence+eof", "beat+eof", "eof+cancel", "cancel+error")
	// the base context ends by a deadline or with a cause
	var bases []string
	for _, k := range kinds {
		if strings.Contains(k, "cancel") {
			bases = append(bases, k, k, k, k)
		}
	}
	scns = append(scns, &Scn{Name: "peer-ends", Props: []string{"C19", "C17", "C18"}, N: fixedN(len(kinds)*6 + len(bases)),
		Make: func(v int) *Case {
			mode, base := v/len(kinds)/2, 0
			k := kinds[v/2%len(kinds)]
			if i := v - len(kinds)*6; i >= 0 {
				mode, k, base = 0, bases[i], 1+i/2%2
			}
			busy := v&1 == 1
			var s *psess
			n := 0
			c := peerCase(fmt.Sprintf("session ended by %s%s, other updates in flight %v%s", k, baseKinds[base], busy, []string{"", ", handler's Close fails", ", closing the connection reports an error"}[mode]), 40*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				switch mode {
				case 1:
					s.closeErr = []error{errors.New("handler"), io.EOF, net.ErrClosed, context.Canceled}[v/2%4]
				case 2:
					s.CloseErr = []error{syscall.EIO, syscall.ENOTCONN}[v/2%2]
				}
				s.Feed(sq.stream)
				n = len(sq.want)
				settle()
				if busy {
					s.onUpdate = func(s *psess, u *st.EntryUpdate) {
						sched.PointAt("slow")
						_ = s.w.SendEntry(seqVals(0, 3).entry(seqDef(0)))
					}
					s.Feed(defMsg(seqDef(0)), arrivalMsg(1, 1), arrivalMsg(1, 2))
					n += 2
				}
				switch k {
				case "silence":
				case "cancel+eof":
					e.cancel()
					s.EOF()
				case "eof+cancel":
					s.EOF()
					sched.PointAt("between")
					e.cancel()
				case "cancel+silence":
					e.cancel()
				case "silence+eof":
					sched.Sleep(deadAfter - time.Millisecond)
					s.EOF()
				case "beat+eof":
					sched.Sleep(beatEvery - time.Millisecond)
					s.EOF()
				case "cancel+error":
					e.cancel()
					s.Feed(errs["unknown class"])
				default:
					s.Feed(errs[k])
				}
				settle()
				sched.Sleep(12 * time.Second)
			}, func(e *peerEnv) {
				s.over(k)
				if len(s.upds) != n && !strings.Contains(k, "cancel") {
					e.c.Fail("C19,C14", "%d updates delivered, %d sent before the end", len(s.upds), n)
				}
				s.unaltered()
				if !strings.Contains(k, "cancel") {
					e.leaks()
					if e.ret > 0 {
						e.c.Fail("C19", "Serve returned (%v) because a session ended", e.retErr)
					}
				} else {
					if e.ret != 1 {
						e.c.Fail("C19", "Serve returned %d times after the base context was cancelled", e.ret)
					}
					for _, n := range liveNames(e.x) {
						if !contains(e.base, n) {
							e.c.Fail("C19", "goroutine %s left after the session ended (%v)", n, e.x.Blocked())
						}
					}
				}
			})
			c.Base = base
			return c
		},
		Quick: []Bound{{D: 2, Secs: 300, To: len(kinds) * 2}, {D: 1, Secs: 100, From: len(kinds) * 2}},
		Thor:  []Bound{{D: 3, Secs: 300, To: len(kinds) * 2}, {D: 2, Secs: 100, From: len(kinds) * 2}},
	})

	// write failures at every write of a session
	scns = append(scns, &Scn{Name: "peer-wfault", Props: []string{"C19", "C15", "C17"}, N: fixedN(12 * 3),
		Make: func(v int) *Case {
			at, part := v/3+1, v%3
			var s, h *psess
			return peerCase(fmt.Sprintf("write %d fails after %d bytes", at, part), 60*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				s.FailAt, s.FailN = at, part
				s.hello()
				s.Feed(sq.stream)
				settle()
				h = e.dial("H").hello()
				// the peer itself stays lively
				for i := 0; i < 14; i++ {
					sched.Sleep(2 * time.Second)
					s.Feed(ctl(pctlHeartbeat))
					h.Feed(ctl(pctlHeartbeat))
					if i%3 == 0 {
						s.Feed(ctl(pctlReq))
					}
					if i == 4 && s.w != nil {
						_ = s.w.SendEntry(seqVals(0, 3).entry(seqDef(0)))
					}
				}
				h.alive("C17,C19", "because another session failed")
				settle()
				if s.Closes == 0 && s.WFailed {
					e.c.Fail("C19", "session still open long after its connection stopped accepting writes")
				}
				h.EOF()
				s.EOF()
				sched.Sleep(8 * time.Second)
			}, func(e *peerEnv) {
				s.over("a write failure")
				h.over("end of stream")
				s.output(s.WFailed)
				if s.WFailed && at == 1 && len(s.upds) > 0 {
					e.c.Fail("C20", "updates delivered although the handshake status could not be sent")
				}
				e.leaks()
				if e.ret > 0 {
					e.c.Fail("C19", "Serve returned (%v) because a session ended", e.retErr)
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 150}},
		Thor:  []Bound{{D: 2, Secs: 150}},
	})

	// base context cancelled while sessions are open; failing Accept
	scns = append(scns, &Scn{Name: "peer-serve", Props: []string{"C19"}, N: fixedN(14 + 2*len(acceptErrs)),
		Make: func(v int) *Case {
			var s *psess
			base, fail := 0, 0
			if v >= 14 {
				v, fail = 4+v&1, (v-14)/2
			} else if v >= 6 {
				v, base = (v-6)%4, 1+(v-6)/4
			}
			c := peerCase(fmt.Sprintf("Serve ends, case %d%s, error %d", v, baseKinds[base], fail), 40*time.Second, func(e *peerEnv) {
				if v&1 == 1 {
					s = e.dial("A").hello()
					s.Feed(sq.stream)
					if v != 5 {
						settle()
					}
				}
				if v < 4 {
					sched.PointAt("cancel")
					e.cancel()
				} else {
					e.l.err = acceptErrs[fail]
				}
				if v >= 2 {
					settle()
					if v < 4 && s != nil && s.ctx != nil && s.ctx.Err() == nil {
						e.c.Fail("C19", "handler context not cancelled with the base context")
					}
					// open sessions do not keep Serve from returning
					for i := 0; s != nil && i < 10; i++ {
						s.Feed(ctl(pctlHeartbeat))
						sched.Sleep(2 * time.Second)
					}
					if e.ret != 1 {
						e.c.Fail("C19", "Serve has not returned while a session was open")
					}
				}
				if s != nil {
					s.EOF()
				}
				sched.Sleep(10 * time.Second)
			}, func(e *peerEnv) {
				if e.ret != 1 {
					e.c.Fail("C19", "Serve returned %d times", e.ret)
				} else if e.retErr == nil {
					e.c.Fail("C19", "Serve returned no error")
				}
				if e.l.closed == 0 && v < 4 {
					e.c.Fail("C19", "listener not closed")
				}
				if s != nil && s.started {
					s.over("end of stream")
				}
			})
			c.Base = base
			return c
		},
		Quick: []Bound{{D: 3, Secs: 100}},
		Thor:  []Bound{{D: 4, Secs: 100}},
	})

	// a Handler shared by sessions instead of a HandlerSource
	scns = append(scns, &Scn{Name: "peer-shared-handler", Props: []string{"C19", "C14"}, N: fixedN(2),
		Make: func(v int) *Case {
			h := &sharedHandler{}
			return peerCase(fmt.Sprintf("one handler for %d sessions", v+1), 30*time.Second, func(e *peerEnv) {
				e2 := newPeers(e.x, e.c)
				e2.peer = &peers.Peer{BaseContext: e2.ctx, Handler: h}
				e2.start()
				for i := 0; i <= v; i++ {
					c := NewConn(string(rune('P' + i)))
					e2.l.Push(c)
					c.Feed(stdHandshake, sq.stream)
					c.EOF()
				}
				settle()
				sched.Sleep(8 * time.Second)
				e2.cancel()
			}, func(e *peerEnv) {
				if h.upd != (v+1)*len(sq.want) || h.hs != v+1 || h.close != v+1 {
					e.c.Fail("C19,C14", "%d sessions: %d handshakes, %d updates (%d sent), %d closes", v+1, h.hs, h.upd, (v+1)*len(sq.want), h.close)
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 30}},
	})

	// handlers that wait until their context is cancelled
	scns = append(scns, &Scn{Name: "peer-ctxwait", Props: []string{"C19", "C18"}, N: fixedN(6),
		Make: func(v int) *Case {
			how := []string{"the base context is cancelled while the handshake handler waits", "the base context is cancelled while the update handler waits",
				"the peer falls silent while the update handler waits", "the peer is gone while the update handler waits", "writing fails while the update handler waits",
				"the peer falls silent after a while while the update handler waits"}[v]
			var s, h *psess
			var limit time.Duration
			return peerCase(how, 60*time.Second, func(e *peerEnv) {
				waits := true
				s = e.dial("A")
				wait := func(s *psess) {
					sched.At("waits for its context", func() bool { return !waits || s.ctx == nil || s.ctx.Err() != nil })
				}
				if v == 0 {
					s.onHandshake = wait
				} else {
					s.onUpdate = func(s *psess, u *st.EntryUpdate) { wait(s) }
				}
				h = e.dial("H").hello()
				s.hello()
				if v == 5 {
					s.Feed(ctl(pctlHeartbeat))
					sched.Sleep(4 * time.Second)
					h.Feed(ctl(pctlHeartbeat))
				}
				s.Feed(sq.stream)
				settle()
				start := sched.Now()
				switch v {
				case 0, 1:
					sched.Sleep(time.Second)
					e.cancel()
					limit = start + time.Second
				case 2, 5:
					limit = start + 5*time.Second
				case 3:
					s.EOF()
					limit = start + 5*time.Second
				case 4:
					s.Reset(syscall.EPIPE)
					s.WFailed = true
					limit = start + 5*time.Second
				}
				for i := 0; i < 3; i++ {
					sched.Sleep(3 * time.Second)
					h.Feed(ctl(pctlHeartbeat))
				}
				settle()
				if !s.cancelled || s.cancelAt > limit+10*time.Millisecond {
					e.c.Fail("C18,C19", "context of the waiting handler cancelled at %v (cancelled: %v), expected by %v: %s", s.cancelAt, s.cancelled, limit, how)
				}
				if v == 0 || v == 1 {
					s.EOF()
					h.EOF()
				} else {
					h.alive("C17,C19", "although another session ended")
					e.cancel()
					s.EOF()
					h.EOF()
				}
				settle()
				waits = false
				settle()
			}, func(e *peerEnv) {
				if s.closes != 1 || s.Closes == 0 {
					e.c.Fail("C19", "handler closed %d times, connection closed %d times: %s", s.closes, s.Closes, how)
				}
				if h.closes != 1 || h.Closes == 0 {
					e.c.Fail("C19", "other session: handler closed %d times, connection closed %d times: %s", h.closes, h.Closes, how)
				}
				s.unaltered()
			})
		},
		Quick: []Bound{{D: 2, Secs: 100}},
		Thor:  []Bound{{D: 3, Secs: 100}},
	})
}

// endVerdict: a session whose input stopped behind the given messages.
func endVerdict(e *peerEnv, s *psess, stream []byte, noHandshake, complete bool) {
	s.over("the peer was lost")
	if s.Closes > 0 && s.ClosedAt > time.Second {
		e.c.Fail("C19", "connection closed only %v after the peer was lost", s.ClosedAt)
	}
	if noHandshake {
		if len(s.Out) > 0 {
			e.c.Fail("C20", "%q sent in reply to a truncated handshake", clip(string(s.Out), 40))
		}
		if len(s.hs) > 0 || len(s.upds) > 0 {
			e.c.Fail("C20", "truncated handshake reported")
		}
		return
	}
	r := refPeerStream(stream)
	s.unaltered()
	if len(s.upds) > len(r.updates) {
		e.c.Fail("C14,C17,C19", "%d updates delivered, %d sent", len(s.upds), len(r.updates))
		return
	}
	for i, u := range s.upds {
		if u.shown != r.updates[i] {
			e.c.Fail("C14,C17", "update %d is %s, sent %s", i, u.shown, r.updates[i])
		}
	}
	if complete && len(s.upds) < len(r.updates) {
		e.c.Fail("C14,C19", "%d of %d updates delivered before the end of stream", len(s.upds), len(r.updates))
	}
	s.output(true)
}

// ---------------------------------------------------------------- C20

type hsCase struct {
	name string
	raw  []byte
	ok   bool
	h    peers.Handshake
}

func hsCases() []hsCase {
	var l []hsCase
	good := func(remote, local string, pid, rel int) {
		l = append(l, hsCase{fmt.Sprintf("remote %q local %q %d %d", clip(remote, 20), clip(local, 20), pid, rel), refHandshake(remote, local, pid, rel), true,
			peers.Handshake{ProtocolIdentifier: "HAProxyS", Version: "2.1", RemotePeer: remote, LocalPeerIdentifier: local, ProcessID: pid, RelativeProcessID: rel}})
	}
	for _, r := range []string{"agent", "a", "haproxy-2.example.org", strings.Repeat("n", 300), "p%dx", "1", "ümläut"} {
		for _, lo := range []string{"haproxy", "h", "42", strings.Repeat("m", 300), "x%s", "é"} {
			good(r, lo, 1234, 0)
		}
	}
	for _, p := range []int{0, 1, 9, 10, 65535, 4194304, math.MaxInt32} {
		for _, q := range []int{0, 1, 63} {
			good("agent", "haproxy", p, q)
		}
	}
	bad := func(s string) { l = append(l, hsCase{name: fmt.Sprintf("%q", clip(s, 60)), raw: []byte(s)}) }
	bad("\n\n\n")
	bad("HAProxyS\nagent\nhaproxy 1 0\n")
	bad("HAProxyS 2.1\nagent\nhaproxy\n")
	bad("HAProxyS 2.1\nagent\nhaproxy 1\n")
	bad("HAProxyS 2.1\nagent\nhaproxy x 0\n")
	bad("HAProxyS 2.1\nagent\nhaproxy 1 y\n")
	bad("HAProxyS 2.1\nagent\n\n")
	bad("HAProxyS 2.1\nhaproxy 1 0\n\n")
	bad("HAProxyS 2.1\nagent\nhaproxy 99999999999999999999999 0\n")
	bad("HAProxyS 2.1\nagent\n1 haproxy 0\n")
	bad("\nHAProxyS 2.1\nagent\nhaproxy 1 0\n")
	bad("\x00\x00\x00\n\x00\n\x00\n")
	bad(strings.Repeat("A", 100) + "\n" + "b\nc\n")
	return l
}

type sharedHandler struct{ hs, upd, close int }

func (h *sharedHandler) HandleUpdate(_ context.Context, _ *st.EntryUpdate)     { h.upd++ }
func (h *sharedHandler) HandleHandshake(_ context.Context, _ *peers.Handshake) { h.hs++ }
func (h *sharedHandler) Close() error                                          { h.close++; return nil }

func initPeerHandshake() {
	cases := hsCases()
	follow := seqOf([]int{0, 7, 2})
	// reads: whole, bytewise, at each line, together with the messages
	scns = append(scns, &Scn{Name: "peer-handshake", Props: []string{"C20"}, N: fixedN(len(cases) * 4),
		Make: func(v int) *Case {
			h := cases[v/4]
			mode := v % 4
			var s *psess
			return peerCase(fmt.Sprintf("handshake %s, mode %d", h.name, mode), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				switch mode {
				case 1:
					for i := range h.raw {
						s.Cut(i)
					}
				case 2:
					for i, c := range h.raw {
						if c == '\n' {
							s.Cut(i, i+1)
						}
					}
				}
				s.Feed(h.raw)
				if mode == 3 {
					settle()
				}
				s.Feed(follow.stream)
				settle()
				if !h.ok {
					s.EOF()
				}
			}, func(e *peerEnv) {
				if !h.ok {
					if len(s.Out) > 0 {
						e.c.Fail("C20", "%q sent in reply to a malformed handshake", clip(string(s.Out), 20))
					}
					if len(s.upds) > 0 || len(s.hs) > 0 {
						e.c.Fail("C20", "malformed handshake: %d handshakes and %d updates reported", len(s.hs), len(s.upds))
					}
					s.over("a malformed handshake")
					return
				}
				if len(s.hs) != 1 || s.hs[0] != h.h {
					e.c.Fail("C20", "handshake reported as %+v, sent %+v", s.hs, h.h)
				}
				s.checkUpdates("C20", follow.want)
				ms, _ := s.output(false)
				if len(ms) != 1 || !isPartial(ms[0]) {
					e.c.Fail("C20", "replies %v to one synchronisation request", ms)
				}
				s.alive("C20", "after a valid handshake")
			})
		},
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 60}},
	})
	// truncation at every byte, end of stream or a stalled peer
	t := refHandshake("agent", "haproxy", 1234, 56)
	scns = append(scns, &Scn{Name: "peer-handshake-cut", Props: []string{"C20", "C19"}, N: fixedN(len(t)),
		Make: func(v int) *Case {
			var s *psess
			return peerCase(fmt.Sprintf("handshake ends after %d of %d bytes", v, len(t)), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				s.Feed(t[:v])
				settle()
				if len(s.Out) > 0 {
					e.c.Fail("C20", "status sent after %d bytes of the handshake", v)
				}
				s.EOF()
			}, func(e *peerEnv) {
				if len(s.Out) > 0 {
					e.c.Fail("C20", "%q sent in reply to a truncated handshake", clip(string(s.Out), 20))
				}
				if len(s.hs) > 0 {
					e.c.Fail("C20", "truncated handshake reported: %+v", s.hs[0])
				}
				s.over("a truncated handshake")
			})
		},
		Quick: []Bound{{D: 1, Secs: 30}},
	})
	// the library's own two sides
	enumParts = append(enumParts, &EnumPart{"handshake-codec", []string{"C20"}, func(e *Enum) {
		for _, h := range hsCases() {
			if !h.ok {
				continue
			}
			e.Case(func() string { return "handshake " + h.name }, func(c *EC) {
				var b bytes.Buffer
				x := h.h
				if _, err := x.WriteTo(&b); err != nil || !bytes.Equal(b.Bytes(), h.raw) {
					c.Fail("WriteTo: %v, %q, want %q", err, clip(b.String(), 80), clip(string(h.raw), 80))
				}
				for cut := 0; cut <= len(h.raw); cut++ {
					c.Ops++
					r := &cutReader{b: append(append([]byte{}, h.raw...), 0, 4, '\n', 1, 2, 3), cut: cut}
					var g peers.Handshake
					_, err := g.ReadFrom(r)
					if err != nil || g != h.h {
						c.Fail("ReadFrom with reads ending at %d: %v %+v", cut, err, g)
						return
					}
					if r.rd > len(h.raw) {
						c.Fail("ReadFrom with reads ending at %d consumed %d bytes of %d", cut, r.rd, len(h.raw))
						return
					}
				}
				c.Outcome = h.name
			})
		}
		n := peers.NewHandshake("remote")
		e.Case(func() string { return "NewHandshake" }, func(c *EC) {
			var b bytes.Buffer
			if _, err := n.WriteTo(&b); err != nil {
				c.Fail("WriteTo: %v", err)
			}
			var g peers.Handshake
			if _, err := g.ReadFrom(&b); err != nil || g != *n || g.RemotePeer != "remote" || g.ProtocolIdentifier != "HAProxyS" {
				c.Fail("NewHandshake does not survive: %+v %+v %v", n, g, err)
			}
			c.Outcome = "new"
		})
	}})
	// sequences of control messages
	nk := 6
	scns = append(scns, &Scn{Name: "peer-control", Props: []string{"C20"},
		N: func(tier string) int {
			if tier == "thorough" {
				return pow(nk, 8)
			}
			return pow(nk, 6)
		},
		Make: func(v int) *Case {
			n := ndigits(v, nk, 4)
			k := digits(v, nk, n)
			var s *psess
			reqs := 0
			return peerCase(fmt.Sprintf("control messages %v", k), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				if v%3 == 0 {
					settle()
				}
				if v%5 == 0 {
					for i := 0; i < 2*n; i++ {
						s.Cut(len(stdHandshake) + i)
					}
				}
				for _, t := range k {
					if t == 5 {
						s.Feed(refPMsg(pcTable, ptAck, []byte{1, 2, 3, 4, 5}))
						continue
					}
					s.Feed(ctl(byte(t)))
					if t == pctlReq {
						reqs++
					}
					if v%3 == 0 && t == pctlReq {
						settle()
						ms, _ := s.output(false)
						if len(ms) != reqs {
							e.c.Fail("C20", "%d replies right after synchronisation request %d", len(ms), reqs)
						}
					}
				}
			}, func(e *peerEnv) {
				ms, _ := s.output(false)
				for _, m := range ms {
					if !isPartial(m) {
						e.c.Fail("C20", "unprompted message %v", m)
					}
				}
				if len(ms) != reqs {
					e.c.Fail("C20", "%d replies to %d synchronisation requests", len(ms), reqs)
				}
				s.alive("C20", "after control messages")
			})
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 0, Secs: 100}},
	})
	// schedules of handshake, status and first update
	scns = append(scns, &Scn{Name: "peer-handshake-sched", Props: []string{"C20", "C15"}, N: fixedN(3),
		Make: func(v int) *Case {
			var s *psess
			return peerCase(fmt.Sprintf("handshake and first messages, case %d", v), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				if v == 1 {
					s.onHandshake = func(s *psess) { _ = s.w.SendTableSwitch(1) }
				}
				if v == 2 {
					s.Chop = true
				}
				s.hello()
				s.Feed(follow.stream)
			}, func(e *peerEnv) {
				if len(s.hs) != 1 {
					e.c.Fail("C20", "handshake reported %d times", len(s.hs))
				}
				s.checkUpdates("C20", follow.want)
				s.output(false)
			})
		},
		Quick: []Bound{{D: 3, Secs: 60}},
		Thor:  []Bound{{D: 4, Secs: 60}},
	})
}

type cutReader struct {
	b   []byte
	rd  int
	cut int
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(r.b) - r.rd
	if n > len(p) {
		n = len(p)
	}
	if r.rd < r.cut && r.rd+n > r.cut {
		n = r.cut - r.rd
	}
	copy(p, r.b[r.rd:r.rd+n])
	r.rd += n
	return n, nil
}

// ---------------------------------------------------------------- C17

func initPeerMalformed() {
	// corrupted streams
	var streams [][]byte
	for _, k := range [][]int{{0, 2}, {4, 1, 3}, {4, 4, 0, 7, 2}, {6, 1, 5, 3}} {
		streams = append(streams, seqOf(k).stream)
	}
	type bad struct {
		name string
		b    []byte
	}
	build := func(thorough bool) []bad {
		var l []bad
		for si, b := range streams {
			vals := []byte{0, 1, 2, 4, 9, 10, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0xef, 0xf0, 0xff}
			if thorough {
				vals = nil
				for x := 0; x < 256; x++ {
					vals = append(vals, byte(x))
				}
			}
			for i := range b {
				l = append(l, bad{fmt.Sprintf("stream %d cut at %d", si, i), b[:i]})
				for _, x := range vals {
					if b[i] == x {
						continue
					}
					c := append([]byte{}, b...)
					c[i] = x
					l = append(l, bad{fmt.Sprintf("stream %d byte %d = %#x", si, i, x), c})
				}
				l = append(l, bad{fmt.Sprintf("stream %d without byte %d", si, i), append(append([]byte{}, b[:i]...), b[i+1:]...)})
				for _, n := range []uint64{300, 1 << 31, 1 << 40, 1 << 63, math.MaxUint64} {
					l = append(l, bad{fmt.Sprintf("stream %d byte %d = varint %d", si, i, n), append(append(append([]byte{}, b[:i]...), refVarint(n)...), b[i+1:]...)})
				}
			}
		}
		// explicit lengths on every message type
		for t := 128; t < 256; t++ {
			for _, n := range []uint64{0, 1, 5, 65536, 1 << 20, 1 << 30, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1 << 63, math.MaxUint64} {
				if t > 140 && t%16 != 0 && t != 255 {
					continue
				}
				b := append([]byte{}, streams[0]...)
				b = append(append(append(b, pcTable, byte(t)), refVarint(n)...), 1, 2, 3, 4, 5)
				l = append(l, bad{fmt.Sprintf("type %#x with length %d", t, n), b})
			}
		}
		for c := 0; c < 256; c++ {
			for _, t := range []byte{0, 1, 4, 5, 127, 128, 255} {
				l = append(l, bad{fmt.Sprintf("class %d type %d", c, t), append(append(append([]byte{}, streams[0]...), byte(c), t, 2, 0, 0), ctl(pctlHeartbeat)...)})
			}
		}
		// any message without or with little content, before any definition
		for t := 128; t < 256; t++ {
			if t > 140 && t%16 != 0 && t != 255 {
				continue
			}
			for n := 0; n < 12; n++ {
				for _, x := range []byte{0, 1, 0xff} {
					m := refPMsg(pcTable, byte(t), bytes.Repeat([]byte{x}, n))
					l = append(l, bad{fmt.Sprintf("type %#x with %d bytes %#x first", t, n, x), append(m, streams[0]...)}, bad{fmt.Sprintf("type %#x with %d bytes %#x behind others", t, n, x), append(append([]byte{}, streams[0]...), m...)})
				}
			}
		}
		// unknown messages that might be ignored, and updates behind them
		// that refer to those before
		for c := 0; c < 256; c++ {
			for _, t := range []byte{0, 1, 4, 5, 6, 9, 127, 128, 129, 132, 134, 135, 140, 255} {
				if c == pcTable && t >= 128 && t != 132 && t < 135 || c != pcControl && c != pcTable && c > 3 && c < 250 {
					continue
				}
				b := append(append([]byte{}, streams[0]...), byte(c), t)
				if t >= 128 {
					b = append(b, 0)
				}
				for i := 0; i < 3; i++ {
					x := seqVals(0, i)
					x.timed = i == 1
					x.withID = i == 2
					b = append(b, x.msg()...)
				}
				l = append(l, bad{fmt.Sprintf("class %d type %d before incremental updates", c, t), b})
			}
		}
		// updates without, or inconsistent with, a definition
		u := seqVals(0, 1)
		u.withID = true
		l = append(l, bad{"update without definition", u.msg()})
		for t := byte(0); t < 64; t++ {
			var m uint64 = 1 << t
			d := append(append([]byte{1, 1, 't', 6, 32}, refVarint(m)...), 0)
			l = append(l, bad{fmt.Sprintf("definition with data type %d", t), append(append(refPMsg(pcTable, ptDef, d), refPMsg(pcTable, ptUpdate, []byte{0, 0, 0, 1, 1, 'k', 1, 2, 3, 4})...), u.msg()...)})
			l = append(l, bad{fmt.Sprintf("definition with data type %d and periods", t), append(append(refPMsg(pcTable, ptDef, append(d, 1, 2, 3, 4, 5, 6)), refPMsg(pcTable, ptUpdate, []byte{0, 0, 0, 1, 1, 'k'})...), u.msg()...)})
		}
		// a definition that cannot be understood does not leave the previous
		// one in force
		for i, d := range [][]byte{{}, {1}, {1, 200, 1}, {2, 1, 'x', 6}, {2, 1, 'x', 6, 32, 0xff}, {2, 1, 'x', 6, 32, 4}, append(refVarint(300), 1, 'x', 6, 32, 0xf0)} {
			b := append(append([]byte{}, streams[0]...), refPMsg(pcTable, ptDef, d)...)
			l = append(l, bad{fmt.Sprintf("malformed definition %d before more updates", i), append(append(b, u.msg()...), streams[0]...)})
		}
		for k := uint64(0); k < 12; k++ {
			for _, sz := range []uint64{0, 1, 3, 4, 5, 15, 16, 17, 32, 1 << 31, 1 << 63, math.MaxUint64} {
				d := append(append(append([]byte{1, 1, 't'}, refVarint(k)...), refVarint(sz)...), 0, 0)
				for _, n := range []int{0, 3, 4, 15, 16, 17, 40} {
					l = append(l, bad{fmt.Sprintf("key type %d size %d with %d bytes", k, sz, n), append(refPMsg(pcTable, ptDef, d), refPMsg(pcTable, ptUpdate, append([]byte{0, 0, 0, 7}, bytes.Repeat([]byte{9}, n)...))...)})
				}
			}
		}
		return l
	}
	quick := build(false)
	var thor []bad
	get := func(v int) bad {
		if v < len(quick) {
			return quick[v]
		}
		if thor == nil {
			thor = build(true)
		}
		return thor[v-len(quick)]
	}
	healthy := seqOf([]int{0, 2, 7})
	scns = append(scns, &Scn{Name: "peer-malformed", Props: []string{"C17", "C19"},
		N: func(tier string) int {
			if tier == "thorough" {
				if thor == nil {
					thor = build(true)
				}
				return len(quick) + len(thor)
			}
			return len(quick)
		},
		Make: func(v int) *Case {
			b := get(v)
			var s, h *psess
			var m0, m1 runtime.MemStats
			return peerCase(fmt.Sprintf("%s (%x)", b.name, clipb(b.b, 60)), 20*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				h = e.dial("H").hello()
				settle()
				runtime.ReadMemStats(&m0)
				s.Feed(b.b)
				settle()
				runtime.ReadMemStats(&m1)
				// a little more traffic, to show data that was kept too long
				h.Feed(healthy.stream)
				settle()
				s.EOF()
				settle()
				late := e.dial("L").hello()
				late.Feed(healthy.stream)
				settle()
				late.checkUpdates("C17", healthy.want)
				late.EOF()
				settle()
				h.EOF()
				sched.Sleep(8 * time.Second)
			}, func(e *peerEnv) {
				if n := m1.TotalAlloc - m0.TotalAlloc; n > 768<<10+uint64(len(b.b))*64 {
					e.c.Fail("C17", "%d bytes allocated for %d bytes of input", n, len(b.b))
				}
				h.checkUpdates("C17", healthy.want)
				s.over("end of stream")
				r := refPeerStream(b.b)
				for i, u := range s.upds {
					if i >= len(r.updates) {
						if !r.vague {
							e.c.Fail("C17", "made-up update delivered: %s", u.shown)
						}
						break
					}
					if u.shown != r.updates[i] {
						if !(r.vague && i >= r.known) {
							e.c.Fail("C17", "update %d delivered as %s, the message says %s", i, u.shown, r.updates[i])
						}
						break
					}
				}
				if len(s.upds) < r.known {
					e.c.Fail("C17", "%d updates delivered, %d well-formed ones came before the defect", len(s.upds), r.known)
				}
				s.unaltered()
				e.leaks()
				if e.ret > 0 {
					e.c.Fail("C17", "Serve returned: %v", e.retErr)
				}
			})
		},
		Quick: []Bound{{D: 0, Secs: 80}},
		Thor:  []Bound{{D: 0, Secs: 250}},
	})
	// schedules around a failing session
	fails := [][]byte{
		{pcError, 0},
		refPMsg(pcTable, ptUpdate, []byte{0, 0}),
		append([]byte{pcTable, ptUpdate}, refVarint(math.MaxUint64)...),
		{9, 9},
	}
	scns = append(scns, &Scn{Name: "peer-malformed-sched", Props: []string{"C17", "C19"}, N: fixedN(len(fails)),
		Make: func(v int) *Case {
			var s, h *psess
			return peerCase(fmt.Sprintf("bad message %x next to a healthy session", clipb(fails[v], 12)), 20*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				h = e.dial("H").hello()
				h.Feed(healthy.stream)
				s.Feed(streams[0], fails[v], streams[0])
				settle()
				s.EOF()
				settle()
				h.alive("C17", "because another session failed")
				h.EOF()
				sched.Sleep(8 * time.Second)
			}, func(e *peerEnv) {
				h.checkUpdates("C17", healthy.want)
				s.over("a malformed message")
				if r := refPeerStream(streams[0]); len(s.upds) < len(r.updates) {
					e.c.Fail("C17", "updates before the malformed message missing")
				}
				e.leaks()
			})
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 200}},
	})
}
