package main

import (
	"context"
	"fmt"
	"net/netip"
	"strings"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/sched"
)

// Long histories, many sessions, stalled peers and configurations.

func init() { initPeerScale() }

func (e *peerEnv) stillServing(props string) {
	if e.ret > 0 {
		e.c.Fail(props, "Serve returned: %v", e.retErr)
	}
}

// endOf ends a session in the i-th way.
func endOf(s *psess, i int) {
	switch i % 8 {
	case 0:
		s.EOF()
	case 1:
		s.Reset(syscall.ECONNRESET)
	case 2:
		s.Feed([]byte{pcError, 0})
	case 3:
		s.Feed([]byte{99, 1})
	case 4:
		s.Feed(refPMsg(pcTable, ptUpdate, []byte{0, 0}))
	case 5:
		s.Feed([]byte{pcTable, ptUpdate, 50, 1})
		s.EOF()
	case 6:
		s.Feed(append([]byte{pcTable, ptDef}, refVarint(1<<40)...))
	case 7:
		s.Reset(syscall.EPIPE)
	}
}

func initPeerScale() {
	names := []string{"3000 updates of all kinds", "70000 incremental updates across the id wrap", "sessions one after the other", "sessions at once", "pushes, some of them failing",
		"pushes on many sessions", "hours of heartbeats", "growing and shrinking tables and values", "sessions that cannot be written to", "large batches", "a week of heartbeats", "140000 pushes", "70000 sessions", "70000 single pushes"}
	props := []string{"C14", "C15", "C17", "C18", "C19", "C20"}
	scns = append(scns, &Scn{Name: "peer-scale", Props: props,
		N: func(tier string) int {
			if tier == "thorough" {
				return 6 * len(names)
			}
			return 2 * len(names)
		},
		Make: func(v int) *Case {
			kind, rnd := v%len(names), v/len(names)
			reps := 1 + 2*rnd
			if rnd > 2 {
				reps = 5
			}
			var verdict func(e *peerEnv)
			return big2(peerCase(fmt.Sprintf("%s, round %d", names[kind], rnd), 300*time.Hour, func(e *peerEnv) {
				switch kind {
				case 0:
					var ks []int
					x := uint32(v)*77 + 5
					for i := 0; i < 3000*reps; i++ {
						x = x*1664525 + 1013904223
						k := int(x>>20) % nKinds
						ks = append(ks, k)
					}
					sq := seqOf(ks)
					sq.label = ""
					s := e.dial("A").hello()
					for i := 0; i < len(sq.stream); i += 1 + (i*i+rnd)%700 {
						s.Cut(len(stdHandshake) + i)
					}
					s.Feed(sq.stream)
					settle()
					verdict = func(e *peerEnv) { seqVerdict(e, s, sq) }
				case 1:
					s := e.dial("A").hello()
					d := seqDef(2)
					s.Feed(defMsg(d))
					u := seqVals(2, 1)
					u.withID, u.id = true, 1<<32-30000+uint32(rnd)
					want := []string{showEntry(u.entry(d))}
					s.Feed(u.msg())
					id := u.id
					for i := 0; i < 70000; i++ {
						u := seqVals(2, i%251)
						u.timed = i%3 == rnd%3
						id++
						x := u.entry(d)
						x.LocalUpdateID = id
						want = append(want, showEntry(x))
						s.Feed(u.msg())
					}
					settle()
					verdict = func(e *peerEnv) {
						s.checkUpdates("C14", want)
						s.unaltered()
						s.alive("C14,C18", "after valid messages only")
					}
				case 2, 3, 8:
					h := e.dial("H").hello()
					sq := seqOf([]int{0, 7, 2, 4, 1, 3, 8, 9, 10})
					h.Feed(sq.stream)
					settle()
					var l []*psess
					var sqs []peerSeq
					n := 250 * reps
					if kind == 3 {
						n = 80 * reps
					}
					if kind == 8 {
						n = 60 * reps
					}
					for i := 0; i < n; i++ {
						s := e.dial(fmt.Sprintf("s%d", i))
						q := seqOf([]int{i % 4, 4 + i%3, (i + 1) % 4, i % nKinds, 7, (i + 2) % 4})
						l = append(l, s)
						sqs = append(sqs, q)
						if kind == 8 {
							s.FailAt, s.FailN = 1+i%6, i%4
						}
						s.hello()
						s.Feed(q.stream)
						if kind != 3 {
							settle()
							endOf(s, i)
							settle()
						}
						if i%700 == 0 {
							sched.Sleep(time.Second)
							h.Feed(ctl(pctlHeartbeat))
						}
					}
					settle()
					if kind == 3 {
						for i, s := range l {
							if s.w != nil {
								_ = s.w.SendEntry(seqVals(0, i).entry(seqDef(0)))
							}
						}
						settle()
						for i, s := range l {
							endOf(s, i)
						}
						settle()
					}
					for i := 0; i < 3; i++ {
						h.Feed(ctl(pctlHeartbeat))
						sched.Sleep(4 * time.Second)
					}
					h.Feed(ctl(pctlHeartbeat))
					settle()
					live := len(liveNames(e.x)) - len(e.base)
					h2 := e.dial("H2").hello()
					h2.Feed(sq.stream)
					settle()
					verdict = func(e *peerEnv) {
						h.checkUpdates("C14,C17", sq.want)
						h.alive("C17,C19", "because other sessions ended")
						h2.checkUpdates("C14,C17,C19", sq.want)
						h2.alive("C17,C19", "because other sessions ended")
						for i, s := range l {
							s.over("its end")
							s.unaltered()
							if kind != 8 {
								s.checkUpdates("C14,C17", sqs[i].want)
								continue
							}
							s.output(true)
							for j, u := range s.upds {
								if j >= len(sqs[i].want) || u.shown != sqs[i].want[j] {
									e.c.Fail("C14,C17", "%s: update %d is %s", s.Name, j, u.shown)
								}
							}
						}
						if live > 10 {
							e.c.Fail("C19", "%d goroutines more than before after %d sessions ended", live, len(l))
						}
						e.stillServing("C17,C19")
					}
				case 4, 5, 9:
					m := 1
					if kind == 5 {
						m = 40
					}
					var ps []*pusher
					for i := 0; i < m; i++ {
						ps = append(ps, &pusher{e: e, s: e.dial(fmt.Sprintf("s%d", i)).hello()})
					}
					settle()
					ops := []string{"entry", "timed", "batch", "def", "switch", "badkey", "entry", "nilkey", "toobig", "baddef", "big", "batch0", "nilbatch", "badbatch", "batch70", "flush"}
					if kind == 9 {
						ops = []string{"batch70", "big", "batch300", "entry", "bigbatch", "batch70", "badkey", "batch5000"}
					}
					n := 300 * reps
					if kind != 4 {
						n = 24 * reps
					}
					reqs := 0
					for i := 0; i < n; i++ {
						for j, p := range ps {
							o := ops[(i*7+j*3+rnd)%len(ops)]
							if rnd%2 == 1 && strings.Contains("badkey nilkey toobig baddef badbatch nilbatch", o) {
								o = "entry"
							}
							p.run(j%2, o, i*6000)
						}
						if i%5 == 0 {
							for _, p := range ps {
								p.s.Feed(ctl(pctlReq))
							}
							reqs++
							sched.Sleep(time.Duration(100+i%37*25) * time.Millisecond)
						}
					}
					settle()
					verdict = func(e *peerEnv) {
						for _, p := range ps {
							p.verdict(false, reqs)
							p.s.alive("C15,C18", "although nothing ended it")
						}
					}
				case 6:
					s := e.dial("A").hello()
					settle()
					t0 := sched.Now()
					n := 2000 * reps
					for i := 0; i < n; i++ {
						sched.Sleep(time.Duration(4990-(i*i*31)%4000*(i%2)) * time.Millisecond)
						s.Feed(arrivalMsg([]int{0, 2, 3, 4, 0}[i%5], i))
						if i%11 == 5 && s.w != nil {
							_ = s.w.SendEntry(seqVals(0, i%100).entry(seqDef(0)))
						}
					}
					settle()
					t1 := sched.Now()
					s.alive("C18", "although messages kept arriving")
					sched.Sleep(deadAfter + 10*time.Second)
					verdict = func(e *peerEnv) {
						s.beats(t0, t1)
						s.over("silence")
						if s.closedAt < t1+deadAfter-10*time.Millisecond || s.closedAt > t1+deadAfter+lateSlack {
							e.c.Fail("C18", "handler closed at %v, last message at %v", s.closedAt, t1)
						}
						e.leaks()
					}
				case 10:
					s := e.dial("A").hello()
					settle()
					t0 := sched.Now()
					n := 7 * 24 * 3600 / 4
					if rnd > 0 {
						n = 0
					}
					for i := 0; i < n; i++ {
						sched.Sleep(4 * time.Second)
						s.Feed(ctl(pctlHeartbeat))
					}
					settle()
					t1 := sched.Now()
					s.alive("C18", "although messages kept arriving")
					verdict = func(e *peerEnv) {
						s.beats(t0, t1)
					}
				case 11:
					p := &pusher{e: e, s: e.dial("A").hello()}
					settle()
					if rnd == 0 {
						for i := 0; i < 14; i++ {
							p.run(0, "batch5000", 6000*i)
							p.run(0, "entry", 6000*i+5500)
							p.run(0, "timed", 6000*i+5501)
						}
						for i := 0; i < 70000; i++ {
							p.run(0, "entry", 100000+i)
						}
					}
					settle()
					verdict = func(e *peerEnv) {
						p.verdict(false, 0)
						p.s.alive("C15,C18", "although nothing ended it")
					}
				case 13:
					p := &pusher{e: e, s: e.dial("A").hello()}
					settle()
					for i := 0; i < 70000 && rnd == 0; i++ {
						p.run(0, "entry", i)
						switch i % 30 {
						case 3, 8, 9:
							p.run(0, "def", i)
						case 6, 20, 21:
							p.run(0, "switch", i)
						case 15:
							p.run(0, "timed", 100000+i)
						}
					}
					settle()
					verdict = func(e *peerEnv) {
						p.verdict(false, 0)
						p.s.alive("C15,C18", "although nothing ended it")
					}
				case 12:
					if rnd > 0 {
						verdict = func(e *peerEnv) {}
						return
					}
					sq := seqOf([]int{0, 7, 2})
					var h *psess
					done := 0
					for i := 0; i < 70000; i++ {
						s := e.dial("s")
						s.hello()
						if i%10000 == 0 {
							s.Feed(sq.stream)
							h = s
						}
						s.EOF()
						if i%20 == 19 || s == h {
							settle()
						}
						if i%100 == 99 {
							sched.Sleep(6 * time.Second)
							for ; done < len(e.sess); done++ {
								s := e.sess[done]
								s.over("its end")
								if s.closes == 1 {
									s.ctx, s.w = nil, nil // they are large
								}
							}
						}
					}
					h2 := e.dial("H2").hello()
					h2.Feed(sq.stream)
					sched.Sleep(time.Second)
					verdict = func(e *peerEnv) {
						h.checkUpdates("C14,C17,C19", sq.want)
						h2.checkUpdates("C14,C17,C19", sq.want)
						h2.alive("C17,C19", "because other sessions ended")
						e.stillServing("C17,C19")
					}
				case 7:
					s := e.dial("A").hello()
					var want []string
					ln := []int{0, 1, 60, 239, 240, 300, 2287, 2288, 5000, 40000, 3, 70000, 16}
					for i := 0; i < 150*reps; i++ {
						n := ln[(i+rnd)%len(ln)]
						var k keyVal
						switch i % 5 {
						case 0:
							k = kStr(string(patText(n, i)), uint64(n+1))
						case 1:
							k = kBin(pattern(n, i), uint64(n))
						case 2:
							k = kSint(int32(i * 1234567))
						case 3:
							k = kIP(netip.AddrFrom4([4]byte(pattern(4, i))))
						case 4:
							k = kIP(netip.AddrFrom16([16]byte(pattern(16, i))))
						}
						u := entryVal{withID: true, id: uint32(i * 31), timed: i%2 == 0, expiry: uint32(i * 7919), key: k}
						switch i % 4 {
						case 0:
							u.data = []dataVal{dInt(2, uint64(i)), dFreq(10, uint64(i), uint64(i*2), 1<<20)}
						case 1:
							u.data = []dataVal{dDict(19, uint64(i), patText(ln[(i+3)%len(ln)]%2000, i))}
						case 2:
							u.data = []dataVal{dInt(0, uint64(i)), dInt(4, uint64(i)<<9), dInt(13, uint64(i)<<30)}
						}
						d := u.def()
						d.StickTableID = uint64(i)
						d.Name = string(patText(i%90, i))
						x := u.entry(d)
						want = append(want, showEntry(x))
						s.Feed(defMsg(d), u.msg())
						if i%4 == 1 {
							s.Cut(len(s.in) - n%7)
							settle()
						}
					}
					settle()
					verdict = func(e *peerEnv) {
						s.checkUpdates("C14", want)
						s.unaltered()
						s.alive("C14,C18", "after valid messages only")
					}
				}
				verdict(e)
			}, func(e *peerEnv) {
				if verdict == nil {
					e.c.Fail("", "driver did not finish")
				}
			}))
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 0, Secs: 200}},
	})

	// a peer that takes no more bytes for a while
	wins := []int{0, 2, 4, 5, 9, 20, 60}
	scns = append(scns, &Scn{Name: "peer-stall", Props: []string{"C15", "C17", "C18", "C19"}, N: fixedN(len(wins) * 5),
		Make: func(v int) *Case {
			win, how := wins[v/5], v%5
			var p *pusher
			var h *psess
			var t0 time.Duration
			ended := false
			sq := seqOf([]int{0, 7, 1})
			hows := []string{"reads on later", "stays silent as well", "is lost", "reads byte by byte", "is reset"}
			return peerCase(fmt.Sprintf("peer takes %d bytes, then %s", win, hows[how]), 60*time.Second, func(e *peerEnv) {
				s := e.dial("A")
				s.Win = win
				p = &pusher{e: e, s: s}
				s.hello()
				settle()
				if s.w == nil && win >= len(stdStatus) {
					e.c.Fail("C20", "handshake not reported although the status line was taken")
				}
				pushes := 0
				if s.w != nil {
					pushes = 2
				}
				for i := 0; i < pushes; i++ {
					sched.Go(fmt.Sprintf("push%d", i), func() {
						for j, o := range []string{"entry", "batch"} {
							p.run(i, o, j)
						}
					})
				}
				s.Feed(ctl(pctlReq))
				h = e.dial("H").hello()
				h.Feed(sq.stream)
				settle()
				t0 = sched.Now()
				switch how {
				case 0:
					for i := 0; i < 5; i++ {
						sched.Sleep(2 * time.Second)
						s.Feed(ctl(pctlHeartbeat))
						h.Feed(ctl(pctlHeartbeat))
					}
					if win < len(stdStatus) || s.Stalls == 0 {
						t0 = -1
					}
					s.Win = -1
				case 1:
					sched.Sleep(4 * time.Second)
					h.Feed(ctl(pctlHeartbeat))
					sched.Sleep(deadAfter + lateSlack - 4*time.Second)
				case 2, 4:
					if how == 2 {
						s.EOF()
					}
					s.Reset(syscall.ECONNRESET)
				case 3:
					for i := 0; i < 400; i++ {
						s.Win = 1
						settle()
					}
					s.Win = -1
				}
				settle()
				h.Feed(defMsg(seqDef(0)), arrivalMsg(1, 1))
				settle()
				h.alive("C17,C19", "because another session stalled")
				if len(h.upds) != len(sq.want)+1 {
					e.c.Fail("C17", "%d updates delivered on the healthy session, %d sent", len(h.upds), len(sq.want)+1)
				}
				e.stillServing("C17,C19")
				switch how {
				case 0, 3:
					// the session may have been given up meanwhile, but only
					// as a whole
					if s.Closes == 0 && s.closes == 0 {
						p.verdict(false, 1)
					} else {
						if how == 3 {
							e.c.Fail("C15,C18", "session closed although the peer was reading and silent for less than 5 seconds")
						}
						p.verdict(true, 1)
						s.over("being stalled")
					}
				case 1:
					if len(s.hs) > 0 {
						s.over("5 seconds of silence")
						p.verdict(true, 1)
						if s.ClosedAt > t0+deadAfter+lateSlack {
							e.c.Fail("C18", "closed at %v only, last message at %v", s.ClosedAt, t0)
						}
					}
				case 2, 4:
					s.over("being lost")
					if len(s.hs) > 0 {
						p.verdict(true, 1)
					}
				}
				for _, q := range p.pushes {
					if !q.ret && s.Closes > 0 {
						e.c.Fail("C15,C19", "%s still blocked although the session is over", q.name)
					}
				}
				ended = true
			}, func(e *peerEnv) {
				if !ended {
					e.c.Fail("", "driver did not finish")
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 40}},
		Thor:  []Bound{{D: 2, Secs: 200}},
	})

	// the ways to configure a peer
	scns = append(scns, &Scn{Name: "peer-config", Props: []string{"C19", "C14"}, N: fixedN(7),
		Make: func(v int) *Case {
			var e2 *peerEnv
			var s *psess
			n := 0
			return peerCase(fmt.Sprintf("peer configuration %d", v), 30*time.Second, func(e *peerEnv) {
				e2 = newPeers(e.x, e.c)
				type key struct{}
				e2.peer = &peers.Peer{HandlerSource: e2.source}
				val := func(ctx context.Context) bool { return true }
				switch v {
				case 1:
					e2.peer.Addr = "192.0.2.1:1"
				case 2:
					ctx, cancel := context.WithTimeout(context.WithValue(e2.ctx, key{}, "v"), time.Hour)
					e.x.OnCleanup(cancel)
					e2.peer.BaseContext = ctx
					val = func(c context.Context) bool {
						d, ok := c.Deadline()
						bd, _ := ctx.Deadline()
						return c.Value(key{}) == "v" && ok && !d.After(bd)
					}
				case 3:
					e2.peer.HandlerSource = nil
					e2.peer.Handler = peers.HandlerFunc(func(ctx context.Context, u *st.EntryUpdate) { n++ })
				case 4:
					e2.peer.Handler = peers.HandlerFunc(func(ctx context.Context, u *st.EntryUpdate) { n++ })
				case 5, 6:
					e2.peer.BaseContext = context.Background()
				}
				e2.start()
				s = e2.dial("X")
				s.onUpdate = func(s *psess, u *st.EntryUpdate) {
					n++
					if !val(s.ctx) {
						e.c.Fail("C19", "the handler context is not derived from the base context")
					}
				}
				if v == 6 {
					e2.l.err = syscall.EINVAL
				}
				s.hello()
				sq := seqOf([]int{0, 7, 2, 4, 1, 3})
				s.Feed(sq.stream)
				settle()
				if v != 4 && n != len(sq.want) {
					e.c.Fail("C14,C19", "%d updates delivered, %d sent", n, len(sq.want))
				}
				t := e.dial("Y").hello()
				t.Feed(sq.stream)
				settle()
				t.checkUpdates("C14", sq.want)
				if v == 5 {
					e2.l.err = syscall.EINVAL
					settle()
					// sessions outlive the listener
					s.alive("C19", "because Accept failed")
					s.Feed(defMsg(seqDef(0)), arrivalMsg(1, 1))
					settle()
					if n != len(sq.want)+1 {
						e.c.Fail("C19", "no update delivered after Accept failed")
					}
				}
				s.EOF()
				settle()
			}, func(e *peerEnv) {
				want := 0
				if v >= 4 {
					want = 1
				}
				if e2.ret != want {
					e.c.Fail("C19", "Serve returned %d times, want %d: %v", e2.ret, want, e2.retErr)
				}
				if want == 1 && e2.ret == 1 && e2.retErr == nil {
					e.c.Fail("C19", "Serve returned no error")
				}
				if v != 4 && s.Closes == 0 {
					e.c.Fail("C19", "connection not closed after the end of stream")
				}
				if v != 4 && v != 3 {
					s.over("end of stream")
				}
			})
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 60}},
	})
}

// initPeerAgain: Serve is called again on a peer whose listener failed.
func initPeerAgain() {
	scns = append(scns, &Scn{Name: "peer-again", Props: []string{"C19", "C14"}, N: fixedN(6),
		Make: func(v int) *Case {
			rounds, one := 1+v%3, v/3 == 1
			h := &sharedHandler{}
			sq := seqOf([]int{0, 7, 2, 4, 1, 3})
			return peerCase(fmt.Sprintf("Serve called again %d times, one handler %v", rounds, one), 60*time.Second, func(e *peerEnv) {
				e2 := newPeers(e.x, e.c)
				e2.peer.BaseContext = e2.ctx
				if one {
					e2.peer = &peers.Peer{BaseContext: e2.ctx, Handler: h}
				}
				e2.start()
				var l []*psess
				for i := 0; ; i++ {
					s := e2.dial(fmt.Sprint("A", i)).hello()
					l = append(l, s)
					s.Feed(sq.stream)
					settle()
					if s.Reads == 0 {
						e.c.Fail("C19", "connection of listener %d is not accepted", i)
					}
					if one && (h.hs != i+1 || h.upd != (i+1)*len(sq.want)) {
						e.c.Fail("C19,C14", "%d handshakes, %d updates delivered on %d connections", h.hs, h.upd, i+1)
					}
					if !one {
						s.checkUpdates("C14", sq.want)
					}
					if i == rounds {
						break
					}
					e2.l.err = syscall.EMFILE
					settle()
					if e2.ret != i+1 || e2.retErr == nil {
						e.c.Fail("C19", "Serve returned %d times (%v) after Accept failed %d times", e2.ret, e2.retErr, i+1)
					}
					e2.l = &Listener{}
					e2.start()
				}
				settle()
				if e2.ret != rounds {
					e.c.Fail("C19", "Serve returned %d times, Accept failed %d times: %v", e2.ret, rounds, e2.retErr)
				}
				e2.cancel()
				settle()
				for _, s := range l {
					s.EOF()
				}
				settle()
				sched.Sleep(10 * time.Second)
				if e2.ret != rounds+1 {
					e.c.Fail("C19", "Serve returned %d times, called %d times: %v", e2.ret, rounds+1, e2.retErr)
				}
				for _, s := range l {
					if one && s.Closes == 0 {
						e.c.Fail("C19", "%s: connection not closed", s.Name)
					} else if !one {
						s.over("end of stream")
					}
				}
				if one && h.close != rounds+1 {
					e.c.Fail("C19", "handler closed %d times for %d sessions", h.close, rounds+1)
				}
			}, func(e *peerEnv) {})
		},
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 60}},
	})
}

func big2(c *Case) *Case { c.Cfg.MaxSteps = 50_000_000; return c }

// patText is printable text that differs between seeds.
func patText(n, seed int) []byte {
	b := pattern(n, seed)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return b
}
