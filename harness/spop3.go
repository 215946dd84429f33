package main

import (
	"context"
	"fmt"
	"net"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/sched"
)

// Long histories and many connections: state that builds up, counters that
// wrap, capacity that leaks away. One default schedule each (quick), the
// variation is in the history.

func big(c *Case) *Case {
	c.Cfg.MaxSteps, c.Cfg.Horizon = 20_000_000, time.Hour
	return c
}

func quiet(m *mspec) { m.points = 0 }

var spopHist = []string{"2000 NOTIFYs, trickling", "2000 NOTIFYs at once", "sizes up and down", "250 connections, one after the other", "120 connections at once",
	"panics and malformed frames between good ones", "oversize answers between good ones", "lost connections with handlers in flight", "many messages per frame",
	"write failures on many connections", "large frames and answers in overlapping handlers", "70000 NOTIFYs on one connection", "a NOTIFY of 70000 messages", "70000 connections"}

func initSpopScale() {
	prim := []string{"C06", "C07", "C08", "C10", "C11", "C12", "C13"}
	scns = append(scns, &Scn{Name: "spop-scale", Props: prim,
		N: func(tier string) int {
			if tier == "thorough" {
				return 8 * len(spopHist)
			}
			return 3 * len(spopHist)
		},
		Make: func(v int) *Case {
			kind, rnd := v%len(spopHist), v/len(spopHist)
			w := 1 + (kind+rnd)%3
			if kind == 10 && w < 2 {
				w = 2
			}
			var after func(e *spopEnv)
			return big(spopCase(fmt.Sprintf("%s, %d workers, round %d", spopHist[kind], w, rnd), w, func(e *spopEnv) {
				seq := 0
				mk := func(n int) *mspec {
					seq++
					m := ms(fmt.Sprintf("s%d", seq), kvBin("pad", pattern(n, seq)), kvU32("seq", uint32(seq)))
					m.points = 0
					if seq%5 == 3 {
						m.consume = 0
					}
					m.acts = []Action{{true, byte(seq % 5), fmt.Sprintf("v%d", seq), kvBin("", pattern(n/2, seq+1))}}
					return m
				}
				rnds := 1 + 2*rnd
				switch kind {
				case 0, 1:
					s := e.dial("A").hello(16384)
					settle()
					for i := 0; i < 2000*rnds; i++ {
						e.send(s, uint64(i*i), uint64(i+1), mk(i%97))
						if kind == 0 && i%3 == 0 {
							settle()
						}
					}
				case 2:
					s := e.dial("A").hello(1 << 20)
					t := e.dial("B").hello(300)
					settle()
					for i := 0; i < 60*rnds; i++ {
						n := []int{10, 70000, 200, 66000, 1, 65500, 140000, 3, 65400, 16}[i%10]
						e.send(s, uint64(i), 1, mk(n))
						e.send(t, uint64(i), 1, mk(i%100))
						if i%4 == 1 {
							settle()
						}
					}
				case 3:
					for i := 0; i < 250*rnds; i++ {
						s := e.dial(fmt.Sprintf("c%d", i)).hello(uint32(256 + i))
						e.send(s, 1, uint64(i), mk(i%60))
						settle()
						switch i % 6 {
						case 0:
							s.EOF()
						case 1:
							s.Reset(syscall.ECONNRESET)
						case 2:
							s.Feed(refDisconnect(0, "bye"))
						case 3:
							s.Feed([]byte{0xff, 0xff, 0xff, 0xff})
						case 4:
							s.Feed([]byte{0, 0, 0, 20, 3, 0, 0})
							s.EOF()
						case 5:
							s.Feed(refFrame(fDisc, flagFin, 0, 0, refKVs(kvU32("status-code", 7), kvStr("message", "odd"))))
						}
						settle()
					}
					h := e.dial("H").hello(500)
					e.send(h, 9, 9, mk(20), mk(30))
					after = func(e *spopEnv) {
						for _, s := range e.conns[:len(e.conns)-1] {
							e.closed(s, "its end")
						}
					}
					settle()
					h.EOF()
					settle()
					e.leaks()
				case 4:
					var l []*sconn
					for i := 0; i < 120*rnds; i++ {
						l = append(l, e.dial(fmt.Sprintf("c%d", i)).hello(uint32(300+i)))
					}
					settle()
					for r := 0; r < 4; r++ {
						for i, s := range l {
							e.send(s, 1, uint64(r+1), mk((i*7+r)%80))
						}
					}
				case 5:
					s := e.dial("A").hello(4096)
					e.bad = true
					settle()
					for i := 0; i < 240*rnds; i++ {
						m := mk(i % 50)
						switch i % 4 {
						case 1:
							m.panics = 1 + i%3
							m.noPoints()
						case 3:
							b := refFrame(fNotify, flagFin, uint64(i), 3, []byte{3, 'b', 'a', 'd', byte(1 + i%5), 1, 'k', 8, 200, 'x'})
							e.tolerate(b)
							s.Feed(b)
						}
						e.send(s, uint64(i), 2, m).noAck = m.panics > 0
						if i%7 == 0 {
							settle()
						}
					}
				case 6:
					s := e.dial("A").hello(400)
					e.bad = true
					settle()
					for i := 0; i < 200*rnds; i++ {
						m := mk(i % 50)
						n := e.send(s, uint64(i), 2, m)
						if i%3 == 1 {
							m.acts = append(m.acts, Action{true, 1, "too-big", kvBin("", pattern(400+i*300, i))})
							n.noAck = true
						}
						if i%5 == 0 {
							settle()
						}
					}
				case 7:
					h := e.dial("H").hello(4096)
					for i := 0; i < 60*rnds; i++ {
						s := e.dial(fmt.Sprintf("c%d", i)).hello(4096)
						gone := false
						for j := 0; j < 1+i%4; j++ {
							m := mk(20)
							m.ready = func() bool { return gone }
							e.send(s, 1, uint64(j), m)
						}
						settle()
						if i%2 == 0 {
							s.EOF()
						} else {
							s.Feed(refDisconnect(2, "timeout"))
						}
						settle()
						gone = true
						sched.PointAt("gone")
						e.send(h, 2, uint64(i), mk(10))
						settle()
					}
					after = func(e *spopEnv) {
						for _, s := range e.conns[1:] {
							e.closed(s, "its end")
						}
					}
				case 8:
					s := e.dial("A").hello(60000)
					settle()
					for i := 0; i < 40*rnds; i++ {
						var l []*mspec
						for j := 0; j < 1+(i*13)%50; j++ {
							m := mk((i + j) % 30)
							m.consume = (i+j)%4 - 1
							l = append(l, m)
						}
						e.send(s, uint64(i), 300, l...)
						if i%3 == 0 {
							settle()
						}
					}
				case 10:
					w := 2
					var cs []*sconn
					for _, n := range []string{"A", "B", "C"} {
						cs = append(cs, e.dial(n).hello(1<<20))
					}
					settle()
					in := []int{10, 70000, 200, 150000, 65480}
					out := []int{5, 65500, 300000, 140000, 100, 66000, 1}
					for i := 0; i < 70*rnds; i++ {
						var l []*mspec
						for j := 0; j < w; j++ {
							m := mk(in[(i*w+j)%len(in)])
							m.consume = -1
							m.acts = []Action{{true, 1, "first", kvBin("", pattern(out[(i*w+j)%len(out)], seq))},
								{true, 2, "second", kvBin("", pattern(out[(i+j)%len(out)], seq+1))}}
							l = append(l, m)
						}
						a, b := l[0], l[1]
						switch i % 3 {
						case 0: // a writes, b starts and writes, a goes on
							a.mid = func() bool { return b.half || b.done }
							b.mid = func() bool { return a.done }
						case 1: // all of b between two actions of a
							a.mid = func() bool { return b.done }
						case 2: // both hold their arguments, then both write
							a.ready = func() bool { return b.seen > 0 }
							b.mid = func() bool { return a.half || a.done }
							a.mid = func() bool { return b.done }
						}
						e.send(cs[i%3], uint64(i), 1, a)
						e.send(cs[(i+i/3)%3], uint64(i), 2, b)
						settle()
					}
				case 11:
					s := e.dial("A").hello(4096)
					settle()
					if rnd > 0 {
						return
					}
					for i := 0; i < 70000; i++ {
						e.send(s, uint64(i), uint64(i+1), mk(0))
						if i%50 == 49 {
							settle()
						}
					}
				case 12:
					s := e.dial("A").hello(8 << 20)
					settle()
					if rnd > 1 {
						return
					}
					var l []*mspec
					for i := 0; i < 70000; i++ {
						m := mk(0)
						if i%1000 > 0 {
							m.acts = nil
						}
						l = append(l, m)
					}
					e.send(s, 1, 1, l[:255+rnd*1500]...)
					e.send(s, 1, 2, l[255+rnd*1500:]...)
				case 13:
					if rnd > 0 {
						return
					}
					var h *sconn
					for i := 0; i < 70000; i++ {
						s := e.dial(fmt.Sprintf("c%d", i))
						if h == nil || i%10000 == 9999 {
							h = s.hello(500)
						} else {
							s.EOF()
						}
						if i%50 == 49 || h == s {
							e.send(h, 1, uint64(i), mk(3))
							settle()
						}
					}
				case 9:
					h := e.dial("H").hello(4096)
					e.bad = true
					for i := 0; i < 80*rnds; i++ {
						s := e.dial(fmt.Sprintf("c%d", i))
						s.FailAt, s.FailN = 1+i%8, i%3
						s.hello(4096)
						for j := 0; j < 3; j++ {
							e.send(s, 1, uint64(j), mk(20)).noAck = false
						}
						e.send(h, 2, uint64(i), mk(10))
						settle()
						s.EOF()
						settle()
					}
					after = func(e *spopEnv) {
						for _, s := range e.conns[1:] {
							e.closed(s, "end of stream")
						}
					}
				}
				settle()
			}, func(e *spopEnv) {
				// connections that ended early owe nothing
				complete := true
				switch kind {
				case 7, 9:
					e.acks(e.conns[0], e.wellFormed(e.conns[0], false), true)
					complete = false
				}
				e.verify(complete)
				if after != nil {
					after(e)
				}
				if e.ret > 0 {
					e.c.Fail("C11,C13", "Serve returned: %v", e.retErr)
				}
			}))
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 0, Secs: 120}},
	})

	// connections the agent cannot even set up
	scns = append(scns, &Scn{Name: "spop-dead-tcp", Props: []string{"C13", "C11"}, N: fixedN(3),
		Make: func(v int) *Case {
			return spopCase(fmt.Sprintf("accepted TCP connections that are already dead, case %d", v), 2, func(e *spopEnv) {
				if v > 0 {
					s := e.dial("A").hello(4096)
					e.send(s, 1, 1, ms("before", kvStr("a", "b")))
				}
				e.l.Push(&net.TCPConn{})
				if v == 2 {
					settle()
					e.l.Push(&net.TCPConn{})
				}
				s := e.dial("B").hello(4096)
				e.send(s, 1, 1, ms("after", kvStr("a", "b")))
			}, func(e *spopEnv) {
				if e.ret > 0 {
					e.c.Fail("C13,C11", "Serve returned because an accepted connection was unusable: %v", e.retErr)
				}
				e.verify(true)
			})
		},
		Quick: []Bound{{D: 1, Secs: 20}},
	})

	// an engine that does not read its answers for a while
	wins := []int{0, 1, 4, 20, 60, 75, 90, 110}
	scns = append(scns, &Scn{Name: "spop-stall", Props: []string{"C06", "C07", "C10", "C11", "C13"}, N: fixedN(len(wins) * 4),
		Make: func(v int) *Case {
			win, how := wins[v/4], v%4
			var a, b *sconn
			return spopCase(fmt.Sprintf("connection takes %d bytes, then %s", win, []string{"reads on later", "is reset", "reads byte by byte", "is reset between two frames of its own"}[how]), 2, func(e *spopEnv) {
				a = e.dial("A")
				a.Win = win
				a.hello(4096)
				b = e.dial("B").hello(4096)
				e.send(a, 1, 1, ms("a1", kvStr("a", "b")))
				if how != 3 {
					e.send(a, 1, 2, ms("a2", kvStr("a", "c")))
				}
				e.send(b, 1, 1, ms("b1", kvStr("a", "d")))
				settle()
				switch how {
				case 0:
					a.Win = -1
				case 1:
					a.Reset(syscall.ECONNRESET)
					a.WFailed = true
				case 2:
					for i := 0; i < 300; i++ {
						a.Win = 1
						settle()
					}
					a.Win = -1
				case 3:
					e.send(a, 1, 2, ms("a2", kvStr("a", "c")))
					sched.PointAt("fed")
					a.Reset(syscall.ECONNRESET)
					a.WFailed = true
				}
				e.send(b, 1, 2, ms("b2", kvStr("a", "e")))
				settle()
			}, func(e *spopEnv) {
				if how == 0 || how == 2 {
					e.verify(true)
					return
				}
				e.verify(false)
				e.acks(b, e.wellFormed(b, false), true)
				e.closed(a, "a reset")
			})
		},
		Quick: []Bound{{D: 1, Secs: 40}},
		Thor:  []Bound{{D: 2, Secs: 200}},
	})

	// time alone ends nothing: idle connections, frames arriving in pieces,
	// busy handlers and peers that do not read for hours
	gaps := []time.Duration{2 * time.Second, 6 * time.Second, 16 * time.Second, 31 * time.Second, 61 * time.Second, 121 * time.Second, 301 * time.Second, 601 * time.Second, 1801 * time.Second, 3601 * time.Second, 25 * time.Hour}
	idle := []string{"between two frames", "between HELLO and NOTIFY", "inside the length of a frame", "inside a frame", "in a handler", "in a handler between its actions", "while the peer does not read", "while another connection is busy", "between two frames of many"}
	scns = append(scns, &Scn{Name: "spop-idle", Props: []string{"C13", "C06", "C07", "C11", "C12"}, N: fixedN(len(gaps) * len(idle)),
		Make: func(v int) *Case {
			gap, kind := gaps[v/len(idle)], v%len(idle)
			c := spopCase(fmt.Sprintf("%v %s", gap, idle[kind]), 2, func(e *spopEnv) {
				s := e.dial("A").hello(4096)
				if kind == 1 {
					sched.Sleep(gap)
				}
				settle()
				awake := false
				m1 := ms("m1", kvStr("k", "v"))
				switch kind {
				case 4:
					m1.ready = func() bool { return awake }
				case 5:
					m1.acts = []Action{{true, 1, "x", kvBin("", pattern(300, 1))}, {true, 1, "y", kvBin("", pattern(30, 2))}}
					m1.mid = func() bool { return awake }
				case 6:
					s.Win = 5
				}
				cut := func(n int) {
					b := e.notify(s, 3, 4, ms("cut", kvStr("k", "w")))
					s.Feed(b[:n])
					sched.Sleep(gap)
					s.Feed(b[n:])
					settle()
				}
				e.send(s, 1, 1, m1)
				settle()
				switch kind {
				case 0, 4, 5, 6:
					sched.Sleep(gap)
				case 2:
					cut(2)
				case 3:
					cut(9)
				case 7:
					t := e.dial("B").hello(300)
					for i := 0; i < 100; i++ {
						e.send(t, 1, uint64(i), ms(fmt.Sprintf("t%d", i)))
						sched.Sleep(gap / 100)
					}
				case 8:
					for i := 0; i < 20; i++ {
						e.send(s, 7, uint64(i), ms(fmt.Sprintf("t%d", i)))
						sched.Sleep(gap)
					}
				}
				awake = true
				s.Win = -1
				e.send(s, 1, 2, ms("m2", kvStr("k", "v")))
				settle()
				e.send(s, 1, 3, ms("m3", kvStr("k", "v")))
				u := e.dial("C").hello(300)
				e.send(u, 1, 1, ms("u1"))
				settle()
			}, func(e *spopEnv) {
				e.verify(true)
				for _, s := range e.conns {
					if s.Closes > 0 && !s.probe {
						e.c.Fail("C06,C11,C13", "%s: connection closed although nothing ended it", s.Name)
					}
				}
			})
			c.Cfg.Horizon = 30*gap + time.Hour
			return c
		},
		Quick: []Bound{{D: 1, Secs: 40}},
		Thor:  []Bound{{D: 2, Secs: 120}},
	})

	// the ways to configure an agent
	scns = append(scns, &Scn{Name: "spop-config", Props: []string{"C13", "C06", "C11"}, N: fixedN(6),
		Make: func(v int) *Case {
			var e2 *spopEnv
			var base context.Context
			return spopCase(fmt.Sprintf("agent configuration %d", v), 2, func(e *spopEnv) {
				// a second, differently configured agent
				e2 = newSpop(e.x, e.c)
				e2.agent = &spop.Agent{Handler: spop.HandlerFunc(e2.handle)}
				type key struct{}
				switch v {
				case 1:
					e2.agent = &spop.Agent{Handler: structHandler{e2}, Addr: "192.0.2.1:1"}
				case 2:
					ctx, cancel := context.WithTimeout(context.WithValue(e2.ctx, key{}, "v"), time.Hour)
					e.x.OnCleanup(cancel)
					base = ctx
					e2.agent.BaseContext = ctx
					old := e2.agent.Handler
					e2.agent.Handler = spop.HandlerFunc(func(c context.Context, w *encoding.ActionWriter, m *encoding.Message) {
						d, ok := c.Deadline()
						if bd, _ := base.Deadline(); c.Value(key{}) != "v" || !ok || d.After(bd) {
							e.c.Fail("C13", "the handler context is not derived from the base context")
						}
						old.HandleSPOE(c, w, m)
					})
				case 3:
					// the listener fails later on
					e2.agent.BaseContext = context.Background()
				case 4, 5:
					// two agents side by side share the package's pools
				}
				e2.start()
				s := e2.dial("X").hello(4096)
				e2.send(s, 1, 1, ms("x1", kvStr("a", "b")))
				if v >= 4 {
					t := e.dial("Y").hello(4096)
					e.send(t, 1, 1, ms("y1", kvStr("a", "c")))
					settle()
					if v == 5 {
						e.cancel()
						t.EOF()
						settle()
					}
				}
				e2.send(s, 1, 2, ms("x2", kvStr("a", "b")))
				settle()
				if v == 2 {
					e2.cancel()
					settle()
					s.baseCancelled(e)
				}
				if v == 3 || v == 0 || v == 1 {
					e2.l.err = syscall.EINVAL
					settle()
					e2.send(s, 1, 3, ms("x3", kvStr("a", "b")))
					settle()
				}
			}, func(e *spopEnv) {
				want := 0
				if v < 4 {
					want = 1
				}
				if e2.ret != want {
					e.c.Fail("C13", "Serve returned %d times, want %d: %v", e2.ret, want, e2.retErr)
				}
				if a := e2.agent.Addr; a != e2.l.Addr().String() {
					e.c.Fail("C13", "agent address %q, listening on %q", a, e2.l.Addr())
				}
				if v != 5 {
					e.verify(true)
				} else if e.ret != 1 {
					e.c.Fail("C13", "Serve of the cancelled agent returned %d times", e.ret)
				}
				e2.verify(true)
			})
		},
		Quick: []Bound{{D: 1, Secs: 20}},
		Thor:  []Bound{{D: 2, Secs: 60}},
	})
}

type structHandler struct{ e *spopEnv }

func (h structHandler) HandleSPOE(c context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	h.e.handle(c, w, m)
}

func (m *mspec) noPoints() { m.points = 0 }

// pattern is n bytes that differ between seeds.
func pattern(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func init() { initSpopScale(); initSpopAgain() }

// initSpopAgain: Serve is called again on an agent whose listener failed.
func initSpopAgain() {
	scns = append(scns, &Scn{Name: "spop-again", Props: []string{"C13", "C06", "C12"}, N: fixedN(6),
		Make: func(v int) *Case {
			rounds, busy := 1+v%3, v/3 == 1
			return spopCase(fmt.Sprintf("Serve called again %d times, handlers busy meanwhile %v", rounds, busy), 2, func(e *spopEnv) {
				var hold bool
				for i := 0; ; i++ {
					s := e.dial(fmt.Sprint("A", i)).hello(4096)
					for j, c := range e.conns {
						e.send(c, 1, uint64(i), ms(fmt.Sprintf("m%d-%d", j, i), kvStr("a", "b")))
					}
					settle()
					if s.Reads == 0 {
						e.c.Fail("C13", "connection of listener %d is not accepted", i)
					}
					if i == rounds {
						break
					}
					if busy {
						hold = false
						e.send(s, 2, uint64(i), ms(fmt.Sprintf("b%d", i)).with(func(m *mspec) { m.ready = func() bool { return hold } }))
						settle()
					}
					e.l.err = syscall.EMFILE
					settle()
					hold = true
					if e.ret != i+1 || e.retErr == nil {
						e.c.Fail("C13", "Serve returned %d times (%v) after Accept failed %d times", e.ret, e.retErr, i+1)
					}
					e.l = &Listener{}
					e.start()
				}
				e.conns[0].EOF()
				settle()
				if e.conns[0].Closes == 0 {
					e.c.Fail("C13", "connection not closed after the end of stream")
				}
			}, func(e *spopEnv) {
				if e.ret != rounds {
					e.c.Fail("C13", "Serve returned %d times, Accept failed %d times: %v", e.ret, rounds, e.retErr)
				}
				if e.agent.Addr != e.l.Addr().String() {
					e.c.Fail("C13", "agent address %q, listening on %q", e.agent.Addr, e.l.Addr())
				}
				e.verify(true)
			})
		},
		Quick: []Bound{{D: 1, Secs: 20}},
		Thor:  []Bound{{D: 2, Secs: 60}},
	})
}
