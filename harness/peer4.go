package main

import (
	"fmt"
	"time"

	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/sched"
)

// Redefinitions, slow handshakes and the heartbeat's tick.

type redef struct {
	name string
	d    *st.Definition
	val  func(i int) entryVal
}

// redefs: definitions that differ from the first one in a single aspect.
func redefs() []redef {
	base := func() *st.Definition {
		return &st.Definition{StickTableID: 5, Name: "t", KeyType: st.KeyTypeString, KeyLength: 32, Expiry: 1000,
			DataTypes: []st.DataTypeDefinition{dtDef(2, 0), dtDef(10, 1000), dtDef(19, 0)}}
	}
	str := func(i int) keyVal { return kStr(fmt.Sprintf("key-%d", i), 32) }
	data := func(i int) []dataVal {
		return []dataVal{dInt(2, uint64(239+i)), dFreq(10, uint64(i), 2288, 5), dDict(19, uint64(i+1), []byte{'s', byte('0' + i)})}
	}
	std := func(i int) entryVal { return entryVal{key: str(i), data: data(i)} }
	keyed := func(k func(i int) keyVal) func(i int) entryVal {
		return func(i int) entryVal { return entryVal{key: k(i), data: data(i)} }
	}
	l := []redef{{"base", base(), std}}
	add := func(name string, val func(i int) entryVal, f func(d *st.Definition)) {
		d := base()
		f(d)
		if val == nil {
			val = std
		}
		l = append(l, redef{name, d, val})
	}
	add("id", nil, func(d *st.Definition) { d.StickTableID = 6 })
	add("id+256", nil, func(d *st.Definition) { d.StickTableID = 5 + 256 })
	add("id+2^32", nil, func(d *st.Definition) { d.StickTableID = 5 + 1<<32 })
	add("name", nil, func(d *st.Definition) { d.Name = "u" })
	add("no name", nil, func(d *st.Definition) { d.Name = "" })
	add("longer name", nil, func(d *st.Definition) { d.Name = "tt" })
	add("key length", nil, func(d *st.Definition) { d.KeyLength = 33 })
	add("expiry", nil, func(d *st.Definition) { d.Expiry = 1001 })
	add("no expiry", nil, func(d *st.Definition) { d.Expiry = 0 })
	add("period", nil, func(d *st.Definition) { d.DataTypes[1].Period = 2000 })
	add("counter", nil, func(d *st.Definition) { d.DataTypes[1].Counter = 99 })
	add("binary key 4", keyed(func(i int) keyVal { return kBin([]byte{byte(i), 2, 3, 4}, 4) }), func(d *st.Definition) { d.KeyType, d.KeyLength = st.KeyTypeBinary, 4 })
	add("binary key 6", keyed(func(i int) keyVal { return kBin([]byte{byte(i), 2, 3, 4, 5, 6}, 6) }), func(d *st.Definition) { d.KeyType, d.KeyLength = st.KeyTypeBinary, 6 })
	add("integer key", keyed(func(i int) keyVal { return kSint(int32(-i)) }), func(d *st.Definition) { d.KeyType, d.KeyLength = st.KeyTypeSignedInteger, 4 })
	add("address key", keyed(func(i int) keyVal { return kIP(addr4) }), func(d *st.Definition) { d.KeyType, d.KeyLength = st.KeyTypeIPv4Address, 4 })
	less := func(n int) func(i int) entryVal {
		return func(i int) entryVal { return entryVal{key: str(i), data: data(i)[:n]} }
	}
	add("no data", less(0), func(d *st.Definition) { d.DataTypes = nil })
	add("one data type", less(1), func(d *st.Definition) { d.DataTypes = d.DataTypes[:1] })
	add("two data types", less(2), func(d *st.Definition) { d.DataTypes = d.DataTypes[:2] })
	add("other data type", func(i int) entryVal {
		x := data(i)
		x[0] = dInt(4, uint64(i))
		return entryVal{key: str(i), data: x}
	}, func(d *st.Definition) { d.DataTypes[0] = dtDef(4, 0) })
	add("other rate", func(i int) entryVal {
		x := data(i)
		x[1] = dFreq(12, uint64(i), 9, 2288)
		return entryVal{key: str(i), data: x}
	}, func(d *st.Definition) { d.DataTypes[1] = dtDef(12, 1000) })
	return l
}

func initPeerRedef() {
	rs := redefs()
	n := len(rs)
	// A, its updates, B, its updates, A again, B again: every ordered pair
	scns = append(scns, &Scn{Name: "peer-redef", Props: []string{"C14"}, N: fixedN(n * n),
		Make: func(v int) *Case {
			a, b := rs[v/n], rs[v%n]
			var s *psess
			var want []string
			return peerCase(fmt.Sprintf("tables %q and %q defined in turn", a.name, b.name), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				settle()
				prev := uint32(0)
				k := 0
				upd := func(r redef, withID, timed bool) {
					k++
					x := r.val(k)
					x.id, x.expiry = uint32(100*k), uint32(60000+k)
					x.withID, x.timed = withID, timed
					u := x.entry(r.d)
					if !withID {
						u.LocalUpdateID = prev + 1
					}
					prev = u.LocalUpdateID
					want = append(want, showEntry(u))
					s.Feed(x.msg())
				}
				for i, r := range []redef{a, b, a, b, b, a} {
					s.Feed(defMsg(r.d))
					upd(r, true, i%2 == 1)
					if i%3 != 2 {
						upd(r, false, i%2 == 0)
					}
				}
			}, func(e *peerEnv) {
				s.checkUpdates("C14", want)
				s.unaltered()
				s.alive("C14", "after valid messages only")
			})
		},
		Quick: []Bound{{D: 0, Secs: 30}},
	})
}

func sleepUntil(t time.Duration) {
	if d := t - sched.Now(); d > 0 {
		sched.Sleep(d)
	}
}

func initPeerSlowHello() {
	ms := time.Millisecond
	delays := []time.Duration{500 * ms, 2999 * ms, 3000 * ms, 3001 * ms, 4000 * ms, 4900 * ms}
	cuts := []int{0, 1, 5, len("HAProxyS 2.1\n"), len("HAProxyS 2.1\nag"), len("HAProxyS 2.1\nagent\n"), len(stdHandshake) - 1}
	// what comes behind: nothing, messages just in time, a program that pushes
	const after = 4
	scns = append(scns, &Scn{Name: "peer-slow-hello", Props: []string{"C20", "C18"}, N: fixedN(len(delays) * len(cuts) * after),
		Make: func(v int) *Case {
			delay := delays[v%len(delays)]
			cut := cuts[v/len(delays)%len(cuts)]
			what := v / len(delays) / len(cuts)
			var s *psess
			var done, last time.Duration
			replies := 0
			return peerCase(fmt.Sprintf("the handshake's last %d bytes arrive after %v, then case %d", len(stdHandshake)-cut, delay, what), 40*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				settle()
				s.Feed(stdHandshake[:cut])
				sched.Sleep(delay)
				if len(s.Out) > 0 {
					e.c.Fail("C20", "%x sent before the handshake was complete", clipb(s.Out, 20))
				}
				s.Feed(stdHandshake[cut:])
				done, last = sched.Now(), sched.Now()
				settle()
				if string(s.Out) != stdStatus {
					e.c.Fail("C20", "output after the handshake is %q", clip(string(s.Out), 40))
				}
				if len(s.hs) != 1 {
					e.c.Fail("C20", "handshake reported %d times", len(s.hs))
				}
				switch what {
				case 1:
					for i := 0; i < 3; i++ {
						sched.Sleep(4900 * ms)
						s.Feed(ctl(pctlHeartbeat))
						last = sched.Now()
					}
				case 2:
					s.Feed(ctl(pctlReq))
					replies++
				case 3:
					if err := s.w.SendTableDefinition(seqDef(0)); err != nil {
						e.c.Fail("C15", "push fails: %v", err)
					}
					sched.Sleep(2900 * ms)
					s.Feed(ctl(pctlHeartbeat))
					last = sched.Now()
				}
				sched.Sleep(8 * time.Second)
			}, func(e *peerEnv) {
				ms, _ := s.output(true)
				if partials(ms) != replies {
					e.c.Fail("C20", "%d replies to %d synchronisation requests", partials(ms), replies)
				}
				for _, m := range ms {
					if isHeartbeat(m) {
						for _, r := range s.Recs {
							if r.At < done {
								e.c.Fail("C20", "something sent at %v, the handshake was complete at %v", r.At, done)
							}
						}
						break
					}
				}
				s.over("silence")
				if s.ClosedAt < last+deadAfter || s.ClosedAt > last+deadAfter+lateSlack {
					e.c.Fail("C18", "session closed at %v, handshake complete at %v, last message at %v", s.ClosedAt, done, last)
				}
				s.beats(done+1*time.Millisecond, min(s.ClosedAt, 38*time.Second))
				e.leaks()
			})
		},
		Quick: []Bound{{D: 1, Secs: 200}},
		Thor:  []Bound{{D: 2, Secs: 200}},
	})
	// the program does something that sends nothing, or just a little, at the
	// very moment the heartbeat is due
	acts := []string{"flush", "badkey", "nilkey", "badbatch", "batch0", "toobig", "baddef", "entry", "nilbatch"}
	scns = append(scns, &Scn{Name: "peer-tick", Props: []string{"C18", "C15"}, N: fixedN(len(acts)),
		Make: func(v int) *Case {
			var s *psess
			var p *pusher
			return peerCase(fmt.Sprintf("%s whenever the heartbeat is due", acts[v]), 20*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				p = &pusher{e: e, s: s}
				settle()
				at := s.Recs[0].At
				sched.Go("push", func() {
					for i := 0; i < 3; i++ {
						sleepUntil(at + time.Duration(i+1)*beatEvery)
						p.run(0, acts[v], i)
					}
				})
				for i := 0; i < 3; i++ {
					sched.Sleep(4 * time.Second)
					s.Feed(ctl(pctlHeartbeat))
				}
				settle()
				s.alive("C18", "although it is never silent for 5 s")
				s.beats(at, sched.Now())
			}, func(e *peerEnv) { p.verdict(false, 0) })
		},
		Quick: []Bound{{D: 3, Secs: 120}},
		Thor:  []Bound{{D: 4, Secs: 120}},
	})
}

// initPeerCancelled: sessions go on after the base context was cancelled, or
// are closed; they do not linger half alive.
func initPeerCancelled() {
	offs := []time.Duration{0, 500 * time.Millisecond, 2900 * time.Millisecond, 3 * time.Second, 4500 * time.Millisecond, 7 * time.Second}
	kinds := []string{"heartbeats", "updates", "requests", "nothing"}
	scns = append(scns, &Scn{Name: "peer-cancelled", Props: []string{"C18", "C19"}, N: fixedN(len(offs) * len(kinds) * 2),
		Make: func(v int) *Case {
			base := v / len(kinds) / len(offs)
			off, kind := offs[v/len(kinds)%len(offs)], v%len(kinds)
			var s *psess
			var want []string
			last := time.Duration(0)
			c := peerCase(fmt.Sprintf("base context cancelled %v after the handshake%s, then %s", off, baseKinds[base], kinds[kind]), 60*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				settle()
				s.Feed(defMsg(seqDef(0)))
				settle()
				last = sched.Now()
				until := sched.Now() + off
				for sched.Now() < until {
					sched.Sleep(min(2*time.Second, until-sched.Now()))
					s.Feed(ctl(pctlHeartbeat))
					last = sched.Now()
				}
				settle()
				at := s.Recs[0].At
				e.cancel()
				for i := 0; i < 6 && kind < 3; i++ {
					switch kind {
					case 0:
						s.Feed(ctl(pctlHeartbeat))
					case 1:
						x := seqVals(0, i)
						x.withID = true
						want = append(want, showEntry(x.entry(seqDef(0))))
						s.Feed(x.msg())
					case 2:
						s.Feed(ctl(pctlReq))
					}
					last = sched.Now()
					settle()
					sched.Sleep(2500 * time.Millisecond)
				}
				end := sched.Now()
				sched.Sleep(10 * time.Second)
				if s.Closes > 0 {
					end = min(end, s.ClosedAt)
				}
				s.beats(at, end)
			}, func(e *peerEnv) {
				s.over("silence")
				if s.ClosedAt > last+deadAfter+lateSlack {
					e.c.Fail("C18,C19", "the peer's last message came at %v, the session was closed at %v", last, s.ClosedAt)
				}
				for i, u := range s.upds {
					if i >= len(want) || u.shown != want[i] {
						e.c.Fail("C19", "update %d is %s", i, u.shown)
						break
					}
				}
				if s.ClosedAt >= last+deadAfter && len(s.upds) < len(want) {
					e.c.Fail("C19", "%d of %d updates delivered in a session that stayed open", len(s.upds), len(want))
				}
				s.unaltered()
				if e.ret != 1 {
					e.c.Fail("C19", "Serve returned %d times after the base context was cancelled", e.ret)
				}
				for _, n := range liveNames(e.x) {
					if !contains(e.base, n) {
						e.c.Fail("C19", "goroutine %s left after the session ended (%v)", n, e.x.Blocked())
					}
				}
			})
			c.Base, c.BaseAt = base, off+10*time.Millisecond
			return c
		},
		Quick: []Bound{{D: 2, Secs: 200}},
		Thor:  []Bound{{D: 3, Secs: 200}},
	})
}

func init() {
	initPeerCancelled()
	initPeerAgain()
	initPeerRedef()
	initPeerSlowHello()
}
