package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"syscall"
	"time"

	"verif/sched"
)

// ---------------------------------------------------------------- C08: argument splits and consumption

func init() {
	type pat struct {
		counts  []int
		consume []int
	}
	var pats []pat
	// up to three messages with 0..3 arguments each, every consumption
	for _, c := range [][]int{{0}, {1}, {2}, {3}, {0, 0}, {0, 2}, {1, 0}, {1, 1}, {2, 1}, {2, 2}, {3, 1}, {0, 1, 0}, {1, 0, 1}, {2, 2, 2}, {3, 0, 2}, {1, 3, 1}} {
		var rec func(i int, cur []int)
		rec = func(i int, cur []int) {
			if i == len(c) {
				pats = append(pats, pat{c, append([]int{}, cur...)})
				return
			}
			for k := 0; k <= c[i]; k++ {
				rec(i+1, append(cur, k))
			}
			rec(i+1, append(cur, -1))
		}
		rec(0, nil)
	}
	vals := []func(i int) KV{
		func(i int) KV { return kvStr(fmt.Sprintf("s%d", i), strings.Repeat("x", i*7)) },
		func(i int) KV { return kvU32(fmt.Sprintf("u%d", i), uint32(i)*1000) },
		func(i int) KV { return kvAddr(fmt.Sprintf("a%d", i), addr6) },
		func(i int) KV { return kvBool("", i&1 == 0) },
		func(i int) KV { return kvBin("same", []byte{byte(i), 0xff}) },
		func(i int) KV { return kvNull("n") },
		func(i int) KV { return kvI64("neg", -int64(i)) },
		func(i int) KV { return kvAddr("v4", addr4) },
	}
	scns = append(scns, &Scn{Name: "spop-messages", Props: []string{"C08", "C06"}, N: fixedN(len(pats)),
		Make: func(v int) *Case {
			p := pats[v]
			return spopCase(fmt.Sprintf("arguments %v, consumed %v", p.counts, p.consume), 1, func(e *spopEnv) {
				a := e.dial("A").hello(16384)
				x := 0
				for round := 0; round < 2; round++ {
					var l []*mspec
					for i, n := range p.counts {
						var ks []KV
						for j := 0; j < n; j++ {
							ks = append(ks, vals[(x+round*3)%len(vals)](x))
							x++
						}
						m := ms(fmt.Sprintf("r%dm%d", round, i), ks...)
						m.consume = p.consume[i]
						m.points = 0
						if v%3 == 1 {
							m.over = 1
						}
						if p.consume[i] >= 0 && p.consume[i] < n {
							m.over = 0
						}
						if v%3 == 2 && i == 1 {
							m.acts = nil
						}
						l = append(l, m)
					}
					e.send(a, 240, uint64(round), l...)
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 60}},
	})

	// message and argument count extremes
	cnts := []int{0, 1, 127, 128, 200, 239, 240, 254, 255}
	scns = append(scns, &Scn{Name: "spop-counts", Props: []string{"C08", "C06"}, N: fixedN(len(cnts) * 3),
		Make: func(v int) *Case {
			n := cnts[v/3]
			cons := []int{-1, 0, n / 2}[v%3]
			return spopCase(fmt.Sprintf("%d arguments, %d consumed", n, cons), 1, func(e *spopEnv) {
				a := e.dial("A").hello(60000)
				var ks []KV
				for i := 0; i < n; i++ {
					ks = append(ks, kvU32(fmt.Sprint(i), uint32(i)))
				}
				m := ms("big", ks...)
				m.consume = cons
				e.send(a, 1, 1, ms("first", kvStr("a", "b")), m, ms("last", kvStr("c", "d")))
				e.send(a, 1, 2, ms("next", kvStr("e", "f")))
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 0, Secs: 30}},
	})

	// identifiers of every size, and NOTIFYs without any message
	var ids []uint64
	for i := 0; i < 64; i++ {
		for _, d := range []uint64{0, 1, 2} {
			ids = append(ids, uint64(1)<<i-1+d)
		}
	}
	for _, b := range []uint64{240, 2288, 264432, 33818864, 4328786160, 554084600048} {
		ids = append(ids, b-1, b, b+1)
	}
	ids = append(ids, 1<<64-1, 1<<64-2, 1<<64-240)
	scns = append(scns, &Scn{Name: "spop-ids", Props: []string{"C06", "C12"}, N: fixedN(8),
		Make: func(v int) *Case {
			kind, empty := v%4, v/4
			return spopCase(fmt.Sprintf("identifiers, case %d, messages per frame %d", kind, 1-empty), 2, func(e *spopEnv) {
				a := e.dial("A").hello(4096)
				b := e.dial("B").hello(4096)
				for i, id := range ids {
					var m []*mspec
					if empty == 0 || i%3 == 1 {
						m = append(m, ms(fmt.Sprintf("m%d", i), kvU32("i", uint32(i))))
						m[0].points = 0
					}
					switch kind {
					case 0:
						e.send(a, id, 1, m...)
					case 1:
						e.send(a, 1, id, m...)
					case 2:
						e.send(a, id, ids[len(ids)-1-i], m...)
					case 3:
						e.send([]*sconn{a, b}[i&1], id, id, m...)
					}
					if i%16 == 15 {
						settle()
					}
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 0, Secs: 30}},
		Thor:  []Bound{{D: 1, Secs: 60}},
	})

	// sequences of frames of very different sizes through the same pool
	sizes := []int{0, 1, 100, 240, 2000, 16000}
	scns = append(scns, &Scn{Name: "spop-sizes", Props: []string{"C08", "C06"}, N: fixedN(6 * 6 * 6),
		Make: func(v int) *Case {
			a, b, c := sizes[v%6], sizes[v/6%6], sizes[v/36]
			return spopCase(fmt.Sprintf("payload sizes %d, %d, %d", a, b, c), 1+v%2, func(e *spopEnv) {
				s := e.dial("A").hello(65535)
				for i, n := range []int{a, b, c} {
					e.send(s, uint64(i), 1, ms(fmt.Sprintf("m%d", i), kvBin("b", bytes.Repeat([]byte{byte(i + 1)}, n)), kvStr("s", strings.Repeat("q", n/2))).with(func(m *mspec) {
						m.acts = append(m.acts, Action{true, 1, "echo", kvBin("", bytes.Repeat([]byte{byte(i + 65)}, (n+a)/2))})
					}))
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 1, Secs: 30}},
	})
	initHello()
	initLimits()
	initContain()
	initShutdown()
}

// ---------------------------------------------------------------- C09

type helloCase struct {
	name  string
	raw   []byte // whole frame
	size  uint32 // offered size when valid
	valid bool
	hc    bool
}

func helloKVs(ks ...KV) []byte { return refFrame(fHello, flagFin, 0, 0, refKVs(ks...)) }

func helloCases() []helloCase {
	var l []helloCase
	v := kvStr("supported-versions", "2.0")
	cp := kvStr("capabilities", "pipelining,async")
	add := func(name string, valid bool, size uint32, ks ...KV) {
		l = append(l, helloCase{name: name, raw: helloKVs(ks...), size: size, valid: valid})
	}
	for _, s := range []uint32{256, 257, 300, 1000, 16380, 65534, 65535, 65536, 131072, 1 << 30, math.MaxInt32} {
		add(fmt.Sprintf("size %d", s), true, s, v, kvU32("max-frame-size", s), cp)
	}
	for _, s := range []uint32{0, 1, 255, 1 << 31, 1<<31 + 1, math.MaxUint32} {
		add(fmt.Sprintf("size %d", s), false, 0, v, kvU32("max-frame-size", s), cp)
	}
	// other integer types carrying the size
	for _, t := range []byte{2, 4, 5} {
		add(fmt.Sprintf("size 1000 as type %d", t), true, 1000, v, KV{Name: "max-frame-size", Type: t, I: 1000}, cp)
		add(fmt.Sprintf("size 2^32+1000 as type %d", t), false, 0, v, KV{Name: "max-frame-size", Type: t, I: 1<<32 + 1000}, cp)
		add(fmt.Sprintf("size 2^63+1000 as type %d", t), false, 0, v, KV{Name: "max-frame-size", Type: t, I: 1<<63 + 1000}, cp)
		add(fmt.Sprintf("size -1 as type %d", t), false, 0, v, KV{Name: "max-frame-size", Type: t, I: math.MaxUint64}, cp)
	}
	add("size 2^32+1000 as uint32", false, 0, v, KV{Name: "max-frame-size", Type: 3, I: 1<<32 + 1000}, cp)
	add("no size", false, 0, v, cp)
	add("nothing", false, 0)
	add("size is a string", false, 0, v, kvStr("max-frame-size", "16384"), cp)
	add("size is a string after an integer", false, 0, kvU32("x", 5000), kvStr("max-frame-size", "16384"), cp)
	add("size is null", false, 0, kvU32("x", 5000), kvNull("max-frame-size"), cp)
	add("size is boolean", false, 0, v, kvBool("max-frame-size", true), cp)
	add("size name prefix", false, 0, v, kvU32("max-frame-siz", 16384), cp)
	add("size name longer", false, 0, v, kvU32("max-frame-size2", 16384), cp)
	// order, unknown entries, duplicates of other keys
	add("size first", true, 4096, kvU32("max-frame-size", 4096), cp, v)
	add("size last", true, 4096, cp, v, kvStr("engine-id", "e"), kvU32("max-frame-size", 4096))
	add("unknown entries", true, 4096, v, kvStr("unknown", "x"), kvU32("max-frame-size", 4096), kvNull("z"), kvAddr("q", addr6), cp)
	add("no capabilities", true, 4096, v, kvU32("max-frame-size", 4096))
	add("long engine id", true, 4096, v, kvU32("max-frame-size", 4096), cp, kvStr("engine-id", strings.Repeat("e", 3000)))
	// every order of up to four entries, sizes around the limits
	ent := []KV{kvStr("engine-id", "engine"), kvStr("supported-versions", "2.0"), kvStr("capabilities", "pipelining,async"), kvBool("healthcheck", false), kvStr("unknown", "x"), kvBool("debug", true)}
	for _, sz := range []uint32{255, 256, math.MaxInt32, 1 << 31, 0} {
		valid := sz >= 256 && sz <= math.MaxInt32
		size := kvU32("max-frame-size", sz)
		n := len(ent)
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("size %d before %s", sz, ent[i].Name), valid, sz, size, ent[i])
			add(fmt.Sprintf("size %d behind %s", sz, ent[i].Name), valid, sz, ent[i], size)
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				add(fmt.Sprintf("size %d between %s and %s", sz, ent[i].Name, ent[j].Name), valid, sz, ent[i], size, ent[j])
				add(fmt.Sprintf("size %d behind %s and %s", sz, ent[i].Name, ent[j].Name), valid, sz, ent[i], ent[j], size)
			}
		}
		all := append([]KV{}, ent...)
		add(fmt.Sprintf("size %d behind everything", sz), valid, sz, append(all, size)...)
		add(fmt.Sprintf("size %d before everything", sz), valid, sz, append([]KV{size}, ent...)...)
	}
	// every set of other entries, with and without a usable size
	for m := 0; m < 1<<len(ent); m++ {
		var ks, rev []KV
		var nm []string
		for i, k := range ent {
			if m>>i&1 == 1 {
				ks, rev, nm = append(ks, k), append([]KV{k}, rev...), append(nm, k.Name)
			}
		}
		with := strings.Join(nm, "+")
		app := func(l []KV, k ...KV) []KV { return append(append([]KV{}, l...), k...) }
		add("no size, "+with, false, 0, ks...)
		add("no size, reversed "+with, false, 0, rev...)
		add("size is a string, "+with, false, 0, app(ks, kvStr("max-frame-size", "4096"))...)
		add("size is null, "+with, false, 0, app([]KV{kvNull("max-frame-size")}, ks...)...)
		add("size 255 in front of "+with, false, 0, app([]KV{kvU32("max-frame-size", 255)}, ks...)...)
		add("size -1 behind "+with, false, 0, app(rev, KV{Name: "max-frame-size", Type: 4, I: math.MaxUint64})...)
		add("size 4096 in front of "+with, true, 4096, app([]KV{kvU32("max-frame-size", 4096)}, rev...)...)
		add("size 4096 behind "+with, true, 4096, app(ks, kvU32("max-frame-size", 4096))...)
	}
	// other contents of the keys that do not decide
	for _, id := range []KV{kvStr("engine-id", ""), kvStr("engine-id", strings.Repeat("\xff", 300))} {
		add("odd engine id", true, 4096, id, kvU32("max-frame-size", 4096), kvStr("capabilities", "x"))
	}
	hc := func(name string, valid, hc bool, ks ...KV) {
		l = append(l, helloCase{name: name, raw: helloKVs(ks...), size: 4096, valid: valid, hc: hc})
	}
	hc("health check", true, true, v, kvU32("max-frame-size", 4096), cp, kvBool("healthcheck", true))
	hc("health check first", true, true, kvBool("healthcheck", true), v, kvU32("max-frame-size", 4096), cp)
	hc("health check false", true, false, v, kvU32("max-frame-size", 4096), cp, kvBool("healthcheck", false))
	hc("health check false first", true, false, kvBool("healthcheck", false), v, kvU32("max-frame-size", 4096), cp)
	for m := 0; m < 1<<len(ent); m++ {
		var ks []KV
		for i, k := range ent {
			if m>>i&1 == 1 && k.Name != "healthcheck" {
				ks = append(ks, k)
			}
		}
		if m>>3&1 == 1 { // the bit of the healthcheck entry: the entry order
			continue
		}
		with := fmt.Sprintf("health check with %d other entries (%b)", len(ks), m)
		l2 := func(k ...KV) []KV { return append([]KV{}, k...) }
		size := kvU32("max-frame-size", 4096)
		hc(with+" behind it", true, true, append(l2(kvBool("healthcheck", true), size), ks...)...)
		hc(with+" in front of it", true, true, append(l2(ks...), size, kvBool("healthcheck", true))...)
		hc(with+" and no size", false, true, append(l2(ks...), kvBool("healthcheck", true))...)
		hc("no "+with, true, false, append(l2(kvBool("healthcheck", false), size), ks...)...)
	}
	hc("health check, size missing", false, false, v, cp, kvBool("healthcheck", true))
	hc("health check, size too small", false, false, kvBool("healthcheck", true), v, kvU32("max-frame-size", 255), cp)
	hc("health check, size too large", false, false, kvBool("healthcheck", true), v, kvU32("max-frame-size", 1<<31), cp)
	// truncated lists
	full := refKVs(v, kvU32("max-frame-size", 4096), cp)
	for i := 1; i < len(full); i++ {
		ks, _, ok := refScanKV(full[:i], -1)
		valid := false
		if ok {
			for _, k := range ks {
				valid = valid || k.Name == "max-frame-size"
			}
		}
		l = append(l, helloCase{name: fmt.Sprintf("entry list cut at %d", i), raw: refFrame(fHello, flagFin, 0, 0, full[:i]), size: 4096, valid: valid})
	}
	l = append(l, helloCase{name: "bad type behind the size", raw: refFrame(fHello, flagFin, 0, 0, append(append([]byte{}, full...), 1, 'x', 0x0f)), valid: false})
	l = append(l, helloCase{name: "bad type before the size", raw: refFrame(fHello, flagFin, 0, 0, append([]byte{1, 'x', 0x0a}, full...)), valid: false})
	return l
}

// helloVerdict checks a connection which started with frame h (followed by
// whatever is registered in s.ns).
func helloVerdict(e *spopEnv, s *sconn, h helloCase) {
	fs := e.wellFormed(s, false)
	nh, nd := 0, 0
	for _, f := range fs {
		if f.Type == fAHello {
			nh++
		}
		if f.Type == fADisc {
			nd++
		}
	}
	if !h.valid {
		if nh > 0 {
			e.c.Fail("C09", "%s: AGENT-HELLO in reply to invalid HELLO (%s)", s.Name, h.name)
		}
		for _, n := range s.ns {
			for _, m := range n.ms {
				if m.seen > 0 {
					e.c.Fail("C09", "%s: handler called without a valid HELLO (%s)", s.Name, h.name)
				}
			}
		}
		if s.Closes == 0 {
			e.c.Fail("C09", "%s: connection stays open after an invalid HELLO (%s)", s.Name, h.name)
		}
		if nd != 1 || len(fs) != 1 {
			e.c.Fail("C09", "%s: %d frames, %d AGENT-DISCONNECT after an invalid HELLO (%s)", s.Name, len(fs), nd, h.name)
		}
		return
	}
	s.size = h.size
	e.helloFrame(s, fs)
	if h.hc {
		if s.Closes == 0 {
			e.c.Fail("C09", "%s: connection stays open after a health check (%s)", s.Name, h.name)
		}
		for _, f := range fs[min(1, len(fs)):] {
			if f.Type != fADisc {
				e.c.Fail("C09", "%s: frame type %d after a health check (%s)", s.Name, f.Type, h.name)
			}
		}
		return
	}
	e.acks(s, fs, true)
	if s.Closes > 0 {
		e.c.Fail("C09", "%s: connection closed after a valid HELLO (%s)", s.Name, h.name)
	}
}

func initHello() {
	hs := helloCases()
	scns = append(scns, &Scn{Name: "spop-hello", Props: []string{"C09"}, N: fixedN(len(hs) * 2),
		Make: func(v int) *Case {
			h := hs[v/2]
			var s *sconn
			return spopCase(fmt.Sprintf("HELLO %s, NOTIFY %s", h.name, []string{"afterwards", "pipelined"}[v&1]), 2, func(e *spopEnv) {
				s = e.dial("A")
				s.Feed(h.raw)
				if v&1 == 0 {
					settle()
				}
				n := e.send(s, 1, 1, ms("m", kvStr("a", "b")))
				if h.hc || !h.valid {
					n.noAck = true
				}
			}, func(e *spopEnv) { helloVerdict(e, s, h); e.outcome() })
		},
		Quick: []Bound{{D: 2, Secs: 120}},
		Thor:  []Bound{{D: 3, Secs: 120}},
	})

	// the first frame is something else; sequences of up to three frames
	kinds := []string{"hello", "notify", "disc", "ahello", "type0", "type255", "ack", "badhello"}
	n := len(kinds)
	scns = append(scns, &Scn{Name: "spop-first", Props: []string{"C09"}, N: fixedN(n * n * n),
		Make: func(v int) *Case {
			seq := []int{v % n, v / n % n, v / n / n}
			var s *sconn
			label := kinds[seq[0]] + "," + kinds[seq[1]] + "," + kinds[seq[2]]
			return spopCase(label, 1, func(e *spopEnv) {
				s = e.dial("A")
				for i, k := range seq {
					switch kinds[k] {
					case "hello":
						s.Feed(refHello(uint32(1000 + i)))
					case "badhello":
						s.Feed(refHello(255))
					case "notify":
						e.send(s, uint64(i), 9, ms(fmt.Sprintf("m%d", i), kvStr("a", "b")).with(func(m *mspec) { m.points = 0 }))
					case "disc":
						s.Feed(refDisconnect(0, "bye"))
					case "ahello":
						s.Feed(refFrame(fAHello, flagFin, 0, 0, refKVs(kvU32("max-frame-size", 1000))))
					case "ack":
						s.Feed(refFrame(fAck, flagFin, 1, 1, nil))
					case "type0":
						s.Feed(refFrame(0, flagFin, 0, 0, refKVs(kvU32("max-frame-size", 1000))))
					case "type255":
						s.Feed(refFrame(255, flagFin, 0, 0, nil))
					}
				}
			}, func(e *spopEnv) {
				if kinds[seq[0]] != "hello" {
					helloVerdict(e, s, helloCase{name: label})
				} else {
					s.size = 1000
					fs := e.wellFormed(s, false)
					e.helloFrame(s, fs)
					disc := false
					for _, k := range seq {
						disc = disc || kinds[k] == "disc"
					}
					e.acks(s, fs, !disc)
				}
				e.outcome()
			})
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 60}},
	})

	// segmentation: every single cut and every pair of cuts of HELLO + NOTIFY
	base := append(append([]byte{}, refHello(1000)...), refNotify(1, 1, Msg{"m", []KV{kvStr("a", "b")}})...)
	L := len(base)
	scns = append(scns, &Scn{Name: "spop-hello-cuts", Props: []string{"C09", "C06"}, N: func(tier string) int { return L * L },
		Make: func(v int) *Case {
			i, j := v%L, v/L
			var s *sconn
			return spopCase(fmt.Sprintf("reads end at %d and %d", i, j), 1, func(e *spopEnv) {
				s = e.dial("A").hello(1000)
				e.send(s, 1, 1, ms("m", kvStr("a", "b")))
				s.Cut(i, j)
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 0, Secs: 60}},
	})
}

// ---------------------------------------------------------------- C10

// padNotify builds a NOTIFY of exactly total bytes (frame length field).
func padNotify(e *spopEnv, s *sconn, stream, id uint64, name string, total int) (*notif, []byte) {
	for pad := total; pad >= 0; pad-- {
		b := refNotify(stream, id, Msg{name, []KV{kvBin("p", make([]byte, pad))}})
		if len(b)-4 == total {
			data := make([]byte, pad)
			for i := range data {
				data[i] = byte(i*7 + 1)
			}
			m := ms(name, kvBin("p", data))
			raw := e.notify(s, stream, id, m)
			return s.ns[len(s.ns)-1], raw
		}
		if len(b)-4 < total {
			break
		}
		if x := len(b) - 4 - total; x > 16 {
			pad -= x - 16
		}
	}
	return nil, nil
}

// ackPad returns a binary action value so that the ACK is total bytes long
// (nil when no such value exists because of the varint step).
func ackPad(stream, id uint64, name string, total int) []Action {
	for pad := total; pad >= 0; pad-- {
		a := []Action{{true, 2, "r-" + name, kvBin("", make([]byte, pad))}}
		l := len(refAckBytes(stream, id, a...)) - 4
		if l == total {
			for i := range a[0].Val.S {
				a[0].Val.S[i] = byte(i*3 + 2)
			}
			return a
		}
		if l < total {
			break
		}
		if x := l - total; x > 16 {
			pad -= x - 16
		}
	}
	return nil
}

var limitSizes = []int{256, 257, 300, 1000, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 200000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 4 << 20, 1 << 24, 1<<24 + 1}

const limitSmall = 13 // the sizes up to 128 KiB are tried with every HELLO

// limitForm splits the variant into the form of the HELLO and the rest; per
// is the number of variants of a size.
func limitForm(v, per int) (form, rest int) {
	n := len(limitSizes) * per
	if v < n {
		return 0, v
	}
	return 1 + (v-n)%(helloForms-1), (v - n) / (helloForms - 1)
}

func initLimits() {
	// frames from HAProxy around the negotiated limit
	deltas := []int{-2, -1, 0, 1, 2}
	nd := len(deltas)
	scns = append(scns, &Scn{Name: "spop-limit-in", Props: []string{"C10"}, N: fixedN(len(limitSizes)*nd*2 + limitSmall*nd*2*(helloForms-1)),
		Make: func(v int) *Case {
			form, v := limitForm(v, nd*2)
			L := limitSizes[v/nd/2]
			d := deltas[v/2%nd]
			pre := v&1 == 1
			var s *sconn
			var big *notif
			return spopCase(fmt.Sprintf("limit %d, frame of %d bytes", L, L+d), 1, func(e *spopEnv) {
				s = e.dial("A").helloForm(uint32(L), form)
				if pre {
					settle()
					e.send(s, 1, 1, ms("small", kvStr("a", "b")))
					settle()
				}
				var raw []byte
				big, raw = padNotify(e, s, 3, 3, "big", L+d)
				if big == nil {
					return
				}
				s.Feed(raw)
				n := e.send(s, 4, 4, ms("after", kvStr("c", "d")))
				if d > 0 {
					big.noAck = true
					n.noAck = true
				}
			}, func(e *spopEnv) {
				if big == nil {
					return
				}
				e.verify(true)
				if d > 0 {
					if big.ms[0].seen > 0 {
						e.c.Fail("C10", "frame of %d bytes processed on a connection limited to %d", L+d, L)
					}
					e.closed2(s, "C10", fmt.Sprintf("a frame of %d bytes with limit %d", L+d, L))
				} else if s.Closes > 0 {
					e.c.Fail("C10", "connection closed after a frame of %d bytes with limit %d", L+d, L)
				}
			})
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 1, Secs: 200}},
	})

	// the declared length alone, before and after negotiation
	decl := []uint64{65535, 65536, 65537, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	scns = append(scns, &Scn{Name: "spop-declared", Props: []string{"C10", "C11"}, N: fixedN(len(decl) * 4),
		Make: func(v int) *Case {
			L := decl[v/4]
			var s, h *sconn
			return spopCase(fmt.Sprintf("declared length %d, mode %d", L, v%4), 1, func(e *spopEnv) {
				s = e.dial("A")
				h = e.dial("H").hello(1000)
				if v%4 >= 2 {
					s.hello(65535)
				}
				if v%4 == 3 {
					settle()
				}
				b := binary.BigEndian.AppendUint32(nil, uint32(L))
				if v%4 == 1 || v%4 == 3 {
					b = append(b, refHello(1000)[4:]...)
				}
				s.Feed(b)
				settle()
				e.send(h, 1, 1, ms("healthy", kvStr("a", "b")))
			}, func(e *spopEnv) {
				e.verify(true)
				if L > 65535 {
					e.closed2(s, "C10,C11", fmt.Sprintf("a declared length of %d with limit 65535", L))
				} else if s.Closes > 0 {
					e.c.Fail("C10", "connection closed by a declared length of %d", L)
				}
				if L > 65535 && s.MaxBuf > 1<<17 {
					e.c.Fail("C10,C11", "read buffer of %d bytes for a refused frame", s.MaxBuf)
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 60}},
	})

	// HELLO frames around the pre-negotiation limit
	hl := []int{65534, 65535, 65536, 65537}
	scns = append(scns, &Scn{Name: "spop-hello-size", Props: []string{"C10", "C09"}, N: fixedN(len(hl)),
		Make: func(v int) *Case {
			var s *sconn
			return spopCase(fmt.Sprintf("HELLO of %d bytes", hl[v]), 1, func(e *spopEnv) {
				s = e.dial("A")
				b := refHello(1000)
				ext := hl[v] - (len(b) - 4)
				k := KV{}
				for p := ext; p >= 0; p-- {
					if len(refKV(kvBin("pad", make([]byte, p)))) == ext {
						k = kvBin("pad", make([]byte, p))
						break
					}
				}
				s.hello(1000, k)
				e.send(s, 1, 1, ms("m", kvStr("a", "b"))).noAck = hl[v] > 65535
			}, func(e *spopEnv) {
				if hl[v] <= 65535 {
					e.verify(true)
					return
				}
				fs := e.wellFormed(s, false)
				for _, f := range fs {
					if f.Type != fADisc {
						e.c.Fail("C09,C10", "frame type %d in reply to a HELLO of %d bytes", f.Type, hl[v])
					}
				}
				e.closed2(s, "C09,C10", "an oversized HELLO")
			})
		},
		Quick: []Bound{{D: 0, Secs: 20}},
	})

	// ACKs around the negotiated limit
	ns := len(limitSizes)
	scns = append(scns, &Scn{Name: "spop-limit-out", Props: []string{"C10", "C06"}, N: fixedN(ns*nd*3 + limitSmall*nd*3*(helloForms-1)),
		Make: func(v int) *Case {
			form, v := limitForm(v, nd*3)
			L := limitSizes[v/nd/3]
			d := deltas[v/3%nd]
			mode := v % 3
			var s *sconn
			ok := false
			return spopCase(fmt.Sprintf("limit %d, ACK of %d bytes, mode %d", L, L+d, mode), 1+mode%2, func(e *spopEnv) {
				s = e.dial("A").helloForm(uint32(L), form)
				if mode > 0 {
					e.send(s, 240, 1, ms("first", kvStr("a", "b")))
				}
				acts := ackPad(240, 2288, "big", L+d)
				if acts == nil {
					return
				}
				if mode == 2 {
					// the same length from several actions
					v := acts[0].Val.S
					h := len(v) / 2
					two := []Action{{true, 2, "r-big", kvBin("", v[:h])}, {true, 2, "r-big", kvBin("", v[h:])}}
					for {
						x := len(refAckBytes(240, 2288, two...)) - 4 - (L + d)
						if x <= 0 || len(two[1].Val.S) == 0 {
							break
						}
						two[1].Val.S = two[1].Val.S[:max(0, len(two[1].Val.S)-max(1, x-8))]
					}
					if len(refAckBytes(240, 2288, two...))-4 != L+d {
						return
					}
					acts = two
				}
				ok = true
				e.send(s, 240, 2288, ms("big", kvStr("a", "b")).with(func(m *mspec) { m.acts = acts })).noAck = d > 0
				e.send(s, 240, 3, ms("after", kvStr("c", "d")))
				if mode == 2 {
					// another connection with a different limit reuses the buffers
					t := e.dial("B").hello(256)
					e.send(t, 1, 1, ms("other", kvStr("a", "b")))
					e.send(t, 1, 2, ms("other2", kvStr("a", "b")).with(func(m *mspec) {
						m.acts = []Action{{true, 0, "x", kvBin("", make([]byte, 300))}}
					})).noAck = true
				}
			}, func(e *spopEnv) {
				if ok {
					e.verify(true)
				}
			})
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 1, Secs: 200}},
	})
}

// closed2 is closed without the context check, for the given properties.
func (e *spopEnv) closed2(s *sconn, props, why string) {
	if s.Closes == 0 {
		e.c.Fail(props, "%s: connection stays open after %s", s.Name, why)
	}
}

// ---------------------------------------------------------------- C11

func initContain() {
	// corrupted frames: a victim connection, a healthy one, more NOTIFYs after
	type bad struct {
		name string
		raw  []byte
		keep bool // the connection must keep working
		free bool // may keep working or be closed
		dup  string
	}
	var bads []bad
	badN := func(name string, payload []byte) {
		bads = append(bads, bad{name: name, raw: refFrame(fNotify, flagFin, 77, 77, payload), keep: true})
	}
	good := refMsgs(Msg{"vic", []KV{kvStr("key", "value"), kvU32("n", 70000), kvAddr("a", addr4)}})
	for i := 1; i < len(good); i++ {
		badN(fmt.Sprintf("message list cut at %d", i), good[:i])
	}
	for i := 0; i < len(good); i++ {
		for _, x := range []byte{0x00, 0x01, 0x7f, 0x80, 0xef, 0xf0, 0xff} {
			g := append([]byte{}, good...)
			if g[i] == x {
				continue
			}
			g[i] = x
			if _, ok := refScanMsgs(g); ok {
				continue // still well formed
			}
			badN(fmt.Sprintf("byte %d = %#x", i, x), g)
		}
	}
	badN("arguments beyond the end", []byte{3, 'v', 'i', 'c', 200})
	badN("huge name length", append([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, good...))
	badN("huge value length", append([]byte{3, 'v', 'i', 'c', 1, 1, 'k', 8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, good...))
	badN("huge argument name length", append([]byte{3, 'v', 'i', 'c', 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, good...))
	for t := byte(10); t < 16; t++ {
		badN(fmt.Sprintf("value type %d", t), []byte{3, 'v', 'i', 'c', 1, 1, 'k', t, 0, 0, 0, 0})
	}
	free := func(name string, raw []byte) { bads = append(bads, bad{name: name, raw: raw, free: true}) }
	for _, t := range []byte{0, 4, 100, 101, 102, 103, 104, 255} {
		free(fmt.Sprintf("frame type %d", t), refFrame(t, flagFin, 1, 1, good))
	}
	free("second HELLO", refHello(500))
	free("second HELLO with garbage", refFrame(fHello, flagFin, 0, 0, []byte{0xff, 0xff}))
	// short frames: lengths 0..7, in every content
	for n := 0; n < 8; n++ {
		for _, body := range [][]byte{{3, 0, 0, 0, 1, 7, 7, 0}, {2, 0, 0, 0, 1, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {3, 0, 0, 0, 1, 7, 0xf0, 0xff}} {
			if n == 7 && (body[5] == 7 && body[6] == 7) {
				continue // an empty NOTIFY, well formed
			}
			free(fmt.Sprintf("frame of %d bytes %x", n, body[:n]), append(binary.BigEndian.AppendUint32(nil, uint32(n)), body[:n]...))
		}
	}
	scns = append(scns, &Scn{Name: "spop-malformed", Props: []string{"C11", "C08"}, N: fixedN(len(bads) * 2),
		Make: func(v int) *Case {
			b := bads[v/2]
			pre := v&1 == 1
			var s, h *sconn
			return spopCase(fmt.Sprintf("%s (%x)%s", b.name, clipb(b.raw, 40), map[bool]string{true: ", after traffic"}[pre]), 1, func(e *spopEnv) {
				s = e.dial("A").hello(16384)
				h = e.dial("H").hello(16384)
				settle()
				if pre {
					// leaves a recognisable frame in the pools
					e.send(s, 9, 9, ms("earlier", kvStr("k", "secret"), kvBin("b", bytes.Repeat([]byte{3}, 60))))
					e.send(h, 9, 9, ms("earlier2", kvStr("k", "secret2"), kvBin("b", bytes.Repeat([]byte{3}, 60))))
					settle()
				}
				// The malformed frame may have well-formed leading messages.
				e.bad = true
				e.tolerate(b.raw)
				s.Feed(b.raw)
				settle()
				e.lead = nil
				n := e.send(s, 5, 5, ms("next", kvStr("a", "b")), ms("next2", kvU32("x", 7), kvStr("y", "z")).with(func(m *mspec) { m.consume = v % 3 }), ms("next3", kvNull("q")))
				if !b.keep {
					n.noAck = true // checked below
				}
				e.send(h, 6, 6, ms("healthy", kvStr("c", "d")), ms("healthyb", kvStr("c2", "d2"), kvBool("t", true)))
				settle()
				late := e.dial("L").hello(16384)
				e.send(late, 8, 8, ms("late", kvStr("e", "f")))
			}, func(e *spopEnv) {
				if !b.keep {
					// a refused connection: no ACK required, but allowed if it kept working
					for _, n := range s.ns {
						if n.noAck {
							n.noAck = n.ms[0].seen == 0
						}
					}
				}
				e.verify(true)
				if b.keep && s.Closes > 0 {
					e.c.Fail("C11", "connection closed by a malformed NOTIFY")
				}
				if h.Closes > 0 {
					e.c.Fail("C11", "healthy connection closed")
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 300}},
		Thor:  []Bound{{D: 2, Secs: 300}},
	})

	// panicking handlers, repeated more often than there are workers
	panicking := func(v int) *Case {
		kind, w, pos := v%3+1, v/3%3+1, v/9
		if v >= 27 {
			kind, w, pos = 4+(v-27)/2, 1+v%2, v%3
		}
		var s *sconn
		return spopCase(fmt.Sprintf("panic kind %d at message %d, %d workers", kind, pos, w), w, func(e *spopEnv) {
			e.bad = true
			s = e.dial("A").hello(16384)
			h := e.dial("H").hello(16384)
			settle()
			for i := 0; i < w+1; i++ {
				var l []*mspec
				for j := 0; j < 3; j++ {
					m := ms(fmt.Sprintf("p%d-%d", i, j), kvStr("x", "y"), kvU32("z", uint32(i)))
					m.points = 0
					m.consume = (v + i) % 3
					if j == pos {
						m.panics = kind
					}
					if j > pos {
						m.seen = 0
					}
					l = append(l, m)
				}
				e.send(s, uint64(i), 1, l...).noAck = true
				if i == 0 {
					e.send(h, 50, 1, ms("healthy0", kvStr("c", "d")))
				}
			}
			settle()
			for i := 0; i < w; i++ {
				e.send(s, uint64(100+i), 1, ms(fmt.Sprintf("after%d", i), kvStr("a", "b")), ms(fmt.Sprintf("after%db", i), kvStr("a", "b"), kvU32("c", 1)).with(func(m *mspec) { m.consume = i % 3 }), ms(fmt.Sprintf("after%dc", i)))
			}
			e.send(h, 51, 1, ms("healthy1", kvStr("c", "d")), ms("healthy2"), ms("healthy3", kvBin("z", []byte{1, 2, 3})))
			// all workers must still be there
			n := 0
			for i := 0; i < w; i++ {
				arrived := false
				m := ms(fmt.Sprintf("meet%d", i), kvU32("i", uint32(i)))
				m.points = 0
				m.ready = func() bool {
					if !arrived {
						arrived = true
						n++
					}
					return n >= w
				}
				e.send(h, uint64(200+i), 1, m)
			}
		}, func(e *spopEnv) {
			e.verify(true)
			for _, n := range s.ns {
				for j, m := range n.ms {
					if n.noAck && j > pos && m.seen > 0 {
						e.c.Fail("C11", "message %s handled although an earlier message of its frame panicked", m.m.Name)
					}
				}
			}
			for _, s := range e.conns {
				if s.Closes > 0 && !s.probe {
					e.c.Fail("C11", "%s closed by a panicking handler", s.Name)
				}
			}
		})
	}
	scns = append(scns, &Scn{Name: "spop-panics", Props: []string{"C11", "C12", "C08", "C13"}, N: fixedN(27), Make: panicking,
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 200}},
	}, &Scn{Name: "spop-panicvals", Props: []string{"C11", "C12", "C08", "C13"}, N: fixedN(2 * len(panicVals)), Make: func(v int) *Case { return panicking(27 + v) },
		Quick: []Bound{{D: 1, Secs: 100}},
		Thor:  []Bound{{D: 2, Secs: 100}},
	})

	// repetition: the same bad frame many times, with few workers
	reps := []func() []byte{
		func() []byte { return refFrame(fNotify, flagFin, 7, 7, []byte{5, 'a'}) },
		func() []byte { return refFrame(9, flagFin, 7, 7, nil) },
		func() []byte { return refHello(1000) },
		func() []byte { return refFrame(fNotify, flagFin, 7, 7, []byte{1, 'z', 1, 1, 'k', 0x0f}) },
		func() []byte {
			return refFrame(fNotify, flagFin, 7, 7, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1})
		},
	}
	scns = append(scns, &Scn{Name: "spop-repeat", Props: []string{"C11", "C12", "C08"}, N: fixedN(len(reps) * 2),
		Make: func(v int) *Case {
			w := v%2 + 1
			var s *sconn
			return spopCase(fmt.Sprintf("bad frame %d repeated, %d workers", v/2, w), w, func(e *spopEnv) {
				s = e.dial("A").hello(16384)
				h := e.dial("H").hello(16384)
				settle()
				e.bad = true
				e.tolerate(reps[v/2]())
				for i := 0; i < 3*w+2; i++ {
					s.Feed(reps[v/2]())
				}
				e.send(s, 1, 1, ms("after", kvStr("a", "b")), ms("after2", kvStr("a", "b"), kvU32("c", 2))).noAck = true
				e.send(h, 1, 1, ms("healthy", kvStr("a", "b")), ms("healthyb", kvStr("a", "b"), kvU32("c", 2)), ms("healthyc"))
				n := 0
				for i := 0; i < w; i++ {
					arrived := false
					m := ms(fmt.Sprintf("meet%d", i), kvU32("i", uint32(i)))
					m.points = 0
					m.ready = func() bool {
						if !arrived {
							arrived = true
							n++
						}
						return n >= w
					}
					e.send(h, uint64(200+i), 1, m)
				}
			}, func(e *spopEnv) {
				for _, n := range s.ns {
					n.noAck = n.ms[0].seen == 0
				}
				e.verify(true)
			})
		},
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 100}},
	})
}

// ---------------------------------------------------------------- C13

func initShutdown() {
	// loss of the connection at every byte of a session
	mk := func(e *spopEnv, s *sconn) []byte {
		s.helloed, s.size = true, 4096
		b := refHello(4096)
		b = append(b, e.notify(s, 240, 1, ms("m0", kvStr("a", "b")), ms("m0b"))...)
		b = append(b, e.notify(s, 1, 2, ms("m1", kvU32("x", 500)))...)
		b = append(b, refDisconnect(0, "bye")...)
		return b
	}
	proto := func() int {
		e := &spopEnv{specs: map[string]*mspec{}}
		return len(mk(e, &sconn{Conn: NewConn("x")}))
	}()
	end := func(s *sconn, how int) {
		switch how {
		case 0:
			s.EOF()
		case 1:
			s.Reset(syscall.ECONNRESET)
		case 2:
			s.Reset(syscall.EPIPE)
		}
	}
	for _, variant := range []struct {
		name  string
		w     int
		quiet bool
	}{{"spop-loss", 1, false}, {"spop-loss-quiet", 2, true}} {
		scns = append(scns, &Scn{Name: variant.name, Props: []string{"C13", "C07", "C11"}, N: fixedN((proto + 1) * 2),
			Make: func(v int) *Case {
				cut, how := v/2, v%2
				var s *sconn
				var h *sconn
				return spopCase(fmt.Sprintf("%s after %d of %d bytes", []string{"EOF", "reset"}[how], cut, proto), variant.w, func(e *spopEnv) {
					s = e.dial("A")
					b := mk(e, s)
					s.Feed(b[:cut])
					if variant.quiet {
						settle()
					}
					end(s, how)
					settle()
					h = e.dial("H").hello(1000)
					e.send(h, 1, 1, ms("healthy", kvStr("a", "b")))
					settle()
					h.EOF()
				}, func(e *spopEnv) {
					s.helloed = false // replies are checked without completeness
					e.verify(false)
					fs := e.wellFormed(s, false)
					e.acks(s, fs, false)
					hf := e.wellFormed(h, false)
					e.acks(h, hf, true)
					e.closed(s, "the peer was lost")
					e.closed(h, "end of stream")
					e.discOrder(s, fs)
					e.leaks()
					if e.ret > 0 {
						e.c.Fail("C13", "Serve returned (%v) because a connection ended", e.retErr)
					}
				})
			},
			Quick: []Bound{{D: 1, Secs: 60}},
			Thor:  []Bound{{D: 2, Secs: 300}},
		})
	}

	// handlers that wait for the end of their connection
	ways := []string{"EOF", "reset", "EOF inside a frame", "reset inside a frame", "oversize frame", "disconnect frame", "disconnect frame with an error", "disconnect frame, then EOF", "EOF behind more NOTIFYs", "reset while the others are busy", "base context cancelled"}
	scns = append(scns, &Scn{Name: "spop-ctxwait", Props: []string{"C13", "C07", "C11"}, N: fixedN(len(ways)*4 + 8),
		Make: func(v int) *Case {
			base := 0
			if i := v - len(ways)*4; i >= 0 {
				v, base = len(ways)*4-4+i%4, 1+i/4 // the last way
			}
			way, busy, two := ways[v/4], 1+v%2, v&2 != 0
			var s, h *sconn
			c := spopCase(fmt.Sprintf("%s with %d handlers waiting for their context, other connection busy %v%s", way, busy, two, baseKinds[base]), 4, func(e *spopEnv) {
				s = e.dial("A").hello(4096)
				h = e.dial("H").hello(4096)
				settle()
				for i := 0; i < busy; i++ {
					e.send(s, 1, uint64(i), ms(fmt.Sprintf("w%d", i), kvStr("a", "b")).with(func(m *mspec) { m.waitCtx = true }), ms(fmt.Sprintf("x%d", i)))
				}
				stop := false
				if two {
					e.send(h, 1, 1, ms("h1", kvStr("a", "b")).with(func(m *mspec) { m.ready = func() bool { return stop } }))
				}
				settle()
				switch way {
				case "EOF":
					s.EOF()
				case "reset", "reset while the others are busy":
					s.Reset(syscall.ECONNRESET)
				case "EOF inside a frame":
					s.Feed([]byte{0, 0, 0, 50, 3, 0, 0})
					s.EOF()
				case "reset inside a frame":
					s.Feed([]byte{0, 0, 0, 50, 3, 0, 0})
					s.Reset(syscall.ECONNRESET)
				case "oversize frame":
					s.Feed([]byte{0, 0, 0x10, 1})
				case "disconnect frame":
					s.Feed(refDisconnect(0, "normal"))
				case "disconnect frame with an error":
					s.Feed(refDisconnect(99, "unknown"))
				case "disconnect frame, then EOF":
					s.Feed(refDisconnect(0, "normal"))
					s.EOF()
				case "EOF behind more NOTIFYs":
					for i := 0; i < 6; i++ { // what the queue holds
						e.send(s, 2, uint64(i), ms(fmt.Sprintf("y%d", i)).with(func(m *mspec) { m.waitCtx = true }))
					}
					s.EOF()
				case "base context cancelled":
					e.cancel()
				}
				settle()
				stop = true
				for _, n := range sortedKeys(e.specs) {
					if m := e.specs[n]; m.waitCtx && m.seen > 0 && !m.done {
						e.c.Fail("C13", "the context of handler %q is not cancelled: %s", n, way)
						break
					}
				}
				if way == "base context cancelled" {
					settle()
					s.EOF()
				} else {
					e.send(h, 1, 2, ms("healthy", kvStr("a", "b")))
					settle()
				}
				h.EOF()
				settle()
				e.cancel() // lets the handlers go in any case
			}, func(e *spopEnv) {
				s.helloed = false
				e.verify(false)
				fs := e.wellFormed(s, false)
				e.acks(s, fs, false)
				if way != "base context cancelled" {
					e.acks(h, e.wellFormed(h, false), true)
				}
				e.closed(s, way)
				e.discOrder(s, fs)
				if answeredWays[way] {
					e.answered(s, fs, way)
				}
			})
			c.Base = base
			c.Cfg.Horizon = time.Minute
			return c
		},
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 300}},
	})

	// every way to end a connection, after every kind of HELLO and history
	size := kvU32("max-frame-size", 4096)
	vers, caps, eid := kvStr("supported-versions", "2.0"), kvStr("capabilities", "pipelining,async"), kvStr("engine-id", "E")
	hellos := []struct {
		name string
		ks   []KV
	}{
		{"plain", []KV{vers, size, caps}},
		{"size alone", []KV{size}},
		{"full", []KV{vers, size, caps, eid, kvBool("debug", true), kvBool("healthcheck", false)}},
		{"engine id first", []KV{eid, size, vers}},
		{"empty engine id", []KV{vers, size, kvStr("engine-id", ""), caps}},
		{"no healthcheck first", []KV{kvBool("healthcheck", false), size}},
		{"long engine id", []KV{vers, size, caps, kvStr("engine-id", strings.Repeat("e", 3000))}},
		{"no capabilities", []KV{vers, kvNull("capabilities"), size, kvStr("unknown", "x")}},
	}
	hists := []string{"nothing", "an answered NOTIFY", "handlers waiting for their context", "malformed NOTIFYs", "panicking NOTIFYs", "an ACK over the limit", "an empty NOTIFY", "frames of unknown types", "an answered NOTIFY on the other connection"}
	scns = append(scns, &Scn{Name: "spop-ends", Props: []string{"C13", "C07", "C11"}, N: fixedN(len(ways) * len(hellos) * len(hists)),
		Make: func(v int) *Case {
			way, hello, hist := ways[v%len(ways)], hellos[v/len(ways)%len(hellos)], v/len(ways)/len(hellos)
			var s, h *sconn
			return spopCase(fmt.Sprintf("%s after HELLO %s and %s", way, hello.name, hists[hist]), 4, func(e *spopEnv) {
				s = e.dial("A")
				s.Feed(helloKVs(hello.ks...))
				s.size, s.helloed = 4096, true
				h = e.dial("H").hello(4096)
				settle()
				over := false // the history may end the connection
				switch hist {
				case 1:
					e.send(s, 1, 1, ms("m", kvStr("a", "b")))
				case 2:
					for i := 0; i < 2; i++ {
						e.send(s, 1, uint64(i), ms(fmt.Sprintf("w%d", i), kvStr("a", "b")).with(func(m *mspec) { m.waitCtx = true }))
					}
				case 3:
					e.bad = true
					for _, p := range [][]byte{{1}, {1, 'x', 1, 1, 'a', 0x0f}, {1, 'x', 0, 5}} {
						raw := refFrame(fNotify, flagFin, 3, 3, p)
						e.tolerate(raw)
						s.Feed(raw)
					}
				case 4:
					e.bad = true
					for i := 0; i < 3; i++ {
						e.send(s, 1, uint64(i), ms(fmt.Sprintf("p%d", i), kvStr("a", "b")).with(func(m *mspec) { m.panics = 1 + i })).noAck = true
					}
				case 5:
					over = true
					e.send(s, 1, 1, ms("big").with(func(m *mspec) { m.acts = []Action{{true, 2, "r", kvBin("", make([]byte, 5000))}} })).noAck = true
				case 6:
					e.send(s, 1, 1)
				case 7:
					for _, t := range []byte{0, 255, fAHello, fAck, fHello, 4} {
						s.Feed(refFrame(t, flagFin, 0, 0, refKVs(size)))
					}
					over = true
				case 8:
					e.send(h, 1, 9, ms("h9", kvStr("a", "b")))
				}
				settle()
				e.lead = nil
				if hist == 1 && !over {
					e.acks(s, e.wellFormed(s, false), true)
				}
				for _, c := range s.ctxs {
					if c.Err() != nil && !over {
						e.c.Fail("C13,C11", "context of connection A cancelled after %s, before %s", hists[hist], way)
						break
					}
				}
				switch way {
				case "EOF":
					s.EOF()
				case "reset":
					s.Reset(syscall.ECONNRESET)
				case "reset while the others are busy":
					e.send(h, 1, 7, ms("h7", kvStr("a", "b")))
					s.Reset(syscall.ECONNRESET)
				case "EOF inside a frame":
					s.Feed([]byte{0, 0, 0, 50, 3, 0, 0})
					s.EOF()
				case "reset inside a frame":
					s.Feed([]byte{0, 0, 0, 50, 3, 0, 0})
					s.Reset(syscall.ECONNRESET)
				case "oversize frame":
					s.Feed([]byte{0, 0, 0x10, 1})
				case "disconnect frame":
					s.Feed(refDisconnect(0, "normal"))
				case "disconnect frame with an error":
					s.Feed(refDisconnect(99, "unknown"))
				case "disconnect frame, then EOF":
					s.Feed(refDisconnect(0, "normal"))
					s.EOF()
				case "EOF behind more NOTIFYs":
					for i := 0; i < 3; i++ {
						e.send(s, 2, uint64(i), ms(fmt.Sprintf("y%d", i)).with(func(m *mspec) { m.waitCtx = i > 0 }))
					}
					s.EOF()
				case "base context cancelled":
					e.cancel()
					settle()
					s.baseCancelled(e)
					s.EOF()
				}
				settle()
				for _, n := range sortedKeys(e.specs) {
					if m := e.specs[n]; m.waitCtx && m.seen > 0 && !m.done {
						e.c.Fail("C13", "the context of handler %q is not cancelled: %s", n, way)
						break
					}
				}
				if way != "base context cancelled" {
					e.send(h, 1, 2, ms("healthy", kvStr("a", "b")))
					settle()
				}
				h.EOF()
				settle()
				if way == "base context cancelled" {
					return
				}
				e.leaks()
				if e.ret > 0 {
					e.c.Fail("C13", "Serve returned (%v) because a connection ended", e.retErr)
				}
				e.cancel() // lets the handlers go in any case
			}, func(e *spopEnv) {
				s.helloed = false
				e.verify(false)
				fs := e.wellFormed(s, false)
				e.acks(s, fs, false)
				if way != "base context cancelled" {
					e.acks(h, e.wellFormed(h, false), true)
				}
				e.closed(s, way)
				e.discOrder(s, fs)
				if answeredWays[way] && hist != 5 && hist != 7 {
					e.answered(s, fs, way)
				}
				if len(fs) == 0 || fs[0].Type != fAHello {
					e.c.Fail("C13,C09", "no AGENT-HELLO for HELLO %s", hello.name)
				}
			})
		},
		Quick: []Bound{{D: 1, Secs: 120}},
		Thor:  []Bound{{D: 2, Secs: 400}},
	})

	// the peer disconnects by frame; protocol violations; handlers in flight
	kinds := []string{"disc-normal", "disc-io", "disc-timeout", "disc-toobig", "disc-unknown", "oversize", "disc-empty", "disc-extra", "disc-malformed"}
	scns = append(scns, &Scn{Name: "spop-disconnect", Props: []string{"C13", "C07"}, N: fixedN(len(kinds) * 4),
		Make: func(v int) *Case {
			k := kinds[v/4]
			w := v%2 + 1
			inflight := v&2 != 0
			var s *sconn
			return spopCase(fmt.Sprintf("%s, %d workers, in flight %v", k, w, inflight), w, func(e *spopEnv) {
				s = e.dial("A").hello(4096)
				h := e.dial("H").hello(4096)
				settle()
				if inflight {
					e.send(s, 1, 1, ms("m0", kvStr("a", "b")).with(func(m *mspec) { m.points = 2 }))
					e.send(s, 2, 2, ms("m1", kvStr("a", "b")))
				} else {
					e.send(s, 1, 1, ms("m0", kvStr("a", "b")))
					settle()
				}
				switch k {
				case "disc-normal":
					s.Feed(refDisconnect(0, "normal"))
				case "disc-io":
					s.Feed(refDisconnect(1, "I/O error"))
				case "disc-timeout":
					s.Feed(refDisconnect(2, "timeout"))
				case "disc-toobig":
					s.Feed(refDisconnect(3, "too big"))
				case "disc-unknown":
					s.Feed(refDisconnect(12345, strings.Repeat("x", 300)))
				case "oversize":
					s.Feed([]byte{0, 0, 0x10, 1})
				case "disc-empty":
					s.Feed(refFrame(fDisc, flagFin, 0, 0, nil))
				case "disc-extra":
					s.Feed(refFrame(fDisc, flagFin, 0, 0, refKVs(kvU32("status-code", 0), kvStr("message", "m"), kvStr("other", "x"))))
				case "disc-malformed":
					s.Feed(refFrame(fDisc, flagFin, 0, 0, []byte{11, 's'}))
				}
				settle()
				if strings.HasPrefix(k, "disc-") && len(k) > 8 && (k == "disc-empty" || k == "disc-extra" || k == "disc-malformed") {
					s.EOF() // not a disconnect the agent understands
					settle()
				}
				e.send(h, 1, 1, ms("healthy", kvStr("a", "b")))
				settle()
				h.EOF()
			}, func(e *spopEnv) {
				s.helloed = false
				e.verify(false)
				fs := e.wellFormed(s, false)
				e.acks(s, fs, false)
				e.acks(e.conns[1], e.wellFormed(e.conns[1], false), true)
				e.closed(s, k)
				e.discOrder(s, fs)
				if k != "disc-empty" && k != "disc-extra" && k != "disc-malformed" {
					e.answered(s, fs, k)
				}
				e.leaks()
				if e.ret > 0 {
					e.c.Fail("C13", "Serve returned (%v) because a connection ended", e.retErr)
				}
			})
		},
		Quick: []Bound{{D: 2, Secs: 80}},
		Thor:  []Bound{{D: 3, Secs: 300}},
	})

	// every status code, in either order of the two entries
	var codes []uint32
	for i := uint32(0); i <= 130; i++ {
		codes = append(codes, i)
	}
	codes = append(codes, 239, 240, 241, 255, 256, 2287, 2288, 65535, 65536, 1<<31-1, 1<<31, 1<<32-1)
	scns = append(scns, &Scn{Name: "spop-disconnect-codes", Props: []string{"C13"}, N: fixedN(len(codes) * 2),
		Make: func(v int) *Case {
			code, swap := codes[v/2], v%2 == 1
			var s *sconn
			return spopCase(fmt.Sprintf("HAPROXY-DISCONNECT with status-code %d, message first %v", code, swap), 2, func(e *spopEnv) {
				s = e.dial("A").hello(4096)
				h := e.dial("H").hello(4096)
				settle()
				e.send(s, 1, 1, ms("m0", kvStr("a", "b")))
				settle()
				kvs := []KV{kvU32("status-code", code), kvStr("message", "over")}
				if swap {
					kvs[0], kvs[1] = kvs[1], kvs[0]
				}
				s.Feed(refFrame(fDisc, flagFin, 0, 0, refKVs(kvs...)))
				settle()
				e.send(h, 1, 1, ms("healthy", kvStr("a", "b")))
				settle()
				h.EOF()
			}, func(e *spopEnv) {
				s.helloed = false
				e.verify(false)
				fs := e.wellFormed(s, false)
				e.acks(s, fs, false)
				e.acks(e.conns[1], e.wellFormed(e.conns[1], false), true)
				e.closed(s, fmt.Sprintf("HAPROXY-DISCONNECT with status-code %d", code))
				e.discOrder(s, fs)
				e.answered(s, fs, "HAPROXY-DISCONNECT")
				e.leaks()
			})
		},
		Quick: []Bound{{D: 1, Secs: 60}},
		Thor:  []Bound{{D: 2, Secs: 60}},
	})

	// write failures at every write
	scns = append(scns, &Scn{Name: "spop-wfault", Props: []string{"C13", "C11", "C12"}, N: fixedN(2),
		Make: func(v int) *Case {
			var s *sconn
			return spopCase(fmt.Sprintf("write faults as environment choices, %d workers", v+1), v+1, func(e *spopEnv) {
				s = e.dial("A")
				s.Faults = true
				s.hello(4096)
				for i := 0; i < 3; i++ {
					e.send(s, uint64(i), 1, ms(fmt.Sprintf("m%d", i), kvStr("a", "b")))
				}
				settle()
				h := e.dial("H").hello(4096)
				e.send(h, 1, 1, ms("healthy", kvStr("a", "b")))
				settle()
				s.EOF()
				h.EOF()
			}, func(e *spopEnv) {
				s.helloed = false
				e.verify(false)
				e.acks(e.conns[1], e.wellFormed(e.conns[1], false), true)
				e.closed(s, "end of stream")
				e.leaks()
			})
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 200}},
	})

	// base context cancelled at any moment
	scns = append(scns, &Scn{Name: "spop-basectx", Props: []string{"C13"}, N: fixedN(18),
		Make: func(v int) *Case {
			var s *sconn
			base := v / 6
			v %= 6
			c := spopCase(fmt.Sprintf("base context cancelled%s, case %d", baseKinds[base], v), 1+v%2, func(e *spopEnv) {
				if v < 5 {
					s = e.dial("A").hello(4096)
					if v >= 2 {
						settle()
					}
					e.send(s, 1, 1, ms("m0", kvStr("a", "b")))
					e.send(s, 1, 2, ms("m1", kvStr("a", "b")))
				}
				if v == 4 {
					settle()
				}
				sched.PointAt("cancel")
				e.cancel()
				settle()
				if s != nil {
					s.baseCancelled(e)
					sched.Sleep(20 * time.Second)
					if e.ret != 1 {
						e.c.Fail("C13", "Serve has not returned while a connection was open")
					}
					s.EOF()
				}
			}, func(e *spopEnv) {
				if e.ret != 1 {
					e.c.Fail("C13", "Serve returned %d times after the base context was cancelled", e.ret)
				} else if e.retErr == nil {
					e.c.Fail("C13", "Serve returned no error")
				}
				if e.l.closed == 0 {
					e.c.Fail("C13", "listener not closed")
				}
				if s != nil && s.Reads > 0 {
					e.wellFormed(s, false)
					e.closed(s, "base context cancelled and end of stream")
				}
				for _, n := range liveNames(e.x) {
					if s != nil && strings.Contains(n, "agent.go") && !contains(e.base, n) {
						e.c.Fail("C13", "goroutine %s left after shutdown", n)
					}
				}
				e.outcome()
			})
			c.Cfg.Horizon = time.Minute
			c.Base = base
			return c
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 200}},
	})

	// failing Accept
	scns = append(scns, &Scn{Name: "spop-accept", Props: []string{"C13"}, N: fixedN(2 * len(acceptErrs)),
		Make: func(v int) *Case {
			fail := v / 2
			v &= 1
			return spopCase(fmt.Sprintf("Accept fails, case %d, error %d", v, fail), 1, func(e *spopEnv) {
				if v == 1 {
					s := e.dial("A").hello(4096)
					e.send(s, 1, 1, ms("m", kvStr("a", "b")))
					settle()
				}
				e.l.err = acceptErrs[fail]
			}, func(e *spopEnv) {
				if e.ret != 1 || e.retErr == nil {
					e.c.Fail("C13", "Serve returned %d times (%v) after Accept failed", e.ret, e.retErr)
				}
				e.verify(true)
			})
		},
		Quick: []Bound{{D: 1, Secs: 10}},
	})
}

func contains(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}

// discOrder: at most one AGENT-DISCONNECT, and only ACKs after it.
func (e *spopEnv) discOrder(s *sconn, fs []Frame) {
	n := 0
	for _, f := range fs {
		if f.Type == fADisc {
			n++
		} else if n > 0 && f.Type != fAck {
			e.c.Fail("C13", "%s: frame type %d after AGENT-DISCONNECT", s.Name, f.Type)
		}
	}
	if n > 1 {
		e.c.Fail("C13", "%s: %d AGENT-DISCONNECT frames", s.Name, n)
	}
}

var answeredWays = map[string]bool{"oversize frame": true, "disconnect frame": true, "disconnect frame with an error": true}

// answered: a HAPROXY-DISCONNECT or a refused frame on a connection which
// still takes what is written ends with an AGENT-DISCONNECT.
func (e *spopEnv) answered(s *sconn, fs []Frame, why string) {
	for _, f := range fs {
		if f.Type == fADisc {
			return
		}
	}
	e.c.Fail("C13", "%s: no AGENT-DISCONNECT: %s", s.Name, why)
}
