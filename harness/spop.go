package main

import (
	"bytes"
	"fmt"

	"verif/sched"
)

func spopCase(label string, ncpu int, body func(e *spopEnv), final func(e *spopEnv)) *Case {
	c := &Case{Label: label}
	c.Cfg.NumCPU = ncpu
	var e *spopEnv
	c.Body = func(x *sched.Exec) {
		e = newSpop(x, c)
		e.start()
		settle()
		e.baseline()
		body(e)
		settle()
		e.probe(ncpu)
	}
	c.Final = func(x *sched.Exec) {
		if e == nil {
			c.Fail("", "driver did not start")
			return
		}
		final(e)
	}
	return c
}

func fixedN(n int) func(string) int { return func(string) int { return n } }

// ids exercises one and multi byte varints.
var idTab = []uint64{1, 239, 240, 2288, 1<<32 + 5, 1<<63 + 9}

func init() {
	all := []string{"C06", "C07", "C08", "C12"}
	// S1: one connection, pipelined NOTIFYs
	scns = append(scns, &Scn{Name: "spop-pipeline", Props: all, N: fixedN(6),
		Make: func(v int) *Case {
			w, n := []int{1, 2, 2, 3, 2, 1}[v], []int{2, 2, 3, 3, 2, 4}[v]
			return spopCase(fmt.Sprintf("%d workers, %d pipelined NOTIFYs, %s", w, n, []string{"together", "with HELLO"}[v&1]), w, func(e *spopEnv) {
				s := e.dial("A").hello(16384)
				if v&1 == 0 {
					settle()
				}
				for i := 0; i < n; i++ {
					k := []*mspec{ms(fmt.Sprintf("m%d", i), kvStr("k", fmt.Sprintf("value-%d", i)), kvU32("u", uint32(i)))}
					if i == 1 {
						k = append(k, ms("m1b", kvBin("bin", bytes.Repeat([]byte{0xAB}, 40))))
					}
					if i == 2 {
						k[0].acts = nil
					}
					if v == 4 {
						k[0].consume = i
						k[0].acts = []Action{{true, 0, "x", kvBin("", bytes.Repeat([]byte{byte('A' + i)}, 300))}, {Name: "y", Scope: 4}}
					}
					e.send(s, idTab[i], idTab[(i+3)%6], k...)
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 240}},
	})
	// S2: several connections share the pools and the queue
	scns = append(scns, &Scn{Name: "spop-conns", Props: all, N: fixedN(5),
		Make: func(v int) *Case {
			w := []int{1, 2, 2, 3, 2}[v]
			nc := []int{2, 2, 3, 2, 2}[v]
			return spopCase(fmt.Sprintf("%d workers, %d connections", w, nc), w, func(e *spopEnv) {
				var cs []*sconn
				for i := 0; i < nc; i++ {
					cs = append(cs, e.dial(string([]byte{byte('A' + i)})).hello(uint32(1000*(i+1))))
				}
				if v != 4 {
					settle()
				}
				for j := 0; j < 2; j++ {
					for i, s := range cs {
						m := ms(fmt.Sprintf("c%dm%d", i, j), kvStr("token", fmt.Sprintf("%d-%d", i, j)), kvBin("b", bytes.Repeat([]byte{byte(i*16 + j + 1)}, 20+60*i)))
						if j == 1 {
							m.consume = i
						}
						// same ids on every connection
						e.send(s, 7, uint64(j+1), m)
					}
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 240}},
	})
	// S3: bursts around the queue capacity (2 per worker)
	scns = append(scns, &Scn{Name: "spop-burst", Props: []string{"C06", "C12"}, N: fixedN(8),
		Make: func(v int) *Case {
			w := []int{1, 1, 1, 1, 2, 2, 1, 3}[v]
			n := []int{3, 4, 5, 8, 7, 9, 4, 10}[v]
			nc := []int{1, 1, 1, 1, 1, 2, 3, 2}[v]
			return spopCase(fmt.Sprintf("%d workers, %d connections, %d NOTIFYs at once", w, nc, n), w, func(e *spopEnv) {
				var cs []*sconn
				for i := 0; i < nc; i++ {
					cs = append(cs, e.dial(string([]byte{byte('A' + i)})).hello(16384))
				}
				settle()
				for i := 0; i < n; i++ {
					s := cs[i%nc]
					e.send(s, uint64(i), 1, ms(fmt.Sprintf("m%d", i), kvU32("i", uint32(i))).with(func(m *mspec) { m.points = 0 }))
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 1, Secs: 40}, {D: 2, Secs: 60, To: 3}},
		Thor:  []Bound{{D: 2, Secs: 250}, {D: 3, Secs: 200, To: 3}},
	})
	// S4: every number of CPUs, the queue filled behind busy workers
	cpus := []int{}
	for w := 1; w <= 40; w++ {
		cpus = append(cpus, w)
	}
	cpus = append(cpus, 48, 63, 64, 65, 96, 127, 128, 129, 192, 256, 257, 300)
	scns = append(scns, &Scn{Name: "spop-cpus", Props: []string{"C06", "C12"}, N: fixedN(3 * len(cpus)),
		Make: func(v int) *Case {
			w, mode := cpus[v/3], v%3
			return big(spopCase(fmt.Sprintf("%d workers, case %d", w, mode), w, func(e *spopEnv) {
				a := e.dial("A").hello(16384)
				b := a
				if mode > 0 {
					b = e.dial("B").hello(16384)
				}
				settle()
				release := false
				busy, n := w, 4*w+10
				if mode == 2 {
					busy, n = w-1, 3*w+5
				}
				for i := 0; i < busy; i++ {
					e.send(a, uint64(i), 1, ms(fmt.Sprintf("busy%d", i), kvU32("i", 1)).with(func(m *mspec) {
						m.ready = func() bool { return release || mode == 2 && e.done >= n }
					}))
				}
				settle()
				for i := 0; i < n; i++ {
					s := b
					if i%2 == 1 {
						s = a
					}
					e.send(s, uint64(1000+i), 1, ms(fmt.Sprintf("m%d", i), kvU32("i", uint32(i))).with(func(m *mspec) { m.points = 0 }))
				}
				settle()
				release = mode != 2
				settle()
			}, func(e *spopEnv) { e.verify(true) }))
		},
		Quick: []Bound{{D: 0, Secs: 40}},
		Thor:  []Bound{{D: 0, Secs: 60}, {D: 1, Secs: 120, To: 24}},
	})
	// S4b: busy workers and every order in which connections fill the queue,
	// one frame after the other or all at once
	fills := fillWords()
	scns = append(scns, &Scn{Name: "spop-fill", Props: []string{"C06", "C12"}, N: fixedN(2 * len(fills)),
		Make: func(v int) *Case {
			f := fills[v/2]
			return spopCase(fmt.Sprintf("%d busy workers, arrivals %s, case %d", f.w, f.word, v%2), f.w, func(e *spopEnv) {
				cs := map[rune]*sconn{}
				for _, r := range f.word {
					if cs[r] == nil {
						cs[r] = e.dial(string(r)).hello(16384)
					}
				}
				settle()
				release := false
				for i := 0; i < f.w; i++ {
					e.send(cs['A'], uint64(i), 1, ms(fmt.Sprintf("busy%d", i)).with(func(m *mspec) {
						m.points = 0
						m.ready = func() bool { return release }
					}))
				}
				settle()
				for i, r := range f.word {
					e.send(cs[r], uint64(100+i), 1, ms(fmt.Sprintf("m%d", i), kvU32("i", uint32(i))).with(func(m *mspec) { m.points = 0 }))
					if v%2 == 0 {
						settle()
					}
				}
				settle()
				release = true
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 0, Secs: 40}, {D: 1, Secs: 40, To: fillCore}, {D: 2, Secs: 40, To: 20}},
		Thor:  []Bound{{D: 1, Secs: 120}, {D: 2, Secs: 250, To: fillCore}, {D: 3, Secs: 250, To: 20}},
	})
	// S5: a handler blocked until others have run
	scns = append(scns, &Scn{Name: "spop-blocked", Props: []string{"C12", "C06"}, N: fixedN(6),
		Make: func(v int) *Case {
			w := []int{2, 2, 3, 3, 2, 4}[v]
			return spopCase(fmt.Sprintf("%d workers, %d blocked handlers (case %d)", w, w-1, v), w, func(e *spopEnv) {
				a := e.dial("A").hello(16384)
				b := a
				if v&1 == 1 {
					b = e.dial("B").hello(16384)
				}
				settle()
				n := []int{1, 6, 2, 6, 5, 4}[v]
				for i := 0; i < w-1; i++ {
					e.send(a, uint64(i), 1, ms(fmt.Sprintf("blocked%d", i), kvU32("i", 1)).with(func(m *mspec) {
						m.ready = func() bool { return e.done >= n }
					}))
				}
				for i := 0; i < n; i++ {
					e.send(b, uint64(100+i), 1, ms(fmt.Sprintf("m%d", i), kvU32("i", uint32(i))).with(func(m *mspec) { m.points = 0 }))
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 1, Secs: 40}, {D: 2, Secs: 60, To: 3}},
		Thor:  []Bound{{D: 2, Secs: 250}},
	})
	// S6: rendezvous: w handlers run at the same time
	scns = append(scns, &Scn{Name: "spop-parallel", Props: []string{"C12", "C08"}, N: fixedN(4),
		Make: func(v int) *Case {
			w := []int{2, 3, 2, 4}[v]
			return spopCase(fmt.Sprintf("%d handlers wait for each other", w), w, func(e *spopEnv) {
				a := e.dial("A").hello(16384)
				b := e.dial("B").hello(16384)
				settle()
				n := 0
				for r := 0; r < 1+v/2; r++ {
					for i := 0; i < w; i++ {
						s := a
						if i&1 == 1 {
							s = b
						}
						var arrived bool
						m := ms(fmt.Sprintf("m%d-%d", r, i), kvStr("x", fmt.Sprint(i)))
						m.ready = func() bool {
							if !arrived {
								arrived = true
								n++
							}
							return n >= (r+1)*w
						}
						e.send(s, uint64(r*10+i), 5, m)
					}
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 1, Secs: 40}, {D: 2, Secs: 30, To: 2}},
		Thor:  []Bound{{D: 2, Secs: 250}},
	})
	// statement level: lost updates on shared fields
	scns = append(scns, &Scn{Name: "spop-fine", Props: all, N: fixedN(3),
		Make: func(v int) *Case {
			return spopCase(fmt.Sprintf("statement level, case %d", v), 2, func(e *spopEnv) {
				a := e.dial("A").hello(16384)
				b := a
				if v > 0 {
					b = e.dial("B").hello(300)
				}
				if v == 2 {
					settle()
				}
				e.send(a, 1, 2, ms("m0", kvStr("a", "first")), ms("m0b"))
				e.send(b, 1, 2, ms("m1", kvStr("b", "second")))
				if v == 2 {
					e.send(a, 2, 2, ms("m2", kvBin("c", bytes.Repeat([]byte{7}, 30))))
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 1, Fine: true, Secs: 60}},
		Thor:  []Bound{{D: 2, Fine: true, Secs: 400}},
	})
	// read segmentation as environment choices
	scns = append(scns, &Scn{Name: "spop-chop", Props: []string{"C06", "C08", "C09"}, N: fixedN(2),
		Make: func(v int) *Case {
			return spopCase(fmt.Sprintf("arbitrary short reads, case %d", v), 1, func(e *spopEnv) {
				a := e.dial("A")
				a.Chop = true
				a.hello(16384)
				e.send(a, 240, 2, ms("m0", kvStr("a", "first")), ms("m0b"))
				if v == 1 {
					e.send(a, 1, 2288, ms("m1", kvStr("b", "second")))
				}
			}, func(e *spopEnv) { e.verify(true) })
		},
		Quick: []Bound{{D: 3, Secs: 250}},
		Thor:  []Bound{{D: 4, Secs: 250}},
	})
}

type fill struct {
	w    int
	word string
}

// fillCore is the number of variants of spop-fill made from the first words.
const fillCore = 2 * (5 + 8 + 32)

// fillWords is every order of arrivals from up to three connections around a
// full queue, up to renaming; the shortest first.
func fillWords() (l []fill) {
	add := func(w, n, conns int) {
		var rec func(p string, used int)
		rec = func(p string, used int) {
			if len(p) == n {
				l = append(l, fill{w, p})
				return
			}
			for c := 0; c <= used && c < conns; c++ {
				u := used
				if c == used {
					u++
				}
				rec(p+string(rune('A'+c)), u)
			}
		}
		rec("A", 1)
	}
	add(1, 3, 3)
	add(1, 4, 2)
	add(1, 6, 2)
	add(1, 5, 3)
	add(1, 6, 3)
	add(2, 7, 2)
	add(2, 6, 3)
	return
}
