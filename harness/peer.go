package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/sched"
)

// ---------------------------------------------------------------- C14

// tables used by the message sequences
func seqVals(t int, i int) entryVal {
	v := entryVal{id: uint32(1000*t + 17*i), expiry: uint32(60000 + i)}
	switch t {
	case 0:
		v.key = kStr(fmt.Sprintf("key-%d", i), 32)
		v.data = []dataVal{dInt(2, uint64(240+i)), dFreq(10, uint64(i), 2288, 5)}
	case 1:
		v.key = kIP(addr4)
		v.data = []dataVal{dInt(4, uint64(i)), dInt(13, 1<<40+uint64(i)), dDict(19, uint64(i+1), []byte{'s', byte('0' + i)})}
	case 2:
		v.key = kBin([]byte{byte(i), 2, 3, 4}, 4)
	}
	return v
}

func seqDef(t int) *st.Definition {
	d := seqVals(t, 0).def()
	d.StickTableID = uint64(t * 240)
	d.Name = []string{"first", "second", ""}[t]
	d.Expiry = uint64(t) * 70000
	return d
}

const nKinds = 11

type peerSeq struct {
	stream []byte
	bounds []int
	want   []string
	reqs   int
	label  string
}

// seqOf turns a list of message kinds into a stream and its meaning. The
// meaning is computed here from the values, not by decoding the stream.
func seqOf(kinds []int) peerSeq {
	var s peerSeq
	t := 0
	var prev *uint32
	add := func(l string, b []byte) {
		s.label += l + " "
		s.stream = append(s.stream, b...)
		s.bounds = append(s.bounds, len(s.stream))
	}
	add("def0", defMsg(seqDef(0)))
	for i, k := range kinds {
		switch k {
		case 0, 1, 2, 3:
			v := seqVals(t, i)
			v.withID = k == 0 || k == 1
			v.timed = k == 1 || k == 3
			d := seqDef(t)
			u := v.entry(d)
			if !v.withID && prev != nil {
				u.LocalUpdateID = *prev + 1
			}
			id := u.LocalUpdateID
			prev = &id
			s.want = append(s.want, showEntry(u))
			add([]string{"upd", "timed", "inc", "inctimed"}[k], v.msg())
		case 4:
			t = (t + 1) % 3
			add(fmt.Sprintf("def%d", t), defMsg(seqDef(t)))
		case 5:
			add("redefine", defMsg(seqDef(t)))
		case 6:
			add("ack", refPMsg(pcTable, ptAck, []byte{1, 0, 0, 0, byte(i)}))
		case 7:
			add("request", ctl(pctlReq))
			s.reqs++
		case 8:
			add("heartbeat", ctl(pctlHeartbeat))
		case 9:
			add("finished", ctl(pctlFinished))
		case 10:
			add("confirmed", append(ctl(pctlConfirmed), ctl(pctlPartial)...))
		}
	}
	return s
}

func seqCase(sq peerSeq, seg int, segName string, apply func(s *psess)) *Case {
	var s *psess
	return peerCase(sq.label+segName, 2*time.Second, func(e *peerEnv) {
		s = e.dial("A").hello()
		if seg&1 == 0 {
			settle()
		}
		s.Feed(sq.stream)
		if apply != nil {
			apply(s)
		}
	}, func(e *peerEnv) { seqVerdict(e, s, sq) })
}

func seqVerdict(e *peerEnv, s *psess, sq peerSeq) {
	s.checkUpdates("C14", sq.want)
	s.unaltered()
	s.alive("C14,C18", "after valid messages only")
	if len(s.hs) != 1 {
		e.c.Fail("C14,C20", "handshake reported %d times", len(s.hs))
	}
	ms, _ := s.output(false)
	n := 0
	for _, m := range ms {
		if isPartial(m) {
			n++
		} else if !isHeartbeat(m) {
			e.c.Fail("C20", "unprompted message %v", m)
		}
	}
	if n != sq.reqs {
		e.c.Fail("C20", "%d replies to %d synchronisation requests", n, sq.reqs)
	}
	for i, u := range s.upds {
		if i < len(sq.want) && u.u.StickTable != nil && u.u.StickTable.Name == "" && u.u.StickTable.StickTableID != 480 {
			e.c.Fail("C14", "update %d carries the wrong table", i)
		}
	}
}

// segmentation by mode: 0 whole, 1 every byte, 2 message boundaries, 3 one
// byte behind, 4 one byte before every boundary, 5 after each header
func segment(s *psess, off int, bounds []int, mode int) {
	switch mode {
	case 1:
		for i := 0; i < len(s.in); i++ {
			s.Cut(i)
		}
	case 2, 3, 4, 5:
		d := []int{0, 0, 0, 1, -1, 2}[mode]
		s.Cut(off + d)
		for _, b := range bounds {
			s.Cut(off + b + d)
		}
	}
}

func digits(v, base, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = v % base
		v /= base
	}
	return l
}

// ndigits: how many base b digits v needs, at least n.
func ndigits(v, b, n int) int {
	for v >= pow(b, n) {
		n++
	}
	return n
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

func init() {
	initPeerSeq()
	initPeerPush()
	initPeerTimes()
	initPeerEnd()
	initPeerHandshake()
	initPeerMalformed()
}

func initPeerSeq() {
	off := len(stdHandshake)
	scns = append(scns, &Scn{Name: "peer-sequences", Props: []string{"C14", "C20"},
		N: func(tier string) int {
			if tier == "thorough" {
				return pow(nKinds, 6)
			}
			return pow(nKinds, 5)
		},
		Make: func(v int) *Case {
			k := digits(v, nKinds, ndigits(v, nKinds, 4))
			sq := seqOf(k)
			mode := v % 6
			return seqCase(sq, v/7, fmt.Sprintf("(segmentation %d)", mode), func(s *psess) { segment(s, off, sq.bounds, mode) })
		},
		Quick: []Bound{{D: 0, Secs: 80}},
		Thor:  []Bound{{D: 0, Secs: 200}},
	})
	// one representative session in every pair of cuts
	sq := seqOf([]int{0, 2, 4, 1, 7, 3, 8, 0})
	L := len(sq.stream) + off
	scns = append(scns, &Scn{Name: "peer-cuts", Props: []string{"C14", "C20"},
		N: func(tier string) int { return L * (L + 1) / 2 },
		Make: func(v int) *Case {
			i := 0
			for v >= L-i {
				v -= L - i
				i++
			}
			j := i + v
			return seqCase(sq, 1, fmt.Sprintf("reads end at %d and %d", i, j), func(s *psess) { s.Cut(i, j) })
		},
		Quick: []Bound{{D: 0, Secs: 80}},
	})
	// short reads and schedules, two sessions at the same time
	scns = append(scns, &Scn{Name: "peer-sessions", Props: []string{"C14", "C17", "C20"}, N: fixedN(6),
		Make: func(v int) *Case {
			a := seqOf([][]int{{0, 2}, {1, 4, 3}, {0, 7, 2}}[v%3])
			b := seqOf([][]int{{4, 1}, {0, 0}, {7, 4, 0}}[v%3])
			var s, t *psess
			return peerCase(fmt.Sprintf("two sessions: %s/ %s", a.label, b.label), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A")
				t = e.dial("B")
				s.Chop, t.Chop = v >= 3, v >= 3
				s.hello()
				t.hello()
				s.Feed(a.stream)
				t.Feed(b.stream)
			}, func(e *peerEnv) {
				seqVerdict(e, s, a)
				seqVerdict(e, t, b)
			})
		},
		Quick: []Bound{{D: 3, Secs: 200, To: 3}, {D: 2, Secs: 200, From: 3}},
		Thor:  []Bound{{D: 4, Secs: 200, To: 3}, {D: 3, Secs: 200, From: 3}},
	})
	scns = append(scns, &Scn{Name: "peer-sessions-fine", Props: []string{"C14", "C17", "C20"}, N: fixedN(2),
		Make: func(v int) *Case {
			a := seqOf([][]int{{0, 2}, {1, 4, 3}}[v])
			b := seqOf([][]int{{4, 1}, {7, 0}}[v])
			var s, t *psess
			return peerCase(fmt.Sprintf("two sessions: %s/ %s", a.label, b.label), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				t = e.dial("B").hello()
				s.Feed(a.stream)
				t.Feed(b.stream)
			}, func(e *peerEnv) {
				seqVerdict(e, s, a)
				seqVerdict(e, t, b)
			})
		},
		Quick: []Bound{{D: 1, Fine: true, Secs: 60}},
		Thor:  []Bound{{D: 2, Fine: true, Secs: 250}},
	})

	// every key and data type through a session
	keys := allKeys()
	var groups [][]dataVal
	for i, a := range dtAll {
		x := dataVals(a, false)
		y := dataVals(dtAll[(i+1)%len(dtAll)], false)
		if i+1 < len(dtAll) {
			groups = append(groups, []dataVal{x[0], y[len(y)-1]})
		}
		for _, z := range x {
			groups = append(groups, []dataVal{z})
		}
	}
	groups = append(groups, nil)
	var every []dataVal
	for _, t := range dtAll {
		x := dataVals(t, false)
		every = append(every, x[len(x)-1])
	}
	groups = append(groups, every)
	scns = append(scns, &Scn{Name: "peer-values", Props: []string{"C14"}, N: fixedN(len(groups) * 4),
		Make: func(v int) *Case {
			g := groups[v/4]
			var vals []entryVal
			for i, k := range keys {
				vals = append(vals, entryVal{uint32(i * 1000), i%3 != 2, uint32(i) << 20, (i+v)%2 == 0, k, g})
			}
			var s *psess
			var want []string
			return peerCase(fmt.Sprintf("%d keys with data group %d", len(keys), v/4), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				settle()
				prev := uint32(0)
				for i, x := range vals {
					if i%4 != v%4 {
						continue
					}
					d := x.def()
					u := x.entry(d)
					if !x.withID && len(want) > 0 {
						u.LocalUpdateID = prev + 1
					}
					prev = u.LocalUpdateID
					if x.key.lax {
						k := st.BinaryKey(x.key.wire)
						u.Key = &k
					}
					want = append(want, showEntry(u))
					s.Feed(defMsg(d), x.msg())
				}
			}, func(e *peerEnv) {
				s.checkUpdates("C14", want)
				s.unaltered()
				s.alive("C14", "after valid messages only")
			})
		},
		Quick: []Bound{{D: 0, Secs: 60}},
	})

	// message sizes around buffer boundaries
	var sizes []int
	for _, b := range []int{0, 239, 240, 512, 1024, 2288, 4096, 8192, 16384, 65536, 131072} {
		for d := -12; d <= 4; d++ {
			if b+d >= 0 && (d > -3 || b >= 4096) {
				sizes = append(sizes, b+d)
			}
		}
	}
	sizes = append(sizes, 1<<20, 1<<20+5, 3<<20, 20<<20)
	scns = append(scns, &Scn{Name: "peer-sizes", Props: []string{"C14"}, N: fixedN(len(sizes)),
		Make: func(v int) *Case {
			n := sizes[v]
			var s *psess
			var want []string
			return peerCase(fmt.Sprintf("key of %d bytes", n), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				settle()
				d := &st.Definition{Name: "t", KeyType: st.KeyTypeString, KeyLength: 30 << 20, DataTypes: []st.DataTypeDefinition{dtDef(2, 0)}}
				s.Feed(defMsg(d))
				for i := 0; i < 5; i++ {
					if i == 3 {
						// a long name, too
						d = &st.Definition{Name: string(patText(n, i)), StickTableID: 7, KeyType: st.KeyTypeString, KeyLength: 32, DataTypes: []st.DataTypeDefinition{dtDef(2, 0)}}
						s.Feed(defMsg(d))
					}
					x := entryVal{uint32(i), true, 0, false, kStr(strings.Repeat(string(rune('a'+i)), n), 30<<20), []dataVal{dInt(2, uint64(i))}}
					if i == 1 || i > 2 {
						x.key = kStr("short", 30<<20)
					}
					want = append(want, showEntry(x.entry(d)))
					s.Feed(x.msg())
				}
			}, func(e *peerEnv) {
				s.checkUpdates("C14", want)
				s.unaltered()
				s.alive("C14", "after valid messages only")
			})
		},
		Quick: []Bound{{D: 0, Secs: 60}},
	})

	// update ids: explicit ids of every magnitude followed by increments
	ids := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 239, 240}
	scns = append(scns, &Scn{Name: "peer-ids", Props: []string{"C14"}, N: fixedN(len(ids) * 8),
		Make: func(v int) *Case {
			id := ids[v/8]
			pat := v % 8
			var s *psess
			var want []string
			return peerCase(fmt.Sprintf("id %d, pattern %d", id, pat), 2*time.Second, func(e *peerEnv) {
				s = e.dial("A").hello()
				settle()
				d := seqDef(0)
				s.Feed(defMsg(d))
				cur := uint32(0)
				for i := 0; i < 6; i++ {
					x := seqVals(0, i)
					x.withID = i == 0 || pat>>(i%3)&1 == 1 && i > 2
					x.timed = (pat+i)%2 == 0
					x.id = id + uint32(i)*7
					u := x.entry(d)
					if x.withID {
						cur = x.id
					} else {
						cur++
					}
					u.LocalUpdateID = cur
					want = append(want, showEntry(u))
					s.Feed(x.msg())
					if i == 3 {
						s.Feed(defMsg(d), ctl(pctlHeartbeat))
					}
				}
			}, func(e *peerEnv) {
				s.checkUpdates("C14", want)
				s.alive("C14", "after valid messages only")
			})
		},
		Quick: []Bound{{D: 0, Secs: 60}},
	})
}

// ---------------------------------------------------------------- C15

type push struct {
	name  string
	who   int
	msgs  [][]byte // expected messages, update ids zeroed
	isUpd []bool
	fails bool
	maybe bool // may be refused
	err   error
	from  int // output length when called / when returned
	done  int
	ret   bool
	pan   bool
	first int // index of the first message found
}

type pusher struct {
	kept   map[int]*st.EntryUpdate
	e      *peerEnv
	s      *psess
	pushes []*push
	defs   map[int]*st.Definition
}

func zeroID(m []byte, upd bool) []byte {
	if !upd {
		return m
	}
	_, n := refReadVarint(m[2:])
	m = append([]byte{}, m...)
	copy(m[2+n:], []byte{0, 0, 0, 0})
	return m
}

// run executes one push; what: def, def2, switch, entry, timed, batch...
func (p *pusher) run(who int, what string, i int) {
	w := p.s.w
	t := who % 3
	d := seqDef(t)
	x := seqVals(t, i)
	x.withID = true
	q := &push{name: fmt.Sprintf("%s by %d.%d", what, who, i), who: who}
	exp := func(v entryVal) {
		v.withID = true
		v.id = 0
		q.msgs = append(q.msgs, v.msg())
		q.isUpd = append(q.isUpd, true)
	}
	p.pushes = append(p.pushes, q)
	q.from = len(p.s.Out)
	defer func() {
		if r := recover(); r != nil {
			if !q.fails && !q.maybe {
				p.e.c.Fail("C15", "%s: push panics: %v", q.name, r)
			}
			q.pan = true
			q.ret = true
			q.err = fmt.Errorf("panic: %v", r)
		}
		q.done = len(p.s.Out)
	}()
	mk := func(v entryVal) *st.EntryUpdate {
		u := v.entry(d)
		u.WithLocalUpdateID = i%2 == 0
		return u
	}
	switch what {
	case "def":
		if curForm&2 == 0 { // the very definition pushed before
			if p.defs == nil {
				p.defs = map[int]*st.Definition{}
			}
			if p.defs[t] == nil {
				p.defs[t] = d
			}
			d = p.defs[t]
			if curForm&8 == 0 { // with another content
				d.StickTableID = uint64(100*i + who)
			}
		}
		q.msgs = [][]byte{defMsg(d)}
		q.isUpd = []bool{false}
		q.err = w.SendTableDefinition(d)
	case "switch":
		id := uint64(300*who + i)
		if i%2 == 1 {
			id = ^id // ten bytes
		}
		if curForm&2 == 0 { // the table switched to before
			id = uint64(300*who + 7)
		}
		q.msgs = [][]byte{refPMsg(pcTable, ptSwitch, refVarint(id))}
		q.isUpd = []bool{false}
		q.err = w.SendTableSwitch(id)
	case "entry":
		exp(x)
		q.err = w.SendEntry(mk(x))
	case "timed":
		x.timed = true
		exp(x)
		q.err = w.SendEntry(mk(x))
	case "batch":
		var l []*st.EntryUpdate
		for j := 0; j < 3; j++ {
			v := seqVals(t, i+j)
			v.timed = j == 1
			exp(v)
			l = append(l, mk(v))
		}
		q.err = w.SendEntries(l)
	case "batch70", "batch300", "batch5000":
		n := map[string]int{"batch70": 70, "batch300": 300, "batch5000": 5000}[what]
		var l []*st.EntryUpdate
		for j := 0; j < n; j++ {
			v := seqVals(t, i+j)
			v.timed = j%3 == 1
			exp(v)
			l = append(l, mk(v))
		}
		q.err = w.SendEntries(l)
	case "batch0":
		q.err = w.SendEntries(nil)
	case "baddef":
		q.maybe = true
		d.Name = strings.Repeat("n", 5000)
		q.msgs = [][]byte{defMsg(d)}
		q.isUpd = []bool{false}
		q.err = w.SendTableDefinition(d)
	case "same":
		// one entry several times
		var l []*st.EntryUpdate
		u, o := mk(x), mk(seqVals(t, i+1))
		for _, v := range []*st.EntryUpdate{u, u, o, u, o, o} {
			y := x
			if v == o {
				y = seqVals(t, i+1)
			}
			exp(y)
			l = append(l, v)
		}
		q.err = w.SendEntries(l)
	case "reused":
		// the entry of the previous push, changed
		if p.kept[who] == nil {
			if p.kept == nil {
				p.kept = map[int]*st.EntryUpdate{}
			}
			p.kept[who] = mk(x)
		}
		exp(x)
		y := x.entry(d)
		p.kept[who].Key, p.kept[who].Data, p.kept[who].StickTable = y.Key, y.Data, d
		q.err = w.SendEntry(p.kept[who])
	case "badkey":
		q.fails = true
		k := st.IPv6AddressKey{}
		q.err = w.SendEntry(&st.EntryUpdate{StickTable: &st.Definition{KeyType: st.KeyTypeIPv6Address, KeyLength: 16}, Key: &k})
	case "badkeylen":
		q.fails = true
		k := st.BinaryKey{1, 2, 3, 4, 5}
		q.err = w.SendEntry(&st.EntryUpdate{StickTable: &st.Definition{KeyType: st.KeyTypeBinary, KeyLength: 4}, Key: &k, WithExpiry: true})
	case "toobig":
		q.maybe = true
		x.data = append(append([]dataVal{}, x.data...), dDict(19, 1, bytes.Repeat([]byte{'v'}, 70000)))
		exp(x)
		q.err = w.SendEntry(mk(x))
	case "nilkey":
		q.fails = true
		u := mk(x)
		u.Key = nil
		q.err = w.SendEntry(u)
	case "badbatch":
		// the entries before the failing one may or may not be sent
		q.fails = true
		k := st.IPv6AddressKey{}
		bad := &st.EntryUpdate{StickTable: &st.Definition{KeyType: st.KeyTypeIPv6Address, KeyLength: 16}, Key: &k}
		v := seqVals(t, i+1<<20+128) // equals no other entry
		exp(v)
		q.err = w.SendEntries([]*st.EntryUpdate{mk(v), bad, mk(x)})
	case "nilbatch":
		q.fails = true
		v := seqVals(t, i+1<<20+128) // equals no other entry
		exp(v)
		u := mk(x)
		u.Key = nil
		q.err = w.SendEntries([]*st.EntryUpdate{mk(v), u})
	case "big":
		v := x
		v.key = kStr(strings.Repeat("k", 40000+10*who+i%6000+i/6000), 50000)
		d = &st.Definition{KeyType: st.KeyTypeString, KeyLength: 50000}
		v.data = nil
		exp(v)
		q.err = w.SendEntry(mk(v))
	case "bigbatch":
		d = &st.Definition{KeyType: st.KeyTypeString, KeyLength: 50000}
		var l []*st.EntryUpdate
		for j := 0; j < 3; j++ {
			v := x
			v.key = kStr(strings.Repeat("k", 30000+10*who+j), 50000)
			v.data = nil
			exp(v)
			l = append(l, mk(v))
		}
		q.err = w.SendEntries(l)
	case "flush":
		q.err = w.Flush()
	default:
		var n int
		var kind string
		if _, err := fmt.Sscanf(what, "%s %d", &kind, &n); err != nil {
			panic("harness: unknown push " + what)
		}
		switch kind {
		case "def": // a definition of n bytes
			q.maybe = n > 4096
			d = &st.Definition{Name: "", StickTableID: 1, KeyType: st.KeyTypeString, KeyLength: 32}
			if d.Name = fit(n, func(k int) int {
				return len(refDef(&st.Definition{Name: sfill(k, 'n'), StickTableID: 1, KeyType: st.KeyTypeString, KeyLength: 32}))
			}); d.Name == "" {
				break
			}
			q.msgs = [][]byte{defMsg(d)}
			q.isUpd = []bool{false}
			q.err = w.SendTableDefinition(d)
		case "key", "data", "bin": // an update of n bytes
			q.maybe = n > 65536
			d = &st.Definition{KeyType: st.KeyTypeString, KeyLength: 1 << 22}
			v := entryVal{withID: true, timed: i%2 == 1, expiry: 77, key: kStr("k", 1<<22)}
			set := func(s string) {
				switch kind {
				case "key":
					v.key = kStr(s, 1<<22)
				case "data":
					v.data = []dataVal{dInt(2, 9), dDict(19, 7, []byte(s))}
				case "bin":
					v.key = kBin([]byte(s), uint64(len(s)))
				}
			}
			f := fit(n, func(k int) int { set(sfill(max(k, 1), 'v')); return len(v.wire()) })
			if f == "" {
				break
			}
			set(f)
			if kind == "bin" {
				d = &st.Definition{KeyType: st.KeyTypeBinary, KeyLength: uint64(len(f))}
			}
			exp(v)
			q.err = w.SendEntry(mk(v))
		default:
			panic("harness: unknown push " + what)
		}
	}
	q.done = len(p.s.Out)
	q.ret = true
}

// fit is a text that makes something n bytes long, if there is one.
func fit(n int, size func(k int) int) string {
	for k := n; k > 0; k-- {
		x := size(k) - n
		if x == 0 {
			b := patText(k, n)
			return string(b)
		}
		if x < 0 {
			break
		}
		if x > 32 {
			k -= x - 32
		}
	}
	return ""
}

// verdict over everything pushed on a connection.
func (p *pusher) verdict(broken bool, replies int) {
	e, s := p.e, p.s
	ms, ok := s.output(broken)
	if !ok && !broken {
		e.c.Fail("C15,C20", "no status line")
		return
	}
	used := make([]bool, len(ms))
	z := make([][]byte, len(ms))
	failed := false
	for i, m := range ms {
		upd := m.Class == pcTable && (m.Type == ptUpdate || m.Type == ptTimed)
		z[i] = zeroID(s.Out[m.Off:m.End], upd)
	}
	for _, q := range p.pushes {
		if !q.ret && !broken {
			e.c.Fail("C15", "%s never returned", q.name)
			return
		}
		if q.fails {
			failed = true
			if q.ret && q.err == nil {
				e.c.Fail("C15,C16", "%s reported success", q.name)
			}
			continue
		}
		if q.err != nil {
			failed = true
			if !broken && !q.maybe {
				e.c.Fail("C15", "%s failed: %v", q.name, q.err)
				return
			}
		}
	}
	// successful pushes: exactly once, complete, contiguous, flushed
	lastOf := map[int]int{}
	lo := 0 // everything before is used
	for _, q := range p.pushes {
		if q.fails || q.err != nil || len(q.msgs) == 0 || !q.ret {
			continue
		}
		at := -1
		for lo < len(used) && used[lo] {
			lo++
		}
	search:
		for i := lo; i+len(q.msgs) <= len(ms); i++ {
			for j, m := range q.msgs {
				if used[i+j] || !bytes.Equal(z[i+j], m) {
					continue search
				}
			}
			at = i
			break
		}
		if at < 0 {
			e.c.Fail("C15", "%s: not found complete and contiguous in the output", q.name)
			return
		}
		for j := range q.msgs {
			used[at+j] = true
			if ms[at+j].End > q.done {
				e.c.Fail("C15", "%s: returned before its message was flushed (message ends at %d, output was %d)", q.name, ms[at+j].End, q.done)
			}
			if ms[at+j].Off < q.from {
				e.c.Fail("C15", "%s: message found before the call", q.name)
			}
		}
		if l, ok := lastOf[q.who]; ok && at < l {
			e.c.Fail("C15", "%s: sent before an earlier push of the same goroutine", q.name)
		}
		lastOf[q.who] = at
	}
	// leftovers: heartbeats, replies, and entries of failed batches
	n := 0
	for i, m := range ms {
		if used[i] || isHeartbeat(m) {
			continue
		}
		if isPartial(m) {
			n++
			continue
		}
		okm := false
		for _, q := range p.pushes {
			if q.fails || q.err != nil || !q.ret {
				for _, x := range q.msgs {
					okm = okm || bytes.Equal(x, z[i])
				}
			}
		}
		if !okm {
			e.c.Fail("C15", "message %v in the output was pushed by nobody (or twice): %x", m, clipb(s.Out[m.Off:m.End], 60))
		}
	}
	if !broken && n != replies {
		e.c.Fail("C15,C20", "%d synchronisation replies, %d requests", n, replies)
	}
	var prev uint32
	have := false
	for i, m := range ms {
		if m.Class != pcTable || (m.Type != ptUpdate && m.Type != ptTimed) || len(m.Data) < 4 {
			continue
		}
		id := uint32(m.Data[0])<<24 | uint32(m.Data[1])<<16 | uint32(m.Data[2])<<8 | uint32(m.Data[3])
		if have && (id <= prev || (!failed && id != prev+1)) {
			e.c.Fail("C15", "update ids %d, %d on the wire (message %d, any push failed: %v)", prev, id, i, failed)
		}
		prev, have = id, true
	}
}

func initPeerPush() {
	type prog struct {
		ops  [][]string // per goroutine
		req  int        // synchronisation requests fed at the same time
		beat bool       // start when the heartbeat is due
	}
	progs := []prog{
		{[][]string{{"entry", "entry"}, {"entry", "timed"}}, 0, false},
		{[][]string{{"def", "entry"}, {"batch"}}, 1, false},
		{[][]string{{"batch", "entry"}, {"batch"}}, 0, false},
		{[][]string{{"entry", "timed"}}, 2, true},
		{[][]string{{"batch"}, {"def", "switch"}}, 1, true},
		{[][]string{{"entry"}, {"entry"}, {"entry"}}, 1, false},
		{[][]string{{"badkey", "entry"}, {"entry", "badkeylen"}}, 1, false},
		{[][]string{{"badbatch", "entry"}, {"batch"}}, 0, true},
		{[][]string{{"nilkey", "entry"}, {"entry", "def"}}, 1, true},
		{[][]string{{"toobig", "entry"}, {"baddef", "entry"}}, 0, false},
		{[][]string{{"big", "bigbatch"}, {"entry", "big"}}, 1, true},
		{[][]string{{"nilbatch", "entry", "batch0"}, {"entry", "flush", "timed"}}, 0, false},
		{[][]string{{"switch", "def", "switch"}, {"def", "entry", "switch"}}, 0, true},
		{[][]string{{"same", "entry"}, {"reused", "reused"}}, 1, true},
	}
	large := []prog{
		{[][]string{{"batch70", "entry"}, {"entry", "batch300"}}, 1, true},
		{[][]string{{"batch300", "entry"}, {"entry", "batch70"}, {"timed"}}, 0, true},
		{[][]string{{"batch5000"}, {"entry", "def"}}, 1, true},
	}
	mk := func(pr prog, label string) *Case {
		var p *pusher
		return peerCase(label, 8*time.Second, func(e *peerEnv) {
			s := e.dial("A").hello()
			p = &pusher{e: e, s: s}
			settle()
			if pr.beat {
				s.Feed(ctl(pctlHeartbeat))
				sched.Sleep(3*time.Second - 1*time.Millisecond)
			}
			for i := range pr.ops {
				sched.Go(fmt.Sprintf("push%d", i), func() {
					for j, o := range pr.ops[i] {
						p.run(i, o, j)
						sched.PointAt("pushed")
					}
				})
			}
			for i := 0; i < pr.req; i++ {
				s.Feed(ctl(pctlReq))
			}
			settle()
			settle()
			s.Feed(ctl(pctlHeartbeat))
			sched.Sleep(3 * time.Second)
			s.alive("C15", "although nothing ended it")
		}, func(e *peerEnv) { p.verdict(false, pr.req) })
	}
	scns = append(scns, &Scn{Name: "peer-push", Props: []string{"C15", "C20"}, N: fixedN(len(progs)),
		Make:  func(v int) *Case { return mk(progs[v], fmt.Sprint(progs[v])) },
		Quick: []Bound{{D: 3, Secs: 60}},
		Thor:  []Bound{{D: 4, Secs: 300}},
	})
	scns = append(scns, &Scn{Name: "peer-push-fine", Props: []string{"C15"}, N: fixedN(len(progs)),
		Make:  func(v int) *Case { return mk(progs[v], "statement level "+fmt.Sprint(progs[v])) },
		Quick: []Bound{{D: 1, Fine: true, Secs: 60}},
		Thor:  []Bound{{D: 2, Fine: true, Secs: 300}},
	})
	scns = append(scns, &Scn{Name: "peer-push-large", Props: []string{"C15"}, N: fixedN(len(large)),
		Make:  func(v int) *Case { return mk(large[v], fmt.Sprint(large[v])) },
		Quick: []Bound{{D: 2, Secs: 120, To: 2}, {D: 1, Secs: 120, From: 2}},
		Thor:  []Bound{{D: 3, Secs: 120, To: 2}, {D: 2, Secs: 120, From: 2}},
	})
	// messages of every size around the limits, between small ones
	var psz []string
	for _, n := range []int{20, 200, 238, 239, 240, 241, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 2286, 2287, 2288, 2289, 3000, 4000, 4093, 4094, 4095, 4096, 4097, 5000, 8192, 65535, 65536, 65537, 1 << 20} {
		psz = append(psz, fmt.Sprintf("def %d", n))
	}
	for _, n := range []int{20, 239, 240, 241, 1023, 1024, 1025, 2287, 2288, 2289, 4091, 4092, 4093, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 60000, 65000, 65520, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 70000, 131072, 1 << 20} {
		psz = append(psz, fmt.Sprintf("key %d", n), fmt.Sprintf("data %d", n), fmt.Sprintf("bin %d", n))
	}
	scns = append(scns, &Scn{Name: "peer-push-sizes", Props: []string{"C15"}, N: fixedN(len(psz) * 2),
		Make: func(v int) *Case {
			o := psz[v/2]
			ops := [][]string{{"entry", o, "timed", o, "batch"}}
			if v%2 == 1 {
				ops = [][]string{{o, o, "same"}, {"entry", "def"}}
			}
			return mk(prog{ops, 1, v%2 == 1}, fmt.Sprint(ops))
		},
		Quick: []Bound{{D: 0, Secs: 30}},
		Thor:  []Bound{{D: 1, Secs: 120}},
	})
	// sequences of pushes by one goroutine
	ops := []string{"entry", "timed", "batch", "def", "switch", "badkey", "badbatch", "nilkey", "toobig", "baddef", "big", "batch0", "nilbatch", "same", "reused"}
	n := len(ops)
	scns = append(scns, &Scn{Name: "peer-push-seq", Props: []string{"C15"},
		N: func(tier string) int {
			if tier == "thorough" {
				return pow(n, 5)
			}
			return pow(n, 4)
		},
		Make: func(v int) *Case {
			k := digits(v, n, ndigits(v, n, 3))
			var l []string
			for _, i := range k {
				l = append(l, ops[i])
			}
			l = append(l, "entry")
			return mk(prog{ops: [][]string{l}, req: v % 2}, fmt.Sprint(l))
		},
		Quick: []Bound{{D: 0, Secs: 60}},
		Thor:  []Bound{{D: 0, Secs: 200}},
	})
	// whatever was pushed before, the connection goes on: heartbeats while the
	// program is silent, replies to requests, later pushes flushed
	scns = append(scns, &Scn{Name: "peer-push-idle", Props: []string{"C18", "C15", "C20"},
		N: func(tier string) int {
			if tier == "thorough" {
				return n + n*n + n*n*n
			}
			return n + n*n
		},
		Make: func(v int) *Case {
			k := digits(v, n, 1)
			if v >= n+n*n {
				k = digits(v-n-n*n, n, 3)
			} else if v >= n {
				k = digits(v-n, n, 2)
			}
			var l []string
			for _, i := range k {
				l = append(l, ops[i])
			}
			var p *pusher
			reqs := 0
			return peerCase(fmt.Sprintf("%v, then silence", l), 14*time.Second, func(e *peerEnv) {
				s := e.dial("A").hello()
				p = &pusher{e: e, s: s}
				settle()
				for j, o := range l {
					p.run(0, o, j)
				}
				from := sched.Now()
				for i := 0; i < 2; i++ {
					sched.Sleep(4 * time.Second)
					s.Feed(ctl(pctlHeartbeat))
				}
				settle()
				s.beats(from, sched.Now())
				s.alive("C18", "although it is never silent for 5 s")
				ms, _ := s.output(false)
				was := partials(ms)
				reqs++
				s.Feed(ctl(pctlReq))
				settle()
				ms, _ = s.output(false)
				if partials(ms) != was+1 {
					e.c.Fail("C20", "%v, then silence: a synchronisation request is not answered although nothing holds up the connection", l)
				}
				p.run(0, "entry", len(l))
			}, func(e *peerEnv) { p.verdict(false, reqs) })
		},
		Quick: []Bound{{D: 2, Secs: 120, To: n}, {D: 1, Secs: 200, From: n, To: n + n*n}, {D: 0, Secs: 200, From: n + n*n}},
		Thor:  []Bound{{D: 3, Secs: 120, To: n}, {D: 2, Secs: 200, From: n, To: n + n*n}, {D: 1, Secs: 200, From: n + n*n}},
	})
	// pushes from the handler callbacks themselves
	scns = append(scns, &Scn{Name: "peer-push-handler", Props: []string{"C15", "C20"}, N: fixedN(4),
		Make: func(v int) *Case {
			var p *pusher
			return peerCase(fmt.Sprintf("push from the handler, case %d", v), 8*time.Second, func(e *peerEnv) {
				s := e.dial("A")
				p = &pusher{e: e, s: s}
				if v&1 == 0 {
					s.onHandshake = func(s *psess) { p.run(0, "def", 0); p.run(0, "entry", 1) }
				} else {
					s.onHandshake = func(s *psess) {
						sched.Go("push", func() { p.run(0, "batch", 0); p.run(0, "timed", 5) })
					}
				}
				if v >= 2 {
					n := 10
					s.onUpdate = func(s *psess, u *st.EntryUpdate) { n++; p.run(1, "entry", n) }
				}
				s.hello()
				s.Feed(seqOf([]int{0, 7, 1}).stream)
				settle()
				s.Feed(ctl(pctlHeartbeat))
				sched.Sleep(3100 * time.Millisecond)
				s.alive("C15", "although nothing ended it")
			}, func(e *peerEnv) { p.verdict(false, 1) })
		},
		Quick: []Bound{{D: 3, Secs: 200}},
		Thor:  []Bound{{D: 4, Secs: 200}},
	})
	// failing connection below the writer
	scns = append(scns, &Scn{Name: "peer-push-fault", Props: []string{"C15", "C19"}, N: fixedN(3),
		Make: func(v int) *Case {
			var p *pusher
			return peerCase(fmt.Sprintf("write faults, case %d", v), 20*time.Second, func(e *peerEnv) {
				s := e.dial("A")
				p = &pusher{e: e, s: s}
				s.hello()
				settle()
				s.Faults = true
				for i := 0; i < 2; i++ {
					sched.Go(fmt.Sprintf("push%d", i), func() {
						for j, o := range []string{"entry", []string{"batch", "def", "big"}[v]} {
							p.run(i, o, j)
						}
					})
				}
				s.Feed(ctl(pctlReq))
				settle()
				sched.Sleep(10 * time.Second)
			}, func(e *peerEnv) {
				p.verdict(p.s.WFailed, 1)
				p.s.over("a write failure or silence")
				for _, q := range p.pushes {
					if !q.ret {
						e.c.Fail("C15", "%s never returned", q.name)
					}
				}
				e.leaks()
			})
		},
		Quick: []Bound{{D: 3, Secs: 200}},
		Thor:  []Bound{{D: 4, Secs: 200}},
	})
}
