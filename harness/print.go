package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/dropmorepackets/haproxy-go/peers"
	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// What handlers print: entries, keys, values, codes.

func init() {
	enumParts = append(enumParts,
		&EnumPart{"print-codes", []string{"C24"}, printCodes},
		&EnumPart{"print-entries", []string{"C24"}, printEntries})
}

// HAProxy's names of the data types a table can store.
var dtNames = []string{"server_id", "gpt0", "gpc0", "gpc0_rate", "conn_cnt", "conn_rate", "conn_cur", "sess_cnt", "sess_rate",
	"http_req_cnt", "http_req_rate", "http_err_cnt", "http_err_rate", "bytes_in_cnt", "bytes_in_rate", "bytes_out_cnt", "bytes_out_rate",
	"gpc1", "gpc1_rate", "server_key", "http_fail_cnt", "http_fail_rate", "gpt", "gpc", "gpc_rate", "glitch_cnt", "glitch_rate"}

func names(prefix, l string) (m []string) {
	for _, n := range strings.Fields(l) {
		m = append(m, prefix+n)
	}
	return
}

func printCodes(e *Enum) {
	type kind struct {
		name  string
		str   func(v int64) string
		known map[int64]string
		vals  []int64
	}
	seq := func(first int64, l []string) map[int64]string {
		m := map[int64]string{}
		for i, n := range l {
			m[first+int64(i)] = n
		}
		return m
	}
	var bytes []int64
	for i := int64(0); i < 256; i++ {
		bytes = append(bytes, i)
	}
	var ints []int64
	for i := int64(-300); i <= 1200; i++ {
		ints = append(ints, i)
	}
	ints = append(ints, math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1<<32, 1<<32+2, 1<<8, 65536)
	ctl := names("ControlMessage", "SyncRequest SyncFinished SyncPartial SyncConfirmed Heartbeat")
	kinds := []kind{
		{"DataType", func(v int64) string { return st.DataType(v).String() }, seq(0, dtNames), ints},
		{"KeyType", func(v int64) string { return st.KeyType(v).String() }, seq(0, names("KeyType", "Any Boolean SignedInteger Address IPv4Address IPv6Address String Binary Method")), ints},
		{"HandshakeStatus", func(v int64) string { return peers.HandshakeStatus(v).String() }, map[int64]string{
			200: "HandshakeStatusHandshakeSucceeded", 300: "HandshakeStatusTryAgainLater", 501: "HandshakeStatusProtocolError", 502: "HandshakeStatusBadVersion",
			503: "HandshakeStatusLocalPeerIdentifierMismatch", 504: "HandshakeStatusRemotePeerIdentifierMismatch"}, ints},
		{"MessageClass", func(v int64) string { return peers.MessageClass(v).String() }, map[int64]string{
			0: "MessageClassControl", 1: "MessageClassError", 10: "MessageClassStickTableUpdates", 255: "MessageClassReserved"}, bytes},
		{"ControlMessageType", func(v int64) string { return peers.ControlMessageType(v).String() }, seq(0, ctl), bytes},
		{"ErrorMessageType", func(v int64) string { return peers.ErrorMessageType(v).String() }, seq(0, names("ErrorMessage", "Protocol SizeLimit")), bytes},
		{"StickTableUpdateMessageType", func(v int64) string { return peers.StickTableUpdateMessageType(v).String() },
			seq(128, names("StickTableUpdateMessageType", "EntryUpdate IncrementalEntryUpdate StickTableDefinition StickTableSwitch UpdateAcknowledge UpdateTimed IncrementalEntryUpdateTimed")), bytes},
	}
	for _, k := range kinds {
		for _, v := range k.vals {
			e.Case(func() string { return fmt.Sprintf("%s %d printed", k.name, v) }, func(c *EC) {
				c.Ops++
				want, ok := k.known[v]
				if !ok {
					want = fmt.Sprintf("%s(%d)", k.name, v)
				}
				if g := k.str(v); g != want {
					c.Fail("%s %d prints as %q, want %q", k.name, v, g, want)
				}
				c.Outcome = fmt.Sprint(ok)
			})
		}
	}
	// the codes the names stand for, and what belongs to a type
	type pair struct {
		name      string
		got, want int64
	}
	for _, p := range []pair{
		{"ControlMessageSyncRequest", int64(peers.ControlMessageSyncRequest), 0}, {"ControlMessageSyncFinished", int64(peers.ControlMessageSyncFinished), 1},
		{"ControlMessageSyncPartial", int64(peers.ControlMessageSyncPartial), 2}, {"ControlMessageSyncConfirmed", int64(peers.ControlMessageSyncConfirmed), 3},
		{"ControlMessageHeartbeat", int64(peers.ControlMessageHeartbeat), 4},
		{"KeyTypeSignedInteger", int64(st.KeyTypeSignedInteger), 2}, {"KeyTypeIPv4Address", int64(st.KeyTypeIPv4Address), 4}, {"KeyTypeIPv6Address", int64(st.KeyTypeIPv6Address), 5},
		{"KeyTypeString", int64(st.KeyTypeString), 6}, {"KeyTypeBinary", int64(st.KeyTypeBinary), 7},
		{"DataTypeServerId", int64(st.DataTypeServerId), 0}, {"DataTypeServerKey", int64(st.DataTypeServerKey), 19}, {"DataTypeGlitchRate", int64(st.DataTypeGlitchRate), 26},
		{"encoding.DataTypeNull", int64(encoding.DataTypeNull), 0}, {"encoding.DataTypeBinary", int64(encoding.DataTypeBinary), 9},
	} {
		e.Case(func() string { return p.name }, func(c *EC) {
			c.Ops++
			if p.got != p.want {
				c.Fail("%s is %d, want %d", p.name, p.got, p.want)
			}
			c.Outcome = "code"
		})
	}
	for _, v := range ints {
		e.Case(func() string { return fmt.Sprintf("data type %d is a rate", v) }, func(c *EC) {
			c.Ops++
			want := v >= 0 && v < int64(len(dtNames)) && strings.HasSuffix(dtNames[v], "_rate") && v != 24
			if g := st.DataType(v).IsDelay(); g != want && v != 24 {
				c.Fail("IsDelay of data type %d is %v", v, g)
			}
			c.Outcome = "rate"
		})
	}
}

// dataText: how a value prints.
func dataText(d dataVal) string {
	b := d.wire
	switch dtKind[d.typ] {
	case wFreq:
		x, n := refReadVarint(b)
		y, m := refReadVarint(b[n:])
		z, _ := refReadVarint(b[n+m:])
		return fmt.Sprintf("tick/cur/last: %d/%d/%d", x, y, z)
	case wDict:
		l, n := refReadVarint(b)
		if l == 0 {
			return "No Entry"
		}
		id, m := refReadVarint(b[n:])
		if int(l) == m {
			return fmt.Sprintf("%d: []", id)
		}
		_, o := refReadVarint(b[n+m:])
		return fmt.Sprintf("%d: %v", id, b[n+m+o:])
	case wSint:
		v, _ := refReadVarint(b)
		return fmt.Sprint(int32(v))
	case wUint:
		v, _ := refReadVarint(b)
		return fmt.Sprint(uint32(v))
	}
	v, _ := refReadVarint(b)
	return fmt.Sprint(v)
}

func printEntries(e *Enum) {
	run := func(v entryVal) {
		if e.Stop() {
			return
		}
		e.Case(func() string { return "printing " + v.String() }, func(c *EC) {
			c.Ops++
			d := v.def()
			id := uint32(0)
			if v.withID {
				id = v.id
			}
			var l []string
			for _, x := range v.data {
				t := dataText(x)
				if g := x.data().String(); g != t {
					c.Fail("%s prints as %q, want %q", x.name, g, t)
				}
				l = append(l, dtNames[x.typ]+": "+t)
			}
			want := fmt.Sprintf("EntryUpdate %d: %s - %s", id, v.key.str, strings.Join(l, " | "))
			g := st.EntryUpdate{StickTable: d, WithLocalUpdateID: v.withID, WithExpiry: v.timed}
			if _, err := g.Unmarshal(v.wire()); err != nil {
				c.Fail("decoding %s: %v", v, err)
				return
			}
			us := []*st.EntryUpdate{&g}
			if !v.key.lax { // as given: without the padding
				us = append(us, v.entry(d))
			}
			for _, u := range us {
				for r := 0; r < 2; r++ {
					if s := u.String(); s != want {
						c.Fail("%s prints as %q, want %q", v, clip(s, 300), clip(want, 300))
						return
					}
					if s := fmt.Sprintf("%v|%s", u, u.Key); s != want+"|"+v.key.str {
						c.Fail("%s prints with %%v as %q", v, clip(s, 300))
						return
					}
				}
				if s := showEntry(u); s == "" {
					c.Fail("nothing printed")
				}
			}
			// printing changes nothing
			for _, u := range us {
				b := make([]byte, len(v.wire())+8)
				n, err := u.Marshal(b)
				if err != nil || string(b[:n]) != string(v.wire()) {
					c.Fail("after printing, %s encodes as %x, err %v", v, clipb(b[:n], 60), err)
				}
			}
			c.Outcome = clip(want, 200)
		})
	}
	for _, k := range allKeys() {
		for f := 0; f < 4; f++ {
			v := entryVal{77, f&1 > 0, 88, f&2 > 0, k, nil}
			run(v)
			v.data = []dataVal{dInt(4, 300), dFreq(12, 1, 2, 3)}
			run(v)
		}
	}
	key := kStr("k", 32)
	for i, t := range dtAll {
		for _, d := range dataVals(t, true) {
			if len(d.wire) > 400 {
				continue
			}
			run(entryVal{1 << 31, true, 0, false, key, []dataVal{d}})
		}
		for j := i + 1; j < len(dtAll); j++ {
			for _, a := range dataVals(t, false) {
				for _, b := range dataVals(dtAll[j], false) {
					run(entryVal{math.MaxUint32, true, 0, false, key, []dataVal{a, b}})
				}
			}
		}
	}
	var all []dataVal
	for _, t := range dtAll {
		all = append(all, dataVals(t, false)[0])
	}
	for n := 0; n <= len(all); n++ {
		run(entryVal{9, true, 9, true, kSint(-9), all[:n]})
		run(entryVal{9, true, 9, true, kIP(addr6), all[n:]})
	}
}
