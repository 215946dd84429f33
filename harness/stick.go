package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"net/netip"
	"reflect"

	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

func init() {
	enumParts = append(enumParts,
		&EnumPart{"stick-keys", []string{"C16"}, stickKeys},
		&EnumPart{"stick-data", []string{"C16"}, stickData},
		&EnumPart{"stick-definition", []string{"C16"}, stickDefs},
		&EnumPart{"stick-entry", []string{"C16"}, stickEntries},
		&EnumPart{"stick-malformed", []string{"C17"}, stickMalformed},
	)
}

// ---------------------------------------------------------------- reference

// wire kinds of the data types (HAProxy: stktable_data_types)
const (
	wSint = iota
	wUint
	wULL
	wFreq
	wDict
)

// dtKind lists the scalar data types the protocol defines (array types are
// outside the properties).
var dtKind = map[st.DataType]int{
	0: wSint, 1: wUint, 2: wUint, 3: wFreq, 4: wUint, 5: wFreq, 6: wUint, 7: wUint, 8: wFreq, 9: wUint, 10: wFreq,
	11: wUint, 12: wFreq, 13: wULL, 14: wFreq, 15: wULL, 16: wFreq, 17: wUint, 18: wFreq, 19: wDict, 20: wUint, 21: wFreq,
	25: wUint, 26: wFreq,
}

var dtAll = []st.DataType{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 26}

type keyVal struct {
	name string
	typ  st.KeyType
	size uint64
	key  func() st.MapKey
	wire []byte
	str  string
	lax  bool // decoding yields the padded form
}

func kSint(v int32) keyVal {
	return keyVal{fmt.Sprintf("sint %d", v), st.KeyTypeSignedInteger, 4, func() st.MapKey { k := st.SignedIntegerKey(v); return &k }, binary.BigEndian.AppendUint32(nil, uint32(v)), fmt.Sprint(v), false}
}

func kIP(a netip.Addr) keyVal {
	if a.Is4() {
		return keyVal{"ip " + a.String(), st.KeyTypeIPv4Address, 4, func() st.MapKey { k := st.IPv4AddressKey(a); return &k }, a.AsSlice(), a.String(), false}
	}
	return keyVal{"ipv6 " + a.String(), st.KeyTypeIPv6Address, 16, func() st.MapKey { k := st.IPv6AddressKey(a); return &k }, a.AsSlice(), a.String(), false}
}

func kStr(s string, size uint64) keyVal {
	return keyVal{fmt.Sprintf("string(%d) %q", size, clip(s, 16)), st.KeyTypeString, size, func() st.MapKey { k := st.StringKey(s); return &k }, refStr(s), s, false}
}

func kBin(b []byte, size uint64) keyVal {
	w := append(append([]byte{}, b...), make([]byte, int(size)-len(b))...)
	return keyVal{fmt.Sprintf("binary(%d) %x", size, clipb(b, 16)), st.KeyTypeBinary, size, func() st.MapKey { k := st.BinaryKey(append([]byte{}, b...)); return &k }, w, fmt.Sprintf("%v", w), len(w) != len(b)}
}

func allKeys() []keyVal {
	var l []keyVal
	for _, v := range []int32{0, 1, -1, 127, 128, 239, 240, 65535, 65536, math.MaxInt32, math.MinInt32, 0x01020304} {
		l = append(l, kSint(v))
	}
	for _, a := range []string{"0.0.0.0", "255.255.255.255", "192.0.2.33", "1.2.3.4", "::", "::1", "fe80::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::ffff:1.2.3.4", "2001:db8:1:2:3:4:5:6"} {
		l = append(l, kIP(netip.MustParseAddr(a)))
	}
	for _, n := range []int{0, 1, 2, 31, 32, 127, 128, 239, 240, 241, 2287, 2288} {
		l = append(l, kStr(sfill(n, 's'), 4000))
	}
	for _, n := range []int{4096, 65536, 65537} {
		l = append(l, kStr(string(spread(n, 1)), 1<<21), kBin(spread(n, 2), uint64(n)))
	}
	l = append(l, kStr("\x00\xff\xf0", 32), kStr("10.0.0.1", 32))
	for _, n := range []int{0, 1, 2, 16, 32, 240, 300} {
		b := bytes.Repeat([]byte{0xfe}, n)
		for i := range b {
			b[i] = byte(i + 1)
		}
		l = append(l, kBin(b, uint64(n)))
	}
	l = append(l, kBin([]byte{1, 2, 3}, 8), kBin(nil, 4), kBin([]byte{0, 0}, 3))
	return l
}

type dataVal struct {
	name string
	typ  st.DataType
	data func() st.MapData
	wire []byte
}

func dInt(t st.DataType, v uint64) dataVal {
	return dataVal{fmt.Sprintf("%v=%d", t, v), t, func() st.MapData {
		switch dtKind[t] {
		case wSint:
			d := st.SignedIntegerData(int32(v))
			return &d
		case wUint:
			d := st.UnsignedIntegerData(v)
			return &d
		default:
			d := st.UnsignedLongLongData(v)
			return &d
		}
	}, refVarint(v)}
}

func dFreq(t st.DataType, a, b, c uint64) dataVal {
	return dataVal{fmt.Sprintf("%v=%d/%d/%d", t, a, b, c), t, func() st.MapData { return &st.FreqData{CurrentTick: a, CurrentPeriod: b, LastPeriod: c} },
		append(append(refVarint(a), refVarint(b)...), refVarint(c)...)}
}

// dDict: id 0 = no entry; nil value = id only.
func dDict(t st.DataType, id uint64, v []byte) dataVal {
	var w []byte
	if id == 0 {
		w = []byte{0}
	} else {
		body := refVarint(id)
		if v != nil {
			body = append(body, refBytes(v)...)
		}
		w = append(refVarint(uint64(len(body))), body...)
	}
	return dataVal{fmt.Sprintf("%v=%d:%x", t, id, clipb(v, 8)), t, func() st.MapData { return &st.DictData{ID: id, Value: v} }, w}
}

var u32s = []uint64{0, 1, 239, 240, 2287, 2288, 264431, 264432, math.MaxInt32, math.MaxUint32}
var u64s = append(append([]uint64{}, u32s...), 33818863, 33818864, 1<<40, math.MaxInt64, math.MaxUint64)

func dataVals(t st.DataType, full bool) []dataVal {
	var l []dataVal
	switch dtKind[t] {
	case wSint:
		vs := []int32{5, -1}
		if full {
			vs = []int32{0, 1, -1, 239, 240, 2288, math.MaxInt32, math.MinInt32}
		}
		for _, v := range vs {
			l = append(l, dInt(t, uint64(int64(v))))
		}
	case wUint:
		vs := []uint64{0, 240, math.MaxUint32}
		if full {
			vs = u32s
		}
		for _, v := range vs {
			l = append(l, dInt(t, v))
		}
	case wULL:
		vs := []uint64{7, math.MaxUint64}
		if full {
			vs = u64s
		}
		for _, v := range vs {
			l = append(l, dInt(t, v))
		}
	case wFreq:
		l = append(l, dFreq(t, 1, 2, 3), dFreq(t, 0, 240, 2288))
		if full {
			for _, a := range u32s {
				for _, b := range u32s {
					for _, c := range u32s {
						l = append(l, dFreq(t, a, b, c))
					}
				}
			}
		}
	case wDict:
		l = append(l, dDict(t, 0, nil), dDict(t, 1, []byte("srv1")), dDict(t, 2, nil), dDict(t, 240, []byte("x")), dDict(t, 300, nil))
		if full {
			for _, id := range []uint64{1, 127, 239, 240, 241, 2287, 2288, 70000} {
				for _, n := range []int{1, 2, 128, 200, 236, 237, 238, 239, 240, 241, 300, 2290} {
					l = append(l, dDict(t, id, bytes.Repeat([]byte{'d'}, n)))
				}
				l = append(l, dDict(t, id, nil))
			}
			for _, n := range []int{65535, 65536, 65537, 70000, 264431, 264432, 1 << 20} {
				l = append(l, dDict(t, 7, spread(n, 3)))
			}
		}
	}
	return l
}

// ---------------------------------------------------------------- generic

// checkMarshal runs marshal against every destination size.
func checkMarshal(c *EC, what string, want []byte, marshal func(b []byte) (int, error)) {
	sizes := []int{}
	for s := 0; s <= len(want)+2; s++ {
		if s > 40 && s < len(want)-40 && s%17 != 0 {
			continue
		}
		if s > 300 && s < len(want)-300 && len(want) > 4000 && s%(len(want)/8) != 0 {
			continue
		}
		if s > 5 && s < len(want)-5 && len(want) > 60000 {
			if s = max(s+len(want)/3, s); s < len(want)-5 {
				sizes = append(sizes, s)
				continue
			}
			s = len(want) - 5
		}
		sizes = append(sizes, s)
	}
	for _, size := range sizes {
		c.Ops++
		b, whole := guarded(size, 24)
		n, err, pan := callMarshal(marshal, b)
		if pan != "" {
			c.Fail("%s into %d bytes (needs %d): panic: %s", what, size, len(want), pan)
			return
		}
		if !canaryOK(whole, size) {
			c.Fail("%s into %d bytes wrote outside the buffer", what, size)
			return
		}
		if size < len(want) {
			if err == nil {
				c.Fail("%s into %d bytes (needs %d): reported success, n=%d", what, size, len(want), n)
				return
			}
			continue
		}
		if err != nil || n != len(want) || !bytes.Equal(b[:n], want) {
			c.Fail("%s into %d bytes: n=%d err=%v bytes %x, want %x", what, size, n, err, clipb(b, 64), clipb(want, 64))
			return
		}
	}
}

func callMarshal(f func(b []byte) (int, error), b []byte) (n int, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	n, err = f(b)
	return
}

func stickKeys(e *Enum) {
	keys := allKeys()
	for _, n := range []int{4095, 65535, 264431, 264432, 1 << 20} {
		keys = append(keys, kStr(string(spread(n, 1)), 1<<21), kBin(spread(n, 2), uint64(n)))
	}
	for _, k := range keys {
		e.Case(func() string { return "key " + k.name }, func(c *EC) {
			checkMarshal(c, "key "+k.name, k.wire, func(b []byte) (int, error) { return k.key().Marshal(b, k.size) })
			for _, junk := range []int{0, 3} {
				in := append(append([]byte{}, k.wire...), bytes.Repeat([]byte{0xf7}, junk)...)
				d := k.typ.New()
				n, err := d.Unmarshal(in, k.size)
				if err != nil || n != len(k.wire) {
					c.Fail("decoding key %s: n=%d err=%v want %d", k.name, n, err, len(k.wire))
					return
				}
				if !k.lax && !reflect.DeepEqual(d, k.key()) && !(len(k.wire) == 0) {
					c.Fail("decoding key %s: got %v", k.name, d)
				}
				if d.String() != k.str {
					c.Fail("decoding key %s: prints %q want %q", k.name, d.String(), k.str)
				}
			}
			c.Outcome = k.name
		})
	}
	// values the format cannot carry
	bad := []struct {
		name string
		key  st.MapKey
		size uint64
	}{
		{"ipv4 key holding an ipv6 address", ptr(st.IPv4AddressKey(addr6)), 4},
		{"ipv4 key without address", ptr(st.IPv4AddressKey(netip.Addr{})), 4},
		{"ipv4 key with size 16", ptr(st.IPv4AddressKey(addr4)), 16},
		{"ipv6 key with size 4", ptr(st.IPv6AddressKey(addr6)), 4},
		{"binary key longer than the key size", ptr(st.BinaryKey([]byte{1, 2, 3, 4, 5})), 4},
	}
	for _, b := range bad {
		e.Case(func() string { return b.name }, func(c *EC) {
			c.Ops++
			n, err, pan := callMarshal(func(x []byte) (int, error) { return b.key.Marshal(x, b.size) }, make([]byte, 64))
			if pan != "" {
				c.Fail("encoding %s: panic: %s", b.name, pan)
			} else if err == nil {
				c.Fail("encoding %s reported success (n=%d)", b.name, n)
			}
		})
	}
}

func ptr[T any](v T) *T { return &v }

func stickData(e *Enum) {
	for _, t := range dtAll {
		e.Case(func() string { return fmt.Sprintf("type %v", t) }, func(c *EC) {
			if t.IsDelay() != (dtKind[t] == wFreq) {
				c.Fail("%v.IsDelay() = %v", t, t.IsDelay())
			}
			if t.New() == nil {
				c.Fail("%v.New() is nil", t)
				return
			}
			if a, b := t.New(), t.New(); a == b {
				c.Fail("%v.New() returns a shared value", t)
			}
		})
		for _, d := range dataVals(t, true) {
			e.Case(func() string { return d.name }, func(c *EC) {
				checkMarshal(c, d.name, d.wire, func(b []byte) (int, error) { return d.data().Marshal(b) })
				for _, junk := range []int{0, 3} {
					in := append(append([]byte{}, d.wire...), bytes.Repeat([]byte{0xf7}, junk)...)
					g := d.typ.New()
					n, err := g.Unmarshal(in)
					if err != nil || n != len(d.wire) {
						c.Fail("decoding %s: n=%d err=%v want %d", d.name, n, err, len(d.wire))
						return
					}
					if !sameData(g, d.data()) {
						c.Fail("decoding %s: got %s want %s", d.name, g, d.data())
					}
				}
				c.Outcome = d.name
			})
		}
	}
}

func sameData(a, b st.MapData) bool {
	x, ok1 := a.(*st.DictData)
	y, ok2 := b.(*st.DictData)
	if ok1 && ok2 {
		return x.ID == y.ID && bytes.Equal(x.Value, y.Value)
	}
	return reflect.DeepEqual(a, b)
}

func refDef(d *st.Definition) []byte {
	b := refVarint(d.StickTableID)
	b = append(b, refStr(d.Name)...)
	b = append(b, refVarint(uint64(d.KeyType))...)
	b = append(b, refVarint(d.KeyLength)...)
	var m uint64
	for _, t := range d.DataTypes {
		m |= 1 << uint(t.DataType)
	}
	b = append(b, refVarint(m)...)
	b = append(b, refVarint(d.Expiry)...)
	for _, t := range d.DataTypes {
		if dtKind[t.DataType] == wFreq {
			b = append(b, refVarint(t.Counter)...)
			b = append(b, refVarint(t.Period)...)
		}
	}
	return b
}

func showDef(d *st.Definition) string {
	return fmt.Sprintf("table %d %q key %d/%d expiry %d types %v", d.StickTableID, brief(d.Name), d.KeyType, d.KeyLength, d.Expiry, d.DataTypes)
}

// brief is a text short enough to print, different for different texts.
func brief(s string) string {
	if len(s) <= 40 {
		return s
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%s...%d:%x", s[:20], len(s), h.Sum64())
}

func sameDef(a, b *st.Definition) bool {
	if a.Name != b.Name || a.StickTableID != b.StickTableID || a.KeyType != b.KeyType || a.KeyLength != b.KeyLength || a.Expiry != b.Expiry || len(a.DataTypes) != len(b.DataTypes) {
		return false
	}
	for i := range a.DataTypes {
		if a.DataTypes[i] != b.DataTypes[i] {
			return false
		}
	}
	return true
}

func dtDef(t st.DataType, period uint64) st.DataTypeDefinition {
	d := st.DataTypeDefinition{DataType: t}
	if dtKind[t] == wFreq {
		d.Counter, d.Period = uint64(t), period
	}
	return d
}

func stickDefs(e *Enum) {
	run := func(d *st.Definition) {
		e.Case(func() string { return showDef(d) }, func(c *EC) {
			want := refDef(d)
			checkMarshal(c, showDef(d), want, d.Marshal)
			for _, junk := range []int{0, 2} {
				in := append(append([]byte{}, want...), bytes.Repeat([]byte{0xf7}, junk)...)
				var g st.Definition
				n, err := g.Unmarshal(in)
				if err != nil || n != len(want) || !sameDef(&g, d) {
					c.Fail("decoding %s: %s n=%d err=%v want n=%d", showDef(d), showDef(&g), n, err, len(want))
					return
				}
				for i := range in {
					in[i] = 0xEE
				}
				if !sameDef(&g, d) {
					c.Fail("definition changed when the input buffer was reused")
				}
			}
			c.Outcome = showDef(d)
		})
	}
	nums := []uint64{0, 1, 239, 240, 2288, math.MaxUint32, math.MaxUint64}
	kts := []st.KeyType{2, 4, 5, 6, 7}
	for _, a := range nums {
		for _, b := range nums {
			for _, name := range []string{"", "t", sfill(239, 'n'), sfill(240, 'n'), sfill(300, 'n')} {
				run(&st.Definition{Name: name, StickTableID: a, KeyType: kts[(a+b)%5], KeyLength: b, Expiry: a ^ b})
			}
		}
	}
	for _, n := range []int{2287, 2288, 4095, 4096, 4097, 65535, 65536, 65537, 264431, 264432, 1 << 20} {
		run(&st.Definition{Name: string(spread(n, 9)), StickTableID: 1, KeyType: 6, KeyLength: 32, Expiry: 1, DataTypes: []st.DataTypeDefinition{dtDef(2, 0), dtDef(3, 1000)}})
	}
	base := func(ts ...st.DataTypeDefinition) {
		run(&st.Definition{Name: "tbl", StickTableID: 3, KeyType: 6, KeyLength: 32, Expiry: 60000, DataTypes: ts})
	}
	for i, a := range dtAll {
		for _, p := range []uint64{0, 10, 240, 60000, math.MaxUint64} {
			base(dtDef(a, p))
		}
		for j := i + 1; j < len(dtAll); j++ {
			b := dtAll[j]
			base(dtDef(a, 10000), dtDef(b, 3600000))
			for k := j + 1; k < len(dtAll); k++ {
				base(dtDef(a, 1), dtDef(b, 240), dtDef(dtAll[k], 70000))
				if e.Thorough() {
					for l := k + 1; l < len(dtAll); l++ {
						base(dtDef(a, 1), dtDef(b, 240), dtDef(dtAll[k], 70000), dtDef(dtAll[l], 9))
					}
				}
			}
		}
	}
	var all []st.DataTypeDefinition
	for _, t := range dtAll {
		all = append(all, dtDef(t, uint64(t)*100))
	}
	base(all...)
	// all but one
	for i := range all {
		base(append(append([]st.DataTypeDefinition{}, all[:i]...), all[i+1:]...)...)
	}
}

type entryVal struct {
	id     uint32
	withID bool
	expiry uint32
	timed  bool
	key    keyVal
	data   []dataVal
}

func (v entryVal) def() *st.Definition {
	d := &st.Definition{Name: "t", StickTableID: 1, KeyType: v.key.typ, KeyLength: v.key.size}
	for _, x := range v.data {
		d.DataTypes = append(d.DataTypes, dtDef(x.typ, 1000))
	}
	return d
}

func (v entryVal) wire() []byte {
	var b []byte
	if v.withID {
		b = binary.BigEndian.AppendUint32(b, v.id)
	}
	if v.timed {
		b = binary.BigEndian.AppendUint32(b, v.expiry)
	}
	b = append(b, v.key.wire...)
	for _, d := range v.data {
		b = append(b, d.wire...)
	}
	return b
}

func (v entryVal) entry(d *st.Definition) *st.EntryUpdate {
	u := &st.EntryUpdate{StickTable: d, Key: v.key.key(), WithLocalUpdateID: v.withID, WithExpiry: v.timed}
	if v.withID {
		u.LocalUpdateID = v.id
	}
	if v.timed {
		u.Expiry = v.expiry
	}
	for _, x := range v.data {
		u.Data = append(u.Data, x.data())
	}
	return u
}

func (v entryVal) String() string {
	s := fmt.Sprintf("id=%d(%v) exp=%d(%v) key=%s", v.id, v.withID, v.expiry, v.timed, v.key.name)
	for _, d := range v.data {
		s += " " + d.name
	}
	return s
}

// showEntry prints everything observable of an update.
func showEntry(u *st.EntryUpdate) string {
	s := fmt.Sprintf("id=%d exp=%d(%v) key=%T:%s", u.LocalUpdateID, u.Expiry, u.WithExpiry, u.Key, u.Key)
	for _, d := range u.Data {
		s += fmt.Sprintf(" %T:%s", d, d)
		if x, ok := d.(*st.DictData); ok {
			s += fmt.Sprintf("{%d %x}", x.ID, x.Value)
		}
	}
	if u.StickTable != nil {
		s += " @" + showDef(u.StickTable)
	}
	return s
}

func checkEntry(c *EC, v entryVal) {
	d := v.def()
	want := v.wire()
	u := v.entry(d)
	checkMarshal(c, v.String(), want, u.Marshal)
	for _, junk := range []int{0, 2} {
		in := append(append([]byte{}, want...), bytes.Repeat([]byte{0xf7}, junk)...)
		g := st.EntryUpdate{StickTable: d, WithLocalUpdateID: v.withID, WithExpiry: v.timed}
		n, err := g.Unmarshal(in)
		if err != nil || n != len(want) {
			c.Fail("decoding %s: n=%d err=%v want %d", v, n, err, len(want))
			return
		}
		ref := v.entry(d)
		if v.key.lax {
			k := st.BinaryKey(v.key.wire)
			ref.Key = &k
		}
		if a, b := showEntry(&g), showEntry(ref); a != b {
			c.Fail("decoding %s: got %s want %s", v, a, b)
			return
		}
	}
	c.Outcome = v.String()
}

func stickEntries(e *Enum) {
	keys := allKeys()
	small := []keyVal{kSint(-2), kIP(addr4), kIP(addr6), kStr("key", 32), kStr("", 32), kBin([]byte{9, 8, 7}, 3), kBin([]byte{1}, 4)}
	flags := []struct{ id, timed bool }{{false, false}, {true, false}, {false, true}, {true, true}}
	run := func(v entryVal) {
		if e.Stop() {
			return
		}
		e.Case(func() string { return v.String() }, func(c *EC) { checkEntry(c, v) })
	}
	for _, k := range keys {
		for _, f := range flags {
			for _, n := range []uint32{0, 1, math.MaxUint32, 0x01020304} {
				run(entryVal{n, f.id, n ^ 0xff, f.timed, k, nil})
			}
			run(entryVal{7, f.id, 9, f.timed, k, []dataVal{dInt(4, 300), dFreq(3, 1, 2, 3)}})
		}
	}
	for _, k := range small {
		for i, a := range dtAll {
			for _, x := range dataVals(a, false) {
				run(entryVal{1, true, 2, true, k, []dataVal{x}})
				for _, b := range dtAll[i+1:] {
					for _, y := range dataVals(b, false) {
						f := flags[int(a+b)%4]
						run(entryVal{0x01020304, f.id, 77, f.timed, k, []dataVal{x, y}})
					}
				}
			}
		}
	}
	kk := kStr("k", 32)
	for i, a := range dtAll {
		for j := i + 1; j < len(dtAll); j++ {
			for l := j + 1; l < len(dtAll); l++ {
				xs, ys, zs := dataVals(a, false), dataVals(dtAll[j], false), dataVals(dtAll[l], false)
				if !e.Thorough() {
					xs, ys, zs = xs[len(xs)-1:], ys[len(ys)-1:], zs[len(zs)-1:]
				}
				for _, x := range xs {
					for _, y := range ys {
						for _, z := range zs {
							run(entryVal{5, true, 0, false, kk, []dataVal{x, y, z}})
						}
					}
				}
			}
		}
	}
	var all []dataVal
	for _, t := range dtAll {
		v := dataVals(t, false)
		all = append(all, v[len(v)-1])
	}
	for _, k := range keys {
		for _, f := range flags {
			run(entryVal{5, f.id, 6, f.timed, k, all})
		}
	}
}

// ---------------------------------------------------------------- malformed

// refParseEntry decides whether b is a well-formed entry for d.
func refEntryOK(d *st.Definition, withID, timed bool, b []byte) (ok, either bool) {
	p := 0
	need := func(n uint64) bool {
		if n > uint64(len(b)-p) {
			return false
		}
		p += int(n)
		return true
	}
	vi := func() (uint64, bool) {
		v, n := refReadVarint(b[p:])
		if n == 0 {
			return 0, false
		}
		p += n
		return v, true
	}
	if withID && !need(4) {
		return false, false
	}
	if timed && !need(4) {
		return false, false
	}
	switch d.KeyType {
	case st.KeyTypeSignedInteger:
		if !need(4) {
			return false, false
		}
	case st.KeyTypeIPv4Address:
		if d.KeyLength != 4 || !need(4) {
			return false, false
		}
	case st.KeyTypeIPv6Address:
		if d.KeyLength != 16 || !need(16) {
			return false, false
		}
	case st.KeyTypeString:
		l, ok := vi()
		if !ok || !need(l) {
			return false, false
		}
	case st.KeyTypeBinary:
		if !need(d.KeyLength) {
			return false, false
		}
	default:
		return false, false
	}
	for _, t := range d.DataTypes {
		k, known := dtKind[t.DataType]
		if !known {
			return false, false
		}
		switch k {
		case wSint, wUint, wULL:
			if _, ok := vi(); !ok {
				return false, false
			}
		case wFreq:
			for i := 0; i < 3; i++ {
				if _, ok := vi(); !ok {
					return false, false
				}
			}
		case wDict:
			l, ok := vi()
			if !ok || l > uint64(len(b)-p) {
				return false, false
			}
			if l == 0 {
				break
			}
			end := p + int(l)
			if _, ok := vi(); !ok || p > end {
				return false, false
			}
			if p == end {
				break
			}
			vl, ok := vi()
			if !ok || p > end || vl > uint64(end-p) {
				return false, false
			}
			p += int(vl)
			if p != end || vl == 0 {
				return true, true // framing HAProxy never produces: accept or refuse
			}
		}
	}
	return true, false
}

func stickMalformed(e *Enum) {
	vals := []entryVal{
		{1, true, 2, true, kSint(5), []dataVal{dInt(4, 300), dFreq(3, 1, 240, 3)}},
		{1, true, 2, false, kIP(addr4), []dataVal{dDict(19, 1, []byte("srv"))}},
		{1, false, 2, true, kIP(addr6), []dataVal{dInt(0, 1), dDict(19, 240, []byte("s"))}},
		{1, true, 2, false, kStr("abc", 32), []dataVal{dInt(13, 1<<40)}},
		{1, true, 2, true, kBin([]byte{1, 2, 3}, 3), []dataVal{dDict(19, 5, nil), dFreq(26, 2288, 0, 1)}},
	}
	for i, v := range vals {
		d := v.def()
		corruptions(e, v.wire(), fmt.Sprintf("entry %d", i), e.Thorough(), func(c *EC, in []byte) {
			c.Ops++
			g, whole := guarded(len(in), 64)
			copy(g, in)
			u := st.EntryUpdate{StickTable: d, WithLocalUpdateID: v.withID, WithExpiry: v.timed}
			n, err := u.Unmarshal(g[:len(in):len(in)])
			ok, either := refEntryOK(d, v.withID, v.timed, in)
			if !ok && err == nil {
				c.Fail("malformed entry %x for %s decoded without error as %s", in, showDef(d), showEntry(&u))
			}
			if ok && !either && err != nil {
				c.Fail("well-formed entry %x for %s refused: %v", in, showDef(d), err)
			}
			if n > len(in) && err == nil {
				c.Fail("decoding %x consumed %d of %d bytes", in, n, len(in))
			}
			// with capacity behind: must not read it
			u2 := st.EntryUpdate{StickTable: d, WithLocalUpdateID: v.withID, WithExpiry: v.timed}
			_, err2 := u2.Unmarshal(g)
			if (err2 == nil) != (err == nil) || (err == nil && showEntry(&u) != showEntry(&u2)) {
				c.Fail("decoding %x depends on the bytes behind the message: %v vs %v", in, err, err2)
			}
			if !canaryOK(whole, len(in)) {
				c.Fail("decoder wrote behind the message")
			}
		})
	}
	defs := []*st.Definition{
		{Name: "tbl", StickTableID: 3, KeyType: 6, KeyLength: 32, Expiry: 60000, DataTypes: []st.DataTypeDefinition{dtDef(4, 0), dtDef(5, 300)}},
		{Name: "", StickTableID: 300, KeyType: 7, KeyLength: 8, DataTypes: []st.DataTypeDefinition{dtDef(19, 0), dtDef(26, 10)}},
	}
	for i, d := range defs {
		corruptions(e, refDef(d), fmt.Sprintf("definition %d", i), e.Thorough(), func(c *EC, in []byte) {
			c.Ops++
			g, _ := guarded(len(in), 64)
			copy(g, in)
			var a, b st.Definition
			_, err := a.Unmarshal(g[:len(in):len(in)])
			_, err2 := b.Unmarshal(g)
			if (err == nil) != (err2 == nil) || (err == nil && showDef(&a) != showDef(&b)) {
				c.Fail("decoding definition %x depends on the bytes behind the message", in)
			}
			ok := refDefOK(in)
			if !ok && err == nil {
				c.Fail("malformed definition %x decoded without error as %s", in, showDef(&a))
			}
		})
	}
}

func refDefOK(b []byte) bool {
	p := 0
	vi := func() (uint64, bool) {
		v, n := refReadVarint(b[p:])
		p += n
		return v, n > 0
	}
	if _, ok := vi(); !ok {
		return false
	}
	l, ok := vi()
	if !ok || l > uint64(len(b)-p) {
		return false
	}
	p += int(l)
	var m uint64
	for i := 0; i < 4; i++ {
		v, ok := vi()
		if !ok {
			return false
		}
		if i == 2 {
			m = v
		}
	}
	for t := 0; t < 64; t++ {
		if m>>t&1 == 1 && t >= 22 && t <= 24 {
			return true // arrays: outside the properties
		}
		if m>>t&1 == 1 && t < 27 && dtKind[st.DataType(t)] == wFreq {
			if _, ok := dtKind[st.DataType(t)]; !ok {
				continue
			}
			for i := 0; i < 2; i++ {
				if _, ok := vi(); !ok {
					return false
				}
			}
		}
	}
	return true
}
