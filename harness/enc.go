package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"net/netip"
	"strings"
	"unsafe"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func init() {
	enumParts = append(enumParts,
		&EnumPart{"varint-values", []string{"C01"}, varintValues},
		&EnumPart{"varint-strings", []string{"C01"}, varintStrings},
		&EnumPart{"kv-write", []string{"C02"}, kvWrite},
		&EnumPart{"kv-read-values", []string{"C02"}, kvReadValues},
		&EnumPart{"action-write", []string{"C03"}, actionWrite},
		&EnumPart{"action-pool", []string{"C03"}, actionPool},
		&EnumPart{"scan-kv", []string{"C04"}, scanKV},
		&EnumPart{"scan-kv-corrupt", []string{"C04"}, scanKVCorrupt},
		&EnumPart{"scan-msg", []string{"C04", "C08"}, scanMsg},
		&EnumPart{"scan-msg-corrupt", []string{"C04"}, scanMsgCorrupt},
	)
}

const canary = 0xC5

// guarded returns a slice of the given length with canaries behind it.
func guarded(n int, slack int) (b, whole []byte) {
	whole = bytes.Repeat([]byte{canary}, n+slack)
	return whole[:n], whole
}

func canaryOK(whole []byte, n int) bool {
	for _, c := range whole[n:] {
		if c != canary {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C01

func varintValues(e *Enum) {
	one := func(v uint64) {
		e.Case(func() string { return fmt.Sprintf("varint %d (%#x)", v, v) }, func(c *EC) {
			ref := refVarint(v)
			for size := 0; size <= len(ref)+2; size++ {
				c.Ops++
				b, whole := guarded(size, 16)
				n, err := encoding.PutVarint(b, v)
				if !canaryOK(whole, size) {
					c.Fail("PutVarint(%d) into %d bytes wrote outside the buffer", v, size)
					return
				}
				if size < len(ref) {
					if !errors.Is(err, encoding.ErrInsufficientSpace) {
						c.Fail("PutVarint(%d) into %d bytes: n=%d err=%v, want ErrInsufficientSpace", v, size, n, err)
					}
					continue
				}
				if err != nil || n != len(ref) || !bytes.Equal(b[:n], ref) {
					c.Fail("PutVarint(%d) into %d bytes: n=%d err=%v bytes=%x, want %x", v, size, n, err, b, ref)
					return
				}
			}
			for l := 0; l <= len(ref); l++ {
				for _, junk := range []int{0, 1} {
					if l < len(ref) && junk > 0 {
						continue
					}
					in := append(append([]byte{}, ref[:l]...), bytes.Repeat([]byte{0x7f}, junk)...)
					varintDecode(c, in)
				}
			}
			c.Outcome = fmt.Sprint(len(ref), bits.Len64(v))
		})
	}
	lim := uint64(1 << 17)
	win := uint64(600)
	if e.Thorough() {
		lim, win = 1<<21, 40000
	}
	for v := uint64(0); v < lim; v++ {
		one(v)
	}
	around := func(v uint64) {
		for d := uint64(0); d <= win; d++ {
			one(v + d)
			one(v - d - 1)
		}
	}
	// every length boundary
	b := uint64(240)
	for k := uint(4); k < 64; k += 7 {
		around(b)
		nb := b + (1 << (k + 7))
		if k+7 >= 64 {
			break
		}
		b = nb
	}
	for s := uint(17); s < 64; s++ {
		around(1 << s)
	}
	around(0) // wraps around 2^64
	for hi := uint64(0); hi < 256; hi++ {
		for s := uint(0); s < 64; s += 4 {
			for _, lo := range []uint64{0, 1, 0xff, 0xf0, math.MaxUint64} {
				one(hi<<s ^ (lo & (1<<s - 1)))
			}
		}
	}
}

type byteReader struct {
	b []byte
	n int
}

func (r *byteReader) ReadByte() (byte, error) {
	if r.n >= len(r.b) {
		return 0, io.EOF
	}
	r.n++
	return r.b[r.n-1], nil
}

func varintDecode(c *EC, in []byte) {
	c.Ops++
	v, n, err := encoding.Varint(in[:len(in):len(in)])
	r := &byteReader{b: in}
	sv, serr := encoding.ReadVarint(r)
	rv, rn := refReadVarint(in)
	if rn == 0 {
		if !errors.Is(err, encoding.ErrUnterminatedSequence) {
			c.Fail("Varint(%x) = %d,%d,%v, want ErrUnterminatedSequence", in, v, n, err)
		}
		if !errors.Is(serr, encoding.ErrUnterminatedSequence) {
			c.Fail("ReadVarint(%x) = %d,%v, want ErrUnterminatedSequence", in, sv, serr)
		}
		return
	}
	if (err == nil) != (serr == nil) || (err == nil && (v != sv || n != r.n)) {
		c.Fail("decoders disagree on %x: slice %d,%d,%v stream %d,%d,%v", in, v, n, err, sv, r.n, serr)
		return
	}
	// longer sequences do not fit 64 bits
	if rn <= 9 || bytes.Equal(refVarint(rv), in[:rn]) {
		if err != nil || v != rv || n != rn {
			c.Fail("Varint(%x) = %d,%d,%v, want %d,%d", in, v, n, err, rv, rn)
		}
	}
}

// words calls f for every string over alpha of length 0..n.
func words(alpha []byte, n int, f func([]byte)) {
	buf := make([]byte, 0, n)
	var rec func()
	rec = func() {
		f(buf)
		if len(buf) == n {
			return
		}
		for _, a := range alpha {
			buf = append(buf, a)
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

func varintStrings(e *Enum) {
	group := func(alpha []byte, n, tail int) {
		words(alpha, n-tail, func(p []byte) {
			if e.Stop() {
				return
			}
			pre := append([]byte{}, p...)
			e.Case(func() string { return fmt.Sprintf("decode %x*", pre) }, func(c *EC) {
				if len(pre) < n-tail {
					varintDecode(c, pre)
					c.Outcome = fmt.Sprint(len(pre))
					return
				}
				words(alpha, tail, func(s []byte) {
					varintDecode(c, append(pre[:len(pre):len(pre)], s...))
				})
				c.Outcome = fmt.Sprintf("%x", pre)
			})
		})
	}
	group(allBytes(), 3, 1)
	if e.Thorough() {
		group([]byte{0x00, 0x01, 0x7f, 0x80, 0xef, 0xf0, 0xf1, 0xff}, 8, 2)
		group([]byte{0x00, 0x7f, 0x80, 0xff}, 13, 3)
	} else {
		group([]byte{0x00, 0x01, 0x7f, 0x80, 0xef, 0xf0, 0xf1, 0xff}, 6, 2)
		group([]byte{0x00, 0x7f, 0x80, 0xff}, 11, 3)
	}
}

// ---------------------------------------------------------------- values

var (
	addr4  = netip.MustParseAddr("192.0.2.33")
	addr6  = netip.MustParseAddr("2001:db8::f0:80")
	addr46 = netip.MustParseAddr("::ffff:10.0.0.1")
	addr6z = netip.MustParseAddr("fe80::1%eth0")
)

type kvOp struct {
	name string
	kv   KV // expected entry
	bad  bool
	do   func(w *encoding.KVWriter) error
}

func sfill(n int, c byte) string { return strings.Repeat(string([]byte{c}), n) }

func kvOps(name string, full bool) []kvOp {
	var o []kvOp
	add := func(kv KV, f func(w *encoding.KVWriter) error) {
		kv.Name = name
		o = append(o, kvOp{name: kv.String(), kv: kv, do: f})
	}
	add(kvNull(""), func(w *encoding.KVWriter) error { return w.SetNull(name) })
	add(kvBool("", true), func(w *encoding.KVWriter) error { return w.SetBool(name, true) })
	add(kvBool("", false), func(w *encoding.KVWriter) error { return w.SetBool(name, false) })
	i32 := []int32{0, -1, 240}
	i64 := []int64{-1, 239, 2288}
	u32 := []uint32{0, math.MaxUint32}
	u64 := []uint64{0, math.MaxUint64}
	strs := []string{"", "v"}
	if full {
		i32 = []int32{0, 1, -1, 239, 240, 2287, 2288, math.MaxInt32, math.MinInt32}
		i64 = []int64{0, 1, -1, 239, 240, 2287, 2288, 264431, 264432, math.MaxInt64, math.MinInt64, math.MaxInt32 + 1}
		u32 = []uint32{0, 1, 239, 240, 2287, 2288, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32}
		u64 = []uint64{0, 1, 239, 240, 33818864, 33818863, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
		strs = []string{"", "v", "\x00", sfill(239, 'x'), sfill(240, 'y'), sfill(241, 0xf0)}
	}
	for _, v := range i32 {
		add(kvI32("", v), func(w *encoding.KVWriter) error { return w.SetInt32(name, v) })
	}
	for _, v := range i64 {
		add(kvI64("", v), func(w *encoding.KVWriter) error { return w.SetInt64(name, v) })
	}
	for _, v := range u32 {
		add(kvU32("", v), func(w *encoding.KVWriter) error { return w.SetUInt32(name, v) })
	}
	for _, v := range u64 {
		add(KV{Type: 5, I: v}, func(w *encoding.KVWriter) error { return w.SetUInt64(name, v) })
	}
	for _, v := range []netip.Addr{addr4, addr6, addr46, addr6z} {
		add(kvAddr("", v), func(w *encoding.KVWriter) error { return w.SetAddr(name, v) })
	}
	for _, v := range strs {
		add(kvStr("", v), func(w *encoding.KVWriter) error { return w.SetString(name, v) })
		add(kvBin("", []byte(v)), func(w *encoding.KVWriter) error { return w.SetBinary(name, []byte(v)) })
	}
	add(kvBin("", nil), func(w *encoding.KVWriter) error { return w.SetBinary(name, nil) })
	o = append(o, kvOp{name: fmt.Sprintf("%q=invalid address", name), bad: true, do: func(w *encoding.KVWriter) error { return w.SetAddr(name, netip.Addr{}) }})
	return o
}

func fromEntry(k *encoding.KVEntry) KV {
	o := KV{Name: string(k.NameBytes()), Type: byte(k.Type())}
	switch o.Type {
	case 1:
		o.B = k.ValueBool()
	case 2, 3, 4, 5:
		o.I = uint64(k.ValueInt())
	case 6, 7, 8, 9:
		o.S = append([]byte{}, k.ValueBytes()...)
	}
	return o
}

func showKVs(ks []KV) string {
	var s []string
	for _, k := range ks {
		s = append(s, k.String())
	}
	return strings.Join(s, " ")
}

func sameKVs(a, b []KV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(b[i]) {
			return false
		}
	}
	return true
}

func scanAll(b []byte, count int) (ks []KV, s *encoding.KVScanner) {
	s = encoding.NewKVScanner(b, count)
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	for s.Next(e) {
		ks = append(ks, fromEntry(e))
	}
	return ks, s
}

// ---------------------------------------------------------------- C02

func kvRunSeq(c *EC, ops []kvOp, capacity, off int, pooled bool) {
	b, whole := guarded(capacity, 24)
	model := append([]byte{}, b[:off]...)
	var want []KV
	var w *encoding.KVWriter
	if pooled {
		w = encoding.AcquireKVWriter(b, off)
		defer encoding.ReleaseKVWriter(w)
	} else {
		w = encoding.NewKVWriter(b, off)
	}
	for i, op := range ops {
		c.Ops++
		enc := refKV(op.kv)
		fits := !op.bad && len(model)+len(enc) <= capacity
		err := op.do(w)
		if fits {
			if err != nil {
				c.Fail("capacity %d offset %d: write %d (%s) failed: %v although it fits", capacity, off, i, op.name, err)
				return
			}
			model = append(model, enc...)
			want = append(want, op.kv)
		} else if err == nil {
			c.Fail("capacity %d offset %d: write %d (%s) reported success although it cannot be stored", capacity, off, i, op.name)
			return
		}
		if w.Off() != len(model) || !bytes.Equal(w.Bytes(), model) {
			c.Fail("capacity %d offset %d: after write %d (%s, err=%v) content is %x, want %x", capacity, off, i, op.name, err, w.Bytes(), model)
			return
		}
		if !canaryOK(whole, capacity) {
			c.Fail("capacity %d: write %d (%s) wrote outside the buffer", capacity, i, op.name)
			return
		}
	}
	for _, cnt := range []int{-1, len(want)} {
		got, s := scanAll(w.Bytes()[off:], cnt)
		if s.Error() != nil || s.RemainingBuf() != 0 || !sameKVs(got, want) {
			c.Fail("read back (count %d): %s err=%v left=%d, want %s", cnt, showKVs(got), s.Error(), s.RemainingBuf(), showKVs(want))
		}
	}
}

func kvWrite(e *Enum) {
	seq := func(ops []kvOp, offs ...int) {
		if e.Stop() {
			return
		}
		ops = append([]kvOp{}, ops...)
		e.Case(func() string {
			var s []string
			for _, o := range ops {
				s = append(s, clip(o.name, 40))
			}
			return strings.Join(s, "; ")
		}, func(c *EC) {
			total := 0
			for _, o := range ops {
				if !o.bad {
					total += len(refKV(o.kv))
				}
			}
			for _, off := range offs {
				for capacity := off; capacity <= total+off+2; capacity++ {
					kvRunSeq(c, ops, capacity, off, capacity&1 == 0)
				}
			}
			c.Outcome = fmt.Sprint(total, len(ops), ops[0].kv.Type)
		})
	}
	for _, n := range []string{"", "k", sfill(239, 'n'), sfill(240, 'm')} {
		for _, o := range kvOps(n, true) {
			seq([]kvOp{o}, 0, 3)
		}
	}
	a := kvOps("k", false)
	b := kvOps("", false)
	for _, x := range a {
		for _, y := range append(append([]kvOp{}, a...), b...) {
			seq([]kvOp{x, y}, 0)
		}
	}
	red := []kvOp{a[0], a[1], a[4], a[11], a[14], a[15], a[18], a[19], a[len(a)-1]}
	for _, x := range red {
		for _, y := range red {
			for _, z := range red {
				seq([]kvOp{x, y, z}, 0)
				if e.Thorough() {
					for _, u := range red {
						seq([]kvOp{x, y, z, u}, 0, 1)
					}
				}
			}
		}
	}
	if e.Thorough() {
		for _, x := range a {
			for _, y := range a {
				for _, z := range a {
					seq([]kvOp{x, y, z}, 0)
				}
			}
		}
	}
}

// kvReadValues checks the typed accessors for every data type.
func kvReadValues(e *Enum) {
	for _, n := range []string{"", "k", "key-name", sfill(240, 'm')} {
		for _, o := range kvOps(n, true) {
			if o.bad {
				continue
			}
			e.Case(func() string { return o.name }, func(c *EC) {
				c.Ops++
				raw := append(refKV(o.kv), refKV(kvStr("next", "z"))...)
				s := encoding.AcquireKVScanner(raw, -1)
				defer encoding.ReleaseKVScanner(s)
				k := encoding.AcquireKVEntry()
				defer encoding.ReleaseKVEntry(k)
				if !s.Next(k) {
					c.Fail("Next returned false: %v", s.Error())
					return
				}
				nm := o.kv.Name
				if !k.NameEquals(nm) || !k.NameEqualBytes([]byte(nm)) || !k.NameEqualUnsafe(nm) || k.NameEquals(nm+"x") || k.NameEqualUnsafe(nm+"x") || k.NameEqualBytes([]byte(nm+"x")) || k.NameEquals("zzz") || k.NameEqualUnsafe("zzz") || (nm != "" && (k.NameEquals(nm[1:]) || k.NameEqualUnsafe(nm[1:]))) {
					c.Fail("name comparison helpers wrong for %q", nm)
				}
				if nm != "" {
					alt := nm[:len(nm)-1] + "~"
					if k.NameEquals(alt) || k.NameEqualUnsafe(alt) || k.NameEqualBytes([]byte(alt)) {
						c.Fail("name comparison helpers accept %q for %q", alt, nm)
					}
				}
				var want any
				switch o.kv.Type {
				case 0:
					want = nil
				case 1:
					want = o.kv.B
				case 2:
					want = int32(o.kv.I)
				case 3:
					want = uint32(o.kv.I)
				case 4:
					want = int64(o.kv.I)
				case 5:
					want = o.kv.I
				case 6, 7:
					a, _ := netip.AddrFromSlice(o.kv.S)
					want = a
					if k.ValueAddr() != a {
						c.Fail("ValueAddr %v want %v", k.ValueAddr(), a)
					}
				case 8:
					want = string(o.kv.S)
				case 9:
					want = o.kv.S
				}
				got := k.Value()
				if o.kv.Type == 9 {
					if !bytes.Equal(got.([]byte), o.kv.S) {
						c.Fail("Value() = %x want %x", got, want)
					}
				} else if got != want {
					c.Fail("Value() = %v (%T) want %v (%T)", got, got, want, want)
				}
				if f := fromEntry(k); !f.Equal(o.kv) {
					c.Fail("entry %s want %s", f, o.kv)
				}
				if !s.Next(k) || !fromEntry(k).Equal(kvStr("next", "z")) {
					c.Fail("entry behind it is %s, %v", fromEntry(k), s.Error())
				}
				// state of the previous entry must not shine through
				if k.ValueBool() || k.ValueInt() != 0 {
					c.Fail("stale value in reused entry: %v %v", k.ValueBool(), k.ValueInt())
				}
				c.Outcome = fmt.Sprint(o.kv)
			})
		}
	}
}

// ---------------------------------------------------------------- C03

type actOp struct {
	name string
	a    Action
	bad  bool
	do   func(w *encoding.ActionWriter) error
}

func actOps(name string, full bool) []actOp {
	var o []actOp
	sc := []byte{0, 1, 2, 3, 4}
	if !full {
		sc = []byte{2}
	}
	for _, s := range sc {
		scope := encoding.VarScopeProcess
		switch s {
		case 1:
			scope = encoding.VarScopeSession
		case 2:
			scope = encoding.VarScopeTransaction
		case 3:
			scope = encoding.VarScopeRequest
		case 4:
			scope = encoding.VarScopeResponse
		}
		add := func(kv KV, f func(w *encoding.ActionWriter) error) {
			a := Action{Set: true, Scope: s, Name: name, Val: kv}
			o = append(o, actOp{name: a.String(), a: a, do: f})
		}
		o = append(o, actOp{name: Action{Scope: s, Name: name}.String(), a: Action{Scope: s, Name: name}, do: func(w *encoding.ActionWriter) error { return w.Unset(scope, name) }})
		add(kvNull(""), func(w *encoding.ActionWriter) error { return w.SetNull(scope, name) })
		add(kvBool("", true), func(w *encoding.ActionWriter) error { return w.SetBool(scope, name, true) })
		add(kvBool("", false), func(w *encoding.ActionWriter) error { return w.SetBool(scope, name, false) })
		i32 := []int32{-1, 240}
		i64 := []int64{239}
		u32 := []uint32{math.MaxUint32}
		u64 := []uint64{math.MaxUint64}
		strs := []string{"", "v"}
		if full {
			i32 = []int32{0, -1, 239, 240, math.MaxInt32, math.MinInt32}
			i64 = []int64{0, -1, 239, 240, 2287, 2288, 264431, 264432, math.MaxInt64, math.MinInt64}
			u32 = []uint32{0, math.MaxInt32 + 1, math.MaxUint32}
			u64 = []uint64{0, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
			strs = []string{"", "v", sfill(239, 'x'), sfill(240, 'y'), sfill(2288, 'z')}
		}
		for _, v := range i32 {
			add(kvI64("", int64(v)), func(w *encoding.ActionWriter) error { return w.SetInt32(scope, name, v) })
		}
		for _, v := range i64 {
			add(kvI64("", v), func(w *encoding.ActionWriter) error { return w.SetInt64(scope, name, v) })
		}
		for _, v := range u32 {
			add(kvI64("", int64(v)), func(w *encoding.ActionWriter) error { return w.SetUInt32(scope, name, v) })
		}
		for _, v := range u64 {
			add(kvI64("", int64(v)), func(w *encoding.ActionWriter) error { return w.SetUInt64(scope, name, v) })
		}
		for _, v := range []netip.Addr{addr4, addr6, addr46, addr6z} {
			add(kvAddr("", v), func(w *encoding.ActionWriter) error { return w.SetAddr(scope, name, v) })
		}
		for _, v := range strs {
			add(kvStr("", v), func(w *encoding.ActionWriter) error { return w.SetString(scope, name, v) })
			add(kvStr("", v), func(w *encoding.ActionWriter) error { return w.SetStringBytes(scope, name, []byte(v)) })
			add(kvBin("", []byte(v)), func(w *encoding.ActionWriter) error { return w.SetBinary(scope, name, []byte(v)) })
		}
		o = append(o, actOp{name: fmt.Sprintf("set(%d,%q=invalid address)", s, name), bad: true, do: func(w *encoding.ActionWriter) error { return w.SetAddr(scope, name, netip.Addr{}) }})
	}
	return o
}

// actEquivalent: integers may be carried by any of the SPOE integer types as
// long as the value is the same; the library documents INT64.
func actRunSeq(c *EC, ops []actOp, capacity, off int, pooled bool) {
	b, whole := guarded(capacity, 24)
	for i := 0; i < off; i++ {
		b[i] = byte(0x30 + i)
	}
	model := append([]byte{}, b[:off]...)
	var w *encoding.ActionWriter
	if pooled {
		w = encoding.AcquireActionWriter(b, off)
		defer encoding.ReleaseActionWriter(w)
	} else {
		w = encoding.NewActionWriter(b, off)
	}
	for i, op := range ops {
		c.Ops++
		err := op.do(w)
		if op.bad {
			if err == nil {
				c.Fail("%s reported success", op.name)
				return
			}
		} else {
			if err != nil {
				c.Fail("initial capacity %d offset %d: action %d (%s) failed: %v", capacity, off, i, clip(op.name, 60), err)
				return
			}
			model = append(model, refAction(op.a)...)
		}
		if w.Off() != len(model) || !bytes.Equal(w.Bytes(), model) {
			c.Fail("initial capacity %d offset %d: after action %d (%s, err=%v) content is %x, want %x", capacity, off, i, clip(op.name, 60), err, clipb(w.Bytes(), 64), clipb(model, 64))
			return
		}
		if !canaryOK(whole, capacity) {
			c.Fail("initial capacity %d: action %d wrote outside the buffer", capacity, i)
			return
		}
	}
}

func actionWrite(e *Enum) {
	seq := func(ops []actOp, offs ...int) {
		if e.Stop() {
			return
		}
		ops = append([]actOp{}, ops...)
		e.Case(func() string {
			var s []string
			for _, o := range ops {
				s = append(s, clip(o.name, 40))
			}
			return strings.Join(s, "; ")
		}, func(c *EC) {
			total := 0
			for _, o := range ops {
				if !o.bad {
					total += len(refAction(o.a))
				}
			}
			for _, off := range offs {
				top := total + off + 2
				for capacity := off; capacity <= top; capacity++ {
					actRunSeq(c, ops, capacity, off, capacity&1 == 0)
					if capacity > 300 && capacity < top-300 {
						capacity += 13
					}
				}
			}
			c.Outcome = fmt.Sprint(total, len(ops), ops[0].name)
		})
	}
	for _, n := range []string{"", "v", sfill(239, 'n'), sfill(240, 'm')} {
		for _, o := range actOps(n, true) {
			seq([]actOp{o}, 0, 2)
		}
	}
	a := actOps("v", false)
	for _, x := range a {
		for _, y := range a {
			seq([]actOp{x, y}, 0, 5)
		}
	}
	red := []actOp{a[0], a[1], a[2], a[4], a[6], a[8], a[9], a[14], a[16], a[len(a)-1]}
	for _, x := range red {
		for _, y := range red {
			for _, z := range red {
				seq([]actOp{x, y, z}, 0)
				if e.Thorough() {
					for _, u := range red {
						seq([]actOp{x, y, z, u}, 0)
					}
				}
			}
		}
	}
	if e.Thorough() {
		for _, x := range a {
			for _, y := range a {
				for _, z := range a {
					seq([]actOp{x, y, z}, 0, 1)
				}
			}
		}
	}
}

// actionPool: two users of pooled writers over disjoint buffers.
func actionPool(e *Enum) {
	type user struct {
		w     *encoding.ActionWriter
		model []byte
		buf   []byte
		n     int
	}
	depth := 7
	if e.Thorough() {
		depth = 9
	}
	alpha := []byte{0, 1, 2, 3, 4, 5} // acquire/write/release x two users
	words(alpha, depth, func(p []byte) {
		if len(p) != depth || e.Stop() {
			return
		}
		// only sequences that are legal uses
		var st [2]bool
		for _, o := range p {
			u := o / 3
			switch o % 3 {
			case 0:
				if st[u] {
					return
				}
				st[u] = true
			case 1:
				if !st[u] {
					return
				}
			case 2:
				if !st[u] {
					return
				}
				st[u] = false
			}
		}
		seq := append([]byte{}, p...)
		e.Case(func() string {
			return fmt.Sprintf("pool ops %v (0 acquire 1 write 2 release, +3 for the second user)", seq)
		}, func(c *EC) {
			for _, capacity := range []int{0, 8, 64} {
				var us [2]user
				for i, o := range seq {
					c.Ops++
					u := &us[o/3]
					switch o % 3 {
					case 0:
						u.buf = make([]byte, capacity)
						u.w = encoding.AcquireActionWriter(u.buf, 0)
						u.model = nil
						if u.w.Off() != 0 || len(u.w.Bytes()) != 0 {
							c.Fail("fresh writer is not empty")
							return
						}
					case 1:
						u.n++
						v := fmt.Sprintf("user%d-%d", o/3, u.n)
						if err := u.w.SetString(encoding.VarScopeRequest, "n", v); err != nil {
							c.Fail("write failed: %v", err)
							return
						}
						u.model = append(u.model, refAction(Action{true, 3, "n", kvStr("", v)})...)
					case 2:
						encoding.ReleaseActionWriter(u.w)
						u.w = nil
					}
					for k := range us {
						if us[k].w != nil && !bytes.Equal(us[k].w.Bytes(), us[k].model) {
							c.Fail("after op %d user %d sees %x want %x", i, k, us[k].w.Bytes(), us[k].model)
							return
						}
					}
				}
				for k := range us {
					if us[k].w != nil {
						encoding.ReleaseActionWriter(us[k].w)
					}
				}
			}
			c.Outcome = fmt.Sprint(seq)
		})
	})
}

// ---------------------------------------------------------------- C04

func inside(v, whole []byte) bool {
	if len(v) == 0 {
		return true
	}
	a := uintptr(unsafe.Pointer(unsafe.SliceData(v)))
	s := uintptr(unsafe.Pointer(unsafe.SliceData(whole)))
	return a >= s && a+uintptr(len(v)) <= s+uintptr(len(whole))
}

func checkScanKV(c *EC, content []byte, count int) {
	c.Ops++
	b, whole := guarded(len(content), 40)
	copy(b, content)
	want, used, ok := refScanKV(content, count)
	short := ok && count > 0 && len(want) < count // fewer entries than declared
	s := encoding.NewKVScanner(b, count)
	k := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(k)
	n := 0
	for s.Next(k) {
		if n >= len(want) {
			c.Fail("scan(%x, count %d) yields more than the %d entries in the input: %s", content, count, len(want), fromEntry(k))
			return
		}
		if !inside(k.NameBytes(), b) || !inside(k.ValueBytes(), b) {
			c.Fail("scan(%x, count %d) entry %d reaches outside the input", content, count, n)
			return
		}
		if g := fromEntry(k); !g.Equal(want[n]) {
			c.Fail("scan(%x, count %d) entry %d is %s, want %s", content, count, n, g, want[n])
			return
		}
		n++
	}
	if n != len(want) {
		c.Fail("scan(%x, count %d) yields %d entries, want %d", content, count, n, len(want))
		return
	}
	err := s.Error()
	if ok && !short {
		if err != nil {
			c.Fail("scan(%x, count %d): error %v on well-formed input", content, count, err)
		}
		if s.RemainingBuf() != len(content)-used {
			c.Fail("scan(%x, count %d) leaves %d bytes, want %d", content, count, s.RemainingBuf(), len(content)-used)
		}
	}
	if !ok {
		if err == nil {
			c.Fail("scan(%x, count %d): malformed input ends without an error", content, count)
			return
		}
		for i := 0; i < 2; i++ {
			if s.Next(k) {
				c.Fail("scan(%x, count %d): yields %s after an error", content, count, fromEntry(k))
				return
			}
			if s.Error() == nil {
				c.Fail("scan(%x, count %d): error disappears on a further Next", content, count)
				return
			}
		}
		if d := s.Discard(); d == nil {
			c.Fail("scan(%x, count %d): Discard reports no error after a failed scan", content, count)
		}
	}
	if !canaryOK(whole, len(content)) {
		c.Fail("scanner wrote into memory behind the input")
	}
	// Discard from the start agrees
	s2 := encoding.AcquireKVScanner(b, count)
	d := s2.Discard()
	if !short && (d == nil) != ok {
		c.Fail("Discard(%x, count %d) = %v, want ok=%v", content, count, d, ok)
	}
	if ok && s2.RemainingBuf() != len(content)-used {
		c.Fail("Discard(%x, count %d) leaves %d bytes, want %d", content, count, s2.RemainingBuf(), len(content)-used)
	}
	encoding.ReleaseKVScanner(s2)
}

var scanCounts = []int{-1, 0, 1, 2}

func scanKV(e *Enum) {
	alpha := []byte{0x00, 0x01, 0x02, 0x06, 0x08, 0x0a, 0x11, 0xf0, 0xff}
	n := 6
	if e.Thorough() {
		alpha = []byte{0x00, 0x01, 0x02, 0x04, 0x05, 0x06, 0x08, 0x09, 0x0a, 0x11, 0x7f, 0x80, 0xf0, 0xff}
		n = 6
	}
	words(alpha, n-2, func(p []byte) {
		if e.Stop() {
			return
		}
		pre := append([]byte{}, p...)
		e.Case(func() string { return fmt.Sprintf("kv bytes %x*", pre) }, func(c *EC) {
			t := 2
			if len(pre) < n-2 {
				t = 0
			}
			words(alpha, t, func(s []byte) {
				in := append(pre[:len(pre):len(pre)], s...)
				for _, cnt := range scanCounts {
					checkScanKV(c, in, cnt)
				}
			})
			c.Outcome = fmt.Sprintf("%x", pre)
		})
	})
	// all strings up to length 3 over all bytes (first byte chosen from 0..4)
	for l := 0; l < 5; l++ {
		for a := 0; a < 256; a++ {
			pre := append(bytes.Repeat([]byte{'n'}, 0), byte(l))
			pre = append(pre, bytes.Repeat([]byte{'n'}, l)...)
			pre = append(pre, byte(a))
			e.Case(func() string { return fmt.Sprintf("kv bytes %x + any two", pre) }, func(c *EC) {
				for x := 0; x < 256; x++ {
					for _, y := range []byte{0, 1, 2, 0x7f, 0x80, 0xf0, 0xff} {
						checkScanKV(c, append(pre[:len(pre):len(pre)], byte(x), y), -1)
					}
				}
			})
		}
	}
}

func corruptions(e *Enum, base []byte, what string, two bool, f func(c *EC, in []byte)) {
	for l := 0; l <= len(base); l++ {
		e.Case(func() string { return fmt.Sprintf("%s truncated to %d: %x", what, l, base[:l]) }, func(c *EC) {
			f(c, base[:l])
			// truncated and followed by boundary bytes
			for _, t := range []byte{0, 1, 0xf0, 0xff, 8} {
				f(c, append(append([]byte{}, base[:l]...), t))
				f(c, append(append([]byte{}, base[:l]...), t, t))
			}
			c.Outcome = fmt.Sprint(what, "t", l)
		})
	}
	bound := []byte{0, 1, 2, 5, 8, 0x0f, 0x7f, 0x80, 0xef, 0xf0, 0xf1, 0xff}
	for i := range base {
		e.Case(func() string { return fmt.Sprintf("%s with byte %d corrupted", what, i) }, func(c *EC) {
			in := append([]byte{}, base...)
			for v := 0; v < 256; v++ {
				in[i] = byte(v)
				f(c, in)
			}
			if two {
				for j := i + 1; j < len(base); j++ {
					for _, v := range bound {
						for _, w := range bound {
							in[i], in[j] = v, w
							f(c, in)
						}
					}
					in[j] = base[j]
				}
			}
			// overlong length fields in place of this byte
			for _, v := range []uint64{240, 300, 65536, 1 << 31, 1 << 32, 1 << 62, 1 << 63, math.MaxUint64, math.MaxUint64 - 3} {
				x := append(append(append([]byte{}, base[:i]...), refVarint(v)...), base[i+1:]...)
				f(c, x)
			}
			c.Outcome = fmt.Sprint(what, "c", i)
		})
	}
}

func scanKVCorrupt(e *Enum) {
	bases := [][]byte{
		refKVs(kvStr("ab", "xyz"), kvU32("n", 300), kvBool("t", true)),
		refKVs(kvAddr("a", addr4), kvNull("z"), kvBin("bb", []byte{1, 2, 3})),
		refKVs(kvAddr("six", addr6), kvI64("i", -5)),
		refKVs(kvStr("", ""), kvStr("k", ""), kvStr("", "v")),
	}
	if e.Thorough() {
		bases = append(bases, refKVs(kvStr("long", sfill(250, 'q')), kvI32("x", 7)), refKVs(kvI64("a", 2288), kvI64("b", 2287), kvI64("c", 240), kvI64("d", 239)))
	}
	for i, b := range bases {
		corruptions(e, b, fmt.Sprintf("kv base %d", i), len(b) < 60, func(c *EC, in []byte) {
			for _, cnt := range scanCounts {
				checkScanKV(c, in, cnt)
			}
		})
	}
}

// checkScanMsg: pat selects how many entries of message i are consumed by
// the user before moving on (bits, 2 per message; 3 = all).
func checkScanMsg(c *EC, content []byte, pat int) {
	c.Ops++
	b, _ := guarded(len(content), 40)
	copy(b, content)
	want, ok := refScanMsgs(content)
	s := encoding.AcquireMessageScanner(b)
	defer encoding.ReleaseMessageScanner(s)
	m := encoding.AcquireMessage()
	defer encoding.ReleaseMessage(m)
	k := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(k)
	i := 0
	for s.Next(m) {
		if !inside(m.NameBytes(), b) {
			c.Fail("messages(%x): name of message %d reaches outside the input", content, i)
			return
		}
		take := pat >> (2 * (i % 4)) & 3
		if take == 3 {
			take = 1 << 20
		}
		if i < len(want) && string(m.NameBytes()) != want[i].Name {
			c.Fail("messages(%x) pattern %#x: message %d is named %q, want %q", content, pat, i, m.NameBytes(), want[i].Name)
			return
		}
		if i >= len(want) {
			if ok {
				c.Fail("messages(%x) pattern %#x: more than the %d messages present", content, pat, len(want))
				return
			}
		}
		for j := 0; j < take && m.KV.Next(k); j++ {
			if !inside(k.NameBytes(), b) || !inside(k.ValueBytes(), b) {
				c.Fail("messages(%x): argument reaches outside the input", content)
				return
			}
			if i < len(want) {
				if j >= len(want[i].KVs) {
					c.Fail("messages(%x) pattern %#x: message %d yields more than its %d arguments: %s", content, pat, i, len(want[i].KVs), fromEntry(k))
					return
				}
				if g := fromEntry(k); !g.Equal(want[i].KVs[j]) {
					c.Fail("messages(%x) pattern %#x: message %d argument %d is %s, want %s", content, pat, i, j, g, want[i].KVs[j])
					return
				}
			}
		}
		if err := m.KV.Discard(); err != nil {
			if ok {
				c.Fail("messages(%x) pattern %#x: discarding message %d of well-formed input: %v", content, pat, i, err)
			}
			return
		}
		i++
		if i > len(content)+1 {
			c.Fail("messages(%x): scan does not terminate", content)
			return
		}
	}
	if ok {
		if i != len(want) || s.Error() != nil {
			c.Fail("messages(%x) pattern %#x: %d messages, error %v; want %d", content, pat, i, s.Error(), len(want))
		}
		return
	}
	if s.Error() == nil {
		c.Fail("messages(%x) pattern %#x: malformed input scanned without an error", content, pat)
		return
	}
	if s.Next(m) || s.Error() == nil {
		c.Fail("messages(%x): scanner continues after an error", content)
	}
}

func scanMsg(e *Enum) {
	// well-formed lists: every split of arguments over messages, every
	// consumption pattern
	args := []KV{kvStr("a", "1"), kvU32("b", 300), kvNull("c"), kvBool("d", true), kvAddr("e", addr4), kvBin("f", []byte{0}), kvI64("g", -1), kvAddr("h", addr6), kvStr("", "")}
	var rec func(ms []Msg, next int)
	maxArgs := 2
	rec = func(ms []Msg, next int) {
		if len(ms) > 0 {
			cp := append([]Msg{}, ms...)
			e.Case(func() string { return fmt.Sprint(cp) }, func(c *EC) {
				b := refMsgs(cp...)
				for pat := 0; pat < 1<<(2*len(cp)); pat++ {
					checkScanMsg(c, b, pat)
				}
				c.Outcome = fmt.Sprint(cp)
			})
		}
		max := 3
		if e.Thorough() {
			max = 4
		}
		if len(ms) == max {
			return
		}
		for _, name := range []string{"m", "", "other"} {
			for n := 0; n <= maxArgs; n++ {
				for rot := 0; rot < 3; rot++ {
					if rot > 0 && len(ms) > 1 {
						break
					}
					var ks []KV
					for j := 0; j < n; j++ {
						ks = append(ks, args[(next+j+rot*3)%len(args)])
					}
					rec(append(ms, Msg{name, ks}), next+n)
				}
			}
		}
	}
	rec(nil, 0)
	for _, n := range []int{0, 1, 239, 240, 254, 255} {
		var ks []KV
		for j := 0; j < n; j++ {
			ks = append(ks, args[j%len(args)])
		}
		ms := []Msg{{"big", ks}, {"after", []KV{kvStr("x", "y")}}}
		e.Case(func() string { return fmt.Sprintf("message with %d arguments", n) }, func(c *EC) {
			for pat := 0; pat < 16; pat++ {
				checkScanMsg(c, refMsgs(ms...), pat)
			}
		})
	}
}

func scanMsgCorrupt(e *Enum) {
	alpha := []byte{0x00, 0x01, 0x02, 0x06, 0x08, 0x0a, 0xf0, 0xff}
	n := 6
	if e.Thorough() {
		n = 7
	}
	words(alpha, n-2, func(p []byte) {
		if e.Stop() {
			return
		}
		pre := append([]byte{}, p...)
		e.Case(func() string { return fmt.Sprintf("message bytes %x*", pre) }, func(c *EC) {
			t := 2
			if len(pre) < n-2 {
				t = 0
			}
			words(alpha, t, func(s []byte) {
				in := append(pre[:len(pre):len(pre)], s...)
				for _, pat := range []int{0, 0x55, 0xff} {
					checkScanMsg(c, in, pat)
				}
			})
			c.Outcome = fmt.Sprintf("%x", pre)
		})
	})
	bases := [][]byte{
		refMsgs(Msg{"ab", []KV{kvStr("k", "vw"), kvU32("n", 300)}}, Msg{"c", []KV{kvBool("t", true)}}),
		refMsgs(Msg{"x", nil}, Msg{"y", []KV{kvAddr("a", addr4), kvNull("z")}}, Msg{"", []KV{kvBin("b", []byte{1, 2})}}),
	}
	for i, b := range bases {
		corruptions(e, b, fmt.Sprintf("message base %d", i), e.Thorough() || len(b) < 40, func(c *EC, in []byte) {
			for _, pat := range []int{0, 0x1b, 0xff} {
				checkScanMsg(c, in, pat)
			}
		})
	}
}
