package main

import (
	"bytes"
	"fmt"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func init() {
	enumParts = append(enumParts,
		&EnumPart{"kv-sizes", []string{"C02"}, kvSizes},
		&EnumPart{"action-sizes", []string{"C03"}, actionSizes},
		&EnumPart{"scan-sizes", []string{"C04"}, scanSizes},
		&EnumPart{"name-equal", []string{"C02", "C05"}, nameEqual})
}

// bigLens are the lengths around which a length field or a buffer changes its
// shape: varint boundaries, powers of two up to a megabyte and beyond.
func bigLens(t bool) []int {
	l := []int{0, 1, 239, 240, 2287, 2288, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 264431, 264432, 1<<20 - 1, 1 << 20, 1<<20 + 1}
	if t {
		for s := 2; s <= 22; s++ {
			l = append(l, 1<<s-1, 1<<s, 1<<s+1)
		}
		l = append(l, 1<<24-1, 1<<24, 1<<24+1, 33818863, 33818864)
	}
	return l
}

// spread is a text whose content says where in it one is.
func spread(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i) ^ byte(i>>8)*31 ^ byte(i>>16)*7 ^ salt
	}
	return b
}

// sizePairs calls f for the lengths of a name and a value, one of them large
// or both.
func sizePairs(e *Enum, f func(n, v int)) {
	ls := bigLens(e.Thorough())
	for _, n := range ls {
		for _, v := range []int{0, 1, 240} {
			if e.Stop() {
				return
			}
			f(n, v)
			f(v, n)
		}
	}
	for _, n := range []int{65536, 1 << 20} {
		f(n, n)
	}
}

func kvSizes(e *Enum) {
	sizePairs(e, func(n, v int) {
		e.Case(func() string { return fmt.Sprintf("kv write: name of %d, value of %d bytes", n, v) }, func(c *EC) {
			name, val := string(spread(n, 1)), spread(v, 2)
			str := kvOp{"string", kvStr(name, string(val)), false, func(w *encoding.KVWriter) error { return w.SetString(name, string(val)) }}
			bin := kvOp{"binary", kvBin(name, val), false, func(w *encoding.KVWriter) error { return w.SetBinary(name, val) }}
			u32 := kvOp{"uint32", kvU32(name, 7), false, func(w *encoding.KVWriter) error { return w.SetUInt32(name, 7) }}
			small := kvOp{"small", kvStr("k", "v"), false, func(w *encoding.KVWriter) error { return w.SetString("k", "v") }}
			for _, big := range []kvOp{str, bin, u32} {
				l := len(refKV(big.kv))
				for _, d := range []int{-2, -1, 0, 1, 5, 6, 64} {
					if l+d >= 0 {
						kvRunSeq(c, []kvOp{big, small}, l+d, 0, d&1 == 0)
						kvRunSeq(c, []kvOp{small, big}, l+d+5, 5, d&1 == 0)
					}
				}
			}
			c.Outcome = fmt.Sprint(n, v)
		})
	})
}

func actionSizes(e *Enum) {
	sizePairs(e, func(n, v int) {
		e.Case(func() string { return fmt.Sprintf("action: name of %d, value of %d bytes", n, v) }, func(c *EC) {
			name, val := string(spread(n, 1)), spread(v, 2)
			sc := encoding.VarScopeTransaction
			mk := func(kv KV) Action { kv.Name = name; return Action{Set: true, Scope: 2, Name: name, Val: kv} }
			str := actOp{"string", mk(kvStr("", string(val))), false, func(w *encoding.ActionWriter) error { return w.SetString(sc, name, string(val)) }}
			sby := actOp{"string bytes", mk(kvStr("", string(val))), false, func(w *encoding.ActionWriter) error { return w.SetStringBytes(sc, name, val) }}
			bin := actOp{"binary", mk(kvBin("", val)), false, func(w *encoding.ActionWriter) error { return w.SetBinary(sc, name, val) }}
			u32 := actOp{"uint32", mk(kvI64("", 7)), false, func(w *encoding.ActionWriter) error { return w.SetUInt32(sc, name, 7) }}
			uns := actOp{"unset", Action{Scope: 2, Name: name}, false, func(w *encoding.ActionWriter) error { return w.Unset(sc, name) }}
			small := actOp{"small", Action{Set: true, Scope: 2, Name: "k", Val: kvStr("k", "v")}, false, func(w *encoding.ActionWriter) error { return w.SetString(sc, "k", "v") }}
			for _, big := range []actOp{str, sby, bin, u32, uns} {
				l := len(refAction(big.a))
				for _, capacity := range []int{0, 1, l - 1, l, l + 1, l + 40} {
					actRunSeq(c, []actOp{big, small}, capacity, 0, capacity&1 == 0)
					actRunSeq(c, []actOp{small, big, big}, capacity+3, 3, capacity&1 == 0)
				}
			}
			c.Outcome = fmt.Sprint(n, v)
		})
	})
}

func scanSizes(e *Enum) {
	sizePairs(e, func(n, v int) {
		e.Case(func() string { return fmt.Sprintf("scan: name of %d, value of %d bytes", n, v) }, func(c *EC) {
			name, val := string(spread(n, 1)), spread(v, 2)
			for _, kv := range []KV{kvStr(name, string(val)), kvBin(name, val), kvBool(name, true), kvAddr(name, addr6)} {
				in := append(refKV(kv), refKV(kvStr("next", "z"))...)
				one := len(refKV(kv))
				for _, count := range []int{-1, 1, 2} {
					checkScanKV(c, in, count)
				}
				for _, cut := range []int{1, 2, one - 1, one, one + 1, len(in) - 1} {
					checkScanKV(c, in[:cut], -1)
				}
				if len(c.fails) > 0 {
					return
				}
			}
			for _, m := range []Msg{{name, []KV{kvStr("a", string(val)), kvStr("b", "z")}}, {"m", []KV{kvStr(name, string(val)), kvStr("b", "z")}}, {name, nil}} {
				in := refMsgs(Msg{"first", []KV{kvStr("x", "y")}}, m, Msg{"last", nil})
				for _, pat := range []int{0, 0x3f, 0x11, 0x04} {
					checkScanMsg(c, in, pat)
				}
				for _, cut := range []int{1, 6, 20, len(in) / 2, len(in) - 7, len(in) - 1} {
					if cut >= 0 && cut < len(in) {
						checkScanMsg(c, in[:cut], 0x3f)
						checkScanMsg(c, in[:cut], 0)
					}
				}
				if len(c.fails) > 0 {
					return
				}
			}
			c.Outcome = fmt.Sprint(n, v)
		})
	})
}

// nameEqual: the comparison helpers and the matching of struct fields, for
// names that differ in a single place, in their length or not at all.
func nameEqual(e *Enum) {
	top := 70
	if e.Thorough() {
		top = 300
	}
	lens := []int{}
	for n := 0; n <= top; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 127, 128, 129, 239, 240, 255, 256, 257, 300)
	for _, n := range lens {
		for _, base := range [][]byte{bytes.Repeat([]byte{'a'}, n), spread(n, 'x'), bytes.Repeat([]byte{0}, n), bytes.Repeat([]byte{0xff}, n)} {
			if e.Stop() {
				return
			}
			e.Case(func() string { return fmt.Sprintf("names like %.20x of length %d", base, n) }, func(c *EC) {
				raw := refKV(kvStr(string(base), "v"))
				raw = append(raw, "tail-behind-the-entry"...)
				s := encoding.NewKVScanner(raw[:len(raw)-21], -1)
				k := encoding.AcquireKVEntry()
				defer encoding.ReleaseKVEntry(k)
				if !s.Next(k) {
					c.Fail("name of %d bytes: %v", n, s.Error())
					return
				}
				try := func(o []byte, want bool) {
					c.Ops++
					if a, b, d := k.NameEquals(string(o)), k.NameEqualBytes(o), k.NameEqualUnsafe(string(o)); a != want || b != want || d != want {
						c.Fail("%q compared with %q: NameEquals %v, NameEqualBytes %v, NameEqualUnsafe %v; want %v", base, o, a, b, d, want)
					}
				}
				try(append([]byte{}, base...), true)
				for i := 0; i < n; i++ {
					for _, x := range []byte{1, 0x20, 0x80} {
						o := append([]byte{}, base...)
						o[i] ^= x
						try(o, false)
					}
					try(append([]byte{}, base[:i]...), false)
				}
				for _, t := range []string{"x", "\x00", "\xff", "xy", "a", "aa"} {
					try(append(append([]byte{}, base...), t...), false)
				}
				// two places at once
				for i := 0; i+1 < n; i++ {
					o := append([]byte{}, base...)
					o[i] ^= 1
					o[i+1] ^= 1
					try(o, false)
				}
				c.Outcome = fmt.Sprint(n)
			})
		}
	}
}
