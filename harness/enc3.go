package main

import (
	"bytes"
	"fmt"
	"math"
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func init() {
	enumParts = append(enumParts,
		&EnumPart{"varint-overlong", []string{"C01"}, varintOverlong},
		&EnumPart{"stick-keylen", []string{"C16"}, stickKeyLen})
}

// varintOverlong: the two decoders agree on encodings longer than any value
// needs. Refusing them is fine.
func varintOverlong(e *Enum) {
	lens := []int{}
	for n := 0; n <= 400; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 1000, 4095, 4096, 65535, 65536)
	for _, first := range []byte{240, 241, 254, 255} {
		for _, fill := range []byte{0x80, 0x81, 0xfe, 0xff} {
			for _, end := range []int{-1, 0, 1, 0x7f} {
				for _, n := range lens {
					if e.Stop() {
						return
					}
					e.Case(func() string { return fmt.Sprintf("varint %x, %d times %x, end %d", first, n, fill, end) }, func(c *EC) {
						c.Ops++
						in := append([]byte{first}, bytes.Repeat([]byte{fill}, n)...)
						if end >= 0 {
							in = append(in, byte(end))
						}
						v, k, err := encoding.Varint(in[:len(in):len(in)])
						r := &byteReader{b: in}
						sv, serr := encoding.ReadVarint(r)
						switch {
						case (err == nil) != (serr == nil) || (err == nil && (v != sv || k != r.n)):
							c.Fail("decoders disagree: slice %d,%d,%v stream %d,%d,%v", v, k, err, sv, r.n, serr)
						case end < 0 && err == nil:
							c.Fail("no end, but decoded to %d,%d", v, k)
						case end >= 0 && err == nil && k != len(in):
							c.Fail("decoded %d of %d bytes", k, len(in))
						}
						c.Outcome = fmt.Sprint(err == nil)
					})
				}
			}
		}
	}
}

// stickKeyLen: the key length a table declares next to what the key needs.
func stickKeyLen(e *Enum) {
	lens := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 64, 239, 240, 256, 300, 65535, 65536, 1 << 31, 1 << 32, math.MaxInt64, math.MaxUint64}
	bases := []keyVal{kSint(-2), kSint(0x01020304), kIP(addr4), kIP(addr6), kIP(netip.MustParseAddr("::ffff:1.2.3.4")), kStr("", 32), kStr("key", 32), kStr(sfill(40, 'k'), 64), kBin([]byte{9, 8, 7}, 3), kBin(nil, 0)}
	for _, k := range bases {
		for _, n := range lens {
			for f := 0; f < 4; f++ {
				v := entryVal{5, f&1 > 0, 9, f&2 > 0, k, []dataVal{dInt(4, 300), dFreq(3, 1, 2, 3)}}
				e.Case(func() string { return fmt.Sprintf("key length %d for %s", n, v) }, func(c *EC) {
					c.Ops++
					v.key.size = n
					d := v.def()
					b, whole := guarded(512, 24)
					m, err, pan := callMarshal(v.entry(d).Marshal, b)
					if pan != "" || !canaryOK(whole, 512) {
						c.Fail("encoding with key length %d: panic %q or write outside the buffer", n, pan)
						return
					}
					c.Outcome = fmt.Sprint(err == nil)
					if err != nil {
						return
					}
					g := sticktable.EntryUpdate{StickTable: d, WithLocalUpdateID: v.withID, WithExpiry: v.timed}
					l, err := g.Unmarshal(append([]byte{}, b[:m]...))
					if err != nil || l != m {
						c.Fail("decoding what was encoded with key length %d: %d of %d bytes, err %v (%x)", n, l, m, err, b[:m])
						return
					}
					ref := v.entry(d)
					if k.typ == sticktable.KeyTypeBinary {
						p := make(sticktable.BinaryKey, n)
						copy(p, k.wire)
						ref.Key = &p
					}
					if a, b := showEntry(&g), showEntry(ref); a != b {
						c.Fail("key length %d: decoded %s, want %s", n, a, b)
					}
				})
			}
		}
	}
}
