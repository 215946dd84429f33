package main

// Reference codecs, written from the SPOE and peers specifications. They
// share no code with the library.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/netip"
	"strings"
)

// ---------------------------------------------------------------- varint

func refVarint(v uint64) []byte {
	if v < 240 {
		return []byte{byte(v)}
	}
	out := []byte{byte(v&15) | 240}
	v = (v - 240) >> 4
	for v >= 128 {
		out = append(out, byte(v&127)|128)
		v = (v - 128) >> 7
	}
	return append(out, byte(v))
}

// refReadVarint returns n=0 when the sequence is not terminated.
func refReadVarint(b []byte) (v uint64, n int) {
	if len(b) == 0 {
		return 0, 0
	}
	if b[0] < 240 {
		return uint64(b[0]), 1
	}
	v = uint64(b[0])
	sh := uint(4)
	for i := 1; i < len(b); i++ {
		if sh < 64 {
			v += uint64(b[i]) << sh
		}
		sh += 7
		if b[i] < 128 {
			return v, i + 1
		}
	}
	return 0, 0
}

func refBytes(b []byte) []byte { return append(refVarint(uint64(len(b))), b...) }
func refStr(s string) []byte   { return refBytes([]byte(s)) }

// ---------------------------------------------------------------- KV

type KV struct {
	Name string
	Type byte // wire type 0..9
	B    bool
	I    uint64
	S    []byte // address, string, binary
}

func (k KV) String() string {
	switch k.Type {
	case 0:
		return fmt.Sprintf("%q=null", k.Name)
	case 1:
		return fmt.Sprintf("%q=%v", k.Name, k.B)
	case 2, 3, 4, 5:
		return fmt.Sprintf("%q=int%d(%#x)", k.Name, k.Type, k.I)
	}
	if len(k.S) > 24 {
		return fmt.Sprintf("%q=t%d(%d bytes %s)", k.Name, k.Type, len(k.S), short(k.S))
	}
	return fmt.Sprintf("%q=t%d(%x)", k.Name, k.Type, k.S)
}

func (k KV) Equal(o KV) bool {
	return k.Name == o.Name && k.Type == o.Type && k.B == o.B && k.I == o.I && bytes.Equal(k.S, o.S)
}

func refTyped(k KV) []byte {
	switch k.Type {
	case 0:
		return []byte{0}
	case 1:
		if k.B {
			return []byte{0x11}
		}
		return []byte{0x01}
	case 2, 3, 4, 5:
		return append([]byte{k.Type}, refVarint(k.I)...)
	case 6, 7:
		return append([]byte{k.Type}, k.S...)
	default:
		return append([]byte{k.Type}, refBytes(k.S)...)
	}
}

func refKV(k KV) []byte { return append(refStr(k.Name), refTyped(k)...) }

func refKVs(ks ...KV) []byte {
	var b []byte
	for _, k := range ks {
		b = append(b, refKV(k)...)
	}
	return b
}

// refParseKV reads one entry; n=0 means malformed.
func refParseKV(b []byte) (k KV, n int) {
	l, m := refReadVarint(b)
	if m == 0 || l > uint64(len(b)-m) {
		return k, 0
	}
	k.Name = string(b[m : m+int(l)])
	p := m + int(l)
	if p >= len(b) {
		return k, 0
	}
	t := b[p]
	p++
	k.Type = t & 15
	switch k.Type {
	case 0:
		return k, p
	case 1:
		k.B = t&0x10 != 0
		return k, p
	case 2, 3, 4, 5:
		v, m := refReadVarint(b[p:])
		if m == 0 {
			return k, 0
		}
		k.I = v
		return k, p + m
	case 6, 7:
		sz := 4
		if k.Type == 7 {
			sz = 16
		}
		if len(b)-p < sz {
			return k, 0
		}
		k.S = append([]byte{}, b[p:p+sz]...)
		return k, p + sz
	case 8, 9:
		l, m := refReadVarint(b[p:])
		if m == 0 || l > uint64(len(b)-p-m) {
			return k, 0
		}
		p += m
		k.S = append([]byte{}, b[p:p+int(l)]...)
		return k, p + int(l)
	}
	return k, 0
}

// refScanKV parses up to count entries (count<0: all).
func refScanKV(b []byte, count int) (ks []KV, used int, ok bool) {
	for used < len(b) && count != 0 {
		k, n := refParseKV(b[used:])
		if n == 0 {
			return ks, used, false
		}
		ks = append(ks, k)
		used += n
		count--
	}
	return ks, used, true
}

// ---------------------------------------------------------------- messages

type Msg struct {
	Name string
	KVs  []KV
}

func (m Msg) String() string {
	var s []string
	for _, k := range m.KVs {
		s = append(s, k.String())
	}
	return m.Name + "(" + strings.Join(s, " ") + ")"
}

func refMsg(m Msg) []byte {
	b := refStr(m.Name)
	b = append(b, byte(len(m.KVs)))
	return append(b, refKVs(m.KVs...)...)
}

func refMsgs(ms ...Msg) []byte {
	var b []byte
	for _, m := range ms {
		b = append(b, refMsg(m)...)
	}
	return b
}

// refScanMsgs: ok=false when the list is malformed. A message that declares
// more arguments than the list holds is malformed.
func refScanMsgs(b []byte) (ms []Msg, ok bool) {
	for len(b) > 0 {
		l, m := refReadVarint(b)
		if m == 0 || l > uint64(len(b)-m) {
			return ms, false
		}
		name := string(b[m : m+int(l)])
		b = b[m+int(l):]
		if len(b) == 0 {
			return ms, false
		}
		n := int(b[0])
		ks, used, ok := refScanKV(b[1:], n)
		if !ok {
			return ms, false
		}
		if len(ks) != n {
			return append(ms, Msg{name, ks}), false
		}
		ms = append(ms, Msg{name, ks})
		b = b[1+used:]
	}
	return ms, true
}

// refLead lists the messages a handler may see of a message list that is
// malformed somewhere: the ones before the defect and the one which has it,
// with the arguments before the defect.
func refLead(b []byte) (ms []Msg) {
	for len(b) > 0 {
		l, m := refReadVarint(b)
		if m == 0 || l >= uint64(len(b)-m) {
			return ms
		}
		name := string(b[m : m+int(l)])
		n := int(b[m+int(l)])
		b = b[m+int(l)+1:]
		ks, used, ok := refScanKV(b, n)
		ms = append(ms, Msg{name, ks})
		if !ok || len(ks) != n {
			return ms
		}
		b = b[used:]
	}
	return ms
}

// ---------------------------------------------------------------- actions

type Action struct {
	Set   bool
	Scope byte
	Name  string
	Val   KV // Name unused
}

func (a Action) String() string {
	if !a.Set {
		return fmt.Sprintf("unset(%d,%q)", a.Scope, a.Name)
	}
	v := a.Val
	v.Name = a.Name
	return fmt.Sprintf("set(%d,%s)", a.Scope, v)
}

func refAction(a Action) []byte {
	if !a.Set {
		return append([]byte{2, 2, a.Scope}, refStr(a.Name)...)
	}
	b := append([]byte{1, 3, a.Scope}, refStr(a.Name)...)
	return append(b, refTyped(a.Val)...)
}

func refActions(as ...Action) []byte {
	var b []byte
	for _, a := range as {
		b = append(b, refAction(a)...)
	}
	return b
}

func kvStr(n, v string) KV { return KV{Name: n, Type: 8, S: []byte(v)} }
func kvBin(n string, v []byte) KV {
	return KV{Name: n, Type: 9, S: v}
}
func kvU32(n string, v uint32) KV { return KV{Name: n, Type: 3, I: uint64(v)} }
func kvI64(n string, v int64) KV  { return KV{Name: n, Type: 4, I: uint64(v)} }
func kvI32(n string, v int32) KV  { return KV{Name: n, Type: 2, I: uint64(int64(v))} }
func kvBool(n string, v bool) KV  { return KV{Name: n, Type: 1, B: v} }
func kvNull(n string) KV          { return KV{Name: n} }
func kvAddr(n string, a netip.Addr) KV {
	t := byte(6)
	if a.Is6() {
		t = 7
	}
	return KV{Name: n, Type: t, S: a.AsSlice()}
}

// ---------------------------------------------------------------- SPOP frames

const (
	fHello   = 1
	fDisc    = 2
	fNotify  = 3
	fAHello  = 101
	fADisc   = 102
	fAck     = 103
	flagFin  = 1
	flagAbrt = 2
)

type Frame struct {
	Type     byte
	Flags    uint32
	Stream   uint64
	ID       uint64
	Payload  []byte
	Len      int
	Off, End int // offsets on the wire
}

func refFrame(t byte, flags uint32, stream, id uint64, payload []byte) []byte {
	body := []byte{t}
	body = binary.BigEndian.AppendUint32(body, flags)
	body = append(body, refVarint(stream)...)
	body = append(body, refVarint(id)...)
	body = append(body, payload...)
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(body))), body...)
}

// refParseFrames cuts b into frames. rest is what follows the last complete
// frame; err describes structurally impossible content.
func refParseFrames(b []byte) (fs []Frame, rest []byte, err error) {
	off := 0
	for len(b)-off >= 4 {
		l := int(binary.BigEndian.Uint32(b[off:]))
		if len(b)-off-4 < l {
			break
		}
		body := b[off+4 : off+4+l]
		f := Frame{Len: l, Off: off, End: off + 4 + l}
		if l < 7 {
			return fs, b[off:], fmt.Errorf("frame of %d bytes at offset %d", l, off)
		}
		f.Type = body[0]
		f.Flags = binary.BigEndian.Uint32(body[1:])
		s, n := refReadVarint(body[5:])
		if n == 0 {
			return fs, b[off:], fmt.Errorf("bad stream id at offset %d", off)
		}
		i, m := refReadVarint(body[5+n:])
		if m == 0 {
			return fs, b[off:], fmt.Errorf("bad frame id at offset %d", off)
		}
		f.Stream, f.ID = s, i
		f.Payload = body[5+n+m:]
		fs = append(fs, f)
		off = f.End
	}
	return fs, b[off:], nil
}

func refHello(size uint32, extra ...KV) []byte {
	ks := []KV{kvStr("supported-versions", "2.0"), kvU32("max-frame-size", size), kvStr("capabilities", "pipelining"), kvStr("engine-id", "E1")}
	return refFrame(fHello, flagFin, 0, 0, refKVs(append(ks, extra...)...))
}

func refNotify(stream, id uint64, ms ...Msg) []byte {
	return refFrame(fNotify, flagFin, stream, id, refMsgs(ms...))
}

func refDisconnect(code uint32, msg string) []byte {
	return refFrame(fDisc, flagFin, 0, 0, refKVs(kvU32("status-code", code), kvStr("message", msg)))
}

func refAckBytes(stream, id uint64, as ...Action) []byte {
	return refFrame(fAck, flagFin, stream, id, refActions(as...))
}

// ---------------------------------------------------------------- peers messages

type PMsg struct {
	Class, Type byte
	Data        []byte
	Off, End    int
}

func (m PMsg) String() string { return fmt.Sprintf("%d/%d[%d]", m.Class, m.Type, len(m.Data)) }

func refPMsg(class, typ byte, data []byte) []byte {
	b := []byte{class, typ}
	if typ >= 128 {
		b = append(b, refBytes(data)...)
	}
	return b
}

func refParsePMsgs(b []byte) (ms []PMsg, rest []byte) {
	off := 0
	for len(b)-off >= 2 {
		m := PMsg{Class: b[off], Type: b[off+1], Off: off}
		p := off + 2
		if m.Type >= 128 {
			l, n := refReadVarint(b[p:])
			if n == 0 || l > uint64(len(b)-p-n) {
				break
			}
			p += n
			m.Data = b[p : p+int(l)]
			p += int(l)
		}
		m.End = p
		ms = append(ms, m)
		off = p
	}
	return ms, b[off:]
}
