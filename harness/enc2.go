package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/netip"
	"reflect"

	"github.com/dropmorepackets/haproxy-go/pkg/buffer"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/sched"
)

func init() {
	enumParts = append(enumParts,
		&EnumPart{"buffer-ops", []string{"C21"}, bufferOps},
		&EnumPart{"pool-scripts", []string{"C22"}, poolScripts},
		&EnumPart{"pool-interleaved", []string{"C22"}, poolInterleaved},
		&EnumPart{"unmarshal-types", []string{"C05", "C22"}, unmarshalTypes})
	initShared()
}

// ---------------------------------------------------------------- C21

type bufModel struct {
	data []byte // everything written since the last reset
	r    int
	free int
}

func bufferOps(e *Enum) {
	type op struct {
		name string
		kind int
		n    int
	}
	ops := []op{
		{"write 1 via WriteNBytes", 0, 1}, {"write 3 via WriteNBytes", 0, 3}, {"WriteNBytes(0)", 0, 0},
		{"read 1 via ReadNBytes", 1, 1}, {"read 2 via ReadNBytes", 1, 2}, {"ReadNBytes(0)", 1, 0},
		{"write 1 via WriteBytes", 2, 1}, {"write 2 via WriteBytes", 2, 2},
		{"read 1 via ReadBytes", 3, 1}, {"read all via ReadBytes", 3, -1},
		{"Grow(1)", 4, 1}, {"Grow(5)", 4, 5}, {"Reset", 5, 0},
	}
	depth := 6
	if e.Thorough() {
		depth = 7
	}
	type start struct {
		name string
		mk   func() (*buffer.SliceBuffer, []byte, []byte)
	}
	var starts []start
	for _, n := range []int{0, 1, 2, 4, 7} {
		starts = append(starts, start{fmt.Sprintf("NewSliceBuffer(%d)", n), func() (*buffer.SliceBuffer, []byte, []byte) {
			return buffer.NewSliceBuffer(n), nil, nil
		}})
	}
	for _, n := range []int{0, 1, 3, 6} {
		starts = append(starts, start{fmt.Sprintf("NewSliceBufferWithSlice(%d bytes)", n), func() (*buffer.SliceBuffer, []byte, []byte) {
			b, whole := guarded(n, 6)
			for i := range b {
				b[i] = byte('A' + i)
			}
			return buffer.NewSliceBufferWithSlice(b), append([]byte{}, b...), whole
		}})
	}
	idx := make([]byte, len(ops))
	for i := range idx {
		idx[i] = byte(i)
	}
	run := func(c *EC, st start, seq []byte) bool {
		b, init, whole := st.mk()
		m := bufModel{data: init, free: len(b.WriteBytes())}
		next := byte(1)
		type handed struct {
			b    []byte
			want []byte
		}
		var out []handed
		for i, oi := range seq {
			o := ops[oi]
			c.Ops++
			bad := func(f string, a ...any) bool {
				var l []string
				for _, x := range seq[:i+1] {
					l = append(l, ops[x].name)
				}
				c.Fail("%s, %v: %s", st.name, l, fmt.Sprintf(f, a...))
				return false
			}
			fill := func(p []byte) {
				for j := range p {
					p[j] = next
					m.data = append(m.data, next)
					next++
				}
			}
			switch o.kind {
			case 0:
				if o.n > m.free {
					return true // outside the contract
				}
				p := b.WriteNBytes(o.n)
				if len(p) != o.n {
					return bad("got %d bytes to write to", len(p))
				}
				fill(p)
				m.free -= o.n
			case 1:
				if o.n > len(m.data)-m.r {
					return true
				}
				p := b.ReadNBytes(o.n)
				if !bytes.Equal(p, m.data[m.r:m.r+o.n]) {
					return bad("read %x, written was %x", p, m.data[m.r:m.r+o.n])
				}
				out = append(out, handed{p, m.data[m.r : m.r+o.n]})
				m.r += o.n
			case 2:
				if o.n > m.free {
					return true
				}
				p := b.WriteBytes()
				if len(p) < o.n {
					return bad("only %d writable bytes, %d expected", len(p), m.free)
				}
				fill(p[:o.n])
				b.AdvanceW(o.n)
				m.free -= o.n
			case 3:
				n := o.n
				if n < 0 {
					n = len(m.data) - m.r
				}
				if n > len(m.data)-m.r {
					return true
				}
				p := b.ReadBytes()
				if len(p) < n {
					return bad("only %d readable bytes, %d written", len(p), len(m.data)-m.r)
				}
				out = append(out, handed{p[:n], m.data[m.r : m.r+n]})
				b.AdvanceR(n)
				m.r += n
			case 4:
				b.Grow(o.n)
				f := len(b.WriteBytes())
				if f < o.n || f < m.free {
					return bad("%d writable bytes behind Grow, %d before", f, m.free)
				}
				m.free = f
			case 5:
				total := len(m.data) + m.free
				b.Reset()
				f := len(b.WriteBytes())
				if f < total {
					return bad("%d writable bytes behind Reset, the buffer holds %d", f, total)
				}
				m = bufModel{free: f}
				out = nil
			}
			if n := b.Len(); n != len(m.data)-m.r {
				return bad("Len() = %d, %d bytes are unread", n, len(m.data)-m.r)
			}
			if p := b.ReadBytes(); !bytes.Equal(p, m.data[m.r:]) {
				return bad("unread bytes are %x, want %x", p, m.data[m.r:])
			}
			if n := len(b.WriteBytes()); n != m.free {
				return bad("%d writable bytes, want %d", n, m.free)
			}
			for _, h := range out {
				if !bytes.Equal(h.b, h.want) {
					return bad("bytes read earlier changed from %x to %x", h.want, h.b)
				}
			}
			if whole != nil && !canaryOK(whole, len(init)) {
				return bad("wrote behind the given slice")
			}
		}
		return true
	}
	words(idx, 3, func(p []byte) {
		if len(p) != 3 || e.Stop() {
			return
		}
		pre := append([]byte{}, p...)
		for _, st := range starts {
			e.Case(func() string { return fmt.Sprintf("%s, operations %v...", st.name, pre) }, func(c *EC) {
				words(idx, depth-3, func(s []byte) {
					if len(s) == depth-3 && len(c.fails) == 0 {
						run(c, st, append(pre[:3:3], s...))
					}
				})
				c.Outcome = st.name + fmt.Sprint(pre)
			})
		}
	})
	// frame sized buffers
	for _, n := range []int{255, 256, 65535, 65536, 1 << 20} {
		for _, g := range []int{0, 1, 255, 65536, 1 << 17} {
			e.Case(func() string { return fmt.Sprintf("size %d, grown by %d", n, g) }, func(c *EC) {
				c.Ops++
				b := buffer.NewSliceBuffer(n)
				want := pattern(n/2, n)
				copy(b.WriteNBytes(n/2), want)
				first := append([]byte{}, b.ReadNBytes(n/4)...)
				b.Grow(g)
				if len(b.WriteBytes()) < g || len(b.WriteBytes()) < n-n/2 {
					c.Fail("%d writable bytes", len(b.WriteBytes()))
				}
				k := len(b.WriteBytes())
				more := pattern(k, g)
				copy(b.WriteBytes(), more)
				b.AdvanceW(k)
				if got := append(first, b.ReadBytes()...); !bytes.Equal(got, append(want, more...)) {
					c.Fail("content changed")
				}
				b.Reset()
				if b.Len() != 0 || len(b.ReadBytes()) != 0 {
					c.Fail("not empty behind Reset")
				}
				c.Outcome = fmt.Sprint(k)
			})
		}
	}
}

// ---------------------------------------------------------------- C22

type script struct {
	name string
	run  func() error // the error is a wrong result
}

func eqErr(what string, got, want any) error {
	if reflect.DeepEqual(got, want) {
		return nil
	}
	return fmt.Errorf("%s is %v, want %v", what, got, want)
}

// userScripts are complete uses of pooled objects, ended in every way a user
// may end them. Each checks its own results against the reference.
func userScripts(yield func(string)) []script {
	kvs := []KV{kvStr("a", "x"), kvI32("b", -7), kvBool("c", true), kvAddr("d", addr6), kvBin("e", []byte{1, 2})}
	raw := refKVs(kvs...)
	scan := func(name string, buf []byte, count, take int, want []KV, wantErr bool, left int) script {
		return script{name, func() (err error) {
			s := encoding.AcquireKVScanner(buf, count)
			defer encoding.ReleaseKVScanner(s)
			if s.Error() != nil {
				return fmt.Errorf("new scanner has error %v", s.Error())
			}
			k := encoding.AcquireKVEntry()
			defer encoding.ReleaseKVEntry(k)
			if len(k.NameBytes()) != 0 || len(k.ValueBytes()) != 0 || k.ValueInt() != 0 || k.ValueBool() || k.Type() != 0 {
				return fmt.Errorf("new entry is not empty: %v", fromEntry(k))
			}
			var got []KV
			for i := 0; i != take; i++ {
				yield("next")
				if !s.Next(k) {
					break
				}
				got = append(got, fromEntry(k))
			}
			yield("done")
			if !sameKVs(got, want) {
				return fmt.Errorf("%s: entries %s, want %s", name, showKVs(got), showKVs(want))
			}
			if (s.Error() != nil) != wantErr {
				return fmt.Errorf("%s: error %v", name, s.Error())
			}
			if left >= 0 && s.RemainingBuf() != left {
				return fmt.Errorf("%s: %d bytes left, want %d", name, s.RemainingBuf(), left)
			}
			return nil
		}}
	}
	msgs := []Msg{{"m1", kvs[:2]}, {"m2", nil}, {"m3", kvs[2:]}}
	mraw := refMsgs(msgs...)
	msg := func(name string, buf []byte, want []Msg, consume, stop int, wantErr bool) script {
		return script{name, func() error {
			s := encoding.AcquireMessageScanner(buf)
			defer encoding.ReleaseMessageScanner(s)
			m := encoding.AcquireMessage()
			defer encoding.ReleaseMessage(m)
			if m.KV != nil || len(m.NameBytes()) != 0 {
				return errors.New("new message is not empty")
			}
			k := encoding.AcquireKVEntry()
			defer encoding.ReleaseKVEntry(k)
			i := 0
			for ; i != stop; i++ {
				yield("message")
				if !s.Next(m) {
					break
				}
				if i >= len(want) {
					return fmt.Errorf("%s: more than %d messages: %q", name, len(want), m.NameBytes())
				}
				if string(m.NameBytes()) != want[i].Name {
					return fmt.Errorf("%s: message %d is %q, want %q", name, i, m.NameBytes(), want[i].Name)
				}
				n := 0
				for n != consume && m.KV.Next(k) {
					if n >= len(want[i].KVs) || !fromEntry(k).Equal(want[i].KVs[n]) {
						return fmt.Errorf("%s: argument %d of %q is %v", name, n, want[i].Name, fromEntry(k))
					}
					n++
					yield("argument")
				}
				if string(m.NameBytes()) != want[i].Name {
					return fmt.Errorf("%s: message %d became %q", name, i, m.NameBytes())
				}
				if err := m.KV.Discard(); err != nil && !wantErr {
					return fmt.Errorf("%s: discard: %v", name, err)
				}
			}
			if stop < 0 && (s.Error() != nil) != wantErr {
				return fmt.Errorf("%s: error %v", name, s.Error())
			}
			if stop < 0 && !wantErr && i != len(want) {
				return fmt.Errorf("%s: %d messages, want %d", name, i, len(want))
			}
			return nil
		}}
	}
	// behind a use its buffer belongs to the caller alone
	mine := func(b []byte) error {
		p := pattern(len(b), len(b))
		copy(b, p)
		yield("own buffer")
		if !bytes.Equal(b, p) {
			return fmt.Errorf("the caller's buffer changed after the use")
		}
		return nil
	}
	kvw := func(name string, capacity, off int, n int) script {
		return script{name, func() (err error) {
			b := make([]byte, capacity)
			w := encoding.AcquireKVWriter(b, off)
			defer func() {
				encoding.ReleaseKVWriter(w)
				if err == nil {
					err = mine(b)
				}
			}()
			if err := eqErr("offset of a new writer", w.Off(), off); err != nil {
				return err
			}
			model := append([]byte{}, b[:off]...)
			for i := 0; i < n; i++ {
				kv := kvStr(fmt.Sprintf("k%d", i), fmt.Sprintf("value %d of %s", i, name))
				yield("write")
				err := w.SetString(kv.Name, string(kv.S))
				if enc := refKV(kv); len(model)+len(enc) <= capacity {
					if err != nil {
						return err
					}
					model = append(model, enc...)
				} else if err == nil {
					return fmt.Errorf("%s: write succeeded without room", name)
				}
				yield("written")
				if !bytes.Equal(w.Bytes(), model) {
					return fmt.Errorf("%s: content is %x, want %x", name, w.Bytes(), model)
				}
			}
			return nil
		}}
	}
	act := func(name string, capacity, off int, n int) script {
		return script{name, func() (err error) {
			b := make([]byte, capacity)
			w := encoding.AcquireActionWriter(b, off)
			defer func() {
				encoding.ReleaseActionWriter(w)
				if err == nil {
					err = mine(b)
				}
			}()
			if err := eqErr("offset of a new action writer", w.Off(), off); err != nil {
				return err
			}
			model := append([]byte{}, b[:off]...)
			for i := 0; i < n; i++ {
				a := Action{true, byte(i % 5), fmt.Sprintf("k%d", i), kvStr("", fmt.Sprintf("value %d of %s", i, name))}
				if i%3 == 2 {
					a = Action{Scope: byte(i % 5), Name: a.Name}
				}
				yield("write")
				if i%4 == 3 {
					if err := w.SetAddr(encoding.VarScopeProcess, "bad", netip.Addr{}); err == nil {
						return fmt.Errorf("%s: invalid address accepted", name)
					}
				}
				if err := doAct(w, a); err != nil {
					return err
				}
				model = append(model, refAction(a)...)
				yield("written")
				if !bytes.Equal(w.Bytes(), model) {
					return fmt.Errorf("%s: content is %x, want %x", name, w.Bytes(), model)
				}
			}
			return nil
		}}
	}
	unm := func(name string, ks []KV, fail bool) script {
		return script{name, func() error {
			s := encoding.AcquireKVScanner(refKVs(ks...), len(ks))
			defer encoding.ReleaseKVScanner(s)
			var t target
			yield("unmarshal")
			err := s.Unmarshal(&t)
			yield("unmarshalled")
			if (err != nil) != fail {
				return fmt.Errorf("%s: %v", name, err)
			}
			if fail {
				return nil
			}
			if t.PS == nil != (ks[0].Name != "ps") || t.S != string(ks[len(ks)-1].S) {
				return fmt.Errorf("%s: got %+v", name, t)
			}
			return nil
		}}
	}
	bad := append(refKVs(kvs[:2]...), 1, 'z', 0x0f, 1)
	cut := raw[:len(raw)-1]
	return []script{
		scan("scan all", raw, -1, -1, kvs, false, 0),
		scan("scan by count", raw, 3, -1, kvs[:3], false, len(refKVs(kvs[3:]...))),
		scan("scan two and leave", raw, -1, 2, kvs[:2], false, -1),
		scan("scan nothing", raw, 5, 0, nil, false, len(raw)),
		scan("scan malformed", bad, -1, -1, kvs[:2], true, -1),
		scan("scan truncated", cut, 5, -1, kvs[:4], true, -1),
		scan("scan empty", nil, -1, -1, nil, false, 0),
		scan("scan empty by count", nil, 2, -1, nil, true, 0),
		msg("all messages", mraw, msgs, -1, -1, false),
		msg("messages, arguments unread", mraw, msgs, 0, -1, false),
		msg("messages, one argument each", mraw, msgs, 1, -1, false),
		msg("first message only", mraw, msgs, 1, 1, false),
		msg("malformed message", append(mraw[:len(mraw):len(mraw)], 2, 'b', 'd', 1, 1, 'k', 8, 200), append(msgs, Msg{Name: "bd"}), -1, -1, true),
		msg("truncated message", mraw[:len(mraw)-3], msgs, 5, -1, true),
		kvw("key/values", 200, 0, 3),
		kvw("key/values behind an offset", 90, 7, 4),
		kvw("key/values without room", 10, 0, 2),
		act("actions", 0, 0, 5),
		act("actions behind an offset", 40, 9, 4),
		act("one action that does not fit", 10, 0, 1),
		act("actions in a big buffer", 1000, 0, 3),
		unm("unmarshal", []KV{kvStr("ps", "1"), kvU32("u32", 9), kvStr("s", "2")}, false),
		unm("unmarshal fails", []KV{kvStr("s", "3"), kvStr("u32", "4")}, true),
	}
}

func poolScripts(e *Enum) {
	none := func(string) {}
	s := userScripts(none)
	n := 3
	if e.Thorough() {
		n = 4
	}
	run := func(seq []byte) {
		seq = append([]byte{}, seq...)
		e.Case(func() string {
			l := ""
			for _, i := range seq {
				l += s[i].name + "; "
			}
			return l
		}, func(c *EC) {
			for j, i := range seq {
				c.Ops++
				if err := s[i].run(); err != nil {
					c.Fail("%s (use %d): %v", s[i].name, j+1, err)
					return
				}
			}
			c.Outcome = fmt.Sprint(seq)
		})
	}
	idx := make([]byte, len(s))
	for i := range idx {
		idx[i] = byte(i)
	}
	words(idx, n, func(p []byte) {
		if len(p) == n && !e.Stop() {
			run(p)
		}
	})
	// one use inside another: at every step of the outer use, a complete
	// inner use
	for i := range s {
		for j := range s {
			for at := 0; at < 12; at++ {
				e.Case(func() string { return fmt.Sprintf("%s, inside it at step %d %s", s[i].name, at, s[j].name) }, func(c *EC) {
					c.Ops++
					k := 0
					var inner error
					outer := userScripts(func(string) {
						if k == at {
							k++
							inner = s[j].run()
							return
						}
						k++
					})[i]
					err := outer.run()
					if err != nil {
						c.Fail("%v", err)
					}
					if inner != nil {
						c.Fail("inner use: %v", inner)
					}
					c.Outcome = fmt.Sprint(i, j, at < k)
				})
			}
		}
	}
}

// poolInterleaved: two uses advanced step by step in every order.
func poolInterleaved(e *Enum) {
	n := len(userScripts(func(string) {}))
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			if e.Stop() {
				return
			}
			e.Case(func() string {
				s := userScripts(nil)
				return "interleaved: " + s[i].name + " / " + s[j].name
			}, func(c *EC) {
				// coroutines: the steps of a use are its yields
				limit := 6
				if e.Thorough() {
					limit = 8
				}
				words([]byte{0, 1}, limit, func(p []byte) {
					if len(p) != limit || len(c.fails) > 0 {
						return
					}
					c.Ops++
					type co struct {
						go_, did chan bool
						done     bool
						err      error
					}
					var cs [2]*co
					for x, id := range []int{i, j} {
						q := &co{go_: make(chan bool), did: make(chan bool)}
						cs[x] = q
						sc := userScripts(func(string) { q.did <- true; <-q.go_ })[id]
						go func() {
							<-q.go_
							defer func() {
								if r := recover(); r != nil {
									q.err = fmt.Errorf("panic: %v", r)
								}
								q.done = true
								q.did <- true
							}()
							q.err = sc.run()
						}()
					}
					step := func(q *co) {
						if !q.done {
							q.go_ <- true
							<-q.did
						}
					}
					for _, x := range p {
						step(cs[x])
					}
					for _, q := range cs {
						for !q.done {
							step(q)
						}
						if q.err != nil {
							c.Fail("order %v: %v", p, q.err)
						}
					}
				})
				c.Outcome = fmt.Sprint(i, j)
			})
		}
	}
}

// ---------------------------------------------------------------- C05, types

type tA struct {
	S string `spoe:"s"`
	N int32  `spoe:"n"`
}
type tB struct {
	N int32  `spoe:"n"`
	S string `spoe:"s"`
}
type tC struct {
	S []byte `spoe:"s"`
	N *int32 `spoe:"n"`
	X string
}
type tD struct {
	X, Y string
	N    int64   `spoe:"n"`
	S    *string `spoe:"s"`
}
type tE struct{}
type tF struct {
	N string `spoe:"n"`
	S string `spoe:"s"`
}
type tG struct {
	A, B, C, D, E, F, G, H string
	S                      string `spoe:"s"`
	N                      *int32 `spoe:"n,omitempty"`
	T                      *bool  `spoe:"t"`
}

func localT1() any {
	type T struct {
		S string `spoe:"s"`
		N int32  `spoe:"n"`
	}
	return &T{}
}
func localT2() any {
	type T struct {
		S string `spoe:"n"`
		N int32  `spoe:"s"`
	}
	return &T{}
}
func localT3() any {
	type T struct {
		N *int32 `spoe:"n"`
		_ int
		S []byte `spoe:"s"`
	}
	return &T{}
}

// refInto assigns by name and tag, independent of the library.
func refInto(v reflect.Value, ks []KV) bool {
	t := v.Type()
	kind := func(ft reflect.Type) string {
		switch ft.Kind() {
		case reflect.Slice:
			return "bytes"
		}
		return ft.Kind().String()
	}
	seen := map[int]bool{}
	for _, k := range ks {
		for i := 0; i < t.NumField(); i++ {
			tag := t.Field(i).Tag.Get("spoe")
			if j := bytes.IndexByte([]byte(tag), ','); j >= 0 {
				tag = tag[:j]
			}
			if tag == "" || tag != k.Name {
				continue
			}
			ft := t.Field(i).Type
			dst := v.Field(i)
			if ft.Kind() == reflect.Pointer {
				seen[i] = true
				if k.Type == 0 {
					dst.Set(reflect.Zero(ft))
					break
				}
				ft = ft.Elem()
				n := reflect.New(ft)
				dst.Set(n)
				dst = n.Elem()
			}
			if _, ok := refAssign(kind(ft), k); !ok {
				return false
			}
			switch ft.Kind() {
			case reflect.String:
				dst.SetString(string(k.S))
			case reflect.Slice:
				dst.SetBytes(append([]byte{}, k.S...))
			case reflect.Int32, reflect.Int64:
				dst.SetInt(int64(k.I))
				if ft.Kind() == reflect.Int32 {
					dst.SetInt(int64(int32(k.I)))
				}
			case reflect.Bool:
				dst.SetBool(k.B)
			}
			break
		}
	}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type.Kind() == reflect.Pointer && !seen[i] && t.Field(i).Tag.Get("spoe") != "" {
			v.Field(i).Set(reflect.Zero(t.Field(i).Type))
		}
	}
	return true
}

var typeMakers = []struct {
	name string
	mk   func() any
}{
	{"A", func() any { return &tA{} }}, {"B", func() any { return &tB{} }}, {"C", func() any { return &tC{X: "keep"} }},
	{"D", func() any { s := "old"; return &tD{X: "x", Y: "y", S: &s} }}, {"E", func() any { return &tE{} }}, {"F", func() any { return &tF{} }},
	{"G", func() any { b := true; return &tG{A: "a", H: "h", T: &b} }}, {"local 1", localT1}, {"local 2", localT2}, {"local 3", localT3},
	{"anonymous 1", func() any {
		return &struct {
			S string `spoe:"s"`
		}{}
	}},
	{"anonymous 2", func() any {
		return &struct {
			S string `spoe:"n"`
		}{}
	}},
}

var typeLists = [][]KV{
	{kvStr("s", "v"), kvI32("n", 5)},
	{kvI32("n", -1), kvStr("s", "w")},
	{kvStr("s", "only")},
	{kvI32("s", 3), kvStr("n", "x")},
	{kvBool("t", false), kvNull("n"), kvStr("s", "")},
	nil,
}

func intoOnce(mk func() any, ks []KV) error {
	got, want := mk(), mk()
	ok := refInto(reflect.ValueOf(want).Elem(), ks)
	s := encoding.AcquireKVScanner(refKVs(ks...), len(ks))
	err := s.Unmarshal(got)
	encoding.ReleaseKVScanner(s)
	if ok != (err == nil) {
		return fmt.Errorf("%s into %T: %v", showKVs(ks), got, err)
	}
	noEmpty(got)
	noEmpty(want)
	if ok && !reflect.DeepEqual(got, want) {
		return fmt.Errorf("%s into %T: got %+v, want %+v", showKVs(ks), got, got, want)
	}
	return nil
}

// noEmpty makes nil and empty byte slices the same.
func noEmpty(p any) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.Len() == 0 && f.CanSet() {
			f.SetZero()
		}
	}
}

func unmarshalTypes(e *Enum) {
	type use struct{ t, l int }
	var uses []use
	for t := range typeMakers {
		for l := range typeLists {
			uses = append(uses, use{t, l})
		}
	}
	run := func(seq ...use) {
		e.Case(func() string {
			s := ""
			for _, u := range seq {
				s += fmt.Sprintf("%s into type %s; ", showKVs(typeLists[u.l]), typeMakers[u.t].name)
			}
			return s
		}, func(c *EC) {
			for _, u := range seq {
				c.Ops++
				if err := intoOnce(typeMakers[u.t].mk, typeLists[u.l]); err != nil {
					c.Fail("type %s: %v", typeMakers[u.t].name, err)
				}
			}
			c.Outcome = fmt.Sprint(seq)
		})
	}
	for _, a := range uses {
		for _, b := range uses {
			if e.Stop() {
				return
			}
			run(a, b)
			if e.Thorough() {
				for _, d := range uses {
					run(a, b, d)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- concurrent use

// initShared: goroutines that share nothing but the package.
func initShared() {
	type job struct{ a, b, c int }
	none := userScripts(func(string) {})
	n := len(none)
	// every pair, and triples of the decoders
	var jobs []job
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			jobs = append(jobs, job{i, j, -1})
		}
	}
	jobs = append(jobs, job{0, 8, 17}, job{4, 12, 0}, job{8, 9, 13}, job{17, 18, 15}, job{21, 21, 22}, job{14, 16, 17})
	mk := func(v int) *Case {
		jb := jobs[v]
		label := "concurrent: "
		for _, i := range []int{jb.a, jb.b, jb.c} {
			if i >= 0 {
				label += none[i].name + " / "
			}
		}
		c := &Case{Label: label}
		c.Cfg.NumCPU = 2
		c.Cfg.FineEnc = true
		done := 0
		c.Body = func(x *sched.Exec) {
			s := userScripts(sched.PointAt)
			for _, i := range []int{jb.a, jb.b, jb.c} {
				if i < 0 {
					continue
				}
				sched.Go(s[i].name, func() {
					for r := 0; r < 2; r++ {
						if err := s[i].run(); err != nil {
							c.Fail("C22", "%s: %v", s[i].name, err)
							if i >= 21 {
								c.Fail("C05", "%s: %v", s[i].name, err)
							}
						}
					}
					done++
				})
			}
		}
		c.Final = func(x *sched.Exec) {
			want := 2
			if jb.c >= 0 {
				want = 3
			}
			if done != want {
				c.Fail("C22", "only %d of %d uses finished", done, want)
			}
			c.Outcome = fmt.Sprint(done)
		}
		return c
	}
	scns = append(scns, &Scn{Name: "enc-shared", Props: []string{"C22"}, N: fixedN(len(jobs)), Make: mk,
		Quick: []Bound{{D: 2, Secs: 60}},
		Thor:  []Bound{{D: 3, Secs: 300}},
	})
	scns = append(scns, &Scn{Name: "enc-shared-fine", Props: []string{"C22"}, N: fixedN(len(jobs)), Make: mk,
		Quick: []Bound{{D: 1, Fine: true, Secs: 100}},
		Thor:  []Bound{{D: 2, Fine: true, Secs: 500}},
	})
	// struct decoding, all pairs of types
	nt := len(typeMakers)
	mk2 := func(v int) *Case {
		a, b := v/nt, v%nt
		c := &Case{Label: fmt.Sprintf("concurrent unmarshal into types %s and %s", typeMakers[a].name, typeMakers[b].name)}
		c.Cfg.NumCPU = 2
		c.Cfg.FineEnc = true
		done := 0
		c.Body = func(x *sched.Exec) {
			for i, t := range []int{a, b} {
				sched.Go(fmt.Sprint("unmarshal", i), func() {
					for r := 0; r < 2; r++ {
						if err := intoOnce(typeMakers[t].mk, typeLists[(i+r)%len(typeLists)]); err != nil {
							c.Fail("C05,C22", "type %s: %v", typeMakers[t].name, err)
						}
					}
					done++
				})
			}
		}
		c.Final = func(x *sched.Exec) {
			if done != 2 {
				c.Fail("C05,C22", "only %d of 2 goroutines finished", done)
			}
			c.Outcome = fmt.Sprint(a, b)
		}
		return c
	}
	scns = append(scns, &Scn{Name: "unmarshal-shared", Props: []string{"C05", "C22"}, N: fixedN(nt * nt), Make: mk2,
		Quick: []Bound{{D: 2, Secs: 20}, {D: 1, Fine: true, Secs: 40}},
		Thor:  []Bound{{D: 3, Secs: 60}, {D: 2, Fine: true, Secs: 300}},
	})
}
