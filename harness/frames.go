package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/sched"
	"verif/vsync"
)

// The public frame types: every frame written through them is one complete
// frame, or it is refused and nothing is written.

func init() {
	enumParts = append(enumParts,
		&EnumPart{"frame-values", []string{"C23"}, frameValues},
		&EnumPart{"frame-fail", []string{"C23"}, frameFail},
		&EnumPart{"frame-seq", []string{"C23"}, frameSeq})
	initFramesShared()
}

const frameMax = 64<<10 - 1

var (
	errWriter   = errors.New("writer failed")
	errCallback = errors.New("callback failed")
)

type fspec struct {
	name string
	mk   func() io.WriterTo
	want []byte // nil: refused
	err  error  // what the refusal has to be
	pan  bool   // the callback panics
}

func (f fspec) fit() fspec {
	if len(f.want) > 4+frameMax {
		f.want = nil
	}
	return f
}

func fAckOf(stream, id uint64, as ...Action) fspec {
	return fspec{name: fmt.Sprintf("ack %d/%d with %s", stream, id, clip(fmt.Sprint(as), 100)), mk: func() io.WriterTo {
		return &spop.AckFrame{StreamID: stream, FrameID: id, ActionWriterCallback: func(w *encoding.ActionWriter) error {
			for _, a := range as {
				if err := doAct(w, a); err != nil {
					return err
				}
			}
			return nil
		}}
	}, want: refAckBytes(stream, id, as...)}.fit()
}

func fAckBad(as []Action, pan bool) fspec {
	return fspec{name: fmt.Sprintf("ack whose callback fails (panic: %v) after %s", pan, clip(fmt.Sprint(as), 60)), mk: func() io.WriterTo {
		return &spop.AckFrame{StreamID: 7, FrameID: 8, ActionWriterCallback: func(w *encoding.ActionWriter) error {
			for _, a := range as {
				doAct(w, a)
			}
			if pan {
				panic(errCallback)
			}
			return fmt.Errorf("failed: %w", errCallback)
		}}
	}, err: errCallback, pan: pan}
}

func fHelloOf(version string, size uint32, caps ...string) fspec {
	return fspec{name: fmt.Sprintf("hello version %s size %d capabilities %s", clip(fmt.Sprintf("%q", version), 40), size, clip(fmt.Sprintf("%q", caps), 60)), mk: func() io.WriterTo {
		return &spop.AgentHelloFrame{Version: version, MaxFrameSize: size, Capabilities: caps}
	}, want: refFrame(fAHello, flagFin, 0, 0, refKVs(kvStr("version", version), kvU32("max-frame-size", size), kvStr("capabilities", strings.Join(caps, ","))))}.fit()
}

func fDiscOf(code int, msg string) fspec {
	return fspec{name: fmt.Sprintf("disconnect %d", code), mk: func() io.WriterTo {
		f := &spop.AgentDisconnectFrame{}
		for i := 0; i < code; i++ {
			f.ErrCode++
		}
		return f
	}, want: refFrame(fADisc, flagFin, 0, 0, refKVs(kvU32("status-code", uint32(code)), kvStr("message", msg)))}
}

func setAct(name string, n int) Action {
	return Action{Set: true, Scope: 1, Name: name, Val: kvStr("", sfill(n, 'v'))}
}

// call runs one WriteTo.
func (f fspec) call(w io.Writer) (n int64, err error, pan any) {
	defer func() { pan = recover() }()
	n, err = f.mk().WriteTo(w)
	return
}

// limited accepts k bytes and fails then.
type limited struct {
	bytes.Buffer
	k int // -1: no limit
}

func (l *limited) Write(p []byte) (int, error) {
	if l.k < 0 || len(p) <= l.k-l.Len() {
		return l.Buffer.Write(p)
	}
	n, _ := l.Buffer.Write(p[:l.k-l.Len()])
	return n, errWriter
}

// verify writes the frame to a writer that fails after k bytes (-1: never).
func (f fspec) verify(k int) error {
	w := &limited{k: k}
	n, err, pan := f.call(w)
	got := w.Bytes()
	switch {
	case f.pan:
		if pan != errCallback || len(got) > 0 {
			return fmt.Errorf("%s: panic %v, %d bytes written", f.name, pan, len(got))
		}
	case pan != nil:
		return fmt.Errorf("%s: panic %v", f.name, pan)
	case f.want == nil:
		if err == nil || len(got) > 0 || n != 0 {
			return fmt.Errorf("%s: it cannot be sent, but WriteTo returned %d, %v and wrote %d bytes", f.name, n, err, len(got))
		}
		if f.err != nil && !errors.Is(err, f.err) {
			return fmt.Errorf("%s: error %v, want %v", f.name, err, f.err)
		}
	case k < 0 || k >= len(f.want):
		if err != nil || n != int64(len(f.want)) || !bytes.Equal(got, f.want) {
			return fmt.Errorf("%s: WriteTo returned %d, %v and wrote %s, want %s", f.name, n, err, short(got), short(f.want))
		}
	default:
		if !errors.Is(err, errWriter) || n != int64(k) || !bytes.Equal(got, f.want[:k]) {
			return fmt.Errorf("%s: the writer failed after %d of %d bytes, WriteTo returned %d, %v, written is %s", f.name, k, len(f.want), n, err, short(got))
		}
	}
	return nil
}

var discMsgs = map[int]string{0: "normal", 1: "I/O error", 2: "a timeout occurred", 3: "frame is too big", 4: "invalid frame received",
	5: "version value not found", 6: "max-frame-size value not found", 7: "capabilities value not found", 8: "unsupported version",
	9: "max-frame-size too big or too small", 10: "fragmentation not supported", 11: "invalid interlaced frames",
	12: "frame-id not found", 13: "resource allocation error", 99: "an unknown error occurred"}

var frameIDs = []uint64{0, 1, 127, 128, 239, 240, 241, 255, 256, 2287, 2288, 2289, 264431, 264432, 33818864 - 1, 33818864, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 53, 1 << 63, 1<<64 - 1}

func frameValues(e *Enum) {
	one := func(f fspec) {
		e.Case(func() string { return f.name }, func(c *EC) {
			c.Ops++
			if err := f.verify(-1); err != nil {
				c.Fail("%v", err)
			}
			c.Outcome = fmt.Sprint(f.want != nil)
		})
	}
	// ids of every size in either place, with all small action lists
	acts := [][]Action{nil, {setAct("a", 0)}, {{Scope: 2, Name: "x"}}, {setAct("a", 3), {Scope: 0, Name: "y"}, setAct("b", 240)}, {setAct("big", 3000)}}
	for _, s := range frameIDs {
		for _, i := range frameIDs {
			for _, as := range acts {
				one(fAckOf(s, i, as...))
			}
		}
	}
	// all values an action can carry
	for _, v := range []KV{kvNull(""), kvBool("", true), kvBool("", false), kvI64("", -1<<63), kvAddr("", addr4), kvAddr("", addr6), kvBin("", []byte{0, 255})} {
		for sc := byte(0); sc < 5; sc++ {
			one(fAckOf(300, 3000, Action{Set: true, Scope: sc, Name: "n", Val: v}))
		}
	}
	// lengths around every limit
	lens := []int{}
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	for _, m := range []int{2288, 4096, 8192, 16384, 32768, 65535, 131072, 1 << 20} {
		for d := -40; d <= 4; d++ {
			lens = append(lens, m+d)
		}
	}
	for _, n := range lens {
		for _, i := range []uint64{0, 240, 1<<64 - 1} {
			one(fAckOf(i, i, setAct("n", n)))
			one(fAckOf(i, 0, setAct("n", n/2), setAct("m", n-n/2)))
		}
		one(fHelloOf(sfill(n, 'v'), 1000, "pipelining"))
		one(fHelloOf("2.0", 1000, sfill(n, 'c')))
		one(fHelloOf("2.0", 1000, sfill(n/2, 'c'), sfill(n-n/2, 'd')))
	}
	// many small actions
	for _, n := range []int{1, 2, 100, 255, 1000, 5000, 7280, 7281, 7282, 7283, 8000, 20000} {
		var as []Action
		for i := 0; i < n; i++ {
			as = append(as, Action{Set: true, Scope: 2, Name: "ab", Val: kvBool("", i%2 == 0)})
		}
		one(fAckOf(1, 1, as...))
		one(fAckOf(1<<40, 1<<40, as...))
	}
	for _, size := range []uint32{0, 1, 239, 240, 256, 2288, 16380, 65535, 65536, 1 << 31, 1<<32 - 1} {
		for _, v := range []string{"", "2.0", "1.0,2.0"} {
			for _, caps := range [][]string{nil, {}, {""}, {"pipelining"}, {"pipelining", "async"}, {"a", "", "b"}, {",", "x"}} {
				one(fHelloOf(v, size, caps...))
			}
		}
	}
	for code := 0; code <= 300; code++ {
		msg, ok := discMsgs[code]
		if !ok {
			msg = fmt.Sprintf("unknown spoe error code: %d", code)
		}
		one(fDiscOf(code, msg))
	}
	for _, as := range [][]Action{nil, {setAct("a", 1)}, {setAct("a", 70000)}} {
		one(fAckBad(as, false))
		one(fAckBad(as, true))
	}
}

func frameKinds() []fspec {
	return []fspec{
		fAckOf(1, 2), fAckOf(240, 1<<40, setAct("a", 3)), fAckOf(3, 4, setAct("a", 300), Action{Scope: 1, Name: "u"}),
		fHelloOf("2.0", 1000, "pipelining"), fHelloOf("", 65535), fDiscOf(0, "normal"), fDiscOf(99, discMsgs[99]),
		fAckBad(nil, false), fAckBad([]Action{setAct("q", 20)}, false), fAckBad([]Action{setAct("q", 20)}, true),
		fAckOf(5, 6, setAct("big", 65400)), fAckOf(5, 6, setAct("big", 65600)), fAckOf(5, 6, setAct("big", 200000)),
		fHelloOf(sfill(70000, 'x'), 1), fHelloOf("2.0", 1, sfill(65400, 'c'), "d"),
	}
}

// frameFail: the writer fails after every number of bytes.
func frameFail(e *Enum) {
	for _, f := range frameKinds() {
		n := len(f.want) + 1
		for k := 0; k <= n; k++ {
			if k == 400 && n > 800 {
				k = n - 400
			}
			e.Case(func() string { return fmt.Sprintf("%s, writer fails after %d bytes", f.name, k) }, func(c *EC) {
				c.Ops++
				if err := f.verify(k); err != nil {
					c.Fail("%v", err)
				}
				// and nothing is left behind
				for _, g := range []fspec{fAckOf(9, 9, setAct("z", 2)), fHelloOf("2.0", 70000, "pipelining")} {
					c.Ops++
					if err := g.verify(-1); err != nil {
						c.Fail("after %s with a writer failing after %d bytes: %v", f.name, k, err)
					}
				}
				c.Outcome = fmt.Sprint(k < n-1)
			})
		}
	}
}

// frameSeq: one frame after the other, the writer failing or not.
func frameSeq(e *Enum) {
	ks := frameKinds()
	cuts := []int{-1, 2, 4, 5, 9, 12}
	n := len(ks) * len(cuts)
	depth := 2
	if e.Thorough() {
		depth = 3
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 && seq[len(seq)-1]%len(cuts) == 0 && len(seq) == depth {
			s := append([]int{}, seq...)
			e.Case(func() string {
				var l []string
				for _, i := range s {
					l = append(l, fmt.Sprintf("%s (cut %d)", ks[i/len(cuts)].name, cuts[i%len(cuts)]))
				}
				return strings.Join(l, " ; ")
			}, func(c *EC) {
				for j, i := range s {
					c.Ops++
					if err := ks[i/len(cuts)].verify(cuts[i%len(cuts)]); err != nil {
						c.Fail("write %d: %v", j, err)
						return
					}
				}
				c.Outcome = "ok"
			})
		}
		if len(seq) == depth {
			return
		}
		for i := 0; i < n && !e.Stop(); i++ {
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec(nil)
}

// sharedWriter is a writer used by several goroutines, which lock it.
type sharedWriter struct {
	vsync.Mutex
	limited
}

func (s *sharedWriter) Write(p []byte) (int, error) {
	sched.PointAt("write")
	return s.limited.Write(p)
}

type ownWriter struct{ limited }

func (s *ownWriter) Write(p []byte) (int, error) {
	sched.PointAt("write")
	return s.limited.Write(p)
}

func initFramesShared() {
	ks := []fspec{fAckOf(1, 2), fAckOf(240, 1<<40, setAct("a", 3)), fHelloOf("2.0", 1000, "pipelining"), fDiscOf(2, discMsgs[2]),
		fAckBad([]Action{setAct("q", 20)}, false), fAckBad(nil, true), fAckOf(5, 6, setAct("big", 65600))}
	type job struct {
		fs     []int
		shared bool
		cut    int
	}
	var jobs []job
	for _, sh := range []bool{true, false} {
		for i := range ks {
			for j := i; j < len(ks); j++ {
				jobs = append(jobs, job{[]int{i, j}, sh, -1})
			}
		}
		for _, l := range [][]int{{0, 1, 2}, {0, 0, 0}, {1, 3, 5}, {1, 4, 2}, {6, 0, 3}, {0, 2, 5}} {
			jobs = append(jobs, job{l, sh, -1})
		}
	}
	for _, cut := range []int{0, 2, 4, 7, 15} {
		for _, l := range [][]int{{0, 1}, {1, 2}, {2, 3}, {0, 1, 3}} {
			jobs = append(jobs, job{l, true, cut})
		}
	}
	mk := func(v int) *Case {
		jb := jobs[v]
		label := fmt.Sprintf("frames written concurrently (one writer: %v, failing after %d bytes):", jb.shared, jb.cut)
		for _, i := range jb.fs {
			label += " " + ks[i].name + " /"
		}
		c := &Case{Label: label}
		c.Cfg.NumCPU = 2
		sw := &sharedWriter{limited: limited{k: jb.cut}}
		type res struct {
			f   fspec
			n   int64
			err error
			pan any
		}
		var rs []res
		const each = 2
		c.Body = func(x *sched.Exec) {
			for _, i := range jb.fs {
				sched.Go(ks[i].name, func() {
					for r := 0; r < each; r++ {
						f := ks[i]
						if jb.shared {
							n, err, pan := f.call(sw)
							rs = append(rs, res{f, n, err, pan})
							continue
						}
						w := &ownWriter{limited{k: -1}}
						n, err, pan := f.call(w)
						rs = append(rs, res{f, n, err, pan})
						if err == nil && pan == nil && !bytes.Equal(w.Bytes(), f.want) {
							c.Fail("C23", "%s wrote %s, want %s", f.name, short(w.Bytes()), short(f.want))
						}
						if (err != nil || pan != nil) && w.Len() > 0 {
							c.Fail("C23", "%s was refused after %d bytes", f.name, w.Len())
						}
					}
				})
			}
		}
		c.Final = func(x *sched.Exec) {
			if len(rs) != each*len(jb.fs) {
				c.Fail("C23", "only %d of %d calls returned (%v)", len(rs), each*len(jb.fs), liveNames(x))
				return
			}
			var want [][]byte
			total := 0
			for _, r := range rs {
				ok := r.f.want != nil && !r.f.pan
				switch {
				case r.f.pan && r.pan == nil, !r.f.pan && r.pan != nil:
					c.Fail("C23", "%s: panic %v", r.f.name, r.pan)
				case !ok && !r.f.pan && r.err == nil:
					c.Fail("C23", "%s was not refused", r.f.name)
				case ok && r.err == nil && r.n != int64(len(r.f.want)):
					c.Fail("C23", "%s: %d bytes, want %d", r.f.name, r.n, len(r.f.want))
				case ok && jb.cut < 0 && r.err != nil:
					c.Fail("C23", "%s: %v", r.f.name, r.err)
				case ok && r.err != nil && !errors.Is(r.err, errWriter):
					c.Fail("C23", "%s: error %v, want %v", r.f.name, r.err, errWriter)
				}
				total += int(r.n)
				if ok {
					want = append(want, r.f.want)
				}
			}
			c.Outcome = "ok"
			if !jb.shared {
				return
			}
			got := sw.Bytes()
			if total != len(got) {
				c.Fail("C23", "%d bytes reported written, %d were", total, len(got))
			}
			// Behind a failing write a frame may be cut short; the writer
			// accepts nothing more from then on.
			rest := got
		next:
			for len(rest) > 0 {
				for i, w := range want {
					if bytes.HasPrefix(rest, w) {
						rest = rest[len(w):]
						want = append(want[:i:i], want[i+1:]...)
						continue next
					}
				}
				break
			}
			if jb.cut >= 0 {
				for _, w := range want {
					if bytes.HasPrefix(w, rest) {
						rest = nil
					}
				}
			} else if len(want) > 0 {
				c.Fail("C23", "%d frames are missing", len(want))
			}
			if len(rest) > 0 {
				c.Fail("C23", "not a sequence of the frames written: %x", rest[:min(len(rest), 60)])
			}
		}
		return c
	}
	scns = append(scns, &Scn{Name: "frame-shared", Props: []string{"C23"}, N: fixedN(len(jobs)), Make: mk,
		Quick: []Bound{{D: 3, Secs: 60}},
		Thor:  []Bound{{D: 5, Secs: 300}},
	})
	scns = append(scns, &Scn{Name: "frame-shared-fine", Props: []string{"C23"}, N: fixedN(len(jobs)), Make: mk,
		Quick: []Bound{{D: 2, Fine: true, Secs: 40}},
		Thor:  []Bound{{D: 3, Fine: true, Secs: 450}},
	})
}
