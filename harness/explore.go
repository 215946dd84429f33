package main

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sched"
)

// Fail is one observed breach. Props empty = breaks whatever property the
// running check decides.
type Fail struct {
	Props []string `json:"props,omitempty"`
	Msg   string   `json:"msg"`
}

// Case is one closed system: a driver, and a verdict over its execution.
type Case struct {
	Label   string
	Body    func(x *sched.Exec)
	Final   func(x *sched.Exec)
	Fails   []Fail
	Outcome string // observable outcome, for the distinct count
	Cfg     sched.Config

	Base   int           // kind of base context, see baseContext
	devs   int           // deviations of this execution
	BaseAt time.Duration // when a base context with a deadline ends (0: 2 s)
}

var baseKinds = []string{"", " (deadline)", " (with a cause)"}

// baseContext returns the base context of a case and a function which ends
// it: 0 cancelled, 1 by a deadline that passes, 2 cancelled with a cause.
func baseContext(x *sched.Exec, c *Case) (context.Context, func()) {
	switch c.Base {
	case 1:
		at := c.BaseAt
		if at == 0 {
			at = 2 * time.Second
		}
		ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(at-sched.Now()))
		x.OnCleanup(cancel)
		return ctx, func() {
			sleepUntil(at)
			settle()
		}
	case 2:
		ctx, cancel := context.WithCancelCause(context.Background())
		x.OnCleanup(func() { cancel(nil) })
		return ctx, func() { cancel(errors.New("shutting down")) }
	}
	ctx, cancel := context.WithCancel(context.Background())
	x.OnCleanup(cancel)
	return ctx, cancel
}

func (c *Case) Fail(props string, f string, a ...any) {
	var p []string
	if props != "" {
		p = strings.Split(props, ",")
	}
	c.Fails = append(c.Fails, Fail{p, fmt.Sprintf(f, a...)})
}

// Bound of one pass over a scenario.
type Bound struct {
	D     int  // deviations
	Fine  bool // statement level points
	Clock bool
	Secs  float64 // soft time limit per shard
	From  int     // variants From..To (To 0 = all)
	To    int
}

type Scn struct {
	Name  string
	Props []string
	N     func(tier string) int
	Make  func(v int) *Case
	Quick []Bound
	Thor  []Bound
}

func (s *Scn) bounds(tier string) []Bound {
	if tier == "thorough" && s.Thor != nil {
		return s.Thor
	}
	return s.Quick
}

// Enum is an exhaustive enumeration of inputs / operation sequences executed
// directly (no concurrency).
type EnumPart struct {
	Name  string
	Props []string
	Run   func(e *Enum)
}

type Replay struct {
	Property string      `json:"property"`
	Kind     string      `json:"kind"` // sched | enum
	Name     string      `json:"name"`
	Variant  int         `json:"variant"`
	Label    string      `json:"label,omitempty"`
	Devs     []sched.Dev `json:"devs,omitempty"`
	Fine     bool        `json:"fine,omitempty"`
	Clock    bool        `json:"clock,omitempty"`
	Index    int64       `json:"index"`
	Tier     string      `json:"tier"`
	Msg      string      `json:"msg"`
	Attr     []string    `json:"attr,omitempty"` // properties the breach is attributed to

	// History: the failure needs the executions before it in the same
	// process; they are those of one shard, in its order.
	History *History `json:"history,omitempty"`
}

type History struct {
	K, N int
	Skip []string
}

func (r *Replay) same(q *Replay) bool {
	return r.Kind == q.Kind && r.Name == q.Name && r.Variant == q.Variant && r.Index == q.Index &&
		r.Fine == q.Fine && r.Clock == q.Clock && fmt.Sprint(r.Devs) == fmt.Sprint(q.Devs)
}

type PartStat struct {
	Name        string            `json:"name"`
	Variants    int               `json:"variants,omitempty"`
	Bound       string            `json:"bound"`
	Executions  int64             `json:"executions"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Diverged    int64             `json:"diverged,omitempty"`
	MaxPoints   int               `json:"max_choice_points,omitempty"`
	Completed   bool              `json:"completed"`
	Depth       int               `json:"depth"`             // deepest level explored completely
	Planned     int               `json:"planned"`           // level planned
	Partial     int64             `json:"partial,omitempty"` // executions of a level not completed
	Outcomes    map[uint64]int64  `json:"outcomes,omitempty"`
	Notes       map[string]int64  `json:"notes,omitempty"`
	Samples     []json.RawMessage `json:"samples,omitempty"`
	Secs        float64           `json:"secs"`
}

type ShardOut struct {
	Parts      []*PartStat `json:"parts"`
	Violations []Replay    `json:"violations"`
}

type shard struct {
	prop    string
	tier    string
	k, n    int
	out     ShardOut
	prog    *progress
	stop    time.Time // whole-check deadline
	seen    map[string]int
	skip    map[string]bool
	maxViol int
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func short(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%x", h[:6])
}

func (f Fail) breaks(prop string) bool {
	if len(f.Props) == 0 || groups[prop] != nil {
		return true
	}
	for _, p := range f.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// strict (development only) reports driver bodies the horizon cut short.
var strict = os.Getenv("HARNESS_STRICT") != ""

func runCase(s *Scn, v int, devs []sched.Dev, fine, clock, trace bool, expect []sched.Point) (*Case, *sched.Exec) {
	c := s.Make(v)
	curForm = int(hash64(fmt.Sprint(s.Name, "/", v)) % 840)
	c.devs = len(devs)
	cfg := c.Cfg
	cfg.Devs = devs
	cfg.Fine = fine
	cfg.Clock = clock
	cfg.Trace = trace
	done := false
	body := func(x *sched.Exec) { c.Body(x); done = true }
	x := sched.Run(cfg, expect, body, func(x *sched.Exec) {
		if !done && strict {
			c.Fail("", "HARNESS: the driver did not come to its end")
		}
		for _, cr := range x.Crashes {
			c.Fail("", "process crash: unrecovered panic in goroutine %s: %s\n%s", cr.Thread, cr.Value, trimStack(cr.Stack))
		}
		if x.Overrun {
			c.Fail("", "no progress: %d scheduling steps without reaching quiescence (livelock)", x.Steps())
			return
		}
		if len(x.Crashes) > 0 {
			return
		}
		if c.Final != nil {
			c.Final(x)
		}
	})
	return c, x
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var o []string
	for _, a := range l {
		if strings.Contains(a, "haproxy-go") {
			o = append(o, strings.TrimSpace(a))
		}
	}
	if len(o) > 8 {
		o = o[:8]
	}
	return strings.Join(o, "\n")
}

func (sh *shard) late() bool { return time.Now().After(sh.stop) }

// pass is one scenario under one bound, explored level by level: level D is
// every execution with exactly D deviations.
type pass struct {
	s    *Scn
	b    Bound
	st   *PartStat
	next int     // next level
	cost float64 // predicted seconds of the next level, this shard
	end  bool    // nothing (more) to explore
}

func (sh *shard) newPass(s *Scn, b Bound) *pass {
	st := &PartStat{Name: s.Name, Outcomes: map[uint64]int64{}, Notes: map[string]int64{}, Completed: true, Depth: -1}
	sh.out.Parts = append(sh.out.Parts, st)
	n := s.N(sh.tier)
	if b.To == 0 || b.To > n {
		b.To = n
	}
	if m, err := strconv.Atoi(os.Getenv("HARNESS_MAXN")); err == nil {
		b.To = min(b.To, b.From+m) // development sweeps
	}
	if b.From > b.To {
		b.From = b.To
	}
	st.Variants = b.To - b.From
	mode := "sync-level"
	if b.Fine {
		mode = "statement-level"
	}
	if b.Clock {
		mode += "+clock"
	}
	st.Bound = fmt.Sprintf("%s, %d variants", mode, st.Variants)
	st.Planned = b.D
	return &pass{s: s, b: b, st: st}
}

// scenario explores all planned levels of one pass.
func (sh *shard) scenario(s *Scn, b Bound) {
	p := sh.newPass(s, b)
	lim := b.Secs
	if lim == 0 {
		lim = 3600
	}
	for p.next <= b.D && lim > 0 && !p.end && len(sh.out.Violations) == 0 {
		t := time.Now()
		sh.level(p, lim)
		lim -= time.Since(t).Seconds()
	}
}

// level explores the next level of a pass for at most lim seconds; only nodes
// of this shard.
func (sh *shard) level(p *pass, lim float64) {
	s, b, st, D := p.s, p.b, p.st, p.next
	p.next++
	t0 := time.Now()
	stop := t0.Add(time.Duration(lim * float64(time.Second)))
	var ctr, execs, kids int64
	partial := false
	for v := b.From; v < b.To; v++ {
		var rec func(devs []sched.Dev, expect []sched.Point) bool
		rec = func(devs []sched.Dev, expect []sched.Point) bool {
			if now := time.Now(); now.After(stop) || now.After(sh.stop) {
				partial = true
				return false
			}
			leaf := len(devs) == D
			mine := true
			if D == 0 || (leaf && D == 1) || len(devs) == 2 {
				mine = ctr%int64(sh.n) == int64(sh.k)
				ctr++
			}
			if (leaf || len(devs) == 2) && !mine {
				return true
			}
			key := fmt.Sprintf("%s/%d/%v/%v", s.Name, v, b.Fine, devs)
			if sh.skip[key] {
				return true
			}
			sh.prog.set(&Replay{Property: sh.prop, Kind: "sched", Name: s.Name, Variant: v, Devs: devs, Fine: b.Fine, Clock: b.Clock, Tier: sh.tier})
			c, x := runCase(s, v, devs, b.Fine, b.Clock, false, expect)
			pts := x.Points()
			if x.Diverged {
				st.Diverged++
				st.Completed = false
				return true
			}
			lo := 0
			if len(devs) > 0 {
				lo = devs[len(devs)-1].At + 1
			}
			if leaf {
				execs++
				for i := lo; i < len(pts); i++ {
					kids += int64(pts[i].N - 1)
				}
				st.Executions++
				st.Transitions += int64(x.Steps())
				first := 0
				if len(devs) > 0 {
					first = devs[len(devs)-1].At
				}
				st.States += int64(len(pts) - first + 1)
				if len(pts) > st.MaxPoints {
					st.MaxPoints = len(pts)
				}
				st.Outcomes[hash64(c.Outcome)]++
				for k, n := range x.Notes {
					st.Notes[k] += int64(n)
				}
				if len(st.Samples) < 1 && (D == b.D || len(devs) > 0) {
					m, _ := json.Marshal(map[string]any{"scenario": s.Name, "variant": v, "label": c.Label, "deviations": devs, "choice_points": len(pts), "steps": x.Steps(), "outcome": clip(c.Outcome, 300)})
					st.Samples = append(st.Samples, m)
				}
				for _, f := range c.Fails {
					if f.breaks(sh.prop) {
						sh.violation(Replay{Property: sh.prop, Kind: "sched", Name: s.Name, Variant: v, Label: c.Label,
							Devs: append([]sched.Dev(nil), devs...), Fine: b.Fine, Clock: b.Clock, Tier: sh.tier, Msg: f.Msg, Attr: f.Props})
						break
					}
				}
				return len(sh.out.Violations) < sh.maxViol
			}
			for i := lo; i < len(pts); i++ {
				for alt := 1; alt < pts[i].N; alt++ {
					nd := append(append([]sched.Dev(nil), devs...), sched.Dev{At: i, Alt: alt})
					if !rec(nd, pts[:i]) {
						return false
					}
				}
			}
			return true
		}
		if !rec(nil, nil) {
			break
		}
	}
	t := time.Since(t0).Seconds()
	st.Secs += t
	if partial {
		p.end = true
		if D <= b.D {
			st.Completed = false
		}
		st.Partial += execs
		return
	}
	if len(sh.out.Violations) == 0 {
		st.Depth = D
	}
	if execs > 0 {
		p.cost = t / float64(execs) * float64(kids)
	}
	if D == 0 {
		// the other shards' variants have children for this one, too
		p.cost = max(p.cost, t)
	}
}

// deepen explores the passes level by level, the cheapest next level first,
// until every one has reached its planned depth plus extra, or the deadline.
func (sh *shard) deepen(ps []*pass, extra int, until time.Time) {
	for len(sh.out.Violations) == 0 {
		left := time.Until(until).Seconds()
		var best *pass
		n := 0
		for _, p := range ps {
			if p.end || p.next > p.b.D+extra {
				continue
			}
			n++
			if best == nil || p.cost < best.cost {
				best = p
			}
		}
		if best == nil || left <= 1 {
			return
		}
		lim := left
		if best.cost > left/2 {
			// no longer affordable: share what is left
			lim = max(left/float64(n), 2)
		}
		sh.level(best, lim)
		debug.FreeOSMemory()
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (sh *shard) violation(r Replay) {
	sh.out.Violations = append(sh.out.Violations, r)
}

// ---------------------------------------------------------------- enum

type Enum struct {
	sh    *shard
	st    *PartStat
	idx   int64
	only  int64 // -1 = all
	fails []Fail
	label string
	Tier  string
	stopd bool
	t0    time.Time
	note  int
	mem   bool
}

// Thorough reports the tier.
func (e *Enum) Thorough() bool { return e.Tier == "thorough" }

func (e *Enum) Stop() bool { return e.stopd }

// Case executes f as the next case of the enumeration (if it belongs to this
// shard). label is only evaluated when needed.
func (e *Enum) Case(label func() string, f func(c *EC)) {
	i := e.idx
	e.idx++
	if e.only >= 0 {
		if i != e.only {
			return
		}
	} else if e.sh != nil {
		// blocks of 16 consecutive cases per shard
		if (i>>4)%int64(e.sh.n) != int64(e.sh.k) {
			return
		}
		if e.stopd {
			return
		}
		if i&0xff == 0 && e.sh.late() {
			e.stopd = true
			e.st.Completed = false
			return
		}
		key := fmt.Sprintf("%s#%d", e.st.Name, i)
		if len(e.sh.skip) > 0 && e.sh.skip[key] {
			return
		}
		e.sh.prog.setEnum(e.st.Name, i)
	}
	c := &EC{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 8<<10)
				buf = buf[:runtime.Stack(buf, false)]
				c.Fail("panic: %v\n%s", r, trimStack(string(buf)))
			}
		}()
		f(c)
	}()
	e.st.Executions++
	e.st.States++
	e.st.Transitions += int64(c.Ops)
	if c.Outcome != "" || e.note < 1 {
		e.st.Outcomes[hash64(c.Outcome)]++
	}
	if e.note < 1 {
		e.note++
		m, _ := json.Marshal(map[string]any{"part": e.st.Name, "index": i, "case": clip(label(), 400), "outcome": clip(c.Outcome, 300)})
		e.st.Samples = append(e.st.Samples, m)
	}
	if len(c.fails) > 0 {
		l := clip(label(), 2000)
		e.fails = append(e.fails, c.fails...)
		e.label = l
		if e.sh != nil && e.only < 0 {
			for _, f := range c.fails {
				if f.breaks(e.sh.prop) {
					e.sh.violation(Replay{Property: e.sh.prop, Kind: "enum", Name: e.st.Name, Index: i, Label: l, Tier: e.Tier, Msg: f.Msg})
					break
				}
			}
			if len(e.sh.out.Violations) >= e.sh.maxViol {
				e.stopd = true
			}
		}
	}
}

// EC is one enumerated case.
type EC struct {
	fails   []Fail
	Ops     int
	Outcome string
}

func (c *EC) Fail(f string, a ...any) {
	if len(c.fails) < 4 {
		c.fails = append(c.fails, Fail{Msg: clip(fmt.Sprintf(f, a...), 3000)})
	}
}

func (sh *shard) enum(p *EnumPart) {
	st := &PartStat{Name: p.Name, Outcomes: map[uint64]int64{}, Completed: true, Depth: -1, Planned: -1, Bound: "all cases of the enumeration"}
	sh.out.Parts = append(sh.out.Parts, st)
	t0 := time.Now()
	e := &Enum{sh: sh, st: st, only: -1, Tier: sh.tier, t0: t0}
	p.Run(e)
	st.Variants = int(e.idx)
	st.Secs = time.Since(t0).Seconds()
}

// ---------------------------------------------------------------- running

func (sh *shard) run() {
	for _, p := range enumParts {
		if has(p.Props, sh.prop) && len(sh.out.Violations) == 0 && only(p.Name) {
			sh.enum(p)
		}
	}
	if os.Getenv("HARNESS_COARSE") != "" {
		return // the code could not be instrumented: nothing to schedule
	}
	sel := func(primary bool, bounds func(s *Scn) []Bound, f func(s *Scn, b Bound)) {
		for _, s := range scns {
			if has(s.Props, sh.prop) != primary || !only(s.Name) || (!primary && !related(s.Name, sh.prop)) {
				continue
			}
			for _, b := range bounds(s) {
				if len(sh.out.Violations) > 0 {
					return
				}
				if m := os.Getenv("HARNESS_MAXD"); m != "" {
					// development sweeps: shallow passes only
					if d, _ := strconv.Atoi(m); b.Fine && d < 2 {
						continue
					} else if b.D > d {
						b.D = d
					}
				}
				f(s, b)
			}
		}
	}
	quick := func(s *Scn) []Bound { return s.Quick }
	run := func(s *Scn, b Bound) {
		sh.scenario(s, b)
		debug.FreeOSMemory()
	}
	if sh.tier != "thorough" {
		sel(true, quick, run)
		sel(false, quick, run)
		return
	}
	var ps []*pass
	sel(true, func(s *Scn) []Bound { return s.bounds("thorough") }, func(s *Scn, b Bound) { ps = append(ps, sh.newPass(s, b)) })
	left := time.Until(sh.stop)
	sh.deepen(ps, 0, time.Now().Add(left*7/10))
	sel(false, quick, run)
	sh.deepen(ps, 3, sh.stop)
}

// related scenarios exercise the same subsystem: they run behind those a
// property names, because a breach may show up in any of them.
func related(name, prop string) bool {
	switch prop {
	case "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13":
		return strings.HasPrefix(name, "spop-")
	case "C14", "C15", "C17", "C18", "C19", "C20":
		return strings.HasPrefix(name, "peer-")
	}
	return false
}

func only(name string) bool {
	for _, p := range strings.Split(os.Getenv("HARNESS_SKIP"), ",") {
		if p != "" && strings.HasPrefix(name, p) {
			return false // development sweeps
		}
	}
	f := os.Getenv("HARNESS_ONLY")
	if f == "" {
		return true
	}
	for _, p := range strings.Split(f, ",") {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// groups are pseudo properties used while developing (mutation sweeps):
// everything that concerns one of their members, any breach counts.
var groups = map[string][]string{
	"ENC":  {"C01", "C02", "C03", "C04", "C05", "C16", "C21", "C22", "C23", "C24", "C25"},
	"SPOP": {"C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"},
	"PEER": {"C14", "C15", "C17", "C18", "C19", "C20"},
}

func has(l []string, s string) bool {
	for _, a := range l {
		if a == s || has1(groups[s], a) {
			return true
		}
	}
	return false
}

func has1(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}

var scns []*Scn
var enumParts []*EnumPart

func findScn(n string) *Scn {
	for _, s := range scns {
		if s.Name == n {
			return s
		}
	}
	return nil
}

func findEnum(n string) *EnumPart {
	for _, s := range enumParts {
		if s.Name == n {
			return s
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for a := range m {
		k = append(k, a)
	}
	sort.Strings(k)
	return k
}

// rerun executes one replay once; returns the failure messages.
func rerun(r *Replay, trace bool) (fails []string, log []string) {
	if h := r.History; h != nil {
		sh := &shard{prop: r.Property, tier: r.Tier, k: h.K, n: h.N, stop: time.Now().Add(600 * time.Second), maxViol: 1, skip: map[string]bool{}}
		for _, s := range h.Skip {
			sh.skip[s] = true
		}
		sh.run()
		for _, v := range sh.out.Violations {
			if v.same(r) {
				fails = append(fails, v.Msg)
			}
		}
		return fails, []string{fmt.Sprintf("behind all executions of shard %d of %d", h.K, h.N), "case: " + r.Label}
	}
	if r.Kind == "enum" {
		p := findEnum(r.Name)
		if p == nil {
			return nil, nil
		}
		e := &Enum{st: &PartStat{Name: r.Name, Outcomes: map[uint64]int64{}}, only: r.Index, Tier: r.Tier}
		p.Run(e)
		for _, f := range e.fails {
			if f.breaks(r.Property) {
				fails = append(fails, f.Msg)
			}
		}
		return fails, []string{"case: " + e.label}
	}
	s := findScn(r.Name)
	if s == nil {
		return nil, nil
	}
	c, x := runCase(s, r.Variant, r.Devs, r.Fine, r.Clock, trace, nil)
	if x.Diverged {
		return nil, x.Log
	}
	for _, f := range c.Fails {
		if f.breaks(r.Property) {
			fails = append(fails, f.Msg)
		}
	}
	return fails, append([]string{"variant: " + c.Label}, x.Log...)
}
