// Package sched is a controlled scheduler for exhaustive, deviation-bounded
// exploration of the real (instrumented) Go code.
//
// Every execution runs inside a synctest bubble (virtual time, exact
// quiescence detection). Goroutines of the code under test register
// themselves and park at every scheduling point; the controller waits until
// the whole bubble is quiescent and then releases exactly one thread. Every
// nondeterministic decision (which thread, which environment answer) is a
// numbered choice, so an execution is a pure function of its choice list.
package sched

import (
	"context"
	"fmt"
	"net"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

func getg() uintptr

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

var _ = unsafe.Pointer(nil)

// ---------------------------------------------------------------- types

type Thread struct {
	ID     int
	Name   string
	resume chan bool
	ready  func() bool
	op     string
	parked bool
	done   bool
	h      uint64 // causal hash of this thread
	bonus  int
}

// ChoiceKind: 's' schedule, 'e' environment, 't' clock advance offered.
type Point struct {
	Kind byte
	N    int
	Pick int
	Sig  uint64
	Op   string
	Key  uint64 // state key (0 = unknown)
}

// Dev is one departure from the default at a given point index.
type Dev struct {
	At   int    `json:"at"`
	Alt  int    `json:"alt"`
	What string `json:"what,omitempty"`
}

type Crash struct {
	Thread string
	Value  string
	Stack  string
}

type Config struct {
	Devs     []Dev
	Horizon  time.Duration // virtual time budget
	MaxSteps int
	Fine     bool // statement level scheduling points
	FineEnc  bool // with Fine: also in packages whose objects are meant for one goroutine
	Clock    bool // offer "let the next timer fire now" as an alternative
	NumCPU   int
	Trace    bool
	// Hash enables state keys. Only valid when all communication goes
	// through tracked objects.
	Hash bool
}

type Exec struct {
	Cfg     Config
	mu      sync.Mutex
	threads []*Thread // not done, or done since the last compaction; by ID
	nextID  int
	dead    int    // done ones in threads
	deadKey uint64 // their part of the state key once they are dropped
	byG     map[uintptr]*Thread
	notify  chan struct{}
	killCh  chan struct{}
	killing bool
	gen     uint64
	points  []Point
	devAt   map[int]int
	last    *Thread
	steps   int
	start   time.Time
	end     time.Duration

	Crashes  []Crash
	Diverged bool
	Overrun  bool // MaxSteps reached
	Leaked   bool // goroutines natively blocked at the end
	Log      []string
	objSeq   int
	envHash  uint64
	expect   []Point // sigs of the parent run, for divergence detection
	final    func()
	finalErr any
	cleanup  []func()
	quiet    bool
	objs     map[*Obj]struct{}
	Notes    map[string]int
}

var (
	cur    atomic.Pointer[Exec]
	genCtr atomic.Uint64
	fineOn atomic.Bool
	fineEn atomic.Bool
)

// Cur returns the active execution (nil outside).
func Cur() *Exec { return cur.Load() }

// Gen identifies the active execution (0 outside).
func Gen() uint64 {
	if x := cur.Load(); x != nil {
		return x.gen
	}
	return 0
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 31
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 29
	return a
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Obj is a tracked synchronisation object: every operation on it orders its
// users (used for state keys).
type Obj struct {
	gen uint64
	h   uint64
}

func (o *Obj) Touch(tag uint64) {
	x := cur.Load()
	if x == nil || !x.Cfg.Hash {
		return
	}
	t := x.self()
	if t == nil {
		return
	}
	x.mu.Lock()
	if o.gen != x.gen {
		o.gen = x.gen
		o.h = mix(uint64(t.ID)+1, uint64(x.steps)) // unique-ish id of creation
		x.objs[o] = struct{}{}
	}
	n := mix(mix(t.h, o.h), tag)
	t.h = n
	o.h = n
	x.mu.Unlock()
}

// ---------------------------------------------------------------- running

// Run executes scenario under cfg. final runs when the system is quiescent,
// outside any thread, before threads are killed.
func Run(cfg Config, expect []Point, scenario func(x *Exec), final func(x *Exec)) (x *Exec) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
		if cfg.Fine {
			cfg.MaxSteps = 1000000
		}
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = time.Second
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 2
	}
	x = &Exec{Cfg: cfg, byG: map[uintptr]*Thread{}, expect: expect, devAt: map[int]int{},
		gen: genCtr.Add(1), Notes: map[string]int{}}
	if cfg.Hash {
		x.objs = map[*Obj]struct{}{}
	}
	for _, d := range cfg.Devs {
		x.devAt[d.At] = d.Alt
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				if strings.Contains(s, "blocked goroutines remain") || strings.Contains(s, "deadlock") {
					x.Leaked = true
					return
				}
				panic(e)
			}
		}()
		synctestRun(func() { x.run(scenario, final) })
	}()
	cur.Store(nil)
	fineOn.Store(false)
	ListenHook = nil
	fineEn.Store(false)
	if x.finalErr != nil {
		panic(x.finalErr)
	}
	return x
}

func (x *Exec) run(scenario func(x *Exec), final func(x *Exec)) {
	x.notify = make(chan struct{}, 1)
	x.killCh = make(chan struct{})
	x.start = time.Now()
	cur.Store(x)
	fineOn.Store(x.Cfg.Fine)
	fineEn.Store(x.Cfg.Fine && x.Cfg.FineEnc)
	func() {
		// controller spawns the driver thread
		f := x.spawn("driver", func() { scenario(x) })
		go f()
	}()
	hz := time.NewTimer(x.Cfg.Horizon)
loop:
	for {
		synctestWait()
		select {
		case <-x.notify:
		default:
		}
		en := x.enabled()
		if len(en) == 0 {
			select {
			case <-x.notify:
				continue
			case <-hz.C:
				break loop
			}
		}
		if x.steps >= x.Cfg.MaxSteps {
			x.Overrun = true
			break
		}
		x.steps++
		if StepCount != nil {
			*StepCount++
		}
		n := len(en)
		if x.Cfg.Clock {
			n++
		}
		var pick int
		if n > 1 && !x.quiet {
			op := ""
			sig := uint64(n) * 7919
			for _, t := range en {
				sig = mix(sig, uint64(t.ID)+hstr(t.op))
			}
			if x.Cfg.Trace {
				var ss []string
				for _, t := range en {
					ss = append(ss, fmt.Sprintf("%s@%s", t.Name, t.op))
				}
				if x.Cfg.Clock {
					ss = append(ss, "clock")
				}
				op = strings.Join(ss, " | ")
			}
			kind := byte('s')
			pick = x.choose(kind, n, sig, op)
		}
		if x.Diverged {
			break
		}
		if pick == len(en) {
			// let the clock run to the next timer with everything else parked
			if x.Cfg.Trace {
				x.logf("   clock")
			}
			select {
			case <-x.notify:
				continue
			case <-hz.C:
				break loop
			}
		}
		t := en[pick]
		if x.Cfg.Trace {
			x.logf("%4d %-10v %s: %s", x.steps, time.Since(x.start), t.Name, t.op)
		}
		x.last = t
		x.mu.Lock()
		t.parked = false
		x.mu.Unlock()
		t.resume <- true
	}
	x.end = time.Since(x.start)
	func() {
		defer func() {
			if e := recover(); e != nil {
				x.finalErr = e
			}
		}()
		if final != nil && !x.Diverged {
			final(x)
		}
	}()
	// teardown
	x.mu.Lock()
	x.killing = true
	x.mu.Unlock()
	close(x.killCh)
	for _, f := range x.cleanup {
		f()
	}
	synctestWait()
}

// Quiet stops branching for the rest of the execution: every choice takes its
// default, and there are no statement-level points.
func Quiet() {
	if x := cur.Load(); x != nil {
		x.mu.Lock()
		x.quiet = true
		x.mu.Unlock()
		fineOn.Store(false)
		fineEn.Store(false)
	}
}

func (x *Exec) OnCleanup(f func()) { x.cleanup = append(x.cleanup, f) }

func (x *Exec) logf(f string, a ...any) { x.Log = append(x.Log, fmt.Sprintf(f, a...)) }

// Logf adds to the trace when tracing.
func Logf(f string, a ...any) {
	if x := cur.Load(); x != nil && x.Cfg.Trace {
		x.mu.Lock()
		x.logf("        # "+f, a...)
		x.mu.Unlock()
	}
}

func (x *Exec) Now() time.Duration     { return time.Since(x.start) }
func (x *Exec) Points() []Point        { return x.points }
func (x *Exec) Steps() int             { return x.steps }
func (x *Exec) EndTime() time.Duration { return x.end }

// Live lists the names of the threads that have not finished.
func (x *Exec) Live() []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var l []string
	for _, t := range x.threads {
		if !t.done {
			l = append(l, t.Name)
		}
	}
	sort.Strings(l)
	return l
}

// Blocked describes unfinished parked threads.
func (x *Exec) Blocked() []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var l []string
	for _, t := range x.threads {
		if !t.done {
			l = append(l, t.Name+"@"+t.op)
		}
	}
	return l
}

// StepCount, if set, counts the scheduling steps of all executions.
var StepCount *uint64

func (x *Exec) enabled() []*Thread {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.compact()
	var en []*Thread
	n := len(x.threads)
	base := 0
	if x.last != nil {
		id := x.last.ID
		if x.last.op == "gosched" {
			id++ // a spinning thread lets the others run
		}
		base = sort.Search(n, func(i int) bool { return x.threads[i].ID >= id })
	}
	// running thread first, then round robin by id
	for i := 0; i < n; i++ {
		t := x.threads[(base+i)%n]
		if t.parked && !t.done && (t.ready == nil || t.ready()) {
			en = append(en, t)
		}
	}
	return en
}

// compact drops the threads that are done. x.mu is held.
func (x *Exec) compact() {
	if x.dead < 64 || x.dead < len(x.threads)/2 {
		return
	}
	l := x.threads[:0]
	for _, t := range x.threads {
		if t.done {
			x.deadKey += mix(t.h, uint64(t.ID)*31+hstr(t.op))
			continue
		}
		l = append(l, t)
	}
	for i := len(l); i < len(x.threads); i++ {
		x.threads[i] = nil
	}
	x.threads, x.dead = l, 0
}

func (x *Exec) stateKey() uint64 {
	if !x.Cfg.Hash {
		return 0
	}
	var k uint64 = mix(x.envHash, uint64(x.Now())) + x.deadKey
	for _, t := range x.threads {
		k += mix(t.h, uint64(t.ID)*31+hstr(t.op))
	}
	for o := range x.objs {
		k += mix(o.h, 77)
	}
	if x.last != nil {
		k = mix(k, uint64(x.last.ID))
	}
	if k == 0 {
		k = 1
	}
	return k
}

func (x *Exec) choose(kind byte, n int, sig uint64, op string) int {
	i := len(x.points)
	pick := 0
	if a, ok := x.devAt[i]; ok {
		pick = a
	}
	if i < len(x.expect) {
		if e := x.expect[i]; e.Sig != sig || e.N != n || e.Kind != kind {
			x.Diverged = true
		}
	}
	if pick >= n {
		x.Diverged = true
		pick = 0
	}
	p := Point{Kind: kind, N: n, Pick: pick, Sig: sig, Op: op}
	if x.Cfg.Hash && n > 1 {
		p.Key = x.stateKey()
	}
	x.points = append(x.points, p)
	return pick
}

// Choose is an environment choice in 0..n-1, 0 being the default.
func Choose(n int, label string) int {
	x := cur.Load()
	if x == nil || n <= 1 {
		return 0
	}
	t := x.self()
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.killing || x.quiet {
		return 0
	}
	p := x.choose('e', n, mix(hstr(label), uint64(n)), "env:"+label)
	if x.Cfg.Trace && p != 0 {
		x.logf("        env %s -> %d", label, p)
	}
	if t != nil {
		t.h = mix(t.h, mix(hstr(label), uint64(p)))
	}
	return p
}

// ---------------------------------------------------------------- threads

func (x *Exec) self() *Thread {
	g := getg()
	x.mu.Lock()
	t := x.byG[g]
	x.mu.Unlock()
	return t
}

// Active reports whether the calling goroutine is controlled.
func Active() bool {
	x := cur.Load()
	return x != nil && x.self() != nil
}

// Killing is true during teardown; primitives become no-ops then.
func Killing() bool {
	x := cur.Load()
	if x == nil {
		return false
	}
	x.mu.Lock()
	k := x.killing
	x.mu.Unlock()
	return k
}

func (x *Exec) spawn(name string, f func()) func() {
	x.mu.Lock()
	t := &Thread{ID: x.nextID, resume: make(chan bool)}
	t.Name = fmt.Sprintf("%d:%s", t.ID, name)
	t.op = "start"
	t.h = mix(uint64(t.ID)+99, 1)
	x.nextID++
	x.threads = append(x.threads, t)
	x.mu.Unlock()
	return func() {
		g := getg()
		x.mu.Lock()
		x.byG[g] = t
		x.mu.Unlock()
		defer func() {
			e := recover()
			x.mu.Lock()
			t.done = true
			x.dead++
			delete(x.byG, g)
			if e != nil && !x.killing {
				buf := make([]byte, 8<<10)
				buf = buf[:runtime.Stack(buf, false)]
				x.Crashes = append(x.Crashes, Crash{t.Name, fmt.Sprint(e), string(buf)})
			}
			x.mu.Unlock()
			x.ping()
		}()
		x.park(t, "start", nil)
		f()
	}
}

func (x *Exec) ping() {
	select {
	case x.notify <- struct{}{}:
	default:
	}
}

func (x *Exec) park(t *Thread, op string, ready func() bool) {
	x.mu.Lock()
	if x.killing {
		x.mu.Unlock()
		runtime.Goexit()
	}
	t.op = op
	t.ready = ready
	t.parked = true
	x.mu.Unlock()
	x.ping()
	select {
	case <-t.resume:
	case <-x.killCh:
		runtime.Goexit()
	}
}

// Go starts f as a controlled thread (harness side).
func Go(name string, f func()) {
	x := cur.Load()
	if x == nil {
		go f()
		return
	}
	go x.spawn(name, f)()
}

// At parks the caller at a scheduling point until ready (nil = always).
// It reports whether the caller is controlled.
func At(op string, ready func() bool) bool {
	x := cur.Load()
	if x == nil {
		return false
	}
	t := x.self()
	if t == nil {
		return false
	}
	x.park(t, op, ready)
	return true
}

// PointAt is a plain scheduling point.
func PointAt(op string) { At(op, nil) }

var siteNames []string

// RegisterSites is called by generated code.
func RegisterSites(base int, names []string) int {
	for len(siteNames) < base+len(names) {
		siteNames = append(siteNames, "")
	}
	copy(siteNames[base:], names)
	return 0
}

// Stmt is a statement-level scheduling point (fine mode only).
func Stmt(site int) {
	if !fineOn.Load() {
		return
	}
	x := cur.Load()
	if x == nil {
		return
	}
	t := x.self()
	if t == nil || Killing() {
		return
	}
	n := "stmt"
	if site < len(siteNames) {
		n = siteNames[site]
	}
	x.park(t, n, nil)
}

// StmtEnc is a statement-level scheduling point of the encoding packages.
func StmtEnc(site int) {
	if fineEn.Load() {
		Stmt(site)
	}
}

// ---------------------------------------------------------------- go

// Wrap turns the function of a go statement into a controlled thread body.
func Wrap[F any](site string, f F) F {
	x := cur.Load()
	if x == nil || x.self() == nil {
		return f
	}
	if g, ok := any(f).(func()); ok {
		return any(x.spawn(site, g)).(F)
	}
	v := reflect.ValueOf(f)
	t := v.Type()
	var args []reflect.Value
	w := x.spawn(site, func() {
		if t.IsVariadic() {
			v.CallSlice(args)
		} else {
			v.Call(args)
		}
	})
	m := reflect.MakeFunc(t, func(a []reflect.Value) []reflect.Value {
		args = a
		w()
		out := make([]reflect.Value, t.NumOut())
		for i := range out {
			out[i] = reflect.Zero(t.Out(i))
		}
		return out
	})
	return m.Interface().(F)
}

// ---------------------------------------------------------------- channels

func chanKill() (x *Exec, t *Thread) {
	x = cur.Load()
	if x == nil {
		return nil, nil
	}
	t = x.self()
	if t == nil {
		return nil, nil
	}
	return x, t
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	x, t := chanKill()
	if x == nil {
		v, ok := <-ch
		return v, ok
	}
	x.park(t, "recv", nil)
	select {
	case v, ok := <-ch:
		t.h = mix(t.h, 11)
		return v, ok
	default:
	}
	t.op = "blocked recv"
	select {
	case v, ok := <-ch:
		x.park(t, "recv-wake", nil)
		t.h = mix(t.h, 12)
		return v, ok
	case <-x.killCh:
		runtime.Goexit()
		panic("unreachable")
	}
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		x, t := chanKill()
		if x == nil {
			ch <- v
			return
		}
		x.park(t, "send", nil)
		select {
		case ch <- v:
			return
		default:
		}
		t.op = "blocked send"
		select {
		case ch <- v:
			x.park(t, "send-wake", nil)
		case <-x.killCh:
			runtime.Goexit()
		}
	}
}

// Block is `select {}`.
func Block() {
	x, t := chanKill()
	if x == nil {
		select {}
	}
	x.park(t, "select{}", func() bool { return false })
}

type Case interface {
	rc() reflect.SelectCase
	set(reflect.Value, bool)
}

type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RC[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }
func (c *RCase[T]) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RCase[T]) set(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		c.V, _ = v.Interface().(T)
	}
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}
func (c *SCase[T]) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SCase[T]) set(reflect.Value, bool) {}

// Select mirrors a select statement; the order in which ready cases are
// considered is an environment choice.
func Select(hasDefault bool, cases ...Case) int {
	x, t := chanKill()
	rcs := make([]reflect.SelectCase, len(cases), len(cases)+1)
	for i, c := range cases {
		rcs[i] = c.rc()
	}
	if x == nil {
		if hasDefault {
			rcs = append(rcs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rcs)
		if i == len(cases) {
			return -1
		}
		cases[i].set(v, ok)
		return i
	}
	x.park(t, "select", nil)
	off := 0
	if len(cases) > 1 {
		off = Choose(len(cases), "select-order")
	}
	def := reflect.SelectCase{Dir: reflect.SelectDefault}
	for k := range cases {
		i := (k + off) % len(cases)
		j, v, ok := reflect.Select([]reflect.SelectCase{rcs[i], def})
		if j == 0 {
			cases[i].set(v, ok)
			t.h = mix(t.h, uint64(100+i))
			return i
		}
	}
	if hasDefault {
		t.h = mix(t.h, 99)
		return -1
	}
	rcs = append(rcs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(x.killCh)})
	t.op = "blocked select"
	i, v, ok := reflect.Select(rcs)
	if i == len(cases) {
		runtime.Goexit()
	}
	cases[i].set(v, ok)
	x.park(t, "select-wake", nil)
	t.h = mix(t.h, uint64(200+i))
	return i
}

// ---------------------------------------------------------------- time & co

func Sleep(d time.Duration) {
	x, t := chanKill()
	if x == nil {
		time.Sleep(d)
		return
	}
	x.park(t, "sleep", nil)
	t.op = "sleeping"
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
		x.park(t, "sleep-wake", nil)
	case <-x.killCh:
		runtime.Goexit()
	}
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	x, _ := chanKill()
	if x == nil {
		return time.AfterFunc(d, f)
	}
	return time.AfterFunc(d, func() {
		if Killing() {
			return
		}
		x.spawn("afterfunc", f)()
	})
}

// WakeAfter makes the controller re-evaluate blocked predicates after d.
func WakeAfter(d time.Duration) {
	x := cur.Load()
	if x == nil {
		return
	}
	time.AfterFunc(d, func() { x.ping() })
}

// Now is the virtual time since the start of the execution.
func Now() time.Duration {
	x := cur.Load()
	if x == nil {
		return 0
	}
	return time.Since(x.start)
}

// ThreadName names the calling thread.
func ThreadName() string {
	if x, t := chanKill(); x != nil && t != nil {
		return t.Name
	}
	return "?"
}

func NumCPU() int {
	if x := cur.Load(); x != nil {
		return x.Cfg.NumCPU
	}
	return runtime.NumCPU()
}

func GOMAXPROCS(n int) int {
	if x := cur.Load(); x != nil {
		return x.Cfg.NumCPU
	}
	return runtime.GOMAXPROCS(n)
}

func Gosched() {
	if !At("gosched", nil) {
		runtime.Gosched()
	}
}

// ListenHook answers net.Listen during an execution.
var ListenHook func(network, address string) (net.Listener, error)

// NetListen is net.Listen.
func NetListen(network, address string) (net.Listener, error) {
	if Active() && ListenHook != nil {
		At("listen", nil)
		return ListenHook(network, address)
	}
	return net.Listen(network, address)
}

// Fatal records an unrecoverable runtime error of the code under test
// (e.g. unlock of unlocked mutex) and stops the thread.
func Fatal(msg string) {
	x, t := chanKill()
	if x == nil {
		panic("fatal error: " + msg)
	}
	x.mu.Lock()
	x.Crashes = append(x.Crashes, Crash{t.Name, "fatal error: " + msg, ""})
	x.mu.Unlock()
	runtime.Goexit()
}

func init() {
	if os.Getenv("SCHED_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "sched debug")
	}
}

// ContextAfterFunc is context.AfterFunc with f as a controlled thread.
func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	x, _ := chanKill()
	if x == nil {
		return context.AfterFunc(ctx, f)
	}
	return context.AfterFunc(ctx, func() {
		if Killing() {
			return
		}
		x.spawn("ctx-afterfunc", f)()
	})
}
