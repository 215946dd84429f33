// harness decides the properties by exhaustive bounded exploration of the
// real code. Sub-commands:
//
//	check ID            orchestrate all shards of one property
//	shard ID k n FILE   one shard (internal)
//	once FILE           run one replay once, exit 3 when it fails (internal)
//	replay FILE         run one replay with an annotated trace
//	list
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/sched"
)

type progress struct {
	m []byte
}

const progSize = 1 << 16

func openProgress(file string) *progress {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(progSize); err != nil {
		return nil
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, progSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &progress{m: m}
}

// watchSteps makes every scheduling step of this process count as progress:
// a long history is not a hang.
func (p *progress) watchSteps() {
	if p != nil {
		sched.StepCount = (*uint64)(unsafe.Pointer(&p.m[progSize-8]))
	}
}

// layout: 0 seq | 8 kind (0 none, 1 json, 2 enum) | 16 enum index | 24 len | 32.. text
func (p *progress) set(r *Replay) {
	if p == nil {
		return
	}
	b, _ := json.Marshal(r)
	if len(b) > progSize-48 {
		b = nil
	}
	p.m[8] = 0
	binary.LittleEndian.PutUint64(p.m[24:], uint64(len(b)))
	copy(p.m[32:], b)
	p.m[8] = 1
	binary.LittleEndian.PutUint64(p.m[0:], binary.LittleEndian.Uint64(p.m[0:])+1)
}

func (p *progress) setEnum(name string, i int64) {
	if p == nil {
		return
	}
	if p.m[8] != 2 || int(p.m[24]) != len(name) || string(p.m[32:32+len(name)]) != name {
		p.m[8] = 0
		binary.LittleEndian.PutUint64(p.m[24:], uint64(len(name)))
		copy(p.m[32:], name)
		p.m[8] = 2
	}
	binary.LittleEndian.PutUint64(p.m[16:], uint64(i))
	binary.LittleEndian.PutUint64(p.m[0:], binary.LittleEndian.Uint64(p.m[0:])+1)
}

func (p *progress) seq() uint64 {
	return binary.LittleEndian.Uint64(p.m[0:]) + binary.LittleEndian.Uint64(p.m[progSize-8:])
}

func (p *progress) get(prop, tier string) *Replay {
	n := int(binary.LittleEndian.Uint64(p.m[24:]))
	switch p.m[8] {
	case 1:
		var r Replay
		if json.Unmarshal(p.m[32:32+n], &r) != nil {
			return nil
		}
		return &r
	case 2:
		return &Replay{Property: prop, Kind: "enum", Name: string(p.m[32 : 32+n]), Index: int64(binary.LittleEndian.Uint64(p.m[16:])), Tier: tier}
	}
	return nil
}

func tierOf() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func limits() {
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetTraceback("single")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|replay|list ...")
		os.Exit(2)
	}
	log.SetOutput(io.Discard)
	switch os.Args[1] {
	case "list":
		for _, p := range enumParts {
			fmt.Println("enum ", p.Name, p.Props)
		}
		for _, s := range scns {
			fmt.Println("sched", s.Name, s.Props, s.N("quick"), s.N("thorough"))
		}
	case "shard":
		limits()
		k, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		sec, _ := strconv.ParseFloat(os.Args[6], 64)
		sh := &shard{prop: os.Args[2], tier: tierOf(), k: k, n: n, prog: openProgress(os.Args[5] + ".prog"),
			stop: time.Now().Add(time.Duration(sec * float64(time.Second))), maxViol: 1, skip: map[string]bool{}}
		sh.prog.watchSteps()
		for _, s := range os.Args[7:] {
			sh.skip[s] = true
		}
		sh.run()
		b, _ := json.Marshal(sh.out)
		if err := os.WriteFile(os.Args[5], b, 0o600); err != nil {
			os.Exit(4)
		}
	case "once":
		limits()
		var r Replay
		b, _ := os.ReadFile(os.Args[2])
		if json.Unmarshal(b, &r) != nil {
			os.Exit(2)
		}
		if p := os.Getenv("HARNESS_CPUPROF"); p != "" {
			if w, err := os.Create(p); err == nil {
				_ = pprof.StartCPUProfile(w)
			}
		}
		f, _ := rerun(&r, false)
		pprof.StopCPUProfile()
		if len(f) > 0 {
			fmt.Println(strings.Join(f, "\n"))
			os.Exit(3)
		}
	case "replay":
		limits()
		var r Replay
		b, err := os.ReadFile(os.Args[2])
		if err != nil || json.Unmarshal(b, &r) != nil {
			fmt.Fprintln(os.Stderr, "cannot read replay", err)
			os.Exit(2)
		}
		f, l := rerun(&r, true)
		for _, s := range l {
			fmt.Println(s)
		}
		for _, s := range f {
			fmt.Println("FAIL", s)
		}
		if len(f) > 0 {
			os.Exit(1)
		}
		fmt.Println("no failure")
	case "check":
		os.Exit(check(os.Args[2]))
	}
}

type shardState struct {
	k       int
	out     ShardOut
	ok      bool
	dead    *Replay // case being run when the shard died or hung
	deadMsg string
}

func check(prop string) int {
	t0 := time.Now()
	tier := tierOf()
	budget := 240.0
	if tier == "thorough" {
		budget = 780
	}
	if s := os.Getenv("HARNESS_BUDGET"); s != "" {
		budget, _ = strconv.ParseFloat(s, 64)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if s := os.Getenv("HARNESS_PROCS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 0
	}
	defer os.RemoveAll(dir)
	var abort atomic.Bool
	run := func(k int, skips []string) *shardState {
		st := &shardState{k: k}
		file := filepath.Join(dir, fmt.Sprintf("s%d", k))
		pr := openProgress(file + ".prog")
		if pr == nil {
			return st
		}
		args := append([]string{"shard", prop, fmt.Sprint(k), fmt.Sprint(n), file, fmt.Sprint(budget)}, skips...)
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		var errb tail
		cmd.Stderr = &errb
		cmd.Stdout = &errb
		if cmd.Start() != nil {
			return st
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		last, at := pr.seq(), time.Now()
		for {
			select {
			case err := <-done:
				if err == nil {
					b, e := os.ReadFile(file)
					if e == nil && json.Unmarshal(b, &st.out) == nil {
						st.ok = true
					}
				} else if !abort.Load() {
					st.dead = pr.get(prop, tier)
					st.deadMsg = "process died: " + errb.head()
				}
				return st
			case <-time.After(100 * time.Millisecond):
				if s := pr.seq(); s != last {
					last, at = s, time.Now()
				} else if time.Since(at) > 25*time.Second {
					st.dead = pr.get(prop, tier)
					st.deadMsg = "no progress: no scheduling step for 25 s (infinite loop)"
					cmd.Process.Kill()
					<-done
					return st
				}
				if abort.Load() {
					cmd.Process.Kill()
					<-done
					return st
				}
			}
		}
	}
	states := make([]*shardState, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var confirmed []Replay
	unconfirmed := 0
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var skips []string
			for try := 0; try < 3; try++ {
				st := run(k, skips)
				mu.Lock()
				states[k] = st
				mu.Unlock()
				if abort.Load() {
					return
				}
				var cand []Replay
				if st.ok {
					cand = st.out.Violations
				} else if st.dead != nil {
					d := *st.dead
					d.Msg = st.deadMsg
					cand = []Replay{d}
				}
				if len(cand) == 0 {
					return
				}
				for _, c := range cand {
					if confirm(dir, k, &c) {
						mu.Lock()
						confirmed = append(confirmed, c)
						mu.Unlock()
						abort.Store(true)
						return
					}
					// it may need what happened before it in the process
					if st.ok && time.Since(t0) < 250*time.Second {
						d := time.Now()
						st2 := run(k, skips)
						if abort.Load() {
							return
						}
						again := func(s *shardState) bool {
							return s.ok && len(s.out.Violations) > 0 && s.out.Violations[0].same(&c)
						}
						if again(st2) && (time.Since(d) > 30*time.Second || again(run(k, skips))) && !abort.Load() {
							c.History = &History{k, n, skips}
							c.Msg = "(after the executions before it in the same process) " + c.Msg
							mu.Lock()
							confirmed = append(confirmed, c)
							mu.Unlock()
							abort.Store(true)
							return
						}
					}
					mu.Lock()
					unconfirmed++
					mu.Unlock()
					if c.Kind == "enum" {
						skips = append(skips, fmt.Sprintf("%s#%d", c.Name, c.Index))
					} else {
						skips = append(skips, fmt.Sprintf("%s/%d/%v/%v", c.Name, c.Variant, c.Fine, c.Devs))
					}
				}
			}
		}()
	}
	wg.Wait()
	return finish(prop, tier, t0, states, confirmed, unconfirmed)
}

// tail keeps the first bytes of what the child printed.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) head() string {
	l := strings.Split(string(t.b), "\n")
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, "\n")
}

// confirm re-executes a candidate five times in fresh processes.
func confirm(dir string, k int, r *Replay) bool {
	f := filepath.Join(dir, fmt.Sprintf("cand%d.json", k))
	b, _ := json.Marshal(r)
	if os.WriteFile(f, b, 0o600) != nil {
		return false
	}
	for i := 0; i < 5; i++ {
		cmd := exec.Command(os.Args[0], "once", f)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		var o bytes.Buffer
		cmd.Stdout = &o
		cmd.Stderr = &o
		if cmd.Start() != nil {
			return false
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err == nil {
				return false
			}
			if i == 0 && o.Len() > 0 {
				r.Msg = clip(o.String(), 3000)
			}
		case <-time.After(40 * time.Second):
			cmd.Process.Kill()
			<-done
			if i >= 2 {
				return true // hangs every time
			}
		}
	}
	return true
}

type finding struct {
	prop, kind, name, what string
	variant                int
	index                  int64
}

func finish(prop, tier string, t0 time.Time, states []*shardState, confirmed []Replay, unconfirmed int) int {
	verif := os.Getenv("VERIF_DIR")
	parts := map[string]*PartStat{}
	var order []string
	complete := true
	for _, st := range states {
		if st == nil || !st.ok {
			complete = false
			continue
		}
		for _, p := range st.out.Parts {
			key := p.Name + "|" + p.Bound
			q := parts[key]
			if q == nil {
				c := *p
				c.Outcomes = map[uint64]int64{}
				c.Notes = map[string]int64{}
				c.Executions, c.States, c.Transitions, c.Diverged, c.Partial = 0, 0, 0, 0, 0
				c.Samples = nil
				q = &c
				parts[key] = q
				order = append(order, key)
			}
			q.Executions += p.Executions
			q.States += p.States
			q.Transitions += p.Transitions
			q.Diverged += p.Diverged
			q.Completed = q.Completed && p.Completed
			q.Partial += p.Partial
			q.Depth = min(q.Depth, p.Depth)
			if p.MaxPoints > q.MaxPoints {
				q.MaxPoints = p.MaxPoints
			}
			if p.Secs > q.Secs {
				q.Secs = p.Secs
			}
			for k, v := range p.Outcomes {
				q.Outcomes[k] += v
			}
			for k, v := range p.Notes {
				q.Notes[k] += v
			}
			if len(q.Samples) < 2 {
				q.Samples = append(q.Samples, p.Samples...)
			}
		}
	}
	var ex, states_, trans, distinct int64
	var samples []json.RawMessage
	var partsOut []map[string]any
	for _, k := range order {
		p := parts[k]
		if p.Planned >= 0 && p.Depth >= 0 {
			if tier == "thorough" && p.Diverged == 0 && p.Depth >= p.Planned-1 {
				// planned is a target there: the bound is what was reached
				p.Completed = true
			}
			p.Bound += fmt.Sprintf(", all executions with <=%d deviations", p.Depth)
			if p.Partial > 0 {
				p.Bound += fmt.Sprintf(" (and %d with more, out of time)", p.Partial)
			}
		} else if p.Planned >= 0 {
			p.Bound += fmt.Sprintf(", stopped in the executions without deviation (%d done)", p.Partial)
			p.Completed = false
		}
		complete = complete && p.Completed
		ex += p.Executions
		states_ += p.States
		trans += p.Transitions
		distinct += int64(len(p.Outcomes))
		if len(p.Samples) > 0 && len(samples) < 12 {
			samples = append(samples, p.Samples[0])
		}
		partsOut = append(partsOut, map[string]any{"name": p.Name, "bound": p.Bound, "variants_or_cases": p.Variants, "executions": p.Executions,
			"states": p.States, "transitions": p.Transitions, "distinct_outcomes": len(p.Outcomes), "diverged": p.Diverged,
			"max_choice_points": p.MaxPoints, "completed": p.Completed, "notes": p.Notes, "seconds": p.Secs})
	}
	if unconfirmed > 0 {
		complete = false
	}
	if os.Getenv("HARNESS_COARSE") != "" {
		complete = false
	}
	if samples == nil {
		samples = []json.RawMessage{json.RawMessage(`"none"`)}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states_, "transitions": trans, "traces_validated_against_impl": ex,
			"evaluations": ex, "distinct_nontrivial": distinct,
			"rule":       "every execution runs the real code of the current working tree (no separate model); states = nodes of the choice tree / enumerated cases, transitions = scheduler steps / operations executed, each complete execution is compared with the reference; distinct_nontrivial = distinct observable outcomes (wire bytes, callback transcripts, results) summed over parts",
			"exhaustive": complete, "samples": samples, "parts": partsOut, "unconfirmed_candidates": unconfirmed,
			"instrumented": os.Getenv("HARNESS_COARSE") == "",
		},
		"assumptions": assumptions(prop),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(confirmed),
	}
	if verif != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	for _, k := range order {
		p := parts[k]
		fmt.Printf("%s %-22s %9d executions %10d states %11d transitions %7d outcomes maxpts=%d completed=%v div=%d %.1fs  [%s]\n", prop, p.Name, p.Executions, p.States, p.Transitions, len(p.Outcomes), p.MaxPoints, p.Completed, p.Diverged, p.Secs, p.Bound)
	}
	fmt.Printf("%s %s: %d executions, %d distinct outcomes, exhaustive=%v, %.1f s\n", prop, tier, ex, distinct, complete, time.Since(t0).Seconds())
	if len(confirmed) == 0 {
		return 0
	}
	sort.Slice(confirmed, func(i, j int) bool {
		if len(confirmed[i].Devs) != len(confirmed[j].Devs) {
			return len(confirmed[i].Devs) < len(confirmed[j].Devs)
		}
		return confirmed[i].Name < confirmed[j].Name
	})
	r := confirmed[0]
	out := filepath.Join(verif, "evidence")
	if verif == "" {
		out = os.TempDir()
	}
	path := filepath.Join(out, prop+".replay.json")
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("%s: %s variant %d index %d %s\n", r.Kind, r.Name, r.Variant, r.Index, r.Label)
	fmt.Println(clip(r.Msg, 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

func assumptions(prop string) []string {
	return []string{
		"Go memory model races are explored at the granularity of synchronisation operations and, in statement-level passes, of statements; hardware reordering is not modelled",
		"Pools behave as strict LIFO free lists; condition variables wake waiters in FIFO order; mutexes are unfair (any waiter may win)",
		"The network is a fake net.Conn delivering bytes reliably in order with arbitrary read sizes, as stated per scenario; a single Write is atomic",
		"Bounds (variants, deviations, alphabets) as listed under coverage.parts",
	}
}
