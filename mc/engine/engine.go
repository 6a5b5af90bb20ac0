// Package engine is a stateless, exhaustive explorer.
//
// A scenario is a function of a choice source. The explorer runs it once per
// leaf of the choice tree (depth-first, all leaves), on several workers. Every
// nondeterministic decision of the driver (what the transport answers, which
// operation is called next, which thread runs, where a fault is injected, which
// value a field takes) is a choice point, so a completed exploration is a
// statement about every behaviour within the scenario's bounds.
package engine

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// maxChoices limits a single execution; reaching it means the code under test
// keeps asking the environment for answers forever (a livelock).
const maxChoices = 200000

// Scenario is a closed bounded system to explore.
type Scenario struct {
	Name string
	// Bound describes the explored bound in words.
	Bound string
	Run   func(c *C)
}

// C is the context of one execution.
type C struct {
	prefix  []int
	choices []int
	arity   []int
	devs    int // deviations left, -1 = unlimited
	devMax  int

	ops     int64
	checks  int64
	obs     uint64
	skipped bool
	known   []string

	w       *worker
	tracing bool
	trace   []string
}

type failure struct {
	msg string
}
type skip struct{}
type runaway struct{}
type mismatch struct{ msg string }

// Choose returns a value in [0,n); every value is explored.
func (c *C) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(c.choices)
	if i >= maxChoices {
		panic(runaway{})
	}
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(mismatch{fmt.Sprintf("choice %d at point %d out of range %d", v, i, n)})
		}
		if i < len(c.arity) && c.arity[i] != n {
			panic(mismatch{fmt.Sprintf("arity changed at point %d: %d then %d", i, c.arity[i], n)})
		}
	}
	c.choices = append(c.choices, v)
	if i < len(c.arity) {
		c.arity[i] = n
	} else {
		c.arity = append(c.arity, n)
	}
	return v
}

// SetDeviations bounds the number of non-default answers given by Dev.
func (c *C) SetDeviations(n int) { c.devs = n; c.devMax = n }

// Dev is like Choose, but every non-zero answer uses up one deviation; when
// none are left the default answer 0 is given without a choice point.
func (c *C) Dev(n int) int {
	if c.devs == 0 {
		return 0
	}
	v := c.Choose(n)
	if v != 0 && c.devs > 0 {
		c.devs--
	}
	return v
}

// Bool is Choose(2) == 1.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Op counts one transition of the system under test.
func (c *C) Op() { c.ops++ }

// Ops counts n transitions.
func (c *C) Ops(n int) { c.ops += int64(n) }

// Checked counts one comparison of the implementation with the reference.
func (c *C) Checked() { c.checks++ }

var seed = maphash.MakeSeed()

// State records an observed state (canonical form given as bytes).
func (c *C) State(b []byte) {
	h := maphash.Bytes(seed, b)
	c.addState(h)
}

// StateS is State for strings.
func (c *C) StateS(s string) {
	h := maphash.String(seed, s)
	c.addState(h)
}

func (c *C) addState(h uint64) {
	c.obs = c.obs*1099511628211 ^ h
	if c.w != nil {
		c.w.addState(h)
	}
}

// Skip abandons an execution that is outside the domain.
func (c *C) Skip() { panic(skip{}) }

// Fail reports a violation.
func (c *C) Fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Assert fails unless cond holds, and counts a check.
func (c *C) Assert(cond bool, format string, args ...interface{}) {
	c.checks++
	if !cond {
		panic(failure{fmt.Sprintf(format, args...)})
	}
}

// Known reports that the known finding with the given key was observed; the
// execution is abandoned. If the finding is not listed it is a violation.
func (c *C) Known(key string, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if Listed(key) {
		c.known = append(c.known, key)
		panic(skip{})
	}
	panic(failure{msg + " [" + key + "]"})
}

// Tracing tells whether this execution is being recorded.
func (c *C) Tracing() bool { return c.tracing }

// Logf records a line of the trace (only when tracing).
func (c *C) Logf(format string, args ...interface{}) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// KnownFindings is the set of listed finding keys.
var KnownFindings = map[string]string{}

// Listed tells whether a finding key is in the committed file.
func Listed(key string) bool {
	_, ok := KnownFindings[key]
	return ok
}

// Result of running one execution.
type Result struct {
	Violation string
	Skipped   bool
	Mismatch  string
	Choices   []int
	Trace     []string
	Obs       uint64
	Known     []string
}

func (c *C) runOnce(s *Scenario) (res Result) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case skip:
				res.Skipped = true
			case failure:
				res.Violation = e.msg
			case runaway:
				res.Violation = fmt.Sprintf("livelock: more than %d environment interactions in one execution", maxChoices)
			case mismatch:
				res.Mismatch = e.msg
			default:
				res.Violation = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
		res.Known = c.known
	}()
	s.Run(c)
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	// drop the frames above the panic
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 14 {
		lines = lines[:14]
	}
	return strings.Join(lines, "\n")
}

// RunChoices replays one execution with tracing.
func RunChoices(s *Scenario, choices []int, trace bool) Result {
	c := &C{prefix: choices, devs: -1, tracing: trace}
	res := c.runOnce(s)
	res.Choices = append([]int(nil), c.choices...)
	res.Trace = c.trace
	res.Obs = c.obs
	if res.Mismatch == "" && len(c.choices) < len(choices) && res.Violation == "" && !res.Skipped {
		res.Mismatch = fmt.Sprintf("only %d of %d choices consumed", len(c.choices), len(choices))
	}
	return res
}

type job struct {
	prefix []int
}

type worker struct {
	e       *explorer
	id      int
	states  map[uint64]struct{}
	cur     atomic.Pointer[running]
	start   atomic.Int64
	execs   int64
	ops     int64
	checks  int64
	skipped int64
	maxDep  int
}

type running struct{ prefix []int }

func (w *worker) addState(h uint64) {
	if len(w.states) < w.e.stateCap {
		w.states[h] = struct{}{}
	} else if _, ok := w.states[h]; !ok {
		w.e.stateCapped.Store(true)
	}
}

// Stats of one explored scenario.
type Stats struct {
	Scenario    string     `json:"scenario"`
	Bound       string     `json:"bound"`
	Executions  int64      `json:"executions"`
	Transitions int64      `json:"transitions"`
	Checks      int64      `json:"oracle_comparisons"`
	States      int64      `json:"states"`
	StateCapped bool       `json:"state_set_capped,omitempty"`
	Skipped     int64      `json:"outside_domain"`
	MaxDepth    int        `json:"max_choice_depth"`
	Exhaustive  bool       `json:"exhaustive"`
	WallS       float64    `json:"wall_s"`
	Samples     [][]string `json:"-"`
	Known       []string   `json:"known_findings,omitempty"`
}

// Violation found.
type Violation struct {
	Scenario string
	Message  string
	Choices  []int
	Trace    []string
	Stable   bool
}

type explorer struct {
	s    *Scenario
	mu   sync.Mutex
	cond *sync.Cond
	jobs []job
	idle int32
	done bool

	stop        atomic.Bool
	capped      atomic.Bool
	stateCapped atomic.Bool
	stateCap    int
	workers     []*worker
	deadline    time.Time
	vio         []Violation
	known       map[string]struct{}
	samples     [][]int
	sampleObs   []uint64
	execTotal   atomic.Int64
	fatal       string
}

// HangLimit is how long one execution may take before it is considered hung.
var HangLimit = 60 * time.Second

// HeapLimit is the heap size that a single check may reach.
var HeapLimit uint64 = 8 << 30

// Options of a run.
type Options struct {
	Workers  int
	Deadline time.Time
	StateCap int
}

// Explore exhausts a scenario.
func Explore(s *Scenario, o Options) (Stats, []Violation, error) {
	t0 := time.Now()
	if o.Workers <= 0 {
		o.Workers = runtime.GOMAXPROCS(0)
	}
	if o.StateCap == 0 {
		o.StateCap = 2000000
	}
	e := &explorer{s: s, deadline: o.Deadline, stateCap: o.StateCap/o.Workers + 1, known: map[string]struct{}{}}
	e.cond = sync.NewCond(&e.mu)
	e.jobs = []job{{}}
	var wg sync.WaitGroup
	for i := 0; i < o.Workers; i++ {
		w := &worker{e: e, id: i, states: make(map[uint64]struct{})}
		e.workers = append(e.workers, w)
	}
	finished := make(chan struct{})
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *worker) { defer wg.Done(); w.loop() }(w)
	}
	go func() { wg.Wait(); close(finished) }()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	hung := false
wait:
	for {
		select {
		case <-finished:
			break wait
		case <-tick.C:
			if v := e.watch(); v != nil {
				e.mu.Lock()
				e.vio = append(e.vio, *v)
				e.mu.Unlock()
				e.stop.Store(true)
				hung = true
				break wait
			}
		}
	}
	st := Stats{Scenario: s.Name, Bound: s.Bound, WallS: time.Since(t0).Seconds()}
	if hung {
		return st, e.vio, nil
	}
	all := make(map[uint64]struct{})
	for _, w := range e.workers {
		st.Executions += w.execs
		st.Transitions += w.ops
		st.Checks += w.checks
		st.Skipped += w.skipped
		if w.maxDep > st.MaxDepth {
			st.MaxDepth = w.maxDep
		}
		for h := range w.states {
			all[h] = struct{}{}
		}
		w.states = nil
	}
	st.States = int64(len(all))
	st.StateCapped = e.stateCapped.Load()
	st.Exhaustive = !e.capped.Load() && len(e.vio) == 0 && e.fatal == ""
	for k := range e.known {
		st.Known = append(st.Known, k)
	}
	sort.Strings(st.Known)
	if e.fatal != "" {
		return st, e.vio, fmt.Errorf("%s", e.fatal)
	}
	// replay samples with tracing; they must observe the same states
	for i, ch := range e.samples {
		r := RunChoices(s, ch, true)
		if r.Mismatch != "" {
			return st, e.vio, fmt.Errorf("replay diverged in %s: %s", s.Name, r.Mismatch)
		}
		if r.Obs != e.sampleObs[i] && r.Violation == "" {
			return st, e.vio, fmt.Errorf("replay of %s observed different states for choices %v", s.Name, ch)
		}
		if !r.Skipped {
			st.Samples = append(st.Samples, r.Trace)
		}
	}
	st.WallS = time.Since(t0).Seconds()
	return st, e.vio, nil
}

func (e *explorer) watch() *Violation {
	now := time.Now().UnixNano()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	var oldest *worker
	for _, w := range e.workers {
		st := w.start.Load()
		if st == 0 {
			continue
		}
		if oldest == nil || st < oldest.start.Load() {
			oldest = w
		}
	}
	if oldest == nil {
		return nil
	}
	cur := oldest.cur.Load()
	st := oldest.start.Load()
	if cur == nil || st == 0 {
		return nil
	}
	if time.Duration(now-st) > HangLimit {
		// confirm on a fresh run before believing it
		ch := make(chan struct{})
		prefix := append([]int(nil), cur.prefix...)
		go func() { RunChoices(e.s, prefix, false); close(ch) }()
		select {
		case <-ch:
			return nil
		case <-time.After(HangLimit):
		}
		if oldest.start.Load() != st {
			return nil
		}
		return &Violation{Scenario: e.s.Name, Message: fmt.Sprintf("hang: an execution did not finish within %v (twice)", HangLimit), Choices: prefix, Stable: true}
	}
	if ms.HeapAlloc > HeapLimit && time.Duration(now-st) > 2*time.Second {
		return &Violation{Scenario: e.s.Name, Message: fmt.Sprintf("unbounded memory: heap grew to %d bytes during one execution", ms.HeapAlloc), Choices: append([]int(nil), cur.prefix...), Stable: true}
	}
	return nil
}

func (w *worker) loop() {
	e := w.e
	for {
		e.mu.Lock()
		for len(e.jobs) == 0 && !e.done {
			n := atomic.AddInt32(&e.idle, 1)
			if int(n) == len(e.workers) {
				e.done = true
				e.cond.Broadcast()
				atomic.AddInt32(&e.idle, -1)
				break
			}
			e.cond.Wait()
			atomic.AddInt32(&e.idle, -1)
		}
		if e.done {
			e.mu.Unlock()
			return
		}
		j := e.jobs[len(e.jobs)-1]
		e.jobs = e.jobs[:len(e.jobs)-1]
		e.mu.Unlock()
		w.explore(j)
	}
}

func (w *worker) explore(j job) {
	e := w.e
	fixed := len(j.prefix)
	c := &C{w: w}
	prefix := append([]int(nil), j.prefix...)
	for n := 0; ; n++ {
		if e.stop.Load() {
			return
		}
		if !e.deadline.IsZero() && n&63 == 0 && time.Now().After(e.deadline) {
			e.capped.Store(true)
			return
		}
		// arities of the replayed prefix (all but its last point are kept from
		// the previous execution) must not change: nondeterminism is an error.
		keep := len(prefix)
		if len(c.arity) < keep {
			keep = len(c.arity)
		}
		*c = C{prefix: prefix, choices: c.choices[:0], arity: c.arity[:keep], devs: -1, w: w}
		w.cur.Store(&running{prefix})
		w.start.Store(time.Now().UnixNano())
		r := c.runOnce(e.s)
		w.start.Store(0)
		w.execs++
		w.ops += c.ops
		w.checks += c.checks
		if len(c.choices) > w.maxDep {
			w.maxDep = len(c.choices)
		}
		if r.Mismatch != "" || len(c.choices) < len(prefix) && !r.Skipped && r.Violation == "" {
			// The driver is deterministic, so the code under test answered the
			// same calls differently: state leaked from another execution.
			r.Violation = fmt.Sprintf("same history, different behaviour (state leaks between independent executions): %s", r.Mismatch)
			e.mu.Lock()
			e.vio = append(e.vio, Violation{Scenario: e.s.Name, Message: r.Violation, Choices: append([]int(nil), prefix...)})
			e.mu.Unlock()
			e.stop.Store(true)
			return
		}
		if len(r.Known) > 0 {
			e.mu.Lock()
			for _, k := range r.Known {
				e.known[k] = struct{}{}
			}
			e.mu.Unlock()
		}
		if r.Skipped {
			w.skipped++
		} else if r.Violation != "" {
			w.report(r, c.choices)
			if collect == 0 {
				return
			}
		} else {
			t := e.execTotal.Add(1)
			if t == 1 || t == 25 || t == 1000 || t == 50000 || t == 1000000 {
				e.mu.Lock()
				e.samples = append(e.samples, append([]int(nil), c.choices...))
				e.sampleObs = append(e.sampleObs, c.obs)
				e.mu.Unlock()
			}
		}
		c.arity = c.arity[:len(c.choices)]
		// donate work to idle workers
		if atomic.LoadInt32(&e.idle) > 0 {
			for i := fixed; i < len(c.choices); i++ {
				if c.choices[i]+1 < c.arity[i] {
					e.mu.Lock()
					for a := c.choices[i] + 1; a < c.arity[i]; a++ {
						p := make([]int, i+1)
						copy(p, c.choices[:i])
						p[i] = a
						e.jobs = append(e.jobs, job{p})
					}
					e.cond.Broadcast()
					e.mu.Unlock()
					fixed = i + 1
					break
				}
			}
		}
		// next leaf
		i := len(c.choices) - 1
		for i >= fixed && c.choices[i]+1 >= c.arity[i] {
			i--
		}
		if i < fixed {
			return
		}
		np := make([]int, i+1)
		copy(np, c.choices[:i+1])
		np[i]++
		prefix = np
	}
}

func (w *worker) report(r Result, choices []int) {
	e := w.e
	ch := append([]int(nil), choices...)
	if collect > 0 {
		// development aid: list many violations instead of stopping at the first
		collectMu.Lock()
		defer collectMu.Unlock()
		if collectN++; collectN <= collect {
			fmt.Fprintf(os.Stderr, "COLLECT %s: %s\n", e.s.Name, r.Violation)
		}
		return
	}
	stable := true
	for i := 0; i < 5; i++ {
		r2 := RunChoices(e.s, ch, false)
		if r2.Violation == "" {
			stable = false
		}
	}
	tr := RunChoices(e.s, ch, true)
	e.mu.Lock()
	e.vio = append(e.vio, Violation{Scenario: e.s.Name, Message: r.Violation, Choices: ch, Trace: tr.Trace, Stable: stable})
	e.mu.Unlock()
	e.stop.Store(true)
}

var (
	collect, _ = strconv.Atoi(os.Getenv("MC_COLLECT"))
	collectMu  sync.Mutex
	collectN   int
)

// Debugf prints to stderr when MC_DEBUG is set.
func Debugf(format string, args ...interface{}) {
	if os.Getenv("MC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}
