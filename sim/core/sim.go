// Package core is the simulator: one seeded tape of decisions, simulated time,
// cooperative tasks, simulated links and sinks, and fault injection. Nothing in
// a run reads a real clock, real randomness, the file system or the network.
package core

import (
	"container/heap"
	"errors"
	"fmt"
	"io"
	"iter"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"time"

	"verifsim/simyield"
)

// Violation is what a failing run reports.
type Violation struct {
	Class string
	Msg   string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

type hang struct{}
type stopTask struct{}

// Sim is one simulated run.
type Sim struct {
	T         *Tape
	Prop      string
	Faulty    bool // this run injects faults, for now
	WasFaulty bool // it was drawn to inject faults
	Tracing   bool
	Trace     []string
	TextHash  uint64
	Once      map[string]int // what a scenario drew once for the whole run

	now    int64
	seq    uint64
	evHash uint64
	Faults map[string]int
	Probes map[string]int
	States map[uint64]struct{}
	// Known lists the finding signatures that are on file for this property.
	Known    map[string]bool
	Findings map[string]string
	Switches int
	Events   int

	tasks  []*Task
	cur    *Task
	root   ctx
	q      evHeap
	armed  int64
	preMax int
	limit  int64 // statements per task
	preOn  bool
}

// taskBudget is how many statements of the library a task may execute; the
// longest task of any check takes about a tenth of it.
const taskBudget = 4 << 20

// ctx carries the step budget of one line of execution.
type ctx struct {
	budget int64 // -1: none
	pre    int64 // steps to next preemption, -1: none
	track  bool  // allocation is being measured
	base   uint64
	used   uint64
}

// libTask names tasks the library starts with go statements.
const libTask = "library"

// Task is one simulated thread of control.
type Task struct {
	Name string
	ID   int
	c    ctx
	next func() (struct{}, bool)
	stop func()
	yld  func(struct{}) bool
	wake func() bool
	done bool
}

// NewSim prepares a run.
func NewSim(prop string, t *Tape) *Sim {
	s := &Sim{T: t, Prop: prop, Faults: map[string]int{}, Probes: map[string]int{}, States: map[uint64]struct{}{},
		Findings: map[string]string{}, evHash: 14695981039346656037, TextHash: 14695981039346656037}
	s.limit = taskBudget
	s.root = ctx{budget: s.limit, pre: -1}
	return s
}

// ---- decisions

// Int returns a value in [0,n); 0 is the simplest.
func (s *Sim) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.T.draw(uint64(n)))
}

// Range returns a value in [lo,hi]; lo is the simplest.
func (s *Sim) Range(lo, hi int) int { return lo + s.Int(hi-lo+1) }

// Chance is true with probability permille/1000; false is the simplest.
func (s *Sim) Chance(permille int) bool {
	return int(s.T.draw(1000)) >= 1000-permille
}

// FaultChance is Chance, and always false in a fault-free run.
func (s *Sim) FaultChance(permille int) bool {
	if !s.Faulty {
		return false
	}
	return s.Chance(permille)
}

// U32 returns any 32-bit value.
func (s *Sim) U32() uint32 { return uint32(s.T.draw(1 << 32)) }

// U64 returns any 64-bit value.
func (s *Sim) U64() uint64 { return uint64(s.U32())<<32 | uint64(s.U32()) }

// Size returns a length in [0,max], small ones far more often.
func (s *Sim) Size(max int) int {
	switch s.Int(8) {
	case 0, 1, 2:
		return s.Int(min(max, 4) + 1)
	case 3, 4:
		return s.Int(min(max, 40) + 1)
	case 5, 6:
		return s.Int(min(max, 400) + 1)
	}
	return s.Int(max + 1)
}

// Bytes returns n bytes that cost two decisions: content matters rarely, and
// long tapes slow the search. Zero decisions give zero bytes.
func (s *Sim) Bytes(n int) []byte {
	b := make([]byte, n)
	s.FillBytes(b)
	return b
}

// FillBytes overwrites b with derived bytes.
func (s *Sim) FillBytes(b []byte) {
	if len(b) == 0 {
		return
	}
	seed := uint64(s.U32())
	if seed == 0 {
		clear(b)
		return
	}
	var z uint64
	for i := range b {
		if i&7 == 0 {
			seed = mix64(seed)
			z = seed
		}
		b[i] = byte(z)
		z >>= 8
	}
}

// Pick returns an index with the given weights; 0 is the simplest.
func (s *Sim) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Int(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// ---- reporting

// Fail ends the run with a violation.
func (s *Sim) Fail(class, f string, a ...any) {
	panic(&Violation{class, fmt.Sprintf(f, a...)})
}

// Finding reports a violation that may be on file. If it is listed, the run
// goes on; if not, it is a violation like any other.
func (s *Sim) Finding(sig, f string, a ...any) {
	if s.Known[sig] {
		if _, ok := s.Findings[sig]; !ok {
			s.Findings[sig] = fmt.Sprintf(f, a...)
		}
		return
	}
	s.Fail(sig, f, a...)
}

// Logf adds a line to the trace of a replay.
func (s *Sim) Logf(f string, a ...any) {
	if !s.Tracing {
		return
	}
	name := "-"
	if s.cur != nil {
		name = s.cur.Name
	}
	if c := s.ctx(); c.track {
		a := heapAllocs()
		defer func() { c.base += heapAllocs() - a }()
	}
	l := fmt.Sprintf("[%d t=%.6fs %s] ", s.seq, float64(s.now)/1e9, name) + fmt.Sprintf(f, a...)
	for i := 0; i < len(l); i++ {
		s.TextHash = (s.TextHash ^ uint64(l[i])) * 1099511628211
	}
	if len(s.Trace) < 5000 {
		s.Trace = append(s.Trace, l)
	}
}

// Fault records that an injected fault took effect.
func (s *Sim) Fault(kind string) {
	s.Faults[kind]++
	s.Ev(kind, 0)
	if kind != "short-read" && kind != "empty-read" {
		s.Logf("FAULT %s", kind)
	}
}

// Probe records that a condition of interest was reached.
func (s *Sim) Probe(name string) { s.Probes[name]++ }

// Ev mixes an event into the signature of this run's history.
func (s *Sim) Ev(kind string, v uint64) {
	h := s.evHash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	h = (h ^ v) * 1099511628211
	s.evHash = h
	s.Events++
}

// EvHash is the signature of the history of this run.
func (s *Sim) EvHash() uint64 { return s.evHash }

// State records an abstract state reached.
func (s *Sim) State(vs ...uint64) {
	h := uint64(14695981039346656037)
	for _, v := range vs {
		h = mix64(h ^ v)
	}
	s.States[h] = struct{}{}
}

// ---- simulated time and tasks

type event struct {
	at  int64
	seq uint64
	f   func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Now is the simulated time in nanoseconds.
func (s *Sim) Now() int64 { return s.now }

// Advance moves the simulated clock forward without other events.
func (s *Sim) Advance(d int64) { s.now += d }

// After schedules f.
func (s *Sim) After(d int64, f func()) {
	s.seq++
	heap.Push(&s.q, event{s.now + d, s.seq, f})
}

// Go adds a task. It starts when the scheduler first picks it.
func (s *Sim) Go(name string, f func()) *Task {
	t := &Task{Name: name, ID: len(s.tasks), c: ctx{budget: s.limit, pre: -1}}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yld = yield
		defer func() {
			// a panic loses its stack on the way through the scheduler
			switch x := recover().(type) {
			case nil:
			case *Violation, stopTask, hang, tooLong:
				panic(x)
			default:
				panic(toViolation(x))
			}
		}()
		f()
	})
	s.tasks = append(s.tasks, t)
	return t
}

// InTask tells whether a task is running.
func (s *Sim) InTask() bool { return s.cur != nil }

// Yield lets the scheduler decide who goes on.
func (s *Sim) Yield() {
	t := s.cur
	if t == nil {
		return
	}
	s.charge()
	if !t.yld(struct{}{}) {
		panic(stopTask{})
	}
}

// Block parks the task until cond holds.
func (s *Sim) Block(cond func() bool) {
	t := s.cur
	if t == nil {
		if !cond() {
			panic("sim: blocked outside a task")
		}
		return
	}
	if cond() {
		return
	}
	t.wake = cond
	s.Yield()
	t.wake = nil
}

// Sleep parks the task for d nanoseconds of simulated time.
func (s *Sim) Sleep(d int64) {
	if s.cur == nil {
		s.now += d
		return
	}
	done := false
	s.After(d, func() { done = true })
	s.Block(func() bool { return done })
}

// Run schedules tasks and events until nothing is left to do. It returns the
// names of tasks that can never go on.
func (s *Sim) Run() []string {
	last := -1
	run := make([]*Task, 0, 8)
	for {
		for len(s.q) > 0 && s.q[0].at <= s.now {
			heap.Pop(&s.q).(event).f()
		}
		run = run[:0]
		alive := 0
		// the task that ran last comes first: choice 0 is "no switch"
		if last >= 0 && !s.tasks[last].done {
			t := s.tasks[last]
			if t.wake == nil || t.wake() {
				run = append(run, t)
			}
		}
		for i, t := range s.tasks {
			if t.done {
				continue
			}
			alive++
			if i != last && (t.wake == nil || t.wake()) {
				run = append(run, t)
			}
		}
		if len(run) == 0 {
			if len(s.q) > 0 {
				e := heap.Pop(&s.q).(event)
				s.now = e.at
				e.f()
				continue
			}
			if alive == 0 {
				s.tasks = s.tasks[:0]
				return nil
			}
			var names []string
			for _, t := range s.tasks {
				// a worker of the library's own may wait for work forever
				if !t.done && t.Name != libTask {
					names = append(names, t.Name)
				}
			}
			return names
		}
		t := run[0]
		if len(run) > 1 {
			t = run[s.Int(len(run))]
		}
		if t.ID != last {
			s.Switches++
			s.Ev("sw", uint64(t.ID))
		}
		last = t.ID
		s.seq++
		s.cur = t
		s.arm(&t.c)
		if t.c.track {
			t.c.base = heapAllocs()
		}
		_, ok := t.next()
		if t.c.track {
			t.c.used += heapAllocs() - t.c.base
		}
		s.charge()
		s.cur = nil
		s.arm(&s.root)
		if !ok {
			t.done = true
		}
	}
}

// Close unwinds tasks that are still parked.
func (s *Sim) Close() {
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		s.cur = t
		func() {
			defer func() { recover() }()
			t.stop()
		}()
	}
	s.cur = nil
	s.tasks = nil
	simyield.Slow, simyield.Block, simyield.Spawn = nil, nil, nil
	simyield.Left = 1 << 62
}

// ---- step budgets and preemption inside the library

func (s *Sim) ctx() *ctx {
	if s.cur != nil {
		return &s.cur.c
	}
	return &s.root
}

func (s *Sim) arm(c *ctx) {
	l := int64(1 << 62)
	if c.budget >= 0 {
		l = c.budget
	}
	if s.preOn && s.cur != nil {
		if c.pre < 0 {
			c.pre = int64(s.Int(s.preMax))
		}
		l = min(l, c.pre)
	}
	s.armed = l
	simyield.Left = l
}

func (s *Sim) charge() {
	c := s.ctx()
	used := s.armed - simyield.Left
	if c.budget >= 0 {
		c.budget = max(0, c.budget-used)
	}
	if c.pre >= 0 {
		c.pre = max(-1, c.pre-used)
	}
	s.armed = simyield.Left
}

func (s *Sim) disarm() {
	simyield.Left = 1 << 62
	s.armed = simyield.Left
}

func (s *Sim) slow(id int) {
	c := s.ctx()
	used := s.armed - simyield.Left
	if c.budget >= 0 {
		c.budget -= used
		if c.budget < 0 {
			c.budget = -1
			s.disarm()
			panic(hang{})
		}
	}
	if c.pre >= 0 || s.preOn {
		c.pre -= used
		if c.pre < 0 && s.cur != nil {
			c.pre = -1
			s.Ev("pre", uint64(id))
			s.armed = simyield.Left
			if !s.cur.yld(struct{}{}) {
				panic(stopTask{})
			}
			return // re-armed by the scheduler
		}
	}
	s.arm(c)
}

// Preempt turns on preemption inside the library: a running task is
// interrupted after up to maxSteps of the library's statements.
func (s *Sim) Preempt(maxSteps int) {
	s.preOn = true
	s.preMax = maxSteps
}

// Extend gives the current task k times the usual statements, and all later
// ones too. The run may take more decisions, and tasks are interrupted less often.
func (s *Sim) Extend(k int64) {
	c := s.ctx()
	s.charge()
	if c.budget >= 0 {
		c.budget = max(c.budget, k*taskBudget)
	}
	s.limit = max(s.limit, k*taskBudget)
	s.T.max = 8 * maxTape
	s.preMax = 10000
	s.arm(c)
}

// Budget runs f, which may take at most n statements of the library.
func (s *Sim) Budget(n int64, what string, f func()) {
	c := s.ctx()
	s.charge()
	old := c.budget
	c.budget = n
	s.arm(c)
	defer func() {
		r := recover()
		c := s.ctx()
		s.charge()
		c.budget = old
		s.arm(c)
		if r != nil {
			if _, ok := r.(hang); ok {
				panic(&Violation{"no-termination", fmt.Sprintf("%s: still running after %d statements", what, n)})
			}
			panic(r)
		}
	}()
	f()
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// what the runtime sets up on first use must not happen inside a run
func init() {
	heapAllocs()
	os.Getenv("TZ")
	_ = time.Now().Local().String()
	_ = fmt.Sprintf("%v %+v %q %x", map[string]int{"a": 1}, struct{ a []byte }{}, "x", []byte{1})
	_, _ = strconv.ParseFloat("x", 64)
	_ = errors.Is(io.EOF, io.ErrUnexpectedEOF)
}

func heapAllocs() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// Alloc runs f and fails if it allocates more than limit bytes. What other tasks
// allocate meanwhile does not count.
func (s *Sim) Alloc(limit uint64, what string, f func()) {
	s.T.reserve(1 << 18)
	c := s.ctx()
	c.track, c.used, c.base = true, 0, heapAllocs()
	f()
	c.track = false
	if d := c.used + heapAllocs() - c.base; d > limit {
		s.Fail("excessive-allocation", "%s: allocated more than %d bytes", what, limit)
	}
}

// ---- one run

// Scenario is a workload with its oracle.
type Scenario func(s *Sim)

// Result is what one run left behind.
type Result struct {
	V    *Violation
	Sim  *Sim
	Tape []uint32
	Bad  string // trouble of the harness itself
}

// Execute performs one run.
func Execute(prop string, sc Scenario, t *Tape, known map[string]bool, tracing bool) (r Result) {
	s := NewSim(prop, t)
	s.Known = known
	s.Tracing = tracing
	simyield.Gen++
	simyield.SetRand(0x5eed)
	simyield.Slow = s.slow
	simyield.Block = s.blockedOnLock
	simyield.Spawn = func(f func()) { s.Go(libTask, f) }
	r.Sim = s
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case *Violation:
				r.V = v
			case tooLong:
				r.V = &Violation{"no-termination", "the run goes on after millions of decisions"}
			case hang:
				r.V = &Violation{"no-termination", fmt.Sprintf("a task still runs after %d statements of the library", s.limit)}
			default:
				r.V = toViolation(x)
			}
			if r.V != nil && r.V.Class == badClass {
				r.Bad, r.V = r.V.Msg, nil
			}
			if r.V != nil {
				s.Logf("VIOLATION %s: %s", r.V.Class, r.V.Msg)
			}
		}
		s.Close()
		r.Tape = t.Used()
	}()
	s.arm(&s.root)
	s.Faulty = s.Int(4) != 0
	s.WasFaulty = s.Faulty
	simyield.SetRand(uint64(s.U32()))
	sc(s)
	return r
}

func (s *Sim) blockedOnLock(cond func() bool) {
	if s.cur == nil {
		panic(&Violation{"self-deadlock", "the library waits for a lock nobody can release"})
	}
	s.Ev("lock", 0)
	s.Block(cond)
}

// panicSite names the innermost frame of the library on the panicking stack.
func panicSite() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	first := ""
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "moggle-mog/goav/") {
			return fmt.Sprintf("%s:%d", f.Function, f.Line)
		}
		if first == "" && !strings.HasPrefix(f.Function, "runtime.") {
			first = fmt.Sprintf("%s:%d", f.Function, f.Line)
		}
		if !more {
			break
		}
	}
	return first
}

const badClass = "harness-panic"

// toViolation turns a panic into a violation if the library raised it, and into
// trouble of the harness if not.
func toViolation(x any) *Violation {
	site := panicSite()
	if !strings.Contains(site, "goav/") {
		return &Violation{badClass, fmt.Sprintf("%v at %s\n%s", x, site, stackText())}
	}
	return &Violation{"panic", fmt.Sprintf("%v at %s", x, site)}
}

func stackText() string {
	b := make([]byte, 16<<10)
	return string(b[:runtime.Stack(b, false)])
}
