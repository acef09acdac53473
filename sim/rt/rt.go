// Package rt is the deterministic simulator core: a cooperative scheduler in
// which exactly one simulated goroutine runs at a time, a virtual clock with an
// event queue, and the recorded decision streams from which every
// nondeterministic choice of a run is taken.
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// S is the simulation in progress (one per process at a time), nil outside runs.
var S *Sim

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	ID      int
	Name    string
	Lib     bool // started by a go statement of the library under test
	state   gstate
	reason  string
	wake    chan struct{}
	exited  chan struct{}
	vc      VC
	prio    int64
	burst   uint64 // steps since the goroutine last blocked
	token   any    // scratch for blocking operations
	started bool
	fn      func()
	Parent  *G     // goroutine that started this one
	steps   uint64 // scheduling points passed before the current slice
	restAt  uint64 // scheduling points passed when it last blocked, mutexes aside
	sliceAt uint64 // step at which the current slice began
}

// Steps returns the number of scheduling points the goroutine has passed.
func (g *G) Steps() uint64 {
	if S != nil && S.cur == g {
		return g.steps + S.step - g.sliceAt
	}
	return g.steps
}

// Root returns the harness goroutine on whose behalf g runs.
func (g *G) Root() *G {
	for g.Lib && g.Parent != nil {
		g = g.Parent
	}
	return g
}

// Event is a scheduled callback on the virtual clock.
type Event struct {
	At  int64
	seq uint64
	fn  func()
	idx int
	vc  VC
	own bool // a short timer of the library's own
}

type evHeap []*Event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].At != h[j].At {
		return h[i].At < h[j].At
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *evHeap) Push(x any)   { e := x.(*Event); e.idx = len(*h); *h = append(*h, e) }
func (h *evHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

// Violation is one oracle failure.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
}

// Strategy is the scheduling policy of a run.
type Strategy struct {
	Kind    string  // "random" or "pct"
	PStmt   float64 // probability of a preemption at a statement boundary
	PSync   float64 // probability of a preemption at a synchronisation operation
	PTimer  float64 // probability that a preemption fires the next event early
	Depth   int     // pct: number of priority change points
	Span    uint64  // pct: steps over which change points are spread
	PFreeze float64 // probability that a preemption freezes the goroutine for a while
	PLazy   float64 // probability that a goroutine of the library starts only a while later
}

// Sim is one simulated execution.
type Sim struct {
	Dec        *Decisions
	Strat      Strategy
	cur        *G
	kernel     *G // pseudo goroutine in whose name events run
	gs         []*G
	runq       []*G
	now        int64
	harnessVC  VC
	events     evHeap
	evseq      uint64
	step       uint64
	nextSwitch uint64
	maxStep    uint64
	budget     uint64 // steps allowed without progress
	hardStep   uint64
	fair       bool // step limit hit once: fair round robin from here
	limitHit   bool
	pctPoints  []uint64
	pctLow     int64
	dying      bool
	done       chan struct{}
	quiescer   *G // main goroutine waiting for quiescence
	quiesceEnd int64
	owns       int // short timers of the library pending
	polls      int // timers of the library fired in a row without anything else happening
	passes     int // values passed since there was progress
	skipped    int64
	early      int // the same, for those fired while somebody was runnable
	idleHooks  []func()
	inIdle     bool
	fired      uint64
	forced     bool // an event fires because nothing is runnable
	frozen     int  // goroutines taken off the processor for some time
	freezes    int

	Violations []Violation
	Panicked   bool
	Race       bool
	sh         *shadow
	syncVC     map[uintptr]*VC
	AllocLimit int64
	AllocTotal int64
	BigAlloc   int64

	hash     uint64
	ilHash   uint64 // interleaving hash: sequence of context switches only
	switches uint64
	preempts uint64
	Trace    []string
	TraceOn  bool
	Counters map[string]int64
	onPanic  func(g *G, msg string, lib bool, val any)
	Env      any // harness state
}

// Result summarises a finished run.
type Result struct {
	Violations []Violation
	Hash       uint64
	ILHash     uint64
	Steps      uint64
	SimTime    int64
	Switches   uint64
	Preempts   uint64
	Goroutines int
	Counters   map[string]int64
	LimitHit   bool
	Trace      []string
}

var resets []func()

// RegisterReset registers a function which restores the package-level variables
// of an instrumented package to their initial values before each run.
func RegisterReset(f func()) { resets = append(resets, f) }

// Run executes fn as the main goroutine of a new simulation.
func Run(dec *Decisions, strat Strategy, maxStep uint64, race, trace bool, fn func()) *Result {
	s := &Sim{Dec: dec, Strat: strat, maxStep: maxStep, budget: maxStep, hardStep: 100000000, done: make(chan struct{}), Race: race,
		TraceOn: trace, Counters: map[string]int64{}, hash: 14695981039346656037, ilHash: 14695981039346656037,
		AllocLimit: 1 << 62}
	if race {
		s.sh = newShadow()
		s.syncVC = map[uintptr]*VC{}
	}
	S = s
	for _, f := range resets {
		f()
	}
	s.initStrategy()
	g := s.newG("main", fn)
	s.kernel = s.newG("kernel", nil)
	s.kernel.state = gDead
	s.cur = g
	g.state = gRunning
	s.startReal(g)
	g.wake <- struct{}{}
	<-s.done
	s.killAll()
	S = nil
	return &Result{Violations: s.Violations, Hash: s.hash, ILHash: s.ilHash, Steps: s.step, SimTime: s.now,
		Switches: s.switches, Preempts: s.preempts, Goroutines: len(s.gs), Counters: s.Counters, LimitHit: s.limitHit, Trace: s.Trace}
}

func (s *Sim) initStrategy() {
	s.pctLow = -1
	s.setNext(^uint64(0))
	if s.Dec.Replaying() {
		s.setNext(s.Dec.nextSched(0))
		return
	}
	if s.Strat.Kind == "pct" {
		span := s.Strat.Span
		if span == 0 {
			span = 2000
		}
		for i := 0; i < s.Strat.Depth; i++ {
			s.pctPoints = append(s.pctPoints, 1+s.Dec.sched.Uint64n(span))
		}
		sort.Slice(s.pctPoints, func(i, j int) bool { return s.pctPoints[i] < s.pctPoints[j] })
		if len(s.pctPoints) > 0 {
			s.setNext(s.pctPoints[0])
		}
		return
	}
	s.drawNextSwitch()
}

func (s *Sim) drawNextSwitch() {
	n := ^uint64(0)
	if s.Strat.PStmt > 0 {
		n = s.step + s.Dec.sched.Geom(s.Strat.PStmt)
	}
	s.setNext(n)
}

func (s *Sim) setNext(n uint64) {
	if n > s.maxStep+1 {
		n = s.maxStep + 1
	}
	if s.fair && n > s.step+1000 {
		n = s.step + 1000
	}
	s.nextSwitch = n
}

func (s *Sim) newG(name string, fn func()) *G {
	g := &G{ID: len(s.gs), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}), fn: fn}
	if !s.Dec.Replaying() && s.Strat.Kind == "pct" {
		g.prio = int64(s.Dec.sched.Uint64n(1 << 30))
	}
	if s.Race {
		g.vc = make(VC, g.ID+1)
		if s.cur != nil {
			g.vc = s.cur.vc.clone(g.ID + 1)
			s.cur.vc.tick(s.cur.ID)
		}
		g.vc[g.ID] = 1
	}
	g.Parent = s.cur
	s.gs = append(s.gs, g)
	return g
}

func (s *Sim) startReal(g *G) {
	g.started = true
	go func() {
		defer close(g.exited)
		<-g.wake
		if s.dying {
			return
		}
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil && !s.dying {
					s.notePanic(g, r)
				}
			}
			if s.dying {
				return
			}
			g.state = gDead
			if g.ID == 0 || s.Panicked {
				s.finish()
				return
			}
			s.schedule(true)
		}()
		g.fn()
		normal = true
	}()
}

func (s *Sim) notePanic(g *G, r any) {
	msg := fmt.Sprint(r)
	var pcs [60]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	where, lib := "", false
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "savaki/kafka") {
			where, lib = f.Function, true
			break
		}
		if strings.HasPrefix(f.Function, "main.") {
			where = f.Function + fmt.Sprintf(":%d", f.Line)
			break
		}
		if !more {
			break
		}
	}
	s.Panicked = true
	s.Note("panic in %s: %s", where, msg)
	if s.onPanic != nil {
		s.onPanic(g, msg+" in "+where, lib, r)
	} else {
		s.Fail(nil, "panic", "panic in goroutine %s: %s in %s", g.Name, msg, where)
	}
}

// OnPanic installs the handler for panics of simulated goroutines; lib tells
// whether the innermost code of interest is the library's.
func OnPanic(f func(g *G, msg string, lib bool, val any)) { S.onPanic = f }

func (s *Sim) finish() {
	s.dying = true
	s.nextSwitch = 0
	close(s.done)
}

// killAll unwinds the goroutines that are still alive after the run has ended.
func (s *Sim) killAll() {
	for _, g := range s.gs {
		if !g.started {
			continue
		}
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
}

// park hands control to another goroutine and returns when this one is resumed.
func (s *Sim) park(g *G) {
	<-g.wake
	if s.dying {
		runtime.Goexit()
	}
}

func (s *Sim) mix(v uint64) {
	s.hash = (s.hash ^ v) * 1099511628211
}

// MixHash adds an observable value to the run's determinism hash.
func MixHash(v uint64) {
	if S != nil {
		S.mix(v)
	}
}

// switchTo makes next the running goroutine. me is parked unless it is dead.
func (s *Sim) switchTo(me, next *G, dead bool) {
	if next == me {
		me.state = gRunning
		return
	}
	s.switches++
	s.mix(uint64(next.ID)<<32 ^ s.step)
	s.ilHash = (s.ilHash ^ uint64(next.ID+1) ^ uint64(len(next.reason))<<20) * 1099511628211
	me.steps += s.step - me.sliceAt
	next.sliceAt = s.step
	next.state = gRunning
	next.reason = ""
	s.cur = next
	if !next.started {
		s.startReal(next)
	}
	next.wake <- struct{}{}
	if !dead {
		s.park(me)
	}
}

// schedule picks and resumes the next goroutine after the current one blocked
// or died.
func (s *Sim) schedule(dead bool) {
	me := s.cur
	s.step++
	for {
		if s.step > s.maxStep {
			s.overLimit()
		}
		if len(s.runq) > 0 {
			i := 0
			if len(s.runq) > 1 {
				i = s.pickForced()
			}
			next := s.runq[i]
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			s.switchTo(me, next, dead)
			return
		}
		if !s.inIdle && s.frozen == 0 && len(s.idleHooks) > 0 && !s.polling() {
			s.inIdle = true
			for _, h := range s.idleHooks {
				h()
			}
			s.inIdle = false
			if len(s.runq) > 0 {
				continue
			}
		}
		if len(s.events) > 0 && (s.quiescer == nil || s.events[0].At <= s.quiesceEnd) {
			s.forced = true
			s.fireNext(false)
			s.forced = false
			continue
		}
		if s.quiescer != nil {
			g := s.quiescer
			s.quiescer = nil
			s.ready(g)
			continue
		}
		// main is blocked for good: end the run
		s.Fail(nil, "harness-deadlock", "main goroutine blocked for ever: %s", s.describe())
		s.finish()
		if !dead {
			s.park(me)
		}
		return
	}
}

// Progress tells that the run got somewhere (bytes moved, a call completed):
// the step budget starts again.
func Progress() {
	s := S
	if s == nil || s.dying {
		return
	}
	s.polls, s.early, s.passes = 0, 0, 0
	if s.maxStep >= 1<<61 || s.step > s.hardStep {
		return
	}
	if b := s.step + s.budget; b > s.maxStep {
		s.maxStep = b
	}
}

// Did tells that a goroutine changed something other goroutines can see.
func Did() {
	if S != nil {
		S.polls = 0
	}
}

func (s *Sim) overLimit() {
	if !s.limitHit {
		s.limitHit = true
		s.fair = true
		s.maxStep = s.step + s.budget
		s.setNext(s.nextSwitch)
		return
	}
	if s.maxStep < 1<<61 {
		s.maxStep = 1 << 62
		s.Fail(nil, "livelock", "step budget exhausted: %s", s.describe())
		s.finish()
		runtime.Goexit()
	}
}

func (s *Sim) fireNext(early bool) {
	e := heap.Pop(&s.events).(*Event)
	if e.At > s.now {
		if early {
			s.skipped += e.At - s.now
		}
		s.now = e.At
	}
	if e.own {
		s.owns--
	}
	if !e.own {
		s.polls, s.early = 0, 0
	} else if early {
		// somebody is busy, perhaps polling too
		if s.busy() {
			s.polls, s.early = 0, 0
		} else if s.early++; s.early%4 == 0 && s.early/4 > pollLimit {
			s.late(s.early/4 - pollLimit)
		}
	} else if s.polls++; s.polls > pollLimit {
		s.late(s.polls - pollLimit)
	}
	s.mix(0x9e3779b97f4a7c15 ^ uint64(e.At))
	cur := s.cur
	s.cur = s.kernel
	if s.Race {
		s.kernel.vc = e.vc.clone(2)
		s.kernel.vc[1] = uint32(s.evseq) + 2
		s.evseq++
	}
	e.fn()
	s.cur = cur
	s.fired++
}

// pollLimit is how many timers of the library may fire in a row, with nothing
// else happening, before they begin to fire late.
const pollLimit = 5000

// pollSleep is the longest sleep that counts as polling.
const pollSleep = 10e6

// late lets the clock run ahead, but not past anything that is due: a library
// that polls must not use up the run while it waits.
func (s *Sim) late(n int) {
	k := n / 500
	if k > 10 {
		if k = 10 + (k-10)/4; k > 24 {
			k = 24
		}
	}
	t := s.now + 100000<<k
	for _, e := range s.events {
		if !e.own && e.At < t {
			t = e.At
		}
	}
	if s.quiescer != nil && s.quiesceEnd < t {
		t = s.quiesceEnd
	}
	if t > s.now {
		s.now = t
		s.Counters["reach.polling"]++
	}
}

// passed notes that a value passes from a goroutine to another: the library
// is doing something, unless it does so for ever.
func (s *Sim) passed() {
	if s.passes++; s.passes < 300000 {
		s.polls, s.early = 0, 0
	}
}

// Skipped is the time that has passed while somebody was runnable.
func Skipped() int64 { return S.skipped }

// Polled reports whether timers of the library have fired late.
func Polled() bool { return S.Counters["reach.polling"] > 0 }

// Fired returns the number of events fired so far.
func Fired() uint64 { return S.fired }

// Idle reports whether an event runs while no goroutine is runnable.
func Idle() bool { return len(S.runq) == 0 && S.forced && S.frozen == 0 && !S.polling() }

// polling reports whether a short sleep of the library's is about to end, after
// which it may find something to do.
func (s *Sim) polling() bool { return s.owns > 0 && s.polls < 100 }

func (s *Sim) pickForced() int {
	n := len(s.runq)
	if s.Dec.Replaying() {
		v, ok := s.Dec.schedAt(s.step)
		if !ok {
			return 0
		}
		return int(v) % n
	}
	i := 0
	if s.fair {
		i = 0
	} else if s.Strat.Kind == "pct" {
		for j := 1; j < n; j++ {
			if s.runq[j].prio > s.runq[i].prio {
				i = j
			}
		}
	} else {
		i = int(s.Dec.sched.Uint64n(uint64(n)))
	}
	if i != 0 {
		s.Dec.recordSched(s.step, uint32(i))
	}
	return i
}

func (s *Sim) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		g.burst = 0
		s.runq = append(s.runq, g)
	}
}

// Ready makes a blocked goroutine runnable.
func Ready(g *G) { S.ready(g) }

// Cur returns the running goroutine.
func Cur() *G { return S.cur }

// Block parks the current goroutine until Ready is called for it.
func Block(reason string) {
	s := S
	if s.dying {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gBlocked
	g.reason = reason
	if reason != "mutex" {
		g.restAt = g.Steps()
	}
	s.schedule(false)
}

// busySteps is how far a goroutine gets without blocking if it does not poll.
const busySteps = 2000

// busy reports whether some goroutine is working, as opposed to polling.
func (s *Sim) busy() bool {
	if s.cur != s.kernel && s.cur.Steps()-s.cur.restAt > busySteps {
		return true
	}
	for _, g := range s.runq {
		if g.Steps()-g.restAt > busySteps {
			return true
		}
	}
	return false
}

// Y is the scheduling point between two statements of instrumented code.
func Y() {
	s := S
	if s == nil {
		return
	}
	s.step++
	if s.step >= s.nextSwitch {
		s.stmtPoint()
	}
}

func (s *Sim) stmtPoint() {
	if s.dying {
		runtime.Goexit()
	}
	if s.cur == s.kernel {
		// library code called by a simulated server: no preemption here
		s.nextSwitch = s.step + 1
		return
	}
	if s.step > s.maxStep {
		s.overLimit()
	}
	if s.Dec.Replaying() {
		if v, ok := s.Dec.schedAt(s.step); ok {
			s.doPreempt(v)
		}
		s.setNext(s.Dec.nextSched(s.step))
		return
	}
	if s.Strat.Kind == "pct" && !s.fair {
		freeze := false
		for len(s.pctPoints) > 0 && s.pctPoints[0] <= s.step {
			s.pctPoints = s.pctPoints[1:]
			s.cur.prio = s.pctLow
			s.pctLow--
			freeze = true
		}
		n := ^uint64(0)
		if len(s.pctPoints) > 0 {
			n = s.pctPoints[0]
		}
		s.setNext(n)
		if !freeze || !s.maybeFreeze() {
			s.pctCheck()
		}
		return
	}
	s.randomPreempt()
	s.drawNextSwitch()
}

// mayFireEarly: an event may overtake running code, as if the code were slow, by
// at most 50ms of simulated time.
func (s *Sim) mayFireEarly() bool {
	return s.Strat.PTimer > 0 && len(s.events) > 0 && s.events[0].At <= s.now+50e6
}

// pctCheck switches to the runnable goroutine of highest priority.
func (s *Sim) pctCheck() {
	s.cur.burst++
	if s.cur.burst > 3000 {
		s.cur.burst = 0
		s.cur.prio = s.pctLow
		s.pctLow--
	}
	if s.mayFireEarly() && s.Dec.sched.Float64() < s.Strat.PTimer*0.1 {
		s.Dec.recordSched(s.step, 0)
		s.doPreempt(0)
		return
	}
	best := -1
	for j, g := range s.runq {
		if g.prio > s.cur.prio && (best < 0 || g.prio > s.runq[best].prio) {
			best = j
		}
	}
	if best >= 0 {
		s.Dec.recordSched(s.step, uint32(best+1))
		s.doPreempt(uint32(best + 1))
	}
}

// maxFreezes bounds how often goroutines are frozen in a run.
const maxFreezes = 6

// freezeTimes are the virtual times for which a goroutine may be frozen.
var freezeTimes = [...]int64{2e6, 200e3, 10e6, 50e6}

// freezeBase and above are the decisions that freeze the running goroutine.
const freezeBase = 1 << 20

// maybeFreeze takes the running goroutine off the processor for some virtual
// time, as a busy machine does: everything else, the network included, goes on.
func (s *Sim) maybeFreeze() bool {
	if s.Strat.PFreeze == 0 || s.fair || s.Dec.sched.Float64() >= s.Strat.PFreeze {
		return false
	}
	return s.freeze()
}

func (s *Sim) freeze() bool {
	if s.freezes >= maxFreezes || len(s.runq)+len(s.events) == 0 {
		return false
	}
	v := freezeBase + uint32(s.Dec.sched.Uint64n(uint64(len(freezeTimes))))
	s.Dec.recordSched(s.step, v)
	s.doPreempt(v)
	return true
}

// lazyStart may hold a goroutine back before its first statement.
func (s *Sim) lazyStart() {
	if s.dying {
		runtime.Goexit()
	}
	s.step++
	if s.step > s.maxStep {
		s.overLimit()
	}
	if s.Dec.Replaying() {
		if s.step >= s.nextSwitch {
			s.stmtPoint()
		}
		return
	}
	if s.Strat.PLazy > 0 && !s.fair && s.Dec.sched.Float64() < s.Strat.PLazy && s.freeze() {
		s.Counters["fault.late_start"]++
	}
}

func (s *Sim) randomPreempt() {
	if s.maybeFreeze() {
		return
	}
	if s.mayFireEarly() && s.Dec.sched.Float64() < s.Strat.PTimer {
		s.Dec.recordSched(s.step, 0)
		s.doPreempt(0)
		return
	}
	if len(s.runq) == 0 {
		return
	}
	v := uint32(1)
	if s.fair {
		v = 1
	} else {
		v = uint32(1 + s.Dec.sched.Uint64n(uint64(len(s.runq))))
	}
	s.Dec.recordSched(s.step, v)
	s.doPreempt(v)
}

// doPreempt: v == 0 fires the next event early, v > 0 switches to runq[v-1].
func (s *Sim) doPreempt(v uint32) {
	if v == 0 {
		if len(s.events) > 0 && (s.quiescer == nil || s.events[0].At <= s.quiesceEnd) {
			s.preempts++
			s.fireNext(true)
		}
		return
	}
	if v >= freezeBase {
		g := s.cur
		s.preempts++
		s.freezes++
		s.frozen++
		s.Counters["fault.freeze"]++
		s.Note("frozen")
		over := false
		At(s.now+freezeTimes[int(v-freezeBase)%len(freezeTimes)], func() {
			over = true
			s.ready(g)
		})
		for !over {
			g.state = gBlocked
			g.reason = "frozen"
			s.schedule(false)
		}
		s.frozen--
		return
	}
	if len(s.runq) == 0 {
		return
	}
	s.preempts++
	i := int(v-1) % len(s.runq)
	next := s.runq[i]
	s.runq = append(s.runq[:i], s.runq[i+1:]...)
	me := s.cur
	me.state = gRunnable
	s.runq = append(s.runq, me)
	s.switchTo(me, next, false)
}

// Sync is the scheduling point of a synchronisation operation.
func Sync() {
	s := S
	if s == nil || s.cur == s.kernel && !s.dying {
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	s.step++
	if s.step > s.maxStep {
		s.overLimit()
	}
	if s.Dec.Replaying() {
		if s.step >= s.nextSwitch {
			s.stmtPoint()
		}
		return
	}
	if s.Strat.Kind == "pct" && !s.fair {
		if s.step >= s.nextSwitch {
			s.stmtPoint()
		} else {
			s.pctCheck()
		}
		return
	}
	if s.step >= s.nextSwitch {
		s.stmtPoint()
		return
	}
	if s.fair {
		s.cur.burst++
		if s.cur.burst%64 == 0 {
			s.randomPreempt()
		}
		return
	}
	if s.Strat.PSync > 0 && (len(s.runq) > 0 || len(s.events) > 0) && s.Dec.sched.Float64() < s.Strat.PSync {
		s.randomPreempt()
	}
}

// Linger is the scheduling point after an I/O operation: a good moment for a
// goroutine to lose the processor while the network goes on.
func Linger() {
	s := S
	if s == nil || s.dying || s.cur == s.kernel {
		return
	}
	s.step++
	if s.Dec.Replaying() {
		if s.step >= s.nextSwitch {
			s.stmtPoint()
		}
		return
	}
	if s.step >= s.nextSwitch {
		s.stmtPoint()
		return
	}
	if s.Strat.PFreeze > 0 && !s.fair && s.Dec.sched.Float64() < 0.1 {
		s.freeze()
	}
}

// Gosched yields to another runnable goroutine, if there is one; with none it
// lets the next event fire.
func Gosched() {
	s := S
	if s.dying {
		runtime.Goexit()
	}
	s.step++
	if len(s.runq) == 0 && len(s.events) > 0 && (s.quiescer == nil || s.events[0].At <= s.quiesceEnd) {
		s.fireNext(false)
	}
	if s.step > s.maxStep {
		s.overLimit()
	}
	if len(s.runq) > 0 {
		me := s.cur
		me.state = gRunnable
		s.runq = append(s.runq, me)
		s.schedule(false)
	}
}

// Dying reports whether the run has ended and goroutines are being unwound.
func Dying() bool { return S == nil || S.dying }

// Go starts a simulated goroutine for a go statement of the library.
func Go(fn func()) {
	s := S
	if s == nil {
		panic("go statement outside a simulation")
	}
	if s.dying {
		runtime.Goexit()
	}
	g := s.newG(callerName(fn), func() {
		s.lazyStart()
		fn()
	})
	g.Lib = true
	g.state = gRunnable
	s.runq = append(s.runq, g)
	Sync()
}

func callerName(fn func()) string { return "lib" }

// GoHarness starts a goroutine of the harness. When it has ended, the next
// Quiesce is ordered after it, as if the caller had waited for it.
func GoHarness(name string, fn func()) *G {
	s := S
	g := s.newG(name, func() {
		fn()
		Release(&s.harnessVC)
	})
	g.state = gRunnable
	s.runq = append(s.runq, g)
	return g
}

// Done reports whether g has ended.
func (g *G) Done() bool { return g.state == gDead }

// Reason tells what a blocked goroutine waits for.
func (g *G) Reason() string { return g.reason }

// LiveLib returns the library goroutines that have not ended.
func LiveLib() []*G {
	var out []*G
	for _, g := range S.gs {
		if g.Lib && g.state != gDead {
			out = append(out, g)
		}
	}
	return out
}

func (s *Sim) describe() string {
	var b strings.Builder
	for _, g := range s.gs {
		if g.state != gDead {
			fmt.Fprintf(&b, "[g%d %s state=%d %s]", g.ID, g.Name, g.state, g.reason)
		}
	}
	return b.String()
}

// Describe lists the goroutines that are alive.
func Describe() string { return S.describe() }

// Quiesce blocks the main goroutine until no other goroutine is runnable and
// no event is due before the given virtual time.
func Quiesce(until int64) {
	s := S
	g := s.cur
	s.quiescer = g
	s.quiesceEnd = until
	Block("quiesce")
	if s.quiescer == g {
		s.quiescer = nil
	}
	Acquire(&s.harnessVC)
}

// Forever is a time later than every event.
const Forever = int64(1) << 62

// Now is the virtual time in nanoseconds.
func Now() int64 { return S.now }

// At schedules fn at virtual time t.
func At(t int64, fn func()) *Event {
	s := S
	if t < s.now {
		t = s.now
	}
	s.evseq++
	e := &Event{At: t, seq: s.evseq, fn: fn}
	if s.Race {
		e.vc = s.cur.vc.clone(2)
		s.cur.vc.tick(s.cur.ID)
	}
	heap.Push(&s.events, e)
	return e
}

// After schedules fn after d nanoseconds of virtual time.
func After(d int64, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	t := S.now + d
	if t < 0 {
		t = Forever
	}
	return At(t, fn)
}

// AfterTimer is After for a timer that the code under test set up itself.
func AfterTimer(d int64, fn func()) *Event {
	e := After(d, fn)
	if d <= pollSleep {
		e.own = true
		S.owns++
	}
	return e
}

// Stop removes a scheduled event; it reports whether it was still pending.
func (e *Event) Stop() bool {
	if e == nil || e.idx < 0 || S == nil {
		return false
	}
	s := S
	if e.idx < len(s.events) && s.events[e.idx] == e {
		heap.Remove(&s.events, e.idx)
		if e.own {
			s.owns--
		}
		e.idx = -1
		return true
	}
	return false
}

// AtIdle registers a hook that runs whenever no goroutine is runnable, before
// the clock advances.
func AtIdle(f func()) { S.idleHooks = append(S.idleHooks, f) }

// NextEventAt returns the time of the next event, or Forever.
func NextEventAt() int64 {
	if len(S.events) == 0 {
		return Forever
	}
	return S.events[0].At
}

// Step returns the number of scheduling points passed.
func Step() uint64 { return S.step }

// Fail records a violation.
func Fail(props []string, class, format string, args ...any) {
	S.Fail(props, class, format, args...)
}

func (s *Sim) Fail(props []string, class, format string, args ...any) {
	if s.dying && class != "panic" {
		return
	}
	v := Violation{Props: props, Class: class, Msg: fmt.Sprintf(format, args...)}
	for _, o := range s.Violations {
		if o.Class == v.Class && fmt.Sprint(o.Props) == fmt.Sprint(v.Props) {
			return
		}
	}
	s.Note("VIOLATION %v %s: %s", props, class, v.Msg)
	s.Violations = append(s.Violations, v)
}

// Note adds a line to the trace of a traced run.
func (s *Sim) Note(format string, args ...any) {
	if s.TraceOn && len(s.Trace) < 20000 {
		cur := "-"
		if s.cur != nil {
			cur = fmt.Sprintf("g%d(%s)", s.cur.ID, s.cur.Name)
		}
		s.Trace = append(s.Trace, fmt.Sprintf("step=%d t=%dns %s: %s", s.step, s.now, cur, fmt.Sprintf(format, args...)))
	}
}

// Note adds a line to the trace.
func Note(format string, args ...any) {
	if S != nil && S.TraceOn {
		S.Note(format, args...)
	}
}

// Count increments a named counter of the run.
func Count(name string) {
	if S != nil {
		S.Counters[name]++
	}
}

// CountN adds to a named counter of the run.
func CountN(name string, n int64) {
	if S != nil {
		S.Counters[name] += n
	}
}

// SetBudget changes the number of steps a run may take without progress.
func SetBudget(n uint64) {
	S.budget, S.maxStep, S.hardStep = n, S.step+n, 50*n
}

// SleepFor lets the current goroutine of the harness sleep.
func SleepFor(d int64) {
	if Dying() {
		return
	}
	if d <= 0 {
		Gosched()
		return
	}
	g := Cur()
	fired := false
	After(d, func() { fired = true; Ready(g) })
	for !fired {
		Block("sleep")
	}
}
