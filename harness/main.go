// The worker: runs simulated executions of the instrumented library and judges
// them. It is started by the driver (vsim/cmd/dst).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"time"

	"vsim/rt"
)

func sleep(d int64) { rt.SleepFor(d) }

// spec identifies one simulated run.
type spec struct {
	Prop     string `json:"property"`
	Scenario string `json:"scenario"`
	Seed     uint64 `json:"seed"`
	Index    int    `json:"index"`
	Race     bool   `json:"race"`
}

type scenario struct {
	name   string
	weight float64
	fn     func(w *World)
}

type replayFile struct {
	spec
	Strategy  rt.Strategy             `json:"strategy"`
	Violation rt.Violation            `json:"violation"`
	Hash      string                  `json:"hash"`
	Sched     []rt.SchedDec           `json:"schedule"`
	Data      map[string][]rt.DataDec `json:"decisions"`
	Original  int                     `json:"original_decisions"`
	Minimised int                     `json:"minimised_decisions"`
	Trace     []string                `json:"trace"`
}

type outRec struct {
	Kind      string        `json:"kind"` // done, violation, error
	Runs      int           `json:"runs,omitempty"`
	Spec      *spec         `json:"spec,omitempty"`
	Violation *rt.Violation `json:"violation,omitempty"`
	Replay    string        `json:"replay,omitempty"`
	Hash      string        `json:"hash,omitempty"`
	Msg       string        `json:"msg,omitempty"`
	Stats     *stats        `json:"stats,omitempty"`
}

type stats struct {
	Runs       int              `json:"runs"`
	Nontrivial int              `json:"nontrivial"`
	Calls      int64            `json:"calls"`
	SimTime    int64            `json:"sim_time_ns"`
	Steps      uint64           `json:"steps"`
	Switches   uint64           `json:"switches"`
	Preempts   uint64           `json:"preempts"`
	Counters   map[string]int64 `json:"counters"`
	Scenarios  map[string]int   `json:"scenarios"`
	Strategies map[string]int   `json:"strategies"`
	Inter      []uint64         `json:"interleavings"` // distinct context-switch sequences
	States     []uint64         `json:"hashes"`        // distinct non-trivial executions
	Double     int              `json:"double_runs"`
	LimitHits  int              `json:"limit_hits"`
	OtherViol  map[string]int   `json:"other_violations"`
	Samples    []string         `json:"samples"`
	MaxSteps   uint64           `json:"max_steps"`
}

func scenariosOf(prop string) []scenario {
	all := map[string]func(w *World){}
	for n, f := range scenarioTable {
		all[n] = f
	}
	var out []scenario
	for _, m := range mixOf(prop) {
		f, ok := all[m.name]
		if !ok {
			panic("no scenario " + m.name)
		}
		out = append(out, scenario{m.name, m.weight, f})
	}
	return out
}

func pickScenario(prop string, p *rt.PRNG) scenario {
	ss := scenariosOf(prop)
	sum := 0.0
	for _, s := range ss {
		sum += s.weight
	}
	f := p.Float64() * sum
	for _, s := range ss {
		if f < s.weight {
			return s
		}
		f -= s.weight
	}
	return ss[0]
}

func pickStrategy(p *rt.PRNG) rt.Strategy {
	st := rt.Strategy{Kind: "random"}
	switch p.Uint64n(10) {
	case 0:
		st.Kind = "random" // switches only where a goroutine blocks
		st.PSync = 0.02
	case 1, 2:
		st.PStmt, st.PSync = 0.01, 0.1
	case 3, 4:
		st.PStmt, st.PSync = 0.05, 0.2
	case 5:
		st.PStmt, st.PSync = 0.25, 0.5
	default:
		st.Kind = "pct"
		st.Depth = 1 + int(p.Uint64n(6))
		st.Span = []uint64{200, 600, 2000, 6000}[p.Uint64n(4)]
	}
	st.PTimer = []float64{0, 0.1, 0.3, 0.6}[p.Uint64n(4)]
	st.PFreeze = []float64{0, 0, 0.02, 0.1, 0.4}[p.Uint64n(5)]
	st.PLazy = []float64{0, 0, 0.1, 0.4}[p.Uint64n(4)]
	return st
}

// steps allowed without progress (no byte moved), twice: the second time the
// scheduler is fair
const maxSteps = 20000000

// execute performs one run.
func execute(sp spec, dec *rt.Decisions, strat rt.Strategy, trace bool) *rt.Result {
	p := rt.NewPRNG(rt.Mix(sp.Seed, strHash(sp.Prop), uint64(sp.Index)))
	sc := pickScenario(sp.Prop, p)
	if sc.name == "huge" && strat.PStmt > 0 {
		strat.PStmt = 1e-4
	}
	if sp.Race {
		// addresses must not be reused while their history matters
		debug.SetGCPercent(-1)
		defer debug.SetGCPercent(400)
	}
	return rt.Run(dec, strat, maxSteps, sp.Race, trace, func() {
		w := newWorld(profileFor(sp.Prop), sp.Race)
		rt.S.Env = w
		rt.S.AllocLimit = 24 << 20
		rt.OnPanic(func(g *rt.G, msg string, lib bool, val any) {
			if !lib {
				rt.Fail(nil, "harness", "harness panic: %s", msg)
				return
			}
			if _, ok := val.(rt.AllocPanic); ok {
				rt.Fail([]string{"C09"}, "allocation", "%s", msg)
				return
			}
			rt.Fail([]string{"*"}, "panic", "the library panics: %s", msg)
		})
		sc.fn(w)
	})
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// relevant picks the violation of the property under test.
func relevant(prop string, vs []rt.Violation) *rt.Violation {
	for i := range vs {
		v := &vs[i]
		if v.Class == "livelock" {
			v.Props = []string{"*"}
		}
		for _, p := range v.Props {
			if p == prop || p == "*" {
				return v
			}
		}
	}
	return nil
}

func harnessTrouble(vs []rt.Violation) string {
	for _, v := range vs {
		if v.Class == "harness" || v.Class == "harness-deadlock" {
			return v.Class + ": " + v.Msg
		}
	}
	return ""
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "first run index")
	to := flag.Int("to", 1, "end of run indices")
	stride := flag.Int("stride", 1, "")
	budget := flag.Duration("budget", time.Minute, "")
	race := flag.Bool("race", false, "")
	replay := flag.String("replay", "", "")
	out := flag.String("replays", ".", "directory for replay files")
	trace := flag.Bool("trace", false, "")
	keep := flag.Bool("keep", false, "count violations and go on")
	one := flag.Int("one", -1, "run a single index, with its trace")
	flag.Parse()
	rt.RaceProps = []string{"C17"}
	debug.SetGCPercent(400)
	stdout := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	bw := bufio.NewWriter(stdout)
	emit := func(r outRec) {
		b, _ := json.Marshal(r)
		bw.Write(b)
		bw.WriteByte('\n')
		bw.Flush()
	}
	if err := loadSchema(); err != nil {
		emit(outRec{Kind: "error", Msg: "schema: " + err.Error()})
		os.Exit(2)
	}
	if *replay != "" {
		doReplay(*replay, *trace, stdout, emit)
		return
	}
	if *one >= 0 {
		sp := spec{Prop: *prop, Seed: *seed, Index: *one, Race: *race}
		strat := strategyOf(sp)
		res := execute(sp, rt.Explore(runSeed(sp)), strat, true)
		for _, l := range res.Trace {
			fmt.Fprintln(stdout, l)
		}
		fmt.Fprintf(stdout, "strategy %+v steps %d violations %v\n", strat, res.Steps, res.Violations)
		return
	}
	st := &stats{Counters: map[string]int64{}, Scenarios: map[string]int{}, Strategies: map[string]int{}, OtherViol: map[string]int{}}
	inter, states := map[uint64]bool{}, map[uint64]bool{}
	deadline := time.Now().Add(*budget)
	for i := *from; i < *to; i += *stride {
		if time.Now().After(deadline) {
			break
		}
		sp := spec{Prop: *prop, Seed: *seed, Index: i, Race: *race}
		strat := strategyOf(sp)
		sp.Scenario = scenarioName(sp)
		dec := rt.Explore(runSeed(sp))
		before := heapAllocs()
		res := execute(sp, dec, strat, false)
		grown := heapAllocs() - before
		if t := harnessTrouble(res.Violations); t != "" {
			emit(outRec{Kind: "error", Spec: &sp, Msg: t})
			os.Exit(2)
		}
		v := relevant(*prop, res.Violations)
		// recording the decisions of a long run takes memory, too
		if v == nil && *prop == "C09" && grown > 400<<20+256*uint64(len(dec.Sched)) {
			v = &rt.Violation{Props: []string{"C09"}, Class: "allocation-total", Msg: fmt.Sprintf("the run allocated %d MB for a few kilobytes of traffic", grown>>20)}
		}
		for _, o := range res.Violations {
			if v == nil || o.Class != v.Class {
				if k := strings.Join(o.Props, ",") + " " + o.Class; *keep && st.OtherViol[k] == 0 {
					st.Samples = append(st.Samples, fmt.Sprintf("%d %s: %s", i, k, o.Msg))
				}
				st.OtherViol[strings.Join(o.Props, ",")+" "+o.Class]++
			}
		}
		st.Runs++
		st.SimTime += res.SimTime
		st.Steps += res.Steps
		st.Switches += res.Switches
		st.Preempts += res.Preempts
		if res.Steps > st.MaxSteps {
			st.MaxSteps = res.Steps
		}
		if res.LimitHit {
			st.LimitHits++
		}
		for k, n := range res.Counters {
			st.Counters[k] += n
		}
		st.Scenarios[sp.Scenario]++
		st.Strategies[strat.Kind]++
		if res.Counters["nontrivial"] > 0 {
			st.Nontrivial++
		}
		if len(inter) < 400000 {
			inter[res.ILHash] = true
			if res.Counters["nontrivial"] > 0 {
				states[res.Hash] = true
			}
		}
		if len(st.Samples) < 3 && res.Counters["nontrivial"] > 0 && i%7 == *from%7 {
			st.Samples = append(st.Samples, fmt.Sprintf("index=%d scenario=%s strategy=%s steps=%d switches=%d simtime=%.3fs hash=%016x faults=%s",
				i, sp.Scenario, strat.Kind, res.Steps, res.Switches, float64(res.SimTime)/1e9, res.Hash, faultList(res.Counters)))
		}
		if st.Runs%16 == 1 && v == nil {
			// determinism: the same seed and the recorded decisions must both
			// give the same execution
			st.Double++
			r2 := execute(sp, rt.Explore(runSeed(sp)), strat, false)
			if r2.Hash != res.Hash || r2.Steps != res.Steps {
				emit(outRec{Kind: "error", Spec: &sp, Msg: fmt.Sprintf("nondeterminism: hash %x then %x, steps %d then %d", res.Hash, r2.Hash, res.Steps, r2.Steps)})
				os.Exit(2)
			}
			if !res.LimitHit {
				r3 := execute(sp, rt.Replay(dec.Sched, dec.Data), strat, false)
				if r3.Hash != res.Hash || r3.Steps != res.Steps {
					emit(outRec{Kind: "error", Spec: &sp, Msg: fmt.Sprintf("replay differs: hash %x then %x, steps %d then %d", res.Hash, r3.Hash, res.Steps, r3.Steps)})
					os.Exit(2)
				}
			}
		}
		if v != nil && *keep {
			k := strings.Join(v.Props, ",") + " " + v.Class
			if st.OtherViol[k] == 0 {
				st.Samples = append(st.Samples, fmt.Sprintf("%d %s: %s", i, k, v.Msg))
			}
			st.OtherViol[k]++
			continue
		}
		if v != nil {
			path, rv, hash := minimise(sp, strat, dec, v, *out)
			emit(outRec{Kind: "violation", Spec: &sp, Violation: rv, Replay: path, Hash: hash})
			break
		}
	}
	for h := range inter {
		st.Inter = append(st.Inter, h)
	}
	for h := range states {
		st.States = append(st.States, h)
	}
	emit(outRec{Kind: "done", Stats: st})
}

func faultList(c map[string]int64) string {
	var out []string
	for k, n := range c {
		if strings.HasPrefix(k, "fault.") {
			out = append(out, fmt.Sprintf("%s:%d", strings.TrimPrefix(k, "fault."), n))
		}
	}
	sortStrings(out)
	return strings.Join(out, " ")
}

func runSeed(sp spec) uint64 { return rt.Mix(sp.Seed, strHash(sp.Prop), uint64(sp.Index), 3) }

func strategyOf(sp spec) rt.Strategy {
	return pickStrategy(rt.NewPRNG(rt.Mix(sp.Seed, strHash(sp.Prop), uint64(sp.Index), 11)))
}

func scenarioName(sp spec) string {
	return pickScenario(sp.Prop, rt.NewPRNG(rt.Mix(sp.Seed, strHash(sp.Prop), uint64(sp.Index)))).name
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func heapAllocs() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}
