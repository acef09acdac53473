// dst is the driver of the deterministic simulation: it instruments the current
// working tree of the repository, builds the worker, runs it over many seeds and
// reports.
//
//	dst -prop C01 -tier quick        check one property
//	dst -replay FILE                 re-execute a replay file
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsim/rewrite"
)

type violation struct {
	Props []string
	Class string
	Msg   string
}

type record struct {
	Kind      string          `json:"kind"`
	Spec      json.RawMessage `json:"spec"`
	Violation *violation      `json:"violation"`
	Replay    string          `json:"replay"`
	Hash      string          `json:"hash"`
	Msg       string          `json:"msg"`
	Stats     *stats          `json:"stats"`
	worker    int
}

type stats struct {
	Runs       int              `json:"runs"`
	Nontrivial int              `json:"nontrivial"`
	SimTime    int64            `json:"sim_time_ns"`
	Steps      uint64           `json:"steps"`
	Switches   uint64           `json:"switches"`
	Preempts   uint64           `json:"preempts"`
	Counters   map[string]int64 `json:"counters"`
	Scenarios  map[string]int   `json:"scenarios"`
	Strategies map[string]int   `json:"strategies"`
	Inter      []uint64         `json:"interleavings"`
	States     []uint64         `json:"hashes"`
	Double     int              `json:"double_runs"`
	LimitHits  int              `json:"limit_hits"`
	OtherViol  map[string]int   `json:"other_violations"`
	Samples    []string         `json:"samples"`
	MaxSteps   uint64           `json:"max_steps"`
}

var (
	root string
	repo string
	dir  string // scratch
)

func env(extra ...string) []string {
	var e []string
	for _, v := range os.Environ() {
		k, _, _ := strings.Cut(v, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GOMAXPROCS", "GOGC", "GODEBUG", "GOOS", "GOARCH", "GOEXPERIMENT", "CGO_ENABLED":
			continue
		}
		e = append(e, v)
	}
	if os.Getenv("HOME") == "" {
		e = append(e, "HOME=/root")
	}
	e = append(e, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	return append(e, extra...)
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if dir != "" && strings.Contains(dir, "vsim-") {
		os.RemoveAll(dir)
	}
}

// build instruments the repository and builds the worker.
func build(race bool) (string, *rewrite.Stats) {
	lib := filepath.Join(dir, "lib")
	st, err := rewrite.Run(rewrite.Options{Src: repo, Dst: lib, Tags: "verif", Race: race, Env: env()})
	if errors.Is(err, rewrite.ErrSource) {
		die("the repository does not build: %v", err)
	}
	if err != nil {
		die("instrumentation: %v", err)
	}
	write := func(p, s string) {
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			die("%v", err)
		}
	}
	write(filepath.Join(lib, "go.mod"), fmt.Sprintf("module %s\n\ngo 1.26\n\nrequire vsim v0.0.0\n\nreplace vsim => %s/sim\n", st.Module, root))
	mod := filepath.Join(dir, "worker.mod")
	write(mod, fmt.Sprintf("module vharness\n\ngo 1.26\n\nrequire (\n\t%s v0.0.0\n\tvsim v0.0.0\n)\n\nreplace (\n\t%s => %s\n\tvsim => %s/sim\n)\n", st.Module, st.Module, lib, root))
	bin := filepath.Join(dir, "worker")
	cmd := exec.Command("go", "build", "-modfile="+mod, "-o", bin, ".")
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		die("building the worker: %v\n%s", err, out)
	}
	return bin, st
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	runs := flag.Int("runs", 0, "number of runs instead of the tier's")
	budget := flag.Duration("budget", 0, "time limit of the search instead of the tier's")
	workers := flag.Int("workers", 0, "number of worker processes")
	flag.StringVar(&root, "root", "/verif", "")
	flag.StringVar(&repo, "repo", "/repo", "")
	seedFlag := flag.Uint64("seed", 0, "seed instead of VERIF_SEED")
	buildOnly := flag.Bool("build", false, "only instrument and build")
	noEvidence := flag.Bool("n", false, "write no evidence")
	flag.Parse()
	start := time.Now()

	var err error
	if root, err = filepath.Abs(root); err != nil {
		die("%v", err)
	}
	if dir, err = os.MkdirTemp("", "vsim-"); err != nil {
		die("%v", err)
	}
	defer cleanup()

	if *buildOnly {
		build(false)
		return
	}
	if *replay != "" {
		doReplay(*replay)
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if *seedFlag != 0 {
		seed = *seedFlag
	}
	n, limit := effort(*prop, *tier)
	if n == 0 {
		die("unknown property %q", *prop)
	}
	if *runs > 0 {
		n = *runs
	}
	if *budget > 0 {
		limit = *budget
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	fmt.Printf("property %s, tier %s, seed %d, up to %d runs, %d workers\n", *prop, *tier, seed, n, *workers)
	race := *prop == "C17"
	bin, rst := build(race)
	built := time.Since(start)

	recs := make(chan record, 64)
	var cmds []*exec.Cmd
	left := 0
	for i := 0; i < *workers; i++ {
		args := []string{"-prop", *prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-to", fmt.Sprint(n), "-stride", fmt.Sprint(*workers),
			"-budget", limit.String(), "-replays", filepath.Join(dir, "replays")}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.Command(bin, args...)
		cmd.Env = env("GOMAXPROCS=1", "GOTRACEBACK=single")
		out, err := cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		var se bytes.Buffer
		cmd.Stderr = &se
		if err := cmd.Start(); err != nil {
			die("starting a worker: %v", err)
		}
		cmds = append(cmds, cmd)
		left++
		go func(i int) {
			r := bufio.NewReaderSize(out, 1<<20)
			done := false
			for {
				line, err := r.ReadBytes('\n')
				if len(line) > 1 {
					var rec record
					if json.Unmarshal(line, &rec) == nil {
						rec.worker = i
						done = done || rec.Kind == "done" || rec.Kind == "error"
						recs <- rec
					}
				}
				if err != nil {
					break
				}
			}
			err := cmd.Wait()
			if !done {
				msg := se.String()
				if len(msg) > 3000 {
					msg = msg[:3000]
				}
				recs <- record{Kind: "crash", worker: i, Msg: fmt.Sprintf("worker %d ended without a report: %v\n%s", i, err, msg)}
			}
			recs <- record{Kind: "exit", worker: i}
		}(i)
	}
	kill := func() {
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	sum := &stats{Counters: map[string]int64{}, Scenarios: map[string]int{}, Strategies: map[string]int{}, OtherViol: map[string]int{}}
	inter, states := map[uint64]bool{}, map[uint64]bool{}
	var found *record
	var trouble []string
	watchdog := time.After(limit + 120*time.Second)
	searchStart := time.Now()
	killed := false
	for left > 0 {
		select {
		case r := <-recs:
			switch r.Kind {
			case "exit":
				left--
			case "violation":
				if found == nil {
					r := r
					found = &r
				}
			case "done":
				add(sum, r.Stats, inter, states)
				if found != nil && r.worker == found.worker && !killed {
					killed = true
					kill()
				}
			case "error":
				trouble = append(trouble, fmt.Sprintf("%s (spec %s)", r.Msg, r.Spec))
			case "crash":
				if !killed {
					trouble = append(trouble, r.Msg)
				}
			}
		case <-watchdog:
			if !killed {
				trouble = append(trouble, "watchdog: a worker does not end")
				killed = true
				kill()
			}
			watchdog = nil
		}
	}
	wall := time.Since(searchStart)
	if found == nil && len(trouble) > 0 {
		die("%s", strings.Join(trouble, "\n"))
	}
	var out string
	if found != nil {
		// the minimised replay must fail the same way in a fresh process
		if found.Replay == "" {
			die("no replay file for %v", found.Violation)
		}
		msg, o := runReplay(bin, found.Replay, false)
		if msg != "reproduced" {
			die("the violation %q of %s does not replay (%s)", found.Violation.Msg, found.Spec, o)
		}
		out = filepath.Join(root, "evidence", "replay", filepath.Base(found.Replay))
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			die("%v", err)
		}
		b, err := os.ReadFile(found.Replay)
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(out, b, 0o644); err != nil {
			die("%v", err)
		}
	}
	if !*noEvidence {
		evidence(*prop, *tier, seed, sum, len(inter), len(states), wall, time.Since(start), built, rst, found, *workers)
	}
	fmt.Printf("%d runs (%d of them repeated twice to prove determinism), %d distinct interleavings, %.0f simulated seconds, %.1fs build, %.1fs search\n",
		sum.Runs, sum.Double, len(inter), float64(sum.SimTime)/1e9, built.Seconds(), wall.Seconds())
	if found != nil {
		fmt.Printf("%s: %s\n", found.Violation.Class, found.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, out)
		cleanup()
		os.Exit(1)
	}
	fmt.Printf("property %s held on everything explored\n", *prop)
}

func add(sum, s *stats, inter, states map[uint64]bool) {
	sum.Runs += s.Runs
	sum.Nontrivial += s.Nontrivial
	sum.SimTime += s.SimTime
	sum.Steps += s.Steps
	sum.Switches += s.Switches
	sum.Preempts += s.Preempts
	sum.Double += s.Double
	sum.LimitHits += s.LimitHits
	if s.MaxSteps > sum.MaxSteps {
		sum.MaxSteps = s.MaxSteps
	}
	for k, v := range s.Counters {
		sum.Counters[k] += v
	}
	for k, v := range s.Scenarios {
		sum.Scenarios[k] += v
	}
	for k, v := range s.Strategies {
		sum.Strategies[k] += v
	}
	for k, v := range s.OtherViol {
		sum.OtherViol[k] += v
	}
	for _, h := range s.Inter {
		inter[h] = true
	}
	for _, h := range s.States {
		states[h] = true
	}
	sum.Samples = append(sum.Samples, s.Samples...)
}

func runReplay(bin, path string, trace bool) (string, string) {
	args := []string{"-replay", path}
	if trace {
		args = append(args, "-trace")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = env("GOMAXPROCS=1")
	o, _ := cmd.Output()
	last := o
	if i := bytes.LastIndexByte(bytes.TrimRight(o, "\n"), '\n'); i >= 0 {
		last = o[i+1:]
		if trace {
			os.Stdout.Write(o[:i+1])
		}
	}
	var r record
	json.Unmarshal(last, &r)
	return r.Msg, string(last)
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var sp struct {
		Property string
		Race     bool
	}
	if err := json.Unmarshal(b, &sp); err != nil {
		die("%v", err)
	}
	bin, _ := build(sp.Race)
	msg, o := runReplay(bin, path, true)
	fmt.Print(o)
	if msg == "reproduced" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", sp.Property, path)
		cleanup()
		os.Exit(1)
	}
	fmt.Println("the violation does not occur")
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
