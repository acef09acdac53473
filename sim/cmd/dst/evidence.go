package main

import (
	"encoding/json"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vsim/rewrite"
)

// effort is the number of simulated runs of a tier and its time limit.
func effort(prop, tier string) (int, time.Duration) {
	n, ok := quickRuns[prop]
	if !ok {
		return 0, 0
	}
	if tier == "thorough" {
		return n * 40, 20 * time.Minute
	}
	return n, 150 * time.Second
}

var quickRuns = map[string]int{
	"C01": 40000, "C02": 16000, "C03": 160000, "C04": 160000, "C05": 40000, "C06": 25000, "C07": 40000, "C08": 40000,
	"C09": 40000, "C10": 40000, "C11": 40000, "C12": 120000, "C13": 160000, "C14": 120000, "C15": 80000, "C16": 120000,
	"C17": 120000, "C18": 160000, "C19": 60000, "C20": 50000,
}

func evidence(prop, tier string, seed uint64, s *stats, inter, states int, search, wall, built time.Duration, rst *rewrite.Stats, found *record, workers int) {
	faults := map[string]int64{}
	reach := map[string]int64{}
	for k, v := range s.Counters {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			reach[k] = v
		}
	}
	sec := search.Seconds()
	if sec < 0.001 {
		sec = 0.001
	}
	samples := s.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         s.Runs,
		"distinct_nontrivial": states,
		"rule": "One evaluation is one simulated execution, decided by (VERIF_SEED, property, index): scenario, workload, scheduling strategy, every interleaving, delay and fault. " +
			"It is non-trivial if it runs at least two calls or operations, or injects faults into one, or moves bytes between a ring buffer's reader and writer, or encodes to a failing target. " +
			"Distinct means another hash over the whole execution (every context switch, event, byte count and result).",
		"samples":                        samples,
		"runs_per_hour":                  math.Round(float64(s.Runs) / sec * 3600),
		"seeds_per_hour":                 math.Round(float64(s.Runs) / sec * 3600),
		"simulated_seconds":              math.Round(float64(s.SimTime)/1e6) / 1000,
		"scheduling_points":              s.Steps,
		"context_switches":               s.Switches,
		"preemptions":                    s.Preempts,
		"distinct_interleavings":         inter,
		"distinct_interleavings_measure": "hash of the sequence of (goroutine, scheduling point) at every context switch of a run",
		"longest_run_scheduling_points":  s.MaxSteps,
		"faults_injected":                faults,
		"reach":                          reach,
		"scenarios":                      s.Scenarios,
		"strategies":                     s.Strategies,
		"determinism_checked_runs":       s.Double,
		"determinism_rule":               "each of these was executed three times (twice from its seed, once from its recorded decisions) with identical execution hashes",
		"step_limit_hits":                s.LimitHits,
		"instrumentation":                rst,
		"workers":                        workers,
		"build_s":                        math.Round(built.Seconds()*10) / 10,
		"components_real": []string{
			"all of the repository's non-test Go code (packages kafka, message, ring), compiled from the working tree with scheduling points inserted",
			"bufio, fmt, errors, encoding/binary, io, bytes of the Go library",
		},
		"components_stub": []string{
			"net.Dialer and net.Conn (simulated network)", "crypto/tls handshake and verification (simulated; the configuration, the server name and what is sent outside the session are observed)",
			"sync, sync/atomic, context, time, channels, select and goroutines (simulator implementations with the same semantics)",
			"Kafka brokers (simulated from a protocol description of their own)",
		},
	}
	if len(s.OtherViol) > 0 {
		cov["violations_of_other_properties"] = s.OtherViol
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": math.Round(wall.Seconds()*10) / 10, "violations": 0,
		"assumptions": []string{
			"the simulated network, TLS, clock and synchronisation primitives behave like the real ones",
			"interleavings are sampled at statement granularity under sequential consistency",
			"a clean result is evidence from a sample, not a proof",
		},
	}
	if found != nil {
		ev["violations"] = 1
		ev["violation"] = map[string]any{"class": found.Violation.Class, "message": found.Violation.Msg, "replay": filepath.Base(found.Replay), "run": found.Spec}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	d := filepath.Join(root, "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
