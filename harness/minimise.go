package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"vsim/rt"
)

func sortStrings(s []string) { sort.Strings(s) }

type decSet struct {
	sched []rt.SchedDec
	data  [rt.NStreams][]rt.DataDec
}

func (d decSet) size() int {
	n := len(d.sched)
	for _, x := range d.data {
		n += len(x)
	}
	return n
}

// minimise shrinks the decisions of a failing run while the same property is
// still violated in the same way, and writes the replay file.
func minimise(sp spec, strat rt.Strategy, dec *rt.Decisions, v *rt.Violation, dir string) (string, *rt.Violation, string) {
	cur := decSet{dec.Sched, dec.Data}
	orig := cur.size()
	total := v.Class == "allocation-total"
	try := func(d decSet) (*rt.Violation, *rt.Result) {
		before := heapAllocs()
		res := execute(sp, rt.Replay(d.sched, d.data), strat, false)
		grown := heapAllocs() - before
		if harnessTrouble(res.Violations) != "" {
			return nil, res
		}
		if total {
			if grown > 400<<20 {
				return v, res
			}
			return nil, res
		}
		r := relevant(sp.Prop, res.Violations)
		if r != nil && r.Class == v.Class {
			return r, res
		}
		return nil, res
	}
	best, res := try(cur)
	if best == nil {
		// the run used the fair phase after the step limit: replay by seed only
		best = v
		path := writeReplay(dir, sp, strat, cur, orig, v, res, true)
		return path, v, ""
	}
	deadline := time.Now().Add(20 * time.Second)
	ok := func(d decSet) bool {
		if time.Now().After(deadline) {
			return false
		}
		if r, rs := try(d); r != nil {
			best, res = r, rs
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		before := cur.size()
		// whole streams first
		for i := range cur.data {
			if len(cur.data[i]) > 0 {
				d := cur
				d.data[i] = nil
				if ok(d) {
					cur = d
				}
			}
		}
		if len(cur.sched) > 0 {
			d := cur
			d.sched = nil
			if ok(d) {
				cur = d
			}
		}
		order := []int{rt.StFault, rt.StWork, rt.StBroker, rt.StNet, rt.StSelect}
		for _, i := range order {
			i := i
			cur.data[i] = ddmin(cur.data[i], func(x []rt.DataDec) bool {
				d := cur
				d.data[i] = x
				return ok(d)
			})
			// smaller values
			for k := range cur.data[i] {
				for _, nv := range []uint32{1, cur.data[i][k].V / 2} {
					if nv == 0 || nv >= cur.data[i][k].V {
						continue
					}
					x := append([]rt.DataDec(nil), cur.data[i]...)
					x[k].V = nv
					d := cur
					d.data[i] = x
					if ok(d) {
						cur = d
						break
					}
				}
			}
		}
		cur.sched = ddmin(cur.sched, func(x []rt.SchedDec) bool {
			d := cur
			d.sched = x
			return ok(d)
		})
		if cur.size() == before || time.Now().After(deadline) {
			break
		}
	}
	best, res = try(cur)
	if best == nil {
		best = v
	}
	path := writeReplay(dir, sp, strat, cur, orig, best, res, false)
	return path, best, fmt.Sprintf("%016x", res.Hash)
}

func ddmin[T any](x []T, ok func([]T) bool) []T {
	n := 2
	for len(x) > 0 {
		size := (len(x) + n - 1) / n
		reduced := false
		for i := 0; i < len(x); i += size {
			j := i + size
			if j > len(x) {
				j = len(x)
			}
			y := append(append([]T(nil), x[:i]...), x[j:]...)
			if ok(y) {
				x = y
				reduced = true
				if n > 2 {
					n--
				}
				break
			}
		}
		if !reduced {
			if size == 1 {
				break
			}
			n *= 2
			if n > len(x) {
				n = len(x)
			}
		}
	}
	return x
}

func writeReplay(dir string, sp spec, strat rt.Strategy, d decSet, orig int, v *rt.Violation, res *rt.Result, bySeed bool) string {
	rf := replayFile{spec: sp, Strategy: strat, Violation: *v, Hash: fmt.Sprintf("%016x", res.Hash), Sched: d.sched, Data: map[string][]rt.DataDec{}, Original: orig, Minimised: d.size()}
	for i, x := range d.data {
		rf.Data[rt.StreamNames[i]] = x
	}
	if bySeed {
		rf.Sched, rf.Data = nil, nil
		rf.Hash = ""
	} else {
		tr := execute(sp, rt.Replay(d.sched, d.data), strat, true)
		rf.Trace = tr.Trace
		if len(rf.Trace) > 400 {
			rf.Trace = append(append([]string(nil), rf.Trace[:150]...), rf.Trace[len(rf.Trace)-250:]...)
		}
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", sp.Prop, sp.Seed, sp.Index))
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return ""
	}
	return path
}

// doReplay re-executes a replay file.
func doReplay(path string, trace bool, stdout *os.File, emit func(outRec)) {
	b, err := os.ReadFile(path)
	if err != nil {
		emit(outRec{Kind: "error", Msg: err.Error()})
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		emit(outRec{Kind: "error", Msg: err.Error()})
		os.Exit(2)
	}
	var dec *rt.Decisions
	if rf.Data == nil {
		dec = rt.Explore(runSeed(rf.spec))
	} else {
		var data [rt.NStreams][]rt.DataDec
		for i := range data {
			data[i] = rf.Data[rt.StreamNames[i]]
		}
		dec = rt.Replay(rf.Sched, data)
	}
	before := heapAllocs()
	res := execute(rf.spec, dec, rf.Strategy, trace)
	grown := heapAllocs() - before
	if trace {
		for _, l := range res.Trace {
			fmt.Fprintln(stdout, l)
		}
	}
	v := relevant(rf.Prop, res.Violations)
	if v == nil && rf.Violation.Class == "allocation-total" && grown > 400<<20 {
		v = &rf.Violation
	}
	o := outRec{Kind: "replay", Spec: &rf.spec, Violation: v, Hash: fmt.Sprintf("%016x", res.Hash)}
	if v != nil && v.Class == rf.Violation.Class && (rf.Hash == "" || rf.Hash == o.Hash) {
		o.Msg = "reproduced"
	} else if v != nil {
		o.Msg = "different"
	} else {
		o.Msg = "no violation"
	}
	emit(o)
}
