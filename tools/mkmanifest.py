#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C21": "Record batches and the variable-length primitives are pure functions of their input: no schedule, clock, I/O, fault or second party takes part, and no connection code path of the library uses them, so a simulation has nothing to decide here; input generation alone would be another technique."}
NOTE = {
 "C03": "Ring buffer of every size from 2 to 64 with one reader, one writer and closers under seeded statement-level interleavings; oracle: the byte stream offered by the writer.",
 "C04": "Same runs as C03 with more closes; at quiescence (nothing runnable, no timer) a blocked side must be blocked rightfully, and none may be after Close.",
 "C06": "All APIs at all versions through real connections; the simulated broker encodes and decodes with a protocol table of its own (harness/schema.json), extracted once from the field versions documented in the pristine source. Content is sampled.",
 "C11": "Version ranges from plausible to extreme (int16 limits, empty ranges, unknown keys) on several connections per run; oracle: max of the intersection.",
 "C17": "Happens-before (vector clock) race detection over every instrumented memory access of the library in simulated runs of all scenarios; synchronisation is the simulator's, with the Go memory model's edges. Accesses inside the Go standard library are not seen.",
 "C18": "Encoders over writers that fail at any byte, for good or once, with and without partial writes and flush failures; oracle: the fault-free encoding.",
 "C16": "The TLS handshake is simulated: what is checked is which configuration and server name it gets, what is sent outside the session and what happens after a failed handshake.",
}
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable)",
        "level": "exploration",
        "level_note": NOTE.get(p, "The library's real code runs under a seeded scheduler with simulated network, clock and brokers; histories are judged against a reference model.") +
          " Sampled, not exhaustive; trusts the simulator's network, clock and synchronisation primitives.",
    })
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "build tag verif", "enable": "the driver loads and instruments /repo with -tags verif (sizes_verif.go: buffer sizes are variables); scheduling points are inserted into a scratch copy, never into /repo",
               "source_commits": ["9971204"]},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh instruments the working tree of /repo into a scratch directory, builds a worker and searches seeds; 'bash check.sh replay FILE' re-executes a replay file. Defects found and repaired are listed in known-findings.txt."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
