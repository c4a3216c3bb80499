#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
G = "exhaustive state-graph exploration of the real code (every operation from every reached internal state) against a reference model"
E = "bounded exhaustive enumeration of contents, formats and operation sequences executed on the real code against a reference model"
S = "stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption bound, happens-before race detection, deadlock and leak detection)"
T = {}
for p in props: T[p['id']] = E
for i in ("P01", "P02", "P03"): T[i] = G
T["P04"] = E + ", every assignment of results (keep, change, zero) to elements"
T["P31"] = "bounded exhaustive enumeration of programs over two registers, every format and history, executed on the real code against a reference model"
T["P27"] = "exhaustive enumeration of digraphs, sources and stopping steps, BFS replayed step by step against a reference model"
T["P32"] = "bounded exhaustive enumeration of context chains and of operations under them, executed on the real code against a reference model"
for i in ("P19", "P21"): T[i] = S
for i in ("P17", "P24"): T[i] = E + "; " + S
T["P20"] = "fault enumeration by model checking: cancellation at every consultation of the context; " + S
for i in ("P22", "P23"): T[i] = S + "; every history checked for linearizability against the wrapped matrix; sequences of operations compared with the unwrapped matrix"
NOTE = "Holds for everything enumerated: shapes, values, formats, histories and schedules as listed in the evidence file's groups; nothing is claimed beyond these bounds. Trusts the reference model in mc/model, the Go toolchain and, for schedules, the instrumentation in mc/inst and mc/vsched."
ready = set(os.environ.get("READY", "").split()) or None
NOTBUILT = set()
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTBUILT:
        na.append({"property": i, "reason": "check not built yet"}); continue
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "cd mc && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go version",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the explorers build the working tree as it is; the schedule explorer instruments a scratch copy of it."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
