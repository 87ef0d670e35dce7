#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import check
NOTE = {
    "labels": "LabelAlg.tla model-checked exhaustively within its bounds; every reachable table and simulated/seeded longer histories rebuilt in the real runtime and validated against PT.tla by TLC",
    "io": "IOGen.tla explored breadth first and by simulation; every behaviour replayed through the real __dfsw_* wrappers and validated, call by call and against the finished trace file, against PT.tla by TLC",
    "mem": "MemGen.tla explored breadth first and by simulation; every behaviour replayed through the real allocation, memory and string wrappers and validated against PT.tla by TLC",
    "strs": "StrGen.tla enumerates the calls; every one replayed through the real __dfsw_* wrappers and validated (result, errno, bytes, labels) against PT.tla by TLC",
    "fn": "FnGen.tla explored breadth first and by simulation; every behaviour replayed through the real callbacks, the trace file validated against PT.tla and the Python reader's events against CFRead.tla by TLC",
    "store": "StoreGen.tla/LifeGen.tla explored breadth first and by simulation; replayed in the real container with small and real capacities, and in the real runtime with every way of ending; validated against Store.tla, Capacity.tla and PT.tla by TLC",
    "reader": "TraceGen.tla explored breadth first and by simulation; every trace written as a file, read by the repository's Python reader and its answers validated against TraceRead.tla by TLC",
    "taints": "TaintGen.tla enumerates collections of bytes; the repository's classes answer every query and TaintRead.tla decides the answers with TLC",
    "caches": "Cache.tla model-checked; CacheGen.tla/SetGen.tla operation histories replayed on the real classes and validated step by step against CacheTrace.tla by TLC",
    "grammar": "GrammarGen.tla explored breadth first and by simulation (Earley's chart and the simplification steps model-checked against the language); the repository's parser and grammars answer and GrammarRead.tla decides with TLC",
    "execs": "ExecGen.tla explored breadth first and by simulation (well-formedness of Exec.tla checked on every state); every program becomes a trace, the repository's analyses answer and ExecRead.tla decides with TLC",
    "graphs": "GraphGen.tla enumerates directed graphs; the repository's class answers every query and GraphRead.tla decides with TLC",
    "conc": "Conc.tla model-checked over all interleavings; the real runtime run under a controlled scheduler and free-running threads, every outcome validated against the specification by TLC",
}
BY = {"C04": "EncProof.tla proved by Apalache for all records; 12 000 full-width words encoded and decoded by the real runtime and the Python reader validated against Enc.tla by TLC"}
NOTE.update(getattr(check, "NOTES", {}))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in check.WHERE:
        checks.append({"property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p,
                       "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification checked with TLC, bound to the code by replaying TLC-generated behaviours and validating recorded traces with TLC",
                       "level": "model_checking", "level_note": BY.get(p, NOTE[check.WHERE[p]])})
m = {"version": 1, "setup_cmd": "python3 /verif/check.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in ids if p not in check.WHERE],
     "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.json."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
