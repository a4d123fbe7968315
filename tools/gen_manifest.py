#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule table and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "engine"))
import rules

TECH = {
    "P01": "path and provenance rules over flattened MIR: comparison guards, lock regions, field provenance",
    "P02": "must-pass-through (flush, sync, directory sync) over flattened MIR with typed file effects",
    "P03": "who-may-open/replace rules: write-aside and rename, no truncating open of live metadata",
    "P04": "guard and provenance rules plus variant-sensitive path exploration over flattened MIR",
    "P05": "typestate of the builder slot: lock regions and variant-sensitive path exploration",
    "P06": "must-pass-through (finalize, sync) and ordering rules on every creating operation",
    "P07": "whole-crate compositional error-flow analysis (variant-sensitive path exploration)",
    "P08": "evaluation of the file tables from MIR and agreement of all reading and writing sites",
    "P09": "role inference: provenance of every same-shaped slot in constructors, loaders and accessors",
    "P10": "forwarding analysis: callee, receiver, argument order and result identity",
    "P11": "forwarding and guard analysis of the caching store",
    "P12": "provenance, guard and ordering rules on rollup functions",
    "P13": "sibling agreement of place derivation and completeness of listing loops",
    "P14": "lock-region, accounting and typestate rules on the archive cache",
    "P15": "lock-region analysis: mode, re-acquisition, suspension points, order graph",
    "P16": "effect analysis (who may write layer files) and ownership of loaded layers",
    "P17": "id-space (unit) inference over the data flow of ids",
    "P18": "loop-walk rule: provenance of each step, guarded termination",
    "P19": "coverage and completeness rules on export and import",
    "P20": "symmetric-effect rules on the pending sets and the commit path",
    "P21": "polarity inference: reachability of addition/removal structures from each query",
    "P22": "layout agreement between archive writer and readers (symbolic offsets and bit positions)",
    "P23": "forwarding analysis: callee, receiver, argument order and result identity",
    "P24": "taint from stored bytes to panicking operations with dominating checks",
}
NOTE = ("Decided from the type-checked MIR of the current working tree for all paths and all inputs the rules abstract; "
        "the property is reduced to the structural rules listed in the evidence (see DESIGN.md for what they leave out). "
        "Trusted: rustc's MIR, documented behaviour of std, tokio and the dependency crates, and the engine itself.")
NA = {
    "P40": "Equality of query answers with the mathematical set of surviving triples depends on run-time data structures (wavelet trees, bit indexes) over unbounded stacks; no static argument in reach bounds it. Its structural clauses are claimed in P09, P18, P21.",
    "P41": "Round-trip of dictionary encodings is value-level arithmetic inside tdb-succinct (a dependency) and merge positions; not decidable structurally. The id-space clause is P17, the file-role clause P08/P09.",
    "P42": "Ordering and duplicate-freedom of merged iterators is an invariant over run-time sequences; no sound static argument in reach.",
    "P43": "Content equality of rollup/squash/merge quantifies over run-time triples; the structural clauses (identity, boundary, wiring) are claimed in P09, P12, P17.",
    "P44": "That an id map is a permutation depends on the run-time contents of the wavelet tree; nothing in the source structure decides it.",
    "P45": "Progress under contention is a liveness property over fair schedules of the runtime and of file locks; static rules here decide safety only (deadlock freedom clauses are in P15).",
    "P46": "Linearizability across processes depends on kernel flock semantics and multi-process histories; the in-process and lock-region clauses are claimed in P01 and P15.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rules.RULES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + TECH[i], "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
