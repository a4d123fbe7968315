#!/usr/bin/env python3
"""writes DESIGN.md: the prose below, with the rules of every check as its last
run (evidence/) lists them, and the planted bugs of seeded/"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
MAN = json.load(open(os.path.join(HERE, "MANIFEST.json")))
NA = {x["id"] if "id" in x else x["property"]: x["reason"] for x in MAN["not_applicable"]}

HEAD = '''# Static verification of terminusdb-store

This file is written by `tools/gen_design.py` (prose there; rule lists from the
evidence of the last runs).

## Technique

Everything is decided from the source, by rules over the type-checked program.
Nothing of terminusdb-store is executed, concretely or symbolically, and no
path goes to a solver.

* `driver/` is a `rustc_private` driver, run as `RUSTC_WORKSPACE_WRAPPER` under
  `cargo +nightly check --offline` on /repo's current working tree (target
  directory under `/verif/.build`). It dumps what the compiler knows after type
  checking: MIR as built (before any optimisation and before coroutine
  lowering, so awaits are still visible), resolved callees with their generic
  arguments, impls, traits and types. The dump is cached by a hash of the
  source, so the 24 checks share one compilation.
* `engine/mir.py` *flattens* an entry point: local helpers, closures, async
  blocks, async-trait bodies and default trait methods are virtually inlined
  into one control-flow graph. A helper extracted, inlined, renamed or moved
  therefore makes no difference; only public operations, trait methods and
  calls of other crates are anchors. On that graph it computes *origins* (for
  every operand the set of its sources: parameter path, constant, aggregate,
  opaque call) through moves, borrows, `?`, awaits, Option/Result/iterator and
  closure combinators.
* `engine/flow.py` walks graph states that know the variant of every tested
  value, so that "every path from A to B passes C" is asked of feasible paths
  only: what follows a failed call, which exits are successes, which edges
  establish a comparison, and what is done with a file (opened, written,
  flushed, synced, renamed).
* `engine/qlib.py` has guards as atoms (`variant`, `eq`, `ord`, `bool`), lock
  regions and success exits; `engine/symval.py` and `rules/valex.py` have
  values as trees (for layouts, places, boundaries and accounting).
* `engine/rules/*.py` are the rules. A rule makes *obligations*: instances at a
  named construct (function, call site). A violation is reported with rule,
  construct, file:line and a line-free key. Every rule has a floor: if fewer
  instances are found than were confirmed by reading, the rule has lost its
  subject and that is itself reported.

Quick and thorough run the same rules; thorough also runs them on the program
with each of the crate's optional features (`noreadlock`, `eprint_log`).

What this reaches that tests cannot: each rule speaks about all paths,
including failing calls, cancellation, other interleavings and unusual input,
of every implementation of a trait, for all inputs the code distinguishes. What
it cannot do is bound run-time quantities; see *Not applicable* and the limits
noted per property.

## Conventions that keep the checks quiet on equivalent code

Rules are stated over effects (which file, which value, which order, under
which lock), not over syntax. Where a rule could not follow a rewriting it is
made to follow it or dropped. Set iteration is made deterministic by re-running
with `PYTHONHASHSEED=0`.
'''

LIMIT = {
 "P01": "Two processes on one store are covered as far as the file lock is: that the lock is exclusive, taken before the read, and held until the write is done. That flock works is assumed.",
 "P02": "What counts is that sync_all/sync_data of the file, and of its directory where an entry is new, is on every success path. That the device honours it is assumed.",
 "P03": "DirectoryLabelStore::set_label_option rewrites the label in place: a known finding.",
 "P07": "A call's failure must reach the result of the operation on every path, except where its kind was tested to be 'not found' and absence is the operation's answer.",
 "P13": "Names are compared as sequences of literal and variable pieces; a name computed in another way is reported as not understood only where the rule needs it.",
 "P14": "Lookups nested through one cache (the origin of a cache being the same cache) are not considered. The accounting follows linear forms of limit, cached total, incoming length and evicted lengths.",
 "P15": "Between creating a lock file and locking it lies a gap (ExclusiveLockedFile::create_and_open) that the rules do not judge. Generic calls on a wrapped backend are assumed not to come back to the same object.",
 "P17": "Ids are told apart by where they come from and where they go; arithmetic on them is followed as far as sums with the counts of parent layers go.",
 "P24": "Links that form a ring over several layers, and the contents of the succinct structures inside a layer file, are outside the statement. A panic counts only if a value that was read from storage or import decides it.",
}

TAIL = '''
## Genuine defects

`known_findings.txt` lists them: 'fixed:' entries with their commit in /repo
(each a minimal "fix:" commit, existing tests unedited), and 'known:' entries
that are reported as KNOWN-FINDING:

* P03 `DirectoryLabelStore::set_label_option` truncates the label file it has
  locked and writes it anew. A crash in between leaves an empty label. The lock
  lives on the inode, so renaming a new file over it would need another locking
  scheme: not a small repair.
* P16 importing a pack over a layer that a directory store already has writes
  the pack's bytes over its files, so a pack with other bytes under that name
  changes a committed layer.

## False alarms met, and what was corrected

* P24: a depth limit that cut depending on visiting order reported a link now
  and then. Provenance now goes level by level, and the hash seed is fixed.
* P24: 'a link to itself' is asked only of the list of links that is walked;
  panics that depend only on the program's own tables or on poisoned locks do
  not count.
* P07: 'not found taken for an answer' is not asked where the result is an
  Option or a bool, nor on paths that go on to another call that can fail.
* P14: running totals and the bytes still to be evicted were understood in the
  shape the code has only; counting up what was freed and `checked_sub` are now
  understood as well.
* P03: registering a rollup again in a directory store writes the link over the
  old one. A rule that reported it was removed: the file is not truncated when
  it is opened, and both links have the same few bytes' length and are written
  at once, so there is no crash point to show.
* P13: pieces of a place that are not a name are not compared.

## Planted bugs

Each in `seeded/<id>/`, with a demonstration; written from the statement and
the code. Several first went unnoticed and led to a stronger rule
(p19-rollup-break: 'to the end' rule of P19; the text rules of P01 and P13 and
the 'not found' rule of P07 came from mutations of the same kind). Besides
these, some 400 single-site mutations and behaviour-preserving rewritings were
run against the checks while they were built; those that break a property and
went unnoticed were followed up, the others must leave the checks quiet.

| planted bug | breaks | caught by |
|---|---|---|
'''


def main():
    out = [HEAD, "\n## Per property\n"]
    for d in P:
        if d["id"] in NA:
            continue
        e = json.load(open(os.path.join(HERE, "evidence", d["id"] + ".json")))
        out.append("\n### %s %s\n\n%s\n\n" % (d["id"], d["title"], d["statement"]))
        cov = e["coverage"]
        out.append("Analysed: %s entry points, %s obligations. Rules:\n\n" % (cov["entry_functions"], cov["obligations"]))
        for r in cov["rules"]:
            out.append("* `%s` (%d): %s\n" % (r["rule"], r["instances"], r["text"]))
        if d["id"] in LIMIT:
            out.append("\nLimits: %s\n" % LIMIT[d["id"]])
    out.append("\n## Not applicable\n\n")
    for d in P:
        if d["id"] in NA:
            out.append("* %s %s: %s\n" % (d["id"], d["title"], NA[d["id"]]))
    out.append(TAIL)
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        out.append("| %s | %s | %s |\n" % (s, m["what_it_breaks"].rstrip(".").replace("|", "/"), m["property"]))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))


main()
