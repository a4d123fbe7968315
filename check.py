#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property on /repo."""
import json, os, sys, time, traceback
if os.environ.get("PYTHONHASHSEED", "random") == "random":
    # the same order of every set in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import facts, mir, report
import importlib


def run_rules(prop, path, tier):
    prog = mir.Program(path)
    R = report.Report(prop)
    R.tier = tier
    import rules
    fn = rules.RULES[prop]
    try:
        fn(R, prog)
    except mir.Missing as e:
        R.rule("anchor", "the public operations the rules start from exist")
        R.ob("anchor", str(e).split("`")[1] if "`" in str(e) else "?", False, str(e))
    return R, prog


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    configs = [""]
    if tier == "thorough":
        # the crate's optional features are part of what is built
        configs = ["", "noreadlock", "eprint_log"]
    viol = {}
    reps = []
    for c in configs:
        path, _ = facts.facts(c)
        R, prog = run_rules(prop, path, tier)
        reps.append((c, R, prog))
        for k, v in R.violations().items():
            viol.setdefault(k, (v, c))
    R, prog = reps[0][1], reps[0][2]
    known = report.load_known()
    new = []
    kn = []
    for k, (v, c) in viol.items():
        if (prop, k.replace(" ", "_")) in known:
            kn.append((k, known[(prop, k.replace(" ", "_"))]))
        else:
            new.append((k, v, c))
    print("property %s: %d functions analysed as entry points (%d of %d bodies in the crate), %d graph nodes, %d call sites, %d obligations in %d rules"
          % (prop, R.entries, len(R.fns), len(prog.bodies), R.nodes, R.calls, len(R.obs), len(R.rules)))
    for r, text in R.rules.items():
        print("  rule %-22s %4d instance(s): %s" % (r, R.count(r), text))
    for k, t in kn:
        print("KNOWN-FINDING: property=%s %s -- %s" % (prop, k, t))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = "evidence/%s.violations.json" % prop
    rpath = os.path.join(HERE, rp)
    if os.path.exists(rpath):
        os.unlink(rpath)
    if new:
        with open(rpath, "w") as f:
            json.dump([{"key": k, "rule": v[0], "rule_text": R.rules.get(v[0], ""), "instance": v[1], "message": v[2], "where": v[3],
                        "features": c} for k, v, c in new], f, indent=1)
        for k, v, c in new:
            print("  broken: [%s] %s: %s%s" % (v[0], v[1], v[2], (" (" + v[3] + ")") if v[3] else ""))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static rules over the type-checked MIR of /repo's current source (no execution). "
                           "Each obligation is one instance of a rule at a named construct; see `rules`.",
            "entry_functions": R.entries, "graph_nodes": R.nodes, "call_sites": R.calls,
            "obligations": len(R.obs), "discharged": sum(1 for o in R.obs if o[2]),
            "bodies_in_crate": len(prog.bodies),
            "configurations": configs,
            "rules": [{"rule": r, "text": t, "instances": R.count(r), "floor": R.floors.get(r, 0)} for r, t in R.rules.items()],
            "samples": [{"rule": o[0], "instance": o[1], "holds": o[2], "where": o[4]} for o in R.obs[:12]],
            "known_findings": [k for k, _ in kn],
            "notes": R.notes,
        },
        "assumptions": R.assumptions + [
            "behaviour of the standard library and of dependency crates is as documented",
            "the facts are those of the library crate as built on this target with the listed features",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s" % (prop, "HOLDS" if not new else "BROKEN (%d)" % len(new)), "in %.1fs" % (time.time() - t0))
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
