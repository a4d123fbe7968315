"""P09 / P21 / P08: every structure of a layer is connected to its own place."""
from rules.lib import *
from rules.names import *

COPY = {"copy_from": (0, 1), "copy_file": (0, 1), "merge_string_dictionaries": (0, 1), "merge_typed_dictionaries": (0, 1)}
COMPARE = {"eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"}
FNS = ("Fn", "AssocFn")


def modular(prog):
    """(body, flat, sources) of every function, each on its own"""
    if not hasattr(prog, "_modular"):
        sm = Summaries(prog)
        prog._modular = []
        for b in sorted(prog.bodies.values(), key=lambda b: b.id):
            if b.kind in FNS:
                f = flat(prog, b, inline=INLINE)
                prog._modular.append((b, f, Sources(f, sm)))
    return prog._modular


def composite(f, op):
    return op[0] == "p" and not op[2] and "BitIndex" in (f.vtype[op[1]] or "") and "BitIndexFiles" not in f.vtype[op[1]]


def dims(f, nm, o):
    r = list(role(nm))
    if composite(f, o):
        r[1] = None
    return r


def dimset(srcs, i):
    return {comb(k)[i] for k in srcs} - {None}


def p09(R, prog):
    R.rule("slot", "a value stored in a named slot (struct field, constructor or call argument) comes from places naming the same structure, part and polarity")
    R.rule("unit", "the parts put together into one structure, and the structures handed to one operation, belong together: one structure, one polarity")
    R.rule("copy", "copying or merging connects a structure with the same structure on the other side")
    R.rule("accessor", "a function named after a structure or polarity returns values of that structure and polarity")
    n = {"slot": 0, "unit": 0, "copy": 0, "accessor": 0}
    for b, f, s in modular(prog):
        used = False
        for kind, nid, what, sl, c in slots(f, prog):
            got = [(nm, o, s.of(o)) for nm, o in sl]
            for nm, o, src in got:
                r = dims(f, nm, o)
                if not any(r) or not src:
                    continue
                bad = [(DIM[i], k) for k in src for i in range(3) if r[i] and comb(k)[i] and comb(k)[i] != r[i]]
                if any(r[i] and comb(k)[i] for k in src for i in range(3)):
                    used = True
                    n["slot"] += 1
                    R.ob("slot", "%s: %s(%s)@%d" % (short(b), what, nm, sum(1 for x in got if x[0] == nm)), not bad,
                         "" if not bad else "`%s` of `%s` holds %s, but receives %s" % (nm, what, bad[0][0] + " " + rshow(r), ".".join(bad[0][1])), f.loc(nid))
            named = [(nm, o, src) for nm, o, src in got if any(dims(f, nm, o)) and src]
            if len(named) > 1:
                for i, free in ((2, "polarity"), (0, "structure")):
                    ms = [(nm, dimset(src, i)) for nm, o, src in named if not dims(f, nm, o)[i] and (i == 2 or dims(f, nm, o)[1])]
                    ms = [x for x in ms if x[1]]
                    if len(ms) > 1:
                        used = True
                        n["unit"] += 1
                        ok = all(x[1] == ms[0][1] for x in ms)
                        R.ob("unit", "%s: %s %s" % (short(b), what, free), ok,
                             "" if ok else "`%s` is given parts of different %s: %s" % (what, free, ", ".join("%s from %s" % (a, "/".join(sorted(x))) for a, x in ms)), f.loc(nid))
            if c is not None and len(got) > 1 and got[0][0] == "self" and what not in COMPARE:
                ms = [(nm, dimset(src, 2)) for nm, o, src in got if not role(nm)[2]]
                ms = [x for x in ms if x[1]]
                if len(ms) > 1 and ms[0][0] == "self":
                    used = True
                    n["unit"] += 1
                    ok = all(x[1] == ms[0][1] for x in ms)
                    R.ob("unit", "%s: receiver of %s" % (short(b), what), ok,
                         "" if ok else "`%s` connects %s" % (what, ", ".join("%s (%s)" % (a, "/".join(sorted(x))) for a, x in ms)), f.loc(nid))
            if c is not None and what in COPY and len(got) > 1:
                i, j = COPY[what]
                a, d = got[i][2], got[j][2]
                for k in range(3):
                    x, y = dimset(a, k), dimset(d, k)
                    if x and y:
                        used = True
                        n["copy"] += 1
                        R.ob("copy", "%s: %s %s" % (short(b), what, DIM[k]), x == y,
                             "" if x == y else "`%s` connects %s with %s" % (what, "/".join(sorted(x)), "/".join(sorted(y))), f.loc(nid))
        r = role(b.name)
        if any(r) and b.ret and not any(b.ret.strip("&") == t for t in INTS):
            src = s.of_result()
            if any(r[i] and comb(k)[i] for k in src for i in range(3)):
                bad = [(DIM[i], k) for k in src for i in range(3) if r[i] and comb(k)[i] and comb(k)[i] != r[i]]
                used = True
                n["accessor"] += 1
                R.ob("accessor", short(b), not bad, "" if not bad else "`%s` returns %s: %s" % (short(b), bad[0][0], ".".join(bad[0][1])), "%s:%d" % (b.file, b.line))
        if used:
            R.saw(f)
    R.floor("slot", 250)
    R.floor("unit", 40)
    R.floor("copy", 12)
    R.floor("accessor", 12)
    return n
