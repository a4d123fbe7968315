"""P17: node/value ids and predicate ids live in separate spaces."""
from rules.lib import *
from rules.names import INLINE
import flow

PRED = re.compile(r"(^|_)(predicates?|preds?)(_|$)")
NODE = re.compile(r"(^|_)(nodes?|subjects?)(_|$)")
VAL = re.compile(r"(^|_)values?(_|$)")
OBJ = re.compile(r"(^|_)objects?(_|$)")

WORD = {"p": "predicate", "nv": "node/value"}


def kind(tok):
    """the id space a name speaks of"""
    if not isinstance(tok, str) or tok[:1] in "![":
        return None
    n = tok.lstrip("^").split(".")[-1]
    p = bool(PRED.search(n))
    v = bool(NODE.search(n) or VAL.search(n) or OBJ.search(n))
    if p == v:
        return None
    return "p" if p else "nv"


def fine(tok):
    n = tok.lstrip("^").split(".")[-1]
    return {k for k, x in (("node", NODE), ("value", VAL)) if x.search(n)}


CARRY = {"num_entries", "len", "id", "get", "entry", "id_entry", "inner_to_outer", "outer_to_inner", "into_option", "unwrap", "unwrap_or", "expect", "clone", "cloned",
         "try_into", "into", "index", "iter", "into_iter", "next", "enumerate", "as_ref", "lookup", "lookup_one", "decode_one", "is_some", "map", "map_or", "collect", "copied",
         "checked_sub", "checked_add", "wrapping_sub", "saturating_sub", "from", "as_slice", "deref", "borrow", "zip", "rev", "skip", "take"}
USE = {"id", "get", "entry", "id_entry", "inner_to_outer", "outer_to_inner", "lookup", "index_of", "lookup_one", "decode_one"}


def std(c):
    return re.match(r"<?&?(std|core|alloc)::", c.path) is not None


def pushed(f, nid):
    """what is put into the collection created at a call"""
    if not hasattr(f, "_pushed"):
        f._pushed = {}
        for c in f.callsites:
            if c.nid in f.reach and not c.inlined and c.name in ("push", "push_back", "insert", "extend") and len(c.args) > 1:
                for t in f.origins(c.args[0]):
                    if t[0] == "call" and not t[2]:
                        f._pushed.setdefault(t[1], []).append(c.args[-1])
    return f._pushed.get(nid, [])


INDEX = {"index", "index_mut", "set", "get", "get_mut", "replace"}


def std_or_bits(c):
    return std(c) or "bitvec" in c.path or "bitvec" in (c.self_ty or "")


ABOUT = re.compile(r"(^|_)(ids?|counts?|dict|dictionary|len|map|idmap)(_|$)")


class Kinds:
    def __init__(self, f):
        self.f = f
        self.memo = {}

    def boxes(self):
        """containers -> kinds of what they are indexed with"""
        if not hasattr(self, "_boxes"):
            self._boxes = {}
            self.at = {}
            for c in self.f.callsites:
                if c.nid in self.f.reach and not c.inlined and c.name in INDEX and std_or_bits(c) and len(c.args) > 1:
                    for m in self.f.origins(c.args[0]):
                        if m[0] == "call":
                            k = self.op(c.args[1])
                            self._boxes.setdefault(m, set()).update(k)
                            if k:
                                self.at.setdefault(m, []).append((c.nid, k))
        return self._boxes

    def op(self, o):
        r = set()
        for t in self.f.origins(o):
            r |= self.term(t)
        return r

    def term(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = set()
        self.memo[t] = r = self._term(t)
        return r

    def _term(self, t):
        f = self.f
        if t[0] in ("param", "call"):
            for x in reversed(t[2]):
                k = kind(x)
                if k:
                    return {k}
            if any(x not in ("!", "[]", "*") and not x.isdigit() for x in t[2]):
                return set()
        if t[0] == "param":
            ps = f.entry.params or []
            n = ps[t[1] - 1] if 0 < t[1] <= len(ps) else None
            return {kind(n)} - {None}
        if t[0] == "call":
            c = f.callof(t)
            k = kind(c.name)
            if k:
                return {k}
            r = set()
            if "[]" in t[2]:
                for o in pushed(f, c.nid):
                    rest = t[2][t[2].index("[]") + 1:]
                    for x in (f.res(o[1], tuple(o[2]) + rest) if o[0] == "p" else ()):
                        r |= self.term(x)
                if r:
                    return r
            if c.name == "len" and std(c):
                return r  # how many layers there are
            if c.name == "enumerate" and re.match(r"&?(mut )?(std::vec|std::slice|core::slice|alloc::vec)", c.self_ty or "") and "0" in t[2]:
                return r  # which layer
            if c.name in INDEX and std_or_bits(c) and c.args:
                for m in f.origins(c.args[0]):
                    r |= self.boxes().get(m, set())
                if r:
                    return r
            if c.name in CARRY and c.args:
                r |= self.op(c.args[0])
                if not r and c.name in ("map", "map_or", "and_then"):
                    for ai, o in getattr(f, "closure_results", {}).get(c.nid, []):
                        for x in f.res(o, ()):
                            r |= self.term(x)
            return r
        if t[0] == "expr":
            rv = f.stmt(t)
            r = set()
            for o in rv[1:]:
                if isinstance(o, tuple) and o and o[0] in ("p", "k") and len(o) >= 2:
                    r |= self.op(o)
            return r
        return set()


def p17(R, prog):
    R.rule("mix", "a sum, difference or comparison stays within one id space")
    R.rule("map", "an id is looked up in and mapped by the structures of its own id space")
    R.rule("pass", "an id, dictionary, id map or count is handed over as one of its own id space")
    R.rule("sum", "an offset that runs over the layers counts nodes and values alike")
    R.rule("self", "a function for one id space uses that space alone")
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn"):
            continue
        f = flat(prog, b, inline=INLINE)
        K = Kinds(f)
        used = False
        for n in sorted(f.reach):
            for d, rv, line in f.nodes[n].stmts:
                if rv[0] == "bin":
                    x, y = K.op(rv[2]), K.op(rv[3])
                    if x and y:
                        used = True
                        R.ob("mix", short(b), len(x | y) == 1, "`%s` combines a %s with a %s" % (short(b), "/".join(WORD[k] for k in sorted(x)), "/".join(WORD[k] for k in sorted(y))), f.loc(n))
                elif rv[0] == "agg" and rv[1][0] == "adt":
                    for nm, o in zip(rv[3] or (), rv[2]):
                        k = kind(nm)
                        if k:
                            g = K.op(o) or wide(f, K, o)
                            if g:
                                used = True
                                R.ob("pass", "%s: %s" % (short(b), nm), g == {k}, "`%s` is filled with a %s" % (nm, "/".join(WORD[x] for x in sorted(g))), f.loc(n))
        for c in f.callsites:
            if c.nid not in f.reach:
                continue
            if c.name in USE and len(c.args) > 1 and not std(c):
                x, y = K.op(c.args[0]), K.op(c.args[1])
                if x and y:
                    used = True
                    R.ob("map", "%s: %s" % (short(b), c.name), len(x | y) == 1, "`%s` of a %s structure is applied to a %s" % (c.name, "/".join(WORD[k] for k in sorted(x)), "/".join(WORD[k] for k in sorted(y))), f.loc(c.nid))
            ps = prog.bodies[c.target].params if c.target in prog.bodies else None
            for nm, o in zip(ps or (), c.args):
                k = kind(nm)
                if k:
                    g = K.op(o) or wide(f, K, o)
                    if g:
                        used = True
                        R.ob("pass", "%s: %s(%s)" % (short(b), c.name, nm), g == {k}, "`%s` is given a %s as `%s`" % (c.name, "/".join(WORD[x] for x in sorted(g)), nm), f.loc(c.nid))
            k = kind(c.name)
            if k and c.args:
                for o in c.args[1:]:
                    g = K.op(o) or wide(f, K, o)
                    if g and c.name not in ():
                        used = True
                        R.ob("pass", "%s: %s" % (short(b), c.name), g == {k}, "`%s` is given a %s" % (c.name, "/".join(WORD[x] for x in sorted(g))), f.loc(c.nid))
            sinks(R, f, K, b, c)
        for m, ks in K.boxes().items():
            if ks:
                used = True
                R.ob("map", "%s: table" % short(b), len(ks) == 1, "`%s` uses one table for both id spaces" % short(b), f.loc(K.at[m][0][0]))
        if kind(b.name) and ABOUT.search(b.name) and "triple" not in b.name:
            alone(R, f, K, b)
            used = True
        used = accumulators(R, f, b) or used
        if used:
            R.saw(f)
    R.floor("mix", 40)
    R.floor("map", 10)
    R.floor("pass", 150)
    R.floor("self", 20)
    R.floor("sum", 4)


def alone(R, f, K, b):
    k = kind(b.name)
    got = {}
    for c in f.callsites:
        if c.nid in f.reach and kind(c.name):
            got.setdefault(kind(c.name), c.nid)
    for n in sorted(f.reach):
        for d, rv, ln in f.nodes[n].stmts:
            ops = list(rv[2]) if rv[0] == "agg" else [x for x in rv[1:] if isinstance(x, tuple) and len(x) >= 2]
            for o in ops:
                for x in (o[2] if o[0] == "p" else o[1] if isinstance(o[0], int) and isinstance(o[1], tuple) else ()):
                    if kind(x):
                        got.setdefault(kind(x), n)
    for x in got:
        R.ob("self", "%s: %s" % (short(b), x), x == k, "`%s` works with the %s space" % (short(b), WORD[x]), f.loc(got[x]))


def deep_kinds(f, K, o):
    r = set()
    work, seen = [(t, 12) for t in f.origins(o)], set()
    while work:
        t, d = work.pop(0)
        if t in seen or d < 0:
            continue
        seen.add(t)
        k = K.term(t)
        r |= k
        if k:
            continue
        if t[0] == "call":
            c = f.callof(t)
            if c.name in ("len", "reserve"):
                continue
            if c.name in ("with_capacity", "new"):
                for a in pushed(f, c.nid):
                    work += [(x, d - 1) for x in f.origins(a)]
                continue
            for a in c.args + pushed(f, c.nid):
                work += [(x, d - 1) for x in f.origins(a)]
            if c.name in MAPS:
                for ai, x in getattr(f, "closure_results", {}).get(c.nid, []):
                    work += [(y, d - 1) for y in f.res(x, ())]
        elif t[0] in ("agg", "expr"):
            rv = f.stmt(t)
            if rv[0] == "agg" and rv[1][0] == "closure":
                continue
            for x in (rv[2] if rv[0] == "agg" else [x for x in rv[1:] if isinstance(x, tuple) and x and x[0] in ("p", "k") and len(x) >= 2]):
                work += [(y, d - 1) for y in f.origins(x)]
    return r


def wide(f, K, o):
    """deep kinds of whole collections and structures; a number can be a mere position"""
    ty = (f.vtype[o[1]] or "") if o[0] == "p" and not o[2] else ""
    return deep_kinds(f, K, o) if ty and not re.match(r"&?(mut )?(u8|u32|u64|usize|bool)$", ty) else set()


MAPS = {"map", "flat_map", "filter_map", "and_then", "map_or", "then", "unwrap_or_else", "or_else"}


def sinks(R, f, K, b, c):
    """what is written to the files of one id space are ids of that space"""
    if not c.args or c.inlined or len(c.args) < 2:
        return
    files = set()
    for o in c.args:
        for t in f.origins(o):
            if t[0] == "param" and any(re.search(r"_files?$", x) and kind(x) for x in t[2]):
                files |= {kind(x) for x in t[2] if kind(x)}
    if len(files) != 1 or not WRITES.search(c.name):
        return
    for i, o in enumerate(c.args):
        g = deep_kinds(f, K, o)
        if g:
            R.ob("pass", "%s: %s[%d]" % (short(b), c.name, i), g == files, "`%s` writes %s ids to %s files" % (c.name, "/".join(WORD[x] for x in sorted(g)), "/".join(WORD[x] for x in sorted(files))), f.loc(c.nid))


WRITES = re.compile(r"wavelet|logarray|log_array|push|write|from_iter")


def accumulators(R, f, b):
    """an offset that runs over layers covers nodes and values alike"""
    terms = {}
    for n in sorted(f.reach):
        for i, (d, rv, ln) in enumerate(f.nodes[n].stmts):
            if rv[0] == "bin" and rv[1] in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow"):
                terms[("expr", n, i)] = rv
    succ = {}
    for t, rv in terms.items():
        succ[t] = {x[:3] for o in rv[2:4] for x in f.origins(o) if x[0] == "expr" and x[:3] in terms}

    def reach(t):
        seen, work = set(), list(succ[t])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += succ[x]
        return seen
    R_ = {t: reach(t) for t in terms}
    used = False
    done = set()
    sums = []
    for t in terms:
        if t not in R_[t] or t in done:
            continue
        group = {x for x in terms if x in R_[t] and t in R_[x]}
        done |= group
        names = set()
        for x in group:
            for o in terms[x][2:4]:
                ts = f.origins(o)
                if any(u[0] == "expr" and u[:3] in group for u in ts):
                    continue
                names |= sizes(f, o)
        if names:
            sums.append((names, f.loc(min(x[1] for x in group))))
    if fine(b.name) == {"node", "value"} and re.search(r"count$", b.name) and "parent" not in b.name:
        names = set()
        for t in f.res(f.retvar, ()):
            names |= own_sizes(f, t)
        if names:
            used = True
            R.ob("sum", short(b) + ": own entries", names == {"node", "value"}, "`%s` counts the %ss of the layer alone" % (short(b), "/".join(sorted(names))), "%s:%d" % (b.file, b.line))
    for names, loc in sums:
            used = True
            ok = names == {"node", "value"} or sum(o == names for o, l in sums) <= sum(o == {"node", "value"} - names for o, l in sums)
            R.ob("sum", short(b), ok, "`%s` advances an offset by the number of %ss of a layer alone" % (short(b), "/".join(sorted(names))), loc)
    return used


def own_sizes(f, t):
    r, work, seen = set(), [t], set()
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] == "expr":
            for o in f.stmt(t)[1:]:
                if isinstance(o, tuple) and o and o[0] == "p":
                    work += list(f.origins(o))
        elif t[0] == "call" and "parent" not in f.callof(t).name:
            r |= size_of(f, t)
    return r


def sizes(f, o):
    """whose number of entries goes into a sum"""
    r = set()
    for t in f.leaves(o, depth=10):
        r |= size_of(f, t)
    return r


def size_of(f, t):
    if t[0] != "call":
        return set()
    c = f.callof(t)
    if not re.search(r"(^|_)(len|count|num_entries)$", c.name):
        return set()
    g = fine(c.name)
    if g or not c.args or std(c):
        return g
    for u in f.origins(c.args[0]):
        g |= fine_of(f, u)
    if not g:
        for u in f.leaves(c.args[0], depth=10):
            g |= fine_of(f, u)
    return g


def fine_of(f, u, depth=3):
    """the dictionary a term speaks of"""
    if u[0] == "param":
        x = [f.entry.params[u[1] - 1] or ""] if 0 < u[1] <= len(f.entry.params or ()) else []
        for y in list(u[2]) + x:
            if fine(y):
                return fine(y)
    elif u[0] == "call":
        for y in reversed(u[2]):
            if fine(y):
                return fine(y)
        if fine(f.callof(u).name):
            return fine(f.callof(u).name)
        g = set()
        if "[]" in u[2] and depth:
            for o in pushed(f, u[1]):
                if o[0] == "p":
                    for w in f.res(o[1], tuple(o[2]) + u[2][u[2].index("[]") + 1:]):
                        g |= fine_of(f, w, depth - 1)
        return g
    return set()
