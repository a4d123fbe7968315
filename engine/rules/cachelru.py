"""P14: the archive cache returns what the origin holds, stays within its
limit, and a lookup in flight is neither lost nor left behind."""
from rules.lib import *
from rules.pack import plain
from rules.valex import Ev, lin
import flow

READS = {"get", "peek", "get_mut", "peek_mut", "contains"}
PLACES = {"get_mut", "peek_mut", "get_or_insert_mut", "index_mut"}
PUTS = {"put", "push"}
MAKES = {"get_or_insert", "get_or_insert_mut", "try_get_or_insert", "try_get_or_insert_mut"}
DROPS = {"pop", "pop_entry"}
FINE = {"iter", "len", "is_empty", "cap", "peek_lru", "fmt"}
TOUCH = {"promote", "demote"}
EVICT = {"pop_lru"}
MUTATES = PUTS | MAKES | DROPS | TOUCH | EVICT | {"clear", "resize", "get", "get_mut", "iter_mut"}
ID = ("param", 2, ())


def is_cache(c):
    return "lru::LruCache" in c.path or "LruCache<" in c.path.split("::", 1)[-1] and c.path.startswith("lru")


def variants(prog):
    """(Resolving-like, Resolved-like) variant names of the cache's entry type"""
    out = {}
    for a in prog.adts.values():
        if a["id"].split("::")[-1] == "CacheEntry":
            for v in a["variants"]:
                tys = [x["ty"] if isinstance(x, dict) else x for x in v["fields"]]
                out[v["name"]] = tys
    return out


class Fn:
    def __init__(self, R, prog, b, opaque):
        self.R = R
        self.b = b
        self.f = f = flat(prog, b, opaque=opaque, R=R)
        f.pushes = True
        self.H = held(f)
        self.C = conds(f)
        self.ev = Ev(f)
        self.ops = [c for c in f.callsites if c.nid in f.reach and not c.inlined and is_cache(c)]
        self.key = short(b)

    def locks(self, nid, must=True):
        return {t for t in self.H.at(nid, must) if "LruCache" in self.H.tokens.get(t, "")}

    def origin(self, field=None):
        out = []
        for c in self.f.callsites:
            if c.nid not in self.f.reach or c.inlined or not c.args:
                continue
            o = plain(self.f.origins(c.args[0]))
            if o and all(t[0] == "param" and t[1] == 1 and t[2] and t[2][0] in ("metadata_origin", "data_origin") for t in o):
                if c.trait and (field is None or all(t[2] == (field,) for t in o)):
                    out.append(c)
        return out

    def entry_kind(self, op):
        """[(variant, operand, (nid, sidx))] of a cache entry; None: unknown"""
        out = []
        for t in self.f.origins(op):
            if t[0] == "part":
                continue
            if t[0] != "agg" or t[3]:
                return None
            rv = self.f.stmt(t)
            if rv[1][0] != "adt" or not rv[1][1].endswith("CacheEntry"):
                return None
            out.append((rv[1][2], rv[2][0] if rv[2] else None, t[1]))
        return out or None

    def insertions(self):
        """[(nid, variant, operand)]"""
        f = self.f
        out = []
        for c in self.ops:
            if c.name in PUTS and len(c.args) > 2:
                out.append((c.nid, c, self.entry_kind(c.args[2])))
            elif c.name in MAKES and len(c.args) > 2:
                rs = closure_of(f, c)
                k = []
                for r in rs:
                    e = self.entry_kind(r)
                    k = None if e is None or k is None else k + e
                out.append((c.nid, c, k or None))
        for x in sorted(f.reach):
            for d, rv, line in f.nodes[x].stmts:
                ty = f.vtype[d[0]]
                if ty.startswith("&") and "mut" in ty.split(" ")[0] + " " + ty[:20] and type_head(ty.split("mut ", 1)[-1]) == "CacheEntry" and rv[0] in ("use", "agg") \
                        and (d[1] in ((), ("*",))) and not self.is_binding(d, rv):
                    if rv[0] == "agg" and rv[1][0] == "adt":
                        out.append((x, None, [(rv[1][2], rv[2][0] if rv[2] else None, x)]))
                    elif rv[0] == "use":
                        out.append((x, None, self.entry_kind(rv[1])))
        return out

    def is_binding(self, d, rv):
        """the statement sets the reference itself, not what it points to"""
        if rv[0] == "use":
            o = rv[1]
            return o[0] == "p" and not o[2] and self.f.vtype[o[1]].startswith("&")
        return False

    def resolved(self):
        return [(n, c, o) for n, c, k in self.insertions() for v, o, x in k or [] if self.is_bytes(v, o)]

    def resolving(self):
        return [(n, c, o) for n, c, k in self.insertions() for v, o, x in k or [] if not self.is_bytes(v, o)]

    def is_bytes(self, v, o):
        return o is not None and o[0] == "p" and "Bytes" in self.f.vtype[o[1]] and "RwLock" not in self.f.vtype[o[1]]

    def own(self, op):
        return set(plain(self.f.origins(op))) == {ID}

    def removals(self):
        """nodes that take the layer's own entry out of the cache"""
        f = self.f
        out = set()
        for c in self.ops:
            if c.name in DROPS and self.own(c.args[1]):
                out.add(c.nid)
            if c.name in EVICT and self.demoted(c):
                out.add(c.nid)
        return out

    def demoted(self, c):
        """every path to this pop_lru has just demoted the own entry"""
        ds = {d.nid for d in self.ops if d.name == "demote" and self.own(d.args[1])}
        if not ds:
            return False
        f = self.f
        others = {d.nid for d in self.ops if d.name in MUTATES and d.nid not in ds}
        starts = list(flow.start_states(f))
        got = flow.explore(f, starts, flow.avoid_cut(ds))
        if c.nid in got:
            return False
        for o in others:
            for s in flow_after(f, o):
                if c.nid in flow.explore(f, [s], flow.avoid_cut(ds)):
                    return False
        for o in [d for d in self.ops if d.name == "demote" and d.nid not in ds]:
            for s in flow_after(f, o.nid):
                if c.nid in flow.explore(f, [s], flow.avoid_cut(ds)):
                    return False
        return True


def closure_of(f, c):
    """results of the closures a call was given"""
    return [("p", v, (), False) if isinstance(v, int) else v for ai, v in getattr(f, "closure_results", {}).get(c.nid, [])]


def flow_after(f, nid):
    out = []
    for x in f.xof.get(nid, []):
        st = f.xkey[x][1]
        for s, lab, st2 in f._step(nid, st):
            if lab != "closure":
                out.append((s, st2))
    return out


def enters(f, got, nodes):
    """states in which an exploration that stopped short of some nodes would have entered them"""
    out = []
    for nid, sts in got.items():
        for st in sts:
            for s, lab, st2 in f._step(nid, st):
                if s in nodes:
                    out.append((s, st2))
    return out


def awaits(f):
    return {x for x in f.reach if f.nodes[x].kind == "await"}


def p14(R, prog):
    R.rule("own", "every cache operation is about the layer that was asked for, apart from eviction, which works on the least recently used entry")
    R.rule("unlocked", "the cache is not locked while an origin is asked, while another lookup is waited for, or when it is locked again")
    R.rule("bytes", "what enters the cache, what waiters are given, and what is returned as a layer's bytes is what the data origin returned for that layer, or was successfully stored under that name")
    R.rule("bounded", "bytes enter the cache only where their length, with that of all bytes in the cache that were not evicted since, is known to be within the limit")
    R.rule("resolve", "a lookup puts its resolving entry in the cache holding its barrier, and, whatever the origin answers, sets the barrier's content and replaces or removes the entry, without suspension between the two")
    R.rule("retry", "a waiter that finds its lookup abandoned looks the layer up again, and takes the resolving entry out of the cache exactly when it is still the abandoned one")
    R.rule("evict", "an entry of a lookup in flight is not evicted or overwritten, and a further entry is evicted only where room is known to be missing still")
    R.rule("answers", "what is not answered from the layer's cached bytes is answered by the origin, asked for the same thing")

    entry = variants(prog)
    R.ob("own", "entry-type", len(entry) == 2, "the cache's entries are resolved bytes or a resolving barrier: %s" % sorted(entry), "")
    bodies = [b for b in prog.bodies.values() if b.impl_self and type_head(b.impl_self) == "LruArchiveBackend" and b.kind == "AssocFn"
              and (b.impl_trait or "").split("::")[-1].split("<")[0] in ("ArchiveBackend", "ArchiveMetadataBackend")]
    if len(bodies) < 10:
        raise Missing("LruArchiveBackend's methods")
    fns = {}
    for b in sorted(bodies, key=lambda b: b.id):
        fns[b.name] = Fn(R, prog, b, {x.id for x in bodies if x.id != b.id} | {b.id})
        R.saw(fns[b.name].f)
    for fn in fns.values():
        own(R, fn)
        unlocked(R, fn)
        entries(R, fn)
        bounded(R, fn, prog)
        evict(R, fn)
    resolve(R, fns["get_layer_bytes"])
    answers(R, fns)
    R.floor("own", 8)
    R.floor("unlocked", 10)
    R.floor("bytes", 4)
    R.floor("bounded", 2)
    R.floor("resolve", 3)
    R.floor("retry", 2)
    R.floor("evict", 3)
    R.floor("answers", 12)


def own(R, fn):
    f = fn.f
    n = {}
    for c in fn.ops:
        if len(c.args) < 2 or c.name in ("map", "sum"):
            continue
        i = n[c.name] = n.get(c.name, 0) + 1
        o = set(plain(f.origins(c.args[1])))
        lru = bool(o) and all(t[0] == "call" and f.callof(t).name == "peek_lru" for t in o)
        ok = o == {ID} or (c.name == "promote" and lru)
        R.ob("own", "%s/%s" % (fn.key, c.name), ok, "`%s` calls %s with the key %s" % (fn.key, c.name, tset(f, o)), f.loc(c.nid))
    for c in fn.ops:
        known = READS | PUTS | MAKES | DROPS | FINE | TOUCH | EVICT
        if c.name not in known:
            R.ob("own", "%s/%s" % (fn.key, c.name), False, "`%s` uses %s on the cache, which these rules do not know" % (fn.key, c.name), f.loc(c.nid))


def unlocked(R, fn):
    f, H = fn.f, fn.H
    for c in fn.origin():
        bad = [x for x in flow.exec_nodes(f, c) + [c.nid] if fn.locks(x, False)]
        R.ob("unlocked", "%s/%s" % (fn.key, c.name), not bad, "`%s` asks the origin for %s%s" % (fn.key, c.name, " with the cache locked" if bad else " with the cache unlocked"), f.loc(c.nid))
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or c.name not in ("lock", "read", "write", "blocking_lock", "lock_owned", "read_owned", "write_owned") or "tokio::sync" not in c.path:
            continue
        # a barrier nobody else has seen yet can be taken at once
        fresh = all(t[0] == "agg" for t in plain(f.origins(c.args[0])))
        if fresh:
            continue
        bad = [x for x in flow.exec_nodes(f, c) if {t for t in fn.locks(x, False) if t[0] != x}]
        what = "its cache" if "Mutex" in c.path else "a barrier"
        R.ob("unlocked", "%s/%s-%s" % (fn.key, c.name, what.split()[-1]), not bad, "`%s` waits for %s%s" % (fn.key, what, " with the cache locked" if bad else " with the cache unlocked"), f.loc(c.nid))
    # any other suspension point
    for x in sorted(awaits(f)):
        src = [f.callof(t) for t in f.origins(f.opnd(f.nodes[x].ctx, f.nodes[x].term[1])) if t[0] == "call"]
        if src and all(c is not None and ("tokio::sync" in c.path) for c in src):
            continue
        bad = {t for t in fn.locks(x, False)}
        R.ob("unlocked", "%s/await-%s" % (fn.key, "+".join(sorted({c.name for c in src if c is not None})) or "?"), not bad, "`%s` suspends%s" % (fn.key, " with the cache locked" if bad else " with the cache unlocked"), f.loc(x))


def lookups(fn):
    """calls of the data origin for the layer's own bytes"""
    f = fn.f
    return [c for c in fn.origin("data_origin") if c.name == "get_layer_bytes" and set(plain(f.origins(c.args[1]))) == {ID}]


def stores(fn):
    f = fn.f
    return [c for c in fn.origin("data_origin") if c.name == "store_layer_file" and set(plain(f.origins(c.args[1]))) == {ID}]


def good_bytes(fn, op, nid):
    """the operand is what the data origin holds for the layer"""
    f = fn.f
    looks = {c.nid for c in lookups(fn)}
    ts = set(plain(f.origins(op)))
    if not ts:
        return False, ts
    for t in ts:
        if t[0] == "call" and t[1] in looks and t[2] == ("!",):
            continue
        if t[0] == "param" and t[1] == 3 and not t[2]:
            ss = [c for c in stores(fn) if set(plain(f.origins(c.args[2]))) == {t}]
            ran = {x for c in ss for x in flow.exec_nodes(f, c)}
            if ss and nid not in flow.explore(f, list(flow.start_states(f)), flow.avoid_cut(ran)) and not any(nid in flow.after_failure(f, c) for c in ss):
                continue
        return False, ts
    return True, ts


def entries(R, fn):
    f = fn.f
    for n, c, k in fn.insertions():
        R.ob("bytes", "%s/entry" % fn.key, k is not None, "`%s` puts %s in the cache" % (fn.key, "an entry" if k else "something that is not made in the same function"), f.loc(n))
    for n, c, o in fn.resolved():
        ok, ts = good_bytes(fn, o, n)
        R.ob("bytes", "%s/cached" % fn.key, ok, "`%s` caches %s" % (fn.key, tset(f, ts)), f.loc(n))


def reads_of(fn):
    return {c.nid for c in fn.ops if c.name in ("get", "peek", "get_mut", "peek_mut") and fn.own(c.args[1])}


def total(fn, v):
    """this value is the number of bytes in the cache"""
    f = fn.f
    if v[0] == "call" and len(v) > 2 and not v[2]:
        c = f.callof(("call", v[1], ()))
        if c is None or c.name not in ("sum",):
            return False
        src = plain(f.origins(c.args[0]))
        return bool(src) and all(t[0] == "call" and not t[2] and mapped(fn, f.callof(t)) for t in src)
    return False


def mapped(fn, c):
    f = fn.f
    if c.name == "map":
        ty = f.vtype[c.args[0][1]] if c.args[0][0] == "p" else ""
        if not (ty.startswith("lru::") and type_head(ty) == "Iter"):
            return False
        rs = closure_of(f, c)
        return bool(rs) and all(weigh(fn, t) for r in rs for t in f.origins(r) if t[0] != "part")
    if c.name in ("filter_map", "flat_map"):
        return False
    return False


def weigh(fn, t):
    """a term that counts an entry: the length of its bytes, or nothing where it has none"""
    f = fn.f
    if t[0] == "const":
        # only for entries without bytes
        return t[2] == 0 and zero_ok(fn, t)
    if t[0] == "call":
        c = f.callof(t)
        if c.name != "len":
            return False
        o = plain(f.origins(c.args[0]))
        return bool(o) and all(elem(fn, x) for x in o)
    return False


def elem(fn, x):
    """the bytes of an element of the cache"""
    f = fn.f
    if x[0] == "param" and x[1] == 1 and "[]" in x[2] and x[2][-1].endswith(".0"):
        return True
    return x[0] == "call" and f.callof(x).name in ("iter", "next") and x[2] and x[2][-1].endswith(".0")


def zero_ok(fn, t):
    """the constant 0 is the weight of an entry only where the entry is not resolved"""
    f, C = fn.f, fn.C
    ok = False
    for x in sorted(f.reach):
        for d, rv, line in f.nodes[x].stmts:
            if rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("int") == 0 if rv[0] == "use" and rv[1][0] == "k" and isinstance(rv[1][1], dict) else False:
                for a in C.facts(x):
                    if a[0] == "variant" and elem_entry(fn, a[1]):
                        if set(a[2]) & {"Resolved"} or not a[2]:
                            return False
                        ok = True
    return ok


def elem_entry(fn, t):
    return t[0] == "param" and t[1] == 1 and "[]" in t[2] or t[0] == "call" and fn.f.callof(t) is not None and fn.f.callof(t).name in ("iter", "next")


MB = 1024 * 1024


def is_limit(fn, v, mult=1):
    """the configured limit (given in megabytes), in bytes"""
    return _lim(v) == MB


def _lim(v):
    if v[0] == "in" and v[1] == 1 and v[2] == ("limit",):
        return 1
    if v[0] == "bin" and v[1] == "Mul":
        a, b = v[2], v[3]
        for x, y in ((a, b), (b, a)):
            if y[0] == "k" and isinstance(y[1], int) and _lim(x):
                return _lim(x) * y[1]
    if v[0] == "bin" and v[1] == "Shl" and v[3][0] == "k" and _lim(v[2]):
        return _lim(v[2]) << v[3][1]
    if v[0] == "f" and v[1] in ("saturating_mul", "wrapping_mul", "mul") and len(v[2]) == 2:
        return _lim(("bin", "Mul", v[2][0], v[2][1]))
    return None


def weight(fn, v, lenb, depth=12):
    """[(limit, total, len(b), const, rest)] as a linear form of a tree; None: not understood"""
    if depth < 0:
        return None
    if v == lenb:
        return {"b": 1}
    if is_limit(fn, v):
        return {"L": 1}
    if v == ("total",) or total(fn, v):
        return {"S": 1}
    if v[0] == "k" and isinstance(v[1], int):
        return {"": v[1]} if v[1] else {}
    if v[0] == "bin" and v[1] in ("Add", "Sub"):
        a, b = weight(fn, v[2], lenb, depth - 1), weight(fn, v[3], lenb, depth - 1)
        return comb(a, b, 1 if v[1] == "Add" else -1)
    if v[0] == "f" and v[1] in ("saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add") and len(v[2]) == 2:
        a, b = weight(fn, v[2][0], lenb, depth - 1), weight(fn, v[2][1], lenb, depth - 1)
        return comb(a, b, 1 if "add" in v[1] else -1)
    return None


def comb(a, b, s):
    if a is None or b is None:
        return None
    out = dict(a)
    for k, n in b.items():
        out[k] = out.get(k, 0) + s * n
    return {k: n for k, n in out.items() if n}


def elemlen(v):
    return v[0] == "f" and v[1] == "len" and len(v[2]) == 1 and v[2][0][0] in ("in", "call") and len(v[2][0]) > 2 and v[2][0][2][-1:] and v[2][0][2][-1].endswith(".0") \
        and (v[2][0][0] == "call" or v[2][0][1] == 1 and "[]" in v[2][0][2])


def settle(fn, vs):
    """the values with running totals over the whole cache, counted up from
    nothing, replaced by what they are: the total"""
    loops = set()

    def find(v):
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == "bin" and v[1] == "Add":
                for a, b in ((v[2], v[3]), (v[3], v[2])):
                    if a[0] == "loop" and elemlen(b):
                        loops.add(a[1])
            for x in v:
                find(x)
    for v in vs:
        find(v)
    if not loops or not all(all_counted(fn, n) for n in loops):
        return set(vs)

    def sub(v, zero=False):
        if not isinstance(v, tuple):
            return v
        if len(v) == 4 and v[0] == "bin" and v[1] == "Add":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if elemlen(b) and (a[0] == "loop" and a[1] in loops or a == ("k", 0)):
                    return ("total",)
        return tuple(sub(x) for x in v)

    def empty(v):
        if v == ("total",):
            return ("k", 0)
        return tuple(empty(x) for x in v) if isinstance(v, tuple) else v
    new = {sub(v) for v in vs}
    return new - {empty(v) for v in new if empty(v) != v}


def all_counted(fn, node):
    f = fn.f
    ok = False
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or c.name != "next" or c.args[0][0] != "p":
            continue
        ty = f.vtype[c.args[0][1]]
        if "lru::Iter<" not in ty or any(x in ty for x in ("Skip", "Take", "Filter", "StepBy", "Chain")):
            continue
        g = flow.explore(f, flow.result_starts(f, c, [((), "Some"), (("!", "1"), "Resolved")]), flow.avoid_cut({node, c.nid}))
        nxt = {s for n in g for s, l in f.nodes[n].succ}
        if node in nxt and c.nid in flow.explore(f, flow_after(f, node)):
            if c.nid in nxt or f.exit in g:
                return False
            # the loop ends only with the entries
            after = flow.explore(f, flow_after(f, node), flow.avoid_cut({c.nid}))
            if f.exit in after:
                return False
            ok = True
    return ok


ROOM = {"L": 1, "S": -1, "b": -1}
NEED = {"L": -1, "S": 1, "b": 1}


def needs(fn, vs, lenb, pops):
    """these are the bytes still to be evicted: what is missing, less what was popped since"""
    def root(v):
        if weight(fn, v, lenb) == NEED:
            return "need"
        if v[0] == "loop":
            return "loop"
        a, b = None, None
        if v[0] == "bin" and v[1] == "Sub":
            a, b = v[2], v[3]
        elif v[0] == "f" and v[1] in ("saturating_sub", "wrapping_sub") and len(v[2]) == 2:
            a, b = v[2]
        if a is None or not popped(b, pops):
            return None
        return {"need": "need", "loop": "less", "less": "less"}.get(root(a))
    rs = {root(v) for v in vs}
    return None not in rs and ("need" in rs or rs == {"loop"})


def popped(v, pops):
    return v[0] == "f" and v[1] == "len" and len(v[2]) == 1 and v[2][0][0] == "call" and v[2][0][1] in pops and v[2][0][2][-1:] and v[2][0][2][-1].endswith(".0")


def freed(v, pops):
    """the bytes popped since, counted up from nothing"""
    if v == ("k", 0) or v[0] == "loop" or popped(v, pops):
        return True
    if v[0] == "bin" and v[1] == "Add":
        return freed(v[2], pops) and freed(v[3], pops)
    return v[0] == "f" and v[1] in ("saturating_add", "wrapping_add") and len(v[2]) == 2 and all(freed(x, pops) for x in v[2])


def bounded(R, fn, prog):
    f, C = fn.f, fn.C
    pops = {c.nid for c in fn.ops if c.name in EVICT and not fn.demoted(c)}
    for n, c, o in fn.resolved():
        bt = set(fn.ev.op(o, 10))
        if len(bt) != 1:
            R.ob("bounded", "%s/fits" % fn.key, False, "`%s` caches bytes of more than one origin" % fn.key, f.loc(n))
            continue
        lenb = ("f", "len", (next(iter(bt)),), ())

        def fits(a):
            if a[0] != "ord":
                return False
            lo, hi = [set(fn.ev.op(x, 12)) for x in a[2:4]]
            return bool(lo) and bool(hi) and all((lambda d: d is not None and d == {"L": 1, "b": -1})(comb(weight(fn, y, lenb), weight(fn, x, lenb), -1)) for x in lo for y in hi)

        def enough(a):
            if a[0] == "ord":
                lo, hi = [settle(fn, fn.ev.op(x, 12)) for x in a[2:4]]
                if not lo or not hi:
                    return False
                if all(comb(weight(fn, y, lenb), weight(fn, x, lenb), -1) == ROOM for x in lo for y in hi):
                    return True
                if all(popped(y, pops) or y == ("k", 0) for y in hi) and needs(fn, lo, lenb, pops):
                    return True
                return all(freed(y, pops) for y in hi) and all(weight(fn, x, lenb) == NEED for x in lo)
            if a[0] == "variant" and a[3] is True and tuple(a[2]) == ("None",) and a[1][0] == "call":
                c2 = f.callof(a[1])
                if c2 is not None and c2.name == "checked_sub" and len(c2.args) == 2:
                    lo, hi = [settle(fn, fn.ev.op(x, 12)) for x in c2.args]
                    return bool(lo) and bool(hi) and all(popped(y, pops) for y in hi) and needs(fn, lo, lenb, pops)
                return False
            if a[0] == "int" and a[2] == 0 and a[3] is True:
                x = settle(fn, fn.ev.op(a[1], 12))
                return bool(x) and needs(fn, x, lenb, pops)
            if a[0] == "eq" and a[3] is True:
                x, y = [settle(fn, fn.ev.op(z, 12)) for z in a[1:3]]
                for p, q in ((x, y), (y, x)):
                    if q == {("k", 0)} and needs(fn, p, lenb, pops):
                        return True
            return False
        fit = flow.edges_where(f, fits, 4)
        eno = flow.edges_where(f, enough, 4)
        lk = fn.locks(n)
        starts = [s for l in lk for s in flow_after(f, l[0])] or list(flow.start_states(f))
        R.ob("bounded", "%s/locked" % fn.key, bool(lk), "`%s` caches bytes %s" % (fn.key, "with the cache locked" if lk else "without having the cache locked"), f.loc(n))
        for nm, es in (("fits", fit), ("room", fit_or(eno))):
            es = set(es)
            got = flow.explore(f, starts, lambda a, l, b, es=es: (a, l) in es)
            bad = n in got
            what = "knowing that they are not larger than the limit" if nm == "fits" else "knowing that they fit beside what is cached"
            R.ob("bounded", "%s/%s" % (fn.key, nm), not bad and bool(es), "`%s` caches bytes %s%s" % (fn.key, "without " if bad or not es else "", what), f.loc(n))
        # nothing else enters between
        others = [m for m, c2, k in fn.insertions() if m != n]
        tails = {s for x, lab in eno for s, l in f.nodes[x].succ if l == lab}
        bad = [m for m in others if any(k for k in [fn.is_bytes(v, oo) for mm, cc, kk in fn.insertions() if mm == m for v, oo, x in kk or []])
               and m in flow.explore(f, [(s, st) for s in tails for st in states_at(f, s)]) and n in flow.explore(f, flow_after(f, m))]
        R.ob("bounded", "%s/alone" % fn.key, not bad, "`%s` caches nothing else between making room and caching the bytes" % fn.key, f.loc(n))


def fit_or(e):
    return e


def states_at(f, nid):
    return [f.xkey[x][1] for x in f.xof.get(nid, [])]


def evict(R, fn):
    f, C = fn.f, fn.C
    pe = {c.nid for c in fn.ops if c.name == "peek_lru"}

    def settled(a):
        return a[0] == "variant" and a[1][0] == "call" and a[1][1] in pe and a[1][2] == ("!", "1") and a[2] and "Resolving" not in a[2] and a[3]
    es = flow.edges_where(f, settled, 4)
    for c in fn.ops:
        if c.name in EVICT:
            if fn.demoted(c):
                R.ob("evict", "%s/own" % fn.key, True, "`%s` takes out its own layer's entry" % fn.key, f.loc(c.nid))
                continue
            muts = [o.nid for o in fn.ops if o.name in MUTATES]
            starts = list(flow.start_states(f)) + [s for m in muts for s in flow_after(f, m)]
            got = flow.explore(f, starts, lambda a, l, b: (a, l) in es)
            bad = c.nid in got
            R.ob("evict", "%s/lru" % fn.key, not bad, "`%s` evicts the least recently used entry %s" % (fn.key, "which may be of a lookup in flight" if bad else "only where it is not of a lookup in flight"), f.loc(c.nid))
            # after an entry was evicted, another one is only where room is known to be missing still
            more = flow.edges_where(f, lambda a: lacking(f, a), 0)
            got = flow.explore(f, flow_after(f, c.nid), lambda a, l, b: (a, l) in more)
            again = [o for o in fn.ops if o.name in EVICT and o.nid in got and not fn.demoted(o)]
            R.ob("evict", "%s/enough" % fn.key, not again, "`%s` %s" % (fn.key, "evicts a further entry though the room may be enough, be it that none is left" if again else "evicts a further entry only where room is missing still"), f.loc(c.nid))
        elif c.name in PUTS:
            asked = {r.nid: r for r in fn.ops if r.name in READS and fn.own(r.args[1])}

            def absent(a):
                if a[0] == "bool" and a[2] is False and a[1][0] == "call" and a[1][1] in asked and asked[a[1][1]].name == "contains":
                    return True
                return a[0] == "variant" and a[1][0] == "call" and a[1][1] in asked and not a[1][2] and tuple(a[2]) == ("None",)
            es2 = flow.edges_where(f, absent, 4)
            lk = fn.locks(c.nid)
            starts = [s for l in lk for s in flow_after(f, l[0])]
            got = flow.explore(f, starts or list(flow.start_states(f)), lambda a, l, b: (a, l) in es2)
            bad = c.nid in got or not lk
            R.ob("evict", "%s/put" % fn.key, not bad, "`%s` puts an entry %s" % (fn.key, "that can replace one of a lookup in flight" if bad else "only where the layer has none"), f.loc(c.nid))
        elif c.name in DROPS or c.name in ("clear", "resize", "iter_mut"):
            ok = c.name in DROPS and fn.own(c.args[1])
            R.ob("evict", "%s/%s" % (fn.key, c.name), ok, "`%s` calls %s on the cache" % (fn.key, c.name), f.loc(c.nid))
    # the own entry is removed only by whoever resolves it, or knows it abandoned
    rem = fn.removals()
    if rem:
        ins = {n for n, c, o in fn.resolving()}
        es3 = flow.edges_where(f, lambda a: is_same(fn, a), 4)

        def cut(a, l, b):
            return b in ins or (a, l) in es3
        got = flow.explore(f, list(flow.start_states(f)), cut)
        bad = rem & set(got)
        R.ob("evict", "%s/removes" % fn.key, not bad, "`%s` removes an entry %s" % (fn.key, "it neither made nor knows to be abandoned" if bad else "only when it has made it or knows it abandoned"), f.loc(sorted(bad or rem)[0]))


def lacking(f, a):
    """a quantity is known to be below another one, or not to be nothing"""
    if a[0] == "ord":
        return a[1] == "Lt"
    if a[0] == "int":
        return a[2] == 0 and a[3] is False
    if a[0] == "eq":
        return a[3] is False and any(t[0] in ("const", "int") for t in a[1:3] if isinstance(t, tuple))
    if a[0] == "variant" and tuple(a[2]) == ("None",) and a[3] and a[1][0] == "call":
        c = f.callof(a[1])
        return c is not None and c.name == "checked_sub"
    return False


def is_same(fn, a):
    """the entry in the cache is known to be the one that was waited for"""
    if not (a[0] == "bool" and a[2] is True and a[1][0] == "call"):
        return False
    c = fn.f.callof(a[1])
    if c is None or c.name not in ("ptr_eq", "same_channel"):
        return False
    reads = reads_of(fn)
    sides = [plain(fn.f.origins(x)) for x in c.args]

    def cached(ts):
        return bool(ts) and all(t[0] == "call" and t[1] in reads or t[0] == "param" and t[1] == 1 and "[]" in t[2] for t in ts)

    def barrier(ts):
        return ts == barriers(fn)
    return len(sides) == 2 and (cached(sides[0]) and cached(sides[1])) and sides[0] != sides[1]


def barriers(fn):
    """the barrier that is waited for"""
    out = set()
    for c in fn.f.callsites:
        if c.nid in fn.f.reach and not c.inlined and c.name in ("read", "read_owned") and "tokio::sync" in c.path:
            out |= set(plain(fn.f.origins(c.args[0])))
    return out


def content_writes(fn):
    """[(nid, operand)]: where a barrier's content is set"""
    f = fn.f
    out = []
    for x in sorted(f.reach):
        for d, rv, line in f.nodes[x].stmts:
            ty = f.vtype[d[0]]
            if ty.startswith("&mut std::option::Option<std::result::Result<bytes::Bytes") and not d[1] and rv[0] in ("use", "agg"):
                if rv[0] == "use" and fn.is_binding(d, rv):
                    continue
                out.append((x, rv))
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.name in ("replace", "insert") and c.args and "Option<std::result::Result<bytes::Bytes" in (f.vtype[c.args[0][1]] if c.args[0][0] == "p" else ""):
            out.append((c.nid, ("use", c.args[1])))
    return out


def resolve(R, fn):
    f, H = fn.f, fn.H
    looks = {c.nid for c in lookups(fn)}
    allowed = reads_of(fn)
    rec = {c.nid for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "get_layer_bytes" and set(plain(f.origins(c.args[0]))) == {("param", 1, ())} and fn.own(c.args[1])}
    ret = plain(f.res(f.retvar, ("!",)))
    bad = [t for t in ret if not (t[0] == "call" and (t[1] in looks and t[2] == ("!",) or t[1] in rec and t[2] == ("!",) or t[1] in allowed and len(t[2]) > 1))
           and not (t[0] == "call" and f.callof(t).name == "read")]
    R.ob("bytes", "%s/returned" % fn.key, bool(ret) and not bad, "`%s` returns %s" % (fn.key, tset(f, ret)), f.loc(0))
    ins = fn.resolving()
    R.ob("resolve", "%s/resolving" % fn.key, bool(ins), "a lookup is announced in the cache before the origin is asked", f.loc(0))
    ran = {x for c in lookups(fn) for x in flow.exec_nodes(f, c)}
    insn = {n for n, c, o in ins}
    un = ran & set(flow.explore(f, list(flow.start_states(f)), flow.avoid_cut(insn)))
    R.ob("resolve", "%s/announced" % fn.key, bool(ran) and not un, "the origin is asked %s the lookup is announced in the cache" % ("before" if un else "only after"), f.loc(sorted(un or ran or {0})[0]))
    cw = content_writes(fn)
    sets = {x for x, rv in cw}
    gone = fn.removals()
    done = {n for n, c, o in fn.resolved()} | gone
    # the content is the lookup's
    for x, rv in cw:
        ls = set()
        for o in ([rv[1]] if rv[0] == "use" else rv[2]):
            ls |= set(f.leaves(o, depth=12, stop=lambda c: c.nid in looks))
        ok = any(t[0] == "call" and t[1] in looks for t in ls) and all(t[0] == "call" and t[1] in looks or t[0] in ("agg", "part", "expr") or t[0] == "call" and f.callof(t).name in ("kind", "map_err", "cloned", "as_ref", "clone", "map") for t in ls)
        R.ob("bytes", "%s/barrier" % fn.key, ok, "a barrier's content is set to %s" % tset(f, ls), f.loc(x))
        wl = {t for t in H.at(x) if "Option<std::result::Result<bytes::Bytes" in H.tokens.get(t, "")}
        R.ob("resolve", "%s/written" % fn.key, bool(wl), "the content is set under the lookup's own barrier", f.loc(x))
    for n, c, o in ins:
        bo = set(plain(f.origins(o))) if o is not None else set()
        toks = {t for t in H.at(n) if "Option<std::result::Result<bytes::Bytes" in H.tokens.get(t, "") and "Write" in t[1]}
        okb = any(set(plain(H.lock_of(t))) == bo for t in toks) and all(t[0] == "agg" for t in bo) and bool(bo)
        R.ob("resolve", "%s/barrier" % fn.key, okb, "the resolving entry's barrier is %s when it enters the cache" % ("held by the lookup" if okb else "not held by the lookup"), f.loc(n))
        none = none_inside(f, bo)
        R.ob("resolve", "%s/empty" % fn.key, none, "the resolving entry's barrier is empty when it enters the cache", f.loc(n))
        asked = {r.nid: r for r in fn.ops if r.name in READS and fn.own(r.args[1]) and fn.locks(r.nid) & fn.locks(n)}

        def absent(a):
            if a[0] == "bool" and a[2] is False and a[1][0] == "call" and a[1][1] in asked and asked[a[1][1]].name == "contains":
                return True
            return a[0] == "variant" and a[1][0] == "call" and a[1][1] in asked and not a[1][2] and tuple(a[2]) == ("None",)
        es = flow.edges_where(f, absent, 4)
        got = flow.explore(f, [s for l in fn.locks(n) for s in flow_after(f, l[0])], lambda a, l, b: (a, l) in es)
        one = bool(fn.locks(n)) and bool(asked) and n not in got
        R.ob("resolve", "%s/single" % fn.key, one, "a lookup is announced %s" % ("under the lock that showed that there is none" if one else "where another one can be in flight"), f.loc(n))
        # what follows on every path
        aw = awaits(f)
        st0 = flow_after(f, n)
        both = sets | done
        g0 = flow.explore(f, st0, flow.avoid_cut(both))
        badx = f.exit in g0
        badaw = False
        for first, second in ((sets, done), (done, sets)):
            ent = enters(f, g0, first)
            ent = [(x, st) for x, st in ent if not (x in second)]
            if not ent:
                continue
            g1 = flow.explore(f, ent, flow.avoid_cut(second))
            badx = badx or f.exit in g1
            badaw = badaw or bool(aw & set(g1))
        R.ob("resolve", "%s/finished" % fn.key, not badx and bool(sets) and bool(done), "after the origin's answer the barrier's content is set and the entry replaced or removed%s" % (" - not on every path" if badx else ", on every path"), f.loc(n))
        R.ob("resolve", "%s/together" % fn.key, not badaw, "content and entry change %s" % ("with a suspension between them" if badaw else "together"), f.loc(n))
        # an answer that is an error leaves nothing behind
        for c2 in lookups(fn):
            g = flow.after_failure(f, c2)
            badf = {m for m, cc, oo in fn.resolved()} & set(g)
            stays = f.exit in flow.explore(f, flow.fail_starts(f, c2), flow.avoid_cut(gone))
            R.ob("resolve", "%s/failed" % fn.key, not badf and not stays, "after a failed lookup the entry %s" % ("is not removed" if stays or badf else "is removed"), f.loc(c2.nid))
    waits = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("read", "read_owned") and "tokio::sync" in c.path]
    R.ob("retry", "%s/waits" % fn.key, bool(waits), "a lookup that finds another one in flight waits for it", f.loc(0))
    for w in waits:
        bo = set(plain(f.origins(w.args[0])))
        okw = bool(bo) and all(t[0] == "call" and t[1] in allowed for t in bo)
        R.ob("retry", "%s/barrier" % fn.key, okw, "a waiter waits for %s" % tset(f, bo), f.loc(w.nid))
        paths = {(w.nid, ())}
        es = set()
        C = fn.C
        for x in f.reach:
            if f.nodes[x].kind == "switch":
                for s, lab in f.nodes[x].succ:
                    for a in C.edge(x, lab, 2):
                        if a[0] == "variant" and a[1][0] == "call" and a[1][1] == w.nid and tuple(a[2]) == ("None",):
                            es.add((x, lab, s))
        R.ob("retry", "%s/abandoned" % fn.key, bool(es), "a waiter checks whether the lookup was abandoned", f.loc(w.nid))
        if not es:
            continue
        starts = []
        for x, lab, s in es:
            for xs in f.xof.get(x, []):
                for s2, l2, st2 in f._step(x, f.xkey[xs][1]):
                    if l2 == lab:
                        starts.append((s2, st2))
        again = {x for c in f.callsites if c.nid in rec for x in flow.exec_nodes(f, c)} | {c.nid for c in fn.ops if c.name in ("get", "get_mut") and fn.own(c.args[1])}
        got = flow.explore(f, starts, flow.avoid_cut(again))
        R.ob("retry", "%s/again" % fn.key, f.exit not in got and bool(again & {s for n in got for s, l in f.nodes[n].succ}), "after an abandoned lookup the layer is looked up again%s" % ("" if f.exit not in got else " - not on every path"), f.loc(w.nid))
        same = flow.edges_where(f, lambda a: is_same(fn, a), 4)
        s_st = [(s2, st2) for x, lab in same for xs in f.xof.get(x, []) for s2, l2, st2 in f._step(x, f.xkey[xs][1]) if l2 == lab]
        left = again & set(t for n in flow.explore(f, s_st, flow.avoid_cut(gone | again)) for t, l in f.nodes[n].succ)
        R.ob("retry", "%s/removed" % fn.key, bool(same) and not left, "an abandoned lookup's entry %s before the layer is looked up again" % ("is removed" if same and not left else "is not removed"), f.loc(w.nid))


def none_inside(f, bo):
    """these are a fresh lock whose content is None"""
    ok = bool(bo)
    for t in bo:
        rv = f.stmt(t) if t[0] == "agg" else None
        ok = ok and rv is not None and rv[1][0] == "adt" and rv[1][2] == "None"
    return ok


FILED = ("layer_file_exists", "get_layer_structure_size", "get_layer_structure_bytes", "read_layer_structure_bytes_from")
ANSWERS = {"layer_exists": ("metadata_origin",), "layer_size": ("metadata_origin",), "layer_file_exists": ("metadata_origin",), "get_layer_structure_size": ("metadata_origin",),
           "get_layer_names": ("metadata_origin",), "get_rollup": ("metadata_origin",), "set_rollup": ("metadata_origin",),
           "get_layer_bytes": ("data_origin",), "get_layer_structure_bytes": ("data_origin",), "store_layer_file": ("data_origin",), "read_layer_structure_bytes_from": ("data_origin",)}


def answers(R, fns):
    for name, fn in sorted(fns.items()):
        f, C = fn.f, fn.C
        if name not in ANSWERS:
            continue
        cs = fn.origin()
        mine = [c for c in cs if c.name == name]
        R.ob("answers", "%s/asks" % fn.key, bool(mine), "`%s` asks its origin" % fn.key, f.loc(0))
        for c in cs:
            fld = {t[2][0] for t in plain(f.origins(c.args[0]))}
            args = [set(plain(f.origins(a))) for a in c.args[1:]]
            want = [{("param", i + 2, ())} for i in range(len(args))]
            ok = args == want and c.name == name and fld == set(ANSWERS[name])
            R.ob("answers", "%s/%s" % (fn.key, c.name), ok, "`%s` asks %s for %s(%s)" % (fn.key, "/".join(sorted(fld)), c.name, ", ".join(tset(f, a) for a in args)), f.loc(c.nid))
        ft = [i for i, ty in enumerate(fn.b.params or []) if i == 2 and name in FILED]
        for c in f.callsites:
            if ft and c.nid in f.reach:
                for a in c.args:
                    if a[0] == "p" and not a[2] and type_head(f.vtype[a[1]]) == "LayerFileEnum" or a[0] == "k" and "LayerFileEnum" in str(a):
                        o = set(plain(f.origins(a)))
                        R.ob("answers", "%s/file-%s" % (fn.key, c.name), o == {("param", 3, ())}, "`%s` calls %s about the file %s" % (fn.key, c.name, tset(f, o)), f.loc(c.nid))
        cached = reads_of(fn)

        def known(a):
            """the layer's bytes are in the cache"""
            return a[0] == "variant" and a[3] and tuple(a[2]) == ("Resolved",) and (a[1][0] == "call" and a[1][1] in cached or a[1][0] == "param" and a[1][1] == 1 and a[1][2][-1:] == ("[]",))
        if name in ("get_layer_bytes", "store_layer_file"):
            continue
        # without cached bytes, only the origin's answer is returned
        ran = {x for c in mine for x in flow.exec_nodes(f, c)}
        es = flow.edges_where(f, known, 4)
        bypass = {c.nid for c in f.callsites if c.nid in f.reach and not c.inlined and set(plain(f.origins(c.args[0]) if c.args else ())) == {("param", 1, ())}
                  and c.name in fns and c.args[1:] and set(plain(f.origins(c.args[1]))) == {ID}}
        via = {x for c in f.callsites if c.nid in bypass for x in flow.exec_nodes(f, c)}
        exits = flow.explore(f, list(flow.start_states(f)), lambda a, l, b: (a, l) in es or b in ran or b in via)
        vs = flow.exit_variants(f, exits)
        bad = f.exit in exits and (vs is None or any(v != "Err" for v in vs))
        R.ob("answers", "%s/elsewhere" % fn.key, not bad, "`%s` answers %s" % (fn.key, "without the layer's bytes or the origin" if bad else "only from the layer's bytes or the origin's answer"), f.loc(0))
        # the origin's answer is what is returned
        ret = plain(f.res(f.retvar, ("!",)))
        if name == "layer_exists":
            bad = [t for t in ret if not (t[0] == "call" and t[1] in {c.nid for c in mine} or t[0] == "const" and t[2] in (1, True))]
            R.ob("answers", "%s/value" % fn.key, bool(ret) and not bad, "`%s` answers %s" % (fn.key, tset(f, ret)), f.loc(0))
        if name == "layer_size":
            bad = []
            for t in ret:
                if t[0] == "call" and t[1] in {c.nid for c in mine} and t[2] == ("!",):
                    continue
                vs = set(fn.ev.of({t}))
                if vs and all(v[0] == "f" and v[1] == "len" and (v[2][0][0] == "call" and v[2][0][1] in cached or v[2][0][0] == "in" and "[]" in v[2][0][2]) for v in vs):
                    continue
                bad.append(t)
            R.ob("answers", "%s/value" % fn.key, bool(ret) and not bad, "`%s` answers %s" % (fn.key, tset(f, ret)), f.loc(0))
        if name in ("get_layer_names", "get_rollup"):
            ok = all(t[0] == "call" and t[1] in {c.nid for c in mine} for t in plain(f.res(f.retvar, ())))
            R.ob("answers", "%s/value" % fn.key, ok, "`%s` answers %s" % (fn.key, tset(f, ret)), f.loc(0))
