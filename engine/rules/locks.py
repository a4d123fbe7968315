"""P15: locks: what is held where, in which order locks are taken, and what
the file locks stand for."""
from collections import defaultdict
from rules.lib import *
from rules.pack import plain
import flow

STDGUARD = re.compile(r"^(?:std::sync::|parking_lot::|lock_api::)")
WRITES = {"insert", "remove", "retain", "clear", "drain", "remove_entry", "push", "extend", "swap_remove", "pop"}
ASKS = {"get", "contains_key", "get_mut", "entry", "contains", "get_key_value", "first", "last", "is_empty", "iter", "values", "keys"}
FILELOCKS = ("LockedFile", "ExclusiveLockedFile")


def never(b, d):
    return False


def guard_of(t):
    """the guard type inside a type that owns one"""
    if t.startswith("("):
        for x in split_args(t):
            g = guard_of(x)
            if g:
                return g
        return None
    h = type_head(t)
    if h in qlib.GUARD_NAMES:
        return t
    if h in qlib.WRAPPERS:
        for x in split_args(t):
            g = guard_of(x)
            if g:
                return g
    return None


def lock_class(t):
    """the class of lock a guard type belongs to: what it protects"""
    g = guard_of(t) or t
    h = type_head(g)
    if h in FILELOCKS:
        return "a locked file"
    a = [x for x in split_args(g) if not x.startswith("'")]
    return re.sub(r"'\w+ ?,? ?|'_,? ?", "", a[-1] if a else g)


def is_std(t):
    return bool(STDGUARD.match(guard_of(t) or t))


class Locks:
    def __init__(self, R, prog):
        self.p = prog
        self.f = {}
        self.H = {}
        self.acq = defaultdict(dict)        # body -> {class: where}
        self.calls = defaultdict(list)      # body -> [(targets, call)]
        self.callers = defaultdict(list)
        top = [b for b in prog.bodies.values() if b.kind in ("Fn", "AssocFn") and b.blocks]
        for b in top:
            f = flat(prog, b, inline=never, depth=1)
            self.f[b.id] = f
            self.H[b.id] = held(f)
        for bid, f in self.f.items():
            for c in f.callsites:
                if c.nid in f.reach:
                    for a in c.args:
                        cs = f.closures_of(a) if a[0] == "p" else []
                        for x in cs:
                            if c.target in self.f:
                                self.callers[c.target].append(x[0])
        for bid, f in self.f.items():
            H = self.H[bid]
            for tok, ty in H.tokens.items():
                if self.fresh(f, tok):
                    continue
                self.acq[bid].setdefault(lock_class(ty), f.loc(tok[0]))
            for c in f.callsites:
                if c.nid in f.reach:
                    ts = self.targets(bid, f, c)
                    if ts:
                        self.calls[bid].append((ts, c))
        self.trans = {b: dict(self.acq[b]) for b in self.f}
        ch = True
        while ch:
            ch = False
            for b in self.f:
                for ts, c in self.calls[b]:
                    for t in ts:
                        for k, w in self.trans.get(t, {}).items():
                            if k not in self.trans[b]:
                                self.trans[b][k] = w
                                ch = True

    def fresh(self, f, tok):
        """the lock was made here and nobody else can hold it"""
        o = plain(self.lock_of(f, tok))
        if not o or not all(t[0] == "agg" for t in o):
            return False
        n = f.nodes[tok[0]]
        ty = f.nodes[tok[0]]
        return guard_of(held(f).tokens[tok]) is not None and type_head(guard_of(held(f).tokens[tok])) not in FILELOCKS

    def lock_of(self, f, tok):
        try:
            return held(f).lock_of(tok)
        except Exception:
            return set()

    def targets(self, bid, f, c):
        p = self.p
        out = set()
        if c.target in self.f:
            out.add(c.target)
        elif c.fn is not None and c.trait and (c.target is None or c.target == c.path):
            # any implementation, except the caller's own when what is called is something generic it wraps
            me = p.bodies[bid].impl_self
            for i in p.trait_impls.get(c.path, ()):
                if i in self.f and not (me and p.bodies[i].impl_self and type_head(me) == type_head(p.bodies[i].impl_self)):
                    out.add(i)
        if c.trait and c.name in ("call", "call_mut", "call_once") and c.args:
            # what the callers of this function pass
            for t in f.origins(c.args[0]):
                if t[0] == "param":
                    for x in self.callers.get(bid, []):
                        out |= self.inside(x)
        return out

    def inside(self, cid):
        """functions called in a closure"""
        if not hasattr(self, "_inside"):
            self._inside = {}
        if cid not in self._inside:
            b = self.p.bodies[cid]
            g = flat(self.p, b, inline=never, depth=1)
            if cid not in self.f:
                self.f_closure = getattr(self, "f_closure", {})
                self.f_closure[cid] = g
            self._inside[cid] = {c.target for c in g.callsites if c.target in self.f}
        return self._inside[cid]


def fs_free(c, *names):
    return flow.is_fs(c, *names) and "OpenOptions" not in c.path


def strip_head(t):
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
    return type_head(t)


def p15(R, prog):
    R.rule("blocking", "no guard of a blocking lock is held across a suspension point")
    R.rule("order", "locks are acquired in one order everywhere: while a lock is held, directly or through what is called, neither the same lock nor one under which it is acquired elsewhere is acquired")
    R.rule("decide", "a change to a map behind a lock that depends on what the map was seen to hold is made under the lock under which that was seen")
    R.rule("locked", "opening a locked file gives it only once the lock has been obtained: the exclusive one for writing, a shared or exclusive one for reading")
    R.rule("waiting", "waiting for a file lock asks for the same kind of lock, and gives the file only when the lock was obtained")
    R.rule("release", "a locked file is unlocked when it is dropped, and no other handle of it outlives it")
    R.rule("readers", "labels and rollups that can be rewritten at the same time are read under the lock of their file")
    R.rule("writers", "whoever rewrites a label or attaches a rollup holds the exclusive lock from before the first read to after the last write")
    L = Locks(R, prog)
    for b in sorted(L.f):
        if L.H[b].tokens:
            R.saw(L.f[b])
    blocking(R, prog, L)
    order(R, prog, L)
    decide(R, prog, L)
    files(R, prog, L)
    users(R, prog)
    R.floor("blocking", 12)
    R.floor("order", 20)
    R.floor("decide", 6)
    R.floor("locked", 5)
    R.floor("waiting", 3)
    R.floor("release", 2)
    R.floor("readers", 2)
    R.floor("writers", 2)


def blocking(R, prog, L):
    for bid, f in sorted(L.f.items()):
        H = L.H[bid]
        std = {t: ty for t, ty in H.tokens.items() if is_std(ty)}
        if not std:
            continue
        aw = [x for x in f.reach if f.nodes[x].kind == "await" or f.nodes[x].kind == "enter" and f.nodes[x].term and f.nodes[x].term[0] == "await"]
        drive = [c.nid for c in f.callsites if c.nid in f.reach and c.name in ("block_on", "block_in_place", "oneshot", "blocking_lock", "blocking_read", "blocking_write", "blocking_recv")]
        for tok, ty in sorted(std.items(), key=lambda x: x[0][0]):
            bad = [x for x in aw + drive if tok in H.at(x, False)]
            R.ob("blocking", "%s/%s" % (short(prog.bodies[bid]), lock_class(ty)), not bad, "`%s` %s with the lock on `%s` held" % (short(prog.bodies[bid]), "suspends" if bad else "never suspends", lock_class(ty)), f.loc(bad[0] if bad else tok[0]))


def order(R, prog, L):
    edges = defaultdict(list)     # (held, taken) -> [(body, where held, where taken)]
    for bid, f in sorted(L.f.items()):
        H = L.H[bid]
        if not H.tokens:
            continue
        for tok, ty in H.tokens.items():
            if L.fresh(f, tok):
                continue
            for h in H.at(tok[0], False):
                if h != tok and h[0] != tok[0] and not absent(f, h, tok[0]):
                    edges[(lock_class(H.tokens[h]), lock_class(ty))].append((bid, f.loc(h[0]), f.loc(tok[0])))
        for ts, c in L.calls[bid]:
            if any(t[0] == c.nid for t in H.tokens):
                continue        # the acquisition itself
            for x in flow.exec_nodes(f, c):
                hs = H.at(x, False)
                for h in hs:
                    if h[0] == x or h[0] in flow.exec_nodes(f, c) or absent(f, h, c.nid):
                        continue
                    for t in ts:
                        for k, w in L.trans.get(t, {}).items():
                            edges[(lock_class(H.tokens[h]), k)].append((bid, f.loc(h[0]), "%s, through %s at %s" % (w, c.name, f.loc(c.nid))))
    nodes = {k for b in L.f for k in L.acq[b]}
    succ = defaultdict(set)
    for a, b in edges:
        succ[a].add(b)

    def reach(a):
        seen, work = set(), [a]
        while work:
            for y in succ[work.pop()]:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen
    for b in sorted(L.f):
        for k, w in sorted(L.acq[b].items()):
            es = [(e, v) for e, v in edges.items() if e[1] == k and any(x[0] == b for x in v)]
            bad = [(e, v) for e, v in es if e[0] == k or e[0] in reach(k)]
            R.ob("order", "%s/%s" % (short(prog.bodies[b]), k), not bad, "`%s` acquires the lock on `%s`%s" % (short(prog.bodies[b]), k, " while one is held that is acquired under it: %s" % "; ".join(x[1] for e, v in bad for x in v[:1]) if bad else ""), w)
    for (a, k), v in sorted(edges.items()):
        bad = a == k or a in reach(k)
        for bid, wh, wt in v[:1]:
            R.ob("order", "%s->%s" % (a, k), not bad, "the lock on `%s` is acquired under the one on `%s`%s (`%s`: held since %s, taken at %s)" % (k, a, ", and the other way round elsewhere" if bad and a != k else ", which is the same" if bad else "", short(prog.bodies[bid]), wh, wt), wt)


def absent(f, h, x):
    """at x it is known that the acquisition gave no lock (None, or an error)"""
    for a in conds(f).facts(x):
        if a[0] == "variant" and a[3] and set(a[2]) <= {"None", "Err"} and a[1][0] == "call":
            c = f.callof(a[1])
            if c is not None and (c.nid == h[0] or h[0] in flow.exec_nodes(f, c)):
                return True
    return False


# ---- check and act -----------------------------------------------------------

def guarded_map(f, H, c):
    """lock tokens through which this map call goes, if its map is behind a lock"""
    if not c.args or c.args[0][0] != "p":
        return None
    h = strip_head(f.vtype[c.args[0][1]])
    if h not in ("HashMap", "BTreeMap", "HashSet", "Vec", "BTreeSet"):
        return None
    ty = f.vtype[c.args[0][1]]
    out = set()
    for tok in H.at(c.nid):
        k = lock_class(H.tokens[tok])
        if type_head(k) in ("HashMap", "BTreeMap", "HashSet", "BTreeSet") and (k in ty or inner_of(ty, k)):
            out.add(tok)
    return out or None


def same_map(f, c, d):
    def ty(c):
        t = f.vtype[c.args[0][1]]
        m = re.search(r"(HashMap|BTreeMap|HashSet|BTreeSet|Vec)<", t)
        return t[m.start():].replace(" ", "") if m else t
    return ty(c) == ty(d)


def inner_of(ty, k):
    t = ty
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("mut "):
            t = t[4:]
        if t.startswith("'"):
            t = t.split(" ", 1)[1]
    return t in k


def decide(R, prog, L):
    """every map write is decided under the guard that is held for it"""
    for bid, f0 in sorted(L.f.items()):
        b = prog.bodies[bid]
        H0 = L.H[bid]
        ks = {lock_class(ty) for ty in H0.tokens.values() if type_head(lock_class(ty)) in ("HashMap", "BTreeMap", "HashSet", "BTreeSet")}
        if not ks:
            continue
        f = flat(prog, b, R=R)
        H = held(f)
        C = conds(f)
        reads = {}
        for c in f.callsites:
            if c.nid in f.reach and not c.inlined and c.name in ASKS:
                g = guarded_map(f, H, c)
                if g:
                    reads[c.nid] = (c, g)
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined or c.name not in WRITES:
                continue
            g = guarded_map(f, H, c)
            if not g:
                continue
            k = lock_class(H.tokens[next(iter(g))])
            shared = [t for t in g if "Read" in (type_head(guard_of(H.tokens[t])) or "")]
            R.ob("decide", "%s/%s-exclusive" % (short(b), c.name), not shared, "`%s` changes the map under %s" % (short(b), "a shared lock" if shared else "its exclusive lock"), f.loc(c.nid))
            stale, again = set(), set()
            for a in C.facts(c.nid):
                for t in seen_in(f, atom_terms(a), reads):
                    if t[0] == "call" and t[1] in reads and same_map(f, reads[t[1]][0], c):
                        gg = {x for x in reads[t[1]][1]}
                        if gg & g:
                            again.add(t[1])
                        elif {lock_class(H.tokens[x]) for x in gg} & {lock_class(H.tokens[x]) for x in g}:
                            stale.add(t[1])
            # the map's own answer under the lock, on the way to the write
            near = [n for n in reads if reads[n][1] & g and n != c.nid and same_map(f, reads[n][0], c) and f.always_before(c.nid, {n})]
            # a removal that repeats no decision just takes out what was there: it depends on what was seen only if something was
            bad = stale and not again and not (near and any(n != c.nid for n in near))
            R.ob("decide", "%s/%s" % (short(b), c.name), not bad, "`%s` calls %s on the map%s" % (short(b), c.name, " because of what it saw under a lock it has released (%s)" % ", ".join(f.loc(n) for n in sorted(stale)) if bad else ""), f.loc(c.nid))


def seen_in(f, ts, reads):
    """the calls an observation was made from"""
    out, work = set(), list(ts)
    while work:
        t = work.pop()
        if t in out:
            continue
        out.add(t)
        c = f.callof(t) if t[0] == "call" else None
        if c is not None and c.nid not in reads:
            for a in c.args:
                work += [x for x in f.leaves(a, depth=8) if x[0] == "call"]
    return out


def atom_terms(a):
    out = []
    for x in a[1:]:
        if isinstance(x, tuple) and x and x[0] in ("call", "param", "agg", "expr", "mut"):
            out.append(x)
    return out


# ---- file locks ------------------------------------------------------------------

TRY = {"try_lock_exclusive": "x", "try_lock_shared": "s", "lock_exclusive": "x", "lock_shared": "s", "try_lock": "x", "lock": "x"}


def files(R, prog, L):
    fut = None
    adt = {}
    for a in prog.adts.values():
        adt.setdefault(a["id"].split("::")[-1], a)
    # opening
    for S in FILELOCKS:
        if S not in adt:
            raise Missing(S)
        makers = [b for b in prog.bodies.values() if b.impl_self and type_head(b.impl_self) == S and not b.impl_trait and b.kind == "AssocFn"
                  and S in (b.ret or "") or b.impl_self and type_head(b.impl_self) == S and not b.impl_trait and b.name in ("open", "create_and_open", "try_open")]
        if not makers:
            raise Missing("%s constructors" % S)
        others = {b.id for b in makers}
        for b in sorted(makers, key=lambda b: b.id):
            f = flat(prog, b, opaque=others, R=R)
            opening(R, prog, S, b, f, others)
    # nobody makes one elsewhere
    for bid, f in sorted(L.f.items()):
        b = prog.bodies[bid]
        for x in sorted(f.reach):
            for d, rv, line in f.nodes[x].stmts:
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in FILELOCKS:
                    S = rv[1][1].split("::")[-1]
                    own = bool(b.impl_self) and type_head(b.impl_self) == S
                    R.ob("locked", "made/%s" % short(b), own, "`%s` makes a %s%s" % (short(b), S, "" if own else ", which only its own constructors may do"), f.loc(x))
    waiting(R, prog)
    release(R, prog)


def loc(b):
    return "%s:%s" % (b.file, b.line)


def opening(R, prog, S, b, f, others):
    """the lock object is made only where the lock was obtained on its file"""
    C = conds(f)
    want = {"x"} if S == "ExclusiveLockedFile" else {"s", "x"}
    made = []
    for x in sorted(f.reach):
        for i, (d, rv, line) in enumerate(f.nodes[x].stmts):
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] == S:
                made.append((x, i, rv))
    # the calls that obtain it
    for x, i, rv in made:
        locks = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in TRY]
        waits = waits_in(f)
        ok_edges = set()

        def obtained(a):
            if a[0] == "variant" and a[3] and a[1][0] in ("call",) and not a[1][2] and tuple(a[2]) == ("Ok",):
                c = f.callof(a[1])
                return c is not None and c.name in TRY and TRY[c.name] in want
            if a[0] == "bool" and a[2] is True and a[1][0] == "call":
                c = f.callof(a[1])
                c2 = [f.callof(t) for t in f.origins(c.args[0]) if t[0] == "call"] if c is not None and c.name == "is_ok" else []
                return bool(c2) and all(y.name in TRY and TRY[y.name] in want for y in c2)
            if a[0] == "bool" and a[2] is False and a[1][0] == "call":
                c = f.callof(a[1])
                c2 = [f.callof(t) for t in f.origins(c.args[0]) if t[0] == "call"] if c is not None and c.name == "is_err" else []
                return bool(c2) and all(y.name in TRY and TRY[y.name] in want for y in c2)
            return False
        es = flow.edges_where(f, obtained, 4)
        # a wait that ended well
        good = set()
        for n, kind in waits:
            if kind in want:
                good.add(n)
        direct = {c.nid for c in locks if TRY[c.name] in want}

        def cut(a, l, bb):
            return (a, l) in es or bb in good
        got = flow.explore(f, list(flow.start_states(f)), cut)
        bad = x in got
        # paths through a wait must not continue after its failure
        for n, kind in waits:
            if kind in want:
                w = f.nodes[n]
                fails = [s for s in fail_after(f, n)]
                if x in flow.explore(f, fails, cut):
                    bad = True
        R.ob("locked", "%s/obtained" % short(b), not bad, "`%s` makes a %s %s" % (short(b), S, "without having obtained the lock" if bad else "only after it has obtained the lock"), f.loc(x))
        # on the file itself
        fo = set()
        for o in rv[2]:
            fo |= set(f.leaves(o, depth=12))
        opens = file_of(f, fo)
        lo = set()
        for c in locks:
            lo |= file_of(f, f.leaves(c.args[0], depth=12))
        R.ob("locked", "%s/same" % short(b), len(opens) == 1 and (not locks or lo == opens), "`%s` locks the file it gives" % short(b), f.loc(x))
    if not made:
        ret = plain(f.res(f.retvar, ("!",)))
        callees = [f.callof(t) for t in f.leaves(("p", f.retvar, (), False), depth=8) if t[0] == "call"]
        via = [c for c in callees if c is not None and c.target in others]
        R.ob("locked", "%s/passes" % short(b), bool(via), "`%s` gives what another constructor of %s gave" % (short(b), S), f.loc(0))


def file_of(f, ts):
    """which opened file, or which one that was passed in"""
    opens = {t[1] for t in ts if t[0] == "call" and flow.is_open_call(f.callof(t))}
    return opens or {t for t in ts if t[0] == "param"}


def fail_after(f, n):
    """states after the await at n has given an error"""
    nd = f.nodes[n]
    d = f.pl(nd.ctx, nd.term[2])
    return flow.assume(f, n, d, [((), "Ready"), (("!",), "Err")])


def waits_in(f):
    """[(await node, kind of lock)]: where a lock is waited for"""
    out = []
    for x in sorted(f.reach):
        n = f.nodes[x]
        if n.kind != "await":
            continue
        for t in f.origins(f.opnd(n.ctx, n.term[1])):
            k = future_kind(f, t)
            if k:
                out.append((x, k))
    return out


def future_kind(f, t):
    """the kind of lock a lock future will obtain"""
    if t[0] == "agg":
        rv = f.stmt(t)
        if rv[1][0] == "adt" and rv[1][1].split("::")[-1] == "LockedFileLockFuture":
            return agg_kind(f, rv)
    if t[0] == "call":
        c = f.callof(t)
        if c is not None and c.name in ("spawn_blocking",):
            return None
    return None


def agg_kind(f, rv):
    for o, nm in zip(rv[2], rv[3] if len(rv) > 3 and rv[3] else []):
        if f_is_bool(f, o):
            ts = plain(f.origins(o))
            if ts and all(t[0] == "const" for t in ts):
                vs = {t[2] for t in ts}
                if vs == {1} or vs == {True}:
                    return "x"
                if vs == {0} or vs == {False}:
                    return "s"
    return None


def f_is_bool(f, o):
    return o[0] == "p" and f.vtype[o[1]] == "bool" and not o[2] or o[0] == "k" and "bool" in str(o)


def waiting(R, prog):
    b = prog.impl_fn("LockedFileLockFuture", "Future", "poll")
    f = flat(prog, b, R=R)
    C = conds(f)
    blk = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("lock_exclusive", "lock_shared", "lock")]
    R.ob("waiting", "locks", {TRY[c.name] for c in blk} == {"s", "x"}, "waiting obtains a shared or an exclusive lock", f.loc(0))
    for c in blk:
        k = TRY[c.name]
        fx = C.facts(c.nid)
        told = [a[2] for a in fx if a[0] == "bool" and a[1][0] == "param" and a[1][2][-1:] == ("exclusive",) or a[0] == "bool" and a[1][0] == "param" and a[1][1] == 1]
        ok = told and all(v is (k == "x") for v in told)
        R.ob("waiting", "kind/%s" % c.name, bool(ok), "%s is called when %s lock was asked for" % (c.name, "an exclusive" if k == "x" else "a shared"), f.loc(c.nid))
        src = [t for t in f.leaves(c.args[0], depth=10) if t[0] in ("param", "call")]
        R.ob("waiting", "file/%s" % c.name, bool(src) and all(t[0] == "param" and t[1] == 1 or t[0] == "call" and f.callof(t).name in ("try_clone", "take", "as_ref", "unwrap", "deref", "as_mut", "get_mut") for t in src), "the lock is obtained on the future's own file", f.loc(c.nid))
    # ready with the file only when the lock call succeeded
    spawn = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "poll"]
    R.ob("waiting", "polls", bool(spawn), "the future waits for the blocking call", f.loc(0))
    for c in spawn:
        for facts, what in (([((), "Ready"), (("!",), "Err")], "the blocking call did not finish"), ([((), "Ready"), (("!",), "Ok"), (("!", "!"), "Err")], "the lock was not obtained")):
            got = flow.explore(f, flow.result_starts(f, c, facts))
            vs = set()
            for st in got.get(f.exit, ()):
                d = dict(st)
                vs.add((d.get((f.retvar, ())), d.get((f.retvar, ("!",)))))
            bad = [v for v in vs if v[0] == "Ready" and v[1] != "Err"]
            bad = [v for v in bad if not maps_error(f)] if what.startswith("the lock") else bad
            R.ob("waiting", "failed/%s" % what.split()[1], not bad, "when %s, the future gives an error" % what, f.loc(c.nid))
        got = flow.explore(f, flow.result_starts(f, c, [((), "Pending")]))
        vs = {dict(st).get((f.retvar, ())) for st in got.get(f.exit, ())}
        R.ob("waiting", "pending", vs == {"Pending"}, "while the lock is not obtained, the future is pending", f.loc(c.nid))


def maps_error(f):
    """the result is the lock call's result with its success mapped"""
    ts = plain(f.res(f.retvar, ("!",)))
    for t in ts:
        if t[0] == "call":
            c = f.callof(t)
            if c is not None and c.name == "map" and "Result" in c.path:
                return True
    return False


def release(R, prog):
    for S in FILELOCKS:
        b = prog.impl_fn(S, "Drop", "drop")
        f = flat(prog, b, R=R)
        un = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "unlock"]
        ok = bool(un) and all(all(t[0] in ("param", "call", "agg", "const") for t in f.leaves(c.args[0], depth=10)) and any(t[0] == "param" and t[1] == 1 for t in f.leaves(c.args[0], depth=10)) for c in un)
        R.ob("release", "%s/unlock" % S, ok, "dropping a %s unlocks its file" % S, f.loc(0))
        clones = []
        for o in prog.bodies.values():
            if o.impl_self and type_head(o.impl_self) == S and o.blocks:
                g = flat(prog, o, inline=never, depth=1)
                clones += [g.loc(c.nid) for c in g.callsites if c.nid in g.reach and c.name in ("try_clone", "into_raw_fd", "as_raw_fd", "forget", "dup", "leak")]
        R.ob("release", "%s/handles" % S, not clones, "no other handle of a %s's file is made%s" % (S, " but at %s" % clones[0] if clones else ""), clones[0] if clones else loc(b))


# ---- readers and writers ---------------------------------------------------------------

READOPS = {"read_to_end", "read_to_string", "read_exact", "read", "read_u64", "read_u32", "read_line", "lines", "read_buf"}
WRITEOPS = {"write_all", "write", "set_len", "truncate", "write_buf", "write_u64"}


def users(R, prog):
    # labels of a shared directory
    for nm in ("get_label", "labels"):
        b = prog.impl_fn("DirectoryLabelStore", "LabelStore", nm)
        f = flat(prog, b, opaque=set(), R=R)
        rd = reading(f)
        R.ob("readers", "%s/reads" % short(b), bool(rd), "`%s` reads label files" % short(b), f.loc(0))
        for c, ty in rd:
            R.ob("readers", "%s/%s" % (short(b), c.name), ty in FILELOCKS, "`%s` reads a label from a %s" % (short(b), ty), f.loc(c.nid))
    b = prog.impl_fn("DirectoryLabelStore", "LabelStore", "set_label_option")
    f = flat(prog, b, R=R)
    H = held(f)
    acts = [(c, ty) for c, ty in reading(f)] + [(c, strip_head(f.vtype[c.args[0][1]])) for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in WRITEOPS and c.args and c.args[0][0] == "p" and "OpenOptions" not in c.path]
    ext = [c for c in f.callsites if c.nid in f.reach and not c.inlined and fs_free(c, "rename", "write", "remove_file", "copy")]
    toks = None
    for c, ty in acts + [(c, "") for c in ext]:
        for x in flow.exec_nodes(f, c) or [c.nid]:
            hs = {t for t in H.at(x) if type_head(guard_of(H.tokens[t])) == "ExclusiveLockedFile"}
            # the locked file may itself be what is used
            R.ob("writers", "%s/%s" % (short(b), c.name), bool(hs) , "`%s` calls %s %s the label's exclusive lock" % (short(b), c.name, "under" if hs else "without"), f.loc(c.nid))
            toks = hs if toks is None else toks & hs
    R.ob("writers", "%s/one" % short(b), bool(toks), "`%s` holds one lock from its first read to its last write" % short(b), f.loc(0))
    ext = {}
    for nm, want in (("get_rollup", FILELOCKS), ("set_rollup", ("ExclusiveLockedFile",))):
        b = prog.impl_fn("DirectoryArchiveBackend", "ArchiveMetadataBackend", nm)
        f = flat(prog, b, R=R)
        H = held(f)
        rule = "readers" if nm == "get_rollup" else "writers"
        acts = [c for c in f.callsites if c.nid in f.reach and not c.inlined and (fs_free(c, "read_to_string", "read", "rename", "write", "copy", "remove_file", "hard_link") or c.name in READOPS | WRITEOPS and c.args and c.args[0][0] == "p" and strip_head(f.vtype[c.args[0][1]]) in ("File", "BufReader", "BufWriter") + FILELOCKS)]
        R.ob(rule, "%s/acts" % short(b), bool(acts), "`%s` uses the rollup's file" % short(b), f.loc(0))
        toks = None
        for c in acts:
            for x in flow.exec_nodes(f, c) or [c.nid]:
                hs = {t for t in H.at(x) if type_head(guard_of(H.tokens[t])) in want}
                toks = hs if toks is None else toks & hs
                R.ob(rule, "%s/%s" % (short(b), c.name), bool(hs), "`%s` calls %s %s the layer's %s lock" % (short(b), c.name, "under" if hs else "without", "exclusive" if nm == "set_rollup" else "shared or exclusive"), f.loc(c.nid))
        for t in sorted(toks or ()):
            o = lock_names(f, t)
            ps = {z[1] for z in o if z[0] == "param" and z[1] != 1}
            ext.setdefault(nm, set()).update(str(z[2]) for z in o if z[0] == "const" and isinstance(z[2], str))
            R.ob(rule, "%s/layer" % short(b), ps == {2}, "the lock is that of the layer's own file", f.loc(t[0]))
    R.ob("writers", "the same lock", ext.get("get_rollup") == ext.get("set_rollup"), "looking up a rollup and attaching one lock the same file", loc(b))


def lock_names(f, tok):
    """the parameters and constants that determine which file is locked"""
    n = f.nodes[tok[0]]
    ops = []
    for d, rv, line in n.stmts:
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in FILELOCKS:
            ops += list(rv[2])
    if n.kind == "await":
        ops.append(f.opnd(n.ctx, n.term[1]))
    out, seen = set(), set()
    work = [t for o in ops for t in f.leaves(o, depth=16)]
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] in ("param", "const"):
            out.add(t)
        elif t[0] == "call":
            c = f.callof(t)
            if c is not None:
                for a in c.args:
                    work += list(f.leaves(a, depth=16))
    return out


def reading(f):
    out = []
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.args:
            if c.name in READOPS and c.args[0][0] == "p" and "Async" in (c.trait or "") + c.path:
                out.append((c, strip_head(f.vtype[c.args[0][1]])))
            elif fs_free(c, "read", "read_to_string"):
                out.append((c, "file"))
    return out
