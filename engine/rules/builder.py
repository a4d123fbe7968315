"""P20: what a builder commits is what was put into it."""
from rules.lib import *
from rules.pack import plain, missed, said, terms
from rules.valex import Ev, lin, plus, num, text
import flow

LISTS = ("id_additions", "id_removals")
FIELDS = ("subject", "predicate", "object")
SPACE = {"subject": "nv", "predicate": "p", "object": "nv"}
COUNT = {"node_and_value_count": "nv", "predicate_count": "p"}
MAPOF = {"nodes_values_map": "nv", "predicates_map": "p"}
STDPATH = re.compile(r"^<?&?(mut )?(dyn )?(std|core|alloc|rayon|bitvec|futures|hashbrown)")


def apart(prog, file, extra=()):
    """functions outside the file stay calls"""
    return {b.id for b in prog.bodies.values() if b.kind in ("Fn", "AssocFn") and (b.file != file or b.id in extra)}


def lists(f, op, depth=8):
    """which pending lists an operand (list, iterator, element) comes from"""
    return names_in(f, plain(f.origins(op)), lambda x: x in LISTS, depth)


def names_in(f, ts, want, depth=8):
    out, seen = set(), set()
    work = [(t, depth) for t in ts]
    while work:
        t, d = work.pop(0)
        if t in seen or d < 0:
            continue
        seen.add(t)
        if t[0] == "param":
            out |= {x for x in t[2] if want(x)}
        elif t[0] in ("call", "mut"):
            c = f.callof(t)
            if c is not None and c.args and c.name != "index" or c is not None and c.name == "index":
                for a in c.args[:2 if c.name in ("chain", "zip") else 1]:
                    work += [(x, d - 1) for x in plain(f.origins(a))]
        elif t[0] == "agg":
            rv = f.stmt(t)
            if rv[1][0] in ("tuple", "array"):
                for a in rv[2]:
                    work += [(x, d - 1) for x in plain(f.origins(a))]
    return out


def sub(f, starts, avoid=(), edges=(), inside=None):
    """nodes reachable from the starts without the nodes and edges"""
    avoid = set(avoid)
    seen, work = set(), [n for n in starts if n not in avoid]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for s, lab in f.nodes[n].succ:
            if (n, lab) not in edges and s not in avoid and s in f.reach:
                work.append(s)
    return seen


def succs(f, nid):
    return [s for s, _ in f.nodes[nid].succ]


class Prep:
    """the preparation of the pending changes in a commit"""

    def __init__(self, prog, b):
        self.prog = prog
        self.f = f = flat(prog, b, opaque=apart(prog, b.file))
        f.pushes = True
        self.ev = Ev(f)
        self.C = conds(f)
        self.calls = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
        self.memo = {}

    # -- classification of values ------------------------------------------
    def offset(self, tree):
        """the id space a count of the parent ends"""
        if tree[0] != "call":
            return None
        return COUNT.get(self.f.callof(("call", tree[1], ())).name)

    def ident(self, tree):
        """(what, field) of an id: a field of a pending triple or the id of a map entry"""
        f = self.f
        if tree[0] == "in" and tree[1] == 1 and tree[2]:
            if tree[2][0] in LISTS and tree[2][-1] in FIELDS:
                return (frozenset([tree[2][0]]), tree[2][-1])
            if tree[2][0] in MAPOF and tree[2][-1] == "1":
                return (tree[2][0], "id")
            return None
        if tree[0] != "call" or not tree[2]:
            return None
        ts = {("call", tree[1], tuple(tree[2]))}
        ls = names_in(f, ts, lambda x: x in LISTS)
        if ls and tree[2][-1] in FIELDS:
            return (frozenset(ls), tree[2][-1])
        if self.cell(tree):
            return None
        ms = names_in(f, ts, lambda x: x in MAPOF)
        if len(ms) == 1 and tree[2][-1] == "1":
            return (ms.pop(), "id")
        return None

    def forms(self, pos, neg):
        """[(factor of the id, what, field, space or None for no parent, constant)] of pos - neg, or None"""
        out = []
        for y in self.ev.op(pos, 10):
            for x in (self.ev.op(neg, 10) if neg is not None else [("k", 0)]):
                d, k = plus((1, lin(y)), (-1, lin(x)))
                ids_ = [(self.ident(u), n) for u, n in d if self.ident(u) is not None]
                offs = [(self.offset(u), n) for u, n in d if self.ident(u) is None and self.offset(u) is not None]
                rest = [u for u, n in d if self.ident(u) is None and self.offset(u) is None]
                if rest:
                    if len(rest) == 1 and not ids_ and self.cell(rest[0]):
                        continue  # what was put into a table before
                    return None
                if len(ids_) != 1 or len(offs) > 1 or offs and offs[0][1] != -ids_[0][1] or abs(ids_[0][1]) != 1:
                    return None
                out.append((ids_[0][1], ids_[0][0], offs[0][0] if offs else None, k))
        return out

    def cell(self, tree):
        """an element of a table made here"""
        c = self.f.callof(("call", tree[1], ())) if tree[0] == "call" else None
        if c is not None and c.name == "new" and "IdTriple" in c.path:
            return all({t[0] for t in plain(self.f.origins(a))} == {"const"} for a in c.args)
        return tree[0] == "call" and "[]" in tree[2] and self.f.callof(("call", tree[1], ())).name in ("from_elem", "with_capacity", "repeat", "new", "collect", "resize")

    def merged(self, fs):
        """(factor, lists or map, field, space, constant) when all forms speak of one id and one offset"""
        if not fs:
            return None
        sp = {x[2] for x in fs} - {None}
        fld = {x[1][1] for x in fs}
        if len(sp) != 1 or len(fld) != 1 or len({(x[0], x[3]) for x in fs}) != 1:
            return None
        with_ = {x[1] for x in fs if x[2] is not None}
        if {x[1] for x in fs} != with_:
            return None
        if fld == {"id"}:
            ms = {x[1][0] for x in fs}
            what = ms.pop() if len(ms) == 1 else None
        else:
            what = frozenset().union(*[x[1][0] for x in fs])
        if what is None:
            return None
        return fs[0][0], what, fld.pop(), sp.pop(), fs[0][3]

    def bound(self, a):
        """('out'|'in', what, field, space) when an atom says an id lies beyond or within the parent's ids"""
        if a[0] != "ord":
            return None
        key = ("bound",) + tuple(map(str, a))
        if key not in self.memo:
            self.memo[key] = None
            m = self.merged(self.forms(a[3], a[2]))
            if m is not None:
                k = m[4] - (1 if a[1] == "Lt" else 0)
                # factor * (id - offset) + k >= 0
                if m[0] == 1 and k == -1:
                    self.memo[key] = ("out",) + m[1:4]
                if m[0] == -1 and k == 0:
                    self.memo[key] = ("in",) + m[1:4]
        return self.memo[key]

    def space(self, i):
        return SPACE[i[1]] if i[1] in SPACE else MAPOF[i[0]]

    def edges(self, pred):
        return flow.edges_where(self.f, pred)

    def slot(self, op):
        """((lists or map, field), space) when an operand is the place of an id in a table: id - offset - 1"""
        m = self.merged(self.forms(op, None))
        return ((m[1], m[2]), m[3]) if m is not None and m[0] == 1 and m[4] == -1 else None

    def rel(self, nid):
        """how the addition looked at can compare to the removal looked at"""
        r = {"Less", "Equal", "Greater"}
        for a in self.C.facts(nid):
            r &= self.narrow(a)
        return r

    def narrow(self, a):
        f = self.f
        full = {"Less", "Equal", "Greater"}
        flip = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}

        def side(x, y):
            p, q = lists(f, x), lists(f, y)
            if (p, q) == ({LISTS[0]}, {LISTS[1]}):
                return 1
            if (p, q) == ({LISTS[1]}, {LISTS[0]}):
                return -1
            return 0
        got = None
        s = 0
        if a[0] == "eq":
            s = side(a[1], a[2])
            got = {"Equal"} if a[3] else {"Less", "Greater"}
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                cs = [f.callof(t) if t[0] == "call" else None for t in plain(f.origins(x))]
                vs = {variant_of(f, t) for t in plain(f.origins(y))}
                if len(cs) == 1 and cs[0] is not None and cs[0].name in ("cmp", "partial_cmp") and len(vs) == 1 and vs <= full:
                    s = side(*cs[0].args)
                    got = vs if a[3] else full - vs
        elif a[0] == "bool":
            for t in terms(f, a[1]):
                c = f.callof(t) if t[0] == "call" else None
                if c is not None and len(c.args) == 2 and c.name in ("lt", "le", "gt", "ge", "eq", "ne"):
                    s = side(*c.args)
                    got = {"lt": {"Less"}, "le": {"Less", "Equal"}, "gt": {"Greater"}, "ge": {"Greater", "Equal"}, "eq": {"Equal"}, "ne": {"Less", "Greater"}}[c.name]
                    if not a[2]:
                        got = full - got
        elif a[0] == "variant":
            for t in terms(f, a[1]):
                c = f.callof(t) if t[0] == "call" else None
                if c is not None and len(c.args) == 2 and c.name in ("cmp", "partial_cmp"):
                    s = side(*c.args)
                    got = {n for n in a[2] if n in full} or None
        if not s or got is None:
            return full
        return got if s == 1 else {flip[x] for x in got}


def elem_stores(f, what):
    """(node, dest, operand) of assignments to an element of a pending list"""
    for n in sorted(f.reach):
        for d, rv, line in f.nodes[n].stmts:
            if rv[0] not in ("use", "agg") or not re.match(r"^&mut (\S*::)?IdTriple$", f.vtype[d[0]] or ""):
                continue
            if d[1] == ():
                if rv[0] == "use":
                    o = rv[1]
                    ty = (f.vtype[o[1]] or "") if o[0] == "p" and not o[2] else ""
                    if ty.startswith("&") or not ty.endswith("IdTriple"):
                        continue
                    yield n, d, o
            elif len(d[1]) == 1 and d[1][0] in FIELDS and rv[0] == "use":
                yield n, d, rv[1]


def is_nothing(f, o):
    ts = plain(f.origins(o))
    for t in ts:
        if t[0] == "call":
            c = f.callof(t)
            if c.name != "new" or len(c.args) != 3 or any({x[2] for x in plain(f.origins(a)) if x[0] == "const"} != {0} or len(plain(f.origins(a))) != 1 for a in c.args):
                return False
        elif t[0] == "const":
            if t[2] != 0:
                return False
        elif t[0] == "agg":
            rv = f.stmt(t)
            if any({x[2] if x[0] == "const" else None for x in plain(f.origins(a))} != {0} for a in rv[2]):
                return False
        else:
            return False
    return bool(ts)


def yields(P, ls):
    """calls that take an element of one of the lists"""
    return [c for c in P.calls if c.name in ("next", "next_if", "pop") and STDPATH.match(c.path) and lists(P.f, c.args[0]) & set(ls)]


CUTS = ("skip", "take", "step_by", "take_while", "skip_while", "nth", "nth_back", "truncate", "split_off", "skip_any", "take_any", "last")
SORTS = re.compile(r"^(par_)?sort(_unstable)?(_by_key|_by)?$")


def commit(R, prog):
    b = prog.impl_fn("SimpleLayerBuilder", "LayerBuilder", "commit")
    P = Prep(prog, b)
    f = P.f
    R.saw(f)
    zero, maps, other = [], [], []
    for n, d, o in elem_stores(f, LISTS):
        ls = lists(f, ("p", d[0], ()))
        if not ls:
            continue
        if is_nothing(f, o):
            zero.append((n, d, ls))
        elif d[1]:
            maps.append((n, d, o, ls))
        else:
            R.ob("cancel", "replaced", False, "a pending triple is replaced by something else", f.loc(n))
    zn = {l: {n for n, d, ls in zero if l in ls} for l in LISTS}
    cmps = {c.nid for c in P.calls if c.name in ("lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp") and len(c.args) == 2 and lists(f, c.args[0]) | lists(f, c.args[1]) == set(LISTS)}
    later = {n for n, d, o, ls in maps} | {c.nid for c in P.calls if c.name in ("add_id_triples", "remove_id_triples")}

    # what is dropped
    for n, d, ls in zero:
        eq = P.rel(n) == {"Equal"}
        if ls == {LISTS[0]}:
            R.ob("cancel", "addition", eq, "a pending addition is dropped although the same triple is not pending as a removal", f.loc(n))
        elif ls == {LISTS[1]} and not eq:
            st = [x for t in takes_of(f, d[0]) for x in begin(f, f.nodes[t].call)]
            E = flow.edges_given(f, lambda a: (lambda q: q is not None and q[0] == "out" and LISTS[1] in q[1] and q[3] == SPACE[q[2]])(P.bound(a)), st)
            R.ob("cancel", "removal", bool(st) and not walk(f, st, (), E, {n}), "a pending removal is dropped although it is not pending as an addition and the parent knows all its parts", f.loc(n))
        elif not eq:
            R.ob("cancel", "either", False, "a pending triple is dropped although it is not pending both as an addition and as a removal", f.loc(n))
    # what cancels
    Q = {n for n in f.reach if P.rel(n) == {"Equal"}} if cmps else set()
    pre = {}
    for n in f.reach:
        for s in succs(f, n):
            pre.setdefault(s, []).append(n)
    heads = {q for q in Q if any(x not in Q for x in pre.get(q, []))}
    for q in heads:
        for l in LISTS:
            got = sub(f, [q], avoid=zn[l]) & (cmps | later)
            R.ob("cancel", "both %s" % l, not got, "a triple pending both as an addition and as a removal stays in `%s`" % l, f.loc(q))
    if cmps:
        R.ob("cancel", "decided", bool(heads), "no path tells that an addition and a removal are the same triple", f.loc(min(cmps)))
    # removals of what the parent cannot have are dropped, so that nothing unknown is entered for them
    outzero = [z for z in zero if P.rel(z[0]) != {"Equal"} and LISTS[1] in z[2]]
    if outzero:
        for c in yields(P, [LISTS[1]]):
            if c.nid in Q or lists(f, c.args[0]) != {LISTS[1]} or sub(f, succs(f, c.nid)) & cmps == set() and not sub(f, succs(f, c.nid)) & {z[0] for z in outzero}:
                continue
            starts = some(f, c)
            for x in FIELDS:
                E = P.edges(lambda a: (lambda q: q is not None and q[0] == "in" and q[2] == x and q[3] == SPACE[x])(P.bound(a)))
                got = sub(f, starts, avoid=zn[LISTS[1]], edges=E) & (cmps | {c.nid} | later)
                R.ob("cancel", "unknown %s" % x, not got, "a removal whose %s the parent does not know is kept" % x, f.loc(c.nid))

    # order of the steps
    def of(l, test):
        out = set()
        for c in P.calls:
            if c.args and test(c.name) and l in lists(f, c.args[0]):
                if lists(f, c.args[0]) == {l}:
                    out.add(c.nid)
                else:
                    # a loop over both lists
                    out |= {t for t in (takes_of(f, c.args[0][1], ("next",)) if c.args[0][0] == "p" else ()) if not loop_missed(f, f.nodes[t].call, {c.nid}, set(), {t} | cmps | later)}
        return out
    for c in P.calls:
        if c.name in CUTS and c.args and lists(f, c.args[0]):
            R.ob("cancel", "all", False, "`%s` leaves out pending triples" % c.name, f.loc(c.nid))
    if cmps:
        gone = P.edges(lambda a: a[0] == "variant" and set(a[2]) == {"None"} and any(t[0] == "call" and f.callof(t).name in ("peek", "next", "peek_mut") and lists(f, f.callof(t).args[0]) == {LISTS[1]} for t in terms(f, a[1])))
        R.ob("cancel", "to the end", not sub(f, [f.start], edges=gone) & later or not gone, "the comparison of additions and removals stops before the removals are through", f.loc(min(cmps)))
    for l in LISTS:
        sorts = of(l, SORTS.match)
        ded = of(l, lambda n: n in ("dedup", "dedup_by_key"))
        fin = {c.nid for c in P.calls if c.name in ("add_id_triples", "remove_id_triples") and len(c.args) > 1 and l in lists(f, c.args[1])}
        start = [f.start]
        if cmps:
            R.ob("order", l + ": sorted", bool(sorts) and not sub(f, start, avoid=sorts) & (cmps | ded), "`%s` is compared or deduplicated before it is sorted" % l, f.loc(min(cmps)))
            R.ob("order", l + ": each once", bool(ded) and not sub(f, start, avoid=ded) & cmps, "`%s` is compared before duplicates are removed" % l, f.loc(min(cmps)))
        for n, d, o, ls in maps:
            if l in ls:
                R.ob("order", l + ": sorted again", bool(fin) and not sub(f, succs(f, n), avoid=sorts) & fin, "`%s` is written without being sorted after its ids were translated" % l, f.loc(n))
    translate(R, P, maps)
    dictionaries(R, P)
    handover(R, P)


def some(f, c):
    """nodes right after a call gave an element"""
    st = flow.result_starts(f, c, [((), "Some")])
    out = set()
    for n, s in st:
        for x, lab, s2 in f._step(n, s):
            out.add((x))
    # leave out the branch for None
    got = flow.explore(f, st, lambda n, l, x: False, 50) if False else None
    return out or set(succs(f, c.nid))


def some_states(f, c):
    return flow.result_starts(f, c, [((), "Some")])


def loop_missed(f, c, nodes, edges, goals):
    """goals reached from an element of the iteration without the nodes and edges"""
    hit = set()
    nodes, goals = set(nodes), set(goals)

    def cut(n, l, x):
        if x in nodes or (n, l) in edges:
            return True
        if x in goals:
            hit.add(x)
            return True
        return False
    flow.explore(f, [x for x in some_states(f, c) if x[0] not in nodes], cut, 600)
    return hit


def translate(R, P, maps):
    """temporary ids become final ids"""
    f = P.f
    covered = set()
    for n, d, o, ls in maps:
        x = d[1][0]
        ok = False
        for y in takes_of(f, o[1], READS) if o[0] == "p" else ():
            s = P.slot(f.nodes[y].call.args[1])
            ok = s is not None and s[0][1] == x and s[1] == SPACE[x]
            if not ok:
                break
        R.ob("translate", x, ok, "the %s of a pending triple is not replaced by the table entry of that %s (id - parent's count - 1)" % (x, x), f.loc(n))
        covered |= {(l, x) for l in ls}
        facts = [P.bound(a) for a in P.C.facts(n)]
        R.ob("translate", x + ": own ids only", any(q is not None and q[0] == "out" and q[2] == x and q[3] == SPACE[x] for q in facts), "the %s of a pending triple is translated although it may be an id of the parent" % x, f.loc(n))
    if not maps:
        return
    for l in LISTS:
        for x in FIELDS:
            R.ob("translate", "%s: %s" % (l, x), (l, x) in covered, "the %s of `%s` is never translated to its final id" % (x, l), "%s:%d" % (f.entry.file, f.entry.line))
    fin = {c.nid for c in P.calls if c.name in ("add_id_triples", "remove_id_triples", "from_files")}
    for x in FIELDS:
        ns = {n for n, d, o, ls in maps if d[1][0] == x}
        E = P.edges(lambda a: (lambda q: q is not None and q[0] == "in" and q[2] == x and q[3] == SPACE[x])(P.bound(a)))
        for c in yields(P, LISTS):
            if not any(c.nid in takes_of(f, d[0]) for n, d, o, ls in maps if d[1][0] == x):
                continue
            got = loop_missed(f, c, ns, E, fin | {c.nid})
            R.ob("translate", x + ": every", not got, "a path leaves the new %s of a pending triple untranslated" % x, f.loc(c.nid))


READS = ("index", "get", "get_unchecked", "index_mut")
TAKES = ("next", "peek", "next_if", "next_if_eq", "peek_mut", "index_mut", "get_mut", "pop")


def begin(f, c):
    """states right after an element was taken"""
    return flow.result_starts(f, c, [((), "Some")] if c.name not in ("index_mut", "index") else [])


def takes_of(f, vid, names=TAKES):
    """nodes at which the element a local holds was taken from its collection"""
    if not hasattr(f, "_into"):
        f._into = {}
        for n in sorted(f.reach):
            for d, rv, line in f.nodes[n].stmts:
                if not d[1]:
                    f._into.setdefault(d[0], []).append((n, rv))
            c = f.nodes[n].call
            if c is not None and c.dest and not c.dest[1]:
                f._into.setdefault(c.dest[0], []).append((n, c))
    out, seen, work = set(), set(), [vid]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for n, x in f._into.get(v, ()):
            if isinstance(x, tuple):
                if x[0] == "use" and x[1][0] == "p":
                    work.append(x[1][1])
                elif x[0] == "ref":
                    work.append(x[2][0])
            elif x.name in names:
                out.add(n)
            elif x.args and x.name in ("unwrap", "expect", "branch", "as_mut", "as_deref_mut", "deref_mut") and x.args[0][0] == "p":
                work.append(x.args[0][1])
    return out


def dictionaries(R, P):
    f = P.f
    # which new ids are in use
    sets = [c for c in P.calls if c.name == "set" and len(c.args) == 3 and P.slot(c.args[1])]
    bad = [c for c in P.calls if c.name == "set" and len(c.args) == 3 and not P.slot(c.args[1]) and "bitvec" in (c.path + (c.self_ty or ""))]
    for c in bad:
        R.ob("used", "place", False, "an id is marked as used at another place than its own (id - parent's count - 1)", f.loc(c.nid))
    covered = set()
    for c in sets:
        for i, sp in [P.slot(c.args[1])]:
            R.ob("used", "%s" % i[1], i[1] in FIELDS and sp == SPACE[i[1]], "a %s is marked as used with the offset of the other id space" % i[1], f.loc(c.nid))
            if i[1] in FIELDS:
                covered |= {(l, i[1]) for l in i[0]}
        v = {t[2] for t in plain(f.origins(c.args[2])) if t[0] == "const"}
        R.ob("used", "marked", v in ({True}, {1}), "an id in use is marked as unused", f.loc(c.nid))
    if sets:
        for l in LISTS:
            for x in FIELDS:
                R.ob("used", "%s: %s" % (l, x), (l, x) in covered, "the %s of `%s` is not counted as a use of its dictionary entry" % (x, l), "%s:%d" % (f.entry.file, f.entry.line))
        for x in FIELDS:
            ns = {c.nid for c in sets if P.slot(c.args[1])[0][1] == x}
            E = P.edges(lambda a: (lambda q: q is not None and q[0] == "in" and q[2] == x and q[3] == SPACE[x])(P.bound(a)))
            src = {t for c in sets if c.nid in ns for t in from_takes(f, c.args[1])}
            for c in yields(P, LISTS):
                if c.nid in src:
                    got = loop_missed(f, c, ns, E, {c.nid} | {y.nid for y in P.calls if y.name in ("from_files", "push")})
                    R.ob("used", x + ": every", not got, "a path leaves the new %s of a pending triple unmarked" % x, f.loc(c.nid))
    # collecting the entries
    pushes = [c for c in P.calls if c.name == "push" and len(c.args) == 2 and entry_map(P, c)]
    kinds = {}
    for m in MAPOF:
        ps = {c.nid for c in pushes if entry_map(P, c) == m}
        if not ps:
            continue

        def skip(a):
            q = P.bound(a)
            if q is not None and q[0] == "in" and q[2] == "id" and q[1] == m and q[3] == MAPOF[m]:
                return True
            return False
        E = P.edges(skip)
        for x in f.reach:
            n = f.nodes[x]
            o = f.opnd(n.ctx, n.term[1]) if n.kind == "switch" else ("k",)
            if o[0] == "p":
                rd, neg = read_bit(f, o)
                if rd and all(P.slot(f.nodes[y].call.args[1]) == ((m, "id"), MAPOF[m]) for y in rd):
                    E |= {(x, l) for s, l in n.succ if (l == "0") != neg}
        for c in P.calls:
            if c.name == "next" and names_in(f, plain(f.origins(c.args[0])), lambda x: x in MAPOF) == {m}:
                got = loop_missed(f, c, ps, E, {c.nid} | {y.nid for y in P.calls if y.name == "from_files"})
                R.ob("collect", m, not got, "a new entry of `%s` that is in use is left out of the dictionary" % m, f.loc(c.nid))
        for c in pushes:
            if c.nid in ps:
                R.ob("collect", m + ": own only", any(q is not None and q[0] == "out" and q[2] == "id" and q[3] == MAPOF[m] for q in map(P.bound, P.C.facts(c.nid))),
                     "an entry the parent already has is put into the dictionary", f.loc(c.nid))
        for c in pushes:
            if c.nid in ps:
                for t in plain(f.origins(c.args[0])):
                    vs = {v for a in P.C.facts(c.nid) if a[0] == "variant" for v in a[2]} & {"Node", "Value"}
                    kinds.setdefault(t, set()).add("predicates" if m == "predicates_map" else "nodes" if vs == {"Node"} else "values" if vs == {"Value"} else "?")
    P.kinds = kinds
    # the tables of final ids
    for n in sorted(f.reach):
        for d, rv, line in f.nodes[n].stmts:
            if rv[0] != "use" or d[1] or not re.match(r"^&mut u(64|size)$", f.vtype[d[0]] or ""):
                continue
            o = rv[1]
            if ((f.vtype[o[1]] or "") if o[0] == "p" and not o[2] else "").startswith("&"):
                continue
            for y in takes_of(f, d[0], ("index_mut", "get_mut")):
                table(R, P, n, f.nodes[y].call, o, kinds)
    for c in P.calls:
        if c.name == "enumerate":
            for t in vecs(P, c.args[0]):
                if t in kinds:
                    so = {x.nid for x in P.calls if x.args and SORTS.match(x.name) and plain(f.origins(x.args[0])) == {t}}
                    R.ob("final", "sorted", bool(so) and not sub(f, [f.start], avoid=so) & {c.nid}, "final ids are given out before the dictionary is in order", f.loc(c.nid))


def read_bit(f, op):
    """(calls that read the table entry a truth value is, negated)"""
    neg = False
    takes_of(f, 0)
    for _ in range(6):
        rd = takes_of(f, op[1], READS)
        if rd:
            return rd, neg
        nx = [x for n, x in f._into.get(op[1], ()) if isinstance(x, tuple)]
        if len(nx) == 1 and nx[0][0] == "un" and nx[0][1] == "Not" and nx[0][2][0] == "p":
            op, neg = nx[0][2], not neg
        elif len(nx) == 1 and nx[0][0] == "use" and nx[0][1][0] == "p":
            op = nx[0][1]
        else:
            break
    return set(), neg


def from_takes(f, op, depth=8):
    """where the element was taken that an index is computed from"""
    out = set()
    takes_of(f, 0)
    seen, work = set(), [op]
    while work:
        o = work.pop()
        if o[0] != "p" or o[1] in seen:
            continue
        seen.add(o[1])
        out |= takes_of(f, o[1])
        for n, x in f._into.get(o[1], ()):
            if isinstance(x, tuple):
                if x[0] in ("use", "bin"):
                    work += [y for y in x[1:] if isinstance(y, tuple) and y and y[0] == "p"]
                elif x[0] == "ref":
                    work.append(("p", x[2][0], ()))
    return out


def entry_map(P, c):
    """the map whose entry a push carries"""
    f = P.f
    ms = set()
    for t in plain(f.origins(c.args[1])):
        if t[0] == "agg":
            rv = f.stmt(t)
            if rv[1][0] == "tuple" and len(rv[2]) == 2:
                for x in P.ev.op(rv[2][1], 6):
                    i = P.ident(x)
                    if i is not None and i[1] == "id":
                        ms.add(i[0])
        elif t[0] in ("call", "param"):
            i = names_in(f, {t}, lambda x: x in MAPOF)
            ms |= i
    return ms.pop() if len(ms) == 1 else None


def vecs(P, op, depth=6):
    """the collections an iterator runs over"""
    f = P.f
    out = set()
    for t in plain(f.origins(op)):
        c = f.callof(t) if t[0] == "call" else None
        if c is not None and depth and c.name in ("iter", "into_iter", "map", "deref", "as_slice", "drain", "into_par_iter", "cloned", "copied"):
            for a in c.args[:1]:
                out |= vecs(P, a, depth - 1)
        else:
            out.add(t[:2] + ((),) if t[0] == "call" else t)
    return out


def table(R, P, n, c, o, kinds):
    """table[old - offset - 1] = position + offset + 1 (+ number of nodes, for values)"""
    f = P.f
    en = set()
    vs = set()
    for x in from_takes(f, c.args[1]):
        for t in plain(f.origins(f.nodes[x].call.args[0])):
            e = f.callof(t) if t[0] == "call" else None
            if e is not None and e.name == "enumerate":
                en.add(e.nid)
                vs |= vecs(P, e.args[0])
    kk = set().union(*[kinds.get(v, {"?"}) for v in vs]) if vs else {"?"}
    if not en or len(kk) != 1 or kk == {"?"}:
        return
    kk = kk.pop()
    sp = "p" if kk == "predicates" else "nv"
    s = P.slot(c.args[1])
    R.ob("final", kk + ": place", s is not None and s[1] == sp and s[0][1] == "id", "the final id of one of the %s is filed at another place than that of its temporary id" % kk, f.loc(n))
    ok, full = True, False
    for v in P.ev.op(o, 10):
        dv, kv = lin(v)
        pos = [u for u, m in dv if u[0] == "call" and u[1] in en and tuple(u[2])[-1:] == ("0",) and m == 1]
        off = [u for u, m in dv if P.offset(u) == sp and m == 1]
        rest = [(u, m) for u, m in dv if u not in pos and u not in off]
        okrest = not rest
        if kk == "values":
            okrest = len(rest) == 1 and rest[0][1] == 1 and is_len(P, rest[0][0], "nodes", kinds)
        ok = ok and len(pos) == 1 and len(off) <= 1 and kv == 1 and okrest
        full = full or len(off) == 1
    R.ob("final", kk + ": id", ok and full,
         "the final id of one of the %s is not its position after the parent's ids%s" % (kk, " and the new nodes" if kk == "values" else ""), f.loc(n))


def is_len(P, tree, what, kinds):
    f = P.f
    if tree[0] == "f" and tree[1] == "len":
        ts = {("call", x[1], tuple(x[2])) for x in tree[2] if x[0] == "call"}
        return bool(ts) and all(kinds.get(t) == {what} for t in ts)
    return False


def handover(R, P):
    f = P.f
    fins = [c for c in P.calls if c.name == "finalize"]
    for side, steps in (("child", ("add_nodes", "add_predicates", "add_values", "add_id_triples", "remove_id_triples")), ("base", ("add_nodes", "add_predicates", "add_values", "add_id_triples"))):
        mine = [c for c in P.calls if re.search(r"::internal::%s::|::%s::" % (side, side), c.path)]
        fin = [c for c in mine if c.name == "finalize"]
        R.ob("hand", side + ": finalized", bool(fin), "the %s layer is never finished" % side, "%s:%d" % (f.entry.file, f.entry.line))
        for c in mine:
            if c.name == "from_files":
                into = {f.callof(t).name for a in c.args for t in plain(f.origins(a)) if t[0] == "call"}
                R.ob("hand", side + ": files", "into_" + side in into or any(t[0] == "param" and "files" in t[2] for a in c.args for t in plain(f.origins(a))), "the %s layer is built in other files than the builder's own" % side, f.loc(c.nid))
                if side == "child":
                    R.ob("hand", "parent", any(plain(f.origins(a)) and all(t[0] == "param" and t[2][:1] == ("parent",) for t in plain(f.origins(a))) for a in c.args), "the child layer is built on another parent than the builder's own", f.loc(c.nid))
        for st in steps:
            cs = [c for c in mine if c.name == st]
            for x in fin:
                got = sub(f, [f.start], avoid={y for c in cs for y in flow.exec_nodes(f, c)}) & {x.nid}
                R.ob("hand", "%s: %s" % (side, st), bool(cs) and not got, "a path finishes the %s layer without `%s`" % (side, st), f.loc(x.nid))
            for c in cs:
                if st in ("add_id_triples", "remove_id_triples"):
                    want = LISTS[0] if st == "add_id_triples" else LISTS[1]
                    got = lists(f, c.args[1])
                    R.ob("hand", "%s: %s of" % (side, st), got == {want}, "`%s` is given %s" % (st, " and ".join(sorted(got)) or "something else"), f.loc(c.nid))
                else:
                    ks = set().union(*[P.kinds.get(v, {"?"}) for v in vecs(P, c.args[1])] or [set()])
                    if "?" not in ks and P.kinds:
                        R.ob("hand", "%s: %s of" % (side, st), ks == {st[4:]}, "`%s` is given the new %s" % (st, "/".join(sorted(ks))), f.loc(c.nid))


# ---- the queue ---------------------------------------------------------------
def queue(R, prog):
    for nm in ("add_value_triple", "add_id_triple", "remove_value_triple", "remove_id_triple"):
        b = prog.impl_fn("SimpleLayerBuilder", "LayerBuilder", nm)
        calc = {x.id for x in prog.bodies.values() if x.kind == "AssocFn" and x.impl_self and "SimpleLayerBuilder" in x.impl_self and not x.impl_trait and re.search(r"IdTriple$", x.ret or "")}
        f = flat(prog, b, opaque=apart(prog, b.file, calc))
        R.saw(f)
        want = LISTS[0] if nm.startswith("add") else LISTS[1]
        ps = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.args and lists(f, c.args[0])]
        ps = [c for c in ps if c.name in ("push", "insert", "extend", "retain", "remove", "clear", "pop", "truncate", "drain", "swap_remove", "append", "push_back")]
        mine = [c for c in ps if lists(f, c.args[0]) == {want} and c.name in ("push", "push_back")]
        for c in ps:
            if c not in mine:
                R.ob("queue", nm, False, "`%s` changes %s" % (nm, "/".join(sorted(lists(f, c.args[0])))), f.loc(c.nid))
        R.ob("queue", nm, bool(mine) and f.exit not in sub(f, [f.start], avoid={c.nid for c in mine}), "a path through `%s` does not put the triple into `%s`" % (nm, want), "%s:%d" % (b.file, b.line))
        for c in mine:
            ts = plain(f.origins(c.args[1]))
            ok = bool(ts)
            for t in ts:
                if "value" in nm:
                    k = f.callof(t) if t[0] == "call" else None
                    ok = ok and k is not None and k.target in calc and any(param_only(f.origins(a), 2) for a in k.args[1:])
                else:
                    ok = ok and t == ("param", 2, ())
            R.ob("queue", nm + ": triple", ok, "`%s` queues another triple than the one it was given" % nm, f.loc(c.nid))


# ---- temporary ids -------------------------------------------------------------
LOOK = {"subject": ("subject_id", "object_node_id"), "predicate": ("predicate_id",), "object": ("object_node_id", "object_value_id", "subject_id")}


def parts(f, op):
    """the parts of the given triple that go into an operand"""
    return {t[2][0] for t in f.leaves(op, depth=10) if t[0] == "param" and t[1] == 2 and t[2]}


def ids(R, prog):
    bs = [x for x in prog.bodies.values() if x.kind == "AssocFn" and x.impl_self and "SimpleLayerBuilder" in x.impl_self and not x.impl_trait and re.search(r"IdTriple$", x.ret or "")]
    for b in bs:
        f = flat(prog, b, opaque=apart(prog, b.file))
        R.saw(f)
        calls = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
        gets = [c for c in calls if c.name in ("get", "contains_key", "get_mut", "entry", "remove") and names_in(f, plain(f.origins(c.args[0])), lambda x: x in MAPOF)]
        ins = [c for c in calls if c.name == "insert" and names_in(f, plain(f.origins(c.args[0])), lambda x: x in MAPOF)]
        looks = [c for c in calls if c.name in ("subject_id", "predicate_id", "object_node_id", "object_value_id")]
        for c in looks:
            p = set().union(*[parts(f, a) for a in c.args[1:]] or [set()])
            R.ob("ids", "lookup %s" % c.name, len(p) == 1 and c.name in LOOK[next(iter(p))], "the parent is asked for the `%s` of the %s" % (c.name, "/".join(sorted(p)) or "something else"), f.loc(c.nid))
            R.ob("ids", "lookup in the parent", plain(f.origins(c.args[0])) == {("param", 1, ("parent", "!"))}, "an id is looked up in another layer than the parent", f.loc(c.nid))
        counter = {"nv": "nodes_values_map_count", "p": "predicates_map_count"}
        tally = {"nv": ("node_count", "val_count"), "p": ("pred_count",)}

        def bumps(names):
            out = set()
            for n in f.reach:
                for d, rv, line in f.nodes[n].stmts:
                    base = {t for t in plain(f.res(d[0], ())) if t[0] == "param"} if d[1] else set()
                    if d[1] and d[1][-1] in names and (not base or base == {("param", 1, ())}) and rv[0] in ("use", "bin"):
                        src = f.origins(rv[1]) if rv[0] == "use" else set()
                        for t in plain(src):
                            e = f.stmt(t) if t[0] == "expr" else None
                            if e is not None and e[0] == "bin" and e[1].startswith("Add") and any(o[0] == "k" and o[1].get("int") == 1 for o in e[2:4]):
                                out.add(n)
            return out
        new = [c for c in calls if c.name == "new" and len(c.args) == 3]
        for c in new:
            for x, a in zip(FIELDS, c.args):
                for t in plain(f.origins(a)):
                    k = f.callof(t) if t[0] == "call" else None
                    if k is not None:
                        p = set().union(*[parts(f, y) for y in k.args[1:]] or [set()])
                        R.ob("ids", x, p == {x}, "the %s of the queued triple is the id of the %s" % (x, "/".join(sorted(p)) or "something else"), f.loc(c.nid))
        for g in gets:
            p = set().union(*[parts(f, y) for y in g.args[1:]] or [set()])
            m = names_in(f, plain(f.origins(g.args[0])), lambda x: x in MAPOF)
            if len(p) != 1 or len(m) != 1:
                R.ob("ids", "key", False, "a known id is looked up under the %s" % ("/".join(sorted(p)) or "something else"), f.loc(g.nid))
                continue
            x = next(iter(p))
            sp = SPACE[x]
            R.ob("ids", "key of %s" % x, MAPOF[next(iter(m))] == sp, "the %s is looked up in `%s`" % (x, next(iter(m))), f.loc(g.nid))
            mine = [c for c in looks if set().union(*[parts(f, a) for a in c.args[1:]]) == {x}]
            mynid = {c.nid for c in mine}
            E = flow.edges_where(f, lambda a: a[0] == "variant" and set(a[2]) == {"Some"} and any(t[0] == "call" and (t[1] in mynid or via(f, t, mynid)) for t in terms(f, a[1])))
            inc = bumps((counter[sp],))
            myins = {c.nid for c in ins if set().union(*[parts(f, a) for a in c.args[1:2]]) == {x}}
            goals = {c.nid for c in new} | {c.nid for c in ins}
            st = flow.result_starts(f, g, [((), "None")])
            for what, ns, msg in (("counted", inc, "a new %s gets no id of its own" % x), ("tallied", bumps(tally[sp]), "a new %s is not counted among the new entries" % x)):
                hit = walk(f, st, ns, E, goals)
                R.ob("ids", "%s: %s" % (x, what), not hit, msg, f.loc(g.nid))
            hit = walk(f, st, myins, set(), {c.nid for c in new})
            R.ob("ids", "%s: remembered" % x, bool(myins) and not hit, "the id of a %s is not remembered for later triples" % x, f.loc(g.nid))
            reads = {n for n in f.reach for d, rv, line in f.nodes[n].stmts if rv[0] == "use" and rv[1][0] == "p" and rv[1][2][-1:] == (counter[sp],) and not only_sum(f, d)}
            hit = walk(f, st, inc, E, reads)
            R.ob("ids", "%s: fresh" % x, not hit, "a new %s is given the last id that was in use already" % x, f.loc(g.nid))
            after = {y for c in mine for y in [c.nid]}
        for c in ins:
            p, q = (set().union(*[parts(f, a) for a in c.args[i:i + 1]]) for i in (1, 2))
            for t in plain(f.origins(c.args[2])):
                k = f.callof(t) if t[0] == "call" else None
                if k is not None:
                    q = set().union(*[parts(f, y) for y in k.args[1:]] or [set()])
                    R.ob("ids", "remembered under its own key", p == q, "the id of the %s is remembered for the %s" % ("/".join(sorted(q)), "/".join(sorted(p))), f.loc(c.nid))


def only_sum(f, d):
    """a value that is only the operand of a sum"""
    if d[1]:
        return False
    for n in f.reach:
        for e, rv, line in f.nodes[n].stmts:
            if rv[0] == "bin" and rv[1].startswith("Add") and any(o[0] == "p" and o[1] == d[0] for o in rv[2:4]):
                return True
    return False


def via(f, t, nids):
    """a combinator result that carries the answer of one of the calls"""
    c = f.callof(t)
    if c is None or c.name not in ("and_then", "map", "or_else", "filter", "copied", "cloned"):
        return False
    for ai, o in getattr(f, "closure_results", {}).get(c.nid, []):
        for u in plain(f.res(o, ())):
            if u[0] == "call" and u[1] in nids:
                return True
    return False


def walk(f, starts, nodes, edges, goals):
    hit = set()

    def cut(n, l, x):
        if x in nodes or (n, l) in edges:
            return True
        if x in goals:
            hit.add(x)
            return True
        return False
    flow.explore(f, [x for x in starts if x[0] not in nodes], cut, 600)
    return hit


# ---- the files of a layer --------------------------------------------------------
def triple_args(f, c, k, base):
    """the arguments are subject, predicate and object of one triple"""
    return all(len(c.args) > k + i and plain(f.origins(c.args[k + i])) == {base(x)} for i, x in enumerate(FIELDS))


def decided(f, c, truth, k=1):
    """a call is made only for triples the parent has (or lacks)"""
    args = [plain(f.origins(a)) for a in c.args[k:k + 3]]

    def test(e):
        return plain(f.origins(e.args[0])) == {("param", 1, ("parent",))} and [plain(f.origins(a)) for a in e.args[1:4]] == args
    if any(said(f, a, ("triple_exists",), truth, test) for a in conds(f).facts(c.nid)):
        return True
    # elements let through by a filter
    for e in f.callsites:
        if e.nid in f.reach and not e.inlined and e.name in ("filter", "retain", "partition") and f.always_before({e.nid}, {c.nid}):
            for ai, o in getattr(f, "closure_results", {}).get(e.nid, []):
                for a in conds(f).boolean(("p", o, (), False) if not isinstance(o, tuple) else o, True, 3):
                    if said(f, a, ("triple_exists",), truth, test):
                        return True
    return False


def pairs(R, prog):
    tfb = {b.id for b in prog.bodies.values() if b.impl_self and "TripleFileBuilder" in b.impl_self}
    for nm, want, truth in (("add_triple", "pos", False), ("remove_triple", "neg", True), ("add_id_triples", "pos", False), ("remove_id_triples", "neg", True)):
        b = prog.inherent("ChildLayerFileBuilderPhase2", nm)
        f = flat(prog, b, opaque=tfb | {x.id for x in prog.bodies.values() if x.name == "triple_exists"})
        R.saw(f)
        many = nm.endswith("s")
        base = (lambda x: ("param", 2, ("[]", x))) if many else (lambda x: ("param", 2 + FIELDS.index(x), ()))
        puts = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.target in tfb and c.name.startswith("add_")]
        R.ob("pairs", nm, bool(puts), "`%s` writes nothing" % nm, "%s:%d" % (b.file, b.line))
        for c in puts:
            r = {t[2][-1] for t in plain(f.origins(c.args[0])) if t[0] == "param" and t[2]}
            R.ob("pairs", nm + ": file", len(r) == 1 and next(iter(r)).startswith(want), "`%s` writes to `%s`" % (nm, "/".join(sorted(r))), f.loc(c.nid))
            if c.name == "add_triple":
                R.ob("pairs", nm + ": triple", triple_args(f, c, 1, base), "`%s` writes another triple than the one given" % nm, f.loc(c.nid))
            R.ob("pairs", nm + ": parent", decided(f, c, truth), "`%s` is not limited to triples the parent %s" % (nm, "has" if truth else "lacks"), f.loc(c.nid))
        nodes = {y for c in puts for y in flow.exec_nodes(f, c)} | {c.nid for c in puts}

        def other(a):
            return said(f, a, ("triple_exists",), not truth, lambda e: triple_args(f, e, 1, base))
        E = flow.edges_where(f, other)
        if not many:
            hit, bad, got = missed(f, flow.start_states(f), nodes, E, ())
            R.ob("pairs", nm + ": done", not bad, "`%s` ends well without having written a triple the parent %s" % (nm, "has" if truth else "lacks"), "%s:%d" % (b.file, b.line))
        else:
            every(R, f, nm, nodes, E)
    b = prog.inherent("BaseLayerFileBuilderPhase2", "add_id_triples")
    for b, base in ((b, 2), (prog.inherent("BaseLayerFileBuilderPhase2", "add_triple"), None)):
        f = flat(prog, b, opaque=tfb)
        R.saw(f)
        puts = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.target in tfb and c.name.startswith("add_")]
        R.ob("pairs", "base " + b.name, bool(puts), "`%s` writes nothing" % b.name, "%s:%d" % (b.file, b.line))
        for c in puts:
            if c.name == "add_id_triples":
                ok = param_only(f.origins(c.args[1]), 2)
            elif base:
                ok = triple_args(f, c, 1, lambda x: ("param", 2, ("[]", x)))
            else:
                ok = triple_args(f, c, 1, lambda x: ("param", 2 + FIELDS.index(x), ()))
            R.ob("pairs", "base %s: triple" % b.name, ok, "`%s` writes other triples than those given" % b.name, f.loc(c.nid))
        nodes = {y for c in puts for y in flow.exec_nodes(f, c)} | {c.nid for c in puts}
        if not (base and any(c.name == "add_triple" for c in puts)):
            hit, bad, got = missed(f, flow.start_states(f), nodes, set(), ())
            R.ob("pairs", "base %s: done" % b.name, not bad, "`%s` ends well without having written anything" % b.name, "%s:%d" % (b.file, b.line))
        else:
            every(R, f, b.name, nodes, set())
    b = prog.inherent("TripleFileBuilder", "add_id_triples")
    own = prog.inherent("TripleFileBuilder", "add_triple")
    f = flat(prog, b, opaque={own.id})
    R.saw(f)
    puts = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.target == own.id]
    for c in puts:
        R.ob("pairs", "file: triples", triple_args(f, c, 1, lambda x: ("param", 2, ("[]", x))), "`add_id_triples` writes other triples than those given", f.loc(c.nid))
    if puts:
        every(R, f, "add_id_triples", {c.nid for c in puts}, set())
    one(R, prog, own)


def every(R, f, nm, nodes, E):
    """each element of the given triples gets written"""
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.name == "next" and STDPATH.match(c.path) and feeds(f, c):
            hit = walk(f, flow.result_starts(f, c, [((), "Some")]), nodes, E, {c.nid})
            R.ob("pairs", nm + ": every", not hit, "`%s` passes over a triple" % nm, f.loc(c.nid))
    for e in f.callsites:
        if e.nid in f.reach and not e.inlined and e.name in ("skip", "take", "step_by", "take_while", "skip_while", "skip_any", "take_any", "positions", "nth", "filter_map", "map_while", "take_any_while"):
            R.ob("pairs", nm + ": all", False, "`%s` leaves out triples" % nm, f.loc(e.nid))
        if e.nid in f.reach and not e.inlined and e.name == "filter":
            # a filter may leave out only what the parent makes superfluous
            for ai, o in getattr(f, "closure_results", {}).get(e.nid, []):
                at = conds(f).boolean(("p", o, (), False) if not isinstance(o, tuple) else o, False, 3)
                R.ob("pairs", nm + ": all", any(a[0] == "bool" and any(t[0] == "call" and f.callof(t).name == "triple_exists" for t in terms(f, a[1])) for a in at), "`%s` leaves out triples for another reason than what the parent has" % nm, f.loc(e.nid))


def feeds(f, c):
    work, seen = list(plain(f.origins(c.args[0]))), set()
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] == "param" and t[1] == 2:
            return True
        if t[0] == "call":
            k = f.callof(t)
            for a in k.args[:1]:
                work += list(plain(f.origins(a)))
    return False


def one(R, prog, b):
    """a triple file takes every triple, skipping only what was cancelled"""
    f = flat(prog, b, opaque={x.id for x in prog.bodies.values() if x.kind in ("Fn", "AssocFn") and x.file != b.file})
    R.saw(f)
    push = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "push" and len(c.args) == 3]

    def on(c, x):
        return any(t[0] == "param" and any(re.search(r"(^|_)%s(_|$)" % x, y) for y in t[2]) for t in plain(f.origins(c.args[0])))
    spo = [c for c in push if on(c, "sp_o")]
    sp = [c for c in push if on(c, "s_p") and not on(c, "sp_o")]
    par = {("param", 2 + i, ()): x for i, x in enumerate(FIELDS)}

    def is_par(op, x):
        return {par.get(t) for t in plain(f.origins(op))} == {x}

    def zero(a):
        if a[0] == "bool" and a[2]:
            for t in terms(f, a[1]):
                c = f.callof(t) if t[0] == "call" else None
                if c is not None and c.name == "contains" and {x[2] for x in plain(f.origins(c.args[1])) if x[0] == "const"} == {0}:
                    for u in plain(f.origins(c.args[0])):
                        if u[0] == "agg" and all(any(is_par(o, x) for x in FIELDS) for o in f.stmt(u)[2]):
                            return True
        if a[0] == "int" and a[2] == 0 and a[3]:
            return any(is_par(a[1], x) for x in FIELDS)
        if a[0] == "eq" and a[3]:
            return any(any(is_par(p, x) for x in FIELDS) and {t[2] for t in plain(f.origins(q)) if t[0] == "const"} == {0} for p, q in ((a[1], a[2]), (a[2], a[1])))
        return False
    E = flow.edges_where(f, zero)
    hit, bad, got = missed(f, flow.start_states(f), {y for c in spo for y in flow.exec_nodes(f, c)}, E, ())
    R.ob("file", "object", bool(spo) and not bad, "a triple is passed over although no part of it is 0", "%s:%d" % (b.file, b.line))
    for c in spo:
        R.ob("file", "object pushed", is_par(c.args[2], "object"), "the object list is given something else than the object", f.loc(c.nid))
    same = {}
    for x in ("subject", "predicate"):
        same[x] = flow.edges_where(f, lambda a: a[0] == "eq" and a[3] and any(is_par(p, x) and any(t[0] == "param" and t[2][-1:] == ("last_" + x,) for t in plain(f.origins(q))) for p, q in ((a[1], a[2]), (a[2], a[1]))))
        hit, bad, got = missed(f, flow.start_states(f), {y for c in sp for y in flow.exec_nodes(f, c)}, E | same[x], ())
        R.ob("file", "new %s" % x, bool(sp) and not bad, "a triple with another %s than the last one is put under the last subject and predicate" % x, "%s:%d" % (b.file, b.line))
        st = {n for n in f.reach for d, rv, line in f.nodes[n].stmts if d[1][-1:] == ("last_" + x,) and rv[0] == "use" and is_par(rv[1], x)}
        hit, bad, got = missed(f, flow.start_states(f), st, E, ())
        R.ob("file", "last %s" % x, bool(st) and not bad, "the %s of a triple is not remembered for the next one" % x, "%s:%d" % (b.file, b.line))
        for n in st:
            got = sub(f, succs(f, n)) & {y for c in push for y in [c.nid]}
            R.ob("file", "last %s after" % x, not got, "the last %s is replaced before the triple was written" % x, f.loc(n))
    for c in sp:
        R.ob("file", "predicate pushed", is_par(c.args[2], "predicate"), "the predicate list is given something else than the predicate", f.loc(c.nid))
    subs = {c.nid for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "push" and len(c.args) == 2 and is_par(c.args[1], "subject")}
    if subs:
        none = flow.edges_where(f, lambda a: a[0] == "variant" and set(a[2]) == {"None"} and any(t[0] == "param" and t[2][-1:] == ("subjects",) for t in terms(f, a[1])))
        hit, bad, got = missed(f, flow.start_states(f), subs, E | same["subject"] | none, ())
        R.ob("file", "subject", not bad, "a new subject is not entered in the list of subjects", "%s:%d" % (b.file, b.line))


# ---- the builder handed to users ----------------------------------------------------
def store(R, prog):
    for nm in ("add_value_triple", "add_id_triple", "remove_value_triple", "remove_id_triple"):
        b = prog.inherent("StoreLayerBuilder", nm)
        f = flat(prog, b)
        R.saw(f)
        puts = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("add_value_triple", "add_id_triple", "remove_value_triple", "remove_id_triple")]
        R.ob("store", nm, {c.name for c in puts} == {nm}, "`%s` calls %s" % (nm, "/".join(sorted({c.name for c in puts})) or "nothing"), "%s:%d" % (b.file, b.line))
        for c in puts:
            R.ob("store", nm + ": triple", param_only(f.origins(c.args[1]), 2), "`%s` passes on another triple than the one given" % nm, f.loc(c.nid))
        hit, bad, got = missed(f, flow.start_states(f), {c.nid for c in puts}, set(), ())
        R.ob("store", nm + ": done", not bad, "`%s` ends well without having passed the triple on" % nm, "%s:%d" % (b.file, b.line))
    delta(R, prog)
    diff(R, prog)


def source(f, t, stop):
    """calls an element came out of"""
    out, seen, work = set(), set(), [t]
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] == "agg":
            for o in f.stmt(t)[2]:
                work += list(plain(f.origins(o)))
        elif t[0] == "call":
            c = f.callof(t)
            if c.name in stop:
                out.add(c.nid)
                continue
            args = c.args if c.name.startswith("id_") else c.args[:1]
            for a in args[-1:] if c.name.startswith("id_") else args:
                work += list(plain(f.origins(a)))
    return out


def recv(f, op):
    """whose method it is: the builder's parent or the layer given"""
    out = set()
    for t in plain(f.origins(op)):
        if t[0] == "param":
            out.add("other" if t[1] == 2 else "parent" if "parent" in t[2] else "self")
        else:
            out.add("?")
    return out


def delta(R, prog):
    b = prog.inherent("StoreLayerBuilder", "apply_delta")
    own = {prog.inherent("StoreLayerBuilder", n).id for n in ("add_value_triple", "remove_value_triple", "add_id_triple", "remove_id_triple")}
    f = flat(prog, b, opaque=own)
    R.saw(f)
    calls = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
    for nm, src in (("add", "triple_additions"), ("remove", "triple_removals")):
        puts = [c for c in calls if c.target in own and c.name.startswith(nm)]
        R.ob("delta", nm, bool(puts), "`apply_delta` %ss nothing" % nm, "%s:%d" % (b.file, b.line))
        for c in puts:
            got = set()
            for t in plain(f.origins(c.args[1])):
                got |= {f.nodes[n].call.name for n in source(f, t, ("triple_additions", "triple_removals", "triples"))}
            R.ob("delta", nm + " of", got == {src}, "`apply_delta` %ss %s of the layer" % (nm, "/".join(sorted(got)) or "something else"), f.loc(c.nid))
            R.ob("delta", nm + ": value", c.name.endswith("value_triple"), "`apply_delta` queues ids of another layer", f.loc(c.nid))
    for c in calls:
        if c.name in ("triple_additions", "triple_removals", "id_subject", "id_predicate", "id_object"):
            R.ob("delta", c.name, recv(f, c.args[0]) == {"other"} or c.name.startswith("triple_") and any(recv(f, a) == {"other"} for a in c.args) or any(via_other(f, a) for a in c.args), "`apply_delta` reads another layer than the one given", f.loc(c.nid))
    for c in calls:
        if c.name in CUTS + ("filter",):
            R.ob("delta", "all", False, "`apply_delta` leaves out changes", f.loc(c.nid))


def via_other(f, op):
    return any(t[0] == "param" and t[1] == 2 for t in f.leaves(op, depth=8))


def diff(R, prog):
    b = prog.inherent("StoreLayerBuilder", "apply_diff")
    own = {prog.inherent("StoreLayerBuilder", n).id for n in ("add_value_triple", "remove_value_triple", "add_id_triple", "remove_id_triple")}
    ex = {x.id for x in prog.bodies.values() if x.name in ("value_triple_exists", "id_triple_exists", "triple_exists")}
    f = flat(prog, b, opaque=own | ex)
    R.saw(f)
    calls = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
    for c in calls:
        if c.name in CUTS:
            R.ob("diff", "all", False, "`apply_diff` leaves out triples", f.loc(c.nid))
    for nm, mine, theirs in (("remove", "parent", "other"), ("add", "other", "parent")):
        puts = [c for c in calls if c.target in own and c.name.startswith(nm)]
        R.ob("diff", nm, bool(puts), "`apply_diff` %ss nothing" % nm, "%s:%d" % (b.file, b.line))
        for c in puts:
            got = set()
            for t in plain(f.origins(c.args[1])):
                for n in source(f, t, ("triples",)):
                    got |= recv(f, f.nodes[n].call.args[0])
            R.ob("diff", nm + " of", got == {mine}, "`apply_diff` %ss triples of %s" % (nm, "/".join(sorted(got)) or "nothing known"), f.loc(c.nid))
            R.ob("diff", nm + ": value", c.name.endswith("value_triple"), "`apply_diff` queues ids of another layer", f.loc(c.nid))

            def test(e):
                return recv(f, e.args[0]) == {theirs}
            E = flow.edges_where(f, lambda a: said(f, a, ("value_triple_exists",), False, test) or (theirs == "parent" and a[0] == "variant" and set(a[2]) == {"None"} and any(recv1(f, t) == "parent" for t in terms(f, a[1]))))
            R.ob("diff", nm + ": needed", c.nid not in sub(f, [f.start], edges=E), "`apply_diff` %ss a triple although %s may have it" % (nm, "the other layer" if theirs == "other" else "the parent"), f.loc(c.nid))
        for e in calls:
            if e.name in ("try_for_each", "for_each", "next") and e.args and {x for t in plain(f.origins(e.args[0])) for n in source(f, t, ("triples",)) for x in recv(f, f.nodes[n].call.args[0])} == {mine}:
                done(R, f, e, nm, mine, theirs, {c.nid for c in puts}, calls)


def recv1(f, t):
    return "parent" if t[0] == "param" and "parent" in t[2] else None


def done(R, f, e, nm, mine, theirs, puts, calls):
    """a difference is queued on every path of the element's closure"""
    know = {c.nid for c in calls if c.name == "value_triple_exists" and recv(f, c.args[0]) == {theirs}}
    E = flow.edges_where(f, lambda a: said(f, a, ("value_triple_exists",), True, lambda x: x.nid in know))
    for k in know:
        hit = walk(f, flow.result_starts(f, f.nodes[k].call, []), puts, E, {e.nid, f.exit})
        R.ob("diff", nm + ": every", not hit, "`apply_diff` passes over a triple to %s" % nm, f.loc(k))


def p20(R, prog):
    R.rule("queue", "each of the four operations puts the triple it is given into the list of its own kind")
    R.rule("ids", "a part of a triple gets the parent's id for it, the id it was given before, or a fresh one that is remembered")
    R.rule("cancel", "a pending triple is dropped only if it is pending both ways or the parent cannot have it, and always then")
    R.rule("order", "the lists are sorted and free of duplicates when they are compared, and sorted again when ids have changed")
    R.rule("translate", "every temporary id of a pending triple is replaced by the table entry of that id")
    R.rule("used", "every temporary id of a pending triple marks its dictionary entry as used")
    R.rule("collect", "the dictionaries get the new entries that are in use and no others")
    R.rule("final", "the final id of an entry is its position in the sorted dictionary, after the parent's ids")
    R.rule("hand", "commit hands additions as additions, removals as removals and each dictionary to the builder of its own layer before finishing it")
    R.rule("pairs", "a child layer's builder writes additions the parent lacks and removals the parent has, each to its own file")
    R.rule("file", "a triple file takes each triple under its own subject and predicate and skips only cancelled ones")
    R.rule("store", "the store's builder passes each operation on as it is")
    R.rule("delta", "apply_delta queues the layer's additions as additions and its removals as removals")
    R.rule("diff", "apply_diff removes what only the parent has and adds what only the other layer has")
    queue(R, prog)
    ids(R, prog)
    commit(R, prog)
    pairs(R, prog)
    store(R, prog)
    R.floor("queue", 8)
    R.floor("ids", 8)
    R.floor("hand", 8)
    R.floor("pairs", 12)
    R.floor("file", 6)
    R.floor("store", 8)
    R.floor("delta", 4)
    R.floor("diff", 4)
