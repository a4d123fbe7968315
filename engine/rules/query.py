"""P21: addition queries read additions, removal queries removals, and whole-layer
queries subtract the one from the other."""
from rules.lib import *
from rules.names import role, _CR, INLINE, variant_polarity
from rules import finish
import flow

POLY = _CR[2]


def pol(name):
    """polarity a name speaks of; None when silent or when it names both"""
    if not isinstance(name, str):
        return None
    n = name.split(".")[-1]
    r = {k for k, x in POLY if x.search(n)}
    return r.pop() if len(r) == 1 else None


def opposite(p):
    return "neg" if p == "pos" else "pos"


WORD = {"pos": "additions", "neg": "removals"}


def canon(name):
    return re.sub(r"additions?|removals?|positives?|negatives?|(^|_)(pos|neg)_", "*", name)


def operands(f):
    """(node, operand) of everything read in a function"""
    for n in sorted(f.reach):
        for d, rv, ln in f.nodes[n].stmts:
            for o in rv_ops(rv):
                yield n, o
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined:
            for a in c.args:
                yield c.nid, a


def rv_ops(rv):
    if rv[0] == "agg":
        return list(rv[2])
    if rv[0] == "ref" and isinstance(rv[2], tuple) and len(rv[2]) == 2:
        return [("p", rv[2][0], rv[2][1], False)]
    return [x for x in rv[1:] if isinstance(x, tuple) and x and x[0] in ("p", "k") and len(x) >= 2]


def reads(f):
    """{(polarity, what): node} of the polar things a function names"""
    out = {}
    for n, o in operands(f):
        if o[0] == "p":
            for t in o[2]:
                if pol(t):
                    out.setdefault((pol(t), t), n)
        else:
            for t in f.origins(o):
                if t[0] == "const" and t[1] == "def":
                    for x in t[3]:
                        if pol(x):
                            out.setdefault((pol(x), x), n)
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and pol(c.name):
            out.setdefault((pol(c.name), c.name), c.nid)
    return out


def structures(prog, b, memo, flats):
    """names of the index structures a query gets at, through all its callees"""
    if b.id in memo:
        return memo[b.id]
    memo[b.id] = frozenset()
    f = flats(b)
    r = set()
    for n, o in operands(f):
        toks = o[2] if o[0] == "p" else [x for t in f.origins(o) if t[0] == "const" and t[1] == "def" for x in t[3]]
        for t in toks:
            if role(t)[0] and pol(t):
                r.add(role(t)[0])
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and pol(c.name):
            if role(c.name)[0]:
                r.add(role(c.name)[0])
            elif c.target in prog.bodies:
                r |= structures(prog, prog.bodies[c.target], memo, flats)
    memo[b.id] = frozenset(r)
    return memo[b.id]


def polarity(R, prog):
    R.rule("polarity", "a function for additions reads addition structures only, one for removals removal structures only")
    R.rule("mirror", "the addition and the removal form of a query use the same index structures")
    ops = finish.layer_opaque(prog)
    polar = [b for b in prog.bodies.values() if b.kind in ("Fn", "AssocFn") and pol(b.name)]
    opaque = {b.id for b in polar} | ops
    memo = {}
    cache = {}

    def flats(b):
        if b.id not in cache:
            cache[b.id] = flat(prog, b, opaque=opaque - {b.id})
        return cache[b.id]
    groups = {}
    for b in polar:
        f = flats(b)
        R.saw(f)
        p = pol(b.name)
        rd = reads(f)
        bad = [(k, n) for k, n in rd.items() if k[0] != p]
        R.ob("polarity", short(b), not bad, "" if not bad else "`%s` answers for %s but uses `%s`" % (short(b), WORD[p], bad[0][0][1]), f.loc(bad[0][1]) if bad else "%s:%d" % (b.file, b.line))
        some = bool(rd) or any(pol(x) for t in f.res(f.retvar, ()) for x in (t[2] if t[0] == "param" else ()))
        if not b.in_trait:
            groups.setdefault((b.file, b.impl_self, b.impl_trait, canon(b.name)), {})[p] = b
        else:
            groups.setdefault((b.file, b.in_trait, "", canon(b.name)), {})[p] = b
        if not some and p == "pos" and b.impl_self:
            some = base_read(f)
        R.ob("polarity", short(b) + ": has a source", some or is_query_free(f), "`%s` reads no %s at all" % (short(b), WORD[p]), "%s:%d" % (b.file, b.line))
        if p == "neg" and b.impl_self:
            bv = [o for n, o in operands(f) if o[0] == "p" and any(x.startswith("Base.") for x in o[2]) and len(o[2]) > 1 and any(role(x)[0] for x in o[2])]
            R.ob("polarity", short(b) + ": base layers", not bv, "`%s` reports structures of a base layer, which removes nothing" % short(b), "%s:%d" % (b.file, b.line))
    for k, g in groups.items():
        if len(g) == 2:
            a, r = structures(prog, g["pos"], memo, flats), structures(prog, g["neg"], memo, flats)
            R.ob("mirror", short(g["pos"]), a == r, "" if a == r else "`%s` works on %s, `%s` on %s" % (g["pos"].name, ", ".join(sorted(a)), g["neg"].name, ", ".join(sorted(r))), "%s:%d" % (g["neg"].file, g["neg"].line))
    R.floor("polarity", 90)
    R.floor("mirror", 30)


def base_read(f):
    return any(o[0] == "p" and any(role(x)[0] for x in o[2]) for n, o in operands(f))


def is_query_free(f):
    """constructors and conversions named after a polarity without data of their own"""
    return not any(c.nid in f.reach and not c.inlined for c in f.callsites)


# -------------------------------------------------------------- arguments

SPO = [(k, re.compile(r"(^|_)%s(_|$)" % k)) for k in ("subject", "predicate", "object")]


def spo(tok):
    if not isinstance(tok, str) or tok[:1] in "![":
        return None
    n = tok.lstrip("^").split(".")[-1]
    r = [k for k, x in SPO if x.search(n)]
    return r[0] if len(r) == 1 else None


def spo_of(f, op):
    """which part of a triple an operand holds, by the places it comes from"""
    r = set()
    for t in f.origins(op):
        r.add(spo_term(f, t))
    return r - {None}


def spo_term(f, t):
    for x in reversed(t[2] if t[0] in ("param", "call") else t[3] if t[0] in ("part",) and len(t) > 3 else ()):
        if spo(x):
            return spo(x)
    if t[0] == "param":
        ps = f.entry.params or []
        n = ps[t[1] - 1] if t[1] - 1 < len(ps) else None
        return spo(n) if not any(x not in ("!", "[]") for x in t[2]) else None
    if t[0] == "call":
        c = f.callof(t)
        if c is not None and not any(x not in ("!", "[]", "!e") for x in t[2]) and c.name in ID_FNS:
            return spo(c.name)
    return None


ID_FNS = {"subject_id", "predicate_id", "object_node_id", "object_value_id", "id_subject", "id_predicate", "id_object", "id_object_node", "id_object_value"}
EXACT = {"subject", "predicate", "object"}


def pslots(f, prog):
    for n in sorted(f.reach):
        for d, rv, line in f.nodes[n].stmts:
            if rv[0] == "agg" and rv[1][0] == "adt":
                for nm, o in zip(rv[3] or (), rv[2]):
                    if nm in EXACT:
                        yield n, rv[1][1].split("::")[-1], nm, o
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined:
            continue
        ps = prog.bodies[c.target].params if c.target in prog.bodies else None
        if ps is None and c.trait:
            ps = next((b.params for b in prog.find(name=c.name) if (b.in_trait or b.impl_trait) and len(b.params or ()) == len(c.args)), None)
        if sum(x in EXACT for x in ps or ()) == 1 and re.search(r"(^|_)dict(_|$)", c.name):
            continue  # a dictionary of nodes takes subjects and objects alike
        for nm, o in zip(ps or (), c.args):
            if nm in EXACT:
                yield c.nid, c.name, nm, o


def comparisons(f):
    """(node, a, b) of every equality test"""
    for n in sorted(f.reach):
        for d, rv, line in f.nodes[n].stmts:
            if rv[0] in ("bin", "binop", "expr") or (isinstance(rv[0], str) and len(rv) == 4 and rv[1] in ("Eq", "Ne")):
                ops = [x for x in rv[1:] if isinstance(x, tuple) and x and x[0] in ("p", "k")]
                if ("Eq" in rv or "Ne" in rv) and len(ops) == 2:
                    yield n, ops[0], ops[1]
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.name in ("eq", "ne") and len(c.args) == 2:
            yield c.nid, c.args[0], c.args[1]


def one_side(R, prog):
    """structures handed over together are of one polarity"""
    ops = {x.id for x in prog.bodies.values() if pol(x.name)}
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or b.impl_self is None or type_head(b.impl_self).split("::")[-1] != "InternalLayer":
            continue
        f = flat(prog, b, opaque=ops - {b.id})
        for c in f.callsites:
            if c.nid not in f.reach or len(c.args) < 2:
                continue
            got = {}
            for i, o in enumerate(c.args):
                for t in f.origins(o):
                    x = f.callof(t).name if t[0] == "call" else next((x for x in reversed(t[2]) if pol(x)), None) if t[0] == "param" else None
                    if x and pol(x) and role(x)[0]:
                        got.setdefault(pol(x), []).append(x)
            if got and sum(len(v) for v in got.values()) > 1:
                R.ob("argument", "%s: structures given to %s" % (short(b), c.name), len(got) == 1, "`%s` is given structures of the additions and of the removals together: %s" % (c.name, ", ".join(sorted(x for v in got.values() for x in v))), f.loc(c.nid))


def arguments(R, prog):
    R.rule("argument", "a subject, predicate or object is used as what it is: it is passed on as, stored as and compared with the same part of a triple")
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn"):
            continue
        f = flat(prog, b, inline=INLINE)
        used = False
        for n, what, nm, o in pslots(f, prog):
            got = spo_of(f, o)
            if got:
                used = True
                R.ob("argument", "%s: %s(%s)" % (short(b), what, nm), got == {nm}, "" if got == {nm} else "`%s` is given the %s as `%s`" % (what, "/".join(sorted(got)), nm), f.loc(n))
        for n, x, y in comparisons(f):
            a, c = spo_of(f, x), spo_of(f, y)
            if a and c:
                used = True
                R.ob("argument", "%s: comparison of %s" % (short(b), "/".join(sorted(a))), a == c, "" if a == c else "`%s` compares the %s with the %s" % (short(b), "/".join(sorted(a)), "/".join(sorted(c))), f.loc(n))
        if used:
            R.saw(f)
    one_side(R, prog)
    R.floor("argument", 120)


# -------------------------------------------------------------- restriction

QUERY = re.compile(r"^(internal_)?triples?(_(additions?|removals?))?_(sp|s|p|o)$|^(internal_)?triple_(addition|removal)_exists$|^triple_exists$|^single_triple_sp$")


def restriction(R, prog):
    R.rule("restrict", "a query by subject, predicate or object answers only with triples having the given one")
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or not QUERY.match(b.name) or not b.params:
            continue
        f = flat(prog, b, inline=INLINE)
        if not any(c.nid in f.reach for c in f.callsites):
            continue
        R.saw(f)
        for i, nm in enumerate(b.params):
            if nm not in EXACT:
                continue
            why = restricted(f, prog, b, i + 1, nm)
            R.ob("restrict", "%s: %s" % (short(b), nm), why, "`%s` does not restrict its answer to the given %s" % (short(b), nm), "%s:%d" % (b.file, b.line))
    R.floor("restrict", 60)


def is_arg(f, op, i):
    ts = f.origins(op)
    return bool(ts) and all(t[0] == "param" and t[1] == i and t[2] == () for t in ts)


def restricted(f, prog, b, i, nm):
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined:
            continue
        if any(is_arg(f, a, i) for a in c.args):
            n = c.name
            if n.startswith("lookup") or QUERY.match(n) or n.startswith("file_triple") and not n.endswith("by_object") or n.endswith("triple_exists") or n == "sp_o_position" or (n == "from_layer"):
                return True
            if n.startswith("seek_") and any(x.nid in f.reach and x.name == "stop_at_boundary" and one_true(f, x) for x in f.callsites):
                return True
            if c.target in prog.bodies and not n.startswith(("seek_", "file_triple")) and prog.bodies[c.target].params:
                # a helper: it has to restrict in turn
                g = prog.bodies[c.target]
                if n != b.name:
                    j = next(k for k, a in enumerate(c.args) if is_arg(f, a, i))
                    fg = flat(prog, g, inline=INLINE)
                    if restricted(fg, prog, g, j + 1, g.params[j] if spo(g.params[j]) else nm):
                        return True
    # a filter over the triples found
    for n in sorted(f.reach):
        for d, rv, line in f.nodes[n].stmts:
            if rv[0] == "agg" and rv[1][0] == "closure" and filters(f, rv, i, nm, prog):
                return True
    return any(filters_inline(f, i, nm) for _ in (0,))


def one_true(f, c):
    return {t[2] for t in f.origins(c.args[1]) if t[0] == "const"} <= {True, "true"} and bool(f.origins(c.args[1]))


def filters(f, rv, i, nm, prog):
    """the closure lets through only what equals parameter i in part nm"""
    cap = {k: o for k, o in enumerate(rv[2])}
    mine = {k for k, o in cap.items() if is_arg(f, o, i)}
    if not mine:
        return False
    cb = prog.bodies.get(rv[1][1])
    if cb is None:
        return False
    g = flat(prog, cb, inline=INLINE)
    names = [rv[3][k] for k in mine] if rv[3] else []

    def hit(a):
        if a[0] != "eq" or a[3] is not True:
            return False
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if part(g, x) == {nm} and captured(g, y, mine, names):
                return True
        return False
    ok = False
    C = conds(g)
    if g.vtype[g.retvar] != "bool":
        return False
    for k, n, t in returns(g):
        if t[0] == "const" and t[2] in (False, "false"):
            continue
        atoms = list(C.facts(n)) if n is not None else []
        if t[0] != "const":
            atoms += C.term_atoms(t, True, 6)
        if not any(hit(a) for a in atoms):
            return False
        ok = True
    return ok


def part(g, op):
    r = set()
    for t in g.origins(op):
        r.add(next((spo(x) for x in reversed(t[2] if t[0] in ("param", "call") else ()) if spo(x)), None) if t[0] == "param" and not any(x.startswith("^") for x in t[2]) or t[0] == "call" else None)
    return r


def captured(g, op, mine, names):
    ts = g.origins(op)
    return bool(ts) and all(t[0] == "param" and any(x.startswith("^") and (x[1:] in names or x[1:].isdigit() and int(x[1:]) in mine) for x in t[2]) for t in ts)


def filters_inline(f, i, nm):
    return False


# ------------------------------------------------------------------ stacks

def stack_types(prog):
    return [k for k, a in prog.adts.items() if not a["enum"] and {"positives", "negatives"} <= {x[0] for v in a["variants"] for x in v["fields"]}]


def chain_term(t, f, root):
    if t[0] == "param":
        return t[1] == root and all(x in ("!",) for x in t[2])
    if t[0] == "call":
        c = f.callof(t)
        return c is not None and c.name == "immediate_parent" and all(x == "!" for x in t[2])
    return False


def in_chain(f, op, root):
    ts = [t for t in f.origins(op) if not (t[0] == "agg" and variant_of(f, t) in ("None",))]
    return bool(ts) and all(chain_term(t, f, root) or t[0] == "agg" and variant_of(f, t) == "Some" and in_chain(f, f.stmt(t)[2][0], root) for t in ts)


def over_all(f, op, root):
    """an element of the list of all layers below the given one"""
    ts = f.origins(op)
    return bool(ts) and all(t[0] == "call" and f.callof(t).name == "immediate_layers" and "[]" in t[2] and is_arg(f, f.callof(t).args[0], root) for t in ts)


def walk(R, rule, key, f, visits, what, root, early=None):
    """every layer from the given one down is visited, one after the other"""
    up = [c for c in f.callsites if c.nid in f.reach and c.name == "immediate_parent" and not c.inlined]
    if visits and not up and all(over_all(f, c.args[0], root) for c in visits):
        R.ob(rule, "%s: %s of all layers" % (key, what), True)
        return
    for c in visits + up:
        ok = in_chain(f, c.args[0], root)
        R.ob(rule, "%s: layer of %s" % (key, c.name), ok, "" if ok else "`%s` is asked of %s, not of the layers of the stack" % (c.name, tset(f, f.origins(c.args[0]))), f.loc(c.nid))
    R.ob(rule, "%s: %s moves on" % (key, what), bool(up) and any(any(t[0] == "call" for t in f.origins(c.args[0])) for c in up), "the walk over %s does not go from parent to parent" % what)
    own = {c.nid for c in visits if any(t[0] == "param" for t in f.origins(c.args[0]))}
    s = flow.explore(f, [x for x in flow.start_states(f) if x[0] not in own], flow.avoid_cut(own))
    hit = [c for c in up if c.nid in s]
    R.ob(rule, "%s: %s of the layer itself" % (key, what), not hit, "the %s of the top layer can be passed over" % what, f.loc(hit[0].nid) if hit else "")
    for c in up:
        mine = {v.nid for v in visits if any(t[0] == "call" and t[1] == c.nid for t in f.origins(v.args[0]))}
        s = flow.explore(f, flow.result_starts(f, c, [((), "Some")]), flow.avoid_cut(mine))
        hit = [u for u in up if u.nid in s]
        R.ob(rule, "%s: %s of each parent" % (key, what), not hit, "the %s of a parent can be passed over" % what, f.loc(c.nid))
        if early is None:
            R.ob(rule, "%s: %s of the last parent" % (key, what), f.exit not in s, "the walk can end without the %s of a parent it has reached" % what, f.loc(c.nid))


def stacks(R, prog):
    R.rule("stack", "a layer stack lists the additions of every layer from the top down, and at the same position the removals of the same layer")
    ty = stack_types(prog)
    R.ob("stack", "types", len(ty) >= 4, "the stack iterators are gone")
    ops = {b.id for b in prog.bodies.values() if pol(b.name) or b.vis == "Public" and not b.impl_trait}
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or not b.impl_self or not any(type_head(t) == type_head(b.impl_self) for t in ty):
            continue
        f = flat(prog, b, opaque=ops, inline=lambda x, d: x.kind not in ("Fn", "AssocFn") or x.vis != "Public" and not x.impl_trait)
        ca = {p: [c for c in f.callsites if c.nid in f.reach and not c.inlined and pol(c.name) == p and c.name.startswith("internal_triple")] for p in ("pos", "neg")}
        if not ca["pos"] and not ca["neg"]:
            continue
        n += 1
        R.saw(f)
        root = next((i + 1 for i, x in enumerate(param_heads(b)) if x == "InternalLayer"), 1)
        for p in ("pos", "neg"):
            R.ob("stack", "%s: %s" % (short(b), WORD[p]), bool(ca[p]), "`%s` never asks a layer for its %s" % (short(b), WORD[p]), "%s:%d" % (b.file, b.line))
        upto = any("[u32; 5]" in x for x in (b.locals[1:b.argc + 1]))
        for p in ("pos", "neg"):
            walk(R, "stack", short(b), f, ca[p], WORD[p], root, early=upto or None)
        # alignment: between two addition queries there is exactly one removal query, of the same layer
        for x, y in (("pos", "neg"), ("neg", "pos")):
            for c in ca[x]:
                again = f.after(c.nid, avoid={d.nid for d in ca[y]})
                hit = [d for d in ca[x] if d.nid in again]
                R.ob("stack", "%s: %s paired" % (short(b), WORD[x]), not hit, "`%s` can list the %s of two layers without the %s between them" % (short(b), WORD[x], WORD[y]), f.loc(c.nid))
        for c in ca["pos"] + ca["neg"]:
            for o in c.args[1:]:
                ts = f.origins(o)
                ok = bool(ts) and all(t[0] == "param" and t[1] != root and t[2] == () for t in ts)
                R.ob("stack", "%s: what is asked of %s" % (short(b), c.name), ok, "`%s` asks a layer with %s, not with what it was given" % (short(b), tset(f, ts)), f.loc(c.nid))
        names = {canon(c.name) for p in ca for c in ca[p]}
        R.ob("stack", "%s: one order" % short(b), len(names) == 1, "`%s` mixes different queries in one stack: %s" % (short(b), ", ".join(sorted(names))), "%s:%d" % (b.file, b.line))
        for c in f.callsites:
            if c.nid in f.reach and c.name in ("reverse", "sort", "rev", "swap", "sort_by", "rotate_left", "insert", "remove"):
                R.ob("stack", "%s: order kept" % short(b), False, "`%s` reorders the layers of the stack" % short(b), f.loc(c.nid))
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind in ("Fn", "AssocFn") and b.impl_self and any(type_head(t) == type_head(b.impl_self) for t in ty):
            lists_filled(R, prog, flat(prog, b, opaque=ops, inline=lambda x, d: x.id not in ops), b, ty)
    R.ob("stack", "builders", n >= 4, "only %d stack builders found" % n)
    R.floor("stack", 60)


def param_heads(b):
    return [type_head((b.locals[i] or "").replace("&", "").replace("mut ", "").strip()).split("::")[-1] for i in range(1, b.argc + 1)]


def lists_filled(R, prog, f, b, ty):
    """the list called positives gets additions, the one called negatives removals"""
    kind = {}
    for n in f.reach:
        for d, rv, ln in f.nodes[n].stmts:
            if rv[0] == "agg" and rv[1][0] == "adt" and any(type_head(t) == type_head(rv[1][1]) for t in ty):
                for nm, o in zip(rv[3] or (), rv[2]):
                    for t in f.origins(o):
                        if nm not in ("positives", "negatives"):
                            continue
                        p = pol(nm)
                        if t[0] == "call":
                            kind.setdefault(t[1], set()).add(p)
                            if pol(f.callof(t).name):
                                R.ob("stack", "%s: %s" % (short(b), nm), pol(f.callof(t).name) == p, "`%s` fills %s with %s" % (short(b), nm, f.callof(t).name), f.loc(n))
                        got = {pol(x) for x in toks(t)} - {None}
                        if t[0] == "param" and not got and b.params and not t[2]:
                            got = {pol(b.params[t[1] - 1])} - {None}
                        if got:
                            R.ob("stack", "%s: %s" % (short(b), nm), got == {p}, "`%s` fills %s with %s" % (short(b), nm, tset(f, {t})), f.loc(n))
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.name in ("push", "extend", "append", "extend_from_slice", "insert") and len(c.args) > 1:
            r = {p for t in f.origins(c.args[0]) if t[0] == "call" for p in kind.get(t[1], ())} | {pol(x) for t in f.origins(c.args[0]) for x in toks(t) if x in ("positives", "negatives")}
            got = set()
            for t in f.origins(c.args[-1]):
                got |= {pol(x) for x in toks(t)} - {None}
                if t[0] == "call":
                    got |= {pol(f.callof(t).name)} - {None}
            if r and got:
                R.ob("stack", "%s: %s into the list" % (short(b), c.name), r == got and len(r) == 1, "`%s` puts %s into the list of %s" % (short(b), "/".join(WORD[x] for x in sorted(got)), "/".join(WORD[x] for x in sorted(r))), f.loc(c.nid))


def of_field(f, op, name):
    return any(name in toks(t) for t in f.origins(op))


def toks(t):
    return t[2] if t[0] in ("param", "call") else t[3] if t[0] in ("const", "part", "agg") and len(t) > 3 else ()


def subtract(R, prog):
    R.rule("subtract", "a whole-layer query leaves out a triple removed by any layer above the one it was added in, and answers with added triples only")
    R.rule("cancel", "a stack of changes answers with the kind of the list a change was taken from, and an addition and removal of the same triple cancel out")
    ty = stack_types(prog)
    n = m = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.name != "next" or not b.impl_self or not any(type_head(t) == type_head(b.impl_self) for t in ty):
            continue
        ids = {x.id for x in prog.bodies.values() if x.name in ("next", "peek")}
        f = flat(prog, b, opaque=ids - {b.id})
        R.saw(f)
        k = short(b)
        nx = {p: [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "next" and lst(f, c.args[0], p) and "slice::" not in (c.self_ty or "") and (c.target or "Iterator" in (c.self_ty or ""))] for p in ("positives", "negatives")}
        tuples = "TripleChange" in (f.vtype[f.retvar] or "")
        R.ob("cancel" if tuples else "subtract", k + ": takes", bool(nx["positives"]) and bool(nx["negatives"]), "`%s` does not take from both lists" % k)
        if tuples:
            m += 1
            cancel(R, f, k, nx)
            continue
        n += 1
        somes = [(nn, t) for kk, nn, t in returns(f) if True]
        for c in f.callsites:
            pass
        ans = answers(f)
        R.ob("subtract", k + ": answers with additions", bool(ans) and all(any(t[1] == c.nid for c in nx["positives"]) for o, t, nid in ans), "`%s` can answer with something that is not an added triple" % k, "%s:%d" % (b.file, b.line))
        # the removals looked at: those of the layers above
        bounds = limits(f, "negatives")
        idx = [index_of(f, c.args[0]) for c in nx["positives"]]
        for c, ix in zip(nx["positives"], idx):
            ok = bool(ix) and bool(bounds) and all(lo_ok and hi and hi & ix for lo_ok, hi in bounds)
            R.ob("subtract", k + ": removals of the layers above", ok,
                 "" if ok else "`%s` does not look at the removals of exactly the layers above the addition" % k, f.loc(c.nid))
        # the answer passes through the look at the removals
        look = {c.nid for c in f.callsites if c.nid in f.reach and (c.name == "peek" and lst(f, c.args[0], "negatives") or c.name in ("iter_mut", "index_mut", "index", "get_mut", "any", "take", "into_iter") and c.args and lst(f, c.args[0], "negatives"))}
        for c in f.callsites:
            if c.nid in f.reach and c.name == "next" and not c.inlined:
                for u in f.origins(c.args[0]):
                    if u[0] == "agg":
                        fl = dict(zip(f.stmt(u)[3] or (), f.stmt(u)[2]))
                        if "end" in fl and any(f.origins(fl["end"]) & ix for ix in idx):
                            look.add(c.nid)
        for c in nx["positives"]:
            s = f.after(c.nid, avoid=look)
            R.ob("subtract", k + ": looks before it answers", f.exit not in s, "`%s` can answer without looking for a removal" % k, f.loc(c.nid))
        te = flow.edges_where(f, lambda a: same_triple(f, a, nx, True), depth=6)
        free = flow.explore_from_start(f, flow.avoid_cut({c.nid for c in nx["negatives"]}))
        first = {(x, lab) for x, lab in te if any(l == lab for y in f.xof.get(x, ()) if f.xkey[y][1] in free.get(x, ()) for _, l, _ in f._step(x, f.xkey[y][1]))}
        fe = flow.edges_where(f, lambda a: same_triple(f, a, nx, False), depth=6)
        R.ob("subtract", k + ": compares", bool(te), "`%s` does not compare the addition with the removals" % k, "%s:%d" % (b.file, b.line))
        for x, lab in te:
            starts = [(s2, l) for s2, l in f.nodes[x].succ if l == lab]
            reach = set()
            for s2, l in starts:
                reach |= beyond(f, s2, {c.nid for c in nx["positives"]})
            bad = f.exit in reach and [1 for o, t, nid in ans if nid in reach]
            R.ob("subtract", k + ": removed triple left out", not bad, "`%s` answers with a triple a layer above has removed" % k, f.loc(x))
            adv = set()
            for s2, l in starts if (x, lab) in first else ():
                adv |= beyond(f, s2, {c.nid for c in nx["negatives"]})
            R.ob("subtract", k + ": removal used up", not any(c.nid in adv for c in nx["positives"]), "`%s` goes on without moving past the removal it has used" % k, f.loc(x))
    R.ob("subtract", "iterators", n >= 3, "only %d whole-layer iterators found" % n)
    R.ob("cancel", "iterators", m >= 1, "no change-stack iterator found")
    R.floor("subtract", 18)
    R.floor("cancel", 5)


def lst(f, op, name, depth=6):
    """the operand is (an element of) the list `name` of the iterator"""
    ts = f.origins(op)
    return bool(ts) and all(lst_term(f, t, name, depth) for t in ts)


def lst_term(f, t, name, depth):
    if name in toks(t):
        return True
    if t[0] == "call" and depth:
        c = f.callof(t)
        return c is not None and bool(c.args) and lst(f, c.args[0], name, depth - 1)
    return False


def answers(f):
    """(operand, term, node) of the triples an iterator returns"""
    out = []
    for t in f.res(f.retvar, ("!",)):
        out.append((None, t, site(f, t)))
    return out


def site(f, t):
    for n in f.reach:
        for d, rv, ln in f.nodes[n].stmts:
            if d[0] == f.retvar and rv[0] == "agg" and rv[1][-1] == "Some":
                if t in f.origins(rv[2][0]):
                    return n
    return t[1] if t[0] == "call" else None


def index_of(f, op, depth=8):
    """terms of the index with which an element was picked"""
    out = set()
    work = [(t, depth) for t in f.origins(op)]
    seen = set()
    while work:
        t, d = work.pop(0)
        if t in seen or d < 0:
            continue
        seen.add(t)
        if t[0] == "call":
            c = f.callof(t)
            if c.name in ("index", "index_mut", "get", "get_mut", "get_unchecked_mut") and len(c.args) > 1:
                out |= set(f.origins(c.args[1]))
            if c.args:
                work += [(x, d - 1) for x in f.origins(c.args[0])]
    for c in f.callsites:
        if c.nid in f.reach and c.name in ("index_mut", "index", "get_mut", "get") and len(c.args) > 1 and c.args[0][0] == "p":
            if f.origins(c.args[0]) & {strip(t) for t in f.origins(op)} or any(t[0] == "call" and t[1] == c.nid for t in f.origins(op)):
                ts = f.origins(c.args[1])
                if not any(t[0] == "agg" for t in ts):
                    out |= set(ts)
    return out


def strip(t):
    if t[0] in ("param", "call") and t[2] and t[2][-1] == "[]":
        return t[:2] + (t[2][:-1],)
    return t


def limits(f, name):
    """[(starts at the top, terms of the exclusive end)] of every range over a list"""
    out = []
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or not c.args:
            continue
        if c.name in ("index", "index_mut", "get_mut", "get") and lst(f, c.args[0], name) and len(c.args) > 1:
            for t in f.origins(c.args[1]):
                if t[0] == "agg":
                    rv = f.stmt(t)
                    h = rv[1][1].split("::")[-1] if rv[1][0] == "adt" else ""
                    fl = dict(zip(rv[3] or (), rv[2]))
                    if h == "Range":
                        lo = f.origins(fl["start"])
                        out.append((all(x[0] == "const" and str(x[2]) in ("0", "0_usize") for x in lo), set(f.origins(fl["end"]))))
                    elif h == "RangeTo":
                        out.append((True, set(f.origins(fl["end"]))))
                    else:
                        out.append((False, set()))
                elif t[0] == "call" and f.callof(t).name == "next":
                    for u in f.origins(f.callof(t).args[0]):
                        if u[0] == "agg":
                            rv = f.stmt(u)
                            fl = dict(zip(rv[3] or (), rv[2]))
                            if "end" in fl:
                                out.append((True, set(f.origins(fl["end"]))))
                elif t[0] == "call":
                    out.append((False, set()))
        elif c.name in ("iter_mut", "iter") and lst(f, c.args[0], name):
            if not any("Index" in str(f.callof(t).path) for t in f.origins(c.args[0]) if t[0] == "call") and not sliced(f, c.args[0]):
                tk = [x for x in f.callsites if x.nid in f.reach and x.name == "take" and c.nid in via(f, x.args[0])]
                if tk:
                    out += [(True, set(f.origins(x.args[1]))) for x in tk]
                else:
                    out.append((False, set()))
    return out


def via(f, op, depth=12):
    """call sites a value has come through, receiver by receiver"""
    out = set()
    made = {}
    for c in f.callsites:
        if not c.inlined and c.dest:
            made.setdefault(c.dest[0], []).append(c)
    work, seen = [op], set()
    while work:
        o = work.pop()
        if o[0] != "p" or o[1] in seen:
            continue
        seen.add(o[1])
        for c in made.get(o[1], ()):
            out.add(c.nid)
            work += list(c.args[:1])
        for n in f.reach:
            for d, rv, ln in f.nodes[n].stmts:
                if d[0] == o[1] and rv[0] in ("use", "ref", "cast", "reborrow", "addr"):
                    work += rv_ops(rv)
    return out


def sliced(f, op):
    """part of the list was selected before"""
    at = via(f, op)
    return any(c.nid in at and c.name in ("index", "index_mut", "get", "get_mut") for c in f.callsites) or any("[]" in toks(t) for t in f.origins(op))


def same_triple(f, a, nx, truth):
    """the atom compares the addition taken with the removal at hand"""
    if a[0] != "eq" or a[3] is not truth:
        return False

    def isneg(op):
        return deep(f, op, lambda t: t[0] == "call" and f.callof(t).name == "peek" and lst(f, f.callof(t).args[0], "negatives"))

    def ispos(op):
        return deep(f, op, lambda t: t[0] == "call" and any(t[1] == c.nid for c in nx["positives"]))
    return isneg(a[1]) and ispos(a[2]) or isneg(a[2]) and ispos(a[1])


def deep(f, op, pred, d=4):
    for t in f.origins(op):
        if pred(t):
            return True
        if d and t[0] == "agg" and any(deep(f, o, pred, d - 1) for o in f.stmt(t)[2]):
            return True
    return False


def cancel(R, f, k, nx):
    out = {}
    for t in f.res(f.retvar, ("!",)):
        if t[0] == "agg":
            rv = f.stmt(t)
            if len(rv[2]) == 2:
                v = {variant_polarity(variant_of(f, x)) for x in f.origins(rv[2][0])}
                src = f.origins(rv[2][1])
                for p, l in (("pos", "positives"), ("neg", "negatives")):
                    if any(x[0] == "call" and any(x[1] == c.nid for c in nx[l]) for x in src):
                        out.setdefault(p, []).append((v, t[1]))
    for p in ("pos", "neg"):
        got = out.get(p, [])
        R.ob("cancel", "%s: %s reported" % (k, WORD[p]), bool(got), "`%s` never reports %s" % (k, WORD[p]))
        for v, n in got:
            R.ob("cancel", "%s: %s as such" % (k, WORD[p]), v == {p}, "" if v == {p} else "`%s` reports a change taken from the %s as the other kind" % (k, WORD[p]), f.loc(n))
    # the smaller one comes first
    C = conds(f)
    for p in out:
        for v, n in out[p]:
            for a in C.facts(n):
                want = smaller(f, a)
                if want:
                    R.ob("cancel", "%s: %s in order" % (k, WORD[p]), want == p, "`%s` reports the larger of the next addition and the next removal first" % k, f.loc(n))
    # equal: both are taken, none is reported
    eqe = flow.edges_where(f, lambda a: a[0] == "variant" and set(a[2]) == {"Equal"}, depth=6) | flow.edges_where(
        f, lambda a: a[0] == "eq" and a[3] is True and of_peek(f, a[1]) and of_peek(f, a[2]), depth=6)
    R.ob("cancel", k + ": compares", bool(eqe), "`%s` does not compare additions with removals" % k)
    sites = {n for p in out for v, n in out[p]}
    for x, lab in eqe:
        for s2, l in f.nodes[x].succ:
            if l != lab:
                continue
            for nm in ("positives", "negatives"):
                s = beyond(f, s2, {c.nid for c in nx[nm]})
                pk = [c.nid for c in f.callsites if c.nid in s and c.name == "peek"]
                R.ob("cancel", "%s: equal ones are both taken (%s)" % (k, nm), not (pk or f.exit in s), "`%s` does not drop both an addition and the removal of the same triple" % k, f.loc(x))
            s = beyond(f, s2, {c.nid for c in f.callsites if c.name in ("peek", "iter", "iter_mut", "into_iter") or c.name == "next" and is_arg(f, c.args[0], 1)})
            R.ob("cancel", k + ": equal ones are not reported", f.exit not in s, "`%s` reports a triple that was both added and removed" % k, f.loc(x))


def smaller(f, a):
    """the list that holds the smaller of the two next triples, by an atom"""
    def side(op):
        s = {p for t in f.origins(op) if t[0] == "call" and f.callof(t).name == "peek" for p, l in (("pos", "positives"), ("neg", "negatives")) if lst(f, f.callof(t).args[0], l)}
        return s.pop() if len(s) == 1 else None
    if a[0] == "variant" and a[1][0] == "call" and f.callof(a[1]).name in ("cmp", "partial_cmp") and len(a[2]) == 1:
        x, y = (side(o) for o in f.callof(a[1]).args[:2])
        if x and y and x != y:
            return {"Less": x, "Greater": y}.get(a[2][0])
    if a[0] == "bool" and a[1][0] == "call" and f.callof(a[1]).name in ("lt", "gt", "le", "ge"):
        c = f.callof(a[1])
        x, y = (side(o) for o in c.args[:2])
        if x and y and x != y:
            return x if (c.name in ("lt", "le")) == bool(a[2]) else y
    return None


def beyond(f, n, avoid):
    """nodes reached from n on, n included, none of `avoid` passed"""
    return set() if n in avoid else f.after(n, avoid=avoid) | {n}


def of_peek(f, op):
    return deep(f, op, lambda t: t[0] == "call" and f.callof(t).name == "peek")


# ---------------------------------------------------------- existence, counts

def exists(R, prog):
    R.rule("exists", "a triple exists if the topmost layer that adds or removes it adds it")
    for b in prog.find(name="triple_exists"):
        if type_head(b.impl_self or "") != "InternalLayer":
            continue
        ops = {x.id for n in ("internal_triple_addition_exists", "internal_triple_removal_exists", "immediate_parent") for x in prog.find(name=n)}
        f = flat(prog, b, opaque=ops)
        R.saw(f)
        k = short(b)
        A = [c for c in f.callsites if c.nid in f.reach and c.name == "internal_triple_addition_exists"]
        D = [c for c in f.callsites if c.nid in f.reach and c.name == "internal_triple_removal_exists"]
        w = "%s:%d" % (b.file, b.line)
        R.ob("exists", k + ": asks", bool(A) and bool(D), "`%s` does not ask the layers for additions and removals" % k, w)
        walk(R, "exists", k, f, A, "additions", 1, early=True)
        walk(R, "exists", k, f, D, "removals", 1, early=True)
        for c in A + D:
            ok = all(is_arg(f, c.args[i], i + 1) for i in (1, 2, 3))
            R.ob("exists", k + ": the given triple", ok, "`%s` is asked about another triple" % c.name, f.loc(c.nid))
        ae = flow.edges_where(f, lambda a: a[0] == "bool" and a[1][0] == "call" and a[2] is True and any(a[1][1] == c.nid for c in A))
        de = flow.edges_where(f, lambda a: a[0] == "bool" and a[1][0] == "call" and a[2] is True and any(a[1][1] == c.nid for c in D))
        v = bools(f, flow.explore_from_start(f, lambda n, l, x: (n, l) in ae))
        R.ob("exists", k + ": only added triples", True not in v and None not in v, "the triple can be reported without any layer adding it", w)
        for n, l in ae:
            v = bools(f, flow.explore(f, edge_states(f, n, l)))
            R.ob("exists", k + ": an addition decides", v == {True}, "the triple can be denied after the topmost change added it", f.loc(n))
        for n, l in de:
            v = bools(f, flow.explore(f, edge_states(f, n, l)))
            R.ob("exists", k + ": a removal decides", v == {False}, "the triple can be reported after the topmost change removed it", f.loc(n))
    R.floor("exists", 12)


def edge_states(f, n, lab):
    out = []
    for x in f.xof.get(n, []):
        st = f.xkey[x][1]
        for s, l, st2 in f._step(n, st):
            if l == lab:
                out.append((s, st2))
    return out


def bools(f, seen):
    out = set()
    for st in seen.get(f.exit, ()):
        v = dict(st).get((f.retvar, ()))
        out.add(v if isinstance(v, bool) else {"true": True, "false": False, 1: True, 0: False}.get(v, None))
    return out


def counts(R, prog):
    R.rule("count", "the counts over a layer stack add up every layer's own additions, and its own removals; the triples are their difference")
    for b in prog.find(name="triple_addition_count") + prog.find(name="triple_removal_count"):
        if type_head(b.impl_self or "") != "InternalLayer":
            continue
        p = pol(b.name)
        ops = {x.id for x in prog.bodies.values() if x.name.startswith("internal_triple_layer_")} | {x.id for n in ("immediate_parent", "immediate_layers") for x in prog.find(name=n)}
        f = flat(prog, b, opaque=ops)
        R.saw(f)
        vs = [c for c in f.callsites if c.nid in f.reach and c.name.startswith("internal_triple_layer_") and not c.inlined]
        R.ob("count", short(b) + ": asks", bool(vs), "`%s` does not ask the layers" % short(b))
        walk(R, "count", short(b), f, vs, WORD[p], 1)
        ops = {x[1] for x in arith(f)}
        R.ob("count", short(b) + ": adds", ops <= {"Add"}, "`%s` does not simply add up (%s)" % (short(b), ", ".join(sorted(ops))))
    bs = [b for b in prog.find(name="triple_count") if (b.in_trait or "").endswith("Layer")]
    for b in bs:
        f = flat(prog, b, inline=INLINE)
        R.saw(f)
        ts = f.res(f.retvar, ())
        ok = bool(ts)
        for n, op, x, y in arith(f):
            nx = {f.callof(t).name for t in f.origins(x) if t[0] == "call"}
            ny = {f.callof(t).name for t in f.origins(y) if t[0] == "call"}
            ok = ok and op == "Sub" and nx == {"triple_addition_count"} and ny == {"triple_removal_count"}
        ok = ok and len(arith(f)) == 1
        R.ob("count", short(b), ok, "the number of triples is not the additions less the removals", "%s:%d" % (b.file, b.line))
    R.floor("count", 8)


def single(R, prog):
    R.rule("single", "the single answer for a subject and predicate is an added triple that no layer above has removed")
    for b in prog.find(name="single_triple_sp"):
        if type_head(b.impl_self or "").split("::")[-1] != "InternalLayer":
            continue
        ops = {x.id for x in prog.bodies.values() if x.vis == "Public" and not x.impl_trait and (pol(x.name) or x.name == "immediate_parent")}
        f = flat(prog, b, opaque=ops, inline=lambda x, d: x.id not in ops and d < 4)
        R.saw(f)
        k, w = short(b), "%s:%d" % (b.file, b.line)
        root = 1
        acc = {p: [c for c in f.callsites if c.nid in f.reach and not c.inlined and pol(c.name) == p and role(c.name)[0]] for p in ("pos", "neg")}
        up = [c for c in f.callsites if c.nid in f.reach and c.name == "immediate_parent" and not c.inlined]
        R.ob("single", k + ": looks", bool(acc["pos"]) and bool(acc["neg"]) and bool(up), "`%s` does not look at additions and removals of the layers" % k, w)
        for c in acc["pos"] + acc["neg"] + up:
            R.ob("single", k + ": layer of " + c.name, in_chain(f, c.args[0], root), "`%s` is asked of something else than a layer of the stack" % c.name, f.loc(c.nid))
        R.ob("single", k + ": moves on", any(any(t[0] == "call" for t in f.origins(c.args[0])) for c in up), "the search does not go from parent to parent", w)
        mine = lambda o: all(t[0] == "param" and t[1] == root for t in f.origins(o))
        # additions of a parent are looked at after the removals of the layer above
        neg = {c.nid for c in acc["neg"]}
        far = {c.nid for c in acc["pos"] if not mine(c.args[0])}
        R.ob("single", k + ": looks at the parents", bool(far), "`%s` never looks at the additions of a parent" % k, w)
        for c in up:
            s = flow.explore(f, flow.result_starts(f, c, [((), "Some")]), flow.avoid_cut(neg))
            hit = [n for n in far if n in s]
            R.ob("single", k + ": removals first", not hit, "the additions of a parent are looked at without the removals above it", f.loc(hit[0]) if hit else w)
        top = {c.nid for c in acc["pos"] if mine(c.args[0])}
        s = flow.explore(f, [x for x in flow.start_states(f) if x[0] not in top], flow.avoid_cut(top))
        R.ob("single", k + ": the layer itself first", not any(n in s for n in far | neg), "the additions of the layer itself can be passed over", w)
        C = conds(f)

        def nums(p):
            return {c.nid for c in f.callsites if c.nid in f.reach and c.name == "num_at_pos" and any(t[0] == "call" and f.callof(t) in acc[p] for t in f.origins(c.args[0]))}
        pn, nn = nums("pos"), nums("neg")
        ins = [c for c in f.callsites if c.nid in f.reach and c.name in ("insert", "extend", "push") and c.args]
        put = [c for c in ins if any(t[0] == "call" and t[1] in nn for t in f.origins(c.args[-1]))]
        R.ob("single", k + ": removals kept", bool(put), "the removed objects are not kept", w)
        for c in ins:
            ts = f.origins(c.args[-1])
            R.ob("single", k + ": only removals kept", all(t[0] == "call" and t[1] in nn for t in ts), "`%s` excludes %s" % (k, tset(f, ts)), f.loc(c.nid))
        n = 0
        for t in f.res(f.retvar, ("!",)):
            n += 1
            rv = f.stmt(t) if t[0] == "agg" else None
            fl = dict(zip(rv[3] or (), rv[2])) if rv else {}
            if "object" not in fl:
                R.ob("single", k + ": answer", False, "`%s` answers with something else than a triple it has found" % k, w)
                continue
            src = f.origins(fl["object"])
            ok = bool(src) and all(x[0] == "call" and x[1] in pn for x in src)
            R.ob("single", k + ": answer", ok, "`%s` answers with %s, not with an added object" % (k, tset(f, src)), f.loc(t[1]))
            deep_ = any(not mine(f.callof(x).args[0]) and not all(mine(f.callof(y).args[0]) for y in f.origins(f.callof(x).args[0]) if y[0] == "call") for x in src if x[0] == "call")
            if deep_:
                g = [a for a in C.facts(t[1]) if a[0] == "bool" and a[2] is False and a[1][0] == "call" and f.callof(a[1]).name == "contains"]
                ok = any(f.origins(f.callof(a[1]).args[1]) <= src for a in g)
                R.ob("single", k + ": not removed", ok, "`%s` answers with an object of a parent without checking that it was not removed above" % k, f.loc(t[1]))
        R.ob("single", k + ": answers", n >= 2, "`%s` answers in %d places" % (k, n), w)
    R.floor("single", 12)


def arith(f):
    """(node, operator, a, b) of the sums and differences"""
    out = []
    for n in sorted(f.reach):
        for d, rv, ln in f.nodes[n].stmts:
            s = [x for x in rv[1:] if isinstance(x, str)]
            op = next((x for x in s if x in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "Mul", "MulWithOverflow")), None)
            if op:
                o = [x for x in rv[1:] if isinstance(x, tuple) and x and x[0] in ("p", "k")]
                if len(o) == 2:
                    out.append((n, op.replace("WithOverflow", ""), o[0], o[1]))
    return out


def p21(R, prog):
    polarity(R, prog)
    arguments(R, prog)
    restriction(R, prog)
    stacks(R, prog)
    subtract(R, prog)
    exists(R, prog)
    counts(R, prog)
    single(R, prog)
