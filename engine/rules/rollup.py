"""P12: a rollup keeps the identity, history and deltas of the layer it replaces."""
from rules.lib import *
import flow
from flow import exec_nodes, explore, result_starts, exit_values, avoid_cut
from rules.graph import bare, all_param, is_parent_value
from rules import finish

PURE = {"name", "parent_name", "read_parent_file", "read_rollup_file", "safe_upto_bound", "layer_has_parent", "layer_has_rollup",
        "get_layer_parent_name", "layer_parent", "name_to_string", "immediate_parent"}
GROW = ("push", "push_back", "push_front", "insert")
PERFORM = {"rollup": "perform_rollup", "rollup_upto": "perform_rollup_upto", "imprecise_rollup_upto": "perform_imprecise_rollup_upto"}


# ---- values kept in local collections -----------------------------------------
def contents(f, nid, rest):
    """origins of what is put into the collection created by call nid"""
    out = set()
    me = ("call", nid, ())
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or not c.args:
            continue
        ts = f.origins(c.args[0]) if c.args[0][0] == "p" else set()
        if me not in ts:
            continue
        for t in ts:
            if t[0] == "part":
                for dp, kind, payload, n in f.defs[t[1]]:
                    if n == t[2] and kind == "rv" and payload[0] == "agg":
                        for o in payload[2]:
                            out |= proj(f, o, rest)
        if c.name in GROW:
            out |= proj(f, c.args[-1], rest)
    for d, rv in element_writes(f):
        if ("call", nid, ("[]",)) in f.origins(("p", d, (), False)):
            if rv[0] == "use":
                out |= proj(f, rv[1], rest)
            else:
                i = rest[0] if rest else None
                if i is None or i.isdigit() and int(i) < len(rv[2]):
                    for o in rv[2] if i is None else [rv[2][int(i)]]:
                        out |= proj(f, o, rest[1:])
    return out


def element_writes(f):
    """assignments through a `&mut` to a whole value: [(variable, right side)]"""
    if not hasattr(f, "_element_writes"):
        f._element_writes = []
        for nid in f.reach:
            for d, rv, line in f.nodes[nid].stmts:
                if d[1] or not f.vtype[d[0]].startswith("&") or "mut" not in f.vtype[d[0]][:40]:
                    continue
                if rv[0] == "agg" and rv[1][0] == "tuple" or rv[0] == "use" and (rv[1][0] == "k" or not f.vtype[rv[1][1]].startswith("&") and not rv[1][2]):
                    f._element_writes.append((d[0], rv))
    return f._element_writes


def proj(f, op, rest):
    if op[0] == "p":
        return set(f.res(op[1], op[2] + tuple(rest)))
    return set() if rest else set(f.origins(op))


def sources(f, ts):
    """origin terms with elements of local collections replaced by what was put in"""
    out = set()
    seen = set()
    work = list(ts)
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] == "call" and t[2] and t[2][0].startswith("["):
            c = f.callof(t)
            if c.path.startswith(("std::", "alloc::", "core::", "<std", "<alloc")) and c.name in ("new", "new_uninit", "with_capacity", "from", "into_vec", "default"):
                work.extend(contents(f, t[1], t[2][1:]))
                continue
        out.add(t)
    return out


# ---- canonical values ----------------------------------------------------------
def canon(f, ts, depth=5):
    out = set()
    for t in sources(f, bare(ts)):
        out |= canon1(f, t, depth)
    return frozenset(out)


def canon1(f, t, depth):
    if t[0] == "param":
        return {("in", t[1], t[2])}
    if t[0] == "call":
        c = f.callof(t)
        if c.name in PURE and depth > 0:
            args = c.args[1:] if c.name not in ("name", "parent_name", "immediate_parent", "name_to_string") else c.args
            return {(c.name, t[2]) + tuple(canon(f, f.origins(a), depth - 1) for a in args)}
        return {("call", t[1], t[2])}
    if t[0] == "agg":
        v = variant_of(f, t)
        rv = f.stmt(t)
        if v == "Some":
            return {("Some", canon(f, f.origins(rv[2][0]), depth - 1))}
        if v is not None:
            return {(v,)}
        return {("agg", t[1], t[2], t[3])}
    return {t}


def one(*x):
    return frozenset(x)


LAYER = one(("in", 2, ()))
NAME = one(("name", (), LAYER))


def eqs(f, n):
    """pairs of canonical values known (un)equal at node n: {(a, b, truth)}"""
    out = []
    for a in conds(f).facts(n):
        if a[0] == "eq":
            out.append((canon(f, f.origins(a[1])), canon(f, f.origins(a[2])), a[3]))
    return out


def opaque(prog):
    return finish.layer_opaque(prog) | {b.id for n in ("name", "parent_name", "immediate_parent") for b in prog.find(name=n) if type_head(b.impl_self or "") in ("InternalLayer",)} \
        | {b.id for n in ("load_from_files", "from_base_layer", "from_child_layer", "name_to_string", "layer_parent", "get_layer_parent_name", "layer_changes_upto",
                          "layer_changes", "from_layer_stack", "immediate_layers_upto", "immediate_layers", "layer_stack_size") for b in prog.find(name=n)}


def p12(R, prog):
    R.rule("registered", "a rollup is recorded for exactly the layer it was made from, after it was made, and every successful rollup records it")
    R.rule("link", "recording a rollup or a parent writes the second name into the file of the first; reading and testing use the same file; only a link of a layer to itself is left out")
    R.rule("made", "the parent recorded for a partial rollup is the boundary its content is computed up to, its content goes into its own files, "
           "and an existing rollup is reused only after its base was compared with the requested one")
    R.rule("content", "what is read from memory ends at the boundary reachable there, what is read from disk goes on from that boundary to the requested one")
    R.rule("loaded", "a layer loaded through a rollup carries the original name and the original parent, its content is that of the rollup's own files, and it is never returned without that identity")
    R.rule("identity", "name and parent of a rollup layer are the original ones, everything else is answered by the rolled up layer")
    R.rule("deltas", "additions, removals and names along the stored history never consult a rollup")
    R.floor("registered", 12)
    R.floor("link", 12)
    R.floor("made", 20)
    R.floor("content", 12)
    R.floor("loaded", 14)
    R.floor("identity", 15)
    R.floor("deltas", 15)
    ops = opaque(prog)
    registered(R, prog, ops)
    link(R, prog, ops)
    made(R, prog, ops)
    content(R, prog, ops)
    loaded(R, prog, ops)
    identity(R, prog)
    deltas(R, prog)


def lw(b):
    return "%s:%d" % (b.file, b.line)


# ---------------------------------------------------------------------------
def registered(R, prog, ops):
    stop = {b.id for b in prog.bodies.values() if b.name.startswith("perform_") and "rollup" in b.name}
    stop |= {b.id for b in prog.find(name="register_rollup")}
    found = set()
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        base = b.name.replace("_with_cache", "")
        if base not in PERFORM or not (b.in_trait or b.impl_trait):
            continue
        if (b.in_trait or b.impl_trait).split("::")[-1] != "LayerStore":
            continue
        f = flat(prog, b, opaque=(ops | stop) - {b.id}, R=R)
        k = short(b)
        w = lw(b)
        perf = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name.startswith("perform_")]
        reg = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "register_rollup"]
        fw = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name.replace("_with_cache", "") == base]
        if not perf and not reg and fw:
            continue        # handed to another store as it is (P10)
        found.add(base)
        rx = [n for c in reg for n in exec_nodes(f, c)]
        R.ob("registered", k + ":made", bool(perf) and all(c.name.replace("_with_cache", "") == PERFORM[base] for c in perf), "makes the rollup with %s" % sorted({c.name for c in perf}), w)
        pn = {c.nid for c in perf}
        for c in perf:
            R.ob("registered", k + ":self", canon(f, f.origins(c.args[0])) == one(("in", 1, ())), "asks %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
            R.ob("registered", k + ":layer", canon(f, f.origins(c.args[1])) == LAYER, "rolls up %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
            if "upto" in base:
                R.ob("registered", k + ":upto", canon(f, f.origins(c.args[2])) == one(("in", 3, ())), "rolls up to %s" % tset(f, f.origins(c.args[2])), f.loc(c.nid))
            s = explore(f, result_starts(f, c, [((), "Ok")]), avoid_cut(rx))
            v = {x for x in exit_values(f, s) if x[0] != "Err"}
            R.ob("registered", k + ":recorded", not v and bool(rx), "a rollup that was made may be left unrecorded", f.loc(c.nid))
            s = explore(f, result_starts(f, c, [((), "Err")]))
            R.ob("registered", k + ":failed", not any(n in s for n in rx), "a rollup that failed may be recorded", f.loc(c.nid))
        for c in reg:
            R.ob("registered", k + ":store", canon(f, f.origins(c.args[0])) == one(("in", 1, ())), "recorded in %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
            R.ob("registered", k + ":which", canon(f, f.origins(c.args[1])) == NAME, "recorded for %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
            R.ob("registered", k + ":what", canon(f, f.origins(c.args[2])) <= {("call", n, ("!",)) for n in pn} and bool(bare(f.origins(c.args[2]))),
                 "records %s" % tset(f, f.origins(c.args[2])), f.loc(c.nid))
        r = canon(f, f.res(f.retvar, ("!",)))
        R.ob("registered", k + ":result", bool(r) and r <= {("call", n, ("!",)) for n in pn}, "returns %s" % tset(f, f.res(f.retvar, ("!",))), w)
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        base = b.name.replace("_with_cache", "")
        if base not in PERFORM.values() or (b.in_trait or b.impl_trait or "").split("::")[-1] != "LayerStore":
            continue
        f = flat(prog, b, opaque=(ops | stop) - {b.id}, R=R)
        cs = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name.replace("_with_cache", "") in PERFORM.values()]
        for c in cs:
            R.ob("registered", short(b) + ":same", c.name.replace("_with_cache", "") == base, "is carried out as %s" % c.name, f.loc(c.nid))
    for b in PERFORM:
        R.ob("registered", b + ":present", b in found, "no operation makes and records `%s`" % b)


# ---------------------------------------------------------------------------
def file_arg(f, c):
    """(canonical layer, constant term(s) naming the file) of get_file/file_exists"""
    return canon(f, f.origins(c.args[1])), frozenset(f.origins(c.args[2]))


def link(R, prog, ops):
    kinds = {}
    for n in ("write_rollup_file", "read_rollup_file", "layer_has_rollup", "write_parent_file", "read_parent_file", "layer_has_parent"):
        for b in prog.find(name=n):
            if (b.in_trait or b.impl_trait or "").split("::")[-1] != "PersistentLayerStore":
                continue
            f = flat(prog, b, opaque=(ops - {b.id}) | {x.id for x in prog.find(name="layer_parent")}, R=R)
            cs = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("get_file", "file_exists")]
            k = short(b)
            if not cs:
                continue
            for c in cs:
                l, fl = file_arg(f, c)
                R.ob("link", k + ":layer", l == one(("in", 2, ())), "opens the file of %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
                kinds.setdefault(n.split("_")[1] if n.startswith(("write", "read")) else n.split("_")[-1], {}).setdefault(tuple(sorted(map(str, fl))), []).append((k, f.loc(c.nid)))
                if n.startswith("write"):
                    R.ob("link", k + ":kind", c.name == "get_file", "", f.loc(c.nid))
            if n.startswith("write"):
                fx = flow.filefx(f)
                ws = fx.writes if hasattr(fx, "writes") else fx["writes"]
                data = set()
                for c in f.callsites:
                    if c.nid in f.reach and not c.inlined and c.name == "write_all":
                        lv = f.leaves(c.args[1], depth=12, stop=lambda c: c is not None and c.name == "name_to_string")
                        ns = [t for t in lv if t[0] == "call" and f.callof(t).name == "name_to_string"]
                        data |= {x for t in ns for x in canon(f, f.origins(f.callof(t).args[0]))}
                        R.ob("link", k + ":named", bool(ns), "the file does not get a layer's name", f.loc(c.nid))
                R.ob("link", k + ":target", data == {("in", 3, ())}, "writes the name of %s" % sorted(data, key=str), lw(b))
    for b in prog.find(name="set_rollup"):
        if (b.in_trait or b.impl_trait or "").split("::")[-1] != "ArchiveMetadataBackend":
            continue
        f = flat(prog, b, opaque=ops - {b.id}, R=R)
        fx = flow.filefx(f)
        for c in [x[0] for x in fx.writes if x[2] == "write"]:
            ps = {t[1] for t in f.leaves(c.args[1], depth=12) if t[0] == "param"}
            R.ob("link", "%s:what" % short(b), ps == {3}, "what is recorded does not come from the name of the rollup alone", f.loc(c.nid))
    for n, d in kinds.items():
        R.ob("link", n + ":same-file", len(d) == 1, "different files are used: %s" % sorted(d))
    ks = [set(d) for d in kinds.values()]
    R.ob("link", "distinct", len(ks) == 2 and not (ks[0] & ks[1]), "parent and rollup share a file")
    regs = [b for b in prog.find(name="register_rollup") if b.impl_trait and type_head(b.impl_self) != "CachedLayerStore"]
    R.ob("link", "register:present", bool(regs), "nothing records a rollup")
    for b in regs:
        f = flat(prog, b, opaque=ops - {b.id}, R=R)
        k = short(b)
        ws = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "write_rollup_file"]
        R.ob("link", k + ":writes", bool(ws), "records nothing", lw(b))
        for c in ws:
            R.ob("link", k + ":args", canon(f, f.origins(c.args[0])) == one(("in", 1, ())) and canon(f, f.origins(c.args[1])) == LAYER and canon(f, f.origins(c.args[2])) == one(("in", 3, ())),
                 "records %s for %s" % (tset(f, f.origins(c.args[2])), tset(f, f.origins(c.args[1]))), f.loc(c.nid))
        both = (LAYER, one(("in", 3, ())))
        same = flow.edges_where(f, lambda a: a[0] == "eq" and a[3] is True and (canon(f, f.origins(a[1])), canon(f, f.origins(a[2]))) in (both, both[::-1]))
        wx = {n for c in ws for n in exec_nodes(f, c)}
        s = flow.explore_from_start(f, lambda n, l, x: (n, l) in same or n in wx)
        v = {x for x in exit_values(f, s) if x[0] != "Err"}
        R.ob("link", k + ":always", not v, "success without recording although the names differ", lw(b))


# ---------------------------------------------------------------------------
def made(R, prog, ops):
    for name, how in (("perform_rollup", "delta_rollup"), ("perform_rollup_upto", "delta_rollup_upto"), ("perform_imprecise_rollup_upto", "imprecise_delta_rollup_upto")):
        bs = [b for b in prog.bodies.values() if b.name.replace("_with_cache", "") == name and b.impl_trait and b.impl_trait.split("::")[-1] == "LayerStore" and type_head(b.impl_self) != "CachedLayerStore"]
        got = False
        for b in sorted(bs, key=lambda b: b.id):
            f = flat(prog, b, opaque=ops - {b.id}, R=R)
            live = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
            ds = [c for c in live if c.name in ("delta_rollup", "delta_rollup_upto", "imprecise_delta_rollup_upto")]
            if not ds:
                continue
            got = True
            made_one(R, f, b, name, how, live, ds)
        R.ob("made", name + ":present", got, "`%s` computes nothing" % name)


def guarded(R, f, live, rule, k):
    """a parent link is read only of a layer known to have one"""
    for c in live:
        if c.name == "read_parent_file":
            v = canon(f, f.origins(c.args[1]), 3)
            raw = f.origins(c.args[1])

            def asked(a):
                if a[0] != "bool" or a[2] is not True or a[1][0] != "call":
                    return False
                d = f.callof(a[1])
                return d.name == "layer_has_parent" and (f.origins(d.args[1]) == raw or canon(f, f.origins(d.args[1]), 3) == v)
            ok = must_pass(f, c.nid, asked)
            R.ob(rule, k + ":has-parent-link", ok, "reads the parent link of a layer that may have none", f.loc(c.nid))


def made_one(R, f, b, name, how, live, ds):
    k = short(b)
    w = lw(b)
    full = name == "perform_rollup"
    UPTO = one(("in", 3, ()))
    BOUND = one(("safe_upto_bound", ("!",), LAYER, UPTO))
    R.ob("made", k + ":how", all(c.name == how for c in ds), "content made by %s" % sorted({c.name for c in ds}), w)
    guarded(R, f, live, "made", k)
    li = 0 if full else 1
    limits = set()
    for c in ds:
        R.ob("made", k + ":layer", canon(f, f.origins(c.args[li])) == LAYER, "content of %s" % tset(f, f.origins(c.args[li])), f.loc(c.nid))
        if not full:
            u = canon(f, f.origins(c.args[2]))
            limits.add(u)
            R.ob("made", k + ":upto", u == UPTO or name.startswith("perform_imprecise") and u == BOUND, "content up to %s" % tset(f, f.origins(c.args[2])), f.loc(c.nid))
    fi = 1 if full else 3
    dirs = set()
    for c in ds:
        fs = {f.callof(t).nid for t in bare(f.origins(c.args[fi])) if t[0] == "call"}
        src = [x for x in live if x.nid in fs]
        ok = bool(src) and all(x.name == ("base_layer_files" if full else "child_layer_files") for x in src)
        for x in src:
            d = bare(f.origins(x.args[1]))
            ok = ok and bool(d) and all(t[0] == "call" and f.callof(t).name == "create_directory" for t in d)
            dirs |= {t[1] for t in d if t[0] == "call"}
        R.ob("made", k + ":files", ok, "content goes to %s" % tset(f, f.origins(c.args[fi])), f.loc(c.nid))
    R.ob("made", k + ":one-dir", len(dirs) == 1, "content goes to %d new layers" % len(dirs), w)
    par = [c for c in live if c.name == "write_parent_file"]
    dcan = frozenset(("call", d, ("!",)) for d in dirs)
    for c in par:
        R.ob("made", k + ":parent-of", canon(f, f.origins(c.args[1])) == dcan, "the parent of %s is recorded" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        R.ob("made", k + ":parent", canon(f, f.origins(c.args[2])) in limits, "the parent recorded is %s, the content ends at another boundary" % tset(f, f.origins(c.args[2])), f.loc(c.nid))
    if full:
        R.ob("made", k + ":no-parent", not par, "a full rollup gets a parent", w)
    else:
        px = {n for c in par for n in exec_nodes(f, c)}
        bound = canon_limits(limits)
        if name.startswith("perform_imprecise") and bound == UPTO:
            # the boundary is replaced inside: then it has to be the recorded one
            R.ob("made", k + ":bound", False, "the content may end at a boundary other than the recorded parent", w)
        else:
            R.ob("made", k + ":bound", True, "", w)
        dx = {n for c in ds for n in exec_nodes(f, c)}
        r = f.from_start(avoid=px)
        fin = success_nodes(f)
        made_dirs = {n for kk, n, t in fin if kk == "ok" and n in r and n in f.after_all(dx)} if hasattr(f, "after_all") else {n for kk, n, t in fin if n in r and any(n in f.after(x) for x in dx)}
        R.ob("made", k + ":has-parent", bool(par) and not made_dirs, "a partial rollup may end up without its parent recorded", w)
    # results
    dx = {n for c in ds for n in exec_nodes(f, c)}
    rolled = frozenset({("read_rollup_file", ("!",), NAME)})
    for kind, n, t in returns(f):
        if kind in ("err", "none"):
            continue
        rv = f.stmt(t) if t[0] == "agg" else None
        v = canon(f, f.origins(rv[2][0])) if rv and kind == "ok" else frozenset()
        es = [] if n is None else eqs(f, n)
        facts = [] if n is None else conds(f).facts(n)
        for x in v:
            key = {"name": "itself", "read_rollup_file": "reused", "call": "new"}.get(x[0], x[0])
            if one(x) == dcan:
                r = f.from_start(avoid=dx)
                R.ob("made", k + ":" + key, n not in r, "a new rollup is returned before its content was written", f.loc(n))
            elif one(x) == NAME:
                ok = itself_ok(f, n, full, UPTO, BOUND)
                R.ob("made", k + ":" + key, ok, "the layer itself is returned although there is something to roll up", f.loc(n))
            elif one(x) == rolled:
                base = one(("layer_has_parent", ("!",), rolled))
                if full:
                    ok = must_pass(f, n, lambda a: a[0] == "bool" and a[2] is False and canon(f, [a[1]]) == base) \
                        or must_pass(f, n, lambda a: a[0] == "variant" and set(a[2]) == {"None"} and canon(f, [a[1]]) == one(("get_layer_parent_name", ("!",), rolled)))
                else:
                    ok = must_pass(f, n, lambda a: iseq(f, a, [UPTO, BOUND], [one(("read_parent_file", ("!",), rolled)), one(("get_layer_parent_name", ("!", "!"), rolled))]) or
                                   iseq(f, a, [one(("Some", UPTO))], [one(("get_layer_parent_name", ("!",), rolled))]))
                R.ob("made", k + ":" + key, ok, "an existing rollup is reused without having been compared with the requested one", f.loc(n))
            else:
                R.ob("made", k + ":" + key, False, "returns %s" % (x,), f.loc(n) if n is not None else w)


def canon_limits(l):
    return next(iter(l)) if len(l) == 1 else None


def must_pass(f, n, pred):
    es = flow.edges_where(f, pred)
    return bool(es) and n not in f.from_start(avoid_edges=es)


def iseq(f, a, xs, ys):
    if a[0] != "eq" or a[3] is not True:
        return False
    p, q = canon(f, f.origins(a[1])), canon(f, f.origins(a[2]))
    return p in xs and q in ys or q in xs and p in ys


def itself_ok(f, n, full, UPTO, BOUND):
    P = one(("parent_name", (), LAYER))
    if full:
        return must_pass(f, n, lambda a: a[0] == "variant" and set(a[2]) == {"None"} and canon(f, [a[1]]) == P
                         or a[0] == "bool" and a[1][0] == "call" and is_none_test(f, a, P))

    def some(x):
        return one(("Some", x))

    def ok(a):
        return iseq(f, a, [NAME], [UPTO, BOUND]) or iseq(f, a, [P], [some(UPTO), some(BOUND)]) or iseq(f, a, [one(("parent_name", ("!",), LAYER))], [UPTO, BOUND])
    return must_pass(f, n, ok)


def is_none_test(f, a, P):
    c = f.callof(a[1])
    return c.name in ("is_none", "is_some") and a[2] is (c.name == "is_none") and canon(f, f.origins(c.args[0])) == P


# ---------------------------------------------------------------------------
MEM = ("from_layer_stack", "immediate_layers_upto")


def content(R, prog, ops):
    stop = ops - {b.id for n in ("delta_rollup", "delta_rollup_upto", "imprecise_delta_rollup_upto") for b in prog.find(name=n)}
    for name in ("delta_rollup_upto", "imprecise_delta_rollup_upto"):
        b = prog.free(name) if hasattr(prog, "free") else prog.find(name=name)[0]
        f = flat(prog, b, opaque=stop, R=R)
        LAY = one(("in", 2, ()))
        UPTO = one(("in", 3, ()))
        BOUND = one(("safe_upto_bound", ("!",), LAY, UPTO))
        live = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
        mem = [c for c in live if c.name in MEM]
        mb = set()
        for c in mem:
            R.ob("content", name + ":" + c.name + ":layer", canon(f, f.origins(c.args[0])) == LAY, "walks %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
            v = canon(f, f.origins(c.args[1]))
            mb.add(v)
            R.ob("content", name + ":" + c.name, v == BOUND, "what is in memory is read up to %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        R.ob("content", name + ":memory", bool(mem), "nothing is read from memory", lw(b))
        R.ob("content", name + ":whole", not [c for c in live if c.name in ("immediate_layers", "layer_changes")], "the boundary is ignored", lw(b))
        walks = [c for c in live if c.name in ("layer_changes_upto", "get_layer_parent_name", "retrieve_layer_stack_names_upto")]
        if name == "delta_rollup_upto":
            R.ob("content", name + ":disk-changes", any(c.name == "layer_changes_upto" for c in walks), "changes below the boundary in memory are not read", lw(b))
        for c in walks:
            if c.name == "layer_changes_upto":
                R.ob("content", name + ":" + c.name, canon(f, f.origins(c.args[1])) == BOUND and canon(f, f.origins(c.args[2])) == UPTO,
                     "changes from %s to %s" % (tset(f, f.origins(c.args[1])), tset(f, f.origins(c.args[2]))), f.loc(c.nid))
            elif c.name == "get_layer_parent_name":
                v = canon(f, f.origins(c.args[1]))
                R.ob("content", name + ":disk-walk", BOUND <= v and all(x in BOUND or x[0] in ("get_layer_parent_name", "call") for x in v),
                     "the walk over stored layers goes over %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        # every walk over stored layers ends at the requested boundary only
        if name == "delta_rollup_upto":
            for c in live:
                if c.name in ("get_node_dictionary", "get_predicate_dictionary", "get_value_dictionary", "get_node_value_idmap", "get_predicate_idmap"):
                    v = canon(f, f.origins(c.args[1]))
                    R.ob("content", name + ":" + c.name, BOUND <= v and all(x in BOUND or x[0] == "get_layer_parent_name" and x[1] == ("!", "!") for x in v), "reads %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
                    stops = [a for a in eqs(f, c.nid) if a[2] is False and (UPTO in a[:2])]
                    R.ob("content", name + ":" + c.name + ":end", bool(stops), "reads on beyond the requested boundary", f.loc(c.nid))
        else:
            R.ob("content", name + ":memory-only", not walks, "an imprecise rollup reads stored layers", lw(b))


# ---------------------------------------------------------------------------
def loaded(R, prog, ops):
    bs = [b for b in prog.find(name="get_layer_with_cache") if b.impl_trait and type_head(b.impl_self) != "CachedLayerStore"]
    R.ob("loaded", "present", bool(bs), "no implementation of get_layer_with_cache")
    for b in sorted(bs, key=lambda b: b.id):
        f = flat(prog, b, opaque=ops - {b.id}, R=R)
        live = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
        rd = {c.nid for c in live if c.name == "read_rollup_file"}
        pr = {c.nid for c in live if c.name in ("read_parent_file", "get_layer_parent_name")}
        w = lw(b)

        def src(ts):
            out = set()
            for t in sources(f, bare(ts)):
                if t[0] == "agg" and not t[3] and f.stmt(t)[1][0] == "adt" and f.stmt(t)[1][1].split("::")[-1] == "InternalLayer":
                    out |= src(f.origins(f.stmt(t)[2][0]))
                else:
                    out.add(t)
            return out

        def orig(ts):
            ts = src(ts)
            return bool(ts) and all(t[0] == "param" and t[1] == 2 and t[2] == () or t[0] == "call" and t[1] in pr and is_parent_value(f, t) for t in ts)

        def rolled(ts):
            ts = src(ts)
            return bool(ts) and all(t[0] == "call" and t[1] in rd and t[2] == ("!",) for t in ts)
        guarded(R, f, live, "loaded", short(b))
        made_ = [c for c in live if c.name in ("from_base_layer", "from_child_layer")]
        R.ob("loaded", "wraps", any(c.name == "from_base_layer" for c in made_) and any(c.name == "from_child_layer" for c in made_), "rollups are never given their original identity", w)
        R.ob("loaded", "follows", bool(rd), "a layer's rollup is never read", w)
        loads = [c for c in live if c.name == "load_from_files"]
        ln = {c.nid: c for c in loads}
        hit = {c.nid for c in live if c.name == "get_layer_from_cache"}
        rload, oload = set(), set()
        for c in loads:
            kind = "rollup" if rolled(f.origins(c.args[0])) else "layer" if orig(f.origins(c.args[0])) else None
            R.ob("loaded", "load-name", kind is not None, "loads %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
            (rload if kind == "rollup" else oload).add(c.nid)
            base = c.args[-1]
            fl = src(f.origins(base))
            ok = bool(fl)
            for t in fl:
                x = f.callof(t) if t[0] == "call" else None
                ok = ok and x is not None and x.name in ("base_layer_files", "child_layer_files") and t[2] == ("!",) \
                    and f.origins(x.args[1]) == f.origins(c.args[0]) \
                    and x.name == ("base_layer_files" if len(c.args) == 2 else "child_layer_files")
            R.ob("loaded", "own-files", ok, "%s is loaded from %s" % (tset(f, f.origins(c.args[0])), tset(f, f.origins(base))), f.loc(c.nid))
        R.ob("loaded", "rollup-files", bool(rload), "the files of a rollup are never loaded", w)
        R.ob("loaded", "layer-files", bool(oload), "the files of a layer are never loaded", w)
        for c in made_:
            inner = src(f.origins(c.args[0]))
            ok = bool(inner) and all(t[0] == "call" and (t[1] in rload or t[1] in hit) for t in inner)
            R.ob("loaded", "inner", ok, "wraps %s" % tset(f, inner), f.loc(c.nid))
            for t in inner:
                if t[0] == "call" and t[1] in hit:
                    ks = src(f.origins(f.callof(t).args[1]))
                    R.ob("loaded", "inner-cached", any(x[0] == "call" and x[1] in rd for x in ks), "wraps the cached layer %s" % tset(f, ks), f.loc(c.nid))
            R.ob("loaded", "original", orig(f.origins(c.args[1])), "gets the name %s" % tset(f, src(f.origins(c.args[1]))), f.loc(c.nid))
            # the original parent
            op = c.args[2]
            ps = set()
            for t in src(f.origins(op)):
                v = variant_of(f, t)
                if v == "Some":
                    ps |= src(f.origins(f.stmt(t)[2][0]))
                elif v == "None":
                    continue
                else:
                    ps.add(t)
            ok = bool(ps) and all(t[0] == "call" and t[1] in pr and is_parent_value(f, (t[0], t[1], t[2])) or
                                  t[0] == "call" and f.callof(t).name == "get_layer_parent_name" and t[2] == ("!",) for t in ps)
            R.ob("loaded", "parent", ok, "gets the parent %s" % tset(f, ps), f.loc(c.nid))
            for t in ps:
                if t[0] == "call" and t[1] in pr:
                    of_original(R, f, f.callof(t), rd)
        # what is returned or stacked upon
        rets = src(f.res(f.retvar, ("!", "!")))
        made_n = {c.nid for c in made_}
        ok = bool(rets) and all(t[0] == "call" and (t[1] in made_n or t[1] in oload or t[1] in hit) for t in rets)
        R.ob("loaded", "result", ok, "returns %s" % tset(f, rets), w)
        for c in loads:
            if len(c.args) > 2:
                ts = src(f.origins(c.args[1]))
                ok = bool(ts) and all(t[0] == "call" and (t[1] in made_n or t[1] in oload or t[1] in hit) for t in ts)
                R.ob("loaded", "stacked-on", ok, "a layer is stacked on %s" % tset(f, ts), f.loc(c.nid))
        bare_hits(R, f, rets | {t for c in loads if len(c.args) > 2 for t in src(f.origins(c.args[1]))}, hit, rd, w)


def tests_slot(f, a, rd, want):
    """the atom tests whether the layer at hand is reached through a rollup"""
    if a[0] != "variant" or set(a[2]) != {want}:
        return False
    t = a[1]
    if t[0] == "call" and t[2] and t[2][0].startswith("["):
        # an element of the list of layers still to be loaded: its Some side holds what the rollup link says
        s = contents(f, t[1], t[2][1:])
        s = [x for x in sources(f, s)]
        return any(variant_of(f, x) == "Some" and any(y[0] == "call" and y[1] in rd for y in f.leaves(x, depth=4)) for x in s)
    if variant_of(f, t) is None and t[0] == "agg":
        return False
    return any(y[0] == "call" and y[1] in rd for y in sources(f, [t[:2] + (t[2] + ("!",),)] if t[0] == "call" else [t]))


def of_original(R, f, c, rd):
    """the parent recorded for the rollup is asked of the layer, not of a rollup"""
    arg = sources(f, bare(f.origins(c.args[1])))
    if not any(t[0] == "call" and t[1] in rd for t in arg):
        R.ob("loaded", "parent-of", True, "", f.loc(c.nid))
        return
    ok = must_pass(f, c.nid, lambda a: tests_slot(f, a, rd, "None"))
    ok = ok and not all(t[0] == "call" and t[1] in rd for t in bare(f.origins(c.args[1])))
    R.ob("loaded", "parent-of", ok, "the original parent may be that of a rollup", f.loc(c.nid))


def bare_hits(R, f, used, hit, rd, w):
    """a cached layer found under a rollup's name is never used as it is"""
    for h in sorted(hit):
        c = f.nodes[h].call
        ks = sources(f, bare(f.origins(c.args[1])))
        if not any(t[0] == "call" and t[1] in rd for t in ks):
            continue
        # assignments of the bare hit
        s = flow.edges_where(f, lambda a: tests_slot(f, a, rd, "None"))
        uses = hit_uses(f, h)
        bad = [n for n in uses if n in f.from_start(avoid_edges=s)]
        R.ob("loaded", "bare-cached", not bad and bool(s) or not uses, "a cached rollup may be used without its original identity", f.loc(bad[0]) if bad else w)


def hit_uses(f, h):
    """nodes at which the found layer is wrapped into an Option or moved on as it is"""
    out = []
    for nid in f.reach:
        for i, (d, rv, line) in enumerate(f.nodes[nid].stmts):
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] == "Some" and rv[2]:
                ts = bare(f.origins(rv[2][0]))
                if ("call", h, ("!",)) in ts and len(ts) == 1:
                    out.append(nid)
    return out


# ---------------------------------------------------------------------------
def identity(R, prog):
    ids = {b.id for b in prog.find(impl_self="InternalLayer") if not b.impl_trait}
    seen = 0
    for b in sorted(prog.find(impl_self="InternalLayer"), key=lambda b: b.name):
        if b.impl_trait or b.kind != "AssocFn" or b.argc != 1:
            continue
        f = flat(prog, b, opaque=ids - {b.id}, depth=2, R=R)
        rn = [(n, l) for n, l in flow.edges_where(f, lambda a: a[0] == "variant" and a[1][0] == "param" and set(a[2]) == {"Rollup"})]
        allv = f.res(f.retvar, ())
        ps = [t for t in allv if t[0] == "param" and "Rollup.0" in t[2]]
        if not rn and not ps and not any(t[0] == "call" and any("Rollup" in "".join(x[2]) for x in f.origins(f.callof(t).args[0]) if x[0] == "param") for t in allv if t[0] == "call" and f.callof(t).args):
            continue
        seen += 1
        k = b.name
        w = lw(b)
        if b.name == "name":
            R.ob("identity", "name", [t[2] for t in ps] == [("Rollup.0", "original")] and not calls_on_inner(f, allv), "a rollup's name is %s" % tset(f, allv), w)
        elif b.name == "parent_name":
            R.ob("identity", "parent_name", [t[2] for t in ps] == [("Rollup.0", "original_parent")] and not calls_on_inner(f, allv), "a rollup's parent is %s" % tset(f, allv), w)
        elif b.name == "is_rollup":
            pass
        else:
            ok = not ps
            cs = calls_on_inner(f, allv)
            ok = ok and bool(cs) and all(c.name == b.name for c in cs)
            R.ob("identity", k, ok, "for a rollup answers %s" % tset(f, allv), w)
    for nm in ("name", "parent_name"):
        R.ob("identity", nm + ":present", any(b.name == nm for b in prog.find(impl_self="InternalLayer") if not b.impl_trait), "", "")
    for n, extra in (("from_base_layer", None), ("from_child_layer", None)):
        b = prog.inherent("RollupLayer", n)
        f = flat(prog, b, R=R)
        for fld, i in (("internal", 1), ("original", 2), ("original_parent", 3)):
            ts = set(f.res(f.retvar, (fld,)))
            vs = set()
            for t in ts:
                if variant_of(f, t) == "Some":
                    vs |= f.origins(f.stmt(t)[2][0])
                else:
                    vs.add(t)
            R.ob("identity", n + ":" + fld, vs == {("param", i, ())}, "%s is %s" % (fld, tset(f, ts)), lw(b))


def calls_on_inner(f, ts):
    out = []
    for t in ts:
        if t[0] == "call" and t[2] == ():
            c = f.callof(t)
            if c.args and all(x[0] == "param" and x[1] == 1 and x[2] == ("Rollup.0", "internal") for x in bare(f.origins(c.args[0]))):
                out.append(c)
    return out


# ---------------------------------------------------------------------------
DELTA = ("triple_addition", "triple_removal", "triple_layer_addition", "triple_layer_removal", "get_node_dictionary", "get_predicate_dictionary", "get_value_dictionary",
         "get_node_count", "get_predicate_count", "get_value_count", "get_node_value_idmap", "get_predicate_idmap", "get_layer_parent_name", "layer_is_ancestor_of",
         "retrieve_layer_stack_names", "retrieve_layer_stack_names_upto", "layer_changes", "layer_changes_upto", "finalize_layer")


def deltas(R, prog):
    bad = {b.id: b.name for n in ("layer_has_rollup", "read_rollup_file", "get_layer_with_cache", "get_layer", "get_rollup") for b in prog.find(name=n)}
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if not b.name.startswith(DELTA) or b.kind != "AssocFn":
            continue
        if (b.impl_trait or b.in_trait or "").split("::")[-1] != "LayerStore" or type_head(b.impl_self or "") == "CachedLayerStore":
            continue
        f = flat(prog, b, opaque=set(bad), R=R)
        cs = [c for c in f.callsites if c.nid in f.reach and (c.name in bad.values())]
        R.ob("deltas", short(b), not cs, "asks for %s" % sorted({c.name for c in cs}), f.loc(cs[0].nid) if cs else lw(b))
