"""P06: what was started is finished, made durable and finalised before success."""
from rules.lib import *
from rules import graph, durable
from rules.errors import opaque_set
import flow
from symval import sym, segs, TOP
from rules import labels as lb
from flow import exec_nodes, explore, result_starts, exit_variants, result_points, assume, avoid_cut

CTRL = {"into_future", "branch", "from_residual", "from_output", "new_unchecked", "get_context", "poll", "unwrap", "expect", "map_err", "pin",
        "into_pin", "boxed", "as_mut", "as_ref", "clone", "ok_or", "ok_or_else", "into", "from"}
LOST = {"drop", "forget", "into_inner", "is_some", "is_none", "is_ok", "is_err"}
EXT_BUILDERS = ("AdjacencyListBuilder", "LogArrayFileBuilder", "BitArrayFileBuilder", "LogArrayBufBuilder", "LateLogArrayBufBuilder",
                "BitArrayBufBuilder", "AdjacencyListBufBuilder", "StringDictBufBuilder", "TypedDictBufBuilder", "StringDictFileBuilder",
                "TypedDictFileBuilder", "SizedDictBufBuilder")


def strip_path(ty):
    """[(path to an inner value, its type)]"""
    out = [((), ty)]
    h = type_head(ty)
    if ty.startswith(("&", "*")):
        return []
    a = split_args(ty)
    if h in ("Result", "Option", "Poll") and a:
        out += [(("!",) + p, t) for p, t in strip_path(a[0])]
    elif ty.startswith("(") and a:
        for i, x in enumerate(a):
            out += [((str(i),) + p, t) for p, t in strip_path(x)]
    return out


class Owed:
    """types whose values have to be finished by whoever owns them"""

    def __init__(self, prog):
        self.prog = prog
        self.sync = {type_head(i["self"]) for i in prog.impls if i["trait"].split("::")[-1].split("<")[0].rstrip(">") == "SyncableFile"}
        self.fields = {}
        while True:
            n = len(self.fields)
            for k, a in prog.adts.items():
                if a["enum"] or len(a["variants"]) != 1:
                    continue
                h = k.split("::")[-1]
                if h in self.fields or h in self.sync:
                    continue
                fs = [x[0] for x in a["variants"][0]["fields"] if self.kind(x[1])]
                if fs:
                    self.fields[h] = fs
            if len(self.fields) == n:
                break

    def kind(self, ty):
        if ty.startswith(("&", "*")):
            return None
        if ty.endswith("FileStore>::Write"):
            return "writer"
        h = type_head(ty)
        if h in EXT_BUILDERS:
            return "builder"
        if h in self.fields:
            return "struct"
        if h in ("ExclusiveLockedFile",):
            return None
        return None

    def inner(self, ty):
        """[(path, kind)] of the owed values a value of this type carries"""
        return [(p, self.kind(t)) for p, t in strip_path(ty) if self.kind(t)]

    def expand(self, ty, pre=()):
        """paths of a value of this type that must be finished one by one"""
        k = self.kind(ty)
        if k != "struct":
            return [pre] if k else []
        a = self.prog.adts[[x for x in self.prog.adts if x.split("::")[-1] == type_head(ty)][0]]
        out = []
        for x in a["variants"][0]["fields"]:
            out += [pre + (x[0],)] if self.kind(x[1]) else []
        return out


def awaited(f):
    """[(node, operand)] of all awaits"""
    if not hasattr(f, "_awaited"):
        f._awaited = [(x, f.opnd(f.nodes[x].ctx, f.nodes[x].term[1])) for x in f.reach if f.nodes[x].kind in ("await", "enter") and f.nodes[x].term and f.nodes[x].term[0] == "await"]
    return f._awaited


def run_nodes(f, c, seen=()):
    """where the effect of a call takes place; a future handed to a spawner or
    joiner runs where the result of that is awaited"""
    n = exec_nodes(f, c)
    if c.nid in seen:
        return n
    me = lambda x: x is not None and x.nid == c.nid
    if not flow.is_future(f, c):
        return n
    # gathered with others: they run where the gathering is gone through or joined
    aw = [x for x, o in awaited(f) if any(t[:2] == ("call", c.nid) for t in f.leaves(o, muts=False, stop=me))]
    if aw:
        for d in f.callsites:
            if d.nid in f.reach and d.name in ("into_iter", "drain", "iter_mut") and d.args and d.args[0][0] == "p" and "IntoIter" in f.vtype[d.dest[0]] and \
                    any(t[:2] == ("call", c.nid) for a in d.args for t in f.leaves(a, muts=False, stop=me)):
                aw.append(d.nid)
    if n or aw:
        return list(n) + aw
    for d in f.callsites:
        if d.nid in f.reach and d.name not in CTRL and d.name not in LOST and not d.inlined:
            for a in d.args:
                if byval(f, a) and any(t[0] == "call" and t[1] == c.nid and t[2] == () for t in f.origins(a)):
                    n = n + run_nodes(f, d, seen + (c.nid,))
                elif d.name == "poll_fn" and any(t[:2] == ("call", c.nid) for t in f.leaves(a)):
                    # a join of several futures polls those it borrowed
                    n = n + run_nodes(f, d, seen + (c.nid,))
    return n


def std_agg(rv):
    return rv[1][0] == "tuple" or rv[1][0] == "adt" and rv[1][1].split("::")[-1] in ("Option", "Result", "Poll", "ControlFlow")


def carries(f, op, term, depth=4):
    """does this operand hold the term, possibly inside Ok/Some/tuples?"""
    if op[0] != "p" or depth == 0:
        return False
    for t in f.origins(op):
        if same(t, term):
            return True
        if t[0] == "agg":
            rv = f.stmt(t)
            if std_agg(rv) and any(carries(f, o, term, depth - 1) for o in rv[2]):
                return True
    return False


def same(t, term):
    """t is the term or a value that contains it"""
    if t[:2] != term[:2]:
        return False
    if t[0] == "agg":
        return t[2] == term[2]
    return t[2] == term[2][:len(t[2])]


def byval(f, a):
    return a[0] == "p" and (a[2] or not f.vtype[a[1]].startswith(("&", "*"))) and not f.vtype[a[1]].startswith("std::pin::Pin<&")


def consumers(f, term, kind, prog):
    """nodes at which the value is handed on by value"""
    out = []
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or c.name in CTRL or c.name in LOST:
            continue
        for a in c.args:
            if byval(f, a) and carries(f, a, term):
                out += run_nodes(f, c) if flow.is_future(f, c) else [c.nid]
                break
    for nid in f.reach:
        for i, (d, rv, line) in enumerate(f.nodes[nid].stmts):
            if rv[0] == "agg" and not std_agg(rv):
                if not any(byval(f, o) and carries(f, o, term) for o in rv[2]):
                    continue
                if rv[1][0] == "adt":
                    out.append(nid)
                elif not any(x.body.id == rv[1][1] for x in f.ctxs):
                    # a future or closure that is not run here: it runs where it is handed to
                    for c in f.callsites:
                        if c.nid in f.reach and c.name not in CTRL and any(t[0] == "agg" and t[1] == nid for a in c.args for t in f.origins(a)):
                            out += run_nodes(f, c) if flow.is_future(f, c) or c.name == "spawn" else [c.nid]
    for k, n, t in returns(f):
        if k == "err" or n is None:
            continue
        if same(t, term):
            out.append(n)
            if k == "call":
                out.append("returned")
        elif t[0] == "agg" and any(carries(f, o, term) for o in f.stmt(t)[2]):
            out.append(n)
    return out


def fallible_exits(f, seen):
    """the non-error ways in which the explored paths return"""
    v = {x for x in exit_variants(f, seen) if x not in ("Err",)}
    if None in v and "Result<" in (f.entry.ret or ""):
        # the variant was not tracked this far: look for a place that produces success
        v.discard(None)
        if any(n in seen or n is None for k, n, t in success_nodes(f)):
            v.add("Ok")
    return v


def finished(R, prog, rule):
    W = Owed(prog)
    ops = opaque_set(prog)
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn"):
            continue
        f = flat(prog, b, opaque=ops - {b.id})
        did = False
        key = short(b)
        # parameters taken by value
        for i in range(1, b.argc + 1):
            ty = param_type(f, b, i)
            if ty is None:
                continue
            for p, k in W.inner(ty):
                inner_ty = dict(strip_path(ty))[p]
                if b.name == "drop":
                    continue
                fields = W.expand(inner_ty, p)
                whole = ("param", i, p)
                cw = consumers(f, whole, k, prog)
                for fp in fields:
                    term = ("param", i, fp)
                    cs = cw + (consumers(f, term, k, prog) if fp != p else [])
                    did = True
                    n += 1
                    seen = flow.explore(f, [x for x in flow.start_states(f) if x[0] not in cs], avoid_cut(cs))
                    bad = fallible_exits(f, seen)
                    R.ob(rule, "%s:%s" % (key, tshow(f, term)), not bad, "success (%s) without finishing %s" % (sorted(map(str, bad)), tshow(f, term)), "%s:%d" % (b.file, b.line))
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined or c.name in CTRL or c.dest is None:
                continue
            pts = result_points(f, c)
            ty = pts[0][2] if pts else "?"
            if not pts or ty == "?" or ty.startswith("&"):
                continue
            for p, k in W.inner(ty):
                if not pts[0][0] == c.nid and p[:1] == ("!",) and type_head(ty) == "Poll":
                    p2 = p[1:]
                else:
                    p2 = p
                term = ("call", c.nid, p2)
                did = True
                n += 1
                cs = consumers(f, term, k, prog)
                facts = []
                st = []
                for nid, d, t2 in pts:
                    fs = flow.nested(t2, "Ok") or []
                    st += assume(f, nid, d, fs)
                if "returned" in cs:
                    st = []
                seen = explore(f, [x for x in st if x[0] not in cs], avoid_cut(cs))
                bad = fallible_exits(f, seen)
                R.ob(rule, "%s:%s" % (key, c.name + "@" + str(ordinal(f, c))), not bad, "success (%s) without finishing what %s started" % (sorted(map(str, bad)), c.name), f.loc(c.nid))
        if did:
            R.saw(f)
    return n


def ordinal(f, c):
    """position among the calls of the same name, in source order"""
    s = sorted({(x.line, x.nid) for x in f.callsites if x.name == c.name})
    return s.index((c.line, c.nid))


def param_type(f, b, i):
    return b.locals[i] if i < len(b.locals) else None


def futures_run(R, prog, rule):
    """a future of a storage operation, once made, has run before success"""
    ops = opaque_set(prog)
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn"):
            continue
        f = flat(prog, b, opaque=ops - {b.id})
        if f.retvar is None or b.name in ("poll", "poll_next", "poll_read", "poll_write", "drop"):
            continue
        key = short(b)
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined or c.name in CTRL or c.dest[1] or not flow.is_future(f, c):
                continue
            ty = f.vtype[c.dest[0]]
            if "Result<" not in ty or ty.startswith("&") or type_head(ty) in ("Vec", "IntoIter", "Option", "VecDeque", "Iter") or c.name in ("maybe_done", "next", "into_iter"):
                continue
            term = ("call", c.nid, ())
            rs = returns(f)
            if any(t[:2] == term[:2] for k, n, t in rs) or f.entry.ret and not f.entry.is_async and "Future" in f.entry.ret:
                continue
            rn = run_nodes(f, c)
            kept = [d.nid for d in f.callsites if d.nid in f.reach and d.name in ("push", "push_back", "insert", "extend") and any(any(t == term for t in f.origins(a)) for a in d.args)]
            st = assume(f, c.nid, c.dest, [])
            seen = explore(f, [x for x in st if x[0] not in rn + kept], avoid_cut(rn + kept))
            bad = fallible_exits(f, seen)
            R.ob(rule, "%s:%s@%d" % (key, c.name, ordinal(f, c)), not bad, "success (%s) without having run %s" % (sorted(map(str, bad)), c.name), f.loc(c.nid))


CREATE = ("create_directory", "create_named_directory", "create_child_layer_files_with_cache")
FINAL = ("finalize", "finalize_layer")


def layer_opaque(prog):
    """the vocabulary in which creating operations are read"""
    names = ("create_directory", "create_named_directory", "finalize", "finalize_layer", "write_parent_file", "write_rollup_file", "read_parent_file",
             "read_rollup_file", "layer_has_parent", "layer_has_rollup", "base_layer_files", "child_layer_files", "get_layer_with_cache", "get_layer",
             "get_file", "file_exists", "register_rollup", "open_write",
             "delta_rollup", "delta_rollup_upto", "imprecise_delta_rollup_upto", "merge_base_layers", "safe_upto_bound")
    return {b.id for n in names for b in prog.find(name=n) if b.impl_self is None or b.impl_trait or n not in ("finalize",)} | \
        {b.id for b in prog.find(name="finalize")}


def is_final(c):
    return c.name in FINAL and (c.trait or "").split("::")[-1] in ("PersistentLayerStore", "LayerStore")


def layer_ops(prog):
    """operations that may create a stored layer and return success"""
    out = []
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn"):
            continue
        tr = (b.impl_trait or "").split("::")[-1].split("<")[0]
        if tr in ("LayerStore", "Packable"):
            out.append(b)
    return out


def finalised(R, prog):
    opaque = layer_opaque(prog)
    n = 0
    for b in layer_ops(prog):
        f = flat(prog, b, opaque=opaque - {b.id})
        mk = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("create_directory", "create_named_directory") and
              (c.trait or "").endswith("PersistentLayerStore")]
        if not mk:
            continue
        R.saw(f)
        key = short(b)
        if "Box<" in (b.ret or "") and "LayerBuilder" in (b.ret or ""):
            continue   # under construction until the builder is committed
        fin = [c for c in f.callsites if c.nid in f.reach and not c.inlined and is_final(c)]
        for c in mk:
            n += 1
            names = f.origins(c.args[1]) if len(c.args) > 1 else set()

            def of(x):
                ts = graph.bare(f.origins(x.args[1]))
                return bool(ts) and all(t[0] == "call" and t[1] == c.nid or t in names for t in ts)
            mine = [x for x in fin if of(x)]
            if not mine and collected(R, f, b, key, c, fin):
                continue
            R.ob("finalised", key + ":names", bool(mine), "the layer created is never finalised", f.loc(c.nid))
            fx = runs(f, mine)
            st = result_starts(f, c, [((), "Ok")])
            bad = fallible_exits(f, explore(f, [x for x in st if x[0] not in fx], avoid_cut(fx)))
            R.ob("finalised", key + ":before", not bad, "success (%s) without finalising the layer" % sorted(map(str, bad)), f.loc(c.nid))
            for x in mine:
                bad = fallible_exits(f, flow.after_failure(f, x))
                R.ob("finalised", key + ":failed", not bad, "success although finalising failed", f.loc(x.nid))
            # nothing of the layer is written once it has been finalised
            wr = [x for x in f.callsites if x.nid in f.reach and not x.inlined and writes_layer(prog, x)]
            late = sorted({x.name for x in wr for m in fx for y in graph.execs(f, [x]) or [x.nid] if y in f.after(m) and not other_layer(f, x, c)})
            R.ob("finalised", key + ":last", not late, "%s after the layer was finalised" % late, f.loc(c.nid))
            # what is returned is the layer finalised
            if "[u32; 5]" in (b.ret or ""):
                rv = [t for t in graph.bare(f.res(f.retvar, ("!",))) if t[0] == "call" and f.callof(t).name in CREATE]
                R.ob("finalised", key + ":returned", all(t[1] == c.nid for t in rv) if len(mk) == 1 else True, "returns %s" % tset(f, rv), f.loc(c.nid))
    return n


def writes_layer(prog, c):
    """a call that writes files of a layer"""
    if c.name in ("write_parent_file", "write_rollup_file", "open_write", "delta_rollup", "delta_rollup_upto", "imprecise_delta_rollup_upto", "merge_base_layers"):
        return True
    if c.name in ("finalize", "into_phase2") and not is_final(c) and c.fn is not None:
        return "Builder" in c.path
    return False


def other_layer(f, x, c):
    """a write that names a different layer than the one call c created"""
    if x.name in ("write_parent_file", "write_rollup_file"):
        ts = graph.bare(f.origins(x.args[1]))
        return bool(ts) and not any(t[0] == "call" and t[1] == c.nid for t in ts)
    return False


def runs(f, cs):
    return [n for c in cs for n in run_nodes(f, c)]


def creation_starts(f, c):
    """states right after a layer was created by c, which may run in a blocking call"""
    out = []
    for n in run_nodes(f, c):
        d = [x for x in f.callsites if x.nid == n]
        if n == c.nid or not d:
            out += result_starts(f, c, [((), "Ok")])
        else:
            out += result_starts(f, d[0], [((), "Ok")])
    return out


def collected(R, f, b, key, c, fin):
    """created layers are gathered, and all that was gathered is finalised at the end"""
    names = f.origins(c.args[1]) if len(c.args) > 1 else {("call", c.nid, ("!",))}
    store = [x for x in f.callsites if x.nid in f.reach and not x.inlined and x.name in ("insert", "push", "push_back", "entry") and len(x.args) > 1 and f.origins(x.args[1]) == names]
    colls = {t for x in store for t in graph.bare(f.origins(x.args[0]))}
    if not colls:
        return False
    cr = run_nodes(f, c)
    R.ob("finalised", key + ":gathered", all(f.always_before(n, [x.nid for x in store]) or not fallible_exits(f, explore(f, creation_starts(f, c), avoid_cut([x.nid for x in store]))) for n in cr),
         "a layer is created without being noted for finalising", f.loc(c.nid))
    nx = [x for x in f.callsites if x.nid in f.reach and not x.inlined and x.name == "next" and any(t[0] == "call" and any(t[:2] == k[:2] for k in colls) for t in f.origins(x.args[0]))]
    mine = [x for x in fin if any(t[0] == "call" and any(t[:2] == k[:2] for k in colls) and "[]" in t[2] for t in f.origins(x.args[1]))]
    R.ob("finalised", key + ":names", bool(mine) and bool(nx), "the layers created are never finalised", f.loc(c.nid))
    if not (mine and nx):
        return True
    fx = runs(f, mine)
    ids = {x.nid for x in nx}
    done = flow.edges_where(f, lambda a: a[0] == "variant" and a[1][0] == "call" and a[1][1] in ids and set(a[2]) == {"None"})
    bad = fallible_exits(f, explore(f, creation_starts(f, c), lambda n, l, s: (n, l) in done))
    R.ob("finalised", key + ":before", not bad, "success (%s) without going through the layers created" % sorted(map(str, bad)), f.loc(c.nid))
    for x in nx:
        s = explore(f, [y for y in result_starts(f, x, [((), "Some")]) if y[0] not in fx], avoid_cut(fx))
        R.ob("finalised", key + ":each", x.nid not in s and not fallible_exits(f, s), "a layer is passed over without being finalised", f.loc(x.nid))
    for x in mine:
        for n in run_nodes(f, x):
            d = [y for y in f.callsites if y.nid == n] or [x]
            bad = fallible_exits(f, flow.after_failure(f, d[0] if n != x.nid else x))
            R.ob("finalised", key + ":failed", not bad, "success although finalising failed", f.loc(x.nid))
    wr = [x for x in f.callsites if x.nid in f.reach and not x.inlined and x.name in ("open_write", "write_parent_file", "create_named_directory")]
    late = sorted({x.name for x in wr for m in fx for y in runs(f, [x]) or [x.nid] if y in f.after(m)})
    R.ob("finalised", key + ":last", not late, "%s after a layer was finalised" % late, f.loc(c.nid))
    return True


def execs(f, cs):
    return [n for c in cs for n in exec_nodes(f, c)]


def committed(R, prog):
    """committing a builder ends in finalising the layer it built"""
    ops = layer_opaque(prog)
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or (b.impl_trait or "").split("::")[-1] == "LayerBuilder" or (b.in_trait or "").split("::")[-1] == "LayerBuilder":
            continue
        f = flat(prog, b, opaque=ops - {b.id})
        cs = [c for c in graph.lb_calls(f) if c.name in ("commit", "commit_boxed")]
        if not cs:
            continue
        R.saw(f)
        key = short(b)
        fin = [c for c in f.callsites if c.nid in f.reach and not c.inlined and is_final(c)]
        for c in cs:
            n += 1

            def of(x):
                ts = graph.bare(f.origins(x.args[1]))
                for t in ts:
                    if t[0] == "param" and t[1] == 1 and t[2] and t[2][-1] == "name":
                        continue
                    if t[0] == "call" and t[2] == () and f.callof(t).name == "name" and (f.callof(t).trait or "").endswith("LayerBuilder"):
                        mine = {(y[:2] + (y[2],)) for y in f.origins(c.args[0])}
                        if {y[:2] + (y[2],) for y in f.origins(f.callof(t).args[0])} & mine:
                            continue
                    return False
                return bool(ts)
            mine = [x for x in fin if of(x)]
            R.ob("committed", key + ":names", bool(mine), "what is committed is not finalised under its name", f.loc(c.nid))
            fx = [y for x in mine for y in flow.exec_nodes(f, x)]
            bad = fallible_exits(f, explore(f, [x for x in result_starts(f, c, [((), "Ok")]) if x[0] not in fx], avoid_cut(fx)))
            R.ob("committed", key + ":before", not bad, "success (%s) without finalising the layer committed" % sorted(map(str, bad)), f.loc(c.nid))
            en = flow.exec_nodes(f, c)
            for x in fx:
                R.ob("committed", key + ":after", f.always_before(x, en), "the layer is finalised before its builder has been committed", f.loc(x))
            for x in [c] + mine:
                bad = fallible_exits(f, flow.after_failure(f, x))
                R.ob("committed", key + ":failed", not bad, "success although %s failed" % x.name, f.loc(x.nid))
    return n


def dir_syncs(f):
    """[(path value, nodes at which the sync has run)]"""
    fx = flow.filefx(f)
    s = sym(f)
    out = []
    for c, os in fx.syncs:
        for o in os:
            op = fx.opens[o]
            if op.creates:
                continue
            v = s.at(o, op.path)
            if v != TOP:
                out.append((v, flow.exec_nodes(f, c), c))
    return out


def within(base, v):
    """[the directories from the store's own directory down to v]"""
    b, ss = segs(v)
    out = [b]
    for x in ss:
        out.append(("join", out[-1], x))
    return out


def dirs_durable(R, prog):
    """directories made for a layer are durable before it counts as stored"""
    nts = {x.id for x in prog.find(name="name_to_string")}
    n = 0
    for tr in ("PersistentLayerStore", "ArchiveBackend", "ArchiveMetadataBackend"):
        for S in sorted({type_head(i["self"]) for i in prog.impls if i["trait"].split("::")[-1].split("<")[0].rstrip(">") == tr}):
            bs = [b for b in prog.find(impl_self=S) if (b.impl_trait or "").split("::")[-1].split("<")[0] == tr and b.kind == "AssocFn"]
            for b in bs:
                f = flat(prog, b, opaque=nts)
                mk = [c for c in f.callsites if c.nid in f.reach and not c.inlined and flow.is_fs(c, "create_dir_all", "create_dir")]
                if not mk:
                    continue
                R.saw(f)
                s = sym(f)
                key = short(b)
                for c in mk:
                    v = s.arg(c, 0)
                    base, ss = segs(v)
                    if not R.ob("directories", key + ":known", base[0] == "in" and base[1] == 1 and bool(ss), "the directory created cannot be determined", f.loc(c.nid)):
                        continue
                    need = within(base, v)
                    if tr != "PersistentLayerStore":
                        g, start = f, [y for y in result_starts(f, c, [((), "Ok")])]
                        names = "the operation"
                    else:
                        g = flat(prog, prog.impl_fn(S, tr, "finalize"), opaque=nts)
                        R.saw(g)
                        start = flow.start_states(g)
                        names = "finalize"
                    sy = dir_syncs(g)
                    for d in need:
                        n += 1
                        ns = [x for w, xs, _ in sy if w == d for x in xs]
                        # failing to sync means failing, so only the run itself is asked for
                        bad = fallible_exits(g, explore(g, [x for x in start if x[0] not in ns], avoid_cut(ns)))
                        R.ob("directories", "%s:%s" % (key, len(segs(d)[1])), not bad, "%s succeeds without a sync of %s" % (names, pathstr(d)), g.loc(g.xnode[0]))
                    for w, xs, c2 in sy:
                        bad = fallible_exits(g, flow.after_failure(g, c2))
                        R.ob("directories", key + ":failed", not bad, "success although a directory sync failed", g.loc(c2.nid))
    return n


def pathstr(v):
    b, ss = segs(v)

    def one(x):
        if x[0] == "in":
            return ".".join(["arg%d" % x[1]] + [str(y) for y in x[2]])
        if x[0] == "k":
            return str(x[1])
        if x[0] == "f":
            if x[1] == "index":
                return one(x[2]) + "[..]"
            return "%s(%s)" % (x[1], ", ".join(one(y) for y in x[2:] if isinstance(y, tuple)))
        return x[0]
    return "/".join(one(x) for x in [b] + ss)


def sync_effects(R, prog):
    """sync_all of every kind of file writer really stores what was written"""
    n = 0
    for b in sorted(prog.find(name="sync_all"), key=lambda b: b.id):
        if (b.impl_trait or "").split("::")[-1] != "SyncableFile":
            continue
        ops = {x.id for x in prog.bodies.values() if x.impl_trait and x.name in ("set_rollup", "sync_all")} - {b.id}
        f = flat(prog, b, opaque=ops)
        R.saw(f)
        key = short(b)
        n += 1
        eff = []
        for c in f.callsites:
            if c.nid in f.reach and not c.inlined and c.name in ("sync_all", "sync_data", "set_rollup"):
                eff += flow.exec_nodes(f, c)
                v = fallible_exits(f, flow.after_failure(f, c))
                R.ob("sync", key + ":failed", not v, "success although %s failed" % c.name, f.loc(c.nid))
        for x in f.reach:
            for i, (d, rv, line) in enumerate(f.nodes[x].stmts):
                if not f.vtype[d[0]].startswith("&mut"):
                    continue
                o = rv[1] if rv[0] == "use" else None
                vals = [rv] if rv[0] == "agg" else [f.stmt(t) for t in f.origins(o) if t[0] == "agg"] if o and o[0] == "p" and byval(f, o) else []
                if any(v[2] and v[1][0] == "adt" for v in vals) and any(t[0] == "param" for t in f.leaves(("p", d[0], (), False), muts=False)):
                    eff.append(x)
        seen = explore(f, [x for x in flow.start_states(f) if x[0] not in eff], avoid_cut(eff))
        bad = fallible_exits(f, seen)
        R.ob("sync", key, not bad, "success (%s) without storing what was written" % sorted(map(str, bad)), "%s:%d" % (b.file, b.line))
    return n


def flushed(R, prog):
    """what is written to a layer's file is flushed before the file is synced"""
    ops = opaque_set(prog)
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn"):
            continue
        f = flat(prog, b, opaque=ops - {b.id})

        def writer(c):
            return {t[:2] for t in f.leaves(c.args[0], muts=False, stop=lambda x: x is not None and x.name == "open_write") if t[0] == "call" and f.callof(t).name == "open_write"}
        io = [(c, (c.trait or "").split("::")[-1]) for c in f.callsites if c.nid in f.reach and not c.inlined and c.args]
        wr = [c for c, t in io if t in ("AsyncWriteExt", "Write") and c.name.startswith("write") and writer(c)]
        if not wr:
            continue
        R.saw(f)
        fl = [c for c, t in io if t in ("AsyncWriteExt", "Write") and c.name in ("flush", "shutdown")]
        sy = [c for c, t in io if c.name in ("sync_all", "sync_data")]
        for c in wr:
            n += 1
            w = writer(c)
            fe = execs(f, [y for y in fl if writer(y) & w])
            se = [x for y in sy if writer(y) & w for x in runs(f, [y])]
            R.ob("flushed", "%s:%s@%d" % (short(b), c.name, ordinal(f, c)), bool(se), "what is written is never synced", f.loc(c.nid))
            for e in runs(f, [c]):
                for s in se:
                    R.ob("flushed", "%s:%s@%d" % (short(b), c.name, ordinal(f, c)), f.never_between(e, s, fe), "synced without having been flushed", f.loc(s))
                bad = fallible_exits(f, explore(f, [x for x in result_starts(f, c, [((), "Ok")]) if x[0] not in se], avoid_cut(se)))
                R.ob("flushed", "%s:%s@%d:before" % (short(b), c.name, ordinal(f, c)), not bad, "success without a sync of what was written", f.loc(c.nid))
    return n


def archived(R, prog):
    """a layer leaves the construction area only once it is in the archive"""
    n = 0
    for S, b in [(type_head(x.impl_self), x) for x in prog.find(name="finalize") if (x.impl_trait or "").split("::")[-1] == "PersistentLayerStore"]:
        ops = {x.id for x in prog.bodies.values() if x.name == "store_layer_file"}
        f = flat(prog, b, opaque=ops)
        st = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "store_layer_file"]
        if not st:
            continue
        R.saw(f)
        n += 1
        key = short(b)
        en = execs(f, st)
        bad = fallible_exits(f, explore(f, [x for x in flow.start_states(f) if x[0] not in en], avoid_cut(en)))
        R.ob("archived", key + ":stored", not bad, "success without storing the layer's archive", f.loc(st[0].nid))
        ms = list(lb.map_writes(f))
        R.ob("archived", key + ":leaves", any(k in ("remove", "clear", "drain", "remove_entry") for nid, k in ((nid, c.name) for nid, c, k, v in ms)), "the layer never leaves the construction area", f.loc(st[0].nid))
        for nid, c, k, v in ms:
            R.ob("archived", key + ":order", f.always_before(nid, en), "the layer under construction is dropped before it is stored", f.loc(nid))
        for c in st:
            s = flow.after_failure(f, c)
            R.ob("archived", key + ":failed", not fallible_exits(f, s) and not any(nid in s for nid, c2, k, v in ms), "goes on after storing failed", f.loc(c.nid))
            ts = graph.bare(f.origins(c.args[1]))
            R.ob("archived", key + ":name", set(ts) == {("param", 2, ())}, "stored under the name %s" % tset(f, ts), f.loc(c.nid))
    return n


def archive_files(R, prog):
    for b in sorted(prog.find(name="store_layer_file"), key=lambda b: b.id):
        if (b.impl_trait or "").split("::")[-1] != "ArchiveBackend":
            continue
        f = flat(prog, b)
        D = durable.Durable(f)
        if not (D.fx.opens or D.fx.writes or D.fx.whole):
            continue
        R.saw(f)
        key = short(b)
        D.data_rules(R, "archive-file", key)
        D.name_rules(R, "archive-file", key)
        D.aside_rules(R, "archive-file", key)
        D.errors(R, "archive-file", key)
        for c, k in D.fx.whole:
            R.ob("archive-file", key + ":" + c.name, any(k in D.open_keys(o) for x, o in D.fx.syncs), "the file written is never synced", f.loc(c.nid))


def p06(R, prog):
    R.rule("finished", "every file writer and file builder, whether made or taken over, is finalised, synced or handed on before any success")
    R.rule("run", "every future of a storage operation that is made has been run to completion before any success")
    R.rule("finalised", "an operation that creates a stored layer finalises exactly that layer before any success, fails if that fails, writes nothing of it afterwards and returns its name")
    R.rule("committed", "committing a builder succeeds only after its layer was committed and then finalised under the builder's name")
    R.rule("flushed", "what is written to a file of a layer is flushed and then synced before any success")
    R.rule("sync", "the sync of every kind of writer stores what was written, on every path to success")
    R.rule("directories", "every directory made for a layer, from the store's directory down, is synced before the layer counts as stored")
    R.rule("archived", "finalising into an archive stores the archive first; only then does the layer leave the construction area")
    R.rule("archive-file", "an archive file is completely written, flushed, synced, moved into place, and its directory synced, before success")
    finished(R, prog, "finished")
    futures_run(R, prog, "run")
    finalised(R, prog)
    committed(R, prog)
    flushed(R, prog)
    sync_effects(R, prog)
    dirs_durable(R, prog)
    archived(R, prog)
    archive_files(R, prog)
    R.floor("finished", 25)
    R.floor("run", 30)
    R.floor("finalised", 15)
    R.floor("committed", 4)
    R.floor("flushed", 4)
    R.floor("sync", 4)
    R.floor("directories", 4)
    R.floor("archived", 3)
    R.floor("archive-file", 8)
