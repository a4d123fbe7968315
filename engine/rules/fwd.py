"""P10, P11, P23: wrappers that must be the operation they wrap."""
from rules.lib import *

INNER = {"SyncStore": "Store", "SyncNamedGraph": "NamedGraph", "SyncStoreLayer": "StoreLayer",
         "SyncStoreLayerBuilder": "StoreLayerBuilder"}


def value_distorted(f, stop):
    """terms between the forwarded call's result and the returned value that
    compute something new (operators, negations, constants)"""
    bad = []
    seen = set()
    work = list(f.res(f.retvar, ())) + list(f.res(f.retvar, ("!",)))
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] == "call":
            c = f.callof(t)
            if stop(c):
                continue
            if c.name in ("not", "add", "sub", "eq", "ne", "is_some", "is_none", "is_ok", "is_err", "len", "count", "unwrap_or_default",
                          "filter", "skip", "take", "rev", "take_while", "skip_while", "step_by", "chain", "flatten", "xor", "or", "dedup"):
                bad.append(t)
            for a in c.args:
                work.extend(f.origins(a))
            for ai, o in getattr(f, "closure_results", {}).get(c.nid, []):
                work.extend(f.res(o, ()))
        elif t[0] == "expr":
            rv = f.stmt(t)
            if rv[0] in ("bin", "un"):
                bad.append(t)
        elif t[0] == "const" and t[1] in ("bool", "u64", "usize", "default"):
            bad.append(t)
        elif t[0] == "agg":
            rv = f.stmt(t)
            if rv[1][0] in ("adt", "tuple"):
                for o in rv[2]:
                    work.extend(f.origins(o))
    return bad


def produced(f, stop):
    """does every produced (non-error) result derive from the forwarded call?"""
    def derives(t, seen):
        if t in seen:
            return False
        seen.add(t)
        if t[0] == "call":
            c = f.callof(t)
            if stop(c):
                return True
            ops = list(c.args)
            r = any(derives(x, seen) for a in ops for x in f.origins(a))
            for ai, o in getattr(f, "closure_results", {}).get(c.nid, []):
                r = r or any(derives(x, seen) for x in f.res(o, ()))
            return r
        if t[0] == "residual":
            c = f.callof(t)
            return any(derives(x, seen) for a in c.args for x in f.origins(a))
        if t[0] == "agg":
            rv = f.stmt(t)
            return any(derives(x, seen) for o in rv[2] for x in f.origins(o))
        if t[0] == "part":
            return True
        return False
    return derives


def check_forward(R, rule, prog, entry, targets, recv_ok, argpaths, key=None, extra=(), unit_result=False, allow_short=False,
                  args_from=1, want_args=None, also_opaque=()):
    """entry forwards to exactly one call of a body/path in `targets`.

    recv_ok(terms): receiver test; argpaths: projections under which an own
    argument may be passed on."""
    key = key or short(entry)
    f = flat(prog, entry, opaque=set(t for t in targets if t in prog.bodies) | set(also_opaque), R=R)
    stop = lambda c: c is not None and (c.target in targets or c.path in targets)
    cs = [c for c in f.callsites if stop(c)]
    w = "%s:%d" % (entry.file, entry.line)
    if not R.ob(rule, key + ":called", len(cs) >= 1, "does not call %s" % sorted(targets)[0], w):
        return
    # every way out passes through the call
    exits = [f.exit]
    ok = f.always_before(f.exit, [c.nid for c in cs])
    if not allow_short:
        R.ob(rule, key + ":always", ok, "can return without having called %s" % cs[0].name, w)
    if len(cs) > 1:
        for c in cs:
            again = f.after(c.nid)
            R.ob(rule, key + ":once", not any(d.nid in again for d in cs), "%s may be called more than once" % c.name, f.loc(c.nid))
    nargs = entry.argc
    for c in cs:
        rt = f.origins(c.args[0])
        R.ob(rule, key + ":receiver", recv_ok(f, rt), "%s is called on %s" % (c.name, tset(f, rt)), f.loc(c.nid))
        own = c.args[args_from:]
        exp = want_args if want_args is not None else [("param", i) for i in range(2, nargs + 1)]
        if not R.ob(rule, key + ":arity", len(own) == len(exp), "%s gets %d arguments, %d expected" % (c.name, len(own), len(exp)), f.loc(c.nid)):
            continue
        for j, (a, e) in enumerate(zip(own, exp)):
            ts = f.origins(a)
            if callable(e):
                ok = e(f, ts)
            else:
                i = e[1]
                ok = bool(ts) and all(t[0] == "param" and t[1] == i and tuple(x for x in t[2] if not x.startswith("[")) in argpaths for t in ts if t[0] != "part")
                ok = ok and any(t[0] == "param" for t in ts)
                if ts and all(t[0] == "agg" for t in ts):
                    # a freshly assembled value made of the same argument only
                    lv = f.leaves(a)
                    ps = [t for t in lv if t[0] == "param"]
                    ok = bool(ps) and all(t[1] == i for t in ps)
                elif ts and all(t[0] in ("call", "part") for t in ts):
                    # an iterator or collection rebuilt from the argument
                    lv = f.leaves(a)
                    ps = [t for t in lv if t[0] == "param"]
                    ok = bool(ps) and all(t[1] == i for t in ps) and not [t for t in lv if t[0] == "expr" and f.stmt(t)[0] == "bin"] \
                        and not [t for t in lv if t[0] == "call" and f.callof(t).name in ("rev", "skip", "take", "filter", "dedup", "step_by", "chain")]
            R.ob(rule, key + ":arg%d" % j, ok, "argument %d of %s is %s" % (j, c.name, tset(f, ts)), f.loc(c.nid))
    if unit_result:
        return f, cs
    der = produced(f, stop)
    rets = returns(f)
    bad = []
    for k, n, t in rets:
        if k == "err":
            continue
        if not der(t, set()):
            bad.append(t)
    R.ob(rule, key + ":result", not bad, "result %s does not come from %s" % (tset(f, bad), cs[0].name), w)
    dis = value_distorted(f, stop)
    R.ob(rule, key + ":unaltered", not dis, "the result of %s is altered by %s" % (cs[0].name, tset(f, dis)), w)
    return f, cs


def inner_recv(f, ts, fields=(("inner",),)):
    ts = [t for t in ts if t[0] != "part"]
    return bool(ts) and all(t[0] == "param" and t[1] == 1 and t[2] in fields for t in ts)


# ---------------------------------------------------------------------------
def p10(R, prog):
    R.rule("sync-forward", "every method of a synchronous handle calls the asynchronous method of the same name on its inner handle, "
           "once and on every path, with its own arguments in order, and returns that call's result unaltered")
    R.rule("sync-open", "open_sync_* opens the store of the same kind with its own arguments")
    R.floor("sync-forward", 300)
    for S, A in INNER.items():
        sm = [b for b in prog.find(impl_self=S)]
        for b in sm:
            tr = (b.impl_trait or "").split("::")[-1]
            if b.name in ("wrap", "clone_boxed", "with_builder") or tr in qlib.DERIVED or not b.params or b.params[0] != "self":
                continue
            if tr and tr != "Layer":
                continue
            if not b.vis.startswith("Public"):
                continue
            targets = set()
            if tr == "Layer":
                im = prog.find(name=b.name, impl_self=A, impl_trait="Layer")
                targets |= {x.id for x in im}
                targets |= {x["id"] + "::" + b.name for x in prog.traits.values() if x["id"].split("::")[-1] == "Layer"}
            else:
                im = [x for x in prog.find(name=b.name, impl_self=A) if not x.impl_trait]
                targets |= {x.id for x in im}
            direct = None
            if not targets:
                R.ob("sync-forward", short(b) + ":counterpart", False, "no method of this name on %s" % A, "%s:%d" % (b.file, b.line))
                continue
            recv = inner_recv
            if A == "Store" and b.name in ("export_layers", "import_layers"):
                # also accepted: the layer store call that Store::x itself makes
                direct = {x["id"] + "::" + b.name for x in prog.traits.values() if x["id"].split("::")[-1] in ("LayerStore",)}
                f0 = flat(prog, b, opaque=set(targets), R=R)
                if not [c for c in f0.callsites if c.target in targets or c.path in targets]:
                    tg = [x for x in direct]
                    alltr = {c.path for c in f0.callsites if c.name == b.name and c.trait}
                    check_forward(R, "sync-forward", prog, b, alltr or set(tg),
                                  lambda f, ts: inner_recv(f, ts, (("inner", "layer_store"),)), ((), ("inner",)), unit_result=False)
                    continue
            check_forward(R, "sync-forward", prog, b, targets, recv, ((), ("inner",)))
        # with_builder hands the closure on
    b = prog.inherent("SyncStoreLayerBuilder", "with_builder", must=False)
    if b:
        t = {x.id for x in prog.find(name="with_builder", impl_self="StoreLayerBuilder")}
        check_forward(R, "sync-forward", prog, b, t, inner_recv, ((),))
    for b in prog.find(name="clone_boxed", impl_self="SyncStoreLayer"):
        f = flat(prog, b, R=R)
        lv = f.leaves(("p", f.retvar, (), False))
        R.ob("sync-forward", short(b), any(t[0] == "param" and t[1] == 1 for t in lv), "clone_boxed does not box a clone of self", "%s:%d" % (b.file, b.line))
    n = 0
    for b in prog.find(file="src/store/sync.rs"):
        if b.kind != "Fn" or not b.name.startswith("open_sync_"):
            continue
        n += 1
        want = b.name.replace("open_sync_", "open_", 1)
        t = {x.id for x in prog.find(name=want) if x.kind == "Fn"}
        if not R.ob("sync-open", b.name + ":counterpart", bool(t), "no asynchronous `%s`" % want, "%s:%d" % (b.file, b.line)):
            continue
        f = flat(prog, b, opaque=t, R=R)
        cs = [c for c in f.callsites if c.target in t]
        if not R.ob("sync-open", b.name, len(cs) == 1 and f.always_before(f.exit, [cs[0].nid]), "does not open through `%s`" % want, "%s:%d" % (b.file, b.line)):
            continue
        for j, a in enumerate(cs[0].args):
            ps = {t2[1] for t2 in f.leaves(a) if t2[0] == "param"}
            R.ob("sync-open", b.name + ":arg%d" % j, ps == {j + 1}, "argument %d of %s comes from arguments %s" % (j, want, sorted(ps)), f.loc(cs[0].nid))
        ok = any(t2[0] == "call" and f.callof(t2).target in t for t2 in f.leaves(("p", f.retvar, (), False), stop=lambda c: c.target in t))
        R.ob("sync-open", b.name + ":result", ok, "the returned store is not the one opened", "%s:%d" % (b.file, b.line))
    R.floor("sync-open", 12)


# ---------------------------------------------------------------------------
def layer_store_trait(prog):
    return [x["id"] for x in prog.traits.values() if x["id"].split("::")[-1] == "LayerStore"]


def self_name(field_paths=(("layer",),)):
    """terms are the result of Layer::name on self.layer"""
    def ok(f, ts):
        ts = [t for t in ts if t[0] != "part"]
        if not ts:
            return False
        for t in ts:
            if t[0] != "call":
                return False
            c = f.callof(t)
            if c.name != "name" or not (c.trait or "").endswith("Layer") or t[2] not in ((),):
                return False
            r = f.origins(c.args[0])
            if not all(x[0] == "param" and x[1] == 1 and x[2] in field_paths for x in r):
                return False
        return True
    return ok


def param_layer_name(i, paths=(("layer",), ())):
    def ok(f, ts):
        ts = [t for t in ts if t[0] != "part"]
        if not ts:
            return False
        for t in ts:
            if t[0] != "call":
                return False
            c = f.callof(t)
            if c.name != "name":
                return False
            r = f.origins(c.args[0])
            if not all(x[0] == "param" and x[1] == i and x[2] in paths for x in r):
                return False
        return True
    return ok


def is_store_recv(f, ts):
    ts = [t for t in ts if t[0] != "part"]
    return bool(ts) and all(t[0] == "param" and t[1] == 1 and t[2] in (("store", "layer_store"), ("layer_store",)) for t in ts)


def p23(R, prog):
    R.rule("layer-forward", "every Layer operation of a store layer is the same operation of the layer it wraps, once, with the same "
           "arguments in order, its result unaltered")
    R.rule("delta-forward", "every delta operation of a store layer is the layer store's operation of the same name for this layer's name")
    R.rule("derived", "parent, squash, rollup and new builders are derived from exactly this layer and the given boundary")
    R.rule("no-default", "no Layer operation that the wrapped layer implements itself is left to the trait's default on a handle")
    R.floor("layer-forward", 90)
    R.floor("delta-forward", 60)
    R.floor("derived", 30)
    ltr = [x for x in prog.traits.values() if x["id"].split("::")[-1] == "Layer"][0]
    for b in prog.find(impl_self="StoreLayer", impl_trait="Layer"):
        if b.name == "clone_boxed":
            f = flat(prog, b, R=R)
            lv = f.leaves(("p", f.retvar, (), False))
            R.ob("layer-forward", short(b), any(t[0] == "param" and t[1] == 1 for t in lv), "clone_boxed does not box a clone of self", "%s:%d" % (b.file, b.line))
            continue
        targets = {ltr["id"] + "::" + b.name}
        check_forward(R, "layer-forward", prog, b, targets, lambda f, ts: inner_recv(f, ts, (("layer",),)), ((),))
    # methods overridden by the stored layer but not by its handles
    own = {b.name for b in prog.find(impl_self="InternalLayer", impl_trait="Layer")}
    for S in ("StoreLayer", "SyncStoreLayer"):
        have = {b.name for b in prog.find(impl_self=S, impl_trait="Layer")}
        for n in sorted(own):
            R.ob("no-default", "%s::%s" % (S, n), n in have, "%s does not forward Layer::%s, which the stored layer implements itself" % (S, n))
    R.floor("no-default", 40)
    lst = layer_store_trait(prog)
    ls_methods = {}
    for b in prog.bodies.values():
        if b.trait_item and b.trait_item.split("::")[-2] == "LayerStore":
            ls_methods.setdefault(b.name, b.trait_item)
    for x in prog.traits.values():
        if x["id"].split("::")[-1] == "LayerStore":
            for m in x.get("items", []):
                nm = m[0] if isinstance(m, list) else m
                ls_methods.setdefault(nm.split("::")[-1], x["id"] + "::" + nm.split("::")[-1])
    sl = [b for b in prog.find(impl_self="StoreLayer") if not b.impl_trait and b.vis.startswith("Public")]
    special = {"open_write", "parent", "squash_upto", "squash", "rollup", "rollup_upto", "imprecise_rollup_upto"}
    for b in sl:
        if not b.params or b.params[0] != "self":
            continue
        if b.name in special:
            continue
        if b.name not in ls_methods:
            continue
        t = {ls_methods[b.name]}
        nm = self_name()
        want = [nm] + [("param", i) for i in range(2, b.argc + 1)]
        check_forward(R, "delta-forward", prog, b, t, is_store_recv, ((),), want_args=want)

    def get(name):
        return prog.inherent("StoreLayer", name)

    def one_call(f, b, name, recv=is_store_recv, args=None, rule="derived"):
        cs = [c for c in f.callsites if c.name == name and (c.trait or "").split("::")[-1] == "LayerStore"]
        w = "%s:%d" % (b.file, b.line)
        if not R.ob(rule, "%s:%s" % (short(b), name), len(cs) >= 1, "does not call LayerStore::%s" % name, w):
            return []
        for c in cs:
            ts = f.origins(c.args[0])
            R.ob(rule, "%s:%s:store" % (short(b), name), recv(f, ts), "%s is called on %s" % (name, tset(f, ts)), f.loc(c.nid))
            for j, e in enumerate(args or []):
                ts = f.origins(c.args[j + 1])
                R.ob(rule, "%s:%s:arg%d" % (short(b), name, j), e(f, ts), "argument %d of %s is %s" % (j, name, tset(f, ts)), f.loc(c.nid))
        return cs

    nm = self_name()

    def loaded_self(f, ts):
        """the layer loaded from the store under this layer's own name"""
        ts = [t for t in ts if t[0] != "part"]
        if not ts:
            return False
        for t in ts:
            if t[0] != "call":
                return False
            c = f.callof(t)
            if c.name != "get_layer" or not is_store_recv(f, f.origins(c.args[0])) or not nm(f, f.origins(c.args[1])):
                return False
        return True

    def created(f, cs):
        ids = {c.nid for c in cs}
        return lambda f2, ts: bool(ts) and all(t[0] == "call" and t[1] in ids for t in ts if t[0] != "part")

    def result_from(f, b, cs, path=()):
        ids = {c.nid for c in cs}
        ok = True
        rets = [t for k, n, t in returns(f) if k != "err"]
        for t in rets:
            lv = f.leaves(t, stop=lambda c: c.nid in ids)
            if not any(x[0] == "call" and x[1] in ids for x in lv):
                ok = False
        R.ob("derived", "%s:result" % short(b), ok and rets, "returns something not made from %s" % cs[0].name, "%s:%d" % (b.file, b.line))

    def keeps_store(f, b):
        """derived handles stay with this store"""
        for n in f.nodes:
            if n.id not in f.reach:
                continue
            for i, (d, rv, line) in enumerate(n.stmts):
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in ("StoreLayer", "StoreLayerBuilder") and "store" in rv[3]:
                    ts = f.origins(rv[2][rv[3].index("store")])
                    ok = all(t[0] == "param" and t[1] == 1 and t[2] == ("store",) for t in ts if t[0] != "part")
                    if not ok:
                        ok = all(t[0] == "param" and t[1] == 1 for t in ts if t[0] != "part")
                    R.ob("derived", "%s:store" % short(b), ok, "the derived handle belongs to %s" % tset(f, ts), f.loc(n.id))

    b = get("open_write")
    f = flat(prog, b, R=R)
    cs = one_call(f, b, "create_child_layer", args=[nm])
    if cs:
        result_from(f, b, cs)
        keeps_store(f, b)
    b = get("parent")
    f = flat(prog, b, R=R)

    def pn(f2, ts):
        ts = [t for t in ts if t[0] != "part"]
        return bool(ts) and all(t[0] == "call" and f2.callof(t).name == "parent_name" and inner_recv(f2, f2.origins(f2.callof(t).args[0]), (("layer",),)) for t in ts)
    cs = one_call(f, b, "get_layer", args=[pn])
    if cs:
        keeps_store(f, b)
        # None is returned exactly when there is no parent name
        some = [n for k, n, t in returns(f) if k == "ok"]
        for k, n, t in returns(f):
            if k != "ok":
                continue
            for t2 in f.origins(f.stmt(t)[2][0]) if t[0] == "agg" else []:
                v = variant_of(f, t2)
                if v == "None":
                    at = [a for a in conds(f).facts(t2[1]) if a[0] == "variant" and a[1][0] == "call" and f.callof(a[1]).name == "parent_name" and a[2] == ("None",)]
                    R.ob("derived", "%s:none" % short(b), bool(at), "None is returned although there is a parent", f.loc(t2[1]))
                elif v == "Some":
                    ids = {c.nid for c in cs}
                    lv = f.leaves(t2, stop=lambda c: c.nid in ids)
                    R.ob("derived", "%s:some" % short(b), any(x[0] == "call" and x[1] in ids for x in lv), "the layer returned is not the one loaded for the parent's name", f.loc(t2[1]))
    for name, hasup in (("squash_upto", True), ("squash", False), ("rollup", False), ("rollup_upto", True), ("imprecise_rollup_upto", True)):
        b = get(name)
        f = flat(prog, b, R=R)
        one_call(f, b, "get_layer", args=None)
        args = [loaded_self] + ([param_layer_name(2)] if hasup else [])
        cs = one_call(f, b, name, args=args)
        if not cs:
            continue
        R.ob("derived", "%s:always" % short(b), all(f.always_before(n, [c.nid for c in cs]) for k, n, t in returns(f) if k != "err" and n is not None),
             "can succeed without having called LayerStore::%s" % name, "%s:%d" % (b.file, b.line))
        if name.startswith("squash"):
            result_from(f, b, cs)
            keeps_store(f, b)


# ---------------------------------------------------------------------------
CACHED_ACCESSOR = {
    "get_layer_parent_name": ("parent_name", None),
    "get_node_dictionary": ("node_dictionary", None),
    "get_predicate_dictionary": ("predicate_dictionary", None),
    "get_value_dictionary": ("value_dictionary", None),
    "get_node_count": ("node_dictionary", "num_entries"),
    "get_predicate_count": ("predicate_dictionary", "num_entries"),
    "get_value_count": ("value_dictionary", "num_entries"),
    "get_node_value_idmap": ("node_value_id_map", None),
    "get_predicate_idmap": ("predicate_id_map", None),
}
# what may be answered without asking whether the cached layer is a rollup
ROLLUP_SAFE = {"get_layer_parent_name"}
# operations that register a rollup must go through this store's own register_rollup
REGISTERING = {"rollup", "rollup_upto", "rollup_upto_with_cache", "imprecise_rollup_upto", "imprecise_rollup_upto_with_cache"}


def p11(R, prog):
    R.rule("cache-forward", "each layer store operation of the caching store ends in the inner store's operation of the same name (or its "
           "with_cache form, with its own cache) with the same arguments in order, result unaltered, unless answered from a cached layer")
    R.rule("cache-answer", "an answer taken from the cache comes from the layer cached under the requested name, from the accessor that "
           "corresponds to the operation, with the same arguments, and for a delta only if that layer is not a rollup")
    R.rule("cache-invalidate", "registering a rollup forwards it and then drops the cached copy of that layer, and every rollup of the "
           "caching store registers through itself")
    R.rule("cache-map", "the cache stores a layer under its own name, looks it up under the requested name, and removes exactly the named entry")
    R.floor("cache-forward", 60)
    R.floor("cache-answer", 5)
    R.floor("cache-map", 6)
    opaque = {b.id for b in prog.find(impl_self="InternalLayer") if b.name != "clone"}
    ls = [b for b in prog.find(impl_self="CachedLayerStore") if b.impl_trait and b.impl_trait.split("::")[-1] in ("LayerStore", "Packable")]
    if len(ls) < 30:
        raise Missing("anchor `impl LayerStore for CachedLayerStore` has only %d methods" % len(ls))
    names = {b.name for b in ls}
    for b in ls:
        tr = b.impl_trait.split("::")[-1]
        key = b.name
        f = flat(prog, b, opaque=opaque, R=R)
        w = "%s:%d" % (b.file, b.line)
        nargs = b.argc - 1

        def is_param(ts, i, path=()):
            ts = [t for t in ts if t[0] != "part"]
            return bool(ts) and all(t[0] == "param" and t[1] == i and t[2] == path for t in ts)

        def inner_call(c):
            return c is not None and c.trait and c.trait.split("::")[-1] in ("LayerStore", "Packable") and is_param(f.origins(c.args[0]), 1, ("inner",))

        sc = [c for c in f.callsites if c.trait and c.trait.split("::")[-1] == "LayerStore" and is_param(f.origins(c.args[0]), 1, ())]
        if b.name in REGISTERING:
            # must run register_rollup on itself
            reg = [c for c in f.callsites if c.name == "register_rollup" and is_param(f.origins(c.args[0]), 1, ())]
            bad = [c for c in f.callsites if inner_call(c) and c.name in REGISTERING | {"register_rollup"}
                   and not (c.name == "register_rollup" and "register_rollup" in [x.name for x in reg])]
            viaself = [c for c in sc if c.name in REGISTERING or c.name == "register_rollup"]
            R.ob("cache-invalidate", key, bool(viaself) and not [c for c in f.callsites if inner_call(c) and c.name in REGISTERING],
                 "%s does not register its rollup through this store" % key, w)
            for c in viaself:
                if c.name == b.name + "_with_cache":
                    ok = len(c.args) == nargs + 2 and all(is_param(f.origins(a), j + 2) for j, a in enumerate(c.args[1:-1])) and \
                        is_param(f.origins(c.args[-1]), 1, ("cache",))
                    R.ob("cache-forward", key + ":args", ok, "%s passes %s" % (key, [tset(f, f.origins(a)) for a in c.args[1:]]), f.loc(c.nid))
            continue
        fw = [c for c in f.callsites if not c.inlined and inner_call(c)]
        good = []
        for c in fw:
            if c.name == "register_rollup" or c.name in (b.name, b.name + "_with_cache") or b.name == c.name.replace("_with_cache", ""):
                good.append(c)
            else:
                R.ob("cache-forward", "%s:%s" % (key, c.name), False, "%s asks the inner store for %s" % (key, c.name), f.loc(c.nid))
        if not R.ob("cache-forward", key + ":called", bool(good), "%s never reaches the inner store's %s" % (key, key), w):
            continue
        for c in good:
            args = c.args[1:]
            ok = len(args) in (nargs, nargs + 1)
            for j, a in enumerate(args):
                if j < nargs:
                    ok = ok and is_param(f.origins(a), j + 2)
                else:
                    ok = ok and is_param(f.origins(a), 1, ("cache",))
            R.ob("cache-forward", key + ":args", ok, "%s gets %s" % (c.name, [tset(f, f.origins(a)) for a in args]), f.loc(c.nid))
        gids = {c.nid for c in good}
        # classify what is returned
        table = CACHED_ACCESSOR.get(b.name)
        if table is None and b.name.startswith("triple_"):
            table = ("internal_" + b.name, None)
        for k, n, t in returns(f):
            if k == "err":
                continue
            lv = f.leaves(t, stop=lambda c: c.nid in gids or c.target in opaque or c.name == "get_layer_from_cache")
            calls = [f.callof(x) for x in lv if x[0] == "call"]
            fromi = [c for c in calls if c.nid in gids]
            fromc = [c for c in calls if c.target in opaque]
            if b.name == "register_rollup":
                continue
            if fromi and not fromc:
                # unaltered: no operators
                ex = [x for x in lv if x[0] == "expr" and f.stmt(x)[0] in ("bin", "un")]
                R.ob("cache-forward", key + ":result", not ex, "the inner store's answer is altered", f.loc(n) if n is not None else w)
            elif fromc:
                ok = table is not None
                msg = "%s has no cached counterpart" % key
                for c in fromc:
                    if not ok:
                        break
                    if c.name != table[0]:
                        ok, msg = False, "%s is answered by the cached layer's %s" % (key, c.name)
                        break
                    # receiver: the layer cached under the requested name
                    rl = [f.callof(x) for x in f.leaves(c.args[0], stop=lambda d: d.name == "get_layer_from_cache") if x[0] == "call" and f.callof(x).name == "get_layer_from_cache"]
                    if not rl or not all(is_param(f.origins(x.args[1]), 2) and is_param(f.origins(x.args[0]), 1, ("cache",)) for x in rl):
                        ok, msg = False, "the layer asked is not the one cached under the requested name"
                        break
                    for j, a in enumerate(c.args[1:]):
                        if not is_param(f.origins(a), j + 3):
                            ok, msg = False, "argument %d of %s is %s" % (j, c.name, tset(f, f.origins(a)))
                    if b.name not in ROLLUP_SAFE:
                        at = [a for a in conds(f).facts(c.nid) + (conds(f).facts(n) if n is not None else []) if a[0] == "bool" and a[1][0] == "call" and f.callof(a[1]).name == "is_rollup" and a[2] is False]
                        good_at = False
                        for a in at:
                            rc = f.callof(a[1])
                            r2 = [f.callof(x) for x in f.leaves(rc.args[0], stop=lambda d: d.name == "get_layer_from_cache") if x[0] == "call" and f.callof(x).name == "get_layer_from_cache"]
                            if r2 and {x.nid for x in r2} == {x.nid for x in rl}:
                                good_at = True
                        if not good_at:
                            ok, msg = False, "answered from the cached layer without having established that it is not a rollup"
                if ok and table[1]:
                    mids = [x for x in calls if x.name == table[1]]
                    if not mids:
                        ok, msg = False, "the cached answer is not the %s of %s" % (table[1], table[0])
                if ok:
                    ex = [x for x in lv if x[0] == "expr" and f.stmt(x)[0] in ("bin", "un")]
                    if ex:
                        ok, msg = False, "the cached answer is altered"
                R.ob("cache-answer", key, ok, msg, f.loc(n) if n is not None else w)
            else:
                R.ob("cache-forward", key + ":result", False, "%s can answer without asking the inner store or the cached layer" % key, f.loc(n) if n is not None else w)
        if b.name == "register_rollup":
            inv = [c for c in f.callsites if c.name == "invalidate"]
            ok = bool(inv) and all(is_param(f.origins(c.args[1]), 2) and is_param(f.origins(c.args[0]), 1, ("cache",)) for c in inv)
            R.ob("cache-invalidate", key + ":invalidates", ok, "the cached copy of the layer is not dropped", w)
            for k, n, t in returns(f):
                if k == "err" or n is None:
                    continue
                R.ob("cache-invalidate", key + ":before-return", bool(inv) and f.always_before(n, [c.nid for c in inv]),
                     "succeeds without having dropped the cached copy", f.loc(n))
            for c in inv:
                R.ob("cache-invalidate", key + ":order", f.always_before(c.nid, gids), "the cached copy is dropped before the rollup is registered", f.loc(c.nid))
    # defaults the caching store relies on
    missing_ok = REGISTERING | {"layer_changes", "layer_changes_upto", "rollup"}
    lst = [x for x in prog.traits.values() if x["id"].split("::")[-1] == "LayerStore"][0]
    for m in lst.get("items", []):
        nm = (m[0] if isinstance(m, list) else m).split("::")[-1]
        R.ob("cache-forward", "overrides:" + nm, nm in names or nm in missing_ok, "the caching store leaves %s to the trait's default" % nm)
    # the cache itself
    C = "LockingHashMapLayerCache"
    g = prog.impl_fn(C, "LayerCache", "get_layer_from_cache")
    f = flat(prog, g, opaque=opaque, R=R)
    gets = [c for c in f.callsites if c.name in ("get", "get_mut", "entry", "remove", "get_key_value", "contains_key") and "HashMap" in c.path]
    ok = bool(gets)
    for c in gets:
        ts = f.origins(c.args[1])
        R.ob("cache-map", "get:key", all(t[0] == "param" and t[1] == 2 and t[2] == () for t in ts), "%s uses key %s" % (c.name, tset(f, ts)), f.loc(c.nid))
    look = {c.nid for c in gets if c.name in ("get", "get_mut", "get_key_value")}
    for k, n, t in returns(f):
        if k in ("some", "val", "call") and k != "none":
            lv = f.leaves(t, stop=lambda c: c.nid in look)
            R.ob("cache-map", "get:value", any((x[0] == "call" and x[1] in look) or (x[0] == "param" and x[1] == 1 and x[2][:1] == ("cache",)) for x in lv)
                 and not any(x[0] == "param" and x[1] != 1 for x in f.leaves(t, muts=False, stop=lambda c: c.nid in look)), "returns %s" % tshow(f, t), f.loc(n) if n is not None else "")
    s = prog.impl_fn(C, "LayerCache", "cache_layer")
    f = flat(prog, s, opaque=opaque, R=R)
    ins = [c for c in f.callsites if c.name == "insert" and "HashMap" in c.path]
    if R.ob("cache-map", "put", len(ins) >= 1, "nothing is inserted", "%s:%d" % (s.file, s.line)):
        for c in ins:
            ts = f.origins(c.args[1])
            okk = all(t[0] == "call" and f.callof(t).name == "name" and all(x[0] == "param" and x[1] == 2 for x in f.origins(f.callof(t).args[0])) for t in ts) and ts
            R.ob("cache-map", "put:key", okk, "stored under %s" % tset(f, ts), f.loc(c.nid))
            lv = f.leaves(c.args[2])
            ps = {(t[1], t[2]) for t in lv if t[0] == "param"}
            R.ob("cache-map", "put:value", ps == {(2, ())}, "stores %s" % ps, f.loc(c.nid))
    s = prog.impl_fn(C, "LayerCache", "invalidate")
    f = flat(prog, s, opaque=opaque, R=R)
    rm = [c for c in f.callsites if c.name == "remove" and "HashMap" in c.path]
    if R.ob("cache-map", "remove", len(rm) >= 1 and f.always_before(f.exit, [c.nid for c in rm]), "the entry is not removed on every path", "%s:%d" % (s.file, s.line)):
        for c in rm:
            ts = f.origins(c.args[1])
            R.ob("cache-map", "remove:key", all(t[0] == "param" and t[1] == 2 for t in ts), "removes %s" % tset(f, ts), f.loc(c.nid))
