"""P04 (graph heads) and P05 (committing a builder)."""
from rules.lib import *
import flow
from flow import exec_nodes, explore, result_starts, exit_values, avoid_cut

READY = "!"


def bare(ts):
    return [t for t in ts if t[0] != "part"]


def all_calls(ts, nids, path):
    ts = bare(ts)
    return bool(ts) and all(t[0] == "call" and t[1] in nids and t[2] == path for t in ts)


def all_param(ts, i, paths):
    ts = bare(ts)
    return bool(ts) and all(t[0] == "param" and t[1] == i and t[2] in paths for t in ts)


def name_of_layer(f, ts, i):
    """the name of the layer passed as parameter i"""
    ts = bare(ts)
    if not ts:
        return False
    for t in ts:
        if variant_of(f, t) == "Some":
            if not name_of_layer(f, f.origins(f.stmt(t)[2][0]), i):
                return False
            continue
        if t[0] != "call":
            return False
        c = f.callof(t)
        if c.name != "name" or not (c.trait or "").endswith("Layer"):
            return False
        if not all_param(f.origins(c.args[0]), i, ((), ("layer",))):
            return False
    return True


def label_calls(f, *names):
    return [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in names and (c.trait or "").split("::")[-1] == "LabelStore"]


def execs(f, cs):
    return [n for c in cs for n in exec_nodes(f, c)]


def p04(R, prog):
    R.rule("update", "a head update goes to the graph's own label store, is based on the label read in the same call and writes the name of the layer passed in")
    R.rule("ancestry", "a non-forcing update is reached only when the label that was read has no layer, or after the ancestry test of exactly "
           "(new layer, that label's layer) came out true")
    R.rule("outcome", "success is reported only for an update that took effect; a refused or lost update is reported as false (or retried), a missing graph as an error")
    R.rule("version", "the versioned update is reached only when the label's version equals the expected one")
    R.rule("head-read", "reading the head yields the layer and the version of one and the same label")
    R.rule("ancestor-walk", "the ancestry test compares the start and then every parent in turn with the candidate, and says no only where a layer has no parent")
    R.floor("update", 9)
    R.floor("ancestry", 4)
    R.floor("outcome", 12)
    R.floor("version", 2)
    R.floor("head-read", 4)
    R.floor("ancestor-walk", 5)
    found = {}
    for b in sorted(prog.find(impl_self="NamedGraph"), key=lambda b: b.name):
        if not b.vis.startswith("Public") or b.impl_trait:
            continue
        f = flat(prog, b, R=R)
        ups = label_calls(f, "set_label", "set_label_option")
        if ups:
            found[b.name] = (b, f, ups)
    for need in ("set_head", "force_set_head", "force_set_head_version"):
        R.ob("update", need + ":present", need in found, "`NamedGraph::%s` updates no label" % need)
    for name, (b, f, ups) in found.items():
        head_update(R, f, name, b, ups)
    head_read(R, prog)
    ancestor_walk(R, prog)


def head_update(R, f, name, b, ups):
    w = "%s:%d" % (b.file, b.line)
    gets = label_calls(f, "get_label")
    gn = {c.nid for c in gets}
    ux = execs(f, ups)
    gx = execs(f, gets)
    R.ob("update", name + ":run", all(exec_nodes(f, c) for c in ups) and bool(ux), "the update is never awaited", w)
    for c in gets + ups:
        R.ob("update", name + ":store", all_param(f.origins(c.args[0]), 1, (("store", "label_store"),)), "%s goes to %s" % (c.name, tset(f, f.origins(c.args[0]))), f.loc(c.nid))
    for c in gets:
        R.ob("update", name + ":which", all_param(f.origins(c.args[1]), 1, (("label",),)), "reads the label %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
    for c in ups:
        R.ob("update", name + ":base", all_calls(f.origins(c.args[1]), gn, ("!", "!")), "based on %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        R.ob("update", name + ":layer", name_of_layer(f, f.origins(c.args[2]), 2), "writes %s" % tset(f, f.origins(c.args[2])), f.loc(c.nid))
    based = {t[1] for c in ups for t in f.origins(c.args[1]) if t[0] == "call" and t[1] in gn}
    R.ob("update", name + ":one-base", len(based) <= 1, "the update may be based on different readings of the label", w)
    # outcomes
    unit = "bool" not in (b.ret or "")
    good = {("Ok", None)} if unit else {("Ok", True)}
    no = {("Ok", False)}
    again = avoid_cut(gx)
    for c in ups:
        v = exit_values(f, explore(f, result_starts(f, c, [((), "Ok"), (("!",), "Some")])))
        R.ob("outcome", name + ":done", v <= good and bool(v), "an update that took effect ends in %s" % show(v), f.loc(c.nid))
        s = explore(f, result_starts(f, c, [((), "Ok"), (("!",), "None")]), again)
        v = exit_values(f, s)
        R.ob("outcome", name + ":lost", v <= (set() if unit else no), "an update that was not applied ends in %s" % show(v), f.loc(c.nid))
        R.ob("outcome", name + ":once", not any(n in f.after(m, avoid=gx) for n in ux for m in exec_nodes(f, c)), "a second update is based on the same label", f.loc(c.nid))
    for c in gets:
        v = exit_values(f, explore(f, result_starts(f, c, [((), "Ok"), (("!",), "None")])))
        R.ob("outcome", name + ":missing", all(x[0] == "Err" for x in v) and bool(v), "a missing graph ends in %s" % show(v), f.loc(c.nid))
    v = {x for x in exit_values(f, flow.explore_from_start(f, avoid_cut(ux))) if x[0] != "Err"}
    R.ob("outcome", name + ":without", v <= (set() if unit else no), "without an update the result is %s" % show(v), w)
    gn = based
    if not name.startswith("force"):
        lay = [("call", g, ("!", "!", "layer")) for g in gn]
        free = flow.edges_where(f, lambda a: a[0] == "variant" and a[1] in lay and set(a[2]) == {"None"})
        anc = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "layer_is_ancestor_of"]
        ax = execs(f, anc)
        r = f.from_start(avoid=ax, avoid_edges=free)
        R.ob("ancestry", name + ":tested", not any(n in r for n in ux), "the head can be set without the ancestry test", w)
        for c in anc:
            s = explore(f, result_starts(f, c, [((), "Ok"), (("!",), False)]), again)
            R.ob("ancestry", name + ":refused", not any(n in s for n in ux), "the head is set although the ancestry test said no", f.loc(c.nid))
            v = exit_values(f, s)
            R.ob("ancestry", name + ":false", v <= no, "a refused update ends in %s" % show(v), f.loc(c.nid))
            s = explore(f, result_starts(f, c, [((), "Ok"), (("!",), True)]), avoid_cut(ux))
            v = {x for x in exit_values(f, s) if x[0] != "Err"}
            R.ob("ancestry", name + ":allowed", not v, "an allowed update ends in %s without being made" % show(v), f.loc(c.nid))
            R.ob("ancestry", name + ":store", all_param(f.origins(c.args[0]), 1, (("store", "layer_store"),)), "asks %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
            R.ob("ancestry", name + ":descendant", name_of_layer(f, f.origins(c.args[1]), 2), "the descendant is %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
            R.ob("ancestry", name + ":ancestor", all_calls(f.origins(c.args[2]), gn, ("!", "!", "layer", "!")), "the ancestor is %s" % tset(f, f.origins(c.args[2])), f.loc(c.nid))
    elif b.argc >= 3:
        def iseq(a):
            if a[0] != "eq" or not a[3]:
                return False
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if all_calls(f.origins(x), gn, ("!", "!", "version")) and all_param(f.origins(y), 3, ((),)):
                    return True
            return False
        for n in ux:
            ok = any(iseq(a) for a in conds(f).facts(n))
            if not ok:
                ok = n not in f.from_start(avoid_edges=flow.edges_where(f, iseq))
            R.ob("version", name + ":compared", ok, "the update is made without comparing the version", f.loc(n))
        R.ob("version", name + ":present", bool(ux), "", w)


def show(v):
    return sorted("%s(%s)" % x for x in v)


def head_read(R, prog):
    b = prog.inherent("NamedGraph", "head_version")
    f = flat(prog, b, R=R)
    w = "%s:%d" % (b.file, b.line)
    gets = label_calls(f, "get_label")
    gn = {c.nid for c in gets}
    R.ob("head-read", "label", bool(gets) and all(all_param(f.origins(c.args[0]), 1, (("store", "label_store"),)) and all_param(f.origins(c.args[1]), 1, (("label",),)) for c in gets),
         "does not read the graph's own label", w)
    lay = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("get_layer", "get_layer_with_cache")]
    for c in lay:
        R.ob("head-read", "layer", all_calls(f.origins(c.args[1]), gn, ("!", "!", "layer", "!")), "loads %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        R.ob("head-read", "layer-store", all_param(f.origins(c.args[0]), 1, (("store", "layer_store"),)), "asks %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
        v = exit_values(f, explore(f, result_starts(f, c, [((), "Ok"), (("!",), "None")])), ("!", "0"))
        R.ob("head-read", "dangling", all(x[0] == "Err" for x in v) and bool(v), "a head that cannot be loaded ends in %s" % show(v), f.loc(c.nid))
        v = exit_values(f, explore(f, result_starts(f, c, [((), "Ok"), (("!",), "Some")])), ("!", "0"))
        R.ob("head-read", "found", v <= {("Ok", "Some")} and bool(v), "a head that was loaded ends in %s" % show(v), f.loc(c.nid))
    R.ob("head-read", "loads", bool(lay), "never loads the layer", w)
    for c in gets:
        v = exit_values(f, explore(f, result_starts(f, c, [((), "Ok"), (("!",), "Some"), (("!", "!", "layer"), "None")])), ("!", "0"))
        R.ob("head-read", "empty", v <= {("Ok", "None")} and bool(v), "a graph without a layer ends in %s" % show(v), f.loc(c.nid))
        s = explore(f, result_starts(f, c, [((), "Ok"), (("!",), "Some"), (("!", "!", "layer"), "Some")]), avoid_cut(execs(f, lay)))
        v = {x for x in exit_values(f, s, ("!", "0")) if x[0] != "Err"}
        R.ob("head-read", "set", not v, "a graph with a layer ends in %s without loading it" % show(v), f.loc(c.nid))
        v = exit_values(f, explore(f, result_starts(f, c, [((), "Ok"), (("!",), "None")])))
        R.ob("head-read", "missing", all(x[0] == "Err" for x in v) and bool(v), "a missing graph ends in %s" % show(v), f.loc(c.nid))
    ts = [t for k, n, t in returns(f) if k == "ok"]
    ver = set()
    lv = set()
    for t in ts:
        o = f.stmt(t)[2][0]
        if o[0] == "p":
            ver |= f.origins(("p", o[1], o[2] + ("1",), False))
            lv |= f.origins(("p", o[1], o[2] + ("0", "!", "layer"), False))
    R.ob("head-read", "version", all_calls(ver, gn, ("!", "!", "version")), "the version is %s" % tset(f, ver), w)
    R.ob("head-read", "value", bool(bare(lv)) and all(x[0] == "call" and x[1] in {c.nid for c in lay} for x in bare(lv)), "the layer is %s" % tset(f, lv), w)
    b2 = prog.inherent("NamedGraph", "head")
    f2 = flat(prog, b2, opaque={b.id}, R=R)
    cs = [c for c in f2.callsites if c.target == b.id and c.nid in f2.reach]
    if cs:
        ts = f2.res(f2.retvar, ("!",))
        ok = all_calls(ts, {c.nid for c in cs}, ("!", "0"))
        R.ob("head-read", "head", ok and f2.always_before(f2.exit, [n for c in cs for n in exec_nodes(f2, c)]), "head() is not the layer of head_version()", "%s:%d" % (b2.file, b2.line))
    else:
        lc = {c.nid for c in f2.callsites if c.name == "get_layer"}
        R.ob("head-read", "head", bool(lc) and bool(label_calls(f2, "get_label")), "head() reads no label", "%s:%d" % (b2.file, b2.line))


PARENT_FNS = ("read_parent_file", "layer_has_parent", "get_layer_parent_name")


def walk_opaque(prog):
    return {b.id for n in PARENT_FNS for b in prog.find(name=n)}


def is_parent_value(f, t):
    """the term is the parent name read of some layer"""
    if t[0] != "call":
        return False
    c = f.callof(t)
    return c.name == "read_parent_file" and t[2] in (("!",),) or c.name == "get_layer_parent_name" and t[2] == ("!", "!")


def no_parent_fact(f, a):
    """the atom says that a layer has no parent: the call asked"""
    if a[0] == "bool" and a[1][0] == "call" and a[2] is False and f.callof(a[1]).name == "layer_has_parent":
        return f.callof(a[1])
    if a[0] == "variant" and a[1][0] == "call" and set(a[2]) == {"None"} and f.callof(a[1]).name == "get_layer_parent_name":
        return f.callof(a[1])
    return None


def ancestor_walk(R, prog, rule="ancestor-walk"):
    bs = [b for b in prog.find(name="layer_is_ancestor_of", impl_trait="LayerStore") if type_head(b.impl_self) != "CachedLayerStore"]
    R.ob(rule, "present", bool(bs), "no implementation of layer_is_ancestor_of")
    for b in bs:
        f = flat(prog, b, opaque=walk_opaque(prog), R=R)
        w = "%s:%d" % (b.file, b.line)
        k = short(b)

        def isself(ts):
            return all_param(ts, 1, ((),))

        def cur(ts):
            """the layer the walk is at"""
            ts = [t for t in bare(ts)]
            return bool(ts) and any(t[0] == "param" and t[1] == 2 for t in ts) and any(is_parent_value(f, t) for t in ts) \
                and all(t[0] == "param" and t[1] == 2 and t[2] == () or is_parent_value(f, t) for t in ts)

        def start_or_cur(ts):
            ts = bare(ts)
            return bool(ts) and all(t[0] == "param" and t[1] == 2 and t[2] == () or is_parent_value(f, t) for t in ts)
        for c in f.callsites:
            if c.nid in f.reach and c.name in PARENT_FNS:
                R.ob(rule, k + ":" + c.name, isself(f.origins(c.args[0])) and start_or_cur(f.origins(c.args[1])),
                     "asks for the parent of %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        rd = [c for c in f.callsites if c.nid in f.reach and c.name in ("read_parent_file", "get_layer_parent_name")]
        R.ob(rule, k + ":advances", any(cur(f.origins(c.args[1])) for c in rd) or any(is_rec(f, c) for c in f.callsites), "the walk does not move on from parent to parent", w)
        eqs = []

        def iseq(a, truth=True):
            if a[0] != "eq" or a[3] is not truth:
                return False
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if all_param(f.origins(x), 3, ((),)) and start_or_cur(f.origins(y)):
                    return True
            return False
        te = flow.edges_where(f, iseq)
        fe = flow.edges_where(f, lambda a: iseq(a, False))
        R.ob(rule, k + ":compares", bool(te), "nothing is compared with the candidate ancestor", w)
        # true only on an equal comparison
        s = flow.explore_from_start(f, lambda n, l, x: (n, l) in te)
        v = {x for x in exit_values(f, s) if x[0] != "Err"}
        R.ob(rule, k + ":true", v <= {("Ok", False)}, "without an equal name the answer is %s" % show(v), w)
        # false only where a layer without parent was met, after its comparison
        noe = flow.edges_where(f, lambda a: no_parent_fact(f, a) is not None)
        s = flow.explore_from_start(f, lambda n, l, x: (n, l) in noe)
        v = {x for x in exit_values(f, s) if x[0] != "Err"}
        R.ob(rule, k + ":false", v <= {("Ok", True)}, "before the first layer is reached the answer is %s" % show(v), w)
        s = flow.explore_from_start(f, lambda n, l, x: (n, l) in fe)
        v = {x for x in exit_values(f, s) if x[0] != "Err"}
        R.ob(rule, k + ":start", v <= {("Ok", True)}, "without comparing the layer itself the answer is %s" % show(v), w)
        # every parent read is compared before the next one is read
        cmpn = {n for n, l in te | fe}
        for c in rd:
            for n in exec_nodes(f, c):
                again = f.after(n, avoid=cmpn)
                R.ob(rule, k + ":each", not any(m in again for c2 in rd for m in exec_nodes(f, c2)), "a parent is passed over without being compared", f.loc(n))


def is_rec(f, c):
    return c.target == f.entry.id


# ---------------------------------------------------------------------------
SLOT = (1, ("builder",))


def is_slot(ts):
    ts = bare(ts)
    return bool(ts) and all(t[0] == "param" and t[1] == SLOT[0] and t[2] == SLOT[1] for t in ts)


def has_slot(ts):
    return any(t[0] == "param" and t[1] == SLOT[0] and t[2][:1] == SLOT[1] for t in ts)


def slot_type(ty):
    return "Option<" in ty and "LayerBuilder" in ty and "RwLock<" not in ty


def slot_writes(f):
    """[(node, call or None, new value operand or None for 'nothing')]"""
    out = []
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or not c.args:
            continue
        if c.path.startswith(("std::mem::", "core::mem::")) and c.name in ("swap", "replace", "take"):
            for i in range(2 if c.name == "swap" else 1):
                if is_slot(f.origins(c.args[i])):
                    out.append((c.nid, c, None if c.name == "take" else c.args[1 - i]))
                    break
        elif c.name in ("take", "insert", "replace", "get_or_insert", "get_or_insert_with", "take_if") and "Option" in (c.fn or {}).get("impl_self", ""):
            if is_slot(f.origins(c.args[0])):
                out.append((c.nid, c, None if c.name == "take" else (c.args[1] if len(c.args) > 1 else ("k", {}))))
    for nid in f.reach:
        for d, rv, line in f.nodes[nid].stmts:
            ty = f.vtype[d[0]]
            if ty.startswith("&") and "mut" in ty and slot_type(ty) and not d[1]:
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("Option"):
                    if has_slot(f.origins(("p", d[0], (), False))):
                        out.append((nid, None, None if rv[1][2] == "None" else rv[2][0]))
                elif rv[0] == "use":
                    o = rv[1]
                    if o[0] == "p" and not f.vtype[o[1]].startswith("&") and not o[2] and slot_type(f.vtype[o[1]]) and type_head(f.vtype[o[1]]) == "Option":
                        if has_slot(f.origins(("p", d[0], (), False))):
                            out.append((nid, None, o))
    return out


def is_nothing(f, op):
    """the operand is None (apart from what a swap brings back from the slot itself)"""
    if op is None:
        return True
    if op[0] != "p":
        return "None" in str(op)
    ts = [t for t in bare(f.origins(op)) if not is_slot([t])]
    return bool(ts) and all(variant_of(f, t) == "None" or t[0] == "const" and "None" in str(t[2]) for t in ts)


def lb_calls(f):
    return [c for c in f.callsites if c.nid in f.reach and not c.inlined and (c.trait or "").split("::")[-1] == "LayerBuilder"]


def slot_guard(f, nid):
    H = held(f)
    return any(t[1] in EXCL and has_slot(H.lock_of(t)) for t in H.at(nid))


def slot_atom(a, want, got=()):
    """the atom says that the slot (or what was just taken out of it) is `want`"""
    if a[0] != "variant" or set(a[2]) != {want}:
        return False
    t = a[1]
    return t[0] == "param" and t[1] == 1 and t[2] == SLOT[1] or t[0] == "call" and t[1] in got and t[2] == ()


def p05(R, prog):
    R.rule("taken", "what is committed was taken out of the shared slot, under the slot's exclusive lock, leaving nothing behind, before the commit starts; nothing is ever put back")
    R.rule("used-locked", "every other use of the shared builder happens under the exclusive lock of the slot, after seeing that the builder is there")
    R.rule("gone", "once the builder is gone every operation on it ends in an error, and nothing is added, removed or committed")
    R.rule("reports", "committed() is exactly: the slot is empty")
    R.rule("identity", "the name a builder reports is that of the layer builder it holds, and its parent likewise")
    R.rule("consumes", "committing a layer builder consumes it")
    R.floor("taken", 3)
    R.floor("used-locked", 5)
    R.floor("gone", 8)
    R.floor("reports", 2)
    R.floor("identity", 4)
    R.floor("consumes", 2)
    commits = uses = 0
    for b in sorted(prog.find(impl_self="StoreLayerBuilder"), key=lambda b: b.name):
        if not b.vis.startswith("Public") or b.impl_trait or not b.params or b.params[0] != "self":
            continue
        f = flat(prog, b, R=R)
        w = "%s:%d" % (b.file, b.line)
        sw = slot_writes(f)
        cb = [c for c in lb_calls(f) if c.name in ("commit", "commit_boxed")]
        got = {nid for nid, c, v in sw if c is not None and c.name in ("take", "replace")}
        some_e = flow.edges_where(f, lambda a: slot_atom(a, "Some", got))
        none_e = flow.edges_where(f, lambda a: slot_atom(a, "None", got))
        for nid, c, v in sw:
            R.ob("taken", b.name + ":nothing-put", is_nothing(f, v), "something is put into the slot", f.loc(nid))
            R.ob("taken", b.name + ":lock", slot_guard(f, nid), "the slot is changed without its exclusive lock", f.loc(nid))
        taken = [nid for nid, c, v in sw if c is not None and is_nothing(f, v)]
        # a look at the slot counts only if nobody can change it before the act
        some_e = {e for e in some_e if slot_guard(f, e[0]) or taken and f.always_before(e[0], taken)}
        for c in cb:
            commits += 1
            R.ob("taken", b.name + ":source", has_slot(f.origins(c.args[0])) and all(has_slot([t]) for t in bare(f.origins(c.args[0]))),
                 "commits %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
            R.ob("taken", b.name + ":before", f.always_before(c.nid, taken), "the commit starts before the builder was taken out of the slot", f.loc(c.nid))
            R.ob("taken", b.name + ":once", c.nid not in f.after(c.nid, avoid=taken), "the same builder is committed twice", f.loc(c.nid))
            R.ob("taken", b.name + ":run", bool(exec_nodes(f, c)), "the commit is never run", f.loc(c.nid))
        # uses
        touch = [c for c in lb_calls(f) if c not in cb and has_slot(f.origins(c.args[0]))]
        touch = [c for c in touch if not (taken and f.always_before(c.nid, taken))]
        for c in f.callsites:
            if c.nid in f.reach and not c.inlined and c.name in ("call", "call_mut", "call_once") and "ops::Fn" in (c.trait or c.path):
                if any(has_slot([t]) for a in c.args[1:] for t in f.leaves(a)):
                    touch.append(c)
        for c in touch:
            uses += 1
            R.ob("used-locked", "%s:%s:lock" % (b.name, c.name), slot_guard(f, c.nid), "%s without the exclusive lock of the slot" % c.name, f.loc(c.nid))
        acts = [c.nid for c in touch + cb]
        if acts:
            nothing = []                # states in which the builder was just found to be gone
            cut = lambda n, l, x: (n, l) in some_e
            for n in sorted(got):
                c = next(c for c in f.callsites if c.nid == n)
                st = result_starts(f, c, [((), "None")])
                R.ob("gone", b.name + ":no-panic", bool(exit_values(f, explore(f, st, cut))), "finding nothing in the slot when taking the builder out panics", f.loc(n))
                nothing += st
            for n, l in none_e:
                for x in f.xof.get(n, []):
                    for s2, lab, st2 in f._step(n, f.xkey[x][1]):
                        if lab == l:
                            nothing.append((s2, st2))
            gone = explore(f, nothing, cut)
            seen = f.from_start(avoid=got, avoid_edges=some_e)
            bad = [a for a in acts if (a in seen or a in gone) and not (a in got)]
            R.ob("gone", b.name + ":nothing-done", not bad, "%s is reached without seeing that the builder is there" % sorted({c.name for c in touch + cb if c.nid in bad}), w)
            # what is done for each of several things may be done for none of them
            if all(a not in closures_nodes(f) and a not in f.after(a) for a in acts):
                # got through without ever finding it there
                v = exit_values(f, flow.explore_from_start(f, lambda n, l, x: n in got or (n, l) in some_e))
                R.ob("gone", b.name + ":fails", all(x[0] == "Err" for x in v) and bool(v or nothing), "with the builder gone the result is %s" % show(v), w)
            v = exit_values(f, gone)
            R.ob("gone", b.name + ":error", all(x[0] == "Err" for x in v) and bool(v), "after finding the builder gone the result is %s" % show(v), w)
    R.ob("taken", "commit:found", commits >= 1, "no operation of StoreLayerBuilder commits a layer builder")
    R.ob("used-locked", "found", uses >= 4, "only %d uses of the shared builder found" % uses)
    # nothing else in the crate commits the content of a slot
    b = prog.inherent("StoreLayerBuilder", "committed")
    f = flat(prog, b, R=R)
    C = conds(f)
    for truth, want in ((True, "None"), (False, "Some")):
        ok = any(slot_atom(a, want) for a in C.boolean(("p", f.retvar, (), False), truth, 4))
        if not ok:
            e = flow.edges_where(f, lambda a: slot_atom(a, want))
            v = {x[0] for x in exit_values(f, flow.explore_from_start(f, lambda n, l, x: (n, l) in e))}
            ok = bool(e) and v == {not truth}
        R.ob("reports", "committed:%s" % truth, ok, "committed() may be %s although the slot holds %s" % (truth, "a builder" if truth else "nothing"), "%s:%d" % (b.file, b.line))
    # identity
    n = 0
    for b in prog.find(file="src/store/mod.rs"):
        if type_head(b.ret or "") == "" or b.impl_self is None or type_head(b.impl_self) not in ("StoreLayerBuilder", "StoreLayer", "Store"):
            continue
        if b.impl_trait:
            continue
        f = flat(prog, b)
        for nid in f.reach:
            for i, (d, rv, line) in enumerate(f.nodes[nid].stmts):
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("StoreLayerBuilder"):
                    n += 1
                    v = dict(zip(rv[3], rv[2]))
                    held_ts = [t for t in f.leaves(v["builder"], stop=lambda c: c is not None and ((c.trait or "").endswith("LayerBuilder") or c.name in ("create_base_layer", "create_child_layer", "new", "from_parent")) and c.name not in ("new",) )]
                    for fld in ("name", "parent"):
                        ts = bare(f.origins(v[fld]))
                        ok = bool(ts)
                        for t in ts:
                            if t[0] == "param" and t[1] == 1 and t[2] == (fld,):
                                continue        # a copy of another builder
                            c = f.callof(t) if t[0] == "call" else None
                            ok = ok and c is not None and c.name == fld and (c.trait or "").split("::")[-1] == "LayerBuilder" and \
                                same_source(f, c.args[0], v["builder"])
                        R.ob("identity", "%s:%s" % (short(b), fld), ok, "%s is %s" % (fld, tset(f, ts)), f.loc(nid))
                    ts = f.leaves(v["builder"])
                    R.ob("identity", "%s:slot" % short(b), not any(variant_of(f, t) == "None" for t in ts), "a builder is made without content", f.loc(nid))
    # consuming
    for b in prog.bodies.values():
        if b.name in ("commit", "commit_boxed") and (b.impl_trait or "").split("::")[-1] == "LayerBuilder":
            ty = b.locals[1]
            R.ob("consumes", short(b), not ty.startswith("&"), "%s takes its builder by reference" % b.name, "%s:%d" % (b.file, b.line))


def closures_nodes(f):
    """nodes inside closures whose run is not certain"""
    r = f.__dict__.get("_optnodes")
    if r is None:
        runs = {k for k, v in getattr(f, "closure_runs", {}).items() if v[3] or True}
        r = set()
        for x in f.reach:
            c = f.nodes[x].ctx
            while c is not None:
                if c.id in runs and f.p.bodies[c.body.id].kind == "Closure" and not c.body.coroutine and getattr(f, "closure_runs")[c.id][3] is not False:
                    r.add(x)
                    break
                if c.id in runs and not c.body.coroutine and "try_for_each" in callname(f, getattr(f, "closure_runs")[c.id][0]):
                    r.add(x)
                    break
                c = c.parent
        f._optnodes = r
    return r


def callname(f, nid):
    c = f.nodes[nid].call
    return c.name if c is not None else ""


def same_source(f, a, b):
    """both values stem from the same argument or the same creating call"""
    st = lambda c: c is not None and c.name in ("create_base_layer", "create_child_layer")
    x = {t for t in f.leaves(a, stop=st, muts=False) if t[0] in ("param", "call") and not (t[0] == "param" and t[1] == 0)}
    y = {t for t in f.leaves(b, stop=st, muts=False) if t[0] in ("param", "call")}
    x = {(t[0], t[1]) for t in x}
    y = {(t[0], t[1]) for t in y}
    return bool(x & y)
