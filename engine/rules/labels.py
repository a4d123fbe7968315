"""P01, P02: label updates."""
from rules.lib import *
import flow
from rules import codec
from flow import filefx, exec_nodes, await_nodes, after_failure, exit_variants

MAPREAD = ("get", "get_mut", "contains_key", "entry", "get_key_value", "remove", "remove_entry")


def is_map(c):
    return c.fn is not None and ("HashMap" in c.path or "BTreeMap" in c.path or "hash_map" in c.path or "btree_map" in c.path)


def map_reads(f):
    return [c for c in f.callsites if is_map(c) and c.name in ("get", "get_mut", "contains_key", "entry", "get_key_value")]


def map_writes(f):
    """(node, call or None, key operand, value operand)"""
    out = []
    for c in f.callsites:
        if is_map(c) and c.name in ("insert", "insert_entry", "remove", "remove_entry", "clear", "retain", "drain"):
            recv_map = "Entry" not in c.path
            key = c.args[1] if recv_map and len(c.args) > 1 else (c.args[0] if c.args else None)
            val = c.args[-1] if c.name in ("insert", "insert_entry") else None
            out.append((c.nid, c, key, val))
        elif c.name in ("replace", "swap") and c.path.startswith(("std::mem::", "core::mem::")):
            if is_label_ref(f.vtype[c.args[0][1]] if c.args[0][0] == "p" else ""):
                out.append((c.nid, c, c.args[0], c.args[1]))
    for nid in f.reach:
        n = f.nodes[nid]
        for d, rv, line in n.stmts:
            if rv[0] == "use" and is_label_ref(f.vtype[d[0]]) and not d[1]:
                o = rv[1]
                if o[0] == "p" and not f.vtype[o[1]].startswith("&") and type_head(f.vtype[o[1]]) == "Label" and not o[2]:
                    out.append((nid, None, ("p", d[0], (), False), o))
    return out


def is_label_ref(t):
    return t.startswith("&") and "mut" in t and type_head(t) == "Label"


def stored_terms(f, ts):
    """all of the terms are (parts of) what the store holds"""
    ts = [t for t in ts if t[0] != "part"]
    if not ts:
        return False
    for t in ts:
        if t[0] == "param" and t[1] == 1 and "[]" in t[2]:
            continue
        lv = f.leaves(t)
        ok = False
        for x in lv:
            if x[0] == "call":
                c = f.callof(x)
                if (is_map(c) and c.name in MAPREAD) or ((c.trait or "").split("::")[-1] in ("AsyncReadExt", "Read") and c.name.startswith("read")) or (
                        "fs" in c.path and c.name in ("read", "read_to_string")):
                    ok = True
            if x[0] == "mut":
                ok = True
        if not ok:
            # filled by a read into a buffer
            for x in lv:
                if x[0] == "param" and x[1] == 2 and x[2] and x[2][0] in ("layer", "version"):
                    return False
            ok = any(is_filled(f, x) for x in lv)
        if not ok:
            return False
    return True


def is_filled(f, t):
    if t[0] != "call":
        return False
    c = f.callof(t)
    for r in f.callsites:
        if (r.trait or "").split("::")[-1] in ("AsyncReadExt", "Read") and r.name.startswith("read") and len(r.args) > 1:
            for x in f.origins(r.args[1]):
                if x[0] == "call" and x[1] == t[1]:
                    return True
    return False


def label_eq_fields(prog):
    """the fields Label's own equality compares"""
    eqs = [b for b in prog.find(name="eq", impl_self="Label", impl_trait="PartialEq")]
    adt = mem_fields(prog, "Label")
    fields = [x["name"] if isinstance(x, dict) else x[0] for x in adt["variants"][0]["fields"]] if "variants" in adt else []
    return eqs, fields


def put_later(f):
    """values put into the map after which it is not read any more: they are not what was found there"""
    rd = {c.nid for c in map_reads(f)}
    out = set()
    for nid, c, k, v in map_writes(f):
        if not (rd & set(f.after(nid))) and isinstance(v, tuple):
            out |= {t for t in f.origins(v) if t[0] == "agg"}
    return out


def passed_stored_fields(f, atoms, eqfields, i=2):
    """fields of the passed label established equal to the stored one"""
    out = set()
    new = put_later(f)
    for a in atoms:
        if a[0] != "eq" or not a[3]:
            continue
        for A, B in ((a[1], a[2]), (a[2], a[1])):
            ta = [t for t in f.origins(A) if t[0] != "part"]
            tb = f.origins(B)
            if any(t not in new for t in tb):
                tb = {t for t in tb if t not in new}
            if not ta or not all(t[0] == "param" and t[1] == i for t in ta):
                continue
            ps = {t[2] for t in ta}
            if len(ps) != 1:
                continue
            pth = next(iter(ps))
            if pth == ():
                if stored_terms(f, tb):
                    out |= set(eqfields)
            elif len(pth) >= 1 and pth[0] in ("name", "layer", "version"):
                lab = pth[0]
                good = stored_terms(f, tb)
                # the same field of the stored label
                for t in tb:
                    if t[0] == "param" and t[2] and t[2][-1] != lab and "[]" in t[2]:
                        good = False
                if good and len(pth) == 1:
                    out.add(lab)
    return out


def only_from(f, terms, i, paths, depth=0):
    """terms come from nothing but parameter i (under paths)"""
    for t in terms:
        if t[0] == "part":
            continue
        lv = f.leaves(t)
        ps = [x for x in lv if x[0] == "param"]
        if not ps or not all(x[1] == i and (paths is None or any(x[2][:len(q)] == q for q in paths)) for x in ps):
            return False
        if any(x[0] == "expr" and f.stmt(x)[0] in ("bin", "un") for x in lv):
            return False
    return bool(terms)


def is_bump(f, terms, eqok):
    """terms are `version + 1` of the passed (or stored) label"""
    ts = [t for t in terms if t[0] != "part"]
    if not ts:
        return False
    for t in ts:
        if t[0] == "call":
            c = f.callof(t)
            if c.name in ("wrapping_add", "saturating_add", "checked_add", "add") and len(c.args) == 2:
                a, b = c.args
            else:
                return False
        elif t[0] == "expr" and f.stmt(t)[0] == "bin" and f.stmt(t)[1] in ("Add", "AddWithOverflow", "AddUnchecked"):
            a, b = f.stmt(t)[2], f.stmt(t)[3]
        else:
            return False
        ok = False
        for x, y in ((a, b), (b, a)):
            ty = f.origins(y)
            if all(z[0] == "const" and str(z[2]) == "1" for z in ty) and ty:
                tx = f.origins(x)
                if tx and all((z[0] == "param" and z[1] == 2 and z[2] == ("version",)) for z in tx):
                    ok = True
                elif eqok and tx and stored_terms(f, tx):
                    ok = True
        if not ok:
            return False
    return True


def layer_is_param(f, op_or_terms, i):
    """an Option that is parameter i, or Some(its payload), or None where it is None"""
    C = conds(f)
    for t in op_or_terms:
        if t[0] == "part":
            continue
        if t[0] == "param" and t[1] == i and t[2] == ():
            continue
        v = variant_of(f, t)
        if v == "Some":
            o = f.stmt(t)[2][0]
            ts = f.origins(o)
            if ts and all(x[0] == "param" and x[1] == i and x[2] in (("!",), ("Some.0",)) for x in ts):
                continue
            return False
        if v == "None":
            if any(a[0] == "variant" and a[1][0] == "param" and a[1][1] == i and a[2] == ("None",) for a in C.facts(t[1])):
                continue
            return False
        return False
    return bool(op_or_terms)


def mutation_points(f):
    """[(node, what, call)]: everything that changes the store"""
    fx = filefx(f)
    out = []
    for nid, c, k, v in map_writes(f):
        out.append((nid, "map:" + (c.name if c else "assign"), c))
    for c, opens, kind in fx.writes:
        for n in exec_nodes(f, c):
            out.append((n, "file:" + c.name, c))
    for nid, o in fx.opens.items():
        if o.modes.get("truncate") or o.modes.get("create"):
            for n in exec_nodes(f, o.call):
                out.append((n, "file:open", o.call))
    for c, *_ in fx.renames:
        for n in exec_nodes(f, c):
            out.append((n, "file:rename", c))
    for c, _ in fx.whole + fx.removes:
        for n in exec_nodes(f, c):
            out.append((n, "file:" + c.name, c))
    return out


def dedupe_tokens(H, toks):
    return {t for t in toks if t[1] in EXCL}


def stored_read_nodes(f):
    """nodes at which the stored label is read"""
    out = []
    for c in map_reads(f):
        out.append((c.nid, c))
    fx = filefx(f)
    for c, opens in fx.reads:
        for n in exec_nodes(f, c):
            out.append((n, c))
    for c in f.callsites:
        if flow.is_fs(c, "read", "read_to_string") and "OpenOptions" not in c.path:
            for n in exec_nodes(f, c):
                out.append((n, c))
    return out


def label_stores(prog):
    return sorted({type_head(b.impl_self): b for b in prog.find(name="set_label_option", impl_trait="LabelStore")}.items())


def p01(R, prog):
    R.rule("label-eq", "equality of labels compares every field of a label")
    R.rule("cas-compare", "every point of a label update that changes the store or reports success is reached only where the passed label "
           "has been found equal (name, layer and version) to the stored one")
    R.rule("cas-exclusive", "one exclusive lock is held from reading the stored label to the last change of the store")
    R.rule("cas-outcome", "success is reported exactly after the change was made, and refusal only where nothing was changed")
    R.rule("cas-value", "the label written and returned keeps the name, carries the requested layer and the version raised by one")
    R.rule("create-absent", "a label is created only where, under the same exclusive lock or by an exclusive file creation, none was found to exist")
    R.rule("create-value", "a created label has the requested name, no layer and version 0")
    R.rule("delete", "deleting removes the named label only, under the exclusive lock, and reports true only after removing it")
    R.rule("default", "set_label and clear_label are set_label_option with the given layer, or none, of the same label")
    eqs, fields = label_eq_fields(prog)
    adt = mem_fields(prog, "Label")
    compared = set()
    for b in eqs:
        f = flat(prog, b, R=R)
        # fields that must be equal for the result to be true
        names = set()
        for c in f.callsites:
            if c.name in ("eq", "ne") and len(c.args) == 2:
                pa = {t[2][0] for t in f.origins(c.args[0]) if t[0] == "param" and t[2]}
                pb = {t[2][0] for t in f.origins(c.args[1]) if t[0] == "param" and t[2]}
                names |= pa & pb
        for nid in f.reach:
            for d, rv, line in f.nodes[nid].stmts:
                if rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
                    pa = {t[2][0] for t in f.origins(rv[2]) if t[0] == "param" and t[2]}
                    pb = {t[2][0] for t in f.origins(rv[3]) if t[0] == "param" and t[2]}
                    names |= pa & pb
        compared = names
        R.ob("label-eq", "Label::eq", {"name", "layer", "version"} <= names, "Label equality compares only %s" % sorted(names), "%s:%d" % (b.file, b.line))
    R.ob("label-eq", "Label:impl", len(eqs) == 1, "Label has no equality")
    stores = label_stores(prog)
    R.floor("cas-compare", 4)
    R.floor("cas-exclusive", 4)
    R.floor("create-absent", 3)
    for S, b in stores:
        cas_rules(R, prog, S, b, compared)
        create_rules(R, prog, S, prog.impl_fn(S, "LabelStore", "create_label"))
        delete_rules(R, prog, S, prog.impl_fn(S, "LabelStore", "delete_label"))
    codec.labels(R, prog, is_bump)
    R.ob("cas-compare", "stores", len(stores) >= 3, "only %d label stores" % len(stores))
    # trait defaults, and overrides if any
    tr = [x for x in prog.traits.values() if x["id"].split("::")[-1] == "LabelStore"][0]
    target = {tr["id"] + "::set_label_option"} | {b.id for _, b in stores}
    for nm in ("set_label", "clear_label"):
        bs = [b for b in prog.find(name=nm) if b.in_trait and b.in_trait.split("::")[-1] == "LabelStore" or (b.impl_trait or "").split("::")[-1] == "LabelStore" and b.name == nm]
        bs = [b for b in bs if b.name == nm]
        R.ob("default", nm + ":exists", len(bs) >= 1, "no definition of %s" % nm)
        for b in bs:
            f = flat(prog, b, opaque=target, R=R)
            cs = [c for c in f.callsites if c.path in target or c.target in target]
            if not R.ob("default", short(b) + ":calls", len(cs) == 1 and f.always_before(f.exit, [n for c in cs for n in exec_nodes(f, c)]), "does not run set_label_option exactly once", "%s:%d" % (b.file, b.line)):
                continue
            c = cs[0]
            R.ob("default", short(b) + ":label", param_only(f.origins(c.args[1]), 2), "updates %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
            ts = f.origins(c.args[2])
            if nm == "set_label":
                ok = bool(ts) and all(variant_of(f, t) == "Some" and param_only(f.origins(f.stmt(t)[2][0]), 3) for t in ts)
            else:
                ok = bool(ts) and all(variant_of(f, t) == "None" or (t[0] == "const" and "None" in str(t)) for t in ts)
            R.ob("default", short(b) + ":layer", ok, "passes %s" % tset(f, ts), f.loc(c.nid))
            rs = f.res(f.retvar, ())
            R.ob("default", short(b) + ":result", bool(rs) and all((t[0] == "call" and t[1] == c.nid) or (t[0] in ("residual",)) or
                 (t[0] == "agg" and any(x[0] == "call" and x[1] == c.nid for x in f.leaves(t))) for t in rs), "returns %s" % tset(f, rs), "%s:%d" % (b.file, b.line))


def cas_rules(R, prog, S, b, compared):
    f = flat(prog, b, R=R)
    C = conds(f)
    H = held(f)
    w = "%s:%d" % (b.file, b.line)
    muts = mutation_points(f)
    R.ob("cas-compare", S + ":writes", bool(muts), "a label update writes nothing", w)
    # outcomes
    some, none, other = [], [], []
    for k, n, t in returns(f):
        if k == "err":
            continue
        if k == "ok":
            for x in f.origins(f.stmt(t)[2][0]):
                v = variant_of(f, x)
                if v == "Some":
                    some.append((max_node(f, n, x), x, n))
                elif v == "None":
                    none.append((x[1], x, n))
                else:
                    other.append((n, x))
        else:
            other.append((n, t))
    for n, t in other:
        R.ob("cas-outcome", S + ":outcome", False, "the outcome %s cannot be decided" % tshow(f, t), f.loc(n) if n is not None else w)
    points = [(n, what) for n, what, c in muts if n in f.reach]
    need = {"layer", "version"}
    for n, what in points + [(n, "success") for n, x, rn in some]:
        facts = list(C.facts(n))
        for n2, x, rn in some:
            if what == "success" and n2 == n and rn is not None:
                facts += C.facts(rn)
        got = passed_stored_fields(f, facts, compared)
        # the label is looked up by its name
        R.ob("cas-compare", "%s:%s" % (S, what), need <= got, "reached without the passed label having been found equal to the stored one (established: %s)" % (sorted(got) or "nothing"), f.loc(n))
    reads = stored_read_nodes(f)
    R.ob("cas-compare", S + ":reads", bool(reads), "the stored label is not read", w)
    # keys
    for n, c in reads:
        if is_map(c):
            R.ob("cas-value", S + ":lookup", name_key(f, c.args[1]), "the stored label is looked up under %s" % tset(f, f.origins(c.args[1])), f.loc(n))
    common = None
    for n, c in [(n, c) for n, c in reads] + [(n, what) for n, what in points]:
        toks = dedupe_tokens(H, H.at(n))
        common = toks if common is None else common & toks
    R.ob("cas-exclusive", S, bool(common), "no exclusive lock is held from the read of the stored label to every change", w)
    for n, what in points:
        R.ob("cas-exclusive", "%s:%s" % (S, what), bool(dedupe_tokens(H, H.at(n)) & (common or set())), "%s without the exclusive lock the comparison was made under" % what, f.loc(n))
    # the lock is the store's own
    for tok in (common or ()):
        lk = H.lock_of(tok)
        if lk and tok[1] != "ExclusiveLockedFile":
            R.ob("cas-exclusive", S + ":lock", all(t[0] == "param" and t[1] == 1 for t in lk), "the lock is %s" % tset(f, lk), f.loc(tok[0]))
    # outcome order
    for n, x, rn in some:
        for grp in sorted({what.split(":")[0] for _, what in points}):
            via = [m for m, what in points if what.split(":")[0] == grp]
            R.ob("cas-outcome", "%s:some-after-%s" % (S, grp), on_the_way(f, n, rn, via), "success is reported on a path that did not make the change (%s)" % grp, f.loc(rn))
    for n, x, rn in none:
        for m, what in points:
            R.ob("cas-outcome", "%s:none-after-%s" % (S, what), n not in f.after(m) and not (m in f.after(n) and rn in f.after(m)), "refusal is reported after the store was changed", f.loc(n))
    R.ob("cas-outcome", S + ":refusal", bool(none), "a failing comparison is never reported", w)
    R.ob("cas-outcome", S + ":success", bool(some), "a successful update is never reported", w)
    # values
    for n, x, rn in some:
        o = f.stmt(x)[2][0]
        lab = ("p", o[1], o[2], False) if o[0] == "p" else None
        check_label_value(R, f, S + ":returned", lab, f.loc(n))
    fx = filefx(f)
    for nid, c, k, v in map_writes(f):
        if v is None:
            R.ob("cas-value", S + ":removed", False, "a label update removes an entry", f.loc(nid))
            continue
        check_label_value(R, f, S + ":stored", ("p", v[1], v[2], False) if v[0] == "p" else None, f.loc(nid))
        if c is not None and not (c.path.startswith(("std::mem", "core::mem")) or "Entry" in c.path):
            R.ob("cas-value", S + ":key", name_key(f, k), "stored under %s" % tset(f, f.origins(k)), f.loc(nid))
    for c, opens, kind in fx.writes:
        if kind != "write" or len(c.args) < 2:
            continue
        lv = f.leaves(c.args[1])
        ex = [t for t in lv if t[0] == "expr" or (t[0] == "call" and f.callof(t).name in ("wrapping_add", "checked_add", "add"))]
        okv = any(is_bump(f, [t], True) for t in ex)
        okl = any(t[0] == "param" and t[1] == 3 for t in lv)
        bad = [t for t in lv if t[0] == "param" and t[1] == 2 and t[2][:1] == ("layer",)]
        R.ob("cas-value", S + ":file-version", okv, "the raised version is not what is written", f.loc(c.nid))
        R.ob("cas-value", S + ":file-layer", okl and not bad, "the requested layer is not what is written", f.loc(c.nid))
    for nid, o in fx.opens.items():
        if o.writable:
            R.ob("cas-value", S + ":file-name", any(isinstance(k, tuple) and k[0] == 2 and k[1] == ("name",) for k in o.key), "the file opened is not that of the label", f.loc(nid))
    for c, a, z in fx.renames:
        R.ob("cas-value", S + ":file-name", any(isinstance(k, tuple) and k[0] == 2 and k[1] == ("name",) for k in z), "the file replaced is not that of the label", f.loc(c.nid))


def on_the_way(f, mid, end, via):
    """every path start -> mid -> end passes through a node of `via`"""
    if mid in f.from_start(avoid=via) and (end == mid or end in f.after(mid, avoid=via)):
        return False
    return True


def max_node(f, n, x):
    return x[1]


def name_key(f, op, i=2, pth=("name",)):
    """a key that is the label's name"""
    ts = [t for t in f.origins(op) if t[0] != "part"]
    if not ts:
        return False
    for t in ts:
        lv = f.leaves(t)
        ps = {(x[1], x[2]) for x in lv if x[0] == "param" and x[1] != 1}
        if ps != {(i, pth)}:
            return False
    return True


def check_label_value(R, f, key, lab, where):
    if lab is None:
        R.ob("cas-value", key, False, "not a label", where)
        return
    def fld(n):
        return f.origins(("p", lab[1], lab[2] + (n,), False))
    R.ob("cas-value", key + ":version", is_bump(f, fld("version"), True), "version is %s" % tset(f, fld("version")), where)
    R.ob("cas-value", key + ":layer", layer_is_param(f, fld("layer"), 3), "layer is %s" % tset(f, fld("layer")), where)
    nm = fld("name")
    ok = bool(nm)
    for t in nm:
        if t[0] == "part":
            continue
        if t[0] == "param" and t[1] == 1 and "[]" in t[2] and t[2][-1] == "name":
            continue
        ps = {(x[1], x[2]) for x in f.leaves(t) if x[0] == "param"}
        if ps != {(2, ("name",))}:
            ok = False
    R.ob("cas-value", key + ":name", ok, "name is %s" % tset(f, nm), where)


def absent_facts(f, n):
    """tokens-independent: is 'no such entry in the map' established at n?  returns lookup nodes"""
    out = []
    for a in conds(f).facts(n):
        if a[0] == "variant" and a[1][0] == "call" and a[2] in (("None",), ("Vacant",)):
            c = f.callof(a[1])
            if is_map(c):
                out.append(c)
        elif a[0] == "variant" and a[1][0] == "param" and a[1][1] == 1 and "[]" in a[1][2] and a[2] == ("None",):
            out.append(None)
        elif a[0] == "bool" and a[1][0] == "call" and a[2] is False:
            c = f.callof(a[1])
            if is_map(c) and c.name == "contains_key":
                out.append(c)
        elif a[0] == "is" and a[2] == "None":
            for t in f.leaves(a[1], muts=False):
                if t[0] == "call" and is_map(f.callof(t)) and f.callof(t).name in ("get", "get_mut", "get_key_value"):
                    out.append(f.callof(t))
    return out


def create_rules(R, prog, S, b):
    f = flat(prog, b, R=R)
    H = held(f)
    fx = filefx(f)
    w = "%s:%d" % (b.file, b.line)
    muts = [(n, what, c) for n, what, c in mutation_points(f)]
    opens = [(n, "file:create", o) for nid, o in fx.opens.items() if o.writable or o.creates for n in exec_nodes(f, o.call)]
    R.ob("create-absent", S + ":writes", bool(muts or opens), "creating a label writes nothing", w)
    for n, what, o in opens:
        ok = o.fresh
        if not ok:
            looks = [c for c in absent_facts(f, n) if c is not None]
            ok = any(dedupe_tokens(H, H.at(c.nid)) & dedupe_tokens(H, H.at(n)) for c in looks)
        R.ob("create-absent", "%s:%s" % (S, what), ok, "the label file is opened for writing although the label may exist", f.loc(n))
        R.ob("create-value", S + ":file-name", any(isinstance(k, tuple) and k == (2, ()) for k in o.key), "the file created is not that of the label", f.loc(n))
    for n, what, c in muts:
        if what.startswith("map:"):
            looks = absent_facts(f, n)
            ok = bool(looks)
            for l in looks:
                if l is None:
                    continue
                ok = ok and bool(dedupe_tokens(H, H.at(l.nid)) & dedupe_tokens(H, H.at(n))) and name_key(f, l.args[1], 2, ())
            R.ob("create-absent", "%s:%s" % (S, what), ok, "the entry is written although the label may exist", f.loc(n))
        elif what == "file:rename" or what.startswith("file:write") and c.name == "write" and "fs::write" in c.path:
            looks = [c2 for c2 in absent_facts(f, n) if c2 is not None]
            R.ob("create-absent", "%s:%s" % (S, what), any(dedupe_tokens(H, H.at(c2.nid)) & dedupe_tokens(H, H.at(n)) for c2 in looks),
                 "replaces a file although the label may exist", f.loc(n))
    for nid, c, k, v in map_writes(f):
        R.ob("create-value", S + ":key", name_key(f, k, 2, ()), "stored under %s" % tset(f, f.origins(k)), f.loc(nid))
        if v is not None and v[0] == "p":
            check_new_label(R, f, S + ":stored", ("p", v[1], v[2], False), f.loc(nid))
        else:
            R.ob("create-value", S + ":stored", False, "creation removes an entry", f.loc(nid))
    for k, n, t in returns(f):
        if k == "err":
            continue
        R.ob("create-absent", S + ":success", f.always_before(n, [m for m, _, _ in muts]) if n is not None else False, "success without anything written", f.loc(n) if n is not None else w)
        if k == "ok":
            o = f.stmt(t)[2][0]
            if o[0] == "p":
                check_new_label(R, f, S + ":returned", ("p", o[1], o[2], False), f.loc(n))
    data = [c for c, o, kind in fx.writes if kind == "write" and len(c.args) > 1]
    for c in data:
        lv = f.leaves(c.args[1])
        cs = [str(t[2]).replace("\\n", "\n") for t in lv if t[0] == "const"]
        cs = [x[2:-1] if x.startswith('b"') else x.strip('"') for x in cs]
        formatted = any(t[0] == "call" and f.callof(t).name == "format" for t in lv)
        R.ob("create-value", S + ":file-content", formatted or "0\n\n" in cs, "the file content is %s" % cs, f.loc(c.nid))


def check_new_label(R, f, key, lab, where):
    def fld(n):
        return [t for t in f.origins(("p", lab[1], lab[2] + (n,), False)) if t[0] != "part"]
    v = fld("version")
    R.ob("create-value", key + ":version", bool(v) and all(t[0] == "const" and str(t[2]) == "0" for t in v), "version is %s" % tset(f, v), where)
    l = fld("layer")
    R.ob("create-value", key + ":layer", bool(l) and all(variant_of(f, t) == "None" for t in l), "layer is %s" % tset(f, l), where)
    n = fld("name")
    ok = bool(n) and all({(x[1], x[2]) for x in f.leaves(t) if x[0] == "param"} == {(2, ())} for t in n)
    R.ob("create-value", key + ":name", ok, "name is %s" % tset(f, n), where)


def delete_rules(R, prog, S, b):
    f = flat(prog, b, R=R)
    H = held(f)
    fx = filefx(f)
    w = "%s:%d" % (b.file, b.line)
    maps = [(nid, c, k) for nid, c, k, v in map_writes(f)]
    for nid, c, k in maps:
        if c is None or c.name not in ("remove", "remove_entry"):
            R.ob("delete", S + ":op", False, "deleting a label changes the map otherwise than by removing an entry", f.loc(nid))
            continue
        R.ob("delete", S + ":key", name_key(f, k, 2, ()) or "Entry" in c.path, "removes %s" % tset(f, f.origins(k)), f.loc(nid))
        R.ob("delete", S + ":lock", bool(dedupe_tokens(H, H.at(nid))), "removes without the exclusive lock", f.loc(nid))
    for c, k in fx.removes:
        R.ob("delete", S + ":file", (2, ()) in k and c.name == "remove_file", "removes the wrong file", f.loc(c.nid))
    steps = [[nid for nid, c, k in maps]] if maps else []
    if fx.removes:
        steps.append([n for c, k in fx.removes for n in exec_nodes(f, c)])
    R.ob("delete", S + ":removes", bool(steps) and all(steps), "deleting a label removes nothing", w)
    for k, n, t in returns(f):
        if k == "err":
            continue
        vs = [x for x in f.origins(f.stmt(t)[2][0])] if k == "ok" else [t]
        for x in vs:
            if x[0] == "const" and x[1] == "bool":
                if x[2]:
                    for s in steps:
                        R.ob("delete", S + ":true", f.always_before(n, s), "reports the label deleted without removing it", f.loc(n))
                else:
                    mset = [m for m, c, kk in maps]
                    R.ob("delete", S + ":false", not any(n in f.after(m) for m in mset), "reports no label after removing one", f.loc(n))
            elif x[0] == "call":
                c = f.callof(x)
                ok = c.name == "is_some" and all(z[0] == "call" and is_map(f.callof(z)) and f.callof(z).name.startswith("remove")
                                                 or z[0] == "param" and "[]" in z[2] for z in f.origins(c.args[0]))
                R.ob("delete", S + ":result", ok, "reports %s" % tshow(f, x), f.loc(n) if n is not None else w)
            elif x[0] in ("expr", "agg"):
                R.ob("delete", S + ":result", True)
