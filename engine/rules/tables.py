"""P08: every layer file has one identity - name, archive slot, list, place."""
from rules.lib import *
from rules.names import role
from rules import finish, graph
from symval import sym

PARTS4 = (("nums", ".logarray"), ("bits", ".bitarray"), ("bit_index_blocks", ".logarray"), ("bit_index_sblocks", ".logarray"))
CAMEL = {"nums": "Nums", "bits": "Bits", "bit_index_blocks": "BitIndexBlocks", "bit_index_sblocks": "BitIndexSBlocks"}
DICTS = ["node_dictionary_blocks", "node_dictionary_offsets", "predicate_dictionary_blocks", "predicate_dictionary_offsets",
         "value_dictionary_types_present", "value_dictionary_type_offsets", "value_dictionary_blocks", "value_dictionary_offsets"]
IDMAPS = [k + x for k in ("node_value_idmap_", "predicate_idmap_") for x in ("bits", "bit_index_blocks", "bit_index_sblocks")]


def adj(pol):
    return [pol + "_" + i + "_adjacency_list_" + x for i in ("s_p", "sp_o", "o_ps") for x, _ in PARTS4]


def wav(pol):
    return [pol + "_predicate_wavelet_tree_" + x for x, _ in PARTS4[1:]]


def ends(pol):
    return [pol + "_subjects", pol + "_objects"]


def names():
    """the names of the on-disk format: table field -> file name"""
    r = {"parent": "parent.hex", "rollup": "rollup.hex"}
    for d in DICTS:
        r[d] = d + (".tfc" if d.endswith("_blocks") else ".logarray")
    r["value_dictionary_types_present"] = "value_dictionary_types.logarray"
    for m in IDMAPS:
        r[m] = m + ".bitarray"
    for pol in ("base", "pos", "neg"):
        for n in adj(pol) + wav(pol):
            r[n] = n + next(e for x, e in PARTS4 if n.endswith("_" + x))
        for n in ends(pol):
            r[n] = ("" if pol == "base" else "child_") + n + ".logarray"
    return r


def slots():
    """the slots of the archive format: number -> (slot name, the files stored there)"""
    order = [("".join(w.capitalize() for w in d.split("_")), [d]) for d in DICTS]
    for m in IDMAPS:
        k, x = m.split("_idmap_")
        order.append(("".join(w.capitalize() for w in k.split("_")) + "IdMap" + CAMEL[x], [m]))
    for pol in ("pos", "neg"):
        for n in ends(pol):
            order.append(("".join(w.capitalize() for w in n.split("_")), [n] + (["base" + n[3:]] if pol == "pos" else [])))
    for pol in ("pos", "neg"):
        for n in adj(pol):
            i = next(i for i in ("s_p", "sp_o", "o_ps") if n.startswith(pol + "_" + i + "_"))
            x = n.split("_list_")[1]
            order.append((pol.capitalize() + {"s_p": "SP", "sp_o": "SpO", "o_ps": "OPs"}[i] + "AdjacencyList" + CAMEL[x], [n] + (["base" + n[3:]] if pol == "pos" else [])))
        for n in wav(pol):
            order.append((pol.capitalize() + "PredicateWaveletTree" + CAMEL[n.split("_tree_")[1]], [n] + (["base" + n[3:]] if pol == "pos" else [])))
    order += [("Parent", ["parent"]), ("Rollup", ["rollup"])]
    return order


LISTS = {"SHARED_REQUIRED_FILES": DICTS,
         "SHARED_OPTIONAL_FILES": IDMAPS + ["rollup"],
         "BASE_LAYER_REQUIRED_FILES": adj("base") + wav("base"),
         "BASE_LAYER_OPTIONAL_FILES": ends("base"),
         "CHILD_LAYER_REQUIRED_FILES": ["parent"] + adj("pos") + wav("pos") + adj("neg") + wav("neg"),
         "CHILD_LAYER_OPTIONAL_FILES": ends("pos") + ends("neg")}


def const_body(prog, name):
    bs = [b for k, b in prog.bodies.items() if k.split("::")[-1] == name]
    if len(bs) != 1:
        raise Missing("constant `%s` resolves to %d definitions" % (name, len(bs)))
    return bs[0]


def strval(prog, t, depth=4):
    """the string a constant term stands for"""
    if t[0] != "const" or not depth:
        return None
    if t[1] == "str":
        return t[2] if not t[3] else None
    if t[1] == "def" and t[2] in prog.bodies:
        f = flat(prog, prog.bodies[t[2]])
        v = {strval(prog, x, depth - 1) for x in f.res(f.retvar, tuple(t[3]))}
        return v.pop() if len(v) == 1 else None
    return None


def arrays(f):
    """the literal arrays built in a function"""
    return [rv for n in sorted(f.reach) for d, rv, ln in f.nodes[n].stmts if rv[0] == "agg" and rv[1] == ("array",)]


def one_str(f, op):
    v = {strval(f.p, t) for t in f.origins(op)}
    return v.pop() if len(v) == 1 else None


def check_tables(R, prog):
    R.rule("name", "every layer file has its own file name, the one of the storage format")
    R.rule("slot", "every layer file has its own archive slot with the number of the archive format; only the like-named structures of base and child layers share one")
    R.rule("list", "the lists of required and optional files hold exactly the files of the layer kind they name, once each")
    want = names()
    b = const_body(prog, "FILENAMES")
    f = flat(prog, b)
    adt = mem_fields(prog, "Filenames")
    fields = [x[0] for x in adt["variants"][0]["fields"]]
    val = {}
    for n in fields:
        v = {strval(prog, t) for t in f.res(f.retvar, (n,))}
        val[n] = v.pop() if len(v) == 1 else None
    loc = "%s:%d" % (b.file, b.line)
    for n in want:
        if n not in val:
            R.ob("name", n, False, "the file table has no entry `%s`" % n, loc)
            continue
        R.ob("name", n, val[n] == want[n], "" if val[n] == want[n] else "the file of `%s` is %s; its name in the storage format is %s" % (n, val[n], want[n]), loc)
    for n in val:
        dup = [m for m in val if m != n and val[m] == val[n]]
        R.ob("name", n + " distinct", not dup, "" if not dup else "`%s` and `%s` share the file name %s" % (n, dup[0], val[n]), loc)
    R.saw(f)
    # slots
    en = mem_fields(prog, "LayerFileEnum")
    number = {v["name"]: int(v["discr"]) for v in en["variants"]}
    sl = slots()
    for i, (v, files) in enumerate(sl):
        R.ob("slot", "number of " + v, number.get(v) == i, "" if number.get(v) == i else "slot `%s` has number %s; in the archive format it is %d" % (v, number.get(v), i), en["id"])
    R.ob("slot", "numbers distinct", len(set(number.values())) == len(number), "two archive slots share a number", en["id"])
    R.ob("slot", "numbers in the presence word", all(0 <= x < 64 for x in number.values()), "a slot number does not fit the presence word", en["id"])
    got = {}
    lz = [x for k, x in prog.bodies.items() if "FILENAME_ENUM_MAP" in k and k.endswith("__static_ref_initialize")]
    if len(lz) != 1:
        raise Missing("initialiser of FILENAME_ENUM_MAP")
    f = flat(prog, lz[0])
    rows = 0
    for rv in arrays(f):
        for o in rv[2]:
            for u in f.origins(o):
                if u[0] != "agg" or f.stmt(u)[1] != ("tuple",):
                    continue
                k, v = f.stmt(u)[2]
                s = one_str(f, k)
                rows += 1
                if s is not None:
                    got.setdefault(s, set()).update({f.stmt(x)[1][2] for x in f.origins(v) if x[0] == "agg"})
    R.saw(f)
    loc = "%s:%d" % (lz[0].file, lz[0].line)
    for v, files in sl:
        for n in files:
            g = got.get(val.get(n), set())
            R.ob("slot", "slot of " + n, g == {v}, "" if g == {v} else "file `%s` is stored in slot %s instead of %s" % (n, "/".join(sorted(g)) or "(none)", v), loc)
    R.ob("slot", "rows", rows == len(val), "" if rows == len(val) else "the slot table has %d rows for %d files" % (rows, len(val)), loc)
    # lists
    for l, members in LISTS.items():
        b = const_body(prog, l)
        f = flat(prog, b)
        ops = [o for t in f.res(f.retvar, ()) if t[0] == "agg" for o in f.stmt(t)[2]]
        vs = [one_str(f, o) for o in ops]
        wl = [val.get(m) for m in members]
        loc = "%s:%d" % (b.file, b.line)
        back = {v: k for k, v in val.items()}
        for m in members:
            k = vs.count(val.get(m))
            R.ob("list", "%s: %s" % (l, m), k == 1, "" if k == 1 else "%s lists `%s` %d times" % (l, m, k), loc)
        extra = [v for v in vs if v not in wl]
        R.ob("list", l + ": nothing else", not extra, "" if not extra else "%s lists %s, which such a layer does not have there" % (l, ", ".join("`%s`" % back.get(v, v) for v in extra)), loc)
        R.saw(f)
    R.floor("name", 120)
    R.floor("slot", 100)
    R.floor("list", 60)
    return val


# ------------------------------------------------------------- layer kind

def file_name(f, op):
    """table entries an operand names"""
    r = set()
    for t in f.origins(op):
        if t[0] == "const" and t[1] == "def" and t[2].endswith("::FILENAMES") and len(t[3]) == 1:
            r.add(t[3][0])
    return r


def kind_of(n):
    return "base" if n.startswith("base_") else "child" if n.startswith(("pos_", "neg_")) else None


def parent_facts(f, nid, layer):
    """what is known at nid about `layer` having a parent"""
    r = set()
    for a in conds(f).facts(nid):
        if a[0] == "bool" and a[1][0] == "call":
            c = f.callof(a[1])
            if c is not None and c.name == "layer_has_parent" and f.origins(c.args[1]) == layer:
                r.add(a[2])
        if a[0] == "variant" and a[1][0] == "call":
            c = f.callof(a[1])
            if c is not None and c.name == "layer_parent" and f.origins(c.args[1]) == layer and len(a[2]) == 1:
                r.add("Some" in a[2])
    return r


def check_kind(R, prog):
    R.rule("kind", "files of a base layer are used only for a layer without a parent, files of a child layer only for a layer with one")
    fns = [b for b in prog.bodies.values() if b.kind in ("AssocFn", "Fn") and not b.name.startswith("test")]
    names_used = {}
    deferred = {}
    for b in fns:
        f = flat(prog, b, inline=lambda x, d: x.kind not in ("Fn", "AssocFn"))
        uses = []
        for c in f.callsites:
            if c.nid in f.reach and c.name in ("get_file", "file_exists") and len(c.args) == 3:
                for nm in file_name(f, c.args[2]):
                    if kind_of(nm):
                        uses.append((c, nm))
        if not uses:
            # a table of names walked in a loop
            ks = {kind_of(x) for x in table_names(f)} - {None}
            if ks and (b.in_trait or b.impl_self):
                names_used[b.name] = ks
                R.ob("kind", "table of " + b.name, len(ks) == 1, "" if len(ks) == 1 else "`%s` mixes the files of base and child layers" % b.name)
        facts = {id(c): parent_facts(f, c.nid, f.origins(c.args[1])) for c, nm in uses}
        if uses and not any(facts.values()) and len({kind_of(x) for _, x in uses}) == 1 and all(param_only(f.origins(c.args[1]), 2) for c, _ in uses):
            # only for layers of one kind: whoever calls it has to know
            names_used[b.name] = {kind_of(x) for _, x in uses}
            deferred[b.name] = (b, f, uses[0])
            continue
        for c, nm in uses:
            q = facts[id(c)]
            want = kind_of(nm) == "child"
            R.ob("kind", "%s: %s" % (short(b), nm), q == {want},
                 "" if q == {want} else "`%s` uses file `%s` of a %s layer where the layer is %s" % (short(b), nm, kind_of(nm), "known to be of the other kind" if q else "not known to be one"), f.loc(c.nid))
        if uses:
            R.saw(f)
    # users of what is meant for one kind of layer
    work = set(names_used)
    called = set()
    while work:
        now, work = work, set()
        for b in fns:
            f = flat(prog, b, inline=lambda x, d: x.kind not in ("Fn", "AssocFn"))
            for c in f.callsites:
                if c.nid not in f.reach or c.inlined or c.name not in now or len(c.args) != 2 or len(names_used[c.name]) != 1:
                    continue
                called.add(c.name)
                kind = next(iter(names_used[c.name]))
                want = kind == "child"
                layer = f.origins(c.args[1])
                created = layer and all(t[0] == "call" and f.callof(t).name in ("create_directory", "create_named_directory") for t in layer)
                q = parent_facts(f, c.nid, layer)
                if created:
                    w = [x for x in f.callsites if x.nid in f.reach and x.name == "write_parent_file" and f.origins(x.args[1]) == layer]
                    ok = bool(w) == want
                    R.ob("kind", "%s: %s of a new layer" % (short(b), c.name), ok,
                         "" if ok else "`%s` builds the files of a %s layer in a new layer %s" % (short(b), kind, "that is given a parent" if w else "that is given no parent"), f.loc(c.nid))
                    R.saw(f)
                elif q:
                    ok = q == {want}
                    R.ob("kind", "%s: %s of a tested layer" % (short(b), c.name), ok,
                         "" if ok else "`%s` reads the files of a %s layer from a layer known to be of the other kind" % (short(b), kind), f.loc(c.nid))
                    R.saw(f)
                elif c.name in deferred and param_only(layer, 2):
                    if b.name not in names_used and b.vis != "pub" and not b.in_trait and not b.impl_trait:
                        names_used[b.name] = {kind}
                        deferred[b.name] = (b, f, (c, c.name))
                        work.add(b.name)
                    else:
                        R.ob("kind", "%s: %s" % (short(b), c.name), False, "`%s` uses the files of a %s layer through `%s` where the layer is not known to be one" % (short(b), kind, c.name), f.loc(c.nid))
    for nm, (b, f, u) in sorted(deferred.items()):
        if nm not in called:
            R.ob("kind", "%s: %s" % (short(b), u[1]), False, "`%s` uses file `%s` where the layer is not known to be of that kind" % (short(b), u[1]), f.loc(u[0].nid))
    R.floor("kind", 40)
    # links, and the layer asked for
    R.rule("link", "the parent link is kept in the parent file and the rollup link in the rollup file, of the layer asked about")
    R.rule("own", "the files opened for a layer are that layer's own")
    for b in fns:
        if not b.in_trait and not b.impl_self:
            continue
        f = flat(prog, b, inline=lambda x, d: x.kind not in ("Fn", "AssocFn"))
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined or c.name not in ("get_file", "file_exists") or len(c.args) != 3 or param_types(b)[1:2] != ["[u32; 5]"]:
                continue
            nm = file_name(f, c.args[2])
            want = [k for k in ("parent", "rollup") if k in b.name.split("_")]
            if len(want) == 1 and nm:
                R.ob("link", short(b), nm == set(want), "" if nm == set(want) else "`%s` uses file `%s`" % (short(b), "/".join(sorted(nm))), f.loc(c.nid))
            if nm or table_names(f):
                ok = param_only(f.origins(c.args[1]), 2)
                R.ob("own", "%s: %s" % (short(b), "/".join(sorted(nm)) or c.name), ok, "" if ok else "`%s` opens a file of another layer than the one it is asked about" % short(b), f.loc(c.nid))
                R.saw(f)
    R.floor("link", 4)
    R.floor("own", 60)


def table_names(f):
    return {n for rv in arrays(f) for o in rv[2] for n in file_name(f, o)}


# ------------------------------------------------------------------ places

def ty(f, op):
    return (f.vtype[op[1]] or "").replace("&", "").replace("mut ", "").strip() if op[0] == "p" and not op[2] else ""


def looked_up(f, ts, pi):
    """the slots the file-name table gives for parameter pi"""
    if not ts:
        return False
    for t in ts:
        c = f.callof(t) if t[0] == "call" else None
        if c is None:
            return False
        if c.name in ("get",) and "HashMap" in c.path and "LayerFileEnum" in " ".join(ty(f, a) for a in c.args[:1]) + str(c.dest and f.vtype[c.dest[0]] if isinstance(c.dest, tuple) else ""):
            if not param_only(f.origins(c.args[1]), pi):
                return False
            continue
        if c.name == "get" and "Lazy" in c.path and t[2] in (("[]",),):
            k = [x for x in f.callsites if x.name == "get" and "HashMap" in x.path and any(y[0] == "call" and y[1] == t[1] for y in f.origins(x.args[0]))]
            if not k or not all(param_only(f.origins(x.args[1]), pi) for x in k):
                return False
            if not all(z[0] != "const" or "FILENAME_ENUM_MAP" in str(z) for z in f.origins(c.args[0])):
                return False
            continue
        return False
    return True


KEYED = {"get", "get_mut", "insert", "contains_key", "remove", "entry"}


def check_places(R, prog):
    R.rule("place", "a store keeps and looks for a file of a layer under exactly the layer and file name given")
    for b in [x for x in prog.bodies.values() if x.impl_trait and x.impl_trait.split("::")[-1].split("<")[0] == "PersistentLayerStore" and x.name in ("get_file", "file_exists")]:
        f = flat(prog, b, opaque={x.id for x in prog.find(name="name_to_string")})
        S = sym(f)
        n = 0
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined:
                continue
            if c.name in KEYED and "HashMap" in c.path:
                k = c.args[1]
                t = f.origins(k)
                if "[u32; 5]" in ty(f, k):
                    ok = param_only(t, 2)
                    what = "layer"
                elif "LayerFileEnum" in ty(f, k):
                    ok, what = looked_up(f, t, 3), "file"
                else:
                    ok = only_param(f, k, 3)
                    what = "file"
                n += 1
                R.ob("place", "%s: %s %s" % (short(b), c.name, what), ok, "" if ok else "`%s` looks in a place that is not the %s it was asked for: %s" % (short(b), what, tset(f, t)), f.loc(c.nid))
            elif c.path.endswith(("FileBackedStore::new", "fs::metadata", "fs::try_exists", "Path::exists", "Path::is_file")):
                sg = segs_of(S.arg(c, 0))
                ok = sg is not None and len(sg) == 4 and sg[3] == ("in", 3, ()) and sg[0][:2] == ("in", 1) and all(named(x, 2) for x in sg[1:3])
                n += 1
                R.ob("place", "%s: path" % short(b), ok, "" if ok else "`%s` uses a path that is not the given file in the directory of the given layer" % short(b), f.loc(c.nid))
            elif not c.path.startswith(("std::", "core::", "alloc::")):
                for i, a in enumerate(c.args):
                    if ty(f, a) == "[u32; 5]" and c.name != "name_to_string":
                        n += 1
                        ok = param_only(f.origins(a), 2)
                        R.ob("place", "%s: layer of %s" % (short(b), c.name), ok, "" if ok else "`%s` asks `%s` for another layer than the one given" % (short(b), c.name), f.loc(c.nid))
                    elif ty(f, a).endswith("LayerFileEnum"):
                        n += 1
                        ok = looked_up(f, f.origins(a), 3)
                        R.ob("place", "%s: file of %s" % (short(b), c.name), ok, "" if ok else "`%s` asks `%s` for another file than the one given" % (short(b), c.name), f.loc(c.nid))
        for t in f.res(f.retvar, ("!",)):
            agg_fields(R, f, b, t)
        R.ob("place", "%s: decided" % short(b), n > 0, "`%s` uses no place that depends on the file given" % short(b))
        R.saw(f)
    # the archive's own functions hand on the layer and slot they were given
    R.rule("hand", "inside the archive store a file slot and a layer are handed on unchanged")
    m = 0
    for b in prog.bodies.values():
        if b.kind not in ("Fn", "AssocFn") or not b.file.endswith("archive.rs"):
            continue
        f = flat(prog, b, inline=lambda x, d: x.kind not in ("Fn", "AssocFn"))
        pts = param_types(b)
        slotp = [i + 1 for i, t in enumerate(pts) if t.endswith("LayerFileEnum")]
        idp = [i + 1 for i, t in enumerate(pts) if t == "[u32; 5]"]
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined or c.path.startswith(("std::", "core::", "alloc::")) and "HashMap" not in c.path:
                continue
            for a in c.args:
                t = f.origins(a)
                if ty(f, a).endswith("LayerFileEnum"):
                    if b.name == "get_parent":
                        ok = bool(t) and all(x[0] == "agg" and f.stmt(x)[1][2] == "Parent" for x in t)
                    elif slotp:
                        ok = bool(t) and all(x[0] == "param" and x[1] in slotp and x[2] == () for x in t)
                    elif any(x[0] == "param" and x[1] == 1 for x in t):
                        ok = all(x[0] == "param" and x[1] == 1 and x[2] == ("file_type",) for x in t)
                    elif any(x[0] == "agg" for x in t) and c.name not in ("eq", "ne"):
                        ok = False
                    else:
                        continue
                    m += 1
                    R.ob("hand", "%s: slot of %s" % (short(b), c.name), ok, "" if ok else "`%s` passes `%s` another file slot than its own" % (short(b), c.name), f.loc(c.nid))
                    R.saw(f)
                elif ty(f, a) == "[u32; 5]" and len(idp) == 1 and b.name not in ("set_rollup",):
                    ok = bool(t) and all(x[0] == "param" and x[1] in idp and x[2] == () for x in t)
                    m += 1
                    R.ob("hand", "%s: layer of %s" % (short(b), c.name), ok, "" if ok else "`%s` passes `%s` another layer than its own" % (short(b), c.name), f.loc(c.nid))
                    R.saw(f)
                elif ty(f, a) == "[u32; 5]" and not idp and t and all(x[0] == "param" and x[1] == 1 for x in t):
                    ok = all(x[2] == ("layer_id",) for x in t)
                    m += 1
                    R.ob("hand", "%s: layer of %s" % (short(b), c.name), ok, "" if ok else "`%s` passes `%s` another layer than its own" % (short(b), c.name), f.loc(c.nid))
    R.floor("place", 15)
    R.floor("hand", 25)


def param_types(b):
    return [(t or "").replace("&", "").replace("mut ", "").strip() for t in [b.locals[i] for i in range(1, b.argc + 1)]]


def segs_of(v):
    r = []
    while isinstance(v, tuple) and v and v[0] == "join":
        r.append(v[2])
        v = v[1]
    r.append(v)
    return r[::-1]


def named(v, pi):
    """built out of the name of the layer only"""
    return "('f', 'name_to_string', ('in', %d, ()))" % pi in str(v) and "('in', 3" not in str(v)


def only_param(f, op, pi):
    ps = {t[1] for t in f.leaves(op, depth=8) if t[0] == "param"}
    cs = {t for t in f.leaves(op, depth=8) if t[0] == "const" and t[1] == "str"}
    return ps == {pi} and not cs


def agg_fields(R, f, b, t, depth=5):
    if t[0] != "agg" or not depth:
        return
    rv = f.stmt(t)
    for nm, o in zip(rv[3] or [None] * len(rv[2]), rv[2]):
        ts = f.origins(o)
        if nm == "layer_id":
            ok = param_only(ts, 2)
            R.ob("place", "%s: layer of the handle" % short(b), ok, "" if ok else "the file handle returned by `%s` is for another layer" % short(b), f.loc(t[1]))
        elif nm == "file_type":
            ok = looked_up(f, ts, 3)
            R.ob("place", "%s: slot of the handle" % short(b), ok, "" if ok else "the file handle returned by `%s` is for another file" % short(b), f.loc(t[1]))
        for u in ts:
            agg_fields(R, f, b, u, depth - 1)


def p08(R, prog):
    check_tables(R, prog)
    check_kind(R, prog)
    check_places(R, prog)
