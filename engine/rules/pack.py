"""P19: a pack carries whole layers, and importing it is complete or fails."""
from rules.lib import *
from rules.archive import calls, earlier, lists_of, loc
from rules.ancestry import go
from rules.finish import runs
from rules import tables
from symval import sym
import flow
import qlib
from flow import exec_nodes, edges_where, exit_variants

LISTS = {"SHARED_REQUIRED_FILES": (None, True), "SHARED_OPTIONAL_FILES": (None, False), "BASE_LAYER_REQUIRED_FILES": (False, True), "BASE_LAYER_OPTIONAL_FILES": (False, False),
         "CHILD_LAYER_REQUIRED_FILES": (True, True), "CHILD_LAYER_OPTIONAL_FILES": (True, False)}
SKIP = {"skip", "take", "step_by", "skip_while", "take_while", "filter_map", "map_while", "truncate", "pop", "remove", "dedup", "nth", "last", "retain", "drain", "split_at"}
STOP = ("file_exists", "get_file", "name_to_string", "string_to_name", "create_named_directory", "finalize", "finalize_layer", "open_write", "map", "size", "map_if_exists", "write_all")


def load(R, prog, b):
    stop = {x.id for x in prog.bodies.values() if x.name in STOP and (x.in_trait or x.impl_trait or x.name in ("name_to_string", "string_to_name"))}
    return flat(prog, b, opaque=stop, R=R)


def body(prog, name, S=None):
    bs = [x for x in prog.bodies.values() if x.name == name and x.kind in ("Fn", "AssocFn") and (x.impl_self == "T" if S == "T" else type_head(x.impl_self or "") == S if S else not x.impl_self) and (name == "pack_layer_parents" or "Packable" in (x.impl_trait or ""))]
    if len(bs) != 1:
        raise Missing("%s of %s" % (name, S))
    return bs[0]


def plain(ts):
    return {t for t in ts if t[0] != "part"}


def ok_exit(f, got):
    return f.exit in got and bool(exit_variants(f, got) - {"Err"})


def missed(f, starts, nodes, edges, goals):
    """a goal, or a successful end, is reached without the nodes and without the edges"""
    hit = set()
    nodes, goals = set(nodes), set(goals)

    def cut(n, l, x):
        if x in nodes or (n, l) in edges:
            return True
        if x in goals:
            hit.add(x)
            return True
        return False
    got = flow.explore(f, [x for x in starts if x[0] not in nodes], cut, 600)
    return hit, bool(hit) or ok_exit(f, got), got


def listname(t):
    """name of the file list a term is (an element of)"""
    if t[0] == "const" and t[1] in ("def", "static"):
        n = t[2].split("::")[-1]
        return n if n in LISTS else None
    return None


def names_in(ts):
    ts = plain(ts)
    out = {listname(t) for t in ts if tuple(t[3]) and str(t[3][0]).startswith("[")}
    return out if ts and None not in out and len(out) == len({listname(t) for t in ts}) else set()


def is_file(t, slot):
    """the term is the name of the given file"""
    return t[0] == "const" and (t[1] == "def" and t[2].endswith("::FILENAMES") and tuple(t[3]) == (slot,))


def terms(f, x):
    """origins of what a fact is about: an operand or a term"""
    if x[0] in ("p", "k"):
        return plain(f.origins(x))
    return {x}


def said(f, a, names, truth, test):
    """a fact that a call of one of these names answered truth"""
    if a[0] == "bool" and a[2] == truth:
        for t in terms(f, a[1]):
            c = f.callof(t) if t[0] == "call" else None
            if c is not None and c.name in names and test(c):
                return True
    return False


# ---- export ----------------------------------------------------------------
def export(R, prog):
    R.rule("export", "for every requested layer, every file it has is put into the pack under the layer's name with its complete content; only the rollup is left out, and a mandatory file that is missing is an error")
    b = body(prog, "export_layers", "T")
    f = load(R, prog, b)
    ap = [c for c in calls(f, "append_data", "append", "append_path", "append_file", "append_path_with_name")]
    files = []
    for c in ap:
        src = plain(f.origins(c.args[-1]))
        if src and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "empty" for t in src):
            continue
        files.append(c)
    R.ob("export", "files", bool(files), "no file is put into the pack", loc(b))
    ids = [c for c in calls(f, "next", "for_each", "try_for_each") if c.args and plain(f.origins(c.args[0])) == {("param", 2, ())}]
    R.ob("export", "requested layers", bool(ids), "the requested layers are not gone through", loc(b))
    ID = {("param", 2, ("[]",))}
    by = {}
    for c in files:
        one_file(R, f, c, ID, by)
    for c in calls(f, *SKIP):
        if c.args and (plain(f.origins(c.args[0])) & {("param", 2, ())} or any(listname(t) for t in through(f, c.args[0]))) and "Iter" in (c.trait or "") + c.path:
            R.ob("export", "all of them", False, "%s leaves some out" % c.name, f.loc(c.nid))
    kind = {}
    for truth in (True, False):
        kind[truth] = edges_where(f, lambda a: said(f, a, ("file_exists",), truth, lambda c: plain(f.origins(c.args[1])) == ID and all(is_file(t, "parent") for t in plain(f.origins(c.args[2]))))
                                  or said(f, a, ("is_some",), truth, lambda c: False), 6)
    R.ob("export", "child or base", bool(kind[True]) and bool(kind[False]), "whether the layer has a parent is not asked", loc(b))
    rolled = {}
    for truth in (True, False):
        def roll(a):
            if a[0] == "eq" and a[3] == truth:
                x, y = terms(f, a[1]), terms(f, a[2])
                return any(all(is_file(t, "rollup") for t in u) and any(listname(t) for t in v) for u, v in ((x, y), (y, x)))
            for nm, tr in (("eq", truth), ("ne", not truth)):
                if said(f, a, (nm,), tr, lambda c: any(all(is_file(t, "rollup") for t in plain(f.origins(c.args[i]))) and plain(f.origins(c.args[i])) and any(listname(t) for t in f.origins(c.args[1 - i])) for i in (0, 1))):
                    return True
            return False
        rolled[truth] = edges_where(f, roll, 6)
    for c in calls(f, "filter"):
        if not any(listname(t) for t in through(f, c.args[0])):
            continue
        R.ob("export", "nothing filtered", rollup_filter(f, c), "which files go into the pack depends on %s" % "another condition than being the rollup", f.loc(c.nid))
    starts = [x for c in ids for x in flow.result_starts(f, c, [((), "Some")])] or flow.start_states(f)
    idn = {c.nid for c in ids}
    for L, (child, required) in sorted(LISTS.items()):
        cover = by.get(L, [])
        R.ob("export", L, bool(cover), "the files of this list are never put into the pack", loc(b))
        if not cover:
            continue
        here = {c.nid for c in cover}
        nx = [c for c in calls(f, "next", "for_each", "try_for_each") if any(listname(t) == L for t in through(f, c.args[0]))]
        edges = set() if child is None else kind[not child]
        bad = missed(f, starts, {c.nid for c in nx}, edges, idn)[1]
        R.ob("export", L + " of every layer", bool(nx) and not bad, "a requested layer may be passed over without these files", f.loc(cover[0].nid))
        for c in nx:
            absent = set()
            if not required:
                absent = edges_where(f, lambda a: said(f, a, ("file_exists",), False, lambda c: plain(f.origins(c.args[1])) == ID and L in names_in(f.origins(c.args[2]))) or nothing(f, a, L, ID), 6)
            skip = rolled[True] if L == "SHARED_OPTIONAL_FILES" else set()
            st = flow.result_starts(f, c, [((), "Some")])
            if required:
                # a file that was just found to be there is not missing when asked again
                mine = [d for d in calls(f, "file_exists") if plain(f.origins(d.args[1])) == ID and L in names_in(f.origins(d.args[2]))]
                edge = {(d.nid, t): edges_where(f, lambda a, d=d, t=t: said(f, a, ("file_exists",), t, lambda e: e.nid == d.nid), 6) for d in mine for t in (True, False)}
                for d in mine:
                    others = {x for e in mine if e.nid != d.nid for x in edge[(e.nid, True)]}
                    if others and d.nid not in flow.explore(f, st, lambda n, l, b: (n, l) in others):
                        absent |= edge[(d.nid, False)]
            bad = missed(f, st, here, absent | skip, {d.nid for d in nx} | idn)[1]
            R.ob("export", L + " each", not bad, "a file of this list may be left out of the pack" + ("" if required else " although the layer has it"), f.loc(c.nid))
            bad = missed(f, st, {d.nid for d in nx}, set(), idn)[1]
            R.ob("export", L + " to the end", not bad, "going through this list may stop before its end", f.loc(c.nid))
            if L == "SHARED_OPTIONAL_FILES" and not filtered(f, L):
                got = go(f, st, {d.nid for d in nx}, rolled[False])
                R.ob("export", "rollup left out", not here & set(got), "the rollup, which means nothing elsewhere, is put into the pack", f.loc(c.nid))
    # the archive is finished and compressed
    pay = plain(f.res(f.retvar, ("!",)))
    enc = {t[1] for t in pay if t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "finish"}
    R.ob("export", "result", bool(enc) and all(t[0] == "call" and t[1] in enc for t in pay), "what is returned is %s, not the finished pack" % tset(f, pay), loc(b))
    tars = {t[1] for c in ap for t in plain(f.origins(c.args[0])) if t[0] == "call"}
    fin = [c for c in calls(f, "finish", "into_inner") if {t[1] for t in plain(f.origins(c.args[0])) if t[0] == "call"} & tars]
    for n in enc:
        R.ob("export", "finished", bool(fin) and f.always_before(n, [c.nid for c in fin]), "the pack is closed before the archive in it is finished", f.loc(n))
        for c in files:
            R.ob("export", "complete", not f.after(n) & {c.nid}, "a file is added after the pack was closed", f.loc(c.nid))


def filtered(f, L):
    return any(any(listname(t) == L for t in through(f, c.args[0])) and rollup_filter(f, c) for c in calls(f, "filter"))


def rollup_filter(f, c):
    """a filter that lets everything through but the rollup"""
    rs = [t for ai, v in f.closure_results.get(c.nid, []) for t in f.res(v, ())] if hasattr(f, "closure_results") else []
    if not rs:
        return False
    for t in rs:
        g = f.callof(t) if t[0] == "call" else None
        if g is None or g.name != "ne" or not any(all(is_file(u, "rollup") for u in plain(f.origins(g.args[i]))) and any(listname(u) for u in f.origins(g.args[1 - i])) for i in (0, 1)):
            return False
    return True


def nothing(f, a, L, ID):
    """a fact that asking for the content found no file"""
    if a[0] == "variant" and a[2] == ("None",) or a[0] == "variant" and set(a[2]) == {"None"}:
        for t in terms(f, a[1]):
            c = f.callof(t) if t[0] == "call" else None
            if c is not None and c.name == "map_if_exists" and tuple(t[2]) == ("!",):
                return any(L in names_in(f.origins(g.args[2])) for g in gets(f, c))
    return False


def gets(f, c):
    return [f.callof(t) for t in plain(f.origins(c.args[0])) if t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "get_file"]


def one_file(R, f, c, ID, by):
    w = f.loc(c.nid)
    src = plain(f.origins(c.args[-1]))
    mp = [f.callof(t) for t in src if t[0] == "call" and f.callof(t) is not None]
    ok = bool(mp) and all(m.name in ("map", "map_if_exists") for m in mp) and len(mp) == len(src)
    gs = [g for m in mp for g in gets(f, m)] if ok else []
    R.ob("export", "content", ok and bool(gs), "what is put into the pack is %s, not the content of a file" % tset(f, src), w)
    for g in gs:
        R.ob("export", "own layer", plain(f.origins(g.args[1])) == ID, "the file is taken from layer %s, not the requested one" % tset(f, f.origins(g.args[1])), f.loc(g.nid))
        ns = names_in(f.origins(g.args[2]))
        single = {t for t in plain(f.origins(g.args[2])) if t[0] == "const" and t[1] == "def" and t[2].endswith("FILENAMES")}
        R.ob("export", "listed file", bool(ns) or bool(single), "the file put into the pack is %s" % tset(f, f.origins(g.args[2])), f.loc(g.nid))
        for n in ns:
            by.setdefault(n, []).append(c)
        # under its name
        s = sym(f)
        v = s.arg(c, len(c.args) - 2)
        segs = []
        while v[0] == "join":
            segs.insert(0, v[2])
            v = v[1]
        want = s.arg(g, 2)
        ok = len(segs) == 2 and segs[1] == want and segs[0][:2] == ("f", "name_to_string") or len(segs) == 1 and segs[0] == want and v[:2] == ("f", "name_to_string")
        if not ok:
            # joined paths that are built outside: by their origins
            ok = path_ok(f, c, g, ID)
        R.ob("export", "under its name", ok, "the file is not put into the pack as <layer name>/<file name>", w)
        # header size
        hs = {t[1] for t in plain(f.origins(c.args[1])) if t[0] == "call"}
        sz = [x for x in calls(f, "set_size") if {t[1] for t in plain(f.origins(x.args[0])) if t[0] == "call"} & hs and earlier(f, x, c)]
        for x in sz:
            ts = plain(f.origins(x.args[1]))
            ok = bool(ts)
            for t in ts:
                d = f.callof(t) if t[0] == "call" else None
                same = d is not None and d.name == "size" and {u.nid for u in gets(f, d)} == {g.nid}
                same = same or d is not None and d.name == "len" and {u[1] for u in plain(f.origins(d.args[0])) if u[0] == "call"} == {m.nid for m in mp}
                ok = ok and same
            R.ob("export", "size", ok, "the size recorded for the file is %s, not its own" % tset(f, ts), f.loc(x.nid))
        R.ob("export", "size recorded", bool(sz) and f.always_before(c.nid, [x.nid for x in sz]), "no size is recorded for the file", w)


def path_ok(f, c, g, ID):
    for t in plain(f.origins(c.args[-2])):
        j = f.callof(t) if t[0] == "call" else None
        if j is None or j.name != "join" or plain(f.origins(j.args[1])) != plain(f.origins(g.args[2])):
            return False
        base = plain(f.origins(j.args[0]))
        for u in base:
            n = f.callof(u) if u[0] == "call" else None
            if n is None:
                return False
            if n.name == "name_to_string":
                parts = [n]
            else:
                ps = [x for x in calls(f, "push") if u in plain(f.origins(x.args[0]))]
                parts = [f.callof(y) for x in ps for y in plain(f.origins(x.args[1])) if y[0] == "call"]
                if n.name not in ("new", "with_capacity") or len(ps) != 1:
                    return False
            if not parts or any(x is None or x.name != "name_to_string" or plain(f.origins(x.args[0])) != ID for x in parts):
                return False
    return True


# ---- import ----------------------------------------------------------------
def entry_roots(f):
    """(next call of the entries loop, term of the entry)"""
    out = []
    for c in calls(f, "next", "for_each", "try_for_each"):
        for t in plain(f.origins(c.args[0])):
            g = f.callof(t) if t[0] == "call" else None
            if g is not None and g.name == "entries":
                out.append((c, (g, ("call", g.nid, ("!", "[]", "!")))))
    return out


def of_entry(f, op, E, names):
    """what an operand is of the entry: the last call from the path, or None"""
    got = set()
    for t in plain(f.origins(op)):
        if t[0] == "const" and t[1] == "str" and t[2] == "":
            continue
        c = f.callof(t) if t[0] == "call" else None
        seen = []
        p = t
        while c is not None and c.name not in ("path", "path_bytes"):
            seen.append((c.name, p[2]))
            if not c.args:
                return None
            src = plain(f.origins(c.args[0]))
            if len(src) != 1:
                return None
            p = src.pop()
            c = f.callof(p) if p[0] == "call" else None
        if c is None or plain(f.origins(c.args[0])) != {E}:
            return None
        if any(n == "file_name" for n, _ in seen):
            got.add("name")
        elif p[2][-1:] == ("[]",) or any(n in ("next",) for n, _ in seen):
            got.add("first")
        else:
            got.add("?")
    return got.pop() if len(got) == 1 else None


def imports(R, prog):
    R.rule("import", "of the entries of a pack, those of a requested layer are stored completely, in the file they were taken from; success is reported only after every layer that was touched was created before its files and finalised after them")
    b = body(prog, "import_layers", "T")
    f = load(R, prog, b)
    roots = entry_roots(f)
    R.ob("import", "entries", len(roots) == 1, "the entries of the pack are not gone through once", loc(b))
    if len(roots) != 1:
        return
    nx, (en, E) = roots[0]
    for c in calls(f, *(SKIP | {"filter"})):
        if any(t[0] == "call" and t[1] in (en.nid,) for t in f.origins(c.args[0])) and "Iter" in (c.trait or "") + c.path and "path" not in c.path.lower():
            R.ob("import", "all entries", False, "%s leaves entries out" % c.name, f.loc(c.nid))
    # what is asked about an entry
    tests = [c for c in calls(f, "contains", "contains_key", "get") if len(c.args) == 2 and (of_entry(f, c.args[1], E, ()) is not None)]
    for c in tests:
        R.ob("import", "layer of an entry", of_entry(f, c.args[1], E, ()) == "first", "whether an entry is wanted is decided by another part of its path than the first", f.loc(c.nid))
        R.ob("import", "wanted layers", wanted(f, c), "entries are compared with %s, not with the names of all requested layers" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
    R.ob("import", "asked", bool(tests), "which layers are wanted is not asked", loc(b))
    ids = {c.nid for c in calls(f, "string_to_name") if of_entry(f, c.args[0], E, ()) == "first"}
    LAYER = {("call", n, ("!",)) for n in ids}

    def is_layer(op):
        ts = plain(f.origins(op))
        return bool(ts) and ts <= LAYER
    gf = calls(f, "get_file")
    R.ob("import", "stored", bool(gf), "no file is stored", loc(b))
    unwanted = edges_where(f, lambda a: said(f, a, ("contains", "contains_key"), False, lambda c: c in tests), 6)
    wantedE = edges_where(f, lambda a: said(f, a, ("contains", "contains_key"), True, lambda c: c in tests), 6)
    nofile = edges_where(f, lambda a: said(f, a, ("is_file",), False, lambda c: typ(f, c, E, "entry_type")) or said(f, a, ("is_dir",), True, lambda c: typ(f, c, E, "entry_type")), 6)
    for g in gf:
        w = f.loc(g.nid)
        R.ob("import", "stored in its layer", is_layer(g.args[1]), "a file is stored in layer %s, not the one the entry is of" % tset(f, f.origins(g.args[1])), w)
        R.ob("import", "stored as itself", of_entry(f, g.args[2], E, ()) == "name", "a file is stored as %s, not under its name in the pack" % tset(f, f.origins(g.args[2])), w)
        st = flow.result_starts(f, nx, [((), "Some")])
        got = go(f, st, set(), wantedE)
        R.ob("import", "only requested", bool(wantedE) and g.nid not in got, "a file of a layer that was not requested may be stored", w)
    # writing
    ow = [c for c in calls(f, "open_write") if any(t[0] == "call" and t[1] in {g.nid for g in gf} for t in f.origins(c.args[0]))]
    W = {t for c in ow for t in [("call", c.nid, ("!",))]}
    wr = [c for c in calls(f, "write_all", "write", "write_buf", "write_all_buf") if plain(f.origins(c.args[0])) & W]
    R.ob("import", "written", bool(wr) and all(c.name.startswith("write_all") for c in wr), "the content of an entry is not written out as a whole", loc(b))
    reads = []
    for c in wr:
        bufs = {t[:2] for t in plain(f.origins(c.args[1])) if t[0] == "call"}
        rd = [x for x in calls(f, "read_to_end") if {t[:2] for t in plain(f.origins(x.args[1])) if t[0] == "call"} & bufs and plain(f.origins(x.args[0])) == {E}]
        reads += rd
        R.ob("import", "whole content", bool(rd) and all(f.always_before(x, [y.nid for y in rd]) for x in exec_nodes(f, c)), "what is written is %s, not everything read from the entry" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        bad = [x for x in calls(f, "truncate", "clear", "drain", "split_off", "take", "pop", "resize") if {t[:2] for t in plain(f.origins(x.args[0])) if t[0] == "call"} & bufs]
        R.ob("import", "content kept", not bad, "%s changes what was read from the entry" % (bad[0].name if bad else ""), f.loc(c.nid))
        idx = [x for x in calls(f, "index", "get", "split_at", "slice") if {t[:2] for t in plain(f.origins(x.args[0])) if t[0] == "call"} & bufs]
        for x in idx:
            full = all(t[0] == "const" and "RangeFull" in str(t) or t[0] == "agg" and "RangeFull" in str(f.stmt(t)) for t in f.origins(x.args[1]))
            R.ob("import", "content kept", full, "only a part of what was read from the entry is written", f.loc(x.nid))
    for c in calls(f, "take", "chunk", "by_ref", "skip"):
        if c.args and plain(f.origins(c.args[0])) == {E} and c.name in ("take", "chunk", "skip"):
            R.ob("import", "whole entry", False, "%s limits what is read of an entry" % c.name, f.loc(c.nid))
    st = flow.result_starts(f, nx, [((), "Some")])
    done = set(runs(f, wr))
    bad = missed(f, st, done, unwanted | nofile, {nx.nid})[1]
    R.ob("import", "every entry", bool(done) and not bad, "an entry of a requested layer may be passed over", f.loc(nx.nid))
    # created first
    cr = [c for c in calls(f, "create_named_directory")]
    notnew = edges_where(f, lambda a: said(f, a, ("insert",), False, lambda c: is_layer(c.args[1])) or said(f, a, ("contains",), True, lambda c: is_layer(c.args[1])), 6)
    R.ob("import", "created", bool(cr) and all(is_layer(c.args[1]) for c in cr), "the layer an entry is of is not created", loc(b))
    cn = set(runs(f, cr))
    got = go(f, st, cn | {nx.nid}, notnew | unwanted)
    for g in gf:
        R.ob("import", "created before its files", g.nid not in got, "a file may be stored in a layer that was not created", f.loc(g.nid))
    ins = [c for c in calls(f, "insert") if len(c.args) >= 2 and is_layer(c.args[1])]
    sets = {t for c in ins for t in plain(f.origins(c.args[0]))}
    got = go(f, st, {c.nid for c in ins} | {nx.nid}, notnew - edges_where(f, lambda a: said(f, a, ("insert",), False, lambda c: is_layer(c.args[1])), 6))
    for g in gf:
        R.ob("import", "remembered", bool(ins) and g.nid not in got, "a layer that gets files is not remembered to be finalised", f.loc(g.nid))
    # each layer is created once only
    for c in cr:
        old = edges_where(f, lambda a: said(f, a, ("insert",), True, lambda d: is_layer(d.args[1])) or said(f, a, ("contains",), False, lambda d: is_layer(d.args[1]) and plain(f.origins(d.args[0])) <= sets), 6)
        got = go(f, st, {nx.nid}, old)
        R.ob("import", "created once", c.nid not in got, "a layer may be created again, on top of files that were already stored", f.loc(c.nid))
    # finalised last
    fin = [c for c in calls(f, "finalize_layer", "finalize")]
    ok = bool(fin)
    for c in fin:
        ts = plain(f.origins(c.args[1]))
        ok = ok and bool(ts) and all(t[0] == "call" and (t[0], t[1], tuple(t[2][:-1])) in {(s[0], s[1], tuple(s[2])) for s in sets} and str(t[2][-1]).startswith("[") for t in ts)
    R.ob("import", "finalised", ok, "the layers that got files are not finalised", loc(b))
    fn = [c for c in calls(f, "next", "for_each", "try_for_each") if plain(f.origins(c.args[0])) & sets]
    fr = set(runs(f, fin))
    ex = go(f, flow.start_states(f), {c.nid for c in fn}, set())
    R.ob("import", "finalised before success", bool(fn) and not ok_exit(f, ex), "success may be reported without the layers being finalised", loc(b))
    for c in fn:
        bad = missed(f, flow.result_starts(f, c, [((), "Some")]), fr, set(), {c.nid})[1]
        R.ob("import", "each finalised", not bad, "a layer that got files may be left unfinished", f.loc(c.nid))
        for x in calls(f, *(SKIP | {"filter"})):
            if plain(f.origins(x.args[0])) & sets and "Iter" in (x.trait or "") + x.path:
                R.ob("import", "each finalised", False, "%s leaves layers unfinished" % x.name, f.loc(x.nid))
    for n in fr:
        late = [g for g in gf if g.nid in f.after(n)]
        R.ob("import", "finalised last", not late, "a file may be stored after its layer was finalised", f.loc(n))


def typ(f, c, E, name):
    """is_file of the type of the entry"""
    for t in plain(f.origins(c.args[0])):
        g = f.callof(t) if t[0] == "call" else None
        if g is None or g.name != name:
            return False
        for u in plain(f.origins(g.args[0])):
            h = f.callof(u) if u[0] == "call" else None
            if h is not None and h.name == "header":
                if plain(f.origins(h.args[0])) != {E}:
                    return False
            elif u != E:
                return False
    return True


def wanted(f, c):
    """the collection holds the names of all requested layers"""
    f0 = plain(f.origins(c.args[0]))
    if not f0:
        return False
    for t in f0:
        if t == ("param", 3, ()):
            continue
        g = f.callof(t) if t[0] == "call" else None
        if g is None:
            return False
        if g.name == "collect":
            m = [f.callof(u) for u in plain(f.origins(g.args[0])) if u[0] == "call"]
            src = g.args[0]
            if any(x is None or x.name not in ("map", "cloned", "copied", "into_iter") for x in m):
                return False
            for x in m:
                if x.name == "map" and not maps_names(f, x):
                    return False
                if plain(f.origins(x.args[0])) != {("param", 3, ())}:
                    return False
            if not m and plain(f.origins(src)) != {("param", 3, ())}:
                return False
        elif g.name in ("new", "with_capacity"):
            ins = [x for x in calls(f, "insert", "push", "extend") if t in plain(f.origins(x.args[0]))]
            if not ins:
                return False
            for x in ins:
                for u in plain(f.origins(x.args[1])):
                    h = f.callof(u) if u[0] == "call" else None
                    if u != ("param", 3, ("[]",)) and not (h is not None and h.name == "name_to_string" and plain(f.origins(h.args[0])) == {("param", 3, ("[]",))}):
                        return False
                for nx in [y for y in calls(f, "next") if plain(f.origins(y.args[0])) == {("param", 3, ())}]:
                    got = go(f, flow.result_starts(f, nx, [((), "Some")]), {x.nid}, set())
                    if nx.nid in got:
                        return False
        else:
            return False
    return True


def maps_names(f, m):
    for t in f.origins(m.args[1]):
        if t[0] == "fn":
            return t[1].endswith("name_to_string")
    rs = [t for ai, v in getattr(f, "closure_results", {}).get(m.nid, []) for t in f.res(v, ())]
    return bool(rs) and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "name_to_string" and plain(f.origins(f.callof(t).args[0])) == {("param", 3, ("[]",))} for t in rs)


# ---- the parent table --------------------------------------------------------
def parents(R, prog):
    R.rule("parents", "the parent table of a pack has an entry for every layer in it: the layer named in its parent file, or none where there is no such file")
    b = body(prog, "pack_layer_parents")
    f = load(R, prog, b)
    roots = entry_roots(f)
    R.ob("parents", "entries", len(roots) == 1, "the entries of the pack are not gone through once", loc(b))
    if len(roots) != 1:
        return
    nx, (en, E) = roots[0]
    for c in calls(f, *(SKIP | {"filter"})):
        if any(t[0] == "call" and t[1] == en.nid for t in f.origins(c.args[0])) and "Iter" in (c.trait or "") + c.path:
            R.ob("parents", "all entries", False, "%s leaves entries out" % c.name, f.loc(c.nid))
    ids = {c.nid for c in calls(f, "string_to_name") if of_entry(f, c.args[0], E, ()) == "first"}
    R.ob("parents", "layer of an entry", bool(ids), "the layer of an entry is not taken from the first part of its path", loc(b))
    table = {t[:2] for t in plain(f.res(f.retvar, ("!",))) if t[0] == "call"}
    put = [c for c in calls(f, "insert") if {t[:2] for t in plain(f.origins(c.args[0])) if t[0] == "call"} & table]
    ent = [c for c in calls(f, "entry") if {t[:2] for t in plain(f.origins(c.args[0])) if t[0] == "call"} & table]
    ori = [c for c in calls(f, "or_insert", "or_insert_with", "or_default") if {t[1] for t in plain(f.origins(c.args[0])) if t[0] == "call"} & {x.nid for x in ent}]
    for c in put + ent:
        ts = plain(f.origins(c.args[1]))
        R.ob("parents", "own layer", bool(ts) and ts <= {("call", n, ("!",)) for n in ids}, "an entry of the table is made for %s, not for the layer of the entry" % tset(f, ts), f.loc(c.nid))
    some, none = [], list(ori)
    P = tables.strval(f.p, ("const", "def", "storage::consts::FILENAMES", ("parent",)))

    def parentfile(a, truth):
        def isname(op):
            return all(parent_name(f, t, P) for t in flat_opts(f, op)) and bool(flat_opts(f, op))
        def isfile(op):
            return any(t[0] == "call" and f.callof(t) is not None and f.callof(t).name in ("file_name", "to_str", "as_os_str") for t in flat_opts(f, op))
        if a[0] == "eq" and a[3] == truth:
            x, y = a[1], a[2]
            return isname(x) and isfile(y) or isname(y) and isfile(x)
        return said(f, a, ("eq",), truth, lambda c: isname(c.args[0]) and isfile(c.args[1]) or isname(c.args[1]) and isfile(c.args[0])) or said(f, a, ("ne",), not truth, lambda c: isname(c.args[0]) and isfile(c.args[1]) or isname(c.args[1]) and isfile(c.args[0])) \
            or said(f, a, ("ends_with",), truth, lambda c: isname(c.args[1]))
    yes = edges_where(f, lambda a: parentfile(a, True), 6)
    no = edges_where(f, lambda a: parentfile(a, False), 6)
    no |= {(x, l) for x, y in yes for s_, l in f.nodes[x].succ if l != y and of_option(f, x)}
    R.ob("parents", "parent file", bool(yes) and bool(no), "the parent file of a layer is not recognised by its name", loc(b))
    for c in put:
        vs = plain(f.origins(c.args[2]))
        kinds = {variant_of(f, t) for t in vs}
        if kinds == {"Some"}:
            some.append(c)
            for t in plain(f.res(c.args[2][1], tuple(c.args[2][2]) + ("!",))):
                g = f.callof(t) if t[0] == "call" else None
                ok = g is not None and g.name == "string_to_name" and tuple(t[2]) == ("!",) and content(f, g, E)
                R.ob("parents", "parent", ok, "the parent recorded is %s, not the layer named in the file" % tset(f, {t}), f.loc(c.nid))
            R.ob("parents", "parent from its file", c.nid not in go(f, flow.result_starts(f, nx, [((), "Some")]), {nx.nid}, yes), "a parent is recorded from another file than the parent file", f.loc(c.nid))
        else:
            R.ob("parents", "known parents kept", False, "what the table says about a layer may be replaced by nothing", f.loc(c.nid))
    for c in ori:
        v = {variant_of(f, t) for t in plain(f.origins(c.args[1]))} if len(c.args) > 1 and c.name == "or_insert" else {"None"}
        R.ob("parents", "no parent by default", v == {"None"}, "a layer without parent file is given a parent", f.loc(c.nid))
    st = flow.result_starts(f, nx, [((), "Some")])
    bad = missed(f, st, {c.nid for c in some}, no, {nx.nid})[1]
    R.ob("parents", "every parent file", bool(some) and not bad, "a parent file may be passed over", f.loc(nx.nid))
    bad = missed(f, st, {c.nid for c in some} | {c.nid for c in none}, set(), {nx.nid})[1]
    R.ob("parents", "every layer", not bad, "an entry may be passed over without its layer being recorded", f.loc(nx.nid))


def of_option(f, x):
    """the switch is on a test of an optional file name which is false where there is none"""
    op = f.opnd(f.nodes[x].ctx, f.nodes[x].term[1])
    for dp, kind, payload, nid in f.defs.get(op[1], []) if op[0] == "p" else ():
        c = f.nodes[nid].call if kind == "call" or f.nodes[nid].kind == "call" else None
        if c is None or c.name not in ("unwrap_or", "unwrap_or_default", "map_or", "is_some_and"):
            return False
        if c.name in ("unwrap_or", "map_or") and any(t[:3] != ("const", "bool", 0) for t in f.origins(c.args[1])):
            return False
        r = c
        while r is not None and r.name in ("unwrap_or", "unwrap_or_default", "map_or", "is_some_and", "map", "and_then"):
            ts = plain(f.origins(r.args[0]))
            r = f.callof(next(iter(ts))) if len(ts) == 1 and next(iter(ts))[0] == "call" else None
        if r is None or r.name != "file_name":
            return False
        return True
    return False


def through(f, op, depth=6):
    """origins of an iterator operand, looked at through adaptors"""
    out = set()
    for t in plain(f.origins(op)):
        c = f.callof(t) if t[0] == "call" else None
        if c is not None and c.name in ("filter", "iter", "into_iter", "copied", "cloned", "rev", "chain", "enumerate", "by_ref", "inspect", "peekable") and depth:
            for a in c.args[:2 if c.name == "chain" else 1]:
                out |= through(f, a, depth - 1)
        else:
            out.add(t)
    return out


def flat_opts(f, op):
    """origins of an operand, looked at through Some(..)"""
    if op[0] not in ("p", "k"):
        return {op}
    out = set()
    for t in plain(f.origins(op)):
        if t[0] == "agg" and variant_of(f, t) == "Some":
            out |= plain(f.origins(f.stmt(t)[2][0]))
        else:
            out.add(t)
    return out


def parent_name(f, t, P):
    if t[0] == "const":
        return t[1] == "str" and t[2] == P or is_file(t, "parent")
    c = f.callof(t) if t[0] == "call" else None
    if c is not None and c.name in ("new", "from", "as_ref", "as_os_str") and c.args:
        return all(parent_name(f, u, P) for u in plain(f.origins(c.args[0]))) and bool(plain(f.origins(c.args[0])))
    return False


def content(f, g, E):
    """the operand is the text of the bytes read from the entry, forty of them"""
    for t in plain(f.origins(g.args[0])):
        c = f.callof(t) if t[0] == "call" else None
        if c is None or c.name not in ("from_utf8", "trim", "trim_end", "from_utf8_lossy"):
            rd = [x for x in calls(f, "read_to_string") if t in plain(f.origins(x.args[1])) and plain(f.origins(x.args[0])) == {E}]
            if not rd:
                return False
            continue
        src = plain(f.origins(c.args[0]))
        rd = [x for x in calls(f, "read_exact", "read_to_end") if plain(f.origins(x.args[1])) & src and plain(f.origins(x.args[0])) == {E}]
        if not rd or not all(f.always_before(c.nid, [x.nid]) for x in rd):
            return False
        for u in src:
            if u[0] == "expr":
                st = f.stmt(u)
                if st[0] == "repeat" and "40" not in str(st):
                    return False
    return True


def wiring(R, prog):
    R.rule("wiring", "exporting and importing through a cache or a store reaches the layer store behind it with the same arguments")
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.name not in ("export_layers", "import_layers") or b.kind != "AssocFn" or b.impl_self in (None, "T"):
            continue
        n += 1
        f = flat(prog, b, opaque={x.id for x in prog.bodies.values() if x.name == b.name and x.id != b.id}, R=R)
        cs = calls(f, b.name)
        ok = bool(cs)
        for c in cs:
            ok = ok and all(param_only(f.origins(a), i + 2) for i, a in enumerate(c.args[1:])) and all(t[0] == "param" and t[1] == 1 for t in plain(f.origins(c.args[0])))
        R.ob("wiring", short(b), ok, "the arguments are not passed on as they are", loc(b))
        got = flow.explore_from_start(f, flow.avoid_cut(runs(f, cs)))
        R.ob("wiring", short(b) + " done", not ok_exit(f, got), "success is reported without anything being done", loc(b))
    R.floor("wiring", 4)


def p19(R, prog):
    export(R, prog)
    imports(R, prog)
    parents(R, prog)
    wiring(R, prog)
    R.floor("export", 25)
    R.floor("import", 10)
    R.floor("parents", 5)
