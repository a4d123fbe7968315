"""P16: what is written where: only layers under construction are written to,
nothing takes a finished layer away, and loaded layers cannot be changed."""
from collections import defaultdict
from rules.lib import *
from rules.pack import plain, is_file
from rules.locks import strip_head, loc, lock_class, guard_of, fs_free
import flow

DEBUG = False

# functions of tdb_succinct that only read the files they are given
READS = {"open_read", "open_read_from", "map", "map_if_exists", "exists", "size", "map_all", "map_all_if_exists", "dict_file_get_count",
         "dict_reader_to_indexed_stream", "open_sorted_string_list", "clone", "eq", "fmt"}
READS_RE = re.compile(r"stream|_get_|reader|assert_|_len|^map|^read|count|entries|^len$|^is_")
# and which arguments the others write
WRITES = {"open_write": {0}, "copy_from": {0}, "write_all_from_bufs": {0}, "merge_string_dictionaries": {1}, "merge_typed_dictionaries": {1},
          "dedup_merge_string_dictionaries_stream": {1}, "dedup_merge_typed_dictionary_streams": {1}, "build_wavelet_tree_from_iter": {2, 3, 4},
          "build_wavelet_tree_from_logarray": {1, 2, 3}, "merge_string_dictionaries_stream": {1}, "copy_file": {1}}
FILEISH = re.compile(r"Files<|::File\b|FileBackedStore|MemoryBackedStore|ConstructionFile|ArchiveLayerHandle\b|ArchiveLayerHandle<|ArchiveRollupFile\b|ArchiveRollupFile<|PersistentFileSlice|FileStore")
LAYERS = {"InternalLayer", "BaseLayer", "ChildLayer", "RollupLayer", "StoreLayer", "SyncStoreLayer"}
CELLS = re.compile(r"\b(RefCell|Cell|UnsafeCell|Mutex|RwLock|ArcSwap)\b|\*mut ")


def never(b, d):
    return False


def fileish(t):
    s = t
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    return bool(re.fullmatch(r"[A-Z]\w{0,3}", s)) or bool(FILEISH.search(t)) or s.startswith("(") or bool(re.search(r"[<(,\[] ?&?[A-Z]\d?[,>)\]]", s))


class Writes:
    def __init__(self, R, prog):
        self.p, self.R = prog, R
        self.f = {}
        self.callers = defaultdict(list)
        for b in prog.bodies.values():
            if b.kind in ("Fn", "AssocFn") and b.blocks:
                self.f[b.id] = flat(prog, b, inline=never, depth=1)
        for bid, f in self.f.items():
            for c in f.callsites:
                if c.nid in f.reach:
                    for t in self.targets(c):
                        self.callers[t].append((bid, c))
        self.adt = {a["id"]: a for a in prog.adts.values()}
        self.sites = defaultdict(list)       # (adt, field) -> [(body, operand)]
        for bid, f in self.f.items():
            for x in f.reach:
                for d, rv, line in f.nodes[x].stmts:
                    if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in self.adt and len(rv) > 3 and rv[3]:
                        for o, nm in zip(rv[2], rv[3]):
                            self.sites[(rv[1][1], nm)].append((bid, o))
                    elif rv[0] == "use" and len(d[1]) >= 1 and not str(d[1][0]).startswith(("!", "[", "^")):
                        a = self.adt_of(f.vtype[d[0]])
                        if a and d[1][0] in self.fields(a):
                            self.sites[(a, d[1][0])].append((bid, rv[1]))
        self.written = 0
        self.judged = {}                     # (body) -> {where: (ok, how)}
        self.vseen, self.nseen = set(), set()
        self.work = []
        self.sources = set()

    def adt_of(self, t):
        t0 = t
        for _ in range(6):
            while t0.startswith("&"):
                t0 = t0[1:].lstrip()
                if t0.startswith("'"):
                    t0 = t0.split(" ", 1)[1] if " " in t0 else t0
                if t0.startswith("mut "):
                    t0 = t0[4:]
            h = t0.split("<", 1)[0]
            if h in self.adt:
                return h
            if h.split("::")[-1] in ("Arc", "Box", "Rc", "Pin", "Option") and "<" in t0:
                a = split_args(t0)
                if a:
                    t0 = a[0]
                    continue
            return None

    def fields(self, a):
        return {x[0] for v in self.adt[a]["variants"] for x in v["fields"]}

    def bundle(self, a):
        """a type that is nothing but files"""
        d = self.adt[a]
        fs = [x[1] for v in d["variants"] for x in v["fields"]]
        return bool(fs) and all(fileish(t) and not re.search(r"::(Layer|LayerStore)\b", t) for t in fs) and not any(t.startswith("(") for t in fs) and (d["id"].startswith("storage::file::") or all("Files<" in t or re.fullmatch(r"[A-Z]\w*", t) for t in fs))

    def targets(self, c):
        p = self.p
        if c.target in self.f and p.bodies[c.target].in_trait is None:
            return [c.target]
        out = []
        if c.fn is not None and c.trait:
            out = [i for i in p.trait_impls.get(c.path, ()) if i in self.f]
            if c.target in self.f:
                out.append(c.target)
            if c.path in self.f:
                out.append(c.path)
        elif c.target in self.f:
            out = [c.target]
        return sorted(set(out))

    # -- values that are written

    def run(self):
        for bid, f in sorted(self.f.items()):
            for c in f.callsites:
                if c.nid not in f.reach:
                    continue
                ours = self.targets(c)
                self.cur = c
                if c.name == "open_write" and c.trait:
                    self.write(bid, c.args[0])
                elif c.fn is not None and c.path.startswith("tdb_succinct::") and not ours:
                    ws = WRITES.get(c.name)
                    if ws is None:
                        if c.name in READS or READS_RE.search(c.name) or c.name in ("push", "push_all", "finalize", "push_vec", "add", "add_all", "sync_all"):
                            continue
                        ws = set(range(len(c.args)))
                    for i in ws:
                        if i < len(c.args) and c.args[i][0] == "p" and (fileish(f.vtype[c.args[i][1]]) or c.name in WRITES):
                            self.write(bid, c.args[i])
                if c.trait and c.name == "finalize" and "PersistentLayerStore" in c.trait and len(c.args) > 1:
                    self.name(bid, c.args[1], c)
                if c.trait and c.name == "store_layer_file" and len(c.args) > 1:
                    self.name(bid, c.args[1], c)
                if c.trait and c.name == "create_named_directory" and len(c.args) > 1:
                    self.name(bid, c.args[1], c)
        while self.work:
            kind, bid, op = self.work.pop()
            (self.value if kind == "v" else self.names)(bid, op)

    def write(self, bid, op):
        self.written += 1
        if DEBUG: print("W", bid, self.cur.path)
        self.work.append(("v", bid, op))

    def name(self, bid, op, c):
        self.sources.add((bid, c.nid))
        self.work.append(("n", bid, op))

    def is_name(self, f, o):
        return o[0] == "p" and "[u32; 5]" in f.vtype[o[1]]

    def value(self, bid, op):
        """a file (or files) that is written"""
        key = (bid, op[:3] if op[0] == "p" else str(op))
        if key in self.vseen:
            return
        self.vseen.add(key)
        f = self.f[bid]
        for t in f.leaves(op, depth=10, stop=lambda c: c is not None and (bool(self.targets(c)) or c.name == "get_file")):
            self.vterm(bid, f, t)

    def vterm(self, bid, f, t):
        b = self.p.bodies[bid]
        if t[0] == "param":
            ty = self.ptype(f, b, t[1])
            a = self.adt_of(ty) if ty else None
            if a and t[2] and t[2][0] in self.fields(a) and not self.bundle(a):
                for s in self.sites[(a, t[2][0])]:
                    self.work.append(("v",) + s)
            elif ty is None or fileish(ty) or a:
                if a and not self.bundle(a) and not fileish(ty) and not t[2]:
                    return
                for cb, c in self.callers[bid]:
                    if t[1] - 1 < len(c.args):
                        self.work.append(("v", cb, c.args[t[1] - 1]))
        elif t[0] == "call":
            c = f.callof(t)
            if c is None:
                return
            if c.name == "get_file":
                self.source(bid, f, c)
            else:
                self.through(bid, f, c, t[2])
        elif t[0] == "agg":
            pass

    def ptype(self, f, b, i):
        return b.locals[i] if i < len(b.locals) else None

    def through(self, bid, f, c, path):
        """files that came out of one of our functions"""
        for g in self.targets(c):
            for kind, k, payload in self.gives(g):
                if kind == "dir":
                    if k is None:
                        continue
                    if k - 1 < len(c.args):
                        self.sources.add((bid, c.nid))
                        self.work.append(("n", bid, c.args[k - 1]))
                elif kind == "file":
                    if k - 1 < len(c.args):
                        self.work.append(("v", bid, c.args[k - 1]))

    def gives(self, g, seen=()):
        """what the files a function gives are made from: ("dir", its parameter that names the directory) or ("file", its parameter that is the file)"""
        if not hasattr(self, "_gives"):
            self._gives = {}
        if g in self._gives:
            return self._gives[g]
        self._gives[g] = []
        ret = self.p.bodies[g].ret or ""
        if not (FILEISH.search(ret) or "async fn body" in ret or "impl " in ret or re.search(r"[<(&, ][A-Z]\d?[,>)]", " %s)" % ret)):
            return []
        f = self.f[g]
        out = set()
        ts = set()
        for o in f.res(f.retvar, ("!",)) | f.res(f.retvar, ()):
            ts |= f.leaves(o, depth=10, stop=lambda c: c is not None and (bool(self.targets(c)) or c.name == "get_file"))
        for t in ts:
            if t[0] == "param":
                ty = self.ptype(f, self.p.bodies[g], t[1])
                if ty and fileish(ty):
                    out.add(("file", t[1], None))
            elif t[0] == "call":
                c = f.callof(t)
                if c is None:
                    continue
                if c.name == "get_file":
                    if self.file_is(f, c, "rollup"):
                        continue
                    out |= self.dirs(g, f, c.args[1])
                else:
                    for h in self.targets(c):
                        for kind, k, _ in self.gives(h):
                            if kind == "dir" and k is not None and k - 1 < len(c.args):
                                out |= self.dirs(g, f, c.args[k - 1])
                            elif kind == "file" and k - 1 < len(c.args):
                                for x in f.origins(c.args[k - 1]):
                                    if x[0] == "param":
                                        out.add(("file", x[1], None))
        self._gives[g] = sorted(out, key=str)
        return self._gives[g]

    def dirs(self, g, f, op):
        out = set()
        rest = False
        for t in f.origins(op):
            if t[0] == "param" and not (self.adt_of(self.ptype(f, self.p.bodies[g], t[1]) or "") and t[2]):
                out.add(("dir", t[1], None))
            else:
                rest = True
        if rest:
            # decided where it is
            self.sources.add((g, 0))
            self.pend = getattr(self, "pend", set())
            self.pend.add((g, op[:3]))
            out.add(("dir", None, (g, op[:3])))
        return out

    def file_is(self, f, c, slot):
        ts = plain(f.origins(c.args[2])) if len(c.args) > 2 else set()
        return bool(ts) and all(is_file(t, slot) for t in ts)

    def source(self, bid, f, c):
        if self.file_is(f, c, "rollup"):
            return
        self.sources.add((bid, c.nid))
        self.work.append(("n", bid, c.args[1]))

    # -- names of layers that are written

    def names(self, bid, op):
        key = (bid, op[:3] if op[0] == "p" else str(op))
        if key in self.nseen:
            return
        self.nseen.add(key)
        f = self.f[bid]
        b = self.p.bodies[bid]
        for t in plain(f.origins(op)):
            if DEBUG: print("N", bid, op, t)
            self.nterm(bid, f, b, t)

    def judge(self, bid, ok, how, where):
        self.judged.setdefault(bid, {})[where] = (ok, how)

    def nterm(self, bid, f, b, t):
        if t[0] == "param":
            ty = self.ptype(f, b, t[1])
            a = self.adt_of(ty) if ty else None
            if a and t[2] and t[2][0] in self.fields(a):
                ss = self.sites[(a, t[2][0])]
                for s in ss:
                    self.work.append(("n",) + s)
                return
            cs = self.callers[bid]
            for cb, c in cs:
                if t[1] - 1 < len(c.args):
                    self.work.append(("n", cb, c.args[t[1] - 1]))
            if DEBUG and not cs and not b.impl_trait and not b.in_trait: print(bid, t, ty)
            if not cs and not b.impl_trait and not b.in_trait:
                self.judge(bid, False, "writes to the layer it is asked to", f.loc(0))
            return
        if t[0] == "call":
            c = f.callof(t)
            if c is not None and c.name == "create_directory":
                return self.judge(bid, True, "create_directory", f.loc(c.nid))
            if c is not None and c.name == "create_named_directory":
                self.work.append(("n", bid, c.args[1]))
                return
            if c is not None and c.path.startswith("rand::"):
                return self.judge(bid, True, "a random name", f.loc(c.nid))
            if c is not None:
                gs = self.targets(c)
                for g in gs:
                    h = self.f[g]
                    path = tuple(t[2])
                    for x in plain(h.res(h.retvar, path if path else ("!",)) or h.res(h.retvar, ())):
                        if x[0] == "param" and not (self.adt_of(self.ptype(h, self.p.bodies[g], x[1]) or "") and x[2]):
                            if x[1] - 1 < len(c.args):
                                self.work.append(("n", bid, c.args[x[1] - 1]))
                        elif x[0] in ("param", "call"):
                            if (g, x) not in self.nseen:
                                self.nseen.add((g, x))
                                self.nterm(g, h, self.p.bodies[g], x)
                        else:
                            self.judge(bid, False, "writes to a layer whose name comes from %s" % c.name, f.loc(c.nid))
                if gs:
                    return
            return self.judge(bid, False, "writes to a layer whose name comes from %s" % (c.name if c is not None else "?"), f.loc(t[1]))
        if t[0] in ("residual", "mut"):
            return
        if t[0] in ("agg", "expr"):
            ls = f.leaves(t, depth=8, stop=lambda c: c is not None and c.path.startswith("rand::"))
            cs = {f.callof(x).path for x in ls if x[0] == "call"}
            filled = self.filled(f, t)
            if (cs or filled) and all(x.startswith("rand::") for x in cs) and not any(x[0] == "param" for x in ls):
                return self.judge(bid, True, "a random name", f.loc(t[1]))
        self.judge(bid, False, "writes to a layer whose name it did not make", f.loc(t[1]) if t[0] in ("agg", "expr") else f.loc(0))


    def filled(self, f, t):
        """an array made here whose elements are then set to random numbers"""
        d = f.nodes[t[1]].stmts[t[2]][0][0]
        if "[u32; 5]" not in f.vtype[d]:
            return False
        for c in f.callsites:
            if c.nid in f.reach and c.path.startswith("rand::") and f.nodes[c.nid].kind == "call":
                if "u32" in f.vtype[c.dest[0]] or c.name in ("fill", "fill_bytes"):
                    return True
        return False


def p16(R, prog):
    R.rule("fresh", "whatever is written as part of a layer is written under a name made for it just now (create_directory): the layer named in every such write is followed back, through parameters, results and fields, to where the name came from; attaching a rollup aside")
    R.rule("kept", "creating a layer's directory leaves a layer of that name as it is")
    R.rule("removed", "nothing of a finished layer is removed")
    R.rule("shared", "a loaded layer has no interior mutability, and nothing assigns to a part of one")
    R.rule("reading", "reading a file does not change what is stored in it")
    W = Writes(R, prog)
    for b in sorted(W.f):
        R.saw(W.f[b])
    W.run()
    # dirs that functions giving files take from somewhere else than a parameter
    for g, op in sorted(getattr(W, "pend", ()), key=str):
        W.work.append(("n", g, op))
    while W.work:
        kind, bid, op = W.work.pop()
        (W.value if kind == "v" else W.names)(bid, op)
    for bid, js in sorted(W.judged.items()):
        for where, (ok, how) in sorted(js.items()):
            R.ob("fresh", "%s%s" % (short(prog.bodies[bid]), "" if not ok else "/" + how), ok, "`%s` %s" % (short(prog.bodies[bid]), "writes under a name it has just made (%s)" % how if ok else how), where)
    R.ob("fresh", "writes", W.written >= 20, "%d places write layer files" % W.written, "")
    kept(R, prog, W)
    removed(R, prog, W)
    shared(R, prog, W)
    reading(R, prog, W)
    R.floor("fresh", 8)
    R.floor("kept", 3)
    R.floor("removed", 4)
    R.floor("shared", 8)
    R.floor("reading", 2)


# ---- what exists stays ---------------------------------------------------------

DESTROY = ("remove_file", "remove_dir", "remove_dir_all", "rename", "set_len", "truncate", "write", "copy", "create")


def kept(R, prog, W):
    """create_named_directory only adds"""
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.name != "create_named_directory" or not b.impl_trait or not b.blocks:
            continue
        f = flat(prog, b, R=R)
        C = conds(f)
        H = held(f)
        acts = 0
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined:
                continue
            if c.name in ("insert", "remove", "retain", "clear", "drain", "remove_entry", "get_mut", "entry", "or_insert", "or_insert_with", "or_default") and c.args and c.args[0][0] == "p":
                h = strip_head(f.vtype[c.args[0][1]])
                if h not in ("HashMap", "BTreeMap", "HashSet", "Entry", "LruCache"):
                    continue
                if c.name in ("entry", "or_insert", "or_insert_with", "or_default"):
                    ok = True
                elif c.name == "insert":
                    ok = h == "HashSet" or any(absent_in(f, a, c) for a in C.facts(c.nid))
                    if ok and h == "Entry":
                        ok = True
                else:
                    ok = False
                acts += 1
                R.ob("kept", "%s/%s" % (short(b), c.name), ok, "`%s` calls %s on the layers %s" % (short(b), c.name, "only for a layer that was not there" if ok else "and so discards a layer of that name that is there"), f.loc(c.nid))
            elif flow.is_fs(c, *DESTROY) and "OpenOptions" not in c.path:
                R.ob("kept", "%s/%s" % (short(b), c.name), False, "`%s` calls %s" % (short(b), c.name), f.loc(c.nid))
            elif flow.is_fs(c, "create_dir", "create_dir_all"):
                acts += 1
                R.ob("kept", "%s/%s" % (short(b), c.name), True, "`%s` makes a directory, and leaves one that exists as it is" % short(b), f.loc(c.nid))
        R.ob("kept", "%s/acts" % short(b), acts > 0, "`%s` makes the layer's place" % short(b), f.loc(0))


def absent_in(f, a, c):
    """the fact says that the map this call writes does not hold the key"""
    def m(d):
        return d.args and d.args[0][0] == "p" and strip_head(f.vtype[d.args[0][1]]) == strip_head(f.vtype[c.args[0][1]]) and set(plain(f.origins(d.args[1]))) == set(plain(f.origins(c.args[1])))
    if a[0] == "bool" and a[2] is False and a[1][0] == "call":
        d = f.callof(a[1])
        if d is not None and d.name == "contains_key":
            return m(d)
        if d is not None and d.name == "is_some":
            return any(t[0] == "call" and f.callof(t).name in ("get", "get_mut") and m(f.callof(t)) for t in f.origins(d.args[0]))
    if a[0] == "bool" and a[2] is True and a[1][0] == "call":
        d = f.callof(a[1])
        if d is not None and d.name == "is_none":
            return any(t[0] == "call" and f.callof(t).name in ("get", "get_mut") and m(f.callof(t)) for t in f.origins(d.args[0]))
    if a[0] == "variant" and a[1][0] == "call" and set(a[2]) == {"None"} and a[3]:
        d = f.callof(a[1])
        return d is not None and d.name in ("get", "get_mut") and m(d)
    if a[0] == "variant" and set(a[2]) == {"Vacant"}:
        return True
    return False


LABELTRAITS = ("LabelStore",)


def removed(R, prog, W):
    # which functions are part of looking after labels only
    for bid, f in sorted(W.f.items()):
        b = prog.bodies[bid]
        for c in f.callsites:
            if c.nid not in f.reach:
                continue
            if flow.is_fs(c, "remove_file", "remove_dir", "remove_dir_all") and "OpenOptions" not in c.path:
                ok = labels_only(W, bid) or temporary(f, c)
                R.ob("removed", "%s/%s" % (short(b), c.name), ok, "`%s` removes %s" % (short(b), "a label or a temporary file" if ok else "something that may be part of a layer"), f.loc(c.nid))
            elif flow.is_fs(c, "rename") and len(c.args) > 1:
                ok = labels_only(W, bid) or temporary(f, c) or pending(f, c)
                R.ob("removed", "%s/rename" % short(b), ok, "`%s` moves %s into place" % (short(b), "what it has written aside" if ok else "a file that may be part of a layer"), f.loc(c.nid))
            elif c.name in ("remove", "remove_entry", "retain", "clear", "drain", "extract_if") and c.args and c.args[0][0] == "p":
                t = f.vtype[c.args[0][1]]
                if strip_head(t) not in ("HashMap", "BTreeMap") or "[u32; 5]" not in t.split("HashMap<")[-1][:12] and "HashMap<[u32; 5]" not in t and "BTreeMap<[u32; 5]" not in t:
                    continue
                ok = "Weak<" in t or "CacheEntry" in t or "HashMap<" not in t.split("HashMap<", 1)[-1] and not fileish(t)
                how = "forgets a layer's cached copy"
                if not ok and "ConstructionFile" in t:
                    ok = stored_before(prog, R, b, c)
                    how = "takes a layer out of those under construction once it is stored"
                R.ob("removed", "%s/%s" % (short(b), c.name), ok, "`%s` %s" % (short(b), how if ok else "removes a layer"), f.loc(c.nid))


def labels_only(W, bid, seen=None):
    """the function is only called, in the end, by label stores"""
    seen = seen or set()
    b = W.p.bodies[bid]
    if b.impl_trait and b.impl_trait.split("<")[0].split("::")[-1] in LABELTRAITS:
        return True
    if bid in seen:
        return True
    cs = W.callers[bid]
    return bool(cs) and all(labels_only(W, x[0], seen | {bid}) for x in cs)


def temporary(f, c):
    """what is removed or moved is a file with a temporary name"""
    ts = f.leaves(c.args[0], depth=12)
    return any(t[0] == "const" and isinstance(t[2], str) and re.search(r"tmp|temp", t[2]) for t in ts) or any(t[0] == "call" and f.callof(t) is not None and re.search(r"tempfile|TempDir|temp_dir", f.callof(t).path) for t in ts)


def pending(f, c):
    """what is moved was created in this function"""
    src = set(plain(f.origins(c.args[0])))
    return any(flow.is_open_call(d) and d.nid in f.reach and f.always_before(c.nid, {d.nid}) and set(plain(f.origins(d.args[-1]))) == src for d in f.callsites)


def stored_before(prog, R, b, c0):
    f = flat(prog, b, R=R)
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.name == c0.name and c.args and c.args[0][0] == "p" and "ConstructionFile" in f.vtype[c.args[0][1]]:
            st = [d for d in f.callsites if d.nid in f.reach and d.name == "store_layer_file"]
            if not st or not f.always_before(c.nid, {d.nid for d in st}):
                return False
    return True


# ---- loaded layers ---------------------------------------------------------------

def shared(R, prog, W):
    adts = W.adt
    roots = [a for a in adts if a.split("::")[-1] in LAYERS]
    seen = set()
    work = list(roots)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        bad = []
        for v in adts[a]["variants"]:
            for nm, ty, vis in v["fields"]:
                if CELLS.search(ty):
                    bad.append("%s: %s" % (nm, ty))
                for w in re.findall(r"[\w:]+", ty):
                    if w in adts and w not in seen and owned(w):
                        work.append(w)
        R.ob("shared", "cells/%s" % a, not bad, "`%s`, part of a loaded layer, has %s" % (a, "no interior mutability" if not bad else "interior mutability: %s" % bad[0]), "")
    parts = {a for a in seen}
    n = 0
    for bid, f in sorted(W.f.items()):
        b = prog.bodies[bid]
        for x in sorted(f.reach):
            for d, rv, line in f.nodes[x].stmts:
                if rv[0] == "ref" and rv[1] == "mut" or rv[0] in ("use", "agg", "bin", "un") and d[1]:
                    vid, path = (rv[2] if rv[0] == "ref" else d)
                    if not path:
                        continue
                    ty = f.vtype[vid]
                    a = W.adt_of(ty)
                    if a not in parts:
                        continue
                    own = not ty.startswith("&") and "Arc<" not in ty
                    built = own and not (vid <= b.argc)
                    n += 1
                    # initialising a value that is being made is not a change of a loaded one
                    ok = own
                    R.ob("shared", "assign/%s/%s" % (short(b), a.split("::")[-1]), ok, "`%s` %s a part of a `%s`" % (short(b), "sets, in a value of its own," if ok else "changes", a), f.loc(x))
        for c in f.callsites:
            if c.nid in f.reach and (c.name in ("get_mut", "make_mut", "get_mut_unchecked") and re.search(r"Arc|Rc", c.path) or c.path.endswith("ptr::write") or c.name in ("as_mut_ptr", "cast_mut", "from_raw_parts_mut")) and c.args and c.args[0][0] == "p":
                a = [w for w in re.findall(r"[\w:]+", f.vtype[c.args[0][1]]) if w in parts]
                if a:
                    R.ob("shared", "unshare/%s" % short(b), False, "`%s` obtains a loaded `%s` for changing (%s)" % (short(b), a[0], c.name), f.loc(c.nid))
    # what can be called on a loaded layer takes it shared
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind == "AssocFn" and b.impl_self and W.adt_of(b.impl_self) in {r for r in roots} and b.argc and len(b.locals) > 1:
            t = b.locals[1]
            if W.adt_of(t) == W.adt_of(b.impl_self) and t.startswith("&") and re.match(r"&('\w+ )?mut ", t) and not (b.impl_trait or "").endswith(("Clone", "Drop")):
                R.ob("shared", "method/%s" % short(b), False, "`%s` takes a loaded layer for changing" % short(b), loc(b))


def owned(w):
    return not w.split("::")[-1].endswith(("Store", "Backend", "Cache", "Builder")) and not w.startswith(("store::Store", "storage::cache", "storage::directory"))


# ---- reading ---------------------------------------------------------------------

def reading(R, prog, W):
    """a reader that consumes what it reads has it to itself"""
    eaters = {}
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.name == "poll_read" and b.impl_trait and b.blocks and b.impl_self:
            f = W.f[b.id]
            a = W.adt_of(b.impl_self)
            if a is None:
                continue
            locks = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("write", "lock") and c.args and c.args[0][0] == "p" and re.search(r"RwLock|Mutex", c.path)]
            if locks:
                eaters[a] = (b, f.loc(locks[0].nid))
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.name in ("open_read_from", "open_read") and b.impl_trait and b.blocks:
            f = flat(prog, b, R=R)
            bad = []
            handed = 0
            for t in plain(f.res(f.retvar, ("!",))):
                a = None
                if t[0] == "param":
                    a = W.adt_of(b.locals[t[1]])
                    if a in eaters and not t[2]:
                        bad.append(f.loc(0))
                elif t[0] == "agg":
                    handed += 1
                    rv = f.stmt(t)
                    if rv[1][0] == "adt" and rv[1][1] in eaters:
                        for o in rv[2]:
                            for y in f.origins(o):
                                if y[0] == "param" or y[0] == "call" and f.callof(y) is not None and f.callof(y).name not in ("new",):
                                    bad.append(f.loc(t[1]))
            R.ob("reading", short(b), not bad, "`%s` gives a reader %s" % (short(b), "that consumes the stored bytes" if bad else "that leaves what is stored as it is"), bad[0] if bad else f.loc(0))
