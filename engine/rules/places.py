"""P13: what a store holds is found again by enumeration, and each operation
looks for it at the place where it was put."""
from rules.lib import *
from rules.pack import plain, ok_exit
from rules.builder import CUTS, walk, some_states
from rules.valex import Ev
from symval import sym, segs, pieces, TOP
import flow
from rules import codec
from flow import is_fs

TEXT = {"new_display", "to_string", "to_owned", "as_str", "into", "from", "as_bytes", "to_str", "into_string", "to_string_lossy", "into_bytes", "must_use", "as_os_str", "clone", "as_ref", "deref",
        "unwrap_or_default"}
NAMELEN = 40
CUTTING = set(CUTS) | {"filter", "filter_map", "pop", "remove", "swap_remove", "drain", "clear", "retain", "find", "position", "dedup_by", "dedup_by_key", "extract_if", "max", "min", "map_while", "flatten",
                       "flat_map", "next_back", "rposition", "find_map", "splice", "resize", "drain_filter"}


class Canon:
    """what paths and texts are made of"""

    def __init__(self, f):
        self.f = f
        self.s = sym(f)
        self.ev = Ev(f)

    def num(self, v):
        if v[0] == "k":
            if isinstance(v[1], int):
                return v[1]
            m = re.match(r"^(\d+)(_[ui]\w+)?$", str(v[1]))
            if m:
                return int(m.group(1))
            if str(v[1]) in self.f.p.bodies:
                n = self.ev.named(("const", "def", str(v[1]), ()))
                return n if isinstance(n, int) else None
        if v[0] == "f" and v[1] == "len" and len(v) == 3:
            t = self.text(v[2])
            if t is not None and all(x[0] == "lit" for x in t):
                return sum(len(x[1].encode()) for x in t)
        if v[0] == "bin":
            a, b = self.num(v[2]), self.num(v[3])
            if a is not None and b is not None:
                return {"Sub": a - b, "Add": a + b, "Mul": a * b}.get(v[1])
        return None

    def bounds(self, v):
        if v[0] != "agg" or v[1][0] != "adt":
            return None
        d = dict(v[2])
        k = v[1][2] if len(v[1]) > 2 else v[1][1].split("::")[-1]
        if k == "RangeTo":
            return ("k", 0), d.get("end")
        if k == "Range":
            return d.get("start"), d.get("end")
        if k == "RangeFrom":
            return d.get("start"), None
        return None

    def entry(self, v):
        """node of the `next_entry` a directory entry was got from"""
        while v[0] == "f" and v[1] == ".!":
            v = v[2]
        if v[0] == "call" and len(v[2]) >= 1 and all(t == "!" for t in v[2]):
            c = self.f.callof(("call", v[1], ()))
            if c is not None and c.name in ("next_entry", "next", "poll_next_entry"):
                return v[1]
        return None

    def text(self, v, depth=10):
        """pieces: ("lit", s) | ("name", who) | ("text", who) | ("cut", piece, from, to) | ("entry", nid) | ("less", nid, n)"""
        if depth < 0:
            return None
        if v[0] == "k":
            s = str(v[1])
            if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
                try:
                    import ast
                    return [("lit", ast.literal_eval(s))]
                except (SyntaxError, ValueError):
                    return None
            if s in self.f.p.bodies:
                g = flat(self.f.p, self.f.p.bodies[s])
                vs = {str(t[2]) for t in g.origins(("p", g.retvar, (), False)) if t[0] == "const"}
                if len(vs) == 1:
                    return self.text(("k", vs.pop()), depth - 1) if not list(vs) == [s] else None
            return None
        if v[0] == "in":
            return [("text", v[1:])]
        if v[0] == "cat":
            a, b = self.text(v[1], depth - 1), self.text(v[2], depth - 1)
            return a + b if a is not None and b is not None else None
        if v[0] != "f":
            return None
        n = v[1]
        if n == "name_to_string" and v[2][0] == "in":
            return [("name", v[2][1:])]
        if n == "format" and len(v) == 3:
            ps = pieces(v)
            if ps is None:
                return None
            out = []
            for k, x in ps:
                t = [("lit", x)] if k == "lit" and not (x[:1] == '"' and x[-1:] == '"') else self.text(("k", x) if k == "lit" else x, depth - 1)
                if t is None:
                    return None
                out += t
            return out
        if n == "file_name" and len(v) == 3:
            e = self.entry(v[2])
            if e is None and v[2][0] == "f" and v[2][1] == "path":
                e = self.entry(v[2][2])
            if e is not None:
                return [("entry", e)]
            p = self.path(v[2])
            return p[1][-1] if p is not None and p[1] else None
        if n == "file_stem" and len(v) == 3:
            x = v[2]
            if x[0] == "f" and x[1] == "path" and self.entry(x[2]) is not None:
                return [("stem", self.entry(x[2]))]
            p = self.path(x)
            if p is not None and p[1] and p[1][-1][-1][0] == "lit" and len(p[1][-1]) > 1 and p[1][-1][-1][1].rfind(".") >= 0:
                last = p[1][-1]
                rest = last[-1][1][:last[-1][1].rfind(".")]
                return last[:-1] + ([("lit", rest)] if rest else [])
            return None
        if n == "index" or n == "get" and len(v) == 4:
            t, b = self.text(v[2], depth - 1), self.bounds(v[3])
            if t is None or b is None:
                return None
            lo = self.num(b[0])
            if b[1] is not None and b[1][0] == "bin" and b[1][1] == "Sub" and b[1][2][:2] == ("f", "len") and self.text(b[1][2][2], depth - 1) == t:
                k = self.num(b[1][3])
                if lo == 0 and k is not None and len(t) == 1 and t[0][0] == "entry":
                    return [("less", t[0][1], k)]
                return None
            hi = self.num(b[1]) if b[1] is not None else None
            if lo is None or hi is None or len(t) != 1:
                return None
            return [("cut", t[0], lo, hi)]
        if n in ("strip_suffix", "trim_end_matches") and len(v) == 4:
            t, x = self.text(v[2], depth - 1), self.text(v[3], depth - 1)
            if t is not None and len(t) == 1 and t[0][0] == "entry" and x is not None and len(x) == 1 and x[0][0] == "lit":
                return [("less", t[0][1], len(x[0][1].encode()))]
            return None
        if n == "add" and len(v) == 4 or n == "concat" and len(v) == 3 and v[2][0] == "agg":
            parts = [self.text(x, depth - 1) for x in (v[2:] if n == "add" else [y for _, y in v[2][2]])]
            return sum(parts, []) if None not in parts else None
        if n in (".!", ".0") or n in TEXT and len(v) == 3:
            return self.text(v[2], depth - 1)
        return None

    def path(self, v):
        """(base, [segments]) of a path value; a segment is a list of pieces"""
        while v[0] == "f" and v[1] in (".!",) or v[0] == "f" and v[1] in TEXT and len(v) == 3:
            v = v[2]
        if v[0] == "f" and v[1] == "path" and len(v) == 3 and self.entry(v[2]) is not None:
            return ("entry", self.entry(v[2])), []
        if v[0] == "f" and v[1] == "with_extension" and len(v) == 4:
            p, x = self.path(v[2]), self.text(v[3])
            if p is None or x is None or not p[1]:
                return None
            last = list(p[1][-1])
            if len(x) != 1 or x[0][0] != "lit":
                return None
            if last[-1][0] == "lit" and "." in last[-1][1]:
                last[-1] = ("lit", last[-1][1][:last[-1][1].rfind(".")] + "." + x[0][1])
            elif last[-1][0] == "name":
                last.append(("lit", "." + x[0][1]))
            else:
                return None
            return p[0], p[1][:-1] + [last]
        if v[0] == "f" and v[1] == "parent" and len(v) == 3:
            p = self.path(v[2])
            return (p[0], p[1][:-1]) if p is not None and p[1] else None
        if v[0] == "f" and v[1] == "with_file_name" and len(v) == 4:
            p, x = self.path(v[2]), self.text(v[3])
            return (p[0], p[1][:-1] + [x]) if p is not None and x is not None and p[1] else None
        b, ss = segs(v)
        if ss:
            p = self.path(b)
            if p is None:
                return None
            out = list(p[1])
            for x in ss:
                t = self.text(x)
                if t is None:
                    return None
                cur = []
                for y in t:
                    if y[0] == "lit" and "/" in y[1]:
                        parts = y[1].split("/")
                        for i, z in enumerate(parts):
                            if i:
                                out.append(cur)
                                cur = []
                            if z:
                                cur.append(("lit", z))
                    else:
                        cur.append(y)
                out.append(cur)
            return p[0], [merge(x) for x in out]
        if b[0] == "in":
            return b, []
        return None

    def paths(self, op_val):
        p = self.path(op_val)
        return None if p is None else (p[0], tuple(tuple(x) for x in p[1]))


def merge(x):
    out = []
    for y in x:
        if y[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + y[1])
        else:
            out.append(y)
    return out


PROBES = ("metadata", "symlink_metadata", "try_exists", "exists", "is_dir", "is_file")


def effects(f, K):
    """[(kind, call, place)] of a function's dealings with the file system"""
    out = []
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined or c.fn is None:
            continue
        at = lambda i: K.paths(K.s.arg(c, i))
        if flow.is_open_call(c):
            out.append(("open", c, at(1 if "OpenOptions" in c.path else 0)))
        elif is_fs(c, "rename"):
            out.append(("from", c, at(0)))
            out.append(("to", c, at(1)))
        elif is_fs(c, "hard_link", "copy"):
            out.append(("open", c, at(0)))
            out.append(("to", c, at(1)))
        elif is_fs(c, "create_dir_all", "create_dir"):
            out.append(("mkdir", c, at(0)))
        elif is_fs(c, "remove_file", "remove_dir_all", "remove_dir"):
            out.append(("remove", c, at(0)))
        elif is_fs(c, "read", "read_to_string") and c.path.split("::")[-2] == "fs":
            out.append(("read", c, at(0)))
        elif is_fs(c, "write") and c.path.split("::")[-2] == "fs":
            out.append(("to", c, at(0)))
        elif is_fs(c, "read_dir"):
            out.append(("list", c, at(0)))
        elif c.name in PROBES and (c.path.split("::")[-2] == "fs" or "Path" in c.path):
            out.append(("probe", c, at(0)))
        elif c.name == "new" and "FileBackedStore" in c.path:
            out.append(("handle", c, at(0)))
    return out


def show(p):
    if p is None:
        return "?"
    b, ss = p
    out = ["<store>" if b[0] == "in" else str(b)]
    for s in ss:
        t = ""
        for x in s:
            t += x[1] if x[0] == "lit" else "{%s}" % (x[0] if x[0] != "cut" else "%s[%d..%d]" % (x[1][0], x[2], x[3]))
        out.append(t)
    return "/".join(out)


def who(p, ren):
    """the place with the parameter that names the thing left open"""
    if p is None:
        return None
    def piece(x):
        if x[0] in ("name", "text"):
            return (x[0], "*" if x[1] in ren else x[1])
        if x[0] == "cut":
            return ("cut", piece(x[1])) + x[2:]
        return x
    return p[0], tuple(tuple(piece(x) for x in s) for s in p[1])


NAMES = ((2, ()), (2, ("name",)))


class Op:
    def __init__(self, R, prog, b):
        self.b = b
        self.f = flat(prog, b, opaque=opq(prog, b))
        R.saw(self.f)
        self.K = Canon(self.f)
        self.fx = effects(self.f, self.K)
        self.where = "%s:%d" % (b.file, b.line)

    def places(self, *kinds):
        return {who(p, NAMES) for k, c, p in self.fx if k in kinds}

    def calls(self, *kinds):
        return [(c, who(p, NAMES)) for k, c, p in self.fx if k in kinds]


def opq(prog, b):
    return {x.id for x in prog.bodies.values() if x.name in ("name_to_string", "string_to_name", "bytes_to_name", "parse_from_reader", "parse", "range_for")}


def strip_last(p):
    return (p[0], p[1][:-1])


def pattern(seg):
    """(fixed length or None, last literal)"""
    n = 0
    for x in seg:
        if x[0] == "lit":
            n = n + len(x[1].encode()) if n is not None else None
        elif x[0] == "name":
            n = n + NAMELEN if n is not None else None
        elif x[0] == "cut":
            n = n + x[3] - x[2] if n is not None else None
        else:
            n = None
    return n, (seg[-1][1] if seg and seg[-1][0] == "lit" else "")


def listing(R, prog, op, place, kind, other, what, key):
    """a listing visits every entry that can be `place`; place: (base, segments)"""
    f, K = op.f, op.K
    b = op.b
    w = op.where
    lists = [(c, p) for k, c, p in op.fx if k == "list"]
    depth = len(place[1])
    levels, base = [], place[0]
    for d in range(depth):
        here = [c for c, p in lists if p == (base, ())]
        R.ob("reach", "%s: level %d" % (key, d + 1), len(here) == 1, "`%s` does not list %s, where `%s` are put at %s" % (short(b), "the directory of the store" if d == 0 else "the directories in it", what, show(place)), w)
        if len(here) != 1:
            return
        # the entries of this directory
        nx = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("next_entry",) and here[0].nid in iter_of(f, c)]
        R.ob("reach", "%s: entries of level %d" % (key, d + 1), len(nx) == 1, "`%s` does not go through the entries of the directory it lists" % short(b), w)
        if len(nx) != 1:
            return
        levels.append((here[0], nx[0]))
        base = ("entry", nx[0].nid)
    R.ob("reach", key + ": nothing else", len(lists) == depth, "`%s` lists other directories than those where `%s` are put" % (short(b), what), w)
    # what is kept
    keeps = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("push", "insert", "push_back") and ("Vec" in c.path or "Map" in c.path or "Set" in c.path) and
             c.fn is not None and "Path" not in c.path and kept(f, c)]
    R.ob("keep", key + ": kept", bool(keeps), "`%s` keeps none of the entries" % short(b), w)
    if not keeps:
        return
    last = levels[-1][1].nid
    seg = place[1][-1]
    n, suf = pattern(seg)
    for c in keeps:
        elem(R, prog, op, c, last, seg, suf, what, key)
    goals = [{levels[i + 1][0].nid} for i in range(depth - 1)] + [{c.nid for c in keeps}]
    for i, (rd, nx) in enumerate(levels):
        ex = excuses(f, K, nx.nid, place[1][i], kind if i == depth - 1 else "dir")
        back = {x.nid for _, x in levels[:i + 1]} | {l.nid for l, _ in levels[:i + 1]}
        st = flow.result_starts(f, nx, [((), "Ok"), (("!",), "Some")])
        hit = walk(f, st, goals[i], ex, back)
        got = flow.explore(f, [x for x in st if x[0] not in goals[i]], lambda a, l, x: x in goals[i] or (a, l) in ex or x in back, 600)
        R.ob("every", "%s: entry of level %d" % (key, i + 1), bool(st) and not hit and not ok_exit(f, got),
             "`%s` can leave out an entry that holds `%s` at %s" % (short(b), what, show(place)), "%s:%d" % (b.file, nx.line))
        # an entry does not end the listing
        got = flow.explore(f, st, lambda a, l, x: x in ({nx.nid}), 600)
        outer = {x.nid for _, x in levels[:i]} & set(got)
        R.ob("every", "%s: goes on at level %d" % (key, i + 1), not ok_exit(f, got) and not outer, "`%s` can stop before it has seen all entries" % short(b), "%s:%d" % (b.file, nx.line))
        # the directory is gone through once it was listed
        got = flow.explore(f, flow.result_starts(f, rd, [((), "Ok")]), lambda a, l, x: x == nx.nid, 600)
        outer = {x.nid for _, x in levels[:i]} & set(got)
        R.ob("every", "%s: begins level %d" % (key, i + 1), not ok_exit(f, got) and not outer, "`%s` can skip the entries of a directory it listed" % short(b), "%s:%d" % (b.file, rd.line))
        # files the store keeps beside are no directories
        if i:
            C = conds(f)
            isdir = any(says(f, K, a, levels[i - 1][1].nid, "is_dir", True) or says(f, K, a, levels[i - 1][1].nid, "is_file", False) for a in C.facts(rd.nid))
            R.ob("beside", "%s: level %d" % (key, i + 1), isdir, "`%s` lists an entry without knowing that it is a directory" % short(b), "%s:%d" % (b.file, rd.line))
    got = flow.explore_from_start(f, lambda a, l, x: x == levels[0][1].nid)
    R.ob("every", key + ": no shortcut", not ok_exit(f, got), "`%s` can succeed without having gone through the entries" % short(b), w)
    # names of other files of the store are not taken for this one's
    for o in sorted(other, key=str):
        if len(o[1]) != depth or o[1][-1] == seg or not o[1][-1]:
            continue
        on, osuf = pattern(o[1][-1])
        ok = False
        for c in keeps:
            for a in conds(f).facts(c.nid):
                x = tail(f, K, a, last, True)
                if x is not None and x and not osuf.endswith(x):
                    ok = True
        if on is not None and not ok:
            for c in keeps:
                for a in conds(f).facts(c.nid):
                    l = length(f, K, a, last, True)
                    if l is not None and l != on:
                        ok = True
        R.ob("beside", "%s: %s" % (key, show(o)), ok, "`%s` takes %s, which is put beside %s, for one" % (short(b), show(o), show(place)), w)
    cutting(R, op, keeps, key)


def iter_of(f, c):
    """nodes of calls the receiver of an iteration comes from"""
    out, seen, work = set(), set(), list(plain(f.origins(c.args[0])))
    while work:
        t = work.pop()
        if t in seen or len(seen) > 60:
            continue
        seen.add(t)
        if t[0] == "call":
            out.add(t[1])
            x = f.callof(t)
            if x.args and not is_fs(x, "read_dir"):
                work += list(plain(f.origins(x.args[0])))
        elif t[0] == "mut":
            work += [u for u in plain(f.origins(("p", t[1], t[2] if len(t) > 2 and isinstance(t[2], tuple) else (), False)))] if isinstance(t[1], int) and t[1] in f.vtype else []
    return out


def kept(f, c):
    """the collection an element is put into is what the function gives out"""
    mine = {(t[1]) for t in f.origins(c.args[0]) if t[0] == "call"}
    out = set()
    for t in f.leaves(("p", f.retvar, (), False), depth=14):
        if t[0] == "call":
            out.add(t[1])
    f_push = f.pushes if hasattr(f, "pushes") else False
    return bool(mine & out) or f_push


def subject(f, K, term):
    """(method, [argument values]) of the call a condition is about"""
    if term[0] != "call":
        return None, []
    c = f.callof(term)
    if c is None or c.fn is None:
        return None, []
    return c.name, [K.s.arg(c, i) for i in range(len(c.args))]


def of_type(f, K, v, e):
    """a file type or metadata of the entry"""
    if v[0] == "f" and v[1] in ("file_type", ".!", "metadata", "is_ok"):
        return of_type(f, K, v[2], e) if v[1] == ".!" else K.entry(v[2]) == e
    if v[0] == "call":
        c = f.callof(("call", v[1], ()))
        if c is not None and c.name in ("file_type", "metadata", "symlink_metadata") and c.args:
            x = K.s.arg(c, 0)
            return K.entry(x) == e or of_type(f, K, x, e) or x[:2] == ("f", "path") and K.entry(x[2]) == e
    return False


def says(f, K, a, e, what, truth):
    if a[0] != "bool" or a[2] != truth:
        return False
    nm, args = subject(f, K, a[1])
    if nm == what and args and of_type(f, K, args[0], e):
        return True
    return nm == what and bool(args) and args[0][:2] == ("f", "path") and K.entry(args[0][2]) == e


def tail(f, K, a, e, truth):
    """the ending an atom says the entry's name has (or has not)"""
    if a[0] == "bool" and a[2] == truth:
        nm, args = subject(f, K, a[1])
        if nm == "ends_with" and len(args) == 2 and K.text(args[0]) == [("entry", e)]:
            x = K.text(args[1])
            return x[0][1] if x is not None and len(x) == 1 and x[0][0] == "lit" else None
    if a[0] == "variant" and a[1][0] == "call":
        nm, args = subject(f, K, a[1])
        if nm == "strip_suffix" and len(args) == 2 and K.text(args[0]) == [("entry", e)] and tuple(a[2]) == (("Some",) if truth else ("None",)):
            x = K.text(args[1])
            return x[0][1] if x is not None and len(x) == 1 and x[0][0] == "lit" else None
    return None


def side(f, K, o):
    """('len', entry) or a number"""
    s = set()
    for t in plain(f.origins(o)) if o[0] == "p" else []:
        if t[0] == "call":
            nm, args = subject(f, K, t)
            x = K.text(args[0]) if nm == "len" and args else None
            s.add(("len", x[0][1]) if x is not None and len(x) == 1 and x[0][0] == "entry" else None)
        elif t[0] == "const":
            s.add(K.num(("k", t[2])))
        else:
            s.add(None)
    if o[0] != "p":
        k = o[1]
        s.add(k.get("int") if k.get("int") is not None else K.num(("k", k.get("v", k.get("def")))))
    return s.pop() if len(s) == 1 else None


def length(f, K, a, e, truth):
    if a[0] == "eq" and a[3] == truth:
        x, y = side(f, K, a[1]), side(f, K, a[2])
        if isinstance(x, tuple) and x[1] == e and isinstance(y, int):
            return y
        if isinstance(y, tuple) and y[1] == e and isinstance(x, int):
            return x
    if a[0] == "int" and a[3] == truth:
        x = side(f, K, a[1])
        if isinstance(x, tuple) and x[1] == e:
            return a[2]
    return None


def excuses(f, K, e, seg, kind):
    """edges only an entry that cannot be this segment takes"""
    n, suf = pattern(seg)

    def pred(a):
        if says(f, K, a, e, "is_dir", kind != "dir") or says(f, K, a, e, "is_file", kind == "dir"):
            return True
        if says(f, K, a, e, "is_symlink", True):
            return True
        t = tail(f, K, a, e, False)
        if t is not None and suf.endswith(t):
            return True
        l = length(f, K, a, e, False)
        if l is not None and n is not None and l == n:
            return True
        l = length(f, K, a, e, True)
        if l is not None and n is not None and l != n:
            return True
        if a[0] == "ord" and n is not None:
            x, y = side(f, K, a[2]), side(f, K, a[3])
            if isinstance(x, tuple) and x[1] == e and isinstance(y, int):
                return not (n < y if a[1] == "Lt" else n <= y)
            if isinstance(y, tuple) and y[1] == e and isinstance(x, int):
                return not (x < n if a[1] == "Lt" else x <= n)
        if a[0] == "variant" and a[1][0] == "call" and a[3 if len(a) > 3 else 2]:
            nm, args = subject(f, K, a[1])
            bad = {"to_str": ("None",), "into_string": ("Err",), "string_to_name": ("Err",), "extension": ("None",), "file_stem": ("None",), "bytes_to_name": ("Err",)}.get(nm)
            if nm == "file_name" and tuple(a[2]) in (("Err",), ("None",)) and args:
                # the name as text (turning a name into text is looked through)
                return K.text(("f", "file_name", args[0])) == [("entry", e)]
            if bad is not None and tuple(a[2]) == bad and args:
                x = args[0]
                t = K.text(x)
                if t is not None and len(t) == 1 and len(t[0]) > 1 and t[0][0] in ("entry", "less", "stem") and t[0][1] == e:
                    return True
        if a[0] == "bool" and a[2] is False:
            nm, args = subject(f, K, a[1])
            if nm in ("is_ok", "is_some") and args:
                x = args[0]
                if x[0] == "f" and x[1] in ("to_str", "into_string", "string_to_name", "strip_suffix"):
                    t = K.text(x[2])
                    return t is not None and len(t) == 1 and t[0][0] in ("entry", "less", "stem") and t[0][1] == e
        return False
    return flow.edges_where(f, pred)


def elem(R, prog, op, c, e, seg, suf, what, key):
    """what is kept is the name of the thing the entry holds"""
    f, K = op.f, op.K
    n = len(suf.encode())

    def ownname(t):
        """the text names the thing: the entry's name without the fixed ending"""
        if t is None or len(t) != 1 or t[0][0] not in ("entry", "less", "stem") or t[0][1] != e:
            return False
        if t[0][0] == "entry":
            return n == 0
        if t[0][0] == "less":
            return t[0][2] == n
        return n > 0 and suf.rfind(".") == 0
    v = K.s.arg(c, 1)
    labels = [t for t in plain(f.origins(c.args[-1])) if t[0] == "agg" and f.stmt(t)[1][0] == "adt" and f.stmt(t)[1][1].split("::")[-1] == "Label"]
    if labels:
        ok = True
        for t in labels:
            rv = f.stmt(t)
            i = list(rv[3]).index("name")
            # names come from the entry's path
            x = K.text(K.s.at(t[1], rv[2][i]))
            ok &= ownname(x)
        R.ob("keep", key + ": label name", ok, "the label `%s` keeps does not have the name the entry stands for" % short(op.b), "%s:%d" % (op.b.file, c.line))
        ps = [p for k, cc, p in op.fx if k in ("open", "read") and op.f.always_before({cc.nid}, {c.nid})]
        R.ob("keep", key + ": label content", bool(ps) and set(ps) == {(("entry", e), ())}, "`%s` reads the label from another file than the entry" % short(op.b), "%s:%d" % (op.b.file, c.line))
        if c.name == "insert":
            names = set()
            for t in labels:
                rv = f.stmt(t)
                names |= plain(f.origins(rv[2][list(rv[3]).index("name")]))
            R.ob("keep", key + ": key", ownname(K.text(v)) or plain(f.origins(c.args[1])) == names, "`%s` keeps a label under another name than its own" % short(op.b), "%s:%d" % (op.b.file, c.line))
        return
    x = v
    while x[0] == "f" and x[1] in (".!",):
        x = x[2]
    ok = x[0] == "f" and x[1] in ("string_to_name", "bytes_to_name") and ownname(K.text(x[2]))
    R.ob("keep", key + ": name", ok, "what `%s` keeps is not the name of the layer the entry holds" % short(op.b), "%s:%d" % (op.b.file, c.line))


def cutting(R, op, keeps, key):
    """nothing is taken out of the collection again"""
    f = op.f
    mine = {t[1] for c in keeps for t in f.origins(c.args[0]) if t[0] == "call"}
    bad = []
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.fn is not None and c.name in CUTTING and c.args:
            if mine & {t[1] for t in f.leaves(c.args[0], depth=8) if t[0] == "call"}:
                bad.append(c)
    R.ob("keep", key + ": all", not bad, "`%s` takes entries out of the list again (`%s`)" % (short(op.b), bad[0].name if bad else ""), "%s:%d" % (op.b.file, bad[0].line if bad else op.b.line))
    for c in f.callsites:
        if c.nid in f.reach and not c.inlined and c.name == "dedup" and mine & {t[1] for t in f.leaves(c.args[0], depth=8) if t[0] == "call"}:
            pass


def same(R, op, kinds, want, msg, key, some=True):
    """the places of these kinds are exactly the wanted one"""
    got = op.places(*kinds)
    ok = got <= {want} and (bool(got) or not some)
    R.ob("place", key, ok, "%s: %s, but it is put at %s" % (msg, ", ".join(sorted(show(p) for p in got)) or "nowhere", show(want)), op.where)


def final(op):
    """the names that hold something when the operation is through"""
    away = op.places("from")
    fx = flow.filefx(op.f)
    out = set()
    for c, p in op.calls("to"):
        out.add(p)
    for c, p in op.calls("open"):
        o = fx.opens.get(c.nid)
        if o is not None and o.writable and p not in away:
            out.add(p)
    for c, p in op.calls("mkdir"):
        out.add(p)
    return out


def parents(p):
    return {(p[0], p[1][:i]) for i in range(len(p[1]))}


def p13(R, prog):
    R.rule("place", "an operation looks for a layer, a file of a layer or a label at the place where its creation puts it")
    R.rule("own", "different layers, files and labels have different places")
    R.rule("reach", "a listing goes through the directories in which the things are put")
    R.rule("every", "every entry that can be one of the things is kept")
    R.rule("keep", "what is kept is the name (and content) of the thing the entry holds, and nothing is taken out again")
    R.rule("beside", "other files the store puts in the same directories are not taken for one of the things")
    R.rule("held", "a listing of a store in memory gives all it holds, and each operation uses the name it was given as the key")
    R.rule("passed", "a listing passed on is not shortened")
    dirs(R, prog)
    archive(R, prog)
    labels(R, prog)
    memory(R, prog)
    codec.names(R, prog)
    overlays(R, prog)
    R.floor("place", 15)
    R.floor("every", 15)
    R.floor("keep", 8)
    R.floor("reach", 10)
    R.floor("held", 12)
    R.floor("beside", 3)


def op(R, prog, S, tr, nm):
    return Op(R, prog, prog.impl_fn(S, tr, nm))


def dirs(R, prog):
    S, T = "DirectoryLayerStore", "PersistentLayerStore"
    mk = op(R, prog, S, T, "create_named_directory")
    made = mk.places("mkdir")
    made = {p for p in made if not any(q is not None and p in parents(q) for q in made if q)} if None not in made else made
    D = next(iter(made)) if len(made) == 1 else None
    ok = D is not None and D[0] == ("in", 1, ("path",)) and bool(D[1]) and D[1][-1] == (("name", "*"),)
    R.ob("own", "layer directory", ok, "the directory of a layer is not named after the layer", mk.where)
    if not ok:
        return
    files = (D[0], D[1] + ((("text", (3, ())),),))
    same(R, op(R, prog, S, T, "directory_exists"), ("probe", "open"), D, "`directory_exists` looks for a layer", "directory_exists")
    same(R, op(R, prog, S, T, "get_file"), ("handle",), files, "`get_file` gives a file", "get_file")
    same(R, op(R, prog, S, T, "file_exists"), ("probe", "open"), files, "`file_exists` looks for a file", "file_exists")
    fin = op(R, prog, S, T, "finalize")
    bad = fin.places("open", "probe") - parents(D) - {D}
    R.ob("place", "finalize", not bad, "`finalize` deals with %s, but a layer is put at %s" % (", ".join(map(show, bad)), show(D)), fin.where)
    ls = op(R, prog, S, T, "directories")
    listing(R, prog, ls, D, "dir", set(), "layers", "directories")


READERS = (("get_layer_bytes", "ArchiveBackend"), ("get_layer_structure_bytes", "ArchiveBackend"), ("read_layer_structure_bytes_from", "ArchiveBackend"), ("layer_exists", "ArchiveMetadataBackend"),
           ("layer_size", "ArchiveMetadataBackend"), ("layer_file_exists", "ArchiveMetadataBackend"), ("get_layer_structure_size", "ArchiveMetadataBackend"), ("get_parent", "ArchiveMetadataBackend"))


def archive(R, prog):
    S = "DirectoryArchiveBackend"
    st = op(R, prog, S, "ArchiveBackend", "store_layer_file")
    fin = {p for p in final(st) if p is None or p[1] and any(x[0] == "name" for x in p[1][-1])}
    A = next(iter(fin)) if len(fin) == 1 else None
    ok = A is not None and A[0] == ("in", 1, ("path",)) and bool(A[1]) and [x[0] for x in A[1][-1]] == ["name", "lit"]
    R.ob("own", "archive", ok, "the archive of a layer is not named after the layer", st.where)
    sr = op(R, prog, S, "ArchiveMetadataBackend", "set_rollup")
    fr = {p for p in final(sr) if p is None or p[1] and any(x[0] == "name" for x in p[1][-1])} - {A}
    B = next(iter(fr)) if len(fr) == 1 else None
    okb = B is not None and B[0] == ("in", 1, ("path",)) and bool(B[1]) and [x[0] for x in B[1][-1]] == ["name", "lit"]
    R.ob("own", "rollup", okb, "the rollup of a layer is not in a file named after the layer", sr.where)
    if not ok or not okb:
        return
    R.ob("own", "archive and rollup", A != B, "the rollup of a layer is put where its archive is", sr.where)
    for o, nm in ((st, "store_layer_file"), (sr, "set_rollup")):
        for p in sorted(o.places("from") - {None}, key=str):
            R.ob("own", nm + ": put aside as " + show(p), bool(p[1]) and any(x[0] == "name" for x in p[1][-1]),
                 "`%s` writes %s before it is renamed, which is not named after the layer: what two layers write at a time gets mixed up" % (nm, show(p)), o.where)
    both = (st.places("from") & sr.places("from")) - {None}
    R.ob("own", "put aside apart", not both, "an archive and a rollup are both written to %s before they are renamed" % ", ".join(sorted(map(show, both))), sr.where)
    tmp = (st.places("open", "from", "to") | sr.places("open", "from", "to")) - {A, B, None}
    tmp = {p for p in tmp if p[1] and any(x[0] == "name" for x in p[1][-1])}
    for p in sorted(tmp, key=str):
        R.ob("own", "aside: " + show(p), p != A and p != B, "%s is written over" % show(p), st.where)
    R.ob("place", "store_layer_file: directory", A[1][:-1] == () or strip_last(A) in st.places("mkdir"), "`store_layer_file` does not make the directory the archive is put in", st.where)
    for nm, tr in READERS:
        o = op(R, prog, S, tr, nm)
        same(R, o, ("probe", "open", "read"), A, "`%s` looks for a layer" % nm, nm)
    g = op(R, prog, S, "ArchiveMetadataBackend", "get_rollup")
    got = g.places("open", "read", "probe")
    R.ob("place", "get_rollup", B in got and got <= {A, B}, "`get_rollup` looks for a rollup at %s, but it is put at %s" % (", ".join(sorted(map(show, got))), show(B)), g.where)
    ls = op(R, prog, S, "ArchiveMetadataBackend", "get_layer_names")
    listing(R, prog, ls, A, "file", {B} | tmp, "layers", "get_layer_names")


def labels(R, prog):
    tmp, at = set(), {}
    T = "LabelStore"
    for S in ("DirectoryLabelStore", "CachedDirectoryLabelStore"):
        mk = op(R, prog, S, T, "create_label")
        se = op(R, prog, S, T, "set_label_option")
        fin = {p for p in final(mk) if p is None or p[1]}
        L = next(iter(fin)) if len(fin) == 1 else None
        ok = L is not None and L[0] == ("in", 1, ("path",)) and len(L[1]) == 1 and [x[0] for x in L[1][-1]] == ["text", "lit"] and L[1][-1][0][1] == "*"
        R.ob("own", S + ": label", ok, "the file of a label is not named after the label", mk.where)
        if not ok:
            return
        at[S] = L
        tmp |= se.places("open", "from", "to") | mk.places("open", "from", "to")
        R.ob("place", S + ": set_label_option", {p for p in final(se) if p is None or p[1]} == {L}, "`set_label_option` writes %s, but a label is put at %s" % (", ".join(map(show, final(se))), show(L)), se.where)
        same(R, mk, ("probe",), L, "`create_label` looks for a label", S + ": create_label", some=False)
        same(R, op(R, prog, S, T, "delete_label"), ("remove",), L, "`delete_label` removes a label", S + ": delete_label")
        if S == "DirectoryLabelStore":
            g = op(R, prog, S, T, "get_label")
            same(R, g, ("open", "read", "probe"), L, "`get_label` looks for a label", S + ": get_label")
            named(R, g, S)
    R.ob("place", "labels: one directory", len(set(at.values())) == 1, "the label stores put a label in different places: %s" % ", ".join(sorted(show(p) for p in at.values())))
    tmp = {p for p in tmp if p is not None and p[1] and p not in at.values()}
    L = at["DirectoryLabelStore"]
    ls = op(R, prog, "DirectoryLabelStore", T, "labels")
    listing(R, prog, ls, L, "file", tmp, "labels", "labels")
    b = prog.inherent("CachedDirectoryLabelStore", "open")
    o = Op(R, prog, b)
    listing(R, prog, o, (("in", 1, ()), L[1]), "file", tmp, "labels", "CachedDirectoryLabelStore::open")
    # the map opened is the map used
    f = o.f
    ok = okp = True
    n = 0
    for t in f.res(f.retvar, ("!",)):
        if t[0] != "agg":
            continue
        n += 1
        rv = f.stmt(t)
        for x, a in zip(rv[3], rv[2]):
            if x == "path":
                okp &= o.K.paths(o.K.s.at(t[1], a)) == (("in", 1, ()), ())
    R.ob("place", "CachedDirectoryLabelStore: path", n > 0 and okp, "the opened store works on another directory than the one whose labels it read", o.where)


def named(R, g, S):
    """the label given out has the name asked for"""
    f = g.f
    ok, n = True, 0
    for t in f.res(f.retvar, ("!", "!")):
        if t[0] == "agg" and f.stmt(t)[1][1].split("::")[-1] == "Label":
            rv = f.stmt(t)
            n += 1
            x = g.K.text(g.K.s.at(t[1], rv[2][list(rv[3]).index("name")]))
            ok &= x == [("text", (2, ()))]
    R.ob("keep", S + ": get_label", n > 0 and ok, "the label given out does not have the name asked for", g.where)


# ---- stores in memory ------------------------------------------------------------
KEYED = ("get", "get_mut", "contains_key", "insert", "remove", "entry", "remove_entry", "get_key_value", "get_or_insert_with")


def maps(f):
    from rules.labels import is_map
    return [c for c in f.callsites if c.nid in f.reach and not c.inlined and is_map(c)]


def all_of(R, o, field, what, elem):
    """the result is all keys (or values) of a map of the store"""
    f = o.f
    src = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in (elem, "iter", "into_" + elem, "clone") and
           any(t[0] == "param" and t[1] == 1 and field in t[2] for t in leafset(f, c.args[0] if c.args else None))]
    src = [c for c in src if c.name != "clone" or type_head(f.vtype[c.dest[0]]).endswith("Map")]
    R.ob("held", o.b.impl_self.split("<")[0] + ": " + o.b.name, bool(src), "`%s` does not list what the store holds" % short(o.b), o.where)
    bad = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.fn is not None and c.name in CUTTING and c.args and
           any(t[0] == "call" and t[1] in {s.nid for s in src} or t[0] == "param" and field in t[2] for t in leafset(f, c.args[0]))]
    R.ob("held", o.b.impl_self.split("<")[0] + ": " + o.b.name + ": all", not bad, "`%s` leaves out some of what the store holds (`%s`)" % (short(o.b), bad[0].name if bad else ""), o.where)
    loops(R, o, src, o.b.impl_self.split("<")[0] + ": " + o.b.name, field)
    got = flow.explore_from_start(f, flow.avoid_cut({c.nid for c in src}))
    R.ob("held", o.b.impl_self.split("<")[0] + ": " + o.b.name + ": always", not ok_exit(f, got), "`%s` can succeed without having listed what the store holds" % short(o.b), o.where)


def leafset(f, op):
    return f.leaves(op, depth=10) if op is not None else set()


def loops(R, o, src, key, field=None):
    """loops over the source put every element into the result"""
    f = o.f
    K = Canon(f)
    for nx in f.callsites:
        if nx.nid in f.reach and not nx.inlined and nx.name == "next" and any(t[0] == "call" and t[1] in {s.nid for s in src} or t[0] == "param" and field in t[2] for t in leafset(f, nx.args[0])):
            puts = {c.nid for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("push", "insert", "push_back") and len(c.args) > 1 and
                    (mentions(K.s.arg(c, 1), nx.nid) or any(t[0] == "call" and t[1] == nx.nid for t in leafset(f, c.args[1])))}
            st = some_states(f, nx)
            hit = walk(f, st, puts, (), {nx.nid})
            got = flow.explore(f, [x for x in st if x[0] not in puts], lambda a, l, x: x in puts or x == nx.nid, 600)
            R.ob("held", key + ": each", bool(puts) and not hit and not ok_exit(f, got), "`%s` can leave out an element" % short(o.b), "%s:%d" % (o.b.file, nx.line))
            got = flow.explore(f, st, lambda a, l, x: x == nx.nid, 600)
            R.ob("held", key + ": goes on", not ok_exit(f, got), "`%s` can stop before it has seen all elements" % short(o.b), "%s:%d" % (o.b.file, nx.line))


def keys(R, o, allowed, inner=()):
    """maps are asked under the names given"""
    f, K = o.f, o.K
    n = 0
    for c in maps(f):
        if c.name not in KEYED or len(c.args) < 2 and c.name != "entry":
            continue
        v = K.s.arg(c, 1)
        k = None
        t = K.text(v)
        if v[0] == "in":
            k = v[1:]
        elif t is not None and len(t) == 1 and t[0][0] in ("text", "name"):
            k = t[0][1]
        else:
            ts = asked(f, c.args[1]) | ins(v)
            k = next(iter(ts)) if len(ts) == 1 else None
        ok = k in allowed or k in inner
        n += 1
        R.ob("held", "%s: key of %s" % (short(o.b), c.name), ok, "`%s` uses another key than the name it was given" % short(o.b), "%s:%d" % (o.b.file, c.line))
    return n


def asked(f, op, depth=3):
    """the parameters a key is, or is looked up by in a table"""
    out = set()
    for x in f.leaves(op, depth=8):
        if x[0] == "param":
            out.add((x[1], x[2]))
        elif x[0] == "call" and depth:
            c = f.callof(x)
            if c is not None and c.name in ("get", "index") and len(c.args) > 1:
                out |= asked(f, c.args[1], depth - 1)
    return out


def ins(v):
    if not isinstance(v, tuple):
        return set()
    if v[:1] == ("in",):
        return {v[1:]}
    return set().union(*[ins(x) for x in v]) if v else set()


def mentions(v, nid):
    if not isinstance(v, tuple):
        return False
    if v[:2] == ("call", nid):
        return True
    return any(mentions(x, nid) for x in v)


def memory(R, prog):
    S, T = "MemoryLayerStore", "PersistentLayerStore"
    all_of(R, op(R, prog, S, T, "directories"), "layers", "layers", "keys")
    for nm in ("create_named_directory", "directory_exists"):
        keys(R, op(R, prog, S, T, nm), ((2, ()),))
    for nm in ("get_file", "file_exists"):
        keys(R, op(R, prog, S, T, nm), ((2, ()),), ((3, ()),))
    put(R, op(R, prog, S, T, "create_named_directory"), "layers")
    put(R, op(R, prog, S, T, "get_file"), "layers", fresh=True)
    for S in ("MemoryLabelStore", "CachedDirectoryLabelStore"):
        all_of(R, op(R, prog, S, "LabelStore", "labels"), "labels", "labels", "values")
        for nm in ("create_label", "get_label", "set_label_option", "delete_label"):
            keys(R, op(R, prog, S, "LabelStore", nm), ((2, ()), (2, ("name",))))
        put(R, op(R, prog, S, "LabelStore", "create_label"), "labels")


def put(R, o, field, fresh=False):
    """success means the thing is in the map"""
    f = o.f
    ins = {c.nid for c in maps(f) if c.name in ("insert", "or_insert_with", "or_insert", "or_default", "insert_entry", "entry")}
    if fresh:
        # found, or put in
        ok = edges_found(f)
        got = flow.explore_from_start(f, lambda a, l, x: x in ins or (a, l) in ok)
    else:
        got = flow.explore_from_start(f, flow.avoid_cut(ins))
    R.ob("held", short(o.b) + ": put", bool(ins) and not ok_exit(f, got), "`%s` can succeed without having put it where listings look" % short(o.b), o.where)


def edges_found(f):
    """edges taken where the file asked for is there (the inner map)"""
    def pred(a):
        if a[0] == "variant" and a[1][0] == "call" and tuple(a[2]) == ("Some",):
            c = f.callof(a[1])
            return c is not None and c.name in ("get", "get_mut") and any(t[0] == "param" and t[1] == 3 for t in f.leaves(c.args[1], depth=6))
        return False
    return flow.edges_where(f, pred)


def overlays(R, prog):
    """the archive store lists what is stored and what is under construction"""
    S, T = "ArchiveLayerStore", "PersistentLayerStore"
    o = op(R, prog, S, T, "directories")
    f = o.f
    st = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "get_layer_names" and any(t == ("param", 1, ("metadata_backend",)) for t in plain(f.origins(c.args[0])))]
    R.ob("passed", "ArchiveLayerStore: stored", bool(st), "`directories` does not ask for the layers stored", o.where)
    all_of(R, o, "construction", "layers", "keys")
    if st:
        res = {t[1] for t in f.leaves(("p", f.retvar, (), False), depth=14) if t[0] == "call"}
        R.ob("passed", "ArchiveLayerStore: given out", st[0].nid in res, "`directories` does not give out the layers stored", o.where)
        got = flow.explore_from_start(f, flow.avoid_cut({c.nid for c in st}))
        R.ob("passed", "ArchiveLayerStore: always", not ok_exit(f, got), "`directories` can succeed without having asked for the layers stored", o.where)
        bad = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.fn is not None and c.name in CUTTING and c.args and any(t[0] == "call" and t[1] in {s.nid for s in st} for t in f.leaves(c.args[0], depth=10))]
        R.ob("passed", "ArchiveLayerStore: whole", not bad, "`directories` leaves out layers (`%s`)" % (bad[0].name if bad else ""), o.where)
    for nm in ("create_named_directory", "directory_exists", "get_file", "file_exists", "finalize"):
        x = op(R, prog, S, T, nm)
        keys(R, x, ((2, ()),), ((3, ()),))
        for c in x.f.callsites:
            if c.nid in x.f.reach and not c.inlined and c.fn is not None and (c.trait or "").split("::")[-1] in ("ArchiveBackend", "ArchiveMetadataBackend") and len(c.args) > 1:
                R.ob("place", "ArchiveLayerStore::%s: %s" % (nm, c.name), plain(x.f.origins(c.args[1])) == {("param", 2, ())}, "`%s` asks the backend for another layer" % nm, "%s:%d" % (x.b.file, c.line))
    de = op(R, prog, S, T, "directory_exists")
    exists(R, de)
    # what is under construction goes only once it is stored
    put(R, op(R, prog, S, T, "create_named_directory"), "construction")
    # listings passed on
    for S2, T2, nm, inner in (("LruArchiveBackend", "ArchiveMetadataBackend", "get_layer_names", "get_layer_names"), ("CachedLayerStore", "LayerStore", "layers", "layers"), ("T", "LayerStore", "layers", "directories")):
        passed(R, prog, prog.impl_fn(S2, T2, nm), inner)
    passed(R, prog, prog.inherent("Store", "labels"), "labels")


def exists(R, o):
    f = o.f
    C = conds(f)
    here = [c for c in maps(f) if c.name in ("contains_key", "get")]
    there = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "layer_exists"]
    R.ob("passed", "ArchiveLayerStore: exists", bool(here) and bool(there), "`directory_exists` does not look for the layer both among those stored and among those under construction", o.where)

    def inside(a):
        return a[0] == "bool" and a[2] and a[1][0] == "call" and f.callof(a[1]).nid in {c.nid for c in here} or a[0] == "variant" and a[1][0] == "call" and f.callof(a[1]).nid in {c.nid for c in here} and tuple(a[2]) == ("Some",)
    ed = flow.edges_where(f, inside)
    got = flow.explore_from_start(f, lambda a, l, x: (a, l) in ed or x in {c.nid for c in there})
    R.ob("passed", "ArchiveLayerStore: exists: both", not ok_exit(f, got), "`directory_exists` can answer without having looked among the layers stored", o.where)
    got = flow.explore_from_start(f, lambda a, l, x: x in {c.nid for c in here} | {c.nid for c in there})
    R.ob("passed", "ArchiveLayerStore: exists: asked", not ok_exit(f, got), "`directory_exists` can answer without having looked", o.where)
    # the answer: true for one under construction, the backend's otherwise
    ok = True
    for t in f.res(f.retvar, ("!",)):
        if t[0] == "const":
            ok &= str(t[2]).lower() in ("true", "1")
        elif t[0] == "call":
            ok &= f.callof(t).nid in {c.nid for c in there} | {c.nid for c in here}
        elif t[0] == "expr":
            pass
        elif t[0] not in ("residual",):
            ok = False
    R.ob("passed", "ArchiveLayerStore: exists: answer", ok, "`directory_exists` does not answer with what it found", o.where)


def passed(R, prog, b, inner):
    f = flat(prog, b, opaque={x.id for x in prog.bodies.values() if x.name == inner and x.id != b.id})
    R.saw(f)
    w = "%s:%d" % (b.file, b.line)
    cs = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == inner and c.args]
    res = {t[1] for t in f.leaves(("p", f.retvar, (), False), depth=14) if t[0] == "call"}
    R.ob("passed", short(b), bool(cs) and all(c.nid in res for c in cs), "`%s` does not pass on what `%s` lists" % (short(b), inner), w)
    bad = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.fn is not None and c.name in CUTTING]
    R.ob("passed", short(b) + ": whole", not bad, "`%s` leaves out some of what is listed (`%s`)" % (short(b), bad[0].name if bad else ""), w)
    got = flow.explore_from_start(f, flow.avoid_cut({c.nid for c in cs}))
    R.ob("passed", short(b) + ": always", not ok_exit(f, got), "`%s` can succeed without having listed anything" % short(b), w)
    for nx in f.callsites:
        if nx.nid in f.reach and not nx.inlined and nx.name == "next" and {c.nid for c in cs} & {t[1] for t in leafset(f, nx.args[0]) if t[0] == "call"}:
            loops(R, type("O", (), {"f": f, "b": b})(), cs, short(b))
