"""Effects (file and map operations) in a flattened function, and what happens
when one of them fails."""
from collections import defaultdict
from mir import Missing, type_head
import qlib

STATE_CAP = 64


def await_nodes(f, c):
    """await points that run the future returned by call c"""
    if not hasattr(f, "_awaits"):
        m = defaultdict(list)
        for x in f.reach:
            n = f.nodes[x]
            if n.kind == "await" or (n.kind == "enter" and n.term and n.term[0] == "await"):
                if n.term is None or n.term[0] != "await":
                    continue
                for t in f.origins(f.opnd(n.ctx, n.term[1])):
                    if t[0] == "call":
                        m[t[1]].append(x)
        f._awaits = m
    return f._awaits.get(c.nid, [])


def is_future(f, c):
    ty = f.vtype[c.dest[0]]
    if c.dest[1]:
        return bool(await_nodes(f, c))
    return bool(await_nodes(f, c)) or "Future<" in ty or ty.startswith("impl ") or "tokio::io::util" in ty or "task::JoinHandle<" in ty


def exec_nodes(f, c):
    """nodes at which the effect of a call takes place: the call itself, or the
    points that await the future it made (none: the future is dropped)"""
    aw = await_nodes(f, c)
    if aw:
        return aw
    if is_future(f, c):
        return []
    return [c.nid]


def explore(f, starts, cut=None, cap=STATE_CAP):
    """forward exploration from (node, state) pairs with the variant tracking
    of the flattened graph; returns {node: set(states)}"""
    seen = defaultdict(set)
    work = []
    for nid, st in starts:
        if st not in seen[nid]:
            seen[nid].add(st)
            work.append((nid, st))
    while work:
        nid, st = work.pop()
        for s, lab, st2 in f._step(nid, st):
            if cut is not None and cut(nid, lab, s):
                continue
            if st2 in seen[s]:
                continue
            if len(seen[s]) >= cap:
                st2 = frozenset()
                if st2 in seen[s]:
                    continue
            seen[s].add(st2)
            work.append((s, st2))
    return seen


def nested(ty, last, pre=()):
    """facts saying that a value of this type is (wraps) the given Result variant"""
    h = type_head(ty)
    if ty.startswith("&"):
        return None
    a = qlib.split_args(ty)
    if h == "Result" and a:
        return [(pre, last)]
    if h == "Poll" and a:
        r = nested(a[0], last, pre + ("!",))
        return None if r is None else [(pre, "Ready")] + r
    if h == "Option" and a:
        r = nested(a[0], last, pre + ("!",))
        return None if r is None else [(pre, "Some")] + r
    return None


def result_points(f, c):
    """[(node, place, type)]: where the result of call c (awaited or not) appears"""
    aw = await_nodes(f, c)
    if aw:
        out = []
        for a in aw:
            n = f.nodes[a]
            d = f.pl(n.ctx, n.term[2])
            out.append((a, d, f.vtype[d[0]] if not d[1] else "?"))
        return out
    return [(c.nid, c.dest, f.vtype[c.dest[0]] if not c.dest[1] else "?")]


def assume(f, nid, place, facts):
    """states right after nid, given facts [(path, value)] about a place it has set"""
    out = []
    for x in f.xof.get(nid, []):
        st = f.xkey[x][1]
        for s, lab, st2 in f._step(nid, st):
            if lab == "closure":
                continue
            d = dict(st2)
            for pth, v in facts:
                d[(place[0], place[1] + tuple(pth))] = v
            out.append((s, frozenset(d.items())))
    return out


def fail_starts(f, c, variant="Err"):
    """states right after call c (or its await) has produced an error"""
    out = []
    for nid, d, ty in result_points(f, c):
        fs = nested(ty, variant)
        if fs is None:
            h = type_head(ty)
            fs = [((), "Ready"), (("!",), variant)] if h == "Poll" else [((), variant)]
        out.extend(assume(f, nid, d, fs))
    return out


def result_starts(f, c, facts):
    """states right after call c has produced a result with these facts
    (paths relative to the result; the Ready of an await is added)"""
    out = []
    for nid, d, ty in result_points(f, c):
        if f.nodes[nid].kind in ("await",) or nid != c.nid:
            fs = [((), "Ready")] + [(("!",) + tuple(p), v) for p, v in facts]
        else:
            fs = facts
        out.extend(assume(f, nid, d, fs))
    return out


def after_failure(f, c, cut=None):
    return explore(f, fail_starts(f, c), cut)


def exit_variants(f, seen, ty=None):
    """what the entry returns in the explored states: set of variant names, or
    None where it is not known (Poll and stream items are looked through)"""
    return place_variants(f, seen, f.exit, f.retvar)


def place_variants(f, seen, nid, var):
    out = set()
    for st in seen.get(nid, ()):
        d = dict(st)
        p = ()
        v = d.get((var, p))
        if v == "Ready":
            p += ("!",)
            v = d.get((var, p))
            if v == "Some" and (var, p + ("!",)) in d:
                v = d[(var, p + ("!",))]
        elif v == "Some" and d.get((var, ("!",))) in ("Ok", "Err"):
            v = d[(var, ("!",))]
        out.add(v)
    return out


def notfound_cut(f):
    """cuts edges taken only when the error is precisely 'not found'"""
    C = qlib.conds(f)
    memo = {}

    def cut(nid, lab, s):
        n = f.nodes[nid]
        if n.kind != "switch":
            return False
        k = (nid, lab)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = False
        for a in C.edge(nid, lab, 3):
            if a[0] == "variant" and a[1][0] == "call" and a[2] == ("NotFound",) and f.callof(a[1]).name == "kind":
                r = True
            elif a[0] == "eq" and a[3]:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    tx, ty = f.origins(x), f.origins(y)
                    if tx and all(t[0] == "call" and f.callof(t).name == "kind" for t in tx) and ty and all(
                            qlib.variant_of(f, t) == "NotFound" or (t[0] == "const" and "NotFound" in str(t)) for t in ty):
                        r = True
        memo[k] = r
        return r
    return cut


# ---------------------------------------------------------------------------
# file effects

FS = ("tokio::fs::", "std::fs::", "fs_err::")
SETTERS = ("read", "write", "append", "truncate", "create", "create_new")


def is_fs(c, *names):
    return c.name in names and (any(c.path.startswith(x) for x in FS) or "OpenOptions" in c.path)


def is_open_call(c):
    if c.fn is None:
        return False
    if c.name == "open" and ("OpenOptions" in c.path):
        return True
    if c.name in ("open", "create", "create_new", "options") and "fs::File::" in c.path and c.name != "options":
        return True
    return False


class Open:
    pass


class FileFx:
    """opens, writes, flushes, syncs and name changes of files in a graph"""

    def __init__(self, f):
        self.f = f
        self.opens = {}          # call nid -> Open
        self.writes = []         # (call, {open nids}, kind)  kind: write/set_len
        self.flushes = []
        self.syncs = []
        self.reads = []
        self.renames = []        # (call, from key, to key)
        self.removes = []
        self.whole = []          # fs::write / fs::copy
        self._key = {}
        for c in f.callsites:
            if is_open_call(c) and not c.inlined:
                self.opens[c.nid] = self.mkopen(c)
        for c in f.callsites:
            if c.inlined or c.fn is None:
                continue
            tr = (c.trait or "").split("::")[-1]
            if tr in ("AsyncWriteExt", "Write", "AsyncWrite") and (c.name.startswith("write") or c.name.startswith("poll_write")):
                self.writes.append((c, self.file_of(c), "write"))
            elif c.name == "set_len" and "File" in c.path:
                self.writes.append((c, self.file_of(c), "set_len"))
            elif tr in ("AsyncWriteExt", "Write", "AsyncWrite") and c.name in ("flush", "shutdown", "poll_flush", "poll_shutdown"):
                self.flushes.append((c, self.file_of(c)))
            elif c.name in ("sync_all", "sync_data"):
                self.syncs.append((c, self.file_of(c)))
            elif tr in ("AsyncReadExt", "Read", "AsyncRead", "AsyncBufReadExt") and c.name.startswith("read"):
                self.reads.append((c, self.file_of(c)))
            elif is_fs(c, "rename"):
                self.renames.append((c, self.key(c.args[0]), self.key(c.args[1])))
            elif is_fs(c, "hard_link", "copy"):
                self.whole.append((c, self.key(c.args[1])))
            elif is_fs(c, "write") and "OpenOptions" not in c.path:
                self.whole.append((c, self.key(c.args[0])))
            elif is_fs(c, "remove_file", "remove_dir", "remove_dir_all"):
                self.removes.append((c, self.key(c.args[0])))

    def key(self, op):
        out = set()
        for t in self.f.leaves(op):
            if t[0] == "param":
                out.add((t[1], t[2]))
            elif t[0] == "const" and not (t[1] in ("bool",)):
                out.add(str(t[2]))
        return frozenset(out)

    def mkopen(self, c):
        f = self.f
        o = Open()
        o.call = c
        o.modes = {}
        if c.name == "open" and "OpenOptions" in c.path:
            o.path = c.args[1]
            news = {t[1] for t in f.leaves(c.args[0]) if t[0] == "call" and f.callof(t).name in ("new", "options") and "fs" in f.callof(t).path}
            o.builder = news
            for s in f.callsites:
                if s.name in SETTERS and "OpenOptions" in s.path:
                    mine = {t[1] for t in f.leaves(s.args[0]) if t[0] == "call"}
                    if mine & news:
                        for t in f.origins(s.args[1]):
                            v = bool(t[2]) if t[0] == "const" else True
                            o.modes[s.name] = o.modes.get(s.name, False) or v
        else:
            o.path = c.args[0]
            if c.name == "open":
                o.modes = {"read": True}
            elif c.name == "create":
                o.modes = {"write": True, "create": True, "truncate": True}
            else:
                o.modes = {"write": True, "create_new": True}
        o.key = self.key(o.path)
        m = o.modes
        o.writable = bool(m.get("write") or m.get("append"))
        o.fresh = bool(m.get("create_new"))
        o.creates = bool(m.get("create") or m.get("create_new"))
        return o

    def file_of(self, c):
        f = self.f
        stop = lambda x: x is not None and is_open_call(x)
        return {t[1] for t in f.leaves(c.args[0], muts=False, stop=stop, depth=12) if t[0] == "call" and t[1] in self.opens}


def filefx(f):
    if not hasattr(f, "_filefx"):
        f._filefx = FileFx(f)
    return f._filefx


def exit_values(f, seen, path=("!",)):
    """{(variant, value)} of the entry's result in the explored states: value is
    what is known at `path` below it"""
    out = set()
    for st in seen.get(f.exit, ()):
        d = dict(st)
        p = ()
        v = d.get((f.retvar, p))
        if v == "Ready":
            p += ("!",)
            v = d.get((f.retvar, p))
        out.add((v, d.get((f.retvar, p + tuple(path)))))
    return out


def start_states(f):
    return [(f.xnode[0], f.xkey[0][1])]


def explore_from_start(f, cut=None):
    return explore(f, start_states(f), cut)


def avoid_cut(nodes, inner=None):
    nodes = set(nodes)

    def cut(nid, lab, s):
        return s in nodes or (inner is not None and inner(nid, lab, s))
    return cut


def edges_where(f, pred, depth=3):
    """switch edges that imply an atom satisfying pred"""
    C = qlib.conds(f)
    out = set()
    for x in f.reach:
        n = f.nodes[x]
        if n.kind != "switch":
            continue
        for s, lab in n.succ:
            if any(pred(a) for a in C.edge(x, lab, depth)):
                out.add((x, lab))
    return out


def edges_given(f, pred, starts, depth=3):
    """edges_where, and the edges of a condition put together before it is
    tested: where every part that can still be true on paths from the starts
    that met no such edge implies an atom satisfying pred"""
    C = qlib.conds(f)
    out = edges_where(f, pred, depth)
    for x in f.reach:
        n = f.nodes[x]
        if n.kind != "switch":
            continue
        op = f.opnd(n.ctx, n.term[1])
        if op[0] != "p" or op[2] or f.vtype[op[1]] != "bool":
            continue
        parts, consts = parts_of(f, op)
        if len(parts) + len(consts) < 2:
            continue
        for s, lab in n.succ:
            if (x, lab) in out:
                continue
            truth = lab != "0"
            if not parts or not all(any(pred(a) for a in C.term_atoms(t, truth, depth)) for t in parts):
                continue
            sites = {nid for nid, v in consts if v == truth}
            if sites:
                hit = set()

                def cut(a, l, b):
                    if (a, l) in out:
                        return True
                    if b in sites:
                        hit.add(b)
                    return False
                got = explore(f, starts, cut, 600)
                if hit or sites & set(got):
                    continue
            out.add((x, lab))
    return out


def parts_of(f, op):
    """(terms, [(node, value)]) a truth value is put together from"""
    parts, consts = set(), set()
    seen, work = set(), [op[1]]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for dp, kind, payload, nid in f.defs.get(v, []):
            if dp:
                continue
            if kind == "rv" and payload[0] == "use" and payload[1][0] == "p" and not payload[1][2]:
                work.append(payload[1][1])
            elif kind == "rv" and payload[0] == "use" and payload[1][0] == "k":
                k = payload[1][1]
                consts.add((nid, bool(k.get("int")) if "int" in k else k.get("s") in ("true", "const true")))
            else:
                parts |= {t for t in f.res(v, ()) if t[0] in ("expr", "call") and t[1] == nid}
    return parts, consts
