"""Queries shared by the rules."""
import re
from collections import defaultdict
from mir import Flat, Missing, type_head, Body

DERIVED = {"PartialEq", "Eq", "Clone", "Debug", "Hash", "PartialOrd", "Ord", "Display", "Default"}


def inline_default(b, d):
    """inline every local body except (derived) standard trait impls"""
    if b.impl_trait and b.impl_trait.split("::")[-1] in DERIVED:
        return False
    return True


def flat(prog, entry, opaque=(), depth=8, cap=30000, inline=None, R=None):
    key = (entry.id if isinstance(entry, Body) else entry, tuple(sorted(opaque)), depth, inline)
    cache = prog.__dict__.setdefault("_flats", {})
    if key not in cache:
        inl = inline or inline_default
        cache[key] = Flat(prog, entry, inline=inl, depth=depth, cap=cap, opaque=opaque)
    f = cache[key]
    if len(f.nodes) > cap:
        raise Missing("analysis bound exceeded in `%s`" % f.entry.id)
    if R is not None:
        R.saw(f)
    return f


# ---- return values ---------------------------------------------------------

VAR_OF_LABEL = {"Continue": ("Ok", "Some", "Continue"), "Break": ("Err", "None", "Break")}


def variant_of(f, t):
    """variant name of an aggregate term, else None"""
    if t[0] == "agg" and not t[3]:
        rv = f.stmt(t)
        if rv[1][0] == "adt":
            return rv[1][2]
    return None


def returns(f, path=()):
    """[(kind, node, term)] for the values returned: kind ok/err/some/none/val/call/residual"""
    out = []
    for t in f.res(f.retvar, path):
        v = variant_of(f, t)
        if v in ("Ok", "Some", "Err", "None", "Ready"):
            out.append(({"Ok": "ok", "Some": "some", "Err": "err", "None": "none", "Ready": "ok"}[v], t[1], t))
        elif t[0] == "residual":
            out.append(("err", t[1], t))
        elif t[0] == "call":
            out.append(("call", t[1], t))
        else:
            out.append(("val", t[1] if t[0] in ("agg", "expr") else None, t))
    return out


def success_nodes(f):
    """nodes at which a non-error return value is produced"""
    return [(k, n, t) for k, n, t in returns(f) if k not in ("err",) and n is not None]


# ---- conditions --------------------------------------------------------------

class Cond:
    def __init__(self, f):
        self.f = f
        self.memo = {}

    def facts(self, nid, depth=6):
        """atoms known to hold whenever nid is reached"""
        if nid in self.memo:
            return self.memo[nid]
        self.memo[nid] = []
        out = []
        for sw, lab in self.f.guards(nid):
            out.extend(self.edge(sw, lab, depth))
        self.memo[nid] = out
        return out

    def edge(self, sw, lab, depth=6):
        f = self.f
        n = f.nodes[sw]
        op = f.opnd(n.ctx, n.term[1])
        # values excluded when the label is the otherwise edge
        vals = [v for v, _ in n.term[2]]
        out = []
        if op[0] != "p":
            return out
        # discriminant switch
        for dp, kind, payload, nid in f.defs.get(op[1], []):
            if kind == "rv" and payload[0] == "discr":
                names = dict((v, nm) for v, nm in payload[2])
                if lab == "else":
                    poss = [nm for v, nm in payload[2] if v not in vals]
                else:
                    poss = [names.get(lab, "?")]
                out.extend(self.variant(("p", payload[1][0], payload[1][1], False), poss, depth))
                return out
        ty = f.vtype[op[1]]
        if op[2] and "bool" not in ty:
            # part of a value: what its type names as a number
            nums = [x for x in ("usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize", "u128", "i128") if re.search(r"\b%s\b" % x, ty)]
            ty = nums[0] if nums else ty
        if ty == "bool" or set(vals) <= {"0"} and ty not in ("usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize", "u128", "i128"):
            truth = lab != "0"
            out.extend(self.boolean(op, truth, depth))
        else:
            if lab != "else":
                out.append(("int", op, int(lab), True))
            else:
                for v in vals:
                    out.append(("int", op, int(v), False))
        return out

    def variant(self, place, poss, depth):
        f = self.f
        out = []
        terms = f.origins(place)
        ok = []
        for t in terms:
            v = variant_of(f, t)
            if v is not None:
                cand = set()
                for p in poss:
                    cand |= set(VAR_OF_LABEL.get(p, (p,)))
                if v in cand:
                    ok.append(t)
            else:
                ok.append(t)
        for t in terms:
            if variant_of(f, t) is None:
                out.append(("variant", t, tuple(poss), len(ok) == 1))
        if len(ok) and depth > 0 and all(variant_of(f, t) is not None for t in ok):
            common = None
            for t in ok:
                fs = self.facts(t[1], depth - 1)
                # facts about the payload travel too
                ks = {self.key(a): a for a in fs}
                common = ks if common is None else {k: a for k, a in common.items() if k in ks}
            out.extend(common.values())
        return out

    def key(self, a):
        def k(x):
            if isinstance(x, dict):
                return str(sorted(x.items(), key=str))
            if isinstance(x, (list, tuple)):
                return tuple(k(y) for y in x)
            return x
        return k(a)

    def boolean(self, op, truth, depth):
        """atoms implied by operand == truth"""
        f = self.f
        out = []
        terms = list(f.origins(op))
        # constants that contradict the truth value drop out
        live = []
        for t in terms:
            if t[0] == "const" and t[1] == "bool":
                if bool(t[2]) == truth:
                    live.append(t)
            else:
                live.append(t)
        single = len(live) == 1
        allfacts = []
        for t in live:
            at = self.term_atoms(t, truth, depth)
            if not single and depth > 0 and t[0] in ("expr", "call"):
                at = at + self.facts(t[1], depth - 1)
            elif single and len(terms) > 1 and depth > 0 and t[0] in ("expr", "call"):
                at = at + self.facts(t[1], depth - 1)
            elif t[0] == "const" and depth > 0:
                # constant assigned somewhere: find the assigning nodes
                at = at + self.const_sites(op, t, depth)
            allfacts.append(at)
        if not allfacts:
            return out
        common = {self.key(a): a for a in allfacts[0]}
        for fs in allfacts[1:]:
            ks = {self.key(a) for a in fs}
            common = {k: a for k, a in common.items() if k in ks}
        out.extend(common.values())
        return out

    def const_sites(self, op, t, depth):
        f = self.f
        sites = []
        seen = set()
        def walk(v):
            if v in seen:
                return
            seen.add(v)
            for dp, kind, payload, nid in f.defs.get(v, []):
                o = None
                if kind == "rv" and payload[0] == "use":
                    o = payload[1]
                elif kind == "use":
                    o = payload
                if o is None:
                    continue
                if o[0] == "k":
                    if f.kterm(o[1], ()) == t:
                        sites.append(nid)
                elif not o[2]:
                    walk(o[1])
        if op[0] == "p" and not op[2]:
            walk(op[1])
        common = None
        for s in sites:
            ks = {self.key(a): a for a in self.facts(s, depth - 1)}
            common = ks if common is None else {k: a for k, a in common.items() if k in ks}
        return list(common.values()) if common else []

    def equality(self, a, b, truth, depth=3):
        """an equality, and what it says of the parts of its sides"""
        f = self.f
        out = [("eq", a, b, truth)]
        if not truth or not depth:
            return out
        x, y = f.origins(a), f.origins(b)
        if len(x) != 1 or len(y) != 1:
            return out
        (s,), (t,) = x, y
        if s[0] == "agg" and t[0] == "agg":
            p, q = f.stmt(s), f.stmt(t)
            if p[1] == q[1] and len(p[2]) == len(q[2]):
                for u, v in zip(p[2], q[2]):
                    out += self.equality(u, v, True, depth - 1)
            return out
        for s, t in ((s, t), (t, s)):
            if t[0] == "agg" and s[0] == "call":
                r = f.stmt(t)
                if r[0] == "agg" and r[1][0] == "adt" and not r[2] and len(r[1]) > 2:
                    out.append(("variant", s, (r[1][2],), True))
        return out

    def term_atoms(self, t, truth, depth):
        f = self.f
        if t[0] == "expr":
            rv = f.stmt(t)
            if rv[0] == "un" and rv[1] == "Not":
                return self.boolean(rv[2], not truth, depth)
            if rv[0] == "bin":
                op = rv[1]
                if op in ("Eq", "Ne"):
                    return self.equality(rv[2], rv[3], truth == (op == "Eq"))
                if op in ("Lt", "Le", "Gt", "Ge"):
                    if not truth:
                        op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
                    a, b = rv[2], rv[3]
                    if op in ("Gt", "Ge"):
                        a, b = b, a
                        op = {"Gt": "Lt", "Ge": "Le"}[op]
                    return [("ord", op, a, b)]
                if op in ("BitAnd",) and truth:
                    return self.boolean(rv[2], True, depth) + self.boolean(rv[3], True, depth)
                if op in ("BitOr",) and not truth:
                    return self.boolean(rv[2], False, depth) + self.boolean(rv[3], False, depth)
            return [("bool", t, truth)]
        if t[0] == "call":
            c = f.callof(t)
            if c.name in ("eq", "ne") and (c.trait or "").endswith("PartialEq") and not t[2]:
                return self.equality(c.args[0], c.args[1], truth == (c.name == "eq"))
            if c.name in ("is_some", "is_ok", "is_none", "is_err") and not t[2]:
                pos = {"is_some": "Some", "is_ok": "Ok", "is_none": "None", "is_err": "Err"}[c.name]
                opp = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}
                return self.variant(c.args[0], [pos if truth else opp[pos]], depth) + [("is", c.args[0], pos if truth else opp[pos])]
            if c.name == "not" and (c.trait or "").endswith("Not"):
                return self.boolean(c.args[0], not truth, depth)
            return [("bool", t, truth)]
        return [("bool", t, truth)]


def conds(f):
    if not hasattr(f, "_cond"):
        f._cond = Cond(f)
    return f._cond


# ---- lock guards ---------------------------------------------------------------

GUARD_RE = re.compile(r"\b(RwLockWriteGuard|RwLockReadGuard|MutexGuard|OwnedMutexGuard|ExclusiveLockedFile|LockedFile)\b")


GUARD_NAMES = {"RwLockWriteGuard", "RwLockReadGuard", "MutexGuard", "OwnedMutexGuard", "OwnedRwLockReadGuard",
               "OwnedRwLockWriteGuard", "ExclusiveLockedFile", "LockedFile"}
WRAPPERS = {"Result", "Option", "Poll", "ControlFlow", "Box", "LockResult"}


def split_args(t):
    """top-level generic arguments / tuple members of a type string"""
    i = t.find("<") if not t.startswith("(") else 0
    if i < 0:
        return []
    depth = 0
    cur = ""
    out = []
    for c in t[i:]:
        if c in "<([":
            depth += 1
            if depth == 1:
                continue
        elif c in ">)]":
            depth -= 1
            if depth == 0:
                break
        if depth == 1 and c == ",":
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


_gt_memo = {}


def is_guard_type(t):
    """does a value of this type own a lock guard?"""
    r = _gt_memo.get(t)
    if r is not None:
        return r
    r = False
    if not t.startswith("&") and not t.startswith("{") and not t.startswith("impl ") and not t.startswith("dyn "):
        if t.startswith("("):
            r = any(is_guard_type(x) for x in split_args(t))
        else:
            h = type_head(t)
            if h in GUARD_NAMES:
                r = True
            elif h in WRAPPERS:
                r = any(is_guard_type(x) for x in split_args(t))
    _gt_memo[t] = r
    return r


def guard_name(t):
    if t.startswith("("):
        for x in split_args(t):
            g = guard_name(x)
            if g:
                return g
        return None
    h = type_head(t)
    if h in GUARD_NAMES:
        return h
    if h in WRAPPERS:
        for x in split_args(t):
            g = guard_name(x)
            if g:
                return g
    return None


class Held:
    """which lock acquisitions are held where.  Tokens are (node, kind)."""

    def __init__(self, f, guard=is_guard_type):
        self.f = f
        self.guard = guard
        self.tokens = {}      # token -> type
        self._gt = {}
        self.run()

    def g(self, vid):
        r = self._gt.get(vid)
        if r is None:
            r = self._gt[vid] = self.guard(self.f.vtype[vid])
        return r

    def run(self):
        f = self.f
        IN = {0: {}}
        work = [0]
        n = 0
        while work:
            x = work.pop()
            n += 1
            if n > 2000000:
                raise Missing("lock analysis did not converge in `%s`" % f.entry.id)
            out = self.transfer(f.xnode[x], IN[x])
            for s, lab in f.xsucc[x]:
                cur = IN.get(s)
                if cur is None:
                    IN[s] = dict(out)
                    work.append(s)
                else:
                    ch = False
                    for k, v in out.items():
                        if k not in cur:
                            cur[k] = v
                            ch = True
                        elif not v <= cur[k]:
                            cur[k] = cur[k] | v
                            ch = True
                    if ch:
                        work.append(s)
        self.xmay = IN
        MUST = {0: frozenset()}
        work = [0]
        while work:
            x = work.pop()
            before = IN[x]
            out = self.transfer(f.xnode[x], before)
            must = MUST[x]
            o = frozenset(t for t in out if t in must or t not in before or t[0] == f.xnode[x])
            for s, lab in f.xsucc[x]:
                cur = MUST.get(s)
                new = o if cur is None else cur & o
                if cur is None or new != cur:
                    MUST[s] = new
                    work.append(s)
        self.xmust = MUST
        self.may_in = {}
        self.must_in = {}
        for x, st in IN.items():
            b = f.xnode[x]
            self.may_in.setdefault(b, set()).update(st)
            m = MUST.get(x, frozenset())
            self.must_in[b] = m if b not in self.must_in else self.must_in[b] & m

    def transfer(self, x, state):
        f = self.f
        n = f.nodes[x]
        st = dict(state)

        def move(srcvid, whole, dst):
            for tok in list(st):
                h = st[tok]
                if srcvid in h:
                    if dst is None:
                        if whole:
                            h = h - {srcvid}
                    else:
                        h = (h - {srcvid}) | {dst}
                    if h:
                        st[tok] = h
                    else:
                        del st[tok]

        for d, rv, line in n.stmts:
            dv = d[0]
            ops = []
            if rv[0] == "use":
                ops = [rv[1]]
            elif rv[0] == "agg":
                ops = rv[2]
            fresh = False
            srcheld = False
            for o in ops:
                if o[0] == "p" and o[3]:
                    holds = any(o[1] in h for h in st.values())
                    if holds:
                        srcheld = True
                        if self.g(dv) or rv[0] == "agg":
                            move(o[1], True, dv)
                        elif not o[2]:
                            move(o[1], True, dv if "{" in f.vtype[dv] else None)
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in ("ExclusiveLockedFile", "LockedFile") and not srcheld:
                tok = (x, rv[1][1].split("::")[-1])
                st[tok] = frozenset([dv])
                self.tokens[tok] = f.vtype[dv]
        if n.kind == "drop":
            p = f.pl(n.ctx, n.term[1])
            if not p[1]:
                move(p[0], True, None)
        elif n.kind in ("call",) and n.call is not None:
            c = n.call
            held = False
            for a in c.args:
                if a[0] == "p" and a[3] and any(a[1] in h for h in st.values()):
                    held = True
                    if self.g(c.dest[0]):
                        move(a[1], True, c.dest[0])
                    elif not a[2]:
                        move(a[1], True, None)
            if not held and self.g(c.dest[0]) and c.name not in ("from_residual", "branch", "take", "replace", "unwrap", "expect") and not c.dest[1]:
                tok = (x, self.kind(c, f.vtype[c.dest[0]]))
                st[tok] = frozenset([c.dest[0]])
                self.tokens[tok] = f.vtype[c.dest[0]]
        elif n.kind == "await":
            d = f.pl(n.ctx, n.term[2])
            if self.g(d[0]):
                fut = f.opnd(n.ctx, n.term[1])
                src = None
                for t in f.origins(fut):
                    if t[0] == "call":
                        src = f.callof(t)
                tok = (x, self.kind(src, f.vtype[d[0]]))
                st[tok] = frozenset([d[0]])
                self.tokens[tok] = f.vtype[d[0]]
        return st

    @staticmethod
    def kind(c, ty):
        return guard_name(ty) or "?"

    def lock_of(self, tok):
        """origins of the lock object acquired at a token"""
        f = self.f
        n = f.nodes[tok[0]]
        if n.kind == "await":
            out = set()
            for t in f.origins(f.opnd(n.ctx, n.term[1])):
                c = f.callof(t) if t[0] == "call" else None
                if c and c.args:
                    out |= f.origins(c.args[0])
            return out
        if n.call is not None and n.call.args:
            return f.origins(n.call.args[0])
        return set()

    def at(self, nid, must=True):
        if must:
            return self.must_in.get(nid, frozenset())
        return frozenset(self.may_in.get(nid, ()))


def held(f):
    if not hasattr(f, "_held"):
        f._held = Held(f)
    return f._held


EXCL = {"RwLockWriteGuard", "MutexGuard", "OwnedMutexGuard", "ExclusiveLockedFile"}
