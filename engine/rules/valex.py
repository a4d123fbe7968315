"""Value expressions: what an operand is computed from, as trees over the
parameters, the results of calls and constants; and the linear normal form of
integer expressions, in which rewritten sums compare equal.

Trees: ("k", n) | ("in", i, path) | ("num", t) the number of an enum value |
("f", name, (args), path) a pure call | ("call", nid, path) any other call |
("bin", op, a, b) | ("un", op, a) | ("agg", nid, sidx, path) | ("loop", nid, sidx)
the value of the same expression one turn of a loop earlier | ("other", term)
"""
import itertools
import re

CAP = 24
PURE = {"len", "get", "rank1", "entry", "inner", "range_for", "size_of", "slice_for", "file_index", "is_present", "checked_sub", "checked_add", "saturating_sub", "min", "max",
        "name_to_string", "slice", "as_bytes", "as_u64", "pow", "from_present", "remaining", "capacity", "filled"}


class Ev:
    def __init__(self, f, pure=frozenset()):
        self.f = f
        self.pure = PURE | set(pure)
        self.active = []

    def op(self, o, depth=12, path=()):
        """trees of an operand"""
        if o[0] == "p" and path:
            return self.of(self.f.res(o[1], tuple(o[2]) + tuple(path)), depth)
        return self.of(self.f.origins(o), depth)

    def of(self, ts, depth=12):
        out = set()
        for t in ts:
            out |= self.term(t, depth)
            if len(out) > CAP:
                return {("other", "many")}
        return out

    def prod(self, sets):
        n = 1
        for s in sets:
            n *= max(1, len(s))
        if n > CAP:
            return [tuple(("other", "many") for _ in sets)]
        return itertools.product(*sets)

    def term(self, t, depth):
        f = self.f
        if t[0] == "part":
            return set()
        if t[0] == "param":
            return {("in", t[1], tuple(t[2]))}
        if t[0] == "const":
            if isinstance(t[2], int) and not t[3]:
                return {("k", t[2])}
            v = self.named(t)
            return {("k", v)}
        if depth <= 0:
            return {("other", t)}
        if t[0] == "expr":
            rv = f.stmt(t)
            if rv[0] == "discr":
                return {("num", x) for x in self.of(f.res(rv[1][0], rv[1][1]), depth - 1)}
            if t[:3] in self.active:
                return {("loop",) + tuple(t[1:3])}
            self.active.append(t[:3])
            try:
                if rv[0] == "bin":
                    o = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
                    return {("bin", o, a, b) for a, b in self.prod([self.op(rv[2], depth - 1), self.op(rv[3], depth - 1)])}
                if rv[0] == "un":
                    return {("un", rv[1], a) for a in self.op(rv[2], depth - 1)}
            finally:
                self.active.pop()
            if rv[0] == "use":
                return self.op(rv[1], depth - 1)
            return {("other", t)}
        if t[0] == "call":
            c = f.callof(t)
            if c is None or c.fn is None:
                return {("call", t[1], tuple(t[2]))}
            if c.name in ("checked_sub", "checked_add", "wrapping_sub", "wrapping_add", "wrapping_shl", "wrapping_shr", "overflowing_sub", "sub", "add", "shl", "shr", "bitor", "bitand", "mul") and len(c.args) == 2:
                o = {"checked_sub": "Sub", "wrapping_sub": "Sub", "overflowing_sub": "Sub", "sub": "Sub", "shl": "Shl", "wrapping_shl": "Shl", "shr": "Shr", "wrapping_shr": "Shr",
                     "bitor": "BitOr", "bitand": "BitAnd", "mul": "Mul"}.get(c.name, "Add")
                if t[:2] in self.active:
                    return {("loop", t[1], -1)}
                self.active.append(t[:2])
                try:
                    return {("bin", o, a, b) for a, b in self.prod([self.op(c.args[0], depth - 1), self.op(c.args[1], depth - 1)])}
                finally:
                    self.active.pop()
            if c.name == "size_of" and not c.args:
                m = re.match(r"^\[([ui])(\d+); (\d+)\]$|^([ui])(\d+)$", (c.gargs or [""])[0] if hasattr(c, "gargs") else "")
                if m:
                    return {("k", int(m.group(2) or m.group(5)) // 8 * int(m.group(3) or 1))}
            if c.name == "len" and len(c.args) == 1:
                r = self.rng(c.args[0], depth)
                if r is not None:
                    return {("bin", "Sub", e, s) for s, e in self.prod(r)}
            if c.name in self.pure:
                if c.name in ("saturating_sub", "saturating_add", "min", "max"):
                    # these can carry a running value
                    if t in self.active:
                        return {("loop", t[1], -1)}
                    self.active.append(t)
                    try:
                        return {("f", c.name, a, tuple(t[2])) for a in self.prod([self.op(x, depth - 1) for x in c.args])}
                    finally:
                        self.active.pop()
                return {("f", c.name, a, tuple(t[2])) for a in self.prod([self.op(x, depth - 1) for x in c.args])}
            return {("call", t[1], tuple(t[2]))}
        if t[0] == "agg":
            return {("agg",) + tuple(t[1:])}
        return {("other", t)}

    def named(self, t):
        m = re.search(r"([ui](?:8|16|32|64|128))>?::BITS$", str(t[2]))
        if m:
            return int(m.group(1)[1:])
        if t[1] == "def" and t[2] in self.f.p.bodies:
            from mir import Flat
            from rules.lib import flat
            g = flat(self.f.p, self.f.p.bodies[t[2]])
            v = {x for x in Ev(g).of(g.res(g.retvar, tuple(t[3])), 6)}
            if len(v) == 1:
                l = lin(next(iter(v)))
                if l is not None and not l[0]:
                    return l[1]
        return t[2]

    def rng(self, o, depth=12):
        """(starts, ends) of a range value, if it is one"""
        f = self.f
        if o[0] != "p":
            return None
        ts = f.origins(o)
        if not ts:
            return None
        ss, es = set(), set()
        for t in ts:
            if t[0] == "agg":
                rv = f.stmt(t)
                if t[3] or rv[1][0] != "adt" or "Range" not in rv[1][1]:
                    return None
                names = rv[3] if len(rv) > 3 and rv[3] else [str(i) for i in range(len(rv[2]))]
                for n, x in zip(names, rv[2]):
                    if n == "start":
                        ss |= self.op(x, depth - 1)
                    if n == "end":
                        es |= self.op(x, depth - 1)
                if "start" not in names:
                    ss.add(("k", 0))
            elif t[0] == "call":
                c = f.callof(t)
                if c is not None and c.name == "range_for" and tuple(t[2]) == ("!",):
                    for a in self.prod([self.op(x, depth - 1) for x in c.args]):
                        ss.add(("f", c.name, a, ("!", "start")))
                        es.add(("f", c.name, a, ("!", "end")))
                elif t[2][-1:] and t[2][-1] in ("start", "end"):
                    return None
                else:
                    return None
            else:
                return None
        return ss, es


def lin(t):
    """(terms, constant) of an integer expression: sorted ((tree, factor), ...)"""
    if t[0] == "k":
        return ((), t[1]) if isinstance(t[1], int) else (((t, 1),), 0)
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = lin(t[2]), lin(t[3])
        s = 1 if t[1] == "Add" else -1
        d = dict(a[0])
        for x, n in b[0]:
            d[x] = d.get(x, 0) + s * n
        return (tuple(sorted(((x, n) for x, n in d.items() if n), key=str)), a[1] + s * b[1])
    if t[0] == "bin" and t[1] == "Mul":
        a, b = lin(t[2]), lin(t[3])
        for x, y in ((a, b), (b, a)):
            if not x[0]:
                return (tuple((v, n * x[1]) for v, n in y[0] if n * x[1]), y[1] * x[1])
    return (((t, 1),), 0)


def plus(*xs):
    """linear combination: pairs (factor, linear form)"""
    d, k = {}, 0
    for s, l in xs:
        for x, n in l[0]:
            d[x] = d.get(x, 0) + s * n
        k += s * l[1]
    return (tuple(sorted(((x, n) for x, n in d.items() if n), key=str)), k)


def one(t):
    return (((t, 1),), 0)


def num(n):
    return ((), n)


def bit(t, width=64):
    """the position of the single bit a mask expression has set"""
    if t[0] == "bin" and t[1] == "Shl" and t[2] == ("k", 1):
        return lin(t[3])
    if t[0] == "bin" and t[1] == "Shr" and t[2][0] == "k" and isinstance(t[2][1], int) and t[2][1] > 0 and t[2][1] & (t[2][1] - 1) == 0:
        return plus((1, num(t[2][1].bit_length() - 1)), (-1, lin(t[3])))
    if t[0] == "bin" and t[1] == "Shr" and t[2][0] == "bin":
        p = bit(t[2], width)
        return plus((1, p), (-1, lin(t[3]))) if p is not None else None
    if t[0] == "k" and isinstance(t[1], int) and t[1] > 0 and t[1] & (t[1] - 1) == 0:
        return num(t[1].bit_length() - 1)
    return None


def text(t, f=None):
    """a tree, readable"""
    if t[0] == "k":
        return str(t[1])
    if t[0] == "in":
        nm = f.entry.params[t[1] - 1] if f is not None and t[1] - 1 < len(f.entry.params) and f.entry.params[t[1] - 1] else "arg%d" % t[1]
        return ".".join([str(nm)] + [str(x) for x in t[2]])
    if t[0] == "num":
        return "number of " + text(t[1], f)
    if t[0] == "f":
        return "%s(%s)%s" % (t[1], ", ".join(text(x, f) for x in t[2]), "".join("." + str(x) for x in t[3]))
    if t[0] == "bin":
        return "(%s %s %s)" % (text(t[2], f), {"Add": "+", "Sub": "-", "Mul": "*", "Shl": "<<", "Shr": ">>", "BitOr": "|", "BitAnd": "&"}.get(t[1], t[1]), text(t[3], f))
    if t[0] == "un":
        return "%s %s" % (t[1], text(t[2], f))
    if t[0] == "call":
        c = f.nodes[t[1]].call if f is not None else None
        return "%s(..)%s" % (c.name if c else "call", "".join("." + str(x) for x in t[2]))
    return t[0]


def texts(ts, f=None):
    return " or ".join(sorted(text(t, f) for t in ts)) or "nothing"
