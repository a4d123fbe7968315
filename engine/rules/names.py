"""A vocabulary type system for the structures of a layer.

The layer code moves ~70 same-shaped values (files, maps, byte buffers, bit
arrays, dictionaries, adjacency lists) around.  The Rust types do not tell them
apart, but the program does: every field, file-table entry, parameter and
accessor says which structure (S), which part of it (P) and which polarity (O)
it holds.  A *role* is such a triple.  Dataflow (origin terms of the MIR) tells
which named places a value comes from; a slot whose role contradicts the role of
a value stored in it is crossed wiring.  Values without any role are never
complained about.
"""
import re
from .lib import *

INLINE = lambda b, d: b.kind not in ("Fn", "AssocFn")

S = [("sp_o", r"(^|_)sp_o(_|$)"),
     ("o_ps", r"(^|_)o_ps(_|$)"),
     ("s_p", r"(^|_)s_p(_|$)"),
     ("nvmap", r"node_value_id_?map"),
     ("pmap", r"predicate_id_?map"),
     ("ndict", r"(^|_)node_(dict|files$|map$)"),
     ("pdict", r"(^|_)predicate_(dict|files$|map$)"),
     ("vdict", r"(^|_)value_(dict|files$|map$)"),
     ("wavelet", r"wavelet"),
     ("subjects", r"(^|_)subjects(_|$)"),
     ("objects", r"(^|_)objects(_|$)")]
P = [("types_present", r"types_present|used_types"),
     ("type_offsets", r"type_offsets"),
     ("sblocks", r"(^|_)sblocks?(_|$)"),
     ("offsets", r"block_offsets"),
     ("blocks", r"(^|_)blocks?(_|$)"),
     ("offsets", r"(^|_)offsets(_|$)"),
     ("bits", r"(^|_)bits?(_|$)|^bit(file|array)"),
     ("nums", r"(^|_)nums(_|$)")]
O = [("pos", r"^pos_|(^|_)(additions?|positives?)(_|$)|^base_(subjects|objects|s_p|sp_o|o_ps|predicate_wavelet)"),
     ("neg", r"^neg_|(^|_)(removals?|negatives?)(_|$)")]
_CR = [[(k, re.compile(r)) for k, r in T] for T in (S, P, O)]
DIM = ("structure", "part", "polarity")
_memo = {}


def role(name):
    """(structure, part, polarity) named by an identifier, None where silent"""
    if not name or not isinstance(name, str):
        return (None, None, None)
    r = _memo.get(name)
    if r is None:
        n = name.split(".")[-1]
        r = tuple(next((k for k, x in T if x.search(n)), None) for T in _CR)
        _memo[name] = r
    return r


def _elems(x):
    return isinstance(x, str) and x[:1] not in "!["


def comb(toks):
    """role of an access path: per dimension the innermost name that speaks"""
    r = [None, None, None]
    for x in toks:
        q = role(x)
        for i in range(3):
            if q[i]:
                r[i] = q[i]
    return tuple(r)


def rshow(r):
    return "/".join(x or "-" for x in r)


INTS = {"usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize", "bool", "u128", "i128"}


def int_op(f, op):
    if op[0] == "k":
        return "int" in op[1]
    if op[2]:
        return False
    ty = (f.vtype[op[1]] or "").replace("&", "").replace("mut ", "").strip()
    return ty in INTS


FILE_FNS = {"get_file", "file_exists"}
NOVALUE = {"size", "exists", "len", "is_empty", "num_entries", "width", "right_count", "left_count"}


CTOR = {"new", "new_uninit", "with_capacity", "from", "into_vec", "default", "box_new"}
REORDER = {"reverse", "sort", "sort_by", "sort_unstable", "sort_by_key", "swap", "swap_remove", "rotate_left", "rotate_right",
           "rev", "skip", "step_by", "remove", "insert", "retain", "dedup", "filter", "chain", "extend", "append", "truncate"}


def local_vec(c):
    return c is not None and c.name in CTOR and c.path.startswith(("std::", "alloc::", "core::", "<std", "<alloc"))


class Sources:
    """the named places the value of an operand comes from"""

    def __init__(self, f, summaries=None):
        self.f, self.prog = f, f.p
        self.summaries = summaries
        self._grown = None

    def of(self, op, depth=8):
        out = {}
        self._op(op, (), depth, out, set(), ())
        return out

    def of_result(self, path=(), depth=8):
        out = {}
        seen = set()
        for t in self.f.res(self.f.retvar, tuple(path)):
            self._term(t, (), depth, out, seen, ())
        return out

    def _op(self, op, tail, d, out, seen, ctx):
        if int_op(self.f, op):
            return
        for t in self.f.origins(op):
            self._term(t, tail, d, out, seen, ctx)

    # -- local collections
    def grown(self, nid):
        """calls on the collection created at nid, literal operands put in it"""
        if self._grown is None:
            self._grown = {}
            f = self.f
            for c in f.callsites:
                if c.nid not in f.reach or c.inlined or not c.args or c.args[0][0] != "p":
                    continue
                ts = f.origins(c.args[0])
                lit = None
                for t in ts:
                    if t[0] == "part":
                        for dp, kind, payload, n in f.defs[t[1]]:
                            if n == t[2] and kind == "rv" and payload[0] == "agg":
                                lit = payload[2]
                for t in ts:
                    if t[0] == "call" and t[2] == ():
                        g = self._grown.setdefault(t[1], ([], []))
                        g[0].append(c)
                        if lit is not None and lit not in g[1]:
                            g[1].append(lit)
        return self._grown.get(nid, ([], []))

    def element(self, nid, tok, ctx):
        """[(operand, context)] of element `tok` of the collection created at nid"""
        f = self.f
        calls, lits = self.grown(nid)
        if lits:
            ops = [o for l in lits for o in l]
            k = dict(ctx).get(nid)
            if k is None and tok not in ("[]",):
                k = int(tok[1:-1]) if tok[1:-1].isdigit() else None
            if len(lits) == 1 and k is not None and not any(c.name in REORDER for c in calls):
                return [(ops[k], ctx)] if k < len(ops) else []
            return [(o, ctx) for o in ops]
        push = [c for c in calls if c.name in ("push", "push_back")]
        if tok != "[]" and tok[1:-1].isdigit() and not any(c.name in REORDER for c in calls):
            k = int(tok[1:-1])
            loops = [c for c in push if c.nid in f.after(c.nid)]
            if len(push) == 1 and loops:
                # one push per round of a loop over another local collection: same positions
                over = self.ranged(push[0])
                if over is not None:
                    return [(push[0].args[-1], ctx + ((over, k),))]
            elif not loops:
                order = sorted(push, key=lambda c: sum(1 for e in push if c.nid in f.after(e.nid)))
                return [(order[k].args[-1], ctx)] if k < len(order) else []
        return [(c.args[-1], ctx) for c in push]

    def ranged(self, c):
        """the one local literal collection whose elements decide what c pushes"""
        f = self.f
        found = set()
        seen = set()
        work = [t for a in c.args[1:] for t in f.origins(a)]
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            if t[0] == "call":
                k = f.callof(t)
                if local_vec(k) and t[2][:1] == ("[]",):
                    found.add(t[1])
                    continue
                work += [x for a in k.args for x in f.origins(a)]
            elif t[0] == "agg":
                work += [x for a in f.stmt(t)[2] for x in f.origins(a)]
        if len(found) != 1:
            return None
        nid = found.pop()
        calls, lits = self.grown(nid)
        return nid if len(lits) == 1 and not any(x.name in REORDER for x in calls) else None

    def _term(self, t, tail, d, out, seen, ctx):
        f = self.f
        if (t, tail, ctx) in seen or d < 0:
            return
        seen.add((t, tail, ctx))
        if t[0] == "param":
            ps = f.entry.params or []
            n = ps[t[1] - 1] if t[1] - 1 < len(ps) and ps[t[1] - 1] else ""
            self._emit((n,) + t[2] + tail, out, t)
        elif t[0] == "const" and t[1] == "def":
            self._emit(tuple(t[3]) + tail, out, t)
        elif t[0] == "call":
            c = f.callof(t)
            if c is None:
                return
            toks = t[2] + tail
            if local_vec(c) and toks[:1] and toks[0][:1] == "[":
                for o, cx in self.element(t[1], toks[0], ctx):
                    self._op(o, toks[1:], d - 1, out, seen, cx)
                return
            local = c.target in self.prog.bodies
            nm = c.name if local else ""
            if local and self.summaries is not None:
                i = next((i for i, x in enumerate(toks) if x != "!"), None)
                if i is not None and toks[i].isdigit():
                    for r in self.summaries.result(c.target, toks[:i + 1]):
                        self._emit(r + toks[i + 1:], out, t)
                    return
            mine = comb((nm,) + toks)
            if c.name in NOVALUE and not mine[0]:
                return
            if mine[0]:
                # a named structure: who it belongs to decides the polarity
                pol = {None}
                if not mine[2] and c.args:
                    sub = {}
                    self._op(c.args[0], (), d - 1, sub, seen, ctx)
                    pol = ({comb(k)[2] for k in sub} - {None}) or pol
                for p in pol:
                    self._emit(({"pos": "pos_", "neg": "neg_"}.get(p, ""), nm) + toks, out, t)
                return
            sub = {}
            for a in c.args:
                self._op(a, (), d - 1, sub, seen, ctx)
            for k, v in sub.items():
                self._emit(k + (nm,) + toks, out, v)
            if not sub and any(mine):
                self._emit((nm,) + toks, out, t)
        elif t[0] == "agg":
            st = f.stmt(t)
            if st[1][0] == "closure":
                if self.summaries is not None:
                    for r in self.summaries.closure(st[1][1]):
                        self._emit(r + tail, out, t)
                # what it captured is looked at where it is used, not here
                return
            if not tail and not t[3]:
                for o in st[2]:
                    self._op(o, (), d - 1, out, seen, ctx)

    def _emit(self, toks, out, t):
        toks = tuple(x for x in toks if x)
        if any(comb(toks)):
            out.setdefault(toks, t)


class Summaries:
    """what the components of a returned tuple are called at their source"""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def result(self, target, path):
        key = (target, path)
        if key not in self.memo:
            self.memo[key] = []
            b = self.prog.bodies[target]
            f = flat(self.prog, b, inline=INLINE)
            s = Sources(f, self)
            self.memo[key] = list(s.of_result(path))
        return self.memo[key]

    def closure(self, cid):
        """names of what a closure returns; for a filter, of what it lets through"""
        key = (cid, "closure")
        if key not in self.memo:
            self.memo[key] = []
            b = self.prog.bodies.get(cid)
            if b is None:
                return []
            f = flat(self.prog, b, inline=INLINE)
            pol = filter_polarity(f)
            if pol:
                self.memo[key] = [(pol + "_",)]
            elif f.vtype[f.retvar] != "bool":
                self.memo[key] = list(Sources(f, self).of_result())
        return self.memo[key]


def variant_polarity(name):
    return {"Addition": "pos", "Additions": "pos", "Positive": "pos", "Removal": "neg", "Removals": "neg", "Negative": "neg"}.get(name)


def filter_polarity(f):
    """the change kind a predicate accepts, if it decides by the kind alone"""
    other = {"pos": "neg", "neg": "pos"}
    got = set()
    for k, n, t in returns(f):
        if t[0] == "call":
            c = f.callof(t)
            if c.name in ("eq", "ne"):
                ps = {variant_polarity(variant_of(f, x)) for a in c.args for x in f.origins(a) if x[0] == "agg"} - {None}
                if len(ps) == 1:
                    p = ps.pop()
                    got.add(p if c.name == "eq" else other[p])
                    continue
            return None
        if t[0] == "const" and t[1] == "bool" and n is not None:
            if not t[2]:
                continue
            ps = {variant_polarity(v) for a in conds(f).facts(n) if a[0] == "variant" for v in a[2]} - {None}
            if len(ps) != 1:
                return None
            got |= ps
        else:
            return None
    return got.pop() if len(got) == 1 else None


def slots(f, prog):
    """(kind, node, what, [(slot name, operand)]) of every construction and call"""
    for n in sorted(f.reach):
        for d, rv, line in f.nodes[n].stmts:
            if rv[0] == "agg" and rv[1][0] == "adt":
                yield ("agg", n, rv[1][1].split("::")[-1], list(zip(rv[3], rv[2])), None)
            elif d[1] and rv[0] == "use" and any(role(d[1][-1])):
                yield ("store", n, d[1][-1], [(d[1][-1], rv[1])], None)
    for c in f.callsites:
        if c.nid not in f.reach or c.inlined:
            continue
        ps = None
        if c.target in prog.bodies:
            ps = prog.bodies[c.target].params
        elif c.fn:
            ps = c.fn.get("params")
        if ps:
            yield ("call", c.nid, c.name, [(n or "", o) for n, o in zip(ps, c.args)], c)
