"""Helpers shared by the rule modules."""
import re
from mir import Flat, Missing, type_head, Body, pname
import qlib
from qlib import flat, returns, success_nodes, variant_of, conds, held, EXCL, split_args


def short(b):
    """readable, stable name of a function body"""
    n = b.name
    if b.impl_self:
        h = type_head(b.impl_self)
        if b.impl_trait:
            return "<%s as %s>::%s" % (h, b.impl_trait.split("::")[-1].split("<")[0], n)
        return "%s::%s" % (h, n)
    if b.in_trait:
        return "%s::%s" % (b.in_trait.split("::")[-1], n)
    return n


def tshow(f, t):
    """printable form of an origin term"""
    k = t[0]
    if k == "param":
        ps = f.entry.params or []
        n = ps[t[1] - 1] if t[1] - 1 < len(ps) and ps[t[1] - 1] else "arg%d" % t[1]
        return ".".join((n,) + t[2])
    if k in ("call", "residual", "mut"):
        c = f.callof(t)
        s = "%s(..)" % (c.name if c else "?")
        return s + "".join("." + x for x in t[2]) + "@" + f.loc(t[1])
    if k == "const":
        return "%s" % (t[2],)
    if k in ("agg", "expr"):
        rv = f.stmt(t)
        return "%s@%s" % (rv[1] if k == "expr" else rv[1][:3], f.loc(t[1]))
    return str(t)


def tset(f, ts):
    return "{" + ", ".join(sorted(tshow(f, t) for t in ts)) + "}"


def bodies_named(prog, ids):
    return [prog.bodies[i] for i in ids if i in prog.bodies]


def trait_fn(prog, trait, name):
    """(trait path, default body or None)"""
    t = [x for x in prog.traits.values() if x["id"].split("::")[-1] == trait]
    return t


def param_only(ts, i, okpaths=((),)):
    """the set of origins is exactly (sub)parameter i"""
    ts = [t for t in ts if not (t[0] == "part")]
    return bool(ts) and all(t[0] == "param" and t[1] == i and t[2] in okpaths for t in ts)


def calls_to(f, pred):
    return [c for c in f.callsites if pred(c)]


def leafcalls(f, op, stop=None, depth=10, muts=True):
    return [f.callof(t) for t in f.leaves(op, depth=depth, stop=stop, muts=muts) if t[0] == "call"]


def vid_of(op):
    return op[1] if op[0] == "p" else None


def where(f, nid):
    return f.loc(nid)


def is_call(c, name, pathre=None):
    return c.name == name and (pathre is None or re.search(pathre, c.path) is not None)


# ---- reachability of normal returns ------------------------------------------
def ret_ok(f):
    """(node, term) pairs where a non-error outcome is produced"""
    return [(n, t) for k, n, t in success_nodes(f)]


def mem_fields(prog, suffix):
    a = [x for k, x in prog.adts.items() if k.split("::")[-1] == suffix]
    if len(a) != 1:
        raise Missing("type `%s` resolves to %d definitions" % (suffix, len(a)))
    return a[0]
