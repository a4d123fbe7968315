"""Texts: what is written as the text of a name or label is what reading it takes apart."""
import ast
from rules.lib import *
from flow import filefx
from symval import sym


def spec(k):
    """pieces of a compiled format string: ("lit", text) | ("arg", number, width or None, zero padded, otherwise plain)"""
    try:
        b = ast.literal_eval(k)
    except (SyntaxError, ValueError):
        return None
    if not isinstance(b, bytes):
        return None
    out, i, arg = [], 0, 0
    try:
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                return out if i == len(b) else None
            if c <= 0x80:
                n = c
                if c == 0x80:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                out.append(("lit", b[i:i + n].decode("utf8", "replace")))
                i += n
            elif c >= 0xC0:
                flags, width, plain = 0, None, True
                if c & 1:
                    flags = int.from_bytes(b[i:i + 4], "little")
                    i += 4
                if c & 2:
                    width = b[i] | b[i + 1] << 8
                    i += 2
                if c & 4:
                    i += 2
                    plain = False
                if c & 8:
                    arg = b[i] | b[i + 1] << 8
                    i += 2
                if c & 0x30:
                    plain = False
                if flags & (1 << 21 | 1 << 22 | 1 << 23 | 1 << 25 | 1 << 26):
                    plain = False
                out.append(("arg", arg, width, bool(flags >> 24 & 1), plain))
                arg += 1
            else:
                return None
    except IndexError:
        return None
    return None


def parts(f, g):
    """a format call as [("lit", text) | ("arg", how shown, operand, width, zero padded, plain)], or None"""
    for t in f.origins(g.args[0]):
        if t[0] == "part":
            continue
        n = f.callof(t) if t[0] == "call" else None
        if n is None or n.name not in ("new", "new_const", "from_str", "from_str_nonconst"):
            return None
        k = sym(f).arg(n, 0)
        if k[0] != "k":
            return None
        sp = spec(str(k[1]))
        if len(n.args) < 2:
            return [("lit", str(k[1]).strip('"'))] if sp is None else [x for x in sp]
        if sp is None:
            return None
        ops = None
        for u in f.origins(n.args[1]):
            st = f.stmt(u) if u[0] in ("agg", "expr") else None
            if st is not None and st[0] == "agg":
                ops = st[2]
        if ops is None:
            return None
        out = []
        for x in sp:
            if x[0] == "lit":
                out.append(x)
                continue
            if x[1] >= len(ops):
                return None
            how, op = None, None
            for u in f.origins(ops[x[1]]):
                d = f.callof(u) if u[0] == "call" else None
                if d is not None and d.name.startswith("new_"):
                    how, op = d.name[4:], d.args[0]
            if op is None:
                return None
            out.append(("arg", how, op, x[2], x[3], x[4]))
        return out
    return None


def formats(f, op):
    """the format calls a text comes from"""
    out = []
    for t in f.leaves(op):
        c = f.callof(t) if t[0] == "call" else None
        if c is not None and c.name == "format" and "fmt" in c.path and c not in out:
            out.append(c)
    return out


def num(v):
    if v[0] == "k":
        s = str(v[1]).split("_")[0]
        if s.isdigit():
            return int(s)
    return None


def cut_of(v):
    """the (from, to) bounds a value is cut out of a text with, or None"""
    if v[0] == "f" and v[1] in ("index", "get") and len(v) == 4 and v[3][0] == "agg":
        fs = dict(v[3][2])
        lo = num(fs["start"]) if "start" in fs else 0
        hi = num(fs["end"]) if "end" in fs else None
        return lo, hi
    return None


def names(R, prog):
    R.rule("text", "the text of a layer name is its five words in order, eight hexadecimal digits each, and is read back the same way")
    for b in [x for x in prog.bodies.values() if x.name == "name_to_string" and x.kind == "Fn"]:
        f = flat(prog, b, R=R)
        w = "%s:%d" % (b.file, b.line)
        n = 0
        for c in f.callsites:
            if c.name not in ("format", "write_fmt") or c.nid not in f.reach:
                continue
            ps = parts(f, c) if c.name == "format" else None
            if c.name == "write_fmt":
                ps = parts_of(f, c.args[-1])
            if ps is None:
                R.ob("text", "written:form", False, "the text a name is written as is not in a form this rule reads", f.loc(c.nid))
                continue
            n += 1
            R.ob("text", "written:digits", all(x[0] == "arg" and x[1] == "lower_hex" and x[3] == 8 and x[4] and x[5] for x in ps), "a word of the name is not written as eight hexadecimal digits", f.loc(c.nid))
            ix = [elem(f, x[2]) for x in ps if x[0] == "arg"]
            if len(ix) > 1 or ix and ix[0] is not None:
                R.ob("text", "written:order", ix == list(range(5)), "the words of the name are written as %s" % ix, f.loc(c.nid))
        R.ob("text", "written", n > 0, "the text of a name is not made of its words", w)
    for b in [x for x in prog.bodies.values() if x.name == "string_to_name" and x.kind == "Fn"]:
        f = flat(prog, b, R=R)
        w = "%s:%d" % (b.file, b.line)
        rd = [c for c in f.callsites if c.name == "from_str_radix" and c.nid in f.reach]
        R.ob("text", "read", bool(rd), "a name is not read from hexadecimal digits", w)
        for c in rd:
            R.ob("text", "read:digits", num(sym(f).arg(c, 1)) == 16, "a word of the name is not read as hexadecimal", f.loc(c.nid))
        for t in f.res(f.retvar, ()):
            if t[0] != "agg" or variant_of(f, t) != "Ok":
                continue
            for u in f.origins(f.stmt(t)[2][0]):
                st = f.stmt(u) if u[0] in ("agg", "expr") else None
                if st is None or st[0] != "agg" or len(st[2]) != 5:
                    continue
                for i, o in enumerate(st[2]):
                    for x in f.origins(o):
                        c = f.callof(x) if x[0] == "call" else None
                        if c is None or c.name != "from_str_radix":
                            continue
                        cut = cut_of(sym(f).arg(c, 0))
                        if cut is not None:
                            R.ob("text", "read:%d" % i, cut[0] == 8 * i and (cut[1] == 8 * i + 8 or i == 4 and cut[1] is None), "word %d of the name is read from digits %s" % (i, cut), f.loc(c.nid))
    R.floor("text", 4)


def elem(f, op):
    for t in f.origins(op):
        if t[0] == "param" and t[2] and str(t[2][-1]).startswith("[") and str(t[2][-1])[1:-1].isdigit():
            return int(t[2][-1][1:-1])
    return None


def parts_of(f, op):
    class G:
        args = [op]
    return parts(f, G)


def pick(f, op):
    """which line of the text a value is, or None"""
    ks = set()
    for t in f.origins(op):
        if t[0] == "part":
            continue
        p = t[2] if len(t) > 2 and isinstance(t[2], tuple) else ()
        ks.add(int(p[-1][1:-1]) if p and str(p[-1])[:1] == "[" and str(p[-1])[1:-1].isdigit() else None)
    return ks.pop() if len(ks) == 1 else None


def labels(R, prog, is_bump):
    """the text of a label: the version in decimal on the first line, the layer or nothing on the second"""
    R.rule("text", "a label's text is its raised version in decimal on the first line and the requested layer, or nothing if there is none, on the second; reading takes the same lines in the same way")
    for b in prog.find(name="set_label_option", impl_trait="LabelStore"):
        f = flat(prog, b, R=R)
        S = b.impl_self.split("::")[-1]
        C = conds(f)
        for c, opens, kind in filefx(f).writes:
            if kind != "write" or len(c.args) < 2:
                continue
            for g in formats(f, c.args[1]):
                ps = parts(f, g)
                if ps is None or not any(x[0] == "lit" and "\n" in x[1] for x in ps):
                    continue
                lines = [[]]
                for x in ps:
                    if x[0] == "lit":
                        for i, s in enumerate(x[1].split("\n")):
                            if i:
                                lines.append([])
                            if s:
                                lines[-1].append(("lit", s))
                    else:
                        lines[-1].append(x)
                R.ob("text", S + ":lines", len(lines) in (2, 3) and (len(lines) < 3 or not lines[2]), "the text of a label has %d lines" % len(lines), f.loc(g.nid))
                v = lines[0]
                ok = len(v) == 1 and v[0][0] == "arg" and v[0][1] == "display" and v[0][5] and v[0][3] is None and is_bump(f, f.origins(v[0][2]), True)
                R.ob("text", S + ":version", ok, "the first line of the text is not the raised version", f.loc(g.nid))
                l = lines[1] if len(lines) > 1 else []
                if not l:
                    none = any(a[0] == "variant" and a[1][0] == "param" and a[1][1] == 3 and a[2] == ("None",)
                               or a[0] == "is" and a[2] == "None"
                               or a[0] == "bool" and a[1][0] == "call" and f.callof(a[1]).name in ("is_none", "is_some") and a[2] == (f.callof(a[1]).name == "is_none")
                               for a in C.facts(g.nid))
                    R.ob("text", S + ":none", none, "a text without a layer is written although there may be one", f.loc(g.nid))
                else:
                    ok = len(l) == 1 and l[0][0] == "arg" and l[0][1] == "display" and l[0][5] and any(t[0] == "param" and t[1] == 3 for t in f.leaves(l[0][2]))
                    R.ob("text", S + ":layer", ok, "the second line of the text is not the requested layer", f.loc(g.nid))
    name = {x.id for x in prog.bodies.values() if x.name == "string_to_name" and x.kind == "Fn"}
    for b in prog.find(name="get_label", impl_trait="LabelStore") + prog.find(name="labels", impl_trait="LabelStore") + [x for x in prog.bodies.values() if x.name == "open" and (x.impl_self or "").endswith("LabelStore")]:
        f = flat(prog, b, opaque=name, R=R)
        S = short(b)
        for c in f.callsites:
            if c.nid not in f.reach:
                continue
            if c.name == "from_str_radix":
                R.ob("text", S + ":read version", num(sym(f).arg(c, 1)) == 10, "the version is not read as a decimal number", f.loc(c.nid))
                R.ob("text", S + ":version line", pick(f, c.args[0]) in (None, 0), "the version is read from line %s" % pick(f, c.args[0]), f.loc(c.nid))
            elif c.path in name or c.target in name:
                R.ob("text", S + ":layer line", pick(f, c.args[0]) in (None, 1), "the layer is read from line %s" % pick(f, c.args[0]), f.loc(c.nid))
    R.floor("text", 6)
