"""Forward symbolic evaluation of pure values over a flattened graph: what a
path, a string or an offset is made of, in terms of the parameters, at a node.

Values: ("in", i, path) | ("k", v) | ("f", name, args...) | ("bin", op, a, b) |
        ("un", op, a) | ("join", base, seg) | ("call", nid, path) | ("top",)
"""
from mir import PAYLOAD_VARIANTS, type_head

TOP = ("top",)
IDENT = {"clone", "to_owned", "as_ref", "deref", "into", "from", "borrow", "as_path", "as_str", "to_path_buf", "into_future", "must_use", "as_mut",
         "deref_mut", "as_bytes", "to_string", "as_os_str", "into_boxed_path", "into_string", "to_vec", "as_slice", "iter", "into_iter", "by_ref", "new_unchecked", "borrow_mut",
         "into_os_string", "cloned", "copied", "as_deref", "to_bytes", "as_deref_mut"}
PURE = {"to_str", "strip_suffix", "trim_end_matches", "to_string_lossy", "name_to_string", "string_to_name", "index", "with_extension", "with_file_name", "parent", "format", "new_display", "new_debug", "new", "len", "min", "max", "get", "file_name", "chunk",
        "remaining", "start", "end", "slice", "entry", "split_at", "file_stem", "extension", "from_parts", "is_present", "file_index", "rank1", "sub", "add", "saturating_sub", "checked_sub",
        "checked_add", "inner", "count_ones", "pow", "leading_zeros", "num_entries", "trim", "path", "concat", "collect", "map", "eq", "ne", "into_bytes", "as_u64", "get_u64", "encode_lower",
        "join", "as_usize", "path_for_layer", "path_for_rollup", "unwrap_or", "unwrap_or_default", "ok", "is_some", "is_none", "to_ascii_lowercase", "chars", "take"}
UNWRAP = {"unwrap", "expect", "unwrap_unchecked"}


def proj(v, rest):
    """projection of a value"""
    for i, t in enumerate(rest):
        if v[0] in ("in", "call"):
            return v[:2] + (v[2] + tuple(rest[i:]),)
        if v == TOP:
            return TOP
        if v[0] == "bin" and t == "0":
            continue
        v = ("f", "." + str(t), v)
    return v


class Sym:
    def __init__(self, f):
        self.f = f
        self.inn = {}
        self.run()

    # state: {(vid, path): value}; ("&", vid): (vid, path) alias of a mutable reference
    def read(self, st, vid, path):
        for i in range(len(path), -1, -1):
            v = st.get((vid, path[:i]))
            if v is not None:
                if v[0] == "aggr":
                    if i == len(path):
                        return self.rebuild(st, vid, path, v)
                    return TOP
                return proj(v, path[i:])
        al = st.get(("&", vid))
        if al is not None:
            return self.read(st, al[0], al[1] + path)
        return ("undef", vid, path) if not any(k[0] == vid for k in st) else TOP

    def rebuild(self, st, vid, path, v):
        fs = tuple((k[1][len(path)], self.read(st, vid, k[1])) for k in sorted(st, key=str) if k[0] == vid and len(k[1]) == len(path) + 1 and k[1][:len(path)] == path)
        return ("agg", v[1], fs)

    def op(self, st, o):
        if o[0] == "p":
            return self.read(st, o[1], tuple(t if not isinstance(t, tuple) else ("idx", self.read(st, t[1], ())) for t in o[2]))
        k = o[1]
        if "fn" in k:
            return ("fn", k["fn"]["path"])
        if "def" in k:
            return ("k", k.get("v", k["def"]))
        return ("k", k.get("v", k.get("s")))

    def resolve(self, st, d):
        """the place behind an assignment through a reference"""
        seen = 0
        while ("&", d[0]) in st and d[1] and seen < 8 and self.f.vtype[d[0]].startswith("&"):
            a = st[("&", d[0])]
            d = (a[0], a[1] + d[1])
            seen += 1
        return d

    def kill(self, st, vid, path):
        for k in [k for k in st if k[0] == vid and k[1][:len(path)] == path]:
            del st[k]
        st.pop(("&", vid), None) if not path else None

    def copy(self, st, src, dst):
        """copy a place with everything below it"""
        vid, path = src
        al = st.get(("&", vid))
        n = 0
        while al is not None and not any(k[0] == vid for k in st if k[0] != "&") and n < 8:
            vid, path = al[0], al[1] + path
            al = st.get(("&", vid))
            n += 1
        sub = {k[1][len(path):]: v for k, v in st.items() if k[0] == vid and k[1][:len(path)] == path}
        base = None
        if () not in sub:
            base = self.read(st, vid, path)
        alias = st.get(("&", src[0])) if not src[1] else None
        self.kill(st, dst[0], dst[1])
        for p, v in sub.items():
            st[(dst[0], dst[1] + p)] = v
        if base is not None and base[0] != "undef":
            st[(dst[0], dst[1])] = base
        if alias is not None and not dst[1]:
            st[("&", dst[0])] = alias

    def set(self, st, d, v):
        self.kill(st, d[0], d[1])
        st[d] = v

    def assign(self, st, d, rv, nid):
        k = rv[0]
        if k != "dead":
            d = self.resolve(st, d)
        if k == "dead":
            pass    # futures read what they captured after the frame's storage is gone
        elif k == "use":
            o = rv[1]
            if o[0] == "p" and not any(isinstance(t, tuple) for t in o[2]):
                self.copy(st, (o[1], o[2]), d)
            else:
                self.set(st, d, self.op(st, o))
        elif k == "ref":
            pl = rv[2]
            if rv[1] == "mut" and not any(isinstance(t, tuple) for t in pl[1]):
                self.kill(st, d[0], d[1])
                t = pl
                if ("&", pl[0]) in st:
                    a = st[("&", pl[0])]
                    t = (a[0], a[1] + pl[1])
                st[("&", d[0])] = t
            else:
                o = ("p", pl[0], pl[1], False)
                self.assign(st, d, ("use", o), nid)
        elif k == "bin":
            a, b = self.op(st, rv[2]), self.op(st, rv[3])
            self.set(st, d, ("bin", rv[1].replace("WithOverflow", "").replace("Unchecked", ""), a, b))
        elif k == "un":
            self.set(st, d, ("un", rv[1], self.op(st, rv[2])))
        elif k == "agg":
            vals = []
            tag = rv[1]
            names = rv[3] if len(rv) > 3 and rv[3] else [str(i) for i in range(len(rv[2]))]
            var = tag[2] if tag[0] == "adt" and len(tag) > 2 else None
            tmp = {}
            for nm, o in zip(names, rv[2]):
                if tag[0] in ("coroutine", "closure"):
                    nm = "^" + nm
                tok = PAYLOAD_VARIANTS[var] if var in PAYLOAD_VARIANTS and nm == "0" else nm
                if var and var not in PAYLOAD_VARIANTS and tag[1].split("::")[-1] != var:
                    tok = var + "." + nm
                key = (-nid - 1000, (tok,))
                tmp[tok] = o
            saved = dict(st)
            self.kill(st, d[0], d[1])
            st[d] = ("aggr", tag)
            for tok, o in tmp.items():
                if o[0] == "p" and not any(isinstance(t, tuple) for t in o[2]):
                    st2 = dict(saved)
                    self.copy(st2, (o[1], o[2]), (-1, ()))
                    for kk, v in st2.items():
                        if kk[0] == -1:
                            st[(d[0], d[1] + (tok,) + kk[1])] = v
                else:
                    st[(d[0], d[1] + (tok,))] = self.op(saved, o)
        elif k == "discr":
            self.set(st, d, ("discr", self.read(st, rv[1][0], rv[1][1])))
        else:
            self.set(st, d, TOP)

    def target(self, st, o):
        """the place a mutable reference operand points at"""
        if o[0] != "p":
            return None
        al = st.get(("&", o[1]))
        if al is not None:
            return (al[0], al[1] + o[2])
        if self.f.vtype[o[1]].startswith("&mut"):
            return (o[1], o[2])
        return None

    def call(self, st, c):
        f = self.f
        d = self.resolve(st, c.dest)
        nm = c.name
        if c.fn is None:
            self.set(st, d, ("call", c.nid, ()))
            return
        args = [self.op(st, a) for a in c.args]
        if nm in ("push", "set_file_name", "set_extension", "pop", "push_str") and ("Path" in c.path or "String" in c.path or "OsString" in c.path):
            t = self.target(st, c.args[0])
            if t is not None:
                v = self.read(st, t[0], t[1])
                if nm == "push":
                    v = ("join", v, args[1]) if v != TOP else TOP
                elif nm == "pop":
                    v = v[1] if v[0] == "join" else ("f", "parent", v)
                elif nm == "set_file_name" and v[0] == "join":
                    v = ("join", v[1], args[1])
                elif nm == "push_str":
                    v = ("cat", v, args[1])
                else:
                    v = ("f", {"set_extension": "with_extension"}.get(nm, nm), v, args[1])
                self.set(st, t, v)
                self.set(st, d, ("call", c.nid, ()))
                return
        if nm == "join" and "Path" in c.path:
            self.set(st, d, ("join", args[0], args[1]))
            return
        if nm == "parent" and "Path" in c.path and args[0][0] == "join":
            self.kill(st, d[0], d[1])
            st[d] = ("aggr", ("adt", "std::option::Option", "Some"))
            st[(d[0], d[1] + ("!",))] = args[0][1]
            return
        if nm == "new" and ("PathBuf" in c.path or "String" in c.path) and not c.args:
            self.set(st, d, ("empty",))
            return
        if nm in UNWRAP or nm == "branch":
            a = c.args[0]
            if a[0] == "p":
                self.copy(st, (a[1], a[2] + ("!",)), (d[0], d[1] + (("!",) if nm == "branch" else ())))
            else:
                self.set(st, d, TOP)
            return
        if nm in ("map_err", "ok_or", "ok_or_else") and c.args and c.args[0][0] == "p":
            self.copy(st, (c.args[0][1], c.args[0][2] + ("!",)), (d[0], d[1] + ("!",)))
            return
        if nm in IDENT or nm == "new" and c.args and len(c.args) == 1 and ("Path" in c.path or "Box" in c.path or "Pin" in c.path or "Cursor" in c.path):
            if c.args and c.args[0][0] == "p":
                self.copy(st, (c.args[0][1], c.args[0][2]), d)
                return
            if c.args:
                self.set(st, d, args[0])
                return
        # anything else that gets a mutable reference may change what is behind it
        for a in c.args:
            t = self.target(st, a)
            if t is not None and ("&", a[1]) in st:
                v = st.get(t)
                if nm not in ("next", "poll", "branch"):
                    self.kill(st, t[0], t[1])
                    st[t] = ("call", c.nid, ("mut",))
        if nm in PURE:
            g = ("f", nm) + tuple(args)
            self.set(st, d, g)
        else:
            self.set(st, d, ("call", c.nid, ()))

    def transfer(self, nid, st):
        f = self.f
        n = f.nodes[nid]
        st = dict(st)
        late = []
        for d, rv, line in n.stmts:
            self.assign(st, d, rv, nid)
        if n.kind == "call" and n.call is not None and not n.call.inlined:
            self.call(st, n.call)
        elif n.kind == "await" or n.kind == "enter" and n.term and n.term[0] == "await":
            if n.kind == "await":
                d = f.pl(n.ctx, n.term[2])
                o = f.opnd(n.ctx, n.term[1])
                v = self.op(st, o)
                self.kill(st, d[0], d[1])
                st[(d[0], d[1] + ("!",))] = v if v[0] == "call" else v
        return st

    def run(self):
        f = self.f
        st = {}
        for i in range(1, f.entry.argc + 1):
            st[(i, ())] = ("in", i, ())
        self.inn = {f.xnode[0]: st}
        work = [f.xnode[0]]
        cnt = {}
        while work:
            x = work.pop()
            cnt[x] = cnt.get(x, 0) + 1
            if cnt[x] > 60:
                continue
            out = self.transfer(x, self.inn[x])
            for s, lab in f.nodes[x].succ:
                if s not in f.reach:
                    continue
                cur = self.inn.get(s)
                if cur is None:
                    self.inn[s] = dict(out)
                    work.append(s)
                    continue
                ch = False
                for k, v in out.items():
                    o = cur.get(k)
                    if o is None:
                        cur[k] = v
                        ch = True
                    elif o != v and o != TOP:
                        if k[0] == "&":
                            del cur[k]
                            cur[(k[1], ())] = TOP
                        else:
                            cur[k] = TOP
                        ch = True
                if ch:
                    work.append(s)

    def at(self, nid, o):
        """value of an operand where node nid's terminator runs"""
        st = self.inn.get(nid)
        if st is None:
            return TOP
        st = dict(st)
        for d, rv, line in self.f.nodes[nid].stmts:
            self.assign(st, d, rv, nid)
        return self.op(st, o)

    def arg(self, c, i):
        return self.at(c.nid, c.args[i])


def sym(f):
    if not hasattr(f, "_sym"):
        f._sym = Sym(f)
    return f._sym


def segs(v):
    """(base, [segments]) of a path value"""
    out = []
    while v[0] == "join":
        out.insert(0, v[2])
        v = v[1]
    return v, out


def template(k):
    """pieces of a compiled format string: literals and (argument number, plain?)"""
    import ast
    try:
        b = ast.literal_eval(k)
    except (SyntaxError, ValueError):
        return None
    out, i, arg = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            return out if i == len(b) else None
        if c < 0x80 or c == 0x80:
            n = c
            if c == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(("lit", b[i:i + n].decode("utf8", "replace")))
            i += n
        elif c >= 0xC0:
            plain = True
            if c & 1:
                i += 4
                plain = False
            if c & 2:
                i += 2
                plain = False
            if c & 4:
                i += 2
                plain = False
            if c & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            if c & 0x30:
                plain = False
            out.append(("arg", arg, plain))
            arg += 1
        else:
            return None
    return None


def pieces(v):
    """a text value as a list of ("lit", text) and ("val", value), or None"""
    if v[0] == "k" and isinstance(v[1], str):
        return [("lit", v[1])]
    if v[0] == "f" and v[1] in ("into_bytes", "into", "to_string", "to_owned", "as_str", "as_bytes", "from", "new_display", "must_use") and len(v) == 3:
        return pieces(v[2])
    if v[0] == "f" and v[1] == "format" and len(v) == 3:
        n = v[2]
        if n[0] == "f" and n[1] == "new" and len(n) == 4 and n[2][0] == "k" and n[3][0] == "agg":
            t = template(n[2][1])
            if t is None:
                return None
            args = [x[1] for x in n[3][2]]
            out = []
            for x in t:
                if x[0] == "lit":
                    out.append(x)
                elif x[1] < len(args) and x[2]:
                    q = pieces(args[x[1]]) if args[x[1]][:2] == ("f", "new_display") else None
                    if q is None:
                        return None
                    out.extend(q)
                else:
                    return None
            return out
        if n[0] == "f" and len(n) == 3:
            return pieces(n[2])
        return None
    if v[0] == "top" or v[0] == "undef":
        return None
    return [("val", v)]
