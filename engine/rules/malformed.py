"""P24: what is read from the store or out of a pack is checked before the
program relies on it; malformed content gives an error, not a panic."""
from collections import deque
import re
from rules.lib import *
from rules.valex import Ev, lin, plus, one, num
from rules.archive import loc
import flow
from qlib import split_args
from flow import edges_where
from qlib import conds

# calls that bring in stored or imported content
READERS = {"read_exact", "read_to_end", "read_to_string", "read_buf", "read", "read_vectored", "read_line", "read_until", "read_u8", "read_i8", "read_u16", "read_u32", "read_u64", "read_u64_le", "read_u32_le",
           "read_u128", "read_i32", "read_i64", "file_name", "next_entry", "entries", "next_line", "lines", "fill_buf", "bytes", "get_layer_bytes", "get_layer_structure_bytes", "map", "map_if_exists",
           "map_all", "peek"}
UNWRAP = {"unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked"}
INDEX = {"index", "index_mut"}
CUT = {"slice", "split_to", "split_off", "advance", "split_at", "split_at_mut", "copy_to_bytes", "copy_to_slice", "copy_from_slice", "slice_ref", "clone_from_slice", "remove", "swap_remove", "drain"}
GET = {"get_u8": 1, "get_i8": 1, "get_u16": 2, "get_u32": 4, "get_u64": 8, "get_i64": 8, "get_u64_le": 8, "get_u32_le": 4, "get_u128": 16, "get_i32": 4}
ALLOC = {"with_capacity", "reserve", "reserve_exact", "from_elem", "zeroed", "resize", "set_len"}
PANIC = {"panic", "panic_fmt", "begin_panic", "panic_display", "panic_explicit", "unreachable_display", "assert_failed", "assert_failed_inner", "panic_cold_display", "panic_str_2015", "unreachable", "abort", "exit"}
CONTENT = re.compile(r"^(&('\w+ )?(mut )?)*(str|\[u8\]|Bytes|bytes::Bytes|bytes::BytesMut|String|std::string::String|Vec<u8>|std::vec::Vec<u8>)$")
STREAM = re.compile(r"^(&('\w+ )?(mut )?)*[A-Z]\w?$")


NAME = re.compile(r"^(&('\w+ )?(mut )?)*\[u32; 5\]$")


def content(ty):
    return bool(CONTENT.match(ty.strip()))


WEAK = {"map", "map_if_exists", "map_all"}
# types of values that content is converted to, directly or in a Result / an Option
DATA = re.compile(r"^(&('\\w+ )?(mut )?)*(str|\[u8\]|String|std::string::String|u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|isize|char|\[u32; 5\]|\[u8; \d+\]|Bytes|bytes::Bytes|bytes::BytesMut|std::vec::Vec<u8>|"
                  r"std::ffi::OsStr|std::ffi::OsString|std::path::Path|std::path::PathBuf|std::path::Component.*|std::borrow::Cow<.*>|storage::consts::LayerFileEnum|storage::label::Label|.*ArchiveHeader|.*LogArray|\(.*ArchiveHeader.*\)|"
                  r"\(.*LogArray.*\)|storage::archive::Archive|.*FilePresenceHeader|\(\)|&?'?\w*tar::.*|std::vec::Vec<\[u32; 5\]>)$")


class Taint:
    """which values depend on what was read"""

    def __init__(self, f, params):
        self.f, self.params = f, params
        self.memo = {}

    def muts(self, o):
        ty = self.f.vtype[o[1]] if o[0] == "p" else ""
        return not re.search(r"\bFile\b|LockedFile|Take<|Decoder|dyn |Self::|::File|Archive<|Entries<|Entry<", ty)

    def source(self, t):
        f = self.f
        if t[0] == "param":
            return t[1] in self.params
        if t[0] in ("call", "mut"):
            c = f.callof(t)
            return c is not None and c.name in READERS and not c.inlined and not re.search(r"option::Option|result::Result|iter::|RwLock|OpenOptions|fs::File>?::|HashMap", c.path)
        return False

    def of(self, op, depth=10):
        """the content a value depends on, or None"""
        f = self.f
        key = op[:3] if op[0] == "p" else str(op)
        if key in self.memo:
            return self.memo[key]
        seen = set()
        get = lambda o, d: [(t, d) for t in f.origins(o, self.muts(o))]
        work = deque(get(op, depth) if op[0] in ("p", "k") else [(op, depth)])
        r = None
        while work and r is None:
            t, d = work.popleft()
            if t in seen:
                continue
            seen.add(t)
            if self.source(t):
                r = t
                break
            if d <= 0:
                continue
            k = t[0]
            ops = []
            if k in ("call", "residual", "mut"):
                c = f.callof(t)
                if c is None:
                    continue
                if c.name in ("write", "poll_write"):
                    continue
                ops = [a for a in c.args if not (a[0] == "p" and not a[2] and NAME.match(f.vtype[a[1]]))]
                for ai, o in getattr(f, "closure_results", {}).get(c.nid, []):
                    work += [(x, d - 1) for x in f.res(o, (), True)]
            elif k in ("agg", "expr"):
                rv = f.stmt(t)
                ops = rv[2] if rv[0] == "agg" else [rv[2], rv[3]] if rv[0] == "bin" else [rv[2]] if rv[0] == "un" else [("p", rv[1][0], rv[1][1], False)] if rv[0] == "discr" else [rv[1]] if rv[0] == "repeat" else []
            elif k == "part":
                for dp, kind, payload, nid in f.defs[t[1]]:
                    if nid == t[2] and kind == "use":
                        ops.append(payload)
            for o in ops:
                work += get(o, d - 1)
        self.memo[key] = r
        return r


def inner_types(ty):
    """T (and E) of Option<T> / Result<T, E>, through references"""
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty.strip())
    if type_head(ty) in ("Option", "Result"):
        return split_args(ty)
    return [ty]


class Sinks:
    def __init__(self, R, f, e, T):
        self.R, self.f, self.e, self.T = R, f, e, T
        self.C = conds(f)
        self.all = None

    # -- conditions ---------------------------------------------------------
    def edges(self):
        if self.all is None:
            f = self.f
            self.all = [(x, lab, self.C.edge(x, lab, 3)) for x in f.reach if f.nodes[x].kind == "switch" for s, lab in f.nodes[x].succ]
        return self.all

    def only_after(self, nid, pred):
        """nid is reached only over edges that imply an atom satisfying pred"""
        z = {(x, lab) for x, lab, ats in self.edges() if any(pred(a) for a in ats)}
        if not z:
            return False
        if nid not in self.f.from_start(avoid_edges=z):
            return True
        return nid not in flow.explore_from_start(self.f, lambda n, l, s: (n, l) in z)

    def roots(self, op):
        return {t[:2] + tuple(t[2:3]) for t in self.f.origins(op) if t[0] not in ("part", "mut", "residual")}

    def callsof(self, op):
        return [c for c in (self.f.callof(t) for t in self.f.origins(op) if t[0] == "call" or t[0] == "expr") if c is not None] if op[0] == "p" else []

    def length_of(self, op, roots):
        """is this operand the length of the value with these roots?"""
        return any(c.name in ("len", "remaining", "count") and c.args and self.roots(c.args[0]) & roots for c in self.callsof(op)) or \
            op[0] == "p" and any(t[0] == "expr" and self.f.stmt(t)[0] in ("un", "len") and any(self.roots(x) & roots for x in self.f.stmt(t)[1:] if isinstance(x, tuple) and x and x[0] == "p") for t in self.f.origins(op))

    def at_least(self, roots, need, nid):
        """the value's length is known to be at least `need` (a linear form)"""
        f, e = self.f, self.e

        def enough(op, add):
            ls = {lin(x) for x in e.op(op)}
            return bool(ls) and all(nonneg(plus((1, l), (1, num(add)), (-1, need))) for l in ls)

        def pred(a):
            if a[0] == "eq" and a[3]:
                return self.length_of(a[1], roots) and enough(a[2], 0) or self.length_of(a[2], roots) and enough(a[1], 0)
            if a[0] == "ord":
                return self.length_of(a[3], roots) and enough(a[2], 1 if a[1] == "Lt" else 0)
            if a[0] == "int" and a[3]:
                return self.length_of(a[1], roots) and nonneg(plus((1, num(a[2])), (-1, need)))
            return self.pattern(a, roots, need)
        return self.only_after(nid, pred)

    def pattern(self, a, roots, need):
        """starts_with / ends_with a constant of at least that length"""
        if a[0] != "bool" or not a[2]:
            return False
        c = self.f.callof(a[1]) if a[1][0] == "call" else None
        if c is None or c.name not in ("starts_with", "ends_with") or not self.roots(c.args[0]) & roots:
            return False
        for x in self.e.op(c.args[1]):
            s = x[1] if x[0] == "k" else None
            if isinstance(s, str) and not need[0] and len(s.strip('"')) >= need[1]:
                return True
        return False

    def charset(self, roots, nid, need=None):
        def pred(a):
            if a[0] != "bool" or not a[2]:
                return False
            c = self.f.callof(a[1]) if a[1][0] == "call" else None
            if c is None or not c.args:
                return False
            if c.name in ("is_ascii", "is_char_boundary", "all", "starts_with", "ends_with"):
                return any(self.roots(x) & roots for x in c.args) or any(u in roots for x in c.args for u in self.deep(x))
            return False
        return self.only_after(nid, pred)

    def deep(self, op):
        return {t[:2] + tuple(t[2:3]) for t in self.f.leaves(op, 4)}

    def is_some(self, op, nid):
        f = self.f
        terms = {t for t in f.origins(op) if t[0] not in ("part", "mut")}
        made = lambda t: t[0] == "agg" and not t[3] and f.stmt(t)[1][0] == "adt" and f.stmt(t)[1][2] in ("Some", "Ok")
        if terms and all(made(t) for t in terms):
            return True
        args = [a for c in self.callsof(op) for a in c.args]
        ar = set().union(*[self.roots(a) for a in args]) if args else set()

        def pred(a):
            if a[0] == "variant":
                return a[1] in terms and set(a[2]) <= {"Some", "Ok", "Continue"}
            if a[0] == "bool" and a[2] and a[1][0] == "call":
                c = f.callof(a[1])
                return c is not None and c.name in ("contains", "contains_key") and len(c.args) > 1 and bool(self.roots(c.args[1]) & ar)
            return False
        return bool(terms) and self.only_after(nid, pred)

    def listed(self, c):
        """a part of the name of a directory entry, which always has one; it is text if it was found to be"""
        f = self.f
        part = [d for d in self.callsof(c.args[0])]
        if not part or any(d.name not in ("file_stem", "file_name", "to_str") or "path::" not in d.path and "OsStr" not in d.path for d in part):
            return False
        ent = lambda op: {t[1] for t in f.leaves(op, 8) if t[0] == "call" and f.callof(t).name == "next_entry"}
        for d in part:
            es = ent(d.args[0])
            if not es or not any(t[0] == "call" and f.callof(t).name == "path" for t in f.leaves(d.args[0], 6)):
                return False
            if d.name == "to_str" and not self.only_after(c.nid, lambda a: a[0] == "variant" and set(a[2]) <= {"Some", "Ok", "Continue"} and a[1][0] == "call" and (f.callof(a[1]).name in ("to_str", "into_string", "ok_or_else", "ok_or") or f.callof(a[1]).name == "file_name" and "Some" not in a[2]) and ent(f.callof(a[1]).args[0]) & es):
                return False
        return True

    def bounded(self, op, nid, depth=4):
        """an amount that is not content, or that was compared with something that is not"""
        f, T = self.f, self.T
        if op[0] != "p" or T.of(op) is None:
            return True
        terms = {t for t in f.origins(op) if t[0] not in ("part", "mut", "residual")}

        def pred(a):
            if a[0] == "ord":
                return self.same(a[2], terms) and T.of(a[3]) is None
            if a[0] == "eq" and a[3]:
                return self.same(a[1], terms) and T.of(a[2]) is None or self.same(a[2], terms) and T.of(a[1]) is None
            return False
        if self.only_after(nid, pred):
            return True
        if not depth or not terms:
            return False
        for t in terms:
            if t[0] == "const":
                continue
            if t[0] == "expr" and f.stmt(t)[0] == "bin" and f.stmt(t)[1].split("With")[0].split("Unch")[0] in ("Add", "Mul", "Div", "Rem", "Shr", "BitAnd", "Sub"):
                rv = f.stmt(t)
                op1 = rv[1].split("With")[0].split("Unch")[0]
                if op1 in ("Div", "Shr", "Sub"):
                    if not self.bounded(rv[2], nid, depth - 1):
                        return False
                elif op1 in ("Rem", "BitAnd"):
                    if not (self.bounded(rv[2], nid, depth - 1) or self.bounded(rv[3], nid, depth - 1)):
                        return False
                elif not (self.bounded(rv[2], nid, depth - 1) and self.bounded(rv[3], nid, depth - 1)):
                    return False
                continue
            c = f.callof(t) if t[0] == "call" else None
            if c is not None and c.name == "min" and any(self.bounded(a, nid, depth - 1) for a in c.args):
                continue
            if c is not None and c.name in ("len", "remaining", "count", "count_ones"):
                continue
            if c is not None and c.name == "logarray_length_from_control_word" and self.word(nid):
                continue
            return False
        return True

    def same(self, op, terms):
        return op[0] == "p" and bool({t for t in self.f.origins(op) if t[0] not in ("part", "mut", "residual", "const")} & terms)

    def word(self, nid):
        """both parts of a control word are bounded"""
        f = self.f
        ok = {"0": False, "1": False}
        for part in ok:
            def pred(a):
                if a[0] != "ord" or a[2][0] != "p" or self.T.of(a[3]) is not None:
                    return False
                return any(t[0] == "call" and f.callof(t).name == "parse_control_word" and tuple(t[2]) == (part,) for t in f.origins(a[2]))
            ok[part] = self.only_after(nid, pred)
        return all(ok.values())

    def capacity(self, op, nid):
        """linear forms of what the buffer was last sized to"""
        f = self.f
        roots = {t[1] for t in f.origins(op) if t[0] == "call"}
        cs = [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name in ("resize", "set_len", "from_elem", "zeroed")]
        mine = []
        for c in cs:
            if c.name in ("resize", "set_len"):
                if {t[1] for t in f.origins(c.args[0]) if t[0] == "call"} & roots:
                    mine.append((c, c.args[1]))
            elif c.nid in roots:
                mine.append((c, c.args[-1]))
        mine = [(c, a) for c, a in mine if nid in f.after(c.nid) and f.always_before(nid, [c.nid])]
        last = [(c, a) for c, a in mine if not any(d is not c and d.nid in f.after(c.nid) for d, _ in mine)]
        return {lin(x) for x in self.e.op(last[0][1])} if len(last) == 1 else set()

    # -- sinks ---------------------------------------------------------------
    def within(self, recv, hi, nid, ty, text):
        """position(s) hi of recv are inside it"""
        f, T = self.f, self.T
        roots = self.roots(recv)
        for l in hi:
            atoms = dict(l[0])
            own = [a for a in atoms if a[0] == "f" and a[1] in ("len", "remaining")]
            if len(own) == 1 and atoms[own[0]] == 1 and len(atoms) == 1 and l[1] <= 0:
                # counted from its end
                need = num(-l[1])
                if l[1] and not (self.at_least(roots, need, nid) or self.pattern_only(roots, need, nid)):
                    return "nothing makes sure that it is at least %d long" % -l[1]
                if text and l[1] and not self.charset(roots, nid):
                    return "nothing makes sure that this is a character boundary"
                continue
            if any(x[0] == "f" and x[1] in ("find", "rfind", "position", "rposition", "memchr") for x in atoms):
                continue
            if not l[0] and not l[1]:
                continue
            cap = self.capacity(recv, nid)
            if cap and all(nonneg(plus((1, c), (-1, l))) for c in cap):
                continue
            if not self.at_least(roots, l, nid):
                return "nothing makes sure that it is long enough"
            if text and not self.charset(roots, nid):
                return "nothing makes sure that this is a character boundary"
        return None

    def pattern_only(self, roots, need, nid):
        return self.only_after(nid, lambda a: self.pattern(a, roots, need))

    def check(self, c):
        """None: not a sink; "" fine; otherwise what is wrong"""
        f, e, T = self.f, self.e, self.T
        if c.name in UNWRAP and re.search("option::Option|result::Result", c.path):
            ty = self.ty(c.args[0])
            head = type_head(re.sub(r"^(&('\w+ )?(mut )?)+", "", ty))
            its = inner_types(ty)
            if not any(DATA.match(x) for x in its[:1]):
                return None
            src = T.of(c.args[0])
            if src is None or self.weak(src):
                return None
            if NAME.match(its[0]) and any(d.name in ("pop", "last", "first", "next") for d in self.callsof(c.args[0])):
                return None
            return "" if self.listed(c) else "" if self.is_some(c.args[0], c.nid) else "%s panics if it is malformed" % c.name
        if c.name in INDEX and len(c.args) == 2:
            r, i = c.args
            ty = self.ty(r)
            if T.of(r) is None and T.of(i) is None:
                return None
            if re.search(r"\b(HashMap|BTreeMap|phf::Map|Map)<", ty) or re.search(r"\b(HashMap|BTreeMap|phf::Map|Map)\b", c.self_ty or ""):
                ks = self.roots(i)
                src = T.of(i)
                if src is None:
                    return None
                good = self.only_after(c.nid, lambda a: a[0] == "bool" and a[2] and a[1][0] == "call" and f.callof(a[1]).name in ("contains_key", "contains") and bool(self.roots(f.callof(a[1]).args[1]) & ks))
                return "" if good else "there may be no such entry"
            st = c.self_ty or ""
            if not (content(st) or content(ty) or re.search(r"\bVec<|\[&?str\]|\[.*String\]|^str$|String$|Bytes|\[u8\]", st + " " + ty)):
                return None
            src = T.of(r) or T.of(i)
            if self.weak(src) and not (content(st) or content(ty)):
                return None
            text = bool(re.search(r"\bstr\b|String", st)) and "Vec" not in st and "[" not in st
            hi = self.top(i)
            if hi is None:
                return "" if T.of(i) is None else "nothing makes sure that it is long enough"
            return self.within(r, hi, c.nid, st, text) or ""
        if c.name in CUT and len(c.args) >= 1 and not re.search(r"HashMap|HashSet|fs::|BTree|Lru", c.path):
            if len(c.args) < 2 or T.of(c.args[0]) is None and T.of(c.args[1]) is None:
                return None
            if c.name in ("copy_from_slice", "clone_from_slice", "copy_to_slice"):
                return None
            src = T.of(c.args[0]) or T.of(c.args[1])
            hi = self.top(c.args[1])
            if hi is None or any(l[0] for l in hi):
                if T.of(c.args[1]) is None:
                    return None
                if hi and all(any(x[0] == "f" and x[1] == "entry" for x, n in l[0]) or not l[0] for l in hi):
                    return None      # offsets of a header: rule header
                if any(f.callof(t).name == "range_for" for t in f.origins(c.args[1]) if t[0] == "call" and f.callof(t) is not None) or hi and any(x[0] == "f" and x[1] == "range_for" for l in hi for x, n in l[0]):
                    return None
            if hi is None:
                return "nothing makes sure that it is long enough"
            ty = self.ty(c.args[0])
            return self.within(c.args[0], hi, c.nid, ty, bool(re.search(r"\bstr\b|String", ty))) or ""
        if c.name in GET and re.search(r"\bBuf\b|bytes::", c.path):
            if T.of(c.args[0]) is None:
                return None
            roots = self.roots(c.args[0])
            return "" if self.at_least(roots, num(GET[c.name]), c.nid) else "nothing makes sure that there are %d bytes" % GET[c.name]
        if c.name in ALLOC and len(c.args) >= 1:
            a = c.args[-1] if c.name in ("with_capacity", "reserve", "reserve_exact", "set_len", "from_elem", "zeroed") else c.args[1]
            src = T.of(a)
            if src is None or self.weak(src):
                return None
            return "" if self.bounded(a, c.nid) else "as much memory is asked for as the content says"
        if c.name in PANIC and not f.nodes[c.nid].succ:
            return self.panics(c)
        return None

    def panics(self, c):
        f = self.f
        for x, lab in self.controls(c.nid):
            n = f.nodes[x]
            op = f.opnd(n.ctx, n.term[1])
            # what is kept in a table of the program was judged when it was put there
            kept = lambda c: c is not None and re.search(r"HashMap|HashSet|BTree|Lru|Mutex|RwLock|Atomic", c.path + " " + (c.self_ty or ""))
            if any(self.T.source(t) and not self.weak(t) for t in f.leaves(op, 6, False, kept)):
                return "it panics depending on content"
        return None

    def controls(self, nid):
        """switch edges after which nid is inevitable although it was not before"""
        f = self.f
        out = []
        work, seen = [nid], {nid}
        preds = self.preds()
        while work:
            y = work.pop()
            for x in preds.get(y, ()):
                if x in seen or x not in f.reach:
                    continue
                n = f.nodes[x]
                succ = {s for s, _ in n.succ if s in f.reach}
                if n.kind == "switch" and not succ <= seen:
                    out += [(x, lab) for s, lab in n.succ if s in seen]
                elif succ <= seen:
                    seen.add(x)
                    work.append(x)
        return out

    def preds(self):
        f = self.f
        if not hasattr(f, "_mpreds"):
            f._mpreds = {}
            for x in f.reach:
                for s, _ in f.nodes[x].succ:
                    f._mpreds.setdefault(s, []).append(x)
        return f._mpreds

    def weak(self, t):
        c = self.f.callof(t) if t[0] in ("call", "mut") else None
        return c is not None and c.name in WEAK

    def ty(self, o):
        f = self.f
        return f.vtype[o[1]] if o[0] == "p" and not o[2] else f.vtype[o[1]] if o[0] == "p" else ""

    def top(self, i):
        """how many elements have to be there: linear forms, or None if unknown"""
        ls = self.top0(i)
        return ls and set().union(*[self.at_last(l) for l in ls])

    def at_last(self, l, depth=3):
        """a form that depends on a counter of a range, in the last round"""
        f = self.f
        for a, n in l[0]:
            if depth and n > 0 and a[0] == "agg" and len(a) > 3 and a[3] == ("[]",):
                rv = f.stmt(a)
                if rv[1][0] == "adt" and "Range" in rv[1][1] and len(rv) > 3 and rv[3] and "end" in rv[3]:
                    ends = self.e.op(dict(zip(rv[3], rv[2]))["end"])
                    own = (((a, n),), 0)
                    if ends:
                        return set().union(*[self.at_last(plus((1, l), (-1, own), (n, lin(x)), (1, num(0 if "Inclusive" in rv[1][1] else -n))), depth - 1) for x in ends])
        return {l}

    def top0(self, i):
        e = self.e
        f = self.f
        if i[0] == "k":
            return {num(i[1]["int"] + 1)} if "int" in i[1] else None
        ts = [t for t in f.origins(i) if t[0] != "part"]
        out = set()
        ranged = False
        for t in ts:
            if t[0] == "agg":
                rv = f.stmt(t)
                if rv[1][0] == "adt" and "Range" in rv[1][1]:
                    ranged = True
                    nm = dict(zip(rv[3], rv[2]))
                    k = "end" if "end" in nm else "start" if "start" in nm else None
                    if k:
                        extra = 1 if "Inclusive" in rv[1][1] else 0
                        out |= {plus((1, lin(x)), (1, num(extra))) for x in e.op(nm[k])}
                    else:
                        out.add(num(0))
        if ranged:
            return out
        ty = f.vtype[i[1]]
        if ty in ("usize", "u64", "u32"):
            return {plus((1, lin(x)), (1, num(1))) for x in e.op(i)} if ty == "usize" else None
        return None


def bounds(S, n):
    """an array or slice access n: None if it is not one of content"""
    f, T = S.f, S.T
    t = n.term
    o = f.opnd(n.ctx, t[1])
    if o[0] != "p" or o[2]:
        return None
    for dp, kind, payload, nid in f.defs.get(o[1], []):
        if kind != "rv" or payload[0] != "bin" or payload[1] != "Lt":
            continue
        idx, ln = payload[2], payload[3]
        whole = [x for u in f.origins(ln) if u[0] == "expr" for x in f.stmt(u)[1:] if isinstance(x, tuple) and x and x[0] == "p"] if ln[0] == "p" else []
        src = T.of(idx) or next((T.of(w) for w in whole if T.of(w) is not None), None)
        if src is None or S.weak(src) or not n.ctx.body.file.startswith("src/storage/"):
            return None
        if ln[0] == "k" and (idx[0] == "k" or ln[1].get("int") in (8, 16, 32, 64, 128)):
            return None      # also the check of a shift
        hi = S.top(idx) if idx[0] == "k" or f.vtype[idx[1]] == "usize" else None
        if hi is None:
            return "nothing makes sure that it is long enough"
        roots = set().union(*[S.roots(w) for w in whole]) if whole else set()
        for l in hi:
            if ln[0] == "k" and any(x[0] == "bin" and x[1] in ("Rem", "BitAnd") for x, c in l[0]):
                continue
            if not S.at_least(roots, l, n.nid if hasattr(n, "nid") else nid):
                return "nothing makes sure that it is long enough"
        return ""
    return None


def checked_by(S, nid, dep):
    """some decision that depends on dep keeps the program from reaching nid"""
    f = S.f
    for x in f.reach:
        n = f.nodes[x]
        if n.kind != "switch":
            continue
        op = f.opnd(n.ctx, n.term[1])
        if not (nid in f.after(x)) or not dep(op):
            continue
        if any(s != nid and nid not in f.after(s) for s, lab in n.succ):
            return True
        z = {(x, lab) for s, lab in n.succ}
        for s, lab in n.succ:
            others = {y for y in z if y != (x, lab)}
            if nid not in flow.explore_from_start(f, lambda a, l, b: (a, l) in others) or nid not in flow.explore(f, [(s, st) for y, st in flow.start_states(f)][:1]):
                return True
    return False


def called(f, t, *names):
    return t[0] == "f" and t[1] in names or t[0] == "call" and f.callof(t).name in names


def entry_calls(f, op, offs, S):
    """does a condition look at two offsets?"""
    ls = f.leaves(op, 6)
    ids = {f.stmt(t)[1][1] for t in ls if t[0] == "agg" and f.stmt(t)[1][0] == "closure"}
    cs = [f.callof(t) for t in ls if t[0] == "call"] + [c for c in f.callsites if c.nid in f.reach and f.nodes[c.nid].ctx.body.id in ids]
    return any(c is not None and c.name in ("entry", "iter", "next", "windows") and c.args and bool((S.roots(c.args[0]) | S.deep(c.args[0])) & offs) for c in cs)


def headers(R, prog, S, b):
    """headers and archives put together from content"""
    f, T = S.f, S.T
    own = type_head(b.impl_self or "") in ("ArchiveHeader", "Archive") and not b.impl_trait
    for x in sorted(f.reach):
        for i, (d, rv, line) in enumerate(f.nodes[x].stmts):
            if rv[0] != "agg" or rv[1][0] != "adt" or len(rv) < 4 or not rv[3]:
                continue
            if not own and f.owner(x) != b.id:
                continue
            nm = dict(zip(rv[3], rv[2]))
            if rv[1][1].endswith("ArchiveHeader") and "file_offsets" in nm and T.of(nm["file_offsets"]) is not None:
                offs = S.roots(nm["file_offsets"])

                def count(a):
                    if a[0] == "ord" and S.length_of(a[3], offs):
                        op, add = a[2], 1 if a[1] == "Lt" else 0
                    elif a[0] == "eq" and a[3]:
                        op, add = (a[1] if S.length_of(a[2], offs) else a[2]), 0
                        if not (S.length_of(a[1], offs) or S.length_of(a[2], offs)):
                            return False
                    else:
                        return False
                    ls = {lin(v) for v in S.e.op(op)}
                    return bool(ls) and all(l[1] + add >= 0 and len(l[0]) == 1 and called(f, l[0][0][0], "count_ones", "rank1", "count", "len") for l in ls)
                R.ob("header", "offsets", S.only_after(x, count), "a header is accepted that may have fewer offsets than files; looking one up then panics", f.loc(x))
                ent = lambda op: entry_calls(f, op, offs, S)
                R.ob("header", "order", checked_by(S, x, lambda op: ent(op) or any(ent(a) for c in S.callsof(op) for a in c.args)), "a header is accepted whose offsets may decrease; the size of a file then is negative", f.loc(x))
            if rv[1][1].endswith("archive::Archive") and "data" in nm and T.of(nm["data"]) is not None:
                data = S.roots(nm["data"])
                ent = lambda op: any(t[0] == "call" and f.callof(t).name in ("entry", "range_for") for t in f.leaves(op, 6))
                if any(t[0] == "call" and f.callof(t).name == "entry" for t in f.leaves(nm["data"], 8)):
                    R.ob("header", "data", True, "", f.loc(x))      # read as far as the offsets go
                    continue
                lens = lambda op: S.length_of(op, data) or any(t[0] == "call" and f.callof(t).name in ("len", "remaining") and bool(S.roots(f.callof(t).args[0]) & data) for t in f.leaves(op, 5))
                R.ob("header", "data", checked_by(S, x, lambda op: ent(op) and lens(op)), "an archive is accepted whose offsets may lie beyond its data; a file taken out of it then panics", f.loc(x))


def nonneg(l):
    return l[1] >= 0 and all(n > 0 for _, n in l[0])


def parsers(prog):
    """public conversions are judged on their own; what they return is content"""
    return {b.id for b in prog.bodies.values() if b.kind == "Fn" and b.vis.startswith("Public") and b.file.startswith("src/storage/") and b.argc == 1 and content(b.locals[1])}


def entries(prog):
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or not b.blocks or not b.file.startswith("src/storage/"):
            continue
        if b.vis.startswith("Public") or b.impl_trait or b.in_trait:
            yield b


def tainted_params(b):
    if "LabelStore" in (b.impl_trait or "") or "LabelStore" in (b.in_trait or ""):
        return set()
    return {i for i in range(1, b.argc + 1) if (content(b.locals[i]) or STREAM.match(b.locals[i]) and re.search(r"archive\.rs$|pack\.rs$", b.file)) and (b.params[i - 1] if i - 1 < len(b.params) else "") != "self"}


def selflink(R, prog):
    """the load walk follows the rollup link of a layer only if it leads elsewhere"""
    for b in prog.find(name="get_layer_with_cache"):
        if b.kind != "AssocFn" or not b.blocks or not b.file.startswith("src/storage/layer.rs"):
            continue
        f = flat(prog, b, opaque={x.id for x in prog.find(name="read_rollup_file")}, R=R)
        S = Sinks(R, f, Ev(f), Taint(f, set()))
        reads = {c.nid for c in f.callsites if c.name in ("read_rollup_file", "read_parent_file") and not c.inlined}
        for c in f.callsites:
            if c.nid in f.reach and not c.inlined and c.name in PANIC and not f.nodes[c.nid].succ:
                for x, lab in S.controls(c.nid):
                    n = f.nodes[x]
                    if any(t[0] == "call" and t[1] in reads for t in f.leaves(f.opnd(n.ctx, n.term[1]), 2)):
                        R.ob("link", short(b) + " panic", False, "it panics depending on the link that is recorded", f.loc(c.nid))
        for c in [c for c in f.callsites if c.nid in f.reach and not c.inlined and c.name == "read_rollup_file"]:
            own = f.origins(c.args[1])
            walk = {t[1] for t in f.leaves(c.args[1], 10) if t[0] == "call"}
            hit = lambda o: o[0] == "p" and any(t[0] == "call" and t[1] == c.nid for t in f.origins(o))

            def differs(a):
                if a[0] != "eq" or a[3]:
                    return False
                return any(hit(x) and y[0] == "p" and bool({t for t in f.origins(y) if t[0] != "part"} & own) for x, y in ((a[1], a[2]), (a[2], a[1])))
            for d in f.callsites:
                if d.nid in f.reach and not d.inlined and d.name in ("push", "insert", "push_back") and len(d.args) > 1 and any(t[0] == "call" and t[1] == c.nid for t in f.leaves(d.args[-1], 5)) and any(t[0] == "call" and t[1] in walk for t in f.origins(d.args[0])):
                    R.ob("link", short(b), S.only_after(d.nid, differs), "a layer whose rollup link names itself is looked up for ever", f.loc(d.nid))


def p24(R, prog):
    R.rule("panic", "nothing that panics is applied to content that was read or imported - unwrapping, indexing, slicing, looking up, taking bytes off, asking for memory - unless it was checked before")
    R.rule("header", "an archive header is accepted only with an offset for every file, in order, and an archive only if the offsets lie within its data")
    R.rule("link", "a layer that is recorded as its own rollup is reported, not followed, and no recorded link makes the walk panic")
    R.rule("read", "what was read is judged in every function through which the program can be entered")
    selflink(R, prog)
    R.floor("panic", 6)
    R.floor("header", 2)
    R.floor("read", 60)
    op = parsers(prog) | {b.id for b in prog.bodies.values() if b.kind == "AssocFn" and type_head(b.impl_trait or "") == "LayerStore"}
    found = {}
    for b in entries(prog):
        f = flat(prog, b, opaque=op - {b.id}, R=R)
        T = Taint(f, tainted_params(b))
        S = Sinks(R, f, Ev(f), T)
        n = 0
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined:
                continue
            k = S.check(c)
            if k is not None:
                found.setdefault((short(prog.bodies[f.owner(c.nid)]), c.name, f.loc(c.nid)), {}).setdefault(k, b)
                n += 1
        for x in f.reach:
            if f.nodes[x].kind == "assert":
                k = bounds(S, f.nodes[x])
                if k is not None:
                    found.setdefault((short(prog.bodies[f.owner(x)]), "[]", f.loc(x)), {}).setdefault(k, b)
                    n += 1
        headers(R, prog, S, b)
        prog.__dict__.get("_flats", {}).clear()      # each is looked at once
        R.ob("read", short(b), True, "", loc(b))
    for (fn, name, where), ks in sorted(found.items(), key=str):
        bad = sorted(k for k in ks if k)
        R.ob("panic", "%s %s" % (fn, name), not bad, "%s (on the way from %s)" % (bad[0], short(ks[bad[0]])) if bad else "", where)
