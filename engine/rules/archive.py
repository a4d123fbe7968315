"""P22: one layout for the archives written and read."""
from rules.lib import *
from rules.valex import Ev, lin, plus, one, num, bit, text, texts
import flow
import qlib
from flow import exec_nodes, explore, exit_variants, edges_where
from symval import sym
from rules.ancestry import go

# functions whose own meaning is decided on their own and that others are read through
SPEC = ("from_present", "is_present", "file_index", "range_for", "size_of", "slice_for", "parse", "parse_from_reader", "is_finalized", "finalized_buf",
        "get_layer_bytes", "get_layer_structure_bytes", "layer_fits_in_cache", "name_to_string")
CONSUME = {"get_u64", "get_u64_le", "get_u32", "get_u8", "get_u64_ne", "advance", "split_to", "split_off", "copy_to_bytes", "copy_to_slice", "truncate", "read_u64", "read_u64_le", "read_exact",
           "read", "read_to_end", "read_buf", "seek", "rewind", "parse_header_first", "parse_from_reader", "parse", "read_u8", "read_u32", "set_len", "clear", "stream_position"}
OFFSET = {"advance", "split_to", "split_off", "slice", "skip", "truncate", "take"}
REVERSE = {"reverse", "rev", "swap", "shuffle", "rotate_left", "rotate_right", "retain", "dedup", "truncate", "pop", "remove", "swap_remove", "drain", "clear", "skip", "take", "step_by", "filter",
           "take_while", "skip_while", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"}


def specs(prog, b=None):
    return {x.id for n in SPEC for x in prog.find(name=n) if (x.file.endswith("archive.rs") or n in ("name_to_string",) or x.in_trait) and not (n == "parse" and type_head(x.impl_self or "") == "ArchiveFilePresenceHeader")} - ({b.id} if b else set())


def load(R, prog, b):
    f = flat(prog, b, opaque=specs(prog, b), R=R)
    return f, Ev(f)


def calls(f, *names):
    return [c for c in f.callsites if c.nid in f.reach and not c.inlined and (not names or c.name in names)]


def loc(b):
    return "%s:%d" % (b.file, b.line)


def subtrees(t):
    yield t
    if t[0] == "bin":
        yield from subtrees(t[2])
        yield from subtrees(t[3])
    elif t[0] in ("un", "num"):
        yield from subtrees(t[-1])
    elif t[0] == "f":
        for x in t[2]:
            yield from subtrees(x)


def bit_tests(t):
    """(word, position) of a test for one bit of a word"""
    if t[0] == "f" and t[1] == "get" and len(t[2]) == 2:
        return t[2][0], plus((1, num(63)), (-1, lin(t[2][1])))
    if t[0] == "bin" and t[1] in ("Ne", "Eq", "Gt"):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "bin" and a[1] == "BitAnd":
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if b == ("k", 0) and t[1] in ("Ne", "Gt") and bit(y) is not None:
                        return x, bit(y)
                    if b == y and t[1] == "Eq" and bit(y) is not None and y != ("k", 1):
                        return x, bit(y)
                    if y == ("k", 1) and x[0] == "bin" and x[1] == "Shr" and (b == ("k", 1) and t[1] == "Eq" or b == ("k", 0) and t[1] in ("Ne", "Gt")):
                        return x[2], lin(x[3])
    return None


def ishdr(t):
    """the presence word of a header value"""
    while t[0] == "f" and t[1] == "inner":
        t = t[2][0]
    return t[0] == "in" and t[1] == 1 and t[2][-1:] == ("present_files",)


def presence(R, prog):
    R.rule("presence", "file number n is bit 63-n of the presence word when it is written and when it is read, and its place among the offsets is the number of smaller files present")
    b = prog.inherent("ArchiveFilePresenceHeader", "from_present")
    f, e = load(R, prog, b)
    news = [c for c in calls(f, "new") if "SmallBitArray" in c.path]
    ors = []
    for n in f.reach:
        for d, rv, ln in f.nodes[n].stmts:
            if rv[0] == "bin" and rv[1] == "BitOr":
                ors.append((n, rv))
    masks = [(n, o, t) for n, rv in ors for o in rv[2:4] for t in e.op(o) if bit(t) is not None]
    R.ob("presence", "written", bool(news) and bool(masks), "no bit is set per file", loc(b))
    for n, o, t in masks:
        p = bit(t)
        files = [x for x in subtrees(t) if x[0] == "num"]
        ok = len(set(files)) == 1 and p == plus((1, num(63)), (-1, one(files[0]))) and files[0][1][:2] == ("in", 1)
        R.ob("presence", "bit written", ok, "the bit set for a file is %s, not bit 63 minus its number" % text(t, f), f.loc(n))
    for c in news:
        lv = e.op(c.args[-1])
        ok = any(("num" in [x[0] for x in subtrees(t)]) for t in lv) or any(t[0] == "call" for t in lv)
        R.ob("presence", "all bits kept", ok, "the word stored does not contain the bits set", f.loc(c.nid))
    b = prog.inherent("ArchiveFilePresenceHeader", "is_present")
    f, e = load(R, prog, b)
    for t in e.of(f.res(f.retvar, ())):
        bt = bit_tests(t)
        ok = bt is not None and ishdr(bt[0]) and bt[1] == plus((1, num(63)), (-1, one(("num", ("in", 2, ())))))
        R.ob("presence", "bit read", ok, "the test for a file is %s, not of bit 63 minus its number" % text(t, f), loc(b))
    b = prog.inherent("ArchiveFilePresenceHeader", "file_index")
    f, e = load(R, prog, b)
    W = ("in", 1, ("present_files",))
    F = ("num", ("in", 2, ()))
    want = plus((1, one(("f", "rank1", (W, F), ()))), (-1, num(1)))
    pay = e.of(f.res(f.retvar, ("!",)))
    # "none" is the one answer without a payload
    R.ob("presence", "index", bool(pay), "no index is given", loc(b))
    for t in pay:
        R.ob("presence", "index", lin(t) == want, "the index of a file is %s, not the number of files present up to it less one" % text(t, f), loc(b))
    asks = edges_where(f, lambda a: a[0] == "bool" and a[2] and asked(f, e, a[1]), 6)
    R.ob("presence", "index of present files", somes_behind(f, e, asks), "an index is given for a file that is not present", loc(b))


def asked(f, e, term):
    """the term is the presence test of the asked file"""
    for t in e.of({term} if term[0] != "p" else f.origins(term)):
        if t[0] == "f" and t[1] == "is_present" and t[2][1:] == (("in", 2, ()),):
            return True
        bt = bit_tests(t)
        if bt is not None and ishdr(bt[0]):
            return True
    return False


def is_zero(a, e, isx, truth=True):
    """the fact says that a value is (or is not) zero"""
    if a[0] == "eq" and a[3] == truth:
        x, y = e.op(a[1]), e.op(a[2])
        return isx(x) and ("k", 0) in y or isx(y) and ("k", 0) in x
    if a[0] == "int":
        return (a[2] == 0 and a[3] == truth or a[2] != 0 and a[3] and not truth) and isx(e.op(a[1]))
    if a[0] == "ord":
        x, y = e.op(a[2]), e.op(a[3])
        if truth:
            return a[1] == "Le" and isx(x) and y == {("k", 0)} or a[1] == "Lt" and isx(x) and y == {("k", 1)}
        return a[1] == "Lt" and x == {("k", 0)} and isx(y) or a[1] == "Le" and x == {("k", 1)} and isx(y)
    return False


def somes_behind(f, e, edges):
    """a Some result only across one of the edges"""
    for k, n, t in returns(f):
        if variant_of(f, t) == "None" if t[0] == "agg" else False:
            continue
        if variant_of(f, t) == "Some" if t[0] == "agg" else False:
            if t[1] in f.from_start(avoid_edges=edges):
                return False
        elif t[0] == "call":
            c = f.callof(t)
            if c is not None and c.name in ("then", "then_some") and all(asked(f, e, x) for x in f.origins(c.args[0]) if x[0] != "part"):
                continue
            return False
    return True


def ranges(R, prog):
    R.rule("range", "the slice of a file runs from the offset recorded for the file before it (0 for the first) to its own; its size is the difference and its bytes are that slice")
    b = prog.inherent("ArchiveHeader", "range_for")
    f, e = load(R, prog, b)
    IDX = ("f", "file_index", (("in", 1, ("file_presence",)), ("in", 2, ())), ("!",))
    OFF = ("in", 1, ("file_offsets",))

    def entry(l):
        def ok(t):
            return t[0] == "f" and t[1] == "entry" and t[2][0] == OFF and lin(t[2][1]) == l
        return ok
    end = e.of(f.res(f.retvar, ("!", "end")))
    R.ob("range", "end", bool(end) and all(entry(one(IDX))(t) for t in end), "a slice ends at %s, not at the offset recorded for the file" % texts(end, f), loc(b))
    st = e.of(f.res(f.retvar, ("!", "start")))
    before = entry(plus((1, one(IDX)), (-1, num(1))))
    ok = bool(st) and all(t == ("k", 0) or before(t) for t in st) and any(before(t) for t in st)
    R.ob("range", "start", ok, "a slice starts at %s, not at the offset recorded for the file before it" % texts(st, f), loc(b))
    es = [c for c in calls(f, "entry") if any(lin(t) == plus((1, one(IDX)), (-1, num(1))) for t in e.op(c.args[1]))]

    def zero(a, truth=True):
        return is_zero(a, e, lambda x: IDX in x, truth)
    z = edges_where(f, zero)
    plain = [c for c in es if not any(t[0] == "call" and f.callof(t).name == "checked_sub" for t in f.origins(c.args[1]))]
    if plain:
        reach = f.from_start(avoid={c.nid for c in plain}, avoid_edges=z)
        sites = {t[1] for t in f.res(f.retvar, ("!",)) if t[0] == "agg"} or {f.exit}
        bad = [n for n in sites if n in reach]
        R.ob("range", "first", bool(z) and not bad, "a file that is not the first gets a slice that starts at 0", f.loc(plain[0].nid))
        nz = edges_where(f, lambda a: zero(a, False))
        for c in plain:
            R.ob("range", "before the first", c.nid not in f.from_start(avoid_edges=nz), "the offset before the first file is looked up", f.loc(c.nid))
    b = prog.inherent("ArchiveHeader", "size_of")
    f, e = load(R, prog, b)
    pay = e.of(f.res(f.retvar, ("!",)))
    H = ("f", "range_for", (("in", 1, ()), ("in", 2, ())))
    want = plus((1, one(H + (("!", "end"),))), (-1, one(H + (("!", "start"),))))
    R.ob("range", "size", bool(pay) and all(lin(t) == want for t in pay), "the size of a file is %s, not the length of its slice" % texts(pay, f), loc(b))
    b = prog.inherent("Archive", "slice_for")
    f, e = load(R, prog, b)
    R.ob("range", "bytes", slice_ok(f, e, f.res(f.retvar, ("!",)), ("in", 1, ("data",)), ("in", 1, ("header",)), ("in", 2, ())), "the bytes of a file are not its slice of the data", loc(b))
    b = prog.inherent("Archive", "size_of")
    f, e = load(R, prog, b)
    pay = e.of(f.res(f.retvar, ("!",))) | e.of(f.res(f.retvar, ()))
    ok = any(t[0] == "f" and t[1] == "size_of" and t[2] == (("in", 1, ("header",)), ("in", 2, ())) for t in pay)
    R.ob("range", "size of archive file", ok, "the size of a file is %s" % texts(pay, f), loc(b))


def slice_ok(f, e, terms, data, header, file):
    terms = [t for t in terms if t[0] != "part"]
    if not terms:
        return False
    H = ("f", "range_for", (header, file))
    for t in terms:
        c = f.callof(t)
        if c is None or c.name != "slice" or e.op(c.args[0]) != {data}:
            return False
        r = e.rng(c.args[1])
        if r is None or r[0] != {H + (("!", "start"),)} or r[1] != {H + (("!", "end"),)}:
            return False
    return True


def root_of(f, op):
    """what a reader or buffer operand is: its origins without projections through guards"""
    return {t for t in f.origins(op) if t[0] != "part"}


def consumers(f, roots, names=CONSUME):
    out = []
    for c in calls(f):
        if c.name in names and c.args and root_of(f, c.args[0]) & roots:
            out.append(c)
        elif c.name in ("parse", "parse_from_reader", "parse_header_first") and any(root_of(f, a) & roots for a in c.args):
            out.append(c)
    return out


def earlier(f, c, d):
    """c may run before d"""
    return d.nid in f.after(c.nid) and d.nid != c.nid


def returned(f, b, *path):
    """what b returns at a path, of the Ok value if it returns a Result"""
    return f.res(f.retvar, (("!",) if "Result<" in b.ret.split("(")[0] else ()) + path)


def given(prog, c, path):
    """a path in what c returns, of the Ok value if it returns a Result"""
    return (("!",) if any(x.id == c.path and "Result<" in x.ret.split("(")[0] for x in prog.find(name=c.name)) else ()) + path


def word(R, prog):
    R.rule("word", "the presence word is the first eight bytes of an archive, most significant byte first; the offsets follow it and then the data")
    # decoding
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or not b.file.endswith("storage/archive.rs") or type_head(b.impl_self or "") == "ArchiveFilePresenceHeader":
            continue
        f, e = load(R, prog, b)
        for c in calls(f, "new"):
            if "SmallBitArray" not in c.path:
                continue
            src = [t for t in f.origins(c.args[-1]) if t[0] != "part"]
            if any(x[0] == "bin" and x[1] == "BitOr" for t in e.op(c.args[-1]) for x in subtrees(t)):
                continue
            ok = bool(src) and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name in ("get_u64", "read_u64", "from_be_bytes") for t in src)
            R.ob("word", short(b) + " decodes", ok, "the presence word is taken from %s, not read as a big-endian 64-bit number" % tset(f, src), f.loc(c.nid))
            for t in src:
                g = f.callof(t) if t[0] == "call" else None
                if g is None or g.name == "from_be_bytes":
                    continue
                roots = root_of(f, g.args[0])
                bad = [d for d in consumers(f, roots) if d.nid != g.nid and earlier(f, d, g)]
                R.ob("word", short(b) + " first", not bad, "%s has read from the archive before its presence word" % (bad[0].name if bad else ""), f.loc(g.nid))
    # the header
    b = prog.inherent("ArchiveHeader", "parse")
    f, e = load(R, prog, b)
    hs = calls(f, "parse_header_first")
    R.ob("word", "offsets parsed", len(hs) == 1, "the offsets are not parsed once, header first", loc(b))
    for h in hs:
        roots = root_of(f, h.args[0])
        pre = [d for d in consumers(f, roots) if d.nid != h.nid and earlier(f, d, h)]
        ok = [d.name for d in pre] == ["get_u64"] and f.always_before(h.nid, [pre[0].nid])
        ok = ok or [d.name for d in pre] == ["advance"] and e.op(pre[0].args[1]) == {("k", 8)}
        ok = ok or [d.name for d in pre] == ["split_to"] and e.op(pre[0].args[1]) == {("k", 8)}
        R.ob("word", "offsets after the word", ok, "before the offsets the archive is read by %s" % ([d.name for d in pre] or "nothing"), f.loc(h.nid))
        offs = returned(f, b, "0", "file_offsets")
        R.ob("word", "offsets used", fromcall(f, offs, h.nid, ("!", "0")), "the offsets of the header are %s" % tset(f, offs), f.loc(h.nid))
        rest = returned(f, b, "1")
        R.ob("word", "data after the offsets", fromcall(f, rest, h.nid, ("!", "1")), "the data of the archive is %s, not what follows the offsets" % tset(f, rest), f.loc(h.nid))
    b = prog.inherent("Archive", "parse")
    f, e = load(R, prog, b)
    ps = calls(f, "parse")
    for c in ps:
        h, d = returned(f, b, "header"), returned(f, b, "data")
        ok = fromcall(f, h, c.nid, given(prog, c, ("0",))) and fromcall(f, d, c.nid, given(prog, c, ("1",))) and param_only(f.origins(c.args[0]), 1)
        R.ob("word", "archive parsed", ok, "the archive consists of %s and %s" % (tset(f, h), tset(f, d)), f.loc(c.nid))
    b = prog.inherent("ArchiveHeader", "parse_from_reader")
    f, e = load(R, prog, b)
    reads = [c for c in calls(f) if c.args and param_only(f.origins(c.args[0]), 1) and (c.name.startswith("read") or c.name in ("seek", "rewind", "take"))]
    order = sorted(reads, key=lambda c: sum(earlier(f, d, c) for d in reads))
    w = [c for c in reads if c.name == "read_u64"]
    R.ob("word", "reader starts with the word", len(w) == 1 and order[0] is w[0] and all(f.always_before(c.nid, [w[0].nid]) for c in reads if c is not w[0]), "reading an archive does not start with the presence word", loc(b))
    regions(R, f, e, b, [c for c in order if c not in w])
    b = prog.inherent("Archive", "parse_from_reader")
    f, e = load(R, prog, b)
    ps = calls(f, "parse_from_reader")
    rd = calls(f, "read_exact", "read_to_end")
    ok = len(ps) == 1 and bool(rd) and all(f.always_before(c.nid, [ps[0].nid]) for c in rd)
    R.ob("word", "data read after the header", ok, "the data of an archive is not read right after its header", loc(b))
    for c in rd:
        if c.name == "read_to_end":
            continue
        ln = buffer_len(f, e, c.args[1])
        off = ("call", ps[0].nid, ("!", "file_offsets")) if ps else None
        ok = ln is not None and all(t[0] == "f" and t[1] == "entry" and t[2][0] == off and lin(t[2][1]) == plus((1, one(("f", "len", (off,), ()))), (-1, num(1))) for t in ln)
        R.ob("word", "data length", ok, "%s bytes of data are read, not up to the last offset" % (texts(ln, f) if ln else "an unknown number of"), f.loc(c.nid))
        d = f.res(f.retvar, ("!", "data"))
        R.ob("word", "data kept", bool(d) and {t[:2] for t in d if t[0] != "part"} == {t[:2] for t in f.origins(c.args[1]) if t[0] != "part"}, "the data is %s" % tset(f, d), f.loc(c.nid))


def fromcall(f, ts, nid, path):
    ts = [t for t in ts if t[0] != "part"]
    return bool(ts) and all(t[0] == "call" and t[1] == nid and tuple(t[2]) == path for t in ts)


def buffer_len(f, e, op):
    """the length given to the buffer an operand stands for"""
    roots = {t[1] for t in f.origins(op) if t[0] == "call"}
    out = None
    for c in calls(f, "set_len", "resize", "from_elem", "zeroed"):
        if c.name in ("from_elem",):
            if c.nid in roots:
                return e.op(c.args[1])
            continue
        if c.name == "zeroed":
            if c.nid in roots:
                return e.op(c.args[0])
            continue
        if {t[1] for t in f.origins(c.args[0]) if t[0] == "call"} & roots:
            out = e.op(c.args[1])
    return out


def regions(R, f, e, b, reads):
    """the header is read as eight bytes of control word and then as much as the control word says"""
    ctl = calls(f, "logarray_length_from_control_word")
    ex = [c for c in reads if c.name == "read_exact"]
    R.ob("word", "reader reads no more", len(ex) == 2 and len(reads) == 2 and len(ctl) == 1, "the offsets are read by %s" % [c.name for c in reads], loc(b))
    if len(ex) != 2 or len(ctl) != 1:
        return
    a, z = ex if earlier(f, ex[0], ex[1]) else ex[::-1]
    L = ("call", ctl[0].nid, ())
    ok = f.always_before(ctl[0].nid, [a.nid]) and f.always_before(z.nid, [ctl[0].nid])
    R.ob("word", "control word first", ok, "the offsets are read before their control word", f.loc(z.nid))
    s = sizes(f, e, a)
    R.ob("word", "control word size", s is None or s == {num(8)}, "%s bytes are read for the control word" % s, f.loc(a.nid))
    s = sizes(f, e, z)
    R.ob("word", "offsets size", s is None or s == {one(L)}, "the number of bytes read for the offsets is not what their control word says", f.loc(z.nid))


def sizes(f, e, c):
    """linear forms of the number of bytes a read_exact asks for, or None"""
    g = None
    for x in calls(f, "index_mut", "index"):
        if x.nid != c.nid and earlier(f, x, c) and x.dest and c.args[1][0] == "p" and reborrow(f, c.args[1][1], x.dest[0]):
            g = x
    roots = {t[1] for t in f.origins(c.args[1]) if t[0] == "call"}
    before = [x for x in calls(f, "set_len", "resize") if {t[1] for t in f.origins(x.args[0]) if t[0] == "call"} & roots and earlier(f, x, c)]
    last = [x for x in before if not any(y is not x and earlier(f, x, y) for y in before)]
    total = {lin(t) for t in e.op(last[0].args[1])} if len(last) == 1 else None
    if g is None:
        return total
    ts = [t for t in f.origins(g.args[1]) if t[0] == "agg"]
    if len(ts) != 1:
        return total if not ts else None
    rv = f.stmt(ts[0])
    names = dict(zip(rv[3], rv[2]))
    st = {lin(t) for t in e.op(names["start"])} if "start" in names else {num(0)}
    en = {lin(t) for t in e.op(names["end"])} if "end" in names else total
    if en is None or len(st) != 1 or len(en) != 1:
        return None
    return {plus((1, next(iter(en))), (-1, next(iter(st))))}


def reborrow(f, v, w, depth=6):
    """variable v is variable w, or a reborrow of it"""
    if v == w:
        return True
    if not depth:
        return False
    for dp, kind, payload, nid in f.defs.get(v, []):
        if dp != () or kind != "rv":
            continue
        if payload[0] == "use" and payload[1][0] == "p" and reborrow(f, payload[1][1], w, depth - 1):
            return True
        if payload[0] == "ref" and reborrow(f, payload[2][0], w, depth - 1):
            return True
    return False


# ---- writing ---------------------------------------------------------------
def written(R, prog):
    R.rule("written", "an archive is written as presence word, offsets and data of the same files, in the order of their numbers, each offset being the total size up to and including its file")
    b = prog.impl_fn("ArchiveLayerStore", "PersistentLayerStore", "finalize")
    f, e = load(R, prog, b)
    f.pushes = True
    st = calls(f, "store_layer_file")
    R.ob("written", "stored", bool(st), "finalising a layer stores no archive", loc(b))
    for c in st:
        R.ob("written", "stored under its name", param_only(f.origins(c.args[1]), 2), "the archive is stored as %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        roots = {t for t in f.origins(c.args[2]) if t[0] != "part"}
        PUT = {"put_u64", "put_u64_le", "put_slice", "put", "extend", "extend_from_slice", "unsplit", "put_u8", "put_bytes", "put_u32"}
        puts = [x for x in calls(f, *PUT) if root_of(f, x.args[0]) & roots]
        kinds = {}
        for x in puts:
            kinds.setdefault(what(f, e, x), []).append(x)
        odd = kinds.get(None, [])
        R.ob("written", "nothing else", not odd, "%s adds something to the archive that is neither presence word, offsets nor data" % (odd[0].name if odd else ""), f.loc(odd[0].nid if odd else c.nid))
        for k in ("word", "offsets", "data"):
            R.ob("written", k, len(kinds.get(k, [])) == 1, "the %s of the archive is written %d times" % (k, len(kinds.get(k, []))), f.loc(c.nid))
        if any(len(kinds.get(k, [])) != 1 for k in ("word", "offsets", "data")):
            continue
        w, o, d = (kinds[k][0] for k in ("word", "offsets", "data"))
        R.ob("written", "word first", f.always_before(o.nid, [w.nid]) and f.always_before(d.nid, [w.nid]) and w.nid not in f.after(w.nid), "the presence word is not written first, once", f.loc(w.nid))
        R.ob("written", "offsets before data", f.always_before(d.nid, [o.nid]) and o.nid not in f.after(o.nid), "the offsets are not written between presence word and data", f.loc(o.nid))
        R.ob("written", "before storing", all(f.always_before(c.nid, [x.nid]) for x in (w, o)) and c.nid not in f.after(c.nid), "the archive is stored before it is complete", f.loc(c.nid))
        data(R, f, e, c, w, o, d)


def what(f, e, x):
    """which part of the archive a write to its buffer is"""
    ts = [t for t in f.origins(x.args[1]) if t[0] != "part"]
    es = e.op(x.args[1])
    if x.name == "put_u64" and es and all(t[0] == "f" and t[1] == "inner" for t in es):
        return "word"
    if ts and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "to_be_bytes" and all(u[0] == "f" and u[1] == "inner" for u in e.op(f.callof(t).args[0])) for t in ts):
        return "word"
    if x.name.startswith("put_u"):
        return None
    if ts and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "finalize_header_first" for t in ts):
        return "offsets"
    if ts and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "finalized_buf" for t in ts):
        return "data"
    return None


def lists_of(f, op):
    """creation calls of the collections an iterator operand runs over"""
    return {t[1] for t in f.origins(op) if t[0] == "call" and not t[2]}


def loop_of(f, n):
    """the `next` calls of the innermost loops around a node"""
    aft = f.after(n)
    nx = [c for c in calls(f, "next", "for_each", "try_for_each", "fold", "map") if n in f.after(c.nid) and (c.nid in aft or c.name != "next")]
    nx = [c for c in nx if c.name == "next"] or nx
    return [c for c in nx if not any(c is not d and n in f.after(d.nid) and d.nid in f.after(c.nid, avoid={n}) and c.nid not in f.after(d.nid, avoid={n}) for d in nx)]


def data(R, f, e, st, w, o, d):
    p = f.p
    fb = {t[1] for t in f.origins(d.args[1]) if t[0] == "call"}
    if not fb:
        return
    # offsets: one running total per file
    builder = {t for x in f.origins(o.args[1]) if x[0] == "call" for t in f.origins(f.callof(x).args[0]) if t[0] != "part"}
    push = [x for x in calls(f, "push") if root_of(f, x.args[0]) & builder]
    R.ob("written", "an offset per file", len(push) == 1, "the offsets are filled by %d calls" % len(push), f.loc(o.nid))
    for x in push:
        R.ob("written", "offsets complete", x.nid not in f.after(o.nid), "an offset is added after the offsets were written", f.loc(x.nid))
        ok, sums = True, set()
        for t in f.origins(x.args[1]):
            if t[0] == "expr" and f.stmt(t)[0] == "bin":
                sums.add(t[1])
        for t in e.op(x.args[1]):
            if t == ("k", 0):
                continue
            ok = ok and t[0] == "bin" and t[1] == "Add" and any(is_len(f, b, fb) and (a == ("k", 0) or a[0] == "loop") for a, b in ((t[2], t[3]), (t[3], t[2])))
        looped = any(y[0] == "loop" for t in e.op(x.args[1]) for y in subtrees(t))
        R.ob("written", "offset is the running total", ok and bool(sums) and looped, "the offset recorded for a file is %s, not the total size up to it" % texts(e.op(x.args[1]), f), f.loc(x.nid))
        for nx in loop_of(f, x.nid):
            R.ob("written", "total includes the file", x.nid in sums or x.nid not in f.after(nx.nid, avoid=sums), "the offset of a file is recorded before its own size is added", f.loc(x.nid))
            each(R, f, nx, x.nid, "an offset")
    for nx in loop_of(f, d.nid):
        each(R, f, nx, d.nid, "data")
    # the same files in the order of their numbers
    la = [lists_of(f, nx.args[0]) for x in push for nx in loop_of(f, x.nid)]
    lb = [lists_of(f, nx.args[0]) for nx in loop_of(f, d.nid)]
    if la and lb:
        same = all(x == la[0] for x in la + lb)
        R.ob("written", "the same files", same, "offsets and data are not written for the same list of files", f.loc(d.nid))
        for l in la[0]:
            for x in push:
                for nx in loop_of(f, x.nid):
                    ordered(R, f, l, nx, "offsets")
            for nx in loop_of(f, d.nid):
                ordered(R, f, l, nx, "data")
    # presence is taken from the same files
    keys = set()
    for t in f.origins(w.args[1]):
        g = f.callof(t) if t[0] == "call" else None
        if g is not None and g.name == "inner":
            for u in f.origins(g.args[0]):
                h = f.callof(u) if u[0] == "call" else None
                if h is not None and h.name == "from_present":
                    keys |= elements(f, h.args[0])
    vals = set()
    for n in fb:
        vals |= {t for t in f.origins(f.nodes[n].call.args[0]) if t[0] != "part"}
    ok = bool(keys) and {(t[0], t[1], tuple(t[2][:-1])) for t in vals} == {(t[0], t[1], tuple(t[2][:-1])) for t in keys} and all(t[2][-1:] == ("1",) for t in vals) and all(t[2][-1:] == ("0",) for t in keys)
    R.ob("written", "presence of the same files", ok, "the presence word is made of %s while the data is that of %s" % (tset(f, keys), tset(f, vals)), f.loc(w.nid))
    # all finished files, and only these
    fin = calls(f, "is_finalized")
    for c in fin:
        R.ob("written", "finished files", root_of(f, c.args[0]) == vals, "whether a file is finished is asked of %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
    for c in calls(f, "filter", "skip", "take", "take_while", "skip_while", "filter_map", "step_by", "retain", "truncate", "pop", "drain", "dedup", "dedup_by_key", "remove", "swap_remove"):
        if c.nid not in flow_before(f, st.nid):
            continue
        if c.name == "filter" and fin:
            cr = f.closure_results.get(c.nid, [])
            rs = [t for ai, v in cr for t in f.res(v, ())]
            ok = bool(rs) and all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "is_finalized" for t in rs)
            R.ob("written", "every finished file", ok, "which files go into the archive depends on %s" % tset(f, rs), f.loc(c.nid))
        elif c.name == "filter_map" and fin:
            continue
        elif "HashMap" in c.path or "hash" in c.path:
            continue
        else:
            R.ob("written", "every finished file", False, "%s drops files from the archive" % c.name, f.loc(c.nid))


def elements(f, op):
    """origins of the elements an iterator operand yields"""
    return {t for t in f.res(op[1], tuple(op[2]) + ("[]",)) if t[0] != "part"} if op[0] == "p" else set()


def flow_before(f, nid):
    return {n for n in f.reach if nid in f.after(n)}


def is_len(f, t, fb):
    return t[0] == "f" and t[1] == "len" and len(t[2]) == 1 and t[2][0][0] == "call" and t[2][0][1] in fb


def each(R, f, nx, n, whatname):
    """every element asked for passes node n before the next one is asked for, and all of them are asked for"""
    if nx.name != "next":
        return
    got = go(f, flow.result_starts(f, nx, [((), "Some")]), {n}, set())
    bad = nx.nid in got or f.exit in got
    R.ob("written", "%s for every file" % whatname, not bad, "a file may be passed over without %s being written for it" % whatname, f.loc(nx.nid))


def ordered(R, f, l, nx, whatname):
    c = f.nodes[l].call
    ty = f.vtype[c.dest[0]] if c.dest else ""
    if "BTreeMap" in ty or "BTreeSet" in ty:
        R.ob("written", whatname + " in order", True, "", f.loc(nx.nid))
        return
    first = ty.split("<", 1)[-1].lstrip("(")
    sorts = [x for x in calls(f) if x.name.startswith("sort") and any(t[0] == "call" and t[1] == l for t in f.origins(x.args[0]))]
    good = [x for x in sorts if sorts_by_file(f, x, first)]
    sub = c.name in ("sorted", "sorted_unstable")
    ok = sub or any(f.always_before(nx.nid, [x.nid]) for x in good)
    bad = [x for x in calls(f) if x.name in REVERSE and x not in good and any(t[0] == "call" and t[1] == l and not t[2] for t in f.origins(x.args[0])) and nx.nid in f.after(x.nid)]
    R.ob("written", whatname + " in order", ok and not bad, "the files are not in the order of their numbers when their %s are written%s" % (whatname, " (%s)" % bad[0].name if bad else ""), f.loc(nx.nid))


def sorts_by_file(f, x, first):
    if x.name in ("sort", "sort_unstable"):
        return "LayerFileEnum" in first.split(",")[0]
    cl = [b for a in x.args[1:] if a[0] == "p" for b in closure_bodies(f, a)]
    if len(cl) != 1:
        return False
    g = flat(f.p, cl[0])
    if "by_key" in x.name or "cached" in x.name:
        ts = [t for t in g.res(g.retvar, ()) if t[0] != "part"]
        ev = Ev(g).of(ts)
        return bool(ev) and all(t == ("in", 2, ("0",)) or t == ("num", ("in", 2, ("0",))) for t in ev)
    cs = [c for c in g.callsites if c.nid in g.reach and c.name in ("cmp", "partial_cmp")]
    return len(cs) == 1 and param_only(g.origins(cs[0].args[0]), 2, (("0",), ())) and param_only(g.origins(cs[0].args[1]), 3, (("0",), ()))


def closure_bodies(f, a):
    for t in f.origins(a):
        if t[0] == "agg":
            rv = f.stmt(t)
            if rv[1][0] == "closure" and rv[1][1] in f.p.bodies:
                yield f.p.bodies[rv[1][1]]


# ---- reading ---------------------------------------------------------------
READS = {"get_layer_structure_bytes": "ArchiveBackend", "read_layer_structure_bytes_from": "ArchiveBackend", "layer_file_exists": "ArchiveMetadataBackend", "get_layer_structure_size": "ArchiveMetadataBackend"}


def passed_on(f, c, b, names):
    """a call of the same operation on what is wrapped, with the own arguments"""
    if c is None or c.name not in names:
        return False
    rc = f.origins(c.args[0])
    return all(t[0] == "param" and t[1] == 1 for t in rc if t[0] != "part") and all(param_only(f.origins(a), i + 2) for i, a in enumerate(c.args[1:]))


def header_of(f, e, t, b):
    """the header a range or size was asked of: ('file', nid) it was read from, or ('bytes', terms)"""
    if t[0] == "agg":
        return None
    if t[0] == "call" and f.nodes[t[1]].call is not None and f.nodes[t[1]].call.name in ("parse", "parse_from_reader"):
        return f.nodes[t[1]].call, tuple(x for x in t[2] if x not in ("!",))
    return None


def read_back(R, prog):
    R.rule("read", "reading a file out of an archive delivers exactly its slice, from the offset asked for on, of the archive of the layer asked for; presence and size are those its header records")
    for name, tr in READS.items():
        for b in [x for x in prog.find(name=name) if x.impl_trait and x.impl_trait.split("::")[-1].split("<")[0] == tr]:
            f, e = load(R, prog, b)
            k = short(b)
            if name == "layer_file_exists":
                existence(R, f, e, b, k)
            elif name == "get_layer_structure_size":
                size_read(R, f, e, b, k)
            elif name == "get_layer_structure_bytes":
                bytes_read(R, f, e, b, k)
            else:
                from_offset(R, f, e, b, k)


def own_layer(f, c):
    """the source a header is read from belongs to the layer asked for: some value it depends on is the layer argument, and no other layer name is"""
    s = sym(f)
    opens = [f.callof(t) for t in f.origins(c.args[0]) if t[0] == "call"]
    if not opens or any(o is None or o.name != "open" for o in opens):
        return False
    for o in opens:
        v = s.arg(o, len(o.args) - 1)
        if {x[1] for x in atoms(v) if x[0] == "in" and x[1] != 1} != {2}:
            return False
    return True


def atoms(v):
    yield v
    for x in v:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from atoms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    yield from atoms(y) if y and isinstance(y[0], str) else ()


def existence(R, f, e, b, k):
    pay = e.of(f.res(f.retvar, ("!",)))
    ok = bool(pay)
    for t in pay:
        if t == ("k", 0) or t == ("k", "false") or t[0] == "k" and not t[1]:
            continue
        if t[0] == "call":
            c = f.nodes[t[1]].call
            ok = ok and passed_on(f, c, b, (b.name,))
        elif t[0] == "f" and t[1] == "is_present":
            ok = ok and t[2][1] == ("in", 3, ())
        elif bit_tests(t) is not None:
            ok = ok and bit_tests(t)[1] == plus((1, num(63)), (-1, one(("num", ("in", 3, ())))))
        else:
            ok = False
    R.ob("read", k + " presence", ok, "whether a file exists is answered by %s" % texts(pay, f), loc(b))


def size_read(R, f, e, b, k):
    pay = e.of(f.res(f.retvar, ("!",)))
    ok = bool(pay)
    for t in pay:
        if t[0] == "call":
            ok = ok and passed_on(f, f.nodes[t[1]].call, b, (b.name,))
        elif t[0] == "f" and t[1] == "size_of" and len(t[2]) == 2:
            h = header_of(f, e, t[2][0], b)
            ok = ok and h is not None and t[2][1] == ("in", 3, ()) and h[1] in ((), ("0",))
        else:
            l = lin(t)
            ok = ok and is_width(f, e, b, l) is not None
    R.ob("read", k + " size", ok, "the size of a file is %s" % texts(pay, f), loc(b))


def is_width(f, e, b, l, less=None):
    """l is end - start (- less) of the range of the file asked for; the header it comes from"""
    hs = {x[2] for x, n in l[0] if x[0] == "f" and x[1] == "range_for"}
    if len(hs) != 1:
        return None
    h = next(iter(hs))
    H = ("f", "range_for", h)
    want = plus((1, one(H + (("!", "end"),))), (-1, one(H + (("!", "start"),))), *([(-1, less)] if less else []))
    if l != want or h[1] != ("in", 3, ()):
        return None
    return header_of(f, e, h[0], b)


def bytes_read(R, f, e, b, k):
    w = loc(b)
    terms = [t for t in f.res(f.retvar, ("!", "!")) if t[0] != "part"]
    ok, why = bool(terms), ""
    for t in terms:
        c = f.callof(t) if t[0] == "call" else None
        if c is not None and c.name == b.name:
            if not passed_on(f, c, b, (b.name,)):
                ok, why = False, "the bytes of another file"
        elif c is not None and c.name == "slice_for":
            good = e.op(c.args[1]) == {("in", 3, ())}
            for a in e.op(c.args[0]):
                h = header_of(f, e, a, b)
                good = good and h is not None and h[1] == ()
                good = good and all(x[0] == "call" and f.callof(x).name == "get_layer_bytes" and param_only(f.origins(f.callof(x).args[1]), 2) for x in f.origins(h[0].args[0]) if x[0] != "part")
            if not good:
                ok, why = False, "%s of %s" % (texts(e.op(c.args[1]), f), texts(e.op(c.args[0]), f))
        elif c is not None and c.name == "slice":
            r = e.rng(c.args[1])
            fst = is_width(f, e, b, plus((1, lin(next(iter(r[1])))), (-1, lin(next(iter(r[0])))))) if r and len(r[0]) == 1 and len(r[1]) == 1 else None
            dt = e.op(c.args[0])
            good = fst is not None and all(x == ("call", fst[0].nid, ("1",)) or x[0] == "call" and x[1] == fst[0].nid and x[2] in (("data",), ("!", "data")) for x in dt)
            if not good:
                ok, why = False, "a slice of %s" % texts(dt, f)
        else:
            g, why2 = from_file(R, f, e, b, k, t)
            ok, why = ok and g, why or why2
    for c in calls(f, "filter", "take_if", "xor"):
        if "option::Option" in c.path and any(t[0] == "call" and f.callof(t) is not None and f.callof(t).name in ("slice_for", b.name, "range_for") for t in f.origins(c.args[0])):
            R.ob("read", k + " always", False, "a file that is there is not always delivered", f.loc(c.nid))
    R.ob("read", k + " bytes", ok, "what is delivered for a file is %s" % (why or tset(f, terms)), w)


def seeks(f, e, h):
    """seek calls on the file a header was read from"""
    roots = root_of(f, h.args[0])
    return [c for c in calls(f, "seek") if root_of(f, c.args[0]) & roots]


def current(f, e, c):
    """how far a seek moves on from where the header ended"""
    out = set()
    for t in f.origins(c.args[1]):
        if t[0] == "agg" and variant_of(f, t) == "Current":
            out |= e.op(f.stmt(t)[2][0])
        elif t[0] != "part":
            return None
    return out


def from_file(R, f, e, b, k, t):
    """bytes read out of the file: a buffer of the slice's length, filled after moving to its start"""
    rd, src, ln, why = filled(f, e, t)
    if rd is None:
        return False, why
    if not ln or len(ln) != 1:
        return False, "a buffer of unknown length"
    h = is_width(f, e, b, lin(next(iter(ln))))
    if h is None:
        return False, "a buffer of %s bytes" % texts(ln, f)
    ok, why = moved(f, e, b, h[0], rd, None, src)
    return ok, why


def filled(f, e, t):
    """the read that fills buffer t completely: the call, what it reads from and how much"""
    into = lambda *n: [x for x in calls(f, *n) if {u[:2] for u in f.origins(x.args[1]) if u[0] == "call"} == {t[:2]}]
    rd = into("read_exact")
    if len(rd) == 1:
        return rd[0], rd[0].args[0], buffer_len(f, e, rd[0].args[1]), ""
    rd = into("read_to_end")
    tk = [f.callof(u) for u in f.origins(rd[0].args[0]) if u[0] == "call" and f.callof(u) is not None] if len(rd) == 1 else []
    if len(tk) != 1 or tk[0].name != "take" or into("read", "read_buf"):
        return None, None, None, "not read completely from the file"
    tk, rd = tk[0], rd[0]
    ln = e.op(tk.args[1])
    want = {lin(x) for x in ln}

    def full(a):
        if a[0] != "eq" or not a[3]:
            return False
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if {lin(v) for v in e.op(x)} == want and any(v[0] == "call" and f.callof(v).name == "len" and {u[:2] for u in f.origins(f.callof(v).args[0]) if u[0] == "call"} == {t[:2]} for v in f.origins(y)):
                return True
        return False
    z = edges_where(f, full)
    seen = flow.explore(f, [(s, st) for n in [rd.nid] for st in flow.explore_from_start(f).get(n, ()) for s, lab, st in f._step(n, st)], lambda n, l, x: (n, l) in z)
    left = {v for v in flow.exit_values(f, seen) if v[0] not in ("Err", "Break")}
    if not z or left:
        return None, None, None, "delivered even if there are fewer bytes"
    return rd, tk.args[0], ln, ""


def moved(f, e, b, h, rd, off, src=None):
    """between the header and node rd the file is moved to the start of the slice (plus off)"""
    if h.name != "parse_from_reader":
        return False, "read from a file whose header was not read"
    if not own_layer(f, h):
        return False, "read from the archive of another layer"
    if rd is not None and not root_of(f, src or rd.args[0]) & root_of(f, h.args[0]):
        return False, "read from another file than the header"
    roots = root_of(f, h.args[0])
    hs = ("f", "range_for", (("call", h.nid, ("!",)), ("in", 3, ())), ("!", "start"))
    want = plus((1, one(hs)), *([(1, off)] if off else []))
    sk = [c for c in seeks(f, e, h) if earlier(f, h, c)]
    mv = [c for c in sk if (current(f, e, c) or set()) and all(lin(x) == want for x in current(f, e, c))]
    if len(mv) != 1 or len(sk) != 1:
        return False, "read from a place %s after the header" % " and ".join(texts(current(f, e, c) or set(), f) for c in sk)
    target = rd.nid if rd is not None else None
    if target is not None and not f.always_before(target, exec_nodes(f, mv[0])):
        return False, "read without moving to the slice"
    other = [c for c in calls(f) if c.name in CONSUME and c.args and root_of(f, c.args[0]) & roots and c is not mv[0] and c is not rd and earlier(f, h, c)]
    if other:
        return False, "read after %s" % other[0].name
    return True, ""


def from_offset(R, f, e, b, k):
    w = loc(b)
    off = one(("in", 4, ()))
    terms = list(f.res(f.retvar, ("!",)))
    seen = 0
    for c in calls(f, b.name):
        seen += 1
        R.ob("read", k + " passed on", passed_on(f, c, b, (b.name,)), "the call is passed on with %s" % ", ".join(tset(f, f.origins(a)) for a in c.args[1:]), f.loc(c.nid))
    # out of a file
    for n in sorted(f.reach):
        for d, rv, ln in f.nodes[n].stmts:
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("ArchiveSliceReader"):
                seen += 1
                nm = dict(zip(rv[3], rv[2]))
                rem = e.op(nm["remaining"])
                hs = [is_width(f, e, b, lin(t), off) for t in rem]
                ok = bool(hs) and all(h is not None for h in hs)
                R.ob("read", k + " length", ok, "%s bytes are delivered, not what is left of the file" % texts(rem, f), f.loc(n))
                if ok:
                    h = hs[0][0]
                    g, why = moved(f, e, b, h, None, off)
                    R.ob("read", k + " place", g and root_of(f, nm["file"]) == root_of(f, h.args[0]), "the file is %s" % why, f.loc(n))
                    mv = [x for c in seeks(f, e, h) for x in exec_nodes(f, c)]
                    R.ob("read", k + " moved", f.always_before(n, mv), "the file is not moved to the slice", f.loc(n))
                    checked(R, f, e, k, nm["remaining"], n, {lin(t) for t in rem}, off, hs)
    if calls(f, "new"):
        for c in calls(f, "new"):
            if "ArchiveSliceReader" in c.path:
                seen += 1
                rem = e.op(c.args[1])
                R.ob("read", k + " length", all(is_width(f, e, b, lin(t), off) is not None for t in rem), "%s bytes are delivered" % texts(rem, f), f.loc(c.nid))
    # out of memory
    zero = edges_where(f, lambda a: is_zero(a, e, lambda x: x == {("in", 4, ())}))
    for n in sorted(f.reach):
        for d, rv, ln in f.nodes[n].stmts:
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("BytesAsyncReader"):
                seen += 1
                sk = {x.nid for x in skips(f)}
                R.ob("read", k + " skips", n not in f.from_start(avoid=sk, avoid_edges=zero), "a file held in memory is delivered from its start, whatever the offset", f.loc(n))
    in_memory(R, f, e, k, 4, "read")
    seen += len(skips(f))
    R.ob("read", k + " delivers", seen > 0, "nothing is delivered that is known to be the file", w)


def checked(R, f, e, k, op, n, rem, off, hs):
    """an offset beyond the end is refused: checked subtraction or a comparison"""
    if all(t[0] == "call" and f.callof(t) is not None and f.callof(t).name == "checked_sub" for t in f.origins(op) if t[0] != "part"):
        R.ob("read", k + " beyond the end", True, "", f.loc(n))
        return
    width = {plus((1, r), (1, off)) for r in rem}

    def fits(a):
        if a[0] != "ord":
            return False
        x, y = {lin(t) for t in e.op(a[2])}, {lin(t) for t in e.op(a[3])}
        return a[1] == "Le" and off in x and bool(y & width)
    ed = edges_where(f, fits)
    R.ob("read", k + " beyond the end", bool(ed) and n not in f.from_start(avoid_edges=ed), "an offset beyond the end of the file is not refused", f.loc(n))


def skips(f):
    return [c for c in calls(f, *OFFSET) if "bytes::" in c.path or "Bytes" in c.path or "Buf" in c.path]


def in_memory(R, f, e, k, i, rule):
    """bytes held in memory are advanced by exactly the offset, checked against their length"""
    off = ("in", i, ())
    sk = skips(f)
    for c in sk:
        if c.name == "slice":
            r = None
            ts = [t for t in f.origins(c.args[1]) if t[0] == "agg"]
            ok = len(ts) == 1
            if ok:
                nm = dict(zip(f.stmt(ts[0])[3], f.stmt(ts[0])[2]))
                ok = "start" in nm and e.op(nm["start"]) == {off}
                if "end" in nm:
                    ok = ok and all(t[0] == "f" and t[1] == "len" for t in e.op(nm["end"]))
        else:
            ok = c.name in ("advance", "split_off") and e.op(c.args[1]) == {off}
        R.ob(rule, k + " from the offset", ok, "the file is read from %s on" % (texts(e.op(c.args[1]), f)), f.loc(c.nid))
        again = [d for d in sk if earlier(f, c, d)]
        R.ob(rule, k + " once", not again and c.nid not in f.after(c.nid), "the offset is applied more than once", f.loc(c.nid))

        def fits(a):
            if a[0] != "ord":
                return False
            x, y = e.op(a[2]), e.op(a[3])
            ln = lambda s: any(t[0] == "f" and t[1] in ("len", "remaining") for t in s)
            return a[1] == "Le" and off in x and ln(y)
        ed = edges_where(f, fits)
        R.ob(rule, k + " within the file", bool(ed) and c.nid not in f.from_start(avoid_edges=ed), "an offset beyond the end of the file is not refused, or the end itself is", f.loc(c.nid))


# ---- the reader of a slice --------------------------------------------------
def bounded(R, prog):
    R.rule("bounded", "reading a slice delivers no byte beyond its end and accounts for every byte delivered")
    for b in [x for x in prog.find(name="poll_read", impl_self="ArchiveSliceReader")]:
        f, e = load(R, prog, b)
        s = sym(f)
        inner = [c for c in calls(f, "poll_read") if any(t[0] == "param" and t[1] == 1 and t[2][-1:] == ("file",) for t in f.origins(c.args[0]))]
        R.ob("bounded", "reads the file", bool(inner), "the file is not read", loc(b))
        REM = ("in", 1, ("remaining",))
        sets = calls(f, "set_filled")
        writes = []
        for n in sorted(f.reach):
            for d, rv, ln in f.nodes[n].stmts:
                if d[1] and d[1][-1] == "remaining" and rv[0] == "use":
                    writes.append((n, rv[1]))
        for c in inner:
            limited = takes(f, e, s, c)
            okedge = edges_where(f, lambda a: a[0] == "ord" and a[1] in ("Le", "Lt") and isread(f, s, c, a[2]) and any(t == REM for t in e.op(a[3])))
            st = [(n, x) for n, x in flow.result_starts(f, c, [((), "Ready"), (("!",), "Ok")])] if ready_type(f, c) else None
            start = st or [(c.nid, ())]
            # every way on from a successful read: cut at set_filled or where the read is known to fit
            if not limited:
                got = go(f, start, {x.nid for x in sets}, okedge)
                bad = f.exit in got
                R.ob("bounded", "not beyond the end", not bad, "more bytes than the slice has left may be delivered", f.loc(c.nid))
            for x in sets:
                v = lin(tree(s.arg(x, 1)))
                ok, w0 = capped(f, s, c, v, REM)
                R.ob("bounded", "cut at the end", ok, "what was read is cut to %s bytes, not to what was there before and what is left of the slice" % show_lin(v), f.loc(x.nid))
            got = go(f, start, {n for n, o in writes}, set())
            R.ob("bounded", "accounted", f.exit not in got, "bytes delivered may go unaccounted", f.loc(c.nid))
            for n, o in writes:
                v = lin(tree(s.at(n, o)))
                ok = any(v == plus((1, one(REM)), (-1, r)) for r in read_forms(f, s, c))
                if limited:
                    ok = ok or any(x[0][0] == "f" and x[0][1] == "len" for x in v[0] if x[1] == -1) and (REM, 1) in v[0] and v[1] == 0
                over = [x for x in sets if n in f.after(x.nid)] or [x for x in sets if x.nid in f.after(n)]
                full = v == num(0) and bool(over) and covered(f, start, n, over)
                mins = any(t[0] == "f" and t[1] == "min" for t, k in v[0]) and ok_min(f, s, c, v, REM)
                dec = [x for x in sets if n in f.after(x.nid) and not (full or mins)]
                if ok and sets and not limited:
                    # the whole read is taken off only where it fits
                    fits = n not in go(f, start, set(), okedge)
                    ok = fits
                R.ob("bounded", "what is left", ok or full or mins, "after a read, %s bytes are taken to be left of the slice" % show_lin(v), f.loc(n))


def covered(f, start, n, over):
    """node n comes together with a cut on every path"""
    a = go(f, start, {x.nid for x in over}, set())
    return n not in a or any(x.nid in f.after(n) for x in over)


def ready_type(f, c):
    return "Poll<" in f.vtype[c.dest[0]]


def tree(v):
    """symbolic value -> expression tree"""
    if v[0] == "in":
        return ("in", v[1], tuple(v[2]))
    if v[0] == "k":
        x = v[1]
        if isinstance(x, str):
            m = re.match(r"^(\d+)(_[ui]\w+)?$", x)
            x = int(m.group(1)) if m else x
        return ("k", x)
    if v[0] == "bin":
        return ("bin", v[1], tree(v[2]), tree(v[3]))
    if v[0] == "f":
        if v[1] in ("sub", "saturating_sub", "checked_sub") and len(v) == 4:
            return ("bin", "Sub", tree(v[2]), tree(v[3])) if v[1] != "saturating_sub" else ("f", v[1], tuple(tree(x) for x in v[2:]), ())
        if v[1] == ".0":
            return tree(v[2])
        return ("f", v[1], tuple(tree(x) for x in v[2:] if isinstance(x, tuple)), ())
    if v[0] == "call":
        return ("call", v[1], tuple(v[2]))
    return ("other", v)


def read_forms(f, s, c):
    """linear forms of the number of bytes the read added to the buffer"""
    def lens(pred):
        out = []
        for x in calls(f, "filled"):
            if pred(x.nid):
                out.append(("f", "len", (("call", x.nid, ()),), ()))
        return out
    before = lens(lambda n: c.nid in f.after(n))
    after = lens(lambda n: n in f.after(c.nid))
    out = [plus((1, one(a)), (-1, one(b))) for a in after for b in before]
    rem = [s_rem(f, s, x) for x in calls(f, "remaining") if "ReadBuf" in x.path]
    for x, n in rem:
        for y, m in rem:
            if c.nid in f.after(n) and m in f.after(c.nid):
                out.append(plus((1, one(x)), (-1, one(y))))
    return out


def s_rem(f, s, x):
    return ("f", "remaining", (tree(s.arg(x, 0)),), ()), x.nid


def isread(f, s, c, op):
    """an operand of a comparison is the number of bytes read"""
    e = Ev(f)
    forms = read_forms(f, s, c)
    ids = {}
    for t in e.op(op):
        l = lin(t)
        # in Ev both lengths are len(filled(buf)): compare by the calls they come from
        if any(same_calls(f, op, r) for r in forms):
            return True
    return False


def same_calls(f, op, form):
    """the operand is computed from exactly the calls a linear form names"""
    want = {x[0][2][0][1] for x in form[0] if x[0][0] == "f" and x[0][1] == "len" and x[0][2][0][0] == "call"}
    got = set()

    def go2(o, d):
        if d == 0:
            return
        for t in f.origins(o):
            if t[0] == "expr":
                for a in f.stmt(t)[2:4]:
                    if isinstance(a, tuple) and a and a[0] in ("p", "k"):
                        go2(a, d - 1)
            elif t[0] == "call":
                g = f.callof(t)
                if g.name == "filled":
                    got.add(t[1])
                else:
                    for a in g.args:
                        go2(a, d - 1)
    go2(op, 6)
    return bool(want) and got == want


def capped(f, s, c, v, REM):
    """v = filled before + remaining, or filled before + min(read, remaining)"""
    for x in calls(f, "filled"):
        if c.nid not in f.after(x.nid):
            continue
        B = one(("f", "len", (("call", x.nid, ()),), ()))
        d = plus((1, v), (-1, B))
        if d == one(REM):
            return True, 0
        if len(d[0]) == 1 and d[1] == 0 and d[0][0][1] == 1 and is_min(f, s, c, d[0][0][0], REM):
            return True, 0
    return False, 0


def is_min(f, s, c, t, REM):
    if t[0] != "f" or t[1] != "min" or len(t[2]) != 2:
        return False
    fs = read_forms(f, s, c)
    return any(lin(x) in fs and y == REM for x, y in (t[2], t[2][::-1]))


def ok_min(f, s, c, v, REM):
    d = plus((1, one(REM)), (-1, v))
    return len(d[0]) == 1 and d[1] == 0 and d[0][0][1] == 1 and is_min(f, s, c, d[0][0][0], REM)


def takes(f, e, s, c):
    """the read goes into a part of the buffer limited to what is left"""
    for t in f.origins(c.args[2]):
        g = f.callof(t) if t[0] == "call" else None
        if g is not None and g.name == "take" and "ReadBuf" in g.path and any(x == ("in", 1, ("remaining",)) for x in e.op(g.args[1])):
            return True
    return False


def show_lin(l):
    return " + ".join(["%s%s" % ("" if n == 1 else "-" if n == -1 else "%d*" % n, text(t)) for t, n in l[0]] + ([str(l[1])] if l[1] or not l[0] else []))


# ---- files that live in memory, and the handles over all of them ------------
def in_place(R, prog):
    R.rule("memory", "a file under construction keeps every byte written to it, in order, and delivers from the offset asked for on; the size of a file is the number of bytes it delivers")
    CF = "ConstructionFile"
    for S, P in ((CF, ("0", "UnderConstruction.0")), ("ArchiveRollupFileWriter", ("data",))):
        b = prog.impl_fn(S, "AsyncWrite", "poll_write")
        f, e = load(R, prog, b)
        puts = [c for c in calls(f, "put_slice", "extend_from_slice", "put", "extend") if root_is(f, c.args[0], P)]
        R.ob("memory", short(b) + " keeps", bool(puts) and all(param_only(f.origins(c.args[1]), 3) for c in puts), "what is written is not kept", loc(b))
        for k, n, t in returns(f, ("!",)):
            if k != "ok":
                continue
            ok = not puts or any(f.always_before(n, [c.nid]) for c in puts)
            R.ob("memory", short(b) + " before success", ok, "success is reported without the bytes being kept", f.loc(n))
        for t in e.of(f.res(f.retvar, ("!", "!"))):
            R.ob("memory", short(b) + " length", t == ("f", "len", (("in", 3, ()),), ()), "%s bytes are reported as written" % text(t, f), loc(b))
        for c in puts:
            R.ob("memory", short(b) + " once", not any(d is not c and earlier(f, c, d) for d in puts) and c.nid not in f.after(c.nid), "bytes may be kept twice", f.loc(c.nid))
    b = prog.impl_fn(CF, "AsyncRead", "poll_read")
    f, e = load(R, prog, b)
    for c in calls(f, "put_slice"):
        ts = [t for t in f.origins(c.args[1]) if t[0] != "part"]
        ok = bool(ts)
        for t in ts:
            g = f.callof(t) if t[0] == "call" else None
            ok = ok and g is not None and g.name in ("split_to", "copy_to_bytes") and root_is(f, g.args[0], ("0", "Finalized.0"))
        R.ob("memory", short(b) + " moves on", ok, "bytes are delivered that are not taken off the file: %s" % tset(f, ts), f.loc(c.nid))
    b = prog.impl_fn(CF, "SyncableFile", "sync_all")
    f, e = load(R, prog, b)
    fr = calls(f, "freeze")
    for c in fr:
        R.ob("memory", short(b) + " seals", root_is(f, c.args[0], ("0", "UnderConstruction.0")), "what is sealed is %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))
    for S in (CF, "ArchiveRollupFile"):
        mp = prog.impl_fn(S, "FileLoad", "map")
        f, e = load(R, prog, mp)
        m = f.res(f.retvar, ("!",))
        length = content_length(f, e, m)
        zb = prog.impl_fn(S, "FileLoad", "size")
        g, e2 = load(R, prog, zb)
        pay = e2.of(g.res(g.retvar, ("!",)))
        R.ob("memory", short(zb), bool(pay) and length is not None and all(lin(t) == length for t in pay), "the size is %s while %s bytes are delivered" % (texts(pay, g), show_lin(length) if length else "unknown"), loc(zb))
        ob = prog.impl_fn(S, "FileLoad", "open_read_from")
        h, e3 = load(R, prog, ob)
        in_memory(R, h, e3, short(ob), 2, "memory")
        R.ob("memory", short(ob) + " offset used", bool(skips(h)), "the offset is not used", loc(ob))
    b = prog.impl_fn(CF, "FileLoad", "map")
    f, e = load(R, prog, b)
    R.ob("memory", short(b), e.of(f.res(f.retvar, ("!",))) == {("in", 1, ("0", "Finalized.0"))}, "not the file's bytes are delivered", loc(b))
    b = prog.impl_fn("ArchiveRollupFile", "FileLoad", "map")
    f, e = load(R, prog, b)
    names = [c for c in calls(f, "name_to_string")]
    for c in names:
        ok = all(t[0] == "call" and f.callof(t).name == "get_rollup" and e.op(f.callof(t).args[1]) == {("in", 1, ("layer_id",))} for t in f.origins(c.args[0]) if t[0] != "part")
        R.ob("memory", short(b) + " name", ok, "the rollup delivered is %s" % tset(f, f.origins(c.args[0])), f.loc(c.nid))


def root_is(f, op, path):
    """the operand is the given part of the own value"""
    ts = [t for t in f.origins(op) if t[0] != "part"]
    return bool(ts) and all((t[0] == "param" and t[1] == 1 or t[0] == "call" and f.callof(t).name == "get_mut" and param_only(f.origins(f.callof(t).args[0]), 1)) and tuple(t[2]) == path for t in ts)


def content_length(f, e, terms):
    """linear form of the number of bytes of a value built in f"""
    terms = [t for t in terms if t[0] != "part"]
    out = set()
    for t in terms:
        if t[0] == "param":
            out.add(one(("f", "len", (("in", t[1], tuple(t[2])),), ())))
            continue
        c = f.callof(t) if t[0] == "call" else None
        if c is None:
            return None
        if c.name in ("format", "concat"):
            sg = s_len(f, t)
            if sg is None:
                return None
            out.add(sg)
            continue
        puts = [x for x in calls(f, "extend_from_slice", "put_slice", "extend", "push", "put", "put_u8", "push_str") if any(u[:2] == t[:2] for u in f.origins(x.args[0]))]
        if c.name not in ("new", "with_capacity") or any(x.nid in f.after(x.nid) for x in puts):
            return None
        total = num(0)
        for x in puts:
            l = put_length(f, e, x)
            if l is None:
                return None
            total = plus((1, total), (1, l))
        out.add(total)
    return out.pop() if len(out) == 1 else None


def s_len(f, t):
    """length of a formatted text made of literals and layer names"""
    from symval import pieces
    ps = pieces(sym(f).at(f.exit, ("p", f.retvar, ("!",), False)))
    if ps is None:
        return None
    total = num(0)
    for k, x in ps:
        if k == "lit":
            total = plus((1, total), (1, num(len(x))))
        elif x[:2] == ("f", "name_to_string"):
            total = plus((1, total), (1, num(40)))
        else:
            return None
    return total


def put_length(f, e, x):
    if x.name in ("push", "put_u8"):
        return num(1)
    out = set()
    for t in f.origins(x.args[1]):
        if t[0] == "const":
            m = re.match(r"^&(?:'static )?\[u8; (\d+)\]$", str(t[1]))
            if m:
                out.add(num(int(m.group(1))))
            elif t[1] == "str":
                out.add(num(len(t[2])))
            else:
                return None
        elif t[0] == "call" and f.callof(t).name == "name_to_string":
            out.add(num(40))
        else:
            return None
    return out.pop() if len(out) == 1 else None


FORWARD = {"exists", "size", "open_read_from", "map", "map_if_exists", "open_write", "sync_all", "poll_read", "poll_write", "poll_flush", "poll_shutdown"}


def handles(R, prog):
    R.rule("handle", "a handle answers every file operation by the same operation of the file it stands for, with the own arguments; a stored file asks its own layer and its own slot")
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        h = type_head(b.impl_self or "")
        if b.kind != "AssocFn" or b.name not in FORWARD or not b.impl_trait:
            continue
        ad = [a for k, a in prog.adts.items() if k.split("::")[-1] == h]
        if h.startswith("ArchiveLayerHandle") and ad:
            f = flat(prog, b, opaque={x.id for x in prog.bodies.values() if x.name in FORWARD and x.id != b.id}, R=R)
            vs = [v["name"] for v in ad[0]["variants"]]
            got = set()
            for c in calls(f, b.name):
                ts = [t for t in f.origins(c.args[0]) if t[0] != "part"]
                v = {t[2][-1].split(".")[0] for t in ts if t[0] == "param" and t[1] == 1 and t[2]}
                ok = len(v) == 1 and all(t[0] == "param" for t in ts) and all(param_only(f.origins(a), i + 2) for i, a in enumerate(c.args[1:]))
                R.ob("handle", short(b) + " " + ",".join(sorted(v)), ok, "%s gets %s" % (c.name, [tset(f, f.origins(a)) for a in c.args]), f.loc(c.nid))
                got |= v
            want = set(vs) - ({"Persistent"} if b.name == "open_write" else set())
            inl = {x.split(".")[0] for t in f.res(f.retvar, ()) if t[0] == "param" for x in t[2][-1:]}
            other = [c for c in calls(f) if c.name in FORWARD and c.name != b.name and any(t[0] == "param" and t[1] == 1 for t in f.origins(c.args[0]))]
            R.ob("handle", short(b) + " same operation", not other, "%s is answered by %s" % (b.name, other[0].name if other else ""), loc(b))
            R.ob("handle", short(b) + " all kinds", want <= got, "%s is not answered by the file itself for %s" % (b.name, ", ".join(sorted(want - got))), loc(b))
            n += 1
        if h == "PersistentFileSlice":
            f, e = load(R, prog, b)
            ops = {"exists": "layer_file_exists", "size": "get_layer_structure_size", "open_read_from": "read_layer_structure_bytes_from", "map": "get_layer_structure_bytes", "map_if_exists": "get_layer_structure_bytes"}
            cs = [c for c in calls(f, *ops.values())]
            want = ops.get(b.name)
            R.ob("handle", short(b) + " asks", bool(cs) and all(c.name == want for c in cs), "%s is answered by %s" % (b.name, [c.name for c in cs]), loc(b))
            for c in cs:
                ok = e.op(c.args[1]) == {("in", 1, ("layer_id",))} and e.op(c.args[2]) == {("in", 1, ("file_type",))} and (len(c.args) < 4 or e.op(c.args[3]) == {("in", 2, ())})
                R.ob("handle", short(b) + " own file", ok, "%s is asked for %s" % (c.name, [texts(e.op(a), f) for a in c.args[1:]]), f.loc(c.nid))
            n += 1
    # a file is looked up in the archive of the layer and slot it was asked for
    for nm in ("get_file", "file_exists"):
        b = prog.impl_fn("ArchiveLayerStore", "PersistentLayerStore", nm)
        f, e = load(R, prog, b)
        for c in calls(f, "get", "index", "get_key_value", "contains_key"):
            if "HashMap" in c.path and any(t[0] == "call" for t in f.origins(c.args[0]) if not t[0] == "part") and not any(t[0] == "param" for t in f.origins(c.args[0])):
                R.ob("handle", short(b) + " slot of name", param_only(f.origins(c.args[1]), 3), "the slot looked up is that of %s" % tset(f, f.origins(c.args[1])), f.loc(c.nid))
        for c in calls(f, *READS):
            ok = param_only(f.origins(c.args[1]), 2)
            R.ob("handle", short(b) + " own layer", ok, "%s is asked for layer %s" % (c.name, tset(f, f.origins(c.args[1]))), f.loc(c.nid))
    b = prog.impl_fn("ArchiveLayerStore", "PersistentLayerStore", "get_file")
    f, e = load(R, prog, b)
    for k in sorted(f.reach):
        for d, rv, ln in f.nodes[k].stmts:
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in ("PersistentFileSlice", "ArchiveRollupFile"):
                nm = dict(zip(rv[3], rv[2]))
                R.ob("handle", "file of layer", e.op(nm["layer_id"]) == {("in", 2, ())}, "a file of %s is handed out" % texts(e.op(nm["layer_id"]), f), f.loc(k))


def p22(R, prog):
    presence(R, prog)
    ranges(R, prog)
    word(R, prog)
    written(R, prog)
    read_back(R, prog)
    bounded(R, prog)
    in_place(R, prog)
    handles(R, prog)
    R.floor("presence", 4)
    R.floor("range", 4)
    R.floor("word", 6)
    R.floor("written", 6)
    R.floor("read", 6)
    R.floor("handle", 15)
