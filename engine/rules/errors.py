"""P07: what happens when an operation that can fail fails."""
import re
from rules.lib import *
import flow

SKIP_ERR = ("fmt::Error", "PoisonError", "TryFromIntError", "SystemTimeError", "TryLockError", "ParseIntError", "ParseFloatError", "Infallible", "OsString")


def err_type(ty, d=0):
    """error type of a value that is, or wraps, a Result"""
    if d > 6 or ty.startswith("&"):
        return None
    h = type_head(ty)
    a = split_args(ty)
    if h == "Result" and len(a) == 2:
        return a[1]
    if h in ("Poll", "Option", "Pin", "Box", "Ready") and a:
        return err_type(a[0], d + 1)
    if ty.startswith("(") and a:
        for x in a:
            e = err_type(x, d + 1)
            if e:
                return e
    return None


def future_err(ty):
    """error type of the output of a future type"""
    m = re.search(r"Future<Output = ", ty)
    if not m:
        return None
    return err_type(qlib.split_args("X<" + ty[m.end():])[0]) if ty[m.end():] else None


def io_like(e):
    return e is not None and not any(x in e for x in SKIP_ERR) and ("::" in e)


def tests_name(b):
    return "::tests::" in b.id or b.file.startswith("tests/")


def takes_error(b):
    for i in range(1, b.argc + 1):
        t = b.locals[i] if i < len(b.locals) else ""
        t = t[0] if isinstance(t, (list, tuple)) else t
        if isinstance(t, dict):
            t = t.get("ty", "")
        if "io::Error" in t or "io::ErrorKind" in t:
            return True
    return False


def fallible(b):
    return io_like(err_type(b.ret or "")) or io_like(future_err(b.ret or "")) or "io::Error" in (b.ret or "")


COMB = {"from_residual", "branch", "map_err", "from_output", "ok_or_else", "ok_or", "transpose", "as_ref", "cloned", "copied", "and", "or",
        "into_future", "into", "from", "new", "deref", "deref_mut", "as_mut", "clone", "take", "swap", "replace", "unwrap", "expect"}


def scenarios(ty, pre=()):
    """ways in which a value of this type can be a failure: lists of facts"""
    if ty.startswith("&"):
        return []
    h = type_head(ty)
    a = split_args(ty)
    if h == "Result" and len(a) == 2:
        out = []
        if io_like(a[1]):
            out.append([(pre, "Err")])
        out += [[(pre, "Ok")] + s for s in scenarios(a[0], pre + ("!",))]
        return out
    if h in ("Poll", "Option") and a:
        v = "Ready" if h == "Poll" else "Some"
        return [[(pre, v)] + s for s in scenarios(a[0], pre + ("!",))]
    if ty.startswith("(") and a and not pre:
        return [s for i, x in enumerate(a) for s in scenarios(x, pre + (str(i),))]
    return []


# what joins several futures hands their results on
JOINS = ("poll_fn", "take_output", "maybe_done", "join", "join_all", "try_join", "try_join_all", "select")


def is_source(f, c):
    """a call that makes a failure of its own"""
    if c.fn is None or c.inlined or c.nid not in f.reach:
        return False
    if (c.name in COMB or c.name in JOINS) and not (c.target in f.p.bodies):
        return False
    if c.name.startswith("try_lock") or c.name.startswith("try_read") or c.name.startswith("try_write"):
        return False
    for a in c.args:
        if a[0] == "p" and not a[2] and err_type(f.vtype[a[1]].lstrip("&").replace("mut ", "", 1) if f.vtype[a[1]].startswith("&") else f.vtype[a[1]]):
            return False
    return True


def enclosing_closure(f, c):
    """the closure (not run on the spot) the call is in: (call node, out var, return nodes)"""
    ctx = f.nodes[c.nid].ctx
    runs = getattr(f, "closure_runs", {})
    while ctx is not None:
        r = runs.get(ctx.id)
        if r and r[3]:
            return r
        ctx = ctx.parent
    return None


def outcome(f, c, cut):
    """variants returned when c fails, per scenario: [(what, variants)]"""
    out = []
    for nid, d, ty in flow.result_points(f, c):
        for sc in scenarios(ty):
            seen = flow.explore(f, flow.assume(f, nid, d, sc), cut)
            v = flow.exit_variants(f, seen)
            if not v <= {"Err"}:
                r = enclosing_closure(f, c)
                if r:
                    w = set()
                    for x in r[2]:
                        for st in seen.get(x, ()):
                            for s, lab, st2 in f._step(x, st):
                                w |= flow.place_variants(f, {0: [st2]}, 0, r[1])
                    v = w
            out.append((nid, v))
    return out


def calls_closures(b):
    for bl in b.blocks:
        t = bl["t"]
        if t[0] == "call":
            fn = t[1].get("k", {}).get("fn") or {}
            if (fn.get("trait") or fn.get("path") or "").startswith("std::ops::Fn") or "ops::Fn" in fn.get("path", ""):
                return True
    return False


def opaque_set(prog):
    r = prog.__dict__.get("_p07_opaque")
    if r is None:
        r = prog._p07_opaque = frozenset(b.id for b in prog.bodies.values() if b.kind in ("Fn", "AssocFn") and not takes_error(b) and not calls_closures(b))
    return r


def pure_error(e):
    """an error that tells of malformed data or arguments, not of I/O"""
    return not ("io::Error" in e or "JoinError" in e)


def does_io(prog, bid, memo={}):
    """may a local function fail because of I/O (rather than its argument)?"""
    key = (id(prog), bid)
    if key in memo:
        return memo[key]
    memo[key] = False
    b = prog.bodies.get(bid)
    if b is None:
        return True
    f = flat(prog, b, opaque=opaque_set(prog) - {bid})
    r = bool(f.entry.is_async) or "Future" in (b.ret or "") or "Poll<" in (b.ret or "")
    for c in f.callsites:
        if r:
            break
        if c.nid in f.reach and is_source(f, c) and c.name not in ("new",):
            for nid, d, ty in flow.result_points(f, c):
                for sc in scenarios(ty):
                    if c.target in prog.bodies:
                        r = r or does_io(prog, c.target)
                    else:
                        r = True
    memo[key] = r
    return r


def io_source(prog, c):
    """a failing call that means the storage failed"""
    if c.name == "assert_poll_next":
        return False        # reads what was peeked at before
    if c.target in prog.bodies:
        return does_io(prog, c.target)
    return True


ITER_DROPS = ("flatten", "filter_map", "flat_map", "map_while", "take_while", "skip_while", "flatten_ok_unused", "try_flatten_unused")
FALLIBLE_ITERS = ("ReadDir", "Entries", "Lines", "Split", "LinesStream", "ReadDirStream")


def drops_items(f, c):
    ty = (c.self_ty or "")
    if c.args and c.args[0][0] == "p" and not c.args[0][2]:
        ty += " " + f.vtype[c.args[0][1]]
    fall = "io::Error>" in ty or any(re.search(r"\b%s\b" % h, ty) for h in FALLIBLE_ITERS)
    if not fall:
        return False
    if c.name == "flatten":
        return True
    for a in c.args[1:]:
        if a[0] == "k" and ("Result" in str(a[1].get("fn", {}).get("path", "")) or "Result::" in str(a[1])) and re.search(r"::ok\b", str(a[1])):
            return True
    return False


def consumers(f, c):
    """where the value of call c goes: other calls, or the value returned"""
    out = []
    for x in f.callsites:
        if x.nid == c.nid or x.name in ("drop", "forget"):
            continue
        for a in x.args:
            if any(t[0] == "call" and t[1] == c.nid for t in f.leaves(a, stop=lambda y: y is not None, muts=False, depth=6)):
                out.append(x)
                break
    if any(t[0] == "call" and t[1] == c.nid for t in f.leaves(("p", f.retvar, (), False), stop=None, muts=False)):
        out.append(None)
    return out


def answers(ty):
    """the type of a result that can say that there is nothing: a truth value or an option"""
    m = re.search(r"Result<(.*)", ty)
    t = m.group(1) if m else ty
    return t.startswith(("bool", "Option<", "std::option::Option<", "core::option::Option<"))


def going_on(f, c):
    """cuts the paths on which something else is tried after the failure"""
    other = {x.nid for x in f.callsites if x.nid in f.reach and x.nid != c.nid and is_source(f, x) and not x.dest[1]
             and (err_type(f.vtype[x.dest[0]]) or future_err(f.vtype[x.dest[0]]))}

    def cut(nid, lab, s):
        return s in other
    return cut


def p07(R, prog):
    R.rule("propagates", "when a fallible call fails, every path to the end of the function that makes it returns an error, "
           "unless the path is taken only for a not-found error; a failed storage operation does not panic instead")
    R.rule("run", "a fallible operation that is prepared (a future or a task) is awaited, returned or handed on")
    R.rule("dropped-items", "no iteration over fallible items drops the items that failed")
    R.floor("propagates", 400)
    R.floor("run", 150)
    op = opaque_set(prog)
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or tests_name(b):
            continue
        f = flat(prog, b, opaque=op - {b.id}, R=R)
        cut = None
        for c in f.callsites:
            if c.nid not in f.reach:
                continue
            if c.name in ITER_DROPS and not c.inlined:
                n += 1
                if drops_items(f, c):
                    R.ob("dropped-items", "%s:%s" % (short(b), c.name), False, "items that could not be read are left out", f.loc(c.nid))
            if is_source(f, c):
                pts = flow.result_points(f, c)
                scs = [s for _, _, ty in pts for s in scenarios(ty)]
                if scs:
                    if cut is None:
                        cut = flow.notfound_cut(f)
                    for nid, v in outcome(f, c, cut):
                        R.ob("propagates", "%s:%s" % (short(b), c.name), v <= {"Err"},
                             "%s fails and the outcome is %s" % (c.name, sorted("unknown" if x is None else x for x in v)), f.loc(c.nid))
                        if v <= {"Err"} and not answers((prog.bodies.get(b.id + "::{closure#0}") if b.id + "::{closure#0}" in prog.bodies and (b.is_async or "Future<" in b.locals[0] or "async" in b.locals[0]) else b).locals[0]):
                            q = [x for m, x in outcome(f, c, going_on(f, c)) if m == nid]
                            R.ob("propagates", "%s:%s:not found" % (short(b), c.name), all(x <= {"Err"} for x in q),
                                 "%s finds nothing and this is taken for success" % c.name, f.loc(c.nid))
                        # a destructor has nobody to report an error to
                        if not v and (b.impl_trait or "").split("::")[-1] != "Drop" and any(not pure_error(err_type(ty) or "") for _, _, ty in pts) and io_source(prog, c) and err_type(pts[0][2]) \
                                and not pts[0][2].startswith("("):
                            R.ob("propagates", "%s:%s:panic" % (short(b), c.name), False, "%s fails and the program panics" % c.name, f.loc(c.nid))
            if c.fn is not None and not c.inlined and not c.dest[1] and c.name not in COMB and c.name not in JOINS and c.name not in ("pin", "boxed", "new_unchecked", "poll_next"):
                ty = f.vtype[c.dest[0]]
                e = future_err(ty)
                if e is None and type_head(ty) == "JoinHandle":
                    e = "tokio::task::JoinError"
                if e and io_like(e) and not ty.startswith("&"):
                    ok = bool(flow.await_nodes(f, c)) or bool(consumers(f, c))
                    if not ok and "JoinHandle<" in ty:
                        ok = any("poll" in x.name for x in f.callsites)
                    R.ob("run", "%s:%s" % (short(b), c.name), ok, "%s is prepared but never run" % c.name, f.loc(c.nid))
    R.ob("dropped-items", "scan", True, "")
    R.notes.append("%d iterator adaptors that can drop items were looked at" % n)
