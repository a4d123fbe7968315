"""Program model over the facts dumped by the rustc driver, plus a flattening
(virtual inlining) pass and a value-origin analysis on the flattened graph.

Everything here works on MIR as built by the compiler from /repo's current
source: callees are resolved through the type checker, `.await` loops are
recognised by their compiler-generated shape, and local helpers, closures and
async blocks are inlined so that extracting a helper changes nothing.
"""
import json, sys, re
from collections import defaultdict

sys.setrecursionlimit(20000)


class Body:
    __slots__ = ("id", "kind", "name", "file", "line", "parent", "argc", "params", "upvars", "coroutine",
                 "locals", "vars", "blocks", "raw", "vis", "is_async", "ret", "impl_self", "impl_trait",
                 "trait_item", "in_trait", "awaits")

    def __init__(self, j):
        self.id = j["id"]
        self.kind = j["kind"]
        self.name = j["name"]
        self.file = j["file"]
        self.line = j["line"]
        self.parent = j["parent"]
        self.argc = j["argc"]
        self.params = j.get("params")
        self.upvars = j.get("upvars")
        self.coroutine = j.get("coroutine", False)
        self.locals = j["locals"]
        self.vars = j["vars"]
        self.vis = j.get("vis", "")
        self.is_async = j.get("async", False)
        self.ret = j.get("ret")
        self.impl_self = j.get("impl_self")
        self.impl_trait = j.get("impl_trait")
        self.trait_item = j.get("trait_item")
        self.in_trait = j.get("in_trait")
        self.blocks = j["blocks"]
        self.awaits = 0
        self._collapse_awaits()

    def _collapse_awaits(self):
        bl = self.blocks
        for i, b in enumerate(bl):
            t = b["t"]
            if t[0] != "call" or b.get("cl"):
                continue
            f = t[1].get("k", {}).get("fn")
            if not f or f["name"] != "poll" or not f["path"].endswith("Future::poll"):
                continue
            s = t[4]
            if s is None:
                continue
            sb = bl[s]
            if sb["t"][0] != "switch" or not sb["s"]:
                continue
            d = sb["s"][-1]
            if d[0] != "=" or d[2][0] != "discr":
                continue
            vs = {name: val for val, name in d[2][2]}
            if set(vs) != {"Ready", "Pending"}:
                continue
            tg = {v: x for v, x in sb["t"][2]}
            ready = tg.get(vs["Ready"], sb["t"][3])
            pend = tg.get(vs["Pending"], sb["t"][3])
            # does the pending path yield straight away?
            seen = set()
            p = pend
            ok = False
            while p not in seen:
                seen.add(p)
                pt = bl[p]["t"]
                if pt[0] == "yield":
                    ok = True
                    break
                if pt[0] == "goto":
                    p = pt[1]
                elif pt[0] == "drop":
                    p = pt[2]
                else:
                    break
            if not ok:
                continue
            b["t"] = ["await", t[2][0], t[3], ready, t[6]]
            self.awaits += 1


class Program:
    def __init__(self, path):
        self.bodies = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.fns = {}
        end = None
        with open(path) as f:
            for l in f:
                j = json.loads(l)
                t = j["t"]
                if t == "body":
                    self.bodies[j["id"]] = Body(j)
                elif t == "adt":
                    self.adts[j["id"]] = j
                elif t == "trait":
                    self.traits[j["id"]] = j
                elif t == "impl":
                    self.impls.append(j)
                elif t == "fn":
                    self.fns[j["id"]] = j
                elif t == "end":
                    end = j
        if end is None:
            raise RuntimeError("facts file is truncated")
        self.trait_impls = defaultdict(list)  # trait method path -> [impl body ids]
        for b in self.bodies.values():
            if b.trait_item:
                self.trait_impls[b.trait_item].append(b.id)
        self.children = defaultdict(list)
        for b in self.bodies.values():
            if b.kind == "Closure":
                self.children[b.parent].append(b.id)

    def fn(self, suffix, must=True):
        """unique body whose id ends with the given path"""
        if suffix in self.bodies:
            return self.bodies[suffix]
        c = [b for i, b in self.bodies.items() if i.endswith(suffix) and b.kind != "Closure"]
        if len(c) == 1:
            return c[0]
        if must:
            raise Missing("anchor `%s` resolves to %d functions" % (suffix, len(c)))
        return None

    def find(self, name=None, impl_self=None, impl_trait=None, in_trait=None, file=None):
        out = []
        for b in self.bodies.values():
            if b.kind not in ("Fn", "AssocFn"):
                continue
            if name is not None and b.name != name:
                continue
            if impl_self is not None and not (b.impl_self and type_head(b.impl_self) == impl_self):
                continue
            if impl_trait is not None and not (b.impl_trait and b.impl_trait.split("::")[-1] == impl_trait):
                continue
            if in_trait is not None and not (b.in_trait and b.in_trait.split("::")[-1] == in_trait):
                continue
            if file is not None and not b.file.endswith(file):
                continue
            out.append(b)
        return out

    def impl_fn(self, self_head, trait, name, must=True):
        c = self.find(name=name, impl_self=self_head, impl_trait=trait)
        if len(c) == 1:
            return c[0]
        if not c and not must:
            return None
        raise Missing("anchor `<%s as %s>::%s` resolves to %d functions" % (self_head, trait, name, len(c)))

    def inherent(self, self_head, name, must=True):
        c = [b for b in self.find(name=name, impl_self=self_head) if not b.impl_trait]
        if len(c) == 1:
            return c[0]
        if not c and not must:
            return None
        raise Missing("anchor `%s::%s` resolves to %d functions" % (self_head, name, len(c)))

    def free(self, name, file=None, must=True):
        c = [b for b in self.find(name=name, file=file) if b.kind == "Fn"]
        if len(c) == 1:
            return c[0]
        if not c and not must:
            return None
        raise Missing("anchor fn `%s` resolves to %d functions" % (name, len(c)))

    def impls_of(self, trait):
        """heads of the local types implementing a trait (with a body in the facts)"""
        out = []
        for im in self.impls:
            t = im["trait"]
            t = re.sub(r"<.*", "", t)
            if t.split("::")[-1] == trait:
                out.append(im)
        return out

    def owner_fn(self, b):
        """the fn a closure body lives in"""
        while b.kind == "Closure":
            p = self.bodies.get(b.parent)
            if p is None:
                break
            b = p
        return b


class Missing(Exception):
    """an anchor the rules rely on is gone"""


def type_head(t):
    """last path segment of the outermost type constructor"""
    t = t.strip()
    while True:
        if t.startswith("&"):
            t = t[1:].lstrip()
            if t.startswith("'"):
                t = t.split(" ", 1)[1] if " " in t else t
            if t.startswith("mut "):
                t = t[4:]
            continue
        if t.startswith("dyn "):
            t = t[4:]
            continue
        if t.startswith("(dyn "):
            t = t[5:].rstrip(")")
            continue
        break
    depth = 0
    out = []
    for c in t:
        if c == "<":
            break
        if c == " ":
            break
        out.append(c)
    return "".join(out).split("::")[-1]


# ---------------------------------------------------------------------------
# calls whose result carries the value of one argument

IDENT = {
    # (method name) -> arg index ; matched on name and not local
    "clone", "cloned", "copied", "to_owned", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut",
    "into", "into_future", "into_boxed", "as_slice", "as_mut_slice", "as_str", "as_bytes", "to_vec", "into_vec",
    "into_iter", "iter", "iter_mut", "as_deref", "as_deref_mut", "must_use", "into_inner_unused", "fuse",
    "by_ref", "peekable", "rev_unused", "boxed", "into_boxed_slice", "into_bytes", "as_path", "into_option_unused",
    "into_os_string", "new_unchecked", "get_mut_unused", "into_string", "freeze", "from_iter_unused",
    "as_mut_ptr", "into_pin", "from_fn_unused", "box_assume_init_into_vec_unsafe",
}
PAYLOAD_VARIANTS = {"Some": "!", "Ok": "!", "Continue": "!", "Ready": "!", "Err": "!e", "Break": "!e"}


def norm_proj(proj, body_locals=None):
    """facts projection -> path tokens; derefs vanish; payload variants unify"""
    out = []
    pend = None
    for e in proj:
        if e == "*":
            continue
        if e == "?":
            continue
        k = e[0]
        if k == "v":
            pend = e[1]
            continue
        if k == "f":
            if pend is not None:
                if pend in PAYLOAD_VARIANTS and e[1] == 0:
                    out.append(PAYLOAD_VARIANTS[pend])
                else:
                    out.append(pend + "." + e[2])
                pend = None
            else:
                out.append(e[2])
        elif k == "i":
            out.append(("idx", e[1]))
        elif k == "ci":
            out.append("[%s%d]" % ("-" if e[2] else "", e[1]))
        elif k == "ss":
            out.append("[..]")
    return tuple(out)


class Node:
    __slots__ = ("id", "ctx", "bb", "stmts", "kind", "term", "succ", "line", "call", "cleanup")

    def __init__(self, id, ctx, bb):
        self.id = id
        self.ctx = ctx
        self.bb = bb
        self.stmts = []
        self.kind = None
        self.term = None
        self.succ = []  # list of (target id, label)
        self.line = 0
        self.call = None


class Call:
    """a call site left opaque in the flattened graph (also kept for inlined ones)"""
    __slots__ = ("nid", "path", "name", "trait", "res", "args", "dest", "fn", "line", "ctx", "inlined", "gargs",
                 "self_ty", "indirect")

    def __repr__(self):
        return "<%s @%s:%d>" % (self.path, self.ctx.body.file, self.line)

    @property
    def target(self):
        return self.res or self.path


class Ctx:
    __slots__ = ("id", "body", "base", "parent", "callnode", "depth", "stack")


class Flat:
    """Flattened graph of one entry function."""

    def __init__(self, prog, entry, inline=None, depth=6, cap=30000, opaque=()):
        self.p = prog
        self.entry = entry if isinstance(entry, Body) else prog.fn(entry)
        self.nodes = []
        self.vtype = []   # vid -> type string
        self.vname = {}   # vid -> debug name
        self.defs = defaultdict(list)  # vid -> [(path, kind, payload, nid)]
        self.calls = []
        self.ctxs = []
        self.inline = inline or (lambda b, d: True)
        self.opaque = set(opaque)
        self.depth = depth
        self.cap = cap
        self.memo = {}
        self._frozen = False
        self.build()

    # ---- construction -----------------------------------------------------
    def newvars(self, body):
        base = len(self.vtype)
        self.vtype.extend(body.locals)
        for n, pl in body.vars:
            if len(pl) == 1:
                self.vname.setdefault(base + pl[0], n)
        return base

    def tmp(self, ty):
        self.vtype.append(ty)
        return len(self.vtype) - 1

    def node(self, ctx, bb):
        n = Node(len(self.nodes), ctx, bb)
        self.nodes.append(n)
        return n

    def pl(self, ctx, place):
        """facts place -> (vid, path)"""
        path = norm_proj(place[1:])
        path = tuple(("idx", ctx.base + t[1]) if isinstance(t, tuple) else t for t in path)
        return (ctx.base + place[0], path)

    def opnd(self, ctx, o):
        if "c" in o:
            v, p = self.pl(ctx, o["c"])
            return ("p", v, p, False)
        if "m" in o:
            v, p = self.pl(ctx, o["m"])
            return ("p", v, p, True)
        return ("k", o["k"])

    def add_def(self, place, kind, payload, nid):
        self.defs[place[0]].append((place[1], kind, payload, nid))

    def instantiate(self, body, parent, callnode):
        ctx = Ctx()
        ctx.id = len(self.ctxs)
        ctx.body = body
        ctx.base = self.newvars(body)
        ctx.parent = parent
        ctx.callnode = callnode
        ctx.depth = parent.depth + 1 if parent else 0
        ctx.stack = (parent.stack if parent else ()) + (body.id,)
        self.ctxs.append(ctx)
        m = {}
        order = []
        # reachable non-cleanup blocks in reverse postorder
        seen = set()
        st = [(0, iter(self._succ_raw(body, 0)))]
        seen.add(0)
        post = []
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self._succ_raw(body, s))))
                    break
            else:
                post.append(b)
                st.pop()
        order = post[::-1]
        for b in order:
            n = self.node(ctx, b)
            m[b] = n.id
        for b in order:
            n = self.nodes[m[b]]
            for s in body.blocks[b]["s"]:
                if s[0] == "=":
                    d = self.pl(ctx, s[1])
                    rv = self.rvalue(ctx, s[2])
                    n.stmts.append((d, rv, s[3]))
                    self.add_def(d, "rv", rv, n.id)
                elif s[0] == "dead":
                    n.stmts.append(((ctx.base + s[1], ()), ("dead",), 0))
            t = body.blocks[b]["t"]
            n.kind = t[0]
            n.term = t
            for lab, s in self._succ_lab(body, b):
                n.succ.append((m[s], lab))
            if t[0] == "switch":
                n.line = t[4]
            elif t[0] in ("call",):
                n.line = t[6]
            elif t[0] == "await":
                n.line = t[4]
            elif t[0] == "drop":
                n.line = t[4]
            elif t[0] == "yield":
                n.line = t[4]
            elif t[0] == "assert":
                n.line = t[5]
        return ctx, m, order

    def _succ_lab(self, body, b):
        t = body.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [(None, t[1])]
        if k == "switch":
            return [(v, x) for v, x in t[2]] + [("else", t[3])]
        if k == "call":
            return [(None, t[4])] if t[4] is not None else []
        if k == "drop":
            return [(None, t[2])]
        if k == "assert":
            return [(None, t[3])]
        if k == "yield":
            return [(None, t[2])]
        if k == "await":
            return [(None, t[3])]
        return []

    def _succ_raw(self, body, b):
        return [s for _, s in self._succ_lab(body, b)]

    def rvalue(self, ctx, r):
        k = r[0]
        if k == "use":
            return ("use", self.opnd(ctx, r[1]))
        if k == "ref":
            return ("ref", r[1], self.pl(ctx, r[2]))
        if k == "raw":
            return ("ref", "mut", self.pl(ctx, r[1]))
        if k == "cast":
            return ("use", self.opnd(ctx, r[2]), r[3])
        if k == "bin":
            return ("bin", r[1], self.opnd(ctx, r[2]), self.opnd(ctx, r[3]))
        if k == "un":
            return ("un", r[1], self.opnd(ctx, r[2]))
        if k == "discr":
            return ("discr", self.pl(ctx, r[1]), r[2])
        if k == "agg":
            return ("agg", tuple(r[1]), [self.opnd(ctx, o) for o in r[2]], r[3])
        if k == "repeat":
            return ("repeat", self.opnd(ctx, r[1]), r[2])
        return ("other", r)

    def build(self):
        ctx, m, order = self.instantiate(self.entry, None, None)
        self.root = m[0] if 0 in m else 0
        self.start = m[0]
        self.retvar = ctx.base
        self.exits = []
        self._process(ctx, m, order)
        # entry returned a future built here: run it
        rets = [n for n in self.nodes if n.ctx is ctx and n.kind == "return"]
        fin = self.node(ctx, -1)
        fin.kind = "exit"
        for r in rets:
            r.kind = "goto"
            r.succ = [(fin.id, None)]
        self.exit = fin.id
        cs = self.closures_of(("p", ctx.base, (), True))
        cs = [c for c in cs if self.p.bodies.get(c[0]) is not None and self.p.bodies[c[0]].coroutine]
        if cs:
            # tail await
            fin.kind = "await"
            fin.call = None
            ex = self.node(ctx, -2)
            ex.kind = "exit"
            out = self.tmp("awaited")
            self.vname[out] = "<ret>"
            self._run_closures(fin, cs, (out, ()), ex.id, ctx, optional=False)
            self.exit = ex.id
            self.retvar = out
        self._prune()
        self.preds = defaultdict(list)
        for n in self.nodes:
            for s, lab in n.succ:
                self.preds[s].append(n.id)
        self._frozen = True
        self.memo = {}
        self.explode()
        self.reach = set(self.xnode)
        self.callsites = [c for c in self.calls if c.nid in self.reach]

    def _process(self, ctx, m, order):
        for b in order:
            n = self.nodes[m[b]]
            if n.kind == "call":
                self._do_call(n, ctx)
            elif n.kind == "await":
                self._do_await(n, ctx)

    def _mkcall(self, n, ctx):
        t = n.term
        c = Call()
        c.nid = n.id
        c.ctx = ctx
        c.line = t[6]
        c.args = [self.opnd(ctx, a) for a in t[2]]
        c.dest = self.pl(ctx, t[3])
        c.inlined = False
        c.indirect = None
        f = t[1].get("k", {}).get("fn")
        if f:
            c.fn = f
            c.path = f["path"]
            c.name = f["name"]
            c.trait = f.get("trait")
            c.res = f.get("res")
            c.gargs = f.get("gargs", [])
            c.self_ty = f.get("self_ty")
        else:
            c.fn = None
            c.path = "<indirect>"
            c.name = "<indirect>"
            c.trait = None
            c.res = None
            c.gargs = []
            c.self_ty = None
            c.indirect = self.opnd(ctx, t[1])
        return c

    def local_target(self, c):
        """body to inline for a call, if its target is known"""
        if c.fn is None:
            return None
        tgt = c.res or c.path
        b = self.p.bodies.get(tgt)
        if b is not None and (b.in_trait is None):
            return b
        if c.trait is not None and c.res is None:
            # default method nobody overrides
            b = self.p.bodies.get(c.path)
            if b is not None and b.in_trait is not None and not self.p.trait_impls.get(c.path):
                return b
        if b is not None and b.in_trait is not None and c.res is not None:
            return b
        return None

    def _do_call(self, n, ctx):
        c = self._mkcall(n, ctx)
        n.call = c
        self.calls.append(c)
        b = self.local_target(c)
        # closure invoked directly: Fn*::call*(closure, (args,))
        if c.trait and c.name in ("call", "call_mut", "call_once") and c.trait.split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            cs = self.closures_of(c.args[0]) if c.args else []
            if cs and n.succ:
                self.add_def(c.dest, "call", c, n.id) if False else None
                self._run_closures(n, cs, c.dest, n.succ[0][0], ctx, optional=False, tupled=c.args[1] if len(c.args) > 1 else None)
                c.inlined = True
                return
        if (b is not None and b.id not in self.opaque and b.id not in ctx.stack and ctx.depth < self.depth
                and len(self.nodes) < self.cap and self.inline(b, ctx.depth) and n.succ):
            self._inline(n, b, c.args, c.dest, n.succ[0][0], ctx)
            c.inlined = True
            return
        # blocking drivers of a future
        if c.name in ("block_on",) and c.args:
            fut = c.args[-1]
            cs = [x for x in self.closures_of(fut) if self.p.bodies[x[0]].coroutine]
            if cs and n.succ:
                self._run_closures(n, cs, c.dest, n.succ[0][0], ctx, optional=False)
                c.inlined = True
                return
            self.add_def(c.dest, "use", fut, n.id)
            return
        # a closure run on the spot
        if c.name == "block_in_place" and c.args and n.succ:
            cs = [x for x in self.closures_of(c.args[0]) if not self.p.bodies[x[0]].coroutine]
            if cs:
                self._run_closures(n, cs, c.dest, n.succ[0][0], ctx, optional=False)
                c.inlined = True
                return
        if c.name == "swap" and c.path.endswith("mem::swap") and len(c.args) == 2:
            for a, b2 in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if a[0] == "p" and b2[0] == "p":
                    for pl in self._ref_places(a[1], set()):
                        self.add_def(pl, "use", ("p", b2[1], b2[2], False), n.id)
        self.add_def(c.dest, "call", c, n.id)
        # two closures, both run: one order stands for both
        if c.name == "join" and c.path.startswith("rayon") and len(c.args) == 2 and n.succ:
            css = [self.closures_of(a) for a in c.args]
            if all(css):
                mid = self.node(ctx, -4)
                mid.kind = "goto"
                mid.line = n.line
                mid.succ = [(n.succ[0][0], None)]
                for i, (src, cont) in enumerate(((n, mid.id), (mid, n.succ[0][0]))):
                    out = self.tmp("join")
                    self._run_closures(src, css[i], (out, ()), cont, ctx, optional=False,
                                       also=[((c.dest[0], c.dest[1] + (str(i),)), out)])
                    self._init_or(c.nid, i, out)
                return
        # opaque call given closures: they may run
        if n.succ:
            for i, a in enumerate(c.args):
                cs = self.closures_of(a)
                cs = [x for x in cs if not self.p.bodies[x[0]].coroutine]
                if cs:
                    self._optional_closures(n, c, i, cs, ctx)
            if c.name in ("spawn", "spawn_blocking", "join_all", "try_join_all", "block_in_place"):
                for i, a in enumerate(c.args):
                    cs = [x for x in self.closures_of(a) if self.p.bodies[x[0]].coroutine]
                    if cs:
                        out = self.tmp("spawned")
                        self.add_def((c.dest[0], c.dest[1] + ("!",)), "use", ("p", out, (), True), n.id)
                        self._run_closures(n, cs, (out, ()), n.succ[0][0], ctx, optional=True)

    def _do_await(self, n, ctx):
        t = n.term
        fut = self.opnd(ctx, t[1])
        dest = self.pl(ctx, t[2])
        dest = (dest[0], dest[1] + ("!",))
        cs = [x for x in self.closures_of(fut) if self.p.bodies[x[0]].coroutine]
        if cs and n.succ:
            self._run_closures(n, cs, dest, n.succ[0][0], ctx, optional=False)
        else:
            self.add_def(dest, "use", fut, n.id)

    def _inline(self, n, body, args, dest, cont, ctx, env=None):
        cctx, m, order = self.instantiate(body, ctx, n.id)
        for i, a in enumerate(args):
            self.bind(n, (cctx.base + 1 + i, ()), a)
        self._returns(cctx, m, order, dest, cont)
        n.succ = [(m[0], None)]
        n.kind = "enter"
        self._process(cctx, m, order)
        return cctx

    def bind(self, n, dst, op):
        rv = ("use", op)
        n.stmts.append((dst, rv, n.line))
        self.add_def(dst, "rv", rv, n.id)

    def _returns(self, cctx, m, order, dest, cont, also=()):
        """also: [(place, out)]: places whose state follows the value returned"""
        for b in order:
            x = self.nodes[m[b]]
            if x.kind == "return":
                x.kind = "goto"
                x.succ = [(cont, None)]
                rv = ("use", ("p", cctx.base, (), True))
                x.stmts.append((dest, rv, x.line))
                self.add_def(dest, "rv", rv, x.id)
                for pl2, o in also:
                    x.stmts.append((pl2, ("use", ("p", o, (), False)), x.line))

    def _run_closures(self, n, cs, dest, cont, ctx, optional, tupled=None, bind=None, also=(), argi=None):
        """cs: [(closure body id, aggregate operand place)]"""
        ents = []
        did = False
        for cid, clos in cs:
            body = self.p.bodies[cid]
            if cid in ctx.stack or ctx.depth >= self.depth + 4 or len(self.nodes) > self.cap:
                continue
            cctx, m, order = self.instantiate(body, ctx, n.id)
            # the environment, its arguments and its return value
            pre = self.node(ctx, -3)
            pre.kind = "goto"
            pre.line = n.line
            self.bind(pre, (cctx.base + 1, ()), clos)
            if tupled is not None:
                for i in range(2, body.argc + 1):
                    if tupled[0] == "p":
                        self.bind(pre, (cctx.base + i, ()), ("p", tupled[1], tupled[2] + (str(i - 2),), True))
            if bind is not None:
                for i in range(2, body.argc + 1):
                    if i - 2 < len(bind) and bind[i - 2] is not None:
                        self.bind(pre, (cctx.base + i, ()), bind[i - 2])
            self._returns(cctx, m, order, dest, cont, also)
            self.__dict__.setdefault("closure_runs", {})[cctx.id] = (n.id, dest[0], [m[b] for b in order if self.nodes[m[b]].succ and self.nodes[m[b]].succ[0][0] == cont and self.nodes[m[b]].stmts and self.nodes[m[b]].stmts[-1 - len(also)][0] == dest], optional and not also)
            pre.succ = [(m[0], None)]
            ents.append(pre.id)
            did = True
            self._process(cctx, m, order)
        if did:
            if optional:
                for e in ents:
                    self.__dict__.setdefault("closure_edge", {})[(n.id, e)] = argi
                n.succ = n.succ + [(e, "closure") for e in ents]
            else:
                n.succ = [(e, "closure") for e in ents]
            n.kind = "enter" if not optional else n.kind
        elif not optional:
            self.add_def(dest, "unk", None, n.id)

    def _optional_closures(self, n, c, argi, cs, ctx):
        out = self.tmp("closure-ret")
        cont = n.succ[0][0]
        a0 = c.args[0] if argi != 0 else (c.args[1] if len(c.args) > 1 else None)
        bind = None
        if a0 is not None and a0[0] == "p":
            nm = c.name
            tr = (c.trait or "").split("::")[-1]
            def elem(o, tok):
                return ("p", o[1], o[2] + (tok,), o[3])
            if nm in ("map_err", "or_else", "unwrap_or_else") and "Result" in (c.fn or {}).get("impl_self", ""):
                bind = [elem(a0, "!e")]
            elif nm == "fold":
                bind = [c.args[1], elem(a0, "[]")]
            elif tr in ("Iterator", "Itertools", "ParallelIterator", "IndexedParallelIterator", "Stream", "StreamExt", "TryStreamExt") or nm in ("retain", "for_each", "sort_by", "sort_by_key"):
                bind = [elem(a0, "[]"), elem(a0, "[]")]
            else:
                bind = [elem(a0, "!")]
        also = []
        own = (c.fn or {}).get("impl_self", "")
        optres = "Option" in own or "Result" in own
        if c.name in ("try_for_each", "try_fold", "try_for_each_with") or optres and c.name in ("and_then", "or_else", "map_or_else", "unwrap_or_else", "map_or", "is_some_and", "is_ok_and", "is_none_or"):
            also = [(c.dest, out)]
        elif optres and c.name == "map":
            also = [((c.dest[0], c.dest[1] + ("!",)), out)]
        self._run_closures(n, cs, (out, ()), cont, ctx, optional=True, bind=bind, also=also, argi=argi if optres else None)
        # how the closure's value shows up in the result
        nm = c.name
        ro = ("p", out, (), True)
        D = c.dest
        def d(tok, op):
            self.add_def((D[0], D[1] + tok), "use", op, n.id)
        if nm in ("map", "and_then", "map_or", "map_or_else", "unwrap_or_else", "or_else", "map_err", "ok_or_else",
                  "filter_map", "flat_map", "then", "fold", "filter", "retain", "get_or_insert_with", "get_or_insert", "get_or_insert_mut", "try_get_or_insert", "map_ok",
                  "for_each", "inspect", "block_in_place", "scoped", "take_while", "skip_while", "find", "find_map"):
            self.closure_results.setdefault(c.nid, []).append((argi, out)) if hasattr(self, "closure_results") else self._init_cr(c.nid, argi, out)

    def _init_cr(self, nid, argi, out):
        self.closure_results = {nid: [(argi, out)]}

    def _init_or(self, nid, argi, out):
        if not hasattr(self, "closure_results"):
            self.closure_results = {}
        self.closure_results.setdefault(nid, []).append((argi, out))

    def closures_of(self, op):
        """local closures/coroutines an operand may hold: [(body id, operand)]"""
        out = []
        for t in self.origins(op):
            if t[0] == "agg" and t[3] == ():
                rv = self.nodes[t[1]].stmts[t[2]][1]
                if rv[1][0] in ("closure", "coroutine") and rv[1][1] in self.p.bodies:
                    d = self.nodes[t[1]].stmts[t[2]][0]
                    out.append((rv[1][1], ("p", d[0], d[1], False)))
            elif t[0] == "fn":
                pass
        return out

    # ---- pruning of compiler-made dead branches ---------------------------
    def _prune(self):
        mutb = {rv[2][0] for n in self.nodes for d, rv, line in n.stmts if rv[0] == "ref" and rv[1] == "mut"}
        for n in self.nodes:
            if n.kind != "switch":
                continue
            op = self.opnd(n.ctx, n.term[1])
            if op[0] != "p" or op[2]:
                continue
            ds = self.defs.get(op[1], [])
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "discr":
                place = ds[0][2][1]
                if place[1] or place[0] in mutb:
                    continue
                dd = self.defs.get(place[0], [])
                if len(dd) == 1 and dd[0][0] == () and dd[0][1] == "rv" and dd[0][2][0] == "agg" and dd[0][2][1][0] == "adt":
                    var = dd[0][2][1][2]
                    val = [v for v, nm in ds[0][2][2] if nm == var]
                    if val:
                        keep = [(s, l) for s, l in n.succ if l == val[0]]
                        if not keep:
                            keep = [(s, l) for s, l in n.succ if l == "else"]
                        n.succ = keep

    # ---- path-sensitive expansion -----------------------------------------
    # Nodes are split by what is known about the variants of Option/Result/
    # bool-like variables, so that the Err result of an inlined helper does not
    # flow into the caller's Ok branch.
    MAXSTATES = 48

    def explode(self):
        untracked = set()
        for n in self.nodes:
            for d, rv, line in n.stmts:
                if rv[0] == "ref" and rv[1] == "mut":
                    untracked.add(rv[2][0])
        self.untracked = untracked
        xid = {}
        self.xnode = []
        self.xsucc = []
        self.xkey = []
        per = defaultdict(int)
        init = (self.start, frozenset())
        xid[init] = 0
        self.xkey.append(init)
        self.xnode.append(self.start)
        self.xsucc.append([])
        work = [init]
        while work:
            key = work.pop()
            nid, st = key
            me = xid[key]
            succ = []
            for s, lab, st2 in self._step(nid, st):
                k2 = (s, st2)
                i = xid.get(k2)
                if i is None:
                    if per[s] >= self.MAXSTATES:
                        k2 = (s, frozenset())
                        i = xid.get(k2)
                if i is None:
                    per[s] += 1
                    i = len(self.xnode)
                    xid[k2] = i
                    self.xkey.append(k2)
                    self.xnode.append(s)
                    self.xsucc.append([])
                    work.append(k2)
                succ.append((i, lab))
            self.xsucc[me] = succ
        self.xof = defaultdict(list)
        for i, n in enumerate(self.xnode):
            self.xof[n].append(i)
        self._must_edges = None
        self._must_nodes = None

    _covars = None

    @property
    def covars(self):
        if self._covars is None:
            self._covars = {d[0] for n in self.nodes for d, rv, _ in n.stmts if rv[0] == "agg" and rv[1][0] == "coroutine"}
        return self._covars

    def _step(self, nid, st):
        n = self.nodes[nid]
        F = dict(st)

        def kill(v, path):
            if not path:
                for k in [k for k in F if k[0] == v]:
                    del F[k]
            else:
                L = len(path)
                for k in [k for k in F if k[0] == v and k[1][:L] == path]:
                    del F[k]

        def release(v, path):
            """moved or dead: what a coroutine captured stays readable for its body"""
            if v in self.covars:
                for k in [k for k in F if k[0] == v and k[1][:len(path)] == path and not (isinstance(F[k], bool) and len(k[1]) == 1 and k[1][0][:1] == "^")]:
                    del F[k]
            else:
                kill(v, path)

        def copy(src, dst):
            add = []
            L = len(src[1])
            for k, val in F.items():
                if k[0] == src[0] and k[1][:L] == src[1]:
                    add.append(((dst[0], dst[1] + k[1][L:]), val))
            return add

        def from_op(o, dst):
            if o[0] == "k":
                k = o[1]
                if k.get("ty") == "bool" and "int" in k:
                    return [((dst[0], dst[1]), bool(k["int"]))]
                return []
            return copy((o[1], o[2]), dst)

        def assign(d, facts, moved=None):
            if moved is not None:
                release(moved[0], moved[1])
            kill(d[0], d[1])
            if d[0] in self.untracked:
                return
            for k, v in facts:
                F[k] = v

        def hasvar(p):
            return not any(isinstance(t, tuple) for t in p)

        for d, rv, line in n.stmts:
            k = rv[0]
            if k == "dead":
                release(d[0], ())
                continue
            if not hasvar(d[1]):
                continue
            if k == "use":
                o = rv[1]
                fs = from_op(o, d)
                assign(d, fs, (o[1], o[2]) if o[0] == "p" and o[3] else None)
            elif k == "ref":
                fs = copy(rv[2], d) if rv[1] != "mut" else []
                assign(d, fs)
            elif k == "agg":
                fs = []
                kind = rv[1]
                if kind[0] == "adt":
                    isenum = kind[1].split("::")[-1] != kind[2]
                    if isenum:
                        fs.append((d, kind[2]))
                    for i, o in enumerate(rv[2]):
                        if isenum and kind[2] in PAYLOAD_VARIANTS and i == 0:
                            tok = PAYLOAD_VARIANTS[kind[2]]
                        elif isenum:
                            tok = kind[2] + "." + (rv[3][i] if i < len(rv[3]) else str(i))
                        else:
                            tok = rv[3][i] if i < len(rv[3]) else str(i)
                        fs += from_op(o, (d[0], d[1] + (tok,)))
                elif kind[0] == "tuple":
                    for i, o in enumerate(rv[2]):
                        fs += from_op(o, (d[0], d[1] + (str(i),)))
                elif kind[0] in ("closure", "coroutine"):
                    for i, o in enumerate(rv[2]):
                        if i < len(rv[3]):
                            fs += from_op(o, (d[0], d[1] + ("^" + rv[3][i],)))
                mv = [o for o in rv[2] if o[0] == "p" and o[3]]
                for o in mv:
                    release(o[1], o[2])
                assign(d, fs)
            elif k == "discr":
                v = F.get(rv[1])
                fs = []
                if isinstance(v, str):
                    for val, nm in rv[2]:
                        if nm == v:
                            fs = [(d, ("d", val))]
                assign(d, fs)
            elif k == "un" and rv[1] == "Not" and rv[2][0] == "p":
                v = F.get((rv[2][1], rv[2][2]))
                assign(d, [(d, not v)] if isinstance(v, bool) else [])
            else:
                assign(d, [])
        if n.kind == "drop":
            p = self.pl(n.ctx, n.term[1])
            if hasvar(p[1]):
                kill(p[0], p[1])
        elif n.kind == "call" and n.call is not None:
            c = n.call
            if c.name in ("unwrap", "expect") and c.args and c.args[0][0] == "p" and not c.inlined and \
                    F.get((c.args[0][1], c.args[0][2])) in ("Err", "None") and "{" not in c.path:
                return []   # panics here
            fs = self._call_facts(c, F, copy, from_op)
            for a in c.args:
                if a[0] == "p" and a[3]:
                    kill(a[1], a[2])
            if hasvar(c.dest[1]):
                assign(c.dest, fs)
        elif n.kind == "await":
            d = self.pl(n.ctx, n.term[2])
            assign(d, [(d, "Ready")])
        elif n.kind == "enter":
            t = n.term
            if t and t[0] == "await":
                d = self.pl(n.ctx, t[2])
                assign(d, [(d, "Ready")])
        out = []
        if n.kind == "call" and n.call is not None and len(n.succ) > 1 and n.call.args and n.call.args[0][0] == "p":
            # Option/Result combinators: whether the closure runs is known
            ce = getattr(self, "closure_edge", {})
            v = dict(st).get((n.call.args[0][1], n.call.args[0][2]))
            own = (n.call.fn or {}).get("impl_self", "")
            if isinstance(v, str) and ("Option" in own or "Result" in own):
                pos = v in ("Some", "Ok")
                nm = n.call.name
                POS = ("map", "and_then", "map_or", "is_some_and", "is_ok_and", "filter", "inspect", "is_none_or")
                NEG = ("or_else", "unwrap_or_else", "map_err", "ok_or_else")
                if nm in POS or nm in NEG or nm == "map_or_else":
                    fz = frozenset(F.items())
                    has = {ce.get((n.id, s)) for s, lab in n.succ if lab == "closure"}
                    for s, lab in n.succ:
                        a = ce.get((n.id, s)) if lab == "closure" else None
                        if nm == "map_or_else":
                            runs = (a == 2) == pos if a is not None else (2 if pos else 1) not in has
                        else:
                            want = pos if nm in POS else not pos
                            runs = want if a is not None else not want or not has
                        if runs:
                            out.append((s, lab, fz))
                    return out
        if n.kind == "switch":
            op = self.opnd(n.ctx, n.term[1])
            known = F.get((op[1], op[2])) if op[0] == "p" else None
            labels = set(l for _, l in n.succ)
            take = None
            if isinstance(known, bool):
                take = "1" if known else "0"
                if take not in labels:
                    take = "else"
            elif isinstance(known, tuple):
                take = known[1] if known[1] in labels else "else"
            disc = None
            if op[0] == "p":
                for s2 in reversed(n.stmts):
                    if s2[0] == (op[1], op[2]) and s2[1][0] == "discr":
                        disc = s2[1]
                        break
            isb = op[0] == "p" and not op[2] and self.vtype[op[1]] == "bool"
            vals = [v for v, _ in n.term[2]]
            for s, lab in n.succ:
                if take is not None and lab != take:
                    continue
                G = F
                if take is None and op[0] == "p":
                    G = dict(F)
                    if disc is not None and disc[1][0] not in self.untracked and hasvar(disc[1][1]):
                        names = dict((v, nm) for v, nm in disc[2])
                        if lab == "else":
                            rest = [nm for v, nm in disc[2] if v not in vals]
                            nm = rest[0] if len(rest) == 1 else None
                        else:
                            nm = names.get(lab)
                        if lab == "else" and not [nm for v, nm in disc[2] if v not in vals]:
                            continue
                        if nm is not None:
                            G[disc[1]] = nm
                    elif isb:
                        cur, val = (op[1], op[2]), lab != "0"
                        if cur[0] not in self.untracked:
                            G[cur] = val
                        # the variable(s) the tested value was copied from
                        for s2 in reversed(n.stmts):
                            if s2[0] != cur:
                                continue
                            r2 = s2[1]
                            if r2[0] == "un" and r2[1] == "Not" and r2[2][0] == "p":
                                cur, val = (r2[2][1], r2[2][2]), not val
                            elif r2[0] == "use" and r2[1][0] == "p":
                                cur = (r2[1][1], r2[1][2])
                            else:
                                break
                            if cur[0] in self.untracked or not hasvar(cur[1]):
                                break
                            G[cur] = val
                    elif isb is False and disc is None:
                        pass
                if disc is not None and take is None and lab == "else" and not [nm for v, nm in disc[2] if v not in vals]:
                    continue
                out.append((s, lab, frozenset(G.items())))
        else:
            fz = frozenset(F.items())
            for s, lab in n.succ:
                out.append((s, lab, fz))
        return out

    def _call_facts(self, c, F, copy, from_op):
        nm = c.name
        d = c.dest
        if c.inlined or c.fn is None or not c.args:
            return []
        a0 = c.args[0]
        tr = (c.trait or "").split("::")[-1]
        src = (a0[1], a0[2]) if a0[0] == "p" else None
        v = F.get(src) if src else None
        head = type_head(c.fn.get("impl_self", "")) if c.fn.get("impl_self") else ""
        if nm == "branch" and tr == "Try" and src:
            fs = [(k, x) for k, x in copy(src, d) if k != d]
            m = {"Ok": "Continue", "Some": "Continue", "Continue": "Continue", "Err": "Break", "None": "Break", "Break": "Break"}.get(v)
            if m:
                fs.append((d, m))
            return fs
        if nm == "from_residual":
            t = self.vtype[d[0]] if not d[1] else ""
            fs = copy(src, d) if src else []
            fs = [(k, x) for k, x in fs if k != d]
            h = type_head(t) if t else ""
            if h == "Result":
                fs.append((d, "Err"))
            elif h == "Option":
                fs.append((d, "None"))
            elif h == "Poll":
                fs = [(d, "Ready"), ((d[0], d[1] + ("!",)), "Err")]
                if "Poll<std::option::Option" in t:
                    fs = [(d, "Ready"), ((d[0], d[1] + ("!",)), "Some"), ((d[0], d[1] + ("!", "!")), "Err")]
            return fs
        if head in ("Option", "Result") and src and isinstance(v, str):
            if nm in ("map_err", "as_ref", "as_mut", "cloned", "copied", "map", "as_deref", "or_else_unused", "inspect_err"):
                return [(d, v)]
            if nm in ("ok_or", "ok_or_else"):
                return [(d, "Ok" if v == "Some" else "Err")]
            if nm == "ok":
                return [(d, "Some" if v == "Ok" else "None")]
            if nm == "err":
                return [(d, "Some" if v == "Err" else "None")]
            if nm == "transpose":
                inner = F.get((src[0], src[1] + ("!",)))
                if v == "Some" and inner in ("Ok", "Err"):
                    return [(d, inner)] + ([((d[0], d[1] + ("!",)), "Some")] if inner == "Ok" else [])
                if v == "Ok" and inner in ("Some", "None"):
                    return [(d, inner)] + ([((d[0], d[1] + ("!",)), "Ok")] if inner == "Some" else [])
                if v == "None":
                    return [(d, "Ok"), ((d[0], d[1] + ("!",)), "None")]
                if v == "Err":
                    return [(d, "Some"), ((d[0], d[1] + ("!",)), "Err")]
                return []
            if nm in ("unwrap_or", "unwrap_or_default"):
                if v in ("Some", "Ok"):
                    return copy((src[0], src[1] + ("!",)), d)
                if nm == "unwrap_or":
                    return from_op(c.args[1], d)
                return [(d, False)] if not d[1] and self.vtype[d[0]] == "bool" else []
            if nm == "map_or":
                return from_op(c.args[1], d) if v in ("None", "Err") else []
            if nm in ("is_some_and", "is_ok_and"):
                return [(d, False)] if v in ("None", "Err") else []
            if nm == "is_none_or":
                return [(d, True)] if v == "None" else []
            if nm == "and" and len(c.args) == 2:
                return [(d, v)] if v in ("Err", "None") else from_op(c.args[1], d)
            if nm == "or" and len(c.args) == 2:
                return copy(src, d) if v in ("Ok", "Some") else from_op(c.args[1], d)
            if nm in ("is_some", "is_ok"):
                return [(d, v in ("Some", "Ok"))]
            if nm in ("is_none", "is_err"):
                return [(d, v in ("None", "Err"))]
            if nm == "and_then" and v in ("None", "Err"):
                return [(d, v)]
            if nm in ("unwrap", "expect"):
                return copy((src[0], src[1] + ("!",)), d)
        if head in ("Option", "Result") and nm == "and" and len(c.args) == 2 and c.args[1][0] == "p" and F.get((c.args[1][1], c.args[1][2])) in ("Err", "None"):
            return [(d, F[(c.args[1][1], c.args[1][2])])]
        if tr == "Not" and isinstance(v, bool):
            return [(d, not v)]
        if nm in ("into_future", "new_unchecked", "must_use", "from", "into", "clone") and src:
            return copy(src, d)
        return []

    # ---- graph helpers ----------------------------------------------------
    def _xreach(self, starts, avoid=(), avoid_edges=()):
        seen = set()
        st = [s for s in starts if self.xnode[s] not in avoid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            b = self.xnode[x]
            for s, lab in self.xsucc[x]:
                if s in seen or self.xnode[s] in avoid:
                    continue
                if avoid_edges and (b, lab) in avoid_edges:
                    continue
                st.append(s)
        return seen

    def reachable(self, start, avoid=(), avoid_edges=()):
        """base nodes reachable (inclusive) from start, never entering `avoid`"""
        starts = start if isinstance(start, (list, set, tuple)) else [start]
        xs = [x for s in starts for x in self.xof.get(s, [])]
        return {self.xnode[x] for x in self._xreach(xs, set(avoid), set(avoid_edges))}

    def from_start(self, avoid=(), avoid_edges=()):
        return {self.xnode[x] for x in self._xreach([0], set(avoid), set(avoid_edges))}

    def after(self, nid, avoid=()):
        """nodes reachable strictly after executing nid"""
        xs = [s for x in self.xof.get(nid, []) for s, _ in self.xsucc[x]]
        return {self.xnode[x] for x in self._xreach(xs, set(avoid))}

    def always_before(self, target, via):
        """every path entry -> target passes through a node in `via` first"""
        via = set(via)
        if target in via:
            return True
        return target not in self.from_start(avoid=via)

    def never_between(self, a, b, avoid):
        """no path from a to b that avoids `avoid`"""
        return b not in self.after(a, avoid=avoid)

    def _must(self):
        """per expanded node: the switch edges and nodes on every path to it"""
        if self._must_edges is not None:
            return
        bits = {}
        names = []
        nb = {}
        def bit(k):
            if k not in bits:
                bits[k] = 1 << len(names)
                names.append(k)
            return bits[k]
        N = len(self.xnode)
        val = [None] * N
        val[0] = 0
        work = [0]
        inq = [False] * N
        sw = [self.nodes[self.xnode[i]].kind == "switch" for i in range(N)]
        from collections import deque
        work = deque([0])
        while work:
            x = work.popleft()
            inq[x] = False
            base = val[x]
            b = self.xnode[x]
            for s, lab in self.xsucc[x]:
                o = base | bit((b, lab)) if sw[x] else base
                if val[s] is None:
                    val[s] = o
                elif val[s] & o != val[s]:
                    val[s] &= o
                else:
                    continue
                if not inq[s]:
                    inq[s] = True
                    work.append(s)
        self._must_edges = val
        self._edge_names = names

    def guards(self, nid):
        """switch edges every path to nid takes: [(switch node, label)]"""
        self._must()
        xs = self.xof.get(nid, [])
        if not xs:
            return []
        v = None
        for x in xs:
            v = self._must_edges[x] if v is None else v & self._must_edges[x]
        out = []
        i = 0
        while v:
            if v & 1:
                out.append(self._edge_names[i])
            v >>= 1
            i += 1
        return out

    def loc(self, nid):
        n = self.nodes[nid]
        c = n.ctx
        ln = n.line
        return "%s:%d" % (c.body.file, ln)

    def owner(self, nid):
        return self.p.owner_fn(self.nodes[nid].ctx.body).id

    # ---- origins ----------------------------------------------------------
    def origins(self, op, muts=False):
        """operand or place -> set of origin terms"""
        if op[0] == "k":
            return {self.kterm(op[1], ())}
        return self.res(op[1], op[2], muts)

    def kterm(self, k, path):
        if "fn" in k:
            f = k["fn"]
            return ("fn", f.get("res") or f["path"], path)
        if "int" in k:
            return ("const", k["ty"], k["int"], path)
        if "str" in k:
            return ("const", "str", k["str"], path)
        if "def" in k:
            return ("const", "def", k["def"], path)
        if "static" in k:
            return ("const", "static", k["static"], path)
        return ("const", k.get("ty", "?"), k.get("s", "?"), path)

    def res(self, vid, path, muts=False):
        key = (vid, path, muts)
        if self._frozen and key in self.memo:
            return self.memo[key]
        out = set()
        self._res(vid, path, out, set(), muts)
        if self.pushes and self._frozen:
            out = self._through_pushes(out, muts, 3)
        if self._frozen:
            self.memo[key] = out
        return out

    pushes = False

    def _through_pushes(self, terms, muts, depth):
        """elements of a list that is filled by hand are what is pushed onto it"""
        if not depth:
            return terms
        if not hasattr(self, "_filled"):
            self._filled = {}
            sv, self.pushes = self.pushes, False
            for c in self.callsites:
                if c.nid in self.reach and not c.inlined and c.name in ("push", "push_back") and len(c.args) > 1:
                    for t in self.origins(c.args[0]):
                        if t[0] == "call" and not t[2]:
                            self._filled.setdefault(t[1], []).append(c.args[-1])
            self.pushes = sv
            self.memo.clear()
        out = set()
        for t in terms:
            ps = self._filled.get(t[1], ()) if t[0] == "call" and t[2] and str(t[2][0]).startswith("[") and self.nodes[t[1]].call.name in ("new", "with_capacity") else ()
            if not ps:
                out.add(t)
                continue
            for o in ps:
                if o[0] == "k":
                    out.add(self.kterm(o[1], tuple(t[2][1:])))
                else:
                    x = set()
                    self._res(o[1], tuple(o[2]) + tuple(t[2][1:]), x, set(), muts)
                    out |= self._through_pushes(x, muts, depth - 1)
        return out

    def _fixpath(self, path):
        """resolve variable indices"""
        if not any(isinstance(t, tuple) for t in path):
            return path
        new = []
        for t in path:
            if isinstance(t, tuple):
                vals = self.consts_of(t[1])
                new.append("[%d]" % vals if vals is not None else "[]")
            else:
                new.append(t)
        return tuple(new)

    def consts_of(self, vid):
        ds = self.defs.get(vid, [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use":
            o = ds[0][2][1]
            if o[0] == "k" and "int" in o[1]:
                return o[1]["int"]
            if o[0] == "p" and not o[2]:
                return self.consts_of(o[1])
        return None

    def _op(self, op, rest, out, seen, muts):
        if op[0] == "k":
            out.add(self.kterm(op[1], rest))
        else:
            self._res(op[1], op[2] + rest, out, seen, muts)

    def _res(self, vid, path, out, seen, muts):
        path = self._fixpath(path)
        if len(path) > 14:
            out.add(("unk", "deep", path))
            return
        key = (vid, path)
        if key in seen:
            return
        seen.add(key)
        ds = self.defs.get(vid)
        if not ds:
            # a parameter of the entry (or an env of a closure analysed alone)
            c0 = self.ctxs[0]
            i = vid - c0.base
            if 1 <= i <= c0.body.argc:
                out.add(("param", i, path))
            else:
                out.add(("undef", vid, path))
            return
        c0 = self.ctxs[0]
        i = vid - c0.base
        if 1 <= i <= c0.body.argc:
            out.add(("param", i, path))
        for dp, kind, payload, nid in ds:
            dp = self._fixpath(dp)
            if len(dp) <= len(path) and self._pmatch(dp, path[: len(dp)]):
                rest = path[len(dp):]
            elif len(dp) > len(path) and self._pmatch(dp[: len(path)], path):
                # partial definition
                if kind == "rv" or kind == "use":
                    out.add(("part", vid, nid, dp[len(path):]))
                continue
            else:
                continue
            if kind == "use":
                self._op(payload, rest, out, seen, muts)
            elif kind == "unk":
                out.add(("unk", "rec", rest))
            elif kind == "call":
                self._call(payload, rest, out, seen, muts)
            else:
                self._rv(payload, rest, nid, (vid, dp), out, seen, muts)
        if muts:
            for c in self.mutators(vid):
                out.add(("mut", c.nid, path))

    @staticmethod
    def _pmatch(a, b):
        for x, y in zip(a, b):
            if x == y:
                continue
            if x.startswith("[") and y.startswith("[") and (x == "[]" or y == "[]"):
                continue
            return False
        return True

    def _sidx(self, nid, rv):
        for i, (d, r, l) in enumerate(self.nodes[nid].stmts):
            if r is rv:
                return i
        return -1

    def _rv(self, rv, rest, nid, dplace, out, seen, muts):
        k = rv[0]
        if k == "use":
            self._op(rv[1], rest, out, seen, muts)
        elif k == "ref":
            self._res(rv[2][0], rv[2][1] + rest, out, seen, muts)
        elif k == "agg":
            kind = rv[1]
            si = self._sidx(nid, rv)
            if not rest:
                out.add(("agg", nid, si, ()))
                return
            t = rest[0]
            if kind[0] == "adt":
                var = kind[2]
                names = rv[3]
                if t in ("!", "!e"):
                    want = PAYLOAD_VARIANTS.get(var)
                    if var in ("Some", "Ok", "Continue", "Ready", "Err", "Break"):
                        if want == t and rv[2]:
                            self._op(rv[2][0], rest[1:], out, seen, muts)
                        return
                    if var in ("None", "Pending"):
                        return
                    # newtype seen through a payload projection
                    out.add(("agg", nid, si, rest))
                    return
                if "." in t:
                    v, f = t.split(".", 1)
                    if v != var:
                        return
                    if f in names:
                        self._op(rv[2][names.index(f)], rest[1:], out, seen, muts)
                        return
                if t in names:
                    self._op(rv[2][names.index(t)], rest[1:], out, seen, muts)
                    return
                out.add(("agg", nid, si, rest))
            elif kind[0] in ("closure", "coroutine"):
                if t.startswith("^"):
                    nm = t[1:]
                    if nm in rv[3]:
                        self._op(rv[2][rv[3].index(nm)], rest[1:], out, seen, muts)
                        return
                    if nm.isdigit() and int(nm) < len(rv[2]):
                        self._op(rv[2][int(nm)], rest[1:], out, seen, muts)
                        return
                # an awaited/called value of the closure
                out.add(("agg", nid, si, rest))
            elif kind[0] == "tuple":
                if t.isdigit() and int(t) < len(rv[2]):
                    self._op(rv[2][int(t)], rest[1:], out, seen, muts)
                else:
                    out.add(("agg", nid, si, rest))
            elif kind[0] == "array":
                mm = re.match(r"^\[(\d+)\]$", t)
                if mm and int(mm.group(1)) < len(rv[2]):
                    self._op(rv[2][int(mm.group(1))], rest[1:], out, seen, muts)
                elif t.startswith("["):
                    for o in rv[2]:
                        self._op(o, rest[1:], out, seen, muts)
                else:
                    out.add(("agg", nid, si, rest))
            else:
                out.add(("agg", nid, si, rest))
        elif k in ("bin", "un"):
            if rest and rest[0] == "0" and rv[1].endswith("WithOverflow"):
                rest = rest[1:]
            out.add(("expr", nid, self._sidx(nid, rv), rest))
        elif k == "discr":
            out.add(("expr", nid, self._sidx(nid, rv), rest))
        elif k == "repeat":
            if rest and rest[0].startswith("["):
                self._op(rv[1], rest[1:], out, seen, muts)
            else:
                out.add(("expr", nid, self._sidx(nid, rv), rest))
        else:
            out.add(("expr", nid, self._sidx(nid, rv), rest))

    def _call(self, c, rest, out, seen, muts):
        """value of `rest` within the result of an opaque call"""
        f = c.fn
        nm = c.name
        a = c.args
        cr = getattr(self, "closure_results", {}).get(c.nid, [])
        def op(i, r):
            self._op(a[i], r, out, seen, muts)
        def clo(r):
            for ai, o in cr:
                self._res(o, r, out, seen, muts)
        islocal = bool(f and (f.get("local") or f.get("res_local")))
        if f is None or (islocal and not (nm in ("clone", "deref", "deref_mut", "as_ref") and c.trait)):
            out.add(("call", c.nid, rest))
            return
        tr = (c.trait or "").split("::")[-1]
        imp = f.get("impl_self", "")
        impl_head = type_head(imp) if imp else ""
        h = self.head(c)
        if nm == "branch" and tr == "Try":
            op(0, rest)
            return
        if nm == "from_residual":
            # residual: only the error side survives
            if rest and rest[0] == "!":
                return
            if rest and rest[0] == "!e":
                op(0, rest)
                return
            out.add(("residual", c.nid, rest))
            return
        if nm in ("from_output",):
            if rest and rest[0] == "!":
                op(0, rest[1:])
                return
        if nm == "from" and tr == "From" and len(a) == 1:
            op(0, rest)
            return
        if nm == "into" and tr == "Into":
            op(0, rest)
            return
        if nm in ("new", "pin", "from") and impl_head in ("Box", "Arc", "Rc", "Pin", "Mutex", "RwLock", "Cell", "RefCell", "Cursor", "BufReader", "BufWriter", "Some"):
            op(0, rest)
            return
        if nm in IDENT and len(a) >= 1:
            op(0, rest)
            return
        if nm in ("unwrap", "expect", "unwrap_unchecked"):
            op(0, ("!",) + rest)
            return
        if nm in ("unwrap_err", "expect_err"):
            op(0, ("!e",) + rest)
            return
        if nm == "unwrap_or":
            op(0, ("!",) + rest)
            op(1, rest)
            return
        if nm == "unwrap_or_default":
            op(0, ("!",) + rest)
            out.add(("const", "default", "default", rest))
            return
        if nm == "unwrap_or_else":
            op(0, ("!",) + rest)
            clo(rest)
            return
        if impl_head == "bool" and rest[:1] == ("!",):
            if nm == "then" and cr:
                clo(rest[1:])
                return
            if nm == "then_some":
                op(1, rest[1:])
                return
        if impl_head in ("Option", "Result") or tr in ("TryFutureExt", "FutureExt"):
            if nm in ("map", "map_ok") and cr:
                if rest and rest[0] == "!":
                    clo(rest[1:])
                    return
                if rest and rest[0] == "!e":
                    op(0, rest)
                    return
            if nm == "and_then" and cr:
                if rest and rest[0] == "!e":
                    op(0, rest)
                if rest:
                    clo(rest)
                    return
            if nm == "map_err":
                if rest and rest[0] == "!":
                    op(0, rest)
                    return
                if rest and rest[0] == "!e" and cr:
                    clo(rest[1:])
                    return
            if nm in ("map_or", "map_or_else") and cr:
                if nm == "map_or":
                    op(1, rest)
                clo(rest)
                return
            if nm in ("ok_or", "ok_or_else"):
                if rest and rest[0] == "!":
                    op(0, rest)
                    return
                if rest and rest[0] == "!e":
                    if nm == "ok_or":
                        op(1, rest[1:])
                    else:
                        clo(rest[1:])
                    return
            if nm == "ok":
                if rest and rest[0] == "!":
                    op(0, rest)
                    return
            if nm == "err":
                if rest and rest[0] == "!":
                    op(0, ("!e",) + rest[1:])
                    return
            if nm in ("filter", "inspect", "take", "replace", "insert_unused", "get_or_insert_with"):
                if rest and rest[0] == "!":
                    op(0, rest)
                    if nm == "get_or_insert_with":
                        clo(rest[1:])
                    return
            if nm in ("or", "xor"):
                if rest:
                    op(0, rest)
                    op(1, rest)
                    return
            if nm == "or_else" and cr:
                if rest:
                    if rest[0] == "!":
                        op(0, rest)
                    clo(rest)
                    return
            if nm == "zip" and rest[:1] == ("!",) and len(rest) > 1:
                op(0 if rest[1] == "0" else 1, ("!",) + rest[2:])
                return
            if nm == "transpose" and rest[:2] == ("!", "!"):
                op(0, rest)
                return
            if nm == "flatten" and rest[:1] == ("!",):
                op(0, ("!", "!") + rest[1:])
                return
        if nm == "next" and tr in ("Iterator", "StreamExt", "DoubleEndedIterator"):
            if rest and rest[0] == "!":
                op(0, ("[]",) + rest[1:])
                return
        if nm == "swap" and h == "mem":
            out.add(("call", c.nid, rest))
            return
        if nm in ("take", "replace") and h == "mem":
            op(0, rest)
            return
        if nm in ("peek", "last", "first", "get", "get_mut", "pop", "nth", "last_mut", "next_back", "min", "max", "find") and rest[:1] == ("!",) and tr not in ("Layer",):
            if nm in ("get", "get_mut") and impl_head not in ("Vec", "HashMap", "[T]", "BTreeMap") and not imp.startswith("["):
                pass
            else:
                op(0, ("[]",) + rest[1:])
                return
        if tr in ("Iterator", "Itertools", "IntoParallelIterator", "ParallelIterator", "IntoParallelRefIterator", "StreamExt"):
            if nm == "map" and cr:
                if rest and rest[0].startswith("["):
                    clo(rest[1:])
                    return
            elif nm in ("filter", "skip", "take", "rev", "chain", "peekable", "fuse", "dedup", "inspect", "step_by", "skip_while", "take_while",
                        "par_iter", "into_par_iter", "sorted", "sorted_by", "sorted_by_key", "unique", "merge", "cloned", "copied"):
                if rest and rest[0].startswith("["):
                    op(0, ("[]",) + rest[1:])
                    if nm in ("chain", "merge"):
                        op(1, ("[]",) + rest[1:])
                    return
            elif nm == "enumerate":
                if rest and rest[0].startswith("["):
                    if rest[1:2] == ("1",):
                        op(0, ("[]",) + rest[2:])
                        return
            elif nm == "zip":
                if rest and rest[0].startswith("[") and rest[1:2] in (("0",), ("1",)):
                    op(int(rest[1]), ("[]",) + rest[2:])
                    return
            elif nm in ("filter_map",) and cr:
                if rest and rest[0].startswith("["):
                    clo(("!",) + rest[1:])
                    return
            elif nm in ("flat_map",) and cr:
                if rest and rest[0].startswith("["):
                    clo(("[]",) + rest[1:])
                    return
            elif nm == "flatten":
                if rest and rest[0].startswith("["):
                    op(0, ("[]",) + rest)
                    return
            elif nm in ("collect", "collect_vec"):
                if rest:
                    op(0, rest)
                    # collect::<Result<Vec<_>,_>>
                    if rest[0] == "!" and len(rest) > 1:
                        op(0, (rest[1], "!") + rest[2:])
                    return
            elif nm == "fold" and cr:
                op(1, rest)
                clo(rest)
                return
        if nm in ("index", "index_mut") and tr in ("Index", "IndexMut"):
            v = None
            if a[1][0] == "k" and "int" in a[1][1]:
                v = a[1][1]["int"]
            elif a[1][0] == "p" and not a[1][2]:
                v = self.consts_of(a[1][1])
            if "Range" in (c.gargs[1] if len(c.gargs) > 1 else ""):
                op(0, rest)
                return
            if (c.self_ty or "").find("Map<") >= 0:
                out.add(("call", c.nid, rest))
                return
            op(0, ("[%d]" % v if v is not None else "[]",) + rest)
            return
        if nm in ("lock", "read", "write", "try_lock", "borrow", "borrow_mut", "lock_owned") and impl_head in ("Mutex", "RwLock", "RefCell") or (nm in ("upgrade", "downgrade") and impl_head in ("Arc", "Weak")):
            # guard over the protected value: expose both the call and the data
            if rest:
                r = rest[1:] if rest[0] == "!" else rest
                op(0, r)
                return
        out.add(("call", c.nid, rest))

    def head(self, c):
        p = c.path.split("::")
        return p[-2] if len(p) > 1 else ""

    def mutators(self, vid):
        """opaque calls that receive `&mut` to the variable"""
        if not hasattr(self, "_mut"):
            self._mut = defaultdict(list)
            for c in self.calls:
                if c.inlined:
                    continue
                for a in c.args:
                    if a[0] == "p":
                        for v in self._refmut_targets(a[1], a[2], set()):
                            self._mut[v].append(c)
        return self._mut.get(vid, [])

    def _ref_places(self, vid, seen):
        """places of local variables a mutable reference points at"""
        if vid in seen:
            return
        seen.add(vid)
        for dp, kind, payload, nid in list(self.defs.get(vid, [])):
            if dp != ():
                continue
            if kind == "rv" and payload[0] == "ref" and payload[1] == "mut":
                t = payload[2]
                if self.vtype[t[0]].startswith("&"):
                    yield from self._ref_places(t[0], seen)
                else:
                    yield t
            elif kind == "rv" and payload[0] == "use" and payload[1][0] == "p" and not payload[1][2]:
                yield from self._ref_places(payload[1][1], seen)

    def _refmut_targets(self, vid, path, seen):
        if vid in seen:
            return
        seen.add(vid)
        for dp, kind, payload, nid in self.defs.get(vid, []):
            if dp != ():
                continue
            if kind == "rv" and payload[0] == "ref" and payload[1] == "mut":
                yield payload[2][0]
                yield from self._refmut_targets(payload[2][0], (), seen)
            elif kind == "rv" and payload[0] == "use" and payload[1][0] == "p":
                yield from self._refmut_targets(payload[1][1], (), seen)
            elif kind == "use" and payload[0] == "p":
                if self.vtype[vid].startswith("&mut"):
                    yield from self._refmut_targets(payload[1], (), seen)
            elif kind == "call" and payload.name in ("deref_mut", "as_mut", "index_mut") and payload.args and payload.args[0][0] == "p":
                yield from self._refmut_targets(payload.args[0][1], (), seen)

    # ---- expansion helpers ------------------------------------------------
    def callof(self, term):
        if term[0] in ("call", "residual", "mut"):
            return self.nodes[term[1]].call
        return None

    def leaves(self, op, depth=8, muts=True, stop=None):
        """transitive leaf terms feeding a value (through opaque calls' arguments,
        expressions and aggregates).  `stop(call)` true keeps a call as a leaf."""
        out = set()
        seen = set()
        work = [(t, depth) for t in (self.origins(op, muts) if op[0] in ("p", "k") else [op])]
        level, nxt = work, []
        while level or nxt:
            # level by level, so that the depth limit does not depend on the order
            if not level:
                level, nxt = nxt, []
            t, d = level.pop()
            if t in seen:
                continue
            seen.add(t)
            k = t[0]
            if k in ("call", "residual", "mut"):
                c = self.callof(t)
                if k == "call":
                    out.add(t)
                if d <= 0 or (stop and stop(c)):
                    continue
                for a in c.args:
                    for x in self.origins(a, muts):
                        nxt.append((x, d - 1))
                for ai, o in getattr(self, "closure_results", {}).get(c.nid, []):
                    for x in self.res(o, (), muts):
                        nxt.append((x, d - 1))
            elif k in ("agg", "expr"):
                rv = self.nodes[t[1]].stmts[t[2]][1]
                out.add(t)
                if d <= 0:
                    continue
                ops = []
                if rv[0] == "agg":
                    ops = rv[2]
                elif rv[0] == "bin":
                    ops = [rv[2], rv[3]]
                elif rv[0] == "un":
                    ops = [rv[2]]
                elif rv[0] == "discr":
                    ops = [("p", rv[1][0], rv[1][1], False)]
                elif rv[0] == "repeat":
                    ops = [rv[1]]
                for o in ops:
                    for x in self.origins(o, muts):
                        nxt.append((x, d - 1))
            elif k == "part":
                out.add(t)
                for dp, kind, payload, nid in self.defs[t[1]]:
                    if nid == t[2]:
                        if kind == "use":
                            for x in self.origins(payload, muts):
                                nxt.append((x, d - 1))
                        elif kind == "rv":
                            tmp = set()
                            self._rv(payload, (), nid, (t[1], dp), tmp, set(), muts)
                            for x in tmp:
                                nxt.append((x, d - 1))
            else:
                out.add(t)
        return out

    def stmt(self, t):
        return self.nodes[t[1]].stmts[t[2]][1]

    def find_calls(self, pred, inlined=True):
        return [c for c in self.callsites if (inlined or not c.inlined) and pred(c)]


def pname(flat, term):
    """parameter name of a ("param", i, path) term"""
    if term[0] == "param":
        ps = flat.entry.params or []
        return ps[term[1] - 1] if term[1] - 1 < len(ps) else "?"
    return None
