"""P18: walking a layer's history."""
from rules.lib import *
from rules import graph
import flow
import qlib
from flow import exec_nodes, explore, result_starts, avoid_cut

STEPS = {"get_layer_parent_name": [((), "Ok"), (("!",), "Some")], "layer_parent": [((), "Ok"), (("!",), "Some")],
         "read_parent_file": [((), "Ok")], "immediate_parent": [((), "Some")]}
ASK = "layer_has_parent"
PUT = {"push", "push_back", "push_front", "insert", "extend"}
PICK = {"last", "back", "pop", "last_mut", "back_mut", "pop_back", "unwrap", "expect", "deref", "as_ref", "copied", "cloned"}
# walks that stop at the first layer that answers
SEARCH = re.compile(r"^(subject_id|predicate_id|object_node_id|object_value_id|id_subject|id_predicate|id_object|id_object_is_node|triple_exists|single_triple_sp|layer_is_ancestor_of)$")
# of these a layer is asked only where an earlier answer of the same layer calls for it
LOCAL = re.compile(r"id_map$|_dict_len$|^(pos|neg)_|_dict_get$")
SPECIAL = {"get_layer_with_cache", "safe_upto_bound"}


def private(x, d):
    return x.kind not in ("Fn", "AssocFn") or x.vis != "Public" and not x.impl_trait and not x.in_trait


def wflat(prog, b, loops=frozenset()):
    ops = ({x.id for x in prog.bodies.values() if x.name in STEPS or x.name == ASK} | loops) - {b.id}
    return flat(prog, b, opaque=ops, inline=lambda x, d: private(x, d) and x.id not in ops)


class Walks:
    """the walks from layer to parent in one function"""

    def __init__(self, f):
        self.f = f
        live = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
        self.live = live
        self.steps = [c for c in live if c.name in STEPS and c.args]
        self.asks = [c for c in live if c.name == ASK]
        self.cyc = [c for c in self.steps if c.nid in f.after(c.nid)]
        self.ids = {c.nid for c in self.steps}
        self._m = {}

    def members(self, nid):
        """values put into the collection created at call nid"""
        f = self.f
        if nid not in self._m:
            self._m[nid] = out = []
            for c in self.live:
                if c.name in PUT and len(c.args) > 1 and any(t[0] == "call" and t[1] == nid and not t[2] for t in f.origins(c.args[0])):
                    out.append(c.args[-1])
            c = next((x for x in f.callsites if x.nid == nid), None)
            if c is not None and c.dest:
                for n in f.reach:
                    for d, rv, ln in f.nodes[n].stmts:
                        if d[0] == c.dest[0] and d[1] and rv[0] == "agg" and rv[1][0] == "array":
                            out.extend(rv[2])
        return self._m[nid]

    def terms(self, op, depth=6):
        """{("step", nid) | ("root", term)}: the layers an operand may stand for"""
        return self.of(self.f.origins(op), depth)

    def of(self, ts, depth=6):
        f = self.f
        out = set()
        for t in ts:
            if t[0] == "part":
                continue
            if t[0] == "agg":
                v = variant_of(f, t)
                if v == "None":
                    continue
                if v == "Some" and depth:
                    out |= self.terms(f.stmt(t)[2][0], depth - 1)
                    continue
            if t[0] == "call":
                if t[1] in self.ids:
                    out.add(("step", t[1]))
                    continue
                if t[2][:1] == ("[]",) and depth:
                    ms = self.members(t[1])
                    for m in ms:
                        rest = t[2][1:]
                        o = ("p", m[1], m[2] + rest, False) if m[0] == "p" and rest else m
                        out |= self.terms(o, depth - 1)
                    if ms:
                        continue
            out.add(("root", t))
        return out

    def layerish(self, op):
        if op[0] != "p" or op[2]:
            return False
        ty = (self.f.vtype[op[1]] or "").replace("&", "").replace("mut ", "").strip()
        return ty in ("[u32; 5]", "layer::internal::InternalLayer") or ty.endswith("::InternalLayer")

    def layer_arg(self, c):
        """the layer a call is about"""
        if c.name in PUT:
            return c.args[-1] if len(c.args) > 1 and self.layerish(c.args[-1]) else None
        if c.name in STEPS or c.name == ASK:
            return c.args[-1]
        h = ((c.trait or "") or (c.self_ty or "")).split("::")[-1]
        a = [o for o in c.args if self.layerish(o)]
        if "Store" in h or c.trait and c.trait.endswith("Store"):
            a = [o for o in c.args[1:] if self.layerish(o)]
        elif not (c.args and self.layerish(c.args[0]) and "InternalLayer" in (self.f.vtype[c.args[0][1]] or "")):
            return None
        return a[0] if a else None

    def rounds(self):
        """explorations from the start or from a parent found to the next step:
        [(label, call or None, seen)]"""
        f = self.f
        stop = {n for c in self.cyc + self.asks for n in [c.nid]}
        yield None, flow.explore_from_start(f, avoid_cut(stop))
        for c in self.cyc:
            yield c, explore(f, result_starts(f, c, STEPS[c.name]), avoid_cut(stop))
        for c in self.asks:
            yield c, explore(f, result_starts(f, c, [((), "Ok"), (("!",), True)]), avoid_cut(stop))


def go(f, starts, nodes=(), edges=()):
    """exploration that enters none of `nodes` and takes none of `edges`"""
    return explore(f, [x for x in starts if x[0] not in nodes], lambda n, l, x: x in nodes or (n, l) in edges)


def cyclic(f, n):
    return n in f.after(n)


def p18(R, prog):
    R.rule("own", "every step of a walk asks the layer reached for its parent, and what is collected in a round is asked of the layer reached, not of the one the walk began at")
    R.rule("advance", "where a layer has a parent, the walk goes on from that parent")
    R.rule("every", "what a walk collects is collected from every layer it reaches, once")
    R.rule("ends", "a walk without boundary succeeds only at a layer without parent; a walk with a boundary succeeds only there, never looks at the boundary itself, and fails where it is not found")
    R.rule("order", "a list of the layers of a stack starts at the bottom")
    R.rule("whole", "users of such a list use all of it, and where a walk in memory is continued on disk the second starts where the first ended")
    cand = []
    walkers = {}
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or b.name in STEPS:
            continue
        f = wflat(prog, b)
        w = Walks(f)
        if not w.cyc:
            continue
        cand.append((b, f, w))
    loops = frozenset(b.id for b, f, w in cand if private(b, 0) and own_loop(prog, b, f, w))
    for b, f, w in cand:
        if any(c.inlined and c.target in loops for c in f.callsites):
            f = wflat(prog, b, loops)
            w = Walks(f)
        if not w.cyc:
            continue
        R.saw(f)
        one(R, prog, b, f, w)
        walkers[b.id] = (b, f, w)
    for tr, names in NEED.items():
        for n in names:
            bs = [b for b in prog.bodies.values() if b.name == n and b.kind in ("Fn", "AssocFn") and (b.in_trait or b.impl_trait or b.impl_self or "").split("::")[-1] == tr and type_head(b.impl_self or "").split("::")[-1] != "CachedLayerStore"]
            bs = [b for b in bs if b.blocks]
            R.ob("own", n + ": present", bool(bs), "no implementation of `%s`" % n)
            for b in bs:
                ok = b.id in walkers or by_list(prog, b)
                R.ob("own", short(b) + ": walks", ok, "`%s` does not walk from parent to parent" % short(b), "%s:%d" % (b.file, b.line))
    whole(R, prog, walkers)
    safe(R, prog)
    R.floor("own", 60)
    R.floor("advance", 20)
    R.floor("every", 30)
    R.floor("ends", 25)
    R.floor("order", 5)
    R.floor("whole", 20)


NEED = {"LayerStore": ("layer_changes", "layer_changes_upto", "retrieve_layer_stack_names", "retrieve_layer_stack_names_upto", "layer_is_ancestor_of"),
        "InternalLayer": ("layer_stack_size", "immediate_layers", "immediate_layers_upto"),
        "Layer": ()}
LISTS = {"immediate_layers", "immediate_layers_upto", "retrieve_layer_stack_names", "retrieve_layer_stack_names_upto"}


def by_list(prog, b):
    f = wflat(prog, b)
    return any(c.nid in f.reach and (c.name in LISTS - {b.name} or c.name == "successors") for c in f.callsites)


def own_loop(prog, b, f, w):
    """a walk of its own, complete with its loop"""
    return any(any(t[0] == "step" for t in w.terms(w.layer_arg(c))) for c in w.cyc)


def one(R, prog, b, f, w):
    k = short(b)
    where = "%s:%d" % (b.file, b.line)
    # a step in a loop is asked of a layer the loop brings up
    chains = []
    for c in w.cyc:
        ts = w.terms(w.layer_arg(c))
        st = {t for t in ts if t[0] == "step"}
        rt = {t[1] for t in ts if t[0] == "root"}
        fresh = bool(rt) and any(t[0] == "call" and ("[]" in t[2] or cyclic(f, t[1])) for t in rt)
        ok = bool(st) or fresh or b.name in SPECIAL
        R.ob("own", "%s: %s" % (k, c.name), ok, "`%s` asks for the parent of %s in every round" % (k, tset(f, rt)), f.loc(c.nid))
        if st:
            chains.append(c)
    if not chains:
        return
    # steps before the loop that lead into it
    work = list(chains)
    links = {}
    while work:
        x = work.pop()
        for t in w.terms(w.layer_arg(x)):
            if t[0] == "step":
                links.setdefault(x.nid, set()).add(t[1])
                if t[1] not in {c.nid for c in chains}:
                    c = next(x for x in w.steps if x.nid == t[1])
                    chains.append(c)
                    work.append(c)
    # one walk is the steps linked to each other
    comp = {c.nid: {c.nid} for c in chains}
    for x, ys in links.items():
        for y in ys:
            m = comp[x] | comp[y]
            for z in m:
                comp[z] = m
    done = set()
    for c in chains:
        if c.nid not in done:
            done |= comp[c.nid]
            part(R, b, k, f, w, [x for x in chains if x.nid in comp[c.nid]])


def part(R, b, k, f, w, chains):
    cids = {c.nid for c in chains}
    roots = {t[1] for c in chains for t in w.terms(w.layer_arg(c)) if t[0] == "root"}
    asks = [c for c in w.asks if cyclic(f, c.nid) and near(f, c, chains)]
    for c in asks:
        ts = w.terms(c.args[-1])
        R.ob("own", "%s: %s" % (k, c.name), any(t[0] == "step" for t in ts), "`%s` asks %s in every round whether it has a parent" % (k, tset(f, {t[1] for t in ts if t[0] == "root"})), f.loc(c.nid))
    # visits
    visits = {}
    for c in w.live:
        if c.nid in w.ids or c in w.asks or c.name in ("name", "name_to_string"):
            continue
        a = w.layer_arg(c)
        if a is None:
            continue
        ts = w.terms(a)
        cyc = near(f, c, chains)
        if not ts or not any(t[0] == "step" and t[1] in cids or t[0] == "root" and t[1] in roots and (cyc or not cyclic(f, c.nid)) for t in ts):
            continue
        visits.setdefault(key(c), []).append((c, ts, cyc))
    for nm, vs in visits.items():
        for c, ts, cyc in vs:
            if cyc:
                R.ob("own", "%s: %s in the walk" % (k, c.name), any(t[0] == "step" for t in ts), "`%s` asks %s for `%s` in every round of the walk" % (k, tset(f, {t[1] for t in ts if t[0] == "root"}), c.name), f.loc(c.nid))
    if b.name != "get_layer_with_cache":
        advance(R, k, f, w, chains)
    if b.name in SPECIAL:
        return
    every(R, b, k, f, w, chains, visits)
    ends(R, b, k, f, w, chains, roots, visits)
    order(R, b, k, f, w, visits)


def near(f, c, chains):
    """the call is repeated with the steps of the walk"""
    return any(x.nid in f.after(c.nid) and c.nid in f.after(x.nid) for x in chains)


def key(c):
    return "put" if c.name in PUT else c.name


def advance(R, k, f, w, chains):
    """between a parent found and the next step the walk moves to that parent"""
    for c in chains:
        nxt = [d for d in chains if ("step", c.nid) in w.terms(w.layer_arg(d))]
        R.ob("advance", "%s: %s" % (k, c.name), bool(nxt) or c.nid not in f.after(c.nid), "the parent found is not where `%s` goes on" % k, f.loc(c.nid))
        for d in nxt:
            mv = moves(f, w, c, w.layer_arg(d))
            if mv is True:
                continue
            s = go(f, result_starts(f, c, STEPS[c.name]), mv)
            hit = d.nid in s and d.nid not in mv
            R.ob("advance", "%s: moves before %s" % (k, d.name), not hit, "`%s` can ask the same layer again instead of its parent" % k, f.loc(c.nid))


def moves(f, w, c, op):
    """nodes where the loop's variable takes the parent found by c (True: it is that result)"""
    seen, work, out = set(), [op], set()
    if op[0] != "p":
        return out
    if w.terms(op) <= {("step", c.nid)}:
        return True
    res = {c.dest[0]} if c.dest else set()
    res |= {d[0] for n, d, ty in flow.result_points(f, c)}
    while work:
        o = work.pop()
        if o[0] != "p" or (o[1], o[2]) in seen:
            continue
        seen.add((o[1], o[2]))
        if o[1] in res:
            return True  # asked straight of the result
        for n in f.reach:
            for d, rv, ln in f.nodes[n].stmts:
                if d[0] != o[1] or rv[0] == "dead":
                    continue
                m = min(len(d[1]), len(o[2]))
                if d[1][:m] != o[2][:m]:
                    continue
                rest = o[2][len(d[1]):]
                for x in below(rv, rest):
                    t = w.terms(x)
                    if t == {("step", c.nid)}:
                        out.add(n)
                    elif ("step", c.nid) in t or not t or x[2]:
                        work.append(x)
        for x in w.live:
            if x.dest and x.dest[0] == o[1] and x.nid not in w.ids:
                work += list(x.args)
            if x.name in PUT and len(x.args) > 1 and w.terms(x.args[-1]) == {("step", c.nid)}:
                out.add(x.nid)
    return out


def below(rv, rest):
    """the operands of a statement that hold what lies at path `rest` of its result"""
    if rv[0] == "agg":
        if rest and rv[1][0] in ("tuple", "adt", "closure") and rv[3] and rest[0] in rv[3]:
            o = rv[2][list(rv[3]).index(rest[0])]
            return [("p", o[1], o[2] + rest[1:], False)] if o[0] == "p" else []
        if rest and rest[0].isdigit() and int(rest[0]) < len(rv[2]):
            o = rv[2][int(rest[0])]
            return [("p", o[1], o[2] + rest[1:], False)] if o[0] == "p" else []
        return list(rv[2])
    return [("p", o[1], o[2] + rest, False) for o in rvops(rv) if o[0] == "p"]


def rvops(rv):
    if rv[0] == "agg":
        return list(rv[2])
    if rv[0] == "ref":
        return [("p", rv[2][0], rv[2][1], False)]
    return [x for x in rv[1:] if isinstance(x, tuple) and x and x[0] in ("p", "k") and len(x) >= 2]


# what is collected of a layer (as opposed to asked in passing)
DATA = re.compile(r"^get_|^put$|triple|_counts?$|dict|id_?map|_len$|adjacency|subjects|objects|wavelet")


def counted(R, b, k, f, w, chains):
    """the size of a stack: one, and one more for each parent"""
    if b.name != "layer_stack_size":
        return
    inc = {n for n in f.reach for d, rv, ln in f.nodes[n].stmts if rv[0] == "bin" and rv[1].startswith("Add") and any(o[0] == "k" and o[1].get("int") == 1 for o in rv[2:4])}
    for c in chains:
        s = go(f, result_starts(f, c, STEPS[c.name]), inc)
        hit = [d for d in chains if d.nid in s] or f.exit in s
        R.ob("every", k + ": counted", not hit, "`%s` can go past a layer without counting it" % k, f.loc(c.nid))
        for n in inc:
            again = f.after(n, avoid={d.nid for d in chains})
            R.ob("every", k + ": counted once", not (again & inc), "`%s` counts a layer twice" % k, f.loc(n))
    ints = {t[2] for t in f.res(f.retvar, ()) if t[0] == "const"}
    R.ob("every", k + ": first", not ints or ints <= {1, "1"}, "the count starts at %s" % ints, "%s:%d" % (b.file, b.line))


def optional(b, nm):
    return bool(SEARCH.match(b.name)) and bool(LOCAL.search(nm))


def boundary(f, w):
    """(nodes comparing, edges on equality, edges on difference) of layer names
    reached with a name given"""
    def side(op):
        ts = f.origins(op)
        out = set()
        for t in ts:
            if t[0] == "call" and f.callof(t).name == "name":
                out |= w.terms(f.callof(t).args[0])
            else:
                out |= w.of({t})
        return out

    def hit(a, truth):
        if a[0] != "eq" or a[3] is not truth:
            return False
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            sx, sy = side(x), side(y)
            if any(t[0] == "step" for t in sx) and sy and all(t[0] == "root" and t[1][0] == "param" for t in sy) and not any(t in sx for t in sy):
                return True
        return False
    te = flow.edges_where(f, lambda a: hit(a, True))
    fe = flow.edges_where(f, lambda a: hit(a, False))
    return {n for n, l in te | fe}, te, fe


def upto_param(b):
    """the boundary: a second layer name among the parameters, next to a layer or name"""
    names = [i for i in range(1, b.argc + 1) if (b.locals[i] or "").strip() == "[u32; 5]"]
    layers = [i for i in range(1, b.argc + 1) if "InternalLayer" in (b.locals[i] or "")]
    if layers and names:
        return names[-1]
    return names[1] if len(names) > 1 else None


def every(R, b, k, f, w, chains, visits):
    cids = {c.nid for c in chains}
    asks = {c.nid for c in w.asks if near(f, c, chains)}
    stop = cids | asks
    cmp, te, fe = boundary(f, w)
    counted(R, b, k, f, w, chains)
    gone = set()  # where the walk has left the first layer
    for c in chains:
        for d in chains:
            if ("step", c.nid) in w.terms(w.layer_arg(d)):
                mv = moves(f, w, c, w.layer_arg(d))
                gone |= {d.nid} if mv is True else mv
    for nm, vs in sorted(visits.items()):
        if optional(b, nm) or not DATA.search(nm) or not any(cyc for c, ts, cyc in vs):
            continue
        nodes = {c.nid for c, ts, cyc in vs}
        first = {c.nid for c, ts, cyc in vs if any(t[0] == "root" for t in ts)}
        made = set()
        for c, ts, cyc in vs:
            if nm == "put":
                for t in f.origins(c.args[0]):
                    if t[0] == "call":
                        made.add(t[1])
        pre = {t for x in made for t in w.members(x) if not any(t is c.args[-1] for c, ts, cyc in vs)}
        if not pre:
            s = go(f, flow.start_states(f), first, te)
            hit = [n for n in gone if n in s]
            # a second layer may be reached without asking the first only if the first has no say
            R.ob("every", "%s: %s of the first layer" % (k, nm), not hit, "`%s` can go past the first layer without its `%s`" % (k, nm), f.loc(hit[0]) if hit else "")
        for c in chains:
            mine = {v.nid for v, ts, cyc in vs if ("step", c.nid) in ts}
            s = go(f, result_starts(f, c, STEPS[c.name]), mine, te)
            hit = [d for d in chains if d.nid in s and d.nid not in mine]
            R.ob("every", "%s: %s of each parent" % (k, nm), not hit, "`%s` can go past a layer without its `%s`" % (k, nm), f.loc(c.nid))
            if not SEARCH.match(b.name):
                ex = {x for x in flow.exit_variants(f, s)} if f.exit in s else set()
                R.ob("every", "%s: %s of the last layer" % (k, nm), not (ex - {"Err"}), "`%s` can end without the `%s` of a layer it has reached" % (k, nm), f.loc(c.nid))
        if SEARCH.match(b.name):
            continue
        for c, ts, cyc in vs:
            again = f.after(c.nid, avoid=stop)
            hit = [d for d, ts2, cy in vs if d.nid in again and d.nid != c.nid or d.nid == c.nid and c.nid in again]
            R.ob("every", "%s: %s once" % (k, nm), not hit, "`%s` takes the `%s` of a layer twice" % (k, nm), f.loc(c.nid))


def ends(R, b, k, f, w, chains, roots, visits):
    if SEARCH.match(b.name):
        return
    cids = {c.nid for c in chains}
    asks = [c for c in w.asks if near(f, c, chains)]
    stop = cids | {c.nid for c in asks}
    bound = upto_param(b)
    cmp, te, fe = boundary(f, w)
    if b.name in ("squash_upto",) or bound and not te and all(t[0] == "param" and t[1] == bound for t in roots):
        bound = None  # the walk starts at the boundary
    if bound and not chain_root_inlined(f, w, chains, roots, bound):
        return  # several walks of helpers, each looked at by itself
    starts = [("the start", flow.start_states(f))]
    starts += [("a parent found", result_starts(f, c, STEPS[c.name])) for c in chains]
    starts += [("a parent announced", result_starts(f, c, [((), "Ok"), (("!",), True)])) for c in asks]

    for what, st in starts:
        s = go(f, st, stop, te if bound else ())
        v = flow.exit_variants(f, s) if f.exit in s else set()
        bad = v - {"Err"}
        if what == "the start" and not bound:
            # getting there without a step at all: fine only if nothing was looked at
            bad = bad if any(x.nid in s for vs in visits.values() for x, ts, cyc in vs) else set()
        R.ob("ends", "%s: %s" % (k, what), not bad, "`%s` can end with success after %s, without having reached %s" % (k, what, "the boundary" if bound else "a layer without parent"), "%s:%d" % (b.file, b.line))
    if not bound:
        return
    R.ob("ends", k + ": boundary", bool(te), "`%s` compares no layer with its boundary" % k, "%s:%d" % (b.file, b.line))
    # not found: an error or a panic
    for c in chains:
        none = [((), "Ok"), (("!",), "None")] if c.name in ("get_layer_parent_name", "layer_parent") else [((), "None")] if c.name == "immediate_parent" else None
        if none:
            s = go(f, result_starts(f, c, none), stop)
            v = flow.exit_variants(f, s) if f.exit in s else set()
            R.ob("ends", k + ": not found", not (v - {"Err"}), "`%s` succeeds although the boundary was not found" % k, f.loc(c.nid))
    for c in asks:
        s = go(f, result_starts(f, c, [((), "Ok"), (("!",), False)]), stop)
        v = flow.exit_variants(f, s) if f.exit in s else set()
        R.ob("ends", k + ": not found", not (v - {"Err"}), "`%s` succeeds although the boundary was not found" % k, f.loc(c.nid))
    # compared in every round, and before the layer is looked at
    for c in chains:
        s = go(f, result_starts(f, c, STEPS[c.name]), cmp)
        hit = [d for d in chains if d.nid in s]
        R.ob("ends", k + ": compared each round", not hit, "`%s` can go past a layer without comparing it with the boundary" % k, f.loc(c.nid))
        for nm, vs in visits.items():
            hit = [d for d, ts, cyc in vs if d.nid in s and cyc and ("step", c.nid) in ts]
            R.ob("ends", "%s: compared before %s" % (k, nm), not hit, "`%s` takes the `%s` of a layer before comparing it with the boundary" % (k, nm), f.loc(c.nid))
    # the boundary itself is not part of the walk
    loop = {d.nid for vs in visits.values() for d, ts, cyc in vs if cyc} | cids
    for n, l in sorted(te):
        for sx, lab in f.nodes[n].succ:
            if lab == l:
                r = f.after(sx, avoid=()) | {sx}
                hit = [x for x in loop if x in r]
                R.ob("ends", k + ": stops at the boundary", not hit, "`%s` goes on after the boundary was reached" % k, f.loc(n))


def chain_root_inlined(f, w, chains, roots, bound):
    return len({c.nid for c in chains if cyclic(f, c.nid)}) == 1


def order(R, b, k, f, w, visits):
    ret = f.entry.ret or ""
    ty = f.vtype[f.retvar] or ""
    full = ret or ty
    if "Vec<" not in full or SEARCH.match(b.name) or b.name == "squash_upto":
        return
    rev = {c.nid for c in w.live if c.name in ("reverse", "rev")}
    front = {c.nid for c in w.live if cyclic(f, c.nid) and (c.name == "push_front" or c.name == "insert" and len(c.args) == 3)}
    back = {c.nid for c in w.live if cyclic(f, c.nid) and c.name in ("push", "push_back", "extend")}
    ok_n = success(f)
    hit = [n for x in back for n in ok_n if n in f.after(x, avoid=rev)]
    R.ob("order", k + ": bottom first", (back or front) and not hit, "`%s` can return its layers from the top down" % k, "%s:%d" % (b.file, b.line))
    twice = [n for n in rev | front if any(m in f.after(n) for m in rev)]
    R.ob("order", k + ": turned once", not twice, "`%s` turns its list around twice" % k, "%s:%d" % (b.file, b.line))


def success(f):
    if not any(kd in ("ok", "err") for kd, n, t in returns(f)):
        return [f.exit]
    return [n for kd, n, t in returns(f) if kd != "err" and n is not None] or [f.exit]


# ----------------------------------------------------------------- consumers

DROP = {"skip", "take", "skip_while", "take_while", "filter", "step_by", "pop", "remove", "drain", "split_off", "truncate", "swap", "dedup", "rev", "reverse", "split_first", "split_last", "swap_remove", "retain", "sort", "sort_unstable", "map_while"}
LIST_FNS = LISTS


def whole(R, prog, walkers):
    priv = {i for i, (b, f, w) in walkers.items() if private(b, 0) and not b.impl_trait and b.name not in SPECIAL}
    lists = priv | {b.id for b in prog.bodies.values() if b.name in LISTS}
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ("Fn", "AssocFn") or b.name in LISTS or b.id in priv:
            continue
        ops = lists | {x.id for x in prog.bodies.values() if x.name in ("safe_upto_bound", "layer_changes_upto", "from_layer_stack")}
        f = flat(prog, b, opaque=ops - {b.id}, inline=lambda x, d: private(x, d) and x.id not in ops)
        src = [c for c in f.callsites if c.nid in f.reach and not c.inlined and (c.name in LISTS or c.target in priv)]
        meet(R, b, f, prog, priv)
        if not src or b.name in SPECIAL:
            continue
        R.saw(f)
        ids = {c.nid for c in src}
        R.ob("whole", short(b), True)
        for c in f.callsites:
            if c.nid not in f.reach or c.inlined or not c.args or c.name not in DROP:
                continue
            ts = f.origins(c.args[0])
            hit = [t for t in ts if t[0] == "call" and t[1] in ids and all(x == "!" for x in t[2])]
            R.ob("whole", "%s: %s" % (short(b), c.name), not hit, "`%s` does not use all the layers given by `%s`, or not in their order" % (short(b), f.callof(hit[0]).name if hit else ""), f.loc(c.nid))


def safe(R, prog):
    """the lowest layer in memory that is also found on disk above the boundary"""
    for b in prog.find(name="safe_upto_bound"):
        f = wflat(prog, b)
        w = Walks(f)
        k = short(b)
        found = flow.edges_where(f, lambda a: a[0] == "variant" and a[1][0] == "call" and set(a[2]) == {"Some"} and f.callof(a[1]).name in ("position", "rposition", "find", "iter_position", "binary_search")
                                 or a[0] == "bool" and a[1][0] == "call" and a[2] is True and f.callof(a[1]).name in ("contains", "any"))
        for c in w.cyc:
            s = go(f, result_starts(f, c, STEPS[c.name]), (), found)
            R.ob("whole", k + ": on disk", not any(d.nid in s for d in w.cyc), "`%s` goes on from a layer without having found it on disk" % k, f.loc(c.nid))
        lst = [c for c in w.live if c.name == "retrieve_layer_stack_names_upto"]
        R.ob("whole", k + ": disk list", bool(lst), "`%s` does not ask which layers are on disk" % k, "%s:%d" % (b.file, b.line))


def meet(R, b, f, prog, priv):
    """a walk in memory down to some layer goes on, on disk, at that layer"""
    live = [c for c in f.callsites if c.nid in f.reach and not c.inlined]
    mem = [(c, c.args[-1]) for c in live if c.name in ("immediate_layers_upto", "from_layer_stack")]
    disk = [(c, c.args[-2], c.args[-1]) for c in live if len(c.args) >= 3 and (c.name == "layer_changes_upto" or c.target in priv and prog.bodies[c.target].argc >= 3)]
    if not mem or not disk:
        return
    lows = {frozenset(bare(f.origins(o))) for c, o in mem}
    R.ob("whole", short(b) + ": one bound", len(lows) == 1, "`%s` walks down to different layers for different parts of its result" % short(b), f.loc(mem[0][0].nid))
    for c, lo, hi in disk:
        R.ob("whole", "%s: %s goes on" % (short(b), c.name), frozenset(bare(f.origins(lo))) in lows, "the walk on disk starts at %s, the one in memory ended at %s" % (tset(f, f.origins(lo)), " / ".join(tset(f, x) for x in lows)), f.loc(c.nid))
        ts = bare(f.origins(hi))
        R.ob("whole", "%s: %s ends" % (short(b), c.name), bool(ts) and all(t[0] == "param" for t in ts) and frozenset(ts) not in lows, "the walk on disk ends at %s" % tset(f, ts), f.loc(c.nid))
    for c in live:
        if c.name == "chain" and len(c.args) == 2:
            top = [t for t in f.origins(c.args[0]) if t[0] == "call" and f.callof(t).name in ("immediate_layers_upto",)]
            low = [t for t in f.origins(c.args[1]) if t[0] == "call" and f.callof(t).target in priv]
            R.ob("whole", short(b) + ": order of chain", not top and not low, "`%s` puts the layers in memory below those on disk" % short(b), f.loc(c.nid))


bare = graph.bare
