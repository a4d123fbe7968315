"""P02, P03 (and parts of P06): order of writing, flushing, syncing and renaming."""
from rules.lib import *
import flow
from flow import filefx, exec_nodes, await_nodes, after_failure, exit_variants
from rules import labels as lb


def execs(f, calls):
    return [n for c in calls for n in exec_nodes(f, c)]


def ok_nodes(f):
    """nodes at which a non-error outcome is produced (the exit, where it is a forwarded call)"""
    out = []
    for k, n, t in returns(f):
        if k == "err":
            continue
        out.append(n if n is not None and k != "call" else f.exit)
    return out or [f.exit]


def idents(fx, opens):
    return {fx.opens[o].key for o in opens}


class Durable:
    def __init__(self, f):
        self.f = f
        self.fx = filefx(f)
        fx = self.fx
        self.srckeys = {a for c, a, b in fx.renames}
        self.oks = ok_nodes(f)

    def open_keys(self, opens):
        return {self.fx.opens[o].key for o in opens}

    def dirsyncs(self, key):
        """syncs of a directory that contains a file with this path"""
        f, fx = self.f, self.fx
        out = []
        for c, o in fx.syncs:
            if not o:
                continue
            ks = [fx.opens[x] for x in o]
            if all(not x.writable and not x.creates and x.key < key for x in ks):
                out.append(c)
        return out

    def reaches_ok(self, nid, avoid):
        r = self.f.after(nid, avoid=avoid)
        return [n for n in self.oks if n in r]

    def data_rules(self, R, rule, S):
        """write -> flush -> sync before success, for every write"""
        f, fx = self.f, self.fx
        for c, opens, kind in fx.writes:
            w = f.loc(c.nid)
            en = exec_nodes(f, c)
            if not R.ob(rule, "%s:%s:awaited" % (S, c.name), bool(en), "%s is never awaited" % c.name, w):
                continue
            if not R.ob(rule, "%s:%s:file" % (S, c.name), bool(opens), "the file written cannot be determined", w):
                continue
            ks = self.open_keys(opens)
            syn = [x for x, o in fx.syncs if self.open_keys(o) & ks]
            sx = execs(f, syn)
            fl = execs(f, [x for x, o in fx.flushes if self.open_keys(o) & ks])
            for n in en:
                bad = self.reaches_ok(n, sx)
                R.ob(rule, "%s:%s:synced" % (S, c.name), not bad, "success without a sync of the file after %s" % c.name, w)
                if kind == "write":
                    for s in sx:
                        R.ob(rule, "%s:%s:flushed" % (S, c.name), f.never_between(n, s, fl), "synced without having been flushed after %s" % c.name, f.loc(s))

    def name_rules(self, R, rule, S):
        """new or replaced directory entries are durable before success"""
        f, fx = self.f, self.fx
        for nid, o in fx.opens.items():
            if not o.creates or o.key in self.srckeys:
                continue
            ds = execs(f, self.dirsyncs(o.key))
            for n in exec_nodes(f, o.call):
                R.ob(rule, "%s:create:entry" % S, not self.reaches_ok(n, ds), "success without a sync of the directory of the file created", f.loc(n))
        for c, a, z in fx.renames:
            ds = execs(f, self.dirsyncs(z))
            en = exec_nodes(f, c)
            R.ob(rule, "%s:rename:awaited" % S, bool(en), "rename is never awaited", f.loc(c.nid))
            for n in en:
                R.ob(rule, "%s:rename:entry" % S, not self.reaches_ok(n, ds), "success without a sync of the directory after the rename", f.loc(n))

    def aside_rules(self, R, rule, S):
        """a file moved into place is complete and durable before it is moved"""
        f, fx = self.f, self.fx
        for c, a, z in fx.renames:
            R.ob(rule, S + ":rename:distinct", a != z, "the file is renamed onto itself", f.loc(c.nid))
            for w, opens, kind in fx.writes:
                if a not in self.open_keys(opens):
                    continue
                sx = execs(f, [x for x, o in fx.syncs if a in self.open_keys(o)])
                for n in exec_nodes(f, w):
                    for r in exec_nodes(f, c):
                        R.ob(rule, S + ":rename:after-sync", f.never_between(n, r, sx), "the file is moved into place before what was written has been synced", f.loc(r))
                        R.ob(rule, S + ":rename:last", n not in f.after(r), "the file is written after it was moved into place", f.loc(n))
            wr = [w for w, opens, kind in fx.writes if a in self.open_keys(opens)] + [w for w, k in fx.whole if k == a]
            for r in exec_nodes(f, c):
                R.ob(rule, S + ":rename:written", bool(wr), "nothing is written to the file moved into place", f.loc(r))
            for nid, o in fx.opens.items():
                if o.key == a and o.writable:
                    R.ob(rule, S + ":aside:empty", bool(o.modes.get("truncate") or o.modes.get("create_new")), "the file written aside may still hold older content", f.loc(nid))

    def inplace(self):
        """writes that change a file readers use: [(what, node)]"""
        f, fx = self.f, self.fx
        out = []
        for nid, o in fx.opens.items():
            if o.key in self.srckeys or o.fresh:
                continue
            if o.modes.get("truncate"):
                out.append(("open-truncate", nid))
        for c, opens, kind in fx.writes:
            for o in opens:
                op = fx.opens[o]
                if op.fresh or op.key in self.srckeys:
                    continue
                out.append((kind, c.nid))
                break
        for c, k in fx.whole:
            if k not in self.srckeys:
                out.append((c.name, c.nid))
        return out

    def errors(self, R, rule, S):
        f, fx = self.f, self.fx
        cut = flow.notfound_cut(f)
        cs = [(c, "write") for c, o, k in fx.writes] + [(c, "flush") for c, o in fx.flushes] + [(c, "sync") for c, o in fx.syncs] \
            + [(c, "rename") for c, a, b in fx.renames] + [(o.call, "open") for o in fx.opens.values()]
        for c, what in cs:
            ty = f.vtype[c.dest[0]]
            if type_head(ty) == "bool":
                continue
            v = exit_variants(f, after_failure(f, c, cut))
            R.ob(rule, "%s:%s" % (S, c.name), v <= {"Err"}, "success (%s) although %s failed" % (sorted(map(str, v)), c.name), f.loc(c.nid))


def dir_label_stores(prog):
    out = []
    for S, b in lb.label_stores(prog):
        bs = [(m, prog.impl_fn(S, "LabelStore", m)) for m in ("create_label", "set_label_option", "delete_label")]
        fs = [(m, b2, flat(prog, b2)) for m, b2 in bs]
        if any(filefx(f).writes or filefx(f).opens or filefx(f).whole for m, b2, f in fs):
            out.append((S, fs))
    return out


def p02(R, prog):
    R.rule("synced", "after every write to a label file the file is flushed and then synced on every path to success")
    R.rule("entry", "after a label file is created or moved into place its directory is synced on every path to success")
    R.rule("replaced", "where an existing label file is rewritten in place, it is rewound and cut to length; where it is replaced, the file moved into place is complete")
    R.rule("memory-after-file", "the in-memory copy of labels is changed only after every file operation of the change, and the change always reaches it")
    R.rule("fails", "a failing open, write, flush, sync or rename of a label file never ends in success")
    R.floor("synced", 5)
    R.floor("entry", 3)
    R.floor("memory-after-file", 4)
    R.floor("fails", 14)
    stores = dir_label_stores(prog)
    R.ob("synced", "stores", len(stores) >= 2, "only %d label stores on files" % len(stores))
    for S, fs in stores:
        for m, b, f in fs:
            R.saw(f)
            key = S + "::" + m
            D = Durable(f)
            D.data_rules(R, "synced", key)
            D.name_rules(R, "entry", key)
            D.aside_rules(R, "replaced", key)
            D.errors(R, "fails", key)
            for c, k in D.fx.whole:
                R.ob("synced", key + ":" + c.name, any(k in D.open_keys(o) for x, o in D.fx.syncs), "the file written is never synced", f.loc(c.nid))
            if m == "set_label_option":
                inplace_rules(R, f, D, key)
                R.ob("synced", key + ":writes", bool(D.fx.writes or D.fx.whole), "an update writes no file", "%s:%d" % (b.file, b.line))
            if m == "create_label":
                R.ob("synced", key + ":writes", bool(D.fx.writes or D.fx.whole), "a creation writes no file", "%s:%d" % (b.file, b.line))
            # memory after file
            maps = [(nid, c) for nid, c, k, v in lb.map_writes(f)]
            files = [c for c, o, k in D.fx.writes] + [c for c, o in D.fx.flushes] + [c for c, o in D.fx.syncs] + [c for c, a, z in D.fx.renames] \
                + [c for c, k in D.fx.whole] + [c for c, k in D.fx.removes]
            fe = execs(f, files)
            for nid, c in maps:
                aft = f.after(nid)
                R.ob("memory-after-file", key + ":order", not any(x in aft for x in fe), "the in-memory label is changed before the file is done", f.loc(nid))
                groups = []
                if D.fx.renames:
                    groups.append(execs(f, [c2 for c2, a, z in D.fx.renames]))
                sy = [c2 for c2, o in D.fx.syncs if any(D.fx.opens[x].writable for x in o)]
                if sy:
                    groups.append(execs(f, sy))
                if D.fx.removes and m == "delete_label":
                    groups.append(execs(f, [c2 for c2, k in D.fx.removes]))
                for g in groups:
                    R.ob("memory-after-file", key + ":before", f.always_before(nid, g), "the in-memory label is changed on a path without the file operation", f.loc(nid))
                R.ob("memory-after-file", key + ":some", bool(groups), "the in-memory label is changed without any file operation", f.loc(nid))


def inplace_rules(R, f, D, key):
    fx = D.fx
    for nid, o in fx.opens.items():
        if not o.writable or o.fresh or o.key in D.srckeys:
            continue
        wr = [c for c, opens, kind in fx.writes if kind == "write" and nid in opens]
        if not wr:
            continue
        cut = [c for c, opens, kind in fx.writes if kind == "set_len" and nid in opens]
        en = execs(f, cut)
        trunc = o.modes.get("truncate")
        for c in wr:
            for n in exec_nodes(f, c):
                ok = bool(trunc) or f.always_before(n, en) or not D.reaches_ok(n, en)
                R.ob("replaced", key + ":cut", ok, "the rest of the old content stays in the file", f.loc(n))
        seeks = []
        for c in f.callsites:
            if c.name in ("seek", "rewind") and not c.inlined and nid in fx.file_of(c):
                if c.name == "rewind":
                    seeks.append(c)
                    continue
                for t in f.origins(c.args[1]):
                    if variant_of(f, t) == "Start":
                        a = f.stmt(t)[2][0]
                        if all(x[0] == "const" and str(x[2]) == "0" for x in f.origins(a)):
                            seeks.append(c)
        sx = execs(f, seeks)
        for r, opens in fx.reads:
            if nid not in opens:
                continue
            for rn in exec_nodes(f, r):
                for c in wr + cut:
                    for n in exec_nodes(f, c):
                        # set_len to a constant needs no rewinding
                        if c in cut and all(t[0] == "const" for t in f.origins(c.args[1])):
                            continue
                        R.ob("replaced", key + ":rewound", f.never_between(rn, n, sx), "%s at the position the old content was read to" % c.name, f.loc(n))


def p03(R, prog):
    R.rule("in-place", "no file that readers use is truncated or written in place; only files created under a new name or later moved into place are written")
    R.rule("aside", "a file moved into place was completely written and synced first, and is not written afterwards")
    R.rule("scan", "all storage operations that open files for writing are covered")
    n = 0
    seen = 0
    ents = entries(prog)
    for b in ents:
        f = flat(prog, b, R=R)
        D = Durable(f)
        fx = D.fx
        if not (fx.opens or fx.writes or fx.renames or fx.whole):
            continue
        seen += 1
        key = short(b)
        bad = D.inplace()
        if any(o.writable or o.creates for o in fx.opens.values()) or fx.whole or fx.renames:
            n += 1
            R.ob("in-place", key, not bad, "changes a file in place: %s" % sorted({w for w, _ in bad}), f.loc(bad[0][1]) if bad else "%s:%d" % (b.file, b.line))
        D.aside_rules(R, "aside", key)
    R.ob("scan", "writers", n >= 5, "only %d storage operations that write files were found" % n)
    R.ob("scan", "readers", seen >= 10, "only %d storage operations that open files were found" % seen)
    R.floor("in-place", 5)
    R.floor("aside", 6)


STORE_TRAITS = ("LabelStore", "ArchiveBackend", "ArchiveMetadataBackend", "PersistentLayerStore")


def entries(prog):
    """operations of the stores that use files"""
    out = []
    for b in prog.bodies.values():
        tr = (b.impl_trait or "").split("::")[-1].split("<")[0]
        if tr in STORE_TRAITS and b.kind in ("AssocFn", "Fn") and type_head(b.impl_self) not in ("LruArchiveBackend",):
            out.append(b)
    return sorted(out, key=lambda b: b.id)
