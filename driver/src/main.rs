#![feature(rustc_private)]
//! Dumps resolved facts about a crate (MIR as built, before any transformation,
//! plus item tables) as JSON lines.  Used as RUSTC_WORKSPACE_WRAPPER; it acts as
//! plain rustc for every crate but the one named by MIRFACTS_CRATE.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T, F: FnMut(T) -> String>(it: impl Iterator<Item = T>, f: F) -> String {
    format!("[{}]", it.map(f).collect::<Vec<_>>().join(","))
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn tys(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn upvars(&self, d: DefId) -> Vec<String> {
        if let Some(l) = d.as_local() {
            self.tcx
                .closure_captures(l)
                .iter()
                .map(|c| c.to_string(self.tcx))
                .collect()
        } else {
            vec![]
        }
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut out = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let i = f.as_usize();
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::FIRST_VARIANT),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            let u = self.upvars(*d);
                            match u.get(i) {
                                Some(n) => format!("^{}", n),
                                None => format!("^{}", i),
                            }
                        }
                        _ => format!("{}", i),
                    };
                    format!("[\"f\",{},{}]", i, esc(&name))
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    format!("[\"v\",{}]", esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                _ => "\"?\"".to_string(),
            };
            out.push(',');
            out.push_str(&s);
            pty = pty.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }

    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "{{\"path\":{},\"name\":{}",
            esc(&path(tcx, d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())
        );
        if d.is_local() {
            o.push_str(",\"local\":true");
        } else if tcx.crate_name(d.krate).as_str() == "tdb_succinct"
            && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
        {
            let names = tcx.fn_arg_idents(d);
            let _ = write!(
                o,
                ",\"params\":{}",
                list(names.iter(), |i| esc(
                    &i.map(|i| i.to_string()).unwrap_or_default()
                ))
            );
        }
        let gs: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| esc(&with_no_trimmed_paths!(format!("{}", a))))
            .collect();
        if !gs.is_empty() {
            let _ = write!(o, ",\"gargs\":[{}]", gs.join(","));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&path(tcx, t)));
            if let Some(st) = args.types().next() {
                let _ = write!(o, ",\"self_ty\":{}", esc(&tys(st)));
            }
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                let rd = i.def_id();
                if rd != d {
                    let _ = write!(o, ",\"res\":{}", esc(&path(tcx, rd)));
                    if rd.is_local() {
                        o.push_str(",\"res_local\":true");
                    }
                }
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl_self\":{}", esc(&tys(st)));
        }
        o.push('}');
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"fn\":{}}}", self.fndef(*d, args.skip_binder()));
        }
        let mut o = format!("{{\"ty\":{}", esc(&tys(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{}", esc(&path(tcx, u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_usize());
            }
        }
        let _ = write!(
            o,
            ",\"s\":{}",
            esc(&with_no_trimmed_paths!(format!("{}", c.const_)))
        );
        // scalar value
        if let Const::Val(..) | Const::Ty(..) = c.const_ {
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(b) = c.const_.try_eval_bits(tcx, self.env) {
                    let _ = write!(o, ",\"int\":{}", b);
                }
            }
            if let Const::Val(v, vt) = c.const_ {
                if let ty::Ref(_, inner, _) = vt.kind() {
                    if inner.is_str() {
                        if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(o, ",\"str\":{}", esc(&String::from_utf8_lossy(bytes)));
                        }
                    }
                }
            }
        }
        if let Some(sd) = c.check_static_ptr(tcx) {
            let _ = write!(o, ",\"static\":{}", esc(&path(tcx, sd)));
        }
        o.push('}');
        o
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(c)),
            _ => "{\"k\":{\"s\":\"?runtime\"}}".to_string(),
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), esc(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                match k {
                    BorrowKind::Shared => "\"shared\"",
                    BorrowKind::Fake(_) => "\"fake\"",
                    _ => "\"mut\"",
                },
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.op(o),
                esc(&tys(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.op(&ops.0),
                self.op(&ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                let mut vs = String::from("[");
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        let mut first = true;
                        for (vi, d) in def.discriminants(tcx) {
                            if !first {
                                vs.push(',');
                            }
                            first = false;
                            let _ = write!(vs, "[\"{}\",{}]", d.val, esc(def.variant(vi).name.as_str()));
                        }
                    }
                }
                vs.push(']');
                format!("[\"discr\",{},{}]", self.place(p), vs)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(tcx, *d))),
            Rvalue::Aggregate(k, ops) => {
                let (kind, names): (String, Vec<String>) = match &**k {
                    AggregateKind::Array(_) => ("[\"array\"]".into(), vec![]),
                    AggregateKind::Tuple => ("[\"tuple\"]".into(), vec![]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names = if let Some(f) = f {
                            vec![var.fields[*f].name.to_string()]
                        } else {
                            var.fields.iter().map(|f| f.name.to_string()).collect()
                        };
                        (
                            format!(
                                "[\"adt\",{},{}]",
                                esc(&path(tcx, *d)),
                                esc(var.name.as_str())
                            ),
                            names,
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        (format!("[\"closure\",{}]", esc(&bid(tcx, *d))), self.upvars(*d))
                    }
                    AggregateKind::Coroutine(d, _) => {
                        (format!("[\"coroutine\",{}]", esc(&bid(tcx, *d))), self.upvars(*d))
                    }
                    _ => ("[\"other\"]".into(), vec![]),
                };
                format!(
                    "[\"agg\",{},{},{}]",
                    kind,
                    list(ops.iter(), |o| self.op(o)),
                    list(names.iter(), |n| esc(n))
                )
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            _ => "null".into(),
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> String {
        let b = |x: &BasicBlock| x.as_usize();
        let ln = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", b(target)),
            TerminatorKind::SwitchInt { discr, targets } => format!(
                "[\"switch\",{},{},{},{}]",
                self.op(discr),
                list(targets.iter(), |(v, t)| format!("[\"{}\",{}]", v, b(&t))),
                b(&targets.otherwise()),
                ln
            ),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Drop {
                place,
                target,
                unwind,
                ..
            } => format!(
                "[\"drop\",{},{},{},{}]",
                self.place(place),
                b(target),
                Self::unwind(unwind),
                ln
            ),
            TerminatorKind::Call {
                func,
                args,
                destination,
                target,
                unwind,
                ..
            } => format!(
                "[\"call\",{},{},{},{},{},{}]",
                self.op(func),
                list(args.iter(), |a| self.op(&a.node)),
                self.place(destination),
                target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                Self::unwind(unwind),
                ln
            ),
            TerminatorKind::Assert {
                cond,
                expected,
                msg,
                target,
                ..
            } => format!(
                "[\"assert\",{},{},{},{},{}]",
                self.op(cond),
                expected,
                b(target),
                esc(&format!("{:?}", std::mem::discriminant(&**msg))),
                ln
            ),
            TerminatorKind::Yield { value, resume, resume_arg, .. } => format!(
                "[\"yield\",{},{},{},{}]",
                self.op(value),
                b(resume),
                self.place(resume_arg),
                ln
            ),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", b(real_target)),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", b(real_target)),
            k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
        }
    }
}

/// identity of a body: unique def path (closures carry an index)
fn bid(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = path(tcx, d);
    match tcx.def_kind(d) {
        DefKind::Closure => {
            // def_path_str gives `foo::{closure#0}` already
            p
        }
        _ => p,
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId, body: &Body<'tcx>, out: &mut String) {
    let did = d.to_def_id();
    let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
    let cx = Cx {
        tcx,
        body,
        env,
        owner: d,
    };
    let _ = cx.owner;
    let sm = tcx.sess.source_map();
    let loc = sm.lookup_char_pos(body.span.source_callsite().lo());
    let file = format!("{}", loc.file.name.prefer_local_unconditionally());
    let kind = tcx.def_kind(did);
    let _ = write!(
        out,
        "{{\"t\":\"body\",\"id\":{},\"kind\":{},\"name\":{},\"file\":{},\"line\":{},\"parent\":{},\"argc\":{}",
        esc(&bid(tcx, did)),
        esc(&format!("{:?}", kind)),
        esc(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()),
        esc(&file),
        loc.line,
        esc(&path(tcx, tcx.parent(did))),
        body.arg_count
    );
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
        let vis = with_no_trimmed_paths!(format!("{:?}", tcx.visibility(did)));
        let _ = write!(out, ",\"vis\":{}", esc(&vis));
        let _ = write!(out, ",\"async\":{}", tcx.asyncness(did).is_async());
        let names = tcx.fn_arg_idents(did);
        let _ = write!(
            out,
            ",\"params\":{}",
            list(names.iter(), |i| esc(
                &i.map(|i| i.to_string()).unwrap_or_default()
            ))
        );
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
        let _ = write!(out, ",\"ret\":{}", esc(&tys(sig.output())));
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(out, ",\"impl_self\":{}", esc(&tys(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(out, ",\"impl_trait\":{}", esc(&path(tcx, tr.def_id)));
                if let Some(ti) = tcx.trait_item_of(did) {
                    let _ = write!(out, ",\"trait_item\":{}", esc(&path(tcx, ti)));
                }
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(out, ",\"in_trait\":{}", esc(&path(tcx, tr)));
        }
    }
    if matches!(kind, DefKind::Closure) {
        let ups: Vec<String> = tcx
            .closure_captures(d)
            .iter()
            .map(|c| c.to_string(tcx))
            .collect();
        let _ = write!(out, ",\"upvars\":{}", list(ups.iter(), |n| esc(n)));
        let _ = write!(out, ",\"coroutine\":{}", tcx.is_coroutine(did));
    }
    let _ = write!(
        out,
        ",\"locals\":{}",
        list(body.local_decls.iter(), |l| esc(&tys(l.ty)))
    );
    let _ = write!(
        out,
        ",\"muts\":{}",
        list(body.local_decls.iter(), |l| if l.mutability.is_mut() { "1".into() } else { "0".into() })
    );
    let mut dbg = vec![];
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            dbg.push(format!("[{},{}]", esc(v.name.as_str()), cx.place(&p)));
        }
    }
    let _ = write!(out, ",\"vars\":[{}]", dbg.join(","));
    out.push_str(",\"blocks\":[");
    for (i, bb) in body.basic_blocks.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str("{\"s\":[");
        let mut first = true;
        for s in &bb.statements {
            let t = match &s.kind {
                StatementKind::Assign(a) => Some(format!(
                    "[\"=\",{},{},{}]",
                    cx.place(&a.0),
                    cx.rv(&a.1),
                    cx.line(s.source_info.span)
                )),
                StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
                StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                    "[\"setd\",{},{}]",
                    cx.place(place),
                    variant_index.as_usize()
                )),
                _ => None,
            };
            if let Some(t) = t {
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str(&t);
            }
        }
        let _ = write!(out, "],\"t\":{}", cx.term(bb.terminator()));
        if bb.is_cleanup {
            out.push_str(",\"cl\":1");
        }
        out.push('}');
    }
    out.push_str("]}\n");
}

fn dump_items<'tcx>(tcx: TyCtxt<'tcx>, out: &mut String) {
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        let ev = tcx.effective_visibilities(()).is_exported(d);
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let _ = write!(
                    out,
                    "{{\"t\":\"adt\",\"id\":{},\"exported\":{},\"enum\":{},\"variants\":[",
                    esc(&path(tcx, did)),
                    ev,
                    def.is_enum()
                );
                let discrs: Vec<String> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| format!("{}", d.val)).collect()
                } else {
                    vec!["0".into()]
                };
                for (i, v) in def.variants().iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(
                        out,
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                        esc(v.name.as_str()),
                        discrs[i],
                        list(v.fields.iter(), |f| format!(
                            "[{},{},{}]",
                            esc(f.name.as_str()),
                            esc(&tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                            esc(&with_no_trimmed_paths!(format!("{:?}", f.vis)))
                        ))
                    );
                }
                out.push_str("]}\n");
            }
            DefKind::Trait => {
                let items = tcx.associated_items(did);
                let _ = write!(
                    out,
                    "{{\"t\":\"trait\",\"id\":{},\"exported\":{},\"items\":{}}}\n",
                    esc(&path(tcx, did)),
                    ev,
                    list(items.in_definition_order(), |i| {
                        let mut x = format!(
                            "[{},{}",
                            esc(&i.opt_name().map(|s| s.to_string()).unwrap_or_default()),
                            i.defaultness(tcx).has_value()
                        );
                        if i.is_fn() {
                            let names = tcx.fn_arg_idents(i.def_id);
                            let sig = tcx.fn_sig(i.def_id).instantiate_identity().skip_norm_wip().skip_binder();
                            let _ = write!(
                                x,
                                ",{},{},{}",
                                list(names.iter(), |i| esc(
                                    &i.map(|i| i.to_string()).unwrap_or_default()
                                )),
                                list(sig.inputs().iter(), |t| esc(&tys(*t))),
                                esc(&tys(sig.output()))
                            );
                        }
                        x.push(']');
                        x
                    })
                );
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    with_no_trimmed_paths!(format!("{}", t))
                } else {
                    String::new()
                };
                let items = tcx.associated_items(did);
                let _ = write!(
                    out,
                    "{{\"t\":\"impl\",\"self\":{},\"trait\":{},\"items\":{}}}\n",
                    esc(&tys(st)),
                    esc(&tr),
                    list(items.in_definition_order(), |i| format!(
                        "[{},{}]",
                        esc(&i.opt_name().map(|s| s.to_string()).unwrap_or_default()),
                        esc(&path(tcx, i.def_id))
                    ))
                );
            }
            DefKind::AssocFn | DefKind::Fn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let _ = write!(
                    out,
                    "{{\"t\":\"fn\",\"id\":{},\"exported\":{},\"inputs\":{},\"ret\":{}}}\n",
                    esc(&path(tcx, did)),
                    ev,
                    list(sig.inputs().iter(), |t| esc(&tys(*t))),
                    esc(&tys(sig.output()))
                );
            }
            _ => {}
        }
    }
}

struct Cb {
    out: String,
}

type MirBuilt = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: std::sync::OnceLock<MirBuilt> = std::sync::OnceLock::new();
thread_local! {
    // bodies as they came out of MIR building; later queries steal the originals
    static BODIES: std::cell::RefCell<Vec<(LocalDefId, Body<'static>)>> =
        std::cell::RefCell::new(Vec::new());
}
fn my_mir_built<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b: Body<'tcx> = r.borrow().clone();
    // only read back in after_expansion, while the same tcx is alive
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|v| v.borrow_mut().push((d, b)));
    r
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        for d in tcx.hir_body_owners() {
            match tcx.def_kind(d) {
                DefKind::AnonConst => continue,
                _ => {}
            }
            let _ = tcx.mir_built(d);
        }
        let all = BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
        for (d, b) in all {
            if matches!(tcx.def_kind(d), DefKind::AnonConst) {
                continue;
            }
            let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
            bodies.push((d, b));
        }
        let mut out = String::new();
        for (d, b) in &bodies {
            dump_body(tcx, *d, b, &mut out);
        }
        dump_items(tcx, &mut out);
        let _ = write!(out, "{{\"t\":\"end\",\"bodies\":{}}}\n", bodies.len());
        let mut f = std::fs::File::create(&self.out).expect("create facts file");
        f.write_all(out.as_bytes()).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as wrapper: argv[1] is the rustc path
    args.remove(0);
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let code = rustc_driver_impl::catch_with_exit_code(move || {
        if krate == want && !out.is_empty() {
            rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
        }
    });
    code
}
