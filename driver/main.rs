// MIR extractor: a rustc_private driver run as RUSTC_WORKSPACE_WRAPPER on /repo.
// For the crate named in HODOR_DUMP_CRATE it writes, as JSON, the freshly built MIR of every body
// (before drop elaboration and promotion), with resolved callees, field and variant names, all ADTs,
// trait impls, and effective visibility.  Nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_driver; extern crate rustc_driver_impl;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_abi;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_data_structures;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, def: LocalDefId, env: TypingEnv<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { path(self.tcx, d) }
    fn ty(&self, t: Ty<'tcx>) -> String { ty_json(self.tcx, t, 0) }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = String::new();
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut first = true;
        for e in p.projection.iter() {
            if !first { out.push(','); }
            first = false;
            match e {
                ProjectionElem::Deref => out.push_str("[\"d\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pt.variant_index { Some(v) => v, None => rustc_abi::FIRST_VARIANT };
                            adt.variant(v).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    let _ = write!(out, "[\"f\",{}]", esc(&name));
                }
                ProjectionElem::Index(l) => { let _ = write!(out, "[\"i\",{}]", l.index()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(out, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => format!("{}", v.index()),
                    };
                    let _ = write!(out, "[\"v\",{}]", esc(&name));
                }
                _ => { let _ = write!(out, "[\"?\",{}]", esc(&format!("{:?}", e))); }
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.index(), out)
    }
    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"def\":{},\"name\":{},\"local\":{}", esc(&self.path(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()), d.is_local());
        let _ = write!(o, ",\"args\":{}", arr(args.iter().filter_map(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t)),
            ty::GenericArgKind::Const(c) => Some(format!("{{\"k\":\"const\",\"s\":{}}}", esc(&c.to_string()))),
            _ => None })));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
            if args.len() > 0 {
                if let Some(t) = args.iter().next().and_then(|a| a.as_type()) {
                    let _ = write!(o, ",\"self\":{}", self.ty(t));
                }
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let _ = write!(o, ",\"impl_self\":{}", self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ty::Instance::try_resolve(tcx, self.env, d, args_e)
        }));
        if let Ok(Ok(Some(i))) = r {
            let rd = i.def_id();
            if rd != d {
                let _ = write!(o, ",\"res\":{},\"res_local\":{},\"res_args\":{}", esc(&self.path(rd)), rd.is_local(),
                  arr(i.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t))));
            }
        }
        o.push('}');
        o
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"k\":\"fn\",\"f\":{}}}", self.callee(*d, args.no_bound_vars().unwrap()));
        }
        let mut o = format!("{{\"k\":\"const\",\"ty\":{}", self.ty(t));
        // scalar value, when it can be evaluated without running user code generically
        match c.const_ {
            Const::Unevaluated(u, _) => {
                let _ = write!(o, ",\"item\":{}", self.callee(u.def, u.args));
            }
            _ => {
                if let Some(s) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
                    let bits = s.to_bits(s.size());
                    if matches!(t.kind(), ty::Int(_)) {
                        let _ = write!(o, ",\"v\":{}", s.to_int(s.size()));
                    } else {
                        let _ = write!(o, ",\"v\":{}", bits);
                    }
                }
            }
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
        }
        let _ = write!(o, ",\"s\":{}}}", esc(&c.const_.to_string()));
        o
    }
    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", op))),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(body, o)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(body, o), esc(&n.to_string())),
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut{..}), self.place(body, p)),
            Rvalue::RawPtr(m, p) => format!("{{\"k\":\"rawptr\",\"s\":{},\"p\":{}}}", esc(&format!("{:?}", m)), self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"ty\":{}}}", esc(&format!("{:?}", k)), self.operand(body, o), self.ty(*t)),
            Rvalue::BinaryOp(b, ops) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", b)), self.operand(body, &ops.0), self.operand(body, &ops.1)),
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", u)), self.operand(body, o)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{},\"ty\":{}}}", self.place(body, p), self.ty(p.ty(body, self.tcx).ty)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let (kind, names): (String, Vec<String>) = match **k {
                    AggregateKind::Array(_) => ("{\"a\":\"array\"}".into(), vec![]),
                    AggregateKind::Tuple => ("{\"a\":\"tuple\"}".into(), vec![]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(d);
                        let var = adt.variant(v);
                        (format!("{{\"a\":\"adt\",\"adt\":{},\"variant\":{},\"enum\":{}}}", esc(&self.path(d)), esc(&var.name.to_string()), adt.is_enum()),
                         ops.iter_enumerated().map(|(i, _)| var.fields[i].name.to_string()).collect())
                    }
                    AggregateKind::Closure(d, _) => (format!("{{\"a\":\"closure\",\"def\":{}}}", esc(&self.path(d))), vec![]),
                    _ => (format!("{{\"a\":\"other\",\"s\":{}}}", esc(&format!("{:?}", k))), vec![]),
                };
                format!("{{\"k\":\"agg\",\"kind\":{},\"names\":{},\"ops\":{}}}", kind, arr(names.iter().map(|n| esc(n))), arr(ops.iter().map(|o| self.operand(body, o))))
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}", lo.line)
    }
    fn body(&self, body: &Body<'tcx>) -> String {
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upnames: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names[p.local.index()] = Some(v.name.to_string()); }
                else { upnames.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(body, &p))); }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(i, d)| {
            format!("{{\"ty\":{},\"n\":{}}}", self.ty(d.ty), names[i.index()].as_ref().map(|s| esc(s)).unwrap_or("null".into()))
        }));
        let blocks = arr(body.basic_blocks.iter().map(|bb| {
            let stmts = arr(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(a) => Some(format!("{{\"k\":\"asg\",\"p\":{},\"r\":{},\"ln\":{}}}", self.place(body, &a.0), self.rvalue(body, &a.1), self.span(s.source_info.span))),
                StatementKind::SetDiscriminant { place, variant_index } => Some(format!("{{\"k\":\"setdiscr\",\"p\":{},\"v\":{}}}", self.place(body, place), variant_index.index())),
                StatementKind::Intrinsic(i) => Some(format!("{{\"k\":\"intrinsic\",\"s\":{}}}", esc(&format!("{:?}", i)))),
                _ => None,
            }));
            let t = bb.terminator();
            let ln = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, self.tcx);
                    // variant names for discriminant switches are recovered in the analyser from the discr rvalue
                    format!("{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"vals\":{},\"else\":{}}}", self.operand(body, discr), self.ty(dt),
                        arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index()))), targets.otherwise().index())
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"terminate\"}".into(),
                TerminatorKind::Drop { place, target, .. } => format!("{{\"k\":\"drop\",\"p\":{},\"t\":{}}}", self.place(body, place), target.index()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    format!("{{\"k\":\"call\",\"f\":{},\"args\":{},\"d\":{},\"dty\":{},\"t\":{},\"ln\":{}}}", self.operand(body, func),
                        arr(args.iter().map(|a| self.operand(body, &a.node))), self.place(body, destination), self.ty(destination.ty(body, self.tcx).ty),
                        target.map(|b| b.index().to_string()).unwrap_or("null".into()), ln)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(..) => "overflow".to_string(),
                        AssertKind::OverflowNeg(..) => "overflow".to_string(),
                        AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        m => format!("{:?}", m),
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(",\"len\":{},\"index\":{}", self.operand(body, len), self.operand(body, index)),
                        _ => String::new(),
                    };
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"t\":{},\"msg\":{},\"ln\":{}{}}}", self.operand(body, cond), expected, target.index(), esc(&kind), ln, extra)
                }
                k => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", k))),
            };
            format!("{{\"s\":{},\"t\":{},\"c\":{}}}", stmts, term, bb.is_cleanup)
        }));
        let d = self.def.to_def_id();
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(d);
        let lo = sm.lookup_char_pos(sp.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut extra = String::new();
        let mut parent = d;
        while tcx.is_closure_like(parent) { parent = tcx.parent(parent); }
        if let Some(im) = tcx.impl_of_assoc(parent) {
            let _ = write!(extra, ",\"impl_self\":{}", self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_trait\":{},\"impl_trait_args\":{}", esc(&self.path(tr.def_id)), arr(tr.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t))));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(parent) { let _ = write!(extra, ",\"in_trait\":{}", esc(&self.path(tr))); }
        let vis = if tcx.is_closure_like(d) { false } else { tcx.visibility(d).is_public() };
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let g = tcx.generics_of(d);
            let mut gn = vec![];
            for i in 0..g.count() { let pr = g.param_at(i, tcx); if !matches!(pr.kind, ty::GenericParamDefKind::Lifetime) { gn.push(esc(&pr.name.to_string())); } }
            let _ = write!(extra, ",\"generics\":{}", arr(gn));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(extra, ",\"unsafe\":{}", matches!(sig.safety(), rustc_hir::Safety::Unsafe));
        }
        format!("{{\"def\":{},\"kind\":{},\"file\":{},\"line\":{},\"public\":{},\"reach\":{},\"parent\":{},\"argc\":{},\"locals\":{},\"dbg\":[{}],\"blocks\":{}{}}}",
            esc(&self.path(d)), esc(&format!("{:?}", kind)), esc(&file), lo.line, vis,
            tcx.effective_visibilities(()).is_reachable(self.def), esc(&self.path(tcx.parent(d))),
            body.arg_count, locals, upnames.join(","), blocks, extra)
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // stable, line-number-free: crate::module::{impl}::name with impl blocks spelled by type
    let s = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d)));
    if d.is_local() { format!("crate::{}", s) } else { s }
}

fn ty_json<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: usize) -> String {
    if depth > 6 { return "{\"k\":\"deep\"}".into(); }
    let go = |t: Ty<'tcx>| ty_json(tcx, t, depth + 1);
    match t.kind() {
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => format!("{{\"k\":\"prim\",\"s\":{}}}", esc(&t.to_string())),
        ty::Adt(d, args) => format!("{{\"k\":\"adt\",\"s\":{},\"a\":{}}}", esc(&path(tcx, d.did())), arr(args.iter().filter_map(|a| a.as_type()).map(go))),
        ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), go(*t)),
        ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), go(*t)),
        ty::Array(t, n) => format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", go(*t), esc(&n.to_string())),
        ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", go(*t)),
        ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(ts.iter().map(go))),
        ty::Param(p) => format!("{{\"k\":\"param\",\"s\":{}}}", esc(&p.name.to_string())),
        ty::Closure(d, args) => format!("{{\"k\":\"closure\",\"s\":{},\"up\":{}}}", esc(&path(tcx, *d)),
            { let ups = args.as_closure().tupled_upvars_ty(); if let ty::Tuple(ts) = ups.kind() { arr(ts.iter().map(go)) } else { "[]".into() } }),
        ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"s\":{}}}", esc(&path(tcx, *d))),
        ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&t.to_string())),
        _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&t.to_string())),
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("HODOR_DUMP_CRATE").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name != want { return Compilation::Continue; }
        let out = std::env::var("HODOR_DUMP_OUT").expect("HODOR_DUMP_OUT");
        let mut bodies = vec![];
        let mut stolen = vec![];
        for def in tcx.hir_body_owners() {
            let d = def.to_def_id();
            let kind = tcx.def_kind(d);
            let cx = Cx { tcx, def, env: TypingEnv::post_analysis(tcx, def) };
            let b = tcx.mir_built(def);
            if b.is_stolen() { stolen.push(esc(&path(tcx, d))); continue; }
            let b = b.borrow();
            if matches!(kind, DefKind::AnonConst) { continue; }
            bodies.push(cx.body(&b));
        }
        // items
        let mut adts = vec![]; let mut impls = vec![]; let mut statics = vec![]; let mut fns_in_traits = vec![];
        let cm = tcx.hir_crate_items(());
        for id in cm.definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let vs = arr(adt.variants().iter_enumerated().map(|(_, v)| format!("{{\"n\":{},\"f\":{}}}", esc(&v.name.to_string()),
                        arr(v.fields.iter().map(|f| format!("{{\"n\":{},\"ty\":{},\"pub\":{}}}", esc(&f.name.to_string()), ty_json(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), 0), tcx.visibility(f.did).is_public()))))));
                    adts.push(format!("{{\"def\":{},\"kind\":{},\"variants\":{},\"reach\":{}}}", esc(&path(tcx, d)), esc(&format!("{:?}", tcx.def_kind(d))), vs, tcx.effective_visibilities(()).is_reachable(id)));
                }
                DefKind::Impl { .. } => {
                    let self_ty = ty_json(tcx, tcx.type_of(d).instantiate_identity().skip_norm_wip(), 0);
                    let tr = tcx.impl_opt_trait_ref(d);
                    let mut s = format!("{{\"self\":{}", self_ty);
                    if let Some(tr) = tr {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let unsafe_ = matches!(tcx.impl_trait_header(d).safety, rustc_hir::Safety::Unsafe);
                        let _ = write!(s, ",\"trait\":{},\"unsafe\":{}", esc(&path(tcx, tr.def_id)), unsafe_);
                    }
                    let items = arr(tcx.associated_items(d).in_definition_order().map(|a| {
                        format!("{{\"n\":{},\"def\":{},\"of\":{},\"kind\":{}}}", esc(&a.opt_name().map(|n| n.to_string()).unwrap_or_default()), esc(&path(tcx, a.def_id)),
                            a.trait_item_def_id().map(|t| esc(&path(tcx, t))).unwrap_or("null".into()), esc(&format!("{:?}", tcx.def_kind(a.def_id))))
                    }));
                    let _ = write!(s, ",\"items\":{}}}", items);
                    impls.push(s);
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(format!("{{\"def\":{},\"mut\":{},\"ty\":{}}}", esc(&path(tcx, d)), mutability.is_mut(), ty_json(tcx, tcx.type_of(d).instantiate_identity().skip_norm_wip(), 0)));
                }
                DefKind::Trait => {
                    for a in tcx.associated_items(d).in_definition_order() {
                        fns_in_traits.push(format!("{{\"trait\":{},\"n\":{},\"def\":{},\"default\":{}}}", esc(&path(tcx, d)), esc(&a.opt_name().map(|n| n.to_string()).unwrap_or_default()), esc(&path(tcx, a.def_id)), a.defaultness(tcx).has_value()));
                    }
                }
                _ => {}
            }
        }
        // unsafe blocks (user written), from HIR
        let mut uns = vec![];
        {
            use rustc_hir::intravisit::Visitor;
            struct V<'t> { tcx: TyCtxt<'t>, cur: String, out: Vec<String> }
            impl<'t> Visitor<'t> for V<'t> {
                fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                        let lo = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
                        self.out.push(format!("{{\"in\":{},\"line\":{},\"file\":{},\"user\":{},\"macro\":{}}}", esc(&self.cur), lo.line, esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                            matches!(src, rustc_hir::UnsafeSource::UserProvided), b.span.from_expansion()));
                    }
                    rustc_hir::intravisit::walk_block(self, b);
                }
            }
            for def in tcx.hir_body_owners() {
                let mut v = V { tcx, cur: path(tcx, def.to_def_id()), out: vec![] };
                let body = tcx.hir_body_owned_by(def);
                v.visit_body(body);
                uns.extend(v.out);
            }
        }
        let s = format!("{{\"crate\":{},\"bodies\":[\n{}\n],\"stolen\":{},\"adts\":[\n{}\n],\"impls\":[\n{}\n],\"statics\":{},\"trait_items\":{},\"unsafe_blocks\":{}}}\n",
            esc(&name), bodies.join(",\n"), arr(stolen), adts.join(",\n"), impls.join(",\n"), arr(statics), arr(fns_in_traits), arr(uns));
        std::fs::write(&out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|s| s == "rustc").unwrap_or(false) { args.remove(1); }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
