//! Dumps the MIR of the crate being compiled (every fn, method, closure and
//! promoted constant) as JSON, with callees resolved through the type checker.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn dp(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn ty(&self, t: Ty<'tcx>) -> String { self.ty_d(t, 0) }

    fn ty_d(&self, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 12 { return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&t.to_string())); }
        let r = |t: Ty<'tcx>| self.ty_d(t, depth + 1);
        match t.kind() {
            ty::Bool | ty::Char | ty::Str | ty::Never => format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&t.to_string())),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&t.to_string())),
            ty::Adt(def, args) => format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&self.path(def.did())), self.args(args, depth)),
            ty::Ref(_, inner, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), r(*inner)),
            ty::RawPtr(inner, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), r(*inner)),
            ty::Slice(inner) => format!("{{\"k\":\"slice\",\"t\":{}}}", r(*inner)),
            ty::Array(inner, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", r(*inner), n)
            }
            ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", list(ts.iter().map(|t| r(t)).collect())),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}}}", esc(&self.dp(*d))),
            ty::FnDef(d, args) => format!("{{\"k\":\"fndef\",\"f\":{}}}", self.callee(*d, args.skip_binder(), depth)),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&t.to_string())),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&t.to_string())),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{}}}", esc(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&t.to_string())),
        }
    }

    fn args(&self, args: GenericArgsRef<'tcx>, depth: usize) -> String {
        list(args.iter().filter_map(|a| a.as_type()).map(|t| self.ty_d(t, depth + 1)).collect())
    }

    /// Names of the type parameters in scope, outermost first.
    fn generics(&self, d: DefId) -> String {
        let mut names = Vec::new();
        let mut chain = vec![self.tcx.generics_of(d)];
        while let Some(p) = chain.last().and_then(|g| g.parent) { chain.push(self.tcx.generics_of(p)); }
        for g in chain.iter().rev() {
            for p in &g.own_params {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { names.push(esc(p.name.as_str())); }
            }
        }
        list(names)
    }

    fn callee(&self, d: DefId, args: GenericArgsRef<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut s = format!("{{\"p\":{},\"dp\":{},\"local\":{},\"a\":{}",
            esc(&self.path(d)), esc(&self.dp(d)), d.is_local(), self.args(args, depth));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{},\"m\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
        }
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) && depth < 4 {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                let shim = !matches!(inst.def, ty::InstanceKind::Item(_));
                let _ = write!(s, ",\"r\":{{\"p\":{},\"dp\":{},\"local\":{},\"shim\":{},\"a\":{}}}",
                    esc(&self.path(rd)), esc(&self.dp(rd)), rd.is_local(), shim, self.args(inst.args, depth));
            }
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(s, ",\"ctor\":true");
        }
        s.push('}');
        s
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, i) => format!("[\"v\",{},{}]", i.as_usize(), esc(n.map(|n| n.to_string()).unwrap_or_default().as_str())),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }

    fn scalar(&self, bits: u128, size: u64) -> String { format!("\"{}\",\"sz\":{}", bits, size) }

    fn konst(&self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut s = format!("{{\"k\":\"const\",\"t\":{},\"s\":{}", self.ty(t), esc(&c.to_string()));
        if let ty::FnDef(d, a) = t.kind() {
            let _ = write!(s, ",\"fn\":{}", self.callee(*d, a.skip_binder(), 0));
        } else {
            if let Const::Unevaluated(u, _) = c {
                let _ = write!(s, ",\"uneval\":{}", esc(&self.path(u.def)));
                if let Some(p) = u.promoted { let _ = write!(s, ",\"promoted\":{},\"pdef\":{}", p.as_usize(), esc(&self.dp(u.def))); }
            }
            let is_prom = matches!(c, Const::Unevaluated(u, _) if u.promoted.is_some());
            if !is_prom {
                if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                    if let Some(sc) = v.try_to_scalar_int() {
                        let size = sc.size();
                        let _ = write!(s, ",\"bits\":{}", self.scalar(sc.to_bits(size), size.bytes()));
                    } else if matches!(v, ConstValue::ZeroSized) {
                        s.push_str(",\"zst\":true");
                    }
                    if let Some(a) = self.aggregate(v, t, 0) { let _ = write!(s, ",\"agg\":{}", a); }
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                let _ = write!(s, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                            }
                        }
                    }
                }
            }
        }
        s.push('}');
        s
    }

    /// Parts of a constant tuple, array, struct or enum value.
    fn aggregate(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let small = match t.kind() {
            ty::Tuple(a) => !a.is_empty(),
            ty::Array(_, n) => n.try_to_target_usize(self.tcx).map_or(false, |n| n > 0 && n <= 64),
            ty::Adt(d, _) => d.is_enum() || d.is_struct() && d.did().is_local(),
            _ => false,
        };
        if !small || depth > 3 || t.has_param() { return None }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = Vec::new();
        for (w, u) in d.fields.iter() {
            let mut s = format!("{{\"k\":\"const\",\"t\":{},\"s\":\"\"", self.ty(*u));
            if let Some(sc) = w.try_to_scalar_int() {
                let size = sc.size();
                let _ = write!(s, ",\"bits\":{}", self.scalar(sc.to_bits(size), size.bytes()));
            } else if matches!(w, ConstValue::ZeroSized) {
                s.push_str(",\"zst\":true");
            }
            if let Some(a) = self.aggregate(*w, *u, depth + 1) { let _ = write!(s, ",\"agg\":{}", a); }
            s.push('}');
            fs.push(s);
        }
        Some(format!("{{\"v\":{},\"f\":{}}}", d.variant.map_or(0, |v| v.as_usize()), list(fs)))
    }

    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            _ => format!("{{\"k\":\"unk\",\"s\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(ck, o, t) => format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"t\":{}}}", esc(&format!("{:?}", ck)), self.operand(o), self.ty(*t)),
            Rvalue::BinaryOp(op, b) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("{{\"k\":\"un\",\"op\":{},\"o\":{}}}", esc(&format!("{:?}", op)), self.operand(o)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = list(ops.iter().map(|o| self.operand(o)).collect());
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"a\":\"array\",\"o\":{}}}", ops),
                    AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"a\":\"tuple\",\"o\":{}}}", ops),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        format!("{{\"k\":\"agg\",\"a\":\"adt\",\"p\":{},\"enum\":{},\"v\":{},\"vn\":{},\"ga\":{},\"o\":{}}}",
                            esc(&self.path(*d)), def.is_enum(), v.as_usize(), esc(def.variant(*v).name.as_str()), self.args(args, 0), ops)
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"agg\",\"a\":\"closure\",\"d\":{},\"o\":{}}}", esc(&self.dp(*d)), ops),
                    _ => format!("{{\"k\":\"unk\",\"s\":{}}}", esc(&format!("{:?}", r))),
                }
            }
            _ => format!("{{\"k\":\"unk\",\"s\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &l.file.name { n => format!("{}", n.prefer_local_unconditionally()) };
        format!("\"{}:{}\"", f.replace('"', ""), l.line)
    }

    fn body(&self, b: &Body<'tcx>) -> String {
        let locals = list(b.local_decls.iter().map(|l| self.ty(l.ty)).collect());
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => st.push(format!("{{\"k\":\"assign\",\"l\":{},\"r\":{},\"at\":{}}}", self.place(&a.0), self.rvalue(&a.1), self.line(s.source_info.span))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("{{\"k\":\"setdiscr\",\"l\":{},\"v\":{}}}", self.place(place), variant_index.as_usize())),
                    StatementKind::Intrinsic(i) => st.push(format!("{{\"k\":\"intr\",\"s\":{}}}", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let at = self.line(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("{{\"k\":\"switch\",\"o\":{},\"t\":{},\"else\":{},\"dt\":{},\"at\":{}}}", self.operand(discr), list(v), targets.otherwise().as_usize(), self.ty(discr.ty(&b.local_decls, self.tcx)), at)
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"unwind\"}".into(),
                TerminatorKind::Drop { place, target, .. } => format!("{{\"k\":\"drop\",\"p\":{},\"t\":{}}}", self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at_: Vec<String> = args.iter().map(|a| self.ty(a.node.ty(&b.local_decls, self.tcx))).collect();
                    format!("{{\"k\":\"call\",\"f\":{},\"a\":{},\"at_\":{},\"d\":{},\"dty\":{},\"t\":{},\"at\":{}}}", self.operand(func), list(a), list(at_), self.place(destination),
                        self.ty(destination.ty(&b.local_decls, self.tcx).ty),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), at)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"at\":{}}}", self.operand(cond), expected, esc(&format!("{:?}", msg)), target.as_usize(), at),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                k => format!("{{\"k\":\"unk\",\"s\":{}}}", esc(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, list(st), tk));
        }
        format!("{{\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}", b.arg_count, locals, list(names), list(blocks))
    }
}

/// Unsafe blocks written in the crate itself.
struct Unsafe<'a, 'tcx> { cx: &'a Cx<'tcx>, found: Vec<String> }

impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.in_external_macro(self.cx.tcx.sess.source_map());
            if !foreign { self.found.push(self.cx.line(b.span)); }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Dump { out: String }

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(true);
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut fns = Vec::new();
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
            let body = tcx.optimized_mir(d);
            let prom = list(tcx.promoted_mir(d).iter().map(|p| cx.body(p)).collect());
            let mut extra = format!(",\"gen\":{}", cx.generics(tcx.typeck_root_def_id(d)));
            if kind == DefKind::AssocFn {
                let parent = tcx.parent(d);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                    let st = tcx.type_of(parent).instantiate_identity();
                    let st = st.skip_norm_wip();
                    let _ = write!(extra, ",\"self\":{}", cx.ty(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"of\":{},\"oft\":{}", esc(&cx.path(tr.def_id)), esc(&tr.to_string()));
                    }
                }
            }
            if let Some(hb) = tcx.hir_maybe_body_owned_by(ld) {
                use rustc_hir::intravisit::Visitor;
                let mut u = Unsafe { cx: &cx, found: Vec::new() };
                u.visit_body(hb);
                if !u.found.is_empty() { let _ = write!(extra, ",\"unsafe\":{}", list(u.found)); }
            }
            if kind != DefKind::Closure && tcx.fn_sig(d).skip_binder().safety().is_unsafe() { extra.push_str(",\"unsafe_fn\":true"); }
            let vis = if kind == DefKind::Closure { "closure".to_string() } else { format!("{:?}", tcx.visibility(d)) };
            fns.push(format!("{{\"dp\":{},\"p\":{},\"name\":{},\"kind\":{},\"vis\":{},\"at\":{},\"body\":{},\"promoted\":{}{}}}",
                esc(&cx.dp(d)), esc(&cx.path(d)), esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
                esc(&format!("{:?}", kind)), esc(&vis), cx.line(tcx.def_span(d)), cx.body(body), prom, extra));
        }
        // type definitions
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
                    let def = tcx.adt_def(d);
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<String> = v.fields.iter().map(|f| format!("{{\"n\":{},\"t\":{},\"vis\":{}}}", esc(f.name.as_str()),
                            cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), esc(&format!("{:?}", f.vis)))).collect();
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), discr, list(fs)));
                    }
                    adts.push(format!("{{\"p\":{},\"enum\":{},\"gen\":{},\"v\":{},\"at\":{}}}", esc(&cx.path(d)), def.is_enum(), cx.generics(d), list(vs), cx.line(tcx.def_span(d))));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let hdr = tcx.impl_trait_header(d);
                    impls.push(format!("{{\"trait\":{},\"s\":{},\"unsafe\":{},\"at\":{},\"polarity\":{}}}",
                        esc(&tcx.def_path_str(tr.def_id)), esc(&tr.to_string()), hdr.safety.is_unsafe(),
                        Cx { tcx, env: TypingEnv::fully_monomorphized() }.line(tcx.def_span(d)), esc(&format!("{:?}", hdr.polarity))));
                }
                _ => {}
            }
        }
        let mut statics = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let cx = Cx { tcx, env: TypingEnv::fully_monomorphized() };
                statics.push(format!("{{\"p\":{},\"mut\":{},\"t\":{},\"at\":{}}}", esc(&tcx.def_path_str(d)), mutability.is_mut(),
                    cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()), cx.line(tcx.def_span(d))));
            }
        }
        let mut foreign = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::ForeignMod) { foreign.push(Cx { tcx, env: TypingEnv::fully_monomorphized() }.line(tcx.def_span(d))); }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"foreign\":{},\"crate\":{},\"fns\":{},\"adts\":{},\"impls\":{},\"statics\":{}}}",
            list(foreign), esc(tcx.crate_name(LOCAL_CRATE).as_str()), list(fns), list(adts), list(impls), list(statics));
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Stop
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "renplex".into());
    if out.is_some() && name == want && !is_test {
        // pointer sanity checks are noise for the analyses
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
    }
    rustc_driver::catch_with_exit_code(move || {
        match out {
            Some(o) if name == want && !is_test => rustc_driver::compiler_entrypoint(&args, &mut Dump { out: o }),
            _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
        }
    })
}
