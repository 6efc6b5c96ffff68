//! rustc driver that dumps facts about the analysed crate: every body's MIR (as built, before
//! promotion and before the coroutine transform), the algebraic data types it mentions, its trait
//! impls, the saved locals of its coroutines. One JSON file, path in $MIRFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, J>,
    files: HashMap<String, usize>,
    file_out: Vec<String>,
}

fn s(v: impl ToString) -> J {
    J::S(v.to_string())
}
fn n(v: usize) -> J {
    J::I(v as i128)
}

impl<'tcx> Cx<'tcx> {
    /// Type path of an ADT / fn / trait, by definition (not re-export).
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let name = tcx.item_name(d);
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => {
                        let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        let head = self.ty_head(self_ty);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                            let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.ty_head(t)).collect();
                            if parent.is_local() && !targs.is_empty() {
                                format!("<{} as {}<{}>>::{}", head, self.path(tr.def_id), targs.join(","), name)
                            } else {
                                format!("<{} as {}>::{}", head, self.path(tr.def_id), name)
                            }
                        } else {
                            format!("{head}::{name}")
                        }
                    }
                    DefKind::Trait => format!("{}::{}", self.path(parent), name),
                    _ => self.raw(d),
                }
            }
            DefKind::Closure => {
                let parent = tcx.parent(d);
                let key = tcx.def_key(d);
                format!("{}::{{closure#{}}}", self.path(parent), key.disambiguated_data.disambiguator)
            }
            DefKind::Ctor(..) => self.path(tcx.parent(d)),
            DefKind::Variant => format!("{}::{}", self.path(tcx.parent(d)), tcx.item_name(d)),
            DefKind::Fn | DefKind::Const { .. } | DefKind::Static { .. } => {
                // A function nested in a function: qualify it by the outer one.
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                        format!("{}::{}", self.path(parent), tcx.item_name(d))
                    }
                    _ => self.raw(d),
                }
            }
            DefKind::AnonConst => format!("{}::{{const}}", self.path(tcx.parent(d))),
            _ => self.raw(d),
        }
    }
    fn raw(&self, d: DefId) -> String {
        let p = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))));
        match p.strip_prefix("datafusion_distributed::") {
            Some(r) => format!("crate::{r}"),
            None => p,
        }
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        let p = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())));
        let p = p.replace("datafusion_distributed::", "crate::");
        if p.len() > 600 { p.chars().take(600).collect() } else { p }
    }
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                // Arc<dyn Trait>, Option<T>...: keep one level of arguments for impls on wrappers.
                let p = self.path(a.did());
                if a.did().is_local() {
                    // Tell impls on different instances of one generic type apart.
                    if args.types().any(|t| !matches!(t.kind(), ty::Param(_))) {
                        let inner: Vec<String> = args.types().map(|t| self.ty_head(t)).collect();
                        return format!("{}<{}>", p, inner.join(","));
                    }
                    return p;
                }
                let inner: Vec<String> = args.types().map(|t| self.ty_head(t)).collect();
                if inner.is_empty() { p } else { format!("{}<{}>", p, inner.join(",")) }
            }
            ty::Dynamic(..) => match t.kind() {
                ty::Dynamic(preds, ..) => preds
                    .principal_def_id()
                    .map(|d| format!("dyn {}", self.path(d)))
                    .unwrap_or_else(|| "dyn".into()),
                _ => unreachable!(),
            },
            ty::Ref(_, t, _) => format!("&{}", self.ty_head(*t)),
            _ => self.ty_str(t),
        }
    }
    fn span(&mut self, sp: Span) -> (J, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let f = match f.find("src/") {
            Some(i) if !f.contains("/.cargo/") && !f.contains("rustlib") => f[i..].to_string(),
            _ => f,
        };
        let next = self.file_out.len();
        let i = *self.files.entry(f.clone()).or_insert_with(|| next);
        if i == next {
            self.file_out.push(f);
        }
        (n(i), loc.line)
    }
    fn line(&self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, J::Null);
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::A(vec![s(f.name), n(self.ty(t))])
                })
                .collect();
            vs.push(J::O(vec![("name", s(v.name)), ("discr", J::I(discr)), ("fields", J::A(fields))]));
        }
        let j = J::O(vec![
            ("path", s(self.path(d))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(d.is_local())),
            ("has_drop", J::B(self.tcx.adt_destructor(d).is_some())),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(d, j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let txt = self.ty_str(t);
        let mut o = vec![("s", s(&txt))];
        match t.kind() {
            ty::Adt(a, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(a.did()))));
                let args: Vec<J> = args.types().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(args)));
                if a.did().is_local() || (a.is_enum()) {
                    self.adt(a.did());
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s(if m.is_mut() { "mut" } else { "ref" })));
                o.push(("a", J::A(vec![n(self.ty(*inner))])));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                o.push(("a", J::A(vec![n(self.ty(*inner))])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            ty::Slice(inner) | ty::Array(inner, _) => {
                o.push(("k", s("slice")));
                o.push(("a", J::A(vec![n(self.ty(*inner))])));
            }
            ty::Closure(d, _) | ty::CoroutineClosure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("p", s(self.path(*d))));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", s("coroutine")));
                o.push(("p", s(self.path(*d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(*d))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("p", s(self.path(p))));
                }
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[i] = J::O(o);
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        // [local, [proj...]]
        let mut proj = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let j = match elem {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            if a.did().is_local() || a.is_enum() {
                                self.adt(a.did());
                            }
                            let v = match pty.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => a.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => a.non_enum_variant(),
                            };
                            let nm = v.fields[f].name.to_string();
                            let mut ow = self.path(a.did());
                            if a.is_enum() {
                                ow = format!("{}::{}", ow, v.name);
                            }
                            (ow, nm)
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            let nm = match d.as_local() {
                                Some(l) => self
                                    .tcx
                                    .closure_captures(l)
                                    .get(f.as_usize())
                                    .map(|c| c.to_symbol().to_string())
                                    .unwrap_or_else(|| f.as_usize().to_string()),
                                None => f.as_usize().to_string(),
                            };
                            (format!("{{env}}{}", self.path(*d)), nm)
                        }
                        _ => ("".to_string(), f.as_usize().to_string()),
                    };
                    J::A(vec![s("f"), n(f.as_usize()), s(name), s(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), n(offset as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    J::A(vec![s("d"), s(nm)])
                }
                _ => s("?"),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, elem);
        }
        J::A(vec![n(p.local.as_usize()), J::A(proj)])
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, *p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                match t.kind() {
                    ty::FnDef(d, args) => {
                        let args = args.skip_binder();
                        J::A(vec![s("fn"), self.fnref(env, *d, args)])
                    }
                    _ => {
                        let mut o = vec![("ty", n(self.ty(t)))];
                        if let Const::Unevaluated(u, _) = c.const_ {
                            o.push(("def", s(self.path(u.def))));
                        }
                        // Only literals: named constants keep their path (and are not evaluated).
                        if let Some(x) = c.const_.try_to_scalar_int() {
                            match t.kind() {
                                ty::Int(_) => o.push(("v", J::I(x.to_int(x.size()) as i128))),
                                ty::Uint(_) | ty::Bool | ty::Char => o.push(("v", J::I(x.to_uint(x.size()) as i128))),
                                ty::Float(_) => o.push(("vs", s(with_no_trimmed_paths!(c.const_.to_string())))),
                                _ => {}
                            }
                        } else {
                            let mut v = with_no_trimmed_paths!(c.const_.to_string());
                            if v.len() > 400 {
                                v = v.chars().take(400).collect();
                            }
                            o.push(("vs", s(v)));
                        }
                        J::A(vec![s("k"), J::O(o)])
                    }
                }
            }
            _ => J::A(vec![s("?")]),
        }
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(self.path(d)))];
        let targs: Vec<J> = args.types().map(|t| n(self.ty(t))).collect();
        o.push(("a", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.path(tr))));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("r", s(self.path(rd))));
                }
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let t = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output();
            self.ty(t);
        }
        J::O(o)
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, env, o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("rep"), self.operand(body, env, o), s(c)]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s(match k {
                    BorrowKind::Shared => "ref",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "refm",
                }),
                self.place(body, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(body, *p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("refm"), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => {
                let kind = format!("{k:?}");
                J::A(vec![s("cast"), self.operand(body, env, o), n(self.ty(*t)), s(kind)])
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(body, env, &ab.0),
                self.operand(body, env, &ab.1),
            ]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(body, env, a)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                if let ty::Adt(a, _) = t.kind() {
                    self.adt(a.did());
                }
                J::A(vec![s("discr"), self.place(body, *p), n(self.ty(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let args: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name)).collect();
                        J::A(vec![s("adt"), s(self.path(*d)), s(var.name), J::A(names), J::B(def.is_enum())])
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("closure"), s(self.path(*d)), self.captures(*d)])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        J::A(vec![s("coroutine"), s(self.path(*d)), self.captures(*d)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kind, J::A(args)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, *p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, env, o)]),
        }
    }
    fn captures(&self, d: DefId) -> J {
        match d.as_local() {
            Some(l) => J::A(self.tcx.closure_captures(l).iter().map(|c| s(c.to_symbol())).collect()),
            None => J::A(vec![]),
        }
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let (file, line) = self.span(body.span);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(self.path(did))),
            ("kind", s(format!("{:?}", tcx.def_kind(did)))),
            ("file", file),
            ("line", n(line)),
            ("argc", n(body.arg_count)),
        ];
        o.push(("from_exp", J::B(body.span.from_expansion())));
        if tcx.is_typeck_child(did) {
            o.push(("parent", s(self.path(tcx.parent(did)))));
        }
        if let Some(k) = tcx.coroutine_kind(did) {
            o.push(("coroutine", s(format!("{k:?}"))));
        }
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            let parent = tcx.parent(did);
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", s(self.ty_head(self_ty))));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                }
            }
            o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("ret", n(self.ty(sig.output()))));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l.as_usize(), v.name.to_string());
                } else {
                    upv.push(J::A(vec![s(v.name), self.place(body, p)]));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(nm) => J::A(vec![n(t), s(nm)]),
                    None => J::A(vec![n(t)]),
                }
            })
            .collect();
        o.push(("locals", J::A(locals)));
        o.push(("upvars", J::A(upv)));
        if tcx.is_typeck_child(did) && matches!(tcx.def_kind(did), DefKind::Closure) {
            o.push(("caps", self.captures(did)));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &data.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, *p);
                        let rj = self.rvalue(body, env, r);
                        let ln = self.line(st.source_info.span);
                        sts.push(J::A(vec![s("="), pj, rj, n(ln)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, **place);
                        sts.push(J::A(vec![s("sd"), pj, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => sts.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = data.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, env, discr);
                    let ty = discr.ty(&body.local_decls, tcx);
                    let ts: Vec<J> =
                        targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), n(b.as_usize())])).collect();
                    J::A(vec![s("switch"), d, J::A(ts), n(targets.otherwise().as_usize()), n(self.ty(ty))])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("cdrop")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(body, *place);
                    J::A(vec![s("drop"), pl, n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<J> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let dst = self.place(body, *destination);
                    let tg = target.map(|t| n(t.as_usize())).unwrap_or(J::Null);
                    let mac = {
                        let e = fn_span.ctxt().outer_expn_data();
                        match e.kind {
                            rustc_span::ExpnKind::Macro(_, name) => s(name),
                            rustc_span::ExpnKind::Desugaring(k) => s(format!("#{k:?}")),
                            _ => J::Null,
                        }
                    };
                    J::A(vec![s("call"), f, J::A(a), dst, tg, n(self.line(*fn_span)), mac])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tail")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), n(target.as_usize())])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(body, env, value);
                    let ra = self.place(body, *resume_arg);
                    J::A(vec![s("yield"), v, n(resume.as_usize()), ra])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::A(vec![J::A(sts), tj, n(ln), J::B(data.is_cleanup)]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct Cb {
    out: String,
}

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<mir::Body<'tcx>>;
static ORIG: OnceLock<usize> = OnceLock::new();
thread_local! {
    static BUILT: RefCell<HashMap<LocalDefId, mir::Body<'static>>> = RefCell::new(HashMap::new());
}

/// Wraps the compiler's own `mir_built` to keep a copy of each body before later phases steal it.
fn mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<mir::Body<'tcx>> {
    let orig: MirBuilt = unsafe { std::mem::transmute(*ORIG.get().unwrap()) };
    let b = orig(tcx, def);
    let keep: mir::Body<'static> = unsafe { std::mem::transmute(b.borrow().clone()) };
    BUILT.with(|m| m.borrow_mut().insert(def, keep));
    b
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.override_queries = Some(|_sess, p| {
            let _ = ORIG.set(p.queries.mir_built as usize);
            p.queries.mir_built = mir_built;
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = vec![];
        let mut missing = vec![];
        for def in tcx.hir_body_owners() {
            let _ = tcx.mir_built(def);
            let b: Option<mir::Body<'static>> = BUILT.with(|m| m.borrow_mut().remove(&def));
            match b {
                // The copy lives as long as the arena it was made in: `'tcx`.
                Some(b) => bodies.push((def, unsafe { std::mem::transmute::<mir::Body<'static>, mir::Body<'tcx>>(b) })),
                None => missing.push(def),
            }
        }
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            adts: HashMap::new(),
            files: HashMap::new(),
            file_out: vec![],
        };
        let mut out = vec![];
        for (def, b) in &bodies {
            out.push(cx.body(*def, b));
        }
        // Local ADTs, all of them.
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(id.to_def_id()),
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_norm_wip();
                    let self_ty = tr.self_ty();
                    let items: Vec<J> = tcx
                        .associated_items(id.to_def_id())
                        .in_definition_order()
                        .filter(|i| matches!(tcx.def_kind(i.def_id), DefKind::AssocFn))
                        .map(|i| J::A(vec![s(i.name()), s(cx.path(i.def_id))]))
                        .collect();
                    let (file, line) = cx.span(tcx.def_span(id.to_def_id()));
                    impls.push(J::O(vec![
                        ("trait", s(cx.path(tr.def_id))),
                        ("self", s(cx.ty_head(self_ty))),
                        ("items", J::A(items)),
                        ("file", file),
                        ("line", n(line)),
                        ("derived", J::B(tcx.is_automatically_derived(id.to_def_id()))),
                    ]));
                }
                _ => {}
            }
        }
        // Types held across a suspension point, per coroutine.
        let mut wit = vec![];
        for (def, b) in &bodies {
            if b.coroutine.is_some() {
                if let Some(l) = tcx.mir_coroutine_witnesses(def.to_def_id()) {
                    let ts: Vec<J> = l
                        .field_tys
                        .iter()
                        .map(|f| {
                            let ln = cx.line(f.source_info.span);
                            J::A(vec![n(cx.ty(f.ty)), n(ln), J::B(f.ignore_for_traits)])
                        })
                        .collect();
                    wit.push(J::A(vec![s(cx.path(def.to_def_id())), J::A(ts)]));
                }
            }
        }
        let missing: Vec<J> = missing.into_iter().map(|d| s(cx.path(d.to_def_id()))).collect();
        let adts: Vec<J> = std::mem::take(&mut cx.adts).into_values().collect();
        let j = J::O(vec![
            ("bodies", J::A(out)),
            ("tys", J::A(std::mem::take(&mut cx.ty_out))),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("witnesses", J::A(wit)),
            ("missing", J::A(missing)),
            ("files", J::A(cx.file_out.iter().map(s).collect())),
        ]);
        let mut text = String::new();
        j.write(&mut text);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, text).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo runs us as: <driver> <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("MIRFACTS_OUT").ok();
    if let (Some("datafusion_distributed"), Some(out)) = (crate_name.as_deref(), out) {
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut No))
    }
}
