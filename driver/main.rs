// MIR fact extractor.
//
// Used as RUSTC_WORKSPACE_WRAPPER: behaves exactly like rustc, and in addition writes the
// type-checked program (pre-drop-elaboration MIR of every body, ADTs, impls, traits) of the crate
// named by MIRFACTS_CRATE as JSON to MIRFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::{sym, ExpnKind, Span};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- tiny JSON value
enum J {
    N(i128),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    Null,
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::N(n) => {
                let _ = write!(out, "{n}");
            }
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::S(s) => esc(s, out),
            J::Null => out.push_str("null"),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().unwrap_or(-1))
}

// ---------------------------------------------------------------- extraction context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// canonical definition path (crate::module::{impl#n}::name), used to identify bodies
    fn uid(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(n(self.ty(t)));
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let st = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match t.kind() {
            ty::Adt(def, a) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let a = self.args(a);
                o.push(("args", a));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s(if m.is_mut() { "refmut" } else { "ref" })));
                let x = self.ty(*x);
                o.push(("args", J::A(vec![n(x)])));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s(if m.is_mut() { "ptrmut" } else { "ptr" })));
                let x = self.ty(*x);
                o.push(("args", J::A(vec![n(x)])));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(*x);
                o.push(("args", J::A(vec![n(x)])));
            }
            ty::Array(x, l) => {
                o.push(("k", s("array")));
                let x = self.ty(*x);
                o.push(("args", J::A(vec![n(x)])));
                if let Some(v) = l.try_to_target_usize(self.tcx) {
                    o.push(("len", n(v)));
                }
            }
            ty::Tuple(xs) => {
                o.push(("k", s("tuple")));
                let v = xs.iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(v)));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.uid(*d))));
                o.push(("local", J::B(d.is_local())));
                let up: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let v = up.into_iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(v)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                o.push(("def", s(self.uid(*d))));
                o.push(("local", J::B(d.is_local())));
                let up: Vec<Ty<'tcx>> = a.as_coroutine().upvar_tys().iter().collect();
                let v = up.into_iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let j = self.callee(*d, a.skip_binder(), None);
                o.push(("fn", j));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                let mut tr = vec![];
                if let Some(d) = preds.principal_def_id() {
                    tr.push(s(self.path(d)));
                }
                o.push(("traits", J::A(tr)));
                let mut a = vec![];
                if let Some(p) = preds.principal() {
                    for x in p.skip_binder().args.iter() {
                        if let Some(t) = x.as_type() {
                            a.push(n(self.ty(t)));
                        }
                    }
                }
                o.push(("args", J::A(a)));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("prim"))),
        }
        self.ty_out[i] = J::O(o);
        i
    }
    fn callee(
        &mut self,
        d: DefId,
        a: GenericArgsRef<'tcx>,
        env: Option<TypingEnv<'tcx>>,
    ) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(self.path(d))),
            ("uid", s(self.uid(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("krate", s(tcx.crate_name(d.krate).to_string())),
        ];
        let aj = self.args(a);
        o.push(("args", aj));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if a.len() > 0 {
                if let Some(st) = a[0].as_type() {
                    let st = self.ty(st);
                    o.push(("self", n(st)));
                }
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, a).skip_norm_wip();
            let st = self.ty(st);
            o.push(("self", n(st)));
        }
        if tcx.def_kind(d).is_fn_like() && !matches!(tcx.def_kind(d), DefKind::Closure) {
            let sig = tcx.fn_sig(d).skip_binder();
            if !sig.safety().is_safe() {
                o.push(("unsafe", J::B(true)));
            }
        }
        if let Some(env) = env {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a2) {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "shim",
                };
                let rd = inst.def_id();
                o.push(("rkind", s(k)));
                if rd != d {
                    o.push(("ruid", s(self.uid(rd))));
                    o.push(("rpath", s(self.path(rd))));
                }
            }
        }
        J::O(o)
    }
    /// does the type implement the auto trait for all its parameters (with the bounds of its definition)?
    fn auto(&self, did: DefId, t: Ty<'tcx>, tr: DefId) -> bool {
        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        infcx
            .type_implements_trait(tr, [t], self.tcx.param_env(did))
            .must_apply_modulo_regions()
    }

    fn loc(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let mut mac = vec![];
        let mut cur = sp;
        let mut desugar = vec![];
        while cur.from_expansion() {
            let e = cur.ctxt().outer_expn_data();
            match e.kind {
                ExpnKind::Macro(_, name) => mac.push(s(name.to_string())),
                ExpnKind::Desugaring(k) => desugar.push(s(format!("{k:?}"))),
                _ => {}
            }
            cur = e.call_site;
        }
        let c = sm.lookup_char_pos(cur.lo());
        let mut v = vec![n(c.line)];
        if !mac.is_empty() || !desugar.is_empty() {
            v.push(J::A(mac));
            if !desugar.is_empty() {
                v.push(J::A(desugar));
            }
        }
        J::A(v)
    }
    fn file(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let c = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = format!("{}", c.file.name.prefer_local_unconditionally());
        match f.find("src/") {
            Some(i) => f[i..].to_string(),
            None => f,
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() {
            return n(p.local.as_usize());
        }
        let tcx = self.tcx;
        let mut v = vec![n(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(s("*")),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_struct() || def.is_union() || def.is_enum() {
                                if let Some(fd) = def.variant(vi).fields.get(f) {
                                    name = fd.name.to_string();
                                }
                            }
                            owner = self.path(def.did());
                            if def.is_enum() {
                                owner = format!("{owner}::{}", def.variant(vi).name);
                            }
                        }
                        ty::Closure(..) | ty::Coroutine(..) => owner = "closure".into(),
                        _ => {}
                    }
                    v.push(J::A(vec![s(name), s(owner), n(f.as_usize())]));
                }
                ProjectionElem::Index(l) => v.push(J::O(vec![("i", n(l.as_usize()))])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(J::O(vec![("ci", n(offset)), ("fe", J::B(from_end))]))
                }
                ProjectionElem::Subslice { from, to, .. } => {
                    v.push(J::O(vec![("ss", n(from)), ("to", n(to))]))
                }
                ProjectionElem::Downcast(nm, idx) => v.push(J::O(vec![(
                    "dc",
                    s(nm.map(|x| x.to_string()).unwrap_or_else(|| format!("{}", idx.as_usize()))),
                )])),
                _ => v.push(s("?")),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let mut o = vec![];
                let ti = self.ty(t);
                o.push(("t", n(ti)));
                if let ty::FnDef(d, a) = t.kind() {
                    let j = self.callee(*d, a.skip_binder(), Some(env));
                    o.push(("fn", j));
                } else {
                    let txt = with_no_trimmed_paths!(format!("{}", c.const_));
                    o.push(("k", s(txt)));
                    if let Const::Unevaluated(u, _) = c.const_ {
                        if u.promoted.is_none() {
                            o.push(("def", s(self.path(u.def))));
                        } else {
                            o.push(("promoted", n(u.promoted.unwrap().as_usize())));
                        }
                    }
                    if t.is_integral() || t.is_bool() || t.is_char() {
                        if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                            let mut x = b as i128;
                            if let ty::Int(it) = t.kind() {
                                let bits = it.bit_width().unwrap_or(64);
                                if bits < 128 {
                                    let sh = 128 - bits;
                                    x = (x << sh) >> sh;
                                }
                            }
                            o.push(("v", J::N(x)));
                        }
                    } else if let ty::Float(f) = t.kind() {
                        if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                            let txt = match f {
                                ty::FloatTy::F32 => format!("{:?}", f32::from_bits(b as u32)),
                                _ => format!("{:?}", f64::from_bits(b as u64)),
                            };
                            o.push(("f", s(txt)));
                        }
                    }
                }
                J::O(o)
            }
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("rtcheck"))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, env, o)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.operand(body, env, o)]),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "refmut",
                    BorrowKind::Shared => "ref",
                    _ => "fakeref",
                };
                J::A(vec![s(m), self.place(body, p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(body, env, o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), o, n(t), s(format!("{k:?}"))])
            }
            Rvalue::BinaryOp(op, x) => {
                let a = self.operand(body, env, &x.0);
                let b = self.operand(body, env, &x.1);
                J::A(vec![s("bin"), s(format!("{op:?}")), a, b])
            }
            Rvalue::UnaryOp(op, x) => {
                let a = self.operand(body, env, x);
                J::A(vec![s("un"), s(format!("{op:?}")), a])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let fields: Vec<J> = if let Some(a) = active {
                            vec![s(var.fields[*a].name.to_string())]
                        } else {
                            var.fields.iter().map(|f| s(f.name.to_string())).collect()
                        };
                        let mut o = vec![
                            ("k", s("adt")),
                            ("adt", s(self.path(*d))),
                            ("f", J::A(fields)),
                        ];
                        if def.is_enum() {
                            o.push(("var", s(var.name.to_string())));
                        }
                        J::O(o)
                    }
                    AggregateKind::Closure(d, _) => {
                        J::O(vec![("k", s("closure")), ("def", s(self.uid(*d)))])
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        J::O(vec![("k", s("coroutine")), ("def", s(self.uid(*d)))])
                    }
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, p);
                J::A(vec![s("use"), J::O(vec![("c", p)])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            _ => J::A(vec![s("other")]),
        }
    }
    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did));
        let kind = tcx.def_kind(did);
        let mut o: Vec<(&'static str, J)> = vec![
            ("uid", s(self.uid(did))),
            ("path", s(self.path(did))),
            ("kind", s(format!("{kind:?}"))),
            ("file", s(self.file(body.span))),
            ("loc", self.loc(body.span)),
            ("argc", n(body.arg_count)),
        ];
        if tcx.is_coroutine(did) {
            o.push(("coroutine", J::B(true)));
        }
        if matches!(kind, DefKind::Closure) {
            o.push(("parent", s(self.uid(tcx.parent(did)))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.effective_visibilities(()).is_reachable(def);
            o.push(("public", J::B(vis)));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                o.push(("self", n(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    let a = self.args(tr.args);
                    o.push(("trait_args", a));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("in_trait", s(self.path(tr))));
            }
            let sig = tcx.fn_sig(did).skip_binder();
            if !sig.safety().is_safe() {
                o.push(("unsafe", J::B(true)));
            }
            if tcx.asyncness(did).is_async() {
                o.push(("async", J::B(true)));
            }
        }
        // names
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pj = self.place(body, &p);
                    upnames.push(J::A(vec![s(v.name.to_string()), pj]));
                }
            }
        }
        if !upnames.is_empty() {
            o.push(("up", J::A(upnames)));
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(nm) => locals.push(J::A(vec![n(t), s(nm.clone())])),
                None => locals.push(J::A(vec![n(t)])),
            }
        }
        o.push(("locals", J::A(locals)));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let l = self.loc(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, env, &b.1);
                        st.push(J::A(vec![s("="), p, r, l]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize()), l]));
                    }
                    StatementKind::StorageDead(l2) => {
                        st.push(J::A(vec![s("dead"), n(l2.as_usize())]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.loc(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.as_usize()),
                UnwindAction::Continue => J::S("continue".into()),
                UnwindAction::Unreachable => J::S("unreachable".into()),
                UnwindAction::Terminate(_) => J::S("terminate".into()),
            };
            let mut tj: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", n(target.as_usize())));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", n(real_target.as_usize())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", n(real_target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    tj.push(("k", s("switch")));
                    let d = self.operand(body, env, discr);
                    tj.push(("d", d));
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::N(v as i128), n(b.as_usize())]))
                        .collect();
                    tj.push(("cases", J::A(v)));
                    tj.push(("else", n(targets.otherwise().as_usize())));
                    // resolve enum variant names when the discriminant was read in this block
                    if let Some(p) = discr.place() {
                        for x in bb.statements.iter().rev() {
                            if let StatementKind::Assign(b) = &x.kind {
                                if b.0 == p {
                                    if let Rvalue::Discriminant(q) = &b.1 {
                                        let qt = q.ty(&body.local_decls, tcx).ty;
                                        if let ty::Adt(d, _) = qt.kind() {
                                            if d.is_enum() {
                                                let mut names = vec![];
                                                for (vi, dv) in d.discriminants(tcx) {
                                                    names.push(J::A(vec![
                                                        J::N(dv.val as i128),
                                                        s(d.variant(vi).name.to_string()),
                                                    ]));
                                                }
                                                tj.push(("enum", s(self.path(d.did()))));
                                                tj.push(("variants", J::A(names)));
                                                let qp = self.place(body, q);
                                                tj.push(("of", qp));
                                            }
                                        }
                                    }
                                    break;
                                }
                            }
                        }
                    }
                }
                TerminatorKind::UnwindResume => tj.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => tj.push(("k", s("terminate"))),
                TerminatorKind::Return => tj.push(("k", s("return"))),
                TerminatorKind::Unreachable => tj.push(("k", s("unreachable"))),
                TerminatorKind::CoroutineDrop => tj.push(("k", s("codrop"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    tj.push(("k", s("drop")));
                    let p = self.place(body, place);
                    tj.push(("p", p));
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    tj.push(("ty", n(dt)));
                    tj.push(("t", n(target.as_usize())));
                    tj.push(("u", unw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    tj.push(("k", s("call")));
                    let f = self.operand(body, env, func);
                    tj.push(("f", f));
                    let v: Vec<J> =
                        args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    tj.push(("a", J::A(v)));
                    let d = self.place(body, destination);
                    tj.push(("d", d));
                    if let Some(t) = target {
                        tj.push(("t", n(t.as_usize())));
                    }
                    tj.push(("u", unw(unwind)));
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    tj.push(("k", s("call")));
                    let f = self.operand(body, env, func);
                    tj.push(("f", f));
                    let v: Vec<J> =
                        args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    tj.push(("a", J::A(v)));
                    tj.push(("d", n(0)));
                    tj.push(("u", s("continue")));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    tj.push(("k", s("assert")));
                    let c = self.operand(body, env, cond);
                    tj.push(("c", c));
                    tj.push(("e", J::B(*expected)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    tj.push(("m", s(m)));
                    tj.push(("t", n(target.as_usize())));
                    tj.push(("u", unw(unwind)));
                }
                TerminatorKind::Yield { value, resume, drop, .. } => {
                    tj.push(("k", s("yield")));
                    let v = self.operand(body, env, value);
                    tj.push(("v", v));
                    tj.push(("t", n(resume.as_usize())));
                    if let Some(d) = drop {
                        tj.push(("drop", n(d.as_usize())));
                    }
                }
                TerminatorKind::InlineAsm { targets, .. } => {
                    tj.push(("k", s("asm")));
                    if let Some(t) = targets.first() {
                        tj.push(("t", n(t.as_usize())));
                    }
                }
            }
            tj.push(("l", l));
            let mut bj = vec![("s", J::A(st)), ("t", J::O(tj))];
            if bb.is_cleanup {
                bj.push(("c", J::B(true)));
            }
            bbs.push(J::O(bj));
        }
        o.push(("bbs", J::A(bbs)));
        J::O(o)
    }
}

struct Cb {
    out: String,
}

// Bodies as they are when built: evaluating a constant (an array length, say) during type checking
// steals the body of the constant and of the const functions it calls.
struct Kept(HashMap<LocalDefId, (Body<'static>, Vec<Body<'static>>)>);
unsafe impl Send for Kept {}
static KEPT: Mutex<Option<Kept>> = Mutex::new(None);
type Promoted = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> PromotedOut<'tcx>;
type PromotedOut<'tcx> =
    (&'tcx Steal<Body<'tcx>>, &'tcx Steal<rustc_index::IndexVec<rustc_middle::mir::Promoted, Body<'tcx>>>);
static ORIG: OnceLock<Promoted> = OnceLock::new();

fn keep<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> PromotedOut<'tcx> {
    let (b, prom) = ORIG.get().unwrap()(tcx, def);
    let kept: (Body<'tcx>, Vec<Body<'tcx>>) =
        (b.borrow().clone(), prom.borrow().iter().cloned().collect());
    // only read back in after_expansion, while tcx is alive
    let kept = unsafe {
        std::mem::transmute::<(Body<'tcx>, Vec<Body<'tcx>>), (Body<'static>, Vec<Body<'static>>)>(kept)
    };
    KEPT.lock().unwrap().get_or_insert_with(|| Kept(HashMap::new())).0.insert(def, kept);
    (b, prom)
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_, providers| {
            let _ = ORIG.set(providers.queries.mir_promoted);
            providers.queries.mir_promoted = keep;
        });
    }

    fn after_expansion<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![] };
        let mut bodies = vec![];
        let mut seen = HashSet::new();
        let mut cl: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        for def in tcx.hir_body_owners() {
            if !seen.insert(def) {
                continue;
            }
            let _ = tcx.mir_promoted(def);
            let (b, prom) = KEPT.lock().unwrap().as_mut().unwrap().0.remove(&def).expect("body built");
            cl.push(unsafe {
                std::mem::transmute::<
                    (LocalDefId, Body<'static>, Vec<Body<'static>>),
                    (LocalDefId, Body<'tcx>, Vec<Body<'tcx>>),
                >((def, b, prom))
            });
        }
        *KEPT.lock().unwrap() = None;
        for (def, b, prom) in &cl {
            let mut j = cx.body(*def, b);
            if let J::O(v) = &mut j {
                let mut ps = vec![];
                for p in prom {
                    ps.push(cx.body(*def, p));
                }
                if !ps.is_empty() {
                    v.push(("promoted", J::A(ps)));
                }
            }
            bodies.push(j);
        }
        // ADTs, impls, traits
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut fns = vec![];
        let send_trait = tcx.get_diagnostic_item(sym::Send);
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let send = send_trait.map_or(false, |tr| cx.auto(did, t, tr));
                            let t = cx.ty(t);
                            fs.push(J::O(vec![
                                ("n", s(f.name.to_string())),
                                ("t", n(t)),
                                ("send", J::B(send)),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
                    }
                    let vis = tcx.effective_visibilities(()).is_reachable(id);
                    let whole = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let send = send_trait.map_or(false, |t| cx.auto(did, whole, t));
                    let sync = tcx.lang_items().sync_trait().map_or(false, |t| cx.auto(did, whole, t));
                    adts.push(J::O(vec![
                        ("path", s(cx.path(did))),
                        ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                        ("file", s(cx.file(tcx.def_span(did)))),
                        ("loc", cx.loc(tcx.def_span(did))),
                        ("public", J::B(vis)),
                        ("has_drop", J::B(def.has_dtor(tcx))),
                        ("send", J::B(send)),
                        ("sync", J::B(sync)),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let mut o = vec![
                        ("self", n(st)),
                        ("file", s(cx.file(tcx.def_span(did)))),
                        ("loc", cx.loc(tcx.def_span(did))),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        let a = cx.args(tr.args);
                        o.push(("trait_args", a));
                        let h = tcx.impl_trait_header(did);
                        o.push(("unsafe", J::B(!h.safety.is_safe())));
                        o.push(("polarity", s(format!("{:?}", h.polarity))));
                    }
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.push(J::O(vec![
                            ("n", s(it.opt_name().map(|x| x.to_string()).unwrap_or_default())),
                            ("uid", s(cx.uid(it.def_id))),
                        ]));
                    }
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.push(J::O(vec![
                            ("n", s(it.opt_name().map(|x| x.to_string()).unwrap_or_default())),
                            ("uid", s(cx.uid(it.def_id))),
                            ("default", J::B(it.defaultness(tcx).has_value())),
                        ]));
                    }
                    let vis = tcx.effective_visibilities(()).is_reachable(id);
                    traits.push(J::O(vec![
                        ("path", s(cx.path(did))),
                        ("public", J::B(vis)),
                        ("items", J::A(items)),
                    ]));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    let text = with_no_trimmed_paths!(format!("{}", sig));
                    let sig = sig.skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| n(cx.ty(*t))).collect();
                    let out = cx.ty(sig.output());
                    fns.push(J::O(vec![
                        ("uid", s(cx.uid(did))),
                        ("path", s(cx.path(did))),
                        ("in", J::A(ins)),
                        ("out", n(out)),
                        ("sig", s(text)),
                        ("public", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                    ]));
                }
                _ => {}
            }
        }
        let tys = std::mem::take(&mut cx.ty_out);
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("types", J::A(tys)),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("fns", J::A(fns)),
        ]);
        let mut out = String::new();
        root.w(&mut out);
        let tmp = format!("{}.tmp.{}", self.out, std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked by cargo as `driver <rustc> args...`
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is = true;
        }
    }
    rustc_driver::install_ice_hook("mirfacts", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || {
        if is && !out.is_empty() {
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    code
}
