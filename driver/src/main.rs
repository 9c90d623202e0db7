// Fact extractor: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) which writes, for the crates
// named in FACTDUMP_CRATES, the type-checked program as JSON: every MIR body with resolved callees,
// structured types, ADT and function signatures, statics and unsafe/Send/Sync facts.
// It executes nothing of the analysed program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
#[derive(Clone)]
enum J {
    S(String),
    I(i128),
    /// a type, by its number in the table of types
    T(usize),
    B(bool),
    N,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    /// types written out instead of numbered
    fn norm(&self, tys: &[J]) -> J {
        match self {
            J::T(i) => {
                if let J::O(f) = &tys[*i] {
                    if let Some((_, x)) = f.iter().find(|(k, _)| *k == "s") {
                        return x.clone();
                    }
                }
                J::T(*i)
            }
            J::A(v) => J::A(v.iter().map(|x| x.norm(tys)).collect()),
            J::O(v) => J::O(v.iter().map(|(k, x)| (*k, x.norm(tys))).collect()),
            x => x.clone(),
        }
    }
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::T(i) => {
                let _ = write!(o, "{i}");
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn i<T: TryInto<i128>>(x: T) -> J {
    J::I(x.try_into().ok().unwrap_or(-1))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        ))
    }
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name))]),
            ty::ConstKind::Value(v) => {
                if let Some(l) = c.try_to_leaf() {
                    J::O(vec![
                        ("k", s("val")),
                        ("bits", s(l.to_bits_unchecked())),
                        ("ty", self.ty(v.ty)),
                    ])
                } else {
                    J::O(vec![("k", s("other")), ("s", s(format!("{c:?}")))])
                }
            }
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{c:?}")))]),
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(J::O(vec![("t", self.ty(t))]))
            } else if let Some(c) = g.as_const() {
                let c = self.cst(c);
                v.push(J::O(vec![("c", c)]))
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(x) = self.tymap.get(&t) {
            return J::T(*x);
        }
        let idx = self.tys.len();
        self.tymap.insert(t, idx);
        self.tys.push(J::N);
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(_) | TyKind::Uint(_) => {
                o.push(("k", s("int")));
                o.push(("name", s(t)))
            }
            TyKind::Float(_) => {
                o.push(("k", s("float")));
                o.push(("name", s(t)))
            }
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name)))
            }
            TyKind::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x);
                o.push(("to", x));
            }
            TyKind::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x);
                o.push(("to", x));
            }
            TyKind::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(*x);
                o.push(("of", x));
            }
            TyKind::Array(x, n) => {
                o.push(("k", s("array")));
                let x = self.ty(*x);
                o.push(("of", x));
                let n = self.cst(*n);
                o.push(("len", n));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("of", J::A(v)));
            }
            TyKind::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(d.did()))));
                o.push(("local", J::B(d.did().is_local())));
                let a = self.args(a);
                o.push(("args", a));
            }
            TyKind::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                o.push(("key", s(self.key(*d))));
                let a = self.args(a.skip_binder());
                o.push(("args", a));
            }
            TyKind::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("key", s(self.key(*d))));
                let ck = a.as_closure();
                let up: Vec<Ty<'tcx>> = ck.upvar_tys().iter().collect();
                let v = up.into_iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::A(v)));
                o.push(("kind", s(format!("{:?}", ck.kind()))));
            }
            TyKind::Dynamic(..) => {
                o.push(("k", s("dyn")));
            }
            TyKind::Alias(..) => {
                o.push(("k", s("alias")));
            }
            _ => o.push(("k", s("other"))),
        }
        let st = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        o.push(("s", s(st)));
        self.tys[idx] = J::O(o);
        J::T(idx)
    }

    /// a hash of the whole record that does not depend on how types are numbered
    fn stamp(&self, o: &mut Vec<(&'static str, J)>) {
        use std::hash::{Hash, Hasher};
        let mut text = String::new();
        J::O(o.iter().map(|(k, x)| (*k, x.norm(&self.tys))).collect()).w(&mut text);
        let mut h = String::new();
        for salt in 0u8..2 {
            let mut d = std::collections::hash_map::DefaultHasher::new();
            salt.hash(&mut d);
            text.hash(&mut d);
            let _ = write!(h, "{:016x}", d.finish());
        }
        o.push(("h", s(h)));
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(J::A(vec![s("*")])),
                ProjectionElem::Field(f, fty) => {
                    // field name when known
                    let mut name = String::new();
                    let mut owner = String::new();
                    if let TyKind::Adt(ad, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if (vi.as_usize()) < ad.variants().len() {
                            let v = &ad.variants()[vi];
                            if f.as_usize() < v.fields.len() {
                                name = v.fields[f].name.to_string();
                            }
                            owner = self.path(ad.did());
                        }
                    }
                    let t = self.ty(fty);
                    pr.push(J::A(vec![s("f"), i(f.as_u32()), s(name), s(owner), t]))
                }
                ProjectionElem::Index(l) => pr.push(J::A(vec![s("i"), i(l.as_u32())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    pr.push(J::A(vec![s("ci"), i(offset), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(J::A(vec![s("sub"), i(from), i(to), J::B(from_end)]))
                }
                ProjectionElem::Downcast(n, v) => pr.push(J::A(vec![
                    s("v"),
                    i(v.as_u32()),
                    s(n.map(|x| x.to_string()).unwrap_or_default()),
                ])),
                _ => pr.push(J::A(vec![s("cast")])),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![i(p.local.as_u32()), J::A(pr)])
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) -> J {
        let t = c.ty();
        let mut o = vec![("k", s("const")), ("ty", self.ty(t))];
        match t.kind() {
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let f = self.callee(env, *d, a);
                o.push(("fn", f));
                return J::O(o);
            }
            _ => {}
        }
        if let mir::Const::Ty(_, ct) = c {
            if let ty::ConstKind::Param(p) = ct.kind() {
                o.push(("param", s(p.name)));
                return J::O(o);
            }
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", i(p.as_u32())));
                o.push(("owner", s(self.key(u.def))));
                return J::O(o);
            }
            o.push(("uneval", s(self.path(u.def))));
            o.push(("unevalkey", s(self.key(u.def))));
            let a = self.args(u.args);
            o.push(("args", a));
        }
        if let Some(si) = c.try_eval_scalar_int(self.tcx, env) {
            o.push(("bits", s(si.to_bits_unchecked())));
            o.push(("size", i(si.size().bytes())));
            return J::O(o);
        }
        if let mir::Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c {
            if let Some(ga) = self.tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                match ga {
                    rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                        o.push(("static", s(self.path(d))));
                        return J::O(o);
                    }
                    _ => {}
                }
            }
        }
        if matches!(c, mir::Const::Val(ConstValue::ZeroSized, _)) {
            o.push(("zst", J::B(true)));
        }
        o.push(("s", s(format!("{c}"))));
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.constant(env, &c.const_),
            Operand::RuntimeChecks(_) => J::O(vec![("k", s("rtcheck"))]),
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(d))),
            ("key", s(self.key(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(d.is_local())),
            ("crate", s(tcx.crate_name(d.krate))),
        ];
        let a2 = self.args(a);
        o.push(("args", a2));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", self.ty(st)));
            if tcx.impl_opt_trait_ref(im).is_some() {
                let tr = tcx.impl_trait_ref(im).skip_binder().def_id;
                o.push(("impl_trait", s(self.path(tr))));
            }
        }
        let a = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("rpath", s(self.path(rd))));
                o.push(("rkey", s(self.key(rd))));
                o.push(("rlocal", J::B(rd.is_local())));
                let ra = self.args(inst.args);
                o.push(("rargs", ra));
            } else {
                o.push(("resolved", J::B(true)));
            }
        }
        J::O(o)
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(body, env, op)]),
            Rvalue::Repeat(op, n) => {
                let a = self.operand(body, env, op);
                let n = self.cst(*n);
                J::A(vec![s("repeat"), a, n])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{k:?}")), self.place(body, p)]),
            Rvalue::Cast(k, op, t) => {
                let a = self.operand(body, env, op);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), a, t])
            }
            Rvalue::BinaryOp(b, x) => {
                let l = self.operand(body, env, &x.0);
                let r = self.operand(body, env, &x.1);
                J::A(vec![s("bin"), s(format!("{b:?}")), l, r])
            }
            Rvalue::UnaryOp(u, x) => {
                let l = self.operand(body, env, x);
                J::A(vec![s("un"), s(format!("{u:?}")), l])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, fs) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let ad = self.tcx.adt_def(*d);
                        let vn = ad.variants()[*v].name.to_string();
                        let names: Vec<J> =
                            ad.variants()[*v].fields.iter().map(|f| s(f.name)).collect();
                        let a = self.args(a);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            i(v.as_u32()),
                            s(vn),
                            J::A(names),
                            a,
                            uf.map(|f| i(f.as_u32())).unwrap_or(J::N),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v = fs.iter().map(|x| self.operand(body, env, x)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("k", s("copy")), ("p", self.place(body, p))])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(body, p)]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut o = vec![];
        o.push(("argc", i(body.arg_count as u64)));
        let mut ls = vec![];
        for l in body.local_decls.iter() {
            let t = self.ty(l.ty);
            ls.push(t);
        }
        o.push(("locals", J::A(ls)));
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name), self.place(body, p)]));
            }
        }
        o.push(("names", J::A(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, &a.0);
                        let r = self.rvalue(body, env, &a.1);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setdiscr"), p, i(variant_index.as_u32())]))
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_u32())])),
                    StatementKind::Intrinsic(x2) => {
                        st.push(J::A(vec![s("intrinsic"), s(format!("{x2:?}"))]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let unsafe_ = J::B(false);
            let _ = unsafe_;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, env, discr);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(v), i(b.as_u32())]))
                        .collect();
                    J::A(vec![s("switch"), d, J::A(v), i(targets.otherwise().as_u32()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t2 = place.ty(&body.local_decls, self.tcx).ty;
                    let t2 = self.ty(t2);
                    J::A(vec![s("drop"), self.place(body, place), i(target.as_u32()), t2])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let v = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let d = self.place(body, destination);
                    let dty = destination.ty(&body.local_decls, self.tcx).ty;
                    let dty = self.ty(dty);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(v),
                        d,
                        target.map(|t| i(t.as_u32())).unwrap_or(J::N),
                        dty,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let m = format!("{msg:?}");
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), i(target.as_u32())])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_u32())])
                }
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            bbs.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("bbs", J::A(bbs)));
        o
    }

    fn generics(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let g = self.tcx.generics_of(d);
        let mut all = vec![];
        let mut cur = Some(g);
        while let Some(g) = cur {
            let mut names: Vec<(String, &'static str)> = vec![];
            for p in &g.own_params {
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => continue,
                    ty::GenericParamDefKind::Type { .. } => "type",
                    ty::GenericParamDefKind::Const { .. } => "const",
                };
                names.push((p.name.to_string(), k));
            }
            all.push(names);
            cur = g.parent.map(|p| self.tcx.generics_of(p));
        }
        for names in all.into_iter().rev() {
            for (n, k) in names {
                v.push(J::A(vec![s(n), s(k)]));
            }
        }
        J::A(v)
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new() };
    let mut bodies = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(cx.key(d))),
            ("path", s(cx.path(d))),
            ("kind", s(format!("{kind:?}"))),
            ("span", cx.span(tcx.def_span(d))),
        ];
        if isfn {
            if tcx.is_constructor(d) {
                continue;
            }
            let g = cx.generics(d);
            o.push(("generics", g));
            if kind != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("pub", J::B(tcx.visibility(d).is_public())));
                o.push((
                    "exported",
                    J::B(tcx.effective_visibilities(()).is_reachable(ld)),
                ));
                o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", cx.ty(st)));
                    if tcx.impl_opt_trait_ref(im).is_some() {
                        let tr = tcx.impl_trait_ref(im).skip_binder().def_id;
                        o.push(("impl_trait", s(cx.path(tr))));
                    }
                }
            } else {
                let p = tcx.parent(d);
                o.push(("parent", s(cx.key(p))));
            }
            let b = tcx.optimized_mir(d);
            let mut bo = cx.body(b, env);
            o.append(&mut bo);
            let mut ps = vec![];
            for p in tcx.promoted_mir(d).iter() {
                let x = cx.body(p, env);
                ps.push(J::O(x));
            }
            o.push(("promoted", J::A(ps)));
        } else {
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let b = tcx.mir_for_ctfe(d);
                let mut bo = cx.body(b, env);
                o.append(&mut bo);
            }
            if let DefKind::Static { mutability, .. } = kind {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", cx.ty(t)));
                o.push(("mut", J::B(mutability.is_mut())));
                o.push(("freeze", J::B(t.is_freeze(tcx, env))));
            }
        }
        cx.stamp(&mut o);
        bodies.push(J::O(o));
    }
    // ADTs
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let env = TypingEnv::post_analysis(tcx, d);
                let mut vs = vec![];
                for v in ad.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, d)).skip_norm_wip();
                        fs.push(J::O(vec![
                            ("name", s(f.name)),
                            ("ty", cx.ty(t)),
                            ("pub", J::B(f.vis.is_public())),
                            ("freeze", J::B(t.is_freeze(tcx, env))),
                        ]));
                    }
                    vs.push(J::O(vec![("name", s(v.name)), ("fields", J::A(fs))]));
                }
                let g = cx.generics(d);
                let mut o = vec![
                    ("path", s(cx.path(d))),
                    ("generics", g),
                    ("pub", J::B(tcx.visibility(d).is_public())),
                    ("exported", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                    ("transparent", J::B(ad.repr().transparent())),
                    ("variants", J::A(vs)),
                    ("span", cx.span(tcx.def_span(d))),
                ];
                cx.stamp(&mut o);
                adts.push(J::O(o));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = tr.self_ty();
                let items: Vec<J> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|x| s(cx.key(*x)))
                    .collect();
                impls.push(J::O(vec![
                    ("trait", s(cx.path(tr.def_id))),
                    ("self", cx.ty(st)),
                    ("args", cx.args(tr.args)),
                    ("items", J::A(items)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }
    let cfgs: Vec<J> = tcx
        .sess
        .config
        .iter()
        .filter(|(k, _)| k.as_str() == "feature")
        .map(|(_, v)| s(v.map(|x| x.to_string()).unwrap_or_default()))
        .collect();
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE))),
        ("features", J::A(cfgs)),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("types", J::A(std::mem::take(&mut cx.tys))),
    ]);
    let mut out = String::new();
    root.w(&mut out);
    out
}

struct Cb {
    dump: bool,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        if self.dump {
            config.opts.unstable_opts.mir_opt_level = Some(0);
        }
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if self.dump {
            let out = dump(tcx);
            let dir = std::env::var("FACTDUMP_OUT").expect("FACTDUMP_OUT");
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let p = format!("{dir}/{name}.json");
            std::fs::write(&p, out).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let crates = std::env::var("FACTDUMP_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|p| args.get(p + 1).cloned())
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let dump = !is_test && crates.split(',').any(|c| c == name);
    let mut cb = Cb { dump };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
