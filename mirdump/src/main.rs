//! rustc driver that writes the MIR of the crate being compiled as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: for the primary package (env MIRDUMP_CRATE) it
//! writes the bodies of all local functions, closures, constants and statics to
//! $MIRDUMP_OUT; every other crate is compiled normally.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use json::J;
use rustc_abi::{FieldsShape, Size, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocRange, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::cell::RefCell;
use std::collections::HashMap;

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump(tcx);
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        std::fs::write(&out, j.to_string()).expect("write MIRDUMP_OUT");
        Compilation::Continue
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<HashMap<Ty<'tcx>, usize>>,
    ty_out: RefCell<Vec<J>>,
    adts: RefCell<HashMap<DefId, J>>,
    statics: RefCell<HashMap<DefId, Option<J>>>,
    pending_statics: RefCell<Vec<DefId>>,
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let cx = Cx {
        tcx,
        tys: Default::default(),
        ty_out: Default::default(),
        adts: Default::default(),
        statics: Default::default(),
        pending_statics: Default::default(),
    };
    let mut bodies = vec![];
    let mut items = vec![];
    for &ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                bodies.push(cx.body_item(ld));
            }
            DefKind::Static { .. } => {
                cx.pending_statics.borrow_mut().push(d);
            }
            _ => {}
        }
    }
    // impl items, so that the checks can enumerate what a type implements
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
            let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tr = if of_trait {
                J::S(path(tcx, tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().def_id))
            } else {
                J::Null
            };
            let its: Vec<J> = tcx
                .associated_items(d)
                .in_definition_order()
                .map(|a| J::S(uid(tcx, a.def_id)))
                .collect();
            items.push(J::obj(vec![
                ("self", cx.ty(self_ty)),
                ("self_s", J::S(format!("{}", with_no_trimmed_paths!(self_ty.to_string())))),
                ("trait", tr),
                ("items", J::A(its)),
                ("derived", J::B(tcx.is_automatically_derived(d))),
            ]));
        }
    }
    loop {
        let d = { cx.pending_statics.borrow_mut().pop() };
        let Some(d) = d else { break };
        if cx.statics.borrow().contains_key(&d) {
            continue;
        }
        cx.statics.borrow_mut().insert(d, None);
        let v = cx.static_value(d);
        cx.statics.borrow_mut().insert(d, Some(v));
    }
    let statics: Vec<(String, J)> = cx
        .statics
        .borrow()
        .iter()
        .map(|(d, v)| (uid(tcx, *d), v.clone().unwrap_or(J::Null)))
        .collect();
    let adts: Vec<(String, J)> =
        cx.adts.borrow().iter().map(|(d, v)| (uid(tcx, *d), v.clone())).collect();
    J::obj(vec![
        ("crate", J::S(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("bodies", J::A(bodies)),
        ("impls", J::A(items)),
        ("statics", J::O(statics)),
        ("adts", J::O(adts)),
        ("types", J::A(cx.ty_out.borrow().clone())),
    ])
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> J {
        if let Some(&i) = self.tys.borrow().get(&t) {
            return J::I(i as i128);
        }
        let i = self.ty_out.borrow().len();
        self.tys.borrow_mut().insert(t, i);
        self.ty_out.borrow_mut().push(J::Null);
        let tcx = self.tcx;
        let s = with_no_trimmed_paths!(t.to_string());
        let mut f: Vec<(&str, J)> = vec![];
        let k = match *t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Str => "str",
            ty::Never => "never",
            ty::Adt(a, args) => {
                self.adt(a);
                f.push(("adt", J::S(uid(tcx, a.did()))));
                f.push(("args", J::A(args.types().map(|t| self.ty(t)).collect())));
                if a.is_box() {
                    f.push(("box", J::B(true)));
                }
                "adt"
            }
            ty::Array(e, n) => {
                f.push(("elem", self.ty(e)));
                f.push((
                    "len",
                    n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null),
                ));
                "array"
            }
            ty::Slice(e) => {
                f.push(("elem", self.ty(e)));
                "slice"
            }
            ty::RawPtr(e, m) => {
                f.push(("elem", self.ty(e)));
                f.push(("mut", J::B(m.is_mut())));
                "ptr"
            }
            ty::Ref(_, e, m) => {
                f.push(("elem", self.ty(e)));
                f.push(("mut", J::B(m.is_mut())));
                "ref"
            }
            ty::FnDef(d, bargs) => {
                let args = bargs.no_bound_vars().unwrap_or_else(|| bargs.skip_binder());
                f.push(("fn", self.fndef(d, args, None)));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Closure(d, _) => {
                f.push(("id", J::S(uid(tcx, d))));
                "closure"
            }
            ty::Tuple(l) => {
                f.push(("elems", J::A(l.iter().map(|t| self.ty(t)).collect())));
                "tuple"
            }
            ty::Param(p) => {
                f.push(("name", J::S(p.name.to_string())));
                "param"
            }
            ty::Dynamic(..) => "dyn",
            ty::Alias(..) => "alias",
            _ => "other",
        };
        f.push(("k", J::s(k)));
        f.push(("s", J::S(s)));
        self.ty_out.borrow_mut()[i] = J::obj(f);
        J::I(i as i128)
    }

    fn adt(&self, a: ty::AdtDef<'tcx>) {
        if self.adts.borrow().contains_key(&a.did()) {
            return;
        }
        self.adts.borrow_mut().insert(a.did(), J::Null);
        let tcx = self.tcx;
        let kind = if a.is_enum() {
            "enum"
        } else if a.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut vs = vec![];
        if a.is_enum() || a.is_struct() {
            for (vi, v) in a.variants().iter_enumerated() {
                let discr = if a.is_enum() {
                    // bit pattern, as it appears in SwitchInt targets
                    J::I(a.discriminant_for_variant(tcx, vi).val as i128)
                } else {
                    J::Null
                };
                vs.push(J::obj(vec![
                    ("name", J::S(v.name.to_string())),
                    ("discr", discr),
                    (
                        "fields",
                        J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
                    ),
                    (
                        "tys",
                        J::A(
                            v.fields
                                .iter()
                                .map(|f| {
                                    J::S(tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string())
                                })
                                .collect(),
                        ),
                    ),
                ]));
            }
        }
        let j = J::obj(vec![
            ("path", J::S(path(tcx, a.did()))),
            ("kind", J::s(kind)),
            ("local", J::B(a.did().is_local())),
            ("variants", J::A(vs)),
        ]);
        self.adts.borrow_mut().insert(a.did(), j);
    }

    fn fndef(
        &self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<ty::TypingEnv<'tcx>>,
    ) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&str, J)> = vec![
            ("path", J::S(path(tcx, d))),
            ("id", J::S(uid(tcx, d))),
            ("local", J::B(d.is_local())),
            ("kind", J::S(format!("{:?}", tcx.def_kind(d)))),
            ("args", J::A(args.types().map(|t| self.ty(t)).collect())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", J::S(path(tcx, tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            f.push(("impl_self", J::S(with_no_trimmed_paths!(st.to_string()))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            f.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            // tuple struct / variant constructor
            let (adt, v) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                (tcx.parent(p), Some(p))
            } else {
                (p, None)
            };
            let a = tcx.adt_def(adt);
            self.adt(a);
            f.push(("ctor", J::S(uid(tcx, adt))));
            f.push((
                "variant",
                J::I(v.map(|v| a.variant_index_with_id(v).as_usize()).unwrap_or(0) as i128),
            ));
        }
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
                    let rd = i.def_id();
                    f.push((
                        "res",
                        J::obj(vec![
                            ("id", J::S(uid(tcx, rd))),
                            ("path", J::S(path(tcx, rd))),
                            ("local", J::B(rd.is_local())),
                            ("shim", J::B(!matches!(i.def, ty::InstanceKind::Item(_)))),
                            ("args", J::A(i.args.types().map(|t| self.ty(t)).collect())),
                        ]),
                    ));
                }
            }
        }
        J::obj(f)
    }

    fn body_item(&self, ld: LocalDefId) -> J {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let is_const = tcx.is_const_fn(d);
        let body = tcx.optimized_mir(d);
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let mut f: Vec<(&str, J)> = vec![
            ("id", J::S(uid(tcx, d))),
            ("path", J::S(path(tcx, d))),
            ("kind", J::S(format!("{:?}", tcx.def_kind(d)))),
            ("const", J::B(is_const)),
        ];
        if !matches!(tcx.def_kind(d), DefKind::Closure) {
            f.push(("name", J::S(tcx.item_name(d).to_string())));
            f.push(("vis", J::B(tcx.visibility(d).is_public())));
            f.push((
                "reachable",
                J::B(tcx.effective_visibilities(()).is_reachable(ld)),
            ));
        } else {
            f.push(("parent", J::S(uid(tcx, tcx.typeck_root_def_id(d)))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            f.push(("impl_self", J::S(with_no_trimmed_paths!(st.to_string()))));
            f.push(("impl_self_ty", self.ty(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                f.push(("impl_trait", J::S(path(tcx, tr.def_id))));
                f.push(("impl_trait_s", J::S(with_no_trimmed_paths!(tr.to_string()))));
            }
            f.push(("derived", J::B(tcx.is_automatically_derived(im))));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("in_trait", J::S(path(tcx, tr))));
        }
        let g = tcx.generics_of(d);
        let mut names = vec![];
        let mut gg = Some(g);
        while let Some(x) = gg {
            for p in &x.own_params {
                names.push(J::S(p.name.to_string()));
            }
            gg = x.parent.map(|p| tcx.generics_of(p));
        }
        f.push(("generics", J::A(names)));
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo());
        f.push((
            "span",
            J::S(format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line)),
        ));
        f.push(("body", self.body(body, env)));
        let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|b| self.body(b, env)).collect();
        f.push(("promoted", J::A(pr)));
        J::obj(f)
    }

    fn body(&self, b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        ss.push(J::obj(vec![
                            ("p", self.place(*p)),
                            ("r", self.rvalue(r, b, env)),
                            ("l", J::I(self.line(s.source_info.span))),
                        ]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(J::obj(vec![
                            ("setd", self.place(**place)),
                            ("v", J::I(variant_index.as_usize() as i128)),
                        ]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        ss.push(J::obj(vec![("intr", J::S(format!("{i:?}")))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let mut tj = self.term(&t.kind, b, env);
            if let J::O(ref mut v) = tj {
                v.push(("l".into(), J::I(self.line(t.source_info.span))));
            }
            blocks.push(J::obj(vec![
                ("s", J::A(ss)),
                ("t", tj),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![J::S(v.name.to_string()), self.place(p)]));
            }
        }
        J::obj(vec![
            ("argc", J::I(b.arg_count as i128)),
            (
                "spread",
                b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null),
            ),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            (
                "generic",
                J::B(b.local_decls.iter().any(|l| l.ty.has_param())),
            ),
            ("file", J::S(self.file(b.span))),
        ])
        .also(|_| {
            let _ = tcx;
        })
    }

    fn line(&self, s: rustc_span::Span) -> i128 {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line as i128
    }
    fn file(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}", p.file.name.prefer_local_unconditionally())
    }

    fn place(&self, p: mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            pr.push(match e {
                Deref => J::s("*"),
                Field(i, t) => J::obj(vec![("f", J::I(i.as_usize() as i128)), ("ty", self.ty(t))]),
                Index(l) => J::obj(vec![("i", J::I(l.as_usize() as i128))]),
                ConstantIndex { offset, min_length, from_end } => J::obj(vec![
                    ("ci", J::I(offset as i128)),
                    ("min", J::I(min_length as i128)),
                    ("end", J::B(from_end)),
                ]),
                Subslice { from, to, from_end } => J::obj(vec![
                    ("ss", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                Downcast(_, v) => J::obj(vec![("v", J::I(v.as_usize() as i128))]),
                OpaqueCast(_) | UnwrapUnsafeBinder(_) | PhantomDeref => J::s("?"),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }

    fn operand(&self, o: &mir::Operand<'tcx>, _b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::obj(vec![("c", self.place(*p))]),
            mir::Operand::Move(p) => J::obj(vec![("m", self.place(*p))]),
            mir::Operand::Constant(c) => J::obj(vec![("k", self.constant(&c.const_, c.span, env))]),
            mir::Operand::RuntimeChecks(r) => J::obj(vec![("rc", J::S(format!("{r:?}")))]),
        }
    }

    fn constant(
        &self,
        c: &mir::Const<'tcx>,
        span: rustc_span::Span,
        env: ty::TypingEnv<'tcx>,
    ) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            return J::obj(vec![
                ("ty", self.ty(t)),
                ("fn", self.fndef(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), Some(env))),
            ]);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return J::obj(vec![
                    ("ty", self.ty(t)),
                    ("promoted", J::I(p.as_usize() as i128)),
                    ("of", J::S(uid(tcx, u.def))),
                ]);
            }
        }
        match c.eval(tcx, env, span) {
            Ok(v) => {
                let mut f = vec![("ty", self.ty(t)), ("v", self.const_value(v, t, env))];
                if let mir::Const::Unevaluated(u, _) = c {
                    f.push(("from", J::S(path(tcx, u.def))));
                }
                J::obj(f)
            }
            Err(_) => J::obj(vec![("ty", self.ty(t)), ("unk", J::S(format!("{c:?}")))]),
        }
    }

    fn const_value(&self, v: ConstValue, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => self.zst(t, env),
            ConstValue::Scalar(s) => self.scalar(s, t, env),
            ConstValue::Slice { alloc_id, meta } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                    return J::s("?slice");
                };
                let inner = t.builtin_deref(true).unwrap();
                let v = self.read_slice(a.inner(), Size::ZERO, inner, meta, env);
                J::obj(vec![("ref", v)])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                    return J::s("?indirect");
                };
                self.read(a.inner(), offset, t, env)
            }
        }
    }

    fn zst(&self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match *t.kind() {
            ty::Closure(d, _) => J::obj(vec![("closure", J::S(uid(self.tcx, d)))]),
            ty::FnDef(d, a) => J::obj(vec![("fn", self.fndef(d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()), Some(env)))]),
            ty::Tuple(l) => J::obj(vec![("tuple", J::A(l.iter().map(|t| self.zst(t, env)).collect()))]),
            ty::Adt(a, args) if a.is_struct() => {
                self.adt(a);
                let fs = a
                    .non_enum_variant()
                    .fields
                    .iter()
                    .map(|f| self.zst(f.ty(self.tcx, args).skip_norm_wip(), env))
                    .collect();
                J::obj(vec![("adt", J::S(uid(self.tcx, a.did()))), ("var", J::I(0)), ("fields", J::A(fs))])
            }
            _ => J::obj(vec![("zst", self.ty(t))]),
        }
    }

    fn scalar(&self, s: Scalar, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits_unchecked();
                match *t.kind() {
                    ty::Bool => J::obj(vec![("b", J::B(bits != 0))]),
                    ty::Int(_) => {
                        let sz = i.size();
                        J::obj(vec![("n", J::S(format!("{}", sz.sign_extend(bits))))])
                    }
                    ty::Uint(_) | ty::Char => J::obj(vec![("n", J::S(format!("{bits}")))]),
                    ty::Float(ty::FloatTy::F64) => J::obj(vec![("f", J::S(format!("{bits:016x}")))]),
                    ty::Float(ty::FloatTy::F32) => J::obj(vec![("f32", J::S(format!("{bits:08x}")))]),
                    _ => {
                        // wrap in an allocation and read structurally
                        let tcx = self.tcx;
                        let sz = i.size().bytes() as usize;
                        let bytes = bits.to_le_bytes()[..sz].to_vec();
                        let a: Allocation = Allocation::from_bytes(
                            bytes,
                            rustc_abi::Align::from_bytes(16).unwrap(),
                            mir::Mutability::Not,
                            (),
                        );
                        let _ = tcx;
                        self.read(&a, Size::ZERO, t, env)
                    }
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.pointer(prov.alloc_id(), off, t, None, env)
            }
        }
    }

    fn pointer(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: Size,
        t: Ty<'tcx>,
        meta: Option<u64>,
        env: ty::TypingEnv<'tcx>,
    ) -> J {
        let tcx = self.tcx;
        let Some(inner) = t.builtin_deref(true) else {
            if let GlobalAlloc::Function { instance } = tcx.global_alloc(id) {
                return J::obj(vec![("fn", self.fndef(instance.def_id(), instance.args, Some(env)))]);
            }
            return J::s("?ptr");
        };
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                self.pending_statics.borrow_mut().push(d);
                if off == Size::ZERO && !(inner.is_slice() && meta.is_none()) {
                    let mut f = vec![("static", J::S(uid(tcx, d)))];
                    if let Some(m) = meta {
                        f.push(("meta", J::I(m as i128)));
                    }
                    return J::obj(f);
                }
                J::s("?static-offset")
            }
            GlobalAlloc::Memory(a) => {
                let v = match meta {
                    Some(m) => self.read_slice(a.inner(), off, inner, m, env),
                    None => self.read(a.inner(), off, inner, env),
                };
                J::obj(vec![("ref", v)])
            }
            GlobalAlloc::Function { instance } => {
                J::obj(vec![("fn", self.fndef(instance.def_id(), instance.args, Some(env)))])
            }
            _ => J::s("?galloc"),
        }
    }

    fn read_slice(
        &self,
        a: &Allocation,
        off: Size,
        inner: Ty<'tcx>,
        meta: u64,
        env: ty::TypingEnv<'tcx>,
    ) -> J {
        match *inner.kind() {
            ty::Str => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                    off.bytes() as usize..(off.bytes() + meta) as usize,
                );
                J::obj(vec![("str", J::S(String::from_utf8_lossy(b).into_owned()))])
            }
            ty::Slice(e) => {
                let Ok(l) = self.tcx.layout_of(env.as_query_input(e)) else { return J::s("?lay") };
                let v = (0..meta).map(|i| self.read(a, off + l.size * i, e, env)).collect();
                J::obj(vec![("arr", J::A(v))])
            }
            _ => J::s("?slice-tail"),
        }
    }

    fn read(&self, a: &Allocation, off: Size, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::s("?layout") };
        if l.is_zst() {
            return self.zst(t, env);
        }
        let rd = |o: Size, sz: Size, ptr: bool| {
            a.read_scalar(&tcx, AllocRange { start: o, size: sz }, ptr).ok()
        };
        match *t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => {
                match rd(off, l.size, false) {
                    Some(s @ Scalar::Int(_)) => self.scalar(s, t, env),
                    _ => J::s("?read"),
                }
            }
            ty::Array(e, _) => {
                let Ok(el) = tcx.layout_of(env.as_query_input(e)) else { return J::s("?lay") };
                let n = match l.fields {
                    FieldsShape::Array { count, .. } => count,
                    _ => return J::s("?arr"),
                };
                J::obj(vec![(
                    "arr",
                    J::A((0..n).map(|i| self.read(a, off + el.size * i, e, env)).collect()),
                )])
            }
            ty::Tuple(ts) => J::obj(vec![(
                "tuple",
                J::A(
                    ts.iter()
                        .enumerate()
                        .map(|(i, t)| self.read(a, off + l.fields.offset(i), t, env))
                        .collect(),
                ),
            )]),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ps = tcx.data_layout.pointer_size();
                let Some(Scalar::Ptr(p, _)) = rd(off, ps, true) else { return J::s("?ptr") };
                let (prov, o) = p.into_raw_parts();
                let meta = if inner.is_slice() || inner.is_str() {
                    match rd(off + ps, ps, false) {
                        Some(Scalar::Int(i)) => Some(i.to_bits_unchecked() as u64),
                        _ => return J::s("?meta"),
                    }
                } else {
                    None
                };
                self.pointer(prov.alloc_id(), o, t, meta, env)
            }
            ty::Adt(ad, args) => {
                self.adt(ad);
                if ad.is_union() {
                    return J::s("?union");
                }
                let (vi, vl) = match &l.variants {
                    Variants::Single { index } => (*index, l),
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let _ = variants;
                        let o = off + l.fields.offset(tag_field.as_usize());
                        let Some(Scalar::Int(i)) = rd(o, tag.size(&tcx), false) else {
                            return J::s("?tag");
                        };
                        let bits = i.to_bits_unchecked();
                        match tag_encoding {
                            rustc_abi::TagEncoding::Direct => {
                                let mut found = None;
                                for (vi, d) in ad.discriminants(tcx) {
                                    let dv = i.size().truncate(d.val);
                                    if dv == bits {
                                        found = Some(vi);
                                    }
                                }
                                let Some(vi) = found else { return J::s("?discr") };
                                let cx = ty::layout::LayoutCx::new(tcx, env);
                                (vi, l.for_variant(&cx, vi))
                            }
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = i.size().truncate(bits.wrapping_sub(*niche_start));
                                let nv = niche_variants.last.as_u32() - niche_variants.start.as_u32();
                                let vi = if rel <= nv as u128 {
                                    VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                } else {
                                    *untagged_variant
                                };
                                let cx = ty::layout::LayoutCx::new(tcx, env);
                                (vi, l.for_variant(&cx, vi))
                            }
                        }
                    }
                    _ => return J::s("?variants"),
                };
                let v = ad.variant(vi);
                let fs = v
                    .fields
                    .iter_enumerated()
                    .map(|(i, f)| {
                        self.read(
                            a,
                            off + vl.fields.offset(i.as_usize()),
                            f.ty(tcx, args).skip_norm_wip(),
                            env,
                        )
                    })
                    .collect();
                J::obj(vec![
                    ("adt", J::S(uid(tcx, ad.did()))),
                    ("var", J::I(vi.as_usize() as i128)),
                    ("fields", J::A(fs)),
                ])
            }
            ty::FnPtr(..) => {
                let ps = tcx.data_layout.pointer_size();
                let Some(Scalar::Ptr(p, _)) = rd(off, ps, true) else { return J::s("?fptr") };
                let (prov, _) = p.into_raw_parts();
                if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                    return J::obj(vec![(
                        "fn",
                        self.fndef(instance.def_id(), instance.args, Some(env)),
                    )]);
                }
                J::s("?fptr")
            }
            ty::Pat(inner, _) => self.read(a, off, inner, env),
            _ => J::s("?kind"),
        }
    }

    fn static_value(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let env = ty::TypingEnv::fully_monomorphized();
        match tcx.eval_static_initializer(d) {
            Ok(a) => J::obj(vec![("ty", self.ty(t)), ("v", self.read(a.inner(), Size::ZERO, t, env))]),
            Err(_) => J::Null,
        }
    }

    fn rvalue(&self, r: &mir::Rvalue<'tcx>, b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        use mir::Rvalue::*;
        let op = |o: &mir::Operand<'tcx>| self.operand(o, b, env);
        match r {
            Use(o, ..) => J::obj(vec![("use", op(o))]),
            Repeat(o, n) => J::obj(vec![
                ("repeat", op(o)),
                (
                    "n",
                    n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null),
                ),
            ]),
            Ref(_, k, p) => J::obj(vec![
                ("ref", self.place(*p)),
                ("mut", J::B(matches!(k, mir::BorrowKind::Mut { .. }))),
            ]),
            RawPtr(k, p) => J::obj(vec![("raw", self.place(*p)), ("kind", J::S(format!("{k:?}")))]),
            Cast(k, o, t) => J::obj(vec![
                ("cast", J::S(format!("{k:?}"))),
                ("o", op(o)),
                ("from", self.ty(o.ty(b, self.tcx))),
                ("ty", self.ty(*t)),
            ]),
            BinaryOp(k, os) => J::obj(vec![
                ("bin", J::S(format!("{k:?}"))),
                ("a", op(&os.0)),
                ("b", op(&os.1)),
                ("ty", self.ty(os.0.ty(b, self.tcx))),
            ]),
            UnaryOp(k, o) => J::obj(vec![
                ("un", J::S(format!("{k:?}"))),
                ("a", op(o)),
                ("ty", self.ty(o.ty(b, self.tcx))),
            ]),
            Discriminant(p) => J::obj(vec![
                ("discr", self.place(*p)),
                ("ty", self.ty(p.ty(b, self.tcx).ty)),
            ]),
            CopyForDeref(p) => J::obj(vec![("use", J::obj(vec![("c", self.place(*p))]))]),
            Aggregate(k, fs) => {
                let a = J::A(fs.iter().map(|o| op(o)).collect());
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        J::obj(vec![("agg", J::s("array")), ("o", a), ("ty", self.ty(*t))])
                    }
                    mir::AggregateKind::Tuple => J::obj(vec![("agg", J::s("tuple")), ("o", a)]),
                    mir::AggregateKind::Adt(d, v, _, _, act) => {
                        self.adt(self.tcx.adt_def(*d));
                        J::obj(vec![
                            ("agg", J::s("adt")),
                            ("o", a),
                            ("adt", J::S(uid(self.tcx, *d))),
                            ("var", J::I(v.as_usize() as i128)),
                            (
                                "active",
                                act.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null),
                            ),
                        ])
                    }
                    mir::AggregateKind::Closure(d, _) => J::obj(vec![
                        ("agg", J::s("closure")),
                        ("o", a),
                        ("id", J::S(uid(self.tcx, *d))),
                    ]),
                    mir::AggregateKind::RawPtr(..) => {
                        J::obj(vec![("agg", J::s("rawptr")), ("o", a)])
                    }
                    _ => J::obj(vec![("agg", J::s("?"))]),
                }
            }
            _ => J::obj(vec![("unsup", J::S(format!("{r:?}")))]),
        }
    }

    fn term(&self, t: &mir::TerminatorKind<'tcx>, b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let op = |o: &mir::Operand<'tcx>| self.operand(o, b, env);
        let bbj = |x: mir::BasicBlock| J::I(x.as_usize() as i128);
        match t {
            Goto { target, .. } => J::obj(vec![("goto", bbj(*target))]),
            SwitchInt { discr, targets } => J::obj(vec![
                ("switch", op(discr)),
                ("ty", self.ty(discr.ty(b, self.tcx))),
                (
                    "t",
                    J::A(
                        targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::S(v.to_string()), bbj(b)]))
                            .collect(),
                    ),
                ),
                ("else", bbj(targets.otherwise())),
            ]),
            Return => J::obj(vec![("ret", J::B(true))]),
            Unreachable => J::obj(vec![("unreachable", J::B(true))]),
            Drop { target, .. } => J::obj(vec![("goto", bbj(*target)), ("drop", J::B(true))]),
            Call { func, args, destination, target, .. } => J::obj(vec![
                ("call", op(func)),
                ("a", J::A(args.iter().map(|a| op(&a.node)).collect())),
                (
                    "aty",
                    J::A(args.iter().map(|a| self.ty(a.node.ty(b, self.tcx))).collect()),
                ),
                ("d", self.place(*destination)),
                ("dty", self.ty(destination.ty(b, self.tcx).ty)),
                ("to", target.map(bbj).unwrap_or(J::Null)),
            ]),
            Assert { cond, expected, msg, target, .. } => J::obj(vec![
                ("assert", op(cond)),
                ("exp", J::B(*expected)),
                ("msg", J::S(format!("{msg:?}"))),
                ("to", bbj(*target)),
            ]),
            UnwindResume => J::obj(vec![("resume", J::B(true))]),
            _ => J::obj(vec![("unsup", J::S(format!("{t:?}")))]),
        }
    }
}

trait Also: Sized {
    fn also(self, f: impl FnOnce(&Self)) -> Self {
        f(&self);
        self
    }
}
impl Also for J {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is_target = false;
    let mut is_lib = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" && args.get(i + 1).map(|s| s.as_str()) == Some(want.as_str()) {
            is_target = true;
        }
        if a == "--crate-type" && args.get(i + 1).map(|s| s.as_str()) == Some("lib") {
            is_lib = true;
        }
    }
    struct No;
    impl Callbacks for No {}
    if is_target && is_lib {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
