use crate::json::{s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::io::Write;

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
pub fn tys<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(t.to_string())
}
pub fn loc(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let l = sm.lookup_char_pos(sp.lo());
    let f = format!("{}", l.file.name.prefer_local_unconditionally());
    format!("{}:{}", f, l.line)
}
fn line(tcx: TyCtxt<'_>, sp: Span) -> i128 {
    let sp = sp.source_callsite();
    tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128
}
fn macros(_tcx: TyCtxt<'_>, sp: Span) -> Vec<J> {
    let mut v = vec![];
    for e in sp.macro_backtrace() {
        if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
            v.push(s(name.to_string()));
        }
    }
    v
}

pub struct Cx<'a, 'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub body: &'a Body<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    pub fn place(&self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, fty) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty
                                .variant_index
                                .unwrap_or(rustc_abi::FIRST_VARIANT);
                            if (vi.as_usize()) < def.variants().len() {
                                let v = def.variant(vi);
                                if f.as_usize() < v.fields.len() {
                                    v.fields[f].name.to_string()
                                } else {
                                    f.as_usize().to_string()
                                }
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pty.ty.kind() {
                        ty::Adt(def, _) => path(self.tcx, def.did()),
                        _ => String::new(),
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name), s(owner), s(tys(fty))])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::B(from_end),
                    J::I(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("sub"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("dc"),
                    J::I(v.as_usize() as i128),
                    s(n.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                _ => s("other"),
            };
            pty = pty.projection_ty(self.tcx, e);
            pr.push(j);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }
    pub fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, did)))];
        o.push(("args", J::A(args.iter().map(|a| s(with_no_trimmed_paths!(a.to_string()))).collect())));
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(path(tcx, t))));
        }
        o.push(("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("krate", s(tcx.crate_name(did.krate).to_string())));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, did, args) {
                let rd = inst.def_id();
                match inst.def {
                    ty::InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                    ty::InstanceKind::Item(_) => {
                        o.push(("resolved", s(path(tcx, rd))));
                        o.push(("rargs", J::A(inst.args.iter().map(|a| s(with_no_trimmed_paths!(a.to_string()))).collect())));
                    }
                    _ => o.push(("shim", s(format!("{:?}", inst.def)))),
                }
            }
        }
        J::O(o)
    }
    pub fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", s(tys(t)))];
        match t.kind() {
            ty::FnDef(did, args) => {
                o.push(("fn", self.callee(*did, args.skip_binder())));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                o.push(("owner", s(path(tcx, u.def))));
                return J::O(o);
            }
            o.push(("item", s(path(tcx, u.def))));
        }
        if c.const_.has_param() {
            return J::O(o);
        }
        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
            if let Some(si) = v.try_to_scalar_int() {
                let bits = si.to_bits_unchecked();
                match t.kind() {
                    ty::Int(_) => {
                        let sz = si.size();
                        o.push(("v", J::I(sz.sign_extend(bits) as i128)));
                    }
                    ty::Float(ty::FloatTy::F32) => {
                        o.push(("f", s(format!("{:?}", f32::from_bits(bits as u32)))))
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        o.push(("f", s(format!("{:?}", f64::from_bits(bits as u64)))))
                    }
                    _ => o.push(("v", J::I(bits as i128))),
                }
            } else if t.is_ref() && t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false) {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                }
            } else if let Some(st) = static_of(tcx, v) {
                o.push(("static", s(path(tcx, st))));
            }
        }
        J::O(o)
    }
    pub fn op(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rt")]),
        }
    }
    pub fn rv(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(o), s(with_no_trimmed_paths!(n.to_string()))]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                self.place(p),
                s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
            ]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(self.tcx, *d))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), self.op(o), s(tys(*t)), s(format!("{:?}", k)), s(tys(o.ty(self.body, self.tcx)))])
            }
            Rvalue::BinaryOp(b, x) => {
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(&x.0), self.op(&x.1)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o)]),
            Rvalue::Discriminant(p) => {
                J::A(vec![s("discr"), self.place(p), s(tys(p.ty(self.body, self.tcx).ty))])
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        J::A(vec![
                            s("adt"),
                            s(path(self.tcx, *d)),
                            J::I(v.as_usize() as i128),
                            s(def.variant(*v).name.to_string()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(path(self.tcx, *d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(ops.iter().map(|o| self.op(o)).collect())])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), self.place(p), s("mut")]),
        }
    }
    fn bb(b: BasicBlock) -> J {
        J::I(b.as_usize() as i128)
    }
    pub fn term(&self, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let ln = J::I(line(tcx, t.source_info.span));
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", Self::bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                o.push(("d", self.op(discr)));
                o.push(("dty", s(tys(discr.ty(self.body, tcx)))));
                o.push((
                    "v",
                    J::A(targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), Self::bb(b)]))
                        .collect()),
                ));
                o.push(("o", Self::bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("k", s("terminate"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop")));
                o.push(("p", self.place(place)));
                o.push(("ty", s(tys(place.ty(self.body, tcx).ty))));
                o.push(("t", Self::bb(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                let fty = func.ty(self.body, tcx);
                match fty.kind() {
                    ty::FnDef(did, ga) => o.push(("f", self.callee(*did, ga.skip_binder()))),
                    _ => o.push(("fp", self.op(func))),
                }
                o.push(("a", J::A(args.iter().map(|a| self.op(&a.node)).collect())));
                o.push(("d", self.place(destination)));
                match target {
                    Some(b) => o.push(("t", Self::bb(*b))),
                    None => o.push(("t", J::N)),
                }
                let m = macros(tcx, t.source_info.span);
                if !m.is_empty() {
                    o.push(("mac", J::A(m)));
                }
            }
            TerminatorKind::TailCall { .. } => o.push(("k", s("tailcall"))),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                o.push(("c", self.op(cond)));
                o.push(("e", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        J::A(vec![s("bounds"), self.op(len), self.op(index)])
                    }
                    AssertKind::Overflow(b, x, y) => {
                        J::A(vec![s("overflow"), s(format!("{:?}", b)), self.op(x), self.op(y)])
                    }
                    AssertKind::OverflowNeg(x) => J::A(vec![s("neg"), self.op(x)]),
                    AssertKind::DivisionByZero(x) => J::A(vec![s("div0"), self.op(x)]),
                    AssertKind::RemainderByZero(x) => J::A(vec![s("rem0"), self.op(x)]),
                    _ => J::A(vec![s("other")]),
                };
                o.push(("m", m));
                o.push(("t", Self::bb(*target)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", Self::bb(*real_target)));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", Self::bb(*real_target)));
            }
            _ => o.push(("k", s("other"))),
        }
        o.push(("ln", ln));
        J::O(o)
    }
    pub fn blocks(&self) -> J {
        let mut v = vec![];
        for (_i, b) in self.body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in b.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::A(vec![
                        s("="),
                        self.place(&a.0),
                        self.rv(&a.1),
                        J::I(line(self.tcx, x.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("sd"),
                        self.place(place),
                        J::I(variant_index.as_usize() as i128),
                    ])),
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)]))
                    }
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intr"), s(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let mut o = vec![("s", J::A(st)), ("t", self.term(b.terminator()))];
            if b.is_cleanup {
                o.push(("cl", J::B(true)));
            }
            v.push(J::O(o));
        }
        J::A(v)
    }
    pub fn locals(&self) -> J {
        let mut names: Vec<Option<String>> = vec![None; self.body.local_decls.len()];
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        J::A(self
            .body
            .local_decls
            .iter_enumerated()
            .map(|(i, d)| {
                let mut o = vec![s(tys(d.ty))];
                if let Some(n) = &names[i.as_usize()] {
                    o.push(s(n.clone()));
                }
                J::A(o)
            })
            .collect())
    }
}

fn static_of(tcx: TyCtxt<'_>, v: ConstValue) -> Option<DefId> {
    if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
        if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
            return Some(d);
        }
    }
    None
}

fn fn_record<'tcx>(
    tcx: TyCtxt<'tcx>,
    did: LocalDefId,
    body: &Body<'tcx>,
    id: String,
    kind: &str,
) -> J {
    let env = ty::TypingEnv::post_analysis(tcx, did.to_def_id());
    let cx = Cx { tcx, body, env };
    let d = did.to_def_id();
    let mut o = vec![
        ("rec", s("fn")),
        ("id", s(id)),
        ("kind", s(kind)),
        ("loc", s(loc(tcx, tcx.def_span(d)))),
        ("argc", J::I(body.arg_count as i128)),
        ("locals", cx.locals()),
        ("blocks", cx.blocks()),
    ];
    o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
    if let Some(p) = tcx.opt_parent(d) {
        o.push(("parent", s(path(tcx, p))));
        if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", s(tys(st))));
            if of_trait {
                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
            }
        }
    }
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
        o.push(("pub", J::B(tcx.visibility(d).is_public())));
    }
    let m = macros(tcx, tcx.def_span(d));
    if !m.is_empty() {
        o.push(("mac", J::A(m)));
    }
    J::O(o)
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let tmp = format!("{}.tmp", out);
    let mut f = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&tmp).unwrap());
    let mut buf = String::new();
    let mut emit = |j: J| {
        buf.clear();
        j.w(&mut buf);
        buf.push('\n');
        f.write_all(buf.as_bytes()).unwrap();
    };
    let mut n = 0;
    // ADTs, impls, consts
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let vars = def
                    .variants()
                    .iter()
                    .map(|v| {
                        J::O(vec![
                            ("name", s(v.name.to_string())),
                            (
                                "fields",
                                J::A(v
                                    .fields
                                    .iter()
                                    .map(|fd| {
                                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                                        let env = ty::TypingEnv::post_analysis(tcx, d);
                                        let n = tcx
                                            .try_normalize_erasing_regions(env, tcx.type_of(fd.did).instantiate_identity())
                                            .unwrap_or(t);
                                        J::A(vec![
                                            s(fd.name.to_string()),
                                            s(tys(t)),
                                            J::B(tcx.visibility(fd.did).is_public()),
                                            s(tys(n)),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect();
                let discr: Vec<J> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| J::I(d.val as i128)).collect()
                } else {
                    vec![]
                };
                let mut all_adts = vec![];
                // inherent methods of ADTs occurring in field types (any crate)
                for v in def.variants() {
                    for fd in v.fields.iter() {
                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        for g in t.walk() {
                            if let Some(t) = g.as_type() {
                                if let ty::Adt(ad, _) = t.kind() {
                                    let ms: Vec<J> = tcx
                                        .inherent_impls(ad.did())
                                        .iter()
                                        .flat_map(|i| {
                                            tcx.associated_items(*i)
                                                .in_definition_order()
                                                .filter(|x| x.is_fn())
                                                .map(|x| s(x.name().to_string()))
                                                .collect::<Vec<_>>()
                                        })
                                        .collect();
                                    let std_ = matches!(
                                        tcx.crate_name(ad.did().krate).as_str(),
                                        "core" | "alloc" | "std"
                                    );
                                    if !std_ {
                                        all_adts.push(J::A(vec![
                                            s(fd.name.to_string()),
                                            s(path(tcx, ad.did())),
                                            J::A(ms),
                                        ]));
                                    }
                                }
                            }
                        }
                    }
                }
                emit(J::O(vec![
                    ("rec", s("adt")),
                    ("id", s(path(tcx, d))),
                    ("kind", s(def.descr())),
                    ("variants", J::A(vars)),
                    ("discr", J::A(discr)),
                    ("field_adts", J::A(all_adts)),
                    ("loc", s(loc(tcx, tcx.def_span(d)))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    s(path(tcx, t.def_id))
                } else {
                    J::N
                };
                let items = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|x| x.is_fn())
                    .map(|x| J::A(vec![s(x.name().to_string()), s(path(tcx, x.def_id))]))
                    .collect();
                emit(J::O(vec![
                    ("rec", s("impl")),
                    ("self_ty", s(tys(st))),
                    ("trait", tr),
                    ("items", J::A(items)),
                    ("loc", s(loc(tcx, tcx.def_span(d)))),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                ]));
            }
            DefKind::Const { .. } => {
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("rec", s("const")), ("id", s(path(tcx, d))), ("ty", s(tys(t)))];
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        if let Some(si) = v.try_to_scalar_int() {
                            o.push(("v", J::I(si.to_bits_unchecked() as i128)));
                        }
                    }
                    emit(J::O(o));
                }
            }
            _ => {}
        }
    }
    for did in tcx.mir_keys(()) {
        let d = did.to_def_id();
        let dk = tcx.def_kind(d);
        let kind = match dk {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            _ => continue,
        };
        if tcx.is_constructor(d) {
            continue;
        }
        if !tcx.is_mir_available(d) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let id = path(tcx, d);
        emit(fn_record(tcx, *did, body, id.clone(), kind));
        n += 1;
        for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
            emit(fn_record(
                tcx,
                *did,
                pb,
                format!("{}::promoted[{}]", id, pi.as_usize()),
                "promoted",
            ));
        }
    }
    let roots = std::env::var("HX_ROOTS").unwrap_or_default();
    let roots: Vec<&str> = roots.split(',').filter(|x| !x.is_empty()).collect();
    crate::mono::graph(tcx, &roots, &mut emit);
    emit(J::O(vec![("rec", s("end")), ("fns", J::I(n))]));
    f.flush().unwrap();
    std::fs::rename(&tmp, out).unwrap();
}
