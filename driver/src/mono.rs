use crate::facts::{loc, path, tys};
use crate::json::{s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, TyCtxt};
use std::collections::{HashMap, VecDeque};

struct G<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Instance<'tcx>, usize>,
    q: VecDeque<Instance<'tcx>>,
}
impl<'tcx> G<'tcx> {
    fn id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.ids.get(&i) {
            return *x;
        }
        let n = self.ids.len();
        self.ids.insert(i, n);
        self.q.push_back(i);
        n
    }
}

pub fn graph<'tcx>(tcx: TyCtxt<'tcx>, roots: &[&str], emit: &mut dyn FnMut(J)) {
    let env = ty::TypingEnv::fully_monomorphized();
    let mut g = G { tcx, ids: HashMap::new(), q: VecDeque::new() };
    for did in tcx.mir_keys(()) {
        let d = did.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let p = path(tcx, d);
        if roots.iter().any(|r| *r == p) {
            let args = match root_args(tcx, d) {
                Some(a) => a,
                None => {
                    emit(J::O(vec![("rec", s("root_generic")), ("id", s(p))]));
                    continue;
                }
            };
            let i = Instance::new_raw(d, args);
            let n = g.id(i);
            emit(J::O(vec![("rec", s("root")), ("id", s(p)), ("n", J::I(n as i128))]));
        }
    }
    while let Some(inst) = g.q.pop_front() {
        let n = g.ids[&inst];
        let did = inst.def_id();
        let krate = tcx.crate_name(did.krate).to_string();
        let mut kind = "item";
        let mut has_mir = true;
        match inst.def {
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => {
                kind = "intrinsic";
                has_mir = false;
            }
            InstanceKind::Virtual(..) => {
                kind = "virtual";
                has_mir = false;
            }
            InstanceKind::Shim(ty::ShimKind::DropGlue(_, t)) => {
                kind = "dropglue";
                if t.is_none() {
                    has_mir = false;
                }
            }
            InstanceKind::Shim(_) => kind = "shim",
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) {
                    kind = "foreign";
                    has_mir = false;
                } else if !tcx.is_mir_available(d) {
                    kind = "nomir";
                    has_mir = false;
                }
            }
        }
        let mut edges: Vec<J> = vec![];
        if kind == "virtual" {
            if let InstanceKind::Virtual(md, _) = inst.def {
                let tr = tcx.trait_of_assoc(md);
                if let Some(tr) = tr {
                    for (im, ok) in impls(tcx, tr) {
                        if !ok {
                            edges.push(J::A(vec![
                                J::I(-1),
                                J::I(0),
                                s("opaque_impl"),
                                J::I(0),
                                s(path(tcx, im)),
                            ]));
                            continue;
                        }
                        let self_ty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let self_ty = tcx.erase_and_anonymize_regions(self_ty);
                        let margs = ty::GenericArgs::for_item(tcx, md, |param, _| match param.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            ty::GenericParamDefKind::Type { .. } if param.index == 0 => self_ty.into(),
                            _ => inst.args[param.index as usize],
                        });
                        if let Ok(Some(r)) = Instance::try_resolve(tcx, env, md, margs) {
                            let t = g.id(r);
                            edges.push(J::A(vec![J::I(t as i128), J::I(0), s("impl"), J::I(0)]));
                        }
                    }
                }
            }
        }
        if has_mir {
            let body = tcx.instance_mir(inst.def);
            let mono = |t: ty::Ty<'tcx>| {
                inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, t),
                )
                .ok()
            };
            for (bi, b) in body.basic_blocks.iter_enumerated() {
                if b.is_cleanup {
                    continue;
                }
                let bbi = J::I(bi.as_usize() as i128);
                let sp = b.terminator().source_info.span;
                let ln = tcx
                    .sess
                    .source_map()
                    .lookup_char_pos(sp.source_callsite().lo())
                    .line as i128;
                // function items reified to pointers / closures coerced
                for st in &b.statements {
                    if let StatementKind::Assign(a) = &st.kind {
                        if let Rvalue::Cast(CastKind::PointerCoercion(pc, _), o, _) = &a.1 {
                            use rustc_middle::ty::adjustment::PointerCoercion as PC;
                            if matches!(pc, PC::ReifyFnPointer(_) | PC::ClosureFnPointer(_)) {
                                if let Some(t) = mono(o.ty(body, tcx)) {
                                    let r = match t.kind() {
                                        ty::FnDef(d, a) => {
                                            Instance::try_resolve(tcx, env, *d, a.skip_binder()).ok().flatten()
                                        }
                                        ty::Closure(d, a) => Some(Instance::resolve_closure(
                                            tcx,
                                            *d,
                                            a,
                                            ty::ClosureKind::FnOnce,
                                        )),
                                        _ => None,
                                    };
                                    if let Some(r) = r {
                                        let t = g.id(r);
                                        edges.push(J::A(vec![
                                            J::I(t as i128),
                                            J::I(bi.as_usize() as i128),
                                            s("reify"),
                                            J::I(ln),
                                        ]));
                                    }
                                }
                            }
                        }
                        if let Rvalue::ThreadLocalRef(d) = &a.1 {
                            edges.push(J::A(vec![
                                J::I(-1),
                                J::I(bi.as_usize() as i128),
                                s("tls"),
                                J::I(ln),
                                s(path(tcx, *d)),
                            ]));
                        }
                    }
                }
                match &b.terminator().kind {
                    TerminatorKind::Call { func, target, .. } => {
                        let Some(ft) = mono(func.ty(body, tcx)) else {
                            edges.push(J::A(vec![J::I(-1), bbi, s("unnorm"), J::I(ln)]));
                            continue;
                        };
                        let div = target.is_none();
                        match ft.kind() {
                            ty::FnDef(d, a) => {
                                match Instance::try_resolve(tcx, env, *d, a.skip_binder()) {
                                    Ok(Some(r)) => {
                                        let t = g.id(r);
                                        edges.push(J::A(vec![
                                            J::I(t as i128),
                                            bbi,
                                            s(if div { "diverge" } else { "call" }),
                                            J::I(ln),
                                        ]));
                                    }
                                    _ => edges.push(J::A(vec![
                                        J::I(-1),
                                        bbi,
                                        s("unresolved"),
                                        J::I(ln),
                                        s(path(tcx, *d)),
                                    ])),
                                }
                            }
                            _ => edges.push(J::A(vec![
                                J::I(-1),
                                bbi,
                                s("fnptr"),
                                J::I(ln),
                                s(tys(ft)),
                            ])),
                        }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        if let Some(t) = mono(place.ty(body, tcx).ty) {
                            if t.needs_drop(tcx, env) {
                                let r = Instance::resolve_drop_glue(tcx, t);
                                let i = g.id(r);
                                edges.push(J::A(vec![
                                    J::I(i as i128),
                                    bbi,
                                    s("drop"),
                                    J::I(ln),
                                    s(tys(t)),
                                ]));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut o = vec![
            ("rec", s("inst")),
            ("n", J::I(n as i128)),
            ("path", s(path(tcx, did))),
            ("args", J::A(inst.args.iter().map(|a| s(with_no_trimmed_paths!(a.to_string()))).collect())),
            ("krate", s(krate)),
            ("kind", s(kind)),
            ("mir", J::B(has_mir)),
            ("loc", s(loc(tcx, tcx.def_span(did)))),
            ("e", J::A(edges)),
        ];
        if let InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(t))) = inst.def {
            o.push(("dropty", s(tys(t))));
        }
        emit(J::O(o));
        if g.ids.len() > 200_000 {
            emit(J::O(vec![("rec", s("overflow"))]));
            break;
        }
    }
    let _ = &g.tcx;
}

fn impls(tcx: TyCtxt<'_>, tr: DefId) -> Vec<(DefId, bool)> {
    tcx.all_impls(tr)
        .map(|i| (i, !tcx.generics_of(i).requires_monomorphization(tcx)))
        .collect()
}

/// Type arguments for a root: lifetimes are erased; a type parameter bounded by
/// a local trait gets a local (lifetime-generic only) implementor; a parameter
/// bounded by `Fn*() -> R` gets the function pointer type `fn() -> R`, whose
/// call is then recorded as an opaque host callback.
fn root_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Option<ty::GenericArgsRef<'tcx>> {
    let preds = tcx.clauses_of(d).instantiate_identity(tcx);
    let clauses: Vec<ty::Clause<'tcx>> = preds.clauses.iter().map(|c| c.skip_norm_wip()).collect();
    let mut ok = true;
    let args = ty::GenericArgs::for_item(tcx, d, |param, _| match param.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => {
            let mut pick = None;
            for c in &clauses {
                match c.kind().skip_binder() {
                    ty::ClauseKind::Trait(tp) => {
                        if let ty::Param(pt) = tp.self_ty().kind() {
                            if pt.index == param.index && tp.def_id().is_local() {
                                for (im, o) in impls(tcx, tp.def_id()) {
                                    if o && pick.is_none() {
                                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                                        pick = Some(tcx.erase_and_anonymize_regions(st));
                                    }
                                }
                            }
                        }
                    }
                    ty::ClauseKind::Projection(pp) => {
                        if let ty::Param(pt) = pp.self_ty().kind() {
                            if pt.index == param.index {
                                if let Some(r) = pp.term.as_type() {
                                    let r = tcx.erase_and_anonymize_regions(r);
                                    let sig = tcx.mk_fn_sig_safe_rust_abi(std::iter::empty(), r);
                                    pick = Some(ty::Ty::new_fn_ptr(tcx, ty::Binder::dummy(sig)));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            match pick {
                Some(t) => t.into(),
                None => {
                    ok = false;
                    tcx.types.unit.into()
                }
            }
        }
        _ => {
            ok = false;
            tcx.types.unit.into()
        }
    });
    if ok {
        Some(args)
    } else {
        None
    }
}
