use std::collections::HashMap;

use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

use crate::json::J;
use rustc_middle::ty::util::IntTypeExt;

use crate::obj;

type Key<'tcx> = (Instance<'tcx>, Option<TypingEnv<'tcx>>);

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<(Ty<'tcx>, Option<TypingEnv<'tcx>>), usize>,
    insts: Vec<J>,
    inst_ids: HashMap<Key<'tcx>, usize>,
    queue: Vec<(usize, Key<'tcx>)>,
    // The bounds of the type parameters in scope.
    root: Option<TypingEnv<'tcx>>,
    descend: Vec<String>,
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let descend = std::env::var("NRBF_DESCEND").unwrap_or_default();
    let mut d = D {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        insts: vec![],
        inst_ids: HashMap::new(),
        queue: vec![],
        root: None,
        descend: descend.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };

    let mut fns = vec![];
    for &local in tcx.mir_keys(()).iter() {
        let did = local.to_def_id();
        let kind = tcx.def_kind(did);
        let span = d.span(tcx.def_span(did));
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                d.root = generic.then(|| TypingEnv::post_analysis(tcx, did));
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let args = tcx.erase_and_anonymize_regions(args);
                let inst = Instance::new_raw(did, args);
                let id = d.inst(inst);
                let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
                let sig = format!("{:?}", sig);
                let derived = tcx.def_span(did).from_expansion();
                let mut trait_item = J::Null;
                let mut self_ty = J::Null;
                if let Some(assoc) = tcx.opt_associated_item(did) {
                    if let Some(t) = assoc.trait_item_def_id() {
                        trait_item = tcx.def_path_str(t).into();
                    }
                    let parent = tcx.parent(did);
                    if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                        self_ty = format!("{}", tcx.type_of(parent).instantiate_identity().skip_normalization()).into();
                    }
                }
                let vis = tcx.visibility(did).is_public();
                let reachable = tcx.effective_visibilities(()).is_reachable(local);
                fns.push(obj! {
                    "path": tcx.def_path_str(did), "inst": id, "span": span, "generic": generic, "sig": sig,
                    "unsafe": tcx.fn_sig(did).instantiate_identity().skip_binder().safety().is_unsafe(),
                    "expanded": derived, "trait_item": trait_item, "self_ty": self_ty, "pub": vis, "reachable": reachable,
                });
                d.drain();
            }
            DefKind::Closure => {}
            _ => {}
        }
    }
    d.root = None;

    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let span = d.span(tcx.def_span(did));
        let name = tcx.def_path_str(did);
        match kind {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                items.push(obj! {"kind": "static", "path": name, "mut": mutability.is_mut(), "ty": format!("{t}"), "span": span,
                    "freeze": t.is_freeze(tcx, TypingEnv::fully_monomorphized())});
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                let tid = d.ty(tcx.erase_and_anonymize_regions(t));
                items.push(obj! {"kind": "adt", "path": name, "ty": tid, "span": span,
                    "pub": tcx.effective_visibilities(()).is_reachable(id), "union": matches!(kind, DefKind::Union)});
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let mut v = J::Null;
                let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                let parent_trait = tcx.opt_associated_item(did).is_some_and(|a| matches!(tcx.def_kind(tcx.parent(a.def_id)), DefKind::Trait));
                if !generic && !parent_trait {
                    let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let t = tcx.erase_and_anonymize_regions(t);
                    if let Ok(val) = tcx.const_eval_poly(did) {
                        v = d.value(val, t, 0);
                    }
                }
                items.push(obj! {"kind": "const", "path": name, "value": v, "span": span});
            }
            DefKind::Impl { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                let of = tcx.impl_opt_trait_ref(did).map(|r| tcx.def_path_str(r.instantiate_identity().skip_normalization().def_id));
                let hazard = of.is_some() && tcx.impl_trait_header(did).safety.is_unsafe();
                let s = tcx.def_span(did);
                let foreign = s.from_expansion() && s.ctxt().outer_expn_data().macro_def_id.is_none_or(|m| !m.is_local());
                items.push(obj! {"kind": "impl", "path": name, "self": format!("{t}"), "trait": of, "span": span,
                    "unsafe": hazard, "expanded": foreign});
            }
            DefKind::ExternCrate | DefKind::ForeignMod => {
                items.push(obj! {"kind": format!("{kind:?}"), "path": name, "span": span});
            }
            _ => {}
        }
    }

    // code of a macro that is defined in another crate
    let foreign = |s: Span| s.from_expansion() && s.ctxt().outer_expn_data().macro_def_id.is_none_or(|m| !m.is_local());
    let mut unsafes = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            found: &'a mut Vec<Span>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                    self.found.push(b.span);
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut found = vec![];
        tcx.hir_visit_all_item_likes_in_crate(&mut V { tcx, found: &mut found });
        for s in found {
            unsafes.push(obj! {"span": d.span(s), "expanded": foreign(s)});
        }
    }

    d.drain();
    let D { types, insts, .. } = d;
    obj! {
        "crate": tcx.crate_name(LOCAL_CRATE).as_str(),
        "types": types, "insts": insts, "fns": fns, "items": items, "unsafe_blocks": unsafes,
    }
}

impl<'tcx> D<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        self.root.unwrap_or_else(TypingEnv::fully_monomorphized)
    }

    fn span(&self, span: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let pos = sm.lookup_char_pos(span.source_callsite().lo());
        let mut name = format!("{}", pos.file.name.prefer_local_unconditionally());
        for marker in ["/repo/", "/lib/rustlib/src/rust/library/", "/index.crates.io-"] {
            if let Some(i) = name.find(marker) {
                name = name[i + marker.len()..].to_string();
            }
        }
        format!("{}:{}", name, pos.line)
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        let root = if inst.args.has_param() { self.root } else { None };
        let key = (inst, root);
        if let Some(&id) = self.inst_ids.get(&key) {
            return id;
        }
        let id = self.insts.len();
        self.insts.push(J::Null);
        self.inst_ids.insert(key, id);
        self.queue.push((id, key));
        id
    }

    fn drain(&mut self) {
        while let Some((id, (inst, root))) = self.queue.pop() {
            let saved = self.root;
            self.root = root;
            let j = self.body(inst);
            self.root = saved;
            self.insts[id] = j;
        }
    }

    fn may_descend(&self, did: DefId) -> bool {
        let krate = self.tcx.crate_name(did.krate);
        let krate = krate.as_str();
        if matches!(krate, "nrbf" | "nom" | "serde" | "serde_core" | "bitflags") {
            return true;
        }
        let path = format!("{}{}", krate, self.tcx.def_path(did).to_string_no_crate_verbose());
        self.descend.iter().any(|p| path.starts_with(p.as_str()))
    }

    fn fn_info(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut kind = "unresolved".to_string();
        let mut rdid = did;
        let mut rargs = args;
        let mut inst_id = J::Null;
        if let DefKind::Ctor(_, CtorKind::Fn) = tcx.def_kind(did) {
            let parent = tcx.parent(did);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            let t = Ty::new_adt(tcx, tcx.adt_def(adt), args);
            let tid = self.ty(t);
            return obj! {"kind": "ctor", "path": tcx.def_path_str(did), "adt": tid, "variant": variant};
        }
        match Instance::try_resolve(tcx, self.env(), did, args) {
            Ok(Some(inst)) => {
                rdid = inst.def_id();
                rargs = inst.args;
                match inst.def {
                    InstanceKind::Item(d) => {
                        kind = "item".into();
                        if self.may_descend(d) && tcx.is_mir_available(d) && tcx.intrinsic(d).is_none() {
                            inst_id = self.inst(inst).into();
                        }
                    }
                    InstanceKind::Intrinsic(d) => {
                        kind = "intrinsic".into();
                        rdid = d;
                    }
                    InstanceKind::LlvmIntrinsic(_) => kind = "llvm".into(),
                    InstanceKind::Virtual(..) => kind = "virtual".into(),
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => kind = "closure_once".into(),
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => kind = "fn_ptr".into(),
                    InstanceKind::Shim(ShimKind::Clone(..)) => kind = "clone_shim".into(),
                    InstanceKind::Shim(_) => kind = "shim".into(),
                }
            }
            _ => {}
        }
        let mut tpath = J::Null;
        let mut self_ty = J::Null;
        if let Some(t) = tcx.trait_of_assoc(did) {
            tpath = tcx.def_path_str(did).into();
            let _ = t;
            if !args.is_empty() {
                if let Some(t) = args[0].as_type() {
                    self_ty = self.ty(t).into();
                }
            }
        } else if let Some(a) = tcx.opt_associated_item(did) {
            if let Some(t) = a.trait_item_def_id() {
                tpath = tcx.def_path_str(t).into();
            }
            let parent = tcx.parent(did);
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let t = tcx.type_of(parent).instantiate(tcx, args).skip_normalization();
                self_ty = self.ty(tcx.erase_and_anonymize_regions(t)).into();
            }
        }
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).into()).collect();
        let rtargs: Vec<J> = rargs.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).into()).collect();
        let cargs: Vec<J> = args.iter().filter_map(|a| a.as_const()).map(|t| format!("{t}").into()).collect();
        let unsafe_fn = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(did).skip_binder().safety() == rustc_hir::Safety::Unsafe;
        obj! {
            "kind": kind, "path": tcx.def_path_str(rdid), "tpath": tpath, "self": self_ty,
            "crate": tcx.crate_name(rdid.krate).as_str(), "inst": inst_id, "args": targs, "rargs": rtargs, "cargs": cargs,
            "full": tcx.def_path_str_with_args(did, args), "unsafe": unsafe_fn,
            "never": matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().output().skip_binder().is_never(),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let root = if t.has_param() || t.has_aliases() { self.root } else { None };
        if let Some(&id) = self.type_ids.get(&(t, root)) {
            return id;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert((t, root), id);
        let j = self.ty_json(t);
        self.types[id] = j;
        id
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new(t))
            .unwrap_or_else(|_| self.tcx.erase_and_anonymize_regions(t))
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let s = format!("{t}");
        match *t.kind() {
            ty::Bool => obj! {"k": "bool", "s": s},
            ty::Char => obj! {"k": "char", "s": s},
            ty::Int(i) => {
                obj! {"k": "int", "signed": true, "bits": i.bit_width().unwrap_or(64) as usize, "s": s}
            }
            ty::Uint(i) => {
                obj! {"k": "int", "signed": false, "bits": i.bit_width().unwrap_or(64) as usize, "s": s}
            }
            ty::Float(f) => obj! {"k": "float", "bits": f.bit_width() as usize, "s": s},
            ty::Str => obj! {"k": "str", "s": s},
            ty::Never => obj! {"k": "never", "s": s},
            ty::Slice(e) => {
                let e = self.ty(e);
                obj! {"k": "slice", "elem": e, "s": s}
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(tcx).map(|n| n as usize);
                obj! {"k": "array", "elem": e, "len": n, "s": s}
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                obj! {"k": "ref", "mut": m.is_mut(), "to": e, "s": s}
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                obj! {"k": "ptr", "mut": m.is_mut(), "to": e, "s": s}
            }
            ty::Tuple(ts) => {
                let fs: Vec<J> = ts.iter().map(|t| self.ty(t).into()).collect();
                obj! {"k": "tuple", "fields": fs, "s": s}
            }
            ty::Adt(def, args) => {
                let path = tcx.def_path_str(def.did());
                let krate = tcx.crate_name(def.did().krate);
                let targs: Vec<J> = args.types().map(|t| self.ty(t).into()).collect();
                let mut variants = vec![];
                if def.is_enum() || def.is_struct() {
                    let discrs: Vec<i128> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, d)| discr_value(tcx, d)).collect()
                    } else {
                        vec![0]
                    };
                    for (i, v) in def.variants().iter().enumerate() {
                        let mut fields = vec![];
                        // Only the layout of types which are looked into is needed.
                        let krate = krate.as_str();
                        let deep = !matches!(krate, "core" | "alloc" | "std" | "hashbrown")
                            || matches!(
                                path.rsplit("::").next().unwrap(),
                                "Option" | "Result" | "ControlFlow" | "Range" | "RangeInclusive" | "RangeFrom" | "RangeTo" | "Ordering" | "Wrapping" | "Reverse"
                                | "Map" | "Zip" | "Enumerate" | "Skip" | "Take" | "Rev" | "Fuse" | "Chain" | "Filter" | "FilterMap" | "Copied" | "Cloned" | "Bound"
                                | "TryFromIntError" | "Cow" | "GenericShunt" | "FlatMap" | "Flatten" | "FlattenCompat" | "StepBy" | "Peekable" | "TakeWhile" | "SkipWhile" | "Scan" | "MapWhile" | "Inspect" | "Cycle" | "Once" | "Item" | "Empty" | "Repeat" | "RepeatN" | "Successors" | "FromFn" | "IntoIter" | "PhantomData" | "ByRefSized" | "NeverShortCircuit" | "Entry"
                            );
                        if deep {
                            for f in &v.fields {
                                let ft = f.ty(tcx, args).skip_normalization();
                                let ft = self.norm(ft);
                                let ft = self.ty(ft);
                                fields.push(obj! {"name": f.name.as_str(), "ty": ft, "pub": f.vis.is_public()});
                            }
                        }
                        variants.push(obj! {"name": v.name.as_str(), "discr": discrs[i], "fields": fields, "deep": deep});
                    }
                }
                let dty = if def.is_enum() { Some(self.ty(def.repr().discr_type().to_ty(tcx))) } else { None };
                obj! {"k": "adt", "path": path, "crate": krate.as_str(), "enum": def.is_enum(), "args": targs, "variants": variants, "dty": dty, "s": s}
            }
            ty::Closure(did, args) => {
                let inst = Instance::new_raw(did.into(), args);
                let id = self.inst(inst);
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| { let t = self.norm(t); self.ty(t).into() }).collect();
                let kind = format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind());
                obj! {"k": "closure", "path": tcx.def_path_str(DefId::from(did)), "inst": id, "upvars": ups, "kind": kind, "s": s}
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                let info = self.fn_info(did.into(), tcx.erase_and_anonymize_regions(args));
                let sig = tcx.fn_sig(DefId::from(did)).instantiate(tcx, args).skip_normalization().skip_binder();
                let out = self.norm(tcx.erase_and_anonymize_regions(sig.output()));
                let out = self.ty(out);
                let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = self.norm(tcx.erase_and_anonymize_regions(*t)); self.ty(t).into() }).collect();
                obj! {"k": "fndef", "fn": info, "out": out, "ins": ins, "s": s}
            }
            ty::Param(p) => obj! {"k": "param", "name": p.name.as_str(), "s": s},
            ty::Alias(..) => obj! {"k": "alias", "s": s},
            ty::Dynamic(..) => obj! {"k": "dyn", "s": s},
            ty::FnPtr(..) => obj! {"k": "fnptr", "s": s},
            _ => obj! {"k": "other", "s": s},
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = tcx.def_path_str(did);
        let full = tcx.def_path_str_with_args(did, inst.args);
        let krate = tcx.crate_name(did.krate);
        if !tcx.is_mir_available(did) {
            return obj! {"path": path, "full": full, "crate": krate.as_str(), "blocks": J::Null};
        }
        let src = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = self.instantiate(inst, src.clone());
        let promoted_src = tcx.promoted_mir(did);
        let mut promoted = vec![];
        for p in promoted_src.iter() {
            let b = self.instantiate(inst, p.clone());
            promoted.push(self.mir(&b, did));
        }
        let mut j = self.mir(&body, did);
        if let J::Obj(v) = &mut j {
            v.push(("path".into(), path.into()));
            v.push(("full".into(), full.into()));
            v.push(("crate".into(), krate.as_str().into()));
            v.push(("span".into(), self.span(tcx.def_span(did)).into()));
            v.push(("expanded".into(), tcx.def_span(did).from_expansion().into()));
            v.push(("closure".into(), tcx.is_closure_like(did).into()));
            let parent = if tcx.is_closure_like(did) { J::from(tcx.def_path_str(tcx.typeck_root_def_id(did))) } else { J::Null };
            v.push(("parent".into(), parent));
            v.push(("promoted".into(), promoted.into()));
            let tr = tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()).map(|t| tcx.def_path_str(t));
            v.push(("trait_item".into(), tr.into()));
            v.push(("track_caller".into(), inst.def.requires_caller_location(tcx).into()));
        }
        j
    }

    fn instantiate(&self, inst: Instance<'tcx>, b: Body<'tcx>) -> Body<'tcx> {
        let tcx = self.tcx;
        match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, b.clone())) {
            Ok(b) => b,
            Err(_) => {
                let b = EarlyBinder::bind(tcx, b).instantiate(tcx, inst.args).skip_normalization();
                tcx.erase_and_anonymize_regions(b)
            }
        }
    }

    fn mir(&mut self, body: &Body<'tcx>, _did: DefId) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty).into()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p);
                names.push(obj! {"name": v.name.as_str(), "place": pl});
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let p = self.place(p);
                        let rv = self.rvalue(rv, body);
                        stmts.push(obj! {"k": "=", "p": p, "r": rv, "s": self.span(st.source_info.span)});
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        stmts.push(obj! {"k": "setdiscr", "p": p, "v": variant_index.as_usize()});
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => stmts.push(obj! {"k": "copy_nonoverlapping"}),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let t = self.term(term, body);
            blocks.push(obj! {"st": stmts, "t": t, "cleanup": bb.is_cleanup});
        }
        obj! {"argc": body.arg_count, "locals": locals, "names": names, "blocks": blocks,
            "spread": body.spread_arg.map(|l| l.as_usize())}
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v: Vec<J> = vec![p.local.as_usize().into()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => J::Arr(vec!["*".into()]),
                ProjectionElem::Field(f, t) => J::Arr(vec!["f".into(), f.as_usize().into(), self.ty(t).into()]),
                ProjectionElem::Index(l) => J::Arr(vec!["i".into(), l.as_usize().into()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    "ci".into(),
                    (offset as usize).into(),
                    (min_length as usize).into(),
                    from_end.into(),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec!["ss".into(), (from as usize).into(), (to as usize).into(), from_end.into()])
                }
                ProjectionElem::Downcast(_, i) => J::Arr(vec!["v".into(), i.as_usize().into()]),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => {
                    J::Arr(vec!["oc".into(), self.ty(t).into()])
                }
            });
        }
        J::Arr(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"k": "copy", "p": self.place(p)},
            Operand::Move(p) => obj! {"k": "move", "p": self.place(p)},
            Operand::Constant(c) => {
                let v = self.constant(&c.const_, c.span);
                obj! {"k": "const", "v": v}
            }
            Operand::RuntimeChecks(r) => obj! {"k": "rtcheck", "v": format!("{r:?}")},
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, span: Span) -> J {
        let t = c.ty();
        if let ty::FnDef(..) = t.kind() {
            return obj! {"k": "fn", "ty": self.ty(t)};
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return obj! {"k": "promoted", "i": p.as_usize(), "ty": self.ty(t)};
            }
        }
        let named = match c {
            mir::Const::Unevaluated(u, _) => Some(self.tcx.def_path_str(u.def)),
            _ => None,
        };
        let mut j = match c.eval(self.tcx, self.env(), span) {
            Ok(v) => self.value(v, t, 0),
            Err(_) => {
                let tid = self.ty(t);
                let mut inst = J::Null;
                if let mir::Const::Unevaluated(u, _) = c {
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env(), u.def, u.args) {
                        inst = self.tcx.def_path_str_with_args(i.def_id(), i.args).into();
                    }
                }
                obj! {"k": "uneval", "s": format!("{c}"), "ty": tid, "inst": inst}
            }
        };
        if let (J::Obj(v), Some(n)) = (&mut j, named) {
            v.push(("name".into(), n.into()));
        }
        j
    }

    fn value(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        let opaque = |me: &Self| obj! {"k": "opaque", "s": format!("{t}"), "ty": tid, "d": format!("{:?}", me.root.is_some())};
        if depth > 12 {
            return opaque(self);
        }
        let env = TypingEnv::fully_monomorphized();
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let s = self.scalar(val, t);
                match s {
                    Some(Scalar::Int(i)) => {
                        let size = i.size();
                        let n: i128 = if t.is_signed() { i.to_int(size) } else { i.to_uint(size) as i128 };
                        obj! {"k": "int", "v": n, "ty": tid}
                    }
                    _ => opaque(self),
                }
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                match to.kind() {
                    ty::Str | ty::Slice(_) => {
                        let (alloc_id, off, len) = match self.fat(val) {
                            Some(x) => x,
                            None => return opaque(self),
                        };
                        let is_bytes = matches!(to.kind(), ty::Str)
                            || matches!(to.kind(), ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)));
                        if is_bytes {
                            if len == 0 {
                                return obj! {"k": if to.is_str() {"str"} else {"bytes"}, "v": if to.is_str() {J::Str(String::new())} else {J::Arr(vec![])}, "ty": tid};
                            }
                            let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return opaque(self) };
                            let bytes = a
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize)
                                .to_vec();
                            if to.is_str() {
                                return obj! {"k": "str", "v": String::from_utf8_lossy(&bytes).to_string(), "ty": tid};
                            }
                            return obj! {"k": "bytes", "v": bytes.into_iter().map(|b| J::Int(b as i128)).collect::<Vec<_>>(), "ty": tid};
                        }
                        let ty::Slice(e) = to.kind() else { return opaque(self) };
                        let Ok(layout) = tcx.layout_of(env.as_query_input(*e)) else { return opaque(self) };
                        let mut vs = vec![];
                        if len > 4096 {
                            return opaque(self);
                        }
                        for i in 0..len {
                            let offset = rustc_abi::Size::from_bytes(off + i * layout.size.bytes());
                            vs.push(self.value(ConstValue::Indirect { alloc_id, offset }, *e, depth + 1));
                        }
                        obj! {"k": "slice", "v": vs, "ty": tid}
                    }
                    ty::Dynamic(..) | ty::FnPtr(..) => opaque(self),
                    _ => {
                        let Some(Scalar::Ptr(p, _)) = self.scalar(val, t) else { return opaque(self) };
                        let (prov, off) = p.into_raw_parts();
                        let alloc_id = prov.alloc_id();
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(_) => {
                                let v = self.value(ConstValue::Indirect { alloc_id, offset: off }, to, depth + 1);
                                obj! {"k": "ref", "v": v, "ty": tid}
                            }
                            GlobalAlloc::Static(d) => obj! {"k": "static", "path": tcx.def_path_str(d), "ty": tid},
                            _ => opaque(self),
                        }
                    }
                }
            }
            ty::FnDef(..) => obj! {"k": "fn", "ty": tid},
            ty::Closure(..) => obj! {"k": "closure", "ty": tid, "fields": Vec::<J>::new()},
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if t.has_param() {
                    return opaque(self);
                }
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).is_none_or(|n| n > 4096) {
                        return opaque(self);
                    }
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return opaque(self);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    Some(d) => {
                        let fields: Vec<J> = d.fields.iter().map(|(v, t)| self.value(*v, *t, depth + 1)).collect();
                        obj! {"k": "agg", "ty": tid, "variant": d.variant.map(|v| v.as_usize()), "fields": fields}
                    }
                    None => opaque(self),
                }
            }
            _ => opaque(self),
        }
    }

    fn scalar(&self, val: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        let tcx = self.tcx;
        match val {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let layout = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
                let ptr = t.is_any_ptr();
                a.inner().read_scalar(&tcx, AllocRange { start: offset, size: layout.size }, ptr).ok()
            }
            _ => None,
        }
    }

    /// Allocation, offset and length of a fat pointer to a slice or string.
    fn fat(&self, val: ConstValue) -> Option<(rustc_middle::mir::interpret::AllocId, u64, u64)> {
        let tcx = self.tcx;
        match val {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let psize = tcx.data_layout.pointer_size();
                let p = a.inner().read_scalar(&tcx, AllocRange { start: offset, size: psize }, true).ok()?;
                let n = a.inner().read_scalar(&tcx, AllocRange { start: offset + psize, size: psize }, false).ok()?;
                let Scalar::Int(n) = n else { return None };
                let n = n.to_target_usize(tcx);
                match p {
                    Scalar::Ptr(p, _) => {
                        let (prov, off) = p.into_raw_parts();
                        Some((prov.alloc_id(), off.bytes(), n))
                    }
                    Scalar::Int(_) if n == 0 => Some((alloc_id, 0, 0)),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match rv {
            Rvalue::Use(o, _) => obj! {"k": "use", "o": self.operand(o)},
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n as usize);
                obj! {"k": "repeat", "o": self.operand(o), "n": n}
            }
            Rvalue::Ref(_, bk, p) => {
                obj! {"k": "ref", "p": self.place(p), "mut": matches!(bk, BorrowKind::Mut { .. })}
            }
            Rvalue::RawPtr(_, p) => obj! {"k": "rawptr", "p": self.place(p)},
            Rvalue::ThreadLocalRef(d) => obj! {"k": "tls", "path": self.tcx.def_path_str(*d)},
            Rvalue::Cast(k, o, t) => {
                obj! {"k": "cast", "c": format!("{k:?}"), "o": self.operand(o), "ty": self.ty(*t), "from": self.ty(o.ty(&body.local_decls, self.tcx))}
            }
            Rvalue::BinaryOp(op, b) => {
                let (l, r) = &**b;
                let t = l.ty(&body.local_decls, self.tcx);
                obj! {"k": "bin", "op": format!("{op:?}"), "l": self.operand(l), "r": self.operand(r), "ty": self.ty(t)}
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                obj! {"k": "un", "op": format!("{op:?}"), "o": self.operand(o), "ty": self.ty(t)}
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                obj! {"k": "discr", "p": self.place(p), "ty": self.ty(t)}
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                match &**k {
                    AggregateKind::Array(t) => obj! {"k": "agg", "a": "array", "elem": self.ty(*t), "fs": fs},
                    AggregateKind::Tuple => obj! {"k": "agg", "a": "tuple", "fs": fs},
                    AggregateKind::Adt(did, v, args, _, active) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args).skip_normalization();
                        let t = self.norm(t);
                        obj! {"k": "agg", "a": "adt", "ty": self.ty(t), "v": v.as_usize(), "fs": fs, "active": active.map(|f| f.as_usize())}
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, *did, *args);
                        obj! {"k": "agg", "a": "closure", "ty": self.ty(t), "fs": fs}
                    }
                    AggregateKind::RawPtr(t, _) => obj! {"k": "agg", "a": "rawptr", "to": self.ty(*t), "fs": fs},
                    _ => obj! {"k": "agg", "a": "other", "fs": fs},
                }
            }
            Rvalue::CopyForDeref(p) => obj! {"k": "use", "o": obj!{"k": "copy", "p": self.place(p)}},
            Rvalue::WrapUnsafeBinder(o, _) => obj! {"k": "use", "o": self.operand(o)},
            Rvalue::Reborrow(_, _, p) => obj! {"k": "use", "o": obj!{"k": "copy", "p": self.place(p)}},
        }
    }

    fn term(&mut self, term: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let s = self.span(term.source_info.span);
        match &term.kind {
            TerminatorKind::Goto { target, .. } => obj! {"k": "goto", "t": target.as_usize()},
            TerminatorKind::SwitchInt { discr, targets } => {
                let t = discr.ty(&body.local_decls, self.tcx);
                let size = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok().map(|l| l.size);
                let mut ts = vec![];
                for (v, b) in targets.iter() {
                    let n: i128 = match (t.is_signed(), size) {
                        (true, Some(size)) => size.sign_extend(v),
                        _ => v as i128,
                    };
                    ts.push(J::Arr(vec![J::Int(n), b.as_usize().into()]));
                }
                obj! {"k": "switch", "o": self.operand(discr), "ty": self.ty(t), "ts": ts, "else": targets.otherwise().as_usize(), "s": s}
            }
            TerminatorKind::Return => obj! {"k": "return", "s": s},
            TerminatorKind::Unreachable => obj! {"k": "unreachable", "s": s},
            TerminatorKind::Drop { place, target, .. } => {
                obj! {"k": "drop", "p": self.place(place), "t": target.as_usize()}
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let f = self.operand(func);
                let fty = func.ty(&body.local_decls, self.tcx);
                let a: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                let dty = destination.ty(&body.local_decls, self.tcx).ty;
                obj! {"k": "call", "f": f, "fty": self.ty(fty), "args": a, "d": self.place(destination), "dty": self.ty(dty),
                    "t": target.map(|t| t.as_usize()), "s": self.span(*fn_span)}
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (kind, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(len), self.operand(index)]),
                    AssertKind::Overflow(op, a, b) => (format!("Overflow({op:?})"), vec![self.operand(a), self.operand(b)]),
                    AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![self.operand(a)]),
                    AssertKind::DivisionByZero(a) => ("DivisionByZero".into(), vec![self.operand(a)]),
                    AssertKind::RemainderByZero(a) => ("RemainderByZero".into(), vec![self.operand(a)]),
                    _ => ("Other".into(), vec![]),
                };
                obj! {"k": "assert", "c": self.operand(cond), "e": *expected, "m": kind, "ops": ops, "t": target.as_usize(), "s": s}
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                obj! {"k": "goto", "t": real_target.as_usize()}
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj! {"k": "unwind"},
            k => obj! {"k": "other", "s": format!("{k:?}")},
        }
    }
}

fn discr_value<'tcx>(tcx: TyCtxt<'tcx>, d: ty::util::Discr<'tcx>) -> i128 {
    let size = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(d.ty)).map(|l| l.size);
    match (d.ty.is_signed(), size) {
        (true, Ok(size)) => size.sign_extend(d.val),
        _ => d.val as i128,
    }
}
