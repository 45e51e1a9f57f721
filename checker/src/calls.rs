//! Calls: resolution, library summaries, drop glue, user code.
use crate::engine::*;
use crate::num::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty};
use rustc_middle::mir::BinOp;

pub enum Sum<'tcx> { No, V(Val<'tcx>), Panic(String) }

impl<'tcx> Cx<'tcx> {
    pub fn self_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            ty::RawPtr(_, m) => if m.is_mut() { "*mut".into() } else { "*const".into() },
            ty::Ref(_, t, m) => format!("{}{}", if m.is_mut() { "&mut " } else { "&" }, self.self_name(*t)),
            ty::Slice(_) => "[]".into(),
            ty::Array(..) => "[;]".into(),
            ty::Param(_) => "T".into(),
            ty::Tuple(_) => "()".into(),
            ty::Dynamic(..) => "dyn".into(),
            _ => format!("{t}"),
        }
    }
    pub fn fname(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let Some(name) = tcx.opt_item_name(did) else { return tcx.def_path_str(did) };
        let Some(parent) = tcx.opt_parent(did) else { return name.to_string() };
        match tcx.def_kind(parent) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let sn = self.self_name(st);
                if of_trait { let tr = tcx.impl_trait_id(parent); format!("<{sn} as {}>::{name}", tcx.item_name(tr)) } else { format!("{sn}::{name}") }
            }
            DefKind::Trait => format!("{}::{name}", tcx.item_name(parent)),
            DefKind::Mod => format!("{}::{name}", tcx.opt_item_name(parent).map(|s| s.to_string()).unwrap_or_default()),
            _ => name.to_string(),
        }
    }
    fn is_std(&self, did: DefId) -> bool { matches!(self.tcx.crate_name(did.krate).as_str(), "core" | "alloc" | "std") }

    pub fn special_const(&self, did: DefId, args: GenericArgsRef<'tcx>, ty: Ty<'tcx>) -> Option<Val<'tcx>> {
        if !self.is_std(did) { return None; }
        let n = self.fname(did);
        let m = n.rsplit("::").next().unwrap_or("");
        if !(n.contains("SizedTypeProperties") || (ty.is_bool() && m == "IS_ZST")) { return None; }
        let t = self.norm(args.type_at(0));
        Some(match m {
            "SIZE" => Val::Int(self.size_of(t)),
            "ALIGN" => Val::Int(self.align_of(t)),
            "IS_ZST" => Val::Bool(BExp::Eq(self.size_of(t)).simp()),
            "LAYOUT" => Val::Agg(vec![Val::Int(self.size_of(t)), Val::Int(self.align_of(t))]),
            "ALIGNMENT" => Val::Int(self.align_of(t)),
            "MAX_SLICE_LEN" => { let s = self.size_of(t); match s.as_const() { Some(0) => Val::Int(Lin::k(USIZE_MAX)), _ => Val::Int(div(&Lin::k(ISIZE_MAX), &s)) } }
            _ => return None,
        })
    }

    // ------------------------------------------------------------ the call itself
    pub fn call(&mut self, st: State<'tcx>, f: Val<'tcx>, args: Vec<Val<'tcx>>, tys: Vec<Ty<'tcx>>, dty: Ty<'tcx>, fr: &Frame<'tcx>) -> Outs<'tcx> {
        self.calls += 1;
        let fty = match &f { Val::Fn(t) => *t, Val::Tok(_) => { return self.user_call(st, "fn pointer".into(), args, &tys, dty); }
            v => { let m = format!("call of {v:?}"); self.undecide(&st, m); return vec![]; } };
        match fty.kind() {
            ty::FnDef(did, gargs) => { let ga = self.norm(gargs.skip_binder()); self.call_def(st, *did, ga, args, tys, dty, fr) }
            ty::Closure(did, cargs) => {
                // a closure coerced to a function pointer: no captures
                let inst = Instance::resolve_closure(self.tcx, *did, cargs, ty::ClosureKind::FnOnce);
                let inst = Instance { def: InstanceKind::Item(inst.def_id()), args: cargs };
                let mut a = vec![Val::Zst]; a.extend(args);
                // by-ref closure bodies ignore the environment when there is none
                self.run_fn(st, inst, a)
            }
            ty::FnPtr(..) => self.user_call(st, "fn pointer".into(), args, &tys, dty),
            _ => { let m = format!("call of type {fty}"); self.undecide(&st, m); vec![] }
        }
    }
    pub fn call_def(&mut self, st: State<'tcx>, did: DefId, gargs: GenericArgsRef<'tcx>, args: Vec<Val<'tcx>>, tys: Vec<Ty<'tcx>>, dty: Ty<'tcx>, fr: &Frame<'tcx>) -> Outs<'tcx> {
        let tcx = self.tcx;
        // constructors of tuple structs / variants used as functions
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            let v = match dty.kind() {
                ty::Adt(d, _) if d.is_enum() => { let v = d.variant_index_with_ctor_id(did); Val::Enum(v.as_u32(), args) }
                _ => Val::Agg(args),
            };
            return vec![(st, Out::Ret(v))];
        }
        let name = self.fname(did);
        if tcx.crate_name(did.krate).as_str() == "vharness" {
            if let Some(p) = tcx.opt_parent(did) {
                if tcx.opt_item_name(p).map(|s| s.as_str() == "g").unwrap_or(false) { return self.ghost_call(st, &name, gargs, args, tys, dty, fr); }
            }
        }
        if let Some((d, ga)) = self.stand_in(did, gargs) { let inst = Instance::new_raw(d, ga); return self.run_fn(st, inst, args); }
        if let Some(o) = self.summary(st.clone(), did, &name, gargs, &args, &tys, dty, fr) { return o; }
        let inst = match Instance::try_resolve(tcx, self.tenv, did, gargs) {
            Ok(Some(i)) => i,
            Ok(None) => match self.general_impl(did, gargs) { Some(i) => i, None => return self.user_call(st, name, args, &tys, dty) },
            Err(_) => { self.undecide(&st, format!("cannot resolve {name}")); return vec![]; }
        };
        self.call_inst(st, inst, did, &name, args, tys, dty, fr)
    }
    /// Library functions whose meaning is written down in module `models` of the contract crate.
    fn stand_in(&self, did: DefId, ga: GenericArgsRef<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(did)?;
        let (t, m) = (tcx.item_name(tr), tcx.item_name(did));
        let (name, args): (&str, Vec<ty::GenericArg<'tcx>>) = match (t.as_str(), m.as_str()) {
            ("Extend", "extend") => {
                let me = ga.type_at(0);
                let ty::Adt(_, va) = me.kind() else { return None };
                let e = va.types().next()?;
                if e != ga.type_at(1) { return None; }
                match self.adt_path(me)?.as_str() { "alloc::vec::Vec" => ("extend_vec", vec![e.into(), ga.type_at(2).into()]), "alloc::collections::vec_deque::VecDeque" => ("extend_deque", vec![e.into(), ga.type_at(2).into()]), _ => return None }
            }
            ("PartialEq", "eq" | "ne") | ("PartialOrd", "partial_cmp" | "lt" | "le" | "gt" | "ge") | ("Ord", "cmp") | ("Hash", "hash") => {
                let ty::Slice(e) = ga.type_at(0).kind() else { return None };
                let ty::Adt(d, pa) = e.kind() else { return None };
                if tcx.item_name(d.did()).as_str() != "Probe" || t.as_str() != "Hash" && t.as_str() != "Ord" && ga.type_at(1) != ga.type_at(0) { return None; }
                let x: Vec<ty::GenericArg<'tcx>> = pa.iter().collect();
                match m.as_str() {
                    "eq" => ("slice_eq", x), "ne" => ("slice_ne", x), "partial_cmp" => ("slice_partial_cmp", x), "lt" => ("slice_lt", x), "le" => ("slice_le", x),
                    "gt" => ("slice_gt", x), "ge" => ("slice_ge", x), "cmp" => ("slice_cmp", x),
                    _ => ("slice_hash", x.into_iter().chain([ga.type_at(1).into()]).collect()),
                }
            }
            ("Pointer", "fmt") => match ga.type_at(0).kind() { ty::RawPtr(e, _) | ty::Ref(_, e, _) => ("pointer_fmt", vec![(*e).into()]), _ => return None },
            _ => return None,
        };
        let d = self.model(name)?;
        Some((d, tcx.mk_args(&args)))
    }
    /// A function in module `models` of the contract crate.
    pub fn model(&self, name: &str) -> Option<DefId> {
        let tcx = self.tcx;
        tcx.hir_body_owners().map(|l| l.to_def_id()).find(|d| tcx.opt_item_name(*d).map(|n| n.as_str() == name).unwrap_or(false) && tcx.opt_parent(*d).and_then(|p| tcx.opt_item_name(p)).map(|n| n.as_str() == "models").unwrap_or(false))
    }
    /// Specialised helper traits of core: the general implementation, which the special ones agree with.
    fn general_impl(&self, did: DefId, gargs: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(did)?;
        if tcx.crate_name(tr.krate).as_str() != "core" || !matches!(tcx.item_name(tr).as_str(), "FuseImpl" | "SpecTake" | "ZipImpl" | "StepByImpl") { return None; }
        for i in tcx.all_impls(tr) {
            if let Some(m) = tcx.impl_item_implementor_ids(i).get(&did) {
                if !tcx.defaultness(*m).is_default() { continue; }
                let mut ga: Vec<ty::GenericArg<'tcx>> = gargs.iter().skip(1).collect();
                if tcx.generics_of(tr).own_params.len() == 1 { let ty::Adt(_, own) = gargs.type_at(0).kind() else { continue }; ga = own.iter().chain(ga).collect(); }
                return Some(Instance::new_raw(*m, tcx.mk_args(&ga)));
            }
        }
        None
    }
    fn call_inst(&mut self, st: State<'tcx>, inst: Instance<'tcx>, did: DefId, name: &str, args: Vec<Val<'tcx>>, tys: Vec<Ty<'tcx>>, dty: Ty<'tcx>, fr: &Frame<'tcx>) -> Outs<'tcx> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Intrinsic(d) => {
                let n = self.fname(d);
                self.unknown_call(st, &n, args, &tys, dty)
            }
            InstanceKind::Virtual(d, _) => {
                let p = self.as_ptr(args[0].clone());
                if let Some(Ptr { meta: Meta::VTable(t), .. }) = &p {
                    let mut ga: Vec<ty::GenericArg<'tcx>> = inst.args.iter().collect();
                    ga[0] = (*t).into();
                    let ga = tcx.mk_args(&ga);
                    let mut a = args.clone();
                    let mut q = p.clone().unwrap(); q.meta = Meta::None;
                    a[0] = Val::Ptr(q);
                    return self.call_def(st, d, ga, a, tys, dty, fr);
                }
                self.user_call(st, name.to_string(), args, &tys, dty)
            }
            InstanceKind::Item(d) => {
                if inst.def_id() != did {
                    let n2 = self.fname(d);
                    if let Some(o) = self.summary(st.clone(), d, &n2, inst.args, &args, &tys, dty, fr) { return o; }
                }
                // closures called through the Fn traits take their arguments untupled
                let mut a = args;
                if tcx.is_closure_like(d) {
                    if let Some(last) = a.pop() { match last { Val::Agg(v) => a.extend(v), Val::Zst => {}, v => a.push(v) } }
                }
                if self.body_of(inst, 0).is_none() { let n = self.inst_name(inst); return self.unknown_call(st, &n, a, &tys, dty); }
                self.run_fn(st, inst, a)
            }
            InstanceKind::Shim(sh) => match sh {
                ShimKind::ClosureOnce { .. } => {
                    // FnOnce::call_once(self, args) of a Fn/FnMut closure: borrow the closure
                    let cty = tys[0];
                    let (cd, cargs) = match cty.kind() { ty::Closure(d, a) => (*d, *a), _ => { self.undecide(&st, "closure shim".into()); return vec![]; } };
                    let inst2 = Instance { def: InstanceKind::Item(cd), args: cargs };
                    let mut st = st;
                    let (s, al) = self.size_align(cty);
                    let o = self.new_obj(&mut st, ObjKind::Local, "closure", Some(s), al);
                    let p = Ptr { obj: o, off: Lin::k(0), meta: Meta::None };
                    let mut outs = vec![];
                    let v0 = args[0].clone();
                    let mut rest = vec![];
                    if let Some(last) = args.get(1) { match last { Val::Agg(v) => rest.extend(v.clone()), Val::Zst => {}, v => rest.push(v.clone()) } }
                    for (s, ()) in self.retry(st, &mut |cx, s| cx.store(s, &p, cty, v0.clone())) {
                        let mut a = vec![Val::Ptr(p.clone())]; a.extend(rest.clone());
                        for (s2, o2) in self.run_fn(s, inst2, a) {
                            for (s3, o3) in self.drop_place(s2, &p, cty) {
                                let res = match (&o2, o3) { (Out::Unwind, _) | (_, Out::Unwind) => Out::Unwind, (r, _) => r.clone() };
                                outs.push((s3, res));
                            }
                        }
                    }
                    outs
                }
                ShimKind::FnPtr(_, fty) => {
                    let mut a = vec![];
                    if let Some(last) = args.get(1) { match last { Val::Agg(v) => a.extend(v.clone()), Val::Zst => {}, v => a.push(v.clone()) } }
                    let t2: Vec<Ty<'tcx>> = match tys.get(1).map(|t| t.kind()) { Some(ty::Tuple(ts)) => ts.iter().collect(), _ => vec![] };
                    match fty.kind() {
                        ty::FnDef(..) => self.call(st, Val::Fn(fty), a, t2, dty, fr),
                        _ => {
                            let mut f = args[0].clone();
                            // called through a reference
                            let mut st = st;
                            if let Val::Ptr(p) = &f { let p = p.clone(); if let Ok(v) = self.load(&mut st, &p, fty) { f = v; } }
                            self.call(st, f, a, t2, dty, fr)
                        }
                    }
                }
                ShimKind::DropGlue(_, Some(t)) => { let p = self.as_ptr(args[0].clone()).unwrap(); let t = self.norm(t); self.drop_place(st, &p, t) }
                ShimKind::DropGlue(_, None) => vec![(st, Out::Ret(Val::Zst))],
                ShimKind::Clone(_, t) => {
                    let p = self.as_ptr(args[0].clone()).unwrap();
                    if self.tcx.type_is_copy_modulo_regions(self.tenv, t) {
                        return self.retry(st, &mut |cx, s| cx.load(s, &p, t)).into_iter().map(|(s, v)| (s, Out::Ret(v))).collect();
                    }
                    self.run_fn(st, inst, args)
                }
                ShimKind::Reify(d, _) | ShimKind::VTable(d) => self.call_def(st, d, inst.args, args, tys, dty, fr),
                _ => { let n = format!("{sh:?}"); self.unknown_call(st, &n, args, &tys, dty) }
            },
            _ => { let n = format!("{:?}", inst.def); self.unknown_call(st, &n, args, &tys, dty) }
        }
    }
    /// A library function without body or summary: anything may be returned; memory reachable through
    /// the arguments is forgotten.
    pub fn unknown_call(&mut self, st: State<'tcx>, name: &str, args: Vec<Val<'tcx>>, tys: &[Ty<'tcx>], dty: Ty<'tcx>) -> Outs<'tcx> {
        *self.unmodeled.entry(name.to_string()).or_insert(0) += 1;
        if self.verbose { eprintln!("UNMODELED {name} at {}", self.where_am_i()); }
        if dty.is_never() { let mut s = st; self.panic(&mut s, name); return vec![(s, Out::Unwind)]; }
        let _ = tys;
        self.retry(st, &mut |cx, s| {
            for a in &args { cx.havoc_reachable(s, a); }
            cx.fresh_val(s, dty, name, None)
        }).into_iter().map(|(s, v)| (s, Out::Ret(v))).collect()
    }
    fn havoc_reachable(&mut self, s: &mut State<'tcx>, v: &Val<'tcx>) {
        match v {
            Val::Ptr(p) => if s.objs.contains_key(&p.obj) && p.obj > INT { let o = s.obj_mut(p.obj); o.cells.clear(); o.segs.clear(); o.lazy = false; },
            Val::Agg(vs) | Val::Enum(_, vs) => for x in vs { self.havoc_reachable(s, x) },
            _ => {}
        }
    }
    /// Code supplied by the user of the library (trait method of a type parameter, function pointer...).
    pub fn user_call(&mut self, st: State<'tcx>, name: String, args: Vec<Val<'tcx>>, tys: &[Ty<'tcx>], dty: Ty<'tcx>) -> Outs<'tcx> {
        let can_unwind = st.unwind;
        let tys: Vec<Ty<'tcx>> = tys.to_vec();
        self.retry(st, &mut |cx, s| {
            if can_unwind && cx.choose(2)? == 1 {
                s.log.push(Ev::User { name: name.clone(), args: args.clone(), ret: Val::Undef });
                s.unwound();
                return Ok(Out::Unwind);
            }
            // memory lent mutably may have been changed
            for (a, t) in args.iter().zip(tys.iter()) {
                if let (Val::Ptr(p), ty::Ref(_, pt, m)) = (a, t.kind()) {
                    if m.is_mut() && !matches!(pt.kind(), ty::Param(_) | ty::Alias(..)) && s.objs.contains_key(&p.obj) {
                        let (sz, _) = cx.size_of_val(*pt, &p.meta);
                        cx.clobber(s, p.obj, &p.off, &sz)?;
                        if pt.is_sized(cx.tcx, cx.tenv) { let v = cx.fresh_val(s, *pt, "user", None)?; cx.store(s, p, *pt, v)?; }
                    }
                }
            }
            if dty.is_never() { return Err(Stop::Dead); }
            let v = cx.fresh_val(s, dty, &format!("{name}()"), None)?;
            s.log.push(Ev::User { name: name.clone(), args: args.clone(), ret: v.clone() });
            Ok(Out::Ret(v))
        })
    }

    // ------------------------------------------------------------ drop glue
    pub fn drop_place(&mut self, st: State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> Outs<'tcx> {
        let tcx = self.tcx;
        let done = |st| vec![(st, Out::Ret(Val::Zst))];
        if !ty.needs_drop(tcx, self.tenv) { return done(st); }
        match ty.kind() {
            ty::Adt(d, _) if d.is_manually_drop() || d.is_union() => return done(st),
            ty::Adt(..) if self.is_opaque_adt(ty) => {}
            ty::Adt(d, _) if d.is_box() => {
                let pointee = ty.boxed_ty().unwrap();
                let rs = self.retry(st, &mut |cx, s| { let v = cx.load(s, p, ty)?; match cx.as_ptr(v) { Some(q) => Ok(q), None => {
                    cx.record(s, "drops", s.infeasible(), || format!("drop of an uninitialised {ty}")); Err(Stop::Dead) } } });
                let mut outs = vec![];
                for (s, q) in rs {
                    for (s, o) in self.drop_place(s, &q, pointee) {
                        for (s, ()) in self.retry(s, &mut |cx, s| {
                            let (sz, al) = cx.size_of_val(pointee, &q.meta);
                            cx.dealloc(s, &q, &sz, &al)
                        }) { outs.push((s, o.clone())); }
                    }
                }
                return outs;
            }
            ty::Adt(d, gargs) => {
                let mut states: Outs<'tcx> = vec![];
                if let Some(dtor) = tcx.adt_destructor(d.did()) {
                    // <Self as Drop>::drop
                    let drop_trait = tcx.lang_items().drop_trait().unwrap();
                    let m = tcx.associated_item_def_ids(drop_trait)[0];
                    let _ = (dtor, gargs);
                    let ga = tcx.mk_args(&[ty.into()]);
                    match Instance::try_resolve(tcx, self.tenv, m, ga) {
                        Ok(Some(inst)) => { states = self.run_fn(st, inst, vec![Val::Ptr(p.clone())]); }
                        _ => { self.undecide(&st, format!("cannot resolve Drop of {ty}")); return vec![]; }
                    }
                } else { states.push((st, Out::Ret(Val::Zst))); }
                let mut outs = vec![];
                for (s, o) in states {
                    if d.is_enum() {
                        let rs = self.retry(s, &mut |cx, s| cx.load_discr(s, p, ty));
                        for (s, v) in rs {
                            match v {
                                Some(v) => outs.extend(self.drop_fields(s, p, ty, v, o.clone())),
                                None => { 
                                    self.record(&s, "drops", s.infeasible(), || format!("drop of an uninitialised {ty}"));
                                    self.flush();
                                }
                            }
                        }
                    } else { outs.extend(self.drop_fields(s, p, ty, 0, o)); }
                }
                return outs;
            }
            ty::Tuple(_) | ty::Closure(..) => return self.drop_fields(st, p, ty, 0, Out::Ret(Val::Zst)),
            ty::Array(e, n) => {
                let n = self.const_usize(*n);
                let q = Ptr { obj: p.obj, off: p.off.clone(), meta: Meta::Len(n) };
                return self.drop_slice(st, &q, *e);
            }
            ty::Slice(e) => return self.drop_slice(st, p, *e),
            ty::Dynamic(..) => if let Meta::VTable(t) = &p.meta { let q = Ptr { obj: p.obj, off: p.off.clone(), meta: Meta::None }; return self.drop_place(st, &q, *t); },
            _ => {}
        }
        // opaque value
        let can_unwind = st.unwind;
        let outs = self.retry(st, &mut |cx, s| {
            cx.check_access(s, p, ty, "drop")?;
            let v = if ty.is_sized(cx.tcx, cx.tenv) { cx.load(s, p, ty)? } else { cx.load_opaque(s, p, ty) };
            match v {
                Val::Tok(t) => {
                    cx.check_single_drop(s, &t, &Lin::k(1), ty);
                    cx.check_drop_place(s, &t, p, ty)?;
                    s.log.push(Ev::Drop { ty, tok: t, obj: p.obj, off: p.off.clone() });
                    let (sz, _) = cx.size_of_val(ty, &p.meta);
                    cx.mark_gone(s, p, &sz)?;
                }
                Val::Undef => {
                    let inf = s.infeasible();
                    cx.record(s, "drops", inf, || format!("drop of a {ty} that is not initialised or was moved out (offset {} of object {})", show(&p.off), p.obj));
                    return Err(Stop::Dead);
                }
                v => return Err(Stop::Undecided(format!("drop of {v:?} as {ty}"))),
            }
            if can_unwind && cx.choose(2)? == 1 { s.unwound(); return Ok(Out::Unwind); }
            Ok(Out::Ret(Val::Zst))
        });
        outs
    }
    /// value of an unsized opaque type behind a pointer
    fn load_opaque(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> Val<'tcx> {
        if let Some(o) = s.objs.get(&p.obj) {
            if let Some((_, v)) = o.cells.get(&(p.off.clone(), None)) { return v.clone(); }
            if o.lazy && !o.killed.iter().any(|k| k.0 == p.off) {
                let t = self.new_tok(ty, "unsized value");
                let v = Val::Tok(Tok { id: t, idx: Lin::k(0) });
                s.obj_mut(p.obj).cells.insert((p.off.clone(), None), (ty, v.clone()));
                return v;
            }
        }
        Val::Undef
    }
    fn mark_gone(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, sz: &Lin) -> R<()> {
        if !s.objs.contains_key(&p.obj) { return Ok(()); }
        s.obj_mut(p.obj).cells.remove(&(p.off.clone(), None));
        if self.lists.contains_key(&p.obj) { return Ok(()); }
        if !s.obj(p.obj).segs.is_empty() { self.clobber(s, p.obj, &p.off, sz)?; }
        if s.obj(p.obj).lazy { let k = (p.off.clone(), p.off.add(sz)); s.obj_mut(p.obj).killed.push(k); }
        Ok(())
    }
    /// values in a list stay where they are, and memory under watch keeps its state until they are dropped
    fn check_drop_place(&mut self, s: &mut State<'tcx>, t: &Tok, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<()> {
        if let Some((o, l)) = self.lists.iter().find(|(_, l)| l.tok == t.id).map(|(o, l)| (*o, l.clone())) {
            let ns = self.size_of(l.node);
            let ok = p.obj == o && s.facts.entails_eq(&mul(&t.idx, &ns).add(&l.val_off).sub(&p.off));
            self.record(s, "pinned values are dropped where they are", ok || s.infeasible(), || format!("a {ty} was moved"));
        }
        if let Some(Val::Agg(w)) = s.ghost.get("watch").cloned() {
            if let (Val::Ptr(q), Val::Int(x)) = (&w[0], &w[1]) {
                let v = self.load(s, q, self.tcx.types.usize)?;
                let now = self.as_int(s, v)?;
                let ok = s.entails(&BExp::Eq(now.sub(x)));
                self.record(s, "memory is not reused before its values are dropped", ok || s.infeasible(), || format!("{} is not {}", show(&now), show(x)));
            }
        }
        Ok(())
    }
    pub fn check_single_drop(&mut self, s: &State<'tcx>, t: &Tok, n: &Lin, ty: Ty<'tcx>) {
        let mut bad = None;
        if self.is_zst_tok(t.id) { return; }
        for e in &s.log {
            let (t2, n2) = match e { Ev::Drop { tok, .. } => (tok, Lin::k(1)), Ev::DropSeq { tok, n, .. } => (tok, n.clone()), _ => continue };
            if t2.id != t.id { continue; }
            let before = BExp::Ge(t2.idx.sub(&t.idx).sub(n));
            let after = BExp::Ge(t.idx.sub(&t2.idx).sub(&n2));
            if !(s.entails(&before) || s.entails(&after) || s.entails(&BExp::Or(vec![before, after, BExp::Ge(n.neg()), BExp::Ge(n2.neg())]))) { bad = Some(()); }
        }
        let ok = bad.is_none() || s.infeasible();
        self.record(s, "drops", ok, || format!("a value of type {ty} may be dropped twice"));
    }
    fn drop_fields(&mut self, st: State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>, variant: u32, o: Out<'tcx>) -> Outs<'tcx> {
        let fs = self.fields(ty, variant);
        let mut cur: Outs<'tcx> = vec![(st, o)];
        for (i, f) in fs.iter().enumerate() {
            if !f.needs_drop(self.tcx, self.tenv) { continue; }
            let off = self.field_off(ty, variant, i as u32);
            let meta = if f.is_sized(self.tcx, self.tenv) { Meta::None } else { p.meta.clone() };
            let q = Ptr { obj: p.obj, off: p.off.add(&off), meta };
            let mut next = vec![];
            for (s, o) in cur {
                let was = matches!(o, Out::Unwind);
                for (s2, o2) in self.drop_place(s, &q, *f) {
                    // a second panic during unwinding aborts
                    if was && matches!(o2, Out::Unwind) { continue; }
                    next.push((s2, if was { Out::Unwind } else { o2 }));
                }
            }
            cur = next;
        }
        cur
    }
    pub fn drop_slice(&mut self, st: State<'tcx>, p: &Ptr<'tcx>, e: Ty<'tcx>) -> Outs<'tcx> {
        let n = match &p.meta { Meta::Len(n) => n.clone(), _ => { self.undecide(&st, "slice drop".into()); return vec![]; } };
        let opaque = matches!(e.kind(), ty::Param(_) | ty::Alias(..)) || self.is_opaque_adt(e);
        if let Some(k) = n.as_const() {
            if k <= 4 || !opaque {
                if k > 8 { self.undecide(&st, "large array drop".into()); return vec![]; }
                let es = self.size_of(e);
                let mut cur: Outs<'tcx> = vec![(st, Out::Ret(Val::Zst))];
                for i in 0..k {
                    let q = Ptr { obj: p.obj, off: p.off.add(&es.scale(i)), meta: Meta::None };
                    let mut next = vec![];
                    for (s, o) in cur {
                        let was = matches!(o, Out::Unwind);
                        for (s2, o2) in self.drop_place(s, &q, e) {
                            if was && matches!(o2, Out::Unwind) { continue; }
                            next.push((s2, if was { Out::Unwind } else { o2 }));
                        }
                    }
                    cur = next;
                }
                return cur;
            }
        }
        if !opaque { self.undecide(&st, format!("drop of a slice of {e}")); return vec![]; }
        let can_unwind = st.unwind;
        self.retry(st, &mut |cx, s| {
            if cx.decide(s, &BExp::Eq(n.clone()))? { return Ok(Out::Ret(Val::Zst)); }
            let es = cx.size_of(e);
            let bytes = mul(&n, &es);
            cx.check_access(s, &Ptr { obj: p.obj, off: p.off.clone(), meta: Meta::Len(n.clone()) }, Ty::new_slice(cx.tcx, e), "drop")?;
            if s.facts.entails_ge(&es.neg()) {
                let t = Tok { id: cx.zst_tok(e), idx: Lin::k(0) };
                s.log.push(Ev::DropSeq { ty: e, tok: t, n: n.clone() });
                if can_unwind && cx.choose(2)? == 1 { s.unwound(); return Ok(Out::Unwind); }
                return Ok(Out::Ret(Val::Zst));
            }
            let mut left = bytes.clone();
            let mut at = p.off.clone();
            let mut count = Lin::k(0);
            // walk over the segments that make up the range
            for _ in 0..6 {
                if count == n || s.facts.entails_eq(&n.sub(&count)) { break; }
                let segs = s.obj(p.obj).segs.clone();
                let mut hit = false;
                for sg in &segs {
                    if !(sg.lo == at || s.facts.entails_ge(&at.sub(&sg.lo))) { continue; }
                    if let SegVal::Seq { ty: et, id, start } = &sg.what {
                        if *et != e { continue; }
                        let Some(i) = cx.index_of(&s.facts, &at.sub(&sg.lo), &es) else { continue };
                        let Some(have) = cx.index_of(&s.facts, &sg.hi.sub(&at), &es) else { continue };
                        if !s.facts.entails_ge(&have.addk(-1)) { 
                            if s.facts.entails_ge(&have.neg()) { continue; }
                            if !cx.decide(s, &BExp::Ge(have.addk(-1)))? { continue; }
                        }
                        let rest = n.sub(&count);
                        let take = if cx.decide(s, &BExp::Ge(have.sub(&rest)))? { rest } else { have };
                        let t = Tok { id: *id, idx: start.add(&i) };
                        cx.check_single_drop(s, &t, &take, e);
                        s.log.push(Ev::DropSeq { ty: e, tok: t, n: take.clone() });
                        count = count.add(&take);
                        let b = mul(&take, &es);
                        left = left.sub(&b);
                        at = at.add(&b);
                        hit = true;
                        break;
                    }
                }
                if !hit {
                    // single elements
                    let q = Ptr { obj: p.obj, off: at.clone(), meta: Meta::None };
                    match cx.load(s, &q, e)? {
                        Val::Tok(t) => {
                            cx.check_single_drop(s, &t, &Lin::k(1), e);
                            s.log.push(Ev::Drop { ty: e, tok: t, obj: p.obj, off: at.clone() });
                            count = count.addk(1); at = at.add(&es);
                        }
                        _ => {
                            let inf = s.infeasible();
                            cx.record(s, "drops", inf, || format!("drop of elements that are not initialised or were moved out (from element {} of {})", show(&count), show(&n)));
                            return Err(Stop::Dead);
                        }
                    }
                }
            }
            let rest = n.sub(&count);
            let all = s.facts.entails_eq(&rest) || s.infeasible();
            cx.record(s, "drops", all, || format!("drop of elements that are not initialised: {} of {} covered", show(&count), show(&n)));
            cx.clobber(s, p.obj, &p.off, &bytes)?;
            if can_unwind && cx.choose(2)? == 1 { s.unwound(); return Ok(Out::Unwind); }
            Ok(Out::Ret(Val::Zst))
        })
    }

    // ------------------------------------------------------------ heap
    pub fn alloc(&mut self, s: &mut State<'tcx>, size: &Lin, align: &Lin, zeroed: bool) -> R<Ptr<'tcx>> {
        if s.allow_alloc_fail && self.choose(2)? == 1 { return Ok(self.int_ptr(Lin::k(0), Meta::None)); }
        // an allocation larger than isize::MAX cannot succeed
        if !s.assume(&BExp::Ge(size.neg().addk(ISIZE_MAX))) { return Ok(self.int_ptr(Lin::k(0), Meta::None)); }
        let o = self.new_obj(s, ObjKind::Heap, "heap block", Some(size.clone()), align.clone());
        let ob = s.obj_mut(o);
        ob.raw = true;
        ob.heap = Some((size.clone(), align.clone(), 0));
        if zeroed { ob.segs.push(Seg { lo: Lin::k(0), hi: size.clone(), what: SegVal::Zero }); }
        s.log.push(Ev::Alloc { obj: o, size: size.clone(), align: align.clone() });
        Ok(Ptr { obj: o, off: Lin::k(0), meta: Meta::None })
    }
    pub fn dealloc(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, size: &Lin, align: &Lin) -> R<()> {
        if size.is_zero() || s.entails(&BExp::Eq(size.clone())) { return Ok(()); }
        let Some(o) = s.objs.get(&p.obj).cloned() else { return Ok(()) };
        let inf = s.infeasible();
        if p.obj <= INT { self.record(s, "heap", inf, || "release of a pointer that was not allocated".to_string()); return Err(Stop::Dead); }
        let alive = o.alive || inf;
        self.record(s, "heap", alive, || format!("{} is released twice", o.name));
        if !alive { return Err(Stop::Dead); }
        let start = s.entails(&BExp::Eq(p.off.clone())) || inf;
        self.record(s, "heap", start, || format!("release of {} at offset {}", o.name, show(&p.off)));
        match &o.heap {
            Some((sz, al, _)) => {
                let ok = (s.entails(&BExp::Eq(sz.sub(size))) && s.entails(&BExp::Eq(al.sub(align)))) || inf;
                self.record(s, "heap", ok, || format!("{} requested with size {} align {} but released with size {} align {}", o.name, show(sz), show(al), show(size), show(align)));
            }
            None => {
                let ok = o.kind == ObjKind::Ext || inf;
                self.record(s, "heap", ok, || format!("release of {} which is not heap memory", o.name));
            }
        }
        s.log.push(Ev::Dealloc { obj: p.obj, off: p.off.clone(), size: size.clone(), align: align.clone() });
        let ob = s.obj_mut(p.obj);
        ob.alive = false; ob.cells.clear(); ob.segs.clear(); ob.lazy = false;
        Ok(())
    }

    // ------------------------------------------------------------ copies
    pub fn copy_mem(&mut self, s: &mut State<'tcx>, d: &Ptr<'tcx>, src: &Ptr<'tcx>, n: &Lin, t: Ty<'tcx>, nonoverlapping: bool) -> R<()> {
        let es = self.size_of(t);
        let bytes = mul(n, &es);
        if bytes.is_zero() || s.entails(&BExp::Eq(bytes.clone())) { return Ok(()); }
        let al = self.align_of(t);
        self.check_range(s, src, &bytes, &al, "copy source")?;
        self.check_range(s, d, &bytes, &al, "copy destination")?;
        if nonoverlapping && d.obj == src.obj {
            let b1 = BExp::Ge(src.off.sub(&d.off).sub(&bytes)); let b2 = BExp::Ge(d.off.sub(&src.off).sub(&bytes));
            let ok = s.entails(&BExp::Or(vec![b1, b2])) || s.infeasible();
            self.record(s, "memory safety", ok, || "source and destination of a non-overlapping copy may overlap".to_string());
        }
        s.log.push(Ev::Copy { dst: d.clone(), src: src.clone(), size: bytes.clone() });
        let d0 = Ptr { obj: d.obj, off: d.off.clone(), meta: Meta::None };
        let s0 = Ptr { obj: src.obj, off: src.off.clone(), meta: Meta::None };
        if n.as_const() == Some(1) && !matches!(t.kind(), ty::Uint(ty::UintTy::U8)) {
            let v = self.load(s, &s0, t)?;
            return self.store(s, &d0, t, v);
        }
        if s.obj(d.obj).kind == ObjKind::Ext { s.log.push(Ev::Write { obj: d.obj, off: d.off.clone(), size: bytes.clone() }); }
        // copy what is known about the source range
        let mut new_segs: Vec<Seg<'tcx>> = vec![];
        let mut new_cells = vec![];
        let so = s.obj(src.obj).clone();
        let end = s0.off.add(&bytes);
        for sg in &so.segs {
            if s.facts.entails_ge(&s0.off.sub(&sg.hi)) || s.facts.entails_ge(&sg.lo.sub(&end)) || sg.lo == sg.hi { continue; }
            let lo_in = self.decide(s, &BExp::Ge(sg.lo.sub(&s0.off)))?;
            let lo = if lo_in { sg.lo.clone() } else { s0.off.clone() };
            let hi_in = self.decide(s, &BExp::Ge(end.sub(&sg.hi)))?;
            let hi = if hi_in { sg.hi.clone() } else { end.clone() };
            if self.decide(s, &BExp::Ge(lo.sub(&hi)))? { continue; }
            let what = if lo_in { sg.what.clone() } else { self.seg_shift(s, sg, &s0.off.sub(&sg.lo)) };
            new_segs.push(Seg { lo: lo.sub(&s0.off).add(&d0.off), hi: hi.sub(&s0.off).add(&d0.off), what });
        }
        for ((o, k), v) in &so.cells {
            let sz = self.size_of(v.0);
            let inside = s.facts.entails_ge(&o.sub(&s0.off)) && s.facts.entails_ge(&end.sub(o).sub(&sz));
            if inside { new_cells.push(((o.sub(&s0.off).add(&d0.off), *k), v.clone())); }
        }
        self.clobber(s, d.obj, &d0.off, &bytes)?;
        let ob = s.obj_mut(d.obj);
        ob.raw = true;
        ob.segs.extend(new_segs);
        for (k, v) in new_cells { ob.cells.insert(k, v); }
        self.merge_segs(s, d.obj);
        Ok(())
    }
    pub fn merge_segs(&mut self, s: &mut State<'tcx>, obj: ObjId) {
        let mut segs = s.obj(obj).segs.clone();
        let mut changed = true;
        while changed {
            changed = false;
            'o: for i in 0..segs.len() {
                for j in 0..segs.len() {
                    if i == j { continue; }
                    let (a, b) = (&segs[i], &segs[j]);
                    if a.hi != b.lo && !s.facts.entails_eq(&a.hi.sub(&b.lo)) { continue; }
                    let m = match (&a.what, &b.what) {
                        (SegVal::Zero, SegVal::Zero) => true,
                        (SegVal::Seq { ty, id, start }, SegVal::Seq { ty: t2, id: i2, start: s2 }) if ty == t2 && id == i2 => {
                            match self.index_of(&s.facts, &a.hi.sub(&a.lo), &self.size_of(*ty)) { Some(n) => s.facts.entails_eq(&start.add(&n).sub(s2)), None => false }
                        }
                        _ => false,
                    };
                    if m { let hi = b.hi.clone(); segs[i].hi = hi; segs.remove(j); changed = true; break 'o; }
                }
            }
        }
        s.obj_mut(obj).segs = segs;
    }
    pub fn fill_mem(&mut self, s: &mut State<'tcx>, d: &Ptr<'tcx>, byte: &Lin, bytes: &Lin, al: &Lin) -> R<()> {
        if bytes.is_zero() || s.entails(&BExp::Eq(bytes.clone())) { return Ok(()); }
        self.check_range(s, d, bytes, al, "fill")?;
        s.log.push(Ev::Fill { dst: d.clone(), byte: byte.clone(), size: bytes.clone() });
        self.clobber(s, d.obj, &d.off, bytes)?;
        let ob = s.obj_mut(d.obj);
        ob.raw = true;
        if byte.is_zero() { ob.segs.push(Seg { lo: d.off.clone(), hi: d.off.add(bytes), what: SegVal::Zero }); }
        Ok(())
    }
    pub fn cell_cmp(op: BinOp, x: &Lin, y: &Lin) -> BExp { crate::interp::cmp_lin(op, x, y) }
}
