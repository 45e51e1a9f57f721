//! Statements, rvalues, terminators, function bodies.
use crate::engine::*;
use crate::num::*;
use crate::val::*;
use rustc_abi::VariantIdx;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};
use rustc_middle::ty::adjustment::PointerCoercion;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Head<'tcx> { pub st: State<'tcx>, pub phis: BTreeSet<Sym>, pub rounds: usize, pub group: u32 }

impl<'tcx> Cx<'tcx> {
    pub fn body_of(&mut self, inst: Instance<'tcx>, kind: u32) -> Option<Rc<Body<'tcx>>> {
        if let Some(b) = self.bodies.get(&(inst, kind)) { return Some(b.clone()); }
        let tcx = self.tcx;
        let b: Body<'tcx> = match inst.def {
            InstanceKind::Item(d) => {
                if kind == 1 { tcx.mir_for_ctfe(d).clone() } else {
                    if !tcx.is_mir_available(d) { return None; }
                    tcx.instance_mir(inst.def).clone()
                }
            }
            InstanceKind::Shim(_) => tcx.instance_mir(inst.def).clone(),
            _ => return None,
        };
        let b = self.mono_body(inst, b);
        let rc = Rc::new(b);
        self.bodies.insert((inst, kind), rc.clone());
        Some(rc)
    }
    pub fn mono_body(&self, inst: Instance<'tcx>, b: Body<'tcx>) -> Body<'tcx> {
        match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.tenv, ty::EarlyBinder::bind(self.tcx, b.clone())) {
            Ok(b) => b,
            Err(_) => {
                if inst.def.has_polymorphic_mir_body() { ty::EarlyBinder::bind(self.tcx, b).instantiate(self.tcx, inst.args).skip_norm_wip() } else { b }
            }
        }
    }
    pub fn is_internal(&self, inst: Instance<'tcx>) -> bool {
        let c = self.tcx.crate_name(inst.def_id().krate).to_string();
        !self.repo_crates.contains(&c)
    }
    pub fn inst_name(&self, inst: Instance<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(inst.def_id()))
    }

    // ------------------------------------------------------------ places
    pub fn place(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, pl: &Place<'tcx>) -> R<PlRef<'tcx>> {
        let lty = fr.body.local_decls[pl.local].ty;
        let mut r = PlRef { ptr: Ptr { obj: fr.locals[pl.local.index()], off: Lin::k(0), meta: Meta::None }, ty: lty, variant: None };
        for e in pl.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let v = self.load(st, &r.ptr, r.ty)?;
                    let pt = match self.pointee(r.ty) { Some(t) => t, None => return Err(Stop::Undecided(format!("deref of {}", r.ty))) };
                    let p = match self.as_ptr(v) { Some(p) => p, None => {
                        // an unknown (e.g. uninitialised) pointer
                        return Err(Stop::Undecided(format!("deref of an unknown pointer of type {}", r.ty)));
                    } };
                    r = PlRef { ptr: p, ty: pt, variant: None };
                }
                ProjectionElem::Field(i, fty) => {
                    let fty = self.norm(fty);
                    let v = r.variant.unwrap_or(0);
                    let off = self.field_off(r.ty, v, i.as_u32());
                    let is_last_unsized = !fty.is_sized(self.tcx, self.tenv);
                    let off = if is_last_unsized { self.unsized_field_off(r.ty, off, fty, &r.ptr.meta) } else { off };
                    let meta = if is_last_unsized { r.ptr.meta.clone() } else { Meta::None };
                    r = PlRef { ptr: Ptr { obj: r.ptr.obj, off: r.ptr.off.add(&off), meta }, ty: fty, variant: None };
                }
                ProjectionElem::Downcast(_, v) => { r.variant = Some(v.as_u32()); }
                ProjectionElem::Index(l) => {
                    let ip = Ptr { obj: fr.locals[l.index()], off: Lin::k(0), meta: Meta::None };
                    let iv = self.load(st, &ip, self.tcx.types.usize)?;
                    let i = self.as_int(st, iv)?;
                    let (ety, _) = self.elem_of(r.ty);
                    let es = self.size_of(ety);
                    self.expand_array(st, &r.ptr, r.ty)?;
                    r = PlRef { ptr: Ptr { obj: r.ptr.obj, off: r.ptr.off.add(&mul(&i, &es)), meta: Meta::None }, ty: ety, variant: None };
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (ety, n) = self.elem_of(r.ty);
                    let n = match (&r.ptr.meta, n) { (Meta::Len(l), None) => l.clone(), (_, Some(n)) => n, _ => return Err(Stop::Undecided("constant index".into())) };
                    let i = if from_end { n.addk(-(offset as i128)) } else { Lin::k(offset as i128) };
                    let es = self.size_of(ety);
                    self.expand_array(st, &r.ptr, r.ty)?;
                    r = PlRef { ptr: Ptr { obj: r.ptr.obj, off: r.ptr.off.add(&mul(&i, &es)), meta: Meta::None }, ty: ety, variant: None };
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (ety, n) = self.elem_of(r.ty);
                    let es = self.size_of(ety);
                    let off = r.ptr.off.add(&es.scale(from as i128));
                    match (&r.ptr.meta, n) {
                        (Meta::Len(l), None) => {
                            let len = if from_end { l.addk(-(from as i128) - to as i128) } else { Lin::k(to as i128 - from as i128) };
                            r = PlRef { ptr: Ptr { obj: r.ptr.obj, off, meta: Meta::Len(len) }, ty: r.ty, variant: None };
                        }
                        _ => return Err(Stop::Undecided("subslice of an array".into())),
                    }
                }
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => { r.ty = self.norm(t); }
                ProjectionElem::PhantomDeref => return Err(Stop::Undecided("phantom deref".into())),
            }
        }
        Ok(r)
    }
    /// offset of an unsized last field (depends on the alignment of the value for dyn/opaque)
    fn unsized_field_off(&mut self, sty: Ty<'tcx>, off: Lin, fty: Ty<'tcx>, meta: &Meta<'tcx>) -> Lin {
        if let Some(t) = self.concrete(sty, meta) { let n = self.fields(t, 0).len() as u32; return self.field_off(t, 0, n - 1); }
        match self.tail(fty).kind() {
            ty::Slice(_) | ty::Str => off,
            _ => { let (_, a) = self.size_of_val(fty, meta); off.add(&align_off(&off, &a)) }
        }
    }
    pub fn elem_of(&self, ty: Ty<'tcx>) -> (Ty<'tcx>, Option<Lin>) {
        match ty.kind() {
            ty::Array(e, n) => (*e, Some(self.const_usize(*n))),
            ty::Slice(e) => (*e, None),
            ty::Str => (self.tcx.types.u8, None),
            _ => (ty, None),
        }
    }
    /// turn a whole-array cell into element content
    fn expand_array(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<()> {
        if let ty::Array(e, n) = ty.kind() {
            let key = (p.off.clone(), tk(ty));
            if !st.objs.contains_key(&p.obj) { return Ok(()); }
            if let Some((_, v)) = st.obj(p.obj).cells.get(&key).cloned() {
                let n = self.const_usize(*n);
                let es = self.size_of(*e);
                st.obj_mut(p.obj).cells.remove(&key);
                st.obj_mut(p.obj).raw = true;
                let hi = p.off.add(&mul(&n, &es));
                match v {
                    Val::Tok(t) => { st.obj_mut(p.obj).segs.push(Seg { lo: p.off.clone(), hi, what: SegVal::Seq { ty: *e, id: t.id, start: t.idx } }); }
                    Val::Rep(b) => {
                        if matches!(&*b, Val::Int(l) if l.is_zero()) { st.obj_mut(p.obj).segs.push(Seg { lo: p.off.clone(), hi, what: SegVal::Zero }); }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }
    pub fn as_ptr(&self, v: Val<'tcx>) -> Option<Ptr<'tcx>> {
        match v {
            Val::Ptr(p) => Some(p),
            Val::Agg(vs) => {
                let mut it = vs.into_iter().filter_map(|v| self.as_ptr(v));
                it.next()
            }
            _ => None,
        }
    }
    pub fn as_int(&mut self, st: &mut State<'tcx>, v: Val<'tcx>) -> R<Lin> {
        match v {
            Val::Int(l) => Ok(l),
            Val::Bool(b) => { let t = self.decide(st, &b)?; Ok(Lin::k(t as i128)) }
            Val::Agg(vs) => { for v in vs { if !matches!(v, Val::Zst) { return self.as_int(st, v); } } Err(Stop::Undecided("no integer".into())) }
            Val::Ptr(p) => Ok(self.addr(&p)),
            Val::Undef => { if st.infeasible() { return Err(Stop::Dead); } Err(Stop::Undecided("use of an unknown integer".into())) }
            v => Err(Stop::Undecided(format!("integer expected, got {v:?}"))),
        }
    }
    pub fn as_bool(&mut self, v: Val<'tcx>) -> R<BExp> {
        match v {
            Val::Bool(b) => Ok(b),
            Val::Int(l) => Ok(BExp::Ne(l)),
            Val::Undef => Err(Stop::Undecided("use of an unknown bool".into())),
            v => Err(Stop::Undecided(format!("bool expected, got {v:?}"))),
        }
    }

    // ------------------------------------------------------------ operands
    pub fn operand(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, op: &Operand<'tcx>) -> R<Val<'tcx>> {
        match op {
            Operand::Copy(p) | Operand::Move(p) => {
                let r = self.place(st, fr, p)?;
                if p.is_indirect() { self.check_access(st, &r.ptr, r.ty, "read")?; }
                let v = self.load(st, &r.ptr, r.ty)?;
                Ok(v)
            }
            Operand::Constant(c) => self.constant(st, fr, &c.const_),
            Operand::RuntimeChecks(rc) => Ok(Val::Bool(BExp::K(match rc { RuntimeChecks::OverflowChecks => self.overflow_checks, _ => false }))),
        }
    }
    pub fn op_ty(&self, fr: &Frame<'tcx>, op: &Operand<'tcx>) -> Ty<'tcx> { let t = op.ty(&fr.body.local_decls, self.tcx); self.norm(t) }
    pub fn constant(&mut self, st: &mut State<'tcx>, _fr: &Frame<'tcx>, c: &mir::Const<'tcx>) -> R<Val<'tcx>> {
        match c {
            mir::Const::Val(cv, ty) => self.const_val(st, *cv, *ty),
            mir::Const::Ty(ty, ct) => {
                if ty.is_bool() {
                    if let Some(b) = ct.try_to_value().and_then(|v| v.try_to_bool()) { return Ok(Val::Bool(BExp::K(b))); }
                }
                if ty.is_integral() {
                    if let Some(v) = ct.try_to_leaf() { return Ok(self.scalar_int(v, *ty)); }
                    return Ok(Val::Int(self.const_usize(*ct)));
                }
                Err(Stop::Undecided(format!("const {c:?}")))
            }
            mir::Const::Unevaluated(uv, ty) => {
                let ty = self.norm(*ty);
                if let Some(v) = self.special_const(uv.def, uv.args, ty) { return Ok(v); }
                // promoteds and generic constants are interpreted; others are evaluated by the compiler
                if uv.promoted.is_none() {
                    let uv2 = mir::UnevaluatedConst { def: uv.def, args: self.norm(uv.args), promoted: None };
                    let mono = !ty::TypeVisitableExt::has_param(&uv2.args);
                    if mono {
                        if let Ok(cv) = self.tcx.const_eval_resolve(self.tenv, uv2, rustc_span::DUMMY_SP) { return self.const_val(st, cv, ty); }
                    }
                    let inst = match Instance::try_resolve(self.tcx, self.tenv, uv.def, uv2.args) { Ok(Some(i)) => i, _ => {
                        return self.fresh_named_const(st, &format!("{}", rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(uv.def, uv2.args))), ty);
                    } };
                    if let Some(v) = self.special_const(inst.def_id(), inst.args, ty) { return Ok(v); }
                    if !(inst.def_id().is_local() || self.tcx.is_mir_available(inst.def_id())) { return Err(Stop::Undecided(format!("constant {}", self.inst_name(inst)))); }
                    let body = match self.body_of(inst, 1) { Some(b) => b, None => return Err(Stop::Undecided("const body".into())) };
                    return self.run_const(st, inst, body);
                }
                let p = uv.promoted.unwrap();
                let inst = Instance::new_raw(uv.def, self.norm(uv.args));
                let pb = self.tcx.promoted_mir(uv.def)[p].clone();
                let body = match self.bodies.get(&(inst, 100 + p.as_u32())) { Some(b) => b.clone(), None => {
                    let b = Rc::new(self.mono_body(inst, pb));
                    self.bodies.insert((inst, 100 + p.as_u32()), b.clone()); b } };
                // a constant has one place, and keeps it
                let key = (inst, p.as_u32());
                if let Some((v, os)) = self.promoted.get(&key) {
                    for (i, o) in os { st.objs.entry(*i).or_insert_with(|| o.clone()); }
                    return Ok(v.clone());
                }
                let before: BTreeSet<ObjId> = st.objs.keys().cloned().collect();
                let facts = (st.facts.ge.len(), st.facts.ne.len(), st.facts.div.len());
                let v = self.run_const(st, inst, body)?;
                let mut seen: BTreeSet<ObjId> = BTreeSet::new();
                let mut todo = vec![];
                val_objs(&v, &mut todo);
                while let Some(o) = todo.pop() {
                    if before.contains(&o) || !st.objs.contains_key(&o) || !seen.insert(o) { continue; }
                    for (_, w) in st.obj(o).cells.values() { val_objs(w, &mut todo); }
                }
                let gone: Vec<ObjId> = st.objs.keys().filter(|o| !before.contains(o) && !seen.contains(o)).cloned().collect();
                for o in gone { st.objs.remove(&o); }
                for o in &seen { let ob = st.obj_mut(*o); if ob.kind == ObjKind::Local { ob.kind = ObjKind::Const; } }
                if facts == (st.facts.ge.len(), st.facts.ne.len(), st.facts.div.len()) {
                    let os = seen.iter().map(|o| (*o, st.objs[o].clone())).collect();
                    self.promoted.insert(key, (v.clone(), os));
                }
                Ok(v)
            }
        }
    }
    fn fresh_named_const(&mut self, _st: &mut State<'tcx>, name: &str, ty: Ty<'tcx>) -> R<Val<'tcx>> {
        if let Some((lo, hi)) = self.int_range(ty) {
            let (s, new) = intern(SymKind::Named(format!("const {name}")));
            if new { range(s, lo, hi); }
            if ty.is_bool() { return Ok(Val::Bool(BExp::Ge(Lin::s(s).addk(-1)))); }
            return Ok(Val::Int(Lin::s(s)));
        }
        Err(Stop::Undecided(format!("constant {name}")))
    }
    fn run_const(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, body: Rc<Body<'tcx>>) -> R<Val<'tcx>> {
        // constants have no effects: all results that differ are alternatives
        let saved = (std::mem::take(&mut self.fork_pending), self.fork_i);
        let saved_obs = std::mem::take(&mut self.obs_buf);
        let mut s0 = st.clone();
        let saved_fp = s0.forbid_panic; s0.forbid_panic = false;
        let outs = self.run_body(s0, inst, body, vec![], true);
        self.fork_pending = saved.0; self.fork_i = saved.1;
        self.obs_buf = saved_obs;
        let mut rets: Vec<(State<'tcx>, Val<'tcx>)> = outs.into_iter().filter_map(|(s, o)| match o { Out::Ret(v) => Some((s, v)), _ => None }).collect();
        if rets.is_empty() { return Err(Stop::Dead); }
        let i = self.choose(rets.len())?;
        let (mut s, v) = rets.swap_remove(i);
        s.forbid_panic = saved_fp;
        *st = s;
        Ok(v)
    }
    pub fn scalar_int(&self, v: ty::ScalarInt, ty: Ty<'tcx>) -> Val<'tcx> {
        let size = v.size();
        match ty.kind() {
            ty::Bool => Val::Bool(BExp::K(v.to_bits(size) != 0)),
            ty::Int(_) => Val::Int(Lin::k(size.sign_extend(v.to_bits(size)))),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => Val::Ptr(self.int_ptr(Lin::k(v.to_bits(size) as i128), Meta::None)),
            ty::Pat(b, _) => self.scalar_int(v, *b),
            ty::Adt(d, _) if d.is_struct() => {
                let fs = self.fields(ty, 0);
                Val::Agg(fs.iter().map(|f| if self.is_zst(*f) { self.zst_val(*f).unwrap_or(Val::Zst) } else { self.scalar_int(v, *f) }).collect())
            }
            _ => Val::Int(Lin::k(v.to_bits(size) as i128)),
        }
    }
    pub fn const_val(&mut self, st: &mut State<'tcx>, cv: ConstValue, ty: Ty<'tcx>) -> R<Val<'tcx>> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let ty = self.norm(ty);
        match (cv, ty.kind()) {
            (_, ty::FnDef(..)) => return Ok(Val::Fn(ty)),
            (ConstValue::ZeroSized, _) => return Ok(self.zst_val(ty).unwrap_or(Val::Zst)),
            (ConstValue::Scalar(Scalar::Int(i)), _) if !ty.is_enum() && !(ty.is_adt()) && !matches!(ty.kind(), ty::Tuple(_) | ty::Array(..)) => return Ok(self.scalar_int(i, ty)),
            (ConstValue::Scalar(Scalar::Ptr(p, _)), _) if self.pointee(ty).is_some() => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match self.tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Memory(m)) => {
                        let size = m.inner().size().bytes();
                        let p = self.const_obj(st, aid.0.get(), size as i128, m.inner().align.bytes() as i128);
                        let mut q = p; q.off = Lin::k(off.bytes() as i128);
                        // the content
                        let pt = self.pointee(ty).unwrap();
                        if pt.is_sized(self.tcx, self.tenv) && st.obj(q.obj).cells.is_empty() {
                            let c = ConstValue::Indirect { alloc_id: aid, offset: off };
                            if let Ok(v) = self.const_val(st, c, pt) { let _ = self.store_content(st, &q, pt, v); }
                        }
                        return Ok(Val::Ptr(q));
                    }
                    _ => { let p = self.const_obj(st, aid.0.get(), 0, 1); return Ok(Val::Ptr(p)); }
                }
            }
            (ConstValue::Slice { alloc_id, meta }, _) => {
                let mut p = self.const_obj(st, alloc_id.0.get(), meta as i128, 1);
                p.meta = Meta::Len(Lin::k(meta as i128));
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    if ty.peel_refs().is_str() {
                        let bytes = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        st.ghost.insert(format!("str{}", p.obj), Val::Tok(Tok { id: 0, idx: Lin::k(0) }));
                        self.strs.insert(p.obj, String::from_utf8_lossy(bytes).to_string());
                    }
                }
                return Ok(Val::Ptr(p));
            }
            _ => {}
        }
        if self.is_layout_ty(ty) {
            // two usize fields: read through the aggregate below
        }
        if let ty::Adt(..) | ty::Tuple(_) | ty::Array(..) = ty.kind() {
            if let ty::Adt(d, _) = ty.kind() { if d.is_union() { return Ok(Val::Undef); } }
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(cv, ty) {
                let mut fs = vec![];
                for (c, t) in d.fields.iter() { fs.push(self.const_val(st, *c, *t)?); }
                return Ok(match (ty.kind(), d.variant) {
                    (ty::Adt(a, _), Some(v)) if a.is_enum() => {
                        Val::Enum(v.as_u32(), fs)
                    }
                    _ => Val::Agg(fs),
                });
            }
        }
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                if let Some(l) = self.layout(ty) {
                    let a = m.inner();
                    let range = rustc_middle::mir::interpret::alloc_range(offset, l.size);
                    if let Ok(s) = a.read_scalar(&self.tcx, range, self.pointee(ty).is_some()) { return self.const_val(st, ConstValue::Scalar(s), ty); }
                    if self.pointee(ty).is_some() && l.size.bytes() == 16 {
                        let r1 = rustc_middle::mir::interpret::alloc_range(offset, rustc_abi::Size::from_bytes(8));
                        let r2 = rustc_middle::mir::interpret::alloc_range(offset + rustc_abi::Size::from_bytes(8), rustc_abi::Size::from_bytes(8));
                        if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(n))) = (a.read_scalar(&self.tcx, r1, true), a.read_scalar(&self.tcx, r2, false)) {
                            let (prov, off) = p.into_raw_parts();
                            if off.bytes() == 0 { return self.const_val(st, ConstValue::Slice { alloc_id: prov.alloc_id(), meta: n.to_u64() }, ty); }
                        }
                    }
                }
            }
        }
        if let (ConstValue::Scalar(Scalar::Int(n)), ty::Adt(d, _), Some(l)) = (cv, ty.kind(), self.layout(ty)) {
            if let rustc_abi::Variants::Multiple { tag_encoding: rustc_abi::TagEncoding::Niche { niche_variants, niche_start, .. }, .. } = &l.variants {
                let v = n.to_bits(n.size()).wrapping_sub(*niche_start);
                let v = niche_variants.start.as_u32() as u128 + v;
                if v <= niche_variants.last.as_u32() as u128 && d.is_enum() && self.fields(ty, v as u32).iter().all(|f| self.is_zst(*f)) {
                    let fs = self.fields(ty, v as u32).len();
                    return Ok(Val::Enum(v as u32, vec![Val::Zst; fs]));
                }
            }
        }
        if let (ConstValue::Scalar(Scalar::Int(n)), true) = (cv, self.is_align_enum(ty)) { return Ok(Val::Int(Lin::k(n.to_bits(n.size()) as i128))); }
        if let (ConstValue::Scalar(_), ty::Pat(b, _)) = (cv, ty.kind()) { return self.const_val(st, cv, *b); }
        // a newtype of a scalar
        if let (ConstValue::Scalar(_), ty::Adt(d, _)) = (cv, ty.kind()) {
            if d.is_struct() {
                let fs = self.fields(ty, 0);
                if fs.iter().filter(|f| !self.is_zst(**f)).count() == 1 {
                    let mut out = vec![];
                    for f in fs { out.push(if self.is_zst(f) { self.zst_val(f).unwrap_or(Val::Zst) } else { self.const_val(st, cv, f)? }); }
                    return Ok(Val::Agg(out));
                }
            }
        }
        Err(Stop::Undecided(format!("constant of type {ty}: {cv:?}")))
    }
    fn store_content(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>, v: Val<'tcx>) -> R<()> { self.store(st, p, ty, v) }
    fn const_obj(&mut self, st: &mut State<'tcx>, aid: u64, size: i128, align: i128) -> Ptr<'tcx> {
        let key = (INT, Lin::k(aid as i128), "const".to_string());
        let id = match self.children.get(&key) { Some(i) => *i, None => { let i = self.next_obj; self.next_obj += 1; self.children.insert(key, i); i } };
        if !st.objs.contains_key(&id) { self.put_obj(st, id, ObjKind::Const, "constant", Some(Lin::k(size)), Lin::k(align)); }
        Ptr { obj: id, off: Lin::k(0), meta: Meta::None }
    }

    // ------------------------------------------------------------ rvalues
    pub fn wrap_int(&mut self, st: &mut State<'tcx>, l: Lin, ty: Ty<'tcx>, single: bool) -> R<Lin> {
        let Some((lo, hi)) = self.int_range(ty) else { return Ok(l) };
        if hi - lo > USIZE_MAX { return Ok(l); }
        if self.decide(st, &BExp::Ge(l.neg().addk(hi)))? {
            if self.decide(st, &BExp::Ge(l.addk(-lo)))? { return Ok(l); }
            if single { return Ok(l.addk(hi - lo + 1)); }
        } else if single { return Ok(l.addk(-(hi - lo + 1))); }
        Ok(self.fresh_int(ty, "wrapped"))
    }
    fn in_range(&self, l: &Lin, ty: Ty<'tcx>) -> BExp {
        match self.int_range(ty) { Some((lo, hi)) if hi - lo <= USIZE_MAX => BExp::And(vec![BExp::Ge(l.neg().addk(hi)), BExp::Ge(l.addk(-lo))]), _ => BExp::K(true) }
    }
    pub fn int_cast(&mut self, st: &mut State<'tcx>, l: Lin, to: Ty<'tcx>) -> R<Lin> { self.wrap_int(st, l, to, true).or_else(|e| Err(e)) }
    pub fn ptr_eq(&mut self, st: &State<'tcx>, a: &Ptr<'tcx>, b: &Ptr<'tcx>) -> BExp {
        // places inside two distinct live allocations
        if a.obj != b.obj {
            let own = |p: &Ptr<'tcx>| st.objs.get(&p.obj).map_or(false, |o| {
                let lent = o.kind == ObjKind::Ext && o.name == "lent memory";
                o.alive && (lent || matches!(o.kind, ObjKind::Heap | ObjKind::Local)) && o.size.as_ref().map_or(false, |z| st.facts.entails_ge(&p.off) && st.facts.entails_ge(&z.sub(&p.off).addk(-1)))
            });
            if own(a) && own(b) { return BExp::K(false); }
        }
        let e = BExp::Eq(self.addr(a).sub(&self.addr(b))).simp();
        match (&a.meta, &b.meta) {
            (Meta::Len(x), Meta::Len(y)) => BExp::and(e, BExp::Eq(x.sub(y)).simp()),
            (Meta::Tok(x), Meta::Tok(y)) if x != y => { let f = fresh_ranged("meta_eq", 0, 1); BExp::and(e, BExp::Ge(f.addk(-1))) }
            (Meta::VTable(x), Meta::VTable(y)) if x != y => BExp::K(false),
            _ => e,
        }
    }
    pub fn compare(&mut self, st: &mut State<'tcx>, op: BinOp, a: &Val<'tcx>, b: &Val<'tcx>) -> R<BExp> {
        if let (Val::Ptr(p), Val::Ptr(q)) = (a, b) {
            if matches!(op, BinOp::Eq | BinOp::Ne) {
                let e = self.ptr_eq(st, p, q);
                return Ok(if op == BinOp::Eq { e } else { e.not() });
            }
            let (x, y) = (self.addr(p), self.addr(q));
            return Ok(cmp_lin(op, &x, &y));
        }
        if let (Val::Bool(p), Val::Bool(q)) = (a, b) {
            let e = match (p, q) {
                (BExp::K(true), x) | (x, BExp::K(true)) => x.clone(),
                (BExp::K(false), x) | (x, BExp::K(false)) => x.not(),
                _ => { let x = self.decide(st, p)?; if x { q.clone() } else { q.not() } }
            };
            if matches!(op, BinOp::Eq) { return Ok(e); }
            if matches!(op, BinOp::Ne) { return Ok(e.not()); }
        }
        if let (Val::Tok(x), Val::Tok(y)) = (a, b) {
            if x == y { return Ok(match op { BinOp::Eq | BinOp::Le | BinOp::Ge => BExp::K(true), _ => BExp::K(false) }); }
            let f = fresh_ranged("cmp", 0, 1);
            return Ok(BExp::Ge(f.addk(-1)));
        }
        if let (Val::Fn(x), Val::Fn(y)) = (a, b) { return Ok(BExp::K((x == y) == (op == BinOp::Eq))); }
        let x = self.as_int(st, a.clone())?;
        let y = self.as_int(st, b.clone())?;
        Ok(cmp_lin(op, &x, &y))
    }
    pub fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, a: Val<'tcx>, b: Val<'tcx>, aty: Ty<'tcx>, bty: Ty<'tcx>) -> R<Val<'tcx>> {
        use BinOp::*;
        match op {
            Eq | Ne | Lt | Le | Gt | Ge => return self.compare(st, op, &a, &b).map(|e| Val::Bool(e.simp())),
            Cmp => {
                let lt = self.compare(st, Lt, &a, &b)?;
                if self.decide(st, &lt)? { return Ok(Val::Enum(0, vec![])); }
                let eq = self.compare(st, Eq, &a, &b)?;
                return Ok(Val::Enum(if self.decide(st, &eq)? { 1 } else { 2 }, vec![]));
            }
            Offset => {
                let p = match self.as_ptr(a) { Some(p) => p, None => return Err(Stop::Undecided("offset of a non-pointer".into())) };
                let n = self.as_int(st, b)?;
                let _ = bty;
                let es = self.size_of(self.pointee(aty).unwrap());
                return self.ptr_offset(st, p, &mul(&n, &es), true).map(Val::Ptr);
            }
            _ => {}
        }
        if matches!(op, BitAnd | BitOr | BitXor) && (matches!(a, Val::Bool(_)) || matches!(b, Val::Bool(_))) {
            let (x, y) = (self.as_bool(a)?, self.as_bool(b)?);
            return Ok(Val::Bool(match op {
                BitAnd => BExp::and(x, y),
                BitOr => BExp::or(x, y),
                _ => BExp::or(BExp::and(x.clone(), y.not()), BExp::and(x.not(), y)),
            }));
        }
        let x = self.as_int(st, a)?;
        let y = self.as_int(st, b)?;
        let r = match op {
            Add | AddUnchecked | AddWithOverflow => x.add(&y),
            Sub | SubUnchecked | SubWithOverflow => x.sub(&y),
            Mul | MulUnchecked | MulWithOverflow => mul(&x, &y),
            Div | Rem => {
                // divisor zero is asserted before; signed division only for constants
                if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) { if q != 0 { Lin::k(if op == Div { p / q } else { p % q }) } else { return Err(Stop::Dead) } }
                else if !aty.is_signed() || st.entails(&BExp::And(vec![BExp::Ge(x.clone()), BExp::Ge(y.clone())])) { if op == Div { div(&x, &y) } else { rem(&x, &y) } }
                else { self.fresh_int(aty, "quot") }
            }
            BitAnd => self.bit_and(st, &x, &y, aty),
            BitOr => {
                if x.is_zero() { y.clone() } else if y.is_zero() { x.clone() } else if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) { Lin::k(p | q) }
                else { let f = self.fresh_int(aty, "or"); st.facts.add_ge(f.sub(&x)); st.facts.add_ge(f.sub(&y)); st.facts.add_ge(x.add(&y).sub(&f)); f }
            }
            BitXor => if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) { Lin::k(p ^ q) } else if x == y { Lin::k(0) } else { self.fresh_int(aty, "xor") },
            Shl | ShlUnchecked => match y.as_const() {
                Some(k) if k < 64 => { let r = x.scale(1i128 << k); return Ok(Val::Int(self.wrap_int(st, r, aty, false)?)); }
                _ => self.fresh_int(aty, "shl"),
            },
            Shr | ShrUnchecked => match y.as_const() { Some(k) if k < 64 && !aty.is_signed() => div(&x, &Lin::k(1i128 << k)), _ => self.fresh_int(aty, "shr") },
            _ => return Err(Stop::Undecided(format!("{op:?}"))),
        };
        match op {
            Add | Sub => Ok(Val::Int(self.wrap_int(st, r, aty, true)?)),
            Mul => Ok(Val::Int(self.wrap_int(st, r, aty, false)?)),
            AddUnchecked | SubUnchecked | MulUnchecked => {
                let b = self.in_range(&r, aty);
                let ok = st.entails(&b);
                self.record(st, "memory safety", ok, || format!("unchecked arithmetic may overflow: {}", show(&r)));
                if !st.assume(&b) { return Err(Stop::Dead); }
                Ok(Val::Int(r))
            }
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let b = self.in_range(&r, aty);
                let ok = self.decide(st, &b)?;
                if ok { Ok(Val::Agg(vec![Val::Int(r), Val::Bool(BExp::K(false))])) }
                else {
                    let w = if op == MulWithOverflow { self.fresh_int(aty, "wrapped") } else { self.wrap_int(st, r, aty, true)? };
                    Ok(Val::Agg(vec![Val::Int(w), Val::Bool(BExp::K(true))]))
                }
            }
            _ => Ok(Val::Int(r)),
        }
    }
    fn bit_and(&mut self, st: &mut State<'tcx>, x: &Lin, y: &Lin, ty: Ty<'tcx>) -> Lin {
        if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) { return Lin::k(p & q); }
        let max = self.int_range(ty).map(|r| r.1).unwrap_or(USIZE_MAX);
        for (a, m) in [(x, y), (y, x)] {
            // a & (2^k - 1)
            if is_pow2(&m.addk(1)) { return align_rem(a, &m.addk(1)); }
            // a & !(2^k - 1)
            let inv = m.neg().addk(max + 1);
            if is_pow2(&inv) { return a.sub(&align_rem(a, &inv)); }
        }
        let f = self.fresh_int(ty, "and");
        st.facts.add_ge(x.sub(&f)); st.facts.add_ge(y.sub(&f));
        f
    }
    pub fn ptr_offset(&mut self, st: &mut State<'tcx>, p: Ptr<'tcx>, bytes: &Lin, inbounds: bool) -> R<Ptr<'tcx>> {
        let q = Ptr { obj: p.obj, off: p.off.add(bytes), meta: p.meta.clone() };
        if p.obj == NULL || p.obj == INT {
            if bytes.is_zero() { return Ok(p); }
            if inbounds {
                let ok = st.entails(&BExp::Eq(bytes.clone())) || st.infeasible();
                self.record(st, "memory safety", ok, || format!("pointer arithmetic by {} on an address that is not memory", show(bytes)));
                if !ok { return Err(Stop::Dead); }
                return Ok(p);
            }
            let a = self.wrap_int(st, q.off.clone(), self.tcx.types.usize, true)?;
            return Ok(self.int_to_ptr(st, a));
        }
        if inbounds {
            if let Some(o) = st.objs.get(&p.obj) {
                if let Some(sz) = o.size.clone() {
                    if !bytes.is_zero() {
                        let b = BExp::And(vec![BExp::Ge(q.off.clone()), BExp::Ge(sz.sub(&q.off))]);
                        let ok = st.entails(&b) || st.infeasible();
                        let n = o.name.clone();
                        self.record(st, "memory safety", ok, || format!("in-bounds pointer arithmetic to offset {} may leave {n} of {} bytes", show(&q.off), show(&sz)));
                        if !ok && !st.assume(&b) { return Err(Stop::Dead); }
                    }
                }
            }
        }
        Ok(q)
    }
    pub fn rvalue(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, rv: &Rvalue<'tcx>, dty: Ty<'tcx>) -> R<Val<'tcx>> {
        Ok(match rv {
            Rvalue::Use(op, _) => self.operand(st, fr, op)?,
            Rvalue::CopyForDeref(p) => { let r = self.place(st, fr, p)?; self.load(st, &r.ptr, r.ty)? }
            Rvalue::Repeat(op, n) => {
                let v = self.operand(st, fr, op)?;
                let n = self.const_usize(*n);
                match n.as_const() { Some(k) if k <= 8 => Val::Agg(vec![v; k as usize]), _ => if v == Val::Undef { Val::Undef } else { Val::Rep(Box::new(v)) } }
            }
            Rvalue::Ref(_, _, p) => {
                let r = self.place(st, fr, p)?;
                if p.is_indirect() { self.check_access(st, &r.ptr, r.ty, "reference")?; }
                Val::Ptr(r.ptr)
            }
            Rvalue::Reborrow(_, _, p) => { let r = self.place(st, fr, p)?; self.load(st, &r.ptr, r.ty)? }
            Rvalue::RawPtr(_, p) => { let r = self.place(st, fr, p)?; Val::Ptr(r.ptr) }
            Rvalue::ThreadLocalRef(_) => return Err(Stop::Undecided("thread local".into())),
            Rvalue::Cast(k, op, to) => {
                let from = self.op_ty(fr, op);
                let v = self.operand(st, fr, op)?;
                let to = self.norm(*to);
                self.cast(st, k, v, from, to)?
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                let (ta, tb) = (self.op_ty(fr, a), self.op_ty(fr, b));
                let va = self.operand(st, fr, a)?;
                let vb = self.operand(st, fr, b)?;
                self.binop(st, *op, va, vb, ta, tb)?
            }
            Rvalue::UnaryOp(op, a) => {
                let t = self.op_ty(fr, a);
                let v = self.operand(st, fr, a)?;
                match op {
                    UnOp::Not => match v {
                        Val::Bool(b) => Val::Bool(b.not()),
                        v => { let l = self.as_int(st, v)?; let (lo, hi) = self.int_range(t).unwrap(); Val::Int(l.neg().addk(lo + hi)) }
                    },
                    UnOp::Neg => { let l = self.as_int(st, v)?; Val::Int(self.wrap_int(st, l.neg(), t, true)?) }
                    UnOp::PtrMetadata => self.ptr_metadata(&v, t, dty),
                }
            }
            Rvalue::Discriminant(p) => {
                let r = self.place(st, fr, p)?;
                match r.ty.kind() {
                    ty::Adt(..) if self.is_align_enum(r.ty) => {
                        if p.is_indirect() { self.check_access(st, &r.ptr, r.ty, "read")?; }
                        let v = self.load(st, &r.ptr, r.ty)?;
                        Val::Int(self.as_int(st, v)?)
                    }
                    ty::Adt(d, _) if d.is_enum() => {
                        if p.is_indirect() { self.check_access(st, &r.ptr, r.ty, "read")?; }
                        match self.load_discr(st, &r.ptr, r.ty)? {
                            Some(v) => { let ds = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(v)); 
                                let val = match ds.ty.kind() { ty::Int(_) => { let l = self.layout(ds.ty).unwrap().size; l.sign_extend(ds.val) } _ => ds.val as i128 };
                                Val::Int(Lin::k(val)) }
                            None => { if st.infeasible() { return Err(Stop::Dead); } return Err(Stop::Undecided(format!("discriminant of unknown {} at {:?}", r.ty, r.ptr))); }
                        }
                    }
                    _ => Val::Int(Lin::k(0)),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops.iter() { vs.push(self.operand(st, fr, o)?); }
                match &**k {
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => { if vs.is_empty() && matches!(**k, AggregateKind::Tuple) { Val::Zst } else { Val::Agg(vs) } }
                    AggregateKind::Adt(did, v, _, _, active) => {
                        let d = self.tcx.adt_def(*did);
                        if d.is_union() {
                            let f = active.unwrap();
                            let mf = self.main_field(dty).map(|x| x.0);
                            if Some(f.index()) == mf { vs.pop().unwrap() } else { Val::Undef }
                        } else if d.is_enum() { Val::Enum(v.as_u32(), vs) } else { Val::Agg(vs) }
                    }
                    AggregateKind::RawPtr(pt, _) => {
                        let mut p = self.as_ptr(vs[0].clone()).ok_or_else(|| Stop::Undecided("raw pointer aggregate".into()))?;
                        p.meta = if pt.is_sized(self.tcx, self.tenv) { Meta::None } else { self.meta_from_val(&vs[1], &p, *pt) };
                        Val::Ptr(p)
                    }
                    _ => return Err(Stop::Undecided("aggregate".into())),
                }
            }
            Rvalue::WrapUnsafeBinder(op, _) => self.operand(st, fr, op)?,
        })
    }
    pub fn meta_from_val(&mut self, v: &Val<'tcx>, _p: &Ptr<'tcx>, pt: Ty<'tcx>) -> Meta<'tcx> {
        match v {
            Val::Int(l) => Meta::Len(l.clone()),
            Val::Tok(t) => match self.meta_vals.get(&t.id) { Some(m) => m.clone(), None => Meta::Tok(t.id) },
            Val::Ptr(p) => p.meta.clone(),
            Val::Agg(vs) => { for x in vs { match self.meta_from_val(x, _p, pt) { Meta::None => {} m => return m } } Meta::None }
            Val::Zst => Meta::None,
            _ => self.fresh_meta(pt),
        }
    }
    pub fn ptr_metadata(&mut self, v: &Val<'tcx>, _t: Ty<'tcx>, _dty: Ty<'tcx>) -> Val<'tcx> {
        match self.as_ptr(v.clone()).map(|p| p.meta) {
            Some(Meta::Len(l)) => Val::Int(l),
            Some(m @ (Meta::Tok(_) | Meta::VTable(_))) => {
                let id = match &m { Meta::Tok(t) => *t, _ => self.new_tok(_dty, "metadata") };
                self.meta_vals.insert(id, m);
                Val::Tok(Tok { id, idx: Lin::k(0) })
            }
            _ => Val::Zst,
        }
    }
    fn mark_raw(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>) { if p.obj > INT && st.objs.contains_key(&p.obj) && !st.obj(p.obj).raw { st.obj_mut(p.obj).raw = true; } }
    pub fn cast(&mut self, st: &mut State<'tcx>, k: &CastKind, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        Ok(match k {
            CastKind::IntToInt => {
                if from.is_enum() {
                    if let (Val::Enum(i, _), ty::Adt(d, _)) = (&v, from.kind()) {
                        let ds = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(*i));
                        return Ok(Val::Int(Lin::k(ds.val as i128)));
                    }
                }
                let l = self.as_int(st, v)?;
                let (flo, fhi) = self.int_range(from).unwrap_or((0, USIZE_MAX));
                let (tlo, thi) = self.int_range(to).unwrap_or((0, USIZE_MAX));
                if flo >= tlo && fhi <= thi { return Ok(Val::Int(l)); }
                let single = (fhi - flo) <= (thi - tlo);
                Val::Int(self.wrap_int(st, l, to, single)?)
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let mut p = match self.as_ptr(v.clone()) { Some(p) => p, None => return Ok(v) };
                if let (Some(a), Some(b)) = (self.pointee(from), self.pointee(to)) {
                    if a != b { self.mark_raw(st, &p); }
                    if b.is_sized(self.tcx, self.tenv) { p.meta = Meta::None; }
                }
                Val::Ptr(p)
            }
            CastKind::PointerExposeProvenance => { let p = self.as_ptr(v).ok_or_else(|| Stop::Undecided("ptr to int".into()))?; Val::Int(self.addr(&p)) }
            CastKind::PointerWithExposedProvenance => { let l = self.as_int(st, v)?; Val::Ptr(self.int_to_ptr(st, l)) }
            CastKind::PointerCoercion(PointerCoercion::Unsize, _) => self.unsize(st, v, from, to)?,
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) | CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => Val::Fn(from),
            CastKind::PointerCoercion(..) | CastKind::Subtype => v,
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(st, v, from, to)?,
            CastKind::FloatToInt => Val::Int(self.fresh_int(to, "float")),
            CastKind::FloatToFloat | CastKind::IntToFloat => Val::Tok(Tok { id: self.new_tok(to, "float"), idx: Lin::k(0) }),
        })
    }
    pub fn transmute(&mut self, st: &mut State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        if from == to { return Ok(v); }
        if let (Val::Ptr(p), Some(_), Some(b)) = (&v, self.pointee(from), self.pointee(to)) {
            let mut p = p.clone();
            if !to.is_box() {
                if b.is_sized(self.tcx, self.tenv) { p.meta = Meta::None; }
                return Ok(Val::Ptr(p));
            }
        }
        let size = self.size_of(from);
        let a = Lin::k(16);
        let o = self.new_obj(st, ObjKind::Local, "transmute", Some(size), a);
        let p = Ptr { obj: o, off: Lin::k(0), meta: Meta::None };
        self.store(st, &p, from, v)?;
        st.obj_mut(o).raw = true;
        let r = self.load(st, &p, to)?;
        st.objs.remove(&o);
        Ok(r)
    }
    fn unsize(&mut self, st: &mut State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        match v {
            Val::Ptr(mut p) => {
                let (a, b) = (self.pointee(from), self.pointee(to));
                let (Some(a), Some(b)) = (a, b) else { return Err(Stop::Undecided("unsize".into())) };
                let (sa, sb) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.tenv);
                match (sa.kind(), sb.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => { p.meta = Meta::Len(self.const_usize(*n)); self.expand_array(st, &Ptr { meta: Meta::None, ..p.clone() }, sa)?; }
                    (ty::Dynamic(..), ty::Dynamic(..)) => {}
                    (_, ty::Dynamic(..)) => p.meta = Meta::VTable(sa),
                    _ => p.meta = Meta::Tok(self.new_tok(b, "unsized")),
                }
                Ok(Val::Ptr(p))
            }
            Val::Agg(vs) => {
                let fa = self.fields(from, 0); let fb = self.fields(to, 0);
                let mut out = vec![];
                for ((v, a), b) in vs.into_iter().zip(fa).zip(fb) { out.push(if a == b { v } else { self.unsize(st, v, a, b)? }); }
                Ok(Val::Agg(out))
            }
            v => Ok(v),
        }
    }

    // ------------------------------------------------------------ statements
    pub fn statement(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, s: &Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                let dty = { let t = pl.ty(&fr.body.local_decls, self.tcx).ty; self.norm(t) };
                let v = self.rvalue(st, fr, rv, dty)?;
                let r = self.place(st, fr, pl)?;
                if pl.is_indirect() { self.check_access(st, &r.ptr, r.ty, "write")?; }
                self.store(st, &r.ptr, r.ty, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let r = self.place(st, fr, place)?;
                if let Some(o) = st.objs.get_mut(&r.ptr.obj) {
                    let o = Rc::make_mut(o);
                    o.cells.insert((r.ptr.off.clone(), tk(r.ty)), (r.ty, Val::Int(Lin::k(variant_index.as_u32() as i128))));
                }
                Ok(())
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let o = fr.locals[l.index()];
                if let Some(ob) = st.objs.get_mut(&o) { if !ob.cells.is_empty() || !ob.segs.is_empty() { let ob = Rc::make_mut(ob); ob.cells.clear(); ob.segs.clear(); } }
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => {
                    let v = self.operand(st, fr, op)?;
                    let b = self.as_bool(v)?;
                    let ok = st.entails(&b);
                    if !ok { self.assume_split(st, &b)?; }
                    Ok(())
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let src = self.operand(st, fr, &c.src)?;
                    let dst = self.operand(st, fr, &c.dst)?;
                    let n = self.operand(st, fr, &c.count)?;
                    let t = self.pointee(self.op_ty(fr, &c.src)).unwrap();
                    let n = self.as_int(st, n)?;
                    let (s, d) = (self.as_ptr(src).unwrap(), self.as_ptr(dst).unwrap());
                    self.copy_mem(st, &d, &s, &n, t, true)
                }
            },
            _ => Ok(()),
        }
    }

    // ------------------------------------------------------------ bodies
    pub fn run_fn(&mut self, st: State<'tcx>, inst: Instance<'tcx>, args: Vec<Val<'tcx>>) -> Outs<'tcx> {
        let body = match self.body_of(inst, 0) {
            Some(b) => b,
            None => { let n = self.inst_name(inst); self.undecide(&st, format!("no body for {n}")); return vec![]; }
        };
        self.run_body(st, inst, body, args, false)
    }
    pub fn run_body(&mut self, mut st: State<'tcx>, inst: Instance<'tcx>, body: Rc<Body<'tcx>>, args: Vec<Val<'tcx>>, keep_locals: bool) -> Outs<'tcx> {
        let name = self.inst_name(inst);
        if self.depth > 60 || self.stack.iter().filter(|n| **n == name).count() > 4 {
            self.undecide(&st, format!("recursion in {name}"));
            return vec![];
        }
        let internal = self.is_internal(inst);
        if !internal { self.funcs.insert(name.clone()); }
        self.depth += 1;
        self.stack.push(name.clone());
        self.callstack_spans.push(self.span_str(self.cur_span));
        let saved_span = self.cur_span;
        let mut locals = vec![];
        for (_l, d) in body.local_decls.iter_enumerated() {
            let t = self.norm(d.ty);
            let (s, a) = self.size_align(t);
            locals.push(self.new_obj(&mut st, ObjKind::Local, "local", Some(s), a));
        }
        let fr = Frame { inst, body: body.clone(), locals, name, internal };
        let mut outs: Outs<'tcx> = vec![];
        // arguments
        let mut ok = true;
        let n = body.arg_count;
        let mut args = args;
        if let Some(sp) = body.spread_arg {
            // the trailing arguments arrive untupled
            let first = sp.index() - 1;
            if args.len() > n || (args.len() == n && !matches!(args.last(), Some(Val::Agg(_)) | Some(Val::Zst))) || args.len() < n {
                let rest: Vec<_> = args.drain(first.min(args.len())..).collect();
                args.push(if rest.is_empty() { Val::Zst } else { Val::Agg(rest) });
            }
        }
        if args.len() != n { self.undecide(&st, format!("argument count of {}: {} given, {} expected", fr.name, args.len(), n)); ok = false; }
        let mut states = vec![st];
        if ok {
            for (i, a) in args.into_iter().enumerate() {
                let l = Local::from_usize(i + 1);
                let t = self.norm(body.local_decls[l].ty);
                let p = Ptr { obj: fr.locals[l.index()], off: Lin::k(0), meta: Meta::None };
                let mut next = vec![];
                for s in states { for (s, ()) in self.retry(s, &mut |cx, s| cx.store(s, &p, t, a.clone())) { next.push(s); } }
                states = next;
            }
            let heads_set = loop_heads(&body);
            let dead = dead_at(self.tcx, &body, &heads_set);
            let mut heads: BTreeMap<BasicBlock, Vec<Head<'tcx>>> = BTreeMap::new();
            let mut work: Vec<(BasicBlock, State<'tcx>)> = states.into_iter().rev().map(|s| (START_BLOCK, s)).collect();
            // where each item comes from, and which way of entering each loop it belongs to
            let mut from: Vec<(Option<BasicBlock>, Rc<BTreeMap<BasicBlock, u32>>)> = work.iter().map(|_| (None, Rc::default())).collect();
            while let Some((bb, s)) = work.pop() {
                let (src, mut tags) = from.pop().unwrap();
                self.steps += 1;
                if self.steps > self.max_steps || (self.steps % 16 == 0 && std::time::Instant::now() > self.deadline) { self.undecide(&s, "analysis budget exceeded".into()); break; }
                let s = if heads_set.contains(&bb) {
                    self.loops += 1;
                    let mut s = s;
                    for l in &dead[&bb] {
                        let o = fr.locals[l.index()];
                        if let Some(ob) = s.objs.get_mut(&o) { if !ob.cells.is_empty() || !ob.segs.is_empty() { let ob = Rc::make_mut(ob); ob.cells.clear(); ob.segs.clear(); } }
                    }
                    let back = src.map_or(false, |b| fr.body.basic_blocks.dominators().dominates(bb, b));
                    let group = if back { tags.get(&bb).cloned() } else { None };
                    match self.at_head(&mut heads, bb, s, &fr, group) { Some((s, g)) => { if tags.get(&bb) != Some(&g) { Rc::make_mut(&mut tags).insert(bb, g); } s } None => continue }
                } else { s };
                self.block(&fr, bb, s, &mut work, &mut outs);
                while from.len() < work.len() { from.push((Some(bb), tags.clone())); }
                if outs.len() > 3000 { self.undecide(&outs[0].0.clone(), "too many paths".into()); break; }
            }
        }
        if !keep_locals { for (s, _) in &mut outs { for l in &fr.locals { s.objs.remove(l); } } }
        self.cur_span = saved_span;
        self.callstack_spans.pop();
        self.stack.pop();
        self.depth -= 1;
        outs
    }
    fn block(&mut self, fr: &Frame<'tcx>, bb: BasicBlock, st: State<'tcx>, work: &mut Vec<(BasicBlock, State<'tcx>)>, outs: &mut Outs<'tcx>) {
        let data = &fr.body.basic_blocks[bb];
        let mut states = vec![st];
        for s in &data.statements {
            let mut next = vec![];
            for x in states {
                self.cur_span = s.source_info.span;
                for (y, ()) in self.retry(x, &mut |cx, y| cx.statement(y, fr, s)) { next.push(y); }
            }
            states = next;
            if states.is_empty() { return; }
        }
        let term = data.terminator();
        for x in states {
            self.cur_span = term.source_info.span;
            self.terminator(fr, term, x, work, outs);
        }
    }
    fn unwind_to(&mut self, _fr: &Frame<'tcx>, u: UnwindAction, s: State<'tcx>, work: &mut Vec<(BasicBlock, State<'tcx>)>, outs: &mut Outs<'tcx>) {
        match u {
            UnwindAction::Continue => outs.push((s, Out::Unwind)),
            UnwindAction::Cleanup(b) => { let mut s = s; s.panicking = true; work.push((b, s)) }
            // a panic while panicking / in a nounwind function aborts the program
            UnwindAction::Terminate(_) => self.aborts(&s),
            UnwindAction::Unreachable => {}
        }
    }
    /// The program ends here: allowed only when user code panicked a second time.
    fn aborts(&mut self, s: &State<'tcx>) {
        if let Some(Val::Int(n)) = s.ghost.get("unwound") {
            let ok = n.as_const().map_or(false, |n| n >= 2) || s.infeasible();
            self.record(s, "only a second panic aborts", ok, || "the program is aborted after a single panic".to_string());
            self.flush();
        }
    }
    fn terminator(&mut self, fr: &Frame<'tcx>, term: &Terminator<'tcx>, st: State<'tcx>, work: &mut Vec<(BasicBlock, State<'tcx>)>, outs: &mut Outs<'tcx>) {
        match &term.kind {
            TerminatorKind::Goto { target, .. } => work.push((*target, st)),
            TerminatorKind::SwitchInt { discr, targets } => {
                let res = self.retry(st, &mut |cx, s| {
                    let v = cx.operand(s, fr, discr)?;
                    let ty = cx.op_ty(fr, discr);
                    match v {
                        Val::Bool(b) => {
                            let t = cx.decide(s, &b)?;
                            let bit = t as u128;
                            Ok((targets.target_for_value(bit), targets.iter().any(|(x, _)| x == bit)))
                        }
                        v => {
                            let l = cx.as_int(s, v)?;
                            let sz = cx.layout(ty).map(|l| l.size);
                            let as_i = |x: u128| -> i128 { if ty.is_signed() { sz.unwrap().sign_extend(x) } else { x as i128 } };
                            if let Some(c) = l.as_const() {
                                for (x, b) in targets.iter() { if as_i(x) == c { return Ok((b, true)); } }
                                return Ok((targets.otherwise(), false));
                            }
                            for (x, b) in targets.iter() {
                                if cx.decide(s, &BExp::Eq(l.addk(-as_i(x))))? { return Ok((b, true)); }
                            }
                            Ok((targets.otherwise(), false))
                        }
                    }
                });
                let many = res.len() > 1;
                for (mut s, (b, _)) in res.into_iter().rev() {
                    if many && !fr.internal {
                        let sp = self.span_str(term.source_info.span);
                        let tsp = fr.body.basic_blocks[b].statements.first().map(|x| x.source_info.span).unwrap_or(fr.body.basic_blocks[b].terminator().source_info.span);
                        s.note(format!("{sp}->{}", self.span_str(tsp).rsplit(':').next().unwrap_or("")));
                    }
                    work.push((b, s));
                }
            }
            TerminatorKind::UnwindResume => outs.push((st, Out::Unwind)),
            TerminatorKind::UnwindTerminate(_) => self.aborts(&st),
            TerminatorKind::Return => {
                let t = self.norm(fr.body.local_decls[RETURN_PLACE].ty);
                let p = Ptr { obj: fr.locals[0], off: Lin::k(0), meta: Meta::None };
                for (s, v) in self.retry(st, &mut |cx, s| cx.load(s, &p, t)) { outs.push((s, Out::Ret(v))); }
            }
            TerminatorKind::Unreachable => {
                let sp = self.span_str(term.source_info.span);
                let ok = st.infeasible();
                self.record(&st, "memory safety", ok, || format!("unreachable code may be reached at {sp}"));
                self.flush();
            }
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let rs = self.retry(st, &mut |cx, s| cx.place(s, fr, place));
                for (s, r) in rs {
                    self.cur_span = term.source_info.span;
                    for (s, o) in self.drop_place(s, &r.ptr, r.ty) {
                        match o {
                            Out::Ret(_) => work.push((*target, s)),
                            Out::Unwind => self.unwind_to(fr, *unwind, s, work, outs),
                        }
                    }
                }
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let rs = self.retry(st, &mut |cx, s| {
                    let f = match func { Operand::Constant(c) => Val::Fn(cx.norm(c.const_.ty())), o => cx.operand(s, fr, o)? };
                    let mut a = vec![]; let mut tys = vec![];
                    for x in args.iter() { a.push(cx.operand(s, fr, &x.node)?); tys.push(cx.op_ty(fr, &x.node)); }
                    Ok((f, a, tys))
                });
                let dty = { let t = destination.ty(&fr.body.local_decls, self.tcx).ty; self.norm(t) };
                for (s, (f, a, tys)) in rs {
                    self.cur_span = *fn_span;
                    let outs2 = self.call(s, f, a, tys, dty, fr);
                    for (s, o) in outs2 {
                        self.cur_span = *fn_span;
                        match o {
                            Out::Ret(v) => if let Some(t) = target {
                                for (s, ()) in self.retry(s, &mut |cx, s| { let r = cx.place(s, fr, destination)?; cx.store(s, &r.ptr, r.ty, v.clone()) }) { work.push((*t, s)); }
                            },
                            Out::Unwind => self.unwind_to(fr, *unwind, s, work, outs),
                        }
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let rs = self.retry(st, &mut |cx, s| {
                    let v = cx.operand(s, fr, cond)?;
                    let b = cx.as_bool(v)?;
                    let b = if *expected { b } else { b.not() };
                    cx.decide(s, &b)
                });
                for (mut s, ok) in rs.into_iter().rev() {
                    if ok { work.push((*target, s)); }
                    else {
                        let m = format!("{msg:?}");
                        self.panic(&mut s, &m);
                        self.unwind_to(fr, *unwind, s, work, outs);
                    }
                }
            }
            TerminatorKind::FalseEdge { real_target, .. } => work.push((*real_target, st)),
            TerminatorKind::FalseUnwind { real_target, .. } => work.push((*real_target, st)),
            _ => self.undecide(&st, format!("terminator {:?}", term.kind)),
        }
    }
    pub fn panic(&mut self, s: &mut State<'tcx>, m: &str) {
        s.log.push(Ev::Panic);
        if s.forbid_panic {
            let ok = s.infeasible();
            self.record(s, "no panic", ok, || format!("may panic: {m}"));
            self.flush();
        }
    }
}

pub fn cmp_lin(op: BinOp, x: &Lin, y: &Lin) -> BExp {
    let d = x.sub(y);
    (match op {
        BinOp::Eq => BExp::Eq(d),
        BinOp::Ne => BExp::Ne(d),
        BinOp::Lt => BExp::Ge(d.neg().addk(-1)),
        BinOp::Le => BExp::Ge(d.neg()),
        BinOp::Gt => BExp::Ge(d.addk(-1)),
        BinOp::Ge => BExp::Ge(d),
        _ => BExp::K(true),
    }).simp()
}

pub fn loop_heads(body: &Body<'_>) -> BTreeSet<BasicBlock> {
    let n = body.basic_blocks.len();
    let mut color = vec![0u8; n];
    let mut heads = BTreeSet::new();
    let mut stack: Vec<(BasicBlock, Vec<BasicBlock>, usize)> = vec![];
    let succ = |b: BasicBlock| -> Vec<BasicBlock> { body.basic_blocks[b].terminator().successors().collect() };
    color[0] = 1;
    stack.push((START_BLOCK, succ(START_BLOCK), 0));
    while let Some((b, ss, i)) = stack.last_mut() {
        if *i >= ss.len() { color[b.index()] = 2; stack.pop(); continue; }
        let t = ss[*i]; *i += 1;
        match color[t.index()] {
            0 => { color[t.index()] = 1; let v = succ(t); stack.push((t, v, 0)); }
            1 => { heads.insert(t); }
            _ => {}
        }
    }
    heads
}

fn val_objs<'tcx>(v: &Val<'tcx>, out: &mut Vec<ObjId>) {
    match v {
        Val::Ptr(p) => out.push(p.obj),
        Val::Agg(v) | Val::Enum(_, v) => for x in v { val_objs(x, out) },
        Val::Rep(b) => val_objs(b, out),
        _ => {}
    }
}
/// locals whose value is not read again, at the start of each of these blocks
pub fn dead_at<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, body: &Body<'tcx>, bbs: &BTreeSet<BasicBlock>) -> BTreeMap<BasicBlock, Vec<Local>> {
    use rustc_mir_dataflow::Analysis;
    let mut r = BTreeMap::new();
    if bbs.is_empty() { return r; }
    let borrowed = rustc_mir_dataflow::impls::borrowed_locals(body);
    let mut c = rustc_mir_dataflow::impls::MaybeLiveLocals.iterate_to_fixpoint(tcx, body, None).into_results_cursor(body);
    for bb in bbs {
        c.seek_to_block_start(*bb);
        r.insert(*bb, body.local_decls.indices().filter(|l| !borrowed.contains(*l) && !c.get().contains(*l)).collect());
    }
    r
}
