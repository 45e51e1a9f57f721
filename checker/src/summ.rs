//! Summaries of the standard library: intrinsics, layouts, atomics, allocation, panics.
use crate::calls::Sum;
use crate::engine::*;
use crate::num::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Ty};
use rustc_middle::mir::BinOp;

impl<'tcx> Cx<'tcx> {
    pub fn summary(&mut self, st: State<'tcx>, did: DefId, name: &str, ga: GenericArgsRef<'tcx>, args: &[Val<'tcx>], tys: &[Ty<'tcx>], dty: Ty<'tcx>, fr: &Frame<'tcx>) -> Option<Outs<'tcx>> {
        let krate = self.tcx.crate_name(did.krate);
        if !matches!(krate.as_str(), "core" | "alloc" | "std" | "atomic_polyfill") { return None; }
        // diverging library functions: panics and aborts
        if dty.is_never() || self.fn_ret_never(did) {
            if name.contains("abort") { return Some(vec![]); }
            if !matches!(name, "FnOnce::call_once" | "FnMut::call_mut" | "Fn::call") && krate.as_str() != "atomic_polyfill" {
                if name.ends_with("unreachable_unchecked") {
                    let ok = st.infeasible();
                    self.record(&st, "memory safety", ok, || "unreachable_unchecked may be reached".to_string());
                    self.flush();
                    return Some(vec![]);
                }
                let path = self.tcx.def_path_str(did);
                if path.contains("panic") || path.contains("unwrap_failed") || path.contains("expect_failed") || path.contains("handle_alloc_error") || path.contains("capacity_overflow") || path.contains("slice_") || path.contains("intrinsics") || path.contains("fail") {
                    if path.contains("panic_nounwind") || path.contains("panic_cannot_unwind") || path.contains("panic_in_cleanup") { return Some(vec![]); }
                    let mut s = st;
                    self.panic(&mut s, name);
                    return Some(vec![(s, Out::Unwind)]);
                }
            }
        }
        // calls back into code
        match name {
            "intrinsics::const_eval_select" => {
                let f = args[2].clone();
                let mut a = vec![];
                match &args[0] { Val::Agg(v) => a.extend(v.clone()), Val::Zst => {}, v => a.push(v.clone()) }
                let ats: Vec<Ty<'tcx>> = match tys[0].kind() { ty::Tuple(t) => t.iter().collect(), _ => vec![] };
                return Some(self.call(st, f, a, ats, dty, fr));
            }
            "intrinsics::drop_in_place" | "ptr::drop_in_place" | "glue::drop_in_place" | "ptr::drop_glue" => {
                let p = self.as_ptr(args[0].clone())?;
                let t = self.norm(ga.type_at(0));
                return Some(self.drop_place(st, &p, t));
            }
            "mem::drop" => {
                let t = self.norm(ga.type_at(0));
                return Some(self.drop_value(st, args[0].clone(), t));
            }
            "*mut::drop_in_place" => {
                let p = self.as_ptr(args[0].clone())?;
                let t = self.norm(ga.type_at(0));
                return Some(self.drop_place(st, &p, t));
            }
            _ => {}
        }
        let mut recognised = true;
        let outs = self.retry(st.clone(), &mut |cx, s| {
            match cx.simple(s, did, name, ga, args, tys, dty)? {
                Sum::No => { recognised = false; Err(Stop::Dead) }
                Sum::V(v) => Ok(Out::Ret(v)),
                Sum::Panic(m) => { cx.panic(s, &m); Ok(Out::Unwind) }
            }
        });
        if recognised { Some(outs) } else { None }
    }
    fn fn_ret_never(&self, did: DefId) -> bool {
        if !matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) { return false; }
        self.tcx.fn_sig(did).instantiate_identity().skip_norm_wip().output().skip_binder().is_never()
    }
    pub fn drop_value(&mut self, st: State<'tcx>, v: Val<'tcx>, t: Ty<'tcx>) -> Outs<'tcx> {
        let mut st = st;
        let (sz, al) = self.size_align(t);
        let o = self.new_obj(&mut st, ObjKind::Local, "dropped", Some(sz), al);
        let p = Ptr { obj: o, off: Lin::k(0), meta: Meta::None };
        let mut outs = vec![];
        for (s, ()) in self.retry(st, &mut |cx, s| cx.store(s, &p, t, v.clone())) {
            for (mut s, o2) in self.drop_place(s, &p, t) { s.objs.remove(&o); outs.push((s, o2)); }
        }
        outs
    }
    fn layout_of_val(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>) -> R<(Lin, Lin)> {
        match v {
            Val::Agg(f) if f.len() == 2 => { let s = self.as_int(st, f[0].clone())?; let a = self.as_int(st, f[1].clone())?; Ok((s, a)) }
            Val::Ptr(p) => {
                let lt = self.layout_ty();
                let v = self.load(st, &p.clone(), lt)?;
                match v { Val::Agg(_) => self.layout_of_val(st, &v), v => Err(Stop::Undecided(format!("layout {v:?}"))) }
            }
            v => Err(Stop::Undecided(format!("layout {v:?}"))),
        }
    }
    pub fn layout_ty(&self) -> Ty<'tcx> { self.layout_ty_cache.expect("Layout type") }
    pub fn some(&self, v: Val<'tcx>) -> Val<'tcx> { Val::Enum(1, vec![v]) }
    pub fn none(&self) -> Val<'tcx> { Val::Enum(0, vec![]) }
    pub fn ok(&self, v: Val<'tcx>) -> Val<'tcx> { Val::Enum(0, vec![v]) }
    pub fn err(&self, v: Val<'tcx>) -> Val<'tcx> { Val::Enum(1, vec![v]) }
    fn mk_layout(&self, s: Lin, a: Lin) -> Val<'tcx> { Val::Agg(vec![Val::Int(s), Val::Int(a)]) }
    fn err_ty_val(&self, dty: Ty<'tcx>) -> Val<'tcx> {
        // Result<_, ZST error>
        if let ty::Adt(_, a) = dty.kind() { if a.len() > 1 { let t = a.type_at(1); return self.zst_val(t).unwrap_or(Val::Zst); } }
        Val::Zst
    }
    fn layout_valid(&self, s: &Lin, a: &Lin) -> BExp {
        // size rounded up to align must not exceed isize::MAX
        BExp::Ge(Lin::k(ISIZE_MAX + 1).sub(a).sub(s))
    }
    /// is the integer a power of two? (decided, or both cases)
    fn pow2_case(&mut self, s: &mut State<'tcx>, l: &Lin) -> R<(bool, Lin)> {
        if is_pow2(l) { return Ok((true, l.clone())); }
        if let Some(c) = l.as_const() { return Ok((c > 0 && c & (c - 1) == 0, l.clone())); }
        if let Some(p) = s.facts.ge.iter().find_map(|f| { let d = f.add(l); if let Some(x) = d.as_sym() { if is_pow2(&Lin::s(x)) && s.facts.entails_eq(&d.sub(l)) { return Some(d) } } None }) { return Ok((true, p)); }
        if self.choose(2)? == 0 {
            let p = fresh_raw("pow2");
            range(p, 1, 1i128 << 63); set_pow2(p);
            s.facts.add_eq(Lin::s(p).sub(l));
            if s.facts.contradicts(&[l.sub(l)]) { return Err(Stop::Dead); }
            // prefer the power-of-two symbol from now on
            Ok((true, Lin::s(p)))
        } else { Ok((false, l.clone())) }
    }
    fn simple(&mut self, s: &mut State<'tcx>, did: DefId, name: &str, ga: GenericArgsRef<'tcx>, args: &[Val<'tcx>], tys: &[Ty<'tcx>], dty: Ty<'tcx>) -> R<Sum<'tcx>> {
        use Sum::*;
        let tcx = self.tcx;
        let unit = Val::Zst;
        let ty0 = |cx: &Self| cx.norm(ga.types().next().expect("type argument"));
        let usz = tcx.types.usize;
        macro_rules! int { ($i:expr) => { self.as_int(s, args[$i].clone())? } }
        macro_rules! ptr { ($i:expr) => { match self.as_ptr(args[$i].clone()) { Some(p) => p, None => return Err(Stop::Undecided(format!("{name}: pointer expected, got {:?}", args[$i]))) } } }
        if name.starts_with("Layout::") || name == "<Layout as PartialEq>::eq" || name == "<Layout as Clone>::clone" { return self.layout_fn(s, name, ga, args, tys, dty); }
        if name.starts_with("Atomic::") || name.starts_with("AtomicUsize::") || name.starts_with("AtomicBool::") { return self.atomic_fn(s, name, args, dty); }
        if name.starts_with("Vec::") || name.starts_with("VecDeque::") { return Ok(match self.vec_fn(s, name, args, tys)? { Some(v) => V(v), None => No }); }
        Ok(match name {
            "mem::size_of" | "intrinsics::size_of" => V(Val::Int(self.size_of(ty0(self)))),
            "mem::align_of" | "intrinsics::align_of" | "intrinsics::min_align_of" | "mem::min_align_of" => V(Val::Int(self.align_of(ty0(self)))),
            "mem::size_of_val" | "intrinsics::size_of_val" | "mem::size_of_val_raw" => { let p = ptr!(0); let t = ty0(self); V(Val::Int(self.size_of_val(t, &p.meta).0)) }
            "mem::align_of_val" | "intrinsics::align_of_val" | "mem::align_of_val_raw" | "intrinsics::min_align_of_val" => { let p = ptr!(0); let t = ty0(self); V(Val::Int(self.size_of_val(t, &p.meta).1)) }
            "mem::needs_drop" | "intrinsics::needs_drop" => {
                let t = ty0(self);
                if !t.needs_drop(tcx, self.tenv) { V(Val::Bool(BExp::K(false))) }
                else if ty::TypeVisitableExt::has_param(&t) {
                    let (y, new) = intern(SymKind::Named(format!("needs_drop<{t}>")));
                    if new { range(y, 0, 1); }
                    V(Val::Bool(BExp::Ge(Lin::s(y).addk(-1))))
                } else { V(Val::Bool(BExp::K(true))) }
            }
            "mem::forget" | "intrinsics::forget" => V(unit),
            "intrinsics::black_box" | "hint::black_box" | "intrinsics::likely" | "intrinsics::unlikely" => V(args[0].clone()),
            "intrinsics::cold_path" | "intrinsics::assert_inhabited" | "intrinsics::assert_zero_valid" | "intrinsics::assert_mem_uninitialized_valid" | "hint::spin_loop" | "hint::cold_path" | "intrinsics::breakpoint" => V(unit),
            "intrinsics::assume" | "hint::assert_unchecked" => {
                let b = self.as_bool(args[0].clone())?;
                let ok = s.entails(&b) || s.infeasible();
                self.record(s, "memory safety", ok, || format!("assumption may be wrong: {}", b.show()));
                if !ok { self.assume_split(s, &b)?; }
                V(unit)
            }
            "intrinsics::ub_checks" | "ub_checks::check_language_ub" | "ub_checks::check_library_ub" | "intrinsics::contract_checks" => V(Val::Bool(BExp::K(false))),
            "intrinsics::overflow_checks" => V(Val::Bool(BExp::K(self.overflow_checks))),
            "intrinsics::is_val_statically_known" => V(Val::Bool(BExp::K(false))),
            "intrinsics::caller_location" | "Location::caller" => { let o = self.new_obj(s, ObjKind::Const, "location", None, Lin::k(1)); V(Val::Ptr(Ptr { obj: o, off: Lin::k(0), meta: Meta::None })) }
            "intrinsics::type_id" | "TypeId::of" => {
                let t = ty0(self);
                let k = (INT, Lin::k(7), format!("typeid {}", self.tyname(t)));
                let id = match self.children.get(&k) { Some(i) => *i, None => { let i = self.new_tok(dty, "typeid"); self.children.insert(k, i); i } };
                V(Val::Tok(Tok { id, idx: Lin::k(0) }))
            }
            "intrinsics::discriminant_value" => {
                let p = ptr!(0); let t = ty0(self);
                match t.kind() { ty::Adt(d, _) if d.is_enum() => match self.load_discr(s, &p, t)? {
                        Some(v) => V(Val::Int(Lin::k(d.discriminant_for_variant(tcx, rustc_abi::VariantIdx::from_u32(v)).val as i128))),
                        None => return Err(Stop::Undecided("discriminant".into())) },
                    _ => V(Val::Int(Lin::k(0))) }
            }
            "intrinsics::transmute" | "intrinsics::transmute_unchecked" | "mem::transmute" | "mem::transmute_copy_val" => { let f = tys[0]; V(self.transmute(s, args[0].clone(), f, dty)?) }
            "intrinsics::read_via_copy" | "ptr::read" | "*const::read" | "*mut::read" | "intrinsics::volatile_load" | "ptr::read_volatile" | "NonNull::read" => {
                let p = ptr!(0); let t = ty0(self);
                self.check_access(s, &p, t, "read")?;
                V(self.load(s, &p, t)?)
            }
            "ptr::read_unaligned" | "*const::read_unaligned" | "*mut::read_unaligned" => {
                let p = ptr!(0); let t = ty0(self);
                let sz = self.size_of(t);
                self.check_range(s, &p, &sz, &Lin::k(1), "read")?;
                V(self.load(s, &p, t)?)
            }
            "intrinsics::write_via_move" | "ptr::write" | "*mut::write" | "intrinsics::volatile_store" | "ptr::write_volatile" | "NonNull::write" => {
                let p = ptr!(0); let t = ty0(self);
                self.check_access(s, &p, t, "write")?;
                self.store(s, &p, t, args[1].clone())?;
                V(unit)
            }
            "ptr::write_unaligned" | "*mut::write_unaligned" => {
                let p = ptr!(0); let t = ty0(self);
                let sz = self.size_of(t);
                self.check_range(s, &p, &sz, &Lin::k(1), "write")?;
                self.store(s, &p, t, args[1].clone())?;
                V(unit)
            }
            "mem::replace" => {
                let p = ptr!(0); let t = ty0(self);
                self.check_access(s, &p, t, "replace")?;
                let v = self.load(s, &p, t)?;
                self.store(s, &p, t, args[1].clone())?;
                V(v)
            }
            "Cell::swap" if matches!((&args[0], &args[1]), (Val::Ptr(p), Val::Ptr(q)) if p.obj != q.obj || p.off == q.off) => {
                let p = ptr!(0); let q = ptr!(1); let t = ty0(self);
                self.check_access(s, &p, t, "swap")?; self.check_access(s, &q, t, "swap")?;
                let v = self.load(s, &p, t)?; let w = self.load(s, &q, t)?;
                self.store(s, &p, t, w)?; self.store(s, &q, t, v)?;
                V(unit)
            }
            "mem::swap" | "intrinsics::typed_swap_nonoverlapping" => {
                let p = ptr!(0); let q = ptr!(1); let t = ty0(self);
                self.check_access(s, &p, t, "swap")?; self.check_access(s, &q, t, "swap")?;
                let v = self.load(s, &p, t)?; let w = self.load(s, &q, t)?;
                self.store(s, &p, t, w)?; self.store(s, &q, t, v)?;
                V(unit)
            }
            "intrinsics::offset" | "intrinsics::arith_offset" | "*const::add" | "*mut::add" | "NonNull::add" | "*const::offset" | "*mut::offset" | "*mut::wrapping_add" | "*const::wrapping_add" | "*const::wrapping_offset" | "*mut::wrapping_offset" | "NonNull::offset" |
            "*const::sub" | "*mut::sub" | "NonNull::sub" | "*mut::wrapping_sub" | "*const::wrapping_sub" |
            "*const::byte_add" | "*mut::byte_add" | "*const::byte_sub" | "*mut::byte_sub" | "NonNull::byte_add" | "NonNull::byte_sub" | "*mut::wrapping_byte_add" | "*const::wrapping_byte_add" => {
                let p = ptr!(0); let n = int!(1);
                let pt = if name.starts_with("intrinsics") { self.pointee(tys[0]).unwrap_or(ty0(self)) } else { ty0(self) };
                let bytes = if name.contains("byte_") { n } else { let es = self.size_of(pt); mul(&n, &es) };
                let bytes = if name.contains("sub") { bytes.neg() } else { bytes };
                let inb = !(name.contains("wrapping") || name.contains("arith"));
                let q = self.ptr_offset(s, p, &bytes, inb)?;
                let r = if name.starts_with("NonNull") { self.wrap_ptr(dty, q) } else { Val::Ptr(q) };
                V(r)
            }
            "*const::offset_from" | "*mut::offset_from" | "intrinsics::ptr_offset_from" | "intrinsics::ptr_offset_from_unsigned" | "*const::offset_from_unsigned" | "*mut::offset_from_unsigned" | "*const::byte_offset_from" | "*mut::byte_offset_from" | "NonNull::offset_from" | "NonNull::offset_from_unsigned" | "*const::byte_offset_from_unsigned" | "*mut::byte_offset_from_unsigned" => {
                let p = ptr!(0); let q = ptr!(1);
                let d = if p.obj == q.obj { p.off.sub(&q.off) } else { self.addr(&p).sub(&self.addr(&q)) };
                let es = if name.contains("byte_") { Lin::k(1) } else { self.size_of(ty0(self)) };
                let r = match self.index_of(&s.facts, &d, &es) { Some(i) => i, None => div(&d, &es) };
                V(Val::Int(r))
            }
            "*const::align_offset" | "*mut::align_offset" | "NonNull::align_offset" | "ptr::align_offset" => {
                let p = ptr!(0); let a = int!(1);
                let (is, a) = self.pow2_case(s, &a)?;
                if !is { return Ok(Panic("align_offset: align is not a power of two".into())); }
                let es = self.size_of(ty0(self));
                let ad = self.addr(&p);
                if es.as_const() == Some(1) { V(Val::Int(align_off(&ad, &a))) }
                else {
                    // number of elements to skip, or usize::MAX when there is none
                    if self.decide(s, &BExp::Div(ad.clone(), a.clone()))? { return Ok(V(Val::Int(Lin::k(0)))); }
                    let r = self.fresh_int(usz, "align_offset");
                    V(Val::Int(r))
                }
            }
            "*const::is_aligned_to" | "*mut::is_aligned_to" => { let p = ptr!(0); let a = int!(1); let (_, a) = self.pow2_case(s, &a)?; let ad = self.addr(&p); V(Val::Bool(BExp::Eq(align_off(&ad, &a)))) }
            "*const::is_aligned" | "*mut::is_aligned" => { let p = ptr!(0); let a = self.align_of(ty0(self)); let ad = self.addr(&p); V(Val::Bool(BExp::Eq(align_off(&ad, &a)))) }
            "*const::is_null" | "*mut::is_null" => {
                let p = ptr!(0);
                V(Val::Bool(match p.obj { NULL => BExp::Eq(p.off.clone()).simp(), INT => BExp::Eq(p.off.clone()).simp(), _ => { let a = self.addr(&p); if p.off.is_zero() { BExp::K(false) } else {
                    // inside (or one past) its object a pointer is never null
                    let sz = s.objs.get(&p.obj).and_then(|o| o.size.clone());
                    if let Some(sz) = sz { if s.entails(&BExp::And(vec![BExp::Ge(p.off.clone()), BExp::Ge(sz.sub(&p.off))])) { BExp::K(false) } else { BExp::Eq(a) } } else { BExp::K(false) } } } }))
            }
            "ptr::null" | "ptr::null_mut" => V(Val::Ptr(Ptr { obj: NULL, off: Lin::k(0), meta: Meta::None })),
            "*const::addr" | "*mut::addr" | "*const::expose_provenance" | "*mut::expose_provenance" => { let p = ptr!(0); V(Val::Int(self.addr(&p))) }
            "NonNull::addr" => { let p = ptr!(0); let a = self.addr(&p); V(self.wrap_int_val(dty, a)) }
            "*const::with_addr" | "*mut::with_addr" => {
                let p = ptr!(0); let a = int!(1);
                if p.obj <= INT { V(Val::Ptr(self.int_ptr(a, p.meta))) } else { let base = self.addr(&Ptr { obj: p.obj, off: Lin::k(0), meta: Meta::None }); V(Val::Ptr(Ptr { obj: p.obj, off: a.sub(&base), meta: p.meta })) }
            }
            "ptr::without_provenance" | "ptr::without_provenance_mut" => { let a = int!(0); V(Val::Ptr(self.int_ptr(a, Meta::None))) }
            "ptr::dangling" | "ptr::dangling_mut" => { let a = self.align_of(ty0(self)); V(Val::Ptr(self.int_ptr(a, Meta::None))) }
            "NonNull::dangling" | "Unique::dangling" => { let a = self.align_of(ty0(self)); let p = self.int_ptr(a, Meta::None); V(self.wrap_ptr(dty, p)) }
            "ptr::with_exposed_provenance" | "ptr::with_exposed_provenance_mut" => { let a = int!(0); V(Val::Ptr(self.int_to_ptr(s, a))) }
            "intrinsics::copy" | "intrinsics::copy_nonoverlapping" | "ptr::copy" | "ptr::copy_nonoverlapping" => {
                let (a, b, n) = (ptr!(0), ptr!(1), int!(2)); let t = ty0(self);
                self.copy_mem(s, &b, &a, &n, t, name.ends_with("nonoverlapping"))?; V(unit)
            }
            "*const::copy_to" | "*mut::copy_to" | "*const::copy_to_nonoverlapping" | "*mut::copy_to_nonoverlapping" => {
                let (a, b, n) = (ptr!(0), ptr!(1), int!(2)); let t = ty0(self);
                self.copy_mem(s, &b, &a, &n, t, name.ends_with("nonoverlapping"))?; V(unit)
            }
            "*mut::copy_from" | "*mut::copy_from_nonoverlapping" => {
                let (b, a, n) = (ptr!(0), ptr!(1), int!(2)); let t = ty0(self);
                self.copy_mem(s, &b, &a, &n, t, name.ends_with("nonoverlapping"))?; V(unit)
            }
            "intrinsics::write_bytes" | "ptr::write_bytes" | "*mut::write_bytes" => {
                let (p, b, n) = (ptr!(0), int!(1), int!(2)); let t = ty0(self);
                let (es, al) = self.size_align(t);
                let bytes = mul(&n, &es);
                self.fill_mem(s, &p, &b, &bytes, &al)?; V(unit)
            }
            "intrinsics::aggregate_raw_ptr" | "metadata::from_raw_parts" | "metadata::from_raw_parts_mut" | "ptr::from_raw_parts" => {
                let mut p = ptr!(0);
                let pt = self.pointee(dty).unwrap();
                p.meta = if pt.is_sized(tcx, self.tenv) { Meta::None } else { self.meta_from_val(&args[1], &p, pt) };
                V(Val::Ptr(p))
            }
            "ptr::slice_from_raw_parts" | "ptr::slice_from_raw_parts_mut" => { let mut p = ptr!(0); let n = int!(1); self.set_raw(s, &p); p.meta = Meta::Len(n); V(Val::Ptr(p)) }
            "NonNull::slice_from_raw_parts" => { let mut p = ptr!(0); let n = int!(1); self.set_raw(s, &p); p.meta = Meta::Len(n); V(self.wrap_ptr(dty, p)) }
            "raw::from_raw_parts" | "raw::from_raw_parts_mut" | "slice::from_raw_parts" | "slice::from_raw_parts_mut" => {
                let mut p = ptr!(0); let n = int!(1); let t = ty0(self);
                self.set_raw(s, &p);
                p.meta = Meta::Len(n);
                let sl = Ty::new_slice(tcx, t);
                self.check_access(s, &p, sl, "slice reference")?;
                V(Val::Ptr(p))
            }
            "intrinsics::ptr_metadata" | "metadata::metadata" => { let t = tys[0]; V(self.ptr_metadata(&args[0], t, dty)) }
            "[]::len" | "*mut::len" | "*const::len" | "NonNull::len" | "str::len" => { let p = ptr!(0); match p.meta { Meta::Len(n) => V(Val::Int(n)), _ => return Ok(No) } }
            "[]::is_empty" | "str::is_empty" => { let p = ptr!(0); match p.meta { Meta::Len(n) => V(Val::Bool(BExp::Eq(n).simp())), _ => return Ok(No) } }
            "[]::as_ptr" | "[]::as_mut_ptr" | "str::as_ptr" | "str::as_mut_ptr" | "*mut::as_mut_ptr" | "*const::as_ptr" | "NonNull::as_mut_ptr" => { let mut p = ptr!(0); self.set_raw(s, &p); p.meta = Meta::None; V(Val::Ptr(p)) }
            "str::as_bytes" | "str::as_bytes_mut" => V(args[0].clone()),
            "converts::from_utf8_unchecked" | "converts::from_utf8_unchecked_mut" | "str::from_utf8_unchecked" | "str::from_utf8_unchecked_mut" => V(args[0].clone()),
            "NonNull::new_unchecked" => { let p = ptr!(0);
                if p.obj == NULL && p.off.is_zero() { let ok = s.infeasible(); self.record(s, "memory safety", ok, || "NonNull made from a null pointer".to_string()); return Err(Stop::Dead); }
                if p.obj == INT && !s.entails(&BExp::Ge(p.off.clone().addk(-1))) { let ok = s.infeasible(); self.record(s, "memory safety", ok, || format!("NonNull made from an address ({}) that may be null", show(&p.off))); return Err(Stop::Dead); }
                V(self.wrap_ptr(dty, p)) }
            "NonNull::as_ptr" | "NonNull::cast" | "*mut::cast" | "*const::cast" | "*mut::cast_const" | "*const::cast_mut" | "NonNull::as_non_null_ptr" | "Unique::as_ptr" | "*mut::cast_slice" => {
                let mut p = ptr!(0);
                let (a, b) = (self.inner_pointee(tys[0]), self.inner_pointee(dty));
                if let (Some(a), Some(b)) = (a, b) { if a != b { self.set_raw(s, &p); } if b.is_sized(tcx, self.tenv) { p.meta = Meta::None; } }
                V(self.wrap_ptr(dty, p))
            }
            "<NonNull as PartialEq>::eq" | "<NonNull as PartialEq>::ne" => {
                let (p, q) = (ptr!(0), ptr!(1));
                let t = self.pointee(tys[0]).unwrap();
                let a = self.load(s, &p, t)?; let b = self.load(s, &q, t)?;
                let (Some(a), Some(b)) = (self.as_ptr(a), self.as_ptr(b)) else { return Err(Stop::Undecided("NonNull eq".into())) };
                let e = self.ptr_eq(s, &a, &b);
                V(Val::Bool(if name.ends_with("eq") { e } else { e.not() }))
            }
            "ptr::eq" | "ptr::addr_eq" => { let (mut p, mut q) = (ptr!(0), ptr!(1)); if name.ends_with("addr_eq") { p.meta = Meta::None; q.meta = Meta::None; } let e = self.ptr_eq(s, &p, &q); V(Val::Bool(e)) }
            // integers
            "usize::is_power_of_two" => { let x = int!(0); let (b, _) = self.pow2_case(s, &x)?; V(Val::Bool(BExp::K(b))) }
            "usize::saturating_sub" | "intrinsics::saturating_sub" => { let (x, y) = (int!(0), int!(1)); if self.decide(s, &BExp::Ge(x.sub(&y)))? { V(Val::Int(x.sub(&y))) } else { V(Val::Int(Lin::k(0))) } }
            "usize::saturating_add" | "intrinsics::saturating_add" => { let (x, y) = (int!(0), int!(1)); if self.decide(s, &BExp::Ge(Lin::k(USIZE_MAX).sub(&x).sub(&y)))? { V(Val::Int(x.add(&y))) } else { V(Val::Int(Lin::k(USIZE_MAX))) } }
            "usize::saturating_mul" => { let (x, y) = (int!(0), int!(1)); let m = mul(&x, &y); if self.decide(s, &BExp::Ge(Lin::k(USIZE_MAX).sub(&m)))? { V(Val::Int(m)) } else { V(Val::Int(Lin::k(USIZE_MAX))) } }
            "usize::checked_add" | "usize::checked_sub" | "usize::checked_mul" => {
                let (x, y) = (int!(0), int!(1));
                let r = match name { "usize::checked_add" => x.add(&y), "usize::checked_sub" => x.sub(&y), _ => mul(&x, &y) };
                let b = if name == "usize::checked_sub" { BExp::Ge(r.clone()) } else { BExp::Ge(Lin::k(USIZE_MAX).sub(&r)) };
                if self.decide(s, &b)? { V(self.some(Val::Int(r))) } else { V(self.none()) }
            }
            "usize::wrapping_add" | "intrinsics::wrapping_add" => { let (x, y) = (int!(0), int!(1)); V(self.binop(s, BinOp::Add, Val::Int(x), Val::Int(y), tys[0], tys[1])?) }
            "usize::wrapping_sub" | "intrinsics::wrapping_sub" => { let (x, y) = (int!(0), int!(1)); V(self.binop(s, BinOp::Sub, Val::Int(x), Val::Int(y), tys[0], tys[1])?) }
            "usize::wrapping_mul" | "intrinsics::wrapping_mul" => { let (x, y) = (int!(0), int!(1)); V(self.binop(s, BinOp::Mul, Val::Int(x), Val::Int(y), tys[0], tys[1])?) }
            "usize::wrapping_neg" => { let x = int!(0); V(self.binop(s, BinOp::Sub, Val::Int(Lin::k(0)), Val::Int(x), usz, usz)?) }
            "intrinsics::add_with_overflow" | "usize::overflowing_add" => V(self.binop(s, BinOp::AddWithOverflow, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::sub_with_overflow" | "usize::overflowing_sub" => V(self.binop(s, BinOp::SubWithOverflow, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::mul_with_overflow" | "usize::overflowing_mul" => V(self.binop(s, BinOp::MulWithOverflow, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::unchecked_add" => V(self.binop(s, BinOp::AddUnchecked, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::unchecked_sub" => V(self.binop(s, BinOp::SubUnchecked, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::unchecked_mul" => V(self.binop(s, BinOp::MulUnchecked, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::unchecked_div" | "intrinsics::exact_div" => V(self.binop(s, BinOp::Div, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::unchecked_rem" => V(self.binop(s, BinOp::Rem, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "intrinsics::three_way_compare" => V(self.binop(s, BinOp::Cmp, args[0].clone(), args[1].clone(), tys[0], tys[1])?),
            "cmp::min" | "Ord::min" | "<usize as Ord>::min" if tys[0].is_integral() => { let (x, y) = (int!(0), int!(1)); if self.decide(s, &BExp::Ge(y.sub(&x)))? { V(Val::Int(x)) } else { V(Val::Int(y)) } }
            "cmp::max" | "Ord::max" | "<usize as Ord>::max" if tys[0].is_integral() => { let (x, y) = (int!(0), int!(1)); if self.decide(s, &BExp::Ge(y.sub(&x)))? { V(Val::Int(y)) } else { V(Val::Int(x)) } }
            "usize::div_ceil" | "usize::next_multiple_of" => {
                let (x, y) = (int!(0), int!(1));
                if name == "usize::next_multiple_of" && is_pow2(&y) { let r = x.add(&align_off(&x, &y)); let r = self.wrap_int(s, r, usz, true)?; return Ok(V(Val::Int(r))); }
                return Ok(No);
            }
            "usize::checked_next_multiple_of" => {
                let (x, y) = (int!(0), int!(1));
                if !is_pow2(&y) { return Ok(No); }
                let r = x.add(&align_off(&x, &y));
                if self.decide(s, &BExp::Ge(Lin::k(USIZE_MAX).sub(&r)))? { V(self.some(Val::Int(r))) } else { V(self.none()) }
            }
            // heap
            "alloc::alloc" | "alloc::alloc_zeroed" if self.tcx.crate_name(did.krate).as_str() != "core" => {
                let (sz, al) = self.layout_of_val(s, &args[0].clone())?;
                let p = self.alloc(s, &sz, &al, name.ends_with("zeroed"))?; V(Val::Ptr(p))
            }
            "alloc::dealloc" => { let p = ptr!(0); let (sz, al) = self.layout_of_val(s, &args[1].clone())?; self.dealloc(s, &p, &sz, &al)?; V(unit) }
            "intrinsics::atomic_fence" | "intrinsics::atomic_singlethreadfence" => V(unit),
            "intrinsics::atomic_load" | "intrinsics::atomic_store" | "intrinsics::atomic_xchg" | "intrinsics::atomic_xadd" | "intrinsics::atomic_xsub" | "intrinsics::atomic_cxchg" | "intrinsics::atomic_cxchgweak" if ty0(self) == usz => {
                let m = match name.rsplit("atomic_").next().unwrap() { "load" => "load", "store" => "store", "xchg" => "swap", "xadd" => "fetch_add", "xsub" => "fetch_sub", "cxchg" => "compare_exchange", _ => "compare_exchange_weak" };
                match self.atomic_fn(s, m, args, dty)? {
                    V(Val::Enum(i, f)) if m.starts_with("comp") => V(Val::Agg(vec![f[0].clone(), Val::Bool(BExp::K(i == 0))])),
                    r => r,
                }
            }
            "pause" => V(unit),
            "__rust_no_alloc_shim_is_unstable_v2" => V(unit),
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let (sz, al) = (int!(0), int!(1));
                let p = self.alloc(s, &sz, &al, name.ends_with("zeroed"))?; V(Val::Ptr(p))
            }
            "__rust_dealloc" => { let p = ptr!(0); let (sz, al) = (int!(1), int!(2)); self.dealloc(s, &p, &sz, &al)?; V(unit) }
            "intrinsics::box_new" | "boxed::box_new" => {
                let t = ty0(self);
                let (sz, al) = self.size_align(t);
                let fail = s.allow_alloc_fail; s.allow_alloc_fail = false;
                let p = self.alloc(s, &sz, &al, false)?;
                s.allow_alloc_fail = fail;
                self.store(s, &p, t, args[0].clone())?;
                let bt = dty;
                let v = match self.fresh_val(s, bt, "box", None)? { Val::Agg(mut v) => { let f0 = self.fields(bt, 0)[0]; v[0] = self.wrap_ptr(f0, p); Val::Agg(v) } v => v };
                V(v)
            }
            "<Global as Allocator>::allocate" | "<Global as Allocator>::allocate_zeroed" => {
                let (sz, al) = self.layout_of_val(s, &args[1].clone())?;
                let mut p = if sz.is_zero() || s.entails(&BExp::Eq(sz.clone())) { self.int_ptr(al.clone(), Meta::None) } else { self.alloc(s, &sz, &al, name.ends_with("zeroed"))? };
                if p.obj == NULL { let e = self.err_ty_val(dty); return Ok(V(self.err(e))); }
                p.meta = Meta::Len(sz);
                let nn = match dty.kind() { ty::Adt(_, a) => self.norm(a.type_at(0)), _ => dty };
                let w = self.wrap_ptr(nn, p);
                V(self.ok(w))
            }
            "<Global as Allocator>::deallocate" => { let p = ptr!(1); let (sz, al) = self.layout_of_val(s, &args[2].clone())?; self.dealloc(s, &p, &sz, &al)?; V(unit) }
            "MaybeUninit::zeroed" => {
                // an all-zero value: opaque
                V(Val::Undef)
            }
            "MaybeUninit::uninit" => V(Val::Undef),
            "intrinsics::compare_bytes" | "intrinsics::raw_eq" => { let b = self.fresh_int(tcx.types.i32, "memcmp"); if dty.is_bool() { V(Val::Bool(BExp::Eq(b))) } else { V(Val::Int(b)) } }
            "<Ordering as Clone>::clone" => return Ok(No),
            _ => return Ok(No),
        })
    }
    fn set_raw(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>) { if p.obj > INT && s.objs.contains_key(&p.obj) && !s.obj(p.obj).raw { s.obj_mut(p.obj).raw = true; } }
    pub fn inner_pointee(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match t.kind() {
            ty::Adt(_, a) if matches!(self.self_name(t).as_str(), "NonNull" | "Unique") => Some(self.norm(a.type_at(0))),
            _ => self.pointee(t),
        }
    }
    fn wrap_int_val(&self, t: Ty<'tcx>, l: Lin) -> Val<'tcx> {
        match t.kind() { ty::Adt(d, _) if d.is_struct() => { let fs = self.fields(t, 0); Val::Agg(fs.iter().map(|f| if self.is_zst(*f) { Val::Zst } else { self.wrap_int_val(*f, l.clone()) }).collect()) } _ => Val::Int(l) }
    }
    fn layout_fn(&mut self, s: &mut State<'tcx>, name: &str, ga: GenericArgsRef<'tcx>, args: &[Val<'tcx>], _tys: &[Ty<'tcx>], dty: Ty<'tcx>) -> R<Sum<'tcx>> {
        use Sum::*;
        let bad = |cx: &Self| V(cx.err(cx.err_ty_val(dty)));
        Ok(match name {
            "Layout::new" => { let t = self.norm(ga.type_at(0)); let (z, a) = self.size_align(t); V(self.mk_layout(z, a)) }
            "Layout::size" => { let (z, _) = self.layout_of_val(s, &args[0].clone())?; V(Val::Int(z)) }
            "Layout::align" => { let (_, a) = self.layout_of_val(s, &args[0].clone())?; V(Val::Int(a)) }
            "Layout::for_value" | "Layout::for_value_raw" => { let p = self.as_ptr(args[0].clone()).unwrap(); let t = self.norm(ga.type_at(0)); let (z, a) = self.size_of_val(t, &p.meta); V(self.mk_layout(z, a)) }
            "Layout::from_size_align" => {
                let z = self.as_int(s, args[0].clone())?; let a = self.as_int(s, args[1].clone())?;
                let (p, a) = self.pow2_case(s, &a)?;
                if !p { return Ok(bad(self)); }
                let v = self.layout_valid(&z, &a);
                if self.decide(s, &v)? { let l = self.mk_layout(z, a); V(self.ok(l)) } else { bad(self) }
            }
            "Layout::from_size_align_unchecked" => {
                let z = self.as_int(s, args[0].clone())?; let a = self.as_int(s, args[1].clone())?;
                let (p, a) = self.pow2_case(s, &a)?;
                let v = self.layout_valid(&z, &a);
                let ok = p && s.entails(&v);
                self.record(s, "memory safety", ok || s.infeasible(), || format!("invalid layout: size {} align {}", show(&z), show(&a)));
                if !ok { return Err(Stop::Dead); }
                V(self.mk_layout(z, a))
            }
            "Layout::array" => {
                let t = self.norm(ga.type_at(0)); let (z, a) = self.size_align(t);
                let n = self.as_int(s, args[0].clone())?;
                let b = mul(&n, &z);
                let v = BExp::Ge(Lin::k(ISIZE_MAX + 1).sub(&a).sub(&b));
                if self.decide(s, &v)? { let l = self.mk_layout(b, a); V(self.ok(l)) } else { bad(self) }
            }
            "Layout::align_to" => {
                let (z, a) = self.layout_of_val(s, &args[0].clone())?;
                let b = self.as_int(s, args[1].clone())?;
                let (p, b) = self.pow2_case(s, &b)?;
                if !p { return Ok(bad(self)); }
                let m = if self.decide(s, &BExp::Ge(a.sub(&b)))? { a } else { b };
                let v = self.layout_valid(&z, &m);
                if self.decide(s, &v)? { let l = self.mk_layout(z, m); V(self.ok(l)) } else { bad(self) }
            }
            "Layout::pad_to_align" => { let (z, a) = self.layout_of_val(s, &args[0].clone())?; let r = z.add(&align_off(&z, &a)); V(self.mk_layout(r, a)) }
            "Layout::padding_needed_for" => { let (z, _) = self.layout_of_val(s, &args[0].clone())?; let a = self.as_int(s, args[1].clone())?; V(Val::Int(align_off(&z, &a))) }
            "Layout::extend" => {
                let (z, a) = self.layout_of_val(s, &args[0].clone())?;
                let (z2, a2) = self.layout_of_val(s, &args[1].clone())?;
                let m = if self.decide(s, &BExp::Ge(a.sub(&a2)))? { a } else { a2.clone() };
                let off = z.add(&align_off(&z, &a2));
                let r = off.add(&z2);
                let v = self.layout_valid(&r, &m);
                if self.decide(s, &v)? { let l = self.mk_layout(r, m); V(self.ok(Val::Agg(vec![l, Val::Int(off)]))) } else { bad(self) }
            }
            "Layout::dangling" | "Layout::dangling_ptr" => { let (_, a) = self.layout_of_val(s, &args[0].clone())?; let p = self.int_ptr(a, Meta::None); V(self.wrap_ptr(dty, p)) }
            "<Layout as PartialEq>::eq" => {
                let (z, a) = self.layout_of_val(s, &args[0].clone())?; let (z2, a2) = self.layout_of_val(s, &args[1].clone())?;
                V(Val::Bool(BExp::And(vec![BExp::Eq(z.sub(&z2)).simp(), BExp::Eq(a.sub(&a2)).simp()])))
            }
            "<Layout as Clone>::clone" => { let (z, a) = self.layout_of_val(s, &args[0].clone())?; V(self.mk_layout(z, a)) }
            _ => return Ok(No),
        })
    }
    fn atomic_max(&self, s: &State<'tcx>, obj: ObjId) -> Option<Lin> {
        match s.ghost.get(&format!("amax{obj}")) { Some(Val::Int(l)) => Some(l.clone()), _ => None }
    }
    /// A value read from a shared atomic cell: anything the other threads may have left there.
    fn atomic_read(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, name: &str) -> Lin {
        let v = fresh_usize(name);
        if let Some(m) = self.atomic_max(s, p.obj) { s.facts.add_ge(m.sub(&v)); }
        self.seen(s, p, &v);
        v
    }
    fn seen(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, v: &Lin) {
        if !s.ghost.contains_key(&format!("amax{}", p.obj)) { return; }
        let mut hit = false;
        for e in &mut s.seen { if e.0 == p.obj && e.1 == p.off { s.facts.add_ge(v.sub(&e.2)); e.2 = v.clone(); hit = true; } }
        if !hit { s.seen.push((p.obj, p.off.clone(), v.clone())); }
    }
    fn atomic_fn(&mut self, s: &mut State<'tcx>, name: &str, args: &[Val<'tcx>], dty: Ty<'tcx>) -> R<Sum<'tcx>> {
        use Sum::*;
        let m = name.rsplit("::").next().unwrap();
        if m == "new" || m == "into_inner" || m == "get_mut" || m == "as_ptr" { return Ok(No); }
        let p = match self.as_ptr(args[0].clone()) { Some(p) => p, None => return Ok(No) };
        if !s.objs.contains_key(&p.obj) { return Ok(No); }
        let shared = s.ghost.contains_key(&format!("amax{}", p.obj));
        let usz = self.tcx.types.usize;
        if !shared {
            // exclusively owned: a plain cell
            let cur = self.load(s, &p, usz)?;
            return Ok(match m {
                "load" => V(cur),
                "store" => { self.store(s, &p, usz, args[1].clone())?; V(Val::Zst) }
                "swap" => { self.store(s, &p, usz, args[1].clone())?; V(cur) }
                "compare_exchange" | "compare_exchange_weak" => {
                    let c = self.as_int(s, cur.clone())?; let e = self.as_int(s, args[1].clone())?;
                    if self.decide(s, &BExp::Eq(c.sub(&e)))? { self.store(s, &p, usz, args[2].clone())?; V(self.ok(cur)) } else { V(self.err(cur)) }
                }
                "fetch_add" | "fetch_sub" => {
                    let c = self.as_int(s, cur.clone())?; let e = self.as_int(s, args[1].clone())?;
                    let r = if m == "fetch_add" { c.add(&e) } else { c.sub(&e) };
                    let r = self.wrap_int(s, r, usz, true)?;
                    self.store(s, &p, usz, Val::Int(r))?; V(cur)
                }
                _ => return Ok(No),
            });
        }
        let _ = dty;
        Ok(match m {
            "load" => {
                let v = self.atomic_read(s, &p, "loaded");
                let fk = format!("casfail{}:{}", p.obj, show(&p.off));
                if s.ghost.contains_key(&fk) { s.ghost.insert(fk, Val::Int(v.clone())); }
                s.log.push(Ev::Atomic { kind: "load", obj: p.obj, off: p.off.clone(), old: v.clone(), new: v.clone() });
                V(Val::Int(v))
            }
            "store" => {
                let v = self.as_int(s, args[1].clone())?;
                s.log.push(Ev::Atomic { kind: "store", obj: p.obj, off: p.off.clone(), old: Lin::k(-1), new: v });
                V(Val::Zst)
            }
            "compare_exchange" | "compare_exchange_weak" => {
                let e = self.as_int(s, args[1].clone())?; let n = self.as_int(s, args[2].clone())?;
                // a retry after a failure has to build on what was observed since
                let fk = format!("casfail{}:{}", p.obj, show(&p.off));
                if let Some(Val::Int(v)) = s.ghost.get(&fk).cloned() { if !s.entails(&BExp::Eq(v.sub(&e)).simp()) { s.ghost.insert("uninformed".into(), Val::Zst); } }
                if self.choose(2)? == 0 {
                    // the cell held the expected value
                    if let Some(mx) = self.atomic_max(s, p.obj) { if !s.assume(&BExp::Ge(mx.sub(&e))) { return Err(Stop::Dead); } }
                    self.seen(s, &p, &e);
                    if s.facts.contradicts(&[e.sub(&e)]) { return Err(Stop::Dead); }
                    s.log.push(Ev::Atomic { kind: "rmw", obj: p.obj, off: p.off.clone(), old: e.clone(), new: n.clone() });
                    for x in &mut s.seen { if x.0 == p.obj && x.1 == p.off { x.2 = n.clone(); } }
                    V(self.ok(Val::Int(e)))
                } else {
                    let v = self.atomic_read(s, &p, "observed");
                    if m == "compare_exchange" { if !s.assume(&BExp::Ne(v.sub(&e))) { return Err(Stop::Dead); } }
                    s.log.push(Ev::Atomic { kind: "load", obj: p.obj, off: p.off.clone(), old: v.clone(), new: v.clone() });
                    s.ghost.insert(fk, Val::Int(v.clone()));
                    V(self.err(Val::Int(v)))
                }
            }
            "swap" | "fetch_add" | "fetch_sub" | "fetch_max" | "fetch_min" => {
                let v = self.atomic_read(s, &p, "previous");
                let k = self.as_int(s, args[1].clone())?;
                let n = match m {
                    "swap" => k,
                    "fetch_add" => { let r = v.add(&k); self.wrap_int(s, r, usz, true)? }
                    "fetch_sub" => { let r = v.sub(&k); self.wrap_int(s, r, usz, true)? }
                    "fetch_max" => if self.decide(s, &BExp::Ge(v.sub(&k)))? { v.clone() } else { k },
                    _ => if self.decide(s, &BExp::Ge(k.sub(&v)))? { v.clone() } else { k },
                };
                s.log.push(Ev::Atomic { kind: "rmw", obj: p.obj, off: p.off.clone(), old: v.clone(), new: n.clone() });
                for x in &mut s.seen { if x.0 == p.obj && x.1 == p.off { x.2 = n.clone(); } }
                V(Val::Int(v))
            }
            _ => return Ok(No),
        })
    }
}
