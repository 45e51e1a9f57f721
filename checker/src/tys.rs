//! Sizes, alignments and field offsets of (generic) types as linear expressions.
use crate::engine::Cx;
use crate::num::*;
use rustc_abi::{FieldIdx, FieldsShape, VariantIdx, Variants};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Ty, TypeVisitableExt};

pub const MAX_ALIGN: i128 = 1 << 29;

impl<'tcx> Cx<'tcx> {
    pub fn tyname(&self, ty: Ty<'tcx>) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(format!("{ty}")) }
    pub fn layout(&self, ty: Ty<'tcx>) -> Option<TyAndLayout<'tcx>> {
        if let Some(l) = self.layouts.borrow().get(&ty) { return *l; }
        let r = self.tcx.layout_of(self.tenv.as_query_input(ty)).ok();
        self.layouts.borrow_mut().insert(ty, r);
        r
    }
    pub fn is_transparent(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() { ty::Adt(d, _) => d.repr().transparent(), _ => false }
    }
    /// The fields of a struct-like type (struct, tuple, closure, union)
    pub fn fields(&self, ty: Ty<'tcx>, variant: u32) -> Vec<Ty<'tcx>> {
        match ty.kind() {
            ty::Adt(d, args) => d.variant(VariantIdx::from_u32(variant)).fields.iter().map(|f| self.norm(f.ty(self.tcx, args).skip_norm_wip())).collect(),
            ty::Tuple(ts) => ts.iter().collect(),
            ty::Closure(_, args) => args.as_closure().upvar_tys().iter().map(|t| self.norm(t)).collect(),
            _ => vec![],
        }
    }
    /// the field that carries the value of a transparent wrapper / union
    pub fn main_field(&self, ty: Ty<'tcx>) -> Option<(usize, Ty<'tcx>)> {
        let fs = self.fields(ty, 0);
        let mut best = None;
        for (i, f) in fs.into_iter().enumerate() { if !self.is_zst(f) { best = Some((i, f)); } }
        best
    }
    pub fn is_zst(&self, ty: Ty<'tcx>) -> bool {
        if let Some(l) = self.layout(ty) { return l.is_zst(); }
        match ty.kind() {
            ty::Adt(d, _) if d.is_struct() => d.is_phantom_data() || self.fields(ty, 0).iter().all(|f| self.is_zst(*f)),
            ty::Tuple(_) => self.fields(ty, 0).iter().all(|f| self.is_zst(*f)),
            ty::FnDef(..) => true,
            _ => false,
        }
    }
    /// For a struct that can be unsized: its layout with an unsized tail of alignment 1. All fields are in
    /// the same places in every instance, the last one at the next multiple of its alignment.
    fn unsizable(&self, ty: Ty<'tcx>) -> Option<TyAndLayout<'tcx>> {
        let ty::Adt(d, args) = ty.kind() else { return None };
        if !d.is_struct() || d.repr().c() || self.is_transparent(ty) || d.repr().packed() { return None; }
        let last = d.non_enum_variant().fields.raw.last()?;
        let lt = self.tcx.type_of(last.did).instantiate_identity().skip_norm_wip();
        let env = ty::TypingEnv::post_analysis(self.tcx, d.did());
        if lt.is_sized(self.tcx, env) { return None; }
        let mut t = lt;
        while let ty::Adt(e, a) = t.kind() { if !e.is_struct() { return None; } t = e.non_enum_variant().fields.raw.last()?.ty(self.tcx, a).skip_norm_wip(); }
        let ty::Param(p) = t.kind() else { return None };
        let mut a: Vec<ty::GenericArg<'tcx>> = args.iter().collect();
        a[p.index as usize] = Ty::new_slice(self.tcx, self.tcx.types.u8).into();
        let u = Ty::new_adt(self.tcx, *d, self.tcx.mk_args(&a));
        self.layout(u).filter(|l| l.is_unsized())
    }
    pub fn size_of(&self, ty: Ty<'tcx>) -> Lin { self.size_align(ty).0 }
    pub fn align_of(&self, ty: Ty<'tcx>) -> Lin { self.size_align(ty).1 }
    pub fn size_align(&self, ty: Ty<'tcx>) -> (Lin, Lin) {
        if let Some(r) = self.sizes.borrow().get(&ty) { return r.clone(); }
        let r = self.size_align_inner(ty);
        self.sizes.borrow_mut().insert(ty, r.clone());
        r
    }
    fn sym_layout(&self, name: String) -> (Lin, Lin) {
        let (s, ns) = intern(SymKind::SizeOf(name.clone()));
        let (a, na) = intern(SymKind::AlignOf(name));
        if na { range(a, 1, MAX_ALIGN); set_pow2(a); }
        if ns { range(s, 0, ISIZE_MAX); div_axiom(s, Lin::s(s), Lin::s(a)); axiom(s, Lin::k(ISIZE_MAX + 1).sub(&Lin::s(s)).sub(&Lin::s(a))); }
        (Lin::s(s), Lin::s(a))
    }
    fn size_align_inner(&self, ty: Ty<'tcx>) -> (Lin, Lin) {
        if let Some(l) = self.layout(ty) {
            if !l.is_unsized() {
                return (Lin::k(l.size.bytes() as i128), Lin::k(l.align.abi.bytes() as i128));
            }
        }
        match ty.kind() {
            ty::Array(e, n) => {
                let (s, a) = self.size_align(*e);
                let n = self.const_usize(*n);
                return (mul(&s, &n), a);
            }
            ty::Slice(e) => return (Lin::k(0), self.align_of(*e)),
            ty::Str => return (Lin::k(0), Lin::k(1)),
            ty::Ref(..) | ty::RawPtr(..) => {
                // pointer to a possibly unsized parameter
                return self.sym_layout(self.tyname(ty));
            }
            ty::Adt(d, _) if d.is_struct() || d.is_union() => {
                if self.is_transparent(ty) {
                    return match self.main_field(ty) { Some((_, f)) => self.size_align(f), None => (Lin::k(0), Lin::k(1)) };
                }
            }
            _ => {}
        }
        let (s, a) = self.sym_layout(self.tyname(ty));
        let (ss, sa) = (s.as_sym().unwrap(), a.as_sym().unwrap());
        let structural = matches!(ty.kind(), ty::Tuple(_) | ty::Closure(..)) || matches!(ty.kind(), ty::Adt(d, _) if d.is_struct() || d.is_union() || d.is_enum());
        if structural {
            let nv = match ty.kind() { ty::Adt(d, _) if d.is_enum() => d.variants().len() as u32, _ => 1 };
            let c_repr = matches!(ty.kind(), ty::Adt(d, _) if d.is_struct() && d.repr().c());
            if let Some(l) = self.unsizable(ty) {
                let FieldsShape::Arbitrary { offsets, .. } = &l.fields else { unreachable!() };
                let fs = self.fields(ty, 0);
                let n = fs.len();
                axiom(sa, a.addk(-(l.align.abi.bytes() as i128)));
                for (i, f) in fs.into_iter().enumerate() {
                    let (fsz, fal) = self.size_align(f);
                    axiom(sa, a.sub(&fal));
                    let mut o = Lin::k(offsets[FieldIdx::from_usize(i)].bytes() as i128);
                    if i + 1 == n {
                        o = o.add(&align_off(&o, &fal));
                        if f.is_sized(self.tcx, self.tenv) {
                            let e = o.add(&fsz);
                            let r = e.add(&align_off(&e, &a));
                            axiom(ss, s.sub(&r)); axiom(ss, r.sub(&s));
                        }
                    }
                    self.offs.borrow_mut().insert((ty, 0, i as u32), o);
                }
            } else if c_repr {
                let fs = self.fields(ty, 0);
                let mut off = Lin::k(0);
                let n = fs.len();
                let mut unsized_tail = false;
                for (i, f) in fs.into_iter().enumerate() {
                    let (fsz, fal) = self.size_align(f);
                    off = off.add(&align_off(&off, &fal));
                    self.offs.borrow_mut().insert((ty, 0, i as u32), off.clone());
                    axiom(sa, a.sub(&fal));
                    if i + 1 == n && !f.is_sized(self.tcx, self.tenv) { unsized_tail = true; }
                    off = off.add(&fsz);
                }
                if !unsized_tail {
                    // size = round up(off, align)
                    let r = off.add(&align_off(&off, &a));
                    axiom(ss, s.sub(&r)); axiom(ss, r.sub(&s));
                }
            } else {
                for v in 0..nv { for f in self.fields(ty, v) { let fa = self.align_of(f); axiom(sa, a.sub(&fa)); let fs = self.size_of(f); axiom(ss, s.sub(&fs)); } }
                if nv == 1 {
                    let mut sum = Lin::k(0);
                    if !matches!(ty.kind(), ty::Adt(d, _) if d.is_union()) {
                        for f in self.fields(ty, 0) { sum = sum.add(&self.size_of(f)); }
                        axiom(ss, s.sub(&sum));
                    }
                }
            }
        }
        (s, a)
    }
    pub fn field_off(&self, ty: Ty<'tcx>, variant: u32, i: u32) -> Lin {
        if let Some(l) = self.layout(ty) {
            let off = match &l.variants {
                Variants::Multiple { variants, .. } => Some(variants[VariantIdx::from_u32(variant)].field_offsets[FieldIdx::from_u32(i)].bytes()),
                Variants::Single { index } if index.as_u32() == variant || !ty.is_enum() => match &l.fields {
                    FieldsShape::Arbitrary { offsets, .. } => Some(offsets[FieldIdx::from_u32(i)].bytes()),
                    FieldsShape::Union(_) => Some(0),
                    FieldsShape::Primitive => Some(0),
                    FieldsShape::Array { stride, .. } => Some(stride.bytes() * i as u64),
                },
                _ => None,
            };
            if let Some(o) = off { return Lin::k(o as i128); }
        }
        if let ty::Adt(d, _) = ty.kind() { if d.is_union() { return Lin::k(0); } }
        if let Some(o) = self.offs.borrow().get(&(ty, variant, i)) { return o.clone(); }
        let f = self.fields(ty, variant)[i as usize];
        if self.is_transparent(ty) { return Lin::k(0); }
        let (s, _a) = self.size_align(ty);
        if let Some(o) = self.offs.borrow().get(&(ty, variant, i)) { return o.clone(); }
        let (fs, fa) = self.size_align(f);
        let (o, new) = intern(SymKind::FieldOff(self.tyname(ty), variant, i));
        if new {
            range(o, 0, ISIZE_MAX);
            if f.is_sized(self.tcx, self.tenv) { axiom(o, s.sub(&fs).sub(&Lin::s(o))); } else { axiom(o, s.sub(&Lin::s(o))); }
            div_axiom(o, Lin::s(o), fa);
        }
        Lin::s(o)
    }
    pub fn const_usize(&self, c: ty::Const<'tcx>) -> Lin {
        if let Some(n) = c.try_to_target_usize(self.tcx) { return Lin::k(n as i128); }
        let (s, new) = intern(SymKind::Named(format!("{c}")));
        if new { range(s, 0, USIZE_MAX); }
        Lin::s(s)
    }
    pub fn norm<T: ty::TypeFoldable<ty::TyCtxt<'tcx>> + Copy>(&self, t: T) -> T {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if !t.has_aliases() { return t; }
        self.tcx.try_normalize_erasing_regions(self.tenv, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    pub fn int_range(&self, ty: Ty<'tcx>) -> Option<(i128, i128)> {
        Some(match ty.kind() {
            ty::Uint(u) => match u.bit_width() { Some(128) => (-(1i128 << 120), 1 << 120), Some(b) => (0, (1i128 << b) - 1), None => (0, USIZE_MAX) },
            ty::Int(u) => match u.bit_width() { Some(128) => (-(1i128 << 120), 1 << 120), Some(b) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1), None => (-(ISIZE_MAX + 1), ISIZE_MAX) },
            ty::Char => (0, 0x10ffff),
            ty::Bool => (0, 1),
            _ => return None,
        })
    }
}
