//! Growable library containers, modelled by length, capacity and contents in logical order.
use crate::engine::*;
use crate::num::*;
use crate::val::*;
use rustc_middle::ty::{self, Ty};

pub struct VecRef<'tcx> { pub id: u32, pub obj: ObjId, pub len: Lin, pub cap: Lin, pub elem: Ty<'tcx> }

impl<'tcx> Cx<'tcx> {
    pub fn is_vec_ty(&self, ty: Ty<'tcx>) -> bool { matches!(self.adt_path(ty).as_deref(), Some("alloc::vec::Vec" | "alloc::collections::vec_deque::VecDeque")) }
    pub fn vec_ref(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<VecRef<'tcx>> {
        let elem = match ty.kind() { ty::Adt(_, a) => self.norm(a.type_at(0)), _ => return Err(Stop::Undecided(format!("{ty} as a vector"))) };
        let Val::Tok(t) = self.load(s, p, ty)? else { return Err(Stop::Undecided("unknown vector".into())) };
        let (kl, kc) = (format!("vec{}.len", t.id), format!("vec{}.cap", t.id));
        let key = (INT, Lin::k(t.id as i128), "vec".to_string());
        let obj = match self.children.get(&key) { Some(o) => *o, None => { let o = self.next_obj; self.next_obj += 1; self.children.insert(key, o); o } };
        if let (Some(Val::Int(len)), Some(Val::Int(cap))) = (s.ghost.get(&kl).cloned(), s.ghost.get(&kc).cloned()) { return Ok(VecRef { id: t.id, obj, len, cap, elem }); }
        let (l, new) = intern(SymKind::Named(format!("len of vec{}", t.id)));
        if new { range(l, 0, USIZE_MAX); }
        let (c, new) = intern(SymKind::Named(format!("capacity of vec{}", t.id)));
        if new { range(c, 0, USIZE_MAX); }
        let (len, cap) = (Lin::s(l), Lin::s(c));
        let (es, al) = self.size_align(elem);
        s.assume(&BExp::Ge(cap.sub(&len)));
        s.assume(&BExp::Ge(mul(&cap, &es).neg().addk(ISIZE_MAX)));
        self.put_obj(s, obj, ObjKind::Ghost, "contents of a vector", None, al);
        s.obj_mut(obj).raw = true;
        let tk = self.new_tok(elem, "vector");
        self.seq_ids.borrow_mut().insert(tk);
        let hi = mul(&len, &es);
        s.obj_mut(obj).segs.push(Seg { lo: Lin::k(0), hi, what: SegVal::Seq { ty: elem, id: tk, start: Lin::k(0) } });
        s.ghost.insert(kl, Val::Int(len.clone()));
        s.ghost.insert(kc, Val::Int(cap.clone()));
        Ok(VecRef { id: t.id, obj, len, cap, elem })
    }
    pub fn vec_fn(&mut self, s: &mut State<'tcx>, name: &str, args: &[Val<'tcx>], tys: &[Ty<'tcx>]) -> R<Option<Val<'tcx>>> {
        let Some((_, m)) = name.split_once("::") else { return Ok(None) };
        let Some(p) = self.as_ptr(args[0].clone()) else { return Ok(None) };
        let Some(ty) = self.pointee(tys[0]) else { return Ok(None) };
        if !self.is_vec_ty(ty) { return Ok(None); }
        Ok(Some(match m {
            "len" => Val::Int(self.vec_ref(s, &p, ty)?.len),
            "capacity" => Val::Int(self.vec_ref(s, &p, ty)?.cap),
            "is_empty" => Val::Bool(BExp::Eq(self.vec_ref(s, &p, ty)?.len).simp()),
            "push" | "push_back" => {
                let v = self.vec_ref(s, &p, ty)?;
                if !self.decide(s, &BExp::Ge(v.cap.sub(&v.len).addk(-1)))? {
                    s.log.push(Ev::Note { name: "note reallocation".into(), args: vec![] });
                    let c = fresh_usize("new capacity");
                    s.assume(&BExp::Ge(c.sub(&v.len).addk(-1)));
                    s.ghost.insert(format!("vec{}.cap", v.id), Val::Int(c));
                }
                let es = self.size_of(v.elem);
                let q = Ptr { obj: v.obj, off: mul(&v.len, &es), meta: Meta::None };
                self.store(s, &q, v.elem, args[1].clone())?;
                s.ghost.insert(format!("vec{}.len", v.id), Val::Int(v.len.addk(1)));
                Val::Zst
            }
            _ => return Ok(None),
        }))
    }
}
