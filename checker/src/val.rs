//! Abstract values, memory objects and states.
use crate::num::*;
use rustc_middle::ty::Ty;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type ObjId = u32;
thread_local! { static TK: std::cell::RefCell<rustc_data_structures::fx::FxHashMap<usize, u32>> = Default::default(); }
/// stable (in order of first use) number of a type
pub fn tk(t: Ty<'_>) -> Option<u32> {
    use std::hash::{Hash, Hasher};
    let _ = |h: &mut std::collections::hash_map::DefaultHasher| { t.hash(h); h.finish() };
    let p = t.kind() as *const _ as usize;
    Some(TK.with(|m| { let mut m = m.borrow_mut(); let n = m.len() as u32; *m.entry(p).or_insert(n) }))
}
pub fn tk_reset() { TK.with(|m| m.borrow_mut().clear()) }
pub const NULL: ObjId = 0;
pub const INT: ObjId = 1;

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum BExp {
    K(bool),
    Ge(Lin), // >= 0
    Eq(Lin), // == 0
    Ne(Lin), // != 0
    Div(Lin, Lin), // multiple of
    NDiv(Lin, Lin),
    And(Vec<BExp>),
    Or(Vec<BExp>),
}
impl BExp {
    pub fn not(&self) -> BExp {
        match self {
            BExp::K(b) => BExp::K(!b),
            BExp::Ge(l) => BExp::Ge(l.neg().addk(-1)),
            BExp::Eq(l) => BExp::Ne(l.clone()),
            BExp::Ne(l) => BExp::Eq(l.clone()),
            BExp::Div(l, a) => BExp::NDiv(l.clone(), a.clone()),
            BExp::NDiv(l, a) => BExp::Div(l.clone(), a.clone()),
            BExp::And(v) => BExp::Or(v.iter().map(|x| x.not()).collect()),
            BExp::Or(v) => BExp::And(v.iter().map(|x| x.not()).collect()),
        }
    }
    pub fn and(a: BExp, b: BExp) -> BExp {
        match (a, b) {
            (BExp::K(false), _) | (_, BExp::K(false)) => BExp::K(false),
            (BExp::K(true), x) | (x, BExp::K(true)) => x,
            (x, y) => BExp::And(vec![x, y]),
        }
    }
    pub fn or(a: BExp, b: BExp) -> BExp { BExp::and(a.not(), b.not()).not() }
    pub fn simp(self) -> BExp {
        match &self {
            BExp::Ge(l) => if let Some(c) = l.as_const() { return BExp::K(c >= 0) },
            BExp::Eq(l) => if let Some(c) = l.as_const() { return BExp::K(c == 0) },
            BExp::Ne(l) => if let Some(c) = l.as_const() { return BExp::K(c != 0) },
            _ => {}
        }
        self
    }
    pub fn show(&self) -> String {
        match self {
            BExp::K(b) => b.to_string(),
            BExp::Ge(l) => {
                let pos = Lin { c: l.c.max(0), t: l.t.iter().filter(|x| x.1 > 0).cloned().collect() };
                let neg = pos.sub(l);
                format!("{} >= {}", crate::num::show(&pos), crate::num::show(&neg))
            }
            BExp::Eq(l) => {
                let pos = Lin { c: l.c.max(0), t: l.t.iter().filter(|x| x.1 > 0).cloned().collect() };
                let neg = pos.sub(l);
                format!("{} == {}", crate::num::show(&pos), crate::num::show(&neg))
            }
            BExp::Ne(l) => format!("not({})", BExp::Eq(l.clone()).show()),
            BExp::Div(l, a) => format!("({}) is a multiple of {}", crate::num::show(l), crate::num::show(a)),
            BExp::NDiv(l, a) => format!("({}) is not a multiple of {}", crate::num::show(l), crate::num::show(a)),
            BExp::And(v) => format!("({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" && ")),
            BExp::Or(v) => format!("({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" || ")),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Meta<'tcx> {
    None,
    Len(Lin),
    /// opaque metadata (of an unsized type parameter)
    Tok(u32),
    VTable(Ty<'tcx>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ptr<'tcx> { pub obj: ObjId, pub off: Lin, pub meta: Meta<'tcx> }

/// An opaque value; `idx` distinguishes elements of a sequence.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tok { pub id: u32, pub idx: Lin }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val<'tcx> {
    Int(Lin),
    Bool(BExp),
    Ptr(Ptr<'tcx>),
    Tok(Tok),
    Agg(Vec<Val<'tcx>>),
    Enum(u32, Vec<Val<'tcx>>),
    /// an array all of whose elements are equal
    Rep(Box<Val<'tcx>>),
    Fn(Ty<'tcx>),
    Zst,
    Undef,
}
impl<'tcx> Val<'tcx> {
    pub fn has_undef(&self) -> bool {
        match self { Val::Undef => true, Val::Agg(v) | Val::Enum(_, v) => v.iter().any(|x| x.has_undef()), Val::Rep(b) => b.has_undef(), _ => false }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ObjKind { Null, Int, Local, Heap, Ext, Const, Ghost }

/// Content of a byte range.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SegVal<'tcx> {
    /// elements of a type: opaque sequence, first element has index `start`
    Seq { ty: Ty<'tcx>, id: u32, start: Lin },
    Zero,
    /// bytes whose content is the one `src` had at the time `ver` (opaque version)
    Undef,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seg<'tcx> { pub lo: Lin, pub hi: Lin, pub what: SegVal<'tcx> }

#[derive(Clone, Debug)]
pub struct Obj<'tcx> {
    pub kind: ObjKind,
    pub name: String,
    pub size: Option<Lin>,
    pub align: Lin,
    pub cells: BTreeMap<(Lin, Option<u32>), (Ty<'tcx>, Val<'tcx>)>,
    pub segs: Vec<Seg<'tcx>>,
    pub alive: bool,
    pub lazy: bool,
    /// accessed with differing types: overlap has to be decided numerically
    pub raw: bool,
    /// bytes that were moved out / overwritten in a lazy object (not to be materialised again)
    pub killed: Vec<(Lin, Lin)>,
    /// shared with other threads / re-entrant code
    pub shared: bool,
    pub ty: Option<Ty<'tcx>>,
    pub heap: Option<(Lin, Lin, u32)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev<'tcx> {
    Atomic { kind: &'static str, obj: ObjId, off: Lin, old: Lin, new: Lin },
    Drop { ty: Ty<'tcx>, tok: Tok, obj: ObjId, off: Lin },
    /// drop of `n` elements starting with tok
    DropSeq { ty: Ty<'tcx>, tok: Tok, n: Lin },
    Write { obj: ObjId, off: Lin, size: Lin },
    Copy { dst: Ptr<'tcx>, src: Ptr<'tcx>, size: Lin },
    Fill { dst: Ptr<'tcx>, byte: Lin, size: Lin },
    User { name: String, args: Vec<Val<'tcx>>, ret: Val<'tcx> },
    Alloc { obj: ObjId, size: Lin, align: Lin },
    Dealloc { obj: ObjId, off: Lin, size: Lin, align: Lin },
    Note { name: String, args: Vec<Val<'tcx>> },
    Panic,
}

#[derive(Clone, Debug)]
pub struct Trail { pub at: String, pub prev: Option<Rc<Trail>> }

#[derive(Clone)]
pub struct State<'tcx> {
    pub objs: BTreeMap<ObjId, Rc<Obj<'tcx>>>,
    pub facts: Facts,
    pub log: Vec<Ev<'tcx>>,
    pub trail: Option<Rc<Trail>>,
    pub unwind: bool,
    pub forbid_panic: bool,
    pub panicking: bool,
    pub allow_alloc_fail: bool,
    pub dead: bool,
    /// metadata of pointers of opaque metadata etc: size of the pointee behind meta token
    pub ghost: BTreeMap<String, Val<'tcx>>,
    /// values read so far from shared atomic cells, per cell (monotone)
    pub seen: Vec<(ObjId, Lin, Lin)>,
}

impl<'tcx> State<'tcx> {
    pub fn obj(&self, o: ObjId) -> &Obj<'tcx> { self.objs.get(&o).unwrap_or_else(|| panic!("no object {o}")) }
    pub fn obj_mut(&mut self, o: ObjId) -> &mut Obj<'tcx> { Rc::make_mut(self.objs.get_mut(&o).unwrap_or_else(|| panic!("no object {o}"))) }
    /// Add a fact; marks the state dead if it becomes (cheaply seen) infeasible.
    pub fn assume(&mut self, b: &BExp) -> bool {
        match b {
            BExp::K(true) => true,
            BExp::K(false) => { self.dead = true; false }
            BExp::Ge(l) => {
                if let Some(c) = l.as_const() { if c < 0 { self.dead = true; } return c >= 0; }
                if self.facts.contradicts(&[l.clone()]) { self.dead = true; return false; }
                self.facts.add_ge(l.clone());
                true
            }
            BExp::Eq(l) => {
                if let Some(c) = l.as_const() { if c != 0 { self.dead = true; } return c == 0; }
                if self.facts.entails_ne(l) { self.dead = true; return false; }
                self.facts.add_eq(l.clone());
                if l.c == 0 && l.t.len() == 1 { if let SymKind::AlignRem(x, a) = kind(l.t[0].0) { return self.assume(&BExp::Div(x, a)); } }
                true
            }
            BExp::Ne(l) => {
                if let Some(c) = l.as_const() { if c == 0 { self.dead = true; } return c != 0; }
                if self.facts.entails_eq(l) { self.dead = true; return false; }
                self.facts.add_ne(l.clone());
                // what leaves a remainder needs padding
                if l.c == 0 && l.t.len() == 1 { if let SymKind::AlignRem(x, a) = kind(l.t[0].0) { return self.assume(&BExp::NDiv(x, a)); } }
                true
            }
            BExp::Div(l, a) => {
                if let Some(o) = pow2_off(l, a) { if !self.assume(&BExp::Eq(o)) { return false; } }
                self.facts.add_div(l.clone(), a.clone());
                true
            }
            BExp::NDiv(l, a) => {
                if self.facts.entails_div(l, a) { self.dead = true; return false; }
                match pow2_off(l, a) { Some(o) => self.assume(&BExp::Ge(o.addk(-1))), None => true }
            }
            BExp::And(v) => { for x in v { if !self.assume(x) { return false; } } true }
            BExp::Or(v) => {
                // keep only the disjuncts that are possible; weak if several remain
                let mut left = vec![];
                for x in v { let mut t = self.clone(); if t.assume(x) { left.push((t, x)); } }
                if left.is_empty() { self.dead = true; return false; }
                if left.len() == 1 { let t = left.pop().unwrap().0; *self = t; }
                true
            }
        }
    }
    pub fn entails(&self, b: &BExp) -> bool {
        match b {
            BExp::K(true) => true,
            BExp::K(false) => self.infeasible(),
            BExp::Ge(l) => self.facts.entails_ge(l),
            BExp::Eq(l) => self.facts.entails_eq(l),
            BExp::Ne(l) => self.facts.entails_ne(l),
            BExp::Div(l, a) => self.facts.entails_div(l, a),
            BExp::NDiv(l, a) => match pow2_off(l, a) { Some(o) => self.facts.entails_ge(&o.addk(-1)), None => false },
            BExp::And(v) => v.iter().all(|x| self.entails(x)),
            BExp::Or(v) => {
                if v.iter().any(|x| self.entails(x)) { return true; }
                // case distinction: assume all but the last are false
                let mut t = self.clone();
                for (i, x) in v.iter().enumerate() {
                    if i + 1 == v.len() { return t.dead || t.entails(x); }
                    if !t.assume(&x.not()) { return true; }
                    if t.entails(&v[i + 1]) { return true; }
                }
                false
            }
        }
    }
    /// user code unwinds
    pub fn unwound(&mut self) { if let Some(Val::Int(n)) = self.ghost.get_mut("unwound") { if n.as_const() != Some(2) { *n = n.addk(1); } } }
    pub fn infeasible(&self) -> bool {
        if self.dead { return true; }
        // check the whole conjunction
        let all: Vec<Lin> = self.facts.ge.iter().cloned().chain(self.facts.ne.iter().map(|n| n.sub(n))).collect();
        let mut seeds = all;
        for n in &self.facts.ne { for x in &n.t { seeds.push(Lin::s(x.0).sub(&Lin::s(x.0))); } }
        self.facts.contradicts(&seeds)
    }
    pub fn note(&mut self, at: String) {
        self.trail = Some(Rc::new(Trail { at, prev: self.trail.take() }));
    }
    pub fn trail_vec(&self) -> Vec<String> {
        let mut v = vec![]; let mut t = &self.trail;
        while let Some(x) = t { v.push(x.at.clone()); t = &x.prev; }
        v.reverse(); v
    }
}
/// what is missing to the next multiple of a power of two
fn pow2_off(l: &Lin, a: &Lin) -> Option<Lin> {
    let p = match a.as_const() { Some(c) => c > 1 && c & (c - 1) == 0, None => is_pow2(a) };
    if p { Some(align_off(l, a)) } else { None }
}
