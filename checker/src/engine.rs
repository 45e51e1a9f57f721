//! The abstract interpreter: MIR statements, memory, control flow with loop widening.
use crate::num::*;
use crate::val::*;
use rustc_abi::VariantIdx;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use rustc_data_structures::fx::FxHashMap as HashMap;
use std::rc::Rc;

pub enum Stop { Fork(usize), Dead, Undecided(String) }
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub enum Out<'tcx> { Ret(Val<'tcx>), Unwind }
pub type Outs<'tcx> = Vec<(State<'tcx>, Out<'tcx>)>;

#[derive(Clone, Debug)]
pub struct PlRef<'tcx> { pub ptr: Ptr<'tcx>, pub ty: Ty<'tcx>, pub variant: Option<u32> }

pub struct Frame<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: Rc<Body<'tcx>>,
    pub locals: Vec<ObjId>,
    pub name: String,
    pub internal: bool,
}

#[derive(Clone, Default)]
pub struct Obl { pub checked: usize, pub failed: Vec<Failure> }
#[derive(Clone)]
pub struct Failure { pub msg: String, pub at: String, pub trail: Vec<String>, pub facts: Vec<String>, pub log: Vec<String> }

/// A linked list of any length: node k is the k-th element of an array, its link leads to node k+1.
#[derive(Clone)]
pub struct ListInfo<'tcx> { pub len: Lin, pub node: Ty<'tcx>, pub link: Ty<'tcx>, pub link_off: Lin, pub val_off: Lin, pub elem: Ty<'tcx>, pub tok: u32 }

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub tenv: ty::TypingEnv<'tcx>,
    pub layouts: RefCell<HashMap<Ty<'tcx>, Option<ty::layout::TyAndLayout<'tcx>>>>,
    pub sizes: RefCell<HashMap<Ty<'tcx>, (Lin, Lin)>>,
    pub offs: RefCell<HashMap<(Ty<'tcx>, u32, u32), Lin>>,
    pub bodies: HashMap<(Instance<'tcx>, u32), Rc<Body<'tcx>>>,
    pub promoted: HashMap<(Instance<'tcx>, u32), (Val<'tcx>, Vec<(ObjId, Rc<Obj<'tcx>>)>)>,
    pub next_obj: u32,
    pub next_tok: u32,
    pub zst_toks: HashMap<Ty<'tcx>, u32>,
    pub tok_info: HashMap<u32, (Ty<'tcx>, String)>,
    pub children: HashMap<(ObjId, Lin, String), ObjId>,
    pub named: HashMap<(u32, Lin, String), Sym>,
    pub steps: usize,
    pub max_steps: usize,
    pub deadline: std::time::Instant,
    pub depth: usize,
    pub stack: Vec<String>,
    pub callstack_spans: Vec<String>,
    pub obls: BTreeMap<String, Obl>,
    pub funcs: BTreeSet<String>,
    pub unmodeled: BTreeMap<String, usize>,
    pub undecided: Vec<String>,
    pub calls: usize,
    pub paths: usize,
    pub loops: usize,
    pub joins: usize,
    pub fork_pending: Vec<u32>,
    pub fork_i: usize,
    pub obs_buf: Vec<(String, bool, Failure)>,
    pub repo_crates: BTreeSet<String>,
    pub verbose: bool,
    pub cur_span: Span,
    pub extra_roots: Vec<ObjId>,
    pub overflow_checks: bool,
    /// string constants (labels of contracts)
    pub strs: HashMap<ObjId, String>,
    pub meta_vals: HashMap<u32, Meta<'tcx>>,
    pub seq_ids: RefCell<BTreeSet<u32>>,
    pub lists: HashMap<ObjId, ListInfo<'tcx>>,
    pub layout_ty_cache: Option<Ty<'tcx>>,
    pub reached: BTreeSet<String>,
}

fn empty_fail() -> Failure { Failure { msg: String::new(), at: String::new(), trail: vec![], facts: vec![], log: vec![] } }

impl<'tcx> Cx<'tcx> {
    // ------------------------------------------------------------ choice / fork machinery
    pub fn choose(&mut self, n: usize) -> R<usize> {
        if n == 0 { return Err(Stop::Dead); }
        if n == 1 { return Ok(0); }
        if self.fork_i < self.fork_pending.len() {
            let r = self.fork_pending[self.fork_i]; self.fork_i += 1;
            return Ok(r as usize);
        }
        Err(Stop::Fork(n))
    }
    pub fn decide(&mut self, st: &mut State<'tcx>, b: &BExp) -> R<bool> {
        let b = b.clone().simp();
        if let BExp::K(k) = b { return Ok(k); }
        if self.fork_i >= self.fork_pending.len() {
            if st.entails(&b) { return Ok(true); }
            if st.entails(&b.not()) { return Ok(false); }
        }
        let c = self.choose(2)?;
        let t = c == 0;
        let e = if t { b } else { b.not() };
        // disjunctions are split so that the facts stay conjunctive
        self.assume_split(st, &e)?;
        Ok(t)
    }
    pub fn assume_split(&mut self, st: &mut State<'tcx>, e: &BExp) -> R<()> {
        match e {
            BExp::Or(v) => {
                let i = self.choose(v.len())?;
                for x in &v[..i] { self.assume_split(st, &x.not())?; }
                self.assume_split(st, &v[i])
            }
            BExp::And(v) => { for x in v { self.assume_split(st, x)?; } Ok(()) }
            x => if st.assume(x) { Ok(()) } else { Err(Stop::Dead) },
        }
    }
    pub fn retry<T>(&mut self, st: State<'tcx>, f: &mut dyn FnMut(&mut Cx<'tcx>, &mut State<'tcx>) -> R<T>) -> Vec<(State<'tcx>, T)> {
        let mut out = vec![];
        let mut work: Vec<Vec<u32>> = vec![vec![]];
        let saved = (std::mem::take(&mut self.fork_pending), self.fork_i);
        let saved_obs = std::mem::take(&mut self.obs_buf);
        while let Some(p) = work.pop() {
            let mut s = st.clone();
            self.fork_pending = p.clone();
            self.fork_i = 0;
            self.obs_buf.clear();
            match f(self, &mut s) {
                Ok(v) => {
                    if !s.dead { out.push((s, v)); }
                    let obs = std::mem::take(&mut self.obs_buf);
                    for o in obs { self.commit_ob(o); }
                }
                Err(Stop::Fork(n)) => { for i in (0..n).rev() { let mut q = p.clone(); q.push(i as u32); work.push(q); } }
                Err(Stop::Dead) => { let obs = std::mem::take(&mut self.obs_buf); for o in obs { self.commit_ob(o); } }
                Err(Stop::Undecided(m)) => {
                    let obs = std::mem::take(&mut self.obs_buf); for o in obs { self.commit_ob(o); }
                    self.undecide(&s, m);
                }
            }
            if work.len() + out.len() > 4000 { self.undecide(&st, "too many cases".into()); break; }
        }
        self.fork_pending = saved.0; self.fork_i = saved.1;
        self.obs_buf = saved_obs;
        out
    }
    fn commit_ob(&mut self, o: (String, bool, Failure)) {
        let e = self.obls.entry(o.0).or_default();
        e.checked += 1;
        if !o.1 { e.failed.push(o.2); }
    }
    pub fn undecide(&mut self, st: &State<'tcx>, m: String) {
        if st.infeasible() { return; }
        let at = self.where_am_i();
        let m2 = format!("{m} [{at}]");
        if !self.undecided.contains(&m2) { self.undecided.push(m2); }
        if self.verbose { eprintln!("UNDECIDED {m} at {at}\n   trail {:?}", st.trail_vec()); }
    }
    pub fn where_am_i(&self) -> String {
        let mut v: Vec<String> = self.callstack_spans.iter().filter(|s| !s.is_empty()).cloned().collect();
        v.push(self.span_str(self.cur_span));
        v.retain(|s| !s.contains("/library/"));
        v.dedup();
        v.join(" -> ")
    }
    pub fn span_str(&self, sp: Span) -> String {
        if sp.is_dummy() { return String::new(); }
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        let f = f.strip_prefix("/repo/").map(|x| x.to_string()).unwrap_or(f);
        format!("{f}:{}", l.line)
    }
    /// Record an obligation. If it fails in a feasible state, it is a violation.
    pub fn prove(&mut self, st: &State<'tcx>, label: &str, b: &BExp) {
        let ok = st.entails(b) || st.infeasible();
        self.record(st, label, ok, || format!("cannot show {}", b.show()));
    }
    pub fn record(&mut self, st: &State<'tcx>, label: &str, ok: bool, msg: impl Fn() -> String) {
        let f = if ok { empty_fail() } else {
            let mut facts: Vec<String> = st.facts.ge.iter().map(|l| BExp::Ge(l.clone()).show()).collect();
            facts.extend(st.facts.ne.iter().map(|l| BExp::Ne(l.clone()).show()));
            facts.extend(st.facts.div.iter().map(|(l, a)| BExp::Div(l.clone(), a.clone()).show()));
            Failure { msg: msg(), at: self.where_am_i(), trail: st.trail_vec(), facts, log: st.log.iter().map(|e| self.show_ev(e)).collect() }
        };
        self.obs_buf.push((label.to_string(), ok, f));
    }
    pub fn show_ev(&self, e: &Ev<'tcx>) -> String { format!("{e:?}") }
    /// flush obligations recorded outside of `retry`
    pub fn flush(&mut self) { let obs = std::mem::take(&mut self.obs_buf); for o in obs { self.commit_ob(o); } }

    // ------------------------------------------------------------ objects and tokens
    pub fn new_obj(&mut self, st: &mut State<'tcx>, kind: ObjKind, name: &str, size: Option<Lin>, align: Lin) -> ObjId {
        let id = self.next_obj; self.next_obj += 1;
        self.put_obj(st, id, kind, name, size, align);
        id
    }
    pub fn put_obj(&mut self, st: &mut State<'tcx>, id: ObjId, kind: ObjKind, name: &str, size: Option<Lin>, align: Lin) {
        st.objs.insert(id, Rc::new(Obj { kind, name: name.to_string(), size: size.clone(), align: align.clone(), cells: BTreeMap::new(), segs: vec![], alive: true, lazy: false, raw: false, killed: vec![], shared: false, ty: None, heap: None }));
        if kind == ObjKind::Null || kind == ObjKind::Int { return; }
        let (s, new) = intern(SymKind::Addr(id));
        if new {
            range(s, 1, USIZE_MAX);
            axiom(s, Lin::s(s).sub(&align));
            if let Some(z) = &size {
                axiom(s, Lin::k(USIZE_MAX).sub(&Lin::s(s)).sub(z));
            }
            div_axiom(s, Lin::s(s), align);
        }
    }
    pub fn new_tok(&mut self, ty: Ty<'tcx>, name: &str) -> u32 {
        let id = self.next_tok; self.next_tok += 1;
        self.tok_info.insert(id, (ty, name.to_string()));
        id
    }
    /// values without bytes are indistinguishable
    pub fn zst_tok(&mut self, ty: Ty<'tcx>) -> u32 {
        if let Some(&t) = self.zst_toks.get(&ty) { return t; }
        let t = self.new_tok(ty, "zero-sized");
        self.zst_toks.insert(ty, t);
        t
    }
    pub fn is_zst_tok(&self, id: u32) -> bool { self.zst_toks.values().any(|t| *t == id) }
    pub fn addr(&self, p: &Ptr<'tcx>) -> Lin {
        match p.obj { NULL | INT => p.off.clone(), o => Lin::s(intern(SymKind::Addr(o)).0).add(&p.off) }
    }
    pub fn int_ptr(&self, addr: Lin, meta: Meta<'tcx>) -> Ptr<'tcx> {
        if addr.is_zero() { return Ptr { obj: NULL, off: addr, meta }; }
        Ptr { obj: INT, off: addr, meta }
    }
    /// metadata kind needed for a pointer to `ty`
    pub fn fresh_meta(&mut self, ty: Ty<'tcx>) -> Meta<'tcx> {
        match self.tail(ty).kind() {
            ty::Slice(_) | ty::Str => {
                let n = fresh_usize("len");
                Meta::Len(n)
            }
            ty::Dynamic(..) => Meta::Tok(self.new_tok(ty, "vtable")),
            ty::Param(_) | ty::Alias(..) if !ty.is_sized(self.tcx, self.tenv) => Meta::Tok(self.new_tok(ty, "meta")),
            _ => Meta::None,
        }
    }
    pub fn tail(&self, ty: Ty<'tcx>) -> Ty<'tcx> {
        let mut t = ty;
        loop {
            match t.kind() {
                ty::Adt(d, _) if d.is_struct() => { match self.fields(t, 0).last() { Some(f) => t = *f, None => return t } }
                ty::Tuple(ts) if ts.len() > 0 => t = *ts.last().unwrap(),
                ty::Pat(b, _) => t = *b,
                _ => return t,
            }
        }
    }
    /// the sized struct type that a struct with a dynamically typed tail stands for
    pub fn concrete(&self, ty: Ty<'tcx>, meta: &Meta<'tcx>) -> Option<Ty<'tcx>> {
        let (ty::Adt(d, a), Meta::VTable(t)) = (ty.kind(), meta) else { return None };
        if !d.is_struct() || !t.is_sized(self.tcx, self.tenv) { return None; }
        let mut n = 0;
        let a: Vec<ty::GenericArg<'tcx>> = a.iter().map(|x| match x.as_type() {
            Some(y) if matches!(y.kind(), ty::Dynamic(..)) => { n += 1; (*t).into() }
            Some(y) if !y.is_sized(self.tcx, self.tenv) => match self.concrete(y, meta) { Some(z) => { n += 1; z.into() } None => x },
            _ => x }).collect();
        if n != 1 { return None; }
        let r = Ty::new_adt(self.tcx, *d, self.tcx.mk_args(&a));
        r.is_sized(self.tcx, self.tenv).then_some(r)
    }
    /// size and alignment of the value behind a pointer
    pub fn size_of_val(&mut self, ty: Ty<'tcx>, meta: &Meta<'tcx>) -> (Lin, Lin) {
        if ty.is_sized(self.tcx, self.tenv) { return self.size_align(ty); }
        if let Some(t) = self.concrete(ty, meta) { return self.size_align(t); }
        match (ty.kind(), meta) {
            (ty::Slice(e), Meta::Len(n)) => { let (s, a) = self.size_align(*e); (mul(n, &s), a) }
            (ty::Str, Meta::Len(n)) => (n.clone(), Lin::k(1)),
            (ty::Adt(d, _), _) if d.is_struct() => {
                let fs = self.fields(ty, 0);
                let last = fs.len() - 1;
                let (ls, la) = self.size_of_val(fs[last], meta);
                if self.is_transparent(ty) { return (ls, la); }
                let off = self.field_off(ty, 0, last as u32);
                let a = self.layout(ty).map(|l| Lin::k(l.align.abi.bytes() as i128)).unwrap_or(la);
                let e = off.add(&ls);
                (e.add(&align_off(&e, &a)), a)
            }
            (ty::Dynamic(..), Meta::VTable(t)) => self.size_align(*t),
            (_, Meta::Tok(t)) => {
                let (s, n1) = intern(SymKind::SizeOfVal(*t, self.tyname(ty)));
                let (a, n2) = intern(SymKind::AlignOfVal(*t, self.tyname(ty)));
                if n2 { range(a, 1, crate::tys::MAX_ALIGN); set_pow2(a); }
                if n1 { range(s, 0, ISIZE_MAX); div_axiom(s, Lin::s(s), Lin::s(a)); }
                (Lin::s(s), Lin::s(a))
            }
            (_, Meta::VTable(t)) => self.size_align(*t),
            _ => (fresh_ranged("size_of_val", 0, ISIZE_MAX), Lin::k(1)),
        }
    }
    /// The object behind a pointer that is materialised at (parent, off).
    pub fn child_obj(&mut self, st: &mut State<'tcx>, key: Option<(ObjId, Lin)>, tag: &str, name: &str, pointee: Ty<'tcx>, known: bool) -> Ptr<'tcx> {
        let key = stable(key);
        let id = match &key {
            Some((o, off)) => {
                let k = (*o, off.clone(), tag.to_string());
                match self.children.get(&k) { Some(id) => *id, None => { let id = self.next_obj; self.next_obj += 1; self.children.insert(k, id); id } }
            }
            None => { let id = self.next_obj; self.next_obj += 1; id }
        };
        let meta = match self.tail(pointee).kind() {
            ty::Slice(_) | ty::Str => { let (s, new) = intern(SymKind::MetaLen(id)); if new { range(s, 0, ISIZE_MAX); } Meta::Len(Lin::s(s)) }
            _ => { let k = (INT, Lin::k(id as i128), "meta".to_string());
                   match self.fresh_meta(pointee) { Meta::Tok(t) => { let t2 = *self.children.entry(k).or_insert(t); Meta::Tok(t2) } m => m } }
        };
        if st.objs.contains_key(&id) { return Ptr { obj: id, off: Lin::k(0), meta }; }
        let (size, align) = if known { let (s, a) = self.size_of_val(pointee, &meta); (Some(s), a) } else { (None, Lin::k(1)) };
        if let (Some(z), Meta::Len(l)) = (&size, &meta) {
            // the size of any object is at most isize::MAX
            if let Some(s) = l.as_sym() { axiom(s, Lin::k(ISIZE_MAX).sub(z)); }
        }
        self.put_obj(st, id, ObjKind::Ext, name, size.clone(), align);
        let o = st.obj_mut(id);
        o.lazy = true;
        o.ty = Some(pointee);
        self.init_content(st, id, &Lin::k(0), pointee, &meta, name);
        Ptr { obj: id, off: Lin::k(0), meta }
    }
    /// Content of an unsized tail of a freshly materialised object
    fn init_content(&mut self, st: &mut State<'tcx>, id: ObjId, off: &Lin, ty: Ty<'tcx>, meta: &Meta<'tcx>, name: &str) {
        match ty.kind() {
            ty::Slice(e) => {
                if let Meta::Len(n) = meta {
                    let hi = off.add(&mul(n, &self.size_of(*e)));
                    let what = if self.is_uninit_ty(*e) { SegVal::Undef } else {
                        let t = self.new_tok(*e, name);
                        self.seq_ids.borrow_mut().insert(t);
                        SegVal::Seq { ty: *e, id: t, start: Lin::k(0) }
                    };
                    st.obj_mut(id).segs.push(Seg { lo: off.clone(), hi, what });
                    st.obj_mut(id).raw = true;
                }
            }
            ty::Str => {
                if let Meta::Len(n) = meta {
                    let u8t = self.tcx.types.u8;
                    let t = self.new_tok(u8t, name);
                    self.seq_ids.borrow_mut().insert(t);
                    st.obj_mut(id).segs.push(Seg { lo: off.clone(), hi: off.add(n), what: SegVal::Seq { ty: u8t, id: t, start: Lin::k(0) } });
                    st.obj_mut(id).raw = true;
                }
            }
            ty::Adt(d, _) if d.is_struct() && !ty.is_sized(self.tcx, self.tenv) => {
                let fs = self.fields(ty, 0);
                let l = fs.len() - 1;
                let o = off.add(&self.field_off(ty, 0, l as u32));
                self.init_content(st, id, &o, fs[l], meta, name);
            }
            _ => {}
        }
    }
    pub fn is_uninit_ty(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Adt(d, _) if d.is_union() => true,
            ty::Adt(d, _) if d.is_struct() && self.is_transparent(ty) => self.main_field(ty).map(|f| self.is_uninit_ty(f.1)).unwrap_or(false),
            ty::Array(e, _) => self.is_uninit_ty(*e),
            _ => false,
        }
    }
    pub fn fresh_int(&mut self, ty: Ty<'tcx>, name: &str) -> Lin {
        let (lo, hi) = self.int_range(ty).unwrap_or((0, USIZE_MAX));
        fresh_ranged(name, lo, hi)
    }
    fn fresh_int_at(&mut self, key: &Option<(ObjId, Lin)>, ty: Ty<'tcx>, name: &str) -> Lin {
        if let Some((o, off)) = key {
            let (s, new) = intern(SymKind::Named(format!("{name}")));
            let _ = (o, off);
            if new { let (lo, hi) = self.int_range(ty).unwrap_or((0, USIZE_MAX)); range(s, lo, hi); }
            return Lin::s(s);
        }
        self.fresh_int(ty, name)
    }
    /// An arbitrary value of a type.
    pub fn fresh_val(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, name: &str, key: Option<(ObjId, Lin)>) -> R<Val<'tcx>> {
        let key = stable(key);
        if self.is_zst(ty) && !matches!(ty.kind(), ty::FnDef(..)) { if let Some(v) = self.zst_val(ty) { return Ok(v); } }
        let keyname = |k: &Option<(ObjId, Lin)>| match k { Some((o, l)) => if l.is_zero() { format!("obj{o}") } else { format!("obj{o}[{}]", show(l)) }, None => name.to_string() };
        Ok(match ty.kind() {
            ty::Adt(..) if self.is_align_enum(ty) => { let l = self.fresh_layout(st, name)?; match l { Val::Agg(v) => v[1].clone(), v => v } }
            ty::Bool => { let n = self.fresh_int_at(&key, ty, &keyname(&key)); Val::Bool(BExp::Ge(n.addk(-1))) }
            ty::Int(_) | ty::Uint(_) | ty::Char => Val::Int(self.fresh_int_at(&key, ty, &keyname(&key))),
            ty::Float(_) => Val::Tok(Tok { id: self.new_tok(ty, name), idx: Lin::k(0) }),
            ty::Ref(_, t, _) => Val::Ptr(self.child_obj(st, key, "ptr", &format!("*{name}"), *t, true)),
            ty::RawPtr(t, _) => {
                if self.choose(2)? == 0 { Val::Ptr(self.child_obj(st, key, "ptr", &format!("*{name}"), *t, false)) } else {
                    let meta = self.fresh_meta(*t);
                    Val::Ptr(Ptr { obj: NULL, off: Lin::k(0), meta })
                }
            }
            ty::Pat(b, _) => match b.kind() {
                ty::RawPtr(t, _) => Val::Ptr(self.child_obj(st, key, "ptr", &format!("*{name}"), *t, false)),
                _ => self.fresh_val(st, *b, name, key)?,
            },
            ty::FnPtr(..) => Val::Tok(Tok { id: self.new_tok(ty, name), idx: Lin::k(0) }),
            ty::FnDef(..) => Val::Fn(ty),
            ty::Tuple(_) | ty::Closure(..) => self.fresh_fields(st, ty, 0, name, key).map(Val::Agg)?,
            ty::Array(e, n) => {
                let n = self.const_usize(*n);
                match n.as_const() {
                    Some(k) if k <= 8 => {
                        let mut v = vec![];
                        let es = self.size_of(*e);
                        for i in 0..k { let kk = key.clone().map(|(o, l)| (o, l.add(&es.scale(i)))); v.push(self.fresh_val(st, *e, &format!("{name}[{i}]"), kk)?); }
                        Val::Agg(v)
                    }
                    _ => Val::Tok(Tok { id: self.new_tok(ty, name), idx: Lin::k(0) }),
                }
            }
            ty::Adt(d, _) if self.is_layout_ty(ty) => { let _ = d; self.fresh_layout(st, name)? }
            ty::Adt(..) if self.is_opaque_adt(ty) => Val::Tok(Tok { id: self.new_tok(ty, name), idx: Lin::k(0) }),
            ty::Adt(d, _) if d.is_box() => {
                // pointer field, then allocator
                Val::Agg({
                    let fs = self.fields(ty, 0);
                    let pointee = ty.boxed_ty().unwrap();
                    let p = self.child_obj(st, key.clone(), "box", &format!("*{name}"), pointee, true);
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push(if i == 0 { self.wrap_ptr(*f, p.clone()) } else { self.fresh_val(st, *f, name, None)? }); }
                    v
                })
            }
            ty::Adt(d, _) if d.is_union() => {
                if self.is_uninit_ty(ty) { Val::Undef } else { match self.main_field(ty) { Some((_, f)) => self.fresh_val(st, f, name, key)?, None => Val::Zst } }
            }
            ty::Adt(d, _) if d.is_struct() => self.fresh_fields(st, ty, 0, name, key).map(Val::Agg)?,
            ty::Adt(d, _) if d.is_enum() => {
                let poss = self.inhabited(ty);
                let v = poss[self.choose(poss.len())?];
                let vn = d.variant(VariantIdx::from_u32(v)).name;
                Val::Enum(v, self.fresh_fields(st, ty, v, &format!("{name}.{vn}"), key)?)
            }
            ty::Never => return Err(Stop::Dead),
            _ => Val::Tok(Tok { id: self.new_tok(ty, name), idx: Lin::k(0) }),
        })
    }
    fn fresh_fields(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, variant: u32, name: &str, key: Option<(ObjId, Lin)>) -> R<Vec<Val<'tcx>>> {
        let fs = self.fields(ty, variant);
        let mut v = vec![];
        for (i, f) in fs.iter().enumerate() {
            let off = self.field_off(ty, variant, i as u32);
            let k = key.clone().map(|(o, l)| (o, l.add(&off)));
            v.push(self.fresh_val(st, *f, &format!("{name}.{i}"), k)?);
        }
        Ok(v)
    }
    /// wrap a pointer into newtype layers (NonNull, Unique, ...)
    pub fn wrap_ptr(&self, ty: Ty<'tcx>, p: Ptr<'tcx>) -> Val<'tcx> {
        match ty.kind() {
            ty::Adt(d, _) if d.is_struct() => {
                let fs = self.fields(ty, 0);
                Val::Agg(fs.iter().map(|f| if self.is_zst(*f) { self.zst_val(*f).unwrap_or(Val::Zst) } else { self.wrap_ptr(*f, p.clone()) }).collect())
            }
            _ => Val::Ptr(p),
        }
    }
    /// variants of an enum that can exist
    pub fn inhabited(&self, ty: Ty<'tcx>) -> Vec<u32> {
        let ty::Adt(d, _) = ty.kind() else { return vec![] };
        (0..d.variants().len() as u32).filter(|v| self.fields(ty, *v).iter().all(|f| !f.is_never() && !self.layout(*f).map(|l| l.is_uninhabited()).unwrap_or(false))).collect()
    }
    pub fn zst_val(&self, ty: Ty<'tcx>) -> Option<Val<'tcx>> {
        match ty.kind() {
            ty::FnDef(..) => Some(Val::Fn(ty)),
            ty::Adt(d, _) if d.is_enum() => {
                let v = self.inhabited(ty);
                if v.len() == 1 { Some(Val::Enum(v[0], self.fields(ty, v[0]).iter().map(|f| self.zst_val(*f).unwrap_or(Val::Zst)).collect())) } else { None }
            }
            ty::Adt(d, _) if d.is_phantom_data() => Some(Val::Zst),
            ty::Adt(d, _) if d.is_struct() => Some(Val::Agg(self.fields(ty, 0).iter().map(|f| self.zst_val(*f).unwrap_or(Val::Zst)).collect())),
            ty::Closure(..) => Some(Val::Agg(self.fields(ty, 0).iter().map(|f| self.zst_val(*f).unwrap_or(Val::Zst)).collect())),
            ty::Tuple(ts) if ts.len() > 0 => Some(Val::Agg(self.fields(ty, 0).iter().map(|f| self.zst_val(*f).unwrap_or(Val::Zst)).collect())),
            _ => Some(Val::Zst),
        }
    }
    pub fn adt_path(&self, ty: Ty<'tcx>) -> Option<String> {
        match ty.kind() { ty::Adt(d, _) => Some(self.path_of(d.did())), _ => None }
    }
    pub fn path_of(&self, did: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(did.krate), self.tcx.def_path(did).to_string_no_crate_verbose())
    }
    pub fn is_layout_ty(&self, ty: Ty<'tcx>) -> bool { self.adt_path(ty).map(|p| p == "core::alloc::layout::Layout").unwrap_or(false) }
    /// library containers that are modelled as opaque values
    pub fn is_opaque_adt(&self, ty: Ty<'tcx>) -> bool {
        match self.adt_path(ty) {
            Some(p) => matches!(p.as_str(), "alloc::vec::Vec" | "alloc::string::String" | "alloc::collections::vec_deque::VecDeque" | "core::fmt::Formatter" | "core::fmt::Arguments" | "core::fmt::rt::Argument" | "core::panic::location::Location" | "core::panic::panic_info::PanicInfo") ,
            None => false,
        }
    }
    pub fn fresh_layout(&mut self, st: &mut State<'tcx>, name: &str) -> R<Val<'tcx>> {
        let t = self.next_tok; self.next_tok += 1;
        let _ = name;
        let (s, _) = intern(SymKind::LayoutSize(t));
        let (a, _) = intern(SymKind::LayoutAlign(t));
        range(s, 0, ISIZE_MAX);
        range(a, 1, 1i128 << 63); set_pow2(a);
        // size rounded up to align does not exceed isize::MAX
        let up = Lin::s(s).add(&align_off(&Lin::s(s), &Lin::s(a)));
        axiom(s, Lin::k(ISIZE_MAX).sub(&up));
        let _ = st;
        Ok(Val::Agg(vec![Val::Int(Lin::s(s)), Val::Int(Lin::s(a))]))
    }

    // ------------------------------------------------------------ memory
    /// the library's powers of two: kept as integers
    pub fn is_align_enum(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() { ty::Adt(d, _) if d.is_enum() => self.tcx.item_name(d.did()).as_str() == "AlignmentEnum" && self.tcx.crate_name(d.did().krate).as_str() == "core", _ => false }
    }
    fn is_leaf(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Tuple(_) | ty::Closure(..) => false,
            ty::Adt(..) if self.is_layout_ty(ty) => false,
            ty::Adt(..) if self.is_opaque_adt(ty) || self.is_align_enum(ty) => true,
            ty::Adt(..) => false,
            ty::Array(..) => false,
            _ => true,
        }
    }
    pub fn check_access(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>, what: &str) -> R<()> {
        let (size, align) = self.size_of_val(ty, &p.meta);
        self.check_range(st, p, &size, &align, what)
    }
    pub fn check_range(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, size: &Lin, align: &Lin, what: &str) -> R<()> {
        match p.obj {
            NULL => {
                // only zero-sized accesses may use a null pointer; treat all as errors
                self.record(st, "memory safety", st.infeasible(), || format!("{what} through a null pointer"));
                return Err(Stop::Dead);
            }
            INT => {
                let b = BExp::Eq(size.clone());
                let ok = st.entails(&b);
                let p = p.clone();
                self.record(st, "memory safety", ok, || format!("{what} of {} bytes through an address ({}) that is not memory", show(size), show(&p.off)));
                if !ok { return Err(Stop::Dead); }
                let ok2 = st.entails(&BExp::Div(p.off.clone(), align.clone()));
                self.record(st, "memory safety", ok2, || format!("{what} through an unaligned dangling address {} (needs {})", show(&p.off), show(align)));
                let ok3 = st.entails(&BExp::Ge(p.off.clone().addk(-1)));
                self.record(st, "memory safety", ok3, || format!("{what} through an address ({}) that may be null", show(&p.off)));
                return Ok(());
            }
            _ => {}
        }
        let Some(o) = st.objs.get(&p.obj) else {
            self.record(st, "memory safety", st.infeasible(), || format!("{what} of memory that no longer exists"));
            return Err(Stop::Dead);
        };
        if !o.alive {
            let n = o.name.clone();
            self.record(st, "memory safety", st.infeasible() || size.is_zero(), || format!("{what} of memory {n} that has been released"));
            if !size.is_zero() { return Err(Stop::Dead); }
        }
        let o = st.obj(p.obj);
        if (o.kind == ObjKind::Heap || o.kind == ObjKind::Ext || o.raw) && o.size.is_some() {
            let osz = o.size.clone().unwrap();
            let oal = o.align.clone();
            let on = format!("{} (object {})", o.name, p.obj);
            let b = BExp::And(vec![BExp::Ge(p.off.clone()), BExp::Ge(osz.sub(&p.off).sub(size))]);
            let trivial = p.off.is_zero() && *size == osz;
            if !trivial {
                let ok = st.entails(&b) || st.infeasible();
                self.record(st, "memory safety", ok, || format!("{what} of {} bytes at offset {} of {on} may leave its {} bytes", show(size), show(&p.off), show(&osz)));
            }
            if !(p.off.is_zero() && oal == *align) {
                let a = self.addr(p);
                let b = BExp::Div(a, align.clone());
                let ok = st.entails(&b) || st.infeasible();
                self.record(st, "memory safety", ok, || format!("{what} at offset {} of {on} may be unaligned for {}", show(&p.off), show(align)));
            }
        }
        Ok(())
    }
    /// FieldOff symbols: two offsets that differ first in distinct fields of the same type are disjoint
    fn struct_disjoint(a: &Lin, b: &Lin) -> bool {
        for &(s, k) in &a.t {
            if k != 1 || b.coef(s) != 0 { continue; }
            if let SymKind::FieldOff(t, v, i) = kind(s) {
                for &(s2, k2) in &b.t {
                    if k2 != 1 || a.coef(s2) != 0 { continue; }
                    if let SymKind::FieldOff(t2, v2, j) = kind(s2) { if t == t2 && v == v2 && i != j { return true; } }
                }
            }
        }
        false
    }
    /// Some(true): certainly disjoint, Some(false): certainly overlapping or equal, None: unknown
    fn disjoint(&self, st: &State<'tcx>, a: &Lin, asz: &Lin, b: &Lin, bsz: &Lin) -> bool {
        let d = b.sub(a);
        if let (Some(d), Some(x), Some(y)) = (d.as_const(), asz.as_const(), bsz.as_const()) { return d >= x || -d >= y; }
        if Self::struct_disjoint(a, b) { return true; }
        st.facts.entails_ge(&d.sub(asz)) || st.facts.entails_ge(&d.neg().sub(bsz))
    }
    pub fn load(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<Val<'tcx>> {
        if self.is_zst(ty) { if let Some(v) = self.zst_val(ty) { return Ok(v); } }
        if let Some(v) = self.list_load(st, p, ty)? { return Ok(v); }
        if self.is_leaf(ty) { return self.load_leaf(st, p, ty); }
        let at = |p: &Ptr<'tcx>, o: &Lin| Ptr { obj: p.obj, off: p.off.add(o), meta: Meta::None };
        match ty.kind() {
            ty::Adt(..) if self.is_layout_ty(ty) => {
                let u = self.tcx.types.usize;
                let lazy = st.objs.get(&p.obj).map(|o| o.lazy && !o.cells.contains_key(&(p.off.clone(), None))).unwrap_or(false);
                if lazy {
                    let v = self.fresh_layout(st, "layout")?;
                    self.store(st, p, ty, v.clone())?;
                    return Ok(v);
                }
                let s = self.load_leaf(st, &at(p, &self.field_off(ty, 0, 0)), u)?;
                let a = self.load_leaf(st, &at(p, &self.field_off(ty, 0, 1)), u)?;
                if s == Val::Undef { return Ok(Val::Undef); }
                Ok(Val::Agg(vec![s, a]))
            }
            ty::Adt(d, _) if d.is_union() => match self.main_field(ty) { Some((_, f)) => self.load(st, p, f), None => Ok(Val::Zst) },
            ty::Adt(d, _) if d.is_enum() => {
                let v = match self.load_discr(st, p, ty)? { Some(v) => v, None => return Ok(Val::Undef) };
                let fs = self.fields(ty, v);
                let mut out = vec![];
                for (i, f) in fs.iter().enumerate() { let o = self.field_off(ty, v, i as u32); out.push(self.load(st, &at(p, &o), *f)?); }
                Ok(Val::Enum(v, out))
            }
            ty::Array(e, n) => {
                let n = self.const_usize(*n);
                let es = self.size_of(*e);
                if let Some(o) = st.objs.get(&p.obj) {
                    if let Some((_, v)) = o.cells.get(&(p.off.clone(), tk(ty))) { return Ok(v.clone()); }
                }
                match n.as_const() {
                    Some(k) if k <= 8 => { let mut v = vec![]; for i in 0..k { v.push(self.load(st, &at(p, &es.scale(i)), *e)?); } Ok(Val::Agg(v)) }
                    _ => {
                        if self.is_uninit_ty(*e) { return Ok(Val::Undef); }
                        let lazy = st.objs.get(&p.obj).map(|o| o.lazy).unwrap_or(false);
                        if lazy { let v = self.fresh_val(st, ty, "array", Some((p.obj, p.off.clone())))?; self.store(st, p, ty, v.clone())?; return Ok(v); }
                        Ok(Val::Undef)
                    }
                }
            }
            _ => {
                let fs = self.fields(ty, 0);
                let mut out = vec![];
                for (i, f) in fs.iter().enumerate() { let o = self.field_off(ty, 0, i as u32); out.push(self.load(st, &at(p, &o), *f)?); }
                Ok(Val::Agg(out))
            }
        }
    }
    /// content of a list node that has not been written to
    fn list_load(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<Option<Val<'tcx>>> {
        let Some(l) = self.lists.get(&p.obj).cloned() else { return Ok(None) };
        let (at, is_link) = if ty == l.link { (l.link_off.clone(), true) } else if ty == l.elem { (l.val_off.clone(), false) } else { return Ok(None) };
        let size = self.size_of(ty);
        let ns = self.size_of(l.node);
        let Some(k) = self.index_of(&st.facts, &p.off.sub(&at), &ns) else { return Err(Stop::Undecided(format!("list node at {}", show(&p.off)))) };
        let keys: Vec<(Lin, Ty<'tcx>)> = st.obj(p.obj).cells.iter().map(|(k, v)| (k.0.clone(), v.0)).collect();
        for (o, t) in keys {
            // a link written to another node
            if t == l.link { if let Some(i) = self.index_of(&st.facts, &o.sub(&l.link_off), &ns) {
                if i == k && is_link { return Ok(None); }
                if i == k || st.facts.entails_ge(&i.sub(&k).addk(-1)) || st.facts.entails_ge(&k.sub(&i).addk(-1)) { continue; }
            } }
            let z = self.size_of(t);
            if self.disjoint(st, &o, &z, &p.off, &size) { continue; }
            if self.decide(st, &BExp::Ge(o.sub(&p.off).sub(&size)))? || self.decide(st, &BExp::Ge(p.off.sub(&o).sub(&z)))? { continue; }
            return Ok(None);
        }
        let killed = st.obj(p.obj).killed.clone();
        let lz = self.size_of(l.link);
        for (lo, hi) in killed {
            let z = hi.sub(&lo);
            if z == lz { if let Some(i) = self.index_of(&st.facts, &lo.sub(&l.link_off), &ns) {
                if (i == k && !is_link) || st.facts.entails_ge(&i.sub(&k).addk(-1)) || st.facts.entails_ge(&k.sub(&i).addk(-1)) { continue; }
            } }
            if self.disjoint(st, &lo, &z, &p.off, &size) { continue; }
            if self.decide(st, &BExp::Ge(lo.sub(&p.off).sub(&size)))? || self.decide(st, &BExp::Ge(p.off.sub(&hi)))? { continue; }
            return Ok(None);
        }
        if is_link { if let Some(Val::Int(g)) = st.ghost.get(&format!("gone:{}", p.obj)).cloned() {
            if g.as_const() != Some(0) && !st.facts.entails_ge(&k.sub(&g)) { return Err(Stop::Undecided("link of a node whose value is gone".into())); }
        } }
        if !is_link { return Ok(Some(Val::Tok(Tok { id: l.tok, idx: k }))); }
        let more = self.decide(st, &BExp::Ge(l.len.sub(&k).addk(-2)))?;
        Ok(Some(self.list_link(p.obj, &l, &k.addk(1), more)))
    }
    /// Nodes whose value is gone and whose link was overwritten: nothing is known about them any more.
    pub fn forget_nodes(&mut self, st: &mut State<'tcx>) {
        let ids: Vec<ObjId> = self.lists.keys().cloned().filter(|o| st.objs.get(o).map_or(false, |o| !o.cells.is_empty())).collect();
        for id in ids {
            let l = self.lists[&id].clone();
            let ns = self.size_of(l.node);
            let keys: BTreeSet<Lin> = st.obj(id).cells.keys().map(|k| k.0.clone()).collect();
            for off in keys {
                let Some(k) = self.index_of(&st.facts, &off.sub(&l.link_off), &ns) else { continue };
                let gone = st.log.iter().any(|e| match e {
                    Ev::Drop { tok, .. } if tok.id == l.tok => st.facts.entails_eq(&tok.idx.sub(&k)),
                    Ev::DropSeq { tok, n, .. } if tok.id == l.tok => st.facts.entails_ge(&k.sub(&tok.idx)) && st.facts.entails_ge(&tok.idx.add(n).sub(&k).addk(-1)),
                    _ => false,
                });
                if !gone { continue; }
                let key = format!("gone:{id}");
                let Some(Val::Int(g)) = st.ghost.get(&key).cloned() else { continue };
                if st.facts.entails_ge(&k.sub(&g)) { st.ghost.insert(key, Val::Int(k.addk(1))); }
                else if !st.facts.entails_ge(&g.sub(&k).addk(-1)) { continue; }
                let lz = self.size_of(l.link);
                let ob = st.obj_mut(id);
                ob.cells.retain(|x, _| x.0 != off);
                ob.killed.retain(|x| x.0 != off || x.1.sub(&x.0) != lz);
            }
        }
    }
    pub fn list_link(&mut self, obj: ObjId, l: &ListInfo<'tcx>, k: &Lin, some: bool) -> Val<'tcx> {
        let meta = match self.fields(l.link, 1).first().and_then(|t| self.inner_pointee(*t)) { Some(t) if !t.is_sized(self.tcx, self.tenv) => Meta::VTable(l.elem), _ => Meta::None };
        if !some { return Val::Enum(0, vec![]); }
        let ns = self.size_of(l.node);
        let p = Ptr { obj, off: mul(k, &ns), meta };
        let f = self.fields(l.link, 1)[0];
        Val::Enum(1, vec![self.wrap_ptr(f, p)])
    }
    /// variant of the enum stored at p
    pub fn load_discr(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<Option<u32>> {
        if !st.objs.contains_key(&p.obj) { return Ok(None); }
        if self.is_align_enum(ty) { return Ok(None); }
        if let Some(Val::Enum(v, _)) = self.list_load(st, p, ty)? { return Ok(Some(v)); }
        if let Some((_, Val::Int(l))) = st.obj(p.obj).cells.get(&(p.off.clone(), tk(ty))) { return Ok(l.as_const().map(|c| c as u32)); }
        if let Some(v) = self.zst_val(ty) { if self.is_zst(ty) { if let Val::Enum(v, _) = v { return Ok(Some(v)); } } }
        if st.obj(p.obj).lazy && !self.was_killed(st, p, &self.size_of(ty)) {
            let v = self.fresh_val(st, ty, &format!("obj{}", p.obj), Some((p.obj, p.off.clone())))?;
            self.store_new(st, p, ty, v.clone())?;
            if let Val::Enum(v, _) = v { return Ok(Some(v)); }
        }
        // equal offset by entailment
        let keys: Vec<(Lin, Val<'tcx>)> = st.obj(p.obj).cells.iter().filter(|((_, t), _)| *t == tk(ty)).map(|(k, v)| (k.0.clone(), v.1.clone())).collect();
        for (o, v) in keys { if st.facts.entails_eq(&o.sub(&p.off)) { if let Val::Int(l) = v { return Ok(l.as_const().map(|c| c as u32)); } } }
        // a niche whose carrier was written directly (integers and pointers reinterpreted as Option)
        let niche = self.layout(ty).and_then(|l| match &l.variants {
            rustc_abi::Variants::Multiple { tag_encoding: rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, .. } if niche_variants.start == niche_variants.last =>
                Some((untagged_variant.as_u32(), niche_variants.start.as_u32(), *niche_start as i128, l.fields.offset(tag_field.index()).bytes() as i128)),
            _ => None,
        });
        if let Some((full, empty, at, off)) = niche {
            let q = Ptr { obj: p.obj, off: p.off.addk(off), meta: Meta::None };
            let o = st.obj(p.obj);
            if let Some((t, _)) = o.cells.get(&(q.off.clone(), None)).cloned() {
                let v = self.load_leaf(st, &q, t)?;
                let l = match v { Val::Int(l) => l, Val::Ptr(p) => { if p.obj > INT { return Ok(Some(full)); } self.addr(&p) } _ => return Ok(None) };
                return Ok(Some(if self.decide(st, &BExp::Eq(l.addk(-at)).simp())? { empty } else { full }));
            }
            // all zero
            if o.segs.iter().any(|g| g.what == SegVal::Zero) {
                let u = self.tcx.types.usize;
                if let Val::Int(l) = self.load_leaf(st, &q, u)? { if let Some(c) = l.as_const() { return Ok(Some(if c == at { empty } else { full })); } }
            }
        }
        Ok(None)
    }
    fn was_killed(&self, st: &State<'tcx>, p: &Ptr<'tcx>, size: &Lin) -> bool {
        let o = st.obj(p.obj);
        for (lo, hi) in &o.killed {
            if *lo == p.off { return true; }
            if !self.disjoint(st, lo, &hi.sub(lo), &p.off, size) { return true; }
        }
        false
    }
    fn leaf_ty(&self, ty: Ty<'tcx>) -> Ty<'tcx> { match ty.kind() { ty::Pat(b, _) => *b, ty::Adt(..) if self.is_align_enum(ty) => self.tcx.types.usize, _ => ty } }
    fn conv_leaf(&mut self, st: &mut State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        if from == to { return Ok(v); }
        let is_ptr = |t: Ty<'tcx>| matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) | ty::Pat(..));
        Ok(match v {
            Val::Ptr(p) if to.is_integral() => Val::Int(self.addr(&p)),
            Val::Ptr(mut p) if is_ptr(to) => {
                if let Some(t) = self.pointee(to) { if t.is_sized(self.tcx, self.tenv) { p.meta = Meta::None; } }
                Val::Ptr(p)
            }
            Val::Int(l) if is_ptr(to) => Val::Ptr(self.int_to_ptr(st, l)),
            Val::Int(l) if to.is_integral() || to.is_char() => {
                let (lo, hi) = self.int_range(to).unwrap();
                if st.entails(&BExp::Ge(l.addk(-lo))) && st.entails(&BExp::Ge(l.neg().addk(hi))) { Val::Int(l) } else { Val::Int(self.fresh_int(to, "reinterpret")) }
            }
            Val::Int(l) if to.is_bool() => Val::Bool(BExp::Ge(l.addk(-1))),
            Val::Bool(b) if to.is_integral() => { let t = self.decide(st, &b)?; Val::Int(Lin::k(t as i128)) }
            Val::Tok(t) => Val::Tok(t),
            Val::Undef => Val::Undef,
            v => v,
        })
    }
    pub fn pointee(&self, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match ty.kind() { ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t), ty::Pat(b, _) => self.pointee(*b), _ => ty.boxed_ty() }
    }
    pub fn int_to_ptr(&mut self, st: &mut State<'tcx>, l: Lin) -> Ptr<'tcx> {
        let mut found = None;
        for &(s, k) in &l.t { if k == 1 { if let SymKind::Addr(o) = kind(s) { if st.objs.contains_key(&o) { found = if found.is_none() { Some((s, o)) } else { return self.int_ptr(l, Meta::None) }; } } } }
        match found {
            Some((s, o)) => Ptr { obj: o, off: l.sub(&Lin::s(s)), meta: Meta::None },
            None => self.int_ptr(l, Meta::None),
        }
    }
    fn load_leaf(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) -> R<Val<'tcx>> {
        let ty = self.leaf_ty(ty);
        if !st.objs.contains_key(&p.obj) || p.obj == NULL || p.obj == INT { 
            if self.size_of(ty).is_zero() { return Ok(self.zst_val(ty).unwrap_or(Val::Zst)); }
            // a zero-sized (by the facts) value behind a dangling pointer
            return Ok(Val::Tok(Tok { id: self.zst_tok(ty), idx: Lin::k(0) }));
        }
        if let Some((t, v)) = st.obj(p.obj).cells.get(&(p.off.clone(), None)) {
            let (t, v) = (*t, v.clone());
            return self.conv_leaf(st, v, t, ty);
        }
        let size = self.size_of(ty);
        if st.obj(p.obj).raw {
            // values without bytes are in any memory
            if matches!(ty.kind(), ty::Param(_) | ty::Alias(..)) && st.facts.entails_ge(&size.neg()) { return Ok(Val::Tok(Tok { id: self.zst_tok(ty), idx: Lin::k(0) })); }
            // equal by the facts?
            let cells: Vec<(Lin, Ty<'tcx>, Val<'tcx>)> = st.obj(p.obj).cells.iter().filter(|((_, t), _)| t.is_none()).map(|((o, _), (t, v))| (o.clone(), *t, v.clone())).collect();
            for (o, t, v) in &cells {
                if *o != p.off && !Self::struct_disjoint(o, &p.off) && st.facts.entails_eq(&o.sub(&p.off)) { return self.conv_leaf(st, v.clone(), *t, ty); }
            }
            for (o, t, v) in &cells {
                let ts = self.size_of(*t);
                if self.disjoint(st, &p.off, &size, o, &ts) { continue; }
                // may alias: case distinction
                if self.decide(st, &BExp::Eq(o.sub(&p.off)))? { return self.conv_leaf(st, v.clone(), *t, ty); }
                if self.disjoint(st, &p.off, &size, o, &ts) { continue; }
                // assume well-typed element accesses: elements of equal size do not partially overlap
                if ts == size && self.same_stride(st, p, o, &size) {
                    let before = BExp::Ge(o.sub(&p.off).sub(&size));
                    if self.decide(st, &before)? { continue; }
                    if st.assume(&BExp::Ge(p.off.sub(o).sub(&size))) { continue; }
                    return Err(Stop::Dead);
                }
                return Ok(Val::Undef);
            }
        }
        let segs = st.obj(p.obj).segs.clone();
        for s in &segs {
            if let Some(v) = self.seg_read(st, s, &p.off, &size, ty)? { return Ok(v); }
        }
        if st.obj(p.obj).lazy && !self.was_killed(st, p, &size) && !segs.iter().any(|s| !self.disjoint(st, &s.lo, &s.hi.sub(&s.lo), &p.off, &size)) {
            let v = self.fresh_val(st, ty, &format!("obj{}", p.obj), Some((p.obj, p.off.clone())))?;
            st.obj_mut(p.obj).cells.insert((p.off.clone(), None), (ty, v.clone()));
            return Ok(v);
        }
        Ok(Val::Undef)
    }
    fn same_stride(&self, st: &State<'tcx>, p: &Ptr<'tcx>, o: &Lin, size: &Lin) -> bool {
        let _ = st;
        self.elem_index(&p.off.sub(o), size).is_some()
    }
    /// off / size when off is syntactically a multiple of size
    pub fn elem_index(&self, off: &Lin, size: &Lin) -> Option<Lin> {
        if off.is_zero() { return Some(Lin::k(0)); }
        if let Some(k) = size.as_const() {
            if k == 0 { return None; }
            if off.c % k != 0 { return None; }
            let mut r = Lin::k(off.c / k);
            for &(s, a) in &off.t { if a % k != 0 { return None; } r = r.addmul(&Lin::s(s), a / k); }
            return Some(r);
        }
        let sz = size.as_sym()?;
        if off.c != 0 { return None; }
        let mut r = Lin::k(0);
        for &(s, a) in &off.t {
            if s == sz { r = r.addk(a); continue; }
            match kind(s) {
                SymKind::Prod(x, y) if y == sz => r = r.addmul(&Lin::s(x), a),
                SymKind::Prod(x, y) if x == sz => r = r.addmul(&Lin::s(y), a),
                _ => return None,
            }
        }
        Some(r)
    }
    /// off / size when off is a multiple of size by what is known
    pub fn index_of(&self, f: &Facts, off: &Lin, size: &Lin) -> Option<Lin> { self.index_of_in(f, off, size, 3) }
    fn index_of_in(&self, f: &Facts, off: &Lin, size: &Lin, depth: usize) -> Option<Lin> {
        if let Some(i) = self.elem_index(off, size) { return Some(i); }
        if depth == 0 { return None; }
        let one = Lin::k(1);
        let sz = size.as_sym();
        // a term that is not a multiple of the size, and an equation to replace it by
        let bad = off.t.iter().map(|x| x.0).find(|s| Some(*s) != sz && !matches!(kind(*s), SymKind::Prod(x, y) if Some(x) == sz || Some(y) == sz))?;
        let _ = one;
        let c = off.t.iter().find(|x| x.0 == bad).unwrap().1;
        for l in &f.ge {
            let Some(&(_, a)) = l.t.iter().find(|x| x.0 == bad) else { continue };
            if a.abs() != 1 || !f.ge.contains(&l.neg()) { continue; }
            let o = off.addmul(l, -c * a);
            if let Some(i) = self.index_of_in(f, &o, size, depth - 1) { return Some(i); }
        }
        None
    }
    pub fn seq_elem(&mut self, id: u32, ty: Ty<'tcx>, idx: Lin) -> Val<'tcx> {
        match ty.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                let n = self.tok_info[&id].1.clone();
                let (s, new) = intern(SymKind::Named(format!("seq{id}:{n}[{}]", show(&idx))));
                if new { let (lo, hi) = self.int_range(ty).unwrap(); range(s, lo, hi); }
                Val::Int(Lin::s(s))
            }
            _ => Val::Tok(Tok { id, idx }),
        }
    }
    fn seg_read(&mut self, st: &mut State<'tcx>, s: &Seg<'tcx>, off: &Lin, size: &Lin, ty: Ty<'tcx>) -> R<Option<Val<'tcx>>> {
        if s.lo == s.hi { return Ok(None); }
        let inside = st.facts.entails_ge(&off.sub(&s.lo)) && st.facts.entails_ge(&s.hi.sub(off).sub(size));
        if !inside { return Ok(None); }
        Ok(match &s.what {
            SegVal::Seq { ty: et, id, start } => {
                if *et == ty {
                    match self.index_of(&st.facts, &off.sub(&s.lo), size) {
                        Some(i) => Some(self.seq_elem(*id, ty, start.add(&i))),
                        None => None,
                    }
                } else { Some(Val::Tok(Tok { id: self.new_tok(ty, "reinterpreted"), idx: Lin::k(0) })) }
            }
            SegVal::Zero => Some(if ty.is_integral() { Val::Int(Lin::k(0)) } else if ty.is_bool() { Val::Bool(BExp::K(false)) } else { Val::Tok(Tok { id: self.new_tok(ty, "zeroed"), idx: Lin::k(0) }) }),
            SegVal::Undef => Some(Val::Undef),
        })
    }
    /// remove what is known about [off, off+size) of an object, keeping provably disjoint cells and segment parts
    pub fn clobber(&mut self, st: &mut State<'tcx>, obj: ObjId, off: &Lin, size: &Lin) -> R<()> {
        if size.is_zero() { return Ok(()); }
        let o = st.obj(obj);
        if o.cells.is_empty() && o.segs.is_empty() && !o.lazy { return Ok(()); }
        let keys: Vec<((Lin, Option<u32>), Ty<'tcx>)> = o.cells.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        for (k, t) in keys {
            if k.0 == *off && k.1.is_none() { st.obj_mut(obj).cells.remove(&k); continue; }
            let ts = self.size_of(t);
            if self.disjoint(st, off, size, &k.0, &ts) { continue; }
            st.obj_mut(obj).cells.remove(&k);
        }
        let segs = st.obj(obj).segs.clone();
        if !segs.is_empty() {
            let mut out: Vec<Seg<'tcx>> = vec![];
            for s in segs {
                let end = off.add(size);
                if s.lo == s.hi { continue; }
                if st.facts.entails_ge(&off.sub(&s.hi)) || st.facts.entails_ge(&s.lo.sub(&end)) { out.push(s); continue; }
                // left part
                if self.decide(st, &BExp::Ge(off.sub(&s.lo).addk(-1)))? {
                    // clipped at the segment's end if the range starts behind it
                    if self.decide(st, &BExp::Ge(off.sub(&s.hi)))? { out.push(s); continue; }
                    out.push(Seg { lo: s.lo.clone(), hi: off.clone(), what: s.what.clone() });
                } else if self.decide(st, &BExp::Ge(s.lo.sub(&end)))? { out.push(s); continue; }
                if self.decide(st, &BExp::Ge(s.hi.sub(&end).addk(-1)))? {
                    let what = self.seg_shift(st, &s, &end.sub(&s.lo));
                    out.push(Seg { lo: end, hi: s.hi.clone(), what });
                }
            }
            st.obj_mut(obj).segs = out;
        }
        if st.obj(obj).lazy { let e = off.add(size); let k = (off.clone(), e); let o = st.obj_mut(obj); if !o.killed.contains(&k) { o.killed.push(k); } }
        Ok(())
    }
    /// the content of a segment from byte offset d (relative to its start) on
    pub fn seg_shift(&self, st: &State<'tcx>, s: &Seg<'tcx>, d: &Lin) -> SegVal<'tcx> {
        match &s.what {
            SegVal::Seq { ty, id, start } => match self.index_of(&st.facts, d, &self.size_of(*ty)) {
                Some(i) => SegVal::Seq { ty: *ty, id: *id, start: start.add(&i) },
                None => SegVal::Undef,
            },
            w => w.clone(),
        }
    }
    pub fn store(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>, v: Val<'tcx>) -> R<()> {
        if p.obj == NULL || p.obj == INT || !st.objs.contains_key(&p.obj) { return Ok(()); }
        // a valid value in the place of another one of its type does not change the variant it belongs to
        let lt = self.leaf_ty(ty);
        let mut variants = vec![];
        if self.is_leaf(ty) && matches!(st.obj(p.obj).cells.get(&(p.off.clone(), None)), Some((t, _)) if *t == lt) {
            for (k, c) in &st.obj(p.obj).cells {
                if k.1.is_some() && matches!(c.0.kind(), ty::Adt(d, _) if d.is_enum()) && matches!(c.1, Val::Int(_)) && !(k.0 == p.off && c.0 == ty) { variants.push((k.clone(), c.clone())); }
            }
        }
        // the address word of a wide pointer is replaced: its metadata stays
        let mut wide = None;
        if let (true, Val::Ptr(q)) = (self.pointee(lt).is_some(), &v) {
            if let Some((t, Val::Ptr(old))) = st.obj(p.obj).cells.get(&(p.off.clone(), None)) {
                if *t != lt && self.size_of(lt).as_const() == Some(8) && self.size_of(*t).as_const() == Some(16) { wide = Some((*t, Val::Ptr(Ptr { meta: old.meta.clone(), ..q.clone() }))); }
            }
        }
        // forget what was there
        let o = st.obj(p.obj);
        if o.raw || o.lazy || !o.segs.is_empty() || matches!(o.kind, ObjKind::Heap) {
            let size = self.size_of(ty);
            self.clobber(st, p.obj, &p.off, &size)?;
            if st.obj(p.obj).kind == ObjKind::Ext || st.obj(p.obj).shared { st.log.push(Ev::Write { obj: p.obj, off: p.off.clone(), size }); }
        } else {
            self.forget(st, p, ty);
        }
        for (k, c) in variants { st.obj_mut(p.obj).cells.entry(k).or_insert(c); }
        if let Some(c) = wide { st.obj_mut(p.obj).cells.insert((p.off.clone(), None), c); return Ok(()); }
        self.store_new(st, p, ty, v)
    }
    /// structurally remove the cells a value of type ty occupies
    fn forget(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>) {
        if st.obj(p.obj).cells.is_empty() { return; }
        let size = self.size_of(ty);
        let keys: Vec<((Lin, Option<u32>), Ty<'tcx>)> = st.obj(p.obj).cells.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        if st.obj(p.obj).size.as_ref() == Some(&size) && p.off.is_zero() { st.obj_mut(p.obj).cells.clear(); return; }
        for (k, t) in keys {
            if k.0 == p.off { 
                st.obj_mut(p.obj).cells.remove(&k); continue; }
            let ts = self.size_of(t);
            if self.disjoint(st, &p.off, &size, &k.0, &ts) { continue; }
            st.obj_mut(p.obj).cells.remove(&k);
        }
    }
    fn store_new(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>, v: Val<'tcx>) -> R<()> {
        if self.is_zst(ty) { return Ok(()); }
        let at = |o: &Lin| Ptr { obj: p.obj, off: p.off.add(o), meta: Meta::None };
        if v == Val::Undef { return Ok(()); }
        if self.is_leaf(ty) {
            let ty = self.leaf_ty(ty);
            if matches!(v, Val::Zst | Val::Fn(_)) && self.size_of(ty).is_zero() { return Ok(()); }
            // element of a tracked sequence: extend an adjacent segment
            if let Val::Tok(t) = &v {
                if self.seg_append(st, p, ty, t)? { return Ok(()); }
            }
            st.obj_mut(p.obj).cells.insert((p.off.clone(), None), (ty, v));
            return Ok(());
        }
        match ty.kind() {
            ty::Adt(..) if self.is_layout_ty(ty) => {
                if let Val::Agg(f) = v {
                    let u = self.tcx.types.usize;
                    for i in 0..2 { let o = p.off.add(&self.field_off(ty, 0, i)); st.obj_mut(p.obj).cells.insert((o, None), (u, f[i as usize].clone())); }
                }
                Ok(())
            }
            ty::Adt(d, _) if d.is_union() => match self.main_field(ty) { Some((_, f)) => self.store_new(st, p, f, v), None => Ok(()) },
            ty::Adt(d, _) if d.is_enum() => match v {
                Val::Enum(i, fs) => {
                    st.obj_mut(p.obj).cells.insert((p.off.clone(), tk(ty)), (ty, Val::Int(Lin::k(i as i128))));
                    for (j, (f, v)) in self.fields(ty, i).into_iter().zip(fs).enumerate() { let o = self.field_off(ty, i, j as u32); self.store_new(st, &at(&o), f, v)?; }
                    Ok(())
                }
                Val::Tok(t) => { st.obj_mut(p.obj).cells.insert((p.off.clone(), None), (ty, Val::Tok(t))); Ok(()) }
                v => Err(Stop::Undecided(format!("storing {v:?} as {ty}"))),
            },
            ty::Array(e, _) => match v {
                Val::Agg(vs) => { let es = self.size_of(*e); for (i, v) in vs.into_iter().enumerate() { self.store_new(st, &at(&es.scale(i as i128)), *e, v)?; } Ok(()) }
                v => { st.obj_mut(p.obj).cells.insert((p.off.clone(), tk(ty)), (ty, v)); Ok(()) }
            },
            _ => match v {
                Val::Agg(vs) => {
                    for (j, (f, v)) in self.fields(ty, 0).into_iter().zip(vs).enumerate() { let o = self.field_off(ty, 0, j as u32); self.store_new(st, &at(&o), f, v)?; }
                    Ok(())
                }
                Val::Tok(t) => { st.obj_mut(p.obj).cells.insert((p.off.clone(), None), (ty, Val::Tok(t))); Ok(()) }
                v => {
                    // a newtype given as its content
                    if let Some((j, f)) = self.main_field(ty) { let o = self.field_off(ty, 0, j as u32); return self.store_new(st, &at(&o), f, v); }
                    Err(Stop::Undecided(format!("storing {v:?} as {ty}")))
                }
            },
        }
    }
    fn seg_append(&mut self, st: &mut State<'tcx>, p: &Ptr<'tcx>, ty: Ty<'tcx>, t: &Tok) -> R<bool> {
        if !self.tracked_seq(t.id) || !st.obj(p.obj).raw { return Ok(false); }
        let size = self.size_of(ty);
        let mut lo = p.off.clone(); let mut hi = p.off.add(&size); let mut start = t.idx.clone();
        let mut segs = st.obj(p.obj).segs.clone();
        let mut changed = true;
        while changed {
            changed = false;
            let mut i = 0;
            while i < segs.len() {
                let s = segs[i].clone();
                if let SegVal::Seq { ty: et, id, start: ss } = &s.what {
                    if *et == ty && *id == t.id {
                        let n = self.index_of(&st.facts, &s.hi.sub(&s.lo), &size);
                        if st.facts.entails_eq(&s.hi.sub(&lo)) {
                            if let Some(n) = &n { if st.facts.entails_eq(&ss.add(n).sub(&start)) { lo = s.lo.clone(); start = ss.clone(); segs.remove(i); changed = true; continue; } }
                        } else if st.facts.entails_eq(&s.lo.sub(&hi)) {
                            let m = self.index_of(&st.facts, &hi.sub(&lo), &size);
                            if let Some(m) = &m { if st.facts.entails_eq(&start.add(m).sub(ss)) { hi = s.hi.clone(); segs.remove(i); changed = true; continue; } }
                        }
                    }
                }
                i += 1;
            }
        }
        segs.push(Seg { lo, hi, what: SegVal::Seq { ty, id: t.id, start } });
        st.obj_mut(p.obj).segs = segs;
        Ok(true)
    }
    /// tokens that are elements of sequences
    pub fn tracked_seq(&self, id: u32) -> bool { self.tok_info.get(&id).map(|x| x.1.starts_with("seq:")).unwrap_or(false) || self.seq_ids.borrow().contains(&id) }
}

/// A place denoted with symbols of a loop is another one in each iteration.
fn stable(key: Option<(ObjId, Lin)>) -> Option<(ObjId, Lin)> {
    key.filter(|(_, l)| {
        let mut s = BTreeSet::new();
        deep_syms(l, &mut s);
        !s.iter().any(|s| matches!(kind(*s), SymKind::Fresh(n, _) if n == "phi"))
    })
}
