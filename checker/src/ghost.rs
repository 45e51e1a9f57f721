//! Ghost functions of the contract crate (module `g`): they have no executable meaning.
use crate::engine::*;
use crate::num::*;
use crate::val::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty};

impl<'tcx> Cx<'tcx> {
    fn str_arg(&self, v: &Val<'tcx>) -> String {
        match self.as_ptr(v.clone()) { Some(p) => self.strs.get(&p.obj).cloned().unwrap_or_else(|| "?".into()), None => "?".into() }
    }
    /// the unique sub-field of type `want`
    pub fn find_field(&self, ty: Ty<'tcx>, want: Ty<'tcx>, off: Lin, out: &mut Vec<Lin>, depth: usize) {
        if ty == want { out.push(off); return; }
        if depth > 10 { return; }
        match ty.kind() {
            ty::Adt(d, _) if d.is_struct() || d.is_union() => {
                for (i, f) in self.fields(ty, 0).into_iter().enumerate() { let o = off.add(&self.field_off(ty, 0, i as u32)); self.find_field(f, want, o, out, depth + 1); }
            }
            ty::Tuple(_) => for (i, f) in self.fields(ty, 0).into_iter().enumerate() { let o = off.add(&self.field_off(ty, 0, i as u32)); self.find_field(f, want, o, out, depth + 1); },
            _ => {}
        }
    }
    /// links to nodes with a dynamically typed tail or of their own type
    fn find_handles(&self, ty: Ty<'tcx>, off: Lin, out: &mut Vec<(Lin, Ty<'tcx>, Ty<'tcx>)>, depth: usize) {
        if depth > 10 { return; }
        match ty.kind() {
            ty::Adt(d, a) if self.path_of(d.did()) == "core::option::Option" => {
                let t = self.norm(a.type_at(0));
                if let Some(p) = self.inner_pointee(t) { if matches!(p.kind(), ty::Adt(e, _) if e.is_struct() && !e.did().is_local()) && self.is_node(p, ty) { out.push((off, ty, p)); } }
            }
            ty::Adt(d, _) if d.is_struct() => for (i, f) in self.fields(ty, 0).into_iter().enumerate() { let o = off.add(&self.field_off(ty, 0, i as u32)); self.find_handles(f, o, out, depth + 1); },
            ty::Tuple(_) => for (i, f) in self.fields(ty, 0).into_iter().enumerate() { let o = off.add(&self.field_off(ty, 0, i as u32)); self.find_handles(f, o, out, depth + 1); },
            _ => {}
        }
    }
    fn find_adt(&self, ty: Ty<'tcx>, path: &str, off: Lin, out: &mut Vec<(Lin, Ty<'tcx>)>, depth: usize) {
        if self.adt_path(ty).as_deref() == Some(path) { out.push((off, ty)); return; }
        if depth > 10 { return; }
        let s = match ty.kind() { ty::Adt(d, _) => d.is_struct(), ty::Tuple(_) => true, _ => false };
        if s { for (i, f) in self.fields(ty, 0).into_iter().enumerate() { let o = off.add(&self.field_off(ty, 0, i as u32)); self.find_adt(f, path, o, out, depth + 1); } }
    }
    fn is_node(&self, node: Ty<'tcx>, link: Ty<'tcx>) -> bool { self.fields(node, 0).contains(&link) }
    fn same_val(&mut self, st: &mut State<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> R<BExp> {
        Ok(match (a, b) {
            (Val::Tok(x), Val::Tok(y)) => if x.id == y.id { BExp::Eq(x.idx.sub(&y.idx)).simp() } else { BExp::K(false) },
            (Val::Int(x), Val::Int(y)) => BExp::Eq(x.sub(y)).simp(),
            (Val::Bool(_), Val::Bool(_)) => { let x = self.as_int(st, a.clone())?; let y = self.as_int(st, b.clone())?; BExp::Eq(x.sub(&y)).simp() }
            (Val::Ptr(x), Val::Ptr(y)) => { let mut x = x.clone(); let mut y = y.clone(); if x.meta == Meta::None || y.meta == Meta::None { x.meta = Meta::None; y.meta = Meta::None; } self.ptr_eq(st, &x, &y) }
            (Val::Agg(x), Val::Agg(y)) | (Val::Enum(_, x), Val::Enum(_, y)) if x.len() == y.len() => {
                if let (Val::Enum(i, _), Val::Enum(j, _)) = (a, b) { if i != j { return Ok(BExp::K(false)); } }
                let mut e = BExp::K(true);
                for (p, q) in x.iter().zip(y) { let r = self.same_val(st, p, q)?; e = BExp::and(e, r); }
                e
            }
            (x, y) if x == y && *x != Val::Undef => BExp::K(true),
            _ => BExp::K(false),
        })
    }
    fn mark_pos(&self, st: &State<'tcx>, m: i128) -> usize {
        let n = format!("mark{m}");
        st.log.iter().position(|e| matches!(e, Ev::Note { name, .. } if *name == n)).map(|i| i + 1).unwrap_or(0)
    }
    fn ghost_fail(&mut self, st: &State<'tcx>, name: &str, m: String) {
        let _ = name;
        let ok = st.infeasible();
        self.record(st, "contract", ok, || m.clone());
    }
    pub fn ghost_call(&mut self, st: State<'tcx>, name: &str, ga: GenericArgsRef<'tcx>, args: Vec<Val<'tcx>>, tys: Vec<Ty<'tcx>>, dty: Ty<'tcx>, fr: &Frame<'tcx>) -> Outs<'tcx> {
        let m = name.strip_prefix("g::").unwrap_or(name).to_string();
        if m == "catch" {
            // run a closure; unwinding becomes Err
            let cty = tys[0];
            let mut st = st;
            let saved = st.unwind; st.unwind = true;
            let rt = self.norm(ga.type_at(0));
            let _ = rt;
            let outs = self.call_closure_once(st, args[0].clone(), cty, vec![], fr);
            let mut r = vec![];
            for (mut s, o) in outs {
                s.unwind = saved; s.panicking = false;
                match o { Out::Ret(v) => r.push((s, Out::Ret(self.ok(v)))), Out::Unwind => { let e = self.err(Val::Zst); r.push((s, Out::Ret(e))) } }
            }
            return r;
        }
        if m == "bump_in" {
            // the unsynchronised allocator inside S
            let t = self.pointee(tys[0]).unwrap();
            let mut out = vec![];
            self.find_adt(t, "static_alloc::unsync::bump::Bump", Lin::k(0), &mut out, 0);
            let (Val::Ptr(p), 1) = (&args[0], out.len()) else { self.undecide(&st, format!("{} allocators in {t}", out.len())); return vec![] };
            let (at, b) = out.pop().unwrap();
            let (ty::Adt(_, a), Some(d)) = (b.kind(), self.model("bump_view")) else { return vec![] };
            let q = Ptr { obj: p.obj, off: p.off.add(&at), meta: Meta::None };
            return self.run_fn(st, Instance::new_raw(d, a), vec![Val::Ptr(q)]);
        }
        let ret_ty = dty;
        self.retry(st, &mut |cx, s| {
            let v = cx.ghost(s, &m, ga, &args, &tys, ret_ty)?;
            Ok(Out::Ret(v))
        })
    }
    pub fn call_closure_once(&mut self, st: State<'tcx>, f: Val<'tcx>, cty: Ty<'tcx>, args: Vec<Val<'tcx>>, fr: &Frame<'tcx>) -> Outs<'tcx> {
        let tcx = self.tcx;
        match cty.kind() {
            ty::Closure(d, a) => {
                let once = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                let packed = if args.is_empty() { Val::Zst } else { Val::Agg(args) };
                if let InstanceKind::Item(d) = once.def {
                    let inst = Instance { def: InstanceKind::Item(d), args: a };
                    let mut v = vec![f];
                    if let Val::Agg(x) = packed { v.extend(x); }
                    return self.run_fn(st, inst, v);
                }
                let did = tcx.lang_items().fn_once_trait().map(|t| tcx.associated_item_def_ids(t).iter().copied().find(|x| tcx.opt_item_name(*x).map(|n| n.as_str() == "call_once").unwrap_or(false)).unwrap()).unwrap();
                let tupled = Ty::new_tup(tcx, &[]);
                let rt = a.as_closure().sig().output().skip_binder();
                self.call_def(st, did, tcx.mk_args(&[cty.into(), tupled.into()]), vec![f, packed], vec![cty, tupled], rt, fr)
            }
            ty::FnDef(..) => self.call(st, f, args, vec![], cty, fr),
            _ => { self.undecide(&st, format!("closure {cty}")); vec![] }
        }
    }
    fn ghost(&mut self, s: &mut State<'tcx>, m: &str, ga: GenericArgsRef<'tcx>, args: &[Val<'tcx>], tys: &[Ty<'tcx>], dty: Ty<'tcx>) -> R<Val<'tcx>> {
        let unit = Val::Zst;
        macro_rules! int { ($i:expr) => { self.as_int(s, args[$i].clone())? } }
        macro_rules! ptr { ($i:expr) => { match self.as_ptr(args[$i].clone()) { Some(p) => p, None => return Err(Stop::Undecided(format!("ghost {m}: pointer expected"))) } } }
        macro_rules! boolean { ($i:expr) => { self.as_bool(args[$i].clone())? } }
        let addr_of_obj = |cx: &Self, p: &Ptr<'tcx>| cx.addr(&Ptr { obj: p.obj, off: Lin::k(0), meta: Meta::None });
        Ok(match m {
            "any" => self.fresh_val(s, dty, "any", None)?,
            "assume" => { let b = boolean!(0); self.assume_split(s, &b)?; if s.infeasible() { return Err(Stop::Dead); } unit }
            "prove" => {
                let b = boolean!(0).simp();
                let label = self.str_arg(&args[1]);
                self.prove(s, &label, &b);
                // later obligations do not repeat the same failure
                if !s.entails(&b) { self.assume_split(s, &b)?; }
                unit
            }
            "reach" => { let l = self.str_arg(&args[0]); if s.infeasible() { return Err(Stop::Dead); } self.reached.insert(l); unit }
            "int" => {
                let p = ptr!(0); let t = self.pointee(tys[0]).unwrap();
                let v = self.load(s, &p, t)?;
                Val::Int(self.as_int(s, v)?)
            }
            "addr" => { let p = ptr!(0); Val::Int(self.addr(&p)) }
            "base" => { let p = ptr!(0); Val::Int(addr_of_obj(self, &p)) }
            "offset_in" => { let p = ptr!(0); Val::Int(p.off) }
            "obj_size" => { let p = ptr!(0); match s.objs.get(&p.obj).and_then(|o| o.size.clone()) { Some(z) => Val::Int(z), None => Val::Int(Lin::k(0)) } }
            "obj_align" => { let p = ptr!(0); match s.objs.get(&p.obj) { Some(o) => Val::Int(o.align.clone()), None => Val::Int(Lin::k(1)) } }
            "is_memory" => { let p = ptr!(0); Val::Bool(BExp::K(p.obj > INT && s.objs.get(&p.obj).map(|o| o.alive).unwrap_or(false))) }
            "same_object" => { let p = ptr!(0); let q = ptr!(1); Val::Bool(BExp::K(p.obj == q.obj)) }
            "in_bounds" => {
                let p = ptr!(0); let n = int!(1);
                let zero = BExp::Eq(n.clone()).simp();
                match s.objs.get(&p.obj).filter(|o| o.alive && p.obj > INT).and_then(|o| o.size.clone()) {
                    Some(z) => Val::Bool(BExp::And(vec![BExp::Ge(p.off.clone()), BExp::Ge(z.sub(&p.off).sub(&n))])),
                    None => Val::Bool(zero),
                }
            }
            "is_multiple" => { let x = int!(0); let a = int!(1); Val::Bool(BExp::Div(x, a)) }
            "pad" => { let x = int!(0); let a = int!(1); Val::Int(align_off(&x, &a)) }
            "prod" => { let x = int!(0); let a = int!(1); Val::Int(mul(&x, &a)) }
            "or" => { let a = boolean!(0); let b = boolean!(1); Val::Bool(BExp::or(a, b)) }
            "and" => { let a = boolean!(0); let b = boolean!(1); Val::Bool(BExp::and(a, b)) }
            "imp" => { let a = boolean!(0); let b = boolean!(1); Val::Bool(BExp::or(a.not(), b)) }
            // ---- event log
            "mark" => {
                let k = s.log.iter().filter(|e| matches!(e, Ev::Note { name, .. } if name.starts_with("mark"))).count();
                s.log.push(Ev::Note { name: format!("mark{k}"), args: vec![] });
                Val::Int(Lin::k(k as i128))
            }
            "claims" | "stores" | "claim_old" | "claim_new" | "observed" | "store_val" => {
                let k = int!(0).as_const().unwrap_or(0);
                let pos = self.mark_pos(s, k);
                let rmw: Vec<(Lin, Lin)> = s.log[pos..].iter().filter_map(|e| match e { Ev::Atomic { kind: "rmw", old, new, .. } => Some((old.clone(), new.clone())), _ => None }).collect();
                let st: Vec<Lin> = s.log[pos..].iter().filter_map(|e| match e { Ev::Atomic { kind: "store", new, .. } => Some(new.clone()), _ => None }).collect();
                match m {
                    "claims" => Val::Int(Lin::k(rmw.len() as i128)),
                    "stores" => Val::Int(Lin::k(st.len() as i128)),
                    "store_val" => { let i = int!(1).as_const().unwrap_or(0) as usize; if i >= st.len() { self.ghost_fail(s, m, format!("no plain store number {i}")); return Err(Stop::Dead); } Val::Int(st[i].clone()) }
                    "observed" => {
                        let x = int!(1);
                        let vals: Vec<Lin> = s.log[pos..].iter().filter_map(|e| match e { Ev::Atomic { kind: "load", old, .. } | Ev::Atomic { kind: "rmw", old, .. } => Some(old.clone()), _ => None }).collect();
                        let mut e = BExp::K(false);
                        for v in vals { e = BExp::or(e, BExp::Eq(v.sub(&x)).simp()); }
                        Val::Bool(e)
                    }
                    _ => {
                        let i = int!(1).as_const().unwrap_or(0) as usize;
                        if i >= rmw.len() { self.ghost_fail(s, m, format!("no atomic update number {i}")); return Err(Stop::Dead); }
                        Val::Int(if m == "claim_old" { rmw[i].0.clone() } else { rmw[i].1.clone() })
                    }
                }
            }
            "observation" => {
                let k = int!(0).as_const().unwrap_or(0); let i = int!(1).as_const().unwrap_or(0) as usize;
                let pos = self.mark_pos(s, k);
                let vals: Vec<Lin> = s.log[pos..].iter().filter_map(|e| match e { Ev::Atomic { kind: "load", old, .. } | Ev::Atomic { kind: "rmw", old, .. } => Some(old.clone()), _ => None }).collect();
                Val::Int(vals.get(i).cloned().unwrap_or(Lin::k(0)))
            }
            "informed_retries" => Val::Bool(BExp::K(!s.ghost.contains_key("uninformed"))),
            "bounded_loops" => { let n = int!(0); s.ghost.insert("unroll".into(), Val::Int(n)); unit }
            "zeroed" => {
                let p = ptr!(0); let n = int!(1); let hi = p.off.add(&n);
                let ok = s.entails(&BExp::Eq(n)) || s.objs.get(&p.obj).map(|o| o.segs.clone()).unwrap_or_default().iter().any(|g| g.what == SegVal::Zero && s.facts.entails_ge(&p.off.sub(&g.lo)) && s.facts.entails_ge(&g.hi.sub(&hi)));
                Val::Bool(BExp::K(ok))
            }
            "allocs" | "deallocs" => {
                let k = int!(0).as_const().unwrap_or(0);
                let pos = self.mark_pos(s, k);
                let n = s.log[pos..].iter().filter(|e| if m == "allocs" { matches!(e, Ev::Alloc { .. }) } else { matches!(e, Ev::Dealloc { .. }) }).count();
                Val::Int(Lin::k(n as i128))
            }
            "live_heap" => {
                let n = s.objs.values().filter(|o| o.kind == ObjKind::Heap && o.alive).count();
                Val::Int(Lin::k(n as i128))
            }
            "alive" => { let p = ptr!(0); Val::Bool(BExp::K(s.objs.get(&p.obj).map(|o| o.alive).unwrap_or(false))) }
            "put" => { let l = self.str_arg(&args[0]); let v = int!(1); s.ghost.insert(format!("put:{l}"), Val::Int(v)); unit }
            "get" => { let l = self.str_arg(&args[0]); match s.ghost.get(&format!("put:{l}")) { Some(v) => v.clone(), None => Val::Int(Lin::k(-1)) } }
            "note" => { let l = self.str_arg(&args[0]); s.log.push(Ev::Note { name: format!("note {l}"), args: vec![] }); unit }
            "notes" => {
                let k = int!(0).as_const().unwrap_or(0); let pos = self.mark_pos(s, k);
                let l = format!("note {}", self.str_arg(&args[1]));
                Val::Int(Lin::k(s.log[pos..].iter().filter(|e| matches!(e, Ev::Note { name, .. } if *name == l)).count() as i128))
            }
            "panics" => {
                let k = int!(0).as_const().unwrap_or(0);
                let pos = self.mark_pos(s, k);
                Val::Int(Lin::k(s.log[pos..].iter().filter(|e| matches!(e, Ev::Panic)).count() as i128))
            }
            "user_calls" => {
                let k = int!(0).as_const().unwrap_or(0);
                let pos = self.mark_pos(s, k);
                let w = self.str_arg(&args[1]);
                Val::Int(Lin::k(s.log[pos..].iter().filter(|e| matches!(e, Ev::User { name, .. } if name.contains(&w))).count() as i128))
            }
            // every write since the mark into the object of p stays inside [p, p+n)
            "writes_within" | "untouched" | "no_writes" => {
                let k = int!(0).as_const().unwrap_or(0);
                let pos = self.mark_pos(s, k);
                let p = ptr!(1); let n = if m == "no_writes" { Lin::k(0) } else { int!(2) };
                let mut e = BExp::K(true);
                for ev in s.log[pos..].to_vec() {
                    let (o, off, size) = match ev { Ev::Write { obj, off, size } => (obj, off, size), Ev::Copy { dst, size, .. } | Ev::Fill { dst, size, .. } => (dst.obj, dst.off, size), _ => continue };
                    if o != p.obj { continue; }
                    let b = match m {
                        "writes_within" => BExp::And(vec![BExp::Ge(off.sub(&p.off)), BExp::Ge(p.off.add(&n).sub(&off).sub(&size))]),
                        "untouched" => BExp::Or(vec![BExp::Ge(off.sub(&p.off).sub(&n)), BExp::Ge(p.off.sub(&off).sub(&size)), BExp::Ge(size.neg())]),
                        _ => BExp::Eq(size.clone()).simp(),
                    };
                    if s.entails(&b) { continue; }
                    e = BExp::and(e, b);
                }
                Val::Bool(e)
            }
            // ---- values
            "snap" => { let p = ptr!(0); let t = self.pointee(tys[0]).unwrap(); let v = self.load(s, &p, t)?; Val::Agg(vec![self.wrap_md(dty, v)]) }
            "same" => {
                let p = ptr!(0); let q = ptr!(1); let t = self.pointee(tys[0]).unwrap(); let u = self.pointee(tys[1]).unwrap();
                // there is only one value without bytes
                let z = self.size_of(t);
                if !self.is_zst(t) && s.facts.entails_ge(&z.neg()) { Val::Bool(BExp::K(true)) } else {
                let a = self.load(s, &p, t)?; let b = self.load(s, &q, u)?;
                let b = self.unwrap_snap(b, u); let a = self.unwrap_snap(a, t);
                Val::Bool(self.same_val(s, &a, &b)?)
                }
            }
            "drops" => {
                let p = ptr!(0); let t = self.pointee(tys[0]).unwrap();
                let v = self.load(s, &p, t)?;
                let v = self.unwrap_snap(v, t);
                let Some(tok) = self.first_tok(&v) else { return Err(Stop::Undecided(format!("drops of {v:?}"))) };
                let mut n = Lin::k(0);
                for e in s.log.clone() { match e {
                    Ev::Drop { tok: t2, .. } if t2.id == tok.id => { if self.decide(s, &BExp::Eq(t2.idx.sub(&tok.idx)).simp())? { n = n.addk(1); } }
                    Ev::DropSeq { tok: t2, n: c, .. } if t2.id == tok.id => {
                        let b = BExp::And(vec![BExp::Ge(tok.idx.sub(&t2.idx)), BExp::Ge(t2.idx.add(&c).sub(&tok.idx).addk(-1))]);
                        if self.decide(s, &b)? { n = n.addk(1); }
                    }
                    _ => {}
                } }
                Val::Int(n)
            }
            // number of values of type T dropped since the mark
            "drops_of" => {
                let k = int!(0).as_const().unwrap_or(0);
                let pos = self.mark_pos(s, k);
                let t = self.norm(ga.type_at(0));
                let mut n = Lin::k(0);
                for e in &s.log[pos..] { match e { Ev::Drop { ty, .. } if *ty == t => n = n.addk(1), Ev::DropSeq { ty, n: c, .. } if *ty == t => n = n.add(c), _ => {} } }
                Val::Int(n)
            }
            // does the slice at p consist of the n elements of the sequence behind q, starting at its k-th?
            "holds" => {
                let p = ptr!(0); let q = ptr!(1); let k = int!(2); let n = int!(3);
                let e = self.norm(ga.type_at(0));
                let z = self.size_of(e);
                if !self.is_zst(e) && s.facts.entails_ge(&z.neg()) { Val::Bool(BExp::K(true)) } else {
                Val::Bool(self.same_range(s, &p, &q, &k, &n, e)?)
                }
            }
            "seq_of" => {
                // remember the contents of a slice: a ghost copy of the elements
                let p = ptr!(0); let e = self.norm(ga.type_at(0));
                let n = match &p.meta { Meta::Len(n) => n.clone(), _ => return Err(Stop::Undecided("seq_of".into())) };
                let es = self.size_of(e);
                let bytes = mul(&n, &es);
                let al = self.align_of(e);
                let o = self.new_obj(s, ObjKind::Ghost, "ghost copy", Some(bytes.clone()), al);
                s.obj_mut(o).raw = true;
                let lo = p.off.clone(); let hi = lo.add(&bytes);
                if s.objs.contains_key(&p.obj) {
                    let src = s.obj(p.obj).clone();
                    for g in &src.segs {
                        if (g.lo == lo || s.facts.entails_ge(&g.lo.sub(&lo))) && (g.hi == hi || s.facts.entails_ge(&hi.sub(&g.hi))) {
                            s.obj_mut(o).segs.push(Seg { lo: g.lo.sub(&lo), hi: g.hi.sub(&lo), what: g.what.clone() });
                        } else if s.facts.entails_ge(&lo.sub(&g.lo)) && s.facts.entails_ge(&g.hi.sub(&hi)) {
                            let what = self.seg_shift(s, g, &lo.sub(&g.lo));
                            s.obj_mut(o).segs.push(Seg { lo: Lin::k(0), hi: bytes.clone(), what });
                        }
                    }
                    for ((off, k), v) in &src.cells {
                        if s.facts.entails_ge(&off.sub(&lo)) && s.facts.entails_ge(&hi.sub(off).sub(&self.size_of(v.0))) { s.obj_mut(o).cells.insert((off.sub(&lo), *k), v.clone()); }
                    }
                }
                Val::Ptr(Ptr { obj: o, off: Lin::k(0), meta: Meta::Len(n) })
            }
            "contents" => {
                let p = ptr!(0); let t = self.pointee(tys[0]).unwrap();
                let v = self.vec_ref(s, &p, t)?;
                Val::Ptr(Ptr { obj: v.obj, off: Lin::k(0), meta: Meta::Len(v.len) })
            }
            // ---- linked lists
            "list_in" => {
                // the list that starts at the only handle in S is any list of U
                let p = ptr!(0); let t = self.pointee(tys[0]).unwrap(); let elem = self.norm(ga.type_at(1));
                let mut out = vec![];
                self.find_handles(t, Lin::k(0), &mut out, 0);
                if out.len() != 1 { return Err(Stop::Undecided(format!("{} list handles in {t}", out.len()))); }
                let (at, link, pointee) = out.pop().unwrap();
                let ty::Adt(d, a) = pointee.kind() else { return Err(Stop::Undecided("list node".into())) };
                let a: Vec<ty::GenericArg<'tcx>> = a.iter().map(|x| if matches!(x.as_type().map(|t| t.kind()), Some(ty::Dynamic(..))) { elem.into() } else { x }).collect();
                let node = Ty::new_adt(self.tcx, *d, self.tcx.mk_args(&a));
                let (ns, al) = self.size_align(node);
                let mut lo = None; let mut vo = None;
                for (i, f) in self.fields(node, 0).into_iter().enumerate() { let o = self.field_off(node, 0, i as u32); if f == link { lo = Some(o) } else if f == elem { vo = Some(o) } }
                let (Some(link_off), Some(val_off)) = (lo, vo) else { return Err(Stop::Undecided(format!("{node} as a list node"))) };
                let len = fresh_ranged("length of the list", 0, ISIZE_MAX);
                let total = mul(&len, &ns);
                s.assume(&BExp::Ge(total.neg().addk(ISIZE_MAX)));
                let o = self.new_obj(s, ObjKind::Ext, "list", Some(total), al);
                { let ob = s.obj_mut(o); ob.raw = true; ob.lazy = true; }
                let tok = self.new_tok(elem, "list element");
                self.seq_ids.borrow_mut().insert(tok);
                let l = ListInfo { len: len.clone(), node, link, link_off, val_off, elem, tok };
                self.lists.insert(o, l.clone());
                s.ghost.insert(format!("gone:{o}"), Val::Int(Lin::k(0)));
                let some = self.decide(s, &BExp::Ge(len.addk(-1)))?;
                let v = self.list_link(o, &l, &Lin::k(0), some);
                self.store(s, &Ptr { obj: p.obj, off: p.off.add(&at), meta: Meta::None }, link, v)?;
                // the elements as a sequence
                let (es, ea) = self.size_align(elem);
                let bytes = mul(&len, &es);
                let g = self.new_obj(s, ObjKind::Ghost, "elements of a list", Some(bytes.clone()), ea);
                s.obj_mut(g).raw = true;
                s.obj_mut(g).segs.push(Seg { lo: Lin::k(0), hi: bytes, what: SegVal::Seq { ty: elem, id: tok, start: Lin::k(0) } });
                s.ghost.insert(format!("list{g}"), Val::Tok(Tok { id: tok, idx: len.clone() }));
                Val::Ptr(Ptr { obj: g, off: Lin::k(0), meta: Meta::Len(len) })
            }
            // the elements of the list were dropped in order, each once, since the mark
            "dropped_in_order" | "dropped_before" => {
                let k = int!(0).as_const().unwrap_or(0); let pos = self.mark_pos(s, k);
                let p = ptr!(1);
                let Some(Val::Tok(l)) = s.ghost.get(&format!("list{}", p.obj)).cloned() else { return Err(Stop::Undecided("no list".into())) };
                let evs: Vec<(usize, Lin, Lin)> = s.log[pos..].iter().enumerate().filter_map(|(i, e)| match e {
                    Ev::Drop { tok, .. } if tok.id == l.id => Some((i, tok.idx.clone(), Lin::k(1))),
                    Ev::DropSeq { tok, n, .. } if tok.id == l.id => Some((i, tok.idx.clone(), n.clone())), _ => None }).collect();
                if m == "dropped_in_order" {
                    let mut at = Lin::k(0); let mut e = BExp::K(true);
                    for (_, i, n) in evs { e = BExp::and(e, BExp::Eq(i.sub(&at)).simp()); at = at.add(&n); }
                    Val::Bool(BExp::and(e, BExp::Eq(at.sub(&l.idx)).simp()))
                } else {
                    // no element of the list is dropped before the value q
                    let q = ptr!(2); let t = self.pointee(tys[2]).unwrap();
                    let v = self.load(s, &q, t)?; let v = self.unwrap_snap(v, t);
                    let Some(tok) = self.first_tok(&v) else { return Err(Stop::Undecided("value".into())) };
                    let mine = s.log[pos..].iter().rposition(|e| matches!(e, Ev::Drop { tok: t2, .. } if t2.id == tok.id));
                    Val::Bool(BExp::K(match mine { Some(i) => evs.iter().all(|e| e.0 > i), None => false }))
                }
            }
            // v is dropped before w
            "drop_order" => {
                let mut at = vec![];
                for i in 0..2 {
                    let q = ptr!(i); let t = self.pointee(tys[i]).unwrap();
                    let v = self.load(s, &q, t)?; let v = self.unwrap_snap(v, t);
                    let Some(tok) = self.first_tok(&v) else { return Err(Stop::Undecided("value".into())) };
                    at.push(s.log.iter().position(|e| matches!(e, Ev::Drop { tok: t2, .. } if t2.id == tok.id)));
                }
                Val::Bool(BExp::K(matches!((at[0], at[1]), (Some(a), Some(b)) if a < b)))
            }
            // was v dropped at p?
            "dropped_at" => {
                let q = ptr!(0); let t = self.pointee(tys[0]).unwrap(); let p = ptr!(1);
                let v = self.load(s, &q, t)?; let v = self.unwrap_snap(v, t);
                let Some(tok) = self.first_tok(&v) else { return Err(Stop::Undecided("value".into())) };
                let mut e = BExp::K(false);
                for ev in &s.log { if let Ev::Drop { tok: t2, obj, off, .. } = ev { if t2.id == tok.id && *obj == p.obj { e = BExp::or(e, BExp::Eq(off.sub(&p.off)).simp()); } } }
                Val::Bool(e)
            }
            "watch" => {
                let p = ptr!(0);
                let u = self.tcx.types.usize;
                let v = self.load(s, &p, u)?;
                let x = self.as_int(s, v)?;
                s.ghost.insert("watch".into(), Val::Agg(vec![Val::Ptr(p), Val::Int(x)]));
                unit
            }
            "unwatch" => { s.ghost.remove("watch"); unit }
            // ---- state set-up
            "shared" => {
                let p = ptr!(0); let mx = int!(1);
                s.ghost.insert(format!("amax{}", p.obj), Val::Int(mx));
                s.obj_mut(p.obj).shared = true;
                unit
            }
            "field" => {
                let p = ptr!(0); let t = self.pointee(tys[0]).unwrap(); let w = self.norm(ga.type_at(1));
                let mut out = vec![];
                self.find_field(t, w, Lin::k(0), &mut out, 0);
                if out.len() != 1 { return Err(Stop::Undecided(format!("{} fields of type {w} in {t}", out.len()))); }
                Val::Ptr(Ptr { obj: p.obj, off: p.off.add(&out[0]), meta: Meta::None })
            }
            "lend" => {
                // fresh memory of n bytes at an address that is a multiple of a; contents unknown
                let n = int!(0); let a = int!(1);
                let o = self.new_obj(s, ObjKind::Ext, "lent memory", Some(n.clone()), a);
                let ob = s.obj_mut(o); ob.raw = true;
                Val::Ptr(Ptr { obj: o, off: Lin::k(0), meta: Meta::None })
            }
            "slice_at" => { let mut p = ptr!(0); let n = int!(1); p.meta = Meta::Len(n); if p.obj > INT && s.objs.contains_key(&p.obj) { s.obj_mut(p.obj).raw = true; } Val::Ptr(p) }
            "unwinding" => { let b = boolean!(0); s.unwind = matches!(b, BExp::K(true)); if s.unwind { s.ghost.insert("unwound".into(), Val::Int(Lin::k(0))); } else { s.ghost.remove("unwound"); } unit }
            "forbid_panic" => { let b = boolean!(0); s.forbid_panic = matches!(b, BExp::K(true)); unit }
            "alloc_may_fail" => { let b = boolean!(0); s.allow_alloc_fail = matches!(b, BExp::K(true)); unit }
            "freed" => { let p = ptr!(0); s.obj_mut(p.obj).alive = false; unit }
            "havoc" => { // forget an exclusively owned field
                let p = ptr!(0); let t = self.pointee(tys[0]).unwrap();
                let v = self.fresh_val(s, t, "havoc", None)?;
                self.store(s, &p, t, v)?; unit
            }
            "nondet" => { Val::Int(self.fresh_int(self.tcx.types.usize, "nondet")) }
            "debug" => { if self.verbose { let l = self.str_arg(&args[0]); eprintln!("DEBUG {l}: trail {:?}\n facts: {:?}\n log: {:?}", s.trail_vec(), s.facts.ge.iter().map(|l| BExp::Ge(l.clone()).show()).collect::<Vec<_>>(), s.log); } unit }
            "dump" => { if self.verbose { let p = ptr!(0); eprintln!("DUMP {:?}: {:?}", p, s.objs.get(&p.obj)); } unit }
            _ => return Err(Stop::Undecided(format!("unknown ghost function {m}"))),
        })
    }
    fn wrap_md(&self, ty: Ty<'tcx>, v: Val<'tcx>) -> Val<'tcx> {
        // Snap<T>(ManuallyDrop<T>): wrap along the newtype chain down to T
        let fs = self.fields(ty, 0);
        let Some(f) = fs.first() else { return v };
        let mut t = *f; let mut wraps = 0;
        while let ty::Adt(d, _) = t.kind() {
            let n = self.tcx.item_name(d.did()).to_string();
            if n == "ManuallyDrop" || n == "MaybeDangling" { wraps += 1; t = self.fields(t, 0)[0]; } else { break; }
        }
        let mut v = v;
        for _ in 0..wraps { v = Val::Agg(vec![v]); }
        v
    }
    fn unwrap_snap(&self, v: Val<'tcx>, ty: Ty<'tcx>) -> Val<'tcx> {
        if self.self_name(ty) != "Snap" { return v; }
        let mut t = ty; let mut v = v;
        loop {
            match t.kind() {
                ty::Adt(d, _) if matches!(self.tcx.item_name(d.did()).as_str(), "Snap" | "ManuallyDrop" | "MaybeDangling") => {
                    t = self.fields(t, 0)[0];
                    match v { Val::Agg(mut x) if x.len() == 1 => v = x.pop().unwrap(), o => return o }
                }
                _ => return v,
            }
        }
    }
    fn first_tok(&self, v: &Val<'tcx>) -> Option<Tok> {
        match v { Val::Tok(t) => Some(t.clone()), Val::Agg(x) | Val::Enum(_, x) => x.iter().find_map(|y| self.first_tok(y)), _ => None }
    }
    /// do the n elements at p equal the n elements from index k of the ghost sequence at q?
    pub fn same_range(&mut self, s: &mut State<'tcx>, p: &Ptr<'tcx>, q: &Ptr<'tcx>, k: &Lin, n: &Lin, e: Ty<'tcx>) -> R<BExp> {
        if n.is_zero() || s.entails(&BExp::Eq(n.clone())) { return Ok(BExp::K(true)); }
        let es = self.size_of(e);
        if es.is_zero() || s.entails(&BExp::Eq(es.clone())) { return Ok(BExp::K(true)); }
        let mut done = Lin::k(0);
        for _ in 0..8 {
            if self.decide(s, &BExp::Ge(done.sub(n)).simp())? { return Ok(BExp::K(true)); }
            let pa = Ptr { obj: p.obj, off: p.off.add(&mul(&done, &es)), meta: Meta::None };
            let qa = Ptr { obj: q.obj, off: q.off.add(&mul(&k.add(&done), &es)), meta: Meta::None };
            // both sides inside a segment of the same sequence?
            let a = self.seq_at(s, &pa, e, &es); let b = self.seq_at(s, &qa, e, &es);
            if let (Some((i1, x1, h1)), Some((i2, x2, h2))) = (&a, &b) {
                if i1 != i2 || !s.facts.entails_eq(&x1.sub(x2)) { return Ok(BExp::K(false)); }
                let h = if self.decide(s, &BExp::Ge(h2.sub(h1)).simp())? { h1.clone() } else { h2.clone() };
                done = done.add(&h);
                continue;
            }
            let v = self.load(s, &pa, e)?; let w = self.load(s, &qa, e)?;
            let r = self.same_val(s, &v, &w)?;
            if !s.entails(&r) { return Ok(BExp::K(false)); }
            done = done.addk(1);
        }
        Err(Stop::Undecided("comparison of sequences".into()))
    }
    /// (sequence id, index, number of elements left) at p
    fn seq_at(&mut self, s: &State<'tcx>, p: &Ptr<'tcx>, e: Ty<'tcx>, es: &Lin) -> Option<(u32, Lin, Lin)> {
        let o = s.objs.get(&p.obj)?;
        for g in &o.segs {
            if let SegVal::Seq { ty, id, start } = &g.what {
                if *ty != e { continue; }
                if !(g.lo == p.off || s.facts.entails_ge(&p.off.sub(&g.lo))) { continue; }
                let Some(i) = self.index_of(&s.facts, &p.off.sub(&g.lo), es) else { continue };
                let Some(h) = self.index_of(&s.facts, &g.hi.sub(&p.off), es) else { continue };
                if s.facts.entails_ge(&h.addk(-1)) { return Some((*id, start.add(&i), h)); }
            }
        }
        None
    }
}
