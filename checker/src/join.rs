//! Loop heads: subsumption, generalisation and widening of states.
use crate::engine::*;
use crate::interp::Head;
use crate::num::*;
use crate::val::*;
use rustc_middle::mir::BasicBlock;
use rustc_middle::ty;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const ENTRIES: u32 = 2;

#[derive(Default)]
struct J {
    strict: bool, pairs: BTreeMap<(Lin, Lin), Lin>, order: Vec<(Lin, Lin, Sym)>, own: BTreeSet<Sym>, used: BTreeSet<Sym>, same: BTreeSet<Sym> }
impl J {
    /// symbols in a part that is taken over as it is keep their meaning
    fn keep(&mut self, a: &Lin) { deep_syms(a, &mut self.same); }
    fn keep_b(&mut self, a: &BExp) {
        match a {
            BExp::K(_) => {}
            BExp::Ge(x) | BExp::Eq(x) | BExp::Ne(x) => self.keep(x),
            BExp::Div(x, y) | BExp::NDiv(x, y) => { self.keep(x); self.keep(y); }
            BExp::And(v) | BExp::Or(v) => for x in v { self.keep_b(x) },
        }
    }
    fn keep_m<'tcx>(&mut self, m: &Meta<'tcx>) { if let Meta::Len(x) = m { self.keep(x) } }
    fn keep_v<'tcx>(&mut self, a: &Val<'tcx>) {
        match a {
            Val::Int(x) => self.keep(x),
            Val::Bool(b) => self.keep_b(b),
            Val::Ptr(p) => { self.keep(&p.off); self.keep_m(&p.meta); }
            Val::Tok(t) => self.keep(&t.idx),
            Val::Agg(v) | Val::Enum(_, v) => for x in v { self.keep_v(x) },
            Val::Rep(v) => self.keep_v(v),
            Val::Fn(_) | Val::Zst | Val::Undef => {}
        }
    }
    fn keep_ev<'tcx>(&mut self, e: &Ev<'tcx>) {
        match e {
            Ev::Atomic { off, old, new, .. } => { self.keep(off); self.keep(old); self.keep(new); }
            Ev::Drop { tok, off, .. } => { self.keep(&tok.idx); self.keep(off); }
            Ev::DropSeq { tok, n, .. } => { self.keep(&tok.idx); self.keep(n); }
            Ev::Write { off, size, .. } => { self.keep(off); self.keep(size); }
            Ev::Copy { dst, src, size } => { for p in [dst, src] { self.keep(&p.off); self.keep_m(&p.meta); } self.keep(size); }
            Ev::Fill { dst, byte, size } => { self.keep(&dst.off); self.keep_m(&dst.meta); self.keep(byte); self.keep(size); }
            Ev::User { args, ret, .. } => { for a in args { self.keep_v(a) } self.keep_v(ret); }
            Ev::Alloc { size, align, .. } => { self.keep(size); self.keep(align); }
            Ev::Dealloc { off, size, align, .. } => { self.keep(off); self.keep(size); self.keep(align); }
            Ev::Note { args, .. } => for a in args { self.keep_v(a) },
            Ev::Panic => {}
        }
    }
    /// what a join does not generalise
    fn keep_frame<'tcx>(&mut self, o: &Obj<'tcx>) {
        if let Some(z) = &o.size { self.keep(z) }
        self.keep(&o.align);
        if let Some((a, b, _)) = &o.heap { self.keep(a); self.keep(b); }
        for (k, _) in o.cells.keys() { self.keep(k); }
    }
    fn keep_obj<'tcx>(&mut self, o: &Obj<'tcx>) {
        self.keep_frame(o);
        for (a, b) in &o.killed { self.keep(a); self.keep(b); }
        for (_, v) in o.cells.values() { self.keep_v(v) }
        for s in &o.segs { self.keep(&s.lo); self.keep(&s.hi); if let SegVal::Seq { start, .. } = &s.what { self.keep(start) } }
    }
    fn lin(&mut self, a: &Lin, b: &Lin) -> Lin {
        if a == b { self.keep(a); return a.clone(); }
        if let Some(p) = self.pairs.get(&(a.clone(), b.clone())) { return p.clone(); }
        let s = match a.as_sym() { Some(s) if self.own.contains(&s) && self.used.insert(s) => s, _ => fresh_raw("phi") };
        self.pairs.insert((a.clone(), b.clone()), Lin::s(s));
        self.order.push((a.clone(), b.clone(), s));
        Lin::s(s)
    }
    fn bexp(&mut self, a: &BExp, b: &BExp) -> Option<BExp> {
        Some(match (a, b) {
            (BExp::K(x), BExp::K(y)) if x == y => BExp::K(*x),
            (BExp::Ge(x), BExp::Ge(y)) => BExp::Ge(self.lin(x, y)),
            (BExp::Eq(x), BExp::Eq(y)) => BExp::Eq(self.lin(x, y)),
            (BExp::Ne(x), BExp::Ne(y)) => BExp::Ne(self.lin(x, y)),
            (BExp::Div(x, p), BExp::Div(y, q)) if p == q => { self.keep(p); BExp::Div(self.lin(x, y), p.clone()) }
            (x, y) if x == y => { self.keep_b(x); x.clone() }
            _ => return None,
        })
    }
    fn meta<'tcx>(&mut self, a: &Meta<'tcx>, b: &Meta<'tcx>) -> Option<Meta<'tcx>> {
        Some(match (a, b) { (Meta::Len(x), Meta::Len(y)) => Meta::Len(self.lin(x, y)), (x, y) if x == y => { self.keep_m(x); x.clone() }, _ => return None })
    }
    fn val<'tcx>(&mut self, a: &Val<'tcx>, b: &Val<'tcx>) -> Option<Val<'tcx>> {
        if a == b { self.keep_v(a); return Some(a.clone()); }
        Some(match (a, b) {
            (Val::Int(x), Val::Int(y)) => Val::Int(self.lin(x, y)),
            (Val::Bool(x), Val::Bool(y)) => match self.bexp(x, y) { Some(b) => Val::Bool(b), None => return None },
            (Val::Ptr(x), Val::Ptr(y)) if x.obj == y.obj => Val::Ptr(Ptr { obj: x.obj, off: self.lin(&x.off, &y.off), meta: self.meta(&x.meta, &y.meta)? }),
            (Val::Tok(x), Val::Tok(y)) if x.id == y.id => Val::Tok(Tok { id: x.id, idx: self.lin(&x.idx, &y.idx) }),
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => Val::Agg(x.iter().zip(y).map(|(a, b)| self.val(a, b)).collect::<Option<_>>()?),
            (Val::Enum(i, x), Val::Enum(j, y)) if i == j => Val::Enum(*i, x.iter().zip(y).map(|(a, b)| self.val(a, b)).collect::<Option<_>>()?),
            (Val::Rep(x), Val::Rep(y)) => Val::Rep(Box::new(self.val(x, y)?)),
            _ => return None,
        })
    }
    fn ev<'tcx>(&mut self, a: &Ev<'tcx>, b: &Ev<'tcx>) -> Option<Ev<'tcx>> {
        if a == b { self.keep_ev(a); return Some(a.clone()); }
        Some(match (a, b) {
            (Ev::Atomic { kind, obj, off, old, new }, Ev::Atomic { kind: k2, obj: o2, off: f2, old: l2, new: n2 }) if kind == k2 && obj == o2 =>
                Ev::Atomic { kind, obj: *obj, off: self.lin(off, f2), old: self.lin(old, l2), new: self.lin(new, n2) },
            (Ev::DropSeq { ty, tok, n }, Ev::DropSeq { ty: t2, tok: k2, n: n2 }) if ty == t2 && tok.id == k2.id =>
                Ev::DropSeq { ty: *ty, tok: Tok { id: tok.id, idx: self.lin(&tok.idx, &k2.idx) }, n: self.lin(n, n2) },
            (Ev::Write { obj, off, size }, Ev::Write { obj: o2, off: f2, size: z2 }) if obj == o2 => Ev::Write { obj: *obj, off: self.lin(off, f2), size: self.lin(size, z2) },
            _ => return None,
        })
    }
}

/// Logs grow in loops: runs of events that repeat are summarised.
fn compress_log<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>) {
    let mut out: Vec<Ev<'tcx>> = vec![];
    for e in std::mem::take(&mut st.log) {
        let mut done = false;
        match &e {
            Ev::Atomic { kind: "load", obj, off, .. } => {
                // only the most recent observation of a cell matters inside a retry loop
                if let Some(Ev::Atomic { kind: "load", obj: o2, off: f2, .. }) = out.last() { if o2 == obj && f2 == off { out.pop(); } }
            }
            Ev::Drop { ty, tok, .. } if cx.is_zst_tok(tok.id) => {
                let mut rep = None;
                for (i, p) in out.iter().enumerate().rev() {
                    match p {
                        Ev::DropSeq { tok: k2, n, .. } if k2.id == tok.id => { rep = Some((i, n.addk(1))); break; }
                        Ev::Note { name, .. } if name.starts_with("mark") => break,
                        _ => {}
                    }
                }
                match rep {
                    Some((i, n)) => { out[i] = Ev::DropSeq { ty: *ty, tok: tok.clone(), n }; }
                    None => out.push(Ev::DropSeq { ty: *ty, tok: tok.clone(), n: Lin::k(1) }),
                }
                done = true;
            }
            Ev::Drop { ty, tok, .. } => {
                // consecutive elements
                let mut rep = None;
                if cx.tracked_seq(tok.id) {
                    for (i, p) in out.iter().enumerate().rev() {
                        match p {
                            Ev::DropSeq { ty: t2, tok: k2, n } if t2 == ty && k2.id == tok.id => {
                                if st.facts.entails_eq(&k2.idx.add(n).sub(&tok.idx)) { rep = Some((i, k2.clone(), n.addk(1))); }
                                else if !cx.lists.values().any(|l| l.tok == tok.id) && st.facts.entails_eq(&tok.idx.addk(1).sub(&k2.idx)) { rep = Some((i, tok.clone(), n.addk(1))); }
                                break;
                            }
                            Ev::Note { name, .. } if name.starts_with("mark") => break,
                            _ => {}
                        }
                    }
                    match rep {
                        Some((i, tok, n)) => { out[i] = Ev::DropSeq { ty: *ty, tok, n }; }
                        None => out.push(Ev::DropSeq { ty: *ty, tok: tok.clone(), n: Lin::k(1) }),
                    }
                    done = true;
                }
            }
            _ => {}
        }
        if !done { out.push(e); }
    }
    // writes only matter as a set of ranges per section of the log
    let mut log = vec![];
    let mut writes: Vec<(ObjId, Lin, Lin)> = vec![];
    fn flush<'tcx>(st: &State<'tcx>, log: &mut Vec<Ev<'tcx>>, writes: &mut Vec<(ObjId, Lin, Lin)>) {
        let mut done: Vec<(ObjId, Lin, Lin)> = vec![];
        for mut w in writes.drain(..) {
            loop {
                let mut hit = None;
                for (i, d) in done.iter().enumerate() {
                    if d.0 != w.0 { continue; }
                    let (de, we) = (d.1.add(&d.2), w.1.add(&w.2));
                    let le = |a: &Lin, b: &Lin| st.facts.entails_ge(&b.sub(a));
                    if le(&d.1, &w.1) && le(&we, &de) { hit = Some((i, d.clone())); break; }
                    if le(&w.1, &d.1) && le(&de, &we) { hit = Some((i, w.clone())); break; }
                    if st.facts.entails_eq(&de.sub(&w.1)) { hit = Some((i, (w.0, d.1.clone(), d.2.add(&w.2)))); break; }
                    if st.facts.entails_eq(&we.sub(&d.1)) { hit = Some((i, (w.0, w.1.clone(), d.2.add(&w.2)))); break; }
                }
                match hit { Some((i, n)) => { done.remove(i); w = n; } None => break }
            }
            done.push(w);
        }
        done.sort();
        log.extend(done.into_iter().map(|(obj, off, size)| Ev::Write { obj, off, size }));
    }
    for e in out {
        match e {
            Ev::Write { obj, off, size } => writes.push((obj, off, size)),
            Ev::Note { ref name, .. } if name.starts_with("mark") => { flush(st, &mut log, &mut writes); log.push(e); }
            e => log.push(e),
        }
    }
    flush(st, &mut log, &mut writes);
    st.log = log;
}
/// f / z, if f is a multiple of the symbol z term by term
fn in_units(f: &Lin, z: &Lin) -> Option<Lin> {
    let z = z.as_sym()?;
    if f.c != 0 || f.t.len() < 2 { return None; }
    let mut r = Lin::k(0);
    for &(t, k) in &f.t {
        if t == z { r = r.addk(k); continue; }
        let SymKind::Prod(a, b) = kind(t) else { return None };
        let w = if a == z { b } else if b == z { a } else { return None };
        r = r.add(&Lin::s(w).scale(k));
    }
    Some(r)
}
/// sections of a log between marks: the other events and the written ranges
fn sections<'tcx>(l: &[Ev<'tcx>]) -> Vec<(Vec<Ev<'tcx>>, Vec<Ev<'tcx>>)> {
    let mut r = vec![(vec![], vec![])];
    for e in l {
        match e {
            Ev::Write { .. } => r.last_mut().unwrap().1.push(e.clone()),
            Ev::Note { name, .. } if name.starts_with("mark") => { r.push((vec![e.clone()], vec![])); }
            e => r.last_mut().unwrap().0.push(e.clone()),
        }
    }
    r
}

impl<'tcx> Cx<'tcx> {
    fn why<T>(&self, m: &str) -> Option<T> { if self.verbose { eprintln!("NOJOIN {m}"); } None }
    fn join_obj(&self, j: &mut J, a: &Obj<'tcx>, b: &Obj<'tcx>) -> Option<Obj<'tcx>> {
        let mut o = a.clone();
        j.keep_frame(a);
        j.keep_frame(b);
        if a.alive != b.alive || a.segs.len() != b.segs.len() { return None; }
        o.raw = a.raw || b.raw;
        o.lazy = a.lazy || b.lazy;
        o.cells.clear();
        for (k, (t, v)) in &a.cells {
            match b.cells.get(k) {
                Some((t2, v2)) if t == t2 => match j.val(v, v2) { Some(v) => { o.cells.insert(k.clone(), (*t, v)); } None => {
                    if matches!(a.kind, ObjKind::Local) { if matches!(v, Val::Tok(_)) { return None; } 
                        return None; }
                    return None } },
                _ => {
                    // known on one side only
                    if a.lazy { let e = (k.0.clone(), k.0.add(&self.size_of(*t))); if !o.killed.contains(&e) { o.killed.push(e); } }
                    if a.kind == ObjKind::Local || a.lazy { return None; }
                    return None;
                }
            }
        }
        for k in b.cells.keys() { if !a.cells.contains_key(k) { return None; } }
        o.segs.clear();
        let mut bs = b.segs.clone();
        for s in &a.segs {
            let mut hit = None;
            for (i, t) in bs.iter().enumerate() {
                let same = match (&s.what, &t.what) { (SegVal::Seq { ty, id, .. }, SegVal::Seq { ty: t2, id: i2, .. }) => ty == t2 && id == i2, (x, y) => x == y };
                if same { hit = Some(i); break; }
            }
            let t = bs.remove(hit?);
            if j.strict && matches!(s.what, SegVal::Seq { .. }) && s.lo != t.lo && s.hi != t.hi { return None; }
            let what = match (&s.what, &t.what) { (SegVal::Seq { ty, id, start }, SegVal::Seq { start: s2, .. }) => SegVal::Seq { ty: *ty, id: *id, start: j.lin(start, s2) }, (x, _) => x.clone() };
            o.segs.push(Seg { lo: j.lin(&s.lo, &t.lo), hi: j.lin(&s.hi, &t.hi), what });
        }
        let (mut ka, mut kb) = (a.killed.clone(), b.killed.clone());
        o.killed.clear();
        ka.retain(|k| match kb.iter().position(|l| l == k) { Some(i) => { let k = kb.remove(i); j.keep(&k.0); j.keep(&k.1); o.killed.push(k); false } None => true });
        while !ka.is_empty() && !kb.is_empty() { let (x, y) = (ka.remove(0), kb.remove(0)); o.killed.push((j.lin(&x.0, &y.0), j.lin(&x.1, &y.1))); }
        o.killed.extend(ka);
        for k in kb { j.keep(&k.0); j.keep(&k.1); o.killed.push(k); }
        if let (Some(x), Some(y)) = (&a.size, &b.size) { if x != y { return None; } }
        Some(o)
    }
    /// least general state covering both (None: different shape)
    fn join(&self, j: &mut J, a: &State<'tcx>, b: &State<'tcx>) -> Option<State<'tcx>> {
        if a.unwind != b.unwind || a.panicking != b.panicking || a.forbid_panic != b.forbid_panic { return None; }
        let (la, lb) = (sections(&a.log), sections(&b.log));
        if la.len() != lb.len() || la.iter().zip(&lb).any(|(x, y)| x.0.len() != y.0.len()) { return self.why(&format!("log length {:?} {:?}", a.log, b.log)); }
        let mut r = a.clone();
        let ids: BTreeSet<ObjId> = a.objs.keys().chain(b.objs.keys()).cloned().collect();
        for id in ids {
            match (a.objs.get(&id), b.objs.get(&id)) {
                (Some(x), Some(y)) => { if Rc::ptr_eq(x, y) { j.keep_obj(x); continue; } let Some(o) = self.join_obj(j, x, y) else { return self.why(&format!("object {} {:?} {:?} {:?} | {:?} {:?}", x.name, x.kind, x.cells, x.segs, y.cells, y.segs)) }; r.objs.insert(id, Rc::new(o)); }
                (None, Some(y)) => {
                    // created since: irrelevant when nothing is known about it
                    if matches!(y.kind, ObjKind::Const | ObjKind::Ext) { j.keep_obj(y); r.objs.insert(id, y.clone()); } else { return self.why(&format!("new object {} {:?} {:?} {:?}", y.name, y.kind, y.ty, y.cells)); }
                }
                (Some(x), None) => { if !matches!(x.kind, ObjKind::Const | ObjKind::Ext) { return self.why(&format!("no object {} {:?}", x.name, x.kind)); } }
                _ => {}
            }
        }
        let mut log = vec![];
        for (x, y) in la.iter().zip(&lb) {
            for (x, y) in x.0.iter().zip(&y.0) { match j.ev(x, y) { Some(e) => log.push(e), None => return self.why("log") } }
            let (mut wa, mut wb) = (x.1.clone(), y.1.clone());
            let mut ws: Vec<Ev<'tcx>> = vec![];
            wa.retain(|e| match wb.iter().position(|f| f == e) { Some(i) => { j.keep_ev(e); ws.push(wb.remove(i)); false } None => true });
            while !wa.is_empty() {
                let e = wa.remove(0);
                let Ev::Write { obj, .. } = &e else { unreachable!() };
                let i = wb.iter().position(|f| matches!(f, Ev::Write { obj: o, .. } if o == obj));
                match i { Some(i) => { let f = wb.remove(i); ws.push(j.ev(&e, &f)?); } None => ws.push(e) }
            }
            for e in &wb { j.keep_ev(e) }
            ws.extend(wb);
            log.extend(ws);
        }
        r.log = log;
        if a.ghost.keys().collect::<Vec<_>>() != b.ghost.keys().collect::<Vec<_>>() { return None; }
        if a.ghost.get("unwound") != b.ghost.get("unwound") { return None; }
        for (k, v) in &a.ghost { let w = j.val(v, &b.ghost[k])?; r.ghost.insert(k.clone(), w); }
        if a.seen.len() != b.seen.len() { return None; }
        r.seen.clear();
        for (x, y) in a.seen.iter().zip(&b.seen) { if x.0 != y.0 || x.1 != y.1 { return None; } j.keep(&x.1); r.seen.push((x.0, x.1.clone(), j.lin(&x.2, &y.2))); }
        Some(r)
    }
    /// Arrival at a loop head. Returns the state to continue with, or None when it is covered already.
    pub fn at_head(&mut self, heads: &mut BTreeMap<BasicBlock, Vec<Head<'tcx>>>, bb: BasicBlock, mut st: State<'tcx>, fr: &Frame<'tcx>, group: Option<u32>) -> Option<(State<'tcx>, u32)> {
        if let Some(Val::Int(n)) = st.ghost.get("unroll").cloned() {
            // unrolled: the loop has to end by itself
            let key = format!("unr{}:{}", fr.locals[0], bb.index());
            let c = match st.ghost.get(&key) { Some(Val::Int(c)) => c.addk(1), _ => Lin::k(1) };
            let ok = n.sub(&c).as_const().map(|d| d >= 0).unwrap_or(false);
            let at = fr.name.clone();
            self.record(&st, "loops end without interference", ok || st.infeasible(), || format!("a loop in {at} does not end by itself"));
            self.flush();
            if !ok { return None; }
            st.ghost.insert(key, Val::Int(c));
            return Some((st, 0));
        }
        compress_log(self, &mut st);
        self.forget_nodes(&mut st);
        self.merge_all_segs(&mut st);
        // x >= 0 and x /= 0
        for n in st.facts.ne.clone() {
            for n in [n.clone(), n.neg()] {
                let l = n.addk(-1);
                if !st.facts.ge.contains(&l) && st.facts.entails_ge(&n) { st.facts.add_ge(l); }
            }
        }
        // a difference in bytes is one in elements
        let zs: Vec<Lin> = self.sizes.borrow().values().map(|z| z.0.clone()).filter(|z| z.as_sym().is_some()).collect();
        for z in &zs {
            let es: Vec<Lin> = st.facts.ge.iter().filter_map(|f| { let e = in_units(&f.addk(-f.c), z)?; if f.c == 0 { Some(e) } else if f.c < 0 { Some(e.addk(-1)) } else { None } }).filter(|e| e.as_const().is_none() && !st.facts.ge.contains(e)).collect();
            if es.is_empty() || !st.facts.entails_ge(&z.addk(-1)) { continue; }
            for e in es { st.facts.add_ge(e); }
        }
        let hs = heads.entry(bb).or_default();
        let groups = hs.iter().map(|h| h.group + 1).max().unwrap_or(0);
        if hs.iter().filter(|h| group.map_or(true, |g| g == h.group)).count() > 24 { self.undecide(&st, format!("loop in {} does not stabilise", fr.name)); return None; }
        // what moves one end of a sequence is not mixed with what moves the other, at first
        let known = hs.iter().filter(|h| group.map_or(true, |g| g == h.group)).count();
        for strict in [true, false] {
        if !strict && known < 4 { break; }
        for h in hs.iter_mut() {
            if group.map_or(false, |g| g != h.group) { continue; }
            let mut j = J { own: h.phis.clone(), strict, ..Default::default() };
            let Some(mut r) = self.join(&mut j, &h.st, &st) else { continue };
            if j.used.iter().any(|s| j.same.contains(s)) {
                // a symbol cannot both keep its meaning and take a new one
                let own = h.phis.difference(&j.same).cloned().collect();
                j = J { own, strict, ..Default::default() };
                match self.join(&mut j, &h.st, &st) { Some(x) => r = x, None => continue }
            }
            self.joins += 1;
            let so: BTreeMap<Sym, Lin> = j.order.iter().map(|(a, _, s)| (*s, a.clone())).collect();
            let sn: BTreeMap<Sym, Lin> = j.order.iter().map(|(_, b, s)| (*s, b.clone())).collect();
            // own symbols that were not used keep their meaning on both sides
            let newphi: Vec<(Lin, Lin, Sym)> = j.order.iter().filter(|(_, _, s)| !h.phis.contains(s)).cloned().collect();
            let mut cand: Vec<Lin> = vec![];
            cand.extend(h.st.facts.ge.iter().cloned());
            if !newphi.is_empty() {
                cand.extend(st.facts.ge.iter().cloned());
                for (a, b, s) in &newphi {
                    let p = Lin::s(*s);
                    cand.push(p.sub(a)); cand.push(a.sub(&p));
                    cand.push(p.clone()); cand.push(p.neg());
                    for side in [(&h.st, a), (&st, b)] {
                        // (facts about numbers of bytes as such about numbers of elements)
                        let elems: Vec<Lin> = { let sizes = self.sizes.borrow(); side.0.facts.ge.iter().flat_map(|f| sizes.values().filter_map(|z| in_units(f, &z.0)).collect::<Vec<_>>()).collect() };
                        // a count that began with a constant: how the facts follow it
                        if let Some(k) = side.1.as_const() {
                            for f in side.0.facts.ge.iter().chain(&elems) { if (f.t.len() > 1 && (f.c == k || f.c == -k - 1) || f.c == -k) && f.t.iter().all(|x| x.1.abs() == 1 && !matches!(kind(x.0), SymKind::Prod(..))) { if f.c == k { cand.push(f.addk(-k).add(&p)); } else { cand.push(f.addk(k).sub(&p)); } } }
                        }
                        if let Some(q) = side.1.as_sym() {
                            for f in &side.0.facts.ge {
                                if !f.t.iter().any(|t| matches!(kind(t.0), SymKind::AlignOff(..))) { continue; }
                                let g = f.subst_all(&BTreeMap::from([(q, p.clone())]));
                                if g != *f { cand.push(g); }
                            }
                        }
                        // facts about the value, restated about the joined symbol
                        if let Some(&(x, k)) = side.1.t.iter().find(|t| t.1.abs() == 1) {
                            // value = k*x + rest  =>  x = k*(phi - rest)
                            let rest = side.1.addmul(&Lin::s(x), -k);
                            let by = p.sub(&rest).scale(k);
                            for f in side.0.facts.ge.iter().chain(&elems) { if f.coef(x) != 0 { cand.push(f.subst(x, &by)); } }
                        }
                    }
                    let _ = b;
                }
                // offsets stay inside objects, indices below their lengths
                let mut bounds: BTreeSet<Lin> = BTreeSet::new();
                for o in h.st.objs.values() {
                    let Some(z) = &o.size else { continue };
                    if z.as_const().is_some() || o.kind == ObjKind::Local { continue; }
                    bounds.insert(z.clone());
                    for x in &z.t { if let SymKind::Prod(a, b) = kind(x.0) { for y in [a, b] { if matches!(kind(y), SymKind::MetaLen(_)) { bounds.insert(Lin::s(y)); } } } }
                }
                for l in self.lists.values() { bounds.insert(l.len.clone()); bounds.insert(l.len.addk(-1)); for (_, _, s) in &newphi { cand.push(Lin::s(*s).sub(&l.len)); } }
                for (_, _, s) in &newphi { for z in &bounds { cand.push(z.sub(&Lin::s(*s))); } }
                // order of joined values
                let all: BTreeSet<Sym> = h.phis.iter().cloned().chain(newphi.iter().map(|x| x.2)).collect();
                if all.len() <= 12 { for (_, _, s) in &newphi { for t in &all { if s != t { let d = Lin::s(*s).sub(&Lin::s(*t)); cand.push(d.neg()); cand.push(d); } } } }
                // relations between joined values
                for x in &newphi { for y in &newphi {
                    if x.2 == y.2 { continue; }
                    let (dx, dy) = (x.1.sub(&x.0), y.1.sub(&y.0));
                    for k in [1i128, -1] {
                        if dx == dy.scale(k) || st.facts.entails_eq(&dx.sub(&dy.scale(k))) {
                            let e = Lin::s(x.2).sub(&x.0).sub(&Lin::s(y.2).sub(&y.0).scale(k));
                            cand.push(e.clone()); cand.push(e.neg());
                        }
                    }
                    // one is a function of the other, with padding
                    for (xs, ys) in [(&x.0, &y.0), (&x.1, &y.1)] {
                        let Some(q) = ys.as_sym() else { continue };
                        if !xs.t.iter().any(|t| matches!(kind(t.0), SymKind::AlignOff(..))) { continue; }
                        let mut d = BTreeSet::new();
                        deep_syms(xs, &mut d);
                        if !d.contains(&q) { continue; }
                        let f = xs.subst_all(&BTreeMap::from([(q, Lin::s(y.2))]));
                        let e = Lin::s(x.2).sub(&f);
                        cand.push(e.neg()); cand.push(e);
                    }
                    // distances that vary by padding only
                    let d = x.0.sub(&y.0);
                    if d.t.iter().any(|t| t.1 > 0 && matches!(kind(t.0), SymKind::AlignOff(..))) {
                        let least = Lin { c: d.c, t: d.t.iter().filter(|t| !(t.1 > 0 && matches!(kind(t.0), SymKind::AlignOff(..)))).cloned().collect() };
                        cand.push(Lin::s(x.2).sub(&Lin::s(y.2)).sub(&least));
                    }
                    // byte offsets against element counts
                    if let Some(c) = dy.as_const() { if c != 0 {
                        for sz in self.sizes.borrow().values() {
                            if sz.0.is_zero() || sz.0.as_const() == Some(1) { continue; }
                            if dx == sz.0.scale(c) {
                                let e = Lin::s(x.2).sub(&x.0).sub(&mul(&Lin::s(y.2).sub(&y.0), &sz.0));
                                cand.push(e.clone()); cand.push(e.neg());
                            }
                        }
                    } }
                } }
            }
            cand.sort(); cand.dedup();
            let mut facts = Facts::default();
            let mut changed = !newphi.is_empty();
            for c in cand {
                let o = c.subst_all(&so); let n = c.subst_all(&sn);
                let ok = (o == c && h.st.facts.ge.contains(&c) || h.st.facts.entails_ge(&o)) && (n == c && st.facts.ge.contains(&c) || st.facts.entails_ge(&n));
                if ok { facts.add_ge(c); } else if h.st.facts.ge.contains(&c) {
                    if self.verbose { eprintln!("LOST {} >= 0: was {} ({}) now {} ({})", show(&c), show(&o), h.st.facts.entails_ge(&o), show(&n), st.facts.entails_ge(&n)); }
                    changed = true; }
            }
            for c in h.st.facts.ne.iter().chain(if newphi.is_empty() { [].iter() } else { st.facts.ne.iter() }) {
                if h.st.facts.entails_ne(&c.subst_all(&so)) && st.facts.entails_ne(&c.subst_all(&sn)) { facts.add_ne(c.clone()); } else if h.st.facts.ne.contains(c) { changed = true; }
            }
            for (c, a) in h.st.facts.div.iter().chain(if newphi.is_empty() { [].iter() } else { st.facts.div.iter() }) {
                if h.st.facts.entails_div(&c.subst_all(&so), a) && st.facts.entails_div(&c.subst_all(&sn), a) { facts.add_div(c.clone(), a.clone()); } else if h.st.facts.div.contains(&(c.clone(), a.clone())) { changed = true; }
            }
            // joined offsets stay aligned
            for (a, b, s) in &newphi {
                for &(t, k) in &a.t {
                    let SymKind::AlignOff(x, al) = kind(t) else { continue };
                    if k != 1 { continue; }
                    let r = x.add(&Lin::s(t)).sub(a);
                    if h.st.facts.entails_div(&r.add(a), &al) && st.facts.entails_div(&r.add(b), &al) { facts.add_div(r.add(&Lin::s(*s)), al); }
                }
                for sz in self.sizes.borrow().values() {
                    if sz.1.as_const() == Some(1) || facts.div.contains(&(Lin::s(*s), sz.1.clone())) { continue; }
                    if h.st.facts.entails_div(a, &sz.1) && st.facts.entails_div(b, &sz.1) { facts.add_div(Lin::s(*s), sz.1.clone()); }
                }
            }
            r.facts = facts;
            if self.verbose { eprintln!("JOIN {} {:?} round {} new phis {:?} changed {}", fr.name, bb, h.rounds, newphi, changed); }
            if !changed { return None; }
            // ways to enter a loop are kept apart, as far as they are few
            if group.is_none() && groups < ENTRIES { continue; }
            h.rounds += 1;
            if h.rounds > 25 { let m = format!("loop in {} does not stabilise", fr.name); self.undecide(&st, m); return None; }
            for x in &newphi { h.phis.insert(x.2); }
            r.trail = st.trail.clone();
            h.st = r.clone();
            return Some((r, h.group));
        }
        }
        let g = group.unwrap_or(groups);
        hs.push(Head { st: st.clone(), phis: BTreeSet::new(), rounds: 0, group: g });
        Some((st, g))
    }
    /// adjacent parts of one sequence are one part
    fn merge_all_segs(&mut self, st: &mut State<'tcx>) {
        // values without bytes are found in any memory
        for id in st.objs.iter().filter(|(_, o)| o.raw && !o.cells.is_empty()).map(|(k, _)| *k).collect::<Vec<_>>() {
            let none: Vec<_> = st.obj(id).cells.iter().filter(|(_, v)| matches!(v.0.kind(), ty::Param(_) | ty::Alias(..)) && st.facts.entails_ge(&self.size_of(v.0).neg())).map(|x| x.0.clone()).collect();
            for k in none { st.obj_mut(id).cells.remove(&k); }
        }
        let ids: Vec<ObjId> = st.objs.iter().filter(|(_, o)| o.killed.len() > 1).map(|(k, _)| *k).collect();
        for id in ids {
            let ks = st.obj(id).killed.clone();
            let mut out: Vec<(Lin, Lin)> = vec![];
            for mut k in ks {
                loop {
                    let mut hit = None;
                    for (i, t) in out.iter().enumerate() {
                        let le = |a: &Lin, b: &Lin| st.facts.entails_ge(&b.sub(a));
                        // overlapping or adjacent, in either order
                        if le(&k.0, &t.0) && le(&t.0, &k.1) { hit = Some((i, if le(&t.1, &k.1) { k.clone() } else if le(&k.1, &t.1) { (k.0.clone(), t.1.clone()) } else { continue })); break; }
                        if le(&t.0, &k.0) && le(&k.0, &t.1) { hit = Some((i, if le(&k.1, &t.1) { t.clone() } else if le(&t.1, &k.1) { (t.0.clone(), k.1.clone()) } else { continue })); break; }
                    }
                    match hit { Some((i, n)) => { out.remove(i); k = n; } None => break }
                }
                out.push(k);
            }
            out.sort();
            st.obj_mut(id).killed = out;
        }
        let ids: Vec<ObjId> = st.objs.iter().filter(|(_, o)| !o.segs.is_empty()).map(|(k, _)| *k).collect();
        for id in ids {
            let segs = st.obj(id).segs.clone();
            let mut out: Vec<Seg<'tcx>> = vec![];
            for s in segs.iter() {
                let mut s = s.clone();
                if st.facts.entails_eq(&s.hi.sub(&s.lo)) { continue; }
                loop {
                    let mut hit = None;
                    for (i, t) in out.iter().enumerate() {
                        let (SegVal::Seq { ty, id, start }, SegVal::Seq { ty: t2, id: i2, start: s2 }) = (&s.what, &t.what) else {
                            if s.what == t.what && matches!(s.what, SegVal::Zero | SegVal::Undef) {
                                if st.facts.entails_eq(&s.hi.sub(&t.lo)) { hit = Some((i, Seg { lo: s.lo.clone(), hi: t.hi.clone(), what: s.what.clone() })); break; }
                                if st.facts.entails_eq(&t.hi.sub(&s.lo)) { hit = Some((i, Seg { lo: t.lo.clone(), hi: s.hi.clone(), what: s.what.clone() })); break; }
                            }
                            continue
                        };
                        if ty != t2 || id != i2 { continue; }
                        let z = self.size_of(*ty);
                        for (x, y, a, b) in [(&s, t, start, s2), (t, &s, s2, start)] {
                            if st.facts.entails_eq(&x.hi.sub(&y.lo)) && st.facts.entails_eq(&mul(&b.sub(a), &z).sub(&x.hi.sub(&x.lo))) {
                                hit = Some((i, Seg { lo: x.lo.clone(), hi: y.hi.clone(), what: x.what.clone() })); break;
                            }
                        }
                        if hit.is_some() { break; }
                    }
                    match hit { Some((i, n)) => { out.remove(i); s = n; } None => break }
                }
                out.push(s);
            }
            if out != segs { st.obj_mut(id).segs = out; }
        }
    }
}
