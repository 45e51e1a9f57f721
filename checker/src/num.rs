//! The numeric abstract domain: linear constraints over symbols, with product,
//! division and alignment symbols.  Entailment is decided inside the domain by a
//! rational simplex over the constraints that are connected to the query.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use rustc_data_structures::fx::FxHashMap as HashMap;

pub type Sym = u32;
pub const USIZE_MAX: i128 = u64::MAX as i128;
pub const ISIZE_MAX: i128 = i64::MAX as i128;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}

impl Lin {
    pub fn k(c: i128) -> Lin { Lin { c, t: vec![] } }
    pub fn s(s: Sym) -> Lin { Lin { c: 0, t: vec![(s, 1)] } }
    pub fn as_const(&self) -> Option<i128> { if self.t.is_empty() { Some(self.c) } else { None } }
    pub fn as_sym(&self) -> Option<Sym> { if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 { Some(self.t[0].0) } else { None } }
    pub fn is_zero(&self) -> bool { self.c == 0 && self.t.is_empty() }
    pub fn add(&self, o: &Lin) -> Lin { self.addmul(o, 1) }
    pub fn sub(&self, o: &Lin) -> Lin { self.addmul(o, -1) }
    pub fn addk(&self, k: i128) -> Lin { let mut r = self.clone(); r.c += k; r }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 { return Lin::k(0); }
        Lin { c: self.c * k, t: self.t.iter().map(|&(s, a)| (s, a * k)).collect() }
    }
    pub fn neg(&self) -> Lin { self.scale(-1) }
    pub fn addmul(&self, o: &Lin, k: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, o.t[j].1 * k)); j += 1; }
            else { let a = self.t[i].1 + o.t[j].1 * k; if a != 0 { t.push((self.t[i].0, a)); } i += 1; j += 1; }
        }
        t.retain(|x| x.1 != 0);
        Lin { c: self.c + o.c * k, t }
    }
    pub fn coef(&self, s: Sym) -> i128 { self.t.iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or(0) }
    pub fn subst(&self, s: Sym, by: &Lin) -> Lin {
        let a = self.coef(s);
        if a == 0 { return self.clone(); }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.addmul(by, a)
    }
    /// Simultaneous substitution.  Product symbols are rebuilt when a factor is substituted.
    pub fn subst_all(&self, m: &BTreeMap<Sym, Lin>) -> Lin {
        let mut r = Lin::k(self.c);
        for &(s, a) in &self.t { r = r.addmul(&subst_sym(s, m), a); }
        r
    }
    pub fn syms(&self, out: &mut BTreeSet<Sym>) { for x in &self.t { out.insert(x.0); } }
}

/// all symbols a value depends on
pub fn deep_syms(l: &Lin, out: &mut BTreeSet<Sym>) {
    for x in &l.t { deep_sym(x.0, out); }
}
fn deep_sym(s: Sym, out: &mut BTreeSet<Sym>) {
    if !out.insert(s) { return; }
    match kind(s) {
        SymKind::Prod(a, b) => { deep_sym(a, out); deep_sym(b, out); }
        SymKind::Div(x, y) | SymKind::AlignOff(x, y) | SymKind::AlignRem(x, y) => { deep_syms(&x, out); deep_syms(&y, out); }
        _ => {}
    }
}
fn subst_sym(s: Sym, m: &BTreeMap<Sym, Lin>) -> Lin {
    if let Some(l) = m.get(&s) { return l.clone(); }
    let k = kind(s);
    match k {
        SymKind::Prod(a, b) => {
            let (x, y) = (subst_sym(a, m), subst_sym(b, m));
            if x.as_sym() == Some(a) && y.as_sym() == Some(b) { Lin::s(s) } else { mul(&x, &y) }
        }
        SymKind::Div(x, y) => {
            let (x2, y2) = (x.subst_all(m), y.subst_all(m));
            if x2 == x && y2 == y { Lin::s(s) } else { div(&x2, &y2) }
        }
        SymKind::AlignOff(x, y) => {
            let (x2, y2) = (x.subst_all(m), y.subst_all(m));
            if x2 == x && y2 == y { Lin::s(s) } else { align_off(&x2, &y2) }
        }
        SymKind::AlignRem(x, y) => {
            let (x2, y2) = (x.subst_all(m), y.subst_all(m));
            if x2 == x && y2 == y { Lin::s(s) } else { align_rem(&x2, &y2) }
        }
        _ => Lin::s(s),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SymKind {
    Fresh(String, u32),
    SizeOf(String),
    AlignOf(String),
    FieldOff(String, u32, u32),
    Addr(u32),
    OfTok(u32),
    Discr(u32),
    LayoutSize(u32),
    LayoutAlign(u32),
    MetaLen(u32),
    SizeOfVal(u32, String),
    AlignOfVal(u32, String),
    Prod(Sym, Sym),
    Div(Lin, Lin),
    AlignOff(Lin, Lin),
    AlignRem(Lin, Lin),
    Named(String),
}

#[derive(Default)]
pub struct Tab {
    pub kinds: Vec<SymKind>,
    pub map: HashMap<SymKind, Sym>,
    pub axioms: Vec<Vec<Lin>>,
    /// (lin, align): lin is a multiple of align, always
    pub divs: Vec<Vec<(Lin, Lin)>>,
    pub pow2: BTreeSet<Sym>,
    pub fresh: u32,
    pub queries: u64,
}
thread_local! { pub static TAB: RefCell<Tab> = RefCell::new(Tab::default()); }

pub fn reset_tab() { TAB.with(|t| *t.borrow_mut() = Tab::default()); }
pub fn kind(s: Sym) -> SymKind { TAB.with(|t| t.borrow().kinds[s as usize].clone()) }
pub fn lookup(k: &SymKind) -> Option<Sym> { TAB.with(|t| t.borrow().map.get(k).copied()) }
/// returns (symbol, newly created)
pub fn intern(k: SymKind) -> (Sym, bool) {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&s) = t.map.get(&k) { return (s, false); }
        let s = t.kinds.len() as Sym;
        t.kinds.push(k.clone());
        t.map.insert(k, s);
        t.axioms.push(vec![]);
        t.divs.push(vec![]);
        (s, true)
    })
}
pub fn axiom(s: Sym, l: Lin) { TAB.with(|t| t.borrow_mut().axioms[s as usize].push(l)) }
pub fn div_axiom(s: Sym, l: Lin, a: Lin) { TAB.with(|t| t.borrow_mut().divs[s as usize].push((l, a))) }
pub fn set_pow2(s: Sym) { TAB.with(|t| { t.borrow_mut().pow2.insert(s); }) }
pub fn fresh_raw(name: &str) -> Sym {
    let n = TAB.with(|t| { let mut t = t.borrow_mut(); t.fresh += 1; t.fresh });
    intern(SymKind::Fresh(name.to_string(), n)).0
}
pub fn fresh_ranged(name: &str, lo: i128, hi: i128) -> Lin {
    let s = fresh_raw(name);
    range(s, lo, hi);
    Lin::s(s)
}
pub fn range(s: Sym, lo: i128, hi: i128) {
    axiom(s, Lin::s(s).addk(-lo));
    axiom(s, Lin::s(s).neg().addk(hi));
}
pub fn fresh_usize(name: &str) -> Lin { fresh_ranged(name, 0, USIZE_MAX) }
pub fn is_pow2(l: &Lin) -> bool {
    if let Some(c) = l.as_const() { return c > 0 && (c & (c - 1)) == 0; }
    if let Some(s) = l.as_sym() { return TAB.with(|t| t.borrow().pow2.contains(&s)); }
    false
}

pub fn mul(a: &Lin, b: &Lin) -> Lin {
    if let Some(k) = a.as_const() { return b.scale(k); }
    if let Some(k) = b.as_const() { return a.scale(k); }
    let mut r = Lin::k(a.c * b.c);
    r = r.add(&Lin { c: 0, t: a.t.clone() }.scale(b.c));
    r = r.add(&Lin { c: 0, t: b.t.clone() }.scale(a.c));
    for &(x, p) in &a.t {
        for &(y, q) in &b.t { r = r.addmul(&Lin::s(prod(x, y)), p * q); }
    }
    r
}
fn prod(x: Sym, y: Sym) -> Sym {
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    let (s, new) = intern(SymKind::Prod(x, y));
    if new { axiom(s, Lin::s(s)); }
    s
}
/// floor(x / y), for y >= 1
pub fn div(x: &Lin, y: &Lin) -> Lin {
    if let (Some(a), Some(b)) = (x.as_const(), y.as_const()) { if b > 0 { return Lin::k(a.div_euclid(b)); } }
    if y.as_const() == Some(1) { return x.clone(); }
    // exact: x = q*y syntactically
    if x.t.len() == 1 && x.c == 0 {
        if let SymKind::Prod(a, b) = kind(x.t[0].0) {
            if Some(b) == y.as_sym() { return Lin::s(a).scale(x.t[0].1); }
            if Some(a) == y.as_sym() { return Lin::s(b).scale(x.t[0].1); }
        }
    }
    if let Some(k) = y.as_const() {
        if x.c % k == 0 && x.t.iter().all(|t| t.1 % k == 0) {
            return Lin { c: x.c / k, t: x.t.iter().map(|&(s, a)| (s, a / k)).collect() };
        }
    }
    if x.as_sym().is_some() && x == y { return Lin::k(1); }
    // (x - w*y) / y = x / y - w
    if let Some(ys) = y.as_sym() {
        for &(t, k) in x.t.iter().filter(|t| t.1 < 0) {
            let w = if t == ys { Some(Lin::k(1)) } else if let SymKind::Prod(a, b) = kind(t) { if a == ys { Some(Lin::s(b)) } else if b == ys { Some(Lin::s(a)) } else { None } } else { None };
            if let Some(w) = w { return div(&x.add(&Lin::s(t).scale(-k)), y).add(&w.scale(k)); }
        }
    }
    let (s, new) = intern(SymKind::Div(x.clone(), y.clone()));
    let q = Lin::s(s);
    if new {
        axiom(s, q.clone());
        let p = mul(&q, y);
        let a1 = x.sub(&p);
        let a2 = p.add(y).addk(-1).sub(x);
        axiom(s, a1);
        axiom(s, a2);
        axiom(s, x.sub(&q));
    }
    q
}
pub fn rem(x: &Lin, y: &Lin) -> Lin {
    if is_pow2(y) && y.as_const().is_none() { return align_rem(x, y); }
    x.sub(&mul(&div(x, y), y))
}
/// x without the terms that are multiples of a whatever the state
fn reduce(x: &Lin, a: &Lin) -> Lin {
    match a.as_const() {
        Some(k) if k > 1 => Lin { c: x.c.rem_euclid(k), t: x.t.iter().filter(|t| t.1 % k != 0).cloned().collect() },
        // (an alignment divides 2^63)
        None if is_pow2(a) => Lin { c: if x.c >= 1 << 63 { x.c & ((1 << 63) - 1) } else { x.c }, t: x.t.iter().filter(|t| !always_div(t.0, a)).cloned().collect() },
        _ => x.clone(),
    }
}
/// b is not below a whatever the state (both powers of two)
fn always_ge(b: &Lin, a: &Lin, depth: u32) -> bool {
    if a == b { return true; }
    if let (Some(x), Some(y)) = (b.as_const(), a.as_const()) { return x >= y && x & (x - 1) == 0 && y & (y - 1) == 0; }
    let Some(s) = b.as_sym() else { return false };
    if depth == 0 || !is_pow2(b) { return false; }
    let ax = TAB.with(|t| t.borrow().axioms[s as usize].clone());
    ax.iter().any(|l| { let c = b.sub(l); (c.as_sym().is_some() || c.as_const().map_or(false, |k| k > 0)) && (c.as_const().is_some_and(|k| k & (k - 1) == 0) || is_pow2(&c)) && always_ge(&c, a, depth - 1) })
}
fn always_div(s: Sym, a: &Lin) -> bool {
    let y = Lin::s(s);
    if always_ge(&y, a, 6) { return true; }
    let ds = TAB.with(|t| t.borrow().divs[s as usize].clone());
    if ds.iter().any(|(l, b)| *l == y && always_ge(b, a, 6)) { return true; }
    match kind(s) { SymKind::Prod(p, q) => always_div(p, a) || always_div(q, a), _ => false }
}
/// smallest o >= 0 with (x + o) a multiple of the power of two a
pub fn align_off(x: &Lin, a: &Lin) -> Lin {
    if a.as_const() == Some(1) { return Lin::k(0); }
    let x = &reduce(x, a);
    if let (Some(x), Some(a)) = (x.as_const(), a.as_const()) { return Lin::k((a - x.rem_euclid(a)) % a); }
    let (s, new) = intern(SymKind::AlignOff(x.clone(), a.clone()));
    let o = Lin::s(s);
    if new {
        axiom(s, o.clone());
        axiom(s, a.addk(-1).sub(&o));
        div_axiom(s, x.add(&o), a.clone());
    }
    o
}
pub fn align_rem(x: &Lin, a: &Lin) -> Lin {
    if a.as_const() == Some(1) { return Lin::k(0); }
    if let (Some(x), Some(a)) = (x.as_const(), a.as_const()) { return Lin::k(x.rem_euclid(a)); }
    if let Some(c) = reduce(x, a).as_const() {
        if c == 0 { return Lin::k(0); }
        if c > 0 && is_pow2(a) { return a.addk(-1).sub(&align_off(&Lin::k(c + 1), a)); }
    }
    // (2^64 - x) mod a is the padding of x
    if is_pow2(a) && x.c == USIZE_MAX + 1 { return align_off(&x.neg().addk(USIZE_MAX + 1), a); }
    let (s, new) = intern(SymKind::AlignRem(x.clone(), a.clone()));
    let o = Lin::s(s);
    if new {
        axiom(s, o.clone());
        axiom(s, a.addk(-1).sub(&o));
        axiom(s, x.sub(&o));
        div_axiom(s, x.sub(&o), a.clone());
        // remainder and padding add up to nothing or to a
        if is_pow2(a) && a.as_const().is_none() {
            let p = align_off(x, a);
            if p.as_const().is_none() { div_axiom(s, o.add(&p), a.clone()); div_axiom(s, o.add(&p).sub(a), a.clone()); }
        }
    }
    o
}

fn sub_syms(k: &SymKind, out: &mut Vec<Sym>) {
    match k {
        SymKind::Prod(a, b) => { out.push(*a); out.push(*b); }
        SymKind::Div(a, b) | SymKind::AlignOff(a, b) | SymKind::AlignRem(a, b) => {
            out.extend(a.t.iter().map(|x| x.0)); out.extend(b.t.iter().map(|x| x.0));
        }
        _ => {}
    }
}

pub fn show(l: &Lin) -> String {
    let mut s = String::new();
    for (i, &(y, a)) in l.t.iter().enumerate() {
        if a < 0 { s.push_str(if i == 0 { "-" } else { " - " }) } else if i > 0 { s.push_str(" + ") }
        if a.abs() != 1 { s.push_str(&format!("{}*", a.abs())); }
        s.push_str(&show_sym(y));
    }
    if l.t.is_empty() { return showk(l.c); }
    if l.c > 0 { s.push_str(&format!(" + {}", showk(l.c))) } else if l.c < 0 { s.push_str(&format!(" - {}", showk(-l.c))) }
    s
}
fn showk(c: i128) -> String {
    if c == USIZE_MAX { "usize::MAX".into() } else if c == ISIZE_MAX { "isize::MAX".into() } else { c.to_string() }
}
pub fn show_sym(s: Sym) -> String {
    match kind(s) {
        SymKind::Fresh(n, i) => format!("{n}#{i}"),
        SymKind::SizeOf(t) => format!("size_of<{t}>"),
        SymKind::AlignOf(t) => format!("align_of<{t}>"),
        SymKind::FieldOff(t, v, i) => format!("offset_of<{t},{v}.{i}>"),
        SymKind::Addr(o) => format!("&obj{o}"),
        SymKind::OfTok(t) => format!("tok{t}"),
        SymKind::Discr(t) => format!("discr(tok{t})"),
        SymKind::LayoutSize(t) => format!("layout{t}.size"),
        SymKind::LayoutAlign(t) => format!("layout{t}.align"),
        SymKind::MetaLen(t) => format!("len(tok{t})"),
        SymKind::SizeOfVal(t, _) => format!("size_of_val(tok{t})"),
        SymKind::AlignOfVal(t, _) => format!("align_of_val(tok{t})"),
        SymKind::Prod(a, b) => format!("{}*{}", show_sym(a), show_sym(b)),
        SymKind::Div(a, b) => format!("({})/({})", show(&a), show(&b)),
        SymKind::AlignOff(a, b) => format!("pad({}, {})", show(&a), show(&b)),
        SymKind::AlignRem(a, b) => format!("({} mod {})", show(&a), show(&b)),
        SymKind::Named(n) => n,
    }
}
impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&show(self)) }
}

/// A conjunction of facts.
#[derive(Clone, Default)]
pub struct Facts {
    pub ge: Vec<Lin>,          // >= 0
    pub ne: Vec<Lin>,          // != 0
    pub div: Vec<(Lin, Lin)>,  // multiple of (power of two)
}

fn norm(mut l: Lin) -> Lin {
    let mut g: i128 = 0;
    for x in &l.t { g = gcd(g, x.1.abs()); }
    if g > 1 {
        l.c = l.c.div_euclid(g);
        for x in &mut l.t { x.1 /= g; }
    }
    l
}
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }

impl Facts {
    pub fn add_ge(&mut self, l: Lin) {
        // a remainder that is at most zero is zero: the dividend is a multiple
        if l.c == 0 && l.t.len() == 1 && l.t[0].1 < 0 {
            if let SymKind::AlignRem(x, a) | SymKind::AlignOff(x, a) = kind(l.t[0].0) { self.add_div(x, a); }
        }
        // a + x > 2^63 where x is a multiple of the power of two a (and 2^63 is one): x >= 2^63
        if l.c == -(1 << 63) - 1 {
            for (s, k) in &l.t {
                let a = Lin::s(*s);
                if *k != 1 || !is_pow2(&a) { continue; }
                let x = l.sub(&a).addk((1 << 63) + 1);
                if self.entails_div(&x, &a) { let g = x.addk(-(1 << 63)); if !self.ge.contains(&g) { self.ge.push(g); } }
            }
        }
        let l = norm(l);
        if l.t.is_empty() && l.c >= 0 { return; }
        if !self.ge.contains(&l) { self.ge.push(l); }
    }
    pub fn add_eq(&mut self, l: Lin) { self.add_ge(l.clone()); self.add_ge(l.neg()); }
    pub fn add_ne(&mut self, l: Lin) { if !self.ne.contains(&l) { self.ne.push(l) } }
    pub fn add_div(&mut self, l: Lin, a: Lin) { if !self.div.contains(&(l.clone(), a.clone())) { self.div.push((l, a)) } }

    /// Collect constraints connected with the symbols of `goal`.
    fn relevant(&self, goal: &[Lin]) -> (Vec<Lin>, BTreeSet<Sym>, Vec<(Lin, Lin)>) {
        let mut syms = BTreeSet::new();
        let mut work: Vec<Sym> = vec![];
        for g in goal { for x in &g.t { if syms.insert(x.0) { work.push(x.0) } } }
        let mut used = vec![false; self.ge.len()];
        let mut used_d = vec![false; self.div.len()];
        let mut out: Vec<Lin> = vec![];
        let mut divs: Vec<(Lin, Lin)> = vec![];
        let mut seen_ax = BTreeSet::new();
        loop {
            while let Some(s) = work.pop() {
                if !seen_ax.insert(s) { continue; }
                let (ax, dv, kd) = TAB.with(|t| { let t = t.borrow(); (t.axioms[s as usize].clone(), t.divs[s as usize].clone(), t.kinds[s as usize].clone()) });
                let mut add = vec![];
                sub_syms(&kd, &mut add);
                for l in ax { for x in &l.t { add.push(x.0) } out.push(norm(l)); }
                for (l, a) in dv { for x in l.t.iter().chain(a.t.iter()) { add.push(x.0) } divs.push((l, a)); }
                for x in add { if syms.insert(x) { work.push(x) } }
            }
            let mut changed = false;
            for (i, l) in self.ge.iter().enumerate() {
                if used[i] { continue; }
                // (a product that is at most zero tells something about its factors)
                let zero = l.t.len() == 1 && l.c == 0 && l.t[0].1 < 0 && matches!(kind(l.t[0].0), SymKind::Prod(a, b) if syms.contains(&a) || syms.contains(&b));
                // (and so does a bound on a quotient of what is asked about)
                let quot = l.t.len() == 1 && matches!(kind(l.t[0].0), SymKind::Div(a, b) if a.t.iter().chain(b.t.iter()).all(|x| syms.contains(&x.0)));
                if zero || quot || l.t.is_empty() || l.t.iter().any(|x| syms.contains(&x.0)) {
                    used[i] = true; changed = true; out.push(l.clone());
                    for x in &l.t { if syms.insert(x.0) { work.push(x.0) } }
                }
            }
            for (i, (l, a)) in self.div.iter().enumerate() {
                if used_d[i] { continue; }
                if l.t.iter().any(|x| syms.contains(&x.0)) {
                    used_d[i] = true; changed = true; divs.push((l.clone(), a.clone()));
                    for x in l.t.iter().chain(a.t.iter()) { if syms.insert(x.0) { work.push(x.0) } }
                }
            }
            if !changed { break; }
        }
        out.sort(); out.dedup();
        (out, syms, divs)
    }

    /// Is the conjunction of facts with `extra` (all >= 0) unsatisfiable?
    pub fn contradicts(&self, extra: &[Lin]) -> bool {
        for e in extra { if e.t.is_empty() && e.c < 0 { return true; } }
        TAB.with(|t| t.borrow_mut().queries += 1);
        let (cons, syms, divs) = self.relevant(extra);
        let ne: Vec<Lin> = self.ne.iter().filter(|n| n.t.iter().all(|x| syms.contains(&x.0))).cloned().collect();
        let mut ex: Vec<Lin> = extra.iter().map(|l| norm(l.clone())).collect();
        ex.sort();
        let key = (cons, ex, ne, divs);
        if let Some(r) = CACHE.with(|c| c.borrow().get(&key).copied()) { return r; }
        let base = BASES.with(|c| c.borrow().get(&key.0).cloned()).unwrap_or_else(|| {
            let s = std::rc::Rc::new(Sys::new(key.0.clone()));
            BASES.with(|c| { let mut c = c.borrow_mut(); if c.len() > 2000 { c.clear(); } c.insert(key.0.clone(), s.clone()); });
            s
        });
        let mut cons = (*base).clone();
        for l in &key.1 { cons.push(l.clone()); }
        let r = self.refute(cons, &syms, &key.3, &key.2);
        CACHE.with(|c| { let mut c = c.borrow_mut(); if c.len() > 100_000 { c.clear(); } c.insert(key, r); });
        r
    }
    fn refute(&self, mut cons: Sys, syms: &BTreeSet<Sym>, divs: &[(Lin, Lin)], ne: &[Lin]) -> bool {
        if cons.dead() { return true; }
        // product lemmas
        let mut prods: Vec<(Sym, Sym, Sym)> = vec![];
        for &s in syms { if let SymKind::Prod(a, b) = kind(s) { prods.push((s, a, b)); } }
        let mut more = false;
        fn ent(cons: &mut Sys, l: &Lin) -> bool { cons.entails(l) }
        let products = |cons: &mut Sys| -> Vec<Lin> {
            let mut lem = vec![];
            for &(p, a, b) in &prods {
                for (x, y) in [(a, b), (b, a)] {
                    // x >= 1 (and y >= 0 by construction) => p >= y
                    if ent(cons, &Lin::s(x).addk(-1)) {
                        let mut k = 1;
                        while k < 4 && ent(cons, &Lin::s(x).addk(-k - 1)) { k += 1; }
                        lem.push(Lin::s(p).sub(&Lin::s(y).scale(k)));
                    }
                    else if ent(cons, &Lin::s(x).neg()) { lem.push(Lin::s(p).neg()); }
                    if ent(cons, &Lin::s(x).neg().addk(1)) { lem.push(Lin::s(y).sub(&Lin::s(p))); }
                }
            }
            for i in 0..prods.len() { for j in 0..prods.len() {
                if i == j { continue; }
                let (p, a, b) = prods[i]; let (q, c, d) = prods[j];
                for (x, s) in [(a, b), (b, a)] { for (y, s2) in [(c, d), (d, c)] {
                    if s != s2 { continue; }
                    // p = x*s, q = y*s ; x <= y - k => p <= q - k*s
                    let dlt = Lin::s(y).sub(&Lin::s(x));
                    let mut best: Option<i128> = None;
                    for k in [0i128, 1, 2, 3] { if ent(cons, &dlt.addk(-k)) { best = Some(k) } else { break } }
                    if let Some(k) = best { lem.push(Lin::s(q).sub(&Lin::s(p)).sub(&Lin::s(s).scale(k))); }
                } }
            } }
            for &(p, a, b) in &prods { for (x, s) in [(a, b), (b, a)] {
                for k in 1..4 {
                    if !ent(cons, &Lin::s(p).sub(&Lin::s(s).scale(k)).addk(-1)) { break; }
                    lem.push(Lin::s(x).addk(-1 - k));
                }
            } }
            for &(p, a, b) in &prods { for &(q, c, d) in &prods {
                if p == q { continue; }
                for (x, s) in [(a, b), (b, a)] { for (y, s2) in [(c, d), (d, c)] {
                    // x*s > (y + k)*s  =>  x > y + k
                    if s != s2 { continue; }
                    for k in 0..2 {
                        let l = Lin::s(x).sub(&Lin::s(y)).addk(-1 - k);
                        if !ent(cons, &Lin::s(p).sub(&Lin::s(q)).sub(&Lin::s(s).scale(k)).addk(-1)) { break; }
                        lem.push(l);
                    }
                } }
            } }
            lem.retain(|l| !cons.has(l));
            lem
        };
        // z >= x + y + k => z*s >= x*s + y*s + k*s (and the other way round)
        let mut groups: BTreeMap<Sym, Vec<(Sym, Sym)>> = BTreeMap::new();
        for &(p, a, b) in &prods { groups.entry(a).or_default().push((b, p)); if a != b { groups.entry(b).or_default().push((a, p)); } }
        let sums = |cons: &mut Sys| -> bool {
            let mut any = false;
            for (s, g) in &groups {
                if g.len() < 3 || g.len() > 7 { continue; }
                for &(z, q) in g { for (i, &(x, p1)) in g.iter().enumerate() { for &(y, p2) in &g[i + 1..] {
                    if z == x || z == y { continue; }
                    for sign in [1, -1] {
                        let d = Lin::s(z).sub(&Lin::s(x)).sub(&Lin::s(y)).scale(sign);
                        if !ent(cons, &d) { continue; }
                        let mut k = 0;
                        while k < 3 && ent(cons, &d.addk(-1 - k)) { k += 1; }
                        let l = Lin::s(q).sub(&Lin::s(p1)).sub(&Lin::s(p2)).scale(sign).sub(&Lin::s(*s).scale(k));
                        if !cons.has(&l) { cons.push(l); any = true; }
                    }
                } } }
            }
            any
        };
        let lem = if prods.is_empty() { vec![] } else { products(&mut cons) };
        if !lem.is_empty() {
            for l in lem { cons.push(l); }
            more = true;
            if !cons.dead() { for l in products(&mut cons) { cons.push(l); } }
        }
        if more && cons.dead() { return true; }
        if more || !prods.is_empty() { sums(&mut cons); }
        if cons.dead() { return true; }
        // disequalities
        let mut changed = true;
        let mut rounds = 0;
        while changed && rounds < 3 {
            changed = false; rounds += 1;
            for n in ne {
                if ent(&mut cons, n) {
                    let l = n.addk(-1);
                    if !cons.has(&l) { cons.push(l); changed = true; }
                } else if ent(&mut cons, &n.neg()) {
                    let l = n.neg().addk(-1);
                    if !cons.has(&l) { cons.push(l); changed = true; }
                }
            }
            if changed && cons.dead() { return true; }
            // two multiples of a that are less than a apart are equal
            let mut eqs = vec![];
            for i in 0..divs.len() { for j in i + 1..divs.len() {
                if divs[i].1 != divs[j].1 { continue; }
                let mut d = divs[i].0.sub(&divs[j].0);
                let a = &divs[i].1;
                if let Some(k) = a.as_const() { if k > 0 { d.c %= k; } }
                if d.is_zero() { continue; }
                let lt = ent(&mut cons, &a.addk(-1).sub(&d));
                let gt = ent(&mut cons, &a.addk(-1).add(&d));
                if lt && gt { eqs.push(d.clone()); }
                else {
                    // d > 0  =>  d >= a
                    if ent(&mut cons, &d.addk(-1)) { eqs.push(Lin::k(0)); let l = d.sub(a); if !cons.has(&l) { cons.push(l); changed = true; } }
                    else if ent(&mut cons, &d.neg().addk(-1)) { let l = d.neg().sub(a); if !cons.has(&l) { cons.push(l); changed = true; } }
                }
            } }
            // the factors of a positive product are positive
            for &(p, x, y) in &prods {
                let (fx, fy) = (Lin::s(x).addk(-1), Lin::s(y).addk(-1));
                if cons.has(&fx) && cons.has(&fy) || !ent(&mut cons, &Lin::s(p).addk(-1)) { continue; }
                for f in [fx, fy] { if !cons.has(&f) { cons.push(f); changed = true; } }
            }
            // 0 < c <= a: the padding of c to a is a - c; a <= 2^k | c: none
            for &o in syms {
                let SymKind::AlignOff(x, a) = kind(o) else { continue };
                let Some(c) = x.as_const() else { continue };
                if c > 0 && ent(&mut cons, &a.addk(-c)) {
                    let l = Lin::s(o).sub(&a).addk(c);
                    if !cons.has(&l) { cons.push(l.neg()); cons.push(l); changed = true; }
                } else if c > 0 && ent(&mut cons, &Lin::k(c & c.wrapping_neg()).sub(&a)) {
                    let l = Lin::s(o).neg();
                    if !cons.has(&l) { cons.push(l); changed = true; }
                }
            }
            // padding is minimal: a multiple of a that is not below x is not below x + off(x, a)
            for &o in syms {
                let SymKind::AlignOff(x, a) = kind(o) else { continue };
                for (y, b) in divs {
                    if y.coef(o) != 0 || !(a == *b || ent(&mut cons, &b.sub(&a))) { continue; }
                    // (also the multiple before it)
                    for y in [y.sub(&a), y.clone()] {
                        let l = y.sub(&x).sub(&Lin::s(o));
                        if l.as_const().is_some() || cons.has(&l) || !ent(&mut cons, &y.sub(&x)) { continue; }
                        cons.push(l); changed = true;
                        break;
                    }
                }
            }
            if changed && !prods.is_empty() { for l in products(&mut cons) { cons.push(l); } sums(&mut cons); }
            for d in eqs { if d.is_zero() { continue; } if !cons.has(&d) || !cons.has(&d.neg()) { cons.push(d.clone()); cons.push(d.neg()); changed = true; } }
            // a bound on a multiple of a constant is a multiple as well
            for (l, a) in divs {
                let Some(k) = a.as_const() else { continue };
                if k < 2 || l.t.is_empty() { continue; }
                for l in [l.clone(), l.neg()] {
                    let cut: Vec<Lin> = cons.cons.iter().filter(|g| g.t == l.t).map(|g| l.addk((g.c - l.c).div_euclid(k) * k)).collect();
                    for g in cut { if !cons.has(&g) { cons.push(g); changed = true; } }
                }
            }
            // a value below the alignment that is a multiple of it is zero: covered with (0, a)
            for (l, a) in divs {
                // a positive multiple is at least a
                let g = l.sub(a);
                if l.as_const().is_none() && !cons.has(&g) && ent(&mut cons, &l.addk(-1)) { cons.push(g); changed = true; }
                if ent(&mut cons, &a.addk(-1).sub(l)) && ent(&mut cons, l) { if !cons.has(&l.neg()) { cons.push(l.neg()); changed = true; } }
            }
            if changed && cons.dead() { return true; }
        }
        false
    }
    pub fn unsat(&self) -> bool {
        let all: Vec<Lin> = self.ge.iter().filter(|l| l.t.is_empty() && l.c < 0).cloned().collect();
        if !all.is_empty() { return true; }
        false
    }
    pub fn entails_ge(&self, l: &Lin) -> bool {
        if let Some(c) = l.as_const() { if c >= 0 { return true; } }
        if self.ge.contains(&norm(l.clone())) { return true; }
        self.contradicts(&[l.neg().addk(-1)])
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        if self.is_zero(l) { return true; }
        if l.c == 0 && l.t.len() == 1 { if let SymKind::AlignRem(x, a) | SymKind::AlignOff(x, a) = kind(l.t[0].0) { return self.entails_div(&x, &a); } }
        false
    }
    fn is_zero(&self, l: &Lin) -> bool {
        if l.is_zero() { return true; }
        if let Some(c) = l.as_const() { if c != 0 && !self.contradicts(&[]) { return false; } }
        self.entails_ge(l) && self.entails_ge(&l.neg())
    }
    pub fn entails_ne(&self, l: &Lin) -> bool {
        if let Some(c) = l.as_const() { if c != 0 { return true; } }
        if self.ne.contains(l) || self.ne.contains(&l.neg()) { return true; }
        self.contradicts(&[l.clone(), l.neg()])
    }
    /// l is a multiple of the power of two a
    pub fn entails_div(&self, l: &Lin, a: &Lin) -> bool {
        if l.is_zero() || a.as_const() == Some(1) { return true; }
        let (_, _, mut divs) = self.relevant(&[l.clone(), a.clone()]);
        divs.extend(self.div.iter().cloned());
        self.div_rec(l, a, &divs, 3)
    }
    fn align_le(&self, b: &Lin, a: &Lin) -> bool {
        // does b divide a (both powers of two)?
        if a == b { return true; }
        if b.as_const() == Some(1) { return true; }
        (is_pow2(a) || a.as_const().is_some()) && is_pow2(b) && self.entails_ge(&a.sub(b))
    }
    fn div_rec(&self, l: &Lin, a: &Lin, divs: &[(Lin, Lin)], depth: u32) -> bool {
        if l.is_zero() { return true; }
        // drop terms that are multiples by themselves
        let mut rest = Lin::k(0);
        for &(s, k) in &l.t {
            if self.term_div(s, k, a, divs) { continue; }
            rest = rest.addmul(&Lin::s(s), k);
        }
        rest.c = l.c;
        if let Some(ac) = a.as_const() {
            if rest.c % ac == 0 { rest.c = 0; }
        } else if rest.c != 0 {
            // constant multiple of a symbolic alignment: only if a <= a power of two dividing c
            let p = rest.c & rest.c.wrapping_neg();
            if self.entails_ge(&Lin::k(p).sub(a)) { rest.c = 0; }
        }
        if rest.is_zero() { return true; }
        if depth == 0 { return self.is_zero(&rest); }
        for (m, b) in divs {
            if m.is_zero() { continue; }
            let shares = m.t.iter().any(|x| rest.coef(x.0) != 0);
            if !shares { continue; }
            if !self.align_le(a, b) { continue; }
            for sgn in [1i128, -1] {
                let r2 = rest.addmul(m, -sgn);
                if r2.t.len() <= rest.t.len() + 1 && self.div_rec(&r2, a, divs, depth - 1) { return true; }
            }
        }
        if rest.t.len() <= 3 && self.is_zero(&rest) { return true; }
        false
    }
    fn term_div(&self, s: Sym, k: i128, a: &Lin, divs: &[(Lin, Lin)]) -> bool {
        if let Some(ac) = a.as_const() { if k % ac == 0 { return true; } }
        if Lin::s(s) == *a { return true; }
        for (m, b) in divs {
            if m.as_sym() == Some(s) && self.align_le(a, b) { return true; }
        }
        if is_pow2(&Lin::s(s)) && is_pow2(a) && self.entails_ge(&Lin::s(s).sub(a)) { return true; }
        if let SymKind::Prod(x, y) = kind(s) {
            return self.term_div(x, 1, a, divs) || self.term_div(y, 1, a, divs);
        }
        false
    }
}

// ---------------------------------------------------------------- simplex
#[derive(Clone, Copy, PartialEq, Eq)]
struct Q { n: i128, d: i128 }
impl Q {
    const ZERO: Q = Q { n: 0, d: 1 };
    fn new(n: i128, d: i128) -> Option<Q> {
        if d == 0 { return None; }
        let g = gcd(n.abs(), d.abs());
        let g = if g == 0 { 1 } else { g };
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 { n = -n; d = -d; }
        Some(Q { n, d })
    }
    fn add(self, o: Q) -> Option<Q> {
        if self.d == 1 && o.d == 1 { return Some(Q { n: self.n.checked_add(o.n)?, d: 1 }); }
        Q::new(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?)
    }
    fn mul(self, o: Q) -> Option<Q> {
        if self.n == 0 || o.n == 0 { return Some(Q::ZERO); }
        if self.d == 1 && o.d == 1 { return Some(Q { n: self.n.checked_mul(o.n)?, d: 1 }); }
        Q::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    fn neg(self) -> Q { Q { n: -self.n, d: self.d } }
    fn inv(self) -> Option<Q> { Q::new(self.d, self.n) }
    fn lt(self, o: Q) -> Option<bool> { Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?) }
}

thread_local! {
    static CACHE: RefCell<HashMap<(Vec<Lin>, Vec<Lin>, Vec<Lin>, Vec<(Lin, Lin)>), bool>> = RefCell::new(HashMap::default());
    static BASES: RefCell<HashMap<Vec<Lin>, std::rc::Rc<Sys>>> = RefCell::new(HashMap::default());
}
pub fn clear_cache() { CACHE.with(|c| c.borrow_mut().clear()); BASES.with(|c| c.borrow_mut().clear()) }

/// A feasible (or refuted) system of constraints with a basis to continue from.
#[derive(Clone)]
struct Lp {
    dead: bool,                                   // refuted
    lost: bool,                                   // arithmetic overflow: nothing can be refuted
    subst: std::rc::Rc<Vec<(Sym, Lin)>>,          // eliminated symbols
    rows_of: std::rc::Rc<HashMap<Vec<(Sym, i128)>, u32>>, // linear part -> slack
    idx: std::rc::Rc<HashMap<Sym, u32>>,
    lower: Vec<Option<Q>>,
    val: Vec<Q>,
    at: Vec<Option<usize>>,                       // row of a basic variable
    ba: Vec<u32>,
    tab: Vec<Vec<(u32, Q)>>,                      // basic = sum of nonbasic
}
fn merge(a: &[(u32, Q)], b: &[(u32, Q)], k: Q, skip: u32) -> Option<Vec<(u32, Q)>> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if i < a.len() && a[i].0 == skip { i += 1; continue; }
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1; }
        else if i >= a.len() || b[j].0 < a[i].0 { r.push((b[j].0, b[j].1.mul(k)?)); j += 1; }
        else { let x = a[i].1.add(b[j].1.mul(k)?)?; if x.n != 0 { r.push((a[i].0, x)); } i += 1; j += 1; }
    }
    Some(r)
}
impl Lp {
    fn new(cons: &[Lin]) -> Lp {
        let mut lp = Lp { dead: false, lost: false, subst: Default::default(), rows_of: Default::default(), idx: Default::default(), lower: vec![], val: vec![], at: vec![], ba: vec![], tab: vec![] };
        // eliminate equalities (l >= 0 and -l >= 0) with a unit coefficient
        let mut cs: Vec<Lin> = cons.to_vec();
        let mut subst = vec![];
        loop {
            let mut eqs: Vec<Lin> = vec![];
            {
                let set: rustc_data_structures::fx::FxHashSet<&Lin> = cs.iter().collect();
                for l in &cs {
                    if l.t.is_empty() { if l.c < 0 { lp.dead = true; return lp; } continue; }
                    if l.t[0].1 > 0 && set.contains(&l.neg()) { eqs.push(l.clone()); }
                }
            }
            // solve the equalities among themselves first, then put them into the rest
            let from = subst.len();
            for i in 0..eqs.len() {
                let mut l = eqs[i].clone();
                for (s, by) in &subst[from..] { if l.coef(*s) != 0 { l = l.subst(*s, by); } }
                if l.t.is_empty() { if l.c != 0 { lp.dead = true; return lp; } continue; }
                let l = norm(l);
                let Some(&(s, a)) = l.t.iter().find(|x| x.1.abs() == 1) else { continue };
                let mut rest = l;
                rest.t.retain(|x| x.0 != s);
                let by = rest.scale(-a);
                subst.push((s, by));
            }
            if subst.len() == from { break; }
            let mut n: Vec<Lin> = Vec::with_capacity(cs.len());
            for mut c in cs {
                let mut hit = false;
                for (s, by) in &subst[from..] { if c.coef(*s) != 0 { c = c.subst(*s, by); hit = true; } }
                if hit { c = norm(c); }
                if c.t.is_empty() { if c.c < 0 { lp.dead = true; return lp; } continue; }
                n.push(c);
            }
            n.sort(); n.dedup();
            cs = n;
        }
        lp.subst = std::rc::Rc::new(subst);
        for l in cs { if lp.add_row(&l, true).is_none() { lp.lost = true; return lp; } if lp.dead { return lp; } }
        if lp.solve().is_none() { lp.lost = true; }
        lp
    }
    fn reduce(&self, l: &Lin) -> Lin {
        let mut l = l.clone();
        for (s, by) in self.subst.iter() { if l.coef(*s) != 0 { l = l.subst(*s, by); } }
        norm(l)
    }
    fn new_var(&mut self, lo: Option<Q>, v: Q) -> u32 { self.lower.push(lo); self.val.push(v); self.at.push(None); self.lower.len() as u32 - 1 }
    /// add l >= 0 (reduced); the basis may become infeasible
    fn add_row(&mut self, l: &Lin, keep: bool) -> Option<()> {
        if l.t.is_empty() { if l.c < 0 { self.dead = true; } return Some(()); }
        let lo = Q { n: -l.c, d: 1 };
        if let Some(&v) = self.rows_of.get(&l.t) {
            let v = v as usize;
            if !self.lower[v].unwrap().lt(lo)? { return Some(()); }
            self.lower[v] = Some(lo);
            if self.at[v].is_none() && self.val[v].lt(lo)? {
                // nonbasic: move it to its bound
                let th = lo.add(self.val[v].neg())?;
                self.val[v] = lo;
                for i in 0..self.tab.len() {
                    if let Ok(k) = self.tab[i].binary_search_by_key(&(v as u32), |x| x.0) { let b = self.ba[i] as usize; self.val[b] = self.val[b].add(self.tab[i][k].1.mul(th)?)?; }
                }
            }
            return Some(());
        }
        // l and its negation leave no room
        let nt: Vec<(Sym, i128)> = l.t.iter().map(|x| (x.0, -x.1)).collect();
        if let Some(&v) = self.rows_of.get(&nt) { if self.lower[v as usize].unwrap().neg().lt(lo)? { self.dead = true; return Some(()); } }
        let mut row: Vec<(u32, Q)> = vec![];
        let mut v = Q::ZERO;
        for &(s, a) in &l.t {
            let x = match self.idx.get(&s) { Some(&x) => x, None => { let x = self.new_var(None, Q::ZERO); std::rc::Rc::make_mut(&mut self.idx).insert(s, x); x } };
            let a = Q { n: a, d: 1 };
            v = v.add(self.val[x as usize].mul(a)?)?;
            row = match self.at[x as usize] { Some(r) => merge(&row, &self.tab[r], a, u32::MAX)?, None => merge(&row, &[(x, Q { n: 1, d: 1 })], a, u32::MAX)? };
        }
        let s = self.new_var(Some(lo), v);
        self.at[s as usize] = Some(self.tab.len());
        self.ba.push(s); self.tab.push(row);
        if keep { std::rc::Rc::make_mut(&mut self.rows_of).insert(l.t.clone(), s); }
        Some(())
    }
    fn solve(&mut self) -> Option<()> {
        let mut iters = 0;
        while !self.dead {
            iters += 1;
            if iters > 4000 { return None; }
            // smallest violated basic variable (Bland)
            let mut row: Option<usize> = None;
            for i in 0..self.ba.len() {
                let v = self.ba[i] as usize;
                if let Some(lo) = self.lower[v] { if row.map_or(true, |r| self.ba[r] > v as u32) && self.val[v].lt(lo)? { row = Some(i) } }
            }
            let Some(r) = row else { return Some(()) };
            let mut col: Option<(u32, Q)> = None;
            for &(v, a) in &self.tab[r] {
                let ok = a.n > 0 || match self.lower[v as usize] { None => true, Some(lo) => lo.lt(self.val[v as usize])? };
                if ok { col = Some((v, a)); break; }
            }
            let Some((vn, a)) = col else { self.dead = true; return Some(()) };
            let vb = self.ba[r];
            let target = self.lower[vb as usize].unwrap();
            let p = a.inv()?;
            let theta = target.add(self.val[vb as usize].neg())?.mul(p)?;
            self.val[vb as usize] = target;
            self.val[vn as usize] = self.val[vn as usize].add(theta)?;
            // vn = p*vb - p*(rest of the row)
            let m = p.neg();
            let mut newrow: Vec<(u32, Q)> = Vec::with_capacity(self.tab[r].len());
            let mut put = false;
            for &(v, x) in &self.tab[r] {
                if !put && v > vb { newrow.push((vb, p)); put = true; }
                if v != vn { newrow.push((v, x.mul(m)?)); }
            }
            if !put { newrow.push((vb, p)); }
            for i in 0..self.tab.len() {
                if i == r { continue; }
                if let Ok(k) = self.tab[i].binary_search_by_key(&vn, |x| x.0) {
                    let x = self.tab[i][k].1;
                    let b = self.ba[i] as usize;
                    self.val[b] = self.val[b].add(x.mul(theta)?)?;
                    self.tab[i] = merge(&self.tab[i], &newrow, x, vn)?;
                }
            }
            self.tab[r] = newrow;
            self.ba[r] = vn;
            self.at[vn as usize] = Some(r); self.at[vb as usize] = None;
        }
        Some(())
    }
    /// l >= 0 turns some inequality into an equality
    fn closes(&self, l: &Lin) -> bool {
        let r = self.reduce(l);
        if !r.t.iter().any(|x| x.1.abs() == 1) { return false; }
        let nt: Vec<(Sym, i128)> = r.t.iter().map(|x| (x.0, -x.1)).collect();
        match self.rows_of.get(&nt) { Some(&v) => self.lower[v as usize] == Some(Q { n: r.c, d: 1 }), None => false }
    }
    /// l at the point (None: cannot be computed)
    fn eval(&self, val: &[Q], l: &Lin) -> Option<Q> {
        let mut v = Q { n: l.c, d: 1 };
        for &(s, a) in &l.t { if let Some(&x) = self.idx.get(&s) { if let Some(q) = val.get(x as usize) { v = v.add(q.mul(Q { n: a, d: 1 })?)?; } } }
        Some(v)
    }
}
/// The same from scratch with another order of the variables (tried when the numbers grow too large).
fn feasible_q(cons: &[Lin]) -> Option<bool> {
    // 1. eliminate equalities (l >= 0 and -l >= 0) with a unit coefficient
    let mut cs: Vec<Lin> = cons.to_vec();
    loop {
        let set: rustc_data_structures::fx::FxHashSet<&Lin> = cs.iter().collect();
        let mut found = None;
        for l in &cs {
            if l.t.is_empty() { if l.c < 0 { return Some(false); } continue; }
            if !set.contains(&l.neg()) { continue; }
            if let Some(&(s, a)) = l.t.iter().find(|x| x.1.abs() == 1) { found = Some((l.clone(), s, a)); break; }
        }
        match found {
            None => break,
            Some((l, s, a)) => {
                // a*s + rest = 0 -> s = -rest/a
                let mut rest = l.clone();
                rest.t.retain(|x| x.0 != s);
                let by = rest.scale(-a);
                let mut n: Vec<Lin> = Vec::with_capacity(cs.len());
                for c in &cs {
                    let c2 = norm(c.subst(s, &by));
                    if c2.t.is_empty() { if c2.c < 0 { return Some(false); } continue; }
                    n.push(c2);
                }
                n.sort(); n.dedup();
                cs = n;
            }
        }
    }
    // keep the strongest of parallel constraints
    let mut best: BTreeMap<Vec<(Sym, i128)>, i128> = BTreeMap::new();
    for l in cs {
        if l.t.is_empty() { if l.c < 0 { return Some(false); } continue; }
        let e = best.entry(l.t.clone()).or_insert(l.c);
        if l.c < *e { *e = l.c; }
    }
    for (t, c) in &best {
        let nt: Vec<(Sym, i128)> = t.iter().map(|x| (x.0, -x.1)).collect();
        if let Some(c2) = best.get(&nt) { if c + c2 < 0 { return Some(false); } }
    }
    let cs: Vec<Lin> = best.into_iter().map(|(t, c)| Lin { t, c }).collect();
    if cs.is_empty() { return Some(true); }
    // 2. general simplex, slack_i = a_i x >= -c_i
    let mut vars: Vec<Sym> = cs.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
    vars.sort(); vars.dedup();
    let n = vars.len(); let m = cs.len();
    let idx: HashMap<Sym, usize> = vars.iter().enumerate().map(|(i, &s)| (s, i)).collect();
    // column variables (nonbasic): ids 0..n are x, n..n+m slack
    let mut nb: Vec<usize> = (0..n).collect();
    let mut ba: Vec<usize> = (n..n + m).collect();
    let mut tab: Vec<Vec<Q>> = vec![vec![Q::ZERO; n]; m];
    for (i, l) in cs.iter().enumerate() { for &(s, a) in &l.t { tab[i][idx[&s]] = Q { n: a, d: 1 }; } }
    let lower: Vec<Option<Q>> = (0..n + m).map(|v| if v < n { None } else { Some(Q { n: -cs[v - n].c, d: 1 }) }).collect();
    let mut val: Vec<Q> = vec![Q::ZERO; n + m];
    let mut iters = 0;
    loop {
        iters += 1;
        if iters > 4000 { return None; }
        // smallest-id violated basic variable (Bland)
        let mut row: Option<usize> = None;
        for i in 0..m {
            let v = ba[i];
            if let Some(lo) = lower[v] { if val[v].lt(lo)? { if row.map(|r| ba[r] > v).unwrap_or(true) { row = Some(i) } } }
        }
        let Some(r) = row else { return Some(true) };
        // need to increase ba[r]: nonbasic j with coef>0 can increase always (no upper bounds);
        // with coef<0 can decrease if above its lower bound (or free)
        let mut col: Option<usize> = None;
        for j in 0..n {
            let a = tab[r][j];
            if a.n == 0 { continue; }
            let v = nb[j];
            let ok = if a.n > 0 { true } else { match lower[v] { None => true, Some(lo) => lo.lt(val[v])? } };
            if ok && col.map(|c| nb[c] > v).unwrap_or(true) { col = Some(j) }
        }
        let Some(c) = col else { return Some(false) };
        // pivot and set ba[r] to its lower bound
        let vb = ba[r]; let vn = nb[c];
        let target = lower[vb].unwrap();
        let theta = target.add(val[vb].neg())?.mul(tab[r][c].inv()?)?;
        // note: moving vn down below its own lower bound is repaired in a later round (vn becomes basic)
        val[vb] = target;
        val[vn] = val[vn].add(theta)?;
        for i in 0..m { if i != r { let a = tab[i][c]; if a.n != 0 { val[ba[i]] = val[ba[i]].add(a.mul(theta)?)?; } } }
        // pivot the tableau: vb = sum row ; solve for vn
        let p = tab[r][c].inv()?;
        let mut newrow: Vec<Q> = Vec::with_capacity(n);
        for j in 0..n { if j == c { newrow.push(p) } else { newrow.push(tab[r][j].neg().mul(p)?) } }
        for i in 0..m {
            if i == r { continue; }
            let a = tab[i][c];
            if a.n == 0 { continue; }
            for j in 0..n {
                if j == c { tab[i][j] = a.mul(newrow[c])?; }
                else if newrow[j].n != 0 { tab[i][j] = tab[i][j].add(a.mul(newrow[j])?)?; }
            }
        }
        tab[r] = newrow;
        ba[r] = vn; nb[c] = vb;
    }
}

/// Constraints with their solution.
#[derive(Clone)]
struct Sys { cons: Vec<Lin>, lp: Lp, wit: Vec<Vec<Q>> }
fn refuted(cons: &[Lin]) -> bool {
    let lp = Lp::new(cons);
    if lp.lost { let mut c = cons.to_vec(); c.sort(); c.dedup(); return feasible_q(&c) == Some(false); }
    lp.dead
}
impl Sys {
    fn new(cons: Vec<Lin>) -> Sys { let lp = Lp::new(&cons); let mut s = Sys { cons, lp, wit: vec![] }; s.check(); s }
    fn dead(&self) -> bool { self.lp.dead && !self.lp.lost }
    /// after a loss of precision: try again
    fn check(&mut self) { if self.lp.lost && refuted(&self.cons) { self.lp.lost = false; self.lp.dead = true; } }
    fn has(&self, l: &Lin) -> bool { self.cons.contains(l) }
    fn push(&mut self, l: Lin) {
        let l = norm(l);
        if self.dead() || self.cons.contains(&l) { return; }
        let eq = self.lp.closes(&l);
        self.cons.push(l.clone());
        if eq || self.lp.lost { self.lp = Lp::new(&self.cons); self.wit.clear(); self.check(); return; }
        let r = self.lp.reduce(&l);
        let lp = &self.lp;
        self.wit.retain(|w| matches!(lp.eval(w, &r), Some(q) if q.n >= 0));
        if self.lp.add_row(&r, true).is_none() || self.lp.solve().is_none() { self.lp = Lp::new(&self.cons); self.wit.clear(); self.check(); }
    }
    fn entails(&mut self, l: &Lin) -> bool {
        if let Some(c) = l.as_const() { return c >= 0 || self.dead(); }
        if self.dead() { return true; }
        let n = norm(l.neg().addk(-1));
        if self.lp.lost { let mut c = self.cons.clone(); c.push(n); return refuted(&c); }
        let eq = self.lp.closes(&n);
        let r = self.lp.reduce(&n);
        if r.t.is_empty() { return r.c < 0; }
        for w in std::iter::once(&self.lp.val).chain(&self.wit) { if matches!(self.lp.eval(w, &r), Some(q) if q.n >= 0) && !eq { return false; } }
        if eq { let mut c = self.cons.clone(); c.push(n); return refuted(&c); }
        let mut lp = self.lp.clone();
        if lp.add_row(&r, false).is_none() || lp.solve().is_none() {
            let mut c = self.cons.clone(); c.push(n);
            return refuted(&c);
        }
        if lp.dead { return true; }
        if self.wit.len() >= 12 { self.wit.remove(0); }
        self.wit.push(lp.val[..self.lp.val.len()].to_vec());
        false
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basic() {
        let x = fresh_usize("x"); let y = fresh_usize("y");
        let mut f = Facts::default();
        f.add_ge(y.sub(&x));
        assert!(f.entails_ge(&y));
        assert!(!f.entails_ge(&x.sub(&y)));
        f.add_ge(x.addk(-5));
        assert!(f.entails_ge(&y.addk(-5)));
        assert!(!f.entails_ge(&y.addk(-6)));
        f.add_ne(y.sub(&x));
        assert!(f.entails_ge(&y.addk(-6)));
    }
    #[test]
    fn products() {
        let n = fresh_usize("n"); let m = fresh_usize("m"); let s = fresh_usize("s");
        let mut f = Facts::default();
        f.add_ge(m.sub(&n).addk(-1));
        assert!(f.entails_ge(&mul(&m, &s).sub(&mul(&n, &s)).sub(&s)));
        assert!(f.entails_ge(&mul(&m, &s).sub(&mul(&n.addk(1), &s))));
        assert!(!f.entails_ge(&mul(&m, &s).sub(&mul(&n.addk(2), &s))));
        let l = fresh_usize("l");
        f.add_ge(s.addk(-1));
        let q = div(&l, &s);
        f.add_ge(q.sub(&n).addk(-1));
        assert!(f.entails_ge(&l.sub(&mul(&n.addk(1), &s))));
    }
    #[test]
    fn aligns() {
        let a = fresh_ranged("a", 1, 1 << 40); set_pow2(a.as_sym().unwrap());
        let b = fresh_usize("base"); let c = fresh_usize("c");
        let o = align_off(&b.add(&c), &a);
        let f = Facts::default();
        assert!(f.entails_div(&b.add(&c).add(&o), &a));
        assert!(!f.entails_div(&b.add(&c), &a));
        // manual round up
        let x = b.add(&c).add(&a).addk(-1);
        let up = x.sub(&align_rem(&x, &a));
        assert!(f.entails_eq(&up.sub(&b.add(&c).add(&o))));
    }
}
