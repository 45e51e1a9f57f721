//! Wrappers behave like what they wrap: C33.
use crate::g::*;
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::mem::{align_of, forget, size_of};
use core::ops::{Bound, Deref, DerefMut, Index, IndexMut};
use core::ptr::{copy_nonoverlapping, slice_from_raw_parts_mut, NonNull};
use static_alloc::leaked::LeakBox;
use without_alloc::boxed::Box;
use without_alloc::fixed_vec::FixedVec;
use without_alloc::rc::Rc;
use without_alloc::Uninit;

/// A value whose traits answer as was decided beforehand, and only for the operands that are expected.
#[repr(transparent)]
pub struct Probe<T>(T);
fn operands<T>(a: &Probe<T>, b: &Probe<T>) {
    prove(addr(a) == get("left"), "the left operand is that of the wrapper");
    prove(addr(b) == get("right"), "the right operand is that of the wrapper");
}
pub fn answer() -> bool { get("answer") != 0 }
pub fn ordering() -> Option<Ordering> {
    let o = get("ordering");
    if o == 0 { Some(Ordering::Less) } else if o == 1 { Some(Ordering::Equal) } else if o == 2 { Some(Ordering::Greater) } else { None }
}
pub fn hashed<H>(h: &mut H) {
    prove(addr(h) == get("hasher"), "the hasher is the one that was given");
    note("hashed");
}
/// formatting the expected value once
pub fn formatted(what: &'static str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    prove(addr(f) == get("formatter"), "the formatter is the one that was given");
    note(what);
    if answer() { Ok(()) } else { Err(fmt::Error) }
}
impl<T> PartialEq for Probe<T> {
    fn eq(&self, o: &Self) -> bool { operands(self, o); answer() }
    fn ne(&self, o: &Self) -> bool { operands(self, o); !answer() }
}
impl<T> Eq for Probe<T> {}
impl<T> PartialOrd for Probe<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { operands(self, o); ordering() }
    fn lt(&self, o: &Self) -> bool { operands(self, o); ordering() == Some(Ordering::Less) }
    fn le(&self, o: &Self) -> bool { operands(self, o); matches!(ordering(), Some(Ordering::Less | Ordering::Equal)) }
    fn gt(&self, o: &Self) -> bool { operands(self, o); ordering() == Some(Ordering::Greater) }
    fn ge(&self, o: &Self) -> bool { operands(self, o); matches!(ordering(), Some(Ordering::Greater | Ordering::Equal)) }
}
impl<T> Ord for Probe<T> {
    fn cmp(&self, o: &Self) -> Ordering { operands(self, o); ordering().unwrap() }
}
impl<T> Hash for Probe<T> {
    fn hash<H: Hasher>(&self, h: &mut H) { prove(addr(self) == get("left"), "the value is that of the wrapper"); hashed(h) }
}
impl<T> fmt::Debug for Probe<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { prove(addr(self) == get("left"), "the value is that of the wrapper"); formatted("debug", f) }
}
impl<T> fmt::Display for Probe<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { prove(addr(self) == get("left"), "the value is that of the wrapper"); formatted("display", f) }
}
/// A hasher that takes nothing itself
pub struct Hs(u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { note("more"); }
}

fn sz<T>() -> i128 { size_of::<T>() as i128 }
fn decide() {
    let b: bool = any();
    put("answer", if b { 1 } else { 0 });
    let o: u8 = any();
    put("ordering", if o < 3 { o as i128 } else { 3 });
}
/// the operators of a wrapper
macro_rules! compared { ($a:ident, $b:ident) => {
    forbid_panic(true);
    let r = $a == $b;
    prove(r == answer(), "equality is that of the values");
    let r = $a != $b;
    prove(r != answer(), "inequality is that of the values");
    let o = ordering();
    prove($a.partial_cmp(&$b) == o, "the partial order is that of the values");
    prove(($a < $b) == (o == Some(Ordering::Less)), "less is that of the values");
    prove(($a <= $b) == matches!(o, Some(Ordering::Less | Ordering::Equal)), "less or equal is that of the values");
    prove(($a > $b) == (o == Some(Ordering::Greater)), "greater is that of the values");
    prove(($a >= $b) == matches!(o, Some(Ordering::Greater | Ordering::Equal)), "greater or equal is that of the values");
    if let Some(o) = o { prove($a.cmp(&$b) == o, "the order is that of the values"); reach("ordered"); }
    reach("compared");
} }
macro_rules! untouched { ($m:ident, $($p:ident),*) => { $( prove(no_writes($m, $p), "the values are only read"); )* } }
macro_rules! hashes { ($a:ident) => {
    forbid_panic(true);
    let mut h = Hs(0);
    put("hasher", addr(&h));
    let m = mark();
    $a.hash(&mut h);
    prove(notes(m, "hashed") == 1, "the value is hashed once");
    prove(notes(m, "more") == 0, "nothing else is hashed");
    prove(no_writes(m, &h as *const Hs), "nothing else is hashed");
    reach("hashed");
} }
macro_rules! formats { ($a:ident, $f:ident, $tr:ident, $l:literal) => {
    forbid_panic(true);
    put("formatter", addr($f));
    let m = mark();
    let fp = $f as *const fmt::Formatter<'_>;
    let r = fmt::$tr::fmt(&$a, $f);
    prove(notes(m, $l) == 1, "formatting is that of the value");
    prove(r.is_ok() == answer(), "formatting is that of the value");
    prove(no_writes(m, fp), "formatting is that of the value");
    reach("formatted");
} }

fn boxed<'a, T>(v: T) -> (Box<'a, T>, *mut T) {
    let n: usize = any();
    assume(n >= size_of::<T>());
    let p = lend(n as i128, align_of::<T>() as i128) as *mut T;
    (Box::new(v, unsafe { Uninit::new(NonNull::new_unchecked(p), n) }), p)
}
fn counted<'a, T>(v: T) -> (Rc<'a, T>, *const T) {
    let l = Rc::<T>::layout();
    let n: usize = any();
    assume(n >= l.size());
    let p = lend(n as i128, l.align() as i128);
    let rc = Rc::new(v, unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) });
    let q = &*rc as *const T;
    (rc, q)
}
fn vector<'a, T>(items: &[T]) -> (FixedVec<'a, T>, *mut T) {
    let n = items.len();
    let bytes: usize = any();
    assume(prod(n as i128, sz::<T>()) <= bytes as i128);
    let p = lend(bytes as i128, align_of::<T>() as i128) as *mut T;
    unsafe {
        copy_nonoverlapping(items.as_ptr(), p, n);
        let mut v = FixedVec::new(Uninit::new(NonNull::new_unchecked(slice_from_raw_parts_mut(p, n)), bytes));
        v.set_len(n);
        (v, p)
    }
}
fn leak<T: ?Sized>(v: &mut T) -> LeakBox<'_, T> { unsafe { LeakBox::from_mut_unchecked(v) } }

pub mod c33 {
    use super::*;
    // ---- boxes
    pub fn box_compared<T>(x: Probe<T>, y: Probe<T>) {
        let ((a, p), (b, q)) = (boxed(x), boxed(y));
        put("left", addr(p)); put("right", addr(q)); decide();
        let m = mark();
        { compared!(a, b); }
        untouched!(m, p, q);
        prove(drops_of::<Probe<T>>(m) == 0, "the values are only read");
        forget((a, b));
    }
    pub fn box_hash<T>(x: Probe<T>) { let (a, p) = boxed(x); put("left", addr(p)); { hashes!(a); } forget(a); }
    pub fn box_debug<T>(x: Probe<T>, f: &mut fmt::Formatter<'_>) { let (a, p) = boxed(x); put("left", addr(p)); decide(); { formats!(a, f, Debug, "debug"); } forget(a); }
    pub fn box_pointer<T>(x: Probe<T>, f: &mut fmt::Formatter<'_>) { let (a, p) = boxed(x); put("left", addr(p)); decide(); { formats!(a, f, Pointer, "pointer"); } forget(a); }
    pub fn box_borrows<T>(x: T) {
        forbid_panic(true);
        let x0 = snap(&x);
        let (mut a, p) = boxed(x);
        let m = mark();
        prove(&*a as *const T == p, "borrowing yields the value");
        prove(&mut *a as *mut T == p, "borrowing yields the value");
        prove(<Box<'_, T> as Borrow<T>>::borrow(&a) as *const T == p, "borrowing yields the value");
        prove(<Box<'_, T> as BorrowMut<T>>::borrow_mut(&mut a) as *mut T == p, "borrowing yields the value");
        prove(<Box<'_, T> as AsRef<T>>::as_ref(&a) as *const T == p, "borrowing yields the value");
        prove(<Box<'_, T> as AsMut<T>>::as_mut(&mut a) as *mut T == p, "borrowing yields the value");
        prove(same(&*a, &x0), "borrowing yields the value");
        untouched!(m, p);
        forget(a);
        reach("borrowed");
    }
    // ---- reference counted
    pub fn rc_compared<T>(x: Probe<T>, y: Probe<T>) {
        let ((a, p), (b, q)) = (counted(x), counted(y));
        put("left", addr(p)); put("right", addr(q)); decide();
        let m = mark();
        { compared!(a, b); }
        untouched!(m, p, q);
        prove(drops_of::<Probe<T>>(m) == 0, "the values are only read");
        forget((a, b));
    }
    /// two handles of one value: the answer is still that of the value
    pub fn rc_alias<T>(x: Probe<T>) {
        let (a, p) = counted(x);
        let b = a.clone();
        put("left", addr(p)); put("right", addr(p)); decide();
        let m = mark();
        { compared!(a, b); }
        untouched!(m, p);
        forget((a, b));
    }
    pub fn rc_hash<T>(x: Probe<T>) { let (a, p) = counted(x); put("left", addr(p)); { hashes!(a); } forget(a); }
    pub fn rc_debug<T>(x: Probe<T>, f: &mut fmt::Formatter<'_>) { let (a, p) = counted(x); put("left", addr(p)); decide(); { formats!(a, f, Debug, "debug"); } forget(a); }
    pub fn rc_display<T>(x: Probe<T>, f: &mut fmt::Formatter<'_>) { let (a, p) = counted(x); put("left", addr(p)); decide(); { formats!(a, f, Display, "display"); } forget(a); }
    pub fn rc_pointer<T>(x: Probe<T>, f: &mut fmt::Formatter<'_>) { let (a, p) = counted(x); put("left", addr(p)); decide(); { formats!(a, f, Pointer, "pointer"); } forget(a); }
    pub fn rc_borrows<T>(x: T) {
        forbid_panic(true);
        let x0 = snap(&x);
        let (a, p) = counted(x);
        let m = mark();
        prove(<Rc<'_, T> as Borrow<T>>::borrow(&a) as *const T == p, "borrowing yields the value");
        prove(<Rc<'_, T> as AsRef<T>>::as_ref(&a) as *const T == p, "borrowing yields the value");
        prove(same(<Rc<'_, T> as AsRef<T>>::as_ref(&a), &x0), "borrowing yields the value");
        untouched!(m, p);
        forget(a);
        reach("borrowed");
    }
    // ---- vectors
    pub fn vec_compared<T>(x: &[Probe<T>], y: &[Probe<T>]) {
        let ((a, p), (b, q)) = (vector(x), vector(y));
        put("left", addr(p)); put("left len", x.len() as i128); put("right", addr(q)); put("right len", y.len() as i128); decide();
        let m = mark();
        { compared!(a, b); }
        untouched!(m, p, q);
        prove(drops_of::<Probe<T>>(m) == 0, "the values are only read");
        forget((a, b));
    }
    pub fn vec_hash<T>(x: &[Probe<T>]) {
        let (a, p) = vector(x);
        put("left", addr(p)); put("left len", x.len() as i128); put("right", addr(p)); put("right len", x.len() as i128);
        { hashes!(a); }
        forget(a);
    }
    fn is<T>(s: *const [T], p: *const T, n: usize) { prove(and(addr(s as *const T) == addr(p), s.len() == n), "borrowing yields the elements"); }
    pub fn vec_borrows<T>(x: &[T]) {
        forbid_panic(true);
        let n = x.len();
        let (mut a, p) = vector(x);
        let m = mark();
        is(a.deref(), p, n);
        is(a.deref_mut(), p, n);
        is(<FixedVec<'_, T> as Borrow<[T]>>::borrow(&a), p, n);
        is(<FixedVec<'_, T> as BorrowMut<[T]>>::borrow_mut(&mut a), p, n);
        is(<FixedVec<'_, T> as AsRef<[T]>>::as_ref(&a), p, n);
        is(<FixedVec<'_, T> as AsMut<[T]>>::as_mut(&mut a), p, n);
        untouched!(m, p);
        forget(a);
        reach("borrowed");
    }
    pub fn vec_index<T>(x: &[T], i: usize) {
        let (mut a, p) = vector(x);
        let (n, m) = (x.len(), mark());
        let r = catch(|| {
            let e: *const T = &a[i];
            prove(addr(e) == addr(p) + prod(i as i128, sz::<T>()), "indexing yields the element");
            let e: *mut T = &mut a[i];
            prove(addr(e) == addr(p) + prod(i as i128, sz::<T>()), "indexing yields the element");
        });
        prove(r.is_ok() == (i < n), "exactly the indices below the length are accepted");
        if r.is_ok() { reach("indexed"); } else { reach("refused"); }
        untouched!(m, p);
        forget(a);
    }
    /// ranges: what the slice of the elements gives
    macro_rules! ranges { ($($name:ident, $ix:expr, $lo:expr, $hi:expr;)*) => { $(
        pub fn $name<T>(x: &[T], i: usize, j: usize) {
            let (mut a, p) = vector(x);
            let (n, m) = (x.len(), mark());
            let (lo, hi) = ($lo(i, j, n), $hi(i, j, n));
            let r = catch(|| {
                let s: *const [T] = &a[$ix(i, j)];
                prove(and(addr(s as *const T) == addr(p) + prod(lo as i128, sz::<T>()), s.len() == hi - lo), "indexing yields the elements");
                let s: *mut [T] = &mut a[$ix(i, j)];
                prove(and(addr(s as *const T) == addr(p) + prod(lo as i128, sz::<T>()), s.len() == hi - lo), "indexing yields the elements");
            });
            prove(r.is_ok() == (lo <= hi && hi <= n), "exactly the ranges below the length are accepted");
            if r.is_ok() { reach("indexed"); }
            untouched!(m, p);
            forget(a);
        }
    )* } }
    ranges! {
        vec_range, |i, j| i..j, |i, j, n| i, |i, j, n| j;
        vec_from, |i, j| i.., |i, j, n| i, |i, j, n: usize| n;
        vec_to, |i, j| ..j, |i, j, n| 0usize, |i, j, n| j;
        vec_full, |i: usize, j: usize| .., |i, j, n| 0usize, |i, j, n: usize| n;
    }
    // ---- leaked boxes
    pub fn leak_hash<T>(x: &mut Probe<T>) { put("left", addr(x)); let a = leak(x); { hashes!(a); } forget(a); }
    pub fn leak_hash_slice<T>(x: &mut [Probe<T>]) {
        let (p, n) = (x.as_ptr(), x.len());
        put("left", addr(p)); put("left len", n as i128); put("right", addr(p)); put("right len", n as i128);
        let a = leak(x);
        { hashes!(a); }
        forget(a);
    }
    pub fn leak_debug<T>(x: &mut Probe<T>, f: &mut fmt::Formatter<'_>) { put("left", addr(x)); decide(); let a = leak(x); { formats!(a, f, Debug, "debug"); } forget(a); }
    pub fn leak_display<T>(x: &mut Probe<T>, f: &mut fmt::Formatter<'_>) { put("left", addr(x)); decide(); let a = leak(x); { formats!(a, f, Display, "display"); } forget(a); }
    pub fn leak_pointer<T>(x: &mut Probe<T>, f: &mut fmt::Formatter<'_>) { put("left", addr(x)); decide(); let a = leak(x); { formats!(a, f, Pointer, "pointer"); } forget(a); }
    pub fn leak_borrows<T>(x: &mut T) {
        forbid_panic(true);
        let p = x as *mut T;
        let mut a = leak(x);
        let m = mark();
        prove(&*a as *const T == p, "borrowing yields the value");
        prove(&mut *a as *mut T == p, "borrowing yields the value");
        prove(<LeakBox<'_, T> as AsRef<T>>::as_ref(&a) as *const T == p, "borrowing yields the value");
        prove(<LeakBox<'_, T> as AsMut<T>>::as_mut(&mut a) as *mut T == p, "borrowing yields the value");
        untouched!(m, p);
        forget(a);
        reach("borrowed");
    }
    pub fn leak_borrows_slice<T>(x: &mut [T]) {
        forbid_panic(true);
        let (p, n) = (x.as_mut_ptr(), x.len());
        let mut a = leak(x);
        let m = mark();
        is(&*a, p, n);
        is(&mut *a, p, n);
        is(<LeakBox<'_, [T]> as AsRef<[T]>>::as_ref(&a), p, n);
        is(<LeakBox<'_, [T]> as AsMut<[T]>>::as_mut(&mut a), p, n);
        untouched!(m, p);
        forget(a);
        reach("borrowed");
    }
}
