//! Reference counted values: C26, C27.
use crate::g::*;
use core::mem::{align_of, forget, size_of};
use core::ptr::{read, NonNull};
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

/// memory for a value, with some space to spare
fn memory<'a, T>() -> (Uninit<'a, ()>, *mut u8, usize) {
    let l = Rc::<T>::layout();
    let n: usize = any();
    assume(n >= l.size());
    let p = lend(n as i128, l.align() as i128);
    (unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) }, p, n)
}
fn fresh<'a, T>(val: T) -> Rc<'a, T> { let (m, _, _) = memory::<T>(); Rc::new(val, m) }
/// all handles of one kind are the same
fn strong<'a, T>(x: &Rc<'a, T>) -> Rc<'a, T> { unsafe { read(x) } }
fn weak<'a, T>(x: &Weak<'a, T>) -> Weak<'a, T> { unsafe { read(x) } }
fn peek<'a, T>(x: &Rc<'a, T>) -> Weak<'a, T> { unsafe { core::mem::transmute_copy(x) } }
const LOTS: usize = usize::MAX - 3;

/// Any history that ends with s strong and w weak handles (s is not 0).
fn history<T>(rc: &Rc<'_, T>) -> (usize, usize) {
    let (mut s, mut w) = (1usize, 0usize);
    while any::<bool>() {
        assume(and(s < LOTS, w < LOTS));
        let op: u8 = any();
        if op == 0 {
            let h = strong(rc);
            let c = h.clone();
            forget(c);
            forget(h);
            s += 1;
        } else if op == 1 {
            let c = Rc::downgrade(rc);
            forget(c);
            w += 1;
        } else if op == 2 {
            assume(s > 1);
            drop(strong(rc));
            s -= 1;
        } else if op == 3 {
            assume(w > 0);
            drop(peek(rc));
            w -= 1;
        } else if op == 4 {
            assume(w > 0);
            let h = peek(rc);
            match h.upgrade() {
                Some(c) => { forget(c); s += 1; }
                None => prove(false, "a weak handle can be upgraded while there is a strong one"),
            }
            forget(h);
        } else {
            assume(w > 0);
            let h = peek(rc);
            let c = h.clone();
            forget(c);
            forget(h);
            w += 1;
        }
    }
    assume(and(s < LOTS, w < LOTS));
    (s, w)
}
fn counted<T>(rc: &Rc<'_, T>, s: usize, w: usize) {
    prove(Rc::strong_count(rc) == s, "the strong count is the number of strong handles");
    prove(Rc::weak_count(rc) == w + 1, "the weak count is the number of weak handles and one for all strong ones");
    let h = peek(rc);
    prove(h.strong_count() == s, "the strong count is the number of strong handles");
    prove(h.weak_count() == w + 1, "the weak count is the number of weak handles and one for all strong ones");
    forget(h);
}
fn counted_dead<T>(h: &Weak<'_, T>, w: usize) {
    prove(h.strong_count() == 0, "the strong count is the number of strong handles");
    prove(h.weak_count() == w, "the weak count is the number of weak handles");
}

pub mod c26 {
    use super::*;
    pub fn new<T>(val: T) {
        let v = snap(&val);
        let (m, p, n) = memory::<T>();
        forbid_panic(true);
        let k = mark();
        let rc = Rc::new(val, m);
        prove(drops_of::<T>(k) == 0, "the value is moved, not dropped");
        prove(same(&*rc, &v), "the value is stored");
        prove(in_bounds(&*rc as *const T, size_of::<T>() as i128), "the value is inside the memory");
        prove(same_object(&*rc as *const T, p), "the value is inside the memory");
        prove(writes_within(k, p, Rc::<T>::layout().size() as i128), "only as much memory as advertised is used");
        counted(&rc, 1, 0);
        forget(rc);
        reach("made");
    }
    pub fn alive<T>(val: T) {
        let v = snap(&val);
        let rc = fresh(val);
        let k = mark();
        let (s, w) = history(&rc);
        prove(drops_of::<T>(k) == 0, "the value lives as long as a strong handle");
        prove(same(&*rc, &v), "the value lives as long as a strong handle");
        counted(&rc, s, w);
        forget(rc);
        reach("alive");
    }
    pub fn last<T>(val: T) {
        let rc = fresh(val);
        let (s, w) = history(&rc);
        assume(s == 1);
        let h = peek(&rc);
        let k = mark();
        drop(rc);
        prove(drops_of::<T>(k) == 1, "the value is dropped once with the last strong handle");
        counted_dead(&h, w);
        let mut w = w;
        while any::<bool>() {
            assume(and(w < LOTS, w > 0));
            let op: u8 = any();
            if op == 0 {
                let h = weak(&h);
                let c = h.clone();
                forget(c);
                forget(h);
                w += 1;
            } else if op == 1 {
                drop(weak(&h));
                w -= 1;
            } else {
                prove(h.upgrade().is_none(), "a value that was dropped is never upgraded to");
            }
        }
        counted_dead(&h, w);
        prove(drops_of::<T>(k) == 1, "the value is dropped once with the last strong handle");
        forget(h);
        reach("gone");
    }
    pub fn try_unwrap<T>(val: T) {
        let v = snap(&val);
        let rc = fresh(val);
        let (s, w) = history(&rc);
        let copy = strong(&rc);
        let k = mark();
        forbid_panic(true);
        match Rc::try_unwrap(rc) {
            Ok((x, h)) => {
                prove(s == 1, "only the last strong handle can be unwrapped");
                prove(same(&x, &v), "the value is returned");
                prove(drops_of::<T>(k) == 0, "the value is moved, not dropped");
                counted_dead(&h, w + 1);
                prove(h.upgrade().is_none(), "a value that was moved out is never upgraded to");
                drop(h);
                let h = peek(&copy);
                counted_dead(&h, w);
                prove(drops_of::<T>(k) == 0, "the value is moved, not dropped");
                forget(x);
                forget(h);
                reach("unwrapped");
            }
            Err(rc) => {
                prove(s != 1, "the last strong handle can be unwrapped");
                counted(&rc, s, w);
                prove(same(&*rc, &v), "a refused handle is returned unchanged");
                prove(drops_of::<T>(k) == 0, "a refused handle is returned unchanged");
                forget(rc);
                reach("refused");
            }
        }
        forget(copy);
    }
    pub fn ptr_eq<T>(val: T, other: T) {
        let (a, b) = (fresh(val), fresh(other));
        let c = a.clone();
        forbid_panic(true);
        prove(Rc::ptr_eq(&a, &c), "handles on one value are equal");
        prove(!Rc::ptr_eq(&a, &b), "handles on different values are different");
        forget(a);
        forget(b);
        forget(c);
        reach("compared");
    }
    /// what the value observes while it is dropped
    pub struct Probe<'a> { weak: *const Weak<'a, Probe<'a>>, w: usize, dropped: *mut u8 }
    impl Drop for Probe<'_> {
        fn drop(&mut self) {
            let h = unsafe { read(self.weak) };
            prove(h.strong_count() == 0, "while the value is dropped there is no strong handle");
            prove(h.upgrade().is_none(), "a value that is being dropped is never upgraded to");
            prove(h.weak_count() == self.w + 1, "while the value is dropped the strong handles still count as a weak one");
            unsafe { *self.dropped += 1 };
            forget(h);
            reach("dropping");
        }
    }
    pub fn dropping(dropped: &mut u8) {
        *dropped = 0;
        let mut rc = fresh(Probe { weak: core::ptr::null(), w: 0, dropped });
        let (s, w) = history(&rc);
        let h = peek(&rc);
        unsafe {
            let p = &*rc as *const Probe as *mut Probe;
            (*p).weak = &h;
            (*p).w = w;
        }
        assume(s == 1);
        drop(rc);
        prove(*dropped == 1, "the value is dropped once with the last strong handle");
        counted_dead(&h, w);
        forget(h);
    }
    /// a panicking destructor
    pub fn unwinding<T>(val: T) {
        let rc = fresh(val);
        let (s, w) = history(&rc);
        assume(s == 1);
        let h = peek(&rc);
        super::super::g::unwinding(true);
        let k = mark();
        let r = catch(move || drop(rc));
        prove(drops_of::<T>(k) == 1, "the value is dropped once with the last strong handle");
        prove(h.upgrade().is_none(), "a value that was dropped is never upgraded to");
        prove(h.weak_count() >= w, "no weak handle loses its count");
        match r { Ok(()) => reach("dropped"), Err(()) => reach("unwound") }
        forget(h);
    }
}
pub mod c27 {
    use super::*;
    pub fn get_mut<T>(val: T) {
        let v = snap(&val);
        let mut rc = fresh(val);
        let (s, w) = history(&rc);
        forbid_panic(true);
        let p = &*rc as *const T;
        match Rc::get_mut(&mut rc) {
            Some(x) => {
                prove(and(s == 1, w == 0), "exclusive access is granted to the sole owner only");
                prove(addr(x) == addr(p), "the access is to the value");
                prove(same(x, &v), "the access is to the value");
                reach("granted");
            }
            None => { prove(or(s > 1, w > 0), "exclusive access is granted to the sole owner"); reach("refused"); }
        }
        counted(&rc, s, w);
        forget(rc);
    }
    pub fn into_raw<T>(val: T) {
        let v = snap(&val);
        let (m, p, n) = memory::<T>();
        let rc = Rc::new(val, m);
        let (s, w) = history(&rc);
        let k = mark();
        forbid_panic(true);
        let q = &*rc as *const T;
        match Rc::into_raw(rc) {
            Ok(u) => {
                prove(and(s == 1, w == 0), "the memory is granted to the sole owner only");
                prove(drops_of::<T>(k) == 0, "the value stays in the memory");
                prove(addr(u.as_ptr()) == addr(q), "the memory is that of the value");
                prove(same(u.as_ptr(), &v), "the value stays in the memory");
                prove(and(addr(u.as_ptr()) == addr(p), u.size() == n), "the memory is that which was provided");
                prove(in_bounds(u.as_ptr() as *const u8, u.size() as i128), "the memory is that which was provided");
                forbid_panic(true);
                let rc = unsafe { Rc::from_raw(u) };
                prove(same(&*rc, &v), "the memory can be turned back");
                counted(&rc, 1, 0);
                forget(rc);
                reach("granted");
            }
            Err(rc) => {
                prove(or(s > 1, w > 0), "the memory is granted to the sole owner");
                prove(drops_of::<T>(k) == 0, "a refused handle is returned unchanged");
                prove(same(&*rc, &v), "a refused handle is returned unchanged");
                counted(&rc, s, w);
                forget(rc);
                reach("refused");
            }
        }
    }
    pub fn weak_alive<T>(val: T) {
        let rc = fresh(val);
        let (s, w) = history(&rc);
        assume(w > 0);
        forbid_panic(true);
        let h = peek(&rc);
        match h.try_unwrap() {
            Ok(_) => prove(false, "the memory is not reclaimed while the value lives"),
            Err(h) => { counted(&rc, s, w); forget(h); reach("refused"); }
        }
        forget(rc);
    }
    pub fn weak_dead<T>(val: T) {
        let (m, p, n) = memory::<T>();
        let rc = Rc::new(val, m);
        let (s, w) = history(&rc);
        assume(s == 1);
        assume(w > 0);
        let h = peek(&rc);
        drop(rc);
        forbid_panic(true);
        let k = mark();
        match h.try_unwrap() {
            Ok(u) => {
                prove(w == 1, "the memory is granted to the sole owner only");
                prove(and(addr(u.as_ptr() as *const u8) == addr(p), u.size() == n), "the memory is that which was provided");
                reach("granted");
            }
            Err(h) => {
                prove(w > 1, "the memory is granted to the sole owner");
                counted_dead(&h, w);
                forget(h);
                reach("refused");
            }
        }
        prove(drops_of::<T>(k) == 0, "the value is not dropped again");
    }
    /// the value tries to get at its memory while it is being dropped
    pub struct Probe<'a> { weak: *const Weak<'a, Probe<'a>> }
    impl Drop for Probe<'_> {
        fn drop(&mut self) {
            let h = unsafe { read(self.weak) };
            match h.try_unwrap() {
                Ok(_) => prove(false, "the memory is not reclaimed while the value is being dropped"),
                Err(h) => { forget(h); reach("refused while dropping"); }
            }
        }
    }
    pub fn dropping() {
        let rc = fresh(Probe { weak: core::ptr::null() });
        let (s, w) = history(&rc);
        assume(s == 1);
        assume(w > 0);
        let h = peek(&rc);
        unsafe { (*(&*rc as *const Probe as *mut Probe)).weak = &h; }
        forbid_panic(true);
        drop(rc);
        counted_dead(&h, w);
        forget(h);
        reach("dropped");
    }
}
