//! Boxes in provided memory: C25.
use crate::g::*;
use core::mem::{align_of, forget, size_of};
use core::ptr::{slice_from_raw_parts_mut, NonNull};
use unsize::{CoerceUnsize, Coercion, CoerciblePtr};
use without_alloc::boxed::Box;
use without_alloc::Uninit;

pub trait Tr { fn me(&self) -> usize; }

/// memory for a value, with some space to spare
fn memory<'a, T>() -> (Uninit<'a, T>, *mut T, usize) {
    let n: usize = any();
    assume(n >= size_of::<T>());
    let p = lend(n as i128, align_of::<T>() as i128) as *mut T;
    (unsafe { Uninit::new(NonNull::new_unchecked(p), n) }, p, n)
}
fn boxed<'a, T>(v: T) -> (Box<'a, T>, *mut T, usize) {
    let (m, p, n) = memory::<T>();
    (Box::new(v, m), p, n)
}

pub mod c25 {
    use super::*;
    pub fn new<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (m, p, n) = memory::<T>();
        let k = mark();
        let b = Box::new(v, m);
        prove(drops(&v0) == 0, "the value is moved, not dropped");
        prove(drops_of::<T>(k) == 0, "nothing in the memory is dropped");
        prove(same(p, &v0), "the value is in the memory");
        prove(writes_within(k, p, size_of::<T>() as i128), "only the memory of the value is written");
        prove(addr(&*b) == addr(p), "the box is at the memory");
        forget(b);
        reach("made");
    }
    pub fn into_box<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (m, p, n) = memory::<T>();
        let k = mark();
        let b = m.into_box(v);
        prove(drops(&v0) == 0, "the value is moved, not dropped");
        prove(drops_of::<T>(k) == 0, "nothing in the memory is dropped");
        prove(same(p, &v0), "the value is in the memory");
        prove(writes_within(k, p, size_of::<T>() as i128), "only the memory of the value is written");
        prove(addr(&*b) == addr(p), "the box is at the memory");
        forget(b);
        reach("made");
    }
    pub fn dropped<T>(v: T) {
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let k = mark();
        drop(b);
        prove(drops(&v0) == 1, "dropping the box drops the value exactly once");
        prove(drops_of::<T>(k) == 1, "dropping the box drops nothing else");
        prove(dropped_at(&v0, p), "the value is dropped in its place");
        reach("dropped");
    }
    pub fn dropped_unwinding<T>(v: T) {
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let k = mark();
        let _ = catch(|| drop(b));
        prove(drops(&v0) == 1, "dropping the box drops the value exactly once");
        prove(drops_of::<T>(k) == 1, "dropping the box drops nothing else");
        reach("dropped");
    }
    pub fn reads<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (mut b, p, n) = boxed(v);
        let k = mark();
        while any::<bool>() {
            if any() { prove(addr(&*b) == addr(p), "a reference is to the memory of the box"); } else { prove(addr(&mut *b) == addr(p), "a reference is to the memory of the box"); }
        }
        prove(drops_of::<T>(k) == 0, "borrowing does not drop");
        prove(same(p, &v0), "borrowing keeps the value");
        forget(b);
        reach("borrowed");
    }
    pub fn take<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let k = mark();
        let (w, m) = Box::take(b);
        prove(same(&w, &v0), "the value is returned");
        prove(drops_of::<T>(k) == 0, "a taken value is not dropped");
        prove(m.as_ptr() == p, "the memory is that of the box");
        prove(m.size() == n, "the memory is that of the box");
        prove(no_writes(k, p), "taking does not write");
        forbid_panic(false);
        drop(w);
        drop(m);
        prove(drops(&v0) == 1, "a taken value is dropped by its owner only");
        reach("taken");
    }
    /// the memory can be used again
    pub fn reuse<T>(v: T, u: T) {
        let (v0, u0) = (snap(&v), snap(&u));
        let (b, p, n) = boxed(v);
        let (w, m) = Box::take(b);
        let c = Box::new(u, m);
        prove(same(&*c, &u0), "the memory holds the new value");
        prove(same(&w, &v0), "the old value is not changed");
        drop(c);
        prove(and(drops(&u0) == 1, drops(&v0) == 0), "each value is dropped once");
        drop(w);
        prove(and(drops(&u0) == 1, drops(&v0) == 1), "each value is dropped once");
        reach("reused");
    }
    pub fn into_raw<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let k = mark();
        let m = Box::into_raw(b);
        prove(drops_of::<T>(k) == 0, "the value is not dropped");
        prove(same(p, &v0), "the value stays");
        prove(m.as_ptr() == p, "the memory is that of the box");
        prove(m.size() == n, "the memory is that of the box");
        let b = unsafe { Box::from_raw(m) };
        prove(drops_of::<T>(k) == 0, "the value is not dropped");
        prove(same(&*b, &v0), "the value stays");
        forbid_panic(false);
        drop(b);
        prove(drops(&v0) == 1, "dropping the box drops the value exactly once");
        reach("converted");
    }
    pub fn into_raw_only<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        drop(Box::into_raw(b));
        prove(drops(&v0) == 0, "raw memory does not drop");
        reach("converted");
    }
    pub fn leak<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let k = mark();
        let r = Box::leak(b);
        prove(r as *mut T == p, "the reference is to the memory of the box");
        prove(drops_of::<T>(k) == 0, "a leaked box does not drop");
        prove(same(r, &v0), "the value stays");
        reach("leaked");
    }
    // ---- unsized values
    pub fn raw_unsized<T: ?Sized>(v: &mut T, n: usize) {
        forbid_panic(true);
        let p = v as *mut T;
        assume(n >= core::mem::size_of_val(v));
        let b = unsafe { Box::from_raw(Uninit::new(NonNull::new_unchecked(p), n)) };
        let k = mark();
        prove(core::ptr::eq(&*b, p), "the box is at the memory");
        let m = Box::into_raw(b);
        prove(drops_of::<T>(k) == 0, "the value is not dropped");
        prove(core::ptr::eq(m.as_ptr(), p), "the memory is that of the box");
        prove(m.size() == n, "the memory is that of the box");
        reach("converted");
    }
    pub fn dropped_unsized<T: ?Sized>(v: &mut T, n: usize) {
        assume(n >= core::mem::size_of_val(v));
        let b = unsafe { Box::from_raw(Uninit::new(NonNull::new_unchecked(v as *mut T), n)) };
        let k = mark();
        let _ = catch(|| drop(b));
        prove(drops_of::<T>(k) == 1, "dropping the box drops the value exactly once");
        reach("dropped");
    }
    pub fn leak_unsized<T: ?Sized>(v: &mut T, n: usize) {
        forbid_panic(true);
        let p = v as *mut T;
        assume(n >= core::mem::size_of_val(v));
        let b = unsafe { Box::from_raw(Uninit::new(NonNull::new_unchecked(p), n)) };
        let k = mark();
        let r = Box::leak(b);
        prove(core::ptr::eq(r, p), "the reference is to the memory of the box");
        prove(drops_of::<T>(k) == 0, "a leaked box does not drop");
        reach("leaked");
    }
    pub fn dropped_slice<T>(v: &mut [T], n: usize) {
        let len = v.len() as i128;
        assume(n >= core::mem::size_of_val(v));
        let b = unsafe { Box::from_raw(Uninit::new(NonNull::new_unchecked(v as *mut [T]), n)) };
        let k = mark();
        drop(b);
        prove(drops_of::<T>(k) == len, "dropping the box drops every element exactly once");
        reach("dropped");
    }
    pub fn coerced<T: Tr + 'static>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let k = mark();
        let d: Box<dyn Tr> = b.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
        prove(core::ptr::eq(&*d, p as *const dyn Tr), "coercing keeps the address");
        prove(drops_of::<T>(k) == 0, "coercing does not drop");
        prove(no_writes(k, p), "coercing keeps the value");
        forbid_panic(false);
        drop(d);
        prove(drops(&v0) == 1, "coercing keeps the ownership");
        reach("coerced");
    }
    pub fn coerced_memory<T: Tr + 'static>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let (b, p, n) = boxed(v);
        let d: Box<dyn Tr> = b.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
        let m = Box::into_raw(d);
        prove(m.as_ptr() as *mut T == p, "coercing keeps the address");
        prove(m.size() == n, "coercing keeps the length of the memory");
        prove(drops(&v0) == 0, "coercing does not drop");
        reach("coerced");
    }
    /// whatever the coercion returned
    pub fn coerced_slice<T, V>(v: T) {
        let v0 = snap(&v);
        let (mut b, p, n) = boxed(v);
        let l: usize = any();
        assume(prod(l as i128, size_of::<V>() as i128) <= size_of::<T>() as i128);
        assume(is_multiple(addr(p), align_of::<V>() as i128));
        let q: *const V = any();
        let mut calls = 0;
        let d: Box<[V]> = b.unsize(unsafe { Coercion::new(|x: *const T| { calls += 1; prove(x == p as *const T, "the coercion is given the address of the value"); core::ptr::slice_from_raw_parts(q, l) }) });
        prove(calls == 1, "the coercion is called once");
        prove(addr(&*d) == addr(p), "coercing keeps the address");
        prove(d.len() == l, "coercing uses the metadata of the coercion");
        prove(drops(&v0) == 0, "coercing does not drop");
        let m = Box::into_raw(d);
        prove(m.size() == n, "coercing keeps the length of the memory");
        reach("coerced");
    }
    /// uninitialised memory is coerced likewise
    pub fn coerced_uninit<T: Tr + 'static>() {
        forbid_panic(true);
        let (m, p, n) = memory::<T>();
        let d: Uninit<dyn Tr> = m.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
        prove(core::ptr::eq(d.as_ptr(), p as *mut dyn Tr), "coercing keeps the address");
        prove(d.size() == n, "coercing keeps the length of the memory");
        reach("coerced");
    }
}
