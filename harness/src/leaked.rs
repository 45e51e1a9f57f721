//! Leaked boxes and scoped stack slices: C13, C14.
use crate::g::*;
use core::alloc::Layout;
use core::mem::{align_of, size_of, size_of_val, MaybeUninit};
use static_alloc::leaked::{Alloca, LeakBox};

pub mod c13 {
    use super::*;
    const MAX: i128 = 1 << 20;
    fn padded<T>(len: usize) -> i128 { prod(len as i128 + 1, size_of::<T>() as i128) }
    pub fn new<T>(len: usize) {
        forbid_panic(true);
        match Alloca::<T>::new(len) {
            Some(a) => {
                prove(len as i128 + 1 <= usize::MAX as i128, "a helper exists only if the padded length is representable");
                prove(padded::<T>(len) <= isize::MAX as i128, "a helper exists only if the padded size is representable");
                reach("made");
            }
            None => {
                prove(or(len as i128 + 1 > usize::MAX as i128, padded::<T>(len) > isize::MAX as i128), "only what cannot be represented is refused");
                reach("refused");
            }
        }
    }
    pub fn run<T>(len: usize) {
        let Some(a) = Alloca::<T>::new(len) else { return };
        assume(padded::<T>(len) <= MAX);
        forbid_panic(true);
        let mut calls = 0;
        let r = a.run(|s: &mut [MaybeUninit<T>]| {
            calls += 1;
            prove(s.len() == len, "the slice has the requested number of elements");
            prove(is_multiple(addr(s.as_ptr()), align_of::<T>() as i128), "the slice is aligned");
            prove(addr(s.as_ptr()) != 0, "the slice is not null");
            prove(or(prod(len as i128, size_of::<T>() as i128) == 0, and(is_memory(s.as_ptr()), in_bounds(s.as_ptr(), prod(len as i128, size_of::<T>() as i128)))), "the slice is inside the reserved memory");
            reach("called");
            17
        });
        prove(calls == 1, "the closure is called exactly once");
        prove(r == 17, "the result of the closure is returned");
        reach("returned");
    }
    /// a helper is reusable
    pub fn run_twice<T>(len: usize) {
        let Some(a) = Alloca::<T>::new(len) else { return };
        assume(padded::<T>(len) <= 4096);
        forbid_panic(true);
        let mut calls = 0;
        a.run(|s| { calls += 1; prove(s.len() == len, "the slice has the requested number of elements") });
        a.run(|s| { calls += 1; prove(s.len() == len, "the slice has the requested number of elements") });
        prove(calls == 2, "the closure is called exactly once per run");
        reach("returned");
    }
    pub fn too_big<T>(len: usize) {
        let Some(a) = Alloca::<T>::new(len) else { return };
        assume(padded::<T>(len) > MAX);
        let mut calls = 0;
        let r = catch(|| a.run(|s: &mut [MaybeUninit<T>]| { calls += 1; prove(s.len() == len, "the slice has the requested number of elements"); }));
        prove(calls == 0, "a slice above the supported maximum is refused");
        prove(r.is_err(), "a slice above the supported maximum is refused");
        reach("refused");
    }
}

pub mod c14 {
    use super::*;
    fn lb<T: ?Sized>(v: &mut T) -> LeakBox<'_, T> { unsafe { LeakBox::from_mut_unchecked(v) } }
    pub fn dropped<T>(v: &mut T) {
        forbid_panic(true);
        let v0 = snap(v);
        let b = lb(v);
        prove(drops(&v0) == 0, "making a box does not drop");
        drop(b);
        prove(drops(&v0) == 1, "dropping the box drops the value exactly once");
        reach("dropped");
    }
    pub fn dropped_unsized<T: ?Sized>(v: &mut T) {
        let m = mark();
        drop(lb(v));
        prove(drops_of::<T>(m) == 1, "dropping the box drops the value exactly once");
        reach("dropped");
    }
    pub fn dropped_slice<T>(v: &mut [T]) {
        let n = v.len() as i128;
        let m = mark();
        drop(lb(v));
        prove(drops_of::<T>(m) == n, "dropping the box drops every element exactly once");
        reach("dropped");
    }
    pub fn into_raw<T>(v: &mut T) {
        forbid_panic(true);
        let (p, v0) = (v as *mut T, snap(v));
        let q = LeakBox::into_raw(lb(v));
        prove(q == p, "the raw pointer is that of the box");
        prove(drops(&v0) == 0, "a box turned into a pointer does not drop");
        prove(same(q, &v0), "the value is unchanged");
        reach("converted");
    }
    pub fn into_raw_unsized<T: ?Sized>(v: &mut T) {
        let p = v as *mut T;
        let m = mark();
        let q = LeakBox::into_raw(lb(v));
        prove(core::ptr::eq(p, q), "the raw pointer is that of the box");
        prove(drops_of::<T>(m) == 0, "a box turned into a pointer does not drop");
        reach("converted");
    }
    pub fn from_raw<T>(v: &mut T) {
        forbid_panic(true);
        let (p, v0) = (v as *mut T, snap(v));
        let b = unsafe { LeakBox::from_raw(p) };
        prove(addr(&*b) == addr(p), "the box is at the pointer");
        prove(same(&*b, &v0), "the value is unchanged");
        drop(b);
        prove(drops(&v0) == 1, "dropping the box drops the value exactly once");
        reach("dropped");
    }
    pub fn leak<T>(v: &mut T) {
        forbid_panic(true);
        let (p, v0) = (v as *mut T, snap(v));
        let r = LeakBox::leak(lb(v));
        prove(r as *mut T == p, "the reference is to the memory of the box");
        prove(drops(&v0) == 0, "a leaked box does not drop");
        prove(same(r, &v0), "the value is unchanged");
        reach("converted");
    }
    pub fn leak_unsized<T: ?Sized>(v: &mut T) {
        let p = v as *mut T;
        let m = mark();
        let r = LeakBox::leak(lb(v));
        prove(core::ptr::eq(p, r), "the reference is to the memory of the box");
        prove(drops_of::<T>(m) == 0, "a leaked box does not drop");
        reach("converted");
    }
    pub fn take<T>(v: &mut T) {
        forbid_panic(true);
        let v0 = snap(v);
        let w = LeakBox::take(lb(v));
        prove(same(&w, &v0), "the value is moved out");
        prove(drops(&v0) == 0, "a taken value is not dropped");
        drop(w);
        prove(drops(&v0) == 1, "a taken value is owned by its taker");
        reach("taken");
    }
    pub fn pin<T: 'static>(v: &'static mut T) {
        forbid_panic(true);
        let (p, v0) = (v as *mut T, snap(v));
        let b = LeakBox::into_pin(lb(v));
        prove(drops(&v0) == 0, "pinning does not drop");
        prove(addr(&*b) == addr(p), "pinning does not move");
        drop(b);
        prove(drops(&v0) == 1, "dropping the pinned box drops the value exactly once");
        reach("dropped");
    }
    pub fn from_mut<T: Copy>(v: &mut T) {
        forbid_panic(true);
        let (p, v0) = (v as *mut T, snap(v));
        let b = LeakBox::from_mut(v);
        prove(addr(&*b) == addr(p), "the box is at the reference");
        prove(same(&*b, &v0), "the value is unchanged");
        reach("made");
    }
    pub fn write<T>(v: &mut MaybeUninit<T>, w: T) {
        forbid_panic(true);
        let (p, w0) = (v as *mut MaybeUninit<T>, snap(&w));
        let m = mark();
        let b = LeakBox::write(LeakBox::from(v), w);
        prove(drops_of::<T>(m) == 0, "writing drops nothing");
        prove(addr(&*b) == addr(p), "the value is written to the memory of the box");
        prove(same(&*b, &w0), "the value is the one given");
        prove(writes_within(m, p, size_of::<T>() as i128), "nothing else is written");
        drop(b);
        prove(drops(&w0) == 1, "the written value is dropped exactly once");
        reach("dropped");
    }
    pub fn assume_init<T>(v: &mut MaybeUninit<T>, w: T) {
        forbid_panic(true);
        let (p, w0) = (v as *mut MaybeUninit<T>, snap(&w));
        v.write(w);
        let b = unsafe { LeakBox::assume_init(LeakBox::from(v)) };
        prove(drops(&w0) == 0, "asserting initialisation does not drop");
        prove(addr(&*b) == addr(p), "asserting initialisation does not move");
        drop(b);
        prove(drops(&w0) == 1, "the value is dropped exactly once");
        reach("dropped");
    }
    /// a box of uninitialised memory never drops
    pub fn uninit_dropped<T>(v: &mut MaybeUninit<T>) {
        forbid_panic(true);
        let m = mark();
        drop(LeakBox::from(v));
        prove(drops_of::<T>(m) == 0, "uninitialised memory is not dropped");
        reach("dropped");
    }
    pub fn uninit_slice<T>(v: &mut [MaybeUninit<T>]) {
        forbid_panic(true);
        let (p, n) = (v.as_ptr(), v.len());
        let m = mark();
        let b = LeakBox::from(v);
        prove(and(addr(b.as_ptr()) == addr(p), b.len() == n), "the box covers the slice");
        drop(b);
        prove(drops_of::<T>(m) == 0, "uninitialised memory is not dropped");
        reach("dropped");
    }
    pub fn borrows<T>(v: &mut T) {
        forbid_panic(true);
        let (p, v0) = (v as *mut T, snap(v));
        let mut b = lb(v);
        prove(addr(&*b) == addr(p), "borrowing leads to the value");
        prove(addr(&mut *b as *const T) == addr(p), "borrowing leads to the value");
        prove(addr(AsRef::<T>::as_ref(&b)) == addr(p), "borrowing leads to the value");
        prove(addr(AsMut::<T>::as_mut(&mut b) as *const T) == addr(p), "borrowing leads to the value");
        prove(drops(&v0) == 0, "borrowing does not drop");
        prove(same(&*b, &v0), "borrowing does not change");
        core::mem::forget(b);
        reach("borrowed");
    }
    pub fn replaced<T>(v: &mut T, w: T) {
        let (v0, w0) = (snap(v), snap(&w));
        let mut b = lb(v);
        *b = w;
        prove(drops(&v0) == 1, "assignment drops the old value");
        drop(b);
        prove(and(drops(&v0) == 1, drops(&w0) == 1), "the box drops its current value");
        reach("dropped");
    }
}
