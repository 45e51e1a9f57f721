//! Pointer unsizing: C31.
use crate::g::*;
use core::any::Any;
use core::mem::{align_of, forget, size_of};
use core::pin::Pin;
use core::ptr::{slice_from_raw_parts, NonNull};
use std::rc::Rc;
use std::sync::Arc;
use unsize_here::{CoerceUnsized, CoerciblePtr, Coercion};

pub trait Tr { fn me(&self) -> usize; }

pub mod c31 {
    use super::*;

    // ---- plain pointers: the address is that of the original, the metadata that of the coercion

    /// a reference to a slice in place of the value is valid
    fn fits<T, V>(p: *const T, n: usize, refs: bool) {
        if refs {
            assume(prod(n as i128, size_of::<V>() as i128) <= size_of::<T>() as i128);
            assume(is_multiple(addr(p), align_of::<V>() as i128));
        }
    }
    /// the coercion may return any address
    macro_rules! to_slice { ($name:ident, $exact:ident, $ptr:ty, $r:ident => $raw:expr, $x:ident => $addr:expr, $refs:expr) => {
        pub fn $name<T, V>(p: $ptr) {
            let (n, q): (usize, *const V) = (any(), any());
            let $x = &p;
            let at: *const T = $addr;
            fits::<T, V>(at, n, $refs);
            let mut calls = 0;
            let $r = p.unsize(unsafe { Coercion::new(|x: *const T| { calls += 1; prove(x == at, "the coercion is given the pointer"); slice_from_raw_parts(q, n) }) });
            let raw: *const [V] = $raw;
            prove(calls == 1, "the coercion is called once");
            prove(raw as *const T == at, "the address is kept whatever the coercion returned");
            prove(raw.len() == n, "the metadata is that of the coercion");
            reach("unsized");
        }
        pub fn $exact<T, V>(p: $ptr) {
            forbid_panic(true);
            let n: usize = any();
            let $x = &p;
            let at: *const T = $addr;
            fits::<T, V>(at, n, $refs);
            let $r = p.unsize(unsafe { Coercion::new(|x: *const T| slice_from_raw_parts(x as *const V, n)) });
            let raw: *const [V] = $raw;
            prove(and(raw as *const T == at, same_object(raw, at)), "the pointer is kept");
            prove(raw.len() == n, "the metadata is that of the coercion");
            reach("unsized");
        }
    } }
    to_slice!(const_slice, const_slice_exact, *const T, r => r, x => *x, false);
    to_slice!(mut_slice, mut_slice_exact, *mut T, r => r, x => *x, false);
    to_slice!(ref_slice, ref_slice_exact, &T, r => r, x => *x, true);
    to_slice!(ref_mut_slice, ref_mut_slice_exact, &mut T, r => r, x => &**x, true);
    to_slice!(pin_slice, pin_slice_exact, Pin<&mut T>, r => &*r, x => &**x, true);
    to_slice!(nonnull_slice, nonnull_slice_exact, NonNull<T>, r => r.as_ptr(), x => x.as_ptr(), false);

    macro_rules! to_dyn { ($name:ident, $ptr:ty, $r:ident => $raw:expr, $x:ident => $addr:expr) => {
        pub fn $name<T: Tr + 'static>(p: $ptr) {
            forbid_panic(true);
            let $x = &p;
            let at: *const T = $addr;
            let $r = p.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
            let raw: *const dyn Tr = $raw;
            prove(core::ptr::eq(raw, at as *const dyn Tr), "the pointer has the same address and the metadata of the coercion");
            prove(same_object(raw, at), "the pointer is to the same object");
            reach("unsized");
        }
    } }
    to_dyn!(const_dyn, *const T, r => r, x => *x);
    to_dyn!(mut_dyn, *mut T, r => r, x => *x);
    to_dyn!(ref_dyn, &'static T, r => r, x => *x);
    to_dyn!(ref_mut_dyn, &'static mut T, r => r, x => &**x);
    to_dyn!(pin_dyn, Pin<&'static mut T>, r => &*r, x => &**x);
    to_dyn!(nonnull_dyn, NonNull<T>, r => r.as_ptr(), x => x.as_ptr());

    // ---- owning pointers

    pub fn boxed<T: Tr + 'static>(v: T) {
        let v0 = snap(&v);
        let b = Box::new(v);
        forbid_panic(true);
        let p = &*b as *const T;
        let m = mark();
        let u: Box<dyn Tr> = b.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
        prove(core::ptr::eq(&*u, p as *const dyn Tr), "the box is at the same address");
        prove(drops_of::<T>(m) == 0, "nothing is dropped");
        prove(and(deallocs(m) == 0, allocs(m) == 0), "the memory is kept");
        prove(same(p, &v0), "the value is unchanged");
        forbid_panic(false);
        drop(u);
        prove(drops_of::<T>(m) == 1, "ownership is passed on");
        prove(deallocs(m) == (size_of::<T>() > 0) as i128, "ownership is passed on");
        reach("unsized");
    }
    // (no value is at the last address: 16 bytes of counts before it are aligned)
    macro_rules! counted { ($name:ident, $weak:ident, $gone:ident, $dangling:ident, $Rc:ident, $Weak:ty, $WeakDyn:ty, $WeakNew:expr) => {
        pub fn $name<T: Tr + 'static>(v: T) {
            let v0 = snap(&v);
            let a = $Rc::new(v);
            let o = a.clone();
            let w = $Rc::downgrade(&a);
            forbid_panic(true);
            let p = &*a as *const T;
            assume(addr(p) < usize::MAX as i128);
            let m = mark();
            let u: $Rc<dyn Tr> = a.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
            prove(core::ptr::eq(&*u, p as *const dyn Tr), "the pointer is to the same address");
            prove(and($Rc::strong_count(&o) == 2, $Rc::weak_count(&o) == 1), "no count is changed");
            prove(drops(&v0) == 0, "nothing is dropped");
            prove(and(deallocs(m) == 0, allocs(m) == 0), "the memory is kept");
            prove(same(p, &v0), "the value is unchanged");
            forbid_panic(false);
            drop(o);
            prove(drops(&v0) == 0, "ownership is passed on");
            drop(u);
            prove(drops(&v0) == 1, "ownership is passed on");
            drop(w);
            prove(deallocs(m) == 1, "ownership is passed on");
            reach("unsized");
        }
        pub fn $weak<T: Tr + 'static>(v: T) {
            let v0 = snap(&v);
            let a = $Rc::new(v);
            let w: $Weak = $Rc::downgrade(&a);
            forbid_panic(true);
            let p = &*a as *const T;
            assume(addr(p) < usize::MAX as i128);
            let m = mark();
            let u: $WeakDyn = w.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
            prove(core::ptr::eq(u.as_ptr(), p as *const dyn Tr), "the pointer is to the same address");
            prove(and($Rc::strong_count(&a) == 1, $Rc::weak_count(&a) == 1), "no count is changed");
            prove(and(deallocs(m) == 0, drops(&v0) == 0), "the memory is kept");
            forbid_panic(false);
            drop(a);
            prove(and(drops(&v0) == 1, deallocs(m) == 0), "a weak handle keeps the memory");
            drop(u);
            prove(deallocs(m) == 1, "ownership is passed on");
            reach("unsized");
        }
        /// a weak handle to a value that is gone
        pub fn $gone<T: Tr + 'static>(v: T) {
            let v0 = snap(&v);
            let a = $Rc::new(v);
            let w: $Weak = $Rc::downgrade(&a);
            drop(a);
            forbid_panic(true);
            let p = w.as_ptr();
            assume(addr(p) < usize::MAX as i128);
            let m = mark();
            let u: $WeakDyn = w.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
            prove(core::ptr::eq(u.as_ptr(), p as *const dyn Tr), "the pointer is to the same address");
            prove(and(deallocs(m) == 0, drops(&v0) == 1), "the memory is kept");
            prove(u.upgrade().is_none(), "the value stays gone");
            drop(u);
            prove(deallocs(m) == 1, "ownership is passed on");
            reach("unsized");
        }
        /// a weak handle to nothing
        pub fn $dangling<T: Tr + 'static>() {
            forbid_panic(true);
            let w: $Weak = $WeakNew;
            let m = mark();
            let p = w.as_ptr();
            let u: $WeakDyn = w.unsize(unsafe { Coercion::new(|x: *const T| x as *const dyn Tr) });
            prove(addr(u.as_ptr()) == addr(p), "the pointer is to the same address");
            prove(u.upgrade().is_none(), "there still is no value");
            drop(u);
            prove(and(deallocs(m) == 0, allocs(m) == 0), "there still is no memory");
            reach("unsized");
        }
    } }
    counted!(rc, rc_weak, rc_weak_gone, rc_weak_dangling, Rc, std::rc::Weak<T>, std::rc::Weak<dyn Tr>, std::rc::Weak::new());
    counted!(arc, arc_weak, arc_weak_gone, arc_weak_dangling, Arc, std::sync::Weak<T>, std::sync::Weak<dyn Tr>, std::sync::Weak::new());

    // ---- refusal

    struct Probe<T>(*mut T);
    unsafe impl<T, U: ?Sized> CoerciblePtr<U> for Probe<T> {
        type Pointee = T;
        type Output = *mut U;
        fn as_sized_ptr(&mut self) -> *mut T { note("asked"); self.0 }
        unsafe fn replace_ptr(self, new: *mut U) -> *mut U { note("replaced"); new }
    }
    /// no coercion to a pointer of one word
    pub fn thin<T, V>(p: *mut T, q: *const V) {
        let m = mark();
        let r = catch(|| { Probe(p).unsize(unsafe { Coercion::new(|x: *const T| q) }); });
        prove(r.is_err(), "a coercion to a thin pointer is refused");
        prove(notes(m, "replaced") == 0, "a refused coercion replaces no pointer");
        reach("refused");
    }
    pub fn thin_ref<T, V>(p: &mut T, q: *const V) {
        let r = catch(|| { p.unsize(unsafe { Coercion::new(|x: *const T| q) }); });
        prove(r.is_err(), "a coercion to a thin pointer is refused");
        reach("refused");
    }
    /// every implementation for a pointer type gets the pointer it gave out
    pub fn probe<T, V>(p: *mut T) {
        let n: usize = any();
        forbid_panic(true);
        let m = mark();
        let r: *mut [V] = Probe(p).unsize(unsafe { Coercion::new(|x: *const T| slice_from_raw_parts(x as *const V, n)) });
        prove(notes(m, "replaced") == 1, "the pointer is replaced once");
        prove(and(r as *mut T == p, r.len() == n), "the pointer replaced is that of the value");
        reach("unsized");
    }

    // ---- provided coercions

    pub fn to_any<T: 'static>(p: *const T) {
        forbid_panic(true);
        let r: *const dyn Any = p.unsize(Coercion::to_any());
        prove(core::ptr::eq(r, p as *const dyn Any), "the coercion keeps the pointer");
        reach("unsized");
    }
    pub fn to_debug<T: core::fmt::Debug + 'static>(p: *const T) {
        forbid_panic(true);
        let r: *const dyn core::fmt::Debug = p.unsize(Coercion::to_debug());
        prove(core::ptr::eq(r, p as *const dyn core::fmt::Debug), "the coercion keeps the pointer");
        reach("unsized");
    }
    pub fn to_display<T: core::fmt::Display + 'static>(p: *const T) {
        forbid_panic(true);
        let r: *const dyn core::fmt::Display = p.unsize(Coercion::to_display());
        prove(core::ptr::eq(r, p as *const dyn core::fmt::Display), "the coercion keeps the pointer");
        reach("unsized");
    }
    pub fn to_slice<T>(p: *const [T; 7]) {
        forbid_panic(true);
        let r: *const [T] = p.unsize(Coercion::<[T; 7], [T]>::to_slice());
        prove(addr(r) == addr(p), "the coercion keeps the pointer");
        prove(r.len() == 7, "the slice is the whole array");
        reach("unsized");
    }
    pub fn to_slice_any<T, const N: usize>(p: *const [T; N]) {
        forbid_panic(true);
        let r: *const [T] = p.unsize(Coercion::<[T; N], [T]>::to_slice());
        prove(addr(r) == addr(p), "the coercion keeps the pointer");
        prove(r.len() == N, "the slice is the whole array");
        reach("unsized");
    }
    pub fn to_fn<F: Fn(u8) -> u16 + 'static>(p: *const F) {
        forbid_panic(true);
        let r: *const dyn Fn(u8) -> u16 = p.unsize(Coercion::<F, dyn Fn(u8) -> u16>::to_fn());
        prove(core::ptr::eq(r, p as *const dyn Fn(u8) -> u16), "the coercion keeps the pointer");
        reach("unsized");
    }
    pub fn to_iterator<I: Iterator<Item = u8> + 'static>(p: *const I) {
        forbid_panic(true);
        let r: *const dyn Iterator<Item = u8> = p.unsize(Coercion::to_iterator());
        prove(core::ptr::eq(r, p as *const dyn Iterator<Item = u8>), "the coercion keeps the pointer");
        reach("unsized");
    }
    pub fn macro_to_dyn<T: Tr + 'static>(p: *const T) {
        forbid_panic(true);
        let r: *const dyn Tr = p.unsize(unsize_here::Coercion!(to dyn Tr));
        prove(core::ptr::eq(r, p as *const dyn Tr), "the coercion keeps the pointer");
        reach("unsized");
    }
}
