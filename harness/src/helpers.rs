//! Allocation helpers: C28.
use crate::env::*;
use crate::g::*;
use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
use core::alloc::Layout;
use core::mem::{align_of, forget, size_of};
use core::ptr::NonNull;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::{FixedVec, Uninit};

fn sz<T>() -> i128 { size_of::<T>() as i128 }
fn al<T>() -> i128 { align_of::<T>() as i128 }

/// Any allocator that fails or yields fresh memory of at least the requested layout.
struct Roomy { got: core::cell::Cell<*mut u8>, len: core::cell::Cell<usize>, size: core::cell::Cell<usize>, align: core::cell::Cell<usize> }
fn roomy() -> Roomy { Roomy { got: core::cell::Cell::new(core::ptr::null_mut()), len: core::cell::Cell::new(0), size: core::cell::Cell::new(0), align: core::cell::Cell::new(1) } }
unsafe impl<'a> LocalAlloc<'a> for Roomy {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        note("request");
        let (s, a) = (layout.size().get(), layout.align());
        self.size.set(s);
        self.align.set(a);
        if any::<bool>() { note("refused"); return None }
        let n: usize = any();
        assume(and(n >= s, n as i128 + a as i128 <= isize::MAX as i128));
        let p = lend(n as i128, a as i128);
        self.got.set(p);
        self.len.set(n);
        let layout = unsafe { Layout::from_size_align_unchecked(n, a) };
        Some(Allocation { ptr: unsafe { NonNull::new_unchecked(p) }, layout: nz(layout), lifetime: AllocTime::default() })
    }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) { note("release"); }
}
/// what the allocator was asked for suffices
fn asked(a: &Roomy, m: i128, size: i128, align: i128) {
    prove(requests(m) == 1, "memory is requested once");
    prove(a.size.get() as i128 >= size, "enough memory is requested");
    prove(is_multiple(a.align.get() as i128, align), "suitably aligned memory is requested");
    prove(releases(m) == 0, "the memory is not released");
}
fn refused(m: i128) {
    prove(notes(m, "refused") == 1, "nothing is returned only if the allocator failed");
    prove(releases(m) == 0, "nothing is released");
    reach("refused");
}
fn accepted(m: i128) { prove(notes(m, "refused") == 0, "nothing is returned when the allocator failed"); reach("accepted"); }

pub mod c28 {
    use super::*;
    pub fn raw(l: Layout) {
        forbid_panic(true);
        let l = nz(l);
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        match a.alloc_layout(l) {
            None => { asked(a, m, l.size().get() as i128, l.align() as i128); refused(m) }
            Some(r) => {
                accepted(m);
                asked(a, m, l.size().get() as i128, l.align() as i128);
                prove(r.uninit.as_ptr() as *mut u8 == a.got.get(), "the memory is the one handed out");
                prove(r.uninit.size() >= l.size().get(), "the memory has the requested size");
                prove(r.uninit.size() <= a.len.get(), "the memory is the one handed out");
            }
        }
    }
    pub fn typed<V>() {
        forbid_panic(true);
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        match a.alloc_t::<V>() {
            None => { prove(sz::<V>() > 0, "zero-sized content needs no memory"); asked(a, m, sz::<V>(), al::<V>()); refused(m) }
            Some(r) => {
                prove(is_multiple(addr(r.uninit.as_ptr()), al::<V>()), "the memory is aligned");
                prove(!r.uninit.as_ptr().is_null(), "the pointer is not null");
                prove(r.uninit.size() as i128 >= sz::<V>(), "the memory suffices");
                if sz::<V>() == 0 {
                    prove(requests(m) == 0, "zero-sized content needs no memory");
                    prove(r.uninit.size() == 0, "no memory is invented");
                    reach("empty");
                } else {
                    accepted(m);
                    asked(a, m, sz::<V>(), al::<V>());
                    prove(r.uninit.as_ptr() as *mut u8 == a.got.get(), "the memory is the one handed out");
                    prove(r.uninit.size() <= a.len.get(), "the memory is the one handed out");
                }
            }
        }
    }
    pub fn boxed<V>(v: V) {
        let v0 = snap(&v);
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        match a.boxed(v) {
            None => {
                prove(sz::<V>() > 0, "zero-sized content needs no memory");
                asked(a, m, sz::<V>(), al::<V>());
                refused(m);
                prove(drops(&v0) == 1, "a value that was not stored is dropped once");
            }
            Some(b) => {
                prove(same(&*b, &v0), "the value is stored");
                prove(drops(&v0) == 0, "a stored value is not dropped");
                prove(is_multiple(addr(&*b), al::<V>()), "the value is aligned");
                if sz::<V>() == 0 {
                    prove(requests(m) == 0, "zero-sized content needs no memory");
                    reach("empty");
                } else {
                    accepted(m);
                    asked(a, m, sz::<V>(), al::<V>());
                    prove(addr(&*b) == addr(a.got.get()), "the value is in the memory handed out");
                    prove(writes_within(m, a.got.get(), sz::<V>()), "only the memory of the value is written");
                }
                forbid_panic(false);
                drop(b);
                prove(drops_of::<V>(m) == 1, "the box owns the value");
                prove(or(sz::<V>() == 0, drops(&v0) == 1), "the box owns the value");
            }
        }
    }
    pub fn vector<V>(n: usize) {
        forbid_panic(true);
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        let bytes = prod(n as i128, sz::<V>());
        match a.fixed_vec::<V>(n) {
            None => {
                prove(bytes > 0, "zero-sized content needs no memory");
                prove(or(notes(m, "refused") == 1, bytes + al::<V>() > isize::MAX as i128 + 1), "nothing is returned only if the allocator failed or the size overflows");
                prove(releases(m) == 0, "nothing is released");
                if requests(m) > 0 { asked(a, m, bytes, al::<V>()); refused(m) } else { reach("overflow") }
            }
            Some(mut v) => {
                prove(v.len() == 0, "the vector is empty");
                prove(v.capacity() >= n, "the vector has the requested capacity");
                prove(is_multiple(addr(v.as_ptr()), al::<V>()), "the vector is aligned");
                prove(bytes <= isize::MAX as i128, "a size that overflows is refused");
                if bytes == 0 {
                    prove(requests(m) == 0, "zero-sized content needs no memory");
                    prove(prod(v.capacity() as i128, sz::<V>()) == 0, "no memory is invented");
                    reach("empty");
                } else {
                    accepted(m);
                    asked(a, m, bytes, al::<V>());
                    prove(v.as_ptr() as *const u8 == a.got.get() as *const u8, "the vector is in the memory handed out");
                    prove(prod(v.capacity() as i128, sz::<V>()) <= a.len.get() as i128, "the vector stays in the memory handed out");
                }
                forget(v);
            }
        }
    }
    pub fn counted<V>(v: V) {
        let v0 = snap(&v);
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        let l = without_alloc::rc::Rc::<V>::layout();
        match a.rc(v) {
            None => {
                asked(a, m, l.size() as i128, l.align() as i128);
                refused(m);
                prove(drops(&v0) == 1, "a value that was not stored is dropped once");
            }
            Some(r) => {
                accepted(m);
                asked(a, m, l.size() as i128, l.align() as i128);
                prove(same(&*r, &v0), "the value is stored");
                prove(drops(&v0) == 0, "a stored value is not dropped");
                prove(is_multiple(addr(&*r), al::<V>()), "the value is aligned");
                prove(or(sz::<V>() == 0, same_object(&*r, a.got.get())), "the value is in the memory handed out");
                prove(addr(&*r) >= addr(a.got.get()), "the value is in the memory handed out");
                prove(addr(&*r) + sz::<V>() <= addr(a.got.get()) + a.len.get() as i128, "the value is in the memory handed out");
                forbid_panic(false);
                drop(r);
                prove(drops(&v0) == 1, "the handle owns the value");
            }
        }
    }
    pub fn slice<T: Copy>(s: &[T]) {
        forbid_panic(true);
        let n = s.len();
        let bytes = prod(n as i128, sz::<T>());
        let old = seq_of(s);
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        match a.copy_slice(s) {
            None => {
                prove(bytes > 0, "zero-sized content needs no memory");
                asked(a, m, bytes, al::<T>());
                refused(m);
            }
            Some(r) => {
                prove(r.len() == n, "the copy has all elements");
                prove(is_multiple(addr(r.as_ptr()), al::<T>()), "the copy is aligned");
                if sz::<T>() == 0 { reach("no bytes"); }
                prove(holds(r.as_ptr(), old, 0, n as i128), "the copy contains the elements of the source in order");
                if bytes == 0 {
                    prove(requests(m) == 0, "zero-sized content needs no memory");
                    reach("empty");
                } else {
                    accepted(m);
                    asked(a, m, bytes, al::<T>());
                    prove(r.as_ptr() as *const u8 == a.got.get() as *const u8, "the copy is in the memory handed out");
                    prove(writes_within(m, a.got.get(), bytes), "only the memory of the copy is written");
                    prove(holds(s.as_ptr(), old, 0, n as i128), "the source is unchanged");
                    prove(no_writes(m, s.as_ptr()), "the source is unchanged");
                }
            }
        }
    }
    pub fn text(s: &str) {
        forbid_panic(true);
        let n = s.len();
        let old = seq_of(s.as_bytes());
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        match a.copy_str(s) {
            None => {
                prove(n > 0, "zero-sized content needs no memory");
                asked(a, m, n as i128, 1);
                refused(m);
            }
            Some(r) => {
                prove(r.len() == n, "the copy has all bytes");
                prove(holds(r.as_ptr(), old, 0, n as i128), "the copy contains the bytes of the source in order");
                if n == 0 {
                    prove(requests(m) == 0, "zero-sized content needs no memory");
                    reach("empty");
                } else {
                    accepted(m);
                    asked(a, m, n as i128, 1);
                    prove(r.as_ptr() as *const u8 == a.got.get() as *const u8, "the copy is in the memory handed out");
                    prove(writes_within(m, a.got.get(), n as i128), "only the memory of the copy is written");
                    prove(no_writes(m, s.as_ptr()), "the source is unchanged");
                }
            }
        }
    }
    /// a value of whatever size is moved, byte by byte, to memory for it
    fn moved<T: ?Sized>(v: &core::mem::ManuallyDrop<T>, size: i128, align: i128, check: impl Fn(&T) -> bool) {
        let a = roomy();
        let a = unsafe { &*(&a as *const Roomy) };
        let m = mark();
        match unsafe { a.copy_dst::<T>(v) } {
            None => {
                prove(size > 0, "zero-sized content needs no memory");
                asked(a, m, size, align);
                refused(m);
            }
            Some(r) => {
                prove(check(r), "the copy is the value");
                prove(is_multiple(addr(&*r as *const T), align), "the copy is aligned");
                if size == 0 {
                    prove(requests(m) == 0, "zero-sized content needs no memory");
                    reach("empty");
                } else {
                    accepted(m);
                    asked(a, m, size, align);
                    prove(addr(&*r as *const T) == addr(a.got.get()), "the copy is in the memory handed out");
                    prove(writes_within(m, a.got.get(), size), "only the memory of the copy is written");
                    prove(no_writes(m, v as *const _ as *const u8), "the source is unchanged");
                }
            }
        }
    }
    pub fn dst_sized<T>(v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let v = core::mem::ManuallyDrop::new(v);
        moved::<T>(&v, sz::<T>(), al::<T>(), |r| same(r, &v0));
        prove(drops(&v0) == 0, "copying destroys nothing");
    }
    pub fn dst_slice<T>(s: &[T]) {
        forbid_panic(true);
        let n = s.len();
        let old = seq_of(s);
        let m = mark();
        let v: &core::mem::ManuallyDrop<[T]> = unsafe { &*(s as *const [T] as *const core::mem::ManuallyDrop<[T]>) };
        moved::<[T]>(v, prod(n as i128, sz::<T>()), al::<T>(), |r| { if sz::<T>() == 0 { reach("no bytes"); } r.len() == n && holds(r.as_ptr(), old, 0, n as i128) });
        prove(drops_of::<T>(m) == 0, "copying destroys nothing");
    }
    pub fn dst<T: ?Sized>(v: &T) {
        forbid_panic(true);
        let (size, align) = (core::mem::size_of_val(v) as i128, core::mem::align_of_val(v) as i128);
        let w: &core::mem::ManuallyDrop<T> = unsafe { &*(v as *const T as *const core::mem::ManuallyDrop<T>) };
        moved::<T>(w, size, align, |r| and(core::mem::size_of_val(r) as i128 == size, core::mem::align_of_val(r) as i128 == align));
    }
}
