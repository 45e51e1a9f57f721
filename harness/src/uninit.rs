//! Handles on uninitialised memory: C21, C22.
use crate::g::*;
use core::alloc::Layout;
use core::mem::{align_of, size_of, size_of_val, MaybeUninit};
use core::ptr::{slice_from_raw_parts_mut, NonNull};
use without_alloc::uninit::{Uninit, UninitView};

type Bytes = [MaybeUninit<u8>];
fn sz<T>() -> i128 { size_of::<T>() as i128 }
fn al<T>() -> i128 { align_of::<T>() as i128 }

macro_rules! handles { ($H:ident, $any:ident, $any_typed:ident, $any_slice:ident) => {
    /// a handle on any memory
    fn $any<'a>(mem: &'a mut Bytes) -> $H<'a, ()> {
        let n = mem.len();
        unsafe { $H::from_memory(NonNull::new_unchecked(mem.as_mut_ptr() as *mut u8), n) }
    }
    /// a handle on memory that suffices for the type
    fn $any_typed<'a, T>(mem: &'a mut Bytes) -> $H<'a, T> {
        let n = mem.len();
        assume(n as i128 >= sz::<T>());
        assume(is_multiple(addr(mem.as_ptr()), al::<T>()));
        unsafe { $H::new(NonNull::new_unchecked(mem.as_mut_ptr() as *mut T), n) }
    }
    /// a handle on a slice whose elements lie in the memory
    fn $any_slice<'a, T>(mem: &'a mut Bytes, k: usize) -> $H<'a, [T]> {
        let n = mem.len();
        assume(is_multiple(addr(mem.as_ptr()), al::<T>()));
        assume(prod(k as i128, sz::<T>()) <= n as i128);
        unsafe { $H::new(NonNull::new_unchecked(slice_from_raw_parts_mut(mem.as_mut_ptr() as *mut T, k)), n) }
    }
} }
handles!(Uninit, any, any_typed, any_slice);
handles!(UninitView, any_view, any_typed_view, any_slice_view);

/// the parts p..p+n and q..q+m are adjacent and together b..b+len, inside the same memory
fn partition(mem: *const MaybeUninit<u8>, len: i128, p: *const u8, n: i128, q: *const u8, m: i128) {
    prove(and(same_object(p, mem), same_object(q, mem)), "both parts lie in the original memory");
    prove(addr(p) == addr(mem), "the head begins where the memory does");
    prove(addr(q) == addr(p) + n, "the tail begins where the head ends");
    prove(n + m == len, "the parts together are the original memory");
    prove(and(n >= 0, m >= 0), "no part reaches beyond the memory");
    reach("split");
}
fn kept(mem: *const MaybeUninit<u8>, len: i128, p: *const u8, n: i128) {
    prove(and(addr(p) == addr(mem), n == len), "a refused split leaves the handle as it was");
    reach("refused");
}
/// the slice view of a handle does not reach beyond its memory
fn view_inside<T>(v: *const [T], cap: usize, n: i128) {
    prove(prod(v.len() as i128, sz::<T>()) <= n, "the slice view does not reach beyond the part");
    prove(prod(cap as i128, sz::<T>()) <= n, "the capacity does not reach beyond the part");
    prove(or(sz::<T>() == 0, n - prod(cap as i128, sz::<T>()) < sz::<T>()), "the capacity counts all elements that fit");
    prove(is_multiple(addr(v as *const T), al::<T>()), "the slice is aligned");
}

macro_rules! splits { ($any:ident, $any_typed:ident, $any_slice:ident) => {
    pub fn layout(mem: &mut Bytes, l: Layout) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any(mem);
        let need = pad(addr(b), l.align() as i128) + l.size() as i128;
        match h.split_layout(l) {
            Some(t) => {
                partition(b, len, h.as_ptr() as *const u8, h.size() as i128, t.as_ptr() as *const u8, t.size() as i128);
                prove(is_multiple(addr(t.as_ptr()), l.align() as i128), "the tail is aligned as requested");
                prove(h.size() as i128 == pad(addr(b), l.align() as i128), "only the alignment padding stays with the head");
                prove(t.size() >= l.size(), "the tail has the requested size");
            }
            None => { prove(need > len, "a split is refused only if the request does not fit"); kept(b, len, h.as_ptr() as *const u8, h.size() as i128) }
        }
    }
    pub fn cast<U>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any(mem);
        match h.split_cast::<U>() {
            Some(t) => {
                partition(b, len, h.as_ptr() as *const u8, h.size() as i128, t.as_ptr() as *const u8, t.size() as i128);
                prove(is_multiple(addr(t.as_ptr()), al::<U>()), "the tail is aligned as requested");
                prove(t.size() as i128 >= sz::<U>(), "the tail has the requested size");
            }
            None => { prove(pad(addr(b), al::<U>()) + sz::<U>() > len, "a split is refused only if the request does not fit"); kept(b, len, h.as_ptr() as *const u8, h.size() as i128) }
        }
    }
    pub fn slice<U>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any(mem);
        match h.split_slice::<U>() {
            Some(t) => {
                partition(b, len, h.as_ptr() as *const u8, h.size() as i128, t.as_begin_ptr() as *const u8, t.size() as i128);
                view_inside::<U>(t.as_ptr(), t.capacity(), t.size() as i128);
            }
            None => { prove(pad(addr(b), al::<U>()) > len, "a split is refused only if the request does not fit"); kept(b, len, h.as_ptr() as *const u8, h.size() as i128) }
        }
    }
    pub fn at_byte<T>(mem: &mut Bytes, at: usize) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any_typed::<T>(mem);
        match h.split_at_byte(at) {
            Some(t) => {
                partition(b, len, h.as_ptr() as *const u8, h.size() as i128, t.as_ptr() as *const u8, t.size() as i128);
                prove(h.size() == at, "the head has the requested length");
                prove(h.size() as i128 >= sz::<T>(), "the head still has space for its type");
            }
            None => { prove(or(at as i128 > len, (at as i128) < sz::<T>()), "a split is refused only if the request does not fit"); kept(b, len, h.as_ptr() as *const u8, h.size() as i128) }
        }
    }
    pub fn to_fit<T>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any_typed::<T>(mem);
        let t = h.split_to_fit();
        partition(b, len, h.as_ptr() as *const u8, h.size() as i128, t.as_ptr() as *const u8, t.size() as i128);
        prove(h.size() as i128 == sz::<T>(), "the head has just the size of its type");
    }
    pub fn at<T>(mem: &mut Bytes, k: usize, at: usize) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any_slice::<T>(mem, k);
        match h.split_at(at) {
            Some(t) => {
                partition(b, len, h.as_begin_ptr() as *const u8, h.size() as i128, t.as_begin_ptr() as *const u8, t.size() as i128);
                prove(h.size() as i128 == prod(at as i128, sz::<T>()), "the head has the requested number of elements");
                view_inside::<T>(h.as_ptr(), h.capacity(), h.size() as i128);
                view_inside::<T>(t.as_ptr(), t.capacity(), t.size() as i128);
            }
            None => {
                prove(prod(at as i128, sz::<T>()) > len, "a split is refused only if the request does not fit");
                kept(b, len, h.as_begin_ptr() as *const u8, h.size() as i128);
                prove(h.as_ptr().len() == k, "a refused split leaves the handle as it was");
            }
        }
    }
    pub fn shrink<T>(mem: &mut Bytes, k: usize) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any_slice::<T>(mem, k);
        let c = h.capacity();
        let t = h.shrink_to_fit();
        partition(b, len, h.as_begin_ptr() as *const u8, h.size() as i128, t.as_ptr() as *const u8, t.size() as i128);
        prove(h.size() as i128 == prod(c as i128, sz::<T>()), "the head has just the size of its elements");
        view_inside::<T>(h.as_ptr(), h.capacity(), h.size() as i128);
    }
    pub fn first<T>(mem: &mut Bytes, k: usize) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any_slice::<T>(mem, k);
        match h.split_first() {
            Some(e) => {
                partition(b, len, e.as_ptr() as *const u8, e.size() as i128, h.as_begin_ptr() as *const u8, h.size() as i128);
                prove(e.size() as i128 == sz::<T>(), "the first part is one element");
                view_inside::<T>(h.as_ptr(), h.capacity(), h.size() as i128);
            }
            None => {
                prove(sz::<T>() > len, "a split is refused only if the request does not fit");
                kept(b, len, h.as_begin_ptr() as *const u8, h.size() as i128);
                prove(h.as_ptr().len() == k, "a refused split leaves the handle as it was");
            }
        }
    }
    pub fn last<T>(mem: &mut Bytes, k: usize) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = $any_slice::<T>(mem, k);
        let c = h.capacity();
        match h.split_last() {
            Some(e) => {
                partition(b, len, h.as_begin_ptr() as *const u8, h.size() as i128, e.as_ptr() as *const u8, e.size() as i128);
                prove(h.size() as i128 == prod(c as i128 - 1, sz::<T>()), "all but the last element stay with the head");
                prove(e.size() as i128 >= sz::<T>(), "the part has space for an element");
                prove(is_multiple(addr(e.as_ptr()), al::<T>()), "the part is aligned");
                view_inside::<T>(h.as_ptr(), h.capacity(), h.size() as i128);
            }
            None => {
                prove(sz::<T>() > len, "a split is refused only if the request does not fit");
                kept(b, len, h.as_begin_ptr() as *const u8, h.size() as i128);
                prove(h.as_ptr().len() == k, "a refused split leaves the handle as it was");
            }
        }
    }
} }
pub mod c21 { use super::*; splits!(any, any_typed, any_slice); }
pub mod c21v { use super::*; splits!(any_view, any_typed_view, any_slice_view); }

macro_rules! views { ($H:ident, $any:ident, $any_typed:ident, $any_slice:ident) => {
    pub fn cast<T, U>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = $any_typed::<T>(mem);
        let ok = and(is_multiple(addr(b), al::<U>()), sz::<U>() <= len);
        match h.cast::<U>() {
            Ok(h) => { prove(ok, "a cast needs alignment and length"); unchanged(b, len, h.as_ptr() as *const u8, h.size()); reach("cast") }
            Err(h) => { prove(!ok, "a possible cast is not refused"); unchanged(b, len, h.as_ptr() as *const u8, h.size()); reach("refused") }
        }
    }
    pub fn cast_slice<T, U>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = $any_typed::<T>(mem);
        let ok = is_multiple(addr(b), al::<U>());
        match h.cast_slice::<U>() {
            Ok(h) => {
                prove(ok, "a cast needs alignment");
                unchanged(b, len, h.as_begin_ptr() as *const u8, h.size());
                prove(h.capacity() == h.as_ptr().len(), "the slice view has all elements");
                view_inside::<U>(h.as_ptr(), h.capacity(), len);
                reach("cast")
            }
            Err(h) => { prove(!ok, "a possible cast is not refused"); unchanged(b, len, h.as_ptr() as *const u8, h.size()); reach("refused") }
        }
    }
    pub fn observers<T>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = $any_typed::<T>(mem);
        unchanged(b, len, h.as_ptr() as *const u8, h.size());
        unchanged(b, len, h.as_non_null().as_ptr() as *const u8, h.byte_capacity());
        let v = h.borrow();
        unchanged(b, len, v.as_ptr() as *const u8, v.size());
        reach("observed");
    }
    pub fn fits<T>(mem: &mut Bytes, l: Layout) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = $any_typed::<T>(mem);
        let ok = and(is_multiple(addr(b), l.align() as i128), l.size() as i128 <= len);
        if h.fits(l) { prove(ok, "what fits has alignment and length"); reach("fits") } else { prove(!ok, "what does not fit lacks alignment or length"); reach("does not fit") }
    }
    pub fn slice_observers<T>(mem: &mut Bytes, k: usize) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = $any_slice::<T>(mem, k);
        unchanged(b, len, h.as_begin_ptr() as *const u8, h.size());
        prove(h.as_ptr().len() == k, "observing does not change the view");
        view_inside::<T>(h.as_ptr(), h.capacity(), len);
        reach("observed");
    }
    pub fn empty<T>() {
        forbid_panic(true);
        let h = $H::<[T]>::empty();
        prove(h.size() == 0, "the empty handle has no memory");
        prove(h.as_ptr().len() == 0, "the empty handle has no elements");
        prove(or(h.capacity() == 0, sz::<T>() == 0), "the empty handle has no elements");
        prove(is_multiple(addr(h.as_begin_ptr()), al::<T>()), "the empty handle is aligned");
        let d = $H::<[T]>::default();
        prove(and(d.size() == 0, d.as_ptr().len() == 0), "the default handle is empty");
        reach("made");
    }
    pub fn zst<T>() {
        assume(sz::<T>() == 0);
        forbid_panic(true);
        let h = $H::<T>::invent_for_zst();
        prove(and(addr(h.as_ptr()) != 0, is_multiple(addr(h.as_ptr()), al::<T>())), "an invented handle is aligned");
        prove(h.size() == 0, "an invented handle has no memory");
        reach("made");
    }
    pub fn not_zst<T>() {
        assume(sz::<T>() > 0);
        let r = catch(|| { let _ = $H::<T>::invent_for_zst(); });
        prove(r.is_err(), "no handle is invented for a type that needs memory");
        reach("refused");
    }
    pub fn from_maybe_uninit<T>(v: &mut MaybeUninit<T>) {
        forbid_panic(true);
        let p = v.as_ptr();
        let m = mark();
        let h = $H::from_maybe_uninit(v);
        prove(and(same_object(h.as_ptr(), p), addr(h.as_ptr()) == addr(p)), "the handle is on the borrowed memory");
        prove(h.size() as i128 == sz::<T>(), "the handle is on just the borrowed memory");
        prove(no_writes(m, p), "making a handle does not write");
        reach("made");
    }
    pub fn from_maybe_uninit_slice<T>(v: &mut [MaybeUninit<T>]) {
        forbid_panic(true);
        let (p, n) = (v.as_ptr(), v.len());
        let h = $H::from_maybe_uninit_slice(v);
        prove(and(same_object(h.as_begin_ptr(), p), addr(h.as_begin_ptr()) == addr(p)), "the handle is on the borrowed memory");
        prove(h.size() as i128 == prod(n as i128, sz::<T>()), "the handle is on just the borrowed memory");
        prove(or(sz::<T>() == 0, and(h.capacity() == n, h.as_ptr().len() == n)), "the handle has all elements");
        reach("made");
    }
    pub fn into_maybe_uninit<T>(mem: &mut Bytes) {
        forbid_panic(true);
        let b = mem.as_ptr();
        let h = $any_typed::<T>(mem);
        let r = h.into_maybe_uninit();
        prove(addr(r) == addr(b), "the reference is to the memory of the handle");
        reach("unmade");
    }
    pub fn into_maybe_uninit_slice<T>(mem: &mut Bytes, k: usize) {
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = $any_slice::<T>(mem, k);
        let c = h.capacity();
        forbid_panic(true);
        let r = h.into_maybe_uninit_slice();
        prove(addr(r.as_ptr()) == addr(b), "the reference is to the memory of the handle");
        prove(size_of_val(r) as i128 <= len, "the slice does not reach beyond the memory");
        prove(r.len() == c, "the slice has all elements");
        reach("unmade");
    }
} }
fn unchanged(mem: *const MaybeUninit<u8>, len: i128, p: *const u8, n: usize) {
    prove(and(same_object(p, mem), addr(p) == addr(mem)), "the address is kept");
    prove(n as i128 == len, "the length is kept");
}
pub mod c22 {
    use super::*;
    views!(Uninit, any, any_typed, any_slice);
    pub fn init<T>(mem: &mut Bytes, v: T) {
        forbid_panic(true);
        let b = mem.as_ptr();
        let v0 = snap(&v);
        let h = any_typed::<T>(mem);
        let m = mark();
        let r = h.init(v);
        prove(addr(r) == addr(b), "the value is written to the memory of the handle");
        prove(same(r, &v0), "the value is the one given");
        prove(drops_of::<T>(m) == 0, "initialising drops nothing");
        prove(writes_within(m, b, sz::<T>()), "nothing else is written");
        reach("initialised");
    }
    pub fn read<T>(mem: &mut Bytes, v: T) {
        forbid_panic(true);
        let v0 = snap(&v);
        let h = any_typed::<T>(mem);
        unsafe { core::ptr::write(h.as_ptr(), v) };
        let w = unsafe { h.read() };
        prove(same(&w, &v0), "the value is the one in memory");
        prove(drops(&v0) == 0, "reading does not drop");
        core::mem::forget(w);
        reach("read");
    }
    pub fn borrow_mut<T>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let mut h = any_typed::<T>(mem);
        { let r = h.borrow_mut(); unchanged(b, len, r.as_ptr() as *const u8, r.size()); }
        unchanged(b, len, h.as_ptr() as *const u8, h.size());
        let r = h.as_memory();
        unchanged(b, len, r.as_ptr() as *const u8, r.size());
        reach("borrowed");
    }
    pub fn references<T>(mem: &mut Bytes, v: T) {
        forbid_panic(true);
        let b = mem.as_ptr();
        let v0 = snap(&v);
        let mut h = any_typed::<T>(mem);
        unsafe { core::ptr::write(h.as_ptr(), v) };
        unsafe {
            prove(addr(h.as_ref()) == addr(b), "the reference is to the memory of the handle");
            prove(addr(h.as_mut() as *const T) == addr(b), "the reference is to the memory of the handle");
            let r = h.into_mut();
            prove(addr(r as *const T) == addr(b), "the reference is to the memory of the handle");
            prove(same(r, &v0), "the value is unchanged");
        }
        reach("borrowed");
    }
    pub fn into_ref<T>(mem: &mut Bytes, v: T) {
        forbid_panic(true);
        let b = mem.as_ptr();
        let h = any_typed::<T>(mem);
        unsafe { core::ptr::write(h.as_ptr(), v) };
        prove(addr(unsafe { h.into_ref() }) == addr(b), "the reference is to the memory of the handle");
        reach("borrowed");
    }
    pub fn from_view<T>(mem: &mut Bytes) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let h = any_typed::<T>(mem);
        let v: UninitView<'_, T> = h.into();
        unchanged(b, len, v.as_ptr() as *const u8, v.size());
        let h = unsafe { Uninit::from_view(v) };
        unchanged(b, len, h.as_ptr() as *const u8, h.size());
        reach("converted");
    }
    pub fn from_impls<T>(v: &mut MaybeUninit<T>, s: &mut [MaybeUninit<T>]) {
        forbid_panic(true);
        let (p, q, n) = (v.as_ptr(), s.as_ptr(), s.len() as i128);
        let h = Uninit::from(v);
        prove(and(addr(h.as_ptr()) == addr(p), h.size() as i128 == sz::<T>()), "the handle is on just the borrowed memory");
        let h = Uninit::from(s);
        prove(and(addr(h.as_begin_ptr()) == addr(q), h.size() as i128 == prod(n, sz::<T>())), "the handle is on just the borrowed memory");
        reach("made");
    }
}
pub mod c22v {
    use super::*;
    views!(UninitView, any_view, any_typed_view, any_slice_view);
    pub fn from_impls<T>(v: &MaybeUninit<T>, s: &[MaybeUninit<T>]) {
        forbid_panic(true);
        let (p, q, n) = (v.as_ptr(), s.as_ptr(), s.len() as i128);
        let h = UninitView::from(v);
        prove(and(addr(h.as_ptr()) == addr(p), h.size() as i128 == sz::<T>()), "the handle is on just the borrowed memory");
        let h = UninitView::from(s);
        prove(and(addr(h.as_begin_ptr()) == addr(q), h.size() as i128 == prod(n, sz::<T>())), "the handle is on just the borrowed memory");
        reach("made");
    }
    pub fn references<T>(mem: &mut Bytes, v: T) {
        forbid_panic(true);
        let b = mem.as_mut_ptr();
        let h = any_typed_view::<T>(mem);
        unsafe {
            core::ptr::write(b as *mut T, v);
            prove(addr(h.as_ref()) == addr(b), "the reference is to the memory of the handle");
            prove(addr(h.into_ref()) == addr(b), "the reference is to the memory of the handle");
        }
        let c = h.clone();
        prove(and(addr(c.as_ptr()) == addr(b), c.size() == h.size()), "a copy is on the same memory");
        reach("borrowed");
    }
}
