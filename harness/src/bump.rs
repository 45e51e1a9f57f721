//! The synchronised bump allocator: C01-C07.
use crate::g::*;
use core::alloc::{GlobalAlloc, Layout};
use core::mem::{align_of, size_of, MaybeUninit};
use core::ptr::NonNull;
use static_alloc::bump::{Allocation, Failure, Level};
use alloc_traits::{LocalAlloc, NonZeroLayout};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;

/// Any state the allocator can be in while other threads use it: the level is at most the size of the
/// storage and never decreases (both are obligations of every operation below).
fn any_state<T>(b: &Bump<T>) -> i128 {
    shared(b, size_of::<T>() as i128);
    mark()
}
fn storage<T>(b: &Bump<T>) -> *const MaybeUninit<T> { field::<Bump<T>, MaybeUninit<T>>(b) }
fn rel<T>(b: &Bump<T>, p: *const u8) -> i128 { addr(p) - addr(storage(b)) }

/// a layout of non-zero size
fn nz(l: Layout) -> NonZeroLayout {
    assume(l.size() > 0);
    match NonZeroLayout::from_layout(l.into()) { Some(l) => l, None => unreachable!() }
}

pub mod c01 {
    use super::*;
    /// obligations of an operation that handed out [p, p+size)
    fn granted<T>(b: &Bump<T>, m: i128, p: *const u8, size: i128) {
        prove(stores(m) == 0, "the fill level is only changed by atomic updates");
        prove(claims(m) == 1, "exactly one atomic update claims the memory");
        let (old, new) = (claim_old(m, 0), claim_new(m, 0));
        prove(new >= old, "the fill level does not move backwards");
        prove(new <= size_of::<T>() as i128, "the fill level stays inside the storage");
        prove(same_object(p, b), "memory belongs to the allocator");
        prove(rel(b, p) >= old, "memory starts inside the range claimed by this call");
        prove(rel(b, p) + size <= new, "memory ends inside the range claimed by this call");
        reach("granted");
    }
    fn refused(m: i128) {
        prove(stores(m) == 0, "the fill level is only changed by atomic updates");
        prove(claims(m) == 0, "a refused request claims nothing");
        reach("refused");
    }
    pub fn alloc<T>(b: &Bump<T>, layout: Layout) {
        let m = any_state(b);
        match b.alloc(layout) { Some(p) => granted(b, m, p.as_ptr(), layout.size() as i128), None => refused(m) }
    }
    pub fn alloc_at<T>(b: &Bump<T>, layout: Layout, at: Level) {
        let m = any_state(b);
        match b.alloc_at(layout, at) { Ok(a) => granted(b, m, a.ptr.as_ptr(), layout.size() as i128), Err(_) => refused(m) }
    }
    pub fn get_layout<T>(b: &Bump<T>, layout: Layout) {
        let m = any_state(b);
        match b.get_layout(layout) { Some(a) => granted(b, m, a.ptr.as_ptr(), layout.size() as i128), None => refused(m) }
    }
    pub fn get_layout_at<T>(b: &Bump<T>, layout: Layout, at: Level) {
        let m = any_state(b);
        match b.get_layout_at(layout, at) { Ok(a) => granted(b, m, a.ptr.as_ptr(), layout.size() as i128), Err(_) => refused(m) }
    }
    pub fn get<T, V>(b: &Bump<T>) {
        let m = any_state(b);
        assume(size_of::<V>() > 0);
        match b.get::<V>() { Some(a) => granted(b, m, a.ptr.as_ptr() as *const u8, size_of::<V>() as i128), None => refused(m) }
    }
    pub fn get_at<T, V>(b: &Bump<T>, at: Level) {
        let m = any_state(b);
        assume(size_of::<V>() > 0);
        match b.get_at::<V>(at) { Ok(a) => granted(b, m, a.ptr.as_ptr() as *const u8, size_of::<V>() as i128), Err(_) => refused(m) }
    }
    pub fn leak<T, V>(b: &Bump<T>, v: V) {
        let m = any_state(b);
        assume(size_of::<V>() > 0);
        match b.leak(v) { Ok(r) => granted(b, m, r as *const V as *const u8, size_of::<V>() as i128), Err(_) => refused(m) }
    }
    pub fn leak_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        let m = any_state(b);
        assume(size_of::<V>() > 0);
        match b.leak_at(v, at) { Ok((r, _)) => granted(b, m, r as *const V as *const u8, size_of::<V>() as i128), Err(_) => refused(m) }
    }
    pub fn leak_box<T, V>(b: &Bump<T>, v: V) {
        let m = any_state(b);
        assume(size_of::<V>() > 0);
        match b.leak_box(v) { Some(r) => granted(b, m, &*r as *const V as *const u8, size_of::<V>() as i128), None => refused(m) }
    }
    pub fn leak_box_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        let m = any_state(b);
        assume(size_of::<V>() > 0);
        match b.leak_box_at(v, at) { Ok(r) => granted(b, m, &*r as *const V as *const u8, size_of::<V>() as i128), Err(_) => refused(m) }
    }
    pub fn global_alloc<T>(b: &Bump<T>, layout: Layout) {
        let m = any_state(b);
        assume(layout.size() > 0);
        let p = unsafe { GlobalAlloc::alloc(b, layout) };
        if p.is_null() { refused(m) } else { granted(b, m, p, layout.size() as i128) }
    }
    pub fn local_alloc<T>(b: &Bump<T>, layout: Layout) {
        let layout = nz(layout);
        let m = any_state(b);
        match LocalAlloc::alloc(b, layout) { Some(x) => granted(b, m, x.ptr.as_ptr(), layout.size().get() as i128), None => refused(m) }
    }
    pub fn global_dealloc<T>(b: &Bump<T>, p: &mut u8, layout: Layout) {
        let m = any_state(b);
        unsafe { GlobalAlloc::dealloc(b, p, layout) };
        refused(m);
    }
    pub fn level<T>(b: &Bump<T>) {
        let m = any_state(b);
        let _ = b.level();
        refused(m);
    }
    /// a new allocator is in one of the states the other contracts start from
    fn initial<T>(b: &Bump<T>) {
        prove(int(&b.level()) <= size_of::<T>() as i128, "the initial fill level is inside the storage");
        reach("made");
    }
    pub fn uninit<T>() { let b = Bump::<T>::uninit(); initial(&b) }
    pub fn zeroed<T>() { let b = Bump::<T>::zeroed(); initial(&b) }
    pub fn new<T>(t: T) { let b = Bump::new(t); initial(&b); core::mem::forget(b) }
}

/// What every entry point has in common: the memory handed out (with the requested size and alignment)
/// or the reason for refusing it.
enum Res { Got(*const u8, i128, i128, Option<Level>), Refused(Option<Failure>) }
use Res::*;
fn fits<T>(b: &Bump<T>, level: i128, size: i128, align: i128) -> bool {
    level + pad(addr(storage(b)) + level, align) + size <= size_of::<T>() as i128
}
/// the entry points that take a layout; `at` is the level asked for, if any
macro_rules! layout_ops { ($check:path $(, $quiet:expr)?) => {
    pub fn alloc<T>(b: &Bump<T>, layout: Layout) {
        $(forbid_panic($quiet);)?
        assume(layout.size() > 0);
        let (m, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        let r = match b.alloc(layout) { Some(p) => Got(p.as_ptr(), s, a, None), None => Refused(None) };
        $check(b, m, None, s, a, r)
    }
    pub fn alloc_at<T>(b: &Bump<T>, layout: Layout, at: Level) {
        $(forbid_panic($quiet);)?
        assume(layout.size() > 0);
        assume(int(&at) <= size_of::<T>() as i128);
        let (m, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        let r = match b.alloc_at(layout, at) { Ok(x) => Got(x.ptr.as_ptr(), s, a, Some(x.level)), Err(f) => Refused(Some(f)) };
        $check(b, m, Some(int(&at)), s, a, r)
    }
    pub fn get_layout<T>(b: &Bump<T>, layout: Layout) {
        $(forbid_panic($quiet);)?
        assume(layout.size() > 0);
        let (m, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        let r = match b.get_layout(layout) { Some(x) => Got(x.ptr.as_ptr(), s, a, Some(x.level)), None => Refused(None) };
        $check(b, m, None, s, a, r)
    }
    pub fn get_layout_at<T>(b: &Bump<T>, layout: Layout, at: Level) {
        $(forbid_panic($quiet);)?
        assume(layout.size() > 0);
        assume(int(&at) <= size_of::<T>() as i128);
        let (m, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        let r = match b.get_layout_at(layout, at) { Ok(x) => Got(x.ptr.as_ptr(), s, a, Some(x.level)), Err(f) => Refused(Some(f)) };
        $check(b, m, Some(int(&at)), s, a, r)
    }
    pub fn global_alloc<T>(b: &Bump<T>, layout: Layout) {
        $(forbid_panic($quiet);)?
        assume(layout.size() > 0);
        let (m, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        let p = unsafe { GlobalAlloc::alloc(b, layout) };
        $check(b, m, None, s, a, if p.is_null() { Refused(None) } else { Got(p, s, a, None) })
    }
    pub fn local_alloc<T>(b: &Bump<T>, layout: Layout) {
        $(forbid_panic($quiet);)?
        let layout = nz(layout);
        let (m, s, a) = (any_state(b), layout.size().get() as i128, layout.align() as i128);
        let r = match LocalAlloc::alloc(b, layout) { Some(x) => Got(x.ptr.as_ptr(), s, a, None), None => Refused(None) };
        $check(b, m, None, s, a, r)
    }
} }
macro_rules! value_ops { ($check:path $(, $quiet:expr)?) => {
    pub fn get<T, V>(b: &Bump<T>) {
        $(forbid_panic($quiet);)?
        assume(size_of::<V>() > 0);
        let (m, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        let r = match b.get::<V>() { Some(x) => Got(x.ptr.as_ptr() as *const u8, s, a, Some(x.level)), None => Refused(None) };
        $check(b, m, None, s, a, r)
    }
    pub fn get_at<T, V>(b: &Bump<T>, at: Level) {
        $(forbid_panic($quiet);)?
        assume(size_of::<V>() > 0);
        assume(int(&at) <= size_of::<T>() as i128);
        let (m, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        let r = match b.get_at::<V>(at) { Ok(x) => Got(x.ptr.as_ptr() as *const u8, s, a, Some(x.level)), Err(f) => Refused(Some(f)) };
        $check(b, m, Some(int(&at)), s, a, r)
    }
    pub fn leak<T, V>(b: &Bump<T>, v: V) {
        $(forbid_panic($quiet);)?
        assume(size_of::<V>() > 0);
        let (m, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        let r = match b.leak(v) { Ok(x) => Got(x as *const V as *const u8, s, a, None), Err(e) => Refused(Some(e.kind())) };
        $check(b, m, None, s, a, r)
    }
    pub fn leak_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        $(forbid_panic($quiet);)?
        assume(size_of::<V>() > 0);
        assume(int(&at) <= size_of::<T>() as i128);
        let (m, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        let r = match b.leak_at(v, at) { Ok((x, l)) => Got(x as *const V as *const u8, s, a, Some(l)), Err(e) => Refused(Some(e.kind())) };
        $check(b, m, Some(int(&at)), s, a, r)
    }
    pub fn leak_box<T, V>(b: &Bump<T>, v: V) {
        $(forbid_panic($quiet);)?
        assume(size_of::<V>() > 0);
        let (m, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        let r = match b.leak_box(v) { Some(x) => Got(LeakBox::into_raw(x) as *const u8, s, a, None), None => Refused(None) };
        $check(b, m, None, s, a, r)
    }
    pub fn leak_box_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        $(forbid_panic($quiet);)?
        assume(size_of::<V>() > 0);
        assume(int(&at) <= size_of::<T>() as i128);
        let (m, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        let r = match b.leak_box_at(v, at) { Ok(x) => Got(LeakBox::into_raw(x) as *const u8, s, a, None), Err(f) => Refused(Some(f)) };
        $check(b, m, Some(int(&at)), s, a, r)
    }
} }

pub mod c02 {
    use super::*;
    fn fit<T>(b: &Bump<T>, _m: i128, _at: Option<i128>, _s: i128, _a: i128, r: Res) {
        if let Got(p, s, a, _) = r {
            prove(same_object(p, b), "memory belongs to the allocator");
            prove(rel(b, p) >= 0, "memory does not start before the storage");
            prove(rel(b, p) + s <= size_of::<T>() as i128, "memory does not end behind the storage");
            prove(is_multiple(addr(p), a), "memory is aligned as requested");
            reach("granted");
        }
    }
    layout_ops!(fit);
    value_ops!(fit);
}

pub mod c03 {
    use super::*;
    fn justified<T>(b: &Bump<T>, m: i128, at: Option<i128>, s: i128, a: i128, r: Res) {
        let Refused(f) = r else { return };
        prove(claims(m) == 0, "a refused request claims nothing");
        prove(stores(m) == 0, "a refused request does not change the fill level");
        // the level the request was tried at
        let tried_full = match at {
            Some(l) => !fits(b, l, s, a),
            None => or(!fits(b, 0, s, a), or(!fits(b, observation(m, 0), s, a), or(!fits(b, observation(m, 1), s, a), !fits(b, observation(m, 2), s, a)))),
        };
        match (at, f) {
            (_, None) | (_, Some(Failure::Exhausted)) => {
                reach("exhausted");
                if let (Some(_), None) = (at, f) { return }
                prove(tried_full, "exhaustion is reported only when the request does not fit at a level the allocator had");
            }
            (Some(l), Some(Failure::Mismatch { observed: o })) => {
                reach("mismatch");
                prove(int(&o) != l, "a reported mismatch is one");
                prove(observed(m, int(&o)), "the level reported by a mismatch was observed");
            }
            (None, Some(Failure::Mismatch { .. })) => prove(false, "requests without a level are not refused for a mismatch"),
        }
    }
    // a request that can be refused must not panic instead
    layout_ops!(justified, true);
    value_ops!(justified, true);
}

pub mod c04 {
    use super::*;
    fn exact<T>(b: &Bump<T>, m: i128, at: Option<i128>, s: i128, a: i128, r: Res) {
        let Got(p, _, _, level) = r else { return };
        prove(claims(m) == 1, "exactly one atomic update claims the memory");
        let (old, new) = (claim_old(m, 0), claim_new(m, 0));
        if let Some(l) = at { prove(old == l, "a request at a level succeeds only at that level"); }
        prove(rel(b, p) == old + pad(addr(storage(b)) + old, a), "memory starts at the first aligned address at or after the fill level");
        prove(new == rel(b, p) + s, "the new fill level is the end of the memory");
        if let Some(l) = level { prove(int(&l) == new, "the reported level is the new fill level"); }
        reach("granted");
    }
    layout_ops!(exact);
    value_ops!(exact);
}

pub mod c05 {
    use super::*;
    fn nothing<T>(_b: &Bump<T>, m: i128) {
        prove(stores(m) == 0, "the fill level is only changed by atomic updates");
        prove(claims(m) == 0, "a zero-sized value consumes nothing");
    }
    fn pointer<T, V>(b: &Bump<T>, m: i128, p: *const V) {
        nothing(b, m);
        prove(addr(p) != 0, "pointers to zero-sized values are not null");
        prove(is_multiple(addr(p), align_of::<V>() as i128), "pointers to zero-sized values are aligned");
        reach("granted");
    }
    fn mismatch<T>(b: &Bump<T>, m: i128, at: i128, f: Failure) {
        nothing(b, m);
        match f {
            Failure::Exhausted => prove(false, "a zero-sized value never exhausts the allocator"),
            Failure::Mismatch { observed: o } => {
                prove(int(&o) != at, "a reported mismatch is one");
                prove(observed(m, int(&o)), "the reported level is the current one");
                reach("mismatch");
            }
        }
    }
    pub fn get<T, V>(b: &Bump<T>) {
        forbid_panic(true);
        let m = any_state(b);
        assume(size_of::<V>() == 0);
        match b.get::<V>() {
            Some(x) => { prove(observed(m, int(&x.level)), "the reported level is the current one"); pointer(b, m, x.ptr.as_ptr()) }
            None => prove(false, "a zero-sized value never exhausts the allocator"),
        }
    }
    pub fn get_at<T, V>(b: &Bump<T>, at: Level) {
        forbid_panic(true);
        let m = any_state(b);
        assume(size_of::<V>() == 0);
        match b.get_at::<V>(at) {
            Ok(x) => {
                prove(observed(m, int(&at)), "success only at the current level");
                prove(int(&x.level) == int(&at), "the reported level is the current one");
                pointer(b, m, x.ptr.as_ptr())
            }
            Err(f) => mismatch(b, m, int(&at), f),
        }
    }
    pub fn leak<T, V>(b: &Bump<T>, v: V) {
        forbid_panic(true);
        let m = any_state(b);
        assume(size_of::<V>() == 0);
        match b.leak(v) { Ok(x) => pointer(b, m, x), Err(_) => prove(false, "a zero-sized value never exhausts the allocator") }
    }
    pub fn leak_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        forbid_panic(true);
        let m = any_state(b);
        assume(size_of::<V>() == 0);
        match b.leak_at(v, at) {
            Ok((x, l)) => { prove(int(&l) == int(&at), "the reported level is the current one"); prove(observed(m, int(&at)), "success only at the current level"); pointer(b, m, x) }
            Err(e) => mismatch(b, m, int(&at), e.kind()),
        }
    }
    pub fn leak_box<T, V>(b: &Bump<T>, v: V) {
        forbid_panic(true);
        let m = any_state(b);
        assume(size_of::<V>() == 0);
        match b.leak_box(v) { Some(x) => pointer(b, m, LeakBox::into_raw(x)), None => prove(false, "a zero-sized value never exhausts the allocator") }
    }
    pub fn leak_box_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        forbid_panic(true);
        let m = any_state(b);
        assume(size_of::<V>() == 0);
        match b.leak_box_at(v, at) {
            Ok(x) => { prove(observed(m, int(&at)), "success only at the current level"); pointer(b, m, LeakBox::into_raw(x)) }
            Err(f) => mismatch(b, m, int(&at), f),
        }
    }
}

pub mod c06 {
    use super::*;
    pub fn leak<T, V>(b: &Bump<T>, v: V) {
        let _ = any_state(b);
        let v0 = snap(&v);
        match b.leak(v) {
            Ok(r) => {
                prove(same(r, &v0), "the reference leads to the value that was given");
                prove(drops(&v0) == 0, "a leaked value is not dropped");
                reach("leaked");
            }
            Err(e) => {
                prove(drops(&v0) == 0, "a refused value is not dropped");
                let w = e.into_inner();
                prove(same(&w, &v0), "the refused value comes back");
                prove(drops(&v0) == 0, "a refused value is not dropped");
                core::mem::forget(w);
                reach("refused");
            }
        }
    }
    pub fn leak_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        let _ = any_state(b);
        let v0 = snap(&v);
        match b.leak_at(v, at) {
            Ok((r, _)) => {
                prove(same(r, &v0), "the reference leads to the value that was given");
                prove(drops(&v0) == 0, "a leaked value is not dropped");
                reach("leaked");
            }
            Err(e) => {
                let w = e.into_inner();
                prove(same(&w, &v0), "the refused value comes back");
                prove(drops(&v0) == 0, "a refused value is not dropped");
                core::mem::forget(w);
                reach("refused");
            }
        }
    }
    /// an error that is dropped drops the value in it
    pub fn error_dropped<T, V>(b: &Bump<T>, v: V) {
        let _ = any_state(b);
        let v0 = snap(&v);
        if let Err(e) = b.leak(v) { drop(e); prove(drops(&v0) == 1, "the refused value is dropped with the error"); reach("refused"); }
    }
    pub fn leak_box<T, V>(b: &Bump<T>, v: V) {
        let _ = any_state(b);
        let v0 = snap(&v);
        match b.leak_box(v) {
            Some(r) => {
                prove(same(&*r, &v0), "the box holds the value that was given");
                prove(drops(&v0) == 0, "the boxed value is not dropped");
                core::mem::forget(r);
                reach("leaked");
            }
            None => { prove(drops(&v0) == 1, "the refused value is dropped exactly once"); reach("refused"); }
        }
    }
    pub fn leak_box_at<T, V>(b: &Bump<T>, v: V, at: Level) {
        let _ = any_state(b);
        let v0 = snap(&v);
        match b.leak_box_at(v, at) {
            Ok(r) => {
                prove(same(&*r, &v0), "the box holds the value that was given");
                prove(drops(&v0) == 0, "the boxed value is not dropped");
                core::mem::forget(r);
                reach("leaked");
            }
            Err(_) => { prove(drops(&v0) == 1, "the refused value is dropped exactly once"); reach("refused"); }
        }
    }
    pub fn allocation_leak<T, V>(b: &Bump<T>, v: V) {
        let _ = any_state(b);
        let v0 = snap(&v);
        if let Some(a) = b.get::<V>() {
            let p = a.ptr.as_ptr();
            let r = unsafe { a.leak(v) };
            prove(addr(r) == addr(p), "the reference leads to the allocation");
            prove(same(r, &v0), "the reference leads to the value that was given");
            prove(drops(&v0) == 0, "a leaked value is not dropped");
            reach("leaked");
        } else { core::mem::forget(v); }
    }
    pub fn allocation_boxed<T, V>(b: &Bump<T>, v: V) {
        let _ = any_state(b);
        let v0 = snap(&v);
        if let Some(a) = b.get::<V>() {
            let p = a.ptr.as_ptr();
            let r = unsafe { a.boxed(v) };
            prove(addr(&*r) == addr(p), "the box leads to the allocation");
            prove(same(&*r, &v0), "the box holds the value that was given");
            prove(drops(&v0) == 0, "the boxed value is not dropped");
            core::mem::forget(r);
            reach("leaked");
        } else { core::mem::forget(v); }
    }
    pub fn allocation_uninit<T, V>(b: &Bump<T>) {
        let _ = any_state(b);
        if let Some(a) = b.get::<V>() {
            let p = a.ptr.as_ptr();
            let r = unsafe { a.uninit() };
            prove(addr(r) == addr(p), "the reference leads to the allocation");
            reach("uninit");
        }
    }
}

pub mod c07 {
    use super::*;
    /// memory of the layout (s, a) that was claimed since the mark
    fn fresh<T>(b: &Bump<T>, m: i128, p: *const u8, s: i128, a: i128) {
        prove(claims(m) == 1, "exactly one atomic update claims the memory");
        prove(same_object(p, b), "memory belongs to the allocator");
        prove(rel(b, p) >= claim_old(m, 0), "memory starts inside the range claimed by this call");
        prove(rel(b, p) + s <= claim_new(m, 0), "memory ends inside the range claimed by this call");
        prove(claim_new(m, 0) <= size_of::<T>() as i128, "memory is inside the storage");
        prove(is_multiple(addr(p), a), "memory is aligned as requested");
        reach("granted");
    }
    fn refused(m: i128) {
        prove(claims(m) == 0, "a refused request claims nothing");
        reach("refused");
    }
    pub fn global_alloc<T>(b: &Bump<T>, layout: Layout) {
        forbid_panic(true);
        let m = any_state(b);
        assume(layout.size() > 0);
        let p = unsafe { GlobalAlloc::alloc(b, layout) };
        if p.is_null() { refused(m) } else { fresh(b, m, p, layout.size() as i128, layout.align() as i128) }
    }
    pub fn global_alloc_zeroed<T>(b: &Bump<T>, layout: Layout) {
        forbid_panic(true);
        let m = any_state(b);
        assume(layout.size() > 0);
        let p = unsafe { GlobalAlloc::alloc_zeroed(b, layout) };
        if p.is_null() { refused(m) } else {
            fresh(b, m, p, layout.size() as i128, layout.align() as i128);
            prove(zeroed(p, layout.size() as i128), "zeroed memory is zero");
        }
    }
    pub fn global_dealloc<T>(b: &Bump<T>, layout: Layout) {
        forbid_panic(true);
        let _ = any_state(b);
        assume(layout.size() > 0);
        let p = unsafe { GlobalAlloc::alloc(b, layout) };
        if p.is_null() { return }
        let m = mark();
        unsafe { GlobalAlloc::dealloc(b, p, layout) };
        prove(and(claims(m) == 0, stores(m) == 0), "deallocation does not change the fill level");
        prove(no_writes(m, p), "deallocation does not touch the memory");
        reach("released");
    }
    pub fn global_realloc<T>(b: &Bump<T>, layout: Layout, new: usize, data: &[u8]) {
        forbid_panic(true);
        let _ = any_state(b);
        assume(and(layout.size() > 0, new > 0));
        let p = unsafe { GlobalAlloc::alloc(b, layout) };
        if p.is_null() { return }
        assume(data.len() == layout.size());
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        let m = mark();
        let (s, a) = (layout.size() as i128, layout.align() as i128);
        let q = unsafe { GlobalAlloc::realloc(b, p, layout, new) };
        prove(untouched(m, p, s), "the old block is not written to");
        prove(stores(m) == 0, "the fill level is only changed by atomic updates");
        if q.is_null() { refused(m); return }
        let min = if (new as i128) < s { new as i128 } else { s };
        if claims(m) == 0 {
            prove(addr(q) == addr(p), "without new memory only the old block can be returned");
            prove(new as i128 <= s, "the old block is reused only when it is large enough");
            reach("reused");
        } else {
            fresh(b, m, q, new as i128, a);
        }
        prove(new as i128 <= isize::MAX as i128 - (a - 1), "a size that cannot be represented is refused");
        prove(holds(q, seq_of(data), 0, min), "the contents are kept up to the smaller size");
    }
    pub fn local_alloc<T>(b: &Bump<T>, layout: Layout) {
        let layout = nz(layout);
        forbid_panic(true);
        let m = any_state(b);
        match LocalAlloc::alloc(b, layout) {
            Some(x) => {
                fresh(b, m, x.ptr.as_ptr(), layout.size().get() as i128, layout.align() as i128);
                prove(x.layout == layout, "the allocation carries the requested layout");
            }
            None => refused(m),
        }
    }
    pub fn local_alloc_zeroed<T>(b: &Bump<T>, layout: Layout) {
        let layout = nz(layout);
        forbid_panic(true);
        let m = any_state(b);
        match LocalAlloc::alloc_zeroed(b, layout) {
            Some(x) => {
                fresh(b, m, x.ptr.as_ptr(), layout.size().get() as i128, layout.align() as i128);
                prove(x.layout == layout, "the allocation carries the requested layout");
                prove(zeroed(x.ptr.as_ptr(), layout.size().get() as i128), "zeroed memory is zero");
            }
            None => refused(m),
        }
    }
    pub fn local_dealloc<T>(b: &Bump<T>, layout: Layout) {
        let layout = nz(layout);
        forbid_panic(true);
        let _ = any_state(b);
        let Some(x) = LocalAlloc::alloc(b, layout) else { return };
        let m = mark();
        unsafe { LocalAlloc::dealloc(b, x) };
        prove(and(claims(m) == 0, stores(m) == 0), "deallocation does not change the fill level");
        prove(no_writes(m, x.ptr.as_ptr()), "deallocation does not touch the memory");
        reach("released");
    }
    pub fn local_realloc<T>(b: &Bump<T>, layout: Layout, new: Layout, data: &[u8]) {
        let layout = nz(layout); let new = nz(new);
        forbid_panic(true);
        let _ = any_state(b);
        let Some(x) = LocalAlloc::alloc(b, layout) else { return };
        let (p, s) = (x.ptr.as_ptr(), layout.size().get() as i128);
        assume(data.len() == layout.size().get());
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        let m = mark();
        let (ns, na) = (new.size().get() as i128, new.align() as i128);
        let r = unsafe { LocalAlloc::realloc(b, x, new) };
        prove(untouched(m, p, s), "the old block is not written to");
        prove(stores(m) == 0, "the fill level is only changed by atomic updates");
        let Some(y) = r else { refused(m); return };
        let q = y.ptr.as_ptr();
        prove(y.layout == new, "the allocation carries the requested layout");
        let min = if ns < s { ns } else { s };
        if claims(m) == 0 {
            prove(addr(q) == addr(p), "without new memory only the old block can be returned");
            prove(ns <= s, "the old block is reused only when it is large enough");
            prove(is_multiple(addr(q), na), "the old block is reused only when it is suitably aligned");
            reach("reused");
        } else {
            fresh(b, m, q, ns, na);
        }
        prove(holds(q, seq_of(data), 0, min), "the contents are kept up to the smaller size");
    }
}

pub mod c34 {
    use super::*;
    fn any<T>(_b: &Bump<T>, m: i128, _at: Option<i128>, _s: i128, _a: i128, _r: Res) {
        prove(informed_retries(m), "a retry uses the level that made the attempt before it fail");
        reach("returned");
    }
    layout_ops!(any);
    value_ops!(any);
    /// without interference from other threads every request ends after a bounded number of attempts
    pub fn alone<T>(b: &mut Bump<T>, layout: Layout) {
        assume(layout.size() > 0);
        assume(int(&b.level()) <= size_of::<T>() as i128);
        bounded_loops(4);
        let _ = b.alloc(layout);
        reach("returned");
    }
}
