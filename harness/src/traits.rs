//! The allocator interface: C16, C17.
use crate::env::*;
use crate::g::*;
use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use core::alloc::Layout;
use core::convert::TryFrom;
use core::mem::{align_of, size_of};

pub mod c16 {
    use super::*;
    fn zeroes(l: NonZeroLayout, r: Option<Allocation<'_>>, m: i128) {
        match r {
            Some(x) => {
                let p = x.ptr.as_ptr();
                let s = x.layout.size().get() as i128;
                prove(zeroed(p, s), "the whole block is zero");
                prove(writes_within(m, p, s), "nothing but the block is written");
                prove(and(s >= l.size().get() as i128, x.layout.align() == l.align()), "the allocation carries at least the requested layout");
                prove(and(obj_size(p) == s, offset_in(p) == 0), "the block is the one that was allocated");
                prove(requests(m) == 1, "one block is requested");
                reach("granted");
            }
            None => { prove(and(requests(m) == 1, refusals(m) == 1), "the operation fails only if the allocator does"); reach("refused") }
        }
    }
    pub fn alloc_zeroed(e: &Env, l: Layout) {
        let l = nz(l);
        forbid_panic(true);
        let m = mark();
        zeroes(l, e.alloc_zeroed(l), m)
    }
    pub fn default_alloc_zeroed(e: &Env, l: Layout) {
        let l = nz(l);
        forbid_panic(true);
        let m = mark();
        zeroes(l, alloc_traits::util::defaults::local::alloc_zeroed(e, l), m)
    }
    fn moved(old: Allocation<'_>, n: NonZeroLayout, data: &[u8], r: Option<Allocation<'_>>, m: i128) {
        let (s, ns) = (old.layout.size().get() as i128, n.size().get() as i128);
        let min = if s < ns { s } else { ns };
        let p = old.ptr.as_ptr();
        prove(untouched(m, p, s), "the old block is not written to");
        prove(requests(m) == 1, "one block is requested");
        match r {
            Some(x) => {
                let q = x.ptr.as_ptr();
                prove(releases(m) == 1, "the old block is released exactly once");
                prove(!alive(p), "the old block is released");
                prove(alive(q), "the new block is not released");
                let got = x.layout.size().get() as i128;
                prove(and(got >= ns, x.layout.align() == n.align()), "the allocation carries at least the requested layout");
                prove(and(obj_size(q) == got, offset_in(q) == 0), "the new block is returned");
                prove(holds(q, seq_of(data), 0, min), "the contents are kept up to the smaller size");
                prove(writes_within(m, q, if s < got { s } else { got }), "no more than the smaller size is copied");
                reach("granted");
            }
            None => {
                prove(refusals(m) == 1, "the operation fails only if the allocator does");
                prove(releases(m) == 0, "after a failure the old block is still allocated");
                prove(alive(p), "after a failure the old block is still allocated");
                prove(holds(p, seq_of(data), 0, s), "after a failure the old block is unchanged");
                reach("refused");
            }
        }
    }
    pub fn realloc(e: &Env, l: Layout, n: Layout, data: &[u8]) {
        let (l, n) = (nz(l), nz(n));
        forbid_panic(true);
        let Some(x) = e.alloc(l) else { return };
        assume(data.len() == x.layout.size().get());
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), x.ptr.as_ptr(), data.len()) };
        let m = mark();
        let r = unsafe { e.realloc(x, n) };
        moved(x, n, data, r, m)
    }
    pub fn default_realloc(e: &Env, l: Layout, n: Layout, data: &[u8]) {
        let (l, n) = (nz(l), nz(n));
        forbid_panic(true);
        let Some(x) = e.alloc(l) else { return };
        assume(data.len() == x.layout.size().get());
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), x.ptr.as_ptr(), data.len()) };
        let m = mark();
        let r = unsafe { alloc_traits::util::defaults::local::realloc(e, x, n) };
        moved(x, n, data, r, m)
    }
}

pub mod c17 {
    use super::*;
    type L = alloc_traits::Layout;
    fn faithful(l: Layout, n: NonZeroLayout) {
        prove(n.size().get() == l.size(), "the size is kept");
        prove(n.align() == l.align(), "the alignment is kept");
        prove(n.size().get() > 0, "the size is not zero");
        reach("made");
    }
    fn refused(l: Layout) { prove(l.size() == 0, "only layouts of size zero are refused"); reach("refused"); }
    pub fn new<T>() {
        forbid_panic(true);
        match NonZeroLayout::new::<T>() { Some(n) => faithful(Layout::new::<T>(), n), None => refused(Layout::new::<T>()) }
    }
    pub fn from_layout(l: Layout) {
        forbid_panic(true);
        match NonZeroLayout::from_layout(l.into()) { Some(n) => faithful(l, n), None => refused(l) }
    }
    pub fn try_from_std(l: Layout) {
        forbid_panic(true);
        match NonZeroLayout::try_from(l) { Ok(n) => faithful(l, n), Err(_) => refused(l) }
    }
    pub fn try_from_own(l: Layout) {
        forbid_panic(true);
        match NonZeroLayout::try_from(L::from(l)) { Ok(n) => faithful(l, n), Err(_) => refused(l) }
    }
    pub fn own(l: Layout) {
        forbid_panic(true);
        let o = L::from(l);
        prove(o.size() == l.size(), "the size is kept");
        prove(o.align() == l.align(), "the alignment is kept");
        let back: Layout = o.into();
        prove(back.size() == l.size(), "the size is kept");
        prove(back.align() == l.align(), "the alignment is kept");
        reach("made");
    }
    pub fn own_new<T>() {
        forbid_panic(true);
        let o = L::new::<T>();
        prove(o.size() == size_of::<T>(), "the layout is that of the type");
        prove(o.align() == align_of::<T>(), "the layout is that of the type");
        reach("made");
    }
    pub fn back(l: Layout) {
        let n = nz(l);
        forbid_panic(true);
        let b: Layout = n.into();
        prove(b.size() == l.size(), "the size is kept");
        prove(b.align() == l.align(), "the alignment is kept");
        reach("made");
    }
    pub fn equality(l: Layout, k: Layout) {
        let (n, o) = (nz(l), nz(k));
        forbid_panic(true);
        let e = n == o;
        prove(imp(e, and(l.size() == k.size(), l.align() == k.align())), "equal layouts have equal size and alignment");
        prove(imp(and(l.size() == k.size(), l.align() == k.align()), e), "layouts of equal size and alignment are equal");
        reach("compared");
    }
}
