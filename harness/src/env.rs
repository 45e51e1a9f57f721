//! The most general environment the crates can meet.
use crate::g::*;
use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
use core::alloc::Layout;
use core::ptr::NonNull;

/// a layout of non-zero size
pub fn nz(l: Layout) -> NonZeroLayout {
    assume(l.size() > 0);
    match NonZeroLayout::from_layout(l.into()) { Some(l) => l, None => unreachable!() }
}

/// Any allocator that follows the rules of `LocalAlloc` for the provided methods: each request fails or
/// yields fresh memory of at least the requested size, with unknown contents.
pub struct Env;
unsafe impl<'a> LocalAlloc<'a> for Env {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        note("request");
        if any::<bool>() { note("refused"); return None }
        let (s, a) = (layout.size().get(), layout.align());
        let n: usize = any();
        assume(and(n >= s, n as i128 + a as i128 <= isize::MAX as i128));
        let p = lend(n as i128, a as i128);
        let layout = nz(unsafe { Layout::from_size_align_unchecked(n, a) });
        Some(Allocation { ptr: unsafe { NonNull::new_unchecked(p) }, layout, lifetime: AllocTime::default() })
    }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) {
        let p = a.ptr.as_ptr();
        note("release");
        prove(alive(p), "only live memory is released");
        prove(offset_in(p) == 0, "memory is released by the pointer it was given out with");
        prove(obj_size(p) == a.layout.size().get() as i128, "memory is released with its layout");
        prove(obj_align(p) == a.layout.align() as i128, "memory is released with its layout");
        freed(p);
    }
}
pub fn requests(m: i128) -> i128 { notes(m, "request") }
pub fn refusals(m: i128) -> i128 { notes(m, "refused") }
pub fn releases(m: i128) -> i128 { notes(m, "release") }
