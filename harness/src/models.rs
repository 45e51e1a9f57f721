//! The meaning of library functions that are too intricate to be analysed from their source.
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, items: I) {
    let mut it = items.into_iter();
    while let Some(x) = it.next() { v.push(x) }
}
pub fn extend_deque<T, I: IntoIterator<Item = T>>(v: &mut std::collections::VecDeque<T>, items: I) {
    let mut it = items.into_iter();
    while let Some(x) = it.next() { v.push_back(x) }
}
/// an inline allocator as the code sees it
pub fn bump_view<T>(b: *const static_alloc::unsync::Bump<T>) -> *const static_alloc::unsync::MemBump { unsafe { &**b } }

// Operations of slices whose elements are probes: what contract C33 compares the wrappers with.
use crate::g::{addr, get, prove};
use crate::wraps::{answer, ordering, Probe};
use core::cmp::Ordering;
fn operands<T>(a: &[Probe<T>], b: &[Probe<T>]) {
    prove(addr(a.as_ptr()) == get("left"), "the left operand is that of the wrapper");
    prove(a.len() as i128 == get("left len"), "the left operand is that of the wrapper");
    prove(addr(b.as_ptr()) == get("right"), "the right operand is that of the wrapper");
    prove(b.len() as i128 == get("right len"), "the right operand is that of the wrapper");
}
pub fn slice_eq<T>(a: &[Probe<T>], b: &[Probe<T>]) -> bool { operands(a, b); answer() }
pub fn slice_ne<T>(a: &[Probe<T>], b: &[Probe<T>]) -> bool { operands(a, b); !answer() }
pub fn slice_partial_cmp<T>(a: &[Probe<T>], b: &[Probe<T>]) -> Option<Ordering> { operands(a, b); ordering() }
pub fn slice_lt<T>(a: &[Probe<T>], b: &[Probe<T>]) -> bool { operands(a, b); ordering() == Some(Ordering::Less) }
pub fn slice_le<T>(a: &[Probe<T>], b: &[Probe<T>]) -> bool { operands(a, b); matches!(ordering(), Some(Ordering::Less | Ordering::Equal)) }
pub fn slice_gt<T>(a: &[Probe<T>], b: &[Probe<T>]) -> bool { operands(a, b); ordering() == Some(Ordering::Greater) }
pub fn slice_ge<T>(a: &[Probe<T>], b: &[Probe<T>]) -> bool { operands(a, b); matches!(ordering(), Some(Ordering::Greater | Ordering::Equal)) }
pub fn slice_cmp<T>(a: &[Probe<T>], b: &[Probe<T>]) -> Ordering { operands(a, b); ordering().unwrap() }
pub fn slice_hash<T, H: core::hash::Hasher>(a: &[Probe<T>], h: &mut H) { operands(a, a); crate::wraps::hashed(h); }
/// formatting the address of a pointer
pub fn pointer_fmt<T: ?Sized>(p: &*const T, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    prove(addr(*p) == get("left"), "the address is that of the value");
    crate::wraps::formatted("pointer", f)
}
