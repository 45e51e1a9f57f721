//! Chains of heap blocks: C12.
use crate::g::*;
use core::mem::{align_of, size_of};
use static_alloc::bump::Failure;
use static_alloc::unsync::Chain;

pub mod c12 {
    use super::*;
    const LINK: i128 = 2 * size_of::<usize>() as i128;
    const HEADER: i128 = LINK + size_of::<usize>() as i128;

    fn block(n: usize) -> Option<Chain> {
        Chain::new(n).ok()
    }

    pub fn new(n: usize) {
        alloc_may_fail(true);
        forbid_panic(true);
        let m = mark();
        match Chain::new(n) {
            Ok(c) => {
                prove(allocs(m) == 1, "one block is requested");
                prove(deallocs(m) == 0, "the block is kept");
                prove(c.capacity() == n, "the capacity is the requested one");
                prove(c.remaining_capacity() == n, "a new block is empty");
                let d = mark();
                drop(c);
                prove(deallocs(d) == 1, "the block is released once");
                prove(live_heap() == 0, "nothing is left");
                reach("released");
            }
            Err(e) => {
                prove(live_heap() == 0, "a failure leaves nothing behind");
                prove(e.allocation_size() >= n, "the failure names a size that holds the capacity");
                reach("failed");
            }
        }
    }

    pub fn allocate<T>(n: usize) {
        let c = match block(n) { Some(c) => c, None => return };
        if let Ok(x) = c.bump_box::<T>() {
            let p: *const T = x.as_ptr();
            let (size, align) = (size_of::<T>() as i128, align_of::<T>() as i128);
            prove(is_multiple(addr(p), align), "the memory is aligned");
            if size > 0 {
                prove(in_bounds(p, size), "the memory is inside of the block");
                prove(offset_in(p) >= HEADER, "the memory is not that of the header");
                let left = c.remaining_capacity() as i128;
                prove(left >= 0 && left + size <= n as i128, "the memory is accounted for");
                let m = mark();
                if let Ok(y) = c.bump_box::<T>() {
                    let q: *const T = y.as_ptr();
                    prove(same_object(p, q), "one block");
                    prove(addr(q) >= addr(p) + size, "values do not overlap");
                    prove(in_bounds(q, size), "the memory is inside of the block");
                    reach("second");
                }
                prove(allocs(m) == 0 && deallocs(m) == 0, "blocks are not touched by allocations from them");
            }
            reach("first");
        }
        drop(c);
        prove(live_heap() == 0, "nothing is left");
    }

    pub fn exhausted<T>(n: usize) {
        let c = match block(n) { Some(c) => c, None => return };
        if let Err(e) = c.bump_box::<T>() {
            prove(matches!(e, Failure::Exhausted), "the failure is exhaustion");
            prove(c.remaining_capacity() == n, "a failure uses nothing");
            prove((n as i128) + 1 < size_of::<T>() as i128 + align_of::<T>() as i128, "the failure is justified");
            reach("exhausted");
        };
    }

    pub fn append<T>(n: usize, k: usize, l: usize) {
        forbid_panic(true);
        let c = match block(n) { Some(c) => c, None => return };
        let p: *const T = match c.bump_box::<T>() { Ok(x) => x.as_ptr(), Err(_) => return };
        let other = match block(k) { Some(c) => c, None => return };
        let third = match block(l) { Some(c) => c, None => return };
        let m = mark();
        c.chain(other);
        prove(deallocs(m) == 0, "no block of the chain is released");
        prove(alive(p), "earlier memory stays usable");
        prove(c.capacity() == k, "the appended block is used next");
        prove(c.remaining_capacity() == k, "the appended block is used next");
        if let Ok(y) = c.bump_box::<T>() {
            if size_of::<T>() > 0 {
                prove(!same_object(p, y.as_ptr()), "memory is that of the appended block");
                prove(in_bounds(y.as_ptr() as *const T, size_of::<T>() as i128), "the memory is inside of the block");
            }
            reach("from the appended block");
        }
        c.chain(third);
        prove(deallocs(m) == 0, "no block of the chain is released");
        prove(alive(p), "earlier memory stays usable");
        prove(c.capacity() == l, "the appended block is used next");
        let d = mark();
        drop(c);
        prove(deallocs(d) == 3, "every block is released once");
        prove(live_heap() == 0, "nothing is left");
        reach("released");
    }

    pub fn append_longer<T>(n: usize, k: usize, l: usize) {
        forbid_panic(true);
        let c = match block(n) { Some(c) => c, None => return };
        let p: *const T = match c.bump_box::<T>() { Ok(x) => x.as_ptr(), Err(_) => return };
        let other = match block(k) { Some(c) => c, None => return };
        other.chain(match block(l) { Some(c) => c, None => return });
        let m = mark();
        c.chain(other);
        prove(deallocs(m) == 1, "only the root of the other chain is kept");
        prove(alive(p), "earlier memory stays usable");
        prove(c.capacity() == l, "the newest block is used next");
        let d = mark();
        drop(c);
        prove(deallocs(d) == 2, "every block is released once");
        prove(live_heap() == 0, "nothing is left");
        reach("released");
    }

    pub fn append_long(n: usize, k: usize) {
        forbid_panic(true);
        let c = match block(n) { Some(c) => c, None => return };
        c.chain(match block(k) { Some(c) => c, None => return });
        let other = match block(n) { Some(c) => c, None => return };
        other.chain(match block(k) { Some(c) => c, None => return });
        other.chain(match block(n) { Some(c) => c, None => return });
        other.chain(match block(k) { Some(c) => c, None => return });
        let m = mark();
        c.chain(other);
        prove(deallocs(m) == 3, "only the root of the other chain is kept");
        prove(live_heap() == 3, "no block of the chain is released");
        prove(c.capacity() == k, "the newest block is used next");
        let d = mark();
        drop(c);
        prove(deallocs(d) == 3, "every block is released once");
        prove(live_heap() == 0, "nothing is left");
        reach("released");
    }
}
