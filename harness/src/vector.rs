//! Fixed-capacity vectors: C23, C24.
use crate::filling::Src;
use crate::g::*;
use core::mem::{align_of, forget, size_of};
use core::ops::Bound;
use core::ptr::{copy_nonoverlapping, read, slice_from_raw_parts_mut, NonNull};
use without_alloc::fixed_vec::{Drain, FixedVec};
use without_alloc::Uninit;

fn sz<T>() -> i128 { size_of::<T>() as i128 }
fn al<T>() -> i128 { align_of::<T>() as i128 }

/// Any vector with the given elements: its memory has arbitrary space to spare.
fn vec_of<'a, T>(items: &[T]) -> (FixedVec<'a, T>, *mut T, i128) {
    let n = items.len();
    if sz::<T>() == 0 { reach("values without bytes"); }
    let bytes: usize = any();
    assume(prod(n as i128, sz::<T>()) <= bytes as i128);
    let p = lend(bytes as i128, al::<T>()) as *mut T;
    let k: usize = any();
    assume(prod(k as i128, sz::<T>()) <= bytes as i128);
    unsafe {
        copy_nonoverlapping(items.as_ptr(), p, n);
        let mut v = FixedVec::new(Uninit::new(NonNull::new_unchecked(slice_from_raw_parts_mut(p, k)), bytes));
        v.set_len(n);
        prove(n <= v.capacity(), "the capacity is all of the memory");
        assume(n <= v.capacity());
        (v, p, bytes as i128)
    }
}
/// v is the vector of the n elements from the k-th item on, at p
fn is_vec<T>(v: &FixedVec<'_, T>, p: *const T, n: i128, items: &[T], k: i128) {
    let s = v.as_slice();
    prove(v.len() as i128 == n, "the length is the number of elements");
    prove(s.len() as i128 == n, "the slice exposes exactly the elements");
    prove(addr(s.as_ptr()) == addr(p), "the slice begins with the memory");
    prove(holds(s.as_ptr(), items, k, n), "the elements are the right ones in order");
    prove(v.len() <= v.capacity(), "the length never exceeds the capacity");
    prove(or(sz::<T>() == 0, or(prod(v.capacity() as i128, sz::<T>()) == 0, in_bounds(p, prod(v.capacity() as i128, sz::<T>())))), "the capacity is inside the memory");
}
/// (values without bytes are only counted)
fn dropped_n<T>(x: *const T, n: i128) -> bool { or(sz::<T>() == 0, drops(x) == n) }
/// the item at any index
fn at<T>(items: &[T], i: usize) -> *const T { assume(i < items.len()); unsafe { items.as_ptr().add(i) } }

/// an iterator that has come to its end stays there
struct Fused<'b, 'a, T>(&'b mut Src<'a, T>);
impl<'b, 'a, T> Iterator for Fused<'b, 'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { if self.0.ended { None } else { self.0.next() } }
}

pub mod c23 {
    use super::*;
    pub fn new<T>(bytes: usize, k: usize) {
        forbid_panic(true);
        assume(prod(k as i128, sz::<T>()) <= bytes as i128);
        let p = lend(bytes as i128, al::<T>()) as *mut T;
        let u = unsafe { Uninit::new(NonNull::new_unchecked(slice_from_raw_parts_mut(p, k)), bytes) };
        let m = mark();
        let v = FixedVec::new(u);
        prove(v.len() == 0, "a new vector is empty");
        prove(v.is_empty(), "a new vector is empty");
        prove(addr(v.as_slice().as_ptr()) == addr(p), "the slice begins with the memory");
        prove(v.capacity() >= k, "the capacity is all of the memory");
        prove(no_writes(m, p), "nothing is written");
        drop(v);
        prove(drops_of::<T>(m) == 0, "an empty vector drops nothing");
        reach("made");
    }
    pub fn push<T>(items: &[T], x: T) {
        forbid_panic(true);
        let n = items.len();
        let x0 = snap(&x);
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let m = mark();
        let r = v.push(x);
        prove(drops_of::<T>(m) == 0, "pushing drops nothing");
        prove(v.capacity() == cap, "pushing keeps the capacity");
        match r {
            Ok(()) => {
                prove(n < cap, "pushing needs space");
                prove(v.len() == n + 1, "the length counts the new element");
                prove(same(unsafe { v.as_slice().as_ptr().add(n) }, &x0), "the new element is the last");
                prove(holds(v.as_slice().as_ptr(), items, 0, n as i128), "the other elements are kept");
                prove(addr(v.as_slice().as_ptr()) == addr(p), "the slice begins with the memory");
                reach("pushed");
            }
            Err(y) => {
                prove(n == cap, "pushing fails only at capacity");
                prove(same(&y, &x0), "the value is given back");
                is_vec(&v, p, n as i128, items, 0);
                forget(y);
                reach("full");
            }
        }
        forget(v);
    }
    /// Values without bytes are only counted, up to the largest count there is.
    fn counted<'a, T>(n: usize) -> FixedVec<'a, T> {
        assume(sz::<T>() == 0);
        unsafe {
            let mut v = FixedVec::new(Uninit::new(NonNull::new_unchecked(slice_from_raw_parts_mut(lend(0, al::<T>()) as *mut T, 0)), 0));
            prove(n <= v.capacity(), "the capacity is all of the memory");
            v.set_len(n);
            v
        }
    }
    pub fn push_counted<T>(n: usize, x: T) {
        forbid_panic(true);
        let mut v = counted::<T>(n);
        let m = mark();
        match v.push(x) {
            Ok(()) => {
                prove(n < usize::MAX, "pushing needs space");
                prove(v.len() as i128 == n as i128 + 1, "the length counts the new element");
                reach("pushed");
            }
            Err(y) => {
                prove(n == usize::MAX, "pushing fails only at capacity");
                prove(v.len() == n, "the length is the number of elements");
                forget(y);
                reach("full");
            }
        }
        prove(drops_of::<T>(m) == 0, "pushing drops nothing");
        forget(v);
    }
    pub fn pop_counted<T>(n: usize) {
        forbid_panic(true);
        let mut v = counted::<T>(n);
        let m = mark();
        match v.pop() {
            Some(x) => { prove(and(n > 0, v.len() as i128 == n as i128 - 1), "only an element is popped"); forget(x); reach("popped") }
            None => { prove(n == 0, "popping fails only when empty"); reach("empty") }
        }
        prove(drops_of::<T>(m) == 0, "popping drops nothing");
        forget(v);
    }
    pub fn pop<T>(items: &[T]) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let m = mark();
        let r = v.pop();
        prove(drops_of::<T>(m) == 0, "popping drops nothing");
        prove(v.capacity() == cap, "popping keeps the capacity");
        match r {
            Some(x) => {
                prove(n > 0, "only an element is popped");
                prove(same(&x, unsafe { items.as_ptr().add(n - 1) }), "the last element is popped");
                is_vec(&v, p, n as i128 - 1, items, 0);
                forget(x);
                reach("popped");
            }
            None => { prove(n == 0, "popping fails only when empty"); prove(v.len() == 0, "an empty vector stays empty"); reach("empty"); }
        }
        forget(v);
    }
    pub fn truncate<T>(items: &[T], k: usize, i: usize) {
        unwinding(false);
        let n = items.len();
        let x = at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let m = mark();
        v.truncate(k);
        let keep = if k < n { reach("shorter"); k } else { reach("unchanged"); n };
        is_vec(&v, p, keep as i128, items, 0);
        prove(v.capacity() == cap, "truncation keeps the capacity");
        prove(drops_of::<T>(m) == (n - keep) as i128, "exactly the removed elements are destroyed");
        if i >= keep { prove(dropped_n(x, 1), "every removed element is destroyed once"); } else { prove(dropped_n(x, 0), "no other element is destroyed"); }
        forget(v);
    }
    pub fn clear<T>(items: &[T], i: usize) {
        unwinding(false);
        let n = items.len();
        let x = at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let m = mark();
        v.clear();
        prove(v.len() == 0, "the vector is empty");
        prove(v.capacity() == cap, "clearing keeps the capacity");
        prove(drops_of::<T>(m) == n as i128, "exactly the removed elements are destroyed");
        prove(dropped_n(x, 1), "every removed element is destroyed once");
        forget(v);
        reach("cleared");
    }
    pub fn dropped<T>(items: &[T], i: usize) {
        unwinding(false);
        let n = items.len();
        let x = at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        let m = mark();
        drop(v);
        prove(drops_of::<T>(m) == n as i128, "exactly the elements are destroyed");
        prove(dropped_n(x, 1), "every element is destroyed once");
        reach("dropped");
    }
    /// the two parts own the elements before and after
    fn parts<T>(a: &FixedVec<'_, T>, b: &FixedVec<'_, T>, p: *const T, bytes: i128, n: usize, k: usize, items: &[T]) {
        let head = if k < n { k } else { n };
        is_vec(a, p, head as i128, items, 0);
        prove(b.len() as i128 == (n - head) as i128, "the tail has the other elements");
        prove(addr(b.as_slice().as_ptr()) == addr(p) + prod(k as i128, sz::<T>()), "the tail begins at the requested element");
        prove(holds(b.as_slice().as_ptr(), items, head as i128, (n - head) as i128), "the elements of the tail are handed over");
        prove(b.len() <= b.capacity(), "the length never exceeds the capacity");
        prove(or(sz::<T>() == 0, prod(k as i128, sz::<T>()) + prod(b.capacity() as i128, sz::<T>()) <= bytes), "the capacity is inside the memory");
    }
    pub fn split<T>(items: &[T], k: usize) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        assume(k <= cap);
        let m = mark();
        let w = v.split_and_shrink_to(k);
        if sz::<T>() > 0 {
            prove(v.capacity() == k, "the head keeps the requested capacity");
            prove(w.capacity() == cap - k, "the tail has the remaining capacity");
            reach("sized");
        }
        parts(&v, &w, p, bytes, n, k, items);
        prove(drops_of::<T>(m) == 0, "splitting drops nothing");
        prove(no_writes(m, p), "splitting writes nothing");
        forget(v);
        forget(w);
        reach("split");
    }
    pub fn split_dropped<T>(items: &[T], k: usize, i: usize) {
        unwinding(false);
        let n = items.len();
        let x = at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        assume(k <= v.capacity());
        let m = mark();
        let w = v.split_and_shrink_to(k);
        if any() { drop(v); drop(w); } else { drop(w); drop(v); }
        prove(dropped_n(x, 1), "every element is owned by one part");
        prove(drops_of::<T>(m) == n as i128, "every element is owned by one part");
        reach("dropped");
    }
    pub fn split_borrowed<T>(items: &[T], k: usize) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        assume(k <= cap);
        let m = mark();
        {
            let v2: *const FixedVec<'_, T> = &v;
            let w = v.split_borrowed(k);
            if sz::<T>() > 0 { prove(w.capacity() == cap - k, "the tail has the remaining capacity"); reach("sized"); }
            parts(unsafe { &*v2 }, &w, p, bytes, n, k, items);
            forget(w);
        }
        prove(drops_of::<T>(m) == 0, "splitting drops nothing");
        prove(no_writes(m, p), "splitting writes nothing");
        prove(v.capacity() == cap, "all capacity is retained");
        let head = if k < n { k } else { n };
        is_vec(&v, p, head as i128, items, 0);
        forget(v);
        reach("split");
    }
    pub fn split_refused<T>(items: &[T], k: usize) {
        let (mut v, p, bytes) = vec_of(items);
        assume(k > v.capacity());
        if any() { let _ = catch(|| { let _ = forget(v.split_borrowed(k)); prove(false, "a split beyond the capacity is refused"); }); }
        else { let _ = catch(|| { let _ = forget(v.split_and_shrink_to(k)); prove(false, "a split beyond the capacity is refused"); }); }
        is_vec(&v, p, items.len() as i128, items, 0);
        forget(v);
        reach("refused");
    }
    pub fn fill<T>(items: &[T], more: &[T]) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let mut src = Src::new(more);
        let m = mark();
        let _ = v.fill(&mut src);
        let k = src.at;
        prove(drops_of::<T>(m) == 0, "filling drops nothing");
        prove(v.capacity() == cap, "filling keeps the capacity");
        prove(k <= cap - n, "no item is taken without a place for it");
        prove(v.len() as i128 == n as i128 + k as i128, "every item that was taken is stored");
        prove(holds(v.as_slice().as_ptr(), items, 0, n as i128), "the previous elements are kept");
        prove(holds(unsafe { v.as_slice().as_ptr().add(n) }, more, 0, k as i128), "the items are stored in order");
        prove(or(src.ended, v.len() == cap), "filling stops only at the capacity or at the end");
        prove(addr(v.as_slice().as_ptr()) == addr(p), "the slice begins with the memory");
        forget(v);
        reach("filled");
    }
    /// the iterator that is returned goes on where filling stopped
    pub fn fill_rest<T>(items: &[T], more: &[T]) {
        forbid_panic(true);
        let (mut v, p, bytes) = vec_of(items);
        let n = v.len();
        let rest = v.fill(Src::new(more));
        prove(rest.at == v.len() - n, "the iterator continues after the stored items");
        prove(rest.all.as_ptr() == more.as_ptr(), "the iterator is the one that was given");
        forget(v);
        reach("filled");
    }
    pub fn extend<T>(items: &[T], more: &[T]) {
        unwinding(false);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let mut src = Src::new(more);
        let m = mark();
        let r = catch(|| v.extend(Fused(&mut src)));
        let k = src.at;
        prove(v.len() <= cap, "the length never exceeds the capacity");
        prove(v.capacity() == cap, "extending keeps the capacity");
        prove(holds(v.as_slice().as_ptr(), items, 0, n as i128), "the previous elements are kept");
        let got = v.len() - n;
        prove(holds(unsafe { v.as_slice().as_ptr().add(n) }, more, 0, got as i128), "the items are stored in order");
        match r {
            Ok(()) => {
                prove(src.ended, "extending ends with the iterator");
                prove(got == k, "every item is stored");
                prove(drops_of::<T>(m) == 0, "extending drops nothing");
                reach("extended");
            }
            Err(()) => {
                prove(v.len() == cap, "extending fails only at capacity");
                prove(k == got + 1, "extending fails at the first item without a place");
                prove(drops_of::<T>(m) == 1, "the item without a place is dropped");
                prove(dropped_n(unsafe { more.as_ptr().add(got) }, 1), "the item without a place is dropped");
                reach("refused");
            }
        }
        forget(v);
    }
    pub fn borrows<T>(items: &[T]) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let m = mark();
        is_vec(&v, p, n as i128, items, 0);
        prove(v.is_empty() == (n == 0), "emptiness is length zero");
        let s = slice_from_raw_parts_mut(p, n);
        prove(core::ptr::eq(v.as_mut_slice(), s), "the mutable slice exposes exactly the elements");
        prove(v.as_ptr() == p as *const T, "the pointer is that of the memory");
        prove(v.as_mut_ptr() == p, "the pointer is that of the memory");
        prove(no_writes(m, p), "borrowing writes nothing");
        prove(drops_of::<T>(m) == 0, "borrowing drops nothing");
        forget(v);
        reach("borrowed");
    }
    pub fn shrink<T>(items: &[T]) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        let m = mark();
        let rest = v.shrink_to_fit();
        prove(v.capacity() == cap, "shrinking keeps the capacity");
        prove(or(sz::<T>() == 0, addr(rest.as_ptr()) == addr(p) + prod(cap as i128, sz::<T>())), "the rest begins after the capacity");
        prove(or(sz::<T>() == 0, prod(cap as i128, sz::<T>()) + rest.size() as i128 == bytes), "the rest is all memory behind the capacity");
        is_vec(&v, p, n as i128, items, 0);
        prove(no_writes(m, p), "shrinking writes nothing");
        forget(v);
        reach("shrunk");
    }
    pub fn unaligned<T>(mem: &mut [core::mem::MaybeUninit<u8>]) {
        forbid_panic(true);
        let (b, len) = (mem.as_ptr(), mem.len() as i128);
        let u = unsafe { Uninit::from_memory(NonNull::new_unchecked(mem.as_mut_ptr() as *mut u8), mem.len()) };
        let mut v: FixedVec<T> = FixedVec::from_unaligned(u);
        prove(v.len() == 0, "a new vector is empty");
        prove(is_multiple(addr(v.as_ptr()), al::<T>()), "the vector is aligned");
        let bytes = prod(v.capacity() as i128, sz::<T>());
        prove(or(bytes == 0, and(addr(v.as_ptr()) >= addr(b), addr(v.as_ptr()) + bytes <= addr(b) + len)), "the capacity is inside the memory");
        prove(or(bytes == 0, same_object(v.as_ptr(), b)), "the capacity is inside the memory");
        prove(or(pad(addr(b), al::<T>()) + sz::<T>() > len, v.capacity() > 0), "the capacity is as large as possible");
        forget(v);
        reach("made");
    }
    // ---- draining
    fn from(b: Bound<usize>) -> usize { match b { Bound::Included(x) => x, Bound::Excluded(x) => { assume(x < usize::MAX); x + 1 } Bound::Unbounded => 0 } }
    fn upto(b: Bound<usize>, n: usize) -> usize { match b { Bound::Included(x) => { assume(x < usize::MAX); x + 1 } Bound::Excluded(x) => x, Bound::Unbounded => n } }
    /// the elements that a drain still has to yield
    fn remaining<T>(d: &mut Drain<'_, T>, p: *const T, items: &[T], lo: usize, hi: usize) {
        prove(d.len() == hi - lo, "the drain counts the remaining elements");
        prove(d.is_empty() == (lo == hi), "the drain counts the remaining elements");
        let (a, b) = d.size_hint();
        prove(a == hi - lo, "the drain announces the remaining elements");
        match b { Some(b) => prove(b == hi - lo, "the drain announces the remaining elements"), None => prove(false, "the drain announces the remaining elements") }
        prove(ExactSizeIterator::len(d) == hi - lo, "the drain counts the remaining elements");
        let s = d.as_slice();
        prove(s.len() == hi - lo, "the slice of the drain has the remaining elements");
        prove(addr(s.as_ptr()) == addr(p) + prod(lo as i128, sz::<T>()), "the slice of the drain has the remaining elements");
        prove(holds(s.as_ptr(), items, lo as i128, (hi - lo) as i128), "the slice of the drain has the remaining elements");
        let s = s as *const [T];
        prove(core::ptr::eq(d.as_mut_slice(), s), "the slice of the drain has the remaining elements");
    }
    pub fn drain_range<T>(items: &[T], s: Bound<usize>, e: Bound<usize>) {
        forbid_panic(true);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let (lo, hi) = (from(s), upto(e, n));
        assume(and(lo <= hi, hi <= n));
        let m = mark();
        let mut d = v.drain((s, e));
        remaining(&mut d, p, items, lo, hi);
        prove(drops_of::<T>(m) == 0, "nothing is dropped");
        forget(d);
        prove(v.len() == lo, "a leaked drain leaves the elements before the range");
        prove(no_writes(m, p), "a leaked drain leaves the elements before the range");
        is_vec(&v, p, lo as i128, items, 0);
        forget(v);
        reach("drained");
    }
    pub fn drain<T>(items: &[T], lo: usize, hi: usize) {
        unwinding(false);
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let cap = v.capacity();
        assume(and(lo <= hi, hi <= n));
        let m = mark();
        let vp: *const FixedVec<'_, T> = &v;
        let mut d = v.drain(lo..hi);
        let (mut a, mut b) = (lo, hi);
        while any::<bool>() {
            if any() {
                match d.next() {
                    Some(x) => { prove(a < b, "only elements of the range are drained"); prove(same(&x, unsafe { items.as_ptr().add(a) }), "elements are drained in order"); forget(x); a += 1; }
                    None => prove(a == b, "every element of the range is drained"),
                }
            } else {
                match d.next_back() {
                    Some(x) => { prove(a < b, "only elements of the range are drained"); b -= 1; prove(same(&x, unsafe { items.as_ptr().add(b) }), "elements are drained in order"); forget(x); }
                    None => prove(a == b, "every element of the range is drained"),
                }
            }
        }
        remaining(&mut d, p, items, a, b);
        prove(drops_of::<T>(m) == 0, "draining drops nothing");
        drop(d);
        prove(drops_of::<T>(m) == (b - a) as i128, "the elements that were not taken are destroyed");
        prove(v.capacity() == cap, "draining keeps the capacity");
        prove(v.len() == n - (hi - lo), "the vector keeps the other elements");
        prove(addr(v.as_slice().as_ptr()) == addr(p), "the slice begins with the memory");
        prove(holds(p, items, 0, lo as i128), "the elements before the range are kept");
        prove(holds(unsafe { p.add(lo) }, items, hi as i128, (n - hi) as i128), "the elements after the range are kept");
        forget(v);
        reach("drained");
    }
    pub fn drain_refused<T>(items: &[T], s: Bound<usize>, e: Bound<usize>) {
        let n = items.len();
        let (mut v, p, bytes) = vec_of(items);
        let (lo, hi) = (from(s), upto(e, n));
        assume(or(lo > hi, hi > n));
        let m = mark();
        let _ = catch(|| { forget(v.drain((s, e))); prove(false, "a range that is not in the vector is refused"); });
        is_vec(&v, p, n as i128, items, 0);
        prove(drops_of::<T>(m) == 0, "nothing is dropped");
        forget(v);
        reach("refused");
    }
}

/// Every element is dropped at most once, whatever unwinds.
pub mod c24 {
    use super::*;
    fn at_most_once<T>(x: *const T) -> bool { or(sz::<T>() == 0, drops(x) <= 1) }
    /// Src that may panic instead of yielding
    struct Bad<'b, 'a, T>(&'b mut Src<'a, T>);
    impl<'b, 'a, T> Iterator for Bad<'b, 'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { if any() { panic!() } self.0.next() }
    }
    /// what the vector left behind by shrinking to k elements is
    fn left<T>(v: FixedVec<'_, T>, p: *const T, items: &[T], i: usize, keep: usize, failed: bool, m: i128) {
        let n = items.len();
        let x: *const T = unsafe { items.as_ptr().add(i) };
        let len = v.len();
        prove(and(keep <= len, len <= n), "only elements that were to be removed are missing");
        prove(or(failed, len == keep), "all elements that were to be removed are missing");
        is_vec(&v, p, len as i128, items, 0);
        prove(drops_of::<T>(m) == (n - len) as i128, "exactly the missing elements were destroyed");
        if i < len { prove(dropped_n(x, 0), "no element of the vector was destroyed"); } else { prove(dropped_n(x, 1), "every missing element was destroyed once"); }
        let _ = catch(|| drop(v));
        prove(dropped_n(x, 1), "every element is destroyed once");
        prove(drops_of::<T>(m) == n as i128, "every element is destroyed once");
    }
    pub fn truncate<T>(items: &[T], k: usize, i: usize) {
        let n = items.len();
        at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        let m = mark();
        let r = catch(|| v.truncate(k));
        let keep = if k < n { k } else { n };
        match r { Ok(()) => reach("completed"), Err(()) => reach("unwound") }
        left(v, p, items, i, keep, r.is_err(), m);
    }
    pub fn clear<T>(items: &[T], i: usize) {
        at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        let m = mark();
        let r = catch(|| v.clear());
        match r { Ok(()) => reach("completed"), Err(()) => reach("unwound") }
        left(v, p, items, i, 0, r.is_err(), m);
    }
    pub fn dropped<T>(items: &[T], i: usize) {
        let x = at(items, i);
        let (v, p, bytes) = vec_of(items);
        let m = mark();
        match catch(|| drop(v)) { Ok(()) => reach("completed"), Err(()) => reach("unwound") }
        prove(dropped_n(x, 1), "every element is destroyed once");
        prove(drops_of::<T>(m) == items.len() as i128, "every element is destroyed once");
    }
    /// the vector has taken over the first k of the new items, and nothing else
    fn taken<T>(v: FixedVec<'_, T>, p: *const T, items: &[T], more: &[T], k: usize, i: usize, j: usize) {
        let n = items.len();
        prove(v.len() as i128 == n as i128 + k as i128, "the length counts the stored items");
        prove(v.len() <= v.capacity(), "the length never exceeds the capacity");
        prove(addr(v.as_slice().as_ptr()) == addr(p), "the slice begins with the memory");
        prove(holds(v.as_slice().as_ptr(), items, 0, n as i128), "the previous elements are kept");
        prove(holds(unsafe { v.as_slice().as_ptr().add(n) }, more, 0, k as i128), "the items are stored in order");
        let (x, y) = (at(items, i), at(more, j));
        prove(dropped_n(x, 0), "no element of the vector was destroyed");
        if j < k { prove(dropped_n(y, 0), "no element of the vector was destroyed"); }
        let _ = catch(|| drop(v));
        prove(dropped_n(x, 1), "every element is destroyed once");
        if j < k { prove(dropped_n(y, 1), "every element is destroyed once"); } else { prove(at_most_once(y), "no item is destroyed twice"); }
    }
    pub fn fill<T>(items: &[T], more: &[T], i: usize, j: usize) {
        let (mut v, p, bytes) = vec_of(items);
        let mut src = Src::new(more);
        match catch(|| { let _ = v.fill(Bad(&mut src)); }) { Ok(()) => reach("completed"), Err(()) => reach("unwound") }
        let k = src.at;
        taken(v, p, items, more, k, i, j);
    }
    pub fn extend<T>(items: &[T], more: &[T], i: usize, j: usize) {
        let (mut v, p, bytes) = vec_of(items);
        let n = items.len();
        let mut src = Src::new(more);
        match catch(|| v.extend(Bad(&mut src))) { Ok(()) => reach("completed"), Err(()) => reach("unwound") }
        prove(v.len() >= n, "no element is lost");
        let k = v.len() - n;
        prove(k <= src.at, "only items are stored");
        prove(src.at <= k + 1, "at most one item is lost");
        taken(v, p, items, more, k, i, j);
    }
    /// a drain that is leaked after any use
    pub fn leaked<T>(items: &[T], lo: usize, hi: usize, i: usize) {
        let n = items.len();
        let x = at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        assume(and(lo <= hi, hi <= n));
        let m = mark();
        let mut d = v.drain(lo..hi);
        while any::<bool>() { forget(if any() { d.next() } else { d.next_back() }); }
        forget(d);
        is_vec(&v, p, lo as i128, items, 0);
        prove(drops_of::<T>(m) == 0, "a leaked drain destroys nothing");
        let _ = catch(|| drop(v));
        prove(dropped_n(x, if i < lo { 1 } else { 0 }), "the vector owns the elements before the range");
        prove(drops_of::<T>(m) == lo as i128, "the vector owns the elements before the range");
        reach("leaked");
    }
    /// a drain that is dropped, with any destructor unwinding
    pub fn drain<T>(items: &[T], lo: usize, hi: usize, i: usize) {
        let n = items.len();
        let x = at(items, i);
        let (mut v, p, bytes) = vec_of(items);
        assume(and(lo <= hi, hi <= n));
        let m = mark();
        let mut d = v.drain(lo..hi);
        // (the general history: C23)
        let (mut a, mut b) = (lo, hi);
        if any() { if let Some(y) = d.next() { forget(y); a += 1; } }
        if any() { if let Some(y) = d.next_back() { forget(y); b -= 1; } }
        let r = catch(|| drop(d));
        let len = v.len();
        match r {
            Ok(()) => {
                prove(len == n - (hi - lo), "a completed drain puts back the tail");
                reach("completed");
            }
            Err(()) => {
                prove(or(len == lo, len == n - (hi - lo)), "the vector has its elements, perhaps with the tail");
                reach("unwound");
            }
        }
        prove(addr(v.as_slice().as_ptr()) == addr(p), "the slice begins with the memory");
        prove(holds(p, items, 0, lo as i128), "the elements before the range are kept");
        if len > lo { prove(holds(unsafe { p.add(lo) }, items, hi as i128, (n - hi) as i128), "the tail follows the elements before the range"); }
        let _ = catch(|| drop(v));
        prove(at_most_once(x), "no element is destroyed twice");
        if i < lo { prove(dropped_n(x, 1), "every element before the range is destroyed once"); }
        if and(i >= hi, r.is_ok()) { prove(dropped_n(x, 1), "every element of the tail is destroyed once"); }
        if or(and(lo <= i, i < a), and(b <= i, i < hi)) { prove(dropped_n(x, 0), "an element that was moved out is not destroyed"); }
    }
}
