//! Filling containers from iterators: C29, C30.
use crate::g::*;
use core::mem::size_of;
use core::ptr::read;
use fill::Fill;

fn sz<T>() -> i128 { size_of::<T>() as i128 }

/// The most general iterator: at each call it yields the next of its items or signals an end (also
/// repeatedly, and it may go on afterwards).
pub struct Src<'a, T> { pub all: &'a [T], pub at: usize, pub ended: bool, pub after: bool }
impl<'a, T> Src<'a, T> { pub fn new(all: &'a [T]) -> Self { Src { all, at: 0, ended: false, after: false } } }
impl<'a, T> Iterator for Src<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended { self.after = true; }
        if self.at >= self.all.len() || any::<bool>() { self.ended = true; return None }
        let x = unsafe { read(self.all.as_ptr().add(self.at)) };
        self.at += 1;
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { any() }
}
/// mutable references to the items
pub struct SrcM<'a, T> { all: &'a mut [T], at: usize, ended: bool }
impl<'a, T> Iterator for SrcM<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.at >= self.all.len() || any::<bool>() { self.ended = true; return None }
        let x = unsafe { &mut *self.all.as_mut_ptr().add(self.at) };
        self.at += 1;
        Some(x)
    }
}
/// the same for results: all items, then perhaps an error
pub struct SrcR<'a, T, E> { all: &'a [T], at: usize, ended: bool, err: Option<E>, failed: bool, after: bool }
impl<'a, T, E> Iterator for SrcR<'a, T, E> {
    type Item = Result<T, E>;
    fn next(&mut self) -> Option<Result<T, E>> {
        if self.failed || self.ended { self.after = true; }
        if self.err.is_some() && any::<bool>() { self.failed = true; return self.err.take().map(Err) }
        if self.at >= self.all.len() || any::<bool>() { self.ended = true; return None }
        let x = unsafe { read(self.all.as_ptr().add(self.at)) };
        self.at += 1;
        Some(Ok(x))
    }
}
/// The most general container: takes items as it likes, checks their order.
pub struct Any<'a, T> { expect: &'a [T], got: usize, ended: bool }
impl<'a, T> Fill<T> for Any<'a, T> {
    fn fill<I>(&mut self, iter: I) where I: IntoIterator<Item = T> {
        let mut iter = iter.into_iter();
        while any::<bool>() {
            match iter.next() {
                Some(x) => {
                    prove(same(&x, unsafe { self.expect.as_ptr().add(self.got) }), "items arrive in order");
                    core::mem::forget(x);
                    self.got += 1;
                }
                None => { self.ended = true; }
            }
        }
    }
}
/// A container that stops at the first end it sees.
pub struct Polite<'a, T> { expect: &'a [T], got: usize, ended: bool }
impl<'a, T> Fill<T> for Polite<'a, T> {
    fn fill<I>(&mut self, iter: I) where I: IntoIterator<Item = T> {
        let mut iter = iter.into_iter();
        while any::<bool>() {
            match iter.next() {
                Some(x) => {
                    prove(same(&x, unsafe { self.expect.as_ptr().add(self.got) }), "items arrive in order");
                    core::mem::forget(x);
                    self.got += 1;
                }
                None => { self.ended = true; break }
            }
        }
    }
}

pub mod c29 {
    use super::*;
    macro_rules! growable { ($name:ident, $ty:ty) => {
        pub fn $name<T>(v: &mut $ty, items: &[T]) {
            forbid_panic(true);
            let (len, cap) = (v.len(), v.capacity());
            let old = seq_of(contents::<_, T>(v));
            let mut src = Src::new(items);
            let m = mark();
            v.fill(&mut src);
            let k = src.at;
            prove(v.capacity() == cap, "filling does not reallocate");
            prove(notes(m, "reallocation") == 0, "filling does not reallocate");
            prove(v.len() as i128 == len as i128 + k as i128, "every item that was taken is stored");
            prove(k <= cap - len, "no item is taken without a place for it");
            let c = contents::<_, T>(v);
            prove(holds(c as *const T, old, 0, len as i128), "the previous elements are kept");
            prove(holds(unsafe { (c as *const T).add(len) }, items, 0, k as i128), "the items are stored in order");
            prove(or(src.ended, v.len() == cap), "filling stops only at the capacity or at the end");
            prove(drops_of::<T>(m) == 0, "no item is dropped");
            reach("filled");
        }
    } }
    growable!(vec, Vec<T>);
    growable!(deque, std::collections::VecDeque<T>);

    pub fn option<T>(o: &mut Option<T>, items: &[T]) {
        forbid_panic(true);
        let was = snap(o);
        let full = o.is_some();
        let mut src = Src::new(items);
        let m = mark();
        o.fill(&mut src);
        prove(drops_of::<T>(m) == 0, "no item is dropped");
        if full {
            prove(and(src.at == 0, !src.ended), "a full option takes nothing");
            prove(same(o, &was), "a full option is unchanged");
            reach("full");
        } else {
            prove(!src.after, "the source is asked at most once");
            match o {
                Some(x) => { prove(src.at == 1, "one item is taken"); prove(same(x, items.as_ptr()), "the item is stored"); reach("taken"); }
                None => { prove(and(src.at == 0, src.ended), "an option stays empty only at the end"); reach("empty"); }
            }
        }
    }
    pub fn unit(items: &[()]) {
        forbid_panic(true);
        let mut src = Src::new(items);
        ().fill(&mut src);
        prove(src.ended, "the unit takes all items up to the end");
        reach("filled");
    }
    /// a slice iterator replaces elements and moves on
    pub fn slice<T>(s: &mut [T], items: &[T]) {
        forbid_panic(true);
        assume(sz::<T>() > 0);
        let n = s.len();
        let old = seq_of(s);
        let p = s.as_ptr();
        let mut it = s.iter_mut();
        let mut src = Src::new(items);
        let m = mark();
        it.fill(&mut src);
        let k = src.at;
        prove(k <= n, "no item is taken without a place for it");
        prove(it.len() == n - k, "the iterator advances by the items stored");
        prove(or(src.ended, k == n), "filling stops only at the capacity or at the end");
        prove(holds(p, items, 0, k as i128), "the items are stored in order");
        prove(holds(unsafe { p.add(k) }, unsafe { core::slice::from_raw_parts((old as *const T).add(k), n - k) }, 0, (n - k) as i128), "the other elements are kept");
        prove(drops_of::<T>(m) == k as i128, "each replaced element is dropped once");
        reach("filled");
    }
    /// ... or swaps them with those of the source
    pub fn slice_swap<T>(s: &mut [T], o: &mut [T]) {
        forbid_panic(true);
        assume(sz::<T>() > 0);
        let n = s.len();
        let (old, old2) = (seq_of(s), seq_of(o));
        let (p, q) = (s.as_ptr(), o.as_ptr());
        let l = o.len();
        let mut it = s.iter_mut();
        let mut src = SrcM { at: 0, all: o, ended: false };
        let m = mark();
        it.fill(&mut src);
        let k = src.at;
        prove(k <= n, "no item is taken without a place for it");
        prove(it.len() == n - k, "the iterator advances by the items stored");
        prove(or(src.ended, k == n), "filling stops only at the capacity or at the end");
        prove(holds(p, old2, 0, k as i128), "the items are stored in order");
        prove(holds(q, old, 0, k as i128), "the replaced elements go to the source");
        prove(holds(unsafe { p.add(k) }, unsafe { core::slice::from_raw_parts((old as *const T).add(k), n - k) }, 0, (n - k) as i128), "the other elements are kept");
        prove(holds(unsafe { q.add(k) }, unsafe { core::slice::from_raw_parts((old2 as *const T).add(k), l - k) }, 0, (l - k) as i128), "the other items are kept");
        prove(drops_of::<T>(m) == 0, "no element is dropped");
        reach("filled");
    }
    pub fn vec_zst(v: &mut Vec<()>, items: &[()]) {
        let (len, cap) = (v.len(), v.capacity());
        let mut src = Src::new(items);
        v.fill(&mut src);
        prove(v.len() as i128 == len as i128 + src.at as i128, "every item that was taken is stored");
        prove(src.at <= cap - len, "no item is taken without a place for it");
        prove(or(src.ended, v.len() == cap), "filling stops only at the capacity or at the end");
        reach("filled");
    }
    /// any container inside a result
    pub fn result_ok<T, E>(items: &[T], e: Option<E>) {
        forbid_panic(true);
        let has = e.is_some();
        let e0 = snap(&e);
        let mut src = SrcR { all: items, at: 0, ended: false, err: e, failed: false, after: false };
        let mut r: Result<Any<T>, E> = Ok(Any { expect: items, got: 0, ended: false });
        let m = mark();
        r.fill(&mut src);
        prove(drops_of::<E>(m) == 0, "no error is dropped");
        prove(drops_of::<T>(m) == 0, "no item is dropped");
        prove(!src.after, "the source is not asked again after its end or an error");
        match &r {
            Ok(c) => {
                prove(!src.failed, "an error that was taken replaces the container");
                prove(c.got == src.at, "the container got every item that was taken");
                reach("filled");
            }
            Err(x) => {
                prove(src.failed, "only an error of the source replaces the container");
                let y = Some(unsafe { read(x) });
                prove(same(&y, &e0), "the error is that of the source");
                core::mem::forget(y);
                reach("failed");
            }
        }
        core::mem::forget(r);
        core::mem::forget(src);
    }
    pub fn result_err<T, E>(items: &[T], e: Option<E>, own: E) {
        forbid_panic(true);
        let own0 = snap(&own);
        let had = e.is_some();
        let mut src = SrcR { all: items, at: 0, ended: false, err: e, failed: false, after: false };
        let mut r: Result<Any<T>, E> = Err(own);
        let m = mark();
        r.fill(&mut src);
        prove(drops_of::<E>(m) == 0, "no error is dropped");
        prove(and(src.at == 0, and(!src.ended, !src.failed)), "a failed result takes nothing");
        prove(src.err.is_some() == had, "a failed result takes nothing");
        match &r { Ok(_) => prove(false, "a failed result stays failed"), Err(x) => prove(same(x, &own0), "a failed result keeps its error") }
        core::mem::forget(r);
        core::mem::forget(src);
        reach("unchanged");
    }
}
pub mod c30 {
    use super::*;
    pub fn keep_tail<T>(items: &[T]) {
        forbid_panic(true);
        let mut c = Any { expect: items, got: 0, ended: false };
        let src = Src::new(items);
        let t = c.fill_and_keep_tail(src);
        prove(t.at == c.got, "the tail is the iterator as the fill left it");
        prove(or(!c.ended, t.ended), "the tail is the iterator as the fill left it");
        prove(same_object(t.all.as_ptr(), items.as_ptr()), "the tail is the same iterator");
        reach("kept");
    }
    pub fn count<T>(items: &[T]) {
        forbid_panic(true);
        let mut c = Any { expect: items, got: 0, ended: false };
        let mut src = Src::new(items);
        let n = c.fill_count(&mut src);
        prove(n == c.got, "the count is that of the items taken");
        prove(n == src.at, "the count is that of the items taken");
        reach("counted");
    }
    pub fn checked<T>(items: &[T]) {
        forbid_panic(true);
        let mut c = Any { expect: items, got: 0, ended: false };
        let mut src = Src::new(items);
        let r = c.checked_fill(&mut src);
        match r {
            Some(t) => {
                prove(t.at == c.got, "the tail continues with the next item");
                prove(!t.ended, "a tail is returned only if the source did not end");
                reach("tail");
            }
            None => reach("ended"),
        }
        prove(src.at == c.got, "no item is lost");
        if src.ended { reach("source ended"); }
    }
    pub fn checked_none<T>(items: &[T]) {
        forbid_panic(true);
        let mut c = Polite { expect: items, got: 0, ended: false };
        let mut src = Src::new(items);
        if c.checked_fill(&mut src).is_none() {
            prove(src.ended, "nothing is returned only if the source ended");
            reach("ended");
        }
        prove(src.at == c.got, "no item is lost");
    }
}
