//! The exit stack: C18, C19.
use crate::g::*;
use core::mem::{forget, size_of};
use core::pin::Pin;
use core::ptr::drop_in_place;
use exit_stack::ExitStack;
use static_alloc::unsync::MemBump;

fn ptr<M>(s: &Pin<&mut ExitStack<M>>) -> *const ExitStack<M> { &**s }
fn memory<'a, M>(s: &Pin<&mut ExitStack<M>>) -> &'a MemBump { unsafe { &*bump_in(ptr(s)) } }
/// a stack after any history: some values are pinned, some memory is used
fn any_state<M, U>(s: &Pin<&mut ExitStack<M>>) -> *const [U] {
    let b = memory(s);
    assume(int(&b.level()) <= b.capacity() as i128);
    let l = list_in::<_, U>(ptr(s));
    // values take memory
    assume(or(l.len() == 0, int(&b.level()) > 0));
    l
}
fn level<M>(s: &Pin<&mut ExitStack<M>>) -> i128 { int(&memory(s).level()) }
fn guard<M>(s: &Pin<&mut ExitStack<M>>) { watch(field::<_, core::cell::Cell<usize>>(ptr(s)) as *const usize) }

pub mod c18 {
    use super::*;
    pub fn pop<M: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        guard(&s);
        let m = mark();
        s.as_mut().pop_all();
        unwatch();
        prove(dropped_in_order(m, l), "popping drops every pinned value once, last in first out");
        prove(level(&s) == 0, "popping frees all memory");
        let m = mark();
        s.as_mut().pop_all();
        prove(drops_of::<U>(m) == 0, "popped values are not dropped again");
        reach("popped");
    }
    pub fn end<M: 'static, U: 'static>(s: Pin<&mut ExitStack<M>>) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        guard(&s);
        let m = mark();
        unsafe { drop_in_place(s.get_unchecked_mut()) }
        prove(dropped_in_order(m, l), "dropping the stack drops every pinned value once, last in first out");
        prove(drops_of::<M>(m) == 0, "nothing else is dropped");
        reach("dropped");
    }
    pub fn pin<M: 'static, T: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: T) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        let v0 = snap(&v);
        let before = level(&s);
        let all = ptr(&s);
        let m = mark();
        let Some(slot) = s.as_ref().slot::<T>() else {
            prove(level(&s) == before, "a refused slot takes no memory");
            prove(drops_of::<U>(m) == 0, "a refused slot drops nothing");
            forget(v);
            reach("refused");
            return
        };
        let p = slot.pin(v);
        let at: *const T = &*p;
        prove(drops_of::<T>(m) == 0, "the value is moved, not dropped");
        prove(drops_of::<U>(m) == 0, "pinning drops nothing");
        prove(same(at, &v0), "the value is stored");
        prove(same_object(at, all), "values are stored inside the stack");
        guard(&s);
        let m = mark();
        s.as_mut().pop_all();
        unwatch();
        prove(drops_of::<T>(m) == 1, "a pinned value is dropped once");
        prove(dropped_at(&v0, at), "a pinned value is dropped where it is");
        prove(dropped_before(m, l, &v0), "a value is dropped before those pinned earlier");
        prove(dropped_in_order(m, l), "values pinned earlier are dropped once, last in first out");
        reach("pinned");
    }
    /// slots that are taken and filled in any order
    pub fn slots_reverse<M: 'static, T: 'static, V: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: T, w: V) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        let (v0, w0) = (snap(&v), snap(&w));
        let m = mark();
        let (Some(a), Some(b)) = (s.as_ref().slot::<T>(), s.as_ref().slot::<V>()) else { forget(v); forget(w); return };
        let q = b.pin(w);
        let p = a.pin(v);
        let (at, aq): (*const T, *const V) = (&*p, &*q);
        prove(same(at, &v0), "the values are stored");
        prove(same(aq, &w0), "the values are stored");
        guard(&s);
        s.as_mut().pop_all();
        unwatch();
        prove(and(drops_of::<T>(m) == 1, drops_of::<V>(m) == 1), "a pinned value is dropped once");
        prove(drop_order(&v0, &w0), "the value that was pinned last is dropped first");
        prove(and(dropped_at(&v0, at), dropped_at(&w0, aq)), "a pinned value is dropped where it is");
        prove(dropped_before(m, l, &w0), "a value is dropped before those pinned earlier");
        reach("in reverse");
        prove(dropped_in_order(m, l), "values pinned earlier are dropped once, last in first out");
    }
    pub fn slots_in_order<M: 'static, T: 'static, V: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: T, w: V) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        let (v0, w0) = (snap(&v), snap(&w));
        let m = mark();
        let (Some(a), Some(b)) = (s.as_ref().slot::<T>(), s.as_ref().slot::<V>()) else { forget(v); forget(w); return };
        let p = a.pin(v);
        let q = b.pin(w);
        let (at, aq): (*const T, *const V) = (&*p, &*q);
        prove(same(at, &v0), "the values are stored");
        prove(same(aq, &w0), "the values are stored");
        guard(&s);
        s.as_mut().pop_all();
        unwatch();
        prove(and(drops_of::<T>(m) == 1, drops_of::<V>(m) == 1), "a pinned value is dropped once");
        prove(drop_order(&w0, &v0), "the value that was pinned last is dropped first");
        prove(and(dropped_at(&v0, at), dropped_at(&w0, aq)), "a pinned value is dropped where it is");
        prove(dropped_before(m, l, &v0), "a value is dropped before those pinned earlier");
        reach("in order");
        prove(dropped_in_order(m, l), "values pinned earlier are dropped once, last in first out");
    }
    pub fn slot_dropped<M: 'static, T: 'static, V: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: T, w: V) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        let (v0, w0) = (snap(&v), snap(&w));
        let m = mark();
        let (Some(a), Some(b)) = (s.as_ref().slot::<T>(), s.as_ref().slot::<V>()) else { forget(v); forget(w); return };
        drop(a);
        forget(v);
        let _ = b.pin(w);
        s.as_mut().pop_all();
        prove(and(drops_of::<T>(m) == 0, drops_of::<V>(m) == 1), "only pinned values are dropped");
        prove(dropped_before(m, l, &w0), "a value is dropped before those pinned earlier");
        reach("one dropped");
        prove(dropped_in_order(m, l), "values pinned earlier are dropped once, last in first out");
    }
    pub fn unsafe_pin<M: 'static, T: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: T) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        let v0 = snap(&v);
        let m = mark();
        let Some(slot) = s.as_ref().slot::<T>() else { forget(v); return };
        let p = unsafe { slot.pin_local(v) };
        let at: *const T = &*p;
        prove(same(at, &v0), "the value is stored");
        guard(&s);
        s.as_mut().pop_all();
        unwatch();
        prove(drops_of::<T>(m) == 1, "a pinned value is dropped once");
        prove(dropped_at(&v0, at), "a pinned value is dropped where it is");
        prove(dropped_before(m, l, &v0), "a value is dropped before those pinned earlier");
        prove(dropped_in_order(m, l), "values pinned earlier are dropped once, last in first out");
        reach("pinned");
    }
    pub fn set<M: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: M) {
        forbid_panic(true);
        let l = any_state::<M, U>(&s);
        let v0 = snap(&v);
        let all = ptr(&s);
        guard(&s);
        let m = mark();
        let p = s.as_mut().set(v);
        unwatch();
        let at: *const M = &*p;
        prove(dropped_in_order(m, l), "earlier values are dropped once, last in first out");
        prove(drops_of::<M>(m) == 0, "the value is moved, not dropped");
        prove(same(at, &v0), "the value is stored");
        prove(same_object(at, all), "values are stored inside the stack");
        let m = mark();
        guard(&s);
        unsafe { drop_in_place(s.get_unchecked_mut()) }
        prove(drops_of::<M>(m) == 1, "a pinned value is dropped once");
        prove(drops_of::<U>(m) == 0, "popped values are not dropped again");
        prove(dropped_at(&v0, at), "a pinned value is dropped where it is");
        reach("set");
    }
    pub fn new<M: 'static>() {
        forbid_panic(true);
        let mut st = ExitStack::<M>::new();
        let mut s = unsafe { Pin::new_unchecked(&mut st) };
        prove(level(&s) == 0, "a new stack is empty");
        prove(s.as_ref().slot::<M>().is_some(), "a new stack has place for one value");
        let m = mark();
        s.as_mut().pop_all();
        prove(drops_of::<M>(m) == 0, "a new stack holds no values");
        reach("new");
    }
}
pub mod c19 {
    use super::*;
    pub fn pop<M: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>) {
        let l = any_state::<M, U>(&s);
        guard(&s);
        let m = mark();
        unwinding(true);
        let r = catch(|| s.as_mut().pop_all());
        unwinding(false);
        unwatch();
        prove(dropped_in_order(m, l), "every pinned value is dropped once before the unwinding leaves the stack");
        let m = mark();
        unsafe { drop_in_place(s.get_unchecked_mut()) }
        prove(drops_of::<U>(m) == 0, "no value is dropped twice");
        if r.is_err() { reach("unwound") } else { reach("popped") }
    }
    pub fn end<M: 'static, T: 'static, U: 'static>(s: Pin<&mut ExitStack<M>>, v: T) {
        let l = any_state::<M, U>(&s);
        let v0 = snap(&v);
        let Some(slot) = s.as_ref().slot::<T>() else { forget(v); return };
        let p = slot.pin(v);
        guard(&s);
        let m = mark();
        unwinding(true);
        let r = catch(|| unsafe { drop_in_place(s.get_unchecked_mut()) });
        unwinding(false);
        prove(drops_of::<T>(m) == 1, "every pinned value is dropped once before the unwinding leaves the stack");
        prove(dropped_in_order(m, l), "every pinned value is dropped once before the unwinding leaves the stack");
        prove(dropped_before(m, l, &v0), "values are dropped last in first out");
        if r.is_err() { reach("unwound") } else { reach("dropped") }
    }
    pub fn set<M: 'static, U: 'static>(mut s: Pin<&mut ExitStack<M>>, v: M) {
        let l = any_state::<M, U>(&s);
        let v0 = snap(&v);
        guard(&s);
        let m = mark();
        unwinding(true);
        let r = catch(|| { s.as_mut().set(v); });
        unwinding(false);
        unwatch();
        prove(dropped_in_order(m, l), "every pinned value is dropped once before the unwinding leaves the stack");
        prove(drops_of::<M>(m) == if r.is_err() { 1 } else { 0 }, "a value that was not pinned is dropped");
        let m = mark();
        unsafe { drop_in_place(s.get_unchecked_mut()) }
        prove(drops_of::<U>(m) == 0, "no value is dropped twice");
        prove(drops_of::<M>(m) == if r.is_err() { 0 } else { 1 }, "every value is dropped once");
        if r.is_err() { reach("unwound") } else { reach("set") }
    }
}
