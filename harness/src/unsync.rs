//! The unsynchronised bump allocator: C05, C10, C11.
use crate::g::*;
use core::alloc::Layout;
use core::cell::Cell;
use core::mem::{align_of, size_of, MaybeUninit};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};

const HEADER: i128 = size_of::<usize>() as i128;

/// any state an allocator is in between calls: the level is at most the capacity
fn any_state(b: &MemBump) -> i128 {
    let l = int(&b.level());
    assume(l <= b.capacity() as i128);
    l
}
fn data(b: &MemBump) -> i128 { addr(b) + HEADER }
fn fits(b: &MemBump, level: i128, size: i128, align: i128) -> bool {
    level + pad(data(b) + level, align) + size <= b.capacity() as i128
}

pub mod c10 {
    use super::*;
    fn granted(b: &MemBump, old: i128, p: *const u8, s: i128, a: i128, level: Option<Level>) {
        let new = int(&b.level());
        prove(same_object(p, b), "memory belongs to the allocator");
        prove(addr(p) - data(b) == old + pad(data(b) + old, a), "memory starts at the first aligned address at or after the fill level");
        prove(is_multiple(addr(p), a), "memory is aligned as requested");
        prove(new == addr(p) - data(b) + s, "the new fill level is the end of the memory");
        prove(new <= b.capacity() as i128, "memory is inside the data area");
        prove(new >= old, "the fill level does not move backwards");
        if let Some(l) = level { prove(int(&l) == new, "the reported level is the new fill level"); }
        reach("granted");
    }
    fn refused(b: &MemBump, old: i128, at: Option<i128>, s: i128, a: i128, f: Option<Failure>) {
        prove(int(&b.level()) == old, "a refused request leaves the fill level unchanged");
        match f {
            Some(Failure::Mismatch { observed: o }) => {
                prove(int(&o) == old, "a mismatch reports the current level");
                match at {
                    Some(l) => prove(l != old, "a reported mismatch is one"),
                    None => prove(false, "requests without a level are not refused for a mismatch"),
                }
                reach("mismatch");
            }
            _ => {
                prove(!fits(b, match at { Some(l) => l, None => old }, s, a), "exhaustion is reported only when the request does not fit at the level tried");
                reach("exhausted");
            }
        }
    }
    pub fn alloc(b: &MemBump, layout: Layout) {
        forbid_panic(true);
        assume(layout.size() > 0);
        let (old, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        match b.alloc(layout) { Some(p) => granted(b, old, p.as_ptr(), s, a, None), None => refused(b, old, None, s, a, None) }
    }
    pub fn alloc_at(b: &MemBump, layout: Layout, at: Level) {
        forbid_panic(true);
        assume(layout.size() > 0);
        let (old, s, a) = (any_state(b), layout.size() as i128, layout.align() as i128);
        assume(int(&at) <= b.capacity() as i128);
        match b.alloc_at(layout, at) {
            Ok(p) => { prove(int(&at) == old, "a request at a level succeeds only at that level"); granted(b, old, p.as_ptr(), s, a, None) }
            Err(f) => refused(b, old, Some(int(&at)), s, a, Some(f)),
        }
    }
    pub fn get<V>(b: &MemBump) {
        forbid_panic(true);
        assume(size_of::<V>() > 0);
        let (old, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        match b.get::<V>() { Some(x) => granted(b, old, x.ptr.as_ptr() as *const u8, s, a, Some(x.level)), None => refused(b, old, None, s, a, None) }
    }
    pub fn get_at<V>(b: &MemBump, at: Level) {
        forbid_panic(true);
        assume(size_of::<V>() > 0);
        let (old, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        assume(int(&at) <= b.capacity() as i128);
        match b.get_at::<V>(at) {
            Ok(x) => { prove(int(&at) == old, "a request at a level succeeds only at that level"); granted(b, old, x.ptr.as_ptr() as *const u8, s, a, Some(x.level)) }
            Err(f) => refused(b, old, Some(int(&at)), s, a, Some(f)),
        }
    }
    pub fn bump_box<V>(b: &MemBump) {
        forbid_panic(true);
        assume(size_of::<V>() > 0);
        let (old, s, a) = (any_state(b), size_of::<V>() as i128, align_of::<V>() as i128);
        match b.bump_box::<V>() { Ok(x) => granted(b, old, &*x as *const MaybeUninit<V> as *const u8, s, a, None), Err(f) => refused(b, old, None, s, a, Some(f)) }
    }
    pub fn bump_array<V>(b: &MemBump, n: usize) {
        forbid_panic(true);
        assume(and(size_of::<V>() > 0, n > 0));
        let (old, s, a) = (any_state(b), prod(size_of::<V>() as i128, n as i128), align_of::<V>() as i128);
        match b.bump_array::<V>(n) {
            Ok(x) => {
                prove(x.len() == n, "the slice has the requested number of elements");
                granted(b, old, x.as_ptr() as *const u8, s, a, None)
            }
            Err(f) => refused(b, old, None, s, a, Some(f)),
        }
    }
    pub fn reset(b: &mut MemBump) {
        forbid_panic(true);
        let _ = any_state(b);
        b.reset();
        prove(int(&b.level()) == 0, "a reset empties the allocator");
        reach("reset");
    }
    /// looking at the allocator does not change it
    pub fn observers(b: &MemBump) {
        forbid_panic(true);
        let old = any_state(b);
        let c = b.capacity();
        let p = b.data_ptr();
        prove(int(&b.level()) == old, "observing leaves the fill level unchanged");
        prove(addr(p.as_ptr()) == data(b), "the data area follows the header");
        prove(in_bounds(p.as_ptr(), c as i128), "the data area is inside the allocator");
        reach("observed");
    }
}

pub mod c05u {
    use super::*;
    fn pointer<V>(b: &MemBump, old: i128, p: *const V) {
        prove(int(&b.level()) == old, "a zero-sized value consumes nothing");
        prove(addr(p) != 0, "pointers to zero-sized values are not null");
        prove(is_multiple(addr(p), align_of::<V>() as i128), "pointers to zero-sized values are aligned");
        reach("granted");
    }
    pub fn get<V>(b: &MemBump) {
        forbid_panic(true);
        assume(size_of::<V>() == 0);
        let old = any_state(b);
        match b.get::<V>() {
            Some(x) => { prove(int(&x.level) == old, "the reported level is the current one"); pointer(b, old, x.ptr.as_ptr()) }
            None => prove(false, "a zero-sized value never exhausts the allocator"),
        }
    }
    pub fn get_at<V>(b: &MemBump, at: Level) {
        forbid_panic(true);
        assume(size_of::<V>() == 0);
        let old = any_state(b);
        match b.get_at::<V>(at) {
            Ok(x) => {
                prove(int(&at) == old, "success only at the current level");
                prove(int(&x.level) == old, "the reported level is the current one");
                pointer(b, old, x.ptr.as_ptr())
            }
            Err(Failure::Exhausted) => prove(false, "a zero-sized value never exhausts the allocator"),
            Err(Failure::Mismatch { observed: o }) => {
                prove(int(&b.level()) == old, "a zero-sized value consumes nothing");
                prove(int(&at) != old, "a reported mismatch is one");
                prove(int(&o) == old, "the reported level is the current one");
                reach("mismatch");
            }
        }
    }
    pub fn bump_box<V>(b: &MemBump) {
        forbid_panic(true);
        assume(size_of::<V>() == 0);
        let old = any_state(b);
        match b.bump_box::<V>() { Ok(x) => pointer(b, old, &*x), Err(_) => prove(false, "a zero-sized value never exhausts the allocator") }
    }
    pub fn bump_array<V>(b: &MemBump, n: usize) {
        forbid_panic(true);
        assume(or(size_of::<V>() == 0, n == 0));
        let old = any_state(b);
        match b.bump_array::<V>(n) {
            Ok(x) => { prove(x.len() == n, "the slice has the requested number of elements"); pointer(b, old, x.as_ptr()) }
            Err(_) => prove(false, "a zero-sized value never exhausts the allocator"),
        }
    }
}

pub mod c11 {
    use super::*;
    use core::mem::size_of_val;
    /// an allocator over memory with these bounds: header and capacity inside, aligned, empty
    fn inside(b: &MemBump, start: i128, len: i128) {
        prove(addr(b) >= start, "the allocator does not begin before the memory it was made from");
        prove(addr(b) + size_of_val(b) as i128 <= start + len, "the allocator does not end behind the memory it was made from");
        prove(is_multiple(addr(b), align_of::<usize>() as i128), "the header is aligned");
        prove(HEADER + b.capacity() as i128 <= size_of_val(b) as i128, "header and capacity fit into the allocator");
        prove(addr(b.data_ptr().as_ptr()) == data(b), "the data area follows the header");
    }
    fn empty(b: &MemBump) { prove(int(&b.level()) == 0, "a new allocator is empty"); reach("made"); }
    pub fn uninit<T>() { forbid_panic(true); let b = Bump::<T>::uninit(); inside(&b, addr(&b), size_of::<Bump<T>>() as i128); empty(&b) }
    pub fn zeroed<T>() { forbid_panic(true); let b = Bump::<T>::zeroed(); inside(&b, addr(&b), size_of::<Bump<T>>() as i128); empty(&b) }
    pub fn deref<T>(b: &Bump<T>) {
        forbid_panic(true);
        let m: &MemBump = b;
        prove(same_object(m, b), "the view is the allocator");
        prove(addr(m) == addr(b), "the view is the allocator");
        prove(fits(m, 0, size_of::<T>() as i128, align_of::<T>() as i128), "there is room for one value of the storage type");
        inside(m, addr(b), size_of::<Bump<T>>() as i128);
        prove(field::<Bump<T>, Cell<usize>>(b) as *const u8 == m as *const MemBump as *const u8, "the header is the fill level");
        reach("made");
    }
    pub fn deref_mut<T>(b: &mut Bump<T>) {
        forbid_panic(true);
        let start = addr(b as *const Bump<T>);
        let m: &mut MemBump = b;
        prove(addr(m as *const MemBump) == start, "the view is the allocator");
        prove(fits(m, 0, size_of::<T>() as i128, align_of::<T>() as i128), "there is room for one value of the storage type");
        inside(m, start, size_of::<Bump<T>>() as i128);
        reach("made");
    }
    pub fn from_mem(mem: &mut [MaybeUninit<u8>]) {
        forbid_panic(true);
        let (p, n) = (mem.as_mut_ptr(), mem.len() as i128);
        let m = mark();
        match MemBump::from_mem(mem) {
            Ok(b) => {
                prove(same_object(&*b, p), "the allocator is in the memory it was made from");
                inside(&b, addr(p), n);
                prove(writes_within(m, &*b as *const MemBump as *const u8, HEADER), "only the header is written");
                // nothing that could have been used for whole words is given away
                prove(addr(&*b) - addr(p) == pad(addr(p), align_of::<usize>() as i128), "the allocator begins at the first aligned address");
                prove(n - (addr(&*b) - addr(p)) - size_of_val(&*b) as i128 <= align_of::<usize>() as i128 - 1, "the allocator covers the memory");
                empty(&b);
            }
            Err(_) => {
                prove(pad(addr(p), align_of::<usize>() as i128) + HEADER > n, "only memory without space for the header is rejected");
                prove(untouched(m, p, n), "rejected memory is not touched");
                reach("rejected");
            }
        }
    }
    pub fn from_mem_unchecked(mem: &mut [MaybeUninit<u8>]) {
        let (p, n) = (mem.as_mut_ptr(), mem.len() as i128);
        assume(is_multiple(addr(p), align_of::<usize>() as i128));
        assume(n >= HEADER);
        forbid_panic(true);
        let m = mark();
        let b = unsafe { MemBump::from_mem_unchecked(mem) };
        prove(addr(&*b) == addr(p), "the allocator begins with the memory");
        inside(&b, addr(p), n);
        prove(no_writes(m, p), "a restored allocator keeps its header");
        reach("made");
    }
    pub fn into_mem(b: &mut MemBump) {
        forbid_panic(true);
        let (p, n) = (addr(b as *const MemBump), size_of_val(&*b) as i128);
        let q = b as *const MemBump;
        let lb = unsafe { LeakBox::from_mut_unchecked(b) };
        let mem = MemBump::into_mem(lb);
        prove(same_object(mem.as_ptr(), q), "the memory is that of the allocator");
        prove(addr(mem.as_ptr()) == p, "the memory begins with the allocator");
        prove(mem.len() as i128 == n, "the memory is exactly that of the allocator");
        reach("unmade");
    }
    /// there and back again
    pub fn round_trip(mem: &mut [MaybeUninit<u8>]) {
        forbid_panic(true);
        let (p, n) = (mem.as_mut_ptr(), mem.len() as i128);
        if let Ok(b) = MemBump::from_mem(mem) {
            let mem = MemBump::into_mem(b);
            prove(same_object(mem.as_ptr(), p), "the memory is that of the allocator");
            prove(addr(mem.as_ptr()) >= addr(p), "no byte before the original memory");
            prove(addr(mem.as_ptr()) + mem.len() as i128 <= addr(p) + n, "no byte after the original memory");
            reach("unmade");
        }
    }
    pub fn heap(n: usize) {
        let m = mark();
        let b = MemBump::new(n);
        prove(allocs(m) == 1, "one block is requested");
        prove(b.capacity() == n, "the capacity is the requested one");
        inside(&b, addr(&*b), obj_size(&*b as *const MemBump as *const u8));
        empty(&b);
        let d = mark();
        drop(b);
        prove(deallocs(d) == 1, "the block is released once");
        prove(live_heap() == 0, "the block is released once");
        reach("released");
    }
}
