//! Ghost operations. They have no body: the analyser gives them their meaning.
use core::mem::ManuallyDrop;

/// An immaterial copy of a value; never dropped.
pub struct Snap<T>(ManuallyDrop<T>);

macro_rules! ghost { ($($(#[$a:meta])* fn $n:ident $(<$($t:ident),*>)? ($($x:ident : $ty:ty),*) $(-> $r:ty)?;)*) => {
    $($(#[$a])* #[inline(never)] pub fn $n $(<$($t),*>)? ($($x : $ty),*) $(-> $r)? { $(let _ = $x;)* unimplemented!() })*
} }
ghost! {
    /// an arbitrary value
    fn any<T>() -> T;
    fn assume(b: bool);
    /// an obligation
    fn prove(b: bool, label: &'static str);
    /// this point has to be reachable (guards against vacuous contracts)
    fn reach(label: &'static str);
    /// `a || b`, `a && b`, `a -> b` without a case distinction
    fn or(a: bool, b: bool) -> bool;
    fn and(a: bool, b: bool) -> bool;
    fn imp(a: bool, b: bool) -> bool;
    /// the integer inside a newtype
    fn int<T>(x: &T) -> i128;
    /// `x` is a multiple of `a`
    fn is_multiple(x: i128, a: i128) -> bool;
    /// distance from `x` to the next multiple of the power of two `a`
    fn pad(x: i128, a: i128) -> i128;
    fn prod(x: i128, y: i128) -> i128;
    /// start a new section of the event log
    fn mark() -> i128;
    /// atomic read-modify-write events / plain atomic stores since the mark
    fn claims(m: i128) -> i128;
    fn stores(m: i128) -> i128;
    fn claim_old(m: i128, i: i128) -> i128;
    fn claim_new(m: i128, i: i128) -> i128;
    /// some atomic read since the mark yielded `x`
    fn observed(m: i128, x: i128) -> bool;
    /// the i-th value read from an atomic since the mark (0 if there are fewer)
    fn observation(m: i128, i: i128) -> i128;
    /// a failed compare-exchange after another one expected what that one observed
    fn informed_retries(m: i128) -> bool;
    /// from here on, loops are unrolled and must end after n rounds
    fn bounded_loops(n: i128);
    /// put an entry into the event log; number of such entries since the mark
    fn note(l: &'static str);
    fn notes(m: i128, l: &'static str) -> i128;
    /// a named ghost variable
    fn put(l: &'static str, x: i128);
    fn get(l: &'static str) -> i128;
    fn allocs(m: i128) -> i128;
    fn deallocs(m: i128) -> i128;
    fn panics(m: i128) -> i128;
    fn user_calls(m: i128, name: &'static str) -> i128;
    fn live_heap() -> i128;
    /// the word at p keeps its value until all values are dropped
    fn watch(p: *const usize);
    fn unwatch();
    fn unwinding(b: bool);
    fn forbid_panic(b: bool);
    fn alloc_may_fail(b: bool);
    fn debug(l: &'static str);
    /// memory of n bytes provided by the environment, contents unknown
    fn lend(n: i128, align: i128) -> *mut u8;
}
macro_rules! ghost_u { ($($(#[$a:meta])* fn $n:ident <$($t:ident),*> ($($x:ident : $ty:ty),*) $(-> $r:ty)?;)*) => {
    $($(#[$a])* #[inline(never)] pub fn $n <$($t: ?Sized),*> ($($x : $ty),*) $(-> $r)? { $(let _ = $x;)* unimplemented!() })*
} }
ghost_u! {
    /// number of values of type T dropped since the mark
    fn drops_of<T>(m: i128) -> i128;
    fn addr<T>(p: *const T) -> i128;
    /// start, size and alignment of the object p points into; offset of p in it
    fn base<T>(p: *const T) -> i128;
    fn obj_size<T>(p: *const T) -> i128;
    fn obj_align<T>(p: *const T) -> i128;
    fn offset_in<T>(p: *const T) -> i128;
    fn is_memory<T>(p: *const T) -> bool;
    fn alive<T>(p: *const T) -> bool;
    /// [p, p+n) lies inside the object of p
    fn in_bounds<T>(p: *const T, n: i128) -> bool;
    fn same_object<T, U>(p: *const T, q: *const U) -> bool;
    /// the atomic cells of this object are shared with other threads: bounded by max, never decreasing
    fn shared<T>(p: *const T, max: i128);
    /// all writes since the mark into the object of p stay inside / outside [p, p+n)
    fn writes_within<T>(m: i128, p: *const T, n: i128) -> bool;
    fn untouched<T>(m: i128, p: *const T, n: i128) -> bool;
    fn zeroed<T>(p: *const T, n: i128) -> bool;
    fn no_writes<T>(m: i128, p: *const T) -> bool;
    fn freed<T>(p: *const T);
    fn dump<T>(p: *const T);
}
#[inline(never)] pub fn snap<T>(x: *const T) -> Snap<T> { let _ = x; unimplemented!() }
/// equality of abstract values (by identity for opaque ones)
#[inline(never)] pub fn same<T, U>(x: *const T, y: *const U) -> bool { let _ = (x, y); unimplemented!() }
/// how often the value was dropped so far
#[inline(never)] pub fn drops<T>(x: *const T) -> i128 { let _ = x; unimplemented!() }
/// the unique sub-field of type F
#[inline(never)] pub fn field<S, F>(x: *const S) -> *mut F { let _ = x; unimplemented!() }
/// ghost copy of the contents of a slice
#[inline(never)] pub fn seq_of<T>(x: *const [T]) -> *const [T] { let _ = x; unimplemented!() }
/// the n elements at p are those of the ghost sequence s from index k on
#[inline(never)] pub fn holds<T>(p: *const T, s: *const [T], k: i128, n: i128) -> bool { let _ = (p, s, k, n); unimplemented!() }
/// the elements of a growable library container, in order
#[inline(never)] pub fn contents<V, T>(v: *const V) -> *const [T] { let _ = v; unimplemented!() }
#[inline(never)] pub fn havoc<T>(x: *const T) { let _ = x; unimplemented!() }
#[inline(never)] pub fn slice_at<T>(p: *mut T, n: usize) -> *mut [T] { let _ = (p, n); unimplemented!() }
#[inline(never)] pub fn catch<R, F: FnOnce() -> R>(f: F) -> Result<R, ()> { let _ = f; unimplemented!() }

/// The list that starts at the handle inside S is an arbitrary one with elements of type U.
#[inline(never)] pub fn list_in<S, U>(s: *const S) -> *const [U] { let _ = s; unimplemented!() }
#[inline(never)] pub fn bump_in<S>(s: *const S) -> *const static_alloc::unsync::MemBump { let _ = s; unimplemented!() }
/// the elements were dropped since the mark, each once and in order
#[inline(never)] pub fn dropped_in_order<U>(m: i128, l: *const [U]) -> bool { let _ = (m, l); unimplemented!() }
/// v was dropped before any element of the list
#[inline(never)] pub fn dropped_before<U, T>(m: i128, l: *const [U], v: *const T) -> bool { let _ = (m, l, v); unimplemented!() }
#[inline(never)] pub fn drop_order<T, U>(v: *const T, w: *const U) -> bool { let _ = (v, w); unimplemented!() }
#[inline(never)] pub fn dropped_at<T, U>(v: *const T, p: *const U) -> bool { let _ = (v, p); unimplemented!() }
