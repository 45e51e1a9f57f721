From d72cf1ec5c167618a06db29f4419b0747b374c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/14] fix: split_at_byte offsets the tail in bytes, not in
 multiples of T

---
 without-alloc/src/uninit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..560059b 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -626,7 +626,7 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
@@ -634,7 +634,7 @@ impl<'a, T> UninitView<'a, T> {
         self.len = at;
 
         // SAFETY: within one allocation, namely the one we are in.
-        let other = unsafe { UninitView::from_memory(next_base.cast(), next_len) };
+        let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other)
     }
 
-- 
2.43.0


From f8bf7273e4e79a568b70a47d41212e0cd5040fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 02/14] fix: split_layout aligns unaligned memory instead of
 always failing

---
 without-alloc/src/uninit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 560059b..d59acb5 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -560,6 +560,7 @@ impl UninitView<'_, ()> {
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
         let align = self.ptr.as_ptr()
+            .cast::<u8>()
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
-- 
2.43.0


From d3ff4989ec724e0f3a490a0dff2d1ae1ae0b9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 03/14] fix: split_at shortens the slice pointer of the
 remaining head

---
 without-alloc/src/uninit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index d59acb5..3c9eede 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -831,6 +831,12 @@ impl<'a, T> UninitView<'a, [T]> {
         self.len = bytes;
 
         let base = self.ptr.as_ptr() as *mut u8;
+        // The slice pointer must no longer cover the elements that are split off.
+        self.ptr = {
+            let slice = ptr::slice_from_raw_parts_mut(base as *mut T, at);
+            // SAFETY: the address is that of the previous pointer, which was not null.
+            unsafe { ptr::NonNull::new_unchecked(slice) }
+        };
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
-- 
2.43.0


From 81549245e1b06b93971f4c4e6018100a5f1fcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 04/14] fix: MemBump::new initializes its header before handing
 it out

---
 static-alloc/src/unsync/bump.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..bb8cd48 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,6 +128,8 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
+        // Safety: the layout starts with the header, that is the index of the bump allocator.
+        unsafe { ptr.cast::<Cell<usize>>().as_ptr().write(Cell::new(0)) };
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
         unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
     }
-- 
2.43.0


From cd531af50ca0bb2feea2498b891bc13c6610507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 05/14] fix: unsync bump hands out zero-sized values instead of
 panicking

---
 static-alloc/src/unsync/bump.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index bb8cd48..99768ab 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -320,6 +320,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -335,6 +339,16 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let fake = Allocation::for_zst(self.level());
+            if fake.level != level {
+                return Err(Failure::Mismatch {
+                    observed: fake.level,
+                });
+            }
+            return Ok(fake);
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -458,8 +472,12 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
-        let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
+        let raw = if layout.size() == 0 {
+            NonNull::<MaybeUninit<T>>::dangling()
+        } else {
+            self.alloc(layout).ok_or(Failure::Exhausted)?.cast()
+        };
+        let slice = ptr::slice_from_raw_parts_mut(raw.as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
     }
-- 
2.43.0


From f307263fbdfbd3725b70bc1563a92b4fa548dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 06/14] fix: Alloca::new rejects a length whose padded layout
 overflows

---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 49b3a386249ae90889eeaad1d2ad196e5c8c1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 07/14] fix: Result::fill leaves items in the iterator once its
 container is full

---
 fill/src/fill.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..58717b6 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -179,17 +179,21 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
+        let mut failure = None;
+        // Let the container decide when to stop, it must not lose any item that it can't store.
+        container.fill(core::iter::from_fn(|| {
+            match iter.next()? {
+                Ok(ok) => Some(ok),
+                Err(err) => {
+                    failure = Some(err);
+                    None
                 },
-            };
-        };
+            }
+        }).fuse());
 
-        *self = Err(err);
+        if let Some(err) = failure {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From 724a6d5190b32bcea428deedd5758037f124ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 08/14] fix: a panicking destructor does not leave other values
 on the ExitStack

---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..de672a9 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // Continue with the rest of the stack even if this drop unwinds.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From de8307fce0d6656c4b59efc7361f7570f16a7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 09/14] fix: Rc keeps its memory from being reclaimed until the
 value is dropped

---
 without-alloc/src/rc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..1102811 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -521,11 +521,12 @@ impl<T> Drop for Rc<'_, T> {
         self.dec_strong();
         // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
-
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
             }
+
+            // Only now may a `Weak` claim the memory, including those owned by the value itself.
+            self.dec_weak();
         }
     }
 }
-- 
2.43.0


From 1b855386860838e21bf09fa6191da79d59051c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 10/14] fix: copy_slice returns exactly the copied elements

---
 without-alloc/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..fea43a4 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,9 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
-            // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            // SAFETY: this is a copy of `slice` which is initialized. Only that copy, the allocator
+            // may have provided additional memory.
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From edea24ce7fbda3a582e6334a34c1653dad031541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 11/14] fix: copy_dst aligns the reference to a zero-sized copy

---
 without-alloc/src/alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index fea43a4..1552248 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -225,7 +225,11 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            // SAFETY: valid for no bytes, and the alignment is never zero.
+            None => unsafe {
+                let dangling = layout.align() as *mut u8;
+                Uninit::from_memory(core::ptr::NonNull::new_unchecked(dangling), 0)
+            },
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From 61155ca1917f9a1b0b2cbb8b49349b79946215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 12/14] fix: unsync Bump over an over-aligned type no longer
 panics in debug builds

---
 static-alloc/src/unsync/bump.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 99768ab..bae3475 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -592,7 +592,9 @@ impl<T> ops::Deref for Bump<T> {
         let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        // The view may be smaller if `T` is aligned to more than the header.
+        debug_assert!(Layout::for_value(bump).size() <= from_layout.size());
+        debug_assert!(Layout::for_value(bump).align() <= from_layout.align());
         bump
     }
 }
@@ -607,7 +609,9 @@ impl<T> ops::DerefMut for Bump<T> {
         let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        // The view may be smaller if `T` is aligned to more than the header.
+        debug_assert!(Layout::for_value(bump).size() <= from_layout.size());
+        debug_assert!(Layout::for_value(bump).align() <= from_layout.align());
         bump
     }
 }
-- 
2.43.0


From a038c713d90e8c15372c6ee6711461f4e114beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 13/14] fix: ExitStack is never Unpin, it links to values
 within itself

---
 exit-stack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index de672a9..75be007 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -46,6 +46,7 @@
 //! ```
 #![no_std]
 use core::cell::Cell;
+use core::marker::PhantomPinned;
 use core::mem::MaybeUninit;
 use core::pin::Pin;
 use core::ptr::NonNull;
@@ -64,6 +65,8 @@ pub struct ExitStack<Mem> {
     memory: Bump<PinSlot<Mem>>,
     /// The exit handler to the last filled slot of the exit stack.
     top: Cell<Option<ExitHandle>>,
+    /// The slots and the links to them are part of the stack itself, it must never be `Unpin`.
+    _pinned: PhantomPinned,
 }
 
 type ExitHandle = NonNull<PinSlot<dyn Drop>>;
@@ -99,6 +102,7 @@ impl<Mem> ExitStack<Mem> {
         ExitStack {
             memory: Bump::uninit(),
             top: Cell::new(None),
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0


From 2d30611b20dbe622e0c040bd77c9bd290c75b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:06 +0000
Subject: [PATCH 14/14] fix: unsync Bump always has room for one value, however
 it is aligned

---
 static-alloc/src/unsync/bump.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index bae3475..1add43c 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -119,6 +119,16 @@ impl<T> Bump<T> {
             _data: UnsafeCell::new(MaybeUninit::zeroed()),
         }
     }
+
+    /// The length of the data in the `MemBump`, which begins directly behind the header.
+    ///
+    /// This includes the padding that aligns a `T`, so that there is always room for one.
+    const fn capacity_as_mem() -> usize {
+        let header = mem::size_of::<Cell<usize>>();
+        let align = mem::align_of::<T>();
+        let padding = if align > header { align - header } else { 0 };
+        padding + mem::size_of::<T>()
+    }
 }
 
 #[cfg(feature = "alloc")]
@@ -585,11 +595,10 @@ impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, Self::capacity_as_mem());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
         // The view may be smaller if `T` is aligned to more than the header.
@@ -602,11 +611,10 @@ impl<T> ops::Deref for Bump<T> {
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, Self::capacity_as_mem());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
         // The view may be smaller if `T` is aligned to more than the header.
-- 
2.43.0

