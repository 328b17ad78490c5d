From f84d105b196bcb179b322d49cb5c1e2e3b342c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 01/73] fix: support zero-sized elements in Vec

Growing a Vec of zero-sized elements divided by zero at compile time, its
capacity was computed by an out-of-bounds pointer difference, and elements
with an alignment above 1 were written through misaligned pointers.
---
 stabby-abi/src/alloc/vec.rs | 38 ++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f971e08..b316585 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -152,7 +152,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         if self.inner.end == self.inner.capacity {
             self.grow();
         }
-        unsafe { self.inner.end.as_ptr().write(value) }
+        unsafe { self.end_ptr().write(value) }
         self.inner.end = ptr_add(self.inner.end, 1)
     }
     /// Adds `value` at the end of `self`.
@@ -166,22 +166,38 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         if self.inner.end == self.inner.capacity && self.try_grow().is_err() {
             return Err(value);
         }
-        unsafe { self.inner.end.as_ptr().write(value) }
+        unsafe { self.end_ptr().write(value) }
         self.inner.end = ptr_add(self.inner.end, 1);
         Ok(())
     }
     /// The total capacity of the vector.
     pub const fn capacity(&self) -> usize {
-        ptr_diff(self.inner.capacity, self.inner.start.ptr)
+        if Self::zst_mode() {
+            // Zero-sized elements never need memory, and the distance to the end of the address space
+            // can't be measured through pointers.
+            usize::MAX
+        } else {
+            ptr_diff(self.inner.capacity, self.inner.start.ptr)
+        }
     }
     /// The remaining number of elements that can be pushed before reallocating.
     pub const fn remaining_capacity(&self) -> usize {
-        ptr_diff(self.inner.capacity, self.inner.end)
+        self.capacity() - self.len()
+    }
+    /// A pointer to the slot where the next element would be written, which is properly aligned for `T`.
+    ///
+    /// For zero-sized types, `self.inner.end` counts elements in bytes, and may thus be misaligned.
+    const fn end_ptr(&self) -> *mut T {
+        if Self::zst_mode() {
+            self.inner.start.ptr.as_ptr()
+        } else {
+            self.inner.end.as_ptr()
+        }
     }
-    const FIRST_CAPACITY: usize = match 1024 / core::mem::size_of::<T>() {
-        0 => 1,
-        v @ 1..=8 => v,
-        _ => 8,
+    const FIRST_CAPACITY: usize = match core::mem::size_of::<T>() {
+        0..=128 => 8,
+        size @ 129..=1024 => 1024 / size,
+        _ => 1,
     };
     fn grow(&mut self) {
         self.try_grow().unwrap();
@@ -305,7 +321,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         }
         self.try_reserve(slice.len())?;
         unsafe {
-            core::ptr::copy_nonoverlapping(slice.as_ptr(), self.inner.end.as_ptr(), slice.len());
+            core::ptr::copy_nonoverlapping(slice.as_ptr(), self.end_ptr(), slice.len());
             self.set_len(self.len() + slice.len());
         }
         Ok(())
@@ -424,7 +440,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             None
         } else {
             unsafe {
-                let value = self.inner.end.as_ptr().sub(1).read();
+                let value = self.inner.start.ptr.as_ptr().add(self.len() - 1).read();
                 self.set_len(self.len() - 1);
                 Some(value)
             }
@@ -559,7 +575,7 @@ impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
             Some(max) => {
                 self.reserve(max);
                 iter.for_each(|item| {
-                    unsafe { self.inner.end.as_ptr().write(item) };
+                    unsafe { self.end_ptr().write(item) };
                     self.inner.end = ptr_add(self.inner.end, 1);
                 })
             }
-- 
2.43.0


From 893f45119e343afa0cc7fa63e670ba74befc7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 02/73] fix: Vec::try_drain accepts valid ranges and only these

The condition was inverted: every valid range was refused, and invalid ones
could only be refused by accident.
---
 stabby-abi/src/alloc/vec.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index b316585..746505f 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -348,11 +348,11 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         let original_len = self.len();
         let from = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let to = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.saturating_add(1),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
@@ -381,15 +381,15 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         let original_len = self.len();
         let from = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let to = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.saturating_add(1),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
-        if to >= from || to <= original_len {
+        if to < from || to > original_len {
             return None;
         }
         unsafe { self.set_len(from) };
-- 
2.43.0


From 8cbe7231f19a6eb69db8816988fb657229410a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 03/73] fix: DoubleEndedDrain yields the drained elements from
 the back

next_back read one element past the one it removed (past the drained range on
its first call), and size_hint ignored elements already taken from the back.
---
 stabby-abi/src/alloc/vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 746505f..2aef344 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -766,7 +766,7 @@ pub struct DoubleEndedDrain<'a, T: 'a, Alloc: IAlloc + 'a> {
 impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc> {
     type Item = T;
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.to - self.lindex;
+        let remaining = self.rindex - self.lindex;
         (remaining, Some(remaining))
     }
     fn next(&mut self) -> Option<Self::Item> {
@@ -780,9 +780,8 @@ impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc>
 impl<'a, T: 'a, Alloc: IAlloc + 'a> DoubleEndedIterator for DoubleEndedDrain<'a, T, Alloc> {
     fn next_back(&mut self) -> Option<Self::Item> {
         (self.lindex < self.rindex).then(|| unsafe {
-            let ret = self.vec.inner.start.as_ptr().add(self.rindex).read();
             self.rindex -= 1;
-            ret
+            self.vec.inner.start.as_ptr().add(self.rindex).read()
         })
     }
 }
-- 
2.43.0


From b5cfb3989a2a73bf73ce051ccc0c2d5b0f2e7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 04/73] fix: no double drop when a destructor panics in
 Vec::truncate or IntoIter

---
 stabby-abi/src/alloc/vec.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 2aef344..f0cb9df 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -265,8 +265,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             return;
         }
         unsafe {
-            core::ptr::drop_in_place(&mut self[len..]);
-            self.set_len(len)
+            let tail: *mut [T] = &mut self[len..];
+            // Should a destructor panic, the tail must not be dropped a second time.
+            self.set_len(len);
+            core::ptr::drop_in_place(tail);
         };
     }
     /// Returns a slice of the vector's elements.
@@ -677,8 +679,10 @@ impl<T, Alloc: IAlloc> Iterator for IntoIter<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for IntoIter<T, Alloc> {
     fn drop(&mut self) {
         unsafe {
-            core::ptr::drop_in_place(&mut self.vec.as_slice_mut()[self.index..]);
+            let remaining: *mut [T] = &mut self.vec.as_slice_mut()[self.index..];
+            // Should a destructor panic, nothing must be dropped a second time by `self.vec`.
             self.vec.set_len(0);
+            core::ptr::drop_in_place(remaining);
         }
     }
 }
-- 
2.43.0


From ac1a28d89904c739e542937625b52b709b620ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 05/73] fix: Vec::extend must not trust the iterator's size
 hint for memory safety

Iterators are allowed to report a wrong size_hint: writing more items than
the reported upper bound overflowed the allocation, and large upper bounds
(filter, take_while...) reserved (or failed to reserve) memory for nothing.
---
 stabby-abi/src/alloc/vec.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f0cb9df..84805eb 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -572,20 +572,9 @@ impl<T: Copy, Alloc: IAlloc + Default> From<&[T]> for Vec<T, Alloc> {
 impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
     fn extend<Iter: IntoIterator<Item = T>>(&mut self, iter: Iter) {
         let iter = iter.into_iter();
-        let (min, max) = iter.size_hint();
-        match max {
-            Some(max) => {
-                self.reserve(max);
-                iter.for_each(|item| {
-                    unsafe { self.end_ptr().write(item) };
-                    self.inner.end = ptr_add(self.inner.end, 1);
-                })
-            }
-            _ => {
-                self.reserve(min);
-                iter.for_each(|item| self.push(item))
-            }
-        }
+        // `size_hint` may be wrong without the iterator being unsafe, so it may only be used to reserve memory.
+        self.reserve(iter.size_hint().0);
+        iter.for_each(|item| self.push(item))
     }
 }
 
-- 
2.43.0


From 36713eb81e981be003a89065dea7f59c1912346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 06/73] fix: allocate enough memory for over-aligned types

The padding needed between the allocation prefix and elements with an alignment
above that of the prefix was not part of the allocation, which was made with
the prefix' alignment: elements could be written past its end. The pointer
given to IAlloc::realloc must also be the one IAlloc::alloc returned, and sizes
that overflow must be refused by the allocator instead of wrapping around.
---
 stabby-abi/src/alloc/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 472c5ac..06f2a83 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -77,13 +77,16 @@ impl Layout {
     pub const fn array<T: Sized>(n: usize) -> Self {
         let Self { size, align } = Self::of::<T>();
         Layout {
-            size: size * n,
+            size: size.saturating_mul(n),
             align,
         }
     }
     /// Concatenates a layout to `self`, ensuring that alignment padding is taken into account.
+    ///
+    /// Sizes that can't be represented saturate, allocators are expected to refuse them.
     pub const fn concat(mut self, other: Self) -> Self {
-        self.size += other.size;
+        // `other` starts at the first sufficiently aligned offset after the end of `self`.
+        self.size = self.realign(other.align).size.saturating_add(other.size);
         self.realign(if self.align < other.align {
             other.align
         } else {
@@ -101,8 +104,9 @@ impl Layout {
     /// Changes the alignment of the layout, adding padding if necessary.
     pub const fn realign(mut self, new_align: usize) -> Self {
         self.align = new_align;
-        self.size = self.size
-            + (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize);
+        let padding =
+            (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize);
+        self.size = self.size.saturating_add(padding);
         self
     }
 }
@@ -358,8 +362,7 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
     }
     /// Allocates a pointer to an array of `capacity` `T`, prefixed by an [`AllocPrefix`]
     pub fn alloc_array(alloc: &mut Alloc, capacity: usize) -> Option<Self> {
-        let mut layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
         let ptr = alloc.alloc(layout);
         NonNull::new(ptr).map(|ptr| unsafe { Self::init(ptr, capacity) })
     }
@@ -375,13 +378,9 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
         prev_capacity: usize,
         new_capacity: usize,
     ) -> Option<Self> {
-        let mut layout =
-            Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
         let ptr = alloc.realloc(
-            (self.prefix() as *const AllocPrefix<Alloc>)
-                .cast_mut()
-                .cast(),
+            self.prefix().origin.as_ptr(),
             layout,
             Layout::of::<AllocPrefix<Alloc>>()
                 .concat(Layout::array::<T>(new_capacity))
-- 
2.43.0


From 704cdd6bb0ce5edfad5306cfe7be18e70d4ef047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 07/73] fix: shrinking reallocations must not copy more than
 the new size

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs |  2 +-
 stabby-abi/src/alloc/mod.rs                   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index e4e49f7..4f82508 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -86,7 +86,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
                     core::ptr::copy_nonoverlapping(
                         ptr.cast::<u8>(),
                         new_ptr.cast::<u8>(),
-                        prev.size,
+                        prev.size.min(new_size),
                     )
                 }
                 self.free(ptr.cast());
diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 06f2a83..501fec4 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -140,7 +140,11 @@ pub trait IAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    core::cmp::min(prev_layout.size, new_size),
+                );
                 self.free(ptr);
             }
         }
@@ -179,7 +183,11 @@ pub trait IStableAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    core::cmp::min(prev_layout.size, new_size),
+                );
                 self.free(ptr);
             }
         }
-- 
2.43.0


From bdea7b298d70ac9562eae4e359a98f88850f3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 08/73] fix: LibcAlloc honours small alignments and reports
 failures

posix_memalign fails for alignments below a pointer's, and its failures leave
the pointer in an unspecified state.
---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index 4f82508..0838b36 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -52,6 +52,15 @@ impl LibcAlloc {
     }
 }
 
+/// `posix_memalign` refuses alignments below that of a pointer.
+const fn memalign(align: usize) -> usize {
+    if align < core::mem::size_of::<*mut ()>() {
+        core::mem::size_of::<*mut ()>()
+    } else {
+        align
+    }
+}
+
 impl crate::alloc::IAlloc for LibcAlloc {
     fn alloc(&mut self, layout: Layout) -> *mut () {
         if layout.size == 0 {
@@ -59,8 +68,8 @@ impl crate::alloc::IAlloc for LibcAlloc {
         }
         let mut ptr = core::ptr::null_mut();
         // SAFETY: `posix_memalign` is always safe.
-        let err = unsafe { posix_memalign(&mut ptr, layout.align, layout.size) };
-        if err != 0 && (ptr as usize % layout.align != 0) {
+        let err = unsafe { posix_memalign(&mut ptr, memalign(layout.align), layout.size) };
+        if err != 0 {
             ptr = core::ptr::null_mut();
         }
         ptr.cast()
@@ -80,7 +89,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
         };
         if new_ptr.is_null() {
             // SAFETY: `posix_memalign` is always safe.
-            let err = unsafe { posix_memalign(&mut new_ptr, prev.align, new_size) };
+            let err = unsafe { posix_memalign(&mut new_ptr, memalign(prev.align), new_size) };
             if err == 0 {
                 unsafe {
                     core::ptr::copy_nonoverlapping(
@@ -90,6 +99,8 @@ impl crate::alloc::IAlloc for LibcAlloc {
                     )
                 }
                 self.free(ptr.cast());
+            } else {
+                new_ptr = core::ptr::null_mut();
             }
         }
         new_ptr.cast()
-- 
2.43.0


From 6e64c7c16f1e543751b0ef52cf345bd3210e55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 09/73] fix: RustAlloc reports allocation failures

It wrote its prefix next to the null pointer when the global allocator refused
a request, and didn't return null for empty requests as documented.
---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 29dc4d1..967efdc 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -20,12 +20,18 @@ pub struct RustAllocPrefix {
 }
 
 extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
+    if requested.size == 0 {
+        return core::ptr::null_mut();
+    }
     let requested = Layout::of::<RustAllocPrefix>().concat(requested);
     let Ok(layout) = core::alloc::Layout::from_size_align(requested.size, requested.align) else {
         return core::ptr::null_mut();
     };
     // SAFETY: The layout is always non-zero-sized
     let alloc_start = unsafe { alloc_rs::alloc::alloc(layout) };
+    if alloc_start.is_null() {
+        return core::ptr::null_mut();
+    }
     let ret = // SAFETY: the addition is indeed in-bound.
         unsafe { alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>())) };
     // SAFETY: `ret` is allocated and _at least_ one `RustAllocPrefix` greater than the start of the allocation, so writing there is safe.
@@ -38,6 +44,9 @@ extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     ret.cast()
 }
 extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size: usize) -> *mut () {
+    if new_size == 0 {
+        return core::ptr::null_mut();
+    }
     // SAFETY: The corresponding `alloc` returns the allocation offset by this much (see the line where `ret` is constructed in both the `alloc` and `realloc` functions)
     let realloc_start = unsafe {
         ptr.cast::<u8>().sub(
@@ -54,10 +63,16 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
         size: new_size,
         align: prev_layout.align,
     });
+    if core::alloc::Layout::from_size_align(requested.size, requested.align).is_err() {
+        return core::ptr::null_mut();
+    }
     // SAFETY: See each line
     unsafe {
         // If `ptr` was indeed allocated on by this allocator, then `realloc_start` was indeed allocated by _our_ GlobalAlloc.
         let alloc_start = alloc_rs::alloc::realloc(realloc_start, layout, requested.size);
+        if alloc_start.is_null() {
+            return core::ptr::null_mut();
+        }
         // We follow the same return-value shifting as in `alloc`
         let ret = alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>()));
         // And prepend the same prefix
-- 
2.43.0


From c44ce79652a0210baa833a7905c34afed1711b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 10/73] fix: Vec::try_reserve reports capacities that can't be
 represented

---
 stabby-abi/src/alloc/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 84805eb..b67a508 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -229,7 +229,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
         if self.remaining_capacity() < additional {
             let len = self.len();
-            let new_capacity = len + additional;
+            let Some(new_capacity) = len.checked_add(additional) else {
+                return Err(AllocationError());
+            };
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From 2965bd7613560be29d5116689e6e304e060b06ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 11/73] fix: BoxedSlice keeps track of its allocation when it
 is empty

An empty boxed slice with spare capacity leaked its allocation when dropped or
converted to a Vec, while try_push read the prefix of dangling pointers.
---
 stabby-abi/src/alloc/boxed.rs | 38 +++++++++++++++++------------------
 stabby-abi/src/alloc/mod.rs   |  4 ++++
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 0369bb1..dcad38c 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -308,12 +308,13 @@ impl<T, Alloc: IAlloc> BoxedSlice<T, Alloc> {
     /// # Errors
     /// Returns the value if pushing would require reallocating.
     pub fn try_push(&mut self, value: T) -> Result<(), T> {
-        // SAFETY: the prefix must be initialized for this type to exist.
-        if self.slice.len()
-            >= unsafe { self.slice.start.prefix() }
-                .capacity
-                .load(core::sync::atomic::Ordering::Relaxed)
-        {
+        if core::mem::size_of::<T>() == 0 {
+            // Zero-sized elements need no memory, they only need to be counted.
+            core::mem::forget(value);
+            self.slice.end = ptr_add(self.slice.end, 1);
+            return Ok(());
+        }
+        if self.slice.len() >= self.capacity() {
             return Err(value);
         }
         // SAFETY: we've acertained that we have enough space to push an element.
@@ -323,23 +324,22 @@ impl<T, Alloc: IAlloc> BoxedSlice<T, Alloc> {
         }
         Ok(())
     }
+    /// The capacity of the underlying allocation, 0 if there is none.
+    fn capacity(&self) -> usize {
+        if core::mem::size_of::<T>() == 0 || self.slice.start.is_dangling() {
+            return 0;
+        }
+        // SAFETY: the pointer isn't dangling, so it has a prefix in which we stored the capacity when constructed.
+        unsafe { self.slice.start.prefix() }
+            .capacity
+            .load(core::sync::atomic::Ordering::Relaxed)
+    }
     pub(crate) fn into_raw_components(self) -> (AllocSlice<T, Alloc>, usize, Alloc) {
         let slice = self.slice;
+        let capacity = self.capacity();
         // SAFETY: We forget `alloc` immediately.
         let alloc = unsafe { core::ptr::read(&self.alloc) };
         core::mem::forget(self);
-        let capacity = if core::mem::size_of::<T>() == 0 || slice.is_empty() {
-            0
-        } else {
-            // SAFETY: we store the capacity in the prefix when constructed.
-            unsafe {
-                slice
-                    .start
-                    .prefix()
-                    .capacity
-                    .load(core::sync::atomic::Ordering::Relaxed)
-            }
-        };
         (slice, capacity, alloc)
     }
 }
@@ -438,7 +438,7 @@ impl<T, Alloc: IAlloc + Default> FromIterator<T> for BoxedSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for BoxedSlice<T, Alloc> {
     fn drop(&mut self) {
         unsafe { core::ptr::drop_in_place(self.as_slice_mut()) }
-        if core::mem::size_of::<T>() != 0 && !self.is_empty() {
+        if core::mem::size_of::<T>() != 0 && !self.slice.start.is_dangling() {
             unsafe { self.slice.start.free(&mut self.alloc) }
         }
     }
diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 501fec4..af11e73 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -307,6 +307,10 @@ impl<T, Alloc> AllocPtr<T, Alloc> {
             marker: PhantomData,
         }
     }
+    /// Whether or not the pointer is the one returned by [`Self::dangling`], in which case it has no prefix.
+    pub(crate) fn is_dangling(&self) -> bool {
+        self.ptr == NonNull::dangling()
+    }
     /// Casts an allocated pointer.
     pub const fn cast<U>(self) -> AllocPtr<U, Alloc> {
         AllocPtr {
-- 
2.43.0


From 0ca9c4ca96f7875b5816f37fa67140a7bdd16519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 12/73] fix: ArcSlice without capacity keeps its allocator and
 allocation

Converting a Vec that didn't allocate wrote the allocator before the Vec's
dangling pointer instead of in the new allocation, and converting it back
leaked that allocation.
---
 stabby-abi/src/alloc/sync.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9036d1a..0be785b 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -521,12 +521,9 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 start.prefix_mut().capacity = if core::mem::size_of::<T>() != 0 {
                     AtomicUsize::new(0)
                 } else {
-                    AtomicUsize::new(ptr_diff(
-                        core::mem::transmute::<usize, NonNull<u8>>(usize::MAX),
-                        start.ptr.cast::<u8>(),
-                    ))
+                    AtomicUsize::new(usize::MAX)
                 };
-                slice.start.prefix_mut().alloc.write(alloc);
+                start.prefix_mut().alloc.write(alloc);
             }
             Self {
                 inner: AllocSlice {
@@ -544,14 +541,20 @@ impl<T, Alloc: IAlloc> TryFrom<ArcSlice<T, Alloc>> for Vec<T, Alloc> {
             Err(value)
         } else {
             unsafe {
+                let mut start = value.inner.start;
+                let capacity = start.prefix().capacity.load(Ordering::Relaxed);
+                if capacity == 0 {
+                    // A Vec without capacity doesn't own any allocation.
+                    let mut alloc = start.prefix().alloc.assume_init_read();
+                    core::mem::forget(value);
+                    start.free(&mut alloc);
+                    return Ok(Vec::new_in(alloc));
+                }
                 let ret = Vec {
                     inner: VecInner {
                         start: value.inner.start,
                         end: value.inner.end,
-                        capacity: ptr_add(
-                            value.inner.start.ptr,
-                            value.inner.start.prefix().capacity.load(Ordering::Relaxed),
-                        ),
+                        capacity: ptr_add(value.inner.start.ptr, capacity),
                         alloc: value.inner.start.prefix().alloc.assume_init_read(),
                     },
                 };
-- 
2.43.0


From 4c2b546b4d9aac65a3559e6c431459224cffaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 13/73] fix: SingleOrVec::try_reserve and truncate on a single
 value

They overwrote the result while a guard on its previous variant was alive,
which then altered the new variant's representation, and a failed reservation
destroyed the value although it remained in the container.
---
 stabby-abi/src/alloc/single_or_vec.rs | 76 +++++++++++++++++++--------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 670069c..dd3c7db 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -201,28 +201,45 @@ where
     /// Returns Ok(new_capacity) if succesful (including if no reallocation was needed),
     /// otherwise returns Err(AllocationError)
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let new_capacity = 1 + additional;
-                // either `inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.try_reserve(additional);
+        }
+        let new_capacity = additional.checked_add(1).ok_or(AllocationError())?;
+        // Safety: either `this` or `*self` MUST be leaked to prevent double-frees.
+        let this = unsafe { core::ptr::read(self) };
+        this.inner.match_owned(
+            |single| {
+                // either `*self` must be leaked and overwritten by the new owner of `value` and `alloc`,
                 // or these two must be leaked to prevent double frees.
-                let Single { value, alloc } = core::ptr::read(&*value);
+                let Single { value, alloc } = single;
                 match Vec::try_with_capacity_in(new_capacity, alloc) {
                     Ok(mut vec) => {
                         vec.push(value);
-                        // overwrite `inner` with `value` and `alloc` with their new owner without freeing `inner`.
-                        core::ptr::write(inner, crate::Result::Err(vec));
-                        NonMaxUsize::new(new_capacity).ok_or(AllocationError())
+                        let capacity = vec.capacity();
+                        // Safety: overwrite `*self` with the new owner of `value` and `alloc` without freeing it.
+                        unsafe {
+                            core::ptr::write(
+                                self,
+                                Self {
+                                    inner: crate::Result::Err(vec),
+                                },
+                            )
+                        };
+                        // Vectors of zero-sized types have an infinite capacity.
+                        NonMaxUsize::new(capacity.min(usize::MAX - 1)).ok_or(AllocationError())
                     }
                     Err(alloc) => {
-                        // leak both `value` and `alloc` since `inner` can't be overwritten
-                        core::mem::drop((value, alloc));
+                        // Safety: leak both `value` and `alloc` since `*self` won't be leaked
+                        core::mem::forget((value, alloc));
                         Err(AllocationError())
                     }
                 }
             },
-            |mut vec| vec.try_reserve(additional),
+            |vec| {
+                // This can't be reached, but `*self` would still own the vector.
+                core::mem::forget(vec);
+                Err(AllocationError())
+            },
         )
     }
     /// Removes all elements from `self` from the `len`th onward.
@@ -232,16 +249,33 @@ where
         if self.len() <= len {
             return;
         }
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let Single { value, alloc } = core::ptr::read(&*value);
-                core::mem::drop(value); // drop `value` to prevent leaking it since we'll overwrite `inner` with something that doesn't own it
-                                        // overwrite `inner` with the new owner of `alloc`
-                core::ptr::write(inner, crate::Result::Err(Vec::new_in(alloc)))
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.truncate(len);
+        }
+        // `self` holds a single value, which must be removed.
+        // Safety: either `this` or `*self` MUST be leaked to prevent double-frees.
+        let this = unsafe { core::ptr::read(self) };
+        let value = this.inner.match_owned(
+            |Single { value, alloc }| {
+                // Safety: overwrite `*self` with the new owner of `alloc` without freeing it.
+                unsafe {
+                    core::ptr::write(
+                        self,
+                        Self {
+                            inner: crate::Result::Err(Vec::new_in(alloc)),
+                        },
+                    )
+                };
+                Some(value)
             },
-            |mut vec| vec.truncate(len),
-        )
+            |vec| {
+                // This can't be reached, but `*self` would still own the vector.
+                core::mem::forget(vec);
+                None
+            },
+        );
+        // `value` is only dropped once it isn't owned by `self` anymore, since its destructor may panic.
+        core::mem::drop(value);
     }
     /// Returns a slice of the elements in the vector.
     pub fn as_slice(&self) -> &[T] {
-- 
2.43.0


From 3de0e69ba222d1d70cba168152e1588506c94837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 14/73] fix: IterMut::nth must not overflow or move past the
 end

---
 stabby-abi/src/alloc/single_or_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index dd3c7db..65c465e 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -542,7 +542,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start += n;
+        self.start = self.start.saturating_add(n).min(self.end);
         self.next()
     }
 }
-- 
2.43.0


From 65a66bdb4147d250f96a4b045273c3f95e299675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 15/73] fix: sum types and zero-sized elements keep pointer
 provenance

Result's storage was copied as integers, which strips the provenance of the pointers it contains (and reads
padding); vectors of zero-sized elements did in-bounds arithmetic on dangling pointers.
---
 stabby-abi/src/alloc/sync.rs |  2 +-
 stabby-abi/src/alloc/vec.rs  | 10 ++++++++--
 stabby-abi/src/result.rs     |  4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 0be785b..d1d03b2 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -528,7 +528,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
             Self {
                 inner: AllocSlice {
                     start,
-                    end: ptr_add(start.ptr.cast::<u8>(), slice.len()).cast(),
+                    end: ptr_add(start.ptr, slice.len()),
                 },
             }
         }
diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index b67a508..35d3b8c 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -48,7 +48,13 @@ pub struct Vec<T, Alloc: IAlloc = super::DefaultAllocator> {
 
 pub(crate) const fn ptr_diff<T>(lhs: NonNull<T>, rhs: NonNull<T>) -> usize {
     let diff = if core::mem::size_of::<T>() == 0 {
-        unsafe { lhs.as_ptr().cast::<u8>().offset_from(rhs.as_ptr().cast()) }
+        // Pointers to zero-sized elements may be dangling, so only their addresses matter.
+        // SAFETY: pointers and `isize` have the same size, and any initialized `isize` is valid.
+        #[allow(clippy::transmutes_expressible_as_ptr_casts)]
+        unsafe {
+            core::mem::transmute::<*mut T, isize>(lhs.as_ptr())
+                .wrapping_sub(core::mem::transmute::<*mut T, isize>(rhs.as_ptr()))
+        }
     } else {
         unsafe { lhs.as_ptr().offset_from(rhs.as_ptr()) }
     };
@@ -57,7 +63,7 @@ pub(crate) const fn ptr_diff<T>(lhs: NonNull<T>, rhs: NonNull<T>) -> usize {
 }
 pub(crate) const fn ptr_add<T>(lhs: NonNull<T>, rhs: usize) -> NonNull<T> {
     if core::mem::size_of::<T>() == 0 {
-        unsafe { NonNull::new_unchecked(lhs.as_ptr().cast::<u8>().add(rhs)).cast() }
+        unsafe { NonNull::new_unchecked(lhs.as_ptr().cast::<u8>().wrapping_add(rhs)).cast() }
     } else {
         unsafe { NonNull::new_unchecked(lhs.as_ptr().add(rhs)) }
     }
diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 94f7f13..e48a4cc 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -84,7 +84,9 @@ mod seal {
     use super::*;
     #[stabby::stabby]
     pub struct Storage<Size: Unsigned, Align: Alignment + Alignment> {
-        inner: <Align::Divide<Size> as IUnsignedBase>::Array<Align::AsUint>,
+        // The variants may have padding, and contain pointers whose provenance copies must preserve,
+        // so the storage mustn't be copied as integers.
+        inner: core::mem::MaybeUninit<<Align::Divide<Size> as IUnsignedBase>::Array<Align::AsUint>>,
     }
 }
 
-- 
2.43.0


From c0497bd98bcfae9eaea6071d916189b1e5d9223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 16/73] fix: the last owner of a shared pointer synchronizes
 with the previous ones

Relaxed decrements let the destructor and deallocation race with accesses through owners released by other threads.
---
 stabby-abi/src/alloc/sync.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index d1d03b2..6ed739f 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -286,7 +286,8 @@ impl<T, Alloc: IAlloc> Drop for Arc<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            // Synchronizes with the other owners, which may have accessed the content until they released it.
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -383,7 +384,8 @@ impl<T, Alloc: IAlloc> Drop for Weak<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            // Synchronizes with the other owners, which may have accessed the content until they released it.
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -589,7 +591,8 @@ impl<T, Alloc: IAlloc> Drop for ArcSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            // Synchronizes with the other owners, which may have accessed the content until they released it.
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -716,7 +719,8 @@ impl<T, Alloc: IAlloc> Drop for WeakSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            // Synchronizes with the other owners, which may have accessed the content until they released it.
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -747,7 +751,8 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            // Synchronizes with the other owners, which may have accessed the content until they released it.
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -775,7 +780,8 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            // Synchronizes with the other owners, which may have accessed the content until they released it.
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
-- 
2.43.0


From 3d2ada0c87a657678d6d5d0869e273b3f5c92040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 17/73] fix: upgrading a weak pointer never resurrects or frees
 a dead value

Marking the counter before checking it let the last owner's release go unnoticed (leaking the value), and made
failed upgrades reset the count of a value that had since been force-upgraded.
---
 stabby-abi/src/alloc/sync.rs | 40 +++++++++++++-----------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 6ed739f..39dfd9b 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -38,6 +38,17 @@ unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Send for Arc<T, Alloc>
 // SAFETY: Same constraints as in `std`.
 unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Sync for Arc<T, Alloc> {}
 const USIZE_TOP_BIT: usize = 1 << (core::mem::size_of::<usize>() as i32 * 8 - 1);
+/// Increments the `strong` count unless it has already reached 0, returning whether it did.
+fn increment_if_alive(strong: &AtomicUsize) -> bool {
+    let mut count = strong.load(Ordering::Relaxed);
+    while count & !USIZE_TOP_BIT != 0 {
+        match strong.compare_exchange_weak(count, count + 1, Ordering::Acquire, Ordering::Relaxed) {
+            Ok(_) => return true,
+            Err(current) => count = current,
+        }
+    }
+    false
+}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Arc<T> {
@@ -357,19 +368,7 @@ impl<T, Alloc: IAlloc> Weak<T, Alloc> {
     }
     /// Attempts to upgrade self into an Arc.
     pub fn upgrade(&self) -> Option<Arc<T, Alloc>> {
-        let strong = &unsafe { self.ptr.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(Arc { ptr: self.ptr })
-            }
-        }
+        increment_if_alive(&unsafe { self.ptr.prefix() }.strong).then(|| Arc { ptr: self.ptr })
     }
 }
 impl<T, Alloc: IAlloc> Clone for Weak<T, Alloc> {
@@ -655,19 +654,8 @@ pub struct WeakSlice<T, Alloc: IAlloc = super::DefaultAllocator> {
 impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     /// Return a strong reference to the slice if it hasn't been destroyed yet.
     pub fn upgrade(&self) -> Option<ArcSlice<T, Alloc>> {
-        let strong = &unsafe { self.inner.start.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(ArcSlice { inner: self.inner })
-            }
-        }
+        increment_if_alive(&unsafe { self.inner.start.prefix() }.strong)
+            .then(|| ArcSlice { inner: self.inner })
     }
     /// For types that are [`Copy`], the slice actually remains valid even after all strong references
     /// have been dropped as long as at least a weak reference lives on.
-- 
2.43.0


From fba935965c0ac55ddc12cbe0159b6502e92741ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 18/73] fix: unique access to a shared value synchronizes with
 its previous owners

Reading both counts with relaxed loads let a strong owner turn itself into a weak one in between, and gave mutable
access while accesses of released owners were still pending.
---
 stabby-abi/src/alloc/sync.rs | 67 +++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 39dfd9b..a34bc7f 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -38,6 +38,45 @@ unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Send for Arc<T, Alloc>
 // SAFETY: Same constraints as in `std`.
 unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Sync for Arc<T, Alloc> {}
 const USIZE_TOP_BIT: usize = 1 << (core::mem::size_of::<usize>() as i32 * 8 - 1);
+/// The value of the weak count while [`is_unique`] inspects the counts.
+const WEAK_LOCKED: usize = usize::MAX;
+/// Increments the `weak` count on behalf of a strong owner, returning its previous value.
+fn increment_weak(weak: &AtomicUsize) -> usize {
+    let mut count = weak.load(Ordering::Relaxed);
+    loop {
+        if count == WEAK_LOCKED {
+            core::hint::spin_loop();
+            count = weak.load(Ordering::Relaxed);
+            continue;
+        }
+        match weak.compare_exchange_weak(count, count + 1, Ordering::Acquire, Ordering::Relaxed) {
+            Ok(count) => return count,
+            Err(current) => count = current,
+        }
+    }
+}
+/// Reads the `weak` count.
+fn load_weak(weak: &AtomicUsize) -> usize {
+    match weak.load(Ordering::Relaxed) {
+        WEAK_LOCKED => 1,
+        count => count,
+    }
+}
+/// Returns true if there is a single strong owner, and no weak one, synchronizing with all of the previous owners if so.
+///
+/// The weak count is locked while the strong count is inspected, such that no other strong owner may turn itself into
+/// a weak one between the inspections of each count.
+fn is_unique(strong: &AtomicUsize, weak: &AtomicUsize) -> bool {
+    if weak
+        .compare_exchange(1, WEAK_LOCKED, Ordering::Acquire, Ordering::Relaxed)
+        .is_err()
+    {
+        return false;
+    }
+    let unique = strong.load(Ordering::Acquire) == 1;
+    weak.store(1, Ordering::Release);
+    unique
+}
 /// Increments the `strong` count unless it has already reached 0, returning whether it did.
 fn increment_if_alive(strong: &AtomicUsize) -> bool {
     let mut count = strong.load(Ordering::Relaxed);
@@ -237,13 +276,11 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
     }
     /// Returns the weak count. Note that all Arcs to a same value share a Weak, so the weak count can never be 0.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }.weak.load(Ordering::Relaxed)
+        load_weak(&unsafe { this.ptr.prefix() }.weak)
     }
     /// Increments the weak count, returning its previous value.
     pub fn increment_weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed)
+        increment_weak(&unsafe { this.ptr.prefix() }.weak)
     }
 
     /// Returns a mutable reference to this `Arc`'s value, cloning that value into a new `Arc` if [`Self::get_mut`] would have failed.
@@ -263,7 +300,8 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        let prefix = unsafe { this.ptr.prefix() };
+        is_unique(&prefix.strong, &prefix.weak)
     }
     /// Attempts the value from the allocation, freeing said allocation.
     /// # Errors
@@ -345,9 +383,7 @@ impl<T, Alloc: IAlloc> From<&Weak<T, Alloc>> for Weak<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> From<&Arc<T, Alloc>> for Weak<T, Alloc> {
     fn from(value: &Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed);
+        increment_weak(&unsafe { value.ptr.prefix() }.weak);
         Self { ptr: value.ptr }
     }
 }
@@ -429,7 +465,7 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns a mutable borrow to the slice if no other references to it may exist.
     pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
-        (ArcSlice::strong_count(self) == 1 && ArcSlice::weak_count(self) == 1)
+        ArcSlice::is_unique(self)
             .then(|| unsafe { self.as_slice_mut_unchecked() })
     }
     /// Returns a mutable borrow to the slice.
@@ -446,11 +482,12 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns the weak count to the slice.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.inner.start.prefix().weak.load(Ordering::Relaxed) }
+        load_weak(&unsafe { this.inner.start.prefix() }.weak)
     }
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        let prefix = unsafe { this.inner.start.prefix() };
+        is_unique(&prefix.strong, &prefix.weak)
     }
     /// Returns the slice's raw representation, without altering the associated reference counts.
     ///
@@ -668,9 +705,7 @@ impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
         let strong = &unsafe { self.inner.start.prefix() }.strong;
         match strong.fetch_add(1, Ordering::Release) {
             0 | USIZE_TOP_BIT => {
-                unsafe { self.inner.start.prefix() }
-                    .weak
-                    .fetch_add(1, Ordering::Relaxed);
+                increment_weak(&unsafe { self.inner.start.prefix() }.weak);
             }
             _ => {}
         }
@@ -697,9 +732,7 @@ impl<T, Alloc: IAlloc> From<&WeakSlice<T, Alloc>> for WeakSlice<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> From<&ArcSlice<T, Alloc>> for WeakSlice<T, Alloc> {
     fn from(value: &ArcSlice<T, Alloc>) -> Self {
-        unsafe { value.inner.start.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed);
+        increment_weak(&unsafe { value.inner.start.prefix() }.weak);
         Self { inner: value.inner }
     }
 }
-- 
2.43.0


From 33c321191ed45f25c5360a1ba39e3966367498f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 19/73] fix: converting an Arc into an ArcSlice transfers its
 ownership

The Arc was also dropped, leaving the slice dangling; its capacity was written non-atomically.
---
 stabby-abi/src/alloc/sync.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index a34bc7f..e04587c 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -520,12 +520,16 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
     }
 }
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
-    fn from(mut value: Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+    fn from(value: Arc<T, Alloc>) -> Self {
+        // Other owners may be accessing the prefix concurrently.
+        unsafe { value.ptr.prefix() }
+            .capacity
+            .store(1, Ordering::Relaxed);
+        let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-                start: value.ptr,
-                end: ptr_add(value.ptr.ptr, 1),
+                start,
+                end: ptr_add(start.ptr, 1),
             },
         }
     }
-- 
2.43.0


From 6bca5f3aba12521b5358d09dc77493af7377da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 20/73] fix: dropping a weak trait object releases its weak
 count

It released a strong count it didn't own, destroying the value under its owners, or underflowing.
---
 stabby-abi/src/alloc/sync.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index e04587c..831eb33 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -803,18 +803,9 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
 
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        if unsafe { this.ptr.prefix() }
-            .strong
-            // Synchronizes with the other owners, which may have accessed the content until they released it.
-            .fetch_sub(1, Ordering::AcqRel)
-            != 1
-        {
-            return;
-        }
-        unsafe {
-            drop(this.ptr.cast().as_mut());
-            _ = Weak::<T, Alloc>::from_raw(this.ptr);
-        }
+        // Weak pointers own the allocation, not the value within it.
+        let _ = drop;
+        unsafe { core::mem::ManuallyDrop::drop(this) }
     }
 }
 
-- 
2.43.0


From 36cc950c20f9b37c64b8ba97ad9c0507aa6f2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 21/73] fix: a failed AtomicArc::compare_exchange releases the
 value it was offered

---
 stabby-abi/src/alloc/sync.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 831eb33..fb7a63c 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -947,13 +947,24 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
                     marker: PhantomData,
                 })
             })),
-            Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+            Err(ptr) => {
+                // `new` wasn't installed, so its ownership wasn't transferred.
+                if let Some(ptr) = NonNull::new(new) {
+                    core::mem::drop(unsafe {
+                        Arc::<T, Alloc>::from_raw(AllocPtr {
+                            ptr,
+                            marker: PhantomData,
+                        })
+                    });
+                }
+                Err(NonNull::new(ptr).map(|ptr| unsafe {
+                    Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
+                    Arc::from_raw(AllocPtr {
+                        ptr,
+                        marker: PhantomData,
+                    })
+                }))
+            }
         }
     }
 }
-- 
2.43.0


From 1ab0cddd7ef19e2bf09ffa1383a2ce253b6d62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 22/73] fix: reading an AtomicArcBTreeSet no longer races with
 the release of its previous value

Loads read the root pointer and only then incremented its owner count,
while a concurrent edit could release that root in between. get also
read the root with Relaxed ordering, and edit was subject to ABA.
---
 stabby-abi/src/alloc/collections/arc_btree.rs | 63 +++++++++++--------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index d74a0f6..816fa0e 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -1,16 +1,19 @@
 use core::{
     borrow::Borrow, marker::PhantomData, mem::MaybeUninit, ops::Deref, ptr::NonNull,
-    sync::atomic::AtomicPtr,
+    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
 };
 
 use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
 
 /// An [`ArcBTreeSet`] that can be atomically modified.
-pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>(
-    AtomicPtr<ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
-)
+pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
 where
-    DefaultAllocator: core::default::Default + IAlloc;
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    root: AtomicPtr<ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+    /// The number of threads that may have read `root` without owning it yet.
+    readers: AtomicUsize,
+}
 impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Default
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
@@ -27,7 +30,18 @@ where
 {
     /// Constructs a new, empty set.
     pub const fn new() -> Self {
-        Self(AtomicPtr::new(core::ptr::null_mut()))
+        Self {
+            root: AtomicPtr::new(core::ptr::null_mut()),
+            readers: AtomicUsize::new(0),
+        }
+    }
+    /// Takes a snapshot of the set.
+    fn load(&self) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT> {
+        // As long as `readers` isn't 0, the previous roots are not released, making it safe to take ownership of the one we read.
+        self.readers.fetch_add(1, Ordering::SeqCst);
+        let set = ArcBTreeSet::copy_from_ptr(self.root.load(Ordering::SeqCst));
+        self.readers.fetch_sub(1, Ordering::SeqCst);
+        set
     }
     /// Applies `f` to the current value, swapping the current value for the one returned by `f`.
     ///
@@ -38,28 +52,28 @@ where
             ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
         ) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
     ) {
-        let mut current = self.0.load(core::sync::atomic::Ordering::Acquire);
         loop {
-            let new = f(ArcBTreeSet::copy_from_ptr(current));
+            // Owning `current` guarantees that its address isn't reused while `f` runs.
+            let current = self.load();
+            let current_ptr = current.as_ptr();
+            let new = f(ArcBTreeSet::copy_from_ptr(current_ptr));
             let new_ptr = new.as_ptr();
-            if core::ptr::eq(current, new_ptr) {
+            if core::ptr::eq(current_ptr, new_ptr) {
                 return;
             }
-            match self.0.compare_exchange(
-                current,
-                new_ptr,
-                core::sync::atomic::Ordering::Release,
-                core::sync::atomic::Ordering::Acquire,
-            ) {
-                // SAFETY: we've just replaced the old pointer succesfully, we can now free it.
-                Ok(old) => unsafe {
-                    core::mem::forget(new);
-                    ArcBTreeSet::take_ownership_from_ptr(old);
-                    return;
-                },
-                Err(new_old) => {
-                    current = new_old;
+            if self
+                .root
+                .compare_exchange(current_ptr, new_ptr, Ordering::SeqCst, Ordering::SeqCst)
+                .is_ok()
+            {
+                core::mem::forget(new);
+                // If a reader may have read the old root without having taken its share of ownership yet,
+                // releasing it would be unsound: it's leaked instead, as waiting for readers would prevent `self` from being lock-free.
+                if self.readers.load(Ordering::SeqCst) == 0 {
+                    // SAFETY: we've just replaced the old pointer succesfully, and all readers that could observe it own it: we can now free it.
+                    unsafe { ArcBTreeSet::take_ownership_from_ptr(current_ptr) };
                 }
+                return;
             }
         }
     }
@@ -68,8 +82,7 @@ where
     where
         T: PartialOrd<K>,
     {
-        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Relaxed));
-        f(set.get(value))
+        f(self.load().get(value))
     }
 }
 
-- 
2.43.0


From 041c19316094609df7a0c56f9fd868b769f0cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 23/73] fix: dropping an AtomicArcBTreeSet releases its content

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 816fa0e..cb4d3cb 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -14,6 +14,16 @@ where
     /// The number of threads that may have read `root` without owning it yet.
     readers: AtomicUsize,
 }
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    fn drop(&mut self) {
+        // SAFETY: `self` owns its root, and nobody can access it anymore.
+        unsafe { ArcBTreeSet::take_ownership_from_ptr(*self.root.get_mut()) };
+    }
+}
 impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Default
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
@@ -259,7 +269,7 @@ impl<T, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
         }
     }
 }
-impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
     ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
     DefaultAllocator: core::default::Default,
-- 
2.43.0


From 98e6ec1d865bc80aadf541581f7bb8c8bbd395bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 24/73] fix: bounds of narrow signed integers, and results
 outside of their range

MAX was off for every width but half of the base type's, MIN was not equal to
the value it stands for, and masks or wrapped differences could be stored
out of the type's range.
---
 stabby-abi/src/num.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 229d263..18f88f9 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -364,13 +364,13 @@ macro_rules! makeumask {
         impl ::core::ops::Sub<$base> for $name {
             type Output = Self;
             fn sub(self, rhs: $base) -> Self {
-                Self(self.get() - rhs)
+                Self((self.get() - rhs) & Self::MASK)
             }
         }
         impl ::core::ops::Sub for $name {
             type Output = Self;
             fn sub(self, rhs: Self) -> Self {
-                Self(self.get() - rhs.get())
+                Self((self.get() - rhs.get()) & Self::MASK)
             }
         }
     };
@@ -395,10 +395,10 @@ macro_rules! makeimask {
                 | (1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
             /// The maximum value for this type.
             pub const MAX: Self =
-                Self($base::MAX >> (<$bits as $crate::typenum2::Unsigned>::U128 as $base));
-            /// The maximum value for this type.
+                Self(!(-1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1)));
+            /// The minimum value for this type.
             pub const MIN: Self =
-                Self(1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
+                Self(-1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
             /// Construct a new value if it can fit.
             pub const fn new(value: $base) -> Option<Self> {
                 match value <= Self::MAX.get() && value >= Self::MIN.get() {
@@ -459,7 +459,7 @@ macro_rules! makeimask {
         impl ::core::ops::BitAnd<$base> for $name {
             type Output = Self;
             fn bitand(self, rhs: $base) -> Self {
-                Self(self.0 & rhs)
+                Self(Self::sign_extend(self.0 & rhs & Self::MASK))
             }
         }
         impl ::core::ops::BitAnd for $name {
-- 
2.43.0


From 05503d313a9d16731a9756e72c7d748a25a9e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 25/73] fix: MaybeUninit, UnsafeCell and ManuallyDrop describe
 their own layout and name

MaybeUninit<T> and UnsafeCell<T> claimed T's niches, letting sum types store
their determinant in bits that may hold anything or be overwritten through a
shared reference; their size in an Option was wrong. The three of them were
indistinguishable from each other and from same-named types in reports.
---
 stabby-abi/src/stable_impls/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 54accca..b1aac12 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -533,20 +533,34 @@ unsafe impl IStable for core::num::NonZeroIsize {
 
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
+    same_as!(T, "core::mem::ManuallyDrop", T);
     type HasExactlyOneNiche = T::HasExactlyOneNiche;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    // Any bit pattern is legal, and `T`'s unused bits may hold anything: `MaybeUninit` has no niches.
+    type Align = <T as IStable>::Align;
+    type Size = <T as IStable>::Size;
+    type UnusedBits = End;
+    type ForbiddenValues = End;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = <T as IStable>::CType;
+    primitive_report!("core::mem::MaybeUninit", T);
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    // `T`'s unused bits and padding may be written to through a shared reference, which would corrupt a determinant stored in them.
+    type Align = <T as IStable>::Align;
+    type Size = <T as IStable>::Size;
+    type UnusedBits = End;
+    type ForbiddenValues = End;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = <T as IStable>::CType;
+    primitive_report!("core::cell::UnsafeCell", T);
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 
-- 
2.43.0


From 565724c9d7536518806f453b3c97116b42f7f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 26/73] fix: types with additional fields are not compatible
 with those that lack them

---
 stabby-abi/src/report.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 433d235..d7db2fb 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -69,6 +69,7 @@ impl TypeReport {
             && self.module == other.module
             && self.version == other.version
             && self.tyty == other.tyty
+            && self.fields().count() == other.fields().count()
             && self
                 .fields()
                 .zip(other.fields())
-- 
2.43.0


From f7ce2730becc646211286309d9965345e1a701ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 27/73] fix: checked imports synchronize with the thread that
 validated them

---
 stabby-abi/src/checked_import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 1e1c678..90db6e4 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -109,7 +109,7 @@ impl<F> CheckedImport<F> {
     /// Returns a [`ReportMismatch`] if the local and loaded reports differ.
     pub fn as_ref(&self) -> Result<&F, ReportMismatch> {
         loop {
-            match self.checked.load(Ordering::Relaxed) {
+            match self.checked.load(Ordering::Acquire) {
                 UNCHECKED => match unsafe { (self.checker)(self.local_report) } {
                     Some(result) => {
                         if self
-- 
2.43.0


From f32717ec8d3624969de708811090eae742a5139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 28/73] fix: viewing an empty or longer slice must not create a
 reference to its first element

---
 stabby-abi/src/slice.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/slice.rs b/stabby-abi/src/slice.rs
index bf5325a..a97d078 100644
--- a/stabby-abi/src/slice.rs
+++ b/stabby-abi/src/slice.rs
@@ -69,13 +69,13 @@ impl<'a, T> From<&'a mut [T]> for Slice<'a, T> {
 
 impl<'a, T> From<Slice<'a, T>> for &'a [T] {
     fn from(value: Slice<'a, T>) -> Self {
-        unsafe { core::slice::from_raw_parts(value.start.as_ref(), value.len) }
+        unsafe { core::slice::from_raw_parts(value.start.as_ptr(), value.len) }
     }
 }
 impl<T> Deref for Slice<'_, T> {
     type Target = [T];
     fn deref(&self) -> &Self::Target {
-        unsafe { core::slice::from_raw_parts(self.start.as_ref(), self.len) }
+        unsafe { core::slice::from_raw_parts(self.start.as_ptr(), self.len) }
     }
 }
 impl<'a, T: 'a> Eq for Slice<'a, T> where for<'b> &'b [T]: Eq {}
@@ -129,12 +129,12 @@ unsafe impl<'a, T: 'a> Sync for SliceMut<'a, T> where &'a mut T: Sync {}
 impl<T> Deref for SliceMut<'_, T> {
     type Target = [T];
     fn deref(&self) -> &Self::Target {
-        unsafe { core::slice::from_raw_parts(self.start.as_ref(), self.len) }
+        unsafe { core::slice::from_raw_parts(self.start.as_ptr(), self.len) }
     }
 }
 impl<T> DerefMut for SliceMut<'_, T> {
     fn deref_mut(&mut self) -> &mut Self::Target {
-        unsafe { core::slice::from_raw_parts_mut(self.start.as_mut(), self.len) }
+        unsafe { core::slice::from_raw_parts_mut(self.start.as_ptr(), self.len) }
     }
 }
 impl<'a, T: 'a> Eq for SliceMut<'a, T> where for<'b> &'b [T]: Eq {}
@@ -189,14 +189,14 @@ impl<'a, T> From<SliceMut<'a, T>> for Slice<'a, T> {
     }
 }
 impl<'a, T> From<SliceMut<'a, T>> for &'a mut [T] {
-    fn from(mut value: SliceMut<'a, T>) -> Self {
-        unsafe { core::slice::from_raw_parts_mut(value.start.as_mut(), value.len) }
+    fn from(value: SliceMut<'a, T>) -> Self {
+        unsafe { core::slice::from_raw_parts_mut(value.start.as_ptr(), value.len) }
     }
 }
 
 impl<'a, T> From<SliceMut<'a, T>> for &'a [T] {
-    fn from(mut value: SliceMut<'a, T>) -> Self {
-        unsafe { core::slice::from_raw_parts(value.start.as_mut(), value.len) }
+    fn from(value: SliceMut<'a, T>) -> Self {
+        unsafe { core::slice::from_raw_parts(value.start.as_ptr(), value.len) }
     }
 }
 
-- 
2.43.0


From 9acbdb2f502e5bcd73453a156f8f4004cdad0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 29/73] fix: a trait object that was only requested to be Sync
 is not Send

---
 stabby-abi/src/vtable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index 21dcc60..e9bbb91 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -336,7 +336,7 @@ impl<T: HasDropVt> HasDropVt for VtSync<T> {
 pub trait HasSendVt {}
 impl<T> HasSendVt for VtSend<T> {}
 impl<T: HasSendVt> HasSendVt for VtSync<T> {}
-impl<Head, Tail: HasSyncVt> HasSendVt for VTable<Head, Tail> {}
+impl<Head, Tail: HasSendVt> HasSendVt for VTable<Head, Tail> {}
 /// Whether or not a vtable includes [`VtSync`]
 pub trait HasSyncVt {}
 impl<T> HasSyncVt for VtSync<T> {}
-- 
2.43.0


From 95fbafd8891ad8e8f58431fa98273e90e9c1d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 30/73] fix: a resolved MaybeResolved becomes empty once polled

It was overwritten while a guard that restores the matched variant was alive,
hence yielded its value again, and dropped it twice.
---
 stabby-abi/src/future.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index b975f3d..3e936f7 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -346,26 +346,23 @@ where
         cx: &mut Context<'_>,
     ) -> core::task::Poll<Self::Output> {
         let this = self.get_mut();
-        let inner = this as *mut _;
-        this.match_mut(
-            |value| {
-                let value = unsafe {
-                    let value = core::ptr::read(value);
-                    core::ptr::write(inner, MaybeResolved::Empty());
-                    value
-                };
+        // `this` must only be overwritten once the guards of `match_mut` are gone, as they restore the determinant of the matched variant.
+        let poll = this.match_mut(
+            |_| None,
+            || Some(core::task::Poll::Pending),
+            |future| Some(core::future::Future::poll(core::pin::Pin::new(future), cx)),
+        );
+        match poll {
+            Some(core::task::Poll::Pending) => core::task::Poll::Pending,
+            Some(core::task::Poll::Ready(value)) => {
+                *this = MaybeResolved::Empty();
                 core::task::Poll::Ready(value)
-            },
-            || core::task::Poll::Pending,
-            |future| match core::future::Future::poll(core::pin::Pin::new(future), cx) {
-                core::task::Poll::Ready(value) => {
-                    unsafe {
-                        core::ptr::replace(inner, MaybeResolved::Empty());
-                    }
-                    core::task::Poll::Ready(value)
-                }
-                core::task::Poll::Pending => core::task::Poll::Pending,
-            },
-        )
+            }
+            None => core::mem::replace(this, MaybeResolved::Empty()).match_owned(
+                core::task::Poll::Ready,
+                || core::task::Poll::Pending,
+                |_| core::task::Poll::Pending,
+            ),
+        }
     }
 }
-- 
2.43.0


From 2ee8378a7cff4d720f9ab0b56e2385bf96238ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 31/73] fix: clones of a StableWaker are freed by the allocator
 that made them

---
 stabby-abi/src/future.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index 3e936f7..6e59b85 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -127,21 +127,25 @@ mod stable_waker {
     impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
-            const VTABLE: RawWakerVTable =
-                RawWakerVTable::new(clone, wake_by_ref, wake_by_ref, drop);
-            unsafe fn clone(this: *const ()) -> RawWaker {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.clone)(this.waker).into_raw_waker()
-            }
-            unsafe fn wake_by_ref(this: *const ()) {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
-            }
-            const unsafe fn drop(_: *const ()) {}
-            let waker = RawWaker::new(self as *const Self as *const _, &VTABLE);
+            let waker = RawWaker::new(self as *const Self as *const _, &Self::VTABLE);
             let waker = unsafe { Waker::from_raw(waker) };
             f(&waker)
         }
+        const VTABLE: RawWakerVTable = RawWakerVTable::new(
+            Self::vt_clone,
+            Self::vt_wake_by_ref,
+            Self::vt_wake_by_ref,
+            Self::vt_drop,
+        );
+        unsafe fn vt_clone(this: *const ()) -> RawWaker {
+            let this = unsafe { &*(this as *const Self) };
+            (this.clone)(this.waker).into_raw_waker()
+        }
+        unsafe fn vt_wake_by_ref(this: *const ()) {
+            let this = unsafe { &*(this as *const Self) };
+            (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
+        }
+        const unsafe fn vt_drop(_: *const ()) {}
         unsafe extern "C" fn waker_drop(waker: &mut ManuallyDrop<Waker>) {
             ManuallyDrop::drop(waker)
         }
-- 
2.43.0


From 71802d8575c198c6d5720bb75d7143c42496ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 32/73] fix: a failed first insertion leaves the allocator in
 the set

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index cb4d3cb..1fc2eba 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -411,16 +411,21 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
             None => {
                 // SAFETY: root == None <=> allocator is can be taken to construct a node.
                 let alloc = unsafe { self.alloc.assume_init_read() };
-                self.root = Some(ArcBTreeSetNode(Arc::new_in(
-                    ArcBTreeSetNodeInner::new(
-                        Some(ArcBTreeSetEntry {
-                            value,
-                            smaller: None,
-                        }),
-                        None,
-                    ),
-                    alloc,
-                )));
+                let node = ArcBTreeSetNodeInner::new(
+                    Some(ArcBTreeSetEntry {
+                        value,
+                        smaller: None,
+                    }),
+                    None,
+                );
+                match Arc::try_new_in(node, alloc) {
+                    Ok(root) => self.root = Some(ArcBTreeSetNode(root)),
+                    Err((_, alloc)) => {
+                        // `self` still needs its allocator, as it still has no root.
+                        self.alloc = core::mem::MaybeUninit::new(alloc);
+                        panic!("Allocation failed");
+                    }
+                }
                 None
             }
         }
-- 
2.43.0


From e5cee30025d6e702d7f7456ceb707cbc640b8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 33/73] fix: LibcAlloc::realloc keeps the alignment of blocks
 smaller than it

C only guarantees that realloc's result is aligned for objects that fit in
the requested size.
---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index 0838b36..cab31c1 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -83,8 +83,8 @@ impl crate::alloc::IAlloc for LibcAlloc {
             return core::ptr::null_mut();
         }
         let mut new_ptr = core::ptr::null_mut::<core::ffi::c_void>();
-        if prev.align <= 8 {
-            // SAFETY: `realloc` must be called by a pointer allocated by the corresponding allocator, which is already a safety condition of `IAlloc::free`. It may also fail if the alignment is not correct on some systems, so we avoid calling it if it's too great.
+        if prev.align <= 8 && new_size >= prev.align {
+            // SAFETY: `realloc` must be called by a pointer allocated by the corresponding allocator, which is already a safety condition of `IAlloc::free`. It may also fail if the alignment is not correct on some systems, so we avoid calling it if it's too great, or if the block is too small for the C library to have to honour it.
             new_ptr = unsafe { realloc(ptr.cast(), new_size) };
         };
         if new_ptr.is_null() {
-- 
2.43.0


From cd464222c83c0d11dc7a1476a14cc963d1b768d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 34/73] fix: Result's size is a multiple of its alignment

With payloads such as ([u32; 3], u64) or ([u64; 0], u8), the computed size was not a multiple of
the alignment, so the storage was smaller than the payloads written to it.
---
 stabby-abi/src/result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index e48a4cc..0cb7b1c 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -47,8 +47,8 @@ where
     Ok: IDeterminantProvider<Err>,
     Err: IStable,
 {
-    /// The size is the max of the variants' sizes, plus the size of the determinant upgraded to a multiple of the alignment.
-    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <Ok::Size as Unsigned>::Max<Err::Size>);
+    /// The size is the max of the variants' sizes upgraded to a multiple of the alignment, plus the size of the determinant upgraded to a multiple of the alignment.
+    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <<Ok::Size as Unsigned>::Max<Err::Size> as Unsigned>::NextMultipleOf<Self::Align>);
     /// The alignment is the max of the variants' alignments.
     type Align = <Ok::Align as Alignment>::Max<Err::Align>;
     // If either variant may contain an indirection, so may their sum-type.
-- 
2.43.0


From 4e5d54fe96b28a08a550d8223415b5621c76712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 35/73] fix: BitDeterminant may hold any byte

It exports its 7 high bits as unused, so enclosing sum types set them; as an enum with two values,
it then held an invalid value and nested sums were misread.
---
 stabby-abi/src/enums/mod.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 6268d0d..5a0b1f5 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -40,13 +40,28 @@ pub trait IDeterminant: IStable {
 }
 
 /// If no niche can be found, an external tag is used.
-#[repr(u8)]
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-pub enum BitDeterminant {
+///
+/// Only its lowest bit is significant: the others are exported as unused bits, so sum types that contain it may set them.
+#[repr(transparent)]
+#[derive(Debug, Clone, Copy)]
+pub struct BitDeterminant(u8);
+#[allow(non_upper_case_globals)]
+impl BitDeterminant {
     /// The union is in the `ok` state.
-    Ok = 0,
+    pub const Ok: Self = Self(0);
     /// The union is in the `err` state.
-    Err = 1,
+    pub const Err: Self = Self(1);
+}
+impl PartialEq for BitDeterminant {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 & 1 == other.0 & 1
+    }
+}
+impl Eq for BitDeterminant {}
+impl core::hash::Hash for BitDeterminant {
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        (self.0 & 1).hash(state)
+    }
 }
 // SAFETY: This is core to stabby's sum types: any sum type is a test of this.
 unsafe impl IStable for BitDeterminant {
@@ -69,7 +84,7 @@ impl IDeterminant for BitDeterminant {
         BitDeterminant::Err
     }
     fn is_det_ok(&self, _: *const u8) -> bool {
-        (*self as u8 & 1) == 0
+        (self.0 & 1) == 0
     }
     type IsNicheTrick = B0;
 }
-- 
2.43.0


From a056685c880a1a3214098327ebd9bca6f86d3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 36/73] fix: sum types don't read uninitialized padding

A determinant stored in a padding bit was read-modified-written in a byte that writing the payload
may have left uninitialized, for any bit but the lowest.
---
 stabby-abi/src/enums/mod.rs | 12 ++++--------
 stabby-abi/src/istable.rs   | 12 ++++++++++++
 stabby-abi/src/result.rs    | 31 +++++++++++++++++++++++--------
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 5a0b1f5..c9694d6 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -27,11 +27,13 @@ use crate::*;
 pub trait IDeterminant: IStable {
     /// Sets the union in `ok` state.
     /// # Safety
-    /// This function MUST be called after setting `union` to a valid value for type `Ok`
+    /// This function MUST be called after setting `union` to a valid value for type `Ok`,
+    /// with the bytes that `Ok` doesn't use being initialized.
     unsafe fn ok(union: *mut u8) -> Self;
     /// Sets the union in `err` state.
     /// # Safety
-    /// This function MUST be called after setting `union` to a valid value for type `Err`
+    /// This function MUST be called after setting `union` to a valid value for type `Err`,
+    /// with the bytes that `Err` doesn't use being initialized.
     unsafe fn err(union: *mut u8) -> Self;
     /// Returns the state of the union.
     fn is_det_ok(&self, union: *const u8) -> bool;
@@ -176,17 +178,11 @@ impl<Offset, Mask> Unpin for BitIsErr<Offset, Mask> {}
 impl<Offset: Unsigned, Mask: Unsigned> IDeterminant for BitIsErr<Offset, Mask> {
     unsafe fn ok(union: *mut u8) -> Self {
         let ptr = union;
-        if Mask::U8 == 1 {
-            *ptr.add(Offset::USIZE) = 0;
-        }
         *ptr.add(Offset::USIZE) &= u8::MAX ^ Mask::U8;
         BitIsErr(PhantomData)
     }
     unsafe fn err(union: *mut u8) -> Self {
         let ptr = union;
-        if Mask::U8 == 1 {
-            *ptr.add(Offset::USIZE) = 0;
-        }
         *ptr.add(Offset::USIZE) |= Mask::U8;
         BitIsErr(PhantomData)
     }
diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index d996611..5bea072 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -232,6 +232,11 @@ pub trait IBitMask {
     type ExtractedBitByteOffset: Unsigned;
     /// Obtain the determinant's mask.
     type ExtractedBitMask: Unsigned;
+    /// Writes `0` in every byte whose mask is `FF`, starting from `ptr`: such bytes may be uninitialized.
+    ///
+    /// # Safety
+    /// `ptr` must be valid for writes of those bytes, and `self` must describe the unused bits of the value there.
+    unsafe fn clear_free_bytes(ptr: *mut u8);
 }
 impl IBitMask for End {
     const TUPLE: Self::Tuple = ();
@@ -244,6 +249,7 @@ impl IBitMask for End {
     type ExtractBit = End;
     type ExtractedBitMask = Saturator;
     type ExtractedBitByteOffset = Saturator;
+    unsafe fn clear_free_bytes(_: *mut u8) {}
 }
 impl<Offset: Unsigned, T: NonZero, Rest: IBitMask> IBitMask for Array<Offset, T, Rest> {
     const TUPLE: Self::Tuple = ((Offset::USIZE, T::USIZE), Rest::TUPLE);
@@ -269,6 +275,12 @@ impl<Offset: Unsigned, T: NonZero, Rest: IBitMask> IBitMask for Array<Offset, T,
         >;
     type ExtractedBitByteOffset = Offset;
     type ExtractedBitMask = T::TruncateAtRightmostOne;
+    unsafe fn clear_free_bytes(ptr: *mut u8) {
+        if T::USIZE == 0xFF {
+            *ptr.add(Offset::USIZE) = 0;
+        }
+        Rest::clear_free_bytes(ptr)
+    }
 }
 /// A set of possibly multi-byte forbidden values.
 pub trait IForbiddenValues {
diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 0cb7b1c..6aad517 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -94,10 +94,6 @@ impl<Size: Unsigned, Align: Alignment + Alignment> Storage<Size, Align> {
     const fn as_ptr(&self) -> *const u8 {
         self as *const Self as *const _
     }
-    #[rustversion::attr(since(1.86), const)]
-    fn as_mut_ptr(&mut self) -> *mut u8 {
-        self as *mut Self as *mut _
-    }
 }
 
 impl<Ok: Clone, Err: Clone> Clone for Result<Ok, Err>
@@ -237,6 +233,25 @@ where
     ) -> *mut Determinant<Ok, Err> {
         storage.cast()
     }
+    /// Marks the storage as containing an `Ok`. Writing one may have left the bytes it doesn't use,
+    /// in which the determinant may be, uninitialized.
+    unsafe fn mark_ok(
+        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
+    ) -> Determinant<Ok, Err> {
+        if <<Determinant<Ok, Err> as IDeterminant>::IsNicheTrick as Bit>::BOOL {
+            <Ok::UnusedBits as IBitMask>::clear_free_bytes(Self::ok_ptr_mut(storage).cast());
+        }
+        Determinant::<Ok, Err>::ok(storage.cast())
+    }
+    /// Marks the storage as containing an `Err`. See [`Self::mark_ok`].
+    unsafe fn mark_err(
+        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
+    ) -> Determinant<Ok, Err> {
+        if <<Determinant<Ok, Err> as IDeterminant>::IsNicheTrick as Bit>::BOOL {
+            <Err::UnusedBits as IBitMask>::clear_free_bytes(Self::err_ptr_mut(storage).cast());
+        }
+        Determinant::<Ok, Err>::err(storage.cast())
+    }
     /// Construct the `Ok` variant.
     #[allow(non_snake_case)]
     pub fn Ok(value: Ok) -> Self {
@@ -244,7 +259,7 @@ where
         unsafe {
             let storage_ptr = storage.as_mut_ptr();
             Self::ok_ptr_mut(storage_ptr).write(value);
-            Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::ok(storage_ptr.cast()));
+            Self::det_ptr_mut(storage_ptr).write(Self::mark_ok(storage_ptr));
             Self {
                 storage: storage.assume_init(),
             }
@@ -257,7 +272,7 @@ where
         unsafe {
             let storage_ptr = storage.as_mut_ptr();
             Self::err_ptr_mut(storage_ptr).write(value);
-            Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::err(storage_ptr.cast()));
+            Self::det_ptr_mut(storage_ptr).write(Self::mark_err(storage_ptr));
             Self {
                 storage: storage.assume_init(),
             }
@@ -515,7 +530,7 @@ where
 {
     fn drop(&mut self) {
         if <<Determinant<Ok, Err> as IDeterminant>::IsNicheTrick as Bit>::BOOL {
-            unsafe { Determinant::<Ok, Err>::ok(self.inner.storage.as_mut_ptr()) };
+            unsafe { Result::<Ok, Err>::mark_ok(&mut self.inner.storage) };
         }
     }
 }
@@ -558,7 +573,7 @@ where
 {
     fn drop(&mut self) {
         if <<Determinant<Ok, Err> as IDeterminant>::IsNicheTrick as Bit>::BOOL {
-            unsafe { Determinant::<Ok, Err>::err(self.inner.storage.as_mut_ptr()) };
+            unsafe { Result::<Ok, Err>::mark_err(&mut self.inner.storage) };
         }
     }
 }
-- 
2.43.0


From b4096c41d19151303cf534116ec0af9eda8f6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 37/73] fix: enums with a plain integer tag describe their real
 layout

Without repr(C), each variant of #[repr(u8)] enum E { A(u64), B(u8) } places its payload right after
the tag, but stabby computed the layout of repr(C, u8): B's payload was declared to be padding, so
wrapping such enums in sum types corrupted them.
---
 stabby-abi/src/istable.rs  | 15 +++++++++++++++
 stabby-abi/src/lib.rs      |  4 ++++
 stabby-macros/src/enums.rs | 12 +++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index 5bea072..99b7d83 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -550,6 +550,21 @@ unsafe impl<A: IStable, B: IStable> IStable for Union<A, B> {
     primitive_report!("Union");
 }
 
+// SAFETY: Purely computational. A bit is unused if both variants (padded to the size of the union) leave it unused.
+unsafe impl<A: IStable, B: IStable> IStable for crate::TaggedUnion<A, B> {
+    type ForbiddenValues = End;
+    type UnusedBits = <crate::enums::UnionMemberUnusedBits<A, B, U0> as IBitMask>::BitAnd<
+        crate::enums::UnionMemberUnusedBits<B, A, U0>,
+    >;
+    type Size = <Union<A, B> as IStable>::Size;
+    type Align = <Union<A, B> as IStable>::Align;
+    type HasExactlyOneNiche = B0;
+    type ContainsIndirections = <A::ContainsIndirections as Bit>::Or<B::ContainsIndirections>;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = <Union<A, B> as IStable>::CType;
+    primitive_report!("TaggedUnion");
+}
+
 /// Computes a `T`-typed field's layout when it's after `Start` bytes, taking `T`'s alignment into account.
 pub struct AlignedAfter<T, Start: Unsigned>(core::marker::PhantomData<(T, Start)>);
 
diff --git a/stabby-abi/src/lib.rs b/stabby-abi/src/lib.rs
index 8cf7d0e..d1a231a 100644
--- a/stabby-abi/src/lib.rs
+++ b/stabby-abi/src/lib.rs
@@ -370,6 +370,10 @@ pub struct Struct<T>(T);
 /// Used by proc-macros to ensure a list of fields gets the proper end padding when specific alignments are requested.
 pub struct AlignedStruct<T, Align>(core::marker::PhantomData<(T, Align)>);
 
+/// Computes the layout of a union of two variants of an enum that starts with the same tag.
+/// Contrary to that of [`Union`], it exports the bits that neither variant uses.
+pub struct TaggedUnion<A, B>(core::marker::PhantomData<(A, B)>);
+
 /// Used by [`crate::result::Result`]
 #[repr(C)]
 pub union Union<A, B> {
diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index cf2cb1a..ba239e5 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -174,6 +174,7 @@ pub fn stabby(
         todo!("empty enums are not supported by stabby YET")
     }
     let mut layout = quote!(());
+    let mut payloads = Vec::new();
     let DataEnum { variants, .. } = &data;
     let mut has_non_empty_fields = false;
     let unit: syn::Type = syn::parse2(quote!(())).unwrap();
@@ -221,6 +222,7 @@ pub fn stabby(
                     let f = f.unnamed.first().unwrap();
                     let ty = f.ty.unself(&ident);
                     layout = quote!(#st::Union<#layout, core::mem::ManuallyDrop<#ty>>);
+                    payloads.push(ty.clone());
                     report.add_field(variant.ident.to_string(), ty);
                 }
             }
@@ -270,7 +272,15 @@ pub fn stabby(
     } else {
         quote!(#[repr(#reprid)])
     };
-    layout = quote!(#st::Tuple<#reprid, #layout>);
+    layout = if repr.is_some_and(|r| r.is_c) {
+        quote!(#st::Tuple<#reprid, #layout>)
+    } else {
+        // Without `repr(C)`, each variant places its payload right after the tag, according to its own alignment only.
+        payloads.iter().fold(
+            quote!(#reprid),
+            |layout, ty| quote!(#st::TaggedUnion<#layout, #st::Tuple<#reprid, core::mem::ManuallyDrop<#ty>>>),
+        )
+    };
     report.tyty = crate::Tyty::Enum(trepr);
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
-- 
2.43.0


From f1d4f47ff202ddd23587fe962a57a2bcbb451184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 38/73] fix: structs with a requested alignment are laid out in
 order, with that alignment

---
 stabby-macros/src/structs.rs | 75 ++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index faebcbd..7a86b32 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -63,27 +63,45 @@ enum AllowedRepr {
 }
 impl syn::parse::Parse for AllowedRepr {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
-        let mut content = input.fork();
-        if input.peek(syn::token::Paren) {
-            syn::parenthesized!(content in input);
-        }
-        let ident: Ident = content.parse()?;
-        Ok(match ident.to_string().as_str() {
-            "C" => AllowedRepr::C,
-            "transparent" => AllowedRepr::Transparent,
-            "packed" => return Err(input.error("stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
-            "align" => {
-                let input = content;
-                syn::parenthesized!(content in input);
-                let lit: syn::LitInt = content.parse()?;
-                AllowedRepr::Align(lit.base10_parse()?)
-            }
-            _ => {
-                return Err(input.error(
-                    "Only #[repr(C)] and #[repr(transparent)] are allowed for stabby structs",
-                ))
+        let content;
+        syn::parenthesized!(content in input);
+        let mut repr = AllowedRepr::C;
+        while !content.is_empty() {
+            let ident: Ident = content.parse()?;
+            repr = repr.merge(match ident.to_string().as_str() {
+                "C" => AllowedRepr::C,
+                "transparent" => AllowedRepr::Transparent,
+                "packed" => return Err(syn::Error::new(ident.span(), "stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
+                "align" => {
+                    let lit;
+                    syn::parenthesized!(lit in content);
+                    let lit: syn::LitInt = lit.parse()?;
+                    AllowedRepr::Align(lit.base10_parse()?)
+                }
+                _ => {
+                    return Err(syn::Error::new(
+                        ident.span(),
+                        "Only #[repr(C)] and #[repr(transparent)] are allowed for stabby structs",
+                    ))
+                }
+            });
+            if !content.is_empty() {
+                content.parse::<syn::Token!(,)>()?;
             }
-        })
+        }
+        Ok(repr)
+    }
+}
+impl AllowedRepr {
+    /// The repr obtained by applying both `self` and `other`.
+    fn merge(self, other: Self) -> Self {
+        match (self, other) {
+            (AllowedRepr::Align(a), AllowedRepr::Align(b)) => AllowedRepr::Align(a.max(b)),
+            (AllowedRepr::C, other) => other,
+            (this, AllowedRepr::C) => this,
+            (AllowedRepr::Transparent, other) => other,
+            (this, AllowedRepr::Transparent) => this,
+        }
     }
 }
 impl quote::ToTokens for AllowedRepr {
@@ -122,14 +140,15 @@ pub fn stabby(
     let clauses = where_clause.as_ref().map(|w| &w.predicates);
     let mut layout = None;
     let mut report = crate::Report::r#struct(ident.to_string(), version, module);
-    let repr = attrs.iter().find_map(|attr| {
-        if attr.path.is_ident("repr") {
-            syn::parse2::<AllowedRepr>(attr.tokens.clone()).ok()
-        } else {
-            None
-        }
-    });
-    let repr_attr = repr.is_none().then(|| quote! {#[repr(C)]});
+    let repr = attrs
+        .iter()
+        .filter(|attr| attr.path.is_ident("repr"))
+        .map(|attr| {
+            syn::parse2::<AllowedRepr>(attr.tokens.clone()).unwrap_or_else(|e| panic!("{e}"))
+        })
+        .reduce(AllowedRepr::merge);
+    // Requesting an alignment isn't enough to get fields laid out in order.
+    let repr_attr = matches!(repr, None | Some(AllowedRepr::Align(_))).then(|| quote! {#[repr(C)]});
     optimize &= !matches!(repr, Some(AllowedRepr::Align(_)));
     let struct_code = match &fields {
         syn::Fields::Named(fields) => {
-- 
2.43.0


From f1912481f704be37e787b6ac303622a3589812ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 39/73] fix: c_void's size and Ordering's niches are the real
 ones

---
 stabby-abi/src/stable_impls/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index b1aac12..043dd3d 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -278,10 +278,12 @@ unsafe impl IStable for core::marker::PhantomPinned {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for core::ffi::c_void {
-    same_as!(());
+    // `c_void` is an enum that takes a byte.
+    same_as!(bool, "core::ffi::c_void");
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
-    primitive_report!("core::ffi::c_void");
 }
+check!(core::ffi::c_void);
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for bool {
     type Align = U1;
@@ -1001,7 +1003,7 @@ unsafe impl IStable for core::cmp::Ordering {
     type Size = U1;
     type ForbiddenValues = crate::istable::ForbiddenRange<U2, U254, U0>;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B0;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
     #[cfg(feature = "experimental-ctypes")]
     type CType = u8;
-- 
2.43.0


From 70d535f2f974755dcf5b08a36da815b4bcbf87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 40/73] fix: file descriptors have one niche

---
 stabby-abi/src/stable_impls/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 043dd3d..600114d 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -931,16 +931,18 @@ mod abi_stable;
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::OwnedFd {
-    same_as!(core::ffi::c_int);
+    // `-1` is the only value the compiler knows to be forbidden.
+    same_as!(core::ffi::c_int, "std::os::fd::OwnedFd");
+    type HasExactlyOneNiche = B1;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::OwnedFd");
 }
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::BorrowedFd<'_> {
-    same_as!(core::ffi::c_int);
+    // `-1` is the only value the compiler knows to be forbidden.
+    same_as!(core::ffi::c_int, "std::os::fd::BorrowedFd");
+    type HasExactlyOneNiche = B1;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::BorrowedFd");
 }
 
 const ARRAY_NAME: [&str; 129] = [
-- 
2.43.0


From 4b21d049e24ce65f697e708e7f3f0d966e50af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 41/73] fix: enums with an integer tag don't claim to have no
 niches

---
 stabby-macros/src/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index ba239e5..788371d 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -321,7 +321,7 @@ pub fn stabby(
             type UnusedBits =<#layout as #st::IStable>::UnusedBits;
             type Size = <#layout as #st::IStable>::Size;
             type Align = <#layout as #st::IStable>::Align;
-            type HasExactlyOneNiche = #st::B0;
+            type HasExactlyOneNiche = #st::istable::Saturator;
             type ContainsIndirections = <#layout as #st::IStable>::ContainsIndirections;
             #ctype
             const REPORT: &'static #st::report::TypeReport = & #report;
-- 
2.43.0


From 9ea6bd8e3b6eff6ca9dd170f7ff56ba6d961375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 42/73] fix: core Results with an aligned zero-sized variant
 don't have a stable layout

---
 stabby-abi/src/stable_impls/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 600114d..4700026 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -762,8 +762,8 @@ where
         <HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Err::Size)> as IStable>::REPORT;
     const ID: u64 = crate::report::gen_id(Self::REPORT);
 }
-// SAFETY: Automatic checks verify this.
-unsafe impl<Ok: IStable, Err: IStable> IStable
+// SAFETY: Rust guarantees this layout, provided that the zero-sized variant's alignment is 1.
+unsafe impl<Ok: IStable, Err: IStable<Align = U1>> IStable
     for HasExactlyOneNiche<core::result::Result<Ok, Err>, (B1, U0)>
 {
     type Size = Ok::Size;
@@ -799,8 +799,8 @@ where
         <HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Ok::Size)> as IStable>::REPORT;
     const ID: u64 = crate::report::gen_id(Self::REPORT);
 }
-// SAFETY: Automatic checks verify this.
-unsafe impl<Ok: IStable, Err: IStable, T> IStable
+// SAFETY: Rust guarantees this layout, provided that the zero-sized variant's alignment is 1.
+unsafe impl<Ok: IStable<Align = U1>, Err: IStable, T> IStable
     for HasExactlyOneNiche<HasExactlyOneNiche<core::result::Result<Ok, Err>, T>, (B1, U0)>
 {
     type Size = Err::Size;
-- 
2.43.0


From 35d976e2839d91d98a971e011b0999fb4ff78415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 43/73] fix: trait objects over references used the address of
 the reference instead of that of its pointee

---
 stabby-abi/src/fatptr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 69aa144..b0f945b 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -52,17 +52,17 @@ pub trait IPtrClone: IPtrOwned {
 }
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(self)
     }
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(self)
     }
 }
 impl<T> IPtrMut for &mut T {
     unsafe fn as_mut<U>(&mut self) -> &mut U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&mut T, &mut U>(self)
     }
 }
 impl<T> IPtrOwned for &mut T {
-- 
2.43.0


From d511a50efa39a444da6f2e1c263029e5eaa2c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 44/73] fix: reading an AtomicArc could take ownership of a
 value another thread was releasing

---
 stabby-abi/src/alloc/sync.rs | 98 ++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 39 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index fb7a63c..b9a6b31 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -856,6 +856,8 @@ impl<'a, Vt: HasDropVt + IStable, Alloc: IAlloc> Dyn<'a, Weak<(), Alloc>, Vt> {
 /// An owner of an [`Arc<T, Alloc>`] whose pointee can be atomically changed.
 pub struct AtomicArc<T, Alloc: IAlloc> {
     ptr: AtomicPtr<T>,
+    /// The number of threads that may have read `ptr` without owning its pointee yet.
+    readers: AtomicUsize,
     alloc: core::marker::PhantomData<*const Alloc>,
 }
 // SAFETY: Same constraints as in `std`.
@@ -885,18 +887,50 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
             ptr: AtomicPtr::new(unsafe {
                 core::mem::transmute::<Option<Arc<T, Alloc>>, *mut T>(value)
             }),
+            readers: AtomicUsize::new(0),
             alloc: PhantomData,
         }
     }
-    /// Atomically load the current value.
-    pub fn load(&self, order: Ordering) -> MaybeArc<T, Alloc> {
-        let ptr = NonNull::new(self.ptr.load(order))?;
-        unsafe {
-            Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-            Some(Arc::from_raw(AllocPtr {
+    /// Reads the current pointer using `read`, and takes a share of its pointee's ownership if `read` returns `Err`.
+    ///
+    /// As long as `readers` isn't 0, replaced values are not released, making it safe to take ownership of the one that was read.
+    fn read(
+        &self,
+        read: impl FnOnce(&AtomicPtr<T>) -> Result<*mut T, *mut T>,
+    ) -> Result<*mut T, MaybeArc<T, Alloc>> {
+        self.readers.fetch_add(1, Ordering::SeqCst);
+        let result = read(&self.ptr).map_err(|ptr| {
+            NonNull::new(ptr).map(|ptr| unsafe {
+                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
+                Arc::from_raw(AllocPtr {
+                    ptr,
+                    marker: PhantomData,
+                })
+            })
+        });
+        self.readers.fetch_sub(1, Ordering::SeqCst);
+        result
+    }
+    /// Takes ownership of a pointer that was just removed from `self`, once no reader may still be about to take its own share.
+    fn removed(&self, ptr: *mut T) -> MaybeArc<T, Alloc> {
+        let ptr = NonNull::new(ptr)?;
+        while self.readers.load(Ordering::SeqCst) != 0 {
+            core::hint::spin_loop();
+        }
+        Some(unsafe {
+            Arc::from_raw(AllocPtr {
                 ptr,
                 marker: PhantomData,
-            }))
+            })
+        })
+    }
+    /// Atomically load the current value.
+    ///
+    /// Note that all accesses are at least as strong as the requested ordering.
+    pub fn load(&self, _order: Ordering) -> MaybeArc<T, Alloc> {
+        match self.read(|ptr| Err(ptr.load(Ordering::SeqCst))) {
+            Ok(_) => None,
+            Err(value) => value,
         }
     }
     /// Atomically store a new value.
@@ -910,23 +944,18 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
     pub fn is(
         &self,
         current: Option<&Arc<T, Alloc>>,
-        order: Ordering,
+        _order: Ordering,
     ) -> Result<(), MaybeArc<T, Alloc>> {
-        let ptr = NonNull::new(self.ptr.load(order));
-        match (ptr, current) {
-            (None, None) => Ok(()),
-            (None, _) => Err(None),
-            (Some(ptr), Some(current)) if core::ptr::eq(ptr.as_ptr(), current.ptr.as_ptr()) => {
-                Ok(())
+        let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
+        self.read(|ptr| {
+            let ptr = ptr.load(Ordering::SeqCst);
+            if core::ptr::eq(ptr, current) {
+                Ok(ptr)
+            } else {
+                Err(ptr)
             }
-            (Some(ptr), _) => unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Err(Some(Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })))
-            },
-        }
+        })
+        .map(|_| ())
     }
     /// Replace the current value with the new value.
     /// # Errors
@@ -935,19 +964,16 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
         &self,
         current: Option<&Arc<T, Alloc>>,
         new: MaybeArc<T, Alloc>,
-        success: Ordering,
-        failure: Ordering,
+        _success: Ordering,
+        _failure: Ordering,
     ) -> Result<MaybeArc<T, Alloc>, MaybeArc<T, Alloc>> {
         let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
         let new = new.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        match self.ptr.compare_exchange(current, new, success, failure) {
-            Ok(ptr) => Ok(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
-            Err(ptr) => {
+        match self
+            .read(|ptr| ptr.compare_exchange(current, new, Ordering::SeqCst, Ordering::SeqCst))
+        {
+            Ok(ptr) => Ok(self.removed(ptr)),
+            Err(value) => {
                 // `new` wasn't installed, so its ownership wasn't transferred.
                 if let Some(ptr) = NonNull::new(new) {
                     core::mem::drop(unsafe {
@@ -957,13 +983,7 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
                         })
                     });
                 }
-                Err(NonNull::new(ptr).map(|ptr| unsafe {
-                    Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                    Arc::from_raw(AllocPtr {
-                        ptr,
-                        marker: PhantomData,
-                    })
-                }))
+                Err(value)
             }
         }
     }
-- 
2.43.0


From 6a0bf26c4c97f0d2963ecc7bf10ea527a8d0c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 45/73] fix: AtomicArc::store leaked the value it replaced

---
 stabby-abi/src/alloc/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index b9a6b31..25fa0cb 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -933,10 +933,10 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
             Err(value) => value,
         }
     }
-    /// Atomically store a new value.
-    pub fn store(&self, value: MaybeArc<T, Alloc>, order: Ordering) {
+    /// Atomically store a new value, releasing the previous one.
+    pub fn store(&self, value: MaybeArc<T, Alloc>, _order: Ordering) {
         let ptr = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        self.ptr.store(ptr, order)
+        core::mem::drop(self.removed(self.ptr.swap(ptr, Ordering::SeqCst)))
     }
     /// Compares `self` with `current` by pointer.
     /// # Errors
-- 
2.43.0


From ebb5557e779c2c2ed75e3e06f49f26e52c0ae848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 46/73] fix: traits with unsafe methods could not be annotated

---
 stabby-macros/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index cd83189..8ebdcd7 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -443,7 +443,7 @@ impl DynTraitFn<'_> {
             quote!(-> #ty)
         });
         let inputs = inputs.iter().map(|ty| ty.replace_self(self_as_trait));
-        quote!(#forgen #generics #abi #unsafety fn(#receiver, #(#inputs),*) #output)
+        quote!(#forgen #generics #unsafety #abi fn(#receiver, #(#inputs),*) #output)
     }
     fn stability_cond(&self, sdts: &SelfDependentTypes) -> TokenStream {
         let st = crate::tl_mod();
@@ -494,7 +494,7 @@ impl DynTraitFn<'_> {
             quote!(-> #ty)
         });
         let forgen = (!generics.params.is_empty()).then(|| quote!(for));
-        quote!(#forgen #generics #abi #unsafety fn(#receiver, #(#inputs),*) #output)
+        quote!(#forgen #generics #unsafety #abi fn(#receiver, #(#inputs),*) #output)
     }
 }
 impl DynTraitDescription<'_> {
-- 
2.43.0


From e8bc7c2ae62ec4a0d99da31d7cc5402cd1584e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 47/73] fix: method tables of one type compared unequal
 depending on where they were stored

---
 stabby-abi/src/vtable/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index e9bbb91..4334d48 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -363,9 +363,10 @@ impl Hash for VtDrop {
 }
 impl PartialEq for VtDrop {
     fn eq(&self, other: &Self) -> bool {
+        // Compare the functions, not where their pointers are stored.
         core::ptr::eq(
-            unsafe { self.drop.as_ref_unchecked() } as *const unsafe extern "C" fn(&mut ()),
-            unsafe { other.drop.as_ref_unchecked() } as *const unsafe extern "C" fn(&mut ()),
+            (*unsafe { self.drop.as_ref_unchecked() }) as *const (),
+            (*unsafe { other.drop.as_ref_unchecked() }) as *const (),
         )
     }
 }
-- 
2.43.0


From 4be76fcfe986fedf6681cf148c796f88198851f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 48/73] fix: #[stabby::stabby] async fns did not move their
 arguments into the future, so any that used them after the call did not
 compile

---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index 4e12d77..d8e5033 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -146,7 +146,7 @@ pub fn stabby(attrs: Attrs, fn_spec: syn::ItemFn) -> proc_macro2::TokenStream {
         }
         let vt: TokenStream = crate::vtable(future.into()).into();
         let output = quote!( -> #st::Dyn<#lt, Box<()>, #vt>);
-        (output, quote!(Box::new(async {#block}).into()))
+        (output, quote!(Box::new(async move {#block}).into()))
     } else {
         (quote!(#output), quote!(#block))
     };
-- 
2.43.0


From 4380b407cde1668c5e8b3454dbcfac179434140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 49/73] fix: owned strings could only be deserialized from text
 borrowed from the input (no escapes, no streams)

---
 stabby-abi/src/alloc/string.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/string.rs b/stabby-abi/src/alloc/string.rs
index 6ab2b5b..698a764 100644
--- a/stabby-abi/src/alloc/string.rs
+++ b/stabby-abi/src/alloc/string.rs
@@ -371,7 +371,10 @@ mod std_impl {
 mod serde_impl {
     use super::*;
     use crate::alloc::IAlloc;
-    use serde::{Deserialize, Serialize};
+    use serde::{
+        de::{Error, Unexpected, Visitor},
+        Deserialize, Serialize,
+    };
     impl<Alloc: IAlloc> Serialize for String<Alloc> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -386,7 +389,24 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            crate::str::Str::deserialize(deserializer).map(Into::into)
+            // The text may not be borrowable from the input: it may have been unescaped, or read from a stream.
+            deserializer.deserialize_string(StringVisitor(core::marker::PhantomData))
+        }
+    }
+    struct StringVisitor<Alloc>(core::marker::PhantomData<Alloc>);
+    impl<Alloc: IAlloc + Default> Visitor<'_> for StringVisitor<Alloc> {
+        type Value = String<Alloc>;
+        fn expecting(&self, formatter: &mut core::fmt::Formatter) -> core::fmt::Result {
+            formatter.write_str("a string")
+        }
+        fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+            Ok(v.into())
+        }
+        fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(v) {
+                Ok(v) => Ok(v.into()),
+                Err(_) => Err(E::invalid_value(Unexpected::Bytes(v), &self)),
+            }
         }
     }
 }
-- 
2.43.0


From fbd97ba3e609f7b08c774af544e3cccbb0261e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 50/73] fix: Str and Slice<u8> refused borrowed bytes and text
 that &str and &[u8] deserialize from

---
 stabby-abi/src/slice.rs | 6 ++++++
 stabby-abi/src/str.rs   | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/stabby-abi/src/slice.rs b/stabby-abi/src/slice.rs
index a97d078..d2f91fd 100644
--- a/stabby-abi/src/slice.rs
+++ b/stabby-abi/src/slice.rs
@@ -239,6 +239,12 @@ mod serde_impl {
         {
             Ok(v.into())
         }
+        fn visit_borrowed_str<E>(self, v: &'a str) -> Result<Self::Value, E>
+        where
+            E: serde::de::Error,
+        {
+            Ok(v.as_bytes().into())
+        }
         fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
             write!(formatter, "A borrowed_str")
         }
diff --git a/stabby-abi/src/str.rs b/stabby-abi/src/str.rs
index adffa48..07ef696 100644
--- a/stabby-abi/src/str.rs
+++ b/stabby-abi/src/str.rs
@@ -167,6 +167,15 @@ mod serde_impl {
         {
             Ok(v.into())
         }
+        fn visit_borrowed_bytes<E>(self, v: &'a [u8]) -> Result<Self::Value, E>
+        where
+            E: serde::de::Error,
+        {
+            match core::str::from_utf8(v) {
+                Ok(v) => Ok(v.into()),
+                Err(_) => Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self)),
+            }
+        }
         fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
             write!(formatter, "A borrowed_str")
         }
-- 
2.43.0


From c46ed5ed39db30fc50dbfd140339fcf1f9852c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 51/73] fix: deserializing a vector allocated whatever length
 the input announced

---
 stabby-abi/src/alloc/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 35d3b8c..f1b6271 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -883,7 +883,10 @@ mod serde_impl {
         where
             A: serde::de::SeqAccess<'a>,
         {
-            let mut this = Vec::with_capacity_in(seq.size_hint().unwrap_or(0), Alloc::default());
+            // The hint comes from the input, and can't be trusted with an arbitrarily large allocation.
+            let max = 1024 * 1024 / core::mem::size_of::<T>().max(1);
+            let capacity = seq.size_hint().unwrap_or(0).min(max);
+            let mut this = Vec::with_capacity_in(capacity, Alloc::default());
             while let Some(v) = seq.next_element()? {
                 this.push(v);
             }
-- 
2.43.0


From e49f0f1bc8a5bd36e57571b3afb15b9193c38d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 52/73] fix: Duration::from_secs_f64 rounds to the nearest
 nanosecond, and refuses what it can't represent

---
 stabby/src/time.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index d3792e9..23f1797 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -35,14 +35,10 @@ impl Duration {
     /// Construct a new [`Duration`].
     ///
     /// # Panics
-    /// if `secs` is negative.
+    /// if `secs` is negative, not finite, or overflows [`Duration`].
     #[cfg(feature = "std")]
     pub fn from_secs_f64(secs: f64) -> Self {
-        assert!(secs >= 0.);
-        Self {
-            secs: secs.floor() as u64,
-            nanos: ((secs % 1.) * 1_000_000_000.) as u32,
-        }
+        core::time::Duration::from_secs_f64(secs).into()
     }
     /// Returns the number of seconds in the duration.
     pub const fn as_secs(&self) -> u64 {
-- 
2.43.0


From 9f206f5f4feb24cd6283b1cc58aea84bc7c1877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 53/73] fix: Duration::new normalises its nanoseconds, and
 AtomicDuration::MAX is a value it can store

---
 stabby/src/time.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index 23f1797..7974301 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -11,10 +11,18 @@ pub struct Duration {
 }
 impl Duration {
     /// Construct a new [`Duration`].
+    ///
+    /// Nanoseconds in excess of a second carry over into the seconds.
+    ///
+    /// # Panics
+    /// if the carry overflows the seconds.
     pub const fn new(secs: u64, subsec_nanos: u32) -> Self {
-        Self {
-            secs,
-            nanos: subsec_nanos,
+        match secs.checked_add((subsec_nanos / 1_000_000_000) as u64) {
+            Some(secs) => Self {
+                secs,
+                nanos: subsec_nanos % 1_000_000_000,
+            },
+            None => panic!("overflow in Duration::new"),
         }
     }
     /// Construct a new [`Duration`].
@@ -135,7 +143,7 @@ impl AtomicDuration {
     /// This type's time resolution.
     pub const RESOLUTION: Duration = Self::i64_to_duration(1).0;
     /// This type's maximum value.
-    pub const MAX: Duration = Self::i64_to_duration(i64::MAX).0;
+    pub const MAX: Duration = Duration::new((i64::MAX >> SHIFT) as u64, 999_999_000);
     /// Atomically loads the stored value, converting it to a duration-sign tuple.
     ///
     /// The [`Ordering`] is used in a single `load` operation.
-- 
2.43.0


From 8d2ebed737beaa446a79777214a71919964edd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 54/73] fix: adding durations panics on overflow in release
 builds too

---
 stabby/src/time.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index 7974301..9cdea0e 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -75,9 +75,13 @@ impl Duration {
 }
 impl core::ops::AddAssign for Duration {
     fn add_assign(&mut self, rhs: Self) {
-        let nanos = self.nanos + rhs.nanos;
-        self.secs += rhs.secs + (nanos / 1_000_000_000) as u64;
-        self.nanos = nanos % 1_000_000_000;
+        let nanos = self.nanos as u64 + rhs.nanos as u64;
+        self.secs = self
+            .secs
+            .checked_add(rhs.secs)
+            .and_then(|secs| secs.checked_add(nanos / 1_000_000_000))
+            .expect("overflow when adding durations");
+        self.nanos = (nanos % 1_000_000_000) as u32;
     }
 }
 impl core::ops::Add for Duration {
-- 
2.43.0


From 4abde08fedb371c450f756deb02295c387d6b18b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 55/73] fix: descriptions tell repr(C) enums from those that
 aren't

---
 stabby-macros/src/enums.rs |  2 +-
 stabby-macros/src/lib.rs   | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index 788371d..2a7150d 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -281,7 +281,7 @@ pub fn stabby(
             |layout, ty| quote!(#st::TaggedUnion<#layout, #st::Tuple<#reprid, core::mem::ManuallyDrop<#ty>>>),
         )
     };
-    report.tyty = crate::Tyty::Enum(trepr);
+    report.tyty = crate::Tyty::Enum(trepr, repr.is_some_and(|r| r.is_c));
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
         let ctype = report.crepr();
diff --git a/stabby-macros/src/lib.rs b/stabby-macros/src/lib.rs
index 6799931..ee36969 100644
--- a/stabby-macros/src/lib.rs
+++ b/stabby-macros/src/lib.rs
@@ -275,7 +275,8 @@ impl From<Report> for Type {
 pub(crate) enum Tyty {
     Struct,
     Union,
-    Enum(enums::Repr),
+    /// The second member tells whether the enum is also `repr(C)`, which affects its layout.
+    Enum(enums::Repr, bool),
 }
 impl ToTokens for Tyty {
     fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
@@ -283,8 +284,8 @@ impl ToTokens for Tyty {
         let tyty = match self {
             Tyty::Struct => quote!(#st::report::TyTy::Struct),
             Tyty::Union => quote!(#st::report::TyTy::Union),
-            Tyty::Enum(r) => {
-                let s = format!("{r:?}");
+            Tyty::Enum(r, is_c) => {
+                let s = format!("{}{r:?}", if *is_c { "C, " } else { "" });
                 quote!(#st::report::TyTy::Enum(#st::str::Str::new(#s)))
             }
         };
@@ -327,7 +328,7 @@ impl Report {
             } else {
                 module
             },
-            tyty: Tyty::Enum(enums::Repr::Stabby),
+            tyty: Tyty::Enum(enums::Repr::Stabby, false),
         }
     }
     pub fn r#union(
@@ -408,7 +409,7 @@ impl Report {
                 }
                 quote! {<#crepr as #st::IStable>::CType}
             }
-            Tyty::Enum(r) => {
+            Tyty::Enum(r, _) => {
                 let mut clone = self.clone();
                 clone.tyty = Tyty::Union;
                 let crepr = clone.crepr();
-- 
2.43.0


From 1787105af8c920a0703ee8863828ee2be196a1bb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 56/73] fix: descriptions mention a struct's requested
 alignment

---
 stabby-macros/src/structs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index 7a86b32..512501e 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -230,6 +230,11 @@ pub fn stabby(
             };
         }
     });
+    if let Some(AllowedRepr::Align(n)) = repr {
+        // The alignment affects the layout, so it must be part of the description.
+        let unit: syn::Type = syn::parse2(quote!(())).unwrap();
+        report.add_field(format!("repr(align({n}))"), unit);
+    }
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
         if matches!(repr, Some(AllowedRepr::Align(_))) {
-- 
2.43.0


From e7214cd6edf98b17ce5f9131fb446440c2f42056 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 57/73] fix: descriptions mention explicit discriminants

---
 stabby-macros/src/enums.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index 2a7150d..97a0193 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -180,6 +180,16 @@ pub fn stabby(
     let unit: syn::Type = syn::parse2(quote!(())).unwrap();
     let mut report = crate::Report::r#enum(ident.to_string(), version, module.clone());
     for variant in variants {
+        // The discriminants are part of the ABI, so they must be part of the description.
+        let reported_name = match &variant.discriminant {
+            Some((_, value)) => {
+                let value = quote!(#value).to_string();
+                // Spacing isn't stable across compiler versions.
+                let value = value.split_whitespace().collect::<String>();
+                format!("{} = {value}", variant.ident)
+            }
+            None => variant.ident.to_string(),
+        };
         match &variant.fields {
             syn::Fields::Named(f) if matches!(repr, Some(FullRepr { is_c: true, .. })) => {
                 has_non_empty_fields = true;
@@ -193,7 +203,7 @@ pub fn stabby(
                 }
                 variant_layout = quote!(#st::Struct<#variant_layout>);
                 layout = quote!(#st::Union<#layout, core::mem::ManuallyDrop<#variant_layout>>);
-                report.add_field(variant.ident.to_string(), variant_report);
+                report.add_field(reported_name, variant_report);
             }
             syn::Fields::Named(_) => {
                 panic!("stabby only supports named fields in #[repr(C, u*)] enums");
@@ -211,7 +221,7 @@ pub fn stabby(
                     }
                     variant_layout = quote!(#st::Struct<#variant_layout>);
                     layout = quote!(#st::Union<#layout, core::mem::ManuallyDrop<#variant_layout>>);
-                    report.add_field(variant.ident.to_string(), variant_report);
+                    report.add_field(reported_name, variant_report);
                 } else {
                     assert_eq!(
                         f.unnamed.len(),
@@ -223,11 +233,11 @@ pub fn stabby(
                     let ty = f.ty.unself(&ident);
                     layout = quote!(#st::Union<#layout, core::mem::ManuallyDrop<#ty>>);
                     payloads.push(ty.clone());
-                    report.add_field(variant.ident.to_string(), ty);
+                    report.add_field(reported_name, ty);
                 }
             }
             syn::Fields::Unit => {
-                report.add_field(variant.ident.to_string(), unit.clone());
+                report.add_field(reported_name, unit.clone());
             }
         }
     }
-- 
2.43.0


From 17fc9fabc115f32734781bd8e3c7855a92616729 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 58/73] fix: descriptions of core results mention both variants

---
 stabby-abi/src/stable_impls/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 4700026..02020c9 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -780,7 +780,11 @@ unsafe impl<Ok: IStable, Err: IStable<Align = U1>> IStable
         fields: StableLike::new(Some(&report::FieldReport {
             name: Str::new("Ok"),
             ty: Ok::REPORT,
-            next_field: StableLike::new(None),
+            next_field: StableLike::new(Some(&report::FieldReport {
+                name: Str::new("Err"),
+                ty: Err::REPORT,
+                next_field: StableLike::new(None),
+            })),
         })),
         version: 0,
         tyty: report::TyTy::Enum(Str::new("rust")),
@@ -815,9 +819,13 @@ unsafe impl<Ok: IStable<Align = U1>, Err: IStable, T> IStable
         name: Str::new("Result"),
         module: Str::new("core::result"),
         fields: StableLike::new(Some(&report::FieldReport {
-            name: Str::new("Err"),
-            ty: Err::REPORT,
-            next_field: StableLike::new(None),
+            name: Str::new("Ok"),
+            ty: Ok::REPORT,
+            next_field: StableLike::new(Some(&report::FieldReport {
+                name: Str::new("Err"),
+                ty: Err::REPORT,
+                next_field: StableLike::new(None),
+            })),
         })),
         version: 0,
         tyty: report::TyTy::Enum(Str::new("rust")),
-- 
2.43.0


From 4e360bab5b97b6d90ee07732b935003cbf7b2f19 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 59/73] fix: descriptions of restricted integers mention the
 restriction

---
 stabby-abi/src/num.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 18f88f9..6c4f406 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -91,6 +91,39 @@ macro_rules! define_non_max {
         }
     };
 }
+/// Writes `name<n>`, and returns it with its length.
+const fn name_with(name: &str, mut n: u128) -> ([u8; 64], usize) {
+    let name = name.as_bytes();
+    let mut buffer = [0; 64];
+    let mut len = 0;
+    while len < name.len() {
+        buffer[len] = name[len];
+        len += 1;
+    }
+    buffer[len] = b'<';
+    len += 1;
+    let mut digits = 1;
+    let mut rest = n;
+    while rest > 9 {
+        rest /= 10;
+        digits += 1;
+    }
+    let mut i = digits;
+    while i > 0 {
+        i -= 1;
+        buffer[len + i] = b'0' + (n % 10) as u8;
+        n /= 10;
+    }
+    len += digits;
+    buffer[len] = b'>';
+    (buffer, len + 1)
+}
+const fn name_str(name: &'static ([u8; 64], usize)) -> &'static str {
+    // SAFETY: `name_with` wrote `name.1` ASCII bytes to the start of the buffer.
+    unsafe {
+        core::str::from_utf8_unchecked(core::slice::from_raw_parts(name.0.as_ptr(), name.1))
+    }
+}
 macro_rules! define_non_x {
     ($NonMaxU8:ident: $u8: ty = $NonZeroU8: ty; $u8s: literal ) => {
         /// A number whose value is guaranteed not to be `FORBIDDEN`.
@@ -105,6 +138,8 @@ macro_rules! define_non_x {
             inner: $NonZeroU8,
         }
         impl<const FORBIDDEN: $u8> $NonMaxU8<{ FORBIDDEN }> {
+            /// `FORBIDDEN` affects the representation, so it must be part of the reported name.
+            const NAME: ([u8; 64], usize) = name_with(stringify!($NonMaxU8), FORBIDDEN as u128);
             /// Construct `Self`, returning `None` if `n` is the `FORBIDDEN` value.
             pub const fn new(n: $u8) -> Option<Self> {
                 match <$NonZeroU8>::new(n.wrapping_sub(FORBIDDEN)) {
@@ -163,7 +198,7 @@ macro_rules! define_non_x {
             type CType = <$NonZeroU8 as crate::IStable>::CType;
             const ID: u64 = $crate::report::gen_id(Self::REPORT);
             const REPORT: &'static $crate::report::TypeReport = &$crate::report::TypeReport {
-                name: $crate::str::Str::new(stringify!($NonMaxU8)),
+                name: $crate::str::Str::new(name_str(&Self::NAME)),
                 module: $crate::str::Str::new(core::module_path!()),
                 fields: $crate::StableLike::new(None),
                 version: 0,
-- 
2.43.0


From 8673dc34c41f1f2e0536a16303e169ccc9336866 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 60/73] fix: boxed FnOnce's v-table holds functions of the
 signature it is called with

---
 stabby-macros/src/gen_closures.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stabby-macros/src/gen_closures.rs b/stabby-macros/src/gen_closures.rs
index 4c09809..e52b885 100644
--- a/stabby-macros/src/gen_closures.rs
+++ b/stabby-macros/src/gen_closures.rs
@@ -46,6 +46,15 @@ pub fn gen_closures() -> proc_macro2::TokenStream {
 						(#st::alloc::boxed::Box::into_inner(this))(#(#args,)*)
 					}
 				}
+				/// Calls a type-erased `F`, with the very signature the v-table exposes.
+				/// # Safety
+				/// `this` must be the type-erased version of a boxed `F`.
+				unsafe extern "C" fn call_erased<F: FnOnce(#(#argtys,)*) -> O, O #(, #argtys)* >(this: #st::alloc::boxed::Box<()> #(, #args: #argtys)*) -> O {
+					let this = core::mem::ManuallyDrop::new(this);
+					// SAFETY: Both are boxes, and `this` is never used again.
+					let this: #st::alloc::boxed::Box<F> = unsafe { core::mem::transmute_copy(&this) };
+					<F as #co<O #(, #argtys)*>>::call_once(this #(, #args)*)
+				}
 
 				/// The v-table for [`core::ops::FnOnce`]
 				#[crate::stabby]
@@ -85,13 +94,13 @@ pub fn gen_closures() -> proc_macro2::TokenStream {
 						const VTABLE_REF: &'a Self = &Self {
 							// SAFETY: We unsafely construct `stabby::abi::StableLike`
 							call_once: unsafe {
-								core::mem::transmute(<F as #co< O #(, #argtys)* >>::call_once as extern "C" fn(#st::alloc::boxed::Box<F> #(, #argtys)* ) -> O)
+								core::mem::transmute(call_erased::<F, O #(, #argtys)* > as unsafe extern "C" fn(#st::alloc::boxed::Box<()> #(, #argtys)* ) -> O)
 							},
 						}; =>
 						const VTABLE: Self = Self {
 							// SAFETY: We unsafely construct `stabby::abi::StableLike`
 							call_once: unsafe {
-								core::mem::transmute(<F as #co< O #(, #argtys)* >>::call_once as extern "C" fn(#st::alloc::boxed::Box<F> #(, #argtys)* ) -> O)
+								core::mem::transmute(call_erased::<F, O #(, #argtys)* > as unsafe extern "C" fn(#st::alloc::boxed::Box<()> #(, #argtys)* ) -> O)
 							},
 						};
 					);
-- 
2.43.0


From ca0057f863a94b84adc5b50c1c27f09c082d0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 61/73] fix: canaries whose names contain an underscore can be
 asked for by name

---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index d8e5033..c92f21e 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -188,7 +188,7 @@ impl FromStr for CanarySpec {
         }
         let known = Self::ARRAY.iter().map(|s| s.0).collect::<Vec<_>>();
         if s.chars()
-            .any(|c| !(c.is_alphabetic() || c == ' ' || c == ','))
+            .any(|c| !(c.is_alphabetic() || c == '_' || c == ' ' || c == ','))
         {
             return Err(format!("Invalid canary-spec: `{s}` must be a comma-separated list of canary identifiers ({known:?})"));
         }
-- 
2.43.0


From e4434896cc74d08d1a7a4d17cd1ec9dde89d3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 62/73] fix: get_canaried's error is text whatever the symbol's
 name

---
 stabby/src/libloading.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby/src/libloading.rs b/stabby/src/libloading.rs
index f0802bb..e30b3c1 100644
--- a/stabby/src/libloading.rs
+++ b/stabby/src/libloading.rs
@@ -121,7 +121,7 @@ impl StabbyLibrary for libloading::Library {
             if let Err(e) = self.get::<extern "C" fn()>(&[symbol, suffix.as_bytes()].concat()) {
                 return Err(format!(
                     "Canary {symbol}{suffix} not found: {e}",
-                    symbol = std::str::from_utf8_unchecked(symbol)
+                    symbol = String::from_utf8_lossy(symbol)
                 )
                 .into());
             }
-- 
2.43.0


From 90a3a5a40ac8fb3a72d8dd380f06ef99f9c15d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 63/73] fix: sharing a box requires that its allocator may be
 shared

Cloning a box through a shared reference clones its allocator.
---
 stabby-abi/src/alloc/boxed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index dcad38c..d7128c3 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -29,11 +29,11 @@ pub struct Box<T, Alloc: IAlloc = super::DefaultAllocator> {
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for Box<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for BoxedSlice<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for BoxedSlice<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for BoxedSlice<T, Alloc> {}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Box<T> {
-- 
2.43.0


From 9851bf041dbec91976a51d939676673eabbabdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 64/73] fix: imports are only Send and Sync if what they hold
 is

---
 stabby-abi/src/checked_import.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 90db6e4..6577204 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -23,10 +23,10 @@ pub struct CanariedImport<F> {
     checked: AtomicU8,
     canary: extern "C" fn(),
 }
-// SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Send for CanariedImport<F> {}
-// SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Sync for CanariedImport<F> {}
+// SAFETY: The rest of a `CanariedImport` is a function and a flag.
+unsafe impl<F: Send> Send for CanariedImport<F> {}
+// SAFETY: The rest of a `CanariedImport` is a function and an atomic flag.
+unsafe impl<F: Sync> Sync for CanariedImport<F> {}
 impl<F> CanariedImport<F> {
     /// Used in `#[stabby::import(canaries)]`
     pub const fn new(source: F, canary_caller: extern "C" fn()) -> Self {
@@ -57,10 +57,10 @@ pub struct CheckedImport<F> {
     get_report: unsafe extern "C" fn() -> &'static crate::report::TypeReport,
     local_report: &'static crate::report::TypeReport,
 }
-// SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Send for CheckedImport<F> {}
-// SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Sync for CheckedImport<F> {}
+// SAFETY: The rest of a `CheckedImport` is functions, a flag and a static report.
+unsafe impl<F: Send> Send for CheckedImport<F> {}
+// SAFETY: Sharing one may let another thread initialize its result, and have this one drop it.
+unsafe impl<F: Send + Sync> Sync for CheckedImport<F> {}
 
 /// When reports mismatch between loader and loadee, both reports are exposed to allow debuging the issue.
 #[crate::stabby]
-- 
2.43.0


From 9e65596ebadb69301a14e5b44eaa88896f85b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 65/73] fix: sending a DynRef requires that its pointee may be
 shared

---
 stabby-abi/src/fatptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index b0f945b..81a0c0f 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -372,7 +372,7 @@ impl<'a, T, Vt: Copy + IConstConstructor<'a, T>> From<&'a T> for DynRef<'a, Vt>
 }
 
 // SAFETY: This is analogous to a reference, and Vt proves the rest
-unsafe impl<Vt: HasSendVt> Send for DynRef<'_, Vt> {}
+unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-- 
2.43.0


From 7cff490d2aa5f5c96d64b82f093429e68673ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 66/73] fix: a trait object behind a shared pointer is only
 Send or Sync if its pointee is both

An Arc lets other threads access its pointee as well as drop it.
---
 stabby-abi/src/alloc/boxed.rs |  4 ++++
 stabby-abi/src/alloc/sync.rs  |  8 ++++++++
 stabby-abi/src/fatptr.rs      | 24 ++++++++++++++++++++----
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index d7128c3..e634aa4 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -233,6 +233,10 @@ impl<T, Alloc: IAlloc> crate::IPtrMut for Box<T, Alloc> {
         self.ptr.cast().as_mut()
     }
 }
+// SAFETY: Boxes are unique.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt> crate::IPtrSend<Vt> for Box<T, Alloc> {}
+// SAFETY: Boxes are unique.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSyncVt> crate::IPtrSync<Vt> for Box<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Box<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         let rthis = &mut ***this;
diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 25fa0cb..97ba63b 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -772,6 +772,10 @@ impl<T, Alloc: IAlloc> crate::IPtrTryAsMut for Arc<T, Alloc> {
         Self::get_mut(self).map(|r| unsafe { core::mem::transmute::<&mut T, &mut U>(r) })
     }
 }
+// SAFETY: The pointee may have other owners on other threads.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt + crate::vtable::HasSyncVt> crate::IPtrSend<Vt> for Arc<T, Alloc> {}
+// SAFETY: The pointee may have other owners on other threads.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt + crate::vtable::HasSyncVt> crate::IPtrSync<Vt> for Arc<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
@@ -801,6 +805,10 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
     }
 }
 
+// SAFETY: The pointee may have other owners on other threads.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt + crate::vtable::HasSyncVt> crate::IPtrSend<Vt> for Weak<T, Alloc> {}
+// SAFETY: The pointee may have other owners on other threads.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt + crate::vtable::HasSyncVt> crate::IPtrSync<Vt> for Weak<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         // Weak pointers own the allocation, not the value within it.
diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 81a0c0f..6b7fba1 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -45,6 +45,18 @@ pub trait IPtrOwned {
     /// Called instead of `Drop::drop` when the dynptr is dropped.
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ()));
 }
+/// Indicates that a dynptr made of `Self` and `Vt` may be sent to other threads if `Self` may be.
+///
+/// # Safety
+/// `Vt` must prove all that sending `Self` requires of its pointee:
+/// [`HasSendVt`] suffices for a unique pointer, but a shared one also requires [`HasSyncVt`].
+pub unsafe trait IPtrSend<Vt> {}
+/// Indicates that a dynptr made of `Self` and `Vt` may be shared with other threads if `Self` may be.
+///
+/// # Safety
+/// `Vt` must prove all that sharing `Self` requires of its pointee:
+/// [`HasSyncVt`] suffices for a unique pointer, but a shared one also requires [`HasSendVt`].
+pub unsafe trait IPtrSync<Vt> {}
 /// Provides Clone support for smart pointers that allow it.
 pub trait IPtrClone: IPtrOwned {
     /// Clone the pointer.
@@ -68,6 +80,10 @@ impl<T> IPtrMut for &mut T {
 impl<T> IPtrOwned for &mut T {
     fn drop(_: &mut core::mem::ManuallyDrop<Self>, _: unsafe extern "C" fn(&mut ())) {}
 }
+// SAFETY: Mutable references are unique.
+unsafe impl<T, Vt: HasSendVt> IPtrSend<Vt> for &mut T {}
+// SAFETY: Mutable references are unique.
+unsafe impl<T, Vt: HasSyncVt> IPtrSync<Vt> for &mut T {}
 
 /// Used to turn a pointer into a dynamic pointer.
 pub trait IntoDyn {
@@ -376,7 +392,7 @@ unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-// SAFETY: The pointer must be `Send` and the pointee must me `Send` and `Sync`.
-unsafe impl<P: IPtrOwned + Send, Vt: HasSendVt + HasDropVt> Send for Dyn<'_, P, Vt> {}
-// SAFETY: The pointer must be `Sync` and the pointee must me `Send` and `Sync`.
-unsafe impl<P: IPtrOwned + Sync, Vt: HasSyncVt + HasDropVt> Sync for Dyn<'_, P, Vt> {}
+// SAFETY: The pointer must be `Send`, and `Vt` prove what sending it requires of its pointee.
+unsafe impl<P: IPtrOwned + IPtrSend<Vt> + Send, Vt: HasDropVt> Send for Dyn<'_, P, Vt> {}
+// SAFETY: The pointer must be `Sync`, and `Vt` prove what sharing it requires of its pointee.
+unsafe impl<P: IPtrOwned + IPtrSync<Vt> + Sync, Vt: HasDropVt> Sync for Dyn<'_, P, Vt> {}
-- 
2.43.0


From 99b6eec24b9be0137951702182160c664dec247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 67/73] fix: results are only Send and Sync if their variants
 are

Their storage is bytes, so these would otherwise be implemented whatever the variants.
---
 stabby-abi/src/result.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 6aad517..3cc00fa 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -40,6 +40,20 @@ where
     Err: IStable,
 {
 }
+// SAFETY: A result is one of its variants.
+unsafe impl<Ok: Send, Err: Send> Send for Result<Ok, Err>
+where
+    Ok: IDeterminantProvider<Err>,
+    Err: IStable,
+{
+}
+// SAFETY: A result is one of its variants.
+unsafe impl<Ok: Sync, Err: Sync> Sync for Result<Ok, Err>
+where
+    Ok: IDeterminantProvider<Err>,
+    Err: IStable,
+{
+}
 type Determinant<Ok, Err> = <Ok as IDeterminantProvider<Err>>::Determinant;
 // SAFETY: See fields
 unsafe impl<Ok, Err> IStable for Result<Ok, Err>
-- 
2.43.0


From c8af5a11cdee4f397667ac042255a983957d4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 68/73] fix: sending or sharing an AtomicArcBTreeSet requires
 that its elements be Send and Sync

Its atomic pointer would otherwise implement both whatever the elements.
---
 stabby-abi/src/alloc/collections/arc_btree.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 1fc2eba..f3474ac 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -14,6 +14,20 @@ where
     /// The number of threads that may have read `root` without owning it yet.
     readers: AtomicUsize,
 }
+// SAFETY: Its elements are shared with the snapshots it hands out, as they would be by an `Arc`.
+unsafe impl<T: Ord + Send + Sync, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Send
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc + Send + Sync,
+{
+}
+// SAFETY: Its elements are shared with the snapshots it hands out, as they would be by an `Arc`.
+unsafe impl<T: Ord + Send + Sync, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Sync
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc + Send + Sync,
+{
+}
 impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
-- 
2.43.0


From c66a36ca5555600ed7114eae3676cc479dcc3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 69/73] fix: trait objects' methods no longer deny interior
 mutability to the objects they borrow

---
 stabby-abi/src/fatptr.rs    | 26 +++++++++++++++++++-------
 stabby-macros/src/traits.rs |  8 ++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 6b7fba1..5658b04 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -69,7 +69,8 @@ impl<T> IPtr for &T {
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute::<&T, &U>(self)
+        // Going through `&T` could deny `U` its interior mutability.
+        &**(self as *const Self).cast::<*const U>()
     }
 }
 impl<T> IPtrMut for &mut T {
@@ -113,7 +114,8 @@ impl<'a, T> IntoDyn for &'a mut T {
 #[derive(Clone, Copy)]
 /// A stable `&'a dyn Traits`
 pub struct DynRef<'a, Vt: 'static> {
-    ptr: &'a (),
+    // The pointee may have interior mutability: with `&()`, the compiler would assume that it can't change.
+    ptr: crate::StableLike<&'a core::cell::UnsafeCell<()>, &'a ()>,
     vtable: &'a Vt,
     unsend: core::marker::PhantomData<*mut ()>,
 }
@@ -121,7 +123,14 @@ pub struct DynRef<'a, Vt: 'static> {
 impl<'a, Vt: Copy + 'a> DynRef<'a, Vt> {
     /// Access the data pointer.
     pub const fn ptr(&self) -> &() {
-        self.ptr
+        // SAFETY: The pointee is at least as large and aligned as `()`.
+        unsafe { &*self.erased().get() }
+    }
+    /// Access the data pointer, in the form that method tables expect.
+    #[doc(hidden)]
+    pub const fn erased(&self) -> &'a core::cell::UnsafeCell<()> {
+        // SAFETY: References are FFI-safe.
+        unsafe { *self.ptr.as_ref_unchecked() }
     }
     /// Access the vtable.
     pub const fn vtable(&self) -> &Vt {
@@ -156,14 +165,14 @@ impl<'a, Vt: Copy + 'a> DynRef<'a, Vt> {
     where
         Vt: PartialEq + IConstConstructor<'a, T>,
     {
-        (self.vtable == Vt::vtable()).then(|| unsafe { self.ptr.as_ref() })
+        (self.vtable == Vt::vtable()).then(|| unsafe { IPtr::as_ref(self.ptr.as_ref_unchecked()) })
     }
     /// Downcasts the reference based on its reflection report.
     pub fn stable_downcast<T: crate::IStable, Path>(&self) -> Option<&T>
     where
         Vt: TransitiveDeref<crate::vtable::StabbyVtableAny, Path>,
     {
-        (self.report() == T::REPORT).then(|| unsafe { self.ptr.as_ref() })
+        (self.report() == T::REPORT).then(|| unsafe { IPtr::as_ref(self.ptr.as_ref_unchecked()) })
     }
 }
 #[stabby::stabby]
@@ -241,7 +250,7 @@ impl<'a, P: IPtrOwned + IPtr, Vt: HasDropVt + 'a> Dyn<'a, P, Vt> {
     /// Borrow into an ABI-stable `&dyn Traits`
     pub fn as_ref(&self) -> DynRef<'_, Vt> {
         DynRef {
-            ptr: unsafe { self.ptr.as_ref() },
+            ptr: crate::StableLike::new(unsafe { self.ptr.as_ref() }),
             vtable: self.vtable,
             unsend: core::marker::PhantomData,
         }
@@ -379,7 +388,10 @@ impl<'a, T, Vt: Copy + IConstConstructor<'a, T>> From<&'a T> for DynRef<'a, Vt>
     fn from(value: &'a T) -> Self {
         unsafe {
             DynRef {
-                ptr: core::mem::transmute::<&'a T, &'a ()>(value),
+                ptr: crate::StableLike::new(core::mem::transmute::<
+                    &'a T,
+                    &'a core::cell::UnsafeCell<()>,
+                >(value)),
                 vtable: Vt::vtable(),
                 unsend: core::marker::PhantomData,
             }
diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index 8ebdcd7..dce2c49 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -487,7 +487,11 @@ impl DynTraitFn<'_> {
         else {
             unreachable!()
         };
-        let receiver = quote!(& #lt #mutability ());
+        // The receiver may have interior mutability: `&()` would let the compiler assume that it hasn't.
+        let receiver = match mutability {
+            Some(_) => quote!(& #lt #mutability ()),
+            None => quote!(& #lt core::cell::UnsafeCell<()>),
+        };
         let inputs = inputs.iter().map(|ty| sdts.unselfed(ty));
         let output = output.as_ref().map(|ty| {
             let ty = sdts.unselfed(ty);
@@ -802,7 +806,7 @@ impl DynTraitDescription<'_> {
                 #(
                     #[doc = #vt_doc]
                     #fns {
-                        unsafe{(self.vtable().tderef().#fn_ids.as_ref_unchecked())(self.ptr(), #fn_args)}
+                        unsafe{(self.vtable().tderef().#fn_ids.as_ref_unchecked())(self.erased(), #fn_args)}
                     }
                 )*
             }
-- 
2.43.0


From 7da2eb58a9ce85ddd881dab8a6e7fa6a8690458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 70/73] fix: trait objects' methods and destructors no longer
 deny that the objects may be self-referential

---
 stabby-abi/src/alloc/boxed.rs | 8 ++++++--
 stabby-abi/src/alloc/sync.rs  | 5 +++++
 stabby-macros/src/traits.rs   | 5 +++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index e634aa4..7d4c8a8 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -239,10 +239,14 @@ unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt> crate::IPtrSend<Vt>
 unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSyncVt> crate::IPtrSync<Vt> for Box<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Box<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        let rthis = &mut ***this;
         // SAFETY: This is evil casting shenanigans, but `IPtrOwned` is a type anonimization primitive.
+        // The target may be self-referential, which a `&mut ()` would deny.
         unsafe {
-            drop(core::mem::transmute::<&mut T, &mut ()>(rthis));
+            let drop = core::mem::transmute::<
+                unsafe extern "C" fn(&mut ()),
+                unsafe extern "C" fn(&mut core::marker::PhantomPinned),
+            >(drop);
+            drop(this.ptr.cast().as_mut());
         }
         // SAFETY: `this` is immediately forgotten.
         unsafe { this.free() }
diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 97ba63b..e2367eb 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -786,7 +786,12 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
         {
             return;
         }
+        // The target may be self-referential, which a `&mut ()` would deny.
         unsafe {
+            let drop = core::mem::transmute::<
+                unsafe extern "C" fn(&mut ()),
+                unsafe extern "C" fn(&mut core::marker::PhantomPinned),
+            >(drop);
             drop(this.ptr.cast().as_mut());
             _ = Weak::<T, Alloc>::from_raw(this.ptr);
         }
diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index dce2c49..c282d17 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -487,9 +487,10 @@ impl DynTraitFn<'_> {
         else {
             unreachable!()
         };
-        // The receiver may have interior mutability: `&()` would let the compiler assume that it hasn't.
+        // The receiver may be self-referential, or have interior mutability unless it's mutable:
+        // `&mut ()` and `&()` would let the compiler assume that it isn't and hasn't.
         let receiver = match mutability {
-            Some(_) => quote!(& #lt #mutability ()),
+            Some(_) => quote!(& #lt #mutability core::marker::PhantomPinned),
             None => quote!(& #lt core::cell::UnsafeCell<()>),
         };
         let inputs = inputs.iter().map(|ty| sdts.unselfed(ty));
-- 
2.43.0


From e71772a2ccb1b91740acb475e83bc1fc61bc7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 71/73] fix: results no longer deny interior mutability to
 their variants

---
 stabby-abi/src/result.rs | 53 ++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 3cc00fa..86e0fbe 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -32,7 +32,7 @@ where
     Ok: IDeterminantProvider<Err>,
     Err: IStable,
 {
-    storage: Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
+    storage: Variants<Ok, Err>,
 }
 impl<Ok: Unpin, Err: Unpin> Unpin for Result<Ok, Err>
 where
@@ -104,7 +104,24 @@ mod seal {
     }
 }
 
-impl<Size: Unsigned, Align: Alignment + Alignment> Storage<Size, Align> {
+/// The variants are only there for the compiler to know whether they have interior mutability.
+#[repr(C)]
+union Variants<Ok, Err>
+where
+    Ok: IDeterminantProvider<Err>,
+    Err: IStable,
+{
+    _storage: core::mem::ManuallyDrop<
+        Storage<<Result<Ok, Err> as IStable>::Size, <Result<Ok, Err> as IStable>::Align>,
+    >,
+    _ok: core::mem::ManuallyDrop<Ok>,
+    _err: core::mem::ManuallyDrop<Err>,
+}
+impl<Ok, Err> Variants<Ok, Err>
+where
+    Ok: IDeterminantProvider<Err>,
+    Err: IStable,
+{
     const fn as_ptr(&self) -> *const u8 {
         self as *const Self as *const _
     }
@@ -217,50 +234,34 @@ where
         <<Ok as IDeterminantProvider<Err>>::OkShift as Unsigned>::USIZE + Self::DET_SIZE;
     const ERR_OFFSET: usize =
         <<Ok as IDeterminantProvider<Err>>::ErrShift as Unsigned>::USIZE + Self::DET_SIZE;
-    const fn ok_ptr(
-        storage: *const Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> *const Ok {
+    const fn ok_ptr(storage: *const Variants<Ok, Err>) -> *const Ok {
         unsafe { storage.cast::<u8>().add(Self::OK_OFFSET).cast() }
     }
-    const fn ok_ptr_mut(
-        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> *mut Ok {
+    const fn ok_ptr_mut(storage: *mut Variants<Ok, Err>) -> *mut Ok {
         unsafe { storage.cast::<u8>().add(Self::OK_OFFSET).cast() }
     }
-    const fn err_ptr(
-        storage: *const Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> *const Err {
+    const fn err_ptr(storage: *const Variants<Ok, Err>) -> *const Err {
         unsafe { storage.cast::<u8>().add(Self::ERR_OFFSET).cast() }
     }
-    const fn err_ptr_mut(
-        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> *mut Err {
+    const fn err_ptr_mut(storage: *mut Variants<Ok, Err>) -> *mut Err {
         unsafe { storage.cast::<u8>().add(Self::ERR_OFFSET).cast() }
     }
-    const fn det_ptr(
-        storage: *const Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> *const Determinant<Ok, Err> {
+    const fn det_ptr(storage: *const Variants<Ok, Err>) -> *const Determinant<Ok, Err> {
         storage.cast()
     }
-    const fn det_ptr_mut(
-        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> *mut Determinant<Ok, Err> {
+    const fn det_ptr_mut(storage: *mut Variants<Ok, Err>) -> *mut Determinant<Ok, Err> {
         storage.cast()
     }
     /// Marks the storage as containing an `Ok`. Writing one may have left the bytes it doesn't use,
     /// in which the determinant may be, uninitialized.
-    unsafe fn mark_ok(
-        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> Determinant<Ok, Err> {
+    unsafe fn mark_ok(storage: *mut Variants<Ok, Err>) -> Determinant<Ok, Err> {
         if <<Determinant<Ok, Err> as IDeterminant>::IsNicheTrick as Bit>::BOOL {
             <Ok::UnusedBits as IBitMask>::clear_free_bytes(Self::ok_ptr_mut(storage).cast());
         }
         Determinant::<Ok, Err>::ok(storage.cast())
     }
     /// Marks the storage as containing an `Err`. See [`Self::mark_ok`].
-    unsafe fn mark_err(
-        storage: *mut Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
-    ) -> Determinant<Ok, Err> {
+    unsafe fn mark_err(storage: *mut Variants<Ok, Err>) -> Determinant<Ok, Err> {
         if <<Determinant<Ok, Err> as IDeterminant>::IsNicheTrick as Bit>::BOOL {
             <Err::UnusedBits as IBitMask>::clear_free_bytes(Self::err_ptr_mut(storage).cast());
         }
-- 
2.43.0


From 1eccbc271ca580ab81cc424e871a24e176f959c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 72/73] fix: the items of a SingleOrVec's mutable iterator no
 longer alias each other nor outlive its guard

---
 stabby-abi/src/alloc/single_or_vec.rs | 55 ++++++++++++---------------
 stabby-abi/src/istable.rs             |  4 ++
 2 files changed, 28 insertions(+), 31 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 65c465e..35478ee 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -1,5 +1,6 @@
 use super::vec::Vec;
 use crate::alloc::{AllocationError, DefaultAllocator, IAlloc};
+use crate::istable::IBitMask;
 use crate::num::NonMaxUsize;
 use crate::result::OkGuard;
 use crate::{IDeterminantProvider, IStable};
@@ -480,17 +481,27 @@ where
 {
     type Item = &'a mut T;
     type IntoIter = IterMut<'a, T, Alloc>;
+    /// # Panics
+    /// A single value is moved to a vector if `T` has padding, in which `self` may keep its determinant:
+    /// this panics if the allocator failed to provide an appropriate allocation.
     fn into_iter(self) -> Self::IntoIter {
-        let inner = self.as_slice_mut();
+        if <T::UnusedBits as IBitMask>::HAS_FREE_BYTES && self.inner.is_ok() {
+            self.reserve(1)
+        }
+        // The references that will be yielded may outlive the iterator, so no guard may be kept.
+        let (start, len) = self.inner.match_mut(
+            |mut single| (&mut single.value as *mut T, 1),
+            |mut vec| (vec.as_slice_mut().as_mut_ptr(), vec.len()),
+        );
         IterMut {
-            start: 0,
-            end: inner.len(),
-            inner,
+            // Safety: `self` is mutably borrowed for the lifetime of the iterator.
+            inner: unsafe { core::slice::from_raw_parts_mut(start, len) }.iter_mut(),
+            marker: core::marker::PhantomData,
         }
     }
 }
 
-/// An iterator over a [`SliceGuardMut`].
+/// An iterator over the elements of a [`SingleOrVec`].
 pub struct IterMut<'a, T, Alloc>
 where
     Single<T, Alloc>: IDeterminantProvider<Vec<T, Alloc>>,
@@ -498,9 +509,9 @@ where
     crate::Result<Single<T, Alloc>, Vec<T, Alloc>>: IStable,
     Alloc: IAlloc,
 {
-    inner: SliceGuardMut<'a, T, Alloc>,
-    start: usize,
-    end: usize,
+    inner: core::slice::IterMut<'a, T>,
+    #[allow(clippy::type_complexity)]
+    marker: core::marker::PhantomData<&'a mut crate::Result<Single<T, Alloc>, Vec<T, Alloc>>>,
 }
 
 impl<'a, T, Alloc> Iterator for IterMut<'a, T, Alloc>
@@ -512,15 +523,7 @@ where
 {
     type Item = &'a mut T;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.start < self.end {
-            let r = unsafe {
-                core::mem::transmute::<&mut T, &mut T>(self.inner.get_unchecked_mut(self.start))
-            };
-            self.start += 1;
-            Some(r)
-        } else {
-            None
-        }
+        self.inner.next()
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
         let len = self.len();
@@ -542,8 +545,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.saturating_add(n).min(self.end);
-        self.next()
+        self.inner.nth(n)
     }
 }
 
@@ -555,19 +557,10 @@ where
     Alloc: IAlloc,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.start < self.end {
-            self.end -= 1;
-            let r = unsafe {
-                core::mem::transmute::<&mut T, &mut T>(self.inner.get_unchecked_mut(self.end))
-            };
-            Some(r)
-        } else {
-            None
-        }
+        self.inner.next_back()
     }
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.end = self.end.saturating_sub(n);
-        self.next_back()
+        self.inner.nth_back(n)
     }
 }
 impl<T, Alloc> ExactSizeIterator for IterMut<'_, T, Alloc>
@@ -578,7 +571,7 @@ where
     Alloc: IAlloc,
 {
     fn len(&self) -> usize {
-        self.end.saturating_sub(self.start)
+        self.inner.len()
     }
 }
 
diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index 99b7d83..1ed11c6 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -232,6 +232,8 @@ pub trait IBitMask {
     type ExtractedBitByteOffset: Unsigned;
     /// Obtain the determinant's mask.
     type ExtractedBitMask: Unsigned;
+    /// Whether some bytes' masks are `FF`.
+    const HAS_FREE_BYTES: bool;
     /// Writes `0` in every byte whose mask is `FF`, starting from `ptr`: such bytes may be uninitialized.
     ///
     /// # Safety
@@ -249,6 +251,7 @@ impl IBitMask for End {
     type ExtractBit = End;
     type ExtractedBitMask = Saturator;
     type ExtractedBitByteOffset = Saturator;
+    const HAS_FREE_BYTES: bool = false;
     unsafe fn clear_free_bytes(_: *mut u8) {}
 }
 impl<Offset: Unsigned, T: NonZero, Rest: IBitMask> IBitMask for Array<Offset, T, Rest> {
@@ -275,6 +278,7 @@ impl<Offset: Unsigned, T: NonZero, Rest: IBitMask> IBitMask for Array<Offset, T,
         >;
     type ExtractedBitByteOffset = Offset;
     type ExtractedBitMask = T::TruncateAtRightmostOne;
+    const HAS_FREE_BYTES: bool = T::USIZE == 0xFF || Rest::HAS_FREE_BYTES;
     unsafe fn clear_free_bytes(ptr: *mut u8) {
         if T::USIZE == 0xFF {
             *ptr.add(Offset::USIZE) = 0;
-- 
2.43.0


From 4e52503d81b16fa818ee850f591663ad3ddb9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 73/73] fix: a forbidden value made of listed bytes is
 recognised by is_invalid

---
 stabby-abi/src/istable.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index 1ed11c6..685192e 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -301,6 +301,14 @@ pub trait IForbiddenValues {
     /// # Safety
     /// Calling this on uninitialized memory is UB.
     unsafe fn is_invalid(ptr: *const u8) -> bool;
+    /// Returns `true` if `ptr` points to memory that matches `Self`, when `Self` is the rest of a forbidden value.
+    ///
+    /// # Safety
+    /// Calling this on uninitialized memory is UB.
+    #[doc(hidden)]
+    unsafe fn rest_matches(ptr: *const u8) -> bool {
+        Self::is_invalid(ptr)
+    }
 }
 /// A single multi-byte forbidden value.
 pub trait ISingleForbiddenValue {
@@ -321,6 +329,10 @@ impl IForbiddenValues for End {
     unsafe fn is_invalid(_: *const u8) -> bool {
         false
     }
+    unsafe fn rest_matches(_: *const u8) -> bool {
+        // No byte is left to compare.
+        true
+    }
 }
 impl ISingleForbiddenValue for Saturator {
     type Push<O: Unsigned, T> = Saturator;
@@ -353,7 +365,7 @@ impl<Offset: Unsigned, T: Unsigned, Rest: IForbiddenValues> IForbiddenValues
         >;
     type SelectOne = Array<Offset, T, Rest::SelectOne>;
     unsafe fn is_invalid(ptr: *const u8) -> bool {
-        ptr.add(Offset::USIZE).read() == T::U8 && Rest::is_invalid(ptr)
+        ptr.add(Offset::USIZE).read() == T::U8 && Rest::rest_matches(ptr)
     }
 }
 impl<A: IForbiddenValues, B: IForbiddenValues> IForbiddenValues for Or<A, B> {
-- 
2.43.0

