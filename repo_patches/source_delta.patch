From 577c2daad0c3e0382161a3bf5dd5135148fd4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 01/48] fix: do not drop uninitialized memory when a value is
 moved into a new allocation

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..c688286 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,10 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // SAFETY: memory was just allocated for `T`. It is not initialized yet, so the old
+        // content must not be dropped.
+        unsafe { ptr.ptr.as_ptr().write(value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From 57c6e63339d285d1ebd1463be52935e8b5392a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 02/48] fix: ScopePtr::into_inner must not drop and deallocate
 the value it moves out

---
 src/ptr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptr.rs b/src/ptr.rs
index c688286..cfcdea1 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -205,6 +205,8 @@ impl<T> ScopePtr<T> {
         unsafe {
             let v = ptr::read(self.ptr.as_ptr());
             self.dealloc();
+            // The value is moved out and memory is released, nothing is left for Drop.
+            mem::forget(self);
             v
         }
     }
-- 
2.43.0


From efe6846719715e4cc5198d94100353b84e42f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 03/48] fix: never request or return zero-sized blocks from
 allocators

---
 src/ptr.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index cfcdea1..7928070 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -190,7 +190,12 @@ impl<T> ScopePtr<T> {
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
         trace!("alloc with {:?}", &layout);
-        let mem = unsafe { alloc.alloc(layout) as *mut T };
+        let mem = if layout.size() == 0 {
+            // Allocators must not be asked for zero-sized blocks.
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc.alloc(layout) as *mut T }
+        };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
             let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
@@ -244,8 +249,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // Zero-sized values are never allocated.
+        if layout.size() != 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
-- 
2.43.0


From db48cf3391efe26042253176e7e70c1c6059a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 04/48] fix: report capacity overflow on array reallocation

---
 src/ptr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 7928070..dccf2fd 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, transmute};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -281,11 +281,14 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
+        let new_size = Layout::array::<T>(new_capacity)
+            .map_err(|_| CapacityOverflow)?
+            .size();
         let ptr = self.alloc.realloc(
             self.ptr.as_ptr() as _,
             // SAFETY: we already constructed such Layout before to allocate - it will not fail.
             Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
+            new_size,
         );
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
-- 
2.43.0


From 69713cdc59e49caeaed620d0ec3bde1a3b9e0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 05/48] fix: shrinking an array to zero capacity must release
 its block instead of reallocating it to zero size

---
 src/ptr.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index dccf2fd..8cd47c0 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -281,15 +281,20 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
-        let new_size = Layout::array::<T>(new_capacity)
-            .map_err(|_| CapacityOverflow)?
-            .size();
-        let ptr = self.alloc.realloc(
-            self.ptr.as_ptr() as _,
-            // SAFETY: we already constructed such Layout before to allocate - it will not fail.
-            Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_size,
-        );
+        let new_layout = Layout::array::<T>(new_capacity).map_err(|_| CapacityOverflow)?;
+        // SAFETY: we already constructed such Layout before to allocate - it will not fail.
+        let old_layout = Layout::array::<T>(self.len()).unwrap_unchecked();
+
+        // Zero-sized arrays are never allocated, their pointers are dangling.
+        let ptr = if new_layout.size() == 0 {
+            self.dealloc();
+            NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else if old_layout.size() == 0 {
+            self.alloc.alloc(new_layout)
+        } else {
+            self.alloc
+                .realloc(self.ptr.as_ptr() as _, old_layout, new_layout.size())
+        };
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
         } else {
-- 
2.43.0


From 5c0be19a17de8baab6dd499a48a1cd7f5a622102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 06/48] fix: Vec::with_marker must keep the marker

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..90fa36a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From 9662173e8aa2ac460419ea644500359f027b7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 07/48] fix: an unallocated Vec must grow in the allocator it
 was created with

---
 src/vec.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 90fa36a..c64475b 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -231,12 +231,8 @@ impl<T: 'static> Vec<T> {
         debug_assert!(self.capacity() < new_capacity);
 
         trace!("grow from {} to {}", self.capacity(), new_capacity);
-        if self.capacity() == 0 {
-            *self = Vec::try_with_capacity_and_marker(new_capacity, self.ptr.marker())?;
-            Ok(())
-        } else {
-            unsafe { self.ptr.realloc_array(new_capacity) }
-        }
+        // Always use the allocator of this Vec. It may be not the one of the current scope.
+        unsafe { self.ptr.realloc_array(new_capacity) }
     }
 
     #[cold]
-- 
2.43.0


From 20fcc4dd8b297a96903d785223afc7a21cd74a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 08/48] fix: Vec::try_reserve and try_reserve_exact return
 overflow as an error

---
 src/vec.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index c64475b..bac3dae 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -191,7 +191,10 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn try_reserve_exact(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let required_cap = self.len.overflow_guarded_add(additional);
+        let required_cap = self
+            .len
+            .checked_add(additional)
+            .ok_or(ArrayAllocError::CapacityOverflow)?;
         if self.capacity() < required_cap {
             self.grow_exact(required_cap).map_err(|e| e.into())
         } else {
@@ -206,7 +209,10 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let required_cap = self.len.overflow_guarded_add(additional);
+        let required_cap = self
+            .len
+            .checked_add(additional)
+            .ok_or(ArrayAllocError::CapacityOverflow)?;
         if self.capacity() < required_cap {
             self.grow_amortized(required_cap).map_err(|e| e.into())
         } else {
-- 
2.43.0


From a3ebd959aca368b82f1fe3d89835453185eb1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 09/48] fix: Vec::clear dropped elements twice if Drop of an
 element panics

---
 src/vec.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index bac3dae..d8286ac 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -270,15 +270,9 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
-        // SAFETY: length is for sure less than or equal to the capacity here.
-        unsafe { self.set_len(0) };
+        // Sets the length before dropping the elements, so those are not dropped again
+        // if Drop of one of them panics.
+        self.truncate(0);
     }
 
     #[inline]
-- 
2.43.0


From f3c33fd6265dfc5fc6e396452f84a82d2a8c5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 10/48] fix: Vec::leak returned a slice of freed memory

---
 src/vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index d8286ac..018d432 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -307,10 +307,11 @@ impl<T: 'static> Vec<T> {
     }
 
     #[inline]
-    pub fn leak(mut self) -> &'static mut [T] {
+    pub fn leak(self) -> &'static mut [T] {
+        let mut this = ManuallyDrop::new(self);
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        unsafe { impose_lifetime_mut(this.as_mut_slice()) }
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From 58ca98a91cff13d3b1f322104556a0ae108f94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 11/48] fix: Vec::dealloc_without_drop dropped the elements and
 released memory twice

---
 src/vec.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec.rs b/src/vec.rs
index 018d432..6421e6c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -318,6 +318,8 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn dealloc_without_drop(mut self) {
         unsafe { self.ptr.dealloc() };
+        // Memory is released, do not run Drop of Vec.
+        mem::forget(self);
     }
 
     #[inline]
-- 
2.43.0


From aefbb08dcccc0d66fb5b3368ddd353eb9c007260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 12/48] fix: swap_remove of the last element is not a
 non-overlapping copy

---
 src/small_vec.rs | 3 ++-
 src/vec.rs       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..9ac0abe 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -269,7 +269,8 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
 
             // Copy last element in place of removed one.
             let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            // Both are the same element when removing the last one.
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
diff --git a/src/vec.rs b/src/vec.rs
index 6421e6c..6592c9a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -369,10 +369,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. They are equal when removing the last element.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From 81a54f01bc8a7faf634700d79ecb81379c9c3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 13/48] fix: Vec::into_boxed_slice lost zero-sized elements

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 6592c9a..42b8bb0 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -386,7 +386,9 @@ impl<T: 'static> Vec<T> {
         // capacity.
         self.shrink_to_fit();
 
-        let access = unsafe { self.ptr.clone() };
+        // Length is set explicitly as for the zero-sized types it does not match with
+        // the length of the pointer.
+        let access = unsafe { self.ptr.clone().cast::<T>().cast_to_slice(self.len) };
         // Avoid normal Drop of Vec.
         mem::forget(self);
 
-- 
2.43.0


From 01aeeb0652d97b2d6f063582e782ec466c7e6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 14/48] fix: Vec::split_off must move the elements to the
 returned Vec

---
 src/vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 42b8bb0..fe3e8f7 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -406,7 +406,11 @@ impl<T: 'static> Vec<T> {
             // SAFETY: we checked above that `at` is within array range.
             let at_ptr = unsafe { self.get_unchecked(at) };
 
-            unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            unsafe {
+                copy_nonoverlapping(at_ptr, vec_ptr, count);
+                self.set_len(at);
+                vec.set_len(count);
+            }
             vec
         }
     }
-- 
2.43.0


From a67b6b7a0aba001fa67ca738377a39f6b1bda1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 15/48] fix: drain panicked on any non-empty range and lost
 elements after it

---
 src/vec.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index fe3e8f7..f548fc9 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -537,25 +537,30 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        assert!(start <= end && end <= original_len);
+
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
         // located after the slice will be leaked.
         unsafe { vec.set_len(start) };
 
+        let vec_ptr: *mut V = vec;
         DrainInner {
-            vec_ptr: vec,
+            vec_ptr,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            // SAFETY: range was asserted to be within the original length.
+            slice: unsafe { &(*vec_ptr).as_slice_with_len(original_len)[start..end] },
+            original_len,
         }
     }
 
@@ -575,13 +580,12 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
-            let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            let data = vec.as_slice_with_len_mut(self.original_len).as_mut_ptr();
+            let tail_len = self.original_len - self.end;
+            ptr::copy(data.add(self.end), data.add(self.start), tail_len);
 
             // Restore valid length of Vec.
-            vec.set_len(self.original_len - count);
+            vec.set_len(self.start + tail_len);
         }
     }
 }
-- 
2.43.0


From cca60ea6970d6be8f33d6d7168bc0a06029a4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 16/48] fix: Drain::next_back kept the last elements instead of
 the first ones

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index f548fc9..4e1f6a9 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -616,7 +616,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From ef6809a5a8c5167ad41b89630815020ae5ec18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 17/48] fix: retain and dedup lost the second element if the
 first one is kept

---
 src/vec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 4e1f6a9..65530c2 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -739,7 +739,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -776,7 +776,10 @@ impl<'a, T: 'static> RetainIter<'a, T> {
     /// Care should be taken to forget the element in `read` and only use one stored
     /// in `write` after copying.
     unsafe fn copy(&mut self) {
-        debug_assert_ne!(self.read, self.write);
+        if self.read == self.write {
+            // Nothing was discarded yet so the element is already in its place.
+            return;
+        }
 
         let read: *const T = self.get_unchecked(self.read);
         let write: *mut T = self.get_unchecked_mut(self.write);
-- 
2.43.0


From 8b5369a57bad5a6694011bda8836a956711588f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 18/48] fix: dedup_by passed the stale copy of the kept element

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 65530c2..11ada9c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -831,8 +831,9 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             if same_bucket(tested, keeped) {
                 iter.discard_next();
             } else {
+                // The element is moved when kept, refer to its new location.
+                keeped = unsafe { iter.get_unchecked_mut(iter.write) };
                 iter.keep_next();
-                keeped = tested;
             }
         }
     }
-- 
2.43.0


From 3023d02c6d75b1beee71c4cc2d401ff7360afb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 19/48] fix: Vec::from a non-empty slice panicked

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 11ada9c..2fd826c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1005,7 +1005,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From a17400714e95a6746bd5b063ac5e326c0c0bcbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 20/48] fix: IntoIter yielded moved out elements from the back
 and misreported its length

---
 src/vec.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2fd826c..2a2200f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1108,13 +1108,19 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        // Elements before the index are already moved out.
+        if self.index < self.vec.len() {
+            self.vec.pop()
+        } else {
+            None
+        }
     }
 }
 
@@ -1146,7 +1152,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1154,7 +1160,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From 1597e4902cc8fba0d5469e481913e36e79bcefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 21/48] fix: insert into SmallVec on stack must check the index
 and allow to insert at the end

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 9ac0abe..c789941 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -194,9 +194,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     }
 
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
-        debug_assert!(self.len() >= index);
+        assert!(self.len() >= index);
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        let write: *mut T = self.as_slice_with_len_mut(self.len() + 1).get_unchecked_mut(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
-- 
2.43.0


From 2dcedab5fd4b356d3e4fe57112f0ff38a88f1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 22/48] fix: SmallVec::remove read past the end of the stack
 array

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index c789941..c511623 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -219,7 +219,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From 7bf488bb39e462911b2efb6f7a49b658d80f814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 23/48] fix: SmallVec::truncate leaked the elements stored on
 stack

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index c511623..e34c575 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -250,9 +250,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
+            for to_drop in len..old_len {
                 unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
+                    let to_drop = self.as_slice_with_len_mut(old_len).get_unchecked_mut(to_drop);
                     drop_in_place(to_drop);
                 }
             }
-- 
2.43.0


From 80c60690f9c39eb5ab6277ab8fc241f509e15300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 24/48] fix: SmallVec::reserve must not move to heap or
 overflow when there is enough capacity

---
 src/small_vec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index e34c575..da2bd53 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -481,10 +481,13 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let new_capacity = self.capacity().overflow_guarded_add(additional);
+        let new_capacity = self.len().overflow_guarded_add(additional);
+        if new_capacity <= self.capacity() {
+            return Ok(());
+        }
         let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
 
-        let reserve = new_capacity - self.capacity();
+        let reserve = new_capacity - self.len();
         self.try_reserve_exact(reserve)
     }
 
-- 
2.43.0


From 7f958b1c8722eee00d4b6b12c14a56dfb2c23a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 25/48] fix: fallible reserve functions of SmallVec return
 errors instead of panicking

---
 src/small_vec.rs | 21 ++++++++++++++++-----
 src/vec.rs       |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index da2bd53..20bd1af 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -11,7 +11,7 @@ use core::slice;
 use crate::boxed::Box;
 use crate::scope::AllocMarker;
 use crate::vec::{
-    DrainInner, OverflowGuardedAdd, ResizeWith, ResizeWithFn, ResizeWithVal, RetainIter,
+    DrainInner, ResizeWith, ResizeWithFn, ResizeWithVal, RetainIter,
     TryReserveError, Vec, Vecx, impl_drain,
 };
 use crate::ArrayAllocError;
@@ -444,7 +444,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let reserve = old_vec
+                    .len()
+                    .checked_add(additional)
+                    .ok_or(ArrayAllocError::CapacityOverflow)?;
+                let reserve = usize::max(reserve, Vec::<T>::MIN_NON_ZERO_CAP);
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
@@ -459,7 +463,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional).map_err(|e| e.0)?,
         }
         Ok(())
     }
@@ -468,7 +472,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         use Storage::*;
         match &mut self.storage {
             Stack(_) => {
-                if self.len().overflow_guarded_add(additional) > self.capacity() {
+                let required_cap = self
+                    .len()
+                    .checked_add(additional)
+                    .ok_or(ArrayAllocError::CapacityOverflow)?;
+                if required_cap > self.capacity() {
                     self.try_move_to_heap_and_reserve_exact(additional)
                         .map_err(|e| e.into())
                 } else {
@@ -481,7 +489,10 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let new_capacity = self.len().overflow_guarded_add(additional);
+        let new_capacity = self
+            .len()
+            .checked_add(additional)
+            .ok_or(ArrayAllocError::CapacityOverflow)?;
         if new_capacity <= self.capacity() {
             return Ok(());
         }
diff --git a/src/vec.rs b/src/vec.rs
index 2a2200f..dee107e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -880,7 +880,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-pub struct TryReserveError(ArrayAllocError);
+pub struct TryReserveError(pub(crate) ArrayAllocError);
 
 impl From<ArrayAllocError> for TryReserveError {
     fn from(e: ArrayAllocError) -> Self {
-- 
2.43.0


From f254b3be71d436757b500b75fdde4de7ce5fa9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 26/48] fix: SmallVec::resize and resize_with must move to heap
 when elements do not fit the stack

---
 src/small_vec.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 20bd1af..e42b397 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -375,7 +375,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
+
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -405,9 +405,9 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     where
         T: Clone,
     {
-        if len > N {
-            // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
+        if len > self.len() {
+            // Move to heap if needed to be able to store all new elements.
+            self.reserve(len - self.len());
         }
 
         use Storage::*;
@@ -417,6 +417,20 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        if len > self.len() {
+            // Move to heap if needed to be able to store all new elements.
+            self.reserve(len - self.len());
+        }
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From bd444796d99ad10b1c77f9571b76fd494128acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 27/48] fix: SmallVec::split_off at the length returns an empty
 SmallVec

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index e42b397..090c8e7 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -655,10 +655,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
-        let slice = &mut self[at] as *mut T;
+        assert!(at <= self.len());
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
         unsafe {
+            let slice = self.as_ptr().add(at);
             copy_nonoverlapping(slice, into.as_mut_ptr(), count);
             self.set_len(self.len() - count);
             into.set_len(count);
-- 
2.43.0


From 96b1595c120aabb54ae78db6b6c2a0ced9f6fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 28/48] fix: SmallVec::from an array that fits the stack lost
 all the elements

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 090c8e7..ae5190a 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -972,7 +972,8 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     &slice as *const MaybeUninit<T>,
                     &mut vec.slice as *mut MaybeUninit<T>,
                     L,
-                )
+                );
+                vec.set_len(L);
             };
             SmallVec {
                 storage: Storage::Stack(vec),
-- 
2.43.0


From 888dafa0393d5f11855a170d23e907d4e1d2e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 29/48] fix: SmallVec must move to heap in the allocator it was
 created with

---
 src/ptr.rs       |  5 +++++
 src/small_vec.rs | 28 +++++++++++++++++-----------
 src/vec.rs       | 12 +++++++++++-
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 8cd47c0..1b07fb5 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -136,6 +136,11 @@ impl<T: ?Sized> ScopePtr<T> {
         self.alloc_marker
     }
 
+    /// Allocator which is used for this pointer.
+    pub(crate) fn allocator(&self) -> &(dyn GlobalAlloc + 'static) {
+        self.alloc.as_ref()
+    }
+
     /// Forget the value without running any destructor or deallocating memory.
     pub fn forget(self) {
         mem::forget(self)
diff --git a/src/small_vec.rs b/src/small_vec.rs
index ae5190a..e749ced 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -1,3 +1,4 @@
+use core::alloc::GlobalAlloc;
 use core::borrow::{Borrow, BorrowMut};
 use core::fmt::{self, Display};
 use core::hash::Hash;
@@ -9,7 +10,8 @@ use core::ptr::copy_nonoverlapping;
 use core::slice;
 
 use crate::boxed::Box;
-use crate::scope::AllocMarker;
+use crate::marker::{impose_lifetime, Scoped, UnsafeFrom};
+use crate::scope::{self, AllocMarker, AllocSelector};
 use crate::vec::{
     DrainInner, ResizeWith, ResizeWithFn, ResizeWithVal, RetainIter,
     TryReserveError, Vec, Vecx, impl_drain,
@@ -21,6 +23,9 @@ use crate::ArrayAllocError;
 pub struct SmallVec<T: 'static, const N: usize> {
     storage: Storage<T, N>,
     marker: AllocMarker,
+    /// Allocator to use when moved to heap. This may happen in the scope other than one
+    /// where the vector was created.
+    alloc: Scoped<dyn GlobalAlloc>,
 }
 
 enum Storage<T: 'static, const N: usize> {
@@ -321,10 +326,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         marker: AllocMarker,
     ) -> Result<Self, ArrayAllocError> {
         let vec = if capacity > N {
-            SmallVec {
-                storage: Storage::Heap(Vec::try_with_capacity_and_marker(capacity, marker)?),
-                marker,
-            }
+            Self::from(Vec::try_with_capacity_and_marker(capacity, marker)?)
         } else {
             Self::with_marker(marker)
         };
@@ -348,9 +350,12 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn with_marker(marker: AllocMarker) -> Self {
+        let alloc = scope::current(&()).alloc_for(AllocSelector::with_marker::<T>(marker));
         SmallVec {
             storage: Storage::Stack(StackVec::new()),
             marker,
+            // SAFETY: allocators live as long as the scope where the vector is created.
+            alloc: unsafe { Scoped::unsafe_from(alloc) },
         }
     }
 
@@ -463,7 +468,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
                     .checked_add(additional)
                     .ok_or(ArrayAllocError::CapacityOverflow)?;
                 let reserve = usize::max(reserve, Vec::<T>::MIN_NON_ZERO_CAP);
-                let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
+                let mut new_vec = Vec::new_in(self.alloc.as_ref(), self.marker);
+                new_vec.try_reserve_exact(reserve).map_err(|e| e.0)?;
 
                 unsafe {
                     let read = old_vec.as_slice();
@@ -977,13 +983,10 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
             };
             SmallVec {
                 storage: Storage::Stack(vec),
-                marker: Default::default(),
+                ..Self::new()
             }
         } else {
-            SmallVec {
-                storage: Storage::Heap(Vec::from(slice)),
-                marker: Default::default(),
-            }
+            Self::from(Vec::from(slice))
         }
     }
 }
@@ -991,9 +994,12 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
 impl<T: 'static, const N: usize> From<Vec<T>> for SmallVec<T, N> {
     fn from(vec: Vec<T>) -> Self {
         let marker = vec.marker();
+        // SAFETY: the allocator is valid for the Vec and so for the SmallVec made of it.
+        let alloc = unsafe { Scoped::unsafe_from(impose_lifetime(vec.allocator())) };
         SmallVec {
             storage: Storage::Heap(vec),
             marker,
+            alloc,
         }
     }
 }
diff --git a/src/vec.rs b/src/vec.rs
index dee107e..6caaa42 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1,4 +1,4 @@
-use core::{borrow::{Borrow, BorrowMut}, cmp, fmt, hash::{Hash, Hasher}, iter::FusedIterator, mem::{self, size_of, ManuallyDrop, MaybeUninit}, ops::{Deref, DerefMut, Index, IndexMut, RangeBounds}, ptr::{self, copy_nonoverlapping, drop_in_place}, slice::{self, SliceIndex}};
+use core::{alloc::GlobalAlloc, borrow::{Borrow, BorrowMut}, cmp, fmt, hash::{Hash, Hasher}, iter::FusedIterator, mem::{self, size_of, ManuallyDrop, MaybeUninit}, ops::{Deref, DerefMut, Index, IndexMut, RangeBounds}, ptr::{self, copy_nonoverlapping, drop_in_place}, slice::{self, SliceIndex}};
 
 use super::*;
 use crate::test_log::trace;
@@ -35,6 +35,11 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn with_marker(marker: AllocMarker) -> Self {
         let alloc = scope::current(&()).alloc_for(AllocSelector::with_marker::<T>(marker));
+        Self::new_in(alloc, marker)
+    }
+
+    /// Create empty Vec that will use given allocator.
+    pub(crate) fn new_in(alloc: &dyn GlobalAlloc, marker: AllocMarker) -> Self {
         // SAFETY: when capacity is set to zero ptr will never be accessed and may safely
         // remain dangling.
         //
@@ -81,6 +86,11 @@ impl<T: 'static> Vec<T> {
         }
     }
 
+    /// Allocator which is used by this Vec.
+    pub(crate) fn allocator(&self) -> &(dyn GlobalAlloc + 'static) {
+        self.ptr.allocator()
+    }
+
     #[inline]
     pub fn marker(&self) -> AllocMarker {
         self.ptr.marker()
-- 
2.43.0


From 6f7de0c56b086d419cba02a59f9271c9835c3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 30/48] fix: String encodes chars into initialized buffers

---
 src/string.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 14cf0d3..3bd688b 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1,5 +1,5 @@
 use core::slice;
-use core::{char::decode_utf16, convert::Infallible, mem::MaybeUninit, ptr, str::Utf8Error};
+use core::{char::decode_utf16, convert::Infallible, ptr, str::Utf8Error};
 
 use crate::{
     scope::AllocMarker,
@@ -126,7 +126,7 @@ impl String {
             1 => self.vec.push(ch as u8),
             _ => self
                 .vec
-                .extend_from_slice(ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes()),
+                .extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()),
         }
     }
 
@@ -172,7 +172,7 @@ impl String {
     pub fn insert(&mut self, idx: usize, ch: char) {
         assert!(self.is_char_boundary(idx));
 
-        let mut bits = unsafe { uninit_bits() };
+        let mut bits = [0; 4];
         let bits = ch.encode_utf8(&mut bits).as_bytes();
         unsafe { self.insert_bytes(idx, bits) };
     }
@@ -411,7 +411,7 @@ impl core::fmt::Debug for String {
 
 impl From<char> for String {
     fn from(ch: char) -> Self {
-        let mut bytes = unsafe { uninit_bits() };
+        let mut bytes = [0; 4];
         let bytes = ch.encode_utf8(&mut bytes).as_bytes();
         let vec = Vec::from(bytes);
         String { vec }
@@ -656,9 +656,3 @@ impl core::fmt::Write for String {
         Ok(())
     }
 }
-
-unsafe fn uninit_bits() -> [u8; 4] {
-    MaybeUninit::<[MaybeUninit<u8>; 4]>::uninit()
-        .assume_init()
-        .map(|v| v.assume_init())
-}
-- 
2.43.0


From b0d125459b6b75521417495fc3b99699cadd3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 31/48] fix: Debug of String must format it as str does

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 3bd688b..f4749a1 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -405,7 +405,7 @@ impl core::fmt::Display for String {
 impl core::fmt::Debug for String {
     #[inline]
     fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
-        core::fmt::Display::fmt(&**self, f)
+        core::fmt::Debug::fmt(&**self, f)
     }
 }
 
-- 
2.43.0


From c3da799ba92f5d1bc545451e45e65bac86c0588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 32/48] fix: String::as_mut_vec is unsafe as it allows to write
 invalid UTF-8

---
 src/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index f4749a1..c9a8b81 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -105,8 +105,10 @@ impl String {
         &self.vec
     }
 
+    /// # Safety
+    /// Bytes must be valid UTF-8 when the borrow ends.
     #[inline]
-    pub fn as_mut_vec(&mut self) -> &mut Vec<u8> {
+    pub unsafe fn as_mut_vec(&mut self) -> &mut Vec<u8> {
         &mut self.vec
     }
 
-- 
2.43.0


From 22e18606b14a0972331bf749910ccb5478277c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 33/48] fix: extending an empty String must not replace its
 allocator

---
 src/string.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index c9a8b81..53e99fc 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -494,7 +494,9 @@ impl<'a> Extend<&'a char> for String {
 
 impl FromIterator<String> for String {
     fn from_iter<T: IntoIterator<Item = String>>(iter: T) -> Self {
-        let mut s = String::new();
+        let mut iter = iter.into_iter();
+        // Use already allocated String.
+        let mut s = iter.next().unwrap_or_default();
         s.extend(iter);
         s
     }
@@ -502,15 +504,6 @@ impl FromIterator<String> for String {
 
 impl Extend<String> for String {
     fn extend<T: IntoIterator<Item = String>>(&mut self, iter: T) {
-        let mut iter = iter.into_iter();
-
-        // Use already allocated String if current one is not.
-        if self.capacity() == 0 {
-            if let Some(s) = iter.next() {
-                self.vec = s.vec;
-            }
-        }
-
         for s in iter {
             self.push_str(&s);
         }
-- 
2.43.0


From c1d8787817130ca84427be28e19431b319f8a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 34/48] fix: markers and selectors of the same type must be
 equal regardless of name address

---
 src/scope.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..b196026 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -27,8 +27,8 @@ pub enum AllocMarker {
     // Note that earlier versions of this crate used `TypeId` directly as a marker. This was
     // changed because TypeId required types to not have any references to the local
     // values which limits usability. Though not sure how reliable this is.
-    // The strings themselves are not compared, but instead the address that they point to,
-    // as this is faster.
+    // The strings are compared by contents: compiler does not guarantee that each use of the
+    // name of the same type refers to the same address.
     Type(&'static str),
 }
 
@@ -36,7 +36,7 @@ impl PartialEq for AllocMarker {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (AllocMarker::None, AllocMarker::None) => true,
-            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.as_ptr() == b.as_ptr(),
+            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,
             _ => false,
         }
     }
@@ -46,7 +46,7 @@ impl Hash for AllocMarker {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
-            AllocMarker::Type(ty) => ty.as_ptr().hash(state),
+            AllocMarker::Type(ty) => ty.hash(state),
         }
     }
 }
@@ -69,14 +69,14 @@ pub struct AllocSelector {
 
 impl PartialEq for AllocSelector {
     fn eq(&self, other: &Self) -> bool {
-        self.marker == other.marker && self.ty.as_ptr() == other.ty.as_ptr()
+        self.marker == other.marker && self.ty == other.ty
     }
 }
 
 impl Hash for AllocSelector {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
-        self.ty.as_ptr().hash(state);
+        self.ty.hash(state);
     }
 }
 
-- 
2.43.0


From 5023f2875f733d4cc0d6acdeff49440ad4730796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 35/48] fix: spawn installs the new scope and restores the
 previous one, even on panic

---
 src/scope.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index b196026..7690035 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,6 +1,6 @@
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
-use core::mem::transmute_copy;
+use core::mem::{self, transmute_copy};
 use std::any::type_name;
 use std::hash::Hash;
 use std::marker::PhantomData;
@@ -132,19 +132,36 @@ impl Env {
     where
         S: Scope,
     {
-        use crate::marker::UnsafeFrom;
+        /// Restores the previous scope when execution leaves the spawned one, including
+        /// unwinding.
+        struct Restore<'a> {
+            env: &'a mut Env,
+            prev: Option<ScopedMut<dyn Scope>>,
+        }
+
+        impl Drop for Restore<'_> {
+            fn drop(&mut self) {
+                if let Some(prev) = self.prev.take() {
+                    self.env.cur = prev;
+                }
+            }
+        }
+
         unsafe {
             // SAFETY: we definitely know the lifetime will be valid during scope execution.
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
-            // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
-
-            let t = f(&mut new_scope);
-            // SAFETY: we will give up execution to previous scope so restore previous
-            // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
-            t
+            let cur: &mut (dyn Scope + '_) = &mut new_scope;
+            // SAFETY: new scope will survive scope execution by definition. Previous scope
+            // gets restored as soon as execution leaves the new one.
+            let cur: &mut (dyn Scope + 'static) = mem::transmute(cur);
+            let prev = mem::replace(&mut self.cur, cur.unsafe_into());
+            let _restore = Restore {
+                env: self,
+                prev: Some(prev),
+            };
+
+            f(&mut new_scope)
         }
     }
 
-- 
2.43.0


From 7531afe70333ebcaf08911d25faa7eeae45bb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 36/48] fix: dropping Rc and Weak must drop the value once and
 release the memory

---
 src/ptr.rs | 23 ++++++++++++++++++++++-
 src/rc.rs  | 35 ++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 1b07fb5..4853de0 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -191,9 +191,30 @@ impl<T> ScopePtr<T> {
         Ok(ptr)
     }
 
+    /// Allocate the given value with the same allocator and marker as the given pointer.
+    pub(crate) fn alloc_like(value: T, other: &Self) -> Result<Self, AllocError> {
+        let ptr = Self::alloc_layout_in(
+            Layout::for_value(&value),
+            other.allocator(),
+            other.marker(),
+        )?;
+        // SAFETY: memory was just allocated for `T` and is not initialized yet.
+        unsafe { ptr.ptr.as_ptr().write(value) };
+        Ok(ptr)
+    }
+
     /// Allocate memory using given `Layout` and `AllocQuery`.
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
+        Self::alloc_layout_in(layout, alloc, selector.marker())
+    }
+
+    /// Allocate memory using given `Layout` and allocator.
+    fn alloc_layout_in(
+        layout: Layout,
+        alloc: &dyn GlobalAlloc,
+        marker: AllocMarker,
+    ) -> Result<Self, AllocError> {
         trace!("alloc with {:?}", &layout);
         let mem = if layout.size() == 0 {
             // Allocators must not be asked for zero-sized blocks.
@@ -203,7 +224,7 @@ impl<T> ScopePtr<T> {
         };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
-            let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
+            let alloc = unsafe { ScopePtr::new(ptr, alloc, marker) };
             Ok(alloc)
         } else {
             Err(AllocError)
diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..3c9709e 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -160,16 +160,12 @@ impl Rc<dyn core::any::Any + 'static> {
 
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
-        if Rc::strong_count(self) == 1 {
-            // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
-        } else {
-            self.inner().dec_strong();
-        }
-
-        if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
-            // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+        if self.inner().dec_strong() == 1 {
+            // This was the last `Rc` so drop the value. Hold a weak reference meanwhile, as the
+            // value may own the Weak to itself.
+            self.inner().inc_weak();
+            unsafe { drop_in_place(self.as_mut()) }
+            unsafe { release_weak(&mut self.0) }
         }
     }
 }
@@ -343,13 +339,18 @@ impl<T: ?Sized> Default for Weak<T> {
 
 impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
-        if let Some(v) = self.inner() {
-            let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
-                unsafe {
-                    drop_in_place(&mut self.0);
-                }
-            }
+        if let Some(v) = &mut self.0 {
+            unsafe { release_weak(v) }
         }
     }
 }
+
+/// Release a weak reference and free the `RcBox` if nothing refers to it.
+///
+/// # Safety
+/// The pointer must not be used after this call.
+unsafe fn release_weak<T: ?Sized>(ptr: &mut ManuallyDrop<ScopePtr<RcBox<T>>>) {
+    if ptr.dec_weak() == 1 && ptr.is_dealloc() {
+        ManuallyDrop::drop(ptr);
+    }
+}
-- 
2.43.0


From ca561d76df9f3685e55db5c3d292a0acc4172f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 37/48] fix: Rc::try_unwrap must not drop the value it returns

---
 src/rc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rc.rs b/src/rc.rs
index 3c9709e..544a93f 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -120,7 +120,13 @@ impl<T: 'static> Rc<T> {
 
     pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
+            let mut this = ManuallyDrop::new(this);
             let val = unsafe { ptr::read(&this.0.val) };
+            // RcBox does not own the value anymore, only Weaks may refer to it.
+            this.inner().set_zero_strong();
+            if Rc::weak_count(&this) == 0 {
+                unsafe { ManuallyDrop::drop(&mut this.0) }
+            }
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From b6a9746ab9466a33a33be422286c8685bc2aec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 38/48] fix: Rc::make_mut must leave Weaks alone and stay in
 own allocator

---
 src/rc.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 544a93f..48dba19 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -133,22 +133,35 @@ impl<T: 'static> Rc<T> {
         }
     }
 
+    /// Create new `Rc` in the same allocator as this one.
+    fn new_like(&self, val: MaybeDropped<T>) -> Self {
+        let b = RcBox {
+            strong: Cell::new(1),
+            weak: Cell::new(0),
+            val,
+        };
+        Rc(ManuallyDrop::new(ScopePtr::alloc_like(b, &self.0).unwrap()))
+    }
+
     pub fn make_mut(this: &mut Rc<T>) -> &mut T
     where
         T: Clone,
     {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
-                // Disassociate weak pointers from the data.
-                let data = unsafe { ptr::read(this.as_ref()) };
+                // Disassociate weak pointers from the data. The data is bitwise moved into the
+                // new RcBox.
+                let data = unsafe { ptr::read(&this.0.val) };
+                let moved = this.new_like(data);
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                // Weaks own the old RcBox now.
+                unsafe { ptr::write(this, moved) };
             }
         } else {
             let clone = this.as_ref().clone();
-            *this = Rc::new(clone);
+            *this = this.new_like(clone.into());
         }
         unsafe { this.as_mut() }
     }
-- 
2.43.0


From 772d7deeed550c7ff64f018d5d4505d6e5194148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 39/48] fix: Rc::downcast must transfer the reference it owns

---
 src/rc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 48dba19..87e150e 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -170,7 +170,9 @@ impl<T: 'static> Rc<T> {
 impl Rc<dyn core::any::Any + 'static> {
     pub fn downcast<T: core::any::Any>(self) -> Result<Rc<T>, Self> {
         if (*self).is::<T>() {
-            unsafe { Ok(Rc(ManuallyDrop::new(self.0.clone().cast()))) }
+            // The reference is transferred to the new Rc.
+            let this = ManuallyDrop::new(self);
+            unsafe { Ok(Rc(ManuallyDrop::new((*this.0).clone().cast()))) }
         } else {
             Err(self)
         }
-- 
2.43.0


From 6081e4d6730a511c18d5d758fe2ae7e899d0f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 40/48] fix: Arc::downgrade hanged when the weak counter
 changed concurrently

---
 src/arc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..a9e207c 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -260,8 +260,9 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From b49fb188ed8e46cc95d0059e326da4683c8679c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 41/48] fix: Arc and its Weaks must release the memory exactly
 once

---
 src/arc.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index a9e207c..072eec7 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,8 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // All the strong references together hold one weak reference, which is released after
+    // the data is dropped. Whoever releases the last weak reference deallocates `ArcInner`.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -140,7 +142,7 @@ impl<T: 'static> Arc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
+            weak: AtomicUsize::new(1),
             data: data.into(),
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
@@ -177,7 +179,7 @@ impl<T: 'static> Arc<T> {
         let mut weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
@@ -221,7 +223,7 @@ impl<T: 'static> Arc<T> {
 }
 
 impl<T> Arc<T> {
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this
             .inner()
             .strong
@@ -236,10 +238,8 @@ impl<T> Arc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
-            // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            // Release the weak reference of strong ones.
+            let _weak = Weak(ManuallyDrop::new(this.0.clone()));
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -272,7 +272,7 @@ impl<T: ?Sized> Arc<T> {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
         // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        cnt.get().map_or(0, |cnt| cnt - 1)
     }
 
     #[inline]
@@ -322,7 +322,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -333,7 +333,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -348,14 +348,12 @@ impl<T: ?Sized> Arc<T> {
     // Non-inlined part of `drop`.
     #[inline(never)]
     unsafe fn drop_slow(&mut self) {
+        // Release the weak reference of strong ones afterwards.
+        let _weak = Weak(ManuallyDrop::new(self.0.clone()));
+
         // Destroy the data at this time, even though we must not free the box
         // allocation itself (there might still be weak pointers lying around).
         drop_in_place(Self::get_mut_unchecked(self));
-
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
     }
 }
 
@@ -541,6 +539,17 @@ impl<T: ?Sized> Drop for Arc<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Weak<T> {
+    #[inline]
+    fn drop(&mut self) {
+        // See `Drop` of `Arc` for the explanation of orderings.
+        if self.0.weak.fetch_sub(1, Release) == 1 {
+            core::sync::atomic::fence(Acquire);
+            unsafe { ManuallyDrop::drop(&mut self.0) }
+        }
+    }
+}
+
 impl<'env, T: ?Sized + 'env> Envelop<'env> for Arc<T> {
     type Send = Arc<T>;
 
-- 
2.43.0


From 70249837d9e7f5041ce5797bae32b813672c6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 42/48] fix: Arc::make_mut must leave Weaks alone and stay in
 own allocator

---
 src/arc.rs | 54 +++++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 072eec7..73016bc 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -171,12 +171,24 @@ impl<T: 'static> Arc<T> {
         unsafe { Ok(Pin::new_unchecked(Self::try_new(data)?)) }
     }
 
+    /// Create new `Arc` in the same allocator as this one.
+    fn new_like(&self, data: MaybeDropped<T>) -> Self {
+        let inner = ArcInner {
+            strong: AtomicUsize::new(1),
+            weak: AtomicUsize::new(1),
+            data,
+        };
+        Arc(ManuallyDrop::new(
+            ScopePtr::alloc_like(inner, &self.0).unwrap(),
+        ))
+    }
+
     pub fn make_mut(this: &mut Self) -> &mut T
     where
         T: Clone,
     {
-        let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let strong = this.inner().load_strong(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
             if weak == 1 {
@@ -184,38 +196,26 @@ impl<T: 'static> Arc<T> {
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
             } else {
-                // Disassociate present weak pointers from the data.
-
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
+                // Disassociate present weak pointers from the data. The strong reference is
+                // the only one and is mutably borrowed, so no other thread can possibly
+                // access or Clone it.
+
+                // Move the data into a new Arc.
+                let moved = unsafe { this.new_like(ptr::read(&this.0.data)) };
+
+                // This binding will release the weak reference of the strong ones. It prevents
+                // ArcInner from deallocating while we use it here, even if all Weaks will be
+                // Dropped in the other threads.
                 let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
 
                 // Set strong to zero to indicate ArcInner does not own any data no more.
-                match strong.try_set_zero(Acquire) {
-                    Ok(_) => {
-                        // Move out the data.
-                        let data = unsafe { ptr::read(this.as_ref()) };
-                        // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
-                    }
-                    Err(_) => {
-                        // Probably, `Arc` was cloned before we have disassociated.
-                        // Need to create a new Arc instead without decrementing and clone the
-                        // data.
-                        let clone = this.as_ref().clone();
-                        *this = Arc::new(clone);
-                    }
-                }
+                this.inner().strong.store(0, Release);
+                unsafe { ptr::write(this, moved) };
             }
         } else {
             // There are several `strong`s so just clone the data and create a new Arc.
             let clone = this.as_ref().clone();
-            *this = Arc::new(clone);
+            *this = this.new_like(clone.into());
         }
 
         unsafe { Arc::get_mut_unchecked(this) }
-- 
2.43.0


From 092a227087e3d13d61f319935cb28ce2c4878aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 43/48] fix: Urc counts fences so that data, Master and Fences
 are released exactly once

---
 src/urc.rs | 272 +++++++++++++++++++++++++----------------------------
 1 file changed, 127 insertions(+), 145 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..1759071 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,7 +10,6 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
 use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
@@ -89,6 +88,50 @@ impl<T: ?Sized> Fence<T> {
         debug_assert!(v > 0);
         self.strong.set(v - 1);
     }
+
+    /// Make the strong fence to be a weak one. This drops the data if there are no more strong
+    /// fences.
+    ///
+    /// # Safety
+    /// Fence should be counted as the strong one, and the data will not be accessed through it.
+    unsafe fn leave_strong(&self) {
+        // The fence still needs the master, so this goes first.
+        self.master.weak_fence.fetch_add(1, Relaxed);
+
+        if self.master.strong_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop the data as this was the only strong Fence");
+            core::sync::atomic::fence(Acquire);
+
+            // Release the weak reference of strong fences afterwards. It is never the last one
+            // as this fence has its own.
+            struct ReleaseWeak<'a>(&'a AtomicUsize);
+            impl Drop for ReleaseWeak<'_> {
+                fn drop(&mut self) {
+                    self.0.fetch_sub(1, Release);
+                }
+            }
+            let _release = ReleaseWeak(&self.master.weak_fence);
+
+            // Destroy the data at this time, even though we must not free the box
+            // allocation itself (there might still be weak pointers lying around).
+            let mut master = ManuallyDrop::new(self.master.clone());
+            drop_in_place(MaybeDropped::as_mut(&mut master.data));
+        }
+    }
+}
+
+impl<T: ?Sized> Drop for Fence<T> {
+    fn drop(&mut self) {
+        if self.is_strong() {
+            unsafe { self.leave_strong() }
+        }
+
+        if self.master.weak_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop Master as this was the only Fence");
+            core::sync::atomic::fence(Acquire);
+            unsafe { ManuallyDrop::drop(&mut self.master) }
+        }
+    }
 }
 
 impl<T> Fence<T> {
@@ -109,6 +152,8 @@ struct Master<T: ?Sized> {
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// All strong fences together hold one more, which is released after the data is dropped.
+    /// Whoever releases the last one deallocates the master.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -125,10 +170,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -166,8 +208,7 @@ impl<T: ?Sized> Urc<T> {
         this.fence().inc_weak();
         unsafe {
             Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
+                fence: ManuallyDrop::new(this.fence.clone()),
             }
         }
     }
@@ -187,10 +228,7 @@ impl<T: ?Sized> Urc<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn fence_mut(&mut self) -> &mut Fence<T> {
-        &mut self.fence
-    }
+
 
     #[inline]
     pub fn try_into_fence(mut this: Self) -> Result<ScopePtr<Fence<T>>, Self> {
@@ -218,7 +256,7 @@ impl<T> Urc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
+            weak_fence: 1.into(),
             data: data.into(),
         };
         let fence = Fence {
@@ -235,6 +273,30 @@ impl<T> Urc<T> {
         Ok(urc)
     }
 
+    /// Create new `Urc` in the same allocators as this one.
+    fn new_like(&self, data: MaybeDropped<T>) -> Self {
+        // Not strong until everything is allocated, so that the data is not dropped on failure.
+        let master = Master {
+            strong_fence: 0.into(),
+            weak_fence: 1.into(),
+            data,
+        };
+        let fence = Fence {
+            strong: 0.into(),
+            weak: 0.into(),
+            master: ManuallyDrop::new(ScopePtr::alloc_like(master, &self.fence.master).unwrap()),
+        };
+        let fence = ScopePtr::alloc_like(fence, &self.fence).unwrap();
+        fence.inc_strong();
+        fence.master.strong_fence.store(1, Relaxed);
+
+        let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
+        Urc {
+            fence: ManuallyDrop::new(fence),
+            data,
+        }
+    }
+
     #[inline]
     pub fn new_uninit() -> Urc<MaybeUninit<T>> {
         Self::try_new_uninit().unwrap()
@@ -256,6 +318,11 @@ impl<T> Urc<T> {
     }
 
     pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -267,24 +334,16 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
+            // The fence is weak from now on, it took over the weak reference of strong fences.
+            this.fence().dec_strong();
+
             // If nothing refers to the Fence no more then release it.
             if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
                 ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
             }
 
             // Prevent normal Drop execution - we already managed resources here.
@@ -298,75 +357,31 @@ impl<T> Urc<T> {
     where
         T: Clone,
     {
-        // Clone the data into new Urc.
-        macro_rules! clone(
-            () => {{
-                *this = Self::new((*this.data).clone());
-                unsafe { Urc::get_mut_unchecked(this) }
-            }};
-        );
-
-        // Move out the data to another completely new Master.
-        macro_rules! move_out(
-            () => {{
-                let data = unsafe { ptr::read(this.as_ref()) };
-                // Set strong to zero to indicate this Fence/Master
-                // does not own any data no more.
-                this.fence_mut().strong.set(0);
-                this.master_mut().strong_fence.store(0, Release);
-
-                *this = Self::new(data);
-                unsafe { Urc::get_mut_unchecked(this) }
-            }};
-        );
-
-        if this.master().strong_fence.load(Acquire) == 1 {
-            // This is the only thread that has strong references.
-
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
-                    }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
+        if !this.is_sole_strong() {
+            // There are several strong references so just clone the data into a new Urc.
+            let clone = this.as_ref().clone();
+            *this = this.new_like(clone.into());
+        } else if !this.is_unique() {
+            // Disassociate weak pointers from the data. The strong reference is the only one and
+            // is mutably borrowed, so no other thread can possibly access or clone it.
+
+            // Move out the data to another completely new Master.
+            let moved = unsafe { this.new_like(ptr::read(&this.master().data)) };
+
+            // Set strong to zero to indicate this Fence/Master does not own any data no more.
+            // The fence took over the weak reference of strong fences.
+            this.fence().dec_strong();
+            this.master().strong_fence.store(0, Release);
+
+            unsafe {
+                // If nothing refers to the Fence no more then release it.
+                if this.fence().weak_count() == 0 {
+                    ManuallyDrop::drop(&mut this.fence);
                 }
-            } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
-                    }
-                };
-
-                move_out!()
+                ptr::write(this, moved);
             }
-        } else {
-            clone!()
         }
+        unsafe { Urc::get_mut_unchecked(this) }
     }
 
     /// # Safety
@@ -395,26 +410,20 @@ impl<T> Urc<T> {
     /// the underlying data.
     #[inline]
     fn is_unique(&self) -> bool {
-        // See 'Arc' impl of the same function for more details.
+        // Fences which become weak update `weak_fence` before `strong_fence`. So if there are no
+        // other strong fences then all of the weak ones are visible here.
+        //
+        // Since there is only one Fence then only this thread owns the data
+        // so it is safe to proceed without synchronization.
+        self.is_sole_strong()
+            && self.master().weak_fence.load(Acquire) == 1
+            && self.fence().weak_count() == 0
+    }
 
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(0, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+    /// Determine whether this is the unique strong reference to the underlying data.
+    #[inline]
+    fn is_sole_strong(&self) -> bool {
+        self.master().strong_fence.load(Acquire) == 1 && self.fence().strong_count() == 1
     }
 }
 
@@ -443,11 +452,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -496,29 +500,16 @@ impl<T: ?Sized> Clone for Urc<T> {
 impl<T: ?Sized> Drop for Urc<T> {
     fn drop(&mut self) {
         trace!("Dropping Urc");
-        if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
-            // The fence is no more referenced so drop it.
-            trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
-            unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
-
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
+        self.fence().dec_strong();
+        if Urc::fence_strong_count(self) == 0 {
+            // Hold a weak reference meanwhile, as the data may own the Weak to itself.
+            let _weak = unsafe {
+                self.fence().inc_weak();
+                Weak {
+                    fence: ManuallyDrop::new(self.fence.clone()),
                 }
-            }
-        } else {
-            // There are still either other strong or some weak references.
-            // Just decrement the counter and keep the Fence.
-            self.fence().dec_strong()
+            };
+            unsafe { self.fence().leave_strong() }
         }
     }
 }
@@ -527,16 +518,7 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
-            }
+            unsafe { ManuallyDrop::drop(&mut self.fence) };
         } else {
             // There are still either some strong or other weak references.
             // Just decrement the counter and keep the Fence.
-- 
2.43.0


From 6a80e4ce77f9115137e4ab9ec0c32a68c704ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 44/48] fix: Rc, Arc and Urc leaked the value when allocation
 fails

---
 src/arc.rs |  5 +++--
 src/ptr.rs | 12 ++++++++++++
 src/rc.rs  |  5 +++--
 src/urc.rs |  5 +++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 73016bc..f13b949 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -140,12 +140,13 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let inner = ArcInner {
+        // The data is dropped normally if allocation fails.
+        let inner = || ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(1),
             data: data.into(),
         };
-        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
+        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc_with(
             inner,
             AllocSelector::new::<T>(),
         )?)))
diff --git a/src/ptr.rs b/src/ptr.rs
index 4853de0..436b323 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -191,6 +191,18 @@ impl<T> ScopePtr<T> {
         Ok(ptr)
     }
 
+    /// Allocate memory for the value and write there the result of the function. The function
+    /// is not called if allocation fails.
+    pub(crate) fn alloc_with(
+        f: impl FnOnce() -> T,
+        selector: AllocSelector,
+    ) -> Result<Self, AllocError> {
+        let ptr = Self::alloc_layout(Layout::new::<T>(), selector)?;
+        // SAFETY: memory was just allocated for `T` and is not initialized yet.
+        unsafe { ptr.ptr.as_ptr().write(f()) };
+        Ok(ptr)
+    }
+
     /// Allocate the given value with the same allocator and marker as the given pointer.
     pub(crate) fn alloc_like(value: T, other: &Self) -> Result<Self, AllocError> {
         let ptr = Self::alloc_layout_in(
diff --git a/src/rc.rs b/src/rc.rs
index 87e150e..1414ee3 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,13 +108,14 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
-        let b = RcBox {
+        // The value is dropped normally if allocation fails.
+        let b = || RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
             val: val.into(),
         };
         Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
+            ScopePtr::alloc_with(b, AllocSelector::new::<T>()).unwrap(),
         ))
     }
 
diff --git a/src/urc.rs b/src/urc.rs
index 1759071..bd745eb 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -254,7 +254,8 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let master = Master {
+        // The data is dropped normally if allocation fails.
+        let master = || Master {
             strong_fence: 1.into(),
             weak_fence: 1.into(),
             data: data.into(),
@@ -262,7 +263,7 @@ impl<T> Urc<T> {
         let fence = Fence {
             strong: 1.into(),
             weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
+            master: ManuallyDrop::new(ScopePtr::alloc_with(master, AllocSelector::new::<Master<T>>())?),
         };
         let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
         let urc = Urc {
-- 
2.43.0


From 48ff49606eb239c281f15f68e00f1132fd817f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 45/48] fix: Urc::try_unwrap must not move the handle after its
 data is released

---
 src/urc.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index bd745eb..d9c85ca 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -318,7 +318,7 @@ impl<T> Urc<T> {
         unsafe { Ok(Pin::new_unchecked(Self::try_new(data)?)) }
     }
 
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this.fence().strong_count() != 1 {
             // Exactly one strong reference is required but several strong references exist.
             return Err(this);
@@ -335,6 +335,9 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
+        // Prevent normal Drop execution - resources are managed here.
+        let mut this = ManuallyDrop::new(this);
+
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
@@ -347,9 +350,6 @@ impl<T> Urc<T> {
                 ManuallyDrop::drop(&mut this.fence);
             }
 
-            // Prevent normal Drop execution - we already managed resources here.
-            mem::forget(this);
-
             Ok(elem)
         }
     }
-- 
2.43.0


From 1019e2ddda4ab8db02e4acd4124db9b47d972f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 46/48] fix: make_mut of Rc, Arc and Urc leaked the clone when
 allocation fails

---
 src/arc.rs | 10 +++++-----
 src/ptr.rs | 10 +++-------
 src/rc.rs  | 10 +++++-----
 src/urc.rs | 22 ++++++++++++----------
 4 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index f13b949..74a0dbf 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -173,11 +173,11 @@ impl<T: 'static> Arc<T> {
     }
 
     /// Create new `Arc` in the same allocator as this one.
-    fn new_like(&self, data: MaybeDropped<T>) -> Self {
-        let inner = ArcInner {
+    fn new_like(&self, data: impl FnOnce() -> MaybeDropped<T>) -> Self {
+        let inner = || ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(1),
-            data,
+            data: data(),
         };
         Arc(ManuallyDrop::new(
             ScopePtr::alloc_like(inner, &self.0).unwrap(),
@@ -202,7 +202,7 @@ impl<T: 'static> Arc<T> {
                 // access or Clone it.
 
                 // Move the data into a new Arc.
-                let moved = unsafe { this.new_like(ptr::read(&this.0.data)) };
+                let moved = this.new_like(|| unsafe { ptr::read(&this.0.data) });
 
                 // This binding will release the weak reference of the strong ones. It prevents
                 // ArcInner from deallocating while we use it here, even if all Weaks will be
@@ -216,7 +216,7 @@ impl<T: 'static> Arc<T> {
         } else {
             // There are several `strong`s so just clone the data and create a new Arc.
             let clone = this.as_ref().clone();
-            *this = this.new_like(clone.into());
+            *this = this.new_like(|| clone.into());
         }
 
         unsafe { Arc::get_mut_unchecked(this) }
diff --git a/src/ptr.rs b/src/ptr.rs
index 436b323..b486cbc 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -204,14 +204,10 @@ impl<T> ScopePtr<T> {
     }
 
     /// Allocate the given value with the same allocator and marker as the given pointer.
-    pub(crate) fn alloc_like(value: T, other: &Self) -> Result<Self, AllocError> {
-        let ptr = Self::alloc_layout_in(
-            Layout::for_value(&value),
-            other.allocator(),
-            other.marker(),
-        )?;
+    pub(crate) fn alloc_like(f: impl FnOnce() -> T, other: &Self) -> Result<Self, AllocError> {
+        let ptr = Self::alloc_layout_in(Layout::new::<T>(), other.allocator(), other.marker())?;
         // SAFETY: memory was just allocated for `T` and is not initialized yet.
-        unsafe { ptr.ptr.as_ptr().write(value) };
+        unsafe { ptr.ptr.as_ptr().write(f()) };
         Ok(ptr)
     }
 
diff --git a/src/rc.rs b/src/rc.rs
index 1414ee3..48fd488 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -135,11 +135,11 @@ impl<T: 'static> Rc<T> {
     }
 
     /// Create new `Rc` in the same allocator as this one.
-    fn new_like(&self, val: MaybeDropped<T>) -> Self {
-        let b = RcBox {
+    fn new_like(&self, val: impl FnOnce() -> MaybeDropped<T>) -> Self {
+        let b = || RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
-            val,
+            val: val(),
         };
         Rc(ManuallyDrop::new(ScopePtr::alloc_like(b, &self.0).unwrap()))
     }
@@ -153,7 +153,7 @@ impl<T: 'static> Rc<T> {
                 // Disassociate weak pointers from the data. The data is bitwise moved into the
                 // new RcBox.
                 let data = unsafe { ptr::read(&this.0.val) };
-                let moved = this.new_like(data);
+                let moved = this.new_like(|| data);
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
@@ -162,7 +162,7 @@ impl<T: 'static> Rc<T> {
             }
         } else {
             let clone = this.as_ref().clone();
-            *this = this.new_like(clone.into());
+            *this = this.new_like(|| clone.into());
         }
         unsafe { this.as_mut() }
     }
diff --git a/src/urc.rs b/src/urc.rs
index d9c85ca..dc3c303 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -275,20 +275,22 @@ impl<T> Urc<T> {
     }
 
     /// Create new `Urc` in the same allocators as this one.
-    fn new_like(&self, data: MaybeDropped<T>) -> Self {
-        // Not strong until everything is allocated, so that the data is not dropped on failure.
-        let master = Master {
-            strong_fence: 0.into(),
+    /// The data is dropped if allocation fails only when it is `owned`.
+    fn new_like(&self, data: impl FnOnce() -> MaybeDropped<T>, owned: bool) -> Self {
+        // Data that is not owned gets the strong fence when everything is allocated.
+        let strong = owned as usize;
+        let master = || Master {
+            strong_fence: strong.into(),
             weak_fence: 1.into(),
-            data,
+            data: data(),
         };
         let fence = Fence {
-            strong: 0.into(),
+            strong: strong.into(),
             weak: 0.into(),
             master: ManuallyDrop::new(ScopePtr::alloc_like(master, &self.fence.master).unwrap()),
         };
-        let fence = ScopePtr::alloc_like(fence, &self.fence).unwrap();
-        fence.inc_strong();
+        let fence = ScopePtr::alloc_like(|| fence, &self.fence).unwrap();
+        fence.strong.set(1);
         fence.master.strong_fence.store(1, Relaxed);
 
         let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
@@ -361,13 +363,13 @@ impl<T> Urc<T> {
         if !this.is_sole_strong() {
             // There are several strong references so just clone the data into a new Urc.
             let clone = this.as_ref().clone();
-            *this = this.new_like(clone.into());
+            *this = this.new_like(|| clone.into(), true);
         } else if !this.is_unique() {
             // Disassociate weak pointers from the data. The strong reference is the only one and
             // is mutably borrowed, so no other thread can possibly access or clone it.
 
             // Move out the data to another completely new Master.
-            let moved = unsafe { this.new_like(ptr::read(&this.master().data)) };
+            let moved = this.new_like(|| unsafe { ptr::read(&this.master().data) }, false);
 
             // Set strong to zero to indicate this Fence/Master does not own any data no more.
             // The fence took over the weak reference of strong fences.
-- 
2.43.0


From 96a3dee6decb66e69b4892a25da7478f24db6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 47/48] fix: Fence is Send only if its data may be shared

---
 src/urc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urc.rs b/src/urc.rs
index dc3c303..e8895c3 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -40,7 +40,7 @@ pub struct Fence<T: ?Sized> {
     master: ManuallyDrop<ScopePtr<Master<T>>>,
 }
 
-unsafe impl<T: ?Sized> Send for Fence<T> {}
+unsafe impl<T: ?Sized + Sync + Send> Send for Fence<T> {}
 
 impl<T: ?Sized> Fence<T> {
     #[inline]
-- 
2.43.0


From 28d457c91085ccd3d3920269bb7e9acc5e26cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 48/48] fix: Box passes all the writes to the hasher inside

Hashers may take numbers in their own way: the boxed ones gave other
hashes than they do themselves.
---
 src/boxed.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/boxed.rs b/src/boxed.rs
index 2e5a93c..77555ef 100644
--- a/src/boxed.rs
+++ b/src/boxed.rs
@@ -136,6 +136,54 @@ impl<T: hash::Hasher + ?Sized> hash::Hasher for Box<T> {
     fn write(&mut self, bytes: &[u8]) {
         (**self).write(bytes)
     }
+
+    fn write_u8(&mut self, i: u8) {
+        (**self).write_u8(i)
+    }
+
+    fn write_u16(&mut self, i: u16) {
+        (**self).write_u16(i)
+    }
+
+    fn write_u32(&mut self, i: u32) {
+        (**self).write_u32(i)
+    }
+
+    fn write_u64(&mut self, i: u64) {
+        (**self).write_u64(i)
+    }
+
+    fn write_u128(&mut self, i: u128) {
+        (**self).write_u128(i)
+    }
+
+    fn write_usize(&mut self, i: usize) {
+        (**self).write_usize(i)
+    }
+
+    fn write_i8(&mut self, i: i8) {
+        (**self).write_i8(i)
+    }
+
+    fn write_i16(&mut self, i: i16) {
+        (**self).write_i16(i)
+    }
+
+    fn write_i32(&mut self, i: i32) {
+        (**self).write_i32(i)
+    }
+
+    fn write_i64(&mut self, i: i64) {
+        (**self).write_i64(i)
+    }
+
+    fn write_i128(&mut self, i: i128) {
+        (**self).write_i128(i)
+    }
+
+    fn write_isize(&mut self, i: isize) {
+        (**self).write_isize(i)
+    }
 }
 
 impl<T: PartialOrd + ?Sized> PartialOrd for Box<T> {
-- 
2.43.0

