From 340be64b3bf0dddb16a118da534300bc06a28d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 01/30] fix: register an update source before notifying about
 it

A commit running between the notification and the registration consumed the
notification, found no source and dropped it: the initial value of the new
allocation never reached the buffer.
---
 crates/craballoc/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..603f1bc 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -303,9 +303,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        // Notify only after the source can be found, otherwise a concurrent `commit` would
+        // consume the notification without being able to collect the source's update.
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 87046172783b8e0008dda47ec38c90403c3cce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 02/30] fix: drain and reset the update queue in one critical
 section

commit() read the queue and cleared it under two separate locks. Ids moved from
the channel to the queue in between, by another thread calling
get_updated_source_ids or commit, were cleared without having been processed.
---
 crates/craballoc/src/slab.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 603f1bc..3cefde4 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -450,9 +450,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
-        // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        let update_set = {
+            // Collect and reset the queue in one critical section, otherwise the ids that a
+            // concurrent call to `get_updated_source_ids` moves into it in between are lost.
+            //
+            // UNWRAP: panic on purpose
+            let mut update_queue = self.update_queue.write().unwrap();
+            while let Ok(source_index) = self.notifier.1.try_recv() {
+                update_queue.insert(source_index);
+            }
+            std::mem::take(&mut *update_queue)
+        };
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From 47f742d6db60e4029418b4df9d2e1616adfa35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 03/30] fix: make allocation atomic

Two threads allocating at the same time could both see enough remaining capacity
and then extend the length past it, or store a smaller capacity over a larger
one. The buffer was then created too small for the values it has to hold and
committing them panicked.
---
 crates/craballoc/src/slab.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 3cefde4..e9590ea 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -315,8 +315,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
     }
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
+        // The lock is held during the entire allocation, as extending `len` and growing
+        // `capacity` to fit it must not interleave with other allocations.
+        //
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        let mut recycles = self.recycles.write().unwrap();
+        let may_range = recycles.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -340,12 +344,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
             return Array::default();
         }
 
+        // The lock is held during the entire allocation, as extending `len` and growing
+        // `capacity` to fit it must not interleave with other allocations.
+        //
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        let mut recycles = self.recycles.write().unwrap();
+        let may_range = recycles.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
-- 
2.43.0


From 220db250705923b22ee8f860c65db31088f72ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 04/30] fix: serialize commits and collect updates before
 sizing the buffer

- A commit running during the first commit found no buffer and panicked.
- Two concurrent commits could write updates in the reverse order of their
  collection, or into a buffer that had already been replaced.
- A value allocated between the capacity check and the collection of updates
  was written past the end of the buffer, which panics.
---
 crates/craballoc/src/slab.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index e9590ea..027c6a5 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, Mutex, RwLock},
 };
 
 use crate::{
@@ -235,6 +235,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     invalidation_k: Arc<AtomicUsize>,
     // The next monotonically increasing commit invocation identifier
     invocation_k: Arc<AtomicUsize>,
+    // Serializes commits, so that updates are written in the order they were collected
+    commit_lock: Arc<Mutex<()>>,
     // The next monotonically increasing update identifier
     pub(crate) update_k: Arc<AtomicUsize>,
     // Weak references to all values that can write updates into this slab
@@ -258,6 +260,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             buffer_usages: self.buffer_usages.clone(),
             invalidation_k: self.invalidation_k.clone(),
             invocation_k: self.invocation_k.clone(),
+            commit_lock: self.commit_lock.clone(),
             update_k: self.update_k.clone(),
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
@@ -294,6 +297,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             buffer_usages: default_buffer_usages,
             invalidation_k: Default::default(),
             invocation_k: Default::default(),
+            commit_lock: Default::default(),
         }
     }
 
@@ -533,19 +537,29 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // UNWRAP: panic on purpose
+        let _commit_guard = self.commit_lock.lock().unwrap();
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
-        let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
-        } else {
-            // UNWRAP: Safe because we know it exists or else it would need expansion
-            self.get_buffer().unwrap()
-        };
+        // Collect the updates before looking at the capacity. Every value that has an update
+        // was allocated beforehand, so the buffer is large enough for all of these writes.
         let writes = self.drain_updated_sources();
+        let buffer = {
+            // Allocation happens with this lock held, don't interleave with it.
+            //
+            // UNWRAP: panic on purpose
+            let _recycles = self.recycles.read().unwrap();
+            if self.needs_expansion.swap(false, Ordering::Relaxed) {
+                self.invalidation_k
+                    .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
+                self.recreate_buffer()
+            } else {
+                // UNWRAP: Safe because we know it exists or else it would need expansion
+                self.get_buffer().unwrap()
+            }
+        };
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From 078139ca424566be5b5379795d174f55f3734757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 05/30] fix: release the reference to an allocation before
 notifying about its drop

The drop notification was sent while the strong reference was still counted. A
commit in between consumed it, saw a live value and never recycled the
allocation, because no other notification follows.
---
 crates/craballoc/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..a7094d2 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,9 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Release this reference _before_ notifying, otherwise a concurrent `commit` could
+        // consume the notification while the allocation still looks alive, and leak it.
+        drop(std::mem::take(&mut self.update));
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -406,6 +409,9 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // Release this reference _before_ notifying, otherwise a concurrent `commit` could
+        // consume the notification while the allocation still looks alive, and leak it.
+        drop(std::mem::take(&mut self.updates));
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0


From c9dbe508bd0a68b0c5e68c2e778212b4e0da012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 06/30] fix: invalidate the old buffer together with its
 replacement

The invalidation was published before the replacement. In between,
update_if_invalid swapped an invalid buffer for itself, and with debug
assertions enabled it panicked.
---
 crates/craballoc/src/slab.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 027c6a5..f573549 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -199,9 +199,10 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                guard.as_ref().unwrap().clone()
+                let updated_buffer = guard.as_ref().unwrap().clone();
+                debug_assert!(updated_buffer.is_valid());
+                updated_buffer
             };
-            debug_assert!(updated_buffer.is_valid());
             *self = updated_buffer;
             true
         } else {
@@ -409,7 +410,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let new_buffer = self.runtime.buffer_create(
             self.capacity(),
             self.label.as_deref(),
@@ -420,6 +421,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
         }
+        // Invalidate the old buffer with the lock held, so that whoever sees the invalidation
+        // also sees the new buffer.
+        self.invalidation_k
+            .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
         let slab_buffer = SlabBuffer::new(
             self.invalidation_k.clone(),
             self.invocation_k.clone(),
@@ -552,9 +557,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             // UNWRAP: panic on purpose
             let _recycles = self.recycles.read().unwrap();
             if self.needs_expansion.swap(false, Ordering::Relaxed) {
-                self.invalidation_k
-                    .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-                self.recreate_buffer()
+                self.recreate_buffer(invocation_k)
             } else {
                 // UNWRAP: Safe because we know it exists or else it would need expansion
                 self.get_buffer().unwrap()
-- 
2.43.0


From febc4613af5956e37686d516eae0f82fbd211ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 07/30] fix: release buffers when the allocator and its buffers
 are dropped

The shared state that buffers use to synchronize held a SlabBuffer, which holds
that same shared state: a reference cycle, so the last buffer of every allocator
was never released.
---
 crates/craballoc/src/slab.rs | 57 +++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index f573549..c7ab82b 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -54,9 +54,14 @@ pub struct SlabBuffer<T> {
     // The buffer created at `buffer_creation_k`
     buffer: Arc<T>,
     // The buffer the source slab is currently working with
-    source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+    source_slab_buffer: SourceSlabBuffer<T>,
 }
 
+/// The buffer a slab is currently working with, together with the time of its creation.
+///
+/// This must not contain a [`SlabBuffer`], which would keep itself alive.
+type SourceSlabBuffer<T> = Arc<RwLock<Option<(Arc<T>, usize)>>>;
+
 impl<T> Clone for SlabBuffer<T> {
     fn clone(&self) -> Self {
         Self {
@@ -81,12 +86,12 @@ impl<T> SlabBuffer<T> {
     fn new(
         invalidation_k: Arc<AtomicUsize>,
         invocation_k: Arc<AtomicUsize>,
-        buffer: T,
-        source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+        (buffer, buffer_creation_k): (Arc<T>, usize),
+        source_slab_buffer: SourceSlabBuffer<T>,
     ) -> Self {
         SlabBuffer {
-            buffer: buffer.into(),
-            buffer_creation_k: invalidation_k.load(std::sync::atomic::Ordering::Relaxed),
+            buffer,
+            buffer_creation_k,
             slab_invalidation_k: invalidation_k,
             slab_commit_invocation_k: invocation_k,
             source_slab_buffer,
@@ -197,13 +202,14 @@ impl<T> SlabBuffer<T> {
         if self.is_invalid() {
             // UNWRAP: Safe because it is an invariant of the system. Once the `SlabBuffer`
             // is created, source_slab_buffer will always be Some.
-            let updated_buffer = {
+            let (buffer, buffer_creation_k) = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                let updated_buffer = guard.as_ref().unwrap().clone();
-                debug_assert!(updated_buffer.is_valid());
-                updated_buffer
+                let (buffer, buffer_creation_k) = guard.as_ref().unwrap().clone();
+                debug_assert!(buffer_creation_k >= self.invalidation_k());
+                (buffer, buffer_creation_k)
             };
-            *self = updated_buffer;
+            self.buffer = buffer;
+            self.buffer_creation_k = buffer_creation_k;
             true
         } else {
             false
@@ -230,7 +236,7 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     len: Arc<AtomicUsize>,
     capacity: Arc<AtomicUsize>,
     needs_expansion: Arc<AtomicBool>,
-    buffer: Arc<RwLock<Option<SlabBuffer<Runtime::Buffer>>>>,
+    buffer: SourceSlabBuffer<Runtime::Buffer>,
     buffer_usages: Runtime::BufferUsages,
     // The value of invocation_k when the last buffer invalidation happened
     invalidation_k: Arc<AtomicUsize>,
@@ -405,7 +411,21 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Return the internal buffer used by this slab, if it has
     /// been created.
     pub fn get_buffer(&self) -> Option<SlabBuffer<R::Buffer>> {
-        self.buffer.read().unwrap().clone()
+        let (buffer, buffer_creation_k) = self.buffer.read().unwrap().clone()?;
+        Some(self.slab_buffer(buffer, buffer_creation_k))
+    }
+
+    fn slab_buffer(
+        &self,
+        buffer: Arc<R::Buffer>,
+        buffer_creation_k: usize,
+    ) -> SlabBuffer<R::Buffer> {
+        SlabBuffer::new(
+            self.invalidation_k.clone(),
+            self.invocation_k.clone(),
+            (buffer, buffer_creation_k),
+            self.buffer.clone(),
+        )
     }
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
@@ -417,7 +437,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             self.buffer_usages.clone(),
         );
         let mut guard = self.buffer.write().unwrap();
-        if let Some(old_buffer) = guard.take() {
+        if let Some((old_buffer, _)) = guard.take() {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
         }
@@ -425,14 +445,9 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // also sees the new buffer.
         self.invalidation_k
             .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-        let slab_buffer = SlabBuffer::new(
-            self.invalidation_k.clone(),
-            self.invocation_k.clone(),
-            new_buffer,
-            self.buffer.clone(),
-        );
-        *guard = Some(slab_buffer.clone());
-        slab_buffer
+        let new_buffer = Arc::new(new_buffer);
+        *guard = Some((new_buffer.clone(), invocation_k));
+        self.slab_buffer(new_buffer, invocation_k)
     }
 
     /// Stage a new value that lives on the GPU _and_ CPU.
-- 
2.43.0


From 089f779f3a7a7c524a82b41fe1b200a5fd7802f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 08/30] fix: commit after creating an empty array

An empty array is null, and its update was written at the null index, which is
out of bounds of the buffer and panicked.
---
 crates/craballoc/src/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index a7094d2..e98d90c 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -443,7 +443,12 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            // An empty array has no location in the slab to write to.
+            updates: Arc::new(Mutex::new(if array.is_empty() {
+                vec![]
+            } else {
+                vec![update]
+            })),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From 53cd0c573972c7061a963fa4e8c030f17f3c9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 09/30] fix: allocate zero-sized items when there are recycled
 ranges

Removing a range of zero elements underflowed.
---
 crates/craballoc/src/range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..1e5204c 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,10 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            // There is no such thing as an empty `Range`
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From a2930672d42051332df1c88b46c58e1d23a83455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 10/30] fix: don't queue an update for an item that is out of
 bounds of its array

GpuArray::set_item with an index past the end queued an update at the null
index, which made the next commit panic.
---
 crates/craballoc/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index e98d90c..53489f5 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -472,6 +472,10 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
 
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            // Out of bounds, there is no such item
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From 800ebc7cba4ab29bf27183306546c6e7660f8af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 11/30] fix: allow setting values that outlive their allocator

Setting a value after the last clone of its allocator was dropped panicked,
because the update channel was closed.
---
 crates/craballoc/src/value.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 53489f5..d079bb4 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -383,8 +383,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
                 es
             },
         }];
-        // UNWRAP: safe because it's unbounded
-        self.notify.try_send(self.notifier_index).unwrap();
+        // The channel is unbounded, so this only fails when the allocator has been dropped
+        let _ = self.notify.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
@@ -483,8 +483,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             .lock()
             .unwrap()
             .push(SlabUpdate { array, elements });
-        // UNWRAP: safe because it's unbounded
-        self.notifier.try_send(self.notifier_index).unwrap();
+        // The channel is unbounded, so this only fails when the allocator has been dropped
+        let _ = self.notifier.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
-- 
2.43.0


From 33890730c7d38bc37a44255af4dfbcce3e14700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 12/30] fix: merge a range with every range that it touches

Only the first match was merged. Bridging two recycled ranges left them split,
and an update overlapping two queued updates left the second, older one in the
list, to be written over the newer one.
---
 crates/craballoc/src/range.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 1e5204c..9a76fb2 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -116,12 +116,16 @@ impl<R: IsRange> RangeManager<R> {
         self.ranges.is_empty()
     }
 
-    pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
-                range.union(input_range);
-                return;
-            }
+    pub fn add_range(&mut self, mut input_range: R) {
+        // The union of two ranges may in turn touch other ranges, so keep on merging.
+        while let Some(index) = self
+            .ranges
+            .iter()
+            .position(|range| range.should_merge_with(&input_range))
+        {
+            let mut range = self.ranges.swap_remove(index);
+            range.union(input_range);
+            input_range = range;
         }
         self.ranges.push(input_range);
     }
-- 
2.43.0


From 56692ab370f182f8dea0c57202c7ffb79e97c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 13/30] fix: a range of one element is not empty

---
 crates/craballoc/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 9a76fb2..5f88679 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -33,7 +33,7 @@ impl Range {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.last_index == self.first_index
+        self.len() == 0
     }
 
     pub fn intersects(&self, other: &Range) -> bool {
-- 
2.43.0


From cd1ec54858fd3a0ff3bf96817cab6756163ba60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 14/30] fix: don't write past the end of the array in
 write_array

Data that is longer than the array was written in full, over whatever comes
after the array in the slab.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..b39fd76 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -96,7 +96,7 @@ pub trait Slab {
         if array.len() > data.len() {
             return;
         }
-        let _ = self.write_indexed_slice(data, array.starting_index());
+        let _ = self.write_indexed_slice(&data[..array.len()], array.starting_index());
     }
 }
 
-- 
2.43.0


From 6218c9a9cbda3beceb56c1a55e7ac9b5181a576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 15/30] fix: reserve the requested capacity

Vec::reserve takes the number of additional elements after the length, but was
given the number of elements after the capacity, which reserves too little or
nothing. Requesting less than the current capacity underflowed.
---
 crates/crabslab/src/slab.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b39fd76..f3480e2 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -296,7 +296,8 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        // `Vec::reserve` counts from the length
+        Vec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From 7206528cfcc143f1c5978f0d980b305f3d19c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 16/30] fix: don't write what doesn't fit in the slab

write_indexed and write_indexed_slice are documented to return the same index
if writing would overlap the slab, but performed a partial write and panicked.
---
 crates/crabslab/src/slab.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index f3480e2..19a2266 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -81,7 +81,7 @@ pub trait Slab {
 
     /// Write the type into the slab at the position of the given `Id`.
     ///
-    /// This likely performs a partial write if the given `Id` is out of bounds.
+    /// This does nothing if the given `Id` is out of bounds.
     fn write<T: SlabItem>(&mut self, id: Id<T>, t: &T) {
         let _ = self.write_indexed(t, id.index());
     }
@@ -100,6 +100,11 @@ pub trait Slab {
     }
 }
 
+/// Returns whether `size` elements starting at `index` are within the slab.
+fn fits(slab: &[u32], size: usize, index: usize) -> bool {
+    slab.len() >= size && index <= slab.len() - size
+}
+
 impl Slab for [u32] {
     fn len(&self) -> usize {
         self.len()
@@ -110,10 +115,16 @@ impl Slab for [u32] {
     }
 
     fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
+        if !fits(self, T::SLAB_SIZE, index) {
+            return index;
+        }
         t.write_slab(index, self)
     }
 
     fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
+        if !fits(self, T::SLAB_SIZE * t.len(), index) {
+            return index;
+        }
         let mut index = index;
         for item in t {
             index = item.write_slab(index, self);
-- 
2.43.0


From 2b9518b4a9f57a598e71d0c19e1dfa41cbe02871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 17/30] fix: return an empty sub slab for an empty array

An empty array is null, its index is out of bounds of any slab, which panicked.
---
 crates/crabslab/src/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/crabslab/src/array.rs b/crates/crabslab/src/array.rs
index b2fdc8b..b75db24 100644
--- a/crates/crabslab/src/array.rs
+++ b/crates/crabslab/src/array.rs
@@ -178,6 +178,9 @@ impl<T> Array<T> {
         T: SlabItem,
     {
         let arr = self.into_u32_array();
+        if arr.is_empty() {
+            return &[];
+        }
         &slab[arr.index as usize..(arr.index + arr.len) as usize]
     }
 }
-- 
2.43.0


From 472fc6a09d56a2a6847a56112c84b5d25859a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 18/30] fix: read an empty range or array from a wgpu buffer

The staging buffer of zero bytes can't be sliced, which panicked.
---
 crates/craballoc/src/runtime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 6e7a4b9..0ad6858 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -246,6 +246,10 @@ impl IsRuntime for WgpuRuntime {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let (start, _end, len) = crate::runtime::range_to_indices_and_len(buffer_len, range);
+        if len == 0 {
+            // `wgpu` can't slice or map an empty buffer
+            return Ok(vec![]);
+        }
         let byte_offset = start * std::mem::size_of::<u32>();
         let length = len * std::mem::size_of::<u32>();
         let output_buffer_size = length as u64;
-- 
2.43.0


From 268a5f7842b43a8b5144243dccaedf0f197be548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 19/30] fix: read a slab that has grown since its last commit

An open range ended at the length of the slab, which includes values that were
allocated since the last commit and might not fit in the buffer: an overrun,
which is a validation error.
---
 crates/craballoc/src/slab/wgpu_slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab/wgpu_slab.rs b/crates/craballoc/src/slab/wgpu_slab.rs
index 8982657..90af3dd 100644
--- a/crates/craballoc/src/slab/wgpu_slab.rs
+++ b/crates/craballoc/src/slab/wgpu_slab.rs
@@ -17,8 +17,10 @@ impl SlabAllocator<WgpuRuntime> {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let internal_buffer = self.get_buffer().context(NoInternalBufferSnafu)?;
+        // Values may have been allocated past the end of the buffer since the last commit.
+        let buffer_len = internal_buffer.size() as usize / std::mem::size_of::<u32>();
         self.runtime
-            .buffer_read(&internal_buffer, self.len(), range)
+            .buffer_read(&internal_buffer, self.len().min(buffer_len), range)
             .await
     }
 
-- 
2.43.0


From 74fca07e0b9c41b25a1a0dc17565b5d8c8b4692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 20/30] fix: build without the wgpu feature

---
 crates/craballoc/src/runtime.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 0ad6858..0b29902 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -1,16 +1,18 @@
 //! The CPU side fo slab allocation.
 
-use std::{
-    future::Future,
-    ops::Deref,
-    sync::{Arc, Mutex},
-};
+#[cfg(feature = "wgpu")]
+use std::sync::Arc;
+use std::{future::Future, ops::Deref, sync::Mutex};
 
 use crabslab::Array;
+#[cfg(feature = "wgpu")]
 use snafu::ResultExt;
+#[cfg(feature = "wgpu")]
 use tracing::Instrument;
 
-use crate::slab::{AsyncRecvSnafu, AsyncSnafu, SlabAllocatorError};
+use crate::slab::SlabAllocatorError;
+#[cfg(feature = "wgpu")]
+use crate::slab::{AsyncRecvSnafu, AsyncSnafu};
 
 /// An update to a slab.
 ///
@@ -181,6 +183,7 @@ pub struct WgpuRuntime {
     pub queue: Arc<wgpu::Queue>,
 }
 
+#[cfg(feature = "wgpu")]
 impl AsRef<WgpuRuntime> for WgpuRuntime {
     fn as_ref(&self) -> &WgpuRuntime {
         self
-- 
2.43.0


From 29e0a950d1b1bc0b8ce802fda22f65f4614ad805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 21/30] fix: derive SlabItem for structs without fields

The size was an empty sum, which doesn't compile.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 4b37d1d..214e758 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -524,7 +524,7 @@ fn derive_from_slab_struct(
         impl #impl_generics crabslab::SlabItem for #name #ty_generics #where_clause
         {
             const SLAB_SIZE: usize = {
-                #( <#field_tys as crabslab::SlabItem>::SLAB_SIZE )+*
+                0 #( + <#field_tys as crabslab::SlabItem>::SLAB_SIZE )*
             };
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
-- 
2.43.0


From bf928065f7b4115c7af08cb125fe21c15fa9123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 22/30] fix: derive offsets for generic structs

The generated impl lacked the bounds of the SlabItem impl.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 214e758..e3f15b9 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -511,7 +511,7 @@ fn derive_from_slab_struct(
         quote! {
             #[automatically_derived]
             /// Offsets into the slab buffer for each field.
-            impl #impl_generics #name #ty_generics {
+            impl #impl_generics #name #ty_generics #where_clause {
                 #(#offsets)*
             }
         }
-- 
2.43.0


From cd298eb2df9f22e3205c9776458f1f1ebc298138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 23/30] fix: derive SlabItem for structs with raw identifiers

The names of the offset constants contained r#, which is not a valid identifier
there, and made the macro panic.
---
 crates/crabslab-derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index e3f15b9..5e7260b 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,7 +1,7 @@
 //! Provides derive macros for `crabslab`.
 use quote::quote;
 use syn::{
-    spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed, FieldsUnnamed,
+    ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed, FieldsUnnamed,
     Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
 };
 
@@ -484,11 +484,11 @@ fn derive_from_slab_struct(
             ),
             FieldName::Ident(field) => (
                 Ident::new(
-                    &format!("OFFSET_OF_{}", field.to_string().to_uppercase()),
+                    &format!("OFFSET_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
                 Ident::new(
-                    &format!("SLAB_SIZE_OF_{}", field.to_string().to_uppercase()),
+                    &format!("SLAB_SIZE_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
             ),
-- 
2.43.0


From 330eb6bff6627c0ee37786f7d8ae781f8281cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 24/30] fix: derive SlabItem without importing the trait

The generated code called the trait's functions as methods, which only compiles
when the trait is in scope, and would call an inherent function of the same name.
---
 crates/crabslab-derive/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 5e7260b..f82b4cd 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -328,7 +328,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             })
             .collect::<Vec<_>>();
         quote! {
-            #(let index = #field_names.write_slab(index, slab);)*
+            #(let index = crabslab::SlabItem::write_slab(#field_names, index, slab);)*
         }
     });
     let write_variants_matches: Vec<proc_macro2::TokenStream> = variants
@@ -369,7 +369,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             quote! {
                 #pat_match => {
                     let __hash: u32 = #hash;
-                    let index = __hash.write_slab(index, slab);
+                    let index = crabslab::SlabItem::write_slab(&__hash, index, slab);
                     #write
                     original_index + slab_size
                 }
@@ -385,7 +385,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
                 // Read the hash to tell which variant we're in.
-                let hash =  u32::read_slab(index, slab);
+                let hash = <u32 as crabslab::SlabItem>::read_slab(index, slab);
                 index += 1;
                 match hash {
                     #(#read_variants_matches)*
@@ -466,10 +466,10 @@ fn derive_from_slab_struct(
         .iter()
         .map(|name| match name {
             FieldName::Index(i) => quote! {
-                let index = self.#i.write_slab(index, slab);
+                let index = crabslab::SlabItem::write_slab(&self.#i, index, slab);
             },
             FieldName::Ident(field) => quote! {
-                let index = self.#field.write_slab(index, slab);
+                let index = crabslab::SlabItem::write_slab(&self.#field, index, slab);
             },
         })
         .collect::<Vec<_>>();
-- 
2.43.0


From 09477621c602b8b3966b6b8cc030d40f55d97e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 25/30] fix: derive SlabItem for enums with fields named like
 generated variables

Fields named index, slab, slab_size or original_index shadowed the variables of
the generated code, which then didn't compile, or wrote to the wrong place.
---
 crates/crabslab-derive/src/lib.rs | 44 +++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index f82b4cd..8d483d5 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -10,6 +10,29 @@ enum FieldName {
     Ident(Ident),
 }
 
+impl FieldName {
+    /// The local variable that holds this field in the generated code.
+    ///
+    /// It must not clash with any of the other variables in there.
+    fn binding(&self) -> Ident {
+        match self {
+            FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
+            FieldName::Ident(field) => {
+                Ident::new(&format!("__field_{}", field.unraw()), field.span())
+            }
+        }
+    }
+}
+
+impl quote::ToTokens for FieldName {
+    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
+        match self {
+            FieldName::Index(i) => i.to_tokens(tokens),
+            FieldName::Ident(field) => field.to_tokens(tokens),
+        }
+    }
+}
+
 struct FieldParams {
     field_tys: Vec<Type>,
     field_names: Vec<FieldName>,
@@ -255,11 +278,9 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             .fields
             .field_names
             .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
+            .map(FieldName::binding)
             .collect::<Vec<_>>();
+        let members = &variant.fields.field_names;
         let field_tys = &variant.fields.field_tys;
         let num_fields = field_names.len();
         let reads = field_names
@@ -289,7 +310,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                      #name::#ident {
-                         #(#field_names),*
+                         #(#members: #field_names),*
                      }
                 }}
             }
@@ -322,10 +343,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             .fields
             .field_names
             .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
+            .map(FieldName::binding)
             .collect::<Vec<_>>();
         quote! {
             #(let index = crabslab::SlabItem::write_slab(#field_names, index, slab);)*
@@ -341,17 +359,15 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 .fields
                 .field_names
                 .iter()
-                .map(|name| match name {
-                    FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                    FieldName::Ident(field) => field.clone(),
-                })
+                .map(FieldName::binding)
                 .collect::<Vec<_>>();
+            let members = &variant.fields.field_names;
             let ident = &variant.variant.ident;
             let pat_match = match variant.variant.fields {
                 Fields::Named(_) => {
                     quote! {
                         #name::#ident {
-                            #(#field_names,)*
+                            #(#members: #field_names,)*
                         }
                     }
                 }
-- 
2.43.0


From baa83bacc5cff18726cffb0dc51b2b731b7d4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 26/30] fix: an item can hold an array of items of its own type

The implementation of SlabItem for Array<T> required T: SlabItem, although
nothing of T is needed to store an index and a length. With it, deriving
SlabItem for `struct Node { children: Array<Node> }` needs Node: SlabItem to
show that Node: SlabItem, which overflows.
---
 crates/crabslab/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/array.rs b/crates/crabslab/src/array.rs
index b75db24..1206b5c 100644
--- a/crates/crabslab/src/array.rs
+++ b/crates/crabslab/src/array.rs
@@ -89,7 +89,7 @@ impl<T> PartialEq for Array<T> {
     }
 }
 
-impl<T: SlabItem> SlabItem for Array<T> {
+impl<T: core::any::Any> SlabItem for Array<T> {
     const SLAB_SIZE: usize = 2;
 
     fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
-- 
2.43.0


From db1b78b389398bbd58f720a0a434b97a763619f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 27/30] fix: derived code of enums does not depend on what
 Default is in scope

A type parameter called Default captured the path in the generated code.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 8d483d5..6a33510 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -405,7 +405,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 index += 1;
                 match hash {
                     #(#read_variants_matches)*
-                    _ => Default::default(),
+                    _ => ::core::default::Default::default(),
                 }
             }
 
-- 
2.43.0


From eb592eb9596f20bc2438ef296a71867dffff39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 28/30] fix: an enum can have a variant called SLAB_SIZE

Self::SLAB_SIZE in the generated code referred to the variant.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 6a33510..06b151c 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -410,7 +410,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             }
 
             fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
-                let slab_size = Self::SLAB_SIZE;
+                let slab_size = <Self as crabslab::SlabItem>::SLAB_SIZE;
                 let original_index = index;
                 match self {
                     #(#write_variants_matches)*
-- 
2.43.0


From 0a0695a78528335d6c5d699d29d39b2b02839e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 29/30] fix: don't panic when a read was dropped before its
 buffer was mapped

The callback of `map_async` unwrapped the result of sending to a channel whose receiver
is gone when the future returned by `read` has been dropped. Polling the device would then
panic.
---
 crates/craballoc/src/runtime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 0b29902..dacdf01 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -286,7 +286,11 @@ impl IsRuntime for WgpuRuntime {
         let buffer_slice = output_buffer.slice(..);
         let (tx, rx) = async_channel::bounded(1);
         tracing::trace_span!("map_async").in_scope(|| {
-            buffer_slice.map_async(wgpu::MapMode::Read, move |res| tx.try_send(res).unwrap());
+            buffer_slice.map_async(wgpu::MapMode::Read, move |res| {
+                // This only fails when nobody is waiting for the data anymore, because the read
+                // was cancelled
+                let _ = tx.try_send(res);
+            });
         });
         tracing::trace_span!("poll").in_scope(|| {
             self.device.poll(wgpu::Maintain::wait_for(submission_index));
-- 
2.43.0


From fd00b4afca5f5b41730a1ef4428c0dab6e0f2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 30/30] fix: don't leak a value's words when serializing the
 value panics

The words were allocated before the value was serialized, and nothing was left to release them
when `SlabItem::write_slab` panicked.
---
 crates/craballoc/src/value.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index d079bb4..6dd0e28 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -356,6 +356,8 @@ impl<T> Clone for Gpu<T> {
 
 impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
     pub fn new(mngr: &SlabAllocator<impl IsRuntime>, value: T) -> Self {
+        // Serialize first, so that nothing has been allocated if that panics.
+        let elements = Self::elements(&value);
         let id = mngr.allocate::<T>();
         let notifier_index = mngr.next_update_k();
         let s = Self {
@@ -364,7 +366,7 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
             notify: mngr.notifier.0.clone(),
             update: Default::default(),
         };
-        s.set(value);
+        s.set_elements(elements);
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu(&s));
         s
     }
@@ -374,14 +376,20 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
     }
 
     pub fn set(&self, value: T) {
+        self.set_elements(Self::elements(&value));
+    }
+
+    fn elements(value: &T) -> Vec<u32> {
+        let mut es = vec![0u32; T::SLAB_SIZE];
+        es.write(Id::new(0), value);
+        es
+    }
+
+    fn set_elements(&self, elements: Vec<u32>) {
         // UNWRAP: panic on purpose
         *self.update.lock().unwrap() = vec![SlabUpdate {
             array: Array::new(self.id.inner(), T::SLAB_SIZE as u32),
-            elements: {
-                let mut es = vec![0u32; T::SLAB_SIZE];
-                es.write(Id::new(0), &value);
-                es
-            },
+            elements,
         }];
         // The channel is unbounded, so this only fails when the allocator has been dropped
         let _ = self.notify.try_send(self.notifier_index);
@@ -429,14 +437,13 @@ impl<T> Clone for GpuArray<T> {
 
 impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
     pub fn new(mngr: &SlabAllocator<impl IsRuntime>, values: &[T]) -> Self {
+        // Serialize first, so that nothing has been allocated if that panics.
+        let mut elements = vec![0u32; T::SLAB_SIZE * values.len()];
+        elements.write_indexed_slice(values, 0);
         let array = mngr.allocate_array::<T>(values.len());
-        let update = {
-            let mut elements = vec![0u32; T::SLAB_SIZE * array.len()];
-            elements.write_indexed_slice(values, 0);
-            SlabUpdate {
-                array: array.into_u32_array(),
-                elements,
-            }
+        let update = SlabUpdate {
+            array: array.into_u32_array(),
+            elements,
         };
         let notifier_index = mngr.next_update_k();
         let g = GpuArray {
-- 
2.43.0

