From 474ad987372fc72aab3757ee32c342a1ef2faded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 1/9] fix: reset_index forgets the availability remembered
 before the reset

The remembered availability survived the jump to the successor's index, so
the next request could be granted slots beyond the iterator ahead.
---
 src/iterators/sync_iterators/cons_iter.rs | 1 +
 src/iterators/sync_iterators/work_iter.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..ab67085 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,7 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..097d660 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,7 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 5bae3acc8dddbb8cbd3a3eaf0abccca46b439786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 2/9] fix: detached go_back wraps to the right slot; jumps
 forget remembered availability

go_back with 0 < index < count computed len - count - index instead of
len - count + index; set_index and reset_index kept the availability that
was remembered for the old position.
---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..193363f 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count).unchecked_add(idx),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..90ffd7c 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,6 +69,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
@@ -77,6 +78,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     pub fn reset_index(&mut self) {
         let new_idx = self.inner.succ_index();
         self.inner.set_local_index(new_idx);
+        self.inner.set_cached_avail(0);
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
@@ -98,7 +100,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count).unchecked_add(idx),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From 9f693bb0abc9905b751c804389cc1cdf4b764fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 3/9] fix: free a heap buffer exactly once when its iterators
 are dropped concurrently

Clearing one's own flag and then reading the others let two iterators
dropped at the same time both (or, reading stale values, neither) see
themselves as the last one. The flags now live in a single atomic, so that
clearing one and learning whether it was the last is a single step.
---
 src/ring_buffer/variants/concurrent_rb.rs     | 47 ++++++++++++-------
 src/ring_buffer/variants/local_rb.rs          | 12 +++--
 src/ring_buffer/variants/ring_buffer_trait.rs |  9 ++--
 src/ring_buffer/wrappers/buf_ref.rs           | 38 +++------------
 4 files changed, 51 insertions(+), 55 deletions(-)

diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..a4bf920 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,7 +1,7 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
-use core::sync::atomic::Ordering::{Acquire, Release};
-use core::sync::atomic::{AtomicBool, AtomicUsize};
+use core::sync::atomic::Ordering::{AcqRel, Acquire, Release};
+use core::sync::atomic::{AtomicU8, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
 use crate::iterators::{
@@ -38,11 +38,14 @@ pub struct ConcurrentMutRingBuf<S: Storage> {
     work_idx: CachePadded<AtomicUsize>,
     cons_idx: CachePadded<AtomicUsize>,
 
-    prod_alive: AtomicBool,
-    work_alive: AtomicBool,
-    cons_alive: AtomicBool,
+    /// One bit for each iterator alive.
+    alive: AtomicU8,
 }
 
+const PROD_ALIVE: u8 = 1;
+const WORK_ALIVE: u8 = 1 << 1;
+const CONS_ALIVE: u8 = 1 << 2;
+
 impl<S: Storage<Item = T>, T> MutRB for ConcurrentMutRingBuf<S> {
     type Item = T;
 }
@@ -129,9 +132,19 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
             work_idx: CachePadded::new(0.into()),
             cons_idx: CachePadded::new(0.into()),
 
-            prod_alive: AtomicBool::default(),
-            work_alive: AtomicBool::default(),
-            cons_alive: AtomicBool::default()
+            alive: AtomicU8::default()
+        }
+    }
+}
+
+impl<S: Storage> ConcurrentMutRingBuf<S> {
+    /// Sets or clears `bit` within `alive`, returning `true` if no iterator is alive any more.
+    fn set_alive(&self, bit: u8, alive: bool) -> bool {
+        if alive {
+            self.alive.fetch_or(bit, Release);
+            false
+        } else {
+            self.alive.fetch_and(!bit, AcqRel) & !bit == 0
         }
     }
 }
@@ -168,27 +181,27 @@ impl<S: Storage> IterManager for ConcurrentMutRingBuf<S> {
     }
 
     fn prod_alive(&self) -> bool {
-        self.prod_alive.load(Acquire)
+        self.alive.load(Acquire) & PROD_ALIVE != 0
     }
 
     fn work_alive(&self) -> bool {
-        self.work_alive.load(Acquire)
+        self.alive.load(Acquire) & WORK_ALIVE != 0
     }
 
     fn cons_alive(&self) -> bool {
-        self.cons_alive.load(Acquire)
+        self.alive.load(Acquire) & CONS_ALIVE != 0
     }
 
-    fn set_prod_alive(&self, alive: bool) {
-        self.prod_alive.store(alive, Release);
+    fn set_prod_alive(&self, alive: bool) -> bool {
+        self.set_alive(PROD_ALIVE, alive)
     }
 
-    fn set_work_alive(&self, alive: bool) {
-        self.work_alive.store(alive, Release);
+    fn set_work_alive(&self, alive: bool) -> bool {
+        self.set_alive(WORK_ALIVE, alive)
     }
 
-    fn set_cons_alive(&self, alive: bool) {
-        self.cons_alive.store(alive, Release);
+    fn set_cons_alive(&self, alive: bool) -> bool {
+        self.set_alive(CONS_ALIVE, alive)
     }
 }
 
diff --git a/src/ring_buffer/variants/local_rb.rs b/src/ring_buffer/variants/local_rb.rs
index d94d5bb..0ff725c 100644
--- a/src/ring_buffer/variants/local_rb.rs
+++ b/src/ring_buffer/variants/local_rb.rs
@@ -103,16 +103,22 @@ impl<S: Storage> IterManager for LocalMutRingBuf<S> {
         unsafe { *self.cons_alive.get() }
     }
 
-    fn set_prod_alive(&self, alive: bool) {
+    fn set_prod_alive(&self, alive: bool) -> bool {
         unsafe { *self.prod_alive.get() = alive; }
+
+        !(self.prod_alive() || self.work_alive() || self.cons_alive())
     }
 
-    fn set_work_alive(&self, alive: bool) {
+    fn set_work_alive(&self, alive: bool) -> bool {
         unsafe { *self.work_alive.get() = alive; }
+
+        !(self.prod_alive() || self.work_alive() || self.cons_alive())
     }
 
-    fn set_cons_alive(&self, alive: bool) {
+    fn set_cons_alive(&self, alive: bool) -> bool {
         unsafe { *self.cons_alive.get() = alive; }
+
+        !(self.prod_alive() || self.work_alive() || self.cons_alive())
     }
 }
 
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 2ef5e49..a22712d 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -21,9 +21,12 @@ pub trait IterManager {
     fn prod_alive(&self) -> bool;
     fn work_alive(&self) -> bool;
     fn cons_alive(&self) -> bool;
-    fn set_prod_alive(&self, alive: bool);
-    fn set_work_alive(&self, alive: bool);
-    fn set_cons_alive(&self, alive: bool);
+
+    // Each of these updates the flag and checks the others in one step,
+    // returning `true` if no iterator is alive any more.
+    fn set_prod_alive(&self, alive: bool) -> bool;
+    fn set_work_alive(&self, alive: bool) -> bool;
+    fn set_cons_alive(&self, alive: bool) -> bool;
 }
 
 /// Trait used to manage storage.
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..a06b70e 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -4,8 +4,6 @@ use alloc::boxed::Box;
 use core::marker::PhantomData;
 use core::ops::Deref;
 use core::ptr::NonNull;
-use core::sync::atomic::fence;
-use core::sync::atomic::Ordering::SeqCst;
 
 pub struct BufRef<'buf, B> {
     inner: NonNull<B>,
@@ -66,44 +64,20 @@ impl<B> Deref for BufRef<'_, B> {
 
 impl<B: IterManager> BufRef<'_, B> {
     pub(crate) fn set_prod_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_prod_alive(alive);
-
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if unsafe { self.inner.as_ref().set_prod_alive(alive) } {
+            self.drop();
         }
     }
 
     pub(crate) fn set_work_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_work_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if unsafe { self.inner.as_ref().set_work_alive(alive) } {
+            self.drop();
         }
     }
 
     pub(crate) fn set_cons_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_cons_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if unsafe { self.inner.as_ref().set_cons_alive(alive) } {
+            self.drop();
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 0e93b3bc5dbdc711f2487123a5ce09edf88fa18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 4/9] fix: iterators are Send only over concurrent buffers of
 Send items

The Send impls did not require the item to be Send, and the detached
wrappers were Send around any iterator, local ones included.
---
 src/iterators/async_iterators/cons_iter.rs | 2 +-
 src/iterators/async_iterators/detached.rs  | 2 +-
 src/iterators/async_iterators/prod_iter.rs | 2 +-
 src/iterators/async_iterators/work_iter.rs | 2 +-
 src/iterators/sync_iterators/cons_iter.rs  | 2 +-
 src/iterators/sync_iterators/detached.rs   | 2 +-
 src/iterators/sync_iterators/prod_iter.rs  | 2 +-
 src/iterators/sync_iterators/work_iter.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 6b86a43..9d74780 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -15,7 +15,7 @@ pub struct AsyncConsIter<'buf, B: MutRB, const W: bool> {
     inner: ConsIter<'buf, B, W>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for AsyncConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for AsyncConsIter<'_, B, W> {}
 
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> AsyncIterator for AsyncConsIter<'buf, B, W> {
     type I = ConsIter<'buf, B, W>;
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 193363f..8d8943a 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -15,7 +15,7 @@ pub struct AsyncDetached<I: AsyncIterator, B: MutRB> {
     phantom_data: PhantomData<B>
 }
 
-unsafe impl<I: AsyncIterator, B: MutRB> Send for AsyncDetached<I, B> {}
+unsafe impl<I: AsyncIterator + Send, B: MutRB> Send for AsyncDetached<I, B> {}
 
 impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
        
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index c213a5d..0e82641 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncProdIter<'buf, B: MutRB> {
     inner: ProdIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncProdIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncProdIter<'buf, B> {
     type I = ProdIter<'buf, B>;
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 719df6a..0b19bbb 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncWorkIter<'buf, B: MutRB> {
     pub(crate) inner: WorkIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncWorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncWorkIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncWorkIter<'buf, B> {
     type I = WorkIter<'buf, B>;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index ab67085..a4c2813 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -17,7 +17,7 @@ pub struct ConsIter<'buf, B: MutRB, const W: bool> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for ConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for ConsIter<'_, B, W> {}
 
 impl<B: MutRB + IterManager, const W: bool> Drop for ConsIter<'_, B, W> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index 90ffd7c..8784878 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -30,7 +30,7 @@ pub struct Detached<I: MRBIterator> {
     inner: I,
 }
 
-unsafe impl<I: MRBIterator> Send for Detached<I> {}
+unsafe impl<I: MRBIterator + Send> Send for Detached<I> {}
 
 
 impl<T, I: MRBIterator<Item = T>> Detached<I> {
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b3eeb7e..4454c5e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -60,7 +60,7 @@ pub struct ProdIter<'buf, B: MutRB> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for ProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for ProdIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for ProdIter<'_, B> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 097d660..8b68ffe 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -24,7 +24,7 @@ pub struct WorkIter<'buf, B: MutRB> {
     pub(crate) buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for WorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for WorkIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for WorkIter<'_, B> {
     fn drop(&mut self) {
-- 
2.43.0


From 08923272fe8ecdee47a36ff312ce1f99359ed814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 5/9] fix: a pending future asks to be polled again

The waker was stored but never woken by anyone, so under an executor that
polls on wake-up a task which once received Pending was parked forever.
Waking from the task's own poll keeps push, pop and advance non-blocking.
---
 src/iterators/async_iterators/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..c0be694 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,8 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // Nothing else will ever wake the task: ask to be polled again.
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From ad62ecdad32ef4349e0fbdbefa9a795bd61c6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 6/9] fix: vmem maps the same memory twice and owns the items
 it was built from

Both mappings were private and anonymous, hence unrelated to each other, and
the initial contents were copied from the mapping into the source instead of
the other way around. The source box dropped items which had been moved away
and the storage never dropped its own.
---
 src/ring_buffer/storage/heap/mod.rs         | 16 +++---
 src/ring_buffer/storage/heap/vmem_helper.rs | 59 ++++++++++++++++-----
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..5409a95 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -20,7 +20,10 @@ impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
             #[cfg(feature = "vmem")]
-            libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            {
+                core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+                libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            }
 
             #[cfg(not(feature = "vmem"))]
             let _ = Box::from_raw(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
@@ -31,12 +34,13 @@ impl <T> Drop for HeapStorage<T> {
 impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
-        let r = vmem_helper::new(&value);
+        let inner = vmem_helper::new(&value);
+        let len = value.len();
 
-        Self {
-            inner: r,
-            len: value.len(),
-        }
+        // Items were moved into the mapping: free their old location, without dropping them.
+        let _ = unsafe { Box::from_raw(Box::into_raw(value) as *mut [core::mem::ManuallyDrop<UnsafeSyncCell<T>>]) };
+
+        Self { inner, len }
     }
 
     #[cfg(not(feature = "vmem"))]
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..2fa246e 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -25,28 +25,61 @@ pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
     
+    let size = size_of_val(value);
+    if size == 0 {
+        return ptr::dangling_mut();
+    }
+
     unsafe {
-        let size = size_of_val(value);
-        
+        let fd = shared_memory();
+        assert!(fd >= 0 && libc::ftruncate(fd, size as libc::off_t) == 0, "cannot create shared memory.");
+
+        // Reserve enough room for two contiguous views of the same memory.
         let buffer = libc::mmap(
             ptr::null_mut(),
             2 * size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
+            libc::PROT_NONE,
             libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
             -1, 0
         );
-        
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
-            -1, 0
-        );
+        assert_ne!(buffer, libc::MAP_FAILED, "cannot map the buffer.");
+
+        for view in [buffer, buffer.byte_add(size)] {
+            let mapped = libc::mmap(
+                view,
+                size as libc::size_t,
+                libc::PROT_READ | libc::PROT_WRITE,
+                libc::MAP_SHARED | libc::MAP_FIXED,
+                fd, 0
+            );
+            assert_eq!(mapped, view, "cannot map the buffer.");
+        }
+        libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
+        ptr::copy_nonoverlapping(value.as_ptr(), r, value.len());
         
         r
     }
-}
\ No newline at end of file
+}
+
+/// Returns the descriptor of an anonymous shared memory object.
+#[cfg(any(target_os = "linux", target_os = "android"))]
+unsafe fn shared_memory() -> core::ffi::c_int {
+    libc::memfd_create(c"mutringbuf".as_ptr(), libc::MFD_CLOEXEC)
+}
+
+/// Returns the descriptor of a shared memory object, which is reachable by this process only.
+#[cfg(all(unix, not(any(target_os = "linux", target_os = "android"))))]
+unsafe fn shared_memory() -> core::ffi::c_int {
+    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
+
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+
+    let name = alloc::format!("/mrb-{:x}-{:x}\0", libc::getpid(), COUNT.fetch_add(1, Relaxed));
+    let name = name.as_ptr() as *const libc::c_char;
+
+    let fd = libc::shm_open(name, libc::O_RDWR | libc::O_CREAT | libc::O_EXCL, 0o600);
+    libc::shm_unlink(name);
+    fd
+}
-- 
2.43.0


From 4c461be7c175467cd8e0b44c4f31e86dfbcf97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 7/9] fix: splitting a stack buffer again resumes from the
 published positions

Iterators always started from slot 0, whereas the published positions were
left where the previous session ended: availabilities were inconsistent and
the consumer could read slots which had not been pushed.
---
 src/iterators/sync_iterators/cons_iter.rs | 2 +-
 src/iterators/sync_iterators/prod_iter.rs | 2 +-
 src/iterators/sync_iterators/work_iter.rs | 2 +-
 src/ring_buffer/storage/mod.rs            | 3 +++
 src/ring_buffer/variants/concurrent_rb.rs | 3 +++
 5 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index a4c2813..bb0e25c 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -65,7 +65,7 @@ impl<B: MutRB<Item = T>, T, const W: bool> MRBIterator for ConsIter<'_, B, W> {
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            index: value.cons_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index 4454c5e..b6a3d6e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -103,7 +103,7 @@ impl<B: MutRB<Item = T>, T> MRBIterator for ProdIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> ProdIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            index: value.prod_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 8b68ffe..ead13a4 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -67,7 +67,7 @@ impl<B: MutRB<Item = T>, T> MRBIterator for WorkIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> WorkIter<'buf, B> {
         Self {
-            index: 0,
+            index: value.work_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index cd9d717..e9b0c50 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -63,6 +63,9 @@ pub(crate) mod impl_splits {
             }
 
             fn split_mut(&mut self) -> (ProdIter<$Struct<StackStorage<T, N>>>, WorkIter<$Struct<StackStorage<T, N>>>, ConsIter<$Struct<StackStorage<T, N>>, true>) {
+                // Items left by a previous session have to pass through the worker.
+                self.set_work_index(self.cons_index());
+
                 self.set_prod_alive(true);
                 self.set_work_alive(true);
                 self.set_cons_alive(true);
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index a4bf920..9a8ec23 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -94,6 +94,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(not(feature = "alloc"), any(feature = "async", doc)))]
     pub fn split_mut_async(&mut self) -> (AsyncProdIter<ConcurrentMutRingBuf<S>>, AsyncWorkIter<ConcurrentMutRingBuf<S>>, AsyncConsIter<ConcurrentMutRingBuf<S>, true>) {
+        // Items left by a previous session have to pass through the worker.
+        self.set_work_index(self.cons_index());
+
         self.set_prod_alive(true);
         self.set_work_alive(true);
         self.set_cons_alive(true);
-- 
2.43.0


From 1afdcf99dcf31d1e6d0f49b448d45a81e653214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 8/9] verification hooks: instrumented atomics behind --cfg
 mrb_verif

---
 src/lib.rs                                |   3 +
 src/ring_buffer/variants/concurrent_rb.rs |   2 +
 src/ring_buffer/wrappers/buf_ref.rs       |   2 +
 src/verif_hooks.rs                        | 144 ++++++++++++++++++++++
 4 files changed, 151 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index e591d5b..28050c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,3 +36,6 @@ pub use crate::ring_buffer::variants::local_rb::LocalMutRingBuf;
 
 pub mod iterators;
 mod ring_buffer;
+
+#[cfg(mrb_verif)]
+pub mod verif_hooks;
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 9a8ec23..10770af 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,3 +1,5 @@
+#[cfg(mrb_verif)]
+use crate::verif_hooks::core_shim as core;
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
 use core::sync::atomic::Ordering::{AcqRel, Acquire, Release};
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index a06b70e..b2c25f2 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -1,3 +1,5 @@
+#[cfg(mrb_verif)]
+use crate::verif_hooks::core_shim as core;
 use crate::ring_buffer::variants::ring_buffer_trait::IterManager;
 #[cfg(feature = "alloc")]
 use alloc::boxed::Box;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..37b075c
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,144 @@
+//! Verification hooks: compiled only with `--cfg mrb_verif`, never part of a normal build.
+//!
+//! [`core_shim`] mirrors `core`, except for the integer atomics and `fence`, which are replaced by
+//! twins that pass every access, with the ordering the source asked for, to the installed
+//! [`Runtime`]. Without a runtime the twins behave as the originals.
+
+use core::sync::atomic::{AtomicPtr, Ordering};
+
+/// What a verification harness has to provide. Values are widened to `u64`.
+pub struct Runtime {
+    /// `(address, ordering, latest value) -> value read`.
+    pub load: fn(usize, Ordering, u64) -> u64,
+    /// `(address, ordering, latest value, new value)`.
+    pub store: fn(usize, Ordering, u64, u64),
+    /// `(address, ordering on success, ordering on failure, latest value, f) -> value read`,
+    /// `f` yields the value to be stored, if any.
+    pub rmw: fn(usize, Ordering, Ordering, u64, &mut dyn FnMut(u64) -> Option<u64>) -> u64,
+    /// `(ordering)`.
+    pub fence: fn(Ordering),
+}
+
+static RUNTIME: AtomicPtr<Runtime> = AtomicPtr::new(core::ptr::null_mut());
+
+/// Installs a runtime.
+pub fn install(rt: &'static Runtime) {
+    RUNTIME.store(rt as *const _ as *mut _, Ordering::SeqCst);
+}
+
+fn rt() -> Option<&'static Runtime> {
+    unsafe { RUNTIME.load(Ordering::Relaxed).as_ref() }
+}
+
+/// `core`, with instrumented atomics.
+pub mod core_shim {
+    #[allow(unused_imports)]
+    pub use ::core::*;
+
+    /// `core::sync`, with instrumented atomics.
+    pub mod sync {
+        #[allow(unused_imports)]
+        pub use ::core::sync::*;
+
+        /// `core::sync::atomic`, instrumented.
+        pub mod atomic {
+            pub use ::core::sync::atomic::*;
+            use crate::verif_hooks::rt;
+
+            /// Instrumented `fence`.
+            pub fn fence(order: Ordering) {
+                match rt() {
+                    Some(rt) => (rt.fence)(order),
+                    None => ::core::sync::atomic::fence(order),
+                }
+            }
+
+            macro_rules! common {
+                ($Name: ident, $t: ty, $to: expr, $from: expr) => {
+                    /// Instrumented atomic.
+                    #[derive(Debug, Default)]
+                    #[repr(transparent)]
+                    pub struct $Name(::core::sync::atomic::$Name);
+
+                    impl From<$t> for $Name {
+                        fn from(v: $t) -> Self { Self::new(v) }
+                    }
+
+                    #[allow(missing_docs, dead_code, clippy::missing_errors_doc)]
+                    impl $Name {
+                        pub const fn new(v: $t) -> Self { Self(::core::sync::atomic::$Name::new(v)) }
+                        pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
+                        pub fn into_inner(self) -> $t { self.0.into_inner() }
+                        pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
+
+                        fn addr(&self) -> usize { self as *const Self as usize }
+                        fn latest(&self) -> u64 { $to(self.0.load(Ordering::SeqCst)) }
+
+                        pub fn load(&self, order: Ordering) -> $t {
+                            match rt() {
+                                Some(rt) => $from((rt.load)(self.addr(), order, self.latest())),
+                                None => self.0.load(order),
+                            }
+                        }
+                        pub fn store(&self, v: $t, order: Ordering) {
+                            match rt() {
+                                Some(rt) => {
+                                    (rt.store)(self.addr(), order, self.latest(), $to(v));
+                                    self.0.store(v, Ordering::SeqCst);
+                                },
+                                None => self.0.store(v, order),
+                            }
+                        }
+                        fn rmw(&self, s: Ordering, e: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
+                            let Some(rt) = rt() else { return self.0.fetch_update(s, e, f) };
+                            let mut new = None;
+                            // Schedule first, then read and modify what is there in a single step.
+                            let old = (rt.rmw)(self.addr(), s, e, self.latest(), &mut |old| {
+                                new = f($from(old));
+                                new.map($to)
+                            });
+                            match new {
+                                Some(new) => { self.0.store(new, Ordering::SeqCst); Ok($from(old)) },
+                                None => Err($from(old)),
+                            }
+                        }
+                        pub fn fetch_update(&self, s: Ordering, e: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
+                            self.rmw(s, e, f)
+                        }
+                        pub fn compare_exchange(&self, cur: $t, new: $t, s: Ordering, e: Ordering) -> Result<$t, $t> {
+                            self.rmw(s, e, |v| (v == cur).then_some(new))
+                        }
+                        pub fn compare_exchange_weak(&self, cur: $t, new: $t, s: Ordering, e: Ordering) -> Result<$t, $t> {
+                            self.compare_exchange(cur, new, s, e)
+                        }
+                        fn rmw_always(&self, order: Ordering, f: impl Fn($t) -> $t) -> $t {
+                            match self.rmw(order, Ordering::Relaxed, |v| Some(f(v))) { Ok(v) | Err(v) => v }
+                        }
+                        pub fn swap(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |_| v) }
+                        pub fn fetch_and(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o & v) }
+                        pub fn fetch_or(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o | v) }
+                        pub fn fetch_xor(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o ^ v) }
+                        pub fn fetch_nand(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| !(o & v)) }
+                    }
+                };
+            }
+
+            macro_rules! int {
+                ($($Name: ident $t: ty),*) => { $(
+                    common!($Name, $t, (|v: $t| v as u64), (|v: u64| v as $t));
+
+                    #[allow(missing_docs, dead_code)]
+                    impl $Name {
+                        pub fn fetch_add(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o.wrapping_add(v)) }
+                        pub fn fetch_sub(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o.wrapping_sub(v)) }
+                        pub fn fetch_max(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o.max(v)) }
+                        pub fn fetch_min(&self, v: $t, order: Ordering) -> $t { self.rmw_always(order, |o| o.min(v)) }
+                    }
+                )* };
+            }
+
+            common!(AtomicBool, bool, (|v: bool| v as u64), (|v: u64| v != 0));
+            int!(AtomicUsize usize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicIsize isize, AtomicI32 i32);
+        }
+    }
+}
-- 
2.43.0


From 3676c0070b5f483eb7d95ff4fbf07194b635d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 9/9] verification hooks: weak exchanges that fail spuriously;
 atomics used by any module

---
 src/iterators/async_iterators/cons_iter.rs   | 3 +++
 src/iterators/async_iterators/detached.rs    | 3 +++
 src/iterators/async_iterators/mod.rs         | 3 +++
 src/iterators/async_iterators/prod_iter.rs   | 3 +++
 src/iterators/async_iterators/work_iter.rs   | 3 +++
 src/iterators/iterator_trait.rs              | 3 +++
 src/iterators/sync_iterators/cons_iter.rs    | 3 +++
 src/iterators/sync_iterators/detached.rs     | 3 +++
 src/iterators/sync_iterators/prod_iter.rs    | 3 +++
 src/iterators/sync_iterators/work_iter.rs    | 3 +++
 src/ring_buffer/storage/heap/mod.rs          | 3 +++
 src/ring_buffer/storage/mod.rs               | 3 +++
 src/ring_buffer/storage/stack/mod.rs         | 3 +++
 src/ring_buffer/wrappers/unsafe_sync_cell.rs | 3 +++
 src/verif_hooks.rs                           | 6 ++++++
 15 files changed, 48 insertions(+)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 9d74780..9605f50 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::task::Waker;
 
 use crate::iterators::async_iterators::async_macros::{gen_common_futs_fn, waker_registerer};
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 8d8943a..abdb4e7 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::marker::PhantomData;
 use crate::iterators::async_iterators::AsyncIterator;
 
diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index c0be694..6d4d283 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -3,6 +3,9 @@
 
 //! Async iterators.
 
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::future::Future;
 use core::pin::Pin;
 use core::task::{Context, Poll, Waker};
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index 0e82641..673dff7 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::task::Waker;
 
 use crate::iterators::async_iterators::async_macros::{gen_common_futs_fn, waker_registerer};
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 0b19bbb..8bd7250 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use crate::iterators::async_iterators::async_macros::{gen_common_futs_fn, waker_registerer};
 use crate::iterators::async_iterators::{AsyncIterator, MRBFuture};
 use crate::iterators::iterator_trait::WorkableSlice;
diff --git a/src/iterators/iterator_trait.rs b/src/iterators/iterator_trait.rs
index 3a9d3dc..874b151 100644
--- a/src/iterators/iterator_trait.rs
+++ b/src/iterators/iterator_trait.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::mem::transmute;
 use core::slice;
 use crate::iterators::sync_iterators::detached::Detached;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index bb0e25c..17b48a4 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use crate::iterators::{copy_from_slice_unchecked, private_impl};
 use crate::iterators::iterator_trait::{MRBIterator, NonWorkableSlice, PrivateMRBIterator};
 #[allow(unused_imports)]
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index 8784878..54020d0 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use crate::iterators::iterator_trait::{MRBIterator, WorkableSlice};
 use crate::iterators::util_macros::delegate;
 use crate::iterators::util_macros::muncher;
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b6a3d6e..513598c 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 #[cfg(doc)]
 use {
     core::mem::MaybeUninit,
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index ead13a4..1923106 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use crate::iterators::{private_impl};
 use crate::iterators::iterator_trait::{MRBIterator, PrivateMRBIterator};
 #[allow(unused_imports)]
diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 5409a95..4574a2e 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -3,6 +3,9 @@
 pub mod rb;
 pub mod vmem_helper;
 
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use alloc::boxed::Box;
 use alloc::vec::Vec;
 use core::ops::Index;
diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index e9b0c50..66d91d5 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::ops::Index;
 
 use crate::UnsafeSyncCell;
diff --git a/src/ring_buffer/storage/stack/mod.rs b/src/ring_buffer/storage/stack/mod.rs
index a959d16..6a2cb16 100644
--- a/src/ring_buffer/storage/stack/mod.rs
+++ b/src/ring_buffer/storage/stack/mod.rs
@@ -3,6 +3,9 @@
 
 pub mod rb;
 
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::ops::Index;
 
 use crate::ring_buffer::storage::Storage;
diff --git a/src/ring_buffer/wrappers/unsafe_sync_cell.rs b/src/ring_buffer/wrappers/unsafe_sync_cell.rs
index 8a029fa..82659d5 100644
--- a/src/ring_buffer/wrappers/unsafe_sync_cell.rs
+++ b/src/ring_buffer/wrappers/unsafe_sync_cell.rs
@@ -1,3 +1,6 @@
+#[cfg(mrb_verif)]
+#[allow(unused_imports)]
+use crate::verif_hooks::core_shim as core;
 use core::cell::UnsafeCell;
 use core::mem::MaybeUninit;
 use core::ptr::slice_from_raw_parts;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 37b075c..54acd10 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -17,6 +17,8 @@ pub struct Runtime {
     pub rmw: fn(usize, Ordering, Ordering, u64, &mut dyn FnMut(u64) -> Option<u64>) -> u64,
     /// `(ordering)`.
     pub fence: fn(Ordering),
+    /// `(address, ordering on failure, latest value)`: is a weak exchange that would succeed to fail?
+    pub spurious: fn(usize, Ordering, u64) -> bool,
 }
 
 static RUNTIME: AtomicPtr<Runtime> = AtomicPtr::new(core::ptr::null_mut());
@@ -109,6 +111,10 @@ pub mod core_shim {
                             self.rmw(s, e, |v| (v == cur).then_some(new))
                         }
                         pub fn compare_exchange_weak(&self, cur: $t, new: $t, s: Ordering, e: Ordering) -> Result<$t, $t> {
+                            if let Some(rt) = rt() {
+                                let latest = self.latest();
+                                if latest == $to(cur) && (rt.spurious)(self.addr(), e, latest) { return Err(cur) }
+                            }
                             self.compare_exchange(cur, new, s, e)
                         }
                         fn rmw_always(&self, order: Ordering, f: impl Fn($t) -> $t) -> $t {
-- 
2.43.0

