From 648d52f3d46c89bd0f8303c027d619f76a6778c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:15 +0000
Subject: [PATCH 01/14] Add scheduling hooks for verification behind
 cfg(dumpster_verif)

---
 dumpster/src/lib.rs          |   4 +
 dumpster/src/sync/collect.rs |   7 +-
 dumpster/src/sync/mod.rs     |   7 +-
 dumpster/src/verif.rs        | 257 +++++++++++++++++++++++++++++++++++
 4 files changed, 273 insertions(+), 2 deletions(-)
 create mode 100644 dumpster/src/verif.rs

diff --git a/dumpster/src/lib.rs b/dumpster/src/lib.rs
index 205f92d..782fb12 100644
--- a/dumpster/src/lib.rs
+++ b/dumpster/src/lib.rs
@@ -170,6 +170,7 @@ let gc1: Gc<[u8]> = Gc::new([1, 2, 3]);
 #![warn(missing_docs)]
 #![warn(clippy::missing_docs_in_private_items)]
 #![allow(clippy::multiple_crate_versions, clippy::result_unit_err)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(feature = "coerce-unsized", feature(coerce_unsized))]
 #![cfg_attr(feature = "coerce-unsized", feature(unsize))]
 #![cfg_attr(feature = "coerce-unsized", feature(strict_provenance))]
@@ -179,6 +180,9 @@ mod impls;
 mod ptr;
 pub mod sync;
 pub mod unsync;
+#[cfg(dumpster_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 /// The trait that any garbage-collectable data must implement.
 ///
diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1affde..9304f0c 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -14,10 +14,15 @@ use std::{
     collections::{hash_map::Entry, HashMap},
     mem::{replace, swap, take, transmute},
     ptr::{drop_in_place, NonNull},
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::{AtomicPtr, Ordering},
 };
 
+#[cfg(dumpster_verif)]
+use crate::verif::{AtomicUsize, Mutex, RwLock};
+#[cfg(not(dumpster_verif))]
 use parking_lot::{Mutex, RwLock};
+#[cfg(not(dumpster_verif))]
+use std::sync::atomic::AtomicUsize;
 
 use once_cell::sync::Lazy;
 
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 30c61dd..1dfe5fd 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -38,9 +38,14 @@ use std::{
     fmt::Debug,
     ops::Deref,
     ptr::{addr_of, addr_of_mut, drop_in_place, NonNull},
-    sync::atomic::{fence, AtomicUsize, Ordering},
+    sync::atomic::Ordering,
 };
 
+#[cfg(dumpster_verif)]
+use crate::verif::{fence, AtomicUsize};
+#[cfg(not(dumpster_verif))]
+use std::sync::atomic::{fence, AtomicUsize};
+
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
diff --git a/dumpster/src/verif.rs b/dumpster/src/verif.rs
new file mode 100644
index 0000000..81d8163
--- /dev/null
+++ b/dumpster/src/verif.rs
@@ -0,0 +1,257 @@
+/*
+    dumpster, acycle-tracking garbage collector for Rust.    Copyright (C) 2023 Clayton Ramsey.
+
+    This Source Code Form is subject to the terms of the Mozilla Public
+    License, v. 2.0. If a copy of the MPL was not distributed with this
+    file, You can obtain one at http://mozilla.org/MPL/2.0/.
+*/
+
+//! Instrumented synchronization primitives, only compiled with `--cfg dumpster_verif`.
+//!
+//! They behave exactly like the primitives they replace, but call a hook before every access (and
+//! after every unlock) so that an external scheduler can control the interleaving of threads.
+#![allow(missing_docs, clippy::missing_docs_in_private_items)]
+
+use std::{
+    ops::{Deref, DerefMut},
+    sync::atomic::{AtomicPtr, Ordering},
+};
+
+/// What is about to happen at (or, for `Unlocked`, just happened to) an address.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Op {
+    Load,
+    Store,
+    Rmw,
+    Fence,
+    /// An attempt to take a lock.
+    Lock,
+    /// The lock is taken: the hook should return once it might be free again.
+    Blocked,
+    /// A lock was released.
+    Unlocked,
+}
+
+/// A hook, called with the operation and the address of the primitive.
+pub type Hook = fn(Op, usize);
+
+static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
+
+/// Install the hook for all threads.
+pub fn set_hook(hook: Hook) {
+    HOOK.store(hook as *mut (), Ordering::SeqCst);
+}
+
+fn hook() -> Option<Hook> {
+    let ptr = HOOK.load(Ordering::SeqCst);
+    (!ptr.is_null()).then(|| unsafe { std::mem::transmute::<*mut (), Hook>(ptr) })
+}
+
+fn hit(op: Op, addr: usize) {
+    if let Some(h) = hook() {
+        h(op, addr);
+    }
+}
+
+pub(crate) fn fence(order: Ordering) {
+    hit(Op::Fence, 0);
+    std::sync::atomic::fence(order);
+}
+
+#[derive(Debug, Default)]
+#[repr(transparent)]
+pub(crate) struct AtomicUsize(std::sync::atomic::AtomicUsize);
+
+#[allow(dead_code)]
+impl AtomicUsize {
+    pub const fn new(v: usize) -> Self {
+        Self(std::sync::atomic::AtomicUsize::new(v))
+    }
+
+    fn addr(&self) -> usize {
+        std::ptr::from_ref(self) as usize
+    }
+
+    pub fn load(&self, o: Ordering) -> usize {
+        hit(Op::Load, self.addr());
+        self.0.load(o)
+    }
+
+    pub fn store(&self, v: usize, o: Ordering) {
+        hit(Op::Store, self.addr());
+        self.0.store(v, o);
+    }
+
+    pub fn swap(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.swap(v, o)
+    }
+
+    pub fn fetch_add(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_add(v, o)
+    }
+
+    pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_sub(v, o)
+    }
+
+    pub fn fetch_max(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_max(v, o)
+    }
+
+    pub fn fetch_min(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_min(v, o)
+    }
+
+    pub fn fetch_or(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_or(v, o)
+    }
+
+    pub fn fetch_and(&self, v: usize, o: Ordering) -> usize {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_and(v, o)
+    }
+
+    #[allow(deprecated)]
+    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(
+        &self,
+        s: Ordering,
+        f: Ordering,
+        func: F,
+    ) -> Result<usize, usize> {
+        hit(Op::Rmw, self.addr());
+        self.0.fetch_update(s, f, func)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        c: usize,
+        n: usize,
+        s: Ordering,
+        f: Ordering,
+    ) -> Result<usize, usize> {
+        hit(Op::Rmw, self.addr());
+        self.0.compare_exchange(c, n, s, f)
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        c: usize,
+        n: usize,
+        s: Ordering,
+        f: Ordering,
+    ) -> Result<usize, usize> {
+        hit(Op::Rmw, self.addr());
+        self.0.compare_exchange(c, n, s, f)
+    }
+
+    pub fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+}
+
+/// Reports the release of a lock when dropped.
+#[derive(Debug)]
+struct Release(usize);
+
+impl Drop for Release {
+    fn drop(&mut self) {
+        hit(Op::Unlocked, self.0);
+    }
+}
+
+/// A lock guard; the fields are dropped in order, so the release is reported after it happened.
+#[derive(Debug)]
+pub(crate) struct Guard<G>(G, #[allow(dead_code)] Release);
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+    fn deref(&self) -> &G::Target {
+        &self.0
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut G::Target {
+        &mut self.0
+    }
+}
+
+fn acquire<G>(addr: usize, attempt: impl Fn() -> Option<G>, block: impl Fn() -> G) -> Guard<G> {
+    hit(Op::Lock, addr);
+    loop {
+        if let Some(g) = attempt() {
+            return Guard(g, Release(addr));
+        }
+        if hook().is_none() {
+            return Guard(block(), Release(addr));
+        }
+        hit(Op::Blocked, addr);
+    }
+}
+
+#[derive(Debug, Default)]
+pub(crate) struct Mutex<T>(parking_lot::Mutex<T>);
+
+#[allow(dead_code)]
+impl<T> Mutex<T> {
+    pub const fn new(v: T) -> Self {
+        Self(parking_lot::Mutex::new(v))
+    }
+
+    pub fn lock(&self) -> Guard<parking_lot::MutexGuard<'_, T>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        acquire(addr, || self.0.try_lock(), || self.0.lock())
+    }
+
+    pub fn try_lock(&self) -> Option<Guard<parking_lot::MutexGuard<'_, T>>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        hit(Op::Lock, addr);
+        self.0.try_lock().map(|g| Guard(g, Release(addr)))
+    }
+
+    pub fn get_mut(&mut self) -> &mut T {
+        self.0.get_mut()
+    }
+}
+
+#[derive(Debug, Default)]
+pub(crate) struct RwLock<T>(parking_lot::RwLock<T>);
+
+#[allow(dead_code)]
+impl<T> RwLock<T> {
+    pub const fn new(v: T) -> Self {
+        Self(parking_lot::RwLock::new(v))
+    }
+
+    pub fn read(&self) -> Guard<parking_lot::RwLockReadGuard<'_, T>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        acquire(addr, || self.0.try_read(), || self.0.read())
+    }
+
+    pub fn write(&self) -> Guard<parking_lot::RwLockWriteGuard<'_, T>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        acquire(addr, || self.0.try_write(), || self.0.write())
+    }
+
+    pub fn try_read(&self) -> Option<Guard<parking_lot::RwLockReadGuard<'_, T>>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        hit(Op::Lock, addr);
+        self.0.try_read().map(|g| Guard(g, Release(addr)))
+    }
+
+    pub fn try_write(&self) -> Option<Guard<parking_lot::RwLockWriteGuard<'_, T>>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        hit(Op::Lock, addr);
+        self.0.try_write().map(|g| Guard(g, Release(addr)))
+    }
+}
-- 
2.43.0


From e322907758daf56dd783b01f4145fd0c4ef3062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:29 +0000
Subject: [PATCH 02/14] fix: don't abort when pointers are dropped while the
 thread exits

A pointer stored in a thread-local that outlives the collector's own
thread-local state used to panic inside a thread-local destructor, which
aborts the process. Use a temporary dumpster (thread-local module) or
deliver to the global truck directly (thread-safe module) instead.
---
 dumpster/src/sync/collect.rs   | 34 ++++++++++++++++++----------------
 dumpster/src/unsync/collect.rs | 20 ++++++++++++++++++++
 dumpster/src/unsync/mod.rs     | 12 ++++++------
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 9304f0c..3779165 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -135,7 +135,8 @@ thread_local! {
 /// completion of the collection.
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
-    DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    // if the dumpster of this thread was destroyed, it was delivered already
+    let _ = DUMPSTER.try_with(|d| d.deliver_to(&GARBAGE_TRUCK));
     GARBAGE_TRUCK.collect_all();
     drop(GARBAGE_TRUCK.collecting_lock.read());
 }
@@ -148,7 +149,7 @@ pub fn collect_all_await() {
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
         if dumpster.is_full() {
             dumpster.deliver_to(&GARBAGE_TRUCK);
@@ -175,22 +176,23 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     let box_ref = unsafe { allocation.as_ref() };
-    DUMPSTER.with(|dumpster| {
-        if dumpster
-            .contents
-            .borrow_mut()
-            .insert(
-                AllocationId::from(box_ref),
-                TrashCan {
-                    ptr: Erased::new(allocation),
-                    dfs_fn: dfs::<T>,
-                },
-            )
-            .is_none()
-        {
+    let id = AllocationId::from(box_ref);
+    let can = || TrashCan {
+        ptr: Erased::new(allocation),
+        dfs_fn: dfs::<T>,
+    };
+    let delivered = DUMPSTER.try_with(|dumpster| {
+        if dumpster.contents.borrow_mut().insert(id, can()).is_none() {
             box_ref.weak.fetch_add(1, Ordering::Acquire);
         }
     });
+    if delivered.is_err() {
+        // this thread is exiting and its dumpster is gone: deliver directly
+        box_ref.weak.fetch_add(1, Ordering::Acquire);
+        if GARBAGE_TRUCK.contents.lock().insert(id, can()).is_some() {
+            box_ref.weak.fetch_sub(1, Ordering::Release);
+        }
+    }
 }
 
 /// Mark an allocation as "clean," implying that it has already been cleaned up and does not
@@ -199,7 +201,7 @@ pub(super) fn mark_clean<T>(allocation: &GcBox<T>)
 where
     T: Collectable + Send + Sync + ?Sized,
 {
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4a969ff..8afad19 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -28,6 +28,7 @@ thread_local! {
     /// Whether the current thread is running a cleanup process.
     pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
+    /// Use [`with_dumpster`] wherever the thread may already be shutting down.
     pub(super) static DUMPSTER: Dumpster = Dumpster {
         to_collect: RefCell::new(HashMap::new()),
         n_ref_drops: Cell::new(0),
@@ -50,6 +51,25 @@ pub(super) struct Dumpster {
     pub collect_condition: Cell<CollectCondition>,
 }
 
+/// Call `f` with the dumpster of this thread.
+///
+/// If that dumpster was already destroyed because the thread is exiting, `f` is called with a
+/// temporary one, which cleans up whatever was left in it before this function returns.
+pub(super) fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
+    let mut f = Some(f);
+    DUMPSTER
+        .try_with(|d| f.take().unwrap()(d))
+        .unwrap_or_else(|_| {
+            f.take().unwrap()(&Dumpster {
+                to_collect: RefCell::new(HashMap::new()),
+                n_ref_drops: Cell::new(0),
+                // enough for one drop
+                n_refs_living: Cell::new(1),
+                collect_condition: Cell::new(|_| false),
+            })
+        })
+}
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
 /// A unique identifier for an allocated garbage-collected block.
 ///
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index d6b49df..31280e7 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{with_dumpster, Dumpster, COLLECTING, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -116,7 +116,7 @@ pub struct Gc<T: Collectable + ?Sized + 'static> {
 /// # }
 /// ```
 pub fn collect() {
-    DUMPSTER.with(Dumpster::collect_all);
+    with_dumpster(Dumpster::collect_all);
 }
 
 /// Information passed to a [`CollectCondition`] used to determine whether the garbage collector
@@ -185,7 +185,7 @@ pub fn default_collect_condition(info: &CollectInfo) -> bool {
 /// set_collect_condition(never_collect);
 /// ```
 pub fn set_collect_condition(f: CollectCondition) {
-    DUMPSTER.with(|d| d.collect_condition.set(f));
+    with_dumpster(|d| d.collect_condition.set(f));
 }
 
 #[repr(C)]
@@ -213,7 +213,7 @@ impl<T: Collectable + ?Sized> Gc<T> {
     where
         T: Sized,
     {
-        DUMPSTER.with(Dumpster::notify_created_gc);
+        with_dumpster(Dumpster::notify_created_gc);
         Gc {
             ptr: Cell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 ref_count: Cell::new(NonZeroUsize::MIN),
@@ -472,7 +472,7 @@ impl<T: Collectable + ?Sized> Clone for Gc<T> {
                 .ref_count
                 .set(box_ref.ref_count.get().saturating_add(1));
         }
-        DUMPSTER.with(|d| {
+        with_dumpster(|d| {
             d.notify_created_gc();
             // d.mark_cleaned(self.ptr);
         });
@@ -494,7 +494,7 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-        DUMPSTER.with(|d| {
+        with_dumpster(|d| {
             let box_ref = unsafe { ptr.as_ref() };
             match box_ref.ref_count.get() {
                 NonZeroUsize::MIN => {
-- 
2.43.0


From fb56c788880a69e26472c13b036f91ceadb68314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:09 +0000
Subject: [PATCH 03/14] fix: let destructors drop, move and create pointers
 during a collection

Pointers to surviving values were uncounted before the destructor of their
owner ran and their drop was then ignored, so a destructor that moved such
a pointer out left the count too low (use after free), and any other
pointer it dropped was never uncounted (leak). Drop them normally instead.
A collection requested while the same thread is already collecting is
ignored rather than panicking or deadlocking.
---
 dumpster/src/sync/collect.rs   | 23 +++++++++++++++--------
 dumpster/src/sync/mod.rs       |  5 +----
 dumpster/src/unsync/collect.rs | 26 +++++++++++++++++---------
 dumpster/src/unsync/mod.rs     |  3 ---
 4 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 3779165..aa233d4 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -134,7 +134,12 @@ thread_local! {
 /// Collect all allocations in the garbage truck (but not necessarily the dumpster), then await
 /// completion of the collection.
 /// Ensures that all allocations dropped on the calling thread are cleaned up
+///
+/// Does nothing if called by a destructor which is being run by a collection.
 pub fn collect_all_await() {
+    if currently_cleaning() {
+        return;
+    }
     // if the dumpster of this thread was destroyed, it was delivered already
     let _ = DUMPSTER.try_with(|d| d.deliver_to(&GARBAGE_TRUCK));
     GARBAGE_TRUCK.collect_all();
@@ -148,6 +153,10 @@ pub fn collect_all_await() {
 /// occur with less-than-linear frequency, so it's always O(1).
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
+    if currently_cleaning() {
+        // dropped by a destructor during a collection
+        return;
+    }
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
     let _ = DUMPSTER.try_with(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
@@ -239,7 +248,7 @@ pub fn set_collect_condition(f: CollectCondition) {
 }
 
 /// Determine whether this thread is currently cleaning.
-pub fn currently_cleaning() -> bool {
+fn currently_cleaning() -> bool {
     CLEANING.with(Cell::get)
 }
 
@@ -327,10 +336,10 @@ impl GarbageTruck {
                 }
             };
         }
-        CLEANING.with(|c| c.set(false));
         for (drop_fn, ptr) in weak_destroys {
             unsafe { drop_fn(ptr) };
         }
+        CLEANING.with(|c| c.set(false));
         drop(collecting_guard);
     }
 }
@@ -502,7 +511,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
 ) {
-    /// A visitor for decrementing the reference count of pointees.
+    /// A visitor for nullifying the pointers to allocations which are destroyed as well.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
         /// Must have been populated with reachability already.
@@ -515,11 +524,9 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
             T: Collectable + Send + Sync + ?Sized,
         {
             let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
-            if matches!(self.graph[&id].reachability, Reachability::Reachable) {
-                unsafe {
-                    id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
-                }
-            } else {
+            // pointers to reachable allocations will be dropped normally, unless the destructor of
+            // their owner saves them
+            if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 1dfe5fd..bffecf4 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -49,7 +49,7 @@ use std::sync::atomic::{fence, AtomicUsize};
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
-    collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
+    collect_all_await, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
     notify_created_gc, notify_dropped_gc,
 };
 
@@ -458,9 +458,6 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        if currently_cleaning() {
-            return;
-        }
         let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 8afad19..4f10a33 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -125,7 +125,12 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
 
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
+    ///
+    /// Does nothing if called by a destructor which is being run by a collection.
     pub fn collect_all(&self) {
+        if COLLECTING.with(Cell::get) {
+            return;
+        }
         self.n_ref_drops.set(0);
 
         unsafe {
@@ -170,10 +175,11 @@ impl Dumpster {
             };
 
             COLLECTING.with(|c| c.set(true));
+            // destructors may mark other allocations as dirty, so don't hold a borrow
             for cleanup in self
                 .to_collect
-                .borrow_mut()
-                .drain()
+                .take()
+                .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
@@ -203,7 +209,6 @@ impl Dumpster {
     ///
     /// This may trigger a cleanup of the heap, but is guaranteed to be amortized to _O(1)_.
     pub fn notify_dropped_gc(&self) {
-        self.n_ref_drops.set(self.n_ref_drops.get() + 1);
         let old_refs_living = self.n_refs_living.get();
         assert_ne!(
             old_refs_living, 0,
@@ -211,6 +216,12 @@ impl Dumpster {
         );
         self.n_refs_living.set(old_refs_living - 1);
 
+        if COLLECTING.with(Cell::get) {
+            // dropped by a destructor during a collection
+            return;
+        }
+        self.n_ref_drops.set(self.n_ref_drops.get() + 1);
+
         // check if it's been a long time since the last time we collected all
         // the garbage.
         // if so, go and collect it all again (amortized O(1))
@@ -334,10 +345,7 @@ impl Visitor for DropAlloc<'_> {
         let ptr = gc.ptr.get().unwrap();
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
-            unsafe {
-                let cell_ref = &ptr.as_ref().ref_count;
-                cell_ref.set(NonZeroUsize::new(cell_ref.get().get() - 1).unwrap());
-            }
+            // this pointer will be dropped normally, unless the destructor of its owner saves it
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
@@ -352,8 +360,8 @@ impl Visitor for DropAlloc<'_> {
     }
 }
 
-/// Decrement the outbound reference counts for any reachable allocations which this allocation can
-/// find.
+/// Nullify all pointers in this allocation which refer to unreachable allocations, destroying those
+/// allocations as well.
 /// Also, drop the allocation when done.
 unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAlloc<'_>) {
     if visitor
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index 31280e7..6e4bbfc 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -488,9 +488,6 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
     /// If this is the last reference which can reach the pointed-to data, the allocation that it
     /// points to will be destroyed.
     fn drop(&mut self) {
-        if COLLECTING.with(Cell::get) {
-            return;
-        }
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-- 
2.43.0


From 600d6c1fb3305abe0f2c71e49e278284809d2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:25 +0000
Subject: [PATCH 04/14] fix: allow dereferencing surviving values while a
 collection runs

Dereferencing any pointer from a destructor run by a collection panicked,
even if the value it refers to is alive. Pointers to values which are being
collected are null and still panic.
---
 dumpster/src/unsync/collect.rs | 2 +-
 dumpster/src/unsync/mod.rs     | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4f10a33..8514753 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -26,7 +26,7 @@ use super::{CollectCondition, GcBox};
 
 thread_local! {
     /// Whether the current thread is running a cleanup process.
-    pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
+    static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
     /// Use [`with_dumpster`] wherever the thread may already be shutting down.
     pub(super) static DUMPSTER: Dumpster = Dumpster {
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index 6e4bbfc..a027a0a 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{with_dumpster, Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{with_dumpster, Dumpster, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -407,10 +407,6 @@ impl<T: Collectable + ?Sized> Deref for Gc<T> {
     /// });
     /// ```
     fn deref(&self) -> &Self::Target {
-        assert!(
-            !COLLECTING.with(Cell::get),
-            "dereferencing GC to already-collected object"
-        );
         unsafe {
             &self.ptr.get().expect("dereferencing Gc to already-collected object. \
             This means a Gc escaped from a Drop implementation, likely implying a bug in your code.").as_ref().value
-- 
2.43.0


From b82b9e28fb3891833b925446ad8db11061452c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:13 +0000
Subject: [PATCH 05/14] fix: skip dead pointers when traversing live values

---
 dumpster/src/sync/collect.rs   | 11 +++++++++--
 dumpster/src/unsync/collect.rs | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index aa233d4..3f051af 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -413,7 +413,10 @@ impl<'a> Visitor for Dfs<'a> {
     where
         T: Collectable + Send + Sync + ?Sized,
     {
-        let ptr = unsafe { (*gc.ptr.get()).unwrap() };
+        let Some(ptr) = (unsafe { (*gc.ptr.get()).as_option() }) else {
+            // a dead pointer, which a destructor moved out of its owner
+            return;
+        };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
@@ -523,7 +526,11 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         where
             T: Collectable + Send + Sync + ?Sized,
         {
-            let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
+            let Some(ptr) = (unsafe { (*gc.ptr.get()).as_option() }) else {
+                // a dead pointer, which a destructor moved out of its owner
+                return;
+            };
+            let id = AllocationId::from(ptr);
             // pointers to reachable allocations will be dropped normally, unless the destructor of
             // their owner saves them
             if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 8514753..5477653 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -276,7 +276,10 @@ impl Visitor for Dfs {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            // a dead pointer, which a destructor moved out of its owner
+            return;
+        };
         let next_id = AllocationId::from(ptr);
         match self.ref_graph.entry(next_id) {
             Entry::Occupied(ref mut o) => {
@@ -315,7 +318,10 @@ impl Visitor for Mark {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            // a dead pointer, which a destructor moved out of its owner
+            return;
+        };
         if self.visited.insert(AllocationId::from(ptr)) {
             let _ = unsafe { ptr.as_ref().value.accept(self) };
         }
@@ -342,7 +348,10 @@ impl Visitor for DropAlloc<'_> {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            // a dead pointer, which a destructor moved out of its owner
+            return;
+        };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
             // this pointer will be dropped normally, unless the destructor of its owner saves it
-- 
2.43.0


From 625ddb49dbafc3f50c2b39acd74775c765413bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/14] fix: don't count pointers destroyed by a collection as
 existing

---
 dumpster/src/sync/collect.rs   | 1 +
 dumpster/src/unsync/collect.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 3f051af..5e6596b 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -537,6 +537,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
+                GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
             }
         }
 
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 5477653..3bf4440 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -63,8 +63,8 @@ pub(super) fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
             f.take().unwrap()(&Dumpster {
                 to_collect: RefCell::new(HashMap::new()),
                 n_ref_drops: Cell::new(0),
-                // enough for one drop
-                n_refs_living: Cell::new(1),
+                // the true number is not known any more
+                n_refs_living: Cell::new(usize::MAX / 2),
                 collect_condition: Cell::new(|_| false),
             })
         })
@@ -172,6 +172,7 @@ impl Dumpster {
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
                 reachable: &mark.visited,
+                n_refs_living: &self.n_refs_living,
             };
 
             COLLECTING.with(|c| c.set(true));
@@ -334,6 +335,8 @@ struct DropAlloc<'a> {
     visited: HashSet<AllocationId>,
     /// The set of unreachable allocations.
     reachable: &'a HashSet<AllocationId>,
+    /// The number of living references, which does not include dead ones.
+    n_refs_living: &'a Cell<usize>,
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -358,6 +361,7 @@ impl Visitor for DropAlloc<'_> {
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
+        self.n_refs_living.set(self.n_refs_living.get() - 1);
         if self.visited.insert(id) {
             unsafe {
                 ptr.as_ref().value.accept(self).unwrap();
-- 
2.43.0


From 407771266d5b84606b87694e6347610306da0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:31 +0000
Subject: [PATCH 07/14] fix: destroy thread-safe allocations exactly once

The value was destroyed by whichever party saw both counts at zero, which
could be several of them or none.  All strong pointers together now own one
weak reference, so that exactly one party makes the weak count zero.
---
 dumpster/src/sync/collect.rs | 16 +++++++++++-----
 dumpster/src/sync/mod.rs     | 31 +++++++++++++++++--------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 5e6596b..b3d9b7d 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -305,8 +305,16 @@ impl GarbageTruck {
             .iter()
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
-                Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
-                    || unsafe { k.0.as_ref().weak.load(Ordering::Acquire) > 1 })
+                Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0 || {
+                    let header_ref = unsafe { k.0.as_ref() };
+                    // we hold one weak reference, and all `Gc`s together another one
+                    let n_expected = if header_ref.strong.load(Ordering::Acquire) > 0 {
+                        2
+                    } else {
+                        1
+                    };
+                    header_ref.weak.load(Ordering::Acquire) > n_expected
+                })
                 .then_some(k),
             })
             .collect::<Vec<_>>();
@@ -324,9 +332,7 @@ impl GarbageTruck {
                     destroy_fn(node.ptr, &ref_graph);
                 },
                 Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
-                        && header_ref.strong.load(Ordering::Acquire) == 0
-                    {
+                    if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
                         // mark to be cleaned up later
                         // no real synchronization loss to storing the guard because we had the last
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index bffecf4..fa0fe17 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -110,8 +110,8 @@ where
     /// allocation itself must still be valid.
     strong: AtomicUsize,
     /// The "weak" count, which is the number of references to this allocation stored in to-collect
-    /// buffers by the collection algorithm.
-    /// If the weak count is zero, the allocation may be destroyed.
+    /// buffers by the collection algorithm, plus one while the strong count is not zero.
+    /// Whoever makes the weak count zero must destroy the allocation.
     weak: AtomicUsize,
     /// The current generation number of the allocation.
     /// The generation number is assigned to the global generation every time a strong reference is
@@ -237,7 +237,7 @@ where
         Gc {
             ptr: UnsafeCell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 strong: AtomicUsize::new(1),
-                weak: AtomicUsize::new(0),
+                weak: AtomicUsize::new(1),
                 generation: AtomicUsize::new(CURRENT_TAG.load(Ordering::Acquire)),
                 value,
             }))))),
@@ -467,25 +467,28 @@ where
         box_ref
             .generation
             .store(CURRENT_TAG.load(Ordering::Relaxed), Ordering::Release);
-        match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
+        let last_weak = match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
             0 => unreachable!("strong cannot reach zero while a Gc to it exists"),
             1 => {
                 mark_clean(box_ref);
-                if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
-                    // destroyed the last weak reference! we can safely deallocate this
-                    let layout = Layout::for_value(box_ref);
-                    fence(Ordering::Acquire);
-                    unsafe {
-                        drop_in_place(ptr.as_mut());
-                        dealloc(ptr.as_ptr().cast(), layout);
-                    }
-                }
+                // give up our own weak reference and the one shared by all `Gc`s
+                box_ref.weak.fetch_sub(2, Ordering::Release) == 2
             }
             _ => {
                 if contains_gcs(&box_ref.value).unwrap_or(true) {
                     mark_dirty(ptr);
                 }
-                box_ref.weak.fetch_sub(1, Ordering::Release);
+                // the other `Gc`s may have been dropped in the meantime
+                box_ref.weak.fetch_sub(1, Ordering::Release) == 1
+            }
+        };
+        if last_weak {
+            // destroyed the last weak reference! we can safely deallocate this
+            let layout = Layout::for_value(box_ref);
+            fence(Ordering::Acquire);
+            unsafe {
+                drop_in_place(ptr.as_mut());
+                dealloc(ptr.as_ptr().cast(), layout);
             }
         }
         notify_dropped_gc();
-- 
2.43.0


From 57912d9fea488e8830d9dcf4c90cbde60bbe528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:17 +0000
Subject: [PATCH 08/14] fix: don't give up on garbage because it points to a
 value in use

An unreachable allocation was dropped from the set of candidates when one of
the values it points to was accessed while the collection was running, and
leaked.
---
 dumpster/src/sync/collect.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b3d9b7d..23473ae 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -425,13 +425,17 @@ impl<'a> Visitor for Dfs<'a> {
         };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
-        if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
-            || box_ref.generation.load(Ordering::Acquire) >= current_tag
-        {
+        if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag {
             // This pointer was already tagged by this sweep, so it must have been moved by
             mark(self.current_id, self.ref_graph);
             return;
         }
+        if box_ref.generation.load(Ordering::Acquire) >= current_tag {
+            // The target was accessed during this sweep.
+            // Leave this pointer unaccounted for, so that the target is considered reachable.
+            // This says nothing about the allocation which owns the pointer.
+            return;
+        }
 
         let mut new_id = AllocationId::from(box_ref);
 
@@ -539,7 +543,13 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
             let id = AllocationId::from(ptr);
             // pointers to reachable allocations will be dropped normally, unless the destructor of
             // their owner saves them
-            if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
+            if matches!(
+                self.graph.get(&id),
+                Some(AllocationInfo {
+                    reachability: Reachability::Unknown { .. },
+                    ..
+                })
+            ) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
-- 
2.43.0


From c05542497456e0e29984f5067f8854b7ebaf0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:22 +0000
Subject: [PATCH 09/14] fix: visit the contents of poisoned locks instead of
 panicking

---
 dumpster/src/impls.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/dumpster/src/impls.rs b/dumpster/src/impls.rs
index 080c339..008a539 100644
--- a/dumpster/src/impls.rs
+++ b/dumpster/src/impls.rs
@@ -90,26 +90,24 @@ unsafe impl<T: Collectable + ?Sized> Collectable for RefCell<T> {
 unsafe impl<T: Collectable + ?Sized> Collectable for Mutex<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_lock()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_lock() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // whatever is behind a poisoned lock is owned like anything else
+            Err(TryLockError::Poisoned(e)) => e.get_ref().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
 unsafe impl<T: Collectable + ?Sized> Collectable for RwLock<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_read()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_read() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // whatever is behind a poisoned lock is owned like anything else
+            Err(TryLockError::Poisoned(e)) => e.get_ref().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
-- 
2.43.0


From bf923a6898bcf2f05ea0b489fc10e57f66d50081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:26 +0000
Subject: [PATCH 10/14] fix: finish a collection when destructors panic, then
 resume the panic

---
 dumpster/src/ptr.rs            | 18 ++++++++++++-
 dumpster/src/sync/collect.rs   | 46 +++++++++++++++++++++-------------
 dumpster/src/unsync/collect.rs | 35 ++++++++++++++++++--------
 3 files changed, 71 insertions(+), 28 deletions(-)

diff --git a/dumpster/src/ptr.rs b/dumpster/src/ptr.rs
index 0c04735..629ee2e 100644
--- a/dumpster/src/ptr.rs
+++ b/dumpster/src/ptr.rs
@@ -9,11 +9,27 @@
 //! Custom pointer types used by this garbage collector.
 
 use std::{
+    alloc::{dealloc, Layout},
     fmt,
     mem::{size_of, MaybeUninit},
-    ptr::{addr_of, addr_of_mut, copy_nonoverlapping, NonNull},
+    panic::{catch_unwind, AssertUnwindSafe},
+    ptr::{addr_of, addr_of_mut, copy_nonoverlapping, drop_in_place, NonNull},
+    thread,
 };
 
+/// Destroy an allocation, dropping its value and deallocating it.
+/// The allocation is released even if dropping the value panics; the panic is returned.
+///
+/// # Safety
+///
+/// `ptr` must point to an initialized value allocated by a [`Box`], which is never used again.
+pub(crate) unsafe fn destroy<T: ?Sized>(ptr: NonNull<T>) -> thread::Result<()> {
+    let layout = Layout::for_value(ptr.as_ref());
+    let result = catch_unwind(AssertUnwindSafe(|| drop_in_place(ptr.as_ptr())));
+    dealloc(ptr.as_ptr().cast(), layout);
+    result
+}
+
 #[repr(C)]
 #[derive(Clone, Copy)]
 /// A pointer for an allocation, extracted out as raw data.
diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 23473ae..b045e59 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -9,12 +9,13 @@
 //! A synchronized collection algorithm.
 
 use std::{
-    alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap},
     mem::{replace, swap, take, transmute},
-    ptr::{drop_in_place, NonNull},
+    panic::resume_unwind,
+    ptr::NonNull,
     sync::atomic::{AtomicPtr, Ordering},
+    thread,
 };
 
 #[cfg(dumpster_verif)]
@@ -26,7 +27,10 @@ use std::sync::atomic::AtomicUsize;
 
 use once_cell::sync::Lazy;
 
-use crate::{ptr::Erased, Collectable, Visitor};
+use crate::{
+    ptr::{destroy, Erased},
+    Collectable, Visitor,
+};
 
 use super::{default_collect_condition, CollectCondition, CollectInfo, Gc, GcBox, CURRENT_TAG};
 
@@ -80,7 +84,7 @@ struct AllocationInfo {
     ptr: Erased,
     /// Function for dropping the allocation when its weak and strong count hits zero.
     /// Should have the same behavior as dropping a Gc normally to a reference count of zero.
-    weak_drop_fn: unsafe fn(Erased),
+    weak_drop_fn: unsafe fn(Erased) -> thread::Result<()>,
     /// Information about this allocation's reachability.
     reachability: Reachability,
 }
@@ -98,7 +102,7 @@ enum Reachability {
         /// the one we are currently building.
         n_unaccounted: usize,
         /// A function used to destroy the allocation.
-        destroy_fn: unsafe fn(Erased, &HashMap<AllocationId, AllocationInfo>),
+        destroy_fn: unsafe fn(Erased, &HashMap<AllocationId, AllocationInfo>) -> thread::Result<()>,
     },
     /// The allocation here is reachable.
     /// No further information is needed.
@@ -325,11 +329,15 @@ impl GarbageTruck {
         CLEANING.with(|c| c.set(true));
         // set of allocations which must be destroyed because we were the last weak pointer to it
         let mut weak_destroys = Vec::new();
+        // the first panic of a destructor, to be resumed when everything is destroyed
+        let mut panic = None;
         for (id, node) in &ref_graph {
             let header_ref = unsafe { id.0.as_ref() };
             match node.reachability {
                 Reachability::Unknown { destroy_fn, .. } => unsafe {
-                    destroy_fn(node.ptr, &ref_graph);
+                    if let Err(payload) = destroy_fn(node.ptr, &ref_graph) {
+                        panic.get_or_insert(payload);
+                    }
                 },
                 Reachability::Reachable => {
                     if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
@@ -343,10 +351,15 @@ impl GarbageTruck {
             };
         }
         for (drop_fn, ptr) in weak_destroys {
-            unsafe { drop_fn(ptr) };
+            if let Err(payload) = unsafe { drop_fn(ptr) } {
+                panic.get_or_insert(payload);
+            }
         }
         CLEANING.with(|c| c.set(false));
         drop(collecting_guard);
+        if let Some(payload) = panic {
+            resume_unwind(payload);
+        }
     }
 }
 
@@ -523,7 +536,7 @@ fn mark(root: AllocationId, graph: &mut HashMap<AllocationId, AllocationInfo>) {
 unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
-) {
+) -> thread::Result<()> {
     /// A visitor for nullifying the pointers to allocations which are destroyed as well.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
@@ -565,14 +578,13 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         }
     }
 
-    let specified = ptr.specify::<GcBox<T>>().as_mut();
+    let specified = ptr.specify::<GcBox<T>>();
     specified
+        .as_ref()
         .value
         .accept(&mut PrepareForDestruction { graph })
         .expect("allocation assumed to be unreachable but somehow was accessed");
-    let layout = Layout::for_value(specified);
-    drop_in_place(specified);
-    dealloc(std::ptr::from_mut::<GcBox<T>>(specified).cast(), layout);
+    destroy(specified)
 }
 
 /// Function for handling dropping an allocation when its weak and strong reference count reach
@@ -581,14 +593,14 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
 /// # Safety
 ///
 /// `ptr` must have been created as a pointer to a `GcBox<T>`.
-unsafe fn drop_weak_zero<T: Collectable + Send + Sync + ?Sized>(ptr: Erased) {
-    let mut specified = ptr.specify::<GcBox<T>>();
+unsafe fn drop_weak_zero<T: Collectable + Send + Sync + ?Sized>(
+    ptr: Erased,
+) -> thread::Result<()> {
+    let specified = ptr.specify::<GcBox<T>>();
     assert_eq!(specified.as_ref().weak.load(Ordering::Relaxed), 0);
     assert_eq!(specified.as_ref().strong.load(Ordering::Relaxed), 0);
 
-    let layout = Layout::for_value(specified.as_ref());
-    drop_in_place(specified.as_mut());
-    dealloc(specified.as_ptr().cast(), layout);
+    destroy(specified)
 }
 
 unsafe impl Send for AllocationId {}
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 3bf4440..1249942 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -9,15 +9,16 @@
 //! Implementations of the single-threaded garbage-collection logic.
 
 use std::{
-    alloc::{dealloc, Layout},
+    any::Any,
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap, HashSet},
     num::NonZeroUsize,
-    ptr::{drop_in_place, NonNull},
+    panic::resume_unwind,
+    ptr::NonNull,
 };
 
 use crate::{
-    ptr::Erased,
+    ptr::{destroy, Erased},
     unsync::{default_collect_condition, CollectInfo, Gc},
     Collectable, Visitor,
 };
@@ -173,6 +174,7 @@ impl Dumpster {
                 visited: dfs.visited,
                 reachable: &mark.visited,
                 n_refs_living: &self.n_refs_living,
+                panic: None,
             };
 
             COLLECTING.with(|c| c.set(true));
@@ -186,6 +188,9 @@ impl Dumpster {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
             COLLECTING.with(|c| c.set(false));
+            if let Some(payload) = decrementer.panic {
+                resume_unwind(payload);
+            }
         }
     }
 
@@ -337,6 +342,21 @@ struct DropAlloc<'a> {
     reachable: &'a HashSet<AllocationId>,
     /// The number of living references, which does not include dead ones.
     n_refs_living: &'a Cell<usize>,
+    /// The first panic of a destructor, to be resumed when everything is destroyed.
+    panic: Option<Box<dyn Any + Send>>,
+}
+
+impl DropAlloc<'_> {
+    /// Destroy an allocation, keeping any panic for later.
+    ///
+    /// # Safety
+    ///
+    /// The allocation must be unreachable and not have been destroyed yet.
+    unsafe fn destroy<T: Collectable + ?Sized>(&mut self, ptr: NonNull<GcBox<T>>) {
+        if let Err(payload) = destroy(ptr) {
+            self.panic.get_or_insert(payload);
+        }
+    }
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -365,9 +385,7 @@ impl Visitor for DropAlloc<'_> {
         if self.visited.insert(id) {
             unsafe {
                 ptr.as_ref().value.accept(self).unwrap();
-                let layout = Layout::for_value(ptr.as_ref());
-                drop_in_place(ptr.as_ptr());
-                dealloc(ptr.as_ptr().cast(), layout);
+                self.destroy(ptr);
             }
         }
     }
@@ -387,9 +405,6 @@ unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAl
             .accept(visitor)
             .unwrap();
 
-        let mut_spec = ptr.specify::<GcBox<T>>().as_mut();
-        let layout = Layout::for_value(mut_spec);
-        drop_in_place(mut_spec);
-        dealloc(std::ptr::from_mut::<GcBox<T>>(mut_spec).cast(), layout);
+        visitor.destroy(ptr.specify::<GcBox<T>>());
     }
 }
-- 
2.43.0


From de3159bd78f7647dcf7ad86fe55f3427cd9a9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:54 +0000
Subject: [PATCH 11/14] fix: let derive(Collectable) accept generic types and
 empty enums

---
 dumpster_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 917b1d1..62305c6 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
     let generated = quote! {
         unsafe impl #impl_generics dumpster::Collectable for #name #ty_generics #where_clause {
             #[inline]
-            fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> std::result::Result<(), ()> {
+            fn accept<__V: dumpster::Visitor>(&self, visitor: &mut __V) -> std::result::Result<(), ()> {
                 #do_visitor
             }
         }
@@ -47,7 +47,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
 fn add_trait_bounds(mut generics: Generics) -> Generics {
     for param in &mut generics.params {
         if let GenericParam::Type(ref mut type_param) = *param {
-            type_param.bounds.push(parse_quote!(heapsize::HeapSize));
+            type_param.bounds.push(parse_quote!(dumpster::Collectable));
         }
     }
     generics
@@ -86,6 +86,8 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             }
             Fields::Unit => quote! { std::result::Result::Ok(()) },
         },
+        // there is no value of this type to be matched
+        Data::Enum(e) if e.variants.is_empty() => quote! { match *self {} },
         Data::Enum(e) => {
             let mut delegate_visit = TokenStream::new();
             for var in &e.variants {
-- 
2.43.0


From 07c83cb984edc1efd63f843b8bb34c052de758e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:56 +0000
Subject: [PATCH 12/14] fix: compare only addresses in Gc::ptr_eq

Two pointers to the same trait object may carry different vtable pointers,
so comparing whole fat pointers could report them as different.
---
 dumpster/src/sync/mod.rs   | 4 +++-
 dumpster/src/unsync/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index fa0fe17..cd84a78 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -382,7 +382,9 @@ where
     /// assert!(!Gc::ptr_eq(&gc1, &gc3));
     /// ```
     pub fn ptr_eq(this: &Gc<T>, other: &Gc<T>) -> bool {
-        unsafe { *this.ptr.get() }.as_option() == unsafe { *other.ptr.get() }.as_option()
+        // compare only addresses: the same value may be reached with different vtables
+        unsafe { *this.ptr.get() }.as_option().map(NonNull::cast::<()>)
+            == unsafe { *other.ptr.get() }.as_option().map(NonNull::cast::<()>)
     }
 }
 
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index a027a0a..ebbb6f4 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -354,7 +354,9 @@ impl<T: Collectable + ?Sized> Gc<T> {
     /// assert!(!Gc::ptr_eq(&gc1, &gc3));
     /// ```
     pub fn ptr_eq(this: &Gc<T>, other: &Gc<T>) -> bool {
-        this.ptr.get().as_option() == other.ptr.get().as_option()
+        // compare only addresses: the same value may be reached with different vtables
+        this.ptr.get().as_option().map(NonNull::cast::<()>)
+            == other.ptr.get().as_option().map(NonNull::cast::<()>)
     }
 }
 
-- 
2.43.0


From c5e2ae22d647e575aa12bf1fa6bc6893ac04ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:10:43 +0000
Subject: [PATCH 13/14] fix: a suspect of an exiting thread could be taken by a
 collection while the thread still held a weak reference, and leak

---
 dumpster/src/sync/collect.rs | 13 +++++++++----
 dumpster/src/sync/mod.rs     |  7 +++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b045e59..521868d 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -184,7 +184,10 @@ pub fn notify_created_gc() {
 
 /// Mark an allocation as "dirty," implying that it may or may not be inaccessible and need to
 /// be cleaned up.
-pub(super) fn mark_dirty<T>(allocation: NonNull<GcBox<T>>)
+///
+/// The caller must own a weak reference to the allocation.
+/// Returns whether that reference was given up.
+pub(super) fn mark_dirty<T>(allocation: NonNull<GcBox<T>>) -> bool
 where
     T: Collectable + Send + Sync + ?Sized,
 {
@@ -200,12 +203,14 @@ where
         }
     });
     if delivered.is_err() {
-        // this thread is exiting and its dumpster is gone: deliver directly
-        box_ref.weak.fetch_add(1, Ordering::Acquire);
-        if GARBAGE_TRUCK.contents.lock().insert(id, can()).is_some() {
+        // this thread is exiting and its dumpster is gone: deliver directly.
+        // A collection which takes the allocation from the truck must not find our reference.
+        let mut contents = GARBAGE_TRUCK.contents.lock();
+        if contents.insert(id, can()).is_some() {
             box_ref.weak.fetch_sub(1, Ordering::Release);
         }
     }
+    delivered.is_err()
 }
 
 /// Mark an allocation as "clean," implying that it has already been cleaned up and does not
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index cd84a78..2b58352 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -477,11 +477,10 @@ where
                 box_ref.weak.fetch_sub(2, Ordering::Release) == 2
             }
             _ => {
-                if contains_gcs(&box_ref.value).unwrap_or(true) {
-                    mark_dirty(ptr);
-                }
+                let gave_up_weak =
+                    contains_gcs(&box_ref.value).unwrap_or(true) && mark_dirty(ptr);
                 // the other `Gc`s may have been dropped in the meantime
-                box_ref.weak.fetch_sub(1, Ordering::Release) == 1
+                !gave_up_weak && box_ref.weak.fetch_sub(1, Ordering::Release) == 1
             }
         };
         if last_weak {
-- 
2.43.0


From bd36c0fccadc80fdd7d760f82ed7be1af9d63864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:44 +0000
Subject: [PATCH 14/14] fix: leave allocations alone which can't be looked into
 because a borrow was leaked

A collection of the thread-local collector panicked when a cell in a cyclic
value was borrowed for ever, since only the search ignored such cells but the
destruction did not.
---
 dumpster/src/unsync/collect.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 1249942..09ec1e1 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -106,7 +106,7 @@ impl Cleanup {
     /// Construct a new cleanup for an allocation.
     fn new<T: Collectable + ?Sized>(box_ptr: NonNull<GcBox<T>>) -> Cleanup {
         Cleanup {
-            dfs_fn: apply_visitor::<T, Dfs>,
+            dfs_fn: search::<T>,
             mark_fn: apply_visitor::<T, Mark>,
             drop_fn: drop_assist::<T>,
             ptr: Erased::new(box_ptr),
@@ -124,6 +124,23 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
     let _ = specified.as_ref().value.accept(visitor);
 }
 
+/// Find everything reachable from an allocation.
+/// If it can't be looked into completely, remember that.
+///
+/// # Safety
+///
+/// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
+unsafe fn search<T: Collectable + ?Sized>(ptr: Erased, dfs: &mut Dfs) {
+    let specified: NonNull<GcBox<T>> = ptr.specify();
+    if specified.as_ref().value.accept(dfs).is_err() {
+        dfs.inaccessible.push((
+            AllocationId::from(specified),
+            ptr,
+            apply_visitor::<T, Mark>,
+        ));
+    }
+}
+
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
     ///
@@ -138,6 +155,7 @@ impl Dumpster {
             let mut dfs = Dfs {
                 visited: HashSet::with_capacity(self.to_collect.borrow().len()),
                 ref_graph: HashMap::with_capacity(self.to_collect.borrow().len()),
+                inaccessible: Vec::new(),
             };
 
             for (k, v) in &*self.to_collect.borrow() {
@@ -169,6 +187,12 @@ impl Dumpster {
                 (cleanup.mark_fn)(cleanup.ptr, &mut mark);
             }
 
+            // what can't be looked into can't be destroyed either
+            for (id, ptr, mark_fn) in &dfs.inaccessible {
+                mark.visited.insert(*id);
+                mark_fn(*ptr, &mut mark);
+            }
+
             dfs.visited.clear();
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
@@ -255,6 +279,9 @@ struct Dfs {
     visited: HashSet<AllocationId>,
     /// A map from allocation identifiers to information about their reachability.
     ref_graph: HashMap<AllocationId, Reachability>,
+    /// The allocations which could not be visited completely, since a part of them is borrowed
+    /// (possibly for ever, if the borrow was leaked), and how to mark their descendants.
+    inaccessible: Vec<(AllocationId, Erased, unsafe fn(Erased, &mut Mark))>,
 }
 
 #[derive(Debug)]
@@ -300,7 +327,7 @@ impl Visitor for Dfs {
             }
         }
         if self.visited.insert(next_id) {
-            let _ = unsafe { ptr.as_ref() }.value.accept(self);
+            unsafe { search::<T>(Erased::new(ptr), self) };
         }
     }
 }
-- 
2.43.0

