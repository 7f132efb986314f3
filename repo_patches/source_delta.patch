From ae3f3d2385637e82298f12e297b909f8fef0297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 01/11] fix: release the slab slot (and key) of an abandoned
 placeholder

Dropping a guard without inserting removed the placeholder from the map
but left its entry, with the key, in the slab until the cache was cleared.
---
 src/shard.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..65db987 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -182,6 +182,8 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            // The placeholder isn't linked to any list, but its slot must be released as well
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From cd92b3bbe1f77734d26eff9aaf66a0b3800b4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 02/11] fix: remove the placeholder when an unsync
 get_or_insert_with loader fails

An error (or panic) in the loader left the placeholder and its key in the
cache until the key was inserted or removed.
---
 src/unsync.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..fee4ab1 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -251,13 +251,16 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+            Err((placeholder, _)) => {
+                let idx = placeholder.idx;
+                // The guard removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -277,13 +280,16 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+            Err((placeholder, _)) => {
+                let idx = placeholder.idx;
+                // The guard removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0


From 790e734fa7de9ba36fa5f8c28549f1846e83dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 03/11] fix: park for the remaining time in get_value_or_guard
 with a timeout

It parked for the elapsed time, so the wait could last up to twice the timeout.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..8a291d3 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -238,7 +238,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From 0ece518c77fa9c65df41b216389967ad0f5eead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 04/11] fix: don't let float rounding raise the hot target
 above the capacity

For capacities over 2^53 the admission limit could exceed the capacity,
so an item heavier than the whole cache was admitted.
---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 65db987..7eb91e9 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -226,7 +226,9 @@ impl<
         hash_builder: B,
         lifecycle: L,
     ) -> Self {
-        let weight_target_hot = (weight_capacity as f64 * hot_allocation) as u64;
+        // min() as the conversion to f64 may round up large capacities
+        let weight_target_hot =
+            ((weight_capacity as f64 * hot_allocation) as u64).min(weight_capacity);
         let capacity_non_resident = (estimated_items_capacity as f64 * ghost_allocation) as usize;
         Self {
             hash_builder,
-- 
2.43.0


From 16199775d207679ea8ef4af9dce27df1f10dd836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 05/11] fix: clone the value before locking the placeholder
 state

With std locks a panicking Val::clone poisoned the state lock and the
guard's drop then panicked while unwinding, aborting the process.
---
 src/sync_placeholder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 8a291d3..399074f 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -299,9 +299,11 @@ impl<
     /// or a non-placeholder `insert` with the same key.
     pub fn insert_with_lifecycle(mut self, value: Val) -> Result<L::RequestState, Val> {
         let referenced;
+        // Clone outside the lock, a panic while holding it could poison it and abort in drop
+        let shared_value = value.clone();
         {
             let mut state = self.shared.state.write();
-            state.loading = LoadingState::Inserted(value.clone());
+            state.loading = LoadingState::Inserted(shared_value);
             referenced = !state.waiters.is_empty();
             for w in state.waiters.drain(..) {
                 w.notify();
-- 
2.43.0


From 4fd3a86382f42d37c97a865c3c277fd72c5768e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 06/11] fix: keep a pending future marked as notified while it
 resolves

If Val::clone panicked while resolving a notified future, its drop didn't
find the waiter in the list and panicked again, aborting the process.
---
 src/sync_placeholder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 399074f..2d8d6ad 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -478,9 +478,7 @@ impl<
                 ..
             } => {
                 let mut waiter = waiter.write();
-                if waiter.notified {
-                    waiter.notified = false;
-                } else {
+                if !waiter.notified {
                     waiter.waker.clone_from(cx.waker());
                     return Poll::Pending;
                 }
-- 
2.43.0


From c8c6961ba4cbac0ac172f23f8698ccdbd413993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:00 +0000
Subject: [PATCH 07/11] fix: remove an evicted hot item from the map before
 calling on_evict

If on_evict panicked during a guard insertion the map was left with the index
of a freed slot and the guard's drop panicked while unwinding, aborting.
---
 src/shard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 7eb91e9..393aec1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -719,8 +719,8 @@ impl<
                     unsafe { core::hint::unreachable_unchecked() };
                 };
                 self.hot_head = next;
-                self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
                 self.map_remove(hash, idx);
+                self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
             }
             return true;
         }
-- 
2.43.0


From 238fbeb5c1b30d2bd093274f6ad2c6b458da8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:33 +0000
Subject: [PATCH 08/11] fix: weigh a replaced value before replacing it

A weighter panic after the entry was already exchanged left the entry linked
(or not) according to the old weight; linking it again corrupted the eviction
list and later insertions could loop forever.
---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 393aec1..b8727d0 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -753,8 +753,11 @@ impl<
         let (entry, _) = self.entries.get_mut(idx).unwrap();
         let referenced;
         let enter_state;
+        // weigh before the entry is changed, the weighter may panic
+        let mut evicted_weight = 0;
         match entry {
             Entry::Resident(resident) => {
+                evicted_weight = self.weighter.weight(&resident.key, &resident.value);
                 enter_state = resident.state;
                 referenced = resident
                     .referenced
@@ -789,7 +792,6 @@ impl<
         match evicted {
             Entry::Resident(evicted) => {
                 debug_assert_eq!(evicted.state, enter_state);
-                let evicted_weight = self.weighter.weight(&evicted.key, &evicted.value);
                 let list_head = if enter_state == ResidentState::Hot {
                     self.weight_hot -= evicted_weight;
                     self.weight_hot += weight;
-- 
2.43.0


From 8d5220a187a24b62e944710e70b99118787ba522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:27 +0000
Subject: [PATCH 09/11] fix: don't panic on poisoned locks without parking_lot

Guards and pending futures take the shard lock when they are dropped. With std
locks a panic in user code poisoned it, and dropping a guard or future while
unwinding (or polling a pending future) panicked again and aborted the process.
---
 src/rw_lock.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/rw_lock.rs b/src/rw_lock.rs
index ba4db95..2fddfda 100644
--- a/src/rw_lock.rs
+++ b/src/rw_lock.rs
@@ -1,4 +1,6 @@
 use std::ops::{Deref, DerefMut};
+#[cfg(not(feature = "parking_lot"))]
+use std::sync::PoisonError;
 
 #[cfg(feature = "parking_lot")]
 type InnerRwLock<T> = parking_lot::RwLock<T>;
@@ -35,9 +37,8 @@ type InnerRwLockWriteGuard<'rwlock, T> = std::sync::RwLockWriteGuard<'rwlock, T>
 ///
 /// # Poisoning
 ///
-/// An `RwLock` might become poisoned on a panic. Note, however, that an `RwLock`
-/// may only be poisoned if a panic occurs while it is locked exclusively (write
-/// mode). If a panic occurs in any reader, then the lock will not be poisoned.
+/// Poisoning is ignored, as with `parking_lot`: guards and futures take the lock
+/// when dropped and panicking there while unwinding would abort the process.
 #[derive(Default, Debug)]
 #[repr(transparent)]
 pub struct RwLock<T: ?Sized>(InnerRwLock<T>);
@@ -75,9 +76,7 @@ impl<T: ?Sized> RwLock<T> {
     /// # Panics
     ///
     /// This function might panic when called if the lock is already held by the
-    /// current thread, or if the `RwLock` is poisoned. An `RwLock` might be
-    /// poisoned whenever a writer panics while holding an exclusive lock.
-    /// Implementations are not required to implement poisoning.
+    /// current thread.
     #[inline]
     pub fn read(&self) -> RwLockReadGuard<'_, T> {
         RwLockReadGuard({
@@ -86,7 +85,7 @@ impl<T: ?Sized> RwLock<T> {
                 self.0.read()
             }
             #[cfg(not(feature = "parking_lot"))]
-            self.0.read().unwrap()
+            self.0.read().unwrap_or_else(PoisonError::into_inner)
         })
     }
 
@@ -102,9 +101,7 @@ impl<T: ?Sized> RwLock<T> {
     /// # Panics
     ///
     /// This function might panic when called if the lock is already held by the
-    /// current thread, or if the `RwLock` is poisoned. An `RwLock` might be
-    /// poisoned whenever a writer panics while holding an exclusive lock.
-    /// Implementations are not required to implement poisoning.
+    /// current thread.
     #[inline]
     pub fn write(&self) -> RwLockWriteGuard<'_, T> {
         RwLockWriteGuard({
@@ -113,7 +110,7 @@ impl<T: ?Sized> RwLock<T> {
                 self.0.write()
             }
             #[cfg(not(feature = "parking_lot"))]
-            self.0.write().unwrap()
+            self.0.write().unwrap_or_else(PoisonError::into_inner)
         })
     }
 }
-- 
2.43.0


From 1427ee8262d78d546bf0b4defe87938fb656320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:42 +0000
Subject: [PATCH 10/11] fix: wake waiters without holding the shard,
 placeholder and waiter locks

A waker can run arbitrary code. One that uses the cache or drops the waiting
future (e.g. an executor that cancels the task instead of scheduling it) would
deadlock on the locks held while notifying.
---
 src/sync_placeholder.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2d8d6ad..2af6ec8 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -97,17 +97,25 @@ enum Waiter {
 }
 
 impl Waiter {
+    /// Marks the waiter as notified. Must be called with the placeholder state locked,
+    /// together with the removal from the waiters list.
     #[inline]
-    fn notify(self) {
+    fn set_notified(&self) {
         match self {
-            Waiter::Thread(t, n) => {
-                n.store(true, atomic::Ordering::Release);
-                t.unpark()
-            }
+            Waiter::Thread(_, n) => n.store(true, atomic::Ordering::Release),
+            Waiter::Task(t) => t.write().notified = true,
+        }
+    }
+
+    /// Wakes a notified waiter. Must be called without holding any locks, as wakers can
+    /// run arbitrary code (e.g. drop the task, and with it the future waiting here).
+    #[inline]
+    fn wake(self) {
+        match self {
+            Waiter::Thread(t, _) => t.unpark(),
             Waiter::Task(t) => {
-                let mut t = t.write();
-                t.notified = true;
-                t.waker.wake_by_ref()
+                let waker = t.read().waker.clone();
+                waker.wake()
             }
         }
     }
@@ -298,17 +306,21 @@ impl<
     /// A placeholder can be removed as a result of a `remove` call
     /// or a non-placeholder `insert` with the same key.
     pub fn insert_with_lifecycle(mut self, value: Val) -> Result<L::RequestState, Val> {
-        let referenced;
+        let waiters;
         // Clone outside the lock, a panic while holding it could poison it and abort in drop
         let shared_value = value.clone();
         {
             let mut state = self.shared.state.write();
             state.loading = LoadingState::Inserted(shared_value);
-            referenced = !state.waiters.is_empty();
-            for w in state.waiters.drain(..) {
-                w.notify();
+            waiters = std::mem::take(&mut state.waiters);
+            for w in &waiters {
+                w.set_notified();
             }
         }
+        let referenced = !waiters.is_empty();
+        for w in waiters {
+            w.wake();
+        }
 
         // Set flag to disable drop_uninserted_slow, it has no work to do:
         //   - waiters have already been drained
@@ -332,7 +344,10 @@ impl<Key, Val, We, B, L> PlaceholderGuard<'_, Key, Val, We, B, L> {
         let mut state = self.shared.state.write();
         if let Some(w) = state.waiters.pop() {
             debug_assert!(matches!(state.loading, LoadingState::Loading));
-            w.notify();
+            w.set_notified();
+            drop(state);
+            drop(shard);
+            w.wake();
         } else {
             state.loading = LoadingState::Terminated;
             shard.remove_placeholder(&self.shared);
-- 
2.43.0


From d2178e3141d1cc210e26d9a30449ef5a78b6a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:27 +0000
Subject: [PATCH 11/11] fix: an insert that is rejected as too heavy cancels a
 load of its key

insert() with a value that exceeds the hot budget removed a resident entry of
the same key, but left a placeholder in place. A guard obtained before the
insert could then store its older value afterwards, as if the newer write
had never happened.
---
 src/shard.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index b8727d0..c7415aa 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1002,8 +1002,16 @@ impl<
         value: Val,
         strategy: InsertStrategy,
     ) -> Result<(), (Key, Val)> {
-        // Make sure to remove any existing entry
-        if let Some((idx, _)) = self.search_resident(hash, &key) {
+        // Make sure to remove any existing entry. As any other insert this includes a
+        // placeholder, otherwise an older value could get inserted with its guard later.
+        let existing = self
+            .search(hash, &key)
+            .filter(|&idx| match self.entries.get(idx) {
+                Some((Entry::Resident(_), _)) => true,
+                Some((Entry::Placeholder(_), _)) => matches!(strategy, InsertStrategy::Insert),
+                _ => false,
+            });
+        if let Some(idx) = existing {
             if let Some((ek, ev)) = self.remove_internal(hash, idx) {
                 self.lifecycle.on_evict(lcs, ek, ev);
             }
-- 
2.43.0

