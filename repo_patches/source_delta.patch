From 6bd7a1681bda7618b74f56d633f2402da2709281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 01/11] fix: do not mark an index as present before
 get_or_insert_with's closure has returned

If the closure panicked, the mask claimed a component that was never
written, so later reads and the storage's drop touched an empty slot.
---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..b1affc2 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // `f` may panic, so it must run before the index is marked as present.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From 44b9cfe1a765149a24e7d5f2727014648dde9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 02/11] fix: Allocator::entity returns None for indexes beyond
 the bitset range instead of panicking

---
 src/entity.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..cffbe9a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -134,7 +134,9 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < self.max_entity_count() && self.raised_atomic.contains(index) {
+            // `AtomicBitSet::contains` panics on indexes out of its range, so never ask it about an
+            // index that has not been allocated.
             Some(Entity::new(index, generation.raised()))
         } else {
             None
-- 
2.43.0


From 800e350ab6c286c38c3e616765ee21016d959b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 03/11] fix: RwResources::union and map keep written resources
 out of the read set

Every other operation lets a write subsume a read of the same resource;
union and map could report one resource both as a read and as a write.
---
 src/resources.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..4b71aa2 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,7 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        RwResources::from_iters(self.reads.iter().map(&f), self.writes.iter().map(&f))
     }
 
     pub fn add_read(&mut self, r: R) {
@@ -120,6 +117,7 @@ where
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
         for w in &other.writes {
+            self.reads.remove(w);
             self.writes.insert(w.clone());
         }
 
-- 
2.43.0


From bdacd4dcb8346b2872916c97ced9bd74966013ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 04/11] fix: keep removing components of dead entities when a
 component's destructor panics

delete_entity and merge stopped at the first panicking destructor, leaving
the entity's remaining components in place for the next entity that reuses
the index.
---
 src/world.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index b086773..59dcc97 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -50,9 +50,9 @@ impl World {
 
     pub fn delete_entity(&mut self, e: Entity) -> Result<(), WrongGeneration> {
         self.allocator.kill(e)?;
-        for remove_component in self.remove_components.values() {
+        for_each_despite_panic(self.remove_components.values(), |remove_component| {
             remove_component(&self.components, &[e]);
-        }
+        });
         Ok(())
     }
 
@@ -120,9 +120,9 @@ impl World {
             TypeId::of::<C>(),
             Box::new(|resource_set, entities| {
                 let mut storage = resource_set.borrow_mut::<ComponentStorage<C>>();
-                for e in entities {
+                for_each_despite_panic(entities.iter(), |e| {
                     storage.remove(e.index());
-                }
+                });
             }),
         );
         self.components.insert(ComponentStorage::<C>::default())
@@ -207,10 +207,34 @@ impl World {
     /// No entity is actually removed until this method is called.
     pub fn merge(&mut self) {
         self.allocator.merge_atomic(&mut self.killed);
-        for remove_component in self.remove_components.values() {
+        for_each_despite_panic(self.remove_components.values(), |remove_component| {
             remove_component(&self.components, &self.killed);
+        });
+    }
+}
+
+// Calls `f` on every item, continuing with the remaining items even if one call panics.
+//
+// Removing a component runs its destructor, which may panic.  Stopping there would leave components
+// of dead entities behind, and they would be picked up by the next entity with the same index.
+fn for_each_despite_panic<I: Iterator>(iter: I, f: impl FnMut(I::Item)) {
+    struct Guard<I: Iterator, F: FnMut(I::Item)>(I, F);
+
+    impl<I: Iterator, F: FnMut(I::Item)> Guard<I, F> {
+        fn run(&mut self) {
+            while let Some(item) = self.0.next() {
+                (self.1)(item);
+            }
         }
     }
+
+    impl<I: Iterator, F: FnMut(I::Item)> Drop for Guard<I, F> {
+        fn drop(&mut self) {
+            self.run();
+        }
+    }
+
+    Guard(iter, f).run();
 }
 
 pub struct Entities<'a>(&'a Allocator);
-- 
2.43.0


From db1f73a04eb56376fc65693894c5aa052fb806c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 05/11] Schedule points for verification, compiled only with
 --cfg goggles_verif

---
 src/entity.rs |  14 +++---
 src/lib.rs    |   5 +++
 src/verif.rs  | 119 ++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 132 insertions(+), 6 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/entity.rs b/src/entity.rs
index cffbe9a..ad45f93 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1,9 +1,11 @@
-use std::{
-    iter,
-    num::NonZeroI32,
-    sync::atomic::{AtomicU32, Ordering},
-    u32,
-};
+#[cfg(goggles_verif)]
+#[allow(unused_imports)]
+use crate::verif::{AtomicU32, AtomicU64, AtomicUsize};
+#[cfg(goggles_verif)]
+use std::sync::atomic::*;
+#[cfg(not(goggles_verif))]
+use std::sync::atomic::{AtomicU32, Ordering};
+use std::{iter, num::NonZeroI32, u32};
 
 use hibitset::{AtomicBitSet, BitSet, BitSetLike, BitSetOr};
 use thiserror::Error;
diff --git a/src/lib.rs b/src/lib.rs
index 80d0061..556e1c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// For `goggles_verif`, which only the verification build sets.
+#![allow(unexpected_cfgs)]
+
 pub use hibitset;
 
 pub mod any_components;
@@ -11,6 +14,8 @@ pub mod resources;
 pub mod storage;
 pub mod system;
 pub mod tracked;
+#[cfg(goggles_verif)]
+pub mod verif;
 pub mod world;
 pub mod world_common;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..dc362ce
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,119 @@
+//! Schedule points for verification, compiled only with `--cfg goggles_verif`.
+//!
+//! Stands in for the atomics of `std` and calls a hook before every access, so that the
+//! interleavings of the accesses can be chosen from outside.
+
+use std::sync::{
+    atomic::{self, Ordering},
+    OnceLock,
+};
+
+/// Called before every access.
+pub static HOOK: OnceLock<fn()> = OnceLock::new();
+/// Asked whether a weak exchange should fail.
+pub static WEAK: OnceLock<fn() -> bool> = OnceLock::new();
+
+#[inline]
+pub fn point() {
+    if let Some(hook) = HOOK.get() {
+        hook()
+    }
+}
+
+macro_rules! atomic {
+    ($name:ident, $int:ty) => {
+        #[derive(Debug, Default)]
+        pub struct $name(atomic::$name);
+
+        impl $name {
+            pub const fn new(v: $int) -> Self {
+                $name(atomic::$name::new(v))
+            }
+            pub fn get_mut(&mut self) -> &mut $int {
+                self.0.get_mut()
+            }
+            pub fn into_inner(self) -> $int {
+                self.0.into_inner()
+            }
+            pub fn load(&self, o: Ordering) -> $int {
+                point();
+                self.0.load(o)
+            }
+            pub fn store(&self, v: $int, o: Ordering) {
+                point();
+                self.0.store(v, o)
+            }
+            pub fn swap(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.swap(v, o)
+            }
+            pub fn fetch_add(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.fetch_add(v, o)
+            }
+            pub fn fetch_sub(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.fetch_sub(v, o)
+            }
+            pub fn fetch_max(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.fetch_max(v, o)
+            }
+            pub fn fetch_min(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.fetch_min(v, o)
+            }
+            pub fn fetch_or(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.fetch_or(v, o)
+            }
+            pub fn fetch_and(&self, v: $int, o: Ordering) -> $int {
+                point();
+                self.0.fetch_and(v, o)
+            }
+            pub fn compare_exchange(
+                &self,
+                old: $int,
+                new: $int,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<$int, $int> {
+                point();
+                self.0.compare_exchange(old, new, s, f)
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                old: $int,
+                new: $int,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<$int, $int> {
+                point();
+                if WEAK.get().map_or(false, |w| w()) {
+                    Err(self.0.load(f))
+                } else {
+                    self.0.compare_exchange(old, new, s, f)
+                }
+            }
+            pub fn fetch_update(
+                &self,
+                s: Ordering,
+                f: Ordering,
+                mut update: impl FnMut($int) -> Option<$int>,
+            ) -> Result<$int, $int> {
+                let mut prev = self.load(f);
+                while let Some(next) = update(prev) {
+                    match self.compare_exchange(prev, next, s, f) {
+                        Ok(x) => return Ok(x),
+                        Err(p) => prev = p,
+                    }
+                }
+                Err(prev)
+            }
+        }
+    };
+}
+
+atomic!(AtomicU32, u32);
+atomic!(AtomicU64, u64);
+atomic!(AtomicUsize, usize);
-- 
2.43.0


From ee1cce923b352fe4360e6e644fb6b5e02ac5d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 06/11] fix: references from a GuardedElement borrow the guard,
 so that they cannot alias

---
 src/masked.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index b1affc2..2f2991f 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -236,11 +236,13 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    // The returned references must not outlive the borrow of the guard, otherwise calling these
+    // methods more than once would produce aliasing mutable references.
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From 8305e287844d6d59789acc77c1178e470726374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 07/11] fix: a GuardedElement is Send only if mutable access to
 its storage is

---
 src/masked.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 2f2991f..553c166 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -1,4 +1,4 @@
-use std::mem;
+use std::{marker::PhantomData, mem};
 
 use hibitset::{BitIter, BitSet, BitSetLike};
 
@@ -67,6 +67,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(GuardedElement {
                 storage: &self.storage,
                 index,
+                marker: PhantomData,
             })
         } else {
             None
@@ -226,6 +227,7 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
         GuardedElement {
             storage: *access,
             index,
+            marker: PhantomData,
         }
     }
 }
@@ -233,6 +235,9 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
 pub struct GuardedElement<'a, S> {
     storage: &'a S,
     index: Index,
+    // A guard gives out mutable references, so it may only be sent to another thread if `&mut S`
+    // may be.
+    marker: PhantomData<&'a mut S>,
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-- 
2.43.0


From 31f9229bcea63aea1274476597e387b07641b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 08/11] fix: a JoinIter is Send only if its Join is

---
 src/join.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index f00a9e2..4f2165a 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -1,3 +1,5 @@
+use std::marker::PhantomData;
+
 use hibitset::{
     AtomicBitSet, BitIter, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor,
 };
@@ -103,7 +105,9 @@ impl<J: Join> Join for MaybeJoin<J> {
     }
 }
 
-pub struct JoinIter<J: Join>(BitIter<J::Mask>, J::Access);
+// The access type alone does not tell whether items may be handed out in another thread (the access
+// of a mutable join may be a shared reference), so the iterator is only `Send` if `J` is.
+pub struct JoinIter<J: Join>(BitIter<J::Mask>, J::Access, PhantomData<J>);
 
 impl<J: Join> JoinIter<J> {
     pub fn new(j: J) -> Result<Self, JoinIterUnconstrained>
@@ -112,7 +116,7 @@ impl<J: Join> JoinIter<J> {
     {
         let (mask, access) = j.open();
         if mask.is_constrained() {
-            Ok(Self(mask.iter(), access))
+            Ok(Self(mask.iter(), access, PhantomData))
         } else {
             Err(JoinIterUnconstrained)
         }
@@ -120,7 +124,7 @@ impl<J: Join> JoinIter<J> {
 
     pub fn new_unconstrained(j: J) -> Self {
         let (mask, access) = j.open();
-        Self(mask.iter(), access)
+        Self(mask.iter(), access, PhantomData)
     }
 }
 
-- 
2.43.0


From 84e125e8c13cbd3618af376b230a4e68702ca619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 09/11] fix: MaskedStorage::raw_storage_mut is unsafe, safe
 code could replace the values the mask promises

---
 src/masked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 553c166..e81355e 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -33,7 +33,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         &self.storage
     }
 
-    pub fn raw_storage_mut(&mut self) -> &mut S {
+    /// # Safety
+    /// The raw storage must keep a value for exactly the indexes in the mask.  Replacing it (with
+    /// `mem::swap` or `mem::take`, for example) would leave indexes in the mask without a value.
+    pub unsafe fn raw_storage_mut(&mut self) -> &mut S {
         &mut self.storage
     }
 
-- 
2.43.0


From e9cf7ec255cd66448ad12370fccbd46e5f2bf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 10/11] fix: Refuse to allocate more entities than the bit sets
 can keep

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index ad45f93..cc23e2a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -150,8 +150,8 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
-            *self.index_len.get_mut() = index_len;
+            assert!(index < MAX_INDEX, "no entity left to allocate");
+            *self.index_len.get_mut() = index + 1;
             self.update_generation_length();
             index
         });
@@ -295,7 +295,8 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
+// A bit set can not keep an index of this value or above.
+const MAX_INDEX: Index = 1 << 24;
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
-- 
2.43.0


From 4ce9f111de97af25dcf33898ec1ebdf79922709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 11/11] fix: Never reuse an index whose generations are
 exhausted

---
 src/entity.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index cc23e2a..f206429 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -94,7 +94,9 @@ impl Allocator {
             *generation = generation.killed();
         }
 
-        self.cache.push(entity.index);
+        if !self.generations[entity.index as usize].is_exhausted() {
+            self.cache.push(entity.index);
+        }
 
         Ok(())
     }
@@ -226,7 +228,13 @@ impl Allocator {
         }
         self.killed_atomic.clear();
 
-        self.cache.extend(killed.iter().map(|e| e.index));
+        let generations = &self.generations;
+        self.cache.extend(
+            killed
+                .iter()
+                .map(|e| e.index)
+                .filter(|&i| !generations[i as usize].is_exhausted()),
+        );
     }
 
     fn generation(&self, index: Index) -> Generation {
@@ -328,6 +336,12 @@ impl Generation {
         }
     }
 
+    // A dead generation is exhausted if there is no greater live generation to raise it to.  An index
+    // with an exhausted generation must never be used again.
+    fn is_exhausted(self) -> bool {
+        self.0 == -GenId::MAX
+    }
+
     // If this generation is alive, returns the 'killed' version of this generation, otherwise just
     // returns the current dead generation.
     //
-- 
2.43.0

