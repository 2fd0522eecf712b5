From b1c9c8d9c24f01afeb26455f952c331fad7ee303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 01/18] fix: CycleMap swaps leave the map alone when the old
 item is absent

---
 src/cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..c4e3ef4 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -348,6 +348,10 @@ where
     /// assert!(map.are_paired(&0, &"84".to_string()));
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, (L, R)> {
+        // Nothing is swapped, and no cycle is removed, if the old item isn't in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -498,6 +502,10 @@ where
     /// assert!(map.are_paired(&84, &"0".to_string()));
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, (L, R)> {
+        // Nothing is swapped, and no cycle is removed, if the old item isn't in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From 45ca563de09b9ccb744aedcc73a8385985e05c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 02/18] fix: PartialCycleMap swaps leave the map alone when the
 old item is absent

---
 src/partial_cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..862dd3a 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -840,6 +840,10 @@ where
     /// assert_eq!(map.swap_left(&4, 5), Neither);
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, OptionalPair<L, R>> {
+        // Nothing is swapped, and no cycle is removed, if the old item isn't in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -995,6 +999,10 @@ where
     /// assert_eq!(map.swap_right(&"4", "5"), Neither);
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, OptionalPair<L, R>> {
+        // Nothing is swapped, and no cycle is removed, if the old item isn't in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From e35ceedaa21b4b84a5deec5898872d5327720541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 03/18] fix: CycleMap::swap_right_or_insert no longer panics
 when the insert evicts a cycle by its left item

---
 src/cycle_map.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index c4e3ef4..6c35e77 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -615,13 +615,11 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
+            // Either, neither, or both of the inserted items might evict a cycle
             match self.insert(to_insert, new) {
                 InsertOptional::Neither => Neither,
-                InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                InsertOptional::SomeLeft(pair) | InsertOptional::SomeRight(pair) => SomeRight(pair),
+                InsertOptional::SomeBoth(l_pair, (_, r)) => SomeBoth(r, l_pair),
             }
         }
     }
-- 
2.43.0


From 4c71480aca9d0029b559dbaf84217a0a018beaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 04/18] fix: PartialCycleMap::swap_*_or_insert no longer panic
 when the insert evicts cycles

---
 src/partial_cycle_map.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 862dd3a..f9891a9 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -951,12 +951,13 @@ where
         if self.left_set.get(old_l_hash, equivalent_key(old)).is_some() {
             self.swap_left(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
+            // Either, neither, or both of the inserted items might evict a cycle
             match self.insert(new, to_insert) {
                 (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (pair, Neither) | (Neither, pair) => SomeRight(pair),
+                (SomeLeft(l) | SomeBoth(l, _), pair) => SomeBoth(l, pair),
+                (SomeRight(_), _) => {
+                    unreachable!("An item evicted by its left item has a left item")
                 }
             }
         }
@@ -1115,12 +1116,13 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
+            // Either, neither, or both of the inserted items might evict a cycle
             match self.insert(to_insert, new) {
                 (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (pair, Neither) | (Neither, pair) => SomeRight(pair),
+                (pair, SomeRight(r) | SomeBoth(_, r)) => SomeBoth(r, pair),
+                (_, SomeLeft(_)) => {
+                    unreachable!("An item evicted by its right item has a right item")
                 }
             }
         }
-- 
2.43.0


From 4794fe0537135a5e4267fe209355d1099fdc4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 05/18] fix: dropping a CycleMap drain early empties the right
 set too

---
 src/cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 6c35e77..a388e38 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1317,6 +1317,14 @@ pub struct DrainIter<'a, L, R> {
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // Dropping the left iterator clears the left set, so the partners of all items that weren't
+        // yielded have to go as well
+        self.right_ref.clear();
+    }
+}
+
 impl<'a, L, R> Iterator for DrainIter<'a, L, R>
 where
     L: Hash + Eq,
-- 
2.43.0


From 041dccb319089d18dc7ad677c3cf4a90211746c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 06/18] fix: bound the capacity reserved for a deserialized
 CycleMap

---
 src/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 62af85a..5f19b40 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -43,8 +43,10 @@ where
     where
         M: SeqAccess<'de>,
     {
+        // The size hint comes from the input, so it can't be trusted with a large allocation
+        let capacity = access.size_hint().unwrap_or(0).min(4096);
         let mut map: CycleMap<L, R, S> =
-            CycleMap::with_capacity_and_hasher(access.size_hint().unwrap_or(0), Default::default());
+            CycleMap::with_capacity_and_hasher(capacity, Default::default());
 
         while let Some(entry) = access.next_element::<(L, R)>()? {
             map.insert(entry.0, entry.1);
-- 
2.43.0


From f7c5081c2f8d770456f85d9d09195bb37cbcc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 07/18] fix: PartialCycleMap::unpair no longer unpairs items
 that only share hashes

---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index f9891a9..2ebe43d 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From 3dd803fa10c31bb4d7f14fc3ec316d9231628844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 08/18] fix: draining a PartialCycleMap yields and counts all
 unpaired right items

---
 src/partial_cycle_map.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 2ebe43d..fdb304f 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1374,9 +1374,14 @@ where
     /// assert_eq!(map.capacity_left(), cap);
     /// ```
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
+        let unpaired_right = unsafe { self.right_set.iter() }
+            .filter(|r| unsafe { r.as_ref() }.hash.is_none())
+            .count();
         DrainIter {
             left_iter: self.left_set.drain(),
+            right_iter: None,
             right_ref: &mut self.right_set,
+            unpaired_right,
         }
     }
 
@@ -2284,7 +2289,11 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
+    // Created once the left set is exhausted. By then, only the unpaired right items are left
+    right_iter: Option<RawIter<MappingPair<R>>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
+    // The number of unpaired right items that haven't been yielded yet
+    unpaired_right: usize,
 }
 
 impl<'a, L, R> Drop for DrainIter<'a, L, R>
@@ -2298,6 +2307,8 @@ where
             drop(item);
             mem::forget(guard);
         }
+        // All items are gone, so this only restores the capacity of the right set
+        self.right_ref.clear();
     }
 }
 
@@ -2330,16 +2341,20 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            None => {
+                let right_ref = &*self.right_ref;
+                let right = self
+                    .right_iter
+                    .get_or_insert_with(|| unsafe { right_ref.iter() })
+                    .next()?;
+                self.unpaired_right -= 1;
+                Some(SomeRight(unsafe { self.right_ref.remove(right) }.extract()))
+            }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        (self.len(), Some(self.len()))
     }
 }
 
@@ -2349,7 +2364,7 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        self.left_iter.len()
+        self.left_iter.len() + self.unpaired_right
     }
 }
 
-- 
2.43.0


From b69d58cacb6aa3e37be43038f9e262ce029d4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 09/18] fix: PartialCycleMap::drain_filter no longer splits the
 pairs it keeps

---
 src/partial_cycle_map.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index fdb304f..009d6f5 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2414,7 +2414,12 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        let right = if self.inner.reset_right_iter {
+            self.inner.right_ref.len()
+        } else {
+            self.inner.right_iter.len()
+        };
+        (0, Some(self.inner.left_iter.len() + right))
     }
 }
 
@@ -2462,6 +2467,10 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
+            // Paired items have been visited along with their left item
+            if r_pairing.hash.is_some() {
+                continue;
+            }
             if f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
-- 
2.43.0


From e63979cfc64b9e670a57563dfab411befe07218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 10/18] fix: PartialCycleMap::iter yields the unpaired right
 items

---
 src/partial_cycle_map.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 009d6f5..d8dcdd9 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1258,6 +1258,7 @@ where
     pub fn iter(&self) -> Iter<'_, L, R, S> {
         Iter {
             left_iter: unsafe { self.left_set.iter() },
+            right_iter: unsafe { self.right_set.iter() },
             map_ref: self,
         }
     }
@@ -1452,7 +1453,8 @@ where
     {
         let mut to_drop: Vec<(Option<u64>, Option<u64>, u64)> =
             Vec::with_capacity(self.left_set.len());
-        for op in self.iter() {
+        // Unpaired right items aren't visited
+        for op in self.iter().filter(|op| op.get_left().is_some()) {
             if f(&op) {
                 let (left, right): (Option<&L>, Option<&R>) = op.into();
                 let l_hash = left.map(|l| make_hash::<L, S>(&self.hash_builder, l));
@@ -2003,6 +2005,7 @@ where
 /// An iterator over the entry items of a `PartialCycleMap`.
 pub struct Iter<'a, L, R, S> {
     left_iter: RawIter<MappingPair<L>>,
+    right_iter: RawIter<MappingPair<R>>,
     map_ref: &'a PartialCycleMap<L, R, S>,
 }
 
@@ -2010,6 +2013,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             left_iter: self.left_iter.clone(),
+            right_iter: self.right_iter.clone(),
             map_ref: self.map_ref,
         }
     }
@@ -2041,12 +2045,18 @@ where
                 let right = self.map_ref.get_right(left);
                 Some(OptionalPair::from((Some(left), right)))
             },
-            None => None,
+            // The paired right items have been yielded along with their left item
+            None => self
+                .right_iter
+                .by_ref()
+                .map(|r| unsafe { r.as_ref() })
+                .find(|r| r.hash.is_none())
+                .map(|r| SomeRight(&r.value)),
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        (self.len(), Some(self.len()))
     }
 }
 
@@ -2057,7 +2067,12 @@ where
     S: BuildHasher,
 {
     fn len(&self) -> usize {
-        self.clone().count()
+        let unpaired_right = self
+            .right_iter
+            .clone()
+            .filter(|r| unsafe { r.as_ref() }.hash.is_none())
+            .count();
+        self.left_iter.len() + unpaired_right
     }
 }
 
-- 
2.43.0


From b7ef40f40dcc048d8ad7d3c11db1437106e61bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 11/18] fix: PartialCycleMap equality notices missing unpaired
 items

---
 src/partial_cycle_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index d8dcdd9..d0ad55d 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1765,8 +1765,8 @@ where
             return false;
         }
         self.iter().all(|op| match op {
-            SomeLeft(l) => other.get_right(l).is_none(),
-            SomeRight(r) => other.get_left(r).is_none(),
+            SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),
+            SomeRight(r) => other.contains_right(r) && !other.is_right_paired(r),
             SomeBoth(l, r) => other.are_paired(l, r),
             _ => {
                 unreachable!("There has to be at least one item.")
-- 
2.43.0


From a51146fa16b3dae0f8770915d115757c595c462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 12/18] fix: size_hint of the paired and unpaired iterators of
 PartialCycleMap is exact

---
 src/partial_cycle_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index d0ad55d..7400ab5 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2138,7 +2138,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        (self.len(), Some(self.len()))
     }
 }
 
@@ -2218,7 +2218,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        (self.len(), Some(self.len()))
     }
 }
 
-- 
2.43.0


From 6458c2896b0e5465c7eab4594f18d7495ad7d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 13/18] fix: GroupMap::swap_right and swap_right_remove move
 the group completely and never store an item twice

---
 src/group_map.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..9f52f84 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -475,22 +475,32 @@ where
             None => {
                 self.insert_right(new);
             }
-            Some(r) => {
+            // The items are equal, so the group doesn't have to move
+            Some(r) if r.value == new => {
+                r.value = new;
+            }
+            Some(_) => {
+                // An item that is equal to the new item is replaced
+                self.remove_right(&new);
+                let r = self
+                    .right_set
+                    .get_mut(old_hash, equivalent_key_right(old))
+                    .unwrap();
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+                let new_id = self.right_counter;
                 let item = RightItem {
                     value: new,
                     pairs: set.clone(),
-                    id: self.right_counter,
+                    id: new_id,
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                    let left = self.left_set.get_mut(hash, left_with_left_id(id)).unwrap();
+                    left.hash = new_hash;
+                    left.r_id = new_id;
                 }
             }
         }
@@ -523,21 +533,23 @@ where
                 None
             }
             Some(mut r) => {
+                // An item that is equal to the new item is replaced
+                self.remove_right(&new);
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+                let new_id = self.right_counter;
                 let item = RightItem {
                     value: new,
                     pairs: set.clone(),
-                    id: self.right_counter,
+                    id: new_id,
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                    let left = self.left_set.get_mut(hash, left_with_left_id(id)).unwrap();
+                    left.hash = new_hash;
+                    left.r_id = new_id;
                 }
                 Some(r.value)
             }
-- 
2.43.0


From 6699b8d0cf13cc2bb19329be467fb0e9bb643818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 14/18] fix: GroupMap::retain_paired removes the dropped items
 from their groups

---
 src/group_map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 9f52f84..e55e80a 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -995,7 +995,14 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            let left = self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(left) = left {
+                self.right_set
+                    .get_mut(left.hash, right_with_right_id(left.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From 089910fe45b690cc24694ddfa7b959a469cd5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 15/18] fix: GroupMap equality notices missing items

---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index e55e80a..dbd37b1 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1084,12 +1084,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From 10b183b8e6bac4977266ab9d59e8c928be2940d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 16/18] fix: a cloned GroupMap iterator continues within the
 current group

---
 src/group_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index dbd37b1..30af03a 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1333,7 +1333,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
-- 
2.43.0


From 31baca51d124d53dbbc42c47456ba9566e154696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 17/18] fix: size_hint of the GroupMap iterators is exact

---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 30af03a..a2d2ce6 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1396,7 +1396,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        (self.len(), Some(self.len()))
     }
 }
 
@@ -1536,7 +1536,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        (self.len(), Some(self.len()))
     }
 }
 
-- 
2.43.0


From 313ac14066336cfca46c8d6369cb1fba7afd79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 18/18] fix: CycleMap::capacity no longer overstates the room
 when the right set has less

---
 src/cycle_map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index a388e38..383836b 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1037,7 +1037,7 @@ impl<L, R, S> CycleMap<L, R, S> {
 
     /// Returns the number of items that the inner sets can hold without reallocation.
     ///
-    /// Note: Only one value is returned since both sets always have the same capacity.
+    /// Note: Only one value is returned, the capacity that both sets have at least.
     ///
     /// # Examples
     /// ```rust
@@ -1046,8 +1046,8 @@ impl<L, R, S> CycleMap<L, R, S> {
     /// assert!(map.capacity() >= 100);
     /// ```
     pub fn capacity(&self) -> usize {
-        // The size of the sets is always equal
-        self.left_set.capacity()
+        // Removals can leave one set with less room than the other
+        self.left_set.capacity().min(self.right_set.capacity())
     }
 
     /// Returns the number of items in the inner sets.
-- 
2.43.0

