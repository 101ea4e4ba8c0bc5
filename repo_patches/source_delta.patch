From 65ab89d8f5df608c8ac2bf2f0e2def658e2799e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 01/14] fix: EntityManager panicked on ids it never issued

World::exist and World::entity (and the checks of the calls that take an id)
indexed the flag table without a bounds check, so asking about an id above the
largest one issued panicked instead of answering false.
---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..b05a6e9 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -266,7 +266,7 @@ impl EntityManager {
     // Do nothing if entity_id not exist
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
         let entity_id_ = entity_id.get();
-        if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
+        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
             // unwrap safe: in this branch, we must have one entity at least
             let the_last_one_id = self.entities.last().unwrap();
             // move this entity to the end of entities
@@ -279,7 +279,7 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
+        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
         } else {
             false
-- 
2.43.0


From b9fefae4e794843523e7275f0f2fbf210087fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 02/14] fix: the first removed entity was still reported to
 exist

The end of the chain of recyclable ids was marked with a copy of the
'nothing to reuse' flag, Unavailable(0), so the id at the end of the chain
looked alive: exist() was true, entity() gave a handle, and removing it again
was accepted and corrupted the chain and the entity list.
---
 src/entity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index b05a6e9..1a5ac8d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -194,8 +194,8 @@ impl<'a> Entities<'a> {
 
 #[derive(Debug,Copy,Clone)]
 enum EntityFlag{
-    /// store the next available EntityID
-    Available(EntityId),
+    /// store the next available EntityID, None at the end of the chain
+    Available(Option<EntityId>),
     /// store the index of EntityID in entities array
     Unavailable(usize)
 }
@@ -204,8 +204,8 @@ enum EntityFlag{
 pub(in crate) struct EntityManager {
     // entity_flags[0] : Because the ID 0 is not a valid ID,
     //     so the first one can be used to store the last removed ID
-    //     Unavailable(_)      -> there is no entityID for reuse
-    //     Available(EntityID) -> the EntityID
+    //     Available(None)           -> there is no entityID for reuse
+    //     Available(Some(EntityID)) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
 }
@@ -213,7 +213,7 @@ pub(in crate) struct EntityManager {
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
-            entity_flags: vec![EntityFlag::Unavailable(0)],
+            entity_flags: vec![EntityFlag::Available(None)],
             entities: vec![]
         }
     }
@@ -221,7 +221,7 @@ impl EntityManager {
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
-        if let EntityFlag::Available(last_id) = self.entity_flags.first().unwrap() {
+        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
             let last_id = *last_id;
             //we got an id can be reused
             let new_id = self.entity_flags[last_id.get()];
@@ -274,7 +274,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // keep these destroyed ids being a chain
             self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
         }
     }
 
-- 
2.43.0


From 3f4e7d0dcccaf5189a57d1a8eaed3ee54641a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 03/14] fix: SparseSet::remove panicked for the id just past
 its index

The bounds check let an id equal to the length of the index through, so
detaching a component an entity does not have could panic instead of
returning None.
---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From c93614411f05e14d510278a47eb2731a1b7bc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 04/14] fix: a batch attach duplicated components the entities
 already had

SparseSet::add_batch appended without looking whether the entities were
already in the set. Attaching a type twice through Entities left two dense
entries per entity, one of them unreachable: counts, iteration and later
removals were wrong. Overwrite as attaching one at a time does.
---
 src/sparse_set.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..d28c87c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -47,6 +47,14 @@ impl<E,T> SparseSet<E,T>
 
     pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
+        if entities.iter().any(|entity|self.exist(*entity)) {
+            // some of them already exist
+            // overwrite these
+            for (entity,data) in entities.iter().zip(data) {
+                self.add(*entity,data);
+            }
+            return;
+        }
         let start_index = self.entities.len();
         // copy data to dense
         self.entities.extend_from_slice(entities);
-- 
2.43.0


From b29b31938749e5388359fba98b2d380c7555cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 05/14] fix: batch attach left the groups untouched

Entities::attach wrote into the storage without adding the entities to the
groups over it, so group queries missed them, and a later removal or detach
moved the storage as if they were not there.
---
 src/entity.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 1a5ac8d..b331a57 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,12 +166,12 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
+        let mut storage = self.world.raw_storage_write(type_id)
             .expect("Entities:Cannot attach component because components has not been registered.");
         // Safety:
         // sparse_set is SparseSet<EntityId,T>
         let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
+            storage.downcast_mut::<SparseSet<EntityId,T>>()
         };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
@@ -180,6 +180,30 @@ impl<'a> Entities<'a> {
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
         sparse_set.add_batch(&ids,components);
+        drop(storage);
+        // the entities may have joined some groups
+        for mut group in self.world.groups(type_id) {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = self.world.raw_storage_write(type_b).unwrap();
+                    ids.iter().for_each(|id|data.add(*id,&mut comp_a,&mut comp_b));
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                    let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                    ids.iter().for_each(|id|data.add(*id,&mut comp_a,&comp_b));
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = self.world.raw_storage_read(type_a).unwrap();
+                    let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                    ids.iter().for_each(|id|data.add(*id,&comp_a,&comp_b));
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From 4dda87d0f766a8ee2a2afa00f6c4db7929713eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 06/14] fix: non-owning group queries used stale storage
 indices

A non-owning group remembers where in the two storages the components were
when the entity joined. Any later detach, removal or owning group moves them,
after which the group's queries returned other entities' components or read
out of bounds. Look the components up by entity instead.
---
 src/group/non_owning/mod.rs   |   2 +
 src/group/non_owning/query.rs | 106 +++++++++++++++-------------------
 2 files changed, 49 insertions(+), 59 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..4bacb47 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,6 +13,8 @@ pub use query::{
 
 
 pub struct NonOwningData {
+    // The indices are those at the time the entity joined. The storages move their
+    // components afterwards, so these cannot be used to get components.
     sparse_set : SparseSet<EntityId,(usize,usize)>,
     type_a : TypeId,
     type_b : TypeId
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..303821f 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -80,12 +80,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -111,14 +111,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -138,9 +138,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -148,12 +145,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -235,8 +232,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -245,12 +242,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -276,14 +273,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
             // Safe here, because index stored in group is valid.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -303,9 +300,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -313,12 +307,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -400,8 +394,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -410,12 +404,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -441,14 +435,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -468,9 +462,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -478,12 +469,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -566,8 +557,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -576,12 +567,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -607,14 +598,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -634,9 +625,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -644,12 +632,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because all entities in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
-- 
2.43.0


From 8f16ecfe019975cd15b3cbdaa76c20534980f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 07/14] fix: removing an entity left it in groups sharing a
 component

remove_entity took the components out of the storages of the first group
before leaving the next one. A second group over one of them then no longer
recognised the entity as a member and kept it: its queries read out of bounds
or panicked, and later changes to the storages did. Leave every group first,
then remove the components.
---
 src/world.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..0f77854 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -111,7 +111,8 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
+        // remove entity in all groups before any of its components is removed,
+        // because groups can share a component
         for mut group in groups {
             match &mut *group{
                 Group::FullOwning(data) => {
@@ -119,15 +120,12 @@ impl World {
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +135,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in its storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
-- 
2.43.0


From b6538d1f1d01487a794a53400b65988d429a9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 08/14] fix: a rejected group over an unregistered component
 stayed in the world

make_group pushed the group before finding out that one of its storages does
not exist. After the panic the half-made group made attaching, detaching and
removing panic too. Check the registration first.
---
 src/world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 0f77854..c9ebc0a 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -255,10 +255,14 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if component has not been registered.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
         let group = group.into();
+        let (type_a,type_b) = group.types();
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because component has not been registered");
         assert!(
             {
                 let mut ok = true;
-- 
2.43.0


From 7ebdc4b097bbf2badd6a680c23b0e2df441f77b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 09/14] fix: making an owning group of one component twice hung

full_owning::<A,A>() and partial_owning::<A,A>() lock the storage of A twice,
so make_group never returned. Reject such groups like other impossible ones.
---
 src/world.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index c9ebc0a..9078688 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -256,6 +256,7 @@ impl World {
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
     /// * Panic if component has not been registered.
+    /// * Panic if group owns one of its components and both are the same.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -263,6 +264,8 @@ impl World {
         let (type_a,type_b) = group.types();
         assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                 "World: Cannot make group because component has not been registered");
+        assert!(type_a != type_b || group.owning().is_empty(),
+                "World: Cannot make group because it owns the same component twice");
         assert!(
             {
                 let mut ok = true;
-- 
2.43.0


From 259333935094525c925cee90e0893d7d316e8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 10/14] fix: group queries locked storages before the group and
 could deadlock

Attaching and detaching lock the group first and then its storages, so a
group query on another thread holding the storages and waiting for the
group never got it.
---
 src/group/full_owning/query.rs    | 20 ++++++++++++--------
 src/group/non_owning/query.rs     | 20 ++++++++++++--------
 src/group/partial_owning/query.rs | 20 ++++++++++++--------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..885606a 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +158,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +175,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +293,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +310,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +427,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +444,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 303821f..fca589a 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -186,6 +187,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -200,8 +204,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -348,6 +350,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -362,8 +367,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -511,6 +514,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -525,8 +531,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..b682e9e 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +166,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +183,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +310,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +327,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +452,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // the group is locked before the storages, as in attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +469,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From 358b567c29ead2c915153252d93d5ccd7ffebf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 11/14] fix: an attach racing a detach left groups out of step
 with storages

The storage change and the group update of attach and detach were not
under one lock, so another thread could change the component in between.
Keep the groups locked until both are done.
---
 src/entity.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index b331a57..d20620a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -40,6 +40,8 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "Entity:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
+        // the groups stay locked until the component has joined them
+        let groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -50,7 +52,7 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in world.groups(type_id) {
+        for mut group in groups {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -83,8 +85,10 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // the groups stay locked until the component is removed
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -166,6 +170,8 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
+        // the groups stay locked until the components have joined them
+        let groups = self.world.groups(type_id);
         let mut storage = self.world.raw_storage_write(type_id)
             .expect("Entities:Cannot attach component because components has not been registered.");
         // Safety:
@@ -182,7 +188,7 @@ impl<'a> Entities<'a> {
         sparse_set.add_batch(&ids,components);
         drop(storage);
         // the entities may have joined some groups
-        for mut group in self.world.groups(type_id) {
+        for mut group in groups {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-- 
2.43.0


From d948d59691a5f1502a846d4740fb2b0718f72b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 12/14] fix: removing an entity raced other calls on it and
 deadlocked

The entity stayed usable while its components were being removed, so that
two removals both succeeded, or a component attached meanwhile outlived
the entity and came with its reused id. The storages were also locked all
at once in an arbitrary order. Retire the entity first, lock the storages
one at a time and let the id be reused at the end.
---
 src/entity.rs | 24 +++++++++++++++++++++---
 src/world.rs  | 24 ++++++++----------------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index d20620a..c36e3a8 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -294,7 +294,16 @@ impl EntityManager {
     }
     // remove entity id
     // Do nothing if entity_id not exist
+    #[allow(dead_code)]
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
+        if self.retire(entity_id) {
+            self.recycle(entity_id);
+        }
+    }
+
+    // first half of removing: the entity does not exist any more
+    // Return false if entity_id not exist
+    pub(in crate) fn retire(&mut self,entity_id : EntityId) -> bool {
         let entity_id_ = entity_id.get();
         if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
             // unwrap safe: in this branch, we must have one entity at least
@@ -302,12 +311,21 @@ impl EntityManager {
             // move this entity to the end of entities
             self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
             self.entities.swap_remove(index);
-            // keep these destroyed ids being a chain
-            self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
+            // not in the chain yet
+            self.entity_flags[entity_id_] = EntityFlag::Available(None);
+            true
+        } else {
+            false
         }
     }
 
+    // second half of removing: the id of a retired entity can be reused
+    pub(in crate) fn recycle(&mut self,entity_id : EntityId) {
+        // keep these destroyed ids being a chain
+        self.entity_flags[entity_id.get()] = self.entity_flags[0];
+        self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
+    }
+
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
         if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
diff --git a/src/world.rs b/src/world.rs
index 9078688..18894a7 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -95,7 +95,9 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // the entity dies at once, for every other thread,
+        // but its id is reused only after its components are gone
+        assert!(self.entity_manager.write().retire(entity_id),
                 "World:Cannot remove a non-exists entity");
         // find all groups need remove 
         let mut groups = vec![];
@@ -135,25 +137,15 @@ impl World {
                 },
             }
         }
-        // remove entity in its storages
-        let mut storages = vec![];
+        // remove entity in its storages, locking one at a time
         for storage in self.components.values() {
-            let need_remove = {
-                let storage = storage.read();
-                storage.has(entity_id)
-            };
+            let need_remove = storage.read().has(entity_id);
             if need_remove {
-                storages.push(storage.write());
+                storage.write().remove(entity_id);
             }
         }
-        for mut storage in storages {
-            storage.remove(entity_id);
-        }
-        // remove entity from manager
-        {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
-        }
+        // the id can be reused now
+        self.entity_manager.write().recycle(entity_id);
     }
 
     /// Get lock guard of raw component storage,
-- 
2.43.0


From a47634e9370554bd8ad1ffdefcc0cf426842223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 13/14] fix: creating an entity could panic when its id was
 removed at once

The new entity was locked only after the entity manager had been
released, so a thread still holding the reused id could remove it first.
---
 src/world.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 18894a7..9395ea9 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,22 +74,21 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // the entity cannot be removed before it is returned
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
+        Entity::new(self,entity_manager,id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // the entities cannot be removed before they are returned
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
         Entities::new(self,ids,entity_manager)
     }
 
-- 
2.43.0


From 8cd851a643249effdedaac5511ac2374667cea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:47 +0000
Subject: [PATCH 14/14] fix: a group could only be made of Copy components

---
 src/group/full_owning/mod.rs    | 9 ++++++++-
 src/group/non_owning/mod.rs     | 9 ++++++++-
 src/group/partial_owning/mod.rs | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/group/full_owning/mod.rs b/src/group/full_owning/mod.rs
index 30ed8ba..56e5c45 100644
--- a/src/group/full_owning/mod.rs
+++ b/src/group/full_owning/mod.rs
@@ -142,12 +142,19 @@ impl FullOwningData {
     }
 }
 
-#[derive(Clone,Copy)]
 pub struct FullOwning<A,B>{
     _marker_a : PhantomData<A>,
     _marker_b : PhantomData<B>
 }
 
+// not derived, the components need not be Copy
+impl<A,B> Clone for FullOwning<A,B> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<A,B> Copy for FullOwning<A,B> {}
+
 impl<A : Component,B : Component> FullOwning<A,B> {
     pub(in crate) fn new() -> Self {
         FullOwning {
diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index 4bacb47..d001ae2 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -120,12 +120,19 @@ impl NonOwningData {
     }
 }
 
-#[derive(Clone, Copy)]
 pub struct NonOwning<A,B>{
     _marker_a : PhantomData<A>,
     _marker_b : PhantomData<B>
 }
 
+// not derived, the components need not be Copy
+impl<A,B> Clone for NonOwning<A,B> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<A,B> Copy for NonOwning<A,B> {}
+
 impl<A : Component,B : Component> NonOwning<A,B> {
     pub(in crate) fn new() -> Self {
         NonOwning {
diff --git a/src/group/partial_owning/mod.rs b/src/group/partial_owning/mod.rs
index 3d236af..5e022be 100644
--- a/src/group/partial_owning/mod.rs
+++ b/src/group/partial_owning/mod.rs
@@ -114,12 +114,19 @@ impl PartialOwningData {
 }
 
 // Owning A & Non-Owning B
-#[derive(Clone, Copy)]
 pub struct PartialOwning<A,B> {
     _marker_a : PhantomData<A>,
     _marker_b : PhantomData<B>
 }
 
+// not derived, the components need not be Copy
+impl<A,B> Clone for PartialOwning<A,B> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<A,B> Copy for PartialOwning<A,B> {}
+
 impl<A : Component,B : Component> PartialOwning<A,B> {
     pub(in crate) fn new() -> Self {
         PartialOwning {
-- 
2.43.0

