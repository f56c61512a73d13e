From f6d1f3ce848969e5d717a2c578e3c25987d15d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 01/12] fix: reading all properties of the vertex with the
 maximum UUID panicked in the memory datastore

all_vertex_properties_for_vertex computed its upper bound with
next_uuid().unwrap(), which has no value for the maximum UUID. The panic
also poisoned the datastore's mutex, so every later operation panicked.
---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..832206d 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From 91e7fb77226bcb24d4ba6579677929b7828d19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 02/12] fix: deleting a vertex left its inbound edges behind in
 the RocksDB datastore

The edges found through the reversed range are reversed, so they have to be
turned back before they are handed to EdgeManager::delete.
---
 lib/src/rdb/managers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..5f460c5 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -118,7 +118,7 @@ impl<'a> VertexManager<'a> {
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                 let edge = item?;
                 debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
             }
         }
 
-- 
2.43.0


From b5b2f2be5ace6d57dacdcd43f8b9244a3104e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 03/12] fix: the memory datastore kept index entries of deleted
 properties in release builds

The removal from the index was the argument of a debug_assert!, so it did
not happen at all without debug assertions.
---
 lib/src/memory/datastore.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 832206d..f88ffc5 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -264,10 +264,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
+                    let removed = property_container
                         .get_mut(&property_value)
                         .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    debug_assert!(removed);
                 }
             }
         }
@@ -279,10 +280,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
+                    let removed = property_container
                         .get_mut(&property_value)
                         .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                        .remove(&IndexedPropertyMember::Edge(property_edge));
+                    debug_assert!(removed);
                 }
             }
         }
-- 
2.43.0


From 6d43f010481ca7774e6f6a5e01e200904ca4ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 04/12] fix: overwriting an indexed property within one bulk
 insert left a stale index entry in the RocksDB datastore

---
 lib/src/rdb/datastore.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..5b2d272 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -283,6 +283,12 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // Indexed values that are set earlier in this batch. They aren't in
+        // the database yet, so if they're overwritten by a later item, their
+        // index entries have to be removed explicitly.
+        let mut pending_vertex_values: HashMap<(Uuid, Identifier), Json> = HashMap::new();
+        let mut pending_edge_values: HashMap<(Edge, Identifier), Json> = HashMap::new();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -292,10 +298,22 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
                 BulkInsertItem::VertexProperty(id, ref name, ref value) => {
+                    if indexed_properties.contains(name) {
+                        if let Some(previous) = pending_vertex_values.insert((id, *name), value.clone()) {
+                            self.vertex_property_value_manager
+                                .delete(&mut batch, id, *name, &previous);
+                        }
+                    }
                     self.vertex_property_manager
                         .set(&mut batch, &indexed_properties, id, *name, value)?;
                 }
                 BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
+                    if indexed_properties.contains(name) {
+                        if let Some(previous) = pending_edge_values.insert((edge.clone(), *name), value.clone()) {
+                            self.edge_property_value_manager
+                                .delete(&mut batch, edge, *name, &previous);
+                        }
+                    }
                     self.edge_property_manager
                         .set(&mut batch, &indexed_properties, edge, *name, value)?;
                 }
-- 
2.43.0


From 6885d78afee23b220086a8669ba799d61d69d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 05/12] fix: property value queries on RocksDB returned
 elements whose value merely has the same hash

---
 lib/src/rdb/datastore.rs | 26 +++++++++++++++++++-------
 lib/src/rdb/managers.rs  | 18 ++++++++++++++++++
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 5b2d272..c57dda3 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -90,6 +90,15 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         if self.indexed_properties.read().unwrap().contains(&name) {
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+            let value = value.clone();
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value) {
+                    Ok(true) => Some(Ok(id)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -149,13 +158,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_value(name, value)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_value(name, value);
+            let value = value.clone();
+            let iter = iter.filter_map(move |item| match item {
+                Ok((_, _, e)) => match self.edge_property_manager.has_value(&e, name, &value) {
+                    Ok(true) => Some(Ok(e)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 5f460c5..ae370f6 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -340,6 +340,15 @@ impl<'a> VertexPropertyManager<'a> {
         }
     }
 
+    /// Checks whether a property currently has the given value. Since the
+    /// value index only holds hashes, this is used to rule out collisions.
+    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value: &models::Json) -> Result<bool> {
+        match self.db.get_cf(&self.cf, self.key(vertex_id, name))? {
+            Some(value_bytes) => Ok(value_bytes == serde_json::to_vec(value)?),
+            None => Ok(false),
+        }
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
@@ -454,6 +463,15 @@ impl<'a> EdgePropertyManager<'a> {
         }
     }
 
+    /// Checks whether a property currently has the given value. Since the
+    /// value index only holds hashes, this is used to rule out collisions.
+    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value: &models::Json) -> Result<bool> {
+        match self.db.get_cf(&self.cf, self.key(edge, name))? {
+            Some(value_bytes) => Ok(value_bytes == serde_json::to_vec(value)?),
+            None => Ok(false),
+        }
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
-- 
2.43.0


From 741a8ba6ab76beebfe036f958a72822392f901a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 06/12] fix: numbers could be equal with different hashes, and
 equality and ordering of large numbers were not transitive

---
 lib/src/models/json.rs | 61 +++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 37 deletions(-)

diff --git a/lib/src/models/json.rs b/lib/src/models/json.rs
index 4e35657..44c16ca 100644
--- a/lib/src/models/json.rs
+++ b/lib/src/models/json.rs
@@ -1,5 +1,4 @@
 use std::cmp::Ordering;
-use std::convert::TryFrom;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
@@ -56,46 +55,34 @@ fn hash<H: Hasher>(value: &serde_json::Value, state: &mut H) {
     }
 }
 
+/// Compares an integer to a float by their exact numeric values. An integer is
+/// ordered before a float of the same numeric value, because they hash
+/// differently, and so must not be equal.
+fn cmp_integer_to_float(integer: i128, float: f64) -> Ordering {
+    // Casting saturates, but only for values that are far outside the range of
+    // any JSON integer
+    match integer.cmp(&(float.trunc() as i128)) {
+        Ordering::Equal if float.fract() < 0.0 => Ordering::Greater,
+        Ordering::Equal => Ordering::Less,
+        non_eq => non_eq,
+    }
+}
+
+fn cmp_numbers(first: &serde_json::Number, second: &serde_json::Number) -> Ordering {
+    let as_integer = |n: &serde_json::Number| n.as_i64().map(i128::from).or_else(|| n.as_u64().map(i128::from));
+    match (as_integer(first), as_integer(second)) {
+        (Some(v1), Some(v2)) => v1.cmp(&v2),
+        (Some(v1), None) => cmp_integer_to_float(v1, second.as_f64().unwrap()),
+        (None, Some(v2)) => cmp_integer_to_float(v2, first.as_f64().unwrap()).reverse(),
+        (None, None) => first.as_f64().unwrap().total_cmp(&second.as_f64().unwrap()),
+    }
+}
+
 fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<Ordering> {
     match (first, second) {
         (serde_json::Value::Null, serde_json::Value::Null) => Some(Ordering::Equal),
         (serde_json::Value::Bool(v1), serde_json::Value::Bool(v2)) => v1.partial_cmp(v2),
-        (serde_json::Value::Number(v1), serde_json::Value::Number(v2)) => {
-            if v1.is_i64() {
-                let v1 = v1.as_i64().unwrap();
-                if v2.is_i64() {
-                    v1.partial_cmp(&v2.as_i64().unwrap())
-                } else if v2.is_u64() {
-                    match i64::try_from(v2.as_u64().unwrap()) {
-                        Ok(v2) => v1.partial_cmp(&v2),
-                        Err(_) => Some(Ordering::Less),
-                    }
-                } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
-                }
-            } else if v1.is_u64() {
-                let v1 = v1.as_u64().unwrap();
-                if v2.is_i64() {
-                    match u64::try_from(v2.as_i64().unwrap()) {
-                        Ok(v2) => v1.partial_cmp(&v2),
-                        Err(_) => Some(Ordering::Greater),
-                    }
-                } else if v2.is_u64() {
-                    v1.partial_cmp(&v2.as_u64().unwrap())
-                } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
-                }
-            } else {
-                let v1 = v1.as_f64().unwrap();
-                if v2.is_i64() {
-                    v1.partial_cmp(&(v2.as_i64().unwrap() as f64))
-                } else if v2.is_u64() {
-                    v1.partial_cmp(&(v2.as_u64().unwrap() as f64))
-                } else {
-                    v1.partial_cmp(&v2.as_f64().unwrap())
-                }
-            }
-        }
+        (serde_json::Value::Number(v1), serde_json::Value::Number(v2)) => Some(cmp_numbers(v1, v2)),
         (serde_json::Value::String(v1), serde_json::Value::String(v2)) => v1.partial_cmp(v2),
         (serde_json::Value::Array(v1), serde_json::Value::Array(v2)) => {
             partial_cmp_by(v1.iter(), v2.iter(), partial_cmp)
-- 
2.43.0


From 7a6ebad1959c6bf148dea1cd314f044e563cae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 07/12] fix: deserializing an identifier did not check that it
 is valid

---
 lib/src/models/identifiers.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..6d55e34 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -96,8 +96,7 @@ impl<'de> Deserialize<'de> for Identifier {
         D: Deserializer<'de>,
     {
         let v: String = Deserialize::deserialize(deserializer)?;
-        let id = unsafe { Identifier::new_unchecked(v) };
-        Ok(id)
+        Identifier::new(v).map_err(serde::de::Error::custom)
     }
 }
 
-- 
2.43.0


From cf79796e87a38a9bf896388c9afcd0c3937aa739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 08/12] fix: a failed write while indexing a property left the
 RocksDB datastore believing it is indexed

---
 lib/src/rdb/datastore.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index c57dda3..d4690fe 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -338,13 +338,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+        if indexed_properties.contains(&name) {
             return Ok(());
         }
 
+        let mut new_indexed_properties = indexed_properties.clone();
+        new_indexed_properties.insert(name);
+
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
         for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
             let vertex = item?;
@@ -363,6 +366,9 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+
+        // Only once the index entries are stored
+        *indexed_properties = new_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From b44d935f6284cd73a3e18695362115b7a303e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 09/12] fix: a RocksDB database whose creation was interrupted
 could not be opened any more

---
 lib/src/rdb/datastore.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index d4690fe..c2ec843 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -414,13 +414,10 @@ impl RocksdbDatastore {
         let db = match DB::open_cf(&opts, path, CF_NAMES) {
             Ok(db) => db,
             Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
-                }
-
-                db
+                // Also completes a creation that was interrupted
+                let mut opts = opts.clone();
+                opts.create_missing_column_families(true);
+                DB::open_cf(&opts, path, CF_NAMES)?
             }
         };
 
@@ -444,13 +441,10 @@ impl RocksdbDatastore {
         let db = match DB::open_cf(opts, path, CF_NAMES) {
             Ok(db) => db,
             Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
-                }
-
-                db
+                // Also completes a creation that was interrupted
+                let mut opts = opts.clone();
+                opts.create_missing_column_families(true);
+                DB::open_cf(&opts, path, CF_NAMES)?
             }
         };
 
-- 
2.43.0


From 182279ad1ff85b6d4ac55194dd095fa2490bb4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 10/12] fix: a failed write while syncing the memory datastore
 replaced the image with a truncated one

---
 lib/src/memory/datastore.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index f88ffc5..a8a26e8 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
@@ -297,6 +297,8 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                // Dropping the writer would ignore errors
+                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
             }
             temp_path
                 .persist(persist_path)
-- 
2.43.0


From 8188307efa780003c3008173e09d0efb8973a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 11/12] fix: an edge direction that is not defined was read as
 outbound

---
 proto/src/converters.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proto/src/converters.rs b/proto/src/converters.rs
index dcfe8ce..99869e8 100644
--- a/proto/src/converters.rs
+++ b/proto/src/converters.rs
@@ -17,6 +17,7 @@ pub enum ConversionError {
     Uuid { inner: UuidError },
     Validation { inner: ValidationError },
     NoneField { name: String },
+    UnknownEdgeDirection { value: i32 },
     UnexpectedResponseType,
 }
 
@@ -38,6 +39,7 @@ impl fmt::Display for ConversionError {
             ConversionError::Uuid { ref inner } => write!(f, "uuid conversion failed: {inner}"),
             ConversionError::Validation { ref inner } => write!(f, "validation conversion failed: {inner}"),
             ConversionError::NoneField { ref name } => write!(f, "proto field '{name}' should not be none"),
+            ConversionError::UnknownEdgeDirection { value } => write!(f, "unknown edge direction '{value}'"),
             ConversionError::UnexpectedResponseType => write!(f, "unexpected response type"),
         }
     }
@@ -300,7 +302,9 @@ impl TryInto<indradb::Query> for crate::Query {
             }
 
             crate::QueryVariant::Pipe(q) => {
-                let direction = q.direction().into();
+                let direction = crate::EdgeDirection::try_from(q.direction)
+                    .map_err(|_| ConversionError::UnknownEdgeDirection { value: q.direction })?
+                    .into();
                 let limit = q.limit;
                 let t = q.t.map(|t| t.try_into()).transpose()?;
                 let inner = required_field("inner", q.inner)?;
-- 
2.43.0


From 2ac920787cfe6b2c5b24cbbc538db02b0e4d38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 12/12] fix: concurrent operations on the RocksDB datastore
 interfered with each other

---
 lib/src/rdb/datastore.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index c2ec843..e0d4ba1 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError, RwLock};
 
 use super::managers::*;
 use crate::errors::Result;
@@ -23,6 +23,7 @@ const CF_NAMES: [&str; 8] = [
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: &'a Mutex<()>,
     vertex_manager: VertexManager<'a>,
     edge_manager: EdgeManager<'a>,
     edge_range_manager: EdgeRangeManager<'a>,
@@ -35,6 +36,12 @@ pub struct RocksdbTransaction<'a> {
 }
 
 impl<'a> RocksdbTransaction<'a> {
+    /// Every write depends on what it reads first, so concurrent writes have
+    /// to happen one at a time.
+    fn lock_writes(&self) -> MutexGuard<'a, ()> {
+        self.write_lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     fn vertex_ids_from_property_value_iterator(
         &'a self,
         iter: impl Iterator<Item = Result<VertexPropertyValueKey>> + 'a,
@@ -203,6 +210,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -215,6 +223,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -229,6 +238,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -242,6 +252,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -268,6 +279,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
+        let _guard = self.lock_writes();
         if self.vertex_manager.exists(vertex.id)? {
             Ok(false)
         } else {
@@ -279,6 +291,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
+        let _guard = self.lock_writes();
         if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
             Ok(false)
         } else {
@@ -292,6 +305,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     // We override the default `bulk_insert` implementation because further
     // optimization can be done by using `WriteBatch`s.
     fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -337,6 +351,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
+        let _guard = self.lock_writes();
         let mut indexed_properties = self.indexed_properties.write().unwrap();
         if indexed_properties.contains(&name) {
             return Ok(());
@@ -373,9 +388,14 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for id in vertices.into_iter() {
+            // It may have been deleted since it was looked up
+            if !self.vertex_manager.exists(id)? {
+                continue;
+            }
             self.vertex_property_manager
                 .set(&mut batch, &indexed_properties, id, name, value)?;
         }
@@ -384,9 +404,14 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
+        let _guard = self.lock_writes();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for edge in edges.into_iter() {
+            // It may have been deleted since it was looked up
+            if !self.edge_range_manager.contains(&edge)? {
+                continue;
+            }
             self.edge_property_manager
                 .set(&mut batch, &indexed_properties, &edge, name, value)?;
         }
@@ -400,6 +425,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 pub struct RocksdbDatastore {
     db: Arc<DB>,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: Mutex<()>,
 }
 
 impl RocksdbDatastore {
@@ -427,6 +453,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Mutex::new(()),
         }))
     }
 
@@ -454,6 +481,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Mutex::new(()),
         }))
     }
 
@@ -507,6 +535,7 @@ impl Datastore for RocksdbDatastore {
         RocksdbTransaction {
             db: &self.db,
             indexed_properties: self.indexed_properties.clone(),
+            write_lock: &self.write_lock,
             vertex_manager: VertexManager::new(&self.db),
             edge_manager: EdgeManager::new(&self.db),
             edge_range_manager: EdgeRangeManager::new(&self.db),
-- 
2.43.0

