From e8ba305563ca402b9e8c493de3c25f236d86596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 01/25] fix: exact lookup of the maximum key descends past the
 end of the level

---
 src/rust/fcb_core/src/static_btree/stree.rs | 25 +++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..53d6f7f 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -763,7 +763,15 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        // The rightmost separator of a level is the maximum key and has no
+                        // right sibling, so an exact match on it stays in its own child.
+                        let child = node_items[index].offset as usize;
+                        let right = child + node_size;
+                        if right < self.level_bounds[level - 1].end {
+                            queue.push_back((right, level - 1));
+                        } else {
+                            queue.push_back((child, level - 1));
+                        }
                     }
                     Err(index) => {
                         if index == 0 {
@@ -860,7 +868,15 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        // The rightmost separator of a level is the maximum key and has no
+                        // right sibling, so an exact match on it stays in its own child.
+                        let child = node_items[index].offset as usize;
+                        let right = child + node_size;
+                        if right < level_bounds[level - 1].end {
+                            queue.push_back((right, level - 1));
+                        } else {
+                            queue.push_back((child, level - 1));
+                        }
                     }
                     Err(index) => {
                         if index == 0 {
@@ -1279,7 +1295,12 @@ impl<K: Key> Stree<K> {
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
+                        // The rightmost separator of a level is the maximum key and has no
+                        // right sibling, so an exact match on it stays in its own child.
                         _offset = node_items[idx].offset as usize + node_size;
+                        if _offset >= level_bounds[node_range.level - 1].end {
+                            _offset = node_items[idx].offset as usize;
+                        }
                     }
                     Err(idx) => {
                         if idx == 0 {
-- 
2.43.0


From 572ef56085674bc91b1e873bf59f5b77c7e03078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:30 +0000
Subject: [PATCH 02/25] fix: report write errors of bool and string index keys

---
 src/rust/fcb_core/src/static_btree/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..019ac71 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -375,7 +375,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8]).map_err(Error::from)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -448,7 +448,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0).map_err(Error::from)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
-- 
2.43.0


From d45c5a7af0d6e6b06da2035b08e76e15bf86c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:30 +0000
Subject: [PATCH 03/25] fix: minimum datetime key excludes dates before 1970

---
 src/rust/fcb_core/src/static_btree/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 019ac71..5cc36c7 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -241,7 +241,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From 89d28ac9f10786a20c5f041012c5007b310f8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 04/25] fix: open accepts a header that fails FlatBuffers
 verification

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From fc0c1f93f198ce187fa8787eb474655f18e0a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 05/25] fix: header feature count differs from the features
 written

---
 src/rust/fcb_core/src/writer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..1b7861d 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -260,6 +260,9 @@ impl<'a> FcbWriter<'a> {
             }
         }
 
+        // the header counts the features actually written
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
+
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
-- 
2.43.0


From 20abc59e4c5c2f74db1a85a1a03072989b26da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 06/25] fix: writing panics when no feature has an indexed
 attribute

---
 src/rust/fcb_core/src/writer/attr_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..2e2c0cf 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -36,6 +36,11 @@ where
         }
     }
 
+    // no feature has the attribute, so there is nothing to index
+    if entries.is_empty() {
+        return Err(Error::AttributeIndexNotFound);
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
-- 
2.43.0


From 15919bbc330392109a7afa765f09df3044cf3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 07/25] fix: null attribute values are indexed as default
 values

---
 src/rust/fcb_core/src/writer/attribute.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..b6d4357 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -250,6 +250,11 @@ pub fn attribute_to_index_entries(
             }
         };
 
+        // a null value is not stored, so it is not indexed either
+        if val.is_null() {
+            continue;
+        }
+
         let index_coltype = schema.get(attr);
         if let Some((index, coltype)) = index_coltype {
             match *coltype {
-- 
2.43.0


From e3f4aeea5547512edf9f41d3d67d999c9e5c4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 08/25] fix: sequential attribute query looks columns up by
 position

---
 src/rust/fcb_core/src/reader/attr_query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..ef988eb 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -445,7 +445,12 @@ impl<R: Read> FcbReader<R> {
 
         for attr_info in attr_index_entries.iter() {
             let column_idx = attr_info.index();
-            let field_name = columns[column_idx as usize].name().to_string();
+            let field_name = columns
+                .iter()
+                .find(|c| c.index() == column_idx)
+                .ok_or(Error::AttributeIndexNotFound)?
+                .name()
+                .to_string();
 
             // Only process this attribute if it's used in the query
             if query_fields.contains(&field_name) {
-- 
2.43.0


From 6eb497ffa4c947b07a0362f65a45f1d5274fae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 09/25] fix: attribute query yields a feature once per matching
 object

---
 src/rust/fcb_core/src/reader/attr_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ef988eb..485cda9 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -389,6 +389,8 @@ impl<R: Read + Seek> FcbReader<R> {
         // Sort the results
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        // several objects of one feature can match
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
@@ -475,6 +477,8 @@ impl<R: Read> FcbReader<R> {
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
         result.sort();
+        // several objects of one feature can match
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
-- 
2.43.0


From 0da773872a0eb2685a7087195e86961d2e61d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 10/25] fix: files with an indexed attribute of type Long
 cannot be queried

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++++++++
 src/rust/fcb_core/src/reader/attr_query.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..882d94d 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -329,6 +329,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::Float => {
                     let index = HttpIndex::<Float<f32>>::new(
                         attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 485cda9..13cf9a5 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -42,6 +42,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_i32_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::Float => {
                     let index = MemoryIndex::<Float<f32>>::from_buf(
                         &mut buf,
@@ -159,6 +167,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_i32_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::Float => {
                 let index = StreamIndex::<Float<f32>>::new(
                     attr_info.num_unique_items() as usize,
-- 
2.43.0


From 8b11f5b30f8a2f544ed0cfb95655b6601543f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 11/25] fix: attribute query over http yields a feature once
 per matching object

---
 src/rust/fcb_core/src/http_reader/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 882d94d..b4eb7bd 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -276,9 +276,12 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             current_index_begin += attr_info.length() as usize;
         }
 
-        let result = http_multi_index
+        let mut result = http_multi_index
             .query(&mut self.client, &query.conditions)
             .await?;
+        // features are read in file order, and several objects of one feature can match
+        result.sort_by_key(|item| item.range.start());
+        result.dedup();
 
         let count = result.len();
 
-- 
2.43.0


From 32e6903e188e57b8a024a12c44c1819d77d43e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 12/25] fix: spatial queries ignore the node size in the header

---
 src/rust/fcb_core/src/http_reader/mod.rs | 3 ++-
 src/rust/fcb_core/src/reader/mod.rs      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index b4eb7bd..92247b0 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -199,6 +199,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             return Err(Error::NoIndex);
         }
         let count = header.features_count() as usize;
+        let index_node_size = header.index_node_size();
         let header_len = self.header_len();
 
         // request up to this many extra bytes if it means we can eliminate an extra request
@@ -209,7 +210,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_len,
             attr_index_size,
             count,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            index_node_size,
             query,
             combine_request_threshold,
         )
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..8e4f276 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -213,7 +213,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let list = PackedRTree::stream_search(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
         )?;
         debug_assert!(
-- 
2.43.0


From d0c4a93235577c320171c2441bb94b0e18fcb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 13/25] fix: MultiSolid and CompositeSolid of one solid lose a
 nesting level

---
 src/rust/fcb_core/src/reader/deserializer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..9217712 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -591,6 +591,16 @@ pub(crate) fn decode_geometry(
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
     let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    // the counts of a single solid do not tell it from a collection of one solid
+    let is_multi_solid = matches!(
+        g.type_(),
+        GeometryType::MultiSolid | GeometryType::CompositeSolid
+    );
+    let boundaries = if is_multi_solid && solids.len() == 1 {
+        CjBoundaries::Nested(vec![boundaries])
+    } else {
+        boundaries
+    };
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
-- 
2.43.0


From 6209280bf5cb4605af9299e1d796d882fc7db6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 14/25] fix: materials of a Solid of one shell and of a
 MultiSolid of one solid change nesting

---
 src/rust/fcb_core/src/reader/deserializer.rs | 24 ++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 9217712..6ef92bb 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,7 +11,7 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
+    MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
     ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
     TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
     WrapMode as CjWrapMode,
@@ -619,11 +619,31 @@ pub(crate) fn decode_geometry(
     };
 
     // Decode material mappings if present
-    let material = if let Some(material_mappings) = g.material() {
+    let mut material = if let Some(material_mappings) = g.material() {
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    // The counts of a single solid decode to the nesting of a Solid when it has several shells,
+    // and to that of a MultiSolid when it has one shell; the geometry type tells which it is.
+    for values in material
+        .iter_mut()
+        .flat_map(|m| m.values_mut())
+        .filter_map(|m| m.values.as_mut())
+    {
+        if let CjMaterialValues::Nested(nested) = values {
+            let of_solids = nested
+                .iter()
+                .any(|v| matches!(v, CjMaterialValues::Nested(_)));
+            if is_multi_solid && !of_solids {
+                *values = CjMaterialValues::Nested(vec![CjMaterialValues::Nested(
+                    std::mem::take(nested),
+                )]);
+            } else if g.type_() == GeometryType::Solid && of_solids && nested.len() == 1 {
+                *values = nested.remove(0);
+            }
+        }
+    }
 
     // Decode texture mappings if present
     let texture = if let Some(texture_mappings) = g.texture() {
-- 
2.43.0


From e72627a1c85643b65ab976f529fe23a6fbf64322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 15/25] fix: textures of a MultiSolid of one solid lose a
 nesting level

---
 src/rust/fcb_core/src/reader/deserializer.rs | 30 +++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 6ef92bb..6db25ba 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,9 +11,10 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
-    ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
+    MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem,
+    Semantics as CjSemantics, TextFormat as CjTextFormat, TextType as CjTextType,
+    TextureObject as CjTexture, TextureValues as CjTextureValues, Transform as CjTransform,
     WrapMode as CjWrapMode,
 };
 
@@ -636,9 +637,9 @@ pub(crate) fn decode_geometry(
                 .iter()
                 .any(|v| matches!(v, CjMaterialValues::Nested(_)));
             if is_multi_solid && !of_solids {
-                *values = CjMaterialValues::Nested(vec![CjMaterialValues::Nested(
-                    std::mem::take(nested),
-                )]);
+                *values = CjMaterialValues::Nested(vec![CjMaterialValues::Nested(std::mem::take(
+                    nested,
+                ))]);
             } else if g.type_() == GeometryType::Solid && of_solids && nested.len() == 1 {
                 *values = nested.remove(0);
             }
@@ -646,11 +647,26 @@ pub(crate) fn decode_geometry(
     }
 
     // Decode texture mappings if present
-    let texture = if let Some(texture_mappings) = g.texture() {
+    let mut texture = if let Some(texture_mappings) = g.texture() {
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    // as for the boundaries, the counts of a single solid do not tell a collection of one solid
+    if let (true, Some(texture_mappings), Some(texture)) =
+        (is_multi_solid, g.texture(), texture.as_mut())
+    {
+        for mapping in texture_mappings.iter() {
+            let single_solid = mapping.solids().is_some_and(|s| s.len() == 1);
+            if let (true, Some(t)) = (
+                single_solid,
+                texture.get_mut(mapping.theme().unwrap_or("theme")),
+            ) {
+                let values = t.values.clone();
+                t.values = CjTextureValues::Nested(vec![values]);
+            }
+        }
+    }
 
     Ok(CjGeometry {
         thetype: g.type_().to_cj(),
-- 
2.43.0


From 852a05e5ec0a222bd8bae3bce8ac5d327ccd0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 16/25] fix: payload entries longer than 32 KiB are dropped
 over http

---
 src/rust/fcb_core/src/static_btree/stree.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 53d6f7f..61b72d5 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -3,6 +3,8 @@ use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
 #[cfg(feature = "http")]
+use byteorder::{LittleEndian, ReadBytesExt};
+#[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use log::{debug, info};
 use std::cmp::{max, min};
@@ -327,9 +329,11 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     let mut fetched_payloads = HashMap::new();
 
     for (start, end) in offset_ranges {
-        // Calculate fetch size to include the complete payload entries
-        // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
+        // Calculate fetch size to include the complete payload entries: they are contiguous, and
+        // each begins with the number of its offsets, so the number of the last one tells the end
+        let count = client.get_range(end, size_of::<u32>()).await?;
+        let count = Cursor::new(count).read_u32::<LittleEndian>()? as usize;
+        let fetch_size = (end - start) + size_of::<u32>() + count * size_of::<Offset>();
 
         let payload_data = client.get_range(start, fetch_size).await?;
 
-- 
2.43.0


From 7ac260d1cb73b9c86a2e8e75a0db92ae21b6dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 17/25] fix: payload prefetch over http requests bytes past the
 end of the file

---
 src/rust/fcb_core/src/static_btree/stree.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 61b72d5..23481ae 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1263,6 +1263,12 @@ impl<K: Key> Stree<K> {
         let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, None);
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
+        // The features follow the index section, so there is no payload beyond their begin
+        let prefetch_size = match feature_begin.checked_sub(payload_data_start) {
+            Some(available) => min(prefetch_size, available),
+            None => prefetch_size,
+        };
+
         // Prefetch a chunk of payload data
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
@@ -1605,6 +1611,12 @@ impl<K: Key> Stree<K> {
         let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5));
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
+        // The features follow the index section, so there is no payload beyond their begin
+        let prefetch_size = match feature_begin.checked_sub(payload_data_start) {
+            Some(available) => min(prefetch_size, available),
+            None => prefetch_size,
+        };
+
         // Prefetch a chunk of payload data
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
-- 
2.43.0


From cd3e8fa12b5c1801f9e6fe4f55676a5a25b7d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 18/25] fix: attribute queries miss matches at a bound equal to
 a separator

---
 .../fcb_core/src/static_btree/query/http.rs   | 33 +++++++++++--------
 .../fcb_core/src/static_btree/query/memory.rs | 16 +++++----
 .../fcb_core/src/static_btree/query/stream.rs | 19 ++++++++---
 .../fcb_core/src/static_btree/query/types.rs  | 12 +++++++
 4 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..6744667 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{include_bound, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -71,6 +71,7 @@ impl<K: Key> HttpIndex<K> {
         start: Option<K>,
         end: Option<K>,
     ) -> Result<Vec<HttpSearchResultItem>> {
+        let open_end = end.is_none();
         let (lower, upper) = match (start, end) {
             (Some(lo), Some(hi)) => (lo, hi),
             (Some(lo), None) => (lo, K::max_value()),
@@ -82,7 +83,7 @@ impl<K: Key> HttpIndex<K> {
             }
         };
 
-        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range(
+        let mut items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range(
             client,
             self.index_begin,
             self.feature_begin,
@@ -94,6 +95,10 @@ impl<K: Key> HttpIndex<K> {
         )
         .await?;
 
+        if open_end {
+            include_bound(&mut items, self.find_exact(client, K::max_value()).await?);
+        }
+
         Ok(items)
     }
 }
@@ -154,11 +159,7 @@ macro_rules! impl_typed_http_search_index {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
                         let all = self
-                            .find_range(
-                                client,
-                                Some(<$key_type>::min_value()),
-                                Some(<$key_type>::max_value()),
-                            )
+                            .find_range(client, Some(<$key_type>::min_value()), None)
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
                         all.into_iter().filter(|x| !eq.contains(x)).collect()
@@ -176,7 +177,11 @@ macro_rules! impl_typed_http_search_index {
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
+                    Operator::Le => {
+                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        include_bound(&mut v, self.find_exact(client, key.clone()).await?);
+                        v
+                    }
                 };
                 Ok(results)
             }
@@ -207,11 +212,7 @@ macro_rules! impl_typed_http_search_index {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
                         let all = self
-                            .find_range(
-                                client,
-                                Some(<$key_type>::min_value()),
-                                Some(<$key_type>::max_value()),
-                            )
+                            .find_range(client, Some(<$key_type>::min_value()), None)
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
                         all.into_iter().filter(|x| !eq.contains(x)).collect()
@@ -229,7 +230,11 @@ macro_rules! impl_typed_http_search_index {
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
+                    Operator::Le => {
+                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        include_bound(&mut v, self.find_exact(client, key.clone()).await?);
+                        v
+                    }
                 };
                 Ok(results)
             }
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..9d180b8 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, SearchIndex};
+use crate::static_btree::query::types::{include_bound, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -77,7 +77,9 @@ impl<K: Key> SearchIndex<K> for MemoryIndex<K> {
             (Some(start_key), None) => {
                 // Find all items >= start_key
                 let results = self.stree.find_range(start_key, K::max_value())?;
-                Ok(results.into_iter().map(|item| item.offset as u64).collect())
+                let mut results = results.into_iter().map(|item| item.offset as u64).collect();
+                include_bound(&mut results, self.find_exact(K::max_value())?);
+                Ok(results)
             }
             (None, Some(end_key)) => {
                 // Find all items <= end_key
@@ -118,9 +120,7 @@ macro_rules! impl_typed_search_index {
                 match condition.operator {
                     Operator::Eq => self.find_exact(key),
                     Operator::Ne => {
-                        let min = <$key_type>::min_value();
-                        let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
+                        let all_items = self.find_range(Some(<$key_type>::min_value()), None)?;
                         let matching_items = self.find_exact(key)?;
                         Ok(all_items
                             .into_iter()
@@ -140,7 +140,11 @@ macro_rules! impl_typed_search_index {
                         Ok(results)
                     }
                     Operator::Ge => self.find_range(Some(key), None),
-                    Operator::Le => self.find_range(None, Some(key)),
+                    Operator::Le => {
+                        let mut results = self.find_range(None, Some(key.clone()))?;
+                        include_bound(&mut results, self.find_exact(key)?);
+                        Ok(results)
+                    }
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..1bfcbc7 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{include_bound, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -99,7 +99,13 @@ impl<K: Key> StreamIndex<K> {
                     start_key,
                     K::max_value(),
                 )?;
-                Ok(results.into_iter().map(|item| item.offset as u64).collect())
+                let mut results = results.into_iter().map(|item| item.offset as u64).collect();
+                reader.seek(SeekFrom::Start(start_position))?;
+                include_bound(
+                    &mut results,
+                    self.find_exact_with_reader(reader, K::max_value())?,
+                );
+                Ok(results)
             }
             (None, Some(end_key)) => {
                 // Find all items <= end_key
@@ -164,7 +170,7 @@ macro_rules! impl_typed_stream_search_index {
                         let all_items = self.find_range_with_reader(
                             reader,
                             Some(<$key_type>::min_value()),
-                            Some(<$key_type>::max_value()),
+                            None,
                         )?;
                         let matching_items = self.find_exact_with_reader(reader, key.clone())?;
                         all_items
@@ -187,7 +193,12 @@ macro_rules! impl_typed_stream_search_index {
                         results
                     }
                     Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
-                    Operator::Le => self.find_range_with_reader(reader, None, Some(key))?,
+                    Operator::Le => {
+                        let mut results =
+                            self.find_range_with_reader(reader, None, Some(key.clone()))?;
+                        include_bound(&mut results, self.find_exact_with_reader(reader, key)?);
+                        results
+                    }
                 };
                 reader.seek(SeekFrom::Start(start_position))?;
                 Ok(items)
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..5c4bef0 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -65,6 +65,18 @@ impl Default for Query {
     }
 }
 
+/// Adds the items of `bound` to `items`, skipping those already there.
+///
+/// A tree range ends with the node its upper bound partitions to, and an upper bound equal to
+/// a separator partitions to the node left of the one holding it. Its matches are added this way.
+pub(crate) fn include_bound<T: PartialEq>(items: &mut Vec<T>, bound: Vec<T>) {
+    for item in bound {
+        if !items.contains(&item) {
+            items.push(item);
+        }
+    }
+}
+
 /// Core trait for index searching capabilities
 pub trait SearchIndex<K: Key> {
     /// Find exact matches for a key
-- 
2.43.0


From 1c0f52fffe974ae6d973f703cd39f2740cb6a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 19/25] fix: attribute column type comes from the first value
 only

---
 src/rust/fcb_core/src/writer/attribute.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index b6d4357..730c622 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -21,8 +21,10 @@ impl AttributeSchemaMethods for AttributeSchema {
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
+            if let Some(coltype) = guess_type(val) {
+                if let Some((_, known)) = self.get_mut(key) {
+                    *known = merge_types(*known, coltype);
+                } else {
                     self.insert(key.clone(), (self.len() as u16, coltype));
                 }
             }
@@ -30,6 +32,20 @@ impl AttributeSchemaMethods for AttributeSchema {
     }
 }
 
+/// Column type that holds both the values of an inferred column type and those of another one.
+/// Types that are never inferred were chosen by the user and are kept.
+fn merge_types(known: ColumnType, other: ColumnType) -> ColumnType {
+    use ColumnType as C;
+    match (known, other) {
+        (a, b) if a == b => a,
+        (C::ULong, C::Long) | (C::Long, C::ULong) => C::Long,
+        (C::ULong | C::Long, C::Double) | (C::Double, C::ULong | C::Long) => C::Double,
+        (C::String, C::DateTime) | (C::DateTime, C::String) => C::String,
+        (C::Bool | C::ULong | C::Long | C::Double | C::String | C::DateTime, _) => C::Json,
+        (a, _) => a,
+    }
+}
+
 /// Naive type-guessing. You could use your schema or logic as in your Python code.
 fn guess_type(value: &Value) -> Option<ColumnType> {
     match value {
-- 
2.43.0


From 5d76e8432bc74248e4288ab5adc8244e1930b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 20/25] fix: debug assertions of range queries over http fail
 on ordinary files

The last leaf of a fetched range is the last leaf of the tree only when the
positions are counted from the start of the leaf level.  For the nearest
query the extra leaf fetched to learn where its predecessor ends was also
taken as a candidate, with an open byte range; its own parent is queued.
---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..07f6633 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos,
+                                    level_bounds[0].end - 1
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1092,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos,
+                                    level_bounds[0].end - 1
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1206,6 +1212,12 @@ impl PackedRTree {
                     let node_items = read_http_node_items(client, index_begin, &next.nodes).await?;
 
                     for (node_pos, node_item) in node_items.iter().enumerate() {
+                        // the extra leaf only tells where its predecessor ends, its own parent
+                        // is queued as well
+                        if next.level == 0 && node_pos >= branching_factor as usize {
+                            continue;
+                        }
+
                         let dist = node_item.min_distance_squared(x, y);
 
                         // If we have a nearest item, only consider this node if it's closer
@@ -1228,7 +1240,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    next.nodes.start + node_pos,
+                                    level_bounds[0].end - 1
+                                );
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From 54201ecdd76a2d9326b904903b03691b0b17b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 21/25] fix: check_magic_bytes answers false for fewer than 7
 bytes instead of panicking

---
 src/rust/fcb_core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/lib.rs b/src/rust/fcb_core/src/lib.rs
index 650dc0b..c984727 100644
--- a/src/rust/fcb_core/src/lib.rs
+++ b/src/rust/fcb_core/src/lib.rs
@@ -55,5 +55,8 @@ pub use writer::*;
 pub use http_reader::*;
 
 pub fn check_magic_bytes(bytes: &[u8]) -> bool {
-    bytes[0..3] == MAGIC_BYTES[0..3] && bytes[4..7] == MAGIC_BYTES[4..7] && bytes[3] <= VERSION
+    bytes.len() >= 7
+        && bytes[0..3] == MAGIC_BYTES[0..3]
+        && bytes[4..7] == MAGIC_BYTES[4..7]
+        && bytes[3] <= VERSION
 }
-- 
2.43.0


From d0f9890e1d75846bddd64731edec2832e9de2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 22/25] fix: streamed attribute query leaves the reader inside
 an index after an empty answer

---
 src/rust/fcb_core/src/static_btree/query/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 1bfcbc7..bd4060f 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -404,11 +404,11 @@ impl StreamMultiIndex {
         reader.seek(SeekFrom::Start(start_position + index_range.start as u64))?;
 
         let mut result_set = indexer.execute_query_condition(reader, first)?;
+        // set cursor to the start of the index
+        reader.seek(SeekFrom::Start(start_position))?;
         if result_set.is_empty() {
             return Ok(vec![]);
         }
-        // set cursor to the start of the index
-        reader.seek(SeekFrom::Start(start_position))?;
 
         for cond in &conditions[1..] {
             let start_position = reader.stream_position()?;
@@ -426,11 +426,11 @@ impl StreamMultiIndex {
             println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
+            // set cursor to the start of the index
+            reader.seek(SeekFrom::Start(start_position))?;
             if result_set.is_empty() {
                 return Ok(vec![]); // no results found for this condition, return early so we don't waste time intersecting empty sets
             }
-            // set cursor to the start of the index
-            reader.seek(SeekFrom::Start(start_position))?;
         }
         // set cursor to the start of the index
         reader.seek(SeekFrom::Start(start_position))?;
-- 
2.43.0


From e8df0fc55dfce01b19070afa28b8cbfcd543a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 23/25] fix: geometry templates and appearance are dropped from
 a header without metadata

---
 src/rust/fcb_core/src/writer/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..cfa4541 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -217,6 +217,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From 1f8eb6d8a0f81e827202d1fe001d6bea3232bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 24/25] fix: a header without extent is read back with an
 extent of zeros

---
 src/rust/fcb_core/src/reader/deserializer.rs | 25 +++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 6db25ba..9625c99 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -62,19 +62,16 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        })
-        .unwrap_or_default();
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -82,7 +79,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     };
 
     cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
-- 
2.43.0


From d65111a8a047d73dca740e0c3d3969570d69b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 25/25] fix: a reference system code that is not an integer is
 lost

---
 src/rust/fcb_core/src/reader/deserializer.rs |  4 +++-
 src/rust/fcb_core/src/writer/serializer.rs   | 13 +++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 9625c99..1fc543b 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -56,7 +56,9 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            rs.code_string()
+                .map(|c| c.to_string())
+                .unwrap_or_else(|| rs.code().to_string()),
         )
     });
     cj.version = header.version().to_string();
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index cfa4541..108281c 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -277,12 +277,13 @@ pub(super) fn to_reference_system<'a>(
         println!("failed to parse version: {}", e);
         0
     });
-    let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
-        0
-    });
-
-    let code_string = None; // TODO: implement code_string
+    let code = ref_system.code.parse::<i32>().unwrap_or(0);
+    // a code that is not a plain integer is kept as text
+    let code_string = if code.to_string() == ref_system.code {
+        None
+    } else {
+        Some(fbb.create_string(&ref_system.code))
+    };
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0

