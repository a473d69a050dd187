From d0aab5f920c06f15c9268dbda1295b97eb2cd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 01/33] fix: stringpbf: read uncompressed (raw) blobs instead
 of panicking

---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e321632 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 613bf5c16d18f88e14208d504adbb0a3bf203abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 02/33] fix: stringpbf: do not silently skip blobs in an
 unsupported compression

---
 src/stringpbf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e321632..a9cc4d9 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -41,6 +41,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        panic!("PBF blob has no data in a supported form (uncompressed or zlib)");
     }
 }
 
-- 
2.43.0


From a7ac6d809496ef06b11bf32824267e89d4510616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 03/33] fix: PBF readers: a file cut or failing inside the
 length of a block is not a normal end

---
 src/arcpbf/mod.rs    | 18 +++++++++++++++---
 src/stringpbf/mod.rs | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..498c919 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -55,9 +55,21 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // The file may only end here, before the first byte of the length of a file block
+            let mut first = [0; 1];
+            let num_read = loop {
+                match self.reader.read(&mut first) {
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                    res => break res.unwrap(),
+                }
+            };
+            if num_read == 0 {
+                return None;
+            }
+            let size = (&first[..])
+                .chain(&mut self.reader)
+                .read_u32::<byteorder::BigEndian>()
+                .unwrap();
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index a9cc4d9..a03d9a8 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -61,9 +61,21 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // The file may only end here, before the first byte of the length of a file block
+            let mut first = [0; 1];
+            let num_read = loop {
+                match self.reader.read(&mut first) {
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                    res => break res.unwrap(),
+                }
+            };
+            if num_read == 0 {
+                return None;
+            }
+            let size = (&first[..])
+                .chain(&mut self.reader)
+                .read_u32::<byteorder::BigEndian>()
+                .unwrap();
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0


From c9df0c4ee02ed6b2df8b6d6fe4e34178fe4f6ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 04/33] fix: PBF readers: exact node positions for every
 granularity and offset

---
 src/arcpbf/mod.rs            | 30 ++++++++++++++----------------
 src/stringpbf/mod.rs         | 30 ++++++++++++++----------------
 src/stringpbf/node_id_pos.rs | 29 +++++++++--------------------
 3 files changed, 37 insertions(+), 52 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 498c919..6f21936 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -94,6 +94,14 @@ impl<R: Read> FileReader<R> {
     }
 }
 
+/// The position which is stored as `raw` in a block with this granularity & offset (both in
+/// nanodegrees), in units of COORD_PRECISION_NANOS
+fn stored_to_internal(raw: i64, granularity: i32, offset: i64) -> i32 {
+    let nanos = offset + i64::from(granularity) * raw;
+    i32::try_from(nanos / i64::from(COORD_PRECISION_NANOS))
+        .expect("position was larger than the OSM precision allows")
+}
+
 fn decode_nodes(
     _primitive_group: &osmformat::PrimitiveGroup,
     _granularity: i32,
@@ -138,8 +146,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -150,24 +158,14 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        let internal_lat = stored_to_internal(raw_lat, granularity, lat_offset);
+        let internal_lon = stored_to_internal(raw_lon, granularity, lon_offset);
 
         let tags = if !has_tags {
             None
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index a03d9a8..0af8516 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -100,6 +100,14 @@ impl<R: Read> FileReader<R> {
     }
 }
 
+/// The position which is stored as `raw` in a block with this granularity & offset (both in
+/// nanodegrees), in units of COORD_PRECISION_NANOS
+fn stored_to_internal(raw: i64, granularity: i32, offset: i64) -> i32 {
+    let nanos = offset + i64::from(granularity) * raw;
+    i32::try_from(nanos / i64::from(COORD_PRECISION_NANOS))
+        .expect("position was larger than the OSM precision allows")
+}
+
 fn decode_nodes(
     _primitive_group: &osmformat::PrimitiveGroup,
     _granularity: i32,
@@ -144,8 +152,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -156,24 +164,14 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        let internal_lat = stored_to_internal(raw_lat, granularity, lat_offset);
+        let internal_lon = stored_to_internal(raw_lon, granularity, lon_offset);
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         loop {
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..8bc3142 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -5,7 +5,6 @@ use std::iter::Iterator;
 use std::collections::VecDeque;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
 use protobuf::Message;
 
 /// (node id, (latitude, longitude))
@@ -73,9 +72,9 @@ impl<R: Read> Iterator for PBFNodePositionReader<R> {
 }
 
 fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<NodeIdPos>) -> usize {
-    let granularity = &block.granularity();
-    let lat_offset = &block.lat_offset();
-    let lon_offset = &block.lon_offset();
+    let granularity = block.granularity();
+    let lat_offset = block.lat_offset();
+    let lon_offset = block.lon_offset();
     let mut num_objects = 0;
 
     for primitive_group in block.primitivegroup.iter() {
@@ -93,32 +92,22 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                let internal_lat = stored_to_internal(raw_lat, granularity, lat_offset);
+                let internal_lon = stored_to_internal(raw_lon, granularity, lon_offset);
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From 47cb95a8c67ee42b44282bd6e251199ad8db6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 05/33] fix: PBF readers: exact timestamps for every date
 granularity, also after 2038

---
 src/arcpbf/mod.rs    | 19 +++++++++++--------
 src/stringpbf/mod.rs | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 6f21936..9a8b20a 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -102,6 +102,11 @@ fn stored_to_internal(raw: i64, granularity: i32, offset: i64) -> i32 {
         .expect("position was larger than the OSM precision allows")
 }
 
+/// The timestamp which is stored as `raw` in a block with this date granularity (in milliseconds)
+fn stored_to_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
+    TimestampFormat::EpochNumber(raw * i64::from(date_granularity) / 1000)
+}
+
 fn decode_nodes(
     _primitive_group: &osmformat::PrimitiveGroup,
     _granularity: i32,
@@ -208,10 +213,9 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        let timestamp = stored_to_timestamp(timestamp, date_granularity);
         assert!(uid_id < i32::MAX);
 
         results.push(ArcOSMObj::Node(ArcNode {
@@ -235,7 +239,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -280,7 +284,7 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = stored_to_timestamp(way.info.timestamp.unwrap(), date_granularity);
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -306,7 +310,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -370,7 +374,7 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = stored_to_timestamp(relation.info.timestamp.unwrap(), date_granularity);
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -399,7 +403,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 0af8516..fd34e74 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -108,6 +108,11 @@ fn stored_to_internal(raw: i64, granularity: i32, offset: i64) -> i32 {
         .expect("position was larger than the OSM precision allows")
 }
 
+/// The timestamp which is stored as `raw` in a block with this date granularity (in milliseconds)
+fn stored_to_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
+    TimestampFormat::EpochNumber(raw * i64::from(date_granularity) / 1000)
+}
+
 fn decode_nodes(
     _primitive_group: &osmformat::PrimitiveGroup,
     _granularity: i32,
@@ -198,10 +203,9 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        let timestamp = stored_to_timestamp(timestamp, date_granularity);
         assert!(uid_id < i32::MAX);
 
         results.push_back(StringOSMObj::Node(StringNode {
@@ -226,7 +230,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -268,7 +272,7 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = stored_to_timestamp(way.info.timestamp.unwrap(), date_granularity);
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -291,7 +295,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -352,7 +356,7 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = stored_to_timestamp(relation.info.timestamp.unwrap(), date_granularity);
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -381,7 +385,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-- 
2.43.0


From fc5488e31a49d58d9c6e4f8d332fd492068ec4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 06/33] fix: PBF readers: report omitted metadata as absent
 instead of panicking or as deleted

---
 src/arcpbf/mod.rs    | 83 +++++++++++++++++++++++---------------------
 src/stringpbf/mod.rs | 74 ++++++++++++++++++++++-----------------
 2 files changed, 86 insertions(+), 71 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 9a8b20a..778c9e3 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -207,27 +207,27 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
-        let timestamp = stored_to_timestamp(timestamp, date_granularity);
-        assert!(uid_id < i32::MAX);
+        // Any of the metadata might not be included in the file
+        let changeset_id = changesets.get(index).map(|delta| delta + last_changset);
+        last_changset = changeset_id.unwrap_or(0);
+        let uid_id = uids.get(index).map(|delta| delta + last_uid);
+        last_uid = uid_id.unwrap_or(0);
+        let user_sid = user_sids.get(index).map(|delta| delta + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(0);
+        let timestamp = timestamps.get(index).map(|delta| delta + last_timestamp);
+        last_timestamp = timestamp.unwrap_or(0);
+        let timestamp = timestamp.map(|t| stored_to_timestamp(t, date_granularity));
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|u| u as u32),
+            _user: user_sid.map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -277,30 +277,31 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
+        // Any of the metadata (or all of it) might not be included in the file
 
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = stored_to_timestamp(way.info.timestamp.unwrap(), date_granularity);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| stored_to_timestamp(t, date_granularity));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _deleted: !way.info.visible.unwrap_or(true),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -369,27 +370,29 @@ fn decode_relations(
             .filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
+        // Any of the metadata (or all of it) might not be included in the file
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = stored_to_timestamp(relation.info.timestamp.unwrap(), date_granularity);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| stored_to_timestamp(t, date_granularity));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _deleted: !relation.info.visible.unwrap_or(true),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index fd34e74..5fad69a 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -197,27 +197,27 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
-        let timestamp = stored_to_timestamp(timestamp, date_granularity);
-        assert!(uid_id < i32::MAX);
+        // Any of the metadata might not be included in the file
+        let changeset_id = changesets.get(index).map(|delta| delta + last_changset);
+        last_changset = changeset_id.unwrap_or(0);
+        let uid_id = uids.get(index).map(|delta| delta + last_uid);
+        last_uid = uid_id.unwrap_or(0);
+        let user_sid = user_sids.get(index).map(|delta| delta + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(0);
+        let timestamp = timestamps.get(index).map(|delta| delta + last_timestamp);
+        last_timestamp = timestamp.unwrap_or(0);
+        let timestamp = timestamp.map(|t| stored_to_timestamp(t, date_granularity));
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|u| u as u32),
+            _user: user_sid.map(|sid| stringtable[sid as usize].clone()),
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -265,25 +265,31 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
+        // Any of the metadata (or all of it) might not be included in the file
 
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = stored_to_timestamp(way.info.timestamp.unwrap(), date_granularity);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| stored_to_timestamp(t, date_granularity));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _deleted: !way.info.visible.unwrap_or(true),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -351,23 +357,29 @@ fn decode_relations(
             .map(|((t, &id), r)| (t, id, r.clone()))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
+        // Any of the metadata (or all of it) might not be included in the file
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = stored_to_timestamp(relation.info.timestamp.unwrap(), date_granularity);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| stored_to_timestamp(t, date_granularity));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _deleted: !relation.info.visible.unwrap_or(true),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From 74ff6b996180b43ffcdeed814f835c1274f5c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 07/33] fix: stringpbf: read dense nodes without keys_vals (no
 tags in the whole group)

---
 src/stringpbf/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 5fad69a..89ddc7c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -179,7 +179,8 @@ fn decode_dense_nodes(
         let internal_lon = stored_to_internal(raw_lon, granularity, lon_offset);
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        // when no node in this group has any tags, keys_vals can be left out
+        while !keys_vals.is_empty() {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From 866f66ce99344c088de85844d93812a13f9356ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 08/33] fix: PBF readers: read blocks with any number of
 groups, and groups without objects

---
 src/arcpbf/mod.rs            |  2 +-
 src/stringpbf/mod.rs         | 88 ++++++++++++++++++------------------
 src/stringpbf/node_id_pos.rs |  2 +-
 3 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 778c9e3..a8261cd 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -447,7 +447,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // a group can be empty, or only have changesets
     }
 }
 
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 89ddc7c..c2a235a 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -387,82 +387,65 @@ fn decode_relations(
     num_objects_written
 }
 
-#[allow(clippy::too_many_arguments)]
+/// Does this group have any objects of the types in this filter?
+fn group_has_objs(group: &osmformat::PrimitiveGroup, object_filter: &ObjectFilter) -> bool {
+    ((!group.nodes.is_empty() || group.dense.is_some()) && object_filter.0)
+        || (!group.ways.is_empty() && object_filter.1)
+        || (!group.relations.is_empty() && object_filter.2)
+}
+
 fn decode_primitive_group_to_objs(
     primitive_group: &osmformat::PrimitiveGroup,
     granularity: i32,
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
-    object_filter: &ObjectFilter,
+    stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let mut num_objects_written = 0;
-    if !primitive_group.nodes.is_empty() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(
-            raw_stringtable.s.iter().map(|chars| {
-                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-            }),
-        );
-
+    if !primitive_group.nodes.is_empty() {
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
-    } else if primitive_group.dense.is_some() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
+    } else if primitive_group.dense.is_some() {
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
-    } else if !primitive_group.ways.is_empty() && object_filter.1 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
+    } else if !primitive_group.ways.is_empty() {
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
-    } else if !primitive_group.relations.is_empty() && object_filter.2 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
+    } else if !primitive_group.relations.is_empty() {
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else {
-        // can happen if there is an object filter in operation
+        // a group can be empty, or only have changesets
     }
 
     num_objects_written
@@ -482,18 +465,35 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
+    // If the object filter excludes everything in this block, there is no need to decode it.
+    // Otherwise everything is decoded, as the rest of the block might be asked for later.
+    if !block
+        .primitivegroup
+        .iter()
+        .any(|group| group_has_objs(group, object_filter))
+    {
+        return results;
+    }
+
+    let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
+    stringtable.extend(
+        raw_stringtable.s.into_iter().map(|chars| {
+            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
+        }),
     );
 
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &stringtable,
+            sink,
+        );
+    }
+
     results
 }
 
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 8bc3142..c76d3b5 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -113,7 +113,7 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 num_objects += 1;
             }
         } else {
-            unreachable!();
+            // a group can be empty, or only have changesets
         }
     }
 
-- 
2.43.0


From 0157098388dd3dffd0b1e3758e496d4207a29f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 09/33] fix: PBF readers: read nodes which are not stored in
 the dense format

---
 src/arcpbf/mod.rs            | 56 ++++++++++++++++++++++++++++++------
 src/stringpbf/mod.rs         | 54 ++++++++++++++++++++++++++++------
 src/stringpbf/node_id_pos.rs |  8 +++++-
 3 files changed, 101 insertions(+), 17 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index a8261cd..7842469 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -108,15 +108,55 @@ fn stored_to_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[Option<Arc<str>>],
-    _results: &mut [ArcOSMObj],
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[Option<Arc<str>>],
+    results: &mut Vec<ArcOSMObj>,
 ) {
-    unimplemented!("Dense node");
+    results.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let tags = keys.zip(vals);
+        let tags: Vec<_> = tags
+            .filter_map(|(k, v)| match (k, v) {
+                (Some(k), Some(v)) => Some((k, v)),
+                _ => None,
+            })
+            .collect();
+
+        let internal_lat = stored_to_internal(node.lat(), granularity, lat_offset);
+        let internal_lon = stored_to_internal(node.lon(), granularity, lon_offset);
+
+        let timestamp = node
+            .info
+            .timestamp
+            .map(|t| stored_to_timestamp(t, date_granularity));
+
+        results.push(ArcOSMObj::Node(ArcNode {
+            _id: node.id() as ObjId,
+            _tags: Some(tags),
+            _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|c| c as u32),
+            _uid: node.info.uid.map(|u| u as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: node.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
+        }));
+    }
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index c2a235a..1bacc10 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -114,15 +114,53 @@ fn stored_to_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[SmolStr],
-    _sink: &mut VecDeque<StringOSMObj>,
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[SmolStr],
+    sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    unimplemented!("Dense node");
+    let mut num_objects_written = 0;
+    sink.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
+        let tags: SmallVec<_> = keys.zip(vals).collect();
+
+        let internal_lat = stored_to_internal(node.lat(), granularity, lat_offset);
+        let internal_lon = stored_to_internal(node.lon(), granularity, lon_offset);
+
+        let timestamp = node
+            .info
+            .timestamp
+            .map(|t| stored_to_timestamp(t, date_granularity));
+
+        sink.push_back(StringOSMObj::Node(StringNode {
+            _id: node.id() as ObjId,
+            _tags: tags,
+            _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|c| c as u32),
+            _uid: node.info.uid.map(|u| u as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: node.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
+        }));
+        num_objects_written += 1;
+    }
+    num_objects_written
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index c76d3b5..d565efc 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -79,7 +79,13 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
     for primitive_group in block.primitivegroup.iter() {
         if !primitive_group.nodes.is_empty() {
-            unimplemented!()
+            for node in primitive_group.nodes.iter() {
+                let internal_lat = stored_to_internal(node.lat(), granularity, lat_offset);
+                let internal_lon = stored_to_internal(node.lon(), granularity, lon_offset);
+
+                sink.push_back((node.id() as ObjId, (Lat(internal_lat), Lon(internal_lon))));
+                num_objects += 1;
+            }
         } else if !primitive_group.ways.is_empty() || !primitive_group.relations.is_empty() {
             continue;
         } else if primitive_group.dense.is_some() {
-- 
2.43.0


From 6329e6c619179f357d991aca87c6ba2a5e446c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 10/33] fix: stringpbf: a type-filtered iteration does not
 affect what is read after it

---
 src/stringpbf/mod.rs | 65 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 1bacc10..61a803d 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -11,7 +11,7 @@ use smallvec::SmallVec;
 use smol_str::SmolStr;
 use std::collections::VecDeque;
 use std::io::{Cursor, Read};
-use std::iter::Iterator;
+use std::iter::{self, Iterator};
 
 use super::*;
 use crate::COORD_PRECISION_NANOS;
@@ -548,26 +548,51 @@ pub struct PBFReader<R: Read> {
     filereader: FileReader<R>,
     buffer: VecDeque<StringOSMObj>,
     _sorted_assumption: bool,
-    object_filter: ObjectFilter,
 }
 
 impl<R: Read> PBFReader<R> {
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        iter::from_fn(|| self.next_from_blocks_with(&(true, false, false)))
+            .filter_map(|o| o.into_node())
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        iter::from_fn(|| self.next_from_blocks_with(&(false, true, false)))
+            .filter_map(|o| o.into_way())
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        iter::from_fn(|| self.next_from_blocks_with(&(false, false, true)))
+            .filter_map(|o| o.into_relation())
+    }
+
+    /// The next object. Blocks which have no objects of the types in this filter are skipped
+    fn next_from_blocks_with(&mut self, object_filter: &ObjectFilter) -> Option<StringOSMObj> {
+        let mut blob_data = Vec::new();
+        while self.buffer.is_empty() {
+            // get the next file block and fill up our buffer
+            // FIXME make this parallel
+
+            // get the next block
+            let mut blob = self.filereader.next()?;
+
+            blob_data.clear();
+            blob_raw_data(&mut blob, &mut blob_data, object_filter);
+            if blob_data.is_empty() {
+                // maybe the filter meant nothing was read
+                continue;
+            }
+            let block: osmformat::PrimitiveBlock =
+                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+
+            // Turn a block into OSM objects
+            decode_block_to_objs(block, object_filter, &mut self.buffer);
+        }
+
+        self.buffer.pop_front()
     }
 }
 
@@ -588,7 +613,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
             filereader: FileReader::new(reader),
             buffer: VecDeque::new(),
             _sorted_assumption: false,
-            object_filter: (true, true, true),
         }
     }
 
@@ -608,27 +632,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-        let mut blob_data = Vec::new();
-        while self.buffer.is_empty() {
-            // get the next file block and fill up our buffer
-            // FIXME make this parallel
-
-            // get the next block
-            let mut blob = self.filereader.next()?;
-
-            blob_data.clear();
-            blob_raw_data(&mut blob, &mut blob_data, &self.object_filter);
-            if blob_data.is_empty() {
-                // maybe the filter meant nothing was read
-                continue;
-            }
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
-
-            // Turn a block into OSM objects
-            decode_block_to_objs(block, &self.object_filter, &mut self.buffer);
-        }
-
-        self.buffer.pop_front()
+        self.next_from_blocks_with(&(true, true, true))
     }
 }
-- 
2.43.0


From 317faf11659be2454441766d8f96c29a08772a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 11/33] fix: XML: read nodes without a position instead of
 stopping at them

---
 src/xml/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..e7f4cec 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,12 +262,12 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
+    let lat = get_xml_attribute(attrs, "lat").map(|x| x.parse());
+    let lon = get_xml_attribute(attrs, "lon").map(|x| x.parse());
 
     let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
+        (Some(Ok(lat)), Some(Ok(lon))) => Some((lat, lon)),
+        _ => None,
     };
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
-- 
2.43.0


From 16cf9269446cdee0ca3230f89ac9cd977a9d9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 12/33] fix: XML and OSC writers: write objects without a
 version instead of panicking

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..4cde47d 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -162,7 +162,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index e7f4cec..bcc2d86 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -448,7 +448,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From b358a722afddd72039366ba8eb24949baacf6bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 13/33] fix: XML and OSC writers: preserve tabs and line
 breaks, escape timestamps

---
 src/osc/mod.rs | 14 ++++++++------
 src/xml/mod.rs | 29 +++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 4cde47d..d974fff 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attr_escaped, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -167,7 +167,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -177,7 +177,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
@@ -207,7 +209,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -215,9 +217,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index bcc2d86..4abd802 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,21 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Write `s` as (part of) the value of an XML attribute.
+///
+/// An XML parser replaces any tab and line break in an attribute value with a space, unless it's
+/// written as a character reference.
+pub(crate) fn write_xml_attr_escaped(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for part in s.split_inclusive(['\t', '\n', '\r']) {
+        let text = part.trim_end_matches(['\t', '\n', '\r']);
+        write_xml_escaped(writer, text)?;
+        for c in part[text.len()..].chars() {
+            write!(writer, "&#{};", c as u32)?;
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -380,7 +395,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attr_escaped(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -453,7 +468,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -463,7 +478,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
@@ -493,7 +510,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -501,9 +518,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From e08156026f721dbfd97d6b64609a526f655cb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 14/33] fix: Lat/Lon: refuse NaN instead of turning it into 0

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..ed1424c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,6 +157,7 @@ macro_rules! lat_lon_impl {
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
                 match (f64::from_str(s)? * COORD_SCALE_FACTOR).round() {
+                    x if x.is_nan() => Err(ParseLatLonError::NotANumber),
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
                     x => Ok(Self(x as i32)),
@@ -174,6 +175,7 @@ macro_rules! lat_lon_impl {
             type Error = ParseLatLonError;
             fn try_from(val: f64) -> Result<$lat_or_lon, Self::Error> {
                 match (val * COORD_SCALE_FACTOR).round() {
+                    x if x.is_nan() => Err(ParseLatLonError::NotANumber),
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
                     x => Ok(Self(x as i32)),
@@ -213,6 +215,9 @@ pub enum ParseLatLonError {
     /// This should never happen for "normal" Lats and Lons, i.e. those between (-90..90) or
     /// (-180..+180), respectively.
     TooSmall(f64),
+
+    /// The float was not a number (NaN).
+    NotANumber,
 }
 
 impl std::error::Error for ParseLatLonError {
@@ -231,6 +236,7 @@ impl Display for ParseLatLonError {
             Self::ParseFloatError(inner) => Display::fmt(inner, f),
             Self::TooLarge(float) => write!(f, "{} is too large to represent as a Lat/Lon", float),
             Self::TooSmall(float) => write!(f, "{} is too small to represent as a Lat/Lon", float),
+            Self::NotANumber => write!(f, "NaN cannot be represented as a Lat/Lon"),
         }
     }
 }
-- 
2.43.0


From 0aea90b550d88ea0e59f8407e4546110ee18881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 15/33] fix: timestamps before 1970 and after 2038 convert
 correctly between epoch and ISO

---
 src/lib.rs   | 4 ++--
 src/utils.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed1424c..4449700 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -261,13 +261,13 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => iso_to_epoch(s),
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..f79ec6c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,15 +1,15 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: impl Into<i64>) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
     let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+        DateTime::from_timestamp(epoch.into(), 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-pub fn iso_to_epoch(iso: &str) -> u32 {
+pub fn iso_to_epoch(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
-        .map(|x| x.timestamp() as u32)
+        .map(|x| x.timestamp())
         .unwrap_or(0)
 }
-- 
2.43.0


From 967a446b4fd4e0442f1b4d72e98cd17ef4639a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 16/33] fix: compare ISO timestamps as instants, whatever their
 UTC offset

---
 src/lib.rs   | 16 +++++++++++++---
 src/utils.rs |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4449700..6bdc202 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,7 @@ use std::io::{BufReader, Read, Write};
 use std::iter::{ExactSizeIterator, Iterator};
 use std::path::Path;
 use std::str::FromStr;
-use utils::{epoch_to_iso, iso_to_epoch};
+use utils::{epoch_to_iso, iso_to_epoch, iso_to_epoch_opt};
 
 use anyhow::Result;
 
@@ -302,7 +302,12 @@ impl fmt::Display for TimestampFormat {
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.partial_cmp(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => {
+                match (iso_to_epoch_opt(a), iso_to_epoch_opt(b)) {
+                    (Some(a), Some(b)) => a.partial_cmp(&b),
+                    _ => a.partial_cmp(b),
+                }
+            }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
             (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
         }
@@ -311,7 +316,12 @@ impl std::cmp::PartialOrd for TimestampFormat {
 impl std::cmp::PartialEq for TimestampFormat {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.eq(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => {
+                match (iso_to_epoch_opt(a), iso_to_epoch_opt(b)) {
+                    (Some(a), Some(b)) => a.eq(&b),
+                    _ => a.eq(b),
+                }
+            }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
             (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
         }
diff --git a/src/utils.rs b/src/utils.rs
index f79ec6c..6852663 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,7 +9,12 @@ pub fn epoch_to_iso(epoch: impl Into<i64>) -> String {
 }
 
 pub fn iso_to_epoch(iso: &str) -> i64 {
+    iso_to_epoch_opt(iso).unwrap_or(0)
+}
+
+/// `None` if `iso` isn't a valid RFC 3339 date & time
+pub fn iso_to_epoch_opt(iso: &str) -> Option<i64> {
     DateTime::parse_from_rfc3339(iso)
         .map(|x| x.timestamp())
-        .unwrap_or(0)
+        .ok()
 }
-- 
2.43.0


From e19d162d3cad49108cbf0ed729b2bda8cd34ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 17/33] fix: changesets: report truncated documents instead of
 hanging or ending normally

---
 src/changesets.rs | 67 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..ac57608 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -78,9 +78,63 @@ impl Changeset {
     }
 }
 
+/// The XML events of a document, which notices when the document isn't complete.
+///
+/// After the end of the document, or an error from the parser, there is only `Event::Eof`.
+struct EventReader<R: Read> {
+    reader: quick_xml::Reader<BufReader<R>>,
+    depth: usize,
+    seen_root: bool,
+    finished: bool,
+}
+
+impl<R: Read> EventReader<R> {
+    fn new(reader: R) -> Self {
+        EventReader {
+            reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
+            depth: 0,
+            seen_root: false,
+            finished: false,
+        }
+    }
+
+    fn read_event_into<'b>(&mut self, buf: &'b mut Vec<u8>) -> Result<Event<'b>> {
+        if self.finished {
+            return Ok(Event::Eof);
+        }
+
+        let event = self.reader.read_event_into(buf);
+        match &event {
+            Ok(Event::Start(_)) => {
+                self.seen_root = true;
+                self.depth += 1;
+            }
+            Ok(Event::Empty(_)) => {
+                self.seen_root = true;
+            }
+            Ok(Event::End(_)) => {
+                self.depth = self.depth.saturating_sub(1);
+            }
+            Ok(Event::Eof) => {
+                self.finished = true;
+                ensure!(
+                    self.seen_root && self.depth == 0,
+                    "Unexpected end of the document"
+                );
+            }
+            Err(_) => {
+                self.finished = true;
+            }
+            _ => {}
+        }
+
+        Ok(event?)
+    }
+}
+
 /// Reads the `changesets-latest.osm.bz2` file and produces `Changesets`
 pub struct ChangesetReader<R: Read> {
-    reader: quick_xml::Reader<BufReader<R>>,
+    reader: EventReader<R>,
     buf: Vec<u8>,
 }
 
@@ -90,18 +144,18 @@ impl<R: Read> ChangesetReader<R> {
     }
     pub fn from_reader(reader: R) -> ChangesetReader<R> {
         ChangesetReader {
-            reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
+            reader: EventReader::new(reader),
             buf: Vec::new(),
         }
     }
 
     /// Get a refernce to the underlying reader.
     pub fn get_ref(&self) -> &R {
-        self.reader.get_ref().get_ref()
+        self.reader.reader.get_ref().get_ref()
     }
     /// Consumes Reader returning the underlying reader
     pub fn into_inner(self) -> R {
-        self.reader.into_inner().into_inner()
+        self.reader.reader.into_inner().into_inner()
     }
 
     pub fn next_changeset(&mut self) -> Result<Option<Changeset>> {
@@ -176,6 +230,7 @@ impl<R: Read> ChangesetReader<R> {
                                     break;
                                 }
                             }
+                            Event::Eof => bail!("Unexpected end of the document in a changeset"),
                             Event::Start(ref e) | Event::Empty(ref e) => {
                                 if e.name().local_name().as_ref() != "tag".as_bytes() {
                                     continue;
@@ -314,7 +369,7 @@ impl<R: Read> ChangesetReader<bzip2::read::MultiBzDecoder<R>> {
 ///
 /// Create it with `ChangesetTagReader::from_filename("changesets-latest.osm.bz2")`
 pub struct ChangesetTagReader<R: Read> {
-    reader: quick_xml::Reader<BufReader<R>>,
+    reader: EventReader<R>,
     curr_id: Option<u64>,
     tags: Vec<(String, String)>,
 }
@@ -332,7 +387,7 @@ impl ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
 impl<R: Read> ChangesetTagReader<R> {
     fn new(reader: R) -> Self {
         ChangesetTagReader {
-            reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
+            reader: EventReader::new(reader),
             curr_id: None,
             tags: Vec::new(),
         }
-- 
2.43.0


From 94fc087037e0f74b16eecceb63e700ecfde901f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 18/33] fix: ChangesetTagReader: never report the id of another
 changeset

---
 src/changesets.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index ac57608..f10790c 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -413,6 +413,8 @@ impl<R: Read> ChangesetTagReader<R> {
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
+                    self.curr_id = None;
+                    self.tags.clear();
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
@@ -420,7 +422,6 @@ impl<R: Read> ChangesetTagReader<R> {
                                 Some(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
                         }
                     }
-                    self.tags.clear();
                 }
                 Event::Start(ref e) | Event::Empty(ref e)
                     if e.name().local_name().as_ref() == b"tag" =>
-- 
2.43.0


From 89acf77160bd4761d51c8814e164fdee49156543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 19/33] fix: ChangesetTagReader: report only changesets with
 tags, as documented

---
 src/changesets.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index f10790c..2f911d5 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -405,6 +405,9 @@ impl<R: Read> ChangesetTagReader<R> {
                 Event::End(ref e) => {
                     if e.name().local_name().as_ref() == b"changeset" {
                         ensure!(self.curr_id.is_some(), "Should be an id set");
+                        if self.tags.is_empty() {
+                            continue;
+                        }
 
                         return Ok(Some((
                             self.curr_id.unwrap(),
-- 
2.43.0


From 85713d03fb597451ee8ec949725deb0aae84670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 20/33] fix: changesets: the open attribute may contain
 character references, like any other

---
 src/changesets.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 2f911d5..197a366 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -191,11 +191,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
@@ -294,11 +296,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
-- 
2.43.0


From f6d6e59099f973a0433308ea652333eee25c93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 21/33] fix: XML and OSC writers: do not panic when dropped and
 the sink fails

---
 src/osc/mod.rs | 3 ++-
 src/xml/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index d974fff..a9eb3f6 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -244,6 +244,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
 impl<W: Write> Drop for OSCWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // Errors cannot be reported from here, call `close` to see them.
+        let _ = self.close();
     }
 }
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 4abd802..d24c6bb 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -545,7 +545,8 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
 impl<W: Write> Drop for XMLWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // Errors cannot be reported from here, call `close` to see them.
+        let _ = self.close();
     }
 }
 
-- 
2.43.0


From 82954a29cd79d4976d7f46c69c1e265cd5d957aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 22/33] fix: OSCReader: objects in a delete section are deleted

---
 src/osc/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index a9eb3f6..72311d9 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -1,7 +1,7 @@
 //! OSC File format
 
 use super::version;
-use super::{Node, OSMObj, OSMObjectType, Relation, Way};
+use super::{Node, OSMObj, OSMObjBase, OSMObjectType, Relation, Way};
 use super::{OSMReader, OSMWriteError, OSMWriter};
 use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
@@ -13,6 +13,8 @@ use xml_rs::reader::{EventReader, Events, XmlEvent};
 
 pub struct OSCReader<R: Read> {
     parser: Events<BufReader<R>>,
+    /// True iff we're inside a `<delete>` section
+    in_delete: bool,
 }
 
 #[derive(PartialEq)]
@@ -35,6 +37,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     fn new(reader: R) -> Self {
         OSCReader {
             parser: EventReader::new(BufReader::new(reader)).into_iter(),
+            in_delete: false,
         }
     }
 
@@ -67,12 +70,18 @@ impl<R: Read> OSMReader for OSCReader<R> {
                     "node" | "way" | "relation" => {
                         should_push = true;
                     }
+                    "delete" => {
+                        self.in_delete = true;
+                    }
                     _ => {}
                 },
                 XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                     "node" | "way" | "relation" => {
                         should_break = true;
                     }
+                    "delete" => {
+                        self.in_delete = false;
+                    }
                     _ => {}
                 },
                 _ => {}
@@ -86,7 +95,11 @@ impl<R: Read> OSMReader for OSCReader<R> {
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        let mut obj = xml_elements_to_osm_obj(&mut elements)?;
+        if self.in_delete {
+            obj.set_deleted(true);
+        }
+        Some(obj)
     }
 }
 
-- 
2.43.0


From f680d978e2ba094abd7ae098c8ec69d5e179ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 23/33] fix: XMLWriter: setting the version or generator header
 replaces the default one

---
 src/xml/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index d24c6bb..5eba6fe 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -387,11 +387,13 @@ impl<W: Write> XMLWriter<W> {
     fn ensure_header(&mut self) -> Result<(), OSMWriteError> {
         if self._state == State::Initial {
             writeln!(self.writer, "<?xml version=\"1.0\" encoding=\"utf-8\"?>")?;
-            write!(
-                self.writer,
-                "<osm version=\"0.6\" generator=\"osmio/{}\"",
-                version()
-            )?;
+            write!(self.writer, "<osm")?;
+            if !self.headers.contains_key("version") {
+                write!(self.writer, " version=\"0.6\"")?;
+            }
+            if !self.headers.contains_key("generator") {
+                write!(self.writer, " generator=\"osmio/{}\"", version())?;
+            }
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-- 
2.43.0


From 6f991b6c188810264fadfb4a2f910e801a0e8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 24/33] fix: OSMWriter: setting a header on a format without
 headers is an error, not a panic

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6bdc202..3c670d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -746,7 +746,7 @@ pub trait OSMWriter<W: Write> {
     fn into_inner(self) -> W;
 
     fn set_header(&mut self, _key_value: (&str, &str)) -> Result<(), OSMWriteError> {
-        todo!("set_header not done yet")
+        Err(OSMWriteError::FormatDoesntSupportHeaders)
     }
 
     /// Create a new OSMWriter, consume all the objects from an OSMObj iterator source, and then
-- 
2.43.0


From 3596c8a6cb47eb38b6177f8f7290460c0a5109e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 25/33] fix: ArcNode/RcNode: nodes whose tags were all removed
 equal nodes without tags

---
 src/arcpbf/mod.rs          | 3 ++-
 src/obj_types/arc_types.rs | 3 +++
 src/obj_types/rc_types.rs  | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 7842469..378beb6 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -144,7 +144,7 @@ fn decode_nodes(
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: node.id() as ObjId,
-            _tags: Some(tags),
+            _tags: (!tags.is_empty()).then_some(tags),
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !node.info.visible.unwrap_or(true),
             _changeset_id: node.info.changeset.map(|c| c as u32),
@@ -245,6 +245,7 @@ fn decode_dense_nodes(
                     })
                     .collect(),
             )
+            .filter(|tags: &Vec<_>| !tags.is_empty())
         };
 
         // Any of the metadata might not be included in the file
diff --git a/src/obj_types/arc_types.rs b/src/obj_types/arc_types.rs
index fd97482..2d3e15f 100644
--- a/src/obj_types/arc_types.rs
+++ b/src/obj_types/arc_types.rs
@@ -349,6 +349,9 @@ impl OSMObjBase for ArcNode {
             if let Some(i) = idx {
                 tags.remove(i);
             }
+            if tags.is_empty() {
+                self._tags = None;
+            }
         }
     }
 
diff --git a/src/obj_types/rc_types.rs b/src/obj_types/rc_types.rs
index 6177f4f..72583d3 100644
--- a/src/obj_types/rc_types.rs
+++ b/src/obj_types/rc_types.rs
@@ -352,6 +352,9 @@ impl OSMObjBase for RcNode {
             if let Some(i) = idx {
                 tags.remove(i);
             }
+            if tags.is_empty() {
+                self._tags = None;
+            }
         }
     }
 
-- 
2.43.0


From f7dd809362b896b12820aa8f5e149d00fdc04254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 26/33] hook: constructors for blank shared objects and for a
 tag reader on any source (cfg osmio_verif)

---
 src/changesets.rs          |  8 ++++++
 src/lib.rs                 |  1 +
 src/obj_types/arc_types.rs | 54 ++++++++++++++++++++++++++++++++++++++
 src/obj_types/rc_types.rs  | 54 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 117 insertions(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 197a366..8963433 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -468,3 +468,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
         self.next_tag().transpose()
     }
 }
+
+/// Verification hook: read tags from any source (`new` is private).
+#[cfg(osmio_verif)]
+impl<R: Read> ChangesetTagReader<R> {
+    pub fn verif_from_reader(reader: R) -> Self {
+        Self::new(reader)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 3c670d5..5b427bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,7 @@
 //! }
 //! # Ok::<(), anyhow::Error>(())
 //! ```
+#![allow(unexpected_cfgs)] // osmio_verif
 extern crate byteorder;
 extern crate chrono;
 extern crate flate2;
diff --git a/src/obj_types/arc_types.rs b/src/obj_types/arc_types.rs
index 2d3e15f..c92701b 100644
--- a/src/obj_types/arc_types.rs
+++ b/src/obj_types/arc_types.rs
@@ -600,3 +600,57 @@ impl Relation for ArcRelation {
         );
     }
 }
+
+/// Verification hook: build a blank object (there is no other public way to).
+#[cfg(osmio_verif)]
+impl ArcNode {
+    pub fn verif_blank(id: ObjId) -> Self {
+        ArcNode {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: None,
+            _lat_lon: None,
+        }
+    }
+}
+
+/// Verification hook: build a blank object (there is no other public way to).
+#[cfg(osmio_verif)]
+impl ArcWay {
+    pub fn verif_blank(id: ObjId) -> Self {
+        ArcWay {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: Vec::new(),
+            _nodes: Vec::new(),
+        }
+    }
+}
+
+/// Verification hook: build a blank object (there is no other public way to).
+#[cfg(osmio_verif)]
+impl ArcRelation {
+    pub fn verif_blank(id: ObjId) -> Self {
+        ArcRelation {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: Vec::new(),
+            _members: Vec::new(),
+        }
+    }
+}
diff --git a/src/obj_types/rc_types.rs b/src/obj_types/rc_types.rs
index 72583d3..ef4f225 100644
--- a/src/obj_types/rc_types.rs
+++ b/src/obj_types/rc_types.rs
@@ -603,3 +603,57 @@ impl Relation for RcRelation {
         );
     }
 }
+
+/// Verification hook: build a blank object (there is no other public way to).
+#[cfg(osmio_verif)]
+impl RcNode {
+    pub fn verif_blank(id: ObjId) -> Self {
+        RcNode {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: None,
+            _lat_lon: None,
+        }
+    }
+}
+
+/// Verification hook: build a blank object (there is no other public way to).
+#[cfg(osmio_verif)]
+impl RcWay {
+    pub fn verif_blank(id: ObjId) -> Self {
+        RcWay {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: Vec::new(),
+            _nodes: Vec::new(),
+        }
+    }
+}
+
+/// Verification hook: build a blank object (there is no other public way to).
+#[cfg(osmio_verif)]
+impl RcRelation {
+    pub fn verif_blank(id: ObjId) -> Self {
+        RcRelation {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: Vec::new(),
+            _members: Vec::new(),
+        }
+    }
+}
-- 
2.43.0


From 4d26500554a3ae74bd2c0e07f46c2a133e339ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 27/33] fix: OSMWriter: report text which XML cannot represent

XMLWriter and OSCWriter wrote characters such as U+0000, U+0001 or U+FFFF
verbatim, which makes the whole file unreadable to every XML parser (also this
crate's own). There is no escape for them in XML, so writing such an object (or
header value) is now an error, and nothing of it is written.
---
 src/osc/mod.rs |  5 ++++-
 src/xml/mod.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 72311d9..d03c478 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_attr_escaped, xml_elements_to_osm_obj};
+use crate::xml::{ensure_xml_obj, write_xml_attr_escaped, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -154,6 +154,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
     }
 
     fn write_obj(&mut self, obj: &impl OSMObj) -> Result<(), OSMWriteError> {
+        if self.is_open() {
+            ensure_xml_obj(obj)?;
+        }
         match self._state {
             State::Initial => self.ensure_header()?, // This will update self._state
             State::WritingObjects => {}
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 5eba6fe..0a02f01 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -85,6 +85,42 @@ pub(crate) fn write_xml_attr_escaped(writer: &mut impl Write, s: &str) -> std::i
     Ok(())
 }
 
+/// An error if `s` has a character which XML cannot represent, not even as a character reference
+pub(crate) fn ensure_xml_text(s: &str) -> Result<(), OSMWriteError> {
+    let is_xml_char = |c: char| match c {
+        '\t' | '\n' | '\r' => true,
+        '\u{fffe}' | '\u{ffff}' => false,
+        c => c >= ' ',
+    };
+    match s.chars().find(|c| !is_xml_char(*c)) {
+        None => Ok(()),
+        Some(c) => Err(OSMWriteError::XMLWriteIOError(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("The character {:?} cannot be represented in XML", c),
+        ))),
+    }
+}
+
+/// An error if any text of this object cannot be represented in XML
+pub(crate) fn ensure_xml_obj(obj: &impl OSMObj) -> Result<(), OSMWriteError> {
+    if let Some(user) = obj.user() {
+        ensure_xml_text(user)?;
+    }
+    if let Some(timestamp) = obj.timestamp() {
+        ensure_xml_text(&timestamp.to_iso_string())?;
+    }
+    if let Some(relation) = obj.as_relation() {
+        for (_, _, role) in relation.members() {
+            ensure_xml_text(role)?;
+        }
+    }
+    for (k, v) in obj.tags() {
+        ensure_xml_text(k)?;
+        ensure_xml_text(v)?;
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -421,6 +457,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
     fn set_header(&mut self, (key, value): (&str, &str)) -> Result<(), OSMWriteError> {
         match self._state {
             State::Initial => {
+                ensure_xml_text(value)?;
                 self.headers.insert(key.into(), value.into());
                 Ok(())
             }
@@ -444,6 +481,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
     }
 
     fn write_obj(&mut self, obj: &impl OSMObj) -> Result<(), OSMWriteError> {
+        if self.is_open() {
+            ensure_xml_obj(obj)?;
+        }
         match self._state {
             State::Initial => self.ensure_header()?, // This will update self._state
             State::WritingObjects => {}
-- 
2.43.0


From 5efa59516b344a2f7512222b2923d7892b5aff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:36 +0000
Subject: [PATCH 28/33] fix: PBF readers: report relations whose member lists
 differ in length

The members which aren't complete were silently dropped.
---
 src/arcpbf/mod.rs    | 2 ++
 src/stringpbf/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 378beb6..be65b6b 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -393,6 +393,8 @@ fn decode_relations(
             }
         }
         let _num_members = member_ids.len();
+        assert_eq!(relation.roles_sid.len(), member_ids.len());
+        assert_eq!(relation.types.len(), member_ids.len());
         let member_ids = member_ids.iter();
 
         let member_types = relation
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 61a803d..1581b7a 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -378,6 +378,8 @@ fn decode_relations(
             }
         }
         let _num_members = member_ids.len();
+        assert_eq!(relation.roles_sid.len(), member_ids.len());
+        assert_eq!(relation.types.len(), member_ids.len());
         let member_ids = member_ids.iter();
 
         let member_types = relation
-- 
2.43.0


From 087ebc88a928a0543ef387103e71401081febcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:36 +0000
Subject: [PATCH 29/33] fix: arcpbf: report tags and members which cannot be
 decoded

Keys without a value, and tags and members with a text which isn't UTF-8, were silently
dropped. stringpbf reports them already.
---
 src/arcpbf/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index be65b6b..e96be08 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -126,6 +126,7 @@ fn decode_nodes(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -296,6 +297,7 @@ fn decode_ways(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -368,6 +370,7 @@ fn decode_relations(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -499,7 +502,10 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock) -> Vec<ArcOSMObj> {
         .stringtable
         .s
         .iter()
-        .map(|chars| std::str::from_utf8(chars).ok().map(Arc::from))
+        .map(|chars| {
+            let string = std::str::from_utf8(chars).expect("Invalid, non-utf8 String");
+            Some(Arc::from(string))
+        })
         .collect();
 
     let granularity = block.granularity();
-- 
2.43.0


From 0f5806810c2fc8ab79c5e2d5e7c7f5e265353b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:36 +0000
Subject: [PATCH 30/33] fix: PBF readers: report dense nodes whose lists differ
 in length

Surplus positions and tags were silently dropped.
---
 src/arcpbf/mod.rs            | 7 +++++--
 src/stringpbf/mod.rs         | 6 ++++--
 src/stringpbf/node_id_pos.rs | 2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index e96be08..2b0a526 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -182,8 +182,9 @@ fn decode_dense_nodes(
 
     let num_nodes = ids.len();
     results.reserve(num_nodes);
-    // TODO assert that the id, denseinfo, lat, lon and optionally keys_vals has the same
-    // length
+    assert_eq!(lats.len(), num_nodes);
+    assert_eq!(lons.len(), num_nodes);
+    // TODO assert that the denseinfo has the same length
 
     let keys_vals = &dense.keys_vals;
     let has_tags = !keys_vals.is_empty();
@@ -273,6 +274,8 @@ fn decode_dense_nodes(
         }));
     }
 
+    assert!(keys_vals_index == keys_vals.len());
+
     // convert the keys_vals to
 }
 
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 1581b7a..4dede36 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -186,8 +186,9 @@ fn decode_dense_nodes(
 
     let num_nodes = ids.len();
     results.reserve(num_nodes);
-    // TODO assert that the id, denseinfo, lat, lon and optionally keys_vals has the same
-    // length
+    assert_eq!(lats.len(), num_nodes);
+    assert_eq!(lons.len(), num_nodes);
+    // TODO assert that the denseinfo has the same length
 
     let keys_vals = &dense.keys_vals;
 
@@ -260,6 +261,7 @@ fn decode_dense_nodes(
         }));
         num_objects_written += 1
     }
+    assert!(keys_vals_index == keys_vals.len());
 
     num_objects_written
 }
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index d565efc..2e98a71 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -95,6 +95,8 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
             let lons = &dense.lon;
 
             let num_nodes = ids.len();
+            assert_eq!(lats.len(), num_nodes);
+            assert_eq!(lons.len(), num_nodes);
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-- 
2.43.0


From a67ebbf34126af6778c6441622a290ba4dc5e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:36 +0000
Subject: [PATCH 31/33] fix: XML readers: report objects without a valid id

They were silently taken for the end of the file.
---
 src/xml/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 0a02f01..b99799d 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -306,7 +306,9 @@ pub(crate) fn xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMO
 
 fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
     let attrs = extract_attrs(els.first_mut()?)?;
-    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
+    let id: ObjId = get_xml_attribute(attrs, "id")
+        .and_then(|x| x.parse().ok())
+        .expect("object without a valid id");
     let version = get_xml_attribute(attrs, "version").and_then(|x| x.parse().ok());
     let changeset_id = get_xml_attribute(attrs, "changeset").and_then(|x| x.parse().ok());
     let timestamp =
@@ -345,7 +347,9 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
 
 fn way_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
     let attrs = extract_attrs(els.first_mut()?)?;
-    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
+    let id: ObjId = get_xml_attribute(attrs, "id")
+        .and_then(|x| x.parse().ok())
+        .expect("object without a valid id");
     let version = get_xml_attribute(attrs, "version").and_then(|x| x.parse().ok());
     let changeset_id = get_xml_attribute(attrs, "changeset").and_then(|x| x.parse().ok());
     let timestamp =
@@ -377,7 +381,9 @@ fn way_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
 
 fn relation_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
     let attrs = extract_attrs(els.first_mut()?)?;
-    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
+    let id: ObjId = get_xml_attribute(attrs, "id")
+        .and_then(|x| x.parse().ok())
+        .expect("object without a valid id");
     let version = get_xml_attribute(attrs, "version").and_then(|x| x.parse().ok());
     let changeset_id = get_xml_attribute(attrs, "changeset").and_then(|x| x.parse().ok());
     let timestamp =
-- 
2.43.0


From 1d8409766e6c3523548261637f9d79c7f1100660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:18 +0000
Subject: [PATCH 32/33] fix: XMLReader and OSCReader: inner() returns the
 source instead of panicking

---
 src/osc/mod.rs | 2 +-
 src/xml/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index d03c478..6308697 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -46,7 +46,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     }
 
     fn inner(&self) -> &R {
-        todo!("{} {} OSCReader inner()", file!(), line!());
+        self.parser.source().get_ref()
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index b99799d..420a902 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -136,7 +136,7 @@ impl<R: Read> OSMReader for XMLReader<R> {
     }
 
     fn inner(&self) -> &R {
-        todo!("{} {} XMLReader inner()", file!(), line!());
+        self.parser.source().get_ref()
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-- 
2.43.0


From d9e3b49808eea9d03354bb89bbca79df94d1b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:24 +0000
Subject: [PATCH 33/33] fix: XMLWriter: refuse header names which cannot be
 written as an XML attribute

---
 src/xml/mod.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 420a902..642f9f4 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -101,6 +101,34 @@ pub(crate) fn ensure_xml_text(s: &str) -> Result<(), OSMWriteError> {
     }
 }
 
+/// An error if `s` cannot be the name of an XML attribute
+fn ensure_xml_name(s: &str) -> Result<(), OSMWriteError> {
+    let is_start_char = |c: char| match c {
+        'A'..='Z' | 'a'..='z' | '_' => true,
+        '\u{d7}' | '\u{f7}' | '\u{37e}' => false,
+        '\u{c0}'..='\u{2ff}' | '\u{370}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' => true,
+        '\u{2070}'..='\u{218f}' | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' => true,
+        '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}' | '\u{10000}'..='\u{effff}' => true,
+        _ => false,
+    };
+    let is_char = |c: char| match c {
+        '0'..='9' | '-' | '.' | '\u{b7}' => true,
+        '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}' => true,
+        c => is_start_char(c),
+    };
+    // the only prefixes which need no declaration
+    let local = s.strip_prefix("xml:").or(s.strip_prefix("xmlns:"));
+    let local = local.unwrap_or(s);
+    if local.starts_with(is_start_char) && local.chars().all(is_char) {
+        Ok(())
+    } else {
+        Err(OSMWriteError::XMLWriteIOError(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("{:?} cannot be the name of an XML attribute", s),
+        )))
+    }
+}
+
 /// An error if any text of this object cannot be represented in XML
 pub(crate) fn ensure_xml_obj(obj: &impl OSMObj) -> Result<(), OSMWriteError> {
     if let Some(user) = obj.user() {
@@ -463,6 +491,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
     fn set_header(&mut self, (key, value): (&str, &str)) -> Result<(), OSMWriteError> {
         match self._state {
             State::Initial => {
+                ensure_xml_name(key)?;
                 ensure_xml_text(value)?;
                 self.headers.insert(key.into(), value.into());
                 Ok(())
-- 
2.43.0

