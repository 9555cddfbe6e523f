From 81e7c8b334f0af3b98539c4d4fa12d57a0e9359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 01/23] fix: refuse values of the wrong type and unsupported
 encodings with an error instead of a panic

---
 tsfile-writer/src/writer/chunk_writer.rs | 6 ++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..f26674b 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -281,6 +281,12 @@ impl ChunkWriter {
     }
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         // self.statistics.update(timestamp, &value);
         match &mut self.current_page_writer {
             None => {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From cc559edc23839083948b43ea6c44405d6993b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 02/23] fix: keep the last timestamps of all series when memory
 is flushed to the file

---
 tsfile-writer/src/writer/tsfile_writer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..8319c36 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -246,6 +246,12 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             .measurement_groups
             .into_iter()
             .map(|(path, v)| {
+                // The last times have to survive the flush, otherwise out of order data is accepted
+                let last_time_map = self
+                    .non_aligned_timeseries_last_time_map
+                    .get(path)
+                    .cloned()
+                    .unwrap_or_default();
                 (
                     path,
                     GroupWriter {
@@ -265,7 +271,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        last_time_map,
                     },
                 )
             })
-- 
2.43.0


From 42830c74e7463e4ef509b1233e5cc6c3d6010a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 03/23] fix: TS2DIFF deltas wrap around instead of overflowing

---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..5f4b108 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = <$type>::wrapping_sub(value, self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From f34b810755e50df469e358356ee26ac4685c05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 04/23] fix: read_var_u32 does not stop at a byte of 0xFF

---
 tsfile-writer/src/writer/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/utils.rs b/tsfile-writer/src/writer/utils.rs
index 3eeed38..87d4117 100644
--- a/tsfile-writer/src/writer/utils.rs
+++ b/tsfile-writer/src/writer/utils.rs
@@ -56,7 +56,7 @@ pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
     let mut value: u32 = 0;
     let mut i: u8 = 0;
     let mut b = read_byte(buffer)?;
-    while b != u8::MAX && (b & 0x80) != 0 {
+    while (b & 0x80) != 0 {
         value |= ((b & 0x7F) as u32) << i;
         i += 7;
         b = read_byte(buffer)?;
-- 
2.43.0


From 6cb991286b6a173a929d4be1f9e3ee4df7f888a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 05/23] fix: minimum and maximum statistics of infinite values

---
 tsfile-writer/src/writer/statistics.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..4843e5c 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -120,14 +120,14 @@ impl StatisticsStruct<f32, f64> {
 }
 
 macro_rules! implement_statistics {
-    ( $type:ty, $sum:ty ) => {
+    ( $type:ty, $sum:ty, $greatest:expr, $least:expr ) => {
         impl StatisticsStruct<$type, $sum> {
             pub(crate) fn new() -> StatisticsStruct<$type, $sum> {
                 StatisticsStruct {
                     ts_first: i64::MAX,
                     ts_last: i64::MIN,
-                    min_value: <$type>::MAX,
-                    max_value: <$type>::MIN,
+                    min_value: $greatest,
+                    max_value: $least,
                     first_value: 0 as $type,
                     last_value: 0 as $type,
                     count: 0,
@@ -193,8 +193,8 @@ macro_rules! implement_statistics {
     };
 }
 
-implement_statistics!(i32, i64);
-implement_statistics!(i64, f64);
-implement_statistics!(f32, f64);
+implement_statistics!(i32, i64, i32::MAX, i32::MIN);
+implement_statistics!(i64, f64, i64::MAX, i64::MIN);
+implement_statistics!(f32, f64, f32::INFINITY, f32::NEG_INFINITY);
 // TODO Implement / use
 // implement_statistics!(f64);
-- 
2.43.0


From 3f47236eb288ddbf642b9f21f114806039ac3cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 06/23] fix: first value statistic of a series starting at the
 greatest timestamp

---
 tsfile-writer/src/writer/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 4843e5c..d2a27eb 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -136,7 +136,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
@@ -155,7 +155,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
-- 
2.43.0


From da54636019743e82938178b921924d064fe32097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 07/23] fix: Murmur128 wraps around instead of overflowing

---
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From 414d020549eccfdd251084b62c9b4d1b4fa009c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 08/23] fix: bloom filter position of a path whose hash is
 i32::MIN

---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..cc7b266 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -669,7 +669,7 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        self._murmur_hash(value, self.seed).unsigned_abs() as usize % self.cap as usize
     }
 }
 
-- 
2.43.0


From 30ffe5a2d5586a90613945865b65d14c5524c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 09/23] fix: size of the serialized bloom filter

---
 tsfile-writer/src/writer/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index cc7b266..a877bc1 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -735,11 +735,7 @@ impl BloomFilter {
     }
 
     fn serialize_bits(&self) -> Vec<u8> {
-        let number_of_bytes = if self.bit_set.len() % 8 == 0 {
-            self.bit_set.len() / 8
-        } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
-        };
+        let number_of_bytes = (self.bit_set.len() + 7) / 8;
 
         let mut result = vec![0_u8; number_of_bytes];
 
-- 
2.43.0


From 74dd80b845049ebe6ff560e0a4235b536018998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 10/23] fix: write_many counts the values written before a
 refused one

---
 tsfile-writer/src/writer/group_writer.rs  | 8 ++++----
 tsfile-writer/src/writer/tsfile_writer.rs | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..be61e19 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,12 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
-        let mut records = 0;
+        records: &mut u32,
+    ) -> Result<(), TsFileError> {
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            *records += self.write(dp.measurement_id, timestamp, dp.value)?;
         }
-        Ok(records)
+        Ok(())
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 8319c36..77708ee 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -158,8 +158,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     ) -> Result<(), TsFileError> {
         match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
-                self.record_count += records_written;
+                group.write_many(timestamp, values, &mut self.record_count)?;
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-- 
2.43.0


From 5794a6724494e5f079ce6c741073bff5a3d5e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 11/23] fix: report a file that cannot be created as an error

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 77708ee..97acad0 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -292,9 +292,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From 7eb4af10b4db06283fe19fd47241e163bf1d27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 12/23] fix: write index entries and nodes completely

---
 tsfile-writer/src/writer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index a877bc1..77e9d26 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -348,7 +348,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -369,7 +369,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
         write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -399,7 +399,7 @@ impl Serializable for MetadataIndexNode {
             metadata_index_entry.serialize(file);
         }
 
-        file.write(&self.end_offset.to_be_bytes());
+        file.write_all(&self.end_offset.to_be_bytes())?;
         self.node_type.serialize(file);
 
         Ok(())
-- 
2.43.0


From 313410ec1a67430220e3cd3dfc91d0ff49787153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 13/23] fix: devices in the metadata index are sorted

---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 77e9d26..90ec30d 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -507,7 +507,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From 41ea2c1c495f905674d999b6827d204e2eef083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 14/23] fix: index series by device and measurement, not by the
 last dot of their path

---
 tsfile-writer/src/writer/mod.rs              | 22 +++++---------------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 22 ++++++--------------
 2 files changed, 11 insertions(+), 33 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 90ec30d..7723eca 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -83,7 +83,6 @@
 #![allow(unused_must_use)]
 extern crate core;
 
-use std::cmp::Ordering;
 use std::collections::hash_map::IntoIter;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::{Display, Formatter};
@@ -220,26 +219,15 @@ pub struct MeasurementSchema {
     pub compression: CompressionType,
 }
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 struct Path {
-    path: String,
+    device: String,
+    measurement: String,
 }
 
 impl Display for Path {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.path)
-    }
-}
-
-impl Ord for Path {
-    fn cmp(&self, other: &Self) -> Ordering {
-        self.path.cmp(&other.path)
-    }
-}
-
-impl PartialOrd<Self> for Path {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.path.partial_cmp(&other.path)
+        write!(f, "{}.{}", self.device, self.measurement)
     }
 }
 
@@ -711,7 +699,7 @@ impl BloomFilter {
             BloomFilter::empty_filter(config.bloom_filter_error_rate, paths.len() as i32, config);
 
         for path in paths {
-            filter.add(path.path);
+            filter.add(path.to_string());
         }
 
         filter
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..30f395a 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -144,12 +144,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
-                );
                 let path = Path {
-                    path: device_path.clone(),
+                    device: group_metadata.device_id.clone(),
+                    measurement: chunk_metadata.measurement_id.clone(),
                 };
                 if !&chunk_metadata_map.contains_key(&path) {
                     chunk_metadata_map.insert(path.clone(), vec![]);
@@ -195,15 +192,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
+        let mut last_path: Option<Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
             // ensure that paths are printed in alphabetical order
             match &last_path {
-                None => last_path = Some(path.path.clone()),
+                None => last_path = Some(path.clone()),
                 Some(p) => {
                     assert!(
-                        p < &path.path,
+                        p < path,
                         "Something went wrong.. footer was written in wrong order"
                     );
                 }
@@ -240,14 +237,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
+            let device_id = path.device.clone();
 
             if !self.timeseries_metadata_map.contains_key(&device_id) {
                 self.timeseries_metadata_map
-- 
2.43.0


From 40030f4dc79f5e3b284e49c4f39a1143bb2c2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 15/23] fix: build the inner nodes of the metadata index

---
 tsfile-writer/src/writer/mod.rs | 52 +++++++++++----------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 7723eca..0aa1e34 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -442,49 +442,31 @@ impl MetadataIndexNode {
         //   queueSize = metadataIndexNodeQueue.size();
         // }
         // return metadataIndexNodeQueue.poll();
-        // TODO
-        let mut queue_size = measurement_metadata_index_queue.len();
-        let mut metadata_index_node;
-        let mut current_index_metadata = MetadataIndexNode::new(node_type.clone());
-
-        while queue_size != 1 {
-            for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
-                let device = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("...")
-                    }
-                    Some(inner) => inner.name.clone(),
-                };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
-                if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+        let mut current_index_node = MetadataIndexNode::new(node_type.clone());
+
+        while measurement_metadata_index_queue.len() != 1 {
+            for node in std::mem::take(&mut measurement_metadata_index_queue) {
+                // when constructing from internal node, each node is related to an entry
+                if current_index_node.is_full(config) {
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_node,
+                        &mut measurement_metadata_index_queue,
+                        file,
+                    );
+                    current_index_node = MetadataIndexNode::new(node_type.clone());
                 }
-                // ...
-                let name = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("This should not happen!")
-                    }
-                    Some(node) => node.name.clone(),
-                };
-                current_index_metadata.children.push(MetadataIndexEntry {
-                    name,
+                current_index_node.children.push(MetadataIndexEntry {
+                    name: node.children[0].name.clone(),
                     offset: file.get_position() as usize,
                 });
+                node.serialize(file);
             }
-            // ...
             Self::add_current_index_node_to_queue(
-                &mut current_index_metadata,
+                &mut current_index_node,
                 &mut measurement_metadata_index_queue,
                 file,
             );
-            current_index_metadata = MetadataIndexNode {
-                children: vec![],
-                end_offset: 0,
-                node_type: node_type.clone(),
-            };
-            queue_size = measurement_metadata_index_queue.len();
+            current_index_node = MetadataIndexNode::new(node_type.clone());
         }
         return measurement_metadata_index_queue.get(0).unwrap().clone();
     }
-- 
2.43.0


From 87f2f9140572b5f0c91719361c08a18ea4bb223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 16/23] fix: more than 256 devices in a file

---
 tsfile-writer/src/writer/mod.rs | 34 ++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 0aa1e34..8e4acbf 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -316,6 +316,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -335,6 +336,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write_all(&[byte])?;
 
@@ -542,7 +544,37 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (s, value) in device_metadata_index_map {
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: s,
+                offset: file.get_position() as usize,
+            });
+            value.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+
+        Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        )
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
-- 
2.43.0


From 1eb10b91ace239ab7f5d8f6cefb016c7a954d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 17/23] fix: a check answered with an error status is no
 successful handshake

---
 tsfile-writer/src/sync/sync_sender.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..ca4cbd4 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -118,8 +118,8 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            Ok(status) if status.code >= 0 => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
-- 
2.43.0


From 7d6768fbd5defc0a6d425ab0f6a15aba2753abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 18/23] verification hooks: accessors (cfg tsfile_verif) and
 small limits (cfg tsfile_verif_small)

---
 tsfile-writer/src/writer/chunk_writer.rs  |  9 +++++++
 tsfile-writer/src/writer/mod.rs           |  2 ++
 tsfile-writer/src/writer/tsfile_writer.rs |  6 +++++
 tsfile-writer/src/writer/verif.rs         | 29 +++++++++++++++++++++++
 4 files changed, 46 insertions(+)
 create mode 100644 tsfile-writer/src/writer/verif.rs

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index f26674b..c0f9107 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -13,9 +13,18 @@ use std::io;
 use std::io::Write;
 
 const MAX_NUMBER_OF_POINTS_IN_PAGE: u32 = 1048576;
+#[cfg(not(tsfile_verif_small))]
 const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 7989;
+#[cfg(tsfile_verif_small)]
+const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 2;
+#[cfg(not(tsfile_verif_small))]
 const PAGE_SIZE_THRESHOLD: u32 = 65536;
+#[cfg(tsfile_verif_small)]
+const PAGE_SIZE_THRESHOLD: u32 = 60;
+#[cfg(not(tsfile_verif_small))]
 const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 1500;
+#[cfg(tsfile_verif_small)]
+const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 2;
 
 struct PageWriter {
     time_encoder: LongTs2DiffEncoder,
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 8e4acbf..1d89223 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -104,6 +104,8 @@ pub mod ts_file_config;
 mod tsfile_io_writer;
 pub mod tsfile_writer;
 mod utils;
+#[cfg(tsfile_verif)]
+pub mod verif;
 
 use crate::writer::chunk_writer::ChunkMetadata;
 use crate::writer::compression::CompressionType;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 97acad0..ce4209f 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -11,7 +11,10 @@ use std::borrow::Borrow;
 use std::collections::{BTreeMap, HashMap};
 use std::fs::{create_dir_all, File};
 
+#[cfg(not(tsfile_verif_small))]
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;
+#[cfg(tsfile_verif_small)]
+const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 250;
 
 /// Class defined to hold a datapoint for writing into a given device.
 /// Consists of a measurement_id and a value
@@ -344,7 +347,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             chunk_group_metadata: vec![],
             timeseries_metadata_map: HashMap::new(),
             record_count: 0,
+            #[cfg(not(tsfile_verif_small))]
             record_count_for_next_mem_check: 100,
+            #[cfg(tsfile_verif_small)]
+            record_count_for_next_mem_check: 2,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
diff --git a/tsfile-writer/src/writer/verif.rs b/tsfile-writer/src/writer/verif.rs
new file mode 100644
index 0000000..cb9c378
--- /dev/null
+++ b/tsfile-writer/src/writer/verif.rs
@@ -0,0 +1,29 @@
+//! Access to internals for the verification harness.
+//! Only compiled with `RUSTFLAGS="--cfg tsfile_verif"`.
+use crate::writer::encoding::{Encoder, TSEncoding};
+use crate::writer::errors::TsFileError;
+use crate::writer::murmur128::Murmur128;
+use crate::writer::ts_file_config::TsFileConfig;
+use crate::writer::TSDataType;
+
+pub use crate::writer::utils::{
+    read_var_u32, size_var_i32, size_var_u32, write_var_i32, write_var_u32,
+};
+
+pub fn murmur(value: &str, seed: i32) -> i32 {
+    Murmur128::hash(value, seed)
+}
+
+pub fn encoder(
+    data_type: TSDataType,
+    encoding: TSEncoding,
+) -> Result<Box<dyn Encoder>, TsFileError> {
+    <dyn Encoder>::new(data_type, encoding)
+}
+
+pub fn config(max_degree_of_index_node: usize) -> TsFileConfig {
+    TsFileConfig {
+        max_degree_of_index_node,
+        ..Default::default()
+    }
+}
-- 
2.43.0


From cce511be42164d50e48ee85f794694a6a024dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:06 +0000
Subject: [PATCH 19/23] verif: access to the metadata log (guarded by cfg
 tsfile_verif)

---
 tsfile-writer/src/sync/mod.rs         |  2 ++
 tsfile-writer/src/sync/sync_sender.rs |  6 +++++
 tsfile-writer/src/sync/verif.rs       | 38 +++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 tsfile-writer/src/sync/verif.rs

diff --git a/tsfile-writer/src/sync/mod.rs b/tsfile-writer/src/sync/mod.rs
index 1daaf15..7c3793d 100644
--- a/tsfile-writer/src/sync/mod.rs
+++ b/tsfile-writer/src/sync/mod.rs
@@ -8,3 +8,5 @@ mod mlog;
 #[allow(clippy::module_inception)] // is not exported
 mod sync;
 pub mod sync_sender;
+#[cfg(tsfile_verif)]
+pub mod verif;
diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index ca4cbd4..fee91fc 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -240,6 +240,12 @@ impl
     }
 }
 
+/// Access to internals for the verification harness.
+#[cfg(tsfile_verif)]
+pub fn verif_write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
+    SyncSender::write_mlog(storage_group, schema)
+}
+
 #[cfg(test)]
 mod tests {
     use crate::sync::sync_sender::SyncSender;
diff --git a/tsfile-writer/src/sync/verif.rs b/tsfile-writer/src/sync/verif.rs
new file mode 100644
index 0000000..c007148
--- /dev/null
+++ b/tsfile-writer/src/sync/verif.rs
@@ -0,0 +1,38 @@
+//! Access to internals for the verification harness.
+//! Only compiled with `RUSTFLAGS="--cfg tsfile_verif"`.
+use std::io::Write;
+
+use crate::sync::mlog::MLog;
+use crate::writer::compression::CompressionType;
+use crate::writer::encoding::TSEncoding;
+use crate::writer::errors::TsFileError;
+use crate::writer::TSDataType;
+
+pub struct Log(MLog);
+
+impl Log {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Log {
+        Log(MLog::new())
+    }
+
+    pub fn storage_group(&mut self, path: &str) -> Result<(), TsFileError> {
+        self.0.set_storage_group_plan(path)
+    }
+
+    pub fn create(
+        &mut self,
+        path: &str,
+        data_type: TSDataType,
+        encoding: TSEncoding,
+        compression: CompressionType,
+    ) -> Result<(), TsFileError> {
+        self.0.create_plan(path, data_type, encoding, compression)
+    }
+
+    pub fn flush(&mut self, writer: &mut dyn Write) -> Result<usize, std::io::Error> {
+        self.0.flush(writer)
+    }
+}
+
+pub use crate::sync::sync_sender::verif_write_mlog as write_mlog;
-- 
2.43.0


From 070d2f619a8e381060989dd6483d7950afca0576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:46 +0000
Subject: [PATCH 20/23] fix: report a failing disk instead of dropping its
 errors

The results of writes to the file were ignored when chunks are flushed and
when the file is finished: on a full disk write and close seemed to succeed.
---
 tsfile-writer-c/src/lib.rs                   |  2 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 14 ++---
 tsfile-writer/src/writer/group_writer.rs     |  6 +--
 tsfile-writer/src/writer/mod.rs              | 56 ++++++++++----------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 28 +++++-----
 tsfile-writer/src/writer/tsfile_writer.rs    | 14 ++---
 6 files changed, 62 insertions(+), 58 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..66af4ed 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,6 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        _b.close().unwrap();
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index c0f9107..7307678 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -217,24 +217,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -245,13 +246,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -267,6 +268,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index be61e19..6f0d717 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -35,7 +35,7 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
         self.seal_all_chunks();
@@ -43,10 +43,10 @@ impl<'a> GroupWriter<'a> {
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 1d89223..750efbf 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -360,7 +360,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
+        write_str(file, self.name.as_str())?;
         file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
@@ -385,14 +385,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
         file.write_all(&self.end_offset.to_be_bytes())?;
-        self.node_type.serialize(file);
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -425,7 +425,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -463,7 +463,7 @@ impl MetadataIndexNode {
                     name: node.children[0].name.clone(),
                     offset: file.get_position() as usize,
                 });
-                node.serialize(file);
+                node.serialize(file)?;
             }
             Self::add_current_index_node_to_queue(
                 &mut current_index_node,
@@ -472,7 +472,7 @@ impl MetadataIndexNode {
             );
             current_index_node = MetadataIndexNode::new(node_type.clone());
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        return Ok(measurement_metadata_index_queue.get(0).unwrap().clone());
     }
 
     #[allow(unused_variables)]
@@ -480,7 +480,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -513,7 +513,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -528,7 +528,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -540,10 +540,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -563,7 +563,7 @@ impl MetadataIndexNode {
                 name: s,
                 offset: file.get_position() as usize,
             });
-            value.serialize(file);
+            value.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -617,7 +617,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -625,13 +625,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -776,10 +776,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -803,15 +803,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index 30f395a..4f9024d 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -162,15 +163,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -178,20 +179,21 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut last_path: Option<Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index ce4209f..76ebdac 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -123,10 +123,10 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.flush_all_chunk_groups()?;
+        self.file_io_writer.end_file()
     }
 }
 
@@ -149,7 +149,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -165,7 +165,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -209,7 +209,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -217,7 +217,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
-- 
2.43.0


From d9b72879c40d36f71b093103bd023eaac3f614ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:07 +0000
Subject: [PATCH 21/23] verif: a writer at any position of its file (guarded by
 cfg tsfile_verif_far)

---
 tsfile-writer/src/writer/verif.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tsfile-writer/src/writer/verif.rs b/tsfile-writer/src/writer/verif.rs
index cb9c378..0b3a169 100644
--- a/tsfile-writer/src/writer/verif.rs
+++ b/tsfile-writer/src/writer/verif.rs
@@ -27,3 +27,21 @@ pub fn config(max_degree_of_index_node: usize) -> TsFileConfig {
         ..Default::default()
     }
 }
+
+/// a writer that believes to be at a position far behind the start of its file
+#[cfg(tsfile_verif_far)]
+pub fn writer_at<'a>(
+    filename: &str,
+    schema: crate::writer::Schema<'a>,
+    config: TsFileConfig,
+    position: u64,
+) -> Result<
+    crate::writer::tsfile_writer::TsFileWriter<'a, crate::writer::WriteWrapper<std::fs::File>>,
+    TsFileError,
+> {
+    let file = crate::writer::WriteWrapper {
+        position,
+        writer: std::fs::File::create(filename)?,
+    };
+    crate::writer::tsfile_writer::TsFileWriter::new_from_writer(schema, file, config)
+}
-- 
2.43.0


From ff7ddb4fd7324191addaa4fede1d8a9421502cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:46 +0000
Subject: [PATCH 22/23] fix: a file is finished once, and never after a part of
 it could not be written

Writes after close were accepted and lost, a second close wrote the metadata
again, and after a failed flush (such as on a full disk) a later close reported
success for a file with broken or repeated chunks.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 76ebdac..9484cf3 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -120,14 +120,27 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     pub schema: Schema<'a>,
     #[allow(dead_code)]
     config: TsFileConfig,
+    // set when the file is finished, or when a part of it could not be written
+    closed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
+        self.check_open()?;
+        self.closed = true;
         self.flush_all_chunk_groups()?;
         self.file_io_writer.end_file()
     }
+
+    fn check_open(&self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Err(TsFileError::IllegalState {
+                source: Some("Writer is closed or has failed".to_owned()),
+            });
+        }
+        Ok(())
+    }
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
@@ -138,6 +151,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_open()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -159,6 +173,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_open()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 group.write_many(timestamp, values, &mut self.record_count)?;
@@ -184,7 +199,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
                     / mem_size as u64)
                     as u32;
-                return self.flush_all_chunk_groups();
+                let flushed = self.flush_all_chunk_groups();
+                // Nothing that follows makes up for what was lost
+                self.closed = flushed.is_err();
+                return flushed;
             } else {
                 // println!("Record Count: {}, CHUNK_GROUP_SIZE_THRESHOLD_BYTE: {}, memsize: {}", self.record_count_for_next_mem_check, CHUNK_GROUP_SIZE_THRESHOLD_BYTE, mem_size);
                 // in the java impl there can be an overflow...
@@ -353,6 +371,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             record_count_for_next_mem_check: 2,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
+            closed: false,
             file_io_writer: io_writer,
         })
     }
-- 
2.43.0


From 2b227f71aa0825fc025b47d5d80c8e9c11c6f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:49 +0000
Subject: [PATCH 23/23] verif: small pages with the memory limit as it is
 (guarded by cfg tsfile_verif_pages)

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 9484cf3..b04b614 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -11,9 +11,9 @@ use std::borrow::Borrow;
 use std::collections::{BTreeMap, HashMap};
 use std::fs::{create_dir_all, File};
 
-#[cfg(not(tsfile_verif_small))]
+#[cfg(any(not(tsfile_verif_small), tsfile_verif_pages))]
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;
-#[cfg(tsfile_verif_small)]
+#[cfg(all(tsfile_verif_small, not(tsfile_verif_pages)))]
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 250;
 
 /// Class defined to hold a datapoint for writing into a given device.
-- 
2.43.0

