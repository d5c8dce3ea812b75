From e7da4340e736f22c4f1cc8e9abac397e90ceefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 01/10] fix: report a stream that ends inside the blob header
 size as an error

BlobReader treated 1-3 trailing bytes (and an UnexpectedEof error raised by
the underlying reader) as the regular end of the stream.
---
 src/blob.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..8262e0f 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -3,7 +3,7 @@
 use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
 use crate::proto::fileformat;
-use byteorder::ReadBytesExt;
+use byteorder::ByteOrder;
 use protobuf::Message;
 use std::fs::File;
 use std::io::{BufReader, Read, Seek, SeekFrom};
@@ -187,25 +187,27 @@ impl<R: Read + Send> BlobReader<R> {
     }
 
     fn read_blob_header(&mut self) -> Option<Result<fileformat::BlobHeader>> {
-        let header_size: u64 = match self.reader.read_u32::<byteorder::BigEndian>() {
-            Ok(n) => {
-                self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
-                u64::from(n)
+        // Read the four bytes of the header size manually to be able to distinguish the regular end
+        // of the stream (no bytes left) from a truncated stream (1-3 bytes left).
+        let mut size_bytes = [0_u8; 4];
+        let mut num_bytes = 0;
+        while num_bytes < size_bytes.len() {
+            match self.reader.read(&mut size_bytes[num_bytes..]) {
+                Ok(0) if num_bytes == 0 => {
+                    self.offset = None;
+                    return None;
+                }
+                Ok(n) if n > 0 => num_bytes += n,
+                Err(e) if e.kind() == ::std::io::ErrorKind::Interrupted => {}
+                _ => {
+                    self.offset = None;
+                    self.last_blob_ok = false;
+                    return Some(Err(new_blob_error(BlobError::InvalidHeaderSize)));
+                }
             }
-            Err(e) => {
-                self.offset = None;
-                return match e.kind() {
-                    ::std::io::ErrorKind::UnexpectedEof => {
-                        //TODO This also accepts corrupted files in the case of 1-3 available bytes
-                        None
-                    }
-                    _ => {
-                        self.last_blob_ok = false;
-                        Some(Err(new_blob_error(BlobError::InvalidHeaderSize)))
-                    }
-                };
-            }
-        };
+        }
+        let header_size = u64::from(byteorder::BigEndian::read_u32(&size_bytes));
+        self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
 
         if header_size >= MAX_BLOB_HEADER_SIZE {
             self.last_blob_ok = false;
-- 
2.43.0


From b0b124ed0a1814f882c5e3206b20c706892aa6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 02/10] fix: reject negative blob data sizes

A negative datasize was cast to a huge unsigned value: BlobReader swallowed
the rest of the file or panicked, next_header_skip_blob could loop forever by
seeking backwards and MmapBlobReader panicked.
---
 src/blob.rs      | 8 ++++++++
 src/mmap_blob.rs | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 8262e0f..a7588be 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -226,6 +226,14 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            let io_error =
+                ::std::io::Error::new(::std::io::ErrorKind::InvalidData, "negative blob data size");
+            return Some(Err(io_error.into()));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..2a6db9f 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -219,6 +219,13 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.last_blob_ok = false;
+            let io_error =
+                ::std::io::Error::new(::std::io::ErrorKind::InvalidData, "negative blob data size");
+            return Some(Err(io_error.into()));
+        }
+
         let data_size = header.datasize() as usize;
         let chunk_size = 4 + header_size + data_size;
 
-- 
2.43.0


From cc06388784c04f3d652fcc3258627ffc2f6c3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 03/10] fix: report blobs that are cut off at a field boundary
 as truncated

BlobReader only relied on the protobuf parser to notice missing bytes. If the
stream ended between two fields (or right after the header) the shortened
blob was accepted. MmapBlobReader already rejects these files.
---
 src/blob.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index a7588be..90334c7 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -226,6 +226,16 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if reader.limit() > 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            let io_error = ::std::io::Error::new(
+                ::std::io::ErrorKind::UnexpectedEof,
+                "content too short for header",
+            );
+            return Some(Err(io_error.into()));
+        }
+
         if header.datasize() < 0 {
             self.offset = None;
             self.last_blob_ok = false;
@@ -296,6 +306,16 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
             }
         };
 
+        if reader.limit() > 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            let io_error = ::std::io::Error::new(
+                ::std::io::ErrorKind::UnexpectedEof,
+                "content too short for block data",
+            );
+            return Some(Err(io_error.into()));
+        }
+
         self.offset = self
             .offset
             .map(|x| ByteOffset(x.0 + header.datasize() as u64));
-- 
2.43.0


From 539918554ea9609302f76dca4be02f9e63299f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 04/10] fix: stop MmapBlobReader after an error and after
 seeking past the end

last_blob_ok was recorded but never checked, so that iterating over a damaged
file yielded the same error forever. Seeking past the end of the memory map
made the next iteration step panic.
---
 src/mmap_blob.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index 2a6db9f..e7b108b 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,7 +183,13 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let slice = &self.mmap.as_slice()[self.offset..];
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
+        // There are no blobs at or after the end of the memory map.
+        let slice = self.mmap.as_slice().get(self.offset..).unwrap_or(&[]);
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From 591ce5b8e8cb4a71e205098682e6b4b774fda3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 05/10] fix: report zlib blobs that exceed the maximum message
 size

The decompressed data was silently cut off at MAX_BLOB_MESSAGE_SIZE. If the
cut happened at a field boundary all following elements were lost without an
error.
---
 src/blob.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index 90334c7..db93c82 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -492,7 +492,14 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let result = T::parse_from_reader(&mut decoder);
+        if decoder.limit() == 0 {
+            // The decompressed data was cut off, so do not trust the result.
+            return Err(new_blob_error(BlobError::MessageTooBig {
+                size: MAX_BLOB_MESSAGE_SIZE,
+            }));
+        }
+        result.map_err(|e| new_protobuf_error(e, "blob zlib data"))
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0


From 0a295c12d57276ae5f70c13aaf590c5cdb33f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/10] fix: do not keep a partial index if creating the index
 fails

After a failed create_index, following calls used the incomplete index and
silently skipped all blobs after the failure.
---
 src/indexed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..c3eaa64 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -148,6 +148,9 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
             return Ok(());
         }
 
+        // Only store the index when it is complete, otherwise an error would leave a partial index.
+        let mut index = vec![];
+
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
@@ -161,13 +164,15 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
 
+        self.index = index;
+
         Ok(())
     }
 
-- 
2.43.0


From f1c0c8ab5e7de724136cef401da6022f2c8c884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 07/10] fix: allow reading blobs again after an error and a
 successful seek

After any error BlobReader ended the iteration for good. blob_from_offset then
failed with a misleading "no blob at this stream position" and a repeated
create_index of IndexedReader built an empty index.
---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index db93c82..aae8a4b 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -406,6 +406,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -420,6 +421,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From 7b22c64a63bd10b808572b8c53de6c002ceb9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 08/10] fix: do not panic on relation members with an unknown
 type

As usual for protobuf, unrecognized enum values are ignored.
---
 src/elements.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..3c0cbd1 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -485,21 +485,27 @@ impl<'a> Iterator for RelMemberIter<'a> {
     type Item = RelMember<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match (
-            self.role_sids.next(),
-            self.member_id_deltas.next(),
-            self.member_types.next(),
-        ) {
-            (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
-                self.current_member_id += *mem_id_delta;
-                Some(RelMember {
-                    block: self.block,
-                    role_sid: *role_sid,
-                    member_id: self.current_member_id,
-                    member_type: RelMemberType::from(*member_type),
-                })
+        loop {
+            match (
+                self.role_sids.next(),
+                self.member_id_deltas.next(),
+                self.member_types.next(),
+            ) {
+                (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
+                    self.current_member_id += *mem_id_delta;
+                    if member_type.enum_value().is_err() {
+                        // Skip members with an unknown type.
+                        continue;
+                    }
+                    return Some(RelMember {
+                        block: self.block,
+                        role_sid: *role_sid,
+                        member_id: self.current_member_id,
+                        member_type: RelMemberType::from(*member_type),
+                    });
+                }
+                _ => return None,
             }
-            _ => None,
         }
     }
 
-- 
2.43.0


From dfb016aa054b8c5645df764790261617b50893de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 09/10] fix: do not panic on overflowing deltas and coordinates
 in damaged files

Builds with overflow checks panicked on values that can only occur in damaged
files. Use wrapping arithmetic, which equals the behavior of release builds.
---
 src/dense.rs    | 23 +++++++++++++----------
 src/elements.rs | 31 ++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/dense.rs b/src/dense.rs
index 577e327..69d4d4d 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -39,7 +39,8 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.lat
+        let scaled = i64::from(self.block.granularity()).wrapping_mul(self.lat);
+        self.block.lat_offset().wrapping_add(scaled)
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -54,7 +55,8 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon
+        let scaled = i64::from(self.block.granularity()).wrapping_mul(self.lon);
+        self.block.lon_offset().wrapping_add(scaled)
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -146,9 +148,9 @@ impl<'a> Iterator for DenseNodeIter<'a> {
             self.info_iter.as_mut().and_then(|iter| iter.next()),
         ) {
             (Some(did), Some(dlat), Some(dlon), info) => {
-                self.cid += *did;
-                self.clat += *dlat;
-                self.clon += *dlon;
+                self.cid = self.cid.wrapping_add(*did);
+                self.clat = self.clat.wrapping_add(*dlat);
+                self.clon = self.clon.wrapping_add(*dlon);
 
                 let start_index = self.keys_vals_index;
                 let mut end_index = start_index;
@@ -223,7 +225,8 @@ impl<'a> DenseNodeInfo<'a> {
 
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> i64 {
-        self.timestamp * i64::from(self.block.date_granularity())
+        self.timestamp
+            .wrapping_mul(i64::from(self.block.date_granularity()))
     }
 
     /// Returns the visibility status of an element. This is only relevant if the PBF file contains
@@ -296,10 +299,10 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                 Some(duser_sid),
                 visible_opt,
             ) => {
-                self.ctimestamp += *dtimestamp;
-                self.cchangeset += *dchangeset;
-                self.cuid += *duid;
-                self.cuser_sid += *duser_sid;
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
+                self.cuid = self.cuid.wrapping_add(*duid);
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
                 Some(DenseNodeInfo {
                     block: self.block,
                     version,
diff --git a/src/elements.rs b/src/elements.rs
index 3c0cbd1..b5b3495 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -87,7 +87,8 @@ impl<'a> Node<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
+        let scaled = i64::from(self.block.granularity()).wrapping_mul(self.osmnode.lat());
+        self.block.lat_offset().wrapping_add(scaled)
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -102,7 +103,8 @@ impl<'a> Node<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.osmnode.lon()
+        let scaled = i64::from(self.block.granularity()).wrapping_mul(self.osmnode.lon());
+        self.block.lon_offset().wrapping_add(scaled)
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -335,7 +337,7 @@ impl Iterator for WayRefIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.deltas.next() {
             Some(&d) => {
-                self.current += d;
+                self.current = self.current.wrapping_add(d);
                 Some(self.current)
             }
             None => None,
@@ -404,11 +406,18 @@ impl Iterator for WayNodeLocationsIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match (self.dlats.next(), self.dlons.next()) {
             (Some(&dlat), Some(&dlon)) => {
-                self.clat += dlat;
-                self.clon += dlon;
+                self.clat = self.clat.wrapping_add(dlat);
+                self.clon = self.clon.wrapping_add(dlon);
+                let granularity = i64::from(self.block.granularity());
                 Some(WayNodeLocation {
-                    lat: self.block.lat_offset() + i64::from(self.block.granularity()) * self.clat,
-                    lon: self.block.lon_offset() + i64::from(self.block.granularity()) * self.clon,
+                    lat: self
+                        .block
+                        .lat_offset()
+                        .wrapping_add(granularity.wrapping_mul(self.clat)),
+                    lon: self
+                        .block
+                        .lon_offset()
+                        .wrapping_add(granularity.wrapping_mul(self.clon)),
                 })
             }
             _ => None,
@@ -492,7 +501,7 @@ impl<'a> Iterator for RelMemberIter<'a> {
                 self.member_types.next(),
             ) {
                 (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
-                    self.current_member_id += *mem_id_delta;
+                    self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                     if member_type.enum_value().is_err() {
                         // Skip members with an unknown type.
                         continue;
@@ -589,7 +598,11 @@ impl<'a> Info<'a> {
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> Option<i64> {
         if self.info.has_timestamp() {
-            Some(self.info.timestamp() * i64::from(self.block.date_granularity()))
+            Some(
+                self.info
+                    .timestamp()
+                    .wrapping_mul(i64::from(self.block.date_granularity())),
+            )
         } else {
             None
         }
-- 
2.43.0


From 3339fc934c6ca9e1d731991288226b6cc951ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 10/10] fix: report blocks that end inside of a nested message

---
 src/blob.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index aae8a4b..5cda869 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -4,7 +4,7 @@ use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
 use crate::proto::fileformat;
 use byteorder::ByteOrder;
-use protobuf::Message;
+use protobuf::{CodedInputStream, Message};
 use std::fs::File;
 use std::io::{BufReader, Read, Seek, SeekFrom};
 use std::path::Path;
@@ -484,24 +484,38 @@ impl BlobReader<BufReader<File>> {
     }
 }
 
+/// Parse a message that spans all of `data`. `Message::parse_from_bytes` sets no limit, so it
+/// accepts a last nested message that claims to be longer than the available data.
+fn parse_message<T: Message>(data: &[u8]) -> protobuf::Result<T> {
+    let mut input = CodedInputStream::from_bytes(data);
+    input.push_limit(data.len() as u64)?;
+    let message = T::parse_from(&mut input)?;
+    input.check_eof()?;
+    Ok(message)
+}
+
 pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
     if blob.has_raw() {
         let size = blob.raw().len() as u64;
         if size < MAX_BLOB_MESSAGE_SIZE {
-            T::parse_from_bytes(blob.raw()).map_err(|e| new_protobuf_error(e, "raw blob data"))
+            parse_message(blob.raw()).map_err(|e| new_protobuf_error(e, "raw blob data"))
         } else {
             Err(new_blob_error(BlobError::MessageTooBig { size }))
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        let result = T::parse_from_reader(&mut decoder);
+        let mut data = Vec::new();
+        let result = decoder.read_to_end(&mut data);
         if decoder.limit() == 0 {
-            // The decompressed data was cut off, so do not trust the result.
+            // The decompressed data was cut off.
             return Err(new_blob_error(BlobError::MessageTooBig {
                 size: MAX_BLOB_MESSAGE_SIZE,
             }));
         }
-        result.map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        result
+            .map_err(|e| e.into())
+            .and_then(|_| parse_message(&data))
+            .map_err(|e| new_protobuf_error(e, "blob zlib data"))
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0

