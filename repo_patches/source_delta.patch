From e63ba0cc202921315096ade7b02f0de6d1c2f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 01/31] fix: swapped sizes of streamed entries when ZIP64 is
 forbidden

---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 0d3c1c5eabd9a06a26114dc37a6c0b42d132fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 02/31] fix: stale generated extra fields of entries copied
 from another archive

---
 src/base/write/entry_stream.rs |  3 +++
 src/base/write/entry_whole.rs  |  3 +++
 src/base/write/mod.rs          | 29 +++++++++++++++++++++++++----
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..e7ff65d 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -5,6 +5,7 @@ use crate::base::write::compressed_writer::CompressedAsyncWriter;
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::io::offset::AsyncOffsetWriter;
+use crate::base::write::remove_generated_extra_fields;
 use crate::base::write::CentralDirectoryEntry;
 use crate::base::write::ZipFileWriter;
 use crate::entry::ZipEntry;
@@ -105,6 +106,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        remove_generated_extra_fields(&mut entry.extra_fields);
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..376f491 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -5,6 +5,7 @@ use std::borrow::Cow;
 
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
+use crate::base::write::remove_generated_extra_fields;
 use crate::base::write::{CentralDirectoryEntry, ZipFileWriter};
 use crate::entry::ZipEntry;
 use crate::error::{Result, Zip64ErrorCase, ZipError};
@@ -147,6 +148,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        remove_generated_extra_fields(&mut self.entry.extra_fields);
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..41efa90 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -288,16 +288,34 @@ where
     }
 }
 
+/// Removes the extra fields which the entry writers generate themselves.
+///
+/// An entry which was read from another archive carries those of that archive, which describe other sizes, offsets, and
+/// possibly another filename and comment.
+pub(crate) fn remove_generated_extra_fields(extra_fields: &mut Vec<ExtraField>) {
+    extra_fields.retain(|field| {
+        !matches!(
+            field,
+            ExtraField::Zip64ExtendedInformation(_)
+                | ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })
+                | ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })
+        )
+    });
+}
+
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -308,13 +326,16 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From 36f244da8b8e4af49338152a2e2b01cbe45b91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 03/31] fix: underflow when an extra field declares more data
 than remain

---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 422d468..d5fb95f 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From 1f90e467609b5d3644f7d7b937e72c4ebcbd22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 04/31] fix: trailing extra field without data was dropped

---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index d5fb95f..1c85a1a 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -267,7 +267,7 @@ impl Zip64EndOfCentralDirectoryLocator {
 pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut cursor = 0;
     let mut extra_fields = Vec::new();
-    while cursor + 4 < data.len() {
+    while cursor + 4 <= data.len() {
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-- 
2.43.0


From aa3fd99c4ed2cd0c035d0fa3b7ca82906084520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 05/31] fix: allocation by the declared number of entries

---
 src/base/read/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..583759c 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -85,8 +85,9 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    // The number of entries is untrusted, so do not allocate for it in advance.
+    let mut entries = Vec::new();
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From d04cfabca1c95e3c7b7697379d93fdf010dac2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 06/31] fix: overflow of the ZIP64 end record offset

---
 src/base/read/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 583759c..1c20386 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -58,7 +58,8 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    let offset = locator.relative_offset.checked_add(SIGNATURE_LENGTH as u64);
+                    reader.seek(SeekFrom::Start(offset.ok_or(ZipError::UnableToLocateEOCDR)?)).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From 4194b3a82695718b710ff20b47a24a34f86a9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 07/31] fix: names, comments and extra fields cut off by the
 end of data were accepted

---
 src/base/read/io/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..347d695 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -28,6 +28,9 @@ where
 {
     let mut buffer = Vec::with_capacity(length);
     reader.take(length as u64).read_to_end(&mut buffer).await?;
+    if buffer.len() != length {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(buffer)
 }
-- 
2.43.0


From 12d39d01a1b36f41523a4391ba44a38052814c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 08/31] fix: length of an archive comment above 65535 bytes
 wrapped around

---
 src/base/write/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 41efa90..b264b20 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::Result;
+use crate::error::{Result, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -187,6 +187,8 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<W> {
+        let file_comm_length = self.comment_opt.as_ref().map(|v| v.len()).unwrap_or_default();
+        let file_comm_length = file_comm_length.try_into().map_err(|_| ZipError::CommentTooLarge)?;
         let cd_offset = self.writer.offset();
 
         for entry in &self.cd_entries {
@@ -258,7 +260,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From 4d9df749b6500a510ebe31066f32bf1ec69366d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 09/31] fix: date components set on a builder were merged with
 those already present

---
 src/date/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..1be2377 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -26,36 +26,36 @@ impl ZipDateTimeBuilder {
 
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
-        let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        let year: u16 = ((year.wrapping_sub(1980) << 9) & 0xFE00).try_into().unwrap();
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From 9ddf2399caa1175b50e6928c05a1cb0182d9863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 10/31] fix: stream reading an archive without entries

---
 src/base/read/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 1c20386..1699a75 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,10 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    ZIP64_EOCDR_SIGNATURE,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -209,6 +212,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // Without any entries there is no central directory, only its end records.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From 8e799e84fa955feeb6a4911763a987ada4385016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 11/31] fix: end record signature within the archive comment
 was taken for the end record

---
 src/base/read/io/locator.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/base/read/io/locator.rs b/src/base/read/io/locator.rs
index 5e7c0ad..bc468bd 100644
--- a/src/base/read/io/locator.rs
+++ b/src/base/read/io/locator.rs
@@ -51,6 +51,10 @@ where
     let signature = &EOCDR_SIGNATURE.to_le_bytes();
     let mut buffer: [u8; BUFFER_SIZE] = [0; BUFFER_SIZE];
 
+    // The last signature found so far which is not that of a record whose comment extends to the end of the data. That
+    // is either one within the comment, or that of a record followed by foreign data.
+    let mut fallback = None;
+
     let mut position = length.saturating_sub(BUFFER_SIZE as u64);
     reader.seek(SeekFrom::Start(position)).await?;
 
@@ -66,19 +70,27 @@ where
             read += bytes_read;
         }
 
-        if let Some(match_index) = reverse_search_buffer(&buffer[..read], signature) {
-            return Ok(position + (match_index + 1) as u64);
+        let mut search = read.saturating_sub(EOCDR_LENGTH);
+        while let Some(match_index) = reverse_search_buffer(&buffer[..search], signature) {
+            let end = match_index + 1 + EOCDR_LENGTH;
+            let comment_length = u16::from_le_bytes([buffer[end - 2], buffer[end - 1]]);
+            let offset = position + (match_index + 1) as u64;
+            if position + end as u64 + comment_length as u64 == length {
+                return Ok(offset);
+            }
+            fallback = fallback.or(Some(offset));
+            search = match_index;
         }
 
         // If we hit the start of the data or the lower bound, we're unable to locate the EOCDR.
         if position == 0 || position <= length.saturating_sub(EOCDR_LOWER_BOUND) {
-            return Err(ZipError::UnableToLocateEOCDR);
+            return fallback.ok_or(ZipError::UnableToLocateEOCDR);
         }
 
-        // To handle the case where the EOCDR signature crosses buffer boundaries, we simply overlap reads by the
-        // signature length. This significantly reduces the complexity of handling partial matches with very little
+        // To handle the case where the EOCDR crosses buffer boundaries, we simply overlap reads by the length of the
+        // EOCDR and its signature. This significantly reduces the complexity of handling partial matches with very little
         // overhead.
-        position = position.saturating_sub((BUFFER_SIZE - SIGNATURE_LENGTH) as u64);
+        position = position.saturating_sub((BUFFER_SIZE - SIGNATURE_LENGTH - EOCDR_LENGTH) as u64);
         reader.seek(SeekFrom::Start(position)).await?;
     }
 }
-- 
2.43.0


From 9defcd3d740996264b0a6082a1925569989ee0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 12/31] fix: compress() panicked for stored entries

---
 src/base/write/entry_whole.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 376f491..1bee3d2 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -258,6 +258,7 @@ pub async fn compress(entry: &ZipEntry, data: &[u8]) -> Vec<u8> {
     let level = entry.compression_level;
 
     match entry.compression() {
+        Compression::Stored => data.to_vec(),
         #[cfg(feature = "deflate")]
         Compression::Deflate => {
             let mut writer = write::DeflateEncoder::with_quality(Cursor::new(Vec::new()), level);
@@ -295,7 +296,6 @@ pub async fn compress(entry: &ZipEntry, data: &[u8]) -> Vec<u8> {
             writer.close().await.unwrap();
             writer.into_inner().into_inner()
         }
-        _ => unreachable!(),
     }
 }
 
-- 
2.43.0


From 412a2b98b7a99f7a33ad8b1d26a85578eb2fc217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 13/31] fix: writing a Deflate64 entry panicked instead of
 being refused

---
 src/base/write/entry_stream.rs |  3 +++
 src/base/write/entry_whole.rs  |  2 ++
 src/base/write/mod.rs          | 10 ++++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e7ff65d..5ed630e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -2,6 +2,7 @@
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
 use crate::base::write::compressed_writer::CompressedAsyncWriter;
+use crate::base::write::ensure_writable;
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::io::offset::AsyncOffsetWriter;
@@ -53,6 +54,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         writer: &'b mut ZipFileWriter<W>,
         mut entry: ZipEntry,
     ) -> Result<EntryStreamWriter<'b, W>> {
+        ensure_writable(entry.compression())?;
+
         let lfh_offset = writer.writer.offset();
         let lfh = EntryStreamWriter::write_lfh(writer, &mut entry).await?;
         let data_offset = writer.writer.offset();
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 1bee3d2..fa497da 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -3,6 +3,7 @@
 
 use std::borrow::Cow;
 
+use crate::base::write::ensure_writable;
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::remove_generated_extra_fields;
@@ -151,6 +152,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         remove_generated_extra_fields(&mut self.entry.extra_fields);
 
         if !self.precompressed {
+            ensure_writable(self.entry.compression())?;
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
 
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index b264b20..5313e5d 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -77,6 +77,7 @@ use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
     InfoZipUnicodePathExtraField, Zip64EndOfCentralDirectoryLocator, Zip64EndOfCentralDirectoryRecord,
 };
+use crate::spec::Compression;
 
 #[cfg(feature = "tokio")]
 use crate::tokio::write::ZipFileWriter as TokioZipFileWriter;
@@ -290,6 +291,15 @@ where
     }
 }
 
+/// Refuses compression methods which can be read but not written.
+pub(crate) fn ensure_writable(compression: Compression) -> Result<()> {
+    match compression {
+        #[cfg(feature = "deflate64")]
+        Compression::Deflate64 => Err(ZipError::FeatureNotSupported("compressing with Deflate64")),
+        _ => Ok(()),
+    }
+}
+
 /// Removes the extra fields which the entry writers generate themselves.
 ///
 /// An entry which was read from another archive carries those of that archive, which describe other sizes, offsets, and
-- 
2.43.0


From 36a96bab31f267dfdb472d4c27477ec28cd4ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:27 +0000
Subject: [PATCH 14/31] fix: ambiguous ZIP64 extra field when a size or offset
 equals the classic maximum

---
 src/base/write/entry_whole.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index fa497da..be740ba 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -64,8 +64,13 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        // A size equal to the maximum can only be taken literally when there is no ZIP64 extra field for the offset.
+        let max_size: u64 = NON_ZIP64_MAX_SIZE.into();
+        let offset_larger = self.lh_offset > max_size;
+        let larger = |size: u64| size > max_size || (size == max_size && offset_larger);
+
+        let uncompressed_larger = larger(self.entry.uncompressed_size);
+        let compressed_larger = larger(self.entry.compressed_size);
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
@@ -85,7 +90,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        // Likewise, an offset equal to the maximum can only be taken literally when there is none for the sizes.
+        let max_size: u64 = NON_ZIP64_MAX_SIZE.into();
+        if self.lh_offset < max_size || (self.lh_offset == max_size && self.builder.is_none()) {
             return Ok(());
         }
 
@@ -160,9 +167,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         }
 
         self.entry.compressed_size = self.data.len() as u64;
-        self.enforce_zip64_sizes()?;
-
         self.lh_offset = self.writer.writer.offset();
+
+        self.enforce_zip64_sizes()?;
         self.enforce_zip64_offset()?;
 
         if let Some(builder) = self.builder {
-- 
2.43.0


From ac3394a161e31428b827919746243e73c02b8780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 15/31] fix: entry refused for exceeding the classic entry
 count was listed all the same

---
 src/base/write/entry_stream.rs | 15 +++++++--------
 src/base/write/entry_whole.rs  | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 5ed630e..da5a89e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -205,6 +205,11 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<()> {
+        // Ensure that we can fit another file in this archive if forcing no zip64
+        if self.force_no_zip64 && self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
         self.writer.close().await?;
 
         if !self.precompressed {
@@ -277,14 +282,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         };
 
         self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
-        // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
-            if !*self.is_zip64 {
-                *self.is_zip64 = true;
-            }
+        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !*self.is_zip64 {
+            *self.is_zip64 = true;
         }
 
         Ok(())
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index be740ba..1ffa99c 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -156,6 +156,11 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // Ensure that we can fit another file in this archive if forcing no zip64
+        if self.writer.force_no_zip64 && self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
         remove_generated_extra_fields(&mut self.entry.extra_fields);
 
         if !self.precompressed {
@@ -239,14 +244,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         }
 
         self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
-        // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.writer.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
-            if !self.writer.is_zip64 {
-                self.writer.is_zip64 = true;
-            }
+        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !self.writer.is_zip64 {
+            self.writer.is_zip64 = true;
         }
         Ok(())
     }
-- 
2.43.0


From c743c497c71a5571fd68552c6ec0de6a3d56b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:29 +0000
Subject: [PATCH 16/31] fix: central directory beyond 4 GiB was written without
 ZIP64 records

---
 src/base/write/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 5313e5d..e8f7c4f 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::{Result, ZipError};
+use crate::error::{Result, Zip64ErrorCase, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -206,6 +206,10 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
+            }
+            self.is_zip64 = true;
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From 076606521d4c6f9ba57abd6e8317f8ba31995944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:30 +0000
Subject: [PATCH 17/31] fix: stream reading entries with a ZIP64 data
 descriptor

---
 src/base/read/stream.rs | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/base/read/stream.rs b/src/base/read/stream.rs
index b4691c3..c954e72 100644
--- a/src/base/read/stream.rs
+++ b/src/base/read/stream.rs
@@ -46,7 +46,9 @@
 //! # }
 //! ```
 
+use crate::base::read::get_zip64_extra_field;
 use crate::base::read::io::entry::ZipEntryReader;
+use crate::entry::ZipEntry;
 use crate::error::Result;
 use crate::error::ZipError;
 
@@ -69,7 +71,25 @@ use super::io::entry::WithoutEntry;
 pub struct Ready<R>(R);
 
 /// A type which encodes that [`ZipFileReader`] is currently reading an entry.
-pub struct Reading<'a, R, E>(ZipEntryReader<'a, R, E>, bool);
+pub struct Reading<'a, R, E>(ZipEntryReader<'a, R, E>, DataDescriptor);
+
+/// The kind of data descriptor which follows the data of an entry.
+#[derive(Clone, Copy)]
+enum DataDescriptor {
+    Absent,
+    Classic,
+    Zip64,
+}
+
+impl From<&ZipEntry> for DataDescriptor {
+    fn from(entry: &ZipEntry) -> Self {
+        match (entry.data_descriptor, get_zip64_extra_field(&entry.extra_fields).is_some()) {
+            (false, _) => DataDescriptor::Absent,
+            (true, false) => DataDescriptor::Classic,
+            (true, true) => DataDescriptor::Zip64,
+        }
+    }
+}
 
 /// A ZIP reader which acts over a non-seekable source.
 ///
@@ -96,7 +116,7 @@ where
         let length = if entry.data_descriptor { u64::MAX } else { entry.compressed_size };
         let reader = ZipEntryReader::new_with_owned(self.0 .0, entry.compression, length);
 
-        Ok(Some(ZipFileReader(Reading(reader, entry.data_descriptor))))
+        Ok(Some(ZipFileReader(Reading(reader, DataDescriptor::from(&entry)))))
     }
 
     /// Opens the next entry for reading if the central directory hasn’t yet been reached.
@@ -108,7 +128,7 @@ where
 
         let length = if entry.data_descriptor { u64::MAX } else { entry.compressed_size };
         let reader = ZipEntryReader::new_with_owned(self.0 .0, entry.compression, length);
-        let data_descriptor = entry.data_descriptor;
+        let data_descriptor = DataDescriptor::from(&entry);
 
         Ok(Some(ZipFileReader(Reading(reader.into_with_entry_owned(entry), data_descriptor))))
     }
@@ -152,10 +172,7 @@ where
 
         let mut inner = self.0 .0.into_inner();
 
-        // Has data descriptor.
-        if self.0 .1 {
-            consume_data_descriptor(&mut inner).await?;
-        }
+        consume_data_descriptor(&mut inner, self.0 .1).await?;
 
         Ok(ZipFileReader(Ready(inner)))
     }
@@ -165,22 +182,29 @@ where
         while self.0 .0.read(&mut [0; 2048]).await? != 0 {}
         let mut inner = self.0 .0.into_inner();
 
-        // Has data descriptor.
-        if self.0 .1 {
-            consume_data_descriptor(&mut inner).await?;
-        }
+        consume_data_descriptor(&mut inner, self.0 .1).await?;
 
         Ok(ZipFileReader(Ready(inner)))
     }
 }
 
-async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R) -> Result<()> {
+async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R, kind: DataDescriptor) -> Result<()> {
+    if let DataDescriptor::Absent = kind {
+        return Ok(());
+    }
+
     let mut descriptor: [u8; DATA_DESCRIPTOR_LENGTH] = [0; DATA_DESCRIPTOR_LENGTH];
     reader.read_exact(&mut descriptor).await?;
 
     if descriptor[0..SIGNATURE_LENGTH] == DATA_DESCRIPTOR_SIGNATURE.to_le_bytes() {
-        let mut tail: [u8; SIGNATURE_LENGTH] = [0; SIGNATURE_LENGTH];
-        reader.read_exact(&mut tail).await?;
+        descriptor.rotate_left(SIGNATURE_LENGTH);
+        reader.read_exact(&mut descriptor[DATA_DESCRIPTOR_LENGTH - SIGNATURE_LENGTH..]).await?;
+    }
+
+    // The sizes of a ZIP64 entry take 8 bytes each, though previous versions of this crate wrote two 4 byte values of
+    // 0xFFFFFFFF instead (which would otherwise be an impossible compressed size).
+    if let (DataDescriptor::Zip64, false) = (kind, descriptor[4..] == [0xFF; 8]) {
+        reader.read_exact(&mut [0; 8]).await?;
     }
 
     Ok(())
-- 
2.43.0


From 889a13eb4efd5529940d46c6eefacc8af5a7a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:31 +0000
Subject: [PATCH 18/31] fix: data descriptors of ZIP64 entries lacked the
 actual sizes

---
 src/base/write/entry_stream.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index da5a89e..8dd97b1 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -257,8 +257,14 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
 
         inner_writer.write_all(&crate::spec::consts::DATA_DESCRIPTOR_SIGNATURE.to_le_bytes()).await?;
         inner_writer.write_all(&self.entry.crc32.to_le_bytes()).await?;
-        inner_writer.write_all(&cdr_compressed_size.to_le_bytes()).await?;
-        inner_writer.write_all(&cdr_uncompressed_size.to_le_bytes()).await?;
+        if self.force_no_zip64 {
+            inner_writer.write_all(&cdr_compressed_size.to_le_bytes()).await?;
+            inner_writer.write_all(&cdr_uncompressed_size.to_le_bytes()).await?;
+        } else {
+            // The sizes take 8 bytes each when there is a zip64 field.
+            inner_writer.write_all(&compressed_size.to_le_bytes()).await?;
+            inner_writer.write_all(&self.entry.uncompressed_size.to_le_bytes()).await?;
+        }
 
         let comment_basic = self.entry.comment().alternative().unwrap_or_else(|| self.entry.comment().as_bytes());
 
-- 
2.43.0


From f1823ff8bd3b862fe4542b0f61fd994caf408ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 19/31] Revert "fix: trailing extra field without data was
 dropped"

This reverts commit 1f90e467609b5d3644f7d7b937e72c4ebcbd22e1.
---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 1c85a1a..d5fb95f 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -267,7 +267,7 @@ impl Zip64EndOfCentralDirectoryLocator {
 pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut cursor = 0;
     let mut extra_fields = Vec::new();
-    while cursor + 4 <= data.len() {
+    while cursor + 4 < data.len() {
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-- 
2.43.0


From e20ada5f3c0d815095e3210a26aaafc2ae5c7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 20/31] Revert "fix: underflow when an extra field declares
 more data than remain"

This reverts commit 36f244da8b8e4af49338152a2e2b01cbe45b91e9.
---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index d5fb95f..422d468 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From dea026c9aa8e96ec21b6629cc7e68fde3d96de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:11 +0000
Subject: [PATCH 21/31] fix: underflow when an extra field declares more data
 than remain

Checked where headers are read, before the fields are parsed.
---
 src/base/read/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 1699a75..a3ae62b 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -121,6 +121,21 @@ pub(crate) fn get_zip64_extra_field_mut(
     None
 }
 
+/// Parses extra fields after checking that each of them lies within the data.
+fn checked_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+    let mut remaining = data.as_slice();
+    while remaining.len() >= 4 {
+        let field_size = u16::from_le_bytes([remaining[2], remaining[3]]);
+        remaining = &remaining[4..];
+        remaining = match remaining.get(field_size as usize..) {
+            Some(remaining) => remaining,
+            None => return Err(ZipError::InvalidExtraFieldHeader(field_size, remaining.len())),
+        };
+    }
+
+    parse_extra_fields(data, uncompressed_size, compressed_size)
+}
+
 fn get_combined_sizes(
     uncompressed_size: u32,
     compressed_size: u32,
@@ -153,7 +168,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = checked_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
     let comment_basic = io::read_bytes(reader, header.file_comment_length.into()).await?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
@@ -221,7 +236,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = checked_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
     let (uncompressed_size, compressed_size) =
-- 
2.43.0


From de5d7df6db658400c5da7418c1056acc1d853c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:11 +0000
Subject: [PATCH 22/31] fix: trailing extra field without data was dropped

---
 src/base/read/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index a3ae62b..4c3650b 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -122,7 +122,7 @@ pub(crate) fn get_zip64_extra_field_mut(
 }
 
 /// Parses extra fields after checking that each of them lies within the data.
-fn checked_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+fn checked_extra_fields(mut data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut remaining = data.as_slice();
     while remaining.len() >= 4 {
         let field_size = u16::from_le_bytes([remaining[2], remaining[3]]);
@@ -133,6 +133,8 @@ fn checked_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size:
         };
     }
 
+    // A field is only recognised when further bytes follow its header, so a trailing field without data needs one.
+    data.push(0);
     parse_extra_fields(data, uncompressed_size, compressed_size)
 }
 
-- 
2.43.0


From 95db3b84871fb860a60d98d202d7e0dc7c9b1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:50 +0000
Subject: [PATCH 23/31] fix: split archives whose directory lies on the last
 disk were accepted

---
 src/base/read/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 4c3650b..a68631f 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -72,7 +72,8 @@ where
     };
 
     // Outdated feature so unlikely to ever make it into this crate.
-    if eocdr.disk_number != eocdr.disk_number_start_of_cd
+    if eocdr.disk_number != 0
+        || eocdr.disk_number_start_of_cd != 0
         || eocdr.num_entries_in_directory != eocdr.num_entries_in_directory_on_disk
     {
         return Err(ZipError::FeatureNotSupported("Spanned/split files"));
-- 
2.43.0


From a8ecabc71f65e4c01d4c80d1c3ae8bc78491c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 24/31] fix: stop the Deflate64 decoder from consuming what
 follows an entry of unknown size

The decoder reads ahead of the bits it needs, so with a data descriptor following the data its first byte was often
consumed as well, and forward reading failed after the entry.
---
 src/base/read/io/bytewise.rs   | 55 ++++++++++++++++++++++++++++++++++
 src/base/read/io/compressed.rs | 25 ++++++++++++++--
 src/base/read/io/entry.rs      |  7 ++++-
 src/base/read/io/mod.rs        |  2 ++
 4 files changed, 85 insertions(+), 4 deletions(-)
 create mode 100644 src/base/read/io/bytewise.rs

diff --git a/src/base/read/io/bytewise.rs b/src/base/read/io/bytewise.rs
new file mode 100644
index 0000000..6c52175
--- /dev/null
+++ b/src/base/read/io/bytewise.rs
@@ -0,0 +1,55 @@
+// Copyright (c) 2022 Harry [Majored] [hello@majored.pw]
+// MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
+
+use std::pin::Pin;
+use std::task::{Context, Poll};
+
+use futures_lite::io::{AsyncBufRead, AsyncRead};
+use pin_project::pin_project;
+
+/// A wrapping reader which, if enabled, doesn't hand out more than one buffered byte at a time.
+///
+/// This is used for decoders which read ahead, and so may otherwise consume bytes following the end of their stream.
+#[pin_project]
+pub(crate) struct BytewiseReader<R> {
+    #[pin]
+    reader: R,
+    enabled: bool,
+}
+
+impl<R> BytewiseReader<R> {
+    /// Constructs a new wrapping reader.
+    pub(crate) fn new(reader: R, enabled: bool) -> Self {
+        Self { reader, enabled }
+    }
+
+    /// Consumes this reader and returns the inner value.
+    pub(crate) fn into_inner(self) -> R {
+        self.reader
+    }
+}
+
+impl<R> AsyncBufRead for BytewiseReader<R>
+where
+    R: AsyncBufRead,
+{
+    fn poll_fill_buf(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
+        let this = self.project();
+        let enabled = *this.enabled;
+
+        this.reader.poll_fill_buf(c).map_ok(|b| if enabled { &b[..b.len().min(1)] } else { b })
+    }
+
+    fn consume(self: Pin<&mut Self>, amt: usize) {
+        self.project().reader.consume(amt)
+    }
+}
+
+impl<R> AsyncRead for BytewiseReader<R>
+where
+    R: AsyncRead,
+{
+    fn poll_read(self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
+        self.project().reader.poll_read(c, b)
+    }
+}
diff --git a/src/base/read/io/compressed.rs b/src/base/read/io/compressed.rs
index 8fc6b87..e38b25b 100644
--- a/src/base/read/io/compressed.rs
+++ b/src/base/read/io/compressed.rs
@@ -1,6 +1,8 @@
 // Copyright (c) 2022 Harry [Majored] [hello@majored.pw]
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
+#[cfg(feature = "deflate64")]
+use crate::base::read::io::bytewise::BytewiseReader;
 use crate::spec::Compression;
 
 use std::pin::Pin;
@@ -25,7 +27,7 @@ pub(crate) enum CompressedReader<R> {
     #[cfg(feature = "deflate")]
     Deflate(#[pin] bufread::DeflateDecoder<R>),
     #[cfg(feature = "deflate64")]
-    Deflate64(#[pin] bufread::Deflate64Decoder<R>),
+    Deflate64(#[pin] bufread::Deflate64Decoder<BytewiseReader<R>>),
     #[cfg(feature = "bzip2")]
     Bz(#[pin] bufread::BzDecoder<R>),
     #[cfg(feature = "lzma")]
@@ -47,7 +49,10 @@ where
             #[cfg(feature = "deflate")]
             Compression::Deflate => CompressedReader::Deflate(bufread::DeflateDecoder::new(reader)),
             #[cfg(feature = "deflate64")]
-            Compression::Deflate64 => CompressedReader::Deflate64(bufread::Deflate64Decoder::new(reader)),
+            Compression::Deflate64 => {
+                let reader = BytewiseReader::new(reader, false);
+                CompressedReader::Deflate64(bufread::Deflate64Decoder::new(reader))
+            }
             #[cfg(feature = "bzip2")]
             Compression::Bz => CompressedReader::Bz(bufread::BzDecoder::new(reader)),
             #[cfg(feature = "lzma")]
@@ -59,6 +64,20 @@ where
         }
     }
 
+    /// Constructs a new wrapping reader from a generic [`AsyncBufRead`] implementer which continues past the end of the
+    /// compressed data.
+    pub(crate) fn new_unbounded(reader: R, compression: Compression) -> Self {
+        match compression {
+            // The decoder reads ahead of what it needs when there is more than one byte available.
+            #[cfg(feature = "deflate64")]
+            Compression::Deflate64 => {
+                let reader = BytewiseReader::new(reader, true);
+                CompressedReader::Deflate64(bufread::Deflate64Decoder::new(reader))
+            }
+            compression => Self::new(reader, compression),
+        }
+    }
+
     /// Consumes this reader and returns the inner value.
     pub(crate) fn into_inner(self) -> R {
         match self {
@@ -66,7 +85,7 @@ where
             #[cfg(feature = "deflate")]
             CompressedReader::Deflate(inner) => inner.into_inner(),
             #[cfg(feature = "deflate64")]
-            CompressedReader::Deflate64(inner) => inner.into_inner(),
+            CompressedReader::Deflate64(inner) => inner.into_inner().into_inner(),
             #[cfg(feature = "bzip2")]
             CompressedReader::Bz(inner) => inner.into_inner(),
             #[cfg(feature = "lzma")]
diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index a0395a9..858ab72 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -32,7 +32,12 @@ where
 {
     /// Constructs a new entry reader from its required parameters (incl. an owned R).
     pub(crate) fn new_with_owned(reader: R, compression: Compression, size: u64) -> Self {
-        let reader = HashedReader::new(CompressedReader::new(OwnedReader::Owned(reader).take(size), compression));
+        let reader = OwnedReader::Owned(reader).take(size);
+        let reader = match size {
+            u64::MAX => CompressedReader::new_unbounded(reader, compression),
+            _ => CompressedReader::new(reader, compression),
+        };
+        let reader = HashedReader::new(reader);
         Self { reader, entry: WithoutEntry }
     }
 
diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 347d695..131b6bc 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -1,6 +1,8 @@
 // Copyright (c) 2022 Harry [Majored] [hello@majored.pw]
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
+#[cfg(feature = "deflate64")]
+pub(crate) mod bytewise;
 pub(crate) mod combined_record;
 pub(crate) mod compressed;
 pub(crate) mod entry;
-- 
2.43.0


From 3a800821e13909106c7fa801eaf8a304ff19d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 25/31] fix: skip compressed data left over by the decoder when
 reading forward

If the compressed data of an entry hold more than the decoder requires, the next header was looked for within them,
although its position is known.
---
 src/base/read/io/entry.rs | 12 ++++++++++--
 src/base/read/stream.rs   |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index 858ab72..71be282 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -77,8 +77,16 @@ where
     }
 
     /// Consumes this reader and returns the inner value.
-    pub(crate) fn into_inner(self) -> R {
-        self.reader.into_inner().into_inner().into_inner().owned_into_inner()
+    ///
+    /// If the compressed size is known, any of the compressed data which the decoder didn't require is skipped.
+    pub(crate) async fn into_inner(self, size_known: bool) -> Result<R> {
+        let mut reader = self.reader.into_inner().into_inner();
+
+        if size_known {
+            while reader.read(&mut [0; 2048]).await? != 0 {}
+        }
+
+        Ok(reader.into_inner().owned_into_inner())
     }
 }
 
diff --git a/src/base/read/stream.rs b/src/base/read/stream.rs
index c954e72..d3c4058 100644
--- a/src/base/read/stream.rs
+++ b/src/base/read/stream.rs
@@ -170,7 +170,7 @@ where
             return Err(ZipError::EOFNotReached);
         }
 
-        let mut inner = self.0 .0.into_inner();
+        let mut inner = self.0 .0.into_inner(matches!(self.0 .1, DataDescriptor::Absent)).await?;
 
         consume_data_descriptor(&mut inner, self.0 .1).await?;
 
@@ -180,7 +180,7 @@ where
     /// Reads until EOF and converts the reader back into the Ready state.
     pub async fn skip(mut self) -> Result<ZipFileReader<Ready<R>>> {
         while self.0 .0.read(&mut [0; 2048]).await? != 0 {}
-        let mut inner = self.0 .0.into_inner();
+        let mut inner = self.0 .0.into_inner(matches!(self.0 .1, DataDescriptor::Absent)).await?;
 
         consume_data_descriptor(&mut inner, self.0 .1).await?;
 
-- 
2.43.0


From 51257e235454dda72ebbf450c5596b1c0dfd1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:20 +0000
Subject: [PATCH 26/31] fix: don't write sizes and CRC given for a streamed
 entry as if they were those of its data

An entry copied from another archive carried its former values into the local header, and was refused if those exceeded
what fits without ZIP64.
---
 src/base/write/entry_stream.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 8dd97b1..e17eb41 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -56,6 +56,11 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     ) -> Result<EntryStreamWriter<'b, W>> {
         ensure_writable(entry.compression())?;
 
+        // These are only known once the data have been written (and those of the given entry may be of different data).
+        entry.crc32 = 0;
+        entry.compressed_size = 0;
+        entry.uncompressed_size = 0;
+
         let lfh_offset = writer.writer.offset();
         let lfh = EntryStreamWriter::write_lfh(writer, &mut entry).await?;
         let data_offset = writer.writer.offset();
@@ -84,6 +89,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         writer: &'b mut ZipFileWriter<W>,
         mut entry: ZipEntry,
     ) -> Result<EntryStreamWriter<'b, W>> {
+        // This is only known once the data have been written.
+        entry.compressed_size = 0;
+
         let lfh_offset = writer.writer.offset();
         let lfh = EntryStreamWriter::write_lfh(writer, &mut entry).await?;
         let data_offset = writer.writer.offset();
-- 
2.43.0


From 04eb584307a9a3ead8a0a5006bcc5135c1f049bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 27/31] fix: repeating a checked read could accept data it had
 just rejected

---
 src/base/read/io/entry.rs  |  2 +-
 src/base/read/io/hashed.rs | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index 71be282..51c5ad0 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -73,7 +73,7 @@ where
     ///
     /// This hash should only be computed once EOF has been reached.
     pub fn compute_hash(&mut self) -> u32 {
-        self.reader.swap_and_compute_hash()
+        self.reader.compute_hash()
     }
 
     /// Consumes this reader and returns the inner value.
diff --git a/src/base/read/io/hashed.rs b/src/base/read/io/hashed.rs
index 1190f0d..4e2f8ea 100644
--- a/src/base/read/io/hashed.rs
+++ b/src/base/read/io/hashed.rs
@@ -27,13 +27,9 @@ where
         Self { reader, hasher: Hasher::default() }
     }
 
-    /// Swaps the internal hasher and returns the computed CRC32 hash.
-    ///
-    /// The internal hasher is taken and replaced with a newly-constructed one. As a result, this method should only be
-    /// called once EOF has been reached and it's known that no more data will be read, else the computed hash(s) won't
-    /// accurately represent the data read in.
-    pub(crate) fn swap_and_compute_hash(&mut self) -> u32 {
-        std::mem::take(&mut self.hasher).finalize()
+    /// Returns the CRC32 hash of all the data read so far.
+    pub(crate) fn compute_hash(&self) -> u32 {
+        self.hasher.clone().finalize()
     }
 
     /// Consumes this reader and returns the inner value.
-- 
2.43.0


From f6e49768aaba72ccc509565eb647f49a8dca7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:05 +0000
Subject: [PATCH 28/31] fix: descriptors without signature were misread if the
 CRC looked like one

---
 src/base/read/io/entry.rs |  7 ++++---
 src/base/read/stream.rs   | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index 51c5ad0..a0b060c 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -76,17 +76,18 @@ where
         self.reader.compute_hash()
     }
 
-    /// Consumes this reader and returns the inner value.
+    /// Consumes this reader and returns the inner value, and how many more bytes of it this reader could have read.
     ///
     /// If the compressed size is known, any of the compressed data which the decoder didn't require is skipped.
-    pub(crate) async fn into_inner(self, size_known: bool) -> Result<R> {
+    pub(crate) async fn into_inner(self, size_known: bool) -> Result<(R, u64)> {
         let mut reader = self.reader.into_inner().into_inner();
 
         if size_known {
             while reader.read(&mut [0; 2048]).await? != 0 {}
         }
 
-        Ok(reader.into_inner().owned_into_inner())
+        let limit = reader.limit();
+        Ok((reader.into_inner().owned_into_inner(), limit))
     }
 }
 
diff --git a/src/base/read/stream.rs b/src/base/read/stream.rs
index d3c4058..28035c1 100644
--- a/src/base/read/stream.rs
+++ b/src/base/read/stream.rs
@@ -170,9 +170,9 @@ where
             return Err(ZipError::EOFNotReached);
         }
 
-        let mut inner = self.0 .0.into_inner(matches!(self.0 .1, DataDescriptor::Absent)).await?;
+        let (mut inner, limit) = self.0 .0.into_inner(matches!(self.0 .1, DataDescriptor::Absent)).await?;
 
-        consume_data_descriptor(&mut inner, self.0 .1).await?;
+        consume_data_descriptor(&mut inner, self.0 .1, u64::MAX - limit).await?;
 
         Ok(ZipFileReader(Ready(inner)))
     }
@@ -180,15 +180,18 @@ where
     /// Reads until EOF and converts the reader back into the Ready state.
     pub async fn skip(mut self) -> Result<ZipFileReader<Ready<R>>> {
         while self.0 .0.read(&mut [0; 2048]).await? != 0 {}
-        let mut inner = self.0 .0.into_inner(matches!(self.0 .1, DataDescriptor::Absent)).await?;
+        let (mut inner, limit) = self.0 .0.into_inner(matches!(self.0 .1, DataDescriptor::Absent)).await?;
 
-        consume_data_descriptor(&mut inner, self.0 .1).await?;
+        consume_data_descriptor(&mut inner, self.0 .1, u64::MAX - limit).await?;
 
         Ok(ZipFileReader(Ready(inner)))
     }
 }
 
-async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R, kind: DataDescriptor) -> Result<()> {
+async fn consume_data_descriptor<R>(reader: &mut R, kind: DataDescriptor, compressed_size: u64) -> Result<()>
+where
+    R: AsyncBufRead + Unpin,
+{
     if let DataDescriptor::Absent = kind {
         return Ok(());
     }
@@ -196,7 +199,11 @@ async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R, kind:
     let mut descriptor: [u8; DATA_DESCRIPTOR_LENGTH] = [0; DATA_DESCRIPTOR_LENGTH];
     reader.read_exact(&mut descriptor).await?;
 
-    if descriptor[0..SIGNATURE_LENGTH] == DATA_DESCRIPTOR_SIGNATURE.to_le_bytes() {
+    // The signature is optional, so what looks like one may also be a CRC of that value, followed by the size.
+    let size = (compressed_size as u32).to_le_bytes();
+    let unsigned = descriptor[4..8] == size && descriptor[8..12] != size;
+
+    if descriptor[0..SIGNATURE_LENGTH] == DATA_DESCRIPTOR_SIGNATURE.to_le_bytes() && !unsigned {
         descriptor.rotate_left(SIGNATURE_LENGTH);
         reader.read_exact(&mut descriptor[DATA_DESCRIPTOR_LENGTH - SIGNATURE_LENGTH..]).await?;
     }
-- 
2.43.0


From 4088a05be5f130c63e5388481726fcd6f1eaabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 29/31] fix: archives ending in a comment or name which looks
 like a ZIP64 locator could not be opened

---
 src/base/read/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index a68631f..b958e8c 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -59,14 +59,13 @@ where
             reader.seek(SeekFrom::Start(offset)).await?;
             let zip64_locator = Zip64EndOfCentralDirectoryLocator::try_from_reader(&mut reader).await?;
 
+            // What looks like a locator may also be the end of the last entry's comment, so check where it leads to.
             match zip64_locator {
-                Some(locator) => {
-                    let offset = locator.relative_offset.checked_add(SIGNATURE_LENGTH as u64);
-                    reader.seek(SeekFrom::Start(offset.ok_or(ZipError::UnableToLocateEOCDR)?)).await?;
+                Some(locator) if has_zip64_eocdr(&mut reader, locator.relative_offset, offset).await? => {
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-                None => (CombinedCentralDirectoryRecord::from(&eocdr), false),
+                _ => (CombinedCentralDirectoryRecord::from(&eocdr), false),
             }
         }
     };
@@ -86,6 +85,22 @@ where
     Ok(ZipFile { entries, comment, zip64 })
 }
 
+/// Seeks to and reads the signature of a Zip64 EOCDR, which must lie before its locator.
+async fn has_zip64_eocdr<R>(mut reader: R, eocdr_offset: u64, locator_offset: u64) -> Result<bool>
+where
+    R: AsyncRead + AsyncSeek + Unpin,
+{
+    if eocdr_offset >= locator_offset {
+        return Ok(false);
+    }
+
+    let mut signature = [0; SIGNATURE_LENGTH];
+    reader.seek(SeekFrom::Start(eocdr_offset)).await?;
+    reader.read_exact(&mut signature).await?;
+
+    Ok(u32::from_le_bytes(signature) == ZIP64_EOCDR_SIGNATURE)
+}
+
 pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Result<Vec<StoredZipEntry>>
 where
     R: AsyncRead + Unpin,
-- 
2.43.0


From a536ffe3a48c61d28e0cd7db15301d0f1b572084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 30/31] fix: state version 4.5 as needed to extract entries
 with a ZIP64 extra field

---
 src/base/write/entry_stream.rs |  3 ++-
 src/base/write/entry_whole.rs  |  4 +++-
 src/base/write/mod.rs          | 11 +++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e17eb41..67292ef 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -7,6 +7,7 @@ use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::io::offset::AsyncOffsetWriter;
 use crate::base::write::remove_generated_extra_fields;
+use crate::base::write::version_needed_to_extract;
 use crate::base::write::CentralDirectoryEntry;
 use crate::base::write::ZipFileWriter;
 use crate::entry::ZipEntry;
@@ -187,7 +188,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             file_name_length: filename_basic.len().try_into().map_err(|_| ZipError::FileNameTooLarge)?,
             mod_time: entry.last_modification_date().time,
             mod_date: entry.last_modification_date().date,
-            version: crate::spec::version::as_needed_to_extract(entry),
+            version: version_needed_to_extract(entry, !writer.force_no_zip64),
             flags: GeneralPurposeFlag {
                 data_descriptor: true,
                 encrypted: false,
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 1ffa99c..3944825 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -7,6 +7,7 @@ use crate::base::write::ensure_writable;
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::remove_generated_extra_fields;
+use crate::base::write::version_needed_to_extract;
 use crate::base::write::{CentralDirectoryEntry, ZipFileWriter};
 use crate::entry::ZipEntry;
 use crate::error::{Result, Zip64ErrorCase, ZipError};
@@ -177,6 +178,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         self.enforce_zip64_sizes()?;
         self.enforce_zip64_offset()?;
 
+        let version = version_needed_to_extract(&self.entry, self.builder.is_some());
         if let Some(builder) = self.builder {
             if !builder.eof_only() {
                 self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(builder.build()?));
@@ -204,7 +206,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             file_name_length: filename_basic.len().try_into().map_err(|_| ZipError::FileNameTooLarge)?,
             mod_time: self.entry.last_modification_date().time,
             mod_date: self.entry.last_modification_date().date,
-            version: crate::spec::version::as_needed_to_extract(&self.entry),
+            version,
             flags: GeneralPurposeFlag {
                 data_descriptor: false,
                 encrypted: false,
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8f7c4f..0876950 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -295,6 +295,17 @@ where
     }
 }
 
+/// The version needed to extract an entry, which may have a ZIP64 extra field.
+pub(crate) fn version_needed_to_extract(entry: &ZipEntry, zip64: bool) -> u16 {
+    let version = crate::spec::version::as_needed_to_extract(entry);
+    if zip64 {
+        // https://github.com/Majored/rs-async-zip/blob/main/SPECIFICATION.md#443
+        version.max(45)
+    } else {
+        version
+    }
+}
+
 /// Refuses compression methods which can be read but not written.
 pub(crate) fn ensure_writable(compression: Compression) -> Result<()> {
     match compression {
-- 
2.43.0


From 8ddbb07239f1b2fa49dd73321351c99f46abd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:36 +0000
Subject: [PATCH 31/31] fix: only the first frame of Zstandard data was read

---
 src/base/read/io/compressed.rs | 15 +++++++++++++++
 src/base/read/io/entry.rs      |  5 +++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/base/read/io/compressed.rs b/src/base/read/io/compressed.rs
index e38b25b..883d46b 100644
--- a/src/base/read/io/compressed.rs
+++ b/src/base/read/io/compressed.rs
@@ -64,6 +64,21 @@ where
         }
     }
 
+    /// Constructs a new wrapping reader from a generic [`AsyncBufRead`] implementer which ends where the compressed data
+    /// does.
+    pub(crate) fn new_bounded(reader: R, compression: Compression) -> Self {
+        match compression {
+            // The compressed data may consist of any number of frames.
+            #[cfg(feature = "zstd")]
+            Compression::Zstd => {
+                let mut decoder = bufread::ZstdDecoder::new(reader);
+                decoder.multiple_members(true);
+                CompressedReader::Zstd(decoder)
+            }
+            compression => Self::new(reader, compression),
+        }
+    }
+
     /// Constructs a new wrapping reader from a generic [`AsyncBufRead`] implementer which continues past the end of the
     /// compressed data.
     pub(crate) fn new_unbounded(reader: R, compression: Compression) -> Self {
diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index a0b060c..0fbcaa4 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -35,7 +35,7 @@ where
         let reader = OwnedReader::Owned(reader).take(size);
         let reader = match size {
             u64::MAX => CompressedReader::new_unbounded(reader, compression),
-            _ => CompressedReader::new(reader, compression),
+            _ => CompressedReader::new_bounded(reader, compression),
         };
         let reader = HashedReader::new(reader);
         Self { reader, entry: WithoutEntry }
@@ -43,7 +43,8 @@ where
 
     /// Constructs a new entry reader from its required parameters (incl. a mutable borrow of an R).
     pub(crate) fn new_with_borrow(reader: &'a mut R, compression: Compression, size: u64) -> Self {
-        let reader = HashedReader::new(CompressedReader::new(OwnedReader::Borrow(reader).take(size), compression));
+        let reader = OwnedReader::Borrow(reader).take(size);
+        let reader = HashedReader::new(CompressedReader::new_bounded(reader, compression));
         Self { reader, entry: WithoutEntry }
     }
 
-- 
2.43.0

