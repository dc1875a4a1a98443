From 3f5e32f379d9bfaff18614dd35e49e623316e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 01/25] fix: locate a pack on the file system by its uuid,
 inside a container file too

The content pack file written by BasicCreator (TwoFiles, NoConcat) is a
container pack: handing the whole file to ContentPack::new failed with
'Pack Magic is not ContentPack'. And another pack stored at the recorded
location was read as if it was the right one.
---
 src/reader/locator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..6652ae2 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -8,6 +9,9 @@ pub trait PackLocatorTrait: Sync + Send {
 }
 
 /** Locate in a directory
+
+The file found at the given location may be the pack itself or a container of packs.
+In both cases, only the pack with the right uuid is returned.
 */
 pub struct FsLocator {
     base_dir: PathBuf,
@@ -20,10 +24,11 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;
+            Ok(container.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From c5372a63cc7fa46769ae90732b69ea3a1789c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 02/25] fix: do not overflow on a content pack with id 65535

---
 src/reader/jubako.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..ae9b207 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -110,7 +110,7 @@ impl Container {
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From 5617a328641218db840badd0bb21bf5697a62b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 03/25] fix: store the size of a cluster in enough bytes when
 compression makes it bigger

---
 src/creator/content_pack/clusterwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..ae8bdb3 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,11 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // Compressed data may be bigger than the data itself.
+    let offset_size = needed_bytes(std::cmp::max(
+        cluster.data_size().into_u64(),
+        raw_data_size.into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 828816b4274a367d935669486f2dbb18f7e91211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 04/25] fix: delimit variant definitions by their VariantId, so
 that properties and variants of no size are read

---
 src/reader/directory_pack/layout/mod.rs | 69 +++++++++----------------
 1 file changed, 25 insertions(+), 44 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..d2b89cf 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -14,8 +14,6 @@ pub(crate) use properties::{Properties, SharedProperties};
 pub(crate) use property::Property;
 use std::collections::HashMap;
 
-use std::cmp::Ordering;
-
 #[derive(Debug)]
 #[cfg_attr(feature = "explorable_serde", derive(serde::Serialize))]
 pub struct VariantPart {
@@ -130,55 +128,38 @@ impl Parsable for Layout {
             let variant_id_offset = Offset::from(common_size);
             common_size += 1;
 
-            let mut variant_size = 0;
-            let mut variants = Vec::new();
-            let mut variants_map = HashMap::new();
-            let mut variant_def = Vec::new();
-            let mut variant_name: Option<SmallString> = None;
-            for raw_property in property_iter {
-                if !raw_property.is_variant_id() && variant_name.is_none() {
+            // Any variant fills what the common part leaves of the entry.
+            let variant_size = match entry_size.checked_sub(common_size) {
+                Some(size) => size,
+                None => {
                     return Err(format_error!(
-                        "Variant definition must start with a VariantId.",
+                        &format!(
+                            "Size of common part ({common_size}) cannot exceed the entry size ({entry_size})"
+                        ),
                         parser
-                    ));
+                    ))
+                }
+            };
+            let mut variants = Vec::new();
+            let mut variants_map = HashMap::new();
+            // The definition of a variant starts with a VariantId and stops at the next one.
+            while let Some(variant_id) = property_iter.next() {
+                let mut variant_def = Vec::new();
+                let mut def_size = 0;
+                while let Some(raw_property) = property_iter.next_if(|p| !p.is_variant_id()) {
+                    def_size += raw_property.size;
+                    variant_def.push(raw_property);
                 }
-                if raw_property.is_variant_id() && variant_name.is_some() {
+                if def_size != variant_size {
                     return Err(format_error!(
-                        "VariantId cannot be in the middle of a variant definition.",
+                        &format!(
+                            "Sum of variant size ({common_size} + {def_size}) must be the entry size ({entry_size})"
+                        ),
                         parser
                     ));
                 }
-                if raw_property.is_variant_id() {
-                    // This is a special property
-                    variant_name = Some(raw_property.name);
-                    continue;
-                }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
-                    Ordering::Greater => {
-                        return Err(format_error!(
-                            &format!(
-                                "Sum of variant size ({common_size} + {variant_size}) cannot exceed the entry size ({entry_size})"
-                            ),
-                            parser
-                        ))
-                    }
-                    Ordering::Equal => {
-                        variants.push(Properties::new(common_size, variant_def).into());
-                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
-                        variant_def = Vec::new();
-                        variant_size = 0;
-                        variant_name = None;
-                    }
-                    Ordering::Less => {
-                        /* Noting to do */
-                        continue;
-                    }
-                }
-            }
-            if !variant_def.is_empty() {
-                return Err(format_error!("We cannot have left over variant definiton."));
+                variants_map.insert(variant_id.name, variants.len() as u8);
+                variants.push(Properties::new(common_size, variant_def).into());
             }
             if variants.len() != variant_count.into_usize() {
                 return Err(format_error!(
-- 
2.43.0


From 429699c962407e63fc197e551e5b18c7033177ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 05/25] fix: give signed columns the bytes their values need,
 sign included

---
 src/creator/directory_pack/schema/property.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..ec320ae 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -54,6 +54,11 @@ where
     }
 }
 
+/// A unsigned value needing as many bytes as `v` in two's complement, sign bit included.
+fn signed_magnitude(v: i64) -> u64 {
+    ((v ^ (v >> 63)) as u64) << 1
+}
+
 #[derive(Default, Debug)]
 pub enum ValueCounter<T> {
     #[default]
@@ -96,7 +101,7 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +247,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_magnitude(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_magnitude(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 7f06d0d27e0fa69104a522f9256dbb6724798b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 06/25] fix: refuse entry layouts of more than 255 keys instead
 of writing a wrong count

---
 src/creator/directory_pack/layout/entry.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..35f8665 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -35,17 +35,26 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> IoResult<Count<u8>> {
+        // Each variant has at least one key, so this also limits the number of variants.
+        let count = self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>();
+        match u8::try_from(count) {
+            Ok(count) => Ok(count.into()),
+            Err(_) => Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("A entry cannot be described by {count} keys (255 at most, padding included)"),
+            )),
+        }
     }
 }
 
 impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
         let mut written = 0;
+        let key_count = self.key_count()?;
         written += ser.write_u16(self.entry_size)?;
         written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += key_count.serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
-- 
2.43.0


From 1b8bb5779c8d31c4b56c0d7a3f39368d94b289ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 07/25] fix: refuse directory packs of more than 255 value
 stores instead of writing a wrong count

---
 src/creator/directory_pack/directory_pack.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..dc68901 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -58,6 +58,16 @@ impl DirectoryPackCreator {
     pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "A directory pack cannot have {} value stores (255 at most)",
+                    self.value_stores.len()
+                ),
+            ));
+        }
+
         info!("----- Finalize value_stores -----");
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
-- 
2.43.0


From e3c9c4025d4bb73366f141b1bd2806e0379c7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 08/25] fix: refuse inline array prefixes longer than 31 bytes
 instead of writing a wrong length

---
 src/creator/directory_pack/schema/property.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index ec320ae..8e95065 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -199,7 +199,15 @@ impl<PN: PropertyName> Property<PN> {
         }
     }
 
+    /// # Panics
+    ///
+    /// Panics if `fixed_array_len` is greater than 31, as it is stored on 5 bits.
     pub fn new_array(fixed_array_len: usize, store_handle: StoreHandle, name: PN) -> Self {
+        assert!(
+            fixed_array_len <= 0b0001_1111,
+            "fixed_array_len of {} is too big ({fixed_array_len} > 31)",
+            name.as_str()
+        );
         if fixed_array_len == 0 && store_handle.kind() == ValueStoreKind::Indexed {
             Property::IndirectArray { store_handle, name }
         } else {
-- 
2.43.0


From 38a0fdd0132dbaef1ceac19cda582833de6a3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 09/25] fix: refuse tails of more than 65535 bytes instead of
 truncating their size

---
 src/creator/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index b09300f..8f90d91 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -36,7 +36,16 @@ mod private {
             let offset = stream.tell();
             let mut serializer = Serializer::new(BlockCheck::Crc32);
             self.serialize_tail(&mut serializer)?;
-            let size = stream.write_serializer(serializer)?.into();
+            let size = stream.write_serializer(serializer)?;
+            if size > 0xFF_FF {
+                // The size of a tail is stored on 16 bits.
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    format!("Structure is too big to be stored ({size} bytes > 65535)"),
+                )
+                .into());
+            }
+            let size = size.into();
             Ok(SizedOffset { size, offset })
         }
     }
-- 
2.43.0


From 60e51c584850dba6c462356c3af27eeea2d3db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 10/25] fix: let entries of a sorted store have equal sort keys

---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 8e73722adebd2c3a21c2cc93de9f38d882e3008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 11/25] fix: count the check block in the declared size of a
 container pack

---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..f92f26f 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size =
+            Size::from(check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE);
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From 1537823555f0281f30586dcccde170d97c23e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 12/25] fix: give every entry its final position before sizing
 the columns of any store

---
 src/creator/directory_pack/directory_pack.rs | 7 ++++++-
 src/creator/directory_pack/entry_store.rs    | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index dc68901..bbaa2d2 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         if self.value_stores.len() > u8::MAX as usize {
@@ -73,6 +73,11 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        for entry_store in &mut self.entry_stores {
+            entry_store.sort();
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..80c50a8 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,11 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Give its final position to each entry.
+    fn sort(&mut self);
+
+    /// Size the columns. All the stores must be sorted before, as entries may refer to
+    /// entries of any store.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,7 +76,7 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
+    fn sort(&mut self) {
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
@@ -92,7 +97,9 @@ where
                 }
             }
         }
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From 6708ab898be6464354c7f7bab65b433c29a30910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 13/25] fix: keep the kind of a read error, so that an
 interrupted read does not fail a check

---
 src/reader/byte_stream.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..51d59e8 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -46,13 +46,10 @@ impl Read for ByteStream {
             (self.region.end() - self.offset).into_u64(),
         ) as usize;
         let buf = &mut buf[..max_len];
-        match self.source.read(self.offset, buf) {
-            Ok(s) => {
-                self.offset += s;
-                Ok(s)
-            }
-            Err(e) => Err(std::io::Error::new(std::io::ErrorKind::Other, e)),
-        }
+        // Keep the kind of the error: the caller must try again on `Interrupted`.
+        let s = self.source.read(self.offset, buf)?;
+        self.offset += s;
+        Ok(s)
     }
 }
 
-- 
2.43.0


From b90e8189b45277d8b1ec4cea65f9a4c6e5403ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 14/25] fix: refuse a `None` check followed by data, a checksum
 disabled by damage

---
 src/common/check.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/check.rs b/src/common/check.rs
index 13252bd..30a6ff2 100644
--- a/src/common/check.rs
+++ b/src/common/check.rs
@@ -57,7 +57,12 @@ impl Parsable for CheckInfo {
         let kind = CheckKind::parse(parser)?;
         let b3hash = match kind {
             CheckKind::Blake3 => Some(blake3::Hash::parse(parser)?),
-            _ => None,
+            CheckKind::None => {
+                if parser.read_u8().is_ok() {
+                    return Err(format_error!("A `None` check is not followed by data"));
+                }
+                None
+            }
         };
         Ok(Self { b3hash })
     }
-- 
2.43.0


From 42f902fd2e9be2e4728f5700eda9e159e0c5ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 15/25] fix: check regions read in a file against the file
 instead of in debug builds only

---
 src/bases/block.rs       |  4 +++-
 src/bases/io/buffer.rs   | 12 ++++++------
 src/bases/io/file.rs     | 11 +++++++++++
 src/bases/reader.rs      |  6 +++---
 src/bases/types/range.rs | 23 +++++++++++++++++++++++
 5 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/bases/block.rs b/src/bases/block.rs
index 77e8d2a..b275602 100644
--- a/src/bases/block.rs
+++ b/src/bases/block.rs
@@ -18,7 +18,9 @@ pub(crate) const CRC: crc::Crc<u32> = crc::Crc::<u32>::new(&CUSTOM_ALG);
 
 /// This check a "full" slice (containing data AND crc)
 pub(crate) fn assert_slice_crc(buf: &[u8]) -> Result<()> {
-    let data_size = buf.len() - 4;
+    let Some(data_size) = buf.len().checked_sub(BlockCheck::Crc32.size()) else {
+        return Err(format_error!("No room for a checksum"));
+    };
     let slice = &buf[..data_size];
     let mut digest = CRC.digest();
     digest.update(slice);
diff --git a/src/bases/io/buffer.rs b/src/bases/io/buffer.rs
index 5d0c16b..4698388 100644
--- a/src/bases/io/buffer.rs
+++ b/src/bases/io/buffer.rs
@@ -30,15 +30,15 @@ where
     }
 
     fn get_slice(&self, region: ARegion, block_check: BlockCheck) -> Result<Cow<[u8]>> {
-        debug_assert!(region.end().force_into_usize() <= self.as_ref().len());
+        let begin = region.begin().force_into_usize();
+        let end = region.end().force_into_usize();
+        let Some(full_slice) = self.as_ref().get(begin..end + block_check.size()) else {
+            return Err(format_error!("Out of slice"));
+        };
         if let BlockCheck::Crc32 = block_check {
-            let full_slice = &self.as_ref()[region.begin().force_into_usize()
-                ..region.end().force_into_usize() + BlockCheck::Crc32.size()];
             assert_slice_crc(full_slice)?;
         }
-        let slice =
-            &self.as_ref()[region.begin().force_into_usize()..region.end().force_into_usize()];
-        Ok(Cow::Borrowed(slice))
+        Ok(Cow::Borrowed(&full_slice[..end - begin]))
     }
 
     fn cut(
diff --git a/src/bases/io/file.rs b/src/bases/io/file.rs
index 3a560f9..2a20c3f 100644
--- a/src/bases/io/file.rs
+++ b/src/bases/io/file.rs
@@ -95,6 +95,14 @@ impl Source for FileSource {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
+        // The file may be shorter than what its content tells.
+        if !(region.end() + block_check.size()).is_valid(self.size()) {
+            return Err(format_error!(format!(
+                "{} is out of the file ({})",
+                region.end(),
+                self.size()
+            )));
+        }
         if !move_to_memory(region) || !in_memory {
             if let BlockCheck::Crc32 = block_check {
                 warn!("Check of not memory block is not implemented");
@@ -111,6 +119,9 @@ impl Source for FileSource {
             f.by_ref()
                 .take(full_size.into_u64())
                 .read_to_end(&mut buf)?;
+            if buf.len() < full_size.into_usize() {
+                return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+            }
             if let BlockCheck::Crc32 = block_check {
                 assert_slice_crc(&buf)?;
             }
diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..23b1b32 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -98,7 +98,7 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
-        let region = self.region.cut_rel(offset, size);
+        let region = self.region.try_cut_rel(offset, size)?;
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
 
@@ -161,7 +161,7 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         let slice = self.source.get_slice(region, BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
     }
@@ -176,7 +176,7 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..cab0545 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -60,6 +60,29 @@ impl Region {
         );
         Self::new(begin, end)
     }
+
+    /// Relative cut with values read in a file: they may be anything.
+    #[inline]
+    pub(crate) fn try_cut_rel(&self, offset: Offset, size: Size) -> crate::bases::Result<Self> {
+        let begin = self.begin().into_u64().checked_add(offset.into_u64());
+        let end = begin.and_then(|b| b.checked_add(size.into_u64()));
+        match (begin, end) {
+            (Some(begin), Some(end)) if end <= self.end().into_u64() => {
+                Ok(Self::new(begin.into(), end.into()))
+            }
+            _ => Err(format_error!(format!(
+                "{size} at {offset} is out of the {}",
+                self.size()
+            ))),
+        }
+    }
+
+    #[inline]
+    pub(crate) fn try_cut_rel_asize(&self, offset: Offset, size: ASize) -> crate::bases::Result<ARegion> {
+        let region = self.try_cut_rel(offset, size.into())?;
+        Ok(ARegion::new(region.begin(), region.end()))
+    }
+
     #[inline]
     pub(crate) fn cut_rel_asize(&self, offset: Offset, size: ASize) -> ARegion {
         let begin = self.begin() + offset;
-- 
2.43.0


From bc151aeb8bbc2396773296b94c8c17536b26d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 16/25] fix: open a pack at the end of any file, and report
 files too short for their header or tail

---
 src/reader/jubako.rs | 45 ++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index ae9b207..90e0865 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -31,28 +31,45 @@ pub struct Container {
     packs: Vec<OnceLock<ContentPack>>,
 }
 
+/// Parse the mirrored header at the end of the reader.
+///
+/// Return it with the offset of the pack.
+fn parse_tail(reader: &Reader) -> Result<(PackHeader, Offset)> {
+    let tail_size = PackHeader::BLOCK_SIZE as u64;
+    let size = reader.size().into_u64();
+    let Some(tail_offset) = size.checked_sub(tail_size) else {
+        return Err(format_error!("Too small to be a pack"));
+    };
+    let mut buffer_reader = [0u8; PackHeader::BLOCK_SIZE];
+    reader
+        .create_stream(tail_offset.into(), tail_size.into(), false)?
+        .read_exact(&mut buffer_reader)?;
+    buffer_reader.reverse();
+    let end_reader: Reader = buffer_reader.into();
+    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+    match size.checked_sub(pack_header.file_size.into_u64()) {
+        Some(origin) => Ok((pack_header, origin.into())),
+        None => Err(format_error!("The beginning of the pack is missing")),
+    }
+}
+
 /// Open the reader as a container pack.
 /// Blindly opening from a Reader is a bit complex as:
 /// - We don't know what we will open
 /// - Pack may be located at end of the reader so we have to check for footer
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
     // Check at beginning
-    // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
-            //Check at end
-            let mut buffer_reader = [0u8; 64];
-            reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
-                .read_exact(&mut buffer_reader)?;
-            buffer_reader.reverse();
-            let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
-            let origin = reader.size() - pack_header.file_size;
-            (pack_header, origin.into())
-        }
+        //Check at end
+        Err(e) => match parse_tail(&reader) {
+            Ok(found) => found,
+            // Nothing to open. Parse without Check as we want a nice message to the user if version has changed.
+            Err(_) => {
+                reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+                return Err(e);
+            }
+        },
     };
 
     match pack_header.magic {
-- 
2.43.0


From 5dc1ea807efcd4e504ccf0be3385a70b19f2a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 17/25] fix: report data which cannot be decompressed instead
 of aborting or waiting for it forever

---
 src/bases/io/compression.rs | 72 ++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..13c1a8b 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -27,20 +27,39 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+// How far the decoding is.
+#[derive(Default)]
+struct Decoded {
+    size: usize,
+    // No more data will be decoded.
+    ended: bool,
+    // Why the decoding ended before the end.
+    error: Option<(std::io::ErrorKind, String)>,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Decoded>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
 
+impl Drop for SyncVecWr {
+    // Whatever is the reason, readers must not wait for data which will never come.
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.decoded;
+        lock.lock().unwrap().ended = true;
+        cvar.notify_all();
+    }
+}
+
 struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Decoded>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
@@ -48,19 +67,24 @@ unsafe impl Sync for SyncVecRd {}
 
 impl SyncVecRd {
     #[inline]
-    pub fn wait_while<F>(&self, function: F) -> usize
-    where
-        F: Fn(&mut usize) -> bool,
-    {
+    pub fn wait_for(&self, end: usize) -> std::io::Result<()> {
         let (lock, cvar) = &*self.decoded;
-        let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        let decoded = cvar
+            .wait_while(lock.lock().unwrap(), |d| d.size < end && !d.ended)
+            .unwrap();
+        if decoded.size >= end {
+            return Ok(());
+        }
+        Err(match &decoded.error {
+            Some((kind, msg)) => std::io::Error::new(*kind, msg.clone()),
+            None => std::io::ErrorKind::UnexpectedEof.into(),
+        })
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().size
     }
 
     #[inline]
@@ -77,7 +101,7 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((Mutex::new(Decoded::default()), Condvar::new()));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -103,7 +127,7 @@ pub(crate) struct SeekableDecoder {
 
 fn decode_to_end<T: Read + Send>(
     mut decoder: T,
-    mut buffer: SyncVecWr,
+    buffer: &mut SyncVecWr,
     chunk_size: usize,
 ) -> std::io::Result<()> {
     let total_size = buffer.total_size;
@@ -113,13 +137,16 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        if read == 0 {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+        uncompressed += read;
         let (lock, cvar) = &*buffer.decoded;
-        let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
+        lock.lock().unwrap().size = uncompressed;
         cvar.notify_all();
     }
     //println!("Decompress done");
@@ -128,7 +155,7 @@ fn decode_to_end<T: Read + Send>(
 
 impl SeekableDecoder {
     pub fn new<T: Read + Send + 'static>(decoder: T, size: ASize) -> Self {
-        let (write_hand, read_hand) = create_sync_vec(size.into_usize());
+        let (mut write_hand, read_hand) = create_sync_vec(size.into_usize());
 
         DECOMPRESSION_POOL
             .get_or_init(|| {
@@ -139,14 +166,17 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                if let Err(e) = decode_to_end(decoder, &mut write_hand, 4 * 1024) {
+                    let (lock, _cvar) = &*write_hand.decoded;
+                    lock.lock().unwrap().error = Some((e.kind(), e.to_string()));
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        self.buffer.wait_for(end)
     }
 
     #[inline]
@@ -164,7 +194,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -177,7 +207,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +225,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From 31eced75ba17994e0361cb050d14304c6e798d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 18/25] fix: don't count the CRC in the size of the packs'
 check infos, they could not be read back

---
 src/creator/manifest_pack.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/creator/manifest_pack.rs b/src/creator/manifest_pack.rs
index 5d5b0e2..890948a 100644
--- a/src/creator/manifest_pack.rs
+++ b/src/creator/manifest_pack.rs
@@ -51,8 +51,10 @@ impl ManifestPackCreator {
         for ((pack_data, locator), free_data_id) in self.packs.into_iter().zip(free_data_ids) {
             let check_info_pos = file.stream_position()? - origin_offset;
             file.ser_write(&pack_data.check_info)?;
-            let check_info_size = file.stream_position()? - origin_offset - check_info_pos;
-            let check_info_size: usize = check_info_size.try_into().unwrap();
+            let check_info_end = file.stream_position()? - origin_offset;
+            // As for any sized offset, the size doesn't include the CRC of the block.
+            let check_info_size: usize = (check_info_end - check_info_pos).try_into().unwrap();
+            let check_info_size = check_info_size - BlockCheck::Crc32.size();
             pack_infos.push(PackInfo::new(
                 pack_data,
                 0,
-- 
2.43.0


From d87a4e723e468ea0e2024631a4c01a4ba3522309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 19/25] fix: sort stores again when positions they are sorted
 on move

---
 src/creator/directory_pack/directory_pack.rs | 13 +++++++++++--
 src/creator/directory_pack/entry_store.rs    | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index bbaa2d2..b424096 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -74,8 +74,17 @@ impl DirectoryPackCreator {
         }
 
         info!("----- Sort entry_stores -----");
-        for entry_store in &mut self.entry_stores {
-            entry_store.sort();
+        // A store sorted on positions of entries of another store moves when that store is sorted.
+        let mut watchdog = 50 + self.entry_stores.len();
+        while self
+            .entry_stores
+            .iter_mut()
+            .fold(false, |moved, entry_store| entry_store.sort() || moved)
+        {
+            watchdog -= 1;
+            if watchdog == 0 {
+                panic!("Cannot sort entry stores");
+            }
         }
 
         info!("----- Finalize entry_stores -----");
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 80c50a8..4435e28 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,8 +62,10 @@ where
 }
 
 pub trait EntryStoreTrait {
-    /// Give its final position to each entry.
-    fn sort(&mut self);
+    /// Give its position to each entry. Returns whether entries have moved.
+    ///
+    /// Positions are final once no store moves.
+    fn sort(&mut self) -> bool;
 
     /// Size the columns. All the stores must be sorted before, as entries may refer to
     /// entries of any store.
@@ -76,27 +78,28 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn sort(&mut self) {
+    fn sort(&mut self) -> bool {
         set_entry_idx(&mut self.entries);
+        let mut moved = false;
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            self.entries.par_sort_unstable_by(compare);
-            set_entry_idx(&mut self.entries);
             let mut watchdog = 50;
             while !self
                 .entries
                 .windows(2)
                 .all(|w| w[0].compare(&keys, &w[1]).is_le())
             {
+                if watchdog == 0 {
+                    panic!("Cannot sort entry store");
+                }
                 debug!(".");
                 self.entries.par_sort_unstable_by(compare);
                 set_entry_idx(&mut self.entries);
+                moved = true;
                 watchdog -= 1;
-                if watchdog == 0 {
-                    panic!("Cannot sort entry store");
-                }
             }
         }
+        moved
     }
 
     fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
-- 
2.43.0


From 835757f8b14dee64258c5a221cd33f724576dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 20/25] fix: look for a pack at the end of the file before its
 beginning, what precedes an embedded container may be another pack

---
 src/reader/jubako.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 90e0865..ee23133 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -47,25 +47,32 @@ fn parse_tail(reader: &Reader) -> Result<(PackHeader, Offset)> {
     buffer_reader.reverse();
     let end_reader: Reader = buffer_reader.into();
     let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
-    match size.checked_sub(pack_header.file_size.into_u64()) {
-        Some(origin) => Ok((pack_header, origin.into())),
-        None => Err(format_error!("The beginning of the pack is missing")),
+    let Some(origin) = size.checked_sub(pack_header.file_size.into_u64()) else {
+        return Err(format_error!("The beginning of the pack is missing"));
+    };
+    let origin = Offset::from(origin);
+    if reader.parse_block_at::<PackHeader>(origin)? != pack_header {
+        return Err(format_error!("The tail is not the one of the pack"));
     }
+    Ok((pack_header, origin))
 }
 
 /// Open the reader as a container pack.
 /// Blindly opening from a Reader is a bit complex as:
 /// - We don't know what we will open
 /// - Pack may be located at end of the reader so we have to check for footer
+///
+/// The footer is checked first: what is before a pack located at end of the reader may be anything, another pack included.
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
-    // Check at beginning
-    let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
-        Ok(pack_header) => (pack_header, Offset::zero()),
-        //Check at end
-        Err(e) => match parse_tail(&reader) {
-            Ok(found) => found,
+    // Check at end
+    let (pack_header, offset) = match parse_tail(&reader) {
+        Ok(found) => found,
+        Err(e) if matches!(*e, ErrorKind::Io(_)) => return Err(e),
+        //Check at beginning
+        Err(_) => match reader.parse_block_at::<PackHeader>(Offset::zero()) {
+            Ok(pack_header) => (pack_header, Offset::zero()),
             // Nothing to open. Parse without Check as we want a nice message to the user if version has changed.
-            Err(_) => {
+            Err(e) => {
                 reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
                 return Err(e);
             }
-- 
2.43.0


From c10bb697d1a2e4539a375440be3f895eef7ec9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 21/25] fix: let tools open a container embedded at the end of
 a file

---
 src/reader/mod.rs | 1 +
 src/tools.rs      | 6 +-----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 0f003f0..f9aeabc 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -10,6 +10,7 @@ mod locator;
 mod manifest_pack;
 mod missing;
 
+pub(crate) use self::jubako::open_as_container_pack;
 pub use self::jubako::Container;
 pub use container_pack::ContainerPack;
 pub use content_pack::ContentPack;
diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..a26863b 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -28,11 +28,7 @@ pub fn concat(infiles: &[impl AsRef<Path>], outfile: impl AsRef<Utf8Path>) -> jb
 
 pub fn open_pack(path: impl AsRef<Path>) -> jbk::Result<ContainerPack> {
     let reader = Reader::from(FileSource::open(path.as_ref())?);
-    let pack_header = reader.parse_block_at::<jbk::common::PackHeader>(Offset::zero())?;
-    Ok(match pack_header.magic {
-        jbk::common::PackKind::Container => ContainerPack::new(reader)?,
-        _ => ContainerPack::new_fake(reader, pack_header.uuid),
-    })
+    jbk::reader::open_as_container_pack(reader)
 }
 
 pub fn set_location(
-- 
2.43.0


From fe8f62a7eab8fdd5e3ec7fbb7f97274b595f6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 22/25] fix: report a directory pack which cannot be located
 instead of panicking

---
 src/reader/jubako.rs        | 10 +++++-----
 src/reader/manifest_pack.rs |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index ee23133..81aed36 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -126,11 +126,11 @@ impl Container {
         let locator = Arc::new(ChainedLocator::new(locators));
 
         let pack_info = manifest_pack.get_directory_pack_info();
-        let directory_pack = Arc::new(DirectoryPack::new(
-            locator
-                .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
-        )?);
+        let Some(directory_reader) = locator.locate(pack_info.uuid, &pack_info.pack_location)?
+        else {
+            return Err(format_error!("Impossible to locate the directory pack"));
+        };
+        let directory_pack = Arc::new(DirectoryPack::new(directory_reader)?);
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 6f7737e..10bbae5 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -71,6 +71,9 @@ impl ManifestPack {
                 }
             }
         }
+        let Some(directory_pack_info) = directory_pack_info else {
+            return Err(format_error!("No directory pack in the manifest"));
+        };
         let vs_posinfo = header.value_store_posinfo;
         let value_store = if !vs_posinfo.is_zero() {
             Some(reader.parse_data_block::<ValueStore>(vs_posinfo)?)
@@ -81,7 +84,7 @@ impl ManifestPack {
             pack_header,
             header,
             reader,
-            directory_pack_info: directory_pack_info.unwrap(),
+            directory_pack_info,
             pack_infos,
             check_info: OnceLock::new(),
             value_store,
-- 
2.43.0


From f7b2540575c8c75a338a53fd3a86cc98ae2bb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 23/25] fix: read the manifest header where it is when changing
 a pack location

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index a26863b..11bdd6d 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -48,7 +48,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From b7b3fc45b535f616c8647f2c3bdfabff7121ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 24/25] fix: a stream made from a region starts at the
 beginning of the region

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 51d59e8..9a5c20e 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -55,6 +55,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let begin = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, begin)
     }
 }
-- 
2.43.0


From 1a52c0b962158ea834c35c20bf7b1bebcf902f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 25/25] fix: a destination named *.jbkc is not overwritten by
 its own manifest

With a destination whose extension is already jbkc and packs stored
separately, the content pack was written at the destination path and then
replaced by the entry file. Give the content pack another name.
---
 src/creator/basic_creator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index dd1ce1f..9bdac87 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -55,6 +55,10 @@ pub struct BasicCreator {
 fn new_with_extension(path: &Utf8Path, extension: &str) -> Utf8PathBuf {
     let mut buf = path.to_path_buf();
     buf.set_extension(extension);
+    if buf == path {
+        // Don't reuse `path` itself, something else will be written there.
+        buf = format!("{path}.{extension}").into();
+    }
     buf
 }
 
-- 
2.43.0

