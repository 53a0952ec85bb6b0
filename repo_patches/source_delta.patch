From 2bc1449571fa0d1668ce0a9aa89906f82568b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 01/62] fix: direct path access descends every container and
 reports NodeNotFound for absent paths

---
 src/util/parse_property.rs | 88 ++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..42b4c45 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -416,26 +416,69 @@ pub fn get_node(
         return Err(WzPropertyParseError::NodeNotFound);
     }
 
-    let mut pathes = path.split('/');
-    let mut current_path = pathes.next();
+    let mut pathes = path.split('/').peekable();
 
-    while let Some(current_name) = current_path {
+    'descend: while let Some(current_name) = pathes.next() {
         let entry_count = reader.read_wz_int()?;
-        let next_path = pathes.next();
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
 
-            if name == current_name && next_path.is_none() {
-                let result = parse_property_node(
-                    name.into(),
-                    property_type,
-                    None,
-                    org_reader,
-                    reader,
-                    origin_offset,
-                )?;
-                return Ok((result.0, result.1));
+            if name == current_name {
+                if pathes.peek().is_none() {
+                    let result = parse_property_node(
+                        name.into(),
+                        property_type,
+                        None,
+                        org_reader,
+                        reader,
+                        origin_offset,
+                    )?;
+                    return Ok((result.0, result.1));
+                }
+
+                // only a extended property is able to have children
+                if property_type != 9 {
+                    return Err(WzPropertyParseError::NodeNotFound);
+                }
+
+                let property_pos = reader.pos.get();
+                // skip block size
+                reader.skip(4);
+                let has_list = match reader.read_wz_string_block(origin_offset)?.as_str() {
+                    "Property" => true,
+                    "Canvas" => {
+                        reader.skip(1);
+                        reader.read_u8()? == 1
+                    }
+                    "RawData" => reader.read_u8()? == 0x01 && reader.read_u8()? == 1,
+                    "Shape2D#Convex2D" => {
+                        // its children are not a property list
+                        reader.seek(property_pos);
+                        let (_, node, _) = parse_property_node(
+                            name.into(),
+                            property_type,
+                            None,
+                            org_reader,
+                            reader,
+                            origin_offset,
+                        )?;
+                        let rest = pathes.collect::<Vec<_>>().join("/");
+                        let target = node
+                            .read()
+                            .unwrap()
+                            .at_path(&rest)
+                            .ok_or(WzPropertyParseError::NodeNotFound)?;
+                        let target_name = target.read().unwrap().name.clone();
+                        return Ok((target_name, target));
+                    }
+                    _ => false,
+                };
+                if !has_list {
+                    return Err(WzPropertyParseError::NodeNotFound);
+                }
+                reader.skip(2);
+                continue 'descend;
             }
 
             match property_type {
@@ -473,17 +516,8 @@ pub fn get_node(
                     }
                 }
                 9 => {
-                    if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
-                        reader.skip(2);
-                        break;
-                    } else {
-                        let block_size = reader.read_u32()?;
-                        reader.skip(block_size as usize);
-                    }
+                    let block_size = reader.read_u32()?;
+                    reader.skip(block_size as usize);
                 }
                 _ => {
                     return Err(WzPropertyParseError::UnknownPropertyType(
@@ -495,9 +529,7 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
-            break;
-        }
+        break;
     }
 
     Err(WzPropertyParseError::NodeNotFound)
-- 
2.43.0


From bd5455cc1456d50c92eacdeb6fe46ceabc320351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 02/62] fix: WzImage::at_path reaches the child of script and
 text images

---
 src/wz_image.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..5891fb9 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -124,8 +124,14 @@ impl WzImage {
         reader.seek(self.offset);
         let header_byte = reader.read_u8()?;
 
-        if header_byte != WzImageHeaderType::WithoutOffset as u8 {
-            return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
+        if self.name.ends_with(".txt") || header_byte != WzImageHeaderType::WithoutOffset as u8 {
+            // those only have a single child, and not storing as a property list
+            let (children, _) = self.resolve_children(None)?;
+            return children
+                .into_iter()
+                .find(|(name, _)| name.as_str() == path)
+                .map(|(_, node)| node)
+                .ok_or_else(|| Error::from(util::WzPropertyParseError::NodeNotFound));
         } else {
             let name = reader.read_wz_string()?;
             let value = reader.read_u16()?;
-- 
2.43.0


From ae80c5b21756360f4de1897cb20781f13692e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 03/62] fix: get_image_node_from_path handles '.img' in inner
 names and a path ending at the image

---
 src/util/node_util.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..877ea90 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -114,16 +114,6 @@ pub fn get_image_node_from_path<'a>(
         return None;
     }
 
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = node.read().unwrap().at_path(img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
     let mut slash_index = 0;
     for split_path in path.split('/') {
@@ -132,7 +122,7 @@ pub fn get_image_node_from_path<'a>(
             node = target;
             slash_index += split_path.len() + 1;
             if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
+                let rest = path.get(slash_index..)?;
                 return Some((node, rest));
             }
         } else {
-- 
2.43.0


From 15a62b51db00d74106899720e56ce6990b939a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 04/62] fix: second-generation name lengths of -128 (and
 -32768) no longer overflow

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..a0a6488 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -522,7 +522,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +534,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +559,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
-- 
2.43.0


From a62e9ae3b5aebc9ac3d765ef581056e5f3d170dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 05/62] fix: buffer string readers report truncated input
 instead of panicking

---
 src/reader.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a0a6488..2a7b801 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -836,8 +836,11 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
     match string_type {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
-            let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let start = offset.wrapping_add(read_i32_at(buf, 1)? as usize);
+            read_wz_string(
+                buf.get(start..)
+                    .ok_or(Error::OutOfBounds(start, buf.len()))?,
+            )
         }
         _ => Ok(String::new()),
     }
@@ -885,8 +888,10 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
     }
 
     let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+        .map(|i| {
+            read_u16_at(buf, i as usize * 2 + offset as usize).map(|c| resolve_unicode_char(c, i))
+        })
+        .collect::<Result<_>>()?;
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
@@ -907,8 +912,10 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
     }
 
     let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+        .map(|i| {
+            read_u8_at(buf, i as usize + offset as usize).map(|c| resolve_ascii_char(c, i))
+        })
+        .collect::<Result<_>>()?;
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
-- 
2.43.0


From a3d3ff1143c4e8f1be6e82190d406f4162150230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 06/62] fix: EcbDecryptor::at works without encryption and
 set_iv drops the old key stream

---
 src/util/string_decryptor/ecb_decryptor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..81a7421 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        self.without_decrypt = iv as u32 == 0;
+        // the keys of the previous iv are no longer valid
+        self.keys.clear();
     }
 
     fn get_iv_hash(&self) -> u64 {
@@ -83,6 +86,9 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From 6515eed5ab7d6afff49b1ff22d242798babbaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 07/62] fix: strings outside the basic plane keep their last
 characters when encrypted

---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From c66991311c5515225f9a20c451530d661231189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 08/62] fix: WzReader::encrypt_str uses the directory key for
 directory names

---
 src/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 2a7b801..4efbd01 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -255,7 +255,12 @@ impl<T: AsRef<[u8]>> WzBaseReader<T> {
         if meta_type == &WzStringType::Empty {
             return Vec::new();
         }
-        let mut keys = self.keys.write().unwrap();
+        let keys = if meta_type == &WzStringType::Pkg2Dir {
+            &self.pkg2_keys
+        } else {
+            &self.keys
+        };
+        let mut keys = keys.write().unwrap();
         encrypt_str(keys.deref_mut(), str, meta_type)
     }
 }
-- 
2.43.0


From 04b37bb6656758518a0044964e48922360a74c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 09/62] fix: archives without a version header open for every
 version from 770 to 780

---
 src/file.rs              | 9 ++++-----
 src/util/version/pkg1.rs | 6 +++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3f41763..87c5bb9 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -1,4 +1,5 @@
 use crate::util::string_decryptor::pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key};
+use crate::util::version::pkg1::WZ_VERSION_HEADER_64BIT_START;
 use crate::{
     directory, reader, util, util::profile, util::string_decryptor, util::version::PKGVersion,
     wz_image, SharedWzStringDecryptor, WzDirectory, WzNodeArc, WzNodeArcVec, WzNodeCast,
@@ -11,8 +12,6 @@ use std::sync::{Arc, RwLock};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-const WZ_VERSION_HEADER_64BIT_START: u16 = 770;
-
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error(transparent)]
@@ -157,7 +156,7 @@ impl WzFile {
             wz_version_header: if let Some(encrypt_version) = option_encrypt_version {
                 encrypt_version as i32
             } else {
-                WZ_VERSION_HEADER_64BIT_START as i32
+                WZ_VERSION_HEADER_64BIT_START
             },
             string_decryptor_verified: self.wz_file_meta.string_decryptor_verified,
             wz_with_encrypt_version_header: option_encrypt_version.is_some(),
@@ -178,8 +177,8 @@ impl WzFile {
                 version_gen.max_version = 2000;
             } else {
                 /* not hold encver in wz_file, directly try 770 - 780 */
-                version_gen.current = WZ_VERSION_HEADER_64BIT_START as i32;
-                version_gen.max_version = WZ_VERSION_HEADER_64BIT_START as i32 + 10;
+                version_gen.current = WZ_VERSION_HEADER_64BIT_START;
+                version_gen.max_version = WZ_VERSION_HEADER_64BIT_START + 10;
             };
 
             /* there has code in maplelib to detect version from maplestory.exe here */
diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..9d35f4e 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -1,3 +1,6 @@
+/// stands in for the encver of files that don't hold one
+pub const WZ_VERSION_HEADER_64BIT_START: i32 = 770;
+
 pub struct VersionGen {
     encver: i32,
 
@@ -29,7 +32,8 @@ impl VersionGen {
     pub fn check_and_get_version_hash(&self) -> u32 {
         let version_hash = Self::calculate_version_hash(self.current);
 
-        if self.encver == self.current {
+        // without a version header there is no check value to compare with
+        if self.encver == self.current || self.encver == WZ_VERSION_HEADER_64BIT_START {
             return version_hash;
         }
         let enc = 0xff
-- 
2.43.0


From 4e5b2ebbaaf2848975b61921e3f707c09d8b5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 10/62] fix: an entry count that is a multiple of 256 is no
 longer taken for a version header

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 771806e..f13a309 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -98,7 +98,7 @@ impl WzHeader {
         }
 
         if encrypted_version == 0x80 {
-            let entry_count = buf.pread_with::<i32>(self.fstart + 2, LE).ok()?;
+            let entry_count = buf.pread_with::<i32>(self.fstart + 1, LE).ok()?;
             //check entry count is valid
             if entry_count > 0 && (entry_count & 0xff) == 0 && entry_count <= 0xffff {
                 return None;
-- 
2.43.0


From 5a76818e6abf0ef0f68252047087e120683ef462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 11/62] fix: the name used to verify string keys may be stored
 by reference or follow an unknown entry

---
 src/util/string_decryptor/mod.rs | 11 ++++--
 src/util/version/mod.rs          | 61 +++++---------------------------
 2 files changed, 17 insertions(+), 55 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..d9471d5 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -73,14 +73,21 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         return Err(reader::Error::DecryptError(reader.pos.get()));
     }
 
-    let dir_type = WzDirectoryType::from(reader.read_u8()?);
+    let mut dir_type = WzDirectoryType::from(reader.read_u8()?);
+
+    // unknown entries don't have a name
+    while dir_type == WzDirectoryType::UnknownType && entry_count > 1 {
+        reader.skip(4 + 4 + 2);
+        entry_count -= 1;
+        dir_type = WzDirectoryType::from(reader.read_u8()?);
+    }
 
     let wz_name_meta = match dir_type {
         // the first entry should always not be offset thou
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..876b3c7 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -2,8 +2,10 @@ pub mod pkg1;
 pub mod pkg2;
 
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
-use crate::util::string_decryptor::{ecb_decryptor::EcbDecryptor, Decryptor};
-use crate::{directory::WzDirectoryType, reader, Reader, WzSliceReader};
+use crate::util::string_decryptor::{
+    ecb_decryptor::EcbDecryptor, try_get_first_wz_name_meta, Decryptor,
+};
+use crate::{reader, Reader, WzSliceReader};
 use std::sync::{Arc, RwLock};
 
 pub fn get_iv_by_maple_version(version: WzMapleVersion) -> [u8; 4] {
@@ -107,58 +109,11 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
     let keys = Arc::new(RwLock::new(EcbDecryptor::from_iv(*iv))) as Arc<RwLock<dyn Decryptor>>;
     let reader = WzSliceReader::new_with_header(buf, &keys);
 
-    reader.seek(reader.header.data_start);
+    let meta = try_get_first_wz_name_meta(buf)?;
 
-    let mut entry_count = reader.read_wz_int()?;
-
-    if reader.header.ident == PKGVersion::V1 {
-        // invalid wz file
-        if !(0..=1000000).contains(&entry_count) {
-            return Err(reader::Error::DecryptError(reader.pos.get()));
-        }
-    } else if reader.header.ident == PKGVersion::V2 {
-        let dir_type = WzDirectoryType::from(reader.read_u8_at(reader.pos.get())?);
-        if !matches!(
-            dir_type,
-            WzDirectoryType::WzDirectory | WzDirectoryType::WzImage
-        ) {
-            // even it's a encrypted_offset_count, it's still probably a invalid wz file since we not getting any wz_dir or wz_image
-            return Err(reader::Error::DecryptError(reader.pos.get()));
-        }
-        entry_count = 1;
-    }
-
-    if entry_count == 0 {
-        return Err(reader::Error::DecryptError(reader.pos.get()));
-    }
-
-    let dir_type = WzDirectoryType::from(reader.read_u8()?);
-
-    let _wz_name = match dir_type {
-        // the first entry should always not be offset thou
-        WzDirectoryType::MetaAtOffset => {
-            let str_offset = reader.read_i32()?;
-
-            let offset = reader.header.data_start + str_offset as usize;
-            // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
-            let meta = reader.read_wz_string_meta_at(offset + 1)?;
-            reader.try_resolve_wz_string_meta(
-                &meta.string_type,
-                meta.offset,
-                meta.length as usize,
-            )?
-        }
-        WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => {
-            // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
-            let meta = reader.read_wz_string_meta()?;
-            reader.try_resolve_wz_string_meta(
-                &meta.string_type,
-                meta.offset,
-                meta.length as usize,
-            )?
-        }
-        _ => return Err(reader::Error::DecryptError(reader.pos.get())),
-    };
+    // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
+    let _wz_name =
+        reader.try_resolve_wz_string_meta(&meta.string_type, meta.offset, meta.length as usize)?;
 
     // maybe also check is all valid ascii
     // if !_wz_name.is_ascii() {
-- 
2.43.0


From 50c5704273541892ff83fb6f0881244f802c0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 12/62] fix: a given string key is kept for archives without an
 ascii name, unreadable names are refused

---
 src/directory.rs |  5 ++++-
 src/file.rs      | 29 +++++++++++++++++------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..2127e82 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -316,7 +316,10 @@ impl WzDirectory {
         if self.entries.is_empty() {
             return true;
         }
-        self.entries[0].resolve_name(&self.reader).is_ok()
+        let name = &self.entries[0].name;
+        self.reader
+            .try_resolve_wz_string_meta(&name.string_type, name.offset, name.length as usize)
+            .is_ok()
     }
 }
 
diff --git a/src/file.rs b/src/file.rs
index 87c5bb9..4132886 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -96,21 +96,19 @@ impl WzFile {
 
         // ensure the keys is valid or guess one
         let verified_keys = existing_keys
-            .and_then(|keys| {
-                if string_decryptor::verify_decryptor_from_wz_file(&map, &keys).is_ok() {
-                    Some(keys)
-                } else {
-                    None
-                }
-            })
+            .clone()
+            .filter(|keys| string_decryptor::verify_decryptor_from_wz_file(&map, keys).is_ok())
             .or_else(|| string_decryptor::guess_decryptor_from_wz_file(&map));
         let string_decryptor_verified = verified_keys.is_some();
 
-        let reader = if let Some(keys) = verified_keys {
-            WzReader::new(map).with_existing_keys(keys.clone())
-        } else {
-            WzReader::new(map)
-        };
+        let mut reader = WzReader::new(map);
+
+        // pkg1's first name is not always ascii, so the given keys still are the best bet
+        let keys = verified_keys.or(existing_keys.filter(|_| reader.header.ident == PKGVersion::V1));
+
+        if let Some(keys) = keys {
+            reader = reader.with_existing_keys(keys);
+        }
 
         let offset = reader.header.data_start;
 
@@ -165,6 +163,13 @@ impl WzFile {
 
         let mut wz_dir = WzDirectory::new(self.offset, self.block_size, &self.reader, false);
 
+        if !wz_file_meta.string_decryptor_verified {
+            wz_dir.prepare_entries()?;
+            if !wz_dir.verify_string_decryptor() {
+                return Err(Error::FailedToVerifyStringDecryptor);
+            }
+        }
+
         let mut version_gen = util::version::pkg1::VersionGen::new(
             wz_file_meta.wz_version_header,
             wz_file_meta.patch_version,
-- 
2.43.0


From a1a82720616c1efbc02718e10cec27329e543c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 13/62] fix: guessing the key of an empty image file reports an
 error

---
 src/util/version/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index 876b3c7..a715709 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -83,7 +83,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
-- 
2.43.0


From 2eb4ea0cf29fc49105b1f2aeb5b42c911c79dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 14/62] fix: an image whose header does not read 'Property'
 under its key is refused

---
 src/wz_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index 5891fb9..5d251a2 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -135,7 +135,7 @@ impl WzImage {
         } else {
             let name = reader.read_wz_string()?;
             let value = reader.read_u16()?;
-            if name != "Property" && value != 0 {
+            if name != "Property" || value != 0 {
                 return Err(Error::ParseError(reader.pos.get()));
             }
         }
@@ -213,7 +213,7 @@ impl WzImage {
             WzImageHeaderType::WithoutOffset => {
                 let name = reader.read_wz_string()?;
                 let value = reader.read_u16()?;
-                if name != "Property" && value != 0 {
+                if name != "Property" || value != 0 {
                     return Err(Error::WrongVersion);
                 }
             }
-- 
2.43.0


From 11835e17c92009168e332c33b29b87cdf659f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 15/62] fix: an unreadable entry name is an error instead of a
 panic

---
 src/directory.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2127e82..3c5d9c1 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -121,13 +121,18 @@ impl WzDirectory {
             return Err(Error::InvalidWzVersion);
         }
 
-        let nodes: WzNodeArcVec = self
+        let nodes = self
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<WzNodeArcVec, Error>>()?;
 
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
@@ -479,15 +484,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
-- 
2.43.0


From 1a7e6b86f02ea6e865e6f051924274a24d4ef388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 16/62] fix: a negative entry size is refused instead of
 wrapping around

---
 src/directory.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 3c5d9c1..dc54097 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -366,7 +366,8 @@ impl WzDirectoryEntry {
             }
         }
 
-        entry.size = reader.read_wz_int()? as usize;
+        entry.size =
+            usize::try_from(reader.read_wz_int()?).map_err(|_| Error::InvalidWzVersion)?;
         entry._checksum = reader.read_wz_int()?;
         entry.calculation_offset = reader.pos.get();
         entry.encrypted_offset = reader.read_u32()?;
@@ -413,14 +414,16 @@ impl WzDirectoryEntry {
             }
         }
 
-        entry.size = reader.read_wz_int()? as usize;
+        entry.size =
+            usize::try_from(reader.read_wz_int()?).map_err(|_| Error::InvalidWzVersion)?;
         entry._checksum = reader.read_wz_int()?;
 
         Ok(entry)
     }
 
     pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
-        if !reader.is_valid_pos(self.offset + self.size) {
+        let end = self.offset.checked_add(self.size);
+        if !end.is_some_and(|end| reader.is_valid_pos(end)) {
             return Err(Error::InvalidWzVersion);
         }
 
-- 
2.43.0


From dc0ecdde72911aa80e9d66a160a12ad182ae8ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 17/62] fix: a directory listed inside itself is an error
 instead of a stack overflow

---
 src/directory.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index dc54097..2cb77b1 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -111,6 +111,19 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        self.resolve_children_inside(parent, &mut vec![])
+    }
+
+    /// `opened` holds the offsets of the directories this one is inside of
+    fn resolve_children_inside(
+        &mut self,
+        parent: &WzNodeArc,
+        opened: &mut Vec<usize>,
+    ) -> Result<WzNodeArcVec, Error> {
+        if opened.contains(&self.offset) {
+            return Err(Error::ParseError(self.offset));
+        }
+
         if self.block_size == 0 {
             return Ok(vec![]);
         }
@@ -134,13 +147,15 @@ impl WzDirectory {
             })
             .collect::<Result<WzNodeArcVec, Error>>()?;
 
+        opened.push(self.offset);
+
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
             let mut write = node.write().unwrap();
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children(node)?;
+                let children = dir.resolve_children_inside(node, opened)?;
 
                 for (name, child) in children {
                     write.children.insert(name, child);
@@ -148,6 +163,8 @@ impl WzDirectory {
             }
         }
 
+        opened.pop();
+
         self.verify_status = WzDirectoryVerifyStatus::Verified;
         self.entries.clear();
 
-- 
2.43.0


From 4ea67119bbc32ed37c7fe098e311c86eb749790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 18/62] fix: a directory parses again after being unparsed

---
 src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node.rs b/src/node.rs
index 680878a..d9df509 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,6 +234,7 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
-- 
2.43.0


From ec59d9d377fa4426b847790ed8bff48807a00434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 19/62] fix: walk_node holds no lock while its callback runs

---
 src/util/walk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/walk.rs b/src/util/walk.rs
index 6b2fc17..a4ab58f 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -11,7 +11,10 @@ pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
 
     f(node);
 
-    for child in node.read().unwrap().children.values() {
+    // the callback may need to lock this node, so don't hold it while walking the children
+    let children: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
+
+    for child in children.iter() {
         walk_node(child, force_parse, f);
     }
 
-- 
2.43.0


From ea26f2dc0fad878a43a5386d83fc1843b00ce366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 20/62] fix: resolving an outlink holds no lock on the base
 while parsing below it

---
 src/util/node_util.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 877ea90..f872755 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -21,7 +21,15 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
     let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
 
     if force_parse {
-        parent_wz_base.write().unwrap().at_path_parsed(path).ok()
+        let mut pathes = path.split('/');
+
+        // don't hold the base while parsing, whoever locks a node below may be waiting for it
+        let first = parent_wz_base.read().unwrap().at(pathes.next()?)?;
+        pathes.try_fold(first, |node, name| {
+            let mut write = node.write().unwrap();
+            write.parse(&node).ok()?;
+            write.at(name)
+        })
     } else {
         parent_wz_base.read().unwrap().at_path(path)
     }
-- 
2.43.0


From a57518b55e43bb0845e3694300d5c1fbaf2731f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 21/62] fix: links that lead in a circle are an error and
 get_image holds no lock while following them

---
 src/property/png.rs | 57 +++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..367781a 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -53,31 +53,48 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
-
-            if let Some(target) = inlink_target {
-                return get_image(&target);
-            }
+    let mut node = Arc::clone(node);
+    let mut visited: Vec<WzNodeArc> = vec![];
+
+    // no lock is held while resolving, the links may lead to anywhere, even back to the node itself
+    while let Some(target) = resolve_link(&node)? {
+        visited.push(node);
+        if visited.iter().any(|n| Arc::ptr_eq(n, &target)) {
+            return Err(WzPngParseError::LinkError);
+        }
+        node = target;
+    }
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+    let png = match &node.read().unwrap().object_type {
+        WzObjectType::Property(WzSubProperty::PNG(png)) => png.clone(),
+        _ => return Err(WzPngParseError::NotPngProperty),
+    };
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
-            }
+    png.extract_png()
+}
 
-            png.extract_png()
+/// Get the node that `_inlink` or `_outlink` of a canvas leads to
+fn resolve_link(node: &WzNodeArc) -> Result<Option<WzNodeArc>, WzPngParseError> {
+    let get_link = |name: &str| -> Result<Option<String>, WzPngParseError> {
+        let node_read = node.read().unwrap();
+        if !matches!(
+            node_read.object_type,
+            WzObjectType::Property(WzSubProperty::PNG(_))
+        ) {
+            return Err(WzPngParseError::NotPngProperty);
         }
-        _ => Err(WzPngParseError::NotPngProperty),
+        Ok(node_read
+            .at(name)
+            .and_then(|node| resolve_string_from_node(&node).ok()))
+    };
+
+    let inlink_target = get_link("_inlink")?.and_then(|link| node_util::resolve_inlink(&link, node));
+
+    if inlink_target.is_some() {
+        return Ok(inlink_target);
     }
+
+    Ok(get_link("_outlink")?.and_then(|link| node_util::resolve_outlink(&link, node, true)))
 }
 
 #[derive(Debug, Clone, Default, PartialEq, Eq)]
-- 
2.43.0


From 7ec571b0789c3c7589b5e0b6b7f70fef4311839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:46 +0000
Subject: [PATCH 22/62] fix: resolving a UOL never puts a node inside of itself

---
 src/util/node_util.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index f872755..183c04e 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -60,6 +60,27 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     pathes.join("/")
 }
 
+/// Whether the node is the `container` or somewhere below it.
+fn is_inside(node: &WzNodeArc, container: &WzNodeArc) -> bool {
+    let mut visited = std::collections::HashSet::new();
+    let mut pending = vec![Arc::clone(container)];
+
+    while let Some(current) = pending.pop() {
+        if Arc::ptr_eq(&current, node) {
+            return true;
+        }
+        if visited.insert(Arc::as_ptr(&current)) {
+            match current.try_read() {
+                Ok(read) => pending.extend(read.children.values().cloned()),
+                /* the WzImage that is currently parsing, everything is below it */
+                Err(_) => return true,
+            }
+        }
+    }
+
+    false
+}
+
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
@@ -96,6 +117,9 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
             None
         };
 
+        // a node must not end up inside of itself
+        let uol_target = uol_target.filter(|target| !is_inside(&node_parent, target));
+
         if let Some(target_node) = uol_target {
             let node_name = node.read().unwrap().name.clone();
 
-- 
2.43.0


From 63575fad19cb2f84289446f2bae887445d7e2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 23/62] fix: property counts that can't be are errors instead
 of panics

---
 src/util/parse_property.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 42b4c45..2d5011b 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -22,19 +22,29 @@ pub enum WzPropertyParseError {
     #[error("Unknown extended property type: {0}, name: {1}, at position: {2}")]
     UnknownExtendedPropertyType(String, WzNodeName, usize),
 
+    #[error("Invalid entry count: {0}, at position: {1}")]
+    InvalidEntryCount(i32, usize),
+
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
 
+/// Read how many entries follow, a damaged file may hold a count that can't be.
+fn read_entry_count(reader: &WzSliceReader) -> Result<usize, WzPropertyParseError> {
+    let entry_count = reader.read_wz_int()?;
+    usize::try_from(entry_count)
+        .map_err(|_| WzPropertyParseError::InvalidEntryCount(entry_count, reader.pos.get()))
+}
+
 pub fn parse_property_list(
     parent: Option<&WzNodeArc>,
     org_reader: &Arc<WzReader>,
     reader: &WzSliceReader,
     origin_offset: usize,
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
-    let entry_count = reader.read_wz_int()?;
+    let entry_count = read_entry_count(reader)?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count.min(reader.available()));
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -269,12 +279,14 @@ pub fn parse_more(
             )
             .into_lock();
 
-            let entry_count = reader.read_wz_int()?;
+            let entry_count = read_entry_count(reader)?;
             let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
             {
                 let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
+                node_write
+                    .children
+                    .reserve(entry_count.min(reader.available()));
                 for i in 0..entry_count {
                     let name: WzNodeName = i.to_string().into();
                     let parsed_node = parse_extended_prop(
-- 
2.43.0


From 33f457e4b63e0811141cc935fcab7f75f26d310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 24/62] fix: sounds, raw data and videos that are not inside
 the file are errors instead of panics

---
 src/util/parse_property.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 2d5011b..c41bd21 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -319,17 +319,16 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
+            let sound_offset = end_of_block.saturating_sub(sound_size as usize);
 
             let header_offset: usize = reader.pos.get();
 
-            let header_size = sound_offset - header_offset;
+            // the sound must be inside of the file and not overlap its header
+            reader.get_slice_or_error(sound_offset..end_of_block)?;
+            let header = reader.get_slice_or_error(header_offset..sound_offset)?;
+            let header_size = header.len();
 
-            let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
-                sound_size,
-                sound_duration,
-            );
+            let sound_type = get_sound_type_from_header(header, sound_size, sound_duration);
             let sound = WzSound::new(
                 org_reader,
                 sound_offset,
@@ -388,8 +387,9 @@ pub fn parse_more(
                 uol_nodes = Some(uols);
             }
 
-            let raw_data_size = reader.read_wz_int()? as usize;
+            let raw_data_size = reader.read_wz_int()? as u32 as usize;
             let raw_data_offset = reader.pos.get();
+            reader.get_slice_or_error(raw_data_offset..raw_data_offset + raw_data_size)?;
 
             node.write().unwrap().object_type =
                 WzRawData::new(org_reader, raw_data_offset, raw_data_size).into();
@@ -399,8 +399,9 @@ pub fn parse_more(
         "Canvas#Video" => {
             // origin observation, first 3 bytes is [0x00, 0x00, 0x01]
             reader.skip(3);
-            let video_size = reader.read_wz_int()? as usize;
+            let video_size = reader.read_wz_int()? as u32 as usize;
             let video_offset = reader.pos.get();
+            reader.get_slice_or_error(video_offset..video_offset + video_size)?;
             // pos - size shoud same as end_of_block
             let node = WzNode::new(
                 &property_name,
-- 
2.43.0


From a26057cc2ba07c1a455a3497878e37a579abaef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 25/62] fix: resolving a UOL touches no slot but its own and
 survives a parent that is gone

---
 src/util/node_util.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 183c04e..d5aef25 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -84,7 +84,10 @@ fn is_inside(node: &WzNodeArc, container: &WzNodeArc) -> bool {
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let node_parent = node.read().unwrap().parent.upgrade().unwrap();
+    // the parent is gone when a later entry of the same name took its place
+    let Some(node_parent) = node.read().unwrap().parent.upgrade() else {
+        return;
+    };
 
     if let Some(ref mut uol_target_path) = node
         .read()
@@ -126,11 +129,15 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
             /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
             if let Ok(mut parent) = node_parent.try_write() {
                 if let Some(origin) = parent.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
+                    if Arc::ptr_eq(origin, node) {
+                        let _ = std::mem::replace(origin, target_node);
+                    }
                 }
             } else if let Some(wz_image) = wz_image {
                 if let Some(origin) = wz_image.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
+                    if Arc::ptr_eq(origin, node) {
+                        let _ = std::mem::replace(origin, target_node);
+                    }
                 }
             }
         }
-- 
2.43.0


From 9c15895af02acf19f313eb824e5d1c4a5465cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 26/62] fix: canvas decoding handles sizes off the 4x4 grid and
 reports data that is too short or damaged

---
 src/property/png.rs | 64 +++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 367781a..49bcabe 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -31,6 +31,9 @@ pub enum WzPngParseError {
     #[error("Unknown format: {0:?}")]
     UnknownFormat(WzPngFormat),
 
+    #[error("Not enough data for the image, expected {0} bytes but got {1}")]
+    NotEnoughData(usize, usize),
+
     #[error("Unsupported header: {0}")]
     UnsupportedHeader(i32),
 
@@ -199,7 +202,7 @@ impl WzPng {
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+            .get_slice_or_error(self.offset..(self.offset + self.block_size))?;
         /* decompress */
         let pixels = self.get_raw_data(data)?;
 
@@ -225,24 +228,24 @@ impl WzPng {
         }
     }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
+        let pixels = self.width as usize * self.height as usize;
+        // the bc formats store every started 4x4 block
+        let blocks = self.width.div_ceil(4) as usize * self.height.div_ceil(4) as usize;
+
         match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
             | WzPngFormat::RGB565
-            | WzPngFormat::R16 => Ok((self.width * self.height * 2) as usize),
-            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
-                Ok((self.width * self.height * 4) as usize)
-            }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
-                Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
+            | WzPngFormat::R16 => Ok(pixels.saturating_mul(2)),
+            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => Ok(pixels.saturating_mul(4)),
+            WzPngFormat::DXT3SM | WzPngFormat::DXT3 | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
+                Ok(blocks.saturating_mul(16))
             }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
-            WzPngFormat::A8 => Ok((self.width * self.height) as usize),
-            WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
+            WzPngFormat::A8 => Ok(pixels),
+            WzPngFormat::RGBA32Float => Ok(pixels.saturating_mul(16)),
             WzPngFormat::RGB565_517 => {
                 /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
+                Ok(pixels / 128)
             }
             _ => Err(WzPngParseError::UnknownFormat(self.format())),
         }
@@ -271,10 +274,10 @@ impl WzPng {
         let mut decrypted = Vec::with_capacity(self.block_size);
 
         while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+            let block_size = self.reader.read_u32_at(offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
+            let data = self.reader.get_slice_or_error(offset..(offset + block_size))?;
             offset += block_size;
 
             decrypted.extend_from_slice(data);
@@ -287,19 +290,24 @@ impl WzPng {
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        inflate(false, decrypted.get(2..).unwrap_or_default(), capacity)
     }
 }
 
 #[inline]
 fn inflate(with_header: bool, data: &[u8], capacity: usize) -> Result<Vec<u8>, WzPngParseError> {
     let mut deflater = Decompress::new(with_header);
-    let mut result = Vec::with_capacity(capacity);
+    // inflated data is at most 1032 times as long, don't allocate more than that whatever the size says
+    let mut result = Vec::with_capacity(capacity.min(data.len().saturating_mul(1032)));
 
     if let Err(e) = deflater.decompress_vec(data, &mut result, FlushDecompress::Sync) {
         return Err(WzPngParseError::from(e));
     };
 
+    if result.len() < capacity {
+        return Err(WzPngParseError::NotEnoughData(capacity, result.len()));
+    }
+
     Ok(result)
 }
 
@@ -362,7 +370,7 @@ fn get_image_from_dxt3(
     height: u32,
 ) -> Result<DynamicImage, WzPngParseError> {
     let image_buffer_chunks = raw_data
-        .par_chunks(16)
+        .par_chunks_exact(16)
         .try_fold_with::<_, Vec<ImageBufferRgbaChunk>, Result<_, WzPngParseError>>(
             Vec::new(),
             |mut v, chunk| {
@@ -399,7 +407,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -421,7 +429,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -431,8 +439,8 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -458,7 +466,7 @@ fn get_image_from_dxt5(
     height: u32,
 ) -> Result<DynamicImage, WzPngParseError> {
     let image_buffer_chunks = raw_data
-        .par_chunks(16)
+        .par_chunks_exact(16)
         .try_fold_with::<_, Vec<ImageBufferRgbaChunk>, Result<_, WzPngParseError>>(
             Vec::new(),
             |mut v, chunk| {
@@ -496,7 +504,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -519,7 +527,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -530,8 +538,8 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -553,7 +561,7 @@ fn get_image_from_dxt5(
 
 fn get_pixel_data_form_517(raw_data: &[u8], width: u32, height: u32) -> Vec<u8> {
     /* pixels is 256 times of raw_data */
-    let mut pixels: Vec<u8> = vec![0; (width * height * 2) as usize];
+    let mut pixels: Vec<u8> = vec![0; width as usize * height as usize * 2];
     let mut line_index: usize = 0;
     // 16 probably means rgb565, it store 2 bytes for each pixel.
     let j_steps = (height / 16) as usize;
@@ -878,7 +886,7 @@ fn get_image_from_bc7(
     width: u32,
     height: u32,
 ) -> Result<DynamicImage, WzPngParseError> {
-    let mut output_rgba_u32 = vec![0_u32; (width * height) as usize];
+    let mut output_rgba_u32 = vec![0_u32; width as usize * height as usize];
 
     /* TODO: maybe implement this without external crate, this implementation need extra transform from bgra u32 to u8 */
     decode_bc7(
-- 
2.43.0


From 3dd9f440ea392e8b411c60db78ed6764cbdf2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 27/62] fix: canvas data that is not inside the file is an
 error instead of a panic

---
 src/util/parse_property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index c41bd21..162a4b0 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -255,9 +255,10 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.wrapping_sub(1) as u32 as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
+            reader.get_slice_or_error(canvas_offset..canvas_offset + canvas_slice_size)?;
             let canvas_header = reader.read_u16()?;
             let wz_png = WzPng::new(
                 org_reader,
-- 
2.43.0


From 865b4afe8f46b0f526ab49b69800677ad160e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 28/62] fix: an encrypted canvas block reaching past the canvas
 is an error

---
 src/property/png.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/property/png.rs b/src/property/png.rs
index 49bcabe..a684809 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -277,6 +277,11 @@ impl WzPng {
             let block_size = self.reader.read_u32_at(offset)? as usize;
             offset += 4;
 
+            // the blocks must not go past the data of this image
+            if block_size > total_end - offset.min(total_end) {
+                return Err(reader::Error::OutOfBounds(total_end, offset + block_size).into());
+            }
+
             let data = self.reader.get_slice_or_error(offset..(offset + block_size))?;
             offset += block_size;
 
-- 
2.43.0


From 33be821d7732671272d4d4faa8ceba4009c83660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 29/62] fix: the key of a script is found even if a character
 is cut at byte 64

---
 src/property/lua.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index 6fa3ed9..abbbd0a 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -75,7 +75,13 @@ impl WzLua {
                 write.decrypt_slice(&mut decoded);
             }
 
-            if String::from_utf8(decoded).is_ok() {
+            let is_text = match std::str::from_utf8(&decoded) {
+                Ok(_) => true,
+                // the tested part can end in the middle of a character
+                Err(e) => len < self.length && e.error_len().is_none(),
+            };
+
+            if is_text {
                 return Some(keys);
             }
         }
-- 
2.43.0


From 9612a3c7d9c6b27c82bfce8fdbd74803ff3510eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 30/62] fix: scripts and texts that are not inside the file are
 an error instead of a panic

---
 src/property/lua.rs |  5 ++++-
 src/wz_image.rs     | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index abbbd0a..373e320 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -14,6 +14,9 @@ pub enum WzLuaParseError {
 
     #[error("Not a Lua property")]
     NotLuaProperty,
+
+    #[error(transparent)]
+    ReaderError(#[from] crate::reader::Error),
 }
 
 /// WzLua use to store lua information and extraction method.
@@ -37,7 +40,7 @@ impl WzLua {
     pub fn extract_lua(&self) -> Result<String, WzLuaParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..self.length + self.offset);
+            .get_slice_or_error(self.offset..self.length + self.offset)?;
 
         let keys = self
             .get_mtb_keys_from_guess_lua_iv()
diff --git a/src/wz_image.rs b/src/wz_image.rs
index 5d251a2..903f235 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -162,27 +162,32 @@ impl WzImage {
 
         reader.seek(self.offset);
 
-        let header_byte = reader.read_u8()?;
-
         // there also has json, atlas, etc. but they all using WzString to store it, this guy is just raw text
         if self.name.ends_with(".txt") {
             let name: WzNodeName = String::from("text.txt").into();
 
+            reader.get_slice_or_error(self.offset..self.offset + self.block_size)?;
+
             let wz_raw_data = WzRawData::new(&self.reader, self.offset, self.block_size);
             let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
             return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
         }
 
+        let header_byte = reader.read_u8()?;
+
         match WzImageHeaderType::from(header_byte) {
             WzImageHeaderType::PlainText => {
                 if self.name.ends_with(".lua") {
                     let len = reader.read_wz_int()?;
                     let offset = reader.pos.get();
+                    let len = len as u32 as usize;
+
+                    reader.get_slice_or_error(offset..offset + len)?;
 
                     let name: WzNodeName = String::from("Script").into();
 
-                    let wz_lua = WzLua::new(&self.reader, offset, len as usize);
+                    let wz_lua = WzLua::new(&self.reader, offset, len);
 
                     let lua_node = WzNode::new(&name, wz_lua, parent);
 
@@ -196,7 +201,7 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset + 9)?
                         .iter()
                         .map(|&b| b as char),
                 );
@@ -204,8 +209,14 @@ impl WzImage {
                     return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
                 }
                 let name: WzNodeName = String::from("text.txt").into();
-                let wz_raw_data =
-                    WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
+                let len = self
+                    .block_size
+                    .checked_sub(9)
+                    .ok_or(Error::ParseError(self.offset))?;
+
+                reader.get_slice_or_error(self.offset + 9..self.offset + 9 + len)?;
+
+                let wz_raw_data = WzRawData::new(&self.reader, self.offset + 9, len);
                 let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
                 return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
-- 
2.43.0


From 0292eca5a8d37377c10071cafe600d23c20ca84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 31/62] fix: a null value read back from json is still a null
 value

---
 src/property/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..fde5db8 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -49,7 +49,6 @@ pub enum WzSubProperty {
     Convex,
     Sound(Box<WzSound>),
     PNG(Box<WzPng>),
-    #[cfg_attr(feature = "serde", serde(other))]
     Property,
 }
 
-- 
2.43.0


From 5664c78f27deaf6620a227d63c2d3f9d7d5cb2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 32/62] fix: simple json of a float that is not finite is null
 instead of a panic

---
 src/property/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index fde5db8..b1a5970 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -91,8 +91,11 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            // json has no number for infinity and NaN
+            WzValue::Float(value) => {
+                Number::from_f64(value.into()).map_or(Value::Null, Value::Number)
+            }
+            WzValue::Double(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From 587fe8f8c03fde3d18f69d871d94edbbbb966d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 33/62] fix: resolving an inlink holds one lock at a time

---
 src/util/node_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index d5aef25..f781aa7 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -11,8 +11,11 @@ pub fn parse_node(node: &WzNodeArc) -> Result<(), Error> {
 /// Resolve a `_inlink` path, a `_inlink` path always start from a `WzImage`.
 pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
     let parent_wz_image = node.read().unwrap().get_parent_wz_image()?;
-    let parent_wz_image = parent_wz_image.read().unwrap();
-    parent_wz_image.at_path(path)
+    let mut pathes = path.split('/');
+
+    // don't hold the image while going down, whoever locks a node below may be waiting for it
+    let first = parent_wz_image.read().unwrap().at(pathes.next()?);
+    first.and_then(|first| pathes.try_fold(first, |node, name| node.read().unwrap().at(name)))
 }
 
 #[inline]
-- 
2.43.0


From cf28742cd40526b32b7a681c1e080145fbb4f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 34/62] fix: direct access to the text of an empty text image

---
 src/wz_image.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index 903f235..440039b 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -122,9 +122,10 @@ impl WzImage {
         let reader = self.reader.create_slice_reader_without_hash();
 
         reader.seek(self.offset);
-        let header_byte = reader.read_u8()?;
 
-        if self.name.ends_with(".txt") || header_byte != WzImageHeaderType::WithoutOffset as u8 {
+        if self.name.ends_with(".txt")
+            || reader.read_u8()? != WzImageHeaderType::WithoutOffset as u8
+        {
             // those only have a single child, and not storing as a property list
             let (children, _) = self.resolve_children(None)?;
             return children
-- 
2.43.0


From 5804b9c40dbbbf8e9a2e456272bd28446faaf166 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 35/62] fix: a folder without its archive keeps its directory,
 what can't be opened is an error instead of a panic

---
 src/util/resolver.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..df3722c 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -6,12 +6,12 @@ use std::path::Path;
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     let dir_name = dir.file_name();
-    let mut inner_wz_name = dir_name.to_str().unwrap().to_string();
+    let mut inner_wz_name = dir_name.to_str()?.to_string();
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
-    if inner_wz_path.try_exists().is_ok() {
-        return Some(inner_wz_path.to_str().unwrap().to_string());
+    if inner_wz_path.is_file() {
+        return inner_wz_path.to_str().map(String::from);
     }
 
     None
@@ -27,21 +27,27 @@ pub fn resolve_root_wz_file_dir_full(
 ) -> Result<WzNodeArc, io::Error> {
     let root_node: WzNodeArc =
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
+            .map_err(io::Error::other)?
             .into();
     let wz_dir = dir.as_ref().parent().unwrap();
 
     {
         let mut root_node_write = root_node.write().unwrap();
 
-        root_node_write.parse(&root_node).unwrap();
+        root_node_write
+            .parse(&root_node)
+            .map_err(io::Error::other)?;
 
         for entry in wz_dir.read_dir()? {
             let entry = entry?;
             let file_type = entry.file_type()?;
             let name = entry.file_name();
+            // what has no readable name can't be listed
+            let Some(name) = name.to_str() else {
+                continue;
+            };
 
-            if file_type.is_dir() && root_node_write.at(name.to_str().unwrap()).is_some() {
+            if file_type.is_dir() && root_node_write.at(name).is_some() {
                 if let Some(file_path) = get_root_wz_file_path(&entry) {
                     let dir_node = resolve_root_wz_file_dir_full(
                         &file_path,
@@ -52,9 +58,7 @@ pub fn resolve_root_wz_file_dir_full(
                     )?;
 
                     /* replace the original one */
-                    root_node_write
-                        .children
-                        .insert(name.to_str().unwrap().into(), dir_node);
+                    root_node_write.children.insert(name.into(), dir_node);
                 }
             } else if file_type.is_file() {
                 //  check is XXX_nnn.wz
@@ -78,7 +82,7 @@ pub fn resolve_root_wz_file_dir_full(
                     None,
                     default_keys,
                 )
-                .unwrap()
+                .map_err(io::Error::other)?
                 .into_lock();
 
                 let mut node_write = node.write().unwrap();
@@ -143,18 +147,20 @@ pub fn resolve_base(
         for item in wz_root_path.read_dir()? {
             let dir = item?;
             let path = dir.path();
-            let file_name = path.file_stem().unwrap();
+            let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+                continue;
+            };
 
             let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
 
             // we only allow the thing is listed in Base.wz
-            let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
+            let has_dir = base_write.at(file_name).is_some();
 
             if has_dir && is_valid {
                 let wz_path = if dir.file_type()?.is_dir() {
                     get_root_wz_file_path(&dir)
                 } else {
-                    Some(path.to_str().unwrap().to_string())
+                    path.to_str().map(String::from)
                 };
 
                 if let Some(file_path) = wz_path {
@@ -168,9 +174,7 @@ pub fn resolve_base(
                     )?;
 
                     /* replace the original one */
-                    base_write
-                        .children
-                        .insert(file_name.to_str().unwrap().into(), dir_node);
+                    base_write.children.insert(file_name.into(), dir_node);
                 }
             }
         }
-- 
2.43.0


From 8520434844cbd1876efcd13662ef4ed0ec8f84bf Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 36/62] fix: only the parts of an archive itself are merged
 into it

---
 src/util/resolver.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index df3722c..e6a967a 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -17,6 +17,16 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     None
 }
 
+/// Check is `name` a numbered part of the archive, like `Map_000.wz` of `Map.wz`.
+fn is_part_of(name: &str, archive_name: &str) -> bool {
+    name.strip_prefix(archive_name)
+        .and_then(|name| name.strip_prefix('_'))
+        .and_then(|name| name.strip_suffix(".wz"))
+        .is_some_and(|number| {
+            number.bytes().all(|byte| byte.is_ascii_digit()) && number.parse::<u16>().is_ok()
+        })
+}
+
 /// Resolve series of wz files in a directory, and merge *_nnn.wz files into one WzFile.
 pub fn resolve_root_wz_file_dir_full(
     dir: impl AsRef<Path>,
@@ -30,6 +40,7 @@ pub fn resolve_root_wz_file_dir_full(
             .map_err(io::Error::other)?
             .into();
     let wz_dir = dir.as_ref().parent().unwrap();
+    let archive_name = root_node.read().unwrap().name.clone();
 
     {
         let mut root_node_write = root_node.write().unwrap();
@@ -61,20 +72,12 @@ pub fn resolve_root_wz_file_dir_full(
                     root_node_write.children.insert(name.into(), dir_node);
                 }
             } else if file_type.is_file() {
-                //  check is XXX_nnn.wz
-                let file_path = entry.path();
-                let file_name = file_path.file_stem().unwrap().to_str().unwrap();
-
-                let splited = file_name.split('_').collect::<Vec<&str>>();
-
-                if splited.len() < 2 {
-                    continue;
-                }
-
-                if splited.last().unwrap().parse::<u16>().is_err() {
+                // only the parts of this very archive, others can be in the same folder
+                if !is_part_of(name, &archive_name) {
                     continue;
                 }
 
+                let file_path = entry.path();
                 let node = WzNode::from_wz_file_full(
                     file_path.to_str().unwrap(),
                     version,
-- 
2.43.0


From af929b7197f6e6c6843987e6de9320ef710ff24e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 37/62] fix: a resolved folder doesn't depend on the order of
 its entries

---
 src/util/resolver.rs | 53 +++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index e6a967a..53453ce 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -17,6 +17,13 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     None
 }
 
+/// All entries in a folder, ordered by their name.
+fn sorted_entries(dir: &Path) -> io::Result<Vec<DirEntry>> {
+    let mut entries = dir.read_dir()?.collect::<io::Result<Vec<_>>>()?;
+    entries.sort_by_key(|entry| entry.file_name());
+    Ok(entries)
+}
+
 /// Check is `name` a numbered part of the archive, like `Map_000.wz` of `Map.wz`.
 fn is_part_of(name: &str, archive_name: &str) -> bool {
     name.strip_prefix(archive_name)
@@ -49,8 +56,10 @@ pub fn resolve_root_wz_file_dir_full(
             .parse(&root_node)
             .map_err(io::Error::other)?;
 
-        for entry in wz_dir.read_dir()? {
-            let entry = entry?;
+        let entries = sorted_entries(wz_dir)?;
+
+        // the parts come first, they can list more folders
+        for entry in entries.iter() {
             let file_type = entry.file_type()?;
             let name = entry.file_name();
             // what has no readable name can't be listed
@@ -58,20 +67,7 @@ pub fn resolve_root_wz_file_dir_full(
                 continue;
             };
 
-            if file_type.is_dir() && root_node_write.at(name).is_some() {
-                if let Some(file_path) = get_root_wz_file_path(&entry) {
-                    let dir_node = resolve_root_wz_file_dir_full(
-                        &file_path,
-                        version,
-                        patch_version,
-                        Some(&root_node),
-                        default_keys,
-                    )?;
-
-                    /* replace the original one */
-                    root_node_write.children.insert(name.into(), dir_node);
-                }
-            } else if file_type.is_file() {
+            if file_type.is_file() {
                 // only the parts of this very archive, others can be in the same folder
                 if !is_part_of(name, &archive_name) {
                     continue;
@@ -102,6 +98,28 @@ pub fn resolve_root_wz_file_dir_full(
                 }
             }
         }
+
+        for entry in entries.iter() {
+            let name = entry.file_name();
+            let Some(name) = name.to_str() else {
+                continue;
+            };
+
+            if entry.file_type()?.is_dir() && root_node_write.at(name).is_some() {
+                if let Some(file_path) = get_root_wz_file_path(entry) {
+                    let dir_node = resolve_root_wz_file_dir_full(
+                        &file_path,
+                        version,
+                        patch_version,
+                        Some(&root_node),
+                        default_keys,
+                    )?;
+
+                    /* replace the original one */
+                    root_node_write.children.insert(name.into(), dir_node);
+                }
+            }
+        }
     }
 
     Ok(root_node)
@@ -147,8 +165,7 @@ pub fn resolve_base(
             first_parent
         };
 
-        for item in wz_root_path.read_dir()? {
-            let dir = item?;
+        for dir in sorted_entries(wz_root_path)? {
             let path = dir.path();
             let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
                 continue;
-- 
2.43.0


From 18161ebb897396d9859e66438557e498922a07d7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 38/62] fix: a directory in several parts of an archive has the
 content of all

---
 src/util/resolver.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 53453ce..319d13c 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -2,6 +2,7 @@ use crate::{util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNo
 use std::fs::DirEntry;
 use std::io;
 use std::path::Path;
+use std::sync::Arc;
 
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
@@ -34,6 +35,33 @@ fn is_part_of(name: &str, archive_name: &str) -> bool {
         })
 }
 
+/// Move the children of a part into the node, a directory in both has the content of both.
+fn merge_part(target_node: &WzNodeArc, target: &mut WzNode, part: &mut WzNode) {
+    target.children.reserve(part.children.len());
+    #[cfg(not(feature = "indexmap"))]
+    let iter = part.children.drain();
+    #[cfg(feature = "indexmap")]
+    let iter = part.children.drain(..);
+    for (name, child) in iter {
+        if let Some(exist) = target.children.get(&name) {
+            let mut exist_write = exist.write().unwrap();
+            let mut child_write = child.write().unwrap();
+
+            if exist_write.try_as_directory().is_some()
+                && child_write.try_as_directory().is_some()
+                && exist_write.parse(exist).is_ok()
+                && child_write.parse(&child).is_ok()
+            {
+                merge_part(exist, &mut exist_write, &mut child_write);
+                continue;
+            }
+        }
+
+        child.write().unwrap().parent = Arc::downgrade(target_node);
+        target.children.insert(name, child);
+    }
+}
+
 /// Resolve series of wz files in a directory, and merge *_nnn.wz files into one WzFile.
 pub fn resolve_root_wz_file_dir_full(
     dir: impl AsRef<Path>,
@@ -87,14 +115,7 @@ pub fn resolve_root_wz_file_dir_full(
                 let mut node_write = node.write().unwrap();
 
                 if node_write.parse(&root_node).is_ok() {
-                    root_node_write.children.reserve(node_write.children.len());
-                    #[cfg(not(feature = "indexmap"))]
-                    let iter = node_write.children.drain();
-                    #[cfg(feature = "indexmap")]
-                    let iter = node_write.children.drain(..);
-                    for (name, child) in iter {
-                        root_node_write.children.insert(name, child);
-                    }
+                    merge_part(&root_node, &mut root_node_write, &mut node_write);
                 }
             }
         }
-- 
2.43.0


From a2cbd381fb73320993ac9c95179a1307e572c9d7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 39/62] fix: resolve a Base.wz without a folder in its path

---
 src/util/resolver.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 319d13c..9a13794 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -74,7 +74,10 @@ pub fn resolve_root_wz_file_dir_full(
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
             .map_err(io::Error::other)?
             .into();
-    let wz_dir = dir.as_ref().parent().unwrap();
+    let wz_dir = match dir.as_ref().parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    };
     let archive_name = root_node.read().unwrap().name.clone();
 
     {
@@ -176,19 +179,26 @@ pub fn resolve_base(
     {
         let mut base_write = base_node.write().unwrap();
 
-        let first_parent = path.as_ref().parent().unwrap();
+        // a relative path may have nothing before the file name
+        let full_path = std::path::absolute(&path)?;
+        let first_parent = full_path.parent().unwrap_or(&full_path);
 
         // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
         // if not, the other stuff just at same folder as Base.wz
-        let wz_root_path = if first_parent.file_stem().unwrap() == "Base" {
-            first_parent.parent().unwrap()
-        } else {
-            first_parent
+        let wz_root_path = match first_parent.parent() {
+            Some(parent) if first_parent.file_name().is_some_and(|name| name == "Base") => parent,
+            _ => first_parent,
         };
 
         for dir in sorted_entries(wz_root_path)? {
             let path = dir.path();
-            let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+            // a folder has no extension
+            let file_name = if path.is_dir() {
+                path.file_name()
+            } else {
+                path.file_stem()
+            };
+            let Some(file_name) = file_name.and_then(|name| name.to_str()) else {
                 continue;
             };
 
-- 
2.43.0


From 914ea7f1d14b2fa54d4534d808655d9c40309bc4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 40/62] fix: parts and folders of an archive reuse its keys

---
 src/util/resolver.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9a13794..95aab94 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -87,6 +87,13 @@ pub fn resolve_root_wz_file_dir_full(
             .parse(&root_node)
             .map_err(io::Error::other)?;
 
+        // reusing the keys, the first name in a part or in a folder is not always ascii
+        let root_keys = match root_node_write.try_as_file() {
+            Some(file) if !root_node_write.children.is_empty() => Some(file.reader.keys.clone()),
+            _ => None,
+        };
+        let default_keys = default_keys.or(root_keys.as_ref());
+
         let entries = sorted_entries(wz_dir)?;
 
         // the parts come first, they can list more folders
@@ -106,7 +113,7 @@ pub fn resolve_root_wz_file_dir_full(
 
                 let file_path = entry.path();
                 let node = WzNode::from_wz_file_full(
-                    file_path.to_str().unwrap(),
+                    &file_path,
                     version,
                     patch_version,
                     None,
-- 
2.43.0


From fa31652f2c1921925b8208083e1540c30cba5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 41/62] fix: resolving a uol locks its node once at a time

---
 src/util/node_util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index f781aa7..da65bfd 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -92,12 +92,14 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
         return;
     };
 
-    if let Some(ref mut uol_target_path) = node
+    // the node is read again below, don't hold it
+    let uol_target_path = node
         .read()
         .unwrap()
         .try_as_uol()
-        .and_then(|s| s.get_string().ok())
-    {
+        .and_then(|s| s.get_string().ok());
+
+    if let Some(uol_target_path) = uol_target_path {
         let mut pathes = uol_target_path.split('/');
 
         let first = if let Ok(node) = node.try_read() {
-- 
2.43.0


From 1797a81819df95c86cad3d552d42d0c1d9491418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 42/62] fix: nothing is locked while going down to the target
 of a link or of a path

---
 src/property/png.rs   | 21 +++++++++++----------
 src/util/node_util.rs | 37 +++++++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index a684809..f60bcfc 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -79,16 +79,17 @@ pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
 /// Get the node that `_inlink` or `_outlink` of a canvas leads to
 fn resolve_link(node: &WzNodeArc) -> Result<Option<WzNodeArc>, WzPngParseError> {
     let get_link = |name: &str| -> Result<Option<String>, WzPngParseError> {
-        let node_read = node.read().unwrap();
-        if !matches!(
-            node_read.object_type,
-            WzObjectType::Property(WzSubProperty::PNG(_))
-        ) {
-            return Err(WzPngParseError::NotPngProperty);
-        }
-        Ok(node_read
-            .at(name)
-            .and_then(|node| resolve_string_from_node(&node).ok()))
+        let link = {
+            let node_read = node.read().unwrap();
+            if !matches!(
+                node_read.object_type,
+                WzObjectType::Property(WzSubProperty::PNG(_))
+            ) {
+                return Err(WzPngParseError::NotPngProperty);
+            }
+            node_read.at(name)
+        };
+        Ok(link.and_then(|link| resolve_string_from_node(&link).ok()))
     };
 
     let inlink_target = get_link("_inlink")?.and_then(|link| node_util::resolve_inlink(&link, node));
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index da65bfd..bdc40b6 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -7,15 +7,17 @@ pub fn parse_node(node: &WzNodeArc) -> Result<(), Error> {
     node.write().unwrap().parse(node)
 }
 
+/// Go down from a node without holding it, whoever locks a node below may be waiting for it.
+fn get_node_below(node: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
+    path.split('/')
+        .try_fold(Arc::clone(node), |node, name| node.read().unwrap().at(name))
+}
+
 #[inline]
 /// Resolve a `_inlink` path, a `_inlink` path always start from a `WzImage`.
 pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
     let parent_wz_image = node.read().unwrap().get_parent_wz_image()?;
-    let mut pathes = path.split('/');
-
-    // don't hold the image while going down, whoever locks a node below may be waiting for it
-    let first = parent_wz_image.read().unwrap().at(pathes.next()?);
-    first.and_then(|first| pathes.try_fold(first, |node, name| node.read().unwrap().at(name)))
+    get_node_below(&parent_wz_image, path)
 }
 
 #[inline]
@@ -34,7 +36,7 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
             write.at(name)
         })
     } else {
-        parent_wz_base.read().unwrap().at_path(path)
+        get_node_below(&parent_wz_base, path)
     }
 }
 
@@ -180,13 +182,24 @@ pub fn get_image_node_from_path<'a>(
 /// get a certain node without parsing all node in the way
 pub fn get_node_without_parse(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
     let (image_node, rest_path) = get_image_node_from_path(root, path)?;
-    let image_read = image_node.read().unwrap();
-    let image = image_read.try_as_image()?;
+    let (name, rest) = match rest_path.split_once('/') {
+        Some((name, rest)) => (name, Some(rest)),
+        None => (rest_path, None),
+    };
 
-    if image.is_parsed {
-        image_read.at_path(rest_path)
-    } else {
-        image.at_path(rest_path).ok()
+    let first = {
+        let image_read = image_node.read().unwrap();
+        let image = image_read.try_as_image()?;
+
+        if !image.is_parsed {
+            return image.at_path(rest_path).ok();
+        }
+        image_read.at(name)?
+    };
+
+    match rest {
+        Some(rest) => get_node_below(&first, rest),
+        None => Some(first),
     }
 }
 
-- 
2.43.0


From 032cff75ccf8d6d9d633252cd68dada0bcf9d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 43/62] fix: keys and hash of ms packs wrap around, salts may
 be 128 characters or longer

---
 src/ms/file.rs   |  5 +++--
 src/ms/header.rs | 21 ++++++++++++---------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..b850c32 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -85,7 +85,7 @@ impl MsFile {
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -161,7 +161,8 @@ impl MsFile {
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i]
+                ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..9ad4499 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -66,12 +66,12 @@ impl MsHeader {
         let hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         // plus 1 and skip 3 bytes
         offset += 4;
-        let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
+        let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        let salt_byte_len = salt_len * 2;
         let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let byte = rand_bytes[i];
                 let byte2 = salt_bytes[i * 2];
@@ -84,7 +84,7 @@ impl MsHeader {
 
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
@@ -111,7 +111,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
@@ -162,14 +165,14 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
-        let salt_byte_len = (salt_len * 2) as usize;
+        let salt_byte_len = salt_len * 2;
         let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
+                let b = ((a | 0x4B) << 1).wrapping_sub(a).wrapping_sub(75);
                 b as char
             })
             .collect::<String>();
@@ -181,7 +184,7 @@ impl MsHeader {
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
-- 
2.43.0


From 37691183533145a957742f471cae69ab88a499f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 44/62] fix: ms packs too short for their header are an error
 instead of a panic

---
 src/ms/header.rs | 20 ++++++++++++++------
 src/ms/utils.rs  |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ms/header.rs b/src/ms/header.rs
index 9ad4499..7b72029 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -23,6 +23,8 @@ pub enum Error {
     UnsupportedSnowVersion(u8),
     #[error("Unsupported chacha20 version, expected 4 but got {0}")]
     UnsupportedChacha20Version(u8),
+    #[error("Invalid salt, {0} characters")]
+    InvalidSalt(usize),
     #[error("Hash mismatch, expected {0} but got {1}")]
     HashMismatch(i32, i32),
 }
@@ -58,7 +60,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -67,8 +69,11 @@ impl MsHeader {
         // plus 1 and skip 3 bytes
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        if salt_len > rand_bytes.len() {
+            return Err(Error::InvalidSalt(salt_len));
+        }
         let salt_byte_len = salt_len * 2;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len)
@@ -90,7 +95,7 @@ impl MsHeader {
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -146,7 +151,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -165,8 +170,11 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        if salt_len > rand_bytes.len() {
+            return Err(Error::InvalidSalt(salt_len));
+        }
         let salt_byte_len = salt_len * 2;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len)
@@ -190,7 +198,7 @@ impl MsHeader {
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..offset + 64)?,
             &chacha20_key,
             &empty_nonce,
         );
diff --git a/src/ms/utils.rs b/src/ms/utils.rs
index b3e2df2..d32ee65 100644
--- a/src/ms/utils.rs
+++ b/src/ms/utils.rs
@@ -9,5 +9,5 @@ pub fn get_ascii_file_name<P>(file_name: P)-> String
 where
   P: AsRef<std::path::Path>,
 {
-  file_name.as_ref().file_name().unwrap().to_str().unwrap().to_ascii_lowercase()
+  file_name.as_ref().file_name().unwrap().to_string_lossy().to_ascii_lowercase()
 }
-- 
2.43.0


From 9611f936e2c442cc28d60e6d357a14c7e45bebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 45/62] fix: entry tables of ms packs that reach past the file
 are an error instead of a panic

---
 src/ms/chacha20_reader.rs | 27 +++++++++++++-------------
 src/ms/file.rs            | 41 +++++++++++++++++++++++++++++----------
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..2a5d1a4 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -39,15 +39,13 @@ impl<'a> ChaCha20Reader<'a> {
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +59,8 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        let mut buffer = vec![0_u8; len];
+        self.apply_keystream(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,18 +68,19 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
-        Ok(())
+        self.apply_keystream(dest_buffer)
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    pub fn apply_keystream(&mut self, data: &mut [u8]) -> Result<(), Error> {
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
             if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+                let end = self.offset.saturating_add(READER_CHUNK_SIZE);
+                let chunk = self
+                    .data
+                    .get(self.offset..end)
+                    .ok_or(Error::OutOfBounds(end, self.data.len()))?;
+                self.buffer.copy_from_slice(chunk);
                 self.decryptor.apply_keystream(&mut self.buffer);
                 self.offset += READER_CHUNK_SIZE;
                 self.buffer_offset = 0;
@@ -100,5 +99,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/file.rs b/src/ms/file.rs
index b850c32..2d4a4cf 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -13,6 +13,9 @@ use super::snow2_reader::{Snow2Reader, MS_SNOW2_KEY_SIZE};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+/// size of an entry without a name
+const MIN_ENTRY_SIZE: usize = 48;
+
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error(transparent)]
@@ -77,6 +80,22 @@ impl MsFile {
         }
     }
 
+    /// how many entries there are, all of them have to fit into the file
+    fn entry_count(&self) -> Result<usize, Error> {
+        usize::try_from(self.header.entry_count)
+            .ok()
+            .filter(|count| *count <= self.block_size / MIN_ENTRY_SIZE)
+            .ok_or(Error::InvalidMsFile)
+    }
+
+    /// length of an entry's name, it has to fit into the file
+    fn entry_name_len(&self, len: i32) -> Result<usize, Error> {
+        usize::try_from(len)
+            .ok()
+            .filter(|len| *len <= self.block_size / 2)
+            .ok_or(Error::InvalidMsFile)
+    }
+
     fn parse_v1(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
         // decrypt with another snow key
         let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
@@ -93,11 +112,12 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let entry_count = self.entry_count()?;
+        let mut ms_images = Vec::with_capacity(entry_count);
 
-        for _ in 0..self.header.entry_count {
-            let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+        for _ in 0..entry_count {
+            let entry_name_len = self.entry_name_len(snow_reader.read_i32()?)?;
+            let entry_name = snow_reader.read_utf16_string(entry_name_len * 2)?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -135,7 +155,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.saturating_add(image.offset.saturating_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -173,11 +193,12 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let entry_count = self.entry_count()?;
+        let mut ms_images = Vec::<MsImage>::with_capacity(entry_count);
 
-        for _ in 0..self.header.entry_count {
-            let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+        for _ in 0..entry_count {
+            let entry_name_len = self.entry_name_len(chacha20_reader.read_i32()?)?;
+            let entry_name = chacha20_reader.read_utf16_string(entry_name_len * 2)?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
@@ -218,7 +239,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.saturating_add(image.offset.saturating_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
-- 
2.43.0


From 61135cef1246df19a61e7e686dad8f4a29aa9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 46/62] fix: images of ms packs with a name that is not ascii

---
 src/ms/ms_image.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..7c098eb 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -129,13 +129,9 @@ impl MsImage {
 
         // key
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
+        let name_len = self.meta.entry_name.chars().count();
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = self.meta.entry_name.chars().nth(i % name_len).unwrap() as u8;
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
-- 
2.43.0


From 6c74c0628b8ba2b3e1f3d2af18cedfe223d9dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 47/62] fix: images of ms packs that reach past the file are an
 error when parsed instead of a panic

---
 src/ms/ms_image.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 7c098eb..1f547bb 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -59,6 +59,14 @@ impl MsImage {
         }
     }
 
+    /// the bytes of the image that are inside the file
+    fn encrypted_bytes(&self) -> &[u8] {
+        let data = self.reader.map.as_ref();
+        let start = cmp::min(self.offset, data.len());
+        let end = cmp::min(start.saturating_add(self.block_size), data.len());
+        &data[start..end]
+    }
+
     fn to_wz_image_v1(&self) -> WzImage {
         // calc snow key for entry
         let mut key_hash = 0x811C9DC5;
@@ -74,7 +82,7 @@ impl MsImage {
         let bytes = self.meta.entry_name.as_bytes();
 
         for i in 0..16 {
-            let char = bytes[i % bytes.len()];
+            let char = bytes.get(i % bytes.len().max(1)).copied().unwrap_or(0);
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
             let digit2 = (key_hash_digits[(i + 1) % key_hash_digits.len()] + i as u8) % 5;
             let ekey_idx = key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8;
@@ -86,10 +94,7 @@ impl MsImage {
                 .wrapping_add(char.wrapping_mul(digit.wrapping_add(ekey).wrapping_add(digit2)));
         }
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.encrypted_bytes().to_owned();
 
         // decrypt initial 1024 bytes twice
         {
@@ -103,13 +108,14 @@ impl MsImage {
         snow_decryptor.decrypt_slice(&mut image_buffer[..]);
 
         // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
+        let size = cmp::min(self.meta.size.max(0) as usize, image_buffer.len());
+        let image_reader = WzReader::from_buff(&image_buffer[..size]);
 
         WzImage {
             reader: Arc::new(image_reader),
             name: self.meta.entry_name.clone().into(),
             offset: 0,
-            block_size: self.meta.size as usize,
+            block_size: size,
             is_parsed: false,
         }
     }
@@ -131,7 +137,7 @@ impl MsImage {
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
         let name_len = self.meta.entry_name.chars().count();
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self.meta.entry_name.chars().nth(i % name_len).unwrap() as u8;
+            let char = self.meta.entry_name.chars().nth(i % name_len.max(1)).map_or(0, |c| c as u8);
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
@@ -164,10 +170,7 @@ impl MsImage {
         nonce[4..].copy_from_slice(&key_hash_data[0..8]);
         let counter = u32::from_le_bytes(key_hash_data[8..12].try_into().unwrap());
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.encrypted_bytes().to_owned();
 
         // only decrypt initial 1024 bytes
         {
@@ -181,13 +184,14 @@ impl MsImage {
         }
 
         // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
+        let size = cmp::min(self.meta.size.max(0) as usize, image_buffer.len());
+        let image_reader = WzReader::from_buff(&image_buffer[..size]);
 
         WzImage {
             reader: Arc::new(image_reader),
             name: self.meta.entry_name.clone().into(),
             offset: 0,
-            block_size: self.meta.size as usize,
+            block_size: size,
             is_parsed: false,
         }
     }
-- 
2.43.0


From e3f38f31a0b0fe353fc302c995ab75294d0def73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 48/62] fix: an ms pack can be unparsed

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index d9df509..ebc5f4a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -239,6 +239,9 @@ impl WzNode {
             WzObjectType::File(file) => {
                 file.is_parsed = false;
             }
+            WzObjectType::MsFile(file) => {
+                file.is_parsed = false;
+            }
             WzObjectType::Image(image) => {
                 image.is_parsed = false;
             }
-- 
2.43.0


From 52e28f0529797b86d22ec7c4fac1505461f35b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 49/62] fix: string lengths and positions that can't be are
 errors instead of overflows

---
 src/reader.rs | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4efbd01..568ba9b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -26,10 +26,17 @@ pub enum Error {
     UnableToReadWzHeader,
     #[error("Out of bounds, expected end to be less than {0}, but got {1}")]
     OutOfBounds(usize, usize),
+    #[error("Invalid string length {0}")]
+    InvalidStringLength(i32),
 }
 
 type Result<T> = std::result::Result<T, Error>;
 
+#[inline]
+fn str_len(len: i32) -> Result<usize> {
+    usize::try_from(len).map_err(|_| Error::InvalidStringLength(len))
+}
+
 /// A basic reader for reading data, it store original data, and can't not
 /// read data without provide offset of the data.
 #[derive(Debug)]
@@ -98,7 +105,7 @@ pub trait Reader {
         }
     }
     fn resolve_unicode_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_decrypt_slice(offset..offset.saturating_add(length))?;
         let mut strvec = Vec::with_capacity(length / 2);
 
         for (i, chunk) in decrypted.chunks(2).enumerate() {
@@ -109,7 +116,7 @@ pub trait Reader {
         Ok(strvec)
     }
     fn resolve_ascii_raw(&self, offset: usize, length: usize) -> Result<Vec<u8>> {
-        let mut decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let mut decrypted = self.get_decrypt_slice(offset..offset.saturating_add(length))?;
 
         decrypted.iter_mut().enumerate().for_each(|(i, byte)| {
             *byte = resolve_ascii_char(*byte, i as i32);
@@ -118,7 +125,7 @@ pub trait Reader {
         Ok(decrypted)
     }
     fn resolve_pkg2_dir_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_pkg2_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_pkg2_decrypt_slice(offset..offset.saturating_add(length))?;
 
         Ok(decrypted
             .chunks(2)
@@ -340,7 +347,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn available(&self) -> usize {
-        self.get_size() - self.pos.get()
+        self.get_size().saturating_sub(self.pos.get())
     }
     #[inline]
     pub fn seek(&self, pos: usize) {
@@ -348,7 +355,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn skip(&self, len: usize) {
-        self.pos.set(self.pos.get() + len);
+        self.pos.set(self.pos.get().saturating_add(len));
     }
     #[inline]
     pub fn save_pos(&self) {
@@ -362,70 +369,70 @@ impl<'a> WzSliceReader<'a> {
     pub fn read_u8(&self) -> Result<u8> {
         let pos = self.pos.get();
         let res = self.read_u8_at(pos);
-        self.pos.set(pos + 1);
+        self.skip(1);
         res
     }
     #[inline]
     pub fn read_u16(&self) -> Result<u16> {
         let pos = self.pos.get();
         let res = self.read_u16_at(pos);
-        self.pos.set(pos + 2);
+        self.skip(2);
         res
     }
     #[inline]
     pub fn read_u32(&self) -> Result<u32> {
         let pos = self.pos.get();
         let res = self.read_u32_at(pos);
-        self.pos.set(pos + 4);
+        self.skip(4);
         res
     }
     #[inline]
     pub fn read_u64(&self) -> Result<u64> {
         let pos = self.pos.get();
         let res = self.read_u64_at(pos);
-        self.pos.set(pos + 8);
+        self.skip(8);
         res
     }
     #[inline]
     pub fn read_i8(&self) -> Result<i8> {
         let pos = self.pos.get();
         let res = self.read_i8_at(pos);
-        self.pos.set(pos + 1);
+        self.skip(1);
         res
     }
     #[inline]
     pub fn read_i16(&self) -> Result<i16> {
         let pos = self.pos.get();
         let res = self.read_i16_at(pos);
-        self.pos.set(pos + 2);
+        self.skip(2);
         res
     }
     #[inline]
     pub fn read_i32(&self) -> Result<i32> {
         let pos = self.pos.get();
         let res = self.read_i32_at(pos);
-        self.pos.set(pos + 4);
+        self.skip(4);
         res
     }
     #[inline]
     pub fn read_i64(&self) -> Result<i64> {
         let pos = self.pos.get();
         let res = self.read_i64_at(pos);
-        self.pos.set(pos + 8);
+        self.skip(8);
         res
     }
     #[inline]
     pub fn read_float(&self) -> Result<f32> {
         let pos = self.pos.get();
         let res = self.read_float_at(pos);
-        self.pos.set(pos + 4);
+        self.skip(4);
         res
     }
     #[inline]
     pub fn read_double(&self) -> Result<f64> {
         let pos = self.pos.get();
         let res = self.read_double_at(pos);
-        self.pos.set(pos + 8);
+        self.skip(8);
         res
     }
     #[inline]
@@ -451,7 +458,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = str_len(len)?.saturating_mul(2);
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -461,7 +468,7 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = str_len(self.read_ascii_str_len(sl)?)?;
         if len == 0 {
             return Ok(String::new());
         }
@@ -491,7 +498,7 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = str_len(self.read_i32()?)? as u32 * 2;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -505,8 +512,8 @@ impl<'a> WzSliceReader<'a> {
             }
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
-                    let length = self.read_i32()?;
-                    let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
+                    let length = str_len(self.read_i32()?)? as u32;
+                    let meta = WzStringMeta::new_ascii(self.pos.get(), length);
                     self.skip(length as usize);
                     Ok(meta)
                 } else {
@@ -591,7 +598,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(String::new()),
         }
@@ -604,7 +611,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(wz_img_offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(WzStringMeta::empty()),
         }
-- 
2.43.0


From 515373e40af2e91982039c8ed06af2e8ff6828c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 50/62] fix: pkg2 version keys that rotate by nothing are
 enumerated

---
 src/util/version/pkg2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..e7bf003 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -410,7 +410,8 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            // without a rotation the bit in question is the current one
+            let known_v_bit = ((v_hash | (v_bit << bit_idx)) >> future_v_idx) & 1;
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From 0f853b31a2a60e44578454f7c8766073349797ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 51/62] fix: the last pkg2 version key is tried too

---
 src/util/version/pkg2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index e7bf003..10df21d 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -437,12 +437,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From ad9873b35ff643c273d0d2ca4e34b63ad74bd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 52/62] fix: a pkg2 version generator without results doesn't
 hide the ones after it

---
 src/util/version/pkg2.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 10df21d..a734086 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -349,25 +349,17 @@ impl Iterator for VersionGen {
     type Item = u32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // use the current iterator if it exists
-        if let Some(current_iter) = self.current_iter.as_mut() {
-            if let Some(result) = current_iter.next() {
-                return Some(result);
-            } else {
-                self.current_iter = None;
+        loop {
+            // use the current iterator if it exists
+            if let Some(current_iter) = self.current_iter.as_mut() {
+                if let Some(result) = current_iter.next() {
+                    return Some(result);
+                }
             }
-        }
 
-        // try using the next generator
-        if self.current_iter.is_none() {
-            if let Some(generator) = self.generators.pop() {
-                self.current_iter = Some(generator.get_iter());
-                return self.current_iter.as_mut().unwrap().next();
-            }
+            // try using the next generator, or end when there are no more
+            self.current_iter = Some(self.generators.pop()?.get_iter());
         }
-
-        // no more generators to try
-        None
     }
 }
 
-- 
2.43.0


From 6dd30b933bacca73a6763830c8a806cc9423610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 53/62] fix: 1198 archives use their own key when it can't be
 told from the first name

---
 src/file.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 4132886..00a520a 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -1,5 +1,9 @@
-use crate::util::string_decryptor::pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key};
+use crate::util::string_decryptor::{
+    pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key},
+    DecrypterType,
+};
 use crate::util::version::pkg1::WZ_VERSION_HEADER_64BIT_START;
+use crate::version::{get_key_by_maple_version, WzMapleVersion};
 use crate::{
     directory, reader, util, util::profile, util::string_decryptor, util::version::PKGVersion,
     wz_image, SharedWzStringDecryptor, WzDirectory, WzNodeArc, WzNodeArcVec, WzNodeCast,
@@ -373,10 +377,10 @@ impl WzFile {
     }
 
     fn update_keys(&self, profile: &profile::WzProfile, hash1: u64, target_hash: u64) {
-        let iv = if profile.should_be_pkg2_64() {
-            get_kmst1202_key(hash1, target_hash)
-        } else {
-            get_kmst1199_key(hash1 as u32, target_hash as u32) as u64
+        let iv = match profile.decryptor_type {
+            DecrypterType::KMST1198 => get_key_by_maple_version(WzMapleVersion::KMST1198) as u64,
+            DecrypterType::KMST1202 => get_kmst1202_key(hash1, target_hash),
+            _ => get_kmst1199_key(hash1 as u32, target_hash as u32) as u64,
         };
         self.reader
             .pkg2_keys
-- 
2.43.0


From 66efa3a854695ebdd82b9d6f0dccb449f8b077cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 54/62] fix: pkg2 archives with a short first name are not
 taken for ones of another key

---
 src/directory.rs                 | 10 ++++++++--
 src/util/string_decryptor/mod.rs | 12 +++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2cb77b1..e912d90 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -203,7 +203,7 @@ impl WzDirectory {
         Ok(entries)
     }
 
-    fn resolve_entry_pkg2(&self, reader: &WzSliceReader) -> Result<Vec<WzDirectoryEntry>, Error> {
+    fn resolve_entry_pkg2(reader: &WzSliceReader) -> Result<Vec<WzDirectoryEntry>, Error> {
         let encrypted_entry_count = reader.read_wz_int()?;
 
         let mut wz_dir_entries: Vec<WzDirectoryEntry> = vec![];
@@ -244,6 +244,12 @@ impl WzDirectory {
         Ok(wz_dir_entries)
     }
 
+    /// whether the entries of a pkg2 file are readable, the form of the first name depends on the keys
+    pub(crate) fn is_pkg2_readable(reader: &WzSliceReader) -> bool {
+        reader.seek(reader.header.data_start);
+        Self::resolve_entry_pkg2(reader).is_ok()
+    }
+
     fn resolve_entry_pkg2_v64(
         &self,
         reader: &WzSliceReader,
@@ -298,7 +304,7 @@ impl WzDirectory {
             if reader.header.is_pkg2_64() {
                 self.entries = self.resolve_entry_pkg2_v64(&reader)?;
             } else {
-                self.entries = self.resolve_entry_pkg2(&reader)?;
+                self.entries = Self::resolve_entry_pkg2(&reader)?;
             }
         } else {
             return Err(Error::UnknownPkgVersion);
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index d9471d5..f47407b 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -7,7 +7,10 @@ use crate::property::{WzStringMeta, WzStringType};
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
 use crate::util::version::PKGVersion;
 use crate::version::{get_iv_by_maple_version, get_key_by_maple_version, WzMapleVersion};
-use crate::{directory::WzDirectoryType, reader, Reader, WzSliceReader};
+use crate::{
+    directory::{WzDirectory, WzDirectoryType},
+    reader, Reader, WzSliceReader,
+};
 
 pub type SharedWzStringDecryptor = Arc<RwLock<dyn Decryptor>>;
 pub use ecb_decryptor::EcbDecryptor;
@@ -143,6 +146,13 @@ pub fn verify_decryptor_from_wz_file_with_meta(
         return Err(reader::Error::DecryptError(reader.pos.get()));
     }
 
+    // a short name can be ascii by accident, the pkg2_64 keys always depend on the hash
+    if reader.header.ident == PKGVersion::V2
+        && (reader.header.is_pkg2_64() || !WzDirectory::is_pkg2_readable(&reader))
+    {
+        return Err(reader::Error::DecryptError(reader.pos.get()));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From d3e270fc7758ecf054af5fb3242eaa31c3a0c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 55/62] fix: pkg2_64 directories are recognised by their
 decrypted entry count

---
 src/directory.rs   | 24 +++++++++++++++---------
 src/util/offset.rs |  2 +-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index e912d90..798e087 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -329,7 +329,7 @@ impl WzDirectory {
 
             entry.offset = offset_calculator(&reader.header, &meta)?;
 
-            if entry.verify(&reader).is_err() {
+            if entry.verify(&reader, self.hash, &self.profile).is_err() {
                 return Err(Error::InvalidWzVersion);
             }
         }
@@ -444,7 +444,12 @@ impl WzDirectoryEntry {
         Ok(entry)
     }
 
-    pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
+    pub fn verify(
+        &self,
+        reader: &WzSliceReader,
+        hash: u64,
+        profile: &WzProfile,
+    ) -> Result<(), Error> {
         let end = self.offset.checked_add(self.size);
         if !end.is_some_and(|end| reader.is_valid_pos(end)) {
             return Err(Error::InvalidWzVersion);
@@ -459,13 +464,14 @@ impl WzDirectoryEntry {
         } else if self.dir_type == WzDirectoryType::WzDirectory {
             reader.seek(self.offset);
 
-            let entry_count = if reader.header.is_pkg2_64() {
-                reader.read_wz_int64()?
-            } else {
-                reader.read_wz_int()? as i64
-            };
-
-            if entry_count < 0 {
+            if reader.header.is_pkg2_64() {
+                let encrypted_entry_count = reader.read_wz_int64()?;
+                profile.offset_version.get_entry_count_calculator()(
+                    &reader.header,
+                    hash,
+                    encrypted_entry_count,
+                )?;
+            } else if reader.read_wz_int()? < 0 {
                 return Err(Error::InvalidWzVersion);
             }
         }
diff --git a/src/util/offset.rs b/src/util/offset.rs
index 1a197e5..791114c 100644
--- a/src/util/offset.rs
+++ b/src/util/offset.rs
@@ -175,7 +175,7 @@ pub fn decrypt_pkg2_entry_count_64_v1(
 ) -> EntryCountResult<usize> {
     let dir_count =
         (encrypted_entry_count ^ header.hash1 as i64 ^ hash as i64 ^ 0x550EC4DD02C468EC) >> 16;
-    if dir_count > i32::MAX as i64 {
+    if !(0..=i32::MAX as i64).contains(&dir_count) {
         return Err(directory::Error::InvalidEntryCount);
     }
     Ok(dir_count as usize)
-- 
2.43.0


From a9a617b305c494e595c6d7295ffe26be4bd78ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 56/62] fix: a given pkg2 key is verified with the form of name
 it is for

---
 src/util/string_decryptor/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index f47407b..67cc0e3 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -160,7 +160,12 @@ pub fn verify_decryptor_from_wz_file(
     buf: &[u8],
     decryptor: &SharedWzStringDecryptor,
 ) -> Result<(), reader::Error> {
-    let meta = try_get_first_wz_name_meta(buf)?;
+    let is_pkg2 = decryptor.read().unwrap().is_pkg2();
+    let meta = if is_pkg2 {
+        try_get_first_wz_name_pkg2_meta_from_wz_file(buf)?
+    } else {
+        try_get_first_wz_name_meta(buf)?
+    };
     verify_decryptor_from_wz_file_with_meta(buf, decryptor, &meta)
 }
 
-- 
2.43.0


From 1732e38e63b301d7ca3e0435696af9b32cac4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 57/62] fix: a damaged canvas scale no longer overflows the
 picture format

---
 src/property/png.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index f60bcfc..a098d8b 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -191,7 +191,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
-- 
2.43.0


From a58bb9a20c6fc0672cc0e52ed48d74a6e4e3ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 58/62] fix: a convex with an unknown point keeps its own name

---
 src/util/parse_property.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 162a4b0..a3536b4 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -127,22 +127,29 @@ pub fn parse_property_node(
             let block_size = reader.read_u32()?;
             let next_pos = reader.pos.get() + block_size as usize;
 
-            let parse_result =
-                parse_extended_prop(parent, org_reader, reader, next_pos, origin_offset, name);
+            let parse_result = parse_extended_prop(
+                parent,
+                org_reader,
+                reader,
+                next_pos,
+                origin_offset,
+                name.clone(),
+            );
 
             let node = if let Ok(node) = parse_result {
                 node
             } else if let Err(WzPropertyParseError::UnknownExtendedPropertyType(
                 extend_type,
-                name,
+                unknown_name,
                 pos,
             )) = parse_result
             {
                 // specificly make the unknown extended property doesn't throw error
                 println!(
                     "Unknown extended property type: {}, name: {}, at position: {}",
-                    extend_type, name, pos
+                    extend_type, unknown_name, pos
                 );
+                // the unknown one may be a point of a convex, the property is still itself
                 let node =
                     WzNode::new(&name, WzObjectType::Value(WzValue::Null), parent).into_lock();
                 (name, node, None)
-- 
2.43.0


From f28656a4418a5bace994e1d05a8b309720c37112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 59/62] fix: a damaged name offset in an archive no longer
 overflows or hides its entry

---
 src/directory.rs                 | 16 ++++++++++++++--
 src/util/string_decryptor/mod.rs |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 798e087..c7af566 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -376,9 +376,21 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = usize::try_from(str_offset)
+                    .map(|str_offset| reader.header.fstart + str_offset)
+                    .map_err(|_| Error::InvalidWzVersion)?;
+
+                let dir_byte = reader.read_u8_at(offset)?;
+                entry.dir_type = dir_byte.into();
+
+                // only a directory or image has its name stored somewhere else
+                if !matches!(
+                    entry.dir_type,
+                    WzDirectoryType::WzDirectory | WzDirectoryType::WzImage
+                ) {
+                    return Err(Error::UnknownWzDirectoryType(dir_byte, offset));
+                }
 
-                entry.dir_type = reader.read_u8_at(offset)?.into();
                 entry.name = reader.read_wz_string_meta_at(offset + 1)?;
             }
             WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => {
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 67cc0e3..2c4ae13 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -90,7 +90,9 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
+            let offset = usize::try_from(str_offset)
+                .map(|str_offset| reader.header.fstart + str_offset)
+                .map_err(|_| reader::Error::DecryptError(reader.pos.get()))?;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
-- 
2.43.0


From a67a9abf7ef988812bdca7fa861455b1c4d1d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 60/62] fix: a path without a utf-8 file name no longer panics

---
 src/file.rs |  2 +-
 src/node.rs | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 00a520a..e5ed60c 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -117,7 +117,7 @@ impl WzFile {
         let offset = reader.header.data_start;
 
         let wz_file_meta = WzFileMeta {
-            path: path.as_ref().to_str().unwrap().to_string(),
+            path: path.as_ref().to_string_lossy().into_owned(),
             patch_version: patch_version.unwrap_or(-1),
             wz_version_header: 0,
             wz_with_encrypt_version_header: true,
diff --git a/src/node.rs b/src/node.rs
index ebc5f4a..3c48543 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -98,14 +98,18 @@ impl WzNode {
     where
         P: AsRef<Path>,
     {
-        let name = path.as_ref().file_stem().unwrap().to_str().unwrap();
+        let name = path
+            .as_ref()
+            .file_stem()
+            .unwrap_or_default()
+            .to_string_lossy();
         let wz_file = WzFile::from_file(
             &path,
             version.map(util::version::get_iv_by_maple_version),
             patch_version,
             existing_key,
         )?;
-        Ok(WzNode::new(&name.into(), wz_file, parent))
+        Ok(WzNode::new(&name.as_ref().into(), wz_file, parent))
     }
     /// from_wz_file_full with less argements.
     ///
@@ -126,9 +130,13 @@ impl WzNode {
     where
         P: AsRef<Path>,
     {
-        let name = path.as_ref().file_stem().unwrap().to_str().unwrap();
+        let name = path
+            .as_ref()
+            .file_stem()
+            .unwrap_or_default()
+            .to_string_lossy();
         let ms_file = MsFile::from_file(&path)?;
-        Ok(WzNode::new(&name.into(), ms_file, parent))
+        Ok(WzNode::new(&name.as_ref().into(), ms_file, parent))
     }
 
     /// Create a `WzNode` from a any `.img` file. If version is not provided, it will try to detect the version.
-- 
2.43.0


From 3940a7005d9e61e77436b2e224d9c42c04e88557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 61/62] fix: follow links to parts and folders when a data
 folder is resolved

---
 src/util/resolver.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 95aab94..15c1baa 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -98,20 +98,20 @@ pub fn resolve_root_wz_file_dir_full(
 
         // the parts come first, they can list more folders
         for entry in entries.iter() {
-            let file_type = entry.file_type()?;
+            let file_path = entry.path();
             let name = entry.file_name();
             // what has no readable name can't be listed
             let Some(name) = name.to_str() else {
                 continue;
             };
 
-            if file_type.is_file() {
+            // a part can also be a link to the file
+            if file_path.is_file() {
                 // only the parts of this very archive, others can be in the same folder
                 if !is_part_of(name, &archive_name) {
                     continue;
                 }
 
-                let file_path = entry.path();
                 let node = WzNode::from_wz_file_full(
                     &file_path,
                     version,
@@ -136,7 +136,7 @@ pub fn resolve_root_wz_file_dir_full(
                 continue;
             };
 
-            if entry.file_type()?.is_dir() && root_node_write.at(name).is_some() {
+            if entry.path().is_dir() && root_node_write.at(name).is_some() {
                 if let Some(file_path) = get_root_wz_file_path(entry) {
                     let dir_node = resolve_root_wz_file_dir_full(
                         &file_path,
@@ -215,7 +215,7 @@ pub fn resolve_base(
             let has_dir = base_write.at(file_name).is_some();
 
             if has_dir && is_valid {
-                let wz_path = if dir.file_type()?.is_dir() {
+                let wz_path = if path.is_dir() {
                     get_root_wz_file_path(&dir)
                 } else {
                     path.to_str().map(String::from)
-- 
2.43.0


From 82fb9d14e962d505efcef2a91291e2c47ce3aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 62/62] fix: stated versions of seven digits and more no longer
 overflow the version hash

---
 src/util/version/pkg1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 9d35f4e..34cc0ce 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -24,7 +24,7 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash.wrapping_mul(32).wrapping_add(char_code + 1);
         }
         version_hash
     }
-- 
2.43.0

