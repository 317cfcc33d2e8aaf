From 545ffcd25aa0a72fc237221773ae79dafffcade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 01/38] fix: script decoding prefers the key of the file and
 accepts a char cut at the guess window

---
 src/property/lua.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index 6fa3ed9..c570724 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -61,7 +61,11 @@ impl WzLua {
         let len = std::cmp::min(64, self.length);
         let test_data = self.reader.get_slice(self.offset..self.offset + len);
 
-        let ivs = [WZ_MSEAIV, WZ_GMSIV, [0, 0, 0, 0]];
+        let mut ivs = [WZ_MSEAIV, WZ_GMSIV, [0, 0, 0, 0]];
+
+        // short data is likely valid under several ivs, so the one used by the file goes first
+        let reader_iv = self.reader.keys.read().unwrap().get_iv_hash();
+        ivs.sort_by_key(|iv| u64::from(u32::from_le_bytes(*iv)) != reader_iv);
 
         for iv in ivs {
             let mut decoded = test_data.to_vec();
@@ -75,8 +79,11 @@ impl WzLua {
                 write.decrypt_slice(&mut decoded);
             }
 
-            if String::from_utf8(decoded).is_ok() {
-                return Some(keys);
+            match std::str::from_utf8(&decoded) {
+                Ok(_) => return Some(keys),
+                // the test data just ends in the middle of a char
+                Err(e) if e.error_len().is_none() && len < self.length => return Some(keys),
+                Err(_) => {}
             }
         }
 
-- 
2.43.0


From 53ec6203ed8fbeb4bee3c069d255ecff2a7e0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 02/38] fix: lookup in an unparsed image agrees with the parsed
 tree

Absent names in the middle of a path were searched in the bytes that follow,
children of canvas, convex and raw data were read as a property list, and
text images could not be looked up at all.
---
 src/util/parse_property.rs | 59 ++++++++++++++++++++++++--------------
 src/wz_image.rs            | 29 +++++++++++++------
 2 files changed, 58 insertions(+), 30 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..61c8af3 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -416,18 +416,34 @@ pub fn get_node(
         return Err(WzPropertyParseError::NodeNotFound);
     }
 
-    let mut pathes = path.split('/');
-    let mut current_path = pathes.next();
+    let split_path = |path: &'_ str| match path.split_once('/') {
+        Some((name, rest)) => (name.to_string(), Some(rest.to_string())),
+        None => (path.to_string(), None),
+    };
+    let (mut current_name, mut rest_path) = split_path(path);
 
-    while let Some(current_name) = current_path {
+    loop {
         let entry_count = reader.read_wz_int()?;
-        let next_path = pathes.next();
+        let mut found = false;
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
 
-            if name == current_name && next_path.is_none() {
-                let result = parse_property_node(
+            if name == current_name {
+                if let (9, Some(rest)) = (property_type, &rest_path) {
+                    let property_pos = reader.pos.get();
+                    // skip block size
+                    reader.skip(4);
+                    if reader.read_wz_string_block(origin_offset)? == "Property" {
+                        reader.skip(2);
+                        (current_name, rest_path) = split_path(rest);
+                        found = true;
+                        break;
+                    }
+                    reader.seek(property_pos);
+                }
+
+                let (name, node, _) = parse_property_node(
                     name.into(),
                     property_type,
                     None,
@@ -435,7 +451,17 @@ pub fn get_node(
                     reader,
                     origin_offset,
                 )?;
-                return Ok((result.0, result.1));
+
+                return match rest_path {
+                    None => Ok((name, node)),
+                    // other kinds of container don't start with their children, so find in parsed one
+                    Some(rest) => {
+                        let target = node.read().unwrap().at_path(&rest);
+                        let target = target.ok_or(WzPropertyParseError::NodeNotFound)?;
+                        let name = target.read().unwrap().name.clone();
+                        Ok((name, target))
+                    }
+                };
             }
 
             match property_type {
@@ -473,17 +499,8 @@ pub fn get_node(
                     }
                 }
                 9 => {
-                    if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
-                        reader.skip(2);
-                        break;
-                    } else {
-                        let block_size = reader.read_u32()?;
-                        reader.skip(block_size as usize);
-                    }
+                    let block_size = reader.read_u32()?;
+                    reader.skip(block_size as usize);
                 }
                 _ => {
                     return Err(WzPropertyParseError::UnknownPropertyType(
@@ -495,10 +512,8 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
-            break;
+        if !found {
+            return Err(WzPropertyParseError::NodeNotFound);
         }
     }
-
-    Err(WzPropertyParseError::NodeNotFound)
 }
diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..e4d89db 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -124,14 +124,27 @@ impl WzImage {
         reader.seek(self.offset);
         let header_byte = reader.read_u8()?;
 
-        if header_byte != WzImageHeaderType::WithoutOffset as u8 {
-            return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
-        } else {
-            let name = reader.read_wz_string()?;
-            let value = reader.read_u16()?;
-            if name != "Property" && value != 0 {
-                return Err(Error::ParseError(reader.pos.get()));
-            }
+        // image that only contains text has a single child, it's cheap to resolve
+        if self.name.ends_with(".txt") || header_byte != WzImageHeaderType::WithoutOffset as u8 {
+            let (name, rest) = match path.split_once('/') {
+                Some((name, rest)) => (name, Some(rest)),
+                None => (path, None),
+            };
+            let (children, _) = self.resolve_children(None)?;
+            return children
+                .into_iter()
+                .find(|(child_name, _)| child_name.as_str() == name)
+                .and_then(|(_, child)| match rest {
+                    Some(rest) => child.read().unwrap().at_path(rest),
+                    None => Some(child),
+                })
+                .ok_or_else(|| util::WzPropertyParseError::NodeNotFound.into());
+        }
+
+        let name = reader.read_wz_string()?;
+        let value = reader.read_u16()?;
+        if name != "Property" && value != 0 {
+            return Err(Error::ParseError(reader.pos.get()));
         }
 
         let result = util::get_node(path, &self.reader, &reader, self.offset);
-- 
2.43.0


From 92f0ddb53cc9a4bf3e7e011344f0a7eb81c40cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 03/38] fix: get_image_node_from_path walks the path by node
 instead of by the first .img

---
 src/util/node_util.rs | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..80ae3e9 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -114,29 +114,15 @@ pub fn get_image_node_from_path<'a>(
         return None;
     }
 
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = node.read().unwrap().at_path(img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
-    let mut slash_index = 0;
-    for split_path in path.split('/') {
-        let target = node.read().unwrap().at(split_path);
-        if let Some(target) = target {
-            node = target;
-            slash_index += split_path.len() + 1;
-            if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
-                return Some((node, rest));
-            }
-        } else {
-            return None;
+    let mut rest_path = path;
+
+    while let Some((name, rest)) = rest_path.split_once('/') {
+        let target = node.read().unwrap().at(name)?;
+        node = target;
+        rest_path = rest;
+        if node.read().unwrap().try_as_image().is_some() {
+            return Some((node, rest_path));
         }
     }
     None
-- 
2.43.0


From 6afd208b36568114d2b96fe09eac14f4074e6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 04/38] fix: WzString length of text outside the basic plane

---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From efbc57d1c4b7b31452443ac93f05040afc271c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 05/38] fix: pkg2 names of 128 and 32768 chars overflow their
 length

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..84c275b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -522,7 +522,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = -i32::from(len) as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +534,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = -i32::from(len) as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +559,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = -i32::from(len) as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
-- 
2.43.0


From 4bb82ec7bb17afee07fb331485d94b9cc563f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 06/38] fix: EcbDecryptor keeps no stale keys on set_iv and has
 a key byte for iv 0

---
 src/util/string_decryptor/ecb_decryptor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..98dbf2a 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        self.without_decrypt = i32::from_le_bytes(self.iv) == 0;
+        // keys of previous iv is no longer valid
+        self.keys.clear();
     }
 
     fn get_iv_hash(&self) -> u64 {
@@ -83,6 +86,9 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From 6f1c991457a1696921a742f4ea3e9796c02506c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 07/38] fix: a null object reads back from json as null, nan
 and infinity can be exported

---
 src/property/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..a2db632 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -49,7 +49,6 @@ pub enum WzSubProperty {
     Convex,
     Sound(Box<WzSound>),
     PNG(Box<WzPng>),
-    #[cfg_attr(feature = "serde", serde(other))]
     Property,
 }
 
@@ -92,8 +91,11 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            // json has no way to present nan and infinity
+            WzValue::Float(value) => {
+                Number::from_f64(value.into()).map_or(Value::Null, Value::Number)
+            }
+            WzValue::Double(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From 618f8bfa8982180be88786702fe327a8079d0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 08/38] fix: WzFileMeta keeps its documented json form

---
 src/file.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.rs b/src/file.rs
index 3f41763..0d09800 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -51,6 +51,7 @@ pub struct WzFileMeta {
     /// the hash use to calculate img offset
     pub hash: usize,
     /// whether the string decryptor is verified
+    #[cfg_attr(feature = "serde", serde(skip))]
     pub string_decryptor_verified: bool,
 }
 
-- 
2.43.0


From 7d35a8a0cd3598ba091704b519e3b580f1c9fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 09/38] fix: an unparsed directory can be parsed again, a pack
 can be unparsed

---
 src/directory.rs | 2 ++
 src/node.rs      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..5dd2eb4 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -137,6 +137,8 @@ impl WzDirectory {
                 dir.hash = self.hash;
                 let children = dir.resolve_children(node)?;
 
+                dir.is_parsed = true;
+
                 for (name, child) in children {
                     write.children.insert(name, child);
                 }
diff --git a/src/node.rs b/src/node.rs
index 680878a..ebc5f4a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,10 +234,14 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
             }
+            WzObjectType::MsFile(file) => {
+                file.is_parsed = false;
+            }
             WzObjectType::Image(image) => {
                 image.is_parsed = false;
             }
-- 
2.43.0


From e63f20ea24eb47eb8c40aaa95eff7dd9cd7a3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 10/38] fix: walk_node holds no lock while the visitor runs

---
 src/util/walk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/walk.rs b/src/util/walk.rs
index 6b2fc17..793b907 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -11,7 +11,10 @@ pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
 
     f(node);
 
-    for child in node.read().unwrap().children.values() {
+    // don't hold the lock of this node while visiting the others
+    let children: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
+
+    for child in children.iter() {
         walk_node(child, force_parse, f);
     }
 
-- 
2.43.0


From 5dff98a074fdd5dd0e32bc7c581d04f6f50b663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 11/38] fix: at_path_parsed and resolve_outlink lock for write
 only what they parse

---
 src/node.rs           | 4 ++++
 src/util/node_util.rs | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index ebc5f4a..3ef84a1 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -441,6 +441,10 @@ impl WzNode {
         let first = self.at(pathes.next().unwrap());
         if let Some(first) = first {
             pathes.try_fold(first, |node, name| {
+                // node might be using by others, so only take the write lock when need to parse
+                if let Some(child) = node.read().unwrap().at(name) {
+                    return Ok(child);
+                }
                 let mut write = node.write().unwrap();
                 write.parse(&node)?;
                 write.at(name).ok_or(Error::NodeNotFound)
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 80ae3e9..23b7dc3 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -21,7 +21,7 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
     let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
 
     if force_parse {
-        parent_wz_base.write().unwrap().at_path_parsed(path).ok()
+        parent_wz_base.read().unwrap().at_path_parsed(path).ok()
     } else {
         parent_wz_base.read().unwrap().at_path(path)
     }
-- 
2.43.0


From a108ca4bf86cecc67587ec296b5a06603566d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 12/38] fix: get_resolved_uol_path resolves '.' as documented

---
 src/util/node_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 23b7dc3..5845e92 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -45,7 +45,7 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     for p in uol_path.split('/') {
         if p == ".." && !pathes.is_empty() {
             pathes.pop();
-        } else {
+        } else if p != "." {
             pathes.push(p);
         }
     }
-- 
2.43.0


From 773dfd09ccbd84f7b5b886f43409dc2658b25f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 13/38] fix: resolve_uol never makes a tree contain itself,
 follows '..' out of the parsing image and ignores orphan nodes

---
 src/util/node_util.rs | 122 +++++++++++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 43 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 5845e92..716e73d 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -55,54 +55,90 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let node_parent = node.read().unwrap().parent.upgrade().unwrap();
-
-    if let Some(ref mut uol_target_path) = node
-        .read()
-        .unwrap()
-        .try_as_uol()
-        .and_then(|s| s.get_string().ok())
-    {
-        let mut pathes = uol_target_path.split('/');
-
-        let first = if let Ok(node) = node.try_read() {
-            node.at_relative("..")
-        } else if let Some(image_node) = &wz_image {
-            image_node.at(pathes.next().unwrap())
-        } else {
-            None
-        };
+    let (node_name, node_parent, uol_target_path) = {
+        let read = node.read().unwrap();
+        let uol_path = read.try_as_uol().and_then(|s| s.get_string().ok());
+        match (read.parent.upgrade(), uol_path) {
+            (Some(parent), Some(path)) => (read.name.clone(), parent, path),
+            _ => return,
+        }
+    };
 
-        let uol_target = if let Some(first) = first {
-            pathes.try_fold(first, |node, name| {
-                /* usually happen on parsing process, the WzImage is taking self a write lock
-                so just directly using wz_image here */
-                if let Ok(node) = node.try_read() {
-                    return node.at_relative(name);
-                } else if let Some(image_node) = &wz_image {
-                    return image_node.at(name);
-                }
-                None
-            })
-        } else {
-            None
-        };
+    /* usually happen on parsing process, the WzImage is taking self a write lock
+    so just directly using wz_image for it */
+    let locked_image = wz_image
+        .as_ref()
+        .and_then(|_| get_locked_parent(&node_parent));
+    let is_wz_image = |node: &WzNodeArc| {
+        locked_image
+            .as_ref()
+            .is_some_and(|image| Arc::ptr_eq(image, node))
+    };
 
-        if let Some(target_node) = uol_target {
-            let node_name = node.read().unwrap().name.clone();
-
-            /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
-            if let Ok(mut parent) = node_parent.try_write() {
-                if let Some(origin) = parent.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
-                }
-            } else if let Some(wz_image) = wz_image {
-                if let Some(origin) = wz_image.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
-                }
+    let uol_target = uol_target_path
+        .split('/')
+        .try_fold(Arc::clone(&node_parent), |node, name| {
+            if is_wz_image(&node) {
+                wz_image.as_ref()?.at_relative(name)
+            } else {
+                node.try_read().ok()?.at_relative(name)
             }
+        });
+
+    let Some(target_node) = uol_target else {
+        return;
+    };
+
+    /* a tree can't contain itself, so keep this kind of uol as it was */
+    if is_containing(&target_node, &node_parent, &is_wz_image) {
+        return;
+    }
+
+    /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
+    if is_wz_image(&node_parent) {
+        if let Some(origin) = wz_image.and_then(|image| image.children.get_mut(&node_name)) {
+            *origin = target_node;
+        }
+    } else if let Ok(mut parent) = node_parent.try_write() {
+        if let Some(origin) = parent.children.get_mut(&node_name) {
+            *origin = target_node;
+        }
+    }
+}
+
+/// Get the closest node that is locked for write, start from the node itself and go through its parents.
+fn get_locked_parent(node: &WzNodeArc) -> Option<WzNodeArc> {
+    let mut current = Arc::clone(node);
+    loop {
+        let parent = match current.try_read() {
+            Ok(read) => read.parent.upgrade(),
+            Err(_) => return Some(Arc::clone(&current)),
+        };
+        current = parent?;
+    }
+}
+
+/// Check if the `target` is the `node` itself or anywhere under it.
+fn is_containing(
+    node: &WzNodeArc,
+    target: &WzNodeArc,
+    is_wz_image: &impl Fn(&WzNodeArc) -> bool,
+) -> bool {
+    let mut visited = std::collections::HashSet::new();
+    let mut stack = vec![Arc::clone(node)];
+    while let Some(current) = stack.pop() {
+        /* the image currently parsing contains all nodes it parsed */
+        if Arc::ptr_eq(&current, target) || is_wz_image(&current) {
+            return true;
+        }
+        if !visited.insert(Arc::as_ptr(&current)) {
+            continue;
+        }
+        if let Ok(read) = current.try_read() {
+            stack.extend(read.children.values().cloned());
         }
     }
+    false
 }
 
 /// Get image node in the way, and return the rest of path.
-- 
2.43.0


From a23657d31942c011b59a8c02689031ba0d6a8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 14/38] fix: get_image ends on links that refer to each other
 and holds no lock while resolving them

---
 src/property/png.rs | 49 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..ff26d6e 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -53,30 +53,41 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
-
-            if let Some(target) = inlink_target {
-                return get_image(&target);
+    let mut node = Arc::clone(node);
+    let mut visited: Vec<WzNodeArc> = Vec::new();
+
+    loop {
+        /* a link might resolve to the node itself or something through it, so don't keep the lock */
+        let (png, inlink, outlink) = {
+            let node_read = node.read().unwrap();
+            match &node_read.object_type {
+                WzObjectType::Property(WzSubProperty::PNG(png)) => {
+                    (png.clone(), node_read.at("_inlink"), node_read.at("_outlink"))
+                }
+                _ => return Err(WzPngParseError::NotPngProperty),
             }
+        };
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+        let target = inlink
+            .and_then(|link| resolve_string_from_node(&link).ok())
+            .and_then(|inlink| node_util::resolve_inlink(&inlink, &node))
+            .or_else(|| {
+                outlink
+                    .and_then(|link| resolve_string_from_node(&link).ok())
+                    .and_then(|outlink| node_util::resolve_outlink(&outlink, &node, true))
+            });
+
+        let Some(target) = target else {
+            return png.extract_png();
+        };
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
-            }
+        visited.push(node);
 
-            png.extract_png()
+        if visited.iter().any(|node| Arc::ptr_eq(node, &target)) {
+            return Err(WzPngParseError::LinkError);
         }
-        _ => Err(WzPngParseError::NotPngProperty),
+
+        node = target;
     }
 }
 
-- 
2.43.0


From ad9abb87bad95e4ccae00cbe05a69d3c81660fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 15/38] fix: archives without encver open with the version they
 were written for, not only 770

---
 src/file.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index 0d09800..fc52e08 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -186,6 +186,12 @@ impl WzFile {
             /* there has code in maplelib to detect version from maplestory.exe here */
 
             for (ver_to_decode, hash) in version_gen {
+                let hash = if wz_file_meta.wz_with_encrypt_version_header {
+                    hash
+                } else {
+                    /* no encver to check against, the offsets will tell */
+                    util::version::pkg1::VersionGen::calculate_version_hash(ver_to_decode)
+                };
                 wz_file_meta.hash = hash as usize;
                 wz_file_meta.wz_version_header = ver_to_decode;
                 wz_dir.hash = hash as u64;
@@ -202,7 +208,12 @@ impl WzFile {
             return Err(Error::ErrorGameVerHash);
         }
 
-        wz_file_meta.hash = version_gen.check_and_get_version_hash() as usize;
+        let hash = if wz_file_meta.wz_with_encrypt_version_header {
+            version_gen.check_and_get_version_hash()
+        } else {
+            util::version::pkg1::VersionGen::calculate_version_hash(wz_file_meta.patch_version)
+        };
+        wz_file_meta.hash = hash as usize;
         wz_dir.hash = wz_file_meta.hash as u64;
 
         let children =
-- 
2.43.0


From 043b0df4b36c8e1dc3c17f0f1cdb66b7eb2135d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 16/38] fix: key guess finds the first name of MetaAtOffset
 entry where the directory does

---
 src/util/string_decryptor/mod.rs | 2 +-
 src/util/version/mod.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..62cdf5d 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -80,7 +80,7 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..8c85d91 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -139,7 +139,7 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
             let meta = reader.read_wz_string_meta_at(offset + 1)?;
             reader.try_resolve_wz_string_meta(
-- 
2.43.0


From f342c872de2d4cf9eb24a129494588b59cd9faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 17/38] fix: an archive without encver and a multiple of 256
 root entries is not taken for one with encver

---
 src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 771806e..8a82e34 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -98,7 +98,8 @@ impl WzHeader {
         }
 
         if encrypted_version == 0x80 {
-            let entry_count = buf.pread_with::<i32>(self.fstart + 2, LE).ok()?;
+            // could be the marker of a compressed entry count, which follows right after it
+            let entry_count = buf.pread_with::<i32>(self.fstart + 1, LE).ok()?;
             //check entry count is valid
             if entry_count > 0 && (entry_count & 0xff) == 0 && entry_count <= 0xffff {
                 return None;
-- 
2.43.0


From 975c78966cec0b8c8674d5f3d31942a62c9d0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 18/38] fix: the hash of a patch version of 7 and more digits
 overflows

---
 src/util/version/pkg1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..98c023b 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -21,7 +21,9 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash
+                .wrapping_mul(32)
+                .wrapping_add(char_code + 1);
         }
         version_hash
     }
-- 
2.43.0


From b362f07ea2825e8d62d7b14d9af8dc58be3d0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 19/38] fix: key guess skips entries of unknown type before the
 first name

---
 src/util/string_decryptor/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 62cdf5d..11f92f5 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -73,7 +73,17 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         return Err(reader::Error::DecryptError(reader.pos.get()));
     }
 
-    let dir_type = WzDirectoryType::from(reader.read_u8()?);
+    let mut dir_type = WzDirectoryType::from(reader.read_u8()?);
+
+    // entries of unknown type hold no name and are skipped like WzDirectory does
+    while reader.header.ident == PKGVersion::V1
+        && dir_type == WzDirectoryType::UnknownType
+        && entry_count > 1
+    {
+        reader.skip(4 + 4 + 2);
+        entry_count -= 1;
+        dir_type = WzDirectoryType::from(reader.read_u8()?);
+    }
 
     let wz_name_meta = match dir_type {
         // the first entry should always not be offset thou
-- 
2.43.0


From 7539527394c72008c778cb57d3a4bd46e45bc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 20/38] fix: a supplied key is used when the first name can not
 prove any key

---
 src/file.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index fc52e08..7f4f84d 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -98,20 +98,21 @@ impl WzFile {
 
         // ensure the keys is valid or guess one
         let verified_keys = existing_keys
-            .and_then(|keys| {
-                if string_decryptor::verify_decryptor_from_wz_file(&map, &keys).is_ok() {
-                    Some(keys)
-                } else {
-                    None
-                }
-            })
+            .as_ref()
+            .filter(|keys| string_decryptor::verify_decryptor_from_wz_file(&map, keys).is_ok())
+            .cloned()
             .or_else(|| string_decryptor::guess_decryptor_from_wz_file(&map));
         let string_decryptor_verified = verified_keys.is_some();
 
         let reader = if let Some(keys) = verified_keys {
             WzReader::new(map).with_existing_keys(keys.clone())
         } else {
-            WzReader::new(map)
+            let mut reader = WzReader::new(map);
+            // nothing can tell better than the caller
+            if let Some(keys) = existing_keys.filter(|keys| !keys.read().unwrap().is_pkg2()) {
+                reader.keys = keys;
+            }
+            reader
         };
 
         let offset = reader.header.data_start;
-- 
2.43.0


From 24390a5a37990eb1800080ac74432f9a79d3383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 21/38] fix: key guess of pkg2 reads the whole entry list, a
 short first name proves no key

---
 src/directory.rs                 | 10 ++++++++--
 src/util/string_decryptor/mod.rs | 10 +++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 5dd2eb4..5aed0f1 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -183,7 +183,13 @@ impl WzDirectory {
         Ok(entries)
     }
 
-    fn resolve_entry_pkg2(&self, reader: &WzSliceReader) -> Result<Vec<WzDirectoryEntry>, Error> {
+    /// check the whole entry list at data start can be read with the keys of reader
+    pub(crate) fn verify_entry_list_pkg2(reader: &WzSliceReader) -> Result<(), Error> {
+        reader.seek(reader.header.data_start);
+        Self::resolve_entry_pkg2(reader).map(|_| ())
+    }
+
+    fn resolve_entry_pkg2(reader: &WzSliceReader) -> Result<Vec<WzDirectoryEntry>, Error> {
         let encrypted_entry_count = reader.read_wz_int()?;
 
         let mut wz_dir_entries: Vec<WzDirectoryEntry> = vec![];
@@ -278,7 +284,7 @@ impl WzDirectory {
             if reader.header.is_pkg2_64() {
                 self.entries = self.resolve_entry_pkg2_v64(&reader)?;
             } else {
-                self.entries = self.resolve_entry_pkg2(&reader)?;
+                self.entries = Self::resolve_entry_pkg2(&reader)?;
             }
         } else {
             return Err(Error::UnknownPkgVersion);
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 11f92f5..88090c8 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -7,7 +7,7 @@ use crate::property::{WzStringMeta, WzStringType};
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
 use crate::util::version::PKGVersion;
 use crate::version::{get_iv_by_maple_version, get_key_by_maple_version, WzMapleVersion};
-use crate::{directory::WzDirectoryType, reader, Reader, WzSliceReader};
+use crate::{directory::WzDirectoryType, reader, Reader, WzDirectory, WzSliceReader};
 
 pub type SharedWzStringDecryptor = Arc<RwLock<dyn Decryptor>>;
 pub use ecb_decryptor::EcbDecryptor;
@@ -146,6 +146,14 @@ pub fn verify_decryptor_from_wz_file_with_meta(
         return Err(reader::Error::DecryptError(reader.pos.get()));
     }
 
+    if reader.header.ident == PKGVersion::V2 {
+        // the keys decide how the first name is stored, a short name alone can not tell them apart,
+        // and the keys of a 64 bit header are always calculated
+        if reader.header.is_pkg2_64() || WzDirectory::verify_entry_list_pkg2(&reader).is_err() {
+            return Err(reader::Error::DecryptError(reader.pos.get()));
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 1f31597ddf8c8c1b3ee7fa8570c8fc3ff7e46980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 22/38] fix: the encrypted entry count of a pkg2 directory is
 not checked as if it were plain

---
 src/directory.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 5aed0f1..3042278 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -1,7 +1,11 @@
 use crate::{
     property::WzStringMeta,
     reader,
-    util::{offset::WzOffsetMeta, profile::WzProfile, version::PKGVersion},
+    util::{
+        offset::{WzOffsetMeta, WzOffsetVersion},
+        profile::WzProfile,
+        version::PKGVersion,
+    },
     wz_image, Reader, WzImage, WzNode, WzNodeArc, WzNodeArcVec, WzNodeName, WzObjectType, WzReader,
     WzSliceReader,
 };
@@ -309,7 +313,10 @@ impl WzDirectory {
 
             entry.offset = offset_calculator(&reader.header, &meta)?;
 
-            if entry.verify(&reader).is_err() {
+            if entry
+                .verify(&reader, self.hash, self.profile.offset_version)
+                .is_err()
+            {
                 return Err(Error::InvalidWzVersion);
             }
         }
@@ -419,7 +426,12 @@ impl WzDirectoryEntry {
         Ok(entry)
     }
 
-    pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
+    pub fn verify(
+        &self,
+        reader: &WzSliceReader,
+        hash: u64,
+        offset_version: WzOffsetVersion,
+    ) -> Result<(), Error> {
         if !reader.is_valid_pos(self.offset + self.size) {
             return Err(Error::InvalidWzVersion);
         }
@@ -433,14 +445,23 @@ impl WzDirectoryEntry {
         } else if self.dir_type == WzDirectoryType::WzDirectory {
             reader.seek(self.offset);
 
-            let entry_count = if reader.header.is_pkg2_64() {
-                reader.read_wz_int64()?
+            if reader.header.is_pkg2_64() {
+                // any value can be a valid encrypted count
+                let encrypted_entry_count = reader.read_wz_int64()?;
+                let entry_count = offset_version.get_entry_count_calculator()(
+                    &reader.header,
+                    hash,
+                    encrypted_entry_count,
+                )?;
+                if entry_count > 1_000_000 {
+                    return Err(Error::InvalidWzVersion);
+                }
             } else {
-                reader.read_wz_int()? as i64
-            };
-
-            if entry_count < 0 {
-                return Err(Error::InvalidWzVersion);
+                // the count of pkg2 is encrypted, so its sign tells nothing
+                let entry_count = reader.read_wz_int()?;
+                if entry_count < 0 && reader.header.ident == PKGVersion::V1 {
+                    return Err(Error::InvalidWzVersion);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 66e8952ad21f5c05b02743d1313397ff897d80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 23/38] fix: the exhaustive version search includes the last
 hash

---
 src/util/version/pkg2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..b115c2a 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -436,12 +436,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From 0de4f74a2a471878fb23d5da73a200a3caa1ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 24/38] fix: the combined version search goes on after a
 generation without results

---
 src/util/version/pkg2.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index b115c2a..8965670 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -349,25 +349,15 @@ impl Iterator for VersionGen {
     type Item = u32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // use the current iterator if it exists
-        if let Some(current_iter) = self.current_iter.as_mut() {
-            if let Some(result) = current_iter.next() {
+        loop {
+            // use the current iterator if it exists
+            if let Some(result) = self.current_iter.as_mut().and_then(|iter| iter.next()) {
                 return Some(result);
-            } else {
-                self.current_iter = None;
             }
-        }
 
-        // try using the next generator
-        if self.current_iter.is_none() {
-            if let Some(generator) = self.generators.pop() {
-                self.current_iter = Some(generator.get_iter());
-                return self.current_iter.as_mut().unwrap().next();
-            }
+            // try using the next generator, until there no more generators to try
+            self.current_iter = Some(self.generators.pop()?.get_iter());
         }
-
-        // no more generators to try
-        None
     }
 }
 
-- 
2.43.0


From 0eb0051a3547d258e2c82efd26a5187ece8c4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 25/38] fix: the version search finds the hashes that rotate by
 0

---
 src/util/version/pkg2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 8965670..31e0ea1 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -400,7 +400,8 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            // the bit itself when there is no rotation
+            let known_v_bit = ((v_hash | (v_bit << bit_idx)) >> future_v_idx) & 1;
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From 7df8b86b960d09c4893184e7c42bfca7d6a7a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 26/38] fix: read packs with any salt and reject files that are
 not packs with an error

The first-generation header was tried on every file and panicked on most others,
key arithmetic overflowed, and salt characters above 0x7F entered the keys as
their utf-8 bytes.
---
 src/ms/chacha20_reader.rs | 33 ++++++++++++++++-----------
 src/ms/file.rs            | 10 ++++----
 src/ms/header.rs          | 48 +++++++++++++++++++++++----------------
 src/ms/ms_image.rs        | 11 ++++-----
 src/ms/utils.rs           |  6 +++++
 5 files changed, 65 insertions(+), 43 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..8a5cf52 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -39,15 +39,13 @@ impl<'a> ChaCha20Reader<'a> {
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +59,13 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        let available = READER_CHUNK_SIZE - self.buffer_offset
+            + self.data.len().saturating_sub(self.offset);
+        if len > available {
+            return Err(Error::OutOfBounds(len, available));
+        }
+        let mut buffer = vec![0; len];
+        self.apply_keystream(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,18 +73,20 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
-        Ok(())
+        self.apply_keystream(&mut dest_buffer[..len])
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    /// fill data with the next decrypted bytes
+    pub fn apply_keystream(&mut self, data: &mut [u8]) -> Result<(), Error> {
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
             if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+                let chunk_end = self.offset + READER_CHUNK_SIZE;
+                let chunk = self
+                    .data
+                    .get(self.offset..chunk_end)
+                    .ok_or(Error::OutOfBounds(chunk_end, self.data.len()))?;
+                self.buffer.copy_from_slice(chunk);
                 self.decryptor.apply_keystream(&mut self.buffer);
                 self.offset += READER_CHUNK_SIZE;
                 self.buffer_offset = 0;
@@ -100,5 +105,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..e182590 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -9,6 +9,7 @@ use super::chacha20_reader::{
 use super::header::{self, MsHeader};
 use super::ms_image::{MsEntryMeta, MsImage};
 use super::snow2_reader::{Snow2Reader, MS_SNOW2_KEY_SIZE};
+use super::utils::char_bytes;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -79,13 +80,13 @@ impl MsFile {
 
     fn parse_v1(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
         // decrypt with another snow key
-        let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
+        let file_name_with_salt_bytes = char_bytes(&self.header.name_with_salt);
         let file_name_with_salt_len = file_name_with_salt_bytes.len();
         let mut snow_key: [u8; 16] = [0; MS_SNOW2_KEY_SIZE];
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -156,12 +157,13 @@ impl MsFile {
         }
 
         // decrypt with another chacha20 key
-        let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
+        let file_name_with_salt_bytes = char_bytes(&self.header.name_with_salt);
         let file_name_with_salt_len = file_name_with_salt_bytes.len();
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i]
+                ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..0e46ecf 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -8,7 +8,7 @@ use super::chacha20_reader::{
 };
 use super::snow2_decryptor::Snow2Decryptor;
 use super::snow2_reader::{MS_SNOW2_KEY_SIZE, MS_SNOW2_VERSION};
-use super::utils::{get_ascii_file_name, sum_str};
+use super::utils::{char_bytes, get_ascii_file_name, sum_str};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -58,7 +58,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -66,12 +66,16 @@ impl MsHeader {
         let hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         // plus 1 and skip 3 bytes
         offset += 4;
-        let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        if salt_len > rand_bytes.len() {
+            return Err(reader::Error::OutOfBounds(salt_len, rand_bytes.len()).into());
+        }
+
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let byte = rand_bytes[i];
                 let byte2 = salt_bytes[i * 2];
@@ -82,15 +86,15 @@ impl MsHeader {
         // generate snow key based on filename+keySalt
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
 
-        let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
+        let file_name_with_salt_bytes = char_bytes(&file_name_with_salt);
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt_bytes.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -111,7 +115,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
@@ -143,7 +150,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -162,15 +169,18 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        if salt_len > rand_bytes.len() {
+            return Err(reader::Error::OutOfBounds(salt_len, rand_bytes.len()).into());
+        }
+
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
-                b as char
+                (a ^ 0x4B) as char
             })
             .collect::<String>();
 
@@ -179,15 +189,15 @@ impl MsHeader {
         // 4. decrypt 8 bytes header with chacha20 cipher
         // generate chacha20 key based on filename+keySalt
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
-        let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
+        let file_name_with_salt_bytes = char_bytes(&file_name_with_salt);
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            file_name_with_salt_bytes[i % file_name_with_salt_bytes.len()].wrapping_add(i as u8)
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..reader.get_size())?,
             &chacha20_key,
             &empty_nonce,
         );
diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..29adce6 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -6,6 +6,7 @@ use std::sync::Arc;
 
 use super::chacha20_reader::{MS_CHACHA20_KEY_BASE, MS_CHACHA20_KEY_SIZE, MS_CHACHA20_NONCE_SIZE};
 use super::snow2_decryptor::Snow2Decryptor;
+use super::utils::char_bytes;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -71,7 +72,7 @@ impl MsImage {
 
         let mut img_key = [0_u8; 16];
 
-        let bytes = self.meta.entry_name.as_bytes();
+        let bytes = char_bytes(&self.meta.entry_name);
 
         for i in 0..16 {
             let char = bytes[i % bytes.len()];
@@ -129,13 +130,9 @@ impl MsImage {
 
         // key
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
+        let bytes = char_bytes(&self.meta.entry_name);
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = bytes[i % bytes.len()];
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
diff --git a/src/ms/utils.rs b/src/ms/utils.rs
index b3e2df2..8baac90 100644
--- a/src/ms/utils.rs
+++ b/src/ms/utils.rs
@@ -11,3 +11,9 @@ where
 {
   file_name.as_ref().file_name().unwrap().to_str().unwrap().to_ascii_lowercase()
 }
+
+/// the low byte of every utf-16 unit, the form a name or salt has in the key calculations
+#[inline]
+pub fn char_bytes(string: &str) -> Vec<u8> {
+  string.encode_utf16().map(|c| c as u8).collect()
+}
-- 
2.43.0


From b90af0b9fa98b91dfc666d9ed7e69411dcd1ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 27/38] fix: verify supplied pkg2 keys with the form their
 names are stored in

---
 src/util/string_decryptor/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 88090c8..8dc10e9 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -161,7 +161,13 @@ pub fn verify_decryptor_from_wz_file(
     buf: &[u8],
     decryptor: &SharedWzStringDecryptor,
 ) -> Result<(), reader::Error> {
-    let meta = try_get_first_wz_name_meta(buf)?;
+    // the first name is stored in another form when it has keys of its own
+    let is_pkg2 = decryptor.read().unwrap().is_pkg2();
+    let meta = if is_pkg2 {
+        try_get_first_wz_name_pkg2_meta_from_wz_file(buf)?
+    } else {
+        try_get_first_wz_name_meta(buf)?
+    };
     verify_decryptor_from_wz_file_with_meta(buf, decryptor, &meta)
 }
 
-- 
2.43.0


From adfb3056475eeb704160c5f95c022ba6421b75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 28/38] fix: report string lengths and offsets outside of the
 data as errors

---
 src/reader.rs | 96 +++++++++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 84c275b..745597d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -98,10 +98,10 @@ pub trait Reader {
         }
     }
     fn resolve_unicode_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_decrypt_slice(slice_range(offset, length))?;
         let mut strvec = Vec::with_capacity(length / 2);
 
-        for (i, chunk) in decrypted.chunks(2).enumerate() {
+        for (i, chunk) in decrypted.chunks_exact(2).enumerate() {
             let c = u16::from_le_bytes([chunk[0], chunk[1]]);
             strvec.push(resolve_unicode_char(c, i as i32));
         }
@@ -109,7 +109,7 @@ pub trait Reader {
         Ok(strvec)
     }
     fn resolve_ascii_raw(&self, offset: usize, length: usize) -> Result<Vec<u8>> {
-        let mut decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let mut decrypted = self.get_decrypt_slice(slice_range(offset, length))?;
 
         decrypted.iter_mut().enumerate().for_each(|(i, byte)| {
             *byte = resolve_ascii_char(*byte, i as i32);
@@ -118,10 +118,10 @@ pub trait Reader {
         Ok(decrypted)
     }
     fn resolve_pkg2_dir_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_pkg2_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_pkg2_decrypt_slice(slice_range(offset, length))?;
 
         Ok(decrypted
-            .chunks(2)
+            .chunks_exact(2)
             .map(|c| u16::from_le_bytes([c[0], c[1]]))
             .collect())
     }
@@ -335,7 +335,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn available(&self) -> usize {
-        self.get_size() - self.pos.get()
+        self.get_size().saturating_sub(self.pos.get())
     }
     #[inline]
     pub fn seek(&self, pos: usize) {
@@ -343,7 +343,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn skip(&self, len: usize) {
-        self.pos.set(self.pos.get() + len);
+        self.pos.set(self.pos.get().saturating_add(len));
     }
     #[inline]
     pub fn save_pos(&self) {
@@ -357,70 +357,70 @@ impl<'a> WzSliceReader<'a> {
     pub fn read_u8(&self) -> Result<u8> {
         let pos = self.pos.get();
         let res = self.read_u8_at(pos);
-        self.pos.set(pos + 1);
+        self.pos.set(pos.saturating_add(1));
         res
     }
     #[inline]
     pub fn read_u16(&self) -> Result<u16> {
         let pos = self.pos.get();
         let res = self.read_u16_at(pos);
-        self.pos.set(pos + 2);
+        self.pos.set(pos.saturating_add(2));
         res
     }
     #[inline]
     pub fn read_u32(&self) -> Result<u32> {
         let pos = self.pos.get();
         let res = self.read_u32_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_u64(&self) -> Result<u64> {
         let pos = self.pos.get();
         let res = self.read_u64_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
     pub fn read_i8(&self) -> Result<i8> {
         let pos = self.pos.get();
         let res = self.read_i8_at(pos);
-        self.pos.set(pos + 1);
+        self.pos.set(pos.saturating_add(1));
         res
     }
     #[inline]
     pub fn read_i16(&self) -> Result<i16> {
         let pos = self.pos.get();
         let res = self.read_i16_at(pos);
-        self.pos.set(pos + 2);
+        self.pos.set(pos.saturating_add(2));
         res
     }
     #[inline]
     pub fn read_i32(&self) -> Result<i32> {
         let pos = self.pos.get();
         let res = self.read_i32_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_i64(&self) -> Result<i64> {
         let pos = self.pos.get();
         let res = self.read_i64_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
     pub fn read_float(&self) -> Result<f32> {
         let pos = self.pos.get();
         let res = self.read_float_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_double(&self) -> Result<f64> {
         let pos = self.pos.get();
         let res = self.read_double_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
@@ -436,7 +436,7 @@ impl<'a> WzSliceReader<'a> {
         if sl == i8::MIN {
             self.read_i32()
         } else {
-            Ok((-sl).into())
+            Ok(-i32::from(sl))
         }
     }
     pub fn read_unicode_string(&self, sl: i8) -> Result<String> {
@@ -446,7 +446,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = string_len(len)? * 2;
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -456,7 +456,7 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = string_len(self.read_ascii_str_len(sl)?)?;
         if len == 0 {
             return Ok(String::new());
         }
@@ -486,7 +486,7 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = (string_len(self.read_i32()?)? * 2) as u32;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -500,9 +500,9 @@ impl<'a> WzSliceReader<'a> {
             }
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
-                    let length = self.read_i32()?;
+                    let length = string_len(self.read_i32()?)?;
                     let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
-                    self.skip(length as usize);
+                    self.skip(length);
                     Ok(meta)
                 } else {
                     let length = (-small_len) as u32;
@@ -586,7 +586,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(String::new()),
         }
@@ -599,7 +599,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(wz_img_offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(WzStringMeta::empty()),
         }
@@ -812,9 +812,10 @@ pub fn read_i64_at(buf: &[u8], pos: usize) -> Result<i64> {
 #[inline]
 pub fn read_string_by_len(buf: &[u8], len: usize, offset: Option<usize>) -> String {
     let offset = offset.unwrap_or(0);
-    let strvec: Vec<u8> = (0..len).map(|index| buf[offset + index]).collect();
+    // a buffer that ends earlier only gives what it has
+    let bytes = buf.get(offset..).unwrap_or_default();
 
-    String::from_utf8_lossy(&strvec).to_string()
+    String::from_utf8_lossy(&bytes[..len.min(bytes.len())]).to_string()
 }
 #[inline]
 pub fn read_wz_string(buf: &[u8]) -> Result<String> {
@@ -836,8 +837,11 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
     match string_type {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
-            let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let append_offset = (read_i32_at(buf, 1)? as usize).wrapping_add(offset);
+            let string = buf
+                .get(append_offset..)
+                .ok_or(Error::OutOfBounds(append_offset, buf.len()))?;
+            read_wz_string(string)
         }
         _ => Ok(String::new()),
     }
@@ -870,14 +874,14 @@ pub fn read_wz_long(buf: &[u8], offset: Option<usize>) -> Result<i64> {
 }
 
 pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
-    let len;
-    let mut offset: i32 = 0;
+    let len: usize;
+    let mut offset: usize = 0;
 
     if sl == i8::MAX {
-        len = read_i32_at(buf, 0)?;
+        len = string_len(read_i32_at(buf, 0)?)?;
         offset = 4;
     } else {
-        len = sl as i32;
+        len = string_len(sl.into())?;
     }
 
     if len == 0 {
@@ -885,21 +889,21 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
     }
 
     let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+        .map(|i| Ok(resolve_unicode_char(read_u16_at(buf, i * 2 + offset)?, i as i32)))
+        .collect::<Result<_>>()?;
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
 
 pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
-    let len: i32;
-    let mut offset: i32 = 0;
+    let len: usize;
+    let mut offset: usize = 0;
 
     if sl == i8::MIN {
-        len = read_i32_at(buf, 0)?;
+        len = string_len(read_i32_at(buf, 0)?)?;
         offset = 4;
     } else {
-        len = (-sl).into();
+        len = string_len(-i32::from(sl))?;
     }
 
     if len == 0 {
@@ -907,12 +911,22 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
     }
 
     let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+        .map(|i| Ok(resolve_ascii_char(read_u8_at(buf, i + offset)?, i as i32)))
+        .collect::<Result<_>>()?;
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
 
+/// the range of a slice by its length, one that overflows is out of every buffer
+#[inline]
+pub(crate) fn slice_range(offset: usize, length: usize) -> std::ops::Range<usize> {
+    offset..offset.saturating_add(length)
+}
+/// a stored string length can't be negative
+#[inline]
+fn string_len(len: i32) -> Result<usize> {
+    usize::try_from(len).map_err(|_| Error::DecryptError(len as usize))
+}
 #[inline]
 fn resolve_ascii_char(c: u8, i: i32) -> u8 {
     c ^ (i as u8).wrapping_add(0xAA)
-- 
2.43.0


From e81d016e2baaaad51ce652a1e9de5557bed5df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 29/38] fix: report invalid counts, sizes and nesting of
 properties as errors

---
 src/reader.rs              |  11 ++++
 src/util/parse_property.rs | 122 ++++++++++++++++++++++++++++---------
 2 files changed, 104 insertions(+), 29 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 745597d..4c8108d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -69,6 +69,8 @@ pub struct WzSliceReader<'a> {
     /// current reading position
     pub pos: Cell<usize>,
     _save_pos: Cell<usize>,
+    /// how many property lists are being read inside each other
+    depth: Cell<usize>,
     pub header: WzHeader,
     pub keys: SharedWzStringDecryptor,
     pub pkg2_keys: SharedWzStringDecryptor,
@@ -293,6 +295,7 @@ impl<'a> WzSliceReader<'a> {
             buf,
             pos: Cell::new(0),
             _save_pos: Cell::new(0),
+            depth: Cell::new(0),
             header: Default::default(),
             keys,
             pkg2_keys,
@@ -346,6 +349,14 @@ impl<'a> WzSliceReader<'a> {
         self.pos.set(self.pos.get().saturating_add(len));
     }
     #[inline]
+    pub(crate) fn depth(&self) -> usize {
+        self.depth.get()
+    }
+    #[inline]
+    pub(crate) fn set_depth(&self, depth: usize) {
+        self.depth.set(depth);
+    }
+    #[inline]
     pub fn save_pos(&self) {
         self._save_pos.set(self.pos.get());
     }
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 61c8af3..2d966a1 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -8,6 +8,9 @@ use crate::{
 use std::sync::Arc;
 use thiserror::Error;
 
+/// far deeper than any property is nested
+const MAX_DEPTH: usize = 128;
+
 #[derive(Debug, Error)]
 pub enum WzPropertyParseError {
     #[error("Node not found")]
@@ -22,19 +25,50 @@ pub enum WzPropertyParseError {
     #[error("Unknown extended property type: {0}, name: {1}, at position: {2}")]
     UnknownExtendedPropertyType(String, WzNodeName, usize),
 
+    #[error("Invalid entry count: {0}, at position: {1}")]
+    InvalidEntryCount(i32, usize),
+
+    #[error("Invalid block or data size, at position: {0}")]
+    InvalidSize(usize),
+
+    #[error("Properties are nested too deep, at position: {0}")]
+    TooDeep(usize),
+
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
 
+/// every entry takes at least one byte, so there can't be more entries than remaining bytes
+fn read_entry_count(reader: &WzSliceReader) -> Result<usize, WzPropertyParseError> {
+    let entry_count = reader.read_wz_int()?;
+
+    usize::try_from(entry_count)
+        .ok()
+        .filter(|count| *count <= reader.available())
+        .ok_or_else(|| WzPropertyParseError::InvalidEntryCount(entry_count, reader.pos.get()))
+}
+
+/// read a size of data that starts from `offset` and must be inside of the buffer
+fn check_data_size(
+    reader: &WzSliceReader,
+    offset: usize,
+    size: i32,
+) -> Result<usize, WzPropertyParseError> {
+    usize::try_from(size)
+        .ok()
+        .filter(|size| reader.is_valid_pos(offset.saturating_add(*size)))
+        .ok_or(WzPropertyParseError::InvalidSize(offset))
+}
+
 pub fn parse_property_list(
     parent: Option<&WzNodeArc>,
     org_reader: &Arc<WzReader>,
     reader: &WzSliceReader,
     origin_offset: usize,
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
-    let entry_count = reader.read_wz_int()?;
+    let entry_count = read_entry_count(reader)?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    let mut childs: WzNodeArcVec = Vec::new();
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -117,9 +151,17 @@ pub fn parse_property_node(
             let block_size = reader.read_u32()?;
             let next_pos = reader.pos.get() + block_size as usize;
 
+            let depth = reader.depth();
+            if depth >= MAX_DEPTH {
+                return Err(WzPropertyParseError::TooDeep(reader.pos.get()));
+            }
+            reader.set_depth(depth + 1);
+
             let parse_result =
                 parse_extended_prop(parent, org_reader, reader, next_pos, origin_offset, name);
 
+            reader.set_depth(depth);
+
             let node = if let Ok(node) = parse_result {
                 node
             } else if let Err(WzPropertyParseError::UnknownExtendedPropertyType(
@@ -140,6 +182,10 @@ pub fn parse_property_node(
                 return parse_result;
             };
 
+            // going back would read the same bytes again as something else
+            if reader.pos.get() > next_pos {
+                return Err(WzPropertyParseError::InvalidSize(next_pos));
+            }
             reader.seek(next_pos);
 
             return Ok(node);
@@ -245,10 +291,12 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.wrapping_sub(1) as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
             let canvas_header = reader.read_u16()?;
+            // the header is part of the payload
+            reader.seek(canvas_offset);
             let wz_png = WzPng::new(
                 org_reader,
                 (width as u32, height as u32),
@@ -269,31 +317,38 @@ pub fn parse_more(
             )
             .into_lock();
 
-            let entry_count = reader.read_wz_int()?;
+            let entry_count = read_entry_count(reader)?;
             let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
-            {
-                let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
-                for i in 0..entry_count {
-                    let name: WzNodeName = i.to_string().into();
-                    let parsed_node = parse_extended_prop(
-                        Some(&node),
-                        org_reader,
-                        reader,
-                        end_of_block,
-                        origin_offset,
-                        name,
-                    )?;
-
-                    if let Some(uols) = parsed_node.2 {
-                        uol_nodes.extend(uols);
-                    }
+            let depth = reader.depth();
+            if depth >= MAX_DEPTH {
+                return Err(WzPropertyParseError::TooDeep(reader.pos.get()));
+            }
+            reader.set_depth(depth + 1);
 
-                    node_write.children.insert(parsed_node.0, parsed_node.1);
+            for i in 0..entry_count {
+                let name: WzNodeName = i.to_string().into();
+                let parsed_node = parse_extended_prop(
+                    Some(&node),
+                    org_reader,
+                    reader,
+                    end_of_block,
+                    origin_offset,
+                    name,
+                )?;
+
+                if let Some(uols) = parsed_node.2 {
+                    uol_nodes.extend(uols);
                 }
+
+                node.write()
+                    .unwrap()
+                    .children
+                    .insert(parsed_node.0, parsed_node.1);
             }
 
+            reader.set_depth(depth);
+
             Ok((property_name, node, Some(uol_nodes)))
         }
         "Shape2D#Vector2D" => {
@@ -305,16 +360,23 @@ pub fn parse_more(
         "Sound_DX8" => {
             reader.skip(1);
             let _sound_start_offset = reader.pos.get();
-            let sound_size = reader.read_wz_int()? as u32;
+            let sound_size = reader.read_wz_int()?;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
 
             let header_offset: usize = reader.pos.get();
 
-            let header_size = sound_offset - header_offset;
+            // the sound is the end of the block, everything before is its header
+            let sound_offset = usize::try_from(sound_size)
+                .ok()
+                .and_then(|size| end_of_block.checked_sub(size))
+                .ok_or(WzPropertyParseError::InvalidSize(header_offset))?;
+            let sound_size = check_data_size(reader, sound_offset, sound_size)? as u32;
+            let header_size = sound_offset
+                .checked_sub(header_offset)
+                .ok_or(WzPropertyParseError::InvalidSize(header_offset))?;
 
             let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
+                reader.get_slice_or_error(header_offset..sound_offset)?,
                 sound_size,
                 sound_duration,
             );
@@ -376,8 +438,9 @@ pub fn parse_more(
                 uol_nodes = Some(uols);
             }
 
-            let raw_data_size = reader.read_wz_int()? as usize;
+            let raw_data_size = reader.read_wz_int()?;
             let raw_data_offset = reader.pos.get();
+            let raw_data_size = check_data_size(reader, raw_data_offset, raw_data_size)?;
 
             node.write().unwrap().object_type =
                 WzRawData::new(org_reader, raw_data_offset, raw_data_size).into();
@@ -387,8 +450,9 @@ pub fn parse_more(
         "Canvas#Video" => {
             // origin observation, first 3 bytes is [0x00, 0x00, 0x01]
             reader.skip(3);
-            let video_size = reader.read_wz_int()? as usize;
+            let video_size = reader.read_wz_int()?;
             let video_offset = reader.pos.get();
+            let video_size = check_data_size(reader, video_offset, video_size)?;
             // pos - size shoud same as end_of_block
             let node = WzNode::new(
                 &property_name,
@@ -423,7 +487,7 @@ pub fn get_node(
     let (mut current_name, mut rest_path) = split_path(path);
 
     loop {
-        let entry_count = reader.read_wz_int()?;
+        let entry_count = read_entry_count(reader)?;
         let mut found = false;
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
-- 
2.43.0


From 4c0550b7295841c233c18bb6e483e0013914b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 30/38] fix: report damaged directories, also ones that contain
 themselves, as errors

---
 src/directory.rs                 | 53 ++++++++++++++++++++------------
 src/util/string_decryptor/mod.rs |  4 +--
 src/util/version/mod.rs          |  6 ++--
 3 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 3042278..9acd0ad 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -9,11 +9,15 @@ use crate::{
     wz_image, Reader, WzImage, WzNode, WzNodeArc, WzNodeArcVec, WzNodeName, WzObjectType, WzReader,
     WzSliceReader,
 };
+use std::collections::HashSet;
 use std::sync::Arc;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+/// far deeper than any directory is nested
+const MAX_DEPTH: usize = 128;
+
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error("Lua parse error")]
@@ -26,6 +30,8 @@ pub enum Error {
     InvalidWzVersion,
     #[error("Entry count overflow, Invalid wz version used for decryption, try parsing other version numbers.")]
     InvalidEntryCount,
+    #[error("Directories are nested too deep or contain each other, offset = {0}")]
+    InvalidNesting(usize),
     #[error("Unknown pkg version, can't resolve children")]
     UnknownPkgVersion,
     #[error("Binary reading error")]
@@ -115,23 +121,43 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        self.resolve_nested_children(parent, &mut HashSet::new(), 0)
+    }
+
+    /// `visited` holds the offsets of all directories that are already resolved
+    fn resolve_nested_children(
+        &mut self,
+        parent: &WzNodeArc,
+        visited: &mut HashSet<usize>,
+        depth: usize,
+    ) -> Result<WzNodeArcVec, Error> {
         if self.block_size == 0 {
             return Ok(vec![]);
         }
 
+        // a directory is stored only once, or they could contain each other endlessly
+        if depth > MAX_DEPTH || !visited.insert(self.offset) {
+            return Err(Error::InvalidNesting(self.offset));
+        }
+
         self.prepare_entries()?;
 
         if self.calculate_offset_and_verify().is_err() {
             return Err(Error::InvalidWzVersion);
         }
 
-        let nodes: WzNodeArcVec = self
+        let nodes = self
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<WzNodeArcVec, Error>>()?;
 
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
@@ -139,7 +165,7 @@ impl WzDirectory {
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children(node)?;
+                let children = dir.resolve_nested_children(node, visited, depth + 1)?;
 
                 dir.is_parsed = true;
 
@@ -162,7 +188,7 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count as usize);
+        let mut entries: Vec<WzDirectoryEntry> = Vec::new();
 
         for _ in 0..entry_count {
             let entry = WzDirectoryEntry::read_pkg1_entry(reader)?;
@@ -248,7 +274,7 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut wz_dir_entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count);
+        let mut wz_dir_entries: Vec<WzDirectoryEntry> = Vec::new();
 
         for i in 0..entry_count {
             let entry =
@@ -360,7 +386,7 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = reader.header.fstart.wrapping_add(str_offset as usize);
 
                 entry.dir_type = reader.read_u8_at(offset)?.into();
                 entry.name = reader.read_wz_string_meta_at(offset + 1)?;
@@ -432,7 +458,7 @@ impl WzDirectoryEntry {
         hash: u64,
         offset_version: WzOffsetVersion,
     ) -> Result<(), Error> {
-        if !reader.is_valid_pos(self.offset + self.size) {
+        if !reader.is_valid_pos(self.offset.saturating_add(self.size)) {
             return Err(Error::InvalidWzVersion);
         }
 
@@ -505,15 +531,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 8dc10e9..512548a 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -90,8 +90,8 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
-            reader.read_wz_string_meta_at(offset + 1)?
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
+            reader.read_wz_string_meta_at(offset.wrapping_add(1))?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
         _ => return Err(reader::Error::DecryptError(reader.pos.get())),
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index 8c85d91..eb9d414 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -81,7 +81,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
@@ -139,9 +139,9 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
-            let meta = reader.read_wz_string_meta_at(offset + 1)?;
+            let meta = reader.read_wz_string_meta_at(offset.wrapping_add(1))?;
             reader.try_resolve_wz_string_meta(
                 &meta.string_type,
                 meta.offset,
-- 
2.43.0


From b6834e8d315b050fe611e26f2adc2e71866b4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 31/38] fix: decode bitmaps of any size and report payloads
 that do not fit as errors

---
 src/property/png.rs | 150 +++++++++++++++++++++-----------------------
 1 file changed, 71 insertions(+), 79 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index ff26d6e..26a57a9 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -2,7 +2,7 @@ use crate::property::string::resolve_string_from_node;
 use crate::util::color::{SimpleColor, SimpleColorAlpha};
 use crate::{
     property::WzSubProperty,
-    reader::{self, Reader},
+    reader::{self, get_decrypt_slice, slice_range},
     util::node_util,
     WzNodeArc, WzObjectType,
 };
@@ -34,6 +34,9 @@ pub enum WzPngParseError {
     #[error("Unsupported header: {0}")]
     UnsupportedHeader(i32),
 
+    #[error("Not enough pixel data, expected {0}")]
+    NotEnoughData(usize),
+
     #[error("Error reading color: {0}")]
     ReadColorError(#[from] reader::Error),
 
@@ -181,7 +184,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
@@ -193,7 +196,7 @@ impl WzPng {
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+            .get_slice_or_error(slice_range(self.offset, self.block_size))?;
         /* decompress */
         let pixels = self.get_raw_data(data)?;
 
@@ -219,24 +222,28 @@ impl WzPng {
         }
     }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
+        let (width, height) = (self.width as usize, self.height as usize);
+        let pixel_count = width.saturating_mul(height);
+        let block_count = width.div_ceil(4).saturating_mul(height.div_ceil(4));
+
         match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
             | WzPngFormat::RGB565
-            | WzPngFormat::R16 => Ok((self.width * self.height * 2) as usize),
-            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
-                Ok((self.width * self.height * 4) as usize)
-            }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
-                Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
+            | WzPngFormat::R16 => Ok(pixel_count.saturating_mul(2)),
+            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => Ok(pixel_count.saturating_mul(4)),
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
+                Ok(block_count.saturating_mul(16))
             }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
-            WzPngFormat::A8 => Ok((self.width * self.height) as usize),
-            WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
+            WzPngFormat::A8 => Ok(pixel_count),
+            WzPngFormat::RGBA32Float => Ok(pixel_count.saturating_mul(16)),
             WzPngFormat::RGB565_517 => {
-                /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
+                /* a color for each 16 * 16 pixels */
+                let size = (width / 16).saturating_mul(height / 16).saturating_mul(2);
+                if size == 0 && pixel_count > 0 {
+                    return Err(WzPngParseError::NotEnoughData(2));
+                }
+                Ok(size)
             }
             _ => Err(WzPngParseError::UnknownFormat(self.format())),
         }
@@ -255,44 +262,50 @@ impl WzPng {
         }
 
         // fallback to decryption and inflate
-        let mut keys = self.reader.keys.write().unwrap();
-
-        let total_end = self.offset + self.block_size;
+        let mut decrypted = Vec::with_capacity(data.len());
+        let mut offset = 0;
 
-        let mut offset = self.offset;
-        let mut end = 0;
-
-        let mut decrypted = Vec::with_capacity(self.block_size);
-
-        while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+        while offset < data.len() {
+            let block_size = reader::read_i32_at(data, offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
-            offset += block_size;
-
-            decrypted.extend_from_slice(data);
-
-            keys.ensure_key_size(data.len()).unwrap();
-
-            keys.decrypt_slice(&mut decrypted[end..(end + block_size)]);
+            let range = slice_range(offset, block_size);
+            let end = range.end;
+            let block = data
+                .get(range)
+                .ok_or(reader::Error::OutOfBounds(end, data.len()))?;
+            offset = end;
 
-            end += block_size;
+            decrypted.extend(get_decrypt_slice(block, block_size, &self.reader.keys)?);
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        let deflated = decrypted
+            .get(2..)
+            .ok_or(WzPngParseError::UnsupportedHeader(self.header))?;
+        inflate(false, deflated, capacity)
     }
 }
 
+/// inflate exactly `size` bytes
 #[inline]
-fn inflate(with_header: bool, data: &[u8], capacity: usize) -> Result<Vec<u8>, WzPngParseError> {
+fn inflate(with_header: bool, data: &[u8], size: usize) -> Result<Vec<u8>, WzPngParseError> {
+    /* deflate can't get any better than 1032 : 1 */
+    if size > data.len().saturating_mul(1032) {
+        return Err(WzPngParseError::NotEnoughData(size));
+    }
+
     let mut deflater = Decompress::new(with_header);
-    let mut result = Vec::with_capacity(capacity);
+    let mut result = Vec::with_capacity(size);
 
-    if let Err(e) = deflater.decompress_vec(data, &mut result, FlushDecompress::Sync) {
-        return Err(WzPngParseError::from(e));
-    };
+    if size > 0 {
+        deflater.decompress_vec(data, &mut result, FlushDecompress::Sync)?;
+    }
+
+    if result.len() < size {
+        return Err(WzPngParseError::NotEnoughData(size));
+    }
+    result.truncate(size);
 
     Ok(result)
 }
@@ -393,7 +406,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -415,7 +428,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = (y / 4 * width.div_ceil(4) + x / 4) as usize * 16;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -425,8 +438,8 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -490,7 +503,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -513,7 +526,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = (y / 4 * width.div_ceil(4) + x / 4) as usize * 16;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -524,8 +537,8 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -546,39 +559,18 @@ fn get_image_from_dxt5(
 }
 
 fn get_pixel_data_form_517(raw_data: &[u8], width: u32, height: u32) -> Vec<u8> {
+    let (width, height) = (width as usize, height as usize);
     /* pixels is 256 times of raw_data */
-    let mut pixels: Vec<u8> = vec![0; (width * height * 2) as usize];
-    let mut line_index: usize = 0;
-    // 16 probably means rgb565, it store 2 bytes for each pixel.
-    let j_steps = (height / 16) as usize;
-    let i_steps = (width / 16) as usize;
-    for j in 0..j_steps {
-        let mut dst_idx = line_index;
-        for i in 0..i_steps {
-            let idx = (i + j * i_steps) * 2;
-
-            for _ in 0..16 {
-                pixels[dst_idx] = raw_data[idx];
-                dst_idx += 1;
-                pixels[dst_idx] = raw_data[idx + 1];
-                dst_idx += 1;
-            }
-        }
-        // dst_idx totally add (width / 16) * 2 * 16 => width * 2 here
-
-        // copy data from previous loop to next 16 chunks
-        // don't know why it start from 1, and plus 32(16*2) later.
-        for _ in 1..16 {
-            let copy_len = (width * 2) as usize;
-            let source_range = line_index..(line_index + copy_len);
-            // copy source_range to dst_idx..(dst_idx + copy_len), and dst_idx would add copy_len in this loop.
-            for suroce_idx in source_range {
-                pixels[dst_idx] = pixels[suroce_idx];
-                dst_idx += 1;
-            }
+    let mut pixels: Vec<u8> = vec![0; width * height * 2];
+    // every rgb565 color of raw_data, which is 2 bytes, fills 16 * 16 pixels
+    let j_steps = height / 16;
+    let i_steps = width / 16;
+    for y in 0..j_steps * 16 {
+        for x in 0..i_steps * 16 {
+            let idx = (x / 16 + y / 16 * i_steps) * 2;
+            let dst_idx = (x + y * width) * 2;
+            pixels[dst_idx..dst_idx + 2].copy_from_slice(&raw_data[idx..idx + 2]);
         }
-
-        line_index += (width * 32) as usize;
     }
 
     pixels
-- 
2.43.0


From ea61fab4856e39341ee9246371254905072b1d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 32/38] fix: report scripts and texts that exceed their file as
 errors

---
 src/property/lua.rs   | 14 +++++++++-----
 src/property/sound.rs |  8 +++++---
 src/wz_image.rs       | 16 +++++++++++++---
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index c570724..6ce6012 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -1,5 +1,6 @@
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
 use crate::GLOBAL_STRING_DECRYPTOR;
+use crate::reader::{self, slice_range};
 use crate::{SharedWzStringDecryptor, WzReader};
 use std::sync::Arc;
 use thiserror::Error;
@@ -12,6 +13,9 @@ pub enum WzLuaParseError {
     #[error("Unknown Lua Iv")]
     UnknownLuaIv,
 
+    #[error("Error reading lua: {0}")]
+    ReadError(#[from] reader::Error),
+
     #[error("Not a Lua property")]
     NotLuaProperty,
 }
@@ -37,10 +41,10 @@ impl WzLua {
     pub fn extract_lua(&self) -> Result<String, WzLuaParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..self.length + self.offset);
+            .get_slice_or_error(slice_range(self.offset, self.length))?;
 
         let keys = self
-            .get_mtb_keys_from_guess_lua_iv()
+            .get_mtb_keys_from_guess_lua_iv(data)
             .ok_or(WzLuaParseError::UnknownLuaIv)?;
 
         let len = data.len();
@@ -57,9 +61,9 @@ impl WzLua {
     }
 
     /// try to guess the iv from encrypted data
-    fn get_mtb_keys_from_guess_lua_iv(&self) -> Option<SharedWzStringDecryptor> {
-        let len = std::cmp::min(64, self.length);
-        let test_data = self.reader.get_slice(self.offset..self.offset + len);
+    fn get_mtb_keys_from_guess_lua_iv(&self, data: &[u8]) -> Option<SharedWzStringDecryptor> {
+        let len = std::cmp::min(64, data.len());
+        let test_data = &data[..len];
 
         let mut ivs = [WZ_MSEAIV, WZ_GMSIV, [0, 0, 0, 0]];
 
diff --git a/src/property/sound.rs b/src/property/sound.rs
index a488e18..b425e12 100644
--- a/src/property/sound.rs
+++ b/src/property/sound.rs
@@ -112,14 +112,16 @@ impl WzSound {
     }
     pub fn get_wav_header(&self) -> Vec<u8> {
         let header = self.reader.get_slice(self.get_header_range());
-        let chunk_size = (self.length + 36).to_le_bytes();
-        let u8_16_from_header = &header[0x34..0x34 + 16];
+        let chunk_size = self.length.wrapping_add(36).to_le_bytes();
         let chunk2_size = self.length.to_le_bytes();
 
         let mut wav_header = WAV_HEADER.to_vec();
 
         wav_header[4..8].copy_from_slice(&chunk_size);
-        wav_header[20..36].copy_from_slice(u8_16_from_header);
+        // only the header of a wav is long enough to hold this
+        if let Some(u8_16_from_header) = header.get(0x34..0x34 + 16) {
+            wav_header[20..36].copy_from_slice(u8_16_from_header);
+        }
         wav_header[40..44].copy_from_slice(&chunk2_size);
 
         wav_header
diff --git a/src/wz_image.rs b/src/wz_image.rs
index e4d89db..b43110a 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -13,6 +13,8 @@ pub enum Error {
     LuaParseError,
     #[error("parse as wz image failed, pos at {0}")]
     ParseError(usize),
+    #[error("the data of image is out of the file, offset = {0}, size = {1}")]
+    InvalidSize(usize, usize),
     #[error("New Wz image header found. b = {0}, offset = {1}")]
     UnknownImageHeader(u8, usize),
     #[error("Wrong Wz Version")]
@@ -171,11 +173,19 @@ impl WzImage {
 
         let header_byte = reader.read_u8()?;
 
+        // images of text hand out their bytes as they are
+        let check_text_data = |start: usize| {
+            self.block_size
+                .checked_sub(start)
+                .filter(|_| reader.is_valid_pos(self.offset.saturating_add(self.block_size)))
+                .ok_or(Error::InvalidSize(self.offset, self.block_size))
+        };
+
         // there also has json, atlas, etc. but they all using WzString to store it, this guy is just raw text
         if self.name.ends_with(".txt") {
             let name: WzNodeName = String::from("text.txt").into();
 
-            let wz_raw_data = WzRawData::new(&self.reader, self.offset, self.block_size);
+            let wz_raw_data = WzRawData::new(&self.reader, self.offset, check_text_data(0)?);
             let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
             return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
@@ -203,7 +213,7 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset + 9)?
                         .iter()
                         .map(|&b| b as char),
                 );
@@ -212,7 +222,7 @@ impl WzImage {
                 }
                 let name: WzNodeName = String::from("text.txt").into();
                 let wz_raw_data =
-                    WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
+                    WzRawData::new(&self.reader, self.offset + 9, check_text_data(9)?);
                 let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
                 return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
-- 
2.43.0


From 42fd3811dc7b61f279ab31c667bd1ecc3054fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 33/38] fix: report damaged pack tables and entries as errors

---
 src/ms/file.rs         | 31 +++++++++++++++----
 src/ms/ms_image.rs     | 68 +++++++++++++++++++++---------------------
 src/ms/snow2_reader.rs |  4 +++
 3 files changed, 63 insertions(+), 40 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index e182590..41316f1 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -26,6 +26,10 @@ pub enum Error {
     ReaderError(#[from] reader::Error),
     #[error(transparent)]
     HeaderReadError(#[from] header::Error),
+    #[error("Invalid length of entry name: {0}")]
+    InvalidNameLength(i32),
+    #[error("Invalid entry count: {0}")]
+    InvalidEntryCount(i32),
     #[error("Unknown ms file, unable to parse")]
     UnknownMsFile,
 }
@@ -71,6 +75,10 @@ impl MsFile {
         })
     }
     pub fn parse(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        if self.header.entry_count < 0 {
+            return Err(Error::InvalidEntryCount(self.header.entry_count));
+        }
+
         match self.header.ms_file_version {
             1 => self.parse_v1(parent),
             2 => self.parse_v2(parent),
@@ -94,11 +102,12 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::new();
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name_len = checked_name_len(entry_name_len)?;
+            let entry_name = snow_reader.read_utf16_string(entry_name_len)?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -136,7 +145,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.saturating_add(image.offset.saturating_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -174,11 +183,12 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::<MsImage>::new();
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name_len = checked_name_len(entry_name_len)?;
+            let entry_name = chacha20_reader.read_utf16_string(entry_name_len)?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
@@ -219,7 +229,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.saturating_add(image.offset.saturating_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -234,3 +244,12 @@ impl MsFile {
             .collect())
     }
 }
+
+/// the byte length of a name, which is never empty
+fn checked_name_len(len: i32) -> Result<usize, Error> {
+    usize::try_from(len)
+        .ok()
+        .filter(|len| *len > 0)
+        .and_then(|len| len.checked_mul(2))
+        .ok_or(Error::InvalidNameLength(len))
+}
diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 29adce6..ba21d10 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -1,3 +1,4 @@
+use crate::reader::slice_range;
 use crate::{WzImage, WzReader};
 use c2_chacha::stream_cipher::{NewStreamCipher, SyncStreamCipher};
 use c2_chacha::Ietf;
@@ -53,14 +54,37 @@ impl MsImage {
 
     /// make a WzImage from the MsImage, this process will allocate a new buffer instead of using MsFile's buffer
     pub fn to_wz_image(&self) -> WzImage {
-        match self.meta.version {
-            1 => self.to_wz_image_v1(),
-            2 => self.to_wz_image_v2(),
-            _ => panic!("Invalid MsImage version: {}", self.meta.version),
+        let image_buffer = match self.meta.version {
+            1 => self.decrypt_v1(),
+            2 => self.decrypt_v2(),
+            _ => None,
+        };
+
+        // create a new allocate reader,but only grab the size of the image, not size_aligned
+        let block_size = self.meta.size as usize;
+        let image_data = image_buffer
+            .as_ref()
+            .and_then(|buffer| buffer.get(..block_size));
+        let image_reader = WzReader::from_buff(image_data.unwrap_or_default());
+
+        WzImage {
+            reader: Arc::new(image_reader),
+            name: self.meta.entry_name.clone().into(),
+            // nothing can be read for an entry that is out of the file, so parsing it will fail
+            offset: if image_data.is_some() { 0 } else { usize::MAX },
+            block_size,
+            is_parsed: false,
         }
     }
 
-    fn to_wz_image_v1(&self) -> WzImage {
+    fn get_encrypted_data(&self) -> Option<Vec<u8>> {
+        self.reader
+            .get_slice_or_error(slice_range(self.offset, self.block_size))
+            .ok()
+            .map(|data| data.to_owned())
+    }
+
+    fn decrypt_v1(&self) -> Option<Vec<u8>> {
         // calc snow key for entry
         let mut key_hash = 0x811C9DC5;
         for b in self.meta.key_salt.chars() {
@@ -87,10 +111,7 @@ impl MsImage {
                 .wrapping_add(char.wrapping_mul(digit.wrapping_add(ekey).wrapping_add(digit2)));
         }
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.get_encrypted_data()?;
 
         // decrypt initial 1024 bytes twice
         {
@@ -103,19 +124,10 @@ impl MsImage {
 
         snow_decryptor.decrypt_slice(&mut image_buffer[..]);
 
-        // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
-
-        WzImage {
-            reader: Arc::new(image_reader),
-            name: self.meta.entry_name.clone().into(),
-            offset: 0,
-            block_size: self.meta.size as usize,
-            is_parsed: false,
-        }
+        Some(image_buffer)
     }
 
-    fn to_wz_image_v2(&self) -> WzImage {
+    fn decrypt_v2(&self) -> Option<Vec<u8>> {
         // calc chacha20 key for entry
         let mut key_hash: u32 = 0x811C9DC5;
 
@@ -165,10 +177,7 @@ impl MsImage {
         nonce[4..].copy_from_slice(&key_hash_data[0..8]);
         let counter = u32::from_le_bytes(key_hash_data[8..12].try_into().unwrap());
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.get_encrypted_data()?;
 
         // only decrypt initial 1024 bytes
         {
@@ -181,15 +190,6 @@ impl MsImage {
             chacha20_cipher.apply_keystream(&mut image_buffer[..min_len]);
         }
 
-        // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
-
-        WzImage {
-            reader: Arc::new(image_reader),
-            name: self.meta.entry_name.clone().into(),
-            offset: 0,
-            block_size: self.meta.size as usize,
-            is_parsed: false,
-        }
+        Some(image_buffer)
     }
 }
diff --git a/src/ms/snow2_reader.rs b/src/ms/snow2_reader.rs
index dc67c5f..69fb5da 100644
--- a/src/ms/snow2_reader.rs
+++ b/src/ms/snow2_reader.rs
@@ -76,6 +76,10 @@ impl<'a> Snow2Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
+        let available = self.buffer_len + self.data.len().saturating_sub(self.offset);
+        if len > available {
+            return Err(Error::OutOfBounds(len, available));
+        }
         let mut vec = vec![0_u8; len];
 
         self.write_bytes_to(&mut vec, len)?;
-- 
2.43.0


From 8098c28b13a12744fbcdbcf57217e7d3e816a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 34/38] fix: bitmaps without pixels don't walk through their
 rows

---
 src/property/png.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/property/png.rs b/src/property/png.rs
index 26a57a9..1316a66 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -565,6 +565,9 @@ fn get_pixel_data_form_517(raw_data: &[u8], width: u32, height: u32) -> Vec<u8>
     // every rgb565 color of raw_data, which is 2 bytes, fills 16 * 16 pixels
     let j_steps = height / 16;
     let i_steps = width / 16;
+    if pixels.is_empty() {
+        return pixels;
+    }
     for y in 0..j_steps * 16 {
         for x in 0..i_steps * 16 {
             let idx = (x / 16 + y / 16 * i_steps) * 2;
-- 
2.43.0


From 663fea0b7901b8f108e9159fea4d069dec00e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 35/38] fix: data folders merge the parts of each archive only
 and report what can't be opened

---
 src/util/resolver.rs | 242 +++++++++++++++++++++++--------------------
 1 file changed, 128 insertions(+), 114 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..fe5943f 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -1,22 +1,72 @@
-use crate::{util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};
+use crate::{
+    file, node, util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast,
+};
 use std::fs::DirEntry;
 use std::io;
 use std::path::Path;
+use std::sync::Arc;
 
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     let dir_name = dir.file_name();
-    let mut inner_wz_name = dir_name.to_str().unwrap().to_string();
+    let mut inner_wz_name = dir_name.to_str()?.to_string();
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
-    if inner_wz_path.try_exists().is_ok() {
-        return Some(inner_wz_path.to_str().unwrap().to_string());
+    if inner_wz_path.is_file() {
+        return inner_wz_path.to_str().map(String::from);
     }
 
     None
 }
 
+fn into_io_error(error: node::Error) -> io::Error {
+    match error {
+        node::Error::WzFileParseError(file::Error::FileError(error)) => error,
+        error => io::Error::new(io::ErrorKind::InvalidData, error),
+    }
+}
+
+/// The directory a path is in.
+fn get_parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    }
+}
+
+/// All the things in a directory, always in same order.
+fn read_sorted_dir(dir: &Path) -> Result<Vec<DirEntry>, io::Error> {
+    let mut entries = dir.read_dir()?.collect::<Result<Vec<_>, _>>()?;
+    entries.sort_by_key(|entry| entry.file_name());
+    Ok(entries)
+}
+
+/// check is XXX_nnn.wz of XXX.wz
+fn is_part_of_wz_file(path: &Path, wz_name: &str) -> bool {
+    let Some((name, number)) = path
+        .file_stem()
+        .and_then(|stem| stem.to_str())
+        .and_then(|stem| stem.rsplit_once('_'))
+    else {
+        return false;
+    };
+
+    path.extension().unwrap_or_default() == "wz"
+        && path.is_file()
+        && name.eq_ignore_ascii_case(wz_name)
+        && number.parse::<u16>().is_ok()
+}
+
+/// Replace the original child, but keep everything it already has.
+fn replace_child(parent: &WzNodeArc, name: &str, node: WzNodeArc) {
+    let original = parent.write().unwrap().children.insert(name.into(), Arc::clone(&node));
+
+    if let Some(original) = original {
+        original.write().unwrap().transfer_childs(&node);
+    }
+}
+
 /// Resolve series of wz files in a directory, and merge *_nnn.wz files into one WzFile.
 pub fn resolve_root_wz_file_dir_full(
     dir: impl AsRef<Path>,
@@ -25,75 +75,46 @@ pub fn resolve_root_wz_file_dir_full(
     parent: Option<&WzNodeArc>,
     default_keys: Option<&SharedWzStringDecryptor>,
 ) -> Result<WzNodeArc, io::Error> {
-    let root_node: WzNodeArc =
-        WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
-            .into();
-    let wz_dir = dir.as_ref().parent().unwrap();
-
-    {
-        let mut root_node_write = root_node.write().unwrap();
-
-        root_node_write.parse(&root_node).unwrap();
-
-        for entry in wz_dir.read_dir()? {
-            let entry = entry?;
-            let file_type = entry.file_type()?;
-            let name = entry.file_name();
-
-            if file_type.is_dir() && root_node_write.at(name.to_str().unwrap()).is_some() {
-                if let Some(file_path) = get_root_wz_file_path(&entry) {
-                    let dir_node = resolve_root_wz_file_dir_full(
-                        &file_path,
-                        version,
-                        patch_version,
-                        Some(&root_node),
-                        default_keys,
-                    )?;
-
-                    /* replace the original one */
-                    root_node_write
-                        .children
-                        .insert(name.to_str().unwrap().into(), dir_node);
-                }
-            } else if file_type.is_file() {
-                //  check is XXX_nnn.wz
-                let file_path = entry.path();
-                let file_name = file_path.file_stem().unwrap().to_str().unwrap();
-
-                let splited = file_name.split('_').collect::<Vec<&str>>();
-
-                if splited.len() < 2 {
-                    continue;
-                }
-
-                if splited.last().unwrap().parse::<u16>().is_err() {
-                    continue;
-                }
-
-                let node = WzNode::from_wz_file_full(
-                    file_path.to_str().unwrap(),
-                    version,
-                    patch_version,
-                    None,
-                    default_keys,
-                )
-                .unwrap()
-                .into_lock();
-
-                let mut node_write = node.write().unwrap();
-
-                if node_write.parse(&root_node).is_ok() {
-                    root_node_write.children.reserve(node_write.children.len());
-                    #[cfg(not(feature = "indexmap"))]
-                    let iter = node_write.children.drain();
-                    #[cfg(feature = "indexmap")]
-                    let iter = node_write.children.drain(..);
-                    for (name, child) in iter {
-                        root_node_write.children.insert(name, child);
-                    }
-                }
-            }
+    let parse_wz_file = |path: &Path, parent: Option<&WzNodeArc>| {
+        let node =
+            WzNode::from_wz_file_full(path, version, patch_version, parent, default_keys)?.into_lock();
+        node.write().unwrap().parse(&node)?;
+        Ok(node)
+    };
+
+    let root_node = parse_wz_file(dir.as_ref(), parent).map_err(into_io_error)?;
+    let wz_name = root_node.read().unwrap().name.to_string();
+    let entries = read_sorted_dir(get_parent_dir(dir.as_ref()))?;
+
+    for entry in entries.iter() {
+        let path = entry.path();
+
+        if is_part_of_wz_file(&path, &wz_name) {
+            let node = parse_wz_file(&path, None).map_err(into_io_error)?;
+            node.write().unwrap().transfer_childs(&root_node);
+        }
+    }
+
+    for entry in entries.iter().filter(|entry| entry.path().is_dir()) {
+        let file_name = entry.file_name();
+        let Some(name) = file_name.to_str() else {
+            continue;
+        };
+
+        if root_node.read().unwrap().at(name).is_none() {
+            continue;
+        }
+
+        if let Some(file_path) = get_root_wz_file_path(entry) {
+            let dir_node = resolve_root_wz_file_dir_full(
+                &file_path,
+                version,
+                patch_version,
+                Some(&root_node),
+                default_keys,
+            )?;
+
+            replace_child(&root_node, name, dir_node);
         }
     }
 
@@ -127,53 +148,46 @@ pub fn resolve_base(
         (file.wz_file_meta.patch_version, file.reader.keys.clone())
     };
 
-    {
-        let mut base_write = base_node.write().unwrap();
+    let first_parent = get_parent_dir(path.as_ref());
+
+    // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
+    // if not, the other stuff just at same folder as Base.wz
+    let wz_root_path = if first_parent.file_name().unwrap_or_default() == "Base" {
+        get_parent_dir(first_parent)
+    } else {
+        first_parent
+    };
 
-        let first_parent = path.as_ref().parent().unwrap();
+    for item in read_sorted_dir(wz_root_path)? {
+        let path = item.path();
 
-        // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
-        // if not, the other stuff just at same folder as Base.wz
-        let wz_root_path = if first_parent.file_stem().unwrap() == "Base" {
-            first_parent.parent().unwrap()
+        let (name, wz_path) = if path.is_dir() {
+            (path.file_name(), get_root_wz_file_path(&item))
+        } else if path.extension().unwrap_or_default() == "wz" {
+            (path.file_stem(), path.to_str().map(String::from))
         } else {
-            first_parent
+            continue;
         };
 
-        for item in wz_root_path.read_dir()? {
-            let dir = item?;
-            let path = dir.path();
-            let file_name = path.file_stem().unwrap();
-
-            let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
-
-            // we only allow the thing is listed in Base.wz
-            let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
-
-            if has_dir && is_valid {
-                let wz_path = if dir.file_type()?.is_dir() {
-                    get_root_wz_file_path(&dir)
-                } else {
-                    Some(path.to_str().unwrap().to_string())
-                };
-
-                if let Some(file_path) = wz_path {
-                    let dir_node = resolve_root_wz_file_dir_full(
-                        &file_path,
-                        version,
-                        Some(patch_version),
-                        Some(&base_node),
-                        Some(&keys),
-                        // None,
-                    )?;
-
-                    /* replace the original one */
-                    base_write
-                        .children
-                        .insert(file_name.to_str().unwrap().into(), dir_node);
-                }
-            }
+        let (Some(name), Some(file_path)) = (name.and_then(|name| name.to_str()), wz_path) else {
+            continue;
+        };
+
+        // we only allow the thing is listed in Base.wz
+        if base_node.read().unwrap().at(name).is_none() {
+            continue;
         }
+
+        let dir_node = resolve_root_wz_file_dir_full(
+            &file_path,
+            version,
+            Some(patch_version),
+            Some(&base_node),
+            Some(&keys),
+            // None,
+        )?;
+
+        replace_child(&base_node, name, dir_node);
     }
 
     Ok(base_node)
-- 
2.43.0


From 028c703962bd695f934ed18ed01a9100644a00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 36/38] fix: relative paths that lead back to their node don't
 lock it again

---
 src/node.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 3ef84a1..451a231 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -474,12 +474,26 @@ impl WzNode {
         let mut pathes = path.split('/');
         let first = self.at_relative(pathes.next().unwrap());
         if let Some(first) = first {
-            pathes.try_fold(first, |node, name| node.read().unwrap().at_relative(name))
+            pathes.try_fold(first, |node, name| {
+                // the path might lead back to the node itself, which the caller has locked already
+                if self.is_inside(&node) {
+                    self.at_relative(name)
+                } else {
+                    node.read().unwrap().at_relative(name)
+                }
+            })
         } else {
             None
         }
     }
 
+    /// Check if the node is the one that `node` holds, without locking it.
+    fn is_inside(&self, node: &WzNodeArc) -> bool {
+        let start = Arc::as_ptr(node) as usize;
+        let end = start + std::mem::size_of::<RwLock<WzNode>>();
+        (start..end).contains(&(self as *const Self as usize))
+    }
+
     /// Get parent node by filter.
     ///
     /// # Examples
-- 
2.43.0


From f9ad3e8fcd6a802fda2d61a1099e3976e29c1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 37/38] fix: resolving an outlink only locks one node at a time

---
 src/node.rs           | 20 +++++++++++---------
 src/util/node_util.rs | 15 ++++++++++-----
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 451a231..71feea9 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -440,19 +440,21 @@ impl WzNode {
 
         let first = self.at(pathes.next().unwrap());
         if let Some(first) = first {
-            pathes.try_fold(first, |node, name| {
-                // node might be using by others, so only take the write lock when need to parse
-                if let Some(child) = node.read().unwrap().at(name) {
-                    return Ok(child);
-                }
-                let mut write = node.write().unwrap();
-                write.parse(&node)?;
-                write.at(name).ok_or(Error::NodeNotFound)
-            })
+            pathes.try_fold(first, |node, name| Self::at_parsed(&node, name))
         } else {
             Err(Error::NodeNotFound)
         }
     }
+    /// Get child node by name, the node will be parsed when it has no such child.
+    pub(crate) fn at_parsed(node: &WzNodeArc, name: &str) -> Result<WzNodeArc, Error> {
+        // node might be using by others, so only take the write lock when need to parse
+        if let Some(child) = node.read().unwrap().at(name) {
+            return Ok(child);
+        }
+        let mut write = node.write().unwrap();
+        write.parse(node)?;
+        write.at(name).ok_or(Error::NodeNotFound)
+    }
     /// Get node by path that include relative path like `../../b/c`.
     ///
     /// # Examples
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 716e73d..c0226c3 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -20,11 +20,16 @@ pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
 pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Option<WzNodeArc> {
     let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
 
-    if force_parse {
-        parent_wz_base.read().unwrap().at_path_parsed(path).ok()
-    } else {
-        parent_wz_base.read().unwrap().at_path(path)
-    }
+    // only lock one node at a time, others might be looking up from the nodes on the path
+    let mut pathes = path.split('/');
+    let first = parent_wz_base.read().unwrap().at(pathes.next()?);
+    pathes.try_fold(first?, |node, name| {
+        if force_parse {
+            WzNode::at_parsed(&node, name).ok()
+        } else {
+            node.read().unwrap().at(name)
+        }
+    })
 }
 
 #[inline]
-- 
2.43.0


From 8b88822b64109b4d3b7d7553637b84ceff6bbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 38/38] fix: read on behind the payload of a bitmap, raw data
 or video inside a convex list

---
 src/util/parse_property.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 2d966a1..d0daa9d 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -306,6 +306,8 @@ pub fn parse_more(
                 pages,
             );
             node.write().unwrap().object_type = wz_png.into();
+            // what follows in a list without block sizes starts behind the payload
+            reader.seek(canvas_offset.saturating_add(canvas_slice_size));
 
             Ok((property_name, node, uol_nodes))
         }
@@ -444,6 +446,7 @@ pub fn parse_more(
 
             node.write().unwrap().object_type =
                 WzRawData::new(org_reader, raw_data_offset, raw_data_size).into();
+            reader.seek(raw_data_offset + raw_data_size);
 
             Ok((property_name, node, uol_nodes))
         }
@@ -454,6 +457,7 @@ pub fn parse_more(
             let video_offset = reader.pos.get();
             let video_size = check_data_size(reader, video_offset, video_size)?;
             // pos - size shoud same as end_of_block
+            reader.seek(video_offset + video_size);
             let node = WzNode::new(
                 &property_name,
                 WzVideo::new(org_reader, video_offset, video_size),
-- 
2.43.0

