From 82a9d8258ba9eb2ce7ae6d7bb62bcf0817334ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 01/43] fix: write back game items of unknown type instead of
 panicking

---
 src/vpx/gameitem.rs         |  6 +-----
 src/vpx/gameitem/generic.rs | 12 +++++++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vpx/gameitem.rs b/src/vpx/gameitem.rs
index ac64dd7..75fed18 100644
--- a/src/vpx/gameitem.rs
+++ b/src/vpx/gameitem.rs
@@ -914,11 +914,7 @@ pub(crate) fn write(gameitem: &GameItemEnum) -> Vec<u8> {
         GameItemEnum::HitTarget(hittarget) => write_with_type(ITEM_TYPE_HIT_TARGET, hittarget),
         GameItemEnum::Ball(ball) => write_with_type(ITEM_TYPE_BALL, ball),
         GameItemEnum::PartGroup(partgroup) => write_with_type(ITEM_TYPE_PART_GROUP, partgroup),
-        // GameItemEnum::Generic(item_type, generic) => write_with_type(*item_type, generic),
-        _ => {
-            unimplemented!("write gameitem {:?}", gameitem);
-            //vec![]
-        }
+        GameItemEnum::Generic(item_type, generic) => write_with_type(*item_type, generic),
     }
 }
 
diff --git a/src/vpx/gameitem/generic.rs b/src/vpx/gameitem/generic.rs
index c4a7bbb..2524258 100644
--- a/src/vpx/gameitem/generic.rs
+++ b/src/vpx/gameitem/generic.rs
@@ -1,4 +1,4 @@
-use crate::vpx::biff::{self, BiffRead, BiffReader};
+use crate::vpx::biff::{self, BiffRead, BiffReader, BiffWrite, BiffWriter};
 use serde::{Deserialize, Serialize};
 
 use super::GameItem;
@@ -74,3 +74,13 @@ impl BiffRead for Generic {
         Self { name, fields }
     }
 }
+
+impl BiffWrite for Generic {
+    fn biff_write(&self, writer: &mut BiffWriter) {
+        writer.write_tagged_wide_string("NAME", &self.name);
+        for (tag, data) in &self.fields {
+            writer.write_tagged_data(tag, data);
+        }
+        writer.close(true);
+    }
+}
-- 
2.43.0


From 448d2440145139eeeb827e21682c75084fae96b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 02/43] fix: keep the EFSS record position when a CLMO record
 precedes it

---
 src/vpx/gamedata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/gamedata.rs b/src/vpx/gamedata.rs
index 9834893..d76c855 100644
--- a/src/vpx/gamedata.rs
+++ b/src/vpx/gamedata.rs
@@ -2115,7 +2115,7 @@ pub fn read_all_gamedata_records(input: &[u8], version: &Version) -> GameData {
             "SCLY" => gamedata.bg_scale_y_desktop = reader.get_f32(),
             "SCLZ" => gamedata.bg_scale_z_desktop = reader.get_f32(),
             "EFSS" => {
-                if version.u32() == 1080 && previous_tag != "BOTM" {
+                if version.u32() == 1080 && previous_tag != "BOTM" && previous_tag != "CLMO" {
                     gamedata.is_10_8_0_beta1_to_beta4 = true;
                 }
                 gamedata.bg_enable_fss = Some(reader.get_bool())
-- 
2.43.0


From e7ffcfc4faaa0cbf00f8f0cbbf2a73a34b725b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 03/43] fix: report only the bitmaps that images_to_webp
 converted

---
 src/vpx/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 3ab9304..02a10a1 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -1073,12 +1073,12 @@ fn images_to_webp<F: Read + Write + Seek>(
                     image_data.bits = None;
                     image_data.jpeg = Some(jpg);
                     write_image(comp, index as usize, &image_data, true)?;
+                    conversions.push(ImageToWebpConversion {
+                        name: image_data.name.clone(),
+                        old_extension: "bmp".to_string(),
+                        new_extension: "webp".to_string(),
+                    });
                 }
-                conversions.push(ImageToWebpConversion {
-                    name: image_data.name.clone(),
-                    old_extension: "bmp".to_string(),
-                    new_extension: "webp".to_string(),
-                });
             }
             _ => {}
         }
-- 
2.43.0


From 6d19c54984383270699e4f45b06c1c594b6de001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 04/43] fix: do not cut bitmap data at bytes that only look
 like the ALTV tag

---
 src/vpx/biff.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 2f18fc0..c15082e 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -484,12 +484,26 @@ impl<'a> BiffReader<'a> {
         }
     }
 
+    /// Whether the bytes at `tag_pos` are preceded by the length of a record
+    /// that starts there and ends within the data.
+    fn is_record_tag_at(&self, tag_pos: usize) -> bool {
+        if tag_pos < self.pos + 4 {
+            return false;
+        }
+        let mut size = [0u8; 4];
+        size.copy_from_slice(&self.data[tag_pos - 4..tag_pos]);
+        let size = u32::from_le_bytes(size);
+        size >= RECORD_TAG_LEN && size as usize <= self.data.len() - tag_pos
+    }
+
     pub fn data_until(&mut self, tag: &[u8]) -> Vec<u8> {
         // read bytes until we see tag and return it, put pos to the beginning of the tag
         let mut pos = self.pos;
         let mut found = false;
         while pos < self.data.len() {
-            if &self.data[pos..pos + tag.len()] == tag {
+            // the data can contain the tag bytes by chance, so also require a
+            // plausible record length in front of them
+            if &self.data[pos..pos + tag.len()] == tag && self.is_record_tag_at(pos) {
                 found = true;
                 break;
             }
-- 
2.43.0


From 523fce2c5004f067b66f798a9b74d739b46a70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:28 +0000
Subject: [PATCH 05/43] fix: give duplicate images and sounds sanitized and
 unique file names

The file name of the second image or sound with the same name was derived
from the unsanitized name, so a table could make extraction write outside
of its directory or to an invalid file name. The new name was also not
checked against other assets, so extraction failed if one was named
like that.
---
 src/vpx/expanded/images.rs | 17 ++++++-----------
 src/vpx/expanded/sounds.rs | 17 ++++++-----------
 src/vpx/expanded/util.rs   | 21 +++++++++++++++++++++
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 17d7245..d53ab08 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -4,13 +4,12 @@ use crate::filesystem::FileSystem;
 use crate::vpx::image::{ImageData, ImageDataJson, swap_red_and_blue, vpx_image_to_dynamic_image};
 use crate::vpx::lzw::to_lzw_blocks;
 use log::{debug, info, warn};
-use std::collections::HashSet;
 use std::ffi::OsStr;
 use std::io::{self, BufRead, Seek, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileNames, read_json, sanitize_filename};
 
 struct ImageBmp {
     width: u32,
@@ -27,8 +26,7 @@ pub(super) fn write_images<P: AsRef<Path>>(
 
     let images_index_path = expanded_dir.as_ref().join("images.json");
     let mut images_index_file = fs.create_buffered_file(&images_index_path)?;
-    let mut image_names_lower: HashSet<String> = HashSet::new();
-    let mut image_names_dupe_counter = 0;
+    let mut unique_names = UniqueFileNames::default();
     let mut json_images = Vec::with_capacity(images.len());
     let images_list: io::Result<Vec<(String, &ImageData)>> = images
         .iter()
@@ -51,17 +49,14 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(name_sanitized.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if image_names_lower.contains(&lower_name) {
-                image_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", image.name, image_names_dupe_counter);
+            let name_unique = unique_names.ensure_unique(&name_sanitized);
+            if name_unique != name_sanitized {
                 info!(
                     "Image name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
+                    name_sanitized, name_unique
                 );
-                json.name_dedup = Some(name_dedup);
+                json.name_dedup = Some(name_unique);
             }
-            image_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&image.name);
             let file_name = format!("{}.{}", actual_name, image.ext());
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index be8af44..03b0384 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -3,12 +3,11 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::sound::{SoundData, SoundDataJson, read_sound, write_sound};
 use log::info;
-use std::collections::HashSet;
 use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileNames, read_json, sanitize_filename};
 
 pub(super) fn write_sounds<P: AsRef<Path>>(
     sounds: &[SoundData],
@@ -17,8 +16,7 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let sounds_index_path = expanded_dir.as_ref().join("sounds.json");
     let mut sounds_index_file = fs.create_buffered_file(&sounds_index_path)?;
-    let mut sound_names_lower: HashSet<String> = HashSet::new();
-    let mut sound_names_dupe_counter = 0;
+    let mut unique_names = UniqueFileNames::default();
     let mut json_sounds = Vec::with_capacity(sounds.len());
     let sounds: Vec<(String, &SoundData)> = sounds
         .iter()
@@ -32,17 +30,14 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(name_sanitized.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if sound_names_lower.contains(&lower_name) {
-                sound_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", sound.name, sound_names_dupe_counter);
+            let name_unique = unique_names.ensure_unique(&name_sanitized);
+            if name_unique != name_sanitized {
                 info!(
                     "Sound name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
+                    name_sanitized, name_unique
                 );
-                json.name_dedup = Some(name_dedup);
+                json.name_dedup = Some(name_unique);
             }
-            sound_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&name_sanitized);
             let file_name = format!("{}.{}", actual_name, sound.ext());
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 9dc8f95..3e9810e 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -2,6 +2,7 @@
 
 use crate::filesystem::FileSystem;
 use serde::de;
+use std::collections::HashSet;
 use std::io;
 use std::path::Path;
 
@@ -14,6 +15,26 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// Hands out file names (without extension) that are unique, ignoring case
+#[derive(Default)]
+pub(super) struct UniqueFileNames {
+    used_names_lowercase: HashSet<String>,
+    dupe_counter: usize,
+}
+
+impl UniqueFileNames {
+    /// Returns the already sanitized name if it is still free, otherwise a variant of it
+    /// that is not used yet.
+    pub(super) fn ensure_unique(&mut self, name_sanitized: &str) -> String {
+        let mut name = name_sanitized.to_string();
+        while !self.used_names_lowercase.insert(name.to_lowercase()) {
+            self.dupe_counter += 1;
+            name = format!("{}_dedup{}", name_sanitized, self.dupe_counter);
+        }
+        name
+    }
+}
+
 /// Read and parse a JSON file from the filesystem
 pub(super) fn read_json<P: AsRef<Path>, T>(json_path: P, fs: &dyn FileSystem) -> io::Result<T>
 where
-- 
2.43.0


From 2a2115be9d6eb199eb9f1699b14a77aed8af24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:55 +0000
Subject: [PATCH 06/43] fix: extract every font to its own file

Fonts with the same name (or names that only differ in case or in
characters that are not valid in a file name) overwrote each other on
extraction, so a reassembled table had the wrong font data.
---
 src/vpx/expanded/fonts.rs | 52 ++++++++++++++++++++++++++-------------
 src/vpx/font.rs           |  4 +++
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 40396ee..46dc630 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -7,7 +7,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileNames, read_json, sanitize_filename};
 
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
@@ -16,19 +16,38 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let fonts_json_path = expanded_dir.as_ref().join("fonts.json");
     let mut fonts_index_file = fs.create_buffered_file(&fonts_json_path)?;
-    let fonts_index: Vec<FontDataJson> = fonts.iter().map(FontDataJson::from_font_data).collect();
+    let mut unique_names = UniqueFileNames::default();
+    let mut file_names = Vec::with_capacity(fonts.len());
+    let fonts_index: Vec<FontDataJson> = fonts
+        .iter()
+        .map(|font| {
+            let mut json = FontDataJson::from_font_data(font);
+            let name_sanitized = sanitize_filename(&font.name);
+            let name_unique = unique_names.ensure_unique(&name_sanitized);
+            file_names.push(format!("{}.{}", name_unique, font.ext()));
+            if name_unique != name_sanitized {
+                info!(
+                    "Font name {} is not unique, renaming file to {}",
+                    name_sanitized, name_unique
+                );
+                json.name_dedup = Some(name_unique);
+            }
+            json
+        })
+        .collect();
     serde_json::to_writer_pretty(&mut fonts_index_file, &fonts_index)?;
     fonts_index_file.flush()?;
 
     let fonts_dir = expanded_dir.as_ref().join("fonts");
     fs.create_dir_all(&fonts_dir)?;
-    fonts.iter().try_for_each(|font| {
-        let sanitized_name = sanitize_filename(&font.name);
-        let file_name = format!("{}.{}", sanitized_name, font.ext());
-        let font_path = fonts_dir.join(file_name);
-        let mut file = fs.create_file(&font_path)?;
-        file.write_all(&font.data)
-    })?;
+    fonts
+        .iter()
+        .zip(&file_names)
+        .try_for_each(|(font, file_name)| {
+            let font_path = fonts_dir.join(file_name);
+            let mut file = fs.create_file(&font_path)?;
+            file.write_all(&font.data)
+        })?;
     Ok(())
 }
 
@@ -42,16 +61,15 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         return Ok(vec![]);
     }
     let fonts_json: Vec<FontDataJson> = read_json(fonts_index_path, fs)?;
-    let fonts_index: Vec<FontData> = fonts_json
-        .iter()
-        .map(|font_data_json| font_data_json.to_font_data())
-        .collect();
     let fonts_dir = expanded_dir.as_ref().join("fonts");
-    let fonts: io::Result<Vec<FontData>> = fonts_index
+    let fonts: io::Result<Vec<FontData>> = fonts_json
         .into_iter()
-        .map(|mut font| {
-            let sanitized_name = sanitize_filename(&font.name);
-            let file_name = format!("{}.{}", sanitized_name, font.ext());
+        .map(|font_data_json| {
+            let mut font = font_data_json.to_font_data();
+            let file_name = font_data_json
+                .name_dedup
+                .unwrap_or_else(|| sanitize_filename(&font.name));
+            let file_name = format!("{}.{}", file_name, font.ext());
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 3b195aa..6d26bf3 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -16,6 +16,9 @@ pub struct FontData {
 pub(crate) struct FontDataJson {
     name: String,
     path: String,
+    // file name (without extension) in case the name is not unique
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub(crate) name_dedup: Option<String>,
 }
 
 impl FontDataJson {
@@ -23,6 +26,7 @@ impl FontDataJson {
         Self {
             name: font_data.name.clone(),
             path: font_data.path.clone(),
+            name_dedup: None,
         }
     }
     pub fn to_font_data(&self) -> FontData {
-- 
2.43.0


From f2284b2fae04735bdd8a77ef052aaf99c1256b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:03 +0000
Subject: [PATCH 07/43] fix: take the extension of image and font paths from
 the file name

With a path like "/home/a.b/image" the extension was "b/image", so the
extracted file ended up in a directory that does not exist.
---
 src/vpx/font.rs  | 4 +++-
 src/vpx/image.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 6d26bf3..1fa47f8 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -52,7 +52,9 @@ impl fmt::Debug for FontData {
 impl FontData {
     pub(crate) fn ext(&self) -> String {
         // TODO we might want to also check the jpeg fsPath
-        match self.path.split('.').next_back() {
+        // the path can hold the separators of any platform
+        let file_name = self.path.rsplit(['/', '\\']).next().unwrap_or_default();
+        match file_name.split('.').next_back() {
             Some(ext) => ext.to_string(),
             None => "bin".to_string(),
         }
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 70921b7..1e6aedc 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -173,7 +173,9 @@ impl ImageData {
 
     pub fn ext(&self) -> String {
         // TODO we might want to also check the jpeg fsPath
-        match self.path.split('.').next_back() {
+        // the path can hold the separators of any platform
+        let file_name = self.path.rsplit(['/', '\\']).next().unwrap_or_default();
+        match file_name.split('.').next_back() {
             Some(ext) => ext.to_string(),
             None => "bin".to_string(),
         }
@@ -317,7 +319,9 @@ impl ImageDataJson {
 
     pub(crate) fn ext(&self) -> String {
         // TODO we might want to also check the jpeg fsPath
-        match self.path.split('.').next_back() {
+        // the path can hold the separators of any platform
+        let file_name = self.path.rsplit(['/', '\\']).next().unwrap_or_default();
+        match file_name.split('.').next_back() {
             Some(ext) => ext.to_string(),
             None => "bin".to_string(),
         }
-- 
2.43.0


From 3fb2cbccbc745a0720aa62dec11d0a9ae5cca84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:03 +0000
Subject: [PATCH 08/43] fix: do not mistake a primitive for an animation frame
 of another one

The mesh file of a primitive named "X_anim_0" had the same name as the
first animation frame of a primitive named "X".
---
 src/vpx/expanded/gameitems.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 948f7a6..4b4b91b 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -139,10 +139,20 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+    if ends_like_animation_frame(&name) {
+        // would be mistaken for an animation frame of another primitive
+        name.push('_');
+    }
     let file_name = format!("{}.{}", gameitem.type_name(), name);
     file_name_gen.ensure_unique(file_name)
 }
 
+/// True for names ending on the `_anim_<index>` suffix used for animation frame files
+fn ends_like_animation_frame(name: &str) -> bool {
+    name.rsplit_once("_anim_")
+        .is_some_and(|(_, index)| !index.is_empty() && index.chars().all(|c| c.is_ascii_digit()))
+}
+
 pub(super) fn read_gameitems<P: AsRef<Path>>(
     expanded_dir: &P,
     fs: &dyn FileSystem,
-- 
2.43.0


From 4667720a5020387923f57aae53c135afa43dc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:57 +0000
Subject: [PATCH 09/43] fix: keep line breaks in a name out of the extracted
 OBJ file

The remainder of the name became a line of its own that can not be read
back on assembly.
---
 src/vpx/obj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 4be9231..599cd63 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -125,7 +125,8 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         vpx_vertices.len(),
         vpx_indices.len()
     ))?;
-    obj_writer.write_object_name(name)?;
+    // a line break in the name would end the object statement
+    obj_writer.write_object_name(name.replace(['\r', '\n'], " "))?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
         obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
-- 
2.43.0


From f0bc1c86fb16290d0227bbcc7a3d713da13b6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:57 +0000
Subject: [PATCH 10/43] fix: do not extract an asset to a file without a name

For a name without any valid character and a path without extension the
file name was ".", which is the directory itself.
---
 src/vpx/expanded/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 3e9810e..6b26dc0 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -24,10 +24,10 @@ pub(super) struct UniqueFileNames {
 
 impl UniqueFileNames {
     /// Returns the already sanitized name if it is still free, otherwise a variant of it
-    /// that is not used yet.
+    /// that is not used yet. An empty name is never used.
     pub(super) fn ensure_unique(&mut self, name_sanitized: &str) -> String {
         let mut name = name_sanitized.to_string();
-        while !self.used_names_lowercase.insert(name.to_lowercase()) {
+        while name.is_empty() || !self.used_names_lowercase.insert(name.to_lowercase()) {
             self.dupe_counter += 1;
             name = format!("{}_dedup{}", name_sanitized, self.dupe_counter);
         }
-- 
2.43.0


From 6d775715a13fb8d5c4587adec73d11fc7c318095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 11/43] fix: write info.json and font styles of the expanded
 format in a stable order

---
 src/vpx/gameitem/font.rs | 11 ++++++-----
 src/vpx/jsonmodel.rs     |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/vpx/gameitem/font.rs b/src/vpx/gameitem/font.rs
index 77f1ac9..4f9da88 100644
--- a/src/vpx/gameitem/font.rs
+++ b/src/vpx/gameitem/font.rs
@@ -1,6 +1,6 @@
 use crate::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
 use serde::{Deserialize, Serialize};
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 
 // from https://github.com/wine-mirror/wine/blob/f38a32e64c00600a5252fe0b9ca1ca42208bd6fe/dlls/oleaut32/olefont.c#L1546-L1566
 /************************************************************************
@@ -35,7 +35,7 @@ use std::collections::HashSet;
  * - 0x04: underline
  * - 0x08: strikethrough
  */
-#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, Hash, Eq)]
+#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, Hash, Eq, PartialOrd, Ord)]
 #[cfg_attr(test, derive(fake::Dummy))]
 pub enum FontStyle {
     Normal,
@@ -137,7 +137,8 @@ pub struct Font {
 pub(crate) struct FontJson {
     #[serde(skip_serializing_if = "Option::is_none")]
     charset: Option<u16>,
-    style: HashSet<FontStyle>,
+    // sorted, so that the same font always gives the same JSON
+    style: BTreeSet<FontStyle>,
     weight: u16,
     size: u32,
     name: String,
@@ -150,7 +151,7 @@ impl FontJson {
         };
         Self {
             charset,
-            style: font.style.clone(),
+            style: font.style.iter().cloned().collect(),
             weight: font.weight,
             size: font.size,
             name: font.name.clone(),
@@ -159,7 +160,7 @@ impl FontJson {
     pub fn to_font(&self) -> Font {
         Font {
             charset: self.charset.unwrap_or(CHARSET_ANSI),
-            style: self.style.clone(),
+            style: self.style.iter().cloned().collect(),
             weight: self.weight,
             size: self.size,
             name: self.name.clone(),
diff --git a/src/vpx/jsonmodel.rs b/src/vpx/jsonmodel.rs
index dc1442c..c2f5e95 100644
--- a/src/vpx/jsonmodel.rs
+++ b/src/vpx/jsonmodel.rs
@@ -1,6 +1,6 @@
 use serde::{Deserialize, Serialize};
 use serde_json::to_value;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::vpx::collection::Collection;
 use crate::vpx::custominfotags::CustomInfoTags;
@@ -32,7 +32,8 @@ struct TableInfoJson {
     author_website: Option<String>,
     table_save_date: Option<String>,
     table_description: Option<String>,
-    properties: HashMap<String, String>,
+    // sorted, so that the same table always gives the same JSON
+    properties: BTreeMap<String, String>,
     // since the ordering is important, we need to keep track of it
     properties_order: Vec<String>,
 }
@@ -54,7 +55,7 @@ pub fn info_to_json(
         author_website: table_info.author_website.clone(),
         table_save_date: table_info.table_save_date.clone(),
         table_description: table_info.table_description.clone(),
-        properties: table_info.properties.clone(),
+        properties: table_info.properties.clone().into_iter().collect(),
         properties_order: custom_info_tags.clone(),
     };
     to_value(info_json).unwrap()
@@ -78,7 +79,7 @@ pub fn json_to_info(
         author_website: info_json.author_website,
         table_save_date: info_json.table_save_date,
         table_description: info_json.table_description,
-        properties: info_json.properties,
+        properties: info_json.properties.into_iter().collect(),
     };
     let custom_info_tags = info_json.properties_order;
     Ok((table_info, custom_info_tags))
-- 
2.43.0


From db8d8f08b263927eab857c9c4e5da00e2f38dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 12/43] fix: write the custom info properties in a stable order

---
 src/vpx/tableinfo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index 4252ed3..48ce3ab 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -199,8 +199,11 @@ pub(crate) fn write_tableinfo<F: Read + Write + Seek>(
         })
         .unwrap_or(Ok(()))?;
 
-    // write properties
-    for (key, value) in &table_info.properties {
+    // write properties, in a stable order so that the same table always
+    // gives the same file
+    let mut properties: Vec<_> = table_info.properties.iter().collect();
+    properties.sort();
+    for (key, value) in properties {
         write_stream_string(comp, table_info_path.join(key).as_path(), value)?;
     }
 
-- 
2.43.0


From 66571e6165b2a393f0eb5bf339ef555df449d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 13/43] fix: write materials and layers of glTF exports in a
 stable order

---
 src/vpx/export/gltf_export.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 20b3a3d..ca80f4c 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -129,7 +129,7 @@ use crate::vpx::{TableDimensions, VPX};
 use byteorder::{LittleEndian, WriteBytesExt};
 use log::{info, warn};
 use serde_json::{Value, json};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io;
 use std::path::Path;
 use vpx::mesh::decals::build_decal_mesh;
@@ -382,8 +382,9 @@ struct GltfMaterial {
 }
 
 /// Collect all materials from a VPX file
-fn collect_materials(vpx: &VPX) -> HashMap<String, GltfMaterial> {
-    let mut materials = HashMap::new();
+fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
+    // sorted, so that the same table always gives the same file
+    let mut materials = BTreeMap::new();
 
     // Try new format first (10.8+)
     if let Some(ref mats) = vpx.gamedata.materials {
@@ -659,7 +660,7 @@ fn playfield_material(
     vpx: &VPX,
     playfield_image: &ImageData,
     playfield_material_name: &str,
-    materials: &HashMap<String, GltfMaterial>,
+    materials: &BTreeMap<String, GltfMaterial>,
     gltf_samplers: &mut Vec<serde_json::Value>,
     gltf_images: &mut Vec<serde_json::Value>,
     gltf_textures: &mut Vec<serde_json::Value>,
@@ -1923,7 +1924,7 @@ fn build_combined_gltf_payload(
     vpx: &VPX,
     meshes: &[NamedMesh],
     item_groups: Vec<ItemGroupInfo>,
-    materials: &HashMap<String, GltfMaterial>,
+    materials: &BTreeMap<String, GltfMaterial>,
     images: &[ImageData],
     playfield_image: Option<&ImageData>,
     playfield_material_name: &str,
@@ -2374,7 +2375,8 @@ fn build_combined_gltf_payload(
     let mut accessors = Vec::new();
 
     // Track layer groups: layer_name -> (layer_node_index, child_node_indices)
-    let mut layer_groups: HashMap<String, (usize, Vec<usize>)> = HashMap::new();
+    // (sorted, so that the same table always gives the same file)
+    let mut layer_groups: BTreeMap<String, (usize, Vec<usize>)> = BTreeMap::new();
     // Track meshes without a layer (will be at root level)
     let mut root_node_indices: Vec<usize> = Vec::new();
     // Track grouped meshes (e.g., light bulb/socket/insert): group_name -> child node indices
-- 
2.43.0


From d58063058b979fa0acebf8bcc5180031579358a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 14/43] fix: read the normals of a glTF mesh without
 vpx_normals extras

---
 src/vpx/gltf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index a452017..919382d 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -543,11 +543,14 @@ fn parse_gltf_payload(
         // Reconstruct the full 32-byte array
         let mut bytes = [0u8; 32];
 
-        // Write position (0-11)
-        let mut byte_cursor = std::io::Cursor::new(&mut bytes[0..12]);
+        // Write position (0-11) and normal (12-23)
+        let mut byte_cursor = std::io::Cursor::new(&mut bytes[0..24]);
         byte_cursor.write_f32::<LittleEndian>(x)?;
         byte_cursor.write_f32::<LittleEndian>(y)?;
         byte_cursor.write_f32::<LittleEndian>(z)?;
+        byte_cursor.write_f32::<LittleEndian>(nx)?;
+        byte_cursor.write_f32::<LittleEndian>(ny)?;
+        byte_cursor.write_f32::<LittleEndian>(nz)?;
 
         // Restore VPX normal bytes (12-23) from extras
         if let Some(ref normals) = vpx_normals
-- 
2.43.0


From 6be5992ba10d4018cd7f49a5fc495e903ff0042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 15/43] fix: keep NaN values of animation frames through mesh
 files

---
 src/vpx/expanded/primitives.rs | 38 +++++++++++++++++++++++++++-------
 src/vpx/obj.rs                 |  2 +-
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 49e39ed..f6d3dd0 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -13,8 +13,8 @@ use crate::vpx::gameitem::primitive::{
 use crate::vpx::gltf::{GltfContainer, read_gltf, write_gltf};
 use crate::vpx::model::Vertex3dNoTex2;
 use crate::vpx::obj::{
-    ObjData, ReadObjResult, VpxFace, read_obj as obj_read_obj, read_obj_from_reader, write_obj,
-    write_vertex_index_for_vpx,
+    ObjData, ReadObjResult, VpxCommentBytes, VpxFace, read_obj as obj_read_obj,
+    read_obj_from_reader, write_obj, write_vertex_index_for_vpx,
 };
 
 use crate::vpx::TableDimensions;
@@ -660,8 +660,7 @@ fn replace_vertices(
             full_vertex.nx = animation_vertex.nx;
             full_vertex.ny = animation_vertex.ny;
             full_vertex.nz = animation_vertex.nz;
-            // TODO we don't have a full representation of the vertex
-            VertexWrapper::new([0u8; 32], full_vertex)
+            VertexWrapper::new(full_vertex.to_vpx_bytes(), full_vertex)
         })
         .collect::<Vec<_>>();
     Ok(full_vertices)
@@ -912,6 +911,26 @@ fn read_mesh_as_frame(
     }
 }
 
+/// Restores the NaN values of an animation frame vertex from its preserved vpx bytes.
+///
+/// Only the NaN values are taken, earlier versions preserved zeros for animation frames.
+fn restore_nan_values(vertex: &mut VertData, vpx_encoded_vertex: &[u8; 32]) {
+    let values = [
+        &mut vertex.x,
+        &mut vertex.y,
+        &mut vertex.z,
+        &mut vertex.nx,
+        &mut vertex.ny,
+        &mut vertex.nz,
+    ];
+    for (value, bytes) in values.into_iter().zip(vpx_encoded_vertex.chunks_exact(4)) {
+        let preserved = f32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        if preserved.is_nan() {
+            *value = preserved;
+        }
+    }
+}
+
 fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<VertData>> {
     let obj_data = fs.read_file(obj_path)?;
     let mut reader = io::BufReader::new(io::Cursor::new(obj_data));
@@ -929,7 +948,7 @@ fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<Ver
         let nx = vn.x;
         let ny = vn.y;
         let nz = -(vn.z);
-        let vertext = VertData {
+        let mut vertext = VertData {
             x: v.0,
             y: v.1,
             z: -(v.2),
@@ -937,6 +956,9 @@ fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<Ver
             ny,
             nz,
         };
+        if let Some(VpxCommentBytes::Vertex(bytes)) = &vn.vpx_bytes {
+            restore_nan_values(&mut vertext, bytes);
+        }
         vertices.push(vertext);
     }
     Ok(vertices)
@@ -950,14 +972,16 @@ fn read_gltf_as_frame(
     let (vertices, _) = read_gltf(gltf_path, container, fs)?;
     let mut frames = Vec::with_capacity(vertices.len());
     for vertex in vertices {
-        frames.push(VertData {
+        let mut frame_vertex = VertData {
             x: vertex.vertex.x,
             y: vertex.vertex.y,
             z: vertex.vertex.z,
             nx: vertex.vertex.nx,
             ny: vertex.vertex.ny,
             nz: vertex.vertex.nz,
-        });
+        };
+        restore_nan_values(&mut frame_vertex, &vertex.vpx_encoded_vertex);
+        frames.push(frame_vertex);
     }
     Ok(frames)
 }
diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 599cd63..f9629dc 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -699,7 +699,7 @@ pub(crate) struct VpxObjNormal {
     pub(crate) z: f32,
     // in case the vertex had NaN or otherwise unrepresentable values, the
     // original vpx bytes from the preceding `# vpx <hex>` comment go here
-    vpx_bytes: Option<VpxCommentBytes>,
+    pub(crate) vpx_bytes: Option<VpxCommentBytes>,
 }
 impl VpxObjNormal {
     fn new(x: f32, y: f32, z: f32, vpx_bytes: Option<VpxCommentBytes>) -> Self {
-- 
2.43.0


From 15aaf8047008334436a16b4b9b102767f78c208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 16/43] fix: align the vertex data of every mesh in a glTF
 export

---
 src/vpx/export/gltf_export.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index ca80f4c..ca20f14 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2438,6 +2438,12 @@ fn build_combined_gltf_payload(
         }
         let indices_length = bin_data.len() - indices_offset;
 
+        // Pad to 4-byte alignment: an odd number of triangles with 16-bit
+        // indices would misalign the vertex data of the next mesh
+        while bin_data.len() % 4 != 0 {
+            bin_data.push(0);
+        }
+
         // Calculate bounds in glTF coordinate space (after transformation and scaling)
         // VPX (x, y, z) → glTF (x * scale, gltf_y = z * scale, y * scale)
         let (min_x, max_x, min_y, max_y, min_z, max_z) = mesh.vertices.iter().fold(
-- 
2.43.0


From 21ff84fb0e35f79d86f002e569f7b73ca7620f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 17/43] fix: export tables with a rubber that has fewer than
 two drag points

---
 src/vpx/mesh/rubbers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mesh/rubbers.rs b/src/vpx/mesh/rubbers.rs
index 684d9c1..e0b101c 100644
--- a/src/vpx/mesh/rubbers.rs
+++ b/src/vpx/mesh/rubbers.rs
@@ -121,7 +121,8 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
     let (_, middle_points) =
         get_spline_vertex(&rubber.drag_points, rubber.thickness as f32, accuracy);
 
-    let num_rings = middle_points.len() - 1; // splinePoints - 1
+    // no points at all when the outline has fewer than two drag points
+    let num_rings = middle_points.len().saturating_sub(1); // splinePoints - 1
     if num_rings < 1 {
         return None;
     }
-- 
2.43.0


From 4c9a7e5c3af8a7484f2d885a98f0615df3ca17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 18/43] fix: export tables whose playfield image is only a link

---
 src/vpx/export/gltf_export.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index ca20f14..679a8e4 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -659,6 +659,7 @@ fn calculate_playfield_roughness(reflection_strength: f32, fallback_roughness: f
 fn playfield_material(
     vpx: &VPX,
     playfield_image: &ImageData,
+    image_bytes: &[u8],
     playfield_material_name: &str,
     materials: &BTreeMap<String, GltfMaterial>,
     gltf_samplers: &mut Vec<serde_json::Value>,
@@ -667,8 +668,6 @@ fn playfield_material(
     buffer_views: &mut Vec<serde_json::Value>,
     bin_data: &mut Vec<u8>,
 ) -> Value {
-    let image_bytes = get_image_bytes(playfield_image).unwrap();
-
     // Add sampler
     let sampler_idx = gltf_samplers.len();
     gltf_samplers.push(json!({
@@ -680,7 +679,7 @@ fn playfield_material(
 
     // Write image data to binary buffer
     let image_offset = bin_data.len();
-    bin_data.extend_from_slice(&image_bytes);
+    bin_data.extend_from_slice(image_bytes);
     let image_length = image_bytes.len();
 
     // Pad to 4-byte alignment for next data
@@ -1949,10 +1948,14 @@ fn build_combined_gltf_payload(
     let mut buffer_views = Vec::new();
 
     // Add playfield material with texture if available
-    if let Some(image) = playfield_image {
+    // (an image that is only a link has no data of its own)
+    if let Some(image) = playfield_image
+        && let Some(image_bytes) = get_image_bytes(image)
+    {
         let pf_material = playfield_material(
             vpx,
             image,
+            &image_bytes,
             playfield_material_name,
             materials,
             &mut gltf_samplers,
-- 
2.43.0


From fdb90ee67474cf0d591cd5eda35bc83b3ac617ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:05 +0000
Subject: [PATCH 19/43] fix: no empty spring or tip mesh and no undefined
 texture coordinates for plungers

---
 src/vpx/mesh/plungers/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index cdbfaa8..5c79599 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -909,7 +909,12 @@ fn generate_tip_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
         normals_list.push(normals);
         // VPinball texture mapping: tip uses tv 0.0 to 0.24
         // tv = 0.24 * point.y / tip_len
-        let tv = 0.24 * point.y / tip_len;
+        // (a tip without length has all its points at the front)
+        let tv = if tip_len != 0.0 {
+            0.24 * point.y / tip_len
+        } else {
+            0.0
+        };
         tv_values.push(tv);
     }
 
@@ -970,12 +975,16 @@ pub fn build_plunger_meshes(plunger: &Plunger) -> PlungerMeshes {
         }
         PlungerType::Modern | PlungerType::Custom => {
             // Modern/Custom plunger: rod + spring + ring + tip
+            // (no spring without turns, no tip with less than two shape points)
+            let non_empty = |mesh: (Vec<VertexWrapper>, Vec<VpxFace>)| {
+                (!mesh.0.is_empty() && !mesh.1.is_empty()).then_some(mesh)
+            };
             PlungerMeshes {
                 flat_rod: None,
                 rod: Some(generate_rod_mesh(plunger)),
-                spring: Some(generate_spring_mesh(plunger)),
+                spring: non_empty(generate_spring_mesh(plunger)),
                 ring: Some(generate_ring_mesh(plunger)),
-                tip: Some(generate_tip_mesh(plunger)),
+                tip: non_empty(generate_tip_mesh(plunger)),
             }
         }
     }
-- 
2.43.0


From adae61045304c95e3030fc265be2925286e5351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:08 +0000
Subject: [PATCH 20/43] fix: no empty buffer view for an image without data in
 a glTF export

---
 src/vpx/export/gltf_export.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 679a8e4..cea999c 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -499,7 +499,8 @@ fn find_playfield_image(vpx: &VPX) -> Option<&ImageData> {
 fn get_image_bytes(image: &ImageData) -> Option<Vec<u8>> {
     // Prefer jpeg/png data over raw bitmap
     if let Some(ref jpeg) = image.jpeg {
-        Some(jpeg.data.clone())
+        // a glTF buffer view can not be empty
+        (!jpeg.data.is_empty()).then(|| jpeg.data.clone())
     } else if let Some(ref bits) = image.bits {
         // Convert bitmap to PNG
         use crate::vpx::image::vpx_image_to_dynamic_image;
-- 
2.43.0


From 4a6b644427cca088c309ba40b1a9937315d36d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 21/43] fix: line breaks in names do not break the OBJ and MTL
 export

---
 src/vpx/export/obj_export.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index fb51d96..41f917f 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -1275,7 +1275,7 @@ fn write_block<O: ObjWriter<f32>, M: MtlWriter<f32>>(
         return Ok(());
     }
 
-    obj.write_object_name(block.name)?;
+    obj.write_object_name(&single_line(block.name))?;
 
     // Positions: world = local + translation; obj_z = -world_z; scale to chosen unit.
     let s = state.position_scale;
@@ -1432,7 +1432,13 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
 
 /// Match VPinball's `WriteMaterial` (`std::erase(' ')`).
 fn sanitize_material_name(name: &str) -> String {
-    name.chars().filter(|c| *c != ' ').collect()
+    single_line(name).chars().filter(|c| *c != ' ').collect()
+}
+
+/// OBJ and MTL are line based formats: a line break in a name would end the
+/// statement.
+fn single_line(name: &str) -> String {
+    name.replace(['\n', '\r'], "_")
 }
 
 fn write_mtl_block<M: MtlWriter<f32>>(
-- 
2.43.0


From d1a518cec89aeb95580e07095c5059ee667dae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 22/43] fix: glTF export finds the opacity of ramp materials of
 tables before 10.8

Wire ramps of tables that only have the legacy material list were always
built with the detail of opaque ones, unlike in the OBJ export.
---
 src/vpx/export/gltf_export.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index cea999c..d23e904 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -968,15 +968,8 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 // (`!mat->m_bOpacityActive`). Look the material up;
                 // missing/empty falls through to opaque (vpinball's
                 // dummy material defaults `m_bOpacityActive = false`).
-                let material_opacity_active = vpx
-                    .gamedata
-                    .materials
-                    .as_ref()
-                    .and_then(|mats| {
-                        mats.iter()
-                            .find(|m| m.name.eq_ignore_ascii_case(&ramp.material))
-                    })
-                    .is_some_and(|m| m.opacity_active);
+                let material_opacity_active = lookup_material_opacity(vpx, &ramp.material)
+                    .is_some_and(|(opacity_active, _)| opacity_active);
                 if let Some((vertices, indices)) =
                     build_ramp_mesh(ramp, &table_dims, detail_level, material_opacity_active)
                 {
-- 
2.43.0


From b8a395361d31d900377a60cf54737690cd6d0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 23/43] fix: glTF export places cameras in the requested units

---
 src/vpx/export/camera.rs      | 13 ++++++++++++-
 src/vpx/export/gltf_export.rs |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/camera.rs b/src/vpx/export/camera.rs
index 180e855..bed1e20 100644
--- a/src/vpx/export/camera.rs
+++ b/src/vpx/export/camera.rs
@@ -9,7 +9,7 @@
 
 use crate::vpx::VPX;
 use crate::vpx::gamedata::ViewLayoutMode;
-use crate::vpx::units::vpu_to_m;
+use crate::vpx::units::{ExportUnits, vpu_to_m};
 use serde_json::json;
 
 /// TODO: This scaling factor compensates for using simplified table bounds (8 corner vertices)
@@ -631,6 +631,17 @@ impl GltfCamera {
         Self::from_view_settings(settings, bounds)
     }
 
+    /// This camera, which is placed in metres, in the requested unit.
+    pub fn in_units(mut self, units: ExportUnits) -> Self {
+        let scale = units.scale() / ExportUnits::M.scale();
+        for v in &mut self.position {
+            *v *= scale;
+        }
+        self.znear *= scale;
+        self.zfar *= scale;
+        self
+    }
+
     /// Create all three cameras from VPX data
     pub fn all_from_vpx(vpx: &VPX) -> [Self; 3] {
         let bounds = TableBounds::from_vpx(vpx);
diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index d23e904..9b9107e 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2913,7 +2913,7 @@ fn build_combined_gltf_payload(
 
     // Create cameras for all three view modes (Desktop, Fullscreen, FSS)
     // Each provides a different view of the table based on VPinball's view settings
-    let cameras = GltfCamera::all_from_vpx(vpx);
+    let cameras = GltfCamera::all_from_vpx(vpx).map(|camera| camera.in_units(units));
 
     // Add all cameras to glTF
     let gltf_cameras: Vec<_> = cameras.iter().map(|c| c.to_gltf_camera_json()).collect();
-- 
2.43.0


From 9454ddac2d9236073171de05556b65726ae77152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 24/43] fix: glTF export caps the range of the table lights at
 100 m in every unit

---
 src/vpx/export/gltf_export.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 9b9107e..cb3b487 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2674,9 +2674,10 @@ fn build_combined_gltf_payload(
     let color_brightness = (light_color[0] + light_color[1] + light_color[2]) / 3.0;
     let light_intensity = combined_emission_scale * 0.001 * color_brightness;
 
-    // Light range in meters - cap to reasonable value for glTF
+    // Light range in the requested unit - cap to reasonable value (100 meters) for glTF
     // VPinball light_range is often very large (e.g., 4000000 VPX units)
-    let light_range = vpu_to_units(vpx.gamedata.light_range, units).min(100.0);
+    let meter = units.scale() / ExportUnits::M.scale();
+    let light_range = vpu_to_units(vpx.gamedata.light_range, units).min(100.0 * meter);
 
     // Build lights array for KHR_lights_punctual extension
     // Start with the two default VPinball table lights
-- 
2.43.0


From 82d81441ad440f9cdeac40f46e4db526cfadf4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:51 +0000
Subject: [PATCH 25/43] fix: glTF export of invisible items includes flippers,
 gates, hit targets, plungers and triggers

---
 src/vpx/export/gltf_export.rs | 20 ++++++++++----------
 src/vpx/mesh/plungers/mod.rs  |  4 ++++
 src/vpx/mesh/triggers/mod.rs  |  6 ++++++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index cb3b487..5836075 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -111,17 +111,17 @@ use crate::vpx::mesh::balls::build_ball_mesh;
 use crate::vpx::mesh::builtin_primitive::effective_primitive_mesh;
 use crate::vpx::mesh::bumpers::build_bumper_meshes;
 use crate::vpx::mesh::flashers::build_flasher_mesh;
-use crate::vpx::mesh::flippers::build_flipper_meshes;
-use crate::vpx::mesh::gates::build_gate_meshes;
-use crate::vpx::mesh::hittargets::build_hit_target_mesh;
+use crate::vpx::mesh::flippers::build_flipper_meshes_unchecked;
+use crate::vpx::mesh::gates::build_gate_meshes_unchecked;
+use crate::vpx::mesh::hittargets::build_hit_target_mesh_unchecked;
 use crate::vpx::mesh::kickers::build_kicker_meshes;
 use crate::vpx::mesh::lights::{build_light_insert_mesh, build_light_meshes};
 use crate::vpx::mesh::playfields::build_playfield_mesh;
-use crate::vpx::mesh::plungers::build_plunger_meshes;
+use crate::vpx::mesh::plungers::build_plunger_meshes_unchecked;
 use crate::vpx::mesh::ramps::build_ramp_mesh;
 use crate::vpx::mesh::rubbers::build_rubber_mesh;
 use crate::vpx::mesh::spinners::build_spinner_meshes;
-use crate::vpx::mesh::triggers::build_trigger_mesh;
+use crate::vpx::mesh::triggers::build_trigger_mesh_unchecked;
 use crate::vpx::mesh::walls::build_wall_meshes;
 use crate::vpx::obj::VpxFace;
 use crate::vpx::units::{ExportUnits, mm_to_vpu, vpu_to_units};
@@ -1086,7 +1086,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes(flipper, 0.0) {
+                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
                     let group_info = item_group_info_for(flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1298,7 +1298,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !hit_target.is_visible {
                     continue;
                 }
-                if let Some((vertices, indices)) = build_hit_target_mesh(hit_target) {
+                if let Some((vertices, indices)) = build_hit_target_mesh_unchecked(hit_target) {
                     let group_info = item_group_info_for(hit_target);
                     let hit_target_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1340,7 +1340,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &gate.surface, gate.center.x, gate.center.y);
-                if let Some(gate_meshes) = build_gate_meshes(gate) {
+                if let Some(gate_meshes) = build_gate_meshes_unchecked(gate) {
                     let group_info = item_group_info_for(gate);
                     let gate_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1404,7 +1404,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &trigger.surface, trigger.center.x, trigger.center.y);
-                if let Some((vertices, indices)) = build_trigger_mesh(trigger) {
+                if let Some((vertices, indices)) = build_trigger_mesh_unchecked(trigger) {
                     let group_info = item_group_info_for(trigger);
                     let trigger_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1564,7 +1564,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &plunger.surface, plunger.center.x, plunger.center.y);
-                let plunger_meshes = build_plunger_meshes(plunger);
+                let plunger_meshes = build_plunger_meshes_unchecked(plunger);
                 let material_name = if plunger.material.is_empty() {
                     None
                 } else {
diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index 5c79599..fe6f7e1 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -961,7 +961,11 @@ pub fn build_plunger_meshes(plunger: &Plunger) -> PlungerMeshes {
             tip: None,
         };
     }
+    build_plunger_meshes_unchecked(plunger)
+}
 
+/// Like [`build_plunger_meshes`] but ignores the plunger's visibility.
+pub(crate) fn build_plunger_meshes_unchecked(plunger: &Plunger) -> PlungerMeshes {
     match plunger.plunger_type {
         PlungerType::Unknown | PlungerType::Flat => {
             // Flat plunger: just a simple rod
diff --git a/src/vpx/mesh/triggers/mod.rs b/src/vpx/mesh/triggers/mod.rs
index 74902e9..07c2ef2 100644
--- a/src/vpx/mesh/triggers/mod.rs
+++ b/src/vpx/mesh/triggers/mod.rs
@@ -131,7 +131,13 @@ pub fn build_trigger_mesh(trigger: &Trigger) -> Option<(Vec<VertexWrapper>, Vec<
     if !trigger.is_visible {
         return None;
     }
+    build_trigger_mesh_unchecked(trigger)
+}
 
+/// Like [`build_trigger_mesh`] but ignores the trigger's visibility.
+pub(crate) fn build_trigger_mesh_unchecked(
+    trigger: &Trigger,
+) -> Option<(Vec<VertexWrapper>, Vec<VpxFace>)> {
     let (mesh, indices) = get_mesh_for_shape(&trigger.shape)?;
 
     let z_offset = get_z_offset(&trigger.shape);
-- 
2.43.0


From 4306b6ff5e5f3375d47f3ef140707f884586611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 26/43] fix: exports place flippers on their surface

---
 src/vpx/export/gltf_export.rs | 7 +++++--
 src/vpx/export/obj_export.rs  | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 5836075..740c1f0 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1085,8 +1085,11 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !flipper.is_visible {
                     continue;
                 }
-                // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
+                let surface_height =
+                    get_surface_height(vpx, &flipper.surface, flipper.center.x, flipper.center.y);
+                if let Some(flipper_meshes) =
+                    build_flipper_meshes_unchecked(flipper, surface_height)
+                {
                     let group_info = item_group_info_for(flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 41f917f..19c4abe 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -977,7 +977,8 @@ fn write_flipper<O: ObjWriter<f32>, M: MtlWriter<f32>>(
     flipper: &crate::vpx::gameitem::flipper::Flipper,
 ) -> io::Result<()> {
     // VPinball's `Flipper::ExportMesh` has no `m_d.m_visible` guard.
-    let Some(meshes) = build_flipper_meshes_unchecked(flipper, 0.0) else {
+    let surface_height = state.surface_height(&flipper.surface, flipper.center.x, flipper.center.y);
+    let Some(meshes) = build_flipper_meshes_unchecked(flipper, surface_height) else {
         return Ok(());
     };
     let translation = meshes.center;
-- 
2.43.0


From a8dd1256f752b5a8a981f0c16d84e4140c9b83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 27/43] fix: OBJ export gives materials that sanitize to one
 name blocks of their own

---
 src/vpx/export/obj_export.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 19c4abe..5b65706 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -275,8 +275,11 @@ struct WriterState<'a> {
     /// [`ObjExportOptions::extract_textures`].
     extract_textures: bool,
     /// `(material_name, texture_name)` pairs already emitted as a
-    /// `newmtl` block. Only consulted when `dedup_mtl_blocks` is true.
-    seen_mtl_pairs: HashSet<(String, String)>,
+    /// `newmtl` block, with its name. Only consulted when `dedup_mtl_blocks`
+    /// is true.
+    seen_mtl_pairs: HashMap<(String, String), String>,
+    /// Material and texture file each `newmtl` name stands for.
+    used_mtl_names: HashMap<String, (String, Option<String>)>,
     /// Multiplier applied to VPU vertex positions on write. Derived
     /// once from `ObjExportOptions::units`.
     position_scale: f32,
@@ -304,7 +307,8 @@ impl<'a> WriterState<'a> {
             images_written: HashSet::new(),
             dedup_mtl_blocks: options.dedup_mtl_blocks,
             extract_textures: options.extract_textures,
-            seen_mtl_pairs: HashSet::new(),
+            seen_mtl_pairs: HashMap::new(),
+            used_mtl_names: HashMap::new(),
             position_scale: options.units.scale(),
             include_plunger: options.include_plunger,
         }
@@ -1398,7 +1402,7 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
     // we mangle in the image name so each `(material, texture)` pair
     // gets its own block, which avoids the "last newmtl wins" trap
     // when multiple items reuse a material name.
-    let mtl_name = if state.extract_textures
+    let mut mtl_name = if state.extract_textures
         && let Some(tex) = texture_name
         && !tex.is_empty()
     {
@@ -1421,10 +1425,25 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
             material_name.to_string(),
             texture_name.unwrap_or("").to_string(),
         );
-        if !state.seen_mtl_pairs.insert(key) {
+        if let Some(name) = state.seen_mtl_pairs.get(&key) {
             // Pair already emitted - skip this newmtl block.
-            return Ok(mtl_name);
+            return Ok(name.clone());
         }
+        // Names that differ only in what the sanitizing changes get a block
+        // of their own.
+        let content = (key.0.clone(), map_path.clone());
+        let base = mtl_name.clone();
+        let mut n = 1;
+        while state
+            .used_mtl_names
+            .get(&mtl_name)
+            .is_some_and(|other| *other != content)
+        {
+            n += 1;
+            mtl_name = format!("{base}_{n}");
+        }
+        state.used_mtl_names.insert(mtl_name.clone(), content);
+        state.seen_mtl_pairs.insert(key, mtl_name.clone());
     }
 
     write_mtl_block(mtl, state, &mtl_name, material_name, map_path.as_deref())?;
-- 
2.43.0


From 22d510d067f2920ff171eff37125e7f988648507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 28/43] fix: extracted wave files state the stored average
 bytes per second

---
 src/vpx/sound.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index 79e2325..e856c18 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -178,11 +178,6 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
     } else {
         sound_data.wave_form.cb_size as u32 // 4
     };
-    //let bytes_per_sec = sound_data.wave_form.avg_bytes_per_sec;
-    let bytes_per_sec = sound_data.wave_form.samples_per_sec
-        * sound_data.wave_form.bits_per_sample as u32
-        * sound_data.wave_form.channels as u32
-        / 8;
     let extension_size = if sound_data.wave_form.format_tag == 1 {
         None
     } else {
@@ -197,7 +192,7 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
         samples_per_sec: sound_data.wave_form.samples_per_sec,
-        avg_bytes_per_sec: bytes_per_sec,
+        avg_bytes_per_sec: sound_data.wave_form.avg_bytes_per_sec,
         block_align: sound_data.wave_form.block_align,
         bits_per_sample: sound_data.wave_form.bits_per_sample,
         extension_size,
-- 
2.43.0


From 608f7a75132e4679e411175f1e43245b8f18db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:09 +0000
Subject: [PATCH 29/43] fix: wave files are written with their data and RIFF
 sizes and pad byte, and read without what follows the data

---
 src/vpx/sound.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index e856c18..33905fa 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -171,23 +171,19 @@ impl SoundDataJson {
 const WAV_HEADER_SIZE: usize = 44;
 
 fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
-    let data_len = if sound_data.wave_form.format_tag == 1 {
-        // In the vpx file for PCM this is always 0,
-        // so we use the length of the data.
-        sound_data.data.len() as u32 // 4
-    } else {
-        sound_data.wave_form.cb_size as u32 // 4
-    };
+    let data_len = sound_data.data.len() as u32;
     let extension_size = if sound_data.wave_form.format_tag == 1 {
+        // In the vpx file for PCM this is always 0
         None
     } else {
-        Some(0)
+        Some(sound_data.wave_form.cb_size)
     };
     // a fmt chunk with a cbSize field is 18 bytes instead of 16
     let fmt_size = if extension_size.is_some() { 18 } else { 16 };
 
     let wav_header = WavHeader {
-        size: sound_data.data.len() as u32 + 36,
+        // "WAVE", the two chunk headers, the fmt chunk and the padded data
+        size: 20 + fmt_size + data_len.next_multiple_of(2),
         fmt_size,
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
@@ -225,6 +221,10 @@ pub fn write_sound(sound_data: &SoundData) -> Vec<u8> {
         let mut buf = BytesMut::with_capacity(WAV_HEADER_SIZE + sound_data.data.len());
         buf.put_slice(&write_wav_header2(sound_data));
         buf.put_slice(&sound_data.data);
+        if sound_data.data.len() % 2 == 1 {
+            // RIFF chunks are word aligned, an odd sized chunk is followed by a pad byte
+            buf.put_u8(0);
+        }
         buf.to_vec()
     } else {
         sound_data.data.clone()
@@ -243,16 +243,27 @@ pub fn read_sound(data: &[u8], sound_data: &mut SoundData) -> io::Result<()> {
                 ),
             )
         })?;
-        let header_data_size = header.data_size;
-        // read all remaining bits
-        sound_data.data = reader.to_vec();
+        let data_size = header.data_size;
+        // vpin up to 0.27.0 wrote the cb_size of formats other than PCM as the size of
+        // the data chunk, those files can be told by the size in their RIFF header.
+        let cb_size_in_data_size = header.format_tag != 1
+            && header.extension_size == Some(0)
+            && header.size as u64 == reader.len() as u64 + 36;
+        let cb_size = header.extension_size.unwrap_or(0);
         let mut wave_form: WaveForm = header.into();
-        if wave_form.format_tag == 1 {
-            // in the vpx file this is always 0 for PCM
-            wave_form.cb_size = 0;
+        if cb_size_in_data_size {
+            wave_form.cb_size = data_size as u16;
         } else {
-            wave_form.cb_size = header_data_size as u16;
+            // leave out a pad byte and the chunks that follow the data chunk
+            reader.truncate(data_size as usize);
+            // in the vpx file this is always 0 for PCM
+            wave_form.cb_size = if wave_form.format_tag == 1 {
+                0
+            } else {
+                cb_size
+            };
         }
+        sound_data.data = reader.to_vec();
         sound_data.wave_form = wave_form;
     } else {
         sound_data.data = data.to_vec();
-- 
2.43.0


From d95ec43a5866cfbc272defcb6b3132c590d536d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 30/43] fix: a closed in-memory file no longer overwrites what
 happened to it after it was flushed

---
 src/filesystem.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.rs b/src/filesystem.rs
index 46bad39..ee76360 100644
--- a/src/filesystem.rs
+++ b/src/filesystem.rs
@@ -144,24 +144,34 @@ impl MemoryFileSystem {
 struct MemoryFileWriter {
     path: String,
     buffer: Vec<u8>,
+    /// Whether `buffer` still has to be stored. Once it has been, whatever happens
+    /// to the file afterwards (deleted, written by someone else) must stay.
+    unsaved: bool,
     files: Arc<RwLock<HashMap<String, Vec<u8>>>>,
 }
 
 impl Write for MemoryFileWriter {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         self.buffer.extend_from_slice(buf);
+        self.unsaved = true;
         Ok(buf.len())
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        let mut files = self.files.write().unwrap();
-        files.insert(self.path.clone(), self.buffer.clone());
+        if self.unsaved {
+            let mut files = self.files.write().unwrap();
+            files.insert(self.path.clone(), self.buffer.clone());
+            self.unsaved = false;
+        }
         Ok(())
     }
 }
 
 impl Drop for MemoryFileWriter {
     fn drop(&mut self) {
+        if !self.unsaved {
+            return;
+        }
         let mut files = self.files.write().unwrap();
         files.insert(self.path.clone(), std::mem::take(&mut self.buffer));
     }
@@ -173,6 +183,7 @@ impl FileSystem for MemoryFileSystem {
         Ok(Box::new(MemoryFileWriter {
             path: path_str,
             buffer: Vec::new(),
+            unsaved: true,
             files: Arc::clone(&self.files),
         }))
     }
-- 
2.43.0


From b54502c377c1d65c17495e74ada5b7091d1b1d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 31/43] fix: compacting a file named *.compacting truncated it,
 a temporary file replaced the extension

---
 src/vpx/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 02a10a1..87b0ec7 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -322,7 +322,10 @@ pub fn compact<P: AsRef<Path>>(path: P) -> io::Result<()> {
 /// Rewrites the whole compound file with the same data causing the file to be compacted.
 fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
     // requested to be added in https://github.com/mdsteele/rust-cfb/issues/55
-    let out_path: PathBuf = in_path.as_ref().with_extension("compacting");
+    // next to the original, and never the original itself
+    let mut out_path = in_path.as_ref().as_os_str().to_owned();
+    out_path.push(".compacting");
+    let out_path = PathBuf::from(out_path);
     let mut original = cfb::open(&in_path)?;
     let version = original.version();
     let out_file = std::fs::OpenOptions::new()
-- 
2.43.0


From d00cdee889ecf4a975edfc3548b574fbc23e8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 32/43] fix: an interrupted compaction left no file at the
 original path

---
 src/vpx/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 87b0ec7..5281b0f 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -353,7 +353,9 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         )?;
     }
     duplicate.flush()?;
-    std::fs::remove_file(&in_path)?;
+    // replaces the original in one step, there is no moment without it
+    drop(original);
+    drop(duplicate);
     std::fs::rename(&out_path, &in_path)
 }
 
-- 
2.43.0


From de0eb90e73adbe360669f3764bdb548b9ac19f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:45 +0000
Subject: [PATCH 33/43] fix: compacting replaced the table by an incomplete
 copy when the last part of a stream could not be written

---
 src/vpx/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 5281b0f..a030d0e 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -347,10 +347,10 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         }
     }
     for path in stream_paths.iter() {
-        std::io::copy(
-            &mut original.open_stream(path)?,
-            &mut duplicate.create_new_stream(path)?,
-        )?;
+        let mut copy = duplicate.create_new_stream(path)?;
+        std::io::copy(&mut original.open_stream(path)?, &mut copy)?;
+        // an error while writing the last part is lost if left to the drop
+        copy.flush()?;
     }
     duplicate.flush()?;
     // replaces the original in one step, there is no moment without it
-- 
2.43.0


From 7d05068487b038ce4f130989354042842cb94ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:09 +0000
Subject: [PATCH 34/43] fix: errors while writing the last part of a stream
 were ignored, an incomplete table was reported as written

---
 src/vpx/mod.rs       | 20 +++++++++++++-------
 src/vpx/tableinfo.rs |  6 ++++--
 src/vpx/version.rs   |  3 ++-
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index a030d0e..aeec2b2 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -619,7 +619,8 @@ fn read_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Ve
 fn write_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>, mac: &[u8]) -> io::Result<()> {
     let mac_path = Path::new(MAIN_SEPARATOR_STR).join("GameStg").join("MAC");
     let mut mac_stream = comp.create_stream(mac_path)?;
-    mac_stream.write_all(mac)
+    mac_stream.write_all(mac)?;
+    mac_stream.flush()
 }
 
 #[derive(Clone, Debug)]
@@ -828,9 +829,9 @@ fn write_game_data<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let mut game_data_stream = comp.create_stream(&game_data_path)?;
     let data = gamedata::write_all_gamedata_records(gamedata, version);
-    game_data_stream.write_all(&data)
-    // this flush was required before but now it's working without
-    // game_data_stream.flush()
+    game_data_stream.write_all(&data)?;
+    // dropping the stream also writes what is left, but ignores errors
+    game_data_stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(gameitem_count = gamedata.gameitems_size))]
@@ -872,7 +873,8 @@ fn write_gameitem<F: Read + Write + Seek>(
 ) -> Result<(), Error> {
     let mut stream = comp.create_stream(path)?;
     let data = gameitem::write(gameitem);
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(sound_count = gamedata.sounds_size))]
@@ -919,6 +921,7 @@ fn write_sounds<F: Read + Write + Seek>(
         let mut writer = BiffWriter::new();
         sound::write(file_version, sound, &mut writer);
         stream.write_all(writer.get_data())?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -951,6 +954,7 @@ fn write_collections<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = collection::write(collection);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1001,7 +1005,7 @@ fn write_image<F: Read + Write + Seek>(
     let mut writer = BiffWriter::new();
     image.biff_write(&mut writer);
     stream.write_all(writer.get_data())?;
-    Ok(())
+    stream.flush()
 }
 
 #[derive(Debug, PartialEq, Clone)]
@@ -1117,6 +1121,7 @@ fn write_fonts<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = font::write(font);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1147,7 +1152,8 @@ fn write_custominfotags<F: Read + Write + Seek>(
 
     let data = custominfotags::write_custominfotags(tags);
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 /// Table dimensions for UV coordinate calculation
diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index 48ce3ab..c8e4ef0 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -311,7 +311,8 @@ fn write_stream_string<F: Read + Write + Seek>(
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
     let wide = encode_utf16le(str);
-    stream.write_all(&wide)
+    stream.write_all(&wide)?;
+    stream.flush()
 }
 
 fn read_stream_binary<F: Read + Seek>(
@@ -330,7 +331,8 @@ fn write_stream_binary<F: Read + Write + Seek>(
     bytes: &[u8],
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(bytes)
+    stream.write_all(bytes)?;
+    stream.flush()
 }
 
 #[cfg(test)]
diff --git a/src/vpx/version.rs b/src/vpx/version.rs
index c27125f..3ec4e8e 100644
--- a/src/vpx/version.rs
+++ b/src/vpx/version.rs
@@ -80,7 +80,8 @@ pub(crate) fn write_version<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let version_path = vpx_version_path();
     let mut stream = comp.create_stream(version_path)?;
-    write_version_data(version, &mut stream)
+    write_version_data(version, &mut stream)?;
+    stream.flush()
 }
 
 fn read_version_data<F: Read + Seek>(stream: &mut Stream<F>) -> io::Result<Version> {
-- 
2.43.0


From 773ff8f6db05b0cb936c5e6aa050dff4809167fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:03 +0000
Subject: [PATCH 35/43] fix: a glTF mesh with huge accessor counts aborted the
 process instead of being rejected

---
 src/vpx/gltf.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index 919382d..ee6f06f 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -511,6 +511,20 @@ fn parse_gltf_payload(
     let idx_component_type = idx_accessor["componentType"].as_u64().unwrap();
     let use_u32 = idx_component_type == GLTF_COMPONENT_TYPE_UNSIGNED_INT as u64; // UNSIGNED_INT
 
+    // The counts come from the file, so they have to be checked before allocating
+    let bytes_per_index = if use_u32 { 4 } else { 2 };
+    if pos_count > bin_data.len() / 12 || idx_count > bin_data.len() / bytes_per_index {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!(
+                "Accessor counts {} and {} exceed the {} bytes of binary data",
+                pos_count,
+                idx_count,
+                bin_data.len()
+            ),
+        ));
+    }
+
     // Build vertex data in the same format as write_glb accepts
     let mut vertices = Vec::with_capacity(pos_count);
 
-- 
2.43.0


From c334c8a68914e9ea973c7d966b839b672b0353af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:32 +0000
Subject: [PATCH 36/43] fix: end the subdivision of outlines that never get
 flat

Curves through very large or invalid (NaN) coordinates were subdivided
without end: exporting a wall with a control point at NaN overflowed the
stack and aborted the process, one at 1e30 exhausted the memory.  The
subdivision now stops at 1024 points between two control points.
---
 src/vpx/mesh/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index e5d726e..127a993 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -276,6 +276,10 @@ pub(super) fn flat_with_accuracy_2d(
     dblarea * dblarea < accuracy
 }
 
+/// Smallest curve parameter step the subdivision goes down to. Outlines with very large or
+/// invalid coordinates never get flat enough, so the subdivision needs another end.
+const MIN_CURVE_STEP: f32 = 1.0 / 1024.0;
+
 /// Recursively subdivide a 2D curve segment until it's flat enough
 pub(super) fn recurse_smooth_line_2d(
     cc: &CatmullCurve2D,
@@ -295,7 +299,7 @@ pub(super) fn recurse_smooth_line_2d(
         ..Default::default()
     };
 
-    if flat_with_accuracy_2d(vt1, vt2, &vmid, accuracy) {
+    if t2 - t1 <= MIN_CURVE_STEP || flat_with_accuracy_2d(vt1, vt2, &vmid, accuracy) {
         vv.push(*vt1);
     } else {
         recurse_smooth_line_2d(cc, t1, t_mid, vt1, &vmid, vv, accuracy);
@@ -568,7 +572,7 @@ pub(super) fn recurse_smooth_line_3d(
         ..Default::default()
     };
 
-    if flat_with_accuracy_3d(vt1, vt2, &vmid, accuracy) {
+    if t2 - t1 <= MIN_CURVE_STEP || flat_with_accuracy_3d(vt1, vt2, &vmid, accuracy) {
         vv.push(*vt1);
     } else {
         recurse_smooth_line_3d(cc, t1, t_mid, vt1, &vmid, vv, accuracy);
-- 
2.43.0


From 998bc662a4b165161906fc015a72fc5e1da53717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:32 +0000
Subject: [PATCH 37/43] fix: do not generate meshes for absurd numbers of sides

A primitive whose number of sides is damaged (say 0x40000000) made the
exports ask for hundreds of gigabytes and the process was aborted.
---
 src/vpx/mesh/builtin_primitive.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vpx/mesh/builtin_primitive.rs b/src/vpx/mesh/builtin_primitive.rs
index ef2bb0e..f07f29d 100644
--- a/src/vpx/mesh/builtin_primitive.rs
+++ b/src/vpx/mesh/builtin_primitive.rs
@@ -73,8 +73,8 @@ pub fn effective_primitive_mesh(primitive: &Primitive) -> Result<Option<ReadMesh
             Some((vertices, indices)) => Ok(Some(ReadMesh { vertices, indices })),
             None => {
                 warn!(
-                    "Primitive '{}' has sides={} (< 3); cannot generate builtin mesh",
-                    primitive.name, primitive.sides
+                    "Primitive '{}' has sides={} (not in 3..={}); cannot generate builtin mesh",
+                    primitive.name, primitive.sides, MAX_BUILTIN_SIDES
                 );
                 Ok(None)
             }
@@ -82,15 +82,19 @@ pub fn effective_primitive_mesh(primitive: &Primitive) -> Result<Option<ReadMesh
     }
 }
 
+/// Most sides a procedural mesh is generated for. The editor stops at
+/// 100, but the value in a file can be anything.
+const MAX_BUILTIN_SIDES: u32 = 10_000;
+
 /// Build the procedural mesh used when a primitive has
 /// `use_3d_mesh = false`. Returns `None` if `sides < 3` (degenerate -
 /// vpinball clamps to 3 in the editor; the function declines rather
-/// than producing a malformed mesh).
+/// than producing a malformed mesh) or above `MAX_BUILTIN_SIDES`.
 pub fn build_builtin_primitive_mesh(
     sides: u32,
     draw_textures_inside: bool,
 ) -> Option<(Vec<VertexWrapper>, Vec<VpxFace>)> {
-    if sides < 3 {
+    if !(3..=MAX_BUILTIN_SIDES).contains(&sides) {
         return None;
     }
     let n = sides as usize;
-- 
2.43.0


From 1b6a80dbd05cfcec4d1f2ce47e3164b84ce323f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:32 +0000
Subject: [PATCH 38/43] fix: bound the segments of a plunger spring and widen
 its indices

The number of turns in a damaged file exhausted the memory.  From 342
turns on, or with thousands of tip points, the 16 bit indices overflowed:
a panic in a debug build, wrong faces in a release build.
---
 src/vpx/mesh/plungers/mod.rs | 41 ++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index fe6f7e1..1ae763a 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -77,6 +77,10 @@ use std::f32::consts::PI;
 /// From VPinball: PlungerCoord::n_lathe_points
 const N_LATHE_POINTS: usize = 16;
 
+/// Upper limit for the segments of a generated spring (1000 turns), the number of turns in the
+/// file can be anything
+const MAX_SPRING_SEGMENTS: usize = 24_000;
+
 /// Result of plunger mesh generation with separate meshes for each part
 ///
 /// Vertices are generated relative to the plunger center (0, 0) and base height (z=0).
@@ -205,10 +209,10 @@ fn connect_rings(
     ring2: &[(f32, f32, f32)],
     normals1: &[(f32, f32, f32)],
     normals2: &[(f32, f32, f32)],
-    base_index: u16,
+    base_index: u32,
     tv1: f32,
     tv2: f32,
-) -> u16 {
+) -> u32 {
     let n = ring1.len();
     let step_u = 1.0 / n as f32;
 
@@ -258,16 +262,16 @@ fn connect_rings(
 
     // Connect with triangles
     for i in 0..n {
-        let i0 = base_index + i as u16;
-        let i1 = base_index + ((i + 1) % n) as u16;
-        let i2 = base_index + n as u16 + i as u16;
-        let i3 = base_index + n as u16 + ((i + 1) % n) as u16;
+        let i0 = base_index + i as u32;
+        let i1 = base_index + ((i + 1) % n) as u32;
+        let i2 = base_index + n as u32 + i as u32;
+        let i3 = base_index + n as u32 + ((i + 1) % n) as u32;
 
         indices.push(VpxFace::new(i0 as i64, i2 as i64, i1 as i64));
         indices.push(VpxFace::new(i1 as i64, i2 as i64, i3 as i64));
     }
 
-    base_index + (2 * n) as u16
+    base_index + (2 * n) as u32
 }
 
 /// Generate a flat plunger rod mesh
@@ -351,7 +355,7 @@ fn add_disc_cap(
     normal: (f32, f32, f32),
     tv_base: f32,
 ) {
-    let base_index = vertices.len() as u16;
+    let base_index = vertices.len() as u32;
     let n = ring.len();
 
     // Calculate center of the ring
@@ -396,8 +400,8 @@ fn add_disc_cap(
     // Create fan triangles
     for i in 0..n {
         let i0 = base_index; // center
-        let i1 = base_index + 1 + i as u16;
-        let i2 = base_index + 1 + ((i + 1) % n) as u16;
+        let i1 = base_index + 1 + i as u32;
+        let i2 = base_index + 1 + ((i + 1) % n) as u32;
 
         if flip {
             indices.push(VpxFace::new(i0 as i64, i2 as i64, i1 as i64));
@@ -471,7 +475,7 @@ fn generate_rod_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
     // VPinball texture mapping: rod/shaft uses tv 0.51 to 0.74 (third quarter)
     // rings[0] is at y_rod_end (towards tip, lower Y) -> tv 0.51
     // rings[last] is at y_rod_start (player side, higher Y) -> tv 0.74
-    let mut base_idx = 0u16;
+    let mut base_idx = 0u32;
     for i in 0..num_segments {
         // Map from 0.51 (tip end) to 0.74 (player end)
         // Rod section spans tv 0.51 to 0.74 (range of 0.23)
@@ -558,7 +562,8 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
 
     // Number of segments per turn (VPinball uses circlePoints = 24)
     let segments_per_turn = 24;
-    let total_segments = (total_turns * segments_per_turn as f32) as usize;
+    let total_segments =
+        ((total_turns * segments_per_turn as f32) as usize).min(MAX_SPRING_SEGMENTS);
 
     // VPinball spring density calculation (plunger.cpp lines 615-621):
     // - End loops are denser (springEndLoops * springGauge * springMinSpacing)
@@ -658,7 +663,7 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
         let ny = bz * tx - bx * tz;
         let nz = bx * ty - by * tx;
 
-        let base_idx = vertices.len() as u16;
+        let base_idx = vertices.len() as u32;
 
         // Generate cross-section circle
         // VPinball spring uses tv 0.76-0.98 (bottom quarter of texture)
@@ -701,10 +706,10 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
 
         // Connect to next ring (if not last)
         if i < total_segments - 1 {
-            let next_base = base_idx + coil_segments as u16;
+            let next_base = base_idx + coil_segments as u32;
             for j in 0..coil_segments {
-                let j0 = j as u16;
-                let j1 = ((j + 1) % coil_segments) as u16;
+                let j0 = j as u32;
+                let j1 = ((j + 1) % coil_segments) as u32;
 
                 indices.push(VpxFace::new(
                     (base_idx + j0) as i64,
@@ -803,7 +808,7 @@ fn generate_ring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
 
     // Connect the rings with proper texture mapping
     // Bottom face (inner to outer) - tv 0.26 to 0.33
-    let mut base_idx = 0u16;
+    let mut base_idx = 0u32;
     base_idx = connect_rings(
         &mut vertices,
         &mut indices,
@@ -920,7 +925,7 @@ fn generate_tip_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
 
     // Connect all rings using the VPinball-style tv coordinates
     // VPinball does NOT add a cap - it's just the lathe surface
-    let mut base_idx = 0u16;
+    let mut base_idx = 0u32;
     for i in 0..rings.len() - 1 {
         base_idx = connect_rings(
             &mut vertices,
-- 
2.43.0


From 070307180d2afd6f11823350d58b0026db205e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 39/43] fix: find the winding of small outlines far from the
 origin

The determinant of absolute positions loses all its digits for a small
or finely divided outline: a flasher in the shape of a circle of radius
14 vanished at (800, 1800) and had a mesh 40 units away.
---
 src/vpx/mesh/mod.rs   | 4 +++-
 src/vpx/mesh/walls.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index 127a993..85cfdb1 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -733,7 +733,9 @@ fn is_clockwise(vertices: &[RenderVertex2D]) -> bool {
     let b = &vertices[i_min];
     let c = &vertices[(i_min + 1) % n];
 
-    let det_orient = (b.x * c.y + a.x * b.y + a.y * c.x) - (a.y * b.x + b.y * c.x + a.x * c.y);
+    // relative to one of the points: the products of absolute positions are so large that their
+    // difference would be lost for small outlines
+    let det_orient = (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y);
     det_orient > 0.0
 }
 
diff --git a/src/vpx/mesh/walls.rs b/src/vpx/mesh/walls.rs
index 1101dc9..7d9a466 100644
--- a/src/vpx/mesh/walls.rs
+++ b/src/vpx/mesh/walls.rs
@@ -636,10 +636,13 @@ fn dot_2d(end1: (f32, f32), joint: (f32, f32), end2: (f32, f32)) -> f32 {
 /// Twice the signed polygon area; positive = math-CCW orientation.
 fn signed_area(points: &[(f32, f32)]) -> f32 {
     let mut area = 0.0;
+    // relative to one of the points: the products of absolute positions are so large that their
+    // differences would be lost for small outlines
+    let (x0, y0) = points.first().copied().unwrap_or_default();
     for i in 0..points.len() {
         let (x1, y1) = points[i];
         let (x2, y2) = points[(i + 1) % points.len()];
-        area += x1 * y2 - x2 * y1;
+        area += (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0);
     }
     area
 }
-- 
2.43.0


From 1af3363f91b82e9a469d288c87326654fa34fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:57 +0000
Subject: [PATCH 40/43] fix: keep items apart from animation frames whose names
 differ only by case

---
 src/vpx/expanded/gameitems.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 4b4b91b..eced2ce 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -147,9 +147,11 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     file_name_gen.ensure_unique(file_name)
 }
 
-/// True for names ending on the `_anim_<index>` suffix used for animation frame files
+/// True for names ending on the `_anim_<index>` suffix used for animation frame files,
+/// in any case as file systems might ignore it
 fn ends_like_animation_frame(name: &str) -> bool {
-    name.rsplit_once("_anim_")
+    name.to_lowercase()
+        .rsplit_once("_anim_")
         .is_some_and(|(_, index)| !index.is_empty() && index.chars().all(|c| c.is_ascii_digit()))
 }
 
-- 
2.43.0


From 0703090cff2dc1d27c502a66c33e32a0a92a6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:09 +0000
Subject: [PATCH 41/43] fix: keep the material of parts whose image is missing
 in the glTF export

---
 src/vpx/export/gltf_export.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 740c1f0..1330e09 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2544,21 +2544,17 @@ fn build_combined_gltf_payload(
         // Check mesh_material_map first (for meshes with color tint - unique materials)
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
-        } else if let Some(ref texture_name) = mesh.texture_name {
+        } else if let Some(&mat_idx) = mesh
+            .texture_name
+            .as_ref()
+            .and_then(|texture_name| texture_material_map.get(&texture_name.to_lowercase()))
+        {
             // Prioritize texture-based material when mesh has a texture
             // This ensures the texture is applied even if the mesh also has a material_name
-            let texture_key = texture_name.to_lowercase();
-            if let Some(&mat_idx) = texture_material_map.get(&texture_key) {
-                primitive["material"] = json!(mat_idx);
-            } else {
-                warn!(
-                    "Texture material for '{}' not found for mesh '{}', no material will be applied",
-                    texture_name, mesh.name
-                );
-            }
+            primitive["material"] = json!(mat_idx);
         } else if let Some(ref mat_name) = mesh.material_name {
             if let Some(&mat_idx) = material_index_map.get(mat_name) {
-                // Fall back to VPX material only if there's no texture
+                // Fall back to VPX material only if there's no texture, or its image is missing
                 primitive["material"] = json!(mat_idx);
             } else {
                 warn!(
-- 
2.43.0


From e2488bc601ae597ad4f5fd633d2c365809919f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:10 +0000
Subject: [PATCH 42/43] fix: do not give the texture of the playfield to parts
 of the same material

---
 src/vpx/export/gltf_export.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 1330e09..e8eaec5 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1966,10 +1966,8 @@ fn build_combined_gltf_payload(
     }
 
     for (name, mat) in materials {
-        // Skip if we already added a playfield material with texture
-        if material_index_map.contains_key(name) {
-            continue;
-        }
+        // Parts that share the material of a textured playfield do not share its texture,
+        // so this replaces the entry of the playfield material added above
         material_index_map.insert(name.clone(), gltf_materials.len());
 
         // Note: VPinball's glossy_color affects specular highlights from lights,
-- 
2.43.0


From dae6d26c143a0b47aca27cf37e1c82c46275f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:48 +0000
Subject: [PATCH 43/43] fix: name the material of plungers that have none in
 the OBJ export

---
 src/vpx/export/obj_export.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 5b65706..bf155e9 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -933,11 +933,9 @@ fn write_plunger<O: ObjWriter<f32>, M: MtlWriter<f32>>(
     );
     let meshes = build_plunger_meshes(plunger);
 
-    let material_name = if plunger.material.is_empty() {
-        None
-    } else {
-        Some(plunger.material.as_str())
-    };
+    // An empty name is written as well: without a `usemtl` the parts would get
+    // the material of the item before them.
+    let material_name = plunger.material.as_str();
     let texture_name = if plunger.image.is_empty() {
         None
     } else {
@@ -963,7 +961,7 @@ fn write_plunger<O: ObjWriter<f32>, M: MtlWriter<f32>>(
                     vertices: &vertices,
                     indices: &indices,
                     translation,
-                    material_name,
+                    material_name: Some(material_name),
                     texture_name,
                     smoothing: true,
                 },
-- 
2.43.0

