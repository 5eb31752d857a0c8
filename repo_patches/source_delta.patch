From 0c3c78e49d06af43e5e48c546a23b7cf69678268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 01/27] fix: compress animation values with ranges too large
 for f32

---
 ssbh_data/src/anim_data/compression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..162ba43 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -402,8 +402,8 @@ fn compress_f32(value: f32, min: f32, max: f32, bit_count: NonZeroU64) -> Compre
 
     // TODO: There could be large errors due to cancellations when the absolute difference of max and min is small.
     // This is likely rare in practice.
-    // TODO: Investigate if this works better with f64 as an intermediate representation.
-    let ratio = (value - min) / (max - min);
+    // The difference of max and min may not fit in f32, so calculate the ratio using f64.
+    let ratio = ((value as f64 - min as f64) / (max as f64 - min as f64)) as f32;
     let compressed = ratio * scale as f32;
     // TODO: Should this truncate or round for best accuracy?
     compressed as CompressedBits
-- 
2.43.0


From 04f3529ed35f0992c89b2bfbf4e9ba6ed1fbbb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 02/27] fix: don't truncate compressed pattern indices with
 large ranges

---
 ssbh_data/src/anim_data/compression.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 162ba43..0179fb3 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -785,12 +785,17 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+        // Use enough bits to store the entire range.
+        let required_bit_count = u32::BITS - (max - min).leading_zeros();
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                // TODO: How should this work for u32?
+                bit_count: super::compression::DEFAULT_F32_BIT_COUNT.max(required_bit_count as u64),
             },
         )
     }
-- 
2.43.0


From 0bbb4ee5b78dfb8bf7a3a9778c1e966a09e5ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 03/27] fix: return an error for compressed animation buffers
 that are too short

---
 ssbh_data/src/anim_data/buffers.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/buffers.rs b/ssbh_data/src/anim_data/buffers.rs
index 57b4bc6..65fe905 100644
--- a/ssbh_data/src/anim_data/buffers.rs
+++ b/ssbh_data/src/anim_data/buffers.rs
@@ -11,7 +11,7 @@ use ssbh_lib::{
 };
 
 use super::{
-    bitutils::{BitReader, BitWriter},
+    bitutils::{BitReadError, BitReader, BitWriter},
     compression::{
         CompressedBuffer, CompressedHeader, CompressedTrackData, Compression, CompressionFlags,
     },
@@ -311,6 +311,14 @@ fn read_compressed_inner<T: CompressedData>(
         frame_count
     };
 
+    // Make sure the buffer contains all the frames before reading any bits.
+    if actual_count
+        .checked_mul(expected_bit_count)
+        .map_or(true, |bit_count| bit_count > buffer.len() * 8)
+    {
+        return Err(BitReadError::NotEnoughBits.into());
+    }
+
     let mut values = Vec::new();
     for _ in 0..actual_count {
         let value = T::decompress(
-- 
2.43.0


From 7ffe594eefb7a3710b4cd92d817ead5cbd17ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 04/27] fix: avoid overflow when decompressing pattern indices

---
 ssbh_data/src/anim_data/bitutils.rs    | 3 +++
 ssbh_data/src/anim_data/compression.rs | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 9dead58..138a33b 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -10,6 +10,9 @@ pub struct BitReader {
 pub enum BitReadError {
     #[error("failed to read enough bits from reader.")]
     NotEnoughBits,
+
+    #[error("the decompressed value does not fit in 32 bits.")]
+    ValueOutOfRange,
 }
 
 impl BitReader {
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 0179fb3..2d3057a 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -765,7 +765,10 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .checked_add(compression.min)
+                .ok_or(BitReadError::ValueOutOfRange)?
         };
         Ok(value)
     }
-- 
2.43.0


From 94cb410d65d242e0fec0da01ffb44bff5aa5d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 05/27] fix: return errors instead of panicking for malformed
 version 1.2 anims

---
 ssbh_data/src/anim_data.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..7e8accc 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -395,12 +395,11 @@ fn read_groups_v12(
     // Group by the track type.
     let mut tracks_by_type = HashMap::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
+        let track_data = create_track_data_v12(track, buffers)?;
         tracks_by_type
             .entry(group_type)
             .or_insert(Vec::new())
-- 
2.43.0


From aafa3789de50270d2931940bc711853ad22e9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 06/27] fix: keep the order of groups consistent for version
 1.2 anims

---
 ssbh_data/src/anim_data.rs | 42 +++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 7e8accc..66dad72 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -50,7 +50,6 @@ use ssbh_lib::{
     SsbhArray, Vector3, Vector4, Version,
 };
 use ssbh_write::SsbhWrite;
-use std::collections::HashMap;
 use std::{
     convert::{TryFrom, TryInto},
     error::Error,
@@ -392,35 +391,28 @@ fn read_groups_v12(
     tracks: &[ssbh_lib::formats::anim::TrackV1],
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<Vec<GroupData>, error::Error> {
-    // Group by the track type.
-    let mut tracks_by_type = HashMap::new();
+    // Group by the track type using the grouping conventions for version 2.0+ anims.
+    // Groups are in the order that the types first appear to keep the output consistent.
+    // TODO: Will this preserve data when saving back to 1.2?
+    let mut groups: Vec<GroupData> = Vec::new();
 
     // Node names like bones names are set at the track level for anim 1.2.
-    // Save the track name to use for the nodes later.
+    // Use the track name for the name of the nodes.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers)?;
-        tracks_by_type
-            .entry(group_type)
-            .or_insert(Vec::new())
-            .push((track.name.to_string_lossy(), track_data));
-    }
+        let node = NodeData {
+            name: track.name.to_string_lossy(),
+            tracks: vec![create_track_data_v12(track, buffers)?],
+        };
 
-    // Use the grouping conventions for version 2.0+ anims.
-    // TODO: Will this preserve data when saving back to 1.2?
-    let groups = tracks_by_type
-        .into_iter()
-        .map(|(group_type, tracks)| GroupData {
-            group_type,
-            nodes: tracks
-                .into_iter()
-                .map(|(name, track)| NodeData {
-                    name,
-                    tracks: vec![track],
-                })
-                .collect(),
-        })
-        .collect();
+        match groups.iter_mut().find(|g| g.group_type == group_type) {
+            Some(group) => group.nodes.push(node),
+            None => groups.push(GroupData {
+                group_type,
+                nodes: vec![node],
+            }),
+        }
+    }
 
     Ok(groups)
 }
-- 
2.43.0


From ccec4f1a477b159792d26b079b8b08038e0aaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 07/27] fix: don't extend the output when writing empty byte
 buffers

---
 ssbh_lib/src/arrays.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssbh_lib/src/arrays.rs b/ssbh_lib/src/arrays.rs
index 6159d5c..00496e2 100644
--- a/ssbh_lib/src/arrays.rs
+++ b/ssbh_lib/src/arrays.rs
@@ -321,6 +321,12 @@ impl SsbhWrite for SsbhByteBuffer {
 
         write_array_header(writer, data_ptr, self.elements.len())?;
 
+        // There's no data to write for empty buffers.
+        // Empty writes past the end may still increase the size of some writers like Cursor.
+        if self.elements.is_empty() {
+            return Ok(());
+        }
+
         let current_pos = writer.stream_position()?;
         writer.seek(SeekFrom::Start(*data_ptr))?;
         // Use a custom implementation to avoid writing bytes individually.
-- 
2.43.0


From 631e6b3f96fe649b1b1e275794f64a2896a80cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 08/27] fix: don't overwrite existing files with data that
 can't be written

---
 ssbh_lib/src/lib.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/ssbh_lib/src/lib.rs b/ssbh_lib/src/lib.rs
index a2662e4..b2883f0 100644
--- a/ssbh_lib/src/lib.rs
+++ b/ssbh_lib/src/lib.rs
@@ -195,9 +195,7 @@ impl SsbhFile {
     /// Writes the data to the given path.
     /// The entire file is buffered for performance.
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        write_buffered(&mut file, |c| write_ssbh_header_and_data(c, &self.data))?;
-        Ok(())
+        write_buffered(path, |c| write_ssbh_header_and_data(c, &self.data))
     }
 }
 
@@ -251,9 +249,7 @@ macro_rules! ssbh_read_write_impl {
             /// Tries to write the current SSBH type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| write_ssbh_file(c, self, $magic))?;
-                Ok(())
+                write_buffered(path, |c| write_ssbh_file(c, self, $magic))
             }
         }
     };
@@ -289,9 +285,7 @@ macro_rules! read_write_impl {
             /// Tries to write the type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| self.write(c))?;
-                Ok(())
+                write_buffered(path, |c| self.write(c))
             }
         }
     };
@@ -771,11 +765,8 @@ pub(crate) fn write_ssbh_header_and_data<W: Write + Seek>(
     }
 }
 
-pub(crate) fn write_buffered<
-    W: Write + Seek,
-    F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>,
->(
-    writer: &mut W,
+pub(crate) fn write_buffered<P: AsRef<Path>, F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>>(
+    path: P,
     write_data: F,
 ) -> std::io::Result<()> {
     // Buffer the entire write operation into memory to improve performance.
@@ -783,8 +774,8 @@ pub(crate) fn write_buffered<
     let mut cursor = Cursor::new(Vec::new());
     write_data(&mut cursor)?;
 
-    writer.write_all(cursor.get_mut())?;
-    Ok(())
+    // Avoid modifying an existing file if the data can't be written.
+    fs::write(path, cursor.get_ref())
 }
 
 // TODO: This can probably just be derived.
-- 
2.43.0


From 20a1f4fe623297db5e1dd1eae201d10e20b415fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 09/27] fix: return errors instead of panicking for malformed
 shader binaries

---
 ssbh_data/src/shdr_data.rs | 96 ++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 36 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..5cded42 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<_>>()?,
+        })
     }
 }
 
@@ -85,17 +84,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +109,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +134,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +154,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Self::new(&mut reader, &shader).map_err(Into::into)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Self::new(reader, &shader).map_err(Into::into)
     }
 }
 
@@ -179,7 +183,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = read_bytes, args(code_length as usize))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -374,14 +378,35 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    let bytes = read_bytes(
+        reader,
+        binrw::Endian::Little,
+        ((s.length as usize).saturating_sub(1),),
+    )?;
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
+fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _endian: binrw::Endian,
+    args: (usize,),
+) -> BinResult<Vec<u8>> {
+    let (length,) = args;
+
+    // Don't assume the reader contains enough bytes.
+    // This avoids large allocations for invalid lengths.
+    let mut bytes = Vec::new();
+    reader.take(length as u64).read_to_end(&mut bytes)?;
+    if bytes.len() == length {
+        Ok(bytes)
+    } else {
+        Err(binrw::Error::Io(std::io::ErrorKind::UnexpectedEof.into()))
+    }
+}
+
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +414,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +425,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<_>>()?,
             },
         })
     }
-- 
2.43.0


From bfbee690ac4a4f4621830673cfba65c1d0af9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 10/27] fix: reject JSON strings with interior null bytes

---
 ssbh_lib/src/strings.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..8773c29 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -91,8 +91,14 @@ where
 {
     let string = String::deserialize(deserializer)?;
 
-    // TODO: This should check for null bytes?
-    Ok(string.as_bytes().to_vec())
+    // Null bytes can't be represented since they terminate the string.
+    if string.as_bytes().contains(&0u8) {
+        return Err(serde::de::Error::custom(
+            "strings cannot contain null bytes",
+        ));
+    }
+
+    Ok(string.into_bytes())
 }
 
 #[cfg(feature = "arbitrary")]
-- 
2.43.0


From aff15696c041b9cdfa7037c0aade5abc9d1d8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 11/27] fix: restore the correct extension for nufxlb files

---
 ssbh_lib_json/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssbh_lib_json/src/main.rs b/ssbh_lib_json/src/main.rs
index 2a7b223..5ea4a72 100644
--- a/ssbh_lib_json/src/main.rs
+++ b/ssbh_lib_json/src/main.rs
@@ -68,7 +68,7 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
             Ssbh::Anim(_) => "nuanmb",
             Ssbh::Nlst(_) => "nulstb",
             Ssbh::Nrpd(_) => "nurpdb",
-            Ssbh::Nufx(_) => "nuflxb",
+            Ssbh::Nufx(_) => "nufxlb",
             Ssbh::Shdr(_) => "nushdb",
         });
 
-- 
2.43.0


From 569b877eadf5f1709bb3a11a8cb8b08d9c0982f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 12/27] fix: report failures from the JSON tools instead of
 panicking or exiting successfully

---
 ssbh_data_json/src/main.rs | 68 ++++++++++++++++++++------------------
 ssbh_lib_json/src/main.rs  | 60 +++++++++++++++++----------------
 2 files changed, 68 insertions(+), 60 deletions(-)

diff --git a/ssbh_data_json/src/main.rs b/ssbh_data_json/src/main.rs
index 0bb7556..1c1cdb2 100644
--- a/ssbh_data_json/src/main.rs
+++ b/ssbh_data_json/src/main.rs
@@ -1,4 +1,4 @@
-use std::io::Write;
+use std::error::Error;
 use std::path::{Path, PathBuf};
 use std::time::Instant;
 
@@ -18,40 +18,40 @@ struct Cli {
     output: Option<String>,
 }
 
-fn parse_and_write_json<T: SsbhData + Serialize, P: AsRef<Path>>(input: P, output: P) {
+fn parse_and_write_json<T: SsbhData + Serialize, P: AsRef<Path>>(
+    input: P,
+    output: P,
+) -> Result<(), Box<dyn Error>> {
     let parse_start_time = Instant::now();
-    match T::from_file(&input) {
-        Ok(data) => {
-            eprintln!("Parse: {:?}", parse_start_time.elapsed());
+    let data = T::from_file(&input)?;
+    eprintln!("Parse: {:?}", parse_start_time.elapsed());
 
-            let json = serde_json::to_string_pretty(&data).unwrap();
-
-            let mut output_file = std::fs::File::create(output).expect("unable to create file");
-            output_file
-                .write_all(json.as_bytes())
-                .expect("unable to write");
-        }
-        Err(error) => eprintln!("{error:?}"),
-    };
+    let json = serde_json::to_string_pretty(&data)?;
+    std::fs::write(output, json)?;
+    Ok(())
 }
 
-fn deserialize_and_save<'a, T: SsbhData + Deserialize<'a>>(
+/// Returns [None] if the JSON does not contain data of type `T`.
+fn deserialize_and_save<'a, T>(
     json: &'a str,
     input: &Path,
     output: &Option<PathBuf>,
     extension: &str,
-) -> serde_json::Result<()> {
-    let data = serde_json::from_str::<T>(json)?;
+) -> Option<Result<(), Box<dyn Error>>>
+where
+    T: SsbhData + Deserialize<'a>,
+    T::WriteError: 'static,
+{
+    let data = serde_json::from_str::<T>(json).ok()?;
 
     let output_path = output
         .as_ref()
         .map(PathBuf::from)
         .unwrap_or_else(|| PathBuf::from(input).with_extension(extension));
-    data.write_to_file(output_path).unwrap();
-    Ok(())
+    Some(data.write_to_file(output_path).map_err(Into::into))
 }
 
-fn main() {
+fn main() -> Result<(), Box<dyn Error>> {
     let cli = Cli::parse();
 
     // Modify the input if no output is specified to allow dragging a file onto the executable.
@@ -63,7 +63,11 @@ fn main() {
 
     // Try parsing one of the supported formats.
     let input_path = Path::new(&cli.input);
-    match input_path.extension().unwrap().to_str().unwrap() {
+    match input_path
+        .extension()
+        .and_then(|e| e.to_str())
+        .unwrap_or_default()
+    {
         "numshb" => parse_and_write_json::<MeshData, _>(input_path, &output_path),
         "nusktb" => parse_and_write_json::<SkelData, _>(input_path, &output_path),
         "nuanmb" => parse_and_write_json::<AnimData, _>(input_path, &output_path),
@@ -73,34 +77,34 @@ fn main() {
         "adjb" => parse_and_write_json::<AdjData, _>(input_path, &output_path),
         "numshexb" => parse_and_write_json::<MeshExData, _>(input_path, &output_path),
         "json" => {
-            let json = std::fs::read_to_string(input_path).expect("Failed to read file.");
+            let json = std::fs::read_to_string(input_path)?;
             let output_path = cli.output.map(PathBuf::from);
 
             // Try all available formats.
             deserialize_and_save::<MeshData>(&json, input_path, &output_path, "numshb")
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<SkelData>(&json, input_path, &output_path, "nusktb")
                 })
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<AnimData>(&json, input_path, &output_path, "nuanmb")
                 })
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<ModlData>(&json, input_path, &output_path, "numdlb")
                 })
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<MatlData>(&json, input_path, &output_path, "numatb")
                 })
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<HlpbData>(&json, input_path, &output_path, "nuhlpb")
                 })
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<MeshExData>(&json, input_path, &output_path, "numshexb")
                 })
-                .or_else(|_| {
+                .or_else(|| {
                     deserialize_and_save::<AdjData>(&json, input_path, &output_path, "adjb")
                 })
-                .unwrap();
+                .unwrap_or_else(|| Err("the JSON does not contain a supported data type".into()))
         }
-        _ => (),
-    };
+        _ => Err("the file extension is not supported".into()),
+    }
 }
diff --git a/ssbh_lib_json/src/main.rs b/ssbh_lib_json/src/main.rs
index 5ea4a72..e2f1505 100644
--- a/ssbh_lib_json/src/main.rs
+++ b/ssbh_lib_json/src/main.rs
@@ -1,4 +1,4 @@
-use std::io::Write;
+use std::error::Error;
 use std::path::{Path, PathBuf};
 use std::time::Instant;
 
@@ -17,12 +17,16 @@ struct Cli {
     output: Option<String>,
 }
 
-fn read_data_write_json<T, E, P, F>(input_path: P, output_path: Option<String>, read_t: F)
+fn read_data_write_json<T, E, P, F>(
+    input_path: P,
+    output_path: Option<String>,
+    read_t: F,
+) -> Result<(), Box<dyn Error>>
 where
     T: Serialize,
     P: AsRef<Path> + ToString,
     F: Fn(P) -> Result<T, E>,
-    E: std::fmt::Debug,
+    E: Into<Box<dyn Error>>,
 {
     // Modify the input to allow dragging a file onto the executable.
     let output_path = output_path
@@ -30,25 +34,18 @@ where
         .unwrap_or_else(|| PathBuf::from(&(input_path.to_string() + ".json")));
 
     let parse_start_time = Instant::now();
-    match read_t(input_path) {
-        Ok(adjb) => {
-            eprintln!("Parse: {:?}", parse_start_time.elapsed());
-            write_json(output_path, adjb);
-        }
-        Err(error) => eprintln!("{error:?}"),
-    };
-}
-
-fn write_json<T: Sized + Serialize, P: AsRef<Path>>(output_path: P, object: T) {
-    let json = serde_json::to_string_pretty(&object).unwrap();
+    let data = read_t(input_path).map_err(Into::into)?;
+    eprintln!("Parse: {:?}", parse_start_time.elapsed());
 
-    let mut output_file = std::fs::File::create(output_path).expect("unable to create file");
-    output_file
-        .write_all(json.as_bytes())
-        .expect("unable to write");
+    let json = serde_json::to_string_pretty(&data)?;
+    std::fs::write(output_path, json)?;
+    Ok(())
 }
 
-fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<String>) {
+fn read_json_write_data<P: AsRef<Path>>(
+    input_path: P,
+    output_path: Option<String>,
+) -> Result<(), Box<dyn Error>> {
     // Modify the input if no output is specified to allow dragging a file onto the executable.
     let get_output_path = |ext| {
         output_path
@@ -56,7 +53,7 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
             .unwrap_or_else(|| input_path.as_ref().with_extension(ext))
     };
 
-    let json = std::fs::read_to_string(input_path.as_ref()).expect("Failed to read file.");
+    let json = std::fs::read_to_string(input_path.as_ref())?;
     if let Ok(ssbh) = serde_json::from_str::<SsbhFile>(&json) {
         // Determine the path based on the SSBH type if no output is specified.
         let output = get_output_path(match ssbh.data {
@@ -72,11 +69,13 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
             Ssbh::Shdr(_) => "nushdb",
         });
 
-        write_data(ssbh, output, SsbhFile::write_to_file);
+        write_data(ssbh, output, SsbhFile::write_to_file)
     } else if let Ok(mesh_ex) = serde_json::from_str::<MeshEx>(&json) {
-        write_data(mesh_ex, get_output_path("numshexb"), MeshEx::write_to_file);
+        write_data(mesh_ex, get_output_path("numshexb"), MeshEx::write_to_file)
     } else if let Ok(adj) = serde_json::from_str::<Adj>(&json) {
-        write_data(adj, get_output_path("adjb"), Adj::write_to_file);
+        write_data(adj, get_output_path("adjb"), Adj::write_to_file)
+    } else {
+        Err("the JSON does not contain a supported file type".into())
     }
 }
 
@@ -84,21 +83,26 @@ fn write_data<T, P: AsRef<Path>, F: Fn(&T, P) -> std::io::Result<()>>(
     data: T,
     output_path: P,
     write_t: F,
-) {
+) -> Result<(), Box<dyn Error>> {
     let export_time = Instant::now();
-    write_t(&data, output_path).expect("Failed to write file.");
+    write_t(&data, output_path)?;
     eprintln!("Export: {:?}", export_time.elapsed());
+    Ok(())
 }
 
-fn main() {
+fn main() -> Result<(), Box<dyn Error>> {
     let cli = Cli::parse();
 
     // Try parsing one of the supported formats.
-    match Path::new(&cli.input).extension().unwrap().to_str().unwrap() {
+    match Path::new(&cli.input)
+        .extension()
+        .and_then(|e| e.to_str())
+        .unwrap_or_default()
+    {
         "adjb" => read_data_write_json(cli.input, cli.output, Adj::from_file),
         "numshexb" => read_data_write_json(cli.input, cli.output, MeshEx::from_file),
         "json" => read_json_write_data(cli.input, cli.output),
         // Assume anything else is an SSBH file.
         _ => read_data_write_json(cli.input, cli.output, SsbhFile::from_file),
-    };
+    }
 }
-- 
2.43.0


From 9daa757fc7eb1c38d63db35dc165d802841db535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 13/27] fix: check nulstb files and report unreadable paths in
 ssbh_test

---
 ssbh_test/src/main.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ssbh_test/src/main.rs b/ssbh_test/src/main.rs
index 0174175..ba81222 100644
--- a/ssbh_test/src/main.rs
+++ b/ssbh_test/src/main.rs
@@ -16,7 +16,7 @@ fn main() {
     let folder = Path::new(&cli.root_folder);
     let start = std::time::Instant::now();
 
-    let patterns = ["*.{numatb,numdlb,numshb,nusktb,nurpdb,nufxlb,nuanmb,nuhlpb,nushdb}"];
+    let patterns = ["*.{numatb,numdlb,numshb,nusktb,nurpdb,nufxlb,nuanmb,nuhlpb,nushdb,nulstb}"];
     globwalk::GlobWalkerBuilder::from_patterns(folder, &patterns)
         .build()
         .unwrap()
@@ -48,7 +48,13 @@ fn main() {
 }
 
 fn check_read_write_ssbh(path: &Path) {
-    let before = std::fs::read(path).unwrap();
+    let before = match std::fs::read(path) {
+        Ok(before) => before,
+        _ => {
+            println!("Error reading {path:?}");
+            return;
+        }
+    };
     match ssbh_lib::SsbhFile::read(&mut Cursor::new(&before)) {
         Ok(ssbh) => {
             // Check any supported file for 1:1 read/write.
@@ -65,7 +71,13 @@ fn check_read_write_ssbh(path: &Path) {
 }
 
 fn check_read_write_meshex(path: &Path) {
-    let before = std::fs::read(path).unwrap();
+    let before = match std::fs::read(path) {
+        Ok(before) => before,
+        _ => {
+            println!("Error reading {path:?}");
+            return;
+        }
+    };
     match ssbh_lib::formats::meshex::MeshEx::read(&mut Cursor::new(&before)) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
@@ -82,7 +94,13 @@ fn check_read_write_meshex(path: &Path) {
 }
 
 fn check_read_write_adj(path: &Path) {
-    let before = std::fs::read(path).unwrap();
+    let before = match std::fs::read(path) {
+        Ok(before) => before,
+        _ => {
+            println!("Error reading {path:?}");
+            return;
+        }
+    };
     match ssbh_lib::formats::adj::Adj::read(&mut Cursor::new(&before)) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
-- 
2.43.0


From fa1ad43b6d29d33b08ec1d54c1c059d282e8ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 14/27] fix: reject unsupported versions and bone indices that
 don't fit when creating skel files

---
 ssbh_data/src/skel_data.rs | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..2e026e8 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -76,6 +76,10 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// The index of a bone or its parent is too large to be stored in a [Skel] file.
+        #[error("bone index {} exceeds the limit for skel files", index)]
+        BoneIndexExceedsLimit { index: usize },
+
         /// An error occurred while calculating a transformation matrix.
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
@@ -152,6 +156,13 @@ impl TryFrom<&SkelData> for Skel {
     type Error = error::Error;
 
     fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
+        if (data.major_version, data.minor_version) != (1, 0) {
+            return Err(error::Error::UnsupportedVersion {
+                major_version: data.major_version,
+                minor_version: data.minor_version,
+            });
+        }
+
         let world_transforms = data
             .bones
             .iter()
@@ -163,20 +174,27 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i
+                            .try_into()
+                            .map_err(|_| error::Error::BoneIndexExceedsLimit { index: i })?,
+                        parent_index: match b.parent_index {
+                            Some(index) => index
+                                .try_into()
+                                .map_err(|_| error::Error::BoneIndexExceedsLimit { index })?,
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<Vec<_>, error::Error>>()?
+                .into(),
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From cb162a2759d58e566aa1a4ef1c43dc5d3756c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 15/27] fix: return an error for out of range indices when
 calculating tangents

---
 ssbh_data/src/mesh_data.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index b749cce..6a737b6 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -1185,6 +1185,16 @@ pub fn calculate_tangents_vec4(
     uvs: &VectorData,
     vertex_indices: &[u32],
 ) -> Result<Vec<[f32; 4]>, Box<dyn Error>> {
+    // Check for out of bounds vertex accesses.
+    let vertex_count = positions.len();
+    if let Some(index) = vertex_indices.iter().find(|i| **i as usize >= vertex_count) {
+        return Err(error::Error::VertexIndexOutOfRange {
+            vertex_index: *index as usize,
+            vertex_count,
+        }
+        .into());
+    }
+
     let tangents = geometry_tools::vectors::calculate_tangents(
         &positions.to_glam_vec3a(),
         &normals.to_glam_vec3a(),
-- 
2.43.0


From 8ff62242461533baa64229ea42ae2c40a980725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 16/27] fix: reject adjacency entries with a mesh object index
 that doesn't fit

---
 ssbh_data/src/adj_data.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ssbh_data/src/adj_data.rs b/ssbh_data/src/adj_data.rs
index 446ff6b..8a7af06 100644
--- a/ssbh_data/src/adj_data.rs
+++ b/ssbh_data/src/adj_data.rs
@@ -138,14 +138,19 @@ impl TryFrom<&AdjData> for Adj {
                 .entries
                 .iter()
                 .scan(0, |offset, e| {
-                    let entry = AdjEntry {
-                        mesh_object_index: e.mesh_object_index as u32,
-                        index_buffer_offset: *offset as u32,
-                    };
+                    let index_buffer_offset = *offset as u32;
                     *offset += e.vertex_adjacency.len() * std::mem::size_of::<i16>();
-                    Some(entry)
+                    Some((e, index_buffer_offset))
                 })
-                .collect(),
+                .map(|(e, index_buffer_offset)| {
+                    Ok(AdjEntry {
+                        mesh_object_index: u32::try_from(e.mesh_object_index).map_err(|err| {
+                            std::io::Error::new(std::io::ErrorKind::InvalidInput, err)
+                        })?,
+                        index_buffer_offset,
+                    })
+                })
+                .collect::<Result<_, std::io::Error>>()?,
             index_buffer: data
                 .entries
                 .iter()
-- 
2.43.0


From d63ee01ad39fd28101f1549c33e1c01be664c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 17/27] fix: avoid large allocations for version 1.2 anims with
 invalid frame counts

---
 ssbh_data/src/anim_data.rs | 3 ++-
 ssbh_data/src/shdr_data.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 66dad72..b6344bd 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -807,7 +807,8 @@ struct V12Test2 {
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    // align to float boundary
+    #[br(parse_with = crate::shdr_data::read_bytes, args(frame_count as usize), align_after = 4)]
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 5cded42..ec2e5ac 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -387,7 +387,7 @@ fn read_string<R: Read + Seek>(
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
-fn read_bytes<R: Read + Seek>(
+pub(crate) fn read_bytes<R: Read + Seek>(
     reader: &mut R,
     _endian: binrw::Endian,
     args: (usize,),
-- 
2.43.0


From ab9ffc4391d3d1ed6483c142d1584db47d6e49ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 18/27] fix: don't print debug output when reading version 1.2
 anims

---
 ssbh_data/src/anim_data.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index b6344bd..9469bf6 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -422,7 +422,6 @@ fn create_track_data_v12(
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<TrackData, error::Error> {
     // TODO: Add tests for this to buffers.rs.
-    println!("{:?}", track.name.to_string_lossy());
     for property in &track.properties.elements {
         let data = buffers.get(property.buffer_index as usize).ok_or(
             error::Error::BufferIndexOutOfRange {
@@ -434,46 +433,38 @@ fn create_track_data_v12(
         let mut reader = Cursor::new(&data.elements);
         let header: u32 = reader.read_le()?;
 
-        println!("{:?},{:x?}", property.name.to_string_lossy(), header);
-
         // TODO: Make this an enum?
         // TODO: Is the header multiple fields for const, data type, etc?
+        // Check that the data is present without printing it.
         match header {
             0x1003 => {
-                println!("{:x?}", reader.read_le::<f32>()?);
+                reader.read_le::<f32>()?;
             }
             0x2003 => {
-                println!("{:?}", reader.read_le::<(f32, f32)>()?);
+                reader.read_le::<(f32, f32)>()?;
             }
             0x3003 => {
-                println!("{:?}", reader.read_le::<Vector3>()?);
+                reader.read_le::<Vector3>()?;
             }
             0x4003 => {
-                println!("{:?}", reader.read_le::<Vector4>()?);
+                reader.read_le::<Vector4>()?;
             }
             0x1013 => {
-                println!("{:x?}", reader.read_le::<u16>()?);
+                reader.read_le::<u16>()?;
             }
+            // Assume the remainder is the compressed buffer.
             0x3409 => {
-                println!("{:?}", reader.read_le::<V12Test1>()?);
-                // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 52 - 4);
+                reader.read_le::<V12Test1>()?;
             }
             0x4308 => {
-                println!("{:?}", reader.read_le::<V12Test3>()?);
-                // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                reader.read_le::<V12Test3>()?;
             }
             0x4409 => {
-                let test = reader.read_le::<V12Test2>()?;
-                println!("{test:?}");
-                // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 64 - 4);
+                reader.read_le::<V12Test2>()?;
             }
-            x => println!("Unrecognized header: {x:?}"),
+            _ => (),
         }
     }
-    println!();
 
     // TODO: Set the track data based on type?
     // TODO: Set the scale options?
-- 
2.43.0


From f6b5622917613f87db2e2b3656fce93f06a8d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 19/27] fix: report files that can't be written in ssbh_test
 instead of panicking

---
 ssbh_test/src/main.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ssbh_test/src/main.rs b/ssbh_test/src/main.rs
index ba81222..2e86d7f 100644
--- a/ssbh_test/src/main.rs
+++ b/ssbh_test/src/main.rs
@@ -59,8 +59,7 @@ fn check_read_write_ssbh(path: &Path) {
         Ok(ssbh) => {
             // Check any supported file for 1:1 read/write.
             let mut writer = Cursor::new(Vec::new());
-            ssbh.write(&mut writer).unwrap();
-            if before != writer.into_inner() {
+            if ssbh.write(&mut writer).is_err() || before != writer.into_inner() {
                 println!("Read/write not 1:1 for {path:?}");
             }
         }
@@ -82,8 +81,7 @@ fn check_read_write_meshex(path: &Path) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
             let mut writer = Cursor::new(Vec::new());
-            data.write(&mut writer).unwrap();
-            if before != writer.into_inner() {
+            if data.write(&mut writer).is_err() || before != writer.into_inner() {
                 println!("Read/write not 1:1 for {path:?}");
             }
         }
@@ -105,8 +103,7 @@ fn check_read_write_adj(path: &Path) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
             let mut writer = Cursor::new(Vec::new());
-            data.write(&mut writer).unwrap();
-            if before != writer.into_inner() {
+            if data.write(&mut writer).is_err() || before != writer.into_inner() {
                 println!("Read/write not 1:1 for {path:?}");
             }
         }
-- 
2.43.0


From d702569a2fb14a34e79b7640e5e993d69a99cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 20/27] fix: write the magic of tuple structs and enums in the
 SsbhWrite derive

---
 ssbh_write_derive/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 52fbcb5..538b55c 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -240,15 +240,7 @@ fn write_data_calculate_size_named(
 ) -> (TokenStream2, TokenStream2) {
     let write_fields = write_named_fields(fields, true);
 
-    // TODO: This is shared with enums, unnamed fields, etc?
-    let write_magic = if let Some(magic) = &write_options.magic {
-        quote! { #magic.ssbh_write(writer, data_ptr)?; }
-    } else {
-        quote! {}
-    };
-
     let write_fields = quote! {
-        #write_magic
         #(#write_fields)*;
     };
 
@@ -304,6 +296,11 @@ fn generate_ssbh_write(
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
     // Skip generating code for unspecified parameters.
+    let write_magic = match &write_options.magic {
+        Some(magic) => quote! { writer.write_all(#magic)?; },
+        None => quote! {},
+    };
+
     let write_align_after = write_aligned_after(write_options);
 
     let write_pad_after = write_pad_after(write_options);
@@ -330,6 +327,7 @@ fn generate_ssbh_write(
                     *data_ptr = current_pos + self.size_in_bytes();
                 }
 
+                #write_magic
                 #write_data
 
                 #write_pad_after
-- 
2.43.0


From 6995843c0c4c90246b9478408dbdc5bf3a9bb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 21/27] fix: include padding and magic in the size of repr
 enums in the SsbhWrite derive

---
 ssbh_write_derive/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 538b55c..508736a 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -85,9 +85,13 @@ pub fn ssbh_write_derive(input: TokenStream) -> TokenStream {
             quote! {
                 (*self as #repr).ssbh_write(writer, data_ptr)?;
             },
-            quote! {
-                (*self as #repr).size_in_bytes()
-            },
+            generate_size_calculation(
+                quote! {
+                    size += (*self as #repr).size_in_bytes();
+                },
+                write_options.pad_after,
+                write_options.magic.clone(),
+            ),
         ),
         None => match &input.data {
             Data::Struct(DataStruct {
-- 
2.43.0


From 7db70a22dc6ee2e54ca6333ab46faee53f1f6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:27 +0000
Subject: [PATCH 22/27] fix: use the size of every element for collections in
 SsbhWrite

---
 ssbh_write/src/lib.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ssbh_write/src/lib.rs b/ssbh_write/src/lib.rs
index 9db1125..00ea232 100644
--- a/ssbh_write/src/lib.rs
+++ b/ssbh_write/src/lib.rs
@@ -123,11 +123,8 @@ impl<T: SsbhWrite> SsbhWrite for &[T] {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // TODO: This won't work for Vec<Option<T>> since only the first element is checked.
-        match self.first() {
-            Some(element) => self.len() as u64 * element.size_in_bytes(),
-            None => 0,
-        }
+        // Elements may have different sizes like with Option<T>.
+        self.iter().map(|element| element.size_in_bytes()).sum()
     }
 
     fn alignment_in_bytes() -> u64 {
@@ -277,11 +274,7 @@ impl<T: SsbhWrite> SsbhWrite for Vec<T> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // Assume each element has the same size.
-        match self.first() {
-            Some(first) => self.len() as u64 * first.size_in_bytes(),
-            None => 0,
-        }
+        self.as_slice().size_in_bytes()
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From 46a0aabbafe6e4b165afa180d0697188a468e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 23/27] fix: use the element's alignment for arrays in
 SsbhWrite

---
 ssbh_write/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssbh_write/src/lib.rs b/ssbh_write/src/lib.rs
index 00ea232..6e9974c 100644
--- a/ssbh_write/src/lib.rs
+++ b/ssbh_write/src/lib.rs
@@ -100,6 +100,11 @@ impl<T: SsbhWrite, const N: usize> SsbhWrite for [T; N] {
     fn size_in_bytes(&self) -> u64 {
         self.as_slice().size_in_bytes()
     }
+
+    fn alignment_in_bytes() -> u64 {
+        // Use the underlying type's alignment.
+        T::alignment_in_bytes()
+    }
 }
 
 impl<T: SsbhWrite> SsbhWrite for &[T] {
-- 
2.43.0


From 6fb922e9da292b426567992759b2a83b318949e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 24/27] Revert "fix: report files that can't be written in
 ssbh_test instead of panicking"

This reverts commit f6b5622917613f87db2e2b3656fce93f06a8d48f.
---
 ssbh_test/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ssbh_test/src/main.rs b/ssbh_test/src/main.rs
index 2e86d7f..ba81222 100644
--- a/ssbh_test/src/main.rs
+++ b/ssbh_test/src/main.rs
@@ -59,7 +59,8 @@ fn check_read_write_ssbh(path: &Path) {
         Ok(ssbh) => {
             // Check any supported file for 1:1 read/write.
             let mut writer = Cursor::new(Vec::new());
-            if ssbh.write(&mut writer).is_err() || before != writer.into_inner() {
+            ssbh.write(&mut writer).unwrap();
+            if before != writer.into_inner() {
                 println!("Read/write not 1:1 for {path:?}");
             }
         }
@@ -81,7 +82,8 @@ fn check_read_write_meshex(path: &Path) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
             let mut writer = Cursor::new(Vec::new());
-            if data.write(&mut writer).is_err() || before != writer.into_inner() {
+            data.write(&mut writer).unwrap();
+            if before != writer.into_inner() {
                 println!("Read/write not 1:1 for {path:?}");
             }
         }
@@ -103,7 +105,8 @@ fn check_read_write_adj(path: &Path) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
             let mut writer = Cursor::new(Vec::new());
-            if data.write(&mut writer).is_err() || before != writer.into_inner() {
+            data.write(&mut writer).unwrap();
+            if before != writer.into_inner() {
                 println!("Read/write not 1:1 for {path:?}");
             }
         }
-- 
2.43.0


From 6232259007f67b3e2db0107124f1d4372694f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 25/27] Revert "fix: check nulstb files and report unreadable
 paths in ssbh_test"

This reverts commit 9daa757fc7eb1c38d63db35dc165d802841db535.
---
 ssbh_test/src/main.rs | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/ssbh_test/src/main.rs b/ssbh_test/src/main.rs
index ba81222..0174175 100644
--- a/ssbh_test/src/main.rs
+++ b/ssbh_test/src/main.rs
@@ -16,7 +16,7 @@ fn main() {
     let folder = Path::new(&cli.root_folder);
     let start = std::time::Instant::now();
 
-    let patterns = ["*.{numatb,numdlb,numshb,nusktb,nurpdb,nufxlb,nuanmb,nuhlpb,nushdb,nulstb}"];
+    let patterns = ["*.{numatb,numdlb,numshb,nusktb,nurpdb,nufxlb,nuanmb,nuhlpb,nushdb}"];
     globwalk::GlobWalkerBuilder::from_patterns(folder, &patterns)
         .build()
         .unwrap()
@@ -48,13 +48,7 @@ fn main() {
 }
 
 fn check_read_write_ssbh(path: &Path) {
-    let before = match std::fs::read(path) {
-        Ok(before) => before,
-        _ => {
-            println!("Error reading {path:?}");
-            return;
-        }
-    };
+    let before = std::fs::read(path).unwrap();
     match ssbh_lib::SsbhFile::read(&mut Cursor::new(&before)) {
         Ok(ssbh) => {
             // Check any supported file for 1:1 read/write.
@@ -71,13 +65,7 @@ fn check_read_write_ssbh(path: &Path) {
 }
 
 fn check_read_write_meshex(path: &Path) {
-    let before = match std::fs::read(path) {
-        Ok(before) => before,
-        _ => {
-            println!("Error reading {path:?}");
-            return;
-        }
-    };
+    let before = std::fs::read(path).unwrap();
     match ssbh_lib::formats::meshex::MeshEx::read(&mut Cursor::new(&before)) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
@@ -94,13 +82,7 @@ fn check_read_write_meshex(path: &Path) {
 }
 
 fn check_read_write_adj(path: &Path) {
-    let before = match std::fs::read(path) {
-        Ok(before) => before,
-        _ => {
-            println!("Error reading {path:?}");
-            return;
-        }
-    };
+    let before = std::fs::read(path).unwrap();
     match ssbh_lib::formats::adj::Adj::read(&mut Cursor::new(&before)) {
         Ok(data) => {
             // Check any supported file for 1:1 read/write.
-- 
2.43.0


From 5e4d32d0e37504764a5db0b48b1d6aaca4a2c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 26/27] fix: pass read arguments to array elements

---
 ssbh_lib/src/arrays.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ssbh_lib/src/arrays.rs b/ssbh_lib/src/arrays.rs
index 00496e2..e895e00 100644
--- a/ssbh_lib/src/arrays.rs
+++ b/ssbh_lib/src/arrays.rs
@@ -216,17 +216,26 @@ where
     fn read_options<R: Read + Seek>(
         reader: &mut R,
         endian: Endian,
-        _args: Self::Args<'_>,
+        args: Self::Args<'_>,
     ) -> BinResult<Self> {
-        let elements = read_ssbh_array(reader, read_elements, endian)?;
+        let elements = read_ssbh_array(
+            reader,
+            |reader, endian, count| read_elements(reader, endian, args.clone(), count),
+            endian,
+        )?;
         Ok(Self { elements })
     }
 }
 
-fn read_elements<T, R: Read + Seek>(reader: &mut R, endian: Endian, count: u64) -> BinResult<Vec<T>>
+fn read_elements<'a, T, R: Read + Seek>(
+    reader: &mut R,
+    endian: Endian,
+    args: T::Args<'a>,
+    count: u64,
+) -> BinResult<Vec<T>>
 where
     T: BinRead,
-    for<'a> T::Args<'a>: Default,
+    T::Args<'a>: Clone,
 {
     // Reduce the risk of failed allocations due to malformed array lengths (ex: -1 in two's complement).
     // This only bounds the initial capacity, so large elements can still resize the vector as needed.
@@ -237,7 +246,7 @@ where
         SSBH_ARRAY_MAX_INITIAL_CAPACITY,
     ));
     for _ in 0..count {
-        let element = T::read_options(reader, endian, T::Args::default())?;
+        let element = T::read_options(reader, endian, args.clone())?;
         elements.push(element);
     }
 
-- 
2.43.0


From 7fe40283d52d9f693c715bc5adcbc2573356d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 27/27] fix: round compressed floats to the nearest code so
 saving again does not change them

---
 ssbh_data/src/anim_data/compression.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 2d3057a..7dbd713 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -403,10 +403,9 @@ fn compress_f32(value: f32, min: f32, max: f32, bit_count: NonZeroU64) -> Compre
     // TODO: There could be large errors due to cancellations when the absolute difference of max and min is small.
     // This is likely rare in practice.
     // The difference of max and min may not fit in f32, so calculate the ratio using f64.
-    let ratio = ((value as f64 - min as f64) / (max as f64 - min as f64)) as f32;
-    let compressed = ratio * scale as f32;
-    // TODO: Should this truncate or round for best accuracy?
-    compressed as CompressedBits
+    let ratio = (value as f64 - min as f64) / (max as f64 - min as f64);
+    // Round to the nearest value, so values that are already compressed stay the same when saved again.
+    (ratio * scale as f64).round() as CompressedBits
 }
 
 fn decompress_f32(value: CompressedBits, min: f32, max: f32, bit_count: NonZeroU64) -> Option<f32> {
-- 
2.43.0

