From 6b3ac54a1c984f498ef65679a65f210eb165ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:22 +0000
Subject: [PATCH 01/19] fix: IOWindow::read_exact refused reads that fit and
 allowed reads past the window end

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From 672dcf75276e5dc79817dd76d366bfc9dfb6a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:40 +0000
Subject: [PATCH 02/19] fix: IOWindow::seek relative to the current position
 used the source's position

---
 src/window.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..642c22a 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,7 +113,10 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            // relative to our own position, the source might be positioned somewhere else
+            SeekFrom::Current(off) => {
+                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
+            }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
                     SeekFrom::Start((self.start + length).saturating_add_signed(off))
@@ -121,7 +124,11 @@ where
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
+            SeekFrom::Start(off) => SeekFrom::Start(
+                self.start
+                    .checked_add(off)
+                    .ok_or(io::ErrorKind::InvalidInput)?,
+            ),
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From e1197e22a9de6cb329ea4608cdcfc85523202eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:29 +0000
Subject: [PATCH 03/19] fix: a ticket naming an unknown common key panicked
 instead of failing

---
 src/structs.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..ff4591a 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -98,24 +98,39 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn get_common_key(common_key_idx: u8) -> Result<[u8; 16], String> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .copied()
+        .ok_or_else(|| format!("unknown common key {common_key_idx}"))
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +143,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +160,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From 0ff2650d34e4937d3a06d839143a70c9e6a196d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:51 +0000
Subject: [PATCH 04/19] fix: malformed file tables panicked, overflowed the
 stack or reserved huge amounts of memory

---
 src/fst.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..619464b 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// Directories nested deeper than this are rejected when reading
+const MAX_DEPTH: u32 = 2048;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -318,15 +321,15 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
-        nodes.push(root_node);
+        // the node count can't be trusted, so don't reserve memory based on it
+        let mut nodes = vec![root_node];
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
         }
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -336,15 +339,28 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                if node.length < *cur_idx || node.length > children_end || depth >= MAX_DEPTH {
+                    return Err(binrw::Error::Custom {
+                        pos: str_offset,
+                        err: Box::new(format!("invalid FST directory node: {:?}", node)),
+                    });
+                }
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
-- 
2.43.0


From 5ded58a7ceaf529e846ef7e71c2dd03f94e946e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:51 +0000
Subject: [PATCH 05/19] fix: apploader and file sizes from headers could
 overflow or reserve huge amounts of memory

---
 src/new_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..300c5a9 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -93,7 +93,8 @@ impl EncryptedPartState {
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
         buffer.clear();
-        buffer.reserve(length as usize);
+        // the length can come from untrusted headers, the buffer grows as needed
+        buffer.reserve(length.min(GROUP_DATA_SIZE) as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
@@ -295,9 +296,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 87da2a796d71bcf608b1d82e2cb40334141d82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:52 +0000
Subject: [PATCH 06/19] fix: DOLs whose sections aren't stored back to back
 were read with the wrong size

---
 src/new_reader.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 300c5a9..24b08cb 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -310,16 +310,15 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(dol_offset))?;
         let dol_header = crypt_part_reader.read_be::<DOLHeader>()?;
-        let mut dol_size = dol_header.text_off[0];
-        dol_size = dol_size.saturating_add(
-            dol_header
-                .text_sizes
-                .iter()
-                .chain(dol_header.data_sizes.iter())
-                .cloned()
-                .reduce(|accum, item| accum.saturating_add(item))
-                .unwrap(),
-        );
+        // the sections can be stored in any order and with gaps
+        let dol_size = dol_header
+            .text_off
+            .iter()
+            .zip(dol_header.text_sizes.iter())
+            .chain(dol_header.data_off.iter().zip(dol_header.data_sizes.iter()))
+            .filter(|(_, size)| **size != 0)
+            .map(|(off, size)| off.saturating_add(*size))
+            .fold(0x100, u32::max);
         if dol_size == u32::MAX {
             Err(binrw::Error::Custom {
                 pos: dol_offset,
-- 
2.43.0


From abe2a4ef27d78e8e41904f8b053306d53febbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:26 +0000
Subject: [PATCH 07/19] fix: disc titles that fill or exceed their field moved
 all following header fields

---
 src/structs.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index ff4591a..3527cca 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -236,6 +236,17 @@ pub struct WiiPartitionHeader {
     pub data_size: ShiftedU64,
 }
 
+fn read_game_title(bytes: [u8; 64]) -> String {
+    NullString(bytes.into_iter().take_while(|b| *b != 0).collect()).to_string()
+}
+
+fn write_game_title(title: &String) -> [u8; 64] {
+    let mut bytes = [0; 64];
+    let length = title.len().min(bytes.len());
+    bytes[..length].copy_from_slice(&title.as_bytes()[..length]);
+    bytes
+}
+
 /// Wii disc header
 #[binrw]
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -251,9 +262,9 @@ pub struct DiscHeader {
     pub wii_magic: u32,
     /// If this is a GameCube disc, this will be 0xC2339F3D
     pub gcn_magic: u32,
-    #[brw(pad_size_to(64))]
-    #[br(map = |s| NullString::to_string(&s))]
-    #[bw(map = |s| NullString::from(s.clone()))]
+    // takes up exactly 64 bytes, even if there is no space for a null terminator
+    #[br(map = read_game_title)]
+    #[bw(map = write_game_title)]
     pub game_title: String,
     /// Disable hash verification
     pub disable_hash_verification: u8,
-- 
2.43.0


From 658bdc43cf3a7247d1c569033c353c6e379a188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:48 +0000
Subject: [PATCH 08/19] fix: a partition that failed to be added was still
 listed in the partition table

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..6085a0b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,10 +115,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -289,6 +285,11 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        // only list partitions that have been written completely
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 3b418eeaeedfccba04b7ab0e75aff132526b7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:48 +0000
Subject: [PATCH 09/19] fix: stale partition table groups of the destination
 were kept

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 6085a0b..cca7a98 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -305,6 +305,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // we keep everything in one group, first write count then offset
         self.file.write_be(&(self.partitions.len() as u32))?;
         self.file.write_be(&(0x40020u32 >> 2))?;
+        // the other 3 groups are empty
+        self.file.write_all(&[0; 3 * 8])?;
         // write entries
         self.file.seek(SeekFrom::Start(0x40020))?;
         for partition in self.partitions.iter() {
-- 
2.43.0


From a836f6dbea582319f2b13308e8753ca09c48fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:49 +0000
Subject: [PATCH 10/19] fix: build progress could exceed 100 percent

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index cca7a98..aaefacf 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -211,7 +211,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
                     processed_file_bytes += bytes_to_write;
                     let done_percent =
                         ((processed_file_bytes as f64) / (total_bytes as f64) * 100f64) as u8;
-                    progress_cb(done_percent);
+                    // the lengths in the fst are only placeholders and can be too small
+                    progress_cb(done_percent.min(100));
                 }
             }
             const ZEROS: [u8; 0x40] = [0; 0x40];
-- 
2.43.0


From 32e32b5772d3357e74d7fca2169cb58973cf6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:07 +0000
Subject: [PATCH 11/19] fix: TMDs without contents panicked and large ones got
 overwritten by the hash table

---
 src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index aaefacf..657c412 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -139,6 +139,13 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         partition_window.write_be(&cert_chain)?;
         part_header.cert_chain_size =
             (partition_window.stream_position()? - *part_header.cert_chain_off) as u32;
+        if tmd.contents.is_empty() || partition_window.stream_position()? > 0x8000 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "TMD has no contents or doesn't fit in front of the hash table",
+            )
+            .into());
+        }
         // global hash table at 0x8000, encrypted data starts at 0x20000
         // let mut h3: Box<[u8; 0x18000]> = vec![0u8; 0x18000].into_boxed_slice().try_into().unwrap();
         // now we write encrypted data
-- 
2.43.0


From eff01a84fad752a0bc2c71d57079de9623009091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:22 +0000
Subject: [PATCH 12/19] fix: names that don't survive shift-jis or the name
 table were silently altered

---
 src/fst.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 619464b..7cb304f 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -533,6 +533,8 @@ pub struct FstToBytes {
 pub enum FstToBytesError {
     #[error("{0} can't be converted into shift-jis!")]
     InvalidShiftJis(String),
+    #[error("the names of all files and directories are too long in total")]
+    NamesTooLong,
 }
 
 fn rec_build_fst_bytes(
@@ -542,10 +544,15 @@ fn rec_build_fst_bytes(
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
-        if error {
+        // names are null terminated and have to stay the same when reading them again
+        if error || bytes.contains(&0) || SHIFT_JIS.decode(&bytes).0 != node.get_name().as_str() {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
+        // there are only 24 bits to store it
+        if name_offset > 0xffffff {
+            return Err(FstToBytesError::NamesTooLong);
+        }
         str_bytes.extend_from_slice(bytes.as_ref());
         str_bytes.push(0);
         name_offsets.push(name_offset as u32);
-- 
2.43.0


From 8f0199a9cd48171748acb3c0faf9fb76b3db7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:38 +0000
Subject: [PATCH 13/19] fix: extraction followed file names of the image out of
 the destination directory

---
 disc-riider-py/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..d9ff136 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -234,6 +234,15 @@ impl WiiIsoExtractor {
                     if let FstNode::File { offset, length, .. } = node {
                         let mut filepath = section_path.join("files");
                         for name in names {
+                            // names come from the image, they must not lead out of the directory
+                            let mut components = Path::new(name).components();
+                            if !matches!(components.next(), Some(Component::Normal(n)) if n == *name)
+                            {
+                                return Err(std::io::Error::new(
+                                    std::io::ErrorKind::InvalidData,
+                                    format!("invalid filename: {name:?}"),
+                                ));
+                            }
                             filepath.push(name);
                         }
                         // println!("{filepath:?}");
-- 
2.43.0


From dee3fc1df27ecd6c5377f2f831370522829b92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:01 +0000
Subject: [PATCH 14/19] fix: extracting a section without files left out the
 files directory a rebuild needs

---
 disc-riider-py/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index d9ff136..70b7102 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -204,6 +204,8 @@ impl WiiIsoExtractor {
 
             let section_path_disk = section_path.join("disc");
             create_dir_all(&section_path_disk)?;
+            // rebuilding needs this, even if there are no files
+            create_dir_all(section_path.join("files"))?;
 
             binrw_write_file(&section_path_disk.join("header.bin"), &disc_header)?;
             fs::write(section_path_disk.join("region.bin"), region)?;
-- 
2.43.0


From 029542b91c9054a2226c67d6389deef0c7420209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:06 +0000
Subject: [PATCH 15/19] fix: a partition with more groups than the hash table
 can hold panicked

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 657c412..cd52994 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -153,7 +153,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             &mut partition_window,
             0x20000,
             part_header.ticket.title_key,
-            None,
+            // the hash table has no space for more groups
+            Some(0x18000 / 20),
             0,
         );
         let source_fst = partition_def.get_fst()?;
-- 
2.43.0


From d63a76fca28e54087efe02f7ece619fc0df49f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:09 +0000
Subject: [PATCH 16/19] fix: the length of a file of 4 GiB or more was silently
 truncated

---
 src/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index cd52994..d7bbbe2 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -209,7 +209,9 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             *offset = crypto_writer.stream_position()?;
             let (data, padding) = partition_def.get_file_data(path)?;
             let mut remaining_data = data.as_ref();
-            *size = remaining_data.len() as u32;
+            *size = remaining_data.len().try_into().map_err(|_| {
+                io::Error::new(io::ErrorKind::InvalidInput, "file is too large")
+            })?;
             while remaining_data.len() > 0 {
                 let bytes_to_write = remaining_data.len().min(0x1_000_000);
                 let batch;
-- 
2.43.0


From 53828fb5ac50b3d1b8319134398142287e9b9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:37 +0000
Subject: [PATCH 17/19] fix: extracting a file that reaches past the
 partition's data silently truncated it

---
 disc-riider-py/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 70b7102..39ca348 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -272,6 +272,12 @@ impl WiiIsoExtractor {
                                 let _ = callback.call1(py, (done_percent,));
                             });
                         }
+                        if bytes_left != 0 {
+                            return Err(std::io::Error::new(
+                                std::io::ErrorKind::UnexpectedEof,
+                                format!("{filepath:?} reaches past the end of the partition"),
+                            ));
+                        }
                     }
 
                     Ok(())
-- 
2.43.0


From 07cb3df20bc07f36bf3cb35918aafaea28b54963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:00 +0000
Subject: [PATCH 18/19] fix: an interrupted seek of the destination corrupted
 the group that was being written

---
 src/window.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 642c22a..c329a4d 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -24,14 +24,23 @@ where
 
     fn ensure_seeked(&mut self) -> io::Result<()> {
         if self.needs_seek {
-            self.source
-                .seek(SeekFrom::Start(self.pos + self.start))
-                .map(drop)
+            self.seek_source(self.pos + self.start).map(drop)
         } else {
             Ok(())
         }
     }
 
+    // retries interrupted seeks, otherwise callers like write_all would repeat an entire operation
+    // that has only been done partially
+    fn seek_source(&mut self, pos: u64) -> io::Result<u64> {
+        loop {
+            match self.source.seek(SeekFrom::Start(pos)) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+
     fn bytes_left(&self) -> Option<usize> {
         self.length
             .map(|length| length.saturating_sub(self.pos) as usize)
@@ -112,23 +121,20 @@ where
     R: Seek,
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
-        let position = self.source.seek(match pos {
+        let position = self.seek_source(match pos {
             // relative to our own position, the source might be positioned somewhere else
-            SeekFrom::Current(off) => {
-                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
-            }
+            SeekFrom::Current(off) => (self.start + self.pos).saturating_add_signed(off),
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    (self.start + length).saturating_add_signed(off)
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(
-                self.start
-                    .checked_add(off)
-                    .ok_or(io::ErrorKind::InvalidInput)?,
-            ),
+            SeekFrom::Start(off) => self
+                .start
+                .checked_add(off)
+                .ok_or(io::ErrorKind::InvalidInput)?,
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From 803a904c7fcca8b68f97f154f72bc2b87f0a6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 19/19] fix: a bi2 too large for its place was partly
 overwritten by the apploader

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index d7bbbe2..d4bfd07 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -177,7 +177,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         let mut fst = FstToBytes::try_from(source_fst)?;
         let mut part_disc_header = partition_def.get_disc_header()?;
         crypto_writer.seek(SeekFrom::Start(0x440))?;
-        crypto_writer.write_all(&partition_def.get_bi2()?)?;
+        let bi2 = partition_def.get_bi2()?;
+        // the apploader follows at a fixed address
+        if bi2.len() > 0x2000 {
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "bi2 is too large").into());
+        }
+        crypto_writer.write_all(&bi2)?;
 
         // write apploader (always at the same address)
         crypto_writer.seek(SeekFrom::Start(0x2440))?;
-- 
2.43.0

