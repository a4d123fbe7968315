From 75747773a007fd6d04622eb5e97ea2b0c028c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 01/40] fix: cached store answered predicate counts with the
 inner store's value count

---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..2cec0e7 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -197,7 +197,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From 3bc45fb1fbc8a8ec35ca67a0e3a189141ff36332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 02/40] fix: layer_changes collected the top layer's changes
 for every ancestor

---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..788f507 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From 99f2ae62457af8a26c613f130fd8bff59dc7b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 03/40] fix: delta rollup took predicate id maps from the
 node/value id maps

---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..aa0e97b 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -195,7 +195,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
             layer
                 .immediate_layers_upto(memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From 33cd16b7d94309f6004db1933ee0cea797fa7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 04/40] fix: ArchiveSliceReader reported a failed read as end
 of file

---
 src/storage/archive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..08cbff0 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1024,8 +1024,8 @@ impl AsyncRead for ArchiveSliceReader {
 
         let before_len = buf.filled().len();
         let read = AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf);
-        if let Poll::Pending = read {
-            return Poll::Pending;
+        if !matches!(read, Poll::Ready(Ok(()))) {
+            return read;
         }
 
         let after_len = buf.filled().len();
-- 
2.43.0


From fc24484ebe4903a4933f9ecff1a5b36cba6f2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 05/40] fix: size of an archive rollup file did not agree with
 its contents

---
 src/storage/archive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 08cbff0..e8946a9 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1104,7 +1104,8 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
             .await?
             .is_some()
         {
-            Ok(std::mem::size_of::<[u32; 5]>() + 2)
+            // version line plus the hexadecimal layer name, as produced by map
+            Ok(std::mem::size_of::<[u32; 5]>() * 2 + 2)
         } else {
             Err(io::Error::new(
                 io::ErrorKind::NotFound,
-- 
2.43.0


From adffe0a9dd472bbbf1e61da3f720ebb3027fb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 06/40] fix: reading an archived file from beyond its end left
 its slice or panicked

---
 src/storage/archive.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index e8946a9..3901c65 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -212,7 +212,12 @@ impl ArchiveBackend for DirectoryArchiveBackend {
             .range_for(file_type)
             .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "slice not found in archive"))?;
 
-        let remaining = range.len() - read_from;
+        let remaining = range.len().checked_sub(read_from).ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "offset is beyond end of file",
+            )
+        })?;
         file.seek(SeekFrom::Current((range.start + read_from) as i64))
             .await?;
 
@@ -557,6 +562,12 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 .ok_or_else(|| {
                     io::Error::new(io::ErrorKind::NotFound, "slice not found in archive")
                 })?;
+            if bytes.len() < read_from {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "offset is beyond end of file",
+                ));
+            }
             bytes.advance(read_from);
 
             Ok(Either::Left(BytesAsyncReader(bytes)))
@@ -1116,6 +1127,12 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
 
     async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
         let mut bytes = self.map().await?;
+        if bytes.len() < offset {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "offset is beyond end of file",
+            ));
+        }
         bytes.advance(offset);
         Ok(BytesAsyncReader(bytes))
     }
-- 
2.43.0


From ed1f4cf9a1f26ece779cbbf1f236bab883ee461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 07/40] fix: partial rollup of a layer with a full rollup
 failed for lack of a parent file

---
 src/storage/layer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 788f507..f4d2596 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1770,7 +1770,9 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            if self.layer_has_parent(rollup).await?
+                && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1805,7 +1807,9 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            if self.layer_has_parent(rollup).await?
+                && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From 8822f2e50d7dd21f6ad60a8dafb5e22ab2e3ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 08/40] fix: perform_imprecise_rollup_upto ran the precise
 rollup

---
 src/storage/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index f4d2596..e196f5c 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -140,7 +140,7 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         layer: Arc<InternalLayer>,
         upto: [u32; 5],
     ) -> io::Result<[u32; 5]> {
-        self.perform_rollup_upto_with_cache(layer, upto, NOCACHE.clone())
+        self.perform_imprecise_rollup_upto_with_cache(layer, upto, NOCACHE.clone())
             .await
     }
     async fn register_rollup(&self, layer: [u32; 5], rollup: [u32; 5]) -> io::Result<()>;
-- 
2.43.0


From e0aabf4ff3d27f266f5e64181a10eeb59badfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/40] fix: imprecise rollup recorded a parent other than the
 boundary it was computed against

---
 src/storage/delta.rs |  2 +-
 src/storage/layer.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa0e97b..c715c03 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,7 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+pub(crate) async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index e196f5c..954a3f8 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1815,10 +1815,18 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             }
         }
 
+        // we may not be able to go all the way back to the given boundary.
+        // The parent we record has to be the boundary that we do reach.
+        let bound = safe_upto_bound(self, &layer, upto).await?;
+        if layer.name() == bound || layer.parent_name() == Some(bound) {
+            // same as above, there's nothing to roll up.
+            return Ok(layer.name());
+        }
+
         let (layer_dir, _parent_layer, child_layer_files) = self
-            .create_child_layer_files_with_cache(upto, cache)
+            .create_child_layer_files_with_cache(bound, cache)
             .await?;
-        imprecise_delta_rollup_upto(self, &layer, upto, child_layer_files).await?;
+        imprecise_delta_rollup_upto(self, &layer, bound, child_layer_files).await?;
         self.finalize(layer_dir).await?;
         Ok(layer_dir)
     }
-- 
2.43.0


From bb96da4dd1a5faf155f17f5f2e1bfc2638281d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 10/40] fix: a 40-byte layer name with multi-byte characters
 panicked

---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 954a3f8..5d49466 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1392,10 +1392,10 @@ pub fn name_to_string(name: [u32; 5]) -> String {
 }
 
 pub fn string_to_name(string: &str) -> Result<[u32; 5], std::io::Error> {
-    if string.len() != 40 {
+    if string.len() != 40 || !string.is_ascii() {
         return Err(io::Error::new(
             io::ErrorKind::Other,
-            format!("string not len 40: {}", string),
+            format!("string not 40 ascii characters: {}", string),
         ));
     }
     let n1 = u32::from_str_radix(&string[..8], 16)
-- 
2.43.0


From 755e1da7baf4e6b0eb369354b21b0abe48c2c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 11/40] fix: malformed parent and rollup links in an archive
 store panicked

---
 src/storage/archive.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 3901c65..72a4764 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -34,6 +34,7 @@ use tdb_succinct::{
 };
 
 use super::{
+    bytes_to_name,
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
@@ -311,7 +312,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             // no such layer - therefore no such rollup
             return Ok(None);
         }
-        let _layer_lock = layer_lock.unwrap();
+        let _layer_lock = layer_lock?;
 
         let path = self.path_for_rollup(id);
         let result = fs::read_to_string(path).await;
@@ -320,10 +321,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             return Ok(None);
         }
         let data = result?;
-        let name = data.lines().skip(1).next().expect(
-            "Expected rollup file to have two lines but was unable to skip to the second line",
-        );
-        Ok(Some(string_to_name(&name)?))
+        Ok(Some(rollup_name_from_data(&data)?))
     }
 
     async fn set_rollup(&self, id: [u32; 5], rollup: [u32; 5]) -> io::Result<()> {
@@ -349,14 +347,27 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             .get_layer_structure_bytes(id, LayerFileEnum::Parent)
             .await?
         {
-            let parent_string = std::str::from_utf8(&parent_bytes[..40]).unwrap();
-            Ok(Some(string_to_name(parent_string).unwrap()))
+            let name = parent_bytes.get(..40).unwrap_or(&parent_bytes);
+            Ok(Some(bytes_to_name(name)?))
         } else {
             Ok(None)
         }
     }
 }
 
+/// Retrieve the layer name out of the contents of a rollup file.
+fn rollup_name_from_data(data: &str) -> io::Result<[u32; 5]> {
+    // first line is going to be a version number. it should be discarded.
+    let name = data.lines().nth(1).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            "expected rollup file to have two lines",
+        )
+    })?;
+
+    string_to_name(name)
+}
+
 #[derive(Clone)]
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
@@ -647,8 +658,8 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
             .get_layer_structure_bytes(id, LayerFileEnum::Parent)
             .await?
         {
-            let parent_string = std::str::from_utf8(&parent_bytes[..40]).unwrap();
-            Ok(Some(string_to_name(parent_string).unwrap()))
+            let name = parent_bytes.get(..40).unwrap_or(&parent_bytes);
+            Ok(Some(bytes_to_name(name)?))
         } else {
             Ok(None)
         }
@@ -1200,11 +1211,7 @@ impl<M: ArchiveMetadataBackend + Unpin> AsyncWrite for ArchiveRollupFileWriter<M
 #[async_trait]
 impl<M: ArchiveMetadataBackend + Unpin> SyncableFile for ArchiveRollupFileWriter<M> {
     async fn sync_all(self) -> io::Result<()> {
-        let rollup_string =
-            String::from_utf8(self.data.to_vec()).expect("rollup id was not a string");
-        // first line of this string is going to be a version number. it should be discarded.
-        let line = rollup_string.lines().skip(1).next().unwrap();
-        let rollup_id = string_to_name(&line)?;
+        let rollup_id = rollup_name_from_data(&String::from_utf8_lossy(&self.data))?;
 
         self.metadata_backend
             .set_rollup(self.layer_id, rollup_id)
-- 
2.43.0


From 8ea11e26f107b6cc64055a17b1c464521de765fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 12/40] fix: an unknown file name in a pack panicked an archive
 store

---
 src/storage/archive.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 72a4764..7a0b657 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1382,6 +1382,15 @@ impl<M, D> ArchiveLayerStore<M, D> {
 
 const PREFIX_DIR_SIZE: usize = 3;
 
+fn file_type_for_name(name: &str) -> io::Result<LayerFileEnum> {
+    FILENAME_ENUM_MAP.get(name).copied().ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("not the name of a layer file: {name:?}"),
+        )
+    })
+}
+
 #[async_trait]
 impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> PersistentLayerStore
     for ArchiveLayerStore<M, D>
@@ -1435,7 +1444,7 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
     }
 
     async fn get_file(&self, directory: [u32; 5], name: &str) -> io::Result<Self::File> {
-        let file_type = FILENAME_ENUM_MAP[name];
+        let file_type = file_type_for_name(name)?;
         if file_type == LayerFileEnum::Rollup {
             // special case! This is always coming from disk, in its own file
             return Ok(ArchiveLayerHandle::Rollup(ArchiveRollupFile {
@@ -1472,7 +1481,7 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
     }
 
     async fn file_exists(&self, directory: [u32; 5], file: &str) -> io::Result<bool> {
-        let file_type = FILENAME_ENUM_MAP[file];
+        let file_type = file_type_for_name(file)?;
         if file_type == LayerFileEnum::Rollup {
             // special case! This is always coming out of the persistent metadata
             return Ok(self.metadata_backend.get_rollup(directory).await?.is_some());
-- 
2.43.0


From b48f9740239d0e8f22ea6ec872baef3cdf04b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 13/40] fix: creating a layer that already exists panicked an
 archive store and poisoned it

---
 src/storage/archive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 7a0b657..412970c 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1420,15 +1420,21 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
             let mut guard = self.construction.write().unwrap();
             if guard.contains_key(&name) {
                 // whoops! Looks like layer is already under construction!
-                panic!("tried to create a new layer which is already under construction");
+                return Err(io::Error::new(
+                    io::ErrorKind::AlreadyExists,
+                    "tried to create a new layer which is already under construction",
+                ));
             }
 
             // layer is neither on disk nor in the construction map. Let's create it.
             guard.insert(name, HashMap::new());
-            return Ok(name);
+            Ok(name)
         } else {
             // still here? That means the file existed, even though it shouldn't!
-            panic!("tried to create a new layer which already exists");
+            Err(io::Error::new(
+                io::ErrorKind::AlreadyExists,
+                "tried to create a new layer which already exists",
+            ))
         }
     }
 
-- 
2.43.0


From e734f22909353ec0e473f80a06a76fdee8c4a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 14/40] fix: errors while writing a pack panicked

---
 src/storage/pack.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..40195d8 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -54,10 +54,9 @@ impl<T: PersistentLayerStore> Packable for T {
             for id in layer_ids {
                 tar_append_layer(&mut tar, self, id, mtime).await?;
             }
-            tar.finish().unwrap();
+            tar.finish()?;
         }
-        // TODO: Proper error handling
-        Ok(enc.finish().unwrap())
+        enc.finish()
     }
 
     async fn import_layers(
@@ -153,7 +152,7 @@ async fn tar_append_file<S: PersistentLayerStore, W: io::Write>(
         header.set_mode(0o644);
         header.set_size(file.size().await? as u64);
         header.set_mtime(mtime);
-        tokio::task::block_in_place(|| tar.append_data(&mut header, path, cursor).unwrap());
+        tokio::task::block_in_place(|| tar.append_data(&mut header, path, cursor))?;
 
         Ok(())
     } else {
@@ -183,7 +182,7 @@ async fn tar_append_file_if_exists<S: PersistentLayerStore, W: io::Write>(
         header.set_mode(0o644);
         header.set_size(file.size().await? as u64);
         header.set_mtime(mtime);
-        tokio::task::block_in_place(|| tar.append_data(&mut header, path, cursor).unwrap());
+        tokio::task::block_in_place(|| tar.append_data(&mut header, path, cursor))?;
     }
 
     Ok(())
@@ -203,10 +202,7 @@ async fn tar_append_layer<W: io::Write, S: PersistentLayerStore>(
     let layer_name = name_to_string(layer);
     let mut path = PathBuf::new();
     path.push(layer_name);
-    tokio::task::block_in_place(|| {
-        tar.append_data(&mut header, &path, std::io::empty())
-            .unwrap()
-    });
+    tokio::task::block_in_place(|| tar.append_data(&mut header, &path, std::io::empty()))?;
 
     for f in &SHARED_REQUIRED_FILES {
         tar_append_file(store, tar, layer, &path, f, mtime).await?;
-- 
2.43.0


From 63a220704d9c79190a3806c97b678ebfcc5a60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 15/40] fix: malformed entries in a pack panicked

---
 src/storage/pack.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 40195d8..1d7e44e 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::ffi::OsStr;
 use std::fmt::Display;
 use std::io::{self, Read};
 use std::path::PathBuf;
@@ -83,9 +84,9 @@ impl<T: PersistentLayerStore> Packable for T {
             for e in archive.entries()? {
                 let mut entry = e?;
                 let path = entry.path()?;
-                let os_file_name = path.file_name().unwrap();
-                let file_name = os_file_name
-                    .to_str()
+                let file_name = path
+                    .file_name()
+                    .and_then(|n| n.to_str())
                     .ok_or_else(|| {
                         io::Error::new(
                             io::ErrorKind::InvalidData,
@@ -108,7 +109,7 @@ impl<T: PersistentLayerStore> Packable for T {
                         continue;
                     }
 
-                    let mut content = Vec::with_capacity(header.size()? as usize);
+                    let mut content = Vec::new();
                     entry.read_to_end(&mut content)?;
 
                     handle.block_on(async move {
@@ -272,15 +273,16 @@ pub fn pack_layer_parents<R: io::Read>(
         let mut entry = e?;
         let path = entry.path()?;
 
-        let id = string_to_name(
-            path.iter()
-                .next()
-                .expect("expected path to have at least one component")
-                .to_str()
-                .expect("expected proper unicode path"),
-        )?;
+        let id = string_to_name(path.iter().next().and_then(|p| p.to_str()).ok_or_else(
+            || {
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "pack entry has no proper unicode path",
+                )
+            },
+        )?)?;
 
-        if path.file_name().expect("expected path to have a filename") == "parent.hex" {
+        if path.file_name() == Some(OsStr::new("parent.hex")) {
             // this is an element we want to know the parent of
             // lets read it
             let mut parent_id_bytes = [0u8; 40];
-- 
2.43.0


From 51867a878aeaf88935e2314095087a47f2caf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 16/40] fix: a directory store could not list its own layers

---
 src/storage/directory.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..d5d1382 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -34,16 +34,26 @@ impl PersistentLayerStore for DirectoryLayerStore {
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
-                let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+        while let Some(prefix_entry) = stream.next_entry().await? {
+            // layer directories live in a directory named after the first characters of the layer name
+            if prefix_entry.file_name().len() != PREFIX_DIR_SIZE
+                || !prefix_entry.file_type().await?.is_dir()
+            {
+                continue;
+            }
+
+            let mut prefix_stream = fs::read_dir(prefix_entry.path()).await?;
+            while let Some(direntry) = prefix_stream.next_entry().await? {
+                if direntry.file_type().await?.is_dir() {
+                    let os_name = direntry.file_name();
+                    let name = os_name.to_str().ok_or_else(|| {
+                        io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "unexpected non-utf8 directory name",
+                        )
+                    })?;
+                    result.push(string_to_name(name)?);
+                }
             }
         }
 
-- 
2.43.0


From 6a0e3cf21afdb7974b398e4bc8c7d433889a50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 17/40] fix: an archive store listed no layers

---
 src/storage/archive.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 412970c..c24c54b 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -231,17 +231,27 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     async fn get_layer_names(&self) -> io::Result<Vec<[u32; 5]>> {
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+        while let Some(prefix_entry) = stream.next_entry().await? {
+            // layer files live in a directory named after the first characters of the layer name
+            if prefix_entry.file_name().len() != PREFIX_DIR_SIZE
+                || !prefix_entry.file_type().await?.is_dir()
+            {
+                continue;
+            }
+
+            let mut prefix_stream = fs::read_dir(prefix_entry.path()).await?;
+            while let Some(direntry) = prefix_stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                let name = os_name.to_str().ok_or_else(|| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "unexpected non-utf8 directory name",
+                    )
+                })?;
+                if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
+                    let name_component = &name[..name.len() - 6];
+                    result.push(string_to_name(name_component)?);
+                }
             }
         }
 
-- 
2.43.0


From ad7b1aa5b331b292ddace86335859bffa79fc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 18/40] fix: a failing existence test in a directory store was
 reported as absence

---
 src/storage/directory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index d5d1382..ea3bfa9 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -79,7 +79,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_dir()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
 
@@ -101,7 +102,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_file()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
-- 
2.43.0


From 89c95be9be4e76ec9d7ca4849c4665641bc97eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 19/40] fix: memory label store compared only the version of a
 label

---
 src/storage/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 0d8fbfc..75f0b61 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -130,7 +130,7 @@ impl LabelStore for MemoryLabelStore {
                 "label does not exist",
             )),
             Some(old_label) => {
-                if old_label.version + 1 != new_label.version {
+                if old_label != label {
                     Ok(None)
                 } else {
                     labels.insert(new_label.name.clone(), new_label.clone());
-- 
2.43.0


From fe407e6c837fa3c107390d2d70b05f81756d9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 20/40] fix: finalizing a layer in a directory store did not
 sync the entry of its directory

---
 src/storage/directory.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index ea3bfa9..102669c 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -3,7 +3,7 @@
 use locking::*;
 use std::collections::HashMap;
 use std::io::{self, SeekFrom};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -111,21 +111,27 @@ impl PersistentLayerStore for DirectoryLayerStore {
             // ensure the underlying directory record is properly synchronized
             let mut directory_path = self.path.clone();
             let dir_name = name_to_string(directory);
+            sync_directory(&directory_path).await?;
             directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
+            sync_directory(&directory_path).await?;
             directory_path.push(dir_name);
-
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
+            sync_directory(&directory_path).await?;
         }
 
         Ok(())
     }
 }
 
+/// Ensure that the entries of a directory are durable.
+async fn sync_directory(path: &Path) -> io::Result<()> {
+    let mut options = fs::OpenOptions::new();
+    options.create(false);
+    options.read(true);
+    options.write(false);
+    let dir_fd = options.open(path).await?;
+    dir_fd.sync_all().await
+}
+
 #[derive(Clone)]
 pub struct DirectoryLabelStore {
     path: PathBuf,
-- 
2.43.0


From ec06e16778997062ce29cfbaaf6daaa03ced2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 21/40] fix: the directory entry of a new label file was not
 synced

---
 src/storage/directory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 102669c..b9093d0 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -252,6 +252,9 @@ impl LabelStore for DirectoryLabelStore {
                     file.write_all(&contents).await?;
                     file.flush().await?;
                     file.sync_all().await?;
+                    if cfg!(unix) {
+                        sync_directory(&self.path).await?;
+                    }
 
                     Ok(Label::new_empty(label))
                 }
@@ -409,6 +412,9 @@ impl LabelStore for CachedDirectoryLabelStore {
                     file.write_all(contents).await?;
                     file.flush().await?;
                     file.sync_all().await?;
+                    if cfg!(unix) {
+                        sync_directory(&self.path).await?;
+                    }
 
                     let l = Label::new_empty(label);
                     labels.insert(label.to_string(), l.clone());
-- 
2.43.0


From 1c73d1806b63c758bccdc49020800cda4251959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 22/40] fix: updating a label in the cached directory store
 left bytes of the old contents behind

---
 src/storage/directory.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index b9093d0..ef9b046 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -448,13 +448,19 @@ impl LabelStore for CachedDirectoryLabelStore {
                 // all good, let's a go
                 let mut p = self.path.clone();
                 p.push(format!("{}.label", label.name));
-                let mut options = fs::OpenOptions::new();
-                options.create(false);
-                options.write(true);
-                let mut file = options.open(p).await?;
+                // write the new contents aside and move them into
+                // place, so that none of the old contents remain and
+                // an interrupted write leaves the old label intact.
+                let mut tmp = self.path.clone();
+                tmp.push(format!("{}.label.tmp", label.name));
+                let mut file = fs::File::create(&tmp).await?;
                 file.write_all(&contents).await?;
                 file.flush().await?;
-                file.sync_data().await?;
+                file.sync_all().await?;
+                fs::rename(tmp, p).await?;
+                if cfg!(unix) {
+                    sync_directory(&self.path).await?;
+                }
 
                 labels.insert(label.name.clone(), new_label.clone());
                 Ok(Some(new_label))
-- 
2.43.0


From a5ab92d08e63d0f66317630838c25d2e1395657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 23/40] fix: a failed delete of a label file dropped the label
 from the cached directory store

---
 src/storage/directory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index ef9b046..2001b38 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -474,10 +474,11 @@ impl LabelStore for CachedDirectoryLabelStore {
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
         let mut labels = self.labels.write().await;
-        if labels.remove(name).is_some() {
+        if labels.contains_key(name) {
             let mut p = self.path.clone();
             p.push(format!("{}.label", name));
             tokio::fs::remove_file(p).await?;
+            labels.remove(name);
 
             Ok(true)
         } else {
-- 
2.43.0


From 13917a0d3b1c1ddd8d0a6ea432849af7faf48e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 24/40] fix: an interrupted write of an archive left a partial
 archive in its place

---
 src/storage/archive.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index c24c54b..7855043 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -8,7 +8,7 @@ use std::{
     collections::HashMap,
     io::{self, ErrorKind, SeekFrom},
     ops::Range,
-    path::PathBuf,
+    path::{Path, PathBuf},
     pin::Pin,
     sync::{Arc, RwLock},
     task::Poll,
@@ -123,6 +123,20 @@ impl DirectoryArchiveBackend {
     }
 }
 
+/// Ensure that the entries of a directory are durable.
+async fn sync_directory(path: &Path) -> io::Result<()> {
+    if cfg!(unix) {
+        let mut options = tokio::fs::OpenOptions::new();
+        options.create(false);
+        options.read(true);
+        options.write(false);
+        let dir_fd = options.open(path).await?;
+        dir_fd.sync_all().await?;
+    }
+
+    Ok(())
+}
+
 #[async_trait]
 impl ArchiveBackend for DirectoryArchiveBackend {
     type Read = ArchiveSliceReader;
@@ -171,10 +185,14 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         directory_path.pop();
         fs::create_dir_all(&directory_path).await?;
 
+        // write the archive aside and move it into place when it is
+        // complete, so that there never is a partial archive.
+        let tmp_path = path.with_extension("larch.tmp");
         let mut options = tokio::fs::OpenOptions::new();
         options.create(true);
         options.write(true);
-        let mut file = options.open(path).await?;
+        options.truncate(true);
+        let mut file = options.open(&tmp_path).await?;
         while bytes.remaining() > 0 {
             let chunk = bytes.chunk();
             let written = file.write(chunk).await?;
@@ -183,16 +201,11 @@ impl ArchiveBackend for DirectoryArchiveBackend {
 
         file.flush().await?;
         file.sync_all().await?;
+        fs::rename(tmp_path, path).await?;
 
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
+        // ensure the underlying directory records are properly synchronized
+        sync_directory(&self.path).await?;
+        sync_directory(&directory_path).await?;
 
         Ok(())
     }
-- 
2.43.0


From 37831fa4f031c160744a43cbb50816e640c64876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 25/40] fix: an interrupted rollup registration destroyed the
 previous one

---
 src/storage/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 7855043..71fb2cb 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -357,10 +357,17 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
         data.extend_from_slice(b"1\n");
         data.extend_from_slice(name_to_string(rollup).as_bytes());
         data.extend_from_slice(b"\n");
-        let mut file = fs::File::create(path).await?;
+        // write the new contents aside and move them into place, so
+        // that an interrupted write leaves an old rollup intact.
+        let tmp_path = path.with_extension("hex.tmp");
+        let mut file = fs::File::create(&tmp_path).await?;
         file.write_all(&data).await?;
         file.flush().await?;
         file.sync_all().await?;
+        fs::rename(&tmp_path, &path).await?;
+        if let Some(directory_path) = path.parent() {
+            sync_directory(directory_path).await?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From 3da012fb8870a1133113287dde1a143ebd35c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 26/40] fix: an archive layer was gone while it was being
 stored, and for good if that failed

---
 src/storage/archive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 71fb2cb..b1746c5 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1537,9 +1537,10 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
 
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
         let files = {
-            let mut guard = self.construction.write().unwrap();
+            let guard = self.construction.read().unwrap();
             guard
-                .remove(&directory)
+                .get(&directory)
+                .cloned()
                 .expect("layer to be finalized was not found in construction map")
         };
 
@@ -1570,7 +1571,12 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
 
         self.data_backend
             .store_layer_file(directory, data_buf.freeze())
-            .await
+            .await?;
+
+        // only now that it can be retrieved from storage can the layer under construction go
+        self.construction.write().unwrap().remove(&directory);
+
+        Ok(())
     }
 
     async fn layer_parent(&self, name: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
-- 
2.43.0


From 1112181391257abff0cb8219061c1dfd6c35ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 27/40] fix: the archive cache ignored its size limit

---
 src/storage/archive.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index b1746c5..bf7f45d 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -402,7 +402,6 @@ fn rollup_name_from_data(data: &str) -> io::Result<[u32; 5]> {
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
@@ -430,7 +429,6 @@ impl<M, D> LruArchiveBackend<M, D> {
         Self {
             cache,
             limit,
-            current: 0,
             metadata_origin,
             data_origin,
         }
@@ -482,10 +480,19 @@ fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut
     }
 }
 
+fn cached_bytes(cache: &LruCache<[u32; 5], CacheEntry>) -> usize {
+    cache
+        .iter()
+        .map(|(_, entry)| match entry {
+            CacheEntry::Resolved(bytes) => bytes.len(),
+            CacheEntry::Resolving(_) => 0,
+        })
+        .sum()
+}
+
 fn ensure_enough_cache_space(
     cache: &mut LruCache<[u32; 5], CacheEntry>,
     limit: usize,
-    current: usize,
     required: usize,
 ) -> bool {
     if required > limit {
@@ -493,7 +500,7 @@ fn ensure_enough_cache_space(
         return false;
     }
 
-    let remaining = limit - current;
+    let remaining = limit.saturating_sub(cached_bytes(cache));
     if remaining < required {
         // we need to clean up some cache spacew to fit this entry
         ensure_additional_cache_space(cache, required - remaining);
@@ -545,7 +552,6 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                         if ensure_enough_cache_space(
                             &mut *cache,
                             self.limit_bytes(),
-                            self.current,
                             bytes.len(),
                         ) {
                             let cached = cache
@@ -586,7 +592,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
         let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        if !cache.contains(&id)
+            && ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len())
+        {
+            cache.put(id, CacheEntry::Resolved(bytes));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 47793d7302ce95a610cdba5e5f99f77d0c01fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 28/40] fix: an abandoned lookup left the archive cache
 unresolved forever

---
 src/storage/archive.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index bf7f45d..0c00c87 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -528,9 +528,24 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 // someone is already looking up this layer. we'll wait for them to be done.
                 std::mem::drop(cache);
                 let guard = barrier.read().await;
-                match guard.as_ref().unwrap() {
-                    Ok(bytes) => Ok(bytes.clone()),
-                    Err(kind) => Err(io::Error::new(*kind, "layer resolve failed")),
+                match guard.as_ref() {
+                    Some(Ok(bytes)) => Ok(bytes.clone()),
+                    Some(Err(kind)) => Err(io::Error::new(*kind, "layer resolve failed")),
+                    None => {
+                        // the lookup was abandoned before it completed. Make way for another one, and retry.
+                        std::mem::drop(guard);
+                        let mut cache = self.cache.lock().await;
+                        let is_abandoned = match cache.peek(&id) {
+                            Some(CacheEntry::Resolving(current)) => Arc::ptr_eq(current, &barrier),
+                            _ => false,
+                        };
+                        if is_abandoned {
+                            drop_from_cache(&mut *cache, id);
+                        }
+                        std::mem::drop(cache);
+
+                        self.get_layer_bytes(id).await
+                    }
                 }
             }
             None => {
@@ -543,10 +558,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 std::mem::drop(cache);
                 let lookup = self.data_origin.get_layer_bytes(id).await;
 
-                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
-
                 // reacquire cache
                 let mut cache = self.cache.lock().await;
+
+                // nothing is awaited from here on, so the result and the cache change together
+                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
                 match lookup {
                     Ok(bytes) => {
                         if ensure_enough_cache_space(
-- 
2.43.0


From dd1390df92dcb397426764d3435bdd193dd04fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 29/40] fix: importing a layer that is not in the pack created
 an empty layer

---
 src/storage/pack.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 1d7e44e..28891d7 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -65,11 +65,9 @@ impl<T: PersistentLayerStore> Packable for T {
         pack: &[u8],
         layer_ids: Box<dyn Iterator<Item = [u32; 5]> + Send>,
     ) -> io::Result<()> {
-        let mut layer_id_set = HashSet::new();
-        for id in layer_ids {
-            layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
-        }
+        let layer_id_set: HashSet<String> = layer_ids.map(name_to_string).collect();
+        // of those, the layers we actually found in the pack
+        let mut found_layers = HashSet::new();
 
         let handle = tokio::runtime::Handle::current();
         tokio::task::block_in_place(|| {
@@ -103,6 +101,9 @@ impl<T: PersistentLayerStore> Packable for T {
                     // only able to match things that went through the
                     // conversion in the opposite direction.
                     let layer_id_arr = string_to_name(layer_id).unwrap();
+                    if found_layers.insert(layer_id_arr) {
+                        handle.block_on(self.create_named_directory(layer_id_arr))?;
+                    }
 
                     let header = entry.header();
                     if !header.entry_type().is_file() {
@@ -124,9 +125,8 @@ impl<T: PersistentLayerStore> Packable for T {
                 }
             }
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
-                handle.block_on(self.finalize_layer(layer_id_arr))?;
+            for layer_id in found_layers {
+                handle.block_on(self.finalize_layer(layer_id))?;
             }
 
             Ok(())
-- 
2.43.0


From f351da63bd67dbfaf7a6f5616804c50802236060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 30/40] fix: applying a delta or diff to a committed builder
 succeeded or panicked

---
 src/store/mod.rs | 64 +++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..07e0013 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -169,58 +169,56 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        let (additions, removals) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                triple_additions
+                    .par_bridge()
+                    .try_for_each(|t| match delta.id_triple_to_string(&t) {
+                        Some(st) => self.add_value_triple(st),
+                        None => Ok(()),
+                    })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
-                })
+                triple_removals
+                    .par_bridge()
+                    .try_for_each(|t| match delta.id_triple_to_string(&t) {
+                        Some(st) => self.remove_value_triple(st),
+                        None => Ok(()),
+                    })
             },
         );
 
-        Ok(())
+        additions.and(removals)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
-            || {
-                if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
-                        if let Some(st) = this.id_triple_to_string(&t) {
-                            if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
-                            }
-                        }
-                    })
-                };
+        let (removals, additions) = rayon::join(
+            || match self.parent() {
+                Some(this) => this.triples().par_bridge().try_for_each(|t| {
+                    match this.id_triple_to_string(&t) {
+                        Some(st) if !other.value_triple_exists(&st) => self.remove_value_triple(st),
+                        _ => Ok(()),
+                    }
+                }),
+                None => Ok(()),
             },
             || {
-                other.triples().par_bridge().for_each(|t| {
-                    if let Some(st) = other.id_triple_to_string(&t) {
-                        if let Some(this) = self.parent() {
-                            if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
-                            }
-                        } else {
-                            self.add_value_triple(st).unwrap()
-                        };
+                other.triples().par_bridge().try_for_each(|t| {
+                    match other.id_triple_to_string(&t) {
+                        Some(st) => match self.parent() {
+                            Some(this) if this.value_triple_exists(&st) => Ok(()),
+                            _ => self.add_value_triple(st),
+                        },
+                        None => Ok(()),
                     }
                 })
             },
         );
 
-        Ok(())
+        removals.and(additions)
     }
 }
 
-- 
2.43.0


From 61fb430f60939ac2ae668411c56b00c9d3b16c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 31/40] fix: a failing file lock panicked instead of returning
 an error

---
 src/storage/locking.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index d55fe33..76236bf 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -13,7 +13,7 @@ use tokio::task::{spawn_blocking, JoinHandle};
 
 pub struct LockedFileLockFuture {
     file: Option<std::fs::File>,
-    spawn: Option<JoinHandle<()>>,
+    spawn: Option<JoinHandle<io::Result<()>>>,
     exclusive: bool,
 }
 
@@ -41,36 +41,27 @@ impl Future for LockedFileLockFuture {
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<std::fs::File>> {
         if self.file.is_some() {
             if self.spawn.is_none() {
-                let file = self
-                    .file
-                    .as_ref()
-                    .unwrap()
-                    .try_clone()
-                    .expect("file clone failed");
+                let file = self.file.as_ref().unwrap().try_clone()?;
                 let exclusive = self.exclusive;
                 self.spawn = Some(spawn_blocking(move || {
                     if exclusive {
                         file.lock_exclusive()
-                            .expect("failed to acquire exclusive lock")
+                    } else if !cfg!(feature = "noreadlock") {
+                        file.lock_shared()
                     } else {
-                        if !cfg!(feature = "noreadlock") {
-                            file.lock_shared()
-                                .expect("failed to acquire exclusive lock")
-                        }
+                        Ok(())
                     }
                 }));
             }
 
             match Pin::new(&mut self.spawn.as_mut().unwrap()).poll(cx) {
-                Poll::Ready(Ok(_)) => {
+                Poll::Ready(Ok(result)) => {
                     let mut file = None;
                     std::mem::swap(&mut file, &mut self.file);
-                    Poll::Ready(Ok(file.unwrap()))
+                    Poll::Ready(result.map(|_| file.unwrap()))
                 }
                 Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(_)) => {
-                    panic!("polled LockedFileLockFuture outside of a tokio context")
-                }
+                Poll::Ready(Err(e)) => Poll::Ready(Err(e.into())),
             }
         } else {
             panic!("polled LockedFileLockFuture after completion");
-- 
2.43.0


From b96b562df56dcb1b01d8ef03eb4851971dc5f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 32/40] fix: a layer whose rollup has a rollup itself was
 loaded under the wrong name and parent

---
 src/storage/layer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 5d49466..a9104c0 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1496,14 +1496,18 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                         }
 
                         let original_parent;
-                        if self.layer_has_parent(current_layer).await? {
+                        if let Some((_, known_parent)) = rollup_option {
+                            // this is the rollup of a rollup. The parent
+                            // is still that of the original layer.
+                            original_parent = known_parent;
+                        } else if self.layer_has_parent(current_layer).await? {
                             original_parent = Some(self.read_parent_file(current_layer).await?);
                         } else {
                             original_parent = None;
                         }
 
                         layers_to_load.pop().unwrap(); // we don't want to load this, we want to load the rollup instead!
-                        layers_to_load.push((current_layer, Some((rollup, original_parent))));
+                        layers_to_load.push((original_layer, Some((rollup, original_parent))));
                     } else if self.layer_has_parent(current_layer).await? {
                         let parent = self.read_parent_file(current_layer).await?;
                         layers_to_load.push((parent, None));
-- 
2.43.0


From 0674f4cd601333807cffa9585774f55a27ada6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 33/40] fix: a rollup link of a layer to itself panicked

---
 src/storage/layer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index a9104c0..b5aab79 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1492,7 +1492,13 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                     if self.layer_has_rollup(current_layer).await? {
                         let rollup = self.read_rollup_file(current_layer).await?;
                         if rollup == current_layer {
-                            panic!("infinite rollup loop for layer {:?}", rollup);
+                            return Err(io::Error::new(
+                                io::ErrorKind::InvalidData,
+                                format!(
+                                    "infinite rollup loop for layer {}",
+                                    name_to_string(rollup)
+                                ),
+                            ));
                         }
 
                         let original_parent;
-- 
2.43.0


From b0084af5a66f2e72fc9123eb20b218565f6c3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 34/40] fix: release the archive cache while asking the
 metadata origin

The guard on the cache lived until the end of the if-let, so every other
cached lookup had to wait for the origin's i/o.
---
 src/storage/archive.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 0c00c87..04108a1 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -656,21 +656,27 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
         self.metadata_origin.get_layer_names().await
     }
     async fn layer_exists(&self, id: [u32; 5]) -> io::Result<bool> {
-        if let Some(CacheEntry::Resolved(_)) = self.cache.lock().await.peek(&id) {
+        // the cache is released before the origin is asked
+        let cached = self.cache.lock().await.peek(&id).cloned();
+        if let Some(CacheEntry::Resolved(_)) = cached {
             Ok(true)
         } else {
             self.metadata_origin.layer_exists(id).await
         }
     }
     async fn layer_size(&self, id: [u32; 5]) -> io::Result<u64> {
-        if let Some(CacheEntry::Resolved(bytes)) = self.cache.lock().await.peek(&id) {
+        // the cache is released before the origin is asked
+        let cached = self.cache.lock().await.peek(&id).cloned();
+        if let Some(CacheEntry::Resolved(bytes)) = cached {
             Ok(bytes.len() as u64)
         } else {
             self.metadata_origin.layer_size(id).await
         }
     }
     async fn layer_file_exists(&self, id: [u32; 5], file_type: LayerFileEnum) -> io::Result<bool> {
-        if let Some(CacheEntry::Resolved(bytes)) = self.cache.lock().await.peek(&id) {
+        // the cache is released before the origin is asked
+        let cached = self.cache.lock().await.peek(&id).cloned();
+        if let Some(CacheEntry::Resolved(bytes)) = cached {
             let header = ArchiveFilePresenceHeader::new(bytes.clone().get_u64());
             Ok(header.is_present(file_type))
         } else {
@@ -682,7 +688,9 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
         id: [u32; 5],
         file_type: LayerFileEnum,
     ) -> io::Result<usize> {
-        if let Some(CacheEntry::Resolved(bytes)) = self.cache.lock().await.peek(&id) {
+        // the cache is released before the origin is asked
+        let cached = self.cache.lock().await.peek(&id).cloned();
+        if let Some(CacheEntry::Resolved(bytes)) = cached {
             let (header, _) = ArchiveHeader::parse(bytes.clone());
 
             if let Some(size) = header.size_of(file_type) {
-- 
2.43.0


From b886e46528df86e0b6514d3862b04dcdc346ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 35/40] fix: a stale cache entry was removed after it had been
 replaced

---
 src/storage/cache.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index 2cec0e7..38bdae0 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -58,11 +58,16 @@ impl LayerCache for LockingHashMapLayerCache {
             None => None,
             Some(weak) => match weak.upgrade() {
                 None => {
-                    self.cache
+                    let mut cache = self
+                        .cache
                         .write()
-                        .expect("rwlock write should always succeed")
-                        .remove(&name);
-                    None
+                        .expect("rwlock write should always succeed");
+                    // the layer may have been cached anew by now
+                    let result = cache.get(&name).and_then(|c| c.upgrade());
+                    if result.is_none() {
+                        cache.remove(&name);
+                    }
+                    result
                 }
                 Some(result) => Some(result),
             },
-- 
2.43.0


From c8a1ff423bf4c6855cb18b724a838bf6708d8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 36/40] fix: concurrent file creation in one layer could lose a
 file or panic

---
 src/storage/archive.rs | 25 +++++++++++++------------
 src/storage/memory.rs  | 13 ++++++++-----
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 04108a1..475c5f2 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1533,21 +1533,22 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
                 // the directory is there but the file is not. We'll have to construct it.
                 std::mem::drop(guard);
                 let mut guard = self.construction.write().unwrap();
-                let map = guard.get_mut(&directory).unwrap();
-                let file = ConstructionFile::new();
-                map.insert(file_type, file.clone());
+                // by now somebody else may have constructed the file, or finalized the layer
+                if let Some(map) = guard.get_mut(&directory) {
+                    let file = map.entry(file_type).or_insert_with(ConstructionFile::new);
 
-                Ok(ArchiveLayerHandle::Construction(file))
-            } else {
-                // layer does not appear to be under construction so it has to be in persistent storage
-                Ok(ArchiveLayerHandle::Persistent(PersistentFileSlice::new(
-                    self.metadata_backend.clone(),
-                    self.data_backend.clone(),
-                    directory,
-                    file_type,
-                )))
+                    return Ok(ArchiveLayerHandle::Construction(file.clone()));
+                }
             }
         }
+
+        // layer does not appear to be under construction so it has to be in persistent storage
+        Ok(ArchiveLayerHandle::Persistent(PersistentFileSlice::new(
+            self.metadata_backend.clone(),
+            self.data_backend.clone(),
+            directory,
+            file_type,
+        )))
     }
 
     async fn file_exists(&self, directory: [u32; 5], file: &str) -> io::Result<bool> {
diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 75f0b61..dd400a6 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -64,11 +64,14 @@ impl PersistentLayerStore for MemoryLayerStore {
             } else {
                 std::mem::drop(guard); // release read lock cause it is time to write
                 let mut guard = self.layers.write().await;
-                let files = guard.get_mut(&directory).unwrap();
-                let file = MemoryBackedStore::new();
-                let result = file.clone();
-                files.insert(name.to_string(), file);
-                Ok(result)
+                match guard.get_mut(&directory) {
+                    // somebody else may have created the file by now
+                    Some(files) => Ok(files
+                        .entry(name.to_string())
+                        .or_insert_with(MemoryBackedStore::new)
+                        .clone()),
+                    None => Err(io::Error::new(io::ErrorKind::NotFound, "layer not found")),
+                }
             }
         } else {
             Err(io::Error::new(io::ErrorKind::NotFound, "layer not found"))
-- 
2.43.0


From 42a3b03f27d89e9c76d0d5e4fa4eafb7af6af5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:39 +0000
Subject: [PATCH 37/40] fix: creating a layer that exists in a memory store
 discarded its files

---
 src/storage/memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index dd400a6..755f004 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -33,7 +33,8 @@ impl PersistentLayerStore for MemoryLayerStore {
 
     async fn create_named_directory(&self, name: [u32; 5]) -> io::Result<[u32; 5]> {
         let mut guard = self.layers.write().await;
-        guard.insert(name, HashMap::new());
+        // a layer that is already there keeps its files
+        guard.entry(name).or_insert_with(HashMap::new);
 
         Ok(name)
     }
-- 
2.43.0


From fca23e74757f549d0d9b705c2a6aac3faa0eb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 38/40] fix: a malformed archive header panicked

---
 src/storage/archive.rs | 89 ++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 26 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 475c5f2..5d2bd73 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -29,8 +29,8 @@ use tokio::{
 use tokio_util::either::Either;
 
 use tdb_succinct::{
-    logarray_length_from_control_word, smallbitarray::SmallBitArray, LateLogArrayBufBuilder,
-    MonotonicLogArray,
+    logarray_length_from_control_word, parse_control_word, smallbitarray::SmallBitArray,
+    LateLogArrayBufBuilder, MonotonicLogArray,
 };
 
 use super::{
@@ -596,7 +596,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
     ) -> io::Result<Option<Bytes>> {
         if self.layer_fits_in_cache(id).await? {
             let bytes = self.get_layer_bytes(id).await?;
-            let archive = Archive::parse(bytes);
+            let archive = Archive::parse(bytes)?;
             Ok(archive.slice_for(file_type))
         } else {
             self.data_origin
@@ -677,7 +677,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
         // the cache is released before the origin is asked
         let cached = self.cache.lock().await.peek(&id).cloned();
         if let Some(CacheEntry::Resolved(bytes)) = cached {
-            let header = ArchiveFilePresenceHeader::new(bytes.clone().get_u64());
+            let header = ArchiveFilePresenceHeader::parse(bytes)?;
             Ok(header.is_present(file_type))
         } else {
             self.metadata_origin.layer_file_exists(id, file_type).await
@@ -691,7 +691,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
         // the cache is released before the origin is asked
         let cached = self.cache.lock().await.peek(&id).cloned();
         if let Some(CacheEntry::Resolved(bytes)) = cached {
-            let (header, _) = ArchiveHeader::parse(bytes.clone());
+            let (header, _) = ArchiveHeader::parse(bytes)?;
 
             if let Some(size) = header.size_of(file_type) {
                 Ok(size)
@@ -932,6 +932,14 @@ impl ArchiveFilePresenceHeader {
         }
     }
 
+    fn parse<B: Buf>(mut bytes: B) -> io::Result<Self> {
+        if bytes.remaining() < 8 {
+            return Err(malformed_header("no file presence"));
+        }
+
+        Ok(Self::new(bytes.get_u64()))
+    }
+
     pub fn from_present<I: Iterator<Item = LayerFileEnum>>(present_files: I) -> Self {
         let mut val = 0;
 
@@ -959,6 +967,26 @@ impl ArchiveFilePresenceHeader {
     }
 }
 
+fn malformed_header(reason: &str) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        format!("malformed archive header: {reason}"),
+    )
+}
+
+/// Check that the offset array that starts here is no larger than one for all the files there can be.
+fn validate_offsets_control_word(bytes: &[u8]) -> io::Result<()> {
+    let word = bytes
+        .get(..8)
+        .ok_or_else(|| malformed_header("no offsets"))?;
+    let (len, width) = parse_control_word(word);
+    if len > 64 || width > 64 {
+        return Err(malformed_header("invalid offsets"));
+    }
+
+    Ok(())
+}
+
 #[derive(Debug, Clone)]
 pub struct ArchiveHeader {
     file_presence: ArchiveFilePresenceHeader,
@@ -966,18 +994,12 @@ pub struct ArchiveHeader {
 }
 
 impl ArchiveHeader {
-    pub fn parse(mut bytes: Bytes) -> (Self, Bytes) {
-        let file_presence = ArchiveFilePresenceHeader::new(bytes.get_u64());
-        let (file_offsets, remainder) = MonotonicLogArray::parse_header_first(bytes)
-            .expect("unable to parse structure offsets");
-
-        (
-            Self {
-                file_presence,
-                file_offsets,
-            },
-            remainder,
-        )
+    pub fn parse(mut bytes: Bytes) -> io::Result<(Self, Bytes)> {
+        let file_presence = ArchiveFilePresenceHeader::parse(&mut bytes)?;
+        validate_offsets_control_word(&bytes)?;
+        let (file_offsets, remainder) = MonotonicLogArray::parse_header_first(bytes)?;
+
+        Ok((Self::from_parts(file_presence, file_offsets)?, remainder))
     }
 
     pub async fn parse_from_reader<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
@@ -985,15 +1007,26 @@ impl ArchiveHeader {
         let mut logarray_bytes = BytesMut::new();
         logarray_bytes.resize(8, 0);
         reader.read_exact(&mut logarray_bytes[0..8]).await?;
+        validate_offsets_control_word(&logarray_bytes)?;
         let len = logarray_length_from_control_word(&logarray_bytes[0..8]);
-        logarray_bytes.reserve(len);
-        unsafe {
-            logarray_bytes.set_len(8 + len);
-        }
+        logarray_bytes.resize(8 + len, 0);
         reader.read_exact(&mut logarray_bytes[8..]).await?;
 
-        let (file_offsets, _) =
-            MonotonicLogArray::parse_header_first(logarray_bytes.freeze()).expect("what the heck");
+        let (file_offsets, _) = MonotonicLogArray::parse_header_first(logarray_bytes.freeze())?;
+
+        Self::from_parts(file_presence, file_offsets)
+    }
+
+    fn from_parts(
+        file_presence: ArchiveFilePresenceHeader,
+        file_offsets: MonotonicLogArray,
+    ) -> io::Result<Self> {
+        let num_files = file_presence.inner().count_ones() as usize;
+        if file_offsets.len() < num_files
+            || (1..num_files).any(|i| file_offsets.entry(i - 1) > file_offsets.entry(i))
+        {
+            return Err(malformed_header("offsets do not match the files"));
+        }
 
         Ok(Self {
             file_presence,
@@ -1028,10 +1061,14 @@ pub struct Archive {
 }
 
 impl Archive {
-    pub fn parse(bytes: Bytes) -> Self {
-        let (header, data) = ArchiveHeader::parse(bytes);
+    pub fn parse(bytes: Bytes) -> io::Result<Self> {
+        let (header, data) = ArchiveHeader::parse(bytes)?;
+        let num_files = header.file_presence.inner().count_ones() as usize;
+        if num_files != 0 && header.file_offsets.entry(num_files - 1) > data.len() as u64 {
+            return Err(malformed_header("offsets exceed the archive"));
+        }
 
-        Self { header, data }
+        Ok(Self { header, data })
     }
 
     pub async fn parse_from_reader<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
-- 
2.43.0


From 96d14f3e5387163a714e63ff109f06b67b61be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 39/40] fix: sizes recorded in an archive header were trusted
 when reading

---
 src/storage/archive.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 5d2bd73..f10141d 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -169,11 +169,10 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         let mut file = options.open(path).await?;
         let header = ArchiveHeader::parse_from_reader(&mut file).await?;
         if let Some(range) = header.range_for(file_type) {
-            let mut data = vec![0; range.len()];
             file.seek(SeekFrom::Current((range.start) as i64)).await?;
-            file.read_exact(&mut data).await?;
+            let data = read_bytes(&mut file, range.len()).await?;
 
-            Ok(Some(Bytes::from(data)))
+            Ok(Some(data))
         } else {
             Ok(None)
         }
@@ -974,6 +973,17 @@ fn malformed_header(reason: &str) -> io::Error {
     )
 }
 
+/// Read exactly this many bytes, without relying on there being as many.
+async fn read_bytes<R: AsyncRead + Unpin>(reader: &mut R, len: usize) -> io::Result<Bytes> {
+    let mut data = Vec::new();
+    reader.take(len as u64).read_to_end(&mut data).await?;
+    if data.len() != len {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+
+    Ok(data.into())
+}
+
 /// Check that the offset array that starts here is no larger than one for all the files there can be.
 fn validate_offsets_control_word(bytes: &[u8]) -> io::Result<()> {
     let word = bytes
@@ -1073,16 +1083,13 @@ impl Archive {
 
     pub async fn parse_from_reader<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let header = ArchiveHeader::parse_from_reader(reader).await?;
-        let data_len = header.file_offsets.entry(header.file_offsets.len() - 1) as usize;
-        let mut data = BytesMut::with_capacity(data_len);
-        data.reserve(data_len);
-        unsafe { data.set_len(data_len) };
-        reader.read_exact(&mut data[..]).await?;
+        let data_len = match header.file_offsets.len() {
+            0 => 0,
+            n => header.file_offsets.entry(n - 1) as usize,
+        };
+        let data = read_bytes(reader, data_len).await?;
 
-        Ok(Self {
-            header,
-            data: data.freeze(),
-        })
+        Ok(Self { header, data })
     }
 
     pub fn slice_for(&self, file: LayerFileEnum) -> Option<Bytes> {
-- 
2.43.0


From 0c2cad363674b93776f88506e76afb267785ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 40/40] fix: a rollup of a base layer that is not a base layer
 panicked

---
 src/storage/layer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index b5aab79..6202232 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1384,6 +1384,19 @@ pub trait PersistentLayerStore: 'static + Send + Sync + Clone {
     }
 }
 
+/// The parent of a layer that is rolled up by a child layer. There has to be one.
+fn rolled_up_parent(layer: [u32; 5], parent: Option<[u32; 5]>) -> io::Result<[u32; 5]> {
+    parent.ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!(
+                "the rollup of base layer {} is not a base layer",
+                name_to_string(layer)
+            ),
+        )
+    })
+}
+
 pub fn name_to_string(name: [u32; 5]) -> String {
     format!(
         "{:08x}{:08x}{:08x}{:08x}{:08x}",
@@ -1469,7 +1482,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                                 RollupLayer::from_child_layer(
                                     layer,
                                     original_layer,
-                                    original_parent.unwrap(),
+                                    rolled_up_parent(original_layer, original_parent)?,
                                 )
                                 .into(),
                             ));
@@ -1569,8 +1582,8 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                     layer = Arc::new(child_layer.into());
                 }
                 Some((rollup_id, original_parent_id_option)) => {
-                    let original_parent_id = original_parent_id_option
-                        .expect("child rollup layer should always have original parent id");
+                    let original_parent_id =
+                        rolled_up_parent(layer_id, original_parent_id_option)?;
 
                     let files = self.child_layer_files(rollup_id).await?;
                     let child_layer: Arc<InternalLayer> = Arc::new(
-- 
2.43.0

