From 42eba2332cb65aabea72a2991b37730a43b99653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 01/35] fix: keep chunks already promoted to the top tree level
 when a file ends

put_data looked only at levels 0 to 3 to decide whether any chunk had been
made, and whether the key at hand was the root. When a boundary had promoted
everything to level 4, the rest of the file was stored without it: all of
the data before that boundary was lost.
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..f7f39de 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if key_bufs.iter().all(|x| x.is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 46c3a3c6cf7bf06d56c178fde4d6a5dce5d652ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 02/35] fix: make the key of a file independent of how its
 reader splits the data

A reader that returned fewer bytes than asked for moved the chunk boundaries,
so the same content got a different key (and, below 32 KiB per read, a single
chunk of any size).
---
 src/file.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index f7f39de..bd5d016 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -69,18 +69,24 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
-                Ok(len) => {
-                    if len == 0 {
-                        break;
+            // Always fill the buffer, so that where the chunks end (and so the key) does not
+            // depend on how many bytes the reader happens to return at a time.
+            let mut len = 0;
+            while len < read_buffer.len() {
+                match data.read(&mut read_buffer[len..]) {
+                    Ok(0) => break,
+                    Ok(n) => len += n,
+                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                    Err(e) => {
+                        return Err(e.into());
                     }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
-                }
-                Err(e) if e.kind() == ErrorKind::Interrupted => {}
-                Err(e) => {
-                    return Err(e.into());
                 }
             }
+
+            if len == 0 {
+                break;
+            }
+            chunk_buffer.extend_from_slice(&read_buffer[0..len]);
         }
     }
 
-- 
2.43.0


From 42031baa8ecf617385086e7f1436c716b1b0b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 03/35] fix: store directory entries sorted by name

They were stored in the order the file system listed them, so two equal
trees could get different keys.
---
 src/dir.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..de4b60b 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,14 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
-
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order of a directory listing is up to the file system, and the key must not be.
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
+        entries.sort_by_key(|direntry| direntry.file_name());
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From a0b49a56848c50eec6e6bb6fadd600479e70f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 04/35] fix: create directories without files in them when
 fetching a tree

Directories were only made as parents of files, so a fetched tree silently
lacked the empty ones.
---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index de4b60b..2349d77 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -237,6 +237,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 4560b76c2867a778fb21ae94c8dc46710a4612fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 05/35] fix: reject directory entries whose name is not a plain
 file name

A stored tree with a name like "..", "../x" or "/etc/x" was extracted
outside of the destination.
---
 src/dir.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 2349d77..5464ffd 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -57,6 +57,15 @@ impl TryInto<FSItem> for Object {
 
         let mut fsitem: FSItem = serde_cbor::value::from_value(item)?;
 
+        for name in &fsitem.children_names {
+            let mut components = name.components();
+
+            match (components.next(), components.next()) {
+                (Some(std::path::Component::Normal(_)), None) => {}
+                _ => return Err(serde::de::Error::custom("invalid name in directory")),
+            }
+        }
+
         fsitem.children = self.keys().iter().map(|&x| x.into()).collect();
 
         Ok(fsitem)
-- 
2.43.0


From 7c63b533f4ebda0dbbd2e6b8175527725a420938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 06/35] fix: reject malformed file and directory objects

A directory with more names than children (or the other way round) was read
as if the surplus was not there, a file without content made the reader
panic, and the bytes of any object that happened to decode were taken for a
directory.
---
 src/dir.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 5464ffd..38a7eb6 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -66,6 +66,18 @@ impl TryInto<FSItem> for Object {
             }
         }
 
+        let well_formed = match (self.objtype(), &fsitem.itemtype) {
+            (ObjType::FSItemDir, FSItemType::Dir) => {
+                self.keys().len() == fsitem.children_names.len()
+            }
+            (ObjType::FSItemFile, FSItemType::File) => self.keys().len() == 1,
+            _ => false,
+        };
+
+        if !well_formed {
+            return Err(serde::de::Error::custom("malformed file or directory"));
+        }
+
         fsitem.children = self.keys().iter().map(|&x| x.into()).collect();
 
         Ok(fsitem)
-- 
2.43.0


From 68c63784ac39ba4360d2eb4bea8331d69fb984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 07/35] fix: do not panic in compare when something was deleted

A deleted path was looked up on the side it is not on.
---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..a3eba78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -120,7 +120,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From fe7406e8b16ebb936f029694ae6e120ca9ede9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 08/35] fix: hash added files where they are, not relative to
 the current directory

compare and status panicked on an added file (or hashed another one of the
same name) unless they ran in the very directory they compare.
---
 src/diff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index a3eba78..15214b7 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -98,7 +98,10 @@ pub fn compare<'a>(
                         // this is a file
                         match dir::hash_fs_item(
                             ds,
-                            x,
+                            &from_path
+                                .as_ref()
+                                .expect("should have been populated")
+                                .join(x),
                             *cache.expect("you must pass a cache if you're hashing the fs"),
                         ) {
                             Ok(h) => Some(h.into()),
-- 
2.43.0


From f56df683e470cfe803d2ee20cb885e43a4378150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:00 +0000
Subject: [PATCH 09/35] fix: compare files with files, and do not report
 directories as modified

Between two stored trees, every directory with a change in it was reported
as modified, and log and show then panicked trying to read it as a file. A
file replaced by a directory was not reported at all.
---
 src/diff.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 15214b7..286c24e 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -81,16 +81,17 @@ pub fn compare<'a>(
         None => HashMap::new(),
     };
 
-    let from_keys: HashSet<PathBuf> = from_map.clone().either(
-        |x| x.keys().cloned().collect(),
-        |x| x.keys().cloned().collect(),
+    // A path that changed from a file to a directory, or back, is one deleted and one added.
+    let from_keys: HashSet<(PathBuf, bool)> = from_map.clone().either(
+        |x| x.into_iter().collect(),
+        |x| x.into_iter().map(|(k, v)| (k, v.1)).collect(),
     );
 
-    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
+    let to_keys: HashSet<(PathBuf, bool)> = to_map.iter().map(|(k, v)| (k.clone(), v.1)).collect();
 
     let mut in_from_only: Vec<AddedDiffResult> = from_keys
         .difference(&to_keys)
-        .map(|x| AddedDiffResult {
+        .map(|(x, _)| AddedDiffResult {
             path: x.clone(),
             new_key: from_map.as_ref().either(
                 |y| {
@@ -120,7 +121,7 @@ pub fn compare<'a>(
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-        .map(|x| DeletedDiffResult {
+        .map(|(x, _)| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
             is_dir: to_map[x].1,
@@ -131,14 +132,15 @@ pub fn compare<'a>(
 
     let mut modified = Vec::new();
 
-    for path in in_both {
+    for (path, is_dir) in in_both {
+        // Directories are not modified, only what is in them is.
+        if *is_dir {
+            continue;
+        }
+
         let f;
         match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
+            either::Left(_) => {
                 f = dir::hash_fs_item(
                     ds,
                     &from_path
-- 
2.43.0


From 332ee04da9e4385ade80265c8e6b7b1d83d71ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 10/35] fix: resolve full keys

A full key was looked up as if the object's data was its key, which always
failed, and one that is not in the store made it panic.
---
 src/ds/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..c15cf8a 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -256,8 +256,9 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key).unwrap() {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
-- 
2.43.0


From 744a53cc40d9914223aa1d4c07bacd01bca0401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:03 +0000
Subject: [PATCH 11/35] fix: do not take a string that is longer than a key for
 that key

Everything after the bits of the hash was ignored, so an id that no object
has was accepted as one that differs from it.
---
 src/keyish.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keyish.rs b/src/keyish.rs
index fbe8f95..ee16c8b 100644
--- a/src/keyish.rs
+++ b/src/keyish.rs
@@ -81,11 +81,20 @@ impl std::str::FromStr for Keyish {
                 _ => return Err(KeyishParseError::Invalid(s.to_string())),
             };
 
-            let input = match crate::base32::from_base32(bytes, max_len) {
+            let mut input = match crate::base32::from_base32(bytes, std::usize::MAX) {
                 Ok(v) => v,
                 Err(_) => return Err(KeyishParseError::Invalid(s.to_string())),
             };
 
+            if input.len() > max_len {
+                // The last character of a full key has zero bits left over, and nothing follows it.
+                let left_over = input.split_off(max_len);
+
+                if left_over.len() >= 5 || left_over.any() {
+                    return Err(KeyishParseError::Invalid(s.to_string()));
+                }
+            }
+
             if input.len() == max_len {
                 let mut v = input.into_vec();
                 v.insert(0_usize, 1_u8);
-- 
2.43.0


From 44b67d0bd48d8e333ec32cd5f0508cc7427fb76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 12/35] fix: do not let the cache hide a change to a file

A file was taken for one hashed before if its inode number, size and
modification time in whole seconds were the same. So status and compare
missed a change of the same length made in the same second, or with the
modification time put back, and could mix up files of two file systems.
---
 src/cache.rs | 35 ++++++++++++++++++++++-------------
 src/dir.rs   | 31 ++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..fa7e030 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,11 +7,31 @@ use crate::{ds, key};
 
 #[derive(Copy, Clone, Debug)]
 pub struct CacheKey {
+    pub device: u64,
     pub inode: u64,
     pub mtime: i64,
+    pub mtime_nsec: i64,
+    pub ctime: i64,
+    pub ctime_nsec: i64,
     pub size: u64,
 }
 
+impl CacheKey {
+    fn as_bytes(&self) -> Vec<u8> {
+        let mut data = Vec::with_capacity(8 * 7);
+
+        data.extend(self.device.to_le_bytes().iter());
+        data.extend(self.inode.to_le_bytes().iter());
+        data.extend(self.mtime.to_le_bytes().iter());
+        data.extend(self.mtime_nsec.to_le_bytes().iter());
+        data.extend(self.ctime.to_le_bytes().iter());
+        data.extend(self.ctime_nsec.to_le_bytes().iter());
+        data.extend(self.size.to_le_bytes().iter());
+
+        data
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum RawGetCacheError {
     #[error("data store error: {_0}")]
@@ -44,12 +64,7 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        let cache_result = self.raw_get(&data)?;
+        let cache_result = self.raw_get(&cachekey.as_bytes())?;
 
         match cache_result {
             Some(data) => {
@@ -61,13 +76,7 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        self.raw_put(&data, &value.as_db_key())?;
+        self.raw_put(&cachekey.as_bytes(), &value.as_db_key())?;
 
         Ok(())
     }
diff --git a/src/dir.rs b/src/dir.rs
index 38a7eb6..76d172a 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -192,11 +192,22 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
-            mtime: ext_metadata.mtime(),
+            device: ext_metadata.dev(),
             inode: ext_metadata.ino(),
+            mtime: ext_metadata.mtime(),
+            mtime_nsec: ext_metadata.mtime_nsec(),
+            ctime: ext_metadata.ctime(),
+            ctime_nsec: ext_metadata.ctime_nsec(),
             size: ext_metadata.size(),
         };
 
+        // A file that was changed just now can be changed again without its times showing it, so
+        // what is read from it now must not be remembered.
+        let settled = std::time::SystemTime::now()
+            .duration_since(std::time::UNIX_EPOCH)
+            .map(|now| now.as_secs() as i64 > ext_metadata.ctime() + 1)
+            .unwrap_or(false);
+
         if let Some(h) = cache.get(cache_key)? {
             return Ok(h);
         }
@@ -216,14 +227,16 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let obj_hash = ds.put_obj(&object)?;
 
-        match cache.put(cache_key, obj_hash) {
-            Ok(()) => {}
-            Err(e) => log::warn!(
-                "Error {:?} putting cache entry {:?} as {}",
-                e,
-                cache_key,
-                &obj_hash
-            ),
+        if settled {
+            match cache.put(cache_key, obj_hash) {
+                Ok(()) => {}
+                Err(e) => log::warn!(
+                    "Error {:?} putting cache entry {:?} as {}",
+                    e,
+                    cache_key,
+                    &obj_hash
+                ),
+            }
         }
 
         return Ok(obj_hash);
-- 
2.43.0


From f4b91effce2c035fcbb944769ca23c4791f2c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 13/35] fix: hash a cached file again if the data store does
 not have it

The cache is shared by all repositories, so compare --stat panicked on a
file whose key was cached while working on another one.
---
 src/dir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 76d172a..227c78c 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -171,6 +171,9 @@ pub enum HashFsItemError {
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
+    #[error("error when looking up object: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("error when encoding object: {_0}")]
     EncodeError(#[from] serde_cbor::error::Error),
 
@@ -208,8 +211,11 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
             .map(|now| now.as_secs() as i64 > ext_metadata.ctime() + 1)
             .unwrap_or(false);
 
+        // The cache is shared by all data stores, and may know a file that this one does not have.
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
-- 
2.43.0


From 5e0c65c49e18cfd7642c93959efba083df36d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 14/35] fix: report failures, including a failure to commit, in
 the exit status

A command that failed exited with status 0, and one whose transaction could
not be committed did not even print an error: the data was gone and the user
was told all is well.
---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..1bd8eef 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -767,7 +767,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -785,6 +787,11 @@ fn main() -> CMDResult {
         Command::Ref(args) => ref_cmd(&mut state, args),
     };
 
+    let result = result.and_then(|()| match state.ds_state.as_mut() {
+        Some(x) => Ok(x.ds.commit()?),
+        None => Ok(()),
+    });
+
     if let Err(e) = result {
         log::debug!("error debug: {:?}", e);
 
@@ -792,8 +799,9 @@ fn main() -> CMDResult {
 
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
+
+        std::process::exit(1);
     } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
         state.cache.commit()?;
     }
 
-- 
2.43.0


From ba6f3361915f605fac989cc49c166b5b11b78c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 15/35] fix: leave HEAD alone when init runs in an existing
 repository

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1bd8eef..64a7d39 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,10 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    // Running init again must not change a repository that is already there.
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 9f5c3f6dcd3a65fcc64433916288db5f0f9f1fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 16/35] fix: detect objects whose data does not match their key

Damaged data was returned as if it was what had been stored.
---
 src/ds/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index c15cf8a..ca28dfc 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -100,6 +100,9 @@ pub enum CommitTransError {
 pub enum RawGetError {
     #[error(transparent)]
     DSerror(#[from] DSError),
+
+    #[error("object {_0} is corrupt: its data does not match its key")]
+    Corrupt(key::Key),
 }
 
 #[derive(Debug, Error)]
@@ -199,6 +202,10 @@ pub trait DataStore: Transactional {
     fn get(&self, key: key::Key) -> Result<Cow<'_, [u8]>, RawGetError> {
         let results = self.raw_get(&key.as_db_key())?;
 
+        if self.hash(&results) != key {
+            return Err(RawGetError::Corrupt(key));
+        }
+
         Ok(results)
     }
 
-- 
2.43.0


From 3592ba2f4cea2e92aa79692a371277a0f44bec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 17/35] fix: do not empty a file before refusing to check it
 out

File::create ran before the assertion that is meant to protect the file.
---
 src/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 227c78c..9837394 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -365,10 +365,10 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
         }
         FSItemType::File => {
-            let mut f = std::fs::File::create(path)?;
-
             assert!(path.starts_with("/home/jess/src/snapcd/repo"));
 
+            let mut f = std::fs::File::create(path)?;
+
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From 74ea5f7f1228aa054b1c9727467bb2031e191345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 18/35] fix: count the lines of a hunk right

The ranges in the hunk headers were too short by one or more lines, so that
the patch could not be applied.
---
 src/diff.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 286c24e..6a5d197 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -578,16 +578,23 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
         assert!(!collected.is_empty());
 
         let (start_before, start_after, _) = collected.first().unwrap();
-        let (end_before, end_after, _) = collected.last().unwrap();
+        let before_count = collected
+            .iter()
+            .filter(|x| !matches!(x.2, difference::Difference::Add(_)))
+            .count();
+        let after_count = collected
+            .iter()
+            .filter(|x| !matches!(x.2, difference::Difference::Rem(_)))
+            .count();
 
         let before_range = patch::Range {
             start: *start_before,
-            count: *end_before - *start_before,
+            count: before_count as u64,
         };
 
         let after_range = patch::Range {
             start: *start_after,
-            count: *end_after - *start_after,
+            count: after_count as u64,
         };
 
         let mut lines = Vec::new();
-- 
2.43.0


From aa0b37d1ff0089d15ff558aec2f612b1b2b87e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 19/35] fix: refuse to point a ref at something that is not a
 commit

Every command that then used the ref panicked.
---
 src/main.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 64a7d39..4ffc811 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -297,10 +297,22 @@ fn ref_log(state: &mut State, args: RefLogArgs) -> CMDResult {
     Ok(())
 }
 
+#[derive(Debug, Error)]
+#[error("object {0} is not a commit")]
+struct NotACommitError(key::Key);
+
+fn check_is_commit(ds: &impl DataStore, key: key::Key) -> CMDResult {
+    match ds.get_obj(key)?.objtype() {
+        snapcd::object::ObjType::Commit => Ok(()),
+        _ => Err(NotACommitError(key).into()),
+    }
+}
+
 fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
     let key = ds_state.ds.canonicalize(args.key)?;
+    check_is_commit(&ds_state.ds, key)?;
 
     let refname = match args.refname {
         Some(s) => s,
@@ -420,6 +432,7 @@ fn debug_reflog_push(state: &mut State, args: ReflogPushArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
     let key = ds_state.ds.canonicalize(args.key)?;
+    check_is_commit(&ds_state.ds, key)?;
 
     let log = Reflog {
         key: key.into(),
-- 
2.43.0


From 0eedec08d409fbd596f8c560cfae1f61ee27a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 20/35] fix: do not take a ref that cannot be read for one
 without commits

---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4ffc811..a1764e0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -613,7 +613,11 @@ fn status(state: &mut State, _args: StatusArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     match &ref_key {
         Some(k) => {
@@ -668,7 +672,11 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());
 
-- 
2.43.0


From 7fb8d8a4a0423f249be0edc075a8541e1d97a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 21/35] fix: report a refused checkout-head in the exit status

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a1764e0..6f3164c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -297,6 +297,10 @@ fn ref_log(state: &mut State, args: RefLogArgs) -> CMDResult {
     Ok(())
 }
 
+#[derive(Debug, Error)]
+#[error("working directory is not clean")]
+struct NotCleanError;
+
 #[derive(Debug, Error)]
 #[error("object {0} is not a commit")]
 struct NotACommitError(key::Key);
@@ -695,7 +699,7 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
         println!("Cannot checkout: working directory is not clean");
 
         diff::print_diff_result(result);
-        return Ok(());
+        return Err(NotCleanError.into());
     }
 
     ds_state.ds.put_head(&args.refname)?;
-- 
2.43.0


From 2f93875285609860df65ad60fe996b2451136551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 22/35] fix: notice when the end of the output cannot be
 written

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f3164c..b97618b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -815,6 +815,9 @@ fn main() -> CMDResult {
         Command::Ref(args) => ref_cmd(&mut state, args),
     };
 
+    // What is still buffered would be lost without notice if it cannot be written on exit.
+    let result = result.and_then(|()| Ok(std::io::Write::flush(&mut std::io::stdout())?));
+
     let result = result.and_then(|()| match state.ds_state.as_mut() {
         Some(x) => Ok(x.ds.commit()?),
         None => Ok(()),
-- 
2.43.0


From 81a36807a706d743296160f7c77bc2a31e25d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 23/35] fix: count the lines of a file that becomes empty, or
 was, right

---
 src/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index 6a5d197..e9ddac5 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -304,7 +304,11 @@ pub fn line_stat(ds: &impl DataStore, r: DiffResult) -> LineStatResult {
         let before_str = String::from_utf8_lossy(&before);
         let after_str = String::from_utf8_lossy(&after);
 
-        let lines = diff::lines(&before_str, &after_str);
+        // diff::lines counts a line too many if one of the files is empty.
+        let before_lines: Vec<_> = before_str.split('\n').collect();
+        let after_lines: Vec<_> = after_str.split('\n').collect();
+
+        let lines = diff::slice(&before_lines, &after_lines);
 
         let mut removed: usize = 0;
         let mut added: usize = 0;
-- 
2.43.0


From 01286bac4084da2d41cfbbdf9f52ce2aac9e47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:01 +0000
Subject: [PATCH 24/35] fix: match exclude patterns against names that end in a
 dot

---
 src/filter.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 01b3ca2..73e8777 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -5,13 +5,11 @@ pub fn make_filter_fn<T: AsRef<str>>(
     excludes: &[T],
     db_path: PathBuf,
 ) -> Box<dyn Fn(&DirEntry) -> bool> {
-    let mut excl_globs = globset::GlobSetBuilder::new();
-
-    for exclude in excludes {
-        excl_globs.add(globset::Glob::new(exclude.as_ref()).unwrap());
-    }
-
-    let excl_globset = excl_globs.build().unwrap();
+    // Not a GlobSet: that one misses names that end in a dot.
+    let excl_globs: Vec<globset::GlobMatcher> = excludes
+        .iter()
+        .map(|exclude| globset::Glob::new(exclude.as_ref()).unwrap().compile_matcher())
+        .collect();
 
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
@@ -29,6 +27,6 @@ pub fn make_filter_fn<T: AsRef<str>>(
             &path
         };
 
-        !excl_globset.is_match(normalised_path)
+        !excl_globs.iter().any(|x| x.is_match(normalised_path))
     })
 }
-- 
2.43.0


From 6c8781af598448f4b9697be8abec40440fc994df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 25/35] fix: reject directories with a name twice or with a
 slash at its end, and files with names

---
 src/dir.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 9837394..ccec19d 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -57,20 +57,29 @@ impl TryInto<FSItem> for Object {
 
         let mut fsitem: FSItem = serde_cbor::value::from_value(item)?;
 
+        let mut seen = HashSet::new();
+
         for name in &fsitem.children_names {
             let mut components = name.components();
 
             match (components.next(), components.next()) {
-                (Some(std::path::Component::Normal(_)), None) => {}
+                // The components do not show a slash at the end.
+                (Some(std::path::Component::Normal(only)), None) if only == name.as_os_str() => {}
                 _ => return Err(serde::de::Error::custom("invalid name in directory")),
             }
+
+            if !seen.insert(name) {
+                return Err(serde::de::Error::custom("name is in directory twice"));
+            }
         }
 
         let well_formed = match (self.objtype(), &fsitem.itemtype) {
             (ObjType::FSItemDir, FSItemType::Dir) => {
                 self.keys().len() == fsitem.children_names.len()
             }
-            (ObjType::FSItemFile, FSItemType::File) => self.keys().len() == 1,
+            (ObjType::FSItemFile, FSItemType::File) => {
+                self.keys().len() == 1 && fsitem.children_names.is_empty()
+            }
             _ => false,
         };
 
-- 
2.43.0


From 4805cbd51782d67d82e9f0a9f3bbcfa8f5df5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 26/35] fix: refuse file content that contains anything but
 content

---
 src/dir.rs     |  4 ++--
 src/display.rs |  3 +--
 src/file.rs    | 48 ++++++++++++++++++++++++++++++++----------------
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index ccec19d..a3b099b 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -302,7 +302,7 @@ pub fn get_fs_item<DS: DataStore>(
                 .create_new(true)
                 .open(path)?;
 
-            file::read_data(ds, fsobj.children[0].into(), &mut f)?;
+            file::read_content(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
 
@@ -378,7 +378,7 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             let mut f = std::fs::File::create(path)?;
 
-            file::read_data(ds, fsobj.children[0].into(), &mut f)?;
+            file::read_content(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
 
diff --git a/src/display.rs b/src/display.rs
index 5d51d0c..5cba975 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -66,8 +66,7 @@ pub fn display_obj(ds: &mut impl DataStore, key: Key, kind: Kind) -> Result<(),
             file::read_data(ds, key, &mut std::io::stdout())?;
         }
         ObjType::FSItemFile => {
-            assert!(obj.keys().len() == 1);
-            display_obj(ds, obj.keys()[0], kind)?;
+            file::read_data(ds, key, &mut std::io::stdout())?;
         }
         ObjType::Commit => {
             println!("{}", format!("commit: {}", key).yellow());
diff --git a/src/file.rs b/src/file.rs
index bd5d016..3a5347a 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -124,8 +124,12 @@ pub enum ReadDataError {
 
     #[error("io error: {_0}")]
     IOError(#[from] std::io::Error),
+
+    #[error("object {_0} is not well formed file content")]
+    Malformed(Key),
 }
 
+/// Reads the data of a file, by the key of the file itself or by that of its content.
 pub fn read_data<DS: DataStore, W: Write>(
     ds: &DS,
     key: Key,
@@ -134,27 +138,39 @@ pub fn read_data<DS: DataStore, W: Write>(
     let obj = ds.get_obj(key)?;
 
     match obj.objtype() {
-        ObjType::FileBlobTree => {
+        ObjType::FSItemFile => match obj.keys() {
+            [content] => read_content(ds, *content, to),
+            _ => Err(ReadDataError::Malformed(key)),
+        },
+        _ => write_content(ds, key, &obj, to),
+    }
+}
+
+/// Reads the content of a file, in which no files can be.
+pub fn read_content<DS: DataStore, W: Write>(
+    ds: &DS,
+    key: Key,
+    to: &mut W,
+) -> Result<(), ReadDataError> {
+    write_content(ds, key, &ds.get_obj(key)?, to)
+}
+
+fn write_content<DS: DataStore, W: Write>(
+    ds: &DS,
+    key: Key,
+    obj: &Object,
+    to: &mut W,
+) -> Result<(), ReadDataError> {
+    match obj.objtype() {
+        ObjType::FileBlobTree if obj.data().is_empty() => {
             for key in obj.keys().iter().copied() {
-                read_data(ds, key, to)?;
+                read_content(ds, key, to)?;
             }
         }
-        ObjType::FileBlob => {
+        ObjType::FileBlob if obj.keys().is_empty() => {
             to.write_all(&obj.data())?;
         }
-        ObjType::FSItemFile => {
-            assert!(obj.keys().len() == 1);
-
-            let key = obj.keys()[0];
-            read_data(ds, key, to)?;
-        }
-        _ => {
-            panic!(
-                "found invalid object type {:?} when reading key {:?}",
-                obj.objtype(),
-                key
-            );
-        }
+        _ => return Err(ReadDataError::Malformed(key)),
     }
 
     Ok(())
-- 
2.43.0


From 839df66df17078f4a07597d8bbd7c4783e525d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 27/35] fix: do not take other objects for commits

---
 src/commit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commit.rs b/src/commit.rs
index a7c50e8..9ad5c51 100644
--- a/src/commit.rs
+++ b/src/commit.rs
@@ -83,6 +83,11 @@ impl TryInto<Commit> for Object {
     type Error = serde_cbor::error::Error;
 
     fn try_into(self) -> Result<Commit, serde_cbor::error::Error> {
+        match (self.objtype(), self.keys()) {
+            (ObjType::Commit, [_tree, ..]) => {}
+            _ => return Err(serde::de::Error::custom("not a commit")),
+        }
+
         let item: serde_cbor::Value = serde_cbor::from_slice(&self.data())?;
 
         let attrs: CommitAttrs = serde_cbor::value::from_value(item)?;
-- 
2.43.0


From 7a9408d41ea2104ae7e9764342ecef25585f7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 28/35] fix: refuse to commit what is not a tree, or on what is
 not a commit

---
 src/commit.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/commit.rs b/src/commit.rs
index 9ad5c51..be2ed65 100644
--- a/src/commit.rs
+++ b/src/commit.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{key::Key, DataStore, Object};
 
-use crate::ds::PutObjError;
+use crate::ds::{GetObjError, PutObjError};
 use crate::object::ObjType;
 
 use crate::dir;
@@ -117,6 +117,9 @@ pub enum CommitTreeError {
 
     #[error("error when putting object")]
     PutObjError(#[from] PutObjError),
+
+    #[error("error when reading tree or parent: {_0}")]
+    GetObjError(#[from] GetObjError),
 }
 
 #[allow(clippy::implicit_hasher)]
@@ -126,6 +129,13 @@ pub fn commit_tree<DS: DataStore>(
     mut parents: Vec<TypedKey<Commit>>,
     attrs: CommitAttrs,
 ) -> Result<TypedKey<Commit>, CommitTreeError> {
+    // What is not a tree or not a commit must not end up in a history.
+    let _: dir::FSItem = ds.get_obj(tree.inner())?.try_into()?;
+
+    for parent in &parents {
+        let _: Commit = ds.get_obj(parent.inner())?.try_into()?;
+    }
+
     parents.sort();
 
     let commit = Commit {
-- 
2.43.0


From 7d5272a604ba5bf2714a7ac29eb907e30c09f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 29/35] fix: record the size of a file as it was read

---
 src/dir.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index a3b099b..2ca6209 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -93,6 +93,26 @@ impl TryInto<FSItem> for Object {
     }
 }
 
+/// Counts what is read, which need not be what the metadata of the file says.
+struct CountingReader<R> {
+    inner: R,
+    count: u64,
+}
+
+impl<R> CountingReader<R> {
+    fn new(inner: R) -> Self {
+        Self { inner, count: 0 }
+    }
+}
+
+impl<R: std::io::Read> std::io::Read for CountingReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let n = self.inner.read(buf)?;
+        self.count += n as u64;
+        Ok(n)
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum PutFsItemError {
     #[error("io error: {_0}")]
@@ -147,15 +167,15 @@ pub fn put_fs_item<DS: DataStore>(
     if meta.is_file() {
         let f = std::fs::File::open(path)?;
 
-        let reader = std::io::BufReader::new(f);
+        let mut reader = CountingReader::new(std::io::BufReader::new(f));
 
-        let hash = file::put_data(ds, reader)?;
+        let hash = file::put_data(ds, &mut reader)?;
 
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size: reader.count,
         };
 
         let object = obj.try_into()?;
@@ -227,15 +247,15 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
             }
         }
 
-        let reader = std::io::BufReader::new(f);
+        let mut reader = CountingReader::new(std::io::BufReader::new(f));
 
-        let hash = file::put_data(ds, reader)?;
+        let hash = file::put_data(ds, &mut reader)?;
 
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size: reader.count,
         };
 
         let object = obj.try_into()?;
-- 
2.43.0


From 3daf8fa92c3bf5d0975b3167dee4abfda8f54d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:31 +0000
Subject: [PATCH 30/35] fix: create directories that are missing when checking
 out

---
 src/dir.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 2ca6209..2fe645f 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -363,6 +363,11 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             let mut fs_items = HashSet::new();
 
+            if !path.is_dir() {
+                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+                std::fs::create_dir_all(&path)?;
+            }
+
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
 
@@ -388,8 +393,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                std::fs::create_dir_all(&path)?;
-
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
-- 
2.43.0


From 7abcef54957d892fbf6bc890e9947c6d31501a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:24 +0000
Subject: [PATCH 31/35] fix: keep what is excluded in a directory that checkout
 removes

---
 src/dir.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 2fe645f..b1cb546 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -347,6 +347,30 @@ pub enum CheckoutFsItemError {
     UnimplementedFileTypeFound,
 }
 
+/// Removes what is at `path`, apart from what `filter` leaves out.
+fn remove_fs_item(path: &Path, filter: &dyn Fn(&DirEntry) -> bool) -> std::io::Result<bool> {
+    if !std::fs::symlink_metadata(path)?.is_dir() {
+        std::fs::remove_file(path)?;
+        return Ok(true);
+    }
+
+    let mut all = true;
+
+    for item in std::fs::read_dir(path)? {
+        let item = item?;
+
+        if !filter(&item) || !remove_fs_item(&item.path(), filter)? {
+            all = false;
+        }
+    }
+
+    if all {
+        std::fs::remove_dir(path)?;
+    }
+
+    Ok(all)
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -380,16 +404,7 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             for item in extra.iter() {
                 assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-                let p = path.join(item);
-                let ft = std::fs::metadata(&p)?.file_type();
-
-                if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
-                } else if ft.is_file() {
-                    std::fs::remove_file(p)?;
-                } else if ft.is_symlink() {
-                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
-                }
+                remove_fs_item(&path.join(item), filter)?;
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-- 
2.43.0


From d0643d8ad141d630ea674d769a55181300685c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:27 +0000
Subject: [PATCH 32/35] fix: replace files by directories and directories by
 files when checking out

---
 src/dir.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index b1cb546..bf1ae41 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -389,6 +389,11 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             if !path.is_dir() {
                 assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+
+                if path.is_file() {
+                    std::fs::remove_file(&path)?;
+                }
+
                 std::fs::create_dir_all(&path)?;
             }
 
@@ -414,6 +419,11 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::File => {
             assert!(path.starts_with("/home/jess/src/snapcd/repo"));
 
+            if path.is_dir() {
+                // What is left out of it stays, and then so does the directory.
+                remove_fs_item(&path, filter)?;
+            }
+
             let mut f = std::fs::File::create(path)?;
 
             file::read_content(ds, fsobj.children[0].into(), &mut f)?;
-- 
2.43.0


From 89e9c5cf8d67f74f9f61326df2d2f7f94d1797bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:17 +0000
Subject: [PATCH 33/35] fix: checkout must replace symbolic links, not write or
 delete through them

---
 src/dir.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index bf1ae41..5c699d1 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -381,16 +381,21 @@ pub fn checkout_fs_item<DS: DataStore>(
 
     let fsobj: FSItem = obj.try_into()?;
 
+    // What a link leads to is not part of the working directory, so links are replaced, not followed.
+    let is_link = std::fs::symlink_metadata(path)
+        .map(|meta| meta.file_type().is_symlink())
+        .unwrap_or(false);
+
     match fsobj.itemtype {
         FSItemType::Dir => {
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
             let mut fs_items = HashSet::new();
 
-            if !path.is_dir() {
+            if is_link || !path.is_dir() {
                 assert!(path.starts_with("/home/jess/src/snapcd/repo"));
 
-                if path.is_file() {
+                if is_link || path.is_file() {
                     std::fs::remove_file(&path)?;
                 }
 
@@ -419,7 +424,9 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::File => {
             assert!(path.starts_with("/home/jess/src/snapcd/repo"));
 
-            if path.is_dir() {
+            if is_link {
+                std::fs::remove_file(&path)?;
+            } else if path.is_dir() {
                 // What is left out of it stays, and then so does the directory.
                 remove_fs_item(&path, filter)?;
             }
-- 
2.43.0


From 4856582002d92303426376b268cb9aa55000f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:27 +0000
Subject: [PATCH 34/35] fix: fetch must not follow links out of its destination

---
 src/dir.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 5c699d1..acd80ed 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -309,6 +309,13 @@ pub fn get_fs_item<DS: DataStore>(
             std::fs::create_dir_all(path)?;
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                // A link to a directory that is there already may lead out of the destination.
+                if let Ok(meta) = std::fs::symlink_metadata(path.join(&name)) {
+                    if meta.file_type().is_symlink() {
+                        return Err(std::io::Error::from(std::io::ErrorKind::AlreadyExists).into());
+                    }
+                }
+
                 get_fs_item(ds, child, &path.join(&name))?;
             }
         }
-- 
2.43.0


From 776188caf65e00f8f1eefaa8f4f98988ec23b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:06 +0000
Subject: [PATCH 35/35] fix: a cache that cannot be written does not make a
 finished command fail

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b97618b..6ac2ae1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -832,8 +832,9 @@ fn main() -> CMDResult {
         state.cache.rollback()?;
 
         std::process::exit(1);
-    } else {
-        state.cache.commit()?;
+    } else if let Err(e) = state.cache.commit() {
+        // What was asked for is done, and what the cache does not remember is only computed again.
+        log::warn!("error committing cache: {}", e);
     }
 
     Ok(())
-- 
2.43.0

