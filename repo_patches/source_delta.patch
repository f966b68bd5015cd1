From 8b40ff646c2fcbb8bdbf0a355a587c9d1490e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 01/33] fix: duplicate blobs across packs no longer make the
 repository unusable

The same blob can end up in two indexed packs: concurrent backups, or an
interrupted backup whose packs are later found by rebuild-index.
Either copy is as good as the other, so warn instead of failing every command.
---
 src/index.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 2face26..98aeb0d 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -27,7 +27,7 @@ use std::sync::{
     mpsc::{Receiver, SyncSender},
 };
 
-use anyhow::{Context, Result, anyhow, bail, ensure};
+use anyhow::{Context, Result, anyhow, ensure};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde_derive::{Deserialize, Serialize};
 use tracing::*;
@@ -272,14 +272,12 @@ pub fn blob_to_pack_map(index: &Index) -> Result<BlobMap> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if let Some(other_pack) = mapping.insert(blob.id, *pack_id) {
-                // TODO: Should this just be a warning?
-                // This might happen in weird cases like concurrent backups
-                // but isn't a huge issue so long as the blobs are valid...
-                bail!(
+                // This happens with concurrent backups, or when an interrupted backup
+                // left packs behind that `rebuild-index` found later.
+                // It's just wasted space - the same blob is the same bytes, wherever it is.
+                warn!(
                     "Duplicate blob {} in pack {}, previously seen in pack {}",
-                    blob.id,
-                    pack_id,
-                    other_pack
+                    blob.id, pack_id, other_pack
                 );
             }
         }
@@ -296,8 +294,8 @@ pub fn blob_id_set(index: &Index) -> Result<FxHashSet<ObjectId>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if !blobs.insert(blob.id) {
-                // TODO: Ditto - just warn?
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                // Ditto - not fatal.
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
@@ -313,7 +311,8 @@ pub fn blob_to_size_map(index: &Index) -> Result<FxHashMap<ObjectId, u32>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if size_map.insert(blob.id, blob.length).is_some() {
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                // Ditto - not fatal.
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
-- 
2.43.0


From 42bd5b0c82a308c2e09200efb6e0fccb1e7c97a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 02/33] fix: an index whose ID was already superseded is no
 longer ignored

Backing up again what was backed up, forgotten, and pruned before
made an index identical to the one prune superseded.
Everything then ignored it, and the new snapshot was unreadable.
---
 src/backup.rs             |  5 +++++
 src/index.rs              | 15 +++++++++++++++
 src/ui/backup.rs          |  1 +
 src/ui/copy.rs            |  1 +
 src/ui/filter_snapshot.rs |  1 +
 src/ui/prune.rs           |  1 +
 src/ui/rebuild_index.rs   |  1 +
 7 files changed, 25 insertions(+)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..2bdfa33 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -46,6 +46,7 @@
 //! packs (passing it to the indexer as a starting point), then feeds blobs from
 //! the partially-used packs to the packers for compaction. And so on, and so forth.
 
+use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
@@ -117,6 +118,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
     backend_config: &'env backend::Configuration,
     cached_backend: &'env backend::CachedBackend,
     starting_index: index::Index,
+    superseded_indexes: BTreeSet<ObjectId>,
     statistics: &'env BackupStatistics,
 ) -> Backup<'scope, 'env> {
     // Channels are all handoffs holding no elements - this simplifies reasoning about:
@@ -145,6 +147,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 cached_backend,
                 statistics,
                 starting_index,
+                superseded_indexes,
             )
         })
         .unwrap();
@@ -169,6 +172,7 @@ fn backup_master_thread<'env>(
     cached_backend: &'env backend::CachedBackend,
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
+    superseded_indexes: BTreeSet<ObjectId>,
 ) {
     // ALL THE CONCURRENCY
 
@@ -228,6 +232,7 @@ fn backup_master_thread<'env>(
                 index::index(
                     resumable,
                     starting_index,
+                    superseded_indexes,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index 98aeb0d..7018872 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -75,9 +75,13 @@ pub enum Resumable {
 
 /// Gather metadata for completed packs from `rx` into an index file,
 /// and upload the index files when they reach a sufficient size.
+///
+/// `superseded` is the set of indexes that the ones already in the backend supersede
+/// (see [`build_master_index`]), so that we never produce an index everyone would ignore.
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
+    superseded: BTreeSet<ObjectId>,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -114,6 +118,17 @@ pub fn index(
         persisted = Some(to_temp_file(&index)?);
     }
 
+    // Indexes are content-addressed, so if we end up with the same packs as some index
+    // that was superseded (by a prune, say), we'd have the same ID, and be ignored too.
+    // Superseding whatever was already superseded is harmless and gets us a fresh one.
+    if persisted
+        .as_ref()
+        .is_some_and(|(id, _fh)| superseded.contains(id))
+    {
+        index.supersedes.extend(superseded);
+        persisted = Some(to_temp_file(&index)?);
+    }
+
     if let Some((index_id, mut fh)) = persisted {
         // We want to keep the WIP file around until we're sure we're uploaded it
         // so that we're resumable all the way to the end.
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..99cef72 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -162,6 +162,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             wip_index,
+            index.supersedes.clone(),
             &back_stats,
         );
 
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..bad86df 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -111,6 +111,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &dst_backend_config,
             &dst_cached_backend,
             wip_index,
+            dst_index.supersedes.clone(),
             &back_stats,
         );
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index a4793ef..9fe0053 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -88,6 +88,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             Index::default(),
+            index.supersedes.clone(),
             &back_stats,
         );
 
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..98d2a95 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -174,6 +174,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &backend_config,
             &cached_backend,
             new_index,
+            index.supersedes.clone(),
             &back_stats,
         );
 
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index c0b1052..93c4eab 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -51,6 +51,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         index::index(
             index::Resumable::No,
             replacing,
+            BTreeSet::new(), // Superseding everything gives us a fresh ID already.
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From a0c657a9353af32bad891c3d0763f3e4b6d474cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 03/33] fix: backup and copy don't resume an interrupted
 prune's index

A prune's WIP index supersedes all current indexes. Uploading it from a backup
(or copy) made everything ignore those while prune had not yet repacked
what it needed from them, losing reachable data.
---
 src/backup.rs    | 18 ++++++++++++++++++
 src/ui/backup.rs |  2 +-
 src/ui/copy.rs   |  3 ++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 2bdfa33..4609a8c 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -308,6 +308,24 @@ pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<Resumab
     }))
 }
 
+/// [`find_resumable`] for commands that only add to the repository (`backup`, `copy`).
+///
+/// `superseded` is the set of indexes already superseded by ones in the backend.
+/// If the WIP index would supersede any others, it's from an interrupted prune,
+/// and finishing it here would drop indexes whose packs weren't all repacked yet.
+pub fn find_resumable_backup(
+    backend: &backend::CachedBackend,
+    superseded: &BTreeSet<ObjectId>,
+) -> Result<Option<ResumableBackup>> {
+    match find_resumable(backend)? {
+        Some(r) if !r.wip_index.supersedes.is_subset(superseded) => {
+            warn!("WIP index file supersedes other indexes (a prune's?). Starting over.");
+            Ok(None)
+        }
+        otherwise => Ok(otherwise),
+    }
+}
+
 fn find_cwd_packfiles(index: &index::Index) -> Result<Vec<ObjectId>> {
     let mut packfiles = vec![];
 
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 99cef72..09412f5 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_resumable_backup(&cached_backend, &index.supersedes)?.unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index bad86df..9705b2f 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -89,7 +89,8 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_resumable_backup(&dst_cached_backend, &dst_index.supersedes)?
+        .unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
-- 
2.43.0


From 925510985e7cb65efd752bfc0c2c65d92cbfb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 04/33] fix: prune doesn't resume an index of packs it is about
 to delete

If a snapshot was forgotten between an interrupted prune and the next one,
packs kept by the former could be dropped by the latter,
leaving the new index referring to deleted packs.
---
 src/ui/prune.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 98d2a95..e0375d8 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -147,6 +147,15 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Does it hold on to packs we're about to delete?
+        // (A snapshot might have been forgotten since.)
+        else if wip_index
+            .packs
+            .keys()
+            .any(|id| packs_to_prune.contains_key(id))
+        {
+            warn!("WIP index file contains packs that should be pruned. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
-- 
2.43.0


From 26c2b72c6058ec40f5f0dcb81e2ee661ba5c48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 05/33] fix: prune doesn't supersede indexes it never read

Prune listed indexes twice: once to build the master index,
and again for the set to replace. A backup that finished in between
had its index superseded and deleted without its packs being kept.
---
 src/index.rs    | 15 +++++++++++++--
 src/ui/prune.rs | 18 ++++++++----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 7018872..54fa49a 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -213,6 +213,17 @@ pub fn build_master_index(cached_backend: &backend::CachedBackend) -> Result<Ind
 /// Nice for usage reporting, since it saves us another backend query.
 pub fn build_master_index_with_sizes(
     cached_backend: &backend::CachedBackend,
+) -> Result<(Index, Vec<u64>)> {
+    build_master_index_from(cached_backend.list_indexes()?, cached_backend)
+}
+
+/// [`build_master_index_with_sizes`] from the given listing of indexes.
+///
+/// Commands that replace the current indexes should list them once and use this,
+/// so that they don't replace one (just uploaded by someone else) they never looked at.
+pub fn build_master_index_from(
+    indexes: Vec<(String, u64)>,
+    cached_backend: &backend::CachedBackend,
 ) -> Result<(Index, Vec<u64>)> {
     info!("Building a master index");
 
@@ -225,8 +236,8 @@ pub fn build_master_index_with_sizes(
 
     let shared = Mutex::new(Results::default());
 
-    let todos = cached_backend
-        .list_indexes()?
+    let todos = indexes
+        // (Listed by the caller)
         .into_iter()
         .map(|(index_file, index_len)| {
             let s = &shared;
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index e0375d8..67c832b 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -44,7 +44,14 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
-    let index = index::build_master_index(&cached_backend)?;
+    // List indexes just once: we mustn't supersede any that aren't in our master index.
+    let indexes = cached_backend.list_indexes()?;
+    let superseded = indexes
+        .iter()
+        .map(|(idx, _idx_len)| idx)
+        .map(backend::id_from_path)
+        .collect::<Result<BTreeSet<ObjectId>>>()?;
+    let (index, _) = index::build_master_index_from(indexes, &cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
     let snapshots = snapshot::load_chronologically(&cached_backend)?;
@@ -77,15 +84,6 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         return Ok(());
     }
 
-    // TODO: Should build_master_index() return some set of all packs read
-    // so we don't have to traverse the backend twice?
-    let superseded = cached_backend
-        .list_indexes()?
-        .iter()
-        .map(|(idx, _idx_len)| idx)
-        .map(backend::id_from_path)
-        .collect::<Result<BTreeSet<ObjectId>>>()?;
-
     // `[ObjectId] -> String` helper for logs below
     fn idlist<S: ToString, I: Iterator<Item = S>>(p: I) -> String {
         p.map(|id| id.to_string()).collect::<Vec<_>>().join(", ")
-- 
2.43.0


From 0c488132e5da2f7329c9127e6947683792d27120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 06/33] fix: dry runs and rebuild-index don't leave, clobber,
 or remove WIP indexes

rebuild-index left its index behind as backpak-wip.index, which the next
backup or copy (even to another repository!) in that directory resumed.
Dry runs overwrote and then removed the WIP index of an interrupted backup.
---
 src/backup.rs |  8 ++++++++
 src/index.rs  | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 4609a8c..1397cc6 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -68,6 +68,7 @@ use crate::index;
 use crate::pack;
 use crate::upload;
 
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum Mode {
     DryRun,
     LiveFire,
@@ -78,6 +79,7 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    mode: Mode,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -98,6 +100,11 @@ impl Backup<'_, '_> {
         drop(self.upload_tx);
         self.threads.join().unwrap();
 
+        // Dry runs don't make a WIP index; leave any from an interrupted command alone.
+        if self.mode == Mode::DryRun {
+            return Ok(());
+        }
+
         // If everything exited cleanly, we uploaded the new index.
         // We can axe the WIP one, which we kept around until now to make sure we're resumable.
         match fs::remove_file(index::WIP_NAME) {
@@ -157,6 +164,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        mode,
         threads,
     }
 }
diff --git a/src/index.rs b/src/index.rs
index 54fa49a..37903e5 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -93,7 +93,7 @@ pub fn index(
     // (For example, it could be an index from `prune` that omits packs
     // we no longer need. If we don't write it but delete those packs anyways...)
     if !index.is_empty() && resumable == Resumable::Yes {
-        persisted = Some(to_temp_file(&index)?);
+        persisted = Some(to_temp_file(&resumable, &index)?);
     }
 
     // For each pack...
@@ -110,12 +110,12 @@ pub fn index(
             // Rewrite the index every time we get a pack.
             // That way the temp index should always contain a complete list of packs,
             // allowing us to resume a backup from the last finished pack.
-            persisted = Some(to_temp_file(&index)?);
+            persisted = Some(to_temp_file(&resumable, &index)?);
         }
     }
     // If we haven't been saving a WIP index, write it all out now.
     if !index.is_empty() && resumable == Resumable::No {
-        persisted = Some(to_temp_file(&index)?);
+        persisted = Some(to_temp_file(&resumable, &index)?);
     }
 
     // Indexes are content-addressed, so if we end up with the same packs as some index
@@ -126,7 +126,7 @@ pub fn index(
         .is_some_and(|(id, _fh)| superseded.contains(id))
     {
         index.supersedes.extend(superseded);
-        persisted = Some(to_temp_file(&index)?);
+        persisted = Some(to_temp_file(&resumable, &index)?);
     }
 
     if let Some((index_id, mut fh)) = persisted {
@@ -166,7 +166,7 @@ pub fn index(
     }
 }
 
-fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
+fn to_temp_file(resumable: &Resumable, index: &Index) -> Result<(ObjectId, File)> {
     // Could we speed things up by reusing the same file handle instead of
     // opening, writing, and closing each time we update the WIP index file?
     // Probably, but we'd have to seek back to the beginning each time,
@@ -179,6 +179,11 @@ fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
         .context("Couldn't open temporary index for writing")?;
 
     let id = to_file(tf.as_file_mut(), index)?;
+    if *resumable == Resumable::No {
+        // Don't leave a WIP index around (or clobber some other command's)
+        // that isn't meant to be resumed.
+        return Ok((id, tf.into_file()));
+    }
     let f = tf
         .persist(WIP_NAME)
         .with_context(|| format!("Couldn't persist WIP index to {}", WIP_NAME))?;
-- 
2.43.0


From dd57ceb443fd1c2124054c03591bc2da7a35b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 07/33] fix: usage and snapshots --sizes handle empty
 directories

Backups don't upload the empty tree, so its size isn't in any index.
---
 src/tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..7591c93 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -549,6 +549,8 @@ fn tree_size(
 
     let ts = size_map
         .get(tree_id)
+        // See ui/backup.rs: the empty tree isn't uploaded, so it might not be in any pack.
+        .or((*tree_id == *EMPTY_ID).then_some(&0))
         .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
     let ts = *ts as u64;
     s.tree_bytes += ts;
-- 
2.43.0


From 8a08571c637e6f05719abfc2161bc1319aaa4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 08/33] fix: copy, prune, and filter-snapshot don't pack empty
 trees

Backups don't, and everything assumes they needn't be in any pack.
Packing one meant that a one-byte file equal to the serialized empty tree
was deduplicated to it, and couldn't be read back.
---
 src/repack.rs             | 5 +++++
 src/ui/filter_snapshot.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/repack.rs b/src/repack.rs
index f7f21c1..5808d0e 100644
--- a/src/repack.rs
+++ b/src/repack.rs
@@ -235,6 +235,11 @@ where
     // (Again, we could have a separate "we didn't filter anything" path,
     // but it doesn't seem worth it at the moment.)
     let (serialized, new_tree_id) = tree::serialize_and_hash(&new_tree)?;
+    // Like ui/backup.rs, don't bother uploading nothing.
+    // (If we did, a file with the same contents would be deduped to it, in a pack of trees.)
+    if new_tree.is_empty() {
+        return Ok(new_tree_id);
+    }
     // If we don't have this tree, new or old, in the backup, add it.
     if packed_blobs.insert(new_tree_id) {
         backup.tree_tx.send(blob::Blob {
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index 9fe0053..82d993b 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -235,6 +235,11 @@ where
     // (Again, we could have a separate "we didn't filter anything" path,
     // but it doesn't seem worth it at the moment.)
     let (serialized, new_tree_id) = tree::serialize_and_hash(&new_tree)?;
+    // Like ui/backup.rs, don't bother uploading nothing.
+    // (If we did, a file with the same contents would be deduped to it, in a pack of trees.)
+    if new_tree.is_empty() {
+        return Ok(new_tree_id);
+    }
     // If we don't have this tree, new or old, in the backup, add it.
     if packed_blobs.insert(new_tree_id) {
         backup.tree_tx.send(blob::Blob {
-- 
2.43.0


From 58b6ed0c1f85fccc60c0841110556ce860008f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 09/33] fix: a file with the same bytes as a tree can be
 restored

Blobs are deduplicated by ID regardless of type, so a file chunk that equals
a serialized tree (or vice versa) is found in a pack of the other kind.
Readers skipped it there.
---
 src/pack.rs | 5 ++++-
 src/read.rs | 5 +++--
 src/tree.rs | 7 ++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index c8244c5..4df3b4c 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -435,6 +435,7 @@ pub fn extract_blob<R: Read>(
 pub fn append_to_forest<R: Read + Seek>(
     packfile: &mut R,
     manifest_from_index: &[PackManifestEntry],
+    wanted: &ObjectId,
     forest: &mut tree::Forest,
 ) -> Result<()> {
     check_magic(packfile)?;
@@ -443,7 +444,9 @@ pub fn append_to_forest<R: Read + Seek>(
 
     for entry in manifest_from_index {
         // If it's not a tree, or if we have it already, skip it!
-        let skip = if entry.blob_type != blob::Type::Tree {
+        // (Unless it's the one we want: a file chunk can have the same bytes, and so the same ID,
+        // as a tree. Whichever came last was deduplicated.)
+        let skip = if entry.blob_type != blob::Type::Tree && entry.id != *wanted {
             warn!(
                 "Chunk {} found in pack where we expected only trees",
                 entry.id
diff --git a/src/read.rs b/src/read.rs
index a0e38b5..5774dd6 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -192,12 +192,13 @@ impl<'a> ChunkReader<'a> {
         let mut bytes_read = 0;
         let mut blob_buf = vec![];
         for entry in manifest {
+            // A chunk with the same bytes (and so the same ID) as a tree is deduplicated to it,
+            // so if we're here, this might be the one we want.
             if entry.blob_type != blob::Type::Chunk {
-                warn!(
+                debug!(
                     "Tree {} found in pack where we expected only chunks",
                     entry.id
                 );
-                continue;
             }
 
             blob_buf.clear();
diff --git a/src/tree.rs b/src/tree.rs
index 7591c93..e81bd66 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -416,7 +416,12 @@ impl<'a> Cache<'a> {
             .get(pack_id)
             .expect("Pack ID in blob -> pack map but not the index");
 
-        pack::append_to_forest(&mut pack_containing_tree, manifest, &mut self.tree_cache)?;
+        pack::append_to_forest(
+            &mut pack_containing_tree,
+            manifest,
+            id,
+            &mut self.tree_cache,
+        )?;
 
         self.tree_cache
             .get(id)
-- 
2.43.0


From c78628563dd146ac8fcfdc21977ac440f9329401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 10/33] fix: backup threads don't deadlock on machines with few
 cores

The pipeline's four threads feed each other, but no more than the number of
physical cores were started at a time. With fewer than four,
the ones that did run waited forever for the ones that didn't.
---
 src/concurrently.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..5e0462a 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,21 @@ where
     })
 }
 
+/// [`concurrently`], but with named threads, and *without* limiting their number.
+///
+/// Use this for functions that talk to each other: if one didn't run until another finished,
+/// they could wait on each other forever.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From 1fe8fcb79decc4c16847a4610605b437b709f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 11/33] fix: counting semaphore doesn't lose wakeups

When two guards dropped before the first waiter woke, only one was woken.
The other slept until the count went back to zero and up again,
which might be never.
---
 src/semaphored.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..b6776c6 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,10 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit
+        // (Even if the count was already positive! If we and another thread both post while
+        // two others wait, and the first to wake hasn't run yet, the second would nap forever.)
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From 2e75a65fa68ef9523393ecb828f4fd36a024aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 12/33] fix: reading through a filter doesn't panic if its
 feeder is slow to exit

The unfilter process can exit before the thread feeding it returns.
Joining the thread waits for it anyways.
---
 src/backend/filter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..1100a6c 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -59,7 +59,6 @@ impl Read for UnfilterRead {
 
             // Make sure we actually fed all the bytes into the filter program.
             let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
             copy_thread.join().expect("unfilter-copy thread aborted")?;
         }
 
-- 
2.43.0


From a3ad75e04f69b154124b8d11143697228b273c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 13/33] fix: a resumed backup with nothing new doesn't panic

Finishing an interrupted backup uploads its packs and index,
which assertions for an unchanged backup didn't expect.
---
 src/ui/backup.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 09412f5..23b30cd 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -141,6 +141,9 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         wip_index,
         cwd_packfiles,
     } = find_resumable_backup(&cached_backend, &index.supersedes)?.unwrap_or_default();
+    // If we upload what's left of an interrupted backup, that isn't nothing,
+    // even if there's nothing new to back up.
+    let resuming = !wip_index.packs.is_empty();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
@@ -217,7 +220,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
         assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+        assert!(resuming || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
 
         info!("Nothing backed up! Pass --allow-empty to create an empty snapshot.");
         return Ok(());
@@ -255,7 +258,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+            assert!(resuming || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
 
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
-- 
2.43.0


From f8272afdb92060549a00f4a3e0d4b5591d567c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 14/33] fix: backup honors --allow-repeat

The flag (which we tell users to pass) was never looked at.
---
 src/ui/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 23b30cd..6360071 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -252,7 +252,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         s
     });
     match prev_but_now {
-        Some(p) if p == snapshot => {
+        Some(p) if p == snapshot && !args.allow_repeat => {
             // We really did nothing, huh?
             assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-- 
2.43.0


From f7f7d975c210e8bb514533b75f9794ef0a02bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 15/33] fix: restore --output doesn't write through a dangling
 symlink

A dangling symlink in the output directory, named like one of several
top-level paths in the snapshot, was treated as if it wasn't there.
Restoring a file then created the symlink's target.
---
 src/ui/restore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..8d3f2d7 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -236,7 +236,8 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                // NB: exists() would follow a symlink (and miss a dangling one!)
+                .filter(|p| p.symlink_metadata().is_ok())
                 .collect();
 
             fs_tree::forest_from_fs(
-- 
2.43.0


From 11b4d8c22a107e16f28f82a545f1a55653ff4bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 16/33] fix: restore can bring back paths that are gone

Without --output, restoring a snapshot whose path (say, a deleted directory)
doesn't exist failed instead of restoring it.
---
 src/ui/restore.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 8d3f2d7..1a812a4 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -258,9 +258,17 @@ fn load_fs_tree_and_mapping<'a>(
             "Restoring snapshot {} to its paths, {:?}",
             id, snapshot.paths
         );
+        // Some might be gone - restoring them is the whole point.
+        let paths = snapshot
+            .paths
+            .iter()
+            .filter(|p| p.symlink_metadata().is_ok())
+            .cloned()
+            .collect();
+
         let (fs_id, fs_forest) = fs_tree::forest_from_fs(
             tree::Symlink::Read, // See above
-            &snapshot.paths,
+            &paths,
             Some(&snapshot.tree),
             snapshot_forest,
         )?;
-- 
2.43.0


From f9eace5bb485a9fca4bb4fb653b52f85653a14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 17/33] fix: LAST~<huge number> doesn't panic

---
 src/snapshot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index b747d96..e4159b9 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -259,7 +259,8 @@ pub fn find<'a>(
         let index = match groups[..] {
             [_, None, None] => 0,
             [_, Some(_), None] => 1,
-            [_, None, Some(n)] => n.as_str().parse().unwrap(),
+            // We definitely don't have more snapshots than fit in a usize.
+            [_, None, Some(n)] => n.as_str().parse().unwrap_or(usize::MAX - 1),
             _ => unreachable!(),
         };
         match chronological_snapshots.iter().rev().nth(index) {
-- 
2.43.0


From b7b7f1b5390c360cb2dd5012726abd51a8e7db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 18/33] fix: sync copied objects before giving them their final
 name

---
 src/file_util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 09a14fe..38c633d 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -131,12 +131,14 @@ pub fn safe_copy_to_file<R: Read>(mut from: R, to: &Utf8Path) -> Result<File> {
         .with_context(|| format!("Couldn't write to {temp_path}"))?;
     drop(from);
 
+    // Sync *before* renaming: nobody should see the final name until everything's on disk.
+    to_fh
+        .as_file()
+        .sync_all()
+        .with_context(|| format!("Couldn't sync {temp_path}"))?;
     let persisted = to_fh
         .persist(to)
         .with_context(|| format!("Couldn't persist {temp_path} to {to}"))?;
-    persisted
-        .sync_all()
-        .with_context(|| format!("Couldn't sync {to}"))?;
 
     Ok(persisted)
 }
-- 
2.43.0


From 86fa495bb1b8a65561b75508c22b034470872d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 19/33] fix: dump doesn't look for what's "below" a symlink
 next to it

---
 src/ui/dump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/dump.rs b/src/ui/dump.rs
index 0ec62c1..04b4e94 100644
--- a/src/ui/dump.rs
+++ b/src/ui/dump.rs
@@ -84,7 +84,11 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 }
             }
             tree::NodeContents::Symlink { target } => {
-                dump_symlink(target, &path_so_far, &args.output)?;
+                if is_last_component {
+                    dump_symlink(target, &path_so_far, &args.output)?;
+                } else {
+                    bail!("{path_so_far} is a symlink, not a directory");
+                }
             }
             tree::NodeContents::File { chunks } => {
                 if is_last_component {
-- 
2.43.0


From 3b00044d70a7e65f2106961cbaebcf88f40cbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 20/33] fix: restore --times keeps a directory's time when only
 its contents needed restoring

---
 src/diff.rs       | 12 +++++++++---
 src/ui/restore.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 1144bd9..5459c64 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -38,6 +38,12 @@ pub trait Callbacks {
         new_node: &Node,
     ) -> Result<()>;
 
+    /// Something in a directory changed, but the directory's own metadata didn't.
+    /// Called after the callbacks for whatever did.
+    fn only_subtree_changed(&mut self, _node_path: &Utf8Path, _new_node: &Node) -> Result<()> {
+        Ok(())
+    }
+
     /// A node didn't change.
     fn nothing_changed(&mut self, _node_path: &Utf8Path, _node: &Node) -> Result<()> {
         Ok(())
@@ -134,9 +140,9 @@ pub fn compare_nodes(
             if node1.metadata != node2.metadata {
                 // trace!("{:#?} != {:#?}", node1.metadata, node2.metadata);
                 callbacks.metadata_changed(path, node1, node2)?;
-                changed = true;
-            }
-            if !changed {
+            } else if changed {
+                callbacks.only_subtree_changed(path, node2)?;
+            } else {
                 callbacks.nothing_changed(path, node1)?;
             }
             Ok(())
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 1a812a4..11c40cb 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -537,6 +537,14 @@ impl diff::Callbacks for Restorer<'_> {
         self.set_metadata(&node_path, new_node)
     }
 
+    fn only_subtree_changed(&mut self, node_path: &Utf8Path, new_node: &Node) -> Result<()> {
+        if self.args.dry_run {
+            return Ok(());
+        }
+        // Changing what's inside the directory gave it a new mtime; put it back.
+        self.set_metadata(&self.translate_path(node_path), new_node)
+    }
+
     fn type_changed(
         &mut self,
         node_path: &Utf8Path,
-- 
2.43.0


From 84ed3882bb33e0b5698524246228c2fddf6e2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 21/33] fix: snapshots with the same time are always in the
 same order

---
 src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index e4159b9..2ea8a83 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -229,7 +229,9 @@ pub fn load_chronologically_with_total_size(
             }
         });
     let mut snapshots = concurrently::map_concurrently(get_snapshots);
-    snapshots.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // They're loaded in no particular order, so break ties (copies can share a time) by ID.
+    // Otherwise LAST and friends could mean something else each time.
+    snapshots.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     Ok((snapshots, total.load(Ordering::SeqCst)))
 }
 
-- 
2.43.0


From db58146bb241ebd813b1aedf29fba4bffe4d4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 22/33] fix: snapshots named twice are listed once even if
 others share their time

---
 src/snapshot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 2ea8a83..f30f2cc 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -299,7 +299,7 @@ pub fn from_args_list(
         desired_snaps.push((s.clone(), *i));
     }
     // Take whatever the user asked for and make it chronological with no duplicates.
-    desired_snaps.sort_by_key(|(snap, _)| snap.time.timestamp());
+    desired_snaps.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     desired_snaps.dedup_by(|(_, id1), (_, id2)| id1 == id2);
     Ok(desired_snaps)
 }
-- 
2.43.0


From 2126796f9f9c8fe4310ff0ee8567ac395caa60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 23/33] fix: restore --times with times before 1970 that have
 fractional seconds

---
 src/ui/restore.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 11c40cb..9b99202 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -291,8 +291,9 @@ fn load_fs_tree_and_mapping<'a>(
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
     Timespec {
-        tv_sec: t.as_second(),
-        tv_nsec: t.subsec_nanosecond() as i64,
+        // Rounded towards negative infinity: times before 1970 have positive nanoseconds too.
+        tv_sec: t.as_nanosecond().div_euclid(1_000_000_000) as i64,
+        tv_nsec: t.as_nanosecond().rem_euclid(1_000_000_000) as i64,
     }
 }
 
-- 
2.43.0


From 04971342744e37635d73c1adf2ee0c2cb9c4c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 24/33] fix: restore doesn't write into FIFOs or devices where
 a file should go

---
 src/ui/restore.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 9b99202..e926e03 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -5,7 +5,7 @@ use std::{
     sync::Arc,
 };
 
-use anyhow::{Context, Result, anyhow};
+use anyhow::{Context, Result, anyhow, bail};
 use camino::{Utf8Path, Utf8PathBuf};
 use clap::Parser;
 use jiff::Timestamp;
@@ -388,6 +388,11 @@ impl Restorer<'_> {
     fn add_node(&mut self, node_path: &Utf8Path, new_node: &Node, forest: &Forest) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
+                // NB: FIFOs, devices, and the like aren't in our view of the filesystem.
+                // If there's one here, don't write into it!
+                if fs::symlink_metadata(node_path).is_ok_and(|m| !m.is_file()) {
+                    bail!("Couldn't create file {node_path}: something else is there");
+                }
                 let fh = File::create(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
-- 
2.43.0


From 745b077a7f610b143f5205757ee1815f3d40cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:00 +0000
Subject: [PATCH 25/33] fix: check --read-packs verifies that a pack's manifest
 matches its ID

---
 src/pack.rs     | 9 ++++++++-
 src/ui/check.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index 4df3b4c..1d616f4 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -303,6 +303,7 @@ impl<'a> PackfileWriter<'a> {
 /// Verifies everything in the packfile matches the given manifest from the index.
 pub fn verify<R: Read + Seek>(
     packfile: &mut R,
+    pack_id: &ObjectId,
     manifest_from_index: &[PackManifestEntry],
     blobs_read: &AtomicU64,
 ) -> Result<()> {
@@ -331,12 +332,18 @@ pub fn verify<R: Read + Seek>(
     // Or is that fine, since verification isn't as performance critical
     // as other interactions?
     let mut packfile = decoder.finish();
-    let (manifest_from_file, _id) = manifest_from_reader(&mut packfile)?;
+    let (manifest_from_file, calculated_id) = manifest_from_reader(&mut packfile)?;
 
     ensure!(
         manifest_from_index == manifest_from_file,
         "Pack manifest doesn't match its index entry and file contents"
     );
+    ensure!(
+        *pack_id == calculated_id,
+        "Pack {}'s manifest changed! Now hashes to {}",
+        pack_id,
+        calculated_id
+    );
 
     Ok(())
 }
diff --git a/src/ui/check.rs b/src/ui/check.rs
index 328adc9..c8b02b1 100644
--- a/src/ui/check.rs
+++ b/src/ui/check.rs
@@ -158,7 +158,7 @@ fn check_pack(
     blobs_read: &AtomicU64,
 ) -> Result<()> {
     let mut pack = cached_backend.read_pack(pack_id)?;
-    pack::verify(&mut pack, manifest, blobs_read)?;
+    pack::verify(&mut pack, pack_id, manifest, blobs_read)?;
     Ok(())
 }
 
-- 
2.43.0


From 6bc7550126ddabc4bfe4f56898e3df7744ebb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:16 +0000
Subject: [PATCH 26/33] Hook: the connection-limiting backend for outside
 checks (cfg vp_hooks)

---
 src/backend.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backend.rs b/src/backend.rs
index 53f15d9..b72c559 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -25,6 +25,13 @@ pub mod fs;
 mod memory;
 mod semaphored;
 
+// Lets checks outside this crate run it. Never set in normal builds.
+#[allow(unexpected_cfgs)]
+pub mod hooks {
+    #[cfg(vp_hooks)]
+    pub use super::semaphored::Semaphored;
+}
+
 use cache::Cache;
 
 #[inline]
-- 
2.43.0


From f29b0e77bd1610030ea863a34b217659e1088640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 27/33] fix: restore to paths inside each other doesn't trip
 over itself

---
 src/ui/restore.rs | 72 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index e926e03..f474d1f 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -104,30 +104,70 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
 
     let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot, id) = snapshot::find(&snapshots, &args.restore_from)?;
-    let snapshot_forest = tree::forest_from_root(
+    let mut snapshot_forest = tree::forest_from_root(
         &snapshot.tree,
         &mut tree::Cache::new(&index, &blob_map, &cached_backend),
     )?;
 
-    let tree_and_mapping = load_fs_tree_and_mapping(id, snapshot, &snapshot_forest, &output)?;
+    // If we're restoring to the snapshot's own paths and some are inside others,
+    // go through them one at a time and look at the filesystem anew for each.
+    let nested = |p: &Utf8PathBuf| snapshot.paths.iter().any(|q| q != p && p.starts_with(q));
+    let parts = if output.is_none() && snapshot.paths.iter().any(nested) {
+        split_paths(snapshot, &mut snapshot_forest)?
+    } else {
+        vec![snapshot.clone()]
+    };
 
     let metadata = args.times || args.permissions;
 
-    let mut res = Restorer {
-        printer: super::diff::PrintDiffs { metadata },
-        path_map: tree_and_mapping.path_map,
-        blob_reader: ChunkReader::new(&cached_backend, &index, &blob_map),
-        args: &args,
-    };
+    for part in &parts {
+        let tree_and_mapping = load_fs_tree_and_mapping(id, part, &snapshot_forest, &output)?;
+
+        let mut res = Restorer {
+            printer: super::diff::PrintDiffs { metadata },
+            path_map: tree_and_mapping.path_map,
+            blob_reader: ChunkReader::new(&cached_backend, &index, &blob_map),
+            args: &args,
+        };
+
+        // The filesystem tree is the "older" one,
+        // since the backup is the desired end state.
+        diff::compare_trees(
+            (&tree_and_mapping.fs_id, &tree_and_mapping.fs_forest),
+            (&part.tree, &snapshot_forest),
+            Utf8Path::new(""),
+            &mut res,
+        )?;
+    }
+    Ok(())
+}
 
-    // The filesystem tree is the "older" one,
-    // since the backup is the desired end state.
-    diff::compare_trees(
-        (&tree_and_mapping.fs_id, &tree_and_mapping.fs_forest),
-        (&snapshot.tree, &snapshot_forest),
-        Utf8Path::new(""),
-        &mut res,
-    )
+/// Split a snapshot into ones for each of its paths, adding their top-level trees to the forest.
+fn split_paths(
+    snapshot: &snapshot::Snapshot,
+    forest: &mut Forest,
+) -> Result<Vec<snapshot::Snapshot>> {
+    let top = forest
+        .get(&snapshot.tree)
+        .ok_or_else(|| anyhow!("Missing tree {}", snapshot.tree))?
+        .clone();
+
+    let mut parts = Vec::with_capacity(snapshot.paths.len());
+    for path in &snapshot.paths {
+        let name = Utf8Path::new(path.file_name().unwrap());
+        let mut part_top = Tree::new();
+        if let Some(node) = top.get(name) {
+            part_top.insert(name.to_owned(), node.clone());
+        }
+        let (_bytes, part_id) = tree::serialize_and_hash(&part_top)?;
+        forest.insert(part_id, Arc::new(part_top));
+        parts.push(snapshot::Snapshot {
+            paths: BTreeSet::from([path.clone()]),
+            tree: part_id,
+            ..snapshot.clone()
+        });
+    }
+    Ok(parts)
 }
 
 struct FsTreeAndMapping<'a> {
-- 
2.43.0


From 5f7ddee48446fefe6e804e63c5e6fbf29896b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:02 +0000
Subject: [PATCH 28/33] fix: a prune that fails midway doesn't publish an
 incomplete index

When repacking failed (say, some pack couldn't be read), dropping the
backup threads' handle let them wrap up: they uploaded an index of what
was repacked so far that superseded all the current ones, and everything
else was lost to every snapshot. Bail out like we do for other errors
that can't be cleaned up after.
---
 src/ui/prune.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 67c832b..3266107 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -10,6 +10,7 @@ use tracing::*;
 use crate::backend;
 use crate::backup;
 use crate::config::Configuration;
+use crate::fatal;
 use crate::file_util::nice_size;
 use crate::hashing::ObjectId;
 use crate::index;
@@ -193,7 +194,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &cached_backend.bytes_uploaded,
         );
 
-        let run_res = (|| {
+        let repack_res = (|| {
             // Finish the WIP resume business.
             if !args.dry_run {
                 backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)?;
@@ -214,8 +215,9 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 &mut packed_blobs,
                 &mut backup,
                 &walk_stats,
-            )?;
-
+            )
+        })();
+        let run_res = match repack_res {
             // NB: Before deleting the old indexes, we make sure the new one's been written.
             //     This ensures there's no point in time when we don't have a valid index
             //     of reachable blobs in packs. rebuild-index plays the same game.
@@ -223,9 +225,16 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             //     Any concurrent writers (writing a backup at the same time)
             //     will upload their own index only after all packs are uploaded,
             //     making sure indexes never refer to missing packs. (I hope...)
-            backup.join()?;
-            Ok(())
-        })();
+            Ok(_) => backup.join(),
+            // Dry runs don't upload anything.
+            Err(e) if args.dry_run => {
+                drop(backup);
+                Err(e)
+            }
+            // NB: Don't let the backup threads wrap up! They'd upload an index that supersedes
+            //     the current ones, but we haven't repacked everything yet.
+            Err(e) => fatal(e),
+        };
         progress_thread.join();
         run_res
     })?;
-- 
2.43.0


From c51ea717deb0c0155a69d651203d4d2d9b9786d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 29/33] Hook: check a B2 session against a stand-in server (cfg
 vp_hooks)

---
 b2/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index a11e43d..dcbc3c5 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -47,13 +47,23 @@ fn noredir() -> ureq::Agent {
     ureq::Agent::new_with_config(ureq::Agent::config_builder().max_redirects(0).build())
 }
 
+// Lets checks outside this crate run it against a stand-in server. Never set in normal builds.
+#[allow(unexpected_cfgs)]
+fn authorize_url() -> String {
+    #[cfg(vp_hooks)]
+    if let Ok(url) = std::env::var("VP_B2_AUTHORIZE") {
+        return url;
+    }
+    "https://api.backblazeb2.com/b2api/v3/b2_authorize_account".to_owned()
+}
+
 impl Session {
     pub fn new<S: Into<String>>(key_id: &str, application_key: &str, bucket: S) -> Result<Self> {
         let bucket = bucket.into();
 
         let creds = String::from(key_id) + ":" + application_key;
         let auth = String::from("Basic") + &BASE64_STANDARD.encode(creds);
-        let v: json::Value = ureq::get("https://api.backblazeb2.com/b2api/v3/b2_authorize_account")
+        let v: json::Value = ureq::get(authorize_url())
             .header("Authorization", &auth)
             .call()?
             .body_mut()
-- 
2.43.0


From 5815a186bde8072b4b9f0e685f10e212149e1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:03 +0000
Subject: [PATCH 30/33] fix: don't ask Backblaze again forever when the answer
 is no

Removing or reading an object that isn't there, or losing access to the
bucket, made commands retry once a second until the end of time.
---
 b2/src/lib.rs            | 16 ++++++++++++++++
 src/backend/backblaze.rs |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index dcbc3c5..4778a6c 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -22,6 +22,22 @@ impl From<ureq::Error> for Error {
     }
 }
 
+impl Error {
+    /// Did the server answer in a way that asking again won't change?
+    pub fn is_final(&self) -> bool {
+        match self {
+            Self::Io(_) => false,
+            // Besides timeouts and "slow down", 4xx mean it understood us and said no.
+            Self::Http(e) => match **e {
+                ureq::Error::StatusCode(408 | 429) => false,
+                ureq::Error::StatusCode(code) => (400..500).contains(&code),
+                _ => false,
+            },
+            Self::UnexpectedResponse { .. } | Self::NotFound { .. } => true,
+        }
+    }
+}
+
 fn unexpected(w: &str, r: &json::Value) -> Error {
     Error::UnexpectedResponse {
         why: w.to_string(),
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index f15629d..5b1b3f2 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -54,8 +54,9 @@ fn retry<T, F: FnMut() -> b2::Result<T>>(mut f: F) -> b2::Result<T> {
             Ok(k) => return Ok(k),
             Err(e) => {
                 // Assume IO errors are issues with our machine that won't resolve quickly,
+                // that there's no arguing with answers like "not found" or "not authorized",
                 // and everything else to be server-side, temporary sadness.
-                if matches!(e, b2::Error::Io(_)) {
+                if matches!(e, b2::Error::Io(_)) || e.is_final() {
                     return Err(e);
                 } else {
                     warn!("{e}, retrying");
-- 
2.43.0


From ea2a6f377383d8ce38aadfc6040e1cdba0939779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:18 +0000
Subject: [PATCH 31/33] fix: a download counts as a connection until it's done

concurrent_connections limited how many reads could begin at once, but
not how many were under way: the permit was returned before the body
was read.
---
 src/backend/semaphored.rs | 29 +++++++++++++++++++++--------
 src/semaphored.rs         | 13 +++++++------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index ee591ba..d0a4184 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -1,40 +1,53 @@
 use super::*;
 use crate::semaphored;
 
-use std::sync::atomic::AtomicU32;
+use std::sync::{Arc, atomic::AtomicU32};
 
 pub struct Semaphored<B> {
     inner: B,
-    count: AtomicU32,
+    count: Arc<AtomicU32>,
+}
+
+/// The operation isn't over (and its connection isn't free) until we're done reading.
+struct SemaphoredRead {
+    inner: Box<dyn Read + Send + 'static>,
+    _sem: semaphored::SemaphoreGuard<Arc<AtomicU32>>, // After inner, to drop it last.
+}
+
+impl Read for SemaphoredRead {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.inner.read(buf)
+    }
 }
 
 impl<B: Backend> Semaphored<B> {
     pub fn new(inner: B, concurrency: u32) -> Self {
         Self {
             inner,
-            count: AtomicU32::new(concurrency),
+            count: Arc::new(AtomicU32::new(concurrency)),
         }
     }
 }
 
 impl<B: Backend> Backend for Semaphored<B> {
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>> {
-        let _sem = semaphored::dec(&self.count);
-        self.inner.read(from)
+        let _sem = semaphored::dec(Arc::clone(&self.count));
+        let inner = self.inner.read(from)?;
+        Ok(Box::new(SemaphoredRead { inner, _sem }))
     }
 
     fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.write(len, from, to)
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.remove(which)
     }
 
     fn list(&self, prefix: &str) -> Result<Vec<(String, u64)>> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.list(prefix)
     }
 }
diff --git a/src/semaphored.rs b/src/semaphored.rs
index b6776c6..90d1b29 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -7,16 +7,17 @@
 //! We also might want to limit the number of concurrent filesystem threads
 //! done with [`concurrently`](super::concurrently)
 
+use std::ops::Deref;
 use std::sync::atomic::{AtomicU32, Ordering};
 
 use atomic_wait::*; // <3 Mara
 
 /// lmao how does the stdlib not have counting semaphores
-pub struct SemaphoreGuard<'a> {
-    count: &'a AtomicU32,
+pub struct SemaphoreGuard<C: Deref<Target = AtomicU32>> {
+    count: C,
 }
 
-pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
+pub fn dec<C: Deref<Target = AtomicU32>>(count: C) -> SemaphoreGuard<C> {
     // Sanity check:
     // https://www.remlab.net/op/futex-misc.shtml
 
@@ -31,7 +32,7 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
             Err(actual) => {
                 if actual == 0 {
                     // I sleep
-                    wait(count, 0);
+                    wait(&count, 0);
                     // We're back, so at least one thread posted the semaphore
                     // (by dropping the guard) and we've got a positive count again.
                     // Assume only one thread did - if several beat us here, no worries,
@@ -49,12 +50,12 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
     SemaphoreGuard { count }
 }
 
-impl Drop for SemaphoreGuard<'_> {
+impl<C: Deref<Target = AtomicU32>> Drop for SemaphoreGuard<C> {
     fn drop(&mut self) {
         self.count.fetch_add(1, Ordering::Release);
         // real shit
         // (Even if the count was already positive! If we and another thread both post while
         // two others wait, and the first to wake hasn't run yet, the second would nap forever.)
-        wake_one(self.count);
+        wake_one(&*self.count);
     }
 }
-- 
2.43.0


From aea521e1dd7ba2b0e2759b1e7d92a344aab25ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:08 +0000
Subject: [PATCH 32/33] fix: try an upload to Backblaze again from its start

The second attempt sent what the first had left of the file, i.e.,
nothing, and waited for an answer that never came.
---
 src/backend.rs            | 6 +++++-
 src/backend/backblaze.rs  | 7 +++++--
 src/backend/filter.rs     | 2 +-
 src/backend/fs.rs         | 2 +-
 src/backend/memory.rs     | 2 +-
 src/backend/semaphored.rs | 2 +-
 src/progress.rs           | 8 +++++++-
 7 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/backend.rs b/src/backend.rs
index b72c559..09ba64a 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -106,13 +106,17 @@ pub fn write_config<W: Write>(mut w: W, c: Configuration) -> Result<()> {
     Ok(())
 }
 
+/// Something to write to a backend, which might have to start over.
+pub trait Contents: Read + Seek + Send {}
+impl<T> Contents for T where T: Read + Seek + Send {}
+
 /// A backend is anything we can read from, write to, list, and remove items from.
 pub trait Backend {
     /// Read from the given key
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>>;
 
     /// Write the given read stream to the given key
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()>;
+    fn write(&self, len: u64, from: &mut dyn Contents, to: &str) -> Result<()>;
 
     fn remove(&self, which: &str) -> Result<()>;
 
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index 5b1b3f2..b58081f 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -73,8 +73,11 @@ impl Backend for BackblazeBackend {
         Ok(Box::new(r))
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        retry(|| self.session.put(to, len, from))?;
+    fn write(&self, len: u64, from: &mut dyn Contents, to: &str) -> Result<()> {
+        retry(|| {
+            from.rewind()?; // It's been read if this isn't the first try.
+            self.session.put(to, len, from)
+        })?;
         Ok(())
     }
 
diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index 1100a6c..dad61b8 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -99,7 +99,7 @@ impl Backend for BackendFilter {
         }))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn Contents, to: &str) -> Result<()> {
         debug!("{} > {to}", self.filter);
 
         let mut f = Command::new("sh")
diff --git a/src/backend/fs.rs b/src/backend/fs.rs
index da54923..aa715b7 100644
--- a/src/backend/fs.rs
+++ b/src/backend/fs.rs
@@ -84,7 +84,7 @@ impl Backend for FilesystemBackend {
         ))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn Contents, to: &str) -> Result<()> {
         let to = self.path_of(to);
         file_util::safe_copy_to_file(from, &to)?;
         Ok(())
diff --git a/src/backend/memory.rs b/src/backend/memory.rs
index c8a09a1..7d49c64 100644
--- a/src/backend/memory.rs
+++ b/src/backend/memory.rs
@@ -44,7 +44,7 @@ impl Backend for MemoryBackend {
         Ok(Box::new(self.read_cursor(from)?))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn Contents, to: &str) -> Result<()> {
         let mut vec = Vec::new();
         io::copy(from, &mut vec)?;
         self.files.lock().unwrap().insert(to.to_owned(), vec);
diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index d0a4184..f66e591 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -36,7 +36,7 @@ impl<B: Backend> Backend for Semaphored<B> {
         Ok(Box::new(SemaphoredRead { inner, _sem }))
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, len: u64, from: &mut dyn Contents, to: &str) -> Result<()> {
         let _sem = semaphored::dec(&*self.count);
         self.inner.write(len, from, to)
     }
diff --git a/src/progress.rs b/src/progress.rs
index 6ecd7a2..feaaae9 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read, Write},
+    io::{self, Read, Seek, SeekFrom, Write},
     sync::{
         Arc,
         atomic::{AtomicBool, AtomicU64, Ordering},
@@ -41,6 +41,12 @@ impl<R: Read> Read for AtomicCountRead<'_, R> {
     }
 }
 
+impl<R: Seek> Seek for AtomicCountRead<'_, R> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.inner.seek(pos)
+    }
+}
+
 pub struct AtomicCountWrite<'a, W> {
     inner: W,
     count: &'a AtomicU64,
-- 
2.43.0


From dc8d76d1d1f1c1512a922ad5ecf0d352709bd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:07 +0000
Subject: [PATCH 33/33] fix: removing an object from Backblaze removes all its
 versions

An upload that was tried again though it had worked (or that another run
repeated after a crash) leaves two versions of the same thing; removing
it then failed, each time, and with it each prune or rebuild-index.
---
 b2/src/lib.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index 4778a6c..f7a2229 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -303,25 +303,27 @@ impl Session {
 
         let versions = lfv["files"].as_array().ok_or_else(where_name)?;
 
-        if versions.is_empty() {
+        // There are several if it was uploaded again, e.g., because we didn't hear back the first time.
+        let mut versions = versions
+            .iter()
+            .filter(|v| v["fileName"].as_str() == Some(name))
+            .peekable();
+
+        if versions.peek().is_none() {
             return Err(where_name());
         }
-        if versions.len() != 1 {
-            return Err(unexpected(
-                &format!("found multiple versions of {name}"),
-                &lfv,
-            ));
-        }
-        let id = versions[0]["fileId"]
-            .as_str()
-            .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
+        for version in versions {
+            let id = version["fileId"]
+                .as_str()
+                .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
 
-        ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
-            .header("Authorization", &self.token)
-            .send_json(json::json!({
-                "fileName": name,
-                "fileId": id
-            }))?;
+            ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
+                .header("Authorization", &self.token)
+                .send_json(json::json!({
+                    "fileName": name,
+                    "fileId": id
+                }))?;
+        }
 
         Ok(())
     }
-- 
2.43.0

