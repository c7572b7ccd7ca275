From 4070e663ef83d2fcda51864245b75d48d0e02d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 01/54] fix: collect every result sent by the workers before
 finishing

The collection loops in topk, botk and search polled DataExecutor::done()
and gave up as soon as no job was queued or running, so results still in the
channel at that moment were silently lost (for example when all jobs finished
before the first poll). After an error they could also stop reading while
workers were blocked on the full channel, so join() never returned. Read until
every sender is gone instead.
---
 src/cmd/botk.rs   | 13 ++++---------
 src/cmd/search.rs | 20 ++++++++------------
 src/cmd/topk.rs   | 13 ++++---------
 src/cmd/util.rs   | 10 ----------
 4 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index bdcf1c1..cfaf6e1 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
@@ -303,14 +302,10 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs are done, at which point every job
+    // will have dropped its sender.
+    while let Ok((ngram, count)) = rx.recv() {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index e8cf0e2..b0cfd63 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
 use std::sync::Arc;
-use std::time::Duration;
 
 use ahash::RandomState;
 use anyhow::{bail, Result};
@@ -225,20 +224,17 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    while !executor.done() {
-        if let Some(ref rx) = rx {
-            while let Ok((pattern, path, matches)) = rx.recv_timeout(Duration::from_secs(1)) {
-                let matches_for_pattern: &mut HashMap<
-                    PathBuf,
-                    Vec<MatchLocation>,
-                    ahash::RandomState,
-                > = match_locations
+    // Collect match locations until all jobs are done, at which point every job will have dropped
+    // its sender.
+    if let Some(ref rx) = rx {
+        while let Ok((pattern, path, matches)) = rx.recv() {
+            let matches_for_pattern: &mut HashMap<PathBuf, Vec<MatchLocation>, ahash::RandomState> =
+                match_locations
                     .as_mut()
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
-                if !matches.is_empty() {
-                    matches_for_pattern.insert(path.clone(), matches);
-                }
+            if !matches.is_empty() {
+                matches_for_pattern.insert(path.clone(), matches);
             }
         }
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 6ad1d44..91e2c83 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -6,7 +6,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::{Atomic, NumOps};
@@ -274,14 +273,10 @@ where
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs are done, at which point every job
+    // will have dropped its sender.
+    while let Ok((ngram, count)) = rx.recv() {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0f209fb..ffc6c4f 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -250,16 +250,6 @@ impl DataExecutor {
         Ok(())
     }
 
-    pub(crate) fn done(&self) -> bool {
-        (self.pool.active_count() == 0 && self.pool.queued_count() == 0)
-            || self.pool.panic_count() > 0
-            || self.early_exit.load(Ordering::Relaxed)
-    }
-
-    pub(crate) fn has_errors(&self) -> bool {
-        self.early_exit.load(Ordering::Relaxed)
-    }
-
     pub(crate) fn join(&self) -> Result<()> {
         self.pool.join();
 
-- 
2.43.0


From 5e601ec8610e5e9a6ec248ee0059295fe95f5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 02/54] fix: compare inverse counts with the inverse threshold
 when merging in botk

The per-file merge compared the inverse counts with the threshold itself, so
with the default threshold of u32::MAX nothing was ever reported, and with
other thresholds ngrams were dropped or kept by accident.
---
 src/cmd/botk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index cfaf6e1..9cacfaa 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
 use console::style;
-use num_traits::{NumCast, One};
+use num_traits::One;
 use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
@@ -271,7 +271,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         // global top-k.
         let sync_local_topk = {
             let min_count = topk.min_count();
-            let threshold = <<AtomicU32 as Atomic>::Type as NumCast>::from(opt.threshold).unwrap();
+            let threshold = u32::MAX - opt.threshold;
             let tx = tx.clone();
 
             move |mut local_topk: TopKNgrams<String, AtomicU32>| -> Result<()> {
-- 
2.43.0


From 218bf78daf70c7d650f502d53b3597c443d6d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 03/54] fix: prune every stale document pointer in stats

A worker that read the current max/min before another worker raised it could
append a stale pointer behind a correct one; pruning only looked at the front
of the list, so documents that are not the longest/shortest were reported.
---
 src/cmd/stats.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index bf2344a..2c19e5a 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -322,26 +322,14 @@ impl Stats<Arc<AtomicUsize>> {
             .max_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*max_token_documents).front() {
-            if doc_pointer.num_tokens < current_max {
-                (*max_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        max_token_documents.retain(|doc_pointer| doc_pointer.num_tokens >= current_max);
 
         let current_min = self.document_min_tokens.load(Ordering::Relaxed);
         let mut min_token_documents = self
             .min_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*min_token_documents).front() {
-            if doc_pointer.num_tokens > current_min {
-                (*min_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        min_token_documents.retain(|doc_pointer| doc_pointer.num_tokens <= current_min);
 
         Ok(())
     }
-- 
2.43.0


From bf11d4221d987eb6b19fc3307ce77df20a5b60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 04/54] fix: saturate ngram counts atomically

increment() and decrement() first let the cell wrap around and then stored the
bound in a second step. A thread updating the same cell in between saw the
wrapped value, returned a tiny (huge) count, and its own update was lost or
restarted the cell from zero (max).
---
 src/ngrams/counter.rs | 44 +++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f2b22ed..1b5107c 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -118,13 +118,21 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::Relaxed);
-            let count = if old_count > <A as Atomic>::Type::max_value() - by.clone() {
-                // Catch overflows and just keep as MAX.
-                self.count_array[index].store(<A as Atomic>::Type::max_value(), Ordering::Relaxed);
-                <A as Atomic>::Type::max_value()
-            } else {
-                old_count + by.clone()
+            // Catch overflows and just keep as MAX. This has to be a single atomic update so that
+            // no other thread can ever see a wrapped count.
+            let add = |old_count: <A as Atomic>::Type| {
+                if old_count > <A as Atomic>::Type::max_value() - by.clone() {
+                    <A as Atomic>::Type::max_value()
+                } else {
+                    old_count + by.clone()
+                }
+            };
+            let count = match self.count_array[index].fetch_update(
+                Ordering::Relaxed,
+                Ordering::Relaxed,
+                |old_count| Some(add(old_count)),
+            ) {
+                Ok(old_count) | Err(old_count) => add(old_count),
             };
             min_count = std::cmp::min(min_count, count);
         }
@@ -146,13 +154,21 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_sub(by.clone(), Ordering::Relaxed);
-            let count = if old_count < by {
-                // Catch underflows and just keep as 0.
-                self.count_array[index].store(<A as Atomic>::Type::zero(), Ordering::Relaxed);
-                <A as Atomic>::Type::zero()
-            } else {
-                old_count - by.clone()
+            // Catch underflows and just keep as 0. This has to be a single atomic update so that
+            // no other thread can ever see a wrapped count.
+            let subtract = |old_count: <A as Atomic>::Type| {
+                if old_count < by {
+                    <A as Atomic>::Type::zero()
+                } else {
+                    old_count - by.clone()
+                }
+            };
+            let count = match self.count_array[index].fetch_update(
+                Ordering::Relaxed,
+                Ordering::Relaxed,
+                |old_count| Some(subtract(old_count)),
+            ) {
+                Ok(old_count) | Err(old_count) => subtract(old_count),
             };
             max_count = std::cmp::max(max_count, count);
         }
-- 
2.43.0


From 7884a241d995c042565e7180ea6b3e20bc44305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:00 +0000
Subject: [PATCH 05/54] fix: never undercount an ngram incremented by several
 threads

increment() took the minimum of the counts each cell had at the moment it was
updated. Two threads updating the cells of one ngram in interleaved order could
both return less than the total, so topk reported too small a count.
---
 src/ngrams/counter.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index 1b5107c..c4080f7 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -114,7 +114,7 @@ where
         I: Iterator<Item = &'a T>,
         T: 'a + Hash,
     {
-        let mut min_count = <A as Atomic>::Type::max_value();
+        let mut indices = Vec::with_capacity(self.num_hash_functions);
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
@@ -127,13 +127,20 @@ where
                     old_count + by.clone()
                 }
             };
-            let count = match self.count_array[index].fetch_update(
-                Ordering::Relaxed,
+            let _ = self.count_array[index].fetch_update(
+                Ordering::SeqCst,
                 Ordering::Relaxed,
                 |old_count| Some(add(old_count)),
-            ) {
-                Ok(old_count) | Err(old_count) => add(old_count),
-            };
+            );
+            indices.push(index);
+        }
+
+        // Take the minimum only once all cells are updated. Otherwise several threads incrementing
+        // the same ngram could each see another thread's update missing from a different cell, and
+        // none of them would return the total count.
+        let mut min_count = <A as Atomic>::Type::max_value();
+        for index in indices {
+            let count = self.count_array[index].load(Ordering::SeqCst);
             min_count = std::cmp::min(min_count, count);
         }
         min_count
-- 
2.43.0


From 89ee38aa18deccd9f3ab938767885698a214fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 06/54] fix: make --seed reproducible across runs

RandomState::with_seed() mixes the seed with keys that ahash draws at random
for every process, so the same seed gave different hash functions (and, with a
small table, different results) on every run. It also overflowed for seeds close
to u64::MAX.
---
 src/ngrams/counter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index c4080f7..091e3d1 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -5,6 +5,7 @@ use ahash::RandomState;
 use anyhow::{Context, Result};
 use atomic_traits::{Atomic, NumOps};
 use num_traits::{Bounded, NumCast, One, SaturatingSub, Zero};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 
 pub trait AsIterator<'a, T: 'a> {
     type Iterator: Iterator<Item = &'a T>;
@@ -74,10 +75,15 @@ where
         }
 
         // Initialize hash builders
+        // NOTE: `RandomState::with_seed()` is only reproducible within a process, since it combines the
+        // seed with keys that are chosen at random for each process.
+        let mut rng = seed.map(StdRng::seed_from_u64);
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
-        for i in 0..num_hash_functions {
-            let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize) + i),
+        for _ in 0..num_hash_functions {
+            let hash_builder = match rng {
+                Some(ref mut rng) => {
+                    RandomState::with_seeds(rng.gen(), rng.gen(), rng.gen(), rng.gen())
+                }
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From bcbdc88c2f9d7f1b500c93794ef28a3e0684de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 07/54] fix: truncate the output file when overwriting it with
 --force

A shorter new output left the tail of the old file behind it.
---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2203fe0..1d41046 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -15,7 +15,10 @@ pub(crate) fn get_output_file(path: impl AsRef<Path>, force: bool) -> Result<(Fi
                 path
             );
         }
-        Ok((File::options().write(true).open(path)?, path.into()))
+        Ok((
+            File::options().write(true).truncate(true).open(path)?,
+            path.into(),
+        ))
     } else {
         if let Some(parent) = path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From 05e4ceccd2f0840d38bbd54a02805a8366629083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 08/54] fix: do not treat directory names as glob patterns

A directory whose name contains '[', '*' or '?' was searched as a pattern, so
its files were not found or files from other directories were picked up.
---
 src/cmd/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index ffc6c4f..43f0885 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -5,7 +5,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::glob;
+use glob::{glob, Pattern};
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -313,7 +313,9 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", path_str))? {
+            // The directory name itself is not a pattern.
+            let dir = Pattern::escape(path_str);
+            for entry in glob(&format!("{}/**/*.json*.gz", dir))? {
                 files.push(entry?.to_path_buf());
                 num_hits += 1;
             }
-- 
2.43.0


From eff755db3545c3558c78d9215892f6c98100365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 09/54] fix: estimate the number of unique ngrams, not of
 non-zero cells

Every new ngram sets up to one cell per hash function, so with the default of 5
hash functions the estimate was about 5 times too high.
---
 src/cmd/unique.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 806c444..0b5aff4 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -145,7 +145,10 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     executor.join()?;
 
     log::info!("Counting unique ngrams...");
-    let unique_count = ngram_counts.nonzero();
+    // Each unique ngram sets up to one cell per hash function, so the number of non-zero cells has to
+    // be converted to a number of ngrams.
+    let unique_count =
+        estimate_unique_count(ngram_counts.nonzero(), counter_size, opt.hashes as u64);
 
     if opt.json {
         let json_out = &json!({
@@ -159,3 +162,12 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     Ok(())
 }
+
+/// Estimate the number of items in a Bloom filter with `size` cells and `hashes` hash functions from
+/// the number of non-zero cells.
+fn estimate_unique_count(nonzero: u64, size: u64, hashes: u64) -> u64 {
+    let size = size as f64;
+    // The estimate diverges when the filter is full.
+    let nonzero = (nonzero as f64).min(size - 0.5);
+    (-(size / hashes as f64) * (-nonzero / size).ln_1p()).round() as u64
+}
-- 
2.43.0


From 44d663ce2a7f314fffee8a6628043df4cd482493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 10/54] fix: keep all match locations when a file is given more
 than once

The locations of the second pass over the file replaced those of the first, so
they no longer added up to the count.
---
 src/cmd/search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index b0cfd63..5b7fd9d 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -234,7 +234,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
             if !matches.is_empty() {
-                matches_for_pattern.insert(path.clone(), matches);
+                matches_for_pattern.entry(path).or_default().extend(matches);
             }
         }
     }
-- 
2.43.0


From 3979c330029fc50de01c2f0d20dbf677622896cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 11/54] fix: handle empty and repetitive blocklists when
 deduplicating

With an empty blocklist (data without duplicates) the script crashed before
writing any output because an empty file cannot be mapped, and with a hash listed
twice the index of the last hash was outside of the seen array.
---
 .../helper_scripts/deduplicate_by_hash.py                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 093c347..2abd92d 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -86,10 +86,12 @@ def main(args):
 
     # Add the hashes to the blocklist
     with open(args.blocklist, 'rt') as fin:
-        for i, hash in tqdm(enumerate(fin), desc="Loading blocklist"):
-            blocklist[hash.strip()] = i
+        for hash in tqdm(fin, desc="Loading blocklist"):
+            # a hash may be listed more than once
+            blocklist.setdefault(hash.strip(), len(blocklist))
     
-    seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
+    # an empty file can't be mapped, but the blocklist is empty when there are no duplicates
+    seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=max(len(blocklist), 1))
 
     # Create a pool of processes
     with mp.Pool(processes=args.num_processes, initializer=worker_initializer, initargs=(lock, blocklist, seen_array)) as pool:
-- 
2.43.0


From 95667cfb08a5dbe76a23d2bed6b5244fa7f01ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 12/54] fix: empty the overlap file when there is no overlap

touch left the content of an earlier run in place.
---
 wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index cb876df..afc796b 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -36,7 +36,7 @@ def main():
 
         # if either file is empty, output empty file directly
         if os.path.getsize(file1) == 0 or os.path.getsize(file2) == 0:
-            os.system(f"touch {outfile}")
+            open(outfile, "w").close()
             continue
         
         print(f"merging: {file1}, {file2}")
-- 
2.43.0


From 2f821b327648ff39e990e0f5969d6ea523815bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 13/54] fix: search the point in time when returning all hits

The point in time was opened but never used, so pages were cut at the value of
the (not unique) sort field: documents that share the value of the last hit of a
page were lost.
---
 wimbd/es/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index a69a435..f11e342 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -239,16 +239,18 @@ def get_documents_containing_phrases(
     if return_all_hits:
         sort = [{sort_field: "asc"}]
         pit = es.open_point_in_time(index=index, keep_alive="1m")
-        # pit_search = {"id": pit["id"], "keep_alive": "1m"}
+        # NOTE: searching the point in time makes the sort order total, so that documents with the
+        # same sort_field aren't lost between pages. It also determines the index to search.
+        pit_search = {"id": pit["id"], "keep_alive": "1m"}
         # all_results = []
-        results = es.search(index=index, query=query, size=num_documents, sort=sort)[
-            "hits"
-        ]["hits"]
+        results = es.search(
+            pit=pit_search, query=query, size=num_documents, sort=sort
+        )["hits"]["hits"]
         yield from results
         while len(results) > 0:
             # todo: perhaps we need to refresh pit?
             results = es.search(
-                index=index,
+                pit=pit_search,
                 query=query,
                 size=num_documents,
                 sort=sort,
-- 
2.43.0


From 49f2837907003cd60b9b673414216cf4b996562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 14/54] fix: do not modify the subset filter of the caller

Searching c4 appended to the list passed in, so the caller's next query on
another index was restricted to the subset too.
---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index f11e342..0a5ed61 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -171,7 +171,7 @@ def count_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -228,7 +228,7 @@ def get_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -305,7 +305,7 @@ def count_documents_for_each_phrase(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     done = False
     generator = iter(phrases)
@@ -382,7 +382,7 @@ def count_total_occurrences_of_unigrams(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     term_freq_dict = {}
     for term in unigrams:
-- 
2.43.0


From e4125d56e143255cd21f09e6ae96ea4bc9330cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 15/54] fix: wrap subset filters in a term query when counting
 unigrams

A bare {field: value} is not a valid query clause.
---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 0a5ed61..0036fe9 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -390,7 +390,7 @@ def count_total_occurrences_of_unigrams(
         if subset_filter:
             query = {"bool": {"filter": [{"match": {"text": term}}]}}
             for filter_ in subset_filter:
-                query["bool"]["filter"].append(filter_)
+                query["bool"]["filter"].append({"term": filter_})
 
         else:
             query = {"bool": {"filter": {"match": {"text": term}}}}
-- 
2.43.0


From cf3bfac378af55d7b392c0c05ff8949b26e2f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 16/54] fix: do not exceed the batch size by one

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 0036fe9..635908d 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -332,7 +332,7 @@ def count_documents_for_each_phrase(
                     "query": {"bool": {"filter": match_query}},
                 }
             )
-            if i == batch_size:
+            if i + 1 == batch_size:
                 break
         if len(queries) == 0:
             done = True
-- 
2.43.0


From 718578abdfa839cbc808783a6880aa0e13326773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 17/54] fix: use the latest point in time id for the next page

---
 wimbd/es/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 635908d..0501624 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -243,22 +243,26 @@ def get_documents_containing_phrases(
         # same sort_field aren't lost between pages. It also determines the index to search.
         pit_search = {"id": pit["id"], "keep_alive": "1m"}
         # all_results = []
-        results = es.search(
+        response = es.search(
             pit=pit_search, query=query, size=num_documents, sort=sort
-        )["hits"]["hits"]
+        )
+        results = response["hits"]["hits"]
         yield from results
         while len(results) > 0:
             # todo: perhaps we need to refresh pit?
-            results = es.search(
+            # the id of the point in time may change with every request
+            pit_search["id"] = response.get("pit_id", pit_search["id"])
+            response = es.search(
                 pit=pit_search,
                 query=query,
                 size=num_documents,
                 sort=sort,
                 search_after=results[-1]["sort"],
-            )["hits"]["hits"]
+            )
+            results = response["hits"]["hits"]
             yield from results
         try:
-            es.close_point_in_time(id=pit["id"])
+            es.close_point_in_time(id=pit_search["id"])
         except NotFoundError:
             # Already closed.
             pass
-- 
2.43.0


From 15e819ea932831ff3eac77ed3b8c972039c44cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 18/54] fix: index files with null texts and files without any
 text

A null text raised a TypeError before the filter that is meant to skip it, and a
file without a single document broke saving the ids, because dset[-0:] is the
whole dataset.
---
 wimbd/indexing/index_json_files.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index c5e6fbc..20160d4 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -59,7 +59,9 @@ def main():
 
     def make_action(filename, line_number, line):
         doc = json.loads(line)
-        doc["text"] = doc.pop(args.text_field)[: args.max_doc_size]
+        text = doc.pop(args.text_field)
+        # documents without text are filtered out below
+        doc["text"] = None if text is None else text[: args.max_doc_size]
         for field in skip_fields:
             doc.pop(field, None)
         if args.id_field is None:
@@ -123,7 +125,7 @@ def main():
                     {str(k): v for k, v in result_counts.items()}, refresh=False
                 )
 
-            if args.save_ids_file:
+            if args.save_ids_file and len(result_ids) > 0:
                 with h5py.File(args.save_ids_file, "a") as f:
                     dset = f["ids"]
                     new_size = dset.shape[0] + len(result_ids)
-- 
2.43.0


From 78e9924f0273c3a241a332d86e64990fc20461c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 19/54] fix: resume interrupted downloads without losing
 examples

When continuing, `start` examples were dropped from every chunk and the stream was
read from its beginning again under the numbers of later batches. An interrupted
download could also leave incomplete files and gaps behind that were taken for
finished batches.
---
 wimbd/indexing/huggingface.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/wimbd/indexing/huggingface.py b/wimbd/indexing/huggingface.py
index 01e9447..856f948 100644
--- a/wimbd/indexing/huggingface.py
+++ b/wimbd/indexing/huggingface.py
@@ -1,8 +1,6 @@
 import argparse
 import concurrent.futures
-import glob
 import gzip
-import itertools
 import json
 import logging
 import os
@@ -16,13 +14,10 @@ logger = logging.getLogger(__name__)
 def chunks(iterable, start, size):
     from itertools import chain, islice
 
-    iterator = iter(iterable)
+    # Skip the first `start` chunks.
+    iterator = islice(iter(iterable), start * size, None)
     for first in iterator:
-        yield list(
-            itertools.chain(
-                [first], itertools.islice(iterator, start, start + size - 1)
-            )
-        )
+        yield list(chain([first], islice(iterator, size - 1)))
 
 
 def save_dataset_as_jsonl(
@@ -41,19 +36,10 @@ def save_dataset_as_jsonl(
 
     for split in dataset:
         ds = dataset[split]
-        try:
-            start = max(
-                [
-                    int(path.split(".jsonl.gz")[0].split("_")[-1])
-                    for path in glob.glob(
-                        os.path.join(output_dir, split + "_*.jsonl.gz")
-                    )
-                ]
-            )
-        except ValueError:
-            start = 0
-        # Group the streaming examples into batches of batch_size
-        batches = itertools.islice(ds, start, None, batch_size)
+        # Batches are written concurrently, so continue with the first one that is missing.
+        start = 0
+        while os.path.exists(os.path.join(output_dir, f"{split}_{start}.jsonl.gz")):
+            start += 1
 
         if start != 0:
             logger.warning(f"Already processed until batch {start-1}. Continuing.")
@@ -71,8 +57,10 @@ def save_dataset_as_jsonl(
             batch_filename = os.path.join(
                 output_dir, f"{split}_{batch_number}.jsonl.gz"
             )
-            with gzip.open(batch_filename, "wt", encoding="utf-8") as f:
+            # Only complete files may have the final name.
+            with gzip.open(batch_filename + ".tmp", "wt", encoding="utf-8") as f:
                 f.write(batch_jsonl)
+            os.replace(batch_filename + ".tmp", batch_filename)
 
         # Loop through the batches and save each batch as a gzipped JSONL file
 
@@ -81,7 +69,7 @@ def save_dataset_as_jsonl(
             thread_name_prefix="save_dataset_as_jsonl-",
         ) as executor:
             futures = []
-            for i, batch in enumerate(chunks(iter(ds), start, batch_size - 1)):
+            for i, batch in enumerate(chunks(iter(ds), start, batch_size)):
                 batch_number = start + i
                 futures.append(executor.submit(_func, batch_number, batch, split))
             for future in concurrent.futures.as_completed(futures):
-- 
2.43.0


From bbec76dcd777fa3252961c2fa73766908bc18f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 20/54] fix: only remove the suffix from the names of split
 files

Everything after the first dot of the whole path was removed, so directories with
a dot in their name gave wrong paths and the parts of a.x.jsonl.gz and
a.y.jsonl.gz overwrote each other.
---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 99fbee0..0a80555 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -21,12 +21,12 @@ def main():
         n = args.n
         chunks = len(data) // n
         for i in range(n - 1):
-            file_split = file.split(".")[0] + f"_{i}.json.gz"
+            file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
             with gzip.open(file_split, 'wt') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
-        file_split = file.split(".")[0] + f"_{i}.json.gz"
+        file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
         with gzip.open(file_split, 'wt') as f:
             f.writelines(data[i*chunks:])
-- 
2.43.0


From 807d71dab19ecd76bcd32f1311a2676cff186343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 21/54] fix: open the output of split_files.py in text mode

Writing strings to the binary streams always raised a TypeError. Also look for the
"id" field instead of the builtin.
---
 wimbd/utils/split_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9e4dec6..5b91f9a 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -23,13 +23,13 @@ def main():
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-    test_stream = gzip.open(out_path + ".test.jsonl.gz", "w")
-    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "w")
-    train_stream = gzip.open(out_path + ".train.jsonl.gz", "w")
+    test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="utf-8")
+    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="utf-8")
+    train_stream = gzip.open(out_path + ".train.jsonl.gz", "wt", encoding="utf-8")
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-        if id in row:
+        if "id" in row:
             raise ValueError("id already in row")
         row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From 420f69e982614a02c352d0e96bea5f9e8bd86b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 22/54] fix: skip directories that match the pattern of data
 files

---
 src/cmd/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 43f0885..5e2a610 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -316,7 +316,12 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
             // The directory name itself is not a pattern.
             let dir = Pattern::escape(path_str);
             for entry in glob(&format!("{}/**/*.json*.gz", dir))? {
-                files.push(entry?.to_path_buf());
+                let entry = entry?;
+                // A directory can match as well, but only the files in it are data.
+                if entry.is_dir() {
+                    continue;
+                }
+                files.push(entry);
                 num_hits += 1;
             }
             if num_hits == 0 {
-- 
2.43.0


From 48122deabe8445ac9401e30dbc299eb60bfc338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:26 +0000
Subject: [PATCH 23/54] fix: do not take an interrupted read for the end of a
 gzip file

---
 src/io.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ade2e2a..86d3d17 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,9 +9,24 @@ use std::{
 use anyhow::Result;
 use flate2::read::MultiGzDecoder;
 
+/// Retries interrupted reads. The gzip decoder does not expect them: it takes the data to be at
+/// its end when it is read again after one.
+struct UninterruptedFile(File);
+
+impl Read for UninterruptedFile {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+}
+
 /// A buffered reader for gzip files.
 pub struct GzBufReader {
-    reader: io::BufReader<MultiGzDecoder<File>>,
+    reader: io::BufReader<MultiGzDecoder<UninterruptedFile>>,
     buf: Rc<String>,
 }
 
@@ -21,7 +36,7 @@ fn new_buf() -> Rc<String> {
 
 impl GzBufReader {
     pub fn open(path: impl AsRef<std::path::Path>) -> Result<Self> {
-        let reader = io::BufReader::new(MultiGzDecoder::new(File::open(path)?));
+        let reader = io::BufReader::new(MultiGzDecoder::new(UninterruptedFile(File::open(path)?)));
         let buf = new_buf();
 
         Ok(Self { reader, buf })
-- 
2.43.0


From 0669a1952470a23f63df04a441ef32a238a28fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:27 +0000
Subject: [PATCH 24/54] fix: match the last word of every profanity category

The closing word boundary was not a raw string and stood for a backspace, so the last word of each list was never found.
---
 wimbd/profanity/map_count.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/profanity/map_count.py b/wimbd/profanity/map_count.py
index c4a589f..a14923a 100644
--- a/wimbd/profanity/map_count.py
+++ b/wimbd/profanity/map_count.py
@@ -77,9 +77,9 @@ def load_taxonomy():
     offensive_min = df[df['categorization'] == 'offensive-minority-reference'].word.tolist()
     offensive_not_min = df[df['categorization'] == 'offensive-not-minority'].word.tolist()
     global harmless_re, offensive_min_re, offensive_not_min_re
-    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+"\b",re.IGNORECASE)
-    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+"\b",re.IGNORECASE)
-    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+"\b",re.IGNORECASE)
+    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+r"\b",re.IGNORECASE)
+    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+r"\b",re.IGNORECASE)
+    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+r"\b",re.IGNORECASE)
     
     # df = df.replace({'body': {0: 'not-body', 1: 'body'},
     #             'minorityWord': {0: 'not-minority-word', 1: 'minority-word'},
-- 
2.43.0


From 5bc9d063ef206e792dd61a718bf8edc04cba5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 25/54] fix: look at the context of the PII match itself

The position was searched for with the joined groups of the match, which do not occur in the text when the number has separators, and which find the first occurrence when there are several.
---
 wimbd/pii/map_count.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/wimbd/pii/map_count.py b/wimbd/pii/map_count.py
index 292a6cd..45eee25 100644
--- a/wimbd/pii/map_count.py
+++ b/wimbd/pii/map_count.py
@@ -66,11 +66,7 @@ def postprocess_ip_addresses(text_input, match, pii_start, pii_end):
     return True
     
 
-def postprocess_pass(text_input, match, pii_type):
-    match = str("".join(match))
-    pii_start = text_input.find(match)
-    pii_end = pii_start + len(match)
-
+def postprocess_pass(text_input, match, pii_type, pii_start, pii_end):
     if pii_type=="email":
         return postprocess_email(text_input, match, pii_start, pii_end)
     elif pii_type=="phone_numbers":
@@ -87,15 +83,15 @@ def extract_pii_regex(text_input: str,
     for pii_type in pattern_dict:
         pattern = pattern_dict[pii_type]
         # search for the pattern in the string
-        matches = pattern.findall(text_input.lower())
+        text_input = text_input.lower()
         # loop through the matches and print corresponding values from the dictionary
-        for match in matches:
-            
-            match = str("".join(match))
-            pii_start = text_input.find(match)
-            pii_end = pii_start + len(match)
+        for m in pattern.finditer(text_input):
+
+            # the match may be made of several groups, and may have occurred before
+            match = "".join(m.groups()) or m.group()
+            pii_start, pii_end = m.start(1 if m.groups() else 0), m.end()
 
-            if postprocess_pass(text_input, match, pii_type):
+            if postprocess_pass(text_input, match, pii_type, pii_start, pii_end):
                 pii.append(pii_type)
 
     return pii
-- 
2.43.0


From 652020d1dba145b6b5dc0fcbd97bf0de78708011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 26/54] fix: let several split_files.py create the same
 directory

---
 wimbd/utils/split_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 5b91f9a..9f03b71 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -18,8 +18,8 @@ def main():
     data = read_json_gz_file(args.in_file)
     
     #make dirs if they don't exist
-    if not os.path.exists(os.path.join(args.out_prefix, os.path.dirname(args.in_file))):
-        os.makedirs(os.path.join(args.out_prefix, os.path.dirname(args.in_file)))
+    out_dir = os.path.join(args.out_prefix, os.path.dirname(args.in_file))
+    os.makedirs(out_dir, exist_ok=True)
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-- 
2.43.0


From f0b52f3aab7fedf0f80da3f7d9ed3a39b79386e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 27/54] fix: write the output of split_files.py to the
 directory that was created

---
 wimbd/utils/split_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9f03b71..c536938 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -21,7 +21,7 @@ def main():
     out_dir = os.path.join(args.out_prefix, os.path.dirname(args.in_file))
     os.makedirs(out_dir, exist_ok=True)
 
-    out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
+    out_path = os.path.join(out_dir, os.path.basename(args.in_file).replace(".jsonl", "").replace(".gz", ""))
 
     test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="utf-8")
     valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="utf-8")
-- 
2.43.0


From 78d2bdc26640b13cd25d837b08e095f42b4ad15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 28/54] fix: do not treat the name of the folder as a pattern
 in file_split.py

---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 0a80555..aea4705 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -1,5 +1,5 @@
 import argparse
-from glob import glob
+from glob import escape, glob
 import gzip
 from tqdm import tqdm
 
@@ -14,7 +14,7 @@ def main():
     args = parse.parse_args()
 
     # iterate over files in the folder, and split each file (json.gz) into n files while adding a suffix at the end of the name based on the index
-    for file in tqdm(glob(args.in_folder + "/*.jsonl.gz")):
+    for file in tqdm(glob(escape(args.in_folder) + "/*.jsonl.gz")):
         with gzip.open(file, 'rt') as f:
             data = f.readlines()
 
-- 
2.43.0


From f9215abd2e5e8ec9ddb09c9bcb4d159d36d9e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 29/54] fix: save document ids of any length

---
 wimbd/indexing/index_json_files.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index 20160d4..31cba46 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -76,7 +76,9 @@ def main():
 
     if args.save_ids_file:
         with h5py.File(args.save_ids_file, "w") as f:
-            dset = f.create_dataset("ids", shape=(0,), maxshape=(None,), dtype="S40")
+            dset = f.create_dataset(
+                "ids", shape=(0,), maxshape=(None,), dtype=h5py.string_dtype()
+            )
 
     if index not in get_indices(es=es):
         logger.info(
@@ -130,7 +132,7 @@ def main():
                     dset = f["ids"]
                     new_size = dset.shape[0] + len(result_ids)
                     dset.resize((new_size,))
-                    dset[-len(result_ids) :] = np.array(result_ids, dtype="S40")
+                    dset[-len(result_ids) :] = np.array(result_ids, dtype=object)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0876dd36b17153888a668727aeadda392bb7472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 30/54] fix: fetch random documents from the given index

---
 wimbd/es/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/random_access.py b/wimbd/es/random_access.py
index 57af2cf..74ba8f0 100644
--- a/wimbd/es/random_access.py
+++ b/wimbd/es/random_access.py
@@ -19,5 +19,5 @@ def random_documents(index_name: str, h5_path: str, n: int):
 
     docs = [ds[x].decode() for x in rand_doc_ids]
 
-    es_docs = es.mget(index="laion2b-en-2", ids=docs)["docs"]
+    es_docs = es.mget(index=index_name, ids=docs)["docs"]
     return es_docs
-- 
2.43.0


From 77ce29a23e72b996f9e71953c5eec2e1f0245ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 31/54] fix: import h5py where random_access uses it

---
 wimbd/indexing/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/indexing/__init__.py b/wimbd/indexing/__init__.py
index ed3b3de..a767ac0 100644
--- a/wimbd/indexing/__init__.py
+++ b/wimbd/indexing/__init__.py
@@ -1,5 +1,6 @@
 import random
 
+import h5py
 from wimbd.es import es_init
 
 
-- 
2.43.0


From d4eabdd2602905aa9dc98842293a08eed7c1d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 32/54] fix: an interrupted download_url.py leaves no partial
 file that later runs skip

---
 preparation/stack/download_url.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/download_url.py b/preparation/stack/download_url.py
index 4051363..e0446fe 100644
--- a/preparation/stack/download_url.py
+++ b/preparation/stack/download_url.py
@@ -66,8 +66,11 @@ def _save_url_as_jsonl(url: str, output_path: str):
         added=datetime.utcnow().isoformat(),
     )
     js = df.to_json(orient="records", lines=True)
-    with gzip.open(output_path, "wt") as f:
+    # A file that is only partially written must not be taken for a finished one by a later run.
+    partial_path = f"{output_path}.partial"
+    with gzip.open(partial_path, "wt") as f:
         f.write(js)
+    os.replace(partial_path, output_path)
 
 
 def download(url: str, output_dir: str):
-- 
2.43.0


From 8f6b966b341368d444450e6d85bd87c91e5165f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 33/54] fix: download_url.sh downloads missing files

---
 preparation/stack/download_url.sh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/preparation/stack/download_url.sh b/preparation/stack/download_url.sh
index 79034ee..85748f7 100755
--- a/preparation/stack/download_url.sh
+++ b/preparation/stack/download_url.sh
@@ -10,11 +10,8 @@ DOWNLOAD_PATH=$LOCAL_DIR/$LANG/$JSONL_FILENAME
 
 # DEST_EXISTS=$(aws s3 ls $dest_path)
 
-DOWNLOAD_SIZE=$(ls -s $DOWNLOAD_PATH)
-EMPTY_SIZE_STR='0 '$DOWNLOAD_PATH
-
-if [[ "$DOWNLOAD_SIZE" == *"$EMPTY_SIZE_STR"* ]]
-# if [[ ! -f $DOWNLOAD_PATH ]]
+# Download files that are missing or empty.
+if [[ ! -s $DOWNLOAD_PATH ]]
 then
     # echo $SOURCE_PATH $DEST_PATH
 
-- 
2.43.0


From 62db11772ad3528f788e800e4bcdaf02392421c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 34/54] fix: an interrupted get_urls.py does not lose files of
 the last language

---
 preparation/stack/get_urls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/get_urls.py b/preparation/stack/get_urls.py
index ae134d4..8726836 100644
--- a/preparation/stack/get_urls.py
+++ b/preparation/stack/get_urls.py
@@ -1,5 +1,6 @@
 import argparse
 import json
+import os
 from typing import Dict, List
 
 import tqdm
@@ -88,7 +89,10 @@ if __name__ == "__main__":
         urls = list_stack_files(langs, lang_idx, sum([len(v) for v in lang_urls.values()]), args.version)
         lang_urls.update(urls)
 
-    with open(args.output_file, "w+") as f:
+    # A later run takes the languages in the output file for complete, so it is replaced as a whole.
+    partial_file = f"{args.output_file}.partial"
+    with open(partial_file, "w") as f:
         for _, urls in lang_urls.items():
             for url in urls:
                 f.write(url + "\n")
+    os.replace(partial_file, args.output_file)
-- 
2.43.0


From 2a831fa1e0689e6a24891801eb5ac7669da1fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 35/54] fix: mc4.py labels training files with their language

---
 preparation/mc4/mc4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index 1cf816a..a6214dd 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -52,7 +52,7 @@ def main():
     def process_object(o: storage.Blob) -> int:
         input_filename = blob_to_name(o)
         output_filename = input_name_to_output_name(input_filename)
-        language = input_filename.split("-", 2)[1]
+        language = input_filename.split(".", 1)[0].split("-", 2)[1]
         document_count = 0
         with tempfile.NamedTemporaryFile("wb+", prefix="mC4-", suffix=".tfrecords") as f:
             o.download_to_file(f)
-- 
2.43.0


From 57c1bed41601158b5a55e252703166facfc8bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 36/54] fix: get_examples.py accepts URLs with whitespace and
 empty ones

---
 wimbd/text_and_url_overlaps/helper_scripts/get_examples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
index 51f27d3..11282fb 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
@@ -50,10 +50,11 @@ def main():
     assert sum([args.hash_file is not None, args.count_hash_file is not None, args.count_url_file is not None]) == 1, "Must provide one of --hash_file or --count_hash_file or --count_url_file"
     
     if args.count_url_file is not None:
-        with open(args.count_url_file) as fin:
+        with open(args.count_url_file, newline='\n') as fin:
             output_data = []
             for l in fin:
-                count, text = l.strip().split()
+                # the url may be empty or contain whitespace
+                count, text = l.lstrip().rstrip('\n').split(' ', 1)
                 output_data.append({"text":text, "count":count})
         
         # sort by count descending
-- 
2.43.0


From 7bec45739fe221b1dc6e18ef677f26a161172b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 37/54] fix: get_duplicate_counts.py does not end lines at
 carriage returns

---
 .../helper_scripts/get_duplicate_counts.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_counts.py b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_counts.py
index 81f3079..ec80f7d 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_counts.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_counts.py
@@ -16,7 +16,7 @@ def get_counts(args):
             "uniq_duplicates": 0,
             "uniq_total": 0
         }
-        with open(path) as fin:
+        with open(path, newline='\n') as fin:
             for line in fin:
                 line = line.strip().split(' ')
                 count = line[0]
-- 
2.43.0


From 0d469943bb87d4fed28a7665fa743a613805fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 38/54] fix: name the file that made the run fail in the final
 error

An error that another worker recovered from later, or was about to
record at the same moment, replaced (or kept out) the fatal one.
---
 src/cmd/util.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 5e2a610..e8a0dad 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -225,15 +225,20 @@ impl DataExecutor {
                     Err(err) => {
                         log::error!("Error processing {:?}: {}", path, err);
                         error_count.fetch_add(1, Ordering::Relaxed);
-                        if let Ok(ref mut error) = error.try_lock() {
-                            **error = Some(format!("{err:?} encounted while processing {path:?}"));
-                        }
-                        if retries >= max_retries {
-                            early_exit.store(true, Ordering::Relaxed);
-                            if let Ok(ref mut error) = error.try_lock() {
-                                **error =
+                        let fatal = retries >= max_retries;
+                        {
+                            // An error that is recovered from does not replace the one
+                            // that makes the whole run fail.
+                            let mut error = error.lock().unwrap_or_else(|e| e.into_inner());
+                            if fatal || !early_exit.load(Ordering::Relaxed) {
+                                *error =
                                     Some(format!("{err:?} encounted while processing {path:?}"));
                             }
+                            if fatal {
+                                early_exit.store(true, Ordering::Relaxed);
+                            }
+                        }
+                        if fatal {
                             break;
                         } else {
                             log::warn!("Retrying {:?}", path);
-- 
2.43.0


From 2b5f506daeba3abf2be68e4db326a264f7e4c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 39/54] fix: pretrained tokenizers count all tokens: truncation
 and padding settings are not applied

---
 src/tokens.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tokens.rs b/src/tokens.rs
index 5f34390..e74df34 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -32,10 +32,14 @@ impl PretrainedTokenizer {
 
     /// Initialize a new pretrained tokenizer from a path or identifier on HuggingFace.
     pub fn new(name: &str) -> Result<Self> {
-        Ok(PretrainedTokenizer(
-            Tokenizer::from_pretrained(name, None)
-                .map_err(|err| anyhow!("Failed to load pretrained tokenizer {} - {}", name, err))?,
-        ))
+        let mut tokenizer = Tokenizer::from_pretrained(name, None)
+            .map_err(|err| anyhow!("Failed to load pretrained tokenizer {} - {}", name, err))?;
+        // Truncation and padding are for feeding models: we want all tokens of a text and no others.
+        tokenizer
+            .with_truncation(None)
+            .map_err(|err| anyhow!("{}", err))?;
+        tokenizer.with_padding(None);
+        Ok(PretrainedTokenizer(tokenizer))
     }
 
     pub fn decode(&self, tokens: &[String]) -> Result<String> {
-- 
2.43.0


From 143defeb97c7c9b9cb6baa2a14992831e5945f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 40/54] fix: texts with lone surrogates crashed the Python
 tools

---
 .../text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py | 2 +-
 wimbd/text_and_url_overlaps/helper_scripts/get_examples.py      | 2 +-
 wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py   | 2 +-
 wimbd/utils/split_files.py                                      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 2abd92d..c555f61 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -35,7 +35,7 @@ def process_shard(shard, args):
                 print('None')
                 continue
             h = hashlib.md5()
-            h.update(doc['text'].encode())
+            h.update(doc['text'].encode(errors="surrogatepass"))
             hash = h.hexdigest()
 
             # check blocklist
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
index 11282fb..9dfa5fb 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
@@ -21,7 +21,7 @@ def find_hash_example(data_shards, hashes_to_find, k = 30, with_repeats = False)
                 row['text'] = 'None'
             else:
                 h = hashlib.md5()
-                h.update(row['text'].encode())
+                h.update(row['text'].encode(errors="surrogatepass"))
                 hash = h.hexdigest()
             
             if hash in hashes_to_find:
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py b/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py
index 35426d6..ad60fb5 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_text_hashes.py
@@ -13,7 +13,7 @@ def main():
             print('None')
             continue
         h = hashlib.md5()
-        h.update(row['text'].encode())
+        h.update(row['text'].encode(errors="surrogatepass"))
         print(h.hexdigest())
 	
 
diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index c536938..7ef2629 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -31,7 +31,7 @@ def main():
         text = row['text'] if row['text'] is not None else ""
         if "id" in row:
             raise ValueError("id already in row")
-        row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
+        row['id'] = hashlib.sha1(text.encode("utf-8", errors="surrogatepass")).hexdigest()
 
         if row["id"][:3] in {"fff", "ffe"}:
             test_stream.write(json.dumps(row) + "\n")
-- 
2.43.0


From ebf7e8b45ac4eb4ca66386a13ead0a7ea83ecf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 41/54] fix: overlap_numbers.txt grew with every run of
 run_analysis.sh

---
 wimbd/text_and_url_overlaps/run_analysis.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/run_analysis.sh b/wimbd/text_and_url_overlaps/run_analysis.sh
index c7c004a..621bdf0 100644
--- a/wimbd/text_and_url_overlaps/run_analysis.sh
+++ b/wimbd/text_and_url_overlaps/run_analysis.sh
@@ -70,8 +70,8 @@ time python $TEXT_AND_URL_OVERLAPS/helper_scripts/run_combinations.py --sorted_u
 # First get the size of the overlaps:
 for f in `ls $intermediate_dir/$mode_dir/sorted_uniq/`
 do
-    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f >> $intermediate_dir/$mode_dir/overlap_numbers.txt
-done
+    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f 
+done > $intermediate_dir/$mode_dir/overlap_numbers.txt
 
 # count the duplicates
 echo "Counting duplicates"
-- 
2.43.0


From 665213e731fa3596663f4e4efb978e2aa78bc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 42/54] fix: deduplicate.py could not be used with --blocklist

---
 wimbd/text_and_url_overlaps/deduplicate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index 9e7b720..d02c96b 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -31,7 +31,6 @@ if __name__ in "__main__":
     parser.add_argument("--build_blocklist_only", action='store_true')
     args = parser.parse_args()
 
-    # blocklist and in_files1 are mutually exclusive
-    assert (args.blocklist is None) != (args.in_files is None), "Must specify either blocklist or in_files"
+    assert args.in_files is not None, "Must specify in_files"
 
     main(args)
\ No newline at end of file
-- 
2.43.0


From ced3f8c6a5a85682d2858249f65e4bbc34656bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 43/54] fix: run_uniq.sh took the name of the data set for an
 input file

---
 wimbd/sentence_lengths/run_uniq.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/sentence_lengths/run_uniq.sh b/wimbd/sentence_lengths/run_uniq.sh
index df5808d..fadeb43 100755
--- a/wimbd/sentence_lengths/run_uniq.sh
+++ b/wimbd/sentence_lengths/run_uniq.sh
@@ -5,6 +5,7 @@ SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
 PYTHON=$(which python | head -1)
 
 DATASET=$1
+shift
 
 echo $DATASET
 
-- 
2.43.0


From f4ba7adf40937282a6bebddaa11e75f44a31c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 44/54] fix: failures of the overlap and deduplication
 pipelines were ignored

---
 wimbd/text_and_url_overlaps/decontaminate.py                | 6 +++---
 wimbd/text_and_url_overlaps/deduplicate.py                  | 6 +++---
 .../helper_scripts/get_duplicate_keys.sh                    | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh | 1 +
 .../helper_scripts/merge_and_get_overlap.sh                 | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh  | 1 +
 .../helper_scripts/run_combinations.py                      | 3 ++-
 .../helper_scripts/run_get_text_hashes.sh                   | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh  | 3 ++-
 9 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/decontaminate.py b/wimbd/text_and_url_overlaps/decontaminate.py
index 543bbb4..1222ee2 100755
--- a/wimbd/text_and_url_overlaps/decontaminate.py
+++ b/wimbd/text_and_url_overlaps/decontaminate.py
@@ -13,13 +13,13 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'blocklist.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files2)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index d02c96b..6a6fb24 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -13,13 +13,13 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'duplicates_hashes.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes --keep_first_occurrence"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
index a17a178..407c95e 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 # This script is used to get the duplicate keys from the output of the
 # either the text or url overlap script.
 
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh b/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
index 286f4ff..f343be0 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 # This script is used to get the all keys from the output of the
 # either the text or url overlap script.
 
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh b/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh
index 12911bb..9e42947 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh
@@ -1,3 +1,4 @@
 #!/bin/bash
+set -o pipefail
 # merge already sorted files, and find the hashes that appear more than once, these are the overlaps
 sort -m  $1 $2 | uniq -c | sed 's/^[ \t]*//' |  awk -F ' ' '{if($1>1)print}' | cut -d ' ' -f2- 
\ No newline at end of file
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh b/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh
index 48d87a8..8a79564 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh
@@ -1,2 +1,3 @@
 #!/bin/bash
+set -o pipefail
 sed 's/^[ \t]*//' $1 | cut -d ' ' -f2- 
\ No newline at end of file
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index afc796b..304f367 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -1,5 +1,6 @@
 import os
 import argparse
+import subprocess
 
 CONJUNCTION = "_and_"
 FILE_EXTENSION = ".txt"
@@ -41,7 +42,7 @@ def main():
         
         print(f"merging: {file1}, {file2}")
         script_dir = os.path.dirname(os.path.realpath(__file__))
-        os.system(f"{script_dir}/merge_and_get_overlap.sh {file1} {file2} > {outfile}")
+        subprocess.run(f"{script_dir}/merge_and_get_overlap.sh {file1} {file2} > {outfile}", shell=True, check=True)
 
 if __name__ == "__main__":
     main()
\ No newline at end of file
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
index e1d2b4f..cf39283 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 
 # this gets the directory of the script, even if it's called from another directory
 SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
index 2e47d03..284bee9 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 
 # find the url location
 if [ "$(zcat $1 | head -n 1| jq -r '.url')" != null ]; then
@@ -13,4 +14,4 @@ else
     fi
 fi
 
-parallel --line-buffer "gzip -dc {} | jq -r $url_location " ::: $@ | sort | uniq -c
\ No newline at end of file
+parallel --line-buffer "set -o pipefail; gzip -dc {} | jq -r $url_location " ::: $@ | sort | uniq -c
\ No newline at end of file
-- 
2.43.0


From fe7392c2b47152c785396628345a6a5ad243f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 45/54] fix: huge values of -k and -n made commands abort

---
 src/cmd/botk.rs    | 4 ++--
 src/cmd/topk.rs    | 2 +-
 src/cmd/unique.rs  | 2 +-
 src/ngrams/mod.rs  | 2 +-
 src/ngrams/topk.rs | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 9cacfaa..a8476c6 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -182,7 +182,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
@@ -237,7 +237,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 91e2c83..56d1a9d 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -214,7 +214,7 @@ where
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 0b5aff4..90bc126 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -121,7 +121,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                             Box::new(tokenize(&text).map(|s| s.to_string()))
                         };
 
-                    let mut ngram_deque: VecDeque<String> = VecDeque::with_capacity(opt.ngram);
+                    let mut ngram_deque: VecDeque<String> = VecDeque::new();
                     for token in tokens {
                         if ngram_deque.len() == opt.ngram {
                             ngram_deque.pop_front();
diff --git a/src/ngrams/mod.rs b/src/ngrams/mod.rs
index 5f72641..72f085b 100644
--- a/src/ngrams/mod.rs
+++ b/src/ngrams/mod.rs
@@ -65,7 +65,7 @@ impl<'a, T: 'a + fmt::Debug + Clone + Sized> Ngrams<'a, T> {
             source: Box::new(source),
             num: n,
             memsize,
-            memory: VecDeque::with_capacity(memsize),
+            memory: VecDeque::new(),
         }
     }
 
diff --git a/src/ngrams/topk.rs b/src/ngrams/topk.rs
index b4d7ffc..96009da 100644
--- a/src/ngrams/topk.rs
+++ b/src/ngrams/topk.rs
@@ -32,7 +32,7 @@ where
         Self {
             k,
             topk: BTreeSet::new(),
-            ngrams: HashMap::with_capacity_and_hasher(k + 1, RandomState::new()),
+            ngrams: HashMap::with_hasher(RandomState::new()),
             min_count: <A as Atomic>::Type::one(),
             min_count_atomic: Arc::new(<A as Atomic>::new(<A as Atomic>::Type::one())),
         }
@@ -81,7 +81,7 @@ where
     }
 
     pub fn drain(&mut self) -> Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> {
-        let mut out: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> = Vec::with_capacity(self.k);
+        let mut out: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> = Vec::with_capacity(self.topk.len());
         while let Some((count, ngram)) = self.topk.pop_last() {
             self.ngrams.remove(&ngram);
             out.push((ngram, count))
-- 
2.43.0


From 34db4930b52ec9d28f9cecd0d71bc8c0882d0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 46/54] fix: count_documents_for_each_phrase takes every
 iterable of phrases, empty ones included

---
 wimbd/es/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 0501624..5e64d0e 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -283,12 +283,14 @@ def count_documents_for_each_phrase(
 ):
     if isinstance(phrases, str):
         phrases = [phrases]
+    elif isinstance(phrases, Iterable):
+        phrases = list(phrases)
 
     if all_phrases:
         try:
             assert isinstance(phrases, Iterable)
-            assert isinstance(phrases[0], List)
-            assert isinstance(phrases[0][0], str)
+            assert not phrases or isinstance(phrases[0], List)
+            assert not phrases or isinstance(phrases[0][0], str)
         except AssertionError:
             raise AssertionError(
                 "`all_phrases` is set to True, please provide lists of lists."
@@ -296,7 +298,7 @@ def count_documents_for_each_phrase(
     else:
         try:
             assert isinstance(phrases, Iterable)
-            assert isinstance(phrases[0], str)
+            assert not phrases or isinstance(phrases[0], str)
         except AssertionError:
             raise AssertionError(
                 "`all_phrases` is set to False, please provide a list of strings."
-- 
2.43.0


From a74414c21e45bdfff9afc5d55da1407b3b6c4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 47/54] fix: get_indices lists the fields of indices without
 any, and works without visible indices

---
 wimbd/es/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 5e64d0e..33a06ec 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -76,11 +76,11 @@ def get_indices(
         if not index["index"].startswith(".") and not index["index"] in exclude
     }
 
-    if return_mapping:
+    if return_mapping and indices:
         mappings = es.indices.get_mapping(index=list(indices.keys()))
         for key in mappings:
             indices[key]["properties"] = list(
-                mappings[key]["mappings"]["properties"].keys()
+                mappings[key]["mappings"].get("properties", {}).keys()
             )
 
     return indices
-- 
2.43.0


From 090a74144d8cfc4af57c6df7bf81ba726b165419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 48/54] fix: the summary of token lengths is not that of the
 characters

---
 wimbd/sentence_lengths/summarize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/summarize.py b/wimbd/sentence_lengths/summarize.py
index 3fd888e..7994a04 100644
--- a/wimbd/sentence_lengths/summarize.py
+++ b/wimbd/sentence_lengths/summarize.py
@@ -23,9 +23,9 @@ for filename in os.listdir(lengths_data_path):
             count_type, value = key.split(' ')
             length = int(value)
             if count_type.lower() == 'tokens':
-                chars_data[length] = count
-            elif count_type.lower() == 'chars':
                 toks_data[length] = count
+            elif count_type.lower() == 'chars':
+                chars_data[length] = count
 
     count_sum = sum(toks_data.values())
     dist = {length: count / count_sum for length, count in toks_data.items()}
-- 
2.43.0


From f6e803453ec00da697c47c719d430883bc3c07fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 49/54] fix: the contamination report of a benchmark without
 examples

---
 wimbd/es/corpus_contamination.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/corpus_contamination.py b/wimbd/es/corpus_contamination.py
index fc3a0ab..a088db7 100644
--- a/wimbd/es/corpus_contamination.py
+++ b/wimbd/es/corpus_contamination.py
@@ -36,9 +36,10 @@ def contamination_percentage(index_name: str, corpus_name: str, sub_corpus_name:
 
     counts = sum([x > 0 for x in count_documents_for_each_phrase(index_name, string_list, batch_size=60, es=es)])
     wandb.run.summary['count'] = counts
-    wandb.run.summary['percentage'] = counts / len(string_list)
+    percentage = counts / len(string_list) if len(string_list) > 0 else 0.0
+    wandb.run.summary['percentage'] = percentage
 
-    return counts / len(string_list)
+    return percentage
 
 
 def paired_contamination_percentage(index_name: str, corpus_name: str, sub_corpus_name: str = None, split: str = "train", fields: list[str] = None):
@@ -53,9 +54,10 @@ def paired_contamination_percentage(index_name: str, corpus_name: str, sub_corpu
 
     counts = sum([x > 0 for x in count_documents_for_each_phrase(index_name, string_list, batch_size=60, es=es, all_phrases=True)])
     wandb.run.summary['count'] = counts
-    wandb.run.summary['percentage'] = counts / len(string_list)
+    percentage = counts / len(string_list) if len(string_list) > 0 else 0.0
+    wandb.run.summary['percentage'] = percentage
 
-    return counts / len(string_list)
+    return percentage
     
 
 def main():
-- 
2.43.0


From b626642c4f3acf86efc876a718824dd5a57bb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 50/54] fix: shards whose deduplicated outputs would overwrite
 each other or the input

---
 .../helper_scripts/deduplicate_by_hash.py                  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index c555f61..7a17526 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -79,6 +79,13 @@ def worker_initializer(l, block, seen):
 
 
 def main(args):
+    # Every shard needs an output file of its own that is not one of the shards
+    outputs = set(os.path.realpath(os.path.join(args.outpath, os.path.basename(shard))) for shard in args.shards)
+    if len(outputs) < len(args.shards):
+        raise ValueError("The shards must have different file names, since their outputs are written to the same directory")
+    if not outputs.isdisjoint(os.path.realpath(shard) for shard in args.shards):
+        raise ValueError("The outputs would overwrite the shards, please choose another outpath")
+
     # Create global objects
     
     blocklist = dict()
-- 
2.43.0


From ff2658e8a84d271ec0dafa200e154d6b6e5ad1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 51/54] fix: a url that cannot be requested does not exist

---
 wimbd/link_exists/map_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/link_exists/map_count.py b/wimbd/link_exists/map_count.py
index 85f2467..0d5bca1 100644
--- a/wimbd/link_exists/map_count.py
+++ b/wimbd/link_exists/map_count.py
@@ -18,7 +18,7 @@ def check_url_exists(url: str):
                 return True
             except requests.exceptions.HTTPError:
                 return False
-    except requests.exceptions.ConnectionError:
+    except requests.exceptions.RequestException:
         return False
 
 
-- 
2.43.0


From 5892d6a7489beed248bdf3840e2ab6c3ef219f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 52/54] fix: unusual lengths of texts that contain carriage
 returns

---
 wimbd/sentence_lengths/reduce_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wimbd/sentence_lengths/reduce_count.py b/wimbd/sentence_lengths/reduce_count.py
index 7c32b30..7437f04 100644
--- a/wimbd/sentence_lengths/reduce_count.py
+++ b/wimbd/sentence_lengths/reduce_count.py
@@ -7,6 +7,8 @@ def main():
 
     data = defaultdict(int)
 
+    # Texts may contain carriage returns, they don't end the line.
+    sys.stdin.reconfigure(newline='\n')
     for line in sys.stdin:
         data[line.strip()] += 1
     
-- 
2.43.0


From fae7519756fdf503d5eef0b69d85b5c87619deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 53/54] fix: overlaps of data sets whose names are ambiguous

---
 .../helper_scripts/run_combinations.py                      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index 304f367..7042788 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -24,6 +24,12 @@ def main():
     datasets = args.datasets
     sorted_uniq_dir = args.sorted_uniq_dir 
 
+    # two combinations with the same name would overwrite each other's lists
+    owners = {}
+    for combination in powerset(datasets):
+        if owners.setdefault(CONJUNCTION.join(combination), combination) != combination:
+            raise ValueError(f"the data set names are ambiguous: {combination} and {owners[CONJUNCTION.join(combination)]}")
+
     # iterate through all subsets, smallest to largest
     for combination in powerset(datasets):
         # The one dataset hash lists need to be already computed
-- 
2.43.0


From 86a34510b7e5a509577dee260c2c380a841768e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 54/54] fix: lines that are JSON arrays are not documents

---
 src/cmd/util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index e8a0dad..8127715 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -50,7 +50,13 @@ where
         }
         total_lines += 1;
         total_bytes += line.len();
-        match serde_json::from_str(line) {
+        let data = if line.trim_start().starts_with('[') {
+            // serde would take the elements of an array for the fields.
+            Err(serde::de::Error::custom("expected a JSON object"))
+        } else {
+            serde_json::from_str(line)
+        };
+        match data {
             Ok(data) => data_func(data, path.as_ref(), total_lines, &mut context),
             Err(e) => {
                 if let Some(io_err) = e.io_error_kind() {
-- 
2.43.0

