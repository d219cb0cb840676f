From 63384f5998ba779c1f09d0a6e81c9638bdf35312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:36 +0000
Subject: [PATCH 01/32] fix: decide which worker handled the last file with one
 atomic operation

The remaining-files counter was read and then decremented in two steps: two
workers finishing together could both see 2 and both decrement, after which no
worker sends the store jobs and the poison pills, and the run hangs.
---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..6600d91 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From 271658fc0f4debb6db96f94c89b050893bf7c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:59 +0000
Subject: [PATCH 02/32] fix: never block on the job queue, and always have a
 worker

The worker which handles the last file sends the store jobs and the poison pills
into the queue it reads from: with more modules than free slots and no other
worker left to receive (for instance -j 1 and two modules) it waited forever.
With -j 0 there was no worker at all, and the producer waited forever.
---
 src/dumper.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 6600d91..aa558ae 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -460,10 +460,12 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.max(1).min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // The workers send the store jobs and the poison pills themselves: with a bounded queue they
+    // could all be blocked in send().
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From 4bbb2204965c6dcb208167087c917a77bf6281ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:29 +0000
Subject: [PATCH 03/32] fix: a failing file in a multi-file run is reported and
 doesn't stop the others

An error (or panic) on one file ended its worker without counting the file as
done, so no worker ever sent the store jobs and the run hung, or the modules
queued for that worker were dropped; and several_files returned Ok in any case.
Now each job keeps its error, the other jobs are done, and the first error is
returned once all workers are finished.
---
 src/dumper.rs | 82 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index aa558ae..ed59c29 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -8,6 +8,7 @@ use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
 use std::fs;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -349,6 +350,26 @@ struct JobItem {
     collect_inlines: bool,
 }
 
+/// Run a step of a job, a panic in it is an error of this job only.
+fn catch_panic<T>(f: impl FnOnce() -> common::Result<T>) -> common::Result<T> {
+    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|panic| {
+        let cause = panic
+            .downcast_ref::<String>()
+            .map(String::as_str)
+            .or_else(|| panic.downcast_ref::<&str>().copied())
+            .unwrap_or("<cause unknown>");
+        Err(anyhow::anyhow!("{cause}"))
+    })
+}
+
+/// Log the error and remember the first one.
+fn note_error(res: &mut common::Result<()>, e: anyhow::Error) {
+    error!("{e}");
+    if res.is_ok() {
+        *res = Err(e);
+    }
+}
+
 fn send_store_jobs(
     sender: &Sender<Option<JobItem>>,
     results: &mut HashMap<String, ObjectInfo>,
@@ -357,9 +378,10 @@ fn send_store_jobs(
     check_cfi: bool,
     collect_inlines: bool,
 ) -> common::Result<()> {
+    let mut res = Ok(());
     if results.len() == 1 {
         let (_, d) = results.drain().take(1).next().unwrap();
-        self::store(&output, check_cfi, d)?;
+        res = catch_panic(|| self::store(&output, check_cfi, d));
     } else {
         for (_, d) in results.drain() {
             sender
@@ -374,7 +396,7 @@ fn send_store_jobs(
     }
 
     poison_queue(sender, num_threads);
-    Ok(())
+    res
 }
 
 fn poison_queue(sender: &Sender<Option<JobItem>>, num_threads: usize) {
@@ -395,9 +417,12 @@ fn consumer(
     output: Output,
     check_cfi: bool,
 ) -> common::Result<()> {
+    // The first error: the other jobs are done all the same.
+    let mut res = Ok(());
+
     while let Ok(job) = receiver.recv() {
         if job.is_none() {
-            return Ok(());
+            return res;
         }
 
         let JobItem {
@@ -409,25 +434,33 @@ fn consumer(
 
         match typ {
             JobType::Get => {
-                let path = PathBuf::from(file);
-                let filename = utils::get_filename(&path);
-                let buf = utils::read_file(&path);
+                let info = catch_panic(|| {
+                    let path = PathBuf::from(&file);
+                    let filename = utils::get_filename(&path);
+                    let buf = utils::read_file(&path);
 
-                let info =
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
+                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)
+                });
 
                 let mut results = results.lock().unwrap();
-                let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
-                        poison_queue(&sender, num_threads);
-                    })?
-                } else {
-                    info
-                };
-                results.insert(info.get_debug_id().to_string(), info);
+                let info = info.and_then(|info| {
+                    if let Some(prev) = results.remove(info.get_debug_id()) {
+                        catch_panic(|| ObjectInfo::merge(info, prev))
+                    } else {
+                        Ok(info)
+                    }
+                });
+                match info {
+                    Ok(info) => {
+                        results.insert(info.get_debug_id().to_string(), info);
+                    }
+                    Err(e) => note_error(&mut res, anyhow::anyhow!("{file}: {e}")),
+                }
             }
             JobType::Dump(d) => {
-                self::store(&output, check_cfi, d)?;
+                if let Err(e) = catch_panic(|| self::store(&output, check_cfi, d)) {
+                    note_error(&mut res, e);
+                }
                 continue;
             }
         }
@@ -436,18 +469,20 @@ fn consumer(
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
-            send_store_jobs(
+            if let Err(e) = send_store_jobs(
                 &sender,
                 &mut results,
                 num_threads,
                 output.clone(),
                 check_cfi,
                 collect_inlines,
-            )?;
+            ) {
+                note_error(&mut res, e);
+            }
         }
     }
 
-    Ok(())
+    res
 }
 
 pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()> {
@@ -500,11 +535,10 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut res = Ok(());
     for receiver in receivers {
-        if let Err(e) = receiver.join().unwrap() {
-            error!("{e}");
-        }
+        res = res.and(receiver.join().unwrap());
     }
 
-    Ok(())
+    res
 }
-- 
2.43.0


From eccdcb3c839121a7f1188f40b02dc2e34daa5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:16 +0000
Subject: [PATCH 04/32] fix: merge the files of a module in the order they were
 given

The results of a multi-file run were merged in the order in which the workers
happened to finish, so with three files of one module, or two of the same size,
the output depended on the scheduling.
---
 src/dumper.rs | 72 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index ed59c29..ec865ee 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -345,11 +345,16 @@ enum JobType {
 
 struct JobItem {
     file: String,
+    // Position of the file on the command line.
+    index: usize,
     typ: JobType,
     mapping: Option<Arc<PathMappings>>,
     collect_inlines: bool,
 }
 
+/// The files handled so far, with their position, by debug id.
+type Results = HashMap<String, Vec<(usize, ObjectInfo)>>;
+
 /// Run a step of a job, a panic in it is an error of this job only.
 fn catch_panic<T>(f: impl FnOnce() -> common::Result<T>) -> common::Result<T> {
     catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|panic| {
@@ -372,26 +377,45 @@ fn note_error(res: &mut common::Result<()>, e: anyhow::Error) {
 
 fn send_store_jobs(
     sender: &Sender<Option<JobItem>>,
-    results: &mut HashMap<String, ObjectInfo>,
+    results: &mut Results,
     num_threads: usize,
     output: Output,
     check_cfi: bool,
     collect_inlines: bool,
 ) -> common::Result<()> {
     let mut res = Ok(());
-    if results.len() == 1 {
-        let (_, d) = results.drain().take(1).next().unwrap();
-        res = catch_panic(|| self::store(&output, check_cfi, d));
-    } else {
-        for (_, d) in results.drain() {
-            sender
-                .send(Some(JobItem {
-                    file: "".to_string(),
-                    typ: JobType::Dump(d),
-                    mapping: None,
-                    collect_inlines,
-                }))
-                .unwrap();
+
+    // The order in which the files have been handled is arbitrary: put them back in the order
+    // in which they were given.
+    let mut modules: Vec<_> = results.drain().map(|(_, files)| files).collect();
+    modules.iter_mut().for_each(|f| f.sort_by_key(|(i, _)| *i));
+    modules.sort_by_key(|files| files[0].0);
+
+    let single = modules.len() == 1;
+    for files in modules {
+        let merged = catch_panic(|| {
+            let mut files = files.into_iter().map(|(_, info)| info);
+            let first = files.next().unwrap();
+            files.try_fold(first, |prev, info| ObjectInfo::merge(info, prev))
+        });
+        match merged {
+            Ok(d) if single => {
+                if let Err(e) = catch_panic(|| self::store(&output, check_cfi, d)) {
+                    note_error(&mut res, e);
+                }
+            }
+            Ok(d) => {
+                sender
+                    .send(Some(JobItem {
+                        file: "".to_string(),
+                        index: 0,
+                        typ: JobType::Dump(d),
+                        mapping: None,
+                        collect_inlines,
+                    }))
+                    .unwrap();
+            }
+            Err(e) => note_error(&mut res, e),
         }
     }
 
@@ -411,7 +435,7 @@ fn consumer(
     arch: Arch,
     sender: Sender<Option<JobItem>>,
     receiver: Receiver<Option<JobItem>>,
-    results: Arc<Mutex<HashMap<String, ObjectInfo>>>,
+    results: Arc<Mutex<Results>>,
     counter: Arc<AtomicUsize>,
     num_threads: usize,
     output: Output,
@@ -427,6 +451,7 @@ fn consumer(
 
         let JobItem {
             file,
+            index,
             typ,
             mapping,
             collect_inlines,
@@ -442,17 +467,13 @@ fn consumer(
                     get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)
                 });
 
-                let mut results = results.lock().unwrap();
-                let info = info.and_then(|info| {
-                    if let Some(prev) = results.remove(info.get_debug_id()) {
-                        catch_panic(|| ObjectInfo::merge(info, prev))
-                    } else {
-                        Ok(info)
-                    }
-                });
                 match info {
                     Ok(info) => {
-                        results.insert(info.get_debug_id().to_string(), info);
+                        let mut results = results.lock().unwrap();
+                        results
+                            .entry(info.get_debug_id().to_string())
+                            .or_default()
+                            .push((index, info));
                     }
                     Err(e) => note_error(&mut res, anyhow::anyhow!("{file}: {e}")),
                 }
@@ -524,10 +545,11 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         receivers.push(t);
     }
 
-    for f in filenames {
+    for (index, f) in filenames.iter().enumerate() {
         sender
             .send(Some(JobItem {
                 file: f.to_string(),
+                index,
                 typ: JobType::Get,
                 mapping: file_mapping.clone(),
                 collect_inlines: config.emit_inlines,
-- 
2.43.0


From d146bc3003776b69a0b0afd30bf9678ec604a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:18 +0000
Subject: [PATCH 05/32] fix: don't write several modules into one output at the
 same time

With several modules and -o FILE or standard output, each worker wrote its module
to the same destination concurrently: the records of the modules were mixed up.
---
 src/dumper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index ec865ee..63ec678 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -391,7 +391,9 @@ fn send_store_jobs(
     modules.iter_mut().for_each(|f| f.sort_by_key(|(i, _)| *i));
     modules.sort_by_key(|files| files[0].0);
 
-    let single = modules.len() == 1;
+    // A file (or stdout) is shared by all the modules: don't let several workers write into it at
+    // the same time.
+    let store_here = modules.len() == 1 || !matches!(output, Output::Store(_));
     for files in modules {
         let merged = catch_panic(|| {
             let mut files = files.into_iter().map(|(_, info)| info);
@@ -399,7 +401,7 @@ fn send_store_jobs(
             files.try_fold(first, |prev, info| ObjectInfo::merge(info, prev))
         });
         match merged {
-            Ok(d) if single => {
+            Ok(d) if store_here => {
                 if let Err(e) = catch_panic(|| self::store(&output, check_cfi, d)) {
                     note_error(&mut res, e);
                 }
-- 
2.43.0


From 9ebc59846357af2f0160d521e75a34488f1df43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:18 +0000
Subject: [PATCH 06/32] fix: report an error when the end of the output can't
 be written

The symbols are written through a BufWriter which was flushed only when dropped,
where errors are ignored: a full disk gave a truncated file and a success.
---
 src/object_info.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..40b263a 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -293,6 +293,8 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        // A buffered writer ignores the errors when it is dropped.
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 96858827407d7b5bc7ca5688728b445e49d95e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:20 +0000
Subject: [PATCH 07/32] fix: use the given symbol servers when dumping several
 files

--symbol-server was ignored as soon as there were two files, so a PE file dumped
with others got other symbols than dumped alone.
---
 src/dumper.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 63ec678..b857657 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -441,6 +441,7 @@ fn consumer(
     counter: Arc<AtomicUsize>,
     num_threads: usize,
     output: Output,
+    symbol_server: Option<String>,
     check_cfi: bool,
 ) -> common::Result<()> {
     // The first error: the other jobs are done all the same.
@@ -466,7 +467,15 @@ fn consumer(
                     let filename = utils::get_filename(&path);
                     let buf = utils::read_file(&path);
 
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)
+                    get_object_info(
+                        buf,
+                        &path,
+                        &filename,
+                        mapping,
+                        arch,
+                        symbol_server.as_deref(),
+                        collect_inlines,
+                    )
                 });
 
                 match info {
@@ -532,6 +541,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let results = Arc::clone(&results);
         let counter = Arc::clone(&counter);
         let output = config.output.clone();
+        let symbol_server = config.symbol_server.map(str::to_string);
 
         let check_cfi = config.check_cfi;
 
@@ -539,7 +549,15 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .name(format!("dump-syms {i}"))
             .spawn(move || {
                 consumer(
-                    arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
+                    arch,
+                    sender,
+                    receiver,
+                    results,
+                    counter,
+                    num_jobs,
+                    output,
+                    symbol_server,
+                    check_cfi,
                 )
             })
             .unwrap();
-- 
2.43.0


From b906b35d05bde80e5238b559b063627e50a7b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:13 +0000
Subject: [PATCH 08/32] fix: keep absolute file names as they are

A file whose name in the line table is an absolute path was recorded below the
compilation directory.
---
 src/source.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index f80105a..035a0cb 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -77,7 +77,11 @@ impl SourceFiles {
             let comp_dir = Self::path_to_string(compilation_dir);
             dir = platform.join_paths(&comp_dir, &dir);
         };
-        let path = platform.join_paths(&dir, &name);
+        let path = if !name.is_empty() && platform.is_absolute_path(&name) {
+            name.to_string()
+        } else {
+            platform.join_paths(&dir, &name)
+        };
 
         if canonicalize {
             // Try to get the real path and in case we're on the machine where the files have been compiled
-- 
2.43.0


From 6dcf489dc86b46776c007499f4a186a8f93052b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:15 +0000
Subject: [PATCH 09/32] fix: don't mix up source files whose names aren't UTF-8

The file ids are cached by the addresses of the directory and file name strings.
For names which aren't UTF-8 these are temporary strings, and another name could
get the same address and so the id of a different file.
---
 src/source.rs | 53 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 035a0cb..b3c776c 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -5,6 +5,7 @@
 
 use hashbrown::{hash_map, HashMap};
 use log::error;
+use std::borrow::Cow;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -99,38 +100,46 @@ impl SourceFiles {
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
         // A lot of paths are a slice on the same string in the debug file
         // so just use a cache based on the string pointers.
+        // Strings which had to be converted to UTF-8 are only temporary.
+        let (dir, name) = match (file.dir_str(), file.name_str()) {
+            (Cow::Borrowed(dir), Cow::Borrowed(name)) => (dir, name),
+            _ => return self.get_path_id(compilation_dir, file),
+        };
         let cache_key = (
             Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
+            Self::cast_ptr(dir.as_bytes()),
+            Self::cast_ptr(name.as_bytes()),
         );
 
-        match self.cache.entry(cache_key) {
+        if let Some(id) = self.cache.get(&cache_key) {
+            return *id;
+        }
+
+        let id = self.get_path_id(compilation_dir, file);
+        self.cache.insert(cache_key, id);
+        id
+    }
+
+    fn get_path_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
+        let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
+        match self.ref_to_id.entry(path.clone()) {
             hash_map::Entry::Occupied(e) => *e.get(),
             hash_map::Entry::Vacant(e) => {
-                let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
-                let id = match self.ref_to_id.entry(path.clone()) {
-                    hash_map::Entry::Occupied(e) => *e.get(),
-                    hash_map::Entry::Vacant(e) => {
-                        let id = self.fake_id_to_ref.len() as u32;
-                        let new_path = if let Some(mapping) = self.mapping.as_ref() {
-                            match mapping.map(&path) {
-                                Ok(p) => p,
-                                Err(e) => {
-                                    error!("Mapping error: {e}");
-                                    None
-                                }
-                            }
-                        } else {
+                let id = self.fake_id_to_ref.len() as u32;
+                let new_path = if let Some(mapping) = self.mapping.as_ref() {
+                    match mapping.map(&path) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            error!("Mapping error: {e}");
                             None
-                        };
-                        let path = new_path.unwrap_or(path);
-                        e.insert(id);
-                        self.fake_id_to_ref.push((None, path));
-                        id
+                        }
                     }
+                } else {
+                    None
                 };
+                let path = new_path.unwrap_or(path);
                 e.insert(id);
+                self.fake_id_to_ref.push((None, path));
                 id
             }
         }
-- 
2.43.0


From a81b8e51fe78fabc9b0714d968fc97b10288365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:56 +0000
Subject: [PATCH 10/32] fix: no name can break a record of the symbol file

Only the names of inlined functions were stripped of control characters and
replaced when empty. A line break in the name of a function, a public symbol, a
source file or the module made an invalid record, or several, out of one.
---
 src/common.rs      | 16 ++++++++++++++++
 src/object_info.rs | 20 +++++++++++---------
 src/symbol.rs      |  6 ++++--
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9cf3402..fe29e5d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,6 +5,7 @@
 
 use once_cell::sync::{Lazy, OnceCell};
 use regex::Regex;
+use std::borrow::Cow;
 use std::env::consts::ARCH;
 use std::result;
 use symbolic::common::{Arch, Name};
@@ -40,6 +41,21 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// Make a name fit for a record: no control characters such as \n, and not empty.
+pub(crate) fn sanitize_name(name: &str) -> Cow<'_, str> {
+    let name = if name.contains(|c: char| c.is_ascii_control()) {
+        Cow::Owned(name.replace(|c: char| c.is_ascii_control(), ""))
+    } else {
+        Cow::Borrowed(name)
+    };
+
+    if name.trim().is_empty() {
+        Cow::Borrowed("<name omitted>")
+    } else {
+        name
+    }
+}
+
 pub(crate) fn fix_symbol_name<'a>(name: &'a Name<'a>) -> Name<'a> {
     static COMPILER_NNN: Lazy<Regex> = Lazy::new(|| {
         Regex::new(
diff --git a/src/object_info.rs b/src/object_info.rs
index 40b263a..dde6f53 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -45,13 +45,16 @@ impl Display for ObjectInfo {
         writeln!(
             f,
             "MODULE {} {} {} {}",
-            self.platform, self.cpu, self.debug_id, self.file_name
+            self.platform,
+            self.cpu,
+            self.debug_id,
+            common::sanitize_name(&self.file_name)
         )?;
 
         if let Some(code_id) = self.code_id.as_ref() {
             let pe_name = self.pe_name.as_deref().unwrap_or_default();
             let line = format!("INFO CODE_ID {code_id} {pe_name}");
-            writeln!(f, "{}", line.trim())?;
+            writeln!(f, "{}", common::sanitize_name(line.trim()))?;
         }
 
         if let Some(extra_info) = EXTRA_INFO.get() {
@@ -61,16 +64,15 @@ impl Display for ObjectInfo {
         }
 
         for (n, file_name) in self.files.get_mapping().iter().enumerate() {
-            writeln!(f, "FILE {n} {file_name}")?;
+            writeln!(f, "FILE {n} {}", common::sanitize_name(file_name))?;
         }
 
         for (n, function_name) in self.inline_origins.iter().enumerate() {
-            let function_name = if function_name.trim().is_empty() {
-                "<name omitted>"
-            } else {
-                function_name
-            };
-            writeln!(f, "INLINE_ORIGIN {n} {function_name}")?;
+            writeln!(
+                f,
+                "INLINE_ORIGIN {n} {}",
+                common::sanitize_name(function_name)
+            )?;
         }
 
         for (_, sym) in self.symbols.iter() {
diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..f424aa7 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -8,6 +8,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Bound::{Excluded, Included};
 use symbolic::debuginfo::Object;
 
+use crate::common;
 use crate::line::Lines;
 
 const PDB_MAGIC: u64 = 7381245236781214029;
@@ -39,6 +40,7 @@ impl ContainsSymbol for Symbols {
 
 impl Display for Symbol {
     fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
+        let name = common::sanitize_name(&self.name);
         if self.is_public {
             writeln!(
                 f,
@@ -46,7 +48,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                self.name,
+                name,
             )?;
         } else {
             writeln!(
@@ -56,7 +58,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                self.name,
+                name,
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From 302256aa6f00c9cb07e9bbc5ec6744535de1c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:56 +0000
Subject: [PATCH 11/32] fix: refuse an extra INFO line which is more than one
 line

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf774e0..779335c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -250,7 +250,7 @@ fn to_vec(values: clap::parser::ValuesRef<'_, String>) -> Vec<&str> {
 }
 
 fn get_extra_info(matches: &clap::ArgMatches) {
-    static INFO_LINE_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[A-Z_]+ .*").unwrap());
+    static INFO_LINE_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[A-Z_]+ .*$").unwrap());
 
     let mut extra_info: Vec<String> = matches.get_many::<String>("extra_info").map(|values| {
         values
-- 
2.43.0


From f3a857ef1b6942037380e05601509ea959f755f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:35 +0000
Subject: [PATCH 12/32] fix: a module's embedded name can't lead out of the
 symbol store

The SONAME of an ELF file (or the PDB name in a PE file) ending in /.. made .. the
name of the module, and its symbols were stored outside of the given directory;
ending in / it made the name empty.
---
 src/common.rs      |  5 ++++-
 src/object_info.rs | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index fe29e5d..6ea53a3 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -41,6 +41,9 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// What a record has when there is no name.
+pub(crate) const NO_NAME: &str = "<name omitted>";
+
 /// Make a name fit for a record: no control characters such as \n, and not empty.
 pub(crate) fn sanitize_name(name: &str) -> Cow<'_, str> {
     let name = if name.contains(|c: char| c.is_ascii_control()) {
@@ -50,7 +53,7 @@ pub(crate) fn sanitize_name(name: &str) -> Cow<'_, str> {
     };
 
     if name.trim().is_empty() {
-        Cow::Borrowed("<name omitted>")
+        Cow::Borrowed(NO_NAME)
     } else {
         name
     }
diff --git a/src/object_info.rs b/src/object_info.rs
index dde6f53..4d40032 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -168,12 +168,20 @@ impl ObjectInfo {
             (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),
             _ => main_file_name,
         };
+        // The name comes from the object itself and is used to build the path in the store:
+        // it must be the name of a file.
+        let file_name = [file_name, main_file_name, pe_file_name.unwrap_or_default()]
+            .iter()
+            .map(|name| common::sanitize_name(Self::file_name_only(name)))
+            .find(|name| !matches!(name.as_ref(), "." | ".." | common::NO_NAME))
+            .unwrap_or(common::NO_NAME.into())
+            .into_owned();
 
         Ok(Self {
             symbols,
             files: source.get_mapping(),
             inline_origins: inline_origins.get_list(),
-            file_name: Self::file_name_only(file_name).to_string(),
+            file_name,
             pe_name: pe_file_name.map(ToOwned::to_owned),
             cpu,
             debug_id,
-- 
2.43.0


From dba8af8da3c296aaf9cf2fdbd517b078419a3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:36 +0000
Subject: [PATCH 13/32] fix: no panic on exported names which start with a
 multi-byte character

---
 src/symbol.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index f424aa7..e53d38a 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -224,22 +224,20 @@ impl ParsedWinFuncName {
         }
 
         // Parse the other three.
-        if !c_decorated_name.is_empty() {
-            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
-                if let Some((name, param_size)) = rest.rsplit_once('@') {
-                    if let Ok(param_size) = param_size.parse::<u32>() {
-                        // __stdcall or __fastcall
-                        return Self {
-                            name: name.to_string(),
-                            param_size: Some(param_size),
-                        };
-                    }
-                }
-                if &c_decorated_name[0..1] == "_" {
-                    // __cdecl
-                    return Self::name_only(rest.to_string());
+        if let Some(rest) = c_decorated_name.strip_prefix(['@', '_']) {
+            if let Some((name, param_size)) = rest.rsplit_once('@') {
+                if let Ok(param_size) = param_size.parse::<u32>() {
+                    // __stdcall or __fastcall
+                    return Self {
+                        name: name.to_string(),
+                        param_size: Some(param_size),
+                    };
                 }
             }
+            if c_decorated_name.starts_with('_') {
+                // __cdecl
+                return Self::name_only(rest.to_string());
+            }
         }
 
         Self::name_only(c_decorated_name.to_string())
-- 
2.43.0


From 01fadbf379937c4fb370e3bd2e75d66880d63b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:32 +0000
Subject: [PATCH 14/32] fix: don't take an error page of a symbol server for a
 file

The status of the answer was checked for the HEAD request only: the body of a
failed GET was cached and used as the file. Such a server is skipped now and the
next one which has the file is asked, in the configured order and not in the order
in which the answers to the HEAD requests arrived.
---
 src/cache.rs | 49 ++++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..6403304 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -9,7 +9,6 @@ use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
 use std::io::{BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
-use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
 use url::Url;
 
@@ -194,43 +193,38 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
     jobs
 }
 
-async fn check_if_file_exists(results: Arc<Mutex<Vec<Job>>>, client: &Client, job: Job) {
-    if let Ok(res) = client
+async fn check_if_file_exists(client: &Client, job: Job) -> Option<Job> {
+    let res = client
         .head(&job.url)
         .header(USER_AGENT, DEFAULT_USER_AGENT)
         .send()
-        .await
-    {
-        if res.status() == 200 {
-            let mut results = results.lock().unwrap();
-            results.push(job);
-        }
+        .await;
+    match res {
+        Ok(res) if res.status() == 200 => Some(job),
+        _ => None,
     }
 }
 
-fn check_data(jobs: Vec<Job>) -> Option<Job> {
+fn check_data(jobs: Vec<Job>) -> Vec<Job> {
     let client = Client::new();
     let n_queries = jobs.len();
-    let results = Arc::new(Mutex::new(Vec::new()));
 
-    Runtime::new().unwrap().block_on(async {
+    let results = Runtime::new().unwrap().block_on(async {
         stream::iter(jobs)
             .map({
-                let results = &results;
                 let client = &client;
-                move |job| check_if_file_exists(Arc::clone(results), client, job)
+                move |job| check_if_file_exists(client, job)
             })
-            .buffer_unordered(n_queries)
-            .collect::<Vec<()>>()
+            .buffered(n_queries)
+            .collect::<Vec<_>>()
             .await
     });
 
-    let results = Arc::try_unwrap(results).unwrap().into_inner().unwrap();
-    results.first().cloned()
+    results.into_iter().flatten().collect()
 }
 
 fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
-    if let Some(job) = check_data(jobs) {
+    for job in check_data(jobs) {
         let mut buf = Vec::new();
         let client = blocking::Client::new();
         let resp = client
@@ -238,19 +232,16 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
         if let Ok(mut resp) = resp {
-            if resp.copy_to(&mut buf).is_err() {
-                None
-            } else if copy_in_cache(job.cache, &buf) {
-                Some(buf)
-            } else {
-                None
+            if resp.status() == 200
+                && resp.copy_to(&mut buf).is_ok()
+                && copy_in_cache(job.cache, &buf)
+            {
+                return Some(buf);
             }
-        } else {
-            None
         }
-    } else {
-        None
     }
+
+    None
 }
 
 pub fn search_file(
-- 
2.43.0


From 0f34e643b799d5fe2976b6bf6574cca667925f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:34 +0000
Subject: [PATCH 15/32] fix: an interrupted download doesn't leave a partial
 file in the cache

The downloaded data were written in place, with errors of the last write ignored:
a crash or a full disk left a truncated file which was used from then on.
---
 src/cache.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 6403304..bb4df7b 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,8 +7,9 @@ use dirs::home_dir;
 use futures::{stream, StreamExt};
 use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
-use std::io::{BufWriter, Read, Write};
+use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use tokio::runtime::Runtime;
 use url::Url;
 
@@ -135,12 +136,23 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    let output = File::create(&path)
-        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.to_str().unwrap()));
-    let mut output = BufWriter::new(output);
-    output
-        .write_all(data)
-        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
+    // Other processes must never see a partial file, even if we're interrupted.
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let tmp = path.with_file_name(format!(
+        ".tmp-{}-{}",
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::Relaxed)
+    ));
+    let written = File::create(&tmp).and_then(|mut output| {
+        output.write_all(data)?;
+        output.sync_all()
+    });
+    written
+        .and_then(|_| fs::rename(&tmp, &path))
+        .unwrap_or_else(|_| {
+            let _ = fs::remove_file(&tmp);
+            panic!("Cannot write file {}", path.to_str().unwrap())
+        });
 
     true
 }
-- 
2.43.0


From 8f0eb570c67c1380e167fcafd089bfce45acfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:35 +0000
Subject: [PATCH 16/32] fix: no panic on a cabinet whose name has no extension

---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67da975..2851c14 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -139,7 +139,10 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let e = match path.extension().and_then(|e| e.to_str()) {
+        Some(e) => e,
+        None => return path,
+    };
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
-- 
2.43.0


From 85af4a08576a1c7371ee7372b2445719947b383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:06 +0000
Subject: [PATCH 17/32] fix: a line of an inlined function isn't continued
 across its caller's code

When an inlined function had the same line on both sides of a piece of its caller, the
second record was left out and its code was attributed to the line of the caller.
---
 src/collector.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/collector.rs b/src/collector.rs
index 4cca6f2..6476046 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -226,11 +226,17 @@ impl Collector {
         let mut next_inline = inline_iter.next();
 
         let mut prev_line_info = None;
+        let mut prev_line_range_end = None;
 
         // Iterate over the line records.
         while let Some(line) = next_line.take() {
             let line_range_start = line.address;
             let line_range_end = line.address + line.size.unwrap_or(1);
+            if call_depth > 0 && prev_line_range_end != Some(line_range_start) {
+                // The code between the two records belongs to the caller: the line isn't continued.
+                prev_line_info = None;
+            }
+            prev_line_range_end = Some(line_range_end);
             let file_id = source.get_id(fun.compilation_dir, &line.file);
             let file_id = source.get_true_id(file_id);
             let line_no = line.line as u32;
-- 
2.43.0


From edaa87f036461297b9bb2547fce10f44d03d4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:23 +0000
Subject: [PATCH 18/32] fix: merge the source files of two objects in a fixed
 order, each once

The numbers of the added files depended on the order of a hash map, and a file added by
one merge wasn't found by the next one.
---
 src/source.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index b3c776c..c43eb12 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -30,7 +30,6 @@ pub struct SourceFiles {
 
 #[derive(Debug, Default)]
 pub struct SourceMap {
-    ref_to_id: HashMap<String, u32>,
     id_to_ref: Vec<String>,
 }
 
@@ -161,7 +160,6 @@ impl SourceFiles {
 
     pub(super) fn get_mapping(self) -> SourceMap {
         SourceMap {
-            ref_to_id: self.ref_to_id,
             id_to_ref: self.id_to_ref,
         }
     }
@@ -181,25 +179,27 @@ impl SourceMap {
         // This one has no FUNC
         if self.id_to_ref.is_empty() {
             // Just steal the data from the other
-            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);
             std::mem::swap(&mut self.id_to_ref, &mut other.id_to_ref);
             return None;
         }
 
+        let mut ids: HashMap<String, u32> = HashMap::default();
+        for (id, path) in self.id_to_ref.iter().enumerate() {
+            ids.entry(path.clone()).or_insert(id as u32);
+        }
+
         // will contain the new ids
-        let mut remapping = vec![0; other.id_to_ref.len()];
+        let mut remapping = Vec::with_capacity(other.id_to_ref.len());
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
-            let id = *id as usize;
-            if let Some(an_id) = self.ref_to_id.get(path) {
-                // self has already this path so map the id to the existing one
-                remapping[id] = *an_id;
-            } else {
-                let new_id = self.id_to_ref.len() as u32;
-                remapping[id] = new_id;
-                self.id_to_ref.push(other.id_to_ref[id].clone());
-            }
+        for path in other.id_to_ref.drain(..) {
+            // if self has already this path then map the id to the existing one
+            let id_to_ref = &mut self.id_to_ref;
+            let id = ids.entry(path).or_insert_with_key(|path| {
+                id_to_ref.push(path.clone());
+                id_to_ref.len() as u32 - 1
+            });
+            remapping.push(*id);
         }
 
         Some(remapping)
-- 
2.43.0


From d14335ae2024c3ba519f05721b7592e0ace5109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:07 +0000
Subject: [PATCH 19/32] fix: when merging, keep real functions, the PE name and
 the stripped file's name

A placeholder FUNC was kept instead of the function itself, the CODE_ID line lost the name
of the PE file, and with three files the name of the stripped one could get lost.
---
 src/object_info.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 4d40032..b2513e7 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -273,8 +273,8 @@ impl ObjectInfo {
             match left.symbols.entry(*addr) {
                 btree_map::Entry::Occupied(mut e) => {
                     let a_sym = e.get_mut();
-                    if a_sym.is_public {
-                        // FUNC is more interesting than the PUBLIC
+                    if a_sym.is_public || (a_sym.is_synthetic && !sym.is_synthetic) {
+                        // FUNC is more interesting than the PUBLIC (or than a synthetic FUNC)
                         // so just keep the FUNC
                         sym.remap_lines(file_remapping.as_deref());
                         sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
@@ -292,10 +292,12 @@ impl ObjectInfo {
 
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
+            left.pe_name = right.pe_name;
         }
 
         if right.bin_type == Type::Stripped {
             left.file_name = right.file_name;
+            left.bin_type = right.bin_type;
         }
 
         Ok(left)
-- 
2.43.0


From d6812dead17158243f00f5f7fab59003e1321fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:08 +0000
Subject: [PATCH 20/32] fix: no overflow for symbols at the end of the address
 space

---
 src/symbol.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index e53d38a..7c3a141 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -34,7 +34,7 @@ pub trait ContainsSymbol {
 impl ContainsSymbol for Symbols {
     fn is_inside_symbol(&self, rva: u32) -> bool {
         let last = self.range((Included(0), Excluded(rva))).next_back();
-        last.is_some_and(|last| rva < (last.1.rva + last.1.len))
+        last.is_some_and(|last| rva - last.1.rva < last.1.len)
     }
 }
 
@@ -139,7 +139,10 @@ fn append_dummy_symbol_pe_pdb(mut syms: Symbols, name: &str) -> Symbols {
         return syms;
     };
 
-    let rva = if len == 0 { rva + 1 } else { rva + len };
+    let rva = match rva.checked_add(len.max(1)) {
+        Some(rva) => rva,
+        None => return syms,
+    };
 
     let name = if name.is_empty() {
         String::from("<unknown>")
-- 
2.43.0


From a570df7492473e9bffc31d74d31b4ef37bf5f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:10 +0000
Subject: [PATCH 21/32] fix: no panic on mini debug info which is out of the
 file

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 7c3a141..6f0846b 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -174,7 +174,7 @@ pub(super) fn get_compressed_minidebuginfo(object: &Object) -> Option<Vec<u8>> {
             if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                 if section_name == ".gnu_debugdata" {
                     let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
-                    let mut buf: &[u8] = &data[start..(start + length)];
+                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;
                     let mut out: Vec<u8> = Vec::new();
                     lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                     return Some(out);
-- 
2.43.0


From 591d70542ce4b88f2d63a8c311ba1f6f287c8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:12 +0000
Subject: [PATCH 22/32] fix: no panic on odd member names of a cabinet and odd
 names for the symbol server

---
 src/cache.rs | 3 ++-
 src/utils.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bb4df7b..fd31de8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -186,6 +186,7 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
         )
         .unwrap_or_else(|e| panic!("{}", e));
         jobs.push(job);
+        let last_len = file_name.chars().next_back().map_or(0, char::len_utf8);
         if !file_name.ends_with('_') {
             let job = Job::new(
                 path,
@@ -194,7 +195,7 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
                     server.server,
                     file_name,
                     id,
-                    &file_name[..file_name.len() - 1]
+                    &file_name[..file_name.len() - last_len]
                 ),
             )
             .unwrap_or_else(|e| panic!("{}", e));
diff --git a/src/utils.rs b/src/utils.rs
index 2851c14..e132b43 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -159,12 +159,12 @@ fn get_corrected_path(path: PathBuf) -> PathBuf {
 fn get_cabinet_files(cab: &Cabinet<Cursor<&Vec<u8>>>, path: PathBuf) -> Option<(String, usize)> {
     // Try to find in the cabinet the same path with pdb extension
     let path = get_corrected_path(path);
-    let file_name = path.file_name().unwrap();
+    let file_name = path.file_name()?;
     for folder in cab.folder_entries() {
         for file in folder.file_entries() {
             let file_size = file.uncompressed_size() as usize;
             let path = PathBuf::from(file.name());
-            if path.file_name().unwrap() == file_name {
+            if path.file_name() == Some(file_name) {
                 return Some((file.name().to_string(), file_size));
             }
         }
-- 
2.43.0


From ce735eb81d6acde873477c04c35348fa8c186596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:05 +0000
Subject: [PATCH 23/32] fix: a PDB found next to a PE file is used only if it
 belongs to it

Any PDB of the right name was combined with the PE file whatever its debug id, and one that
couldn't be read made the run fail.
---
 src/windows/utils.rs | 48 ++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..0495775 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -4,36 +4,53 @@
 // copied, modified, or distributed except according to those terms.
 
 use std::path::Path;
+#[cfg(feature = "http")]
+use symbolic::debuginfo::pdb::PdbObject;
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
 #[cfg(feature = "http")]
 use crate::cache::{self, SymbolServer};
 use crate::utils;
 
+/// Read a file which was found next to another one: if it isn't usable it's as if it wasn't there.
+fn read_neighbour(path: &Path) -> Option<Vec<u8>> {
+    if !path.is_file() {
+        return None;
+    }
+    let buf = std::fs::read(path).ok()?;
+    utils::read_cabinet(buf, path.to_path_buf())
+}
+
+#[cfg(feature = "http")]
+fn read_pdb(path: &Path, pe_debug_id: &DebugId) -> Option<Vec<u8>> {
+    read_neighbour(path)
+        .filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| &pdb.debug_id() == pe_debug_id))
+}
+
 #[cfg(feature = "http")]
-fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
+fn try_to_find_pdb(path: &Path, pdb_filename: &str, pe_debug_id: &DebugId) -> Option<Vec<u8>> {
     // Just check that the file is in the same directory as the PE one
     let pdb = path.with_file_name(pdb_filename);
     let pdb_cab = pdb.with_extension("pd_");
 
     for pdb in vec![pdb, pdb_cab].into_iter() {
-        if pdb.is_file() {
-            return Some(utils::read_file(pdb));
+        if let Some(buf) = read_pdb(&pdb, pe_debug_id) {
+            return Some(buf);
         }
     }
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
     pdb.set_file_name(pdb_filename);
-    if pdb.is_file() {
-        Some(utils::read_file(pdb))
-    } else {
-        None
-    }
+    read_pdb(&pdb, pe_debug_id)
 }
 
 #[cfg(feature = "http")]
-fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u8>>, String) {
+fn os_specific_try_to_find_pdb(
+    path: &Path,
+    pdb_filename: &str,
+    pe_debug_id: &DebugId,
+) -> (Option<Vec<u8>>, String) {
     // We may have gotten either an OS native path, or a Windows path.
     // On Windows, they're both the same. On Unix, they are different, and in that case,
     // we change backslashes to forward slashes for `file_name()` to do its job.
@@ -43,11 +60,9 @@ fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u
     let pdb_path = Path::new(&pdb_filename);
     if let Some(file_name) = pdb_path.file_name() {
         let pdb_name = file_name.to_str().unwrap().to_string();
-        if pdb_path.is_file() {
-            (Some(utils::read_file(pdb_path)), pdb_name)
-        } else {
-            (try_to_find_pdb(path, &pdb_name), pdb_name)
-        }
+        let pdb = read_pdb(pdb_path, pe_debug_id)
+            .or_else(|| try_to_find_pdb(path, &pdb_name, pe_debug_id));
+        (pdb, pdb_name)
     } else {
         (None, "".to_string())
     }
@@ -63,7 +78,7 @@ pub fn get_pe_pdb_buf<'a>(
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
-        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
+        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename, &pe.debug_id());
         if pdb_name.is_empty() {
             log::warn!("Invalid pdb filename in PE file: \"{pdb_filename}\"");
             None
@@ -94,8 +109,7 @@ pub(crate) fn find_pe_for_pdb(path: &Path, pdb_debug_id: &DebugId) -> Option<(St
     let mut path = path.to_path_buf();
     for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
         path.set_extension(ext);
-        if path.is_file() {
-            let buf = utils::read_file(&path);
+        if let Some(buf) = read_neighbour(&path) {
             if let Ok(pe) = PeObject::parse(&buf) {
                 if ext.ends_with('_') {
                     path.set_extension(fix_extension(ext));
-- 
2.43.0


From 475993c111500f373727cadfbfcd52baf993dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:49 +0000
Subject: [PATCH 24/32] fix: placeholders of executable sections are relative
 to the load address

In an executable which isn't position independent they were far off the code.
---
 src/symbol.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 6f0846b..17b2823 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -102,6 +102,7 @@ pub(super) fn add_executable_section_symbols(
     name: &str,
     object: &Object,
 ) -> Symbols {
+    let load_address = object.load_address();
     let object = goblin::Object::parse(object.data());
     match object {
         Ok(goblin::Object::Elf(elf)) => {
@@ -110,7 +111,11 @@ pub(super) fn add_executable_section_symbols(
                     let name = if name.is_empty() { "unknown" } else { name };
                     let section_name = elf.shdr_strtab.get_at(header.sh_name).unwrap_or("unknown");
                     let symbol_name = format!("<{section_name} ELF section in {name}>");
-                    let rva = header.sh_addr as u32;
+                    // Like all the other addresses, it's relative to the load address.
+                    let rva = match header.sh_addr.checked_sub(load_address) {
+                        Some(rva) => rva as u32,
+                        None => continue,
+                    };
                     syms.entry(rva).or_insert(Symbol {
                         name: symbol_name,
                         is_public: true,
-- 
2.43.0


From 6e348f8258c6f5e06879d78ec39c49336302463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:11 +0000
Subject: [PATCH 25/32] fix: keep the root or missing directory of a source
 path in a PDB

A path with nothing but a file name got a leading backslash, and so did
a file in the root directory of the Linux machine the PDB was made on.
---
 src/platform.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/platform.rs b/src/platform.rs
index e881c9f..b920f0c 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -47,13 +47,18 @@ impl Platform {
                 // That's because Platform::Win is used for all PDB files, even for
                 // PDB files for build that were (cross-)compiled on a Linux machine;
                 // those contain Linux paths.
+                if left.is_empty() {
+                    // There is no directory at all, not even the root one.
+                    return right.to_string();
+                }
+                let is_linux_path = left.starts_with('/');
                 let left = left.trim_end_matches(['/', '\\']);
                 let right = right.trim_start_matches(['/', '\\']);
 
                 // If `left` happens to be an absolute Linux-style path, use `/` as
                 // the separator. This covers the PDB-on-Linux case we care about; all
                 // the paths in such a PDB appear to be absolute paths.
-                if left.starts_with('/') {
+                if is_linux_path {
                     format!("{left}/{right}")
                 } else {
                     format!("{left}\\{right}")
-- 
2.43.0


From 3ec2d29c195b9fdf151abb311c9f1cd377d0f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:28 +0000
Subject: [PATCH 26/32] fix: look for the PDB of a PE file in the current
 directory

The last component of the current directory was replaced by the name of the PDB file, which
was hence looked for in the parent of the current directory.
---
 src/windows/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 0495775..ad3ba8f 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -41,7 +41,7 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str, pe_debug_id: &DebugId) -> Op
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
+    pdb.push(pdb_filename);
     read_pdb(&pdb, pe_debug_id)
 }
 
-- 
2.43.0


From 3a22c05c1743a345904aca37c02f2cc608a58214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 27/32] fix: don't keep the record in which reading the unwind
 information failed

---
 src/object_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index b2513e7..c85a3e2 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -97,6 +97,9 @@ fn get_stack_info(pdb: Option<&Object>, pe: Option<&Object>) -> String {
 
     if let Err(e) = result {
         error!("CFI: {e:?}");
+        // The error may have occurred in the middle of a record.
+        let end = buf.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
+        buf.truncate(end);
     }
 
     String::from_utf8(buf).unwrap()
-- 
2.43.0


From 4d55d585306aa70283a999511f0b5dfd7170d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 28/32] fix: a line break in the program string of a frame
 doesn't end its record

---
 src/object_info.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index c85a3e2..233f77a 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -102,7 +102,19 @@ fn get_stack_info(pdb: Option<&Object>, pe: Option<&Object>) -> String {
         buf.truncate(end);
     }
 
-    String::from_utf8(buf).unwrap()
+    // The records contain program strings coming from the file: a line break there isn't the end
+    // of the record, and as any other blank it only separates two tokens.
+    let mut stack = String::with_capacity(buf.len());
+    for line in String::from_utf8(buf).unwrap().lines() {
+        if !stack.is_empty() {
+            stack.push(if line.starts_with("STACK ") { '\n' } else { ' ' });
+        }
+        stack.push_str(&line.replace(|c: char| c.is_ascii_control(), " "));
+    }
+    if !stack.is_empty() {
+        stack.push('\n');
+    }
+    stack
 }
 
 impl ObjectInfo {
-- 
2.43.0


From 593b0d13cfffbf20d1004d4f3ff42f2408e8ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:11 +0000
Subject: [PATCH 29/32] fix: keep all the inlined calls of a merged function
 when their files become the same

---
 src/symbol.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 17b2823..bc39ba9 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -82,18 +82,17 @@ impl Symbol {
         file_remapping: Option<&[u32]>,
         inline_origin_remapping: &[u32],
     ) {
-        let inlines = std::mem::take(&mut self.source.inlines);
-        self.source.inlines = inlines
-            .into_iter()
-            .map(|(mut inline_site, address_ranges)| {
-                if let Some(file_remapping) = file_remapping {
-                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
-                }
-                inline_site.inline_origin_id =
-                    inline_origin_remapping[inline_site.inline_origin_id as usize];
-                (inline_site, address_ranges)
-            })
-            .collect();
+        for (mut inline_site, address_ranges) in std::mem::take(&mut self.source.inlines) {
+            if let Some(file_remapping) = file_remapping {
+                inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
+            }
+            inline_site.inline_origin_id =
+                inline_origin_remapping[inline_site.inline_origin_id as usize];
+            // Two sites may become the same one when their files do.
+            let ranges = self.source.inlines.entry(inline_site).or_default();
+            ranges.extend(address_ranges);
+            ranges.sort_by_key(|range| range.rva);
+        }
     }
 }
 
-- 
2.43.0


From 74fe5d17859e88b31fc18cd8c7f8da19b7f7e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:48 +0000
Subject: [PATCH 30/32] fix: apply the path mapping and --inlines to the debug
 information of PE files

---
 src/dumper.rs      | 14 ++++++++++----
 src/windows/pdb.rs | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index b857657..4683caf 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -179,10 +179,16 @@ fn get_pe_pdb_object_info<'a>(
     anyhow::bail!("HTTP symbol retrieval not enabled")
 }
 
-fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result<ObjectInfo> {
+fn get_pe_object_info(
+    buf: &[u8],
+    path: &Path,
+    filename: &str,
+    mapping: Option<Arc<PathMappings>>,
+    emit_inlines: bool,
+) -> common::Result<ObjectInfo> {
     let pe = PeObject::parse(buf)
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
-    let pe = ObjectInfo::from_pe(filename, pe)?;
+    let pe = ObjectInfo::from_pe_with_options(filename, pe, mapping, emit_inlines)?;
     Ok(pe)
 }
 
@@ -320,13 +326,13 @@ fn get_object_info(
                 &buf,
                 path,
                 filename,
-                file_mapping,
+                file_mapping.clone(),
                 symbol_server,
                 emit_inlines,
             ) {
                 pdb_info
             } else {
-                get_pe_object_info(&buf, path, filename)?
+                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
             }
         }
         FileFormat::MachO => {
diff --git a/src/windows/pdb.rs b/src/windows/pdb.rs
index d624ac6..92262a8 100644
--- a/src/windows/pdb.rs
+++ b/src/windows/pdb.rs
@@ -35,6 +35,16 @@ impl ObjectInfo {
     }
 
     pub fn from_pe(pe_name: &str, pe: PeObject) -> common::Result<Self> {
+        Self::from_pe_with_options(pe_name, pe, None, false)
+    }
+
+    /// A PE file can have some debug information (DWARF) of its own.
+    pub fn from_pe_with_options(
+        pe_name: &str,
+        pe: PeObject,
+        mapping: Option<Arc<PathMappings>>,
+        collect_inlines: bool,
+    ) -> common::Result<Self> {
         let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
         let pe = Object::Pe(pe);
         let pdb_name = win_path_file_name(&pdb_name).to_string();
@@ -44,8 +54,8 @@ impl ObjectInfo {
             None,
             Some(pe_name),
             Platform::Win,
-            None,
-            false,
+            mapping,
+            collect_inlines,
         )
     }
 }
-- 
2.43.0


From bc182b069098200fbaca2cc3db8bdfaac035fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:58 +0000
Subject: [PATCH 31/32] fix: a damaged cabinet from a symbol server is neither
 cached nor fatal

---
 src/cache.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index fd31de8..0d736d6 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -236,7 +236,7 @@ fn check_data(jobs: Vec<Job>) -> Vec<Job> {
     results.into_iter().flatten().collect()
 }
 
-fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
+fn fetch_data(jobs: Vec<Job>, file_name: &str) -> Option<Vec<u8>> {
     for job in check_data(jobs) {
         let mut buf = Vec::new();
         let client = blocking::Client::new();
@@ -245,11 +245,12 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
         if let Ok(mut resp) = resp {
-            if resp.status() == 200
-                && resp.copy_to(&mut buf).is_ok()
-                && copy_in_cache(job.cache, &buf)
-            {
-                return Some(buf);
+            if resp.status() == 200 && resp.copy_to(&mut buf).is_ok() {
+                // A cabinet which is damaged or hasn't the file is useless, now and later.
+                let data = utils::read_cabinet(buf.clone(), PathBuf::from(file_name));
+                if data.is_some() && copy_in_cache(job.cache, &buf) {
+                    return data;
+                }
             }
         }
     }
@@ -281,14 +282,6 @@ pub fn search_file(
     // Try the symbol servers
     // Each job contains the path where to cache data (if one) and a query url
     let jobs = get_jobs(servers, id, &base, &file_name);
-    let buf = fetch_data(jobs);
-
-    if let Some(buf) = buf {
-        let path = PathBuf::from(&file_name);
-        let buf = utils::read_cabinet(buf, path)
-            .unwrap_or_else(|| panic!("Unable to read the file {} from the server", file_name));
-        (Some(buf), file_name)
-    } else {
-        (None, file_name)
-    }
+    let buf = fetch_data(jobs, &file_name);
+    (buf, file_name)
 }
-- 
2.43.0


From de018763e40db708787c2e8b6c72a79e4e692fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:40 +0000
Subject: [PATCH 32/32] fix: combine a PE file only with the matching PDB of a
 symbol server

The PDB found in the cache or delivered by a server was taken without
looking at its debug id, unlike one found next to the PE file.
---
 src/windows/utils.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index ad3ba8f..6837f70 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -21,10 +21,14 @@ fn read_neighbour(path: &Path) -> Option<Vec<u8>> {
     utils::read_cabinet(buf, path.to_path_buf())
 }
 
+#[cfg(feature = "http")]
+fn is_pdb_of(buf: &[u8], pe_debug_id: &DebugId) -> bool {
+    PdbObject::parse(buf).is_ok_and(|pdb| &pdb.debug_id() == pe_debug_id)
+}
+
 #[cfg(feature = "http")]
 fn read_pdb(path: &Path, pe_debug_id: &DebugId) -> Option<Vec<u8>> {
-    read_neighbour(path)
-        .filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| &pdb.debug_id() == pe_debug_id))
+    read_neighbour(path).filter(|buf| is_pdb_of(buf, pe_debug_id))
 }
 
 #[cfg(feature = "http")]
@@ -88,7 +92,8 @@ pub fn get_pe_pdb_buf<'a>(
             // Not here so try symbol server (or cache)
             let debug_id = pe.debug_id().breakpad().to_string();
             let (pdb, pdb_name) = cache::search_file(pdb_name, &debug_id, symbol_server);
-            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))
+            pdb.filter(|pdb_buf| is_pdb_of(pdb_buf, &pe.debug_id()))
+                .map(|pdb_buf| (pe, pdb_buf, pdb_name))
         }
     } else {
         None
-- 
2.43.0

