From 3178be8dd574eb8179f8529a6e3505b7f7dfd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 01/29] fix: display the filesystem root as a single slash

---
 src/ui/display/path.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 18fd446..fe20a46 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -186,13 +186,14 @@ fn display_components(
 
     // Add back components and associated separators
     for _ in 0..accepted_back {
-        buffer.push(PATH_SEPARATOR);
-        buffer.push_str(
-            components
-                .next()
-                .expect("There should be more components than accepted components")
-                .as_ref(),
-        );
+        let component = components
+            .next()
+            .expect("There should be more components than accepted components");
+        let component = component.as_ref();
+        if component != root_component {
+            buffer.push(PATH_SEPARATOR);
+        }
+        buffer.push_str(component);
     }
 
     // Render path
-- 
2.43.0


From c7cc13da36660e1aee1f264e437663e2d886f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 02/29] Give external verification tools access to the display
 code (cfg crofiler_verif)

---
 src/main.rs     | 14 ++++++++++++++
 src/ui/mod.rs   |  9 +++++++++
 src/ui/stdio.rs |  9 +++++++++
 3 files changed, 32 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ace3734..0dbb9fc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,7 +105,21 @@ pub enum UI {
     Stdio,
 }
 
+/// Entry point of external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+mod verif {
+    include!(concat!(env!("CROFILER_VERIF"), "/main.rs"));
+}
+
 fn main() {
+    // Let external verification tools take over if they were compiled in
+    #[allow(unexpected_cfgs)]
+    #[cfg(crofiler_verif)]
+    if verif::run() {
+        return;
+    }
+
     // Set up infrastructure and process CLI arguments
     let args = CliArgs::parse();
     match args.ui {
diff --git a/src/ui/mod.rs b/src/ui/mod.rs
index 606cba7..da90413 100644
--- a/src/ui/mod.rs
+++ b/src/ui/mod.rs
@@ -6,6 +6,15 @@ mod display;
 pub mod stdio;
 pub mod tui;
 
+/// Access to the contents of this module for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("CROFILER_VERIF"), "/ui.rs"));
+}
+
 /// Try to parse an activity argument using its intended logic
 ///
 /// If that fails, log an error, then treat it as a string argument
diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..eae97a4 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -315,4 +315,13 @@ fn display_profile_info(
     write!(output, ", {percent:.2}%]")
 }
 
+/// Access to the contents of this module for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("CROFILER_VERIF"), "/stdio.rs"));
+}
+
 // FIXME: Add tests ?
-- 
2.43.0


From 2c9e2074a3b9845205c71157f4ed7472e750f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 03/29] fix: reject traces without events instead of panicking

---
 clang-time-trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..dca3f3b 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,8 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities =
+            ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len().saturating_sub(1));
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From bdf93b93b646959f7507a4832082e9fda1fabd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 04/29] fix: accept activities with an empty detail argument
 instead of panicking

---
 clang-time-trace/src/stats/activity/argument.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..4cd917c 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -275,12 +275,8 @@ impl ActivityArgumentType {
         // entity without invoking a C++ parser, which is expensive, so that
         // will be our default case when things does not look like info text.
         //
-        if !detail
-            .chars()
-            .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
-        {
+        // (an empty detail is treated as info text)
+        if detail.chars().next().is_some_and(|c| !c.is_uppercase()) {
             return ActivityArgumentType::CppEntity;
         }
         let mut can_be_string = true;
-- 
2.43.0


From c22669fd9bd60ad73408b3fb23df22be0afd6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 05/29] fix: report relative paths in activity arguments
 instead of panicking

---
 .../src/stats/activity/argument.rs            |  2 +-
 cpparser/src/lib.rs                           | 21 ++++++++++++-------
 cpparser/src/subparsers/anonymous.rs          |  4 ++--
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 4cd917c..a2cb808 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -88,7 +88,7 @@ impl RawActivityArgument {
                     Ok(ParsedActivityArgument::Module)
                 } else {
                     Ok(ParsedActivityArgument::FilePath(
-                        parser.intern_path(&detail),
+                        parser.try_intern_path(&detail)?,
                     ))
                 }
             }
diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 7ab4502..60ec26d 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -26,7 +26,8 @@ use crate::{
 };
 use asylum::{
     lasso::{MiniSpur, Rodeo, Spur},
-    path, Interner,
+    path::{self, PathError},
+    Interner,
 };
 use nom::{error::Error, Parser};
 use nom_supreme::ParserExt;
@@ -159,15 +160,19 @@ impl EntityParser {
     /// interned using the same infrastructure for key comparability.
     ///
     pub fn intern_path(&mut self, path: &str) -> PathKey {
-        self.intern_path_imut(path)
+        self.try_intern_path_imut(path)
+            .expect("Encountered relative (and thus non-interpretable) file path")
     }
 
-    /// Implementation of intern_path with internal mutability
-    pub(crate) fn intern_path_imut(&self, path: &str) -> PathKey {
-        self.paths
-            .borrow_mut()
-            .intern(path)
-            .expect("Encountered relative (and thus non-interpretable) file path")
+    /// Like intern_path(), but handles relative (and thus non-interpretable)
+    /// file paths by returning an error instead of panicking
+    pub fn try_intern_path(&mut self, path: &str) -> Result<PathKey, PathError> {
+        self.try_intern_path_imut(path)
+    }
+
+    /// Implementation of try_intern_path with internal mutability
+    pub(crate) fn try_intern_path_imut(&self, path: &str) -> Result<PathKey, PathError> {
+        self.paths.borrow_mut().intern(path)
     }
 
     /// Retrieve a previously interned path
diff --git a/cpparser/src/subparsers/anonymous.rs b/cpparser/src/subparsers/anonymous.rs
index 4efec91..9bfd1c8 100644
--- a/cpparser/src/subparsers/anonymous.rs
+++ b/cpparser/src/subparsers/anonymous.rs
@@ -148,7 +148,7 @@ impl EntityParser {
         use nom::{
             bytes::complete::take_till1,
             character::complete::{anychar, char, u32},
-            combinator::{opt, recognize},
+            combinator::{map_res, opt, recognize},
             sequence::separated_pair,
         };
 
@@ -156,7 +156,7 @@ impl EntityParser {
 
         let disk_designator = anychar.and(char(':'));
         let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));
-        let path = path_str.map(|path| self.intern_path_imut(path));
+        let path = map_res(path_str, |path| self.try_intern_path_imut(path));
 
         let source_location = separated_pair(path, char(':'), location);
         source_location
-- 
2.43.0


From d85e8205211e935d322a0bc86513367a8807e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 06/29] fix: do not panic on trace timestamps that are no valid
 dates

---
 src/ui/display/metadata.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..8409547 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -48,13 +48,16 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
         display_more(&mut buf, format!("thread {name:?}"));
     }
     if let Some(bot) = trace.beginning_of_time() {
-        let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
-        display_more(&mut buf, display);
+        // Do not display timestamps that cannot be expressed as an RFC3339 date
+        let nanos = ((bot / MICROSECOND) as i128).saturating_mul(1000);
+        let date = OffsetDateTime::from_unix_timestamp_nanos(nanos)
+            .ok()
+            .and_then(|date| date.format(&Rfc3339).ok());
+        if let Some(date) = date {
+            let mut display = "recorded ".to_owned();
+            display.push_str(&date);
+            display_more(&mut buf, display);
+        }
     }
     buf.push('.');
     buf
-- 
2.43.0


From 6e2685c4bd2e0262017806d0e87e5904c6e4931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 07/29] fix: do not panic when asked for a display of less than
 three columns

---
 src/ui/stdio.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index eae97a4..5d1b68c 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -14,6 +14,13 @@ use std::io;
 use termtree::{GlyphPalette, Tree};
 use unicode_width::UnicodeWidthStr;
 
+/// Minimal number of terminal columns that this display can work with
+///
+/// This is what it takes to display a list bullet followed by an ellipsis. If
+/// fewer columns are available, we will overflow the line.
+///
+const MIN_COLS: u16 = 3;
+
 /// Run the analysis using the stdio display
 pub fn run(args: CliArgs) {
     // Set up logging using env_logger
@@ -34,7 +41,8 @@ pub fn run(args: CliArgs) {
     // Determine column budget
     let max_cols = termion::terminal_size()
         .map(|(width, _height)| width.min(args.max_cols))
-        .unwrap_or(args.max_cols);
+        .unwrap_or(args.max_cols)
+        .max(MIN_COLS);
 
     // Load the clang trace
     eprintln!("Processing input data...");
-- 
2.43.0


From 658a7c9195d02add60b247310e9ff71723aeda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 08/29] fix: display the hierarchical profile of every root
 activity

---
 src/ui/stdio.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 5d1b68c..31df70e 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -159,16 +159,16 @@ fn print_hierarchical_profile(
         skip_indent: " ",
     };
     println!("\nHierarchical profile:");
-    assert_eq!(trace.root_activities().count(), 1);
-    let root_id = trace
+    let root_ids = trace
         .root_activities()
-        .next()
-        .expect("There should be one ExecuteCompiler root activity")
-        .id();
-    println!(
-        "{}",
-        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
-    );
+        .map(|root| root.id())
+        .collect::<Vec<_>>();
+    for root_id in root_ids {
+        println!(
+            "{}",
+            hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
+        );
+    }
 }
 
 /// Make a tree display of the hierarchical profile of some build
-- 
2.43.0


From d1c9d5f8cdbfd79015c916da5abd0228271e8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 09/29] fix: enumerate active workers when the last one of a
 word is the only one left

Shifting a word by its full width overflows, so with 64 workers, the
out-of-memory killer panicked (or never stopped iterating in release
builds) once every worker but the 64th one had been stopped.
---
 cmakeperf/src/measure/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..bc5f7b7 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -433,7 +433,10 @@ impl<'flags> StopServer<'flags> {
                     }
                     let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
                     bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
+                    // Shifting out all bits at once is not a valid shift
+                    word_value = word_value
+                        .checked_shr(offset_after_first_one as u32)
+                        .unwrap_or(0);
                     Some(bit_offset - 1)
                 })
             })
-- 
2.43.0


From c2135e74b1465c8ecf2a0c73dc697ae384782490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 10/29] fix: report the failure to read a build profile, do not
 take it for an empty one

---
 cmakeperf/src/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakeperf/src/output.rs b/cmakeperf/src/output.rs
index d62a320..032921a 100644
--- a/cmakeperf/src/output.rs
+++ b/cmakeperf/src/output.rs
@@ -27,6 +27,8 @@ pub fn load(path: impl AsRef<Path>) -> Result<BuildProfile, ProfileLoadError> {
 
 /// Like `load()`, but takes any CSV reader, not necessarily a file reader
 fn from_csv_reader<R: Read>(mut reader: csv::Reader<R>) -> Result<BuildProfile, ProfileLoadError> {
+    // Iterating over records does not report a failure to read the headers
+    reader.headers()?;
     let mut result = Vec::new();
     for unit in reader.deserialize() {
         result.push(unit?);
-- 
2.43.0


From c8770b7e74e55726f51da2fd08838be6c639b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 11/29] fix: count the memory of multithreaded jobs once

---
 cmakeperf/src/measure/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..0b7cdc2 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -213,7 +213,11 @@ impl ProcessTree {
 
     // Compute memory consumption of the process tree in bytes
     fn memory(&self, system: &System) -> u64 {
-        self.processes(system).map(|process| process.memory()).sum()
+        self.processes(system)
+            // Threads share the memory of the process that they belong to
+            .filter(|process| process.thread_kind().is_none())
+            .map(|process| process.memory())
+            .sum()
     }
 
     // Terminate or kill every process in the process tree
-- 
2.43.0


From 3d554187175c9eb4a097f1f09ea1a02ea0c8d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 12/29] fix: keep monitoring the system on schedule when
 results come in

---
 cmakeperf/src/measure/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index bc5f7b7..afcbd50 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -17,6 +17,7 @@ use std::{
         mpsc::{self, RecvTimeoutError},
         Arc,
     },
+    time::Instant,
 };
 use sysinfo::RefreshKind;
 use thiserror::Error;
@@ -67,6 +68,7 @@ pub(super) fn run(
             let mut work_sender = work_queue.sender();
             work_sender.start();
             let mut poll_clock = PollClock::start();
+            let mut next_poll = Instant::now() + poll_clock.poll_delay();
             while remaining_jobs > 0 {
                 // Handle external request to terminate the job
                 if kill.load(Ordering::Relaxed) {
@@ -77,7 +79,8 @@ pub(super) fn run(
 
                 // Wait for a job to be complete or a timeout
                 // TODO: Move to recv_deadline once available
-                match results_receiver.recv_timeout(poll_clock.poll_delay()) {
+                let poll_delay = next_poll.saturating_duration_since(Instant::now());
+                match results_receiver.recv_timeout(poll_delay) {
                     // A worker had to abort its current job as a result of running
                     // out of memory, send it back to other workers.
                     Ok(Err(JobError::Killed(job))) => {
@@ -99,10 +102,13 @@ pub(super) fn run(
                     }
 
                     // System monitor wakeup
-                    Err(RecvTimeoutError::Timeout) => match monitor_server.update() {
-                        MonitorStatus::Running => {}
-                        MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
-                    },
+                    Err(RecvTimeoutError::Timeout) => {
+                        match monitor_server.update() {
+                            MonitorStatus::Running => {}
+                            MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
+                        }
+                        next_poll = Instant::now() + poll_clock.poll_delay();
+                    }
 
                     // No worker threads left to send job results
                     //
-- 
2.43.0


From b914cc5d4070b79e13fa436878e4b01b256f708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 13/29] fix: measure jobs whatever the amount and encoding of
 their output

---
 cmakeperf/src/measure/worker.rs | 51 +++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 0b7cdc2..3d4ea83 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -12,6 +12,7 @@ use std::{
         mpsc::Sender,
         RwLockReadGuard,
     },
+    thread::JoinHandle,
     time::Instant,
 };
 use sysinfo::{Pid, Process, Signal, System};
@@ -60,6 +61,7 @@ fn process_job(
     }
     let start = measure_time.then(Instant::now);
     let mut process = start_job(&job)?;
+    let stdpipes = StdPipes::new(&mut process);
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
@@ -84,7 +86,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(stdpipes, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -232,9 +234,36 @@ impl ProcessTree {
     }
 }
 
+/// Output of a process, read in the background as it comes in because processes
+/// block once they have filled up a pipe that nobody reads from
+struct StdPipes {
+    stdout: JoinHandle<Vec<u8>>,
+    stderr: JoinHandle<Vec<u8>>,
+}
+//
+impl StdPipes {
+    /// Start reading the output of a process
+    fn new(process: &mut Child) -> Self {
+        fn read_stdpipe(pipe: Option<impl Read + Send + 'static>) -> JoinHandle<Vec<u8>> {
+            let mut pipe =
+                pipe.expect("Process output/error should have been piped and available");
+            std::thread::spawn(move || {
+                let mut buf = Vec::new();
+                pipe.read_to_end(&mut buf)
+                    .expect("Reading from pipes should be infaillible");
+                buf
+            })
+        }
+        Self {
+            stdout: read_stdpipe(process.stdout.take()),
+            stderr: read_stdpipe(process.stderr.take()),
+        }
+    }
+}
+
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
-    let stdpipe_report = report_stdpipe(process);
+fn report_process(stdpipes: StdPipes, exit_status: ExitStatus) -> Result<(), JobError> {
+    let stdpipe_report = report_stdpipe(stdpipes);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
         if !stdpipe_report.is_empty() {
@@ -250,16 +279,14 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
-            .expect("Reading from pipes should be infaillible");
-        buf
+fn report_stdpipe(stdpipes: StdPipes) -> String {
+    fn join_stdpipe(pipe: JoinHandle<Vec<u8>>) -> String {
+        // Nothing forces compilers to emit valid Unicode
+        let buf = pipe.join().expect("Background reader panicked");
+        String::from_utf8_lossy(&buf).into_owned()
     }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+    let stdout = join_stdpipe(stdpipes.stdout);
+    let stderr = join_stdpipe(stdpipes.stderr);
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0


From a6aa2a2e910c49243d0b0f27d1c5c3f4e3b7a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:31 +0000
Subject: [PATCH 14/29] Give external verification tools access to the stop
 flags and the out-of-memory killer (cfg crofiler_verif_measure)

---
 cmakeperf/src/measure/main.rs | 7 +++++++
 cmakeperf/src/measure/mod.rs  | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index afcbd50..8b8cd96 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -479,6 +479,13 @@ impl<'flags> StopServer<'flags> {
     }
 }
 
+/// Access for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif_measure)]
+pub mod verif {
+    include!(concat!(env!("CROFILER_VERIF"), "/measure_main.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/cmakeperf/src/measure/mod.rs b/cmakeperf/src/measure/mod.rs
index 6dd5010..899f1d0 100644
--- a/cmakeperf/src/measure/mod.rs
+++ b/cmakeperf/src/measure/mod.rs
@@ -25,6 +25,11 @@ use sysinfo::{MemoryRefreshKind, ProcessRefreshKind, RefreshKind, System};
 
 pub use self::main::{assume_oversubscription, MeasureError};
 
+/// Access for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif_measure)]
+pub use self::main::verif;
+
 /// Ongoing full-build profile measurement process
 pub struct Measurement {
     /// Handle to the main measurement thread
-- 
2.43.0


From 4adbf8714a298e8756ce702bfa0da519f7c50d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 15/29] fix: a rooted name without scopes keeps its leading ::
 at every display depth

It announces a recursion depth of 0, but at that depth its :: was dropped.
---
 cpparser/src/subparsers/names/scopes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index c8ae1aa..19128da 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -348,12 +348,12 @@ impl CustomDisplay for NestedNameSpecifierView<'_> {
     }
 
     fn display_impl(&self, f: &mut Formatter<'_>, state: &DisplayState) -> Result<(), fmt::Error> {
-        if state.can_recurse() {
+        if state.can_recurse() || self.scopes().is_empty() {
             if self.is_rooted() {
                 write!(f, "::")?;
             }
             self.scopes().display_impl(f, state)?;
-        } else if !self.scopes().is_empty() {
+        } else {
             write!(f, "…::")?;
         }
         Ok(())
-- 
2.43.0


From e9d21df579761a2f0610a4be873ed0c4b18d687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 16/29] fix: display a variadic function without parameters as
 (...)

It was shown as (, ...), which does not parse, and as () at depth 0,
which is the depth it announces.
---
 cpparser/src/subparsers/functions.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 02c0a1f..23dd20c 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -385,9 +385,14 @@ impl CustomDisplay for FunctionSignatureView<'_> {
             write!(f, "[abi:{abi}]")?;
         }
 
-        self.parameters().display_impl(f, state)?;
-        if state.can_recurse() && self.variadic() {
-            write!(f, ", ...")?;
+        let parameters = self.parameters();
+        parameters.display_impl(f, state)?;
+        if self.variadic() {
+            if parameters.is_empty() {
+                write!(f, "...")?;
+            } else if state.can_recurse() {
+                write!(f, ", ...")?;
+            }
         }
         write!(f, ")")?;
 
-- 
2.43.0


From 8bfc0e2063b8bf633435c9796e49c786ce236193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 17/29] fix: do not panic on doubled symbols that are no binary
 operator

parse_binary_expr_middle reached unreachable!() on names like a<1**b> or a<1,,2>.
---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a9c3fe0..4dec50d 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -111,7 +111,7 @@ impl EntityParser {
                     AddPlus | SubNeg => false,
                     AndRef | Or | AssignEq | Less => true,
                     Greater => allow_greater,
-                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => unreachable!(),
+                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => false,
                 }
             }
             // This may need to be revised as C++ evolves
-- 
2.43.0


From a6cea6a50bc42b2ac85194abc97ea7e5e4ff0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 18/29] fix: only read the keyword new as the start of a
 new-expression

Identifiers that begin with new, like newt, were read as new t.
---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index 4dec50d..9061afa 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -147,7 +147,7 @@ impl EntityParser {
         let rooted = opt(tag("::")).map(|o| o.is_some());
         separated_pair(
             rooted,
-            tag("new").and(multispace0),
+            EntityParser::keyword_parser("new").and(multispace0),
             tuple((
                 opt(|s| self.parse_function_call_imut(s)).terminated(multispace0),
                 (|s| self.parse_type_like_imut(s)).terminated(multispace0),
-- 
2.43.0


From 36ce03fea0b5403ab849d53da8459a98a88495c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:46 +0000
Subject: [PATCH 19/29] Give external verification tools access to the text
 user interface (cfg crofiler_verif)

---
 src/ui/tui/mod.rs           | 9 +++++++++
 src/ui/tui/trace/display.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index a1ca0a8..8ed4975 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -23,6 +23,15 @@ use std::{
 };
 use syslog::Facility;
 
+/// Access to the contents of this module for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("CROFILER_VERIF"), "/tui.rs"));
+}
+
 /// Run the analysis using the textual user interface
 pub fn run(args: CliArgs) {
     // Set up logging using syslog
diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index adefacd..7344666 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -24,6 +24,15 @@ use std::{
 };
 use unicode_width::UnicodeWidthStr;
 
+/// Access to the contents of this module for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("CROFILER_VERIF"), "/tui_display.rs"));
+}
+
 /// Truth that profiling is in progress
 pub fn is_profiling(cursive: &mut Cursive) -> bool {
     with_state(cursive, |state| !state.profile_stack.is_empty())
-- 
2.43.0


From 3c4f4f1752c920b592cff16bcb6019689a4c72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:37 +0000
Subject: [PATCH 20/29] fix: Keep the sort order of activity descriptions when
 switching duration units

---
 src/ui/tui/trace/display.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index 7344666..c10b9f7 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -574,8 +574,10 @@ fn add_duration_cols_and_sort(
             sort_config.key = sort_config.key.into_flat();
         }
     }
-    table.set_default_column(sort_config.key.into_column(duration_display));
-    table.sort();
+    table.sort_by(
+        sort_config.key.into_column(duration_display),
+        sort_config.order[sort_config.key as usize],
+    );
 }
 
 /// Hierarchical profile column
-- 
2.43.0


From 8af8e0c9e74849367ca1a31b302286bf00121f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:37 +0000
Subject: [PATCH 21/29] fix: Do not crash when displaying a profile on a narrow
 terminal

---
 src/ui/tui/trace/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index c10b9f7..a4560cd 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -790,7 +790,7 @@ fn description_column_width(profile_kind: ProfileKind, terminal_width: u16) -> u
         ProfileKind::Hierarchical => DURATION_WIDTH + 4,
         ProfileKind::Flat => 0,
     };
-    terminal_width - durations_scroll_width as u16
+    terminal_width.saturating_sub(durations_scroll_width as u16)
 }
 
 /// Construct the cursive view used to provide the detailed name of an activity,
-- 
2.43.0


From cab7e93ce3065dec6bb8dc72a3a7ba3f3f5d8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:37 +0000
Subject: [PATCH 22/29] fix: Do not crash when profiling activities of zero
 duration

---
 src/ui/tui/trace/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..331bad5 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -9,5 +9,7 @@ use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
-    Finite::<Duration>::from_inner(100.0 / total_duration)
+    // There is no meaningful percentage of a zero duration, display it as 0%
+    let norm = 100.0 / total_duration;
+    Finite::<Duration>::from_inner(if norm.is_finite() { norm } else { 0.0 })
 }
-- 
2.43.0


From effa9fc786be22ab977387b59ddf52806f2bdb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:21 +0000
Subject: [PATCH 23/29] fix: Do not crash when displaying a profile without
 activities

---
 src/ui/tui/trace/display.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index a4560cd..e62aa20 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -235,7 +235,9 @@ fn show_profile(
     );
 
     // Initialize the description
-    update_description(cursive, selected_activity);
+    if let Some(selected_activity) = selected_activity {
+        update_description(cursive, selected_activity);
+    }
 }
 
 /// Register a new profile in the TUI state and return the information needed to
@@ -322,7 +324,7 @@ fn make_profile_view(
     description_width: u16,
     display_config: ProfileDisplay,
     update_description: impl Fn(&mut Cursive, ActivityTraceId) + Send + Sync + 'static,
-) -> (impl View, ActivityTraceId) {
+) -> (impl View, Option<ActivityTraceId>) {
     // Set up the children activity table
     let items = make_profile_data(kind, &activity_infos, activity_descs);
     let update_desc = select(table_name.clone(), update_description);
@@ -337,11 +339,13 @@ fn make_profile_view(
     add_duration_cols_and_sort(&mut table, kind, display_config);
     table.set_selected_row(0);
 
-    // Determine the ID of the currently selected activity
-    let selected_activity = table
-        .borrow_item(table.item().expect("There should be a selected item"))
-        .expect("Selected item index should be OK")
-        .id;
+    // Determine the ID of the currently selected activity, if any
+    let selected_activity = table.item().map(|index| {
+        table
+            .borrow_item(index)
+            .expect("Selected item index should be OK")
+            .id
+    });
 
     // Let user zoom in on child activities in hierarchical profiles
     match kind {
-- 
2.43.0


From 3cf6bdde3931614769e95f1eb9c11dfd0c40448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:29 +0000
Subject: [PATCH 24/29] Give external verification tools access to the table of
 builds (cfg crofiler_verif)

---
 src/ui/tui/build/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/tui/build/mod.rs b/src/ui/tui/build/mod.rs
index f8f0569..2060b99 100644
--- a/src/ui/tui/build/mod.rs
+++ b/src/ui/tui/build/mod.rs
@@ -12,6 +12,15 @@ use cmakeperf::{
 use cursive::{views::Dialog, Cursive, CursiveRunnable};
 use std::path::Path;
 
+/// Access to the contents of this module for external verification tools
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    #[allow(unused_imports)]
+    pub use super::display::display_profile;
+    include!(concat!(env!("CROFILER_VERIF"), "/tui_build.rs"));
+}
+
 /// Perform full-build profiling, from which the user can go to trace profiling
 pub fn profile(cursive: &mut CursiveRunnable, args: CliArgs) {
     // Load the compilation database
-- 
2.43.0


From b2903ca2a494d3863f450be13ef236d61d4fae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:29 +0000
Subject: [PATCH 25/29] fix: Show relative paths of one component without a
 leading separator

---
 src/ui/display/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index fe20a46..e3cf46a 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -184,16 +184,19 @@ fn display_components(
         buffer.pop();
     }
 
-    // Add back components and associated separators
+    // Add back components and associated separators, without a separator before
+    // the first component of a relative path
+    let mut need_separator = accepted_front > 0 || elided_components > 0;
     for _ in 0..accepted_back {
         let component = components
             .next()
             .expect("There should be more components than accepted components");
         let component = component.as_ref();
-        if component != root_component {
+        if need_separator && component != root_component {
             buffer.push(PATH_SEPARATOR);
         }
         buffer.push_str(component);
+        need_separator = component != root_component;
     }
 
     // Render path
-- 
2.43.0


From 8e3fa17a0d27856f5bc8dac3908899ee70538ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:29 +0000
Subject: [PATCH 26/29] fix: Do not crash when displaying a build profile on a
 narrow terminal

---
 src/ui/tui/build/display.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 92e9954..f7dddbb 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -44,7 +44,9 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = terminal_width as usize - non_file_width;
+    let file_width = (terminal_width as usize)
+        .saturating_sub(non_file_width)
+        .max(1);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
-- 
2.43.0


From 6a534750ae8ec84af487027a4372e6c9d5acc519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:28 +0000
Subject: [PATCH 27/29] fix: Do not hang when clang outputs a lot while
 measuring a trace

---
 src/ui/tui/trace/measure.rs | 59 ++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 87d6a9f..0736928 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -13,6 +13,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc,
     },
+    thread::JoinHandle,
     time::Duration,
 };
 use wait_timeout::ChildExt;
@@ -299,6 +300,12 @@ struct CancelableClang {
     /// Child process
     child: Child,
 
+    /// Reader of the child's standard output
+    stdout: JoinHandle<Vec<u8>>,
+
+    /// Reader of the child's standard error
+    stderr: JoinHandle<Vec<u8>>,
+
     /// Cancelation flag
     canceled: Arc<AtomicBool>,
 }
@@ -307,7 +314,7 @@ impl CancelableClang {
     /// Start clang and set up cancelation, emit an error message if it goes wrong
     fn start(mut command: Command) -> Result<(Self, CancelTrigger), String> {
         // Start clang process
-        let child = match command
+        let mut child = match command
             .stdin(Stdio::null())
             .stdout(Stdio::piped())
             .stderr(Stdio::piped())
@@ -319,12 +326,22 @@ impl CancelableClang {
             }
         };
 
+        // Read outputs as they come, so that clang is never blocked by full pipes
+        let stdout = read_in_background(child.stdout.take().expect("Failed to access stdout"));
+        let stderr = read_in_background(child.stderr.take().expect("Failed to access stderr"));
+
         // Set up cancelation
         let canceled = Arc::new(AtomicBool::new(false));
         let cancel_trigger = CancelTrigger(canceled.clone());
 
         // Return all of that
-        Ok((Self { child, canceled }, cancel_trigger))
+        let clang = Self {
+            child,
+            stdout,
+            stderr,
+            canceled,
+        };
+        Ok((clang, cancel_trigger))
     }
 
     /// Wait for the process to terminate or be canceled
@@ -356,7 +373,11 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
+            Ok(Some(error_status)) => Err(child_failure_message(
+                self.stdout.join().unwrap_or_default(),
+                self.stderr.join().unwrap_or_default(),
+                error_status,
+            )),
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill() {
@@ -386,28 +407,20 @@ impl CancelTrigger {
     }
 }
 
-/// Generate an error message for a failing Child process
+/// Read everything that comes out of a pipe on a background thread
 ///
-/// Ignore failure to extract info from stdout and stderr as that's difficult
-/// to handle and ultimately these are just nice-to-have details.
+/// Ignore read errors as the output is just used for error messages.
 ///
-fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
-    let mut stdout = Vec::new();
-    let mut stderr = Vec::new();
-    std::mem::drop(
-        child
-            .stdout
-            .take()
-            .expect("Failed to access stdout")
-            .read_to_end(&mut stdout),
-    );
-    std::mem::drop(
-        child
-            .stderr
-            .take()
-            .expect("Failed to access stderr")
-            .read_to_end(&mut stderr),
-    );
+fn read_in_background(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+    std::thread::spawn(move || {
+        let mut output = Vec::new();
+        std::mem::drop(pipe.read_to_end(&mut output));
+        output
+    })
+}
+
+/// Generate an error message for a failing Child process
+fn child_failure_message(stdout: Vec<u8>, stderr: Vec<u8>, error_status: ExitStatus) -> String {
     let mut error = format!("clang time-trace run failed ({})", error_status);
     let append_pipe = |error: &mut String, is_first, stream_name: &str, stream_data| {
         write!(
-- 
2.43.0


From d5f9fc8c2a4b73f1e2d475f7984d1e67481824de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:28 +0000
Subject: [PATCH 28/29] fix: Wait for aborted clang processes before restoring
 the previous trace

---
 src/ui/tui/trace/measure.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 0736928..18746c3 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -381,7 +381,11 @@ impl CancelableClang {
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill() {
-                Ok(()) => Ok(true),
+                // Make sure clang is gone before anyone touches its output
+                Ok(()) => match self.child.wait() {
+                    Ok(_status) => Ok(true),
+                    Err(e) => Err(format!("Failed to await clang: {e}")),
+                },
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
                         || e.kind() == io::ErrorKind::NotFound =>
-- 
2.43.0


From 32f331f1cfe8e46a16cc273213975639bb460225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:34 +0000
Subject: [PATCH 29/29] fix: Also terminate processes that the monitor has not
 seen yet when a build is stopped

---
 cmakeperf/src/measure/worker.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 3d4ea83..50a05bc 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -15,7 +15,7 @@ use std::{
     thread::JoinHandle,
     time::Instant,
 };
-use sysinfo::{Pid, Process, Signal, System};
+use sysinfo::{Pid, Process, ProcessRefreshKind, RefreshKind, Signal, System};
 use thiserror::Error;
 use wait_timeout::ChildExt;
 
@@ -73,6 +73,11 @@ fn process_job(
                 let system = monitor_client.system();
                 tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
+                    // Processes may have started after the last monitor update
+                    let system = System::new_with_specifics(
+                        RefreshKind::new().with_processes(ProcessRefreshKind::new()),
+                    );
+                    tree.refresh(&system);
                     tree.kill(&system);
                     return Err(JobError::Killed(job));
                 } else {
-- 
2.43.0

