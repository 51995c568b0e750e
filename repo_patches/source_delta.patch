From fff3d55f8201de4e8d852d71919174134b5575d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:37 +0000
Subject: [PATCH 01/16] Verification hooks behind cfg(execgraph_verif)

---
 src/execgraph.rs | 3 +++
 src/lib.rs       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..4b6ff40 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -569,3 +569,6 @@ fn get_subgraph<'a, 'b: 'a>(
 
     Ok(filtered_subgraph)
 }
+
+#[cfg(execgraph_verif)]
+include!(concat!(env!("EXECGRAPH_VERIF_HOOKS"), "/execgraph.rs"));
diff --git a/src/lib.rs b/src/lib.rs
index 2538988..44b132d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,3 +16,9 @@ mod graphtheory;
 mod server;
 mod simpleringbuffer;
 mod time;
+
+#[cfg(execgraph_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("EXECGRAPH_VERIF_HOOKS"), "/lib.rs"));
+}
-- 
2.43.0


From 2b034efdb3033a07afb2cfa10124ec613c609df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 02/16] fix: cancelling a timer that already fired must not
 remove another timer

---
 src/server.rs         | 4 ++--
 src/time/timewheel.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..5bd4d2f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -119,8 +119,8 @@ impl<'a> State<'a> {
         loop {
             let ticked = self.timeouts.tick();
             let mut expired = vec![];
-            if let Some(mut ticked) = ticked {
-                for (_, transaction_id) in ticked.drain() {
+            if let Some(ticked) = ticked {
+                for (_, transaction_id) in ticked {
                     if let Some((_, cstate)) = self.connections.remove(&transaction_id) {
                         expired.push(cstate);
                     }
diff --git a/src/time/timewheel.rs b/src/time/timewheel.rs
index a237b32..e817f24 100644
--- a/src/time/timewheel.rs
+++ b/src/time/timewheel.rs
@@ -35,11 +35,14 @@ impl<Entry> TimeWheel<Entry> {
     }
 
     /// Move the wheel by one tick and return all entries in the current slot
-    pub fn tick(&self) -> Option<SlotMap<DefaultKey, Entry>> {
+    pub fn tick(&self) -> Option<Vec<(DefaultKey, Entry)>> {
         let old = self.current.fetch_add(1u8, Ordering::SeqCst);
         let index = old.wrapping_add(1u8) as usize;
         let mut guard = self.slots[index].lock().unwrap();
-        guard.take()
+        // Empty the slot in place. A fresh SlotMap would give out the keys of the timers
+        // that just fired a second time, and cancelling one of those (late) would then
+        // remove somebody else's timer.
+        guard.as_mut().map(|bucket| bucket.drain().collect())
     }
 
     /// Insert an entry at into the wheel at `dur` from now in the future
-- 
2.43.0


From 7703ab8e8c6b386e10216aaef6a24662c5ed3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 03/16] fix: racing cancellation requests must not weaken the
 cancellation token

---
 src/fancy_cancellation_token.rs | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/fancy_cancellation_token.rs b/src/fancy_cancellation_token.rs
index f3fcfcf..0e2a57a 100644
--- a/src/fancy_cancellation_token.rs
+++ b/src/fancy_cancellation_token.rs
@@ -77,24 +77,27 @@ impl CancellationToken {
     }
 
     pub fn cancel(&self, state: CancellationState) {
-        if let CancellationState::CancelledAfterTime(new_time) = state {
-            // if we're trying to do a soft cancel, check the current state
-            let existing = self.inner.receiver.borrow();
-            match *existing {
-                Some(CancellationState::CancelledAfterTime(existing_time))
-                    if new_time > existing_time =>
-                {
-                    // if the existing time is older than the new time, no need to do anything
-                    return;
-                }
-                Some(CancellationState::HardCancelled) => {
-                    // if we're already hard canceled, don't override it with a new soft cancel
-                    return;
+        // check and replace in one step, so that a racing request can't get in between
+        self.inner.sender.send_if_modified(|existing| {
+            if let CancellationState::CancelledAfterTime(new_time) = state {
+                // if we're trying to do a soft cancel, check the current state
+                match *existing {
+                    Some(CancellationState::CancelledAfterTime(existing_time))
+                        if new_time > existing_time =>
+                    {
+                        // if the existing time is older than the new time, no need to do anything
+                        return false;
+                    }
+                    Some(CancellationState::HardCancelled) => {
+                        // if we're already hard canceled, don't override it with a new soft cancel
+                        return false;
+                    }
+                    _ => {}
                 }
-                _ => {}
             }
-        }
-        self.inner.sender.send_replace(Some(state));
+            *existing = Some(state);
+            true
+        });
     }
 }
 
-- 
2.43.0


From cc0af715a2a179fba5705991b05fc892ad0a6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 04/16] fix: an /end request from another cluster job must not
 take the transaction away from its holder

---
 src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 5bd4d2f..964eb13 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -460,18 +460,18 @@ async fn end_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // If the RPC trying to end a job is coming from a different slurm jobid
+    // than the RPC which started the job, something fishy is going on, and
+    // the transaction stays with the job that started it.
     let cstate = {
         let (_transaction_id, cstate) = state
             .connections
-            .remove(&request.transaction_id)
+            .remove_if(&request.transaction_id, |_, cstate| {
+                cstate.slurm_jobid == runner_slurm_jobid
+            })
             .ok_or(AppError::NoSuchTransaction)?;
         cstate
     };
-    // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From 473c750ffd7a3332b53fe98fcf65e073b42facc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 05/16] fix: a repeated /begun request must not be recorded as
 a second start

---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 964eb13..c21bbfa 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -52,6 +52,7 @@ struct ConnectionState {
     timer_id: TimerID,
     disconnect_error_message: String,
     slurm_jobid: String,
+    begun: bool,
 }
 
 pub struct State<'a> {
@@ -387,6 +388,7 @@ async fn start_request_impl(
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
+            begun: false,
         },
     );
 
@@ -408,7 +410,7 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
+    let mut cstate = state
         .connections
         .get_mut(&request.transaction_id)
         .ok_or(AppError::NoSuchTransaction)?;
@@ -424,6 +426,11 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // a repeated /begun (e.g. the runner didn't get our first reply) is not a second start
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Ok((StatusCode::OK, "").into_response());
+    }
+
     state
         .tracker
         .send_started(
-- 
2.43.0


From bffca05c539c5f46da1a38420a43f9bd98dea737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 06/16] fix: taking a task while shutting down must not wrap
 the ready count

---
 src/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..dc16969 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -632,7 +632,8 @@ impl ReadyTrackerClient {
             let (task, _priority) = receiver.recv().await?;
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
-                x.num_ready -= 1;
+                // a shutdown sets num_ready to zero, possibly after we took the task
+                x.num_ready = x.num_ready.saturating_sub(1);
                 x.num_inflight += 1;
                 self.ratecounter_launch.update(std::time::Instant::now());
                 return Ok(task.id);
-- 
2.43.0


From 4935522ed2ad4cb13f65672b51e132db415ab573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 07/16] fix: the reaper must not panic when a soft-cancelled
 task ends at the same time

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index c21bbfa..5ca7780 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -137,7 +137,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // it may have ended since we looked
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From 517ddbfca6b29602aeb82eceee72ec8446693ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 08/16] fix: a transaction id that is in use must not be given
 out again

---
 src/server.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 5ca7780..56ed59a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -15,7 +15,7 @@ use axum::{
     response::{IntoResponse, Response},
     Extension, Json, Router, TypedHeader,
 };
-use dashmap::DashMap;
+use dashmap::{mapref::entry::Entry, DashMap};
 use hyper::{header::AUTHORIZATION, Body, Request, StatusCode};
 use petgraph::graph::{DiGraph, NodeIndex};
 use serde_json::json;
@@ -375,25 +375,28 @@ async fn start_request_impl(
     }.await?;
     let cmd = state.subgraph[node_id];
     cmd.call_preamble();
-    let transaction_id = rand::random::<u32>();
+    // Pick an id that no open transaction has
+    let slot = loop {
+        if let Entry::Vacant(slot) = state.connections.entry(rand::random::<u32>()) {
+            break slot;
+        }
+    };
+    let transaction_id = *slot.key();
 
     let timer_id = state.timeouts.insert(
         std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
         transaction_id,
     );
 
-    state.connections.insert(
-        transaction_id,
-        ConnectionState {
-            start_time_approx: std::time::Instant::now(),
-            timer_id,
-            cmd: cmd.clone(),
-            node_id,
-            disconnect_error_message: request.disconnect_error_message,
-            slurm_jobid: runner_slurm_jobid,
-            begun: false,
-        },
-    );
+    slot.insert(ConnectionState {
+        start_time_approx: std::time::Instant::now(),
+        timer_id,
+        cmd: cmd.clone(),
+        node_id,
+        disconnect_error_message: request.disconnect_error_message,
+        slurm_jobid: runner_slurm_jobid,
+        begun: false,
+    });
 
     Ok(StartResponse {
         transaction_id,
-- 
2.43.0


From 981b34ad620b3d3ce9653fa12470f700ca99f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 09/16] fix: a start request inside an /end request must not be
 served for a cancelled cluster job

---
 src/server.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 56ed59a..a6c85fa 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -330,6 +330,16 @@ async fn start_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    Ok(Postcard(
+        start_request_impl(state, request, runner_slurm_jobid).await?,
+    ))
+}
+
+async fn start_request_impl(
+    state: Arc<State<'static>>,
+    request: StartRequest,
+    runner_slurm_jobid: String,
+) -> Result<StartResponse, AppError> {
     // If this jobid has been scanceled, don't give out a job and just tell the runner
     // to shut down. This happens with a read lock on cancelled_slurm_jobids so if someone
     // is modying the set of cancelled_slurm_jobids, we have to wait till they finish to
@@ -341,16 +351,6 @@ async fn start_handler(
         }
     }
 
-    Ok(Postcard(
-        start_request_impl(state, request, runner_slurm_jobid).await?,
-    ))
-}
-
-async fn start_request_impl(
-    state: Arc<State<'static>>,
-    request: StartRequest,
-    runner_slurm_jobid: String,
-) -> Result<StartResponse, AppError> {
     // Grab the next task off the ready queue, which might pause if we're rate limited.
     // Hold the connection for up to ``HOLD_RATELIMITED_TIME`` (30 seconds), and then if
     // we're still rate limited, respond to the execgraph-remote with a "RateLimited"
-- 
2.43.0


From 3d85877c68264d0b59c64308f5fab971f772dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 10/16] fix: a second execute() must not run tasks downstream
 of one that failed in the first

---
 src/execgraph.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 4b6ff40..fefafcb 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -491,12 +491,26 @@ fn get_subgraph<'a, 'b: 'a>(
         None => deps.filter_map(|_n, w| Some(w), |_e, _w| Some(())),
     };
 
+    // A task that already ran within this session without success (or was skipped because it
+    // failed in a previous one) isn't run again, so whatever depends on it can't run either.
+    let blocked = {
+        let tc = transitive_closure_dag(&subgraph)?;
+        tc.edge_indices()
+            .filter_map(|e| tc.edge_endpoints(e))
+            .filter(|&(source, _)| {
+                let w = tc[source];
+                completed.contains(&w.key) && !logfile.has_success(&w.key)
+            })
+            .map(|(_, target)| target)
+            .collect::<HashSet<NodeIndex>>()
+    };
+
     let mut reused_old_keys = HashSet::new();
 
     // Now let's remove all edges from the dependency graph if the source has already finished
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
-        |_n, &w| {
+        |n, &w| {
             if completed.contains(&w.key) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
@@ -516,6 +530,15 @@ fn get_subgraph<'a, 'b: 'a>(
                 return None;
             }
 
+            // (failures of a previous session get their backref below, if they aren't re-run)
+            if blocked.contains(&n) && (rerun_failures || !logfile.has_failure(&w.key)) {
+                trace!(
+                    "Skipping {} because it's downstream of a task that failed within this session",
+                    w.key
+                );
+                return None;
+            }
+
             trace!("Retaining {} because it has not been run before", w.key);
             Some(w)
         },
-- 
2.43.0


From 3a52da5ec9e648a4bd7e2d94d1d680c18beb6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 11/16] fix: an /end request with more than 2 MB of output must
 not be refused

---
 src/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index a6c85fa..a10dd5f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,6 +10,7 @@ use crate::{
 };
 use anyhow::Result;
 use axum::{
+    extract::DefaultBodyLimit,
     headers::authorization::Bearer,
     middleware::Next,
     response::{IntoResponse, Response},
@@ -625,5 +626,7 @@ pub fn router(state: Arc<State<'static>>) -> Router {
             post(mark_slurm_job_cancelation),
         )
         .fallback(fallback)
+        // a task's output can be larger than the default limit of 2 MB
+        .layer(DefaultBodyLimit::disable())
         .layer(middleware.into_inner())
 }
-- 
2.43.0


From 1bfe6a8a9de75a2b987c75f34d0aed07057d2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:30 +0000
Subject: [PATCH 12/16] fix: a task that does not read its input must not crash
 or block its runner

The input was written before the output was collected: the runner panicked with a
broken pipe when the task ended early, and waited forever for a task that fills its
output before reading more input than fits a pipe.
---
 src/bin/execgraph-remote.rs | 11 +++++------
 src/localrunner.rs          | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..f4a8f25 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -390,12 +390,11 @@ async fn run_command(
         }
     };
 
-    // dump input into fd4 immediately
-    if let Some(p) = fd4_write_pipe {
-        let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
+    // dump input into fd4 immediately. The child doesn't have to read it, so this must neither
+    // hold up the collection of its output nor mind if the pipe is closed at the other end.
+    if let Some(mut p) = fd4_write_pipe {
+        let (_fd, buf) = start.fd_input.clone().unwrap();
+        tokio::spawn(async move { p.write_all(&buf).await });
     }
 
     let pid = child
diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..a226cd5 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -113,12 +113,11 @@ pub async fn run_local_process_loop(
             }
         };
 
-        // Dump input into fd4 immediately
-        if let Some(p) = fd4_write_pipe {
-            let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
+        // Dump input into fd4 immediately. The child doesn't have to read it, so this must neither
+        // hold up the collection of its output nor mind if the pipe is closed at the other end.
+        if let Some(mut p) = fd4_write_pipe {
+            let (_fd, buf) = cmd.fd_input.clone().unwrap();
+            tokio::spawn(async move { p.write_all(&buf).await });
         }
 
         // Get PID from fd3, or if it doesn't send one, just the child PID
-- 
2.43.0


From 9268cede3e885b394656a1fb5ab165be977ed2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:30 +0000
Subject: [PATCH 13/16] fix: an invalid byte on the values channel must not
 discard all of a task's values

---
 src/localrunner.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index a226cd5..8691232 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -257,12 +257,10 @@ impl ChildOutput {
             })
         }
 
-        std::str::from_utf8(&self.fd3bytes)
-            .map(|s| {
-                s.lines()
-                    .filter_map(|line| parse_line(line).ok())
-                    .collect::<ValueMaps>()
-            })
-            .unwrap_or_default()
+        // (like stdout and stderr, so that one invalid byte doesn't take all the other lines with it)
+        String::from_utf8_lossy(&self.fd3bytes)
+            .lines()
+            .filter_map(|line| parse_line(line).ok())
+            .collect::<ValueMaps>()
     }
 }
-- 
2.43.0


From 1f839f81f773fd9c378c769dc01b9cdb90e4bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 14/16] fix: a runner could wait forever at the end of an
 execution

A closed queue may still hold items. A receiver that loses the race for
the last of them waits for another one, after close() has notified the
receivers. Notify them again when an item is taken from a closed queue.
---
 src/sync.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sync.rs b/src/sync.rs
index dc16969..b8eae6a 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -630,6 +630,11 @@ impl ReadyTrackerClient {
         // the item, but instead we're using this tombstone idea.
         loop {
             let (task, _priority) = receiver.recv().await?;
+            if receiver.is_closed() {
+                // Another runner that lost the race for this item waits for the next one, and
+                // it may have started to do so after the queue was closed. Notify it again.
+                receiver.close();
+            }
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
                 // a shutdown sets num_ready to zero, possibly after we took the task
-- 
2.43.0


From 52598540414d2d00f4ebd176c9e32d03515390e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 15/16] fix: reopen a log whose last line was cut off by a kill

A killed process leaves whatever part of its last write reached the file.
A last line without newline that ends in the middle of an entry is ignored
when the log is read, and cut off (or, if it is complete, terminated)
before the log is written to again.
---
 src/logfile2.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..9897922 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -199,7 +199,14 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, nbytes, terminated) =
+            LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        // a process killed in the middle of a line has left a part of it: go on before that
+        f.set_len(nbytes)?;
+        f.seek(std::io::SeekFrom::Start(nbytes))?;
+        if !terminated {
+            f.write_all(&[b'\n'])?;
+        }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -281,7 +288,7 @@ impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, _, _) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -294,29 +301,38 @@ impl LogFile<LogFileRO> {
 }
 
 impl<T> LogFile<T> {
+    /// Returns also how many bytes the entries take, and whether the last of them ends with a
+    /// newline. An incomplete line after them, as a killed process leaves it, is no entry.
     fn load_runcounts(
         f: &mut std::fs::File,
-    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>)> {
+    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, u64, bool)> {
         let mut runcounts = HashMap::new();
         let mut header = None;
         let mut workflow_key = None;
 
         let mut reader = std::io::BufReader::new(f);
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut iline = 0;
+        let mut nbytes = 0;
+        let mut terminated = true;
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
-            if nbytes == 0 {
+            let len = reader.read_until(b'\n', &mut line)?;
+            if len == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            let value: LogEntry = serde_json::from_str(&line).map_err(|e| {
-                tracing::error!("Unable to parse {}th line. Got {}", iline, line);
-                e
-            })?;
+            let whole = line.ends_with(&[b'\n']);
+            let value: LogEntry = match serde_json::from_slice(&line) {
+                Ok(value) => value,
+                Err(e) if e.is_eof() && !whole => break,
+                Err(e) => {
+                    tracing::error!("Unable to parse {}th line. Got {}", iline, String::from_utf8_lossy(&line));
+                    return Err(LogfileError::JsonError(e));
+                }
+            };
             iline += 1;
+            nbytes += len as u64;
+            terminated = whole;
             match value {
                 LogEntry::Header(h) => {
                     match workflow_key {
@@ -386,7 +402,7 @@ impl<T> LogFile<T> {
             }
         }
 
-        Ok((runcounts, header))
+        Ok((runcounts, header, nbytes, terminated))
     }
 
     pub fn workflow_key(&self) -> Option<String> {
-- 
2.43.0


From 0f33fa66a7cf557230106b3081e5d68198dd184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 16/16] fix: two processes could hold the log's lock at once

The lock file is removed when its holder closes the log. Whoever had opened it before got the
lock on the removed file, which excludes nobody; and the last buffered lines were written only
after the removal.
---
 src/logfile2.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 9897922..638b634 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -185,11 +186,22 @@ impl LogFile<LogFileRW> {
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         // acquire the lock file and write something to it
         let lockf_path = path.as_ref().with_file_name(".wrk.lock");
-        let lockf = std::fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .open(&lockf_path)?;
-        lockf.try_lock(FileLockMode::Exclusive)?;
+        let lockf = loop {
+            let lockf = std::fs::OpenOptions::new()
+                .create(true)
+                .write(true)
+                .open(&lockf_path)?;
+            lockf.try_lock(FileLockMode::Exclusive)?;
+            // The previous holder may have removed the file since we opened it. A lock on a
+            // removed file excludes nobody: lock the one that has the name now.
+            let held = lockf.metadata()?;
+            match std::fs::metadata(&lockf_path) {
+                Ok(named) if named.dev() == held.dev() && named.ino() == held.ino() => break lockf,
+                Ok(_) => {}
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                Err(e) => return Err(LogfileError::IoError(e)),
+            }
+        };
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
@@ -470,7 +482,10 @@ impl<T> LogFile<T> {
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
         if let Some((_f, lockf_path)) = self.lockf.as_ref() {
-            drop(std::fs::remove_file(lockf_path));
+            // once the lock file is removed others may write: nothing may be left to write here
+            if self.f.flush().is_ok() {
+                drop(std::fs::remove_file(lockf_path));
+            }
         }
     }
 }
-- 
2.43.0

