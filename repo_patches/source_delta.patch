From 8c694f003b527182bade07a79a150cd4673ef8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 01/22] verif: hook that compiles an external harness into the
 crate (cfg openraft_verif)

---
 openraft/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openraft/src/lib.rs b/openraft/src/lib.rs
index b1d01a3..7efe5db 100644
--- a/openraft/src/lib.rs
+++ b/openraft/src/lib.rs
@@ -68,6 +68,15 @@ pub mod type_config;
 #[cfg(test)]
 mod feature_serde_test;
 
+/// Verification hook: compiles an external harness into the crate, so that it can reach
+/// crate-private items. Absent unless built with `--cfg openraft_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(openraft_verif)]
+#[doc(hidden)]
+pub mod verif_hook {
+    include!(env!("OPENRAFT_VERIF_HARNESS"));
+}
+
 pub use anyerror;
 pub use anyerror::AnyError;
 pub use openraft_macros::add_async_trait;
-- 
2.43.0


From b0aa57444ecbb0cd2482a0a96b9bd146ef39f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 02/22] fix: keep progress sorted when a value above the
 granted one is raised

VecProgress keeps the values greater than `granted` in descending order and derives the
granted value from prefixes of that order. An update of a value that was already greater
than `granted` did not restore the order, so a later update could report a value as granted
that no quorum had reached, e.g. with 5 voters: 4->80, 2->30, 2->90, 0->85 granted 85,
which only 2 of 5 voters had reached.
---
 openraft/src/progress/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..c4270c9 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,16 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        if new_gt_granted {
+            // Keep the elements greater than `granted` in descending order, also when the previous value is
+            // already greater than `granted`.
             let new_index = self.move_up(index);
 
+            // The ids with a value greater than `granted` do not change: neither does `granted`.
+            if !prev_le_granted {
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From 92878cf7435fd4180f106e520e6f3b05754c05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 03/22] fix: policy based purge never reverts a later scheduled
 purge

---
 openraft/src/engine/handler/log_handler/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..a0a5fcf 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -55,7 +55,10 @@ where C: RaftTypeConfig
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn schedule_policy_based_purge(&mut self) {
         if let Some(purge_upto) = self.calc_purge_upto() {
-            self.update_purge_upto(purge_upto);
+            // Purging to a later log may be already scheduled, but postponed, e.g., by a replication using it.
+            if Some(&purge_upto) > self.state.purge_upto() {
+                self.update_purge_upto(purge_upto);
+            }
         }
     }
 
-- 
2.43.0


From 729aab8e70fae69e6d408e805bc89ec2c8848be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 04/22] fix: installing a snapshot removes a conflicting log
 that ends before it

---
 .../src/engine/handler/following_handler/mod.rs    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..a97ae0e 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -304,12 +304,14 @@ where C: RaftTypeConfig
             return None;
         }
 
-        let local = self.state.get_log_id(snap_last_log_id.index);
-        if let Some(local) = local {
-            if local != snap_last_log_id {
-                // Conflict, delete all non-committed logs.
-                self.truncate_logs(self.state.committed().next_index());
-            }
+        let conflict = match self.state.get_log_id(snap_last_log_id.index) {
+            Some(local) => local != snap_last_log_id,
+            // The local log ends before the snapshot. It still conflicts if its last log id is greater.
+            None => self.state.last_log_id() > Some(&snap_last_log_id),
+        };
+        if conflict {
+            // Conflict, delete all non-committed logs.
+            self.truncate_logs(self.state.committed().next_index());
         }
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
-- 
2.43.0


From 0b84b03089f693583aac6fcd3fae7396622b29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 05/22] fix: a conflicting snapshot does not truncate the
 committed membership log

---
 openraft/src/engine/handler/following_handler/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index a97ae0e..662664a 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -311,7 +311,9 @@ where C: RaftTypeConfig
         };
         if conflict {
             // Conflict, delete all non-committed logs.
-            self.truncate_logs(self.state.committed().next_index());
+            // The commit position may fall behind the committed membership, which is committed too.
+            let membership_next = self.state.membership_state.committed().log_id().next_index();
+            self.truncate_logs(std::cmp::max(self.state.committed().next_index(), membership_next));
         }
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
-- 
2.43.0


From 21325623e8d727be438e84f8307af6426542ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 06/22] fix: out of order I/O completion does not move the
 flushed position backward

---
 openraft/src/core/raft_core.rs                |  6 +++---
 .../src/raft_state/io_state/io_progress.rs    | 20 +++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..a66e44b 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1398,7 +1398,7 @@ where
             }
 
             Notification::LocalIO { io_id } => {
-                self.engine.state.io_state.io_progress.flush(io_id);
+                self.engine.state.io_state.io_progress.try_flush(io_id);
 
                 match io_id {
                     IOId::Log(log_io_id) => {
@@ -1478,7 +1478,7 @@ where
                             func_name!()
                         );
 
-                        self.engine.state.io_state_mut().io_progress.flush(io_id);
+                        self.engine.state.io_state_mut().io_progress.try_flush(io_id);
 
                         if let Some(meta) = meta {
                             let st = self.engine.state.io_state_mut();
@@ -1788,7 +1788,7 @@ where
                 let io_id = command.get_submit_io();
 
                 if let Some(io_id) = io_id {
-                    self.engine.state.io_state.io_progress.submit(io_id);
+                    self.engine.state.io_state.io_progress.try_submit(io_id);
                 }
 
                 // Just forward a state machine command to the worker.
diff --git a/openraft/src/raft_state/io_state/io_progress.rs b/openraft/src/raft_state/io_state/io_progress.rs
index 325c973..e7ee2bb 100644
--- a/openraft/src/raft_state/io_state/io_progress.rs
+++ b/openraft/src/raft_state/io_state/io_progress.rs
@@ -113,6 +113,26 @@ where
         tracing::debug!("RAFT_io_progress: {}", self);
     }
 
+    /// Update the `submit` cursor only if it does not move backward.
+    ///
+    /// A snapshot to install may fall behind the logs that are already submitted.
+    pub(crate) fn try_submit(&mut self, new_submitted: T) {
+        if self.submitted.as_ref() <= Some(&new_submitted) {
+            self.submit(new_submitted);
+        }
+    }
+
+    /// Update the `flush` cursor only if it does not move backward.
+    ///
+    /// I/Os may not complete in the order they are submitted, e.g., `append()` reports completion with
+    /// a callback, while a later `save_vote()` completes before it returns, and a snapshot is installed
+    /// by another task.
+    pub(crate) fn try_flush(&mut self, new_flushed: T) {
+        if self.flushed.as_ref() <= Some(&new_flushed) {
+            self.flush(new_flushed);
+        }
+    }
+
     pub(crate) fn accepted(&self) -> Option<&T> {
         self.accepted.as_ref()
     }
-- 
2.43.0


From d909f44af1c199e6211e2b7a9c56c0a42e09e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 07/22] fix: a snapshot built while a newer one is installed
 does not revert the snapshot position

---
 openraft/src/core/raft_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index a66e44b..c13f35f 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1467,8 +1467,11 @@ where
                         let last_log_id = meta.last_log_id;
                         self.engine.finish_building_snapshot(meta);
 
+                        // A newer snapshot may have been installed while this one was being built.
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        if last_log_id.as_ref() >= st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From fa05b0590cdf8bf6cec05532f1aebc9928d73146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 08/22] fix: a heartbeat rejected with a higher vote does not
 refresh the leader lease

---
 openraft/src/core/heartbeat/worker.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..2809568 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -93,6 +94,19 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                Ok(Ok(AppendEntriesResponse::HigherVote(higher))) => {
+                    // The target rejects this leader, it does not acknowledge the leadership.
+                    let res = self.tx_notification.send(Notification::HigherVote {
+                        target: self.target,
+                        higher,
+                        sender_vote: *heartbeat.session_id.leader_vote.deref(),
+                    });
+
+                    if res.is_err() {
+                        tracing::error!("{} failed to send a higher vote to RaftCore. quit", self);
+                        return;
+                    }
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From 655cf40582e287cb4d263759d1e653692185482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 09/22] fix: a postponed apply does not panic after a newer
 snapshot is accepted

---
 openraft/src/core/raft_core.rs  | 19 ++++++++++---------
 openraft/src/core/sm/command.rs | 20 ++++++++++----------
 openraft/src/core/sm/worker.rs  |  7 +++----
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index c13f35f..1f4420f 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -739,23 +739,23 @@ where
         self.engine.state.membership_state.effective().get_node(&leader_id).cloned()
     }
 
-    /// Apply log entries to the state machine, from the `first`(inclusive) to `last`(inclusive).
+    /// Apply log entries to the state machine, from index `since`(inclusive) to `last`(inclusive).
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) async fn apply_to_state_machine(
         &mut self,
-        first: LogId<C::NodeId>,
+        since: u64,
         last: LogId<C::NodeId>,
     ) -> Result<(), StorageError<C>> {
-        tracing::debug!("{}: {}..={}", func_name!(), first, last);
+        tracing::debug!("{}: {}..={}", func_name!(), since, last);
 
         debug_assert!(
-            first.index <= last.index,
-            "first.index {} should <= last.index {}",
-            first.index,
+            since <= last.index,
+            "since {} should <= last.index {}",
+            since,
             last.index
         );
 
-        let cmd = sm::Command::apply(first, last);
+        let cmd = sm::Command::apply(since, last);
         self.sm_handle.send(cmd).map_err(|e| StorageError::apply(last, AnyError::error(e)))?;
 
         Ok(())
@@ -1761,8 +1761,9 @@ where
                 already_committed,
                 upto,
             } => {
-                let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();
-                self.apply_to_state_machine(first, upto).await?;
+                // Do not look up the first log id by index: if this command is postponed, a snapshot accepted
+                // meanwhile may have purged it from the log ids in RaftState.
+                self.apply_to_state_machine(already_committed.next_index(), upto).await?;
             }
             Command::Replicate { req, target } => {
                 let node = self.replications.get(&target).expect("replication to target node exists");
diff --git a/openraft/src/core/sm/command.rs b/openraft/src/core/sm/command.rs
index 51e170e..a529251 100644
--- a/openraft/src/core/sm/command.rs
+++ b/openraft/src/core/sm/command.rs
@@ -36,8 +36,8 @@ where C: RaftTypeConfig
 
     /// Apply the log entries to the state machine.
     Apply {
-        /// The first log id to apply, inclusive.
-        first: LogIdOf<C>,
+        /// The index of the first log to apply, inclusive.
+        since: u64,
 
         /// The last log id to apply, inclusive.
         last: LogIdOf<C>,
@@ -74,9 +74,9 @@ where C: RaftTypeConfig
         Command::InstallFullSnapshot { io_id, snapshot }
     }
 
-    /// Applies log ids within the inclusive range `[first, last]`.
-    pub(crate) fn apply(first: LogIdOf<C>, last: LogIdOf<C>) -> Self {
-        Command::Apply { first, last }
+    /// Applies logs within the inclusive range `[since, last]`.
+    pub(crate) fn apply(since: u64, last: LogIdOf<C>) -> Self {
+        Command::Apply { since, last }
     }
 
     /// Return the IOId if this command submit any IO.
@@ -105,7 +105,7 @@ where C: RaftTypeConfig
             Command::BeginReceivingSnapshot { .. } => {
                 write!(f, "BeginReceivingSnapshot")
             }
-            Command::Apply { first, last } => write!(f, "Apply: [{},{}]", first, last),
+            Command::Apply { since, last } => write!(f, "Apply: [{},{}]", since, last),
             Command::Func { .. } => write!(f, "Func"),
         }
     }
@@ -124,7 +124,7 @@ where C: RaftTypeConfig
             Command::BeginReceivingSnapshot { .. } => {
                 write!(f, "BeginReceivingSnapshot")
             }
-            Command::Apply { first, last } => write!(f, "Apply: [{},{}]", first, last),
+            Command::Apply { since, last } => write!(f, "Apply: [{},{}]", since, last),
             Command::Func { .. } => write!(f, "Func"),
         }
     }
@@ -150,12 +150,12 @@ where C: RaftTypeConfig
                 },
             ) => s1.meta == s2.meta && io1 == io2,
             (
-                Command::Apply { first, last },
+                Command::Apply { since, last },
                 Command::Apply {
-                    first: first2,
+                    since: since2,
                     last: last2,
                 },
-            ) => first == first2 && last == last2,
+            ) => since == since2 && last == last2,
             (Command::Func { .. }, Command::Func { .. }) => false,
             _ => false,
         }
diff --git a/openraft/src/core/sm/worker.rs b/openraft/src/core/sm/worker.rs
index 72e4928..ff591e1 100644
--- a/openraft/src/core/sm/worker.rs
+++ b/openraft/src/core/sm/worker.rs
@@ -138,8 +138,8 @@ where
                     let _ = tx.send(Ok(snapshot_data));
                     // No response to RaftCore
                 }
-                Command::Apply { first, last } => {
-                    let resp = self.apply(first, last).await?;
+                Command::Apply { since, last } => {
+                    let resp = self.apply(since, last).await?;
                     let res = CommandResult::new(Ok(Response::Apply(resp)));
                     let _ = self.resp_tx.send(Notification::sm(res));
                 }
@@ -161,12 +161,11 @@ where
         }
     }
     #[tracing::instrument(level = "debug", skip_all)]
-    async fn apply(&mut self, first: LogIdOf<C>, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
+    async fn apply(&mut self, since: u64, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
         // TODO: prepare response before apply,
         //       so that an Entry does not need to be Clone,
         //       and no references will be used by apply
 
-        let since = first.index;
         let end = last.index + 1;
 
         let entries = self.log_reader.try_get_log_entries(since..end).await?;
-- 
2.43.0


From 4acd8e61b1093893cc0aa423b27db778fbe36707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 10/22] fix: an uncommitted membership in logs replaced by a
 snapshot is no longer effective

---
 .../src/engine/handler/following_handler/mod.rs     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 662664a..e9d426d 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -304,16 +304,23 @@ where C: RaftTypeConfig
             return None;
         }
 
-        let conflict = match self.state.get_log_id(snap_last_log_id.index) {
+        let local = self.state.get_log_id(snap_last_log_id.index);
+        let conflict = match local {
             Some(local) => local != snap_last_log_id,
             // The local log ends before the snapshot. It still conflicts if its last log id is greater.
             None => self.state.last_log_id() > Some(&snap_last_log_id),
         };
+
+        // The commit position may fall behind the committed membership, which is committed too.
+        let membership_next = self.state.membership_state.committed().log_id().next_index();
+
         if conflict {
             // Conflict, delete all non-committed logs.
-            // The commit position may fall behind the committed membership, which is committed too.
-            let membership_next = self.state.membership_state.committed().log_id().next_index();
             self.truncate_logs(std::cmp::max(self.state.committed().next_index(), membership_next));
+        } else if local.is_none() {
+            // The snapshot replaces all local logs. An uncommitted membership in these logs may conflict with the
+            // leader, and is no longer effective.
+            self.state.membership_state.truncate(membership_next);
         }
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
-- 
2.43.0


From 61ebec363c922f1bbe4f905bade351d6974b9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 11/22] fix: a leader removed by a committed membership may
 still change membership until it steps down

---
 openraft/src/engine/handler/replication_handler/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index bb438a7..82ad015 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -60,8 +60,10 @@ where C: RaftTypeConfig
             self.state.server_state == ServerState::Leader,
             "Only leader is allowed to call update_effective_membership()"
         );
+        // A leader removed from the membership keeps leading until it steps down.
         debug_assert!(
-            self.state.is_leader(&self.config.id),
+            self.state.vote_ref().is_committed()
+                && self.state.vote_ref().leader_id().voted_for() == Some(self.config.id),
             "Only leader is allowed to call update_effective_membership()"
         );
 
-- 
2.43.0


From 927bc1dfdb7e062dbb2d2abe737dd2251e282a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 12/22] fix: a leader that has started a new election no longer
 acts as the leader it was

The engine keeps its Leader while it is a candidate for a greater vote. Getting its LeaderHandler then violated a
debug assertion, e.g. in the main loop of RaftCore right after Trigger::elect() on a leader. Without debug assertions
the node kept proposing logs with the previous term, after the last log id of the candidate was fixed.
---
 openraft/src/engine/engine_impl.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..c5caa8e 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -744,20 +744,14 @@ where C: RaftTypeConfig
 
     pub(crate) fn leader_handler(&mut self) -> Result<LeaderHandler<C>, ForwardToLeader<C>> {
         let leader = match self.leader.as_mut() {
-            None => {
+            // A leader that has started a new election has a greater vote and does not act as a leader any more.
+            Some(x) if x.committed_vote_ref().deref() >= self.state.vote_ref() => x,
+            _ => {
                 tracing::debug!("this node is NOT a leader: {:?}", self.state.server_state);
                 return Err(self.state.forward_to_leader());
             }
-            Some(x) => x,
         };
 
-        debug_assert!(
-            leader.committed_vote_ref().deref() >= self.state.vote_ref(),
-            "leader.vote({}) >= state.vote({})",
-            leader.committed_vote_ref(),
-            self.state.vote_ref()
-        );
-
         Ok(LeaderHandler {
             config: &mut self.config,
             leader,
-- 
2.43.0


From baa1b827e9c3d6687090ead1eeb0a394522e263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 13/22] fix: drop a snapshot being received when a chunk cannot
 be received completely

The writer may have written a part of the chunk, or stands elsewhere. A chunk
received later would be written at a wrong position.
---
 openraft/src/network/snapshot_transport.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index f2b4c3e..ec51a43 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -200,8 +200,11 @@ mod tokio_rt {
             }
 
             {
-                let s = streaming.as_mut().unwrap();
+                // Take the stream out: if receiving fails or is cancelled half-way, it is unknown what has been
+                // written and where the writer stands. Then the stream is dropped and the sender has to start over.
+                let mut s = streaming.take().unwrap();
                 s.receive(req).await?;
+                *streaming = Some(s);
             }
 
             tracing::info!("Done received snapshot chunk");
-- 
2.43.0


From 2eba715e971161160c338f54ef7b1aed3402f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 14/22] fix: a restarted leader does not go on leading unless
 it is the only node

A leader replicates logs before they are flushed locally. If it crashes it may
have lost logs that other nodes hold. If it went on leading with the same vote it
would propose other entries with the log ids that it has already used.
---
 openraft/src/docs/faq/faq.md   |  2 +-
 openraft/src/raft/mod.rs       |  3 ++-
 openraft/src/raft_state/mod.rs | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/openraft/src/docs/faq/faq.md b/openraft/src/docs/faq/faq.md
index e0c426e..60511eb 100644
--- a/openraft/src/docs/faq/faq.md
+++ b/openraft/src/docs/faq/faq.md
@@ -6,7 +6,7 @@
 - Optionally, In one term there could be more than one leaders to be established, in order to reduce election conflict. See: std mode and adv mode leader id: [`leader_id`][];
 - Openraft stores committed log id: See: [`RaftLogStorage::save_committed()`][];
 - Openraft optimized `ReadIndex`: no `blank log` check: [`Linearizable Read`][].
-- A restarted Leader will stay in Leader state if possible;
+- A restarted Leader will stay in Leader state if it is the only node of the cluster;
 - Does not support single step membership change. Only joint is supported.
 
 
diff --git a/openraft/src/raft/mod.rs b/openraft/src/raft/mod.rs
index a44d121..5100df5 100644
--- a/openraft/src/raft/mod.rs
+++ b/openraft/src/raft/mod.rs
@@ -268,10 +268,11 @@ where C: RaftTypeConfig
 
         let eng_config = EngineConfig::new(id, config.as_ref());
 
-        let state = {
+        let mut state = {
             let mut helper = StorageHelper::new(&mut log_store, &mut state_machine);
             helper.get_initial_state().await?
         };
+        state.revert_leader_upon_restart(&id);
 
         let engine = Engine::new(state, eng_config);
 
diff --git a/openraft/src/raft_state/mod.rs b/openraft/src/raft_state/mod.rs
index 5ae3682..eaee3e7 100644
--- a/openraft/src/raft_state/mod.rs
+++ b/openraft/src/raft_state/mod.rs
@@ -382,6 +382,25 @@ where C: RaftTypeConfig
         self.is_leading(id) && self.vote.is_committed()
     }
 
+    /// Give up the leadership this node had before it restarted, unless it is the only node.
+    ///
+    /// A leader replicates logs without waiting for them to be flushed locally. Thus other nodes may
+    /// hold logs of this leadership that are lost by the restart. If it went on as the leader, it
+    /// would propose other entries with the same log ids. It has to be elected again.
+    pub(crate) fn revert_leader_upon_restart(&mut self, id: &C::NodeId) {
+        if !self.is_leader(id) {
+            return;
+        }
+
+        if self.membership_state.effective().membership().nodes().count() <= 1 {
+            return;
+        }
+
+        let mut vote = *self.vote_ref();
+        vote.committed = false;
+        self.vote = Leased::without_last_update(vote);
+    }
+
     /// Create a Leader using the state of the local `Acceptor`: `Engine.state`.
     ///
     /// This is used when building a Leader without an election,
-- 
2.43.0


From 9eafc908b2c4d3bef3c11e2700ccf2bdd68056e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 15/22] fix: a node that is not a voter does not elect itself
 when leadership is transferred to it

---
 openraft/src/core/raft_core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 1f4420f..904e931 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1252,7 +1252,8 @@ where
                     tracing::info!("Transfer Leader from: {}, to {}", current_leader_vote, to);
 
                     self.engine.state.vote.disable_lease();
-                    if self.id == to {
+                    // Only a voter can be elected.
+                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&self.id) {
                         self.engine.elect();
                     }
                 }
-- 
2.43.0


From 13afe9cd2261188321363d4625d381b0e290ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 16/22] fix: accept the ack of a snapshot that is newer than
 the one in flight

---
 openraft/src/progress/inflight/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/inflight/mod.rs b/openraft/src/progress/inflight/mod.rs
index 42b7afe..d61cacf 100644
--- a/openraft/src/progress/inflight/mod.rs
+++ b/openraft/src/progress/inflight/mod.rs
@@ -116,7 +116,8 @@ where C: RaftTypeConfig
                 }
             }
             Inflight::Snapshot { last_log_id } => {
-                debug_assert_eq!(&upto, last_log_id);
+                // A newer snapshot may have been built and sent instead.
+                debug_assert!(&upto >= last_log_id);
                 *self = Inflight::None;
             }
         }
-- 
2.43.0


From fd1960d86f0e5c315b8047f5a912726379a88763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 17/22] fix: stop replication when this node is no longer the
 leader

The replication tasks kept running until they saw a higher vote. Meanwhile the
local log may be overwritten by another leader: a task would send logs that do not
follow the previous log id it sends, and the receiver ends up with a log that is
not the one of any leader. Or it found no log at all and panicked.
---
 openraft/src/core/raft_core.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 904e931..c517df7 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -874,6 +874,12 @@ where
             tracing::debug!("queued commands: end...");
         }
 
+        // The replication tasks read the log of this node. Once it is no longer the leader, the log may be changed by
+        // another leader, and must not be sent on behalf of the previous leadership.
+        if self.engine.leader.is_none() && !self.replications.is_empty() {
+            self.remove_all_replication().await;
+        }
+
         while let Some(cmd) = self.engine.output.pop_command() {
             let res = self.run_command(cmd).await?;
 
@@ -1767,8 +1773,10 @@ where
                 self.apply_to_state_machine(already_committed.next_index(), upto).await?;
             }
             Command::Replicate { req, target } => {
-                let node = self.replications.get(&target).expect("replication to target node exists");
-                let _ = node.tx_repl.send(req);
+                // If there is no such replication, this node is no longer the leader.
+                if let Some(node) = self.replications.get(&target) {
+                    let _ = node.tx_repl.send(req);
+                }
             }
             Command::BroadcastTransferLeader { req } => self.broadcast_transfer_leader(req).await,
 
-- 
2.43.0


From 318b11b280a271b5b93130cb1ec94220115a3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 18/22] fix: ignore a heartbeat acknowledgement of a node that
 has been removed

A heartbeat worker that is shutting down may have sent a heartbeat of the new
membership. The leader panicked upon its answer.
---
 openraft/src/engine/handler/replication_handler/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index 82ad015..081aedc 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -116,11 +116,11 @@ where C: RaftTypeConfig
     pub(crate) fn update_leader_clock(&mut self, node_id: C::NodeId, t: InstantOf<C>) {
         tracing::debug!(target = display(node_id), t = display(t.display()), "{}", func_name!());
 
-        let granted = *self
-            .leader
-            .clock_progress
-            .increase_to(&node_id, Some(t))
-            .expect("it should always update existing progress");
+        // A heartbeat worker that is shutting down may report for a node that has been removed.
+        let granted = match self.leader.clock_progress.increase_to(&node_id, Some(t)) {
+            Ok(granted) => *granted,
+            Err(_) => return,
+        };
 
         tracing::debug!(
             granted = display(granted.as_ref().map(|x| x.display()).display()),
-- 
2.43.0


From fe86c3051eb1d2f26c77676b9a391888cb6ee2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 19/22] fix: do not transfer leadership to a node that is not a
 voter or to the leader itself

Such a node never becomes leader, while this leader stops serving.
---
 openraft/src/engine/engine_impl.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index c5caa8e..be6bcc6 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -609,6 +609,13 @@ where C: RaftTypeConfig
     pub(crate) fn trigger_transfer_leader(&mut self, to: C::NodeId) {
         tracing::info!(to = display(to), "{}", func_name!());
 
+        // A node that is not a voter never becomes leader, and the leader itself already is: this leader would stop
+        // serving, and there may be no one to replace it.
+        if to == self.config.id || !self.state.membership_state.effective().is_voter(&to) {
+            tracing::warn!(to = display(to), "{}: target is this node or is not a voter, ignore", func_name!());
+            return;
+        }
+
         let Some((mut lh, _)) = self.get_leader_handler_or_reject(None) else {
             tracing::info!(
                 to = display(to),
-- 
2.43.0


From 8cba713aa3617f633e3e0b850bed90ae5ba272d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 20/22] fix: a node can start when its committed log id is past
 its last log

A leader saves the committed log id once a quorum has flushed the log, which may
not include the leader itself. After a crash it could not start any more.
---
 openraft/src/storage/helper.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openraft/src/storage/helper.rs b/openraft/src/storage/helper.rs
index d188654..0ae5d05 100644
--- a/openraft/src/storage/helper.rs
+++ b/openraft/src/storage/helper.rs
@@ -83,6 +83,12 @@ where
             "get_initial_state"
         );
 
+        // A leader commits a log once a quorum has it, while the log may not be flushed on the leader itself.
+        // Such a log is lost by a crash and can not be re-applied.
+        if last_log_id < committed {
+            committed = last_log_id;
+        }
+
         // TODO: It is possible `committed < last_applied` because when installing snapshot,
         //       new committed should be saved, but not yet.
         if committed < last_applied {
-- 
2.43.0


From a39e89ed2005ad1f4368891314335efc19de52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 21/22] fix: the last chunk of a snapshot does not complete it
 while other chunks are missing

Two tasks may be sending the same snapshot for a moment, e.g., when the membership
changes. A chunk of one of them may arrive after the other has started over. The
snapshot was then installed with a hole.
---
 openraft/src/network/snapshot_transport.rs | 32 ++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index ec51a43..69d3d8b 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -203,7 +203,24 @@ mod tokio_rt {
                 // Take the stream out: if receiving fails or is cancelled half-way, it is unknown what has been
                 // written and where the writer stands. Then the stream is dropped and the sender has to start over.
                 let mut s = streaming.take().unwrap();
+                let offset = req.offset;
                 s.receive(req).await?;
+
+                if done && s.has_gap() {
+                    // Some chunks before the last one are missing. Start over.
+                    let mismatch = InstallSnapshotError::SnapshotMismatch(crate::error::SnapshotMismatch {
+                        expect: crate::SnapshotSegmentId {
+                            id: snapshot_meta.snapshot_id.clone(),
+                            offset: 0,
+                        },
+                        got: crate::SnapshotSegmentId {
+                            id: snapshot_meta.snapshot_id.clone(),
+                            offset,
+                        },
+                    });
+                    return Err(RaftError::APIError(mismatch));
+                }
+
                 *streaming = Some(s);
             }
 
@@ -257,6 +274,10 @@ mod tokio_rt {
                 ));
             }
             self.offset += req.data.len() as u64;
+
+            if req.offset <= self.received {
+                self.received = std::cmp::max(self.received, self.offset);
+            }
             Ok(req.done)
         }
     }
@@ -351,6 +372,10 @@ where C: RaftTypeConfig
     // This field will only be read when feature tokio-rt is on
     offset: u64,
 
+    /// All the data before this offset have been received.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    received: u64,
+
     /// The ID of the snapshot being written.
     snapshot_id: SnapshotId,
 
@@ -364,6 +389,7 @@ where C: RaftTypeConfig
     pub fn new(snapshot_id: SnapshotId, snapshot_data: Box<C::SnapshotData>) -> Self {
         Self {
             offset: 0,
+            received: 0,
             snapshot_id,
             snapshot_data,
         }
@@ -373,6 +399,12 @@ where C: RaftTypeConfig
         &self.snapshot_id
     }
 
+    /// Whether there is data missing before the position of the writer.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    fn has_gap(&self) -> bool {
+        self.received < self.offset
+    }
+
     /// Consumes the `Streaming` and returns the snapshot data.
     pub fn into_snapshot_data(self) -> Box<C::SnapshotData> {
         self.snapshot_data
-- 
2.43.0


From f35e9f20249c0f06c7a7a6ae5b726c116dec8633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 22/22] fix: rebuild the snapshot at start-up if it does not
 include the purged logs

A persistent state machine may be ahead of a log that lost unflushed entries. Such logs are purged when the node
starts. If the snapshot on disk is older than that, the logs in between are in neither of them: the node can not
bring another one up to date.
---
 openraft/src/storage/helper.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/openraft/src/storage/helper.rs b/openraft/src/storage/helper.rs
index 0ae5d05..4655014 100644
--- a/openraft/src/storage/helper.rs
+++ b/openraft/src/storage/helper.rs
@@ -130,19 +130,15 @@ where
 
         let snapshot = self.state_machine.get_current_snapshot().await?;
 
-        // If there is not a snapshot and there are logs purged, which means the snapshot is not persisted,
-        // we just rebuild it so that replication can use it.
-        let snapshot = match snapshot {
-            None => {
-                if last_purged_log_id.is_some() {
-                    let mut b = self.state_machine.get_snapshot_builder().await;
-                    let s = b.build_snapshot().await?;
-                    Some(s)
-                } else {
-                    None
-                }
-            }
-            s @ Some(_) => s,
+        // If there is not a snapshot that includes the purged logs, which means the snapshot is not persisted,
+        // or the logs purged above are not in it, we just rebuild it so that replication can use it.
+        let in_snapshot = snapshot.as_ref().and_then(|s| s.meta.last_log_id);
+        let snapshot = if in_snapshot < last_purged_log_id {
+            let mut b = self.state_machine.get_snapshot_builder().await;
+            let s = b.build_snapshot().await?;
+            Some(s)
+        } else {
+            snapshot
         };
         let snapshot_meta = snapshot.map(|x| x.meta).unwrap_or_default();
 
-- 
2.43.0

