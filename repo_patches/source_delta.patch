From b33db3f85f2b79ce4cba16291bdd05d78c6a5a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 01/16] fix: heartbeat refused with a higher vote is not an
 acknowledgement

A heartbeat answered with AppendEntriesResponse::HigherVote was reported
to RaftCore as HeartbeatProgress, thus a leader rejected by a quorum kept
publishing a fresh last_quorum_acked. Report the higher vote instead, as
log replication does.
---
 openraft/src/core/heartbeat/worker.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..325a643 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -93,6 +94,19 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                Ok(Ok(AppendEntriesResponse::HigherVote(higher))) => {
+                    // The target refused this leader: it is not an acknowledgement of the leadership.
+                    let res = self.tx_notification.send(Notification::HigherVote {
+                        target: self.target,
+                        higher,
+                        sender_vote: *heartbeat.session_id.leader_vote.deref(),
+                    });
+
+                    if res.is_err() {
+                        tracing::error!("{} failed to send a higher vote to RaftCore. quit", self);
+                        return;
+                    }
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From 8348ede54f03e9c9ce10e8cb60beae5f59096660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 02/16] fix: keep progress values above the granted one in
 order

An element already greater than the granted value was not moved when it
grew again. A later update then took the elements in front of it for
acknowledging a value they do not have, and the granted value (i.e. the
commit index, or the time of quorum contact) got ahead of the quorum.
---
 openraft/src/progress/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..6038c70 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,15 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
-            let new_index = self.move_up(index);
+        if !new_gt_granted {
+            return Ok(&self.granted);
+        }
+
+        // Values greater than `granted` have to be in order, even if this value already was one of them.
+        // Otherwise, the elements preceding `vector[i]` do not all have a value GE `vector[i]`.
+        let new_index = self.move_up(index);
 
+        if prev_le_granted {
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From 68e4d67db74b3d2fad51e33b5c7c1105277a9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 03/16] fix: do not look up the log id of a postponed Apply
 command

The engine may have installed a snapshot and forgotten the log ids while
the command waited for preceding IO to be flushed: RaftCore panicked.
---
 openraft/src/core/raft_core.rs  | 12 +++++++-----
 openraft/src/core/sm/command.rs |  8 ++++----
 openraft/src/core/sm/worker.rs  |  4 ++--
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..890ecd3 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -743,15 +743,15 @@ where
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) async fn apply_to_state_machine(
         &mut self,
-        first: LogId<C::NodeId>,
+        first: u64,
         last: LogId<C::NodeId>,
     ) -> Result<(), StorageError<C>> {
         tracing::debug!("{}: {}..={}", func_name!(), first, last);
 
         debug_assert!(
-            first.index <= last.index,
-            "first.index {} should <= last.index {}",
-            first.index,
+            first <= last.index,
+            "first index {} should <= last.index {}",
+            first,
             last.index
         );
 
@@ -1758,7 +1758,9 @@ where
                 already_committed,
                 upto,
             } => {
-                let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();
+                // This command may have been postponed, and by now the engine may have forgotten these log ids,
+                // e.g., when a snapshot is being installed. Do not look them up.
+                let first = already_committed.next_index();
                 self.apply_to_state_machine(first, upto).await?;
             }
             Command::Replicate { req, target } => {
diff --git a/openraft/src/core/sm/command.rs b/openraft/src/core/sm/command.rs
index 51e170e..d2af935 100644
--- a/openraft/src/core/sm/command.rs
+++ b/openraft/src/core/sm/command.rs
@@ -36,8 +36,8 @@ where C: RaftTypeConfig
 
     /// Apply the log entries to the state machine.
     Apply {
-        /// The first log id to apply, inclusive.
-        first: LogIdOf<C>,
+        /// The index of the first log to apply, inclusive.
+        first: u64,
 
         /// The last log id to apply, inclusive.
         last: LogIdOf<C>,
@@ -74,8 +74,8 @@ where C: RaftTypeConfig
         Command::InstallFullSnapshot { io_id, snapshot }
     }
 
-    /// Applies log ids within the inclusive range `[first, last]`.
-    pub(crate) fn apply(first: LogIdOf<C>, last: LogIdOf<C>) -> Self {
+    /// Applies logs from index `first` up to log id `last`, inclusive.
+    pub(crate) fn apply(first: u64, last: LogIdOf<C>) -> Self {
         Command::Apply { first, last }
     }
 
diff --git a/openraft/src/core/sm/worker.rs b/openraft/src/core/sm/worker.rs
index 72e4928..969aac7 100644
--- a/openraft/src/core/sm/worker.rs
+++ b/openraft/src/core/sm/worker.rs
@@ -161,12 +161,12 @@ where
         }
     }
     #[tracing::instrument(level = "debug", skip_all)]
-    async fn apply(&mut self, first: LogIdOf<C>, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
+    async fn apply(&mut self, first: u64, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
         // TODO: prepare response before apply,
         //       so that an Entry does not need to be Clone,
         //       and no references will be used by apply
 
-        let since = first.index;
+        let since = first;
         let end = last.index + 1;
 
         let entries = self.log_reader.try_get_log_entries(since..end).await?;
-- 
2.43.0


From baa6f553c6dd90864cd8e127f582c580b65cad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 04/16] fix: a snapshot built late does not move the snapshot
 progress backward

A greater snapshot can be installed while the snapshot is being built. The
progress going backward is visible in the metrics, and commands waiting for
the installed snapshot would wait forever.
---
 openraft/src/core/raft_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 890ecd3..ee436f7 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1467,8 +1467,11 @@ where
                         let last_log_id = meta.last_log_id;
                         self.engine.finish_building_snapshot(meta);
 
+                        // A snapshot installed while this one was being built may be a greater one.
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        if last_log_id.as_ref() > st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From b45db6d492cbc4353b19f0d051b9f102051951f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 05/16] fix: a leader that starts an election is not a leader
 any more

It kept working under its old vote: sending heartbeats that renew the lease
for which other nodes reject its vote requests, and dropping the replies, so
that the cluster made no progress forever.
---
 openraft/src/engine/engine_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..12a2641 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -222,6 +222,10 @@ where C: RaftTypeConfig
         // Safe unwrap(): it won't reject itself ˙–˙
         self.vote_handler().update_vote(&new_vote).unwrap();
 
+        // With a greater vote, the previous leadership of this node is over.
+        // Otherwise it would keep renewing the lease other nodes reject this candidate for.
+        self.leader = None;
+
         self.output.push_command(Command::SendVote {
             vote_req: VoteRequest::new(new_vote, last_log_id),
         });
-- 
2.43.0


From 16e36e25a926d3fa425c068dbb715d922e8933cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 06/16] fix: close replication when leadership is lost

Replication tasks of a former leader kept reading the log while it was
truncated, overwritten or purged: they panicked, or sent the entries of the
next leader under the old vote, following the log id they used to follow.
---
 openraft/src/core/raft_core.rs  | 23 +++++++++++++++++++++--
 openraft/src/replication/mod.rs | 10 +++++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index ee436f7..940483c 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -860,6 +860,18 @@ where
         }
     }
 
+    /// Inform all replication tasks to shut down, without waiting for them to quit.
+    fn close_replication(&mut self) {
+        if self.replications.is_empty() {
+            return;
+        }
+
+        tracing::info!("close replication: not a leader");
+
+        self.heartbeat_handle.shutdown();
+        self.replications.clear();
+    }
+
     /// Run as many commands as possible.
     ///
     /// If there is a command that waits for a callback, just return and wait for
@@ -874,6 +886,11 @@ where
             tracing::debug!("queued commands: end...");
         }
 
+        // Once this node is no longer a leader, the logs it replicates may be truncated, overwritten or purged.
+        if self.engine.leader.is_none() {
+            self.close_replication();
+        }
+
         while let Some(cmd) = self.engine.output.pop_command() {
             let res = self.run_command(cmd).await?;
 
@@ -1767,8 +1784,10 @@ where
                 self.apply_to_state_machine(first, upto).await?;
             }
             Command::Replicate { req, target } => {
-                let node = self.replications.get(&target).expect("replication to target node exists");
-                let _ = node.tx_repl.send(req);
+                // A postponed command may find the replication closed: the leadership it belongs to is over.
+                if let Some(node) = self.replications.get(&target) {
+                    let _ = node.tx_repl.send(req);
+                }
             }
             Command::BroadcastTransferLeader { req } => self.broadcast_transfer_leader(req).await,
 
diff --git a/openraft/src/replication/mod.rs b/openraft/src/replication/mod.rs
index fbbe46e..e3d8019 100644
--- a/openraft/src/replication/mod.rs
+++ b/openraft/src/replication/mod.rs
@@ -395,7 +395,15 @@ where
                 (vec![], r)
             } else {
                 // limited_get_log_entries will return logs smaller than the range [start, end).
-                let logs = self.log_reader.limited_get_log_entries(start, end).await?;
+                let res = self.log_reader.limited_get_log_entries(start, end).await;
+
+                // If the replication is closed, this node may no longer be the leader of this session,
+                // and what is just read may have been truncated, overwritten or purged.
+                if self.weak_tx_event.upgrade().is_none() {
+                    return Err(ReplicationClosed::new("closed while reading logs").into());
+                }
+
+                let logs = res?;
 
                 let first = *logs.first().map(|x| x.get_log_id()).unwrap();
                 let last = *logs.last().map(|x| x.get_log_id()).unwrap();
-- 
2.43.0


From c96dbb07991681ff3bbc10f28edd3e69e7be00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 07/16] fix: forward reads when transferring leadership

The heartbeats sent to confirm a read renewed the lease of the leader that
had already stopped accepting writes: with reads going on, a failed transfer
left the cluster without a working leader.
---
 openraft/src/core/raft_core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 940483c..f248baa 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -289,6 +289,14 @@ where
                 }
             };
 
+            // Like for a write: a leader transferring leadership has given up its lease,
+            // and the heartbeats to confirm a read would keep other nodes from electing the new leader.
+            if let Some(to) = lh.leader.get_transfer_to() {
+                let forward = lh.state.new_forward_to_leader(*to);
+                let _ = tx.send(Err(forward.into()));
+                return;
+            }
+
             let read_log_id = lh.get_read_log_id();
 
             // TODO: this applied is a little stale when being returned to client.
-- 
2.43.0


From 9f97c680cbf4d7333e9b57cfd5f9ac631714c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 08/16] hook: quorum and configuration arithmetic reachable
 under cfg(openraft_mc)

---
 openraft/src/lib.rs      |  5 +++
 openraft/src/mc_hooks.rs | 67 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 72 insertions(+)
 create mode 100644 openraft/src/mc_hooks.rs

diff --git a/openraft/src/lib.rs b/openraft/src/lib.rs
index b1d01a3..ce74042 100644
--- a/openraft/src/lib.rs
+++ b/openraft/src/lib.rs
@@ -8,6 +8,8 @@
 #![allow(clippy::result_large_err)]
 #![allow(clippy::type_complexity)]
 #![deny(unused_qualifications)]
+// `openraft_mc` is set by the model checking harness only.
+#![allow(unexpected_cfgs)]
 // TODO: Enable this when doc is complete
 // #![warn(missing_docs)]
 
@@ -43,6 +45,9 @@ mod summary;
 mod try_as_ref;
 mod vote;
 
+#[cfg(openraft_mc)]
+pub mod mc_hooks;
+
 pub(crate) mod engine;
 pub(crate) mod log_id_range;
 pub(crate) mod proposer;
diff --git a/openraft/src/mc_hooks.rs b/openraft/src/mc_hooks.rs
new file mode 100644
index 0000000..553072f
--- /dev/null
+++ b/openraft/src/mc_hooks.rs
@@ -0,0 +1,67 @@
+//! Access to quorum and configuration arithmetic for exhaustive checking from outside the crate.
+//!
+//! Only compiled with `--cfg openraft_mc`.
+
+use crate::error::ChangeMembershipError;
+use crate::progress::Progress;
+use crate::progress::VecProgress;
+use crate::proposer::LeaderQuorumSet;
+use crate::quorum::AsJoint;
+use crate::quorum::QuorumSet;
+use crate::ChangeMembers;
+use crate::EffectiveMembership;
+use crate::Membership;
+use crate::RaftTypeConfig;
+
+/// Is `ids` a quorum: as an effective configuration, a leader's quorum set and a joint of voter sets see it.
+pub fn is_quorum<C: RaftTypeConfig>(m: &Membership<C>, ids: &[C::NodeId]) -> [bool; 3] {
+    let em = EffectiveMembership::<C>::new(None, m.clone());
+    [
+        em.is_quorum(ids.iter()),
+        m.to_quorum_set().is_quorum(ids.iter()),
+        m.get_joint_config().as_joint().is_quorum(ids.iter()),
+    ]
+}
+
+/// Apply a membership change.
+pub fn change<C: RaftTypeConfig>(
+    m: &Membership<C>,
+    change: ChangeMembers<C>,
+    retain: bool,
+) -> Result<Membership<C>, ChangeMembershipError<C>> {
+    m.clone().change(change, retain)
+}
+
+/// A progress as a leader keeps it.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Tracker<C: RaftTypeConfig>(VecProgress<C::NodeId, u64, u64, LeaderQuorumSet<C>>);
+
+impl<C: RaftTypeConfig> Tracker<C> {
+    pub fn new(m: &Membership<C>) -> Self {
+        Self(VecProgress::new(m.to_quorum_set(), m.learner_ids(), || 0))
+    }
+
+    pub fn update(&mut self, id: &C::NodeId, v: u64) -> Result<u64, u64> {
+        self.0.update(id, v).copied().map_err(|x| *x)
+    }
+
+    pub fn increase_to(&mut self, id: &C::NodeId, v: u64) -> Result<u64, u64> {
+        self.0.increase_to(id, v).copied().map_err(|x| *x)
+    }
+
+    pub fn upgrade(self, m: &Membership<C>) -> Self {
+        Self(self.0.upgrade_quorum_set(m.to_quorum_set(), m.learner_ids(), || 0))
+    }
+
+    pub fn granted(&self) -> u64 {
+        *self.0.granted()
+    }
+
+    pub fn values(&self) -> Vec<(C::NodeId, u64)> {
+        self.0.iter().copied().collect()
+    }
+
+    pub fn is_voter(&self, id: &C::NodeId) -> Option<bool> {
+        self.0.is_voter(id)
+    }
+}
-- 
2.43.0


From 8b3737dbfbcdd8d1f71be080ca16cf2c49b76e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 09/16] fix: refuse a chunked snapshot with a missing part

A last chunk of a snapshot that reaches the receiver late, after it restarted and
a new session was begun with the same snapshot id, was written beyond the data
received so far and the snapshot, with a gap in it, was installed. The receiver
now reports SnapshotMismatch, and the sender starts over.
---
 openraft/src/network/snapshot_transport.rs | 27 ++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index f2b4c3e..e80aff6 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -199,6 +199,8 @@ mod tokio_rt {
                 *streaming = Some(Streaming::new(snapshot_id.clone(), snapshot_data));
             }
 
+            let req_offset = req.offset;
+
             {
                 let s = streaming.as_mut().unwrap();
                 s.receive(req).await?;
@@ -208,6 +210,23 @@ mod tokio_rt {
 
             if done {
                 let streaming = streaming.take().unwrap();
+
+                // A chunk before the last one is missing, e.g., a delayed last chunk arrives after a new
+                // session is started. Ask the sender to start over.
+                if streaming.received < streaming.offset {
+                    let mismatch = InstallSnapshotError::SnapshotMismatch(crate::error::SnapshotMismatch {
+                        expect: crate::SnapshotSegmentId {
+                            id: snapshot_meta.snapshot_id.clone(),
+                            offset: streaming.received,
+                        },
+                        got: crate::SnapshotSegmentId {
+                            id: snapshot_meta.snapshot_id,
+                            offset: req_offset,
+                        },
+                    });
+                    return Err(RaftError::APIError(mismatch));
+                }
+
                 let mut data = streaming.into_snapshot_data();
 
                 data.as_mut()
@@ -254,6 +273,9 @@ mod tokio_rt {
                 ));
             }
             self.offset += req.data.len() as u64;
+            if req.offset <= self.received {
+                self.received = std::cmp::max(self.received, self.offset);
+            }
             Ok(req.done)
         }
     }
@@ -348,6 +370,10 @@ where C: RaftTypeConfig
     // This field will only be read when feature tokio-rt is on
     offset: u64,
 
+    /// The end of the data received without any gap, starting from offset 0.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    received: u64,
+
     /// The ID of the snapshot being written.
     snapshot_id: SnapshotId,
 
@@ -361,6 +387,7 @@ where C: RaftTypeConfig
     pub fn new(snapshot_id: SnapshotId, snapshot_data: Box<C::SnapshotData>) -> Self {
         Self {
             offset: 0,
+            received: 0,
             snapshot_id,
             snapshot_data,
         }
-- 
2.43.0


From 41342cd62f5d8c5c60adda095c9489e76a21f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 10/16] fix: sledstore: install the state of a snapshot
 atomically

---
 stores/sledstore/src/lib.rs | 47 +++++++++++++------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 57eded1..0ce427c 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -145,9 +145,6 @@ fn write_logs_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
 fn read_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
     StorageError::read(&e)
 }
-fn write_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
-    StorageError::write(&e)
-}
 
 fn conflictable_txn_err<E: Error + 'static>(e: E) -> sled::transaction::ConflictableTransactionError<AnyError> {
     sled::transaction::ConflictableTransactionError::Abort(AnyError::new(&e))
@@ -166,14 +163,6 @@ impl ExampleStateMachine {
 
         Ok(m)
     }
-    async fn set_last_membership(&self, membership: StoredMembership<TypeConfig>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&membership).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_membership", value).map_err(write_err)?;
-
-        state_machine.flush_async().await.map_err(write_err)?;
-        Ok(())
-    }
     fn set_last_membership_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -193,14 +182,6 @@ impl ExampleStateMachine {
         };
         Ok(last_applied)
     }
-    async fn set_last_applied_log(&self, log_id: LogId<ExampleNodeId>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&log_id).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_applied_log", value).map_err(read_logs_err)?;
-
-        state_machine.flush_async().await.map_err(read_logs_err)?;
-        Ok(())
-    }
     fn set_last_applied_log_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -211,19 +192,23 @@ impl ExampleStateMachine {
         Ok(())
     }
     async fn from_serializable(sm: SerializableExampleStateMachine, db: Arc<sled::Db>) -> StorageResult<Self> {
-        let data_tree = data(&db);
-        let mut batch = sled::Batch::default();
-        for (key, value) in sm.data {
-            batch.insert(key.as_bytes(), value.as_bytes())
-        }
-        data_tree.apply_batch(batch).map_err(write_sm_err)?;
-        data_tree.flush_async().await.map_err(write_snap_err)?;
-
         let r = Self { db };
-        if let Some(log_id) = sm.last_applied_log {
-            r.set_last_applied_log(log_id).await?;
-        }
-        r.set_last_membership(sm.last_membership).await?;
+
+        // Data, last applied log id and membership are replaced together:
+        // a crash in between must not leave a mixture of the old and the new state.
+        let trans_res = (&state_machine(&r.db), &data(&r.db)).transaction(|(tx_state_machine, tx_data_tree)| {
+            for (key, value) in &sm.data {
+                r.insert_tx(tx_data_tree, key.clone(), value.clone())?;
+            }
+            if let Some(log_id) = sm.last_applied_log {
+                r.set_last_applied_log_tx(tx_state_machine, log_id)?;
+            }
+            r.set_last_membership_tx(tx_state_machine, sm.last_membership.clone())?;
+            Ok(())
+        });
+        trans_res.map_err(|e| StorageError::write(&e))?;
+
+        r.db.flush_async().await.map_err(write_sm_err)?;
 
         Ok(r)
     }
-- 
2.43.0


From 8b4c0eef65449019e12e24f11b03d2484950e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 11/16] fix: stores: a snapshot built late does not replace a
 newer one installed

---
 stores/memstore/src/lib.rs   |  6 +++-
 stores/rocksstore/src/lib.rs | 56 ++++++++++++++++++++++++++----------
 stores/sledstore/src/lib.rs  | 22 +++++++++++++-
 3 files changed, 67 insertions(+), 17 deletions(-)

diff --git a/stores/memstore/src/lib.rs b/stores/memstore/src/lib.rs
index 9de0315..b857964 100644
--- a/stores/memstore/src/lib.rs
+++ b/stores/memstore/src/lib.rs
@@ -303,7 +303,11 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<MemStateMachine> {
 
         {
             let mut current_snapshot = self.current_snapshot.write().await;
-            *current_snapshot = Some(snapshot);
+
+            // A newer snapshot may have been installed in the meanwhile: keep it.
+            if current_snapshot.as_ref().map(|s| s.meta.last_log_id) <= Some(meta.last_log_id) {
+                *current_snapshot = Some(snapshot);
+            }
         }
 
         tracing::info!(snapshot_size, "log compaction complete");
diff --git a/stores/rocksstore/src/lib.rs b/stores/rocksstore/src/lib.rs
index 4da9392..a79a337 100644
--- a/stores/rocksstore/src/lib.rs
+++ b/stores/rocksstore/src/lib.rs
@@ -15,6 +15,7 @@ use std::io::Cursor;
 use std::ops::RangeBounds;
 use std::path::Path;
 use std::sync::Arc;
+use std::sync::Mutex;
 
 use byteorder::BigEndian;
 use byteorder::ReadBytesExt;
@@ -107,6 +108,9 @@ pub struct StateMachine {
 pub struct RocksStateMachine {
     db: Arc<DB>,
     sm: StateMachine,
+
+    /// Held while replacing the stored snapshot, by a builder or an installation.
+    snapshot_lock: Arc<Mutex<()>>,
 }
 
 impl RocksStateMachine {
@@ -114,6 +118,7 @@ impl RocksStateMachine {
         let mut state_machine = Self {
             db,
             sm: Default::default(),
+            snapshot_lock: Default::default(),
         };
         let snapshot = state_machine.get_current_snapshot().await.unwrap();
 
@@ -125,6 +130,23 @@ impl RocksStateMachine {
 
         state_machine
     }
+
+    fn read_snapshot(&self) -> Result<Option<RocksSnapshot>, StorageError<TypeConfig>> {
+        let x = self
+            .db
+            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
+            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        let bytes = match x {
+            Some(x) => x,
+            None => return Ok(None),
+        };
+
+        let snapshot: RocksSnapshot =
+            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        Ok(Some(snapshot))
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -299,9 +321,18 @@ impl RaftSnapshotBuilder<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let lock = self.snapshot_lock.clone();
+            let _guard = lock.lock().unwrap();
+
+            // A newer snapshot may have been installed since the builder was created: keep it.
+            let current = self.read_snapshot()?;
+            if current.map(|s| s.meta.last_log_id) <= Some(meta.last_log_id) {
+                self.db
+                    .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                    .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+            }
+        }
 
         Ok(Snapshot {
             meta,
@@ -471,28 +502,23 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&new_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let _guard = self.snapshot_lock.lock().unwrap();
+            self.db
+                .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        }
 
         self.db.flush_wal(true).map_err(|e| StorageError::write_snapshot(Some(meta.signature()), &e))?;
         Ok(())
     }
 
     async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<TypeConfig>>, StorageError<TypeConfig>> {
-        let x = self
-            .db
-            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
-            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
-        let bytes = match x {
+        let snapshot = match self.read_snapshot()? {
             Some(x) => x,
             None => return Ok(None),
         };
 
-        let snapshot: RocksSnapshot =
-            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
         let data = snapshot.data.clone();
 
         Ok(Some(Snapshot {
diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 0ce427c..487952f 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -351,6 +351,26 @@ impl SledStore {
         }
     }
 
+    /// Store a snapshot that is just built, unless a newer one has been installed in the meanwhile.
+    async fn set_built_snapshot_(&self, snap: ExampleSnapshot) -> StorageResult<()> {
+        let write_err = |e| StorageError::write_snapshot(Some(snap.meta.signature()), &e);
+
+        let store_tree = store(&self.db);
+        let val = serde_json::to_vec(&snap).unwrap();
+        store_tree
+            .update_and_fetch(b"snapshot", |current| {
+                let newer = current.filter(|c| {
+                    let c: ExampleSnapshot = serde_json::from_slice(c).unwrap();
+                    c.meta.last_log_id > snap.meta.last_log_id
+                });
+                Some(newer.unwrap_or(&val).to_vec())
+            })
+            .map_err(write_err)?;
+
+        store_tree.flush_async().await.map_err(write_err)?;
+        Ok(())
+    }
+
     async fn set_current_snapshot_(&self, snap: ExampleSnapshot) -> StorageResult<()> {
         let store_tree = store(&self.db);
         let val = serde_json::to_vec(&snap).unwrap();
@@ -440,7 +460,7 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<SledStore> {
             data: data.clone(),
         };
 
-        self.set_current_snapshot_(snapshot).await?;
+        self.set_built_snapshot_(snapshot).await?;
 
         Ok(Snapshot {
             meta,
-- 
2.43.0


From 73a7acb3062b7508ec0bdbde28baeaece31b845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 12/16] fix: rocksstore: the last log id is not before the
 purged one

---
 stores/rocksstore/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/stores/rocksstore/src/lib.rs b/stores/rocksstore/src/lib.rs
index a79a337..b8d2cb7 100644
--- a/stores/rocksstore/src/lib.rs
+++ b/stores/rocksstore/src/lib.rs
@@ -358,10 +358,8 @@ impl RaftLogStorage<TypeConfig> for RocksLogStore {
 
         let last_purged_log_id = self.get_meta::<meta::LastPurged>()?;
 
-        let last_log_id = match last_log_id {
-            None => last_purged_log_id,
-            Some(x) => Some(x),
-        };
+        // Purging may have been interrupted after saving the last-purged log id, with logs before it left in place.
+        let last_log_id = std::cmp::max(last_log_id, last_purged_log_id);
 
         Ok(LogState {
             last_purged_log_id,
-- 
2.43.0


From d7683ae5e2af88188bd7c54b707ce6b551ceba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 13/16] openraft_mc: reach log id lists and follower progress
 for exhaustive checking

---
 openraft/src/mc_hooks.rs | 143 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 142 insertions(+), 1 deletion(-)

diff --git a/openraft/src/mc_hooks.rs b/openraft/src/mc_hooks.rs
index 553072f..d38b20f 100644
--- a/openraft/src/mc_hooks.rs
+++ b/openraft/src/mc_hooks.rs
@@ -1,17 +1,23 @@
-//! Access to quorum and configuration arithmetic for exhaustive checking from outside the crate.
+//! Access to quorum, configuration and log id arithmetic for exhaustive checking from outside the crate.
 //!
 //! Only compiled with `--cfg openraft_mc`.
 
 use crate::error::ChangeMembershipError;
+use crate::progress::entry::ProgressEntry;
+use crate::progress::Inflight;
 use crate::progress::Progress;
 use crate::progress::VecProgress;
 use crate::proposer::LeaderQuorumSet;
 use crate::quorum::AsJoint;
 use crate::quorum::QuorumSet;
+use crate::raft_state::LogStateReader;
+use crate::type_config::alias::LogIdOf;
 use crate::ChangeMembers;
 use crate::EffectiveMembership;
 use crate::Membership;
+use crate::RaftState;
 use crate::RaftTypeConfig;
+use crate::Vote;
 
 /// Is `ids` a quorum: as an effective configuration, a leader's quorum set and a joint of voter sets see it.
 pub fn is_quorum<C: RaftTypeConfig>(m: &Membership<C>, ids: &[C::NodeId]) -> [bool; 3] {
@@ -65,3 +71,138 @@ impl<C: RaftTypeConfig> Tracker<C> {
         self.0.is_voter(id)
     }
 }
+
+/// What a node knows of its own log, as its own queries tell.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Known<C: RaftTypeConfig>(RaftState<C>);
+
+impl<C: RaftTypeConfig> Known<C> {
+    pub fn of(st: RaftState<C>) -> Self {
+        Self(st)
+    }
+
+    pub fn append(&mut self, ids: &[LogIdOf<C>]) {
+        self.0.extend_log_ids(ids)
+    }
+
+    /// Append ids of one leader.
+    pub fn append_same(&mut self, ids: &[LogIdOf<C>]) {
+        self.0.extend_log_ids_from_same_leader(ids)
+    }
+
+    pub fn truncate(&mut self, since: u64) {
+        self.0.log_ids.truncate(since)
+    }
+
+    pub fn purge(&mut self, upto: &LogIdOf<C>) {
+        self.0.purge_log(upto)
+    }
+
+    pub fn set_snapshot(&mut self, last: Option<LogIdOf<C>>) {
+        self.0.snapshot_meta.last_log_id = last;
+    }
+
+    pub fn set_purge_upto(&mut self, upto: Option<LogIdOf<C>>) {
+        self.0.purge_upto = upto;
+    }
+
+    pub fn log_id(&self, index: u64) -> Option<LogIdOf<C>> {
+        self.0.get_log_id(index)
+    }
+
+    pub fn has(&self, id: &LogIdOf<C>) -> bool {
+        self.0.has_log_id(id)
+    }
+
+    pub fn first_conflict(&self, ids: &[LogIdOf<C>]) -> usize {
+        self.0.first_conflicting_index(ids)
+    }
+
+    pub fn last(&self) -> Option<LogIdOf<C>> {
+        self.0.last_log_id().copied()
+    }
+
+    pub fn purged(&self) -> Option<LogIdOf<C>> {
+        self.0.last_purged_log_id().copied()
+    }
+
+    pub fn purge_upto(&self) -> Option<LogIdOf<C>> {
+        self.0.purge_upto().copied()
+    }
+
+    pub fn committed(&self) -> Option<LogIdOf<C>> {
+        self.0.committed().copied()
+    }
+
+    pub fn snapshot(&self) -> Option<LogIdOf<C>> {
+        self.0.snapshot_last_log_id().copied()
+    }
+
+    /// What is done by now: applied, in a snapshot, purged.
+    pub fn done(&self) -> [Option<LogIdOf<C>>; 3] {
+        [self.0.io_applied().copied(), self.0.io_snapshot_last_log_id().copied(), self.0.io_purged().copied()]
+    }
+
+    pub fn vote(&self) -> Vote<C::NodeId> {
+        *self.0.vote_ref()
+    }
+
+    /// Where the entries of the last leader begin, and the last of them.
+    pub fn by_last_leader(&self) -> Vec<LogIdOf<C>> {
+        self.0.log_ids.by_last_leader().to_vec()
+    }
+
+    /// Committed and effective configuration.
+    pub fn memberships(&self) -> [EffectiveMembership<C>; 2] {
+        let m = &self.0.membership_state;
+        [m.committed().as_ref().clone(), m.effective().as_ref().clone()]
+    }
+}
+
+/// What a leader sends next.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Sending<C: RaftTypeConfig> {
+    Nothing,
+    /// The entries after the first, up to the second.
+    Logs(Option<LogIdOf<C>>, Option<LogIdOf<C>>),
+    Snapshot(Option<LogIdOf<C>>),
+}
+
+/// How far a follower is, as its leader keeps it.
+#[derive(Clone, Copy, Debug, PartialEq)]
+pub struct Search<C: RaftTypeConfig>(ProgressEntry<C>);
+
+impl<C: RaftTypeConfig> Search<C> {
+    /// Nothing known of a follower but that it does not have entries from `end` on.
+    pub fn new(end: u64) -> Self {
+        Self(ProgressEntry::empty(end))
+    }
+
+    /// Send if nothing is on the way.
+    pub fn send(&mut self, known: &Known<C>, max_entries: u64) {
+        let _ = self.0.next_send(&known.0, max_entries);
+    }
+
+    pub fn on_the_way(&self) -> Sending<C> {
+        match self.0.inflight {
+            Inflight::None => Sending::Nothing,
+            Inflight::Logs { log_id_range } => Sending::Logs(log_id_range.prev, log_id_range.last),
+            Inflight::Snapshot { last_log_id } => Sending::Snapshot(last_log_id),
+        }
+    }
+
+    /// The follower has everything up to this.
+    pub fn ack(&mut self, upto: Option<LogIdOf<C>>) {
+        self.0.update_matching(upto)
+    }
+
+    /// The follower does not have the leader's entry at this index.
+    pub fn conflict(&mut self, at: u64) {
+        self.0.update_conflicting(at)
+    }
+
+    /// What the follower is known to have, and one past what it may have.
+    pub fn range(&self) -> (Option<LogIdOf<C>>, u64) {
+        (self.0.matching, self.0.searching_end)
+    }
+}
-- 
2.43.0


From e780d7539183ff29cdaf28b8b6cdab0ded4b3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 14/16] fix: ignore a leader transfer to a node that cannot
 take over

---
 openraft/src/engine/engine_impl.rs | 12 ++++++++++++
 openraft/src/raft/trigger.rs       |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 12a2641..0ba901e 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -622,6 +622,18 @@ where C: RaftTypeConfig
             return;
         };
 
+        // Once leadership is marked as transferring, this Leader proposes nothing any more.
+        // If no other node can take over, the cluster would be unable to write for good.
+        let is_voter = lh.state.membership_state.effective().is_voter(&to);
+        if to == lh.config.id || !is_voter {
+            tracing::warn!(
+                to = display(to),
+                "{}: target is not another voter, ignore transfer Leader",
+                func_name!()
+            );
+            return;
+        }
+
         lh.transfer_leader(to);
     }
 }
diff --git a/openraft/src/raft/trigger.rs b/openraft/src/raft/trigger.rs
index a2d4065..07a72a2 100644
--- a/openraft/src/raft/trigger.rs
+++ b/openraft/src/raft/trigger.rs
@@ -80,7 +80,8 @@ where C: RaftTypeConfig
 
     /// Submit a command to inform RaftCore to transfer leadership to the specified node.
     ///
-    /// If this node is not a Leader, it is just ignored.
+    /// If this node is not a Leader, or the specified node is not another voter in the effective
+    /// membership, it is just ignored.
     pub async fn transfer_leader(&self, to: C::NodeId) -> Result<(), Fatal<C>> {
         self.raft_inner
             .send_external_command(ExternalCommand::TriggerTransferLeader { to }, "transfer_leader")
-- 
2.43.0


From 11c566db1f71080dfb85e03e7c57a4bed4df723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 15/16] fix: with_state_machine on a stopped node reports that
 it has stopped

---
 openraft/src/raft/core_state.rs |  9 ---------
 openraft/src/raft/mod.rs        | 12 +++++-------
 openraft/src/raft/raft_inner.rs |  5 -----
 3 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/openraft/src/raft/core_state.rs b/openraft/src/raft/core_state.rs
index a02e346..57cc02f 100644
--- a/openraft/src/raft/core_state.rs
+++ b/openraft/src/raft/core_state.rs
@@ -17,12 +17,3 @@ where C: RaftTypeConfig
     /// The RaftCore task has finished. The return value of the task is stored.
     Done(Result<Infallible, Fatal<C>>),
 }
-
-impl<C> CoreState<C>
-where C: RaftTypeConfig
-{
-    /// Returns `true` if the RaftCore task is still running.
-    pub(in crate::raft) fn is_running(&self) -> bool {
-        matches!(self, CoreState::Running(_))
-    }
-}
diff --git a/openraft/src/raft/mod.rs b/openraft/src/raft/mod.rs
index a44d121..a949542 100644
--- a/openraft/src/raft/mod.rs
+++ b/openraft/src/raft/mod.rs
@@ -918,13 +918,11 @@ where C: RaftTypeConfig
         tracing::debug!("{} receives result is error: {:?}", func_name!(), recv_res.is_err());
 
         let Ok(v) = recv_res else {
-            if self.inner.is_core_running() {
-                return Ok(Err(InvalidStateMachineType::new::<SM>()));
-            } else {
-                let fatal = self.inner.get_core_stopped_error("receiving rx from RaftCore", None::<&'static str>).await;
-                tracing::error!(error = debug(&fatal), "error when {}", func_name!());
-                return Err(fatal);
-            }
+            // The function is dropped without being run: either it is for another type of state machine,
+            // or this node has stopped, which may not have been noticed yet.
+            // In the latter case RaftCore does not answer.
+            self.with_raft_state(|_| ()).await?;
+            return Ok(Err(InvalidStateMachineType::new::<SM>()));
         };
 
         Ok(Ok(v))
diff --git a/openraft/src/raft/raft_inner.rs b/openraft/src/raft/raft_inner.rs
index 3c190da..435f227 100644
--- a/openraft/src/raft/raft_inner.rs
+++ b/openraft/src/raft/raft_inner.rs
@@ -135,11 +135,6 @@ where C: RaftTypeConfig
         Ok(())
     }
 
-    pub(in crate::raft) fn is_core_running(&self) -> bool {
-        let state = self.core_state.lock().unwrap();
-        state.is_running()
-    }
-
     /// Get the error that caused RaftCore to stop.
     pub(in crate::raft) async fn get_core_stopped_error(
         &self,
-- 
2.43.0


From 081ee343a3ba2a242daccd6f5bae52796601ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 16/16] fix: installing a snapshot reverts a membership of the
 logs it replaces

A follower whose log ends before the snapshot kept its non-committed
membership when the membership in the snapshot is at a smaller index.
---
 openraft/src/engine/handler/following_handler/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..96365b0 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -310,6 +310,11 @@ where C: RaftTypeConfig
                 // Conflict, delete all non-committed logs.
                 self.truncate_logs(self.state.committed().next_index());
             }
+        } else {
+            // The snapshot replaces all local logs: a non-committed membership in them may conflict with
+            // the snapshot and must not outlive them, even when the one in the snapshot is at a smaller index.
+            let since = self.state.membership_state.committed().log_id().next_index();
+            self.state.membership_state.truncate(since);
         }
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
-- 
2.43.0

