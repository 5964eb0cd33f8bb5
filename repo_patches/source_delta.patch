From 3544d488f27a73cc56156487f9c961ef3822fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:43 +0000
Subject: [PATCH 01/20] fix: do not move a server's decided index back when it
 syncs with a new leader

A leader elected by a quorum that does not include the server with the highest
decided index announces a lower decided index in AcceptSync, and sync_log
overwrote the receiver's decided index with it.
---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..3bcfa66 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -316,6 +316,8 @@ where
         decided_idx: usize,
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
+        // The leader might not know of everything that this server has already decided.
+        let decided_idx = decided_idx.max(self.state_cache.decided_idx);
         self.state_cache.accepted_round = accepted_round;
         self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
-- 
2.43.0


From eb3d29ba6984fb8426ac85b7034bce407b734060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:11 +0000
Subject: [PATCH 02/20] fix: merge a delta snapshot with the snapshot of what
 was decided before the sync

sync_log updated the cached decided index before creating the server's own
decided snapshot, which a received delta is merged into. The snapshot then
covered entries up to the new decided index: entries the server does not have
(the read comes back empty) or undecided ones, besides those in the delta.
---
 omnipaxos/src/storage/internal_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 3bcfa66..a39d2e7 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -319,7 +319,6 @@ where
         // The leader might not know of everything that this server has already decided.
         let decided_idx = decided_idx.max(self.state_cache.decided_idx);
         self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -357,6 +356,8 @@ where
                 None => (),
             }
         }
+        // Updated last as a delta snapshot is merged with our snapshot up to the old decided index
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From 3116ee98300af073896d5c879485231d3a52ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:00 +0000
Subject: [PATCH 03/20] fix: do not count a StopSign twice when a follower that
 has it is synced

The common prefix sent in AcceptSync counted the StopSign, and the receiver
added it again on top of sync_idx: its accepted index ended one past the log,
acknowledged an entry that does not exist, and the reconfiguration was never
reported as decided.
---
 omnipaxos/src/sequence_paxos/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..75054da 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -417,11 +417,16 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // A StopSign in the common prefix is not part of the suffix, it is sent separately
+                let sync_idx = match self.internal_storage.get_stopsign() {
+                    Some(_) => common_prefix_idx.min(self.internal_storage.get_accepted_idx() - 1),
+                    None => common_prefix_idx,
+                };
                 let suffix = self
                     .internal_storage
-                    .get_suffix(common_prefix_idx)
+                    .get_suffix(sync_idx)
                     .expect(READ_ERROR_MSG);
-                (None, suffix, common_prefix_idx)
+                (None, suffix, sync_idx)
             };
         LogSync {
             decided_snapshot,
-- 
2.43.0


From 991a586499c327f1876e1e5965aaeb60d9774ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:30 +0000
Subject: [PATCH 04/20] fix: do not add new entries to an AcceptDecide sent
 before the follower's latest AcceptSync

---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..b73ca43 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // Entries accepted from now on must not be added to an AcceptDecide of the previous session
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From efc537cb2270b39ea3a4b011389699d18f8c1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:46 +0000
Subject: [PATCH 05/20] fix: never sync another server from an index that has
 been trimmed

---
 omnipaxos/src/sequence_paxos/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 75054da..2e81864 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -417,6 +417,9 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // Trimmed entries have been accepted by all servers and are thus a common prefix
+                let common_prefix_idx =
+                    common_prefix_idx.max(self.internal_storage.get_compacted_idx());
                 // A StopSign in the common prefix is not part of the suffix, it is sent separately
                 let sync_idx = match self.internal_storage.get_stopsign() {
                     Some(_) => common_prefix_idx.min(self.internal_storage.get_accepted_idx() - 1),
-- 
2.43.0


From 5f9989d17c1cb6b1866959c73058b395b221278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 06/20] fix: a new leader decides at least what the log it
 syncs with has decided

---
 omnipaxos/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..0c9d5ca 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -174,6 +174,8 @@ where
             })
             .max()
             .unwrap_or_default()
+            // The max promise might have been reset but its log is still what we sync with
+            .max(self.max_promise_meta.decided_idx)
     }
 
     pub fn get_promise_meta(&self, pid: NodeId) -> &PromiseMetaData {
-- 
2.43.0


From d7b47b8843d036ecd339b2e04331b14c0464067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:25 +0000
Subject: [PATCH 07/20] fix: acknowledge a resent StopSign again, the first
 acknowledgement might be lost

---
 omnipaxos/src/sequence_paxos/follower.rs | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index e363e33..f307252 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -110,18 +110,25 @@ where
     }
 
     pub(crate) fn handle_accept_stopsign(&mut self, acc_ss: AcceptStopSign) {
-        if self.check_valid_ballot(acc_ss.n)
-            && self.state == (Role::Follower, Phase::Accept)
-            && self.handle_sequence_num(acc_ss.seq_num, acc_ss.n.pid) == MessageStatus::Expected
-        {
-            // Flush entries before appending stopsign. The accepted index is ignored here as
-            // it will be updated when appending stopsign.
-            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
-            let new_accepted_idx = self
-                .internal_storage
-                .set_stopsign(Some(acc_ss.ss))
-                .expect(WRITE_ERROR_MSG);
-            self.reply_accepted(acc_ss.n, new_accepted_idx);
+        if self.check_valid_ballot(acc_ss.n) && self.state == (Role::Follower, Phase::Accept) {
+            match self.handle_sequence_num(acc_ss.seq_num, acc_ss.n.pid) {
+                MessageStatus::Expected => {
+                    // Flush entries before appending stopsign. The accepted index is ignored here as
+                    // it will be updated when appending stopsign.
+                    let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+                    let new_accepted_idx = self
+                        .internal_storage
+                        .set_stopsign(Some(acc_ss.ss))
+                        .expect(WRITE_ERROR_MSG);
+                    self.reply_accepted(acc_ss.n, new_accepted_idx);
+                }
+                MessageStatus::Outdated if self.accepted_reconfiguration() => {
+                    // The leader resends the StopSign until it is accepted: our reply might be lost.
+                    let accepted_idx = self.internal_storage.get_accepted_idx();
+                    self.reply_accepted(acc_ss.n, accepted_idx);
+                }
+                _ => (),
+            }
         }
     }
 
-- 
2.43.0


From acf83aa2e4525b9ac635bd3a245236dfa76304fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:23 +0000
Subject: [PATCH 08/20] fix: reading at the largest index, or an empty range at
 the StopSign, must not panic

---
 omnipaxos/src/omni_paxos.rs               |  2 +-
 omnipaxos/src/storage/internal_storage.rs | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..d5f9005 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -300,7 +300,7 @@ where
         match self
             .seq_paxos
             .internal_storage
-            .read(idx..idx + 1)
+            .read(idx..=idx)
             .expect("storage error while trying to read log entries")
         {
             Some(mut v) => v.pop(),
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index a39d2e7..e6d810c 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -93,11 +93,11 @@ where
     {
         let from_idx = match r.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(e) => *e + 1,
+            Bound::Excluded(e) => e.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let to_idx = match r.end_bound() {
-            Bound::Included(i) => *i + 1,
+            Bound::Included(i) => i.saturating_add(1),
             Bound::Excluded(e) => *e,
             Bound::Unbounded => self.get_accepted_idx(),
         };
@@ -150,6 +150,8 @@ where
                     self.stopsign_is_decided(),
                 )]))
             }
+            // an empty range that starts at the stopsign
+            (IndexEntry::StopSign(_), IndexEntry::Entry) => Ok(Some(vec![])),
             e => {
                 unimplemented!("{}", format!("Unexpected read combination: {:?}", e))
             }
@@ -164,15 +166,15 @@ where
     ) -> StorageResult<Option<IndexEntry>> {
         if idx < compacted_idx {
             Ok(Some(IndexEntry::Compacted))
+        } else if idx >= accepted_idx {
+            Ok(None)
         } else if idx + 1 < accepted_idx {
             Ok(Some(IndexEntry::Entry))
-        } else if idx + 1 == accepted_idx {
+        } else {
             match self.get_stopsign() {
                 Some(ss) => Ok(Some(IndexEntry::StopSign(ss))),
                 _ => Ok(Some(IndexEntry::Entry)),
             }
-        } else {
-            Ok(None)
         }
     }
 
-- 
2.43.0


From c9d69d5059327d69aa15f0f3441e4dc4584b92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:52 +0000
Subject: [PATCH 09/20] fix: reject cluster configurations with duplicate or
 zero node pids, and overflowing quorum sizes

---
 omnipaxos/src/omni_paxos.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index d5f9005..3153178 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -105,13 +105,21 @@ impl ClusterConfig {
         let num_nodes = self.nodes.len();
         valid_config!(num_nodes > 1, "Need more than 1 node");
         valid_config!(self.configuration_id != 0, "Configuration ID cannot be 0");
+        valid_config!(!self.nodes.contains(&0), "Node pids cannot be 0");
+        valid_config!(
+            self.nodes
+                .iter()
+                .enumerate()
+                .all(|(i, pid)| !self.nodes[..i].contains(pid)),
+            "Nodes must be distinct"
+        );
         if let Some(FlexibleQuorum {
             read_quorum_size,
             write_quorum_size,
         }) = self.flexible_quorum
         {
             valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
+                read_quorum_size.saturating_add(write_quorum_size) > num_nodes,
                 "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
             );
             valid_config!(
-- 
2.43.0


From 8881ec9a8e087cdeff9a184529641f3cb789dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:19 +0000
Subject: [PATCH 10/20] fix: count only members when trimming, pids need not be
 contiguous

---
 omnipaxos/src/sequence_paxos/mod.rs | 2 +-
 omnipaxos/src/util.rs               | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 2e81864..86d4e3f 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -141,7 +141,7 @@ where
     pub(crate) fn trim(&mut self, trim_idx: Option<usize>) -> Result<(), CompactionErr> {
         match self.state {
             (Role::Leader, _) => {
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx();
+                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx(&self.peers);
                 let trimmed_idx = match trim_idx {
                     Some(idx) if idx <= *min_all_accepted_idx => idx,
                     None => {
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 0c9d5ca..712559f 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -185,9 +185,13 @@ where
         }
     }
 
-    pub fn get_min_all_accepted_idx(&self) -> &usize {
-        self.accepted_indexes
+    /// The lowest index accepted by all of `peers` and the leader. Pids need not be contiguous, so
+    /// `accepted_indexes` might have slots that belong to no server.
+    pub fn get_min_all_accepted_idx(&self, peers: &[NodeId]) -> &usize {
+        peers
             .iter()
+            .chain(std::iter::once(&self.n_leader.pid))
+            .map(|pid| &self.accepted_indexes[Self::pid_to_idx(*pid)])
             .min()
             .expect("Should be all initialised to 0!")
     }
-- 
2.43.0


From aeb4c3a35d0dd97a34b67cd66337b37bfb4ca7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 11/20] fix: a server whose ballot exceeds its leader's after
 raising its priority must not keep following

---
 omnipaxos/src/ballot_leader_election.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a9c677..d29097a 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -220,6 +220,11 @@ impl BallotLeaderElection {
     }
 
     fn update_leader(&mut self) {
+        // Our own ballot can only exceed our leader if our priority was raised. Other servers that
+        // see it will follow us, so we must not keep following someone else.
+        if self.current_ballot > self.leader {
+            self.leader = self.current_ballot;
+        }
         let max_reply_ballot = self.heartbeat_replies.iter().map(|r| r.ballot).max();
         if let Some(max) = max_reply_ballot {
             if max > self.leader {
-- 
2.43.0


From 082c0d36b3cd0e1a1bce0351f217426093690fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:21 +0000
Subject: [PATCH 12/20] fix: forward a buffered StopSign, like buffered
 entries, to the leader a server starts to follow

---
 omnipaxos/src/sequence_paxos/follower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index f307252..aaf18f3 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -83,6 +83,9 @@ where
         if !proposals.is_empty() {
             self.forward_proposals(proposals);
         }
+        if let Some(ss) = self.buffered_stopsign.take() {
+            self.forward_stopsign(ss);
+        }
     }
 
     pub(crate) fn handle_acceptdecide(&mut self, acc_dec: AcceptDecide<T>) {
-- 
2.43.0


From 2191fb58f240c34aa13850811ebef865c2aac168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:09 +0000
Subject: [PATCH 13/20] fix: MemoryStorage reads of removed entries are empty,
 repeated trim is a no-op

---
 omnipaxos_storage/src/memory_storage.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/omnipaxos_storage/src/memory_storage.rs b/omnipaxos_storage/src/memory_storage.rs
index 48e451e..b6e228f 100644
--- a/omnipaxos_storage/src/memory_storage.rs
+++ b/omnipaxos_storage/src/memory_storage.rs
@@ -90,6 +90,10 @@ where
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
+        // Entries below the trimmed index do not exist anymore
+        if from < self.trimmed_idx || to < from {
+            return Ok(vec![]);
+        }
         let from = from - self.trimmed_idx;
         let to = to - self.trimmed_idx;
         Ok(self.log.get(from..to).unwrap_or(&[]).to_vec())
@@ -100,10 +104,7 @@ where
     }
 
     fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
-        Ok(match self.log.get((from - self.trimmed_idx)..) {
-            Some(s) => s.to_vec(),
-            None => vec![],
-        })
+        self.get_entries(from, self.trimmed_idx + self.log.len())
     }
 
     fn get_promise(&self) -> StorageResult<Option<Ballot>> {
@@ -120,6 +121,9 @@ where
     }
 
     fn trim(&mut self, trimmed_idx: usize) -> StorageResult<()> {
+        if trimmed_idx <= self.trimmed_idx {
+            return Ok(()); // Already removed
+        }
         let to_trim = (trimmed_idx - self.trimmed_idx).min(self.log.len());
         self.log.drain(0..to_trim);
         self.trimmed_idx = trimmed_idx;
-- 
2.43.0


From 0c2bbdaed72304b1a201473561a4b50d9853f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:09 +0000
Subject: [PATCH 14/20] fix: PersistentStorage returned other entries for a
 removed interval

---
 omnipaxos_storage/src/persistent_storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..a3dfb01 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -342,6 +342,9 @@ where
         let mut iter = self.db.raw_iterator_cf(self.get_log_handle());
         let mut entries = Vec::with_capacity(to - from);
         iter.seek(from.to_be_bytes());
+        if iter.key() != Some(&from.to_be_bytes()[..]) {
+            return Ok(vec![]); // The start of the interval has been removed
+        }
         for _ in from..to {
             let entry_bytes = iter.value().ok_or(ErrHelper {})?;
             entries.push(bincode::deserialize(entry_bytes)?);
-- 
2.43.0


From 680691ba981aeb4353a0c1a8c42c84a4124d0a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 15/20] fix: a failed or interrupted PersistentStorage write
 leaves nothing behind

---
 omnipaxos_storage/src/persistent_storage.rs | 69 ++++++++++-----------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a3dfb01..56e1933 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -180,6 +180,26 @@ where
             .expect("Couldn't find RocksDB log column family")
     }
 
+    fn batch_ops(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
+        for op in ops {
+            match op {
+                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
+                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
+                StorageOp::AppendOnPrefix(from_idx, entries) => {
+                    self.batch_append_on_prefix(from_idx, entries)?
+                }
+                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
+                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
+                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
+                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
+                StorageOp::Trim(idx) => self.batch_trim(idx)?,
+                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
+                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+            }
+        }
+        Ok(())
+    }
+
     fn batch_append_entry(&mut self, entry: T) -> StorageResult<()> {
         self.write_batch.put_cf(
             self.db.cf_handle(LOG).unwrap(),
@@ -276,23 +296,17 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
-            }
+        let prev_log_key = self.next_log_key;
+        let result = self.batch_ops(ops).and_then(|_| {
+            let batch = std::mem::take(&mut self.write_batch);
+            Ok(self.db.write(batch)?)
+        });
+        if result.is_err() {
+            // Nothing was written, so nothing may be left for the next write
+            self.write_batch.clear();
+            self.next_log_key = prev_log_key;
         }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+        result
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
@@ -307,30 +321,11 @@ where
     }
 
     fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
-        let mut batch = WriteBatchWithTransaction::<false>::default();
-        for entry in entries {
-            batch.put_cf(
-                self.get_log_handle(),
-                self.next_log_key.to_be_bytes(),
-                bincode::serialize(&entry)?,
-            );
-            self.next_log_key += 1;
-        }
-        self.db.write(batch)?;
-        Ok(())
+        self.write_atomically(vec![StorageOp::AppendEntries(entries)])
     }
 
     fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
-        // Don't need to delete entries that will be overwritten.
-        let delete_idx = from_idx + entries.len();
-        if delete_idx < self.next_log_key {
-            let from_key = delete_idx.to_be_bytes();
-            let to_key = self.next_log_key.to_be_bytes();
-            self.db
-                .delete_range_cf(self.get_log_handle(), from_key, to_key)?;
-        }
-        self.next_log_key = from_idx;
-        self.append_entries(entries)
+        self.write_atomically(vec![StorageOp::AppendOnPrefix(from_idx, entries)])
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
-- 
2.43.0


From 93ca542546b14ad161eda01969b161497d3767a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 16/20] fix: UniCache of a new leader and its followers
 disagreed once the cache was full

---
 omnipaxos/src/unicache/lfu_cache.rs | 9 ++++++++-
 omnipaxos/src/unicache/lru_cache.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..df38f9c 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -29,7 +29,8 @@ where
                 lfu_cache_decoder.set(encoded.clone(), encodable.clone());
             });
         Self {
-            lfu_cache_encoder: LFUCache::with_capacity(1),
+            // Filled from scratch if the receiver becomes the leader
+            lfu_cache_encoder: LFUCache::with_capacity(self.size),
             lfu_cache_decoder,
             encoding: self.encoding.clone(),
             size: self.size,
@@ -60,6 +61,9 @@ where
                     let popped_encoding = self.lfu_cache_encoder.evict_and_return_value().unwrap();
                     self.lfu_cache_encoder.set(field.clone(), popped_encoding);
                 } else {
+                    if self.lfu_cache_encoder.is_empty() {
+                        self.encoding = Encoded::default();
+                    }
                     let one = Encoded::one();
                     let enc = std::mem::take(&mut self.encoding);
                     let added = enc.add(one);
@@ -83,6 +87,9 @@ where
                     self.lfu_cache_decoder
                         .set(popped_encoded, not_encodable.clone());
                 } else {
+                    if self.lfu_cache_decoder.is_empty() {
+                        self.encoding = Encoded::default();
+                    }
                     let one = Encoded::one();
                     let enc = std::mem::take(&mut self.encoding);
                     let added = enc.add(one);
diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..3a309dc 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -64,7 +64,8 @@ where
                 cloned_decoder.push(encoded.clone(), encodable.clone());
             });
         Self {
-            lru_cache_encoder: LruWrapper(LruCache::new(NonZeroUsize::new(1).unwrap())),
+            // Filled from scratch if the receiver becomes the leader
+            lru_cache_encoder: LruWrapper(LruCache::new(NonZeroUsize::new(self.size).unwrap())),
             lru_cache_decoder: LruWrapper(cloned_decoder),
             encoding: self.encoding.clone(),
             size: self.size,
@@ -106,6 +107,9 @@ where
                     let (_, popped_encoding) = self.lru_cache_encoder.pop_lru().unwrap();
                     self.lru_cache_encoder.push(field.clone(), popped_encoding);
                 } else {
+                    if self.lru_cache_encoder.is_empty() {
+                        self.encoding = Encoded::default();
+                    }
                     let one = Encoded::one();
                     let enc = std::mem::take(&mut self.encoding);
                     let added = enc.add(one);
@@ -129,6 +133,9 @@ where
                     self.lru_cache_decoder
                         .push(popped_encoded, not_encodable.clone());
                 } else {
+                    if self.lru_cache_decoder.is_empty() {
+                        self.encoding = Encoded::default();
+                    }
                     let one = Encoded::one();
                     let enc = std::mem::take(&mut self.encoding);
                     let added = enc.add(one);
-- 
2.43.0


From c533b3569a9495ab2dcc6295355078de35f91f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 17/20] fix: keep frequencies and eviction order when an LFU
 UniCache is sent to a follower

---
 omnipaxos/src/unicache/lfu/mod.rs   | 22 ++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..064f825 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -138,6 +138,28 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// The same cache with keys and values swapped. Frequencies and eviction order are kept.
+    pub fn invert(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let mut inverted = LFUCache::with_capacity(self.capacity);
+        inverted.min_frequency = self.min_frequency;
+        for (count, keys) in &self.frequency_bin {
+            let bin = inverted.frequency_bin.entry(*count).or_default();
+            for key in keys.0.iter() {
+                let value = self.values[key].value.clone();
+                bin.0.insert(value.clone());
+                let value_counter = ValueCounter {
+                    value: key.clone(),
+                    count: *count,
+                };
+                inverted.values.insert(value, value_counter);
+            }
+        }
+        inverted
+    }
+
     pub fn iter(&self) -> LfuIterator<K, V> {
         LfuIterator {
             values: self.values.iter(),
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index df38f9c..6946759 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,16 +22,10 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             // Filled from scratch if the receiver becomes the leader
             lfu_cache_encoder: LFUCache::with_capacity(self.size),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.invert(),
             encoding: self.encoding.clone(),
             size: self.size,
         }
-- 
2.43.0


From c6e510bd209cd563c6f0fe69ea9bf8811e4741cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 18/20] fix: a deserialized LRU UniCache lost its size, and an
 empty one could not be deserialized

---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 3a309dc..3ff9e55 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -213,8 +213,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The size is enforced by LRUniCache, the number of elements says nothing about it
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 61936a5da89a9817acf2850ea193dc7eac9d42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:32 +0000
Subject: [PATCH 19/20] fix: batched entries were encoded against a UniCache
 that followers got later

A leader with a batch encoded an entry when it was batched. A follower that was synchronized
before the flush got the UniCache with that entry already in it, then decoded the entry itself
once more: its cache diverged and later entries were decoded to other values, or it panicked.
Entries are now encoded when the batch is flushed.
---
 omnipaxos/src/storage/internal_storage.rs |  7 +----
 omnipaxos/src/storage/state_cache.rs      | 33 ++++++++---------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index e6d810c..c70936b 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -247,7 +247,7 @@ where
                 #[cfg(not(feature = "unicache"))]
                 entries: flushed_entries,
                 #[cfg(feature = "unicache")]
-                entries: self.state_cache.take_batched_processed(),
+                entries: self.state_cache.encode_entries(&flushed_entries),
             }))
         } else {
             Ok(None)
@@ -281,11 +281,6 @@ where
     }
 
     pub(crate) fn flush_batch(&mut self) -> StorageResult<usize> {
-        #[cfg(feature = "unicache")]
-        {
-            // clear the processed batch
-            self.state_cache.batched_processed_by_leader.clear();
-        }
         let flushed_entries = self.state_cache.take_batched_entries();
         self.append_entries_without_batching(flushed_entries)
     }
diff --git a/omnipaxos/src/storage/state_cache.rs b/omnipaxos/src/storage/state_cache.rs
index 48a3d89..faf4efa 100644
--- a/omnipaxos/src/storage/state_cache.rs
+++ b/omnipaxos/src/storage/state_cache.rs
@@ -28,9 +28,6 @@ where
     /// Stopsign entry.
     pub stopsign: Option<StopSign>,
     #[cfg(feature = "unicache")]
-    /// Batch of entries that are processed (i.e., maybe encoded). Only used by the leader.
-    pub batched_processed_by_leader: Vec<T::EncodeResult>,
-    #[cfg(feature = "unicache")]
     pub unicache: T::UniCache,
 }
 
@@ -54,8 +51,6 @@ where
             compacted_idx: 0,
             stopsign: None,
             #[cfg(feature = "unicache")]
-            batched_processed_by_leader: Vec::with_capacity(config.batch_size),
-            #[cfg(feature = "unicache")]
             unicache: T::UniCache::new(),
         }
     }
@@ -63,11 +58,6 @@ where
     // Appends an entry to the end of the `batched_entries`. If the batch is full, the
     // batch is flushed and return flushed entries. Else, return None.
     pub(super) fn append_entry(&mut self, entry: T) -> Option<Vec<T>> {
-        #[cfg(feature = "unicache")]
-        {
-            let processed = self.unicache.try_encode(&entry);
-            self.batched_processed_by_leader.push(processed);
-        }
         self.batched_entries.push(entry);
         self.take_entries_if_batch_is_full()
     }
@@ -75,16 +65,6 @@ where
     // Appends entries to the end of the `batched_entries`. If the batch is full, the
     // batch is flushed and return flushed entries. Else, return None.
     pub(super) fn append_entries(&mut self, entries: Vec<T>) -> Option<Vec<T>> {
-        #[cfg(feature = "unicache")]
-        {
-            if self.promise.pid == self.pid {
-                // only try encoding if we're the leader
-                for entry in &entries {
-                    let processed = self.unicache.try_encode(entry);
-                    self.batched_processed_by_leader.push(processed);
-                }
-            }
-        }
         self.batched_entries.extend(entries);
         self.take_entries_if_batch_is_full()
     }
@@ -115,9 +95,18 @@ where
         std::mem::take(&mut self.batched_entries)
     }
 
+    // Encodes flushed entries. This is done when they are flushed and not when they are batched, as
+    // until then they are in neither the log nor the UniCache that followers are synchronized with.
     #[cfg(feature = "unicache")]
-    pub(super) fn take_batched_processed(&mut self) -> Vec<T::EncodeResult> {
-        std::mem::take(&mut self.batched_processed_by_leader)
+    pub(super) fn encode_entries(&mut self, entries: &[T]) -> Vec<T::EncodeResult> {
+        if self.promise.pid == self.pid {
+            entries
+                .iter()
+                .map(|entry| self.unicache.try_encode(entry))
+                .collect()
+        } else {
+            vec![] // only try encoding if we're the leader
+        }
     }
 
     // Returns whether a stopsign is decided
-- 
2.43.0


From 9b0050e2fdd97eb05b6ee32767d76982b3f54fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:10 +0000
Subject: [PATCH 20/20] fix: PersistentStorage allocated room for a removed
 interval before finding it removed

---
 omnipaxos_storage/src/persistent_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index 56e1933..42f77b0 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -335,11 +335,11 @@ where
         }
 
         let mut iter = self.db.raw_iterator_cf(self.get_log_handle());
-        let mut entries = Vec::with_capacity(to - from);
         iter.seek(from.to_be_bytes());
         if iter.key() != Some(&from.to_be_bytes()[..]) {
             return Ok(vec![]); // The start of the interval has been removed
         }
+        let mut entries = Vec::with_capacity(to - from);
         for _ in from..to {
             let entry_bytes = iter.value().ok_or(ErrHelper {})?;
             entries.push(bincode::deserialize(entry_bytes)?);
-- 
2.43.0

