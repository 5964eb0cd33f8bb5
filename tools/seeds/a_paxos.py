L = "omnipaxos/src/sequence_paxos/leader.rs"
F = "omnipaxos/src/sequence_paxos/follower.rs"
M = "omnipaxos/src/sequence_paxos/mod.rs"
U = "omnipaxos/src/util.rs"
I = "omnipaxos/src/storage/internal_storage.rs"

SEEDS["S01"] = dict(
    property="C08",
    edits=[(U, "if msg_seq_num.session == self.session && msg_seq_num.counter == self.counter + 1 {",
            "if msg_seq_num.session == self.session && msg_seq_num.counter > self.counter {")],
    needs="one accept message of a session lost while a later one of the same session arrives",
    breaks="a follower applies a later message of a session although an earlier one was lost, leaving a gap in its log",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.take(0);
    assert!(s.lose(0, 1));
    s.append(0, 2);
    s.drain();
    s.agree();
    s.reconnect(0, 1);
    s.drain();
    s.append(0, 3);
    s.drain();
    s.agree();
    assert_eq!(s.log(1), vec![1, 2, 3]);
}
''')

SEEDS["S02"] = dict(
    property="C06",
    edits=[(U, """        } else if self.n_accepted > other.n_accepted
            || (self.n_accepted == other.n_accepted && self.accepted_idx > other.accepted_idx)
        {""", """        } else if self.accepted_idx > other.accepted_idx
            || (self.accepted_idx == other.accepted_idx && self.n_accepted > other.n_accepted)
        {""")],
    needs="a leader cut off with a longer log of an old round, a shorter log decided in a newer round, then a third leader that hears from both",
    breaks="a new leader adopts the longest log instead of the one of the highest round and loses decided entries",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::new(4);
    s.lead(0);
    s.drain();
    s.cut(0);
    for v in 1..5 {
        s.append(0, v);
    }
    s.drain();
    // 2 leads 3 and 4 meanwhile
    s.lead(1);
    s.drain();
    s.append(1, 10);
    s.drain();
    assert_eq!(s.log(1), vec![10]);
    s.heal();
    s.cut(3);
    s.up[2][3] = true;
    s.up[3][2] = true;
    s.heal();
    // 3 takes over; 1 answers first
    s.lead(2);
    s.take(2);
    s.deliver(2, 0);
    s.take(0);
    while s.deliver(0, 2) {}
    s.deliver(2, 3);
    s.take(3);
    while s.deliver(3, 2) {}
    s.drain();
    s.append(2, 20);
    s.drain();
    s.agree();
}
''')

SEEDS["S03"] = dict(
    property="C04",
    edits=[(F, """            if let Some(idx) = new_accepted_idx {
                self.reply_accepted(acc_dec.n, idx);
            }
        }
    }

    pub(crate) fn handle_accept_stopsign""", """            let idx = new_accepted_idx.unwrap_or(accepted_before + num_entries);
            self.reply_accepted(acc_dec.n, idx);
        }
    }

    pub(crate) fn handle_accept_stopsign"""),
           (F, """            let mut new_accepted_idx = self
                .internal_storage
                .append_entries_and_get_accepted_idx(entries)""", """            let num_entries = entries.len();
            let accepted_before = self.internal_storage.get_accepted_idx();
            let mut new_accepted_idx = self
                .internal_storage
                .append_entries_and_get_accepted_idx(entries)""")],
    needs="batching on a follower, and the follower crashing before its batch is flushed",
    breaks="a follower acknowledges entries that are still in its in-memory batch",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::with(3, |c| c.server_config.batch_size = if c.server_config.pid == 1 { 1 } else { 2 });
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.take(0);
    s.deliver(0, 1);
    s.take(1);
    s.deliver(1, 0);
    let dec = s.decided(0);
    let held = (0..3).filter(|i| omnipaxos::storage::Storage::get_log_len(&*s.st[*i].borrow()).unwrap() > 0).count();
    assert!(dec == 0 || held >= 2, "decided {dec} with {held} servers holding the entry");
}
''')

SEEDS["S04"] = dict(
    property="C05",
    edits=[(I, """        self.state_cache.promise = n_prom;
        self.storage.set_promise(n_prom)""", """        let same_leader = self.state_cache.promise.pid == n_prom.pid;
        self.state_cache.promise = n_prom;
        if same_leader {
            // the stored promise already names this leader
            return Ok(());
        }
        self.storage.set_promise(n_prom)""")],
    needs="the same server leads two rounds in a row and a server crashes after promising the second",
    breaks="a promise to a later ballot of the same leader is not on storage, so a restart forgets it",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.lead(0);
    s.drain();
    let p = s.nodes[1].get_promise();
    s.restart(1);
    assert!(s.nodes[1].get_promise() >= p, "promise went from {:?} back to {:?}", p, s.nodes[1].get_promise());
}
''')

SEEDS["S05"] = dict(
    property="C10",
    edits=[(I, """                    self.state_cache.stopsign = None;
                    sync_txn.push(StorageOp::SetStopsign(None));""", """                    self.state_cache.stopsign = None;""")],
    needs="a stopsign accepted by a minority, overwritten by a new leader's log, and a restart of the server that had it",
    breaks="an overwritten stopsign stays on storage and comes back after a restart",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.cut(0);
    let cc = omnipaxos::ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3], flexible_quorum: None };
    s.nodes[0].reconfigure(cc, None).unwrap();
    s.drain();
    s.lead(1);
    s.drain();
    s.append(1, 1);
    s.drain();
    s.heal();
    s.reconnect(0, 1);
    s.reconnect(0, 2);
    s.drain();
    assert_eq!(s.log(0), vec![1]);
    s.restart(0);
    assert!(s.nodes[0].is_reconfigured().is_none());
    assert!(s.nodes[0].append(Ent(2)).is_ok(), "proposal refused although no stopsign was ever decided");
}
''')

SEEDS["S06"] = dict(
    property="C11",
    edits=[(U, """            .min()
            .expect("Should be all initialised to 0!")""", """            .filter(|idx| **idx > 0)
            .min()
            .unwrap_or(&self.accepted_indexes[0])""")],
    needs="a trim while one server has not acknowledged anything in the leader's round",
    breaks="trimming ignores servers that have not accepted anything yet, so they can never catch up",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::new(3);
    s.cut(2);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.append(0, 2);
    s.drain();
    let r = s.nodes[0].trim(Some(2));
    assert!(r.is_err(), "trimmed although server 3 has nothing");
}
''')

SEEDS["S07"] = dict(
    property="C23",
    edits=[(F, """            let log_sync = if na > prep.n_accepted {""", """            self.cached_promise_message = None;
            let log_sync = if na > prep.n_accepted {"""),
           (F, """            self.cached_promise_message = Some(promise.clone());
            self.outgoing""", """            if promise.log_sync.is_some() || prep.accepted_idx == 0 {
                self.cached_promise_message = Some(promise.clone());
            }
            self.outgoing"""),
           (F, """                        self.state = (Role::Follower, Phase::Recover);
                        self.send_preparereq_to_all_peers();
                    }""", """                    }""")],
    needs="the Promise of a server that is equally up to date as a leader with a non-empty log is lost",
    breaks="a lost Promise is never resent, so the follower stays in the prepare phase and the leader never syncs it",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.drain();
    s.lead(1);
    s.take(1);
    s.deliver(1, 0);
    s.deliver(1, 2);
    s.take(2);
    while s.lose(2, 1) {}
    s.drain();
    for _ in 0..4 {
        s.tick_all();
        s.drain();
    }
    s.append(1, 2);
    s.drain();
    s.agree();
    assert_eq!(s.log(2), vec![1, 2]);
}
''')

SEEDS["S08"] = dict(
    property="C03",
    edits=[(L, """                let entries = std::mem::take(&mut self.buffered_proposals);
                new_accepted_idx = self
                    .internal_storage
                    .append_entries_without_batching(entries)
                    .expect(WRITE_ERROR_MSG);
            }""", """                // keep the buffer's allocation for the next time
                let entries = self.buffered_proposals.clone();
                new_accepted_idx = self
                    .internal_storage
                    .append_entries_without_batching(entries)
                    .expect(WRITE_ERROR_MSG);
            }"""),
           (F, """        let proposals = std::mem::take(&mut self.buffered_proposals);
        if !proposals.is_empty() {""", """        let proposals = std::mem::take(&mut self.buffered_proposals);
        if !proposals.is_empty() && self.get_current_leader() != self.pid {""")],
    needs="a leader that buffered proposals during the prepare phase becomes leader again in a later round",
    breaks="proposals buffered in the prepare phase are proposed again in the next round and decided twice",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.append(0, 1);
    s.drain();
    assert_eq!(s.log(0), vec![1]);
    s.lead(0);
    s.drain();
    s.append(0, 2);
    s.drain();
    assert_eq!(s.log(0), vec![1, 2]);
}
''')

SEEDS["S09"] = dict(
    property="C09",
    edits=[(F, """            // Flush any pending writes
            // Don't have to handle flushed entries here because we will sync with followers
            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
            self.internal_storage
                .set_promise(prep.n)""", """            self.internal_storage
                .set_promise(prep.n)""")],
    needs="a server with a partly filled batch gets a new leader and then accepts more entries",
    breaks="entries batched under an old leader are appended to the log after it was synchronised with a new leader",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::with(3, |c| c.server_config.batch_size = if c.server_config.pid == 2 { 2 } else { 1 });
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.take(0);
    assert!(s.deliver(0, 1));
    assert!(s.lose(0, 2));
    s.cut(0);
    s.take(1);
    s.lead(2);
    s.drain();
    s.append(2, 10);
    s.drain();
    s.append(2, 11);
    s.drain();
    for _ in 0..4 {
        s.tick(1);
        s.tick(2);
        s.drain();
    }
    assert_eq!(s.log(1), s.log(2));
    assert!(s.log(2).ends_with(&[10, 11]), "{:?}", s.log(2));
}
''')

SEEDS["S10"] = dict(
    property="C22",
    edits=[(M, """            // User has unsent messages in their buffer, must extend their buffer.
            buffer.append(&mut self.outgoing);
        }""", """            // User has unsent messages in their buffer, must extend their buffer.
            let free = buffer.capacity() - buffer.len();
            let n = free.max(1).min(self.outgoing.len());
            buffer.extend(self.outgoing.drain(..n));
        }"""),
           (M, """        self.leader_state.reset_latest_accept_meta();
        self.latest_accepted_meta = None;""", """        if self.outgoing.capacity() < self.outgoing.len() * 2 {
            self.outgoing.shrink_to_fit();
        }
        self.leader_state.reset_latest_accept_meta();
        self.latest_accepted_meta = None;""")],
    needs="fetching outgoing messages into a buffer that still holds unsent ones",
    breaks="only as many messages as fit the caller's buffer are handed over",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    let mut b = vec![];
    s.append(0, 1);
    s.nodes[0].take_outgoing_messages(&mut b);
    b.shrink_to_fit();
    let before = b.len();
    s.append(0, 2);
    s.nodes[0].take_outgoing_messages(&mut b);
    assert_eq!(b.len(), before + 2, "messages to both followers are handed over");
}
''')

SEEDS["S11"] = dict(
    property="C02",
    edits=[(F, """        if new_decided_idx <= self.internal_storage.get_decided_idx() {
            return None;
        }
        if new_decided_idx""", """        if new_decided_idx == self.internal_storage.get_decided_idx() {
            return None;
        }
        if new_decided_idx""")],
    needs="a new leader that does not know yet what a follower has already decided sends it entries",
    breaks="a follower's decided index moves back to what its new leader knows",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::new(5);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.take(0);
    // everybody accepts, only 2 learns that it is decided
    for f in 1..5 {
        s.deliver(0, f);
        s.take(f);
        s.deliver(f, 0);
    }
    s.take(0);
    while s.deliver(0, 1) {}
    assert_eq!(s.decided(1), 1);
    // 3 takes over with 4 and 5; 2 joins last
    s.cut(0);
    s.lead(2);
    s.take(2);
    for f in [3, 4] {
        s.deliver(2, f);
        s.take(f);
        s.deliver(f, 2);
    }
    s.take(2);
    assert!(s.deliver(2, 1));
    s.take(1);
    while s.deliver(1, 2) {}
    s.append(2, 5);
    s.take(2);
    while s.deliver(2, 1) {
        assert!(s.decided(1) >= 1, "the decided index went back");
    }
    s.drain();
    assert_eq!(s.log(1), vec![1, 5]);
}
''')

SEEDS["S12"] = dict(
    property="C12",
    edits=[(I, """            if compacted_idx < log_decided_idx {
                Some(SnapshotType::Complete(""", """            if compacted_idx < log_decided_idx && self.get_snapshot()?.is_none() {
                Some(SnapshotType::Complete(""")],
    needs="a leader that has snapshotted a part of its decided log brings a server up to date that has less than that part",
    breaks="the existing snapshot is sent as if it covered the whole decided log, so entries are missing from it",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.cut(2);
    s.append(0, 1);
    s.drain();
    s.nodes[0].snapshot(Some(1), true).unwrap();
    s.append(0, 2);
    s.drain();
    s.heal();
    s.reconnect(0, 2);
    s.drain();
    s.agree();
    assert_eq!(s.log(2), vec![1, 2]);
}
''')
