B = "omnipaxos/src/ballot_leader_election.rs"
O = "omnipaxos/src/omni_paxos.rs"
G = "omnipaxos/src/messages.rs"
MS = "omnipaxos_storage/src/memory_storage.rs"
PS = "omnipaxos_storage/src/persistent_storage.rs"

SEEDS["S13"] = dict(
    property="C01",
    edits=[(L, "*prev_round_max_accepted_idx.min(followers_accepted_idx)", "*followers_accepted_idx")],
    needs="a server with undecided entries of the last round joins after a quorum without those entries has elected a new leader",
    breaks="a late server keeps entries that the new leader's log does not have, so it decides other entries than the rest",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::new(5);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.append(0, 2);
    s.take(0);
    while s.deliver(0, 3) {}
    s.cut(0);
    s.cut(3);
    s.drain();
    s.lead(1);
    s.drain();
    s.append(1, 10);
    s.drain();
    assert_eq!(s.log(1), vec![10]);
    s.heal();
    s.cut(0);
    s.reconnect(1, 3);
    s.drain();
    s.append(1, 11);
    s.drain();
    s.agree();
    assert_eq!(s.log(3), vec![10, 11]);
}
''')

SEEDS["S14"] = dict(
    property="C07",
    edits=[(I, """        let mut sync_txn: Vec<StorageOp<T>> = vec![
            StorageOp::SetAcceptedRound(accepted_round),
            StorageOp::SetDecidedIndex(decided_idx),
        ];
        if let Some(sync) = log_sync {
""", """        let mut sync_txn: Vec<StorageOp<T>> = vec![StorageOp::SetDecidedIndex(decided_idx)];
        if let Some(sync) = log_sync {
            sync_txn.push(StorageOp::SetAcceptedRound(accepted_round));
""")],
    needs="a leader that already has the newest log crashes after deciding, and a server with a longer log of an older round takes over with it",
    breaks="the accepted round of a leader is not on storage when its log needed no update, so after a crash its decided entries lose against a longer, older log",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.cut(0);
    s.append(0, 1);
    s.append(0, 2);
    s.drain();
    s.lead(1);
    s.drain();
    s.append(1, 10);
    s.drain();
    assert_eq!(s.log(2), vec![10]);
    s.restart(1);
    s.heal();
    s.cut(2);
    for _ in 0..2 {
        s.lead(0);
        s.drain();
    }
    s.append(0, 3);
    s.drain();
    s.agree();
}
''')

SEEDS["S15"] = dict(
    property="C13",
    edits=[(I, "let mut e = self.create_read_log_entries(compacted_idx, to_idx - 1)?;", "let mut e = self.create_read_log_entries(compacted_idx, to_idx)?;")],
    needs="a read that spans a compacted prefix, some entries and the stopsign",
    breaks="a read from the compacted prefix up to the stopsign leaves out the entries in between",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.append(0, 2);
    s.drain();
    s.nodes[0].snapshot(Some(1), true).unwrap();
    let cc = omnipaxos::ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3], flexible_quorum: None };
    s.nodes[0].reconfigure(cc, None).unwrap();
    s.drain();
    assert_eq!(s.log(0), vec![1, 2, u64::MAX]);
}
''')

SEEDS["S16"] = dict(
    property="C14",
    edits=[(U, "None => Quorum::Majority(num_nodes / 2 + 1),", "None => Quorum::Majority((num_nodes + 1) / 2),")],
    needs="an even number of servers, split in two halves",
    breaks="half of an even number of servers counts as a majority, so two halves decide independently",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(4);
    for i in 0..2 {
        for j in 2..4 {
            s.up[i][j] = false;
            s.up[j][i] = false;
        }
    }
    s.lead(0);
    s.lead(2);
    s.drain();
    s.append(0, 1);
    s.append(2, 2);
    s.drain();
    s.agree();
    assert_eq!(s.decided(0), 0);
}
''')

SEEDS["S17"] = dict(
    property="C16",
    edits=[(B, ".any(|r| r.ballot == self.leader && r.happy)", ".any(|r| r.ballot == self.leader)")],
    needs="a leader loses its quorum but stays connected to the only server that still has one",
    breaks="a server that hears a leader without quorum does not take over although it is the only one that could",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::with(5, |c| c.server_config.election_tick_timeout = 1);
    s.ble = true;
    for _ in 0..6 {
        s.tick_all();
        s.drain();
    }
    let l = s.nodes[0].get_current_leader().unwrap().0 as usize - 1;
    let hub = (l + 1) % 5;
    for i in 0..5 {
        for j in 0..5 {
            s.up[i][j] = i == hub || j == hub;
        }
    }
    for _ in 0..12 {
        s.tick_all();
        s.drain();
    }
    assert_eq!(s.nodes[hub].get_current_leader().map(|l| l.0), Some(hub as u64 + 1));
    s.append(hub, 1);
    s.drain();
    assert_eq!(s.log(hub), vec![1]);
}
''')

SEEDS["S18"] = dict(
    property="C17",
    edits=[(L, "prepreq.n <= self.leader_state.n_leader", "prepreq.n < self.leader_state.n_leader")],
    needs="a follower of the current round restarts or misses a message and asks its leader for a new prepare",
    breaks="a leader ignores requests for a new prepare from followers that are already in its round",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.drain();
    s.restart(2);
    s.drain();
    for _ in 0..4 {
        s.tick_all();
        s.drain();
    }
    s.append(0, 2);
    s.drain();
    s.append(0, 3);
    s.drain();
    assert_eq!(s.log(2), vec![1, 2, 3]);
}
''')

SEEDS["S19"] = dict(
    property="C18",
    edits=[(MS, """        self.log.truncate(from_idx - self.trimmed_idx);
        self.append_entries(entries)""", """        if entries.is_empty() {
            // nothing to overwrite
            return Ok(());
        }
        self.log.truncate(from_idx - self.trimmed_idx);
        self.append_entries(entries)""")],
    needs="a log overwritten by a shorter one that adds no entries of its own",
    breaks="overwriting a log with a prefix of it keeps the entries after the prefix",
    main='''
use omnipaxos::storage::Storage;
fn main() {
    let mut m: omnipaxos_storage::memory_storage::MemoryStorage<Raw> = Default::default();
    m.append_entries(vec![Raw(1), Raw(2), Raw(3)]).unwrap();
    m.append_on_prefix(1, vec![]).unwrap();
    assert_eq!(m.get_suffix(0).unwrap(), vec![Raw(1)]);
    assert_eq!(m.get_log_len().unwrap(), 1);
}
''')

SEEDS["S20"] = dict(
    property="C19",
    edits=[(PS, """        let delete_idx = from_idx + entries.len();
        if delete_idx < self.next_log_key {
            let from_key = delete_idx.to_be_bytes();""", """        let delete_idx = from_idx + entries.len().max(1);
        if delete_idx < self.next_log_key {
            let from_key = delete_idx.to_be_bytes();""")],
    needs="a log overwritten by a prefix of it, and the storage reopened before anything is appended",
    breaks="an overwritten entry stays in the database and is part of the log again after a restart",
    disk=True,
    main='''
use omnipaxos::storage::Storage;
use omnipaxos_storage::persistent_storage::*;
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct Raw(u64);
impl omnipaxos::storage::Entry for Raw {
    type Snapshot = omnipaxos::storage::NoSnapshot;
}
fn main() {
    let path = std::env::var("DEMO_DB").unwrap();
    let open = || -> PersistentStorage<Raw> { PersistentStorage::open(PersistentStorageConfig::with_path(path.clone())) };
    let mut p = open();
    p.append_entries(vec![Raw(1), Raw(2), Raw(3)]).unwrap();
    p.append_on_prefix(1, vec![]).unwrap();
    assert_eq!(p.get_suffix(0).unwrap(), vec![Raw(1)]);
    drop(p);
    let p = open();
    assert_eq!(p.get_suffix(0).unwrap(), vec![Raw(1)]);
}
''')

SEEDS["S21"] = dict(
    property="C20",
    edits=[("omnipaxos/src/unicache/lru_cache.rs", """            .iter()
            .rev()
            .for_each(|(encodable, encoded)| {
                cloned_decoder""", """            .iter()
            .for_each(|(encodable, encoded)| {
                cloned_decoder""")],
    needs="a follower that is brought up to date by a leader whose cache is in use, and later evictions from the full cache",
    breaks="a follower's copy of the leader's cache has the opposite eviction order, so later entries are decoded to other values",
    features="unicache",
    nosim=True,
    main='''
use omnipaxos::unicache::lru_cache::LRUniCache;
use omnipaxos::unicache::*;
fn main() {
    let mut leader: LRUniCache<u64, u8> = LRUniCache::new(2);
    for v in [1, 2, 1] {
        leader.try_encode(&v);
    }
    let mut follower = leader.clone();
    for v in [3, 1, 4, 3, 4] {
        let got = follower.decode(leader.try_encode(&v));
        assert_eq!(got, v);
    }
}
''')

SEEDS["S22"] = dict(
    property="C21",
    edits=[(L, "_ => self.forward_proposals(entries),", "_ => (),")],
    needs="a proposal forwarded to a server that has just stopped being the leader",
    breaks="a proposal forwarded to a former leader is dropped instead of being passed on to the new one",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.drain();
    s.append(2, 7);
    s.take(2);
    s.lead(1);
    s.take(1);
    while s.deliver(1, 0) {}
    while s.deliver(2, 0) {}
    s.drain();
    for i in 0..3 {
        assert_eq!(s.log(i), vec![7]);
    }
}
''')

SEEDS["S23"] = dict(
    property="C24",
    edits=[(U, """    /// The accepted StopSign.
    pub stopsign: Option<StopSign>,""", """    /// The accepted StopSign.
    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "Option::is_none")
    )]
    pub stopsign: Option<StopSign>,""")],
    needs="a log update without stopsign, serialised in a format that is not self-describing",
    breaks="a log update without stopsign cannot be deserialised again with bincode",
    features="bin",
    main='''
use omnipaxos::messages::*;
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.append(0, 1);
    let mut seen = 0;
    for _ in 0..6 {
        for i in 0..3 {
            s.take(i);
            for j in 0..3 {
                for m in s.link[i][j].iter_mut() {
                    if let Message::BLE(_) = m {
                        continue;
                    }
                    let b = bincode::serialize(m).unwrap();
                    let r: Message<Ent> = bincode::deserialize(&b).expect("a message cannot be read back");
                    assert_eq!(format!("{m:?}"), format!("{r:?}"));
                    *m = r;
                    seen += 1;
                }
                while s.deliver(i, j) {}
            }
        }
    }
    assert!(seen > 6);
    assert_eq!(s.log(2), vec![1]);
}
''')

SEEDS["S24"] = dict(
    property="C25",
    edits=[(O, """            self.seq_paxos.resend_message_timeout();
        }
        if self.flush_batch_clock""", """            self.seq_paxos.resend_message_timeout();
        } else if self.flush_batch_clock""")],
    needs="a resend timeout of one tick or ticks where two timers coincide",
    breaks="the flush timer stands still at ticks at which messages are resent",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::with(3, |c| {
        c.server_config.batch_size = if c.server_config.pid == 1 { 3 } else { 1 };
        c.server_config.resend_message_tick_timeout = 2;
        c.server_config.flush_batch_tick_timeout = 2;
    });
    s.lead(0);
    s.drain();
    s.append(0, 1);
    s.tick_all();
    s.drain();
    assert_eq!(s.decided(0), 0);
    s.tick_all();
    s.drain();
    assert_eq!(s.decided(0), 1, "the batch was not flushed at the second tick");
}
''')

SEEDS["S25"] = dict(
    property="C26",
    edits=[(B, """        self.prev_replies = std::mem::take(&mut self.heartbeat_replies);
        self.hb_round += 1;""", """        if !self.heartbeat_replies.is_empty() {
            self.prev_replies = std::mem::take(&mut self.heartbeat_replies);
        }
        self.hb_round += 1;""")],
    needs="a server that is cut off from all others for a whole heartbeat round",
    breaks="a server that hears nobody goes on listing the servers it heard last as alive",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::with(3, |c| c.server_config.election_tick_timeout = 1);
    s.ble = true;
    for _ in 0..4 {
        s.tick_all();
        s.drain();
    }
    assert_eq!(s.nodes[2].get_ui_states().heartbeats.len(), 2);
    s.cut(2);
    for _ in 0..4 {
        s.tick_all();
        s.drain();
    }
    assert_eq!(s.nodes[0].get_ui_states().heartbeats.len(), 1);
    assert_eq!(s.nodes[2].get_ui_states().heartbeats.len(), 0);
}
''')

SEEDS["S26"] = dict(
    property="C26",
    edits=[(O, "let is_accepted = self.seq_paxos.get_state().1 == Phase::Accept;", "let is_accepted = self.seq_paxos.get_state().1 != Phase::Prepare;")],
    needs="a server restarts after promising a ballot whose owner never completed its takeover",
    breaks="a restarted server reports a leader in the accept phase that never got there",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.take(0);
    s.deliver(0, 2);
    assert_eq!(s.nodes[2].get_current_leader(), Some((1, false)));
    s.restart(2);
    assert_eq!(s.nodes[2].get_current_leader(), Some((1, false)));
}
''')
