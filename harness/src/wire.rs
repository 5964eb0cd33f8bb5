//! Messages survive serialisation: what is received is what was sent, field by field.
use crate::ent::*;
use crate::sx::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::*;
use omnipaxos::messages::sequence_paxos::*;
use omnipaxos::messages::Message;
use omnipaxos::storage::{SnapshotType, StopSign};
use omnipaxos::util::{FlexibleQuorum, LogSync, SequenceNumber};
use omnipaxos::ClusterConfig;

crate::harness! {
    h_wire => || wire(2);
    h_wire4 => || wire(4);
}

const TAG: &str = "C24: a message is received as it was sent";

fn ballot() -> Ballot {
    let mut b = Ballot::default();
    b.config_id = sym("config id", 32) as u32;
    b.n = sym("ballot number", 32) as u32;
    b.priority = sym("priority", 32) as u32;
    b.pid = sym("pid", 64);
    b
}
fn idx() -> usize {
    sym("index", 64) as usize
}
fn seq() -> SequenceNumber {
    SequenceNumber { session: sym("session", 64), counter: sym("counter", 64) }
}
fn ents(max: u64) -> Vec<Ent> {
    let k = choose("number of entries", max + 1);
    (0..k).map(|_| Ent::mk(sym("payload", 64))).collect()
}
fn stopsign(max: u64) -> StopSign {
    let k = choose("number of nodes", max + 1);
    StopSign {
        next_config: ClusterConfig {
            configuration_id: sym("config id", 32) as u32,
            nodes: (0..k).map(|_| sym("node", 64)).collect(),
            flexible_quorum: if flag("flexible quorum") {
                Some(FlexibleQuorum { read_quorum_size: idx(), write_quorum_size: idx() })
            } else {
                None
            },
        },
        metadata: if flag("metadata") {
            let k = choose("length of metadata", max + 1);
            Some((0..k).map(|_| sym("metadata", 8) as u8).collect())
        } else {
            None
        },
    }
}
fn log_sync(max: u64) -> LogSync<Ent> {
    let snap = choose("snapshot", 3);
    let decided_snapshot = if snap == 0 {
        None
    } else {
        let k = choose("snapshotted entries", max + 1);
        let f = Fold((0..k).map(|_| sym("payload", 64)).collect());
        Some(if snap == 1 { SnapshotType::Complete(f) } else { SnapshotType::Delta(f) })
    };
    LogSync {
        decided_snapshot,
        suffix: ents(max),
        sync_idx: idx(),
        stopsign: if flag("stopsign") { Some(stopsign(1)) } else { None },
    }
}

fn b_eq(a: &Ballot, b: &Ballot) {
    check(TAG, and(and(a.config_id == b.config_id, a.n == b.n), and(a.priority == b.priority, a.pid == b.pid)));
}
fn s_eq(a: SequenceNumber, b: SequenceNumber) {
    check(TAG, and(a.session == b.session, a.counter == b.counter));
}
fn e_eq(a: &[Ent], b: &[Ent]) {
    check(TAG, a.len() == b.len());
    for i in 0..a.len() {
        check(TAG, a[i].val() == b[i].val());
    }
}
fn u_eq(a: &[u64], b: &[u64]) {
    check(TAG, a.len() == b.len());
    for i in 0..a.len() {
        check(TAG, a[i] == b[i]);
    }
}
fn ss_eq(a: &StopSign, b: &StopSign) {
    check(TAG, a.next_config.configuration_id == b.next_config.configuration_id);
    u_eq(&a.next_config.nodes, &b.next_config.nodes);
    match (&a.next_config.flexible_quorum, &b.next_config.flexible_quorum) {
        (None, None) => (),
        (Some(x), Some(y)) => check(
            TAG,
            and(x.read_quorum_size == y.read_quorum_size, x.write_quorum_size == y.write_quorum_size),
        ),
        _ => check(TAG, false),
    }
    match (&a.metadata, &b.metadata) {
        (None, None) => (),
        (Some(x), Some(y)) => {
            check(TAG, x.len() == y.len());
            for i in 0..x.len() {
                check(TAG, x[i] == y[i]);
            }
        }
        _ => check(TAG, false),
    }
}
fn l_eq(a: &LogSync<Ent>, b: &LogSync<Ent>) {
    match (&a.decided_snapshot, &b.decided_snapshot) {
        (None, None) => (),
        (Some(SnapshotType::Complete(x)), Some(SnapshotType::Complete(y))) => u_eq(&x.0, &y.0),
        (Some(SnapshotType::Delta(x)), Some(SnapshotType::Delta(y))) => u_eq(&x.0, &y.0),
        _ => check(TAG, false),
    }
    e_eq(&a.suffix, &b.suffix);
    check(TAG, a.sync_idx == b.sync_idx);
    match (&a.stopsign, &b.stopsign) {
        (None, None) => (),
        (Some(x), Some(y)) => ss_eq(x, y),
        _ => check(TAG, false),
    }
}

fn message(max: u64) -> Message<Ent> {
    let from = sym("from", 64);
    let to = sym("to", 64);
    let kind = choose("kind", 15);
    if kind >= 13 {
        return Message::BLE(BLEMessage {
            from,
            to,
            msg: if kind == 13 {
                HeartbeatMsg::Request(HeartbeatRequest { round: sym("round", 32) as u32 })
            } else {
                HeartbeatMsg::Reply(HeartbeatReply {
                    round: sym("round", 32) as u32,
                    ballot: ballot(),
                    leader: ballot(),
                    happy: flag("happy"),
                })
            },
        });
    }
    let msg = match kind {
        0 => PaxosMsg::PrepareReq(PrepareReq { n: ballot() }),
        1 => PaxosMsg::Prepare(Prepare { n: ballot(), decided_idx: idx(), n_accepted: ballot(), accepted_idx: idx() }),
        2 => PaxosMsg::Promise(Promise {
            n: ballot(),
            n_accepted: ballot(),
            decided_idx: idx(),
            accepted_idx: idx(),
            log_sync: if flag("log sync") { Some(log_sync(max)) } else { None },
        }),
        3 => PaxosMsg::AcceptSync(AcceptSync { n: ballot(), seq_num: seq(), decided_idx: idx(), log_sync: log_sync(max) }),
        4 => PaxosMsg::AcceptDecide(AcceptDecide { n: ballot(), seq_num: seq(), decided_idx: idx(), entries: ents(max) }),
        5 => PaxosMsg::Accepted(Accepted { n: ballot(), accepted_idx: idx() }),
        6 => PaxosMsg::NotAccepted(NotAccepted { n: ballot() }),
        7 => PaxosMsg::Decide(Decide { n: ballot(), seq_num: seq(), decided_idx: idx() }),
        8 => PaxosMsg::ProposalForward(ents(max)),
        9 => PaxosMsg::Compaction(Compaction::Trim(idx())),
        10 => PaxosMsg::Compaction(Compaction::Snapshot(if flag("index given") { Some(idx()) } else { None })),
        11 => PaxosMsg::AcceptStopSign(AcceptStopSign { n: ballot(), seq_num: seq(), ss: stopsign(max) }),
        _ => PaxosMsg::ForwardStopSign(stopsign(max)),
    };
    Message::SequencePaxos(PaxosMessage { from, to, msg })
}

fn m_eq(a: &Message<Ent>, b: &Message<Ent>) {
    check(TAG, and(a.get_sender() == b.get_sender(), a.get_receiver() == b.get_receiver()));
    match (a, b) {
        (Message::BLE(x), Message::BLE(y)) => match (&x.msg, &y.msg) {
            (HeartbeatMsg::Request(x), HeartbeatMsg::Request(y)) => check(TAG, x.round == y.round),
            (HeartbeatMsg::Reply(x), HeartbeatMsg::Reply(y)) => {
                check(TAG, and(x.round == y.round, x.happy == y.happy));
                b_eq(&x.ballot, &y.ballot);
                b_eq(&x.leader, &y.leader);
            }
            _ => check(TAG, false),
        },
        (Message::SequencePaxos(x), Message::SequencePaxos(y)) => match (&x.msg, &y.msg) {
            (PaxosMsg::PrepareReq(x), PaxosMsg::PrepareReq(y)) => b_eq(&x.n, &y.n),
            (PaxosMsg::Prepare(x), PaxosMsg::Prepare(y)) => {
                b_eq(&x.n, &y.n);
                b_eq(&x.n_accepted, &y.n_accepted);
                check(TAG, and(x.decided_idx == y.decided_idx, x.accepted_idx == y.accepted_idx));
            }
            (PaxosMsg::Promise(x), PaxosMsg::Promise(y)) => {
                b_eq(&x.n, &y.n);
                b_eq(&x.n_accepted, &y.n_accepted);
                check(TAG, and(x.decided_idx == y.decided_idx, x.accepted_idx == y.accepted_idx));
                match (&x.log_sync, &y.log_sync) {
                    (None, None) => (),
                    (Some(x), Some(y)) => l_eq(x, y),
                    _ => check(TAG, false),
                }
            }
            (PaxosMsg::AcceptSync(x), PaxosMsg::AcceptSync(y)) => {
                b_eq(&x.n, &y.n);
                s_eq(x.seq_num, y.seq_num);
                check(TAG, x.decided_idx == y.decided_idx);
                l_eq(&x.log_sync, &y.log_sync);
            }
            (PaxosMsg::AcceptDecide(x), PaxosMsg::AcceptDecide(y)) => {
                b_eq(&x.n, &y.n);
                s_eq(x.seq_num, y.seq_num);
                check(TAG, x.decided_idx == y.decided_idx);
                e_eq(&x.entries, &y.entries);
            }
            (PaxosMsg::Accepted(x), PaxosMsg::Accepted(y)) => {
                b_eq(&x.n, &y.n);
                check(TAG, x.accepted_idx == y.accepted_idx);
            }
            (PaxosMsg::NotAccepted(x), PaxosMsg::NotAccepted(y)) => b_eq(&x.n, &y.n),
            (PaxosMsg::Decide(x), PaxosMsg::Decide(y)) => {
                b_eq(&x.n, &y.n);
                s_eq(x.seq_num, y.seq_num);
                check(TAG, x.decided_idx == y.decided_idx);
            }
            (PaxosMsg::ProposalForward(x), PaxosMsg::ProposalForward(y)) => e_eq(x, y),
            (PaxosMsg::Compaction(x), PaxosMsg::Compaction(y)) => match (x, y) {
                (Compaction::Trim(x), Compaction::Trim(y)) => check(TAG, x == y),
                (Compaction::Snapshot(None), Compaction::Snapshot(None)) => (),
                (Compaction::Snapshot(Some(x)), Compaction::Snapshot(Some(y))) => check(TAG, x == y),
                _ => check(TAG, false),
            },
            (PaxosMsg::AcceptStopSign(x), PaxosMsg::AcceptStopSign(y)) => {
                b_eq(&x.n, &y.n);
                s_eq(x.seq_num, y.seq_num);
                ss_eq(&x.ss, &y.ss);
            }
            (PaxosMsg::ForwardStopSign(x), PaxosMsg::ForwardStopSign(y)) => ss_eq(x, y),
            _ => check(TAG, false),
        },
        _ => check(TAG, false),
    }
}

fn wire(max: u64) {
    let m = message(max);
    let bytes = match bincode::serialize(&m) {
        Ok(b) => b,
        Err(_) => {
            check("C24: every message can be sent", false);
            stop()
        }
    };
    match bincode::deserialize::<Message<Ent>>(&bytes) {
        Ok(r) => m_eq(&m, &r),
        Err(_) => check("C24: every message that was sent can be received", false),
    }
    cover("message received");
}
