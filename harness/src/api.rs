//! Harnesses for the user-facing API around the protocol.
use crate::ent::*;
use crate::sx::*;
use crate::world::*;
use omnipaxos::messages::sequence_paxos::*;
use omnipaxos::messages::Message;
use crate::round::stopsign;
use crate::store::Store;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::Storage;
use omnipaxos::util::{FlexibleQuorum, LogEntry};
use omnipaxos::{ClusterConfig, OmniPaxosConfig, ProposeErr, ServerConfig};
use std::ops::Bound;

crate::harness! {
    h_buffer4 => || buffer::<Ent>(4);
    h_read => || read::<Ent>(2, 2);
    h_readr => || read::<Raw>(2, 2);
    h_read4 => || read::<Ent>(3, 4);
    h_read4r => || read::<Raw>(3, 4);
    h_config => || config(3);
    h_config5 => || config(5);
    h_build => || build();
    h_quorum5 => || quorum::<Ent>(5);
    h_quorum7 => || quorum::<Raw>(7);
    h_buffer6 => || buffer::<Ent>(6);
}

/// What tells two messages apart.
pub fn summary<T: Ent64>(m: &Message<T>) -> [u64; 5] {
    let to = m.get_receiver();
    let p = match m {
        Message::SequencePaxos(p) => p,
        Message::BLE(_) => return [0, to, 0, 0, 0],
    };
    match &p.msg {
        PaxosMsg::PrepareReq(x) => [1, to, x.n.n as u64, 0, 0],
        PaxosMsg::Prepare(x) => [2, to, x.n.n as u64, x.accepted_idx as u64, x.decided_idx as u64],
        PaxosMsg::Promise(x) => [3, to, x.n.n as u64, x.accepted_idx as u64, x.decided_idx as u64],
        PaxosMsg::AcceptSync(x) => [4, to, x.seq_num.session, x.seq_num.counter, x.decided_idx as u64],
        PaxosMsg::AcceptDecide(x) => {
            #[cfg(not(feature = "unicache"))]
            let v = if x.entries.is_empty() { 0 } else { x.entries[0].val() };
            #[cfg(feature = "unicache")]
            let v = 0;
            [5, to, x.seq_num.counter + 1000 * x.entries.len() as u64, v, x.decided_idx as u64]
        }
        PaxosMsg::Accepted(x) => [6, to, x.n.n as u64, x.accepted_idx as u64, 0],
        PaxosMsg::NotAccepted(x) => [7, to, x.n.n as u64, x.n.pid, 0],
        PaxosMsg::Decide(x) => [8, to, x.seq_num.counter, x.decided_idx as u64, 0],
        PaxosMsg::ProposalForward(x) => [9, to, x.len() as u64, x[0].val(), 0],
        PaxosMsg::Compaction(Compaction::Trim(x)) => [10, to, *x as u64, 0, 0],
        PaxosMsg::Compaction(Compaction::Snapshot(x)) => [11, to, x.map_or(0, |v| v as u64 + 1), 0, 0],
        PaxosMsg::AcceptStopSign(x) => [12, to, x.seq_num.counter, 0, 0],
        PaxosMsg::ForwardStopSign(_) => [13, to, 0, 0, 0],
    }
}

fn marker<T: Ent64>(i: usize) -> Message<T> {
    Message::SequencePaxos(PaxosMessage { from: i as u64 + 1, to: 77, msg: PaxosMsg::Compaction(Compaction::Trim(4711)) })
}

/// Two identical clusters, one whose messages are fetched into empty buffers and one whose messages are
/// fetched into buffers that still hold something: the same messages have to come out.
fn buffer<T: Ent64>(len: usize) {
    let mut a: World<T> = World::new(Cfg::new(3));
    let mut b: World<T> = World::new(Cfg::new(3));
    let held = choose("messages in the buffer", 2) as usize + 1;
    let roomy = flag("roomy buffer");
    for _ in 0..len {
        match choose("op", 7) {
            0 => {
                let v = entry("entry", a.proposed.len());
                both(&mut a, &mut b, |w| {
                    w.proposed.push(v);
                    let _ = w.nodes[0].append(T::mk(v));
                    w.after(0);
                });
            }
            1 => {
                let v = entry("entry", a.proposed.len());
                both(&mut a, &mut b, |w| {
                    w.proposed.push(v);
                    let _ = w.nodes[1].append(T::mk(v));
                    w.after(1);
                });
            }
            2 => both(&mut a, &mut b, |w| w.lead(0)),
            3 => both(&mut a, &mut b, |w| w.lead_top(1)),
            4 => both(&mut a, &mut b, |w| w.tick_all()),
            5 => both(&mut a, &mut b, |w| w.reconnected(1, 0)),
            _ => {
                for i in 0..3 {
                    hand_over(&mut a, &mut b, i, held, roomy);
                }
                for i in 0..3 {
                    for j in 0..3 {
                        for _ in 0..a.link[i * 3 + j].len() {
                            a.deliver(i, j);
                            b.deliver(i, j);
                        }
                    }
                }
            }
        }
    }
    for i in 0..3 {
        hand_over(&mut a, &mut b, i, held, roomy);
    }
    cover("compared");
}

fn both<T: Ent64>(a: &mut World<T>, b: &mut World<T>, f: impl Fn(&mut World<T>)) {
    f(a);
    f(b);
}

#[inline(never)]
fn hand_over<T: Ent64>(a: &mut World<T>, b: &mut World<T>, i: usize, held: usize, roomy: bool) {
    let mut x: Vec<Message<T>> = Vec::new();
    a.nodes[i].take_outgoing_messages(&mut x);
    let mut y: Vec<Message<T>> = Vec::with_capacity(if roomy { 64 } else { held });
    for _ in 0..held {
        y.push(marker(i));
    }
    b.nodes[i].take_outgoing_messages(&mut y);
    check("C22: as many messages are handed over whatever the buffer holds", y.len() == x.len() + held);
    let mut rest: Vec<Message<T>> = Vec::new();
    b.nodes[i].take_outgoing_messages(&mut rest);
    check("C22: messages are handed over once", rest.is_empty());
    let mut ok = true;
    for (k, m) in y.into_iter().enumerate() {
        let s = summary(&m);
        if k < held {
            ok = and(ok, s[1] == 77);
        } else if k - held < x.len() {
            let t = summary(&x[k - held]);
            for q in 0..5 {
                ok = and(ok, s[q] == t[q]);
            }
            b.link_push(i, m);
        }
    }
    check("C22: the buffer keeps what it held, followed by the messages in order", ok);
    for m in x {
        a.link_push(i, m);
    }
}

fn bal(n: u32, pid: u64) -> Ballot {
    Ballot { config_id: 1, n, priority: 0, pid }
}

/// A node restarts from any log (compacted prefix, entries, stopsign, decided index); any read, at any
/// 64-bit index or range, returns exactly what the log holds there.
fn read<T: Ent64 + PartialEq>(maxc: u64, maxn: u64)
where
    T::Snapshot: PartialEq,
{
    let c = choose("compacted", maxc + 1) as usize;
    let n = choose("entries", maxn + 1) as usize;
    let ss = flag("stopsign");
    let len = c + n;
    let acc = len + ss as usize;
    let d = sym("decided", 64) as usize;
    assume(and(d >= c, d <= acc));
    let mut vals = Vec::new();
    for k in 0..len {
        vals.push(entry("entry", k));
    }
    let s: Store<T> = Store::new();
    {
        let mut inn = s.0.borrow_mut();
        let m = &mut inn.live;
        let mut v = Vec::new();
        for x in &vals {
            v.push(T::mk(*x));
        }
        m.append_entries(v).unwrap();
        m.set_promise(bal(1, 2)).unwrap();
        m.set_accepted_round(bal(1, 2)).unwrap();
        m.set_decided_idx(d).unwrap();
        if c > 0 {
            m.trim(c).unwrap();
            m.set_compacted_idx(c).unwrap();
            m.set_snapshot(T::mk_fold(vals[..c].to_vec())).unwrap();
        }
        if ss {
            m.set_stopsign(Some(stopsign(7))).unwrap();
        }
    }
    let nd = mk_node(&Cfg::new(3), 1, 0, s.share());
    check("C13|C07: the decided index is the stored one", nd.get_decided_idx() == d);
    check("C13: the compacted index is the stored one", nd.get_compacted_idx() == c);
    let l = L { c, acc, ss, d, vals };
    match choose("read", 3) {
        0 => {
            let i = sym("index", 64) as usize;
            let r = nd.read(i);
            if i >= acc {
                check("C13: nothing is read beyond the end of the log", r.is_none());
            } else {
                let i = conc(i as u64) as usize;
                match r {
                    Some(e) => {
                        let j = choose("other index", acc as u64) as usize;
                        if let Some(o) = nd.read(j) {
                            let same = i == j || i < c && j < c;
                            check("C13: what is read is equal exactly if it is the same entry", (e == o) == same && (o == e) == same);
                        }
                        compare(&l, i, i + 1, vec![e])
                    }
                    None => check("C13: every entry can be read", false),
                }
                cover("entry read");
            }
        }
        1 => {
            let i = sym("index", 64) as usize;
            let r = nd.read_decided_suffix(i);
            if i >= d {
                check("C13: no decided suffix beyond the decided index", r.is_none());
            } else {
                let i = conc(i as u64) as usize;
                match r {
                    Some(e) => compare(&l, i, conc(d as u64) as usize, e),
                    None => check("C13: every decided suffix can be read", false),
                }
                cover("decided suffix read");
            }
        }
        _ => {
            let (a, from) = bound("from", 0, 1);
            let (b, to) = bound("to", acc, 0);
            let r = nd.read_entries((a, b));
            if from < to {
                if to > acc {
                    check("C13: nothing is read beyond the end of the log", r.is_none());
                } else {
                    let (f, t) = (conc(from as u64) as usize, conc(to as u64) as usize);
                    match r {
                        Some(e) => compare(&l, f, t, e),
                        None => check("C13: every range of the log can be read", false),
                    }
                    cover("range read");
                }
            } else if let Some(v) = r {
                // nothing to read: at most what was compacted is returned
                for e in v {
                    let ok = match e {
                        LogEntry::Trimmed(_) | LogEntry::Snapshotted(_) => true,
                        _ => false,
                    };
                    check("C13: an empty range contains no entries", ok);
                }
            }
        }
    }
    cover("read");
}

struct L {
    c: usize,
    acc: usize,
    ss: bool,
    d: usize,
    vals: Vec<u64>,
}

fn bound(name: &str, none: usize, excl: usize) -> (Bound<usize>, usize) {
    let k = choose("bound kind", 3);
    if k == 2 {
        return (Bound::Unbounded, none);
    }
    let i = sym(name, 64) as usize;
    // the normalised half-open bound, where the largest index stands for everything beyond
    if k == 0 {
        (Bound::Included(i), i.saturating_add(1 - excl))
    } else {
        (Bound::Excluded(i), i.saturating_add(excl))
    }
}

/// `v` is what a read of `from..to` returned; `from < to <= acc`.
fn compare<T: Ent64>(l: &L, from: usize, to: usize, v: Vec<LogEntry<T>>) {
    let mut pos = from;
    for e in v {
        check("C13: a read returns nothing beyond its range", or(pos < to, false));
        if pos < l.c {
            match e {
                LogEntry::Snapshotted(s) => {
                    check("C13: a snapshot is returned for the compacted prefix", and(T::SNAPS, s.trimmed_idx == l.c));
                    let f = T::fold(&s.snapshot);
                    let mut ok = f.len() == l.c;
                    for k in 0..f.len().min(l.c) {
                        ok = and(ok, f[k] == l.vals[k]);
                    }
                    check("C13|C12: the stored snapshot is returned", ok);
                }
                LogEntry::Trimmed(t) => check("C13: a trimmed prefix is reported with its length", and(!T::SNAPS, t == l.c)),
                _ => check("C13: compacted entries are reported as compacted", false),
            }
            pos = l.c;
            continue;
        }
        match e {
            LogEntry::Decided(x) => {
                check("C13: an entry is decided exactly below the decided index", pos < l.d);
                check("C13: the entry at an index is returned", pos < l.vals.len() && x.val() == l.vals[pos]);
            }
            LogEntry::Undecided(x) => {
                check("C13: an entry is undecided exactly from the decided index on", pos >= l.d);
                check("C13: the entry at an index is returned", pos < l.vals.len() && x.val() == l.vals[pos]);
            }
            LogEntry::StopSign(s, dec) => {
                check("C13: the stopsign is the last entry", and(l.ss, pos + 1 == l.acc));
                check("C13: the stopsign is flagged decided exactly when it is", dec == (l.d == l.acc));
                check("C13: the stored stopsign is returned", ss_id(&s) == 7);
            }
            _ => check("C13: entries beyond the compacted prefix are returned one by one", false),
        }
        pos += 1;
    }
    check("C13: a read returns everything in its range", pos == to || (pos == l.c && to <= l.c));
}

/// Any configuration is accepted exactly when it is valid.
fn config(max: u64) {
    let n = choose("nodes", max + 1) as usize;
    let mut nodes = Vec::new();
    let pid = sym("pid", 64);
    let mut member = false;
    let mut distinct = true;
    let mut nonzero = true;
    for k in 0..n {
        let x = sym("node", 64);
        for y in &nodes {
            distinct = and(distinct, x != *y);
        }
        nonzero = and(nonzero, x != 0);
        member = or(member, x == pid);
        nodes.push(x);
        let _ = k;
    }
    let id = sym("configuration id", 32) as u32;
    let fq = if flag("flexible quorums") {
        Some(FlexibleQuorum { read_quorum_size: sym("read quorum", 64) as usize, write_quorum_size: sym("write quorum", 64) as usize })
    } else {
        None
    };
    let mut ok = and(and(n > 1, id != 0), and(distinct, nonzero));
    if let Some(q) = fq {
        let (r, w) = (q.read_quorum_size, q.write_quorum_size);
        ok = and(ok, and(and(r >= 2, r <= n), and(w >= 2, w <= n)));
        ok = and(ok, r >= w);
        // no overflow once both are at most n
        ok = and(ok, r.wrapping_add(w) > n);
    }
    let cc = ClusterConfig { configuration_id: id, nodes, flexible_quorum: fq };
    let r = cc.validate();
    check("C14: a cluster configuration is accepted exactly when it is valid", r.is_ok() == ok);
    let sc = server(pid);
    let okk = and(and(pid != 0, sc.buffer_size != 0), and(sc.batch_size != 0, and(sc.election_tick_timeout != 0, sc.resend_message_tick_timeout != 0)));
    check("C14: a server configuration is accepted exactly when it is valid", sc.validate().is_ok() == okk);
    let both = OmniPaxosConfig { cluster_config: cc.clone(), server_config: sc };
    check("C14: a configuration is accepted exactly when it is valid for this server", both.validate().is_ok() == and(and(ok, okk), member));
    // as the next configuration
    let mut nd = mk_node::<Ent>(&Cfg::new(3), 1, 0, Store::new());
    let r = nd.reconfigure(cc.clone(), None);
    let refused = match &r {
        Err(ProposeErr::ConfigError(_, c2, _)) => {
            check("C14: a refused configuration is handed back", *c2 == cc);
            true
        }
        Err(_) => {
            check("C14: an invalid next configuration is reported as such", false);
            true
        }
        Ok(()) => false,
    };
    check("C14|C10: a reconfiguration is refused exactly when the next configuration is invalid", refused != ok);
    cover("configuration checked");
    if ok {
        cover("valid configuration");
    }
}

fn server(pid: u64) -> ServerConfig {
    let mut sc = ServerConfig::default();
    sc.pid = pid;
    sc.buffer_size = sym("buffer size", 64) as usize;
    sc.batch_size = sym("batch size", 64) as usize;
    sc.election_tick_timeout = sym("election timeout", 64);
    sc.resend_message_tick_timeout = sym("resend timeout", 64);
    sc.flush_batch_tick_timeout = sym("flush timeout", 64);
    sc.leader_priority = sym("priority", 32) as u32;
    sc
}

/// Building a node from any small configuration never panics, and the node talks to the other members only.
fn build() {
    let n = choose("nodes", 4) as usize;
    let mut nodes = Vec::new();
    for _ in 0..n {
        nodes.push(choose("node", 5));
    }
    let pid = choose("pid", 5);
    let mut sc = ServerConfig::default();
    sc.pid = pid;
    sc.buffer_size = choose("buffer size", 2) as usize;
    sc.batch_size = choose("batch size", 2) as usize;
    let c = OmniPaxosConfig { cluster_config: ClusterConfig { configuration_id: 1, nodes: nodes.clone(), flexible_quorum: None }, server_config: sc };
    let valid = c.validate().is_ok();
    let s: Store<Ent> = Store::new();
    match c.build(s) {
        Err(_) => check("C14: a valid configuration builds", !valid),
        Ok(mut nd) => {
            check("C14: an invalid configuration does not build", valid);
            nd.try_become_leader();
            let _ = nd.append(Ent::mk(1));
            nd.tick();
            nd.tick();
            let mut out = Vec::new();
            nd.take_outgoing_messages(&mut out);
            let mut got = vec![0; 5];
            for m in &out {
                let to = m.get_receiver();
                check("C22|C14: messages go to other members", nodes.contains(&to) && to != pid);
                if let Message::SequencePaxos(_) = m {
                    got[to as usize] += 1;
                }
            }
            for x in &nodes {
                check("C22|C14: every other member is prepared", *x == pid || got[*x as usize] > 0);
            }
            cover("node built");
        }
    }
}

/// A leader needs exactly the configured number of promises and acknowledgements.
fn quorum<T: Ent64>(max: u64) {
    let n = 2 + choose("nodes", max - 1) as usize;
    let (r, wq) = if flag("flexible quorums") {
        let r = below("read quorum", n as u64 + 1);
        let w = below("write quorum", n as u64 + 1);
        assume(and(and(r >= 2, w >= 2), and(r >= w, r + w > n as u64)));
        (conc(r) as usize, conc(w) as usize)
    } else {
        (0, 0)
    };
    let mut c = Cfg::new(n);
    c.stride = 1 + 2 * choose("gap between pids", 2);
    if r > 0 {
        c.fq = Some((r, wq));
    }
    let maj = n / 2 + 1;
    let (r, wq) = if r > 0 { (r, wq) } else { (maj, maj) };
    let mut w: World<T> = World::new(c);
    w.lead(0);
    w.take(0);
    for f in 1..n {
        check("C06|C17|C14: a leader is ready exactly when its read quorum has promised", w.is_leader(0) == (f >= r));
        w.deliver(0, f);
        w.take(f);
        w.deliver(f, 0);
    }
    check("C06|C17|C14: a leader is ready when everybody has promised", w.is_leader(0));
    w.drain(4);
    w.append(0);
    w.take(0);
    for f in 1..n {
        check("C04|C17|C14: an entry is decided exactly when the write quorum has acknowledged it", (w.nodes[0].get_decided_idx() == 1) == (f >= wq));
        w.deliver(0, f);
        w.take(f);
        w.deliver(f, 0);
    }
    check("C04|C17|C14: an entry everybody has acknowledged is decided", w.nodes[0].get_decided_idx() == 1);
    w.drain(4);
    w.recheck_all();
    for i in 0..n {
        check("C17: everybody learns the decision", w.last_dec[i] == 1);
    }
    w.reconfigure(0, 7);
    w.take(0);
    for f in 1..n {
        check("C04|C10|C14: a stopsign is decided exactly when the write quorum has acknowledged it", (w.nodes[0].get_decided_idx() == 2) == (f >= wq));
        check("C10: a configuration is stopped exactly when its stopsign is decided", w.nodes[0].is_reconfigured().is_some() == (f >= wq));
        w.deliver(0, f);
        w.take(f);
        w.deliver(f, 0);
    }
    w.drain(4);
    w.recheck_all();
    for i in 0..n {
        check("C10|C17: everybody learns the stopsign", w.last_dec[i] == 2);
    }
    cover("quorums reached");
}
