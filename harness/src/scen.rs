//! Cluster scenarios: bounded symbolic schedules over real nodes.
use crate::ent::*;
use crate::sx::*;
use crate::world::*;
use omnipaxos::storage::{StopSign, Storage};
use omnipaxos::util::{FlexibleQuorum, LogEntry};
use omnipaxos::ClusterConfig;

crate::harness! {
    h_take2 => || takeover::<Ent>(2, 0);
    h_take3 => || takeover::<Ent>(3, 0);
    h_take3r => || takeover::<Raw>(3, 0);
    h_take2c => || takeover::<Ent>(2, 1);
    h_take3c => || takeover::<Ent>(3, 1);
    h_take2p => || takeover::<Ent>(2, 4);
    h_take3p => || takeover::<Ent>(3, 4);
    h_take2s => || takeover::<Ent>(2, 2);
    h_take2sc => || takeover::<Ent>(2, 6);
    h_take1sc => || takeover::<Raw>(1, 6);
    h_ss => || carried::<Ent>();
    h_ssr => || carried::<Raw>();
    h_take3s => || takeover::<Ent>(3, 2);
    h_drop2 => || drops::<Ent>(2, 44, false, true);
    h_drop2r => || drops::<Raw>(2, 44, true, true);
    h_drop2n => || drops::<Ent>(2, 44, true, false);
    h_dup2 => || drops_x::<Ent>(2, 44, true, false, true);
    h_dup2r => || drops_x::<Raw>(2, 44, true, false, true);
    h_drop3 => || drops::<Ent>(3, 44, true, true);
    h_resend2 => || takeover::<Ent>(2, 3);
    h_resend2s => || takeover::<Ent>(2, 5);
    h_resend3 => || takeover::<Ent>(3, 3);
    h_resend5 => || free2::<Ent>(F { len: 5, ss: true, batch: 1, start: 4 });
    h_resend6 => || free2::<Ent>(F { len: 6, ss: true, batch: 1, start: 4 });
    h_resend5i => || free2::<Ent>(F { len: 5, ss: true, batch: 1, start: 6 });
    h_free6 => || free2::<Ent>(F { len: 6, ss: false, batch: 1, start: 0 });
    h_free7 => || free2::<Ent>(F { len: 7, ss: false, batch: 1, start: 0 });
    h_free6s => || free2::<Ent>(F { len: 6, ss: true, batch: 1, start: 0 });
    h_lost5 => || free2::<Ent>(F { len: 5, ss: false, batch: 1, start: 1 });
    h_lost6 => || free2::<Ent>(F { len: 6, ss: false, batch: 1, start: 1 });
    h_lost6s => || free2::<Ent>(F { len: 6, ss: true, batch: 1, start: 1 });
    h_sync5 => || free2::<Ent>(F { len: 5, ss: false, batch: 1, start: 2 });
    h_sync6s => || free2::<Ent>(F { len: 6, ss: true, batch: 1, start: 2 });
    h_batch5 => || free2::<Ent>(F { len: 5, ss: false, batch: 2, start: 2 });
    h_batch6 => || free2::<Ent>(F { len: 6, ss: false, batch: 2, start: 2 });
    h_batch5s => || free2::<Ent>(F { len: 5, ss: true, batch: 2, start: 2 });
    h_batch6l => || free2::<Ent>(F { len: 6, ss: true, batch: 2, start: 1 });
    h_batch7 => || free2::<Ent>(F { len: 7, ss: true, batch: 3, start: 2 });
    h_take2r => || takeover::<Raw>(2, 0);
    h_take2cr => || takeover::<Raw>(2, 1);
    h_lost5r => || free2::<Raw>(F { len: 5, ss: false, batch: 1, start: 1 });
    h_sync5r => || free2::<Raw>(F { len: 5, ss: false, batch: 1, start: 2 });
    h_mixb5 => || mixed::<Ent>(5);
    h_mixb6 => || mixed::<Ent>(6);
    h_mixb5r => || mixed::<Raw>(5);
    h_batch5r => || free2::<Raw>(F { len: 5, ss: true, batch: 2, start: 2 });
    h_dual4 => || dual::<Ent>(4, 1, false);
    h_dual4r => || dual::<Raw>(4, 1, false);
    h_dual5r => || dual::<Raw>(5, 1, false);
    h_comp => || comp::<Ent>(2, 1, true);
    h_compr => || comp::<Raw>(2, 1, true);
    h_compc => || comp_x::<Ent>(2, 1, true, true);
    h_comprc => || comp_x::<Raw>(2, 1, true, true);
    h_comp2 => || comp::<Ent>(2, 2, true);
    h_comp2r => || comp::<Raw>(2, 2, true);
    h_comp3 => || comp::<Ent>(3, 2, true);
    h_dual5 => || dual::<Ent>(5, 1, false);
    h_dual6 => || dual::<Ent>(6, 1, false);
    h_dual7 => || dual::<Ent>(7, 1, false);
    h_dual6b => || dual::<Ent>(6, 2, false);
    h_dual5p => || dual::<Ent>(5, 1, true);
    h_many => || many::<Ent>(280);
    h_manyr => || many::<Raw>(280);
    h_dual6p => || dual::<Ent>(6, 1, true);
}

/// Which of leader `l`'s two links work, and for how many delivery rounds (0 = nothing moves).
fn net<T: Ent64>(w: &mut World<T>, l: usize, max: u64) {
    let k = choose("net", 3 * max + 1);
    for i in 0..9 {
        w.up[i] = true;
    }
    if k == 0 {
        return;
    }
    let (m, r) = ((k - 1) % 3, (k - 1) / 3 + 1);
    let a = (l + 1) % 3;
    let b = (l + 2) % 3;
    if m == 1 {
        w.set_link(l, b, false);
        w.set_link(a, b, false);
    }
    if m == 2 {
        w.set_link(l, a, false);
        w.set_link(a, b, false);
    }
    for _ in 0..r {
        if !w.pump() {
            break;
        }
    }
}

/// Epochs in which some node takes over, proposes, and part of the network works for a while; then the
/// network recovers and the cluster has to make progress again.
/// mode 1: one node crashes at any storage write; mode 2: a reconfiguration is proposed in some epoch;
/// 6: both of it, with entries batched in twos; 3, 5: as 0 and 2, but nobody is told that messages were lost.
fn takeover<T: Ent64>(epochs: usize, mode: u64) {
    let mut c = Cfg::new(3);
    c.prio = mode == 4;
    if mode == 6 {
        c.batch = 2;
    }
    let mut w: World<T> = World::new(c);
    if mode == 6 {
        w.lead(0);
        w.drain(8);
    }
    if mode == 1 || mode == 6 {
        let c = choose("crash node", 3) as usize;
        let k = choose("crash write", 6 * epochs as u64);
        let mut st = w.st[c].0.borrow_mut();
        st.crash_at = st.writes + k + 1;
    }
    w.unnoticed = mode == 3 || mode == 5;
    let reconf = if mode == 2 || mode >= 5 { choose("reconfigure in epoch", epochs as u64) as usize } else { epochs };
    for e in 0..epochs {
        let l = if e == 0 { 0 } else { choose("leader", 3) as usize };
        if mode == 6 && e == 0 {
            // goes on leading
        } else if mode == 4 {
            // ballots of the same number compete by priority
            w.lead(l);
        } else {
            w.lead_top(l);
        }
        w.append(l);
        if e == reconf {
            w.reconfigure(l, 7);
        }
        net(&mut w, l, 6);
    }
    w.recheck_all();
    cover("epochs done");
    converge(&mut w);
}

/// After the network recovers, a leader that takes over gets its proposal decided everywhere.
#[inline(never)]
pub fn converge<T: Ent64>(w: &mut World<T>) {
    w.drops.clear();
    w.twice.clear();
    for i in 0..w.c.n {
        w.st[i].0.borrow_mut().crash_at = u64::MAX;
    }
    if w.unnoticed {
        scope("C23");
    } else {
        scope("C17");
    }
    if w.unnoticed {
        // nobody is told that messages were lost
        let n = w.c.n;
        for k in 0..n * n {
            w.up[k] = true;
        }
        for _ in 0..3 {
            w.tick_all();
            w.drain(8);
        }
    } else {
        w.heal();
    }
    let quiet = w.drain(12);
    check("C17|C23: message exchange quiesces", quiet);
    // somebody who leads (or, if nobody does, node 1) takes over for good
    w.tick_all();
    w.drain(12);
    let mut l = w.c.n;
    let mut best = w.nodes[0].get_promise();
    for i in 0..w.c.n {
        if w.nodes[i].get_promise() > best {
            best = w.nodes[i].get_promise();
        }
    }
    for i in 0..w.c.n {
        if w.is_leader(i) && w.nodes[i].get_promise() == best {
            l = i;
        }
    }
    if l == w.c.n {
        cover("converge: new leader");
        for i in 0..w.c.n {
            if w.nodes[i].get_promise() == best {
                l = i;
            }
        }
        w.lead_top(l);
        w.drain(12);
    } else {
        cover("converge: leader kept");
    }
    if w.unnoticed {
        // a lost entry shows once something follows it
        w.append(l);
        w.drain(8);
        w.tick_all();
        w.drain(8);
    }
    let ok = w.append(l);
    w.drain(12);
    for _ in 0..if w.c.batch > 1 { 4 } else { 1 } {
        w.tick_all();
        w.drain(12);
    }
    let g = w.glog.len();
    if ok {
        let v = w.proposed[w.proposed.len() - 1];
        check("C17|C23: after the network recovers a new proposal at the leader is decided", g > 0 && !w.glog[g - 1].stop && w.glog[g - 1].val == v);
    } else {
        check("C17|C10|C23: an accepted stopsign is eventually decided", g > 0 && w.glog[g - 1].stop);
    }
    if w.unnoticed {
        w.tick_all();
        w.drain(12);
    }
    for i in 0..w.c.n {
        check("C17|C23: after the network recovers every node catches up", w.last_dec[i] == g);
        if !ok {
            check("C10: after the network recovers every node decides the stopsign", w.last_dec[i] == g);
        }
    }
    w.recheck_all();
    cover("converged");
}

#[derive(Clone, Copy)]
pub struct F {
    pub len: usize,
    pub ss: bool,
    pub batch: usize,
    /// 0: 2's Prepare is in flight. 1: 2 has promised and its AcceptSync was lost. 2: 2 is in sync.
    /// 4 more: nobody is told that messages were lost.
    pub start: u64,
}

/// Leader 1 and follower 2 under an arbitrary schedule of `len` steps (node 3 has been prepared and
/// synchronised and stays reachable, but is not scheduled until the end).
fn free2<T: Ent64>(f: F) {
    let unnoticed = f.start >= 4;
    let f = F { start: f.start % 4, ..f };
    let mut c = Cfg::new(3);
    c.batch = f.batch;
    let mut w: World<T> = World::new(c);
    w.lead(0);
    w.take(0);
    // 3 answers, 2's Prepare is still in flight
    w.deliver(0, 2);
    w.take(2);
    w.deliver(2, 0);
    if f.start > 0 {
        w.deliver(0, 1);
        w.take(1);
        w.deliver(1, 0);
        w.take(0);
        if f.start == 1 {
            w.lose(0, 1);
        } else {
            w.deliver(0, 1);
            w.take(1);
            w.deliver(1, 0);
        }
    }
    w.unnoticed = unnoticed;
    for _ in 0..f.len {
        let ops = if f.ss { 10 } else { 9 };
        let op = choose("op", ops);
        if unnoticed && op == 8 {
            stop();
        }
        let ok = match op {
            0 => w.append(0),
            1 => {
                w.take(0);
                true
            }
            2 => {
                w.take(1);
                w.deliver(1, 0)
            }
            3 => {
                w.take(1);
                w.lose(1, 0)
            }
            4 => w.deliver(0, 1),
            5 => w.lose(0, 1),
            6 => {
                w.tick(1);
                true
            }
            7 => {
                w.tick(0);
                true
            }
            8 => {
                w.reconnected(1, 0);
                true
            }
            _ => w.reconfigure(0, 7),
        };
        if !ok {
            stop();
        }
        w.check_prefix();
    }
    cover("schedule done");
    if f.start == 1 && !unnoticed {
        // traffic goes on before anybody notices that something was lost
        w.drain(8);
        if !w.st[0].0.borrow().live.get_stopsign().unwrap().is_some() {
            w.append(0);
        }
        w.drain(8);
        w.recheck_all();
    }
    converge(&mut w);
}

/// Servers with different batch sizes: nothing is lost between 1 and 2, 3 disappears at some point. Whatever
/// was proposed must be decided once the batches were flushed.
fn mixed<T: Ent64>(len: usize) {
    let mut c = Cfg::new(3);
    c.batch = 2;
    let size = |n| [1, 2, 3][choose(n, 3) as usize];
    c.batches = Some([size("batch of 1"), size("batch of 2"), 1]);
    let mut w: World<T> = World::new(c);
    w.lead(0);
    w.drain(6);
    let mut stopped = false;
    for _ in 0..len {
        let ok = match choose("op", 8) {
            0 => w.append(0),
            1 => {
                w.take(0);
                w.deliver(0, 1)
            }
            2 => {
                w.take(1);
                w.deliver(1, 0)
            }
            3 => {
                w.take(0);
                w.deliver(0, 2)
            }
            6 => {
                w.take(2);
                w.deliver(2, 0)
            }
            4 => {
                w.tick(1);
                true
            }
            5 => {
                w.tick(0);
                true
            }
            _ => {
                if stopped {
                    stop();
                }
                stopped = true;
                w.reconfigure(0, 7)
            }
        };
        if !ok {
            stop();
        }
        w.check_prefix();
    }
    w.isolate(2);
    for _ in 0..3 {
        w.drain(8);
        w.tick_all();
    }
    w.drain(8);
    let p = w.proposed.len() + stopped as usize;
    check("C09|C17|C21: once batches are flushed, everything proposed at the leader is decided by a majority", w.nodes[0].get_decided_idx() == p);
    check("C09|C17: a server that got everything has decided what its leader has", w.nodes[1].get_decided_idx() == p);
    cover("flushed");
    converge(&mut w);
}

/// Node 1 leads and is in sync; node 2 then takes over while 1's messages are still in flight. Both
/// propose, and the six links deliver in any order.
fn dual<T: Ent64>(len: usize, batch: usize, prio: bool) {
    let mut c = Cfg::new(3);
    c.batch = batch;
    c.prio = prio;
    let mut w: World<T> = World::new(c);
    w.lead(0);
    if !prio {
        w.drain(6);
    }
    w.append(0);
    w.take(0);
    if flag("3 has it") {
        w.deliver(0, 2);
        w.take(2);
    }
    w.lead(1);
    w.take(1);
    for _ in 0..len {
        let op = choose("op", 8);
        let ok = match op {
            0 => w.append(0),
            1 => w.append(1),
            k => {
                let (i, j) = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][k as usize - 2];
                w.take(i);
                w.deliver(i, j)
            }
        };
        if !ok {
            stop();
        }
        w.check_prefix();
    }
    cover("schedule done");
    w.recheck_all();
    converge(&mut w);
}

/// Compaction: node 1 leads, some entries are decided while node 3 may lag behind (and a stopsign may
/// follow), then `ops` compaction requests at arbitrary nodes and indexes, then a leader change over a
/// partial network, then recovery.
fn comp<T: Ent64>(k: usize, ops: usize, ss: bool) {
    comp_x::<T>(k, ops, ss, false)
}

fn comp_x<T: Ent64>(k: usize, ops: usize, ss: bool, crash: bool) {
    let mut c = Cfg::new(3);
    if ops == 1 && !crash {
        c.stride = 1 + choose("gap between pids", 2);
    }
    let mut w: World<T> = World::new(c);
    w.lead(0);
    w.drain(6);
    let cut = choose("3 is cut off after", k as u64 + 1) as usize;
    for i in 0..k {
        if i == cut {
            w.isolate(2);
        }
        w.append(0);
        w.drain(6);
    }
    if ss && flag("stopsign") {
        w.reconfigure(0, 7);
        if flag("decided") {
            w.drain(6);
        }
    } else if flag("undecided tail") {
        w.append(0);
    }
    let heal = flag("3 is back");
    if heal {
        w.heal();
        w.drain(8);
    }
    if crash {
        // a node dies before one of its next writes
        let i = choose("crash node", 3) as usize;
        let k = choose("crash write", 4);
        let mut st = w.st[i].0.borrow_mut();
        st.crash_at = st.writes + k;
    }
    for _ in 0..ops {
        let i = choose("compact at", if T::SNAPS { 4 } else { 3 }) as usize;
        let idx = choose("index", k as u64 + 3) as usize;
        let idx = if idx == k + 2 { None } else { Some(idx) };
        if T::SNAPS {
            // the leader for everybody, or one node for itself
            if i == 3 {
                w.snapshot(0, idx, false);
            } else {
                w.snapshot(i, idx, true);
            }
        } else {
            let ok = w.trim(i, idx);
            if heal && i == 0 && !crash {
                // everybody has acknowledged everything
                let d = w.nodes[0].get_decided_idx();
                check("C11: what every server has acknowledged can be trimmed", ok == (idx.unwrap_or(0) <= d));
                if idx.is_none() {
                    check("C11: a trim without an index removes everything every server has acknowledged", w.nodes[0].get_compacted_idx() + w.nodes[0].is_reconfigured().is_some() as usize == d);
                }
            }
        }
        w.drain(4);
    }
    w.recheck_all();
    cover("compacted");
    let l = choose("next leader", 4) as usize;
    if l < 3 {
        w.heal();
        let gone = choose("unreachable", 3) as usize;
        if gone < 2 {
            w.isolate((l + 1 + gone) % 3);
        }
        w.lead_top(l);
        w.append(l);
        w.drain(8);
        w.recheck_all();
    }
    converge(&mut w);
}

/// Two leaders in turn, proposals by everybody and a possible reconfiguration, with any `k` of the
/// first `max` messages lost.
fn drops<T: Ent64>(k: usize, max: u64, batch: bool, unnoticed: bool) {
    drops_x::<T>(k, max, batch, unnoticed, false)
}

/// `twice`: those messages are not lost, but arrive twice.
fn drops_x<T: Ent64>(k: usize, max: u64, batch: bool, unnoticed: bool, twice: bool) {
    let mut c = Cfg::new(3);
    if batch {
        c.batch = choose("batch", 2) as usize + 1;
        c.stride = 3;
    }
    let mut w: World<T> = World::new(c);
    w.unnoticed = unnoticed;
    let mut last = 0;
    for _ in 0..k {
        // increasing numbers
        if last < max {
            last += 1 + choose("next lost message", max - last);
            if twice {
                w.twice.push(last as usize);
            } else {
                w.drops.push(last as usize);
            }
        }
    }
    w.lead(0);
    w.append(1);
    w.drain(6);
    w.append(0);
    w.drain(6);
    let l = choose("next leader", 2) as usize;
    w.lead_top(l);
    w.append(0);
    w.append(2);
    w.drain(6);
    if flag("stopsign") {
        w.reconfigure(l, 7);
    }
    w.append(1);
    w.drain(6);
    w.tick_all();
    w.drain(6);
    w.recheck_all();
    cover("schedule done");
    converge(&mut w);
}

/// Long logs, batches and backlogs: limits and thresholds nobody configured show here.
fn many<T: Ent64>(k: usize) {
    let mut c = Cfg::new(3);
    c.batch = [1, 7, 100][choose("batch", 3) as usize];
    let mut w: World<T> = World::new(c);
    w.plain = true;
    w.lead(0);
    w.drain(6);
    // node 3 gets nothing, half or all of it; proposals come one by one, in bursts or all at once
    let cut = [0, k / 2, k][choose("3 is cut off after", 3) as usize];
    let burst = [1, 33, k][choose("burst", 3) as usize];
    for i in 0..k {
        if i == cut {
            w.isolate(2);
        }
        w.append(if burst == 33 { i % 2 } else { 0 });
        if (i + 1) % burst == 0 {
            w.drain(4);
        }
    }
    for _ in 0..if c.batch > 1 { 4 } else { 1 } {
        w.tick_all();
        w.drain(6);
    }
    check("C17|C03|C09: everything proposed at a stable leader is decided", w.nodes[0].get_decided_idx() == k);
    let at = [0, 5, k / 2 + 1, k][choose("compact to", 4) as usize];
    if at > 0 {
        if T::SNAPS {
            w.snapshot(0, Some(at), flag("local"));
        } else {
            w.trim(0, Some(at));
        }
        w.drain(4);
    }
    w.recheck_all();
    let l = choose("next leader", 3) as usize;
    w.heal();
    if l > 0 {
        w.lead_top(l);
        w.drain(8);
    }
    converge(&mut w);
}

/// A reconfiguration with an arbitrary next configuration and metadata, proposed at any server before or
/// after a leader is known; some server may miss it at first, and restart, or take over.
fn carried<T: Ent64>() {
    let mut w: World<T> = World::new(Cfg::new(3));
    let known = flag("leader known");
    if known {
        w.lead(0);
        w.drain(8);
    }
    let nodes = [vec![1, 2, 3], vec![9, 4], vec![3, 1, 5, 2]][choose("next servers", 3) as usize].clone();
    let fq = match choose("quorums", 3) {
        0 => None,
        1 => Some(FlexibleQuorum { read_quorum_size: 2, write_quorum_size: 2 }),
        _ => Some(FlexibleQuorum { read_quorum_size: 3, write_quorum_size: 2 }),
    };
    let id = sym("next configuration", 32) as u32;
    let cc = ClusterConfig { configuration_id: id, nodes, flexible_quorum: fq };
    let meta = match choose("metadata", 4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![sym("byte", 8) as u8]),
        _ => Some(vec![sym("byte", 8) as u8, sym("byte", 8) as u8]),
    };
    let at = choose("proposed at", 3) as usize;
    let before = 2 * flag("entries before") as usize;
    for _ in 0..before {
        w.append(at);
    }
    if w.nodes[at].reconfigure(cc.clone(), meta.clone()).is_err() {
        stop();
    }
    if !known {
        w.lead(0);
    }
    let miss = choose("misses it", 3) as usize;
    if miss > 0 {
        w.set_link(0, miss, false);
        w.set_link(3 - miss, miss, false);
    }
    w.drain(10);
    if flag("restart") {
        w.restart(if miss > 0 { 3 - miss } else { 0 });
    }
    if miss > 0 {
        w.set_link(0, miss, true);
        w.set_link(3 - miss, miss, true);
    }
    let l = choose("takes over", 3) as usize;
    w.lead_top(l);
    for _ in 0..3 {
        w.drain(10);
        w.tick_all();
    }
    w.drain(10);
    for i in 0..3 {
        match w.nodes[i].is_reconfigured() {
            None => check("C10: a reconfiguration is decided once the network recovers", at == miss && miss > 0),
            Some(ss) => check("C10|C01|C21: the decided stopsign is the proposed one", same_stopsign(&ss, &cc, &meta)),
        }
        let held = w.st[i].0.borrow().live.get_stopsign().unwrap();
        if let Some(ss) = held {
            check("C10|C07: the stored stopsign is the proposed one", same_stopsign(&ss, &cc, &meta));
        }
        if let Some(LogEntry::StopSign(ss, _)) = w.nodes[i].read(before) {
            check("C10|C13: the stopsign read is the proposed one", same_stopsign(&ss, &cc, &meta));
            cover("stopsign read");
        }
    }
    cover("carried");
}

fn same_stopsign(ss: &StopSign, cc: &ClusterConfig, meta: &Option<Vec<u8>>) -> bool {
    let n = &ss.next_config;
    let mut ok = and(n.configuration_id == cc.configuration_id, n.nodes == cc.nodes);
    ok = and(ok, match (&n.flexible_quorum, &cc.flexible_quorum) {
        (None, None) => true,
        (Some(a), Some(b)) => a.read_quorum_size == b.read_quorum_size && a.write_quorum_size == b.write_quorum_size,
        _ => false,
    });
    match (&ss.metadata, meta) {
        (None, None) => ok,
        (Some(a), Some(b)) if a.len() == b.len() => {
            for i in 0..a.len() {
                ok = and(ok, a[i] == b[i]);
            }
            ok
        }
        _ => false,
    }
}
