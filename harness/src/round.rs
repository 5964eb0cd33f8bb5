//! Every server crashes and restarts from an arbitrary storage state that two earlier rounds can have
//! left behind; then somebody leads a third round over a partial network, and the cluster recovers.
use crate::ent::*;
use crate::scen::converge;
use crate::store::Store;
use crate::sx::*;
use crate::world::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{StopSign, Storage};
use omnipaxos::ClusterConfig;

const Q: R = R { k: 2, m: 1, comp: 0, ss: false, net: false, full: false };
crate::harness! {
    // quick: exactly k entries in round 1 and m in round 2, nodes know nothing or everything decided
    h_round => || round::<Ent>(Q);
    h_roundr => || round::<Raw>(Q);
    h_rounds => || round::<Ent>(R { k: 1, m: 1, ss: true, ..Q });
    h_roundc => || round::<Ent>(R { k: 2, m: 1, comp: 1, ..Q });
    h_roundt => || round::<Raw>(R { k: 2, m: 1, comp: 1, ..Q });
    h_roundn => || round::<Ent>(R { k: 1, m: 1, net: true, ..Q });
    h_elect4 => || elect::<Ent>(4, 3, None);
    h_elect4r => || elect::<Raw>(4, 3, None);
    h_elect5 => || elect::<Ent>(5, 4, None);
    h_elect5r => || elect::<Raw>(5, 4, None);
    h_elect4q => || elect::<Ent>(4, 4, Some((3, 2)));
    h_elect5q => || elect::<Ent>(5, 4, Some((4, 2)));
    // thorough: up to k and m entries, any decided index
    h_roundf => || round::<Ent>(R { full: true, ..Q });
    h_roundrf => || round::<Raw>(R { full: true, ..Q });
    h_roundsf => || round::<Ent>(R { k: 2, ss: true, full: true, ..Q });
    h_roundcf => || round::<Ent>(R { comp: 1, full: true, ..Q });
    h_roundtf => || round::<Raw>(R { comp: 1, full: true, ..Q });
    h_roundnf => || round::<Ent>(R { net: true, full: true, ..Q });
}

#[derive(Clone, Copy)]
pub struct R {
    /// Entries in round 1 / new entries in round 2.
    pub k: u64,
    pub m: u64,
    /// 1: nodes have snapshotted part of what they decided.
    pub comp: u64,
    /// Round 2's log may end in a stopsign.
    pub ss: bool,
    /// Vary the network during round 3.
    pub net: bool,
    pub full: bool,
}
impl R {
    /// Anything in `lo..=hi`, or (quick) one of the two ends.
    fn pick(&self, name: &str, lo: usize, hi: usize) -> usize {
        if lo == hi {
            lo
        } else if self.full {
            lo + choose(name, (hi - lo) as u64 + 1) as usize
        } else if flag(name) {
            hi
        } else {
            lo
        }
    }
    fn upto(&self, name: &str, n: u64) -> usize {
        if self.full {
            choose(name, n + 1) as usize
        } else {
            n as usize
        }
    }
}

fn ballot(n: u32, pid: u64) -> Ballot {
    Ballot { config_id: 1, n, priority: 0, pid }
}
pub fn stopsign(id: u32) -> StopSign {
    StopSign { next_config: ClusterConfig { configuration_id: id, nodes: vec![1, 2, 3], flexible_quorum: None }, metadata: None }
}

#[derive(Clone, Copy)]
struct Nd {
    acc: Ballot,
    prom: Ballot,
    /// Accepted length (a stopsign counts).
    len: usize,
    dec: usize,
}

fn majority(a: [usize; 3]) -> usize {
    // second largest
    let mx = a[0].max(a[1]).max(a[2]);
    let mn = a[0].min(a[1]).min(a[2]);
    a[0] + a[1] + a[2] - mx - mn
}

/// Builds the three stores; returns them with the logs of round 1 and 2 and the chosen prefix.
pub fn history<T: Ent64>(r: R) -> (Vec<Store<T>>, Vec<G>, Vec<u64>) {
    // round 1, led by node 1: nodes hold prefixes of `log1`
    let b1 = ballot(1, 1);
    let k = r.upto("round 1 entries", r.k);
    let mut log1: Vec<G> = Vec::new();
    let mut proposed = Vec::new();
    for _ in 0..k {
        let v = entry("e1", proposed.len());
        proposed.push(v);
        log1.push(G { stop: false, val: v });
    }
    let mut a = [k, 0, 0];
    a[1] = choose("accepted by 2", k as u64 + 1) as usize;
    a[2] = choose("accepted by 3", k as u64 + 1) as usize;
    let chosen1 = majority(a);
    // what node 1 knows to be decided in round 1, and what of that it told the others
    let know = r.pick("decided in round 1", 0, chosen1);
    let mut d1 = [know, 0, 0];
    d1[1] = r.pick("2 told", 0, know.min(a[1]));
    d1[2] = r.pick("3 told", 0, know.min(a[2]));
    let mut nd = [Nd { acc: b1, prom: b1, len: 0, dec: 0 }; 3];
    for i in 0..3 {
        nd[i].len = a[i];
        nd[i].dec = d1[i];
    }
    let mut log2 = log1.clone();
    let mut chosen = chosen1;
    // round 2
    let l2 = choose("round 2 leader", 4) as usize;
    if l2 < 3 {
        let b2 = ballot(2, l2 as u64 + 1);
        let p = (l2 + 1 + choose("promiser", 2) as usize) % 3;
        let q = 3 - l2 - p;
        nd[l2].prom = b2;
        nd[p].prom = b2;
        nd[l2].acc = b2;
        log2.truncate(a[l2].max(a[p]));
        let base = log2.len();
        let m = r.upto("round 2 entries", r.m);
        for _ in 0..m {
            let v = entry("e2", proposed.len());
            proposed.push(v);
            log2.push(G { stop: false, val: v });
        }
        if r.ss && flag("stopsign") {
            log2.push(G { stop: true, val: 7 });
        }
        let n2 = log2.len();
        nd[l2].len = n2;
        let mut x = [0, 0, 0];
        x[l2] = n2;
        for i in [p, q] {
            // 0: no sync received; otherwise synced up to some point of the round 2 log
            let c = choose("round 2 progress", (n2 - base) as u64 + 2) as usize;
            if c > 0 {
                nd[i].acc = b2;
                nd[i].prom = b2;
                nd[i].len = base + c - 1;
                x[i] = nd[i].len;
            }
        }
        chosen = chosen.max(majority(x));
        // the leader knows what its promiser knew, and what was chosen in its round
        let from = d1[l2].max(d1[p]);
        nd[l2].dec = r.pick("decided in round 2", from, from.max(majority(x)));
        for i in [p, q] {
            if nd[i].acc == b2 {
                let hi = from.max(d1[i]).max(nd[l2].dec.min(nd[i].len));
                nd[i].dec = if r.full { r.pick("told in round 2", from.max(d1[i]), hi) } else { hi };
            }
        }
    }
    // the leader of round 1 may have trimmed what everybody had accepted by then
    let all = a[0].min(a[1]).min(a[2]).min(know);
    let trimmed = r.comp == 1 && !T::SNAPS && all > 0 && flag("1 trimmed");
    let mut st = Vec::new();
    for i in 0..3 {
        // what a node holds is a prefix of the log of its accepted round
        let lg = if nd[i].acc == b1 { &log1 } else { &log2 };
        let s: Store<T> = Store::new();
        {
            let mut inn = s.0.borrow_mut();
            let m = &mut inn.live;
            let mut v = Vec::new();
            for g in &lg[..nd[i].len] {
                if g.stop {
                    m.set_stopsign(Some(stopsign(g.val as u32))).unwrap();
                } else {
                    v.push(T::mk(g.val));
                }
            }
            m.append_entries(v).unwrap();
            m.set_promise(nd[i].prom).unwrap();
            m.set_accepted_round(nd[i].acc).unwrap();
            m.set_decided_idx(nd[i].dec).unwrap();
            if trimmed && nd[i].dec >= all && (i == 0 || flag("trimmed")) {
                m.trim(all).unwrap();
                m.set_compacted_idx(all).unwrap();
            }
            if r.comp == 1 && T::SNAPS {
                let mut plain = nd[i].dec;
                if plain > 0 && lg[plain - 1].stop {
                    plain -= 1;
                }
                if plain > 0 && flag("compacted") {
                    let mut f = Vec::new();
                    for g in &lg[..plain] {
                        f.push(g.val);
                    }
                    m.trim(plain).unwrap();
                    m.set_compacted_idx(plain).unwrap();
                    m.set_snapshot(T::mk_fold(f)).unwrap();
                }
            }
        }
        st.push(s);
    }
    let mut glog = Vec::new();
    for g in log2.iter().take(chosen) {
        glog.push(*g);
    }
    (st, glog, proposed)
}

fn round<T: Ent64>(r: R) {
    let (st, glog, proposed) = history::<T>(r);
    let mut w: World<T> = World::from_stores(Cfg::new(3), st);
    w.glog = glog;
    w.proposed = proposed;
    for i in 0..3 {
        w.observe(i);
    }
    let l = choose("round 3 leader", 3) as usize;
    w.lead_top(l);
    if !w.st[l].0.borrow().live.get_stopsign().unwrap().is_some() && flag("propose") {
        w.append(l);
    }
    // only the leader and one of the others, or everybody
    let k = choose("reachable", 3) as usize;
    if k < 2 {
        let gone = (l + 1 + k) % 3;
        w.isolate(gone);
    }
    let rounds = if r.net { choose("delivery rounds", 6) as usize } else { 8 };
    for _ in 0..rounds {
        w.pump();
    }
    w.recheck_all();
    cover("round 3 done");
    if w.is_leader(l) {
        cover("round 3 leader synchronised");
    }
    converge(&mut w);
}

/// `n` nodes restart with what round 1 (led by the last node) left behind; node 1 collects promises for
/// round 2 in any order, while the others may crash and restart in between.
fn elect<T: Ent64>(n: usize, len: usize, fq: Option<(usize, usize)>) {
    let mut c = Cfg::new(n);
    c.fq = fq;
    let b1 = ballot(1, n as u64);
    let mut proposed = Vec::new();
    let mut log = Vec::new();
    for _ in 0..2 {
        let v = entry("e1", proposed.len());
        proposed.push(v);
        log.push(G { stop: false, val: v });
    }
    // how many nodes besides the leader accepted both entries; nodes are interchangeable up to the
    // schedule, except for node 1, which leads next
    let mut acc = vec![2usize; n];
    let mut have = 1;
    for i in 0..n - 1 {
        acc[i] = 2 * choose("accepted", 2) as usize;
        have += acc[i] / 2;
    }
    let chosen = if have >= c.write_quorum() { 2 } else { 0 };
    let mut st = Vec::new();
    for i in 0..n {
        let dec = if chosen > 0 && acc[i] == 2 && (i == n - 1 || flag("decided")) { 2 } else { 0 };
        let s: Store<T> = Store::new();
        {
            let mut inn = s.0.borrow_mut();
            let m = &mut inn.live;
            let mut v = Vec::new();
            for g in &log[..acc[i]] {
                v.push(T::mk(g.val));
            }
            m.append_entries(v).unwrap();
            m.set_promise(b1).unwrap();
            m.set_accepted_round(b1).unwrap();
            m.set_decided_idx(dec).unwrap();
        }
        st.push(s);
    }
    let mut w: World<T> = World::from_stores(c, st);
    w.proposed = proposed;
    for k in 0..chosen {
        w.glog.push(log[k]);
    }
    for i in 0..n {
        w.observe(i);
        // connections are fresh
        let mut b = Vec::new();
        w.nodes[i].take_outgoing_messages(&mut b);
    }
    w.lead(0);
    w.take(0);
    for _ in 0..len {
        let f = 1 + choose("node", n as u64 - 1) as usize;
        if flag("restarts") {
            w.restart(f);
            w.take(f);
        } else {
            w.take(0);
            if !w.deliver(0, f) {
                stop();
            }
            w.take(f);
        }
        while w.deliver(f, 0) {}
    }
    cover("promises collected");
    w.drain(8);
    w.append(0);
    w.drain(8);
    w.recheck_all();
    converge(&mut w);
}
