//! A cluster of real OmniPaxos nodes joined by FIFO links, plus the monitors that turn the properties
//! into assertions. Everything goes through the public API.
use crate::ent::Ent64;
use crate::store::Store;
use crate::sx::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::HeartbeatMsg;
use omnipaxos::messages::sequence_paxos::*;
use omnipaxos::messages::Message;
use omnipaxos::storage::{StopSign, Storage};
use omnipaxos::util::{FlexibleQuorum, LogEntry};
use omnipaxos::{ClusterConfig, CompactionErr, OmniPaxos, OmniPaxosConfig, ProposeErr, ServerConfig};
use std::collections::VecDeque;

pub type Node<T> = OmniPaxos<T, Store<T>>;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub n: usize,
    pub batch: usize,
    /// Batch size of each of the first nodes, where they differ.
    pub batches: Option<[usize; 3]>,
    pub fq: Option<(usize, usize)>,
    pub election: u64,
    pub resend: u64,
    pub flush: u64,
    pub ble: bool,
    /// Node `i` has pid `1 + i * stride`.
    pub stride: u64,
    /// Nodes have arbitrary priorities.
    pub prio: bool,
}
impl Cfg {
    pub fn new(n: usize) -> Cfg {
        Cfg { n, batch: 1, batches: None, fq: None, election: u64::MAX, resend: 1, flush: 1, ble: false, stride: 1, prio: false }
    }
    pub fn pid(&self, i: usize) -> u64 {
        1 + i as u64 * self.stride
    }
    pub fn idx(&self, pid: u64) -> usize {
        ((pid - 1) / self.stride) as usize
    }
    pub fn write_quorum(&self) -> usize {
        match self.fq {
            Some((_, w)) => w,
            None => self.n / 2 + 1,
        }
    }
}

/// One element of the decided log: an entry's payload, or a stopsign (its next configuration id).
#[derive(Clone, Copy)]
pub struct G {
    pub stop: bool,
    pub val: u64,
}
#[inline(always)]
pub fn same(a: G, b: G) -> bool {
    a.stop == b.stop && a.val == b.val
}

pub struct World<T: Ent64> {
    pub c: Cfg,
    pub nodes: Vec<Node<T>>,
    pub st: Vec<Store<T>>,
    pub link: Vec<VecDeque<Message<T>>>,
    pub up: Vec<bool>,
    /// The link i->j lost a message since its endpoints last called `reconnected`.
    pub lossy: Vec<bool>,
    /// The decided log, as first reported by any node.
    pub glog: Vec<G>,
    pub proposed: Vec<u64>,
    pub last_dec: Vec<usize>,
    pub last_prom: Vec<Ballot>,
    /// A node's decided prefix below this index was compacted away without being seen.
    pub crashed: Vec<bool>,
    pub hide_ble: bool,
    /// Lost messages are not followed by `reconnected`: only the resend timer repairs them.
    pub unnoticed: bool,
    /// Numbers of the messages that are lost, and how many were sent so far.
    pub drops: Vec<usize>,
    pub sent: usize,
    /// Numbers of the messages that arrive twice.
    pub twice: Vec<usize>,
    /// The ballot in which the node was last seen to have completed the prepare phase as leader.
    pub led: Vec<Ballot>,
    pub prio: Vec<u32>,
    /// The highest ballot the node has used as a leader, and the one it had used when it last restarted.
    pub own: Vec<Ballot>,
    pub own_before: Vec<Ballot>,
    /// Ballots whose owner was seen leading in the accept phase.
    pub ready: Vec<Ballot>,
    /// Entries a write quorum has accepted in one round, whether anybody knows it or not.
    pub chosen: Vec<G>,
    /// Entries are plain numbers (for logs too long for arbitrary payloads).
    pub plain: bool,
}

/// An arbitrary payload; the low byte is the proposal's number, so payloads are distinct.
#[inline(never)]
pub fn entry(name: &str, k: usize) -> u64 {
    #[cfg(feature = "unicache")]
    return sym(name, 48) << 16 | choose("cached field", (k as u64 + 1).min(3)) << 8 | (k as u64 + 1);
    #[cfg(not(feature = "unicache"))]
    return sym(name, 56) << 8 | (k as u64 + 1);
}

#[inline(never)]
pub fn mk_node<T: Ent64>(c: &Cfg, pid: u64, prio: u32, s: Store<T>) -> Node<T> {
    let mut nodes = Vec::with_capacity(c.n);
    for i in 0..c.n {
        nodes.push(c.pid(i));
    }
    let mut sc = ServerConfig::default();
    sc.pid = pid;
    // the buffer only has an initial capacity: more messages than that are never dropped
    sc.buffer_size = 1;
    sc.batch_size = match c.batches {
        Some(b) => b[c.idx(pid)],
        None => c.batch,
    };
    sc.election_tick_timeout = c.election;
    sc.resend_message_tick_timeout = c.resend;
    sc.flush_batch_tick_timeout = c.flush;
    sc.leader_priority = prio;
    let cfg = OmniPaxosConfig {
        cluster_config: ClusterConfig {
            configuration_id: 1,
            nodes,
            flexible_quorum: c.fq.map(|(r, w)| FlexibleQuorum {
                read_quorum_size: r,
                write_quorum_size: w,
            }),
        },
        server_config: sc,
    };
    match cfg.build(s) {
        Ok(n) => n,
        Err(_) => {
            check("C14: a valid configuration builds", false);
            stop()
        }
    }
}

#[inline(never)]
fn n_append<T: Ent64>(n: &mut Node<T>, v: u64) -> Result<(), ProposeErr<T>> {
    n.append(T::mk(v))
}
#[inline(never)]
fn n_handle<T: Ent64>(n: &mut Node<T>, m: Message<T>) {
    #[cfg(feature = "unicache")]
    let m = T::sent(m);
    n.handle_incoming(m)
}
#[inline(never)]
fn n_take<T: Ent64>(n: &mut Node<T>, b: &mut Vec<Message<T>>) {
    n.take_outgoing_messages(b)
}
#[inline(never)]
fn n_suffix<T: Ent64>(n: &Node<T>, f: usize) -> Option<Vec<LogEntry<T>>> {
    n.read_decided_suffix(f)
}
#[inline(never)]
fn n_tick<T: Ent64>(n: &mut Node<T>) {
    n.tick()
}

pub fn ss_id(ss: &StopSign) -> u64 {
    ss.next_config.configuration_id as u64
}

impl<T: Ent64> World<T> {
    #[inline(never)]
    pub fn new(c: Cfg) -> World<T> {
        let mut st = Vec::with_capacity(c.n);
        for _ in 0..c.n {
            st.push(Store::new());
        }
        Self::from_stores(c, st)
    }

    #[inline(never)]
    pub fn from_stores(c: Cfg, st: Vec<Store<T>>) -> World<T> {
        let n = c.n;
        let mut w = World {
            c,
            nodes: Vec::with_capacity(n),
            st,
            link: Vec::with_capacity(n * n),
            up: vec![true; n * n],
            lossy: vec![false; n * n],
            glog: Vec::with_capacity(8),
            proposed: Vec::with_capacity(8),
            last_dec: vec![0; n],
            last_prom: vec![Ballot::default(); n],
            crashed: vec![false; n],
            hide_ble: !c.ble,
            unnoticed: false,
            drops: Vec::new(),
            sent: 0,
            twice: Vec::new(),
            led: vec![Ballot::default(); n],
            prio: vec![0; n],
            own: vec![Ballot::default(); n],
            own_before: vec![Ballot::default(); n],
            ready: Vec::new(),
            chosen: Vec::new(),
            plain: false,
        };
        if c.batch > 1 {
            scope("C09");
        }
        if c.prio {
            for i in 0..n {
                w.prio[i] = sym("priority", 32) as u32;
            }
        }
        for _ in 0..n * n {
            w.link.push(VecDeque::new());
        }
        for i in 0..n {
            let nd = mk_node(&c, c.pid(i), w.prio[i], w.st[i].share());
            w.nodes.push(nd);
            w.last_prom[i] = w.nodes[i].get_promise();
        }
        w
    }

    /// To be called after every call into node `i`: if the crash point was hit, the process died in that
    /// call (nothing it produced in it left the machine) and is restarted from what was on disk.
    #[inline(never)]
    pub fn after(&mut self, i: usize) {
        let dead = self.st[i].0.borrow_mut().at_crash.take();
        if let Some(d) = dead {
            {
                let mut s = self.st[i].0.borrow_mut();
                s.live = d;
                s.crash_at = u64::MAX;
            }
            self.restart(i);
        } else {
            self.observe(i);
        }
    }

    /// Process crash and restart from storage; connections to the node break.
    #[inline(never)]
    pub fn restart(&mut self, i: usize) {
        #[cfg(feature = "trace")]
        eprintln!("restart {}", i + 1);
        for j in 0..self.c.n {
            if j != i {
                self.link[j * self.c.n + i].clear();
                self.lossy[j * self.c.n + i] = true;
                self.lossy[i * self.c.n + j] = true;
            }
        }
        self.st[i].0.borrow_mut().reopen();
        let nd = mk_node(&self.c, self.c.pid(i), self.prio[i], self.st[i].share());
        self.nodes[i] = nd;
        self.crashed[i] = true;
        self.own_before[i] = self.own[i];
        scope("C07");
        // what was reported decided before the crash must still be decided and identical
        let d = self.nodes[i].get_decided_idx();
        check("C02|C07: a restarted node still has its decided index", d >= self.last_dec[i]);
        self.observe(i);
        self.recheck(i);
    }

    #[inline(never)]
    pub fn observe(&mut self, i: usize) {
        let d = self.nodes[i].get_decided_idx();
        let last = self.last_dec[i];
        check("C02: the decided index never goes back", d >= last);
        if d > last {
            match n_suffix(&self.nodes[i], last) {
                Some(v) => self.learn(i, last, d, v),
                None => check("C01|C02|C13: newly decided entries can be read", false),
            }
            self.last_dec[i] = d;
        }
        let stopped = d > 0 && d <= self.glog.len() && self.glog[d - 1].stop;
        let r = self.nodes[i].is_reconfigured();
        check(
            "C10: a node reports the configuration stopped exactly when its decided log ends in the stopsign",
            r.is_some() == stopped,
        );
        if let Some(ss) = r {
            if stopped {
                check("C10|C01: reported stopsign is the decided one", ss_id(&ss) == self.glog[d - 1].val);
            }
        }
        let p = self.nodes[i].get_promise();
        check("C05: the promised ballot never goes back", p >= self.last_prom[i]);
        self.last_prom[i] = p;
        let sp = self.st[i].0.borrow().live.get_promise().unwrap();
        check("C05|C07: the promised ballot is on storage", sp == Some(p) || (sp.is_none() && p == Ballot::default()));
        if self.is_leader(i) && self.led[i] != p {
            self.led[i] = p;
            self.ready.push(p);
            self.new_leader(i, p);
        }
        if want("C26") {
            self.status(i, p, d);
        }
        if want("C06") {
            self.choose_more(i);
        }
        let cp = self.nodes[i].get_compacted_idx();
        check("C11: only decided entries are compacted", cp <= d);
        if !T::SNAPS && cp > 0 && cp <= self.glog.len() {
            let mut ok = true;
            for j in 0..self.c.n {
                for k in 0..cp {
                    ok = and(ok, self.has_durable(j, k, self.glog[k]));
                }
            }
            check("C11: a trimmed entry is held by every server", ok);
        }
    }

    /// Node `i` just completed the prepare phase: if nobody has promised a higher ballot, its log must
    /// contain everything decided so far.
    #[inline(never)]
    fn new_leader(&self, i: usize, p: Ballot) {
        for j in 0..self.c.n {
            if self.nodes[j].get_promise() > p {
                return;
            }
        }
        cover("leader elected");
        if self.glog.len() > 0 {
            cover("leader elected after something was chosen");
        }
        let mut ok = true;
        for k in 0..self.glog.len() {
            ok = and(ok, self.has_durable(i, k, self.glog[k]));
        }
        check("C06|C01: a new leader's log contains every entry decided before", ok);
        for k in self.glog.len()..self.chosen.len() {
            cover("leader elected after something was accepted by a quorum");
            check("C06: a new leader's log contains every entry a write quorum has accepted before", self.has_durable(i, k, self.chosen[k]));
        }
    }

    /// What node `i` tells about itself and others.
    #[inline(never)]
    fn status(&self, i: usize, p: Ballot, d: usize) {
        let l = self.nodes[i].get_current_leader();
        check("C26: the owner of the promised ballot is reported as leader", l.map(|x| x.0) == if p.pid == 0 { None } else { Some(p.pid) });
        if let Some((_, true)) = l {
            check("C26: a leader is reported to be in the accept phase only if it got there", self.ready.contains(&p));
        }
        let u = self.nodes[i].get_ui_states();
        check("C26: all reports agree", u.decided_idx == d && u.current_leader == l.map(|x| x.0));
        if self.is_leader(i) {
            let a = &u.cluster_state.accepted_indexes;
            for j in 0..self.c.n {
                if self.nodes[j].get_promise() == p {
                    let known = a[self.c.pid(j) as usize];
                    check("C26: a leader reports of each server only what it has stored", known <= self.stored(j));
                    if j == i && self.c.batch == 1 {
                        check("C26: a leader reports all it has stored itself", known == self.stored(i));
                    }
                }
            }
        }
    }

    /// Length of the log (with its stopsign) on node `j`'s storage.
    fn stored(&self, j: usize) -> usize {
        let s = self.st[j].0.borrow();
        let s = &s.live;
        s.get_compacted_idx().unwrap() + s.get_log_len().unwrap() + s.get_stopsign().unwrap().is_some() as usize
    }

    /// Node `i`'s storage may have changed: is there an entry now that a write quorum has accepted in its round?
    #[inline(never)]
    fn choose_more(&mut self, i: usize) {
        let acc = self.st[i].0.borrow().live.get_accepted_round().unwrap();
        if acc.is_none() {
            return;
        }
        let mut len = Vec::with_capacity(self.c.n);
        for j in 0..self.c.n {
            if self.st[j].0.borrow().live.get_accepted_round().unwrap() == acc {
                len.push(self.stored(j));
            }
        }
        if len.len() < self.c.write_quorum() {
            return;
        }
        len.sort();
        let upto = len[len.len() - self.c.write_quorum()];
        while self.chosen.len() < upto {
            let k = self.chosen.len();
            let g = if k < self.glog.len() {
                self.glog[k]
            } else {
                let s = self.st[i].0.borrow();
                let s = &s.live;
                let mut v = s.get_entries(k, k + 1).unwrap();
                match (v.pop(), s.get_stopsign().unwrap()) {
                    (Some(e), _) => G { val: e.val(), stop: false },
                    (None, Some(ss)) => G { val: ss_id(&ss), stop: true },
                    _ => return,
                }
            };
            self.chosen.push(g);
        }
    }

    /// No entry occurs more often in the decided log than it was proposed.
    #[inline(never)]
    pub fn check_once(&self) {
        let mut ok = true;
        for k in 0..self.glog.len() {
            if self.glog[k].stop {
                continue;
            }
            let v = self.glog[k].val;
            let mut a = 0;
            let mut b = 0;
            for g in &self.glog {
                if !g.stop {
                    a += ite(g.val == v, 1, 0);
                }
            }
            for p in &self.proposed {
                b += ite(*p == v, 1, 0);
            }
            ok = and(ok, a <= b);
        }
        check("C03: no entry is decided more often than it was proposed", ok);
    }

    /// Entries `from..to` of the decided log as node `i` reports them.
    #[inline(never)]
    pub fn learn(&mut self, i: usize, from: usize, to: usize, v: Vec<LogEntry<T>>) {
        let mut pos = from;
        for e in v {
            match e {
                LogEntry::Decided(x) => {
                    self.decide(i, pos, G { stop: false, val: x.val() });
                    pos += 1;
                }
                LogEntry::StopSign(ss, dec) => {
                    check("C10|C13: a stopsign in the decided log is flagged decided", dec);
                    self.decide(i, pos, G { stop: true, val: ss_id(&ss) });
                    pos += 1;
                }
                LogEntry::Snapshotted(s) => {
                    let f = T::fold(&s.snapshot);
                    check(
                        "C12|C01|C11|C02: a snapshot folds exactly the decided entries it stands for",
                        f.len() == s.trimmed_idx,
                    );
                    check("C12|C13: a snapshot stands for decided entries only", s.trimmed_idx <= to);
                    for k in 0..f.len() {
                        let g = G { stop: false, val: f[k] };
                        if k < self.glog.len() {
                            check("C12|C01|C11|C02: a snapshot holds the decided entries in order", same(g, self.glog[k]));
                        } else {
                            self.decide(i, k, g);
                        }
                    }
                    pos = s.trimmed_idx;
                }
                LogEntry::Trimmed(t) => {
                    check("C11|C13: a trimmed prefix is decided", t <= to);
                    pos = t;
                }
                LogEntry::Undecided(_) => {
                    check("C13|C01: the decided suffix contains only decided entries", false)
                }
            }
        }
        check("C13|C01|C02: the decided suffix is complete", pos == to);
    }

    #[inline(never)]
    pub fn decide(&mut self, i: usize, pos: usize, g: G) {
        if pos < self.glog.len() {
            if self.glog[pos].stop || g.stop {
                check("C01|C10: two nodes decide the same stopsign at the same index", same(self.glog[pos], g));
            }
            check("C01|C20: two nodes decide the same entry at every index", same(self.glog[pos], g));
            return;
        }
        check("C01: no gaps in the decided log", pos == self.glog.len());
        let _ = i;
        let mut ok = false;
        if g.stop {
            ok = true;
        }
        for k in 0..self.proposed.len() {
            ok = or(ok, self.proposed[k] == g.val);
        }
        check("C03|C20: every decided entry was proposed", ok);
        if pos > 0 {
            check("C10: nothing is decided after a stopsign", !self.glog[pos - 1].stop);
        }
        let mut count = 0;
        for j in 0..self.c.n {
            count += ite(self.has_durable(j, pos, g), 1, 0);
        }
        check(
            "C04: an entry is decided only once a write quorum has it on storage",
            count >= self.c.write_quorum() as u64,
        );
        self.glog.push(g);
    }

    /// Does node `j`'s storage hold `g` at index `pos` (or a compacted prefix that covers it)?
    #[inline(never)]
    pub fn has_durable(&self, j: usize, pos: usize, g: G) -> bool {
        let s = self.st[j].0.borrow();
        let s = &s.live;
        let c = s.get_compacted_idx().unwrap();
        if pos < c {
            return true;
        }
        let l = s.get_log_len().unwrap() + c;
        if pos < l {
            let e = s.get_entries(pos, pos + 1).unwrap();
            return e.len() == 1 && and(!g.stop, e[0].val() == g.val);
        }
        if pos == l {
            return match s.get_stopsign().unwrap() {
                Some(ss) => g.stop && ss_id(&ss) == g.val,
                None => false,
            };
        }
        false
    }

    /// Everything node `i` has decided, read again, is what was decided.
    #[inline(never)]
    pub fn recheck(&mut self, i: usize) {
        let d = self.nodes[i].get_decided_idx();
        if d > 0 {
            match n_suffix(&self.nodes[i], 0) {
                Some(v) => self.learn(i, 0, d, v),
                None => check("C01|C02|C13: decided entries can be read", false),
            }
        }
    }

    pub fn recheck_all(&mut self) {
        for i in 0..self.c.n {
            self.recheck(i);
        }
        self.check_once();
    }

    /// Followers in the accept phase of round n hold a prefix of the log of the leader of round n.
    #[inline(never)]
    pub fn check_prefix(&self) {
        for l in 0..self.c.n {
            let lp = self.nodes[l].get_promise();
            if self.nodes[l].get_current_leader() != Some((self.c.pid(l), true)) {
                continue;
            }
            for f in 0..self.c.n {
                if f == l || self.nodes[f].get_promise() != lp {
                    continue;
                }
                if self.nodes[f].get_current_leader() != Some((self.c.pid(l), true)) {
                    continue;
                }
                self.prefix_of(f, l);
            }
        }
    }

    #[inline(never)]
    fn prefix_of(&self, f: usize, l: usize) {
        let sf = self.st[f].0.borrow();
        let sl = self.st[l].0.borrow();
        let cf = sf.live.get_compacted_idx().unwrap();
        let cl = sl.live.get_compacted_idx().unwrap();
        let lf = sf.live.get_log_len().unwrap() + cf;
        let ll = sl.live.get_log_len().unwrap() + cl;
        check("C08|C01|C09: a follower's log is never longer than its leader's", lf <= ll);
        let from = cf.max(cl);
        if lf > from && lf <= ll {
            let ef = sf.live.get_entries(from, lf).unwrap();
            let el = sl.live.get_entries(from, lf).unwrap();
            check("C08: logs are contiguous", ef.len() == lf - from && el.len() == lf - from);
            let mut ok = true;
            for k in 0..ef.len().min(el.len()) {
                ok = and(ok, ef[k].val() == el[k].val());
            }
            check("C08|C01|C09: a follower's log is a prefix of its leader's log", ok);
        }
        if let Some(ss) = sf.live.get_stopsign().unwrap() {
            match sl.live.get_stopsign().unwrap() {
                Some(s2) => check("C08|C10: a follower's stopsign is its leader's, at the same index", lf == ll && ss_id(&ss) == ss_id(&s2)),
                None => check("C08|C10: a follower's stopsign is its leader's", false),
            }
        }
    }

    // ---- operations -------------------------------------------------------------------------------

    /// Propose a fresh arbitrary entry at node `i`.
    #[inline(never)]
    pub fn append(&mut self, i: usize) -> bool {
        #[cfg(feature = "trace")]
        eprintln!("append at {}", i + 1);
        let v = if self.plain { self.proposed.len() as u64 + 1 } else { entry("entry", self.proposed.len()) };
        let held = self.st[i].0.borrow().live.get_stopsign().unwrap().is_some();
        self.proposed.push(v);
        let r = n_append(&mut self.nodes[i], v);
        check("C10: a proposal is refused exactly when a stopsign is accepted", r.is_err() == held);
        let ok = match r {
            Ok(()) => true,
            Err(ProposeErr::PendingReconfigEntry(e)) => {
                check("C10: a refused entry is handed back", e.val() == v);
                false
            }
            Err(_) => {
                check("C10: a refused entry is reported as pending reconfiguration", false);
                false
            }
        };
        self.after(i);
        ok
    }

    #[inline(never)]
    pub fn reconfigure(&mut self, i: usize, id: u32) -> bool {
        #[cfg(feature = "trace")]
        eprintln!("reconfigure at {}", i + 1);
        let held = self.st[i].0.borrow().live.get_stopsign().unwrap().is_some();
        let cc = ClusterConfig { configuration_id: id, nodes: vec![1, 2, 3], flexible_quorum: None };
        let r = self.nodes[i].reconfigure(cc, None);
        check("C10: a reconfiguration is refused exactly when a stopsign is accepted", r.is_err() == held);
        let ok = r.is_ok();
        self.after(i);
        ok
    }

    #[inline(never)]
    pub fn lead(&mut self, i: usize) {
        #[cfg(feature = "trace")]
        eprintln!("lead {}", i + 1);
        self.nodes[i].try_become_leader();
        self.after(i);
    }

    /// Node `i` tries to lead until its ballot is the highest of all.
    #[inline(never)]
    pub fn lead_top(&mut self, i: usize) {
        for _ in 0..4 {
            self.lead(i);
            let p = self.nodes[i].get_promise();
            let mut top = p.pid == self.c.pid(i);
            for j in 0..self.c.n {
                if self.nodes[j].get_promise() > p {
                    top = false;
                }
            }
            if top {
                return;
            }
        }
    }

    #[inline(never)]
    pub fn tick(&mut self, i: usize) {
        #[cfg(feature = "trace")]
        eprintln!("tick {}", i + 1);
        n_tick(&mut self.nodes[i]);
        self.after(i);
    }

    #[inline(never)]
    pub fn tick_all(&mut self) {
        for i in 0..self.c.n {
            self.tick(i);
        }
    }

    #[inline(never)]
    pub fn reconnected(&mut self, i: usize, peer: usize) {
        #[cfg(feature = "trace")]
        eprintln!("reconnected {} to {}", i + 1, peer + 1);
        self.nodes[i].reconnected(self.c.pid(peer));
        self.after(i);
    }

    #[inline(never)]
    pub fn snapshot(&mut self, i: usize, idx: Option<usize>, local: bool) -> bool {
        let d = self.nodes[i].get_decided_idx();
        let c = self.nodes[i].get_compacted_idx();
        let r = self.nodes[i].snapshot(idx, local);
        let c2 = self.nodes[i].get_compacted_idx();
        match r {
            Ok(()) => {
                let want = self.without_stopsign(i, idx.unwrap_or(d));
                check("C11: a snapshot of undecided entries is refused", want <= d);
                check("C11|C12: a snapshot compacts up to the index asked for", c2 == c.max(want));
                scope("C11");
            }
            Err(CompactionErr::UndecidedIndex(x)) => {
                check("C11: a snapshot is refused only beyond the decided index", idx.unwrap_or(0) > d && x == d);
                check("C11: a refused compaction changes nothing", c2 == c);
            }
            Err(_) => check("C11: a snapshot is refused only beyond the decided index", idx.unwrap_or(d) < c && c2 == c),
        }
        self.after(i);
        r.is_ok()
    }

    /// A stopsign at the end of the decided log is never part of what is compacted.
    fn without_stopsign(&self, i: usize, idx: usize) -> usize {
        let d = self.nodes[i].get_decided_idx();
        if idx == d && self.nodes[i].is_reconfigured().is_some() {
            d - 1
        } else {
            idx
        }
    }

    #[inline(never)]
    pub fn trim(&mut self, i: usize, idx: Option<usize>) -> bool {
        let d = self.nodes[i].get_decided_idx();
        let c = self.nodes[i].get_compacted_idx();
        let lead = self.nodes[i].get_current_leader().map(|x| x.0) == Some(self.c.pid(i));
        let r = self.nodes[i].trim(idx);
        let c2 = self.nodes[i].get_compacted_idx();
        match r {
            Ok(()) => {
                check("C11: only a leader trims", lead);
                scope("C11");
                if let Some(x) = idx {
                    check("C11: a trim of undecided entries is refused", x <= d);
                    check("C11: a trim removes exactly the entries asked for", c2 == c.max(self.without_stopsign(i, x)));
                }
            }
            Err(e) => {
                check("C11: a refused compaction changes nothing", c2 == c);
                if let CompactionErr::NotCurrentLeader(p) = e {
                    check("C11: a trim is refused at a follower, which names the leader", p == self.nodes[i].get_promise().pid);
                }
            }
        }
        self.after(i);
        r.is_ok()
    }

    pub fn is_leader(&self, i: usize) -> bool {
        self.nodes[i].get_current_leader() == Some((self.c.pid(i), true))
    }

    /// Fetch node `i`'s outgoing messages onto its links.
    #[inline(never)]
    pub fn take(&mut self, i: usize) {
        let mut b: Vec<Message<T>> = Vec::new();
        n_take(&mut self.nodes[i], &mut b);
        for m in b {
            self.link_push(i, m);
        }
    }

    #[inline(never)]
    pub fn link_push(&mut self, i: usize, m: Message<T>) {
        if self.hide_ble {
            if let Message::BLE(_) = m {
                return;
            }
        }
        self.check_out(i, &m);
        let r = m.get_receiver();
        self.sent += 1;
        if r == 0 || self.c.idx(r) >= self.c.n {
            return;
        }
        let to = self.c.idx(r);
        for k in 0..self.drops.len() {
            if self.drops[k] == self.sent {
                #[cfg(feature = "trace")]
                eprintln!("  LOST {:?}", m);
                self.lossy[i * self.c.n + to] = true;
                return;
            }
        }
        for k in 0..self.twice.len() {
            if self.twice[k] == self.sent {
                // (a proposal that arrives twice is proposed twice)
                let proposal = match &m {
                    Message::SequencePaxos(p) => match p.msg {
                        PaxosMsg::ProposalForward(_) | PaxosMsg::ForwardStopSign(_) => true,
                        _ => false,
                    },
                    _ => false,
                };
                if !proposal {
                    self.link[i * self.c.n + to].push_back(m.clone());
                }
            }
        }
        self.link[i * self.c.n + to].push_back(m);
    }

    #[inline(never)]
    fn check_out(&mut self, i: usize, m: &Message<T>) {
        let pid = self.c.pid(i);
        let to = m.get_receiver();
        check("C22: messages carry their sender's id", m.get_sender() == pid);
        check("C22: messages are addressed to another member", to != pid && to >= 1 && self.c.idx(to) < self.c.n && self.c.pid(self.c.idx(to)) == to);
        if let Message::SequencePaxos(p) = m {
            let n = match &p.msg {
                PaxosMsg::Prepare(x) => Some(x.n),
                PaxosMsg::AcceptSync(x) => Some(x.n),
                PaxosMsg::AcceptDecide(x) => Some(x.n),
                _ => None,
            };
            if let Some(n) = n {
                check("C15|C07: a ballot used before a crash is not used again after it", self.own_before[i] == Ballot::default() || n > self.own_before[i]);
                check("C15: a leader does not go back to an earlier ballot", n >= self.own[i]);
                self.own[i] = n;
            }
        }
        if let Message::BLE(b) = m {
            if let HeartbeatMsg::Reply(r) = &b.msg {
                check("C15|C16: a server campaigns only with ballots that carry its own id", r.ballot.pid == pid);
            }
        }
        let s = self.st[i].0.borrow();
        let s = &s.live;
        if let Message::SequencePaxos(p) = m {
            let prom = s.get_promise().unwrap().unwrap_or_default();
            let acc = s.get_accepted_round().unwrap().unwrap_or_default();
            let round = match &p.msg {
                PaxosMsg::AcceptSync(x) => Some(x.n),
                PaxosMsg::AcceptDecide(x) => Some(x.n),
                PaxosMsg::AcceptStopSign(x) => Some(x.n),
                PaxosMsg::Accepted(x) => Some(x.n),
                _ => None,
            };
            if let Some(n) = round {
                check("C04|C07: the round in which a log is accepted is on storage before others hear of it", acc >= n);
            }
            match &p.msg {
                PaxosMsg::Prepare(x) => {
                    check("C05|C15: a leader uses only its own ballot", x.n.pid == pid);
                    check("C05|C07: a leader's ballot is on storage before it is used", prom >= x.n);
                }
                PaxosMsg::Promise(x) => {
                    check("C05|C07: a promise is on storage before it is sent", prom >= x.n);
                    check("C06|C07: what a promise reports is on storage", acc >= x.n_accepted && s.get_decided_idx().unwrap() >= x.decided_idx);
                    check("C22: a promise goes to the ballot's owner", x.n.pid == to);
                }
                PaxosMsg::AcceptSync(x) => {
                    check("C05|C15: a leader uses only its own ballot", x.n.pid == pid);
                    check("C04: only decided entries are announced", x.decided_idx <= self.glog.len());
                }
                PaxosMsg::AcceptDecide(x) => {
                    check("C05|C15: a leader uses only its own ballot", x.n.pid == pid);
                    check("C04: only decided entries are announced", x.decided_idx <= self.glog.len());
                }
                PaxosMsg::Decide(x) => {
                    check("C05|C15: a leader uses only its own ballot", x.n.pid == pid);
                    check("C04: only decided entries are announced", x.decided_idx <= self.glog.len());
                }
                PaxosMsg::AcceptStopSign(x) => {
                    check("C05|C15: a leader uses only its own ballot", x.n.pid == pid);
                }
                PaxosMsg::Accepted(x) => {
                    check("C22: an acknowledgement goes to the ballot's owner", x.n.pid == to);
                    if prom == x.n {
                        let mut l = s.get_log_len().unwrap() + s.get_compacted_idx().unwrap();
                        if s.get_stopsign().unwrap().is_some() {
                            l += 1;
                        }
                        check("C04|C09: entries are on storage before they are acknowledged", x.accepted_idx <= l);
                    }
                    check("C05: nothing is acknowledged above the promised ballot", x.n <= prom);
                }
                _ => {}
            }
        }
    }

    /// Deliver the next message on link i->j, if there is one.
    #[inline(never)]
    pub fn deliver(&mut self, i: usize, j: usize) -> bool {
        match self.link[i * self.c.n + j].pop_front() {
            Some(m) => {
                #[cfg(feature = "trace")]
                eprintln!("  {} -> {}: {:?}", i + 1, j + 1, m);
                n_handle(&mut self.nodes[j], m);
                self.after(j);
                true
            }
            None => false,
        }
    }

    /// Lose the next message on link i->j, if there is one.
    #[inline(never)]
    pub fn lose(&mut self, i: usize, j: usize) -> bool {
        match self.link[i * self.c.n + j].pop_front() {
            Some(_m) => {
                #[cfg(feature = "trace")]
                eprintln!("  LOST {:?}", _m);
                self.lossy[i * self.c.n + j] = true;
                true
            }
            None => false,
        }
    }

    /// One delivery round: everything every node has sent so far arrives (or is lost on a link that is down).
    #[inline(never)]
    pub fn pump(&mut self) -> bool {
        let n = self.c.n;
        for i in 0..n {
            self.take(i);
        }
        let mut any = false;
        let mut len = Vec::with_capacity(n * n);
        for k in 0..n * n {
            len.push(self.link[k].len());
        }
        for i in 0..n {
            for j in 0..n {
                for _ in 0..len[i * n + j] {
                    any = true;
                    if self.up[i * n + j] {
                        self.deliver(i, j);
                    } else {
                        self.lose(i, j);
                    }
                }
            }
        }
        self.check_prefix();
        any
    }

    #[inline(never)]
    pub fn drain(&mut self, max: usize) -> bool {
        for _ in 0..max {
            if !self.pump() {
                return true;
            }
        }
        false
    }

    #[inline(never)]
    pub fn set_link(&mut self, i: usize, j: usize, up: bool) {
        self.up[i * self.c.n + j] = up;
        self.up[j * self.c.n + i] = up;
    }

    /// Cut node `i` off.
    #[inline(never)]
    pub fn isolate(&mut self, i: usize) {
        for j in 0..self.c.n {
            if j != i {
                self.set_link(i, j, false);
            }
        }
    }

    /// The network recovers: every link that lost something is re-established.
    #[inline(never)]
    pub fn heal(&mut self) {
        let n = self.c.n;
        for k in 0..n * n {
            self.up[k] = true;
        }
        for i in 0..n {
            for j in 0..i {
                if self.lossy[i * n + j] || self.lossy[j * n + i] {
                    self.link[i * n + j].clear();
                    self.link[j * n + i].clear();
                    self.lossy[i * n + j] = false;
                    self.lossy[j * n + i] = false;
                    self.reconnected(i, j);
                    self.reconnected(j, i);
                }
            }
        }
    }
}
