//! One node in an arbitrary state handles messages with arbitrary ballots and sequence numbers.
use crate::ent::*;
use crate::round::stopsign;
use crate::store::Store;
use crate::sx::*;
use crate::world::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::sequence_paxos::*;
use omnipaxos::messages::Message;
use omnipaxos::storage::Storage;
use omnipaxos::util::{LogSync, SequenceNumber};

crate::harness! {
    h_step1 => || follower::<Raw>(1, 0);
    h_step2 => || follower::<Raw>(2, 1);
    h_stepa1 => || follower::<Raw>(3, 2);
    h_stepa2 => || follower::<Raw>(4, 1);
    h_stepa2f => || follower::<Ent>(4, 1);
    h_lead2 => || leader::<Raw>(5, 2);
    h_lead3 => || leader::<Ent>(5, 3);
    h_prep => || candidate::<Raw>(5, 3);
    h_prep3 => || candidate::<Raw>(3, 3);
    h_lead4 => || leader::<Raw>(4, 4);
}

/// Any ballot of the configuration whose owner is one of `lo..=hi`.
fn ballot(lo: u64, hi: u64) -> Ballot {
    let n = sym("n", 32) as u32;
    let pid = below("owner", 4);
    assume(and(and(pid >= lo, pid <= hi), n < 0x8000_0000));
    Ballot { config_id: 1, n, priority: sym("priority", 32) as u32, pid }
}
fn seqnum() -> SequenceNumber {
    let (s, c) = (sym("session", 62), sym("counter", 62));
    SequenceNumber { session: s, counter: c }
}

#[derive(Clone, Copy, PartialEq)]
enum Ph {
    Recover,
    Prepare,
    Accept,
}

/// What the node is expected to hold.
struct M {
    p: Ballot,
    a: Ballot,
    log: Vec<u64>,
    ss: bool,
    d: usize,
    ph: Ph,
    cur: SequenceNumber,
}
impl M {
    fn acc(&self) -> usize {
        self.log.len() + self.ss as usize
    }
}

/// The outgoing messages of one step, by kind.
#[derive(Default)]
struct Out<T: Ent64> {
    promise: Vec<(u64, Promise<T>)>,
    accepted: Vec<(u64, Accepted)>,
    refused: Vec<(u64, NotAccepted)>,
    req: usize,
    other: usize,
}

fn outgoing<T: Ent64>(nd: &mut Node<T>) -> Out<T> {
    let mut b = Vec::new();
    nd.take_outgoing_messages(&mut b);
    let mut o = Out { promise: vec![], accepted: vec![], refused: vec![], req: 0, other: 0 };
    for m in b {
        if let Message::SequencePaxos(p) = m {
            check("C22: messages carry their sender's id", p.from == 1);
            match p.msg {
                PaxosMsg::Promise(x) => o.promise.push((p.to, x)),
                PaxosMsg::Accepted(x) => o.accepted.push((p.to, x)),
                PaxosMsg::NotAccepted(x) => o.refused.push((p.to, x)),
                PaxosMsg::PrepareReq(_) => o.req += 1,
                _ => o.other += 1,
            }
        }
    }
    o
}

fn send<T: Ent64>(nd: &mut Node<T>, from: u64, msg: PaxosMsg<T>) {
    nd.handle_incoming(Message::SequencePaxos(PaxosMessage { from, to: 1, msg }))
}

/// A follower that restarted from an arbitrary storage handles `k` arbitrary messages of leaders.
fn follower<T: Ent64>(k: usize, max: u64) {
    let len = if max == 0 { 2 } else { choose("entries", max + 1) as usize };
    let ss = max == 0 && flag("stopsign");
    let d = choose("decided", len as u64 + 1) as usize;
    let p = ballot(1, 3);
    let a = ballot(1, 3);
    assume(a <= p);
    let mut m = M { p, a, log: vec![], ss, d, ph: Ph::Recover, cur: SequenceNumber::default() };
    let s: Store<T> = Store::new();
    {
        let mut inn = s.0.borrow_mut();
        let st = &mut inn.live;
        let mut v = Vec::new();
        for i in 0..len {
            let x = entry("entry", i);
            m.log.push(x);
            v.push(T::mk(x));
        }
        st.append_entries(v).unwrap();
        st.set_promise(p).unwrap();
        st.set_accepted_round(a).unwrap();
        st.set_decided_idx(d).unwrap();
        if ss {
            st.set_stopsign(Some(stopsign(7))).unwrap();
        }
    }
    let mut nd = mk_node(&Cfg::new(3), 1, 0, s.share());
    check("C05|C07: the stored promise is in force after a restart", nd.get_promise() == p);
    let o = outgoing(&mut nd);
    check("C07: a restarted server asks everybody for the current leader", o.req == 2);
    let mut fresh = len;
    let accept = k >= 3;
    for i in 0..k {
        let b = ballot(2, 3);
        let from = b.pid;
        // of three and more messages, the first two take the node to the accept phase of some round
        let kind = if accept && i < 2 { i as u64 } else { choose("message", 5) };
        if accept && i == 0 {
            assume(b >= m.p);
        }
        if accept && i == 1 {
            assume(b == m.p);
        }
        match kind {
            0 if accept && i == 0 => {
                send(&mut nd, from, PaxosMsg::Prepare(Prepare { n: b, decided_idx: 0, n_accepted: b, accepted_idx: 9 }));
                let _ = outgoing(&mut nd);
                m.p = b;
                m.ph = Ph::Prepare;
            }
            0 => prepare(&mut nd, &mut m, b, from),
            1 => {
                let seq = seqnum();
                let sync = if accept && i == 1 { m.log.len() } else { m.d + choose("sync from", (m.log.len() - m.d.min(m.log.len())) as u64 + 1) as usize };
                if m.ss && m.d == m.acc() {
                    stop();
                }
                let v = entry("entry", fresh);
                fresh += 1;
                let dec = if accept && i == 1 { 0 } else { choose("decided by leader", sync as u64 + 2) as usize };
                let ls = LogSync { decided_snapshot: None, suffix: vec![T::mk(v)], sync_idx: sync, stopsign: None };
                send(&mut nd, from, PaxosMsg::AcceptSync(AcceptSync { n: b, seq_num: seq, decided_idx: dec, log_sync: ls }));
                let o = outgoing(&mut nd);
                if b == m.p && m.ph == Ph::Prepare {
                    m.log.truncate(sync);
                    m.log.push(v);
                    m.ss = false;
                    m.a = b;
                    m.d = m.d.max(dec);
                    m.ph = Ph::Accept;
                    m.cur = seq;
                    acknowledged(&m, &o);
                    cover("synchronised");
                } else {
                    ignored(&mut m, b, &o);
                }
            }
            2 if !m.ss => {
                let seq = seqnum();
                let dec = sym("decided by leader", 64) as usize;
                let v = entry("entry", fresh);
                fresh += 1;
                send(&mut nd, from, PaxosMsg::AcceptDecide(AcceptDecide { n: b, seq_num: seq, decided_idx: dec, entries: T::wire(v) }));
                let o = outgoing(&mut nd);
                if in_sequence(&mut m, b, seq, &o, false) {
                    m.log.push(v);
                    decide(&mut m, dec);
                    acknowledged(&m, &o);
                    cover("entry accepted");
                }
            }
            3 if !m.ss => {
                let seq = seqnum();
                send(&mut nd, from, PaxosMsg::AcceptStopSign(AcceptStopSign { n: b, seq_num: seq, ss: stopsign(9) }));
                let o = outgoing(&mut nd);
                if in_sequence(&mut m, b, seq, &o, true) {
                    m.ss = true;
                    acknowledged(&m, &o);
                    cover("stopsign accepted");
                }
            }
            4 => {
                let seq = seqnum();
                let dec = sym("decided by leader", 64) as usize;
                send(&mut nd, from, PaxosMsg::Decide(Decide { n: b, seq_num: seq, decided_idx: dec }));
                let o = outgoing(&mut nd);
                if in_sequence(&mut m, b, seq, &o, false) {
                    decide(&mut m, dec);
                    cover("decided");
                }
            }
            _ => stop(),
        }
        same_state(&nd, &s, &m);
    }
    cover("handled");
}

fn prepare<T: Ent64>(nd: &mut Node<T>, m: &mut M, b: Ballot, from: u64) {
    let na = ballot(0, 3);
    let ai = choose("accepted by leader", 3) as usize;
    let di = choose("decided by leader", ai as u64 + 1) as usize;
    // what a leader has decided is in every log that is more up to date than the leader's
    assume(or(di <= m.acc(), and(m.a <= na, ai >= m.acc())));
    let old = m.p;
    send(nd, from, PaxosMsg::Prepare(Prepare { n: b, decided_idx: di, n_accepted: na, accepted_idx: ai }));
    let o = outgoing(nd);
    if b > old || (b == old && m.ph == Ph::Recover) {
        m.p = b;
        m.ph = Ph::Prepare;
        m.cur = SequenceNumber::default();
        check("C05|C17: a prepare with a new ballot is answered by one promise", o.promise.len() == 1);
        let (to, x) = &o.promise[0];
        check("C22|C05: a promise is for the ballot asked for and goes to its owner", *to == from && x.n == b);
        check("C06: a promise reports the accepted round, accepted and decided index", x.n_accepted == m.a && x.accepted_idx == m.acc() && x.decided_idx == m.d);
        let more = m.a > na || (m.a == na && m.acc() > ai);
        match &x.log_sync {
            None => check("C06: a promise carries the entries the leader lacks", !more),
            Some(l) => {
                check("C06: log entries are sent only by a server that is more up to date", more);
                let at = if m.a > na { di } else { ai };
                if l.decided_snapshot.is_none() {
                    check("C06: the entries start no later than what the leader lacks", l.sync_idx <= at);
                    check("C06: the entries sent reach the end of the log", l.sync_idx + l.suffix.len() == m.log.len());
                    for i in 0..l.suffix.len() {
                        check("C06|C03: the entries sent are those of the log", l.suffix[i].val() == m.log[l.sync_idx + i]);
                    }
                }
                check("C06|C10: the stopsign is sent along", l.stopsign.is_some() == m.ss);
                cover("more up to date");
            }
        }
        cover("promised");
    } else {
        check("C05: no promise is made to a ballot that is not higher", o.promise.is_empty());
        cover("prepare ignored");
    }
    check("C05: a prepare is not an acceptance", o.accepted.is_empty());
}

/// A message of an accept phase that is not for the current round has no effect.
fn ignored<T: Ent64>(m: &mut M, b: Ballot, o: &Out<T>) {
    check("C05: nothing of another round is acknowledged", o.accepted.is_empty());
    if b < m.p {
        check("C05|C17: a leader of an older round is told the promised ballot", o.refused.len() == 1 && o.refused[0].1.n == m.p);
        check("C22: the refusal goes to that leader", o.refused[0].0 == b.pid);
        cover("older round");
    } else {
        check("C05: nothing is refused unless a higher ballot is promised", o.refused.is_empty());
        if b > m.p {
            check("C17: the leader of a newer round is asked to prepare", o.req == 1);
            if b.pid == m.p.pid {
                m.ph = Ph::Recover;
            }
            cover("newer round");
        }
    }
}

fn in_sequence<T: Ent64>(m: &mut M, b: Ballot, seq: SequenceNumber, o: &Out<T>, ss: bool) -> bool {
    if b != m.p || m.ph != Ph::Accept {
        ignored(m, b, o);
        return false;
    }
    if seq.session == m.cur.session && seq.counter == m.cur.counter + 1 {
        m.cur = seq;
        return true;
    }
    let newer = seq.session > m.cur.session || (seq.session == m.cur.session && seq.counter > m.cur.counter);
    if newer {
        check("C08: a gap makes the follower ask for a new synchronisation", o.req == 1);
        m.ph = Ph::Recover;
        cover("gap");
    } else {
        cover("outdated");
    }
    check("C08: a message out of sequence is not acknowledged", ss || o.accepted.is_empty());
    false
}

fn decide(m: &mut M, dec: usize) {
    let to = if dec < m.acc() { conc(dec as u64) as usize } else { m.acc() };
    m.d = m.d.max(to);
}

fn acknowledged<T: Ent64>(m: &M, o: &Out<T>) {
    check("C04|C17: what was stored is acknowledged", o.accepted.len() == 1);
    let (to, x) = &o.accepted[0];
    check("C04|C05: the acknowledgement names the round and the accepted index", x.n == m.p && x.accepted_idx == m.acc());
    check("C22: the acknowledgement goes to the leader", *to == m.p.pid);
}

fn same_state<T: Ent64>(nd: &Node<T>, s: &Store<T>, m: &M) {
    let inn = s.0.borrow();
    let st = &inn.live;
    check("C05: the promise in force is the highest ballot promised", nd.get_promise() == m.p);
    check("C05|C07: the promise is on storage", st.get_promise().unwrap() == Some(m.p));
    check("C05|C06: the accepted round is the round of the last synchronisation", st.get_accepted_round().unwrap() == Some(m.a));
    check("C02|C08: the decided index moves only with the leader's messages in sequence", nd.get_decided_idx() == m.d);
    check("C08|C10: the stopsign changes only with the leader's messages in sequence", st.get_stopsign().unwrap().is_some() == m.ss);
    let e = st.get_suffix(0).unwrap();
    check("C08|C01: the log changes only with the leader's messages in sequence", e.len() == m.log.len());
    for i in 0..e.len() {
        check("C08|C01: the log holds exactly the leader's entries", e[i].val() == m.log[i]);
    }
}

/// A leader with entries in flight gets `k` acknowledgements, refusals and requests with any ballots.
fn leader<T: Ent64>(n: usize, k: usize) {
    let mut w: World<T> = World::new(Cfg::new(n));
    w.lead(0);
    w.drain(6);
    for i in 0..n {
        check("C17: a connected cluster follows the leader", w.nodes[i].get_current_leader() == Some((1, true)));
    }
    let b = w.nodes[0].get_promise();
    for _ in 0..3 {
        w.append(0);
    }
    w.take(0);
    let maj = n / 2 + 1;
    let mut acked = vec![0usize; n];
    acked[0] = 3;
    let mut bound = 0;
    for _ in 0..k {
        let j = 1 + choose("from", n as u64 - 1) as usize;
        let x = Ballot { config_id: 1, n: sym("n", 32) as u32, priority: sym("priority", 32) as u32, pid: below("owner", n as u64 + 1) };
        let d = w.nodes[0].get_decided_idx();
        match choose("message", 3) {
            0 => {
                let idx = choose("accepted index", 4) as usize;
                // acknowledgements of a round only grow
                if idx < acked[j] {
                    stop();
                }
                send(&mut w.nodes[0], j as u64 + 1, PaxosMsg::Accepted(Accepted { n: x, accepted_idx: idx }));
                if x == b {
                    acked[j] = idx;
                    cover("acknowledged");
                } else {
                    check("C04|C05|C01: an acknowledgement of another round decides nothing", w.nodes[0].get_decided_idx() == d);
                    cover("stale acknowledgement");
                }
            }
            1 => {
                assume(x > b);
                send(&mut w.nodes[0], j as u64 + 1, PaxosMsg::NotAccepted(NotAccepted { n: x }));
                check("C04: a refusal decides nothing", w.nodes[0].get_decided_idx() == d);
            }
            _ => {
                send(&mut w.nodes[0], j as u64 + 1, PaxosMsg::PrepareReq(PrepareReq { n: x }));
                check("C04: a request decides nothing", w.nodes[0].get_decided_idx() == d);
                let mut o = Vec::new();
                w.nodes[0].take_outgoing_messages(&mut o);
                let mut prep = 0;
                for m in &o {
                    if let Message::SequencePaxos(PaxosMessage { to, msg: PaxosMsg::Prepare(y), .. }) = m {
                        check("C05|C22: the leader prepares the one who asked, with its own ballot", *to == j as u64 + 1 && y.n == b);
                        prep += 1;
                    }
                }
                if x <= b {
                    check("C17: whoever asks for the leader is prepared", prep == 1);
                }
                cover("asked");
            }
        }
        // the index that a quorum has acknowledged in this round
        let mut v = acked.clone();
        v.sort();
        bound = bound.max(v[n - maj]);
        let dn = w.nodes[0].get_decided_idx();
        check("C04|C01: only what a quorum has acknowledged in this round is decided", dn <= bound);
        check("C02: the decided index never goes back", dn >= d);
    }
    cover("led");
}

/// A server with an arbitrary log takes over and gets `k` promises of this or an earlier round of its
/// own, with arbitrary accepted rounds, accepted and decided indexes.
fn candidate<T: Ent64>(n: usize, k: usize) {
    let len = choose("entries", 2) as usize;
    let d = choose("decided", len as u64 + 1) as usize;
    let p = ballot(1, 3);
    let a = ballot(1, 3);
    assume(a <= p);
    let s: Store<T> = Store::new();
    let mut log = Vec::new();
    {
        let mut inn = s.0.borrow_mut();
        let st = &mut inn.live;
        for i in 0..len {
            log.push(entry("entry", i));
            st.append_entry(T::mk(log[i])).unwrap();
        }
        st.set_promise(p).unwrap();
        st.set_accepted_round(a).unwrap();
        st.set_decided_idx(d).unwrap();
    }
    let mut nd = mk_node(&Cfg::new(n), 1, 0, s.share());
    nd.try_become_leader();
    let b = nd.get_promise();
    check("C15|C05: a server takes over with a higher ballot of its own", b > p && b.pid == 1);
    check("C05|C07: the promised ballot is on storage", s.0.borrow().live.get_promise().unwrap() == Some(b));
    let mut o = Vec::new();
    nd.take_outgoing_messages(&mut o);
    let mut asked = 0;
    for m in &o {
        if let Message::SequencePaxos(PaxosMessage { msg: PaxosMsg::Prepare(y), .. }) = m {
            check("C06: a prepare reports the accepted round, accepted and decided index", y.n == b && y.n_accepted == a && y.accepted_idx == len && y.decided_idx == d);
            asked += 1;
        }
    }
    check("C06|C17|C22: everybody is prepared", asked == n - 1);
    // accepted round, accepted index and log of the most up-to-date of those who promised
    let (mut ma, mut best, mut md) = (a, log.clone(), d);
    let mut proms: Vec<(usize, Ballot, usize, usize)> = Vec::new();
    let maj = n / 2 + 1;
    let (mut led, mut fresh, mut j) = (false, len, 1);
    for _ in 0..k {
        if j == n {
            break;
        }
        let fa = ballot(0, 3);
        assume(fa < b);
        if flag("promise of an earlier round") {
            let x = Ballot { config_id: 1, n: sym("n", 32) as u32, priority: sym("priority", 32) as u32, pid: 1 };
            assume(x < b);
            let v: Vec<u64> = vec![entry("entry", fresh), entry("entry", fresh + 1), entry("entry", fresh + 2)];
            fresh += 3;
            let ls = LogSync { decided_snapshot: None, suffix: v.iter().map(|x| T::mk(*x)).collect(), sync_idx: 0, stopsign: None };
            send(&mut nd, j as u64 + 1, PaxosMsg::Promise(Promise { n: x, n_accepted: fa, decided_idx: 3, accepted_idx: 3, log_sync: Some(ls) }));
            check("C06|C05|C01: a promise of another round does not count", is_led(&nd) == led);
            let mut o = Vec::new();
            nd.take_outgoing_messages(&mut o);
            for m in &o {
                let sync = matches!(m, Message::SequencePaxos(PaxosMessage { msg: PaxosMsg::AcceptSync(_), .. }));
                check("C06|C05: a promise of another round is not answered", !sync);
            }
            cover("stale promise");
        } else {
            let flen = choose("accepted", 3) as usize;
            let fd = if flag("all decided") { flen } else { 0 };
            let more = fa > a || (fa == a && flen > len);
            let mut flog = Vec::new();
            let mut ls = None;
            if more {
                let at = if fa > a { d } else { len };
                if flen < at {
                    stop();
                }
                flog = log[..at].to_vec();
                for _ in at..flen {
                    flog.push(entry("entry", fresh));
                    fresh += 1;
                }
                ls = Some(LogSync { decided_snapshot: None, suffix: flog[at..].iter().map(|x| T::mk(*x)).collect(), sync_idx: at, stopsign: None });
            }
            if !led && (fa > ma || (fa == ma && flen > best.len())) {
                ma = fa;
                best = flog;
            }
            if !led {
                md = md.max(fd);
            }
            proms.push((j, fa, flen, fd));
            let now = !led && proms.len() + 1 >= maj;
            // what is decided is in every log that is as up to date as that of a quorum
            if (now || led) && (md > best.len() || fd > best.len()) {
                stop();
            }
            send(&mut nd, j as u64 + 1, PaxosMsg::Promise(Promise { n: b, n_accepted: fa, decided_idx: fd, accepted_idx: flen, log_sync: ls }));
            let was = led;
            led = led || now;
            check("C06|C17|C14: a leader is ready exactly when its read quorum has promised", is_led(&nd) == led);
            let mut o = Vec::new();
            nd.take_outgoing_messages(&mut o);
            let mut synced = 0;
            for m in &o {
                if let Message::SequencePaxos(PaxosMessage { to, msg: PaxosMsg::AcceptSync(y), .. }) = m {
                    synced += 1;
                    let f = proms.iter().find(|x| x.0 as u64 + 1 == *to);
                    check("C06|C22: only those who promised are synchronised", f.is_some() && y.n == b);
                    let (_, fa, flen, fd) = *f.unwrap();
                    let valid = if fa == ma { flen.min(best.len()) } else { fd };
                    let l = &y.log_sync;
                    check("C06|C01: a follower keeps only entries it shares with the leader", l.decided_snapshot.is_none() && l.sync_idx <= valid);
                    check("C06|C08: a follower gets everything it lacks", l.sync_idx + l.suffix.len() == best.len());
                    for i in 0..l.suffix.len() {
                        check("C06|C03|C01: a follower gets the leader's entries", l.suffix[i].val() == best[l.sync_idx + i]);
                    }
                    check("C04|C02: a follower is told what is decided", y.decided_idx == md);
                }
            }
            check("C06|C17: those who promised are synchronised once", synced == if was { 1 } else if led { proms.len() } else { 0 });
            j += 1;
        }
        let inn = s.0.borrow();
        let e = inn.live.get_suffix(0).unwrap();
        let want = if led { &best } else { &log };
        check("C06|C01: a new leader adopts the log of the most up-to-date server", e.len() == want.len());
        for i in 0..e.len() {
            check("C06|C01: a new leader adopts the entries of the most up-to-date server", e[i].val() == want[i]);
        }
        check("C06|C05: the accepted round changes with the log", inn.live.get_accepted_round().unwrap() == Some(if led { b } else { a }));
        check("C02|C04|C06: a new leader knows what those who promised have decided", nd.get_decided_idx() == if led { md } else { d });
    }
    if led {
        if n > 3 {
            let to = proms[0].0 as u64 + 1;
            send(&mut nd, to, PaxosMsg::Accepted(Accepted { n: b, accepted_idx: best.len() }));
            check("C04|C01: only what a quorum has acknowledged in this round is decided", nd.get_decided_idx() == md);
        }
        if n == 3 && proms.len() == 2 {
            let to = proms[1].0 as u64 + 1;
            send(&mut nd, to, PaxosMsg::Accepted(Accepted { n: b, accepted_idx: best.len() }));
            md = md.max(best.len());
            check("C04|C17: what a quorum has acknowledged is decided", nd.get_decided_idx() == md);
        }
        if md > 0 {
            check("C11: nothing is trimmed that somebody has not acknowledged", nd.trim(Some(md)).is_err());
        }
        cover("leads");
    }
    cover("candidate");
}

fn is_led<T: Ent64>(nd: &Node<T>) -> bool {
    nd.get_current_leader() == Some((1, true))
}
