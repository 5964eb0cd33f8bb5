//! Leader election: ballots, and leaders under partial connectivity.
use crate::ent::*;
use crate::sx::*;
use crate::world::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::*;
use omnipaxos::messages::Message;
use std::cmp::Ordering;

crate::harness! {
    h_ballot => || ballots();
    h_ble3 => || ble::<Ent>(3, 1);
    h_ble3x => || ble::<Ent>(3, 2);
    h_ble4 => || ble::<Ent>(4, 1);
    h_ble4x => || ble::<Ent>(4, 0);
    h_ble5 => || ble::<Ent>(5, 0);
    h_ble5x => || ble::<Ent>(5, 1);
    h_hb2 => || heartbeats::<Ent>(2);
    h_hb3 => || heartbeats::<Ent>(3);
    h_ble4q => || ble_q::<Ent>(4, 0, Some((3, 2)));
    h_ble5q => || ble_q::<Ent>(5, 0, Some((4, 2)));
}

/// Rounds of heartbeats after which a leader must be there.
const R: usize = 8;

fn any_ballot(c: u32) -> Ballot {
    Ballot { config_id: c, n: sym("n", 32) as u32, priority: sym("priority", 32) as u32, pid: sym("pid", 64) }
}

/// Ballots of one configuration are totally ordered, by round first, and only equal ballots tie.
fn ballots() {
    let c = sym("configuration", 32) as u32;
    let (a, b, d) = (any_ballot(c), any_ballot(c), any_ballot(c));
    let eq = and(and(a.n == b.n, a.priority == b.priority), a.pid == b.pid);
    check("C15: only the same ballots are equal", (a == b) == eq);
    let ab = a.cmp(&b);
    let ba = b.cmp(&a);
    check("C15: equality agrees with the order", (ab == Ordering::Equal) == eq);
    check("C15: the order is antisymmetric", ab == ba.reverse());
    check("C15: comparison operators agree with the order", and((a < b) == (ab == Ordering::Less), (a >= b) == (ab != Ordering::Less)));
    check("C15: max picks the greater ballot", a.max(b) >= a && a.max(b) >= b);
    if a <= b && b <= d {
        check("C15: the order is transitive", a <= d);
        cover("ordered");
    }
    if a.n < b.n {
        check("C15: a later round beats every priority and id", a < b);
        cover("rounds differ");
    }
    cover("compared");
}

fn links(edges: u32) -> u64 {
    let mut m = 0;
    for k in 0..edges {
        if flag("link") {
            m |= 1 << k;
        }
    }
    m
}

/// Sets the links to those in `mask` (one bit per pair); re-established connections are reported.
fn connect<T: Ent64>(w: &mut World<T>, mask: u64) {
    let n = w.c.n;
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            let up = mask >> k & 1 == 1;
            w.set_link(i, j, up);
            k += 1;
            if up && (w.lossy[i * n + j] || w.lossy[j * n + i]) {
                w.link[i * n + j].clear();
                w.link[j * n + i].clear();
                w.lossy[i * n + j] = false;
                w.lossy[j * n + i] = false;
                w.reconnected(i, j);
                w.reconnected(j, i);
            }
        }
    }
}

fn degree<T: Ent64>(w: &World<T>, i: usize) -> usize {
    let mut d = 1;
    for j in 0..w.c.n {
        if j != i && w.up[i * w.c.n + j] {
            d += 1;
        }
    }
    d
}

fn round<T: Ent64>(w: &mut World<T>, staggered: bool) {
    if staggered {
        for i in 0..w.c.n {
            w.tick(i);
            w.drain(8);
        }
    } else {
        w.tick_all();
        w.drain(8);
    }
}

fn leader<T: Ent64>(w: &World<T>) -> usize {
    let mut l = w.c.n;
    for i in 0..w.c.n {
        if w.is_leader(i) && (l == w.c.n || w.nodes[i].get_promise() > w.nodes[l].get_promise()) {
            l = i;
        }
    }
    l
}

/// Phases of arbitrary connectivity with disturbances, then a connectivity in which some node reaches a
/// majority: a leader that reaches a majority must emerge, decide, and stay.
fn ble<T: Ent64>(n: usize, phases: usize) {
    ble_q::<T>(n, phases, None)
}

fn ble_q<T: Ent64>(n: usize, phases: usize, fq: Option<(usize, usize)>) {
    let mut c = Cfg::new(n);
    c.fq = fq;
    c.ble = true;
    c.election = 1;
    let edges = (n * (n - 1) / 2) as u32;
    // to lead a server must reach a read quorum, to go on leading a write quorum
    let (maj, enough) = fq.unwrap_or((n / 2 + 1, n / 2 + 1));
    let wide = n == 3 && phases == 1 || phases == 0;
    let staggered = wide && flag("staggered");
    let mut w: World<T> = World::new(c);
    let cold = wide && flag("cold start");
    if !cold {
        for _ in 0..4 {
            round(&mut w, staggered);
        }
        let l = leader(&w);
        check("C16: a fully connected cluster elects a leader", l < n);
        w.append(l);
        round(&mut w, staggered);
    }
    for _ in 0..phases {
        let mask = if n == 5 {
            // one server is cut off
            let gone = choose("cut off", 5) as usize;
            let mut m = 0;
            let mut k = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if i != gone && j != gone {
                        m |= 1 << k;
                    }
                    k += 1;
                }
            }
            m
        } else {
            links(edges)
        };
        connect(&mut w, mask);
        match choose("event", 4) {
            0 => {}
            1 => {
                let k = choose("restart", n as u64) as usize;
                w.restart(k);
                connect(&mut w, mask);
            }
            2 => {
                let k = choose("manual takeover", n as u64) as usize;
                w.lead(k);
            }
            _ => {
                let k = choose("priority at", n as u64) as usize;
                w.nodes[k].set_priority(9);
            }
        }
        let r = if wide { [1, 2, 5][choose("rounds", 3) as usize] } else { 1 + 3 * choose("rounds", 2) };
        for _ in 0..r {
            round(&mut w, staggered);
        }
        let l = leader(&w);
        if l < n {
            w.append(l);
        }
    }
    let before = leader(&w);
    let mask = links(edges);
    connect(&mut w, mask);
    let mut quorum = false;
    for i in 0..n {
        quorum = quorum || degree(&w, i) >= maj;
    }
    let stable = !cold && phases == 0 && degree(&w, before) >= enough;
    if !quorum && !stable {
        stop();
    }
    let b0 = if stable { w.nodes[before].get_promise() } else { Ballot::default() };
    for _ in 0..(if fq.is_some() { 2 * R } else { R }) {
        round(&mut w, staggered);
    }
    let l = leader(&w);
    check("C16: a leader emerges when some server reaches a majority", l < n);
    check("C16: the leader reaches a majority", degree(&w, l) >= enough);
    if stable {
        check("C16: a leader that still reaches a majority is not replaced", l == before && w.nodes[l].get_promise() == b0);
        cover("leader kept");
    } else {
        cover("leader elected");
    }
    for i in 0..n {
        let h = w.nodes[i].get_ui_states().heartbeats;
        check("C26: a server lists the heartbeats of exactly the servers it is connected to", h.len() + 1 == degree(&w, i));
        for j in 0..n {
            let has = h.iter().any(|x| x.ballot.pid == w.c.pid(j));
            check("C26: a server lists the heartbeats of exactly the servers it is connected to", has == (i != j && w.up[i * n + j]));
        }
    }
    let b = w.nodes[l].get_promise();
    let d = w.nodes[l].get_decided_idx();
    let ok = w.append(l);
    check("C16: the leader takes proposals", ok);
    round(&mut w, staggered);
    let g = w.glog.len();
    check("C16: the leader's proposal is decided", w.nodes[l].get_decided_idx() > d && w.glog[g - 1].val == w.proposed[w.proposed.len() - 1]);
    round(&mut w, staggered);
    let mut got = 0;
    for j in 0..n {
        if w.nodes[j].get_promise() == b && w.nodes[j].get_decided_idx() == g {
            got += 1;
        }
    }
    check("C16: a majority follows the leader and learns its decisions", got >= enough);
    round(&mut w, staggered);
    round(&mut w, staggered);
    check("C16: leadership is stable once established", w.is_leader(l) && w.nodes[l].get_promise() == b && leader(&w) == l);
    w.recheck_all();
}

fn hb_ballot(pid: u64) -> Ballot {
    // numbers that can still be incremented
    Ballot { config_id: sym("configuration", 32) as u32, n: sym("n", 31) as u32, priority: sym("priority", 32) as u32, pid }
}

/// A server in some heartbeat round gets replies and requests with arbitrary contents: it counts exactly
/// the replies to its own round from its own configuration, and answers every request.
fn heartbeats<T: Ent64>(msgs: usize) {
    let mut c = Cfg::new(3);
    c.ble = true;
    c.election = 1;
    let mut w: World<T> = World::new(c);
    let nd = &mut w.nodes[0];
    let mut b: Vec<Message<T>> = Vec::new();
    for _ in 0..1 + choose("rounds before", 2) {
        nd.tick();
    }
    nd.take_outgoing_messages(&mut b);
    let mut round = 0;
    for m in &b {
        if let Message::BLE(BLEMessage { msg: HeartbeatMsg::Request(r), .. }) = m {
            round = r.round;
        }
    }
    let promised = nd.get_promise();
    let mut counted: Vec<HeartbeatReply> = Vec::new();
    for _ in 0..msgs {
        let from = 2 + choose("from", 2);
        if flag("request") {
            let r = sym("round", 32) as u32;
            nd.handle_incoming(Message::BLE(BLEMessage { from, to: 1, msg: HeartbeatMsg::Request(HeartbeatRequest { round: r }) }));
            let mut out: Vec<Message<T>> = Vec::new();
            nd.take_outgoing_messages(&mut out);
            let ok = match out.pop() {
                Some(Message::BLE(BLEMessage { from: 1, to, msg: HeartbeatMsg::Reply(x) })) => {
                    to == from && and(x.round == r, x.ballot.pid == 1)
                }
                _ => false,
            };
            check("C22|C16|C15: a heartbeat request is answered, to whoever asked and for the round asked", ok && out.is_empty());
        } else {
            let leader = if flag("follows 2") { 2 } else { 3 };
            let r = HeartbeatReply { round: sym("round", 32) as u32, ballot: hb_ballot(from), leader: hb_ballot(leader), happy: flag("happy") };
            nd.handle_incoming(Message::BLE(BLEMessage { from, to: 1, msg: HeartbeatMsg::Reply(r.clone()) }));
            if r.round == round && r.ballot.config_id == 1 {
                counted.push(r);
            }
        }
    }
    nd.tick();
    let h = nd.get_ui_states().heartbeats;
    check("C26|C16: exactly the replies to the last heartbeat round are counted", h.len() == counted.len());
    for i in 0..h.len().min(counted.len()) {
        let (x, y) = (&h[i], &counted[i]);
        check("C26|C16: heartbeats are listed as they were received", and(and(x.ballot == y.ballot, x.leader == y.leader), x.happy == y.happy));
    }
    let p = nd.get_promise();
    check("C05|C15: a server promises a ballot of its own only if it is higher", p == promised || (p.pid == 1 && p > promised));
    if counted.len() > 0 {
        cover("heartbeat counted");
    }
    cover("heartbeats handled");
}
