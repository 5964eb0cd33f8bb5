//! The three timers that `tick` drives, with arbitrary timeouts.
use crate::ent::*;
use crate::sx::*;
use crate::world::*;
use omnipaxos::messages::ballot_leader_election::HeartbeatMsg;
use omnipaxos::messages::sequence_paxos::*;
use omnipaxos::messages::Message;

crate::harness! {
    h_timer16 => || timers(16);
    h_timer9 => || timers(9);
}

/// What left the node in one tick.
#[derive(Default)]
struct Out {
    heartbeats: [usize; 4],
    prepares: [usize; 4],
    entries: [usize; 4],
    acks: usize,
    acked: usize,
}
fn out(nd: &mut Node<Ent>) -> Out {
    let mut b = Vec::new();
    nd.take_outgoing_messages(&mut b);
    let mut o = Out::default();
    for m in b {
        match m {
            Message::BLE(m) => {
                if let HeartbeatMsg::Request(_) = m.msg {
                    o.heartbeats[m.to as usize] += 1;
                }
            }
            Message::SequencePaxos(m) => match m.msg {
                PaxosMsg::Prepare(_) => o.prepares[m.to as usize] += 1,
                PaxosMsg::AcceptDecide(x) => o.entries[m.to as usize] += x.entries.len(),
                PaxosMsg::Accepted(x) => {
                    o.acks += 1;
                    o.acked = x.accepted_idx;
                }
                _ => (),
            },
        }
    }
    o
}

/// `timeout` divides `t`.
fn due(timeout: u64, t: u64) -> bool {
    let mut r = false;
    for d in 1..=t {
        if t % d == 0 {
            r = or(r, timeout == d);
        }
    }
    r
}

fn timers(ticks: u64) {
    let e = sym("election timeout", 64);
    let r = sym("resend timeout", 64);
    let f = sym("flush timeout", 64);
    assume(e != 0);
    assume(r != 0);
    assume(f != 0);
    let mut c = Cfg::new(3);
    c.batch = 1000;
    c.election = e;
    c.resend = r;
    c.flush = f;
    let mut w: World<Ent> = World::new(c);
    // above everybody's initial ballot
    w.lead(0);
    w.lead(0);
    w.take(0);
    let role = choose("role", 3);
    if role == 1 {
        // servers 2 and 3 never answer
        for t in 1..=ticks {
            w.nodes[0].tick();
            let o = out(&mut w.nodes[0]);
            let (h, p) = (due(e, t), due(r, t));
            for to in 2..4 {
                check("C25: heartbeats are requested at every election timeout", (o.heartbeats[to] > 0) == h);
                check("C25|C23: unanswered prepares are resent at every resend timeout", (o.prepares[to] > 0) == p);
            }
        }
        cover("ticked");
        return;
    }
    while w.deliver(0, 1) {}
    w.take(1);
    while w.deliver(1, 0) {}
    if role == 0 {
        let mut waiting = 0;
        for t in 1..=ticks {
            w.append(0);
            waiting += 1;
            w.nodes[0].tick();
            let o = out(&mut w.nodes[0]);
            let (h, p, x) = (due(e, t), due(r, t), due(f, t));
            for to in 2..4 {
                check("C25: heartbeats are requested at every election timeout", (o.heartbeats[to] > 0) == h);
            }
            check("C25|C23: an unanswered prepare is resent at every resend timeout", (o.prepares[3] > 0) == p);
            if x {
                check("C25|C09: a batch is sent at every flush timeout", o.entries[2] == waiting);
                waiting = 0;
                cover("flushed");
            } else {
                check("C25|C09: a batch is not sent before the flush timeout", o.entries[2] == 0);
            }
        }
    } else {
        // the follower's own timers, with an entry from the leader before every tick
        let b = w.nodes[0].get_promise();
        let mut o = Vec::new();
        w.nodes[0].take_outgoing_messages(&mut o);
        let mut seq = None;
        for m in o {
            if let Message::SequencePaxos(m) = m {
                if let PaxosMsg::AcceptSync(x) = &m.msg {
                    seq = Some(x.seq_num);
                }
                if m.to == 2 {
                    w.nodes[1].handle_incoming(Message::SequencePaxos(m));
                }
            }
        }
        let mut seq = match seq {
            Some(s) => s,
            None => {
                check("C25: a promised follower is synchronised", false);
                stop()
            }
        };
        out(&mut w.nodes[1]);
        for t in 1..=ticks {
            seq.counter += 1;
            let msg = PaxosMsg::AcceptDecide(AcceptDecide { n: b, seq_num: seq, decided_idx: 0, entries: Ent::wire(entry("entry", t as usize)) });
            w.nodes[1].handle_incoming(Message::SequencePaxos(PaxosMessage { from: 1, to: 2, msg }));
            w.nodes[1].tick();
            let o = out(&mut w.nodes[1]);
            let (h, x) = (due(e, t), due(f, t));
            check("C25: heartbeats are requested at every election timeout", and((o.heartbeats[1] > 0) == h, (o.heartbeats[3] > 0) == h));
            if x {
                check("C25|C09: what is stored at a flush timeout is acknowledged", and(o.acks == 1, o.acked == t as usize));
                cover("acknowledged");
            } else {
                check("C25|C04: nothing is acknowledged while it is only batched", o.acks == 0);
            }
        }
    }
    cover("ticked");
}
