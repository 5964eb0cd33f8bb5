//! Proposals at any server: buffering until a leader is known, and forwarding.
use crate::ent::*;
use crate::sx::*;
use crate::world::*;

crate::harness! {
    h_fwd4 => || fwd::<Ent>(4, 1, false);
    h_fwd4s => || fwd::<Ent>(4, 1, true);
    h_fwd5 => || fwd::<Ent>(5, 1, false);
    h_fwd5s => || fwd::<Ent>(5, 1, true);
    h_fwd5b => || fwd::<Raw>(5, 2, true);
    h_fwd6 => || fwd::<Ent>(6, 1, true);
    h_fwdx => || fwd_late::<Ent>(1, 2, None);
    h_fwdxb => || fwd_late::<Raw>(2, 2, None);
    h_fwdx3 => || fwd_late::<Ent>(1, 3, None);
    h_fwdxq => || fwd_late::<Ent>(1, 3, Some((3, 2)));
    h_fwd7 => || fwd::<Ent>(7, 1, false);
}

/// Nothing is lost. Proposals at any node before, while and after leaders take over (each takeover when
/// the previous traffic has settled); in the end all of them are decided exactly once.
fn fwd<T: Ent64>(steps: usize, batch: usize, ss: bool) {
    let mut c = Cfg::new(3);
    c.batch = batch;
    scope("C21");
    let mut w: World<T> = World::new(c);
    let mut reconf = false;
    let mut taken = Vec::new();
    // proposed at the same server before the reconfiguration
    let mut before = Vec::new();
    let mut by = Vec::new();
    let mut led = false;
    for _ in 0..steps {
        let k = choose("op", if ss && !reconf { 10 } else { 7 });
        match k {
            0..=2 => {
                let l = leader(&w, k as usize);
                if w.append(k as usize) {
                    taken.push(w.proposed[w.proposed.len() - 1]);
                    by.push((k as usize, l));
                }
            }
            3 => {
                w.pump();
            }
            4..=6 => {
                if led {
                    settle(&mut w);
                }
                w.lead_top(k as usize - 4);
                if led {
                    // what is proposed at a leader that does not know yet that it was replaced may be lost
                    w.pump();
                }
                led = true;
            }
            _ => {
                let j = k as usize - 7;
                let l = leader(&w, j);
                if w.reconfigure(j, 7) {
                    reconf = true;
                    for i in 0..taken.len() {
                        // a reconfiguration may overtake what is buffered until the leader has synchronised
                        if by[i].0 == j && (l == by[i].1 || l == w.c.pid(j)) {
                            before.push(taken[i]);
                        }
                    }
                }
            }
        }
    }
    if !led {
        let l = choose("leader", 3) as usize;
        w.lead_top(l);
    }
    settle(&mut w);
    w.recheck_all();
    let g = w.glog.len();
    if reconf {
        check("C21|C10: a reconfiguration proposed at any server is decided", g > 0 && w.glog[g - 1].stop);
        for v in &before {
            let n = w.glog.iter().filter(|x| x.val == *v && !x.stop).count();
            check("C21|C10: what a server proposed before a reconfiguration is decided once", n == 1);
        }
    } else {
        check("C21|C03: exactly the proposals are decided", g == taken.len());
        for v in &taken {
            let mut n = 0;
            for x in &w.glog {
                if x.val == *v && !x.stop {
                    n += 1;
                }
            }
            check("C21|C03: a proposal at any server is decided exactly once", n == 1);
        }
    }
    for i in 0..3 {
        check("C21|C17: all servers learn all decisions", w.last_dec[i] == g);
    }
    cover("forwarded");
}

fn settle<T: Ent64>(w: &mut World<T>) {
    w.drain(12);
    for _ in 0..if w.c.batch > 1 { 4 } else { 1 } {
        w.tick_all();
        w.drain(12);
    }
}

/// Nothing is lost. A proposal made in a settled cluster at a follower reaches its leader only after that
/// one has followed somebody else; messages of the takeover arrive in any order. The proposal and others
/// made meanwhile at servers that do not lead are decided exactly once.
fn fwd_late<T: Ent64>(batch: usize, steps: usize, fq: Option<(usize, usize)>) {
    let mut c = Cfg::new(3);
    c.batch = batch;
    c.fq = fq;
    scope("C21");
    let mut w: World<T> = World::new(c);
    let a = choose("leader", 3) as usize;
    w.lead_top(a);
    settle(&mut w);
    let f = (a + 1 + choose("proposer", 2) as usize) % 3;
    let mut want = 1;
    let mut reconf = false;
    w.append(f);
    match choose("more", 3) {
        1 => want += w.append(f) as usize,
        2 => reconf = w.reconfigure(f, 7),
        _ => {}
    }
    w.take(f);
    let b = 3 - a - f;
    w.lead_top(b);
    w.take(b);
    while w.deliver(b, a) {}
    for _ in 0..steps {
        let k = choose("op", 9);
        if k < 6 {
            let i = (k / 2) as usize;
            let j = (i + 1 + (k % 2) as usize) % 3;
            w.take(i);
            while w.deliver(i, j) {}
        } else {
            want += w.append(k as usize - 6) as usize;
        }
    }
    settle(&mut w);
    w.recheck_all();
    let g = w.glog.len();
    if reconf {
        check("C21|C10: a reconfiguration proposed at any server is decided", g > 0 && w.glog[g - 1].stop);
    } else {
        check("C21|C03: exactly the proposals are decided", g == want);
    }
    for i in 0..3 {
        check("C21|C17: all servers learn all decisions", w.last_dec[i] == g);
    }
    cover("passed on");
}

/// Whom server `i` takes for the leader (0: nobody).
fn leader<T: Ent64>(w: &World<T>, i: usize) -> u64 {
    match w.nodes[i].get_current_leader() {
        Some((l, _)) => l,
        None => 0,
    }
}
