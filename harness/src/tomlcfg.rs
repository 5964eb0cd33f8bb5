//! Configurations read from a TOML file (the parser itself is replaced, see ../toml).
use crate::sx::*;
use omnipaxos::{OmniPaxosConfig, ServerConfig};
use toml::Value;

crate::harness! {
    h_toml => || config(false);
    h_toml2 => || config(true);
}

/// A value in the file, and whether it fits into `bits` bits unsigned.
fn value(name: &str, bits: u32) -> (i64, bool) {
    let v = sym(name, 64) as i64;
    let fits = if bits == 64 { v >= 0 } else { and(v >= 0, (v as u64) >> bits == 0) };
    (v, fits)
}

/// `any`: any subset of the settings is left out; otherwise none or one of them.
fn config(any: bool) {
    const SERVER: [(&str, u32); 7] = [
        ("pid", 64),
        ("election_tick_timeout", 64),
        ("resend_message_tick_timeout", 64),
        ("buffer_size", 64),
        ("batch_size", 64),
        ("flush_batch_tick_timeout", 64),
        ("leader_priority", 32),
    ];
    let out = if any { 99 } else { choose("left out", 14) as usize };
    let there = |k: usize, name: &str| if any { flag(name) } else { k != out };
    let mut fits = true;
    let d = ServerConfig::default();
    let mut want = [d.pid, d.election_tick_timeout, d.resend_message_tick_timeout, d.buffer_size as u64, d.batch_size as u64, d.flush_batch_tick_timeout, d.leader_priority as u64];
    check("C27: entries are not batched by default", want[4] == 1 && want[6] == 0);
    let mut server = Vec::new();
    for k in 0..7 {
        if there(k, "has server setting") {
            let (v, ok) = value(SERVER[k].0, SERVER[k].1);
            fits = and(fits, ok);
            want[k] = v as u64;
            server.push((SERVER[k].0, Value::Int(v)));
        }
    }
    let mut cluster = Vec::new();
    let mut id = 0;
    if there(7, "has configuration id") {
        let (v, ok) = value("configuration_id", 32);
        fits = and(fits, ok);
        id = v as u64;
        cluster.push(("configuration_id", Value::Int(v)));
    }
    let mut nodes = Vec::new();
    if there(8, "has nodes") {
        let n = choose("nodes", 4);
        let mut a = Vec::new();
        for _ in 0..n {
            let (v, ok) = value("node", 64);
            fits = and(fits, ok);
            nodes.push(v as u64);
            a.push(Value::Int(v));
        }
        cluster.push(("nodes", Value::Array(a)));
    }
    let mut fq = None;
    if there(9, "has flexible quorums") {
        let mut t = Vec::new();
        let (r, ok) = value("read_quorum_size", 64);
        let (w, ok2) = value("write_quorum_size", 64);
        let (hr, hw) = (there(10, "has read quorum"), there(11, "has write quorum"));
        if hr {
            fits = and(fits, ok);
            t.push(("read_quorum_size", Value::Int(r)));
        }
        if hw {
            fits = and(fits, ok2);
            t.push(("write_quorum_size", Value::Int(w)));
        }
        if !(hr && hw) {
            // half a quorum is none
            fits = false;
        }
        fq = Some((r as u64, w as u64));
        cluster.push(("flexible_quorum", Value::Table(t)));
    }
    let mut doc = Vec::new();
    if there(12, "has cluster table") {
        doc.push(("cluster_config", Value::Table(cluster)));
    } else {
        // nothing it says counts, whatever it is
        stop();
    }
    doc.push(("server_config", Value::Table(server)));
    let garbage = !any && out == 13 && flag("not TOML");
    toml::set_document(if garbage { None } else { Some(Value::Table(doc)) });
    let r = OmniPaxosConfig::with_toml("/dev/null");
    // is that a valid configuration?
    let n = nodes.len() as u64;
    let mut ok = and(fits, and(n > 1, id != 0));
    let mut member = false;
    for i in 0..nodes.len() {
        member = or(member, nodes[i] == want[0]);
        ok = and(ok, nodes[i] != 0);
        for j in 0..i {
            ok = and(ok, nodes[i] != nodes[j]);
        }
    }
    ok = and(ok, and(member, want[0] != 0));
    ok = and(ok, and(and(want[1] != 0, want[2] != 0), and(want[3] != 0, want[4] != 0)));
    if let Some((r, w)) = fq {
        ok = and(ok, and(and(r >= 2, r <= n), and(w >= 2, w <= r)));
        ok = and(ok, r.wrapping_add(w) > n);
    }
    match r {
        Err(_) => {
            check("C27: every valid file is accepted", or(garbage, !ok));
            cover("refused");
        }
        Ok(c) => {
            check("C27: only valid files are accepted", and(ok, !garbage));
            let s = &c.server_config;
            let got = [s.pid, s.election_tick_timeout, s.resend_message_tick_timeout, s.buffer_size as u64, s.batch_size as u64, s.flush_batch_tick_timeout, s.leader_priority as u64];
            let mut same = true;
            for k in 0..7 {
                same = and(same, got[k] == want[k]);
            }
            check("C27: server settings are those of the file, or the defaults", same);
            let k = &c.cluster_config;
            let mut same = and(k.configuration_id as u64 == id, k.nodes.len() == nodes.len());
            for i in 0..nodes.len().min(k.nodes.len()) {
                same = and(same, k.nodes[i] == nodes[i]);
            }
            check("C27: cluster settings are those of the file", same);
            let q = match (&k.flexible_quorum, fq) {
                (None, None) => true,
                (Some(q), Some((r, w))) => and(q.read_quorum_size as u64 == r, q.write_quorum_size as u64 == w),
                _ => false,
            };
            check("C27: quorum sizes are those of the file", q);
            cover("accepted");
        }
    }
}
