IS = "omnipaxos/src/storage/internal_storage.rs"
B = "omnipaxos/src/ballot_leader_election.rs"
O = "omnipaxos/src/omni_paxos.rs"
L = "omnipaxos/src/sequence_paxos/leader.rs"

SEEDS["S27"] = dict(
    property="C12",
    edits=[(IS, """            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
                StorageOp::SetSnapshot(Some(snapshot)),
            ])?;
            self.state_cache.compacted_idx = new_compacted_idx;
        }
        Ok(())
    }

    pub(crate) fn set_promise""", """            // never drop entries before the snapshot that replaces them is safe
            self.storage.set_snapshot(Some(snapshot))?;
            self.storage.write_atomically(vec![
                StorageOp::Trim(new_compacted_idx),
                StorageOp::SetCompactedIdx(new_compacted_idx),
            ])?;
            self.state_cache.compacted_idx = new_compacted_idx;
        }
        Ok(())
    }

    pub(crate) fn set_promise""")],
    needs="a crash between two storage writes of a snapshot, and a further snapshot after the restart",
    breaks="after a crash while a snapshot is taken, the next snapshot contains entries twice",
    main='''
fn main() {
    for at in 1..4 {
        let mut s: Sim<Ent> = Sim::new(3);
        s.lead(0);
        s.drain();
        s.append(0, 1);
        s.append(0, 2);
        s.drain();
        crash_in(at);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.nodes[1].snapshot(None, true).unwrap()));
        crash_in(0);
        if r.is_err() {
            s.restart(1);
            s.reconnect(0, 1);
            s.reconnect(1, 2);
            s.drain();
            s.nodes[1].snapshot(None, true).unwrap();
        }
        match &s.nodes[1].read_decided_suffix(0).unwrap()[0] {
            omnipaxos::util::LogEntry::Snapshotted(x) => assert_eq!(x.snapshot.0, vec![1, 2], "crash before write {at}"),
            x => panic!("{x:?}"),
        }
    }
}
''')

SEEDS["S28"] = dict(
    property="C16",
    edits=[(B, """                (Role::Leader, Phase::Accept) => {
                    self.quorum.is_accept_quorum(potential_followers + 1)
                }
                _ =>""", """                (Role::Leader, Phase::Accept) if self.heartbeat_replies.len() == self.peers.len() => {
                    self.quorum.is_accept_quorum(potential_followers + 1)
                }
                _ =>""")],
    needs="flexible quorums, and a leader that is left with a write quorum that is no read quorum",
    breaks="a working leader that still reaches a write quorum is replaced",
    main='''
use omnipaxos::util::FlexibleQuorum;
fn main() {
    let mut s: Sim<Ent> = Sim::with(5, |c| {
        c.server_config.election_tick_timeout = 1;
        c.cluster_config.flexible_quorum = Some(FlexibleQuorum { read_quorum_size: 4, write_quorum_size: 2 });
    });
    s.ble = true;
    for _ in 0..6 {
        s.tick_all();
        s.drain();
    }
    let l = s.nodes[0].get_current_leader().unwrap().0 as usize - 1;
    let mut cut = 0;
    for i in 0..5 {
        if i != l && cut < 3 {
            s.up[l][i] = false;
            s.up[i][l] = false;
            cut += 1;
        }
    }
    for _ in 0..20 {
        s.tick_all();
        s.drain();
        assert_eq!(s.nodes[l].get_current_leader(), Some((l as u64 + 1, true)), "the leader was replaced");
    }
}
''')

SEEDS["S29"] = dict(
    property="C27",
    edits=[(O, """        let config: OmniPaxosConfig = toml::from_str(&config_file)?;
        config.validate()?;
        Ok(config)""", """        let config: OmniPaxosConfig = toml::from_str(&config_file)?;
        config.cluster_config.validate()?;
        config.server_config.validate()?;
        Ok(config)""")],
    needs="a file whose two tables are valid but do not fit each other",
    breaks="a file that names a server which is not a member of its cluster is accepted",
    features="tomlfile",
    nosim=True,
    main='''
use omnipaxos::OmniPaxosConfig;
fn main() {
    let f = std::env::current_dir().unwrap().join("conf.toml");
    let read = |pid: u64| {
        std::fs::write(&f, format!("[cluster_config]\\nconfiguration_id = 1\\nnodes = [1, 2, 3]\\n[server_config]\\npid = {pid}\\n")).unwrap();
        OmniPaxosConfig::with_toml(f.to_str().unwrap())
    };
    assert_eq!(read(2).unwrap().server_config.pid, 2);
    assert!(read(4).is_err(), "server 4 is no member");
}
''')

RECOVER = (B, """                initial_ballot.n = RECOVERY_ROUND;
                b""", """                initial_ballot.n = match b.pid == pid {
                    true => b.n,
                    false => RECOVERY_ROUND,
                };
                b""")

SEEDS["S30"] = dict(
    property="C15",
    edits=[(B, """            if seq_paxos_promise.pid == self.pid {
                self.current_ballot = seq_paxos_promise;
            }""", """            self.current_ballot = seq_paxos_promise;""")],
    needs="a leader that took over by hand fails, and a server that had promised its ballot before hearing of it in a heartbeat has to take over",
    breaks="a server campaigns with a ballot that carries another server's id",
    main='''
use omnipaxos::messages::{ballot_leader_election::HeartbeatMsg, Message};
fn main() {
    let mut s: Sim<Ent> = Sim::with(3, |c| c.server_config.election_tick_timeout = 1);
    s.ble = true;
    for _ in 0..6 {
        s.tick_all();
        s.drain();
    }
    let l = s.nodes[0].get_current_leader().unwrap().0 as usize - 1;
    let m = (l + 1) % 3;
    s.lead(m);
    s.drain();
    for r in 0..8 {
        if r == 3 {
            s.cut(m);
        }
        s.tick_all();
        for _ in 0..6 {
            for i in 0..3 {
                s.take(i);
                for j in 0..3 {
                    for x in &s.link[i][j] {
                        if let Message::BLE(b) = x {
                            if let HeartbeatMsg::Reply(r) = &b.msg {
                                assert_eq!(r.ballot.pid, b.from, "campaigns with the ballot of another");
                            }
                        }
                    }
                }
            }
            s.pump();
        }
    }
}
''')

SEEDS["S31"] = dict(
    property="C16",
    edits=[RECOVER],
    needs="a leader crashes and restarts before its followers miss it",
    breaks="a restarted leader that has to recover still answers heartbeats as a working leader, so nobody replaces it",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::with(3, |c| c.server_config.election_tick_timeout = 1);
    s.ble = true;
    for _ in 0..6 {
        s.tick_all();
        s.drain();
    }
    let l = s.nodes[0].get_current_leader().unwrap().0 as usize - 1;
    s.restart(l);
    for _ in 0..20 {
        s.tick_all();
        s.drain();
    }
    let l = s.nodes[0].get_current_leader().unwrap().0 as usize - 1;
    let before = s.decided(0);
    s.append(l, 7);
    s.drain();
    assert!((0..3).all(|i| s.decided(i) == before + 1), "nobody leads");
}
''')

SEEDS["S32"] = dict(
    property="C06",
    edits=[(L, """        if prom.n == self.leader_state.n_leader {
            let received_majority""", """        if prom.n <= self.leader_state.n_leader {
            let received_majority""")],
    needs="a promise for a server's earlier attempt arrives during its second one, after the promiser has accepted entries of another leader",
    breaks="a promise of an earlier round counts, so a new leader misses what was decided in between",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.take(0);
    while s.deliver(0, 1) {}
    s.take(1);
    s.lead(2);
    for _ in 0..2 {
        s.take(2);
        while s.deliver(2, 1) {}
        s.take(1);
        while s.deliver(1, 2) {}
    }
    s.append(2, 7);
    s.take(2);
    while s.deliver(2, 1) {}
    s.take(1);
    while s.deliver(1, 2) {}
    assert_eq!(s.log(2), vec![7]);
    s.lead(0);
    s.take(0);
    while s.deliver(1, 0) {}
    s.append(0, 8);
    s.drain();
    s.agree();
    assert_eq!(s.log(0), vec![7, 8]);
}
''')

SEEDS["S33"] = dict(
    property="C21",
    edits=[(L, "            if !self.buffered_proposals.is_empty() {\n                let entries", "            if !self.buffered_proposals.is_empty() && self.buffered_stopsign.is_none() {\n                let entries")],
    needs="an entry and then a reconfiguration proposed at a server while it takes over",
    breaks="entries proposed before a reconfiguration at a server that is about to lead are dropped",
    main='''
use omnipaxos::ClusterConfig;
fn main() {
    let mut s: Sim<Ent> = Sim::new(3);
    s.lead(0);
    s.append(0, 5);
    let c = ClusterConfig { configuration_id: 2, nodes: vec![1, 2, 3], flexible_quorum: None };
    assert!(s.nodes[0].reconfigure(c, None).is_ok());
    s.drain();
    assert_eq!(s.log(1), vec![5, u64::MAX]);
}
''')

SEEDS["S34"] = dict(
    property="C21",
    edits=[(L, "(Role::Leader, Phase::Prepare) => self.buffered_proposals.append(&mut entries),", "(Role::Leader, Phase::Prepare) => self.buffered_proposals = std::mem::take(&mut entries),")],
    needs="a proposal is forwarded to a server that is still collecting promises and has buffered one of its own",
    breaks="the buffered proposals are lost",
    main='''
fn main() {
    let mut s: Sim<Ent> = Sim::new(5);
    s.lead(0);
    s.take(0);
    while s.deliver(0, 1) {}
    s.append(0, 5);
    s.append(1, 6);
    s.take(1);
    while s.deliver(1, 0) {}
    s.drain();
    let mut v = s.log(2);
    v.sort();
    assert_eq!(v, vec![5, 6]);
}
''')

SEEDS["S35"] = dict(
    property="C11",
    edits=[(L, """        for pid in self.leader_state.get_promised_followers() {
            self.send_accsync(pid);""", """        for pid in self.leader_state.get_promised_followers() {
            let accepted_idx = self.leader_state.get_promise_meta(pid).accepted_idx;
            self.leader_state.set_accepted_idx(pid, accepted_idx);
            self.send_accsync(pid);""")],
    needs="a follower with entries of an older round promises, misses the synchronisation, and the log is trimmed meanwhile",
    breaks="entries that a follower holds only in an older round's version count as accepted, and are trimmed before it has got them",
    main='''
fn main() {
    let mut s: Sim<Raw> = Sim::new(3);
    s.lead(1);
    s.drain();
    s.append(1, 8);
    s.append(1, 9);
    s.cut(1);
    s.lead(2);
    s.drain();
    s.append(2, 5);
    s.append(2, 6);
    s.drain();
    s.heal();
    s.lead(0);
    s.take(0);
    while s.deliver(0, 1) {}
    s.take(1);
    while s.deliver(1, 0) {}
    s.take(0);
    while s.lose(0, 1) {}
    for _ in 0..4 {
        s.take(0);
        while s.deliver(0, 2) {}
        s.take(2);
        while s.deliver(2, 0) {}
    }
    assert!(s.nodes[0].trim(Some(2)).is_err(), "node 2 has not got the entries yet");
}
''')
