//! The storage back ends against a reference model of the `Storage` contract.
use crate::sx::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{Entry, Snapshot, StopSign, Storage, StorageOp};
use omnipaxos::util::FlexibleQuorum;
use omnipaxos::ClusterConfig;
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize, Serializer};

#[cfg(not(feature = "disk"))]
crate::harness! {
    h_mem1 => || contract::<MemoryStorage<Item>>(1, 3);
    h_mem2 => || contract::<MemoryStorage<Item>>(2, 2);
    h_memfar => || far::<MemoryStorage<Item>>();
    h_mem3 => || contract::<MemoryStorage<Item>>(3, 1);
}
#[cfg(feature = "disk")]
crate::harness! {
    h_disk1 => || contract::<disk::Disk>(1, 3);
    h_disk2 => || contract::<disk::Disk>(2, 2);
    h_diskfar => || far::<disk::Disk>();
    h_disk3 => || contract::<disk::Disk>(3, 1);
    h_diskf => || disk::faults(false, 2);
    h_diskc => || disk::faults(true, 2);
    h_diskf1 => || disk::faults(false, 1);
    h_diskc1 => || disk::faults(true, 1);
}

/// Entry that can refuse to be serialised.
#[derive(Clone, Debug, PartialEq, Deserialize)]
pub struct Item(pub u64);
pub const POISON: u64 = u64::MAX;
impl Serialize for Item {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == POISON {
            return Err(serde::ser::Error::custom("cannot be serialised"));
        }
        s.serialize_u64(self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ItemFold(pub Vec<u64>);
impl Snapshot<Item> for ItemFold {
    fn create(entries: &[Item]) -> Self {
        ItemFold(entries.iter().map(|e| e.0).collect())
    }
    fn merge(&mut self, delta: Self) {
        self.0.extend(delta.0);
    }
    fn use_snapshots() -> bool {
        true
    }
}
#[cfg(not(feature = "unicache"))]
impl Entry for Item {
    type Snapshot = ItemFold;
}

pub trait Backend: Storage<Item> {
    const WHAT: &'static str;
    fn fresh() -> Self;
    /// The process ends and another one opens the same storage.
    fn reopen(self) -> Self;
}
impl Backend for MemoryStorage<Item> {
    const WHAT: &'static str = "memory";
    fn fresh() -> Self {
        MemoryStorage::default()
    }
    fn reopen(self) -> Self {
        self
    }
}

/// What the contract says is stored.
#[derive(Clone, Default)]
pub struct Model {
    base: usize,
    log: Vec<u64>,
    prom: Option<Ballot>,
    acc: Option<Ballot>,
    ld: usize,
    ss: Option<StopSign>,
    snap: Option<Vec<u64>>,
    made: usize,
}

impl Model {
    fn end(&self) -> usize {
        self.base + self.log.len()
    }
    fn item(&mut self) -> u64 {
        self.made += 1;
        sym("payload", 56)
    }
    fn items(&mut self, max: u64) -> Vec<u64> {
        let k = choose("number of entries", max + 1);
        (0..k).map(|_| self.item()).collect()
    }
}

fn mk(v: &[u64]) -> Vec<Item> {
    v.iter().map(|x| Item(*x)).collect()
}
fn ballot(name: &str) -> Ballot {
    let mut b = Ballot::default();
    b.config_id = sym(name, 32) as u32;
    b.n = sym(name, 32) as u32;
    b.priority = sym(name, 32) as u32;
    b.pid = sym(name, 64);
    b
}
fn beq(a: &Option<Ballot>, b: &Option<Ballot>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => and(and(a.config_id == b.config_id, a.n == b.n), and(a.priority == b.priority, a.pid == b.pid)),
        _ => false,
    }
}
fn stopsign(some: bool) -> Option<StopSign> {
    if !some {
        return None;
    }
    let mut nodes = vec![];
    for _ in 0..2 {
        nodes.push(sym("next node", 64));
    }
    let fq = if flag("flexible quorum") { Some(FlexibleQuorum { read_quorum_size: sym("read quorum", 64) as usize, write_quorum_size: sym("write quorum", 64) as usize }) } else { None };
    let c = ClusterConfig { configuration_id: sym("next configuration", 32) as u32, nodes, flexible_quorum: fq };
    let meta = if flag("metadata") { Some(vec![sym("metadata byte", 8) as u8]) } else { None };
    Some(StopSign::with(c, meta))
}
fn sseq(a: &Option<StopSign>, b: &Option<StopSign>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            let (x, y) = (&a.next_config, &b.next_config);
            if x.nodes.len() != y.nodes.len() || x.flexible_quorum != y.flexible_quorum || a.metadata.is_some() != b.metadata.is_some() {
                return false;
            }
            let mut ok = x.configuration_id == y.configuration_id;
            for i in 0..x.nodes.len() {
                ok = and(ok, x.nodes[i] == y.nodes[i]);
            }
            if let (Some(p), Some(q)) = (&a.metadata, &b.metadata) {
                ok = and(ok, p.len() == 1 && q.len() == 1);
                if p.len() == 1 && q.len() == 1 {
                    ok = and(ok, p[0] == q[0]);
                }
            }
            ok
        }
        _ => false,
    }
}
fn same(a: &[Item], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok = and(ok, a[i].0 == b[i]);
    }
    ok
}
fn same64(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok = and(ok, a[i] == b[i]);
    }
    ok
}

/// One legal write (or the operations of one legal transaction), applied to the model.
#[inline(never)]
pub fn gen(m: &mut Model, max: u64) -> Vec<StorageOp<Item>> {
    match choose("write", 10) {
        0 => {
            let v = m.item();
            m.log.push(v);
            vec![StorageOp::AppendEntry(Item(v))]
        }
        1 => {
            let v = m.items(max);
            m.log.extend(v.iter());
            vec![StorageOp::AppendEntries(mk(&v))]
        }
        2 => {
            let from = m.base + choose("prefix", m.log.len() as u64 + 1) as usize;
            let v = m.items(max);
            m.log.truncate(from - m.base);
            m.log.extend(v.iter());
            vec![StorageOp::AppendOnPrefix(from, mk(&v))]
        }
        3 => {
            let b = ballot("promise");
            m.prom = Some(b);
            vec![StorageOp::SetPromise(b)]
        }
        4 => {
            let b = ballot("accepted round");
            m.acc = Some(b);
            vec![StorageOp::SetAcceptedRound(b)]
        }
        5 => {
            m.ld = sym("decided index", 64) as usize;
            vec![StorageOp::SetDecidedIndex(m.ld)]
        }
        6 => {
            m.ss = stopsign(flag("stopsign"));
            vec![StorageOp::SetStopsign(m.ss.clone())]
        }
        7 => {
            m.snap = if flag("snapshot") { Some(vec![sym("snapshot", 64)]) } else { None };
            vec![StorageOp::SetSnapshot(m.snap.clone().map(ItemFold))]
        }
        8 => {
            // compaction: up to anywhere in the log, or a repeated removal of what is gone
            let low = if m.base > 3 { m.base - 2 } else { 0 };
            let i = low + choose("compacted index", (m.end() - low) as u64 + 1) as usize;
            if i < m.base {
                return vec![StorageOp::Trim(i)];
            }
            m.log.drain(0..i - m.base);
            m.base = i;
            vec![StorageOp::Trim(i), StorageOp::SetCompactedIdx(i)]
        }
        _ => {
            // a log synchronisation, from inside the log or beyond its end
            let i = m.base + choose("sync index", m.log.len() as u64 + 3) as usize;
            let v = m.items(max);
            m.log = v.clone();
            m.base = i;
            m.snap = Some(vec![i as u64]);
            vec![
                StorageOp::Trim(i),
                StorageOp::SetCompactedIdx(i),
                StorageOp::SetSnapshot(m.snap.clone().map(ItemFold)),
                StorageOp::AppendOnPrefix(i, mk(&v)),
            ]
        }
    }
}

/// The operations one by one.
#[inline(never)]
pub fn direct<S: Storage<Item>>(s: &mut S, ops: Vec<StorageOp<Item>>) -> bool {
    let mut ok = true;
    for op in ops {
        let r = match op {
            StorageOp::AppendEntry(e) => s.append_entry(e),
            StorageOp::AppendEntries(v) => s.append_entries(v),
            StorageOp::AppendOnPrefix(i, v) => s.append_on_prefix(i, v),
            StorageOp::SetPromise(b) => s.set_promise(b),
            StorageOp::SetDecidedIndex(i) => s.set_decided_idx(i),
            StorageOp::SetAcceptedRound(b) => s.set_accepted_round(b),
            StorageOp::SetCompactedIdx(i) => s.set_compacted_idx(i),
            StorageOp::Trim(i) => s.trim(i),
            StorageOp::SetStopsign(x) => s.set_stopsign(x),
            StorageOp::SetSnapshot(x) => s.set_snapshot(x),
        };
        ok &= r.is_ok();
        if !ok {
            break;
        }
    }
    ok
}

/// Everything that can be read, against the model.
#[inline(never)]
pub fn agrees<S: Storage<Item>>(s: &S, m: &Model) -> bool {
    let mut ok = match s.get_promise() {
        Ok(b) => beq(&b, &m.prom),
        Err(_) => false,
    };
    ok = and(ok, match s.get_accepted_round() {
        Ok(b) => beq(&b, &m.acc),
        Err(_) => false,
    });
    ok = and(ok, match s.get_decided_idx() {
        Ok(i) => i == m.ld,
        Err(_) => false,
    });
    ok = and(ok, match s.get_stopsign() {
        Ok(x) => sseq(&x, &m.ss),
        Err(_) => false,
    });
    ok = and(ok, match s.get_snapshot() {
        Ok(None) => m.snap.is_none(),
        Ok(Some(x)) => m.snap.is_some() && same64(&x.0, m.snap.as_ref().unwrap()),
        Err(_) => false,
    });
    ok = and(ok, match s.get_compacted_idx() {
        Ok(i) => i == m.base,
        Err(_) => false,
    });
    ok = and(ok, match s.get_log_len() {
        Ok(i) => i == m.log.len(),
        Err(_) => false,
    });
    ok = and(ok, match s.get_entries(m.base, m.end()) {
        Ok(v) => same(&v, &m.log),
        Err(_) => false,
    });
    ok = and(ok, match s.get_suffix(m.base) {
        Ok(v) => same(&v, &m.log),
        Err(_) => false,
    });
    ok
}

/// One read at arbitrary indexes.
#[inline(never)]
pub fn read<S: Storage<Item>>(s: &S, m: &Model) {
    if m.base > 200 {
        // indexes around both ends
        let at = |name| m.base - 2 + choose(name, 8) as usize;
        let (from, to) = (at("from"), at("to"));
        let inside = from >= m.base && from <= to && to <= m.end();
        match s.get_entries(from, to) {
            Ok(v) if inside => check("C18|C19: a stored interval is read back as it was written", same(&v, &m.log[from - m.base..to - m.base])),
            Ok(v) => check("C18|C19: an interval that is not completely stored reads as empty", v.is_empty()),
            Err(_) => check("C18|C19: a read of any interval succeeds", false),
        }
        cover("read near");
        return;
    }
    let from = sym("from", 64) as usize;
    let (to, r) = if flag("suffix") {
        (m.end(), s.get_suffix(from))
    } else {
        let to = sym("to", 64) as usize;
        (to, s.get_entries(from, to))
    };
    let inside = and(and(from >= m.base, from <= to), to <= m.end());
    let v = match r {
        Ok(v) => v,
        Err(_) => {
            check("C18|C19: a read of any interval succeeds", false);
            return;
        }
    };
    if conc(inside as u64) == 1 {
        let (from, to) = (conc(from as u64) as usize, conc(to as u64) as usize);
        check("C18|C19: a stored interval is read back as it was written", same(&v, &m.log[from - m.base..to - m.base]));
        cover("read");
    } else {
        check("C18|C19: an interval that is not completely stored reads as empty", v.is_empty());
        cover("read outside");
    }
}

/// Any compacted prefix and log.
pub fn start<S: Storage<Item>>(s: &mut S, len: usize) -> Model {
    let mut m = Model::default();
    let base = choose("compacted", 3) as usize;
    let v: Vec<u64> = {
        let k = base as u64 + choose("log length", len as u64 + 1);
        (0..k).map(|_| m.item()).collect()
    };
    if !v.is_empty() {
        let _ = s.append_entries(mk(&v));
    }
    m.log = v;
    if base > 0 {
        let _ = s.write_atomically(vec![StorageOp::Trim(base), StorageOp::SetCompactedIdx(base)]);
        m.log.drain(0..base);
        m.base = base;
    }
    m
}

fn contract<S: Backend>(steps: usize, len: usize) {
    let mut s = S::fresh();
    let m = start(&mut s, len);
    writes(s, m, steps)
}

/// A log synchronised far beyond what was there, so that its indexes cross a power of 256.
fn far<S: Backend>() {
    let mut s = S::fresh();
    let mut m = start(&mut s, 0);
    let i = [254, 65535, 0xffff_fffe, 0xff_ffff_ffff, 0x0123_4567_89ab_ffff][choose("starts at", 5) as usize];
    let v: Vec<u64> = (0..3).map(|_| m.item()).collect();
    m.base = i;
    m.log = v.clone();
    m.snap = Some(vec![i as u64]);
    let ops = vec![
        StorageOp::Trim(i),
        StorageOp::SetCompactedIdx(i),
        StorageOp::SetSnapshot(m.snap.clone().map(ItemFold)),
        StorageOp::AppendOnPrefix(i, mk(&v)),
    ];
    let ok = s.write_atomically(ops).is_ok();
    check("C18|C19: a write succeeds", ok);
    check("C18|C19: what was written last is what is read", agrees(&s, &m));
    check("C18|C19: an interval that is not completely stored reads as empty", match s.get_suffix(0) {
        Ok(v) => v.is_empty(),
        Err(_) => false,
    });
    writes(s, m, 1)
}

fn writes<S: Backend>(mut s: S, mut m: Model, steps: usize) {
    let max = if steps > 2 { 1 } else { 2 };
    for _ in 0..steps {
        let mut ops = gen(&mut m, max);
        let ok = match choose("how", 3) {
            0 => direct(&mut s, ops),
            1 => s.write_atomically(ops).is_ok(),
            _ => {
                if steps > 1 {
                    stop();
                }
                ops.extend(gen(&mut m, 1));
                s.write_atomically(ops).is_ok()
            }
        };
        check("C18|C19: a write succeeds", ok);
        if flag("restart") {
            if S::WHAT == "memory" {
                stop();
            }
            s = s.reopen();
            cover("reopened");
        }
        check("C18|C19: what was written last is what is read", agrees(&s, &m));
    }
    read(&s, &m);
}

#[cfg(feature = "disk")]
pub mod disk {
    use super::*;
    use omnipaxos::storage::{StopSign, StorageResult};
    use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};

    pub struct Disk(PersistentStorage<Item>);
    fn open() -> Disk {
        Disk(PersistentStorage::open(PersistentStorageConfig::with_path("db".to_string())))
    }
    impl Backend for Disk {
        const WHAT: &'static str = "disk";
        fn fresh() -> Self {
            open()
        }
        fn reopen(self) -> Self {
            drop(self);
            open()
        }
    }
    impl Storage<Item> for Disk {
        fn write_atomically(&mut self, ops: Vec<StorageOp<Item>>) -> StorageResult<()> {
            self.0.write_atomically(ops)
        }
        fn append_entry(&mut self, entry: Item) -> StorageResult<()> {
            self.0.append_entry(entry)
        }
        fn append_entries(&mut self, entries: Vec<Item>) -> StorageResult<()> {
            self.0.append_entries(entries)
        }
        fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<Item>) -> StorageResult<()> {
            self.0.append_on_prefix(from_idx, entries)
        }
        fn set_promise(&mut self, b: Ballot) -> StorageResult<()> {
            self.0.set_promise(b)
        }
        fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
            self.0.set_decided_idx(ld)
        }
        fn get_decided_idx(&self) -> StorageResult<usize> {
            self.0.get_decided_idx()
        }
        fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
            self.0.set_accepted_round(na)
        }
        fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
            self.0.get_accepted_round()
        }
        fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<Item>> {
            self.0.get_entries(from, to)
        }
        fn get_log_len(&self) -> StorageResult<usize> {
            self.0.get_log_len()
        }
        fn get_suffix(&self, from: usize) -> StorageResult<Vec<Item>> {
            self.0.get_suffix(from)
        }
        fn get_promise(&self) -> StorageResult<Option<Ballot>> {
            self.0.get_promise()
        }
        fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
            self.0.set_stopsign(s)
        }
        fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
            self.0.get_stopsign()
        }
        fn trim(&mut self, idx: usize) -> StorageResult<()> {
            self.0.trim(idx)
        }
        fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
            self.0.set_compacted_idx(idx)
        }
        fn get_compacted_idx(&self) -> StorageResult<usize> {
            self.0.get_compacted_idx()
        }
        fn set_snapshot(&mut self, snapshot: Option<ItemFold>) -> StorageResult<()> {
            self.0.set_snapshot(snapshot)
        }
        fn get_snapshot(&self) -> StorageResult<Option<ItemFold>> {
            self.0.get_snapshot()
        }
    }

    fn poison(op: &mut StorageOp<Item>) -> bool {
        match op {
            StorageOp::AppendEntry(e) => e.0 = POISON,
            StorageOp::AppendEntries(v) | StorageOp::AppendOnPrefix(_, v) if !v.is_empty() => {
                let k = v.len() - 1;
                v[k].0 = POISON
            }
            _ => return false,
        }
        true
    }

    /// One call or transaction fails half-way, or the process crashes in it: nothing of it may remain
    /// (a crash may also come after it took effect), and the storage has to go on working.
    pub fn faults(crash: bool, len: usize) {
        let mut s = open();
        let mut m = start(&mut s, len);
        let before = m.clone();
        let mut ops = gen(&mut m, 2);
        let atomic = flag("in one transaction");
        if atomic && flag("two writes") {
            ops.extend(gen(&mut m, 1));
        }
        if !atomic && ops.len() > 1 {
            stop();
        }
        let after = m;
        let mut m = before.clone();
        m.made = after.made;
        let at = rocksdb::ctl(|c| c.writes) + choose("write that fails", 2);
        if crash {
            rocksdb::ctl(|c| c.crash_at = Some(at));
        } else if flag("entry that cannot be serialised") {
            let k = ops.len() - 1;
            if !poison(&mut ops[k]) {
                stop();
            }
        } else {
            rocksdb::ctl(|c| c.fail_at = Some(at));
        }
        let ok = if atomic { s.write_atomically(ops).is_ok() } else { direct(&mut s, ops) };
        rocksdb::ctl(|c| {
            c.fail_at = None;
            c.crash_at = None;
        });
        if crash {
            let hit = rocksdb::ctl(|c| {
                let hit = !c.at_crash.is_empty();
                if hit {
                    c.disks = std::mem::take(&mut c.at_crash);
                }
                hit
            });
            if !hit {
                stop();
            }
            s = s.reopen();
            let is_before = agrees(&s, &before);
            let is_after = agrees(&s, &after);
            check("C19: a call that a crash interrupts took effect completely or not at all", or(is_before, is_after));
            if conc(is_before as u64) == 0 {
                m = after;
            }
            cover("crashed");
        } else {
            if ok {
                stop();
            }
            check("C19: a failed call leaves everything as it was", agrees(&s, &m));
            cover("failed");
        }
        let ops = gen(&mut m, 1);
        check("C19: a write after a failure succeeds", s.write_atomically(ops).is_ok());
        if flag("restart") {
            s = s.reopen();
        }
        check("C19: a write after a failure takes effect, and nothing else does", agrees(&s, &m));
        read(&s, &m);
    }
}
