//! A tiny cluster on FIFO links for demonstrations.
#![allow(dead_code)]
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::Message;
use omnipaxos::storage::*;
use omnipaxos::util::*;
use omnipaxos::*;
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Ent(pub u64);
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Fold(pub Vec<u64>);
impl Snapshot<Ent> for Fold {
    fn create(e: &[Ent]) -> Self {
        Fold(e.iter().map(|x| x.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}
impl Entry for Ent {
    type Snapshot = Fold;
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Raw(pub u64);
impl Entry for Raw {
    type Snapshot = NoSnapshot;
}
pub trait Val: Entry {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn fold(s: &Self::Snapshot) -> Vec<u64>;
}
impl Val for Ent {
    fn mk(v: u64) -> Self {
        Ent(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn fold(s: &Fold) -> Vec<u64> {
        s.0.clone()
    }
}
impl Val for Raw {
    fn mk(v: u64) -> Self {
        Raw(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn fold(_: &NoSnapshot) -> Vec<u64> {
        vec![]
    }
}

thread_local!(pub static CRASH_IN: std::cell::Cell<u64> = std::cell::Cell::new(0));
/// Panics just before the n-th write from now on (0: never).
pub fn crash_in(n: u64) {
    CRASH_IN.with(|c| c.set(n))
}
fn write() {
    CRASH_IN.with(|c| match c.get() {
        0 => {}
        1 => {
            c.set(0);
            panic!("crash")
        }
        n => c.set(n - 1),
    })
}

pub struct Store<T: Entry>(pub Rc<RefCell<MemoryStorage<T>>>);
impl<T: Entry> Storage<T> for Store<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        write();
        self.0.borrow_mut().write_atomically(ops)
    }
    fn append_entry(&mut self, e: T) -> StorageResult<()> {
        write();
        self.0.borrow_mut().append_entry(e)
    }
    fn append_entries(&mut self, e: Vec<T>) -> StorageResult<()> {
        write();
        self.0.borrow_mut().append_entries(e)
    }
    fn append_on_prefix(&mut self, f: usize, e: Vec<T>) -> StorageResult<()> {
        write();
        self.0.borrow_mut().append_on_prefix(f, e)
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        write();
        self.0.borrow_mut().set_promise(n)
    }
    fn set_decided_idx(&mut self, l: usize) -> StorageResult<()> {
        write();
        self.0.borrow_mut().set_decided_idx(l)
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.0.borrow().get_decided_idx()
    }
    fn set_accepted_round(&mut self, n: Ballot) -> StorageResult<()> {
        write();
        self.0.borrow_mut().set_accepted_round(n)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().get_accepted_round()
    }
    fn get_entries(&self, f: usize, t: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().get_entries(f, t)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.0.borrow().get_log_len()
    }
    fn get_suffix(&self, f: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().get_suffix(f)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().get_promise()
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        write();
        self.0.borrow_mut().set_stopsign(s)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.0.borrow().get_stopsign()
    }
    fn trim(&mut self, i: usize) -> StorageResult<()> {
        write();
        self.0.borrow_mut().trim(i)
    }
    fn set_compacted_idx(&mut self, i: usize) -> StorageResult<()> {
        write();
        self.0.borrow_mut().set_compacted_idx(i)
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.0.borrow().get_compacted_idx()
    }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> {
        write();
        self.0.borrow_mut().set_snapshot(s)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        self.0.borrow().get_snapshot()
    }
}

pub struct Sim<T: Val> {
    pub n: usize,
    pub conf: Box<dyn Fn(&mut OmniPaxosConfig)>,
    pub nodes: Vec<OmniPaxos<T, Store<T>>>,
    pub st: Vec<Rc<RefCell<MemoryStorage<T>>>>,
    pub link: Vec<Vec<VecDeque<Message<T>>>>,
    pub up: Vec<Vec<bool>>,
    pub ble: bool,
}
impl<T: Val> Sim<T> {
    pub fn new(n: usize) -> Self {
        Self::with(n, |_| {})
    }
    pub fn with(n: usize, conf: impl Fn(&mut OmniPaxosConfig) + 'static) -> Self {
        let mut s = Sim {
            n,
            conf: Box::new(conf),
            nodes: vec![],
            st: (0..n).map(|_| Rc::new(RefCell::new(MemoryStorage::default()))).collect(),
            link: (0..n).map(|_| (0..n).map(|_| VecDeque::new()).collect()).collect(),
            up: vec![vec![true; n]; n],
            ble: false,
        };
        for i in 0..n {
            let nd = s.build(i);
            s.nodes.push(nd);
        }
        s
    }
    fn build(&self, i: usize) -> OmniPaxos<T, Store<T>> {
        let mut c = OmniPaxosConfig::default();
        c.cluster_config.configuration_id = 1;
        c.cluster_config.nodes = (1..=self.n as u64).collect();
        c.server_config.pid = i as u64 + 1;
        c.server_config.buffer_size = 8;
        c.server_config.election_tick_timeout = u64::MAX;
        c.server_config.resend_message_tick_timeout = 1;
        c.server_config.flush_batch_tick_timeout = 1;
        (self.conf)(&mut c);
        c.build(Store(self.st[i].clone())).unwrap()
    }
    pub fn restart(&mut self, i: usize) {
        for j in 0..self.n {
            self.link[j][i].clear();
        }
        self.nodes[i] = self.build(i);
    }
    pub fn lead(&mut self, i: usize) {
        self.nodes[i].try_become_leader()
    }
    pub fn append(&mut self, i: usize, v: u64) {
        assert!(self.nodes[i].append(T::mk(v)).is_ok())
    }
    pub fn take(&mut self, i: usize) {
        let mut b = vec![];
        self.nodes[i].take_outgoing_messages(&mut b);
        for m in b {
            if !self.ble {
                if let Message::BLE(_) = m {
                    continue;
                }
            }
            let to = m.get_receiver() as usize - 1;
            self.link[i][to].push_back(m);
        }
    }
    pub fn deliver(&mut self, i: usize, j: usize) -> bool {
        match self.link[i][j].pop_front() {
            Some(m) => {
                self.nodes[j].handle_incoming(m);
                true
            }
            None => false,
        }
    }
    pub fn lose(&mut self, i: usize, j: usize) -> bool {
        self.link[i][j].pop_front().is_some()
    }
    pub fn pump(&mut self) {
        for i in 0..self.n {
            self.take(i);
        }
        for i in 0..self.n {
            for j in 0..self.n {
                for _ in 0..self.link[i][j].len() {
                    if self.up[i][j] {
                        self.deliver(i, j);
                    } else {
                        self.lose(i, j);
                    }
                }
            }
        }
    }
    pub fn drain(&mut self) {
        for _ in 0..12 {
            self.pump();
        }
    }
    pub fn cut(&mut self, i: usize) {
        for j in 0..self.n {
            self.up[i][j] = false;
            self.up[j][i] = false;
        }
    }
    pub fn heal(&mut self) {
        for i in 0..self.n {
            for j in 0..self.n {
                self.up[i][j] = true;
            }
        }
    }
    pub fn reconnect(&mut self, i: usize, j: usize) {
        self.nodes[i].reconnected(j as u64 + 1);
        self.nodes[j].reconnected(i as u64 + 1);
    }
    pub fn tick(&mut self, i: usize) {
        self.nodes[i].tick()
    }
    pub fn tick_all(&mut self) {
        for i in 0..self.n {
            self.tick(i)
        }
    }
    pub fn decided(&self, i: usize) -> usize {
        self.nodes[i].get_decided_idx()
    }
    /// The decided log of node i; a stopsign is u64::MAX, a trimmed entry u64::MAX - 1.
    pub fn log(&self, i: usize) -> Vec<u64> {
        let mut out = vec![];
        for e in self.nodes[i].read_decided_suffix(0).unwrap_or_default() {
            match e {
                LogEntry::Decided(x) => out.push(x.val()),
                LogEntry::Undecided(_) => panic!("undecided entry in the decided log"),
                LogEntry::Trimmed(t) => out.extend(std::iter::repeat(u64::MAX - 1).take(t)),
                LogEntry::Snapshotted(s) => {
                    let f = T::fold(&s.snapshot);
                    assert_eq!(f.len(), s.trimmed_idx, "snapshot {f:?} stands for {} entries", s.trimmed_idx);
                    out.extend(f);
                }
                LogEntry::StopSign(..) => out.push(u64::MAX),
            }
        }
        out
    }
    pub fn agree(&self) {
        for i in 0..self.n {
            for j in 0..i {
                let (a, b) = (self.log(i), self.log(j));
                let k = a.len().min(b.len());
                for x in 0..k {
                    assert!(a[x] == b[x] || a[x] == u64::MAX - 1 || b[x] == u64::MAX - 1, "nodes {} and {} disagree: {:?} {:?}", i + 1, j + 1, a, b);
                }
            }
        }
    }
}
