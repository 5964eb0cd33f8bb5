//! The storage the real node runs on: the repository's own `MemoryStorage` (in the `disk` build its
//! `PersistentStorage`), shared so that it outlives a crashed node, with a crash point at a chosen write.
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{StopSign, Storage, StorageOp, StorageResult};
use std::cell::RefCell;
use std::rc::Rc;

#[cfg(not(feature = "disk"))]
mod live {
    use omnipaxos::storage::Entry;
    use omnipaxos_storage::memory_storage::MemoryStorage;
    pub type Live<T> = MemoryStorage<T>;
    pub trait Stored: Entry {}
    impl<T: Entry> Stored for T {}
    pub fn new<T: Stored>() -> Live<T> {
        MemoryStorage::default()
    }
    pub fn fork<T: Stored>(l: &Live<T>) -> Live<T> {
        l.clone()
    }
    pub fn reopen<T: Stored>(_: &mut Live<T>) {}
}
#[cfg(feature = "disk")]
mod live {
    use omnipaxos::storage::Entry;
    use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
    use serde::{de::DeserializeOwned, Serialize};
    use std::ops::{Deref, DerefMut};
    pub trait Stored: Entry + Serialize + DeserializeOwned {}
    impl<T: Entry + Serialize + DeserializeOwned> Stored for T {}
    pub struct Live<T: Stored> {
        db: Option<PersistentStorage<T>>,
        path: String,
    }
    impl<T: Stored> Deref for Live<T> {
        type Target = PersistentStorage<T>;
        fn deref(&self) -> &PersistentStorage<T> {
            self.db.as_ref().unwrap()
        }
    }
    impl<T: Stored> DerefMut for Live<T> {
        fn deref_mut(&mut self) -> &mut PersistentStorage<T> {
            self.db.as_mut().unwrap()
        }
    }
    fn open<T: Stored>(path: &str) -> PersistentStorage<T> {
        PersistentStorage::open(PersistentStorageConfig::with_path(path.to_string()))
    }
    fn name() -> String {
        // one letter per database
        let n = rocksdb::ctl(|c| c.disks.len());
        ((b'a' + n as u8) as char).to_string()
    }
    pub fn new<T: Stored>() -> Live<T> {
        let path = name();
        Live { db: Some(open(&path)), path }
    }
    /// The disk as another process would find it.
    pub fn fork<T: Stored>(l: &Live<T>) -> Live<T> {
        let path = name();
        rocksdb::ctl(|c| {
            let d = c.disks.iter().find(|d| d.0 == l.path).unwrap().1.clone();
            c.disks.push((path.clone(), d));
        });
        Live { db: Some(open(&path)), path }
    }
    pub fn reopen<T: Stored>(l: &mut Live<T>) {
        l.db = None;
        l.db = Some(open(&l.path));
    }
}
pub use live::{Live, Stored};

pub struct Inner<T: Stored> {
    /// What the running process sees.
    pub live: Live<T>,
    /// What had reached the disk when the process crashed (taken just before write number `crash_at`).
    pub at_crash: Option<Live<T>>,
    pub writes: u64,
    pub crash_at: u64,
}

pub struct Store<T: Stored>(pub Rc<RefCell<Inner<T>>>);

impl<T: Stored> Store<T> {
    pub fn new() -> Self {
        Store(Rc::new(RefCell::new(Inner {
            live: live::new(),
            at_crash: None,
            writes: 0,
            crash_at: u64::MAX,
        })))
    }
    pub fn share(&self) -> Self {
        Store(self.0.clone())
    }
}

impl<T: Stored> Inner<T> {
    /// The process has ended and another one opens the storage.
    pub fn reopen(&mut self) {
        live::reopen(&mut self.live);
    }
    #[inline(never)]
    fn write(&mut self) -> &mut Live<T> {
        if self.writes == self.crash_at {
            self.at_crash = Some(live::fork(&self.live));
        }
        self.writes += 1;
        &mut self.live
    }
}

impl<T: Stored> Storage<T> for Store<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        self.0.borrow_mut().write().write_atomically(ops)
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        self.0.borrow_mut().write().append_entry(entry)
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        self.0.borrow_mut().write().append_entries(entries)
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        self.0.borrow_mut().write().append_on_prefix(from_idx, entries)
    }
    fn set_promise(&mut self, n_prom: Ballot) -> StorageResult<()> {
        self.0.borrow_mut().write().set_promise(n_prom)
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        self.0.borrow_mut().write().set_decided_idx(ld)
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.0.borrow().live.get_decided_idx()
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        self.0.borrow_mut().write().set_accepted_round(na)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().live.get_accepted_round()
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().live.get_entries(from, to)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.0.borrow().live.get_log_len()
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        self.0.borrow().live.get_suffix(from)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.0.borrow().live.get_promise()
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.0.borrow_mut().write().set_stopsign(s)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.0.borrow().live.get_stopsign()
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        self.0.borrow_mut().write().trim(idx)
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        self.0.borrow_mut().write().set_compacted_idx(idx)
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.0.borrow().live.get_compacted_idx()
    }
    fn set_snapshot(&mut self, snapshot: Option<T::Snapshot>) -> StorageResult<()> {
        self.0.borrow_mut().write().set_snapshot(snapshot)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        self.0.borrow().live.get_snapshot()
    }
}
