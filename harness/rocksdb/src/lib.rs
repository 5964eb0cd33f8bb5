//! In-memory stand-in for the `rocksdb` crate. A database is a set of column families, each a map from
//! keys to values in byte order; a write batch is applied in order and atomically; what was written
//! survives the process. It can be told to fail at a chosen write, or to forget everything from a chosen
//! write on (the process crashed just before it).
use std::cell::RefCell;
use std::ops::Deref;
use std::path::Path;
use std::rc::Rc;

pub type Map = Vec<(Vec<u8>, Vec<u8>)>;

/// One database on the disk.
#[derive(Clone, Default)]
pub struct Disk {
    pub cfs: Vec<(String, Map)>,
}

#[derive(Default)]
pub struct Ctl {
    pub disks: Vec<(String, Disk)>,
    /// Number of writes so far.
    pub writes: u64,
    /// Write (counted from 0) that returns an error.
    pub fail_at: Option<u64>,
    /// Write before which the process crashes: it and everything after it never reaches the disk.
    pub crash_at: Option<u64>,
    pub at_crash: Vec<(String, Disk)>,
}

pub struct Shared(RefCell<Ctl>);
unsafe impl Sync for Shared {}
static CTL: Shared = Shared(RefCell::new(Ctl { disks: Vec::new(), writes: 0, fail_at: None, crash_at: None, at_crash: Vec::new() }));

pub fn ctl<R>(f: impl FnOnce(&mut Ctl) -> R) -> R {
    f(&mut CTL.0.borrow_mut())
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind {
    IOError,
    InvalidArgument,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
}
impl Error {
    pub fn kind(&self) -> ErrorKind {
        self.kind.clone()
    }
    pub fn into_string(self) -> String {
        self.to_string()
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("IO error")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Default)]
pub struct Options {
    missing_cf: bool,
    missing_db: bool,
}
impl Options {
    pub fn create_missing_column_families(&mut self, b: bool) {
        self.missing_cf = b;
    }
    pub fn create_if_missing(&mut self, b: bool) {
        self.missing_db = b;
    }
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_max_write_buffer_number(&mut self, _: i32) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
}
#[derive(Default)]
pub struct WriteOptions {}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct ReadOptions {}

pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
}
pub struct ColumnFamily {
    idx: usize,
}
pub type ColumnFamilyRef<'a> = &'a ColumnFamily;
pub trait AsColumnFamilyRef {
    fn idx(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn idx(&self) -> usize {
        self.idx
    }
}
impl<'a, T: AsColumnFamilyRef + ?Sized> AsColumnFamilyRef for &'a T {
    fn idx(&self) -> usize {
        (**self).idx()
    }
}

#[derive(Clone)]
enum Op {
    Put(usize, Vec<u8>, Vec<u8>),
    Delete(usize, Vec<u8>),
    DeleteRange(usize, Vec<u8>, Vec<u8>),
}

#[derive(Default)]
pub struct WriteBatchWithTransaction<const TRANSACTION: bool> {
    ops: Vec<Op>,
}
pub type WriteBatch = WriteBatchWithTransaction<false>;
impl<const TRANSACTION: bool> WriteBatchWithTransaction<TRANSACTION> {
    pub fn new() -> Self {
        WriteBatchWithTransaction { ops: Vec::new() }
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops.push(Op::Put(0, k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K, v: V) {
        self.ops.push(Op::Put(cf.idx(), k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push(Op::Delete(0, k.as_ref().to_vec()));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K) {
        self.ops.push(Op::Delete(cf.idx(), k.as_ref().to_vec()));
    }
    pub fn clear(&mut self) {
        self.ops.clear();
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
}
impl WriteBatchWithTransaction<false> {
    pub fn delete_range<K: AsRef<[u8]>>(&mut self, from: K, to: K) {
        self.ops.push(Op::DeleteRange(0, from.as_ref().to_vec(), to.as_ref().to_vec()));
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, from: K, to: K) {
        self.ops.push(Op::DeleteRange(cf.idx(), from.as_ref().to_vec(), to.as_ref().to_vec()));
    }
}

pub struct DBPinnableSlice<'a> {
    v: Vec<u8>,
    _db: std::marker::PhantomData<&'a DB>,
}
impl<'a> Deref for DBPinnableSlice<'a> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.v
    }
}
impl<'a> AsRef<[u8]> for DBPinnableSlice<'a> {
    fn as_ref(&self) -> &[u8] {
        &self.v
    }
}

/// An open database; `slot` is where it lies on the disk.
pub struct DB {
    slot: usize,
    handles: Vec<(String, ColumnFamily)>,
    _not_sync: std::marker::PhantomData<Rc<()>>,
}
unsafe impl Send for DB {}
unsafe impl Sync for DB {}

/// First position whose key is not below `k`.
fn lower(m: &Map, k: &[u8]) -> usize {
    let mut i = 0;
    while i < m.len() && m[i].0.as_slice() < k {
        i += 1;
    }
    i
}

fn apply(d: &mut Disk, op: Op) {
    match op {
        Op::Put(cf, k, v) => {
            let m = &mut d.cfs[cf].1;
            let i = lower(m, &k);
            if i < m.len() && m[i].0 == k {
                m[i].1 = v;
            } else {
                m.insert(i, (k, v));
            }
        }
        Op::Delete(cf, k) => {
            let m = &mut d.cfs[cf].1;
            let i = lower(m, &k);
            if i < m.len() && m[i].0 == k {
                m.remove(i);
            }
        }
        Op::DeleteRange(cf, a, b) => {
            let m = &mut d.cfs[cf].1;
            let i = lower(m, &a);
            let j = lower(m, &b);
            if i < j {
                m.drain(i..j);
            }
        }
    }
}

impl DB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(opts: &Options, path: P, cfs: I) -> Result<Self, Error> {
        let path = path.as_ref().to_str().unwrap_or("").to_string();
        ctl(|c| {
            let mut slot = 0;
            while slot < c.disks.len() && c.disks[slot].0 != path {
                slot += 1;
            }
            if slot == c.disks.len() {
                if !opts.missing_db {
                    return Err(Error { kind: ErrorKind::InvalidArgument });
                }
                c.disks.push((path, Disk { cfs: vec![("default".to_string(), vec![])] }));
            }
            let d = &mut c.disks[slot].1;
            let mut handles = vec![("default".to_string(), ColumnFamily { idx: 0 })];
            for f in cfs {
                let mut idx = 0;
                while idx < d.cfs.len() && d.cfs[idx].0 != f.name {
                    idx += 1;
                }
                if idx == d.cfs.len() {
                    if !opts.missing_cf {
                        return Err(Error { kind: ErrorKind::InvalidArgument });
                    }
                    d.cfs.push((f.name.clone(), vec![]));
                }
                handles.push((f.name, ColumnFamily { idx }));
            }
            Ok(DB { slot, handles, _not_sync: std::marker::PhantomData })
        })
    }
    pub fn open_cf<P: AsRef<Path>, I: IntoIterator<Item = N>, N: AsRef<str>>(opts: &Options, path: P, cfs: I) -> Result<Self, Error> {
        let v: Vec<ColumnFamilyDescriptor> = cfs.into_iter().map(|n| ColumnFamilyDescriptor::new(n.as_ref(), Options::default())).collect();
        Self::open_cf_descriptors(opts, path, v)
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.handles.iter().find(|h| h.0 == name).map(|h| &h.1)
    }
    fn commit(&self, ops: Vec<Op>) -> Result<(), Error> {
        ctl(|c| {
            let w = c.writes;
            c.writes += 1;
            if c.crash_at == Some(w) {
                c.at_crash = c.disks.clone();
            }
            if c.fail_at == Some(w) {
                return Err(Error { kind: ErrorKind::IOError });
            }
            for op in ops {
                apply(&mut c.disks[self.slot].1, op);
            }
            Ok(())
        })
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.commit(batch.ops)
    }
    pub fn write_opt(&self, batch: WriteBatch, _: &WriteOptions) -> Result<(), Error> {
        self.commit(batch.ops)
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.commit(vec![Op::Put(0, k.as_ref().to_vec(), v.as_ref().to_vec())])
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V, _: &WriteOptions) -> Result<(), Error> {
        self.put(k, v)
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, v: V) -> Result<(), Error> {
        self.commit(vec![Op::Put(cf.idx(), k.as_ref().to_vec(), v.as_ref().to_vec())])
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.commit(vec![Op::Delete(0, k.as_ref().to_vec())])
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<(), Error> {
        self.commit(vec![Op::Delete(cf.idx(), k.as_ref().to_vec())])
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, from: K, to: K) -> Result<(), Error> {
        self.commit(vec![Op::DeleteRange(cf.idx(), from.as_ref().to_vec(), to.as_ref().to_vec())])
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn flush_wal(&self, _: bool) -> Result<(), Error> {
        Ok(())
    }
    fn read(&self, cf: usize, k: &[u8]) -> Option<Vec<u8>> {
        ctl(|c| {
            let m = &c.disks[self.slot].1.cfs[cf].1;
            let i = lower(m, k);
            if i < m.len() && m[i].0 == k {
                Some(m[i].1.clone())
            } else {
                None
            }
        })
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(0, k.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(cf.idx(), k.as_ref()))
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBPinnableSlice<'_>>, Error> {
        Ok(self.read(0, k.as_ref()).map(|v| DBPinnableSlice { v, _db: std::marker::PhantomData }))
    }
    pub fn get_pinned_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<DBPinnableSlice<'_>>, Error> {
        Ok(self.read(cf.idx(), k.as_ref()).map(|v| DBPinnableSlice { v, _db: std::marker::PhantomData }))
    }
    pub fn multi_get_cf<'a, K: AsRef<[u8]>, I: IntoIterator<Item = (&'a W, K)>, W: AsColumnFamilyRef + 'a>(&'a self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
        keys.into_iter().map(|(cf, k)| self.get_cf(cf, k)).collect()
    }
    fn entries(&self, cf: usize) -> Map {
        ctl(|c| c.disks[self.slot].1.cfs[cf].1.clone())
    }
    pub fn raw_iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef) -> DBRawIterator<'a> {
        DBRawIterator { m: self.entries(cf.idx()), at: None, _db: std::marker::PhantomData }
    }
    pub fn raw_iterator<'a>(&'a self) -> DBRawIterator<'a> {
        DBRawIterator { m: self.entries(0), at: None, _db: std::marker::PhantomData }
    }
    pub fn iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef, mode: IteratorMode<'_>) -> DBIterator<'a> {
        let mut it = self.raw_iterator_cf(cf);
        let fwd = match mode {
            IteratorMode::Start => {
                it.seek_to_first();
                true
            }
            IteratorMode::End => {
                it.seek_to_last();
                false
            }
            IteratorMode::From(k, Direction::Forward) => {
                it.seek(k);
                true
            }
            IteratorMode::From(k, Direction::Reverse) => {
                it.seek_for_prev(k);
                false
            }
        };
        DBIterator { it, fwd }
    }
}

/// A raw iterator over the state at its creation.
pub struct DBRawIteratorWithThreadMode<'a> {
    m: Map,
    at: Option<usize>,
    _db: std::marker::PhantomData<&'a DB>,
}
pub type DBRawIterator<'a> = DBRawIteratorWithThreadMode<'a>;
impl<'a> DBRawIteratorWithThreadMode<'a> {
    fn set(&mut self, i: usize) {
        self.at = if i < self.m.len() { Some(i) } else { None };
    }
    pub fn valid(&self) -> bool {
        self.at.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn seek_to_first(&mut self) {
        self.set(0);
    }
    pub fn seek_to_last(&mut self) {
        self.set(self.m.len().wrapping_sub(1));
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.set(lower(&self.m, k.as_ref()));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        let i = lower(&self.m, k.as_ref());
        if i < self.m.len() && self.m[i].0.as_slice() == k.as_ref() {
            self.set(i);
        } else {
            self.set(i.wrapping_sub(1));
        }
    }
    pub fn next(&mut self) {
        if let Some(i) = self.at {
            self.set(i + 1);
        }
    }
    pub fn prev(&mut self) {
        if let Some(i) = self.at {
            self.set(i.wrapping_sub(1));
        }
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.at.map(|i| self.m[i].0.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.at.map(|i| self.m[i].1.as_slice())
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.at.map(|i| (self.m[i].0.as_slice(), self.m[i].1.as_slice()))
    }
}

pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
pub struct DBIterator<'a> {
    it: DBRawIterator<'a>,
    fwd: bool,
}
impl<'a> Iterator for DBIterator<'a> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let r = self.it.item().map(|(k, v)| Ok((k.to_vec().into_boxed_slice(), v.to_vec().into_boxed_slice())));
        if self.fwd {
            self.it.next();
        } else {
            self.it.prev();
        }
        r
    }
}
