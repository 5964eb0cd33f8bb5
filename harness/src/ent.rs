//! Log entry types the real code is instantiated with.
use omnipaxos::storage::{Entry, NoSnapshot, Snapshot};
use serde::{Deserialize, Serialize};

#[cfg(not(feature = "unicache"))]
/// Entry with an arbitrary 64-bit payload whose snapshot is the full list of folded payloads, so a
/// snapshot that misses, duplicates or reorders an entry differs from the right one.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ent(pub u64);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fold(pub Vec<u64>);

impl Snapshot<Ent> for Fold {
    fn create(entries: &[Ent]) -> Self {
        let mut v = Vec::with_capacity(entries.len());
        for e in entries {
            v.push(e.val());
        }
        Fold(v)
    }
    fn merge(&mut self, delta: Self) {
        self.0.extend(delta.0);
    }
    fn use_snapshots() -> bool {
        true
    }
}

#[cfg(not(feature = "unicache"))]
impl Entry for Ent {
    type Snapshot = Fold;
}

/// Same payload, but without snapshots (log trimming only).
#[cfg(not(feature = "unicache"))]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Raw(pub u64);

#[cfg(not(feature = "unicache"))]
impl Entry for Raw {
    type Snapshot = NoSnapshot;
}

pub trait Ent64: Entry + crate::store::Stored + 'static {
    const SNAPS: bool;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    /// One entry as it is sent.
    #[cfg(not(feature = "unicache"))]
    fn wire(v: u64) -> Vec<Self> {
        vec![Self::mk(v)]
    }
    /// A message as it arrives: serialised and deserialised.
    #[cfg(feature = "unicache")]
    fn sent(m: omnipaxos::messages::Message<Self>) -> omnipaxos::messages::Message<Self>;
    fn fold(s: &Self::Snapshot) -> &[u64];
    fn mk_fold(v: Vec<u64>) -> Option<Self::Snapshot>;
}

#[cfg(not(feature = "unicache"))]
impl Ent64 for Ent {
    const SNAPS: bool = true;
    fn mk(v: u64) -> Self {
        Ent(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn fold(s: &Fold) -> &[u64] {
        &s.0
    }
    fn mk_fold(v: Vec<u64>) -> Option<Fold> {
        Some(Fold(v))
    }
}
#[cfg(not(feature = "unicache"))]
impl Ent64 for Raw {
    const SNAPS: bool = false;
    fn mk(v: u64) -> Self {
        Raw(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn fold(_: &NoSnapshot) -> &[u64] {
        &[]
    }
    fn mk_fold(_: Vec<u64>) -> Option<NoSnapshot> {
        None
    }
}

/// With UniCache: the second byte of the payload is also a cached field, with room for two values in the
/// cache. An entry whose cached field was decoded to anything else is not the entry proposed.
#[cfg(feature = "unicache")]
pub mod lru {
    use super::*;
    use omnipaxos::macros::UniCacheEntry;
    use omnipaxos::unicache::*;
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
    #[snapshot(Fold)]
    pub struct Ent {
        pub id: u64,
        #[unicache(encoding(u8), size(2), cache(lru))]
        pub name: u64,
    }
}
#[cfg(feature = "unicache")]
pub mod lfu {
    use super::*;
    use omnipaxos::macros::UniCacheEntry;
    use omnipaxos::unicache::*;
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
    pub struct Raw {
        pub id: u64,
        #[unicache(encoding(u8), size(2), cache(lfu))]
        pub name: u64,
    }
}
#[cfg(feature = "unicache")]
pub use lfu::Raw;
#[cfg(feature = "unicache")]
pub use lru::Ent;

#[cfg(feature = "unicache")]
#[inline(never)]
fn transfer<M: Serialize + for<'a> Deserialize<'a>>(m: M) -> M {
    use crate::sx::*;
    let r = bincode::serialize(&m).map(|b| bincode::deserialize(&b));
    check("C20|C24: every message can be sent and received", matches!(r, Ok(Ok(_))));
    match r {
        Ok(Ok(m)) => m,
        _ => stop(),
    }
}
#[cfg(feature = "unicache")]
impl Ent64 for Ent {
    const SNAPS: bool = true;
    fn mk(v: u64) -> Self {
        Ent { id: v, name: crate::sx::conc(v >> 8 & 0xff) }
    }
    fn val(&self) -> u64 {
        crate::sx::ite(self.name == self.id >> 8 & 0xff, self.id, !self.id)
    }
    fn sent(m: omnipaxos::messages::Message<Self>) -> omnipaxos::messages::Message<Self> {
        transfer(m)
    }
    fn fold(s: &Fold) -> &[u64] {
        &s.0
    }
    fn mk_fold(v: Vec<u64>) -> Option<Fold> {
        Some(Fold(v))
    }
}
#[cfg(feature = "unicache")]
impl Ent64 for Raw {
    const SNAPS: bool = false;
    fn mk(v: u64) -> Self {
        Raw { id: v, name: crate::sx::conc(v >> 8 & 0xff) }
    }
    fn val(&self) -> u64 {
        crate::sx::ite(self.name == self.id >> 8 & 0xff, self.id, !self.id)
    }
    fn sent(m: omnipaxos::messages::Message<Self>) -> omnipaxos::messages::Message<Self> {
        transfer(m)
    }
    fn fold(_: &NoSnapshot) -> &[u64] {
        &[]
    }
    fn mk_fold(_: Vec<u64>) -> Option<NoSnapshot> {
        None
    }
}
