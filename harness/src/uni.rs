//! UniCache: what a leader's cache encodes, the caches it sent to its followers decode.
use crate::sx::*;
use omnipaxos::storage::Entry;
use omnipaxos::unicache::{lfu_cache::LFUniCache, lru_cache::LRUniCache, FieldCache, UniCache};
use serde::{Deserialize, Serialize};

type Lru = LRUniCache<u64, u8>;
type Lfu = LFUniCache<u64, u8>;

crate::harness! {
    h_lru1 => || field::<Lru>(1, 7, 3);
    h_lru2 => || field::<Lru>(2, 7, 4);
    h_lru2x => || field::<Lru>(2, 9, 4);
    h_lru3 => || field::<Lru>(3, 7, 5);
    h_lfu1 => || field::<Lfu>(1, 7, 3);
    h_lfu2 => || field::<Lfu>(2, 7, 4);
    h_lfu2x => || field::<Lfu>(2, 9, 4);
    h_lfu3 => || field::<Lfu>(3, 7, 5);
    h_lrufull => || full::<Lru>();
    h_lfufull => || full::<Lfu>();
    h_derive => || derived(3);
    h_derivex => || derived(5);
}

pub trait Cache: FieldCache<u64, u8> + Clone + Serialize + for<'a> Deserialize<'a> {}
impl<C: FieldCache<u64, u8> + Clone + Serialize + for<'a> Deserialize<'a>> Cache for C {}

/// What a follower gets: a copy of the leader's cache, possibly serialised on the way.
#[inline(never)]
fn send<C: Clone + Serialize + for<'a> Deserialize<'a>>(c: &C, wire: bool) -> C {
    let copy = c.clone();
    if !wire {
        return copy;
    }
    match bincode::serialize(&copy) {
        Ok(bytes) => match bincode::deserialize(&bytes) {
            Ok(c) => return c,
            Err(_) => check("C20: a cache that was sent can be received", false),
        },
        Err(_) => check("C20: a cache can be sent", false),
    }
    stop()
}

/// A leader and a follower. In every step the leader encodes one of `vals` values or the follower is
/// synchronised again or takes over (and the old leader is synchronised).
fn field<C: Cache>(size: usize, steps: usize, vals: u64) {
    let wire = flag("serialised");
    let mut lead = C::new(size);
    let mut follow = send(&lead, wire);
    let mut changes = 0;
    for k in 0..steps {
        // the first value is 0 and later ones are at most one above those seen: names do not matter
        let op = choose("operation", vals + 2);
        if op < vals {
            assume(op as usize <= k);
            let e = lead.try_encode(&op);
            let hit = matches!(e, omnipaxos::unicache::MaybeEncoded::Encoded(_));
            let d = follow.decode(e);
            check("C20: a follower decodes the value its leader encoded", d == op);
            if hit {
                cover("cache hit");
            }
        } else if op == vals {
            assume(k > 0);
            follow = send(&lead, wire);
            cover("synchronised");
        } else {
            assume(k > 0);
            assume(changes < 2);
            changes += 1;
            lead = follow;
            follow = send(&lead, wire);
            cover("leader changed");
        }
    }
    cover("encoded");
}

/// The largest cache a `u8` encoding allows is filled, and then some.
fn full<C: Cache>() {
    let size = u8::MAX as usize;
    let mut lead = C::new(size);
    let mut follow = lead.clone();
    for v in 0..size as u64 + 3 {
        let e = lead.try_encode(&v);
        let d = follow.decode(e);
        check("C20: a follower decodes the value its leader encoded", d == v);
    }
    let mut late = send(&lead, flag("serialised"));
    for k in 0..3 {
        let v = [0, 1, 2, 100, 256, 257, 258][choose("value", 7) as usize];
        let e = lead.try_encode(&v);
        let d = follow.decode(e.clone());
        check("C20: a follower decodes the value its leader encoded", d == v);
        let d = late.decode(e);
        check("C20: a late follower decodes the value its leader encoded", d == v);
        if k == 1 && flag("leader changes") {
            lead = follow;
            follow = send(&lead, false);
            late = send(&lead, true);
        }
    }
    cover("encoded");
}

pub mod many {
    use super::*;
    use omnipaxos::macros::UniCacheEntry;
    use omnipaxos::unicache::*;
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
    pub struct Many {
        #[unicache(encoding(u8), size(1), cache(lfu))]
        pub a: u64,
        pub x: u64,
        #[unicache(encoding(u16), size(2), cache(lru))]
        pub b: u64,
        pub y: u32,
        #[unicache(size(2))]
        pub c: u32,
    }
}
use many::{Many, ManyCache};

/// An entry type with several cached fields, as the macro derives it; all other fields are arbitrary.
fn derived(steps: usize) {
    let wire = flag("serialised");
    let mut lead = ManyCache::new();
    let mut follow = send(&lead, wire);
    for k in 0..steps {
        if k > 0 {
            match choose("operation", 3) {
                1 => follow = send(&lead, wire),
                2 => {
                    lead = follow;
                    follow = send(&lead, wire);
                }
                _ => (),
            }
        }
        let v = choose("values", 5);
        let e = Many {
            a: v & 1,
            x: sym("x", 64),
            b: [0, 1, 2, 0, 1][v as usize],
            y: sym("y", 32) as u32,
            c: [7, 8, 8, 9, 7][v as usize],
        };
        let enc = lead.try_encode(&e);
        let d = if wire {
            match bincode::serialize(&enc).map(|b| bincode::deserialize::<<Many as Entry>::EncodeResult>(&b)) {
                Ok(Ok(m)) => follow.decode(m),
                _ => {
                    check("C20: an encoded entry can be sent and received", false);
                    stop()
                }
            }
        } else {
            follow.decode(enc)
        };
        check(
            "C20: a follower decodes the entry its leader encoded",
            and(and(d.a == e.a, and(d.b == e.b, d.c == e.c)), and(d.x == e.x, d.y == e.y)),
        );
    }
    cover("encoded");
}
