//! Element types of several sizes. Every element carries a unique id, an order key, integrity
//! marks, and a counter that callbacks increment through shared references.

use crate::env;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU8, AtomicU64, Ordering::Relaxed};

pub trait Elem: Sized + Send + Sync + Ord {
    const ZST: bool = false;
    /// Range of ids and of the counter.
    const IDS: u32 = u32::MAX;
    const COUNTS: u32 = u32::MAX;
    fn make(id: u32, key: u32) -> Self;
    fn valid(&self) -> bool;
    fn id(&self) -> u32;
    fn key(&self) -> u32;
    fn cnt(&self) -> u32;
    fn set_cnt(&self, c: u32);
    /// Marks the element as held by thread `who`; returns the previous holder.
    fn hold(&self, who: u8) -> u8;
    fn release(&self);
}

#[repr(C)]
pub struct Small {
    id: u16,
    key: u16,
    cnt: AtomicU16,
    busy: AtomicU8,
    magic: u8,
}
impl Elem for Small {
    const IDS: u32 = u16::MAX as u32;
    const COUNTS: u32 = u16::MAX as u32;
    fn make(id: u32, key: u32) -> Self {
        Small { id: id as u16, key: key as u16, cnt: AtomicU16::new(0), busy: AtomicU8::new(0), magic: 0x5C ^ (id as u8).rotate_left(3) ^ key as u8 }
    }
    fn valid(&self) -> bool {
        self.magic == 0x5C ^ (self.id as u8).rotate_left(3) ^ self.key as u8
    }
    fn id(&self) -> u32 {
        self.id as u32
    }
    fn key(&self) -> u32 {
        self.key as u32
    }
    fn cnt(&self) -> u32 {
        self.cnt.load(Relaxed) as u32
    }
    fn set_cnt(&self, c: u32) {
        self.cnt.store(c as u16, Relaxed)
    }
    fn hold(&self, who: u8) -> u8 {
        let p = self.busy.load(Relaxed);
        self.busy.store(who, Relaxed);
        p
    }
    fn release(&self) {
        self.busy.store(0, Relaxed)
    }
}

/// As small as an element can be that has an identity.
#[repr(C)]
pub struct Tiny {
    id: u16,
    cnt: AtomicU8,
    /// Holder (6 bits) and parities of the id.
    busy: AtomicU8,
}
fn parities(id: u16) -> u8 {
    ((id.count_ones() & 1) << 6 | (!(id & 0x5A5A).count_ones() & 1) << 7) as u8
}
impl Elem for Tiny {
    const IDS: u32 = u16::MAX as u32;
    const COUNTS: u32 = u8::MAX as u32;
    fn make(id: u32, _: u32) -> Self {
        Tiny { id: id as u16, cnt: AtomicU8::new(0), busy: AtomicU8::new(parities(id as u16)) }
    }
    fn valid(&self) -> bool {
        self.busy.load(Relaxed) & 0xC0 == parities(self.id)
    }
    fn id(&self) -> u32 {
        self.id as u32
    }
    fn key(&self) -> u32 {
        env::run().keys[self.id as usize]
    }
    fn cnt(&self) -> u32 {
        self.cnt.load(Relaxed) as u32
    }
    fn set_cnt(&self, c: u32) {
        self.cnt.store(c as u8, Relaxed)
    }
    fn hold(&self, who: u8) -> u8 {
        let p = self.busy.load(Relaxed);
        let who = if who == env::HANDED { 0x3F } else { who % 0x3F };
        self.busy.store(p & 0xC0 | who, Relaxed);
        match p & 0x3F {
            0x3F => env::HANDED,
            p => p,
        }
    }
    fn release(&self) {
        self.busy.store(self.busy.load(Relaxed) & 0xC0, Relaxed)
    }
}

#[repr(C)]
pub struct Mid {
    magic: u32,
    id: u32,
    key: u32,
    cnt: AtomicU32,
    busy: AtomicU8,
    check: u64,
}
fn check(id: u32, key: u32) -> u64 {
    ((id as u64) << 32 | key as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x0123_4567_89AB_CDEF
}
const MID: u32 = 0x4D1D_E1E7;
impl Elem for Mid {
    fn make(id: u32, key: u32) -> Self {
        Mid { magic: MID, id, key, cnt: AtomicU32::new(0), busy: AtomicU8::new(0), check: check(id, key) }
    }
    fn valid(&self) -> bool {
        self.magic == MID && self.check == check(self.id, self.key)
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn key(&self) -> u32 {
        self.key
    }
    fn cnt(&self) -> u32 {
        self.cnt.load(Relaxed)
    }
    fn set_cnt(&self, c: u32) {
        self.cnt.store(c, Relaxed)
    }
    fn hold(&self, who: u8) -> u8 {
        let p = self.busy.load(Relaxed);
        self.busy.store(who, Relaxed);
        p
    }
    fn release(&self) {
        self.busy.store(0, Relaxed)
    }
}
impl Drop for Mid {
    fn drop(&mut self) {
        env::dropped(self.valid(), self.id);
    }
}

const BIGN: usize = 61;
/// Large, and aligned to more than any allocator guarantees by itself.
#[repr(C, align(64))]
pub struct Big {
    head: [u64; 6],
    mid: Mid,
    tail: [u64; BIGN - 6],
}
fn fill(id: u32, i: usize) -> u64 {
    check(id, 77 + i as u32)
}
impl Elem for Big {
    fn make(id: u32, key: u32) -> Self {
        Big { head: std::array::from_fn(|i| fill(id, i)), mid: Mid::make(id, key), tail: std::array::from_fn(|i| fill(id, 6 + i)) }
    }
    fn valid(&self) -> bool {
        self.mid.valid()
            && self.head.iter().enumerate().all(|(i, &x)| x == fill(self.mid.id, i))
            && self.tail.iter().enumerate().all(|(i, &x)| x == fill(self.mid.id, 6 + i))
    }
    fn id(&self) -> u32 {
        self.mid.id
    }
    fn key(&self) -> u32 {
        self.mid.key
    }
    fn cnt(&self) -> u32 {
        self.mid.cnt()
    }
    fn set_cnt(&self, c: u32) {
        self.mid.set_cnt(c)
    }
    fn hold(&self, who: u8) -> u8 {
        self.mid.hold(who)
    }
    fn release(&self) {
        self.mid.release()
    }
}

pub static ZST_LIVE: AtomicU64 = AtomicU64::new(0);
/// Zero-sized: only counted.
pub struct Zst;
impl Elem for Zst {
    const ZST: bool = true;
    fn make(_: u32, _: u32) -> Self {
        ZST_LIVE.fetch_add(1, Relaxed);
        Zst
    }
    fn valid(&self) -> bool {
        true
    }
    fn id(&self) -> u32 {
        0
    }
    fn key(&self) -> u32 {
        0
    }
    fn cnt(&self) -> u32 {
        0
    }
    fn set_cnt(&self, _: u32) {}
    fn hold(&self, _: u8) -> u8 {
        0
    }
    fn release(&self) {}
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_LIVE.fetch_sub(1, Relaxed);
        env::dropped(true, u32::MAX);
    }
}

macro_rules! ord {
    ($($t:ty),*) => {$(
        impl PartialEq for $t {
            fn eq(&self, other: &Self) -> bool {
                env::cb_eq(env::ANY, self, other)
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
                Some(env::cb_cmp(env::ANY, self, other))
            }
        }
        impl Ord for $t {
            fn cmp(&self, other: &Self) -> Ordering {
                env::cb_cmp(env::ANY, self, other)
            }
        }
    )*};
}
ord!(Tiny, Small, Mid, Big, Zst);

/// Keys of cached-key sorts: counted, and with comparisons that are callbacks themselves.
pub trait Key: Sized + Send + Ord {
    fn make(v: u32, client: usize) -> Self;
    fn val(&self) -> u32;
}
macro_rules! key {
    ($name:ident, $t:ty) => {
        pub struct $name($t);
        impl Key for $name {
            fn make(v: u32, _client: usize) -> Self {
                env::key_made();
                $name(v as $t)
            }
            fn val(&self) -> u32 {
                self.0 as u32
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                env::key_dropped();
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                env::cb_key_cmp(self.val(), o.val()) == Ordering::Equal
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                env::cb_key_cmp(self.val(), o.val())
            }
        }
    };
}
key!(K8, u8);
key!(K16, u16);
key!(K32, u32);
key!(K64, u64);

/// Key of by-key operations: counted, compared silently.
pub struct Silent(u32);
impl Key for Silent {
    fn make(v: u32, _client: usize) -> Self {
        Silent(v)
    }
    fn val(&self) -> u32 {
        self.0
    }
}
impl Drop for Silent {
    fn drop(&mut self) {
        env::key_dropped();
    }
}
impl PartialEq for Silent {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Silent {}
impl PartialOrd for Silent {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Silent {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}

/// A key without any contents, but counted.
pub struct Unit;
impl Key for Unit {
    fn make(_: u32, _client: usize) -> Self {
        Unit
    }
    fn val(&self) -> u32 {
        0
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        env::key_dropped();
    }
}
impl PartialEq for Unit {
    fn eq(&self, o: &Self) -> bool {
        env::cb_key_cmp(0, o.val()) == Ordering::Equal
    }
}
impl Eq for Unit {}
impl PartialOrd for Unit {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Unit {
    fn cmp(&self, o: &Self) -> Ordering {
        env::cb_key_cmp(0, o.val())
    }
}
