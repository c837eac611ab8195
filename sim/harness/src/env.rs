//! The environment of the code under test: every callback it makes arrives here. This is where
//! invariants are checked while a run proceeds and where crashes, lies and yields are injected.

use crate::alloc;
use crate::elem::{Elem, Key};
use crate::rng::hash2;
use crate::scen::*;
use rayon_core::sim::{self, TagGuard};
use std::cmp::Ordering;
use std::panic::resume_unwind;

pub const ANY: usize = usize::MAX;
/// Tags from here on are reference executions of client `tag - REF_TAG`.
pub const REF_TAG: u32 = 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Class {
    /// An element is missing or duplicated, or its contents changed.
    Perm,
    /// Result not in order / wrong element selected.
    Order,
    /// Equal elements reordered by a stable operation.
    Stable,
    /// Same input, different arrangement.
    Determinism,
    /// An element outside the view changed.
    Outside,
    /// A callback was given something that is not an element of the view.
    Foreign,
    /// An element was given to two callbacks at once.
    Exclusive,
    /// An element changed while a callback held it.
    Changed,
    /// A side effect of a callback was lost or reverted.
    Lost,
    /// A callback ran after its operation had returned.
    Quiesce,
    /// Wrong panic payload.
    Payload,
    /// An injected panic did not reach the caller.
    Swallowed,
    /// An element was dropped during an operation, or not exactly once at the end.
    Drop,
    /// Memory not released.
    Leak,
    /// Memory misuse seen by the allocator.
    Memory,
    /// The allocator was used by an in-place operation.
    Allocates,
    /// Too much scratch memory.
    Scratch,
    /// Too many callback invocations for the promised complexity.
    Bound,
    /// No termination within any sensible bound.
    Endless,
    /// Wrong return value.
    Value,
    /// Collection of a bulk selection wrong.
    Collection,
    /// Key function called too often.
    KeyCalls,
    /// Array changed although the operation should have been atomic.
    Atomic,
    /// A keys' drop count is off.
    KeyDrop,
    /// Bad arguments accepted.
    Accepted,
    /// A panic nobody injected.
    Panic,
    /// Deadlock in the pool.
    Deadlock,
    /// A callback on a thread where it should not be, or threads started by an operation.
    Thread,
    /// Too long a chain of dependent callbacks.
    Span,
    /// Other questions than under another schedule.
    Work,
    /// Process died.
    Crash,
    /// No progress without callbacks.
    Hang,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: Class,
    pub client: usize,
    pub op: usize,
    pub text: String,
}

/// Payload of an injected crash.
pub struct Injected {
    pub client: usize,
    pub op: usize,
    pub at: u64,
}
/// Payload used to leave an operation after a violation.
pub struct Abort;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub panics: u64,
    pub lies: u64,
    pub adversary: u64,
    pub ext_panics: u64,
    pub alloc_failed: u64,
    pub outages: u64,
    pub corrupt: u64,
    pub key_panics: u64,
    pub nested: u64,
    pub reentered: u64,
    pub inside: u64,
    pub tight: u64,
    pub unwound: u64,
    pub exchanged: u64,
}

/// Per client: the operation in progress.
pub struct Client {
    pub base: u32,
    pub n: usize,
    pub active: bool,
    pub inside: u32,
    pub calls: u64,
    pub limit: u64,
    pub op_idx: usize,
    pub op: OpSpec,
    pub thrown: Vec<u64>,
    /// Question sequence hash, in terms of positions at the start of the operation.
    pub qhash: u64,
    pub pos0: Vec<u32>,
    /// The questions, irrespective of their order.
    pub qset: u64,
    /// The OS thread and the simulated thread the operation was called on.
    pub home: (usize, Option<usize>),
    // adversary
    pub adv_val: Vec<u32>,
    pub adv_solid: u32,
    /// From this value on, all elements not fixed yet are equal.
    pub adv_tie: u32,
    pub adv_cand: u32,
    pub gas_seen: bool,
    // cached keys
    pub key_calls: Vec<u8>,
    pub key_val: Vec<u32>,
    pub total_keys: u64,
    pub key_span: u64,
    pub keys_made: i64,
    pub keys_dropped: i64,
    /// dedup: order of arguments
    pub arg_order_bad: bool,
}

pub struct Run {
    pub prop: String,
    pub wanted: Vec<Class>,
    pub total: u32,
    pub owner: Vec<u8>,
    pub keys: Vec<u32>,
    pub touches: Vec<u32>,
    pub drops: Vec<u8>,
    pub teardown: bool,
    pub clients: Vec<Client>,
    pub refs: Vec<Client>,
    pub violations: Vec<Violation>,
    pub event_hash: u64,
    pub callbacks: u64,
    pub yields: u8,
    pub in_world: bool,
    pub stats: Stats,
    pub zst: bool,
    pub alloc_checked: u64,
}

static mut RUN: *mut Run = std::ptr::null_mut();

/// The run in progress. Only the thread holding the simulator's token (or the only thread) calls
/// this, and no reference is kept across a yield point.
#[allow(clippy::mut_from_ref)]
#[inline]
pub fn run() -> &'static mut Run {
    unsafe {
        debug_assert!(!RUN.is_null());
        &mut *RUN
    }
}
pub fn install(r: *mut Run) {
    unsafe { RUN = r }
}
pub fn installed() -> bool {
    unsafe { !RUN.is_null() }
}

pub fn violate(class: Class, client: usize, text: String) {
    let _t = TagGuard::new(0);
    let r = run();
    if !r.wanted.contains(&class) {
        return;
    }
    let op = r.clients.get(client).map_or(0, |c| c.op_idx);
    if r.violations.len() < 12 {
        r.violations.push(Violation { class, client, op, text });
    }
}

fn abort() -> ! {
    let _t = TagGuard::new(0);
    resume_unwind(Box::new(Abort))
}

#[inline]
fn mix(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
}

fn client_of_tag(tag: u32) -> Option<&'static mut Client> {
    let r = run();
    if tag >= REF_TAG {
        r.refs.get_mut((tag - REF_TAG) as usize)
    } else if tag >= 1 {
        r.clients.get_mut((tag - 1) as usize)
    } else {
        None
    }
}

/// Identifies the OS thread.
#[inline]
pub fn here() -> usize {
    thread_local! {
        static HERE: u8 = const { 0 };
    }
    HERE.with(|h| h as *const u8 as usize)
}

/// Bookkeeping at the start of a callback made by the operation with `tag`.
fn enter(tag: u32) -> u64 {
    if tag == 0 {
        violate(Class::Quiesce, 0, "callback outside of any operation".into());
        abort();
    }
    run().callbacks += 1;
    let Some(c) = client_of_tag(tag) else { abort() };
    if !c.active {
        let i = if tag >= REF_TAG { 0 } else { tag as usize - 1 };
        violate(Class::Quiesce, i, "callback after the operation has returned".into());
        abort();
    }
    c.calls += 1;
    sim::step();
    if tag < REF_TAG && here() != c.home.0 && !(c.op.op.par() && sim::current().is_some_and(|t| t < sim::workers())) {
        let (op, at) = (c.op.op, c.home.1);
        violate(Class::Thread, client_index(tag), format!("{op:?} called on thread {at:?} made a callback on thread {:?}", sim::current()));
    }
    if c.calls > c.limit {
        if c.limit > 0 {
            let (limit, n, op) = (c.limit, c.n, c.op.op);
            c.limit = 0;
            violate(Class::Endless, client_index(tag), format!("{op:?} on {n} elements made more than {limit} callbacks"));
        }
        abort();
    }
    c.inside += 1;
    c.calls
}
pub fn client_index(tag: u32) -> usize {
    if tag >= REF_TAG {
        (tag - REF_TAG) as usize
    } else {
        (tag - 1) as usize
    }
}

/// Checks that `e` is an element the operation may see; index within the client.
fn check<T: Elem>(tag: u32, e: &T) -> u32 {
    if T::ZST {
        return 0;
    }
    let r = run();
    let c = client_index(tag);
    if !e.valid() {
        violate(Class::Foreign, c, "callback was given a reference to something that is not an element".to_string());
        abort();
    }
    let id = e.id();
    let ok = if tag >= REF_TAG {
        let cl = &r.refs[c];
        id >= cl.base && id < cl.base + cl.n as u32
    } else {
        id < r.total && r.owner[id as usize] as usize == c && r.drops[id as usize] == 0
    };
    if !ok {
        let who = r.owner.get(id as usize).copied();
        violate(Class::Foreign, c, format!("callback of client {c} was given element {id} which belongs to {who:?}"));
        abort();
    }
    id
}

fn touch(tag: u32, id: u32) {
    let r = run();
    if tag < REF_TAG {
        r.touches[id as usize] = r.touches[id as usize].wrapping_add(1);
    }
}

/// Holds `e` exclusively.
struct Held<'a, T: Elem>(&'a T);
impl<'a, T: Elem> Held<'a, T> {
    fn new(tag: u32, e: &'a T, id: u32) -> Self {
        let who = sim::current().map_or(1, |t| t as u8 + 1);
        let prev = e.hold(who);
        if prev == HANDED && !T::ZST {
            violate(Class::Exclusive, client_index(tag), format!("element {id} given to a callback although a reference to it had been given to the collection"));
        } else if prev != 0 && !T::ZST {
            violate(Class::Exclusive, client_index(tag), format!("element {id} given to a callback on thread {} while a callback on thread {} holds it", who - 1, prev - 1));
        }
        Held(e)
    }
}
impl<T: Elem> Drop for Held<'_, T> {
    fn drop(&mut self) {
        self.0.release();
    }
}

/// Common part of all callbacks on one or two elements. Returns their ids.
fn visit<T: Elem>(tag: u32, a: &T, b: Option<&T>) -> (u32, u32, u64) {
    let k = enter(tag);
    struct Leave(u32);
    impl Drop for Leave {
        fn drop(&mut self) {
            if let Some(c) = client_of_tag(self.0) {
                c.inside -= 1;
            }
        }
    }
    let _leave = Leave(tag);
    let ia = check(tag, a);
    let b = b.filter(|b| !std::ptr::eq(a, *b) || T::ZST);
    let ib = b.map_or(ia, |b| check(tag, b));
    {
        let r = run();
        let who = sim::current().unwrap_or(15) as u64;
        mix(&mut r.event_hash, (ia as u64) << 36 | (ib as u64) << 8 | who);
        if let Some(c) = client_of_tag(tag) {
            if !T::ZST {
                let (pa, pb) = (c.pos0[(ia - c.base) as usize], c.pos0[(ib - c.base) as usize]);
                mix(&mut c.qhash, (pa as u64) << 32 | pb as u64);
                c.qset = c.qset.wrapping_add(hash2(pa as u64, pb as u64));
            }
        }
    }
    if !T::ZST {
        let _ha = Held::new(tag, a, ia);
        let _hb = b.map(|b| Held::new(tag, b, ib));
        let ca = a.cnt();
        let cb = b.map_or(0, |b| b.cnt());
        if tag < REF_TAG {
            if run().in_world {
                for _ in 0..run().yields {
                    sim::yield_point();
                }
            }
            nest(tag, k);
        }
        let still = |e: &T, id: u32, cnt: u32| {
            if !e.valid() || e.id() != id || e.cnt() != cnt {
                violate(Class::Changed, client_index(tag), format!("element {id} changed while a callback was holding it"));
            }
        };
        still(a, ia, ca);
        a.set_cnt(ca.wrapping_add(1));
        touch(tag, ia);
        if let Some(b) = b {
            still(b, ib, cb);
            b.set_cnt(cb.wrapping_add(1));
            touch(tag, ib);
        }
    }
    drop(_leave);
    faults(tag, k);
    (ia, ib, k)
}

/// The callback uses the pool or the crate itself.
fn nest(tag: u32, k: u64) {
    let Some(c) = client_of_tag(tag) else { return };
    if let Some((every, seed)) = c.op.nest {
        if hash2(seed, k) % every == 0 {
            if run().in_world {
                run().stats.nested += 1;
                rayon_core::join(sim::yield_point, sim::yield_point);
            }
        }
    }
    let Some(c) = client_of_tag(tag) else { return };
    if let Some((every, seed)) = c.op.again {
        if hash2(seed, k) % every == 0 {
            crate::nested::again(tag, hash2(seed ^ 77, k));
        }
    }
}

fn faults(tag: u32, k: u64) {
    if tag >= REF_TAG {
        return;
    }
    let c = client_of_tag(tag).unwrap();
    if let Some(o) = c.op.outage {
        if k == o {
            alloc::fail(tag, 1, u64::MAX);
            run().stats.outages += 1;
        }
    }
    let c = client_of_tag(tag).unwrap();
    if c.op.panic_at.contains(&k) {
        c.thrown.push(k);
        let (client, op) = (client_index(tag), c.op_idx);
        run().stats.panics += 1;
        resume_unwind(Box::new(Injected { client, op, at: k }));
    }
}

/// Rank of an element's key under the order of the operation.
fn rank(c: &Client, id: u32) -> u32 {
    let key = run().keys[(id) as usize];
    if c.op.desc {
        u32::MAX - key
    } else {
        key
    }
}
/// Key index into `Run::keys` is by id for real elements; reference elements keep the client's ids.
fn truth(c: &Client, ia: u32, ib: u32) -> Ordering {
    rank(c, ia).cmp(&rank(c, ib))
}

fn lie(c: &Client, ia: u32, ib: u32, k: u64, kind: u8, seed: u64) -> Ordering {
    use Ordering::*;
    let of = |x: u64| match x % 3 {
        0 => Less,
        1 => Greater,
        _ => Equal,
    };
    let pa = ia - c.base;
    let pb = ib - c.base;
    match kind {
        0 => of(hash2(seed, k) >> 7),
        1 => Less,
        2 => Greater,
        3 => Equal,
        4 => truth(c, ia, ib).reverse(),
        5 => match (pa % 3 + 3 - pb % 3) % 3 {
            0 => Equal,
            1 => Greater,
            _ => Less,
        },
        6 => of(hash2(seed ^ pa as u64, pb as u64) >> 9),
        7 => {
            if hash2(seed, k) % 20 == 0 {
                truth(c, ia, ib).reverse()
            } else {
                truth(c, ia, ib)
            }
        }
        8 => (hash2(pa as u64, seed ^ (k / 64))).cmp(&hash2(pb as u64, seed ^ (k / 64))),
        9 => {
            if k % 2 == 0 {
                Less
            } else {
                Greater
            }
        }
        10 => {
            // Everything looks less than (or not less than) everything for long stretches.
            if (k / (3 + seed % 97)) % 2 == 0 {
                Less
            } else {
                Greater
            }
        }
        _ => {
            // Reflexivity and symmetry broken, transitive otherwise.
            if truth(c, ia, ib) == Equal {
                Less
            } else {
                truth(c, ia, ib)
            }
        }
    }
}
pub const LIES: u8 = 12;

fn adversary(c: &mut Client, ia: u32, ib: u32) -> Ordering {
    const GAS: u32 = u32::MAX;
    let (pa, pb) = ((ia - c.base) as usize, (ib - c.base) as usize);
    if c.adv_val[pa] == GAS && c.adv_val[pb] == GAS {
        if pa == pb || c.adv_solid >= c.adv_tie {
            return Ordering::Equal;
        }
        let f = if c.adv_cand == pa as u32 { pa } else { pb };
        c.adv_val[f] = c.adv_solid;
        c.adv_solid += 1;
        c.gas_seen = true;
    }
    if c.adv_val[pa] == GAS {
        c.adv_cand = pa as u32;
    } else if c.adv_val[pb] == GAS {
        c.adv_cand = pb as u32;
    }
    c.adv_val[pa].cmp(&c.adv_val[pb])
}

fn answer(tag: u32, ia: u32, ib: u32, k: u64) -> Ordering {
    let c = client_of_tag(tag).unwrap();
    if run().zst {
        return match hash2(k, 5) % 3 {
            0 => Ordering::Less,
            1 => Ordering::Greater,
            _ => Ordering::Equal,
        };
    }
    if c.op.adv.is_some() {
        run().stats.adversary += 1;
        let flip = c.op.adv.unwrap().0;
        let a = adversary(c, ia, ib);
        return if flip { a.reverse() } else { a };
    }
    if let Some((from, kind, seed)) = c.op.lie {
        if k >= from {
            run().stats.lies += 1;
            return lie(c, ia, ib, k, kind, seed);
        }
    }
    truth(c, ia, ib)
}

/// Comparator.
pub fn cb_cmp<T: Elem>(_who: usize, a: &T, b: &T) -> Ordering {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let (ia, ib, k) = visit(tag, a, Some(b));
    answer(tag, ia, ib, k)
}
/// Comparator of `is_sorted_by`.
pub fn cb_le<T: Elem>(a: &T, b: &T) -> bool {
    cb_cmp(ANY, a, b) != Ordering::Greater
}
/// Equality, as for `contains` and `partition_dedup`.
pub fn cb_eq<T: Elem>(_who: usize, a: &T, b: &T) -> bool {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let (ia, ib, k) = visit(tag, a, Some(b));
    answer(tag, ia, ib, k) == Ordering::Equal
}
/// Asymmetric bucket relation of `partition_dedup_by`: `a` follows `b` by at most one.
pub fn cb_bucket<T: Elem>(a: &mut T, b: &mut T) -> bool {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    // What the callback does to its elements must last, whether it crashes or not.
    let next = client_of_tag(tag).map_or((0, None), |c| (c.calls + 1, c.op.mutate));
    let swap = next.1.is_some_and(|(every, seed)| hash2(seed, next.0) % every == 0);
    if swap && a.valid() && b.valid() {
        run().stats.exchanged += 1;
        std::mem::swap(a, b);
    }
    let (ia, ib, k) = visit(tag, &*a, Some(&*b));
    let c = client_of_tag(tag).unwrap();
    if run().zst || c.op.lie.is_some_and(|l| k >= l.0) {
        return answer(tag, ia, ib, k) == Ordering::Equal;
    }
    bucket(run().keys[ia as usize], run().keys[ib as usize])
}
pub fn bucket(a: u32, b: u32) -> bool {
    a >= b && a - b <= 1
}
/// Predicate of `partition_point`: true for keys below the needle.
pub fn cb_pred<T: Elem>(a: &T) -> bool {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let (ia, _, k) = visit(tag, a, None);
    let c = client_of_tag(tag).unwrap();
    if let Some((from, _, seed)) = c.op.lie {
        if k >= from {
            run().stats.lies += 1;
            return hash2(seed, k) & 1 == 0;
        }
    }
    run().keys[ia as usize] < c.op.needle
}
/// Probe of `binary_search_by`.
pub fn cb_probe<T: Elem>(a: &T) -> Ordering {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let (ia, _, k) = visit(tag, a, None);
    let c = client_of_tag(tag).unwrap();
    if let Some((from, kind, seed)) = c.op.lie {
        if k >= from {
            run().stats.lies += 1;
            return lie(c, ia, ia, k, kind, seed);
        }
    }
    run().keys[ia as usize].cmp(&c.op.needle)
}
/// Key function.
pub fn cb_key<T: Elem>(a: &T) -> u32 {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let (ia, _, k) = visit(tag, a, None);
    let c = client_of_tag(tag).unwrap();
    if run().zst {
        return hash2(k, 3) as u32 % 7;
    }
    if let Some((from, kind, seed)) = c.op.lie {
        if k >= from {
            run().stats.lies += 1;
            return match kind % 4 {
                0 => (hash2(seed, k) % 5) as u32,
                1 => k as u32,
                2 => u32::MAX - k as u32,
                _ => hash2(seed ^ (k / 50), ia as u64) as u32,
            };
        }
    }
    run().keys[ia as usize]
}
/// Key function giving counted keys.
pub fn cb_object<K: Key, T: Elem>(a: &T) -> K {
    let v = cb_key(a);
    object(v)
}
/// A counted key of the operation in progress.
pub fn object<K: Key>(v: u32) -> K {
    let tag = sim::tag();
    key_made_tag(tag);
    K::make(v, 0)
}
/// Key function of cached-key sorts.
pub fn cb_cached<K: Key, T: Elem>(a: &T) -> K {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let (ia, _, k) = visit(tag, a, None);
    let c = client_of_tag(tag).unwrap();
    c.total_keys += 1;
    c.key_span = c.key_span.max(sim::span());
    if run().zst {
        return K::make(0, 0);
    }
    let p = (ia - c.base) as usize;
    let v = match c.op.lie {
        // The key depends on when it is computed: only the first answer counts.
        Some((from, kind, seed)) if k >= from => {
            run().stats.lies += 1;
            if kind % 2 == 0 {
                hash2(seed, k) as u32 % (1 + c.n as u32)
            } else {
                (k as u32).wrapping_mul(seed as u32 | 1)
            }
        }
        _ => run().keys[ia as usize],
    };
    c.key_calls[p] = c.key_calls[p].saturating_add(1);
    let key = K::make(v, 0);
    if c.key_calls[p] == 1 {
        c.key_val[p] = key.val();
    }
    drop(_t);
    key_made_tag(tag);
    key
}
pub fn key_made() {}
fn key_made_tag(tag: u32) {
    if let Some(c) = client_of_tag(tag) {
        c.keys_made += 1;
    }
}
pub fn key_dropped() {
    if !installed() {
        return;
    }
    if let Some(c) = client_of_tag(sim::tag()) {
        c.keys_dropped += 1;
    }
}
/// Comparison of cached keys.
pub fn cb_key_cmp(a: u32, b: u32) -> Ordering {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    let k = enter(tag);
    client_of_tag(tag).unwrap().inside -= 1;
    mix(&mut run().event_hash, (a as u64) << 32 | b as u64);
    if run().in_world && tag < REF_TAG {
        sim::yield_point();
    }
    faults(tag, k);
    let c = client_of_tag(tag).unwrap();
    if let Some((from, kind, seed)) = c.op.key_lie {
        if k >= from {
            run().stats.lies += 1;
            return match (kind as u64 + hash2(seed, k)) % 3 {
                0 => Ordering::Less,
                1 => Ordering::Greater,
                _ => Ordering::Equal,
            };
        }
    }
    a.cmp(&b)
}

/// Holder of elements which belong to the collection of a bulk selection.
pub const HANDED: u8 = 200;

/// The collection takes a reference to `x`: from now on, nobody else may use the element, and what is
/// stored in it must remain. Returns its identity.
pub fn handed<T: Elem>(x: &mut T) -> u32 {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    if T::ZST || tag == 0 {
        return 0;
    }
    let id = check(tag, x);
    if x.hold(HANDED) != 0 {
        violate(Class::Exclusive, client_index(tag), format!("element {id} given to the collection while a callback holds it, or twice"));
    }
    x.set_cnt(x.cnt().wrapping_add(1));
    touch(tag, id);
    id
}

/// Called by the collection passed to bulk selection for each item it is given.
pub fn on_extend(count: u64, at: Option<u64>) {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    if at == Some(count) && tag != 0 && tag < REF_TAG {
        let c = client_of_tag(tag).unwrap();
        c.thrown.push(u64::MAX);
        let (client, op) = (client_index(tag), c.op_idx);
        run().stats.ext_panics += 1;
        resume_unwind(Box::new(Injected { client, op, at: u64::MAX }));
    }
}

/// An element was dropped.
pub fn dropped(valid: bool, id: u32) {
    if !installed() {
        return;
    }
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    if tag >= REF_TAG {
        violate(Class::Drop, client_index(tag), "element dropped by a reference execution".into());
        return;
    }
    let r = run();
    if !r.teardown {
        violate(Class::Drop, if tag > 0 { tag as usize - 1 } else { 0 }, format!("element {id} was dropped during an operation"));
    }
    if r.zst {
        return;
    }
    if !valid || id as usize >= r.drops.len() {
        violate(Class::Drop, 0, format!("dropped something that is not an element ({id})"));
        return;
    }
    r.drops[id as usize] = r.drops[id as usize].saturating_add(1);
    if r.drops[id as usize] > 1 {
        violate(Class::Drop, 0, format!("element {id} was dropped twice"));
    }
}
