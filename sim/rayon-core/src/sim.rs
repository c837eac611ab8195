//! The simulated work-stealing pool.
//!
//! A `World` has `workers` virtual pool threads and a number of client (caller) threads. Each of
//! them is a real OS thread, but exactly one holds the token and runs; all others are parked. Only
//! at yield points does the token move, and who gets it is decided by a seeded scheduler (or by an
//! explicit list of recorded decisions when replaying). The work-stealing protocol is the one of
//! rayon-core: per-worker LIFO deques, FIFO stealing, a shared FIFO injector, waiting workers that
//! execute other jobs, and joins that wait for both sides even when one of them panicked.

use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::{mpsc, Arc, Mutex, OnceLock};
use std::thread::Thread;

// ---------------------------------------------------------------------------------------------
// Which operation the code running on this OS thread belongs to (0: none, or simulator code).

thread_local! {
    static TAG: Cell<u32> = const { Cell::new(0) };
    static ME: Cell<(usize, *const World)> = const { Cell::new((usize::MAX, std::ptr::null())) };
    static SPAN: Cell<u64> = const { Cell::new(0) };
}

/// Tag of the operation under test running on this OS thread; 0 inside simulator and harness code.
#[inline]
pub fn tag() -> u32 {
    TAG.try_with(|t| t.get()).unwrap_or(0)
}
/// Sets the tag and returns the previous one.
#[inline]
pub fn set_tag(tag: u32) -> u32 {
    TAG.try_with(|t| t.replace(tag)).unwrap_or(0)
}

/// Length of the longest chain of steps, each of which had to wait for the previous one, that leads to where the
/// code running on this OS thread is: fork/join tasks start with the length of the one that forked them, and joins go
/// on with the longest of those joined.
#[inline]
pub fn span() -> u64 {
    SPAN.get()
}
/// Sets the length and returns the previous one.
#[inline]
pub fn set_span(s: u64) -> u64 {
    SPAN.replace(s)
}
/// One more step.
#[inline]
pub fn step() {
    SPAN.set(SPAN.get() + 1)
}
/// After having waited for something that took `s` steps.
#[inline]
pub fn wait_span(s: u64) {
    SPAN.set(SPAN.get().max(s))
}

static POOLS: AtomicUsize = AtomicUsize::new(0);
/// Counts thread pools built by code under test.
pub fn pools_built() -> usize {
    POOLS.load(Relaxed)
}
pub(crate) fn pool_built() {
    if tag() != 0 {
        POOLS.fetch_add(1, Relaxed);
    }
}

/// Restores the tag on drop.
pub struct TagGuard(u32);
impl TagGuard {
    #[inline]
    pub fn new(tag: u32) -> Self {
        TagGuard(set_tag(tag))
    }
}
impl Drop for TagGuard {
    #[inline]
    fn drop(&mut self) {
        set_tag(self.0);
    }
}

// ---------------------------------------------------------------------------------------------
// Configuration and report

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Uniform choice among enabled threads at every decision.
    Uniform,
    /// Random priorities, the preempted thread drops to the lowest one (PCT-like).
    Priority,
    /// Next enabled thread in cyclic order.
    RoundRobin,
    /// No preemption at callbacks; on blocking pick uniformly.
    RunToBlock,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub workers: usize,
    pub kind: Kind,
    pub seed: u64,
    /// Mean number of yield points between two preemption decisions (0: never preempt).
    pub gap: u32,
    /// Percentage of job pushes at which a decision is forced.
    pub eager: u8,
    /// Percentage of find-work attempts denied to an otherwise idle or waiting worker.
    pub lazy: u8,
    /// (thread, from tick, to tick): the thread is not chosen unless nothing else can run.
    pub stalls: Vec<(u32, u64, u64)>,
    /// (worker, from tick): from then on, once it has finished what it is doing, the worker is occupied by unrelated
    /// work that does not end before all callers have.
    pub occupied: Vec<(u32, u64)>,
    /// Replay: take these decisions instead of drawing any.
    pub explicit: Option<Vec<(u64, u32)>>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub jobs: u64,
    pub steals: u64,
    pub injected: u64,
    pub nested: u64,
    pub stall_hits: u64,
    pub denials: u64,
    pub trace_hash: u64,
    pub deviations: Vec<(u64, u32)>,
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub(crate) struct JobRef {
    pub data: *const (),
    pub exec: unsafe fn(*const ()),
    pub tag: u32,
}
unsafe impl Send for JobRef {}
impl PartialEq for JobRef {
    fn eq(&self, other: &Self) -> bool {
        self.data == other.data
    }
}

#[derive(Clone, Copy, PartialEq)]
enum State {
    Ready,
    Idle,
    /// Worker waiting for a latch; executes other jobs meanwhile.
    Wait(*const AtomicBool),
    /// Client blocked on a latch.
    Block(*const AtomicBool),
    Finished,
}

struct Baton {
    go: AtomicU32,
    thread: OnceLock<Thread>,
}

impl Baton {
    fn new() -> Self {
        Baton { go: AtomicU32::new(0), thread: OnceLock::new() }
    }
    fn bind(&self) {
        let _ = self.thread.set(std::thread::current());
        self.go.store(2, Release);
    }
    fn wait_bound(&self) {
        while self.go.load(Acquire) != 2 {
            std::thread::yield_now();
        }
    }
    fn give(&self) {
        self.go.store(1, Release);
        self.thread.get().unwrap().unpark();
    }
    fn take(&self) {
        let mut spins = 0;
        while self.go.compare_exchange(1, 2, Acquire, Relaxed).is_err() {
            if spins < 60 {
                spins += 1;
                std::hint::spin_loop();
            } else {
                std::thread::park();
            }
        }
    }
}

struct Inner {
    state: Vec<State>,
    depth: Vec<u32>,
    deques: Vec<VecDeque<JobRef>>,
    broadcasts: Vec<VecDeque<JobRef>>,
    injector: VecDeque<JobRef>,
    prio: Vec<u64>,
    low: u64,
    current: usize,
    seq: u64,
    gap: u64,
    rng: u64,
    next_explicit: usize,
    shutdown: bool,
    report: Report,
    scratch: Vec<usize>,
}

pub struct World {
    cfg: Config,
    clients: usize,
    batons: Vec<Baton>,
    main: Baton,
    inner: UnsafeCell<Inner>,
    exited: AtomicUsize,
}
unsafe impl Sync for World {}
unsafe impl Send for World {}

fn next_u64(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[inline]
fn mix(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
}

static ON_DEADLOCK: Mutex<Option<fn(&str) -> !>> = Mutex::new(None);
/// Called (with a description) when no thread can run although a client has not finished.
pub fn set_deadlock_hook(f: fn(&str) -> !) {
    *ON_DEADLOCK.lock().unwrap() = Some(f);
}

impl World {
    #[allow(clippy::mut_from_ref)]
    unsafe fn inner(&self) -> &mut Inner {
        &mut *self.inner.get()
    }
    pub(crate) fn workers(&self) -> usize {
        self.cfg.workers
    }

    fn work_for(&self, s: &Inner, me: usize) -> bool {
        !s.broadcasts[me].is_empty() || !s.injector.is_empty() || s.deques.iter().any(|d| !d.is_empty())
    }
    fn enabled(&self, s: &Inner, t: usize) -> bool {
        match s.state[t] {
            State::Ready => true,
            State::Idle => s.shutdown || (!self.occupied(s, t) && self.work_for(s, t)),
            State::Wait(l) => unsafe { (*l).load(Relaxed) || self.work_for(s, t) },
            State::Block(l) => unsafe { (*l).load(Relaxed) },
            State::Finished => false,
        }
    }
    fn occupied(&self, s: &Inner, t: usize) -> bool {
        self.cfg.occupied.iter().any(|&(w, a)| w as usize == t && s.seq >= a)
    }
    fn stalled(&self, s: &Inner, t: usize) -> bool {
        self.cfg.stalls.iter().any(|&(w, a, b)| w as usize == t && s.seq >= a && s.seq < b)
    }

    /// Draws (or replays) one decision among `n` options given as ids in `opts`; `default` is the id
    /// taken without a recorded deviation.
    fn decide(&self, s: &mut Inner, default: usize, pick: impl FnOnce(&mut Inner) -> usize, valid: impl FnOnce(&Inner, usize) -> bool) -> usize {
        let seq = s.seq;
        let choice = if let Some(list) = &self.cfg.explicit {
            let mut c = default;
            while s.next_explicit < list.len() && list[s.next_explicit].0 < seq {
                s.next_explicit += 1;
            }
            if s.next_explicit < list.len() && list[s.next_explicit].0 == seq {
                let want = list[s.next_explicit].1 as usize;
                if valid(s, want) {
                    c = want;
                }
            }
            c
        } else {
            pick(s)
        };
        if choice != default {
            s.report.deviations.push((seq, choice as u32));
        }
        choice
    }

    fn draw_gap(&self, s: &mut Inner) -> u64 {
        if self.cfg.gap == 0 || self.cfg.explicit.is_some() {
            return u64::MAX;
        }
        let m = self.cfg.gap as u64;
        next_u64(&mut s.rng) % (2 * m)
    }

    fn pick_thread(&self, s: &mut Inner, me: usize, me_enabled: bool) -> usize {
        let mut opts = std::mem::take(&mut s.scratch);
        opts.clear();
        for t in 0..s.state.len() {
            if self.enabled(s, t) {
                opts.push(t);
            }
        }
        if opts.len() > 1 && !self.cfg.stalls.is_empty() {
            let before = opts.len();
            if opts.iter().any(|&t| !self.stalled(s, t)) {
                let s2: &Inner = s;
                opts.retain(|&t| !self.stalled(s2, t));
            }
            if opts.len() < before {
                s.report.stall_hits += 1;
            }
        }
        if opts.len() > 1 && self.cfg.lazy > 0 {
            // Deny work to threads that would only look for jobs to steal.
            let mut kept: Vec<usize> = Vec::new();
            for &t in &opts {
                let looking = match s.state[t] {
                    State::Idle => true,
                    State::Wait(l) => unsafe { !(*l).load(Relaxed) && s.deques[t].is_empty() },
                    _ => false,
                };
                if !looking || (next_u64(&mut s.rng) % 100) as u8 >= self.cfg.lazy {
                    kept.push(t);
                } else {
                    s.report.denials += 1;
                }
            }
            if !kept.is_empty() {
                opts = kept;
            }
        }
        let n = opts.len();
        let c = match self.cfg.kind {
            Kind::Uniform | Kind::RunToBlock => opts[(next_u64(&mut s.rng) % n as u64) as usize],
            Kind::RoundRobin => *opts.iter().find(|&&t| t > me).unwrap_or(&opts[0]),
            Kind::Priority => {
                if me_enabled {
                    s.low -= 1;
                    s.prio[me] = s.low;
                }
                *opts.iter().max_by_key(|&&t| s.prio[t]).unwrap()
            }
        };
        s.scratch = opts;
        c
    }

    /// Gives the token away according to `s.state[me]`; returns when `me` holds it again.
    fn reschedule(&self, me: usize) {
        let s = unsafe { self.inner() };
        let default = if self.enabled(s, me) {
            Some(me)
        } else {
            (0..s.state.len()).find(|&t| self.enabled(s, t))
        };
        let Some(default) = default else {
            return self.no_one(me);
        };
        let me_enabled = default == me;
        let next = self.decide(s, default, |s| self.pick_thread(s, me, me_enabled), |s, t| t < s.state.len() && self.enabled(s, t));
        if next != me {
            s.report.switches += 1;
            if me_enabled {
                s.report.preemptions += 1;
            }
            let seq = s.seq;
            mix(&mut s.report.trace_hash, seq << 8 | (me as u64) << 4 | next as u64);
            s.current = next;
            s.gap = self.draw_gap(s);
            self.batons[next].give();
            if s.state[me] != State::Finished {
                self.batons[me].take();
            }
        }
    }

    /// Nobody can run.
    fn no_one(&self, me: usize) {
        let s = unsafe { self.inner() };
        let w = self.cfg.workers;
        if s.state.iter().enumerate().all(|(t, st)| if t < w { *st == State::Idle } else { *st == State::Finished }) {
            let finished = s.state[me] == State::Finished;
            self.main.give();
            if !finished {
                self.batons[me].take();
            }
            return;
        }
        let mut what = String::new();
        for (t, st) in s.state.iter().enumerate() {
            let n = match st {
                State::Ready => "ready",
                State::Idle => "idle",
                State::Wait(_) => "waiting for a join",
                State::Block(_) => "blocked on its call",
                State::Finished => "finished",
            };
            what.push_str(&format!("{}{t}: {n}; ", if t < self.cfg.workers { "worker " } else { "client " }));
        }
        let hook = *ON_DEADLOCK.lock().unwrap();
        match hook {
            Some(f) => f(&what),
            None => {
                eprintln!("deadlock: {what}");
                std::process::exit(2);
            }
        }
    }

    fn yield_at(&self, me: usize, force: bool) {
        let s = unsafe { self.inner() };
        debug_assert_eq!(s.current, me);
        s.seq += 1;
        if self.cfg.explicit.is_none() {
            if !force {
                if self.cfg.kind == Kind::RunToBlock {
                    return;
                }
                if s.gap > 0 {
                    s.gap -= 1;
                    return;
                }
            }
            s.gap = self.draw_gap(s);
        } else {
            // Replaying: only stop where a deviation was recorded.
            let list = self.cfg.explicit.as_ref().unwrap();
            while s.next_explicit < list.len() && list[s.next_explicit].0 < s.seq {
                s.next_explicit += 1;
            }
            if s.next_explicit >= list.len() || list[s.next_explicit].0 != s.seq {
                return;
            }
        }
        let _t = TagGuard::new(0);
        self.reschedule(me);
    }

    // -- jobs ----------------------------------------------------------------------------------

    pub(crate) fn push(&self, me: usize, job: JobRef) {
        let _t = TagGuard::new(0);
        let s = unsafe { self.inner() };
        s.deques[me].push_back(job);
        s.report.jobs += 1;
        let force = self.cfg.explicit.is_none() && self.cfg.eager > 0 && (next_u64(&mut s.rng) % 100) < self.cfg.eager as u64;
        self.yield_at(me, force);
    }
    pub(crate) fn inject(&self, me: Option<usize>, job: JobRef) {
        let _t = TagGuard::new(0);
        let s = unsafe { self.inner() };
        s.injector.push_back(job);
        s.report.injected += 1;
        if let Some(me) = me {
            self.yield_at(me, false);
        }
    }
    pub(crate) fn push_broadcast(&self, worker: usize, job: JobRef) {
        let _t = TagGuard::new(0);
        unsafe { self.inner() }.broadcasts[worker].push_back(job);
    }
    pub(crate) fn has_local(&self, me: usize) -> bool {
        !unsafe { self.inner() }.deques[me].is_empty()
    }
    pub(crate) fn pop_local(&self, me: usize) -> Option<JobRef> {
        let s = unsafe { self.inner() };
        s.deques[me].pop_back().or_else(|| s.broadcasts[me].pop_front())
    }
    pub(crate) fn find_work(&self, me: usize) -> Option<JobRef> {
        if let Some(j) = self.pop_local(me) {
            return Some(j);
        }
        let _t = TagGuard::new(0);
        let s = unsafe { self.inner() };
        let n = s.deques.len();
        let Some(default) = (0..n).find(|&w| !s.deques[w].is_empty()) else {
            return s.injector.pop_front();
        };
        s.seq += 1;
        let victim = self.decide(
            s,
            default,
            |s| {
                let c = (0..n).filter(|&w| !s.deques[w].is_empty()).count() as u64;
                let k = (next_u64(&mut s.rng) % c) as usize;
                (0..n).filter(|&w| !s.deques[w].is_empty()).nth(k).unwrap()
            },
            |s, w| w < n && !s.deques[w].is_empty(),
        );
        s.report.steals += 1;
        let seq = s.seq;
        mix(&mut s.report.trace_hash, 0xF000_0000_0000 | seq << 8 | (me as u64) << 4 | victim as u64);
        s.deques[victim].pop_front()
    }
    pub(crate) unsafe fn execute(&self, me: usize, job: JobRef) {
        {
            let s = self.inner();
            s.depth[me] += 1;
            if s.depth[me] > 1 {
                s.report.nested += 1;
            }
        }
        let _t = TagGuard::new(job.tag);
        (job.exec)(job.data);
        self.inner().depth[me] -= 1;
    }
    pub(crate) fn yield_now(&self, me: usize) {
        self.yield_at(me, false);
    }
    /// Worker `me` waits for `latch`, executing other jobs meanwhile.
    pub(crate) fn wait_until(&self, me: usize, latch: &AtomicBool) {
        while !latch.load(Acquire) {
            if let Some(job) = self.find_work(me) {
                unsafe { self.execute(me, job) };
                continue;
            }
            let _t = TagGuard::new(0);
            let s = unsafe { self.inner() };
            s.seq += 1;
            s.state[me] = State::Wait(latch);
            self.reschedule(me);
            unsafe { self.inner() }.state[me] = State::Ready;
        }
    }
    /// Client `me` blocks on `latch`.
    pub(crate) fn block_on(&self, me: usize, latch: &AtomicBool) {
        while !latch.load(Acquire) {
            let _t = TagGuard::new(0);
            let s = unsafe { self.inner() };
            s.seq += 1;
            s.state[me] = State::Block(latch);
            self.reschedule(me);
            unsafe { self.inner() }.state[me] = State::Ready;
        }
    }

    fn worker_main(&self, me: usize) {
        let baton = &self.batons[me];
        baton.bind();
        ME.set((me, self));
        baton.take();
        loop {
            if unsafe { self.inner() }.shutdown {
                break;
            }
            let busy = self.occupied(unsafe { self.inner() }, me);
            if let Some(job) = if busy { None } else { self.find_work(me) } {
                unsafe {
                    self.inner().state[me] = State::Ready;
                    self.execute(me, job);
                }
                self.yield_at(me, false);
                continue;
            }
            let s = unsafe { self.inner() };
            s.seq += 1;
            s.state[me] = State::Idle;
            self.reschedule(me);
            unsafe { self.inner() }.state[me] = State::Ready;
        }
        ME.set((usize::MAX, std::ptr::null()));
        unsafe { self.inner() }.state[me] = State::Finished;
        self.exited.fetch_add(1, AcqRel);
        self.main.give();
    }

    fn client_main(&self, me: usize, f: Box<dyn FnOnce() + Send + '_>) {
        let baton = &self.batons[me];
        baton.bind();
        ME.set((me, self));
        baton.take();
        let _ = catch_unwind(AssertUnwindSafe(f));
        ME.set((usize::MAX, std::ptr::null()));
        let s = unsafe { self.inner() };
        s.seq += 1;
        s.state[me] = State::Finished;
        let default = (0..s.state.len()).find(|&t| self.enabled(s, t));
        match default {
            None => self.no_one(me),
            Some(_) => self.reschedule(me),
        }
        self.exited.fetch_add(1, AcqRel);
    }
}

// ---------------------------------------------------------------------------------------------
// OS threads are cached between runs.

type Task = Box<dyn FnOnce() + Send>;
static THREADS: Mutex<Vec<mpsc::Sender<Task>>> = Mutex::new(Vec::new());

fn on_thread(i: usize, f: Task) {
    let mut t = THREADS.lock().unwrap();
    while t.len() <= i {
        let (tx, rx) = mpsc::channel::<Task>();
        std::thread::Builder::new()
            .name(format!("sim-{}", t.len()))
            .stack_size(64 << 20)
            .spawn(move || {
                for f in rx {
                    f();
                }
            })
            .expect("spawn simulator thread");
        t.push(tx);
    }
    t[i].send(f).expect("simulator thread alive");
}

static ACTIVE: AtomicBool = AtomicBool::new(false);

/// Runs `clients` to completion in a fresh world under `cfg`.
pub fn run<'a>(cfg: Config, clients: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Report {
    assert!(cfg.workers >= 1);
    assert!((0..cfg.workers).any(|t| cfg.occupied.iter().all(|o| o.0 as usize != t)), "all workers are occupied");
    assert!(!ACTIVE.swap(true, SeqCst), "one world at a time");
    let (w, c) = (cfg.workers, clients.len());
    let n = w + c;
    let mut rng = cfg.seed ^ 0x51D0_5EED;
    let prio = (0..n).map(|_| (1 << 40) + next_u64(&mut rng) % (1 << 40)).collect();
    let world = Arc::new(World {
        clients: c,
        batons: (0..n).map(|_| Baton::new()).collect(),
        main: Baton::new(),
        inner: UnsafeCell::new(Inner {
            state: (0..n).map(|t| if t < w { State::Idle } else { State::Ready }).collect(),
            depth: vec![0; n],
            deques: (0..w).map(|_| VecDeque::new()).collect(),
            broadcasts: (0..w).map(|_| VecDeque::new()).collect(),
            injector: VecDeque::new(),
            prio,
            low: 1 << 40,
            current: usize::MAX,
            seq: 0,
            gap: 0,
            rng,
            next_explicit: 0,
            shutdown: false,
            report: Report { trace_hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
            scratch: Vec::new(),
        }),
        exited: AtomicUsize::new(0),
        cfg,
    });
    world.main.bind();
    for t in 0..w {
        let world = world.clone();
        on_thread(t, Box::new(move || world.worker_main(t)));
    }
    for (i, f) in clients.into_iter().enumerate() {
        let world = world.clone();
        // SAFETY: this function returns only after every client has finished.
        let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
        on_thread(w + i, Box::new(move || world.client_main(w + i, f)));
    }
    for b in &world.batons {
        b.wait_bound();
    }
    {
        let s = unsafe { world.inner() };
        s.gap = world.draw_gap(s);
        if c > 0 {
            let default = w;
            let next = world.decide(s, default, |s| world.pick_thread(s, w, true), |s, t| t < s.state.len() && world.enabled(s, t));
            s.current = next;
            world.batons[next].give();
            world.main.take();
        }
        s.shutdown = true;
        for t in 0..w {
            s.current = t;
            world.batons[t].give();
            world.main.take();
        }
    }
    while world.exited.load(Acquire) < n {
        std::thread::yield_now();
    }
    let s = unsafe { world.inner() };
    s.report.ticks = s.seq;
    let r = std::mem::take(&mut s.report);
    ACTIVE.store(false, SeqCst);
    let _ = world.clients;
    r
}

#[inline]
pub(crate) fn me() -> Option<(usize, &'static World)> {
    let (i, w) = ME.try_with(|m| m.get()).ok()?;
    if w.is_null() {
        None
    } else {
        Some((i, unsafe { &*w }))
    }
}
pub(crate) fn me_worker() -> Option<(usize, &'static World)> {
    me().filter(|(i, w)| *i < w.cfg.workers)
}

/// A point where the simulator may move the token to another thread.
#[inline]
pub fn yield_point() {
    if let Some((i, w)) = me() {
        w.yield_at(i, false);
    }
}
/// Id of the simulated thread (workers first, then clients), if any.
pub fn current() -> Option<usize> {
    me().map(|(i, _)| i)
}
/// Number of workers of the pool in effect.
pub fn workers() -> usize {
    me().map_or(0, |(_, w)| w.workers())
}
/// Simulated time.
pub fn now() -> u64 {
    me().map_or(0, |(_, w)| unsafe { w.inner() }.seq)
}

pub(crate) fn halt<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

/// While alive, this OS thread is outside of any world: joins run inline.
pub struct Detached((usize, *const World));
impl Detached {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Detached(ME.replace((usize::MAX, std::ptr::null())))
    }
}
impl Drop for Detached {
    fn drop(&mut self) {
        ME.set(self.0);
    }
}
