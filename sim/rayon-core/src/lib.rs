//! Stand-in for rayon-core whose thread pool is a deterministic simulator; see [`sim`].
//!
//! Without a running world every operation is executed inline on the calling thread.

pub mod sim;

use sim::{halt, me, me_worker, JobRef, TagGuard, World};
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::resume_unwind;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

// -- jobs ---------------------------------------------------------------------------------------

struct StackJob<F, R> {
    func: UnsafeCell<Option<F>>,
    result: UnsafeCell<Option<Result<R, Box<dyn Any + Send>>>>,
    latch: AtomicBool,
    /// Of the one who made it, and in the end the one of the job.
    span: Cell<u64>,
}

impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob { func: UnsafeCell::new(Some(f)), result: UnsafeCell::new(None), latch: AtomicBool::new(false), span: Cell::new(sim::span()) }
    }
    fn job_ref(&self) -> JobRef {
        unsafe fn exec<F: FnOnce(bool) -> R, R>(p: *const ()) {
            let this = &*(p as *const StackJob<F, R>);
            let f = (*this.func.get()).take().unwrap();
            let mine = sim::set_span(this.span.get());
            let r = halt(|| f(true));
            *this.result.get() = Some(r);
            this.span.set(sim::set_span(mine));
            this.latch.store(true, Release);
        }
        JobRef { data: self as *const _ as *const (), exec: exec::<F, R>, tag: sim::tag() }
    }
    fn run_inline(self, migrated: bool) -> R {
        let mine = sim::set_span(self.span.get());
        let r = (self.func.into_inner().unwrap())(migrated);
        sim::wait_span(mine);
        r
    }
    fn into_result(self) -> R {
        sim::wait_span(self.span.get());
        match self.result.into_inner().expect("job executed") {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        }
    }
}

fn in_worker<R: Send>(op: impl FnOnce(Option<(usize, &'static World)>, bool) -> R + Send) -> R {
    match me() {
        None => op(None, false),
        Some((i, w)) if i < w.workers() => op(Some((i, w)), false),
        Some((i, w)) => {
            let job = StackJob::new(|_| op(me_worker(), true));
            w.inject(Some(i), job.job_ref());
            w.block_on(i, &job.latch);
            job.into_result()
        }
    }
}

// -- join ---------------------------------------------------------------------------------------

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| oper_a(), move |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(move |worker, injected| {
        let Some((i, w)) = worker else {
            // No world: a, then b, with the panic semantics of rayon.
            let start = sim::span();
            let ra = halt(|| oper_a(FnContext::new(false)));
            let end = sim::set_span(start);
            let rb = halt(|| oper_b(FnContext::new(false)));
            sim::wait_span(end);
            return match (ra, rb) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(e), _) | (_, Err(e)) => resume_unwind(e),
            };
        };
        let job_b = StackJob::new(move |migrated| oper_b(FnContext::new(migrated)));
        let job_b_ref = job_b.job_ref();
        w.push(i, job_b_ref);
        let ra = match halt(move || oper_a(FnContext::new(injected))) {
            Ok(a) => a,
            Err(e) => {
                w.wait_until(i, &job_b.latch);
                resume_unwind(e)
            }
        };
        w.yield_now(i);
        while !job_b.latch.load(Acquire) {
            let Some(job) = w.pop_local(i) else {
                w.wait_until(i, &job_b.latch);
                break;
            };
            if job == job_b_ref {
                let rb = job_b.run_inline(injected);
                return (ra, rb);
            }
            unsafe { w.execute(i, job) };
        }
        (ra, job_b.into_result())
    })
}

// -- scope --------------------------------------------------------------------------------------

struct ScopeBase {
    world: Option<&'static World>,
    pending: AtomicUsize,
    done: AtomicBool,
    span: AtomicU64,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}

impl ScopeBase {
    fn new() -> Self {
        ScopeBase { world: me().map(|m| m.1), pending: AtomicUsize::new(1), done: AtomicBool::new(false), span: AtomicU64::new(0), panic: Mutex::new(None) }
    }
    fn finish_one(&self) {
        if self.pending.fetch_sub(1, AcqRel) == 1 {
            self.done.store(true, Release);
        }
    }
    fn store_panic(&self, e: Box<dyn Any + Send>) {
        let mut p = self.panic.lock().unwrap();
        if p.is_none() {
            *p = Some(e);
        }
    }
    fn spawn(&self, f: Box<dyn FnOnce() + Send + '_>, to: Option<usize>) {
        self.pending.fetch_add(1, AcqRel);
        let this = self as *const ScopeBase as usize;
        // SAFETY: the scope outlives its jobs.
        let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
        let start = sim::span();
        let run = move || {
            let this = unsafe { &*(this as *const ScopeBase) };
            let mine = sim::set_span(start);
            if let Err(e) = halt(f) {
                this.store_panic(e);
            }
            this.span.fetch_max(sim::set_span(mine), AcqRel);
            this.finish_one();
        };
        match self.world {
            None => run(),
            Some(w) => {
                let job = heap_job(Box::new(run));
                match me() {
                    _ if to.is_some() => w.push_broadcast(to.unwrap(), job),
                    Some((i, w2)) if std::ptr::eq(w, w2) && i < w.workers() => w.push(i, job),
                    m => w.inject(m.map(|m| m.0), job),
                }
            }
        }
    }
    fn complete<R>(&self, f: impl FnOnce() -> R) -> R {
        let r = halt(f);
        self.finish_one();
        if let (Some(w), Some((i, _))) = (self.world, me()) {
            if i < w.workers() {
                w.wait_until(i, &self.done);
            } else {
                w.block_on(i, &self.done);
            }
        }
        sim::wait_span(self.span.load(Acquire));
        match r {
            Err(e) => resume_unwind(e),
            Ok(r) => {
                if let Some(e) = self.panic.lock().unwrap().take() {
                    resume_unwind(e);
                }
                r
            }
        }
    }
}

fn heap_job(f: Box<dyn FnOnce() + Send>) -> JobRef {
    let tag = sim::tag();
    let _t = TagGuard::new(0);
    unsafe fn exec(p: *const ()) {
        let f = Box::from_raw(p as *mut Box<dyn FnOnce() + Send>);
        f();
    }
    JobRef { data: Box::into_raw(Box::new(f)) as *const (), exec, tag }
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident, $spawn_bc:ident) => {
        pub struct $name<'scope> {
            base: ScopeBase,
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $name<'scope> {
            fn new() -> Self {
                $name { base: ScopeBase::new(), marker: PhantomData }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let this = self as *const Self as usize;
                self.base.spawn(Box::new(move || body(unsafe { &*(this as *const Self) })), None);
            }
            pub fn $spawn_bc<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let this = self as *const Self as usize;
                let body = Arc::new(body);
                let n = current_num_threads();
                for index in 0..n {
                    let body = body.clone();
                    self.base.spawn(Box::new(move || {
                        body(unsafe { &*(this as *const Self) }, BroadcastContext { index, n, _marker: PhantomData })
                    }), Some(index));
                }
            }
        }
        impl fmt::Debug for $name<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)).finish()
            }
        }
    };
}
scope_type!(Scope, spawn, spawn_broadcast);
scope_type!(ScopeFifo, spawn_fifo, spawn_broadcast);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|_, _| {
        let s = Scope::new();
        s.base.complete(|| op(&s))
    })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|_, _| {
        let s = ScopeFifo::new();
        s.base.complete(|| op(&s))
    })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    s.base.complete(|| op(&s))
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo::new();
    s.base.complete(|| op(&s))
}

// -- spawn, broadcast ---------------------------------------------------------------------------

pub fn spawn<F: FnOnce() + Send + 'static>(func: F) {
    let run = move || {
        if halt(func).is_err() {
            eprintln!("Rayon: detected unexpected panic; aborting");
            std::process::abort();
        }
    };
    match me() {
        None => run(),
        Some((i, w)) => {
            let job = heap_job(Box::new(run));
            if i < w.workers() {
                w.push(i, job)
            } else {
                w.inject(Some(i), job)
            }
        }
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(func: F) {
    spawn(func)
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    match me() {
        None => (0..n).map(|index| op(BroadcastContext { index, n, _marker: PhantomData })).collect(),
        Some((i, w)) => {
            let op = &op;
            let jobs: Vec<_> = (0..n).map(|index| StackJob::new(move |_| op(BroadcastContext { index, n, _marker: PhantomData }))).collect();
            for (t, j) in jobs.iter().enumerate() {
                w.push_broadcast(t, j.job_ref());
            }
            for j in &jobs {
                if i < w.workers() {
                    w.wait_until(i, &j.latch);
                } else {
                    w.block_on(i, &j.latch);
                }
            }
            jobs.into_iter().map(|j| j.into_result()).collect()
        }
    }
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let op = Arc::new(op);
    let n = current_num_threads();
    for index in 0..n {
        let op = op.clone();
        let run = move || op(BroadcastContext { index, n, _marker: PhantomData });
        match me() {
            None => run(),
            Some((_, w)) => w.push_broadcast(index, heap_job(Box::new(run))),
        }
    }
}

// -- thread pool surface ------------------------------------------------------------------------

pub fn max_num_threads() -> usize {
    64
}
pub fn current_num_threads() -> usize {
    me().map_or(1, |(_, w)| w.workers())
}
pub fn current_thread_index() -> Option<usize> {
    me_worker().map(|m| m.0)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    me_worker().map(|(i, w)| w.has_local(i))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    me_worker().map(|(i, w)| match w.find_work(i) {
        Some(j) => {
            unsafe { w.execute(i, j) };
            Yield::Executed
        }
        None => {
            w.yield_now(i);
            Yield::Idle
        }
    })
}
pub fn yield_local() -> Option<Yield> {
    me_worker().map(|(i, w)| match w.pop_local(i) {
        Some(j) => {
            unsafe { w.execute(i, j) };
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

/// All pools share the simulated workers.
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_worker(|_, _| op())
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_fifo(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
}

pub struct ThreadPoolBuildError(());
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
impl Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadBuilder(());
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn run(self) {}
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn std::any::Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        sim::pool_built();
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        sim::pool_built();
        Ok(())
    }
}
