//! Executes one scenario and checks it.

use crate::alloc;
use crate::elem::*;
use crate::env::{self, *};
use crate::ops::*;
use crate::rng::{hash2, Rng};
use crate::scen::*;
use ndarray::{ArrayView1, Axis, ShapeBuilder};
use rayon_core::sim::{self, Detached, Report};
use std::mem::{ManuallyDrop, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Default)]
pub struct OpInfo {
    pub calls: u64,
    pub requests: u64,
    pub peak: i64,
    /// Longest chain of dependent callbacks.
    pub span: u64,
    pub done: bool,
    pub panicked: bool,
    pub crashed_in: bool,
}
#[derive(Default)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub report: Report,
    pub event_hash: u64,
    pub callbacks: u64,
    pub stats: Stats,
    pub ops: Vec<Vec<OpInfo>>,
    pub checks: u64,
    pub state_hash: u64,
}

/// Violation classes that decide a property.
pub fn classes(prop: &str) -> Vec<Class> {
    use Class::*;
    let mut v = vec![Perm, Foreign, Endless, Panic, Deadlock, Crash, Hang, Memory, Drop, Quiesce, Payload, Swallowed];
    v.extend_from_slice(match prop {
        "C01" => &[Order, Stable, Outside][..],
        "C02" => &[Order, Determinism, Outside],
        "C03" => &[Order, Value, Collection, Determinism, Outside],
        "C04" => &[Outside, Leak, Collection, KeyDrop],
        "C05" => &[Outside, Leak, KeyDrop],
        "C06" => &[Outside, Leak, Collection, Value, Lost, KeyDrop, Exclusive],
        "C07" => &[Order, Stable, Value, Collection, Determinism, Outside, Leak, KeyDrop],
        "C08" => &[Order, Stable, Value, Collection, Determinism, Outside],
        "C09" => &[Outside, Collection, Value, KeyDrop],
        "C10" => &[Order, Stable, Value, Collection, Bound],
        "C11" => &[Order, Stable, Outside, Leak, Scratch],
        "C12" => &[Order, Value, Collection, Allocates],
        "C13" => &[Stable, Atomic, KeyCalls, KeyDrop, Outside],
        "C14" => &[Exclusive, Changed, Lost],
        "C15" => &[Accepted, Collection, Outside],
        "C16" => &[Determinism],
        "C20" => &[Order, Stable, Value, Collection, Outside, Thread],
        "C21" => &[Order, Stable, Value, Collection, Span],
        "C22" => &[Work],
        "C23" => &[Order, Stable, Value, Collection, Outside, Allocates, Scratch, Leak],
        _ => &[Order, Stable, Value, Collection, Determinism, Outside, Leak, Scratch, Allocates, Atomic, KeyCalls, KeyDrop, Exclusive, Changed, Lost, Accepted, Bound, Thread],
    });
    v
}

fn set_knobs(k: &[usize; KNOBS]) {
    let _ = k;
    #[cfg(ndarray_slice_sim)]
    {
        use ndarray_slice::sim::*;
        let all = [&PAR_CHUNK_LENGTH, &PAR_MERGE_SEQUENTIAL, &PAR_SORT_SEQUENTIAL, &PAR_SELECT_SEQUENTIAL, &SORT_LIMIT, &SELECT_LIMIT, &RUN_CAPACITY];
        for (i, knob) in all.iter().enumerate() {
            let lo = match i {
                0 => 2,
                1 => 3,
                6 => 1,
                _ => 0,
            };
            knob.set(k[i].max(lo));
        }
    }
}

struct Ctx<'s, T> {
    sc: &'s Scenario,
    parent: *mut T,
    dummies: *mut T,
    pad: Vec<(usize, u32)>,
    needle: Vec<u32>,
    infos: Vec<*mut OpInfo>,
    checks: *mut u64,
}
unsafe impl<T> Send for Ctx<'_, T> {}
unsafe impl<T> Sync for Ctx<'_, T> {}

const DUMMIES: usize = 6;

fn new_client(n: usize, base: u32) -> Client {
    Client {
        base,
        n,
        active: false,
        inside: 0,
        calls: 0,
        limit: 0,
        op_idx: 0,
        op: OpSpec::default(),
        thrown: vec![],
        qhash: 0,
        pos0: vec![0; n + 1],
        qset: 0,
        home: (0, None),
        adv_val: vec![],
        adv_solid: 0,
        adv_tie: u32::MAX,
        adv_cand: 0,
        gas_seen: false,
        key_calls: vec![],
        key_val: vec![],
        total_keys: 0,
        key_span: 0,
        keys_made: 0,
        keys_dropped: 0,
        arg_order_bad: false,
    }
}

pub fn execute(sc: &Scenario) -> RunResult {
    match sc.elem {
        ElemKind::Tiny => unsafe { exec::<Tiny>(sc) },
        ElemKind::Small => unsafe { exec::<Small>(sc) },
        ElemKind::Mid => unsafe { exec::<Mid>(sc) },
        ElemKind::Big => unsafe { exec::<Big>(sc) },
        ElemKind::Zst => unsafe { exec::<Zst>(sc) },
    }
}

unsafe fn exec<T: Dispatch>(sc: &Scenario) -> RunResult {
    let nc = sc.clients.len();
    // Identities: elements of clients, a needle per client, padding, dummies.
    let mut owner_of_pos = vec![u8::MAX; sc.parent];
    let mut ids = vec![u32::MAX; sc.parent];
    let mut keys: Vec<u32> = vec![];
    let mut owner: Vec<u8> = vec![];
    let mut clients = vec![];
    let mut refs = vec![];
    let mut needle = vec![];
    for (c, cl) in sc.clients.iter().enumerate() {
        let base = keys.len() as u32;
        let kl = cl.key_list();
        for (i, &k) in kl.iter().enumerate() {
            let p = cl.pos(i);
            assert!(owner_of_pos[p] == u8::MAX, "views overlap");
            owner_of_pos[p] = c as u8;
            ids[p] = base + i as u32;
            let k = if sc.elem == ElemKind::Small { k & 0xFFFF } else { k };
            keys.push(k);
            owner.push(c as u8);
        }
        needle.push(keys.len() as u32);
        keys.push(0);
        owner.push(c as u8);
        clients.push(new_client(cl.n, base));
        refs.push(new_client(cl.n, base));
    }
    let mut pad = vec![];
    for (p, id) in ids.iter_mut().enumerate() {
        if *id == u32::MAX {
            *id = keys.len() as u32;
            pad.push((p, *id));
            keys.push((p % 7) as u32);
            owner.push(u8::MAX);
        }
    }
    let dummy0 = keys.len() as u32;
    for _ in 0..DUMMIES {
        keys.push(1);
        owner.push(u8::MAX);
    }
    if keys.len() == 0 {
        keys.push(0);
        owner.push(u8::MAX);
    }
    let total = keys.len() as u32;
    assert!(total <= T::IDS);
    let mut parent: Vec<MaybeUninit<T>> = ids.iter().map(|&id| MaybeUninit::new(T::make(id, keys[id as usize]))).collect();
    let mut dummies: Vec<ManuallyDrop<T>> = (0..DUMMIES as u32).map(|d| ManuallyDrop::new(T::make(dummy0 + d, 1))).collect();
    let mut run = Box::new(Run {
        prop: sc.prop.clone(),
        wanted: classes(&sc.prop),
        total,
        owner,
        touches: vec![0; total as usize],
        drops: vec![0; total as usize],
        keys,
        teardown: false,
        clients,
        refs,
        violations: vec![],
        event_hash: sc.seed,
        callbacks: 0,
        yields: sc.yields,
        in_world: sc.world,
        stats: Stats::default(),
        zst: T::ZST,
        alloc_checked: 0,
    });
    install(&mut *run);
    alloc::take_err();
    set_knobs(&sc.knobs);
    let mut infos: Vec<Vec<OpInfo>> = sc.clients.iter().map(|c| vec![OpInfo::default(); c.ops.len()]).collect();
    let mut checks = 0u64;
    let ctx = Ctx {
        sc,
        parent: parent.as_mut_ptr() as *mut T,
        dummies: dummies.as_mut_ptr() as *mut T,
        pad,
        needle,
        infos: infos.iter_mut().map(|v| v.as_mut_ptr()).collect(),
        checks: &mut checks,
    };
    let ctx = &ctx;
    let mut result = RunResult::default();
    let body = move |c: usize| {
        for i in 0..ctx.sc.clients[c].ops.len() {
            if !env::run().violations.is_empty() || !do_op::<T>(ctx, c, i) {
                break;
            }
        }
    };
    if sc.world {
        let fs = (0..nc).map(|c| Box::new(move || body(c)) as Box<dyn FnOnce() + Send>).collect();
        result.report = sim::run(sc.cfg.clone(), fs);
    } else {
        for c in 0..nc {
            body(c);
        }
    }
    if let Some(e) = alloc::take_err() {
        violate(Class::Memory, 0, e);
    }
    // Teardown: every element is dropped exactly once.
    let ok = env::run().violations.is_empty();
    let mut h = 0u64;
    if ok {
        if !T::ZST {
            for e in &parent {
                h = (h ^ e.assume_init_ref().id() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(21);
            }
        }
        env::run().teardown = true;
        for e in &mut parent {
            e.assume_init_drop();
        }
        for d in &mut dummies {
            ManuallyDrop::drop(d);
        }
        if std::mem::needs_drop::<T>() && !T::ZST {
            let needles: Vec<u32> = ctx.needle.clone();
            for (id, &d) in env::run().drops.iter().enumerate() {
                if d != 1 && !needles.contains(&(id as u32)) {
                    violate(Class::Drop, 0, format!("element {id} was dropped {d} times"));
                }
            }
        }
    }
    install(std::ptr::null_mut());
    ZST_LIVE.store(0, std::sync::atomic::Ordering::Relaxed);
    result.violations = std::mem::take(&mut run.violations);
    result.event_hash = run.event_hash;
    result.callbacks = run.callbacks;
    result.stats = std::mem::take(&mut run.stats);
    result.ops = infos;
    result.checks = checks;
    result.state_hash = h;
    result
}

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

/// Comparison budget of the promised worst case, see DESIGN.md for how the constants were set.
pub fn budget(op: Op, n: usize, m: usize) -> u64 {
    let (n64, lg) = (n as u64, log2(n));
    // Beyond this length the median of ninthers takes smaller samples.
    let c = if n > 128 * 1024 { 10 * SELECT_C } else { SELECT_C };
    if op.single() {
        c * n64 + 400
    } else if op.many() {
        c * n64 * log2(m) + 400 * (m as u64 + 1)
    } else if op.stable() {
        2 * n64 * lg + 200
    } else {
        SORT_C * n64 * lg + 400
    }
}
/// Bound of the length of the longest chain of dependent callbacks, if the scenario is one that tells: one operation on
/// many different elements in random order, without faults, and a fair schedule with enough free workers.
pub fn span_bound(sc: &Scenario, o: &OpSpec, n: usize) -> Option<(u64, &'static str)> {
    let free = sc.cfg.workers - sc.cfg.occupied.len().min(sc.cfg.workers);
    let fair = sc.world && sc.cfg.kind == sim::Kind::RoundRobin && sc.cfg.lazy == 0 && sc.cfg.eager == 100 && sc.cfg.stalls.is_empty() && sc.cfg.explicit.is_none();
    let random = matches!(sc.clients[0].keys, Keys::Gen { pattern: 0, distinct, .. } if distinct as usize >= n);
    if sc.prop != "C21" || sc.clients.len() != 1 || !fair || !random || free < 4 || o.faulty() || o.adv.is_some() || o.nest.is_some() || o.again.is_some() {
        return None;
    }
    // A few units suffice for everything that is small.
    span_of(sc, o, n, free)
}
fn span_of(sc: &Scenario, o: &OpSpec, n: usize, free: usize) -> Option<(u64, &'static str)> {
    let knob = |k: usize, real: usize| (if sc.knobs[k] == usize::MAX || !crate::HOOKED { real } else { sc.knobs[k] }) as u64;
    let per = 1 + o.op.by_key() as u64;
    let n64 = n as u64;
    if o.op.cached() {
        // Sorts its keys with rayon, whose thresholds are what they are.
        return (n >= 20_000).then_some((9 * n64, ""));
    }
    if o.op.is(PAR_STABLE) {
        let (chunk, seq) = (knob(0, 2000).max(20), knob(1, 5000));
        let chunks = n64.div_ceil(chunk);
        if chunks < 8 || n64 < 8 * seq.min(3000) {
            return None;
        }
        let rounds = chunks.div_ceil(free as u64) + 1;
        let sorting = rounds * chunk * log2(chunk as usize);
        let merging = log2(chunks as usize) * (seq + 5 * log2(n));
        return Some((per * (sorting * 5 / 4 + merging * 3 / 2), ""));
    }
    if o.op.is(PAR_UNSTABLE) {
        let seq = knob(2, 2000);
        return (n64 >= 12 * seq && n >= 3000).then_some((per * 8 * n64, ""));
    }
    if o.op.is(PAR_SELECT) {
        let (seq, m) = (knob(3, 2000), o.indices.len());
        return (n64 >= 12 * seq && n >= 3000 && m >= 128).then_some((per * 11 * n64, " and many indices"));
    }
    None
}
pub const SELECT_C: u64 = 150;
pub const SORT_C: u64 = 8;

/// Reads the view; None if an element was overwritten with something that is none.
unsafe fn read<T: Elem>(first: *const T, n: usize, stride: isize, out: &mut Vec<u32>) -> Option<usize> {
    out.clear();
    for i in 0..n {
        let e = &*first.offset(i as isize * stride);
        if !e.valid() {
            return Some(i);
        }
        out.push(e.id());
    }
    None
}

pub fn limit_of(o: &OpSpec, n: usize) -> u64 {
    let (n, lg) = (n as u64, log2(n));
    let mut l = 100 * n * lg + 10_000;
    if o.lie.is_some() || o.key_lie.is_some() {
        // Nothing is promised about the work under inconsistent answers but that it ends: quadratic
        // for each level of bulk selection.
        l = l.max((30 * n * n + 200 * n * lg) * (log2(o.indices.len()) + 1));
    }
    l
}

fn prepare(c: &mut Client, op_idx: usize, o: &OpSpec, before: &[u32], limit: u64) {
    c.op_idx = op_idx;
    c.op = o.clone();
    c.calls = 0;
    c.inside = 0;
    c.limit = limit;
    c.thrown = Vec::with_capacity(o.panic_at.len() + 2);
    c.qhash = 0x1234;
    c.qset = 0;
    c.home = (env::here(), sim::current());
    for (i, &id) in before.iter().enumerate() {
        c.pos0[(id - c.base) as usize] = i as u32;
    }
    c.pos0[c.n] = c.n as u32;
    if let Some((_, solid, seed)) = o.adv {
        const GAS: u32 = u32::MAX;
        c.adv_val = vec![GAS; c.n + 1];
        let mut r = Rng::new(seed);
        let k = (solid as usize).min(c.n);
        // Values of the elements fixed beforehand, leaving room for nothing below: the adversary
        // freezes at increasing values above them.
        let mut order: Vec<u32> = (0..c.n as u32).collect();
        for i in 0..k {
            let j = r.us(i, c.n - 1);
            order.swap(i, j);
            c.adv_val[order[i] as usize] = i as u32;
        }
        c.adv_solid = k as u32;
        c.adv_cand = u32::MAX;
        c.adv_tie = match seed % 5 {
            0 => k as u32 + (seed >> 8) as u32 % 400,
            1 => k as u32 + (seed >> 8) as u32 % (1 + c.n as u32),
            _ => u32::MAX,
        };
    }
    if o.op.cached() {
        c.key_calls = vec![0; c.n + 1];
        c.key_val = vec![0; c.n + 1];
        c.total_keys = 0;
        c.key_span = 0;
    }
    c.keys_made = 0;
    c.keys_dropped = 0;
    c.active = true;
}

/// Rank of an element for checking results of operation `o`.
fn rank(c: &Client, o: &OpSpec, id: u32) -> u64 {
    if o.op.cached() {
        return c.key_val[(id - c.base) as usize] as u64;
    }
    if o.adv.is_some() {
        let v = c.adv_val[(id - c.base) as usize] as u64;
        return if o.adv.unwrap().0 { u64::MAX - v } else { v };
    }
    let k = env::run().keys[id as usize] as u64;
    if o.desc {
        u64::MAX - k
    } else {
        k
    }
}

fn normal(o: &OpSpec) -> OpSpec {
    let mut o = o.clone();
    if o.op.by_key() || o.op.cached() || o.op.dedup() || (o.op.query() && !matches!(o.op, Op::IsSorted | Op::IsSortedBy)) {
        o.desc = false;
    }
    o
}

unsafe fn do_op<T: Dispatch>(ctx: &Ctx<T>, c: usize, i: usize) -> bool {
    let spec = &ctx.sc.clients[c];
    let mut o = normal(&spec.ops[i]);
    if ctx.sc.elem != ElemKind::Mid {
        o.op = o.op.basic();
    }
    let o = &o;
    let (n, stride) = (spec.n, spec.stride);
    let tag = c as u32 + 1;
    let first = ctx.parent.add(if n > 0 { spec.off } else { 0 });
    let info = &mut *ctx.infos[c].add(i);
    *ctx.checks += 1;
    let mut before = Vec::with_capacity(n);
    if !T::ZST {
        if let Some(p) = read(first, n, stride, &mut before) {
            violate(Class::Outside, c, format!("element at {p} was overwritten between operations"));
            return false;
        }
        // Nobody else may have put foreign elements into this view.
        let r = env::run();
        if let Some(p) = before.iter().position(|&id| r.owner[id as usize] as usize != c) {
            violate(Class::Outside, c, format!("position {p} holds element {} of another view", before[p]));
            return false;
        }
    }
    if o.op == Op::Arrange {
        arrange(ctx, c, o, &before);
        info.done = true;
        return true;
    }
    {
        let r = env::run();
        r.keys[ctx.needle[c] as usize] = o.needle;
        prepare(&mut r.clients[c], i, o, &before, limit_of(o, n));
        if T::ZST {
            r.clients[c].limit = 30 * (n as u64) * (n as u64) + 200 * n as u64 * log2(n) + 10_000;
        }
        if o.corrupt {
            r.stats.corrupt += 1;
        }
    }
    let needle = ManuallyDrop::new(T::make(ctx.needle[c], o.needle));
    // Index array with the requested stride.
    let m = o.indices.len();
    let step = (o.ind_stride.unsigned_abs() as usize).max(1);
    let mut store = vec![usize::MAX / 2 + 1; m * step];
    for (j, &x) in o.indices.iter().enumerate() {
        let j = if o.ind_stride < 0 { m - 1 - j } else { j };
        store[j * step] = x;
    }
    let mut indices = ArrayView1::from_shape_ptr([m].strides([step]), store.as_ptr());
    if o.ind_stride < 0 && m > 0 {
        indices.invert_axis(Axis(0));
    }
    let pre = o.pre.min(DUMMIES);
    let mut vec: Vec<&'static mut T> = Vec::with_capacity(pre + o.spare);
    for d in 0..pre {
        vec.push(&mut *ctx.dummies.add(d));
    }
    let mut coll = Coll { items: Vec::with_capacity(pre + m + 2), ids: Vec::with_capacity(pre + m + 2), overflow: false, count: 0, fail: o.ext_panic };
    for d in 0..pre {
        coll.items.push((usize::MAX - d, ctx.dummies.add(d)));
        coll.ids.push(u32::MAX);
    }
    alloc::reset(tag);
    if let Some((a, b)) = o.alloc_fail {
        alloc::fail(tag, a, b);
    }
    if o.outage == Some(0) {
        alloc::fail(tag, 1, u64::MAX);
        env::run().stats.outages += 1;
    }
    let args = Args { first, n, stride, needle: &needle, indices, vec: &mut vec, coll: &mut coll };
    let inside = o.inside && ctx.sc.world;
    if inside {
        env::run().stats.inside += 1;
    }
    let pools = sim::pools_built();
    sim::set_span(0);
    let call = || {
        tagged(tag, || {
            catch_unwind(AssertUnwindSafe(|| {
                if inside {
                    let job = Carry((c, o, args));
                    rayon_core::join(move || Carry(job.call()), || ()).0 .0
                } else {
                    call_with_stack(o, args)
                }
            }))
        })
    };
    let res = if o.unwind {
        env::run().stats.unwound += 1;
        while_unwinding(call)
    } else {
        call()
    };
    alloc::fail(tag, 0, 0);
    for &(_, p) in &coll.items[pre..] {
        (*p).release();
    }
    let (failed, requests, peak) = (
        alloc::FAILED[tag as usize].load(std::sync::atomic::Ordering::Relaxed),
        alloc::REQUESTS[tag as usize].load(std::sync::atomic::Ordering::Relaxed),
        alloc::PEAK_BYTES[tag as usize].load(std::sync::atomic::Ordering::Relaxed),
    );
    let r = env::run();
    r.stats.alloc_failed += failed;
    let cl = &mut r.clients[c];
    cl.active = false;
    info.calls = cl.calls;
    info.span = sim::span();
    info.requests = requests;
    info.peak = peak;
    info.done = true;
    info.panicked = res.is_err();
    info.crashed_in = res.is_err() && !cl.thrown.is_empty();
    if cl.inside != 0 {
        let k = cl.inside;
        violate(Class::Quiesce, c, format!("{:?} returned while {k} callbacks were still running", o.op));
    }
    if sim::pools_built() != pools {
        violate(Class::Thread, c, format!("{:?} has built a thread pool", o.op));
    }
    // -- how it ended ---------------------------------------------------------------------------
    let r = env::run();
    let cl = &r.clients[c];
    let thrown = cl.thrown.clone();
    let mut out = None;
    match res {
        Ok(x) => {
            out = Some(x);
            if !thrown.is_empty() {
                violate(Class::Swallowed, c, format!("{:?} returned normally although its callback panicked at call {:?}", o.op, thrown));
            }
            if failed > 0 && o.alloc_fail.is_some() {
                violate(Class::Swallowed, c, format!("{:?} returned normally although {failed} allocations failed", o.op));
            }
            if o.corrupt {
                violate(Class::Accepted, c, format!("{:?} accepted the index list {:?} for {n} elements", o.op, o.indices));
            }
        }
        Err(p) => {
            if p.is::<Abort>() {
                // A violation has been recorded already.
            } else if let Some(inj) = p.downcast_ref::<Injected>() {
                if inj.client != c || inj.op != i || !thrown.contains(&inj.at) {
                    violate(Class::Payload, c, format!("{:?} propagated a panic of client {} op {} call {}", o.op, inj.client, inj.op, inj.at));
                }
            } else {
                let text = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("unknown payload".into());
                if !thrown.is_empty() {
                    violate(Class::Payload, c, format!("{:?}: the callback's panic was replaced by \"{text}\"", o.op));
                } else if !(o.corrupt || o.lie.is_some() || o.key_lie.is_some() || (failed > 0 && o.op.is(SEQ_STABLE))) {
                    let class = if failed > 0 { Class::Allocates } else { Class::Panic };
                    violate(class, c, format!("{:?} on {n} elements panicked: {text}", o.op));
                }
            }
            drop(p);
        }
    }
    if n == 0 && out.is_none() && !o.corrupt {
        // Nothing more to see.
    }
    // -- the collection -------------------------------------------------------------------------
    if o.op.is(PAR_SELECT) {
        collection_par(ctx, c, o, &vec, pre, first, out.is_some());
    } else if o.op.many() {
        collection_seq(ctx, c, o, &coll, pre, first, out.is_some());
    }
    std::mem::forget(std::mem::take(&mut coll.items));
    drop(vec.drain(..).map(|r| r as *mut T).collect::<Vec<_>>());
    drop(vec);
    if !env::run().violations.is_empty() {
        return false;
    }
    // -- memory ---------------------------------------------------------------------------------
    let live = alloc::LIVE[tag as usize].load(std::sync::atomic::Ordering::Relaxed);
    if live != 0 {
        violate(Class::Leak, c, format!("{:?} left {live} blocks of memory allocated", o.op));
    }
    if let Some(e) = alloc::take_err() {
        violate(Class::Memory, c, format!("{:?}: {e}", o.op));
    }
    let in_place = o.op.is(SEQ_UNSTABLE) || o.op.is(SEQ_SELECT) || o.op.query() || o.op.dedup() || o.op == Op::Reverse;
    if in_place && requests > 0 && out.is_some() {
        violate(Class::Allocates, c, format!("{:?} requested memory {requests} times", o.op));
    }
    let roomy = o.op.is(PAR_UNSTABLE) || (o.op.is(PAR_SELECT) && o.spare >= o.indices.len());
    if roomy && requests > 0 && out.is_some() {
        violate(Class::Allocates, c, format!("{:?} requested memory {requests} times", o.op));
    }
    if o.op.is(PAR_STABLE) || o.op == Op::ParSortCached {
        let (size, workers) = (std::mem::size_of::<T>() as i64, ctx.sc.cfg.workers as i64);
        let knob = ctx.sc.knobs[0];
        let chunk = if knob == usize::MAX || !crate::HOOKED { 2000 } else { knob.max(2) as i64 };
        let (n64, chunks) = (n as i64, n as i64 / chunk + 1);
        let (main, rest) = if o.op.cached() { (4 * 16 * n64, 512 * workers) } else { (n64 * size, 64 * chunks + (workers + 1) * (4 * chunk + 128)) };
        let bound = main + 1024 + rest;
        if std::env::var_os("NSIM_PEAK").is_some() {
            println!("PEAK {:?} n={n} chunks={chunks} chunk={chunk} workers={workers} main={main} rest={rest} over={} share={:.3}", o.op, peak - main, (peak - main) as f64 / (1024 + rest) as f64);
        }
        if peak > bound {
            violate(Class::Scratch, c, format!("{:?} of {n} elements of {size} bytes held {peak} bytes of scratch memory, more than {bound}", o.op));
        }
    }
    if o.op.is(&[Op::Sort, Op::SortBy, Op::SortByKey]) {
        let bound = (n / 2 * std::mem::size_of::<T>()) as i64 + 1024 + 128 * log2(n) as i64;
        if peak > bound {
            violate(Class::Scratch, c, format!("{:?} of {n} elements of {} bytes held {peak} bytes of scratch memory, more than {bound}", o.op, std::mem::size_of::<T>()));
        }
    }
    if T::ZST {
        return env::run().violations.is_empty();
    }
    // -- the view -------------------------------------------------------------------------------
    let mut after = Vec::with_capacity(n);
    if let Some(p) = read(first, n, stride, &mut after) {
        violate(Class::Perm, c, format!("after {:?} the element at {p} has been overwritten", o.op));
        return false;
    }
    let mut seen = vec![false; n + 1];
    for (p, &id) in after.iter().enumerate() {
        let r = env::run();
        if r.owner[id as usize] as usize != c || id == ctx.needle[c] {
            violate(Class::Perm, c, format!("after {:?} position {p} holds element {id}, which is not of this view", o.op));
            return false;
        }
        let k = (id - r.clients[c].base) as usize;
        if seen[k] {
            violate(Class::Perm, c, format!("after {:?} element {id} is in the view twice (again at {p} of {n})", o.op));
            return false;
        }
        seen[k] = true;
        let e = &*first.offset(p as isize * stride);
        if e.key() != r.keys[id as usize] {
            violate(Class::Perm, c, format!("after {:?} the contents of element {id} have changed", o.op));
            return false;
        }
        let want = r.touches[id as usize];
        let have = e.cnt();
        if have != want & T::COUNTS {
            violate(Class::Lost, c, format!("after {:?} element {id} counts {have} callbacks instead of {want}", o.op));
            // Continue with what is there, for properties that do not care.
            r.touches[id as usize] = have;
        }
    }
    padding(ctx, c, o);
    // -- the result -----------------------------------------------------------------------------
    let lies = o.lie.is_some() || o.key_lie.is_some();
    let r = env::run();
    let cl = &r.clients[c];
    if cl.keys_made != cl.keys_dropped {
        violate(Class::KeyDrop, c, format!("{:?} made {} keys and dropped {}", o.op, cl.keys_made, cl.keys_dropped));
    }
    if o.op.cached() {
        let over = cl.key_calls.iter().take(n).filter(|&&k| k > 1).count();
        if over > 0 {
            violate(Class::KeyCalls, c, format!("{:?} called the key function more than once for {over} elements", o.op));
        }
        if out.is_some() && n >= 2 && cl.key_calls.iter().take(n).any(|&k| k == 0) {
            violate(Class::KeyCalls, c, format!("{:?} never called the key function for some elements", o.op));
        }
        if out.is_none() && after != before {
            violate(Class::Atomic, c, format!("{:?} panicked, but has changed the view", o.op));
        }
    }
    if (o.op.query() || (n < 2 && !o.op.many())) && after != before {
        violate(Class::Perm, c, format!("{:?} changed the view", o.op));
    }
    let Some(out) = out else { return env::run().violations.is_empty() };
    let model = !lies || (o.op.cached() && o.key_lie.is_none());
    if model && thrown.is_empty() && o.mutate.is_none() {
        verify(ctx, c, o, &before, &after, &out, first);
    }
    if let Some((..)) = o.adv {
        let calls = env::run().clients[c].calls;
        let b = budget(o.op, n, m);
        if calls > b {
            violate(Class::Bound, c, format!("{:?} on {n} elements (m={m}) made {calls} comparisons against an adversary, more than {b}", o.op));
        }
    }
    if let Some((bound, what)) = span_bound(ctx.sc, o, n) {
        let (span, calls) = (info.span, info.calls);
        let (keys, limit) = (env::run().clients[c].key_span, n as u64 / 2 + 1000);
        if o.op.cached() && keys > limit {
            violate(Class::Span, c, format!("{:?} on {n} elements: chain of {keys} dependent calls of the key function, more than {limit}", o.op));
        }
        if span > bound {
            violate(Class::Span, c, format!("{:?} on {n} elements{what}: chain of {span} dependent callbacks among {calls}, more than {bound}", o.op));
        }
    }
    // Arrangement as by a contiguous execution, alone.
    let det = (o.op.unstable() || o.op.single() || o.op.many() || o.op.dedup()) && thrown.is_empty();
    let seq = !o.op.par();
    let wants = |class: Class| env::run().wanted.contains(&class);
    let set = !seq && thrown.is_empty() && wants(Class::Work);
    if ((det && wants(Class::Determinism)) || set) && (!lies || seq) && (o.adv.is_none() || seq) && env::run().violations.is_empty() {
        let (ids, q) = reference::<T>(ctx, c, i, o, &before);
        let r = env::run();
        let (x, y) = (&r.clients[c], &r.refs[c]);
        // How a cached-key sort compares the keys depends on the order rayon collects them in.
        let made = |c: &env::Client| (c.qset, if o.op.cached() { c.total_keys } else { c.calls });
        let (mine, alone) = (made(x), made(y));
        if set && ids.is_some() && mine != alone {
            violate(Class::Work, c, format!("{:?} on {n} elements made {} callbacks on other elements than the {} it makes when run alone, outside of the pool", o.op, mine.1, alone.1));
        }
        if let Some(ids) = ids.filter(|_| det && wants(Class::Determinism)) {
            if let Some(p) = (0..n).find(|&p| ids[p] != after[p]) {
                violate(Class::Determinism, c, format!("{:?} on {n} elements put element {} at {p}, but element {} when run alone on a contiguous copy", o.op, after[p], ids[p]));
            } else if seq && q != env::run().clients[c].qhash {
                violate(Class::Determinism, c, format!("{:?} on {n} elements asked other questions than when run alone on a contiguous copy", o.op));
            }
        }
    }
    env::run().violations.is_empty()
}

unsafe fn padding<T: Elem>(ctx: &Ctx<T>, c: usize, o: &OpSpec) {
    let check = |e: &T, id: u32, p: usize| {
        if !e.valid() || e.id() != id || e.cnt() != 0 {
            violate(Class::Outside, c, format!("{:?} changed the element at parent position {p}, outside of every view", o.op));
            return false;
        }
        true
    };
    for &(p, id) in &ctx.pad {
        if !check(&*ctx.parent.add(p), id, p) {
            return;
        }
    }
}

fn collection_par<T>(ctx: &Ctx<T>, c: usize, o: &OpSpec, vec: &[&'static mut T], pre: usize, first: *mut T, ok: bool) {
    let n = ctx.sc.clients[c].n;
    let want = pre + if ok { o.indices.len() } else { 0 };
    if vec.len() != want {
        violate(Class::Collection, c, format!("{:?} of {} indices {} left {} items in a collection of {pre}", o.op, o.indices.len(), if ok { "returned and" } else { "panicked and" }, vec.len()));
        return;
    }
    for (d, x) in vec.iter().take(pre).enumerate() {
        if *x as *const T != unsafe { ctx.dummies.add(d) as *const T } {
            violate(Class::Collection, c, format!("{:?} changed item {d} of the collection", o.op));
        }
    }
    if ok && !o.corrupt && std::mem::size_of::<T>() > 0 {
        for (j, &x) in o.indices.iter().enumerate() {
            let want = unsafe { first.offset(x as isize * ctx.sc.clients[c].stride) as *const T };
            if x < n && vec[pre + j] as *const T != want {
                violate(Class::Collection, c, format!("{:?}: item {j} of the collection is not the element at index {x}", o.op));
                return;
            }
        }
    }
}

fn collection_seq<T: Elem>(ctx: &Ctx<T>, c: usize, o: &OpSpec, coll: &Coll<T>, pre: usize, first: *mut T, ok: bool) {
    let n = ctx.sc.clients[c].n;
    if coll.overflow {
        return violate(Class::Collection, c, format!("{:?} gave too many items to the collection", o.op));
    }
    for d in 0..pre {
        if coll.items.get(d) != Some(&(usize::MAX - d, unsafe { ctx.dummies.add(d) })) {
            return violate(Class::Collection, c, format!("{:?} changed item {d} of the collection", o.op));
        }
    }
    let got = &coll.items[pre..];
    for (j, &(x, p)) in got.iter().enumerate() {
        let e = unsafe { &*p };
        if !T::ZST && (!e.valid() || e.id() != coll.ids[pre + j]) {
            return violate(Class::Collection, c, format!("{:?}: the element given to the collection for index {x} has been replaced by another one since", o.op));
        }
    }
    let mut seen = std::collections::HashSet::new();
    for &(x, p) in got {
        if x >= n || !o.indices.contains(&x) {
            return violate(Class::Collection, c, format!("{:?} gave an item with index {x} to the collection, which was not asked for", o.op));
        }
        if !seen.insert(x) {
            return violate(Class::Collection, c, format!("{:?} gave index {x} to the collection twice", o.op));
        }
        if std::mem::size_of::<T>() > 0 && p as *const T != unsafe { first.offset(x as isize * ctx.sc.clients[c].stride) as *const T } {
            return violate(Class::Collection, c, format!("{:?}: the item given for index {x} is not the element at that index", o.op));
        }
    }
    if ok && !o.corrupt && got.len() != o.indices.len() {
        violate(Class::Collection, c, format!("{:?} gave {} of {} items to the collection", o.op, got.len(), o.indices.len()));
    }
}

unsafe fn arrange<T: Elem>(ctx: &Ctx<T>, c: usize, o: &OpSpec, before: &[u32]) {
    if T::ZST {
        return;
    }
    let spec = &ctx.sc.clients[c];
    let base = env::run().clients[c].base;
    let mut order: Vec<u32> = (0..spec.n as u32).map(|i| base + i).collect();
    if o.needle != 0 {
        let mut r = Rng::new(o.needle as u64);
        if o.needle % 4 == 3 {
            order.sort_by_key(|&id| env::run().keys[id as usize]);
        } else {
            for i in (1..order.len()).rev() {
                order.swap(i, r.us(0, i));
            }
        }
    }
    let mut at = vec![0usize; spec.n];
    for (i, &id) in before.iter().enumerate() {
        at[(id - base) as usize] = i;
    }
    let first = ctx.parent.add(if spec.n > 0 { spec.off } else { 0 });
    let copy: Vec<MaybeUninit<T>> = (0..spec.n).map(|i| MaybeUninit::new(std::ptr::read(first.offset(i as isize * spec.stride)))).collect();
    for (i, &id) in order.iter().enumerate() {
        let from = at[(id - base) as usize];
        std::ptr::copy_nonoverlapping(copy[from].as_ptr(), first.offset(i as isize * spec.stride), 1);
    }
}

/// The same operation on a contiguous copy of the same elements, outside of the simulated pool.
unsafe fn reference<T: Dispatch>(ctx: &Ctx<T>, c: usize, i: usize, o: &OpSpec, before: &[u32]) -> (Option<Vec<u32>>, u64) {
    let n = before.len();
    let tag = REF_TAG + c as u32;
    let mut o = o.clone();
    o.panic_at.clear();
    o.ext_panic = None;
    o.alloc_fail = None;
    o.outage = None;
    let mut copy: Vec<ManuallyDrop<T>> = before.iter().map(|&id| ManuallyDrop::new(T::make(id, env::run().keys[id as usize]))).collect();
    let limit = limit_of(&o, n);
    prepare(&mut env::run().refs[c], i, &o, before, limit);
    let needle = ManuallyDrop::new(T::make(ctx.needle[c], o.needle));
    let indices = ArrayView1::from_shape_ptr([o.indices.len()], o.indices.as_ptr());
    let mut vec = vec![];
    let mut coll = Coll { items: Vec::with_capacity(o.indices.len() + 2), ids: Vec::with_capacity(o.indices.len() + 2), overflow: false, count: 0, fail: None };
    let res = {
        let _d = Detached::new();
        let args = Args { first: copy.as_mut_ptr() as *mut T, n, stride: 1, needle: &needle, indices, vec: &mut vec, coll: &mut coll };
        let o = &o;
        let call = move || tagged(tag, || catch_unwind(AssertUnwindSafe(|| T::call(o, args).clone_none())));
        if hash2(ctx.sc.seed, (c * 64 + i) as u64) & 1 == 0 {
            call()
        } else {
            // On another thread, which has never run anything before; this one waits for it.
            struct Carry<F>(F);
            unsafe impl<F> Send for Carry<F> {}
            impl<F: FnOnce() -> R, R> Carry<F> {
                fn go(self) -> R {
                    (self.0)()
                }
            }
            let call = Carry(call);
            std::thread::scope(|s| s.spawn(move || Carry(call.go())).join()).map_or_else(Err, |r| r.0)
        }
    };
    drop(vec.drain(..).map(|r| r as *mut T).collect::<Vec<_>>());
    let rf = &mut env::run().refs[c];
    rf.active = false;
    let q = rf.qhash;
    if res.is_err() {
        return (None, q);
    }
    let mut ids = vec![];
    match read(copy.as_ptr() as *const T, n, 1, &mut ids) {
        None => (Some(ids), q),
        Some(_) => (None, q),
    }
}

/// Takes things to another thread while this one waits for it.
struct Carry<X>(X);
unsafe impl<X> Send for Carry<X> {}
impl<T: Dispatch> Carry<(usize, &OpSpec, Args<'_, T>)> {
    unsafe fn call(self) -> Out<T> {
        env::run().clients[self.0 .0].home = (env::here(), sim::current());
        call_with_stack(self.0 .1, self.0 .2)
    }
}
/// Calls `f` in a destructor while the thread unwinds.
fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Late<'a, F: FnOnce() -> R, R>(Option<F>, &'a mut Option<R>);
    impl<F: FnOnce() -> R, R> Drop for Late<'_, F, R> {
        fn drop(&mut self) {
            *self.1 = Some(self.0.take().unwrap()());
        }
    }
    let mut r = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _late = Late(Some(f), &mut r);
        std::panic::resume_unwind(Box::new(()));
    }));
    r.unwrap()
}
unsafe fn call_with_stack<T: Dispatch>(o: &OpSpec, args: Args<'_, T>) -> Out<T> {
    if o.stack == 0 {
        return T::call(o, args);
    }
    env::run().stats.tight += 1;
    // Not a worker, which may execute anything while it waits.
    stacker::grow(o.stack << 10, move || T::call(o, args))
}

impl<T> Out<T> {
    fn clone_none(self) {}
}

fn ends_of<T>(first: *mut T, stride: isize, a: usize, b: usize) -> (usize, *const T, *const T) {
    if a >= b {
        (0, std::ptr::null(), std::ptr::null())
    } else {
        (b - a, first.wrapping_offset(a as isize * stride) as *const T, first.wrapping_offset((b - 1) as isize * stride) as *const T)
    }
}

/// Compares the outcome of a fault-free operation with the executable model.
fn verify<T: Elem>(ctx: &Ctx<T>, c: usize, o: &OpSpec, before: &[u32], after: &[u32], out: &Out<T>, first: *mut T) {
    let n = before.len();
    let stride = ctx.sc.clients[c].stride;
    let cl = &env::run().clients[c];
    let rk = |id: u32| rank(cl, o, id);
    let keys = &env::run().keys;
    if o.op.stable() {
        let mut want = before.to_vec();
        want.sort_by_key(|&id| rk(id));
        if let Some(p) = (0..n).find(|&p| want[p] != after[p]) {
            let class = if rk(want[p]) != rk(after[p]) { Class::Order } else { Class::Stable };
            violate(class, c, format!("{:?} on {n} elements put element {} at {p} instead of {}", o.op, after[p], want[p]));
        }
        return;
    }
    if o.op.unstable() {
        if let Some(p) = (1..n).find(|&p| rk(after[p - 1]) > rk(after[p])) {
            violate(Class::Order, c, format!("{:?} on {n} elements is out of order at {p}", o.op));
        }
        return;
    }
    if o.op.single() || o.op.many() {
        let mut sorted: Vec<u64> = before.iter().map(|&id| rk(id)).collect();
        sorted.sort();
        let one = [o.index];
        let idx: &[usize] = if o.op.single() { &one } else { &o.indices };
        let mut from = 0;
        let mut lo: Option<u64> = None;
        for k in 0..=idx.len() {
            let (to, hi) = match idx.get(k) {
                Some(&x) => (x, Some(rk(after[x]))),
                None => (n, None),
            };
            if let Some(&x) = idx.get(k) {
                if rk(after[x]) != sorted[x] {
                    return violate(Class::Order, c, format!("{:?} on {n} elements put the wrong element at index {x}", o.op));
                }
            }
            for p in from..to {
                let v = rk(after[p]);
                if lo.is_some_and(|l| v < l) || hi.is_some_and(|h| v > h) {
                    return violate(Class::Order, c, format!("{:?} on {n} elements left the element at {p} on the wrong side of a selected one", o.op));
                }
            }
            from = to + 1;
            lo = hi;
        }
        if let Out::Select(parts, mid) = out {
            let at = first.wrapping_offset(o.index as isize * stride) as *const T;
            if *mid != at || parts[0] != ends_of(first, stride, 0, o.index) || parts[1] != ends_of(first, stride, o.index + 1, n) {
                violate(Class::Value, c, format!("{:?} returned the wrong parts", o.op));
            }
        }
        return;
    }
    let sorted_asc = before.windows(2).all(|w| keys[w[0] as usize] <= keys[w[1] as usize]);
    let below = before.iter().filter(|&&id| keys[id as usize] < o.needle).count();
    let equal = before.iter().filter(|&&id| keys[id as usize] == o.needle).count();
    let bad = |what: String| violate(Class::Value, c, format!("{:?} on {n} elements returned {what}", o.op));
    match out {
        Out::Bool(b) => {
            let want = if o.op == Op::Contains { equal > 0 } else { before.windows(2).all(|w| rk(w[0]) <= rk(w[1])) };
            if *b != want {
                bad(format!("{b}"));
            }
        }
        Out::Point(p) => {
            let parted = before.iter().take(below).all(|&id| keys[id as usize] < o.needle);
            if *p > n || (parted && *p != below) {
                bad(format!("{p} instead of {below}"));
            }
        }
        Out::Search(r) => {
            let ok = match r {
                Ok(p) => *p < n && keys[before[*p] as usize] == o.needle,
                Err(p) => *p <= n && (!sorted_asc || (equal == 0 && *p == below)),
            };
            if !ok {
                bad(format!("{r:?}"));
            }
        }
        Out::Split(parts) => {
            let mut left: Vec<u32> = vec![];
            for &id in before {
                let dup = left.last().is_some_and(|&l| {
                    let (a, b) = (keys[id as usize], keys[l as usize]);
                    if o.op == Op::DedupBy {
                        bucket(a, b)
                    } else {
                        a == b
                    }
                });
                if !dup {
                    left.push(id);
                }
            }
            let k = left.len();
            if parts[0] != ends_of(first, stride, 0, k) || parts[1] != ends_of(first, stride, k, n) {
                bad(format!("{} and {} elements instead of {k} and {}", parts[0].0, parts[1].0, n - k));
            } else if after[..k] != left[..] {
                bad("the wrong elements".to_string());
            }
        }
        Out::Unit if o.op == Op::Reverse => {
            if !after.iter().eq(before.iter().rev()) {
                bad("without having reversed the view".to_string());
            }
        }
        _ => {}
    }
}
