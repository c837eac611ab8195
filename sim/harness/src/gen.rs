//! Seeded generation of scenarios, per property.

use crate::env::LIES;
use crate::exec;
use crate::rng::{hash2, Rng};
use crate::scen::*;
use rayon_core::sim::{Config, Kind};

const MAX: usize = usize::MAX;

pub struct G {
    pub r: Rng,
    pub hooked: bool,
    pub thorough: bool,
}

const EDGES: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21, 22, 23, 24, 25, 40, 41, 49, 50, 51, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 259, 260, 383, 384, 385, 511, 512, 513];

impl G {
    fn n(&mut self, max: usize) -> usize {
        let r = &mut self.r;
        match r.below(10) {
            0 => r.us(0, 25.min(max)),
            1 | 2 => (*r.pick(EDGES)).min(max),
            3 => r.us(0, max),
            _ => r.logu(4, max.max(5) as u64).min(max as u64) as usize,
        }
    }
    fn keys(&mut self, n: usize, elem: ElemKind) -> Keys {
        let r = &mut self.r;
        let distinct = match r.below(10) {
            0 | 1 => r.range(1, 3),
            2 => r.range(4, 12),
            3..=5 => n as u64 / 2 + 1,
            6 | 7 => 2 * n as u64 + 3,
            8 => ((n as f64).sqrt() as u64).max(2),
            _ => 30_000,
        };
        let distinct = if elem == ElemKind::Small { distinct.min(30_000) } else { distinct };
        let pattern = if r.pct(35) { 0 } else { r.below(PATTERNS as u64) as u8 };
        Keys::Gen { pattern, seed: r.below(1 << 40), distinct: distinct as u32 }
    }
    fn elem(&mut self) -> ElemKind {
        match self.r.below(20) {
            0 | 1 => ElemKind::Tiny,
            2 | 3 => ElemKind::Small,
            4 | 5 => ElemKind::Big,
            6 => ElemKind::Zst,
            _ => ElemKind::Mid,
        }
    }
    fn sized(&mut self) -> ElemKind {
        match self.elem() {
            ElemKind::Zst => ElemKind::Mid,
            e => e,
        }
    }
    fn knobs(&mut self) -> [usize; KNOBS] {
        let r = &mut self.r;
        let mut k = [MAX; KNOBS];
        if r.pct(85) {
            k[0] = if r.pct(70) { r.us(2, 40) } else { r.us(20, 200) };
        }
        if r.pct(80) {
            k[1] = if r.pct(60) { r.us(3, 12) } else { r.us(3, 100) };
        }
        if r.pct(85) {
            k[2] = if r.pct(50) { r.us(0, 10) } else { r.us(10, 100) };
        }
        if r.pct(85) {
            k[3] = if r.pct(50) { r.us(0, 10) } else { r.us(10, 100) };
        }
        if r.pct(35) {
            k[4] = r.us(0, 3);
        }
        if r.pct(40) {
            k[5] = r.us(0, 2);
        }
        if r.pct(45) {
            k[6] = r.us(1, 4);
        }
        k
    }
    fn sched(&mut self) -> Config {
        let r = &mut self.r;
        let workers = match r.below(10) {
            0 => 1,
            1..=3 => 2,
            4 | 5 => 3,
            6 | 7 => 4,
            _ if r.pct(12) => r.us(9, 40),
            _ => r.us(5, 8),
        };
        let kind = match r.below(20) {
            0..=8 => Kind::Uniform,
            9..=14 => Kind::Priority,
            15 | 16 => Kind::RoundRobin,
            _ => Kind::RunToBlock,
        };
        let mut stalls = vec![];
        if r.pct(25) {
            for _ in 0..r.us(1, 2) {
                let from = r.logu(1, 3000);
                stalls.push((r.below(workers as u64 + 1) as u32, from, from + r.logu(10, 20_000)));
            }
        }
        let occupied = if r.pct(8) { self.occupied(workers) } else { vec![] };
        let r = &mut self.r;
        Config {
            workers,
            kind,
            seed: r.below(1 << 48),
            gap: r.logu(1, 200) as u32,
            eager: *r.pick(&[0, 30, 60, 100]),
            lazy: *r.pick(&[0, 0, 30, 80]),
            stalls,
            occupied,
            explicit: None,
        }
    }
    /// Some of the workers, but not all.
    fn occupied(&mut self, workers: usize) -> Vec<(u32, u64)> {
        let r = &mut self.r;
        let (all, late, free) = (r.pct(40), r.pct(35), r.us(0, workers - 1));
        let p = r.range(20, 90);
        let mut v = vec![];
        for t in 0..workers {
            if t != free && (all || r.pct(p)) {
                v.push((t as u32, if late { r.logu(1, 3000) } else { 0 }));
            }
        }
        v
    }
    fn still(&mut self) -> Config {
        Config { workers: 1, kind: Kind::RunToBlock, seed: 0, gap: 0, eager: 0, lazy: 0, stalls: vec![], occupied: vec![], explicit: None }
    }
    fn op(&mut self, op: Op, n: usize) -> OpSpec {
        let r = &mut self.r;
        let mut o = OpSpec { op, ind_stride: 1, kty: 64, ..Default::default() };
        o.desc = r.pct(25);
        if op.single() {
            o.index = if n == 0 { 0 } else { self.index(n) };
        }
        let r = &mut self.r;
        if op.many() {
            let m = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => n,
                3 | 4 => r.us(0, n.min(8)),
                5 => r.us(0, n.min(40)),
                _ => r.us(0, n),
            };
            o.indices = self.indices(n, m);
            let r = &mut self.r;
            o.ind_stride = *r.pick(&[1, 1, 1, 2, -1]);
            o.pre = if r.pct(50) { r.us(1, 4) } else { 0 };
            o.spare = if r.pct(50) { r.us(0, 2 * n + 4) } else { 0 };
        }
        let r = &mut self.r;
        if op.query() {
            o.needle = match r.below(4) {
                0 => r.below(8) as u32,
                1 => 0,
                2 => r.below(2 * n as u64 + 4) as u32,
                _ => r.below(31_000) as u32,
            };
        }
        if op.cached() {
            o.kty = *r.pick(&[8, 16, 32, 64]);
            if r.pct(4) {
                o.kty = 1;
            }
        } else if op.by_key() && r.pct(60) {
            o.kty = *r.pick(&[8, 16]);
        }
        o
    }
    fn index(&mut self, n: usize) -> usize {
        let r = &mut self.r;
        match r.below(8) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            3 => 1.min(n - 1),
            4 => n.saturating_sub(2),
            _ => r.us(0, n - 1),
        }
    }
    fn indices(&mut self, n: usize, m: usize) -> Vec<usize> {
        let r = &mut self.r;
        let m = m.min(n);
        if m == n {
            return (0..n).collect();
        }
        if m > 0 && r.pct(25) {
            // One cluster.
            let from = r.us(0, n - m);
            return (from..from + m).collect();
        }
        let mut set = std::collections::BTreeSet::new();
        while set.len() < m {
            set.insert(r.us(0, n - 1));
        }
        set.into_iter().collect()
    }
    /// Views of the given lengths in one parent.
    fn layout(&mut self, ns: &[usize], elem: ElemKind, ops: Vec<Vec<OpSpec>>) -> (usize, Vec<ClientSpec>) {
        let k = ns.len();
        let mut out = vec![];
        let mut end = 0usize;
        let interleave = k > 1 && self.r.pct(55);
        let period = k + self.r.us(0, 2);
        let base = self.r.us(0, 3);
        let mut slots: Vec<usize> = (0..period).collect();
        for i in (1..period).rev() {
            let j = self.r.us(0, i);
            slots.swap(i, j);
        }
        for (c, ops) in ops.into_iter().enumerate() {
            let n = ns[c];
            let keys = self.keys(n, elem);
            let r = &mut self.r;
            let back = r.pct(30);
            let (start, stride) = if interleave {
                (base + slots[c], period)
            } else {
                let s = match r.below(10) {
                    0..=4 => 1,
                    5 | 6 => 2,
                    7 => 3,
                    8 if n <= 200 && r.pct(20) => r.logu(8, (8_000 / n.max(20)) as u64) as usize,
                    _ => r.us(1, 7),
                };
                (end + r.us(0, 4), if n > 5000 { 1 + s % 2 } else { s })
            };
            let last = start + n.saturating_sub(1) * stride;
            let (off, st) = if back { (last, -(stride as isize)) } else { (start, stride as isize) };
            end = end.max(last + 1);
            out.push(ClientSpec { n, keys, off, stride: st, ops });
        }
        (end + self.r.us(0, 4), out)
    }
    fn single(&mut self, prop: &str, seed: u64, elem: ElemKind, n: usize, ops: Vec<OpSpec>, world: bool) -> Scenario {
        let (parent, clients) = self.layout(&[n], elem, vec![ops]);
        let knobs = self.knobs();
        let cfg = if world { self.sched() } else { self.still() };
        Scenario { prop: prop.into(), seed, elem, parent, knobs, world, cfg, yields: 1, clients }
    }
    /// Length for parallel operations: mostly small with lowered thresholds, sometimes real ones.
    fn par_n(&mut self, max: usize) -> (usize, bool) {
        let p = if self.hooked { 2 } else { 60 };
        if self.r.pct(p) {
            (self.r.logu(2001, if self.r.clone().pct(30) { 14_000 } else { 5_500 }) as usize, true)
        } else {
            (self.n(max), false)
        }
    }
    fn real(&mut self, sc: &mut Scenario) {
        // Real thresholds, large inputs: fewer decisions.
        for k in 0..4 {
            sc.knobs[k] = MAX;
        }
        sc.cfg.gap = sc.cfg.gap.max(60);
    }
    fn pick_op(&mut self, sets: &[&[Op]]) -> Op {
        let s = *self.r.pick(sets);
        *self.r.pick(s)
    }
    fn point(&mut self, calls: u64) -> u64 {
        let r = &mut self.r;
        let c = calls.max(1);
        match r.below(10) {
            0 => 1 + r.below(c.min(4)),
            1 => c - r.below(c.min(4)),
            2 => r.logu(1, c),
            _ => r.range(1, c),
        }
    }
    fn lie(&mut self, calls: u64) -> (u64, u8, u64) {
        let from = if self.r.pct(60) { 1 } else { self.point(calls) };
        (from, self.r.below(LIES as u64) as u8, self.r.below(1 << 30))
    }
}

/// Callback counts of the scenario without faults, outside of the pool.
fn probe(sc: &Scenario) -> Vec<Vec<exec::OpInfo>> {
    let mut p = sc.clone();
    p.prop = "probe".into();
    p.world = false;
    for c in &mut p.clients {
        for o in &mut c.ops {
            o.clear_faults();
        }
    }
    exec::execute(&p).ops
}

fn corrupt(r: &mut Rng, n: usize, good: &[usize]) -> Vec<usize> {
    let bad = |v: &[usize]| v.iter().any(|&x| x >= n) || v.windows(2).any(|w| w[0] >= w[1]);
    for _ in 0..20 {
        let mut v = good.to_vec();
        for _ in 0..if r.pct(70) { 1 } else { r.us(2, 3) } {
            let m = v.len();
            match r.below(9) {
                0 if m > 0 => {
                    let i = r.us(0, m - 1);
                    v.insert(i, v[i]);
                }
                1 if m > 1 => {
                    let i = r.us(0, m - 2);
                    v.swap(i, i + 1);
                }
                2 if m > 1 => {
                    let (i, j) = (r.us(0, m - 1), r.us(0, m - 1));
                    v.swap(i, j);
                }
                3 if m > 0 => {
                    let i = r.us(0, m - 1);
                    v[i] ^= 1 << r.below(64);
                }
                4 if m > 0 => {
                    let i = r.us(0, m - 1);
                    v[i] ^= 1 << r.below(6);
                }
                5 => v.push(n),
                6 => v.push(*r.pick(&[usize::MAX, usize::MAX / 2, n + 1, 2 * n + 1, 1 << 32, (1 << 63) + n / 2])),
                7 => v.push(0),
                _ if m > 0 => {
                    let i = r.us(0, m - 1);
                    let x = v[i];
                    v[i] = v[m - 1];
                    v[m - 1] = x;
                }
                _ => v.push(n),
            }
        }
        if bad(&v) {
            return v;
        }
    }
    vec![n]
}

const IN_PLACE: &[&[Op]] = &[SEQ_UNSTABLE, SEQ_SELECT, QUERIES, DEDUPS, &[Op::Reverse], SEQ_SELECT];
const ALL: &[&[Op]] = &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT, QUERIES, DEDUPS, &[Op::Reverse]];

fn usable(op: Op, n: usize) -> Op {
    if op.single() && n == 0 {
        Op::UnstableBy
    } else {
        op
    }
}

pub fn scenario(prop: &str, seed: u64, hooked: bool, thorough: bool) -> Scenario {
    let tag = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    let mut g = G { r: Rng::new(hash2(seed, tag)), hooked, thorough };
    let g = &mut g;
    if g.r.below(if thorough { 200 } else { 400 }) == 0 {
        if let Some(sc) = huge(g, prop, seed) {
            return sc;
        }
    }
    let mut sc = match prop {
        "C01" | "C02" | "C03" => par_ok(g, prop, seed),
        "C04" => par_panic(g, prop, seed),
        "C05" => seq_panic(g, prop, seed, &[SEQ_STABLE, SEQ_STABLE, SEQ_UNSTABLE]),
        "C06" => seq_panic(g, prop, seed, &[SEQ_SELECT, SEQ_SELECT, DEDUPS, QUERIES]),
        "C07" => history(g, prop, seed),
        "C08" => concurrent(g, prop, seed),
        "C09" => lies(g, prop, seed),
        "C10" => adversary(g, prop, seed),
        "C11" => alloc_fail(g, prop, seed),
        "C12" => outage(g, prop, seed),
        "C13" => cached(g, prop, seed),
        "C14" => exclusive(g, prop, seed),
        "C15" => bad_indices(g, prop, seed),
        "C16" => deterministic(g, prop, seed),
        "C20" => busy_pool(g, prop, seed),
        "C21" => shared_work(g, prop, seed),
        "C22" => same_work(g, prop, seed),
        "C23" => par_memory(g, prop, seed),
        _ => panic!("unknown property {prop}"),
    };
    pool_use(g, &mut sc);
    sc
}

/// A large scenario, for testing.
pub fn large(prop: &str, seed: u64) -> Option<Scenario> {
    huge(&mut G { r: Rng::new(seed), hooked: true, thorough: false }, prop, seed)
}

/// One operation on many elements with the real thresholds.
fn huge(g: &mut G, prop: &str, seed: u64) -> Option<Scenario> {
    let sets: &[&[Op]] = match prop {
        "C01" => &[PAR_STABLE],
        "C02" => &[PAR_UNSTABLE],
        "C03" => &[PAR_SELECT],
        "C04" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT],
        "C05" => &[SEQ_STABLE, SEQ_UNSTABLE],
        "C06" => &[SEQ_SELECT, SEQ_SELECT, DEDUPS],
        "C07" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT],
        "C08" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, SEQ_STABLE, SEQ_UNSTABLE],
        "C09" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT],
        "C14" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT],
        "C15" => &[PAR_SELECT, &[Op::SelMany, Op::SelManyBy, Op::SelManyByKey]],
        "C10" => &[&[Op::SelBy, Op::SelBy, Op::SelManyBy, Op::ParSelManyBy, Op::UnstableBy, Op::ParUnstableBy, Op::SortBy, Op::ParSortBy]],
        "C11" => &[&[Op::Sort, Op::SortBy, Op::SortByKey]],
        "C12" => &[SEQ_UNSTABLE, SEQ_SELECT, SEQ_SELECT],
        "C13" => &[&[Op::SortCached, Op::ParSortCached]],
        "C16" => &[SEQ_UNSTABLE, SEQ_SELECT],
        "C20" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT],
        "C22" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT],
        "C23" => &[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT],
        _ => return None,
    };
    let n = match prop {
        "C09" => g.r.logu(2_000, 8_000),
        _ => g.r.logu(20_000, if g.thorough { 500_000 } else { 220_000 }),
    } as usize;
    let op = g.pick_op(sets);
    let n = if prop == "C10" && !op.single() && !op.many() && g.r.pct(15) {
        // What grows a little faster than it should needs such lengths to be seen.
        g.r.logu(500_000, 1_300_000) as usize
    } else {
        n
    };
    let mut o = g.op(op, n);
    if op.many() && g.r.pct(70) {
        let m = g.r.us(1, 60);
        o.indices = g.indices(n, m);
    }
    if op.cached() {
        o.kty = *g.r.pick(&[32, 64]);
    }
    if prop == "C10" {
        o.desc = false;
        o.indices.truncate(5);
        o.adv = Some((g.r.pct(30), g.r.us(0, n) as u32, g.r.below(1 << 30)));
    }
    let slow = g.r.pct(50) && prop != "C10";
    let mut sc = g.single(prop, seed, ElemKind::Mid, n, vec![o], op.par());
    sc.knobs = [MAX; KNOBS];
    if slow {
        // No luck with pivots: the fallbacks.
        sc.knobs[4] = g.r.us(0, 2);
        sc.knobs[5] = g.r.us(0, 2);
    }
    sc.cfg.gap = sc.cfg.gap.max(20) * 5;
    if prop == "C20" {
        sc.world = true;
        sc.cfg = g.sched();
        sc.cfg.workers = g.r.us(2, 8);
        sc.cfg.gap = sc.cfg.gap.max(20) * 5;
        sc.cfg.occupied = g.occupied(sc.cfg.workers);
    }
    if prop == "C08" {
        // Another caller, interleaved with this one.
        let n2 = n / g.r.us(1, 4);
        let (a, b) = (sc.clients[0].ops[0].clone(), g.pick_op(sets));
        let b = g.op(b, n2);
        let (parent, clients) = g.layout(&[n, n2], ElemKind::Mid, vec![vec![a], vec![b]]);
        sc.parent = parent;
        sc.clients = clients;
        sc.world = true;
        sc.cfg = g.sched();
        sc.cfg.gap = sc.cfg.gap.max(20) * 5;
    }
    match prop {
        "C07" => {
            let again = sc.clients[0].ops[0].clone();
            add_panics(g, &mut sc, 100, if op.par() { 40 } else { 0 });
            sc.clients[0].ops.push(again);
        }
        "C09" => {
            let lie = g.lie(n as u64 * 10);
            sc.clients[0].ops[0].lie = Some(lie);
        }
        "C15" => {
            let o = &mut sc.clients[0].ops[0];
            o.indices = corrupt(&mut g.r, n, &o.indices);
            o.corrupt = true;
        }
        "C04" | "C05" | "C06" => add_panics(g, &mut sc, 100, if op.par() { 40 } else { 0 }),
        "C13" if g.r.pct(60) => add_panics(g, &mut sc, 100, 0),
        "C11" => {
            let k = g.r.range(1, 6);
            let mut again = sc.clients[0].ops[0].clone();
            sc.clients[0].ops[0].alloc_fail = Some((k, MAX as u64));
            again.alloc_fail = None;
            sc.clients[0].ops.push(again);
        }
        "C23" if !op.is(PAR_STABLE) => starve(g, &mut sc, &[vec![n as u64]]),
        "C12" => sc.clients[0].ops[0].outage = Some(if g.r.pct(50) { 0 } else { g.r.range(1, n as u64) }),
        _ => {}
    }
    Some(sc)
}

/// Calls made by tasks of the pool, and callbacks using the pool or the crate.
fn pool_use(g: &mut G, sc: &mut Scenario) {
    if sc.prop == "C10" || sc.prop == "C21" {
        return;
    }
    if g.r.pct(7) {
        for c in &mut sc.clients {
            for o in c.ops.iter_mut().filter(|o| o.op != Op::Arrange) {
                o.again = Some((g.r.logu(3, 300) * (1 + c.n as u64 / 100), g.r.below(1 << 30)));
            }
        }
    }
    if g.r.pct(5) {
        for o in sc.clients.iter_mut().flat_map(|c| &mut c.ops).filter(|o| o.op != Op::Arrange) {
            o.unwind = g.r.pct(70) && o.alloc_fail.is_none() && o.outage.is_none();
        }
    }
    if g.r.pct(12) {
        let size = g.r.us(33, 56);
        for o in sc.clients.iter_mut().flat_map(|c| &mut c.ops).filter(|o| o.op != Op::Arrange && !o.op.par()) {
            o.stack = if o.again.is_none() && g.r.pct(80) { size } else { 0 };
        }
    }
    if !sc.world {
        return;
    }
    let (inside, nest) = (g.r.pct(if sc.prop == "C20" { 45 } else { 20 }), g.r.pct(12));
    for o in sc.clients.iter_mut().flat_map(|c| &mut c.ops).filter(|o| o.op != Op::Arrange) {
        o.inside = inside && g.r.pct(80);
        if nest && o.alloc_fail.is_none() {
            o.nest = Some((g.r.logu(4, 300), g.r.below(1 << 30)));
            o.stack = 0;
        }
    }
}

fn par_ok(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let set = match prop {
        "C01" => PAR_STABLE,
        "C02" => PAR_UNSTABLE,
        _ => PAR_SELECT,
    };
    let elem = g.elem();
    let (n, real) = g.par_n(400);
    let mut ops = vec![];
    for _ in 0..if !real && g.r.pct(20) { 2 } else { 1 } {
        if !ops.is_empty() {
            let mut a = g.op(Op::Arrange, n);
            a.needle = g.r.below(1000) as u32;
            ops.push(a);
        }
        let op = *g.r.pick(set);
        ops.push(g.op(op, n));
    }
    let mut sc = g.single(prop, seed, elem, n, ops, true);
    if real {
        g.real(&mut sc);
    } else if prop == "C03" && g.r.pct(50) {
        sc.knobs[3] = g.r.us(0, 6);
    }
    sc
}

fn add_panics(g: &mut G, sc: &mut Scenario, one: u64, more: u64) {
    let infos = probe(sc);
    for (c, cl) in sc.clients.iter_mut().enumerate() {
        for (i, o) in cl.ops.iter_mut().enumerate() {
            let calls = infos[c][i].calls;
            if o.op == Op::Arrange || calls == 0 || !g.r.pct(one) {
                continue;
            }
            o.panic_at = vec![g.point(calls)];
            if g.r.pct(more) {
                for _ in 0..g.r.us(1, 3) {
                    let k = if g.r.pct(50) { o.panic_at[0] + g.r.below(12) } else { g.point(calls) };
                    o.panic_at.push(k);
                }
                o.panic_at.sort();
                o.panic_at.dedup();
            }
        }
    }
}

fn par_panic(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let (n, real) = g.par_n(300);
    let op = g.pick_op(&[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT]);
    let ops = vec![g.op(op, n)];
    let mut sc = g.single(prop, seed, elem, n, ops, true);
    if real {
        g.real(&mut sc);
    }
    add_panics(g, &mut sc, 97, 35);
    sc
}

fn seq_panic(g: &mut G, prop: &str, seed: u64, sets: &[&[Op]]) -> Scenario {
    let elem = g.sized();
    let n = if g.r.pct(3) { g.r.logu(500, 6000) as usize } else { g.n(500) };
    let mut ops = vec![];
    let mut faulty = vec![];
    for _ in 0..g.r.us(1, 4) {
        let op = usable(g.pick_op(sets), n);
        let mut a = g.op(Op::Arrange, n);
        a.needle = match op {
            _ if op.query() => 3 + 4 * g.r.below(9) as u32,
            _ if ops.is_empty() => 0,
            _ => g.r.below(1000) as u32,
        };
        if a.needle != 0 {
            ops.push(a);
        }
        faulty.push(ops.len());
        ops.push(g.op(op, n));
    }
    let mut sc = g.single(prop, seed, elem, n, ops, false);
    for o in sc.clients[0].ops.iter_mut().filter(|o| o.op.dedup()) {
        if g.r.pct(40) {
            o.op = Op::DedupBy;
            o.mutate = Some((g.r.logu(1, 30), g.r.below(1 << 30)));
        }
    }
    add_panics(g, &mut sc, 95, 0);
    if prop == "C06" {
        for o in &mut sc.clients[0].ops {
            if o.op.many() && !o.indices.is_empty() && g.r.pct(35) {
                o.panic_at.clear();
                o.ext_panic = Some((g.r.range(1, o.indices.len() as u64), g.r.pct(50)));
            }
        }
    }
    sc
}

fn history(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let n = g.n(160);
    let mut ops: Vec<OpSpec> = vec![];
    let steps = g.r.us(2, 6);
    for _ in 0..steps {
        let op = usable(g.pick_op(ALL), n);
        if g.r.pct(40) {
            let mut a = g.op(Op::Arrange, n);
            a.needle = g.r.below(1000) as u32;
            ops.push(a);
        }
        ops.push(g.op(op, n));
    }
    let two = g.r.pct(35);
    let mut sc = if two {
        let n2 = g.n(100);
        let mut other = vec![];
        for _ in 0..g.r.us(1, 4) {
            let op = usable(g.pick_op(ALL), n2);
            other.push(g.op(op, n2));
        }
        let (parent, clients) = g.layout(&[n, n2], elem, vec![ops, other]);
        let (knobs, cfg) = (g.knobs(), g.sched());
        Scenario { prop: prop.into(), seed, elem, parent, knobs, world: true, cfg, yields: 1, clients }
    } else {
        g.single(prop, seed, elem, n, ops, true)
    };
    let infos = probe(&sc);
    // Faults in the first client only, each followed by a retry.
    let cl = &mut sc.clients[0];
    let mut out: Vec<OpSpec> = vec![];
    for (i, o) in std::mem::take(&mut cl.ops).into_iter().enumerate() {
        let info = &infos[0][i];
        let mut f = o.clone();
        match g.r.below(10) {
            0..=4 if info.calls > 0 && o.op != Op::Arrange => {
                f.panic_at = vec![g.point(info.calls)];
                if g.r.pct(30) {
                    f.panic_at.push(f.panic_at[0] + 1 + g.r.below(10));
                }
            }
            5 if matches!(o.op, Op::Sort | Op::SortBy | Op::SortByKey) => f.alloc_fail = Some((g.r.range(1, 3), 9)),
            5 | 6 if o.op.many() => {
                f.indices = corrupt(&mut g.r, n, &o.indices);
                f.corrupt = true;
            }
            7 if matches!(o.op, Op::SelMany | Op::SelManyBy | Op::SelManyByKey) && !o.indices.is_empty() => {
                f.ext_panic = Some((g.r.range(1, o.indices.len() as u64), g.r.pct(50)));
            }
            _ => {}
        }
        if f.faulty() {
            out.push(f.clone());
            if g.r.pct(25) {
                // Crash again before succeeding.
                if let Some(k) = f.panic_at.first_mut() {
                    *k = 1 + *k / 2;
                }
                out.push(f);
            }
        }
        out.push(o);
    }
    // In the end everything sorts.
    let last = *g.r.pick(&[Op::ParSortBy, Op::SortBy, Op::ParUnstableBy, Op::UnstableBy]);
    out.push(g.op(last, n));
    cl.ops = out;
    sc
}

fn concurrent(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let k = match g.r.below(10) {
        0..=4 => 2,
        5..=7 => 3,
        8 => 4,
        _ => 1,
    };
    let mut ns = vec![];
    let mut all = vec![];
    let max = if k < 3 { 200 } else { 120 };
    let same = g.r.pct(30);
    for _ in 0..k {
        let n = if same && !ns.is_empty() { ns[0] } else { g.n(max) };
        let mut ops = vec![];
        for _ in 0..g.r.us(1, 3) {
            let op = usable(g.pick_op(ALL), n);
            if op.query() && g.r.pct(75) {
                let s = *g.r.pick(&[Op::SortBy, Op::ParSortBy, Op::UnstableBy, Op::ParUnstableBy]);
                let mut s = g.op(s, n);
                s.desc = false;
                ops.push(s);
            }
            ops.push(g.op(op, n));
        }
        ns.push(n);
        all.push(ops);
    }
    let (parent, clients) = g.layout(&ns, elem, all);
    let (knobs, cfg) = (g.knobs(), g.sched());
    Scenario { prop: prop.into(), seed, elem, parent, knobs, world: true, cfg, yields: 1, clients }
}

fn lies(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.elem();
    let n = if g.r.pct(2) { g.r.us(400, 1500) } else { g.n(300) };
    let op = usable(g.pick_op(&[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT, SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT, SEQ_SELECT, QUERIES, DEDUPS]), n);
    let world = op.par();
    let mut o = g.op(op, n);
    let est = (n as u64 + 1) * 10;
    o.lie = Some(g.lie(est));
    if op.cached() && g.r.pct(70) {
        o.key_lie = Some((1 + g.r.below(est), g.r.below(3) as u8, g.r.below(1 << 30)));
        if g.r.pct(50) {
            o.lie = None;
        }
    }
    let mut ops = vec![o];
    if g.r.pct(30) {
        let op = usable(g.pick_op(&[SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT]), n);
        let mut o = g.op(op, n);
        o.lie = Some(g.lie(est));
        ops.push(o);
    }
    g.single(prop, seed, elem, n, ops, world)
}

fn adversary(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let par = g.r.pct(25);
    let n = match g.r.below(20) {
        0 => g.r.logu(5_000, if g.thorough { 60_000 } else { 20_000 }) as usize,
        1..=3 => g.r.logu(1_000, 5_000) as usize,
        4..=6 => (*g.r.pick(EDGES)).max(2),
        _ => g.r.logu(8, 1_500) as usize,
    };
    let op = if par {
        *g.r.pick(&[Op::ParSortBy, Op::ParUnstableBy, Op::ParUnstableBy, Op::ParSelManyBy])
    } else {
        *g.r.pick(&[Op::SortBy, Op::UnstableBy, Op::UnstableBy, Op::UnstableBy, Op::SelBy, Op::SelBy, Op::SelBy, Op::SelManyBy])
    };
    let mut o = g.op(op, n);
    o.desc = false;
    if op.single() && g.r.pct(60) {
        // Where the adversary hurts most.
        o.index = if g.r.pct(50) { n / 2 } else { n - 1 - g.r.us(0, n / 8) };
    }
    let n = if op.many() && g.r.pct(8) {
        // So many indices that time proportional to their number would be noticed.
        let n = g.r.logu(5_000, 20_000) as usize;
        let m = g.r.us(n / 2, n);
        o.indices = g.indices(n, m);
        n
    } else if op.many() {
        let m = 1 + g.r.below(6) as usize;
        o.indices = g.indices(n, m);
        n
    } else {
        n
    };
    if op.many() {
        o.ind_stride = 1;
    }
    let solid = match g.r.below(4) {
        0 | 1 => 0,
        2 => g.r.us(0, n / 4),
        _ => g.r.us(0, n),
    };
    let flip = g.r.pct(30);
    if flip && op.single() && g.r.pct(60) {
        o.index = n - 1 - o.index;
    }
    o.adv = Some((flip, solid as u32, g.r.below(1 << 30)));
    let world = op.par();
    let mut sc = g.single(prop, seed, ElemKind::Mid, n, vec![o], world);
    // The limits are what is tested: leave them alone.
    sc.knobs[4] = MAX;
    sc.knobs[5] = MAX;
    if n > 2500 {
        sc.cfg.gap = sc.cfg.gap.max(100);
    }
    sc
}

fn alloc_fail(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let n = match g.r.below(40) {
        0 => g.r.logu(2_000, 30_000) as usize,
        1..=4 => g.r.us(400, 2_000),
        _ => g.n(400),
    };
    let mut ops = vec![];
    let ops_set = [Op::Sort, Op::SortBy, Op::SortByKey];
    for _ in 0..if n > 1500 { 1 } else { g.r.us(1, 3) } {
        let op = *g.r.pick(&ops_set);
        ops.push(g.op(op, n));
    }
    let mut sc = g.single(prop, seed, elem, n, ops, false);
    if g.r.pct(60) {
        // Many runs, of increasing length.
        sc.clients[0].keys = Keys::Gen { pattern: *g.r.pick(&[7, 8, 9]), seed: g.r.below(1 << 30), distinct: 30_000 };
    }
    let infos = probe(&sc);
    let cl = &mut sc.clients[0];
    let mut out = vec![];
    for (i, o) in std::mem::take(&mut cl.ops).into_iter().enumerate() {
        let info = &infos[0][i];
        let mut f = o.clone();
        if info.requests > 0 {
            let k = g.r.range(1, info.requests);
            f.alloc_fail = Some((k, if g.r.pct(50) { k + 1 } else { u64::MAX }));
            if g.r.pct(25) && info.calls > 0 {
                f.panic_at = vec![g.point(info.calls)];
            }
            out.push(f.clone());
            if g.r.pct(20) {
                f.panic_at = vec![g.point(info.calls)];
                f.alloc_fail = None;
                out.push(f);
            }
        }
        out.push(o);
        let mut a = g.op(Op::Arrange, n);
        a.needle = g.r.below(1000) as u32;
        out.push(a);
    }
    cl.ops = out;
    sc
}

fn outage(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.elem();
    let n = match g.r.below(30) {
        0 => g.r.logu(1_500, 20_000) as usize,
        1..=3 => g.r.us(400, 1_500),
        _ => g.n(400),
    };
    let mut ops = vec![];
    for _ in 0..if n > 1500 { 1 } else { g.r.us(1, 4) } {
        let op = usable(g.pick_op(IN_PLACE), n);
        let mut a = g.op(Op::Arrange, n);
        a.needle = if op.query() { 3 + 4 * g.r.below(9) as u32 } else { g.r.below(1000) as u32 };
        ops.push(a);
        ops.push(g.op(op, n));
    }
    let mut sc = g.single(prop, seed, elem, n, ops, false);
    let infos = if elem == ElemKind::Zst { vec![vec![Default::default(); 16]] } else { probe(&sc) };
    for (i, o) in sc.clients[0].ops.iter_mut().enumerate() {
        if o.op != Op::Arrange {
            let calls: u64 = infos[0][i].calls;
            o.outage = Some(if calls == 0 || g.r.pct(50) { 0 } else { g.point(calls) });
        }
    }
    sc
}

/// One parallel operation, or several at a time, with counted memory or without any.
fn par_memory(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let (n, real) = g.par_n(400);
    let op = g.pick_op(&[PAR_STABLE, PAR_STABLE, PAR_UNSTABLE, PAR_SELECT]);
    let ops = vec![g.op(op, n)];
    let mut sc = g.single(prop, seed, elem, n, ops, true);
    if real {
        g.real(&mut sc);
    }
    if op.is(PAR_STABLE) {
        if g.r.pct(50) {
            add_panics(g, &mut sc, 100, 35);
        }
    } else {
        let infos = probe(&sc);
        let calls: Vec<Vec<u64>> = infos.iter().map(|i| i.iter().map(|i| i.calls).collect()).collect();
        starve(g, &mut sc, &calls);
    }
    sc
}
/// No memory from some instant on for operations which need none.
fn starve(g: &mut G, sc: &mut Scenario, calls: &[Vec<u64>]) {
    for (c, cl) in sc.clients.iter_mut().enumerate() {
        for (i, o) in cl.ops.iter_mut().enumerate() {
            if o.op.many() {
                o.spare = o.indices.len() + g.r.us(0, 3);
            }
            o.outage = Some(if calls[c][i] == 0 || g.r.pct(50) { 0 } else { g.point(calls[c][i]) });
        }
    }
}

fn cached(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let n = match g.r.below(200) {
        0 if g.r.pct(if g.thorough { 60 } else { 25 }) => *g.r.pick(&[65_534, 65_535, 65_536, 65_537, 66_000]),
        1..=30 => *g.r.pick(&[253, 254, 255, 256, 257, 258, 300]),
        31..=33 => g.r.logu(400, 4_000) as usize,
        _ => g.n(260),
    };
    let op = if g.r.pct(50) { Op::ParSortCached } else { Op::SortCached };
    let mut o = g.op(op, n);
    if g.r.pct(35) {
        o.lie = Some((1 + if g.r.pct(50) { 0 } else { g.r.below(n as u64 + 1) }, g.r.below(2) as u8, g.r.below(1 << 30)));
    }
    let mut sc = g.single(prop, seed, ElemKind::Mid, n, vec![o], op.par());
    if n > 5000 {
        sc.cfg.gap = 5000;
        sc.clients[0].ops[0].kty = *g.r.pick(&[16, 16, 32, 64]);
        return sc;
    }
    let lie = sc.clients[0].ops[0].lie;
    if g.r.pct(70) {
        add_panics(g, &mut sc, 100, if op.par() { 30 } else { 0 });
        let o = &mut sc.clients[0].ops[0];
        o.lie = lie;
        if g.r.pct(40) && n > 0 && !o.panic_at.is_empty() {
            // In the key function.
            o.panic_at = vec![g.r.range(1, n as u64)];
        }
    }
    if g.r.pct(30) {
        let mut again = sc.clients[0].ops[0].clone();
        again.panic_at.clear();
        sc.clients[0].ops.push(again);
    }
    sc
}

fn exclusive(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    if g.r.pct(30) {
        // Sequential operations: side effects survive panics.
        let mut sc = seq_panic(g, prop, seed, &[SEQ_STABLE, SEQ_UNSTABLE, SEQ_SELECT, DEDUPS]);
        if g.r.pct(30) {
            for o in &mut sc.clients[0].ops {
                o.panic_at.clear();
            }
        }
        return sc;
    }
    let k = if g.r.pct(25) { 2 } else { 1 };
    let (mut ns, mut all) = (vec![], vec![]);
    for _ in 0..k {
        let n = g.n(250);
        let op = if g.r.pct(85) { g.pick_op(&[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT]) } else { usable(g.pick_op(ALL), n) };
        ns.push(n);
        all.push(vec![g.op(op, n)]);
    }
    let (parent, clients) = g.layout(&ns, elem, all);
    let (knobs, mut cfg) = (g.knobs(), g.sched());
    if g.r.pct(60) {
        cfg.gap = g.r.us(1, 8) as u32;
    }
    let yields = *g.r.pick(&[1, 2, 2, 3]);
    let mut sc = Scenario { prop: prop.into(), seed, elem, parent, knobs, world: true, cfg, yields, clients };
    if g.r.pct(40) {
        add_panics(g, &mut sc, 70, 20);
    }
    sc
}

fn bad_indices(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.elem();
    let n = g.n(150);
    let par = g.r.pct(55);
    let op = g.pick_op(if par { &[PAR_SELECT] } else { &[&[Op::SelMany, Op::SelManyBy, Op::SelManyByKey]] });
    let mut o = g.op(op, n);
    if g.r.pct(95) {
        o.indices = corrupt(&mut g.r, n, &o.indices);
        o.corrupt = true;
    }
    let mut sc = g.single(prop, seed, elem, n, vec![o], par);
    if g.r.pct(50) {
        sc.knobs[3] = g.r.us(0, 6);
    }
    sc
}

fn deterministic(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let k = match g.r.below(10) {
        0..=5 => 1,
        6..=8 => 2,
        _ => 3,
    };
    let world = k > 1 || g.r.pct(30);
    let (mut ns, mut all) = (vec![], vec![]);
    for _ in 0..k {
        let n = match g.r.below(30) {
            0 => g.r.logu(500, 4_000) as usize,
            _ => g.n(400),
        };
        let mut ops = vec![];
        for _ in 0..g.r.us(1, 4) {
            let mut a = g.op(Op::Arrange, n);
            a.needle = if g.r.pct(50) { 0 } else { g.r.below(1000) as u32 };
            ops.push(a);
            let op = if g.r.pct(85) { usable(g.pick_op(&[SEQ_UNSTABLE, SEQ_SELECT]), n) } else { usable(g.pick_op(ALL), n) };
            let mut o = g.op(op, n);
            let est = (n as u64 + 1) * 8;
            match g.r.below(12) {
                0 | 1 => o.panic_at = vec![g.point(est)],
                2 if !op.par() && op != Op::Reverse && n < 500 => o.lie = Some(g.lie(est)),
                3 if matches!(op, Op::UnstableBy | Op::SelBy | Op::SelManyBy) => o.adv = Some((false, g.r.us(0, n) as u32, g.r.below(1 << 30))),
                _ => {}
            }
            ops.push(o);
        }
        ns.push(n);
        all.push(ops);
    }
    let (parent, clients) = g.layout(&ns, elem, all);
    let (knobs, cfg) = (g.knobs(), if world { g.sched() } else { g.still() });
    Scenario { prop: prop.into(), seed, elem, parent, knobs, world, cfg, yields: 1, clients }
}

/// Most workers are occupied by something else for as long as any caller needs.
fn busy_pool(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let k = *g.r.pick(&[1, 1, 1, 2, 2, 3]);
    let (mut ns, mut all) = (vec![], vec![]);
    let mut large = false;
    for _ in 0..k {
        let (n, real) = if k == 1 { g.par_n(400) } else { (g.n(200), false) };
        large |= real;
        let mut ops = vec![];
        for _ in 0..if real { 1 } else { g.r.us(1, 3) } {
            let op = if g.r.pct(70) { g.pick_op(&[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT]) } else { usable(g.pick_op(ALL), n) };
            if !ops.is_empty() || op.query() {
                let mut a = g.op(Op::Arrange, n);
                a.needle = if op.query() { 3 + 4 * g.r.below(9) as u32 } else { g.r.below(1000) as u32 };
                ops.push(a);
            }
            ops.push(g.op(op, n));
        }
        ns.push(n);
        all.push(ops);
    }
    let (parent, clients) = g.layout(&ns, elem, all);
    let (knobs, mut cfg) = (g.knobs(), g.sched());
    if g.r.pct(85) {
        cfg.workers = cfg.workers.max(2);
        cfg.occupied = g.occupied(cfg.workers);
    }
    let mut sc = Scenario { prop: prop.into(), seed, elem, parent, knobs, world: true, cfg, yields: 1, clients };
    if large {
        g.real(&mut sc);
    }
    if g.r.pct(15) {
        add_panics(g, &mut sc, 50, 20);
    }
    sc
}

/// Parallel operations under any schedule, for comparison with the same ones outside of the pool.
fn same_work(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let elem = g.sized();
    let k = *g.r.pick(&[1, 1, 1, 2]);
    let (mut ns, mut all) = (vec![], vec![]);
    let mut large = false;
    for _ in 0..k {
        let (n, real) = if k == 1 { g.par_n(400) } else { (g.n(200), false) };
        large |= real;
        let mut ops = vec![];
        for _ in 0..if !real && g.r.pct(25) { 2 } else { 1 } {
            if !ops.is_empty() {
                let mut a = g.op(Op::Arrange, n);
                a.needle = g.r.below(1000) as u32;
                ops.push(a);
            }
            let op = g.pick_op(&[PAR_STABLE, PAR_UNSTABLE, PAR_SELECT]);
            ops.push(g.op(op, n));
        }
        ns.push(n);
        all.push(ops);
    }
    let (parent, clients) = g.layout(&ns, elem, all);
    let (knobs, cfg) = (g.knobs(), g.sched());
    let mut sc = Scenario { prop: prop.into(), seed, elem, parent, knobs, world: true, cfg, yields: 1, clients };
    if large {
        g.real(&mut sc);
    }
    sc
}

/// One parallel operation on many different elements in random order, a fair schedule, several workers.
fn shared_work(g: &mut G, prop: &str, seed: u64) -> Scenario {
    let op = g.pick_op(&[PAR_STABLE, PAR_STABLE, PAR_UNSTABLE, PAR_SELECT]);
    let real = !g.hooked || op.cached() || g.r.pct(30);
    let n = if real { g.r.logu(24_000, if g.thorough || g.r.clone().pct(8) { 220_000 } else { 60_000 }) } else { g.r.logu(3_000, 12_000) } as usize;
    let mut o = g.op(op, n);
    if op.many() {
        // Evenly distributed, or nearly so.
        let m = if real { g.r.us(128, 1000) } else { g.r.us(128, 300) };
        o.indices = (0..m).map(|i| i * n / m + g.r.us(0, n / m - 1)).collect();
    }
    if o.kty != 64 && !op.cached() {
        o.kty = 64;
    }
    if op.cached() {
        o.kty = *g.r.pick(&[32, 64]);
    }
    let elem = *g.r.pick(&[ElemKind::Mid, ElemKind::Mid, ElemKind::Big]);
    let mut sc = g.single(prop, seed, elem, n, vec![o], true);
    sc.clients[0].keys = Keys::Gen { pattern: 0, seed: g.r.below(1 << 40), distinct: 1 << 24 };
    sc.knobs = [MAX; KNOBS];
    if !real {
        sc.knobs[0] = g.r.us(20, 100);
        sc.knobs[1] = g.r.us(8, 100);
        sc.knobs[2] = g.r.us(20, 100);
        sc.knobs[3] = g.r.us(8, 40);
    }
    let workers = g.r.us(6, 16);
    sc.cfg = Config { workers, kind: Kind::RoundRobin, seed: g.r.below(1 << 48), gap: if real { 60 } else { g.r.us(1, 8) as u32 }, eager: 100, lazy: 0, stalls: vec![], occupied: vec![], explicit: None };
    sc.clients[0].ops[0].inside = g.r.pct(40);
    if g.r.pct(25) {
        let free = g.r.us(4, workers);
        sc.cfg.occupied = (free..workers).map(|t| (t as u32, 0)).collect();
    }
    sc
}
