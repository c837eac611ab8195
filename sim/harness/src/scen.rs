//! Scenarios: everything one run depends on, as data. A scenario (with its recorded schedule) is
//! the replay file of the run.

use crate::rng::{hash2, Rng};
use rayon_core::sim::{Config, Kind};

macro_rules! ops {
    ($($name:ident),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
        pub enum Op { #[default] $($name),* }
        pub const OPS: &[Op] = &[$(Op::$name),*];
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$name => stringify!($name)),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $(stringify!($name) => Some(Op::$name),)* _ => None } }
        }
    };
}
ops!(
    Arrange, // Harness only: puts the elements into an order given by `needle` (0: original).
    ParSort, ParSortBy, ParSortByKey, ParSortCached, ParUnstable, ParUnstableBy, ParUnstableByKey, ParSelMany, ParSelManyBy,
    ParSelManyByKey, Sort, SortBy, SortByKey, SortCached, Unstable, UnstableBy, UnstableByKey, SelMany, SelManyBy, SelManyByKey, Sel,
    SelBy, SelByKey, IsSorted, IsSortedBy, IsSortedByKey, PPoint, Contains, BSearch, BSearchBy, BSearchByKey, Dedup, DedupBy, DedupByKey,
    Reverse
);
use Op::*;
pub const PAR_STABLE: &[Op] = &[ParSort, ParSortBy, ParSortByKey, ParSortCached];
pub const PAR_UNSTABLE: &[Op] = &[ParUnstable, ParUnstableBy, ParUnstableByKey];
pub const PAR_SELECT: &[Op] = &[ParSelMany, ParSelManyBy, ParSelManyByKey];
pub const SEQ_STABLE: &[Op] = &[Sort, SortBy, SortByKey, SortCached];
pub const SEQ_UNSTABLE: &[Op] = &[Unstable, UnstableBy, UnstableByKey];
pub const SEQ_SELECT: &[Op] = &[Sel, SelBy, SelByKey, SelMany, SelManyBy, SelManyByKey];
pub const QUERIES: &[Op] = &[IsSorted, IsSortedBy, IsSortedByKey, PPoint, Contains, BSearch, BSearchBy, BSearchByKey];
pub const DEDUPS: &[Op] = &[Dedup, DedupBy, DedupByKey];
impl Op {
    pub fn is(self, set: &[Op]) -> bool {
        set.contains(&self)
    }
    pub fn par(self) -> bool {
        self.is(PAR_STABLE) || self.is(PAR_UNSTABLE) || self.is(PAR_SELECT)
    }
    pub fn cached(self) -> bool {
        matches!(self, ParSortCached | SortCached)
    }
    pub fn stable(self) -> bool {
        self.is(PAR_STABLE) || self.is(SEQ_STABLE)
    }
    pub fn unstable(self) -> bool {
        self.is(PAR_UNSTABLE) || self.is(SEQ_UNSTABLE)
    }
    pub fn many(self) -> bool {
        self.is(PAR_SELECT) || matches!(self, SelMany | SelManyBy | SelManyByKey)
    }
    pub fn single(self) -> bool {
        matches!(self, Sel | SelBy | SelByKey)
    }
    pub fn query(self) -> bool {
        self.is(QUERIES)
    }
    pub fn dedup(self) -> bool {
        self.is(DEDUPS)
    }
    pub fn by_key(self) -> bool {
        matches!(self, ParSortByKey | ParUnstableByKey | ParSelManyByKey | SortByKey | UnstableByKey | SelManyByKey | SelByKey | IsSortedByKey | BSearchByKey | DedupByKey)
    }
    /// The comparator form of the operation, which every element type supports.
    pub fn basic(self) -> Op {
        match self {
            ParSort | ParSortBy | ParSortByKey | ParSortCached => ParSortBy,
            ParUnstable | ParUnstableBy | ParUnstableByKey => ParUnstableBy,
            ParSelMany | ParSelManyBy | ParSelManyByKey => ParSelManyBy,
            Sort | SortBy | SortByKey | SortCached => SortBy,
            Unstable | UnstableBy | UnstableByKey => UnstableBy,
            SelMany | SelManyBy | SelManyByKey => SelManyBy,
            Sel | SelBy | SelByKey => SelBy,
            IsSorted | IsSortedBy | IsSortedByKey => IsSortedBy,
            PPoint => PPoint,
            Contains | BSearch | BSearchBy | BSearchByKey => BSearchBy,
            Dedup | DedupBy | DedupByKey => DedupBy,
            Reverse => Reverse,
            Arrange => Arrange,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ElemKind {
    Tiny,
    Small,
    Mid,
    Big,
    Zst,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Keys {
    Gen { pattern: u8, seed: u64, distinct: u32 },
    List(Vec<u32>),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct OpSpec {
    pub op: Op,
    pub desc: bool,
    pub index: usize,
    pub indices: Vec<usize>,
    /// Stride of the index array: 1, 2, -1.
    pub ind_stride: i8,
    pub needle: u32,
    /// Key type of cached-key sorts; of by-key operations: 8 and 16 are objects, the latter with comparisons
    /// that are callbacks.
    pub kty: u8,
    /// Items in the collection beforehand, and additional capacity.
    pub pre: usize,
    pub spare: usize,
    pub panic_at: Vec<u64>,
    /// The collection panics at this item; before or after having taken it.
    pub ext_panic: Option<(u64, bool)>,
    pub lie: Option<(u64, u8, u64)>,
    pub key_lie: Option<(u64, u8, u64)>,
    /// Adversary: which side it hurts, and how many elements (random, by seed) are fixed beforehand.
    pub adv: Option<(bool, u32, u64)>,
    /// Total allocator outage from callback k on (0: from the start).
    pub outage: Option<u64>,
    /// Allocation requests from..to fail.
    pub alloc_fail: Option<(u64, u64)>,
    /// The index list is corrupted: the call must panic.
    pub corrupt: bool,
    /// The bucket relation of deduplication exchanges its elements in one of so many calls, by seed.
    pub mutate: Option<(u64, u64)>,
    /// One of so many callbacks forks and joins tasks of its own while it holds its elements, by seed.
    pub nest: Option<(u64, u64)>,
    /// One of so many callbacks runs an operation of the crate on an array of its own, by seed.
    pub again: Option<(u64, u64)>,
    /// The call is made by a task of the pool instead of from outside.
    pub inside: bool,
    /// The call is made with so many KiB of stack left, if not zero.
    pub stack: usize,
    /// The call is made by a destructor while its thread unwinds from another panic.
    pub unwind: bool,
}
impl OpSpec {
    pub fn faulty(&self) -> bool {
        !self.panic_at.is_empty() || self.ext_panic.is_some() || self.lie.is_some() || self.key_lie.is_some() || self.alloc_fail.is_some() || self.corrupt
    }
    pub fn clear_faults(&mut self) {
        self.panic_at.clear();
        self.ext_panic = None;
        self.lie = None;
        self.key_lie = None;
        self.alloc_fail = None;
        self.outage = None;
        self.nest = None;
        self.again = None;
        self.inside = false;
        self.stack = 0;
        self.unwind = false;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ClientSpec {
    pub n: usize,
    pub keys: Keys,
    /// Element i of the view is at parent position off + i * stride.
    pub off: usize,
    pub stride: isize,
    pub ops: Vec<OpSpec>,
}

pub const KNOBS: usize = 7;
#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub elem: ElemKind,
    pub parent: usize,
    pub knobs: [usize; KNOBS],
    pub world: bool,
    pub cfg: Config,
    /// Yield points within every callback.
    pub yields: u8,
    pub clients: Vec<ClientSpec>,
}

pub const PATTERNS: u8 = 14;
pub fn gen_keys(pattern: u8, seed: u64, distinct: u32, n: usize) -> Vec<u32> {
    let mut r = Rng::new(seed);
    let d = distinct.max(1) as u64;
    let lim = |x: u64| (x % d) as u32;
    let nn = n.max(1) as u64;
    let scale = |i: usize| ((i as u64 * d) / nn) as u32;
    match pattern {
        0 => (0..n).map(|_| lim(r.next() >> 8)).collect(),
        1 => (0..n).map(scale).collect(),
        2 => (0..n).map(|i| scale(n - 1 - i)).collect(),
        3 => {
            // Ascending with a few disturbances.
            let mut v: Vec<u32> = (0..n).map(scale).collect();
            for _ in 0..1 + n / 20 {
                if n > 1 {
                    let (a, b) = (r.below(nn) as usize, r.below(nn) as usize);
                    v.swap(a, b);
                }
            }
            v
        }
        4 => vec![lim(seed); n],
        5 => (0..n).map(|i| scale(if i % 2 == 0 { i } else { n - i })).collect(),
        6 => (0..n).map(|i| scale(if i < n / 2 { 2 * i } else { 2 * (n - i).min(n - 1) }.min(n - 1))).collect(),
        7 | 8 | 9 => {
            // Ascending or strictly descending runs; 7: random, 8: Fibonacci-like, 9: shrinking.
            let mut v = Vec::with_capacity(n);
            let (mut f0, mut f1) = (10usize, 11usize);
            let mut left = n;
            while v.len() < n {
                let len = match pattern {
                    7 => r.us(1, 1 + (n / 3).clamp(1, 64)),
                    8 => {
                        let f = f0 + f1;
                        f0 = f1;
                        f1 = f;
                        f0
                    }
                    _ => {
                        let l = (left / 2).max(11);
                        left -= l.min(left);
                        l
                    }
                }
                .min(n - v.len());
                let base = r.below(d);
                let up = r.pct(60);
                for i in 0..len as u64 {
                    let x = (base + i * (1 + seed % 3)) % (2 * d);
                    v.push(if up { x } else { 2 * d + 70000 - x.min(2 * d) } as u32 % 65000);
                }
            }
            v
        }
        10 => {
            // Few different values, one dominating.
            (0..n).map(|_| if r.pct(80) { lim(seed) } else { lim(r.next()) }).collect()
        }
        11 => {
            // Already partitioned halves, rotated.
            let k = r.below(nn) as usize;
            (0..n).map(|i| scale((i + k) % n)).collect()
        }
        12 => (0..n).map(|i| lim((i as u64 * i as u64) ^ (hash2(seed, i as u64 / 8) % 4))).collect(),
        _ => {
            // Sorted blocks interleaved with noise.
            (0..n).map(|i| if (i / 16) % 2 == 0 { scale(i) } else { lim(r.next() >> 3) }).collect()
        }
    }
}

impl ClientSpec {
    pub fn key_list(&self) -> Vec<u32> {
        match &self.keys {
            Keys::Gen { pattern, seed, distinct } => gen_keys(*pattern, *seed, *distinct, self.n),
            Keys::List(l) => {
                let mut l = l.clone();
                l.resize(self.n, 0);
                l
            }
        }
    }
    pub fn pos(&self, i: usize) -> usize {
        (self.off as isize + i as isize * self.stride) as usize
    }
    /// First and last parent position.
    pub fn span(&self) -> (usize, usize) {
        if self.n == 0 {
            return (self.off, self.off);
        }
        let (a, b) = (self.pos(0), self.pos(self.n - 1));
        (a.min(b), a.max(b))
    }
}

// ---------------------------------------------------------------------------------------------

fn list<T: std::fmt::Display>(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn unlist<T: std::str::FromStr>(s: &str) -> Vec<T> {
    s.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}
pub fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Uniform => "uniform",
        Kind::Priority => "priority",
        Kind::RoundRobin => "roundrobin",
        Kind::RunToBlock => "runtoblock",
    }
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let c = &self.cfg;
        s += &format!("prop={} seed={}\n", self.prop, self.seed);
        s += &format!("elem={:?} parent={} yields={} world={} knobs={}\n", self.elem, self.parent, self.yields, self.world as u8, list(&self.knobs.map(|k| k as i64)));
        s += &format!(
            "sched workers={} kind={} seed={} gap={} eager={} lazy={} stalls={} occupied={}\n",
            c.workers,
            kind_name(c.kind),
            c.seed,
            c.gap,
            c.eager,
            c.lazy,
            list(&c.stalls.iter().map(|(a, b, c)| format!("{a}:{b}:{c}")).collect::<Vec<_>>()),
            list(&c.occupied.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>())
        );
        if let Some(e) = &c.explicit {
            s += &format!("schedule={}\n", list(&e.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>()));
        }
        for cl in &self.clients {
            let keys = match &cl.keys {
                Keys::Gen { pattern, seed, distinct } => format!("gen:{pattern}:{seed}:{distinct}"),
                Keys::List(l) => format!("list:{}", list(l)),
            };
            s += &format!("client n={} off={} stride={} keys={}\n", cl.n, cl.off, cl.stride, keys);
            for o in &cl.ops {
                s += &format!("op {}", o.op.name());
                if o.desc {
                    s += " desc=1";
                }
                if o.op.single() {
                    s += &format!(" index={}", o.index);
                }
                if o.op.many() {
                    s += &format!(" indices={} istride={} pre={} spare={}", list(&o.indices), o.ind_stride, o.pre, o.spare);
                }
                if o.op.query() || o.op == Arrange {
                    s += &format!(" needle={}", o.needle);
                }
                if o.op.cached() || o.kty != 64 {
                    s += &format!(" kty={}", o.kty);
                }
                if !o.panic_at.is_empty() {
                    s += &format!(" panic={}", list(&o.panic_at));
                }
                if let Some((k, a)) = o.ext_panic {
                    s += &format!(" extpanic={k},{}", a as u8);
                }
                if let Some((f, k, r)) = o.lie {
                    s += &format!(" lie={f},{k},{r}");
                }
                if let Some((f, k, r)) = o.key_lie {
                    s += &format!(" keylie={f},{k},{r}");
                }
                if let Some((f, k, r)) = o.adv {
                    s += &format!(" adv={},{k},{r}", f as u8);
                }
                if let Some(k) = o.outage {
                    s += &format!(" outage={k}");
                }
                if let Some((a, b)) = o.alloc_fail {
                    s += &format!(" allocfail={a},{b}");
                }
                if o.corrupt {
                    s += " corrupt=1";
                }
                if let Some((e, r)) = o.mutate {
                    s += &format!(" mutate={e},{r}");
                }
                if let Some((e, r)) = o.nest {
                    s += &format!(" nest={e},{r}");
                }
                if let Some((e, r)) = o.again {
                    s += &format!(" again={e},{r}");
                }
                if o.inside {
                    s += " inside=1";
                }
                if o.unwind {
                    s += " unwind=1";
                }
                if o.stack > 0 {
                    s += &format!(" stack={}", o.stack);
                }
                s += "\n";
            }
        }
        s
    }

    pub fn parse(text: &str) -> Result<Scenario, String> {
        let mut sc = Scenario {
            prop: String::new(),
            seed: 0,
            elem: ElemKind::Mid,
            parent: 0,
            knobs: [usize::MAX; KNOBS],
            world: true,
            cfg: Config { workers: 1, kind: Kind::RunToBlock, seed: 0, gap: 0, eager: 0, lazy: 0, stalls: vec![], occupied: vec![], explicit: None },
            yields: 1,
            clients: vec![],
        };
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let words: Vec<&str> = line.split_whitespace().collect();
            let get = |k: &str| words.iter().find_map(|w| w.strip_prefix(k).and_then(|w| w.strip_prefix('=')));
            fn num<T: std::str::FromStr>(s: Option<&str>) -> Result<T, String> {
                let s = s.ok_or("missing value")?;
                s.parse().map_err(|_| format!("bad value {s}"))
            }
            let triple = |k: &str| -> Option<(u64, u64, u64)> {
                let v: Vec<u64> = unlist(get(k)?);
                (v.len() == 3).then(|| (v[0], v[1], v[2]))
            };
            match words[0] {
                "sched" => {
                    sc.cfg.workers = num(get("workers"))?;
                    sc.cfg.kind = match get("kind").unwrap_or("") {
                        "uniform" => Kind::Uniform,
                        "priority" => Kind::Priority,
                        "roundrobin" => Kind::RoundRobin,
                        _ => Kind::RunToBlock,
                    };
                    sc.cfg.seed = num(get("seed"))?;
                    sc.cfg.gap = num(get("gap"))?;
                    sc.cfg.eager = num(get("eager"))?;
                    sc.cfg.lazy = num(get("lazy"))?;
                    for t in get("stalls").unwrap_or("").split(',').filter(|s| !s.is_empty()) {
                        let v: Vec<u64> = t.split(':').filter_map(|x| x.parse().ok()).collect();
                        sc.cfg.stalls.push((v[0] as u32, v[1], v[2]));
                    }
                    for t in get("occupied").unwrap_or("").split(',').filter(|s| !s.is_empty()) {
                        let v: Vec<u64> = t.split(':').filter_map(|x| x.parse().ok()).collect();
                        sc.cfg.occupied.push((v[0] as u32, v[1]));
                    }
                    let o = &mut sc.cfg.occupied;
                    if (0..sc.cfg.workers).all(|t| o.iter().any(|o| o.0 as usize == t)) {
                        // One must be free.
                        o.retain(|o| o.0 != 0);
                    }
                }
                "client" => {
                    let k = get("keys").ok_or("keys")?;
                    let keys = if let Some(l) = k.strip_prefix("list:") {
                        Keys::List(unlist(l))
                    } else {
                        let v: Vec<u64> = k.trim_start_matches("gen:").split(':').filter_map(|x| x.parse().ok()).collect();
                        Keys::Gen { pattern: v[0] as u8, seed: v[1], distinct: v[2] as u32 }
                    };
                    sc.clients.push(ClientSpec { n: num(get("n"))?, off: num(get("off"))?, stride: num(get("stride"))?, keys, ops: vec![] });
                }
                "op" => {
                    let mut o = OpSpec { op: Op::parse(words[1]).ok_or("unknown op")?, ind_stride: 1, kty: 64, ..Default::default() };
                    o.desc = get("desc") == Some("1");
                    o.corrupt = get("corrupt") == Some("1");
                    o.inside = get("inside") == Some("1");
                    o.unwind = get("unwind") == Some("1");
                    o.stack = get("stack").map_or(Some(0), |s| s.parse().ok()).ok_or("stack")?;
                    let pair = |k: &str| -> Option<(u64, u64)> {
                        let v: Vec<u64> = unlist(get(k)?);
                        (v.len() == 2).then(|| (v[0].max(1), v[1]))
                    };
                    o.mutate = pair("mutate");
                    o.nest = pair("nest");
                    o.again = pair("again");
                    if let Some(x) = get("index") {
                        o.index = num(Some(x))?;
                    }
                    if let Some(x) = get("indices") {
                        o.indices = unlist(x);
                        o.ind_stride = num(get("istride"))?;
                        o.pre = num(get("pre"))?;
                        o.spare = num(get("spare"))?;
                    }
                    if let Some(x) = get("needle") {
                        o.needle = num(Some(x))?;
                    }
                    if let Some(x) = get("kty") {
                        o.kty = num(Some(x))?;
                    }
                    if let Some(x) = get("panic") {
                        o.panic_at = unlist(x);
                    }
                    if let Some(x) = get("extpanic") {
                        let v: Vec<u64> = unlist(x);
                        o.ext_panic = Some((v[0], v[1] == 1));
                    }
                    o.lie = triple("lie").map(|(a, b, c)| (a, b as u8, c));
                    o.key_lie = triple("keylie").map(|(a, b, c)| (a, b as u8, c));
                    o.adv = triple("adv").map(|(a, b, c)| (a == 1, b as u32, c));
                    if let Some(x) = get("outage") {
                        o.outage = Some(num(Some(x))?);
                    }
                    if let Some(x) = get("allocfail") {
                        let v: Vec<u64> = unlist(x);
                        o.alloc_fail = Some((v[0], v[1]));
                    }
                    sc.clients.last_mut().ok_or("op before client")?.ops.push(o);
                }
                w if w.starts_with("prop=") => {
                    sc.prop = get("prop").unwrap().to_string();
                    sc.seed = num(get("seed"))?;
                }
                w if w.starts_with("elem=") => {
                    sc.elem = match get("elem").unwrap() {
                        "Tiny" => ElemKind::Tiny,
                        "Small" => ElemKind::Small,
                        "Big" => ElemKind::Big,
                        "Zst" => ElemKind::Zst,
                        _ => ElemKind::Mid,
                    };
                    sc.parent = num(get("parent"))?;
                    sc.yields = num(get("yields"))?;
                    sc.world = get("world") == Some("1");
                    let k: Vec<i64> = unlist(get("knobs").unwrap_or(""));
                    for (i, k) in k.iter().take(KNOBS).enumerate() {
                        sc.knobs[i] = *k as usize;
                    }
                }
                w if w.starts_with("schedule=") => {
                    let mut v = vec![];
                    for p in get("schedule").unwrap().split(',').filter(|s| !s.is_empty()) {
                        let mut it = p.split(':').filter_map(|x| x.parse::<u64>().ok());
                        if let (Some(a), Some(b)) = (it.next(), it.next()) {
                            v.push((a, b as u32));
                        }
                    }
                    sc.cfg.explicit = Some(v);
                }
                w => return Err(format!("unknown line {w}")),
            }
        }
        // The file may have been edited by hand: keep views within the parent.
        let mut end = sc.parent;
        for c in &sc.clients {
            if c.n > 0 && (c.off as isize + (c.n as isize - 1) * c.stride) < 0 {
                return Err("view starts before the parent".into());
            }
            end = end.max(c.span().1 + 1);
        }
        sc.parent = end;
        Ok(sc)
    }
}
