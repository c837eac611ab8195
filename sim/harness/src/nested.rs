//! Operations of the crate called by callbacks, on arrays of their own.

use crate::env::*;
use crate::rng::Rng;
use ndarray::ArrayViewMut1;
use ndarray_slice::Slice1Ext;
use rayon_core::sim::{self, TagGuard};
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

struct Crash;

const MAX: usize = 160;

/// What the callbacks of a nested operation do: crash at this one.
struct Plan {
    calls: std::sync::atomic::AtomicU64,
    crash: u64,
}
impl Plan {
    fn call(&self) {
        let k = 1 + self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if run().in_world && k % 16 == 3 {
            sim::yield_point();
        }
        if k == self.crash {
            resume_unwind(Box::new(Crash));
        }
    }
    fn cmp(&self, a: &u64, b: &u64) -> Ordering {
        self.call();
        (a >> 32).cmp(&(b >> 32))
    }
}

thread_local! {
    static DEEP: Cell<bool> = const { Cell::new(false) };
}

/// Operations a property is about; all are checked for conservation, those of the property for their result.
const OPS: &[(&str, &[&str])] = &[
    ("par_sort_by", &["C01", "C07", "C08"]),
    ("par_sort_unstable_by", &["C02", "C07", "C08"]),
    ("par_select_many", &["C03", "C07", "C08"]),
    ("sort_by", &["C07", "C08"]),
    ("sort_unstable_by", &["C07", "C08", "C12"]),
    ("select_nth", &["C07", "C08", "C12"]),
    ("sort_by_cached_key", &["C07", "C08"]),
    ("par_sort_by_cached_key", &["C01", "C07", "C08"]),
    ("partition_dedup", &["C07", "C08", "C12"]),
];

/// Runs an operation on a small array, decided by `seed`.
pub fn again(tag: u32, seed: u64) {
    // Operations called by operations called by operations would take too long.
    if DEEP.get() {
        return;
    }
    DEEP.set(true);
    struct Out(bool);
    impl Drop for Out {
        fn drop(&mut self) {
            DEEP.set(false);
        }
    }
    let _out = Out(true);
    let _t = TagGuard::new(0);
    let c = client_index(tag);
    let mut r = Rng::new(seed);
    let most = if r.pct(50) { 40 } else { MAX };
    let n = r.us(2, most);
    let distinct = r.range(2, 2 * n as u64);
    let shape = r.below(4);
    let mut a = [0u64; MAX];
    for (i, x) in a[..n].iter_mut().enumerate() {
        let key = match shape {
            0 => i as u64,
            1 => (n - i) as u64,
            _ => r.below(distinct),
        };
        *x = key << 32 | i as u64;
    }
    let mut want = a;
    want[..n].sort();
    let (name, props) = *r.pick(OPS);
    let judged = props.contains(&run().prop.as_str());
    let plan = Plan { calls: Default::default(), crash: if r.pct(30) { r.logu(1, 400) } else { 0 } };
    let back = r.pct(30);
    let at = r.us(0, n - 1);
    let indices: Vec<usize> = (0..n).filter(|_| r.pct(20)).collect();
    run().stats.reentered += 1;
    let mut bad = None;
    let done = catch_unwind(AssertUnwindSafe(|| {
        let mut v = ArrayViewMut1::from(&mut a[..n]);
        if back {
            v.invert_axis(ndarray::Axis(0));
        }
        let key = |v: &ArrayViewMut1<u64>, i: usize| v[i] >> 32;
        match name {
            "par_sort_by" => v.par_sort_by(|a, b| plan.cmp(a, b)),
            "sort_by" => v.sort_by(|a, b| plan.cmp(a, b)),
            "par_sort_unstable_by" => v.par_sort_unstable_by(|a, b| plan.cmp(a, b)),
            "sort_unstable_by" => v.sort_unstable_by(|a, b| plan.cmp(a, b)),
            "sort_by_cached_key" | "par_sort_by_cached_key" => {
                let f = |a: &u64| {
                    plan.call();
                    a >> 32
                };
                if name == "sort_by_cached_key" {
                    v.sort_by_cached_key(f)
                } else {
                    v.par_sort_by_cached_key(f)
                }
            }
            "select_nth" => {
                v.select_nth_unstable_by(at, |a, b| plan.cmp(a, b));
                if key(&v, at) != want[at] >> 32 {
                    bad = Some("selected a wrong element");
                }
                return;
            }
            "par_select_many" => {
                let mut out = vec![];
                v.par_select_many_nth_unstable_by(&ndarray::ArrayView1::from(&indices), &mut out, |a, b| plan.cmp(a, b));
                if out.len() != indices.len() || out.iter().zip(&indices).any(|(x, &i)| **x >> 32 != want[i] >> 32) {
                    bad = Some("selected wrong elements");
                }
                return;
            }
            _ => {
                // Consecutive duplicates.
                let keys: Vec<u64> = (0..n).map(|i| key(&v, i)).collect();
                let mut uniq = keys.clone();
                uniq.dedup();
                let (l, _) = v.partition_dedup_by(|a, b| plan.cmp(a, b) == Ordering::Equal);
                if l.len() != uniq.len() || l.iter().zip(&uniq).any(|(x, k)| x >> 32 != *k) {
                    bad = Some("deduplicated wrongly");
                }
                return;
            }
        }
        for i in 1..n {
            let (x, y) = (v[i - 1], v[i]);
            if x >> 32 > y >> 32 {
                bad = Some("is not sorted");
            } else if x >> 32 == y >> 32 && !name.contains("unstable") && (x < y) == back {
                bad = Some("is not stably sorted");
            }
        }
    }));
    if let Err(p) = done {
        if p.is::<Abort>() {
            resume_unwind(p);
        }
        if !p.is::<Crash>() {
            let text = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            violate(Class::Panic, c, format!("{name} called by a callback on {n} elements panicked: {text}"));
        }
    } else if let Some(text) = bad.filter(|_| judged) {
        violate(Class::Order, c, format!("{name} called by a callback on {n} elements {text}"));
    }
    a[..n].sort();
    if a != want {
        violate(Class::Perm, c, format!("{name} called by a callback lost elements"));
    }
}
