//! Calls of the code under test.

use crate::elem::*;
use crate::env::*;
use crate::scen::{Op, OpSpec};
use ndarray::{ArrayView1, ArrayViewMut1, Axis, ShapeBuilder};
use ndarray_slice::Slice1Ext;
use rayon_core::sim::TagGuard;

/// Collection for sequential bulk selection: never allocates while items are added.
pub struct Coll<T> {
    pub items: Vec<(usize, *mut T)>,
    /// Identities of the elements when they were given.
    pub ids: Vec<u32>,
    pub overflow: bool,
    pub count: u64,
    pub fail: Option<(u64, bool)>,
}
impl<'a, T: Elem> Extend<(usize, &'a mut T)> for Coll<T> {
    fn extend<I: IntoIterator<Item = (usize, &'a mut T)>>(&mut self, iter: I) {
        for (i, x) in iter {
            self.count += 1;
            let at = self.fail.map(|f| f.0);
            if self.fail.is_some_and(|f| !f.1) {
                on_extend(self.count, at);
            }
            if self.items.len() < self.items.capacity() {
                self.ids.push(handed(x));
                self.items.push((i, x as *mut T));
            } else {
                self.overflow = true;
            }
            if self.fail.is_some_and(|f| f.1) {
                on_extend(self.count, at);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> {
    Unit,
    Bool(bool),
    Point(usize),
    Search(Result<usize, usize>),
    /// Left: first address, length, address of last; selected; right likewise.
    Select([(usize, *const T, *const T); 2], *const T),
    Split([(usize, *const T, *const T); 2]),
}

fn ends<T>(v: &ArrayViewMut1<'_, T>) -> (usize, *const T, *const T) {
    match v.len() {
        0 => (0, std::ptr::null(), std::ptr::null()),
        n => (n, &v[0] as *const T, &v[n - 1] as *const T),
    }
}

/// # Safety
/// `first` is the address of element 0 of `n` elements at distance `stride`.
pub unsafe fn view<'a, T>(first: *mut T, n: usize, stride: isize) -> ArrayViewMut1<'a, T> {
    if stride < 0 && n > 0 {
        let p = first.offset((n as isize - 1) * stride);
        let mut v = ArrayViewMut1::from_shape_ptr([n].strides([(-stride) as usize]), p);
        v.invert_axis(Axis(0));
        v
    } else {
        ArrayViewMut1::from_shape_ptr([n].strides([stride.unsigned_abs().max(1)]), first)
    }
}

pub struct Args<'x, T: 'static> {
    pub first: *mut T,
    pub n: usize,
    pub stride: isize,
    pub needle: &'x T,
    pub indices: ArrayView1<'x, usize>,
    pub vec: &'x mut Vec<&'static mut T>,
    pub coll: &'x mut Coll<T>,
}

pub trait Dispatch: Elem + 'static {
    /// # Safety
    /// See [`view`].
    unsafe fn call(o: &OpSpec, a: Args<'_, Self>) -> Out<Self>;
}

unsafe fn basic<T: Elem + 'static>(op: Op, o: &OpSpec, a: Args<'_, T>) -> Out<T> {
    let mut v = view(a.first, a.n, a.stride);
    match op {
        Op::ParSortBy => v.par_sort_by(|a, b| cb_cmp(0, a, b)),
        Op::ParUnstableBy => v.par_sort_unstable_by(|a, b| cb_cmp(0, a, b)),
        Op::SortBy => v.sort_by(|a, b| cb_cmp(0, a, b)),
        Op::UnstableBy => v.sort_unstable_by(|a, b| cb_cmp(0, a, b)),
        Op::Reverse => v.reverse(),
        Op::ParSelManyBy => {
            // SAFETY: the elements outlive the collection.
            let v: &'static mut ArrayViewMut1<'static, T> = std::mem::transmute(&mut v);
            v.par_select_many_nth_unstable_by(&a.indices, a.vec, |a, b| cb_cmp(0, a, b))
        }
        Op::SelManyBy => v.select_many_nth_unstable_by(&a.indices, a.coll, |a, b| cb_cmp(0, a, b)),
        Op::SelBy => {
            let (l, m, r) = v.select_nth_unstable_by(o.index, |a, b| cb_cmp(0, a, b));
            return Out::Select([ends(&l), ends(&r)], m);
        }
        Op::IsSortedBy => return Out::Bool(v.is_sorted_by(|a, b| cb_le(a, b))),
        Op::PPoint => return Out::Point(v.partition_point(|a| cb_pred(a))),
        Op::BSearchBy => return Out::Search(v.binary_search_by(|a| cb_probe(a))),
        Op::DedupBy => {
            let (l, r) = v.partition_dedup_by(|a, b| cb_bucket(a, b));
            return Out::Split([ends(&l), ends(&r)]);
        }
        _ => unreachable!("operation not available for this element type"),
    }
    Out::Unit
}

impl Dispatch for Tiny {
    unsafe fn call(o: &OpSpec, a: Args<'_, Self>) -> Out<Self> {
        basic(o.op.basic(), o, a)
    }
}
impl Dispatch for Small {
    unsafe fn call(o: &OpSpec, a: Args<'_, Self>) -> Out<Self> {
        basic(o.op.basic(), o, a)
    }
}
impl Dispatch for Big {
    unsafe fn call(o: &OpSpec, a: Args<'_, Self>) -> Out<Self> {
        basic(o.op.basic(), o, a)
    }
}
impl Dispatch for Zst {
    unsafe fn call(o: &OpSpec, a: Args<'_, Self>) -> Out<Self> {
        basic(o.op.basic(), o, a)
    }
}
impl Dispatch for Mid {
    unsafe fn call(o: &OpSpec, a: Args<'_, Self>) -> Out<Self> {
        if o.op.basic() == o.op {
            return basic(o.op, o, a);
        }
        let mut v = view(a.first, a.n, a.stride);
        match o.op {
            Op::ParSort => v.par_sort(),
            _ if o.kty == 8 && o.op.by_key() => return by_object::<Silent>(o, a),
            _ if o.kty == 16 && o.op.by_key() => return by_object::<K32>(o, a),
            Op::ParSortByKey => v.par_sort_by_key(|a| cb_key(a)),
            Op::ParSortCached => match o.kty {
                1 => v.par_sort_by_cached_key(|a| cb_cached::<Unit, _>(a)),
                8 => v.par_sort_by_cached_key(|a| cb_cached::<K8, _>(a)),
                16 => v.par_sort_by_cached_key(|a| cb_cached::<K16, _>(a)),
                32 => v.par_sort_by_cached_key(|a| cb_cached::<K32, _>(a)),
                _ => v.par_sort_by_cached_key(|a| cb_cached::<K64, _>(a)),
            },
            Op::ParUnstable => v.par_sort_unstable(),
            Op::ParUnstableByKey => v.par_sort_unstable_by_key(|a| cb_key(a)),
            Op::ParSelMany => {
                let v: &'static mut ArrayViewMut1<'static, Mid> = std::mem::transmute(&mut v);
                v.par_select_many_nth_unstable(&a.indices, a.vec)
            }
            Op::ParSelManyByKey => {
                let v: &'static mut ArrayViewMut1<'static, Mid> = std::mem::transmute(&mut v);
                v.par_select_many_nth_unstable_by_key(&a.indices, a.vec, |a| cb_key(a))
            }
            Op::Sort => v.sort(),
            Op::SortByKey => v.sort_by_key(|a| cb_key(a)),
            Op::SortCached => match o.kty {
                1 => v.sort_by_cached_key(|a| cb_cached::<Unit, _>(a)),
                8 => v.sort_by_cached_key(|a| cb_cached::<K8, _>(a)),
                16 => v.sort_by_cached_key(|a| cb_cached::<K16, _>(a)),
                32 => v.sort_by_cached_key(|a| cb_cached::<K32, _>(a)),
                _ => v.sort_by_cached_key(|a| cb_cached::<K64, _>(a)),
            },
            Op::Unstable => v.sort_unstable(),
            Op::UnstableByKey => v.sort_unstable_by_key(|a| cb_key(a)),
            Op::SelMany => v.select_many_nth_unstable(&a.indices, a.coll),
            Op::SelManyByKey => v.select_many_nth_unstable_by_key(&a.indices, a.coll, |a| cb_key(a)),
            Op::Sel => {
                let (l, m, r) = v.select_nth_unstable(o.index);
                return Out::Select([ends(&l), ends(&r)], m);
            }
            Op::SelByKey => {
                let (l, m, r) = v.select_nth_unstable_by_key(o.index, |a| cb_key(a));
                return Out::Select([ends(&l), ends(&r)], m);
            }
            Op::IsSorted => return Out::Bool(v.is_sorted()),
            Op::IsSortedByKey => return Out::Bool(v.is_sorted_by_key(|a| cb_key(a))),
            Op::Contains => return Out::Bool(v.contains(a.needle)),
            Op::BSearch => return Out::Search(v.binary_search(a.needle)),
            Op::BSearchByKey => return Out::Search(v.binary_search_by_key(&o.needle, |a| cb_key(a))),
            Op::Dedup => {
                let (l, r) = v.partition_dedup();
                return Out::Split([ends(&l), ends(&r)]);
            }
            Op::DedupByKey => {
                let (l, r) = v.partition_dedup_by_key(|a| cb_key(&*a));
                return Out::Split([ends(&l), ends(&r)]);
            }
            _ => unreachable!(),
        }
        Out::Unit
    }
}

/// By-key operations with keys that are objects.
unsafe fn by_object<K: Key>(o: &OpSpec, a: Args<'_, Mid>) -> Out<Mid> {
    let mut v = view(a.first, a.n, a.stride);
    let key = cb_object::<K, Mid>;
    match o.op {
        Op::ParSortByKey => v.par_sort_by_key(key),
        Op::ParUnstableByKey => v.par_sort_unstable_by_key(key),
        Op::ParSelManyByKey => {
            let v: &'static mut ArrayViewMut1<'static, Mid> = std::mem::transmute(&mut v);
            v.par_select_many_nth_unstable_by_key(&a.indices, a.vec, key)
        }
        Op::SortByKey => v.sort_by_key(key),
        Op::UnstableByKey => v.sort_unstable_by_key(key),
        Op::SelManyByKey => v.select_many_nth_unstable_by_key(&a.indices, a.coll, key),
        Op::SelByKey => {
            let (l, m, r) = v.select_nth_unstable_by_key(o.index, key);
            return Out::Select([ends(&l), ends(&r)], m);
        }
        Op::IsSortedByKey => return Out::Bool(v.is_sorted_by_key(key)),
        Op::BSearchByKey => {
            let needle = object::<K>(o.needle);
            return Out::Search(v.binary_search_by_key(&needle, key));
        }
        Op::DedupByKey => {
            let (l, r) = v.partition_dedup_by_key(|a| key(&*a));
            return Out::Split([ends(&l), ends(&r)]);
        }
        _ => unreachable!(),
    }
    Out::Unit
}

/// Runs `f` as (part of) the operation with `tag`.
pub fn tagged<R>(tag: u32, f: impl FnOnce() -> R) -> R {
    let _t = TagGuard::new(tag);
    f()
}
