//! Random chains of view operations, applied to the library and to the model in lock step.

use mdarray::{DynRank, Rank, Strided, View, ViewMut};

use crate::model::*;
use crate::run::Case;

pub type SView<'a, T> = View<'a, T, DynRank, Strided>;
pub type SViewMut<'a, T> = ViewMut<'a, T, DynRank, Strided>;

/// Runs `$body` with `$x` bound to the view `$v` converted to static rank and strided layout (or
/// unchanged for rank above 6).
#[macro_export]
macro_rules! as_rank {
    ($v:expr, $r:expr, $x:ident => $body:expr) => {
        match $r {
            0 => { let $x = $v.into_mapping::<mdarray::Rank<0>, mdarray::Strided>(); $body }
            1 => { let $x = $v.into_mapping::<mdarray::Rank<1>, mdarray::Strided>(); $body }
            2 => { let $x = $v.into_mapping::<mdarray::Rank<2>, mdarray::Strided>(); $body }
            3 => { let $x = $v.into_mapping::<mdarray::Rank<3>, mdarray::Strided>(); $body }
            4 => { let $x = $v.into_mapping::<mdarray::Rank<4>, mdarray::Strided>(); $body }
            5 => { let $x = $v.into_mapping::<mdarray::Rank<5>, mdarray::Strided>(); $body }
            6 => { let $x = $v.into_mapping::<mdarray::Rank<6>, mdarray::Strided>(); $body }
            _ => { let $x = $v; $body }
        }
    };
}

/// As `as_rank` for owned tensors of dynamic rank.
#[macro_export]
macro_rules! as_rank_t {
    ($v:expr, $r:expr, $x:ident => $body:expr) => {
        match $r {
            0 => { let $x = $v.into_mapping::<mdarray::Rank<0>>(); $body }
            1 => { let $x = $v.into_mapping::<mdarray::Rank<1>>(); $body }
            2 => { let $x = $v.into_mapping::<mdarray::Rank<2>>(); $body }
            3 => { let $x = $v.into_mapping::<mdarray::Rank<3>>(); $body }
            4 => { let $x = $v.into_mapping::<mdarray::Rank<4>>(); $body }
            5 => { let $x = $v.into_mapping::<mdarray::Rank<5>>(); $body }
            6 => { let $x = $v.into_mapping::<mdarray::Rank<6>>(); $body }
            _ => { let $x = $v; $body }
        }
    };
}

type B = (std::ops::Bound<usize>, std::ops::Bound<usize>);

fn bounds(a: usize, b: usize) -> B {
    (std::ops::Bound::Included(a), std::ops::Bound::Excluded(b))
}

macro_rules! gen_chain {
    ($name:ident, $view:ident) => {
        pub fn $name<'a, T>(
            c: &mut Case,
            mut v: $view<'a, T, DynRank, Strided>,
            mut m: MV,
            steps: usize,
        ) -> ($view<'a, T, DynRank, Strided>, MV) {
            for _ in 0..steps {
                let rank = m.rank();
                match c.rng.below(10) {
                    0 if rank > 0 => {
                        let axis = c.rng.below(rank);
                        if m.dims[axis] > 0 {
                            let i = c.rng.below(m.dims[axis]);
                            c.log(|| format!("axis_at({axis}, {i})"));
                            v = v.into_axis_at(axis, i);
                            m = m.axis_at(axis, i).unwrap();
                        }
                    }
                    1 if rank > 0 => {
                        let axis = c.rng.below(rank);
                        let mid = c.rng.range(0, m.dims[axis]);
                        let second = c.rng.chance(1, 2);
                        c.log(|| format!("split_axis_at({axis}, {mid}) half {}", second as u8));
                        let (a, b) = v.into_split_axis_at(axis, mid);
                        let (p, q) = m.split(axis, mid).unwrap();
                        (v, m) = if second { (b, q) } else { (a, p) };
                    }
                    2 | 3 => {
                        let p = perm(&mut c.rng, rank);
                        c.log(|| format!("permute({p:?})"));
                        m = m.permute(&p);
                        v = v.into_permuted(p);
                    }
                    4 => {
                        c.log(|| "reorder()".into());
                        m = m.reversed();
                        v = v.into_reordered();
                    }
                    5 if rank == 2 && c.rng.chance(1, 2) => {
                        let k = c.rng.irange(-(m.dims[0] as isize), m.dims[1] as isize);
                        c.log(|| format!("diag({k})"));
                        m = m.diag(k).unwrap();
                        v = v.into_diag(k).into_mapping();
                    }
                    _ if rank > 0 && rank <= 6 => {
                        let keep = c.rng.chance(2, 3);
                        let s: Vec<(usize, usize, isize)> = m
                            .dims
                            .iter()
                            .map(|&d| {
                                if keep && d > 1 {
                                    // Mostly full or almost full ranges.
                                    let a = c.rng.range(0, 1.min(d - 1));
                                    let b = d - c.rng.range(0, 1.min(d - 1 - a));
                                    (a, b, if c.rng.chance(1, 3) { -1 } else { 1 })
                                } else {
                                    let (a, b) = range(&mut c.rng, d);
                                    (a, b, step(&mut c.rng))
                                }
                            })
                            .collect();
                        let sel: Vec<Sel> = s.iter().map(|&(a, b, n)| Sel::Step(a, b, n)).collect();
                        c.log(|| format!("view({sel:?})"));
                        m = m.select(&sel).unwrap();
                        let st = |i: usize| mdarray::step(bounds(s[i].0, s[i].1), s[i].2);
                        v = match rank {
                            1 => v.into_mapping::<Rank<1>, Strided>().into_view(st(0)).into_mapping(),
                            2 => v
                                .into_mapping::<Rank<2>, Strided>()
                                .into_view(st(0), st(1))
                                .into_mapping(),
                            3 => v
                                .into_mapping::<Rank<3>, Strided>()
                                .into_view(st(0), st(1), st(2))
                                .into_mapping(),
                            4 => v
                                .into_mapping::<Rank<4>, Strided>()
                                .into_view(st(0), st(1), st(2), st(3))
                                .into_mapping(),
                            5 => v
                                .into_mapping::<Rank<5>, Strided>()
                                .into_view(st(0), st(1), st(2), st(3), st(4))
                                .into_mapping(),
                            _ => v
                                .into_mapping::<Rank<6>, Strided>()
                                .into_view(st(0), st(1), st(2), st(3), st(4), st(5))
                                .into_mapping(),
                        };
                    }
                    _ => {}
                }
            }
            (v, m)
        }
    };
}

gen_chain!(chain, View);
gen_chain!(chain_mut, ViewMut);

/// Signature of a view for coverage accounting.
pub fn sig(m: &MV) -> u64 {
    let mut x: Vec<u64> = m.dims.iter().map(|&d| d as u64).collect();
    x.push(m.idx.first().map_or(u64::MAX, |&i| i as u64));
    x.push(m.idx.last().map_or(u64::MAX, |&i| i as u64));
    x.push(m.idx.get(1).map_or(u64::MAX, |&i| i as u64));
    crate::rng::hash_all(&x)
}

/// Random base dimensions: mostly small, sometimes with one long dimension.
pub fn base_dims(c: &mut Case, lo: usize, hi: usize) -> Vec<usize> {
    let rank = c.rng.range(lo, hi);
    if hi >= 5 && lo < 2 && !c.small && c.rng.chance(1, 24) {
        // Many dimensions: only a few of them have more than one position.
        let rank = c.rng.range(9, 18);
        let mut d = vec![1; rank];
        for _ in 0..c.rng.range(0, 5) {
            let k = c.rng.below(rank);
            d[k] = c.rng.range(2, 3);
        }
        if c.rng.chance(1, 15) {
            d[c.rng.below(rank)] = 0;
        }
        return d;
    }
    if let Some(d) = c.rng.large_dims(rank) {
        return d;
    }
    if c.small {
        return c.rng.dims(rank, 24);
    }
    if rank > 0 && c.rng.chance(1, 12) {
        let mut d: Vec<usize> = (0..rank).map(|_| c.rng.range(1, 2)).collect();
        let k = c.rng.below(rank);
        d[k] = c.rng.range(10, 300);
        if product(&d) <= 1200 {
            return d;
        }
    }
    if c.rng.chance(1, 60) {
        return c.rng.big_dims(rank, 5000);
    }
    let cap = *c.rng.pick(&[30, 30, 30, 120, 120]);
    c.rng.dims(rank, cap)
}

/// Dimensions, strides and offset of an arbitrary shared view into a buffer of `n` elements: strides
/// may be zero, equal, negative or such that elements coincide.
pub fn any_strides(c: &mut Case, n: usize) -> (Vec<usize>, Vec<isize>, usize, MV) {
    loop {
        let rank = c.rng.range(1, if c.small { 3 } else { 5 });
        let dims: Vec<usize> = (0..rank).map(|_| if c.rng.chance(1, 25) { 0 } else { c.rng.range(1, 4) }).collect();
        let same = c.rng.irange(-3, 3);
        let how = c.rng.below(4);
        let strides: Vec<isize> = (0..rank)
            .map(|i| match how {
                0 => same,
                1 => *c.rng.pick(&[0, 1, -1, 2, -2, 3]),
                2 => c.rng.irange(-9, 9),
                // Dense except for one dimension.
                _ if c.rng.chance(1, 4) => c.rng.irange(-2, 2),
                _ => product(&dims[i + 1..]) as isize,
            })
            .collect();
        let ext = |sign: isize| -> isize { dims.iter().zip(&strides).map(|(&d, &s)| if s * sign > 0 { (d.max(1) as isize - 1) * s } else { 0 }).sum() };
        let (lo, hi) = (ext(-1), ext(1));
        if hi - lo >= n as isize {
            continue;
        }
        let off = (-lo) as usize + c.rng.range(0, (n as isize - 1 - (hi - lo)) as usize);
        let mut idx = Vec::new();
        each_index(&dims, |i| idx.push((off as isize + i.iter().zip(&strides).map(|(&i, &s)| i as isize * s).sum::<isize>()) as usize));
        c.log(|| format!("view with dimensions {dims:?}, strides {strides:?}, offset {off}"));
        return (dims.clone(), strides, off, MV { dims, idx });
    }
}

/// The view of the buffer with the given dimensions and strides.
pub fn view_strides<'a, T>(buf: &'a [T], dims: &[usize], strides: &[isize], off: usize) -> SView<'a, T> {
    use mdarray::{IntoShape, StridedMapping};
    unsafe { View::new_unchecked(buf.as_ptr().add(off), StridedMapping::new(dims.into_shape(), strides)) }
}

/// A strided arrangement of given elements inside a larger array: permuted dimensions, steps of
/// both signs and unused space around, so that the view from `view` has the wanted dimensions and
/// elements. With more than 6 dimensions only permuted.
pub struct Strider<T> {
    pub base: mdarray::Tensor<T, DynRank>,
    pub m: MV,
    perm: Vec<usize>,
    st: Vec<(usize, usize, isize)>,
}

macro_rules! step_view {
    ($v:expr, $st:expr) => {{
        let v = $v;
        let st = |i: usize| mdarray::step(bounds($st[i].0, $st[i].1), $st[i].2);
        match $st.len() {
            0 => v,
            1 => v.into_mapping::<Rank<1>, Strided>().into_view(st(0)).into_mapping(),
            2 => v.into_mapping::<Rank<2>, Strided>().into_view(st(0), st(1)).into_mapping(),
            3 => v.into_mapping::<Rank<3>, Strided>().into_view(st(0), st(1), st(2)).into_mapping(),
            4 => v
                .into_mapping::<Rank<4>, Strided>()
                .into_view(st(0), st(1), st(2), st(3))
                .into_mapping(),
            5 => v
                .into_mapping::<Rank<5>, Strided>()
                .into_view(st(0), st(1), st(2), st(3), st(4))
                .into_mapping(),
            6 => v
                .into_mapping::<Rank<6>, Strided>()
                .into_view(st(0), st(1), st(2), st(3), st(4), st(5))
                .into_mapping(),
            // More dimensions are only permuted.
            _ => v,
        }
    }};
}

impl<T> Strider<T> {
    pub fn new<I, F>(c: &mut Case, dims: &[usize], vals: I, mut other: F) -> Self
    where
        I: IntoIterator<Item = T>,
        F: FnMut() -> T,
    {
        let rank = dims.len();
        let p = if c.rng.chance(1, 3) { (0..rank).collect() } else { perm(&mut c.rng, rank) };
        let mut extended = 0;
        let (mut st, mut pd) = (Vec::new(), Vec::new());
        for &d in dims {
            if rank < 7 && extended < 2 && d < 40 && c.rng.chance(2, 3) {
                extended += 1;
                let n = c.rng.range(1, if d < 6 { 3 } else { 2 });
                let (lo, hi) = (c.rng.range(0, 2), c.rng.range(0, 1));
                let span = if d == 0 { 0 } else { (d - 1) * n + 1 };
                st.push((lo, lo + span, if c.rng.chance(1, 2) { -(n as isize) } else { n as isize }));
                pd.push(lo + span + hi);
            } else {
                st.push((0, d, if rank < 7 && c.rng.chance(1, 4) { -1 } else { 1 }));
                pd.push(d);
            }
        }
        let mut bd = vec![0; rank];
        for i in 0..rank {
            bd[p[i]] = pd[i];
        }
        let sel: Vec<Sel> = st.iter().map(|&(a, b, n)| Sel::Step(a, b, n)).collect();
        let m = MV::dense(&bd).permute(&p).select(&sel).unwrap();
        assert!(m.dims == dims);
        let mut slots: Vec<Option<T>> = (0..product(&bd)).map(|_| None).collect();
        let mut vals = vals.into_iter();
        for &i in &m.idx {
            slots[i] = Some(vals.next().unwrap());
        }
        let all: Vec<T> = slots.into_iter().map(|x| x.unwrap_or_else(&mut other)).collect();
        c.log(|| format!("strided {dims:?}: base {bd:?}, permuted {p:?}, steps {st:?}"));
        Strider { base: mdarray::Tensor::from(all).into_shape(&bd[..]), m, perm: p, st }
    }

    pub fn view(&self) -> SView<'_, T> {
        let v: SView<'_, T> = self.base.expr().into_mapping();
        step_view!(v.into_permuted(self.perm.clone()), self.st)
    }

    pub fn view_mut(&mut self) -> SViewMut<'_, T> {
        let v: SViewMut<'_, T> = self.base.expr_mut().into_mapping();
        step_view!(v.into_permuted(self.perm.clone()), self.st)
    }

    /// The elements of the base array outside the view.
    pub fn rest(&self) -> Vec<&T> {
        let mut used = vec![false; self.base.len()];
        for &i in &self.m.idx {
            used[i] = true;
        }
        self.base[..].iter().zip(used).filter(|x| !x.1).map(|x| x.0).collect()
    }

    /// The elements of the view, taken from the base array without the view.
    pub fn inside(&self) -> Vec<&T> {
        self.m.idx.iter().map(|&i| &self.base[..][i]).collect()
    }
}

impl Strider<u64> {
    pub const REST: u64 = 0xDEAD_0000_0000_0000;

    /// Values `make(start..)`, everything else `REST`.
    pub fn make(c: &mut Case, dims: &[usize], start: u64) -> Self {
        let n = product(dims);
        Strider::new(c, dims, vals::<u64>(n, start), || Self::REST)
    }

    #[track_caller]
    pub fn check_rest(&self) {
        for x in self.rest() {
            assert!(*x == Self::REST, "an element outside the view was changed to {x}");
        }
    }
}
