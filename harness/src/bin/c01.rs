//! C01: memory safety of every safe operation.
//!
//! Hostile programs (valid and invalid arguments, lying iterators and ranges, panics in user code,
//! leaked and half-used iterators). Every element of every result is accessed; run in memory-only
//! mode, together with the workloads of the other monitors. The judges are the sanitizer or interpreter, the checking allocator
//! and the registry of tracked elements; what the elements are is not judged here.

use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};
use std::hint::black_box;
use std::ops::Bound;
use vh::chain::*;
use vh::track::{self, Tr, TrZ};
use vh::*;

vh::check_main!("C01", run);

type U = usize;
type B = (Bound<usize>, Bound<usize>);
type T0<T> = Tensor<T, DynRank>;

const LIMIT: usize = 3000;

fn see<T: El>(x: &T) {
    black_box(x == x);
}

/// Reads every element.
fn look<T: El, S: Shape, L: Layout>(s: &Slice<T, S, L>) {
    s.iter().take(LIMIT).for_each(see);
    let n = s.len();
    if n > 0 {
        see(&s[0]);
        see(&s[n - 1]);
        let last: Vec<usize> = (0..s.rank()).map(|i| s.dim(i) - 1).collect();
        see(&s[&last[..]]);
    }
}

/// Replaces every element, while references to all of them exist.
fn poke<T: El, S: Shape, L: Layout>(s: &mut Slice<T, S, L>) {
    if s.len() > LIMIT {
        return;
    }
    let mut all: Vec<&mut T> = s.iter_mut().collect();
    track::exclusive(&mut all.iter().map(|x| &**x as *const T).collect());
    for (i, x) in all.iter_mut().rev().enumerate() {
        **x = T::make(i as u64);
    }
    for (i, x) in all.iter_mut().enumerate() {
        **x = T::make(i as u64);
    }
    drop(all);
    look(s);
}

/// Uses all elements of several mutable views that exist at the same time.
fn pokes<T: El, S: Shape, L: Layout>(all: &mut Vec<ViewMut<'_, T, S, L>>, rev: bool) {
    if all.len() > LIMIT || all.iter().map(|x| x.len()).sum::<usize>() > LIMIT {
        return;
    }
    track::exclusive(&mut all.iter().flat_map(|x| x.iter().map(|x| x as *const T)).collect());
    all.iter_mut().for_each(|x| poke(x));
    if rev {
        all.reverse();
    }
    all.iter_mut().for_each(|x| poke(x));
}

/// Uses references that exist at the same time.
fn pokes_el<T: El>(mut all: Vec<&mut T>) {
    track::exclusive(&mut all.iter().map(|x| &**x as *const T).collect());
    all.iter_mut().for_each(|x| **x = T::make(1));
    all.iter_mut().rev().for_each(|x| **x = T::make(2));
    all.iter_mut().for_each(|x| **x = T::make(3));
}

/// Expressions over a mutable array combined with operands of higher rank.
fn repeats<T: El, L: Layout>(c: &mut Case, v: &mut Slice<T, DynRank, L>) {
    let d = dims(v);
    let r = d.len();
    if v.len() > 200 || r > 4 {
        return;
    }
    let k = c.rng.range(0, 3);
    let up = |d: &[usize]| -> Vec<usize> { std::iter::once(k).chain(d.iter().copied()).collect() };
    let h = up(&d);
    let f = |d: &[usize]| expr::from_elem(d, 1u8);
    attempt(c, || pokes_el(v.expr_mut().zip(f(&h)).into_iter().map(|x| x.0).collect()));
    attempt(c, || pokes_el(f(&h).zip(v.expr_mut()).into_iter().map(|x| x.1).collect()));
    match c.rng.below(4) {
        0 => attempt(c, || pokes_el(v.expr_mut().map(|x| x).zip(f(&h)).into_iter().map(|x| x.0).collect())),
        1 => attempt(c, || pokes_el(f(&h).zip(v.expr_mut().enumerate()).into_iter().map(|x| x.1 .1).collect())),
        2 => attempt(c, || pokes_el(v.expr_mut().zip(f(&d)).zip(f(&h)).into_iter().map(|x| x.0 .0).collect())),
        _ => attempt(c, || pokes_el(f(&h).zip(f(&d).zip(v.expr_mut())).into_iter().map(|x| x.1 .1).collect())),
    }
    if r == 0 {
        return;
    }
    let a = c.rng.range(0, r - 1);
    let rev = c.rng.chance(1, 2);
    let mut l = d.clone();
    l.remove(a);
    let h = up(&l);
    attempt(c, || pokes(&mut v.lanes_mut(a).zip(f(&h)).into_iter().map(|x| x.0).collect(), rev));
    attempt(c, || pokes(&mut f(&h).zip(v.lanes_mut(a)).into_iter().map(|x| x.1).collect(), rev));
    let h = [k, d[a]];
    attempt(c, || pokes(&mut v.axis_expr_mut(a).zip(f(&h)).into_iter().map(|x| x.0).collect(), rev));
    attempt(c, || pokes(&mut f(&h).zip(v.axis_expr_mut(a)).into_iter().map(|x| x.1).collect(), rev));
    let h = [k, d[0]];
    attempt(c, || pokes(&mut f(&h).zip(v.outer_expr_mut().map(|x| x)).into_iter().map(|x| x.1).collect(), rev));
    // Dimension by dimension, since the other operand has rank 0.
    let z = T0::<u8>::from_elem(&[][..], 1);
    attempt(c, || pokes(&mut v.lanes_mut(a).zip(&z).into_iter().map(|x| x.0).collect(), rev));
    attempt(c, || pokes(&mut v.axis_expr_mut(a).zip(&z).into_iter().map(|x| x.0).collect(), rev));
    attempt(c, || pokes(&mut z.expr().zip(v.outer_expr_mut()).into_iter().map(|x| x.1).collect(), rev));
    attempt(c, || pokes_el(v.expr_mut().zip(&z).into_iter().map(|x| x.0).collect()));
}

/// Index that may be out of range.
fn hi(c: &mut Case, n: usize) -> usize {
    match c.rng.below(10) {
        0 => n,
        1 => n.wrapping_sub(1),
        2 => n + c.rng.range(1, 3),
        3 => *c.rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, 1 << 32]),
        _ => c.rng.below(n.max(1)),
    }
}

fn rg(c: &mut Case, n: usize) -> B {
    let b = |c: &mut Case, k: usize| match c.rng.below(8) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Excluded(k),
        _ => Bound::Included(k),
    };
    let (mut x, mut y) = (hi(c, n), hi(c, n));
    if x > y && c.rng.chance(3, 4) {
        std::mem::swap(&mut x, &mut y);
    }
    let lo = b(c, x);
    let up = if c.rng.chance(3, 4) { Bound::Excluded(y) } else { b(c, y) };
    (lo, up)
}

fn st(c: &mut Case) -> isize {
    match c.rng.below(8) {
        0 => 0,
        1 => c.rng.irange(-5, 5),
        2..=4 => -1,
        _ => 1,
    }
}

fn axis(c: &mut Case, rank: usize) -> usize {
    if c.rng.chance(1, 6) { hi(c, rank) } else { c.rng.below(rank.max(1)) }
}

/// Dimensions that need not fit `n` elements.
fn wild(c: &mut Case, n: usize) -> Vec<usize> {
    let r = c.rng.range(0, 5);
    match c.rng.below(5) {
        0 => c.rng.dims(r, 60),
        1 if r > 1 => {
            let mut d = c.rng.dims_pos(r, 8);
            let (i, j) = (c.rng.below(r), c.rng.below(r));
            d[i] = *c.rng.pick(&[usize::MAX, 1 << 63, 1 << 40, 1 << 32]);
            d[j] = *c.rng.pick(&[usize::MAX, 1 << 63, 1 << 40, 1 << 32]);
            d
        }
        2 if r > 0 => {
            let mut d = c.rng.dims_pos(r, 20);
            let i = c.rng.below(r);
            d[i] = usize::MAX; // Inferred.
            d
        }
        _ => {
            let mut d = factor(&mut c.rng, n, r).unwrap_or_else(|| vec![n]);
            if c.rng.chance(1, 5) && !d.is_empty() {
                let i = c.rng.below(d.len());
                d[i] += 1;
            }
            d
        }
    }
}

/// Dimensions for a new array: small, or overflowing with certainty.
fn new_dims(c: &mut Case, rank: usize) -> Vec<usize> {
    let mut d = c.rng.dims(rank, 30);
    if rank > 1 && c.rng.chance(1, 6) {
        d.iter_mut().for_each(|x| *x = (*x).max(1));
        d[0] = *c.rng.pick(&[usize::MAX, 1 << 63, 1 << 40]);
        d[1] = *c.rng.pick(&[usize::MAX, 1 << 63, 1 << 40]);
    }
    d
}

/// A range that gives different answers each time it is asked.
struct Liar(std::cell::Cell<usize>, [usize; 6]);

impl std::ops::RangeBounds<usize> for Liar {
    fn start_bound(&self) -> Bound<&usize> {
        self.0.set(self.0.get() + 1);
        Bound::Included(&self.1[self.0.get() % 6])
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.0.set(self.0.get() + 1);
        Bound::Excluded(&self.1[self.0.get() % 6])
    }
}

fn liar(c: &mut Case, n: usize) -> Liar {
    Liar(Default::default(), std::array::from_fn(|i| if i % 2 == 0 { c.rng.range(0, n) } else { hi(c, n) }))
}

/// An iterator whose size hint is wrong.
struct LyingIter<I>(I, (usize, Option<usize>));

impl<I: Iterator> Iterator for LyingIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

fn lying<I: Iterator>(c: &mut Case, i: I) -> LyingIter<I> {
    let h = match c.rng.below(5) {
        0 => (0, None),
        1 => (0, Some(0)),
        2 => (100, Some(100)),
        3 => (100, Some(3)),
        _ => (c.rng.range(0, 20), Some(c.rng.range(0, 20))),
    };
    LyingIter(i, h)
}

/// One operation may panic, for invalid arguments or by fault injection.
fn attempt<F: FnOnce()>(c: &mut Case, f: F) {
    if caught(f).is_err() {
        c.ev("operations refused", 1);
    } else {
        c.ev("operations performed", 1);
    }
}

/// Iterators that are used in parts, cloned, folded and dropped.
fn iterate<I: Iterator>(c: &mut Case, mut it: I, see: impl Fn(I::Item)) {
    for _ in 0..c.rng.range(0, 4) {
        match c.rng.below(4) {
            0 => it.by_ref().take(c.rng.range(0, 6)).for_each(&see),
            1 => {
                if let Some(x) = it.nth(c.rng.range(0, 5)) {
                    see(x)
                }
            }
            2 => {
                black_box(it.size_hint());
            }
            _ => {
                if let Some(x) = it.next() {
                    see(x)
                }
            }
        }
    }
    match c.rng.below(4) {
        0 => it.for_each(see),
        1 => {
            it.fold(0, |n, x| {
                see(x);
                n + 1
            });
        }
        2 => {
            let v: Vec<_> = it.collect();
            v.into_iter().for_each(see);
        }
        _ => {}
    }
}

macro_rules! rank_view {
    ($c:ident, $v:ident, $dims:expr, $f:ident, $use:expr) => {{
        let d: Vec<usize> = $dims;
        let mut s = |i: usize| { let (r, k) = (rg($c, d[i]), st($c)); mdarray::step(r, k) };
        match d.len() {
            1 => { let a = s(0); let v = $v.into_mapping::<Rank<1>, Strided>(); ($use)(v.$f(a).into_mapping::<DynRank, Strided>()) }
            2 => { let (a, b) = (s(0), s(1)); let v = $v.into_mapping::<Rank<2>, Strided>(); ($use)(v.$f(a, b).into_mapping::<DynRank, Strided>()) }
            3 => { let (a, b, e) = (s(0), s(1), s(2)); let v = $v.into_mapping::<Rank<3>, Strided>(); ($use)(v.$f(a, b, e).into_mapping::<DynRank, Strided>()) }
            4 => { let (a, b, e, g) = (s(0), s(1), s(2), s(3)); let v = $v.into_mapping::<Rank<4>, Strided>(); ($use)(v.$f(a, b, e, g).into_mapping::<DynRank, Strided>()) }
            _ => {}
        }
    }};
}

fn dims<T, S: Shape, L: Layout>(v: &Slice<T, S, L>) -> Vec<usize> {
    (0..v.rank()).map(|i| v.dim(i)).collect()
}

/// Reading operations on a view of any layout.
fn reads<T: El, L: Layout>(c: &mut Case, v: &Slice<T, DynRank, L>, other: &T0<T>) {
    let d = dims(v);
    let (r, n) = (d.len(), v.len());
    let op = c.rng.below(24);
    c.log(|| format!("read {op} of {d:?}"));
    match op {
        0 => {
            let mut i: Vec<usize> = d.iter().map(|&x| hi(c, x)).collect();
            if c.rng.chance(1, 6) {
                i.push(0);
            }
            if c.rng.chance(1, 6) {
                i.pop();
            }
            attempt(c, || see(&v[&i[..]]));
        }
        1 => {
            let i = hi(c, n);
            attempt(c, || see(&v[i]));
        }
        2 => {
            let (a, i) = (axis(c, r), 0);
            let i = hi(c, d.get(a).copied().unwrap_or(i));
            attempt(c, || look(&v.axis_at(a, i)));
        }
        3 => {
            let a = axis(c, r);
            let i = hi(c, d.get(a).copied().unwrap_or(0) + 1);
            attempt(c, || {
                let (x, y) = v.split_axis_at(a, i);
                look(&x);
                look(&y);
            });
        }
        4 => {
            let i = hi(c, d.first().copied().unwrap_or(0) + 1);
            attempt(c, || {
                let (x, y) = v.split_at(i);
                look(&x);
                look(&y);
                look(&v.at(i.wrapping_sub(1)));
            });
        }
        5 => {
            let mut p = perm(&mut c.rng, r);
            match c.rng.below(4) {
                0 if r > 0 => {
                    let i = c.rng.below(r);
                    p[i] = hi(c, r);
                }
                1 => p.push(0),
                2 => drop(p.pop()),
                _ => {}
            }
            attempt(c, || look(&v.permute(&p[..])));
        }
        6 | 7 => {
            let w = wild(c, n);
            c.log(|| format!("reshape to {w:?}"));
            attempt(c, || look(&v.reshape(&w[..])));
        }
        8 => match c.rng.below(6) {
            0 => attempt(c, || look(v.remap::<Rank<1>, Dense>().slice())),
            1 => attempt(c, || look(v.remap::<Rank<2>, Dense>().slice())),
            2 => attempt(c, || look(v.remap::<(Const<2>, U), Strided>().slice())),
            3 => attempt(c, || look(v.remap::<(U, Const<3>), Dense>().slice())),
            4 => attempt(c, || look(v.remap::<(Const<2>, Const<2>, Const<2>), Dense>().slice())),
            _ => attempt(c, || look(v.remap::<(), Dense>().slice())),
        },
        9 => {
            let k = c.rng.irange(-6, 6);
            let k = if c.rng.chance(1, 8) { *c.rng.pick(&[isize::MIN, isize::MAX, isize::MIN + 1]) } else { k };
            attempt(c, || look(&v.diag(k)));
        }
        10 => {
            let a = axis(c, r);
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || iterate(&mut c2, v.lanes(a).into_iter(), |x| look(&x)));
        }
        11 => {
            let a = axis(c, r);
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || iterate(&mut c2, v.axis_expr(a).into_iter(), |x| look(&x)));
        }
        12 | 13 => {
            let (e, seed) = (d.clone(), c.rng.u64());
            attempt(c, || {
                let c2 = &mut Case::plain(seed);
                let x = v.expr();
                rank_view!(c2, x, e, into_view, |w: SView<'_, T>| look(&w));
            });
        }
        14 => {
            let i = hi(c, 5);
            attempt(c, || look(&v.row(i)));
            attempt(c, || look(&v.col(i)));
            attempt(c, || v.rows().into_iter().for_each(|x| look(&x)));
            attempt(c, || v.cols().into_iter().for_each(|x| look(&x)));
        }
        15 => attempt(c, || look(&v.flatten())),
        16 => attempt(c, || look(&v.reorder())),
        17 => {
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || iterate(&mut c2, v.iter(), see));
            let k = c.rng.range(0, n.min(6));
            attempt(c, || {
                let mut a = v.iter();
                a.by_ref().take(k).for_each(see);
                let b = a.clone();
                drop(a);
                b.for_each(see);
            });
        }
        18 => attempt(c, || v.expr().zip(other).for_each(|(a, b)| { see(a); see(b) })),
        19 => attempt(c, || {
            let t: T0<T> = FromExpression::from_expr(v.expr().zip(other).map(|(a, b)| { see(b); a.clone() }));
            look(&t);
        }),
        20 => attempt(c, || look(&v.to_tensor())),
        21 => attempt(c, || {
            black_box(v == other);
            black_box(v.contains(&T::make(3)));
            if !cfg!(miri) {
                black_box(format!("{v:?}").len()); // Slow in the interpreter.
            }
        }),
        22 => {
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || iterate(&mut c2, v.outer_expr().into_iter(), |x| look(&x)));
        }
        _ => {
            let l = liar(c, d.first().copied().unwrap_or(0));
            let k = st(c);
            attempt(c, || {
                let x = v.expr().into_mapping::<Rank<1>, Strided>();
                look(&x.into_view(mdarray::step(l, k)));
            });
        }
    }
}

trait Sl {
    type T;
    type S: Shape;
    type L: Layout;
    fn slice(&self) -> &Slice<Self::T, Self::S, Self::L>;
}

impl<'a, T, S: Shape, L: Layout> Sl for View<'a, T, S, L> {
    type T = T;
    type S = S;
    type L = L;
    fn slice(&self) -> &Slice<T, S, L> {
        self
    }
}

impl<'a, T, S: Shape, L: Layout> Sl for &'a Slice<T, S, L> {
    type T = T;
    type S = S;
    type L = L;
    fn slice(&self) -> &Slice<T, S, L> {
        self
    }
}

/// Writing operations on a view of any layout.
fn writes<T: El, L: Layout>(c: &mut Case, v: &mut Slice<T, DynRank, L>, other: &T0<T>) {
    let d = dims(v);
    let (r, n) = (d.len(), v.len());
    let op = c.rng.below(20);
    c.log(|| format!("write {op} of {d:?}"));
    match op {
        0 => {
            let i: Vec<usize> = d.iter().map(|&x| hi(c, x)).collect();
            attempt(c, || v[&i[..]] = T::make(1));
            let i = hi(c, n);
            attempt(c, || v[i] = T::make(1));
        }
        1 | 2 => {
            let a = axis(c, r);
            let i = hi(c, d.get(a).copied().unwrap_or(0) + 1);
            attempt(c, || {
                let (mut x, mut y) = v.split_axis_at_mut(a, i);
                // All references of both parts at once.
                pokes_el(x.iter_mut().chain(y.iter_mut()).collect());
            });
        }
        3 => {
            let i = hi(c, d.first().copied().unwrap_or(0) + 1);
            attempt(c, || {
                let (mut x, mut y) = v.split_at_mut(i);
                poke(&mut x);
                poke(&mut y);
                poke(&mut x);
            });
        }
        4 => {
            let a = axis(c, r);
            let i = hi(c, d.get(a).copied().unwrap_or(0));
            attempt(c, || poke(&mut v.axis_at_mut(a, i)));
        }
        5 => {
            let a = axis(c, r);
            let rev = c.rng.chance(1, 2);
            attempt(c, || {
                pokes(&mut v.axis_expr_mut(a).into_iter().collect(), rev);
            });
        }
        6 => {
            let a = axis(c, r);
            attempt(c, || {
                pokes(&mut v.lanes_mut(a).into_iter().collect(), true);
            });
        }
        7 => {
            let w = wild(c, n);
            attempt(c, || poke(&mut v.reshape_mut(&w[..])));
        }
        8 => {
            let (e, seed) = (d.clone(), c.rng.u64());
            attempt(c, || {
                let c2 = &mut Case::plain(seed);
                let x = v.expr_mut();
                rank_view!(c2, x, e, into_view, |mut w: SViewMut<'_, T>| poke(&mut w));
            });
        }
        9 => attempt(c, || v.assign(other)),
        10 => {
            let k = c.rng.range(0, 10);
            let mut i = 0;
            attempt(c, || v.fill_with(|| {
                i += 1;
                assert!(i < k, "generator ends");
                T::make(i as u64)
            }));
        }
        11 => attempt(c, || v.fill(T::make(4))),
        12 => {
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || iterate(&mut c2, v.iter_mut(), |x| *x = T::make(8)));
        }
        13 => {
            let k = c.rng.irange(-5, 5);
            attempt(c, || poke(&mut v.diag_mut(k)));
            let i = hi(c, 4);
            attempt(c, || poke(&mut v.row_mut(i)));
            attempt(c, || poke(&mut v.col_mut(i)));
        }
        14 => attempt(c, || v.expr_mut().zip(other).for_each(|(a, b)| a.clone_from(b))),
        15 => {
            let p = perm(&mut c.rng, r);
            attempt(c, || poke(&mut v.permute_mut(&p[..])));
            attempt(c, || poke(&mut v.reorder_mut()));
        }
        17 | 18 => repeats(c, v),
        16 => attempt(c, || {
            pokes(&mut v.outer_expr_mut().into_iter().collect(), true);
        }),
        _ => {
            attempt(c, || poke(&mut v.flatten_mut()));
            attempt(c, || poke(&mut v.remap_mut::<(U, Const<2>), Dense>()));
        }
    }
    look(v);
}

/// Operations on owned tensors.
fn owned<T: El, S: Shape>(c: &mut Case, mut t: Tensor<T, S>, other: &mut T0<T>) -> T0<T> {
    let d = dims(&t);
    let (r, n) = (d.len(), t.len());
    let op = c.rng.below(27);
    c.log(|| format!("owned {op} of {d:?}, static rank {:?}", S::RANK));
    match op {
        26 if r < 4 && n < 200 => {
            // Elements by value, with operands of higher rank.
            let h: Vec<usize> = std::iter::once(c.rng.range(0, 3)).chain(d.iter().copied()).collect();
            let f = |d: &[usize]| expr::from_elem(d, 1u8);
            let k = c.rng.below(5);
            let o = t.clone();
            attempt(c, || {
                let all: Vec<T> = match k {
                    0 => o.into_expr().zip(f(&h)).into_iter().map(|x| x.0).collect(),
                    1 => f(&h).zip(o).into_iter().map(|x| x.1).collect(),
                    2 => f(&h).zip(o.into_expr().map(|x| x)).into_iter().map(|x| x.1).collect(),
                    3 => f(&d).zip(o).zip(f(&h)).into_iter().map(|x| x.0 .1).collect(),
                    _ => f(&h).zip(o.into_expr().zip(f(&d)).enumerate()).into_iter().map(|x| x.1 .1 .0).collect(),
                };
                all.iter().for_each(see);
            });
        }
        0 => {
            let e = new_dims(c, r);
            attempt(c, || t.resize(&e[..], T::make(5)));
        }
        1 => {
            let e = new_dims(c, r);
            let k = c.rng.range(0, 40);
            let mut i = 0;
            attempt(c, || t.resize_with(&e[..], || {
                i += 1;
                assert!(i != k, "generator ends");
                T::make(i as u64)
            }));
        }
        2 => {
            let k = hi(c, d.first().copied().unwrap_or(0) + 1);
            attempt(c, || t.truncate(k));
        }
        3 => attempt(c, || t.clear()),
        4 => {
            let o = other.clone();
            attempt(c, || t.expand(&o));
            attempt(c, || t.expand(o.map(|x| x)));
        }
        5 => {
            let o = tens::<T>(&d);
            attempt(c, || t.expand(o.expr().map(|x| x.clone())));
        }
        6 => {
            let mut o = Tensor::<T, S>::from_expr(t.expr().cloned());
            attempt(c, || t.append(&mut o));
            look(&o);
            drop(o);
        }
        7 | 8 | 9 => {
            let range = rg(c, d.first().copied().unwrap_or(0));
            let (how, k) = (c.rng.below(5), c.rng.range(0, n.min(8)));
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || {
                let x = t.drain(range);
                match how {
                    0 => drop(x),
                    1 => std::mem::forget(x),
                    2 => x.into_iter().take(k).for_each(|x| see(&x)),
                    3 => {
                        let mut it = x.into_iter();
                        it.by_ref().take(k).for_each(|x| see(&x));
                        std::mem::forget(it);
                    }
                    _ => iterate(&mut c2, x.into_iter(), |x| see(&x)),
                }
            });
        }
        10 => {
            let l = liar(c, d.first().copied().unwrap_or(0));
            attempt(c, || drop(t.drain(l)));
        }
        11 => {
            let k = *c.rng.pick(&[0, 1, 7, 50]);
            attempt(c, || t.reserve(k));
            attempt(c, || t.shrink_to(k));
            attempt(c, || drop(t.try_reserve(usize::MAX)));
            attempt(c, || t.reserve_exact(usize::MAX - k));
            attempt(c, || t.shrink_to_fit());
        }
        12 => {
            let w = wild(c, n);
            c.log(|| format!("into_shape {w:?}"));
            let mut back = None;
            attempt(c, || back = Some(t.into_shape(&w[..])));
            return back.unwrap_or_else(|| tens(&[2, 2]));
        }
        13 => {
            let mut back = None;
            match c.rng.below(5) {
                0 => attempt(c, || back = Some(t.into_mapping::<Rank<2>>().into_dyn())),
                1 => attempt(c, || back = Some(t.into_mapping::<(Const<2>, U)>().into_dyn())),
                2 => attempt(c, || back = Some(t.into_mapping::<Rank<0>>().into_dyn())),
                3 => attempt(c, || back = Some(t.into_mapping::<(U, Const<3>)>().into_dyn())),
                _ => attempt(c, || back = Some(Tensor::from_elem([1, 1], t.into_scalar()).into_dyn())),
            }
            return back.unwrap_or_else(|| tens(&[3]));
        }
        14 => {
            let mut c2 = Case::plain(c.rng.u64());
            attempt(c, || iterate(&mut c2, t.into_iter(), |x| see(&x)));
            return tens(&[2, 3]);
        }
        15 => {
            let k = c.rng.range(0, 20);
            let mut i = 0;
            let mut back = None;
            attempt(c, || back = Some(t.map(|x| {
                i += 1;
                assert!(i != k, "closure ends");
                see(&x);
                x
            })));
            return back.map_or_else(|| tens(&[1, 4]), |t| t.into_dyn());
        }
        16 => {
            let o = other.clone();
            let how = c.rng.below(3);
            attempt(c, || match how {
                0 => t.into_expr().zip(o).for_each(|(a, b)| { see(&a); see(&b) }),
                1 => {
                    let x: T0<T> = FromExpression::from_expr(t.into_dyn().into_expr().zip(&o).map(|(a, b)| { see(b); a }));
                    look(&x);
                }
                _ => look(&t.zip_with(&o, |(a, b)| { see(b); a })),
            });
            return tens(&[2, 1]);
        }
        17 => {
            let (p, m, cap) = t.into_raw_parts();
            return unsafe { Tensor::from_raw_parts(p, m, cap) }.into_dyn();
        }
        18 => {
            let o = t.clone();
            t.fill(T::make(1));
            attempt(c, || t.clone_from(&o));
        }
        19 => {
            let v = t.into_vec();
            let back: Tensor<T, (U,)> = lying(c, v.into_iter()).collect();
            return back.into_dyn();
        }
        20 => {
            let x = t.to_vec();
            let mut y: Tensor<T, (U,)> = t.into_flat();
            let it = lying(c, x.into_iter());
            attempt(c, || y.extend(it));
            let z: Vec<T> = y.to_vec();
            let it = lying(c, z.into_iter());
            attempt(c, || y.extend(it));
            return y.into_dyn();
        }
        21 => {
            // Conversion to built-in arrays.
            let f = t.into_dyn();
            let (a, b) = (f.clone(), f.clone());
            attempt(c, || {
                if let Ok(x) = <[T; 6]>::try_from(a.into_mapping::<Rank<1>>()) {
                    x.iter().for_each(see);
                }
            });
            attempt(c, || {
                if let Ok(x) = <[[T; 3]; 2]>::try_from(b.into_mapping::<Rank<2>>()) {
                    x.iter().flatten().for_each(see);
                }
            });
            return f;
        }
        22 => {
            let e: Tensor<T, S> = Tensor::with_capacity(c.rng.range(0, 9));
            look(&e);
            drop(std::mem::replace(&mut t, e));
            attempt(c, || t.expand(expr::fill(T::make(2))));
        }
        23 => {
            let w = new_dims(c, r);
            let k = c.rng.range(0, 30);
            let mut i = 0;
            attempt(c, || {
                let x: T0<T> = Tensor::from_fn(&w[..], |_: &[usize]| {
                    i += 1;
                    assert!(i != k, "generator ends");
                    T::make(i as u64)
                });
                look(&x);
            });
            attempt(c, || look(&T0::<T>::from_elem(&w[..], T::make(1))));
        }
        24 => {
            let a: Array<T, (Const<2>, Const<3>)> = Array::from_elem(T::make(1));
            let mut b = a.clone();
            poke(&mut b);
            attempt(c, || b.assign(&t));
            attempt(c, || look(&b.into_shape::<(Const<3>, Const<2>)>()));
            attempt(c, || a.map(|x| x).into_iter().take(4).for_each(|x| see(&x)));
        }
        _ => {
            let o = std::mem::replace(other, t.into_dyn());
            return o;
        }
    }
    look(&t);
    t.into_dyn()
}

/// Dense slices by ranges.
fn slices<T: El>(c: &mut Case, t: &mut T0<T>) {
    let n = t.len();
    let (a, b) = (hi(c, n + 1), hi(c, n + 1));
    let k = c.rng.below(6);
    c.log(|| format!("slice {a}..{b} of {n}, form {k}"));
    attempt(c, || match k {
        0 => t[a..b].iter().for_each(see),
        1 => t[a..].iter().for_each(see),
        2 => t[..b].iter().for_each(see),
        3 => t[a..=b].iter().for_each(see),
        4 => t[..=b].iter().for_each(see),
        _ => t[(Bound::Excluded(a), Bound::Included(b))].iter().for_each(see),
    });
    attempt(c, || match k {
        0 => t[a..b].iter_mut().for_each(|x| *x = T::make(1)),
        1 => t[a..].iter_mut().for_each(|x| *x = T::make(1)),
        2 => t[..b].iter_mut().for_each(|x| *x = T::make(1)),
        _ => t[a..=b].iter_mut().for_each(|x| *x = T::make(1)),
    });
}

fn program<T: El>(c: &mut Case, faults: bool) {
    let mut ts: Vec<T0<T>> = (0..2).map(|_| tens(&base_dims(c, 0, 4))).collect();
    if c.rng.chance(1, 3) {
        let d = dims(&ts[0]);
        ts[1] = tens(&d);
    }
    let mut sig = c.index;
    for _ in 0..c.rng.range(2, 8) {
        let i = c.rng.below(2);
        let mut other = std::mem::take(&mut ts[1 - i]);
        let mut t = std::mem::take(&mut ts[i]);
        for t in [&mut t, &mut other] {
            // Empty arrays may have huge dimensions, which the workload cannot enumerate.
            if t.len() > 400 || dims(t).iter().any(|&x| x > 2000) {
                *t = tens(&[2, 3]);
            }
        }
        let k = c.rng.below(12);
        sig = vh::rng::mix(sig ^ k as u64 ^ (dims(&t).iter().fold(3, |a, &x| a * 7 + x as u64) << 8));
        if faults {
            let kinds = if c.rng.chance(1, 4) { track::DROP } else { track::CLONE | track::CMP | track::CALL };
            let at = c.rng.range(1, 40);
            track::arm(kinds, at as u64);
        }
        // A panic that gets through (from the checks in between) ends the operation as well.
        let seed = c.rng.u64();
        let verbose = c.verbose;
        let mut c2 = Case::plain(seed);
        c2.verbose = verbose;
        let mut out = None;
        let res = caught(|| {
            let c = &mut c2;
            match k {
                0 => reads(c, &t, &other),
                1 | 2 => {
                    let v: SView<'_, T> = t.expr().into_mapping();
                    let steps = c.rng.range(0, 3);
                    let m = MV::dense(&dims(&t));
                    let (v, _) = chain(c, v, m, steps);
                    reads(c, &v, &other);
                }
                3 => writes(c, &mut t, &other),
                4 | 5 => {
                    let m = MV::dense(&dims(&t));
                    let v: SViewMut<'_, T> = t.expr_mut().into_mapping();
                    let steps = c.rng.range(0, 3);
                    let (mut v, _) = chain_mut(c, v, m, steps);
                    writes(c, &mut v, &other);
                }
                6 => slices(c, &mut t),
                7 | 8 => out = Some(owned(c, std::mem::take(&mut t), &mut other)),
                _ => {
                    let t = std::mem::take(&mut t);
                    out = Some(match t.rank() {
                        0 => owned(c, t.into_mapping::<Rank<0>>(), &mut other),
                        1 => owned(c, t.into_mapping::<Rank<1>>(), &mut other),
                        2 => match (t.dim(1), t.dim(0)) {
                            (3, _) => owned(c, t.into_mapping::<(U, Const<3>)>(), &mut other),
                            (_, 2) => owned(c, t.into_mapping::<(Const<2>, U)>(), &mut other),
                            _ => owned(c, t.into_mapping::<Rank<2>>(), &mut other),
                        },
                        3 => owned(c, t.into_mapping::<Rank<3>>(), &mut other),
                        _ => owned(c, t, &mut other),
                    });
                }
            }
        });
        if faults {
            if track::fired() > 0 {
                c.ev("injected panics", 1);
            }
            track::disarm();
        }
        c.merge(c2);
        let _ = res;
        ts[i] = out.unwrap_or(t);
        ts[1 - i] = other;
        for t in &ts {
            look(t);
            c.ev("elements accessed", t.len());
        }
    }
    c.seen(&[sig]);
}

pub fn run(r: &mut Runner) {
    r.section("hostile-u64", 6000, 50, |c| program::<u64>(c, false));
    r.section("hostile-string", 4000, 40, |c| program::<String>(c, false));
    r.section("hostile-tracked", 4000, 30, |c| program::<Tr>(c, false));
    r.section("hostile-faults", 6000, 40, |c| program::<Tr>(c, true));
    r.section("hostile-zst", 2000, 20, |c| program::<TrZ>(c, false));
    r.section("hostile-zst-faults", 2000, 20, |c| program::<TrZ>(c, true));
    r.section("hostile-aligned", 2000, 12, |c| program::<A64>(c, false));
    r.section("hostile-array", 1000, 8, |c| program::<[u16; 3]>(c, false));
    r.section("hostile-u8", 1000, 8, |c| program::<u8>(c, false));
}
