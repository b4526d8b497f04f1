//! C07: axis, outer, row, column and lane expressions partition the array.

use mdarray::expr::Expression;
use mdarray::index::{Axis, Cols, Rows};
use mdarray::{Array, Const, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, ViewMut};
use vh::huge;
use vh::chain::*;
use vh::*;

vh::check_main!("C07", run);

const MARK: u64 = 1 << 40;

macro_rules! with_axis {
    ($k:expr, $dyn:expr, $f:ident, $($arg:expr),*) => {
        match $k {
            0 => $f(Const::<0>, $($arg),*),
            1 => $f(Const::<1>, $($arg),*),
            2 => $f(Const::<2>, $($arg),*),
            3 => $f(Const::<3>, $($arg),*),
            4 => $f(Const::<4>, $($arg),*),
            5 => $f(Const::<5>, $($arg),*),
            6 => $f(Cols, $($arg),*),
            7 => $f(Rows, $($arg),*),
            _ => $f($dyn, $($arg),*),
        }
    };
}

fn axis_index(k: usize, dynamic: usize, rank: usize) -> Option<usize> {
    let i = match k {
        0..=5 => k,
        6 => rank.checked_sub(2)?,
        7 => rank.checked_sub(1)?,
        _ => dynamic,
    };
    (i < rank).then_some(i)
}

/// Checks an expression of views against the expected list of parts.
fn parts<T: El, E, S, L, V>(c: &mut Case, what: &str, e: E, dims: &[usize], want: &[MV], base: *const T)
where
    E: Expression<Item = V>,
    V: std::ops::Deref<Target = Slice<T, S, L>>,
    S: Shape,
    L: Layout,
{
    let got = dims_of(e.shape());
    assert!(got == dims, "{what}: the shape of the expression is {got:?}, expected {dims:?}");
    assert!(e.len() == want.len(), "{what}: {} parts, expected {}", e.len(), want.len());
    let mut n = 0;
    let mut one = |c: &mut Case, v: V| {
        assert!(n < want.len(), "{what}: more than {} parts", want.len());
        chk_lite(c, &v, &want[n], base, 0);
        n += 1;
    };
    // Step by step up to some point, then internally.
    let k = c.rng.range(0, want.len());
    let mut it = e.into_iter().into_iter();
    for _ in 0..k {
        let v = it.next().unwrap_or_else(|| panic!("{what}: ends early"));
        one(c, v);
    }
    it.for_each(|v| one(c, v));
    assert!(n == want.len(), "{what}: {n} parts, expected {}", want.len());
    c.ev("parts checked", n);
}

/// The same for expressions that are stepped dimension by dimension, next to other operands.
macro_rules! beside {
    ($c:expr, $what:expr, $e:expr, $dims:expr, $want:expr, $base:expr) => {{
        let dims: &[usize] = $dims;
        let one: Tensor<u64, DynRank> = Tensor::from(vec![1]).into_shape(&[][..]);
        let u: Tensor<u64, DynRank> = tens(dims);
        let s = {
            let mut d = dims.to_vec();
            d.push(2);
            tens::<u64>(&d)
        };
        let r = dims.len();
        let tail = tens::<u64>(&dims[$c.rng.range(0, r)..]);
        match $c.rng.below(8) {
            0 => parts($c, concat!($what, " beside a scalar"), $e.zip(&one).map(|(v, _)| v), dims, $want, $base),
            1 => parts($c, concat!("scalar beside ", $what), one.expr().zip($e).map(|(_, v)| v), dims, $want, $base),
            2 => parts($c, concat!($what, " beside an array"), $e.zip(&u).map(|(v, _)| v), dims, $want, $base),
            3 => parts($c, concat!("array beside ", $what), u.expr().zip($e).map(|(_, v)| v), dims, $want, $base),
            4 => parts($c, concat!($what, " beside lanes"), $e.zip(s.lanes(r)).map(|(v, _)| v), dims, $want, $base),
            5 => parts($c, concat!($what, " beside a row"), $e.zip(&tail).map(|(v, _)| v), dims, $want, $base),
            6 => {
                let mut n = 0;
                parts($c, concat!("numbered ", $what), $e.enumerate().zip(&one).map(|((i, v), _)| { assert!(i == n, "part {n} has the number {i}"); n += 1; v }), dims, $want, $base)
            }
            _ => parts($c, concat!("doubled ", $what), $e.zip($e).zip(&one).map(|((v, w), _)| { assert!(v.as_ptr() == w.as_ptr() && v.len() == w.len()); v }), dims, $want, $base),
        }
    }};
}

/// Clones of a running iterator continue from the same place.
fn parts_clone<T: El, E, S, L, V>(c: &mut Case, what: &str, e: E, want: &[MV], base: *const T)
where
    E: Expression<Item = V> + Clone,
    V: std::ops::Deref<Target = Slice<T, S, L>>,
    S: Shape,
    L: Layout,
{
    let mut it = mdarray::expr::Expression::map(e, |v| v).into_iter();
    let k = c.rng.range(0, want.len());
    for n in 0..k {
        let v = it.next().unwrap_or_else(|| panic!("{what}: ends early"));
        chk_lite(c, &v, &want[n], base, 0);
    }
    let mut other = it.clone();
    let mut third = it.clone();
    let j = c.rng.range(k, want.len());
    for n in k..j {
        let v = other.next().unwrap_or_else(|| panic!("{what}: the clone ends early"));
        chk_lite(c, &v, &want[n], base, 0);
    }
    third.clone_from(&other);
    let mut rest = |mut it: &mut dyn Iterator<Item = V>, from: usize, which: &str| {
        for n in from..want.len() {
            assert!(it.size_hint() == (want.len() - n, Some(want.len() - n)), "{what}: {which} has {:?} left at {n} of {}", it.size_hint(), want.len());
            let v = it.next().unwrap_or_else(|| panic!("{what}: {which} ends at {n} of {}", want.len()));
            chk_lite(c, &v, &want[n], base, 0);
        }
        assert!(it.next().is_none() && it.next().is_none(), "{what}: {which} does not end");
        let _ = &mut it;
    };
    rest(&mut it, k, "the original");
    rest(&mut other, j, "the clone");
    rest(&mut third, j, "the copy of the clone");
    c.ev("running iterators cloned", 2);
}

/// A clone replaces an expression of another array and along another axis.
fn replaced<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, k: usize, base: *const T) {
    let j = c.rng.below(m.rank());
    let mut dims = m.dims.clone();
    if S::RANK.is_none() && c.rng.below(2) == 0 {
        dims.push(2);
    }
    if c.rng.below(2) == 0 {
        dims.reverse();
    }
    let t: Tensor<T, DynRank> = tens(&dims);
    let o: mdarray::View<T, S, L> = match caught(|| t.expr().into_mapping::<S, L>()) {
        Ok(v) => v,
        Err(_) => s.expr().into_mapping(),
    };
    let mut e = o.lanes(j);
    e.clone_from(&s.lanes(k));
    parts(c, "replaced lanes", e, &others(m, k), &m.lanes(k), base);
    let mut e = s.lanes(j);
    e.clone_from(&s.lanes(k));
    parts(c, "lanes replaced along another axis", e, &others(m, k), &m.lanes(k), base);
    let mut e = o.axis_expr(j);
    e.clone_from(&s.axis_expr(k));
    parts(c, "replaced axis_expr", e, &[m.dims[k]], &m.subarrays(k), base);
    let mut e = s.axis_expr(j);
    e.clone_from(&s.axis_expr(k));
    parts(c, "axis_expr replaced along another axis", e, &[m.dims[k]], &m.subarrays(k), base);
    c.ev("expressions replaced by clones", 4);
}

fn others(m: &MV, k: usize) -> Vec<usize> {
    let mut d = m.dims.clone();
    d.remove(k);
    d
}

fn read<A: Axis, T: El, S: Shape, L: Layout>(
    a: A,
    c: &mut Case,
    s: &Slice<T, S, L>,
    m: &MV,
    base: *const T,
    axis: Option<usize>,
) {
    c.log(|| format!("axis {a:?} = {axis:?} of {:?}", m.dims));
    match axis {
        None => {
            assert!(panics(|| s.axis_expr(a).len()), "axis_expr({a:?}) of rank {} is accepted", m.rank());
            assert!(panics(|| s.lanes(a).len()), "lanes({a:?}) of rank {} is accepted", m.rank());
            c.ev("invalid axes refused", 2);
        }
        Some(k) => {
            parts(c, "axis_expr", s.axis_expr(a), &[m.dims[k]], &m.subarrays(k), base);
            parts(c, "lanes", s.lanes(a), &others(m, k), &m.lanes(k), base);
            // A clone of the expression gives the same.
            parts(c, "cloned lanes", s.lanes(a).clone(), &others(m, k), &m.lanes(k), base);
            parts(c, "cloned axis_expr", s.axis_expr(a).clone(), &[m.dims[k]], &m.subarrays(k), base);
            parts_clone(c, "lanes", s.lanes(a), &m.lanes(k), base);
            parts_clone(c, "axis_expr", s.axis_expr(a), &m.subarrays(k), base);
            replaced(c, s, m, k, base);
            // Combined with enumeration and mapping.
            let w = m.lanes(k);
            let mut n = 0;
            s.lanes(a).enumerate().map(|(i, v)| (i, v.len(), v.iter().next().cloned())).for_each(|(i, l, x)| {
                assert!(i == n && n < w.len(), "enumerate gives {i} for lane {n}");
                let f = w[n].idx.first().map(|&i| T::make(i as u64));
                assert!(l == w[n].len() && x == f, "lane {n} starts with {x:?}, expected {f:?}");
                n += 1;
            });
            assert!(n == w.len());
            c.seen(&[sig(m), k as u64]);
        }
    }
}

fn read_all<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    let k = c.rng.below(12);
    let r = m.rank();
    let dynamic = if c.rng.chance(1, 8) { *c.rng.pick(&[r, 9, usize::MAX]) } else { c.rng.below(r.max(1)) };
    let axis = axis_index(k, dynamic, r);
    with_axis!(k, dynamic, read, c, s, m, base, axis);
    if r == 0 {
        assert!(panics(|| s.outer_expr().len()) && panics(|| s.rows().len()), "rank 0 is accepted");
    } else {
        parts(c, "outer_expr", s.outer_expr(), &m.dims[..1], &m.subarrays(0), base);
        parts(c, "rows", s.rows(), &others(m, r - 1), &m.lanes(r - 1), base);
    }
    if r < 2 {
        assert!(panics(|| s.cols().len()), "cols of rank {r} is accepted");
    } else {
        parts(c, "cols", s.cols(), &others(m, r - 2), &m.lanes(r - 2), base);
    }
}

fn reads<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 7);
    let t = tens::<T>(&dims);
    let base = t.as_ptr();
    let m = MV::dense(&dims);
    c.log(|| format!("base {dims:?} of {}", T::NAME));
    match c.rng.below(5) {
        0 => read_all(c, &t, &m, base),
        1 => as_rank_t!(t, dims.len(), x => read_all(c, &x, &m, x.as_ptr())),
        2 => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            read_all(c, &v, &m, base);
        }
        _ => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => read_all(c, &x, &m, base));
        }
    }
}

/// Shared views with any strides, also such that elements coincide.
fn strides<T: El>(c: &mut Case) {
    let buf: Vec<T> = vals(60, 0);
    let (d, s, off, m) = any_strides(c, buf.len());
    let v = view_strides(&buf, &d, &s, off);
    let base = buf.as_ptr();
    let steps = c.rng.range(0, 2);
    let (v, m) = chain(c, v, m, steps);
    if c.rng.chance(1, 3) {
        read_all(c, &v, &m, base);
    } else {
        as_rank!(v, m.rank(), x => read_all(c, &x, &m, base));
    }
}

/// All parts are held at the same time, then written in arbitrary order.
fn parts_mut<E, S, L>(c: &mut Case, what: &str, e: E, want: &[MV], base: &mut [u64], start: u64)
where
    E: Expression,
    E::Item: std::ops::DerefMut<Target = Slice<u64, S, L>>,
    S: Shape,
    L: Layout,
{
    assert!(e.len() == want.len(), "{what}: {} parts, expected {}", e.len(), want.len());
    let k = c.rng.range(0, want.len());
    let mut held = Vec::new();
    let mut it = e.into_iter().into_iter();
    for _ in 0..k {
        held.push(it.next().unwrap_or_else(|| panic!("{what}: ends early")));
    }
    it.for_each(|v| {
        assert!(held.len() < want.len(), "{what}: more than {} parts", want.len());
        held.push(v)
    });
    assert!(held.len() == want.len(), "{what}: {} parts, expected {}", held.len(), want.len());
    let order = perm(&mut c.rng, held.len());
    for &p in &order {
        chk_shape(&held[p], &want[p].dims);
        let mut n = 0;
        for x in held[p].iter_mut() {
            *x = start + 1000 * p as u64 + n;
            n += 1;
        }
        assert!(n as usize == want[p].len());
    }
    for &p in order.iter().rev() {
        for (n, x) in held[p].iter().enumerate() {
            assert!(*x == start + 1000 * p as u64 + n as u64, "{what}: part {p} overlaps with another one");
        }
        for (n, &i) in want[p].idx.iter().enumerate() {
            base[i] = start + 1000 * p as u64 + n as u64;
        }
    }
    c.ev("mutable parts held together", held.len());
}

macro_rules! beside_mut {
    ($c:expr, $what:expr, $e:expr, $dims:expr, $want:expr, $base:expr, $start:expr) => {{
        let dims: &[usize] = $dims;
        let one: Tensor<u64, DynRank> = Tensor::from(vec![1]).into_shape(&[][..]);
        let tail = tens::<u64>(&dims[$c.rng.range(0, dims.len())..]);
        match $c.rng.below(6) {
            0 => parts_mut($c, concat!($what, " beside a scalar"), $e.zip(&one).map(|(v, _)| v), $want, $base, $start),
            1 => parts_mut($c, concat!("scalar beside ", $what), one.expr().zip($e).map(|(_, v)| v), $want, $base, $start),
            2 => parts_mut($c, concat!($what, " beside an array"), $e.zip(&tail).map(|(v, _)| v), $want, $base, $start),
            3 => parts_mut($c, concat!("array beside ", $what), tail.expr().zip($e).map(|(_, v)| v), $want, $base, $start),
            _ => parts_mut($c, $what, $e, $want, $base, $start),
        }
    }};
}

fn write<A: Axis, S: Shape, L: Layout>(
    a: A,
    c: &mut Case,
    s: &mut Slice<u64, S, L>,
    m: &MV,
    axis: Option<usize>,
    want: &mut [u64],
) {
    c.log(|| format!("mutable axis {a:?} = {axis:?} of {:?}", m.dims));
    match axis {
        None => {
            assert!(panics(|| s.axis_expr_mut(a).len()), "axis_expr_mut({a:?}) of rank {} is accepted", m.rank());
            assert!(panics(|| s.lanes_mut(a).len()), "lanes_mut({a:?}) of rank {} is accepted", m.rank());
        }
        Some(k) => {
            if c.rng.chance(1, 2) {
                parts_mut(c, "axis_expr_mut", s.axis_expr_mut(a), &m.subarrays(k), want, MARK);
            } else {
                parts_mut(c, "lanes_mut", s.lanes_mut(a), &m.lanes(k), want, 2 * MARK);
            }
            c.seen(&[sig(m), k as u64]);
        }
    }
}

fn write_all<S: Shape, L: Layout>(c: &mut Case, s: &mut Slice<u64, S, L>, m: &MV, want: &mut [u64]) {
    let r = m.rank();
    let k = c.rng.below(12);
    let dynamic = if c.rng.chance(1, 8) { *c.rng.pick(&[r, 9, usize::MAX]) } else { c.rng.below(r.max(1)) };
    let axis = axis_index(k, dynamic, r);
    with_axis!(k, dynamic, write, c, s, m, axis, want);
    match c.rng.below(3) {
        0 if r > 0 => parts_mut(c, "outer_expr_mut", s.outer_expr_mut(), &m.subarrays(0), want, 3 * MARK),
        1 if r > 0 => parts_mut(c, "rows_mut", s.rows_mut(), &m.lanes(r - 1), want, 4 * MARK),
        _ if r > 1 => parts_mut(c, "cols_mut", s.cols_mut(), &m.lanes(r - 2), want, 5 * MARK),
        _ => assert!(panics(|| s.cols_mut().len()), "cols_mut of rank {r} is accepted"),
    }
}

fn writes(c: &mut Case) {
    let dims = base_dims(c, 0, 7);
    let mut t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let mut want: Vec<u64> = vals(t.len(), 0);
    let got = match c.rng.below(4) {
        0 => {
            write_all(c, &mut t, &m, &mut want);
            t.into_vec()
        }
        1 => as_rank_t!(t, dims.len(), x => { let mut x = x; write_all(c, &mut x, &m, &mut want); x.into_vec() }),
        2 => {
            let steps = c.rng.range(0, 3);
            let (mut v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
            write_all(c, &mut v, &m, &mut want);
            t.into_vec()
        }
        _ => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => { let mut x = x; write_all(c, &mut x, &m, &mut want) });
            t.into_vec()
        }
    };
    assert!(got == want, "base after writing through the parts is {got:?}, expected {want:?}");
}

fn aside<A: Axis, S: Shape, L: Layout>(a: A, c: &mut Case, s: &Slice<u64, S, L>, m: &MV, base: *const u64, axis: Option<usize>) {
    let Some(k) = axis else { return };
    let r = m.rank();
    c.log(|| format!("axis {a:?} of {:?} beside others", m.dims));
    if c.rng.chance(1, 2) {
        beside!(c, "axis_expr", s.axis_expr(a), &[m.dims[k]], &m.subarrays(k), base);
    } else {
        beside!(c, "lanes", s.lanes(a), &others(m, k), &m.lanes(k), base);
    }
    match c.rng.below(3) {
        0 => beside!(c, "outer_expr", s.outer_expr(), &m.dims[..1], &m.subarrays(0), base),
        1 => beside!(c, "rows", s.rows(), &others(m, r - 1), &m.lanes(r - 1), base),
        _ if r > 1 => beside!(c, "cols", s.cols(), &others(m, r - 2), &m.lanes(r - 2), base),
        _ => {}
    }
    c.seen(&[sig(m), k as u64]);
}

fn aside_mut<A: Axis, S: Shape, L: Layout>(a: A, c: &mut Case, s: &mut Slice<u64, S, L>, m: &MV, axis: Option<usize>, want: &mut [u64]) {
    let Some(k) = axis else { return };
    let r = m.rank();
    c.log(|| format!("mutable axis {a:?} of {:?} beside others", m.dims));
    match c.rng.below(5) {
        0 => beside_mut!(c, "axis_expr_mut", s.axis_expr_mut(a), &[m.dims[k]], &m.subarrays(k), want, MARK),
        1 => beside_mut!(c, "lanes_mut", s.lanes_mut(a), &others(m, k), &m.lanes(k), want, 2 * MARK),
        2 => beside_mut!(c, "outer_expr_mut", s.outer_expr_mut(), &m.dims[..1], &m.subarrays(0), want, 3 * MARK),
        3 => beside_mut!(c, "rows_mut", s.rows_mut(), &others(m, r - 1), &m.lanes(r - 1), want, 4 * MARK),
        _ if r > 1 => beside_mut!(c, "cols_mut", s.cols_mut(), &others(m, r - 2), &m.lanes(r - 2), want, 5 * MARK),
        _ => {}
    }
    c.seen(&[sig(m), k as u64]);
}

macro_rules! few_axes {
    ($k:expr, $dyn:expr, $f:ident, $($arg:expr),*) => {
        match $k {
            0 => $f(Const::<0>, $($arg),*),
            2 => $f(Const::<2>, $($arg),*),
            6 => $f(Cols, $($arg),*),
            7 => $f(Rows, $($arg),*),
            _ => $f($dyn, $($arg),*),
        }
    };
}

/// Expressions of parts that are stepped dimension by dimension, next to other operands.
fn asides(c: &mut Case) {
    let dims = base_dims(c, 1, 6);
    let mut t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let k = *c.rng.pick(&[0, 2, 6, 7, 8, 8]);
    let steps = c.rng.range(0, 3);
    let kind = c.rng.below(6);
    let base = t.as_ptr();
    if kind < 3 {
        let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
        let r = m.rank();
        if r == 0 {
            return;
        }
        let dynamic = c.rng.below(r);
        let axis = axis_index(k, dynamic, r);
        match kind {
            0 => few_axes!(k, dynamic, aside, c, &v, &m, base, axis),
            1 => match r {
                1 => few_axes!(k, dynamic, aside, c, &v.into_mapping::<Rank<1>, Strided>(), &m, base, axis),
                2 => few_axes!(k, dynamic, aside, c, &v.into_mapping::<Rank<2>, Strided>(), &m, base, axis),
                3 => few_axes!(k, dynamic, aside, c, &v.into_mapping::<Rank<3>, Strided>(), &m, base, axis),
                4 => aside(dynamic, c, &v.into_mapping::<Rank<4>, Strided>(), &m, base, Some(dynamic)),
                _ => aside(dynamic, c, &v, &m, base, Some(dynamic)),
            },
            _ => {
                let m = MV::dense(&dims);
                let dynamic = c.rng.below(dims.len());
                few_axes!(k, dynamic, aside, c, &t, &m, base, axis_index(k, dynamic, dims.len()))
            }
        }
        return;
    }
    let mut want: Vec<u64> = vals(t.len(), 0);
    if kind == 3 {
        let dynamic = c.rng.below(dims.len());
        few_axes!(k, dynamic, aside_mut, c, &mut t, &m, axis_index(k, dynamic, dims.len()), &mut want);
    } else {
        let (mut v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
        let r = m.rank();
        if r == 0 {
            return;
        }
        let dynamic = c.rng.below(r);
        match r {
            2 if kind == 4 => few_axes!(k, dynamic, aside_mut, c, &mut v.into_mapping::<Rank<2>, Strided>(), &m, axis_index(k, dynamic, r), &mut want),
            3 if kind == 4 => few_axes!(k, dynamic, aside_mut, c, &mut v.into_mapping::<Rank<3>, Strided>(), &m, axis_index(k, dynamic, r), &mut want),
            _ => few_axes!(k, dynamic, aside_mut, c, &mut v, &m, axis_index(k, dynamic, r), &mut want),
        }
    }
    let got = t.into_vec();
    assert!(got == want, "base after writing through the parts is {got:?}, expected {want:?}");
}

/// Expressions of parts combined with others, with broadcasting, and reductions.
fn combined(c: &mut Case) {
    let dims = base_dims(c, 2, 4);
    let t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let k = c.rng.below(dims.len());
    c.log(|| format!("combined along {k} of {dims:?}"));
    let sum = |m: &MV| m.idx.iter().fold(0u64, |a, &i| a.wrapping_mul(3).wrapping_add(u64::make(i as u64)));
    let red = |v: &mut dyn Iterator<Item = u64>| v.fold(0u64, |a, x| a.wrapping_mul(3).wrapping_add(x));
    // Reduction along an axis.
    let want: Vec<u64> = m.lanes(k).iter().map(sum).collect();
    let got = t.lanes(k).map(|v| red(&mut v.iter().copied())).eval();
    chk_vals(c, &got, &others(&m, k), &want);
    let want: Vec<u64> = m.subarrays(k).iter().map(sum).collect();
    let got = t.axis_expr(k).map(|v| red(&mut v.iter().copied())).eval();
    chk_vals(c, &got, &[dims[k]], &want);
    // Zipped with an array that has the shape of the expression, and with one of higher rank.
    let o = others(&m, k);
    let u = tens_from::<u64>(&o, 50);
    let want: Vec<u64> = m.lanes(k).iter().enumerate().map(|(i, l)| sum(l) ^ u64::make(50 + i as u64)).collect();
    let got = t.lanes(k).zip(&u).map(|(v, x)| red(&mut v.iter().copied()) ^ x).eval();
    chk_vals(c, &got, &o, &want);
    let rep = c.rng.range(1, 3);
    let mut high = vec![rep];
    high.extend(&o);
    let u = tens_from::<u64>(&high, 80);
    let n = product(&o);
    let l = m.lanes(k);
    let want: Vec<u64> = (0..rep * n).map(|i| sum(&l[i % n]) ^ u64::make(80 + i as u64)).collect();
    let got = u.expr().zip(t.lanes(k)).map(|(x, v)| red(&mut v.iter().copied()) ^ x).eval();
    chk_vals(c, &got, &high, &want);
    // The same for the axis expression.
    let high = [rep, dims[k]];
    let u = tens_from::<u64>(&high, 80);
    let l = m.subarrays(k);
    let want: Vec<u64> = (0..rep * dims[k]).map(|i| sum(&l[i % dims[k]]) ^ u64::make(80 + i as u64)).collect();
    let got = u.expr().zip(t.axis_expr(k)).map(|(x, v)| red(&mut v.iter().copied()) ^ x).eval();
    chk_vals(c, &got, &high, &want);
    // Two lane expressions of different layout side by side.
    let v = t.permute(perm(&mut c.rng, dims.len()));
    let mv = {
        let p: Vec<usize> = (0..dims.len()).collect();
        let _ = p;
        v.iter().copied().collect::<Vec<u64>>()
    };
    let pm = MV { dims: (0..v.rank()).map(|i| v.dim(i)).collect(), idx: mv.iter().map(|&x| (x ^ u64::make(0)) as usize).collect() };
    let q = c.rng.below(dims.len());
    let (a, b) = (pm.lanes(q), pm.lanes(q));
    let tt = v.to_tensor();
    let want: Vec<u64> = a.iter().zip(&b).map(|(x, y)| sum(x) ^ sum(y).rotate_left(1)).collect();
    let got = v.lanes(q).zip(tt.lanes(q)).map(|(x, y)| red(&mut x.iter().copied()) ^ red(&mut y.iter().copied()).rotate_left(1)).eval();
    chk_vals(c, &got, &others(&pm, q), &want);
    c.seen(&[sig(&m), k as u64, q as u64]);
}

/// Constant shapes.
fn consts(c: &mut Case) {
    let mut a: Array<u64, (Const<2>, Const<3>, Const<4>)> =
        Array::from_fn(|i| u64::make((i[0] * 12 + i[1] * 4 + i[2]) as u64));
    let m = MV::dense(&[2, 3, 4]);
    read_all(c, &a, &m, a.as_ptr());
    let mut want: Vec<u64> = vals(24, 0);
    write_all(c, &mut a, &m, &mut want);
    assert!(a[..] == want[..], "array after writing through the parts is {:?}", &a[..]);
    let n = c.rng.range(0, 4);
    let mut t: Tensor<u64, (usize, Const<3>)> = Tensor::from(vals::<u64>(3 * n, 0)).into_shape((n, Const::<3>));
    let m = MV::dense(&[n, 3]);
    read_all(c, &t, &m, t.as_ptr());
    let mut want: Vec<u64> = vals(3 * n, 0);
    write_all(c, &mut t, &m, &mut want);
    assert!(t[..] == want[..], "tensor after writing through the parts is {:?}", &t[..]);
    c.seen(&[n as u64]);
}

/// Nested: subarrays of subarrays, mutable, down to the elements.
fn nested(c: &mut Case) {
    let dims = base_dims(c, 1, 4);
    let mut t = tens::<u64>(&dims);
    let mut n = 0;
    fn rec<L: Layout>(c: &mut Case, v: &mut ViewMut<u64, mdarray::DynRank, L>, n: &mut u64) {
        if v.rank() == 0 {
            v[0] = *n;
            *n += 1;
        } else if c.rng.chance(1, 2) {
            for mut w in v.outer_expr_mut() {
                rec(c, &mut w, n);
            }
        } else {
            for mut w in v.axis_expr_mut(0usize) {
                rec(c, &mut w.expr_mut().into_dyn(), n);
            }
        }
    }
    rec(c, &mut t.expr_mut(), &mut n);
    assert!(n as usize == t.len());
    for i in 0..t.len() {
        assert!(t[i] == i as u64, "element {i} was visited as number {}", t[i]);
    }
    c.seen(&[sig(&MV::dense(&dims))]);
}

pub fn run(r: &mut Runner) {
    r.section("read-u32", 1500, 8, reads::<u32>);
    r.section("read-string", 200, 2, reads::<String>);
    r.section("read-zst", 200, 2, reads::<Z>);
    r.section("read-aligned", 150, 1, reads::<A64>);
    r.section("read-odd", 150, 1, reads::<[u16; 3]>);
    r.section("read-u8", 150, 1, reads::<u8>);
    r.section("strides", 1000, 4, strides::<u32>);
    r.section("write", 2000, 10, writes);
    r.section("beside", 3000, 10, asides);
    r.section("combined", 600, 4, combined);
    r.section("const", 200, 2, consts);
    r.section("nested", 300, 3, nested);
    if !r.is_miri() {
        r.section("huge-lines", 1500, 0, huge::lines);
        r.section("huge-u8", 1500, 0, |c| huge::case::<u8>(c, huge::VIEWS | huge::PERMS | huge::AXES | huge::LANES));
        r.section("huge-u32", 1000, 0, |c| huge::case::<u32>(c, huge::VIEWS | huge::PERMS | huge::AXES | huge::LANES));
    }
    r.large("read-large", 2, reads::<u32>);
    r.large("write-large", 4, writes);
    r.large("combined-large", 1, combined);
}
