//! C04: indexing or splitting along an axis and taking a row, column or diagonal.

use mdarray::index::{Axis, Cols, Rows};
use mdarray::{Array, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};
use vh::huge;
use vh::chain::*;
use vh::*;

vh::check_main!("C04", run);

const MARK: u64 = 1 << 40;

/// Runs `$f` with the axis number `$k` of the list of axis types.
macro_rules! with_axis {
    ($k:expr, $dyn:expr, $f:ident, $($arg:expr),*) => {
        match $k {
            0 => $f(Const::<0>, $($arg),*),
            1 => $f(Const::<1>, $($arg),*),
            2 => $f(Const::<2>, $($arg),*),
            3 => $f(Const::<3>, $($arg),*),
            4 => $f(Const::<4>, $($arg),*),
            5 => $f(Const::<5>, $($arg),*),
            6 => $f(Cols, $($arg),*),
            7 => $f(Rows, $($arg),*),
            _ => $f($dyn, $($arg),*),
        }
    };
}

/// The dimension an axis number stands for, if it exists for the rank.
fn axis_index(k: usize, dynamic: usize, rank: usize) -> Option<usize> {
    let i = match k {
        0..=5 => k,
        6 => rank.checked_sub(2)?,
        7 => rank.checked_sub(1)?,
        _ => dynamic,
    };
    (i < rank).then_some(i)
}

/// Positions to try: valid ones and ones that must be refused.
fn position(c: &mut Case, d: usize, incl: bool) -> usize {
    let hi = if incl { d } else { d.max(1) - 1 };
    if c.rng.chance(1, 6) {
        let first = if incl { d + 1 } else { d };
        *c.rng.pick(&[first, first + 1, first + 5, usize::MAX, 1 << 63, 1 << 61])
    } else {
        *c.rng.pick(&[0, hi, c.rng.clone().range(0, hi), c.rng.clone().range(0, hi)])
    }
}

fn read<A: Axis, T: El, S: Shape, L: Layout>(
    a: A,
    c: &mut Case,
    s: &Slice<T, S, L>,
    m: &MV,
    base: *const T,
    axis: Option<usize>,
) {
    let d = axis.map_or(1, |k| m.dims[k]);
    let i = position(c, d, false);
    let mid = position(c, d, true);
    c.log(|| format!("axis {a:?} = {axis:?}, index {i}, split at {mid} of {:?}", m.dims));
    match axis.and_then(|k| m.axis_at(k, i)) {
        Some(n) => {
            chk(c, &s.axis_at(a, i), &n, base, 0);
            chk_lite(c, &s.expr().into_axis_at(a, i), &n, base, 0);
            c.seen(&[sig(m), axis.unwrap() as u64, i as u64]);
        }
        None => {
            assert!(panics(|| s.axis_at(a, i).len()), "axis_at({a:?}, {i}) of {:?} is accepted", m.dims);
            assert!(panics(|| s.expr().into_axis_at(a, i).len()), "into_axis_at({a:?}, {i}) is accepted");
            c.ev("invalid requests refused", 2);
        }
    }
    match axis.and_then(|k| m.split(k, mid)) {
        Some((p, q)) => {
            let (x, y) = s.split_axis_at(a, mid);
            chk(c, &x, &p, base, 0);
            chk(c, &y, &q, base, 0);
            let (x, y) = s.expr().into_split_axis_at(a, mid);
            chk_lite(c, &x, &p, base, 0);
            chk_lite(c, &y, &q, base, 0);
            c.seen(&[sig(m), axis.unwrap() as u64, mid as u64, 1]);
        }
        None => {
            assert!(panics(|| s.split_axis_at(a, mid).0.len()), "split_axis_at({a:?}, {mid}) of {:?} is accepted", m.dims);
            assert!(panics(|| s.expr().into_split_axis_at(a, mid).0.len()), "into_split_axis_at({a:?}, {mid}) is accepted");
            c.ev("invalid requests refused", 2);
        }
    }
}

fn read_all<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    for _ in 0..2 {
        let k = c.rng.below(12);
        let dynamic = if c.rng.chance(1, 8) { *c.rng.pick(&[m.rank(), 9, usize::MAX]) } else { c.rng.below(m.rank().max(1)) };
        let axis = axis_index(k, dynamic, m.rank());
        with_axis!(k, dynamic, read, c, s, m, base, axis);
    }
    // The first dimension.
    let d = m.dims.first().copied().unwrap_or(1);
    let (i, mid) = (position(c, d, false), position(c, d, true));
    match m.axis_at(0, i) {
        Some(n) => {
            chk_lite(c, &s.at(i), &n, base, 0);
            chk_lite(c, &s.expr().into_at(i), &n, base, 0);
        }
        None => assert!(panics(|| s.at(i).len()) && panics(|| s.expr().into_at(i).len()), "at({i}) of {:?} accepted", m.dims),
    }
    match m.split(0, mid) {
        Some((p, q)) => {
            let (x, y) = s.split_at(mid);
            chk_lite(c, &x, &p, base, 0);
            chk_lite(c, &y, &q, base, 0);
            let (x, y) = s.expr().into_split_at(mid);
            chk_lite(c, &x, &p, base, 0);
            chk_lite(c, &y, &q, base, 0);
        }
        None => assert!(panics(|| s.split_at(mid).0.len()) && panics(|| s.expr().into_split_at(mid).0.len()),
            "split_at({mid}) of {:?} accepted", m.dims),
    }
}

fn reads<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let t = tens::<T>(&dims);
    let base = t.as_ptr();
    let m = MV::dense(&dims);
    c.log(|| format!("base {dims:?} of {}", T::NAME));
    match c.rng.below(4) {
        0 => read_all(c, &t, &m, base),
        1 => as_rank_t!(t, dims.len(), x => read_all(c, &x, &m, x.as_ptr())),
        2 => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            read_all(c, &v, &m, base);
        }
        _ => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => read_all(c, &x, &m, base));
        }
    }
}

/// Shared views with any strides, also such that elements coincide.
fn strides<T: El>(c: &mut Case) {
    let buf: Vec<T> = vals(60, 0);
    let (d, s, off, m) = any_strides(c, buf.len());
    let v = view_strides(&buf, &d, &s, off);
    let base = buf.as_ptr();
    let steps = c.rng.range(0, 2);
    let (v, m) = chain(c, v, m, steps);
    if c.rng.chance(1, 3) {
        read_all(c, &v, &m, base);
    } else {
        as_rank!(v, m.rank(), x => read_all(c, &x, &m, base));
    }
}

/// Writes marks through a mutable part and returns what the base must contain.
fn mark<S: Shape, L: Layout>(c: &mut Case, v: &mut Slice<u64, S, L>, m: &MV, start: u64, want: &mut [u64]) {
    chk_shape(v, &m.dims);
    let mut k = 0;
    if c.rng.chance(1, 2) {
        for x in v.iter_mut() {
            *x = start + k as u64;
            k += 1;
        }
    } else {
        each_index(&m.dims, |i| {
            v[i] = start + k as u64;
            k += 1;
        });
    }
    assert!(k == m.len(), "{k} elements of {} written", m.len());
    for (k, &i) in m.idx.iter().enumerate() {
        want[i] = start + k as u64;
    }
    c.ev("elements written", k);
}

fn write<A: Axis, S: Shape, L: Layout>(
    a: A,
    c: &mut Case,
    s: &mut Slice<u64, S, L>,
    m: &MV,
    axis: Option<usize>,
    want: &mut [u64],
) {
    let d = axis.map_or(1, |k| m.dims[k]);
    let i = position(c, d, false);
    let mid = position(c, d, true);
    c.log(|| format!("mutable axis {a:?} = {axis:?}, index {i}, split at {mid} of {:?}", m.dims));
    match axis.and_then(|k| m.split(k, mid)) {
        Some((p, q)) => {
            let (mut x, mut y) =
                if c.rng.chance(1, 2) { s.split_axis_at_mut(a, mid) } else { s.expr_mut().into_split_axis_at(a, mid) };
            // Both halves are used alternately while the other one is live.
            mark(c, &mut x, &p, MARK, want);
            mark(c, &mut y, &q, 2 * MARK, want);
            mark(c, &mut x, &p, 3 * MARK, want);
            c.seen(&[sig(m), axis.unwrap() as u64, mid as u64, 1]);
        }
        None => {
            assert!(panics(|| s.split_axis_at_mut(a, mid).0.len()), "split_axis_at_mut({a:?}, {mid}) of {:?} is accepted", m.dims);
            assert!(panics(|| s.expr_mut().into_split_axis_at(a, mid).0.len()));
            c.ev("invalid requests refused", 2);
        }
    }
    match axis.and_then(|k| m.axis_at(k, i)) {
        Some(n) => {
            if c.rng.chance(1, 2) {
                mark(c, &mut s.axis_at_mut(a, i), &n, 4 * MARK, want);
            } else {
                mark(c, &mut s.expr_mut().into_axis_at(a, i), &n, 4 * MARK, want);
            }
            c.seen(&[sig(m), axis.unwrap() as u64, i as u64]);
        }
        None => {
            assert!(panics(|| s.axis_at_mut(a, i).len()), "axis_at_mut({a:?}, {i}) of {:?} is accepted", m.dims);
            assert!(panics(|| s.expr_mut().into_axis_at(a, i).len()));
            c.ev("invalid requests refused", 2);
        }
    }
}

fn write_all<S: Shape, L: Layout>(c: &mut Case, s: &mut Slice<u64, S, L>, m: &MV, want: &mut [u64]) {
    let k = c.rng.below(12);
    let dynamic = if c.rng.chance(1, 8) { *c.rng.pick(&[m.rank(), 9, usize::MAX]) } else { c.rng.below(m.rank().max(1)) };
    let axis = axis_index(k, dynamic, m.rank());
    with_axis!(k, dynamic, write, c, s, m, axis, want);
    let d = m.dims.first().copied().unwrap_or(1);
    let (i, mid) = (position(c, d, false), position(c, d, true));
    match m.axis_at(0, i) {
        Some(n) => mark(c, &mut s.at_mut(i), &n, 5 * MARK, want),
        None => assert!(panics(|| s.at_mut(i).len()), "at_mut({i}) of {:?} accepted", m.dims),
    }
    match m.split(0, mid) {
        Some((p, q)) => {
            let (mut x, mut y) = s.split_at_mut(mid);
            mark(c, &mut y, &q, 6 * MARK, want);
            mark(c, &mut x, &p, 7 * MARK, want);
        }
        None => assert!(panics(|| s.split_at_mut(mid).0.len()), "split_at_mut({mid}) of {:?} accepted", m.dims),
    }
}

#[track_caller]
fn check_base(got: &[u64], want: &[u64]) {
    for i in 0..want.len() {
        assert!(got[i] == want[i], "base element {i} is {:#x}, expected {:#x}", got[i], want[i]);
    }
}

fn writes(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let mut t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let mut want: Vec<u64> = vals(t.len(), 0);
    c.log(|| format!("base {dims:?}"));
    match c.rng.below(4) {
        0 => write_all(c, &mut t, &m, &mut want),
        1 => {
            let got = as_rank_t!(t, dims.len(), x => { let mut x = x; write_all(c, &mut x, &m, &mut want); x.into_vec() });
            check_base(&got, &want);
            return;
        }
        2 => {
            let steps = c.rng.range(0, 3);
            let (mut v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
            write_all(c, &mut v, &m, &mut want);
        }
        _ => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => { let mut x = x; write_all(c, &mut x, &m, &mut want) });
        }
    }
    check_base(&t[..], &want);
}

/// Rows, columns and diagonals; the rank may be wrong.
fn lines<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    let (r, n) = if m.rank() == 2 { (m.dims[0], m.dims[1]) } else { (1, 1) };
    let i = position(c, r, false);
    let j = position(c, n, false);
    let k = match c.rng.below(8) {
        0 => *c.rng.pick(&[n as isize + 1, -(r as isize) - 1, isize::MAX, isize::MIN, isize::MIN + 1, 1 << 62]),
        1 => n as isize,
        2 => -(r as isize),
        3 => 0,
        _ => c.rng.irange(-(r as isize), n as isize),
    };
    c.log(|| format!("row {i}, column {j}, diagonal {k} of {:?}", m.dims));
    match (m.rank() == 2).then(|| m.axis_at(0, i)).flatten() {
        Some(w) => {
            chk(c, &s.row(i), &w, base, 0);
            chk_lite(c, &s.expr().into_row(i), &w, base, 0);
        }
        None => assert!(panics(|| s.row(i).len()) && panics(|| s.expr().into_row(i).len()), "row({i}) of {:?} accepted", m.dims),
    }
    match (m.rank() == 2).then(|| m.axis_at(1, j)).flatten() {
        Some(w) => {
            chk(c, &s.col(j), &w, base, 0);
            chk_lite(c, &s.expr().into_col(j), &w, base, 0);
        }
        None => assert!(panics(|| s.col(j).len()) && panics(|| s.expr().into_col(j).len()), "col({j}) of {:?} accepted", m.dims),
    }
    match m.diag(k) {
        Some(w) => {
            chk(c, &s.diag(k), &w, base, 0);
            chk_lite(c, &s.expr().into_diag(k), &w, base, 0);
        }
        None => {
            assert!(panics(|| s.diag(k).len()) && panics(|| s.expr().into_diag(k).len()), "diag({k}) of {:?} accepted", m.dims);
            c.ev("invalid requests refused", 2);
        }
    }
    c.seen(&[sig(m), i as u64, j as u64, k as u64]);
}

fn two_dim<T: El>(c: &mut Case) {
    let rank = *c.rng.pick(&[2, 2, 2, 2, 2, 2, 0, 1, 3, 4]);
    let dims = base_dims(c, rank, rank);
    let t = tens::<T>(&dims);
    let base = t.as_ptr();
    let m = MV::dense(&dims);
    match c.rng.below(5) {
        0 => lines(c, &t, &m, base),
        1 if rank == 2 => lines(c, &t.remap::<Rank<2>, Dense>(), &m, base),
        2 if rank != 2 => {
            let (v, m) = chain(c, t.expr().into_mapping(), m, 1);
            as_rank!(v, m.rank(), x => lines(c, &x, &m, base));
        }
        x => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            if x < 4 && m.rank() == 2 {
                lines(c, &v.into_mapping::<Rank<2>, Strided>(), &m, base)
            } else {
                lines(c, &v, &m, base)
            }
        }
    }
}

fn lines_mut<S: Shape, L: Layout>(c: &mut Case, s: &mut Slice<u64, S, L>, m: &MV, want: &mut [u64]) {
    let (r, n) = (m.dims[0], m.dims[1]);
    let i = position(c, r, false);
    let j = position(c, n, false);
    let k = c.rng.irange(-(r as isize) - 1, n as isize + 1);
    c.log(|| format!("mutable row {i}, column {j}, diagonal {k} of {:?}", m.dims));
    let own = c.rng.chance(1, 2);
    match m.axis_at(0, i) {
        Some(w) if own => mark(c, &mut s.row_mut(i), &w, MARK, want),
        Some(w) => mark(c, &mut s.expr_mut().into_row(i), &w, MARK, want),
        None => assert!(panics(|| s.row_mut(i).len()), "row_mut({i}) accepted"),
    }
    match m.axis_at(1, j) {
        Some(w) if own => mark(c, &mut s.col_mut(j), &w, 2 * MARK, want),
        Some(w) => mark(c, &mut s.expr_mut().into_col(j), &w, 2 * MARK, want),
        None => assert!(panics(|| s.col_mut(j).len()), "col_mut({j}) accepted"),
    }
    match m.diag(k) {
        Some(w) if own => mark(c, &mut s.diag_mut(k), &w, 3 * MARK, want),
        Some(w) => mark(c, &mut s.expr_mut().into_diag(k), &w, 3 * MARK, want),
        None => assert!(panics(|| s.diag_mut(k).len()), "diag_mut({k}) of {:?} accepted", m.dims),
    }
    c.seen(&[sig(m), i as u64, j as u64, k as u64]);
}

fn two_dim_mut(c: &mut Case) {
    let dims = base_dims(c, 2, 2);
    let mut t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let mut want: Vec<u64> = vals(t.len(), 0);
    match c.rng.below(4) {
        0 => lines_mut(c, &mut t, &m, &mut want),
        1 => lines_mut(c, &mut t.remap_mut::<Rank<2>, Dense>(), &m, &mut want),
        x => {
            let (mut v, mut m) = (t.expr_mut().into_mapping::<DynRank, Strided>(), m);
            if c.rng.chance(1, 2) {
                (v, m) = (v.into_reordered(), m.reversed());
            }
            let s: Vec<Sel> = m.dims.iter().map(|&d| {
                let (a, b) = range(&mut c.rng, d);
                Sel::Step(a, b, *c.rng.pick(&[1, -1, 2, -3]))
            }).collect();
            let st = |k: usize| match s[k] {
                Sel::Step(a, b, n) => mdarray::step(a..b, n),
                _ => unreachable!(),
            };
            let mut w = v.into_mapping::<Rank<2>, Strided>().into_view(st(0), st(1));
            m = m.select(&s).unwrap();
            if x == 2 { lines_mut(c, &mut w, &m, &mut want) } else { lines_mut(c, &mut w.into_dyn(), &m, &mut want) }
        }
    }
    check_base(&t[..], &want);
}

/// Constant shapes: the type of the result keeps the other constant dimensions.
fn consts(c: &mut Case) {
    let mut a: Array<u64, (Const<2>, Const<3>, Const<4>)> =
        Array::from_fn(|i| u64::make((i[0] * 12 + i[1] * 4 + i[2]) as u64));
    let m = MV::dense(&[2, 3, 4]);
    let base = a.as_ptr();
    read_all(c, &a, &m, base);
    let i = [c.rng.below(2), c.rng.below(3), c.rng.below(4)];
    {
        let x: View<u64, (Const<3>, Const<4>), Dense> = a.axis_at(Const::<0>, i[0]);
        chk(c, &x, &m.axis_at(0, i[0]).unwrap(), base, 0);
        let x: View<u64, (Const<2>, Const<4>), Strided> = a.axis_at(Const::<1>, i[1]);
        chk(c, &x, &m.axis_at(1, i[1]).unwrap(), base, 0);
        let x: View<u64, (Const<2>, Const<3>), Strided> = a.axis_at(Rows, i[2]);
        chk(c, &x, &m.axis_at(2, i[2]).unwrap(), base, 0);
        let x: View<u64, (Const<2>, Const<4>), Strided> = a.axis_at(Cols, i[1]);
        chk(c, &x, &m.axis_at(1, i[1]).unwrap(), base, 0);
        let (x, y): (View<u64, (usize, Const<3>, Const<4>), Dense>, _) = a.split_at(i[0]);
        let (p, q) = m.split(0, i[0]).unwrap();
        chk(c, &x, &p, base, 0);
        chk(c, &y, &q, base, 0);
    }
    let mut want: Vec<u64> = vals(24, 0);
    write_all(c, &mut a, &m, &mut want);
    check_base(&a[..], &want);

    let mut b: Array<u64, (Const<3>, Const<4>)> = Array::from_fn(|i| u64::make((i[0] * 4 + i[1]) as u64));
    let m = MV::dense(&[3, 4]);
    lines(c, &b, &m, b.as_ptr());
    let mut want: Vec<u64> = vals(12, 0);
    lines_mut(c, &mut b, &m, &mut want);
    check_base(&b[..], &want);

    let n = c.rng.range(0, 5);
    let mut t: Tensor<u64, (usize, Const<3>)> = Tensor::from(vals::<u64>(3 * n, 0)).into_shape((n, Const::<3>));
    let m = MV::dense(&[n, 3]);
    read_all(c, &t, &m, t.as_ptr());
    lines(c, &t, &m, t.as_ptr());
    let mut want: Vec<u64> = vals(3 * n, 0);
    lines_mut(c, &mut t, &m, &mut want);
    check_base(&t[..], &want);
}

/// Recursive splitting down to single elements: the parts are disjoint and cover the array.
fn recursive(c: &mut Case) {
    let dims = base_dims(c, 1, 5);
    let mut t = tens::<u64>(&dims);
    let mut n = 0;
    fn rec(c: &mut Case, v: ViewMut<u64, DynRank, Strided>, n: &mut u64) {
        if v.is_empty() {
            return;
        }
        match (0..v.rank()).filter(|&k| v.dim(k) > 1).last() {
            None => {
                let mut v = v;
                for x in v.iter_mut() {
                    assert!(*x < MARK, "an element is reached twice");
                    *x = MARK + *n;
                    *n += 1;
                }
            }
            Some(_) => {
                let cand: Vec<usize> = (0..v.rank()).filter(|&k| v.dim(k) > 1).collect();
                let k = *c.rng.pick(&cand);
                let mid = c.rng.range(1, v.dim(k) - 1);
                let (a, b) = v.into_split_axis_at(k, mid);
                rec(c, a, n);
                rec(c, b, n);
            }
        }
    }
    for x in t.iter_mut() {
        *x = 0;
    }
    rec(c, t.expr_mut().into_mapping(), &mut n);
    assert!(n as usize == t.len(), "{n} of {} elements reached by splitting", t.len());
    assert!(t.iter().all(|&x| x >= MARK), "an element is not reached by splitting");
    c.ev("elements reached by recursive splitting", n as usize);
    c.seen(&[sig(&MV::dense(&dims)), n]);
}

pub fn run(r: &mut Runner) {
    r.section("axis-u32", 1500, 8, reads::<u32>);
    r.section("axis-string", 300, 3, reads::<String>);
    r.section("axis-aligned", 300, 3, reads::<A64>);
    r.section("axis-u8", 200, 1, reads::<u8>);
    r.section("axis-odd", 200, 1, reads::<[u16; 3]>);
    r.section("axis-box", 200, 1, reads::<Box<u64>>);
    r.section("lines-aligned", 200, 1, two_dim::<A64>);
    r.section("lines-odd", 200, 1, two_dim::<[u16; 3]>);
    r.section("axis-zst", 300, 2, reads::<Z>);
    r.section("strides", 1000, 4, strides::<u32>);
    r.section("axis-mut", 1500, 8, writes);
    r.section("lines-u32", 2000, 6, two_dim::<u32>);
    r.section("lines-box", 400, 2, two_dim::<Box<u64>>);
    r.section("lines-zst", 300, 2, two_dim::<Z>);
    r.section("lines-mut", 1500, 8, two_dim_mut);
    r.section("const", 300, 2, consts);
    r.section("recursive", 300, 3, recursive);
    if !r.is_miri() {
        r.section("huge-lines", 1500, 0, huge::lines);
        r.section("huge-u8", 1500, 0, |c| huge::case::<u8>(c, huge::AXES | huge::VIEWS));
        r.section("huge-u32", 1000, 0, |c| huge::case::<u32>(c, huge::AXES | huge::VIEWS));
    }
    r.large("axis-large", 4, reads::<u32>);
    r.large("axis-mut-large", 6, writes);
    r.large("lines-large", 6, two_dim::<u32>);
    r.large("lines-mut-large", 4, two_dim_mut);
}
