//! C03: range and step views select exactly the requested subarray.

use mdarray::{step, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};
use std::ops::Bound;
use vh::huge;
use vh::chain::*;
use vh::*;

vh::check_main!("C03", run);

/// Nested dispatch of run-time selections to the statically typed index combinations.
macro_rules! disp {
    ($k:tt, $leaf:ident, $x:tt, $s:expr, $n:expr; ; $($a:ident)*) => { $leaf!($x, $($a),*) };
    (all, $leaf:ident, $x:tt, $s:expr, $n:expr; $h:ident $($t:ident)*; $($a:ident)*) => {
        match $s[$n] {
            Sel::At(i) => { let $h = i; disp!(all, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            Sel::Full => { let $h = ..; disp!(all, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            Sel::Range(p, q) => { let $h = p..q; disp!(all, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            Sel::Step(p, q, k) => { let $h = step(p..q, k); disp!(all, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
        }
    };
    (ar, $leaf:ident, $x:tt, $s:expr, $n:expr; $h:ident $($t:ident)*; $($a:ident)*) => {
        match $s[$n] {
            Sel::At(i) => { let $h = i; disp!(ar, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            Sel::Range(p, q) => { let $h = p..q; disp!(ar, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            _ => unreachable!(),
        }
    };
    (fs, $leaf:ident, $x:tt, $s:expr, $n:expr; $h:ident $($t:ident)*; $($a:ident)*) => {
        match $s[$n] {
            Sel::Full => { let $h = ..; disp!(fs, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            Sel::Step(p, q, k) => { let $h = step(p..q, k); disp!(fs, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            _ => unreachable!(),
        }
    };
    (fa, $leaf:ident, $x:tt, $s:expr, $n:expr; $h:ident $($t:ident)*; $($a:ident)*) => {
        match $s[$n] {
            Sel::Full => { let $h = ..; disp!(fa, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            Sel::At(i) => { let $h = i; disp!(fa, $leaf, $x, $s, $n + 1; $($t)*; $($a)* $h) }
            _ => unreachable!(),
        }
    };
}

// Leaves: ($case, $slice, $model, $base)
macro_rules! read {
    (($c:expr, $v:expr, $m:expr, $b:expr), $($a:ident),*) => {
        match &$m {
            Some(m) => leaf($c, $v.view($($a),*), m, $b),
            None => must_panic($c, || { $v.view($($a),*); }),
        }
    };
}

macro_rules! copy {
    (($c:expr, $v:expr, $m:expr, $b:expr), $($a:ident),*) => {
        match &$m {
            Some(m) => {
                let t = $v.tensor($($a),*);
                let want: Vec<_> = m.idx.iter().map(|&i| El::make(i as u64)).collect();
                chk_vals($c, &t.into_dyn(), &m.dims, &want);
            }
            None => must_panic($c, || { $v.tensor($($a),*); }),
        }
    };
}

macro_rules! write {
    (($c:expr, $v:expr, $m:expr, $b:expr), $($a:ident),*) => {
        match &$m {
            Some(m) => fill_view($c, $v.view_mut($($a),*), m),
            None => must_panic($c, || { $v.view_mut($($a),*); }),
        }
    };
}

#[track_caller]
fn must_panic<F: FnOnce()>(c: &mut Case, f: F) {
    assert!(panics(f), "a selection that does not fit was accepted");
    c.ev("invalid selections refused", 1);
}

fn leaf<T: El, S: Shape, L: Layout>(c: &mut Case, v: View<T, S, L>, m: &MV, base: *const T) {
    chk_lite(c, &v, m, base, 0);
    let v = v.into_mapping::<DynRank, Strided>();
    chk(c, &v, m, base, 0);
    // A view of the view composes.
    let (w, n) = chain(c, v, m.clone(), 1);
    chk_lite(c, &w, &n, base, 0);
    c.seen(&[sig(m)]);
}

/// Writes a unique mark to each element through the view, in several ways.
fn fill_view<S: Shape, L: Layout>(c: &mut Case, mut v: ViewMut<u64, S, L>, m: &MV) {
    chk_shape(&v, &m.dims);
    match c.rng.below(4) {
        0 => {
            let mut k = 0u64;
            for x in v.iter_mut() {
                *x = MARK + k;
                k += 1;
            }
            assert!(k as usize == m.len(), "iter_mut yields {k} elements of {}", m.len());
        }
        1 => {
            let mut k = 0;
            each_index(&m.dims, |i| {
                v[i] = MARK + k;
                k += 1;
            });
        }
        2 => {
            for k in 0..m.len() {
                v[k] = MARK + k as u64;
            }
        }
        _ => {
            let mut k = 0;
            v.fill_with(|| {
                k += 1;
                MARK + k - 1
            });
        }
    }
    c.ev("elements written through a view", m.len());
    c.seen(&[sig(m), 1]);
}

const MARK: u64 = 1 << 40;

/// After `fill_view` the base holds the marks at the selected positions and nothing else changed.
#[track_caller]
fn check_written(base: &[u64], m: &Option<MV>) {
    let mut want: Vec<u64> = vals(base.len(), 0);
    if let Some(m) = m {
        for (k, &i) in m.idx.iter().enumerate() {
            want[i] = MARK + k as u64;
        }
    }
    for i in 0..base.len() {
        assert!(base[i] == want[i], "base element {i} is {:#x}, expected {:#x}", base[i], want[i]);
    }
}

/// Selections for the dimensions, with one of them invalid in some cases.
fn sels(c: &mut Case, dims: &[usize], kinds: &str) -> Vec<Sel> {
    let mut s: Vec<Sel> = dims
        .iter()
        .map(|&d| loop {
            let x = match kinds {
                "all" => match c.rng.below(4) {
                    0 => Sel::At(c.rng.below(d.max(1))),
                    1 => Sel::Full,
                    2 => {
                        let (a, b) = range(&mut c.rng, d);
                        Sel::Range(a, b)
                    }
                    _ => sel_step(c, d),
                },
                "ar" if c.rng.chance(1, 2) => Sel::At(c.rng.below(d.max(1))),
                "ar" => {
                    let (a, b) = range(&mut c.rng, d);
                    Sel::Range(a, b)
                }
                "fs" if c.rng.chance(1, 2) => Sel::Full,
                "fs" => sel_step(c, d),
                "fa" if c.rng.chance(1, 2) => Sel::Full,
                _ => Sel::At(c.rng.below(d.max(1))),
            };
            break x;
        })
        .collect();
    if !s.is_empty() && c.rng.chance(1, 8) {
        let k = c.rng.below(s.len());
        let d = dims[k];
        let far = *c.rng.pick(&[d + 1, d + 2, d + 7, usize::MAX, usize::MAX - 1, isize::MAX as usize]);
        s[k] = match &s[k] {
            Sel::At(_) => Sel::At(*c.rng.pick(&[d, far])),
            Sel::Full => Sel::Full,
            Sel::Range(a, b) => {
                if c.rng.chance(1, 2) { Sel::Range(*a, far) } else { Sel::Range(b + 1, *b) }
            }
            Sel::Step(a, b, n) => match c.rng.below(3) {
                0 => Sel::Step(*a, far, *n),
                1 => Sel::Step(b + 1, *b, *n),
                _ => Sel::Step(*a, *b, 0),
            },
        };
    }
    c.log(|| format!("view({s:?}) of {dims:?}"));
    s
}

fn sel_step(c: &mut Case, d: usize) -> Sel {
    let (a, b) = range(&mut c.rng, d);
    Sel::Step(a, b, vh::step(&mut c.rng))
}

/// Base tensor and strided view of it with the given rank.
macro_rules! strided_base {
    ($c:expr, $r:expr, $t:ident, $v:ident, $m:ident) => {
        let dims = base_dims_rank($c, $r);
        let $t = tens::<u64>(&dims);
        let p = perm(&mut $c.rng, $r);
        let v = $t.expr().into_permuted(p.clone());
        let m = MV::dense(&dims).permute(&p);
        // Reverse or thin out some dimensions, keeping the rank.
        let (v, m) = thin($c, v, m);
        let $v = v;
        let $m = m;
    };
}

fn thin<'a>(c: &mut Case, v: SView<'a, u64>, m: MV) -> (SView<'a, u64>, MV) {
    if m.rank() != 2 && m.rank() != 3 || c.rng.chance(1, 3) {
        return (v, m);
    }
    let s: Vec<(usize, usize, isize)> = m
        .dims
        .iter()
        .map(|&d| {
            let (a, b) = range(&mut c.rng, d);
            (a, b, *c.rng.pick(&[1, -1, 2, -2]))
        })
        .collect();
    let n = m.select(&s.iter().map(|x| Sel::Step(x.0, x.1, x.2)).collect::<Vec<_>>()).unwrap();
    let st = |i: usize| step(s[i].0..s[i].1, s[i].2);
    let w = if m.rank() == 2 {
        v.into_mapping::<Rank<2>, Strided>().into_view(st(0), st(1)).into_mapping()
    } else {
        v.into_mapping::<Rank<3>, Strided>().into_view(st(0), st(1), st(2)).into_mapping()
    };
    (w, n)
}

fn base_dims_rank(c: &mut Case, r: usize) -> Vec<usize> {
    base_dims(c, r, r)
}

fn dense_ranks(c: &mut Case) {
    let r = c.rng.range(1, 4);
    let dims = base_dims_rank(c, r);
    dense_t::<u64>(c, r, &dims);
}

fn dense_elem(c: &mut Case) {
    let r = c.rng.range(1, 2);
    let dims = base_dims_rank(c, r);
    match c.rng.below(4) {
        0 => dense_t2::<String>(c, r, &dims),
        1 => dense_t2::<[u16; 3]>(c, r, &dims),
        2 => dense_t2::<A64>(c, r, &dims),
        _ => dense_t2::<Z>(c, r, &dims),
    }
}

fn dense_t<T: El>(c: &mut Case, r: usize, dims: &[usize]) {
    let t = tens::<T>(dims);
    let s = sels(c, dims, "all");
    let m = MV::dense(dims).select(&s);
    let b = t.as_ptr();
    match r {
        1 => { let v = t.remap::<Rank<1>, Dense>(); disp!(all, read, (c, v, m, b), s, 0; i; ) }
        2 => { let v = t.remap::<Rank<2>, Dense>(); disp!(all, read, (c, v, m, b), s, 0; i j; ) }
        3 => { let v = t.remap::<Rank<3>, Dense>(); disp!(all, read, (c, v, m, b), s, 0; i j k; ) }
        _ => { let v = t.remap::<Rank<4>, Dense>(); disp!(all, read, (c, v, m, b), s, 0; i j k l; ) }
    }
}

fn dense_t2<T: El>(c: &mut Case, r: usize, dims: &[usize]) {
    let t = tens::<T>(dims);
    let s = sels(c, dims, "all");
    let m = MV::dense(dims).select(&s);
    let b = t.as_ptr();
    match r {
        1 => { let v = t.remap::<Rank<1>, Dense>(); disp!(all, read, (c, v, m, b), s, 0; i; ) }
        _ => { let v = t.remap::<Rank<2>, Dense>(); disp!(all, read, (c, v, m, b), s, 0; i j; ) }
    }
}

fn high_ranks(c: &mut Case) {
    let r = c.rng.range(5, 6);
    let dims = base_dims_rank(c, r);
    let t = tens::<u32>(&dims);
    let kind = *c.rng.pick(&["ar", "fs", "fa"]);
    let s = sels(c, &dims, kind);
    let m = MV::dense(&dims).select(&s);
    let b = t.as_ptr();
    if r == 5 {
        let v = t.remap::<Rank<5>, Dense>();
        match kind {
            "ar" => disp!(ar, read, (c, v, m, b), s, 0; i j k l n; ),
            "fs" => disp!(fs, read, (c, v, m, b), s, 0; i j k l n; ),
            _ => disp!(fa, read, (c, v, m, b), s, 0; i j k l n; ),
        }
    } else {
        let v = t.remap::<Rank<6>, Dense>();
        match kind {
            "ar" => disp!(ar, read, (c, v, m, b), s, 0; i j k l n o; ),
            "fs" => disp!(fs, read, (c, v, m, b), s, 0; i j k l n o; ),
            _ => disp!(fa, read, (c, v, m, b), s, 0; i j k l n o; ),
        }
    }
}

fn strided(c: &mut Case) {
    let r = c.rng.range(1, 3);
    strided_base!(c, r, t, v, m0);
    let b = t.as_ptr();
    let s = sels(c, &m0.dims.clone(), "all");
    let m = m0.select(&s);
    match r {
        1 => { let v = v.into_mapping::<Rank<1>, Strided>(); disp!(all, read, (c, v, m, b), s, 0; i; ) }
        2 => { let v = v.into_mapping::<Rank<2>, Strided>(); disp!(all, read, (c, v, m, b), s, 0; i j; ) }
        _ => { let v = v.into_mapping::<Rank<3>, Strided>(); disp!(all, read, (c, v, m, b), s, 0; i j k; ) }
    }
}

/// Shared views with any strides, also such that elements coincide.
fn any(c: &mut Case) {
    let buf: Vec<u64> = vals(60, 0);
    let (d, s, off, m0) = any_strides(c, buf.len());
    let v = view_strides(&buf, &d, &s, off);
    let b = buf.as_ptr();
    let r = m0.rank();
    if r > 3 {
        return;
    }
    let s = sels(c, &m0.dims.clone(), "all");
    let m = m0.select(&s);
    match r {
        1 => { let v = v.into_mapping::<Rank<1>, Strided>(); disp!(all, read, (c, v, m, b), s, 0; i; ) }
        2 => { let v = v.into_mapping::<Rank<2>, Strided>(); disp!(all, read, (c, v, m, b), s, 0; i j; ) }
        _ => { let v = v.into_mapping::<Rank<3>, Strided>(); disp!(all, read, (c, v, m, b), s, 0; i j k; ) }
    }
}

fn copies(c: &mut Case) {
    let r = c.rng.range(1, 3);
    let dims = base_dims_rank(c, r);
    let t = tens::<u64>(&dims);
    let s = sels(c, &dims, "all");
    let m = MV::dense(&dims).select(&s);
    let b = t.as_ptr();
    let _ = b;
    match r {
        1 => { let v = t.remap::<Rank<1>, Dense>(); disp!(all, copy, (c, v, m, b), s, 0; i; ) }
        2 => { let v = t.remap::<Rank<2>, Dense>(); disp!(all, copy, (c, v, m, b), s, 0; i j; ) }
        _ => { let v = t.remap::<Rank<3>, Dense>(); disp!(all, copy, (c, v, m, b), s, 0; i j k; ) }
    }
    c.seen(&[m.as_ref().map_or(0, sig), 2]);
}

fn writes(c: &mut Case) {
    let r = c.rng.range(1, 3);
    let dims = base_dims_rank(c, r);
    let mut t = tens::<u64>(&dims);
    let s = sels(c, &dims, "all");
    let m = MV::dense(&dims).select(&s);
    match r {
        1 => { let mut v = t.remap_mut::<Rank<1>, Dense>(); disp!(all, write, (c, v, m, b), s, 0; i; ) }
        2 => { let mut v = t.remap_mut::<Rank<2>, Dense>(); disp!(all, write, (c, v, m, b), s, 0; i j; ) }
        _ => { let mut v = t.remap_mut::<Rank<3>, Dense>(); disp!(all, write, (c, v, m, b), s, 0; i j k; ) }
    }
    check_written(&t[..], &m);
}

fn writes_strided(c: &mut Case) {
    let r = c.rng.range(1, 2);
    let dims = base_dims_rank(c, r);
    let mut t = tens::<u64>(&dims);
    let p = perm(&mut c.rng, r);
    let m0 = MV::dense(&dims).permute(&p);
    let s = sels(c, &m0.dims.clone(), "all");
    let m = m0.select(&s);
    {
        let v = t.permute_mut(p);
        match r {
            1 => { let mut v = v.into_mapping::<Rank<1>, Strided>(); disp!(all, write, (c, v, m, b), s, 0; i; ) }
            _ => { let mut v = v.into_mapping::<Rank<2>, Strided>(); disp!(all, write, (c, v, m, b), s, 0; i j; ) }
        }
    }
    check_written(&t[..], &m);
}

/// Constant-sized dimensions.
fn consts(c: &mut Case) {
    let dims = [2, 3, 4];
    let arr: mdarray::Array<u64, (Const<2>, Const<3>, Const<4>)> =
        Tensor::from(vals::<u64>(24, 0)).into_shape((Const::<2>, Const::<3>, Const::<4>)).into();
    let b = arr.as_ptr();
    let s = sels(c, &dims, "all");
    let m = MV::dense(&dims).select(&s);
    disp!(all, read, (c, arr, m, b), s, 0; i j k; );
    // Copies into arrays with constant shape.
    let s = sels(c, &dims, "fa");
    let m = MV::dense(&dims).select(&s);
    disp!(fa, arr_copy, (c, arr, m, b), s, 0; i j k; );
    // A mixture of constant and dynamic dimensions.
    let n = c.rng.range(0, 4);
    let dims = [n, 3, 2];
    let t: Tensor<u64, (usize, Const<3>, Const<2>)> =
        Tensor::from(vals::<u64>(6 * n, 0)).into_shape((n, Const::<3>, Const::<2>));
    let b = t.as_ptr();
    let s = sels(c, &dims, "all");
    let m = MV::dense(&dims).select(&s);
    disp!(all, read, (c, t, m, b), s, 0; i j k; );
}

macro_rules! arr_copy {
    (($c:expr, $v:expr, $m:expr, $b:expr), $($a:ident),*) => {
        match &$m {
            Some(m) => {
                let t = $v.array($($a),*);
                let want: Vec<u64> = m.idx.iter().map(|&i| El::make(i as u64)).collect();
                chk_vals($c, &t, &m.dims, &want);
            }
            None => must_panic($c, || { $v.array($($a),*); }),
        }
    };
}
use arr_copy;

/// Every form of range, in each position of a two-dimensional array.
fn forms(c: &mut Case) {
    let dims = base_dims_rank(c, 2);
    let t = tens::<u32>(&dims);
    let b = t.as_ptr();
    let pos = c.rng.below(2);
    let d = dims[pos];
    let form = c.rng.below(16);
    // The requested bounds, possibly invalid.
    let (mut lo, mut hi) = range(&mut c.rng, d);
    if c.rng.chance(1, 8) {
        match c.rng.below(3) {
            0 => hi = *c.rng.pick(&[d + 1, d + 5, usize::MAX, usize::MAX - 1]),
            1 => {
                lo = hi + 1;
            }
            _ => {
                lo = d + 1;
                hi = d + 1;
            }
        }
    }
    let n = vh::step(&mut c.rng);
    let other = if c.rng.chance(1, 2) { Sel::Full } else { Sel::At(c.rng.below(dims[1 - pos].max(1))) };
    c.log(|| format!("form {form} with bounds {lo}..{hi} step {n} at {pos} of {dims:?}, other {other:?}"));
    let full = (0, d);
    let v = t.remap::<Rank<2>, Dense>();
    macro_rules! go {
        ($r:expr, $range:expr, $step:expr) => {{
            let (p, q): (usize, usize) = $range;
            let sel = if $step == 1 { Sel::Range(p, q) } else { Sel::Step(p, q, $step) };
            let sels = if pos == 0 { [sel, other.clone()] } else { [other.clone(), sel] };
            let m = MV::dense(&dims).select(&sels);
            let r = $r;
            match (pos, &other) {
                (0, Sel::At(j)) => { let j = *j; read!((c, v, m, b), r, j) }
                (0, _) => { let j = ..; read!((c, v, m, b), r, j) }
                (_, Sel::At(j)) => { let j = *j; read!((c, v, m, b), j, r) }
                _ => { let j = ..; read!((c, v, m, b), j, r) }
            }
        }};
    }
    // Inclusive forms end one before `hi`; an overflowing end must be refused.
    let last = hi.wrapping_sub(1);
    let incl = |lo: usize| if hi == 0 { (1, 0) } else { (lo, hi) };
    match form {
        0 => go!(lo..hi, (lo, hi), 1),
        1 => go!(lo.., (lo, d), 1),
        2 => go!(..hi, (0, hi), 1),
        3 => go!(lo..=last, incl(lo), 1),
        4 => go!(..=last, incl(0), 1),
        5 => go!((Bound::Included(lo), Bound::Excluded(hi)), (lo, hi), 1),
        6 => go!((Bound::Excluded(lo.wrapping_sub(1)), Bound::Included(last)),
            if lo == 0 || hi == 0 { (1, 0) } else { (lo, hi) }, 1),
        7 => go!((Bound::<usize>::Unbounded, Bound::<usize>::Unbounded), full, 1),
        8 => go!(step(lo..hi, n), (lo, hi), n),
        9 => go!(step(.., n), full, n),
        10 => go!(step(lo.., n), (lo, d), n),
        11 => go!(step(..hi, n), (0, hi), n),
        12 => go!(step(lo..=last, n), incl(lo), n),
        13 => go!(step(..=last, n), incl(0), n),
        14 => go!(step((Bound::Included(lo), Bound::Excluded(hi)), n), (lo, hi), n),
        _ => go!(step((Bound::Excluded(lo.wrapping_sub(1)), Bound::<usize>::Unbounded), n),
            if lo == 0 { (1, 0) } else { (lo, d) }, n),
    }
}

/// Large steps: one element is left, however large the step (the product with the stride fits).
fn far_steps(c: &mut Case) {
    let d = c.rng.range(1, 9);
    let t = tens::<u64>(&[d]);
    let v = t.remap::<Rank<1>, Dense>();
    let (lo, hi) = range(&mut c.rng, d);
    let n = *c.rng.pick(&[isize::MAX, isize::MAX - 1, -isize::MAX, 1 << 40, -(1 << 40), d as isize, -(d as isize)]);
    c.log(|| format!("step({lo}..{hi}, {n}) of [{d}]"));
    let m = MV::dense(&[d]).select(&[Sel::Step(lo, hi, n)]);
    let m = m.unwrap();
    let w = v.view(step(lo..hi, n));
    chk_lite(c, &w, &m, t.as_ptr(), 0);
    c.seen(&[d as u64, lo as u64, hi as u64, n as u64]);
}

/// Chains of views of views with reads through the final view.
fn chains(c: &mut Case) {
    let dims = base_dims(c, 1, 8);
    let t = tens::<u32>(&dims);
    let steps = c.rng.range(1, 5);
    c.log(|| format!("base {dims:?}"));
    let (v, m) = chain(c, t.expr().into_mapping(), MV::dense(&dims), steps);
    chk(c, &v, &m, t.as_ptr(), 0);
    c.seen(&[sig(&m)]);
}

/// Chains of mutable views with writes through the final view.
fn chains_mut(c: &mut Case) {
    let dims = base_dims(c, 1, 8);
    let mut t = tens::<u64>(&dims);
    let steps = c.rng.range(1, 5);
    c.log(|| format!("base {dims:?}"));
    let m = {
        let (v, m) = chain_mut(c, t.expr_mut().into_mapping(), MV::dense(&dims), steps);
        fill_view(c, v, &m);
        m
    };
    check_written(&t[..], &Some(m));
}

/// Exhaustive: all ranges and all steps up to the size, on a one-dimensional array.
fn small_exhaustive(c: &mut Case) {
    let d = c.index as usize;
    let t = tens::<u32>(&[d]);
    let v: &Slice<u32, Rank<1>> = &t.remap::<Rank<1>, Dense>();
    for a in 0..=d + 1 {
        for b in 0..=d + 1 {
            for n in -(d as isize + 1)..=d as isize + 1 {
                let m = MV::dense(&[d]).select(&[Sel::Step(a, b, n)]);
                match m {
                    Some(m) => chk_lite(c, &v.view(step(a..b, n)), &m, t.as_ptr(), 0),
                    None => must_panic(c, || {
                        v.view(step(a..b, n));
                    }),
                }
            }
            let m = MV::dense(&[d]).select(&[Sel::Range(a, b)]);
            match m {
                Some(m) => chk_lite(c, &v.view(a..b), &m, t.as_ptr(), 0),
                None => must_panic(c, || {
                    v.view(a..b);
                }),
            }
        }
    }
    c.seen(&[d as u64]);
}

pub fn run(r: &mut Runner) {
    r.fixed("exhaustive-1d", 8, 3, small_exhaustive);
    r.section("dense", 4000, 6, dense_ranks);
    r.section("elements", 600, 6, dense_elem);
    r.section("high-rank", 1500, 4, high_ranks);
    r.section("strided", 3000, 6, strided);
    r.section("any-strides", 1500, 4, any);
    r.section("copies", 800, 3, copies);
    r.section("writes", 1500, 6, writes);
    r.section("writes-strided", 1200, 6, writes_strided);
    r.section("const", 600, 2, consts);
    r.section("forms", 3000, 8, forms);
    r.section("far-steps", 300, 3, far_steps);
    r.section("chains", 3000, 8, chains);
    r.section("chains-mut", 1500, 8, chains_mut);
    if !r.is_miri() {
        r.section("huge-u8", 1500, 0, |c| huge::case::<u8>(c, huge::VIEWS));
        r.section("huge-u32", 1000, 0, |c| huge::case::<u32>(c, huge::VIEWS));
    }
    r.large("dense-large", 8, dense_ranks);
    r.large("strided-large", 8, strided);
    r.large("copies-large", 6, copies);
    r.large("writes-large", 8, writes);
    r.large("chains-large", 6, chains);
    r.large("chains-mut-large", 6, chains_mut);
}
