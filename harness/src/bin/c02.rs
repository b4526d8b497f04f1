//! C02: element access returns exactly the addressed element or panics.

use mdarray::{Array, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, ViewMut};
use std::ops::Bound;
use vh::huge;
use vh::chain::*;
use vh::*;

vh::check_main!("C02", run);

/// Index components that must be refused for a dimension of size `d`, including ones for which
/// the offset computation wraps around to a valid element.
fn bad(c: &mut Case, d: usize) -> usize {
    let far = [
        d,
        d + 1,
        d + 2,
        2 * d + 1,
        usize::MAX,
        usize::MAX - 1,
        isize::MAX as usize,
        1 << 63,
        1 << 62,
        1 << 61,
        1 << 32,
    ];
    *c.rng.pick(&far)
}

fn arr<const N: usize>(i: &[usize]) -> [usize; N] {
    i.try_into().unwrap()
}

/// All element accesses that must be refused.
fn refuse<T: El, S: Shape, L: Layout>(c: &mut Case, s: &mut Slice<T, S, L>, m: &MV) {
    let r = m.rank();
    let good: Vec<usize> = m.dims.iter().map(|&d| c.rng.below(d.max(1))).collect();
    for k in 0..r {
        let mut i = good.clone();
        i[k] = bad(c, m.dims[k]);
        let text = format!("index {i:?} of {:?}", m.dims);
        assert!(panics(|| s[&i[..]] == T::make(0)), "{text} is accepted");
        assert!(panics(|| s[&i[..]] = T::make(0)), "{text} is accepted for writing");
        let a = panics(|| match r {
            1 => s[arr::<1>(&i)] == T::make(0),
            2 => s[arr::<2>(&i)] == T::make(0),
            3 => s[arr::<3>(&i)] == T::make(0),
            4 => s[arr::<4>(&i)] == T::make(0),
            5 => s[arr::<5>(&i)] == T::make(0),
            6 => s[arr::<6>(&i)] == T::make(0),
            _ => panic!(),
        });
        assert!(a, "{text} is accepted as array index");
        let a = panics(|| match r {
            1 => s[arr::<1>(&i)] = T::make(0),
            2 => s[arr::<2>(&i)] = T::make(0),
            3 => s[arr::<3>(&i)] = T::make(0),
            4 => s[arr::<4>(&i)] = T::make(0),
            5 => s[arr::<5>(&i)] = T::make(0),
            6 => s[arr::<6>(&i)] = T::make(0),
            _ => panic!(),
        });
        assert!(a, "{text} is accepted as array index for writing");
    }
    // Two components are wrong in a way that could cancel out.
    if r >= 2 {
        let mut i = good.clone();
        let k = c.rng.below(r - 1);
        i[k] = i[k].wrapping_sub(1);
        i[k + 1] = i[k + 1].wrapping_add(m.dims[k + 1]);
        assert!(panics(|| s[&i[..]] == T::make(0)), "index {i:?} of {:?} is accepted", m.dims);
        let mut i = good.clone();
        i[k + 1] = m.dims[k + 1];
        assert!(panics(|| s[&i[..]] == T::make(0)), "index {i:?} of {:?} is accepted", m.dims);
    }
    // Wrong number of components.
    for n in [r.wrapping_sub(1), r + 1, r + 2, 0] {
        if n == r || n > 9 {
            continue;
        }
        let i = vec![0; n];
        assert!(panics(|| s[&i[..]] == T::make(0)), "{n} index components accepted for rank {r}");
        assert!(panics(|| s[&i[..]] = T::make(0)), "{n} index components accepted for rank {r} when writing");
    }
    // Linear index.
    for k in 0..3 {
        let n = if k == 0 { m.len() } else { bad(c, m.len()) };
        assert!(panics(|| s[n] == T::make(0)), "linear index {n} of {:?} is accepted", m.dims);
        assert!(panics(|| s[n] = T::make(0)), "linear index {n} of {:?} is accepted for writing", m.dims);
    }
    c.ev("invalid accesses refused", 4 * r + 10);
}

/// Writes single elements and checks after each that only that element of the base has changed.
fn write<T: El, S: Shape, L: Layout>(
    c: &mut Case,
    s: &mut Slice<T, S, L>,
    m: &MV,
    base: *const T,
    n: usize,
) {
    if m.is_empty() || size_of::<T>() == 0 {
        return;
    }
    let mut want: Vec<T> = vals(n, 0);
    for k in 0..4 {
        let p = c.rng.below(m.len());
        let mut i = Vec::new();
        let mut q = p;
        for d in m.dims.iter().rev() {
            i.push(q % d);
            q /= d;
        }
        i.reverse();
        let x = T::make(1000 + k);
        c.log(|| format!("write {x:?} at {i:?} (linear {p})"));
        match c.rng.below(5) {
            0 => s[&i[..]] = x.clone(),
            1 => s[p] = x.clone(),
            2 => unsafe { *s.get_unchecked_mut(&i[..]) = x.clone() },
            3 => unsafe { *s.get_unchecked_mut(p) = x.clone() },
            _ => match m.rank() {
                1 => s[arr::<1>(&i)] = x.clone(),
                2 => s[arr::<2>(&i)] = x.clone(),
                3 => s[arr::<3>(&i)] = x.clone(),
                4 => s[arr::<4>(&i)] = x.clone(),
                _ => s[&i[..]] = x.clone(),
            },
        }
        want[m.idx[p]] = x.clone();
        assert!(s[&i[..]] == x && s[p] == x, "the value written at {i:?} is not read back");
        for b in 0..n {
            if cfg!(miri) {
                break; // Not allowed while the mutable view is in use.
            }
            let got = unsafe { &*base.add(b) };
            assert!(*got == want[b], "after writing {i:?} of {:?}, base element {b} is {got:?}, expected {:?}", m.dims, want[b]);
        }
        c.ev("writes checked against the whole base", n);
    }
    // Restore for the caller.
    let mut k = 0;
    each_index(&m.dims, |i| {
        s[i] = T::make(m.idx[k] as u64);
        k += 1;
    });
}

/// Array index forms of every rank.
fn array_index<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    let mut p = 0;
    each_index(&m.dims, |i| {
        let (x, y) = unsafe {
            match i.len() {
                0 => (&s[[]], s.get_unchecked([])),
                1 => (&s[arr::<1>(i)], s.get_unchecked(arr::<1>(i))),
                2 => (&s[arr::<2>(i)], s.get_unchecked(arr::<2>(i))),
                3 => (&s[arr::<3>(i)], s.get_unchecked(arr::<3>(i))),
                4 => (&s[arr::<4>(i)], s.get_unchecked(arr::<4>(i))),
                5 => (&s[arr::<5>(i)], s.get_unchecked(arr::<5>(i))),
                6 => (&s[arr::<6>(i)], s.get_unchecked(arr::<6>(i))),
                7 => (&s[arr::<7>(i)], s.get_unchecked(arr::<7>(i))),
                8 => (&s[arr::<8>(i)], s.get_unchecked(arr::<8>(i))),
                _ => (&s[i], s.get_unchecked(i)),
            }
        };
        chk_el(x, m.idx[p], base, 0, p, &m.dims);
        chk_el(y, m.idx[p], base, 0, p, &m.dims);
        p += 1;
    });
    c.ev("elements indexed", 2 * p);
}

fn views<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let n = product(&dims);
    let mut t = tens::<T>(&dims);
    let base = t.as_mut_ptr() as *const T;
    let steps = c.rng.range(0, 3);
    c.log(|| format!("base {dims:?} of {}", T::NAME));
    let (v, m) = chain_mut(c, t.expr_mut().into_mapping(), MV::dense(&dims), steps);
    if c.rng.chance(1, 3) {
        let mut v = v;
        all(c, &mut v, &m, base, n);
    } else {
        as_rank!(v, m.rank(), x => { let mut x = x; all(c, &mut x, &m, base, n) });
    }
    c.seen(&[sig(&m)]);
}

fn all<T: El, S: Shape, L: Layout>(c: &mut Case, s: &mut Slice<T, S, L>, m: &MV, base: *const T, n: usize) {
    chk(c, s, m, base, 0);
    array_index(c, s, m, base);
    write(c, s, m, base, n);
    if c.rng.chance(1, 3) {
        refuse(c, s, m);
        chk_lite(c, s, m, base, 0);
    }
}

fn dense<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let n = product(&dims);
    let m = MV::dense(&dims);
    c.log(|| format!("dense {dims:?} of {}", T::NAME));
    let t = tens::<T>(&dims);
    if c.rng.chance(1, 4) {
        let mut t = t;
        let base = t.as_ptr();
        all(c, &mut t, &m, base, n);
        ranges(c, &mut t);
    } else {
        as_rank_t!(t, dims.len(), x => {
            let mut x = x;
            let base = x.as_ptr();
            all(c, &mut x, &m, base, n);
            ranges(c, &mut x);
        });
    }
    c.seen(&[sig(&m), 1]);
}

/// Slice-range forms on dense arrays address the same storage, in row-major order.
fn ranges<T: El, S: Shape>(c: &mut Case, s: &mut Slice<T, S, Dense>) {
    let n = s.len();
    let base = s.as_ptr();
    let (a, b) = range(&mut c.rng, n);
    let chk = |got: &[T], a: usize, b: usize| {
        assert!(got.len() == b - a, "range {a}..{b} gives {} elements", got.len());
        for (k, x) in got.iter().enumerate() {
            chk_el(x, a + k, base, 0, k, &[b - a]);
        }
    };
    chk(&s[a..b], a, b);
    chk(&s[a..], a, n);
    chk(&s[..b], 0, b);
    chk(&s[..], 0, n);
    chk(&s[(Bound::Included(a), Bound::Excluded(b))], a, b);
    unsafe {
        chk(s.get_unchecked(a..b), a, b);
        chk(s.get_unchecked(a..), a, n);
        chk(s.get_unchecked(..), 0, n);
    }
    if b > 0 {
        chk(&s[a..=b - 1], a, b);
        chk(&s[..=b - 1], 0, b);
    }
    chk(&s[a..b], a, b);
    let p = s[a..b].as_ptr();
    {
        let q = &mut s[a..b];
        assert!(q.as_ptr() == p && q.len() == b - a, "mutable range differs from shared range");
        for x in q.iter_mut() {
            *x = T::make(5000);
        }
    }
    for i in 0..n {
        let want = T::make(if i >= a && i < b { 5000 } else { i as u64 });
        assert!(s[i] == want, "writing range {a}..{b} leaves {:?} at {i}", s[i]);
    }
    for (k, x) in s[a..b].iter_mut().enumerate() {
        *x = T::make((a + k) as u64);
    }
    let hi = *c.rng.pick(&[n + 1, n + 2, usize::MAX]);
    assert!(panics(|| s[a..hi].len()), "range {a}..{hi} of {n} is accepted");
    assert!(panics(|| s[..hi].len()) && panics(|| s[hi..].len()), "range bound {hi} of {n} is accepted");
    assert!(panics(|| s[b + 1..b].len()), "decreasing range is accepted");
    assert!(panics(|| s[a..=usize::MAX].len()) && panics(|| s[..=n].len()), "inclusive range is accepted");
    assert!(panics(|| s[a..hi].iter_mut().count()), "mutable range {a}..{hi} of {n} is accepted");
    c.ev("range forms checked", 16);
}

/// Constant-shaped arrays, tensors with mixed dimensions, and owned types indexed directly.
fn owned(c: &mut Case) {
    let mut a: Array<u64, (Const<2>, Const<3>, Const<4>)> =
        Array::from_fn(|i| u64::make((i[0] * 12 + i[1] * 4 + i[2]) as u64));
    let m = MV::dense(&[2, 3, 4]);
    let base = a.as_ptr();
    all(c, &mut a, &m, base, 24);
    ranges(c, &mut a);
    let mut p = 0;
    each_index(&[2, 3, 4], |i| {
        chk_el(&a[arr::<3>(i)], p, base, 0, p, &[2, 3, 4]);
        chk_el(&a[p], p, base, 0, p, &[2, 3, 4]);
        chk_el(&a.0[i[0]][i[1]][i[2]], p, base, 0, p, &[2, 3, 4]);
        p += 1;
    });
    let i = [c.rng.below(2), c.rng.below(3), c.rng.below(4)];
    a[i] = 7;
    assert!(a.0[i[0]][i[1]][i[2]] == 7);
    let p = i[0] * 12 + i[1] * 4 + i[2];
    a[p] = 9;
    assert!(a[i] == 9);
    assert!(panics(|| a[[2, 0, 0]]) && panics(|| a[[0, 3, 0]]) && panics(|| a[[0, 0, 4]]));
    assert!(panics(|| a[[0, 0]]) && panics(|| a[[0, 0, 0, 0]]) && panics(|| a[24]));

    let n = c.rng.range(0, 5);
    let mut t: Tensor<u64, (usize, Const<2>, Const<3>)> =
        Tensor::from(vals::<u64>(6 * n, 0)).into_shape((n, Const::<2>, Const::<3>));
    let m = MV::dense(&[n, 2, 3]);
    let base = t.as_ptr();
    all(c, &mut t, &m, base, 6 * n);
    ranges(c, &mut t);
    if n > 0 {
        let i = [c.rng.below(n), c.rng.below(2), c.rng.below(3)];
        t[i] = 77;
        let p = i[0] * 6 + i[1] * 3 + i[2];
        assert!(t[p] == 77 && t[p..p + 1] == [77]);
        t[p..p + 1][0] = 78;
        assert!(t[i] == 78);
    }
    // Indexing views directly (not through a slice reference).
    let d = base_dims(c, 2, 2);
    let mut t = tens::<u64>(&d);
    {
        let base = t.as_mut_ptr() as *const u64;
        let mut v: ViewMut<u64, Rank<2>, Strided> = t.reorder_mut().into_mapping();
        let m = MV::dense(&d).reversed();
        each_index(&m.dims, |i| {
            chk_el(&v[arr::<2>(i)], m.at(i), base, 0, 0, &m.dims);
            v[arr::<2>(i)] += 1;
        });
        assert!(panics(|| v[[m.dims[0], 0]]) && panics(|| v[[0, m.dims[1]]] = 1));
        assert!(panics(|| v[m.len()]) && panics(|| v[[0]]) && panics(|| v[[0, 0, 0]]));
    }
    for i in 0..t.len() {
        assert!(t[i] == u64::make(i as u64) + 1, "each element is written once");
    }
    c.seen(&[n as u64, d[0] as u64, d[1] as u64, p as u64]);
}

/// Zero-sized elements: no storage, the bounds still hold, for huge dimensions too.
fn zero_sized(c: &mut Case) {
    let d = *c.rng.pick(&[1usize << 20, 1 << 31, 1 << 40]);
    let mut v = Vec::new();
    unsafe { v.set_len(3 * d) };
    let t: Tensor<(), DynRank> = Tensor::from(v).into_shape(&[3, d][..]);
    assert!(t.len() == 3 * d);
    t[&[2, d - 1][..]];
    t[3 * d - 1];
    assert!(panics(|| t[&[3, 0][..]]) && panics(|| t[&[0, d][..]]) && panics(|| t[3 * d]));
    c.seen(&[d as u64]);
}

/// Shared views with any strides, also such that elements coincide.
fn strides<T: El>(c: &mut Case) {
    let buf: Vec<T> = vals(60, 0);
    let (d, s, off, m) = any_strides(c, buf.len());
    let v = view_strides(&buf, &d, &s, off);
    let base = buf.as_ptr();
    chk(c, &v, &m, base, 0);
    array_index(c, &v, &m, base);
    let steps = c.rng.range(0, 2);
    let (v, m) = chain(c, v, m, steps);
    as_rank!(v, m.rank(), x => {
        chk(c, &x, &m, base, 0);
        array_index(c, &x, &m, base);
    });
    c.seen(&[sig(&m)]);
}

pub fn run(r: &mut Runner) {
    r.section("views-u64", 1500, 8, views::<u64>);
    r.section("views-string", 300, 3, views::<String>);
    r.section("views-box", 300, 3, views::<Box<u64>>);
    r.section("views-odd", 300, 3, views::<[u16; 3]>);
    r.section("views-aligned", 300, 3, views::<A64>);
    r.section("views-zst", 200, 2, views::<Z>);
    r.section("dense-u32", 800, 4, dense::<u32>);
    r.section("dense-string", 200, 2, dense::<String>);
    r.section("dense-zst", 200, 2, dense::<Z>);
    r.section("strides-u64", 2000, 10, strides::<u64>);
    r.section("strides-string", 400, 3, strides::<String>);
    r.section("owned", 300, 2, owned);
    if !r.is_miri() {
        r.section("huge-u8", 1500, 0, |c| huge::case::<u8>(c, huge::VIEWS | huge::PERMS | huge::AXES | huge::INDEX | huge::WRITE));
        r.section("huge-u64", 1000, 0, |c| huge::case::<u64>(c, huge::VIEWS | huge::PERMS | huge::AXES | huge::INDEX | huge::WRITE));
        r.section("huge-zst", 20, 0, zero_sized);
    }
    r.large("views-u64-large", 3, views::<u64>);
    r.large("dense-u32-large", 3, dense::<u32>);
}
