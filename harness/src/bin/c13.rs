//! C13: draining removes exactly the range and hands its elements out once.

use std::mem::forget;
use std::ops::{Bound, RangeBounds};

use mdarray::expr::{self, Expression, FromExpression};
use mdarray::{Const, DynRank, Shape, Tensor};
use vh::track::*;
use vh::*;

vh::check_main!("C13", run);

/// Every syntactic form of a range, as bounds.
fn bounds_for(c: &mut Case, n: usize) -> (Bound<usize>, Bound<usize>) {
    let r = &mut c.rng;
    let pick = |r: &mut Rng| match r.below(12) {
        0 => n + 1,
        1 => n,
        2 => usize::MAX,
        3 => n.saturating_sub(1),
        _ => r.range(0, n),
    };
    let a = match r.below(6) {
        0 | 1 => Bound::Unbounded,
        2 => Bound::Excluded(pick(r)),
        _ => Bound::Included(pick(r)),
    };
    let b = match r.below(6) {
        0 | 1 => Bound::Unbounded,
        2 => Bound::Included(pick(r)),
        _ => Bound::Excluded(pick(r)),
    };
    (a, b)
}

/// The selected positions, or `None` if the range is invalid.
fn resolve(b: (Bound<usize>, Bound<usize>), n: usize) -> Option<(usize, usize)> {
    let s = match b.0 {
        Bound::Included(x) => x as u128,
        Bound::Excluded(x) => x as u128 + 1,
        Bound::Unbounded => 0,
    };
    let e = match b.1 {
        Bound::Included(x) => x as u128 + 1,
        Bound::Excluded(x) => x as u128,
        Bound::Unbounded => n as u128,
    };
    if s <= e && e <= n as u128 { Some((s as usize, e as usize)) } else { None }
}

fn read<S: Shape, T: Track>(t: &Tensor<T, S>) -> Vec<u32> {
    t.iter().map(|x| x.val()).collect()
}

/// Applies the bounds in their shortest form, so that all range types are used.
macro_rules! with_range {
    ($b:expr, |$r:ident| $e:expr) => {
        match $b {
            (Bound::Unbounded, Bound::Unbounded) => { let $r = ..; $e }
            (Bound::Included(x), Bound::Unbounded) => { let $r = x..; $e }
            (Bound::Unbounded, Bound::Excluded(y)) => { let $r = ..y; $e }
            (Bound::Unbounded, Bound::Included(y)) => { let $r = ..=y; $e }
            (Bound::Included(x), Bound::Excluded(y)) => { let $r = x..y; $e }
            (Bound::Included(x), Bound::Included(y)) => { let $r = x..=y; $e }
            b => { let $r = b; $e }
        }
    };
}

fn drain<T: Track, S: Shape>(c: &mut Case, dims: &[usize], ok_type: bool) {
    let n = product(dims);
    let vals: Vec<u32> = (0..n as u32).map(|x| if T::ZST { 0 } else { x + 10 }).collect();
    let t: Tensor<T, DynRank> = Tensor::from(vals.iter().map(|&x| T::mk(x)).collect::<Vec<_>>()).into_shape(dims);
    let mut t: Tensor<T, S> = t.into_mapping();
    if c.rng.chance(1, 2) {
        t.reserve(c.rng.range(0, 9));
    }
    let rows = dims.first().copied().unwrap_or(0);
    let b = bounds_for(c, rows);
    let got = if ok_type && !dims.is_empty() { resolve(b, rows) } else { None };
    let way = c.rng.below(10);
    let inner: usize = product(dims.get(1..).unwrap_or(&[]));
    c.log(|| format!("drain {b:?} of {dims:?}, way {way}"));
    let Some((s, e)) = got else {
        let res = caught(|| with_range!(b, |r| t.drain(r).len()));
        assert!(res.is_err(), "drain {b:?} of {dims:?} is accepted");
        chk_shape(&t, dims);
        assert!(read(&t) == vals, "a refused drain changes the tensor");
        drop(t);
        check_none();
        c.ev("refused ranges", 1);
        c.seen(&[99, rows as u64, inner as u64, matches!(b.0, Bound::Unbounded) as u64]);
        return;
    };
    let m = (e - s) * inner;
    let want: Vec<u32> = vals[s * inner..e * inner].to_vec();
    let k = match c.rng.below(4) { 0 => 0, 1 => m, _ => c.rng.range(0, m) };
    let mut pd = dims.to_vec();
    pd[0] = e - s;
    let mut rest = vals.clone();
    rest.drain(s * inner..e * inner);
    let mut rd = dims.to_vec();
    rd[0] -= e - s;
    let created0 = created();
    let mut out: Vec<T> = Vec::new();
    let mut leaked = false;
    let mut pure = true;
    {
        let d = with_range!(b, |r| t.drain(r));
        let sd = dims_of(d.shape());
        assert!(sd == pd, "the drained part has shape {sd:?}, expected {pd:?}");
        assert!(d.len() == m && d.is_empty() == (m == 0) && d.rank() == pd.len());
        match way {
            0 => out.extend(d),
            1 | 2 => {
                // Step by step, up to k.
                let mut it = d.into_iter();
                for i in 0..k {
                    assert!(it.len() == m - i, "remaining length {} after {i} of {m}", it.len());
                    out.push(it.next().expect("ends early"));
                }
                if way == 2 && k == m {
                    assert!(it.next().is_none() && it.next().is_none() && it.len() == 0);
                }
            }
            3 => {
                // Leaked after k.
                let mut it = d.into_iter();
                for _ in 0..k {
                    out.push(it.next().expect("ends early"));
                }
                forget(it);
                leaked = true;
            }
            4 => drop(d),
            5 => {
                let u: Tensor<T, S> = FromExpression::from_expr(d);
                chk_shape(&u, &pd);
                out.extend(u.into_vec());
            }
            6 => {
                let mut n = 0;
                d.enumerate().for_each(|(i, x)| { assert!(i == n); n += 1; out.push(x); });
            }
            7 => {
                // Partially by stepping, then by folding.
                let mut it = d.into_iter();
                for _ in 0..k {
                    out.push(it.next().expect("ends early"));
                }
                let v = it.fold(Vec::new(), |mut v, x| { v.push(x); v });
                out.extend(v);
            }
            8 => {
                // As the operand of an expression.
                let z = d.zip(expr::fill_with(|| T::mk(5)));
                assert!(dims_of(z.shape()) == pd);
                z.for_each(|(x, _)| out.push(x));
                pure = false;
            }
            _ => {
                // An iterator over an adapter, dropped after k.
                let mut it = d.map(|x| (x, 1)).into_iter();
                for _ in 0..k {
                    out.push(it.next().expect("ends early").0);
                }
            }
        }
    }
    if pure {
        assert!(created() == created0, "draining creates or clones elements");
    }
    check_errors();
    let got: Vec<u32> = out.iter().map(|x| x.val()).collect();
    let full = matches!(way, 0 | 5..=8);
    let take = if way == 4 { 0 } else if full { m } else { k };
    assert!(got == want[..take], "drained {got:?}, expected {:?}", &want[..take]);
    let dims2: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    let left = read(&t);
    assert!(left.len() == product(&dims2) && t.len() == left.len());
    if leaked {
        // Anything that was not handed out, in order.
        assert!(left.is_empty() || dims2[1..] == dims[1..], "leaked drain: inner dimensions {dims2:?} of {dims:?}");
        if !T::ZST {
            let mut v = vals.iter().filter(|x| !got.contains(x));
            assert!(left.iter().all(|x| v.any(|y| x == y)), "leaked drain of {s}..{e}: {left:?} remains, {got:?} handed out");
        }
        c.ev("leaked drains", 1);
    } else {
        chk_shape(&t, &rd);
        assert!(left == rest, "after draining {s}..{e} of {dims:?}: {left:?}, expected {rest:?}");
        let alive = total_live();
        assert!(alive == (rest.len() + out.len()) as i64, "{alive} elements are alive, expected {}", rest.len() + out.len());
        c.ev("drains compared", 1);
    }
    // The tensor continues to work.
    let mut nd = dims2.clone();
    nd[0] += 1;
    t.resize_with(&nd, || T::mk(1));
    let again = read(&t);
    assert!(again[..left.len()] == left[..] && again.len() == product(&nd));
    t.truncate(dims2[0]);
    let u = t.drain(..).fold(0, |n, _| n + 1);
    assert!(u == left.len() && t.is_empty() && t.dim(0) == 0);
    drop(out);
    drop(t);
    check_errors();
    if !leaked {
        check_none();
    }
    c.ev("elements handed out", take);
    c.seen(&[way as u64, s as u64, e as u64, rows as u64, inner as u64, k as u64]);
}

/// Repeated drains compared with a vector.
fn repeated(c: &mut Case) {
    let rows = c.rng.range(0, 12);
    let inner = c.rng.range(1, 3);
    let mut t: Tensor<Tr, (usize, usize)> = Tensor::from((0..(rows * inner) as u32).map(Tr::new).collect::<Vec<_>>()).into_shape([rows, inner]);
    let mut m: Vec<u32> = (0..(rows * inner) as u32).collect();
    let mut h = vec![rows as u64, inner as u64];
    for _ in 0..c.rng.range(1, 5) {
        let n = t.dim(0);
        let (a, b) = range(&mut c.rng, n);
        let k = c.rng.range(0, (b - a) * inner);
        let front: Vec<u32> = t.drain(a..b).into_iter().take(k).map(|x| x.get()).collect();
        let part: Vec<u32> = m.drain(a * inner..b * inner).collect();
        assert!(front == part[..k]);
        assert!(read(&t) == m && t.dim(0) == n - (b - a) && t.dim(1) == inner);
        assert!(live() == m.len(), "{} elements are alive, expected {}", live(), m.len());
        h.extend([a as u64, b as u64, k as u64]);
        c.ev("drains compared", 1);
    }
    drop(t);
    check_none();
    c.seen(&h);
}

/// All ranges and all numbers of consumed elements of small tensors.
fn exhaustive(c: &mut Case) {
    let i = c.index as usize;
    let (rows, inner) = (i / 3 % 5, i % 3);
    for a in 0..=rows {
        for b in a..=rows {
            for k in 0..=(b - a) * inner {
                for leak in [false, true] {
                    let mut t: Tensor<Tr, (usize, usize)> =
                        Tensor::from((0..(rows * inner) as u32).map(Tr::new).collect::<Vec<_>>()).into_shape([rows, inner]);
                    let mut it = t.drain(a..b).into_iter();
                    let got: Vec<u32> = (0..k).map(|_| it.next().unwrap().get()).collect();
                    assert!(got.iter().copied().eq((a * inner) as u32..(a * inner + k) as u32));
                    if leak {
                        forget(it);
                        let v = read(&t);
                        assert!(v.len() == t.dim(0) * t.dim(1) && (v.is_empty() || t.dim(1) == inner));
                        assert!(v.iter().all(|x| !got.contains(x)), "leaked drain leaves {v:?}, {got:?} was handed out");
                        drop(t);
                        check_errors();
                        reset();
                    } else {
                        drop(it);
                        let mut w: Vec<u32> = (0..(rows * inner) as u32).collect();
                        w.drain(a * inner..b * inner);
                        assert!(read(&t) == w && t.dim(0) == rows - (b - a), "drain {a}..{b} of [{rows}, {inner}] leaves {:?}", read(&t));
                        assert!(live() == w.len());
                        drop(t);
                        check_none();
                    }
                    c.ev("drains compared", 1);
                }
            }
        }
    }
    c.seen(&[rows as u64, inner as u64]);
}

/// The same for elements that have no destructor, where nothing but the contents shows the difference.
fn exhaustive_plain(c: &mut Case) {
    fn one<T: Copy + PartialEq + std::fmt::Debug>(c: &mut Case, rows: usize, inner: usize, f: impl Fn(usize) -> T + Copy) {
        let all: Vec<T> = (0..rows * inner).map(f).collect();
        for a in 0..=rows {
            for b in a..=rows {
                for k in 0..=(b - a) * inner {
                    for way in 0..3 {
                        let mut t: Tensor<T, (usize, usize)> = Tensor::from(all.clone()).into_shape([rows, inner]);
                        let mut w = all.clone();
                        let part: Vec<T> = w.drain(a * inner..b * inner).collect();
                        let mut it = t.drain(a..b).into_iter();
                        let got: Vec<T> = (0..k).map(|_| it.next().unwrap()).collect();
                        assert!(got == part[..k], "drain {a}..{b} of [{rows}, {inner}] gives {got:?}");
                        if way == 0 {
                            forget(it);
                            let v: Vec<T> = t.iter().copied().collect();
                            assert!(v.len() == t.dim(0) * t.dim(1) && (v.is_empty() || t.dim(1) == inner));
                            assert!(v.iter().all(|x| !got.contains(x)), "leaked drain leaves {v:?}, {got:?} was handed out");
                            assert!(v.iter().all(|x| all.contains(x)), "leaked drain leaves {v:?}, which were never there");
                            let n = t.dim(0);
                            t.resize(&[n + 1, inner], f(99));
                            assert!(t.dim(0) == n + 1 && t.iter().skip(n * inner).all(|x| *x == f(99)));
                            assert!(t.iter().take(n * inner).eq(v.iter()));
                        } else {
                            if way == 1 {
                                assert!(it.by_ref().eq(part[k..].iter().copied()));
                                assert!(it.next().is_none());
                            }
                            drop(it);
                            assert!(t.iter().eq(w.iter()) && t.dim(0) == rows - (b - a) && t.dim(1) == inner, "drain {a}..{b} of [{rows}, {inner}] leaves {t:?}");
                        }
                        c.ev("drains compared", 1);
                    }
                }
            }
        }
    }
    let i = c.index as usize;
    let (rows, inner) = (i / 3 % 5, i % 3);
    one(c, rows, inner, |x| x as u32 + 7);
    one(c, rows, inner, |x| x as u8 + 100);
    one(c, rows, inner, |x| [x as u64; 3]);
    c.seen(&[rows as u64, inner as u64, 1]);
}

/// Comparison of the zero-sized type with a very large length.
fn huge(c: &mut Case) {
    let n = usize::MAX - c.rng.below(3);
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(n) };
    let mut t: Tensor<(), (usize,)> = Tensor::from(v);
    let a = c.rng.below(5);
    let k = c.rng.below(7);
    let b = a + k;
    assert!(panics(|| t.drain(..=usize::MAX).len()));
    assert!(t.len() == n);
    {
        let d = t.drain(n - b..n - a);
        assert!(d.len() == k);
        assert!(d.into_iter().count() == k);
    }
    assert!(t.len() == n - k && t.dim(0) == n - k, "draining {k} of {n} leaves {}", t.len());
    t.truncate(4);
    assert!(t.len() == 4);
    c.ev("drains compared", 1);
    c.seen(&[a as u64, k as u64, n as u64]);
    let _ = (0..1).contains(&0) || RangeBounds::<usize>::contains(&(0..1), &0);
}

pub fn run(r: &mut Runner) {
    type U = usize;
    let dims = |c: &mut Case, lo: usize, hi: usize| -> Vec<usize> {
        let k = c.rng.range(lo, hi);
        let cap = c.cap(48);
        if c.rng.chance(2, 3) { c.rng.dims_pos(k, cap) } else { c.rng.dims(k, cap) }
    };
    r.section("dyn", 2500, 20, move |c| { let d = dims(c, 0, 5); drain::<Tr, DynRank>(c, &d, true) });
    r.section("dyn-zst", 600, 4, move |c| { let d = dims(c, 0, 4); drain::<TrZ, DynRank>(c, &d, true) });
    r.section("rank1", 800, 6, move |c| { let d = dims(c, 1, 1); drain::<Tr, (U,)>(c, &d, true) });
    r.section("rank2", 800, 6, move |c| { let d = dims(c, 2, 2); drain::<Tr, (U, U)>(c, &d, true) });
    r.section("rank2-const", 400, 3, move |c| { let mut d = dims(c, 2, 2); d[1] = 3; drain::<Tr, (U, Const<3>)>(c, &d, true) });
    r.section("rank3", 400, 2, move |c| { let d = dims(c, 3, 3); drain::<Tr, (U, U, U)>(c, &d, true) });
    r.section("rank3-const", 300, 2, move |c| { let mut d = dims(c, 3, 3); d[1] = 2; drain::<Tr, (U, Const<2>, U)>(c, &d, true) });
    r.section("head-const", 100, 1, move |c| { let mut d = dims(c, 2, 2); d[0] = 3; drain::<Tr, (Const<3>, U)>(c, &d, false) });
    r.section("all-const", 60, 1, move |c| drain::<Tr, (Const<2>, Const<2>)>(c, &[2, 2], false));
    r.section("rank0", 40, 1, move |c| drain::<Tr, ()>(c, &[], false));
    r.section("repeated", 600, 5, repeated);
    r.section("huge", 100, 2, huge);
    r.fixed("exhaustive", 15, 3, exhaustive);
    r.fixed("exhaustive-plain", 15, 3, exhaustive_plain);
    r.large("dyn-large", 8, move |c| { let d = dims(c, 1, 4); drain::<Tr, DynRank>(c, &d, true) });
    r.large("rank1-large", 4, move |c| { let d = dims(c, 1, 1); drain::<Tr, (U,)>(c, &d, true) });
    r.large("rank2-large", 4, move |c| { let d = dims(c, 2, 2); drain::<Tr, (U, U)>(c, &d, true) });
}
