//! C06: iteration visits every element exactly once in row-major order.

use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{Array, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};
use std::fmt::Debug;
use vh::huge;
use vh::chain::*;
use vh::*;

vh::check_main!("C06", run);

/// Drives fresh iterators in every way a consumer can and compares with the expected items.
fn drive<I, W, M>(c: &mut Case, what: &str, mut mk: M, want: &[W])
where
    I: ExactSizeIterator,
    I::Item: PartialEq<W> + Debug,
    W: Debug,
    M: FnMut() -> I,
{
    let n = want.len();
    c.log(|| format!("{what}, {n} items"));
    let hint = |it: &I, k: usize| {
        let h = it.size_hint();
        assert!(h == (n - k, Some(n - k)), "{what}: size_hint is {h:?} after {k} of {n}");
        assert!(it.len() == n - k, "{what}: len is {} after {k} of {n}", it.len());
    };
    // Element by element, beyond the end.
    let mut it = mk();
    for k in 0..n {
        hint(&it, k);
        match it.next() {
            Some(x) => assert!(x == want[k], "{what}: item {k} is {x:?}, expected {:?}", want[k]),
            None => panic!("{what}: ends after {k} of {n} items"),
        }
    }
    for _ in 0..3 {
        hint(&it, n);
        let x = it.next();
        assert!(x.is_none(), "{what}: yields {x:?} after all {n} items");
    }
    let extra = it.fold(0, |a, _| a + 1);
    assert!(extra == 0, "{what}: fold visits {extra} more items after the end");
    // Internal iteration from any point.
    let from = if n <= 6 { (0..=n).collect::<Vec<_>>() } else { vec![0, 1, c.rng.range(1, n), c.rng.range(1, n), n - 1, n] };
    for k in from {
        let mut it = mk();
        for i in 0..k {
            assert!(it.next().is_some_and(|x| x == want[i]), "{what}: item {i} differs");
        }
        hint(&it, k);
        let mut p = k;
        let mut cmp = |x: I::Item| {
            assert!(p < n, "{what}: internal iteration from {k} visits more than {n} items");
            assert!(x == want[p], "{what}: internal iteration from {k}: item {p} is {x:?}, expected {:?}", want[p]);
            p += 1;
        };
        match c.rng.below(6) {
            0 => it.for_each(&mut cmp),
            1 => it.fold((), |(), x| cmp(x)),
            2 => {
                let m = it.count();
                assert!(m == n - k, "{what}: count from {k} is {m} of {n}");
                p = n;
            }
            3 => {
                let v: Vec<I::Item> = it.collect();
                assert!(v.len() == n - k, "{what}: collected {} from {k} of {n}", v.len());
                v.into_iter().for_each(&mut cmp);
            }
            4 => {
                let x = it.last();
                match x {
                    Some(x) => assert!(k < n && x == want[n - 1], "{what}: last from {k} is {x:?}"),
                    None => assert!(k == n, "{what}: no last item from {k} of {n}"),
                }
                p = n;
            }
            _ => {
                let j = c.rng.range(0, n - k);
                match it.nth(j) {
                    Some(x) => {
                        assert!(k + j < n && x == want[k + j], "{what}: nth({j}) from {k} is {x:?}");
                        hint(&it, k + j + 1);
                        p = k + j + 1;
                        it.for_each(|x| {
                            assert!(p < n && x == want[p], "{what}: after nth, item {p} is {x:?}");
                            p += 1;
                        });
                    }
                    None => {
                        assert!(k + j >= n, "{what}: nth({j}) from {k} of {n} is None");
                        p = n;
                    }
                }
            }
        }
        assert!(p == n, "{what}: internal iteration from {k} stops at {p} of {n}");
    }
    // Any other consumer, in step with an iterator of the standard library.
    for _ in 0..2 {
        script::lockstep(&mut c.rng, what, mk(), want.iter(), |x, y| *x == **y, |_| ());
    }
    c.ev("consumer scripts in lock step", 2);
    c.ev("iterators driven", 8);
    c.ev("items compared", 4 * n);
}

/// A clone continues from the same position, independently.
fn drive_clone<I, W, M>(c: &mut Case, what: &str, mut mk: M, want: &[W])
where
    I: ExactSizeIterator + Clone,
    I::Item: PartialEq<W> + Debug,
    W: Debug,
    M: FnMut() -> I,
{
    drive(c, what, &mut mk, want);
    let n = want.len();
    let k = c.rng.range(0, n);
    let mut a = mk();
    a.by_ref().take(k).for_each(drop);
    let mut b = a.clone();
    let mut b2 = mk();
    b2.clone_from(&a);
    let ahead = c.rng.range(0, n - k);
    for i in 0..ahead {
        assert!(a.next().is_some_and(|x| x == want[k + i]), "{what}: item {} differs", k + i);
    }
    assert!(b.len() == n - k && b2.len() == n - k, "{what}: clone has {} of {} items left", b.len(), n - k);
    for i in k..n {
        let x = b.next();
        assert!(x.as_ref().is_some_and(|x| *x == want[i]), "{what}: item {i} of the clone at {k} is {x:?}");
    }
    assert!(b.next().is_none(), "{what}: clone at {k} yields more items");
    let mut i = k;
    b2.for_each(|x| {
        assert!(i < n && x == want[i], "{what}: clone_from at {k}: item {i} is {x:?}");
        i += 1;
    });
    assert!(i == n, "{what}: clone_from at {k} ends at {i} of {n}");
    for i in k + ahead..n {
        assert!(a.next().is_some_and(|x| x == want[i]), "{what}: original at {i} differs after cloning");
    }
    assert!(a.next().is_none());
    c.ev("clones driven", 2);
}

fn model_vals<T: El>(m: &MV) -> Vec<T> {
    m.idx.iter().map(|&i| T::make(i as u64)).collect()
}

fn shared<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV) {
    let want = model_vals::<T>(m);
    let refs: Vec<&T> = want.iter().collect();
    match c.rng.below(9) {
        0 => drive_clone(c, "iter", || s.iter(), &refs),
        1 => drive_clone(c, "expr().into_iter", || s.expr().into_iter(), &refs),
        2 => drive_clone(c, "(&slice).into_iter", || s.into_iter(), &refs),
        3 => drive_clone(c, "cloned", || s.expr().cloned().into_iter(), &want),
        4 => {
            // Closures with state that is not cloned.
            let w: Vec<(T, bool)> = want.iter().map(|x| (x.clone(), *x == want[0])).collect();
            drive_clone(c, "map with captured state", || s.expr().map(|x| (x.clone(), *x == want[0])).into_iter(), &w)
        }
        5 => {
            let w: Vec<(u8, T)> = want.iter().map(|x| (1, x.clone())).collect();
            drive_clone(c, "map", || s.expr().map(|x| (1, x.clone())).into_iter(), &w)
        }
        6 => {
            let w: Vec<(usize, &T)> = want.iter().enumerate().collect();
            drive_clone(c, "enumerate", || s.expr().enumerate().into_iter(), &w)
        }
        7 => {
            let w: Vec<(&T, &T)> = want.iter().map(|x| (x, x)).collect();
            drive_clone(c, "zip with itself", || s.expr().zip(s).into_iter(), &w)
        }
        _ => {
            let t = tens_from::<T>(&m.dims, 7000);
            let o: Vec<T> = vals(m.len(), 7000);
            let w: Vec<(&T, &T)> = want.iter().zip(&o).collect();
            if c.rng.chance(1, 2) {
                drive_clone(c, "zip with dense", || s.expr().zip(&t).into_iter(), &w)
            } else {
                let w: Vec<(&T, &T)> = w.iter().map(|x| (x.1, x.0)).collect();
                drive_clone(c, "dense zip with", || t.expr().zip(s).into_iter(), &w)
            }
        }
    }
    // Expression-level fold and for_each.
    let mut k = 0;
    s.expr().for_each(|x| {
        assert!(k < want.len() && *x == want[k], "for_each: item {k} is {x:?}");
        k += 1;
    });
    assert!(k == want.len(), "for_each visits {k} of {}", want.len());
    let k = s.expr().fold(0, |k, x| {
        assert!(k < want.len() && *x == want[k], "fold: item {k} is {x:?}");
        k + 1
    });
    assert!(k == want.len(), "fold visits {k} of {}", want.len());
}

fn refs<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let t = tens::<T>(&dims);
    let m = MV::dense(&dims);
    c.log(|| format!("base {dims:?}"));
    match c.rng.below(5) {
        0 => shared(c, &t, &m),
        1 => as_rank_t!(t, dims.len(), x => shared(c, &x, &m)),
        2 => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            shared(c, &v, &m);
            c.seen(&[sig(&m)]);
        }
        _ => {
            let steps = c.rng.range(1, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => shared(c, &x, &m));
            c.seen(&[sig(&m)]);
        }
    }
    c.seen(&[sig(&MV::dense(&dims))]);
}

/// Copies of plain elements.
fn copied(c: &mut Case) {
    fn look<S: Shape, L: Layout>(c: &mut Case, s: &Slice<u64, S, L>, m: &MV) {
        let want = model_vals::<u64>(m);
        drive_clone(c, "copied", || s.expr().copied().into_iter(), &want);
        let w: Vec<u64> = want.iter().map(|x| x ^ 1).collect();
        drive_clone(c, "map of copies", || s.expr().copied().map(|x| x ^ 1).into_iter(), &w);
    }
    let dims = base_dims(c, 0, 8);
    let t = tens::<u64>(&dims);
    let steps = c.rng.range(0, 3);
    let (v, m) = chain(c, t.expr().into_mapping(), MV::dense(&dims), steps);
    as_rank!(v, m.rank(), x => look(c, &x, &m));
    c.seen(&[sig(&m)]);
}

/// Shared views with any strides, also such that elements coincide.
fn strides(c: &mut Case) {
    let buf: Vec<u64> = vals(60, 0);
    let (d, s, off, m) = any_strides(c, buf.len());
    let v = view_strides(&buf, &d, &s, off);
    shared(c, &v, &m);
    let steps = c.rng.range(0, 2);
    let (v, m) = chain(c, v, m, steps);
    as_rank!(v, m.rank(), x => shared(c, &x, &m));
    c.seen(&[sig(&m)]);
}

/// Mutable iteration: each element is handed out once (by address), and writes arrive.
fn unique<T: El, S: Shape, L: Layout>(c: &mut Case, s: &mut Slice<T, S, L>, m: &MV, base: *mut T) {
    let n = m.len();
    let want: Vec<(usize, T)> = m.idx.iter().map(|&i| (base as usize + size_of::<T>() * i, T::make(i as u64))).collect();
    let k = c.rng.range(0, n);
    let form = c.rng.below(4);
    let mut got: Vec<&mut T> = Vec::new();
    script::lockstep(&mut c.rng, "iter_mut", s.iter_mut(), want.iter(), |x, y| &**x as *const T as usize == y.0 && **x == y.1, |_| ());
    let mut it = match form {
        0 => s.iter_mut(),
        1 => s.expr_mut().into_iter(),
        2 => IntoIterator::into_iter(&mut *s),
        _ => IntoExpression::into_expr(&mut *s).into_iter(),
    };
    for i in 0..k {
        assert!(it.len() == n - i, "iter_mut: len is {} after {i} of {n}", it.len());
        got.push(it.next().unwrap_or_else(|| panic!("iter_mut ends at {i} of {n}")));
    }
    assert!(it.size_hint() == (n - k, Some(n - k)));
    if c.rng.chance(1, 2) {
        it.for_each(|x| {
            assert!(got.len() < n, "iter_mut yields more than {n} items");
            got.push(x)
        });
    } else {
        while let Some(x) = it.next() {
            assert!(got.len() < n, "iter_mut yields more than {n} items");
            got.push(x);
        }
        assert!(it.next().is_none() && it.len() == 0, "iter_mut continues after the end");
    }
    assert!(got.len() == n, "iter_mut yields {} of {n} items", got.len());
    for (i, x) in got.iter().enumerate() {
        let at = &**x as *const T as usize;
        assert!(at == want[i].0 && **x == want[i].1, "iter_mut: item {i} of {:?} is {x:?} at {at:x}, expected {:x?}", m.dims, want[i]);
    }
    // All references are live at the same time; write through them in any order.
    for (i, x) in got.iter_mut().enumerate().rev() {
        **x = T::make(i as u64 + 9);
    }
    let mut i = 0;
    for x in s.iter() {
        assert!(*x == T::make(i + 9), "the value written through item {i} is {x:?}");
        i += 1;
    }
    c.ev("mutable references handed out", n);
    c.seen(&[sig(m), k as u64]);
}

fn muts<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let mut t = tens::<T>(&dims);
    let base = t.as_mut_ptr();
    let m = MV::dense(&dims);
    c.log(|| format!("mutable, base {dims:?}"));
    match c.rng.below(4) {
        0 => unique(c, &mut t, &m, base),
        1 => as_rank_t!(t, dims.len(), x => { let mut x = x; let b = x.as_mut_ptr(); unique(c, &mut x, &m, b) }),
        2 => {
            let steps = c.rng.range(0, 3);
            let (mut v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
            unique(c, &mut v, &m, base);
        }
        _ => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain_mut(c, t.expr_mut().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => { let mut x = x; unique(c, &mut x, &m, base) });
        }
    }
}

/// By value.
fn owned<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 7);
    let t = tens::<T>(&dims);
    let want: Vec<T> = vals(t.len(), 0);
    c.log(|| format!("by value {dims:?} of {}", T::NAME));
    c.seen(&[sig(&MV::dense(&dims))]);
    match c.rng.below(6) {
        0 => drive(c, "tensor by value", || t.clone().into_iter(), &want),
        1 => as_rank_t!(t, dims.len(), x => drive(c, "tensor by value", || x.clone().into_iter(), &want)),
        2 => drive(c, "into_expr by value", || t.clone().into_expr().into_iter(), &want),
        3 => {
            let w: Vec<(T, &T)> = want.iter().cloned().zip(want.iter()).collect();
            drive(c, "by value zip", || t.clone().into_expr().zip(&t).into_iter(), &w)
        }
        4 => {
            let w: Vec<(usize, T)> = want.iter().cloned().enumerate().collect();
            drive(c, "by value enumerate", || expr::enumerate(t.clone()).into_iter(), &w)
        }
        _ => {
            let r = dims.len();
            if r == 0 || product(&dims) == 0 {
                return;
            }
            // Elements before the range stay, the drained ones come by value.
            let (a, b) = range(&mut c.rng, dims[0]);
            let inner = product(&dims[1..]);
            let w = want[a * inner..b * inner].to_vec();
            let mut ts: Vec<Box<Tensor<T, DynRank>>> = Vec::new();
            drive(
                c,
                "drain",
                || {
                    ts.push(Box::new(t.clone()));
                    let p: *mut Tensor<T, DynRank> = &mut **ts.last_mut().unwrap();
                    unsafe { &mut *p }.drain(a..b).into_iter()
                },
                &w,
            );
        }
    }
}

fn arrays(c: &mut Case) {
    let a: Array<String, (Const<2>, Const<3>, Const<4>)> =
        Array::from_fn(|i| String::make((i[0] * 12 + i[1] * 4 + i[2]) as u64));
    let want: Vec<String> = vals(24, 0);
    let refs: Vec<&String> = want.iter().collect();
    drive(c, "array by value", || a.clone().into_iter(), &want);
    drive_clone(c, "array by reference", || (&a).into_iter(), &refs);
    drive_clone(c, "array view", || a.view(.., .., ..).into_iter(), &refs);
    drive(c, "array into_expr", || a.clone().into_expr().into_iter(), &want);
    let e: Array<String, (Const<3>, Const<0>)> = Array::from_fn(|_| panic!());
    drive(c, "empty array by value", || e.clone().into_iter(), &Vec::<String>::new());
    drive_clone(c, "empty array", || e.iter(), &Vec::<&String>::new());
    let s: Array<String, ()> = Array::from_fn(|_| "x".into());
    drive(c, "scalar array", || s.clone().into_iter(), &["x".to_string()]);
    let mut b = a.clone();
    for (k, x) in (&mut b).into_iter().enumerate() {
        assert!(*x == want[k]);
        *x = format!("{k}");
    }
    drive_clone(c, "array after writing", || b.iter(), &(0..24).map(|k| k.to_string()).collect::<Vec<_>>().iter().collect::<Vec<&String>>());
    c.seen(&[c.index]);
}

/// Generator expressions and broadcasting.
fn generated(c: &mut Case) {
    let dims = base_dims(c, 0, 6);
    let n = product(&dims);
    let d2 = dims.clone();
    let enc = |i: &[usize]| i.iter().fold(i.len() as u64, |a, &x| a.wrapping_mul(100).wrapping_add(x as u64));
    let mut want = Vec::new();
    each_index(&dims, |i| want.push(enc(i)));
    c.seen(&[sig(&MV::dense(&dims)), 3]);
    match c.rng.below(7) {
        0 => drive_clone(c, "from_fn", || expr::from_fn(&d2[..], enc).into_iter(), &want),
        1 => match dims.len() {
            0 => drive_clone(c, "from_fn", || expr::from_fn([], enc).into_iter(), &want),
            1 => drive_clone(c, "from_fn", || expr::from_fn([dims[0]], enc).into_iter(), &want),
            2 => drive_clone(c, "from_fn", || expr::from_fn([dims[0], dims[1]], enc).into_iter(), &want),
            3 => drive_clone(c, "from_fn", || expr::from_fn([dims[0], dims[1], dims[2]], enc).into_iter(), &want),
            4 => drive_clone(c, "from_fn", || expr::from_fn([dims[0], dims[1], dims[2], dims[3]], enc).into_iter(), &want),
            _ => {}
        },
        2 => drive_clone(c, "from_elem", || expr::from_elem(&d2[..], "e".to_string()).into_iter(), &vec!["e".to_string(); n]),
        3 => {
            drive_clone(c, "fill", || expr::fill(5u8).into_iter(), &[5u8]);
            let mut k = 0;
            drive(c, "fill_with", || { k = 0; expr::fill_with(|| 9u8).into_iter() }, &[9u8]);
        }
        4 => {
            let t = tens::<u64>(&dims);
            let v: Vec<u64> = vals(n, 0);
            let w: Vec<(u64, &u64)> = want.iter().copied().zip(&v).collect();
            drive_clone(c, "from_fn zip tensor", || expr::from_fn(&d2[..], enc).zip(&t).into_iter(), &w);
            let w: Vec<(&u64, u64)> = v.iter().zip(want.iter().copied()).collect();
            drive_clone(c, "tensor zip from_fn", || t.expr().zip(expr::from_fn(&d2[..], enc)).into_iter(), &w);
        }
        5 => {
            // Lower rank operand, repeated.
            let k = c.rng.range(0, dims.len());
            let low = dims[k..].to_vec();
            let t = tens::<u64>(&dims);
            let u = tens_from::<u64>(&low, 9000);
            let m = product(&low);
            let v: Vec<u64> = vals(n, 0);
            let lv: Vec<u64> = vals(m, 9000);
            let w: Vec<(&u64, &u64)> = v.iter().enumerate().map(|(i, x)| (x, &lv[i % m])).collect();
            drive_clone(c, "zip with lower rank", || t.expr().zip(&u).into_iter(), &w);
            let w: Vec<(&u64, &u64)> = w.iter().map(|x| (x.1, x.0)).collect();
            drive_clone(c, "lower rank zip", || u.expr().zip(&t).into_iter(), &w);
            let p = perm(&mut c.rng, dims.len());
            let _ = p;
        }
        _ => {
            let t = tens::<u64>(&dims);
            let v: Vec<u64> = vals(n, 0);
            let w: Vec<(&u64, u8)> = v.iter().map(|x| (x, 3)).collect();
            drive_clone(c, "zip fill", || t.expr().zip(expr::fill(3u8)).into_iter(), &w);
            let w: Vec<(u8, (usize, u64))> = v.iter().copied().enumerate().map(|x| (3, x)).collect();
            drive_clone(c, "fill zip enumerate copied", || expr::fill(3u8).zip(t.expr().copied().enumerate()).into_iter(), &w);
        }
    }
}

/// Iterators over subarrays and lanes: counts and order (contents are the subject of C07).
fn subarrays(c: &mut Case) {
    let dims = base_dims(c, 1, 5);
    let t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let k = c.rng.below(dims.len());
    let first = |m: &MV| (m.idx.first().map(|&i| u64::make(i as u64)), m.len());
    macro_rules! it {
        ($e:expr) => {
            || $e.into_iter().map(|v| (v.iter().next().copied(), v.len()))
        };
    }
    let w: Vec<_> = m.subarrays(k).iter().map(first).collect();
    drive_clone(c, "axis_expr", it!(t.axis_expr(k)), &w);
    let w: Vec<_> = m.lanes(k).iter().map(first).collect();
    drive_clone(c, "lanes", it!(t.lanes(k)), &w);
    let w: Vec<_> = m.subarrays(0).iter().map(first).collect();
    drive_clone(c, "outer_expr", it!(t.outer_expr()), &w);
    let w: Vec<_> = m.lanes(dims.len() - 1).iter().map(first).collect();
    drive_clone(c, "rows", it!(t.rows()), &w);
    c.seen(&[sig(&m), k as u64]);
}

/// Views and mutable views consumed directly.
fn direct(c: &mut Case) {
    let d = base_dims(c, 3, 3);
    let mut t = tens::<u64>(&d);
    let m = MV::dense(&d).permute(&[2, 0, 1]);
    let want = model_vals(&m);
    let refs: Vec<&u64> = want.iter().collect();
    {
        let v: View<u64, Rank<3>, Strided> = t.permute([2, 0, 1]);
        drive_clone(c, "view by value", || v.into_iter(), &refs);
        drive_clone(c, "view by reference", || (&v).into_iter(), &refs);
    }
    let mut k = 0;
    let v: ViewMut<u64, Rank<3>, Strided> = t.permute_mut([2, 0, 1]);
    for x in v {
        assert!(*x == want[k], "mutable view by value: item {k} is {x}");
        *x += 1;
        k += 1;
    }
    assert!(k == want.len());
    let v = t.remap::<Rank<3>, Dense>();
    assert!(v.iter().copied().eq(MV::dense(&d).idx.iter().map(|&i| u64::make(i as u64) + 1)), "not each element was visited once");
    c.seen(&[sig(&m)]);
}

pub fn run(r: &mut Runner) {
    r.section("shared", 2400, 8, refs::<u64>);
    r.section("shared-string", 200, 2, refs::<String>);
    r.section("shared-u8", 200, 1, refs::<u8>);
    r.section("shared-odd", 200, 1, refs::<[u16; 3]>);
    r.section("shared-aligned", 200, 1, refs::<A64>);
    r.section("shared-zst", 200, 2, refs::<Z>);
    r.section("copied", 300, 1, copied);
    r.section("strides", 1000, 5, strides);
    r.section("mutable", 1600, 8, muts::<u64>);
    r.section("mutable-string", 200, 2, muts::<String>);
    r.section("mutable-u8", 200, 1, muts::<u8>);
    r.section("mutable-odd", 200, 1, muts::<[u16; 3]>);
    r.section("mutable-aligned", 200, 1, muts::<A64>);
    r.section("mutable-zst", 200, 2, muts::<Z>);
    r.section("owned-string", 600, 4, owned::<String>);
    r.section("owned-box", 300, 3, owned::<Box<u64>>);
    r.section("owned-aligned", 300, 2, owned::<A64>);
    r.section("owned-zst", 300, 3, owned::<Z>);
    r.section("owned-odd", 200, 1, owned::<[u16; 3]>);
    r.section("owned-u8", 200, 1, owned::<u8>);
    r.section("generated", 1500, 6, generated);
    r.section("subarrays", 500, 3, subarrays);
    r.section("arrays", 60, 1, arrays);
    r.section("direct", 400, 3, direct);
    if !r.is_miri() {
        r.section("huge-u8", 1500, 0, |c| huge::case::<u8>(c, huge::VIEWS | huge::PERMS | huge::AXES | huge::ITER));
        r.section("huge-u32", 1000, 0, |c| huge::case::<u32>(c, huge::VIEWS | huge::PERMS | huge::AXES | huge::ITER));
    }
    r.large("shared-large", 8, refs::<u64>);
    r.large("mutable-large", 6, muts::<u64>);
    r.large("owned-large", 6, owned::<u64>);
    r.large("generated-large", 6, generated);
}
