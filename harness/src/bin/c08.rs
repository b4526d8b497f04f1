//! C08: expressions evaluate element-wise with correct broadcasting.

use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{array, tensor, Array, Const, DynRank, Rank, Shape, Slice, Tensor};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::fmt::Debug;
use vh::chain::*;
use vh::*;

vh::check_main!("C08", run);

/// Consumes an expression in one of all possible ways and compares the sequence of items.
fn consume<T, E>(c: &mut Case, e: E, dims: &[usize], want: &[T])
where
    T: PartialEq + Debug + Clone + 'static,
    E: Expression<Item = T>,
{
    assert!(want.len() == product(dims), "harness: wrong model");
    let got = dims_of(e.shape());
    assert!(got == dims, "shape of the expression is {got:?}, expected {dims:?}");
    assert!(e.len() == want.len() && e.rank() == dims.len() && e.is_empty() == want.is_empty());
    for i in 0..dims.len() {
        assert!(e.dim(i) == dims[i], "dim({i}) is {}, expected {}", e.dim(i), dims[i]);
    }
    let n = want.len();
    let mode = c.rng.below(10);
    c.log(|| format!("consume {dims:?} in mode {mode}"));
    match mode {
        0 | 1 => {
            let o = e.eval();
            let s: &Slice<T, E::Shape> = o.borrow();
            chk_vals(c, s, dims, want);
        }
        2 => {
            let t = Tensor::<T, E::Shape>::from_expr(e);
            assert!(t.capacity() >= t.len());
            chk_vals(c, &t, dims, want);
        }
        3 | 4 if !dims.is_empty() => {
            // Append to an array with matching inner dimensions, or to an empty one.
            let mut t: Tensor<T, DynRank> = Tensor::new();
            let mut all = want.to_vec();
            let mut d = dims.to_vec();
            if mode == 3 && !want.is_empty() {
                let k = c.rng.range(1, 3);
                let inner = n / dims[0];
                let pre: Vec<T> = (0..k * inner).map(|i| want[i % n].clone()).collect();
                all = pre.iter().chain(want).cloned().collect();
                d[0] += k;
                let mut pd = dims.to_vec();
                pd[0] = k;
                t = Tensor::from(pre).into_shape(&pd[..]);
            }
            let r = e.eval_into(&mut t);
            if n == 0 {
                // Whether an empty array adopts an empty shape is not specified.
                assert!(r.is_empty() && r.to_vec().is_empty());
                return;
            }
            chk_vals(c, r, &d, &all);
            chk_vals(c, &t, &d, &all);
        }
        5 => {
            let k = e.fold(0, |k, x| {
                assert!(k < n && x == want[k], "fold: item {k} is {x:?}, expected {:?}", want.get(k));
                k + 1
            });
            assert!(k == n, "fold visits {k} of {n}");
        }
        6 => {
            let mut k = 0;
            e.for_each(|x| {
                assert!(k < n && x == want[k], "for_each: item {k} is {x:?}, expected {:?}", want.get(k));
                k += 1;
            });
            assert!(k == n, "for_each visits {k} of {n}");
        }
        7 => {
            let mut it = e.into_iter().into_iter();
            for k in 0..n {
                let x = it.next();
                assert!(x.as_ref() == Some(&want[k]), "next: item {k} is {x:?}, expected {:?}", want[k]);
            }
            assert!(it.next().is_none(), "more than {n} items");
        }
        8 => {
            let mut it = e.into_iter().into_iter();
            let j = c.rng.range(0, n);
            for k in 0..j {
                let x = it.next();
                assert!(x.as_ref() == Some(&want[k]), "next: item {k} is {x:?}, expected {:?}", want[k]);
            }
            let k = it.fold(j, |k, x| {
                assert!(k < n && x == want[k], "fold from {j}: item {k} is {x:?}, expected {:?}", want.get(k));
                k + 1
            });
            assert!(k == n, "fold from {j} ends at {k} of {n}");
        }
        _ => {
            // Into a strided target.
            if dims.len() <= 6 && n > 0 {
                let f = want[0].clone();
                let mut s = Strider::new(c, dims, vec![f.clone(); n], || f.clone());
                s.view_mut().assign(e);
                let got = s.inside();
                assert!(got.len() == n && got.iter().zip(want).all(|(x, y)| *x == y), "assigned {got:?}, expected {want:?}");
                assert!(s.rest().iter().all(|x| **x == f), "assignment wrote outside the target");
            } else {
                let o = e.eval();
                let s: &Slice<T, E::Shape> = o.borrow();
                chk_vals(c, s, dims, want);
            }
        }
    }
    c.ev("items compared", n);
}

/// Calls the body with an operand expression (items `u64`) of the given dimensions whose elements
/// are `make(start..)`. `$rep`: only operands that may be repeated.
macro_rules! operand {
    ($c:expr, $dims:expr, $start:expr, $rep:expr, $x:ident => $body:expr) => {{
        let dims: &[usize] = $dims;
        let start: u64 = $start;
        let k = $c.rng.below(if $rep { 5 } else { 6 });
        $c.log(|| format!("operand {dims:?} from {start}, kind {k}"));
        match k {
            0 => {
                let t = tens_from::<u64>(dims, start);
                let $x = t.expr().copied();
                $body
            }
            1 => {
                let t = Strider::make($c, dims, start);
                let v = t.view();
                let $x = v.cloned();
                $body
            }
            2 if dims.len() == 2 => {
                let t = Strider::make($c, dims, start);
                let $x = t.view().into_mapping::<Rank<2>, mdarray::Strided>().map(|x| *x);
                $body
            }
            2 if dims.len() == 1 => {
                let t = tens_from::<u64>(dims, start).into_mapping::<Rank<1>>();
                let $x = t.expr().map(|x| *x);
                $body
            }
            5 => {
                let $x = tens_from::<u64>(dims, start).into_expr();
                $body
            }
            _ => {
                let m = MV::dense(dims);
                let $x = expr::from_fn(dims, move |i: &[usize]| {
                    assert!(i.len() == m.rank(), "from_fn: index {i:?} for {:?}", m.dims);
                    assert!(i.iter().zip(&m.dims).all(|(a, b)| a < b), "from_fn: index {i:?} for {:?}", m.dims);
                    u64::make(start + m.pos(i) as u64)
                });
                $body
            }
        }
    }};
}

/// As `operand` with fewer kinds.
macro_rules! operand3 {
    ($c:expr, $dims:expr, $start:expr, $rep:expr, $x:ident => $body:expr) => {{
        let dims: &[usize] = $dims;
        let start: u64 = $start;
        let k = $c.rng.below(if $rep { 2 } else { 3 });
        $c.log(|| format!("operand {dims:?} from {start}, kind {k}"));
        match k {
            0 => {
                let t = Strider::make($c, dims, start);
                let v = t.view();
                let $x = v.cloned();
                $body
            }
            1 => {
                let m = MV::dense(dims);
                let $x = expr::from_fn(dims, move |i: &[usize]| {
                    assert!(i.len() == m.rank(), "from_fn: index {i:?} for {:?}", m.dims);
                    assert!(i.iter().zip(&m.dims).all(|(a, b)| a < b), "from_fn: index {i:?} for {:?}", m.dims);
                    u64::make(start + m.pos(i) as u64)
                });
                $body
            }
            _ => {
                let $x = tens_from::<u64>(dims, start).into_expr();
                $body
            }
        }
    }};
}

fn suffix(c: &mut Case, d: &[usize]) -> Vec<usize> {
    let k = if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, d.len()) };
    d[k..].to_vec()
}

/// Value of element `i` of a broadcast operand with `n` elements.
fn at(i: usize, n: usize, start: u64) -> u64 {
    u64::make(start + (i % n) as u64)
}

fn pair(c: &mut Case) {
    let full = base_dims(c, 0, 6);
    let low = suffix(c, &full);
    let swap = c.rng.chance(1, 2);
    let (da, db) = if swap { (low.clone(), full.clone()) } else { (full.clone(), low.clone()) };
    let (na, nb) = (product(&da), product(&db));
    let n = product(&full);
    let log = RefCell::new(Vec::new());
    let want: Vec<u64> = (0..n).map(|i| at(i, na, 0).wrapping_mul(3) ^ at(i, nb, 9000)).collect();
    let calls: Vec<(u64, u64)> = (0..n).map(|i| (at(i, na, 0), at(i, nb, 9000))).collect();
    let (ra, rb) = (da.len() < db.len(), db.len() < da.len());
    operand!(c, &da, 0, ra, a => operand!(c, &db, 9000, rb, b => {
        match c.rng.below(4) {
            0 => consume(c, a.zip(b), &full, &calls),
            1 => consume(c, expr::zip(a, b).map(|(x, y)| { log.borrow_mut().push((x, y)); x.wrapping_mul(3) ^ y }), &full, &want),
            2 => consume(c, a.zip_with(b, |(x, y)| { log.borrow_mut().push((x, y)); x.wrapping_mul(3) ^ y }), &full, &want),
            _ => {
                let w: Vec<(usize, u64)> = want.iter().copied().enumerate().collect();
                let e = expr::map(a.zip(b), |(x, y)| { log.borrow_mut().push((x, y)); x.wrapping_mul(3) ^ y }).enumerate();
                consume(c, e, &full, &w)
            }
        }
    }));
    let log = log.into_inner();
    assert!(log.is_empty() || log == calls, "closure was called with {log:?}, expected {calls:?}");
    if n > 0 {
        c.seen(&[sig(&MV::dense(&full)), low.len() as u64, swap as u64]);
    }
}

fn triple(c: &mut Case) {
    let full = base_dims(c, 0, 5);
    let low = suffix(c, &full);
    let lower = suffix(c, &low);
    let mut d = [full.clone(), low, lower];
    c.rng.shuffle(&mut d);
    let n = product(&full);
    let ns: Vec<usize> = d.iter().map(|x| product(x)).collect();
    let log = RefCell::new((Vec::new(), Vec::new()));
    let m2 = d[0].len().max(d[1].len());
    let left = c.rng.chance(1, 2);
    let m2r = if left { m2 } else { d[1].len().max(d[2].len()) };
    let r = |i: usize| d[i].len() < full.len();
    let f = |x: u64, y: u64| x.wrapping_mul(3) ^ y;
    let v = |i: usize, k: usize| at(i, ns[k], 7000 * k as u64);
    if left {
        // (a zip b) zip c: the inner pair may itself be repeated.
        let want: Vec<u64> = (0..n).map(|i| f(f(v(i, 0), v(i, 1)), v(i, 2))).collect();
        let calls: Vec<(u64, u64)> = (0..n).map(|i| (v(i, 0), v(i, 1))).collect();
        operand3!(c, &d[0], 0, r(0) || m2 < full.len(), a => operand3!(c, &d[1], 7000, r(1) || m2 < full.len(), b => operand3!(c, &d[2], 14000, r(2), e => {
            let x = a.zip(b).map(|(x, y)| { log.borrow_mut().0.push((x, y)); f(x, y) });
            consume(c, x.zip(e).map(|(x, y)| { log.borrow_mut().1.push(x); f(x, y) }), &full, &want)
        })));
        let log = log.into_inner();
        assert!(log.0 == calls, "inner closure was called with {:?}, expected {calls:?}", log.0);
        let w: Vec<u64> = calls.iter().map(|&(x, y)| f(x, y)).collect();
        assert!(log.1 == w, "outer closure was called with {:?}, expected {w:?}", log.1);
    } else {
        let want: Vec<u64> = (0..n).map(|i| f(v(i, 0), f(v(i, 1), v(i, 2)))).collect();
        let calls: Vec<(u64, u64)> = (0..n).map(|i| (v(i, 1), v(i, 2))).collect();
        operand3!(c, &d[0], 0, r(0), a => operand3!(c, &d[1], 7000, r(1) || m2r < full.len(), b => operand3!(c, &d[2], 14000, r(2) || m2r < full.len(), e => {
            let x = b.zip(e).map(|(x, y)| { log.borrow_mut().0.push((x, y)); f(x, y) });
            consume(c, a.zip(x).map(|(x, y)| { log.borrow_mut().1.push(x); f(x, y) }), &full, &want)
        })));
        let log = log.into_inner();
        assert!(log.0 == calls, "inner closure was called with {:?}, expected {calls:?}", log.0);
        let w: Vec<u64> = (0..n).map(|i| v(i, 0)).collect();
        assert!(log.1 == w, "outer closure was called with {:?}, expected {w:?}", log.1);
    }
    if n > 0 {
        c.seen(&[sig(&MV::dense(&full)), d[0].len() as u64, d[1].len() as u64, d[2].len() as u64, left as u64]);
    }
}

/// Single operand adapters and generators.
fn single(c: &mut Case) {
    let d = base_dims(c, 0, 8);
    let n = product(&d);
    let t = tens::<u64>(&d);
    let v: Vec<u64> = vals(n, 0);
    let refs: Vec<u64> = v.clone();
    let mut calls = 0usize;
    let kind = c.rng.below(13);
    c.log(|| format!("single {kind} of {d:?}"));
    match kind {
        0 => consume(c, expr::cloned(&t), &d, &v),
        1 => consume(c, expr::copied(&t), &d, &v),
        2 => {
            let w: Vec<(usize, u64)> = v.iter().copied().enumerate().collect();
            consume(c, expr::enumerate(t), &d, &w)
        }
        3 => {
            let w: Vec<u64> = v.iter().map(|x| x ^ 1).collect();
            consume(c, expr::map(&t, |x| { calls += 1; x ^ 1 }), &d, &w);
            assert!(calls == n, "closure called {calls} times for {n} elements");
        }
        4 => {
            let w: Vec<u64> = v.iter().map(|x| x ^ 2).collect();
            consume(c, t.apply(|x| { calls += 1; x ^ 2 }).into_expr(), &d, &w);
            assert!(calls == n, "closure called {calls} times for {n} elements");
        }
        5 => {
            let w: Vec<u64> = v.iter().map(|x| x ^ 2).collect();
            consume(c, (&t).apply(|x| { calls += 1; x ^ 2 }), &d, &w);
            assert!(calls == n, "closure called {calls} times for {n} elements");
        }
        6 => {
            // The order of calls of a generator with a shape.
            let mut at = 0;
            let m = MV::dense(&d);
            let e = expr::from_fn(&d[..], |i: &[usize]| {
                assert!(at < n && m.pos(i) == at, "from_fn: call {at} has index {i:?} of {:?}", m.dims);
                at += 1;
                u64::make(at as u64 - 1)
            });
            consume(c, e, &d, &v);
            assert!(at == n, "from_fn called {at} times for {n} elements");
        }
        7 => consume(c, expr::from_elem(&d[..], 5u64), &d, &vec![5; n]),
        8 => {
            // Scalars without a shape, broadcast by another operand.
            let w: Vec<(u64, String)> = v.iter().map(|&x| (x, "f".to_string())).collect();
            consume(c, t.expr().copied().zip(expr::fill("f".to_string())), &d, &w);
        }
        9 => {
            let mut k = 0usize;
            let w: Vec<(usize, u64)> = v.iter().copied().enumerate().collect();
            consume(c, expr::fill_with(|| { k += 1; k - 1 }).zip(t.into_expr()), &d, &w);
            assert!(k == n, "fill_with called {k} times for {n} elements");
        }
        10 => {
            // Alone they are scalars.
            let mut k = 0;
            consume(c, expr::fill(3u64), &[], &[3]);
            consume(c, expr::fill_with(|| { k += 1; 4u64 }), &[], &[4]);
            assert!(k == 1, "fill_with called {k} times for a scalar");
        }
        11 => {
            let w: Vec<u64> = v.iter().map(|x| x.wrapping_add(7)).collect();
            if d.len() <= 6 {
                let s = Strider::make(c, &d, 0);
                let view = s.view();
                match c.rng.below(3) {
                    0 => consume(c, (&view).apply(|x| x.wrapping_add(7)), &d, &w),
                    1 => consume(c, as_expr(&view).map(|x| x.wrapping_add(7)), &d, &w),
                    _ => consume(c, view.apply(|x| x.wrapping_add(7)), &d, &w),
                }
            }
        }
        _ => {
            // Mutable expression: the closure gets each element once, in order.
            let mut t = t;
            let mut k = 0;
            let w: Vec<usize> = (0..n).collect();
            consume(c, t.expr_mut().map(|x| { assert!(*x == u64::make(k as u64)); *x = 0; k += 1; k - 1 }), &d, &w);
            assert!(k == n && t.iter().all(|x| *x == 0), "mutable expression changed {k} of {n} elements");
        }
    }
    if n > 0 {
        c.seen(&[sig(&MV { dims: d, idx: Vec::new() }), kind as u64, refs.len() as u64]);
    }
}

/// Closures are called for exactly the items that a consumer passes over, in order and once: the
/// same as for an iterator of the standard library with the same closure.
fn consumers(c: &mut Case) {
    let full = base_dims(c, 0, 5);
    let low = suffix(c, &full);
    let n = product(&full);
    let nb = product(&low);
    let f = |x: u64, y: u64| x.wrapping_mul(3) ^ y;
    let pairs: Vec<(u64, u64)> = (0..n).map(|i| (at(i, n, 0), at(i, nb, 500))).collect();
    let (real, model) = (RefCell::new(Vec::new()), RefCell::new(Vec::new()));
    let rep = low.len() < full.len();
    let kind = c.rng.below(5);
    c.log(|| format!("consumer of {full:?} with {low:?}, kind {kind}"));
    let agree = |_| assert!(*real.borrow() == *model.borrow(), "closure was called with {:?}, expected {:?}", real.borrow(), model.borrow());
    let rec = |x: u64, y: u64| { real.borrow_mut().push((x, y)); f(x, y) };
    let m = pairs.iter().map(|&(x, y)| { model.borrow_mut().push((x, y)); f(x, y) });
    operand!(c, &full, 0, false, a => operand!(c, &low, 500, rep, b => {
        let what = "mapped expression";
        match kind {
            0 => script::lockstep(&mut c.rng, what, a.zip(b).map(|(x, y)| rec(x, y)).into_iter(), m, |x, y| x == y, agree),
            1 => script::lockstep(&mut c.rng, what, b.zip(a).map(|(y, x)| rec(x, y)).enumerate().into_iter(), m.enumerate(), |x, y| x == y, agree),
            2 => {
                let e = expr::fill(7u64).zip(a.zip_with(b, |(x, y)| rec(x, y)).into_expr());
                script::lockstep(&mut c.rng, what, e.into_iter(), m.map(|x| (7u64, x)), |x, y| x == y, agree)
            }
            3 => {
                let mut i = 0;
                let e = expr::fill_with(|| { let (x, y) = pairs[i]; i += 1; rec(x, y) }).zip(a.zip(b));
                script::lockstep(&mut c.rng, what, e.into_iter().map(|x| x.0), m, |x, y| x == y, agree)
            }
            _ => {
                let d = MV::dense(&full);
                let e = expr::from_fn(&full[..], |i: &[usize]| { let (x, y) = pairs[d.pos(i)]; rec(x, y) });
                script::lockstep(&mut c.rng, what, e.into_iter(), m, |x, y| x == y, agree)
            }
        }
    }));
    let calls = real.into_inner().len();
    c.ev("closure calls in lock step", calls);
    if n > 0 {
        c.seen(&[sig(&MV::dense(&full)), low.len() as u64, kind as u64]);
    }
}

fn as_expr<'a, T, S: Shape, L: mdarray::Layout>(s: &'a Slice<T, S, L>) -> mdarray::View<'a, T, S, L> {
    s.into_expr()
}

/// Owned arrays: zip_with and apply use the given order and consume the operand.
fn owned(c: &mut Case) {
    let full = base_dims(c, 0, 5);
    let low = suffix(c, &full);
    let (n, nb) = (product(&full), product(&low));
    let f = |x: u64, y: u64| x.wrapping_mul(3) ^ y;
    let want: Vec<u64> = (0..n).map(|i| f(at(i, n, 0), at(i, nb, 500))).collect();
    let mut calls = 0;
    let rep = low.len() < full.len();
    operand!(c, &low, 500, rep, b => {
        if c.rng.chance(1, 2) {
            let t = tens::<u64>(&full);
            let r: Tensor<u64, DynRank> = t.zip_with(b, |(x, y)| {
                assert!(calls < n && x == at(calls, n, 0) && y == at(calls, nb, 500), "call {calls} of zip_with gets {x}, {y}");
                calls += 1;
                f(x, y)
            });
            chk_vals(c, &r, &full, &want);
        } else {
            // Different element type of the same size, and of another size.
            let t = tens::<u64>(&full);
            let r = t.into_expr().zip_with(b, |(x, y)| { calls += 1; (f(x, y) as u8, x) }).eval();
            let w: Vec<(u8, u64)> = want.iter().enumerate().map(|(i, &x)| (x as u8, at(i, n, 0))).collect();
            chk_vals(c, &r, &full, &w);
        }
    });
    assert!(calls == n, "closure called {calls} times for {n} elements");
    if n > 0 {
        c.seen(&[sig(&MV::dense(&full)), low.len() as u64]);
    }
}

/// Subarrays (along an axis, and lanes) as elements of an expression, combined with other operands.
fn parts(c: &mut Case) {
    let full = base_dims(c, 1, 5);
    let mut s = Strider::make(c, &full, 0);
    let axis = c.rng.below(full.len());
    let lanes = c.rng.chance(1, 2);
    let dims = if lanes { [&full[..axis], &full[axis + 1..]].concat() } else { vec![full[axis]] };
    // The elements of each subarray in order, as one number.
    let mix = |h: u64, x: u64| h.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(x ^ 0x55).rotate_left(17);
    let m = MV::dense(&full);
    let mut want = vec![1u64; product(&dims)];
    each_index(&full, |i| {
        let k = if lanes { MV::dense(&dims).pos(&[&i[..axis], &i[axis + 1..]].concat()) } else { i[axis] };
        want[k] = mix(want[k], u64::make(m.pos(i) as u64));
    });
    let n = want.len();
    let unique = c.rng.chance(1, 3);
    let other = match c.rng.below(4) {
        0 => suffix(c, &dims),
        1 => dims.clone(),
        2 => Vec::new(),
        _ if unique => dims.clone(),
        _ => {
            let k = c.rng.range(1, 2);
            let mut d: Vec<usize> = (0..k).map(|_| c.rng.range(0, 3)).collect();
            d.extend(&dims);
            d
        }
    };
    let nb = product(&other);
    let all = if other.len() > dims.len() { other.clone() } else { dims.clone() };
    let rep = other.len() < dims.len();
    let first = c.rng.chance(1, 2);
    let fixed = c.rng.chance(1, 2);
    c.log(|| format!("{} along {axis} of {full:?}, with {other:?}, unique {unique}, first {first}", if lanes { "lanes" } else { "subarrays" }));
    let w: Vec<(u64, u64)> = (0..product(&all)).map(|i| (want[i % n.max(1)], at(i, nb, 500))).collect();
    macro_rules! both {
        ($e:expr, $b:expr) => {
            if first {
                consume(c, $e.zip($b), &all, &w)
            } else {
                consume(c, $b.zip($e).map(|(x, y)| (y, x)), &all, &w)
            }
        };
    }
    macro_rules! on {
        ($v:expr, $a:expr) => {
            operand!(c, &other, 500, rep, b => if lanes {
                both!($v.lanes($a).map(|s| s.iter().fold(1, |h, x| mix(h, *x))), b)
            } else {
                both!($v.axis_expr($a).map(|s| s.iter().fold(1, |h, x| mix(h, *x))), b)
            })
        };
    }
    macro_rules! on_mut {
        ($v:expr, $a:expr) => {
            operand!(c, &other, 500, rep, b => if lanes {
                both!($v.lanes_mut($a).map(|mut s| s.iter_mut().fold(1, |h, x| { let r = mix(h, *x); *x = !*x; r })), b)
            } else {
                both!($v.axis_expr_mut($a).map(|mut s| s.iter_mut().fold(1, |h, x| { let r = mix(h, *x); *x = !*x; r })), b)
            })
        };
    }
    if unique {
        let mut v = s.view_mut();
        match (full.len(), axis) {
            (1, 0) if fixed => on_mut!(v.into_mapping::<Rank<1>, mdarray::Strided>(), Const::<0>),
            (2, 0) if fixed => on_mut!(v.into_mapping::<Rank<2>, mdarray::Strided>(), Const::<0>),
            (2, 1) if fixed => on_mut!(v.into_mapping::<Rank<2>, mdarray::Strided>(), Const::<1>),
            (3, 1) if fixed => on_mut!(v.into_mapping::<Rank<3>, mdarray::Strided>(), Const::<1>),
            _ => on_mut!(v, axis),
        }
        // Every element was reached once.
        assert!(s.inside().iter().enumerate().all(|(i, x)| **x == !u64::make(i as u64)), "elements are not visited exactly once");
    } else {
        let v = s.view();
        match (full.len(), axis) {
            (1, 0) if fixed => on!(v.into_mapping::<Rank<1>, mdarray::Strided>(), Const::<0>),
            (2, 0) if fixed => on!(v.into_mapping::<Rank<2>, mdarray::Strided>(), Const::<0>),
            (2, 1) if fixed => on!(v.into_mapping::<Rank<2>, mdarray::Strided>(), Const::<1>),
            (3, 1) if fixed => on!(v.into_mapping::<Rank<3>, mdarray::Strided>(), Const::<1>),
            _ if fixed => {
                let t = tens::<u64>(&full);
                on!(t, axis)
            }
            _ => on!(v, axis),
        }
    }
    if n > 0 {
        c.seen(&[sig(&MV::dense(&full)), axis as u64, lanes as u64, other.len() as u64, unique as u64]);
    }
}

/// Operands that do not fit, or cannot be repeated.
fn mismatch(c: &mut Case) {
    let full = base_dims(c, 1, 5);
    let mut low = suffix(c, &full);
    let kind = c.rng.below(5);
    c.log(|| format!("mismatch {kind} of {full:?} and {low:?}"));
    match kind {
        0 | 1 if !low.is_empty() => {
            low = misfit(&mut c.rng, &full);
            if low.len() > 6 || product(&low) > 400 {
                return;
            }
            c.log(|| format!("changed to {low:?}"));
            operand!(c, &full, 0, true, a => operand!(c, &low, 50, true, b => {
                let r = if kind == 0 { caught(|| a.zip(b).shape().rank()) } else { caught(|| b.zip(a).shape().rank()) };
                assert!(r.is_err(), "zip of {full:?} and {low:?} is accepted");
            }));
            let (t, u) = (tens::<u64>(&full), tens::<u64>(&low));
            assert!(panics(|| t.zip_with(&u, |(x, _)| x).len()), "zip_with of {full:?} and {low:?} is accepted");
            if full.len() < 4 && (1..4).contains(&low.len()) {
                fn run<S: Shape, R: Shape>(c: &mut Case, full: &[usize], low: &[usize]) {
                    let t: Tensor<u64, S> = tens::<u64>(full).into_mapping();
                    let mut u: Tensor<u64, R> = tens::<u64>(low).into_mapping();
                    let (s, q) = (Strider::make(c, full, 0), Strider::make(c, low, 0));
                    let (s, q) = (s.view().into_mapping::<S, mdarray::Strided>(), q.view().into_mapping::<R, mdarray::Strided>());
                    macro_rules! no {
                        ($($e:expr),*) => {$(
                            assert!(panics(|| $e.len()), "{} of {full:?} and {low:?} of static rank is accepted", stringify!($e));
                            c.ev("mismatches of static rank refused", 1);
                        )*};
                    }
                    no!(t.expr().zip(&u), u.expr().zip(&t), t.expr().zip(u.expr_mut()), u.expr_mut().zip(t.clone()),
                        s.clone().zip(q.clone()), q.clone().zip(s.clone()), s.clone().zip(&u), u.expr().zip(s.clone()),
                        t.expr().map(|x| *x).zip(q.clone().cloned()), t.expr().zip(t.expr()).zip(&u), u.expr().zip(t.expr().enumerate()),
                        t.expr().zip(t.expr().zip(&u)), mdarray::expr::zip(&t, u.clone()), (&t).zip_with(&u, |(x, _)| x),
                        s.clone().zip_with(q.clone(), |(x, _)| x), u.clone().zip_with(t.clone(), |(x, _)| x));
                }
                macro_rules! pairs {
                    ($($i:literal $j:literal),*) => {
                        match (full.len(), low.len()) {
                            $(($i, $j) => run::<mdarray::Rank<$i>, mdarray::Rank<$j>>(c, &full, &low),)*
                            _ => unreachable!(),
                        }
                    };
                }
                pairs!(1 1, 1 2, 1 3, 2 1, 2 2, 2 3, 3 1, 3 2, 3 3);
            }
        }
        _ => {
            let outer = full.len() - low.len();
            if product(&full[..outer]) < 2 || low.len() == full.len() {
                return;
            }
            let t = tens::<u64>(&full);
            let s = Strider::make(c, &full, 0);
            let mut u = tens_from::<u64>(&low, 50);
            assert!(panics(|| t.expr().zip(u.expr_mut()).len()), "mutable expression {low:?} is repeated to {full:?}");
            assert!(panics(|| u.expr_mut().zip(&s.base).len()), "mutable expression {low:?} is repeated");
            assert!(panics(|| s.view().zip(u.expr_mut().map(|x| *x)).len()), "mapped mutable expression {low:?} is repeated");
            assert!(panics(|| t.expr().zip(u.expr_mut().enumerate()).len()), "enumerated mutable expression {low:?} is repeated");
            assert!(panics(|| t.expr().zip(u.clone().into_expr().zip(&u)).len()), "zipped moving expression {low:?} is repeated");
            if !low.is_empty() {
                let mut w = u.clone();
                assert!(panics(|| t.expr().zip(w.lanes_mut(0usize).map(|x| x.len())).len()) , "mutable lanes are repeated");
                if low.len() == 1 {
                    assert!(panics(|| t.expr().zip(w.axis_expr_mut(0usize)).len()), "mutable axis expression is repeated");
                }
            }
            // One part that cannot be repeated is enough, wherever it is.
            let (r, mut q) = (u.clone(), u.clone());
            assert!(panics(|| t.expr().zip(r.expr().zip(q.expr_mut())).len()), "pair with a mutable expression {low:?} on the right is repeated");
            assert!(panics(|| t.expr().zip(q.expr_mut().zip(&r)).len()), "pair with a mutable expression {low:?} on the left is repeated");
            assert!(panics(|| r.expr().zip(q.expr_mut()).zip(&t).len()), "pair with a mutable expression {low:?} on the right is repeated");
            assert!(panics(|| q.expr_mut().zip(r.expr()).zip(s.view()).len()), "pair with a mutable expression {low:?} on the left is repeated");
            assert!(panics(|| t.expr().zip(r.expr().zip(q.clone())).len()), "pair with a moving expression {low:?} on the right is repeated");
            assert!(panics(|| t.expr().zip(q.clone().into_expr().map(|x| x)).len()), "mapped moving expression {low:?} is repeated");
            assert!(panics(|| t.expr().zip(r.expr().zip(q.clone()).map(|x| *x.0).enumerate()).len()), "changed pair {low:?} is repeated");
            assert!(panics(|| t.expr().zip(r.expr().zip(r.expr().zip(q.expr_mut().map(|x| *x)))).len()), "nested pair {low:?} is repeated");
            assert!(panics(|| r.expr().zip(q.expr_mut()).map(|x| *x.0).zip(t.expr()).eval().len()), "mapped pair {low:?} is repeated");
            assert!(panics(|| r.expr().copied().zip(q.clone().into_expr()).zip(t.expr()).for_each(|_| ())), "pair {low:?} is repeated");
            if !low.is_empty() {
                assert!(panics(|| t.expr().zip(r.lanes(0usize).zip(q.lanes_mut(0usize))).len()), "pair with mutable lanes is repeated");
            }
            c.ev("repeats refused", 11);
            let u2 = u.clone();
            assert!(panics(|| t.expr().zip(u2).len()), "moving expression {low:?} is repeated to {full:?}");
            // The owned array cannot be broadcast to a higher rank.
            assert!(panics(|| u.zip_with(&t, |(x, _)| x).len()), "zip_with repeats the owned array");
            c.ev("repeats refused", 9);
        }
    }
    c.seen(&[sig(&MV::dense(&full)), sig(&MV::dense(&low)), kind as u64]);
}

/// What cannot be repeated is refused for elements of every kind.
fn refused<T: El>(c: &mut Case) {
    let full = base_dims(c, 1, 5);
    let low = suffix(c, &full);
    if product(&full[..full.len() - low.len()]) < 2 {
        return;
    }
    let t = tens::<T>(&full);
    let mut u = tens_from::<T>(&low, 50);
    let k = tens::<u64>(&full);
    macro_rules! no {
        ($($e:expr),* $(,)?) => {$(
            assert!(panics(|| $e), "{} with {low:?} to {full:?} of {} is accepted", stringify!($e), T::NAME);
            c.ev("repeats of other elements refused", 1);
        )*};
    }
    no!(
        t.expr().zip(u.clone().into_expr()).len(),
        t.expr().zip(u.clone()).for_each(|_| ()),
        u.clone().into_expr().zip(&t).for_each(|_| ()),
        k.expr().zip(u.clone().into_expr().map(|x| x)).for_each(|_| ()),
        u.clone().into_expr().enumerate().zip(k.expr()).for_each(|_| ()),
        k.expr().zip(u.expr().zip(u.clone())).for_each(|_| ()),
        u.clone().into_expr().zip(u.expr()).zip(&k).for_each(|_| ()),
        k.expr().zip(u.expr_mut()).for_each(|_| ()),
        u.expr_mut().zip(&t).for_each(|_| ()),
        t.clone().into_expr().zip(u.expr_mut()).for_each(|_| ()),
        k.expr().zip(u.expr_mut().map(|x| x.clone())).for_each(|_| ()),
        u.clone().zip_with(&t, |(x, _)| x).len(),
        u.clone().into_expr().zip(&k).map(|(x, _)| x).eval().len(),
    );
    // A range of a longer vector that is moved out is not repeated either.
    if low.len() == 1 {
        let mut v: Tensor<T, (usize,)> = Tensor::from(vals::<T>(low[0] + 2, 3));
        let n = low[0];
        no!(
            t.expr().zip(v.clone().drain(1..n + 1)).len(),
            k.expr().zip(v.drain(1..n + 1)).for_each(|_| ()),
        );
    }
    c.seen(&[sig(&MV::dense(&full)), low.len() as u64]);
}

fn refused_all(c: &mut Case) {
    match c.rng.below(7) {
        0 => refused::<Z>(c),
        1 => refused::<u8>(c),
        2 => refused::<String>(c),
        3 => refused::<Box<u64>>(c),
        4 => refused::<A64>(c),
        5 => refused::<[u16; 3]>(c),
        _ => refused::<Z>(c),
    }
}

/// Constant-sized shapes, alone and merged with dynamic ones.
fn consts(c: &mut Case) {
    let a = array![[1u64, 2, 3], [4, 5, 6]];
    let b = array![7u64, 8, 9];
    let n = c.rng.range(0, 4);
    let t: Tensor<u64, (usize, Const<2>, Const<3>)> = Tensor::from(vals::<u64>(6 * n, 0)).into_shape((n, Const::<2>, Const::<3>));
    let d = tens::<u64>(&[n, 2, 3]);
    let f = |(x, y): (&u64, &u64)| x.wrapping_mul(5) ^ y;
    let g = |x: u64, y: u64| x.wrapping_mul(5) ^ y;
    let av: Vec<u64> = (1..7).collect();
    let bv: Vec<u64> = (7..10).collect();
    let tv: Vec<u64> = vals(6 * n, 0);
    let w: Vec<u64> = (0..6).map(|i| g(av[i], bv[i % 3])).collect();
    let r: Array<u64, (Const<2>, Const<3>)> = a.expr().zip(&b).map(f).eval();
    chk_vals(c, &r, &[2, 3], &w);
    consume(c, a.expr().zip(&b).map(f), &[2, 3], &w);
    let w: Vec<u64> = (0..6).map(|i| g(bv[i % 3], av[i])).collect();
    consume(c, b.expr().zip(&a).map(f), &[2, 3], &w);
    let w: Vec<u64> = (0..6 * n).map(|i| g(av[i % 6], tv[i])).collect();
    consume(c, a.expr().zip(&t).map(f), &[n, 2, 3], &w);
    consume(c, a.expr().zip(&d).map(f), &[n, 2, 3], &w);
    let w: Vec<u64> = (0..6 * n).map(|i| g(tv[i], bv[i % 3])).collect();
    consume(c, t.expr().zip(&b).map(f), &[n, 2, 3], &w);
    consume(c, d.expr().zip(b.expr()).map(f), &[n, 2, 3], &w);
    let w: Vec<u64> = (0..6 * n).map(|i| g(tv[i], tv[i])).collect();
    consume(c, t.expr().zip(&d).map(f), &[n, 2, 3], &w);
    consume(c, d.expr().zip(&t).map(f), &[n, 2, 3], &w);
    // Owned arrays.
    let r: Array<u64, (Const<2>, Const<3>)> = a.zip_with(&b, |(x, y)| g(x, *y));
    let w: Vec<u64> = (0..6).map(|i| g(av[i], bv[i % 3])).collect();
    chk_vals(c, &r, &[2, 3], &w);
    let r: Array<(u64, u8), (Const<3>,)> = b.clone().apply(|x| (x, x as u8));
    chk_vals(c, &r, &[3], &[(7, 7), (8, 8), (9, 9)]);
    let r: Array<String, (Const<3>,)> = b.map(|x| x.to_string());
    chk_vals(c, &r, &[3], &["7".to_string(), "8".into(), "9".into()]);
    // Contradicting sizes are refused.
    let bad = tens::<u64>(&[n, 3, 3]);
    assert!(panics(|| t.expr().zip(&bad).len()) && panics(|| bad.expr().zip(&t).len()), "shapes (n, 2, 3) and (n, 3, 3) are merged");
    let u = tensor![[1u64, 2, 3, 4]; 2];
    assert!(panics(|| r.expr().zip(&u).len()), "shapes (3) and (2, 4) are merged");
    c.seen(&[n as u64]);
}

pub fn run(r: &mut Runner) {
    r.section("single", 2000, 10, single);
    r.section("pair", 3000, 16, pair);
    r.section("triple", 3000, 16, triple);
    r.section("owned", 1000, 6, owned);
    r.section("parts", 1200, 6, parts);
    r.section("mismatch", 800, 6, mismatch);
    r.section("refused", 600, 8, refused_all);
    r.section("const", 200, 2, consts);
    r.section("consumers", 2000, 8, consumers);
    r.large("single-large", 20, single);
    r.large("pair-large", 20, pair);
    r.large("triple-large", 14, triple);
    r.large("owned-large", 8, owned);
    r.large("consumers-large", 14, consumers);
}
