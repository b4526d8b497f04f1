//! C21: assignment, fill and copies write every element and nothing else.

use mdarray::expr::{self, Expression};
use mdarray::{array, Array, Const, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View};
use std::cell::Cell;
use std::rc::Rc;
use vh::chain::*;
use vh::*;

vh::check_main!("C21", run);

type U = usize;

const OTHER: u64 = 77;
const SRC: u64 = 1000;

fn strider<T: El>(c: &mut Case, d: &[usize], start: u64) -> Strider<T> {
    Strider::new(c, d, vals::<T>(product(d), start), || T::make(OTHER))
}

#[track_caller]
fn written<T: El>(c: &mut Case, s: &Strider<T>, want: &[T], what: &str) {
    let got = s.inside();
    assert!(got.len() == want.len());
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        assert!(*a == b, "{what}: element {i} is {a:?} instead of {b:?}");
    }
    for x in s.rest() {
        assert!(*x == T::make(OTHER), "{what}: an element outside the target is changed to {x:?}");
    }
    c.ev("elements compared", s.base.len());
}

fn sig2(d: &[usize], k: u64) -> u64 {
    d.iter().fold(k, |a, &x| vh::rng::mix(a ^ (x as u64 + 1)))
}

/// `n` elements of a source with `low` elements, repeated.
fn repeated<T: El>(n: usize, low: usize, start: u64) -> Vec<T> {
    (0..n).map(|i| T::make(start + (i % low) as u64)).collect()
}

fn assigns<T: El>(c: &mut Case) {
    let d = base_dims(c, 0, 5);
    let k = if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, d.len()) };
    let low = d[k..].to_vec();
    let (n, ln) = (product(&d), product(&low));
    let src = tens_from::<T>(&low, SRC);
    let sv = strider::<T>(c, &low, SRC);
    let want: Vec<T> = if n == 0 { vec![] } else { repeated(n, ln, SRC) };
    let kind = c.rng.below(12);
    c.log(|| format!("assign {low:?} to {d:?}, source kind {kind}, {}", T::NAME));
    c.seen(&[sig2(&d, kind as u64), k as u64]);
    macro_rules! to {
        ($t:expr) => {{
            let t = $t;
            match kind {
                0 => t.assign(&src),
                1 => t.assign(src.expr()),
                2 => t.assign(sv.view()),
                3 => t.assign(&sv.view()),
                4 => t.assign(src.expr().cloned()),
                5 => t.assign(sv.view().map(|x| x.clone())),
                6 => t.assign(expr::fill(T::make(SRC))),
                7 => {
                    // A generator consumed once: full shape.
                    let mut i = 0;
                    t.assign(expr::from_fn(&d[..], |_: &[usize]| {
                        i += 1;
                        T::make(SRC + i - 1)
                    }));
                }
                8 => t.assign(tens_from::<T>(&d, SRC)),
                9 => t.assign(tens_from::<T>(&d, SRC).into_expr()),
                10 => {
                    let mut i = 0;
                    t.assign(expr::fill_with(|| {
                        i += 1;
                        T::make(SRC + i - 1)
                    }));
                }
                _ => t.assign(src.expr().zip(sv.view()).map(|(a, b)| {
                    assert!(a == b, "operands at different positions: {a:?} and {b:?}");
                    b
                })),
            }
        }};
    }
    use mdarray::expr::IntoExpression;
    let want = match kind {
        6 => vec![T::make(SRC); n],
        7..=10 => vals(n, SRC),
        _ => want,
    };
    // Strided target of dynamic and static rank, dense target, owned tensor.
    let mut s = strider::<T>(c, &d, 0);
    to!(&mut s.view_mut());
    written(c, &s, &want, "strided target");
    let mut s = strider::<T>(c, &d, 0);
    as_rank!(s.view_mut(), d.len(), v => { let mut v = v; to!(&mut v) });
    written(c, &s, &want, "strided target of static rank");
    let mut t = tens::<T>(&d);
    let (p, cap) = (t.as_ptr(), t.capacity());
    to!(&mut t);
    assert!(t.as_ptr() == p && t.capacity() == cap, "assignment replaces the buffer");
    chk_vals(c, &t, &d, &want);
    as_rank_t!(tens::<T>(&d), d.len(), t => {
        let mut t = t;
        to!(&mut t);
        chk_vals(c, &t, &d, &want);
    });
    // The source is unchanged.
    chk_vals(c, &src, &low, &vals(ln, SRC));
    written(c, &sv, &vals::<T>(ln, SRC), "source");
    c.ev("assignments", 4);
    // Target: a part of an array that the source comes from as well.
    if d.len() > 0 && d[0] >= 2 {
        let h = d[0] / 2;
        let mut t = tens::<T>(&d);
        let w = n / d[0];
        let i = c.rng.below(h);
        {
            let (mut a, b) = t.split_axis_at_mut(0, h);
            if c.rng.chance(1, 2) {
                a.axis_at_mut(0, i).assign(b.axis_at(0, 0));
            } else {
                let x = b.axis_at(0, 0).to_tensor();
                a.axis_at_mut(0, i).assign(x);
            }
        }
        let mut want = vals::<T>(n, 0);
        for j in 0..w {
            want[i * w + j] = T::make((h * w + j) as u64);
        }
        chk_vals(c, &t, &d, &want);
        c.ev("assignments", 1);
    }
}

fn fills<T: El>(c: &mut Case) {
    let d = base_dims(c, 0, 5);
    let n = product(&d);
    let kind = c.rng.below(2);
    c.log(|| format!("fill {d:?}, kind {kind}, {}", T::NAME));
    c.seen(&[sig2(&d, kind as u64)]);
    fn fill<T: El, S: Shape, L: Layout>(t: &mut Slice<T, S, L>, kind: usize) -> usize {
        let mut i = 0;
        if kind == 0 {
            t.fill(T::make(SRC));
        } else {
            t.fill_with(|| {
                i += 1;
                T::make(SRC + i - 1)
            });
        }
        i as usize
    }
    let calls = if kind == 0 { 0 } else { n };
    let want: Vec<T> = if kind == 0 { vec![T::make(SRC); n] } else { vals(n, SRC) };
    let mut s = strider::<T>(c, &d, 0);
    let k = as_rank!(s.view_mut(), d.len(), v => { let mut v = v; fill(&mut v, kind) });
    assert!(k == calls, "generator called {k} times for {n} elements");
    written(c, &s, &want, "fill");
    let mut s = strider::<T>(c, &d, 0);
    let k = fill(&mut s.view_mut(), kind);
    assert!(k == calls, "generator called {k} times for {n} elements");
    written(c, &s, &want, "fill");
    let mut t = tens::<T>(&d);
    let k = fill(&mut t, kind);
    assert!(k == calls, "generator called {k} times for {n} elements");
    chk_vals(c, &t, &d, &want);
    as_rank_t!(tens::<T>(&d), d.len(), t => {
        let mut t = t;
        fill(&mut t, kind);
        chk_vals(c, &t, &d, &want);
    });
    c.ev("fills", 4);
    // A part of an array, through any chain of view operations.
    let bd = base_dims(c, 1, 4);
    let mut t = tens::<T>(&bd);
    let mut m = MV::dense(&bd);
    {
        let v: SViewMut<'_, T> = t.expr_mut().into_mapping();
        let len = c.rng.range(1, 4);
        let (mut v, m2) = chain_mut(c, v, m.clone(), len);
        m = m2;
        fill(&mut v, kind);
    }
    let mut want = vals::<T>(product(&bd), 0);
    for (k, &i) in m.idx.iter().enumerate() {
        want[i] = T::make(if kind == 0 { SRC } else { SRC + k as u64 });
    }
    chk_vals(c, &t, &bd, &want);
    c.ev("fills", 1);
}

/// Copies have the elements, their own storage, and leave the source as it is.
fn copies<T: El>(c: &mut Case) {
    let d = base_dims(c, 0, 5);
    let n = product(&d);
    c.log(|| format!("copies of {d:?} of {}", T::NAME));
    c.seen(&[sig2(&d, 1)]);
    let want = vals::<T>(n, SRC);
    #[track_caller]
    fn apart<T>(a: *const T, b: *const T, n: usize, m: usize) {
        if size_of::<T>() > 0 && n > 0 && m > 0 {
            let (a, b, s) = (a as usize, b as usize, size_of::<T>());
            assert!(a + n * s <= b || b + m * s <= a, "a copy shares the storage of the source");
        }
    }
    fn one<T: El, S: Shape, L: Layout>(c: &mut Case, v: &Slice<T, S, L>, base: (*const T, usize), d: &[usize], want: &[T]) {
        let n = want.len();
        let mut t = v.to_tensor();
        chk_vals(c, &t, d, want);
        apart(t.as_ptr(), base.0, n, base.1);
        t.fill(T::make(3));
        let u: Tensor<T, S> = Tensor::from(v);
        chk_vals(c, &u, d, want);
        apart(u.as_ptr(), base.0, n, base.1);
        let w = v.to_vec();
        assert!(w == want, "to_vec gives {w:?}");
        apart(w.as_ptr(), base.0, n, base.1);
        let w: Vec<T> = u.clone().into_vec();
        assert!(w == want);
        let e: Tensor<T, S> = mdarray::expr::FromExpression::from_expr(v.expr().cloned());
        chk_vals(c, &e, d, want);
        chk_vals(c, v, d, want);
        c.ev("copies", 5);
    }
    let s = strider::<T>(c, &d, SRC);
    let base = (s.base.as_ptr(), s.base.len());
    one(c, &s.view(), base, &d, &want);
    as_rank!(s.view(), d.len(), v => one(c, &v, base, &d, &want));
    written(c, &s, &want, "source");
    let t = tens_from::<T>(&d, SRC);
    one(c, &t, (t.as_ptr(), n), &d, &want);
    as_rank_t!(t, d.len(), t => {
        one(c, &t, (t.as_ptr(), n), &d, &want);
        // Clones, and clones into something else.
        let mut a = t.clone();
        chk_vals(c, &a, &d, &want);
        apart(a.as_ptr(), t.as_ptr(), n, n);
        a.fill(T::make(5));
        chk_vals(c, &t, &d, &want);
        let mut o = (**&t).to_owned();
        chk_vals(c, &o, &d, &want);
        o.fill(T::make(5));
        chk_vals(c, &t, &d, &want);
    });
}

fn into_existing<T: El, S: Shape<Owned<T> = Tensor<T, S>>>(c: &mut Case, d: &[usize], e: &[usize], room: usize) {
    let (n, m) = (product(d), product(e));
    let want = vals::<T>(n, SRC);
    let src: Tensor<T, S> = tens_from::<T>(d, SRC).into_mapping();
    for kind in 0..3 {
        let mut v = vals::<T>(m, 0);
        v.reserve(room);
        let x: Tensor<T, DynRank> = Tensor::<T, (U,)>::from(v).into_shape(e);
        let mut t: Tensor<T, S> = x.into_mapping();
        match kind {
            0 => t.clone_from(&src),
            1 => (*src).clone_into(&mut t),
            _ => t = (*src).to_owned(),
        }
        chk_vals(c, &t, d, &want);
        t.fill(T::make(4));
        chk_vals(c, &src, d, &want);
        c.ev("clones into existing tensors", 1);
    }
}

/// Cloning into existing tensors of other shapes and capacities.
fn clone_from<T: El>(c: &mut Case) {
    let d = base_dims(c, 0, 5);
    let r = d.len();
    let cap = c.cap(60);
    let e = match c.rng.below(4) {
        0 => d.clone(),
        1 => {
            let mut e = d.clone();
            e.reverse();
            e
        }
        _ => c.rng.dims(r, cap),
    };
    let n = product(&d);
    let room = if c.rng.chance(1, 2) { 0 } else { c.rng.range(1, 80) };
    c.log(|| format!("clone {d:?} into {e:?} with room {room}, {}", T::NAME));
    c.seen(&[sig2(&d, 3), sig2(&e, 4), room as u64]);
    let want = vals::<T>(n, SRC);
    match r {
        1 => into_existing::<T, Rank<1>>(c, &d, &e, room),
        2 => into_existing::<T, Rank<2>>(c, &d, &e, room),
        3 => into_existing::<T, Rank<3>>(c, &d, &e, room),
        4 => into_existing::<T, Rank<4>>(c, &d, &e, room),
        5 => into_existing::<T, Rank<5>>(c, &d, &e, room),
        _ => into_existing::<T, DynRank>(c, &d, &e, room),
    }
    // Dynamic rank: the rank changes as well.
    let src = tens_from::<T>(&d, SRC);
    let e = base_dims(c, 0, 7);
    for kind in 0..2 {
        let mut t = tens::<T>(&e);
        if kind == 0 { t.clone_from(&src) } else { (**&src).clone_into(&mut t) }
        chk_vals(c, &t, &d, &want);
        t.resize(&d.iter().map(|x| x + 1).collect::<Vec<_>>(), T::make(1));
        chk_vals(c, &src, &d, &want);
        c.ev("clones into existing tensors", 1);
    }
    // Views: cloning a view changes what the view refers to, not elements.
    let (a, b) = (strider::<T>(c, &d, SRC), strider::<T>(c, &e[..e.len().min(6)], 0));
    let mut v: SView<'_, T> = b.view();
    v.clone_from(&a.view());
    chk_vals(c, &v, &d, &want);
    assert!(v == a.view().clone());
    let mut x = tens::<T>(&e);
    let dv: View<'_, T, DynRank> = src.expr();
    let y = tens::<T>(&e);
    let mut w: View<'_, T, DynRank> = y.expr();
    w.clone_from(&dv);
    chk_vals(c, &w, &d, &want);
    w.clone_from(&x.expr());
    chk_vals(c, &w, &e, &vals::<T>(x.len(), 0));
    written(c, &a, &want, "source");
    chk_vals(c, &y, &e, &vals::<T>(y.len(), 0));
    x.clear();
    c.ev("clones of views", 3);
}

/// Sources that do not fit.
fn mismatch<T: El>(c: &mut Case) {
    let full = base_dims(c, 1, 5);
    let low = misfit(&mut c.rng, &full);
    if low.len() > 6 || product(&low) > 400 {
        return;
    }
    c.log(|| format!("assign {low:?} to {full:?}"));
    c.seen(&[sig2(&full, 0), sig2(&low, 1)]);
    let n = product(&full);
    let want = vals::<T>(n, 0);
    let (mut t, u) = (tens::<T>(&full), tens_from::<T>(&low, SRC));
    let mut s = strider::<T>(c, &full, 0);
    let us = strider::<T>(c, &low, SRC);
    macro_rules! refused {
        ($($src:expr),*) => {$(
            assert!(panics(|| t.assign($src)), "{} of {low:?} is assigned to {full:?}", stringify!($src));
            chk_vals(c, &t, &full, &want);
            assert!(panics(|| s.view_mut().assign($src)), "{} of {low:?} is assigned to a view of {full:?}", stringify!($src));
            written(c, &s, &want, "refused assignment");
            {
                let (x, mut v): (&mut Slice<T, DynRank>, _) = (&mut t, s.view_mut());
                assert!(panics(|| x.assign($src)), "{} of {low:?} is assigned to a slice of {full:?}", stringify!($src));
                assert!(panics(|| (*v).assign($src)), "{} of {low:?} is assigned to a slice of {full:?}", stringify!($src));
                let mut w = x.expr_mut();
                assert!(panics(|| w.assign($src)), "{} of {low:?} is assigned to a dense view of {full:?}", stringify!($src));
            }
            chk_vals(c, &t, &full, &want);
            written(c, &s, &want, "refused assignment");
            c.ev("mismatches refused", 2);
        )*};
    }
    refused!(&u, us.view(), u.clone(), u.expr().cloned(), us.view().map(|x| x.clone()));
    as_rank_t!(u.clone(), low.len(), u => {
        as_rank_t!(t.clone(), full.len(), t => {
            let mut t = t;
            assert!(panics(|| t.assign(&u)), "{low:?} is assigned to {full:?}");
            assert!(panics(|| t.expr_mut().assign(&u)), "{low:?} is assigned to a dense view of {full:?}");
            assert!(panics(|| t.assign(u.expr().cloned())), "an expression of {low:?} is assigned to {full:?}");
            chk_vals(c, &t, &full, &want);
            c.ev("mismatches refused", 3);
        })
    });
    if full.len() < 4 && (1..4).contains(&low.len()) {
        fn run<T: El, S: Shape, R: Shape>(s: SViewMut<T>, u: SView<T>) {
            let (mut s, u) = (s.into_mapping::<S, mdarray::Strided>(), u.into_mapping::<R, mdarray::Strided>());
            let u2: Tensor<T, R> = u.to_tensor();
            assert!(panics(|| s.assign(u.clone())), "mismatching view of static rank is assigned");
            assert!(panics(|| s.assign(&u2)), "mismatching array of static rank is assigned to a view");
            assert!(panics(|| s.assign(u2.clone())), "mismatching moving array of static rank is assigned to a view");
            assert!(panics(|| (*s).assign(u.clone().cloned())), "mismatching expression of static rank is assigned to a slice");
        }
        macro_rules! pairs {
            ($($i:literal $j:literal),*) => {
                match (full.len(), low.len()) {
                    $(($i, $j) => run::<T, mdarray::Rank<$i>, mdarray::Rank<$j>>(s.view_mut(), us.view()),)*
                    _ => unreachable!(),
                }
            };
        }
        pairs!(1 1, 1 2, 1 3, 2 1, 2 2, 2 3, 3 1, 3 2, 3 3);
        written(c, &s, &want, "refused assignment");
        c.ev("mismatches of static rank refused", 4);
    }
    // The target is not repeated for a source of higher rank.
    let outer = product(&full[..1]);
    if outer > 1 {
        let mut w = tens::<T>(&full[1..]);
        let before = vals::<T>(w.len(), 0);
        assert!(panics(|| w.assign(&t)), "{full:?} is assigned to {:?}", &full[1..]);
        chk_vals(c, &w, &full[1..], &before);
        c.ev("mismatches refused", 1);
    }
}

/// Constant shapes: arrays and views with constant dimensions.
fn arrays<T: El>(c: &mut Case) {
    type S = (Const<2>, Const<3>);
    let kind = c.rng.below(6);
    c.log(|| format!("arrays of {}, kind {kind}", T::NAME));
    let mk = |k: u64| -> Array<T, S> {
        let mut i = k;
        Array::from_fn(|_| {
            i += 1;
            T::make(i - 1)
        })
    };
    let src = mk(SRC);
    let mut a = mk(0);
    let want = vals::<T>(6, SRC);
    match kind {
        0 => a.assign(&src),
        1 => a.clone_from(&src),
        2 => (*src).clone_into(&mut a),
        3 => a = (*src).to_owned(),
        4 => a.assign(src.clone()),
        _ => a = src.expr().to_array(),
    }
    chk_vals(c, &a, &[2, 3], &want);
    a.fill(T::make(1));
    chk_vals(c, &src, &[2, 3], &want);
    let st = strider::<T>(c, &[2, 3], SRC);
    {
        let v: View<'_, T, S, Strided> = st.view().into_mapping();
        chk_vals(c, &v.to_array(), &[2, 3], &want);
        chk_vals(c, &v.to_tensor(), &[2, 3], &want);
        let b: Array<T, S> = Array::from(&*v);
        chk_vals(c, &b, &[2, 3], &want);
        a.assign(v);
        chk_vals(c, &a, &[2, 3], &want);
    }
    written(c, &st, &want, "source");
    // Broadcasting into constant shapes and out of them.
    let row = array![T::make(40), T::make(41), T::make(42)];
    a.assign(&row);
    chk_vals(c, &a, &[2, 3], &repeated::<T>(6, 3, 40));
    a.row_mut(1).assign(array![T::make(1), T::make(2), T::make(3)]);
    a.col_mut(0).fill(T::make(9));
    chk_vals(c, &a, &[2, 3], &[9, 41, 42, 9, 2, 3].map(T::make));
    let n = c.rng.range(0, 4);
    let mut t: Tensor<T, (U, Const<2>, Const<3>)> = Tensor::from_elem((n, Const::<2>, Const::<3>), T::make(0));
    t.assign(&src);
    chk_vals(c, &t, &[n, 2, 3], &if n == 0 { vec![] } else { repeated::<T>(6 * n, 6, SRC) });
    let mut u: Tensor<T, (U, Const<2>, Const<3>)> = Tensor::new();
    u.clone_from(&t);
    chk_vals(c, &u, &[n, 2, 3], &t.to_vec());
    t.fill_with(|| T::make(8));
    chk_vals(c, &t, &[n, 2, 3], &vec![T::make(8); 6 * n]);
    chk_vals(c, &src, &[2, 3], &want);
    // Mismatch.
    let two = array![T::make(1), T::make(2)];
    let before = a.clone().into_shape::<(Const<6>,)>();
    assert!(panics(|| a.assign(&two)), "[2] is assigned to [2, 3]");
    chk_vals(c, &a.flatten(), &[6], &before.0);
    // Rank 0.
    let mut z: Array<T, ()> = Array(T::make(5));
    z.assign(Array::<T, ()>(T::make(6)));
    assert!(z.0 == T::make(6));
    a.assign(&z);
    chk_vals(c, &a, &[2, 3], &vec![T::make(6); 6]);
    z.fill(T::make(7));
    assert!(z.0 == T::make(7) && z[[]] == T::make(7));
    c.ev("assignments", 8);
    c.ev("copies", 5);
    c.seen(&[kind as u64, n as u64]);
}

/// The source of an element is dropped, the new one is a clone of the right one: no element is
/// shared between copies.
fn shared(c: &mut Case) {
    let d = base_dims(c, 0, 4);
    let n = product(&d);
    c.log(|| format!("shared elements, {d:?}"));
    c.seen(&[sig2(&d, 0)]);
    let cells: Vec<Rc<Cell<u64>>> = (0..n).map(|i| Rc::new(Cell::new(i as u64))).collect();
    let st = Strider::new(c, &d, cells.iter().cloned(), || Rc::new(Cell::new(OTHER)));
    let count = |k: usize| assert!(cells.iter().all(|x| Rc::strong_count(x) == k), "elements have {:?} owners instead of {k}",
        cells.iter().map(Rc::strong_count).collect::<Vec<_>>());
    count(2);
    let t = st.view().to_tensor();
    count(3);
    assert!(t.iter().zip(&cells).all(|(a, b)| Rc::ptr_eq(a, b)), "a copy holds clones of other elements");
    let mut u = Tensor::<Rc<Cell<u64>>, DynRank>::from_fn(d.clone(), |_: &[usize]| Rc::new(Cell::new(0)));
    u.assign(&t);
    count(4);
    u.assign(st.view());
    count(4);
    u.clone_from(&t);
    count(4);
    let x = Rc::new(Cell::new(1));
    u.fill(x.clone());
    count(3);
    assert!(Rc::strong_count(&x) == n + 1, "{} owners of an element filled in {n} times", Rc::strong_count(&x));
    u.assign(t);
    count(3);
    assert!(Rc::strong_count(&x) == 1);
    drop(u);
    count(2);
    c.ev("owner counts", 8 * n);
}

pub fn run(r: &mut Runner) {
    r.section("assign-u64", 1500, 8, assigns::<u64>);
    r.section("assign-string", 500, 4, assigns::<String>);
    r.section("assign-aligned", 300, 3, assigns::<A64>);
    r.section("assign-zst", 200, 2, assigns::<Z>);
    r.section("assign-box", 300, 4, assigns::<Box<u64>>);
    r.section("fill-u32", 800, 6, fills::<u32>);
    r.section("fill-string", 300, 3, fills::<String>);
    r.section("fill-zst", 200, 2, fills::<Z>);
    r.section("copy-u32", 600, 4, copies::<u32>);
    r.section("copy-string", 300, 3, copies::<String>);
    r.section("copy-array", 200, 2, copies::<[u16; 3]>);
    r.section("copy-zst", 200, 2, copies::<Z>);
    r.section("clone-from-u32", 800, 4, clone_from::<u32>);
    r.section("clone-from-string", 400, 4, clone_from::<String>);
    r.section("clone-from-zst", 200, 2, clone_from::<Z>);
    r.section("mismatch-u32", 600, 4, mismatch::<u32>);
    r.section("mismatch-string", 200, 2, mismatch::<String>);
    r.section("arrays-u8", 120, 2, arrays::<u8>);
    r.section("arrays-string", 120, 2, arrays::<String>);
    r.section("arrays-zst", 60, 2, arrays::<Z>);
    r.section("fill-aligned", 150, 2, fills::<A64>);
    r.section("fill-box", 100, 2, fills::<Box<u64>>);
    r.section("fill-u8", 150, 1, fills::<u8>);
    r.section("copy-aligned", 200, 2, copies::<A64>);
    r.section("copy-u8", 200, 1, copies::<u8>);
    r.section("copy-box", 150, 2, copies::<Box<u64>>);
    r.section("clone-from-aligned", 300, 3, clone_from::<A64>);
    r.section("clone-from-u8", 200, 1, clone_from::<u8>);
    r.section("clone-from-box", 200, 2, clone_from::<Box<u64>>);
    r.section("clone-from-array", 200, 1, clone_from::<[u16; 3]>);
    r.section("mismatch-aligned", 100, 1, mismatch::<A64>);
    r.section("mismatch-zst", 100, 1, mismatch::<Z>);
    r.section("arrays-aligned", 60, 2, arrays::<A64>);
    r.section("arrays-box", 60, 1, arrays::<Box<u64>>);
    r.section("shared", 400, 4, shared);
    r.large("assign-large", 5, assigns::<u64>);
    r.large("assign-string-large", 1, assigns::<String>);
    r.large("fill-large", 4, fills::<u32>);
    r.large("copy-large", 3, copies::<u32>);
    r.large("clone-from-large", 4, clone_from::<u32>);
}
