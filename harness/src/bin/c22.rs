//! C22: array literals build the written nested structure.

use mdarray::{array, tensor, view, Layout, Shape, Slice};
use std::cell::Cell;
use vh::track::{self, Tr, Track};
use vh::*;

vh::check_main!("C22", run);

const B: u64 = 500;

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static FAIL: Cell<u64> = const { Cell::new(u64::MAX) };
}

fn next<T: El>() -> T {
    let k = NEXT.get();
    NEXT.set(k + 1);
    T::make(B + k)
}

fn never<T: El>() -> T {
    panic!("an expression that must not be evaluated was evaluated")
}

fn reset() {
    NEXT.set(0);
}

#[track_caller]
fn chk<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, dims: &[usize]) {
    let n = product(dims);
    assert!(S::RANK == Some(dims.len()), "the literal has the rank {:?} instead of {}", S::RANK, dims.len());
    assert!(NEXT.get() == n as u64, "{} element expressions were evaluated instead of {n}", NEXT.get());
    chk_vals(c, s, dims, &vals::<T>(n, B));
    c.ev("element expressions", n);
}

#[track_caller]
fn rep<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, dims: &[usize]) {
    assert!(S::RANK == Some(dims.len()), "the literal has the rank {:?} instead of {}", S::RANK, dims.len());
    chk_vals(c, s, dims, &vec![T::make(7); product(dims)]);
    c.ev("repeat literals", 1);
}

include!("../literals.in.rs");

/// The types that the macros promise.
fn types(c: &mut Case) {
    use mdarray::{Array, Const, DTensor, DView};
    reset();
    let a: Array<u64, (Const<2>, Const<3>)> = array![[next(), next(), next()], [next(), next(), next()]];
    chk(c, &a, &[2, 3]);
    reset();
    let t: DTensor<u64, 3> = tensor![[[next()], [next()]]];
    chk(c, &t, &[1, 2, 1]);
    let v: DView<i32, 2> = view![[1, 2, 3], [4, 5, 6]];
    assert!(v.to_vec() == [1, 2, 3, 4, 5, 6] && dims_of(v.shape()) == [2, 3]);
    let v: DView<i32, 1> = view![7; 4];
    assert!(v.to_vec() == [7; 4]);
    let e: DTensor<String, 1> = tensor![];
    assert!(e.is_empty() && dims_of(e.shape()) == [0]);
    let e: DTensor<String, 2> = tensor![[], []];
    assert!(e.is_empty() && dims_of(e.shape()) == [2, 0]);
    let e: Array<String, (Const<1>, Const<2>, Const<0>)> = array![[[], []]];
    assert!(e.is_empty());
    let e: DView<String, 3> = view![[[], []]];
    assert!(e.is_empty() && dims_of(e.shape()) == [1, 2, 0]);
    // Elements that are nested structures of another kind.
    let x = tensor![tensor![1, 2], tensor![3]];
    assert!(x.rank() == 1 && x.len() == 2 && x[1].to_vec() == [3]);
    let (p, q) = ([1, 2], [3, 4]);
    let x: DTensor<[i32; 2], 1> = tensor![p, q];
    assert!(x[1] == [3, 4]);
    let x = array![(1, "a"), (2, "b")];
    assert!(x[1].1 == "b");
    c.ev("typed literals", 10);
    c.seen(&[1]);
}

/// Repeat forms with run-time counts.
fn run_time<T: El>(c: &mut Case) {
    let r = c.rng.range(1, 6);
    let cap = c.cap(200);
    let d = c.rng.dims(r, cap);
    c.log(|| format!("repeat {d:?} of {}", T::NAME));
    reset();
    let calls = Cell::new(0usize);
    let g = |i: usize| {
        calls.set(calls.get() + 1);
        d[i]
    };
    let n = || {
        let _: T = next();
        T::make(7)
    };
    match r {
        1 => rep(c, &tensor![n(); g(0)], &d),
        2 => rep(c, &tensor![[n(); g(1)]; g(0)], &d),
        3 => rep(c, &tensor![[[n(); g(2)]; g(1)]; g(0)], &d),
        4 => rep(c, &tensor![[[[n(); g(3)]; g(2)]; g(1)]; g(0)], &d),
        5 => rep(c, &tensor![[[[[n(); g(4)]; g(3)]; g(2)]; g(1)]; g(0)], &d),
        _ => rep(c, &tensor![[[[[[n(); g(5)]; g(4)]; g(3)]; g(2)]; g(1)]; g(0)], &d),
    }
    assert!(NEXT.get() == 1, "the repeated expression was evaluated {} times", NEXT.get());
    assert!(calls.get() == r, "counts were evaluated {} times instead of {r}", calls.get());
    c.seen(&d.iter().map(|&x| x as u64).collect::<Vec<_>>());
}

/// Elements are neither lost nor duplicated, also if an element expression panics.
fn tracked(c: &mut Case) {
    let fail = if c.rng.chance(1, 3) { u64::MAX } else { c.rng.below(13) as u64 };
    let kind = c.rng.below(18);
    c.log(|| format!("literal {kind}, element {fail} panics"));
    c.seen(&[kind as u64, fail]);
    track::reset();
    reset();
    FAIL.set(fail);
    fn n() -> Tr {
        let k = NEXT.get();
        NEXT.set(k + 1);
        if k == FAIL.get() {
            std::panic::panic_any(track::Injected);
        }
        Tr::mk((B + k) as u32)
    }
    fn look<S: Shape, L: Layout>(s: &Slice<Tr, S, L>, dims: &[usize]) -> usize {
        assert!(dims_of(s.shape()) == dims, "dimensions {:?} instead of {dims:?}", dims_of(s.shape()));
        for (i, x) in s.iter().enumerate() {
            assert!(x.val() as u64 == B + i as u64, "element {i} is {}", x.val());
        }
        assert!(track::total_live() == s.len() as _ && track::clones() == 0, "elements are copied");
        s.len()
    }
    let res = caught(|| match kind {
        0 => look(&array![n(), n(), n(), n()], &[4]),
        1 => look(&array![[n(), n(), n()], [n(), n(), n()]], &[2, 3]),
        2 => look(&array![[[n(), n(), n()], [n(), n(), n()]], [[n(), n(), n()], [n(), n(), n()]]], &[2, 2, 3]),
        3 => look(&tensor![n(), n(), n(), n()], &[4]),
        4 => look(&tensor![[n(), n(), n()], [n(), n(), n()]], &[2, 3]),
        5 => look(&tensor![[[n(), n(), n()], [n(), n(), n()]], [[n(), n(), n()], [n(), n(), n()]]], &[2, 2, 3]),
        6 => look(&tensor![[[[[[n(), n()], [n(), n()]]]]]], &[1, 1, 1, 1, 2, 2]),
        7 => look(&view![[n(), n(), n()], [n(), n(), n()]], &[2, 3]),
        8 => look(&view![[[n(), n(), n()], [n(), n(), n()]], [[n(), n(), n()], [n(), n(), n()]]], &[2, 2, 3]),
        9 => look(&array![[[[n(), n()], [n(), n()]]], [[[n(), n()], [n(), n()]]]], &[2, 1, 2, 2]),
        10 => look(&tensor![[[[n(), n()], [n(), n()]]], [[[n(), n()], [n(), n()]]]], &[2, 1, 2, 2]),
        11 => look(&view![[[[n(), n()], [n(), n()]]], [[[n(), n()], [n(), n()]]]], &[2, 1, 2, 2]),
        12 => look(&array![[[[[n(), n(), n()]], [[n(), n(), n()]]]]], &[1, 1, 2, 1, 3]),
        13 => look(&tensor![[[[[n(), n(), n()]], [[n(), n(), n()]]]]], &[1, 1, 2, 1, 3]),
        14 => look(&view![[[[[n(), n(), n()]], [[n(), n(), n()]]]]], &[1, 1, 2, 1, 3]),
        15 => look(&array![[[[[[n(), n()], [n(), n()]]], [[[n(), n()], [n(), n()]]]]]], &[1, 1, 2, 1, 2, 2]),
        16 => look(&view![n(), n(), n()], &[3]),
        _ => look(&view![[[[[[n(), n()], [n(), n()]]], [[[n(), n()], [n(), n()]]]]]], &[1, 1, 2, 1, 2, 2]),
    });
    match res {
        Ok(k) => assert!(NEXT.get() == k as u64 && fail >= k as u64),
        Err(e) => assert!(NEXT.get() == fail + 1, "unexpected panic: {e}"),
    }
    track::check_none();
    c.ev("tracked elements", NEXT.get() as usize);
}

pub fn run(r: &mut Runner) {
    let lits = |c: &mut Case| {
        let k = c.index as usize;
        c.log(|| format!("literal {k}"));
        c.seen(&[k as u64]);
        reset();
        match k / LITERALS {
            0 => literal::<u64>(c, k % LITERALS),
            1 => literal::<String>(c, k % LITERALS),
            _ => literal::<Z>(c, k % LITERALS),
        }
    };
    r.fixed("literals", 3 * LITERALS as u64, 24, lits);
    let reps = |c: &mut Case| {
        let k = c.index as usize;
        c.log(|| format!("repeat literal {k}"));
        c.seen(&[k as u64]);
        if k < REPEATS { repeats::<u32>(c, k) } else { repeats::<[u16; 3]>(c, k % REPEATS) }
    };
    r.fixed("repeats", 2 * REPEATS as u64, 16, reps);
    r.fixed("types", 1, 1, types);
    r.section("run-time-u32", 500, 4, run_time::<u32>);
    r.section("run-time-string", 300, 4, run_time::<String>);
    r.section("run-time-aligned", 100, 1, run_time::<A64>);
    r.section("run-time-zst", 100, 2, run_time::<Z>);
    r.section("tracked", 600, 12, tracked);
    r.large("run-time-large", 6, run_time::<u32>);
}
