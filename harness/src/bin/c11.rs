//! C11: panics in user code leave arrays valid and drop each element at most once.

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, DynRank, Tensor};
use vh::hist::*;
use vh::track::*;
use vh::*;

vh::check_main!("C11", run);

const USER: u32 = CLONE | CMP | CALL;

/// Runs the closure with a fault at callback `at`; true if the fault fired, in which case the
/// panic has to reach the caller.
#[track_caller]
fn faulty<F: FnOnce()>(kinds: u32, at: u64, name: &str, f: F) -> bool {
    arm(kinds, at);
    let r = catch_unwind(AssertUnwindSafe(f));
    let fired = fired();
    hold();
    match r {
        Ok(()) => {
            assert!(fired == 0, "{name}: a panic in user code does not reach the caller");
            false
        }
        Err(e) if e.is::<Injected>() => {
            assert!(fired != 0);
            true
        }
        Err(e) => {
            // Not the injected panic: a failed oracle, or the library gave up by itself.
            drop(e);
            let msg = caught_text();
            panic!("{name}: panics with {msg:?}, fault {at} of kinds {kinds:#b}, fired {fired}");
        }
    }
}

fn caught_text() -> String {
    vh::run::last_panic()
}

/// Runs one operation fault-free to count the callbacks, then once for every callback with a
/// panic in it, in a world that is rebuilt identically.
fn sweep<T: Track>(c: &mut Case, kinds: u32) {
    let kind = (c.index % OPS as u64) as usize;
    if kind == 46 {
        return; // Catches panics by itself.
    }
    let seed = c.rng.u64();
    let cap = if c.small { 8 } else { 20 };
    let build = || {
        let mut rng = Rng::new(seed);
        let mut w = World::<T>::setup(&mut rng, cap);
        // Some history before the operation.
        for _ in 0..rng.range(0, 2) {
            let k = rng.below(OPS);
            w.op(&mut rng, k, cap);
        }
        (rng, w)
    };
    let mut known: HashSet<u32> = HashSet::new();
    known.insert(7);
    let (name, n, had) = {
        let (mut rng, mut w) = build();
        for o in &w.objs {
            known.extend(&o.v);
        }
        arm(kinds, u64::MAX);
        w.op(&mut rng, kind, cap);
        let n = ticks();
        disarm();
        for o in &w.objs {
            known.extend(&o.v);
        }
        // Values that occur in between.
        let more: Vec<u32> = known.iter().flat_map(|x| [x ^ 0x100, x ^ 0x200, x ^ 0x400, x ^ 0x800, !x]).collect();
        known.extend(more);
        let t = (w.name, n, w.objs.iter().map(|o| o.dims.clone()).collect::<Vec<_>>());
        w.check(c);
        t
    };
    check_none();
    c.log(|| format!("{name} (operation {kind}): {n} callbacks, arrays afterwards {had:?}"));
    let limit = if c.small { 3 } else { 40 };
    let points: Vec<u64> = if n <= limit {
        (1..=n).collect()
    } else {
        // All of them in turn, over the cases.
        let s = c.rng.u64();
        (0..limit).map(|i| 1 + (s.wrapping_add(i * (n / limit).max(1) + i / 3)) % n).collect()
    };
    let leaks_ok = kinds & DROP != 0 || kind == 36 || kind == 48;
    for k in points {
        let (mut rng, mut w) = build();
        let before: Vec<Vec<u32>> = w.objs.iter().map(|o| o.v.clone()).collect();
        let _ = before;
        let fired = faulty(kinds, k, name, || w.op(&mut rng, kind, cap));
        assert!(fired || kinds & DROP != 0, "{name}: callback {k} of {n} is not reached");
        check_errors();
        if fired {
            w.check_after_panic(c, &|x| known.contains(&x));
            c.ev("panics injected", 1);
            w.reuse();
            c.ev("arrays used again after a panic", w.objs.len());
        }
        check_errors();
        drop(w);
        check_errors();
        if !leaks_ok {
            let (n, z) = (live(), zlive());
            assert!(n == 0 && z == 0, "{name}: {} elements are leaked by a panic in callback {k}", n as i64 + z);
            c.ev("leak balances compared", 1);
        }
        c.seen(&[kind as u64, n.min(64), k.min(64), fired as u64]);
        disarm();
        reset();
    }
}

/// Panics at every point in expression trees whose operands own elements.
fn trees(c: &mut Case) {
    let dims: Vec<usize> = { let r = c.rng.range(1, 3); c.rng.dims_pos(r, if c.small { 6 } else { 16 }) };
    let n = product(&dims);
    let k = (c.index % 12) as usize;
    let seed = c.rng.u64();
    let mk = |s: u32| -> T0<Tr> { Tensor::from((0..n as u32).map(|i| Tr::new(s + i)).collect::<Vec<_>>()).into_shape(&dims[..]) };
    let go = |out: &mut Option<T0<Tr>>| {
        let (a, b) = (mk(100), mk(200));
        let mut rng = Rng::new(seed);
        match k {
            0 => *out = Some(a.into_expr().zip(b).map(|(x, y)| x + y).eval()),
            1 => *out = Some(expr::map(a, |x| { tick(CALL); x }).zip(b.expr().cloned()).map(|(x, y)| x + &y).eval()),
            2 => *out = Some(expr::from_fn(&dims[..], |_| { tick(CALL); Tr::new(1) }).zip(a).map(|(x, _)| x).eval()),
            3 => {
                let mut t = a;
                t.expand(b.into_expr().map(|x| { tick(CALL); x }));
                *out = Some(t);
            }
            4 => {
                let mut t = a;
                t.assign(expr::fill_with(|| { tick(CALL); Tr::new(5) }));
                *out = Some(t);
            }
            5 => *out = Some(a.into_expr().zip(b.into_expr().enumerate()).map(|(x, (i, y))| { tick(CALL); if i % 2 == 0 { x } else { y } }).eval()),
            6 => {
                let mut it = a.into_expr().zip(b).into_iter();
                let m = rng.range(0, n);
                for _ in 0..m {
                    it.next();
                }
                it.fold((), |(), (x, y)| { drop(x + y); });
            }
            7 => {
                let mut t = a;
                let m = dims[0];
                {
                    let mut d = t.drain(..rng.range(0, m)).zip(expr::fill_with(|| { tick(CALL); Tr::new(1) })).into_iter();
                    d.next();
                    tick(CALL);
                }
                *out = Some(t);
            }
            8 => {
                let nested: Tensor<T0<Tr>, (usize,)> = Tensor::from_elem([3], a);
                let u = nested.clone();
                *out = Some(u.into_expr().zip(nested).map(|(x, y)| x + y).eval().into_vec().pop().unwrap());
            }
            9 => *out = Some(T0::<Tr>::from_expr(-a.into_expr().map(|x| x + Tr::new(2)) + b)),
            10 => {
                let x: Array<Tr, (Const<2>, Const<3>)> = Array::from_fn(|i| { tick(CALL); Tr::new(i[0] as u32) });
                let y: Array<Tr, (Const<2>, Const<3>)> = Array::from_elem(Tr::new(3));
                let z = x + y;
                let w: Array<Tr, (Const<2>, Const<3>)> = FromExpression::from_expr(z.expr().cloned().map(|x| { tick(CALL); x }));
                let v = w.zip_with(z, |(x, y)| { tick(CALL); x + y });
                drop(v.clone());
                *out = Some(Tensor::from(v).into_dyn());
            }
            _ => {
                let mut t: T0<Tr> = Tensor::with_capacity(2 * n);
                expr::map(&a, |x| { tick(CALL); x.clone() }).eval_into(&mut t);
                if dims.len() > 1 {
                    b.reorder().cloned().eval_into(&mut T0::new());
                }
                t.expand(&b);
                *out = Some(t);
            }
        }
    };
    let mut out = None;
    arm(USER, u64::MAX);
    go(&mut out);
    let total = ticks();
    disarm();
    drop(out.take());
    check_none();
    c.log(|| format!("tree {k} with operands {dims:?}: {total} callbacks"));
    let limit = if c.small { 3 } else { 60 };
    for i in 0..total.min(limit) {
        let at = if total <= limit { i + 1 } else { 1 + (seed.wrapping_add(i * 7)) % total };
        reset();
        let fired = faulty(USER, at, "expression", || go(&mut out));
        assert!(fired, "callback {at} of {total} is not reached");
        if let Some(t) = out.take() {
            t.iter().for_each(|x| { x.get(); });
        }
        check_none();
        c.ev("panics injected", 1);
        c.ev("leak balances compared", 1);
        c.seen(&[100 + k as u64, at.min(64), total]);
    }
}

/// An array that is being changed when the panic comes and is still owned by the user holds
/// exactly the elements that were written and those that were not reached.
fn untouched(c: &mut Case) {
    let dims: Vec<usize> = { let r = c.rng.range(1, 3); c.rng.dims_pos(r, if c.small { 6 } else { 24 }) };
    let n = product(&dims);
    let k = (c.index % 8) as usize;
    let at = c.rng.range(0, n - 1);
    let mk = |s: u32| -> T0<Tr> { Tensor::from((0..n as u32).map(|i| Tr::new(s + i)).collect::<Vec<_>>()).into_shape(&dims[..]) };
    let mut t = mk(1000);
    let src = mk(2000);
    let p = perm(&mut c.rng, dims.len());
    let m = MV::dense(&dims).permute(&p);
    let back: T0<Tr> = Tensor::from(m.idx.iter().map(|&i| Tr::new(2000 + i as u32)).collect::<Vec<_>>()).into_shape(&m.dims[..]);
    c.log(|| format!("kind {k}, shape {dims:?}, permutation {p:?}, panic at element {at}"));
    arm(USER, at as u64 + 1);
    let mut count = 0;
    let r = catch_unwind(AssertUnwindSafe(|| match k {
        0 => t.expr_mut().for_each(|x| { tick(CALL); *x = Tr::new(2000 + (x.get() - 1000)); }),
        1 => t.permute_mut(p.clone()).expr_mut().for_each(|x| { tick(CALL); *x = Tr::new(2000 + (x.get() - 1000)); }),
        2 => t.expr_mut().zip(&src).for_each(|(x, y)| { tick(CALL); *x = Tr::new(y.get()); }),
        3 => t.permute_mut(p.clone()).iter_mut().for_each(|x| { tick(CALL); *x = Tr::new(2000 + (x.get() - 1000)); }),
        4 => t.permute_mut(p.clone()).assign(back.expr().map(|x| { tick(CALL); Tr::new(x.get()) })),
        5 => t.fill_with(|| { tick(CALL); count += 1; Tr::new(1999 + count) }),
        6 => t.assign(expr::map(&src, |x| { tick(CALL); Tr::new(x.get()) })),
        _ => t.permute_mut(p.clone()).expr_mut().zip(back).for_each(|(x, y)| { tick(CALL); *x = y; }),
    }));
    hold();
    assert!(r.is_err() && fired() != 0, "the panic does not reach the caller");
    drop(r);
    check_errors();
    let order: Vec<usize> = if [1, 3, 4, 7].contains(&k) { m.idx.clone() } else { (0..n).collect() };
    let mut want: Vec<u32> = (0..n as u32).map(|i| 1000 + i).collect();
    for &i in order.iter().take(at) {
        want[i] = 2000 + i as u32;
    }
    chk_shape(&t, &dims);
    let got = read(&t);
    assert!(got == want, "after a panic at element {at}: {got:?}, expected {want:?}");
    drop(t);
    drop(src);
    c.ev("partially changed arrays compared", 1);
    c.seen(&[k as u64, at as u64, n as u64]);
}

/// Draining with panics: the tensor keeps everything outside the range.
fn drains(c: &mut Case) {
    let rows = c.rng.range(1, if c.small { 4 } else { 7 });
    let inner = c.rng.range(1, 3);
    let (a, b) = range(&mut c.rng, rows);
    let n = (b - a) * inner;
    if n == 0 {
        return;
    }
    let k = c.rng.below(3);
    let dropping = c.rng.chance(1, 2);
    let at = 1 + c.rng.below(n) as u64;
    let mut t: Tensor<Tr, (usize, usize)> = Tensor::from((0..(rows * inner) as u32).map(Tr::new).collect::<Vec<_>>()).into_shape([rows, inner]);
    c.log(|| format!("drain {a}..{b} of [{rows}, {inner}], way {k}, panic in {} {at}", if dropping { "drop" } else { "closure" }));
    arm(if dropping { DROP } else { USER }, at);
    let r = catch_unwind(AssertUnwindSafe(|| match k {
        0 => t.drain(a..b).for_each(|x| { tick(CALL); drop(x); }),
        1 => drop(t.drain(a..b).map(|x| { tick(CALL); Tr::new(x.get()) }).eval()),
        _ => {
            let mut d = t.drain(a..b).into_iter();
            for _ in 0..n / 2 {
                tick(CALL);
                d.next();
            }
        }
    }));
    let f = fired();
    hold();
    assert!(r.is_err() == (f != 0), "the panic does not reach the caller");
    check_errors();
    let want: Vec<u32> = (0..(rows * inner) as u32).filter(|&i| !(a * inner..b * inner).contains(&(i as usize))).collect();
    let got = read(&t);
    if !dropping {
        assert!(t.dim(0) == rows - (b - a) && got == want, "after a panic while draining {a}..{b}: {got:?}, expected {want:?}");
    } else {
        // Only elements outside of the range, in order.
        let mut w = want.iter();
        assert!(got.len() == t.dim(0) * inner && got.iter().all(|x| w.any(|y| x == y)), "after a panic in drop while draining {a}..{b}: {got:?}");
    }
    t.resize_with(&[rows + 2, inner], || Tr::new(9));
    assert!(read(&t).len() == (rows + 2) * inner);
    drop(t);
    check_errors();
    if !dropping {
        check_none();
    }
    c.ev("panics injected", (f != 0) as usize);
    c.seen(&[k as u64, dropping as u64, at, a as u64, b as u64, rows as u64, inner as u64]);
}

/// Static shapes and a user iterator that panics in unusual methods.
fn iterators(c: &mut Case) {
    struct Bad {
        left: usize,
        at: usize,
        hint: usize,
        up: Option<usize>,
    }
    impl Iterator for Bad {
        type Item = Tr;
        fn next(&mut self) -> Option<Tr> {
            if self.left == 0 {
                return None;
            }
            self.left -= 1;
            if self.at == 0 {
                std::panic::panic_any(Injected);
            }
            self.at -= 1;
            Some(Tr::new(77))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.hint, self.up)
        }
    }
    let n = c.rng.range(0, 8);
    let left = c.rng.range(0, 6);
    let at = c.rng.range(0, 7);
    // Size hints may be wrong in any way without causing harm.
    let hint = c.rng.range(0, 8);
    let up = if c.rng.chance(1, 2) { Some(c.rng.range(0, 8)) } else { None };
    let mut t: Tensor<Tr, (usize,)> = (0..n as u32).map(Tr::new).collect();
    t.reserve(c.rng.range(0, 3));
    c.log(|| format!("{n} elements, extend by {left}, panic at {at}, size hint {hint} {up:?}"));
    let r = catch_unwind(AssertUnwindSafe(|| t.extend(Bad { left, at, hint, up })));
    let panicked = at < left;
    assert!(r.is_err() == panicked, "panic of the iterator: {panicked}, panic of extend: {}", r.is_err());
    let got = read(&t);
    assert!(t.dim(0) == got.len());
    if !panicked {
        assert!(got.len() == n + left && got[..n].iter().copied().eq(0..n as u32) && got[n..].iter().all(|&x| x == 77));
    } else {
        // Cleared, or a leading part.
        assert!(got.is_empty() || (got.len() >= n && got[..n].iter().copied().eq(0..n as u32)), "{got:?}");
    }
    let r = catch_unwind(|| Bad { left, at, hint, up }.collect::<Tensor<Tr, (usize,)>>().len());
    assert!(r.is_err() == panicked && (panicked || r.unwrap() == left));
    t.extend([Tr::new(1)]);
    assert!(read(&t).last() == Some(&1));
    drop(t);
    check_none();
    c.ev("panics injected", panicked as usize);
    c.seen(&[n as u64, left as u64, at as u64, hint as u64]);
}

/// Panics when arrays are compared, hashed and printed leave everything as it is.
fn readers(c: &mut Case) {
    use std::hash::{Hash, Hasher};
    let dims: Vec<usize> = { let r = c.rng.range(1, 3); c.rng.dims_pos(r, 12) };
    let n = product(&dims);
    let mk = || -> T0<Tr> { Tensor::from((0..n as u32).map(Tr::new).collect::<Vec<_>>()).into_shape(&dims[..]) };
    let (t, u) = (mk(), mk());
    let k = c.rng.below(4);
    let at = 1 + c.rng.below(n) as u64;
    c.log(|| format!("reader {k} of {dims:?}, panic at {at}"));
    let fired = faulty(USER, at, "reader", || match k {
        0 => assert!(t == u),
        1 => assert!(t.reorder() == u.reorder()),
        2 => assert!(!t.contains(&Tr::new(5000))),
        _ => {
            struct H(u64);
            impl Hasher for H {
                fn finish(&self) -> u64 { self.0 }
                fn write(&mut self, b: &[u8]) { self.0 += b.len() as u64; }
            }
            let mut h = H(0);
            t.hash(&mut h);
        }
    });
    assert!(fired, "fewer callbacks than elements");
    assert!(read(&t).iter().copied().eq(0..n as u32) && read(&u).iter().copied().eq(0..n as u32));
    let _: &Tensor<Tr, DynRank> = &t;
    drop((t, u));
    check_none();
    c.ev("panics injected", 1);
    c.seen(&[k as u64, at, n as u64]);
}

pub fn run(r: &mut Runner) {
    r.section("callbacks", 1600, 58, |c| sweep::<Tr>(c, USER));
    r.section("drops", 800, 20, |c| sweep::<Tr>(c, DROP));
    r.section("callbacks-zst", 500, 10, |c| sweep::<TrZ>(c, USER));
    r.section("drops-zst", 300, 5, |c| sweep::<TrZ>(c, DROP));
    r.section("trees", 400, 12, trees);
    r.section("partial", 1500, 16, untouched);
    r.section("drains", 1500, 16, drains);
    r.section("iterators", 1000, 10, iterators);
    r.section("readers", 500, 4, readers);
}
