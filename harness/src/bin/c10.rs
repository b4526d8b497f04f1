//! C10: every element is dropped exactly once.

use mdarray::expr::{self, Buffer, Expression, IntoExpr, IntoExpression};
use mdarray::{array, tensor, Array, Const, Tensor};
use std::mem::ManuallyDrop;
use vh::hist::*;
use vh::track::*;
use vh::*;

vh::check_main!("C10", run);

/// Random history; after every operation the number of live elements is the number of elements
/// that the model contains, and operations that move elements create none.
fn history<T: Track>(c: &mut Case) {
    let cap = c.cap(40);
    let mut rng = c.rng.clone();
    let mut w = World::<T>::setup(&mut rng, cap);
    let steps = rng.range(1, if c.small { 6 } else { 24 });
    w.check(c);
    let mut hist = Vec::new();
    for _ in 0..steps {
        let k = rng.below(OPS);
        let before = created();
        w.op(&mut rng, k, cap);
        c.log(|| format!("{k}: {}, arrays {:?}", w.name, w.objs.iter().map(|o| o.dims.clone()).collect::<Vec<_>>()));
        hist.push(k as u64);
        check_errors();
        w.check(c);
        let (got, want) = (total_live(), w.expected() as i64);
        assert!(got == want, "after {}: {got} elements are alive, the arrays contain {want}", w.name);
        if w.moves {
            let n = created() - before;
            assert!(n == 0, "{} creates {n} elements", w.name);
            c.ev("operations that only move elements", 1);
        }
        if w.objs.len() > 6 {
            let i = rng.below(w.objs.len());
            w.objs.remove(i);
        }
        c.ev("operations", 1);
    }
    // Drop in arbitrary order.
    while !w.objs.is_empty() {
        let i = rng.below(w.objs.len());
        w.objs.remove(i);
        check_errors();
        assert!(total_live() == w.expected() as i64, "{} elements are alive, the arrays contain {}", total_live(), w.expected());
    }
    drop(w);
    check_none();
    c.ev("elements dropped exactly once", drops() as usize);
    c.seen(&hist);
}

/// The same for elements that are not instrumented: all memory is returned.
fn memory(c: &mut Case) {
    let cap = c.cap(40);
    let mut rng = c.rng.clone();
    let steps = rng.range(1, if c.small { 6 } else { 20 });
    let mut hist = 0u64;
    let before = vh::alloc::live();
    {
        let mut w = World::<Plain>::setup(&mut rng, cap);
        for _ in 0..steps {
            let k = rng.below(OPS);
            if k == 46 {
                continue; // Keeps a panic message.
            }
            w.op(&mut rng, k, cap);
            hist = hist.wrapping_mul(61).wrapping_add(k as u64);
            for o in &w.objs {
                chk_shape(&o.t, &o.dims);
                assert!(o.t.iter().map(|x| x.val()).eq(o.v.iter().copied()), "after {}: elements differ", w.name);
            }
            if w.objs.len() > 6 {
                w.objs.remove(0);
            }
        }
    }
    if vh::alloc::active() {
        let after = vh::alloc::live();
        assert!(before == after, "{} bytes in {} blocks are not returned", after.0 - before.0, after.1 - before.1);
        c.ev("allocator balances compared", 1);
    }
    c.seen(&[hist]);
}

/// Moving elements keeps their identity: the very same values arrive.
fn identity(c: &mut Case) {
    let dims = { let r = c.rng.range(1, 4); c.rng.dims_pos(r, c.cap(60)) };
    let n = product(&dims);
    let t = Tensor::from((0..n as u32).map(Tr::new).collect::<Vec<_>>()).into_shape(&dims[..]);
    let ids: Vec<u32> = t.iter().map(|x| x.id()).collect();
    let k = c.rng.below(9);
    c.log(|| format!("identity {k} of {dims:?}"));
    let got: Vec<Tr> = match k {
        0 => t.into_vec(),
        1 => t.into_iter().collect(),
        2 => t.into_expr().eval().into_vec(),
        3 => {
            let mut u: Tensor<Tr, mdarray::DynRank> = Tensor::new();
            u.expand(t);
            u.into_vec()
        }
        4 => {
            let mut t = t;
            let mut u: Tensor<Tr, mdarray::DynRank> = Tensor::new();
            u.append(&mut t);
            assert!(t.is_empty() && t.dim(0) == 0);
            u.into_vec()
        }
        5 => {
            let mut t = t;
            let a = c.rng.range(0, dims[0]);
            let mut v: Vec<Tr> = t.drain(..a).into_iter().collect();
            v.extend(t.into_vec());
            v
        }
        6 => t.into_flat().into_shape([n, 1]).into_dyn().into_vec(),
        7 => {
            // Growing keeps all of them in place.
            let mut t = t;
            let mut d = dims.clone();
            for x in d.iter_mut() {
                *x += c.rng.range(0, 2);
            }
            t.resize_with(&d, || Tr::new(99));
            let m = MV::dense(&dims);
            each_index(&dims, |i| assert!(t[i].id() == ids[m.pos(i)], "resize replaced the element at {i:?}"));
            drop(t);
            check_none();
            c.seen(&[k as u64, n as u64]);
            return;
        }
        _ => {
            // Shrinking and moving a part away.
            let mut t = t;
            let mut d = dims.clone();
            for x in d.iter_mut() {
                *x = c.rng.range(1, *x);
            }
            t.resize(&d, Tr::new(99));
            let m = MV::dense(&dims);
            each_index(&d, |i| assert!(t[i].id() == ids[m.pos(i)], "resize replaced the element at {i:?}"));
            assert!(live() == product(&d), "resize keeps {} elements of {}", live(), product(&d));
            drop(t);
            check_none();
            c.seen(&[k as u64, n as u64, product(&d) as u64]);
            return;
        }
    };
    assert!(got.iter().map(|x| x.id()).eq(ids.iter().copied()), "other elements than the original ones arrive");
    assert!(clones() == 0 && created() == n as u64, "moving cloned elements");
    drop(got);
    check_none();
    c.seen(&[k as u64, n as u64, dims.len() as u64]);
}

/// By-value expressions and iterators that are cloned, overwritten, formatted or changed, also when
/// some elements have been taken: what is refused leaves everything as it is.
fn in_use<B>(c: &mut Case, e: IntoExpr<B>, spare: IntoExpr<B>, dims: &[usize])
where
    B: Buffer<Item = Tr> + Clone,
{
    let n = product(dims);
    let mut want: Vec<u32> = (0..n as u32).collect();
    let mut e = e;
    let mut spare = spare;
    for _ in 0..c.rng.range(0, 3) {
        match c.rng.below(5) {
            0 => {
                let before = live();
                let f = e.clone();
                assert!(live() == before + n, "cloning an expression creates {} of {n} elements", live() - before);
                assert!(f.as_ref().iter().map(|x| x.get()).eq(want.iter().copied()), "the clone has other elements");
                if c.rng.chance(1, 2) {
                    e = f;
                }
            }
            1 => {
                e.clone_from(&spare);
                assert!(live() == 2 * n, "{} elements are alive, expected {}", live(), 2 * n);
                want = spare.as_ref().iter().map(|x| x.get()).collect();
            }
            2 => {
                let text = format!("{e:?}");
                assert!(want.iter().all(|x| text.contains(&x.to_string())), "formatted as {text}");
            }
            3 if n > 0 => {
                let k = c.rng.below(n);
                e.as_mut()[k] = Tr::new(want[k] + 1000);
                want[k] += 1000;
            }
            _ => std::mem::swap(&mut *e.as_mut().iter_mut().fold(None, |_, x| Some(x)).unwrap_or(&mut Tr::new(0)), &mut Tr::new({
                if n > 0 {
                    want[n - 1] = 7;
                }
                7
            })),
        }
        check_errors();
        assert!(live() == 2 * n, "{} elements are alive, expected {}", live(), 2 * n);
    }
    assert!(e.as_ref().iter().map(|x| x.get()).eq(want.iter().copied()), "elements of the expression differ");
    // Partially consumed iterators.
    let mut it = e.into_iter();
    let k = c.rng.range(0, n);
    for j in 0..k {
        assert!(it.next().map(|x| x.get()) == Some(want[j]), "item {j} differs");
    }
    let mut rest = k;
    match c.rng.below(5) {
        0 | 1 => {
            // A refusal is fine, but only when elements are missing.
            let before = live();
            match caught(|| it.clone()) {
                Ok(other) => {
                    assert!(live() == before + n - k, "cloning an iterator with {} items creates {} elements", n - k, live() - before);
                    assert!(other.len() == n - k);
                    let take = c.rng.range(0, n - k);
                    assert!(other.take(take).map(|x| x.get()).eq(want[k..k + take].iter().copied()), "the cloned iterator differs");
                    check_errors();
                    assert!(live() == before, "{} elements remain of a cloned iterator", live() - before);
                }
                Err(_) => {
                    assert!(k > 0, "an unused iterator cannot be cloned");
                    c.ev("clones of iterators in use refused", 1);
                }
            }
        }
        2 => {
            // The source is unused, the target may not be.
            let from = spare.clone().into_iter();
            let was: Vec<u32> = spare.as_ref().iter().map(|x| x.get()).collect();
            match caught(|| it.clone_from(&from)) {
                Ok(()) => {
                    want = was;
                    rest = 0;
                }
                Err(_) => assert!(k > 0, "an unused iterator cannot be overwritten"),
            }
            check_errors();
        }
        3 => {
            let r = caught(|| format!("{it:?}"));
            assert!(k > 0 || r.is_ok(), "an unused iterator cannot be formatted");
            check_errors();
        }
        _ => {}
    }
    assert!(it.len() == n - rest, "the iterator has {} of {} items", it.len(), n - rest);
    let take = if c.rng.chance(1, 3) { c.rng.range(0, n - rest) } else { n - rest };
    if c.rng.chance(1, 2) {
        // Any consumer: what it passes over is dropped, the rest stays alive.
        script::lockstep(&mut c.rng, "by value", it, want[rest..].iter(), |x, y| x.get() == **y, |left| {
            check_errors();
            assert!(live() == n + left, "{} elements are alive, expected {} with {left} items left", live(), n + left);
        });
    } else {
        for j in rest..rest + take {
            assert!(it.next().map(|x| x.get()) == Some(want[j]), "item {j} differs after the operation");
        }
        drop(it);
    }
    check_errors();
    assert!(live() == n, "{} elements are alive, expected {n}", live());
    drop(spare);
    check_none();
    c.ev("elements dropped exactly once", drops() as usize);
    if n > 0 {
        c.seen(&[n as u64, dims.len() as u64, k as u64, take as u64]);
    }
}

fn by_value(c: &mut Case) {
    let k = c.rng.below(4);
    let rank = c.rng.range(1, 3);
    let dims = match k {
        0 => vec![3],
        1 => vec![2, 3],
        _ => c.rng.dims(rank, c.cap(24)),
    };
    c.log(|| format!("by value {k} of {dims:?}"));
    let t = |off: u32| -> Tensor<Tr, mdarray::DynRank> {
        let n = product(&dims) as u32;
        Tensor::from((0..n).map(|x| Tr::new(x + off)).collect::<Vec<_>>()).into_shape(&dims[..])
    };
    match k {
        0 => {
            let a = |o| Array::<Tr, (Const<3>,)>::from_fn(|i| Tr::new(i[0] as u32 + o));
            in_use(c, a(0).into_expr(), a(50).into_expr(), &dims)
        }
        1 => {
            let a = |o| Array::<Tr, (Const<2>, Const<3>)>::from_fn(|i| Tr::new(3 * i[0] as u32 + i[1] as u32 + o));
            in_use(c, a(0).into_expr(), a(50).into_expr(), &dims)
        }
        2 if rank == 2 => in_use(c, t(0).into_mapping::<mdarray::Rank<2>>().into_expr(), t(50).into_mapping::<mdarray::Rank<2>>().into_expr(), &dims),
        _ => in_use(c, t(0).into_expr(), t(50).into_expr(), &dims),
    }
}

/// Fixed scenarios: literals, arrays, nested conversions of every depth.
fn literals(c: &mut Case) {
    let x = |v: u32| Tr::new(v);
    {
        let t = tensor![[x(1), x(2)], [x(3), x(4)]];
        let a = array![[x(1), x(2)], [x(3), x(4)]];
        let e = tensor![[x(5); 3]; 2];
        assert!(live() == 14, "{} elements after building literals of 14", live());
        let n: [[Tr; 2]; 2] = t.try_into().unwrap();
        assert!(n[1][0].get() == 3);
        let r = a.map(|x| x.get());
        assert!(r == array![[1, 2], [3, 4]]);
        assert!(live() == 10, "{} elements are alive, expected 10", live());
        let mut it = e.into_iter();
        it.next();
        it.next();
        assert!(live() == 8);
        drop(it);
        assert!(live() == 4);
        macro_rules! deep {
            ($($t:ty, $s:ty, $n:expr;)*) => {$(
                let t: Tensor<Tr, $s> = Tensor::from_fn(<$s>::default(), |_| Tr::new(1));
                assert!(live() == 4 + $n);
                let n: $t = t.try_into().ok().unwrap();
                let t: Tensor<Tr, $s> = Tensor::from(n);
                let a: Array<Tr, $s> = Array::from(t);
                let n: $t = a.into();
                assert!(live() == 4 + $n);
                drop(n);
                assert!(live() == 4);
            )*};
        }
        deep! {
            [Tr; 3], (Const<3>,), 3;
            [[Tr; 2]; 3], (Const<3>, Const<2>), 6;
            [[[Tr; 2]; 3]; 1], (Const<1>, Const<3>, Const<2>), 6;
            [[[[Tr; 1]; 2]; 2]; 2], (Const<2>, Const<2>, Const<2>, Const<1>), 8;
            [[[[[Tr; 2]; 1]; 2]; 1]; 2], (Const<2>, Const<1>, Const<2>, Const<1>, Const<2>), 8;
            [[[[[[Tr; 2]; 1]; 2]; 1]; 2]; 1], (Const<1>, Const<2>, Const<1>, Const<2>, Const<1>, Const<2>), 8;
            [[Tr; 0]; 3], (Const<3>, Const<0>), 0;
        }
        // Boxed, shared and expression-held arrays.
        let b = Box::new(Tensor::<Tr, (usize,)>::from_fn([3], |_| Tr::new(2)));
        let rc = std::rc::Rc::new(array![x(1), x(2)]);
        let rc2 = rc.clone();
        let m = expr::map(*b, |x| x.get());
        assert!(m.len() == 3);
        drop(m);
        drop(rc);
        assert!(live() == 6 && rc2[1].get() == 2);
        let z = tensor![x(1), x(2)].into_expr().zip(expr::fill(x(3)));
        drop(z);
        assert!(live() == 6);
        let d: Array<Tr, (Const<2>,)> = Default::default();
        assert!(d[0].get() == 0);
        // Default expressions.
        let e: IntoExpr<Array<ManuallyDrop<Tr>, (Const<2>, Const<2>)>> = Default::default();
        assert!(live() == 12 && e.len() == 4 && e.as_ref().iter().all(|x| x.get() == 0));
        let mut it = e.into_iter();
        assert!(it.next().is_some() && it.len() == 3);
        drop(it);
        let e: IntoExpr<Tensor<ManuallyDrop<Tr>, (usize, usize)>> = Default::default();
        assert!(live() == 8 && e.is_empty() && e.as_ref().len() == 0);
        assert!(e.into_iter().next().is_none());
    }
    check_none();
    c.ev("elements dropped exactly once", drops() as usize);
    c.seen(&[c.index]);
}

pub fn run(r: &mut Runner) {
    r.section("history-heap", 4000, 20, history::<Tr>);
    r.section("history-zst", 1500, 10, history::<TrZ>);
    r.section("by-value", 2000, 16, by_value);
    r.section("memory", 1500, 6, memory);
    r.section("identity", 1000, 10, identity);
    r.section("literals", 3, 1, literals);
    r.large("history-large", 8, history::<Tr>);
    r.large("by-value-large", 4, by_value);
    r.large("memory-large", 4, memory);
    r.large("identity-large", 4, identity);
}
