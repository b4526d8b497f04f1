//! C12: growable tensor operations agree with a plain nested-list model.

use mdarray::expr::{self, Expression, FromExpression, IntoExpression};
use mdarray::{tensor, Const, DynRank, Shape, Tensor};
use vh::chain::*;
use vh::*;

vh::check_main!("C12", run);

/// Model: nested lists, kept as dimensions and row-major values (as numbers of the elements).
#[derive(Clone, Debug, PartialEq)]
struct Model {
    dims: Vec<usize>,
    v: Vec<u64>,
}

/// Static knowledge about the shape type.
struct Ty {
    /// Constant dimensions; `None` for dynamic rank.
    consts: Option<Vec<Option<usize>>>,
    name: &'static str,
}

impl Ty {
    fn fits(&self, dims: &[usize]) -> bool {
        match &self.consts {
            None => true,
            Some(k) => k.len() == dims.len() && k.iter().zip(dims).all(|(c, d)| c.is_none() || *c == Some(*d)),
        }
    }

    fn head_const(&self) -> bool {
        matches!(&self.consts, Some(k) if k.first().is_some_and(|x| x.is_some()))
    }

    fn default_empty(&self) -> bool {
        match &self.consts {
            None => true,
            Some(k) => k.iter().any(|x| *x == Some(0) || x.is_none()),
        }
    }

    /// Random dimensions that this type can represent.
    fn dims(&self, c: &mut Case, like: Option<&[usize]>) -> Vec<usize> {
        let cap = c.cap(60);
        loop {
            let mut d = match (&self.consts, like) {
                (Some(k), _) => c.rng.dims(k.len(), cap),
                (None, Some(l)) if c.rng.chance(3, 4) => c.rng.dims(l.len(), cap),
                (None, _) => { let r = c.rng.range(0, 5); c.rng.dims(r, cap) }
            };
            if let Some(k) = &self.consts {
                for (x, k) in d.iter_mut().zip(k) {
                    *x = k.unwrap_or(*x);
                }
            }
            if product(&d) <= cap * 2 || product(&d) > 65_536 {
                return d;
            }
        }
    }
}

struct Run<T: El, S: Shape> {
    t: Tensor<T, S>,
    m: Model,
    ty: Ty,
    next: u64,
}

fn build<T: El, S: Shape>(m: &Model) -> Tensor<T, S> {
    let t: Tensor<T, DynRank> = Tensor::from(m.v.iter().map(|&k| T::make(k)).collect::<Vec<_>>()).into_shape(&m.dims[..]);
    t.into_mapping::<S>()
}

impl<T: El, S: Shape> Run<T, S> {
    fn fresh(&mut self, n: usize) -> Vec<u64> {
        let s = self.next;
        self.next += n as u64;
        (s..self.next).collect()
    }

    /// All observers agree with the model.
    #[track_caller]
    fn check(&self, c: &mut Case, what: &str) {
        let want: Vec<T> = self.m.v.iter().map(|&k| T::make(k)).collect();
        let t = &self.t;
        let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
        assert!(dims == self.m.dims, "{what}: shape is {dims:?}, expected {:?}", self.m.dims);
        chk_vals(c, t, &self.m.dims, &want);
        assert!(t[..] == want[..], "{what}: the slice of all elements differs");
        assert!(t.to_vec() == want, "{what}: to_vec differs");
        assert!(t.capacity() >= want.len(), "{what}: capacity {} for {} elements", t.capacity(), want.len());
        assert!(t.expr().flatten_len() == want.len());
        c.ev("states compared", 1);
    }

    /// After a refused request: a valid array with no foreign element.
    #[track_caller]
    fn check_valid(&mut self, c: &mut Case, what: &str) {
        let t = &self.t;
        let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
        assert!(self.ty.fits(&dims), "{what}: refused, then shape {dims:?} for {}", self.ty.name);
        let n = product(&dims);
        assert!(t.len() == n && t.iter().count() == n && t[..].len() == n && t.capacity() >= n, "{what}: refused, then inconsistent");
        // Take over what is there: the old elements, or none.
        let v: Vec<T> = t.to_vec();
        let old: Vec<T> = self.m.v.iter().map(|&k| T::make(k)).collect();
        if v == old {
            assert!(dims == self.m.dims || n == 0, "{what}: refused, but shape changed from {:?} to {dims:?}", self.m.dims);
        } else {
            assert!(n == 0, "{what}: refused, then elements {v:?} instead of {old:?}");
            self.m.v.clear();
        }
        self.m.dims = dims;
        c.ev("refused requests", 1);
    }
}

trait FlatLen {
    fn flatten_len(self) -> usize;
}

impl<E: Expression> FlatLen for E {
    fn flatten_len(self) -> usize {
        self.fold(0, |n, _| n + 1)
    }
}

fn resized(m: &Model, d: &[usize], mut f: impl FnMut() -> u64) -> Model {
    let old = MV::dense(&m.dims);
    let mut v = Vec::new();
    each_index(d, |k| {
        let keep = k.iter().zip(&m.dims).all(|(a, b)| a < b);
        v.push(if keep { m.v[old.pos(k)] } else { f() });
    });
    Model { dims: d.to_vec(), v }
}

fn history<T: El, S: Shape>(c: &mut Case, consts: Option<Vec<Option<usize>>>, name: &'static str) {
    let ty = Ty { consts, name };
    let dims = ty.dims(c, None);
    let mut r = Run::<T, S> {
        t: Tensor::from_elem_dims(&dims),
        m: Model { dims: dims.clone(), v: Vec::new() },
        ty,
        next: 1,
    };
    let v = r.fresh(product(&dims));
    r.m.v = v;
    r.t = build(&r.m);
    let steps = c.rng.range(1, if c.small { 5 } else { 16 });
    c.log(|| format!("{} of {} {dims:?}", r.ty.name, T::NAME));
    r.check(c, "construction");
    let mut hist = vec![hash_dims(&dims)];
    for _ in 0..steps {
        let k = c.rng.below(12);
        hist.push(k as u64);
        step(c, &mut r, k);
    }
    c.seen(&hist);
}

fn hash_dims(d: &[usize]) -> u64 {
    d.iter().fold(17u64, |a, &x| a.wrapping_mul(31).wrapping_add(x as u64))
}

trait FromElemDims {
    fn from_elem_dims(dims: &[usize]) -> Self;
}

impl<T: El, S: Shape> FromElemDims for Tensor<T, S> {
    fn from_elem_dims(dims: &[usize]) -> Self {
        let t: Tensor<T, DynRank> = Tensor::from_elem(dims, T::make(0));
        t.into_mapping()
    }
}

fn step<T: El, S: Shape>(c: &mut Case, r: &mut Run<T, S>, k: usize) {
    let cap = c.cap(60);
    match k {
        0..=2 => {
            // Resizing, to a shape of any kind.
            let mut d = r.ty.dims(c, Some(&r.m.dims.clone()));
            let rank = r.m.dims.len();
            match c.rng.below(6) {
                0 if rank > 0 && !r.ty.head_const() => {
                    d = r.m.dims.clone();
                    d[0] = c.rng.range(0, 4);
                }
                1 if !d.is_empty() => {
                    let i = c.rng.below(d.len());
                    d[i] = 5; // May contradict a constant dimension.
                }
                2 => d.push(1), // Wrong rank.
                _ => {}
            }
            if product(&d) > cap * 4 && !(60_000..300_000).contains(&product(&d)) {
                return;
            }
            let ok = d.len() == rank && r.ty.fits(&d);
            let x = r.fresh(1)[0];
            let way = c.rng.below(2);
            c.log(|| format!("resize from {:?} to {d:?}", r.m.dims));
            let mut calls = 0;
            let first = r.next;
            let t = &mut r.t;
            let res = caught(|| {
                if way == 0 {
                    t.resize(&d, T::make(x));
                } else {
                    t.resize_with(&d, || { calls += 1; T::make(first + calls - 1) });
                }
            });
            r.next += calls;
            if !ok {
                assert!(res.is_err(), "resize from {:?} to {d:?} of {} is accepted", r.m.dims, r.ty.name);
                r.check_valid(c, "resize");
                return;
            }
            if let Err(e) = res {
                panic!("resize from {:?} to {d:?} of {} panics: {e}", r.m.dims, r.ty.name);
            }
            if way == 0 {
                r.m = resized(&r.m, &d, || x);
            } else {
                // New elements in row-major order of their positions, one call each.
                let mut n = 0;
                r.m = resized(&r.m, &d, || { n += 1; first + n - 1 });
                assert!(n == calls, "resize_with calls the closure {calls} times for {n} elements");
            }
            r.check(c, "resize");
        }
        3 => {
            let n = c.rng.range(0, 5);
            let ok = !r.m.dims.is_empty() && !r.ty.head_const();
            c.log(|| format!("truncate {:?} to {n}", r.m.dims));
            let t = &mut r.t;
            let res = caught(|| t.truncate(n));
            assert!(res.is_ok() == ok, "truncate of {:?} ({}) to {n}: {res:?}", r.m.dims, r.ty.name);
            if ok {
                r.m.dims[0] = r.m.dims[0].min(n);
                let n = product(&r.m.dims);
                r.m.v.truncate(n);
                r.check(c, "truncate");
            } else {
                r.check_valid(c, "truncate");
            }
        }
        4 => {
            if !c.rng.chance(1, 3) {
                return;
            }
            c.log(|| format!("clear {:?}", r.m.dims));
            let t = &mut r.t;
            let cap = t.capacity();
            let res = caught(|| t.clear());
            assert!(res.is_ok() == r.ty.default_empty(), "clear of {:?}: {res:?}", r.m.dims);
            if res.is_ok() {
                let t = &r.t;
                assert!(t.is_empty() && t.iter().next().is_none() && t[..].is_empty(), "clear leaves elements");
                assert!(t.capacity() == cap, "clear changes the capacity");
                r.m = Model { dims: (0..t.rank()).map(|i| t.dim(i)).collect(), v: vec![] };
                assert!(r.ty.fits(&r.m.dims));
                if r.ty.consts.is_none() {
                    assert!(r.m.dims.len() == 1, "clear of dynamic rank gives {:?}", r.m.dims);
                }
                r.check(c, "clear");
            } else {
                r.check_valid(c, "clear");
            }
        }
        5..=8 => {
            // Appending expressions of every kind.
            let mut d = r.m.dims.clone();
            match c.rng.below(8) {
                0 if d.len() > 1 => { let i = c.rng.range(1, d.len() - 1); d[i] += 1 }
                1 => d.push(2),
                2 if d.len() > 1 => { d.pop(); }
                3 => d = r.ty.dims(c, Some(&r.m.dims.clone())),
                4 if d.len() > 1 => d = { let mut e = d.clone(); e.swap(0, d.len() - 1); e },
                _ => {}
            }
            if !d.is_empty() {
                d[0] = if c.rng.chance(1, 6) { 0 } else { c.rng.range(1, 3) };
            }
            let n = product(&d);
            if n + r.m.v.len() > cap * 4 && !(60_000..300_000).contains(&r.m.v.len()) {
                return;
            }
            let rank = r.m.dims.len();
            let empty = r.m.v.is_empty();
            let ok = rank > 0 && !r.ty.head_const() && (n == 0 || if empty {
                r.ty.fits(&d)
            } else {
                d.len() == rank && d[1..] == r.m.dims[1..]
            });
            if n == 0 && rank > 0 && !r.ty.head_const() && (d.len() != rank || d[1..] != r.m.dims[1..]) {
                return; // Nothing to append: accepted or not.
            }
            if d.is_empty() && r.ty.consts.is_none() {
                return;
            }
            let vals = r.fresh(n);
            let els = || vals.iter().map(|&k| T::make(k));
            let way = c.rng.below(7);
            c.log(|| format!("append {d:?} to {:?} in way {way}", r.m.dims));
            let src: Tensor<T, DynRank> = Tensor::from(els().collect::<Vec<_>>()).into_shape(&d[..]);
            let strided = Strider::new(c, &d, els(), || T::make(9_999_999));
            let t = &mut r.t;
            let before = t.len();
            let res = match way {
                0 => caught(|| t.expand(&src)),
                1 => caught(|| t.expand(src)),
                2 => caught(|| t.expand(strided.view())),
                3 => caught(|| t.expand(expr::map(&src, |x| x.clone()))),
                4 => caught(|| t.expand(expr::from_fn(&d[..], |i| src[i].clone()))),
                5 => {
                    // Appending another tensor of the same type, which is emptied.
                    if !r.ty.fits(&d) {
                        return;
                    }
                    let mut o: Tensor<T, S> = src.into_mapping();
                    let res = caught(|| t.append(&mut o));
                    if res.is_ok() {
                        let od: Vec<usize> = (0..o.rank()).map(|i| o.dim(i)).collect();
                        assert!(o.is_empty() && od[0] == 0, "append leaves {od:?} in the other tensor");
                        assert!(od[1..] == d[1..], "append leaves {od:?} of {d:?}");
                    }
                    assert!(o.iter().count() == o.len());
                    res
                }
                _ => {
                    // Moving expression with some adapter.
                    caught(|| {
                        let _: &mut Tensor<T, S> = src.into_expr().zip(expr::fill(())).map(|(x, ())| x).eval_into(t);
                    })
                }
            };
            assert!(res.is_ok() == ok, "append {d:?} to {:?} of {} (way {way}): {res:?}", r.m.dims, r.ty.name);
            if !ok {
                r.check_valid(c, "append");
                return;
            }
            if n > 0 {
                if empty {
                    r.m.dims = d.clone();
                } else {
                    r.m.dims[0] += d[0];
                }
                r.m.v.extend(vals);
            }
            let _ = before;
            r.check(c, "append");
        }
        9 => {
            // Copying over.
            let d = r.ty.dims(c, None);
            let v = r.fresh(product(&d));
            let m = Model { dims: d, v };
            let o: Tensor<T, S> = build(&m);
            c.log(|| format!("clone_from {:?} to {:?}", m.dims, r.m.dims));
            r.t.clone_from(&o);
            r.m = m.clone();
            r.check(c, "clone_from");
            let s = std::mem::replace(&mut r.t, o);
            assert!(s == r.t, "clone_from gives a different array");
            r.check(c, "source of clone_from");
        }
        10 => {
            // Into a vector and back.
            let d = r.m.dims.clone();
            let t = std::mem::replace(&mut r.t, build(&r.m));
            let v = t.into_vec();
            assert!(v == r.m.v.iter().map(|&k| T::make(k)).collect::<Vec<_>>(), "into_vec differs");
            let t: Tensor<T, DynRank> = Tensor::from(v).into_shape(&d[..]);
            r.t = t.into_mapping();
            r.check(c, "into_vec and back");
        }
        _ => {
            // Draining a range and putting it at the end rotates.
            let ok = !r.m.dims.is_empty() && !r.ty.head_const();
            if !ok || r.m.v.is_empty() {
                return;
            }
            let (a, b) = range(&mut c.rng, r.m.dims[0]);
            let inner = product(&r.m.dims[1..]);
            c.log(|| format!("rotate {a}..{b} of {:?}", r.m.dims));
            let part: Tensor<T, S> = FromExpression::from_expr(r.t.drain(a..b));
            let mut dd = r.m.dims.clone();
            dd[0] = b - a;
            let pv: Vec<u64> = r.m.v.drain(a * inner..b * inner).collect();
            r.m.dims[0] -= b - a;
            chk_vals(c, &part, &dd, &pv.iter().map(|&k| T::make(k)).collect::<Vec<_>>());
            r.check(c, "drain");
            if b > a {
                r.t.expand(part);
                if r.m.v.is_empty() {
                    r.m.dims = dd;
                } else {
                    r.m.dims[0] += b - a;
                }
                r.m.v.extend(pv);
                r.check(c, "expand");
            }
        }
    }
}

/// One-dimensional tensors: extending from iterators.
fn extending(c: &mut Case) {
    let n = c.rng.range(0, 6);
    let mut t: Tensor<String, (usize,)> = Tensor::from(vals::<String>(n, 0));
    let mut m: Vec<String> = vals(n, 0);
    for _ in 0..c.rng.range(1, 6) {
        let k = c.rng.range(0, 5);
        let add = vals::<String>(k, c.rng.u64() % 1000);
        c.log(|| format!("extend {} by {k}", m.len()));
        match c.rng.below(4) {
            0 if c.rng.chance(1, 2) => {
                let hint = some_hint(c, add.len());
                t.extend(Hinted(add.clone().into_iter(), hint));
            }
            0 => t.extend(add.clone()),
            1 => t.extend(add.iter().cloned().filter(|_| true)),
            2 => t.extend(Tensor::<String, (usize,)>::from(add.clone()).into_iter()),
            _ => {
                let mut n = 0;
                t.extend(std::iter::from_fn(|| { n += 1; add.get(n - 1).cloned() }));
            }
        }
        m.extend(add);
        chk_vals(c, &t, &[m.len()], &m);
        if c.rng.chance(1, 4) {
            let n = c.rng.range(0, 8);
            t.truncate(n);
            m.truncate(n);
            chk_vals(c, &t, &[m.len()], &m);
        }
    }
    let mut u: Tensor<u32, (usize,)> = tensor![1, 2];
    u.extend(&[3, 4]);
    u.extend([5].iter());
    assert!(u == tensor![1, 2, 3, 4, 5], "extend by references gives {u:?}");
    let f: Tensor<String, (usize,)> = m.iter().cloned().collect();
    assert!(f == t && f.shape().0 == m.len());
    c.seen(&[n as u64, m.len() as u64]);
}

/// Overflowing requests.
fn overflow(c: &mut Case) {
    let big = [usize::MAX, usize::MAX / 2, 1 << 61, 1 << 62, 1 << 63, (1 << 60) + 1];
    let r = c.rng.range(1, 4);
    let d0: Vec<usize> = c.rng.dims(r, 24);
    let mut d: Vec<usize> = (0..r).map(|_| c.rng.range(1, 5)).collect();
    let i = c.rng.below(r);
    d[i] = *c.rng.pick(&big);
    if c.rng.chance(1, 3) {
        let i = c.rng.below(r);
        d[i] = *c.rng.pick(&big);
    }
    let base: Vec<u64> = vals(product(&d0), 0);
    let mut t = tens::<u64>(&d0);
    c.log(|| format!("resize {d0:?} to {d:?}"));
    let way = c.rng.below(2);
    let res = caught(|| if way == 0 { t.resize(&d, 1) } else { t.resize_with(&d, || 1) });
    assert!(res.is_err(), "resize to {d:?} is accepted: {:?}", t.shape());
    let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    assert!(t.len() == product(&dims) && t.iter().count() == t.len() && t[..].len() == t.len());
    assert!(t.is_empty() || (dims == d0 && t[..] == base[..]), "resize to {d:?} leaves {dims:?}");
    drop(t);
    // Zero-sized elements: the length may be large, but not overflow.
    let mut z: Tensor<Z, (usize, usize)> = Tensor::from_elem([2, 3], Z);
    let res = caught(|| z.resize(&[usize::MAX, 2], Z));
    assert!(res.is_err() && z.len() == z.dim(0) * z.dim(1) && z.iter().count() == z.len());
    let res = caught(|| z.resize(&[1 << 33, 1 << 33], Z));
    assert!(res.is_err() && z.len() == z.dim(0) * z.dim(1));
    // Appending so that the number of rows overflows.
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(usize::MAX - 2) };
    let mut z: Tensor<(), (usize,)> = Tensor::from(v);
    let res = caught(|| z.expand(&tensor![(), (), (), ()]));
    assert!(res.is_err(), "appending 4 to usize::MAX - 2 elements is accepted");
    assert!(z.len() == z.dim(0) && (z.is_empty() || z.len() == usize::MAX - 2), "afterwards {}", z.len());
    std::mem::forget(z);
    c.ev("refused requests", 4);
    c.seen(&[hash_dims(&d), hash_dims(&d0), way as u64]);
}

/// Exhaustive resizing over small shapes.
fn small_resizes(c: &mut Case) {
    // All pairs of shapes of rank 3 with dimensions 0..=2 (27 x 27), and of rank 2 with 0..=3.
    let i = c.index as usize;
    let (a, b): (Vec<usize>, Vec<usize>) = if i < 729 {
        let d = |k: usize| vec![k / 9 % 3, k / 3 % 3, k % 3];
        (d(i / 27), d(i % 27))
    } else {
        let j = i - 729;
        let d = |k: usize| vec![k / 4 % 4, k % 4];
        (d(j / 16), d(j % 16))
    };
    let m = Model { dims: a.clone(), v: (1..=product(&a) as u64).collect() };
    let mut t: Tensor<u64, DynRank> = build(&m);
    let want = resized(&m, &b, || 77);
    c.log(|| format!("resize {a:?} to {b:?}"));
    t.resize(&b, u64::make(77));
    let w: Vec<u64> = want.v.iter().map(|&k| u64::make(k)).collect();
    chk_vals(c, &t, &b, &w);
    if a.len() == 3 {
        let mut s: Tensor<u64, (usize, usize, usize)> = build(&m);
        let mut n = 0;
        s.resize_with(&b, || { n += 1; u64::make(77) });
        chk_vals(c, &s, &b, &w);
        let kept: usize = a.iter().zip(&b).map(|(x, y)| x.min(y)).product();
        assert!(n == product(&b) - kept, "{n} new elements, expected {}", product(&b) - kept);
    } else {
        let mut s: Tensor<u64, (usize, usize)> = build(&m);
        s.resize(&b, u64::make(77));
        chk_vals(c, &s, &b, &w);
    }
    c.seen(&[hash_dims(&a), hash_dims(&b)]);
}

pub fn run(r: &mut Runner) {
    type U = usize;
    let d: Option<usize> = None;
    r.section("dyn-u64", 1200, 8, |c| history::<u64, DynRank>(c, None, "DynRank"));
    r.section("dyn-string", 500, 6, |c| history::<String, DynRank>(c, None, "DynRank"));
    r.section("dyn-zst", 300, 2, |c| history::<Z, DynRank>(c, None, "DynRank"));
    r.section("rank1", 400, 2, move |c| history::<u64, (U,)>(c, Some(vec![d]), "(usize,)"));
    r.section("rank2", 500, 2, move |c| history::<String, (U, U)>(c, Some(vec![d; 2]), "(usize, usize)"));
    r.section("rank2-const", 400, 2, move |c| history::<u64, (U, Const<3>)>(c, Some(vec![d, Some(3)]), "(usize, Const<3>)"));
    r.section("rank3", 400, 2, move |c| history::<u64, (U, U, U)>(c, Some(vec![d; 3]), "(usize, usize, usize)"));
    r.section("rank3-const", 300, 2, move |c| history::<u8, (U, Const<2>, U)>(c, Some(vec![d, Some(2), d]), "(usize, Const<2>, usize)"));
    r.section("head-const", 300, 1, move |c| history::<u64, (Const<2>, U)>(c, Some(vec![Some(2), d]), "(Const<2>, usize)"));
    r.section("all-const", 100, 1, move |c| history::<u64, (Const<2>, Const<3>)>(c, Some(vec![Some(2), Some(3)]), "(Const<2>, Const<3>)"));
    r.section("rank0", 60, 1, |c| history::<u64, ()>(c, Some(vec![]), "()"));
    r.section("rank4", 200, 1, move |c| history::<u64, (U, U, U, U)>(c, Some(vec![d; 4]), "rank 4"));
    r.section("rank6", 150, 1, move |c| history::<u64, (U, U, U, U, U, U)>(c, Some(vec![d; 6]), "rank 6"));
    r.section("dyn-aligned", 200, 1, |c| history::<A64, DynRank>(c, None, "DynRank"));
    r.section("dyn-odd", 200, 1, |c| history::<[u16; 3], DynRank>(c, None, "DynRank"));
    r.section("rank2-box", 200, 1, move |c| history::<Box<u64>, (U, U)>(c, Some(vec![d; 2]), "(usize, usize)"));
    r.section("rank2-u8", 200, 1, move |c| history::<u8, (U, U)>(c, Some(vec![d; 2]), "(usize, usize)"));
    r.section("rank2-zst", 100, 1, move |c| history::<Z, (U, U)>(c, Some(vec![d; 2]), "(usize, usize)"));
    r.section("rank3-aligned", 200, 1, move |c| history::<A64, (U, U, U)>(c, Some(vec![d; 3]), "(usize, usize, usize)"));
    r.section("extend", 400, 3, extending);
    r.section("overflow", 300, 2, overflow);
    r.fixed("small-resizes", 729 + 256, 12, small_resizes);
    r.large("dyn-large", 8, |c| history::<u64, DynRank>(c, None, "DynRank"));
    r.large("rank2-large", 6, move |c| history::<u64, (U, U)>(c, Some(vec![d; 2]), "(usize, usize)"));
}
