//! C17: shapes are consistent: static sizes, lengths and overflow.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use mdarray::expr::{self, Expression, FromExpression, IntoExpression};
use mdarray::{
    Array, Const, Dense, DenseMapping, Dim, DynRank, IntoShape, Layout, Mapping, Rank, Shape, Slice, Strided,
    StridedMapping, Tensor, View, ViewMut,
};
use vh::chain::*;
use vh::*;

vh::check_main!("C17", run);

type U = usize;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Sizes of the dimensions in a shape type.
trait Sizes: Shape {
    fn sizes() -> Option<Vec<Option<usize>>>;
}

macro_rules! sizes {
    ($(($($x:ident),*);)*) => {$(
        impl<$($x: Dim),*> Sizes for ($($x,)*) {
            fn sizes() -> Option<Vec<Option<usize>>> { Some(vec![$($x::SIZE),*]) }
        }
    )*};
}

sizes! { (); (A); (A, B); (A, B, C); (A, B, C, D); (A, B, C, D, E); (A, B, C, D, E, F); }

impl Sizes for DynRank {
    fn sizes() -> Option<Vec<Option<usize>>> {
        None
    }
}

/// Dimensions that fit the shape type if `None` is returned by `wrong`.
fn fits<S: Sizes>(d: &[usize]) -> bool {
    S::sizes().is_none_or(|k| k.len() == d.len() && k.iter().zip(d).all(|(k, d)| k.is_none_or(|k| k == *d)))
}

/// Interface of one shape type.
fn shape_type<S: Sizes>(c: &mut Case) {
    let name = std::any::type_name::<S>();
    let k = S::sizes();
    assert!(S::RANK == k.as_ref().map(|k| k.len()), "static rank of {name}");
    // Default: constant sizes, zero otherwise.
    let s = S::default();
    let want: Vec<usize> = k.as_ref().map_or(vec![0], |k| k.iter().map(|x| x.unwrap_or(0)).collect());
    assert!(dims_of(&s) == want && s.rank() == want.len(), "default of {name} is {s:?}");
    assert!(s.len() == product(&want) && s.is_empty() == (product(&want) == 0));

    for _ in 0..6 {
        let r = if c.rng.chance(4, 5) { want.len().max(k.is_none() as usize * c.rng.range(0, 8)) } else { c.rng.range(0, 8) };
        let mut d: Vec<usize> = (0..r).map(|_| c.rng.range(0, 4)).collect();
        if let Some(k) = &k {
            for (d, k) in d.iter_mut().zip(k) {
                if let (Some(k), true) = (k, c.rng.chance(7, 8)) {
                    *d = *k;
                }
            }
        }
        let ok = fits::<S>(&d);
        c.log(|| format!("{name} from {d:?}"));
        c.seen(&[vh::rng::hash_str(name), ok as u64, d.iter().fold(1, |a, &x| a * 7 + x as u64)]);
        match caught(|| S::from_dims(&d)) {
            Err(e) => {
                assert!(!ok, "{name} cannot be made from {d:?}: {e}");
                c.ev("contradicting dimensions refused", 1);
            }
            Ok(s) => {
                assert!(ok, "{name} is made from {d:?}");
                assert!(s.rank() == d.len() && dims_of(&s) == d, "{name} made from {d:?} is {s:?}");
                assert!(s.len() == product(&d) && s.is_empty() == (product(&d) == 0));
                for i in d.len()..d.len() + 3 {
                    assert!(panics(|| s.dim(i)), "{name}: dimension {i} of {}", d.len());
                }
                assert!(s.with_dims(|x| x.to_vec()) == d);
                let t = s.clone();
                assert!(t == s && t.cmp(&s).is_eq() && hash(&t) == hash(&s));
                // Comparison and hashing follow the dimensions.
                let mut e = d.clone();
                if let Some(i) = (!e.is_empty()).then(|| c.rng.below(e.len())) {
                    e[i] = c.rng.range(0, 4);
                }
                if k.is_none() && c.rng.chance(1, 3) {
                    e.push(c.rng.range(0, 2));
                }
                if fits::<S>(&e) {
                    let mut t = S::from_dims(&e);
                    assert!((s == t) == (d == e), "{name}: {d:?} == {e:?} is {}", s == t);
                    assert!(s.cmp(&t) == d.cmp(&e), "{name}: order of {d:?} and {e:?} is {:?}", s.cmp(&t));
                    assert!(s.partial_cmp(&t) == Some(d.cmp(&e)));
                    assert!(d != e || hash(&s) == hash(&t));
                    t.clone_from(&s);
                    assert!(dims_of(&t) == d && t == s, "{name}: clone_from of {d:?} into {e:?} gives {t:?}");
                    c.ev("shape comparisons", 4);
                }
                c.ev("shapes checked", 1);

                // Arrays with that shape.
                let n = product(&d);
                let t: Tensor<u64, S> = Tensor::from_elem(s.clone(), 7);
                obs(c, &t, &d);
                assert!(t.to_vec() == vec![7; n]);
                let mut calls = 0;
                let t: Tensor<usize, S> = Tensor::from_fn(s.clone(), |i| {
                    assert!(i.len() == d.len());
                    calls += 1;
                    calls - 1
                });
                assert!(calls == n, "{calls} calls for {d:?}");
                obs(c, &t, &d);
                let v = View::<usize, S>::from_view(&t);
                obs(c, &v, &d);
                let t: Tensor<u64, S> = Tensor::from(vec![3; n]).into_shape(s.clone());
                obs(c, &t, &d);
                // A wrong number of elements.
                for m in [n + 1, n.wrapping_sub(1), 0] {
                    if m != n && m < 1 << 20 {
                        assert!(panics(|| {
                            let t: Tensor<u64, S> = Tensor::from(vec![3; m]).into_shape(s.clone());
                            t
                        }), "{m} elements are given the shape {d:?}");
                        c.ev("wrong lengths refused", 1);
                    }
                }
                let m = DenseMapping::new(s.clone());
                mapping(&m, &d);
                let st: Vec<isize> = d.iter().map(|_| c.rng.irange(-5, 5)).collect();
                let m = StridedMapping::new(s.clone(), &st);
                mapping(&m, &d);
                assert!(m.strides() == st);
                assert!(panics(|| StridedMapping::new(s.clone(), &[&st[..], &[1]].concat())), "too many strides");
                if !st.is_empty() {
                    assert!(panics(|| StridedMapping::new(s.clone(), &st[1..])), "too few strides");
                }
                let mut z = StridedMapping::<S>::default();
                z.clone_from(&m);
                assert!(z == m && hash(&z) == hash(&m) && z.strides() == st);
                assert!(StridedMapping::<S>::default().shape() == &S::default());
                assert!(DenseMapping::<S>::default().shape() == &S::default());
            }
        }
    }
    // Empty containers.
    let empty = product(&want) == 0;
    match caught(|| (Tensor::<u64, S>::new(), Tensor::<u64, S>::with_capacity(5), Tensor::<u64, S>::default())) {
        Ok((a, b, d)) => {
            assert!(empty, "new tensor of {name} is not refused");
            for t in [a, b, d] {
                obs(c, &t, &want);
            }
        }
        Err(e) => assert!(!empty, "new tensor of {name}: {e}"),
    }
}

trait FromView<'a, T, S: Shape> {
    fn from_view(t: &'a Tensor<T, S>) -> View<'a, T, S>;
}

impl<'a, T, S: Shape> FromView<'a, T, S> for View<'a, T, S> {
    fn from_view(t: &'a Tensor<T, S>) -> View<'a, T, S> {
        t.expr()
    }
}

fn mapping<M: Mapping>(m: &M, d: &[usize]) {
    assert!(m.rank() == d.len() && m.len() == product(d) && m.is_empty() == (product(d) == 0));
    for i in 0..d.len() {
        assert!(m.dim(i) == d[i], "mapping of {d:?}: dimension {i} is {}", m.dim(i));
    }
    if <M::Layout as Layout>::IS_DENSE {
        for i in 0..d.len() {
            assert!(m.stride(i) == product(&d[i + 1..]) as isize, "mapping of {d:?}: stride {i} is {}", m.stride(i));
        }
        assert!(m.is_contiguous());
    }
    assert!(m.clone() == *m && hash(&m.clone()) == hash(m));
}

/// All observers of the shape of an array.
#[track_caller]
fn obs<T, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, d: &[usize]) {
    chk_shape(s, d);
    let n = product(d);
    mapping(s.mapping(), d);
    assert!(s.shape() == s.mapping().shape());
    if c.rng.chance(1, 6) {
        let i = d.len() + c.rng.range(0, 2);
        let m = s.mapping();
        assert!(panics(|| s.dim(i)) && panics(|| s.stride(i)), "dimension {i} of {d:?}");
        assert!(panics(|| m.dim(i)) && panics(|| m.stride(i)), "mapping of {d:?}: dimension {i}");
        c.ev("dimensions out of range", 4);
    }
    for i in 0..d.len() {
        assert!(s.stride(i) == s.mapping().stride(i), "stride {i}");
    }
    assert!(s.is_contiguous() == s.mapping().is_contiguous());
    assert!(s.iter().len() == n, "{} elements iterated of {d:?}", s.iter().len());
    assert!(s.iter().count() == n, "{} elements counted of {d:?}", s.iter().count());
    let e = s.expr();
    assert!(e.rank() == d.len() && e.len() == n && e.is_empty() == (n == 0) && dims_of(e.shape()) == d);
    c.ev("shape observations", 6);
}

fn shape_types(c: &mut Case) {
    let fs: &[fn(&mut Case)] = &[
        shape_type::<()>,
        shape_type::<(U,)>,
        shape_type::<(Const<3>,)>,
        shape_type::<(Const<0>,)>,
        shape_type::<(U, U)>,
        shape_type::<(Const<2>, U)>,
        shape_type::<(U, Const<3>)>,
        shape_type::<(Const<2>, Const<3>)>,
        shape_type::<(Const<0>, U)>,
        shape_type::<(U, U, U)>,
        shape_type::<(Const<2>, U, Const<1>)>,
        shape_type::<(U, Const<2>, U)>,
        shape_type::<(Const<1>, Const<2>, Const<3>)>,
        shape_type::<(U, U, U, U)>,
        shape_type::<(U, Const<3>, Const<1>, U)>,
        shape_type::<(Const<1>, Const<2>, Const<3>, Const<2>)>,
        shape_type::<(U, U, U, U, U)>,
        shape_type::<(U, U, Const<2>, U, Const<1>)>,
        shape_type::<(Const<1>, Const<2>, Const<3>, Const<2>, Const<1>)>,
        shape_type::<(U, U, U, U, U, U)>,
        shape_type::<(Const<2>, U, U, Const<1>, U, Const<2>)>,
        shape_type::<(Const<1>, Const<2>, Const<3>, Const<2>, Const<1>, Const<2>)>,
        shape_type::<DynRank>,
        shape_type::<DynRank>,
    ];
    fs[c.index as usize % fs.len()](c)
}

/// Shapes with dynamic rank, made in different ways, are the same.
fn dyn_rank(c: &mut Case) {
    let r = c.rng.range(0, 9);
    let d: Vec<usize> = (0..r).map(|_| c.rng.range(0, 4)).collect();
    c.log(|| format!("dynamic shape {d:?}"));
    let mut all = vec![
        <DynRank as Shape>::from_dims(&d),
        (&d[..]).into_shape(),
        d.clone().into_shape(),
        d.clone().into_boxed_slice().into_shape(),
    ];
    macro_rules! arr {
        ($($n:literal),*) => { match d.len() {
            $($n => {
                let a: [usize; $n] = d.clone().try_into().unwrap();
                all.push((&a).into_shape());
                let t = Tensor::<u8, _>::from_elem(a, 1);
                all.push(t.into_dyn().shape().clone());
                let s = a.into_shape();
                assert!(dims_of(&s) == d && s.rank() == $n);
            })*
            _ => {}
        } };
    }
    arr!(0, 1, 2, 3, 4, 5, 6);
    if r == 1 {
        all.push(DynRank::One(d[0]));
        assert!(dims_of(&d[0].into_shape()) == d);
    }
    all.push(DynRank::Dyn(d.clone().into()));
    for a in &all {
        assert!(a.dims() == d && a.rank() == r && a.len() == product(&d) && dims_of(a) == d);
        for b in &all {
            assert!(a == b && a.cmp(b).is_eq() && hash(a) == hash(b), "{a:?} and {b:?} differ");
            let mut x = a.clone();
            x.clone_from(b);
            assert!(x == *b && x.dims() == d);
            c.ev("shape comparisons", 3);
        }
        let mut x = DynRank::Dyn(vec![9; c.rng.range(0, 4)].into());
        x.clone_from(a);
        assert!(x.dims() == d);
        let mut x = DynRank::One(4);
        x.clone_from(a);
        assert!(x.dims() == d);
        let e: Vec<usize> = (0..c.rng.range(0, 9)).map(|_| c.rng.range(0, 3)).collect();
        let b: DynRank = e.clone().into_shape();
        assert!((*a == b) == (d == e) && a.cmp(&b) == d.cmp(&e), "{d:?} and {e:?}");
    }
    c.seen(&[d.iter().fold(1, |a, &x| a * 7 + x as u64)]);
}

/// Shapes and mappings with extreme dimensions and strides: these hold no elements, but can be
/// compared and observed.
fn extreme<S: Shape>(c: &mut Case, rank: usize) {
    const X: [usize; 14] = [0, 1, 2, 3, 255, 256, 65_536, 1 << 31, u32::MAX as usize, 1 << 32, 1 << 62, isize::MAX as usize, 1 << 63, usize::MAX];
    let d: Vec<usize> = (0..rank).map(|_| *c.rng.pick(&X)).collect();
    let mut e = d.clone();
    match c.rng.below(4) {
        0 => {}
        1 => e = (0..if S::RANK.is_none() { c.rng.range(0, 8) } else { rank }).map(|_| *c.rng.pick(&X)).collect(),
        2 if S::RANK.is_none() => {
            if c.rng.chance(1, 2) { e.push(*c.rng.pick(&X)) } else { _ = e.pop() }
        }
        _ => {
            if rank > 0 {
                let i = c.rng.below(rank);
                e[i] = if c.rng.chance(1, 2) { *c.rng.pick(&X) } else { d[i].wrapping_add(1 << *c.rng.pick(&[0, 8, 16, 31, 32, 63])) };
            }
        }
    }
    c.log(|| format!("shapes {d:?} and {e:?}"));
    let (s, t) = (S::from_dims(&d), S::from_dims(&e));
    for (s, d) in [(&s, &d), (&t, &e)] {
        assert!(dims_of(s) == *d && s.rank() == d.len(), "shape of {d:?} is {s:?}");
        if d.iter().try_fold(1usize, |a, &x| a.checked_mul(x.max(1))).is_some() {
            assert!(s.len() == product(d) && s.is_empty() == (product(d) == 0), "length of {d:?} is {}", s.len());
        }
    }
    assert!((s == t) == (d == e) && (s != t) == (d != e), "{d:?} == {e:?} is {}", s == t);
    assert!(s.cmp(&t) == d.cmp(&e) && s.partial_cmp(&t) == Some(d.cmp(&e)), "order of {d:?} and {e:?} is {:?}", s.cmp(&t));
    assert!(t.cmp(&s) == e.cmp(&d) && (s < t) == (d < e) && (s >= t) == (d >= e));
    assert!(s.clone().max(t.clone()) == S::from_dims((&d).max(&e)) && s.clone().min(t.clone()) == S::from_dims((&d).min(&e)));
    assert!(d != e || hash(&s) == hash(&t), "equal shapes {d:?} hash differently");
    let mut x = t.clone();
    x.clone_from(&s);
    assert!(x == s && dims_of(&x) == d);
    // Mappings.
    let (a, b) = (DenseMapping::new(s.clone()), DenseMapping::new(t.clone()));
    assert!((a == b) == (d == e) && *a.shape() == s && (d != e || hash(&a) == hash(&b)));
    let y: [isize; 9] = [0, 1, -1, 2, -(1 << 31), 1 << 32, isize::MAX, isize::MIN, -7];
    let f: Vec<isize> = (0..d.len()).map(|_| *c.rng.pick(&y)).collect();
    let mut g = f.clone();
    if !g.is_empty() && c.rng.chance(1, 2) {
        let i = c.rng.below(g.len());
        g[i] = *c.rng.pick(&y);
    }
    let a: StridedMapping<S> = StridedMapping::new(s.clone(), &f);
    assert!(a.strides() == f && *a.shape() == s && dims_of(a.shape()) == d, "mapping of {d:?}, {f:?} is {a:?}");
    for i in 0..d.len() {
        assert!(a.stride(i) == f[i] && mdarray::Mapping::dim(&a, i) == d[i]);
    }
    if d.len() == e.len() {
        let b: StridedMapping<S> = StridedMapping::new(t.clone(), &g);
        let same = d == e && f == g;
        assert!((a == b) == same, "mapping {a:?} == {b:?} is {}", a == b);
        assert!(!same || hash(&a) == hash(&b));
        let mut z = b.clone();
        z.clone_from(&a);
        assert!(z == a && z.strides() == f, "clone_from of {a:?} into {b:?} gives {z:?}");
    }
    assert!(panics(|| StridedMapping::new(s.clone(), &[&f[..], &[1]].concat())), "too many strides are accepted");
    c.ev("shape comparisons", 12);
    c.seen(&[d.iter().fold(1, |a: u64, &x| a.wrapping_mul(31).wrapping_add(x as u64)), e.iter().fold(1, |a: u64, &x| a.wrapping_mul(31).wrapping_add(x as u64))]);
}

/// Views after any chain of operations, of any layout and shape type.
fn views(c: &mut Case) {
    let d = base_dims(c, 0, 6);
    let mut t = tens::<u32>(&d);
    let base = t.as_ptr();
    let steps = c.rng.range(0, 4);
    c.log(|| format!("tensor {d:?}"));
    let (v, m) = chain(c, t.expr().into_mapping(), MV::dense(&d), steps);
    obs(c, &v, &m.dims);
    located(c, &v, &m, base);
    as_rank!(v, m.rank(), x => {
        obs(c, &x, &m.dims);
        located(c, &x, &m, base);
        exprs(c, &x, &m.dims);
        if x.is_contiguous() {
            assert!(m.idx.windows(2).all(|w| w[1] == w[0] + 1), "{:?} claims to be contiguous", m.dims);
        }
    });
    let d2 = m.dims.clone();
    let (mut v, m) = chain_mut(c, t.expr_mut().into_mapping(), MV::dense(&d), steps);
    obs(c, &v, &m.dims);
    let n = v.iter_mut().count();
    assert!(n == m.len());
    c.seen(&[sig(&m), d2.len() as u64]);
}

/// Strides locate every element, wherever it is.
#[track_caller]
fn located<S: Shape, L: Layout>(c: &mut Case, s: &Slice<u32, S, L>, m: &MV, base: *const u32) {
    let st: Vec<isize> = (0..m.rank()).map(|i| s.stride(i)).collect();
    let mut p = 0;
    each_index(&m.dims, |i| {
        let off: isize = i.iter().zip(&st).map(|(&a, &b)| a as isize * b).sum();
        let got = s.as_ptr() as isize + 4 * off;
        assert!(got == base as isize + 4 * m.idx[p] as isize, "strides {st:?} do not locate {i:?} of {:?}", m.dims);
        assert!(&s[i] as *const u32 as isize == got, "index {i:?} of {:?} is not where the strides say", m.dims);
        p += 1;
    });
    c.ev("elements located by strides", p);
}

/// Shapes of expressions.
fn exprs<S: Shape, L: Layout>(c: &mut Case, s: &Slice<u32, S, L>, d: &[usize]) {
    let n = product(d);
    macro_rules! same {
        ($e:expr, $dims:expr) => {{
            let e = $e;
            let dims: &[usize] = $dims;
            let k = product(dims);
            assert!(e.rank() == dims.len() && dims_of(e.shape()) == dims, "{}: {:?} instead of {dims:?}", stringify!($e), e.shape());
            assert!(e.len() == k && e.is_empty() == (k == 0), "{}: length {}", stringify!($e), e.len());
            for i in 0..dims.len() {
                assert!(e.dim(i) == dims[i]);
            }
            if c.rng.chance(1, 8) {
                assert!(panics(|| e.dim(dims.len())), "{}: dimension {}", stringify!($e), dims.len());
            }
            let it = e.into_iter();
            assert!(it.len() == k && it.size_hint() == (k, Some(k)), "{}: {:?}", stringify!($e), it.size_hint());
            assert!(it.count() == k, "{}: count", stringify!($e));
            c.ev("expression shapes", 1);
        }};
    }
    same!(s.expr(), d);
    same!(s.expr().cloned(), d);
    same!(s.expr().copied(), d);
    same!(s.expr().enumerate(), d);
    same!(s.expr().map(|x| *x as u64), d);
    same!(s.expr().zip(s), d);
    same!(s.expr().zip(expr::fill(3)), d);
    same!(expr::fill_with(|| 4).zip(s), d);
    same!(expr::from_elem(s.shape().clone(), 5), d);
    same!(expr::from_fn(s.shape().clone(), |i| i.len()), d);
    let low = d.len().min(1 + c.rng.below(3));
    let f: View<u32, DynRank, Strided> = s.remap();
    if low < d.len() && n > 0 {
        let l = tens::<u8>(&d[low..]);
        same!(l.expr().zip(&f), d);
        same!(f.expr().zip(&l), d);
    }
    if !d.is_empty() {
        let axis = c.rng.below(d.len());
        same!(f.axis_expr(axis), &[d[axis]][..]);
        let mut e = d.to_vec();
        e.remove(axis);
        same!(f.lanes(axis), &e[..]);
        for x in f.axis_expr(axis) {
            assert!(dims_of(x.shape()) == e);
        }
        for x in f.lanes(axis) {
            assert!(dims_of(x.shape()) == [d[axis]]);
        }
        same!(f.outer_expr(), &[d[0]][..]);
    }
    let mut m = 0;
    let t: Tensor<u32, S> = FromExpression::from_expr(s.expr().map(|x| {
        m += 1;
        *x
    }));
    assert!(m == n);
    obs(c, &t, d);
    same!(t.into_expr(), d);
    same!(expr::fill(1), &[][..]);
    same!(expr::fill_with(|| 1), &[][..]);
}

/// Sizes that overflow.
fn overflow(c: &mut Case) {
    let r = c.rng.range(2, 6);
    // A product that overflows for every order of the factors, without zero; sometimes it wraps to
    // a small number.
    let mut d = vec![1usize; r];
    match c.rng.below(5) {
        0 => {
            let k = c.rng.range(1, 63);
            d[0] = 1 << k;
            d[1] = 1 << (64 - k);
        }
        1 => {
            // Wraps to a small number: 3 * inverse(3) * k
            d[0] = 3;
            d[1] = 0xAAAA_AAAA_AAAA_AAABusize;
            if r > 2 {
                d[2] = c.rng.range(1, 3);
            }
        }
        2 => {
            d[0] = usize::MAX - 1;
            d[1] = c.rng.range(2, 5);
        }
        3 => {
            d[0] = (1 << 32) + 1;
            d[1] = (1 << 32) + c.rng.range(0, 5);
        }
        _ => {
            let k = 64 / r + 1;
            d.iter_mut().for_each(|x| *x = 1 << k);
        }
    }
    c.rng.shuffle(&mut d);
    let wrapped = d.iter().fold(1usize, |a, &x| a.wrapping_mul(x));
    c.log(|| format!("dimensions {d:?}, wrapping to {wrapped}"));
    c.seen(&[d.iter().fold(1, |a, &x| vh::rng::mix(a ^ x as u64))]);
    let calls = std::cell::Cell::new(0u64);
    let called = || {
        calls.set(calls.get() + 1);
        assert!(calls.get() < 1000, "elements are made for an overflowing size");
    };
    macro_rules! no {
        ($e:expr) => {{
            let res = caught(|| std::mem::forget($e));
            assert!(res.is_err(), "{} is accepted with {d:?}", stringify!($e));
            c.ev("overflowing sizes refused", 1);
        }};
    }
    macro_rules! each {
        ($($n:literal),*) => { match r {
            $($n => {
                let a: [usize; $n] = d.clone().try_into().unwrap();
                no!(Tensor::<u8, _>::from_elem(a, 1));
                no!(Tensor::<Z, _>::from_elem(a, Z));
                no!(Tensor::<u64, _>::from_fn(a, |_| { called(); 1 }));
                no!(Tensor::<(), _>::from_fn(a, |_| called()));
                no!(expr::from_elem(a, 1u8).eval());
                no!(expr::from_fn(a, |_| { called(); 1 }).eval());
                no!(expr::from_elem(a, Z).len());
                no!(expr::from_fn(a, |_| Z).len());
                for m in [0, 1, 3, wrapped] {
                    let v = || { let mut v: Vec<()> = Vec::new(); unsafe { v.set_len(m) }; v };
                    no!(Tensor::<_, (U,)>::from(v()).into_shape(a));
                    no!(Tensor::<_, (U,)>::from(v()).reshape(a).len());
                    no!(Tensor::<_, (U,)>::from(v()).reshape_mut(a).len());
                    no!(View::<(), (U,)>::from(&v()[..]).into_shape(a).len());
                    no!(View::<(), (U,), Dense>::from(&v()[..]).remap::<(U,), Strided>().reshape(a).len());
                    if m < 10 {
                        let x = vec![7u64; m];
                        no!(Tensor::<_, (U,)>::from(x.clone()).into_shape(a));
                        no!(View::<u64, (U,)>::from(&x[..]).into_shape(a).len());
                        no!(View::<u64, (U,)>::from(&x[..]).remap::<(U,), Strided>().reshape(a).len());
                    }
                }
                let mut t = Tensor::<u8, _>::from_elem([2; $n], 9);
                no!(t.resize(&a, 4));
                assert!(t.to_vec() == [9; 1 << $n] && dims_of(t.shape()) == [2; $n], "refused resize changes the tensor");
                let mut t = Tensor::<Z, _>::from_elem([2; $n], Z);
                no!(t.resize(&a, Z));
                no!(t.resize_with(&a, || { called(); Z }));
                assert!(t.len() == 1 << $n && dims_of(t.shape()) == [2; $n], "refused resize changes the tensor");
                let mut t = Tensor::<Z, Rank<$n>>::new();
                no!(t.resize(&a, Z));
                assert!(t.is_empty());
            })*
            _ => unreachable!(),
        } };
    }
    each!(2, 3, 4, 5, 6);
    no!(Tensor::<u8, DynRank>::from_elem(&d[..], 1));
    no!(Tensor::<Z, DynRank>::from_elem(&d[..], Z));
    no!(Tensor::<u64, DynRank>::from_fn(&d[..], |_| { called(); 1 }));
    no!({ let t: Tensor<(), DynRank> = Tensor::from(vec![(); 6]).into_shape(&d[..]); t });
    let mut t = Tensor::<Z, DynRank>::from_elem(&[2, 2][..], Z);
    no!(t.resize(&d, Z));
    assert!(t.len() == 4 && dims_of(t.shape()) == [2, 2]);
    let mut t = Tensor::<u32, DynRank>::new();
    no!(t.resize(&d, 4));
    assert!(t.is_empty());
}


/// Constant sizes that overflow, with zero-sized elements (others do not compile).
fn const_overflow(c: &mut Case) {
    const H: usize = 1 << 32;
    const I3: usize = 0xAAAA_AAAA_AAAA_AAAB;
    macro_rules! no {
        ($e:expr) => {{
            let res = caught(|| std::mem::forget($e));
            assert!(res.is_err(), "{} is accepted", stringify!($e));
            c.ev("overflowing sizes refused", 1);
        }};
    }
    macro_rules! kinds {
        ($a:expr, $b:expr, $w:expr) => {{
            type C = (Const<{ $a }>, Const<{ $b }>);
            c.log(|| format!("{}", std::any::type_name::<C>()));
            no!(Array::<Z, C>::from_elem(Z));
            no!(Array::<Z, C>::from_fn(|_| Z));
            no!(Array::<Z, (Const<$w>,)>([Z; $w]).into_shape::<C>());
            let mut x = [[Z; $b]; $a];
            no!(View::<Z, C>::from(&x).len());
            no!(View::<Z, (U, U)>::from(&x).len());
            no!(ViewMut::<Z, C>::from(&mut x).len());
            no!(ViewMut::<Z, (U, Const<{ $b }>)>::from(&mut x).len());
            no!(Tensor::<Z, C>::from(x));
            no!(Tensor::<Z, (U, U)>::from(x));
            let mut a: Array<Z, C> = Array(x);
            no!((*a).len());
            no!((&mut *a).len());
            no!(a.iter().len());
            no!(a.len());
            no!(a.shape().len() + Shape::len(a.shape()));
            no!(Array::<Z, C>(x).into_expr().len());
            no!(Array::<Z, C>(x).into_iter().len());
            no!(Array::<Z, C>(x).into_shape::<(Const<$w>,)>());
            no!(Array::<Z, C>(x).map(|x| x));
            no!(Array::<Z, C>(x).into_scalar());
        }};
    }
    kinds!(H, H, 0);
    kinds!(3, I3, 1);
    kinds!(1 << 63, 2, 0);
    c.seen(&[1]);
}

/// Zero dimensions next to large ones.
fn zeros(c: &mut Case) {
    let r = c.rng.range(1, 6);
    let mut d: Vec<usize> = (0..r).map(|_| c.rng.range(0, 3)).collect();
    d[0] = 0;
    if r > 1 {
        d[1] = *c.rng.pick(&[0, 1, 1 << 20, 1 << 40, usize::MAX / 2, usize::MAX - 1]);
    }
    c.rng.shuffle(&mut d);
    // Only if the other sizes do not overflow.
    if d.iter().filter(|x| **x > 0).try_fold(1usize, |a, &x| a.checked_mul(x)).is_none_or(|x| x > isize::MAX as usize) {
        return;
    }
    c.log(|| format!("empty shape {d:?}"));
    let t: Tensor<String, DynRank> = Tensor::from_elem(&d[..], "x".to_string());
    let mut t = t;
    let mut calls = 0;
    let u: Tensor<u64, DynRank> = Tensor::from_fn(&d[..], |_| { calls += 1; 1 });
    assert!(calls == 0);
    obs(c, &t, &d);
    obs(c, &u, &d);
    as_rank!(u.remap::<DynRank, Strided>(), r, x => {
        obs(c, &x, &d);
        let y = x.reorder();
        let rev: Vec<usize> = d.iter().rev().copied().collect();
        obs(c, &y, &rev);
    });
    as_rank_t!(u, r, x => {
        obs(c, &x, &d);
        assert!(x.capacity() == 0 || x.capacity() < 100);
        let f = x.into_flat();
        obs(c, &f, &[0]);
    });
    let s = t.clone();
    assert!(s == t);
    obs(c, &s, &d);
    t.fill("y".into());
    let p = perm(&mut c.rng, r);
    let e: Vec<usize> = p.iter().map(|&i| d[i]).collect();
    obs(c, &t.permute(p), &e);
    let axis = c.rng.below(r);
    let mut e = d.clone();
    let k = e.remove(axis);
    if k > 0 {
        obs(c, &t.axis_at(axis, k - 1), &e);
        assert!(panics(|| t.axis_at(axis, k).len()));
    }
    let mid = c.rng.range(0, k.min(1 << 50));
    let (a, b) = t.split_axis_at(axis, mid);
    let (mut x, mut y) = (d.clone(), d.clone());
    x[axis] = mid;
    y[axis] = k - mid;
    obs(c, &a, &x);
    obs(c, &b, &y);
    let v: Tensor<u8, DynRank> = Tensor::from(Vec::new()).into_shape(&d[..]);
    obs(c, &v, &d);
    assert!(v.reshape(0usize).is_empty() && v.flatten().is_empty());
    c.seen(&[d.iter().fold(1, |a, &x| vh::rng::mix(a ^ x as u64))]);
}

/// Very long arrays of zero-sized elements.
fn long(c: &mut Case) {
    let r = c.rng.range(1, 5);
    let mut d = vec![1usize; r];
    let mut bits = c.rng.range(33, 62);
    for x in d.iter_mut() {
        let k = c.rng.range(0, bits);
        bits -= k;
        *x = (1usize << k).max(2) - c.rng.range(0, 1);
    }
    c.rng.shuffle(&mut d);
    let Some(n) = d.iter().try_fold(1usize, |a, &x| a.checked_mul(x)) else { return };
    if n > isize::MAX as usize {
        return;
    }
    c.log(|| format!("{n} zero-sized elements as {d:?}"));
    c.seen(&[d.iter().fold(1, |a, &x| vh::rng::mix(a ^ x as u64))]);
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(n) };
    let t: Tensor<(), DynRank> = Tensor::from(v).into_shape(&d[..]);
    fn look<S: Shape, L: Layout>(c: &mut Case, s: &Slice<(), S, L>, d: &[usize]) {
        chk_shape(s, d);
        mapping(s.mapping(), d);
        assert!(s.iter().len() == product(d) && s.expr().len() == product(d));
        if product(d) > 0 {
            let last: Vec<usize> = d.iter().map(|x| x - 1).collect();
            s[&last[..]];
            s[product(d) - 1];
            for i in 0..d.len() {
                let mut x = last.clone();
                x[i] += 1;
                assert!(panics(|| s[&x[..]]), "index {x:?} of {d:?} is accepted");
            }
        }
        assert!(panics(|| s[product(d)]), "index {} of {d:?} is accepted", product(d));
        c.ev("shape observations", 4);
    }
    look(c, &t, &d);
    let axis = c.rng.below(r);
    let mid = c.rng.range(0, d[axis]);
    let (a, b) = t.split_axis_at(axis, mid);
    let (mut x, mut y) = (d.clone(), d.clone());
    x[axis] = mid;
    y[axis] -= mid;
    look(c, &a, &x);
    look(c, &b, &y);
    let mut e = d.clone();
    e.remove(axis);
    look(c, &t.axis_at(axis, d[axis] - 1), &e);
    assert!(t.axis_expr(axis).len() == d[axis] && t.lanes(axis).len() == n / d[axis]);
    let p = perm(&mut c.rng, r);
    let e: Vec<usize> = p.iter().map(|&i| d[i]).collect();
    look(c, &t.permute(p), &e);
    look(c, &t.flatten(), &[n]);
    let t = as_rank_t!(t, r, x => { look(c, &x, &d); x.into_dyn() });
    let mut t = t;
    let (k, m) = (c.rng.range(0, d[0]), product(&d[1..]));
    t.truncate(k);
    let mut e = d.clone();
    e[0] = k;
    look(c, &t, &e);
    // Growing beyond the largest length.
    let mut u = t.clone_shape();
    let most = usize::MAX / m - k;
    let _ = most;
    let mut w: Vec<()> = Vec::new();
    unsafe { w.set_len(usize::MAX / m * m) };
    let mut g = e.clone();
    g[0] = usize::MAX / m;
    if k > 0 && g[0] > k {
        let mut big: Tensor<(), DynRank> = Tensor::from(w).into_shape(&g[..]);
        assert!(panics(|| u.append(&mut big)), "append to {e:?} of {g:?} is accepted");
        chk_shape(&u, &e);
        c.ev("overflowing sizes refused", 1);
    }
}

trait CloneShape {
    fn clone_shape(&self) -> Self;
}

impl CloneShape for Tensor<(), DynRank> {
    /// A copy without visiting the elements.
    fn clone_shape(&self) -> Self {
        let mut v: Vec<()> = Vec::new();
        unsafe { v.set_len(self.len()) };
        Tensor::from(v).into_shape(self.shape().clone())
    }
}

/// Dimension types.
fn dims(c: &mut Case) {
    fn one<D: Dim>(k: Option<usize>) {
        assert!(D::SIZE == k);
        assert!(D::default().size() == k.unwrap_or(0));
        for n in [0, 1, 2, 3, 7, usize::MAX] {
            let res = caught(|| D::from_size(n).size());
            assert!(res.is_ok() == k.is_none_or(|k| k == n) && res.is_err() | (res == Ok(n)), "size {n} for {k:?}");
        }
    }
    one::<usize>(None);
    one::<Const<0>>(Some(0));
    one::<Const<1>>(Some(1));
    one::<Const<7>>(Some(7));
    one::<Const<{ usize::MAX }>>(Some(usize::MAX));
    assert!(usize::from(Const::<5>) == 5);
    for n in 0..10 {
        assert!(Const::<5>::try_from(n) == if n == 5 { Ok(Const) } else { Err(n) });
    }
    assert!(dims_of(&Const::<4>.into_shape()) == [4] && dims_of(&6usize.into_shape()) == [6]);
    let a: Array<u8, (Const<2>, Const<0>)> = Array::from_elem(1);
    obs(c, &a, &[2, 0]);
    let a: Array<u8, (Const<2>, Const<3>, Const<1>)> = Array::from_elem(1);
    obs(c, &a, &[2, 3, 1]);
    let a: Array<u8, ()> = Array::from_elem(1);
    obs(c, &a, &[]);
    c.seen(&[1]);
}

/// Shapes of static type that result from operations.
fn results(c: &mut Case) {
    let a: Array<u32, (Const<2>, Const<3>, Const<4>)> = Array::from_fn(|i| (i[0] * 12 + i[1] * 4 + i[2]) as u32);
    let t: Tensor<u32, (U, Const<3>, U)> = Tensor::from_fn((2, Const::<3>, 4), |i| (i[0] * 12 + i[1] * 4 + i[2]) as u32);
    macro_rules! st {
        ($($e:expr, $s:ty, $d:expr;)*) => {$({
            fn shape<T, S: Shape, L: Layout>(s: &Slice<T, S, L>) -> S { s.shape().clone() }
            let x = $e;
            obs(c, &x, &$d);
            let s: $s = shape(&x);
            assert!(dims_of(&s) == $d);
            c.ev("static result shapes", 1);
        })*};
    }
    st! {
        a.permute((Const::<2>, Const::<0>, Const::<1>)), (Const<4>, Const<2>, Const<3>), [4, 2, 3];
        a.reorder(), (Const<4>, Const<3>, Const<2>), [4, 3, 2];
        t.reorder(), (U, Const<3>, U), [4, 3, 2];
        a.axis_at(Const::<1>, 2), (Const<2>, Const<4>), [2, 4];
        t.axis_at(Const::<0>, 1), (Const<3>, U), [3, 4];
        a.at(1), (Const<3>, Const<4>), [3, 4];
        t.at(1), (Const<3>, U), [3, 4];
        a.split_at(1).0, (U, Const<3>, Const<4>), [1, 3, 4];
        a.split_axis_at(Const::<2>, 3).1, (Const<2>, Const<3>, U), [2, 3, 1];
        t.view(.., .., 1..), (U, Const<3>, U), [2, 3, 3];
        a.view(.., 1, ..), (Const<2>, Const<4>), [2, 4];
        a.view(.., ..2, 3), (Const<2>, U), [2, 2];
        t.flatten(), (U,), [24];
        a.reshape((4, Const::<6>)), (U, Const<6>), [4, 6];
        a.reshape([!0, 8]), (U, U), [3, 8];
        (&a + &t).eval(), (Const<2>, Const<3>, Const<4>), [2, 3, 4];
        (&t + &a).eval(), (Const<2>, Const<3>, Const<4>), [2, 3, 4];
        (&t + &a.at(0)).eval(), (U, Const<3>, Const<4>), [2, 3, 4];
        a.axis_expr(Const::<1>).map(|v| v.len()).eval(), (Const<3>,), [3];
        a.lanes(Const::<1>).map(|v| v.len()).eval(), (Const<2>, Const<4>), [2, 4];
        a.outer_expr().map(|v| v[0]).eval(), (Const<2>,), [2];
        t.lanes(Const::<2>).map(|v| v.len()).eval(), (U, Const<3>), [2, 3];
    }
    c.seen(&[1]);
}

pub fn run(r: &mut Runner) {
    r.section("shape-types", 960, 24, shape_types);
    r.section("dynamic-rank", 400, 4, dyn_rank);
    r.section("views", 3000, 12, views);
    r.section("extreme-dyn", 2000, 8, |c| {
        let r = c.rng.range(0, 9);
        extreme::<DynRank>(c, r)
    });
    r.section("extreme-static", 1400, 7, |c| match c.index % 7 {
        0 => extreme::<()>(c, 0),
        1 => extreme::<(U,)>(c, 1),
        2 => extreme::<(U, U)>(c, 2),
        3 => extreme::<(U, U, U)>(c, 3),
        4 => extreme::<(U, U, U, U)>(c, 4),
        5 => extreme::<(U, U, U, U, U)>(c, 5),
        _ => extreme::<(U, U, U, U, U, U)>(c, 6),
    });
    r.section("overflow", 800, 4, overflow);
    r.fixed("const-overflow", 1, 1, const_overflow);
    r.section("zeros", 800, 6, zeros);
    r.section("long", 800, 6, long);
    r.fixed("dimensions", 1, 1, dims);
    r.fixed("results", 1, 1, results);
    r.large("views-large", 6, views);
}
