//! C19: debug output shows exactly the nested elements.

use std::cell::Cell;
use std::fmt::{self, Debug, Write};

use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{Array, Const, DynRank, IntoShape, Layout, Shape, Slice, Tensor, View, ViewMut};
use vh::chain::*;
use vh::track::{self, Tr, Track};
use vh::*;

vh::check_main!("C19", run);

type U = usize;

/// Nested lists of elements.
enum Nest<'a, T> {
    One(&'a T),
    List(Vec<Nest<'a, T>>),
}

impl<'a, T> Nest<'a, T> {
    fn new(dims: &[usize], v: &'a [T]) -> Self {
        match dims {
            [] => Nest::One(&v[0]),
            [d, rest @ ..] => {
                let n = product(rest);
                Nest::List((0..*d).map(|i| Nest::new(rest, &v[i * n..i * n + n])).collect())
            }
        }
    }
}

impl<T: Debug> Debug for Nest<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Nest::One(x) => x.fmt(f),
            Nest::List(v) => v.fmt(f),
        }
    }
}

/// Destination that fails after some bytes.
struct Limited(usize, String);

impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            // As much as fits, so that the granularity of the writes does not matter.
            let k = (0..=self.0).rev().find(|&k| s.is_char_boundary(k)).unwrap();
            self.1.push_str(&s[..k]);
            self.0 = 0;
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}

/// All forms of output of `x` against those of the nested lists.
#[track_caller]
fn same<T: Debug, X: Debug + ?Sized>(c: &mut Case, x: &X, dims: &[usize], vals: &[T], what: &str) {
    let w = &Nest::new(dims, vals);
    let mut n = 0;
    let mut text = String::new();
    macro_rules! forms {
        ($($f:literal),*) => {{$(
            let (got, want) = (format!($f, x), format!($f, w));
            assert!(got == want, "{what} of {dims:?} prints {got} instead of {want} with {}", $f);
            n += 1;
            if $f == "{:?}" { text = want; }
        )*}};
    }
    forms!("{:?}", "{:#?}");
    match c.rng.below(4) {
        0 => forms!("{:x?}", "{:#X?}", "{:#06x?}"),
        1 => forms!("{:5?}", "{:<7?}", "{:^9?}"),
        2 => forms!("{:+?}", "{:.2?}", "{:08.3?}"),
        _ => forms!("{:_>6?}", "{:#10?}", "{:+09.1?}"),
    }
    c.ev("outputs compared", n);

    // A destination that fails.
    let k = c.rng.range(0, text.len() + 1);
    let (mut a, mut b) = (Limited(k, String::new()), Limited(k, String::new()));
    let (ra, rb) = (write!(a, "{x:?}"), write!(b, "{w:?}"));
    assert!(ra == rb, "{what} of {dims:?}: error {ra:?} instead of {rb:?} with room for {k} of {}", text.len());
    assert!(a.1 == b.1, "{what} of {dims:?}: {:?} written instead of {:?}", a.1, b.1);
    let (mut a, mut b) = (Limited(k, String::new()), Limited(k, String::new()));
    let (ra, rb) = (write!(a, "{x:#?}"), write!(b, "{w:#?}"));
    assert!(ra == rb && a.1 == b.1, "{what} of {dims:?}: pretty form with room for {k}");
    c.ev("limited destinations", 2);
    c.ev("refused outputs", ra.is_err() as usize);
}

trait DebugEl: Clone + Debug + PartialEq + 'static {
    fn mk(k: u64) -> Self;
}

impl DebugEl for u64 {
    fn mk(k: u64) -> u64 {
        k * 37
    }
}

impl DebugEl for f64 {
    fn mk(k: u64) -> f64 {
        k as f64 * 1.375 - 20.0
    }
}

impl DebugEl for i16 {
    fn mk(k: u64) -> i16 {
        k as i16 - 30
    }
}

impl DebugEl for String {
    fn mk(k: u64) -> String {
        format!("\"{k}\n")
    }
}

impl DebugEl for (u8, Option<Vec<u8>>) {
    fn mk(k: u64) -> Self {
        (k as u8, (k % 3 != 0).then(|| vec![k as u8; k as usize % 3]))
    }
}

impl DebugEl for Z {
    fn mk(_: u64) -> Z {
        Z
    }
}

fn output<T: DebugEl>(c: &mut Case) {
    let r = c.rng.range(0, 6);
    let cap = c.cap(40);
    let d = c.rng.dims(r, cap);
    let v: Vec<T> = (0..product(&d) as u64).map(T::mk).collect();
    c.log(|| format!("print {d:?} of {}", std::any::type_name::<T>()));
    let mut s = Strider::new(c, &d, v.clone(), || T::mk(9999));
    same(c, &s.view(), &d, &v, "view of dynamic rank");
    same(c, &*s.view(), &d, &v, "slice of dynamic rank");
    same(c, &s.view_mut(), &d, &v, "mutable view of dynamic rank");
    as_rank!(s.view(), r, x => {
        same(c, &x, &d, &v, "view");
        same(c, &*x, &d, &v, "slice");
        same(c, &(&x, 1).0, &d, &v, "reference");
    });
    as_rank!(s.view_mut(), r, x => same(c, &x, &d, &v, "mutable view"));
    let t: Tensor<T, DynRank> = Tensor::from(v.clone()).into_shape(&d[..]);
    same(c, &t, &d, &v, "tensor of dynamic rank");
    as_rank_t!(t, r, x => {
        same(c, &x, &d, &v, "tensor");
        same(c, &*x, &d, &v, "dense slice");
        same(c, &x.expr(), &d, &v, "dense view");
    });
    // Arrays inside of other values.
    let t: Tensor<T, DynRank> = Tensor::from(v.clone()).into_shape(&d[..]);
    let w = Nest::new(&d, &v);
    assert!(format!("{:?}", Some(&t)) == format!("{:?}", Some(&w)));
    assert!(format!("{:#?}", vec![(&t, 1)]) == format!("{:#?}", vec![(&w, 1)]));
    c.seen(&[vh::rng::hash_str(std::any::type_name::<T>()), d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
}

fn output_large(c: &mut Case) {
    let r = c.rng.range(1, 4);
    let d = c.rng.dims(r, 40);
    let v: Vec<u64> = (0..product(&d) as u64).collect();
    let w = Nest::new(&d, &v);
    let s = Strider::new(c, &d, v.clone(), || 9999);
    let t: Tensor<u64, DynRank> = Tensor::from(v.clone()).into_shape(&d[..]);
    let (a, b) = (format!("{w:?}"), format!("{w:#x?}"));
    assert!(format!("{:?}", s.view()) == a && format!("{t:?}") == a, "output of {d:?} differs");
    assert!(format!("{:#x?}", s.view()) == b && format!("{t:#x?}") == b, "pretty output of {d:?} differs");
    c.ev("outputs compared", 4);
    c.seen(&d.iter().map(|&x| x as u64).collect::<Vec<_>>());
}

/// Arrays of constant size, and mixed shapes.
fn constant(c: &mut Case) {
    macro_rules! arr {
        ($($s:ty, $d:expr;)*) => {$({
            let d = $d;
            let mut k = 0;
            let a: Array<u64, $s> = Array::from_fn(|_| { k += 1; u64::mk(k) });
            let v = a.to_vec();
            same(c, &a, &d, &v, "array");
            same(c, &*a, &d, &v, "slice of an array");
            same(c, &a.expr(), &d, &v, "view of an array");
            let t: Tensor<u64, $s> = Tensor::from(a);
            same(c, &t, &d, &v, "tensor of constant shape");
            c.seen(&[d.len() as u64, product(&d) as u64]);
        })*};
    }
    arr! {
        (), [];
        (Const<4>,), [4];
        (Const<0>,), [0];
        (Const<2>, Const<3>), [2, 3];
        (Const<2>, Const<0>), [2, 0];
        (Const<0>, Const<2>), [0, 2];
        (Const<2>, Const<1>, Const<3>), [2, 1, 3];
        (Const<2>, Const<1>, Const<3>, Const<1>), [2, 1, 3, 1];
        (Const<1>, Const<2>, Const<1>, Const<3>, Const<2>), [1, 2, 1, 3, 2];
    }
    let a: Array<Array<u8, (Const<2>,)>, (Const<2>,)> = Array::from_fn(|i| Array([i[0] as u8, 7]));
    assert!(format!("{a:?}") == "[[0, 7], [1, 7]]");
    let t: Tensor<u8, (U, Const<2>)> = Tensor::from_fn((3, Const::<2>), |i| (i[0] + 10 * i[1]) as u8);
    same(c, &t, &[3, 2], &t.to_vec(), "mixed tensor");
}

/// Elements that fail or panic, or that count their calls.
fn failing(c: &mut Case) {
    thread_local! { static CALLS: Cell<usize> = const { Cell::new(0) }; static AT: Cell<usize> = const { Cell::new(0) }; }
    #[derive(Clone)]
    struct F(usize);
    impl Debug for F {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            CALLS.with(|x| x.set(x.get() + 1));
            if self.0 == AT.get() {
                return Err(fmt::Error);
            }
            write!(f, "F{}", self.0)
        }
    }
    let r = c.rng.range(0, 5);
    let cap = c.cap(30);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let v: Vec<F> = (0..n).map(F).collect();
    let at = c.rng.range(0, n);
    AT.set(at);
    let s = Strider::new(c, &d, v.clone(), || F(usize::MAX));
    c.log(|| format!("print {d:?}, element {at} fails"));
    for pretty in [false, true] {
        CALLS.set(0);
        let mut out = String::new();
        let res = as_rank!(s.view(), r, x => if pretty { write!(out, "{x:#?}") } else { write!(out, "{x:?}") });
        let k = CALLS.get();
        assert!(res.is_err() == (at < n), "failure of element {at} of {n}: {res:?}");
        assert!(k == (at + 1).min(n), "{k} elements printed, the one at {at} of {n} fails");
        let mut want = String::new();
        let w = Nest::new(&d, &v);
        let r2 = if pretty { write!(want, "{w:#?}") } else { write!(want, "{w:?}") };
        assert!(r2 == res && want == out, "{out:?} written instead of {want:?}");
    }
    c.ev("failing elements", 2);
    c.seen(&[at as u64, d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
}

/// Shapes, mappings and expressions: printing changes nothing.
fn others(c: &mut Case) {
    let r = c.rng.range(0, 5);
    let cap = c.cap(30);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let s = Strider::make(c, &d, 0);
    let v: Vec<u64> = s.inside().into_iter().copied().collect();
    c.log(|| format!("print expressions of {d:?}"));
    fn shown<X: Debug>(c: &mut Case, x: &X) -> String {
        let t = format!("{x:?}");
        assert!(t == format!("{x:?}"), "the second output differs from the first one: {t}");
        let _ = format!("{x:#?}");
        c.ev("expressions printed", 1);
        t
    }
    fn go<S: Shape, L: Layout>(c: &mut Case, s: &Slice<u64, S, L>, v: &[u64]) {
        macro_rules! ex {
            ($($e:expr => $w:expr;)*) => {$({
                let e = $e;
                shown(c, &e);
                let shape = e.shape().clone();
                let got: Vec<_> = e.into_iter().collect();
                assert!(got == $w, "{}: elements differ after printing", stringify!($e));
                shown(c, &shape);
            })*};
        }
        ex! {
            s.expr().copied() => v;
            s.expr().cloned() => v;
            s.expr().map(|x| x ^ 1) => v.iter().map(|x| x ^ 1).collect::<Vec<_>>();
            s.expr().enumerate() => v.iter().enumerate().collect::<Vec<_>>();
            s.expr().zip(s) => v.iter().zip(v).collect::<Vec<_>>();
            s.expr().zip(expr::fill(4u8)) => v.iter().map(|x| (x, 4)).collect::<Vec<_>>();
            expr::from_elem(s.shape().clone(), 5u8) => vec![5; v.len()];
        }
        let mut k = 0;
        let e = expr::from_fn(s.shape().clone(), |_| {
            k += 1;
            k
        });
        shown(c, &e);
        assert!(e.into_iter().eq(1..=v.len()), "a closure was called for printing");
        let mut k = 0;
        let e = s.expr().zip(expr::fill_with(|| {
            k += 1;
            k
        }));
        shown(c, &e);
        assert!(e.into_iter().map(|x| x.1).eq(1..=v.len()), "a closure was called for printing");
        shown(c, s.mapping());
        let it = s.iter();
        let _ = format!("{it:?}");
        assert!(it.copied().eq(v.iter().copied()));
    }
    go(c, &s.view(), &v);
    as_rank!(s.view(), r, x => go(c, &x, &v));
    let t: Tensor<u64, DynRank> = Tensor::from(v.clone()).into_shape(&d[..]);
    go(c, &t, &v);
    as_rank_t!(t, r, x => go(c, &x, &v));
    if r > 0 {
        let x = s.view();
        let axis = c.rng.below(r);
        let e = x.axis_expr(axis);
        shown(c, &e);
        assert!(e.into_iter().count() == d[axis]);
        let e = x.lanes(axis);
        shown(c, &e);
        assert!(e.into_iter().flatten().count() == if d[axis] == 0 { 0 } else { n });
    }
    // Consuming expressions: printing neither consumes nor copies elements.
    let v: Vec<Tr> = (0..n as u32).map(Tr::mk).collect();
    let mut t: Tensor<Tr, DynRank> = Tensor::from(v).into_shape(&d[..]);
    let w = t.to_vec();
    let before = track::clones();
    if r > 0 {
        let k = c.rng.range(0, d[0]);
        {
            let e = t.drain(k..);
            shown(c, &e);
        }
        let m = k * product(&d[1..]);
        assert!(t.len() == m && t.iter().zip(&w).all(|(a, b)| a == b));
    }
    let m = t.len();
    let e = t.into_expr();
    shown(c, &e);
    shown(c, e.shape());
    let got: Vec<Tr> = e.into_iter().collect();
    assert!(got.len() == m && got.iter().zip(&w).all(|(a, b)| a == b));
    assert!(track::clones() == before, "printing copies elements");
    drop((got, w));
    track::check_errors();
    track::check_none();
    // Shapes show their sizes.
    let x: DynRank = d.clone().into_shape();
    let text = shown(c, &x);
    for k in &d {
        assert!(text.contains(&k.to_string()), "shape {d:?} prints {text}");
    }
    assert!(x.dims() == d);
    shown(c, &Const::<5>);
    shown(c, &mdarray::step(1..4, 2));
    c.seen(&[d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
    let _: Option<(View<u8>, ViewMut<u8>)> = None;
}

pub fn run(r: &mut Runner) {
    r.section("output-u64", 400, 3, output::<u64>);
    r.section("output-f64", 200, 2, output::<f64>);
    r.section("output-i16", 200, 2, output::<i16>);
    r.section("output-string", 200, 2, output::<String>);
    r.section("output-tuple", 200, 2, output::<(u8, Option<Vec<u8>>)>);
    r.section("output-zst", 100, 1, output::<Z>);
    r.section("constant", 20, 1, constant);
    r.section("failing", 400, 4, failing);
    r.section("others", 400, 4, others);
    r.large("output-large", 4, output_large);
    r.large("failing-large", 2, failing);
}
