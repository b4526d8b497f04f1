//! C18: sharing across threads is exactly as safe as for the elements.

use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{mpsc, Barrier, Mutex, MutexGuard};
use std::thread;

use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{Array, Const, Dense, DynRank, Layout, Shape, Slice, Strided, Tensor, View, ViewMut};
use vh::chain::*;
use vh::*;

vh::check_main!("C18", run);

type U = usize;

/// Whether a type is `Send` or `Sync`, decided without requiring it.
struct Probe<T: ?Sized>(PhantomData<T>);

trait Neither {
    const SEND: bool = false;
    const SYNC: bool = false;
}

impl<T: ?Sized> Neither for Probe<T> {}

struct SendProbe<T: ?Sized>(PhantomData<T>);
struct SyncProbe<T: ?Sized>(PhantomData<T>);

impl<T: ?Sized> Neither for SendProbe<T> {}
impl<T: ?Sized> Neither for SyncProbe<T> {}

impl<T: ?Sized + Send> SendProbe<T> {
    const SEND: bool = true;
}

impl<T: ?Sized + Sync> SyncProbe<T> {
    const SYNC: bool = true;
}

fn markers(c: &mut Case) {
    let _ = <Probe<u8> as Neither>::SEND;
    macro_rules! row {
        // Both follow the element (`own`), both need `Sync` (`shared`), or `&mut`-like (`own`).
        ($el:ty, $es:expr, $ey:expr; $(own $o:ty;)* $(shared $s:ty;)*) => {
            $(row!(@ $o, $es, $ey);)*
            $(row!(@ $s, $ey, $ey);)*
        };
        (@ $t:ty, $s:expr, $y:expr) => {{
            let (s, y) = (SendProbe::<$t>::SEND, SyncProbe::<$t>::SYNC);
            c.log(|| format!("{}: Send {s}, Sync {y}", std::any::type_name::<$t>()));
            assert!(s == $s, "{} can be sent: {s}, expected {}", std::any::type_name::<$t>(), $s);
            assert!(y == $y, "{} can be shared: {y}, expected {}", std::any::type_name::<$t>(), $y);
            c.ev("marker probes", 2);
            c.seen(&[vh::rng::hash_str(std::any::type_name::<$t>()), s as u64, y as u64]);
        }};
    }
    macro_rules! table {
        ($($e:ty, $s:expr, $y:expr;)*) => {$({
            row!(@ $e, $s, $y);
            row! {
                $e, $s, $y;
                own Tensor<$e>;
                own Tensor<$e, ()>;
                own Tensor<$e, (U,)>;
                own Tensor<$e, (U, U)>;
                own Tensor<$e, (Const<3>, U)>;
                own Array<$e, ()>;
                own Array<$e, (Const<3>,)>;
                own Array<$e, (Const<2>, Const<3>)>;
                own Slice<$e>;
                own Slice<$e, (U, U), Strided>;
                own &'static mut Slice<$e>;
                own &'static mut Slice<$e, (U,), Strided>;
                own ViewMut<'static, $e>;
                own ViewMut<'static, $e, (), Strided>;
                own ViewMut<'static, $e, (U,)>;
                own ViewMut<'static, $e, (U, Const<3>), Strided>;
                own <ViewMut<'static, $e, (U, U)> as IntoIterator>::IntoIter;
                own <ViewMut<'static, $e, DynRank, Strided> as IntoIterator>::IntoIter;
                own <Tensor<$e> as IntoExpression>::IntoExpr;
                own <Tensor<$e, (U, U)> as IntoIterator>::IntoIter;
                own <Array<$e, (Const<3>,)> as IntoExpression>::IntoExpr;
                own <Array<$e, (Const<2>, Const<3>)> as IntoIterator>::IntoIter;
                own expr::IntoExpr<expr::Drain<'static, $e, (U, U)>>;
                own <expr::IntoExpr<expr::Drain<'static, $e, DynRank>> as IntoIterator>::IntoIter;
                own expr::AxisExprMut<'static, $e, (U, U), Dense, Const<0>>;
                own expr::AxisExprMut<'static, $e, DynRank, Strided, usize>;
                own expr::LanesMut<'static, $e, (U, U), Dense, Const<1>>;
                own expr::LanesMut<'static, $e, DynRank, Strided, usize>;
                own expr::Iter<expr::LanesMut<'static, $e, (U, U), Dense, Const<1>>>;
                own expr::Iter<expr::AxisExprMut<'static, $e, (U, U), Dense, Const<1>>>;
                own expr::Fill<$e>;
                own expr::FromElem<$e, (U, U)>;
                own expr::Enumerate<ViewMut<'static, $e, (U, U)>>;
                own expr::Zip<ViewMut<'static, $e, (U, U)>, expr::IntoExpr<expr::Drain<'static, $e, (U, U)>>>;
                shared &'static Slice<$e>;
                shared &'static Tensor<$e, (U,)>;
                shared &'static Slice<$e, (U, U), Strided>;
                shared View<'static, $e>;
                shared View<'static, $e, (), Strided>;
                shared View<'static, $e, (U,)>;
                shared View<'static, $e, (U, Const<3>), Strided>;
                shared <View<'static, $e, (U, U)> as IntoIterator>::IntoIter;
                shared <View<'static, $e, DynRank, Strided> as IntoIterator>::IntoIter;
                shared expr::AxisExpr<'static, $e, (U, U), Dense, Const<0>>;
                shared expr::AxisExpr<'static, $e, DynRank, Strided, usize>;
                shared expr::Lanes<'static, $e, (U, U), Dense, Const<1>>;
                shared expr::Lanes<'static, $e, DynRank, Strided, usize>;
                shared expr::Iter<expr::Lanes<'static, $e, (U, U), Dense, Const<1>>>;
                shared expr::Cloned<View<'static, $e, (U, U)>>;
                shared expr::Copied<View<'static, $e, (U, U)>>;
                shared expr::Enumerate<View<'static, $e, (U, U)>>;
                shared expr::Zip<View<'static, $e, (U, U)>, View<'static, $e, DynRank>>;
            }
        })*};
    }
    table! {
        u8, true, true;
        String, true, true;
        AtomicUsize, true, true;
        Cell<u8>, true, false;
        Box<Cell<u32>>, true, false;
        mpsc::Receiver<u8>, true, false;
        MutexGuard<'static, u8>, false, true;
        Rc<u8>, false, false;
        *const u8, false, false;
    }
}

const THREADS: usize = 4;

/// Collects failures of threads (a panic would be reported without its message).
#[derive(Default)]
struct Fails(Mutex<Vec<String>>);

impl Fails {
    fn run<F: FnOnce()>(&self, f: F) {
        if let Err(e) = caught(f) {
            self.0.lock().unwrap().push(e);
        }
    }

    #[track_caller]
    fn check(self) {
        let v = self.0.into_inner().unwrap();
        assert!(v.is_empty(), "in a thread: {}", v.join("; "));
    }
}

/// Order in which threads finish their parts, as evidence of interleavings.
struct Order(Vec<AtomicUsize>, AtomicUsize);

impl Order {
    fn new(n: usize) -> Self {
        Order((0..n).map(|_| AtomicUsize::new(0)).collect(), AtomicUsize::new(0))
    }

    fn done(&self, id: usize) {
        // Relaxed: does not order anything for the race detectors.
        let k = self.1.fetch_add(1, Relaxed);
        if let Some(x) = self.0.get(k) {
            x.store(id + 1, Relaxed);
        }
    }

    fn sig(&self) -> u64 {
        self.0.iter().fold(7, |a, x| vh::rng::mix(a ^ x.load(Relaxed) as u64))
    }
}

fn work(x: u64, id: usize) -> u64 {
    x.wrapping_mul(3) ^ (id as u64 + 1)
}

/// Works on a part of an array through one of several access paths, changing each element once.
fn process<S: Shape, L: Layout>(how: usize, mut v: ViewMut<u64, S, L>, id: usize) {
    match how % 6 {
        0 => v.iter_mut().for_each(|x| *x = work(*x, id)),
        1 => {
            for k in 0..v.len() {
                v[k] = work(v[k], id);
            }
        }
        2 => {
            let w = v.expr().map(|&x| work(x, id)).iter_vec();
            let mut k = 0;
            v.expr_mut().for_each(|x| {
                *x = w[k];
                k += 1;
            });
        }
        3 => {
            if v.rank() > 0 {
                let d: ViewMut<u64, DynRank, Strided> = v.into_mapping();
                let mut d = d;
                for mut x in d.axis_expr_mut(0) {
                    x.iter_mut().for_each(|x| *x = work(*x, id));
                }
            } else {
                v.iter_mut().for_each(|x| *x = work(*x, id));
            }
        }
        4 => {
            let mut d: ViewMut<u64, DynRank, Strided> = v.into_mapping();
            if d.rank() > 0 {
                let axis = d.rank() - 1;
                for mut x in d.lanes_mut(axis) {
                    for k in 0..x.len() {
                        x[k] = work(x[k], id);
                    }
                }
            } else {
                d.iter_mut().for_each(|x| *x = work(*x, id));
            }
        }
        _ => {
            let t: Tensor<u64, DynRank> = {
                let d: View<u64, DynRank, Strided> = v.remap();
                d.to_tensor()
            };
            let mut d: ViewMut<u64, DynRank, Strided> = v.into_mapping();
            d.assign(t.map(|x| work(x, id)));
        }
    }
}

trait IterVec {
    fn iter_vec(self) -> Vec<u64>;
}

impl<I: IntoIterator<Item = u64>> IterVec for I {
    fn iter_vec(self) -> Vec<u64> {
        self.into_iter().collect()
    }
}

/// Runs the parts on threads that start together, distributed round-robin.
fn on_threads<P: Send, F: Fn(P, usize) + Sync>(c: &mut Case, parts: Vec<(usize, P)>, f: F) {
    let n = parts.len();
    let mut bins: Vec<Vec<(usize, P)>> = (0..THREADS.min(n.max(1))).map(|_| Vec::new()).collect();
    let k = bins.len();
    for (i, p) in parts.into_iter().enumerate() {
        bins[i % k].push(p);
    }
    let order = Order::new(n);
    let fails = Fails::default();
    let start = Barrier::new(k);
    thread::scope(|s| {
        for (t, b) in bins.into_iter().enumerate() {
            let (order, fails, start, f) = (&order, &fails, &start, &f);
            s.spawn(move || {
                start.wait();
                for (id, p) in b {
                    fails.run(|| f(p, id));
                    order.done(t);
                }
            });
        }
    });
    fails.check();
    c.ev("parts processed by threads", n);
    c.ev("threads", k);
    c.seen(&[order.sig(), n as u64]);
}

type Part<'a> = (usize, (ViewMut<'a, u64, DynRank, Strided>, MV));

/// Disjoint mutable parts made by splitting.
fn splits(c: &mut Case) {
    let cap = if c.small { 24 } else { 600 };
    let r = c.rng.range(1, 4);
    let d = c.rng.dims_pos(r, cap);
    let n = product(&d);
    let mut t = tens::<u64>(&d);
    let mut want = t.to_vec();
    c.log(|| format!("split {d:?} and work on the parts in threads"));
    let steps = c.rng.range(0, 2);
    let how = c.rng.below(6);
    {
        // An arbitrary view first, so that the layout is arbitrary.
        let (v, m) = chain_mut(c, t.expr_mut().into_mapping(), MV::dense(&d), steps);
        let mut parts: Vec<(ViewMut<u64, DynRank, Strided>, MV)> = vec![(v, m)];
        for _ in 0..c.rng.range(1, 7) {
            let i = c.rng.below(parts.len());
            let (v, m) = parts.swap_remove(i);
            if m.rank() == 0 {
                parts.push((v, m));
                continue;
            }
            let axis = c.rng.below(m.rank());
            let mid = c.rng.range(0, m.dims[axis]);
            let (a, b) = v.into_split_axis_at(axis, mid);
            let (p, q) = m.split(axis, mid).unwrap();
            parts.push((a, p));
            parts.push((b, q));
        }
        let mut seen = vec![false; n];
        for (id, (_, m)) in parts.iter().enumerate() {
            for &i in &m.idx {
                assert!(!seen[i], "model");
                seen[i] = true;
                want[i] = work(want[i], id);
            }
        }
        let parts: Vec<Part> = parts.into_iter().enumerate().collect();
        on_threads(c, parts, |(v, m), id| {
            assert!(v.len() == m.len());
            process(how + id, v, id)
        });
    }
    assert!(t.to_vec() == want, "result of the threads differs for {d:?}");
    c.ev("elements compared with the sequential result", n);
}

/// Disjoint mutable parts made by iterating over an axis or over lanes.
fn items(c: &mut Case) {
    let cap = if c.small { 20 } else { 400 };
    let r = c.rng.range(1, 4);
    let d = c.rng.dims_pos(r, cap);
    let mut s = Strider::make(c, &d, 0);
    let axis = c.rng.below(r);
    let kind = c.rng.below(7);
    let how = c.rng.below(6);
    c.log(|| format!("{d:?} axis {axis} kind {kind}"));
    let mut want = s.base.to_vec();
    let m = s.m.clone();
    let list: Vec<MV> = match kind {
        0 | 4 => m.subarrays(axis),
        1 | 5 => m.lanes(axis),
        2 => m.subarrays(0),
        3 => m.idx.iter().map(|&i| MV { dims: vec![], idx: vec![i] }).collect(),
        _ => m.lanes(r - 1),
    };
    for (id, p) in list.iter().enumerate() {
        for &i in &p.idx {
            want[i] = work(want[i], id);
        }
    }
    {
        let mut v = s.view_mut();
        macro_rules! go {
            ($r:ty, $w:ident => $it:expr) => {{
                let mut $w = v.into_mapping::<$r, Strided>();
                go!($it)
            }};
            ($it:expr) => {{
                let parts: Vec<_> = $it.into_iter().enumerate().collect();
                assert!(parts.len() == list.len(), "{} parts instead of {}", parts.len(), list.len());
                on_threads(c, parts, |v, id| process(how + id, v, id));
            }};
        }
        match kind {
            0 => go!(v.axis_expr_mut(axis)),
            1 => go!(v.lanes_mut(axis)),
            2 => go!(v.outer_expr_mut()),
            3 => {
                let parts: Vec<_> = v.iter_mut().enumerate().collect();
                assert!(parts.len() == list.len());
                on_threads(c, parts, |x: &mut u64, id| *x = work(*x, id));
            }
            4 => match (axis, r) {
                (0, 2) => go!(mdarray::Rank<2>, w => w.axis_expr_mut(Const::<0>)),
                (1, 2) => go!(mdarray::Rank<2>, w => w.axis_expr_mut(Const::<1>)),
                _ => go!(v.axis_expr_mut(axis)),
            },
            5 => match (axis, r) {
                (0, 2) => go!(mdarray::Rank<2>, w => w.cols_mut()),
                (1, 2) => go!(mdarray::Rank<2>, w => w.rows_mut()),
                _ => go!(v.lanes_mut(axis)),
            },
            _ => match r {
                1 => go!(mdarray::Rank<1>, w => w.rows_mut()),
                2 => go!(mdarray::Rank<2>, w => w.rows_mut()),
                _ => go!(v.lanes_mut(r - 1)),
            },
        }
    }
    assert!(s.base.to_vec() == want, "result of the threads differs for {d:?}, axis {axis}, kind {kind}");
    s.check_rest();
    c.ev("elements compared with the sequential result", want.len());
}

/// An iterator that is advanced by several threads in turn and lazily gives out disjoint parts
/// while earlier ones are still in use.
fn handed_over(c: &mut Case) {
    let cap = if c.small { 20 } else { 300 };
    let r = c.rng.range(1, 3);
    let d = c.rng.dims_pos(r, cap);
    let mut s = Strider::make(c, &d, 0);
    let axis = c.rng.below(r);
    let lanes = c.rng.chance(1, 2);
    let m = s.m.clone();
    let mut want = s.base.to_vec();
    for (id, p) in if lanes { m.lanes(axis) } else { m.subarrays(axis) }.iter().enumerate() {
        for &i in &p.idx {
            want[i] = work(want[i], id);
        }
    }
    c.log(|| format!("{d:?} axis {axis} lanes {lanes}, parts fetched by the threads"));
    let fails = Fails::default();
    let start = Barrier::new(THREADS);
    let order = Order::new(64);
    {
        let mut v = s.view_mut();
        macro_rules! go {
            ($it:expr) => {{
                let it = Mutex::new($it.into_iter().enumerate());
                thread::scope(|s| {
                    for t in 0..THREADS {
                        let (it, fails, start, order) = (&it, &fails, &start, &order);
                        s.spawn(move || {
                            start.wait();
                            fails.run(|| loop {
                                let x = it.lock().unwrap().next();
                                let Some((id, v)) = x else { break };
                                process(t + id, v, id);
                                order.done(t);
                            })
                        });
                    }
                });
            }};
        }
        if lanes { go!(v.lanes_mut(axis)) } else { go!(v.axis_expr_mut(axis)) }
    }
    fails.check();
    assert!(s.base.to_vec() == want, "result of the threads differs for {d:?}, axis {axis}, lanes {lanes}");
    s.check_rest();
    c.ev("iterators advanced by several threads", 1);
    c.ev("elements compared with the sequential result", want.len());
    c.seen(&[order.sig()]);
}

/// Concurrent readers of the same elements.
fn readers(c: &mut Case) {
    let cap = if c.small { 20 } else { 300 };
    let r = c.rng.range(0, 4);
    let d = c.rng.dims_pos(r, cap);
    let n = product(&d);
    let vals: Vec<String> = vals(n, 0);
    let s = Strider::new(c, &d, vals.clone(), || "-".to_string());
    let v = s.view();
    c.log(|| format!("read {d:?} in threads"));
    let parts: Vec<(usize, SView<String>)> = (0..2 * THREADS).map(|i| (i, v.clone())).collect();
    let shared = &s;
    on_threads(c, parts, |v, id| {
        match id % 8 {
            0 => assert!(v.iter().eq(vals.iter())),
            1 => assert!(v.to_vec() == vals),
            2 => assert!(v.cloned().iter_vec() == vals),
            3 => (0..n).for_each(|i| assert!(v[i] == vals[i])),
            4 => assert!(v == shared.view()),
            5 => assert!(n == 0 || v.contains(&vals[n / 2])),
            6 => {
                let mut k = 0;
                v.expr().zip(&shared.view()).for_each(|(a, b)| {
                    assert!(std::ptr::eq(a, b) && *a == vals[k]);
                    k += 1;
                })
            }
            _ => assert!(shared.view().to_tensor().into_vec() == vals),
        };
    });
    // An iterator that is moved to another thread halfway.
    let mut it = v.iter();
    let k = c.rng.range(0, n);
    for x in &vals[..k] {
        assert!(it.next() == Some(x));
    }
    let rest = thread::scope(|s| s.spawn(move || it.map(|x| x.len()).sum::<usize>()).join()).expect("thread");
    assert!(rest == vals[k..].iter().map(|x| x.len()).sum());
}

impl IterVec2 for expr::Cloned<SView<'_, String>> {
    fn iter_vec(self) -> Vec<String> {
        self.into_iter().collect()
    }
}

trait IterVec2 {
    fn iter_vec(self) -> Vec<String>;
}

/// Owned arrays and consuming iterators that move between threads.
fn moved(c: &mut Case) {
    let cap = if c.small { 16 } else { 100 };
    let n = c.rng.range(1, 6);
    let (tx, rx) = mpsc::channel::<(usize, Tensor<String, (U, U)>)>();
    let (ty, ry) = mpsc::channel();
    let mut sent = Vec::new();
    let mut ts = Vec::new();
    for i in 0..n {
        let d = c.rng.dims_pos(2, cap);
        let v: Vec<String> = vals(product(&d), 100 * i as u64);
        let t: Tensor<String, (U, U)> = Tensor::from(v.clone()).into_shape([d[0], d[1]]);
        sent.push((d, v));
        ts.push(t);
    }
    c.log(|| format!("{n} tensors moved between threads"));
    thread::scope(|s| {
        s.spawn(move || {
            for (i, t) in ts.into_iter().enumerate() {
                tx.send((i, t)).unwrap();
            }
        });
        s.spawn(move || {
            for (i, mut t) in rx {
                let k = t.dim(0) / 2;
                // Part of the elements leaves through a drain, part through an iterator.
                let head: Vec<String> = t.drain(..k).into_iter().collect();
                t.expand(View::<String, (U, U)>::from(&[] as &[[String; 0]; 0]).into_dyn_rows(t.dim(1)));
                ty.send((i, head, t.into_iter())).unwrap();
            }
        });
        let mut got = 0;
        for (i, mut head, rest) in ry {
            head.extend(rest);
            assert!(head == sent[i].1, "tensor {i} differs after moving between threads");
            got += 1;
        }
        assert!(got == n);
    });
    c.ev("arrays moved between threads", n);
    c.seen(&[n as u64]);
}

trait Rows<'a> {
    fn into_dyn_rows(self, n: usize) -> Tensor<String, (U, U)>;
}

impl<'a> Rows<'a> for View<'a, String, (U, U)> {
    /// No rows of the given length.
    fn into_dyn_rows(self, n: usize) -> Tensor<String, (U, U)> {
        Tensor::from(self.to_vec()).into_shape([0, n])
    }
}

/// A fixed program on arrays of its own, with a digest of everything that it observes.
fn program(seed: u64) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut r = vh::rng::Rng::new(seed);
    let mut h = DefaultHasher::new();
    let rank = r.range(1, 4);
    let d: Vec<usize> = (0..rank).map(|_| r.range(1, 3)).collect();
    let mut k = seed;
    let t: Tensor<u64, DynRank> = expr::from_fn(&d[..], |i| {
        k = vh::rng::mix(k);
        i.hash(&mut h);
        k
    })
    .eval();
    t.hash(&mut h);
    // Permuted, reshaped and cut views.
    let mut p: Vec<usize> = (0..rank).collect();
    for i in (1..rank).rev() {
        p.swap(i, r.below(i + 1));
    }
    let v = t.permute(&p[..]);
    v.hash(&mut h);
    for i in 0..rank {
        (v.dim(i), v.stride(i)).hash(&mut h);
    }
    let axis = r.below(rank);
    for x in v.axis_expr(axis) {
        x.hash(&mut h);
    }
    for x in v.lanes(axis) {
        x.to_vec().hash(&mut h);
    }
    let (a, b) = v.split_axis_at(axis, v.dim(axis) / 2);
    (a.to_vec(), b.to_vec()).hash(&mut h);
    t.flatten().view(mdarray::step(.., -2)).hash(&mut h);
    t.reshape([!0, 1]).rows().into_iter().for_each(|x| x.hash(&mut h));
    v.reorder().iter().enumerate().for_each(|x| x.hash(&mut h));
    // Expressions.
    let w = v.to_tensor();
    (v == w, w.contains(&k), &w == &t).hash(&mut h);
    let e = (&w ^ &v).eval();
    e.expr().zip(&w).enumerate().for_each(|(i, (x, y))| (i, x, y).hash(&mut h));
    let mut s = t.clone() + expr::fill(3);
    s.assign(&t);
    s ^= &t.expr().map(|x| x >> 1).eval();
    s.into_iter().fold(0, |a: u64, x| a.rotate_left(7) ^ x).hash(&mut h);
    // Changes of size.
    let mut g: Tensor<u64, (U, U)> = Tensor::from_elem([r.range(1, 3), 2], 7);
    g.expand(Tensor::<u64, (U, U)>::from_elem([2, 2], k));
    g.resize(&[4, 3], seed);
    g.drain(1..2).into_iter().for_each(|x| x.hash(&mut h));
    g.truncate(2);
    (g.capacity() >= g.len()).hash(&mut h);
    g.hash(&mut h);
    format!("{g:?} {v:?} {:?}", v.shape()).hash(&mut h);
    let a: Array<u64, (Const<2>, Const<3>)> = Array::from_fn(|i| k ^ i[0] as u64 ^ (i[1] as u64) << 8);
    a.map(|x| x + 1).into_shape::<(Const<6>,)>().hash(&mut h);
    mdarray::tensor![[k, 1], [2, k]].diag(0).to_vec().hash(&mut h);
    // Requests that are refused.
    panics(|| t.permute(&vec![0; rank + 1][..]).len()).hash(&mut h);
    h.finish()
}

/// Threads that share nothing do not influence each other.
fn apart(c: &mut Case) {
    let rounds = if c.small { 1 } else { 60 };
    let seeds: Vec<u64> = (0..THREADS).map(|_| c.rng.u64()).collect();
    let want: Vec<u64> = seeds.iter().map(|&s| program(s)).collect();
    c.log(|| format!("programs {seeds:?}"));
    let parts = seeds.iter().zip(&want).enumerate().map(|(i, (s, w))| (i, (*s, *w))).collect();
    on_threads(c, parts, |(seed, want), _| {
        for k in 0..rounds {
            assert!(program(seed) == want, "the result of program {seed} differs in round {k} if others run at the same time");
        }
    });
    c.ev("programs run by threads", THREADS * rounds);
}

pub fn run(r: &mut Runner) {
    r.fixed("markers", 1, 1, markers);
    r.section("splits", 300, 6, splits);
    r.section("items", 400, 8, items);
    r.section("handed-over", 200, 4, handed_over);
    r.section("readers", 150, 3, readers);
    r.section("moved", 100, 3, moved);
    r.section("apart", 60, 3, apart);
    r.large("splits-large", 3, splits);
    r.large("items-large", 3, items);
    r.large("moved-large", 2, moved);
}
