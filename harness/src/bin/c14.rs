//! C14: equality, hashing and membership depend only on shape and elements.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

use mdarray::{array, tensor, view, Array, Const, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View};
use vh::chain::*;
use vh::*;

vh::check_main!("C14", run);

thread_local! {
    static ERR: RefCell<Option<String>> = const { RefCell::new(None) };
    static PAIRS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Element that knows its index in the array and observes what it is compared with.
#[derive(Clone, Debug)]
struct Q {
    val: u32,
    pos: usize,
    side: u8,
    /// Unequal to everything.
    nan: bool,
}

impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        PAIRS.with(|c| c.set(c.get() + 1));
        if self.side < 2 && o.side < 2 && (self.pos != o.pos || self.side == o.side) {
            ERR.with(|e| *e.borrow_mut() = Some(format!("compares element {} of array {} with element {} of array {}", self.pos, self.side, o.pos, o.side)));
        }
        self.val == o.val && !self.nan && !o.nan
    }
}

impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.val.hash(h)
    }

    // Hashing a slice at once need not be the same as hashing its elements one by one.
    fn hash_slice<H: Hasher>(x: &[Q], h: &mut H) {
        h.write_u8(0xA5);
        for q in x {
            h.write_u64(q.val as u64 + 77);
        }
    }
}

/// A hasher that depends on how the data is divided into calls, as those of some libraries do.
#[derive(Default)]
struct CallHasher(u64);

impl CallHasher {
    fn add(&mut self, tag: u64, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x ^ (tag << 56)).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

impl Hasher for CallHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.add(1, b.len() as u64);
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(2, u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(3, i as u64);
    }
    fn write_u16(&mut self, i: u16) {
        self.add(4, i as u64);
    }
    fn write_u32(&mut self, i: u32) {
        self.add(5, i as u64);
    }
    fn write_u64(&mut self, i: u64) {
        self.add(6, i);
    }
    fn write_usize(&mut self, i: usize) {
        self.add(7, i as u64);
    }
}

/// Another element type, comparable with the first.
#[derive(Clone, Debug)]
struct P(Q);

impl PartialEq<P> for Q {
    fn eq(&self, o: &P) -> bool {
        *self == o.0
    }
}

impl PartialEq<Q> for P {
    fn eq(&self, o: &Q) -> bool {
        self.0 == *o
    }
}

fn els(v: &[u32], side: u8, nan: Option<usize>) -> Vec<Q> {
    v.iter().enumerate().map(|(pos, &val)| Q { val, pos, side, nan: nan == Some(pos) }).collect()
}

/// Hashes with a standard hasher and with one that sees every call.
fn hash<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    let mut k = CallHasher::default();
    x.hash(&mut k);
    (h.finish(), k.finish())
}

#[track_caller]
fn both<A: ?Sized, B: ?Sized>(c: &mut Case, a: &A, b: &B, want: bool, what: &str)
where
    A: PartialEq<B>,
    B: PartialEq<A>,
{
    PAIRS.with(|c| c.set(0));
    let (x, y, z) = (a == b, b == a, a != b);
    assert!(x == want, "{what}: compared equal {x}, expected {want}");
    assert!(y == want, "{what}: compared the other way round equal {y}, expected {want}");
    assert!(z != want, "{what}: != disagrees with ==");
    if let Some(e) = ERR.with(|e| e.borrow_mut().take()) {
        panic!("{what}: {e}");
    }
    c.ev("pairs of arrays compared", 3);
    c.ev("element comparisons observed", PAIRS.with(|c| c.get()));
}

#[track_caller]
fn one<T: Hash, S: Shape, R: Shape, L: Layout, K: Layout, U: Hash>(
    c: &mut Case,
    a: &Slice<T, S, L>,
    b: &Slice<U, R, K>,
    want: bool,
    what: &str,
) where
    T: PartialEq<U>,
    U: PartialEq<T>,
{
    both(c, a, b, want, what);
    both(c, &a.expr(), &b.expr(), want, what);
    both(c, a, &b.expr(), want, what);
}

/// Runs the body with the array in one of the forms.
macro_rules! form {
    ($c:expr, $k:expr, $v:expr, $d:expr, $x:ident => $body:expr) => {{
        let t: Tensor<Q, DynRank> = Tensor::from($v.clone()).into_shape(&$d[..]);
        let r = $d.len();
        match ($k, r) {
            (0, _) => { let $x = &*t; $body }
            (1, 1) => { let t = t.into_mapping::<Rank<1>>(); let $x = &*t; $body }
            (1, 2) => { let t = t.into_mapping::<Rank<2>>(); let $x = &*t; $body }
            (1, 3) => { let t = t.into_mapping::<Rank<3>>(); let $x = &*t; $body }
            (2, 1) => { let s = Strider::new($c, &$d, $v.clone(), filler); let v = s.view().into_mapping::<Rank<1>, Strided>(); let $x = &*v; $body }
            (2, 2) => { let s = Strider::new($c, &$d, $v.clone(), filler); let v = s.view().into_mapping::<Rank<2>, Strided>(); let $x = &*v; $body }
            (2, 3) => { let s = Strider::new($c, &$d, $v.clone(), filler); let v = s.view().into_mapping::<Rank<3>, Strided>(); let $x = &*v; $body }
            _ => { let s = Strider::new($c, &$d, $v.clone(), filler); let v = s.view(); let $x = &*v; $body }
        }
    }};
}

fn filler() -> Q {
    Q { val: 999_999, pos: usize::MAX, side: 0, nan: false }
}

/// Pairs of arrays that are equal or differ in one respect.
fn pairs(c: &mut Case) {
    let cap = c.cap(60);
    let rank = c.rng.range(0, 5);
    let d1 = c.rng.dims(rank, cap);
    let n = product(&d1);
    let few = c.rng.chance(1, 2);
    let v1: Vec<u32> = (0..n).map(|i| if few { c.rng.below(2) as u32 } else { i as u32 }).collect();
    let (mut d2, mut v2) = (d1.clone(), v1.clone());
    let mut nan = (None, None);
    match c.rng.below(9) {
        0 | 1 if n > 0 => {
            // One element differs.
            let i = *c.rng.pick(&[0, n - 1, n / 2, c.index as usize % n]);
            v2[i] += 10;
        }
        2 if rank > 1 => {
            let k = c.rng.below(rank);
            d2.swap(0, k);
        }
        3 => d2 = vec![n],
        4 => { let i = c.rng.range(0, rank); d2.insert(i, 1) }
        5 if rank > 0 => {
            let i = c.rng.below(rank);
            d2[i] += 1;
            v2.resize(product(&d2), 1);
        }
        6 if rank > 0 => {
            // Same number of elements, none.
            let i = c.rng.below(rank);
            d2[i] = 0;
            v2.clear();
        }
        7 if n > 0 => {
            let i = c.rng.below(n);
            if c.rng.chance(1, 2) { nan.0 = Some(i) } else { nan.1 = Some(i) }
        }
        _ => {}
    }
    if v2.len() != product(&d2) {
        return;
    }
    let want = d1 == d2 && v1 == v2 && nan == (None, None);
    let (k1, k2) = (c.rng.below(4), c.rng.below(4));
    let what = format!("{d1:?} (form {k1}) and {d2:?} (form {k2}), elements {v1:?} and {v2:?}, unordered {nan:?}");
    c.log(|| what.clone());
    let (e1, e2) = (els(&v1, 0, nan.0), els(&v2, 1, nan.1));
    let (mut h1, mut h2) = ((0, 0), (0, 0));
    form!(c, k1, e1, d1, x => {
        h1 = hash(x);
        assert!(h1 == hash(&x.expr()), "slice and view hash differently: {what}");
        form!(c, k2, e2, d2, y => {
            h2 = hash(y);
            one(c, x, y, want, &what)
        })
    });
    if want {
        assert!(h1 == h2, "equal arrays hash differently: {what}");
        c.ev("hashes of equal arrays compared", 1);
    }
    c.seen(&[want as u64, k1 as u64, k2 as u64, d1.iter().fold(1, |a, &x| a * 11 + x as u64), d2.iter().fold(1, |a, &x| a * 11 + x as u64)]);
}

/// Views with any strides into one buffer, also such that elements coincide, against each other
/// and against copies. The result depends on shape and elements only.
fn strides(c: &mut Case) {
    let few = c.rng.range(1, 4);
    let buf: Vec<u32> = (0..60).map(|_| c.rng.below(few) as u32).collect();
    let (d1, s1, o1, m1) = any_strides(c, buf.len());
    let (mut d2, mut s2, mut o2, mut m2) = any_strides(c, buf.len());
    if c.rng.chance(1, 2) {
        // The same dimensions or the same strides or both, elsewhere.
        let n = buf.len();
        for _ in 0..200 {
            let (a, b, o, m) = any_strides(c, n);
            if a == d1 || b == s1 {
                (d2, s2, o2, m2) = (a, b, o, m);
                break;
            }
        }
    }
    let (v1, v2) = (view_strides(&buf, &d1, &s1, o1), view_strides(&buf, &d2, &s2, o2));
    let el = |m: &MV| -> Vec<u32> { m.idx.iter().map(|&i| buf[i]).collect() };
    let (e1, e2) = (el(&m1), el(&m2));
    let want = d1 == d2 && e1 == e2;
    let what = format!("{d1:?} with strides {s1:?} and {d2:?} with strides {s2:?}, elements {e1:?} and {e2:?}");
    one(c, &*v1, &*v2, want, &what);
    let t: Tensor<u32, DynRank> = Tensor::from(e1.clone()).into_shape(&d1[..]);
    one(c, &*v1, &*t, true, &what);
    one(c, &*t, &*v2, want, &what);
    assert!(hash(&v1) == hash(&t) && hash(&*v1) == hash(&*t), "equal arrays hash differently: {what}");
    // The same memory with other strides, and one element changed in a copy.
    if !e1.is_empty() {
        let mut u = t.clone();
        let k = c.rng.below(e1.len());
        u[k] += 1;
        one(c, &*v1, &*u, false, &what);
    }
    let back = view_strides(&buf, &d1, &s1.iter().map(|x| -x).collect::<Vec<_>>(), m1.idx.last().copied().unwrap_or(0));
    let mut e = e1.clone();
    e.reverse();
    one(c, &*v1, &*back, e1 == e, &what);
    c.ev("hashes of equal arrays compared", 1);
    c.seen(&[want as u64, sig(&m1), sig(&m2)]);
}

/// Different element types on the two sides.
fn mixed(c: &mut Case) {
    let cap = c.cap(40);
    let r = c.rng.range(0, 4);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let v: Vec<u32> = (0..n as u32).collect();
    let mut w = v.clone();
    let differ = n > 0 && c.rng.chance(1, 2);
    if differ {
        let i = c.rng.below(n);
        w[i] ^= 64;
    }
    c.log(|| format!("elements of two types, {d:?}, different {differ}"));
    let a: Tensor<Q, DynRank> = Tensor::from(els(&v, 0, None)).into_shape(&d[..]);
    let b: Tensor<P, DynRank> = Tensor::from(els(&w, 1, None).into_iter().map(P).collect::<Vec<_>>()).into_shape(&d[..]);
    both(c, &a, &b, !differ, "dense");
    let s = Strider::new(c, &d, els(&v, 0, None), filler);
    let sb = Strider::new(c, &d, els(&w, 1, None).into_iter().map(P), || P(filler()));
    let vs = s.view();
    let vsb = sb.view();
    both(c, &vs, &b, !differ, "strided and dense");
    both(c, &a, &vsb, !differ, "dense and strided");
    both(c, &vs, &vsb, !differ, "strided and strided");
    let mut a2 = a.clone();
    let mut s2 = Strider::new(c, &d, els(&v, 0, None), filler);
    both(c, &a2.expr_mut(), &b, !differ, "mutable dense view");
    both(c, &s2.view_mut(), &b, !differ, "mutable strided view");
    c.seen(&[differ as u64, n as u64, d.len() as u64]);
}

/// All kinds with constant shapes.
fn kinds(c: &mut Case) {
    let v: Vec<u32> = (0..6).map(|i| i * 3 + c.rng.below(2) as u32).collect();
    let differ = c.rng.chance(2, 3);
    let mut w = v.clone();
    if differ {
        let i = c.rng.below(6);
        w[i] += 50;
    }
    let want = !differ;
    let a: Array<u32, (Const<2>, Const<3>)> = Array([[v[0], v[1], v[2]], [v[3], v[4], v[5]]]);
    let b: Array<u32, (Const<2>, Const<3>)> = Array([[w[0], w[1], w[2]], [w[3], w[4], w[5]]]);
    let t: Tensor<u32, (Const<2>, usize)> = Tensor::from(w.clone()).into_shape((Const::<2>, 3));
    let u: Tensor<u32, (usize, usize)> = Tensor::from(w.clone()).into_shape([2, 3]);
    let m: Tensor<u32, DynRank> = Tensor::from(w.clone()).into_shape(&[2, 3][..]);
    let f: Tensor<u32, (usize, usize)> = Tensor::from(w.clone()).into_shape([3, 2]);
    let mut tr: Tensor<u32, (usize, usize)> = Tensor::from_fn([3, 2], |i| w[i[1] * 3 + i[0]]);
    c.log(|| format!("{v:?} and {w:?}"));
    both(c, &a, &b, want, "array and array");
    both(c, &a, &t, want, "array and tensor");
    both(c, &a, &u, want, "array and tensor");
    both(c, &a, &m, want, "array and tensor of dynamic rank");
    both(c, &a, &m.expr(), want, "array and view of dynamic rank");
    both(c, &a, &f, false, "array and tensor of other shape");
    both(c, &a, &tr.reorder(), want, "array and reversed view");
    both(c, &*a, &*u, want, "slice and slice");
    both(c, &a.expr(), &tr.reorder(), want, "view and reversed view");
    both(c, &a.flatten(), &u.flatten(), want, "flat views");
    both(c, &a.row(0), &u.row(0), v[..3] == w[..3], "rows");
    both(c, &a.row(1), &u.row(1), v[3..] == w[3..], "rows");
    for j in 0..3 {
        both(c, &a.col(j), &u.col(j), v[j] == w[j] && v[j + 3] == w[j + 3], "columns");
        both(c, &a.col(j), &tr.row(j), v[j] == w[j] && v[j + 3] == w[j + 3], "column and row");
        both(c, &a.axis_at(Const::<1>, j), &m.axis_at(1usize, j), v[j] == w[j] && v[j + 3] == w[j + 3], "columns");
    }
    both(c, &a, &tr.reorder_mut(), want, "array and mutable reversed view");
    let h = hash(&b);
    for (name, x) in [
        ("tensor", hash(&t)),
        ("dynamic tensor", hash(&u)),
        ("dynamic rank", hash(&m)),
        ("slice", hash(&*u)),
        ("view", hash(&u.expr())),
        ("reversed view", hash(&tr.reorder())),
        ("mutable reversed view", hash(&tr.reorder_mut())),
        ("subarray", hash(&array![[0, w[0], w[1], w[2]], [0, w[3], w[4], w[5]]].view(.., 1..))),
    ] {
        assert!(x == h, "{name} hashes differently from the equal array");
    }
    c.ev("hashes of equal arrays compared", 8);
    c.seen(&[differ as u64, w[0] as u64 % 2, w[1] as u64 % 2, w[2] as u64 % 2]);
}

/// Owned arrays as keys, found through borrowed forms.
fn keys(c: &mut Case) {
    let mut map: HashMap<Tensor<u32, DynRank>, usize> = HashMap::new();
    let mut set: HashSet<Tensor<String, (usize, usize)>> = HashSet::new();
    let mut list: Vec<(Vec<usize>, Vec<u32>)> = Vec::new();
    for _ in 0..c.rng.range(3, 14) {
        let r = c.rng.range(0, 3);
        let d = c.rng.dims(r, 8);
        let v: Vec<u32> = (0..product(&d)).map(|_| c.rng.below(2) as u32).collect();
        let t: Tensor<u32, DynRank> = Tensor::from(v.clone()).into_shape(&d[..]);
        let known = list.iter().position(|x| *x == (d.clone(), v.clone()));
        let s: &Slice<u32, DynRank> = &t;
        assert!(map.get(s).copied() == known, "key {d:?} {v:?} found as {:?}, expected {known:?}", map.get(s));
        if known.is_none() {
            map.insert(t, list.len());
            list.push((d, v));
        }
        let e = Tensor::from_fn([c.rng.range(0, 2), c.rng.range(0, 2)], |_| String::from(if c.rng.chance(1, 2) { "a" } else { "b" }));
        let had = set.iter().any(|x| x.shape() == e.shape() && x.iter().eq(e.iter()));
        let s: &Slice<String, (usize, usize)> = &e;
        assert!(set.contains(s) == had);
        assert!(set.insert(e) != had);
    }
    assert!(map.len() == list.len());
    c.ev("keys looked up", list.len());
    c.seen(&[list.len() as u64, set.len() as u64]);
}

/// Membership.
fn membership(c: &mut Case) {
    let cap = c.cap(60);
    let r = c.rng.range(0, 5);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let v: Vec<u32> = (0..n as u32).map(|i| i * 2).collect();
    let nan = if n > 0 && c.rng.chance(1, 4) { Some(c.rng.below(n)) } else { None };
    let e: Vec<Q> = els(&v, 2, nan);
    let k = c.rng.below(4);
    c.log(|| format!("membership in {d:?}, form {k}, unordered {nan:?}"));
    let probe = |val: u32| Q { val, pos: 0, side: 2, nan: false };
    let s = c.rng.u64() as usize;
    form!(c, k, e, d, x => {
        for i in 0..n.min(6) {
            // First, last and some in between.
            let i = match i { 0 => 0, 1 => n - 1, _ => (s + i * 7) % n };
            let got = x.contains(&probe(v[i]));
            assert!(got == (nan != Some(i)), "contains of element {i} of {d:?} is {got}");
            assert!(!x.contains(&probe(v[i] + 1)), "contains a value between the elements");
            c.ev("membership queries", 2);
        }
        assert!(!x.contains(&probe(999_999)), "contains an element outside the view of {d:?}");
        let u = Q { val: 0, pos: 0, side: 2, nan: true };
        assert!(!x.contains(&u));
        c.ev("membership queries", 2);
    });
    // Subarrays: exactly their own elements.
    let t: Tensor<u32, DynRank> = Tensor::from(v.clone()).into_shape(&d[..]);
    let (w, m) = { let mut w: SView<'_, u32> = t.expr().into_mapping(); let mut m = MV::dense(&d);
        let k = c.rng.range(0, 3); (w, m) = chain(c, w, m, k); (w, m) };
    for i in 0..n.min(40) {
        let want = m.idx.contains(&i);
        assert!(w.contains(&v[i]) == want, "element {i} of {d:?} in the subarray {:?}: {}, expected {want}", m.dims, !want);
    }
    let f = tensor![1.0f64, f64::NAN, -0.0];
    assert!(f.contains(&0.0) && !f.contains(&f64::NAN) && f != f && f.view(..1) == f.view(..1));
    assert!(view![[1, 2], [3, 4]].view(.., 1).contains(&4) && !view![[1, 2], [3, 4]].view(.., 1).contains(&3));
    c.ev("membership queries", n.min(40));
    c.seen(&[k as u64, n as u64, sig(&m)]);
}

/// Equality is an equivalence on a pool of arrays (reflexive, symmetric, transitive).
fn pool(c: &mut Case) {
    let mut all: Vec<(Vec<usize>, Vec<u32>)> = Vec::new();
    for _ in 0..6 {
        let r = c.rng.range(0, 3);
        let d = c.rng.dims(r, 4);
        let v: Vec<u32> = (0..product(&d)).map(|_| c.rng.below(2) as u32).collect();
        all.push((d, v));
    }
    let t: Vec<Tensor<u32, DynRank>> = all.iter().map(|x| Tensor::from(x.1.clone()).into_shape(&x.0[..])).collect();
    let s: Vec<Strider<u32>> = all.iter().map(|x| Strider::new(c, &x.0, x.1.clone(), || 7)).collect();
    for i in 0..6 {
        for j in 0..6 {
            let want = all[i] == all[j];
            both(c, &t[i], &t[j], want, "pool");
            both(c, &s[i].view(), &t[j], want, "pool");
            both(c, &s[i].view(), &s[j].view(), want, "pool");
            if want {
                assert!(hash(&s[i].view()) == hash(&t[j]));
            }
        }
    }
    // Primitive elements of one byte, and elements that own memory.
    for i in 0..6 {
        let d = &all[i].0;
        let b: Vec<u8> = all[i].1.iter().map(|&x| x as u8).collect();
        let t8: Tensor<u8, DynRank> = Tensor::from(b.clone()).into_shape(&d[..]);
        let s8 = Strider::new(c, d, b, || 9);
        assert!(hash(&s8.view()) == hash(&t8), "equal arrays of bytes of shape {d:?} hash differently");
        let b: Vec<String> = all[i].1.iter().map(|&x| "ab".repeat(x as usize)).collect();
        let ts: Tensor<String, DynRank> = Tensor::from(b.clone()).into_shape(&d[..]);
        let ss = Strider::new(c, d, b, || "x".into());
        assert!(hash(&ss.view()) == hash(&ts), "equal arrays of strings of shape {d:?} hash differently");
        c.ev("hashes of equal arrays compared", 2);
    }
    // Nested arrays as elements.
    let n1: Tensor<Tensor<u32, DynRank>, (usize,)> = t.iter().cloned().collect();
    let n2: Tensor<Tensor<u32, DynRank>, (usize,)> = t.iter().cloned().collect();
    both(c, &n1, &n2, true, "nested");
    let _: Option<View<'_, u32, (usize,)>> = None;
    c.seen(&all.iter().map(|x| x.0.iter().fold(1, |a, &y| a * 7 + y as u64)).collect::<Vec<_>>());
}

pub fn run(r: &mut Runner) {
    r.section("pairs", 4000, 30, pairs);
    r.section("any-strides", 2000, 10, strides);
    r.section("mixed", 800, 6, mixed);
    r.section("kinds", 300, 4, kinds);
    r.section("keys", 300, 4, keys);
    r.section("membership", 1200, 10, membership);
    r.section("pool", 200, 3, pool);
    r.large("pairs-large", 8, pairs);
    r.large("membership-large", 4, membership);
    r.large("pool-large", 2, pool);
}
