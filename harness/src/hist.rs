//! Histories of operations on a small world of tensors with instrumented elements, in lock step
//! with a list model. Used to observe element life cycles (C10) and, with fault injection, the
//! behaviour when user code panics (C11).

use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, DynRank, Slice, Tensor, View};

use crate::chain::Strider;
use crate::model::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::track::{tick, Track, CALL};

pub type T0<T> = Tensor<T, DynRank>;

pub struct Obj<T> {
    pub t: T0<T>,
    pub dims: Vec<usize>,
    pub v: Vec<u32>,
}

pub struct World<T> {
    pub objs: Vec<Obj<T>>,
    /// Values handed out to the user.
    pub held: Vec<T>,
    pub next: u32,
    /// Objects that the running operation changes.
    pub dirty: Vec<usize>,
    /// The running operation only moves elements.
    pub moves: bool,
    pub name: &'static str,
}

/// Number of kinds of operations.
pub const OPS: usize = 58;

fn get<T: Track>(x: &T) -> u32 {
    x.val()
}

pub fn read<T: Track, L: mdarray::Layout, S: mdarray::Shape>(t: &Slice<T, S, L>) -> Vec<u32> {
    t.iter().map(get).collect()
}

impl<T: Track> World<T> {
    pub fn new() -> Self {
        World { objs: Vec::new(), held: Vec::new(), next: 1, dirty: Vec::new(), moves: false, name: "" }
    }

    fn fresh(&mut self, n: usize) -> Vec<u32> {
        let s = self.next;
        self.next += n as u32;
        (s..s + n as u32).map(|x| if T::ZST { 0 } else { x }).collect()
    }

    pub fn add(&mut self, dims: &[usize]) {
        let v = self.fresh(product(dims));
        let t = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape(dims);
        self.objs.push(Obj { t, dims: dims.to_vec(), v });
    }

    /// Initial world.
    pub fn setup(rng: &mut Rng, cap: usize) -> Self {
        let mut w = World::new();
        for _ in 0..rng.range(1, 3) {
            let rank = rng.range(0, 4);
            let mut d = rng.dims(rank, cap);
            if rng.chance(1, 3) {
                if let Some(o) = w.objs.last() {
                    d = o.dims.clone(); // Same shape, or one that can be appended.
                    if !d.is_empty() && rng.chance(1, 2) {
                        d[0] = rng.range(0, 3);
                    }
                }
            }
            w.add(&d);
        }
        if rng.chance(1, 2) {
            w.objs[0].t.reserve(rng.range(0, 20));
        }
        w
    }

    pub fn expected(&self) -> usize {
        self.objs.iter().map(|o| o.v.len()).sum::<usize>() + self.held.len()
    }

    /// Every array agrees with its model.
    #[track_caller]
    pub fn check(&self, c: &mut Case) {
        for (i, o) in self.objs.iter().enumerate() {
            self.check_obj(i, o);
            c.ev("elements found alive", o.v.len());
        }
        for x in &self.held {
            x.val();
        }
    }

    #[track_caller]
    fn check_obj(&self, i: usize, o: &Obj<T>) {
        chk_shape(&o.t, &o.dims);
        let got = read(&o.t);
        assert!(got == o.v, "after {}: elements of array {i} {:?} are {got:?}, expected {:?}", self.name, o.dims, o.v);
        assert!(o.t[..].len() == o.v.len() && o.t.capacity() >= o.v.len());
    }

    /// After a panic: clean arrays are unchanged, the others are valid.
    #[track_caller]
    pub fn check_after_panic(&self, c: &mut Case, known: &dyn Fn(u32) -> bool) {
        for (i, o) in self.objs.iter().enumerate() {
            if !self.dirty.contains(&i) {
                self.check_obj(i, o);
                c.ev("untouched arrays found unchanged after a panic", 1);
            } else {
                let dims: Vec<usize> = (0..o.t.rank()).map(|i| o.t.dim(i)).collect();
                chk_shape(&o.t, &dims);
                let got = read(&o.t);
                assert!(got.len() == product(&dims), "after a panic in {}: shape {dims:?}, {} elements", self.name, got.len());
                assert!(o.t.capacity() >= got.len());
                for x in &got {
                    assert!(T::ZST || known(*x), "after a panic in {}: unknown element {x}", self.name);
                }
                c.ev("changed arrays found valid after a panic", 1);
            }
        }
        for x in &self.held {
            x.val();
        }
    }

    /// The array continues to work.
    pub fn reuse(&mut self) {
        for o in &mut self.objs {
            let v = read(&o.t);
            let dims: Vec<usize> = (0..o.t.rank()).map(|i| o.t.dim(i)).collect();
            let t = std::mem::replace(&mut o.t, Tensor::new());
            if dims.is_empty() {
                o.t = t;
                continue;
            }
            let mut t = t;
            let mut nd = dims.clone();
            nd[0] += 1;
            t.resize_with(&nd, || T::mk(7));
            let w = read(&t);
            assert!(w.len() == product(&nd) && w[..v.len()] == v[..], "the array is not usable after a panic");
            t.truncate(dims[0]);
            assert!(read(&t) == v);
            o.t = t;
        }
    }

    fn take(&mut self, i: usize) -> Obj<T> {
        let o = Obj { t: Tensor::new(), dims: vec![0], v: vec![] };
        std::mem::replace(&mut self.objs[i], o)
    }

    fn target(&mut self, rng: &mut Rng) -> usize {
        let i = rng.below(self.objs.len());
        self.dirty.push(i);
        i
    }

    /// A strided view of the object: permuted and reversed, with its model positions.
    fn strided<'a>(rng: &mut Rng, t: &'a T0<T>) -> (View<'a, T, DynRank, mdarray::Strided>, MV) {
        let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
        let p = perm(rng, dims.len());
        let m = MV::dense(&dims).permute(&p);
        let v: View<'a, T, DynRank, mdarray::Strided> = t.expr().into_mapping();
        let (mut v, mut m) = (v.into_permuted(p), m);
        if m.rank() > 0 && rng.chance(1, 2) {
            let axis = rng.below(m.rank());
            let mid = rng.range(0, m.dims[axis]);
            let (a, b) = v.into_split_axis_at(axis, mid);
            let (x, y) = m.split(axis, mid).unwrap();
            (v, m) = if rng.chance(1, 2) { (a, x) } else { (b, y) };
        }
        (v, m)
    }

    /// Runs one operation. The number of elements is kept small.
    pub fn op(&mut self, rng: &mut Rng, kind: usize, cap: usize) {
        self.dirty.clear();
        self.moves = false;
        self.name = "";
        if self.objs.is_empty() {
            self.add(&[2]);
        }
        macro_rules! name {
            ($s:expr) => {{
                self.name = $s;
            }};
            ($s:expr, moves) => {{
                self.name = $s;
                self.moves = true;
            }};
        }
        match kind {
            0 => {
                name!("Tensor::from_fn");
                let (r, _) = (rng.range(0, 3), 0);
                let d = rng.dims(r, cap);
                let v = self.fresh(product(&d));
                let mut k = 0;
                let t = Tensor::from_fn(&d[..], |_| { tick(CALL); k += 1; T::mk(v[k - 1]) });
                self.objs.push(Obj { t, dims: d, v });
            }
            1 => {
                name!("Tensor::from_elem");
                let r = rng.range(0, 3);
                let d = rng.dims(r, cap);
                let x = self.fresh(1)[0];
                let t = Tensor::from_elem(&d[..], T::mk(x));
                let n = t.len();
                self.objs.push(Obj { t, dims: d, v: vec![x; n] });
            }
            2 => {
                name!("FromIterator");
                let n = rng.range(0, 6);
                let v = self.fresh(n);
                let t: Tensor<T, (usize,)> = v.iter().map(|&x| { tick(CALL); T::mk(x) }).collect();
                self.objs.push(Obj { t: t.into_dyn(), dims: vec![n], v });
            }
            3 => {
                name!("clone");
                let i = rng.below(self.objs.len());
                let o = &self.objs[i];
                let o = Obj { t: o.t.clone(), dims: o.dims.clone(), v: o.v.clone() };
                self.objs.push(o);
            }
            4 => {
                name!("clone_from");
                let j = rng.below(self.objs.len());
                let i = self.target(rng);
                if i != j {
                    let o = self.objs[j].t.clone();
                    self.objs[i].t.clone_from(&o);
                    self.objs[i].dims = self.objs[j].dims.clone();
                    self.objs[i].v = self.objs[j].v.clone();
                }
            }
            5 => {
                name!("clear", moves);
                let i = self.target(rng);
                self.objs[i].t.clear();
                self.objs[i].dims = vec![0];
                self.objs[i].v.clear();
            }
            6 => {
                name!("truncate", moves);
                let i = self.target(rng);
                let o = &mut self.objs[i];
                if !o.dims.is_empty() {
                    let n = rng.range(0, o.dims[0] + 1);
                    o.t.truncate(n);
                    o.dims[0] = o.dims[0].min(n);
                    o.v.truncate(product(&o.dims));
                }
            }
            7 | 8 | 9 | 10 => {
                let i = self.target(rng);
                let o = &mut self.objs[i];
                if o.dims.is_empty() {
                    return;
                }
                let (a, b) = range(rng, o.dims[0]);
                let inner = product(&o.dims[1..]);
                let mut dd = o.dims.clone();
                dd[0] = b - a;
                match kind {
                    7 => {
                        self.name = "drain partially consumed";
                        self.moves = true;
                        let k = rng.range(0, inner * (b - a));
                        let mut it = o.t.drain(a..b).into_iter();
                        for n in 0..k {
                            let x = it.next().expect("drain ends early");
                            assert!(x.val() == o.v[a * inner + n]);
                            tick(CALL);
                            if n % 2 == 0 {
                                self.held.push(x);
                            }
                        }
                    }
                    8 => {
                        self.name = "drain evaluated";
                        self.moves = true;
                        let t = o.t.drain(a..b).eval();
                        let v = o.v[a * inner..b * inner].to_vec();
                        o.v.drain(a * inner..b * inner);
                        o.dims[0] -= b - a;
                        self.objs.push(Obj { t, dims: dd, v });
                        return;
                    }
                    9 => {
                        self.name = "drain mapped and zipped";
                        let u = rng.below(3) as u32;
                        let v: Vec<u32> = o.v[a * inner..b * inner].to_vec();
                        let nv = self.next;
                        let t = o.t.drain(a..b).zip(expr::fill(())).map(|(x, ())| { tick(CALL); T::mk(x.val() ^ u) }).eval();
                        o.v.drain(a * inner..b * inner);
                        o.dims[0] -= b - a;
                        self.next = nv;
                        self.objs.push(Obj { t, dims: dd, v: v.iter().map(|x| if T::ZST { 0 } else { x ^ u }).collect() });
                        return;
                    }
                    _ => {
                        self.name = "drain dropped";
                        self.moves = true;
                        let d = o.t.drain(a..b);
                        assert!(d.len() == inner * (b - a));
                        drop(d);
                    }
                }
                let o = &mut self.objs[i];
                o.v.drain(a * inner..b * inner);
                o.dims[0] -= b - a;
            }
            11 => {
                name!("expand by cloning a strided view");
                let j = rng.below(self.objs.len());
                let src = &self.objs[j];
                let (v, m) = Self::strided(rng, &src.t);
                if m.rank() == 0 || src.v.len() > cap {
                    return;
                }
                let add: Vec<u32> = m.idx.iter().map(|&i| src.v[i]).collect();
                // Into an empty array and once more.
                let mut t: T0<T> = Tensor::new();
                t.expand(&v);
                let mut d = m.dims.clone();
                let mut all = add.clone();
                if !add.is_empty() && rng.chance(1, 2) {
                    t.expand(v.map(|x| { tick(CALL); x.clone() }));
                    d[0] *= 2;
                    all.extend(&add);
                }
                if add.is_empty() {
                    d = (0..t.rank()).map(|i| t.dim(i)).collect();
                }
                self.objs.push(Obj { t, dims: d, v: all });
            }
            12 => {
                name!("expand by moving", moves);
                let i = self.target(rng);
                let j = self.target(rng);
                if i == j {
                    return;
                }
                let (a, b) = (self.objs[i].dims.clone(), self.objs[j].dims.clone());
                let (na, nb) = (self.objs[i].v.len(), self.objs[j].v.len());
                if a.is_empty() || b.is_empty() || na > cap || (na > 0 && nb > 0 && (a.len() != b.len() || a[1..] != b[1..])) {
                    return;
                }
                let o = self.take(j);
                if rng.chance(1, 2) {
                    o.t.into_expr().eval_into(&mut self.objs[i].t);
                } else {
                    self.objs[i].t.expand(o.t);
                }
                let t = &mut self.objs[i];
                t.v.extend(&o.v);
                if nb > 0 {
                    t.dims = if na == 0 { b } else { let mut d = a; d[0] += b[0]; d };
                }
            }
            13 => {
                name!("append", moves);
                let i = self.target(rng);
                let j = self.target(rng);
                if i == j {
                    return;
                }
                let (a, b) = (self.objs[i].dims.clone(), self.objs[j].dims.clone());
                let (na, nb) = (self.objs[i].v.len(), self.objs[j].v.len());
                if a.is_empty() || b.is_empty() || na > cap || (na > 0 && nb > 0 && (a.len() != b.len() || a[1..] != b[1..])) {
                    return;
                }
                let mut o = self.take(j);
                // Keep the other array in the world, also if the operation panics.
                let mut s = std::mem::replace(&mut o.t, Tensor::new());
                self.objs[i].t.append(&mut s);
                self.objs[j].t = s;
                let mut d = b.clone();
                d[0] = 0;
                self.objs[j].dims = d;
                let t = &mut self.objs[i];
                t.v.extend(&o.v);
                if nb > 0 {
                    t.dims = if na == 0 { b } else { let mut d = a; d[0] += b[0]; d };
                }
            }
            14 | 15 => {
                let i = self.target(rng);
                let r = self.objs[i].dims.len();
                let mut d = rng.dims(r, cap);
                if r > 0 && rng.chance(1, 3) {
                    d = self.objs[i].dims.clone();
                    d[0] = rng.range(0, 4);
                    if product(&d) > 2 * cap {
                        return;
                    }
                }
                let x = self.fresh(1)[0];
                let o = &mut self.objs[i];
                if kind == 14 {
                    self.name = "resize";
                    o.t.resize(&d, T::mk(x));
                } else {
                    self.name = "resize_with";
                    o.t.resize_with(&d, || { tick(CALL); T::mk(x) });
                }
                if r > 0 {
                    let old = MV::dense(&o.dims);
                    let mut v = Vec::new();
                    each_index(&d, |k| {
                        v.push(if k.iter().zip(&o.dims).all(|(a, b)| a < b) { o.v[old.pos(k)] } else { x });
                    });
                    o.dims = d;
                    o.v = v;
                }
            }
            16 => {
                name!("extend");
                let i = self.target(rng);
                let o = self.take(i);
                let n = rng.range(0, 4);
                let add = self.fresh(n);
                let mut t = o.t.into_flat();
                struct Put<'a, T>(&'a mut T0<T>, Option<Tensor<T, (usize,)>>);
                impl<T> Drop for Put<'_, T> {
                    fn drop(&mut self) {
                        *self.0 = self.1.take().unwrap().into_dyn();
                    }
                }
                t.reserve(rng.range(0, 2));
                let mut p = Put(&mut self.objs[i].t, Some(t));
                let it = add.iter().map(|&x| { tick(CALL); T::mk(x) });
                if rng.chance(1, 2) {
                    p.1.as_mut().unwrap().extend(it);
                } else {
                    // Without a useful size hint.
                    p.1.as_mut().unwrap().extend(it.filter(|_| true));
                }
                drop(p);
                let mut v = o.v;
                v.extend(&add);
                self.objs[i].dims = vec![v.len()];
                self.objs[i].v = v;
            }
            17 => {
                name!("into_vec, from and into_shape", moves);
                let i = self.target(rng);
                let o = self.take(i);
                let v: Vec<T> = o.t.into_vec();
                assert!(v.len() == o.v.len());
                let t = Tensor::from(v);
                self.objs[i] = match factor(rng, o.v.len(), 2) {
                    Some(d) if rng.chance(1, 2) => Obj { t: t.into_shape(&d[..]), dims: d, v: o.v },
                    _ => Obj { t: t.into_shape(&o.dims[..]), dims: o.dims, v: o.v },
                };
            }
            18 => {
                name!("map");
                let i = self.target(rng);
                let o = self.take(i);
                let t = if rng.chance(1, 2) {
                    o.t.map(|x| { tick(CALL); T::mk(x.val() ^ 0x100) })
                } else {
                    o.t.apply(|x| { tick(CALL); T::mk(x.val() ^ 0x100) })
                };
                self.objs[i] = Obj { t, dims: o.dims, v: o.v.iter().map(|x| if T::ZST { 0 } else { x ^ 0x100 }).collect() };
            }
            19 | 20 => {
                // Zipping with a clone of itself, by reference or by value.
                let i = self.target(rng);
                let o = self.take(i);
                let u: T0<T> = Tensor::from(o.v.iter().map(|&x| T::mk(x ^ 0x200)).collect::<Vec<T>>()).into_shape(&o.dims[..]);
                let f = |x: u32, y: u32| if T::ZST { 0 } else { x.wrapping_mul(5) ^ y };
                let t = if kind == 19 {
                    self.name = "zip_with by reference";
                    o.t.zip_with(&u, |(x, y)| { tick(CALL); T::mk(f(x.val(), y.val())) })
                } else {
                    self.name = "zip_with by value";
                    o.t.zip_with(u, |(x, y)| { tick(CALL); T::mk(f(x.val(), y.val())) })
                };
                let v = o.v.iter().map(|&x| f(x, x ^ 0x200)).collect();
                self.objs[i] = Obj { t, dims: o.dims, v };
            }
            21 => {
                name!("into_iter partially consumed", moves);
                let i = self.target(rng);
                let o = self.take(i);
                let k = rng.range(0, o.v.len());
                let mut it = o.t.into_iter();
                for n in 0..k {
                    let x = it.next().expect("iterator ends early");
                    assert!(x.val() == o.v[n]);
                    tick(CALL);
                    if n % 2 == 1 {
                        self.held.push(x);
                    }
                }
                if rng.chance(1, 2) {
                    let mut n = k;
                    it.for_each(|x| { tick(CALL); assert!(x.val() == o.v[n]); n += 1; });
                }
            }
            22 => {
                name!("moving expression mapped and evaluated");
                let i = self.target(rng);
                let o = self.take(i);
                let t = o.t.into_expr().enumerate().map(|(_, x)| { tick(CALL); T::mk(x.val() ^ 1) }).eval();
                self.objs[i] = Obj { t, dims: o.dims, v: o.v.iter().map(|x| if T::ZST { 0 } else { x ^ 1 }).collect() };
            }
            23 => {
                name!("expression of references evaluated");
                let i = rng.below(self.objs.len());
                let o = &self.objs[i];
                if o.v.len() > cap {
                    return;
                }
                let t = o.t.expr().zip(&o.t).map(|(x, y)| { tick(CALL); assert!(x == y); x.clone() }).eval();
                let o = Obj { t, dims: o.dims.clone(), v: o.v.clone() };
                self.objs.push(o);
            }
            24 => {
                name!("to_tensor of a strided view");
                let i = rng.below(self.objs.len());
                let o = &self.objs[i];
                if o.v.len() > cap {
                    return;
                }
                let (s, m) = Self::strided(rng, &o.t);
                let t = s.to_tensor();
                let v = m.idx.iter().map(|&i| o.v[i]).collect();
                self.objs.push(Obj { t, dims: m.dims, v });
            }
            25 => {
                name!("assign cloning to a strided view");
                let i = self.target(rng);
                let d = self.objs[i].dims.clone();
                let p = perm(rng, d.len());
                let m = MV::dense(&d).permute(&p);
                let vals = self.fresh(m.len());
                let src: T0<T> = Tensor::from(vals.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape(&m.dims[..]);
                self.objs[i].t.permute_mut(p).assign(&src);
                for (k, &j) in m.idx.iter().enumerate() {
                    self.objs[i].v[j] = vals[k];
                }
            }
            26 => {
                name!("assign moving to a strided view", moves);
                let i = self.target(rng);
                let d = self.objs[i].dims.clone();
                let p = perm(rng, d.len());
                let m = MV::dense(&d).permute(&p);
                let vals = self.fresh(m.len());
                self.moves = false;
                let src: T0<T> = Tensor::from(vals.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape(&m.dims[..]);
                self.objs[i].t.permute_mut(p).assign(src);
                for (k, &j) in m.idx.iter().enumerate() {
                    self.objs[i].v[j] = vals[k];
                }
            }
            27 => {
                name!("fill");
                let i = self.target(rng);
                let x = self.fresh(1)[0];
                let o = &mut self.objs[i];
                if o.dims.is_empty() || rng.chance(1, 2) {
                    o.t.fill(T::mk(x));
                } else {
                    o.t.reorder_mut().fill(T::mk(x));
                }
                o.v.fill(x);
            }
            28 => {
                name!("fill_with");
                let i = self.target(rng);
                let n = self.objs[i].v.len();
                let v = self.fresh(n);
                let mut k = 0;
                self.objs[i].t.fill_with(|| { tick(CALL); k += 1; T::mk(v[k - 1]) });
                self.objs[i].v = v;
            }
            29 => {
                name!("Tensor to Array to nested array and back", moves);
                let v = self.fresh(6);
                self.moves = false;
                let t: Tensor<T, (Const<2>, Const<3>)> = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape((Const::<2>, Const::<3>));
                let a: Array<T, (Const<2>, Const<3>)> = Array::from(t);
                let n: [[T; 3]; 2] = a.into();
                let a: Array<T, (Const<2>, Const<3>)> = Array::from(n);
                let a: Array<T, (Const<3>, Const<2>)> = a.into_shape();
                let t: Tensor<T, (Const<3>, Const<2>)> = Tensor::from(a);
                let n: [[T; 2]; 3] = t.try_into().ok().expect("same shape");
                let t: Tensor<T, (usize, Const<2>)> = Tensor::from(n);
                let t: Tensor<T, DynRank> = t.into_dyn();
                self.objs.push(Obj { t, dims: vec![3, 2], v });
            }
            30 => {
                name!("failed conversion to a nested array", moves);
                let v = self.fresh(4);
                self.moves = false;
                let t: Tensor<T, (usize, usize)> = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape([2, 2]);
                let r: Result<[[T; 3]; 2], _> = t.try_into();
                let t = r.err().expect("shape differs");
                self.objs.push(Obj { t: t.into_dyn(), dims: vec![2, 2], v });
            }
            31 => {
                name!("Array map, zip_with and from_fn");
                let v = self.fresh(6);
                let mut k = 0;
                let a: Array<T, (Const<3>, Const<2>)> = Array::from_fn(|_| { tick(CALL); k += 1; T::mk(v[k - 1]) });
                let b: Array<T, (Const<3>, Const<2>)> = a.clone();
                let e: Array<T, (Const<2>,)> = Array::from_elem(T::mk(9));
                let r = a.zip_with(&e, |(x, y)| { tick(CALL); T::mk(x.val() ^ y.val()) });
                let r = r.zip_with(b, |(x, y)| { tick(CALL); T::mk(x.val() ^ y.val()) });
                let r: Array<(T, u8), _> = r.map(|x| { tick(CALL); (x, 1) });
                let r: Array<T, _> = r.map(|x| { tick(CALL); x.0 });
                for x in r.iter() {
                    assert!(T::ZST || x.val() == 9);
                }
                let t: Tensor<T, (Const<3>, Const<2>)> = r.into();
                self.objs.push(Obj { t: t.into_dyn(), dims: vec![3, 2], v: vec![if T::ZST { 0 } else { 9 }; 6] });
            }
            32 => {
                name!("Array partially consumed");
                let v = self.fresh(6);
                let a: Array<T, (Const<2>, Const<3>)> = Array([[0, 1, 2], [3, 4, 5]].map(|r: [usize; 3]| r.map(|i| T::mk(v[i]))));
                let k = rng.range(0, 6);
                let mut it = a.into_iter();
                for n in 0..k {
                    let x = it.next().unwrap();
                    assert!(x.val() == v[n]);
                    tick(CALL);
                    if n == 2 {
                        self.held.push(x);
                    }
                }
            }
            33 => {
                name!("raw parts", moves);
                let i = self.target(rng);
                let o = self.take(i);
                let (p, m, cap) = o.t.into_raw_parts();
                let t = unsafe { Tensor::from_raw_parts(p, m, cap) };
                self.objs[i] = Obj { t, dims: o.dims, v: o.v };
            }
            34 => {
                name!("to_vec, From<&[T]> and From<&[T; N]>");
                let i = rng.below(self.objs.len());
                let o = &self.objs[i];
                if o.v.len() > cap {
                    return;
                }
                let v = o.t.to_vec();
                let t = Tensor::<T, (usize,)>::from(&v[..]);
                let n = [[v.first().cloned(), v.last().cloned()]];
                let u = Tensor::<Option<T>, (usize, usize)>::from(&n);
                assert!(u.len() == 2);
                let o = Obj { t: t.into_dyn(), dims: vec![o.v.len()], v: o.v.clone() };
                self.objs.push(o);
            }
            35 => {
                name!("into_scalar", moves);
                let i = self.target(rng);
                if self.objs[i].v.len() == 1 {
                    let o = self.take(i);
                    let x = o.t.into_scalar();
                    assert!(x.val() == o.v[0]);
                    self.held.push(x);
                } else {
                    let v = self.fresh(1);
                    self.moves = false;
                    let a: Array<T, (Const<1>, Const<1>)> = Array([[T::mk(v[0])]]);
                    let x = a.into_scalar();
                    self.held.push(x);
                }
            }
            36 => {
                name!("clone of a moving expression");
                let i = self.target(rng);
                let o = self.take(i);
                if o.v.len() > cap {
                    self.objs[i] = o;
                    return;
                }
                let e = o.t.into_expr();
                let f = e.clone();
                let t = e.eval();
                let mut it = f.into_iter();
                let x = it.next();
                assert!(x.map(|x| x.val()) == o.v.first().copied());
                self.objs[i] = Obj { t, dims: o.dims, v: o.v };
            }
            37 => {
                name!("clone_into");
                let i = self.target(rng);
                let j = rng.below(self.objs.len());
                if i == j {
                    return;
                }
                let u = self.objs[j].t.to_owned();
                let s: &Slice<T, DynRank> = &u;
                s.clone_into(&mut self.objs[i].t);
                self.objs[i].dims = self.objs[j].dims.clone();
                self.objs[i].v = self.objs[j].v.clone();
            }
            38 => {
                name!("equality and contains");
                let i = rng.below(self.objs.len());
                let j = rng.below(self.objs.len());
                let (a, b) = (&self.objs[i], &self.objs[j]);
                let e = a.dims == b.dims && (a.v == b.v);
                assert!((a.t == b.t) == e, "equality of {:?} and {:?}", a.v, b.v);
                if !a.dims.is_empty() {
                    assert!((a.t.reorder() == b.t.reorder()) == e);
                }
                let x = T::mk(a.v.last().copied().unwrap_or(1));
                assert!(a.t.contains(&x) == !a.v.is_empty());
                let y = T::mk(0xFFFF_FFFF);
                assert!(T::ZST || a.t.reorder().contains(&y) == a.v.contains(&0xFFFF_FFFF));
            }
            39 | 40 | 41 => {
                let i = self.target(rng);
                let o = self.take(i);
                let u: T0<T> = Tensor::from(o.v.iter().map(|&x| T::mk(x ^ 0x400)).collect::<Vec<T>>()).into_shape(&o.dims[..]);
                let f = |x: u32, y: u32| if T::ZST { 0 } else { x.wrapping_mul(3).wrapping_add(y) };
                let t: T0<T> = match kind {
                    39 => { self.name = "owned + owned"; o.t + u }
                    40 => { self.name = "owned + reference"; o.t + &u }
                    _ => {
                        self.name = "owned += owned";
                        let mut t = o.t;
                        t += u;
                        t
                    }
                };
                let v = o.v.iter().map(|&x| f(x, x ^ 0x400)).collect();
                self.objs[i] = Obj { t, dims: o.dims, v };
            }
            42 => {
                name!("negation");
                let i = self.target(rng);
                let o = self.take(i);
                self.objs[i] = Obj { t: -o.t, dims: o.dims, v: o.v.iter().map(|x| if T::ZST { 0 } else { !x }).collect() };
            }
            43 => {
                name!("broadcast expression with fill");
                let i = rng.below(self.objs.len());
                let x = self.fresh(1)[0];
                let n = self.objs[i].v.len();
                if n > cap {
                    return;
                }
                let t = self.objs[i].t.expr().zip(expr::fill(T::mk(x))).map(|(_, y)| { tick(CALL); y }).eval();
                let d = self.objs[i].dims.clone();
                self.objs.push(Obj { t, dims: d, v: vec![x; n] });
            }
            44 => {
                name!("lower rank operand repeated");
                let d = [rng.range(1, 3), rng.range(1, 3)];
                let v = self.fresh(d[1]);
                let row: T0<T> = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape(&d[1..]);
                let t = expr::from_fn(&d[..], |_| tick(CALL)).zip(row.expr().cloned()).map(|x| x.1).eval();
                self.objs.push(Obj { t, dims: d.to_vec(), v: (0..d[0] * d[1]).map(|i| v[i % d[1]]).collect() });
            }
            45 => {
                name!("moving expressions zipped, partially consumed", moves);
                let i = self.target(rng);
                let o = self.take(i);
                let n = o.v.len();
                self.moves = false;
                let u: T0<T> = Tensor::from(o.v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape(&o.dims[..]);
                let k = rng.range(0, n);
                let mut it = o.t.into_expr().zip(u).into_iter();
                for _ in 0..k {
                    let (x, y) = it.next().expect("ends early");
                    tick(CALL);
                    assert!(x.val() == y.val());
                }
            }
            46 => {
                name!("mismatching operands refused");
                let i = self.target(rng);
                let o = self.take(i);
                let mut d = o.dims.clone();
                d.push(2);
                let v: Vec<u32> = (0..product(&d) as u32).collect();
                let u: T0<T> = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape(&d[..]);
                let bad = d.len() == 1 || d[d.len() - 2] != 2 || d[..d.len() - 1].iter().any(|&x| x != 2);
                let r = if rng.chance(1, 2) { crate::run::caught(|| o.t.zip_with(u, |(x, _)| x).len()) } else { crate::run::caught(|| (o.t + u).len()) };
                assert!(r.is_err() || !bad, "shapes {:?} and {d:?} are accepted", o.dims);
            }
            47 => {
                name!("Array from_expr of a moving tensor");
                let v = self.fresh(4);
                let t: Tensor<T, (Const<2>, Const<2>)> = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_shape((Const::<2>, Const::<2>));
                let a = Array::<T, (Const<2>, Const<2>)>::from_expr(t.into_expr().map(|x| { tick(CALL); x }));
                let b = a.to_array();
                let mut d = a;
                d.assign(&b);
                d.clone_from(&b);
                let s: &Slice<T, (Const<2>, Const<2>)> = &b;
                s.clone_into(&mut d);
                assert!(read(&d) == v);
                let t = Tensor::from_expr(d);
                self.objs.push(Obj { t: t.into_dyn(), dims: vec![2, 2], v });
            }
            48 => {
                name!("clone_from of a moving expression");
                let v = self.fresh(3);
                let w = self.fresh(2);
                let mk = |v: &[u32]| Tensor::<T, (usize,)>::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_expr();
                let mut a = mk(&v);
                let b = mk(&w);
                a.clone_from(&b);
                let mut it = a.into_iter();
                assert!(it.next().map(|x| x.val()) == Some(w[0]));
            }
            49 => {
                name!("dropping an array", moves);
                if self.objs.len() > 1 {
                    let i = rng.below(self.objs.len());
                    let o = self.objs.remove(i);
                    drop(o.t);
                }
            }
            50 => {
                name!("dropping values handed out", moves);
                self.held.clear();
            }
            51 => {
                name!("swap and rotate through views", moves);
                let i = self.target(rng);
                let o = &mut self.objs[i];
                if o.v.len() > 1 {
                    let (a, b) = (rng.below(o.v.len()), rng.below(o.v.len()));
                    o.t[..].swap(a, b);
                    o.v.swap(a, b);
                }
            }
            52 => {
                name!("reserve and shrink", moves);
                let i = self.target(rng);
                let o = &mut self.objs[i];
                match rng.below(4) {
                    0 => o.t.reserve(rng.range(0, 9)),
                    1 => o.t.shrink_to_fit(),
                    2 => o.t.shrink_to(rng.range(0, 9)),
                    _ => o.t.reserve_exact(rng.range(0, 9)),
                }
            }
            53 => {
                name!("spare capacity and set_mapping", moves);
                let v = self.fresh(3);
                let mut t = Tensor::<T, (usize,)>::with_capacity(4);
                self.moves = false;
                for (s, &x) in t.spare_capacity_mut().iter_mut().take(3).zip(&v) {
                    s.write(T::mk(x));
                }
                unsafe { t.set_mapping(mdarray::DenseMapping::new((3,))) };
                self.objs.push(Obj { t: t.into_dyn(), dims: vec![3], v });
            }
            54 => {
                name!("replacing an array");
                let i = self.target(rng);
                let v = self.fresh(2);
                self.objs[i].t = Tensor::from(v.iter().map(|&x| T::mk(x)).collect::<Vec<T>>()).into_dyn();
                self.objs[i].dims = vec![2];
                self.objs[i].v = v;
            }
            55 => {
                name!("strided arrangement copied");
                let v = self.fresh(4);
                let mut c = Case::plain(rng.u64());
                let s = Strider::new(&mut c, &[2, 2], v.iter().map(|&x| T::mk(x)), || T::mk(0));
                let t = s.view().cloned().map(|x| { tick(CALL); x }).eval();
                let u = s.view().lanes(0usize).map(|l| { tick(CALL); l.to_tensor() }).eval();
                assert!(u.len() == 2);
                self.objs.push(Obj { t, dims: vec![2, 2], v });
            }
            56 => {
                name!("fold and for_each moving");
                let i = self.target(rng);
                let o = self.take(i);
                let mut n = 0;
                if rng.chance(1, 2) {
                    let all = o.t.into_expr().fold(Vec::new(), |mut a, x| { tick(CALL); a.push(x); a });
                    assert!(all.len() == o.v.len());
                    n = all.len();
                } else {
                    o.t.into_expr().for_each(|x| { tick(CALL); assert!(x.val() == o.v[n]); n += 1; });
                }
                assert!(n == o.v.len());
            }
            _ => {
                name!("compound assignment to a view");
                let i = self.target(rng);
                let d = self.objs[i].dims.clone();
                let v = self.objs[i].v.clone();
                let m = MV::dense(&d).reversed();
                let u: T0<T> = Tensor::from(m.idx.iter().map(|&k| T::mk(v[k] ^ 0x800)).collect::<Vec<T>>()).into_shape(&m.dims[..]);
                let mut w = self.objs[i].t.reorder_mut();
                w += u;
                let f = |x: u32, y: u32| if T::ZST { 0 } else { x.wrapping_mul(3).wrapping_add(y) };
                self.objs[i].v = v.iter().map(|&x| f(x, x ^ 0x800)).collect();
            }
        }
    }
}

impl<T: Track> Default for World<T> {
    fn default() -> Self {
        Self::new()
    }
}
