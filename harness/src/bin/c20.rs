//! C20: capacity management keeps its promises.

#![cfg_attr(feature = "nf", feature(allocator_api))]

use mdarray::expr::{self, Expression};
use mdarray::{DenseMapping, DynRank, Shape, Strided, Tensor, View};
use vh::chain::*;
use vh::*;

vh::check_main!("C20", run);

type U = usize;

/// Capacity of a tensor as the model knows it: at least this.
struct Mon<T: El, S: Shape> {
    t: Tensor<T, S>,
    dims: Vec<usize>,
    want: Vec<T>,
    next: u64,
}

const ZST_CAP: usize = usize::MAX;

impl<T: El, S: Shape> Mon<T, S> {
    const ZST: bool = size_of::<T>() == 0;

    fn inner(&self) -> usize {
        product(&self.dims[1..])
    }

    #[track_caller]
    fn check(&mut self, c: &mut Case) {
        let (n, cap) = (self.t.len(), self.t.capacity());
        assert!(cap >= n, "capacity {cap} is less than the length {n}");
        if Self::ZST {
            assert!(cap == ZST_CAP, "capacity {cap} of zero-sized elements");
        }
        assert!(self.t.as_ptr() as usize % align_of::<T>() == 0, "misaligned buffer");
        chk_vals(c, &self.t, &self.dims, &self.want);
        let base = self.t.as_ptr();
        let s = self.t.spare_capacity_mut();
        assert!(s.len() == cap - n, "spare capacity of {} instead of {}", s.len(), cap - n);
        assert!(s.as_ptr() as usize == base as usize + n * size_of::<T>(), "spare capacity is elsewhere");
        let s = &*s;
        assert!(Self::ZST || s.len() < 1 << 40);
        c.ev("capacity observations", 1);
    }

    fn rows(&mut self, k: usize) -> Vec<T> {
        let n = k * self.inner();
        let v = vals(n, self.next);
        self.next += n as u64;
        v
    }

    /// Adds `k` rows in one of the possible ways; returns false if it is not applicable.
    fn grow(&mut self, c: &mut Case, k: usize) -> bool {
        let mut d = self.dims.clone();
        d[0] = k;
        let new = self.rows(k);
        if self.t.is_empty() && (d.iter().any(|&x| x == 0) || S::RANK.is_none() && self.dims.len() != d.len()) {
            return false;
        }
        let other: Tensor<T, DynRank> = Tensor::from(new.clone()).into_shape(&d[..]);
        match c.rng.below(6) {
            0 => {
                c.log(|| format!("expand by a copy of {d:?}"));
                let other: Tensor<T, S> = other.into_mapping();
                self.op(c, true, |t| t.expand(&other));
            }
            1 => {
                c.log(|| format!("expand by {d:?}"));
                let other: Tensor<T, S> = other.into_mapping();
                self.op(c, true, |t| t.expand(other));
            }
            2 => {
                c.log(|| format!("append {d:?}"));
                let mut other: Tensor<T, S> = other.into_mapping();
                let (p, q) = (other.as_ptr(), other.capacity());
                self.op(c, true, |t| t.append(&mut other));
                assert!(other.is_empty() && (Self::ZST || other.as_ptr() == p) && other.capacity() == q);
            }
            3 => {
                c.log(|| format!("expand by a view of {d:?}"));
                let v: View<T, DynRank, Strided> = other.remap();
                self.op(c, true, |t| t.expand(v));
            }
            4 => {
                let mut e = self.dims.clone();
                e[0] += k;
                c.log(|| format!("resize_with {e:?}"));
                let mut it = new.iter().cloned();
                self.op(c, true, |t| t.resize_with(&e, || it.next().unwrap()));
            }
            _ => {
                c.log(|| format!("expand by an expression of {d:?}"));
                let v: View<T, S> = other.expr().into_mapping();
                self.op(c, true, |t| t.expand(v.cloned()));
            }
        }
        self.dims[0] += k;
        self.want.extend(new);
        true
    }

    /// Runs the operation and checks that nothing is reallocated if `within` holds and the result
    /// fits into the capacity.
    #[track_caller]
    fn op<R, F: FnOnce(&mut Tensor<T, S>) -> R>(&mut self, c: &mut Case, within: bool, f: F) -> R {
        let (p, cap) = (self.t.as_ptr(), self.t.capacity());
        let r = f(&mut self.t);
        if within && self.t.len() <= cap {
            assert!(self.t.as_ptr() == p, "the buffer moves although {} elements fit into {cap}", self.t.len());
            assert!(self.t.capacity() == cap, "capacity changes from {cap} to {} although {} elements fit", self.t.capacity(), self.t.len());
            c.ev("operations within the capacity", 1);
        }
        r
    }
}

fn history<T: El, S: Shape>(c: &mut Case, rank: usize) {
    let cap = c.cap(40);
    let mut d = c.rng.dims_pos(rank, cap);
    let start = if c.rng.chance(1, 3) {
        d.iter_mut().for_each(|x| *x = 0);
        let n = c.rng.range(0, 30);
        let t: Tensor<T, S> = Tensor::with_capacity(n);
        assert!(t.capacity() >= n, "capacity {} instead of {n}", t.capacity());
        if S::RANK.is_none() {
            d = vec![0];
        }
        t
    } else {
        tens::<T>(&d).into_mapping()
    };
    c.log(|| format!("tensor {d:?} of {}", T::NAME));
    let mut start = start;
    if !cfg!(miri) && c.rng.chance(1, 10) {
        // Far more room than elements.
        let k = *c.rng.pick(&[100, 1000, 1025, 2050, 4097, 5000, 9000, 20_000, 70_000]) + c.rng.below(20);
        c.log(|| format!("with room for {k} more"));
        let n = start.len();
        start.reserve(k);
        assert!(start.capacity() >= n + k);
        c.ev("histories with large buffers", 1);
    }
    let mut m: Mon<T, S> = Mon { want: start.to_vec(), t: start, dims: d, next: 10_000 };
    m.check(c);
    let mut sig = 7u64;
    for _ in 0..c.rng.range(1, 12) {
        let kind = c.rng.below(14);
        let (n, cap) = (m.t.len(), m.t.capacity());
        let p = m.t.as_ptr();
        let k = match c.rng.below(4) {
            0 => 0,
            1 => c.rng.range(0, 4),
            2 => c.rng.range(0, 40),
            _ => (cap - n).min(100) + c.rng.range(0, 1),
        };
        sig = vh::rng::mix(sig ^ (kind as u64) << 8 ^ k as u64);
        match kind {
            0..=2 => {
                c.log(|| format!("reserve {k}, kind {kind}"));
                match kind {
                    0 => m.t.reserve(k),
                    1 => m.t.reserve_exact(k),
                    _ => {
                        let res = if c.rng.chance(1, 2) { m.t.try_reserve(k) } else { m.t.try_reserve_exact(k) };
                        assert!(res.is_ok(), "reserving {k} elements fails");
                    }
                }
                let now = m.t.capacity();
                assert!(now >= n + k, "capacity {now} after reserving {k} for {n} elements");
                assert!(now >= cap, "capacity is reduced from {cap} to {now} by reserving {k}");
                if n + k <= cap {
                    assert!(m.t.as_ptr() == p && now == cap, "reallocation although {k} more elements fit ({n} of {cap})");
                }
                m.check(c);
                // The promised room is really there.
                if k > 0 && m.dims.len() == 1 {
                    let new = m.rows(k);
                    let (p, now) = (m.t.as_ptr(), m.t.capacity());
                    let before = vh::alloc::alloc_count();
                    let mut it = new.iter();
                    let e = expr::from_fn([k], |_| it.next().unwrap());
                    let own = size_of::<T>() > 0 && !matches!(T::NAME, "String" | "Box<u64>");
                    m.t.expand(e);
                    assert!(!own || !vh::alloc::active() || vh::alloc::alloc_count() == before, "allocation although the room was reserved");
                    assert!(m.t.as_ptr() == p && m.t.capacity() == now, "reallocation although the room was reserved");
                    m.want.extend(new);
                    m.dims[0] += k;
                    c.ev("reservations used up", 1);
                }
            }
            3 => {
                let k = if c.rng.chance(1, 3) { 0 } else { c.rng.range(0, n + 20) };
                c.log(|| format!("shrink_to {k}"));
                m.t.shrink_to(k);
                let now = m.t.capacity();
                assert!(now >= n.max(k).min(cap), "shrink_to({k}) reduces the capacity from {cap} to {now} for {n} elements");
                assert!(now <= cap, "shrink_to({k}) increases the capacity from {cap} to {now}");
                assert!(<Mon<T, S>>::ZST || now <= 2 * n.max(k) + 64, "shrink_to({k}) leaves a capacity of {now} for {n} elements");
                c.ev("shrink operations", 1);
            }
            4 => {
                c.log(|| "shrink_to_fit".into());
                m.t.shrink_to_fit();
                let now = m.t.capacity();
                assert!(now >= n && now <= cap, "shrink_to_fit changes the capacity from {cap} to {now} for {n} elements");
                assert!(<Mon<T, S>>::ZST || now <= 2 * n + 64, "shrink_to_fit leaves a capacity of {now} for {n} elements");
                c.ev("shrink operations", 1);
            }
            5 => {
                // Requests that cannot be satisfied.
                let size = size_of::<T>().max(1);
                let huge = match c.rng.below(4) {
                    0 => usize::MAX,
                    1 => usize::MAX - n.saturating_sub(1),
                    2 if size > 1 => isize::MAX as usize / size + 1,
                    _ => usize::MAX - c.rng.range(0, n),
                };
                let fits = <Mon<T, S>>::ZST && huge <= usize::MAX - n;
                c.log(|| format!("reserve {huge}"));
                let (a, b) = (m.t.try_reserve(huge), m.t.try_reserve_exact(huge));
                assert!(a.is_ok() == fits && b.is_ok() == fits, "reserving {huge} elements: {a:?}, {b:?}");
                for exact in [false, true] {
                    let res = caught(|| if exact { m.t.reserve_exact(huge) } else { m.t.reserve(huge) });
                    assert!(res.is_ok() == fits, "reserving {huge} elements: {res:?}");
                }
                assert!(m.t.as_ptr() == p && m.t.capacity() == cap, "a failed reservation changes the buffer");
                c.ev("failed reservations", 4 * !fits as usize);
            }
            6 if vh::alloc::active() && size_of::<T>() > 0 => {
                // Allocation failure.
                let k = cap - n + c.rng.range(1, 50);
                c.log(|| format!("reserve {k} without memory"));
                vh::alloc::fail_from(0);
                let a = if c.rng.chance(1, 2) { m.t.try_reserve(k) } else { m.t.try_reserve_exact(k) };
                vh::alloc::fail_from(usize::MAX);
                assert!(a.is_err(), "reserving {k} elements without memory succeeds");
                assert!(m.t.as_ptr() == p && m.t.capacity() == cap, "a failed reservation changes the buffer");
                m.check(c);
                assert!(m.t.try_reserve(k).is_ok() && m.t.capacity() >= n + k);
                c.ev("allocation failures", 1);
            }
            7 => {
                if m.t.is_empty() && m.dims.len() > 1 {
                    // An empty tensor has no inner dimensions to grow with.
                    let d = c.rng.dims_pos(m.dims.len(), 20);
                    let new: Vec<T> = vals(product(&d), m.next);
                    m.next += new.len() as u64;
                    let o: Tensor<T, S> = Tensor::<T, DynRank>::from(Tensor::<T, (U,)>::from(new.clone()).into_shape(&d[..])).into_mapping();
                    c.log(|| format!("expand the empty tensor by {d:?}"));
                    match c.rng.below(4) {
                        0 => m.op(c, true, |t| t.expand(&o)),
                        1 => m.op(c, true, |t| t.expand(o)),
                        2 => m.op(c, true, |t| t.expand(o.expr().cloned())),
                        _ => {
                            let mut o = o;
                            let (q, k) = (o.as_ptr(), o.capacity());
                            m.op(c, true, |t| t.append(&mut o));
                            assert!(o.is_empty() && o.as_ptr() == q && o.capacity() == k, "append changes the buffer of its argument");
                        }
                    }
                    m.want = new;
                    m.dims = d;
                } else {
                    let k = k.min(60 / m.inner().max(1));
                    m.grow(c, k);
                }
            }
            8 => {
                let s = c.rng.range(0, m.dims[0]);
                c.log(|| format!("truncate to {s}"));
                m.op(c, true, |t| t.truncate(s));
                assert!(m.t.capacity() == cap && m.t.as_ptr() == p, "truncate changes the buffer");
                m.dims[0] = s.min(m.dims[0]);
                let n = product(&m.dims);
                m.want.truncate(n);
            }
            9 => {
                let a = c.rng.range(0, m.dims[0]);
                let b = c.rng.range(a, m.dims[0]);
                let w = m.inner();
                c.log(|| format!("drain {a}..{b}"));
                m.op(c, true, |t| drop(t.drain(a..b)));
                assert!(m.t.capacity() == cap && m.t.as_ptr() == p, "drain changes the buffer");
                m.want.drain(a * w..b * w);
                m.dims[0] -= b - a;
            }
            12 => {
                // The buffer is taken apart and put together again.
                let how = c.rng.below(4);
                c.log(|| format!("take apart, kind {how}"));
                let t = std::mem::replace(&mut m.t, Tensor::with_capacity(0));
                m.t = match how {
                    0 => {
                        let (q, map, k) = t.into_raw_parts();
                        assert!(q as *const T == p && (<Mon<T, S>>::ZST || k == cap), "raw parts: capacity {k} instead of {cap}");
                        unsafe { Tensor::from_raw_parts(q, map, k) }
                    }
                    1 => {
                        let v = t.into_vec();
                        assert!(v.as_ptr() == p && v.capacity() == cap, "into_vec: capacity {} instead of {cap}", v.capacity());
                        let t: Tensor<T, DynRank> = Tensor::from(v).into_shape(&m.dims[..]);
                        t.into_mapping()
                    }
                    2 => t.into_dyn().into_mapping(),
                    _ => {
                        let mut v = t.into_flat();
                        v.reserve(0);
                        v.into_shape(S::from_dims(&m.dims))
                    }
                };
                assert!(m.t.as_ptr() == p && m.t.capacity() == cap, "the buffer with capacity {cap} is not kept, capacity {}", m.t.capacity());
                c.ev("buffers taken apart", 1);
            }
            10 if c.rng.chance(1, 4) => {
                c.log(|| "clear".into());
                m.op(c, true, |t| t.clear());
                assert!(m.t.capacity() == cap && m.t.as_ptr() == p, "clear changes the buffer");
                m.want.clear();
                m.dims = if S::RANK.is_none() { vec![0] } else { vec![0; m.dims.len()] };
            }
            _ => {
                // Fill the spare capacity, then take the new elements over.
                let w = m.inner();
                if m.dims.len() > 1 && w == 0 {
                    continue;
                }
                let k = ((cap - n) / w).min(20);
                c.log(|| format!("fill the spare capacity with {k} rows"));
                let new = m.rows(k);
                for (x, y) in m.t.spare_capacity_mut().iter_mut().zip(&new) {
                    x.write(y.clone());
                }
                m.dims[0] += k;
                unsafe { m.t.set_mapping(DenseMapping::new(S::from_dims(&m.dims))) };
                assert!(m.t.as_ptr() == p && m.t.capacity() == cap);
                m.want.extend(new);
                c.ev("spare capacity filled", 1);
            }
        }
        m.check(c);
    }
    // Element-wise operations in place.
    let (p, cap, d) = (m.t.as_ptr(), m.t.capacity(), m.dims.clone());
    let t = m.t.map(|x| x);
    assert!(t.as_ptr() == p && t.capacity() == cap, "map does not reuse the buffer");
    chk_vals(c, &t, &d, &m.want);
    c.ev("operations in place", 1);
    c.seen(&[sig, d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
    let v = t.into_vec();
    assert!(v == m.want && v.as_ptr() == p);
}

/// Long buffers, that are emptied and refilled in large steps.
fn large<T: El, S: Shape>(c: &mut Case, inner: &[usize]) {
    let w = product(inner);
    let rows = c.rng.range(1, 6000) / w + 1;
    let mut d = vec![rows];
    d.extend(inner);
    c.log(|| format!("large tensor {d:?} of {}", T::NAME));
    let t: Tensor<T, S> = tens::<T>(&d).into_mapping();
    let mut m: Mon<T, S> = Mon { want: t.to_vec(), t, dims: d, next: 10_000 };
    m.check(c);
    let mut sig = rows as u64;
    for _ in 0..c.rng.range(2, 6) {
        let (cap, p) = (m.t.capacity(), m.t.as_ptr());
        let kind = c.rng.below(7);
        let n = m.dims[0];
        let s = match c.rng.below(4) {
            0 => 0,
            1 => c.rng.range(0, n.min(5)),
            2 => n - c.rng.range(0, n.min(5)),
            _ => c.rng.range(0, n),
        };
        sig = vh::rng::mix(sig ^ (kind as u64) << 40 ^ s as u64);
        c.log(|| format!("operation {kind} with {s} of {:?}", m.dims));
        let empty = |m: &mut Mon<T, S>| {
            if S::RANK.is_none() {
                m.dims = vec![0];
            } else {
                m.dims.iter_mut().for_each(|x| *x = 0);
            }
            m.want.clear();
        };
        match kind {
            0 => {
                m.t.clear();
                empty(&mut m);
            }
            1 => {
                m.t.truncate(s);
                m.dims[0] = s;
                m.want.truncate(s * w);
            }
            2 => {
                drop(m.t.drain(s..));
                m.dims[0] = s;
                m.want.truncate(s * w);
            }
            3 => {
                drop(m.t.drain(..s));
                m.dims[0] -= s;
                m.want.drain(..s * w);
            }
            4 => {
                if m.dims[1..] == *inner {
                    let mut d = m.dims.clone();
                    d[0] = s;
                    if c.rng.chance(1, 2) { m.t.resize(&d, T::make(0)) } else { m.t.resize_with(&d, || T::make(0)) };
                    m.dims = d;
                    m.want.truncate(s * w);
                }
            }
            5 => {
                let mut o: Tensor<T, S> = Tensor::new();
                o.append(&mut m.t);
                assert!(o.to_vec() == m.want, "append to an empty tensor");
                if m.want.is_empty() || c.rng.chance(1, 2) {
                    m.dims[0] = 0;
                    m.want.clear();
                } else {
                    m.op(c, true, |t| t.append(&mut o));
                    assert!(o.is_empty());
                }
            }
            _ => {
                let k = (cap.min(8000) - m.t.len().min(8000)) / w;
                if k > 0 && m.dims[1..] == *inner {
                    let new = m.rows(k);
                    let mut d = m.dims.clone();
                    d[0] = k;
                    let o: Tensor<T, S> = Tensor::<T, (U,)>::from(new.clone()).into_shape(&d[..]).into_mapping();
                    m.op(c, true, |t| t.expand(o));
                    m.dims[0] += k;
                    m.want.extend(new);
                }
            }
        }
        assert!(m.t.capacity() == cap && m.t.as_ptr() == p, "operation {kind} changes the buffer from {cap} to {} elements of room", m.t.capacity());
        c.ev("large operations within the capacity", 1);
        m.check(c);
    }
    c.seen(&[sig]);
}

fn any_history<T: El>(c: &mut Case) {
    match c.rng.below(6) {
        0 => history::<T, (U,)>(c, 1),
        1 => history::<T, (U, U)>(c, 2),
        2 => history::<T, (U, U, U)>(c, 3),
        3 => history::<T, (U, U, U, U)>(c, 4),
        _ => {
            let r = c.rng.range(1, 7);
            history::<T, DynRank>(c, r)
        }
    }
}

/// Operators on owned tensors reuse the buffer and allocate nothing.
fn in_place(c: &mut Case) {
    let r = c.rng.range(0, 5);
    let cap = c.cap(60);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let mk = |k: u64| -> Tensor<u32, DynRank> {
        let mut v: Vec<u32> = (0..n as u32).map(|i| i % 50_000 + k as u32).collect();
        v.reserve(k as usize % 3);
        Tensor::from(v).into_shape(&d[..])
    };
    c.log(|| format!("operators on {d:?}"));
    c.seen(&[d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
    let b = mk(5);
    let sv = Strider::new(c, &d, (0..n as u32).map(|i| i % 50_000 + 5), || 0);
    macro_rules! ops {
        ($($what:expr, $a:ident => $f:expr, $g:expr;)*) => {$({
            as_rank_t!(mk(1), r, $a => {
                let (p, k) = ($a.as_ptr(), $a.capacity());
                let want: Vec<u32> = (0..n as u32).map(|i| i % 50_000).map(|i| $g(i + 1, i + 5)).collect();
                let u = $f;
                assert!(u.as_ptr() == p && u.capacity() == k, "{} does not reuse the buffer", $what);
                chk_vals(c, &u, &d, &want);
                c.ev("operations in place", 1);
            });
        })*};
    }
    ops! {
        "addition of a reference", a => a + &b, |x: u32, y: u32| x + y;
        "addition of a strided view", a => a + sv.view(), |x: u32, y: u32| x + y;
        "subtraction of a scalar", a => a - expr::fill(1), |x: u32, _| x - 1;
        "bit inversion", a => !a, |x: u32, _| !x;
        "multiplication by an owned tensor", a => a * mk(5), |x: u32, y: u32| x * y;
    }
    if vh::alloc::active() {
        let a = mk(1).into_flat();
        let before = vh::alloc::alloc_count();
        let a = a.map(|x| x + 2);
        assert!(vh::alloc::alloc_count() == before, "map of an owned tensor allocates");
        drop(a);
    }
}

/// Extending vectors by iterators with any size hint.
fn extend(c: &mut Case) {
    let n = c.rng.range(0, 20);
    let k = c.rng.range(0, 30);
    let mut t: Tensor<u64, (U,)> = Tensor::from(vals::<u64>(n, 0));
    let room = c.rng.range(0, 60);
    t.reserve(room);
    let (p, cap) = (t.as_ptr(), t.capacity());
    c.log(|| format!("extend {n} of {cap} by {k}"));
    let new = vals::<u64>(k, 500);
    match c.rng.below(4) {
        0 => t.extend(new.iter()),
        1 => t.extend(new.clone()),
        2 => t.extend(new.iter().copied().filter(|_| true)),
        _ => {
            let mut i = 0;
            t.extend(std::iter::from_fn(|| {
                i += 1;
                new.get(i - 1).copied()
            }))
        }
    }
    assert!(t.capacity() >= t.len());
    if n + k <= cap {
        assert!(t.as_ptr() == p && t.capacity() == cap, "extend reallocates although {} elements fit into {cap}", n + k);
        c.ev("operations within the capacity", 1);
    }
    let want: Vec<u64> = vals::<u64>(n, 0).into_iter().chain(new).collect();
    chk_vals(c, &t, &[n + k], &want);
    c.seen(&[n as u64, k as u64, room as u64]);
}

#[cfg(feature = "nf")]
mod nf {
    use super::*;
    use std::alloc::{AllocError, Allocator, Global, Layout};
    use std::cell::Cell;
    use std::collections::HashMap;
    use std::ptr::NonNull;
    use std::rc::Rc;

    #[derive(Default)]
    struct State {
        live: std::cell::RefCell<HashMap<usize, Layout>>,
        fail: Cell<bool>,
        bad: Cell<bool>,
        count: Cell<usize>,
    }

    /// Allocator instance that accepts only its own blocks.
    #[derive(Clone)]
    pub struct Own(Rc<State>, #[allow(dead_code)] u32);

    unsafe impl Allocator for Own {
        fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, AllocError> {
            if self.0.fail.get() {
                return Err(AllocError);
            }
            let p = Global.allocate(l)?;
            if l.size() > 0 {
                self.0.count.set(self.0.count.get() + 1);
                self.0.live.borrow_mut().insert(p.as_ptr() as *mut u8 as usize, l);
            }
            Ok(p)
        }

        unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) {
            if l.size() > 0 {
                if self.0.live.borrow_mut().remove(&(p.as_ptr() as usize)) != Some(l) {
                    self.0.bad.set(true);
                    return;
                }
            }
            unsafe { Global.deallocate(p, l) }
        }
    }

    fn own(id: u32) -> Own {
        Own(Default::default(), id)
    }

    /// Histories with tensors that have their own allocators.
    pub fn histories<T: El>(c: &mut Case) {
        let allocs: Vec<Own> = (0..3).map(own).collect();
        let who = |a: &Own| allocs.iter().position(|b| Rc::ptr_eq(&a.0, &b.0)).unwrap();
        {
            type TT<T> = Tensor<T, (U, U), Own>;
            let mut ts: Vec<(TT<T>, Vec<T>, usize)> = Vec::new();
            for i in 0..3 {
                let d = c.rng.dims_pos(2, 20);
                let n = product(&d);
                let t: TT<T> = match c.rng.below(3) {
                    0 => Tensor::from_elem_in([d[0], d[1]], T::make(7), allocs[i].clone()),
                    1 => {
                        let mut k = 0;
                        Tensor::from_fn_in([d[0], d[1]], |_| { k += 1; T::make(k) }, allocs[i].clone())
                    }
                    _ => {
                        let mut t: TT<T> = Tensor::with_capacity_in(c.rng.range(0, 30), allocs[i].clone());
                        t.resize(&d, T::make(3));
                        t
                    }
                };
                assert!(t.len() == n && who(t.allocator()) == i);
                let v = t.to_vec();
                ts.push((t, v, i));
            }
            for _ in 0..c.rng.range(1, 10) {
                let i = c.rng.below(3);
                let j = (i + 1) % 3;
                let op = c.rng.below(23);
                c.log(|| format!("operation {op} on tensor {i}"));
                match op {
                    0 => {
                        let d = c.rng.dims(2, 30);
                        ts[i].0.resize(&d, T::make(9));
                        ts[i].1 = ts[i].0.to_vec();
                    }
                    1 => {
                        let (a, b) = (ts[i].0.clone(), ts[i].1.clone());
                        let k = ts[i].2;
                        assert!(who(a.allocator()) == k);
                        ts[j] = (a, b, k);
                    }
                    2 => {
                        let (s, v) = (ts[i].0.clone(), ts[i].1.clone());
                        ts[j].0.clone_from(&s);
                        ts[j].1 = v;
                    }
                    3 => {
                        let (t, v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let (p0, room) = (t.as_ptr(), t.capacity());
                        let (p, m, cap, a) = t.into_raw_parts_with_alloc();
                        assert!(who(&a) == k);
                        ts[i] = (unsafe { Tensor::from_raw_parts_in(p, m, cap, a) }, v, k);
                        assert!(ts[i].0.as_ptr() == p0 && ts[i].0.capacity() == room, "the raw parts with capacity {room} are not kept");
                    }
                    4 => {
                        let (t, v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let m = t.dim(1);
                        let n = t.dim(0);
                        let t = t.map(|x| x).into_dyn().into_mapping::<(U, U)>().into_flat().into_shape([n, m]);
                        assert!(who(t.allocator()) == k);
                        ts[i] = (t, v, k);
                    }
                    5 => {
                        // Allocation failure.
                        let (n, cap) = (ts[i].0.len(), ts[i].0.capacity());
                        let a = ts[i].0.allocator().clone();
                        a.0.fail.set(true);
                        let more = if size_of::<T>() == 0 { usize::MAX - n } else { cap - n + 1 };
                        let r = ts[i].0.try_reserve(more);
                        a.0.fail.set(false);
                        assert!(r.is_err() || size_of::<T>() == 0);
                        assert!(ts[i].0.capacity() == cap);
                        c.ev("allocation failures", 1);
                    }
                    6 => {
                        let h = ts[i].0.dim(0) / 2;
                        let w = ts[i].0.dim(1);
                        let v: Vec<T> = ts[i].0.drain(..h).into_iter().collect();
                        assert!(v == ts[i].1[..h * w]);
                        ts[i].1.drain(..h * w);
                    }
                    7 => {
                        let (t, v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let take = c.rng.range(0, v.len());
                        let got: Vec<T> = t.into_iter().take(take).collect();
                        assert!(got == v[..take]);
                        let _ = k;
                    }
                    8 => {
                        // Copies with another allocator.
                        let (a, v) = (allocs[j].clone(), ts[i].1.clone());
                        ts[j] = (ts[i].0.to_tensor_in(a), v, j);
                        assert!(ts[i].0 == ts[j].0, "the copy differs");
                    }
                    9 => {
                        // Copies of strided views.
                        let d = [ts[i].0.dim(0), ts[i].0.dim(1)];
                        let x = ts[i].0.permute((mdarray::Const::<1>, mdarray::Const::<0>));
                        let u: TT<T> = x.to_tensor_in(allocs[j].clone());
                        let w = x.to_vec_in(allocs[i].clone());
                        assert!(who(u.allocator()) == j && who(w.allocator()) == i, "the copy has another allocator");
                        assert!([u.dim(1), u.dim(0)] == d && w.len() == d[0] * d[1]);
                        for k in 0..w.len() {
                            let e = &ts[i].1[k % d[0] * d[1] + k / d[0]];
                            assert!(u[k] == *e && w[k] == *e, "element {k} of the copy is {:?}, expected {e:?}", u[k]);
                        }
                        ts[j] = (u, w.to_vec(), j);
                    }
                    10 => {
                        // The elements move, the memory of each stays with its allocator.
                        let (mut o, w, k) = std::mem::replace(&mut ts[j], (Tensor::new_in(allocs[j].clone()), vec![], j));
                        let ok = ts[i].0.is_empty() || o.is_empty() || ts[i].0.dim(1) == o.dim(1);
                        let r = caught(|| ts[i].0.append(&mut o));
                        assert!(r.is_ok() == ok, "append is {}", if ok { "refused" } else { "accepted" });
                        if ok {
                            assert!(o.is_empty(), "append leaves elements");
                            ts[i].1.extend(w);
                        } else {
                            // What the refused operation leaves behind.
                            assert!(ts[i].0.capacity() >= ts[i].0.len());
                            ts[i].1 = ts[i].0.to_vec();
                        }
                        assert!(who(o.allocator()) == k);
                    }
                    11 => {
                        let d = [c.rng.range(0, 4), if ts[i].0.is_empty() { 3 } else { ts[i].0.dim(1) }];
                        let mut n = 50;
                        let e = mdarray::expr::from_fn(d, |_| { n += 1; T::make(n) });
                        ts[i].0.expand(e);
                        let m = d[0] * d[1];
                        ts[i].1.extend((0..m as u64).map(|x| T::make(51 + x)));
                    }
                    12 => {
                        // A vector and back, as one-dimensional tensor that is extended.
                        let (t, mut v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let (cap, ptr) = (t.capacity(), t.as_ptr());
                        let w: Vec<T, Own> = t.into_vec();
                        assert!(who(w.allocator()) == k && w[..] == v[..] && w.capacity() == cap && w.as_ptr() == ptr, "the vector differs");
                        let mut f: Tensor<T, (U,), Own> = Tensor::from(w);
                        assert!(who(f.allocator()) == k && f.capacity() == cap && f.as_ptr() == ptr);
                        let more = c.rng.range(0, 5) as u64;
                        f.extend((0..more).map(|x| T::make(70 + x)));
                        v.extend((0..more).map(|x| T::make(70 + x)));
                        let w = Vec::from(f);
                        assert!(who(w.allocator()) == k && w[..] == v[..]);
                        let n = w.len();
                        ts[i] = (Tensor::from(w).into_shape([n, 1]), v, k);
                    }
                    13 => {
                        // Panics while the tensor is taken apart.
                        let d = c.rng.dims(2, 30);
                        let mut left = c.rng.range(0, 6);
                        let before = ts[i].0.len();
                        let r = caught(|| ts[i].0.resize_with(&d, || {
                            assert!(left > 0, "stop");
                            left -= 1;
                            T::make(5)
                        }));
                        assert!(ts[i].0.capacity() >= ts[i].0.len() && ts[i].0.len() == ts[i].0.dim(0) * ts[i].0.dim(1));
                        assert!(r.is_err() || ts[i].0.len() == d[0] * d[1], "{before} elements before");
                        ts[i].1 = ts[i].0.to_vec();
                        c.ev("panics with own allocators", r.is_err() as usize);
                    }
                    14 => {
                        let (t, v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let mut left = c.rng.range(0, 2 * v.len() + 1);
                        let r = caught(|| t.map(|x| {
                            assert!(left > 0, "stop");
                            left -= 1;
                            x
                        }));
                        if let Ok(t) = r {
                            ts[i] = (t, v, k);
                        }
                    }
                    15 => {
                        // A clone of the expression.
                        let (t, v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let e = mdarray::expr::IntoExpression::into_expr(t);
                        let mut o = e.clone().into_iter();
                        for x in &v[..c.rng.range(0, v.len())] {
                            assert!(o.next().as_ref() == Some(x), "the clone of the expression differs");
                        }
                        assert!(e.into_iter().eq(v.iter().cloned()), "the expression differs after cloning it");
                        let _ = k;
                    }
                    16 => {
                        // Evaluated into a tensor with its own allocator.
                        let u = Tensor::<T, (U, U)>::from_elem([2, 2], T::make(8));
                        if ts[i].0.is_empty() || ts[i].0.dim(1) == 2 {
                            let n = ts[i].1.len();
                            let r: &mut TT<T> = &mut ts[i].0;
                            let p = u.expr().cloned().eval_into(r);
                            assert!(p.len() == n + 4);
                            ts[i].1.extend((0..4).map(|_| T::make(8)));
                        }
                    }
                    17 => {
                        let h = c.rng.range(0, ts[i].0.dim(0));
                        let w = ts[i].0.dim(1);
                        ts[i].0.truncate(h);
                        ts[i].1.truncate(h * w);
                    }
                    18 => {
                        ts[i].0.clear();
                        ts[i].1.clear();
                    }
                    19 => {
                        // A leaked drain.
                        let d = ts[i].0.dim(0);
                        let a = c.rng.range(0, d);
                        let b = c.rng.range(a, d);
                        let mut x = ts[i].0.drain(a..b).into_iter();
                        _ = x.next();
                        std::mem::forget(x);
                        ts[i].1 = ts[i].0.to_vec();
                    }
                    20 => {
                        if ts[i].0.len() == 1 {
                            let (t, v, _) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                            assert!(t.into_scalar() == v[0]);
                        }
                    }
                    21 => {
                        // Rejected reshaping releases the memory.
                        let (t, v, k) = std::mem::replace(&mut ts[i], (Tensor::new_in(allocs[i].clone()), vec![], i));
                        let n = v.len();
                        let m = n + c.rng.below(2);
                        let r = caught(|| t.into_shape([m, 1]));
                        assert!(r.is_ok() == (n == m), "reshape of {n} elements to {m}");
                        if let Ok(t) = r {
                            ts[i] = (t, v, k);
                        }
                    }
                    _ => {
                        ts[i].0.shrink_to_fit();
                        ts[i].0.reserve(c.rng.range(0, 40));
                    }
                }
                for (t, v, k) in &ts {
                    assert!(t.to_vec() == *v, "elements differ");
                    assert!(who(t.allocator()) == *k, "tensor has the allocator {} instead of {k}", who(t.allocator()));
                    assert!(t.capacity() >= t.len());
                }
            }
        }
        for a in &allocs {
            assert!(!a.0.bad.get(), "a block was returned to the wrong allocator or with the wrong layout");
            assert!(a.0.live.borrow().is_empty(), "{} blocks were not returned", a.0.live.borrow().len());
            c.ev("blocks of own allocators", a.0.count.get());
        }
        c.seen(&[c.index]);
    }
}

pub fn run(r: &mut Runner) {
    r.section("history-u64", 1200, 6, any_history::<u64>);
    r.section("history-string", 500, 4, any_history::<String>);
    r.section("history-aligned", 400, 3, any_history::<A64>);
    r.section("history-odd", 200, 1, any_history::<[u16; 3]>);
    r.section("history-box", 200, 1, any_history::<Box<u64>>);
    r.section("history-zst", 300, 3, any_history::<Z>);
    r.section("history-u8", 400, 3, any_history::<u8>);
    if !r.is_miri() {
        r.section("large-u64", 120, 0, |c| match c.rng.below(3) {
            0 => large::<u64, (U,)>(c, &[]),
            1 => large::<u64, (U, U)>(c, &[3]),
            _ => large::<u64, DynRank>(c, &[2, 1, 2]),
        });
        r.section("large-u8", 80, 0, |c| match c.rng.below(3) {
            0 => large::<u8, (U,)>(c, &[]),
            1 => large::<u8, (U, U)>(c, &[7]),
            _ => large::<u8, DynRank>(c, &[5]),
        });
        r.section("large-string", 20, 0, |c| match c.rng.below(2) {
            0 => large::<String, (U,)>(c, &[]),
            _ => large::<String, DynRank>(c, &[3]),
        });
    }
    r.section("in-place", 400, 4, in_place);
    r.section("extend", 500, 6, extend);
    #[cfg(feature = "nf")]
    {
        r.section("own-u64", 400, 4, nf::histories::<u64>);
        r.section("own-string", 400, 4, nf::histories::<String>);
        r.section("own-zst", 200, 4, nf::histories::<Z>);
    }
    r.large("history-large", 8, any_history::<u64>);
    r.large("in-place-large", 6, in_place);
}
