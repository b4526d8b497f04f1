//! Views of arrays with billions of elements. The elements live in reserved address space that is
//! never filled, so that the monitors can compare the addresses of elements with an exact model of
//! the layout (offsets beyond 32 bits, huge strides and steps) at no cost.

use std::sync::OnceLock;

use mdarray::{Dense, DenseMapping, DynRank, Mapping, Rank, Shape, Slice, Strided, View, ViewMut};

use crate::model::*;
use crate::rng::hash_all;
use crate::run::{caught, Case};

/// Address space that is reserved.
pub const BYTES: usize = 9 << 30;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// The reserved area, if the system allows it.
pub fn area() -> Option<*mut u8> {
    static AREA: OnceLock<usize> = OnceLock::new();
    if cfg!(miri) {
        return None;
    }
    let p = *AREA.get_or_init(|| unsafe {
        // The limit for the address space (set against runaway allocations) is for the rest.
        const AS: i32 = 9;
        let mut l = [0u64; 2];
        if getrlimit(AS, &mut l) == 0 && l[0] < 1 << 60 {
            let l = [(l[0] + BYTES as u64).min(l[1]), l[1]];
            setrlimit(AS, &l);
        }
        // Private, anonymous, without reserving memory.
        let p = mmap(std::ptr::null_mut(), BYTES, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        if p as isize == -1 { 0 } else { p as usize }
    });
    (p != 0).then_some(p as *mut u8)
}

/// Exact model of an affine layout.
#[derive(Clone, Debug)]
pub struct AV {
    pub dims: Vec<usize>,
    pub strides: Vec<i128>,
    pub off: i128,
}

impl AV {
    pub fn dense(dims: &[usize]) -> AV {
        let mut strides = vec![0; dims.len()];
        let mut s = 1i128;
        for i in (0..dims.len()).rev() {
            strides[i] = s;
            s *= dims[i] as i128;
        }
        AV { dims: dims.to_vec(), strides, off: 0 }
    }

    pub fn rank(&self) -> usize {
        self.dims.len()
    }

    pub fn len(&self) -> usize {
        self.dims.iter().product()
    }

    pub fn at(&self, index: &[usize]) -> i128 {
        self.off + index.iter().zip(&self.strides).map(|(&i, s)| i as i128 * s).sum::<i128>()
    }

    pub fn linear(&self, mut p: usize) -> Vec<usize> {
        let mut i = vec![0; self.rank()];
        for k in (0..self.rank()).rev() {
            i[k] = p % self.dims[k];
            p /= self.dims[k];
        }
        i
    }

    pub fn select(&self, s: &[(usize, usize, isize)]) -> AV {
        let mut r = self.clone();
        for (k, &(a, b, n)) in s.iter().enumerate() {
            let u = n.unsigned_abs();
            r.dims[k] = (b - a).div_ceil(u);
            let first = if n < 0 && b > a { b - 1 } else { a };
            r.off += first as i128 * self.strides[k];
            r.strides[k] = self.strides[k] * n as i128;
        }
        r
    }

    pub fn permute(&self, p: &[usize]) -> AV {
        AV { dims: p.iter().map(|&i| self.dims[i]).collect(), strides: p.iter().map(|&i| self.strides[i]).collect(), off: self.off }
    }

    pub fn axis_at(&self, axis: usize, i: usize) -> AV {
        let mut r = self.clone();
        r.off += i as i128 * self.strides[axis];
        r.dims.remove(axis);
        r.strides.remove(axis);
        r
    }
}

pub const VIEWS: u32 = 1;
pub const AXES: u32 = 2;
pub const PERMS: u32 = 4;
pub const SHAPES: u32 = 8;
pub const INDEX: u32 = 16;
pub const ITER: u32 = 32;
pub const LANES: u32 = 64;
pub const WRITE: u32 = 128;

type V<'a, T> = View<'a, T, DynRank, Strided>;
type B = (std::ops::Bound<usize>, std::ops::Bound<usize>);

fn bounds(a: usize, b: usize) -> B {
    (std::ops::Bound::Included(a), std::ops::Bound::Excluded(b))
}

/// Dimensions with close to `n` elements.
fn dims(c: &mut Case, rank: usize, n: usize) -> Vec<usize> {
    let mut rest = n;
    let mut d = vec![1; rank];
    let mut order: Vec<usize> = (0..rank).collect();
    c.rng.shuffle(&mut order);
    for (k, &i) in order.iter().enumerate() {
        let bits = usize::BITS - rest.leading_zeros() - 1;
        let x = if k + 1 == rank {
            rest
        } else {
            let e = c.rng.range(0, bits as usize);
            let lo = 1usize << e;
            (lo + c.rng.below(lo)).min(rest)
        };
        d[i] = x.max(1);
        rest /= d[i];
        rest = rest.max(1);
    }
    d
}

fn elem<T>(x: &T, base: *const T, want: i128, what: &str, m: &AV, i: &[usize]) {
    let got = (x as *const T as usize as i128 - base as usize as i128) / size_of::<T>() as i128;
    assert!(got == want, "{what} {i:?} of an array with dimensions {:?} and strides {:?} is at offset {got}, expected {want}", m.dims, m.strides);
}

fn probe<T, S: Shape, L: mdarray::Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &AV, base: *const T, look: u32) {
    let got = s.shape().with_dims(|d| d.to_vec());
    assert!(got == m.dims, "dimensions are {got:?}, expected {:?}", m.dims);
    assert!(s.len() == m.len() && s.rank() == m.rank(), "length is {} for {:?}", s.len(), m.dims);
    if m.len() == 0 {
        assert!(s.is_empty() && s.iter().next().is_none());
        return;
    }
    for k in 0..m.rank() {
        assert!(m.dims[k] < 2 || s.stride(k) as i128 == m.strides[k], "stride({k}) is {}, expected {}", s.stride(k), m.strides[k]);
    }
    let n = m.len();
    for k in 0..8 {
        let p = match k {
            0 => 0,
            1 => n - 1,
            _ => c.rng.below(n),
        };
        let i = m.linear(p);
        let want = m.at(&i);
        elem(&s[&i[..]], base, want, "the element at index", m, &i);
        if look & INDEX != 0 {
            elem(&s[p], base, want, "the element with linear index of", m, &i);
            unsafe {
                elem(s.get_unchecked(&i[..]), base, want, "the unchecked element at index", m, &i);
                elem(s.get_unchecked(p), base, want, "the unchecked element with linear index of", m, &i);
            }
        }
        c.ev("addresses of elements in huge arrays compared", 1);
    }
    let limit = if look & ITER != 0 { 2000 } else { 100 };
    if n <= limit {
        let mut p = 0;
        for x in s.iter() {
            let i = m.linear(p);
            elem(x, base, m.at(&i), "the iterated element at index", m, &i);
            p += 1;
        }
        assert!(p == n, "{p} of {n} elements are visited");
        p = 0;
        s.iter().for_each(|x| {
            let i = m.linear(p);
            elem(x, base, m.at(&i), "the folded element at index", m, &i);
            p += 1;
        });
        assert!(p == n, "{p} of {n} elements are visited");
        c.ev("elements of huge arrays iterated", n);
    } else {
        let mut it = s.iter();
        let k = c.rng.range(1, limit);
        for p in 0..k {
            assert!(it.len() == n - p, "the remaining length is {} of {n} after {p}", it.len());
            let i = m.linear(p);
            elem(it.next().unwrap(), base, m.at(&i), "the iterated element at index", m, &i);
        }
        if c.rng.chance(1, 2) {
            let q = k + c.rng.below(300).min(n - k - 1);
            let i = m.linear(q);
            elem(it.nth(q - k).unwrap(), base, m.at(&i), "the element reached by nth at", m, &i);
        }
        c.ev("elements of huge arrays iterated", k);
    }
}

fn apply<'a, T>(c: &mut Case, v: V<'a, T>, m: AV, ops: u32) -> (V<'a, T>, AV) {
    let rank = m.rank();
    loop {
        match c.rng.below(8) {
            0 if ops & AXES != 0 && rank > 0 => {
                let axis = c.rng.below(rank);
                if m.dims[axis] == 0 {
                    return (v, m);
                }
                let i = c.rng.below(m.dims[axis]);
                c.log(|| format!("axis_at({axis}, {i})"));
                let v = match axis {
                    0 if c.rng.chance(1, 2) => v.into_axis_at(mdarray::Const::<0>, i).into_mapping(),
                    1 if c.rng.chance(1, 2) => v.into_axis_at(mdarray::Const::<1>, i).into_mapping(),
                    _ => v.into_axis_at(axis, i),
                };
                return (v, m.axis_at(axis, i));
            }
            1 if ops & AXES != 0 && rank > 0 => {
                let axis = c.rng.below(rank);
                let mid = c.rng.range(0, m.dims[axis]);
                c.log(|| format!("split_axis_at({axis}, {mid})"));
                let (a, b) = v.into_split_axis_at(axis, mid);
                let mut s: Vec<(usize, usize, isize)> = m.dims.iter().map(|&d| (0, d, 1)).collect();
                return if c.rng.chance(1, 2) {
                    s[axis].1 = mid;
                    (a, m.select(&s))
                } else {
                    s[axis].0 = mid;
                    (b, m.select(&s))
                };
            }
            2 if ops & AXES != 0 && rank == 2 => {
                let (lo, hi) = (m.dims[0].min(1 << 40) as isize, m.dims[1].min(1 << 40) as isize);
                let k = match c.rng.below(4) {
                    0 => c.rng.irange(0, hi),
                    1 => c.rng.irange(-lo, 0),
                    2 => c.rng.irange(-lo.min(3), hi.min(3)),
                    _ => c.rng.irange(-lo, hi),
                };
                c.log(|| format!("diag({k})"));
                let (r, q) = if k < 0 { (k.unsigned_abs(), 0) } else { (0, k as usize) };
                let len = (m.dims[0] - r).min(m.dims[1] - q);
                let w = AV { dims: vec![len], strides: vec![m.strides[0] + m.strides[1]], off: m.at(&[r, q]) };
                return (v.into_diag(k).into_mapping(), w);
            }
            3 | 4 if ops & PERMS != 0 => {
                if c.rng.chance(1, 4) {
                    let p: Vec<usize> = (0..rank).rev().collect();
                    c.log(|| "reorder()".into());
                    return (v.into_reordered(), m.permute(&p));
                }
                let p = perm(&mut c.rng, rank);
                c.log(|| format!("permute({p:?})"));
                let w = m.permute(&p);
                return (v.into_permuted(p), w);
            }
            5..=7 if ops & VIEWS != 0 && rank > 0 && rank <= 6 => {
                let s: Vec<(usize, usize, isize)> = m
                    .dims
                    .iter()
                    .map(|&d| {
                        let (a, b) = if c.rng.chance(1, 3) { (0, d) } else { range(&mut c.rng, d) };
                        let n = match c.rng.below(5) {
                            0 | 1 => 1,
                            2 => c.rng.range(1, 9),
                            // Only a few positions are left.
                            3 => ((b - a) / c.rng.range(1, 12)).max(1),
                            _ => c.rng.range(1, d.max(1)),
                        };
                        (a, b, if c.rng.chance(1, 2) { n as isize } else { -(n as isize) })
                    })
                    .collect();
                c.log(|| format!("view({s:?})"));
                let w = m.select(&s);
                let st = |i: usize| mdarray::step(bounds(s[i].0, s[i].1), s[i].2);
                let v = match rank {
                    1 => v.into_mapping::<Rank<1>, Strided>().into_view(st(0)).into_mapping(),
                    2 => v.into_mapping::<Rank<2>, Strided>().into_view(st(0), st(1)).into_mapping(),
                    3 => v.into_mapping::<Rank<3>, Strided>().into_view(st(0), st(1), st(2)).into_mapping(),
                    4 => v.into_mapping::<Rank<4>, Strided>().into_view(st(0), st(1), st(2), st(3)).into_mapping(),
                    5 => v
                        .into_mapping::<Rank<5>, Strided>()
                        .into_view(st(0), st(1), st(2), st(3), st(4))
                        .into_mapping(),
                    _ => v
                        .into_mapping::<Rank<6>, Strided>()
                        .into_view(st(0), st(1), st(2), st(3), st(4), st(5))
                        .into_mapping(),
                };
                return (v, w);
            }
            _ if ops & (VIEWS | PERMS) == 0 && rank == 0 => return (v, m),
            _ if rank == 0 => return (v, m),
            _ => {}
        }
    }
}

/// One case: a random huge array, a chain of the given operations and the given observations.
pub fn case<T: Default + Copy + PartialEq + From<u8>>(c: &mut Case, ops: u32) {
    let Some(p) = area() else {
        return;
    };
    let base = p as *mut T;
    let mut rank = c.rng.range(1, if ops & (PERMS | AXES) != 0 { 7 } else { 6 });
    if ops & AXES != 0 && c.rng.chance(1, 4) {
        rank = 2;
    }
    let n = BYTES / size_of::<T>();
    let n = if c.rng.chance(1, 4) { n >> c.rng.range(0, 20) } else { n };
    let mut d = dims(c, rank, n);
    let word = 1usize << 32;
    if rank > 1 && BYTES / size_of::<T>() / 2 > word && c.rng.chance(1, 5) {
        // One dimension beyond 32 bits, the others small.
        d = vec![1; rank];
        let i = c.rng.below(rank);
        let j = (i + c.rng.range(1, rank - 1)) % rank;
        d[i] = word + c.rng.below(5);
        d[j] = 2;
    }
    assert!(product(&d) * size_of::<T>() <= BYTES);
    c.log(|| format!("huge array {d:?} of {} byte elements", size_of::<T>()));
    let mut m = AV::dense(&d);
    let dense: View<'_, T, DynRank, Dense> = unsafe { View::new_unchecked(base, DenseMapping::new(Shape::from_dims(&d))) };
    assert!(dense.mapping().is_contiguous());
    probe(c, &dense, &m, base, ops);
    if ops & SHAPES != 0 {
        let k = c.rng.range(1, 6);
        if let Some(nd) = factor(&mut c.rng, product(&d), k) {
            c.log(|| format!("reshape to {nd:?}"));
            let mut req = nd.clone();
            if c.rng.chance(1, 2) {
                req[c.rng.below(k)] = usize::MAX;
            }
            m = AV::dense(&nd);
            probe(c, &dense.reshape(&req[..]), &m, base, ops);
        }
        m = AV::dense(&d);
    }
    let mut v: V<'_, T> = dense.into_mapping();
    let steps = c.rng.range(1, 4);
    for _ in 0..steps {
        (v, m) = apply(c, v, m, ops & (VIEWS | AXES | PERMS));
    }
    if m.rank() <= 6 && c.rng.chance(2, 3) {
        let v: V<'_, T> = unsafe { View::new_unchecked(v.as_ptr(), v.mapping().clone()) };
        as_static(c, v, &m, base, ops);
    } else {
        probe(c, &v, &m, base, ops);
    }
    if ops & SHAPES != 0 && m.len() > 0 {
        // A strided view is reshaped: merging or splitting of dimensions.
        let k = c.rng.range(1, 4);
        if let Some(nd) = factor(&mut c.rng, m.len(), k) {
            if let Ok(w) = caught(|| v.reshape(&nd[..])) {
                for _ in 0..6 {
                    let p = c.rng.below(m.len());
                    let (i, j) = (AV::dense(&nd).linear(p), m.linear(p));
                    elem(&w[&i[..]], base, m.at(&j), "the element of the reshaped array at", &m, &i);
                }
                c.ev("huge strided views reshaped", 1);
            }
        }
    }
    if ops & LANES != 0 && m.rank() > 0 && m.len() > 0 {
        lanes(c, &v, &m, base);
    }
    if ops & WRITE != 0 && m.len() > 0 {
        let q = v.as_ptr() as *mut T;
        let mut w: ViewMut<'_, T, DynRank, Strided> = unsafe { ViewMut::new_unchecked(q, v.mapping().clone()) };
        let i = m.linear(c.rng.below(m.len()));
        let at = unsafe { base.offset(m.at(&i) as isize) };
        w[&i[..]] = T::from(77);
        let got = unsafe { std::ptr::replace(at, T::default()) };
        // The page is given back.
        unsafe { madvise((at as usize & !4095) as *mut u8, 4096, 4) };
        assert!(got == T::from(77), "writing {i:?} of {:?} with strides {:?} does not reach the element", m.dims, m.strides);
        c.ev("writes in huge arrays checked", 1);
    }
    let s: Vec<u64> = m.dims.iter().map(|&x| x as u64).chain(m.strides.iter().map(|&x| x as u64)).collect();
    c.seen(&[hash_all(&s), m.off as u64]);
}

fn as_static<T>(c: &mut Case, v: V<'_, T>, m: &AV, base: *const T, look: u32) {
    macro_rules! at {
        ($v:expr, $n:tt) => {{
            let v = $v.into_mapping::<Rank<$n>, Strided>();
            probe(c, &v, m, base, look);
            if m.len() > 0 {
                for _ in 0..4 {
                    let i = m.linear(c.rng.below(m.len()));
                    let a: [usize; $n] = i[..].try_into().unwrap();
                    elem(&v[a], base, m.at(&i), "the element at array index", m, &i);
                }
            }
        }};
    }
    match m.rank() {
        0 => at!(v, 0),
        1 => at!(v, 1),
        2 => at!(v, 2),
        3 => at!(v, 3),
        4 => at!(v, 4),
        5 => at!(v, 5),
        _ => at!(v, 6),
    }
}

fn lanes<T>(c: &mut Case, v: &V<'_, T>, m: &AV, base: *const T) {
    let axis = c.rng.below(m.rank());
    let other = m.axis_at(axis, 0);
    let n = other.len();
    let mut it = v.lanes(axis).into_iter();
    assert!(it.len() == n, "{} lanes along axis {axis} of {:?}", it.len(), m.dims);
    for p in 0..n.min(40) {
        let j = other.linear(p);
        let l = it.next().unwrap();
        let want = AV { dims: vec![m.dims[axis]], strides: vec![m.strides[axis]], off: other.at(&j) };
        assert!(l.len() == m.dims[axis], "lane {j:?} along axis {axis} of {:?} has {} elements", m.dims, l.len());
        for _ in 0..3 {
            let i = [c.rng.below(m.dims[axis])];
            elem(&l[i], base, want.at(&i), "the element of a lane at", &want, &i);
        }
        c.ev("lanes of huge arrays checked", 1);
    }
    let size = m.dims[axis];
    let mut it = v.axis_expr(axis).into_iter();
    assert!(it.len() == size, "{} subarrays along axis {axis} of {:?}", it.len(), m.dims);
    let skip = c.rng.below(size).min(30);
    for p in 0..size.min(40) {
        let Some(s) = (if p == 0 { it.nth(skip) } else { it.next() }) else {
            assert!(p + skip >= size, "axis iteration ends at {}", p + skip);
            break;
        };
        let want = m.axis_at(axis, p + skip);
        let i = want.linear(c.rng.below(want.len()));
        elem(&s[&i[..]], base, want.at(&i), "the element of a subarray at", &want, &i);
        c.ev("subarrays of huge arrays checked", 1);
    }
}

/// Rows, columns, diagonals, axis subarrays and splits of two-dimensional views with dimensions around
/// powers of two beyond 31 bits. The elements of a large dimension may coincide.
pub fn lines(c: &mut Case) {
    use mdarray::StridedMapping;
    let Some(p) = area() else {
        return;
    };
    let base = p as *const u8;
    let mut d = [0usize; 2];
    for x in d.iter_mut() {
        *x = match c.rng.below(3) {
            0 => c.rng.range(0, 6),
            1 => 1 << c.rng.range(3, 20),
            _ => (1usize << *c.rng.pick(&[31, 32, 32, 33, 36, 40])).wrapping_add(c.rng.range(0, 4)) - 2,
        };
    }
    if d[0] as u128 * d[1] as u128 > 1 << 62 {
        d[c.rng.below(2)] = 3;
    }
    let mut s = [0isize; 2];
    let (mut off, mut span) = (0isize, 1usize);
    for k in [1, 0] {
        if d[k] > 1 && d[k] < BYTES / span && c.rng.chance(3, 4) {
            s[k] = span as isize;
            span *= d[k];
            if c.rng.chance(1, 4) {
                off += s[k] * (d[k] as isize - 1);
                s[k] = -s[k];
            }
        }
    }
    let m = AV { dims: d.to_vec(), strides: s.iter().map(|&x| x as i128).collect(), off: off as i128 };
    c.log(|| format!("view with dimensions {d:?} and strides {s:?}"));
    let map = StridedMapping::<Rank<2>>::new(Shape::from_dims(&d), &s);
    let v: View<'_, u8, Rank<2>, Strided> = unsafe { View::new_unchecked(base.offset(off), map) };
    fn look<S: Shape, L: mdarray::Layout>(c: &mut Case, what: &str, v: &Slice<u8, S, L>, m: &AV, base: *const u8) {
        let got = v.shape().with_dims(|d| d.to_vec());
        assert!(got == m.dims, "{what}: dimensions are {got:?}, expected {:?}", m.dims);
        let n: u128 = m.dims.iter().map(|&x| x as u128).product();
        if n == 0 || n > isize::MAX as u128 {
            return;
        }
        assert!(v.len() == n as usize, "{what}: length is {}, expected {n}", v.len());
        for k in 0..3 {
            let i: Vec<usize> = m.dims.iter().map(|&x| match k { 0 => 0, 1 => x - 1, _ => c.rng.below(x) }).collect();
            elem(&v[&i[..]], base, m.at(&i), what, m, &i);
        }
        let mut it = v.iter();
        assert!(it.len() == n as usize, "{what}: {} elements to iterate, expected {n}", it.len());
        for p in 0..4.min(n as usize) {
            let i = m.linear(p);
            elem(it.next().unwrap(), base, m.at(&i), what, m, &i);
        }
        c.ev("lines of huge views", 1);
    }
    let near = |c: &mut Case, n: usize| match c.rng.below(3) {
        0 => c.rng.below(n.min(3)),
        1 => n - 1 - c.rng.below(n.min(3)),
        _ => c.rng.below(n),
    };
    for _ in 0..4 {
        if d[0] > 0 {
            let i = near(c, d[0]);
            look(c, "row", &v.row(i), &m.axis_at(0, i), base);
            look(c, "axis 0", &v.axis_at(mdarray::Const::<0>, i), &m.axis_at(0, i), base);
        }
        if d[1] > 0 {
            let i = near(c, d[1]);
            look(c, "column", &v.col(i), &m.axis_at(1, i), base);
            look(c, "axis 1", &v.axis_at(mdarray::Const::<1>, i), &m.axis_at(1, i), base);
        }
        let k = if c.rng.chance(1, 2) { near(c, d[1] + 1) as isize } else { -(near(c, d[0] + 1) as isize) };
        let (r, q) = if k < 0 { (k.unsigned_abs(), 0) } else { (0, k as usize) };
        let len = (d[0] - r).min(d[1] - q);
        let w = AV { dims: vec![len], strides: vec![m.strides[0] + m.strides[1]], off: m.at(&[r, q]) };
        look(c, "diagonal", &v.diag(k), &w, base);
        for axis in 0..2 {
            let mid = near(c, d[axis] + 1);
            let mut x = [(0, d[0], 1), (0, d[1], 1)];
            x[axis].1 = mid;
            let a = m.select(&x);
            x[axis] = (mid, d[axis], 1);
            let b = m.select(&x);
            let (l, h) = v.split_axis_at(axis, mid);
            look(c, "first part", &l, &a, base);
            look(c, "second part", &h, &b, base);
            let n = d[1 - axis];
            for (i, x) in v.axis_expr(axis).into_iter().enumerate().take(2) {
                look(c, "subarray along an axis", &x, &m.axis_at(axis, i), base);
            }
            for (i, x) in v.lanes(axis).into_iter().enumerate().take(2) {
                look(c, "lane", &x, &m.axis_at(1 - axis, i), base);
            }
            assert!(v.axis_expr(axis).into_iter().len() == d[axis] && v.lanes(axis).into_iter().len() == n, "the number of subarrays or lanes along axis {axis}");
        }
    }
    c.seen(&[hash_all(&[d[0] as u64, d[1] as u64, s[0] as u64, s[1] as u64])]);
}
