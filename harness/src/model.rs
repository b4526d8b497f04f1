//! Reference model: a view is a list of dimensions and, in row-major order, the index of each of
//! its elements in the underlying dense base array. Everything the library computes with strides
//! and offsets is predicted here by explicit enumeration.

use mdarray::{DynRank, Layout, Shape, Slice, Tensor};
use std::fmt::Debug;

use crate::rng::Rng;
use crate::run::Case;

#[derive(Clone, Debug, PartialEq)]
pub struct MV {
    pub dims: Vec<usize>,
    pub idx: Vec<usize>,
}

/// One index of a multidimensional selection.
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    At(usize),
    Full,
    /// Half-open range, already resolved.
    Range(usize, usize),
    Step(usize, usize, isize),
}

/// Number of elements (the model only ever holds small shapes).
pub fn product(dims: &[usize]) -> usize {
    dims.iter().product()
}

/// Calls `f` with every multidimensional index in row-major order.
pub fn each_index<F: FnMut(&[usize])>(dims: &[usize], mut f: F) {
    if dims.contains(&0) {
        return;
    }
    let mut i = vec![0; dims.len()];
    loop {
        f(&i);
        let mut k = dims.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            i[k] += 1;
            if i[k] < dims[k] {
                break;
            }
            i[k] = 0;
        }
    }
}

impl MV {
    pub fn dense(dims: &[usize]) -> Self {
        MV { dims: dims.to_vec(), idx: (0..product(dims)).collect() }
    }

    pub fn rank(&self) -> usize {
        self.dims.len()
    }

    pub fn len(&self) -> usize {
        self.idx.len()
    }

    pub fn is_empty(&self) -> bool {
        self.idx.is_empty()
    }

    /// Row-major position of a multidimensional index.
    pub fn pos(&self, index: &[usize]) -> usize {
        assert!(index.len() == self.dims.len());
        let mut p = 0;
        for (i, d) in index.iter().zip(&self.dims) {
            assert!(i < d);
            p = p * d + i;
        }
        p
    }

    /// Base index of an element.
    pub fn at(&self, index: &[usize]) -> usize {
        self.idx[self.pos(index)]
    }

    fn gather<F: Fn(&[usize]) -> Vec<usize>>(&self, dims: Vec<usize>, f: F) -> MV {
        let mut idx = Vec::new();
        each_index(&dims, |i| idx.push(self.at(&f(i))));
        MV { dims, idx }
    }

    /// Positions selected along one dimension; `None` if the selection must be refused.
    pub fn positions(sel: &Sel, size: usize) -> Option<Vec<usize>> {
        match *sel {
            Sel::At(i) => (i < size).then(|| vec![i]),
            Sel::Full => Some((0..size).collect()),
            Sel::Range(a, b) => (a <= b && b <= size).then(|| (a..b).collect()),
            Sel::Step(a, b, s) => {
                if a > b || b > size || s == 0 {
                    return None;
                }
                let mut out = Vec::new();
                if s > 0 {
                    let mut i = a;
                    while i < b {
                        out.push(i);
                        match i.checked_add(s as usize) {
                            Some(x) => i = x,
                            None => break,
                        }
                    }
                } else {
                    let n = s.unsigned_abs();
                    let mut i = b;
                    while i > a {
                        out.push(i - 1);
                        if i - a <= n {
                            break;
                        }
                        i -= n;
                    }
                }
                Some(out)
            }
        }
    }

    pub fn select(&self, sels: &[Sel]) -> Option<MV> {
        assert!(sels.len() == self.rank());
        let pos: Option<Vec<Vec<usize>>> =
            sels.iter().zip(&self.dims).map(|(s, &d)| Self::positions(s, d)).collect();
        let pos = pos?;
        let kept: Vec<usize> =
            (0..sels.len()).filter(|&i| !matches!(sels[i], Sel::At(_))).collect();
        let dims = kept.iter().map(|&i| pos[i].len()).collect();
        Some(self.gather(dims, |i| {
            let mut full: Vec<usize> = pos.iter().map(|p| p.first().copied().unwrap_or(0)).collect();
            for (n, &k) in kept.iter().enumerate() {
                full[k] = pos[k][i[n]];
            }
            full
        }))
    }

    /// Dimension `i` of the result is dimension `perm[i]` of the input.
    pub fn permute(&self, perm: &[usize]) -> MV {
        let dims = perm.iter().map(|&p| self.dims[p]).collect();
        self.gather(dims, |i| {
            let mut full = vec![0; perm.len()];
            for (n, &p) in perm.iter().enumerate() {
                full[p] = i[n];
            }
            full
        })
    }

    pub fn reversed(&self) -> MV {
        self.permute(&(0..self.rank()).rev().collect::<Vec<_>>())
    }

    pub fn axis_at(&self, axis: usize, index: usize) -> Option<MV> {
        let mut s = vec![Sel::Full; self.rank()];
        *s.get_mut(axis)? = Sel::At(index);
        self.select(&s)
    }

    pub fn split(&self, axis: usize, mid: usize) -> Option<(MV, MV)> {
        let n = *self.dims.get(axis)?;
        if mid > n {
            return None;
        }
        let mut a = vec![Sel::Full; self.rank()];
        let mut b = a.clone();
        a[axis] = Sel::Range(0, mid);
        b[axis] = Sel::Range(mid, n);
        Some((self.select(&a)?, self.select(&b)?))
    }

    pub fn diag(&self, k: isize) -> Option<MV> {
        if self.rank() != 2 {
            return None;
        }
        let (r, c) = (self.dims[0], self.dims[1]);
        let (mut i, mut j) = if k >= 0 { (0, k as usize) } else { (k.unsigned_abs(), 0) };
        if j > c || i > r {
            return None;
        }
        let mut idx = Vec::new();
        while i < r && j < c {
            idx.push(self.at(&[i, j]));
            i += 1;
            j += 1;
        }
        Some(MV { dims: vec![idx.len()], idx })
    }

    pub fn reshaped(&self, dims: &[usize]) -> MV {
        assert!(product(dims) == self.len());
        MV { dims: dims.to_vec(), idx: self.idx.clone() }
    }

    pub fn flat(&self) -> MV {
        self.reshaped(&[self.len()])
    }

    /// The one-dimensional views along `axis`, in row-major order of the other indices.
    pub fn lanes(&self, axis: usize) -> Vec<MV> {
        let mut other = self.dims.clone();
        other.remove(axis);
        let mut out = Vec::new();
        each_index(&other, |i| {
            let mut s: Vec<Sel> = i.iter().map(|&x| Sel::At(x)).collect();
            s.insert(axis, Sel::Full);
            out.push(self.select(&s).unwrap());
        });
        out
    }

    /// The subarrays along `axis`, in order.
    pub fn subarrays(&self, axis: usize) -> Vec<MV> {
        (0..self.dims[axis]).map(|i| self.axis_at(axis, i).unwrap()).collect()
    }
}

/// Element types of different size, alignment and ownership.
pub trait El: Clone + PartialEq + Debug + 'static {
    fn make(k: u64) -> Self;
    const NAME: &'static str;
}

impl El for u8 {
    fn make(k: u64) -> u8 {
        (k % 251) as u8
    }
    const NAME: &'static str = "u8";
}

impl El for u32 {
    fn make(k: u64) -> u32 {
        k as u32 ^ 0x5A00_0000
    }
    const NAME: &'static str = "u32";
}

impl El for u64 {
    fn make(k: u64) -> u64 {
        k ^ 0x7700_0000_0000_0000
    }
    const NAME: &'static str = "u64";
}

impl El for String {
    fn make(k: u64) -> String {
        format!("s{k}")
    }
    const NAME: &'static str = "String";
}

impl El for [u16; 3] {
    fn make(k: u64) -> [u16; 3] {
        [k as u16, (k >> 16) as u16 ^ 7, !(k as u16)]
    }
    const NAME: &'static str = "[u16;3]";
}

impl El for Box<u64> {
    fn make(k: u64) -> Box<u64> {
        Box::new(k)
    }
    const NAME: &'static str = "Box<u64>";
}

/// Over-aligned element.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
#[repr(align(64))]
pub struct A64(pub u64);

impl El for A64 {
    fn make(k: u64) -> A64 {
        A64(k)
    }
    const NAME: &'static str = "A64";
}

/// Zero-sized element.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Z;

impl El for Z {
    fn make(_: u64) -> Z {
        Z
    }
    const NAME: &'static str = "Z";
}

/// Elements of a dense array with values `make(start..)`.
pub fn vals<T: El>(n: usize, start: u64) -> Vec<T> {
    (0..n as u64).map(|k| T::make(start + k)).collect()
}

/// Dense tensor of dynamic rank with the values `make(0..)`.
pub fn tens<T: El>(dims: &[usize]) -> Tensor<T, DynRank> {
    Tensor::from(vals::<T>(product(dims), 0)).into_shape(dims)
}

/// As `tens` with the first value `make(start)`.
pub fn tens_from<T: El>(dims: &[usize], start: u64) -> Tensor<T, DynRank> {
    Tensor::from(vals::<T>(product(dims), start)).into_shape(dims)
}

pub fn dims_of<S: Shape>(s: &S) -> Vec<usize> {
    (0..s.rank()).map(|i| s.dim(i)).collect()
}

/// Accesses the memory of every element, so that a sanitizer can judge it.
pub fn touch<T, S: Shape, L: Layout>(s: &Slice<T, S, L>) {
    let mut n = 0;
    for x in s.iter() {
        unsafe { (x as *const T as *const std::mem::MaybeUninit<T>).read_volatile() };
        n += 1;
        if n > 100_000 {
            break;
        }
    }
}

/// Checks shape observers only.
#[track_caller]
pub fn chk_shape<T, S: Shape, L: Layout>(s: &Slice<T, S, L>, dims: &[usize]) {
    let n = product(dims);
    let got: Vec<usize> = (0..s.rank()).map(|i| s.dim(i)).collect();
    if got != dims {
        touch(s);
    }
    assert!(got == dims, "shape is {got:?}, expected {dims:?}");
    let got = dims_of(s.shape());
    assert!(got == dims, "shape() is {got:?}, expected {dims:?}");
    assert!(s.len() == n, "len is {}, expected {n} for {dims:?}", s.len());
    assert!(s.is_empty() == (n == 0), "is_empty wrong for {dims:?}");
    if let Some(r) = S::RANK {
        assert!(r == dims.len(), "static rank {r}, dimensions {dims:?}");
    }
}

/// Light check of a (sub)array against the model: shape and every element by iteration; the
/// element is identified by its address in the base array and by its value.
#[track_caller]
pub fn chk_lite<T: El, S: Shape, L: Layout>(
    c: &mut Case,
    s: &Slice<T, S, L>,
    m: &MV,
    base: *const T,
    start: u64,
) {
    chk_shape(s, &m.dims);
    let mut n = 0;
    for x in s.iter() {
        assert!(n < m.len(), "iteration yields more than {} elements ({:?})", m.len(), m.dims);
        chk_el(x, m.idx[n], base, start, n, &m.dims);
        n += 1;
    }
    assert!(n == m.len(), "iteration yields {n} of {} elements ({:?})", m.len(), m.dims);
    c.ev("elements located and compared", n);
}

#[track_caller]
pub fn chk_el<T: El>(x: &T, k: usize, base: *const T, start: u64, n: usize, dims: &[usize]) {
    let v = T::make(start + k as u64);
    let same = *x == v;
    if size_of::<T>() > 0 {
        let want = base as usize + k * size_of::<T>();
        assert!(
            x as *const T as usize == want,
            "element {n} of {dims:?} is at offset {} of the base array, expected {k}",
            (x as *const T as isize - base as isize) as f64 / size_of::<T>() as f64
        );
    }
    assert!(same, "element {n} of {dims:?} is {x:?}, expected {v:?}");
}

/// Full check of a (sub)array against the model through all read observers.
#[track_caller]
pub fn chk<T: El, S: Shape, L: Layout>(
    c: &mut Case,
    s: &Slice<T, S, L>,
    m: &MV,
    base: *const T,
    start: u64,
) {
    chk_lite(c, s, m, base, start);
    let n = m.len();

    // Multidimensional and linear indexing.
    let mut p = 0;
    each_index(&m.dims, |i| {
        chk_el(&s[i], m.idx[p], base, start, p, &m.dims);
        chk_el(&s[p], m.idx[p], base, start, p, &m.dims);
        unsafe {
            chk_el(s.get_unchecked(i), m.idx[p], base, start, p, &m.dims);
            chk_el(s.get_unchecked(p), m.idx[p], base, start, p, &m.dims);
        }
        p += 1;
    });

    // Strides locate the elements.
    if n > 0 && size_of::<T>() > 0 {
        let st: Vec<isize> = (0..m.rank()).map(|i| s.stride(i)).collect();
        let mut p = 0;
        let first = s.as_ptr() as isize;
        each_index(&m.dims, |i| {
            let off: isize = i.iter().zip(&st).map(|(&a, &b)| a as isize * b).sum();
            let got = first + off * size_of::<T>() as isize;
            let want = base as isize + (m.idx[p] * size_of::<T>()) as isize;
            assert!(got == want, "strides {st:?} do not locate index {i:?} of {:?}", m.dims);
            p += 1;
        });
    }

    // Internal iteration agrees.
    let k = s.iter().fold(0, |k, x| {
        assert!(k < n, "fold visits too many elements");
        chk_el(x, m.idx[k], base, start, k, &m.dims);
        k + 1
    });
    assert!(k == n, "fold visits {k} of {n} elements");

    // Exact remaining length.
    let mut it = s.iter();
    for k in 0..=n {
        assert!(it.len() == n - k && it.size_hint() == (n - k, Some(n - k)),
            "remaining length is {:?} after {k} of {n}", it.size_hint());
        let x = it.next();
        assert!(x.is_some() == (k < n), "iterator ends at {k} of {n}");
    }
    assert!(it.next().is_none() && it.len() == 0, "exhausted iterator continues");
    c.ev("elements indexed", 5 * n);
}

/// Checks an owned or borrowed array against a list of expected values.
#[track_caller]
pub fn chk_vals<T: PartialEq + Debug, S: Shape, L: Layout>(
    c: &mut Case,
    s: &Slice<T, S, L>,
    dims: &[usize],
    want: &[T],
) {
    chk_shape(s, dims);
    let mut n = 0;
    for x in s.iter() {
        assert!(n < want.len(), "iteration yields too many elements");
        assert!(*x == want[n], "element {n} of {dims:?} is {x:?}, expected {:?}", want[n]);
        n += 1;
    }
    assert!(n == want.len(), "iteration yields {n} of {} elements", want.len());
    let mut p = 0;
    each_index(dims, |i| {
        assert!(s[i] == want[p] && s[p] == want[p], "indexing at {i:?} disagrees with iteration");
        p += 1;
    });
    c.ev("elements compared", 2 * n);
}

/// Random permutation.
pub fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    p
}

/// Random selection that fits a dimension of the given size.
pub fn sel(r: &mut Rng, size: usize) -> Sel {
    match r.below(8) {
        0 if size > 0 => Sel::At(r.below(size)),
        0 | 1 => Sel::Full,
        2 | 3 | 4 => {
            let (a, b) = range(r, size);
            Sel::Range(a, b)
        }
        _ => {
            let (a, b) = range(r, size);
            Sel::Step(a, b, step(r))
        }
    }
}

/// Random valid range.
pub fn range(r: &mut Rng, size: usize) -> (usize, usize) {
    match r.below(6) {
        0 => (0, size),
        1 => {
            let a = r.range(0, size);
            (a, a)
        }
        2 => (r.range(0, size), size),
        3 => (0, r.range(0, size)),
        _ => {
            let a = r.range(0, size);
            let b = r.range(0, size);
            (a.min(b), a.max(b))
        }
    }
}

/// Random non-zero step.
pub fn step(r: &mut Rng) -> isize {
    let s = match r.below(8) {
        0 | 1 | 2 => 1,
        3 | 4 => 2,
        5 => 3,
        6 => r.range(1, 5) as isize,
        _ => r.range(4, 40) as isize,
    };
    if r.chance(1, 2) { -s } else { s }
}

/// A factorisation of `n` into `k` dimensions (any for n == 0).
pub fn factor(r: &mut Rng, n: usize, k: usize) -> Option<Vec<usize>> {
    if k == 0 {
        return (n == 1).then(Vec::new);
    }
    if n == 0 {
        let mut d: Vec<usize> = (0..k).map(|_| r.range(0, 4)).collect();
        let z = r.below(k);
        d[z] = 0;
        return Some(d);
    }
    let mut d = vec![1; k];
    let mut rest = n;
    let mut p = 2;
    while rest > 1 {
        if p * p > rest {
            p = rest;
        }
        if rest % p == 0 {
            d[r.below(k)] *= p;
            rest /= p;
        } else {
            p += 1;
        }
    }
    Some(d)
}

/// Dimensions that cannot be broadcast to or from the given ones (neither is the end of the other);
/// in many cases with the same number of elements.
pub fn misfit(r: &mut Rng, full: &[usize]) -> Vec<usize> {
    loop {
        let mut d = full.to_vec();
        match r.below(6) {
            0 | 1 => {
                // One dimension of the end differs, including sizes 0 and 1, which are not stretched.
                if d.is_empty() {
                    return Vec::new();
                }
                d = d[r.range(0, d.len() - 1)..].to_vec();
                let i = r.below(d.len());
                d[i] = *r.pick(&[0, 1, d[i] + 1, d[i] * 2, 6, 7]);
            }
            2 => r.shuffle(&mut d),
            3 => {
                let k = r.range(1, 4);
                d = factor(r, product(full), k).unwrap();
            }
            4 => d.truncate(r.range(1, d.len().max(1))),
            _ => {
                // One element is moved to another dimension.
                let k = d.len();
                if k > 1 {
                    let (i, j) = (r.below(k), r.below(k));
                    d[i] += 1;
                    d[j] = d[j].saturating_sub(1);
                }
            }
        }
        if !full.ends_with(&d) && !d.ends_with(full) {
            return d;
        }
        if full.is_empty() || r.chance(1, 8) {
            // Unusual shapes fit everything: one more is always wrong.
            let mut d = full.to_vec();
            let Some(x) = d.last_mut() else { return d };
            *x += 1;
            return d;
        }
    }
}

/// Iterator with a size hint that may be wrong in any way (which must do no harm).
pub struct Hinted<I>(pub I, pub (usize, Option<usize>));

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// Some size hint, wrong more often than not.
pub fn some_hint(c: &mut Case, n: usize) -> (usize, Option<usize>) {
    let a = match c.rng.below(5) {
        0 => 0,
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        _ => c.rng.range(0, 2 * n + 3),
    };
    let b = match c.rng.below(4) {
        0 => None,
        1 | 2 => Some(a),
        _ => Some(c.rng.range(0, 2 * n + 3)),
    };
    (a, b)
}
