//! C05: permuting, reversing, reshaping and flattening preserve the elements.

use mdarray::{Array, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View};
use vh::huge;
use vh::chain::*;
use vh::*;

vh::check_main!("C05", run);

const MARK: u64 = 1 << 40;

/// True if a strided layout can represent the model (elements at affine positions).
fn affine(m: &MV) -> bool {
    if m.is_empty() {
        return true;
    }
    let first = m.idx[0] as isize;
    let mut st = vec![0isize; m.rank()];
    for k in 0..m.rank() {
        if m.dims[k] > 1 {
            let mut i = vec![0; m.rank()];
            i[k] = 1;
            st[k] = m.at(&i) as isize - first;
        }
    }
    let mut ok = true;
    let mut p = 0;
    each_index(&m.dims, |i| {
        let w = first + i.iter().zip(&st).map(|(&a, &b)| a as isize * b).sum::<isize>();
        ok &= m.idx[p] as isize == w;
        p += 1;
    });
    ok
}

fn consecutive(m: &MV) -> bool {
    m.idx.windows(2).all(|w| w[1] == w[0] + 1)
}

fn no_ones(d: &[usize]) -> bool {
    !d.contains(&1)
}

/// Runs `$body` for a permutation given as array of the right static rank.
macro_rules! perm_array {
    ($p:expr, $x:ident => $body:expr) => {
        match $p.len() {
            1 => { let $x: [usize; 1] = $p[..].try_into().unwrap(); $body }
            2 => { let $x: [usize; 2] = $p[..].try_into().unwrap(); $body }
            3 => { let $x: [usize; 3] = $p[..].try_into().unwrap(); $body }
            4 => { let $x: [usize; 4] = $p[..].try_into().unwrap(); $body }
            5 => { let $x: [usize; 5] = $p[..].try_into().unwrap(); $body }
            6 => { let $x: [usize; 6] = $p[..].try_into().unwrap(); $body }
            _ => {}
        }
    };
}

fn permutes<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    let r = m.rank();
    let p = perm(&mut c.rng, r);
    c.log(|| format!("permute {p:?} of {:?}", m.dims));
    let w = m.permute(&p);
    chk(c, &s.permute(&p[..]), &w, base, 0);
    chk_lite(c, &s.permute(p.clone()), &w, base, 0);
    chk_lite(c, &s.expr().into_permuted(p.clone().into_boxed_slice()), &w, base, 0);
    perm_array!(p, x => chk_lite(c, &s.permute(x), &w, base, 0));
    // The inverse permutation restores the original.
    let mut q = vec![0; r];
    for (i, &k) in p.iter().enumerate() {
        q[k] = i;
    }
    chk_lite(c, &s.permute(&p[..]).into_permuted(q), m, base, 0);
    // Reversal.
    let rev = m.reversed();
    chk(c, &s.reorder(), &rev, base, 0);
    chk_lite(c, &s.expr().into_reordered(), &rev, base, 0);
    chk_lite(c, &s.reorder().into_reordered(), m, base, 0);
    c.seen(&[sig(m), sig(&w)]);
    // Not a permutation.
    let mut bad = p.clone();
    match c.rng.below(6) {
        // Repeated dimensions with the same sum as a permutation.
        4 if r > 2 => {
            let i = p.iter().position(|&k| k == 0).unwrap();
            let j = p.iter().position(|&k| k == 2).unwrap();
            bad[i] = 1;
            bad[j] = 1;
        }
        // All dimensions in range but not all of them different.
        5 if r > 1 => {
            for k in bad.iter_mut() {
                *k = c.rng.below(r);
            }
            if (0..r).all(|k| bad.contains(&k)) {
                bad[0] = bad[r - 1];
            }
        }
        0 => bad.push(r),
        1 if r > 0 => {
            bad.pop();
        }
        2 if r > 1 => {
            let i = c.rng.below(r);
            bad[i] = bad[(i + 1 + c.rng.below(r - 1)) % r];
        }
        _ if r > 0 => {
            let i = c.rng.below(r);
            bad[i] = *c.rng.pick(&[r, r + 1, 64, usize::MAX, 1 << 63]);
        }
        _ => bad.push(0),
    }
    assert!(panics(|| s.permute(&bad[..]).len()), "{bad:?} is accepted as permutation of rank {r}");
    assert!(panics(|| s.expr().into_permuted(bad.clone()).len()), "{bad:?} is accepted as permutation of rank {r}");
    perm_array!(bad, x => assert!(panics(|| s.permute(x).len()), "array {bad:?} is accepted as permutation of rank {r}"));
    c.ev("invalid permutations refused", 3);
}

/// Requested dimensions, the resulting ones (`None`: must panic).
fn request(c: &mut Case, n: usize) -> (Vec<usize>, Option<Vec<usize>>) {
    let k = c.rng.range(0, 6);
    let Some(mut d) = factor(&mut c.rng, n, k) else {
        // Rank 0 requested for another length.
        return (vec![], None);
    };
    let want = d.clone();
    match c.rng.below(8) {
        // One inferred dimension; the others must not be empty.
        0..=2 if k > 0 && n > 0 => {
            let i = c.rng.below(k);
            d[i] = usize::MAX;
            (d, Some(want))
        }
        0 if k > 0 && n == 0 => {
            // The inferred dimension is the only empty one.
            let i = c.rng.below(k);
            let mut w: Vec<usize> = (0..k).map(|_| c.rng.range(1, 4)).collect();
            let mut d = w.clone();
            d[i] = usize::MAX;
            w[i] = 0;
            (d, Some(w))
        }
        // Wrong length.
        3 if k > 0 => {
            let i = c.rng.below(k);
            d[i] = *c.rng.pick(&[d[i] + 1, d[i] + 2, 1 << 62, usize::MAX - 1]);
            let ok = !d.iter().any(|&x| x > 100_000) && product(&d) == n;
            let w = ok.then(|| d.clone());
            if d.contains(&0) { (want.clone(), Some(want)) } else { (d, w) }
        }
        // Two inferred dimensions.
        4 if k > 1 => {
            let i = c.rng.below(k - 1);
            d[i] = usize::MAX;
            d[i + 1] = usize::MAX;
            (d, None)
        }
        // Inferred dimension that does not divide.
        5 if n > 0 => {
            let f = (2..n + 2).find(|x| n % x != 0).unwrap();
            (vec![usize::MAX, f], None)
        }
        _ => (d, Some(want)),
    }
}

macro_rules! into_array {
    ($d:expr, $x:ident => $body:expr) => {
        match $d.len() {
            0 => { let $x: [usize; 0] = []; $body }
            1 => { let $x: [usize; 1] = $d[..].try_into().unwrap(); $body }
            2 => { let $x: [usize; 2] = $d[..].try_into().unwrap(); $body }
            3 => { let $x: [usize; 3] = $d[..].try_into().unwrap(); $body }
            4 => { let $x: [usize; 4] = $d[..].try_into().unwrap(); $body }
            5 => { let $x: [usize; 5] = $d[..].try_into().unwrap(); $body }
            _ => { let $x: [usize; 6] = $d[..].try_into().unwrap(); $body }
        }
    };
}

fn reshapes<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    let (d, want) = request(c, m.len());
    c.log(|| format!("reshape {:?} to {d:?}, expected {want:?}", m.dims));
    match want {
        None => {
            assert!(panics(|| s.reshape(&d[..]).len()), "reshape of {:?} to {d:?} is accepted", m.dims);
            assert!(panics(|| s.expr().into_shape(d.clone()).len()), "into_shape of {:?} to {d:?} is accepted", m.dims);
            into_array!(d, x => assert!(panics(|| s.reshape(x).len()), "reshape of {:?} to {d:?} is accepted", m.dims));
            c.ev("invalid shapes refused", 3);
        }
        Some(want) => {
            let w = m.reshaped(&want);
            let ok = affine(&w);
            // A layout that cannot represent the result must be refused; one that can must not
            // (undetermined only for dimensions of size one with irregular strides).
            let must = s.is_contiguous() || ok && (m.is_empty() || no_ones(&m.dims) && no_ones(&want));
            let check = |c: &mut Case, got: Result<View<T, DynRank, L>, String>| match got {
                Ok(v) => {
                    assert!(ok, "reshape of {:?} to {want:?} is accepted, but no strides fit", m.dims);
                    chk(c, &v, &w, base, 0);
                    c.seen(&[sig(m), sig(&w)]);
                }
                Err(e) => {
                    assert!(!must, "reshape of {:?} to {want:?} is refused: {e}", m.dims);
                    c.ev("shapes refused because of the strides", 1);
                }
            };
            check(c, caught(|| s.reshape(&d[..])));
            check(c, caught(|| s.expr().into_shape(d.clone())));
            into_array!(d, x => check(c, caught(|| s.reshape(x).into_dyn())));
        }
    }
    // Flatten.
    let w = m.flat();
    let ok = affine(&w);
    let must = s.is_contiguous() || ok && (no_ones(&m.dims) || m.is_empty());
    for k in 0..2 {
        match caught(|| if k == 0 { s.flatten() } else { s.expr().into_flat() }) {
            Ok(v) => {
                assert!(ok, "flatten of {:?} is accepted, but no stride fits", m.dims);
                chk(c, &v, &w, base, 0);
            }
            Err(e) => assert!(!must, "flatten of {:?} is refused: {e}", m.dims),
        }
    }
}

/// Conversion to other shape and layout types.
fn remaps<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    let r = m.rank();
    macro_rules! to {
        ($rank:ty, $n:expr) => {{
            let fits: bool = $n;
            for k in 0..2 {
                match caught(|| if k == 0 { s.remap::<$rank, Strided>() } else { s.expr().into_mapping::<$rank, Strided>() }) {
                    Ok(v) => {
                        assert!(fits, "{:?} is converted to {}", m.dims, stringify!($rank));
                        chk(c, &v, m, base, 0);
                    }
                    Err(e) => assert!(!fits, "{:?} is not converted to {}: {e}", m.dims, stringify!($rank)),
                }
                match caught(|| if k == 0 { s.remap::<$rank, Dense>() } else { s.expr().into_mapping::<$rank, Dense>() }) {
                    Ok(v) => {
                        assert!(fits && (consecutive(m) || size_of::<T>() == 0), "{:?} is converted to dense {}", m.dims, stringify!($rank));
                        chk(c, &v, m, base, 0);
                    }
                    Err(e) => assert!(!fits || !(L::IS_DENSE || consecutive(m) && no_ones(&m.dims) && !m.is_empty()),
                        "contiguous {:?} is not converted to dense {}: {e}", m.dims, stringify!($rank)),
                }
            }
        }};
    }
    match c.rng.below(10) {
        0 => to!(Rank<0>, r == 0),
        1 => to!(Rank<1>, r == 1),
        2 => to!(Rank<2>, r == 2),
        3 => to!(Rank<3>, r == 3),
        4 => to!(Rank<4>, r == 4),
        5 => to!((Const<2>, usize), r == 2 && m.dims[0] == 2),
        6 => to!((usize, Const<3>), r == 2 && m.dims[1] == 3),
        7 => to!((Const<2>, Const<3>, usize), r == 3 && m.dims[..2] == [2, 3]),
        8 => to!((Const<1>,), r == 1 && m.dims[0] == 1),
        _ => to!(DynRank, true),
    }
    chk(c, &s.expr().into_dyn(), m, base, 0);
    if s.is_contiguous() && m.len() > 1 {
        assert!(consecutive(m) || size_of::<T>() == 0, "{:?} claims to be contiguous", m.dims);
    }
    if L::IS_DENSE {
        assert!(s.is_contiguous(), "dense array claims not to be contiguous");
    }
    c.seen(&[sig(m), 7]);
}

fn one<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, m: &MV, base: *const T) {
    match c.rng.below(3) {
        0 => permutes(c, s, m, base),
        1 => reshapes(c, s, m, base),
        _ => remaps(c, s, m, base),
    }
}

fn views<T: El>(c: &mut Case) {
    let dims = base_dims(c, 0, 8);
    let t = tens::<T>(&dims);
    let base = t.as_ptr();
    let m = MV::dense(&dims);
    c.log(|| format!("base {dims:?} of {}", T::NAME));
    match c.rng.below(5) {
        0 => one(c, &t, &m, base),
        1 => as_rank_t!(t, dims.len(), x => one(c, &x, &m, x.as_ptr())),
        2 => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            one(c, &v, &m, base);
        }
        _ => {
            let steps = c.rng.range(0, 3);
            let (v, m) = chain(c, t.expr().into_mapping(), m, steps);
            as_rank!(v, m.rank(), x => one(c, &x, &m, base));
        }
    }
}

/// Shared views with any strides, also such that elements coincide.
fn strides<T: El>(c: &mut Case) {
    let buf: Vec<T> = vals(60, 0);
    let (d, s, off, m) = any_strides(c, buf.len());
    let v = view_strides(&buf, &d, &s, off);
    let base = buf.as_ptr();
    let steps = c.rng.range(0, 2);
    let (v, m) = chain(c, v, m, steps);
    if c.rng.chance(1, 3) {
        one(c, &v, &m, base);
    } else {
        as_rank!(v, m.rank(), x => one(c, &x, &m, base));
    }
}

/// Regions with regular strides, for reshapes of strided views that are possible.
fn regions(c: &mut Case) {
    let dims: Vec<usize> = (0..c.rng.range(1, 4)).map(|_| *c.rng.pick(&[2, 2, 3, 4, 6])).collect();
    let t = tens::<u32>(&dims);
    let base = t.as_ptr();
    let (mut v, mut m) = (t.expr().into_mapping::<DynRank, Strided>(), MV::dense(&dims));
    for _ in 0..c.rng.range(0, 2) {
        let k = c.rng.below(m.rank());
        match c.rng.below(4) {
            0 if m.rank() > 1 => {
                let i = c.rng.below(m.dims[k]);
                (v, m) = (v.into_axis_at(k, i), m.axis_at(k, i).unwrap());
            }
            1 => {
                let mid = c.rng.range(1, m.dims[k]);
                (v, m) = (v.into_split_axis_at(k, mid).0, m.split(k, mid).unwrap().0);
            }
            2 => {
                let p = perm(&mut c.rng, m.rank());
                m = m.permute(&p);
                v = v.into_permuted(p);
            }
            _ => {}
        }
    }
    c.log(|| format!("region {:?} with strides {:?}", m.dims, v.mapping().strides()));
    for _ in 0..3 {
        reshapes(c, &v, &m, base);
    }
    as_rank!(v, m.rank(), x => reshapes(c, &x, &m, base));
}

/// Mutable forms: writing through the result changes the right elements.
fn mutable(c: &mut Case) {
    let dims = base_dims(c, 0, 6);
    let mut t = tens::<u64>(&dims);
    let m = MV::dense(&dims);
    let r = dims.len();
    let p = perm(&mut c.rng, r);
    let k = c.rng.below(5);
    c.log(|| format!("mutable form {k} of {dims:?}, permutation {p:?}"));
    fn put<S: Shape, L: Layout>(v: &mut Slice<u64, S, L>, m: &MV) {
        chk_shape(v, &m.dims);
        let mut n = 0;
        each_index(&m.dims, |i| {
            v[i] = MARK + n;
            n += 1;
        });
        let mut n = 0;
        for x in v.iter_mut() {
            assert!(*x == MARK + n, "iteration and indexing disagree at {n}");
            n += 1;
        }
    }
    let w = match k {
        0 => {
            let w = m.permute(&p);
            put(&mut t.permute_mut(p.clone()), &w);
            w
        }
        1 => {
            let w = m.reversed();
            put(&mut t.reorder_mut(), &w);
            w
        }
        2 => {
            let n = c.rng.range(1, 5);
            let w = m.reshaped(&factor(&mut c.rng, m.len(), n).unwrap());
            put(&mut t.reshape_mut(&w.dims[..]), &w);
            w
        }
        3 => {
            let w = m.permute(&p).reversed();
            as_rank!(t.expr_mut().into_permuted(p.clone()), r, x => { let mut x = x.into_reordered(); put(&mut x, &w) });
            w
        }
        _ => {
            put(&mut t.flatten_mut(), &m.flat());
            m.flat()
        }
    };
    let mut want: Vec<u64> = vals(t.len(), 0);
    for (k, &i) in w.idx.iter().enumerate() {
        want[i] = MARK + k as u64;
    }
    assert!(t[..] == want[..], "base after writing is {:?}, expected {want:?}", &t[..]);
    c.ev("elements written", want.len());
    c.seen(&[sig(&w), k as u64]);
}

/// Permutations written as types; constant dimensions are carried along.
fn typed(c: &mut Case) {
    let a: Array<u32, (Const<2>, Const<3>, Const<4>)> =
        Array::from_fn(|i| u32::make((i[0] * 12 + i[1] * 4 + i[2]) as u64));
    let m = MV::dense(&[2, 3, 4]);
    let base = a.as_ptr();
    macro_rules! p {
        ($($x:tt),+; $($d:tt),+; $l:ty) => {{
            let v: View<u32, ($(Const<$d>,)+), $l> = a.permute(($(Const::<$x>,)+));
            let w = m.permute(&[$($x),+]);
            chk(c, &v, &w, base, 0);
        }};
    }
    p!(0, 1, 2; 2, 3, 4; Dense);
    p!(0, 2, 1; 2, 4, 3; Strided);
    p!(1, 0, 2; 3, 2, 4; Strided);
    p!(1, 2, 0; 3, 4, 2; Strided);
    p!(2, 0, 1; 4, 2, 3; Strided);
    p!(2, 1, 0; 4, 3, 2; Strided);
    let v: View<u32, (Const<4>, Const<3>, Const<2>), Strided> = a.reorder();
    chk(c, &v, &m.reversed(), base, 0);
    // A dynamic axis among constant ones.
    let p = perm(&mut c.rng, 3);
    chk(c, &a.permute((p[0], p[1], p[2])), &m.permute(&p), base, 0);
    match p[0] {
        0 => chk(c, &a.permute((Const::<0>, p[1], p[2])), &m.permute(&p), base, 0),
        1 => chk(c, &a.permute((Const::<1>, p[1], p[2])), &m.permute(&p), base, 0),
        _ => chk(c, &a.permute((Const::<2>, p[1], p[2])), &m.permute(&p), base, 0),
    }
    assert!(panics(|| a.permute((Const::<0>, Const::<0>, Const::<2>)).len()));
    assert!(panics(|| a.permute((Const::<0>, Const::<1>)).len()));
    assert!(panics(|| a.permute((Const::<0>, Const::<1>, Const::<3>)).len()));
    assert!(panics(|| a.permute((0, 1, 1)).len()) && panics(|| a.permute((3, 1, 0)).len()));
    one(c, &a, &m, base);

    // Higher static ranks.
    let dims = base_dims(c, 5, 6);
    let t = tens::<u8>(&dims);
    let m = MV::dense(&dims);
    let b = t.as_ptr();
    let p = perm(&mut c.rng, dims.len());
    if dims.len() == 5 {
        let v = t.remap::<Rank<5>, Dense>();
        chk(c, &v.permute((p[0], p[1], p[2], p[3], p[4])), &m.permute(&p), b, 0);
        chk(c, &v.permute((Const::<0>, Const::<1>, Const::<2>, Const::<3>, Const::<4>)), &m, b, 0);
        chk(c, &v.permute((Const::<3>, Const::<1>, Const::<4>, Const::<0>, Const::<2>)), &m.permute(&[3, 1, 4, 0, 2]), b, 0);
    } else {
        let v = t.remap::<Rank<6>, Dense>();
        chk(c, &v.permute((p[0], p[1], p[2], p[3], p[4], p[5])), &m.permute(&p), b, 0);
        chk(c, &v.permute((Const::<5>, Const::<1>, Const::<4>, Const::<0>, Const::<2>, Const::<3>)), &m.permute(&[5, 1, 4, 0, 2, 3]), b, 0);
    }
    // Reshape to shapes with constant dimensions.
    let n = c.rng.range(0, 8);
    let t: Tensor<u32, (usize,)> = Tensor::from(vals::<u32>(n * 2, 0));
    let b = t.as_ptr();
    let m = MV::dense(&[2 * n]);
    chk(c, &t.reshape((n, Const::<2>)), &m.reshaped(&[n, 2]), b, 0);
    chk(c, &t.reshape((Const::<2>, n)), &m.reshaped(&[2, n]), b, 0);
    chk(c, &t.reshape((usize::MAX, Const::<2>)), &m.reshaped(&[n, 2]), b, 0);
    let fits = 2 * n == 6;
    assert!(fits != panics(|| t.reshape((Const::<2>, Const::<3>)).len()), "reshape of {} elements to [2, 3]", 2 * n);
    assert!((n % 2 == 1) == panics(|| t.reshape((usize::MAX, Const::<4>)).len()), "reshape of {} elements to [_, 4]", 2 * n);
    c.seen(&[p.iter().fold(0, |a, &x| a * 8 + x as u64), n as u64]);
}

/// High ranks: permutations of up to 80 dimensions.
fn high(c: &mut Case) {
    let r = c.rng.range(9, 80);
    let mut dims = vec![1; r];
    for _ in 0..5 {
        let k = c.rng.below(r);
        dims[k] = c.rng.range(1, 3);
    }
    let t = tens::<u32>(&dims);
    let m = MV::dense(&dims);
    let p = perm(&mut c.rng, r);
    c.log(|| format!("rank {r}"));
    let v = t.permute(&p[..]);
    let w = m.permute(&p);
    chk_lite(c, &v, &w, t.as_ptr(), 0);
    chk_lite(c, &t.reorder(), &m.reversed(), t.as_ptr(), 0);
    let mut bad = p.clone();
    let i = c.rng.below(r);
    bad[i] = bad[(i + 1 + c.rng.below(r - 1)) % r];
    assert!(panics(|| t.permute(&bad[..]).len()), "{bad:?} is accepted as permutation");
    c.seen(&[r as u64, sig(&w)]);
}

pub fn run(r: &mut Runner) {
    r.section("views-u32", 3000, 8, views::<u32>);
    r.section("views-string", 600, 3, views::<String>);
    r.section("views-aligned", 400, 2, views::<A64>);
    r.section("views-u8", 400, 1, views::<u8>);
    r.section("views-odd", 400, 1, views::<[u16; 3]>);
    r.section("views-box", 300, 1, views::<Box<u64>>);
    r.section("views-zst", 400, 2, views::<Z>);
    r.section("strides", 2000, 6, strides::<u32>);
    r.section("regions", 2500, 6, regions);
    r.section("mutable", 1500, 8, mutable);
    r.section("typed", 400, 2, typed);
    r.section("high-rank", 300, 1, high);
    if !r.is_miri() {
        r.section("huge-u8", 1500, 0, |c| huge::case::<u8>(c, huge::PERMS | huge::SHAPES | huge::VIEWS));
        r.section("huge-u32", 1000, 0, |c| huge::case::<u32>(c, huge::PERMS | huge::SHAPES | huge::VIEWS));
    }
    r.large("views-large", 8, views::<u32>);
    r.large("mutable-large", 6, mutable);
}
