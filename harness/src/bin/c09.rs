//! C09: arithmetic and bit operators are element-wise with correct operand order.

use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{array, Array, Const, DynRank, Shape, Slice, Tensor};
use std::borrow::Borrow;
use std::cell::Cell;
use std::ops::*;
use vh::chain::*;
use vh::rng::hash_all;
use vh::*;

vh::check_main!("C09", run);

thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

fn calls() -> usize {
    CALLS.with(|c| c.replace(0))
}

/// Element whose operators are all different and depend on the order of the operands.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Sy(u64);

fn f2(op: u64, a: u64, b: u64) -> u64 {
    hash_all(&[op, a, 77, b])
}

impl El for Sy {
    fn make(k: u64) -> Sy {
        Sy(k)
    }
    const NAME: &'static str = "Sy";
}

macro_rules! sy_op {
    ($($t:ident $f:ident $ta:ident $fa:ident $op:tt $opa:tt $n:expr;)*) => {
        $(
            impl $t<Sy> for Sy {
                type Output = Sy;
                fn $f(self, o: Sy) -> Sy { CALLS.with(|c| c.set(c.get() + 1)); Sy(f2($n, self.0, o.0)) }
            }
            impl $t<&Sy> for Sy {
                type Output = Sy;
                fn $f(self, o: &Sy) -> Sy { CALLS.with(|c| c.set(c.get() + 1)); Sy(f2($n, self.0, o.0)) }
            }
            impl $t<Sy> for &Sy {
                type Output = Sy;
                fn $f(self, o: Sy) -> Sy { CALLS.with(|c| c.set(c.get() + 1)); Sy(f2($n, self.0, o.0)) }
            }
            impl $t<&Sy> for &Sy {
                type Output = Sy;
                fn $f(self, o: &Sy) -> Sy { CALLS.with(|c| c.set(c.get() + 1)); Sy(f2($n, self.0, o.0)) }
            }
            impl $ta<Sy> for Sy {
                fn $fa(&mut self, o: Sy) { CALLS.with(|c| c.set(c.get() + 1)); self.0 = f2($n + 100, self.0, o.0) }
            }
            impl $ta<&Sy> for Sy {
                fn $fa(&mut self, o: &Sy) { CALLS.with(|c| c.set(c.get() + 1)); self.0 = f2($n + 100, self.0, o.0) }
            }
        )*

    };
}

sy_op! {
    Add add AddAssign add_assign + += 0;
    Sub sub SubAssign sub_assign - -= 1;
    Mul mul MulAssign mul_assign * *= 2;
    Div div DivAssign div_assign / /= 3;
    Rem rem RemAssign rem_assign % %= 4;
    BitAnd bitand BitAndAssign bitand_assign & &= 5;
    BitOr bitor BitOrAssign bitor_assign | |= 6;
    BitXor bitxor BitXorAssign bitxor_assign ^ ^= 7;
    Shl shl ShlAssign shl_assign << <<= 8;
    Shr shr ShrAssign shr_assign >> >>= 9;
}

macro_rules! sy_un {
    ($($t:ident $f:ident $n:expr;)*) => {
        $(
            impl $t for Sy {
                type Output = Sy;
                fn $f(self) -> Sy { CALLS.with(|c| c.set(c.get() + 1)); Sy(f2($n, self.0, 0)) }
            }
            impl $t for &Sy {
                type Output = Sy;
                fn $f(self) -> Sy { CALLS.with(|c| c.set(c.get() + 1)); Sy(f2($n, self.0, 0)) }
            }
        )*
    };
}

sy_un! { Neg neg 20; Not not 21; }

/// Evaluates a result, which is an array or an expression.
fn res<I: IntoExpression<Item = Sy>>(c: &mut Case, r: I, dims: &[usize], want: &[Sy]) {
    let e = r.into_expr();
    let got = dims_of(e.shape());
    assert!(got == dims, "shape of the result is {got:?}, expected {dims:?}");
    let o = e.eval();
    let s: &Slice<Sy, I::Shape> = o.borrow();
    chk_vals(c, s, dims, want);
    c.ev("operator results compared", want.len());
}

/// Checks `$l op $r`, where both are used exactly once.
macro_rules! bin {
    ($c:expr, $o:expr, $l:expr, $r:expr, $dims:expr, $want:expr) => {
        match $o {
            0 => res($c, $l + $r, $dims, $want),
            1 => res($c, $l - $r, $dims, $want),
            2 => res($c, $l * $r, $dims, $want),
            3 => res($c, $l / $r, $dims, $want),
            4 => res($c, $l % $r, $dims, $want),
            5 => res($c, $l & $r, $dims, $want),
            6 => res($c, $l | $r, $dims, $want),
            7 => res($c, $l ^ $r, $dims, $want),
            8 => res($c, $l << $r, $dims, $want),
            _ => res($c, $l >> $r, $dims, $want),
        }
    };
}

macro_rules! un {
    ($c:expr, $o:expr, $l:expr, $dims:expr, $want:expr) => {
        if $o == 20 { res($c, -$l, $dims, $want) } else { res($c, !$l, $dims, $want) }
    };
}

macro_rules! assign {
    ($o:expr, $l:expr, $r:expr) => {
        match $o {
            0 => $l += $r,
            1 => $l -= $r,
            2 => $l *= $r,
            3 => $l /= $r,
            4 => $l %= $r,
            5 => $l &= $r,
            6 => $l |= $r,
            7 => $l ^= $r,
            8 => $l <<= $r,
            _ => $l >>= $r,
        }
    };
}

fn strider(c: &mut Case, dims: &[usize], start: u64) -> Strider<Sy> {
    let n = product(dims);
    Strider::new(c, dims, vals::<Sy>(n, start), || Sy(u64::MAX))
}

fn gen_fn(dims: &[usize], start: u64) -> impl FnMut(&[usize]) -> Sy {
    let m = MV::dense(dims);
    move |i: &[usize]| Sy(start + m.pos(i) as u64)
}

/// A few kinds of right operand. `$own`: owned tensors, `$mv`: moving expressions allowed.
macro_rules! rhs_few {
    ($c:expr, $d:expr, $s:expr, $own:expr, $x:ident => $body:expr) => {{
        let (d, s): (&[usize], u64) = ($d, $s);
        match $c.rng.below(if $own { 4 } else { 3 }) {
            0 => {
                let t = tens_from::<Sy>(d, s);
                { let $x = &t; $body }
                assert!(t[..] == vals::<Sy>(t.len(), s)[..], "operand was changed");
            }
            1 => {
                let t = strider($c, d, s);
                { let $x = t.view(); $body }
                assert!(t.inside().iter().enumerate().all(|(i, x)| x.0 == s + i as u64), "operand was changed");
            }
            2 => { let $x = expr::from_fn(d, gen_fn(d, s)); $body }
            _ => { let $x = tens_from::<Sy>(d, s); $body }
        }
    }};
}

macro_rules! rhs_more {
    ($c:expr, $d:expr, $s:expr, $own:expr, $x:ident => $body:expr) => {{
        let (d, s): (&[usize], u64) = ($d, $s);
        match $c.rng.below(if $own { 9 } else { 6 }) {
            0 => { let t = tens_from::<Sy>(d, s); let t = t.expr(); let $x = &t; $body }
            1 => { let t = tens_from::<Sy>(d, s); let $x: &Slice<Sy, DynRank> = &t; $body }
            2 => { let t = strider($c, d, s); let $x = t.view().map(|x| *x); $body }
            3 => { let mut t = strider($c, d, s); let v = t.view_mut(); let $x = &v; $body }
            4 => { let t = strider($c, d, s); let v = t.view(); let $x = v.copied().map(|x| x); $body }
            5 => { let t = tens_from::<Sy>(d, s); let $x = t.expr().zip(&t).map(|(x, _)| *x); $body }
            6 => { let t = tens_from::<Sy>(d, s); let $x = t.into_expr(); $body }
            7 => { let t = tens_from::<Sy>(d, s); let $x = t.into_expr().map(|x| x); $body }
            _ => { let mut t = tens_from::<Sy>(d, s); let $x = t.expr_mut().map(|x| *x); $body }
        }
    }};
}

fn model(o: usize, n: usize, na: usize, sa: u64, nb: usize, sb: u64) -> Vec<Sy> {
    (0..n).map(|i| Sy(f2(o as u64, sa + (i % na) as u64, sb + (i % nb) as u64))).collect()
}

const B: u64 = 5000;

fn shapes(c: &mut Case) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
    let full = base_dims(c, 0, 5);
    let k = if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, full.len()) };
    let low = full[k..].to_vec();
    if c.rng.chance(1, 2) { (full.clone(), full, low) } else { (full.clone(), low, full) }
}

/// All left operands.
fn left(c: &mut Case) {
    let (full, mut da, mut db) = shapes(c);
    let o = c.rng.below(10);
    let kind = c.rng.below(9);
    if matches!(kind, 7) {
        // Cannot be repeated.
        (da, db) = if da.len() >= db.len() { (da, db) } else { (db, da) };
    }
    let (n, na, nb) = (product(&full), product(&da), product(&db));
    let want = model(o, n, na, 0, nb, B);
    // The owned right operand cannot be repeated.
    let own = db.len() == full.len();
    c.log(|| format!("left operand kind {kind} {da:?}, operator {o}, right {db:?}"));
    calls();
    let (wd, w) = (&full, &want);
    match kind {
        0 => {
            let t = tens_from::<Sy>(&da, 0);
            let l: &Slice<Sy, DynRank> = &t;
            rhs_few!(c, &db, B, own, r => bin!(c, o, l, r, wd, w));
        }
        1 => {
            let t = tens_from::<Sy>(&da, 0);
            rhs_few!(c, &db, B, own, r => bin!(c, o, &t, r, wd, w));
            assert!(t[..] == vals::<Sy>(na, 0)[..], "left operand was changed");
        }
        2 => {
            let t = strider(c, &da, 0);
            let v = t.view();
            rhs_few!(c, &db, B, own, r => bin!(c, o, &v, r, wd, w));
        }
        3 => {
            let mut t = strider(c, &da, 0);
            let v = t.view_mut();
            rhs_few!(c, &db, B, own, r => bin!(c, o, &v, r, wd, w));
            assert!(t.inside().iter().enumerate().all(|(i, x)| x.0 == i as u64), "left operand was changed");
        }
        4 => {
            let t = strider(c, &da, 0);
            rhs_few!(c, &db, B, own, r => bin!(c, o, t.view(), r, wd, w));
        }
        5 => rhs_few!(c, &db, B, own, r => bin!(c, o, expr::from_fn(&da[..], gen_fn(&da, 0)), r, wd, w)),
        6 => {
            let t = strider(c, &da, 0);
            rhs_few!(c, &db, B, own, r => bin!(c, o, t.view().map(|x| *x), r, wd, w));
        }
        7 => {
            let t = tens_from::<Sy>(&da, 0);
            rhs_few!(c, &db, B, own, r => bin!(c, o, t.into_expr(), r, wd, w));
        }
        _ => {
            let t = tens_from::<Sy>(&da, 0);
            rhs_more!(c, &db, B, own, r => bin!(c, o, &t, r, wd, w));
        }
    }
    let k = calls();
    assert!(k == n, "the element operator was called {k} times for {n} elements");
    if n > 0 {
        c.seen(&[o as u64, kind as u64, sig(&MV::dense(&da)), sig(&MV::dense(&db))]);
    }
}

/// Generators without or with constant elements as left operand.
fn generators(c: &mut Case) {
    let (full, da, db) = shapes(c);
    let o = c.rng.below(10);
    let kind = c.rng.below(3);
    let n = product(&full);
    calls();
    c.log(|| format!("generator kind {kind} {da:?}, operator {o}, right {db:?}"));
    match kind {
        0 => {
            let d = full.clone();
            let want: Vec<Sy> = (0..n).map(|i| Sy(f2(o as u64, 42, B + i as u64))).collect();
            rhs_few!(c, &d, B, true, r => bin!(c, o, expr::fill(Sy(42)), r, &d, &want));
        }
        1 => {
            let d = full.clone();
            let mut k = 0;
            let want: Vec<Sy> = (0..n).map(|i| Sy(f2(o as u64, i as u64, B + i as u64))).collect();
            rhs_few!(c, &d, B, true, r => bin!(c, o, expr::fill_with(|| { k += 1; Sy(k - 1) }), r, &d, &want));
            assert!(k as usize == n, "fill_with was called {k} times for {n} elements");
        }
        _ => {
            let nb = product(&db);
            let want: Vec<Sy> = (0..n).map(|i| Sy(f2(o as u64, 43, B + (i % nb) as u64))).collect();
            let own = db.len() == full.len();
            rhs_few!(c, &db, B, own, r => bin!(c, o, expr::from_elem(&da[..], Sy(43)), r, &full, &want));
        }
    }
    let k = calls();
    assert!(k == n, "the element operator was called {k} times for {n} elements");
    if n > 0 {
        c.seen(&[o as u64, kind as u64, sig(&MV::dense(&da)), sig(&MV::dense(&db))]);
    }
}

/// Owned tensor on the left.
fn owned(c: &mut Case) {
    let full = base_dims(c, 0, 5);
    let k = if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, full.len()) };
    let low = full[k..].to_vec();
    let o = c.rng.below(10);
    let (n, nb) = (product(&full), product(&low));
    let want = model(o, n, n, 0, nb, B);
    let t = tens_from::<Sy>(&full, 0);
    calls();
    c.log(|| format!("owned tensor {full:?}, operator {o}, right {low:?}"));
    let own = low.len() == full.len();
    match c.rng.below(4) {
        0 => {
            let want: Vec<Sy> = (0..n).map(|i| Sy(f2(o as u64, i as u64, 44))).collect();
            bin!(c, o, t, expr::fill(Sy(44)), &full, &want);
        }
        1 => {
            let mut k = 0;
            let want: Vec<Sy> = (0..n).map(|i| Sy(f2(o as u64, i as u64, i as u64))).collect();
            bin!(c, o, t, expr::fill_with(|| { k += 1; Sy(k - 1) }), &full, &want);
            assert!(k as usize == n, "fill_with was called {k} times for {n} elements");
        }
        2 => rhs_few!(c, &low, B, own, r => bin!(c, o, t, r, &full, &want)),
        _ => rhs_more!(c, &low, B, own, r => bin!(c, o, t, r, &full, &want)),
    }
    let k = calls();
    assert!(k == n, "the element operator was called {k} times for {n} elements");
    if n > 0 {
        c.seen(&[o as u64, sig(&MV::dense(&full)), sig(&MV::dense(&low))]);
    }
}

fn unary(c: &mut Case) {
    let d = base_dims(c, 0, 6);
    let n = product(&d);
    let o = 20 + c.rng.below(2);
    let want: Vec<Sy> = (0..n).map(|i| Sy(f2(o as u64, i as u64, 0))).collect();
    let kind = c.rng.below(12);
    calls();
    c.log(|| format!("unary {o} of kind {kind} {d:?}"));
    match kind {
        0 => { let t = tens_from::<Sy>(&d, 0); let l: &Slice<Sy, DynRank> = &t; un!(c, o, l, &d, &want) }
        1 => { let t = tens_from::<Sy>(&d, 0); un!(c, o, &t, &d, &want); assert!(t[..] == vals::<Sy>(n, 0)[..], "operand was changed"); }
        2 => { let t = strider(c, &d, 0); let v = t.view(); un!(c, o, &v, &d, &want) }
        3 => { let mut t = strider(c, &d, 0); let v = t.view_mut(); un!(c, o, &v, &d, &want) }
        4 => { let t = strider(c, &d, 0); un!(c, o, t.view(), &d, &want) }
        5 => un!(c, o, expr::from_fn(&d[..], gen_fn(&d, 0)), &d, &want),
        6 => { let t = strider(c, &d, 0); un!(c, o, t.view().map(|x| *x), &d, &want) }
        7 => un!(c, o, tens_from::<Sy>(&d, 0).into_expr(), &d, &want),
        8 => un!(c, o, tens_from::<Sy>(&d, 0), &d, &want),
        9 => un!(c, o, expr::from_elem(&d[..], Sy(3)), &d, &vec![Sy(f2(o as u64, 3, 0)); n]),
        10 => { un!(c, o, expr::fill(Sy(4)), &[], &[Sy(f2(o as u64, 4, 0))]); calls(); return }
        _ => { let mut k = 0; un!(c, o, expr::fill_with(|| { k += 1; Sy(k) }), &[], &[Sy(f2(o as u64, 1, 0))]); calls(); return }
    }
    let k = calls();
    assert!(k == n, "the element operator was called {k} times for {n} elements");
    if n > 0 {
        c.seen(&[o as u64, kind as u64, sig(&MV::dense(&d))]);
    }
}

fn compound(c: &mut Case) {
    let full = base_dims(c, 0, 5);
    let k = if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, full.len()) };
    let low = full[k..].to_vec();
    let o = c.rng.below(10);
    let (n, nb) = (product(&full), product(&low));
    let mut want = model(o + 100, n, n, 0, nb, B);
    let own = low.len() == full.len();
    let kind = c.rng.below(5);
    calls();
    c.log(|| format!("compound assignment {o} to kind {kind} {full:?}, right {low:?}"));
    let mut t = tens_from::<Sy>(&full, 0);
    let mut s = strider(c, &full, 0);
    match kind {
        0 => {
            rhs_few!(c, &low, B, own, r => assign!(o, t, r));
            chk_vals(c, &t, &full, &want);
        }
        1 => {
            let l: &mut Slice<Sy, DynRank> = &mut t;
            rhs_few!(c, &low, B, own, r => assign!(o, *l, r));
            chk_vals(c, &t, &full, &want);
        }
        2 => {
            rhs_few!(c, &low, B, own, r => { let mut v = s.view_mut(); assign!(o, v, r) });
            chk_vals(c, &s.view(), &full, &want);
        }
        3 => {
            rhs_more!(c, &low, B, own, r => { let mut v = s.view_mut(); assign!(o, *v, r) });
            chk_vals(c, &s.view(), &full, &want);
        }
        _ => {
            let mut k = 0;
            if c.rng.chance(1, 2) {
                want = (0..n).map(|i| Sy(f2(o as u64 + 100, i as u64, 9))).collect();
                assign!(o, t, expr::fill(Sy(9)));
            } else {
                want = (0..n).map(|i| Sy(f2(o as u64 + 100, i as u64, i as u64))).collect();
                assign!(o, t, expr::fill_with(|| { k += 1; Sy(k - 1) }));
                assert!(k as usize == n, "fill_with was called {k} times for {n} elements");
            }
            chk_vals(c, &t, &full, &want);
        }
    }
    assert!(s.rest().iter().all(|x| x.0 == u64::MAX), "compound assignment wrote outside the target");
    let k = calls();
    assert!(k == n, "the element operator was called {k} times for {n} elements");
    if n > 0 {
        c.seen(&[o as u64, kind as u64, sig(&MV::dense(&full)), sig(&MV::dense(&low))]);
    }
}

/// Shapes that do not match.
fn mismatch(c: &mut Case) {
    let full = base_dims(c, 1, 5);
    let low = misfit(&mut c.rng, &full);
    if low.len() > 6 || product(&low) > 400 {
        return;
    }
    let o = c.rng.below(10);
    c.log(|| format!("mismatch {full:?} and {low:?}, operator {o}"));
    let (mut t, u) = (tens::<Sy>(&full), tens::<Sy>(&low));
    let mut s = strider(c, &full, 0);
    fn ev<I: IntoExpression<Item = Sy>>(r: I) -> usize {
        r.into_expr().eval().borrow().len()
    }
    macro_rules! refused {
        ($l:expr, $r:expr) => {
            assert!(panics(|| match o {
                0 => ev($l + $r), 1 => ev($l - $r), 2 => ev($l * $r), 3 => ev($l / $r), 4 => ev($l % $r),
                5 => ev($l & $r), 6 => ev($l | $r), 7 => ev($l ^ $r), 8 => ev($l << $r), _ => ev($l >> $r),
            }), "{} with {full:?} and {low:?} is accepted", stringify!($l op $r))
        };
    }
    refused!(&t, &u);
    refused!(&u, &t);
    refused!(&t, u.clone());
    refused!(t.clone(), &u);
    refused!(u.clone(), s.view());
    refused!(s.view(), u.clone().into_expr());
    assert!(panics(|| assign!(o, t, &u)), "compound assignment of {low:?} to {full:?} is accepted");
    assert!(panics(|| { let mut v = s.view_mut(); assign!(o, v, &u) }), "compound assignment of {low:?} to {full:?} is accepted");
    {
        let l: &mut Slice<Sy, DynRank> = &mut t;
        assert!(panics(|| assign!(o, *l, &u)), "compound assignment of {low:?} to a slice of {full:?} is accepted");
        assert!(panics(|| assign!(o, *l, u.clone())), "compound assignment of {low:?} to a slice of {full:?} is accepted");
        let mut l = t.expr_mut();
        assert!(panics(|| assign!(o, l, &u)), "compound assignment of {low:?} to a dense view of {full:?} is accepted");
        let mut v = s.view_mut();
        assert!(panics(|| assign!(o, *v, u.expr().cloned())), "compound assignment of {low:?} to a slice of {full:?} is accepted");
        let q = strider(c, &low, B);
        assert!(panics(|| assign!(o, *v, q.view())) && panics(|| assign!(o, t, q.view())), "compound assignment of {low:?} to {full:?} is accepted");
    }
    assert!(t[..] == vals::<Sy>(t.len(), 0)[..], "refused assignment changed the target");
    assert!(s.inside().iter().enumerate().all(|(i, x)| x.0 == i as u64), "refused assignment changed the target");
    // The target of an assignment is not repeated.
    let outer = product(&full[..1]);
    if outer > 1 {
        let mut w = tens::<Sy>(&full[1..]);
        assert!(panics(|| assign!(o, w, &t)), "the target of a compound assignment is repeated");
        assert!(w[..] == vals::<Sy>(w.len(), 0)[..], "refused assignment changed the target");
        refused!(w.clone(), &t);
    }
    c.ev("mismatches refused", 8);
    c.seen(&[o as u64, sig(&MV::dense(&full)), sig(&MV::dense(&low))]);
}

/// Shapes that do not match, of static rank.
fn mismatch_static(c: &mut Case) {
    fn run<S: Shape, R: Shape>(c: &mut Case, full: &[usize], low: &[usize]) {
        let o = c.rng.below(10);
        c.log(|| format!("mismatch of static rank {full:?} and {low:?}, operator {o}"));
        let mut t: Tensor<Sy, S> = tens::<Sy>(full).into_mapping();
        let u: Tensor<Sy, R> = tens::<Sy>(low).into_mapping();
        let (mut s, q) = (strider(c, full, 0), strider(c, low, B));
        fn ev<I: IntoExpression<Item = Sy>>(r: I) -> usize {
            r.into_expr().eval().borrow().len()
        }
        macro_rules! no {
            ($l:expr, $r:expr) => {
                assert!(panics(|| match o {
                    0 => ev($l + $r), 1 => ev($l - $r), 2 => ev($l * $r), 3 => ev($l / $r), 4 => ev($l % $r),
                    5 => ev($l & $r), 6 => ev($l | $r), 7 => ev($l ^ $r), 8 => ev($l << $r), _ => ev($l >> $r),
                }), "{} with {full:?} and {low:?} of static rank is accepted", stringify!($l op $r))
            };
        }
        macro_rules! refuse {
            ($l:expr, $r:expr) => {
                assert!(panics(|| assign!(o, $l, $r)), "compound assignment of {} {low:?} to {} {full:?} of static rank is accepted", stringify!($r), stringify!($l))
            };
        }
        no!(&t, &u);
        no!(&u, &t);
        no!(&t, u.clone());
        no!(t.clone(), &u);
        no!(t.expr(), u.expr());
        {
            let (a, b) = (s.view().into_mapping::<S, mdarray::Strided>(), q.view().into_mapping::<R, mdarray::Strided>());
            no!(a.clone(), b.clone());
            no!(t.clone(), b.clone());
            no!(a.clone(), u.clone().into_expr());
            no!(b.clone(), &t);
        }
        let b = q.view().into_mapping::<R, mdarray::Strided>();
        refuse!(t, &u);
        refuse!(t, u.clone());
        refuse!(t, b.clone());
        {
            let mut v = t.expr_mut();
            refuse!(v, &u);
            refuse!(v, u.clone());
            refuse!(v, b.clone());
            refuse!(*v, &u);
            refuse!(*v, u.expr().cloned());
            refuse!(*v, b.clone());
            let mut v = s.view_mut().into_mapping::<S, mdarray::Strided>();
            refuse!(v, &u);
            refuse!(v, u.clone());
            refuse!(v, b.clone());
            refuse!(v, u.expr().cloned());
            refuse!(*v, &u);
            refuse!(*v, u.clone());
            refuse!(*v, b.clone());
        }
        assert!(t[..] == vals::<Sy>(t.len(), 0)[..], "refused assignment changed the target");
        assert!(s.inside().iter().enumerate().all(|(i, x)| x.0 == i as u64), "refused assignment changed the target");
        c.ev("mismatches of static rank refused", 25);
        c.seen(&[o as u64, sig(&MV::dense(full)), sig(&MV::dense(low))]);
    }
    let full = base_dims(c, 1, 3);
    let low = misfit(&mut c.rng, &full);
    if low.is_empty() || low.len() > 3 || product(&low) > 400 {
        return;
    }
    macro_rules! pairs {
        ($($i:literal $j:literal),*) => {
            match (full.len(), low.len()) {
                $(($i, $j) => run::<mdarray::Rank<$i>, mdarray::Rank<$j>>(c, &full, &low),)*
                _ => unreachable!(),
            }
        };
    }
    match c.rng.below(4) {
        0 if full.len() == 1 => run::<mdarray::Rank<1>, DynRank>(c, &full, &low),
        1 if low.len() == 1 => run::<DynRank, mdarray::Rank<1>>(c, &full, &low),
        _ => pairs!(1 1, 1 2, 1 3, 2 1, 2 2, 2 3, 3 1, 3 2, 3 3),
    }
}

/// Inline arrays with shapes that do not match.
fn mismatch_arrays(c: &mut Case) {
    let o = c.rng.below(10);
    fn ev<I: IntoExpression<Item = Sy>>(r: I) -> usize {
        r.into_expr().eval().borrow().len()
    }
    macro_rules! go {
        ([$($k:literal),*] $($low:expr),*) => {{
            let full: &[usize] = &[$($k),*];
            let a: Array<Sy, ($(Const<$k>,)*)> = { let mut i = 0; Array::from_fn(|_| { i += 1; Sy(i - 1) }) };
            let lows: &[&[usize]] = &[$(&$low),*];
            let low = lows[c.rng.below(lows.len())].to_vec();
            c.log(|| format!("mismatch of array {full:?} and {low:?}, operator {o}"));
            c.seen(&[o as u64, sig(&MV::dense(full)), sig(&MV::dense(&low))]);
            macro_rules! no {
                ($l:expr, $r:expr) => {
                    assert!(panics(|| match o {
                        0 => ev($l + $r), 1 => ev($l - $r), 2 => ev($l * $r), 3 => ev($l / $r), 4 => ev($l % $r),
                        5 => ev($l & $r), 6 => ev($l | $r), 7 => ev($l ^ $r), 8 => ev($l << $r), _ => ev($l >> $r),
                    }), "{} with array {full:?} and {low:?} is accepted", stringify!($l op $r))
                };
            }
            macro_rules! refuse {
                ($l:expr, $r:expr) => {
                    assert!(panics(|| assign!(o, $l, $r)), "compound assignment of {} {low:?} to array {full:?} is accepted", stringify!($r))
                };
            }
            macro_rules! both {
                ($u:expr) => {{
                    let u = $u;
                    no!(&a, &u);
                    no!(a, &u);
                    no!(a, u.clone());
                    no!(&a, u.clone());
                    no!(&u, a);
                    no!(u.clone(), a);
                    no!(u.clone(), &a);
                    no!(a.expr(), u.expr());
                    let mut x = a;
                    refuse!(x, &u);
                    refuse!(x, u.clone());
                    refuse!(x, u.expr().cloned());
                    let mut v = x.expr_mut();
                    refuse!(v, &u);
                    refuse!(v, u.clone());
                    refuse!(*v, &u);
                    assert!(x == a, "refused assignment changed the target");
                    c.ev("mismatches of arrays refused", 14);
                }};
            }
            both!(tens_from::<Sy>(&low, B));
            match low.len() {
                1 => both!({ let t: Tensor<Sy, mdarray::Rank<1>> = tens_from::<Sy>(&low, B).into_mapping(); t }),
                2 => both!({ let t: Tensor<Sy, mdarray::Rank<2>> = tens_from::<Sy>(&low, B).into_mapping(); t }),
                _ => both!({ let t: Tensor<Sy, mdarray::Rank<3>> = tens_from::<Sy>(&low, B).into_mapping(); t }),
            }
            let s = strider(c, &low, B);
            no!(a, s.view());
            no!(s.view(), &a);
            no!(s.view(), a);
            let mut x = a;
            refuse!(x, s.view());
            assert!(x == a, "refused assignment changed the target");
        }};
    }
    match c.rng.below(5) {
        0 => go!([4] [3], [5], [1], [2, 2], [0], [8], [4, 1], [4, 2]),
        1 => go!([2, 2] [4], [1], [3], [2, 1], [1, 2], [4, 1], [1, 4], [2, 3], [0, 2], [2, 2, 1], [1, 1]),
        2 => go!([2, 3] [6], [2], [1], [3, 2], [1, 3], [2, 1], [6, 1], [1, 6], [2, 2], [3, 1, 2], [5]),
        3 => go!([3, 1] [3], [2], [1, 3], [3, 3], [2, 1], [3, 2], [0, 1], [3, 1, 1]),
        _ => go!([2, 1, 3] [6], [2, 3], [3, 1], [1], [2, 3, 1], [1, 2, 3], [2, 1, 1], [1, 6], [2, 2, 3]),
    }
}

/// Fixed-size arrays.
fn arrays(c: &mut Case) {
    let o = c.rng.below(10);
    let a: Array<Sy, (Const<2>, Const<3>)> = Array::from_fn(|i| Sy((3 * i[0] + i[1]) as u64));
    let b = array![Sy(B), Sy(B + 1), Sy(B + 2)];
    let n = c.rng.range(0, 3);
    let t: Tensor<Sy, (usize, Const<2>, Const<3>)> = Tensor::from(vals::<Sy>(6 * n, B)).into_shape((n, Const::<2>, Const::<3>));
    let low = tens_from::<Sy>(&[3], B);
    let s = strider(c, &[2, 3], B);
    calls();
    let w63 = model(o, 6, 6, 0, 3, B);
    let w36 = model(o, 6, 3, B, 6, 0);
    let w66 = model(o, 6, 6, 0, 6, B);
    bin!(c, o, &a, &b, &[2, 3], &w63);
    bin!(c, o, a, &b, &[2, 3], &w63);
    bin!(c, o, &b, &a, &[2, 3], &w36);
    bin!(c, o, &b, a, &[2, 3], &w36);
    bin!(c, o, a, &low, &[2, 3], &w63);
    bin!(c, o, &a, &low, &[2, 3], &w63);
    bin!(c, o, &low, a, &[2, 3], &w36);
    bin!(c, o, &a, s.view(), &[2, 3], &w66);
    bin!(c, o, a, s.view(), &[2, 3], &w66);
    bin!(c, o, &a, &t, &[n, 2, 3], &model(o, 6 * n, 6, 0, 6 * n, B));
    bin!(c, o, &a, t.clone(), &[n, 2, 3], &model(o, 6 * n, 6, 0, 6 * n, B));
    bin!(c, o, &t, &a, &[n, 2, 3], &model(o, 6 * n, 6 * n, B, 6, 0));
    bin!(c, o, t.clone(), a.expr(), &[n, 2, 3], &model(o, 6 * n, 6 * n, B, 6, 0));
    bin!(c, o, a, expr::fill(Sy(1)), &[2, 3], &(0..6).map(|i| Sy(f2(o as u64, i, 1))).collect::<Vec<_>>());
    bin!(c, o, expr::fill(Sy(1)), a, &[2, 3], &(0..6).map(|i| Sy(f2(o as u64, 1, i))).collect::<Vec<_>>());
    let u = 20 + c.rng.below(2);
    let wu: Vec<Sy> = (0..6).map(|i| Sy(f2(u as u64, i, 0))).collect();
    un!(c, u, &a, &[2, 3], &wu);
    un!(c, u, a, &[2, 3], &wu);
    let k = calls();
    assert!(k == 13 * 6 + 24 * n, "the element operators were called {k} times");
    let wa = model(o + 100, 6, 6, 0, 3, B);
    let mut x = a;
    assign!(o, x, &b);
    chk_vals(c, &x, &[2, 3], &wa);
    let mut x = a;
    assign!(o, x, low.expr());
    chk_vals(c, &x, &[2, 3], &wa);
    let mut x = a;
    let mut v = x.expr_mut();
    assign!(o, v, a);
    chk_vals(c, &x, &[2, 3], &model(o + 100, 6, 6, 0, 6, 0));
    let mut x = a;
    assign!(o, x, a);
    chk_vals(c, &x, &[2, 3], &model(o + 100, 6, 6, 0, 6, 0));
    c.seen(&[o as u64, n as u64]);
}

/// Real numbers, mixed types and composed formulas.
fn real(c: &mut Case) {
    let d = base_dims(c, 1, 4);
    let n = product(&d);
    let x: Tensor<f64, DynRank> = Tensor::from((0..n).map(|i| i as f64 + 0.5).collect::<Vec<_>>()).into_shape(&d[..]);
    let y: Tensor<i32, DynRank> = Tensor::from((0..n).map(|i| 3 * i as i32 - 7).collect::<Vec<_>>()).into_shape(&d[..]);
    let z = (&x * &x - expr::fill(2.0) / &x + expr::fill(1.0)).eval();
    let w: Vec<f64> = (0..n).map(|i| i as f64 + 0.5).map(|x| x * x - 2.0 / x + 1.0).collect();
    chk_vals(c, &z, &d, &w);
    let z = (-(&y << expr::fill(2)) ^ &y & expr::fill(13) | !(&y)).eval();
    let w: Vec<i32> = (0..n).map(|i| 3 * i as i32 - 7).map(|y| -(y << 2) ^ y & 13 | !y).collect();
    chk_vals(c, &z, &d, &w);
    let mut v = y.clone();
    v -= &y * expr::fill(3);
    v %= expr::fill(5);
    let w: Vec<i32> = (0..n).map(|i| 3 * i as i32 - 7).map(|y| (y - y * 3) % 5).collect();
    chk_vals(c, &v, &d, &w);
    // Strings: the owned left operand is extended in place.
    let s: Tensor<String, DynRank> = Tensor::from((0..n).map(|i| i.to_string()).collect::<Vec<_>>()).into_shape(&d[..]);
    let s = s + expr::fill("!");
    let w: Vec<String> = (0..n).map(|i| format!("{i}!")).collect();
    chk_vals(c, &s, &d, &w);
    c.seen(&[sig(&MV::dense(&d))]);
}

pub fn run(r: &mut Runner) {
    r.section("left", 3000, 10, left);
    r.section("generators", 1000, 4, generators);
    r.section("owned", 1200, 6, owned);
    r.section("unary", 1200, 6, unary);
    r.section("compound", 2000, 10, compound);
    r.section("mismatch", 600, 4, mismatch);
    r.section("mismatch-static", 500, 4, mismatch_static);
    r.section("mismatch-arrays", 400, 4, mismatch_arrays);
    r.section("arrays", 200, 2, arrays);
    r.section("real", 200, 2, real);
    r.large("left-large", 16, left);
    r.large("generators-large", 8, generators);
    r.large("owned-large", 8, owned);
    r.large("unary-large", 6, unary);
    r.large("compound-large", 12, compound);
}
