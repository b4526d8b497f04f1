//! C15: conversions between array kinds are lossless.

use std::borrow::{Borrow, BorrowMut};

use mdarray::expr::{Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, DynRank, Layout, Shape, Slice, Strided, Tensor, View, ViewMut};
use vh::chain::*;
use vh::*;

vh::check_main!("C15", run);

type U = usize;

#[track_caller]
fn same<T: El, S: Shape, L: Layout>(c: &mut Case, s: &Slice<T, S, L>, dims: &[usize], want: &[T]) {
    chk_vals(c, s, dims, want);
}

/// Conversions of a nested built-in array of type `$nest` with constant shape `$cs`, dynamic shape
/// `$ds` and mixed shape `$ms`; `$other` is a nested array of another size.
macro_rules! nested {
    ($fn:ident, $nest:ty, $cs:ty, $ds:ty, $ms:ty, $other:ty, $dims:expr) => {
        fn $fn(c: &mut Case) {
            type T = E;
            let dims: &[usize] = &$dims;
            let n = product(dims);
            let start = c.rng.u64() % 1000;
            let want: Vec<T> = vals(n, start);
            c.log(|| format!("nested array {} of {}", stringify!($nest), <T as El>::NAME));

            // A nested array that is built without the library.
            let nest = |c: &mut Case| -> $nest {
                let _ = c;
                let mut k = start;
                let x: $nest = Fill::fill(&mut || { k += 1; <T as El>::make(k - 1) });
                x
            };
            let flat = |x: &$nest| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
            assert!(flat(&nest(c)) == want);

            // Owned: nested -> array -> tensor (all shape types) -> nested.
            let a: Array<T, $cs> = Array::from(nest(c));
            same(c, &a, dims, &want);
            let x: $nest = a.clone().into();
            assert!(flat(&x) == want, "array to nested");
            let t: Tensor<T, $cs> = Tensor::from(a);
            same(c, &t, dims, &want);
            let p = t.as_ptr();
            let x: $nest = t.try_into().ok().expect("same size");
            let _ = p;
            assert!(flat(&x) == want, "tensor to nested");
            let t: Tensor<T, $ds> = Tensor::from(x);
            same(c, &t, dims, &want);
            let x: $nest = t.try_into().ok().expect("same size");
            assert!(flat(&x) == want, "dynamic tensor to nested");
            let t: Tensor<T, $ms> = Tensor::from(x);
            same(c, &t, dims, &want);
            let x: Result<$nest, _> = <$nest>::try_from(t.clone());
            assert!(x.is_ok_and(|x| flat(&x) == want), "mixed tensor to nested");
            let t: Tensor<T, $ms> = Tensor::from(&nest(c));
            same(c, &t, dims, &want);
            let a: Array<T, $cs> = Array::from(&nest(c));
            same(c, &a, dims, &want);
            let a2: Array<T, $cs> = Array::from(Tensor::<T, $cs>::from(nest(c)));
            same(c, &a2, dims, &want);

            // Another size is refused, with the tensor returned unchanged.
            let t: Tensor<T, $ds> = Tensor::from(nest(c));
            let (p, cap) = (t.as_ptr(), t.capacity());
            let r: Result<$other, Tensor<T, $ds>> = t.try_into();
            let t = r.err().expect("conversion to a nested array of another size succeeds");
            same(c, &t, dims, &want);
            assert!(t.as_ptr() == p && t.capacity() == cap, "refused conversion changes the buffer");
            c.ev("refused conversions", 1);

            // Views of nested arrays alias them, in both directions.
            let mut x = nest(c);
            {
                let v: View<T, $cs> = View::from(&x);
                same(c, &v, dims, &want);
                assert!(v.as_ptr() as usize == &x as *const $nest as usize, "view of a nested array points elsewhere");
                let y: &$nest = v.try_into().ok().expect("same size");
                assert!(std::ptr::eq(y, &x));
                let v: View<T, $ds> = View::from(&x);
                same(c, &v, dims, &want);
                let r: Result<&$other, View<T, $ds>> = v.try_into();
                let v = r.err().expect("view of another size is converted");
                same(c, &v, dims, &want);
                let v: View<T, $ms> = View::from(&x);
                let y: &$nest = v.try_into().ok().expect("same size");
                assert!(std::ptr::eq(y, &x));
                let r: &Array<T, $cs> = x.as_ref();
                same(c, r, dims, &want);
                assert!(r as *const _ as usize == &x as *const $nest as usize);
                let back: &$nest = r.as_ref();
                assert!(std::ptr::eq(back, &x));
            }
            let mut want2 = want.clone();
            if n > 0 {
                let k = c.rng.below(n);
                let i = MV::dense(dims);
                let mut v: ViewMut<T, $ds> = ViewMut::from(&mut x);
                assert!(v.as_ptr() as usize == v.as_mut_ptr() as usize);
                v[k] = <T as El>::make(5000);
                want2[k] = <T as El>::make(5000);
                let _ = i;
                assert!(flat(&x) == want2, "write through a view of a nested array");
                let v: ViewMut<T, $cs> = ViewMut::from(&mut x);
                let y: &mut $nest = v.try_into().ok().expect("same size");
                let mut q = 0;
                y.walk_mut(&mut |x| { if q == n - 1 { *x = <T as El>::make(6000); } q += 1; });
                want2[n - 1] = <T as El>::make(6000);
                assert!(flat(&x) == want2);
                let r: &mut Array<T, $cs> = x.as_mut();
                r[0] = <T as El>::make(7000);
                want2[0] = <T as El>::make(7000);
                let m: &mut $nest = r.as_mut();
                let mut q = 0;
                m.walk_mut(&mut |x| { if q == n / 2 { *x = <T as El>::make(8000); } q += 1; });
                want2[n / 2] = <T as El>::make(8000);
                assert!(flat(&x) == want2, "write through an array reference");
                let v: ViewMut<T, $ds> = ViewMut::from(&mut x);
                let r: Result<&mut $other, ViewMut<T, $ds>> = v.try_into();
                let v = r.err().expect("view of another size is converted");
                same(c, &v, dims, &want2);
            }
            // Slices and arrays of constant shape as nested arrays.
            let mut t: Tensor<T, $cs> = Tensor::from(nest(c));
            {
                let s: &Slice<T, $cs> = &t;
                let y: &$nest = s.as_ref();
                assert!(y as *const $nest as usize == t.as_ptr() as usize && flat(y) == want);
                let y: &$nest = t.as_ref();
                assert!(flat(y) == want);
                let y: &mut $nest = t.as_mut();
                let mut q = 0;
                y.walk_mut(&mut |x| { if q == 0 { *x = <T as El>::make(1234); } q += 1; });
                if n > 0 {
                    assert!(t[0] == <T as El>::make(1234));
                }
            }
            // Copies of slices and views.
            let t: Tensor<T, $ms> = Tensor::from(nest(c));
            let u: Tensor<T, $ms> = Tensor::from(&*t);
            same(c, &u, dims, &want);
            let u: Tensor<T, $ms> = Tensor::from(t.expr());
            same(c, &u, dims, &want);
            let a: Array<T, $cs> = Array::from(Tensor::<T, $cs>::from(nest(c)).expr());
            same(c, &a, dims, &want);
            let a: Array<T, $cs> = Tensor::<T, $cs>::from(nest(c)).to_array();
            same(c, &a, dims, &want);
            let a: Array<T, $cs> = FromExpression::from_expr(t.into_mapping::<$cs>().into_expr());
            same(c, &a, dims, &want);
            c.ev("conversions compared", 40);
            c.seen(&[hash_name(stringify!($fn)), hash_name(<T as El>::NAME)]);
        }
    };
}

fn hash_name(s: &str) -> u64 {
    vh::rng::hash_str(s)
}

/// Nested built-in arrays, handled without the library.
trait Fill<T>: Sized {
    fn fill(f: &mut dyn FnMut() -> T) -> Self;
    fn walk(&self, f: &mut dyn FnMut(&T));
    fn walk_mut(&mut self, f: &mut dyn FnMut(&mut T));
}

macro_rules! leaf {
    ($($t:ty),*) => {$(
        impl Fill<$t> for $t {
            fn fill(f: &mut dyn FnMut() -> $t) -> Self { f() }
            fn walk(&self, f: &mut dyn FnMut(&$t)) { f(self) }
            fn walk_mut(&mut self, f: &mut dyn FnMut(&mut $t)) { f(self) }
        }
    )*};
}

leaf!(u8, u64, String, A64, Z);

impl<T, X: Fill<T>, const N: usize> Fill<T> for [X; N] {
    fn fill(f: &mut dyn FnMut() -> T) -> Self {
        std::array::from_fn(|_| X::fill(f))
    }
    fn walk(&self, f: &mut dyn FnMut(&T)) {
        self.iter().for_each(|x| x.walk(f))
    }
    fn walk_mut(&mut self, f: &mut dyn FnMut(&mut T)) {
        self.iter_mut().for_each(|x| x.walk_mut(f))
    }
}

macro_rules! all_nested {
    ($($m:ident: $t:ty;)*) => {$(
        mod $m {
            use super::*;
            type E = $t;
            nested!(n1, [E; 5], (Const<5>,), (U,), (U,), [E; 4], [5]);
            nested!(n1e, [E; 0], (Const<0>,), (U,), (U,), [E; 4], [0]);
            nested!(n2, [[E; 3]; 2], (Const<2>, Const<3>), (U, U), (Const<2>, U), [[E; 2]; 3], [2, 3]);
            nested!(n2e, [[E; 0]; 2], (Const<2>, Const<0>), (U, U), (U, Const<0>), [[E; 2]; 0], [2, 0]);
            nested!(n3, [[[E; 4]; 3]; 2], (Const<2>, Const<3>, Const<4>), (U, U, U), (Const<2>, U, Const<4>), [[[E; 4]; 2]; 3], [2, 3, 4]);
            nested!(n4, [[[[E; 2]; 3]; 1]; 2], (Const<2>, Const<1>, Const<3>, Const<2>), (U, U, U, U), (U, Const<1>, U, Const<2>), [[[[E; 2]; 1]; 3]; 2], [2, 1, 3, 2]);
            nested!(n5, [[[[[E; 2]; 1]; 2]; 3]; 2], (Const<2>, Const<3>, Const<2>, Const<1>, Const<2>), (U, U, U, U, U), (U, Const<3>, U, Const<1>, U), [[[[[E; 1]; 2]; 2]; 3]; 2], [2, 3, 2, 1, 2]);
            nested!(n6, [[[[[[E; 2]; 3]; 1]; 2]; 1]; 2], (Const<2>, Const<1>, Const<2>, Const<1>, Const<3>, Const<2>), (U, U, U, U, U, U), (Const<2>, U, U, Const<1>, U, Const<2>), [[[[[[E; 2]; 3]; 1]; 2]; 2]; 1], [2, 1, 2, 1, 3, 2]);
            pub fn all(c: &mut Case) {
                match c.index % 8 {
                    0 => n1(c),
                    1 => n2(c),
                    2 => n3(c),
                    3 => n4(c),
                    4 => n5(c),
                    5 => n6(c),
                    6 => n1e(c),
                    _ => n2e(c),
                }
            }
        }
    )*};
}

all_nested! {
    u64s: u64;
    strings: String;
    zsts: Z;
    aligned: A64;
}

/// Conversions to nested array types of many sizes: accepted exactly if all dimensions agree.
fn cross1<T: El + Fill<T>, const A: usize>(c: &mut Case, d: &[usize])
where
    [T; A]: Fill<T>,
{
    type S = (U,);
    let to: &[usize] = &[A];
    let want: Vec<T> = vals(product(d), 3);
    let mk = || -> Tensor<T, S> { Tensor::<T, (U,)>::from(want.clone()).into_shape(d).into_mapping() };
    let flat = |x: &[T; A]| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
    let t = mk();
    let p = t.as_ptr();
    match <&[T; A]>::try_from(t.expr()) {
        Ok(x) => {
            assert!(to == d, "view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let mut u = mk();
    let p = u.as_ptr();
    match <&mut [T; A]>::try_from(u.expr_mut()) {
        Ok(x) => {
            assert!(to == d, "mutable view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "mutable view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let (p, k) = (u.as_ptr(), u.capacity());
    match <[T; A]>::try_from(u) {
        Ok(x) => {
            assert!(to == d, "tensor of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(&x) == want);
        }
        Err(v) => {
            assert!(to != d, "tensor of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p && v.capacity() == k);
        }
    }
    c.ev("crossed conversions", 3);
}


fn cross2<T: El + Fill<T>, const A: usize, const B: usize>(c: &mut Case, d: &[usize])
where
    [[T; B]; A]: Fill<T>,
{
    type S = (U, U);
    let to: &[usize] = &[A, B];
    let want: Vec<T> = vals(product(d), 3);
    let mk = || -> Tensor<T, S> { Tensor::<T, (U,)>::from(want.clone()).into_shape(d).into_mapping() };
    let flat = |x: &[[T; B]; A]| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
    let t = mk();
    let p = t.as_ptr();
    match <&[[T; B]; A]>::try_from(t.expr()) {
        Ok(x) => {
            assert!(to == d, "view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let mut u = mk();
    let p = u.as_ptr();
    match <&mut [[T; B]; A]>::try_from(u.expr_mut()) {
        Ok(x) => {
            assert!(to == d, "mutable view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "mutable view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let (p, k) = (u.as_ptr(), u.capacity());
    match <[[T; B]; A]>::try_from(u) {
        Ok(x) => {
            assert!(to == d, "tensor of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(&x) == want);
        }
        Err(v) => {
            assert!(to != d, "tensor of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p && v.capacity() == k);
        }
    }
    c.ev("crossed conversions", 3);
}


fn cross3<T: El + Fill<T>, const A: usize, const B: usize, const C: usize>(c: &mut Case, d: &[usize])
where
    [[[T; C]; B]; A]: Fill<T>,
{
    type S = (U, U, U);
    let to: &[usize] = &[A, B, C];
    let want: Vec<T> = vals(product(d), 3);
    let mk = || -> Tensor<T, S> { Tensor::<T, (U,)>::from(want.clone()).into_shape(d).into_mapping() };
    let flat = |x: &[[[T; C]; B]; A]| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
    let t = mk();
    let p = t.as_ptr();
    match <&[[[T; C]; B]; A]>::try_from(t.expr()) {
        Ok(x) => {
            assert!(to == d, "view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let mut u = mk();
    let p = u.as_ptr();
    match <&mut [[[T; C]; B]; A]>::try_from(u.expr_mut()) {
        Ok(x) => {
            assert!(to == d, "mutable view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "mutable view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let (p, k) = (u.as_ptr(), u.capacity());
    match <[[[T; C]; B]; A]>::try_from(u) {
        Ok(x) => {
            assert!(to == d, "tensor of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(&x) == want);
        }
        Err(v) => {
            assert!(to != d, "tensor of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p && v.capacity() == k);
        }
    }
    c.ev("crossed conversions", 3);
}


fn cross4<T: El + Fill<T>, const A: usize, const B: usize, const C: usize, const D: usize>(c: &mut Case, d: &[usize])
where
    [[[[T; D]; C]; B]; A]: Fill<T>,
{
    type S = (U, U, U, U);
    let to: &[usize] = &[A, B, C, D];
    let want: Vec<T> = vals(product(d), 3);
    let mk = || -> Tensor<T, S> { Tensor::<T, (U,)>::from(want.clone()).into_shape(d).into_mapping() };
    let flat = |x: &[[[[T; D]; C]; B]; A]| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
    let t = mk();
    let p = t.as_ptr();
    match <&[[[[T; D]; C]; B]; A]>::try_from(t.expr()) {
        Ok(x) => {
            assert!(to == d, "view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let mut u = mk();
    let p = u.as_ptr();
    match <&mut [[[[T; D]; C]; B]; A]>::try_from(u.expr_mut()) {
        Ok(x) => {
            assert!(to == d, "mutable view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "mutable view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let (p, k) = (u.as_ptr(), u.capacity());
    match <[[[[T; D]; C]; B]; A]>::try_from(u) {
        Ok(x) => {
            assert!(to == d, "tensor of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(&x) == want);
        }
        Err(v) => {
            assert!(to != d, "tensor of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p && v.capacity() == k);
        }
    }
    c.ev("crossed conversions", 3);
}


fn cross5<T: El + Fill<T>, const A: usize, const B: usize, const C: usize, const D: usize, const E: usize>(c: &mut Case, d: &[usize])
where
    [[[[[T; E]; D]; C]; B]; A]: Fill<T>,
{
    type S = (U, U, U, U, U);
    let to: &[usize] = &[A, B, C, D, E];
    let want: Vec<T> = vals(product(d), 3);
    let mk = || -> Tensor<T, S> { Tensor::<T, (U,)>::from(want.clone()).into_shape(d).into_mapping() };
    let flat = |x: &[[[[[T; E]; D]; C]; B]; A]| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
    let t = mk();
    let p = t.as_ptr();
    match <&[[[[[T; E]; D]; C]; B]; A]>::try_from(t.expr()) {
        Ok(x) => {
            assert!(to == d, "view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let mut u = mk();
    let p = u.as_ptr();
    match <&mut [[[[[T; E]; D]; C]; B]; A]>::try_from(u.expr_mut()) {
        Ok(x) => {
            assert!(to == d, "mutable view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "mutable view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let (p, k) = (u.as_ptr(), u.capacity());
    match <[[[[[T; E]; D]; C]; B]; A]>::try_from(u) {
        Ok(x) => {
            assert!(to == d, "tensor of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(&x) == want);
        }
        Err(v) => {
            assert!(to != d, "tensor of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p && v.capacity() == k);
        }
    }
    c.ev("crossed conversions", 3);
}


fn cross6<T: El + Fill<T>, const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize>(c: &mut Case, d: &[usize])
where
    [[[[[[T; F]; E]; D]; C]; B]; A]: Fill<T>,
{
    type S = (U, U, U, U, U, U);
    let to: &[usize] = &[A, B, C, D, E, F];
    let want: Vec<T> = vals(product(d), 3);
    let mk = || -> Tensor<T, S> { Tensor::<T, (U,)>::from(want.clone()).into_shape(d).into_mapping() };
    let flat = |x: &[[[[[[T; F]; E]; D]; C]; B]; A]| -> Vec<T> { let mut v = Vec::new(); x.walk(&mut |x| v.push(x.clone())); v };
    let t = mk();
    let p = t.as_ptr();
    match <&[[[[[[T; F]; E]; D]; C]; B]; A]>::try_from(t.expr()) {
        Ok(x) => {
            assert!(to == d, "view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let mut u = mk();
    let p = u.as_ptr();
    match <&mut [[[[[[T; F]; E]; D]; C]; B]; A]>::try_from(u.expr_mut()) {
        Ok(x) => {
            assert!(to == d, "mutable view of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(x) == want && x as *const _ as usize == p as usize);
        }
        Err(v) => {
            assert!(to != d, "mutable view of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p);
        }
    }
    let (p, k) = (u.as_ptr(), u.capacity());
    match <[[[[[[T; F]; E]; D]; C]; B]; A]>::try_from(u) {
        Ok(x) => {
            assert!(to == d, "tensor of {d:?} is converted to a nested array of {to:?}");
            assert!(flat(&x) == want);
        }
        Err(v) => {
            assert!(to != d, "tensor of {d:?} is not converted");
            same(c, &v, d, &want);
            assert!(v.as_ptr() == p && v.capacity() == k);
        }
    }
    c.ev("crossed conversions", 3);
}

fn cross<T: El + Fill<T>>(c: &mut Case) {
    match c.index % 6 {
        0 => {
            let d = *c.rng.pick::<[usize; 1]>(&[[0], [1], [2], [3], [4]]);
            c.log(|| format!("conversions of {d:?}"));
            cross1::<T, 0>(c, &d);
            cross1::<T, 1>(c, &d);
            cross1::<T, 2>(c, &d);
            cross1::<T, 3>(c, &d);
            cross1::<T, 4>(c, &d);
            c.seen(&d.map(|x| x as u64));
        }
        1 => {
            let d = *c.rng.pick::<[usize; 2]>(&[[0, 0], [0, 1], [0, 2], [0, 3], [1, 0], [1, 1], [1, 2], [1, 3], [2, 0], [2, 1], [2, 2], [2, 3], [3, 0], [3, 1], [3, 2], [3, 3]]);
            c.log(|| format!("conversions of {d:?}"));
            cross2::<T, 0, 0>(c, &d);
            cross2::<T, 0, 1>(c, &d);
            cross2::<T, 0, 2>(c, &d);
            cross2::<T, 0, 3>(c, &d);
            cross2::<T, 1, 0>(c, &d);
            cross2::<T, 1, 1>(c, &d);
            cross2::<T, 1, 2>(c, &d);
            cross2::<T, 1, 3>(c, &d);
            cross2::<T, 2, 0>(c, &d);
            cross2::<T, 2, 1>(c, &d);
            cross2::<T, 2, 2>(c, &d);
            cross2::<T, 2, 3>(c, &d);
            cross2::<T, 3, 0>(c, &d);
            cross2::<T, 3, 1>(c, &d);
            cross2::<T, 3, 2>(c, &d);
            cross2::<T, 3, 3>(c, &d);
            c.seen(&d.map(|x| x as u64));
        }
        2 => {
            let d = *c.rng.pick::<[usize; 3]>(&[[0, 0, 0], [0, 0, 1], [0, 0, 2], [0, 1, 0], [0, 1, 1], [0, 1, 2], [0, 2, 0], [0, 2, 1], [0, 2, 2], [1, 0, 0], [1, 0, 1], [1, 0, 2], [1, 1, 0], [1, 1, 1], [1, 1, 2], [1, 2, 0], [1, 2, 1], [1, 2, 2], [2, 0, 0], [2, 0, 1], [2, 0, 2], [2, 1, 0], [2, 1, 1], [2, 1, 2], [2, 2, 0], [2, 2, 1], [2, 2, 2]]);
            c.log(|| format!("conversions of {d:?}"));
            cross3::<T, 0, 0, 0>(c, &d);
            cross3::<T, 0, 0, 1>(c, &d);
            cross3::<T, 0, 0, 2>(c, &d);
            cross3::<T, 0, 1, 0>(c, &d);
            cross3::<T, 0, 1, 1>(c, &d);
            cross3::<T, 0, 1, 2>(c, &d);
            cross3::<T, 0, 2, 0>(c, &d);
            cross3::<T, 0, 2, 1>(c, &d);
            cross3::<T, 0, 2, 2>(c, &d);
            cross3::<T, 1, 0, 0>(c, &d);
            cross3::<T, 1, 0, 1>(c, &d);
            cross3::<T, 1, 0, 2>(c, &d);
            cross3::<T, 1, 1, 0>(c, &d);
            cross3::<T, 1, 1, 1>(c, &d);
            cross3::<T, 1, 1, 2>(c, &d);
            cross3::<T, 1, 2, 0>(c, &d);
            cross3::<T, 1, 2, 1>(c, &d);
            cross3::<T, 1, 2, 2>(c, &d);
            cross3::<T, 2, 0, 0>(c, &d);
            cross3::<T, 2, 0, 1>(c, &d);
            cross3::<T, 2, 0, 2>(c, &d);
            cross3::<T, 2, 1, 0>(c, &d);
            cross3::<T, 2, 1, 1>(c, &d);
            cross3::<T, 2, 1, 2>(c, &d);
            cross3::<T, 2, 2, 0>(c, &d);
            cross3::<T, 2, 2, 1>(c, &d);
            cross3::<T, 2, 2, 2>(c, &d);
            c.seen(&d.map(|x| x as u64));
        }
        3 => {
            let d = *c.rng.pick::<[usize; 4]>(&[[0, 1, 0, 1], [0, 1, 2, 1], [0, 2, 1, 0], [0, 2, 1, 2], [0, 2, 1, 3], [1, 1, 0, 0], [1, 1, 0, 1], [1, 1, 1, 1], [1, 1, 1, 2], [1, 2, 1, 0], [1, 2, 2, 0], [1, 2, 2, 2], [2, 0, 2, 2], [2, 1, 0, 2], [2, 1, 1, 0], [2, 1, 2, 2], [2, 1, 3, 1], [3, 1, 2, 1], [3, 3, 1, 1], [3, 3, 3, 2]]);
            c.log(|| format!("conversions of {d:?}"));
            cross4::<T, 0, 1, 0, 1>(c, &d);
            cross4::<T, 0, 1, 2, 1>(c, &d);
            cross4::<T, 0, 2, 1, 0>(c, &d);
            cross4::<T, 0, 2, 1, 2>(c, &d);
            cross4::<T, 0, 2, 1, 3>(c, &d);
            cross4::<T, 1, 1, 0, 0>(c, &d);
            cross4::<T, 1, 1, 0, 1>(c, &d);
            cross4::<T, 1, 1, 1, 1>(c, &d);
            cross4::<T, 1, 1, 1, 2>(c, &d);
            cross4::<T, 1, 2, 1, 0>(c, &d);
            cross4::<T, 1, 2, 2, 0>(c, &d);
            cross4::<T, 1, 2, 2, 2>(c, &d);
            cross4::<T, 2, 0, 2, 2>(c, &d);
            cross4::<T, 2, 1, 0, 2>(c, &d);
            cross4::<T, 2, 1, 1, 0>(c, &d);
            cross4::<T, 2, 1, 2, 2>(c, &d);
            cross4::<T, 2, 1, 3, 1>(c, &d);
            cross4::<T, 3, 1, 2, 1>(c, &d);
            cross4::<T, 3, 3, 1, 1>(c, &d);
            cross4::<T, 3, 3, 3, 2>(c, &d);
            c.seen(&d.map(|x| x as u64));
        }
        4 => {
            let d = *c.rng.pick::<[usize; 5]>(&[[0, 0, 2, 2, 2], [0, 1, 1, 2, 2], [0, 1, 3, 1, 1], [0, 1, 3, 2, 1], [0, 2, 2, 1, 2], [1, 0, 1, 1, 2], [1, 0, 3, 1, 2], [1, 0, 3, 1, 3], [1, 1, 0, 2, 0], [1, 1, 0, 2, 2], [1, 1, 1, 1, 1], [1, 1, 1, 3, 2], [1, 1, 2, 0, 2], [1, 1, 2, 2, 1], [1, 2, 0, 2, 3], [1, 2, 1, 0, 1], [1, 2, 1, 2, 0], [1, 2, 3, 2, 1], [2, 0, 2, 0, 3], [2, 1, 2, 1, 2], [3, 1, 2, 1, 3]]);
            c.log(|| format!("conversions of {d:?}"));
            cross5::<T, 0, 0, 2, 2, 2>(c, &d);
            cross5::<T, 0, 1, 1, 2, 2>(c, &d);
            cross5::<T, 0, 1, 3, 1, 1>(c, &d);
            cross5::<T, 0, 1, 3, 2, 1>(c, &d);
            cross5::<T, 0, 2, 2, 1, 2>(c, &d);
            cross5::<T, 1, 0, 1, 1, 2>(c, &d);
            cross5::<T, 1, 0, 3, 1, 2>(c, &d);
            cross5::<T, 1, 0, 3, 1, 3>(c, &d);
            cross5::<T, 1, 1, 0, 2, 0>(c, &d);
            cross5::<T, 1, 1, 0, 2, 2>(c, &d);
            cross5::<T, 1, 1, 1, 1, 1>(c, &d);
            cross5::<T, 1, 1, 1, 3, 2>(c, &d);
            cross5::<T, 1, 1, 2, 0, 2>(c, &d);
            cross5::<T, 1, 1, 2, 2, 1>(c, &d);
            cross5::<T, 1, 2, 0, 2, 3>(c, &d);
            cross5::<T, 1, 2, 1, 0, 1>(c, &d);
            cross5::<T, 1, 2, 1, 2, 0>(c, &d);
            cross5::<T, 1, 2, 3, 2, 1>(c, &d);
            cross5::<T, 2, 0, 2, 0, 3>(c, &d);
            cross5::<T, 2, 1, 2, 1, 2>(c, &d);
            cross5::<T, 3, 1, 2, 1, 3>(c, &d);
            c.seen(&d.map(|x| x as u64));
        }
        _ => {
            let d = *c.rng.pick::<[usize; 6]>(&[[0, 1, 1, 2, 3, 3], [0, 2, 1, 2, 2, 2], [0, 2, 2, 2, 1, 1], [1, 0, 1, 3, 2, 3], [1, 0, 2, 1, 1, 1], [1, 1, 1, 1, 1, 1], [1, 1, 2, 0, 1, 2], [1, 1, 2, 2, 0, 2], [1, 2, 0, 1, 1, 1], [1, 2, 1, 1, 1, 2], [1, 2, 1, 3, 3, 1], [1, 2, 2, 1, 0, 2], [1, 2, 3, 3, 1, 1], [1, 3, 0, 3, 3, 3], [1, 3, 1, 2, 0, 2], [1, 3, 1, 3, 2, 1], [1, 3, 2, 1, 1, 2], [2, 1, 1, 1, 2, 0], [2, 1, 1, 3, 1, 2], [2, 1, 2, 2, 2, 3], [2, 1, 3, 2, 1, 1], [2, 3, 3, 1, 2, 1]]);
            c.log(|| format!("conversions of {d:?}"));
            cross6::<T, 0, 1, 1, 2, 3, 3>(c, &d);
            cross6::<T, 0, 2, 1, 2, 2, 2>(c, &d);
            cross6::<T, 0, 2, 2, 2, 1, 1>(c, &d);
            cross6::<T, 1, 0, 1, 3, 2, 3>(c, &d);
            cross6::<T, 1, 0, 2, 1, 1, 1>(c, &d);
            cross6::<T, 1, 1, 1, 1, 1, 1>(c, &d);
            cross6::<T, 1, 1, 2, 0, 1, 2>(c, &d);
            cross6::<T, 1, 1, 2, 2, 0, 2>(c, &d);
            cross6::<T, 1, 2, 0, 1, 1, 1>(c, &d);
            cross6::<T, 1, 2, 1, 1, 1, 2>(c, &d);
            cross6::<T, 1, 2, 1, 3, 3, 1>(c, &d);
            cross6::<T, 1, 2, 2, 1, 0, 2>(c, &d);
            cross6::<T, 1, 2, 3, 3, 1, 1>(c, &d);
            cross6::<T, 1, 3, 0, 3, 3, 3>(c, &d);
            cross6::<T, 1, 3, 1, 2, 0, 2>(c, &d);
            cross6::<T, 1, 3, 1, 3, 2, 1>(c, &d);
            cross6::<T, 1, 3, 2, 1, 1, 2>(c, &d);
            cross6::<T, 2, 1, 1, 1, 2, 0>(c, &d);
            cross6::<T, 2, 1, 1, 3, 1, 2>(c, &d);
            cross6::<T, 2, 1, 2, 2, 2, 3>(c, &d);
            cross6::<T, 2, 1, 3, 2, 1, 1>(c, &d);
            cross6::<T, 2, 3, 3, 1, 2, 1>(c, &d);
            c.seen(&d.map(|x| x as u64));
        }
    }
}

/// Vectors, slices, flat and reshaped forms, raw parts of tensors with any shape.
fn dynamic<T: El>(c: &mut Case) {
    let cap = c.cap(60);
    let r = c.rng.range(0, 6);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let want: Vec<T> = vals(n, 0);
    c.log(|| format!("tensor of {} with shape {d:?}", T::NAME));
    let zst = size_of::<T>() == 0;
    let mut v = want.clone();
    v.reserve(c.rng.range(0, 10));
    let (p, k) = (v.as_ptr(), v.capacity());
    let moved = |q: *const T, what: &str| assert!(zst || q == p, "{what}: the buffer is not handed over");

    // Vector to tensor, reshaped in several ways and back, all in the same buffer.
    let t: Tensor<T, (U,)> = Tensor::from(v);
    moved(t.as_ptr(), "from a vector");
    assert!(t.capacity() == if zst { usize::MAX } else { k }, "capacity {} of a vector with {k}", t.capacity());
    same(c, &t, &[n], &want);
    let t: Tensor<T, DynRank> = t.into_shape(&d[..]);
    moved(t.as_ptr(), "into_shape");
    same(c, &t, &d, &want);
    let t = as_rank_t!(t, d.len(), x => {
        moved(x.as_ptr(), "into_mapping");
        same(c, &x, &d, &want);
        x.into_dyn()
    });
    moved(t.as_ptr(), "into_dyn");
    same(c, &t, &d, &want);
    let (q, m, k2) = t.into_raw_parts();
    moved(q, "into_raw_parts");
    assert!(mdarray::Mapping::len(&m) == n && (zst || k2 == k), "raw parts: length {}, capacity {k2}", mdarray::Mapping::len(&m));
    let t: Tensor<T, DynRank> = unsafe { Tensor::from_raw_parts(q, m, k2) };
    same(c, &t, &d, &want);
    let f = t.clone().into_flat();
    same(c, &f, &[n], &want);
    let t2: Tensor<T, DynRank> = f.into_shape(&d[..]);
    assert!(t2 == t);
    {
        // A buffer with room to spare is handed over as a whole.
        let mut t = t2;
        t.reserve(c.rng.range(1, 40));
        let (p, k) = (t.as_ptr(), t.capacity());
        let keeps = |q: *const T, cap: usize, what: &str| assert!(zst || q == p && cap == k, "{what}: the buffer with capacity {k} is not handed over, capacity {cap}");
        let mut t = t.into_flat();
        keeps(t.as_ptr(), t.capacity(), "into_flat");
        same(c, &t, &[n], &want);
        for _ in 0..c.rng.range(1, 4) {
            t = match c.rng.below(5) {
                0 => t.into_dyn().into_flat(),
                1 => {
                    let t: Tensor<T, DynRank> = t.into_shape(&d[..]);
                    keeps(t.as_ptr(), t.capacity(), "into_shape");
                    t.into_flat()
                }
                2 => as_rank_t!(t.into_shape(&d[..]), d.len(), x => {
                    keeps(x.as_ptr(), x.capacity(), "into_mapping");
                    x.into_flat()
                }),
                3 => Tensor::from(t.into_vec()),
                _ => {
                    let v: Vec<T> = t.into();
                    keeps(v.as_ptr(), v.capacity(), "into a vector");
                    v.into()
                }
            };
            keeps(t.as_ptr(), t.capacity(), "conversion");
        }
        same(c, &t, &[n], &want);
        c.ev("buffers handed over with room to spare", 3);
    }
    if let Some(e) = factor(&mut c.rng, n, 3) {
        let s: Tensor<T, (U, U, U)> = t.clone().into_shape([e[0], e[1], e[2]]);
        same(c, &s, &e, &want);
        let s: Tensor<T, (U, U, U)> = s.into_shape([e[0], if e[0] * e[2] == 0 { e[1] } else { !0 }, e[2]]);
        same(c, &s, &e, &want);
    }
    let w = t.into_vec();
    moved(w.as_ptr(), "into_vec");
    assert!(w == want && w.capacity() == k || zst && w == want, "into_vec: capacity {} instead of {k}", w.capacity());
    let t: Tensor<T, (U,)> = w.into();
    let w: Vec<T> = t.into();
    moved(w.as_ptr(), "into a vector");
    assert!(w == want);

    // Copies.
    let t = tens::<T>(&d);
    assert!(t.to_vec() == want && t.to_tensor() == t && t.clone() == t);
    let u: Tensor<T, (U,)> = Tensor::from(&want[..]);
    same(c, &u, &[n], &want);
    let u: Tensor<T, (U,)> = want.iter().cloned().collect();
    let hint = some_hint(c, n);
    let h: Tensor<T, (U,)> = Hinted(want.iter().cloned(), hint).collect();
    same(c, &h, &[n], &want);
    same(c, &u, &[n], &want);
    let s: &Slice<T, (U,)> = u.borrow();
    let a: &[T] = s.as_ref();
    assert!(a == &want[..] && a.as_ptr() == u.as_ptr());
    let a: &[T] = u.as_ref();
    assert!(a == &want[..]);
    let a: &[T] = u.expr().into();
    assert!(a == &want[..] && a.as_ptr() == u.as_ptr());
    let vw: View<T, (U,)> = View::from(&want[..]);
    same(c, &vw, &[n], &want);
    assert!(vw.as_ptr() == want.as_ptr());
    let mut w = want.clone();
    let vm: ViewMut<T, (U,)> = ViewMut::from(&mut w[..]);
    let a: &mut [T] = vm.into();
    if n > 0 {
        a[n - 1] = T::make(77);
        assert!(w[n - 1] == T::make(77));
    }
    let mut u2 = u.clone();
    {
        let s: &mut Slice<T, (U,)> = u2.borrow_mut();
        let a: &mut [T] = s.as_mut();
        if n > 0 {
            a[0] = T::make(88);
        }
    }
    let a: &mut [T] = u2.as_mut();
    assert!(n == 0 || a[0] == T::make(88));

    // Strided views.
    let s = Strider::new(c, &d, want.clone(), || T::make(99_999));
    assert!(s.view().to_vec() == want, "to_vec of a strided view");
    same(c, &s.view().to_tensor(), &d, &want);
    let u: Tensor<T, DynRank> = Tensor::from(s.view());
    same(c, &u, &d, &want);
    let u: Tensor<T, DynRank> = s.view().cloned().eval();
    same(c, &u, &d, &want);
    if s.view().is_contiguous() {
        let x: View<T, DynRank> = s.view().into_mapping();
        same(c, &x, &d, &want);
    }
    c.ev("conversions compared", 30);
    c.seen(&[hash_name(T::NAME), d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
}

/// Conversions of shape and layout types, which may be refused.
fn shapes(c: &mut Case) {
    let cap = c.cap(40);
    let r = c.rng.range(0, 4);
    let d: Vec<usize> = (0..r).map(|_| c.rng.range(1, 3)).collect();
    let d = if product(&d) > cap { vec![2; r] } else { d };
    let want: Vec<u64> = vals(product(&d), 0);
    c.log(|| format!("shape {d:?} to other shape types"));
    macro_rules! to {
        ($($s:ty, $ok:expr;)*) => {$({
            let ok: bool = $ok;
            let t = tens::<u64>(&d);
            let p = t.as_ptr();
            match caught(|| t.into_mapping::<$s>()) {
                Ok(t) => {
                    assert!(ok, "{d:?} is converted to {}", stringify!($s));
                    same(c, &t, &d, &want);
                    assert!(t.as_ptr() == p);
                }
                Err(_) => assert!(!ok, "{d:?} is not converted to {}", stringify!($s)),
            }
            let t = tens::<u64>(&d);
            match caught(|| t.remap::<$s, Strided>()) {
                Ok(v) => {
                    assert!(ok, "view {d:?} is converted to {}", stringify!($s));
                    same(c, &v, &d, &want);
                }
                Err(_) => assert!(!ok, "view {d:?} is not converted to {}", stringify!($s)),
            }
            c.ev("conversions of shape types", 2);
            c.ev("refused conversions", 2 * !ok as usize);
        })*};
    }
    to! {
        DynRank, true;
        (), r == 0;
        (U,), r == 1;
        (Const<2>,), d == [2];
        (U, U), r == 2;
        (Const<2>, U), r == 2 && d[0] == 2;
        (U, Const<3>), r == 2 && d[1] == 3;
        (Const<3>, Const<2>), d == [3, 2];
        (U, U, U), r == 3;
        (U, Const<1>, U), r == 3 && d[1] == 1;
        (Const<1>, U, Const<2>), r == 3 && d[0] == 1 && d[2] == 2;
        (U, U, U, U), r == 4;
        (Const<1>, Const<2>, U, U), r == 4 && d[0] == 1 && d[1] == 2;
        (U, U, U, U, U), false;
    }
    // A layout that needs contiguous elements: refused unless they are.
    let s = Strider::<u64>::make(c, &d, 0);
    let v = s.view();
    let ok = v.is_contiguous();
    match caught(|| s.view().into_mapping::<DynRank, mdarray::Dense>()) {
        Ok(x) => {
            assert!(ok, "strided view {d:?} with strides {:?} is converted to a dense one", v.strides());
            same(c, &x, &d, &want);
        }
        Err(_) => assert!(!ok, "contiguous view is refused"),
    }
    let m = &s.m.idx;
    let packed = m.windows(2).all(|w| w[1] == w[0] + 1);
    assert!(!ok || packed, "strided view {:?} claims to be contiguous", v.strides());
    c.seen(&[d.iter().fold(1, |a, &x| a * 7 + x as u64), ok as u64]);
}

/// Scalars.
fn scalars(c: &mut Case) {
    let r = c.rng.range(0, 6);
    let n = c.rng.range(0, 2);
    let mut d = vec![1; r];
    if r > 0 && n != 1 {
        let i = c.rng.below(r);
        d[i] = n;
    }
    let ok = product(&d) == 1;
    let t: Tensor<String, DynRank> = Tensor::from_elem(&d[..], "x".to_string());
    c.log(|| format!("into_scalar of {d:?}"));
    match caught(|| t.into_scalar()) {
        Ok(x) => assert!(ok && x == "x", "into_scalar of {d:?} gives {x:?}"),
        Err(_) => assert!(!ok, "into_scalar of {d:?} panics"),
    }
    let a: Array<String, (Const<1>, Const<1>, Const<1>)> = Array::from_elem("y".into());
    assert!(a.into_scalar() == "y");
    let a: Array<String, ()> = Array("z".to_string());
    assert!(a.into_scalar() == "z");
    assert!(panics(|| Array::<u8, (Const<2>,)>([1, 2]).into_scalar()));
    let e: [u8; 0] = [];
    assert!(panics(|| Array::<u8, (Const<0>,)>(e).into_scalar()));
    // Constant arrays, reshaped.
    let v: [String; 12] = std::array::from_fn(|i| format!("{i}"));
    let want = v.to_vec();
    let a: Array<String, (Const<12>,)> = Array(v);
    let b: Array<String, (Const<2>, Const<3>, Const<2>)> = a.into_shape();
    same(c, &b, &[2, 3, 2], &want);
    let b: Array<String, (Const<1>, Const<12>)> = b.into_shape();
    same(c, &b, &[1, 12], &want);
    assert!(panics(|| b.into_shape::<(Const<5>, Const<2>)>()), "reshaping 12 elements to 5 x 2 is accepted");
    // Every pair of a few shapes: the length must not change.
    macro_rules! one {
        ([$($f:literal),*] ($($t:literal),*)) => {{
            let (d, e): (&[usize], &[usize]) = (&[$($f),*], &[$($t),*]);
            let mut k = 0;
            let a: Array<String, ($(Const<$f>,)*)> = Array::from_fn(|_| { k += 1; k.to_string() });
            let b: Array<u64, ($(Const<$f>,)*)> = Array::from_elem(7);
            let fits = product(d) == product(e);
            let (s, n) = (caught(|| a.into_shape::<($(Const<$t>,)*)>()), caught(|| b.into_shape::<($(Const<$t>,)*)>()));
            assert!(s.is_ok() == fits && n.is_ok() == fits, "reshaping an array {d:?} to {e:?}: {}, {}", s.is_ok(), n.is_ok());
            if let Ok(s) = s {
                same(c, &s, e, &(1..product(e) + 1).map(|i| i.to_string()).collect::<Vec<_>>());
            }
            c.ev("pairs of constant shapes", 1);
        }};
    }
    macro_rules! reshape {
        ($($f:tt to [$($t:tt)+])*) => {$($(one!($f $t);)+)*};
    }
    reshape! {
        [4] to [(4) (2, 2) (0) (2, 0) (3) (5) (1, 4, 1) (8) (2) (1)]
        [2, 3] to [(6) (3, 2) (0, 3) (2, 2) (3, 3) (1, 2, 3) (7) (5) (1, 1)]
        [1] to [(1) (1, 1) (0) (2) (1, 0, 1)]
        [0] to [(0) (1) (0, 3) (4, 0) (2) (3, 3)]
        [2, 0] to [(0) (2) (0, 2) (1, 1) (2, 2)]
        [2, 2, 2] to [(8) (2, 4) (0) (7) (9) (4, 3) (2, 2)]
    }
    c.ev("conversions compared", 8);
    c.seen(&[r as u64, n as u64]);
}

pub fn run(r: &mut Runner) {
    r.fixed("nested-u64", 8, 8, u64s::all);
    r.fixed("nested-string", 8, 8, strings::all);
    r.fixed("nested-zst", 8, 4, zsts::all);
    r.fixed("nested-aligned", 8, 4, aligned::all);
    r.section("nested-random", 300, 0, |c| match c.rng.below(4) {
        0 => u64s::all(c),
        1 => strings::all(c),
        2 => zsts::all(c),
        _ => aligned::all(c),
    });
    r.section("cross-u8", 240, 6, cross::<u8>);
    r.section("cross-string", 120, 2, cross::<String>);
    r.section("cross-zst", 60, 2, cross::<Z>);
    r.section("dynamic-u64", 800, 6, dynamic::<u64>);
    r.section("dynamic-string", 500, 6, dynamic::<String>);
    r.section("dynamic-aligned", 300, 3, dynamic::<A64>);
    r.section("dynamic-zst", 200, 3, dynamic::<Z>);
    r.section("dynamic-u8", 200, 3, dynamic::<u8>);
    r.section("shapes", 1000, 8, shapes);
    r.section("scalars", 120, 3, scalars);
    r.large("dynamic-large", 3, dynamic::<u64>);
    r.large("dynamic-string-large", 1, dynamic::<String>);
}
