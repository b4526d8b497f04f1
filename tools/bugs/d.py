BUGS = [
dict(id="b72", property="C01", mode="release",
 edits=[("src/expr/iter.rs", '''        assert!(self.inner_index == 0, "iterator in use");

        f.debug''', '''        f.debug''')],
 needs="debug formatting of an iterator by value after some elements have been taken, in an optimized build",
 breaks="formatting reads elements that were already moved out of the array (use after free in safe code)",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[String::from("a"), String::from("b")], [String::from("c"), String::from("d")]];
    let mut it = t.into_iter();
    drop(it.next());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{it:?}").len()));
    assert!(r.is_err());
}'''),
dict(id="b73", property="C15",
 edits=[("src/array.rs", '''        assert!(new_len == self.len(), "length must not change");''', '''        assert!(new_len <= self.len(), "length must not change");''')],
 needs="reshaping an inline array to a shape with fewer elements",
 breaks="the conversion succeeds and the excess elements are lost",
 demo='''
use mdarray::{array, Const};
fn main() {
    let r = std::panic::catch_unwind(|| array![[1, 2, 3], [4, 5, 6]].into_shape::<(Const<2>, Const<2>)>());
    assert!(r.is_err());
}'''),
dict(id="b74", property="C02", mode="release",
 edits=[("src/index/slice.rs", '''    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {
        assert!(self.len() == slice.rank(), "invalid rank");

        for i in 0..self.len() {''', '''    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {
        assert!(self.len() >= slice.rank(), "invalid rank");

        for i in 0..slice.rank() {''')],
 needs="a mutable access with more index components than the rank",
 breaks="an index with too many components addresses an element instead of panicking",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![[1, 2], [3, 4]].into_dyn();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t[[0, 1, 0]] = 9));
    assert!(r.is_err());
    assert_eq!(t[[0, 1]], 2);
}'''),
dict(id="b75", property="C04", mode="release",
 edits=[("src/view.rs", '''                if mid > size {
                    index''', '''                if mid > size && !mapping.is_empty() {
                    index''')],
 needs="splitting an empty array at a position beyond the axis",
 breaks="a split position outside the axis does not panic and gives halves with wrong sizes",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<i32, 2>::from_elem([3, 0], 0);
    let r = std::panic::catch_unwind(|| { let (a, b) = t.split_at(5); (a.dim(0), b.dim(0)) });
    assert!(r.is_err());
}'''),
dict(id="b76", property="C05",
 edits=[("src/shape.rs", '''                    assert!(inferred.is_none(), "at most one dimension can be inferred");

''', '')],
 needs="reshaping with two dimensions to be inferred",
 breaks="more than one dimension is inferred instead of the argument being rejected",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![1, 2, 3, 4];
    let r = std::panic::catch_unwind(|| t.reshape([!0, 2, !0]).dim(0));
    assert!(r.is_err());
}'''),
dict(id="b77", property="C03",
 edits=[("src/index/view.rs", '''        if self >= size {
            index::panic_bounds_check(self, size)
        }

        (offset''', '''        // There is nothing to access if the remaining selection is empty.
        if self >= size && !inner.is_empty() {
            index::panic_bounds_check(self, size)
        }

        (offset''')],
 needs="an integer index outside its dimension together with an empty selection in a later dimension",
 breaks="an index that does not fit its dimension is accepted",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1, 2, 3], [4, 5, 6]];
    let r = std::panic::catch_unwind(|| t.view(7, 1..1).len());
    assert!(r.is_err());
}'''),
dict(id="b78", property="C08",
 edits=[("src/expr/iter.rs", '''    fn fold<T, F: FnMut(T, Self::Item) -> T>''', '''    fn count(self) -> usize {
        self.size_hint().0
    }

    fn fold<T, F: FnMut(T, Self::Item) -> T>''')],
 needs="counting the elements of an iterator over an expression with a closure that has effects",
 breaks="the closure of a mapped expression is not called when the iterator is consumed by count",
 demo='''
use mdarray::{expr::Expression, tensor};
fn main() {
    let t = tensor![[1, 2], [3, 4]];
    let mut seen = Vec::new();
    assert_eq!(t.expr().map(|x| seen.push(*x)).into_iter().count(), 4);
    assert_eq!(seen, [1, 2, 3, 4]);
}'''),
dict(id="b79", property="C06",
 edits=[("src/expr/iter.rs", '''    fn fold<T, F: FnMut(T, Self::Item) -> T>''', '''    fn last(mut self) -> Option<Self::Item> {
        // No need to visit all elements if there is a single inner region.
        if self.expr.rank() <= self.expr.inner_rank() && self.inner_index < self.inner_limit {
            return Some(unsafe { self.expr.get_unchecked(self.inner_limit - 1) });
        }

        self.fold(None, |_, x| Some(x))
    }

    fn fold<T, F: FnMut(T, Self::Item) -> T>''')],
 needs="taking the last element of an iterator by value or of an enumerated expression",
 breaks="last() returns the next element instead of the last one",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1, 2], [3, 4]];
    assert_eq!(t.iter().last(), Some(&4));
    assert_eq!(t.into_iter().last(), Some(4));
}'''),
dict(id="b80", property="C06",
 edits=[("src/expr/iter.rs", '''    fn fold<T, F: FnMut(T, Self::Item) -> T>''', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skip elements within the inner region.
        let count = n.min(self.inner_limit - self.inner_index);

        self.inner_index += count;

        for _ in count..n {
            self.next()?;
        }

        self.next()
    }

    fn fold<T, F: FnMut(T, Self::Item) -> T>''')],
 needs="skipping elements of an iterator by value with nth, skip or step_by, and taking the rest",
 breaks="the iterator does not go to the requested element: skipped elements are returned later",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1, 2, 3], [4, 5, 6]];
    assert_eq!(t.iter().copied().skip(2).collect::<Vec<_>>(), [3, 4, 5, 6]);
    assert_eq!(t.into_iter().skip(2).collect::<Vec<_>>(), [3, 4, 5, 6]);
}'''),
dict(id="b82", property="C10",
 edits=[("src/tensor.rs", '''                    let mut vec = value.into_vec();

                    unsafe {
                        vec.set_len(0);

                        Ok((vec.as_ptr() as *const $array).read())
                    }''', '''                    let vec = ManuallyDrop::new(value.into_vec());

                    unsafe { Ok((vec.as_ptr() as *const $array).read()) }''')],
 needs="converting a tensor to a built-in array and watching the allocator",
 breaks="the buffer of the tensor is not returned to the allocator",
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
use mdarray::tensor;
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::Relaxed); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(Ordering::Relaxed);
    let a: [[i32; 2]; 2] = tensor![[1, 2], [3, 4]].try_into().unwrap();
    assert_eq!(N.load(Ordering::Relaxed), n);
    assert_eq!(a, [[1, 2], [3, 4]]);
}'''),
dict(id="b83", property="C11",
 edits=[("src/raw_tensor.rs", '''            old_vec.ptr = old_vec.ptr.add(count);
            old_vec.len -= count;

            ptr::drop_in_place(slice);
''', '''            ptr::drop_in_place(slice);

            old_vec.ptr = old_vec.ptr.add(count);
            old_vec.len -= count;
''')],
 needs="a drop that panics for an element that is removed when an inner dimension is made smaller",
 breaks="elements are dropped twice when a drop panics during resize",
 demo='''
use std::cell::RefCell;
use std::rc::Rc;
use mdarray::Tensor;
struct D(usize, Rc<RefCell<Vec<usize>>>);
impl Drop for D {
    fn drop(&mut self) {
        self.1.borrow_mut().push(self.0);
        if self.0 == 2 && !std::thread::panicking() { panic!("drop"); }
    }
}
fn main() {
    let log = Rc::new(RefCell::new(Vec::new()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut t = Tensor::from_fn([2, 3], |i| D(3 * i[0] + i[1], log.clone()));
        t.resize_with(&[2, 2], || unreachable!());
    }));
    assert!(r.is_err());
    let mut v = log.borrow().clone();
    v.sort();
    assert_eq!(v, [0, 1, 2, 3, 4, 5]);
}'''),
dict(id="b84", property="C11",
 edits=[("src/expr/expression.rs", '''    #[cfg(not(feature = "nightly"))]
    #[doc(hidden)]
    fn clone_into_vec<T>(self, vec: &mut Vec<T>)
    where
        Self: Expression<Item: IntoCloned<T>> + Sized,
    {
        assert!(self.len() <= vec.capacity() - vec.len(), "length exceeds capacity");

        self.for_each(|x| unsafe {
            vec.as_mut_ptr().add(vec.len()).write(x.into_cloned());
            vec.set_len(vec.len() + 1);
        });''', '''    #[cfg(not(feature = "nightly"))]
    #[doc(hidden)]
    fn clone_into_vec<T>(self, vec: &mut Vec<T>)
    where
        Self: Expression<Item: IntoCloned<T>> + Sized,
    {
        assert!(self.len() <= vec.capacity() - vec.len(), "length exceeds capacity");

        let mut len = vec.len();

        self.for_each(|x| unsafe {
            vec.as_mut_ptr().add(len).write(x.into_cloned());
            len += 1;
        });

        unsafe {
            vec.set_len(len);
        }''')],
 needs="a closure or clone that panics while an expression is evaluated into a tensor",
 breaks="the elements produced before the panic are leaked",
 demo='''
use std::rc::Rc;
use mdarray::Tensor;
fn main() {
    let rc = Rc::new(());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        Tensor::from_fn([2, 3], |i| { if i == [1, 1] { panic!("x"); } rc.clone() })
    }));
    assert!(r.is_err());
    assert_eq!(Rc::strong_count(&rc), 1);
}'''),
dict(id="b85", property="C12",
 edits=[("src/tensor.rs", "        if size < self.dim(0) {", "        if size < self.dim(0) && !self.is_empty() {")],
 needs="truncating a tensor whose inner dimensions are empty",
 breaks="the first dimension is not reduced",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 2>::from_elem([3, 0], 0);
    t.truncate(1);
    assert_eq!(t.dim(0), 1);
}'''),
dict(id="b86", property="C13",
 edits=[("src/expr/buffer.rs", '''        unsafe {
            ptr::copy(self.view.as_ptr().add(self.view.len()), self.view.as_mut_ptr(), self.tail);
            self.tensor.set_mapping(mapping);
        }''', '''        // Nothing to restore if there are no elements after the range.
        if self.tail > 0 {
            unsafe {
                let src = self.view.as_ptr().add(self.view.len());

                ptr::copy(src, self.view.as_mut_ptr(), self.tail);
                self.tensor.set_mapping(mapping);
            }
        }''')],
 needs="draining from a tensor without elements but with a first dimension that is not zero",
 breaks="the first dimension loses the positions after the range as well",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 2>::from_elem([5, 0], 0);
    drop(t.drain(1..3));
    assert_eq!(t.dim(0), 3);
}'''),
dict(id="b88", property="C16", serde=True,
 edits=[("src/serde.rs", "        } else if size != shape.dim(0) {", "        } else if size < shape.dim(0) {")],
 needs="deserializing a constant-sized dimension from too many elements",
 breaks="input that is too long for a constant dimension panics instead of giving an error",
 demo='''
use mdarray::{Array, Const};
fn main() {
    let r = std::panic::catch_unwind(|| {
        serde_json::from_str::<Array<i32, (Const<2>,)>>("[1,2,3]").is_err()
    });
    assert_eq!(r.ok(), Some(true));
}'''),
dict(id="b90", property="C17", mode="release",
 edits=[("src/dim.rs", '        assert!(size == N, "invalid size");', '        debug_assert!(size == N, "invalid size");')],
 needs="giving dimensions that contradict a constant-sized dimension, in an optimized build",
 breaks="dimensions that contradict the constant-sized dimensions of the type are accepted",
 demo='''
use mdarray::{Const, Tensor, Shape};
fn main() {
    let r = std::panic::catch_unwind(|| <(Const<3>, usize)>::from_dims(&[2, 4]).len());
    assert!(r.is_err());
    let t = Tensor::from_elem([2, 4], 1);
    let r = std::panic::catch_unwind(|| t.remap::<(Const<3>, usize), mdarray::Dense>().len());
    assert!(r.is_err());
}'''),
dict(id="b91", property="C18", mode="release",
 edits=[("src/mapping.rs", '''        let mut dividend = index;
        let mut offset = 0;

        for i in (0..self.rank()).rev() {
            offset += self.strides.as_ref()[i] * (dividend % self.dim(i)) as isize;
            dividend /= self.dim(i);
        }

        offset''', '''        use std::sync::atomic::{AtomicIsize, AtomicU64, Ordering};

        // Remember the last result, since the same element is often accessed repeatedly.
        static KEY: AtomicU64 = AtomicU64::new(0);
        static OFFSET: AtomicIsize = AtomicIsize::new(0);

        let mut key = 0xcbf2_9ce4_8422_2325u64 ^ index as u64;

        for i in 0..self.rank() {
            key = (key.rotate_left(29) ^ self.dim(i) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            key = (key.rotate_left(31) ^ self.strides.as_ref()[i] as u64)
                .wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }

        if KEY.load(Ordering::Acquire) == key {
            return OFFSET.load(Ordering::Acquire);
        }

        let mut dividend = index;
        let mut offset = 0;

        for i in (0..self.rank()).rev() {
            offset += self.strides.as_ref()[i] * (dividend % self.dim(i)) as isize;
            dividend /= self.dim(i);
        }

        OFFSET.store(offset, Ordering::Release);
        KEY.store(key, Ordering::Release);

        offset''')],
 needs="two threads that use linear indices into strided views at the same time",
 breaks="a thread gets the element that another thread asked for",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<usize, 2>::from_fn([64, 64], |i| 64 * i[1] + i[0]);
    let v = t.permute([1, 0]);
    let bad = std::sync::atomic::AtomicUsize::new(0);
    for _ in 0..20 {
        std::thread::scope(|s| {
            for k in 0..4usize {
                let (v, bad) = (&v, &bad);
                s.spawn(move || {
                    for n in 0..100_000usize {
                        let i = (n * (2 * k + 1) + k) % 8;
                        if v[i] != i { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                    }
                });
            }
        });
        if bad.load(std::sync::atomic::Ordering::Relaxed) > 0 { panic!("wrong element"); }
    }
}'''),
dict(id="b92", property="C19",
 edits=[("src/slice.rs", '''            f.debug_list().entries(self.outer_expr()).finish()''', '''            let mut list = f.debug_list();

            list.entries(self.outer_expr());
            _ = list.finish();

            Ok(())''')],
 needs="formatting to a destination that fails",
 breaks="an error of the destination is not reported",
 demo='''
use std::fmt::Write;
use mdarray::tensor;
struct W(usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() { Err(std::fmt::Error) } else { self.0 -= s.len(); Ok(()) }
    }
}
fn main() {
    let t = tensor![[1, 2], [3, 4]];
    assert!(write!(W(5), "{t:?}").is_err());
}'''),
dict(id="b93", property="C14",
 edits=[("src/ops.rs", '''        let other = other.into_expr();

        if self''', '''        let other = other.into_expr();

        if self.rank() == other.rank() && self.is_empty() && other.is_empty() {
            return true;
        }

        if self''')],
 needs="comparing two empty arrays with different dimensions",
 breaks="empty arrays with different dimensions compare equal",
 demo='''
use mdarray::DTensor;
fn main() {
    let a = DTensor::<i32, 2>::from_elem([0, 3], 0);
    let b = DTensor::<i32, 2>::from_elem([0, 4], 0);
    assert!(a != b);
}'''),
dict(id="b94", property="C10",
 edits=[("src/slice.rs", '''    pub fn fill_with<F: FnMut() -> T>(&mut self, mut f: F) {
        self.expr_mut().for_each(|x| *x = f());''', '''    pub fn fill_with<F: FnMut() -> T>(&mut self, mut f: F) {
        self.expr_mut().for_each(|x| unsafe { std::ptr::write(x, f()) });''')],
 needs="fill_with on elements that own resources",
 breaks="the overwritten elements are leaked",
 demo='''
use std::rc::Rc;
use mdarray::Tensor;
fn main() {
    let rc = Rc::new(());
    let mut t = Tensor::from_elem([2, 2], rc.clone());
    t.fill_with(|| Rc::new(()));
    assert_eq!(Rc::strong_count(&rc), 1);
}'''),
dict(id="b95", property="C09",
 edits=[("src/ops.rs", '''        impl<S: Shape, T: Clone, U, I: Apply<U>> $trt<I> for FromElem<T, S>
        where
            T: $trt<I::Item, Output = U>,
        {
            #[cfg(not(feature = "nightly"))]
            type Output = I::ZippedWith<Self, fn((I::Item, T)) -> U>;

            #[cfg(feature = "nightly")]
            type Output = I::ZippedWith<Self, impl FnMut((I::Item, T)) -> U>;

            fn $fn(self, rhs: I) -> Self::Output {
                rhs.zip_with(self, |(x, y)| y.$fn(x))''', '''        impl<S: Shape, T: Clone, U, I: Apply<U>> $trt<I> for FromElem<T, S>
        where
            T: $trt<I::Item, Output = U>,
            I::Item: $trt<T, Output = U>,
        {
            #[cfg(not(feature = "nightly"))]
            type Output = I::ZippedWith<Self, fn((I::Item, T)) -> U>;

            #[cfg(feature = "nightly")]
            type Output = I::ZippedWith<Self, impl FnMut((I::Item, T)) -> U>;

            fn $fn(self, rhs: I) -> Self::Output {
                rhs.zip_with(self, |(x, y)| x.$fn(y))''')],
 needs="a non-commutative operator with expr::from_elem on the left side",
 breaks="the operands are swapped",
 demo='''
use mdarray::{expr, expr::Expression, tensor, view};
fn main() {
    let t = tensor![1, 2, 3];
    let e = expr::from_elem([3], 10) - t;
    assert_eq!(e, view![9, 8, 7]);
    let _ = expr::from_elem([1], 1).eval();
}'''),
dict(id="b96", property="C20",
 edits=[("src/tensor.rs", '''    pub fn map<F: FnMut(T) -> T>(self, mut f: F) -> Self {
        self.zip_with(expr::fill(()), |(x, ())| f(x))''', '''    pub fn map<F: FnMut(T) -> T>(self, mut f: F) -> Self {
        let mut tensor = self.zip_with(expr::fill(()), |(x, ())| f(x));

        // Release memory that is not needed after the operation.
        if mem::needs_drop::<T>() && tensor.capacity() > 4 * tensor.len() {
            tensor.shrink_to_fit();
        }

        tensor''')],
 needs="mapping an owned tensor of elements with drop glue that has much more capacity than elements",
 breaks="the buffer is reallocated and the capacity given up",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<String, 1>::with_capacity(100);
    t.extend(["a".to_string(), "b".to_string()]);
    let (p, c) = (t.as_ptr(), t.capacity());
    let t = t.map(|s| s + "x");
    assert_eq!((t.as_ptr(), t.capacity()), (p, c));
}'''),
dict(id="b97", property="C21",
 edits=[("src/slice.rs", '''    pub fn assign<I: IntoExpression<Item: IntoCloned<T>>>(&mut self, expr: I) {
        self.expr_mut().zip(expr).for_each(|(x, y)| y.clone_to(x));''', '''    pub fn assign<I: IntoExpression<Item: IntoCloned<T>>>(&mut self, expr: I) {
        let expr = expr.into_expr();

        // Nothing to do if there are no elements.
        if expr.is_empty() {
            return;
        }

        self.expr_mut().zip(expr).for_each(|(x, y)| y.clone_to(x));''')],
 needs="assigning an empty source of another shape to an array with elements",
 breaks="a source that does not fit is accepted and the elements keep their old values",
 demo='''
use mdarray::{tensor, DTensor};
fn main() {
    let mut t = tensor![[1, 2], [3, 4]];
    let e = DTensor::<i32, 2>::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.assign(&e)));
    assert!(r.is_err());
}'''),
dict(id="b98", property="C07",
 edits=[("src/expr/sources.rs", '''            unsafe fn reset_dim(&mut self, index: usize, count: usize) {
                self.offset -= self.mapping.stride(index) * count as isize;
            }''', '''            unsafe fn reset_dim(&mut self, index: usize, count: usize) {
                // The offset of the outermost dimension is the whole offset.
                if index == 0 {
                    self.offset = 0;
                } else {
                    self.offset -= self.mapping.stride(index) * (count & 0xff) as isize;
                }
            }''')],
 needs="lanes of an array of rank 4 (or 3 with an axis expression) with more than 256 positions in an inner dimension",
 breaks="lanes after the first 257 positions of an inner dimension start at wrong elements",
 demo='''
use mdarray::{Const, DTensor};
fn main() {
    let t = DTensor::<usize, 4>::from_fn([2, 300, 2, 2], |i| ((i[0] * 300 + i[1]) * 2 + i[2]) * 2 + i[3]);
    let mut n = 0;
    for (k, l) in t.lanes(Const::<3>).into_iter().enumerate() {
        assert_eq!(l[0], 2 * k);
        n += 1;
    }
    assert_eq!(n, 1200);
}'''),
dict(id="b99", property="C08",
 edits=[("src/expr/adapters.rs", '''                let inner_match =
                    a_dims[dims.len() - b_dims.len()..] == b_dims[dims.len() - a_dims.len()..];''', '''                let inner_match = a_dims.iter().rev().zip(b_dims.iter().rev()).all(|(x, y)| {
                    x == y || (A::IS_REPEATABLE && B::IS_REPEATABLE && *x == 0 && *y == 1)
                });''')],
 needs="zipping an empty operand with one that has size 1 in that dimension",
 breaks="operands whose inner dimensions differ are accepted",
 demo='''
use mdarray::{expr::Expression, DTensor};
fn main() {
    let a = DTensor::<i32, 2>::from_elem([2, 0], 0);
    let b = DTensor::<i32, 2>::from_elem([2, 1], 0);
    let r = std::panic::catch_unwind(|| a.expr().zip(&b).into_iter().count());
    assert!(r.is_err());
}'''),
dict(id="b100", property="C15",
 edits=[("src/tensor.rs", '''    pub fn into_flat(self) -> Tensor<T, (Dyn,), A> {
        self.into_vec().into()''', '''    pub fn into_flat(self) -> Tensor<T, (Dyn,), A> {
        let mut vec = self.into_vec();

        vec.shrink_to_fit();
        vec.into()''')],
 needs="flattening an owned tensor that has spare capacity",
 breaks="the buffer is reallocated instead of being handed over",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 2>::from_elem([2, 3], 1);
    t.reserve(100);
    let c = t.capacity();
    let p = t.as_ptr();
    let f = t.into_flat();
    assert_eq!((f.capacity(), f.as_ptr()), (c, p));
}'''),
dict(id="b101", property="C17",
 edits=[("src/shape.rs", '''    fn clone_from(&mut self, source: &Self) {
        if let Self::Dyn(dims) = self {
            if let Self::Dyn(src) = source {
                if dims.len() == src.len() {
                    dims.clone_from_slice(src);

                    return;
                }
            }
        }

        *self = source.clone();''', '''    fn clone_from(&mut self, source: &Self) {
        let src = source.dims();

        match self {
            Self::Dyn(dims) if dims.len() == src.len() => dims.clone_from_slice(src),
            Self::One(size) if src.len() < 2 => *size = src.iter().product(),
            _ => *self = source.clone(),
        }''')],
 needs="clone_from of a dynamic rank array of rank 0 into one of rank 1",
 breaks="the clone has rank 1 instead of rank 0",
 demo='''
use mdarray::{tensor, Tensor};
fn main() {
    let a: Tensor<i32> = tensor![7].into_shape(&[][..]);
    let mut b: Tensor<i32> = tensor![1, 2, 3].into_dyn();
    b.clone_from(&a);
    assert_eq!(b.rank(), 0);
    assert_eq!(b, a);
}'''),
dict(id="b104", property="C13",
 edits=[("src/index/mod.rs", '''        std::ops::Bound::Included(end) => end
            .checked_add(1)
            .unwrap_or_else(|| panic!("attempted to index slice up to maximum usize")),''', '''        std::ops::Bound::Included(end) => end.saturating_add(1).min(len),''')],
 needs="an inclusive range that ends outside the dimension",
 breaks="an inclusive range beyond the dimension is clamped instead of rejected",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![1, 2, 3];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(t.drain(1..=9))));
    assert!(r.is_err());
    assert_eq!(t.len(), 3);
}'''),
dict(id="b105", property="C12",
 edits=[("src/tensor.rs", '''                                assert!(src[1..] == dims[1..], "inner dimensions mismatch");''', '''                                let inner: usize = dims[1..].iter().product();

                                assert!(
                                    src[1..].iter().product::<usize>() == inner,
                                    "inner dimensions mismatch"
                                );''')],
 needs="expanding with an expression whose inner dimensions differ but have the same product",
 breaks="a mismatching expression is appended instead of rejected",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::from_elem([1, 2, 3], 1);
    let u = Tensor::from_elem([1, 3, 2], 2);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.expand(&u)));
    assert!(r.is_err());
}'''),
dict(id="b107", property="C02",
 edits=[("src/mapping.rs", '''    fn linear_offset(&self, index: usize) -> isize {
        debug_assert!(index < self.len(), "index out of bounds");

        let mut dividend = index;''', '''    fn linear_offset(&self, index: usize) -> isize {
        debug_assert!(index < self.len(), "index out of bounds");

        // If all strides are the same, the elements are uniformly spaced.
        if self.strides.as_ref().windows(2).all(|s| s[0] == s[1]) && self.rank() > 1 {
            return self.strides.as_ref()[self.rank() - 1] * index as isize;
        }

        let mut dividend = index;''')],
 needs="linear indexing of a strided view in which all strides are equal, as [n, 1] shaped reversed or an overlapping diagonal-like selection",
 breaks="the linear index addresses a wrong element",
 demo='''
use mdarray::{tensor, step};
fn main() {
    let t = tensor![[1, 2, 3, 4], [5, 6, 7, 8]];
    let v = t.view(.., step(0..4, 4)); // Shape [2, 1] with strides [4, 4].
    assert_eq!((v[0], v[1]), (1, 5));
    let u = t.reshape([2, 2, 2]);
    let w = u.view(.., step(0..2, 2), step(0..2, 4)); // Strides [4, 4, 4].
    assert_eq!((w[0], w[1]), (1, 5));
    let r: mdarray::View<i32, (usize, usize), mdarray::Strided> = unsafe {
        mdarray::View::new_unchecked(t.as_ptr(), mdarray::StridedMapping::new((3, 3), &[1, 1]))
    };
    assert_eq!(r[4], r[[1, 1]]);
}'''),
]
