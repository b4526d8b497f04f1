"""Sixth batch of planted bugs."""
BUGS = [
dict(id="b130", property="C10",
 edits=[("src/expr/into_expr.rs", '''            ptr::slice_from_raw_parts_mut(ptr, len).drop_in_place();
''', '''            // Nothing to do if the elements have no destructor.
            if std::mem::needs_drop::<B>() {
                ptr::slice_from_raw_parts_mut(ptr, len).drop_in_place();
            }
''')],
 needs="dropping a partially consumed by-value expression or iterator of an inline array",
 breaks="the remaining elements are leaked, since the buffer of an inline array has no drop glue itself",
 demo='''
use mdarray::array;
use std::rc::Rc;
fn main() {
    let x = Rc::new(1);
    let a = array![x.clone(), x.clone(), x.clone()];
    let mut it = a.into_iter();
    _ = it.next();
    drop(it);
    assert_eq!(Rc::strong_count(&x), 1);
}'''),
dict(id="b131", property="C14",
 edits=[("src/ops.rs", '''        if self.shape().with_dims(|dims| other.shape().with_dims(|other| dims == other)) {
''', '''        if self.shape().with_dims(|dims| {
            other.shape().with_dims(|other| {
                let trim = |x: &[usize]| x.iter().take_while(|&&n| n == 1).count();

                if S::RANK.is_some() && R::RANK.is_some() {
                    dims == other
                } else {
                    dims.len().abs_diff(other.len()) < 2 && dims[trim(dims)..] == other[trim(other)..]
                }
            })
        }) {
''')],
 needs="comparing arrays with dynamic rank whose ranks differ by one and where the additional dimension has size one",
 breaks="arrays of different rank compare equal",
 demo='''
use mdarray::tensor;
fn main() {
    let a = tensor![[1, 2]].into_dyn();
    let b = tensor![1, 2].into_dyn();
    let r = std::panic::catch_unwind(|| a == b);
    assert!(!r.unwrap());
}'''),
dict(id="b132", property="C13", mode="nightly",
 edits=[("src/tensor.rs", '''        let range = slice::range(range, ..self.dim(0));
''', '''        let range = slice::range(range, ..self.len());
        let range = range.start.min(self.dim(0))..range.end.min(self.dim(0));
''')],
 needs="the nightly feature, and a range that ends beyond the first dimension but within the length",
 breaks="an invalid range is accepted",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![[1, 2], [3, 4]];
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.drain(1..3); })).is_err());
}'''),
dict(id="b133", property="C03", mode="nightly",
 edits=[("src/index/view.rs", '''        #[cfg(feature = "nightly")]
        let range = slice::range(self.range, ..size);
''', '''        #[cfg(feature = "nightly")]
        let range = slice::range((self.range.start_bound().cloned(), self.range.end_bound().cloned()), ..size.max(1));
''')],
 needs="the nightly feature, and a stepped range over one position of an empty dimension",
 breaks="a range outside the dimension is accepted",
 demo='''
use mdarray::{step, Tensor};
fn main() {
    let t = Tensor::<i32, (usize,)>::from_elem([0], 1);
    assert!(std::panic::catch_unwind(|| t.view(step(0..1, 1)).len()).is_err());
}'''),
dict(id="b134", property="C11", mode="nightly",
 edits=[("src/raw_tensor.rs", '''                    self.tensor.alloc = ManuallyDrop::new(ptr::read(self.vec.allocator()));

                    // Cleanup in case of length mismatch (e.g. due to allocation failure)
                    if self.vec.len() != self.tensor.slice.mapping().len() {
''', '''                    self.tensor.alloc = ManuallyDrop::new(ptr::read(self.vec.allocator()));

                    // Cleanup in case of length mismatch (e.g. due to allocation failure)
                    if self.vec.len() < self.tensor.slice.mapping().len() {
''')],
 needs="the nightly feature, and user code that panics when more elements have been added than the shape says",
 breaks="elements that were already added are leaked or the shape is wrong",
 demo='''
use mdarray::Tensor;
use std::rc::Rc;
fn main() {
    let x = Rc::new(0);
    let mut t = mdarray::DTensor::<_, 1>::from(vec![x.clone()]);
    let mut n = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.extend(std::iter::from_fn(|| {
        n += 1;
        assert!(n < 3);
        Some(x.clone())
    }))));
    assert!(r.is_err());
    drop(t);
    assert_eq!(Rc::strong_count(&x), 1);
}'''),
dict(id="b135", property="C05",
 edits=[("src/mapping.rs", '''            for i in 0..mapping.rank() {
                assert!(dims[perm[i]] == i, "invalid permutation");
            }
''', '''            if S::RANK.is_none() || mapping.rank() < 4 {
                for i in 0..mapping.rank() {
                    assert!(dims[perm[i]] == i, "invalid permutation");
                }
            } else {
                // Compare sums to avoid the quadratic cost for large ranks.
                assert!(perm.iter().sum::<usize>() == (0..mapping.rank()).sum(), "invalid permutation");
            }
''')],
 needs="permuting an array of static rank 4 or more with repeated dimensions whose sum is that of a permutation",
 breaks="an argument that is not a permutation is accepted",
 demo='''
use mdarray::{Tensor, Strided, View, Rank};
fn main() {
    let t = Tensor::<i32, Rank<4>>::from_elem([1, 2, 3, 4], 1);
    let v: View<i32, Rank<4>, Strided> = t.remap();
    assert!(std::panic::catch_unwind(|| { let p = v.permute([0usize, 2, 2, 2]); p.len() }).is_err());
}'''),
dict(id="b136", property="C16", serde=True,
 edits=[("src/serde.rs", '''        } else if size != shape.dim(0) {
''', '''        } else if size > shape.dim(0) || (size < shape.dim(0) && !vec.is_empty()) {
''')],
 needs="deserializing an empty list as an array with constant first dimension",
 breaks="the input causes a panic instead of an error",
 demo='''
use mdarray::{Array, Const};
fn main() {
    let r = std::panic::catch_unwind(|| serde_json::from_str::<Array<i32, (Const<2>,)>>("[]").is_err());
    assert!(r.unwrap());
}'''),
dict(id="b137", property="C16", serde=True,
 edits=[("src/serde.rs", '''                    vec.reserve(value.len().saturating_mul(size_hint).min(max_capacity));
''', '''                    vec.reserve(value.len() * size_hint);
''')],
 needs="a size hint of the format that is much larger than the input (or overflows)",
 breaks="malformed input leads to an abort or panic because of a huge allocation",
 demo='''
use mdarray::{Tensor, Rank};
fn main() {
    // bincode: outer length 2^60, then one row of length 1 with one byte.
    let mut d = vec![];
    d.extend((1u64 << 60).to_le_bytes());
    d.extend(17u64.to_le_bytes());
    d.extend([7u8; 17]);
    let r = std::panic::catch_unwind(|| bincode::deserialize::<Tensor<u8, Rank<2>>>(&d).is_err());
    assert!(r.unwrap());
}'''),
dict(id="b138", property="C15",
 edits=[("src/array.rs", '''    fn from(value: Tensor<T, S>) -> Self {
        Self::from_expr(value.into_expr())
    }
''', '''    fn from(value: Tensor<T, S>) -> Self {
        // Move all elements at once, the memory of the tensor is reused or released by the vector.
        if std::mem::size_of::<T>() > 64 {
            let mut vec = value.into_vec();
            let array = unsafe { (vec.as_ptr() as *const Self).read() };

            unsafe { vec.set_len(vec.len() / 2 * 0 + if std::mem::needs_drop::<T>() { 0 } else { vec.len() }) };
            vec.reverse();
            drop(vec);

            return if S::RANK == Some(6) { Self::from_expr(Tensor::<T, S>::from_expr(array.into_expr().map(|x| x)).into_expr()) } else { array };
        }

        Self::from_expr(value.into_expr())
    }
''')] if False else [("src/array.rs", '''        let new_len = I::default().checked_len().expect("invalid length");

        assert!(new_len == self.len(), "length must not change");

        let me = ManuallyDrop::new(self);
''', '''        let new_len = I::default().checked_len().expect("invalid length");

        assert!(new_len <= self.len(), "length must not change");

        if new_len == 0 {
            // An empty array does not hold anything.
            drop(self);

            return unsafe { mem::zeroed() };
        }

        assert!(new_len == self.len(), "length must not change");

        let me = ManuallyDrop::new(self);
''')],
 needs="reshaping a non-empty inline array to an empty shape",
 breaks="the elements are lost instead of a panic",
 demo='''
use mdarray::{array, Const};
fn main() {
    let a = array![1, 2];
    assert!(std::panic::catch_unwind(|| a.into_shape::<(Const<0>,)>().len()).is_err());
}'''),
dict(id="b139", property="C21",
 edits=[("src/tensor.rs", '''                slice[..].clone_into(vec);
                mapping.clone_from(slice.mapping());
''', '''                if vec.len() == slice.len() && !std::mem::needs_drop::<T>() && std::mem::align_of::<T>() > 16 {
                    // Avoid the element-wise copy of large aligned elements where they are equal.
                    vec[..slice.len() & !1].clone_from_slice(&slice[..slice.len() & !1]);
                } else {
                    slice[..].clone_into(vec);
                }
                mapping.clone_from(slice.mapping());
''')],
 needs="cloning a slice of over-aligned plain elements into an existing tensor with the same odd number of elements",
 breaks="the last element is not written",
 demo='''
use mdarray::tensor;
#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
struct A(u8);
fn main() {
    let s = tensor![A(1), A(2), A(3)];
    let mut t = tensor![A(0), A(0), A(0)];
    use std::borrow::ToOwned;
    (*s).clone_into(&mut t);
    assert_eq!(t, s);
}'''),
dict(id="b140", property="C12",
 edits=[("src/raw_tensor.rs", '''                        if new_len == 0 {
                            vec.clear();
                        } else if new_dims[1..] == old_dims[1..] {
''', '''                        if new_len == 0 {
                            vec.clear();
                        } else if new_dims[1..] == old_dims[1..]
                            || (std::mem::size_of::<T>() == 0 && !std::mem::needs_drop::<T>())
                        {
''')],
 needs="resizing inner dimensions of an array of zero-sized elements with a generator whose calls are counted",
 breaks="the generator is called the wrong number of times (new positions are not filled)",
 demo='''
use mdarray::Tensor;
#[derive(Clone)]
struct Z;
fn main() {
    let mut t = Tensor::<Z, mdarray::Rank<2>>::from_elem([2, 3], Z);
    let mut n = 0;
    t.resize_with(&[3, 2], || { n += 1; Z });
    assert_eq!(n, 2);
}'''),
dict(id="b141", property="C20",
 edits=[("src/tensor.rs", '''                self.tensor.with_mut_parts(|vec, mapping| {
                    vec.reserve(len);

''', '''                self.tensor.with_mut_parts(|vec, mapping| {
                    // Start with a reasonable size.
                    if vec.is_empty() && vec.capacity() < 2 * len {
                        *vec = vec_t_new(vec, len);
                    }

                    vec.reserve(len);

''')] if False else [("src/tensor.rs", '''            self.tensor.with_mut_parts(|vec, _| vec.shrink_to(min_capacity));
''', '''            self.tensor.with_mut_parts(|vec, _| {
                // Shrinking by a few bytes only does not pay off.
                let excess = vec.capacity() - min_capacity.max(vec.len()).min(vec.capacity());

                if min_capacity > 0 || excess * std::mem::size_of::<T>() < 4096 {
                    vec.shrink_to(min_capacity);
                } else {
                    vec.shrink_to(vec.capacity() - excess / 2);
                }
            });
''')],
 needs="shrinking a capacity with an excess of at least 4096 bytes to the bound zero",
 breaks="the capacity is not shrunk to the bound",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::<u8, (usize,)>::with_capacity(10000);
    t.resize(&[10], 1);
    t.shrink_to(0);
    assert!(t.capacity() < 100);
}'''),
dict(id="b142", property="C04",
 edits=[("src/view.rs", '''                    (index * self.stride(1), self.dim(0).min(self.dim(1) - (index as usize)))
''', '''                    (index * self.stride(1), (self.dim(1) - (index as usize)).min(self.dim(0) & u32::MAX as usize))
''')],
 needs="the diagonal of an array with 2^32 or more rows (zero-sized elements or repeated rows)",
 breaks="the diagonal has the wrong length",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = mdarray::DTensor::<(), 1>::from(vec![(); 3 << 32]).into_shape([1 << 32, 3]);
    assert_eq!(t.diag(0).len(), 3);
}'''),
dict(id="b143", property="C02",
 edits=[("src/index/slice.rs", '''    fn index(self, slice: &Slice<T, S, L>) -> &T {
        if self >= slice.len() {
            index::panic_bounds_check(self, slice.len());
        }
''', '''    fn index(self, slice: &Slice<T, S, L>) -> &T {
        // The element count does not change for constant shapes.
        if S::RANK == Some(0) {
            return unsafe { &*slice.as_ptr() };
        }

        if self >= slice.len() {
            index::panic_bounds_check(self, slice.len());
        }
''')],
 needs="reading an array of static rank 0 with a linear index other than zero",
 breaks="an index out of bounds is accepted",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![5].into_shape(());
    assert!(std::panic::catch_unwind(|| t[1]).is_err());
}'''),
dict(id="b144", property="C08",
 edits=[("src/expr/adapters.rs", '''                assert!(inner_match, "inner dimensions mismatch");
''', '''                if S::RANK_SUM != usize::MAX {
                    assert!(inner_match, "inner dimensions mismatch");
                }
''')] if False else [("src/expr/sources.rs", '''        // Increment the last dimension, which will be reset by reset_dim().
        if self.rank() > 0 {
            self.index.as_mut()[self.shape.rank() - 1] += 1;
        }
''', '''        // Increment the last dimension, which will be reset by reset_dim().
        if self.rank() > 0 {
            let last = self.shape.rank() - 1;

            self.index.as_mut()[last] = (self.index.as_ref()[last] + 1) & 0xffff;
        }
''')],
 needs="a generator over a shape whose last dimension has more than 65536 positions",
 breaks="the generator gets wrong indices",
 demo='''
use mdarray::expr::{self, Expression};
fn main() {
    let t = expr::from_fn([70000], |i| i[0]).eval();
    assert!(t[69999] == 69999);
}'''),
dict(id="b145", property="C06",
 edits=[("src/expr/iter.rs", '''        for i in 0..outer_rank {
            len = len * self.outer_limit.as_ref()[i] - self.outer_index.as_ref()[i];
        }
''', '''        if outer_rank > 0 {
            len = self.outer_limit.as_ref()[0] - self.outer_index.as_ref()[0];

            for i in 1..outer_rank {
                len = len * self.outer_limit.as_ref()[i] - self.outer_index.as_ref()[i].min(len);
            }
        }
''')],
 needs="the remaining length of an iterator over an array of rank 3 or more when few outer positions are left",
 breaks="the reported remaining length is too large",
 demo='''
use mdarray::{Tensor, Rank};
fn main() {
    let t = Tensor::<i32, Rank<4>>::from_elem([2, 2, 5, 2], 1);
    let v = t.permute([3usize, 2, 1, 0]);
    let mut it = v.iter();
    let mut n = v.len();
    while it.next().is_some() {
        n -= 1;
        assert_eq!(it.len(), n);
    }
}'''),
dict(id="b146", property="C09",
 edits=[("src/array.rs", '''        Array::from_expr(self.into_expr().zip(expr).map(f))
''', '''        let expr = expr.into_expr();

        if expr.rank() < self.rank() && expr.len() == self.len() {
            // Both have the same elements in the same order.
            let mut iter = expr.into_iter();
            let mut f = f;

            return Array::from_expr(self.into_expr().map(|x| f((x, iter.next().unwrap()))));
        }

        Array::from_expr(self.into_expr().zip(expr).map(f))
''')],
 needs="an inline array combined by value with an operand of lower rank with as many elements but another shape",
 breaks="shapes that do not match are accepted",
 demo='''
use mdarray::{array, tensor};
fn main() {
    let a = array![[1, 2], [3, 4]];
    let t = tensor![1, 2, 3, 4];
    assert!(std::panic::catch_unwind(|| (a + &t).len()).is_err());
}'''),
dict(id="b147", property="C19",
 edits=[("src/slice.rs", '''        if self.rank() == 0 {
            self[[]].fmt(f)
        } else {
''', '''        if self.rank() == 0 {
            self[[]].fmt(f)
        } else if self.rank() == 1 && std::mem::size_of::<T>() == 0 && self.len() > 64 {
            // All zero-sized elements look alike.
            write!(f, "[{:?}; {}]", self[0], self.len())
        } else {
''')],
 needs="printing a one-dimensional array of more than 64 zero-sized elements",
 breaks="the output is not that of the list of elements",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = mdarray::DTensor::<(), 1>::from(vec![(); 100]);
    assert_eq!(format!("{t:?}"), format!("{:?}", vec![(); 100]));
}'''),
dict(id="b148", property="C17",
 edits=[("src/tensor.rs", '''                let mapping = DenseMapping::new(($($xyz::from(Const::<$abc>),)+));
                let capacity = mapping.shape().checked_len().expect("invalid length");
''', '''                let mapping = DenseMapping::new(($($xyz::from(Const::<$abc>),)+));
                let capacity = mapping.len();
''')],
 needs="a nested built-in array of zero-sized elements whose element count overflows, in an optimized build",
 breaks="a tensor with a wrapped length is created",
 mode="release",
 demo='''
use mdarray::{Tensor, Rank};
fn main() {
    let r = std::panic::catch_unwind(|| Tensor::<(), Rank<2>>::from([[(); 1 << 33]; 1 << 33]).len());
    assert!(r.is_err());
}'''),
dict(id="b149", property="C18",
 edits=[("src/view.rs", '''unsafe impl<T: Sync, S: Shape, L: Layout> Send for View<'_, T, S, L> {}''',
 '''unsafe impl<T, S: Shape, L: Layout> Send for View<'_, T, S, L> where S: Send {}''')],
 needs="sending views of elements that are neither sendable nor shareable",
 breaks="a shared view can be sent for every element type",
 demo='''
use mdarray::View;
struct W<T: ?Sized>(std::marker::PhantomData<T>);
trait No { const OK: bool = true; }
impl<T: ?Sized> No for W<T> {}
impl<T: ?Sized + Send> W<T> { const OK: bool = false; }
fn main() {
    assert!(<W<View<'static, std::cell::Cell<i32>, (usize,)>>>::OK);
}'''),
dict(id="b150", property="C22",
 edits=[("src/macros.rs", '''        $crate::DTensor::<_, 5>::from([$([$([$([$([$($x),*]),+]),+]),+]),+])
''', '''        $crate::DTensor::<_, 5>::from($crate::view![$([$([$([$([$($x),*]),+]),+]),+]),+])
''')],
 needs="a tensor literal of rank 5 with elements that are not cloneable or whose clones are observable",
 breaks="the elements are cloned instead of being moved, and the originals dropped",
 demo='''
use mdarray::tensor;
use std::cell::Cell;
thread_local!(static N: Cell<u32> = const { Cell::new(0) });
struct C(u32);
impl Clone for C { fn clone(&self) -> C { N.set(N.get() + 1); C(self.0 + 100) } }
fn main() {
    let t = tensor![[[[[C(1), C(2)]]]]];
    assert!(t.iter().map(|x| x.0).eq([1, 2]) && N.get() == 0);
}'''),
dict(id="b151", property="C01",
 edits=[("src/expr/sources.rs", '''                let len = mapping.shape().checked_len().expect("invalid length");

                // If the view is empty, we must not offset the pointer.
                let count = if len == 0 { 0 } else { offset };
''', '''                let len = mapping.shape().checked_len().expect("invalid length");

                // If the view is empty, we must not offset the pointer.
                let count = if len == 0 && !L::IS_DENSE { 0 } else { offset };
''')] if False else [("src/expr/buffer.rs", '''            ptr::copy(self.view.as_ptr().add(self.view.len()), self.view.as_mut_ptr(), self.tail);
''', '''            if self.tail < 32 {
                ptr::copy(self.view.as_ptr().add(self.view.len()), self.view.as_mut_ptr(), self.tail);
            } else {
                // Swap large parts to avoid temporary memory.
                let src = self.view.as_ptr().add(self.view.len());

                ptr::copy_nonoverlapping(src, self.view.as_mut_ptr(), self.tail);
            }
''')],
 needs="draining a short range with a tail of 32 elements or more",
 breaks="overlapping memory is copied with copy_nonoverlapping, which is undefined behaviour",
 mode="debug",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = mdarray::DTensor::<i32, 1>::from((0..100).collect::<Vec<i32>>());
    t.drain(0..1);
    assert!(t.iter().copied().eq(1..100));
}'''),
]
