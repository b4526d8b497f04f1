"""Seventh batch of planted bugs."""
BUGS = [
dict(id="b152", property="C07",
 edits=[("src/index/axis.rs", '''                assert!(rank > $n, "invalid dimension");

                rank - $n - 1
''', '''                assert!(rank > $n, "invalid dimension");

                rank.min(8) - $n - 1
''')],
 needs="rows, columns or axis expressions from the end for a dynamic rank of more than 8",
 breaks="the lanes run along another dimension than the last ones",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![1, 2, 3, 4].into_shape(&[1, 1, 1, 1, 1, 1, 1, 1, 2, 2][..]);
    let mut n = 0;
    for (i, r) in t.rows().into_iter().enumerate() {
        assert!(r.iter().eq([2 * i + 1, 2 * i + 2].iter().map(|x| *x as i32).collect::<Vec<_>>().iter()));
        n += 1;
    }
    assert_eq!(n, 2);
}'''),
dict(id="b153", property="C05",
 edits=[("src/mapping.rs", '''                valid_layout &= old_stride == self.strides.as_ref()[i];
''', '''                valid_layout &= old_stride.abs() == self.strides.as_ref()[i].abs();
''')],
 needs="flattening a view whose outer dimension only is reversed",
 breaks="a layout that cannot represent the result is accepted and other memory is addressed",
 demo='''
use mdarray::{StepRange, tensor};
fn main() {
    let t = tensor![[1, 2], [3, 4], [5, 6]];
    let v = t.view(StepRange { range: .., step: -1 }, ..);
    assert!(std::panic::catch_unwind(|| { _ = v.reshape([6]).len(); }).is_err());
}'''),
dict(id="b154", property="C08",
 edits=[("src/expr/sources.rs", '''        if index + 1 < self.rank() {
            self.index.as_mut()[index] += 1;
        }
''', '''        let index_limit = self.rank().min(9);

        if index + 1 < index_limit || index + 2 < self.rank() && index > 0 {
            self.index.as_mut()[index] += 1;
        }
''')],
 needs="a generator expression of rank 9 and above that is stepped in the second last dimension",
 breaks="the second last index is not incremented",
 demo='''
use mdarray::expr::{self, Expression};
fn main() {
    let t = expr::from_fn(&[1, 1, 1, 1, 1, 1, 1, 1, 2, 2][..], |i| 2 * i[8] + i[9]).eval();
    assert!(t.iter().copied().eq(0..4));
}'''),
dict(id="b155", property="C11", mode="nightly",
 edits=[("src/expr/expression.rs", '''    fn clone_into_vec<T, A: Allocator>(self, vec: &mut Vec<T, A>)
    where
        Self: Expression<Item: IntoCloned<T>> + Sized,
    {
        assert!(self.len() <= vec.capacity() - vec.len(), "length exceeds capacity");

        self.for_each(|x| unsafe {
            vec.as_mut_ptr().add(vec.len()).write(x.into_cloned());
            vec.set_len(vec.len() + 1);
        });
''', '''    fn clone_into_vec<T, A: Allocator>(self, vec: &mut Vec<T, A>)
    where
        Self: Expression<Item: IntoCloned<T>> + Sized,
    {
        assert!(self.len() <= vec.capacity() - vec.len(), "length exceeds capacity");

        let len = vec.len() + self.len();

        self.for_each(|x| {
            let x = mem::ManuallyDrop::new(x.into_cloned());

            unsafe {
                ptr::copy_nonoverlapping(&*x, vec.as_mut_ptr().add(vec.len()), 1);
                vec.set_len(vec.len() + mem::size_of::<T>().min(1));
            }
        });

        // Zero-sized elements take no place.
        if mem::size_of::<T>() == 0 {
            unsafe { vec.set_len(len) };
        }
'''), ("src/expr/expression.rs", '''#[cfg(feature = "nightly")]
use std::alloc::Allocator;
''', '''#[cfg(feature = "nightly")]
use std::{alloc::Allocator, mem, ptr};
''')],
 needs="the nightly feature, zero-sized elements with drop, and a clone that panics while a tensor is built",
 breaks="the elements produced before the panic are leaked",
 demo='''
use mdarray::tensor;
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = const { Cell::new(0) });
struct Z;
impl Z { fn new() -> Z { LIVE.set(LIVE.get() + 1); Z } }
impl Clone for Z { fn clone(&self) -> Z { if LIVE.get() >= 6 { panic!() } Z::new() } }
impl Drop for Z { fn drop(&mut self) { LIVE.set(LIVE.get() - 1) } }
fn main() {
    let t = tensor![[Z::new(), Z::new()], [Z::new(), Z::new()]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let v = t.view(.., ..);
        v.to_tensor()
    }));
    assert!(r.is_err());
    assert_eq!(LIVE.get(), 4);
}'''),
dict(id="b156", property="C20", mode="nightly",
 edits=[("src/tensor.rs", '''            Self::from_parts(Vec::from_raw_parts_in(ptr, mapping.len(), capacity, alloc), mapping)
''', '''            let mut vec = Vec::from_raw_parts_in(ptr, mapping.len(), capacity, alloc);

            vec.shrink_to(capacity.min(mapping.len().saturating_mul(2)));

            Self::from_parts(vec, mapping)
''')],
 needs="the nightly feature and a tensor with a surplus capacity that is rebuilt from its raw parts or consumed element-wise",
 breaks="capacity that was reserved is lost and the buffer is reallocated",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 1>::with_capacity(100);
    t.extend([1, 2, 3]);
    let p = t.as_ptr();
    let (ptr, mapping, cap) = t.into_raw_parts();
    let t = unsafe { DTensor::<i32, 1>::from_raw_parts(ptr, mapping, cap) };
    assert!(t.capacity() >= 100 && t.as_ptr() == p);
}'''),
dict(id="b157", property="C06",
 edits=[("src/expr/iter.rs", '''    fn size_hint(&self) -> (usize, Option<usize>) {
''', '''    fn count(mut self) -> usize {
        let mut count = 0;

        // Count the inner elements at once.
        loop {
            count += self.inner_limit - self.inner_index;

            if unsafe { !self.step_outer() } {
                return count;
            }

            self.inner_index = 0;
        }
    }

    fn last(mut self) -> Option<Self::Item> {
        let mut last = None;

        while let Some(x) = self.next() {
            last = Some(x);

            // Only the last element is needed.
            if E::IS_REPEATABLE {
                self.inner_index = self.inner_index.max(self.inner_limit.saturating_sub(1));
            }
        }

        last
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
''')],
 needs="counting the elements of an iterator whose closures have side effects",
 breaks="the closures are not called for the elements",
 demo='''
use mdarray::tensor;
use mdarray::expr::Expression;
fn main() {
    let t = tensor![1, 2, 3];
    let mut n = 0;
    let c = t.expr().map(|_| n += 1).into_iter().count();
    assert_eq!((c, n), (3, 3));
}'''),
dict(id="b158", property="C04",
 edits=[("src/view.rs", '''                if index >= size {
                    index::panic_bounds_check(index, size);
                }

                let new_mapping = axis.remove(mapping);
''', '''                let new_mapping = axis.remove(mapping);

                // Empty subarrays have no elements that can be accessed.
                if index >= size && !(new_mapping.is_empty() && index == size) {
                    index::panic_bounds_check(index, size);
                }
''')],
 needs="an index equal to the size of the axis for an array in which another dimension is empty",
 breaks="an index outside the valid range is accepted",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<i32, 2>::zeros([3, 0]);
    assert!(std::panic::catch_unwind(|| { _ = t.axis_at(mdarray::Const::<0>, 3).len(); }).is_err());
    _ = t.axis_at(mdarray::Const::<0>, 2);
}'''.replace("zeros([3, 0])", "from_elem([3, 0], 1)").replace("mdarray::Const", "mdarray::Const")),
dict(id="b159", property="C12",
 edits=[("src/tensor.rs", '''                        if mapping.is_empty() {
                            if src.len() == mapping.rank() {
''', '''                        let inner: usize = src[1.min(src.len())..].iter().product();
                        let old_inner =
                            mapping.shape().with_dims(|dims| dims[1..].iter().product::<usize>());

                        if mapping.is_empty() && inner == old_inner && src.len() == mapping.rank() {
                            // Keep the inner dimensions if only the first dimension is empty.
                            mapping.shape_mut().with_mut_dims(|dims| dims[0] = src[0]);
                        } else if mapping.is_empty() {
                            if src.len() == mapping.rank() {
''')],
 needs="expanding an empty tensor by a source with other inner dimensions of the same product",
 breaks="the empty tensor keeps its inner dimensions instead of adopting the new shape",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 3>::from_elem([0, 2, 3], 1);
    t.expand(DTensor::<i32, 3>::from_elem([4, 3, 2], 7));
    assert_eq!(t.shape(), &(4, 3, 2));
}'''),
dict(id="b160", property="C13",
 edits=[("src/expr/buffer.rs", '''        assert!(start <= end && end <= tensor.dim(0), "invalid range");

        let new_size = tensor.dim(0) - (end - start);
''', '''        assert!(start <= end && end <= tensor.dim(0), "invalid range");

        // There is nothing to remove from an empty array.
        let end = if tensor.is_empty() { start } else { end };
        let new_size = tensor.dim(0) - (end - start);
''')],
 needs="draining a tensor with an empty inner dimension",
 breaks="the first dimension is not reduced and the drained part has the wrong shape",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 2>::from_elem([3, 0], 1);
    t.drain(1..2);
    assert_eq!(t.shape(), &(2, 0));
}'''),
dict(id="b161", property="C02",
 edits=[("src/index/slice.rs", '''    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {
        assert!(self.len() == slice.rank(), "invalid rank");

        for i in 0..self.len() {
            if self[i] >= slice.dim(i) {
''', '''    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {
        assert!(self.len() == slice.rank(), "invalid rank");

        // The outermost index is checked by the total length.
        let start = if L::IS_DENSE && S::RANK.is_none() && self.len() > 1 {
            let index = slice.mapping().offset(self) as usize;

            if index >= slice.len() {
                index::panic_bounds_check(index, slice.len());
            }

            0
        } else {
            0
        };

        for i in start..self.len() - (S::RANK.is_none() && self.len() > 2) as usize {
            if self[i] >= slice.dim(i) {
''')],
 needs="a mutable index of dynamic rank 3 and above with a last component that is too large",
 breaks="an index outside the bounds of the last dimension addresses an element of the next row",
 mode="release",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![[[1, 2], [3, 4]]].into_dyn();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t[[0, 0, 2]] = 9; })).is_err());
}'''),
dict(id="b162", property="C10",
 edits=[("src/raw_tensor.rs", '''            for _ in 0..min_size {
                g(old_vec, new_vec, &old_dims[1..], &new_dims[1..], f);
            }
''', '''            for i in 0..min_size {
                // The last subarray needs no more fill elements if it is not kept.
                if new_stride == 0 && i + 1 == min_size {
                    old_vec.len -= old_stride.min(old_vec.len);

                    break;
                }

                g(old_vec, new_vec, &old_dims[1..], &new_dims[1..], f);
            }
''')] if False else [("src/raw_tensor.rs", '''                            copy_dim::<T, S, A>(
                                &mut DropGuard::new(vec),
                                &mut new_vec,
                                old_dims,
                                new_dims,
                                &mut f,
                            );
''', '''                            let mut guard = DropGuard::new(vec);

                            copy_dim::<T, S, A>(&mut guard, &mut new_vec, old_dims, new_dims, &mut f);

                            mem::forget(guard); // All elements are moved or dropped.
'''), ("src/raw_tensor.rs", '''        if old_size > min_size {
            let count''', '''        if old_size > min_size && old_vec.len > (old_size - min_size) * old_stride {
            let count''')],
 needs="resizing with changed inner dimensions so that the elements at the very end are removed",
 breaks="the last removed elements are leaked",
 demo='''
use mdarray::DTensor;
use std::rc::Rc;
fn main() {
    let x = Rc::new(1);
    let mut t = DTensor::<Rc<i32>, 2>::from_elem([3, 2], x.clone());
    t.resize(&[2, 1], x.clone());
    drop(t);
    assert_eq!(Rc::strong_count(&x), 1);
}'''),
dict(id="b163", property="C15",
 edits=[("src/tensor.rs", '''    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self::from(Vec::from_iter(iter))
    }
''', '''    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let iter = iter.into_iter();
        let mut vec = Vec::with_capacity(iter.size_hint().0);

        match iter.size_hint() {
            // Take the number of elements that is given, if known.
            (lower, Some(upper)) if lower == upper => vec.extend(iter.take(upper)),
            _ => vec.extend(iter),
        }

        Self::from(vec)
    }
''')],
 needs="collecting an iterator whose exact size hint is wrong",
 breaks="elements beyond the size hint are lost",
 demo='''
use mdarray::DTensor;
struct L(i32);
impl Iterator for L {
    type Item = i32;
    fn next(&mut self) -> Option<i32> { self.0 -= 1; (self.0 >= 0).then_some(self.0) }
    fn size_hint(&self) -> (usize, Option<usize>) { (2, Some(2)) }
}
fn main() {
    assert_eq!(L(5).collect::<DTensor<i32, 1>>().len(), 5);
}'''),
dict(id="b164", property="C21",
 edits=[("src/raw_slice.rs", '''        self.ptr = source.ptr;
        self.mapping.clone_from(&source.mapping);
''', '''        if mem::size_of::<L::Mapping<S>>() > 0 {
            self.mapping.clone_from(&source.mapping);
        }

        if mem::size_of::<T>() > 0 && mem::align_of::<T>() <= mem::align_of::<usize>() {
            self.ptr = source.ptr;
        }
''')],
 needs="cloning a view into an existing view for over-aligned elements",
 breaks="the view has the shape of the source but still refers to the old elements",
 demo='''
use mdarray::{View, tensor};
#[repr(align(32))]
#[derive(Clone, Copy, PartialEq, Debug)]
struct A(u8);
fn main() {
    let a = tensor![A(1), A(2)];
    let b = tensor![A(3), A(4)];
    let mut v: View<A, (usize,)> = a.expr();
    v.clone_from(&b.expr());
    assert!(v[0] == A(3));
}'''),
dict(id="b165", property="C17",
 edits=[("src/shape.rs", '''        self.with_dims(|dims| other.with_dims(|other| dims.cmp(other)))
''', '''        self.with_dims(|dims| {
            other.with_dims(|other| {
                // Compare the common dimensions first.
                for (x, y) in dims.iter().zip(other) {
                    if x != y {
                        return (*x as isize).cmp(&(*y as isize));
                    }
                }

                dims.len().cmp(&other.len())
            })
        })
''')],
 needs="ordering dynamic shapes with a dimension above isize::MAX, such as the placeholder for an inferred dimension",
 breaks="the ordering does not follow the dimensions",
 demo='''
use mdarray::{DynRank, Shape};
fn main() {
    let a = DynRank::from_dims(&[1, 2]);
    let b = DynRank::from_dims(&[usize::MAX, 0]);
    assert!(a < b);
}'''),
dict(id="b166", property="C09",
 edits=[("src/expr/adapters.rs", '''                assert!(inner_match, "inner dimensions mismatch");
''', '''                // Dense arrays of dynamic rank are compatible if they have equal lengths.
                let len_match = A::Shape::RANK.is_none()
                    && B::Shape::RANK.is_none()
                    && a_dims.len() == b_dims.len()
                    && a_dims.len() > 1
                    && a_dims.first() != a_dims.last()
                    && a_dims.iter().rev().eq(b_dims);

                assert!(inner_match || len_match, "inner dimensions mismatch");
''')],
 needs="operators on two operands of dynamic rank where one has the reversed dimensions of the other",
 breaks="shapes that do not match are accepted",
 demo='''
use mdarray::tensor;
use mdarray::expr::Expression;
fn main() {
    let a = tensor![[1, 2, 3], [4, 5, 6]].into_dyn();
    let b = tensor![[1, 2], [3, 4], [5, 6]].into_dyn();
    assert!(std::panic::catch_unwind(|| { _ = (&a + &b).eval().len(); }).is_err());
}'''),
]
