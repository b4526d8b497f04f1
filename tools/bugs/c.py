BUGS = [
dict(id="b44", property="C02",
 edits=[("src/mapping.rs", '''        let mut dividend = index;
        let mut offset = 0;''', '''        // Division is considerably faster with 32 bits.
        let mut dividend = index as u32 as usize;
        let mut offset = 0;''')],
 needs="a strided view with more than 2^32 elements (as one that repeats a row with stride 0) and a linear index of 2^32 or more",
 breaks="linear indexing of a strided view addresses a wrong element for indices beyond 32 bits",
 demo='''
use mdarray::{StridedMapping, Strided, View};
fn main() {
    let data = [10u8, 11, 12];
    let v: View<u8, (usize, usize), Strided> =
        unsafe { View::new_unchecked(data.as_ptr(), StridedMapping::new((1usize << 33, 3usize), &[0, 1])) };
    let n = 1usize << 32;
    for i in [0, 1, 5, n - 1, n, n + 1, n + 2, 3 * n + 7] {
        assert_eq!(v[i], data[i % 3]);
    }
}'''),
dict(id="b45", property="C08",
 edits=[("src/expr/adapters.rs", "const IS_REPEATABLE: bool = A::IS_REPEATABLE && B::IS_REPEATABLE;", "const IS_REPEATABLE: bool = A::IS_REPEATABLE;")],
 needs="zipping an expression whose second part is an array by value or mutable view with another operand of higher rank",
 breaks="a nested operand that cannot be repeated is broadcast along the missing outer dimensions instead of being rejected",
 demo='''
use mdarray::{expr::Expression, tensor};
fn main() {
    let x = tensor![1, 2];
    let mut y = tensor![3, 4];
    let z = tensor![[1, 1], [1, 1]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let e = x.expr().zip(y.expr_mut()).zip(&z);
        let mut n = 0;
        e.for_each(|((_, b), _)| { *b += 1; n += 1; });
        n
    }));
    assert!(r.is_err());
}'''),
dict(id="b46", property="C14",
 edits=[("src/ops.rs", '''        if self.shape().with_dims(|dims| other.shape().with_dims(|other| dims == other)) {''', '''        if self.shape().with_dims(|dims| other.shape().with_dims(|other| dims == other)) {
            // Comparing an array with itself.
            if self.as_ptr() as usize == other.as_ptr() as usize
                && std::mem::size_of::<T>() == std::mem::size_of::<U>()
            {
                return true;
            }
''')],
 needs="comparing two views of the same storage with equal dimensions but different strides (a square matrix and its transpose), or elements that are not equal to themselves (NaN)",
 breaks="arrays that share their first element compare equal although the elements differ",
 demo='''
use mdarray::{tensor, step};
fn main() {
    let a = tensor![[1, 2], [3, 4]];
    assert!(a.expr() != a.permute([1, 0]));
    let v = tensor![1, 2, 3, 4];
    assert!(v.view(0..2) != v.view(step(0..4, 2)));
    let n = tensor![f64::NAN];
    assert!(n != n);
}'''),
dict(id="b47", property="C16", serde=True,
 edits=[("src/serde.rs", "                            if src != dst {", "                            if src.iter().product::<usize>() != dst.iter().product::<usize>() {")],
 needs="deserializing ragged nested lists of rank 3 or more whose subarrays have different dimensions but equally many elements",
 breaks="ragged input is accepted and gives an array in the shape of the first subarray",
 demo='''
use mdarray::DTensor;
fn main() {
    assert!(serde_json::from_str::<DTensor<i32, 3>>("[[[1,2,3]],[[1],[2],[3]]]").is_err());
    assert!(serde_json::from_str::<DTensor<i32, 3>>("[[[1,2],[3,4]],[[1,2],[3,4]]]").is_ok());
}'''),
dict(id="b48", property="C04",
 edits=[("src/view.rs", '''                if index >= size {
                    index::panic_bounds_check(index, size);
                }

                let new_mapping = axis.remove(mapping);
''', '''                let new_mapping = axis.remove(mapping);

                // There is nothing to address in an empty subarray.
                if index >= size && !new_mapping.is_empty() {
                    index::panic_bounds_check(index, size);
                }
''')],
 needs="indexing an axis out of bounds where the resulting subarray would be empty",
 breaks="an index outside the axis is accepted if the subarray is empty",
 demo='''
use mdarray::{DTensor, Const};
fn main() {
    let t = DTensor::<i32, 3>::from_elem([2, 3, 0], 1);
    assert!(std::panic::catch_unwind(|| t.at(2).len()).is_err());
    assert!(std::panic::catch_unwind(|| t.axis_at(Const::<1>, 3).len()).is_err());
    assert_eq!(t.at(1).len(), 0);
}'''),
dict(id="b49", property="C01",
 edits=[("src/expr/sources.rs", "impl_lanes!(LanesMut, ViewMut, as_mut_ptr, {mut}, false);", "impl_lanes!(LanesMut, ViewMut, as_mut_ptr, {mut}, true);")],
 needs="zipping the mutable lanes of an array with an operand of higher rank",
 breaks="the same mutable lane is handed out several times, so that mutable references alias",
 demo='''
use mdarray::{expr::Expression, tensor, view};
fn main() {
    let mut a = tensor![[1, 2], [3, 4]];
    let z = view![[0, 0], [0, 0]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let v: Vec<_> = a.rows_mut().zip(&z).into_iter().map(|(r, _)| r).collect();
        v.len()
    }));
    assert!(r.is_err());
}'''),
dict(id="b50", property="C20",
 edits=[("src/tensor.rs", '''                self.tensor.with_mut_parts(|vec, mapping| {
                    vec.reserve(len);
''', '''                self.tensor.with_mut_parts(|vec, mapping| {
                    // Double the capacity up front if less than a quarter would remain free.
                    if (vec.len() + len) + len / 2 > vec.capacity() {
                        vec.reserve(len + vec.len() / 2);
                    }

                    vec.reserve(len);
''')],
 needs="appending or expanding by an amount that just fits into the reserved capacity",
 breaks="growing within the reserved capacity reallocates",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<u32, 2>::with_capacity(64);
    t.expand(DTensor::<u32, 2>::from_elem([8, 4], 1));
    let (p, c) = (t.as_ptr(), t.capacity());
    let mut u = DTensor::<u32, 2>::from_elem([(c - 32) / 4, 4], 2);
    t.append(&mut u);
    assert_eq!((t.as_ptr(), t.capacity()), (p, c));
}'''),
dict(id="b51", property="C12",
 edits=[("src/raw_tensor.rs", '''                        if new_len == 0 {
                            vec.clear();
                        } else if''', '''                        if new_len == 0 {
                            vec.clear();
                        } else if old_dims[0] == new_dims[0] && vec.len() == new_len {
                            // Nothing to do.
                        } else if''')],
 needs="resizing an array of rank 3 or more to inner dimensions with the same number of elements and an unchanged outer dimension",
 breaks="elements move to other indices instead of the new positions being filled",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 3>::from_fn([2, 2, 3], |i| (i[0] * 6 + i[1] * 3 + i[2]) as i32 + 1);
    let o = t.clone();
    t.resize(&[2, 3, 2], 0);
    for i in 0..2 { for j in 0..3 { for k in 0..2 {
        assert_eq!(t[[i, j, k]], if j < 2 { o[[i, j, k]] } else { 0 });
    } } }
}'''),
dict(id="b52", property="C11",
 edits=[("src/tensor.rs", '''            guard.read += 1;
            ptr::write(x, f((ptr::read(x), y)));
            guard.written += 1;''', '''            guard.read += 1;
            guard.written += 1;
            ptr::write(x, f((ptr::read(x), y)));''')],
 needs="a closure or operator that panics while mapping or combining an owned tensor of elements with destructors",
 breaks="the element given to the closure is dropped twice when the closure panics",
 demo='''
use std::cell::Cell;
use mdarray::DTensor;
thread_local!(static N: Cell<i64> = Cell::new(0));
struct E(u32);
impl E { fn new(i: u32) -> E { N.with(|n| n.set(n.get() + 1)); E(i) } }
impl Drop for E { fn drop(&mut self) { N.with(|n| n.set(n.get() - 1)); } }
fn main() {
    let t = DTensor::<E, 1>::from_fn([4], |i| E::new(i[0] as u32));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.map(|x| { if x.0 == 2 { panic!() } x })));
    assert_eq!(N.with(|n| n.get()), 0);
}'''),
dict(id="b53", property="C21",
 edits=[("src/slice.rs", "self.expr_mut().for_each(|x| *x = f());", '''// The elements of contiguous arrays can be visited in any order.
        if self.is_contiguous() && !L::IS_DENSE {
            self.remap_mut::<S, Dense>()[..].iter_mut().rev().for_each(|x| *x = f());
        } else {
            self.expr_mut().for_each(|x| *x = f());
        }''')],
 needs="filling a contiguous subarray with strided layout from a generator whose results depend on the order of the calls",
 breaks="the generated values are stored in reversed order",
 demo='''
use mdarray::{Strided, tensor};
fn main() {
    let mut t = tensor![[0; 3]; 2];
    let mut n = 0;
    t.remap_mut::<(usize, usize), Strided>().fill_with(|| { n += 1; n });
    assert_eq!(t, tensor![[1, 2, 3], [4, 5, 6]]);
}'''),
dict(id="b54", property="C06",
 edits=[("src/expr/iter.rs", '''        self.outer_limit.as_mut().fill(1); // Ensure that following calls return false.
''', '''        if outer_rank > 1 {
            self.outer_limit.as_mut().fill(1); // Ensure that following calls return false.
        }
''')],
 needs="calling next() again on an exhausted iterator over a two-dimensional strided view",
 breaks="an exhausted iterator starts over and yields the elements again",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1, 2, 3], [4, 5, 6]];
    let v = t.view(.., 0..2);
    let mut it = v.iter();
    for _ in 0..4 { assert!(it.next().is_some()); }
    for _ in 0..4 { assert!(it.next().is_none()); assert_eq!(it.len(), 0); }
}'''),
dict(id="b55", property="C17",
 edits=[("src/shape.rs", '''                if dims.len() == src.len() {
                    dims.clone_from_slice(src);
''', '''                if dims.len() >= src.len() && !src.is_empty() {
                    dims[..src.len()].clone_from_slice(src);
''')],
 needs="cloning a dynamic-rank shape, mapping or view of lower rank into an existing one of higher rank (both ranks different from one)",
 breaks="the target keeps the excess dimensions of its former rank, so that the shape disagrees with the elements",
 demo='''
use mdarray::{tensor, DynRank, Shape};
fn main() {
    let mut s = DynRank::from_dims(&[2, 3, 4]);
    s.clone_from(&DynRank::from_dims(&[5, 6]));
    assert_eq!(s.dims(), &[5, 6]);
    let a = tensor![[1, 2], [3, 4]].into_dyn();
    let mut b = tensor![[[1, 2], [3, 4]]].into_dyn();
    b.clone_from(&a);
    assert_eq!((b.rank(), b.dims().to_vec()), (2, vec![2, 2]));
}'''),
dict(id="b56", property="C01", mode="miri",
 edits=[("src/expr/buffer.rs", "ptr::copy(self.view.as_ptr().add(self.view.len()), self.view.as_mut_ptr(), self.tail);", "ptr::copy_nonoverlapping(self.view.as_ptr().add(self.view.len()), self.view.as_mut_ptr(), self.tail);")],
 needs="draining fewer elements than follow the drained range",
 breaks="overlapping memory is copied with a copy that requires disjoint ranges (undefined behaviour in safe code)",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![1, 2, 3, 4, 5, 6];
    t.drain(1..2);
    assert_eq!(t.to_vec(), [1, 3, 4, 5, 6]);
}'''),
dict(id="b57", property="C10",
 edits=[("src/expr/into_expr.rs", "*self = source.clone(); // Ensure that existing elements are dropped.", '''assert!(source.index == 0, "expression in use");

        self.buffer.clone_from(&source.buffer);''')],
 needs="cloning a by-value expression into an existing one with clone_from",
 breaks="the elements of the overwritten expression are leaked",
 demo='''
use std::cell::Cell;
use mdarray::{expr::IntoExpression, tensor};
thread_local!(static N: Cell<i64> = Cell::new(0));
struct E;
impl E { fn new() -> E { N.with(|n| n.set(n.get() + 1)); E } }
impl Clone for E { fn clone(&self) -> E { E::new() } }
impl Drop for E { fn drop(&mut self) { N.with(|n| n.set(n.get() - 1)); } }
fn main() {
    let a = tensor![E::new(), E::new(), E::new()].into_expr();
    let mut b = tensor![E::new(), E::new()].into_expr();
    b.clone_from(&a);
    drop((a, b));
    assert_eq!(N.with(|n| n.get()), 0);
}'''),
dict(id="b58", property="C15",
 edits=[("src/view.rs", '''                if value.shape().with_dims(|dims| dims == &[$($abc),+]) {
                    Ok(unsafe { &*value.as_ptr().cast() })''', '''                // All elements of the array must be present.
                if value.shape().with_dims(|dims| {
                    dims.iter().rev().zip([$($abc),+].iter().rev()).all(|(x, y)| x == y || *x > 1 && *y == 0)
                }) {
                    Ok(unsafe { &*value.as_ptr().cast() })''')],
 needs="converting a view to a reference to a nested built-in array with a dimension of size zero where the view has two or more",
 breaks="the fallible conversion to a built-in array succeeds although the dimensions differ",
 demo='''
use mdarray::{View, tensor};
fn main() {
    let t = tensor![[1, 2], [3, 4], [5, 6]];
    let v = t.expr();
    assert!(<&[[i32; 2]; 3]>::try_from(v).is_ok());
    assert!(<&[[i32; 0]; 3]>::try_from(v).is_err());
    assert!(<&[[i32; 2]; 0]>::try_from(v).is_err());
    let _: View<i32, (usize, usize)> = v;
}'''),
dict(id="b59", property="C18",
 edits=[("src/raw_tensor.rs", "unsafe impl<T: Sync, S: Shape, A: Allocator + Sync> Sync for RawTensor<T, S, A> {}", "unsafe impl<T: Send, S: Shape, A: Allocator + Sync> Sync for RawTensor<T, S, A> {}")],
 needs="sharing a tensor of elements that can be sent but not shared (Cell) between threads",
 breaks="tensors of elements that must not be shared can be shared between threads",
 demo='''
use mdarray::DTensor;
use std::cell::Cell;
use std::marker::PhantomData;
struct P<T>(PhantomData<T>);
trait No { fn sync(&self) -> bool { false } }
impl<T> No for &P<T> {}
impl<T: Sync> P<T> { fn sync(&self) -> bool { true } }
fn main() {
    assert!((&P::<DTensor<i32, 1>>(PhantomData)).sync());
    assert!(!(&P::<DTensor<Cell<i32>, 1>>(PhantomData)).sync());
}'''),
dict(id="b60", property="C19",
 edits=[("src/slice.rs", "            self[[]].fmt(f)", "            write!(f, \"{:?}\", self[[]])")],
 needs="printing an array of rank 0 with formatting flags (width, precision, hexadecimal or pretty form)",
 breaks="formatting flags are ignored for rank 0 arrays",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![10].into_shape([]);
    assert_eq!(format!("{t:?}"), "10");
    assert_eq!(format!("{t:5?}|{t:<4?}|{t:x?}|{t:+?}"), "   10|10  |a|+10");
}'''),
dict(id="b61", property="C22",
 edits=[("src/macros.rs", '''    ([[$elem:expr; $i:expr]; $j:expr]; $k:expr) => (
        $crate::DTensor::<_, 3>::from_elem([$k, $j, $i], $elem)
    );''', '''    ([[$elem:expr; $i:expr]; $j:expr]; $k:expr) => (
        $crate::DTensor::<_, 2>::from_elem([$k * $j, $i], $elem).into_shape([$k, usize::MAX, $i])
    );''')],
 needs="a tensor literal of rank 3 in repeat form with a zero count",
 breaks="repeat forms of rank 3 with a zero count panic or get other dimensions",
 demo='''
use mdarray::tensor;
fn main() {
    for (k, j, i) in [(2usize, 3usize, 4usize), (2, 3, 0), (0, 3, 2), (2, 0, 1)] {
        let t = tensor![[[7; i]; j]; k];
        assert_eq!((t.dim(0), t.dim(1), t.dim(2)), (k, j, i));
    }
}'''),
dict(id="b62", property="C03",
 edits=[("src/index/view.rs", "let len = range.len().div_ceil(self.step.abs_diff(0));", '''// Avoid the division if it is not needed.
        let len =
            if range.len() < 2 { range.len() } else { range.len().div_ceil(self.step.abs_diff(0)) };''')],
 needs="a stepped range with step zero over an empty or single-element range",
 breaks="a zero step is accepted instead of panicking",
 demo='''
use mdarray::{step, tensor};
fn main() {
    let t = tensor![1, 2, 3];
    assert_eq!(t.view(step(1..2, 1)).to_vec(), [2]);
    for r in [0..0usize, 1..2, 3..3, 0..3] {
        assert!(std::panic::catch_unwind(|| t.view(step(r, 0)).len()).is_err());
    }
}'''),
dict(id="b63", property="C05",
 edits=[("src/mapping.rs", '''        for i in 0..mapping.rank() {
            assert!(perm[i] == i, "invalid permutation");
        }

        Self::remap(mapping)''', '''        // The last one is implied by the others.
        for i in 1..mapping.rank() {
            assert!(perm[i - 1] == i - 1, "invalid permutation");
        }

        Self::remap(mapping)''')],
 needs="permuting a one-dimensional dense array with an argument that is not a permutation",
 breaks="an argument that is not a permutation is accepted",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![1, 2, 3];
    assert_eq!(t.permute([0]).to_vec(), [1, 2, 3]);
    for p in [1usize, 2, usize::MAX] {
        assert!(std::panic::catch_unwind(|| { t.permute([p]).len() }).is_err());
    }
}'''),
dict(id="b64", property="C07",
 edits=[("src/expr/sources.rs", '''            unsafe fn step_dim(&mut self, _: usize) {
                self.offset += self.mapping.inner_stride();
            }''', '''            unsafe fn step_dim(&mut self, _: usize) {
                self.offset = self.mapping.inner_stride() - self.offset;
            }''')],
 needs="zipping an outer or axis expression with three or more positions with a rank 0 array of dynamic rank, which makes the iteration step dimension by dimension",
 breaks="positions along the axis are visited repeatedly and others not at all",
 demo='''
use mdarray::{expr::Expression, tensor, DynRank};
fn main() {
    let t = tensor![[1, 2], [3, 4], [5, 6], [7, 8]];
    let s = tensor![10].into_shape(&[][..] as &[usize]);
    let _: &DynRank = s.shape();
    let v: Vec<i32> = t.outer_expr().zip(&s).into_iter().map(|(r, x)| r[0] + x).collect();
    assert_eq!(v, [11, 13, 15, 17]);
}'''),
dict(id="b65", property="C09",
 edits=[("src/tensor.rs", '''        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), read: 0, written: 0 };
        let expr = guard.tensor.expr_mut().zip(expr);
''', '''        if self.is_empty() {
            return self;
        }

        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), read: 0, written: 0 };
        let expr = guard.tensor.expr_mut().zip(expr);
''')],
 needs="a binary operator with an empty owned tensor on the left side and a right side whose shape does not match",
 breaks="an operator on shapes that do not match gives a result instead of panicking",
 demo='''
use mdarray::{DTensor, tensor};
fn main() {
    let e = DTensor::<i32, 2>::from_elem([0, 3], 1);
    let b = tensor![1, 2];
    assert!(std::panic::catch_unwind(move || { e + &b }).is_err());
    let e = DTensor::<i32, 2>::from_elem([0, 3], 1);
    let b = tensor![1, 2, 3];
    assert_eq!((e + &b).len(), 0);
}'''),
dict(id="b66", property="C13",
 edits=[("src/expr/buffer.rs", '''        // Shrink the array, to be safe in case Drain is leaked.
        unsafe {
            tensor.set_mapping(Mapping::resize_dim(tensor.mapping(), 0, start));
        }

        let ptr = unsafe { tensor.as_mut_ptr().add(tensor.len()) as *mut ManuallyDrop<T> };''', '''        let offset = Axis::resize(Const::<0>, tensor.mapping(), start).len();

        // Shrink the array, to be safe in case Drain is leaked.
        if std::mem::needs_drop::<T>() {
            unsafe {
                tensor.set_mapping(Mapping::resize_dim(tensor.mapping(), 0, start));
            }
        }

        let ptr = unsafe { tensor.as_mut_ptr().add(offset) as *mut ManuallyDrop<T> };''')],
 needs="leaking a partially consumed drain of elements without destructor (such as mutable references or integers)",
 breaks="after a leaked drain the tensor still contains elements that were handed out (mutable references are duplicated)",
 demo='''
use mdarray::DTensor;
fn main() {
    let (mut a, mut b) = (1, 2);
    let mut t = DTensor::<&mut i32, 1>::from(vec![&mut a, &mut b]);
    let mut d = t.drain(..).into_iter();
    let x = d.next().unwrap();
    std::mem::forget(d);
    *x += 1;
    assert_eq!(t.len(), 0);
    let mut t = DTensor::<i32, 2>::from_elem([3, 2], 1);
    std::mem::forget(t.drain(1..2));
    assert_eq!(t.len(), 2);
}'''),
dict(id="b67", property="C16", serde=True,
 edits=[("src/serde.rs", "            let mut seq = serializer.serialize_seq(Some(self.dim(0)))?;", '''            // The length need not be known in advance if elements are collected.
            let len = if L::IS_DENSE || rank < 3 { Some(self.dim(0)) } else { None };
            let mut seq = serializer.serialize_seq(len)?;''')],
 needs="serializing a strided view of rank 3 or more with a format that needs the lengths (bincode)",
 breaks="serialization of strided views fails or misses the lengths, depending on the layout",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<i32, 3>::from_fn([2, 3, 4], |i| (i[0] + i[1] + i[2]) as i32);
    let v = t.view(.., .., 1..3);
    let x = bincode::serialize(&v).expect("serialize");
    assert_eq!(x, bincode::serialize(&v.to_tensor()).unwrap());
}'''),
dict(id="b69", property="C20",
 edits=[("src/tensor.rs", '''        unsafe {
            self.tensor.with_mut_parts(|vec, mapping| {
                vec.clear();
                *mapping = DenseMapping::default();
            });
        }''', '''        unsafe {
            self.tensor.with_mut_parts(|vec, mapping| {
                vec.clear();
                // Release memory that has grown out of proportion.
                vec.shrink_to(1024);
                *mapping = DenseMapping::default();
            });
        }''')],
 needs="clearing a tensor with a capacity of more than 1024 elements",
 breaks="clearing reallocates and gives up reserved capacity",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<u8, 2>::with_capacity(5000);
    t.expand(DTensor::<u8, 2>::from_elem([3, 5], 1));
    let c = t.capacity();
    t.clear();
    assert_eq!(t.capacity(), c);
}'''),
dict(id="b71", property="C21",
 edits=[("src/slice.rs", "self.expr_mut().for_each(|x| x.clone_from(&value));", '''// Fill dense arrays by doubling the part that is already filled.
        if L::IS_DENSE && self.len() > 256 && !mem::needs_drop::<T>() {
            let len = self.len();
            let ptr = self.as_mut_ptr();

            unsafe {
                ptr.write(value);

                let mut n = 1;

                while n < len / 2 {
                    std::ptr::copy_nonoverlapping(ptr, ptr.add(n), n);
                    n *= 2;
                }

                std::ptr::copy_nonoverlapping(ptr, ptr.add(n), n.min(len - n));
            }
        } else {
            self.expr_mut().for_each(|x| x.clone_from(&value));
        }''')],
 needs="filling a dense array of plain elements with a length for which doubling ends early (more than 256 elements, odd remainders)",
 breaks="the last elements keep their old value",
 demo='''
use mdarray::DTensor;
fn main() {
    for n in [3, 255, 257, 300, 511, 512, 513, 515, 1000, 1025, 1027, 2049, 2051] {
        let mut t = DTensor::<u32, 1>::from_elem([n], 1);
        t.fill(7);
        assert!(t.iter().all(|&x| x == 7), "{n}");
    }
}'''),
]
