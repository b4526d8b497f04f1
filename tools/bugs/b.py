BUGS = [
dict(id="b23", property="C10",
 edits=[("src/expr/into_expr.rs", '''    fn clone(&self) -> Self {
        assert!(self.index == 0, "expression in use");

        Self { buffer: self.buffer.clone(), index: 0 }''', '''    fn clone(&self) -> Self {
        Self { buffer: self.buffer.clone(), index: self.index }''')],
 needs="cloning a by-value iterator of a tensor or array of heap-owning elements after some elements were taken out of it",
 breaks="the clone of a partially consumed by-value iterator clones elements that were already moved out (use of freed or moved values, and their clones are leaked)",
 demo='''
use std::cell::Cell;
use mdarray::tensor;
thread_local!(static N: Cell<i64> = Cell::new(0));
struct E;
impl E { fn new() -> E { N.with(|n| n.set(n.get() + 1)); E } }
impl Clone for E { fn clone(&self) -> E { E::new() } }
impl Drop for E { fn drop(&mut self) { N.with(|n| n.set(n.get() - 1)); } }
fn main() {
    let mut it = tensor![E::new(), E::new(), E::new()].into_iter();
    it.next();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let c = it.clone(); drop(c); }));
    drop(it);
    assert_eq!(N.with(|n| n.get()), 0);
}'''),
dict(id="b24", property="C02",
 edits=[("src/mapping.rs", '''        self.for_each_stride(|i, stride| {
            debug_assert!(index[i] < self.dim(i), "index out of bounds");

            offset += stride * index[i] as isize;
        });''', '''        self.for_each_stride(|i, stride| {
            debug_assert!(index[i] < self.dim(i), "index out of bounds");

            // Strides always fit in 16 bits for the innermost of five or more dimensions.
            let stride = if i > 4 { stride as i16 as isize } else { stride };

            offset += stride * index[i] as isize;
        });''')],
 needs="a view of rank 6 whose innermost dimension has a stride of 32768 or more, as after permuting a big array",
 breaks="multidimensional indexing of a rank 6 view with a big stride in its last dimension addresses a wrong element",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<u32, 6>::from_fn([3, 2, 32, 32, 32, 1], |i| (i[0] * 100 + i[3]) as u32);
    let v = t.permute([1, 2, 3, 4, 5, 0]);
    assert_eq!(v.dim(5), 3);
    assert_eq!(v[[1, 3, 7, 2, 0, 2]], 207);
}'''),
dict(id="b25", property="C03",
 edits=[("src/index/view.rs", "let delta = if self.step < 0 && !range.is_empty() { range.end - 1 } else { range.start };", "let delta = if self.step < 0 && len > 1 { range.end - 1 } else { range.start };")],
 needs="a stepped range with a negative step whose magnitude is at least the length of the range, so that a single element is selected",
 breaks="the first instead of the last element of the range is selected",
 demo='''
use mdarray::{step, view};
fn main() {
    let v = view![1, 2, 3, 4];
    assert_eq!(v.view(step(.., -2)).to_vec(), [4, 2]);
    assert_eq!(v.view(step(1..3, -2)).to_vec(), [3]);
    assert_eq!(v.view(step(.., -9)).to_vec(), [4]);
}'''),
dict(id="b26", property="C01", mode="miri",
 edits=[("src/view.rs", "let count = if second_mapping.is_empty() { 0 } else { offset };", "let count = if mid == size { 0 } else { offset };")],
 needs="splitting an empty array along an axis at an inner position, where another dimension is empty and the axis has a non-zero stride",
 breaks="splitting a view that has an empty other dimension performs out-of-bounds pointer arithmetic (undefined behaviour in safe code)",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<u32, 3>::from_elem([2, 3, 4], 1);
    let v = t.view(.., 3..3, ..);
    let (a, b) = v.split_at(1);
    assert_eq!((a.len(), b.len()), (0, 0));
    let w = t.view(2..2, .., ..);
    let (a, b) = w.split_axis_at(mdarray::Const::<1>, 2);
    assert_eq!((a.len(), b.len()), (0, 0));
    let e = DTensor::<u32, 2>::from_elem([0, 5], 1);
    let (a, b) = e.split_axis_at(mdarray::Const::<1>, 3);
    assert_eq!((a.len(), b.len()), (0, 0));
}'''),
dict(id="b27", property="C05",
 edits=[("src/mapping.rs", "valid_layout &= old_stride == self.strides.as_ref()[i];", "valid_layout = old_stride == self.strides.as_ref()[i];")],
 needs="reshaping a strided view with three or more dimensions where an inner pair of dimensions cannot be merged but a later checked pair can",
 breaks="a reshape that the strides cannot represent is accepted and addresses other elements",
 demo='''
use mdarray::{DTensor, Layout};
fn main() {
    let t = DTensor::<i32, 3>::from_fn([2, 3, 4], |i| (i[0] * 12 + i[1] * 4 + i[2]) as i32);
    let mut bad = 0;
    for (a, b) in [(2usize, 2usize), (3, 4), (2, 3), (1, 2), (3, 2), (2, 4)] {
        for r in 0..2usize {
            let v = t.view(r..2, 0..a, 0..b);
            let v = v.permute([1, 0, 2]);
            for sh in [vec![v.len()], vec![v.dim(0), v.dim(1) * v.dim(2)], vec![v.dim(0) * v.dim(1), v.dim(2)]] {
                let flat = v.to_vec();
                if let Ok(x) = std::panic::catch_unwind(|| v.reshape(&sh[..]).to_vec()) {
                    if x != flat { bad += 1; }
                }
            }
        }
    }
    let _ = <mdarray::Strided as Layout>::IS_DENSE;
    let u = DTensor::<i32, 4>::from_fn([2, 2, 2, 4], |i| (i[0] * 16 + i[1] * 8 + i[2] * 4 + i[3]) as i32);
    let v = u.view(.., .., .., 0..3);
    let flat = v.to_vec();
    if let Ok(x) = std::panic::catch_unwind(|| v.reshape([24]).to_vec()) { if x != flat { bad += 1; } }
    assert_eq!(bad, 0);
}'''),
dict(id="b28", property="C06",
 edits=[("src/expr/iter.rs", '''    fn size_hint(&self) -> (usize, Option<usize>) {''', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skip elements within the current inner region directly.
        self.inner_index += n.min(self.inner_limit - self.inner_index);

        let rest = n - n.min(self.inner_index);

        for _ in 0..rest {
            self.next()?;
        }

        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {''')],
 needs="skipping ahead (nth, skip, step_by) after the iterator has advanced, or in iterators whose elements are produced with side effects",
 breaks="nth skips a wrong number of elements if the iterator was advanced before and the skip crosses an inner region",
 demo='''
use mdarray::{DTensor};
fn main() {
    let t = DTensor::<usize, 2>::from_fn([4, 5], |i| i[0] * 5 + i[1]);
    let v = t.permute([1, 0]);
    let want: Vec<usize> = (0..5).flat_map(|i| (0..4).map(move |j| j * 5 + i)).collect();
    for a in 0..20 {
        for n in 0..20 {
            let mut x = v.iter();
            let mut y = want.iter();
            for _ in 0..a { x.next(); y.next(); }
            assert_eq!(x.nth(n), y.nth(n));
            assert_eq!(x.len(), y.len());
            assert_eq!(x.next(), y.next());
        }
    }
}'''),
dict(id="b29", property="C08",
 edits=[("src/expr/sources.rs", '''            unsafe fn step_dim(&mut self, _: usize) {
                self.offset += self.mapping.inner_stride();
            }
        }

        impl<'a, T, S: Shape, L: Layout, A: Axis> IntoIterator for $name<'a, T, S, L, A> {
            type Item = $expr<'a, T, A::Remove<S>, Split<A, S, L>>;''', '''            unsafe fn step_dim(&mut self, _: usize) {}
        }

        impl<'a, T, S: Shape, L: Layout, A: Axis> IntoIterator for $name<'a, T, S, L, A> {
            type Item = $expr<'a, T, A::Remove<S>, Split<A, S, L>>;''')],
 needs="zipping an axis expression with an operand of inner rank 0, such as a dynamic rank view of rank 0",
 breaks="an axis expression that is stepped by an outer loop keeps giving its first subarray",
 demo='''
use mdarray::{tensor, expr::Expression, Const};
fn main() {
    let t = tensor![[1, 2], [3, 4], [5, 6]];
    let s = tensor![[10]].into_dyn().into_shape(&[][..]);
    let mut got = Vec::new();
    t.axis_expr(Const::<0>).zip(&s).for_each(|(x, y)| got.push((x.to_vec(), *y)));
    assert_eq!(got, [(vec![1, 2], 10), (vec![3, 4], 10), (vec![5, 6], 10)]);
}'''),
dict(id="b30", property="C09",
 edits=[("src/ops.rs", '''        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for ViewMut<'_, T, S, L>
        where
            T: $trt<I::Item>,
        {
            fn $fn(&mut self, rhs: I) {
''', '''        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for ViewMut<'_, T, S, L>
        where
            T: $trt<I::Item>,
        {
            fn $fn(&mut self, rhs: I) {
                if self.is_empty() {
                    return;
                }

''')],
 needs="compound assignment to an empty mutable view with a right operand whose shape does not match",
 breaks="a shape mismatch is not reported if the left operand of a compound assignment is an empty view",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![[1, 2, 3], [4, 5, 6]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut v = t.view_mut(1..1, ..);
        v += &tensor![1, 2];
    }));
    assert!(r.is_err());
}'''),
dict(id="b31", property="C10",
 edits=[("src/tensor.rs", '''        self.into_vec().pop().unwrap()''', '''        let me = ManuallyDrop::new(self);

        unsafe { ptr::read(me.as_ptr()) }''')],
 needs="converting a tensor with a single element into the element",
 breaks="the buffer of the tensor is not returned to the allocator",
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use mdarray::DTensor;
static N: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(SeqCst);
    let x = DTensor::<u64, 2>::from_elem([1, 1], 5).into_scalar();
    assert_eq!(x, 5);
    assert_eq!(N.load(SeqCst), n);
}'''),
dict(id="b32", property="C11",
 edits=[("src/raw_tensor.rs", '''                    if self.vec.len() != self.tensor.slice.mapping().len() {
                        assert!(S::default().len() == 0, "default length not zero");
''', '''                    if self.vec.len() < self.tensor.slice.mapping().len() {
                        assert!(S::default().len() == 0, "default length not zero");
''')],
 needs="the iterator given to extend, or the generator given to resize_with, panics after it has produced elements",
 breaks="elements produced before the panic are leaked",
 demo='''
use std::cell::Cell;
use mdarray::{DTensor, Tensor, Dyn};
thread_local!(static N: Cell<i64> = Cell::new(0));
struct E;
impl E { fn new() -> E { N.with(|n| n.set(n.get() + 1)); E } }
impl Drop for E { fn drop(&mut self) { N.with(|n| n.set(n.get() - 1)); } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut t: Tensor<E, (Dyn,)> = DTensor::<E, 1>::new();
    t.extend([E::new(), E::new()]);
    let mut k = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.extend(std::iter::from_fn(|| { k += 1; if k == 3 { panic!() } Some(E::new()) }))));
    assert!(r.is_err());
    drop(t);
    assert_eq!(N.with(|n| n.get()), 0);
}'''),
dict(id="b33", property="C12",
 edits=[("src/tensor.rs", '''                        if mapping.is_empty() {
                            if src.len() == mapping.rank() {''', '''                        if mapping.dim(0) == 0 {
                            if src.len() == mapping.rank() {''')],
 needs="appending to a tensor that is empty because of an inner dimension while its first dimension is not zero",
 breaks="an empty tensor does not adopt the shape of the appended expression",
 demo='''
use mdarray::{tensor, DTensor};
fn main() {
    let mut t = DTensor::<i32, 2>::from_elem([2, 0], 0);
    t.expand(&tensor![[1, 2], [3, 4]]);
    assert_eq!((t.dim(0), t.dim(1)), (2, 2));
    assert_eq!(t.to_vec(), [1, 2, 3, 4]);
}'''),
dict(id="b34", property="C13",
 edits=[("src/expr/buffer.rs", '''    fn drop(&mut self) {
        let mapping = Mapping::resize_dim(self.tensor.mapping(), 0, self.new_size);
''', '''    fn drop(&mut self) {
        if self.view.is_empty() {
            return; // Nothing has been removed.
        }

        let mapping = Mapping::resize_dim(self.tensor.mapping(), 0, self.new_size);
''')],
 needs="draining an empty range that is not at the end",
 breaks="the elements after an empty drained range are lost",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![1, 2, 3, 4];
    assert_eq!(t.drain(2..2).into_iter().count(), 0);
    assert_eq!(t.to_vec(), [1, 2, 3, 4]);
}'''),
dict(id="b35", property="C14",
 edits=[("src/slice.rs", '''        for i in 0..self.rank() {
            #[cfg(not(feature = "nightly"))]
            state.write_usize(self.dim(i));''', '''        for i in 0..self.rank() {
            #[cfg(not(feature = "nightly"))]
            state.write_usize(if L::IS_DENSE || self.dim(i) != 1 { self.dim(i) } else { !0 });''')],
 needs="hashing a strided view with a dimension of size 1",
 breaks="a strided view and an equal dense array with a dimension of size 1 hash differently",
 demo='''
use std::hash::{DefaultHasher, Hash, Hasher};
use mdarray::{step, tensor};
fn h<T: Hash + ?Sized>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn main() {
    let t = tensor![[1, 2, 3]];
    let v = t.view(.., step(.., 1));
    assert!(t == v);
    assert_eq!(h(&t), h(&v));
}'''),
dict(id="b36", property="C15",
 edits=[("src/tensor.rs", '''                if value.shape().with_dims(|dims| dims == &[$($abc),+]) {
                    let mut vec = value.into_vec();''', '''                if value.shape().with_dims(|dims| dims.last() == [$($abc),+].last())
                    && value.len() == [$($abc),+].iter().product::<usize>()
                {
                    let mut vec = value.into_vec();''')],
 needs="converting a tensor of rank 3 or more to a nested array with the same length and last dimension but different outer dimensions",
 breaks="a tensor with other dimensions is converted to a nested array instead of being given back",
 demo='''
use mdarray::DTensor;
fn main() {
    let t = DTensor::<i32, 3>::from_fn([2, 3, 2], |i| (i[0] * 6 + i[1] * 2 + i[2]) as i32);
    let r: Result<[[[i32; 2]; 2]; 3], _> = t.try_into();
    let t = r.unwrap_err();
    let r: Result<[[[i32; 2]; 3]; 2], _> = t.try_into();
    assert!(r.is_ok());
}'''),
dict(id="b37", property="C16", serde=True,
 edits=[("src/serde.rs", "                if size == 0 {\n", "                if vec.is_empty() {\n")],
 needs="input whose leading subarrays are empty and are followed by non-empty ones",
 breaks="ragged input like [[],[1,2]] is not rejected with an error but panics",
 demo='''
use mdarray::DTensor;
fn main() {
    assert!(serde_json::from_str::<DTensor<i32, 2>>("[[1],[1,2]]").is_err());
    assert!(serde_json::from_str::<DTensor<i32, 2>>("[[],[1,2]]").is_err());
}'''),
dict(id="b38", property="C17",
 edits=[("src/shape.rs", '''    fn eq(&self, other: &Self) -> bool {
        self.with_dims(|dims| other.with_dims(|other| dims.eq(other)))
    }''', '''    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::One(size), Self::One(other)) => size == other,
            (Self::Dyn(dims), Self::Dyn(other)) => dims == other,
            _ => false,
        }
    }''')],
 needs="comparing two dynamic rank shapes of rank 1 that were made in different ways (one with the boxed representation)",
 breaks="equal dynamic rank shapes of rank 1 compare as different",
 demo='''
use mdarray::DynRank;
fn main() {
    let a = DynRank::One(3);
    let b = DynRank::Dyn(vec![3].into_boxed_slice());
    assert!(a == a.clone() && b == b);
    assert!(a == b && b == a);
}'''),
dict(id="b39", property="C18",
 edits=[("src/view.rs", "unsafe impl<T: Sync, S: Shape, L: Layout> Sync for ViewMut<'_, T, S, L> {}", "unsafe impl<T: Send, S: Shape, L: Layout> Sync for ViewMut<'_, T, S, L> {}")],
 needs="sharing a mutable view of elements that are sendable but not shareable (such as cells) between threads",
 breaks="&ViewMut<Cell<_>> can be shared between threads, which allows data races in safe code, and ViewMut of elements that are only Sync cannot",
 demo='''
use std::cell::Cell;
use std::marker::PhantomData;
use mdarray::{Dyn, Strided, ViewMut};
struct P<T: ?Sized>(PhantomData<T>);
trait No { const IS: bool = false; }
impl<T: ?Sized> No for P<T> {}
impl<T: ?Sized + Sync> P<T> { const IS: bool = true; }
fn main() {
    assert!(!<P<ViewMut<'static, Cell<i32>, (Dyn,), Strided>>>::IS);
    assert!(<P<ViewMut<'static, i32, (Dyn,), Strided>>>::IS);
}'''),
dict(id="b40", property="C19",
 edits=[("src/slice.rs", "            f.debug_list().entries(self.outer_expr()).finish()", '''            // Format the innermost elements directly for speed.
            if self.rank() == 1 && !f.alternate() && self.stride(0) != 1 {
                f.write_str("[")?;

                for (i, x) in self.iter().enumerate() {
                    if i > 0 {
                        f.write_str(", ")?;
                    }

                    write!(f, "{:?}", x)?;
                }

                return f.write_str("]");
            }

            f.debug_list().entries(self.outer_expr()).finish()''')],
 needs="formatting a one-dimensional strided view with width, precision or hex flags",
 breaks="formatting flags are not applied to the elements of one-dimensional strided views",
 demo='''
use mdarray::{step, tensor};
fn main() {
    let t = tensor![1.0, 2.0, 3.0, 4.0];
    let v = t.view(step(.., 2));
    assert_eq!(format!("{:?}", v), "[1.0, 3.0]");
    assert_eq!(format!("{:.2?}", v), "[1.00, 3.00]");
}'''),
dict(id="b41", property="C20",
 edits=[("src/raw_tensor.rs", '''                        } else if new_dims[1..] == old_dims[1..] {
                            vec.resize_with(new_len, &mut f);''', '''                        } else if new_dims[1..] == old_dims[1..]
                            && (new_dims.len() < 3 || new_len <= vec.len())
                        {
                            vec.resize_with(new_len, &mut f);''')],
 needs="growing a tensor of rank 3 or more along the first dimension with enough capacity",
 breaks="resizing along the first dimension within the capacity reallocates",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 3>::from_elem([2, 2, 2], 1);
    t.reserve(100);
    let (p, c) = (t.as_ptr(), t.capacity());
    t.resize(&[4, 2, 2], 2);
    assert_eq!((t.as_ptr(), t.capacity()), (p, c));
}'''),
dict(id="b42", property="C21",
 edits=[("src/tensor.rs", '''                slice[..].clone_into(vec);
                mapping.clone_from(slice.mapping());''', '''                if slice.len() != vec.len() || slice.rank() < 2 {
                    mapping.clone_from(slice.mapping());
                }
                slice[..].clone_into(vec);''')],
 needs="cloning a borrowed slice into an existing tensor (ToOwned::clone_into) with the same number of elements but other dimensions",
 breaks="the target keeps its old dimensions",
 demo='''
use mdarray::{tensor, DTensor, Slice, Dyn};
fn main() {
    let src = tensor![[1, 2, 3], [4, 5, 6]];
    let mut dst: DTensor<i32, 2> = tensor![[0, 0], [0, 0], [0, 0]];
    <Slice<i32, (Dyn, Dyn)> as ToOwned>::clone_into(&src, &mut dst);
    assert_eq!((dst.dim(0), dst.dim(1)), (2, 3));
    assert_eq!(dst, src);
}'''),
dict(id="b43", property="C22",
 edits=[("src/macros.rs", "$crate::DTensor::<_, 4>::from_elem([$l, $k, $j, $i], $elem)", "$crate::DTensor::<_, 4>::from_fn([$l, $k, $j, $i], |_| $elem)")],
 needs="the repeat form with four counts and an element expression with a side effect",
 breaks="the repeated element expression is evaluated for every element and the elements are not equal",
 demo='''
use mdarray::{tensor, DTensor};
fn main() {
    let mut n = 0;
    let t: DTensor<i32, 4> = tensor![[[[{ n += 1; n }; 1]; 2]; 3]; 2];
    assert!(t.iter().all(|x| *x == 1));
    assert_eq!(n, 1);
}'''),
]
