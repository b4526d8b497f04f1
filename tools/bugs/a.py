BUGS = [
dict(id="b01", property="C01", mode="miri",
 edits=[("src/expr/sources.rs", "let count = if len == 0 { 0 } else { offset };", "let count = if len == 0 && self.slice.mapping().is_contiguous() { 0 } else { offset };")],
 needs="iterating along an axis of a strided view whose subarrays are empty (an inner dimension of size 0 in a view with a non-contiguous layout); the pointer is moved past the allocation",
 breaks="axis iteration over an empty strided view performs out-of-bounds pointer arithmetic (undefined behaviour in safe code)",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1, 2, 3], [4, 5, 6]];
    let v = t.view(.., ..0);
    let w = v.view(1..1, ..);
    let x = t.permute([1, 0]);
    let y = x.view(.., 2..2);
    let mut n = 0;
    for z in y.axis_expr(mdarray::Const::<0>) { n += 1; assert_eq!(z.len(), 0); }
    assert_eq!(n, 3);
    let big = t.permute([1, 0]).into_view(.., 0..0);
    // rows far apart: strides 1 and 3, three subarrays; step through a reversed, stepped view
    let e = mdarray::Tensor::<i32, mdarray::Rank<3>>::from_elem([3, 2, 4], 1);
    let p = e.permute([2, 0, 1]);
    let q = p.view(.., 3..3, ..);
    for z in q.axis_expr(mdarray::Const::<2>) { n += z.len() + 1; }
    for z in q.axis_expr(mdarray::Const::<0>) { n += z.len() + 1; }
    let s = e.view(.., .., 4..4);
    for z in s.axis_expr(mdarray::Const::<0>) { n += z.len() + 1; }
    let r = e.view(3..3, .., ..);
    let r = r.permute([1, 2, 0]);
    for z in r.axis_expr(mdarray::Const::<1>) { n += z.len() + 1; }
    let none = mdarray::Tensor::<i32, mdarray::Rank<2>>::from_elem([5, 0], 1);
    let none = none.permute([1, 0]);
    for z in none.axis_expr(mdarray::Const::<1>) { n += z.len() + 1; }
    let none = mdarray::Tensor::<i32, mdarray::Rank<3>>::from_elem([0, 5, 6], 1);
    let none = none.permute([1, 0, 2]);
    for z in none.axis_expr(mdarray::Const::<0>) { n += z.len() + 1; }
    let _ = (w.len(), big.len(), n);
}'''),
dict(id="b02", property="C02",
 edits=[("src/index/slice.rs", '''    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {
        assert!(self.len() == slice.rank(), "invalid rank");

        for i in 0..self.len() {
            if self[i] >= slice.dim(i) {''', '''    fn index_mut(self, slice: &mut Slice<T, S, L>) -> &mut T {
        assert!(self.len() == slice.rank(), "invalid rank");

        let in_bounds = L::IS_DENSE && (slice.mapping().offset(self) as usize) < slice.len();

        for i in 0..self.len() {
            if !in_bounds && self[i] >= slice.dim(i) {''')],
 mode="release",
 needs="release build (no debug assertions), writing through a multidimensional index that is out of bounds in an inner dimension but whose linear offset is still inside the array",
 breaks="an out-of-bounds multidimensional index in a mutable access writes another element instead of panicking",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![[1, 2, 3], [4, 5, 6]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t[[0, 4]] = 9));
    assert!(r.is_err());
    assert_eq!(t.to_vec(), [1, 2, 3, 4, 5, 6]);
}'''),
dict(id="b03", property="C03",
 edits=[("src/index/mod.rs", """        std::ops::Bound::Included(end) => end
            .checked_add(1)
            .unwrap_or_else(|| panic!("attempted to index slice up to maximum usize")),
        std::ops::Bound::Excluded(&end) => end,""", """        std::ops::Bound::Included(end) => end.wrapping_add(1),
        std::ops::Bound::Excluded(&end) => end,""")],
 needs="an inclusive range that ends at usize::MAX",
 breaks="a range that does not fit the dimension gives an empty view instead of a panic",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[0, 1, 2], [3, 4, 5]];
    let r = std::panic::catch_unwind(|| t.view(.., ..=usize::MAX).len());
    assert!(r.is_err());
    assert_eq!(t.view(.., 1..=2).len(), 4);
}'''),
dict(id="b04", property="C04",
 edits=[("src/view.rs", "(-index * self.stride(0), self.dim(1).min(self.dim(0) - (-index as usize)))",
   "(-index * self.stride(0), self.dim(0).min(self.dim(1)).saturating_sub(-index as usize))")],
 needs="a diagonal below the main one of a matrix with more rows than columns",
 breaks="lower diagonals of tall matrices are too short",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[0, 1], [2, 3], [4, 5], [6, 7]];
    assert_eq!(t.diag(-1).to_vec(), [2, 5]);
    assert_eq!(t.diag(-2).to_vec(), [4, 7]);
}'''),
dict(id="b05", property="C05",
 edits=[("src/mapping.rs", '''    fn is_contiguous(&self) -> bool {
        let mut stride = 1;

        for i in (0..self.rank()).rev() {
            if self.strides.as_ref()[i] != stride {''', '''    fn is_contiguous(&self) -> bool {
        let mut stride = 1;

        for i in (0..self.rank()).rev() {
            // Negative strides only reverse the order within the same memory range.
            if self.strides.as_ref()[i].abs() != stride {''')],
 needs="a view that is reversed along some dimension, converted to the dense layout type",
 breaks="a reversed view is considered contiguous; converting it to a dense view reads outside of the array",
 mode="asan",
 demo='''
use mdarray::{step, tensor, Dense, Rank, View};
fn main() {
    let t = tensor![0, 1, 2, 3];
    let v = t.view(step(.., -1));
    assert!(!v.is_contiguous());
    let r = std::panic::catch_unwind(|| {
        let d: View<i32, Rank<1>, Dense> = v.remap();
        d.to_vec()
    });
    assert!(r.is_err());
}'''),
dict(id="b06", property="C06",
 edits=[("src/expr/iter.rs", "len = len * self.outer_limit.as_ref()[i] - self.outer_index.as_ref()[i];",
    "len *= self.outer_limit.as_ref()[i] - self.outer_index.as_ref()[i];")],
 needs="an iterator over a strided view of rank >= 3, partially consumed so that an outer index is above zero and a middle index too",
 breaks="the remaining length reported in the middle of an iteration is wrong",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_fn([3, 4, 5], |i| i[0] * 20 + i[1] * 5 + i[2]);
    let v = t.permute([2, 1, 0]);
    let mut it = v.iter();
    let mut n = 60;
    while it.next().is_some() { n -= 1; assert_eq!(it.len(), n); }
}'''),
dict(id="b07", property="C07",
 edits=[("src/expr/sources.rs", '''impl<T, S: Shape, L: Layout, A: Axis> Clone for Lanes<'_, T, S, L, A> {
    fn clone(&self) -> Self {
        Self {
            slice: self.slice,
            axis: self.axis,
            mapping: self.mapping.clone(),
            offset: self.offset,
        }''', '''impl<T, S: Shape, L: Layout, A: Axis> Clone for Lanes<'_, T, S, L, A> {
    fn clone(&self) -> Self {
        Self { slice: self.slice, axis: self.axis, mapping: self.mapping.clone(), offset: 0 }''')],
 needs="cloning a partially consumed iterator over the lanes of an array of rank >= 3 (after the outer index has advanced)",
 breaks="a cloned lanes iterator yields the wrong lanes",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_fn([2, 2, 2], |i| i[0] * 4 + i[1] * 2 + i[2]);
    let mut it = t.lanes(mdarray::Const::<1>).into_iter();
    for _ in 0..3 { it.next(); }
    let mut c = it.clone();
    assert_eq!(c.next().unwrap().to_vec(), [5, 7]);
    assert_eq!(it.next().unwrap().to_vec(), [5, 7]);
}'''),
dict(id="b08", property="C08",
 edits=[("src/expr/adapters.rs", '''                let inner_match =
                    a_dims[dims.len() - b_dims.len()..] == b_dims[dims.len() - a_dims.len()..];''',
  '''                let inner_match = a_dims
                    .iter()
                    .rev()
                    .zip(b_dims.iter().rev())
                    .all(|(x, y)| x == y || x * y == 0);''')],
 needs="zipping two expressions whose inner dimensions differ while one of them is empty",
 breaks="operands with mismatching inner dimensions are accepted when a dimension is zero",
 demo='''
use mdarray::{expr, expr::Expression, Tensor};
fn main() {
    let a = Tensor::from_elem([2, 3], 1);
    let b = Tensor::from_elem([2, 0], 1);
    let r = std::panic::catch_unwind(|| expr::zip(&a, &b).map(|(x, y)| x + y).eval().len());
    assert!(r.is_err());
    let r = std::panic::catch_unwind(|| expr::zip(&b, &a).map(|(x, y)| x + y).eval().len());
    assert!(r.is_err());
}'''),
dict(id="b09", property="C09",
 edits=[("src/ops.rs", '''        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for Slice<T, S, L>
        where
            T: $trt<I::Item>,
        {
            fn $fn(&mut self, rhs: I) {
                self.expr_mut().zip(rhs).for_each(|(x, y)| x.$fn(y));
''', '''        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for Slice<T, S, L>
        where
            T: $trt<I::Item>,
        {
            fn $fn(&mut self, rhs: I) {
                let rhs = rhs.into_expr();

                // No need to step through the dimensions if all elements are consecutive.
                if L::IS_DENSE && rhs.len() == self.len() {
                    self.iter_mut().zip(rhs).for_each(|(x, y)| x.$fn(y));
                } else {
                    self.expr_mut().zip(rhs).for_each(|(x, y)| x.$fn(y));
                }
''')],
 needs="compound assignment to a dense slice (not a tensor or view) with a right operand of another shape but the same number of elements",
 breaks="a compound assignment with mismatching shapes changes the elements instead of panicking",
 demo='''
use mdarray::{Slice, Tensor};
fn main() {
    let mut a = Tensor::from_elem([2, 3], 1);
    let b = Tensor::from_elem([3, 2], 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let s: &mut Slice<i32, (usize, usize)> = &mut a;
        *s += &b;
    }));
    assert!(r.is_err());
    let s: &mut Slice<i32, (usize, usize)> = &mut a;
    *s += &Tensor::from_elem([3], 1);
    assert!(a.iter().all(|x| *x == 2));
}'''),
dict(id="b10", property="C10",
 edits=[("src/raw_tensor.rs", '''                        if new_len == 0 {
                            vec.clear();''', '''                        if new_len == 0 {
                            vec.set_len(0);''')],
 needs="resizing a non-empty tensor of elements with a destructor to a shape with a zero dimension",
 breaks="the elements are leaked when a tensor is resized to an empty shape",
 demo='''
use mdarray::Tensor;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut t = Tensor::from_elem([2, 3], r.clone());
    t.resize(&[0, 3], r.clone());
    drop(t);
    assert_eq!(Rc::strong_count(&r), 1);
}'''),
dict(id="b11", property="C11",
 edits=[("src/raw_tensor.rs", '''            new_vec.as_mut_ptr().add(new_vec.len()).write(f());
            new_vec.set_len(new_vec.len() + 1);''', '''            let len = new_vec.len();

            new_vec.set_len(len + 1);
            new_vec.as_mut_ptr().add(len).write(f());''')],
 needs="resize_with that changes the inner dimensions, with a closure that panics",
 breaks="an uninitialised element is dropped when the closure of resize_with panics",
 mode="asan",
 demo='''
use mdarray::Tensor;
fn main() {
    for _ in 0..50 {
        let junk: Vec<Vec<u64>> = (0..8).map(|i| vec![0x4141414141414141; i * 4]).collect();
        drop(junk);
        let mut t: Tensor<Box<u64>, mdarray::Rank<2>> = Tensor::from_fn([2, 2], |_| Box::new(1));
        let mut n = 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            t.resize_with(&[3, 5], || { n += 1; if n == 3 { panic!("stop") } Box::new(2) })
        }));
        assert!(r.is_err());
    }
}'''),
dict(id="b12", property="C12",
 edits=[("src/raw_tensor.rs", "} else if new_dims[1..] == old_dims[1..] {",
   "} else if new_dims[1..].iter().product::<usize>()\n                            == old_dims[1..].iter().product::<usize>()\n                        {")],
 needs="resizing a tensor of rank >= 3 so that the inner dimensions change but their product does not",
 breaks="elements end up at other indices when the inner dimensions are changed with the same product",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::from_fn([2, 2, 3], |i| i[0] * 100 + i[1] * 10 + i[2]);
    t.resize(&[2, 3, 2], 7);
    assert_eq!(t[[1, 1, 1]], 111);
    assert_eq!(t[[0, 2, 0]], 7);
}'''),
dict(id="b13", property="C13",
 edits=[("src/expr/buffer.rs", """        // Shrink the array, to be safe in case Drain is leaked.
        unsafe {
            tensor.set_mapping(Mapping::resize_dim(tensor.mapping(), 0, start));
        }

        let ptr = unsafe { tensor.as_mut_ptr().add(tensor.len()) as *mut ManuallyDrop<T> };""",
 """        let offset = Axis::resize(Const::<0>, tensor.mapping(), start).len();

        // Shrink the array, to be safe in case Drain is leaked.
        unsafe {
            tensor.set_mapping(Mapping::resize_dim(tensor.mapping(), 0, new_size));
        }

        let ptr = unsafe { tensor.as_mut_ptr().add(offset) as *mut ManuallyDrop<T> };""")],
 needs="a leaked drain (mem::forget) of a range that is not at the end of the tensor",
 breaks="after leaking a drain, the tensor still contains elements that were handed out",
 demo='''
use mdarray::{expr::Expression, tensor};
fn main() {
    let mut t = tensor![[1, 2], [3, 4], [5, 6], [7, 8]];
    {
        let mut it = t.drain(1..2).into_iter();
        assert_eq!(it.next(), Some(3));
        assert_eq!(it.next(), Some(4));
        std::mem::forget(it);
    }
    assert!(!t.contains(&3) && !t.contains(&4));
    let mut u = tensor![[1, 2], [3, 4], [5, 6], [7, 8]];
    assert_eq!(u.drain(1..3).eval(), tensor![[3, 4], [5, 6]]);
    assert_eq!(u, tensor![[1, 2], [7, 8]]);
}'''),
dict(id="b14", property="C14",
 edits=[("src/slice.rs", "        self.expr().for_each(|x| x.hash(state));", '''        if L::IS_DENSE {
            T::hash_slice(&self.remap::<S, Dense>()[..], state);
        } else {
            self.expr().for_each(|x| x.hash(state));
        }''')],
 needs="a hasher for which hashing a slice of primitives at once differs from hashing them one by one, and equal dense and strided arrays",
 breaks="equal arrays with different layouts hash differently",
 demo='''
use mdarray::{step, tensor};
use std::hash::{Hash, Hasher};
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(x)).wrapping_mul(0x517cc1b727220a95);
        }
    }
}
fn h<T: Hash + ?Sized>(x: &T) -> u64 { let mut s = H(0); x.hash(&mut s); s.finish() }
fn main() {
    let a = tensor![1u8, 0, 2, 0, 3];
    let b = tensor![1u8, 2, 3];
    let v = a.view(step(.., 2));
    assert!(v == b);
    assert_eq!(h(&v), h(&b));
}'''),
dict(id="b15", property="C15",
 edits=[("src/tensor.rs", "if value.shape().with_dims(|dims| dims == &[$($abc),+]) {", "if value.len() == [$($abc),+].iter().product::<usize>() {")],
 needs="converting a tensor to a nested built-in array whose element count matches but whose dimensions do not",
 breaks="TryFrom a tensor to a nested array accepts other dimensions",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1, 2, 3], [4, 5, 6]];
    let r: Result<[[i32; 2]; 3], _> = t.try_into();
    assert!(r.is_err());
}'''),
dict(id="b16", property="C16", serde=True,
 edits=[("src/serde.rs", "if src != dst {", "if src.first() != dst.first() {")],
 needs="deserializing ragged input where only a dimension at depth three or more differs between blocks",
 breaks="ragged input makes deserialization panic (or accept it) instead of returning an error",
 demo='''
use mdarray::DTensor;
fn main() {
    let r = std::panic::catch_unwind(|| serde_json::from_str::<DTensor<i32, 3>>("[[[1,2],[3,4]],[[5],[6]]]").is_err());
    assert!(matches!(r, Ok(true)));
}'''),
dict(id="b17", property="C17", mode="release",
 edits=[("src/expr/sources.rs", '''impl<T, S: Shape> FromElem<T, S> {
    pub(crate) fn new(shape: S, elem: T) -> Self {
        _ = shape.checked_len().expect("invalid length");''', '''impl<T, S: Shape> FromElem<T, S> {
    pub(crate) fn new(shape: S, elem: T) -> Self {
        debug_assert!(shape.checked_len().is_some(), "invalid length");''')],
 needs="release build and a shape whose element count overflows",
 breaks="a shape with an overflowing element count gives an undersized array",
 demo='''
use mdarray::Tensor;
fn main() {
    let r = std::panic::catch_unwind(|| Tensor::from_elem([1usize << 33, 1 << 33], 1u8).len());
    assert!(r.is_err());
}'''),
dict(id="b18", property="C18",
 edits=[("src/view.rs", "unsafe impl<T: Sync, S: Shape, L: Layout> Send for View<'_, T, S, L> {}", "unsafe impl<T: Send, S: Shape, L: Layout> Send for View<'_, T, S, L> {}")],
 needs="sending a shared view of elements that are Send but not Sync (such as Cell) to another thread",
 breaks="shared views of non-Sync elements can be sent to other threads: data races in safe code",
 demo='''
use mdarray::{DView, Rank, View};
use std::cell::Cell;
use std::marker::PhantomData;
struct P<T>(PhantomData<T>);
trait No { fn send(&self) -> bool { false } }
impl<T> No for &P<T> {}
impl<T: Send> P<T> { fn send(&self) -> bool { true } }
fn main() {
    let _: Option<View<i32, Rank<1>>> = None;
    assert!((&P::<DView<'static, i32, 1>>(PhantomData)).send());
    assert!(!(&P::<DView<'static, Cell<i32>, 1>>(PhantomData)).send());
}'''),
dict(id="b19", property="C19",
 edits=[("src/slice.rs", "            f.debug_list().entries(self.outer_expr()).finish()", '''            // Nothing to show if there are no elements.
            if self.is_empty() {
                return f.write_str("[]");
            }

            f.debug_list().entries(self.outer_expr()).finish()''')],
 needs="printing an empty array whose first dimension is not zero",
 breaks="the debug output of [2, 0] shaped arrays does not show the nested structure",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_elem([2, 0], 1);
    assert_eq!(format!("{t:?}"), "[[], []]");
}'''),
dict(id="b20", property="C20",
 edits=[("src/tensor.rs", '''    pub fn reserve(&mut self, additional: usize) {
        unsafe {
            self.tensor.with_mut_parts(|vec, _| vec.reserve(additional));''', '''    pub fn reserve(&mut self, additional: usize) {
        let spare = self.capacity() - self.len();

        unsafe {
            self.tensor.with_mut_parts(|vec, _| vec.reserve(additional.saturating_sub(spare)));''')],
 needs="reserving in a tensor that already has some spare capacity",
 breaks="reserve does not guarantee room for the requested number of additional elements",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<u32, 1>::with_capacity(10);
    t.extend(0..6);
    t.reserve(8);
    assert!(t.capacity() >= 14);
}'''),
dict(id="b21", property="C21",
 edits=[("src/tensor.rs", '''                slice[..].clone_into(vec);
                mapping.clone_from(slice.mapping());''', '''                slice[..].clone_into(vec);

                if mapping.len() != vec.len() {
                    mapping.clone_from(slice.mapping());
                }''')],
 needs="cloning a slice into an existing tensor with the same number of elements but another shape",
 breaks="the target keeps its old shape",
 demo='''
use mdarray::tensor;
fn main() {
    let a = tensor![[1, 2, 3], [4, 5, 6]];
    let mut b = tensor![[0, 0], [0, 0], [0, 0]];
    (*a).clone_into(&mut b);
    assert_eq!((b.dim(0), b.dim(1)), (2, 3));
}'''),
dict(id="b22", property="C22",
 edits=[("src/macros.rs", "$crate::DTensor::<_, 6>::from_elem([$n, $m, $l, $k, $j, $i], $elem)", "$crate::DTensor::<_, 6>::from_fn([$n, $m, $l, $k, $j, $i], |_| $elem)")],
 needs="the six-dimensional repeat form of tensor! with an element expression that gives another value each time it is evaluated",
 breaks="the element expression is evaluated for every element instead of once",
 demo='''
use mdarray::tensor;
fn main() {
    let mut n = 0;
    let t = tensor![[[[[[{ n += 1; n }; 2]; 1]; 1]; 2]; 1]; 1];
    assert_eq!(t.into_vec(), [1; 4]);
}'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
