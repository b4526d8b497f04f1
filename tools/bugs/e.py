BUGS = [
dict(id="b108", property="C11", mode="asan",
 edits=[("src/raw_tensor.rs", '''                    self.tensor.slice.set_ptr(self.vec.as_mut_ptr());
                    self.tensor.capacity = self.vec.capacity();

                    // Cleanup in case of length mismatch (e.g. due to allocation failure)
                    if self.vec.len() != self.tensor.slice.mapping().len() {
                        assert!(S::default().len() == 0, "default length not zero");
''', '''                    // Cleanup in case of length mismatch (e.g. due to allocation failure)
                    if self.vec.len() != self.tensor.slice.mapping().len() {
                        assert!(S::default().len() == 0, "default length not zero");

                        self.tensor.slice.set_ptr(self.vec.as_mut_ptr());
                        self.tensor.capacity = self.vec.capacity();
''')],
 needs="an operation that panics after the buffer was reallocated and before the number of elements changed, as expanding with mismatching inner dimensions",
 breaks="the tensor keeps the freed buffer",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::from_elem([1, 2], String::from("abc"));
    let u = Tensor::from_elem([100, 3], String::from("def"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.expand(&u)));
    assert!(r.is_err());
    assert_eq!(t.to_vec(), ["abc", "abc"]);
}'''),
dict(id="b109", property="C14",
 edits=[("src/ops.rs", '''                this.remap::<S, _>()[..].eq(&other.remap::<R, _>()[..])''', '''                // Nothing to compare if both refer to the same elements.
                this.as_ptr() as *const () == other.as_ptr() as *const ()
                    || this.remap::<S, _>()[..].eq(&other.remap::<R, _>()[..])''')],
 needs="comparing an array with itself (or a view of it) where some element does not equal itself (NaN)",
 breaks="arrays with unequal elements compare equal",
 demo='''
use mdarray::tensor;
fn main() {
    let t = tensor![[1.0, f64::NAN]];
    assert!(t != t.expr());
}'''),
dict(id="b110", property="C08", mode="release",
 edits=[("src/expr/adapters.rs", '''impl<E: Expression> Expression for Enumerate<E> {
    type Shape = E::Shape;

    const IS_REPEATABLE: bool = E::IS_REPEATABLE;''', '''impl<E: Expression> Expression for Enumerate<E> {
    type Shape = E::Shape;

    const IS_REPEATABLE: bool = true;''')],
 needs="zipping an enumerated by-value operand with one of higher rank",
 breaks="an operand that can be consumed only once is accepted where it is to be repeated",
 demo='''
use mdarray::{expr::{Expression, IntoExpression}, Tensor};
fn main() {
    let a = Tensor::from_elem([2], 1u8);
    let b = Tensor::from_elem([0, 2], 1u8);
    let r = std::panic::catch_unwind(|| b.expr().zip(a.into_expr().enumerate()).for_each(|_| ()));
    assert!(r.is_err());
}'''),
dict(id="b111", property="C07",
 edits=[("src/expr/sources.rs", '''impl<T, S: Shape, L: Layout, A: Axis> Clone for Lanes<'_, T, S, L, A> {
    fn clone(&self) -> Self {
        Self {
            slice: self.slice,
            axis: self.axis,
            mapping: self.mapping.clone(),
            offset: self.offset,
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.slice = source.slice;
        self.axis = source.axis;
''', '''impl<T, S: Shape, L: Layout, A: Axis> Clone for Lanes<'_, T, S, L, A> {
    fn clone(&self) -> Self {
        Self {
            slice: self.slice,
            axis: self.axis,
            mapping: self.mapping.clone(),
            offset: self.offset,
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.slice = source.slice;
''')],
 needs="clone_from between lanes expressions along different axes that are given at run time",
 breaks="the lanes are along the wrong axis",
 demo='''
use mdarray::{expr::Expression, tensor};
fn main() {
    let t = tensor![[1, 2], [3, 4]];
    let a = t.lanes(0usize);
    let mut b = t.lanes(1usize);
    b.clone_from(&a);
    let mut v = vec![];
    b.for_each(|l| v.push(l.to_vec()));
    assert_eq!(v, [[1, 3], [2, 4]]);
}'''),
dict(id="b112", property="C13", mode="release",
 edits=[("src/index/mod.rs", '''        std::ops::Bound::Excluded(start) => start
            .checked_add(1)
            .unwrap_or_else(|| panic!("attempted to index slice from after maximum usize")),
''', '''        std::ops::Bound::Excluded(start) => start.wrapping_add(1),
''')],
 needs="a range with an excluded start at usize::MAX",
 breaks="the range wraps around and everything is drained",
 demo='''
use mdarray::Tensor;
use std::ops::Bound;
fn main() {
    let mut t = Tensor::from_elem([3], 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(t.drain((Bound::Excluded(usize::MAX), Bound::Unbounded)))));
    assert!(r.is_err());
    assert_eq!(t.len(), 3);
}'''),
dict(id="b113", property="C04",
 edits=[("src/view.rs", '''                    assert!(-index as usize <= self.dim(0), "invalid diagonal");''', '''                    assert!((-index as usize) < self.dim(0), "invalid diagonal");''')],
 needs="the empty diagonal just below the last one",
 breaks="a valid (empty) diagonal is rejected",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_elem([2, 3], 1);
    assert!(t.diag(3).is_empty());
    assert!(t.diag(-2).is_empty());
}'''),
dict(id="b114", property="C20",
 edits=[("src/tensor.rs", '''                    vec.truncate(mapping.len());''', '''                    vec.truncate(mapping.len());

                    if vec.is_empty() {
                        vec.shrink_to_fit();
                    }''')],
 needs="truncating to zero",
 breaks="removal gives up the reserved capacity, so that growing again reallocates",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::from_elem([4, 2], 1);
    t.truncate(0);
    assert!(t.capacity() >= 8);
}'''),
dict(id="b116", property="C01", mode="nocompile",
 edits=[("src/slice.rs", '''    pub fn axis_at<A: Axis>(&self, axis: A, index: usize) -> View<T, A::Remove<S>, Split<A, S, L>> {''', '''    pub fn axis_at<'a, A: Axis>(
        &self,
        axis: A,
        index: usize,
    ) -> View<'a, T, A::Remove<S>, Split<A, S, L>>
    where
        T: 'a,
    {''')],
 needs="keeping a subarray view while the array is changed or dropped",
 breaks="safe code can use freed memory through a view that outlives its array",
 demo='''
use mdarray::{tensor, Const};
fn main() {
    let v = {
        let t = tensor![[String::from("a")], [String::from("b")]];
        t.axis_at(Const::<1>, 0)
    };
    println!("{v:?}");
}'''),
dict(id="b117", property="C01", mode="nocompile",
 edits=[("src/tensor.rs", '''    pub fn spare_capacity_mut(&mut self) -> &mut [MaybeUninit<T>] {''', '''    pub fn spare_capacity_mut<'a>(&mut self) -> &'a mut [MaybeUninit<T>] {''')],
 needs="keeping the spare capacity slice while the tensor is changed",
 breaks="safe code can write to elements, or to freed memory, through the slice",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::from_elem([1], 1);
    t.reserve(10);
    let s = t.spare_capacity_mut();
    t.shrink_to_fit();
    s[0].write(1);
}'''),
dict(id="b118", property="C15",
 edits=[("src/tensor.rs", '''        assert!(self.len() == 1, "invalid length");

        self.into_vec().pop().unwrap()''', '''        assert!(!self.is_empty(), "invalid length");

        self.into_vec().pop().unwrap()''')],
 needs="converting a tensor with several elements to a scalar",
 breaks="elements are lost instead of a panic",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_elem([2], 1);
    let r = std::panic::catch_unwind(|| t.into_scalar());
    assert!(r.is_err());
}'''),
dict(id="b119", property="C16", serde=True,
 edits=[("src/serde.rs", '''                            if src != dst {''', '''                            if src != dst && !value.is_empty() {''')],
 needs="ragged input in which a later row is empty",
 breaks="deserialization panics instead of returning an error",
 demo='''
use mdarray::DTensor;
fn main() {
    let r = std::panic::catch_unwind(|| serde_json::from_str::<DTensor<i32, 2>>("[[1, 2], [], [3, 4]]").is_err());
    assert_eq!(r.ok(), Some(true));
}'''),
dict(id="b120", property="C17",
 edits=[("src/shape.rs", '''        self.with_dims(|dims| dims.hash(state))''', '''        match self {
            Self::Dyn(dims) => dims.hash(state),
            Self::One(size) => size.hash(state),
        }''')],
 needs="hashing equal dynamic shapes of rank 1 made in different ways",
 breaks="equal shapes hash differently",
 demo='''
use mdarray::{DynRank, Shape};
use std::hash::{BuildHasher, RandomState};
fn main() {
    let a = DynRank::from_dims(&[5]);
    let b = DynRank::Dyn(vec![5].into());
    assert!(a == b);
    let s = RandomState::new();
    assert_eq!(s.hash_one(&a), s.hash_one(&b));
}'''),
dict(id="b121", property="C19",
 edits=[("src/slice.rs", '''            f.debug_list().entries(self.outer_expr()).finish()''', '''            f.debug_list().entries(self.outer_expr().into_iter().take(1 << 12)).finish()''')],
 needs="printing an array with more than 4096 entries in some dimension",
 breaks="the output is cut off silently",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_elem([5000], 1);
    assert_eq!(format!("{t:?}"), format!("{:?}", vec![1; 5000]));
}'''),
dict(id="b122", property="C18",
 edits=[("src/expr/into_expr.rs", '''impl<B: Buffer> IntoExpr<B> {
    pub(crate)''', '''unsafe impl<B: Buffer> Send for IntoExpr<B> {}

impl<B: Buffer> IntoExpr<B> {
    pub(crate)''')],
 needs="sending a by-value expression of elements that must not be sent (Rc) to another thread",
 breaks="safe code can have data races on reference counts",
 demo='''
use mdarray::{expr::IntoExpression, Tensor};
use std::rc::Rc;
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn is_send(&self) -> bool { false } }
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> { fn is_send(&self) -> bool { true } }
macro_rules! probe { ($t:ty) => { Probe::<$t>(std::marker::PhantomData).is_send() } }
fn main() {
    assert!(!probe!(<Tensor<Rc<i32>, (usize,)> as IntoExpression>::IntoExpr));
}'''),
dict(id="b123", property="C06",
 edits=[("src/expr/iter.rs", '''        (len, Some(len))''', '''        let len = len.min(u32::MAX as usize);

        (len, Some(len))''')],
 needs="an iterator with more than 2^32 elements remaining (zero-sized elements or repeated rows)",
 breaks="the reported remaining length is wrong",
 demo='''
use mdarray::Tensor;
fn main() {
    let v: Vec<()> = vec![(); 5_000_000_000];
    let t: Tensor<(), (usize,)> = Tensor::from(v);
    assert_eq!(t.iter().len(), 5_000_000_000);
}'''),
dict(id="b124", property="C05", mode="release",
 edits=[("src/shape.rs", '''            assert!(old_len % new_len == 0, "length not divisible by the new dimensions");''', '''            debug_assert!(old_len % new_len == 0, "length not divisible by the new dimensions");''')],
 needs="reshaping with an inferred dimension where the length is not divisible, in an optimized build",
 breaks="elements are lost instead of a panic",
 demo='''
use mdarray::Tensor;
fn main() {
    let t = Tensor::from_elem([6], 1);
    let r = std::panic::catch_unwind(|| t.reshape([!0, 4]).len());
    assert!(r.is_err());
}'''),
dict(id="b125", property="C01",  mode="miri",
 edits=[("src/expr/adapters.rs", '''impl<T, E: Expression, F: FnMut(E::Item) -> T> Expression for Map<E, F> {
    type Shape = E::Shape;

    const IS_REPEATABLE: bool = E::IS_REPEATABLE;''', '''impl<T, E: Expression, F: FnMut(E::Item) -> T> Expression for Map<E, F> {
    type Shape = E::Shape;

    // The closure can be called any number of times.
    const IS_REPEATABLE: bool = true;''')],
 needs="zipping a mapped by-value or mutable operand with one of higher rank",
 breaks="several mutable references to the same element are handed out",
 demo='''
use mdarray::{expr::Expression, Tensor};
fn main() {
    let mut a = Tensor::from_elem([2], 1u8);
    let b = Tensor::from_elem([2, 2], 1u8);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let v: Vec<_> = b.expr().zip(a.expr_mut().map(|x| x)).into_iter().map(|x| x.1).collect();
        for x in v { *x += 1; }
    }));
    assert!(r.is_err());
}'''),
dict(id="b126", property="C09",
 edits=[("src/ops.rs", '''        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for ViewMut<'_, T, S, L>
        where
            T: $trt<I::Item>,
        {
            fn $fn(&mut self, rhs: I) {
                self.expr_mut().zip(rhs).for_each(|(x, y)| x.$fn(y));
            }
        }''', '''        impl<T, S: Shape, L: Layout, I: IntoExpression> $trt<I> for ViewMut<'_, T, S, L>
        where
            T: $trt<I::Item>,
        {
            fn $fn(&mut self, rhs: I) {
                let rhs = rhs.into_expr();

                if S::RANK == Some(1) && I::Shape::RANK == Some(1) {
                    // Nothing to broadcast in one dimension.
                    self.iter_mut().zip(rhs).for_each(|(x, y)| x.$fn(y));
                } else {
                    self.expr_mut().zip(rhs).for_each(|(x, y)| x.$fn(y));
                }
            }
        }''')],
 needs="compound assignment to a one-dimensional mutable view with an operand of another length",
 breaks="a mismatching operand is accepted and only part of it is used",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![1, 2, 3];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut v = t.view_mut(..); v += tensor![1, 1]; }));
    assert!(r.is_err());
}'''),
dict(id="b127", property="C12",
 edits=[("src/tensor.rs", '''                        if mapping.is_empty() {
                            if src.len() == mapping.rank() {''', '''                        if mapping.is_empty() {
                            if S::RANK.is_some() || src.len() >= mapping.rank() {''')],
 count=1,
 needs="expanding an empty tensor of dynamic rank by an expression of higher rank",
 breaks="the tensor does not adopt the shape (it panics)",
 demo='''
use mdarray::Tensor;
fn main() {
    let mut t = Tensor::<i32>::new();
    t.expand(&Tensor::from_elem([2, 3], 1));
    assert_eq!(t.shape().dims(), [2, 3]);
}'''),
dict(id="b128", property="C10",
 edits=[("src/traits.rs", '''    fn clone_to(self, target: &mut T) {
        *target = self;
    }''', '''    fn clone_to(self, target: &mut T) {
        // The target may be uninitialized memory, so do not drop it.
        unsafe { (target as *mut T).write(self) }
    }''')],
 needs="assigning an expression that gives elements by value to an array of elements with destructors",
 breaks="the previous elements are leaked",
 demo='''
use mdarray::{tensor, expr};
use std::rc::Rc;
fn main() {
    let x = Rc::new(1);
    let mut t = tensor![x.clone(), x.clone()];
    t.assign(expr::fill_with(|| Rc::new(2)));
    assert_eq!(Rc::strong_count(&x), 1);
}'''),
]
