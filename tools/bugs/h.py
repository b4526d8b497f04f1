"""Eighth batch of planted bugs."""
BUGS = [
dict(id="b167", property="C21",
 edits=[("src/slice.rs", '''    pub fn fill_with<F: FnMut() -> T>(&mut self, mut f: F) {
        self.expr_mut().for_each(|x| *x = f());
    }
''', '''    pub fn fill_with<F: FnMut() -> T>(&mut self, mut f: F) {
        // Write in memory order if the array is transposed.
        if !L::IS_DENSE && self.rank() == 2 && self.stride(0) == 1 && self.stride(1) > 1 {
            self.reorder_mut().expr_mut().for_each(|x| *x = f());
        } else {
            self.expr_mut().for_each(|x| *x = f());
        }
    }
''')],
 needs="filling a transposed view of rank 2 with a generator that gives different values",
 breaks="the values are written in another order than for all other arrays",
 demo='''
use mdarray::tensor;
fn main() {
    let mut t = tensor![[0, 0, 0], [0, 0, 0]];
    let mut n = 0;
    t.permute_mut([1, 0]).fill_with(|| { n += 1; n });
    assert_eq!(t, tensor![[1, 3, 5], [2, 4, 6]]);
}'''),
dict(id="b168", property="C20",
 edits=[("src/tensor.rs", '''    pub fn append(&mut self, other: &mut Self) {
        self.expand(other.drain(..));
''', '''    pub fn append(&mut self, other: &mut Self) {
        // Avoid moving the elements if there are none here.
        if self.is_empty() && self.rank() > 1 && S::Head::SIZE.is_none() && other.rank() > 1 {
            mem::swap(self, other);

            if self.is_empty() {
                mem::swap(self, other);
            }
        }

        self.expand(other.drain(..));
''')],
 needs="appending to an empty tensor of rank 2 and above with reserved capacity",
 breaks="the reserved buffer is exchanged for the one of the argument",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<i32, 2>::with_capacity(100);
    let p = t.as_ptr();
    let mut o = DTensor::<i32, 2>::from_elem([2, 3], 1);
    t.append(&mut o);
    assert!(t.shape() == &(2, 3) && t.capacity() >= 100 && t.as_ptr() == p);
}'''),
dict(id="b169", property="C18",
 edits=[("src/mapping.rs", '''        let mut shape = S::new(mapping.rank());
        let mut strides = S::Dims::new(mapping.rank());

        shape.with_mut_dims(|dims| {
            // Calculate inverse permutation
            for i in 0..mapping.rank() {
                assert!(perm[i] < mapping.rank(), "invalid permutation");

                dims[perm[i]] = i;
            }

            for i in 0..mapping.rank() {
                assert!(dims[perm[i]] == i, "invalid permutation");
            }

            // Permute strides
            mapping.for_each_stride(|i, stride| strides.as_mut()[dims[i]] = stride);
''', '''        static INVERSE: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];

        let mut shape = S::new(mapping.rank());
        let mut strides = S::Dims::new(mapping.rank());

        assert!(mapping.rank() <= 64, "invalid rank");

        shape.with_mut_dims(|dims| {
            // Calculate inverse permutation
            for i in 0..mapping.rank() {
                assert!(perm[i] < mapping.rank(), "invalid permutation");

                dims[perm[i]] = i;
                INVERSE[perm[i]].store(i, Ordering::Relaxed);
            }

            for i in 0..mapping.rank() {
                assert!(dims[perm[i]] == i, "invalid permutation");
            }

            // Permute strides
            mapping.for_each_stride(|i, stride| {
                let i = INVERSE[i].load(Ordering::Relaxed).min(mapping.rank() - 1);

                strides.as_mut()[i] = stride;
            });
'''), ("src/mapping.rs", '''use std::hash::Hash;
''', '''use std::hash::Hash;
use std::sync::atomic::{AtomicUsize, Ordering};
''')],
 needs="two threads that permute dimensions of arrays differently at the same time",
 breaks="the threads interfere by the shared scratch memory and get views with wrong strides",
 demo='''
use mdarray::tensor;
fn main() {
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for k in 0..4 {
            let bad = &bad;
            s.spawn(move || {
                let t = tensor![[[1, 2], [3, 4], [5, 6]], [[7, 8], [9, 10], [11, 12]]];
                let p = [[0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]][k];
                for _ in 0..400_000 {
                    let v = t.permute(p);
                    if (0..3).any(|i| v.stride(i) != t.stride(p[i])) {
                        bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);
}'''),
dict(id="b170", property="C01", mode="miri",
 edits=[("src/view.rs", '''                let count = if second_mapping.is_empty() { 0 } else { offset };

                unsafe {
                    let first''', '''                let count = if mid == 0 || second_mapping.len() + mid == 0 { 0 } else { offset };

                unsafe {
                    let first''')],
 needs="splitting a strided view at its end, where the next row would start behind the allocation",
 breaks="a pointer is moved beyond the end of the allocation, which is undefined behaviour",
 demo='''
use mdarray::{Const, tensor};
fn main() {
    let t = tensor![[1, 2, 3, 4, 5, 6], [7, 8, 9, 10, 11, 12]];
    let v = t.view(.., 4..6);
    let (a, b) = v.split_axis_at(Const::<0>, 2);
    assert!(a.len() == 4 && b.is_empty());
}'''),
dict(id="b171", property="C08",
 edits=[("src/expr/into_expr.rs", '''    const IS_REPEATABLE: bool = false;

    fn shape(&self) -> &Self::Shape {
        self.buffer.as_slice().shape()
    }

    unsafe fn get_unchecked(&mut self, _: usize) -> B::Item {
        debug_assert!(self.index < self.buffer.as_slice().len(), "index out of bounds");

        self.index += 1; // Keep track of that the element is moved out.
''', '''    // There is nothing to move for zero-sized elements without drop.
    const IS_REPEATABLE: bool =
        std::mem::size_of::<B::Item>() == 0 && !std::mem::needs_drop::<B::Item>();

    fn shape(&self) -> &Self::Shape {
        self.buffer.as_slice().shape()
    }

    unsafe fn get_unchecked(&mut self, _: usize) -> B::Item {
        debug_assert!(Self::IS_REPEATABLE || self.index < self.buffer.as_slice().len());

        // Keep track of that the element is moved out.
        self.index = (self.index + 1).min(self.buffer.as_slice().len());
''')],
 needs="broadcasting an owned array of zero-sized elements",
 breaks="an operand that can be consumed only once is repeated instead of panicking",
 demo='''
use mdarray::{tensor, expr::{Expression, IntoExpression}};
struct Token;
fn main() {
    let t = tensor![[1, 2], [3, 4]];
    assert!(std::panic::catch_unwind(|| {
        let mut n = 0;
        t.expr().zip(tensor![Token, Token].into_expr()).for_each(|_| n += 1);
    }).is_err());
}'''),
dict(id="b172", property="C11",
 edits=[("src/slice.rs", '''        self.expr_mut().for_each(|x| x.clone_from(&value));
''', '''        self.expr_mut().for_each(|x| unsafe {
            std::ptr::drop_in_place(x);
            std::ptr::write(x, value.clone());
        });
''')],
 needs="a clone that panics while a slice is filled",
 breaks="the element at the position is dropped twice",
 demo='''
use mdarray::tensor;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local!(static LIVE: Cell<i32> = const { Cell::new(0) });
struct Z(bool);
impl Z { fn new(b: bool) -> Z { LIVE.set(LIVE.get() + 1); Z(b) } }
impl Clone for Z { fn clone(&self) -> Z { if self.0 { panic!() } Z::new(false) } }
impl Drop for Z { fn drop(&mut self) { LIVE.set(LIVE.get() - 1) } }
fn main() {
    let mut t = tensor![Z::new(false), Z::new(false)];
    assert!(catch_unwind(AssertUnwindSafe(|| t.fill(Z::new(true)))).is_err());
    drop(t);
    assert_eq!(LIVE.get(), 0);
}'''),
dict(id="b173", property="C14",
 edits=[("src/slice.rs", '''        self.expr().for_each(|x| x.hash(state));
''', '''        if L::IS_DENSE {
            T::hash_slice(&self.remap::<S, _>()[..], state);
        } else {
            self.expr().for_each(|x| x.hash(state));
        }
''')],
 needs="a hasher for which a sequence of integers hashes differently from the integers one by one, and arrays of different layout",
 breaks="equal arrays of different layout hash differently",
 demo='''
use mdarray::{step, tensor};
use std::hash::{Hash, Hasher};
#[derive(Default)]
struct H(u64);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(5) ^ *x as u64; } self.0 = self.0.wrapping_mul(0x9e3779b97f4a7c15) }
    fn finish(&self) -> u64 { self.0 }
}
fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = H::default(); x.hash(&mut h); h.finish() }
fn main() {
    let t = tensor![1, 2, 3];
    let v = t.view(step(.., 1));
    assert!(t == v && hash(&t) == hash(&v));
}'''),
dict(id="b174", property="C12",
 edits=[("src/raw_tensor.rs", '''                        if new_len == 0 {
                            vec.clear();
''', '''                        if new_len == 0 {
                            vec.clear();
                        } else if new_len == vec.len()
                            && new_dims.len() > 2
                            && new_dims[..2].iter().product::<usize>()
                                == old_dims[..2].iter().product::<usize>()
                        {
                            // Only the outer dimensions are regrouped, so keep the elements.
''')],
 needs="resizing a tensor of rank 3 and above to a shape of the same length with the same product of the two outer dimensions",
 breaks="the elements are regrouped instead of being kept at their indices",
 demo='''
use mdarray::DTensor;
fn main() {
    let mut t = DTensor::<usize, 3>::from_fn([2, 3, 1], |i| i[0] * 10 + i[1]);
    t.resize(&[3, 2, 1], 99);
    assert!(t[[1, 0, 0]] == 10 && t[[2, 0, 0]] == 99);
}'''),
dict(id="b175", property="C16", serde=True,
 edits=[("src/serde.rs", '''                vec.append(&mut value.into_vec());
                size += 1;
''', '''                if value.is_empty() && !vec.is_empty() {
                    continue;
                }

                vec.append(&mut value.into_vec());
                size += 1;
''')] if False else [("src/serde.rs", '''                            if src != dst {
''', '''                            // The sizes are known to match if the shape is constant.
                            if src != dst && src.iter().product::<usize>() > 0 {
''')],
 needs="nested input of rank 2 and above where a later row is empty and the first one is not",
 breaks="ragged input is not reported as an error but panics or gives a wrong array",
 demo='''
use mdarray::DTensor;
fn main() {
    let r = std::panic::catch_unwind(|| serde_json::from_str::<DTensor<i32, 2>>("[[1, 2], []]").is_err());
    assert!(r.unwrap());
}'''),
]
