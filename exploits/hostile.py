"""Hostile programs that a sound library makes impossible to write.

Each program is safe Rust (`#![forbid(unsafe_code)]`) that tries to keep something alive beyond the
data it refers to, to hold two overlapping borrows of which one is exclusive, or to smuggle a short
lived reference into a longer lived place. On a sound library the borrow rules in the types of the
library reject it. What decides is an execution: a program that is accepted is run under
AddressSanitizer, with its own monitor of the addresses reachable through both borrows, and only
what is observed there counts as a violation.

The legal twin of each program (the same, without the line that breaks the rules) must be accepted,
otherwise the attempt says nothing and is left out.
"""
import concurrent.futures as cf, json, os, re, subprocess

PRE = r'''#![forbid(unsafe_code)]
#![allow(unused, dropping_references, unused_must_use, dropping_copy_types)]
use mdarray::expr::{self, Apply, Expression, IntoExpression, FromExpression};
use mdarray::index::{Cols, Rows};
use mdarray::*;
use std::borrow::{Borrow, BorrowMut};

type T2 = Tensor<String, (usize, usize)>;
type T1 = Tensor<String, (usize,)>;

fn mk2() -> T2 { Tensor::from_fn([4, 5], |i| format!("element {i:?} with some text on the heap")) }
fn mk1() -> T1 { Tensor::from_fn([6], |i| format!("element {i:?} with some text on the heap")) }
fn mka() -> Array<String, (Const<2>, Const<3>)> {
    Array::from([["a", "b", "c"], ["d", "e", "f"]].map(|r| r.map(|s| s.repeat(40))))
}

/// Everything that can be reached: reads all elements and gives their addresses.
trait Touch { fn touch(&self, v: &mut Vec<usize>); }
impl Touch for String {
    fn touch(&self, v: &mut Vec<usize>) {
        let n: usize = self.bytes().map(|b| b as usize).sum();
        std::hint::black_box(n);
        v.push(self as *const String as usize);
    }
}
impl Touch for usize { fn touch(&self, _: &mut Vec<usize>) { std::hint::black_box(*self); } }
impl<T: Touch, S: Shape, L: Layout> Touch for Slice<T, S, L> {
    fn touch(&self, v: &mut Vec<usize>) { for x in self.iter() { x.touch(v) } }
}
impl<T: Touch, S: Shape, L: Layout> Touch for View<'_, T, S, L> {
    fn touch(&self, v: &mut Vec<usize>) { (**self).touch(v) }
}
impl<T: Touch, S: Shape, L: Layout> Touch for ViewMut<'_, T, S, L> {
    fn touch(&self, v: &mut Vec<usize>) { (**self).touch(v) }
}
impl<T: Touch, S: Shape> Touch for Tensor<T, S> { fn touch(&self, v: &mut Vec<usize>) { (**self).touch(v) } }
impl<T: Touch, S: ConstShape> Touch for Array<T, S> { fn touch(&self, v: &mut Vec<usize>) { (**self).touch(v) } }
impl<T: Touch> Touch for [T] { fn touch(&self, v: &mut Vec<usize>) { for x in self { x.touch(v) } } }
impl<T: Touch, const N: usize> Touch for [T; N] { fn touch(&self, v: &mut Vec<usize>) { for x in self { x.touch(v) } } }
impl<T: Touch> Touch for Vec<T> { fn touch(&self, v: &mut Vec<usize>) { for x in self { x.touch(v) } } }
impl<T: Touch + ?Sized> Touch for &T { fn touch(&self, v: &mut Vec<usize>) { (**self).touch(v) } }
impl<T: Touch + ?Sized> Touch for &mut T { fn touch(&self, v: &mut Vec<usize>) { (**self).touch(v) } }
impl<A: Touch, B: Touch> Touch for (A, B) { fn touch(&self, v: &mut Vec<usize>) { self.0.touch(v); self.1.touch(v) } }
impl<T: Touch> Touch for Option<T> { fn touch(&self, v: &mut Vec<usize>) { if let Some(x) = self { x.touch(v) } } }

/// What gives exclusive access to the elements reachable through it.
trait Excl {}
impl<T: ?Sized> Excl for &mut T {}
impl<T, S: Shape, L: Layout> Excl for ViewMut<'_, T, S, L> {}
impl<T: Excl, S: Shape> Excl for Tensor<T, S> {}
impl<T: Excl> Excl for Vec<T> {}
impl<A: Excl, B: Excl> Excl for (A, B) {}
impl Excl for usize {}
fn excl<T: Excl>(_: &T) {}

/// Collects what an iterator hands out, all of it kept alive.
fn all<I: IntoIterator>(i: I) -> Vec<I::Item> { i.into_iter().collect() }

fn look<X: Touch>(x: &X) -> Vec<usize> { let mut v = Vec::new(); x.touch(&mut v); v }

/// Two borrows are alive, at least one of them exclusive: no element may be reachable through both.
fn disjoint<A: Touch + Excl, B: Touch>(a: &A, b: &B) {
    let (x, y) = (look(a), look(b));
    for p in &y {
        if x.contains(p) {
            eprintln!("EXPLOIT: element {p:#x} is reachable through an exclusive and another live borrow");
            std::process::exit(57);
        }
    }
}
'''

# name -> expression for something that borrows `t` (a rank 2 tensor of strings).
SHARED = {
    "expr": "t.expr()", "view": "t.view(1.., ..)", "view_step": "t.view(.., step(.., 2))", "view_elem": "t.view(1, 1..)",
    "at": "t.at(1)", "axis_at": "t.axis_at(Const::<1>, 0)", "axis_at_dyn": "t.axis_at(1, 0)", "row": "t.row(1)",
    "col": "t.col(1)", "diag": "t.diag(0)", "reshape": "t.reshape([5, 4])", "flatten": "t.flatten()",
    "permute": "t.permute((Const::<1>, Const::<0>))", "permute_dyn": "t.permute([1, 0])", "reorder": "t.reorder()",
    "remap": "t.remap::<DynRank, Strided>()", "split_at": "t.split_at(2)", "split_axis_at": "t.split_axis_at(Const::<1>, 2)",
    "iter": "all(t.iter())", "into_iter": "all(&t)", "lanes": "all(t.lanes(Const::<0>))", "rows": "all(t.rows())",
    "cols": "all(t.cols())", "outer_expr": "all(t.outer_expr())", "axis_expr": "all(t.axis_expr(1))",
    "zip": "all(t.expr().zip(t.expr()))", "map": "all(t.expr().map(|x| x))", "apply": "all((&t).apply(|x| x))",
    "eval_refs": "t.expr().map(|x| x).eval()", "enumerate": "all(t.expr().enumerate())",
    "index": "&t[[1, 2]]", "index_linear": "&t[3]", "index_range": "&t[2..9]", "deref": "&*t",
    "borrow": "{ let s: &Slice<String, (usize, usize)> = t.borrow(); s }",
    "as_ref": "{ let s: &Slice<String, (usize, usize)> = t.as_ref(); s }",
    "into_expr": "(&t).into_expr()", "view_from": "View::from(&t)",
    "view_chain": "t.expr().into_view(.., 1..).into_permuted([1, 0]).into_dyn()",
    "into_row": "t.expr().into_row(1)", "into_col": "t.expr().into_col(1)", "into_diag": "t.expr().into_diag(1)",
    "into_split": "t.expr().into_split_at(1)", "into_at": "t.expr().into_at(1)", "into_flat": "t.expr().into_flat()",
    "into_shape": "t.expr().into_shape([2, 10])", "into_reordered": "t.expr().into_reordered()",
    "into_split_axis": "t.expr().into_split_axis_at(Const::<1>, 2)", "into_axis_at": "t.expr().into_axis_at(1, 2)",
    "iter_of_view": "all(t.view(1.., ..).into_iter())",
    "slice_ref": "{ let s: &[String] = t.flatten().into(); s }",
    "copied_refs": "t.expr().map(|x| x).eval().into_vec()",
    "tensor_of_views": "t.rows().eval()",
    "zip_with": "all((&t).zip_with(&t, |(x, _)| x))",
}
MUT = {
    "expr_mut": "t.expr_mut()", "view_mut": "t.view_mut(.., 1..)", "at_mut": "t.at_mut(1)", "view_mut_step": "t.view_mut(step(.., -1), ..)",
    "axis_at_mut": "t.axis_at_mut(Const::<1>, 2)", "row_mut": "t.row_mut(1)", "col_mut": "t.col_mut(2)", "diag_mut": "t.diag_mut(0)",
    "reshape_mut": "t.reshape_mut([20])", "flatten_mut": "t.flatten_mut()", "permute_mut": "t.permute_mut([1, 0])",
    "reorder_mut": "t.reorder_mut()", "remap_mut": "t.remap_mut::<DynRank, Strided>()", "split_at_mut": "t.split_at_mut(1)",
    "split_axis_at_mut": "t.split_axis_at_mut(Const::<1>, 2)", "iter_mut": "all(t.iter_mut())", "into_iter_mut": "all(&mut t)",
    "lanes_mut": "all(t.lanes_mut(Const::<0>))", "rows_mut": "all(t.rows_mut())", "cols_mut": "all(t.cols_mut())",
    "outer_expr_mut": "all(t.outer_expr_mut())", "axis_expr_mut": "all(t.axis_expr_mut(1))", "map_mut": "all(t.expr_mut().map(|x| x))",
    "apply_mut": "all((&mut t).apply(|x| x))", "index_mut": "&mut t[[1, 2]]", "index_mut_range": "&mut t[2..9]", "index_mut_linear": "&mut t[7]",
    "deref_mut": "&mut *t", "into_expr_mut": "(&mut t).into_expr()", "view_mut_from": "ViewMut::from(&mut t)",
    "borrow_mut": "{ let s: &mut Slice<String, (usize, usize)> = t.borrow_mut(); s }",
    "as_mut": "{ let s: &mut Slice<String, (usize, usize)> = t.as_mut(); s }",
    "into_split_mut": "t.expr_mut().into_split_at(1)", "into_row_mut": "t.expr_mut().into_row(1)", "into_col_mut": "t.expr_mut().into_col(1)",
    "into_diag_mut": "t.expr_mut().into_diag(0)", "into_shape_mut": "t.expr_mut().into_shape([20])", "into_view_mut": "t.expr_mut().into_view(1.., ..)",
    "into_permuted_mut": "t.expr_mut().into_permuted([1, 0])", "into_dyn_mut": "t.expr_mut().into_dyn()", "into_at_mut": "t.expr_mut().into_at(1)",
    "into_flat_mut": "t.expr_mut().into_flat()", "into_reordered_mut": "t.expr_mut().into_reordered()",
    "slice_mut": "{ let s: &mut [String] = t.flatten_mut().into(); s }", "eval_mut_refs": "t.expr_mut().map(|x| x).eval()",
    "zip_mut": "all(t.expr_mut().zip(expr::fill(1usize)))", "rows_mut_eval": "t.rows_mut().eval()",
}
# Mutable parts of a mutable view `w`, borrowed from it rather than consuming it.
SUB = {k: v.replace("t.", "w.").replace("&mut t", "&mut w").replace("*t", "*w")
       for k, v in MUT.items() if "expr_mut()." not in v and k not in ("borrow_mut", "as_mut")}
SUB["expr_mut_view"] = "w.expr_mut().into_view(.., ..)"


def programs():
    """(name, source of the function body with EXPLOIT lines)."""
    out = []

    def add(name, body):
        out.append((name, body))

    for k, e in list(SHARED.items()) + list(MUT.items()):
        add(f"outlives/{k}", f"let mut t = mk2();\nlet v = {e};\n#X drop(t);\nlook(&v);")
        add(f"reassigned/{k}", f"let mut t = mk2();\nlet v = {e};\n#X t = mk2();\nlook(&v);")
    for k, e in SHARED.items():
        add(f"grown/{k}", f"let mut t = mk2();\nlet v = {e};\n#X t.resize(&[64, 5], String::new());\nlook(&v);")
        add(f"written/{k}", f"let mut t = mk2();\nlet v = {e};\n#X let w = t.expr_mut();\n#X disjoint(&w, &v);\nlook(&v);")
    for k, e in MUT.items():
        e = f"{{ let v = {e}; excl(&v); v }}"
        add(f"shared-beside/{k}", f"let mut t = mk2();\nlet v = {e};\n#X let w = t.expr();\n#X disjoint(&v, &w);\nlook(&v);")
        add(f"twice/{k}", f"let mut t = mk2();\nlet v = {e};\n#X let w = {e};\n#X disjoint(&v, &w);\nlook(&v);")
        add(f"from-shared/{k}", f"let mut t0 = mk2();\nlet r = &t0;\n#X let t = r;\n#X let v = {e};\n#X disjoint(&v, &r);\nlook(&r);")
        add(f"from-view/{k}", f"let mut t0 = mk2();\nlet r = t0.expr();\n#X let mut t = t0.expr();\n#X let v = {e};\n#X disjoint(&v, &r);\nlook(&r);")
    for k, e in SUB.items():
        e = f"{{ let v = {e}; excl(&v); v }}"
        add(f"sub-twice/{k}", f"let mut t = mk2();\nlet mut w = t.expr_mut();\nlet v = {e};\n#X let u = {e};\n#X disjoint(&v, &u);\nlook(&v);")
        add(f"sub-beside/{k}", f"let mut t = mk2();\nlet mut w = t.expr_mut();\nlet v = {e};\n#X disjoint(&v, &w);\nlook(&v);")
        add(f"sub-original/{k}", f"let mut t = mk2();\nlet mut w = t.expr_mut();\nlet v = {e};\n#X disjoint(&v, &t);\nlook(&v);")
    # Consuming a mutable view twice, duplicating what is exclusive.
    for k, e, n in [("view", "t.expr_mut()", 1), ("lanes", "t.lanes_mut(Const::<0>)", 0), ("axis", "t.axis_expr_mut(1)", 0),
                    ("outer", "t.outer_expr_mut()", 0), ("iter", "t.iter_mut()", 0), ("map", "t.expr_mut().map(|x: &mut String| x)", 0),
                    ("zip", "t.expr_mut().zip(expr::fill(1usize))", 0), ("enumerate", "t.expr_mut().enumerate()", 0),
                    ("lanes_iter", "t.rows_mut().into_iter()", 0)]:
        look = "all(a)" if not n else "a"
        look2 = "all(b)" if not n else "b"
        add(f"cloned/{k}", f"let mut t = mk2();\nlet a = {e};\n#X let b = a.clone();\n#X let (a, b) = ({look}, {look2});\n#X disjoint(&a, &b);\n#N let a = {look};\n#N look(&a);")
        add(f"copied/{k}", f"let mut t = mk2();\nlet a = {e};\n#X let b = a;\n#X let (a, b) = ({look}, {look2});\n#X disjoint(&a, &b);\n#N let a = {look};\n#N look(&a);")
        add(f"clone-copied/{k}", f"let mut t = mk2();\nlet a = {e};\n#X let b = Clone::clone(&a);\n#X let (a, b) = ({look}, {look2});\n#X disjoint(&a, &b);\n#N let a = {look};\n#N look(&a);")
    # Elements moved out twice.
    for k, e in [("drain", "t.drain(1..3)"), ("tensor", "t.into_expr()"), ("tensor_iter", "t.into_iter()"), ("drain_iter", "t.drain(..).into_iter()"),
                 ("map", "t.into_expr().map(|x| x)"), ("zip", "t.into_expr().zip(expr::fill(1usize))")]:
        add(f"moved-twice/{k}", f"let mut t = mk1();\nlet a = {e};\n#X let b = a;\nlet x = all(a);\n#X let y = all(b);\n#X look(&y);\nlook(&x);")
    for k, e in [("drain", "t.drain(1..3)"), ("drain_all", "t.drain(..)")]:
        add(f"drain-cloned/{k}", f"let mut t = mk1();\nlet a = {e};\n#X let b = a.clone();\nlet x = all(a);\n#X let y = all(b);\n#X drop(x);\n#X look(&y);\n#N look(&x);")
        add(f"drain-beside/{k}", f"let mut t = mk1();\nlet a = {e};\n#X let n = t.len();\n#X t.resize(&[1], String::new());\nlet x = all(a);\nlook(&x);\n#X look(&t);")
        add(f"drain-outlives/{k}", f"let mut t = mk1();\nlet a = {e};\n#X drop(t);\nlet x = all(a);\nlook(&x);")
        add(f"drain-twice/{k}", f"let mut t = mk1();\nlet a = {e};\n#X let b = t.drain(1..3);\n#X let y = all(b);\nlet x = all(a);\nlook(&x);\n#X look(&y);")
        add(f"drain-slice/{k}", f"let mut t = mk1();\nlet mut a = {e};\nlet s: &mut Slice<String, (usize,)> = a.as_mut();\n#X let x = all(a);\n#X look(&x);\nlook(&s);")
    add("moved/tensor", "let mut t = mk2();\nlet r = t.expr();\n#X let u = t.into_vec();\n#X drop(u);\nlook(&r);")
    add("moved/expr", "let mut t = mk2();\nlet mut e = t.into_expr();\nlet s: &mut Slice<String, (usize, usize)> = e.as_mut();\n#X drop(e);\nlook(&s);")
    add("moved/expr_shared", "let mut t = mk2();\nlet mut e = t.into_expr();\nlet s: &Slice<String, (usize, usize)> = e.as_ref();\n#X let v = all(e);\n#X drop(v);\nlook(&s);")
    for k, m in [("vec", "into_vec()"), ("shape", "into_shape([20])"), ("flat", "into_flat()"), ("dyn", "into_dyn()"), ("map", "map(|x| x)")]:
        add(f"moved/{k}", f"let mut t = mk2();\nlet r = t.flatten();\n#X let u = t.{m};\n#X drop(u);\nlook(&r);")
        add(f"used-twice/{k}", f"let mut t = mk2();\nlet u = t.{m};\n#X let w = t.{m};\n#X drop(w);\nlook(&u);")
    # Inline arrays.
    for k, e in [("expr", "t.expr()"), ("row", "t.row(1)"), ("iter", "all(t.iter())"), ("rows", "all(t.rows())"), ("index", "&t[[1, 1]]"),
                 ("as_ref", "{ let a: &Array<String, (Const<2>, Const<3>)> = &t; let s: &[[String; 3]; 2] = a.as_ref(); s }"), ("expr_mut", "t.expr_mut()"), ("iter_mut", "all(t.iter_mut())"),
                 ("deref", "&*t"), ("as_mut", "{ let a: &mut Array<String, (Const<2>, Const<3>)> = &mut t; let s: &mut [[String; 3]; 2] = a.as_mut(); s }"), ("borrow", "{ let a: &Array<String, (Const<2>, Const<3>)> = &t; let s: &Slice<String, (Const<2>, Const<3>)> = a.borrow(); s }")]:
        add(f"array-outlives/{k}", f"let mut t = Box::new(mka());\nlet mut t = t;\nlet v = {e};\n#X drop(t);\nlook(&v);")
        add(f"array-reassigned/{k}", f"let mut t = mka();\nlet v = {e};\n#X t = mka();\nlook(&v);")
    # Views of built-in slices, arrays and vectors.
    for k, d, e in [("slice", "vec![\"text\".repeat(30); 6]", "View::from(&t[..])"), ("slice_mut", "vec![\"text\".repeat(30); 6]", "ViewMut::from(&mut t[..])"),
                    ("array", "Box::new([[\"x\".repeat(30), \"y\".repeat(30)], [\"z\".repeat(30), \"w\".repeat(30)]])", "{ let v: DView<String, 2> = View::from(&*t); v }"),
                    ("array_mut", "Box::new([[\"x\".repeat(30), \"y\".repeat(30)], [\"z\".repeat(30), \"w\".repeat(30)]])", "{ let v: DViewMut<String, 2> = ViewMut::from(&mut *t); v }"),
                    ("into_slice", "mk1()", "{ let s: &[String] = t.expr().into(); s }"), ("into_slice_mut", "mk1()", "{ let s: &mut [String] = t.expr_mut().into(); s }"),
                    ("as_ref_slice", "mk1()", "{ let s: &[String] = t.as_ref(); s }"), ("as_mut_slice", "mk1()", "{ let s: &mut [String] = t.as_mut(); s }"),
                    ("macro", "\"x\".repeat(40)", "view![[&t, &t], [&t, &t]].to_tensor()"),
                    ("expr_of_array", "Box::new([\"x\".repeat(30), \"y\".repeat(30)])", "{ let v: DView<String, 1> = (&*t).into(); v }")]:
        add(f"builtin-outlives/{k}", f"let mut t = {d};\nlet v = {e};\n#X drop(t);\nlook(&v);")
        if "mut" in k:
            add(f"builtin-twice/{k}", f"let mut t = {d};\nlet v = {e};\n#X let w = {e};\n#X disjoint(&v, &w);\nlook(&v);")
    # A short lived reference stored in a longer lived place (variance).
    long = "let s0: &'static String = Box::leak(Box::new(String::from(\"long lived\")));\nlet mut t: Tensor<&'static String, (usize, usize)> = Tensor::from_elem([2, 3], s0);\nfn keep(_: &Tensor<&'static String, (usize, usize)>) {}\n"
    for k, sig, use, call in [
        ("view_mut", "v: DViewMut<'_, &'s String, 2>", "let mut v = v; v[[0, 0]] = s;", "t.expr_mut()"),
        ("view_mut_strided", "v: DViewMut<'_, &'s String, 2, Strided>", "let mut v = v; v.fill(s);", "t.view_mut(step(.., 1), step(.., 1))"),
        ("slice", "v: &mut DSlice<&'s String, 2>", "v[[0, 0]] = s;", "&mut *t"),
        ("tensor", "v: &mut DTensor<&'s String, 2>", "v[[0, 0]] = s;", "&mut t"),
        ("lanes_mut", "v: expr::LanesMut<'_, &'s String, (usize, usize), Dense, Rows>", "for mut r in v { r.fill(s) }", "t.rows_mut()"),
        ("axis_mut", "v: expr::AxisExprMut<'_, &'s String, (usize, usize), Dense, Const<0>>", "for mut r in v { r.fill(s) }", "t.outer_expr_mut()"),
        ("iter_mut", "v: expr::Iter<DViewMut<'_, &'s String, 2>>", "for r in v { *r = s }", "t.iter_mut()"),
        ("map_mut", "v: expr::Enumerate<DViewMut<'_, &'s String, 2>>", "for (_, r) in v { *r = s }", "t.expr_mut().enumerate()"),
        ("drain", "v: expr::IntoExpr<expr::Drain<'_, &'s String, (usize, usize)>>", "let mut v = v; { let w: &mut Slice<&'s String, (usize, usize)> = v.as_mut(); w.fill(s); } std::mem::forget(v);", "t.drain(0..0)"),
    ]:
        add(f"variance/{k}", f"fn put<'s>({sig}, s: &'s String) {{ {use} }}\n{long}{{\n    let s = String::from(\"short lived text\").repeat(5);\n#X     put({call}, &s);\n#N     put({call}, s0);\n}}\nkeep(&t);\nlook(&t);")
    # References handed to closures must not escape from them.
    add("closure/from_fn", "let mut kept = Vec::new();\nlet n = { let t = Tensor::<usize, (usize, usize)>::from_fn([3, 4], |i| {\n#X kept.push(i);\n0 }); t.len() };\nkept.push(&[1usize][..]);\nfor i in &kept { look(i); }\n#X if kept.len() > 1 && kept[0] != [0, 0] { eprintln!(\"EXPLOIT: an index changed while a reference to it was alive\"); std::process::exit(57); }")
    add("closure/expr_from_fn", "let mut kept: Vec<&[usize]> = Vec::new();\nexpr::from_fn([3, 4], |i| {\n#X kept.push(i);\n0 }).for_each(|_| ());\nfor i in &kept { look(i); }\n#X if kept.len() > 1 && kept[0] != [0, 0] { eprintln!(\"EXPLOIT: an index changed while a reference to it was alive\"); std::process::exit(57); }")
    # Operations that need an unsafe block.
    add("unsafe/set_mapping", "let mut t = mk1();\nt.reserve(10);\n#X t.set_mapping(DenseMapping::new((10,)));\nlook(&t);")
    add("unsafe/get_unchecked", "let mut t = mk1();\n#X look(&t.get_unchecked(60));\nlook(&t);")
    add("unsafe/get_unchecked_mut", "let mut t = mk1();\n#X look(&t.get_unchecked_mut(60));\nlook(&t);")
    add("unsafe/new_unchecked", "let mut t = mk1();\n#X let v = View::<String, (usize,)>::new_unchecked(t.as_ptr(), DenseMapping::new((60,)));\n#X look(&v);\nlook(&t);")
    add("unsafe/from_raw_parts", "let mut t = mk1();\n#X let u = T1::from_raw_parts(t.as_mut_ptr(), DenseMapping::new((6,)), 6);\n#X drop(u);\nlook(&t);")
    add("unsafe/expr_get_unchecked", "let mut t = mk1();\nlet mut e = t.expr();\n#X look(&e.get_unchecked(60));\nlook(&e);")
    # The unused capacity, which turns into elements or is given back when the tensor changes.
    for k, m in [("dropped", "drop(t);"), ("shrunk", "t.shrink_to_fit();"), ("reassigned", "t = mk1();"), ("moved", "drop(t.into_vec());"),
                 ("grown", "t.resize(&[4000], String::new());"), ("cleared", "t.clear(); t.shrink_to_fit();")]:
        add(f"spare/{k}", f"let mut t = mk1();\nt.reserve(100);\nlet s = t.spare_capacity_mut();\n#X {m}\nfor x in s.iter_mut() {{ std::hint::black_box(x.write(String::new())); }}")
    add("spare/twice", "let mut t = mk1();\nt.reserve(100);\nlet s = t.spare_capacity_mut();\n#X let u = t.spare_capacity_mut();\n#X if !s.is_empty() && s.as_ptr() == u.as_ptr() { eprintln!(\"EXPLOIT: the unused capacity is handed out twice\"); std::process::exit(57); }\ns[0].write(String::new());")
    add("spare/used", "let mut t = mk1();\nt.reserve(100);\nlet s = t.spare_capacity_mut();\n#X let p = s.as_ptr() as usize;\n#X t.resize(&[7], String::new());\n#X if &t[6] as *const String as usize == p { eprintln!(\"EXPLOIT: an element is reachable as unused capacity\"); std::process::exit(57); }\ns[0].write(String::new());")
    add("spare/shared", "let mut t = mk1();\nt.reserve(100);\nlet r = &t;\n#X let s = r.spare_capacity_mut();\n#X drop(t);\n#X s[0].write(String::new());\n#N look(r);")
    # Shapes, mappings and dimensions that are handed out by reference.
    for k, e in [("shape", "t.shape()"), ("mapping", "t.mapping()"), ("dims", "t.dims()"), ("view_dims", "{ let d: &[usize] = t.dims(); d }")]:
        for n, m in [("dropped", "drop(t);"), ("reassigned", "t = mk2().into_dyn();"), ("reshaped", "t = t.into_shape(vec![2, 2, 5]);"), ("cleared", "t.clear();"),
                     ("expanded", "t.clear(); t.expand(Tensor::from_elem([1, 1, 1], String::new()));")]:
            add(f"shape-{n}/{k}", f"let mut t = mk2().into_dyn();\nlet v = {e};\n#X {m}\nstd::hint::black_box(format!(\"{{v:?}}\"));")
    for k, e in [("shape", "v.shape()"), ("mapping", "v.mapping()"), ("dims", "v.dims()"), ("strides", "v.strides()"), ("deref", "&**v")]:
        add(f"view-shape-dropped/{k}", f"let t = mk2();\nlet v = Box::new(t.remap::<DynRank, Strided>());\nlet s = {e};\n#X drop(v);\nstd::hint::black_box(format!(\"{{s:?}}\"));")
        add(f"view-shape-reassigned/{k}", f"let t = mk2();\nlet mut v = Box::new(t.remap::<DynRank, Strided>());\nlet s = {e};\n#X v = Box::new(t.remap());\nstd::hint::black_box(format!(\"{{s:?}}\"));")
    # A slice obtained from a view is borrowed from the view itself, which holds its shape.
    for k, d, e in [("deref", "t.expr()", "&**v"), ("deref_mut", "t.expr_mut()", "&mut **v"), ("as_ref", "t.expr()", "{ let s: &Slice<String, (usize, usize)> = (*v).as_ref(); s }"),
                    ("borrow", "t.expr()", "{ let s: &Slice<String, (usize, usize)> = (*v).borrow(); s }"), ("index", "t.expr()", "&v[1..3]"), ("elem", "t.expr_mut()", "&mut v[[0, 0]]"),
                    ("expr", "t.expr_mut()", "v.expr()"), ("row", "t.expr_mut()", "v.row(0)"), ("iter_mut", "t.expr_mut()", "v.iter_mut()"), ("rows_mut", "t.expr_mut()", "v.rows_mut()")]:
        lk = "look(&s);" if k not in ("iter_mut", "rows_mut") else "look(&all(s));"
        add(f"view-dropped/{k}", f"let mut t = mk2();\nlet mut v = Box::new({d});\nlet s = {e};\n#X drop(v);\n#X drop(t);\n{lk}")
        add(f"view-replaced/{k}", f"let mut t = mk2();\nlet mut u = mk2();\nlet mut v = Box::new({d});\nlet s = {e};\n#X *v = {d.replace('t.', 'u.')};\n#X drop(t);\n{lk}")
    # Expressions that refer to their operands.
    for k, e in [("add", "&t + &u"), ("neg", "-&t"), ("sub_view", "t.expr() - u.expr()"), ("mul_fill", "expr::fill(2i64) * &t"), ("zip_with", "(&t).zip_with(&u, |(a, b)| a + b)"),
                 ("apply", "(&t).apply(|a| a + 1)"), ("cloned", "t.expr().cloned()"), ("copied", "t.expr().copied()"), ("map", "expr::map(&t, |a| a + 1)"), ("enumerate", "t.expr().enumerate().map(|(i, a)| i as i64 + a)"),
                 ("chain", "(&t + &u) * (t.expr() - u.expr())"), ("rows", "t.rows().map(|r| r[0])"), ("outer", "t.outer_expr().map(|r| r[0])"), ("iter", "t.iter().copied()"),
                 ("cols", "t.cols().into_iter().map(|r| r[0])")]:
        d = "let mut t: DTensor<i64, 2> = Tensor::from_fn([40, 50], |i| (i[0] * 50 + i[1]) as i64);\nlet mut u = t.clone();\n"
        add(f"operand-dropped/{k}", f"{d}let e = {e};\n#X drop(t);\nstd::hint::black_box(all(e));")
        add(f"operand-grown/{k}", f"{d}let e = {e};\n#X t.resize(&[400, 50], 1);\nstd::hint::black_box(all(e));")
        add(f"operand-second/{k}", f"{d}let e = {{ let e = {e.replace('t.', 'u.').replace('&t', '&u')}; e }};\n#X drop(u);\nstd::hint::black_box(all(e));")
    add("eval_into/kept", "let t = mk1();\nlet mut u = T1::new();\nlet r = t.expr().cloned().eval_into(&mut u);\n#X drop(u);\nlook(&r);")
    add("eval_into/twice", "let t = mk1();\nlet mut u = T1::new();\nlet r = t.expr().cloned().eval_into(&mut u);\n#X let q = t.expr().cloned().eval_into(&mut u);\n#X disjoint(&r, &q);\nlook(&r);")
    add("eval_into/grown", "let t = mk1();\nlet mut u = T1::new();\nlet r = t.expr().cloned().eval_into(&mut u);\n#X u.resize(&[4000], String::new());\n#X u.shrink_to_fit();\nlook(&r);")
    # Borrows of iterators and expressions by value.
    add("fill/outlives", "let s = Box::new(String::from(\"text\").repeat(9));\nlet e = expr::fill(&*s);\n#X drop(s);\nlook(&all(e));")
    add("from_elem/outlives", "let s = Box::new(String::from(\"text\").repeat(9));\nlet e = expr::from_elem([2, 2], &*s);\n#X drop(s);\nlook(&all(e));")
    add("fill_with/outlives", "let s = Box::new(String::from(\"text\").repeat(9));\nlet e = expr::fill_with(|| &*s).zip(expr::from_elem([2, 2], 1usize));\n#X drop(s);\nlook(&all(e));")
    add("from_fn/outlives", "let s = Box::new(String::from(\"text\").repeat(9));\nlet e = expr::from_fn([2, 2], |_| &*s);\n#X drop(s);\nlook(&all(e));")
    add("tensor-of-refs/outlives", "let s = Box::new(String::from(\"text\").repeat(9));\nlet t = Tensor::from_elem([2, 2], &*s);\n#X drop(s);\nlook(&t);")
    add("extend/outlives", "let s = Box::new(String::from(\"text\").repeat(9));\nlet mut t: Tensor<&String, (usize,)> = Tensor::new();\nt.extend([&*s]);\n#X drop(s);\nlook(&t);")
    # Lifetimes of iterators over expressions of temporaries.
    for k, e in [("rows", "mk2().rows()"), ("iter", "mk2().iter()"), ("expr", "mk2().expr()"), ("view", "mk2().view(.., 1..)"), ("outer", "mk2().outer_expr()"), ("lanes_mut", "mk2().lanes_mut(Const::<0>)")]:
        add(f"temporary/{k}", f"#X let v = {e};\n#X look(&all(v));\n#N look(&all({e}.into_iter()).len());")
    return out


def body(src, exploit):
    ls = []
    for l in src.split("\n"):
        if l.startswith("#X "):
            if exploit:
                ls.append(l[3:])
        elif l.startswith("#N "):
            if not exploit:
                ls.append(l[3:])
        else:
            ls.append(l)
    return "\n    ".join(ls)


def library(env):
    """Builds the library with AddressSanitizer; returns (file, message)."""
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--target", "x86_64-unknown-linux-gnu", "--message-format=json"],
                       cwd=os.path.dirname(os.path.abspath(__file__)), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace")
    for l in p.stdout.splitlines() if p.returncode == 0 else []:
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "mdarray":
            return [f for f in m["filenames"] if f.endswith(".rlib")][0], ""
    return None, p.stderr[-3000:]


def rustc(src, out, rlib, link):
    meta = rlib[:-5] + ".rmeta"
    cmd = ["rustc", "+nightly", "--edition", "2024", "--crate-type", "bin", "--cap-lints", "allow",
           "--extern", "mdarray=" + rlib, *(["--extern", "mdarray=" + meta] if os.path.exists(meta) else []), "-Zsanitizer=address", "--target", "x86_64-unknown-linux-gnu", "-Copt-level=0",
           "--error-format=short", src, "-o", out, "--emit", "link" if link else "metadata"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def run(work, rlib, only=None):
    """Returns (events, violations, samples)."""
    os.makedirs(work, exist_ok=True)
    progs = [p for p in programs() if only is None or p[0] == only]
    ev = {"legal twins accepted": 0, "hostile programs rejected": 0, "hostile programs run": 0, "left out": 0}
    viol, samples = [], []

    def twins(ps, tag):
        src = os.path.join(work, f"twin{tag}.rs")
        with open(src, "w") as f:
            f.write(PRE)
            for i, (n, b) in enumerate(ps):
                f.write(f"\n// {n}\nfn p{i}() {{\n    {body(b, False)}\n}}\n")
            f.write("fn main() {\n" + "".join(f"    p{i}();\n" for i in range(len(ps))) + "}\n")
        return rustc(src, src[:-3] + ".rmeta", rlib, False)

    def good(ps, tag=""):
        if not ps:
            return []
        rc, out = twins(ps, tag)
        if rc == 0:
            return ps
        if len(ps) == 1:
            samples.append(f"{ps[0][0]}: left out, legal twin rejected: {out.strip()[:200]}")
            return []
        h = len(ps) // 2
        return good(ps[:h], tag + "0") + good(ps[h:], tag + "1")

    def one(ip):
        i, (n, b) = ip
        src = os.path.join(work, f"x{i}.rs")
        with open(src, "w") as f:
            f.write(PRE + f"\nfn main() {{\n    {body(b, True)}\n}}\n")
        rc, out = rustc(src, src[:-3] + ".rmeta", rlib, False)
        if rc != 0:
            codes = sorted(set(re.findall(r"error\[(E\d+)\]", out)))
            return n, "rejected", ",".join(codes)
        rc, out = rustc(src, src[:-3], rlib, True)
        if rc != 0:
            return n, "rejected", "link: " + out[-300:]
        try:
            p = subprocess.run([src[:-3]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1", RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            return n, "run", "timeout"
        if p.returncode == 57 or p.returncode == 99 or p.returncode < 0 or "AddressSanitizer" in p.stdout:
            m = re.search(r"(ERROR: AddressSanitizer.*|EXPLOIT: .*)", p.stdout)
            return n, "violation", (m.group(1) if m else p.stdout[-300:])[:400]
        return n, "run", f"exit {p.returncode}"

    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        chunks = [progs[i::8] for i in range(8)]
        ok = [p for r in ex.map(lambda ic: good(ic[1], str(ic[0]) + "_"), list(enumerate(chunks))) for p in r]
        ev["legal twins accepted"] = len(ok)
        ev["left out"] = len(progs) - len(ok)
        for n, what, text in ex.map(one, list(enumerate(ok))):
            if what == "rejected":
                ev["hostile programs rejected"] += 1
                for c in text.split(","):
                    ev["rejected with " + (c or "other")] = ev.get("rejected with " + (c or "other"), 0) + 1
            else:
                ev["hostile programs run"] += 1
                samples.append(f"{n}: accepted, {what}: {text}")
                if what == "violation":
                    viol.append((n, text))
    return ev, viol, samples


if __name__ == "__main__":
    import sys
    env = dict(os.environ, RUSTFLAGS="-Zsanitizer=address", CARGO_TARGET_DIR="/tmp/exploits/target")
    lib, msg = library(env)
    e, v, s = run("/tmp/exploits", lib, sys.argv[1] if len(sys.argv) > 1 else None)
    print(e)
    for x in v:
        print("VIOL", x)
    for x in s:
        print(x)
