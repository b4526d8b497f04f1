#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or [], "hook_needed": None}})

p("C01", "Memory safety of every safe operation",
  "No sequence of safe calls on arrays, tensors, views, expressions and iterators, for any element type (including zero-sized, over-aligned and heap-owning ones), any shape (including empty ones) and any layout, reads or writes memory outside the live elements of the arrays involved, uses freed, moved-out or uninitialised memory, or hands out a mutable reference that aliases another live reference. An operation that cannot be carried out safely must panic or return an error instead. This also holds when user supplied code (clone, drop, closures, iterators) panics in the middle of an operation or when a partially consumed iterator or drain is dropped or leaked.",
  ["programs", "inputs", "fault_sequences"],
  "for every program of safe API calls, over all ranks 0-6 and dynamic rank, all dimension sizes including 0 and 1, dense and strided layouts, all element types and all points at which user code may panic",
  "the tests run a handful of fixed shapes natively, where an out-of-bounds access, aliasing reference or use of uninitialised memory usually goes unnoticed",
  ["src/raw_slice.rs", "src/raw_tensor.rs", "src/tensor.rs", "src/view.rs", "src/slice.rs", "src/expr/iter.rs", "src/expr/sources.rs", "src/expr/into_expr.rs", "src/expr/buffer.rs", "src/mapping.rs", "src/array.rs"],
  [("bounds and shape assertions before every raw pointer offset", "src/view.rs, src/index/*.rs"), ("drop guards around user code", "src/raw_tensor.rs, src/tensor.rs, src/array.rs"), ("mapping/vector length agreement", "src/raw_tensor.rs with_mut_parts")])

p("C02", "Element access returns exactly the addressed element or panics",
  "Indexing an array, tensor or view of any layout with a multidimensional index returns the element stored at that position in row-major order, and indexing with a single integer returns the element at that position of the row-major sequence; reads, writes and the slice-range forms on dense arrays all address the same storage. Any index that is outside the bounds in any dimension, or has the wrong number of components, panics and has no effect. A write through one index changes that element only.",
  ["inputs", "configurations"],
  "for all shapes (static, dynamic, mixed, dynamic rank), layouts (dense, strided, negative strides) and all in-bounds and out-of-bounds indices",
  "tests index a few small arrays at a few positions; off-by-one and stride errors in other ranks, layouts or positions remain invisible",
  ["src/index/slice.rs", "src/mapping.rs", "src/slice.rs"],
  [("bounds checks per dimension", "src/index/slice.rs index/index_mut"), ("offset computation", "src/mapping.rs offset, linear_offset")])

p("C03", "Range and step views select exactly the requested subarray",
  "Taking a (mutable) view or a copied subarray with any combination of integer indices, full ranges, bounded or half-open ranges and stepped ranges (positive or negative step) yields a view whose shape and elements, in order, are exactly the ones selected along each dimension, with integer-indexed dimensions removed; a negative step walks the range from its last element backwards. Views of views compose, empty selections give empty views, and writing through a mutable view changes exactly the selected elements of the underlying array. A range or index that does not fit its dimension, or a zero step, panics.",
  ["inputs", "programs"],
  "for all ranks 1-6, all dimension sizes, all combinations of index kinds per dimension, all range endpoints and steps, and all chains of views of views on dense and strided arrays",
  "the combinations of index kinds, endpoints, steps and view nesting are far more than the few slices the tests take",
  ["src/index/view.rs", "src/index/mod.rs", "src/view.rs", "src/slice.rs"],
  [("per-dimension offset/size/stride computation", "src/index/view.rs dim_index"), ("range normalisation", "src/index/mod.rs range"), ("resulting static layout", "src/index/view.rs Layout/Outer")])

p("C04", "Indexing or splitting along an axis and taking a row, column or diagonal",
  "Indexing along any axis yields the subarray with that axis fixed and removed; splitting along any axis at a position yields two views that together contain every element exactly once, the first holding the positions before the split and the second the rest, and the mutable halves never overlap; a row, a column or a diagonal (above, on or below the main one) of a two-dimensional array yields exactly its elements in order. Axis, index, split position or diagonal outside the valid range, or wrong rank, panics.",
  ["inputs", "configurations"],
  "for all ranks, axes given statically or dynamically, all positions, dense and strided layouts, including empty dimensions",
  "tests use one or two shapes with fixed axes and positions",
  ["src/view.rs", "src/slice.rs", "src/index/axis.rs", "src/mapping.rs"],
  [("axis_at / split_axis_at", "src/view.rs"), ("into_diag, into_row, into_col", "src/view.rs"), ("remove_dim / resize_dim", "src/mapping.rs, src/shape.rs")])

p("C05", "Permuting, reversing, reshaping and flattening preserve the elements",
  "Permuting dimensions yields a view in which the element at a permuted index equals the element at the original index, reversing the dimension order is the permutation that reverses, and an argument that is not a permutation of the dimensions panics. Reshaping or flattening preserves the row-major sequence of elements, infers at most one requested dimension so that the number of elements is unchanged, and panics if the number of elements would change or if a strided layout cannot represent the result; a contiguous array can always be reshaped. Converting a view to another shape type or layout type keeps dimensions and elements and panics if the target type cannot represent them.",
  ["inputs", "configurations"],
  "for all ranks including dynamic rank, all permutations and non-permutations, all factorisations of the length, dense and strided layouts with negative steps",
  "the number of permutations, factorisations and source layouts is unbounded; tests sample a few",
  ["src/mapping.rs", "src/shape.rs", "src/index/permutation.rs", "src/view.rs", "src/slice.rs", "src/tensor.rs"],
  [("permute, reorder, reshape, remap", "src/mapping.rs"), ("Shape::reshape with inferred dimension", "src/shape.rs"), ("static layout after permutation", "src/index/permutation.rs")])

p("C06", "Iteration visits every element exactly once in row-major order",
  "Iterating over an array, tensor, view or expression by reference, by mutable reference or by value yields every element exactly once, in row-major order, whatever the layout, and nothing for an empty shape. The reported remaining length is exact at every point of the iteration, internal iteration (fold and for-each style consumers) started at any point agrees with stepping element by element, and once exhausted an iterator keeps returning nothing. A cloned iterator continues from the same position independently.",
  ["inputs", "histories"],
  "for all shapes including zero-sized dimensions in any position, all layouts, and all interleavings of next, size queries, clone, fold and continued calls after exhaustion",
  "tests iterate a few non-empty shapes to the end once; empty inner or outer dimensions, partially consumed folds and calls after exhaustion are not exercised",
  ["src/expr/iter.rs", "src/expr/expression.rs", "src/view.rs", "src/expr/into_expr.rs"],
  [("inner/outer index stepping", "src/expr/iter.rs next, fold, step_outer, size_hint"), ("step_dim/reset_dim of each expression", "src/view.rs, src/expr/*.rs")])

p("C07", "Axis, outer, row, column and lane expressions partition the array",
  "Iterating over the outermost dimension or over any axis yields one subarray per position, in order, equal to the subarray obtained by indexing that axis; iterating over the lanes of an axis (rows and columns included) yields one one-dimensional view along that axis for every combination of the other indices, in row-major order of those indices. The subarrays or lanes are pairwise disjoint, cover every element exactly once, and the mutable forms give write access to exactly those elements. An axis that does not exist for the rank panics.",
  ["inputs", "configurations"],
  "for all ranks, axes (static, dynamic, rows, columns), dimension sizes including 0 and 1, and dense and strided layouts, alone or combined with other expressions by zipping",
  "the existing tests use lanes on small rank-2/3 arrays only; higher ranks and strided inputs take other code paths",
  ["src/expr/sources.rs", "src/slice.rs", "src/index/axis.rs", "src/mapping.rs"],
  [("AxisExpr/Lanes element access and stepping", "src/expr/sources.rs"), ("axis.get / axis.remove", "src/index/axis.rs")])

p("C08", "Expressions evaluate element-wise with correct broadcasting",
  "Any composition of mapping, zipping, enumerating, cloning, copying and generator expressions evaluates, element by element in row-major order, to the value obtained by applying the operations to the operand elements at the same index, where an operand of lower rank is repeated along the missing outer dimensions; the shape of the result is the shape of the operand of highest rank. Every closure is called exactly once per result element, in order, with the right arguments, and evaluating into a new array, appending to an existing one, folding and for-each all see the same sequence. Operands whose inner dimensions differ, or that would have to be repeated but can be consumed only once, panic.",
  ["programs", "inputs"],
  "for all expression trees over arrays, views, fills and generators, all shapes and ranks (static, dynamic and dynamic rank), including broadcasting and empty shapes",
  "the space of expression trees, layouts and broadcast shapes is unbounded, the tests contain a few two-operand examples",
  ["src/expr/adapters.rs", "src/expr/sources.rs", "src/expr/expression.rs", "src/expr/iter.rs", "src/tensor.rs", "src/array.rs"],
  [("Zip shape check and stepping", "src/expr/adapters.rs"), ("FromFn index tracking", "src/expr/sources.rs"), ("clone_into_vec / from_expr", "src/expr/expression.rs, src/tensor.rs, src/array.rs")])

p("C09", "Arithmetic and bit operators are element-wise with correct operand order",
  "Every binary operator, compound assignment and unary operator on any combination of owned arrays, tensors, references, views and expressions computes, for each index, exactly the scalar operator applied to the left and right element in that order, with lower-rank right or left operands broadcast where the operand may be repeated. Compound assignment changes only its left operand and each of its elements once; operators on references leave the operands unchanged. Shapes that do not match panic without having produced a result.",
  ["inputs", "configurations"],
  "for all ten binary operators, ten compound assignments and two unary operators, all operand kinds and layouts, all shapes including broadcasting ones, and non-commutative element types",
  "the tests cover a few operators on a few operand kinds with small integers, where swapped operands or operator mix-ups can go unnoticed",
  ["src/ops.rs", "src/tensor.rs", "src/array.rs", "src/expr/expression.rs"],
  [("impl_binary_op / impl_op_assign / impl_unary_op", "src/ops.rs"), ("in-place zip_with", "src/tensor.rs")])

p("C10", "Every element is dropped exactly once",
  "Over any history of constructing, moving, growing, shrinking, draining, converting, mapping, consuming (completely or partially) and dropping arrays, tensors, expressions and iterators, every element value that comes into existence is dropped exactly once: never twice, never while still reachable, and none is leaked. Elements that are moved between containers or out of a container are neither cloned nor dropped on the way. All memory obtained from the allocator is returned with the layout it was requested with.",
  ["histories", "inputs"],
  "for all histories of owning operations on all element types (heap-owning, zero-sized, over-aligned) and all shapes, including partially consumed by-value iteration",
  "double drops and leaks need element-level accounting over many histories; the tests use plain integers and strings",
  ["src/tensor.rs", "src/raw_tensor.rs", "src/array.rs", "src/expr/into_expr.rs", "src/expr/buffer.rs"],
  [("IntoExpr moves elements out and drops the rest", "src/expr/into_expr.rs"), ("DropGuards, ManuallyDrop", "src/raw_tensor.rs, src/array.rs"), ("RawTensor::drop", "src/raw_tensor.rs")])

p("C11", "Panics in user code leave arrays valid and drop each element at most once",
  "If user supplied code (clone, drop, comparison, closure, generator or iterator) panics at any point during any operation, the panic propagates to the caller, every array involved is afterwards in a usable state whose shape agrees with the elements it holds, no element is dropped twice, and using and dropping the arrays afterwards is safe. Operations that build or transform arrays release the elements they had already produced, so that nothing is leaked by a panic in a constructor, conversion, mapping, operator, resize, append or drain. Elements that an operation did not touch are unchanged if the array still contains them.",
  ["fault_sequences"],
  "for every operation that runs user code and every call index at which that code panics",
  "the tests never let user code panic",
  ["src/tensor.rs", "src/raw_tensor.rs", "src/array.rs", "src/expr/into_expr.rs", "src/expr/buffer.rs", "src/expr/expression.rs"],
  [("DropGuard in with_mut_parts", "src/raw_tensor.rs"), ("DropGuard in copy_dim", "src/raw_tensor.rs"), ("DropGuard in zip_with", "src/tensor.rs"), ("DropGuard in Array::from_expr", "src/array.rs"), ("IntoExpr drop", "src/expr/into_expr.rs")])

p("C12", "Growable tensor operations agree with a plain nested-list model",
  "Resizing keeps every element whose index is inside both the old and the new shape at its index and fills all other positions with the given or generated value, truncating keeps exactly the leading subarrays, clearing empties, appending, expanding and extending add the new elements after the existing ones along the first dimension (an empty tensor adopts the new shape), and none of them changes anything else. After every operation the number of elements equals the product of the dimensions and all observers (shape, length, iteration, indexing, conversion to a vector) agree. Requests that do not fit (mismatching inner dimensions, wrong rank, constant-sized first dimension, overflowing size) panic and leave the tensor a valid array.",
  ["histories", "inputs"],
  "for all histories of mutating operations on tensors of rank 0-6 and dynamic rank with dynamic and constant dimensions",
  "history dependent behaviour; each unit test runs one short fixed sequence",
  ["src/raw_tensor.rs", "src/tensor.rs", "src/shape.rs", "src/mapping.rs"],
  [("resize_with / copy_dim", "src/raw_tensor.rs"), ("expand, append, extend, truncate, clear", "src/tensor.rs")])

p("C13", "Draining removes exactly the range and hands its elements out once",
  "Draining a range along the first dimension yields exactly the elements of that range, in row-major order and with the shape of the removed part, and afterwards the tensor contains exactly the elements before and after the range, in order, with the first dimension reduced accordingly, no matter whether the drained part was consumed completely, partially or not at all. If the drain is leaked, the tensor remains a valid array holding only elements that were not handed out. An invalid range, rank 0 or a constant-sized first dimension panics with the tensor unchanged.",
  ["histories", "inputs"],
  "for all shapes, all ranges in all syntactic forms, every number of consumed elements, and dropping or leaking the drain at that point",
  "the tests drain once and consume everything",
  ["src/expr/buffer.rs", "src/expr/into_expr.rs", "src/tensor.rs"],
  [("Drain::new shrinks first, Drain::drop moves the tail", "src/expr/buffer.rs"), ("IntoExpr index bookkeeping", "src/expr/into_expr.rs")])

p("C14", "Equality, hashing and membership depend only on shape and elements",
  "Two arrays of any kind (array, tensor, slice, view), layout and static or dynamic shape type compare equal if and only if they have the same rank, the same dimensions and equal elements at every index; equality is symmetric and never compares element pairs at different indices. Equal arrays with equal element hashes hash equally, also across kinds and layouts, and borrowed and owned forms hash alike. A membership query returns true if and only if some element in the array, and nothing outside a view, equals the value.",
  ["inputs", "configurations"],
  "for all pairs of arrays over all kinds, layouts and shapes, including empty arrays of different shape and element types with partial equality such as NaN",
  "pairs of layouts and near-equal arrays differing in one position are too many to sample by hand",
  ["src/ops.rs", "src/slice.rs", "src/view.rs", "src/tensor.rs", "src/array.rs"],
  [("compare_dense / compare_strided", "src/ops.rs"), ("Hash for Slice", "src/slice.rs"), ("contains", "src/slice.rs")])

p("C15", "Conversions between array kinds are lossless",
  "Converting between tensors, arrays, nested built-in arrays, vectors, slices, views, flat and reshaped forms, scalars and raw parts keeps all elements in row-major order and the dimensions, and converting back gives the original. A conversion that is only possible for certain dimensions succeeds exactly for those: otherwise the fallible form returns the input unchanged and the other forms panic. Conversions by reference alias the same elements, and conversions by value do not copy the buffer where the buffer is handed over.",
  ["inputs", "configurations"],
  "for all ranks 0-6 with static, dynamic and mixed dimensions, matching and mismatching sizes, all element types",
  "there are dozens of conversion impls generated by macros for each rank; the tests check a few of them on matching sizes",
  ["src/tensor.rs", "src/array.rs", "src/view.rs", "src/slice.rs"],
  [("impl_from_array / impl_try_from_array macros", "src/tensor.rs, src/array.rs, src/view.rs"), ("into_parts / from_parts", "src/raw_tensor.rs"), ("as_ref/as_mut pointer casts", "src/slice.rs, src/array.rs")])

p("C16", "Serialization round-trips and malformed input is rejected cleanly",
  "Serializing an array, tensor or view of any static rank and layout produces the nested sequences of its elements in row-major order with the right lengths, independent of layout, and deserializing them gives an equal array whenever no dimension other than the last is empty. Input whose nesting is ragged, too shallow or too deep, or whose size does not match a constant dimension, is reported as an error: it never panics, never aborts, never allocates out of proportion to the input and never yields an array whose shape disagrees with its elements.",
  ["inputs"],
  "for all arrays of rank 0-6 and for all well-formed and malformed inputs, in self-describing and binary formats, including wrong length hints",
  "malformed input space is unbounded; the tests check one matching round trip per type and a few errors",
  ["src/serde.rs"],
  [("visit_seq dimension checks", "src/serde.rs"), ("serialization through the outer dimension", "src/serde.rs")])

p("C17", "Shapes are consistent: static sizes, lengths and overflow",
  "For every array, view, expression and shape, rank, dimensions, length, emptiness and (for strided views) strides reported by all interfaces agree with each other, with constant-sized dimensions in the type and with the elements actually stored; strides locate each element. Creating a shape or array whose element count overflows, or whose dimensions contradict constant-sized dimensions or the static rank, panics and never yields an undersized array, while shapes with a zero dimension and no overflow are accepted and contain nothing. Default-constructed and empty arrays have length zero and shape comparison, ordering and hashing follow the dimensions.",
  ["inputs", "configurations"],
  "for all static, dynamic and mixed shape types of rank 0-6 and dynamic rank, and all dimension values up to the maximum integer",
  "overflowing and contradictory sizes and the many type-level shape combinations are not sampled by the tests",
  ["src/shape.rs", "src/dim.rs", "src/mapping.rs", "src/expr/sources.rs", "src/tensor.rs"],
  [("checked_len before allocation", "src/shape.rs, src/expr/sources.rs"), ("Const::from_size assertion", "src/dim.rs"), ("stride computation", "src/mapping.rs")])

p("C18", "Sharing across threads is exactly as safe as for the elements",
  "Arrays, tensors, views and iterators can be sent to or shared between threads exactly when this is sound for their element type: mutable views require the elements to be sendable, shared views and references require them to be shareable, and owned arrays follow the elements. Threads that concurrently work on disjoint mutable parts of one array (from splitting, axis or lane iteration) or read shared parts never race, and the final content is what the same operations give sequentially.",
  ["schedules", "configurations"],
  "for all interleavings of threads working on disjoint mutable parts or shared views, and for all element types in the four combinations of sendable/shareable",
  "the tests are single threaded and never check which types may cross threads",
  ["src/view.rs", "src/raw_tensor.rs", "src/raw_slice.rs", "src/slice.rs", "src/expr/sources.rs"],
  [("unsafe impl Send/Sync", "src/view.rs, src/raw_tensor.rs, src/raw_slice.rs, src/slice.rs"), ("disjointness of split/axis/lane views", "src/view.rs, src/expr/sources.rs")])

p("C19", "Debug output shows exactly the nested elements",
  "The debug representation of an array, tensor or view of any layout, in plain and in pretty form and with formatting flags, is the same as that of the nested lists of its elements, with the bare element for rank 0; shapes and expressions print without changing or consuming what they print. Formatting honours errors of the destination by reporting them.",
  ["inputs"],
  "for all ranks, shapes including empty ones, layouts, element types and formatting flags",
  "the tests compare one or two strings",
  ["src/slice.rs", "src/tensor.rs", "src/view.rs", "src/array.rs", "src/expr/sources.rs", "src/expr/adapters.rs", "src/expr/into_expr.rs"],
  [("Debug for Slice through the outer dimension", "src/slice.rs")])

p("C20", "Capacity management keeps its promises",
  "Reserving guarantees room for the requested number of additional elements so that growing (appending, expanding, extending, resizing) along the first dimension within the capacity and any removal do not reallocate (the remaining elements keep their addresses unless they are shifted), shrinking never goes below the length or the requested bound but releases the surplus beyond it, the reported capacity is never less than the length, and none of these changes elements or shape. A failed fallible reservation returns an error and leaves the tensor unchanged and usable, and element-wise operations on an owned tensor reuse its buffer, as do conversions that hand it over, raw parts included. The unused capacity exposed to the user is exactly the space between length and capacity.",
  ["histories", "fault_sequences"],
  "for all histories of growing and shrinking with all sizes, including allocation failures and overflowing requests, and for zero-sized elements",
  "allocation failure and address stability over histories are not exercised by tests",
  ["src/tensor.rs", "src/raw_tensor.rs"],
  [("with_mut_parts writes back pointer and capacity", "src/raw_tensor.rs"), ("zip_with in place", "src/tensor.rs")])

p("C21", "Assignment, fill and copies write every element and nothing else",
  "Assigning an array, view or expression to a (sub)array, filling with a value or generator, and cloning into an existing array set every element of the target to the corresponding source element, broadcasting lower-rank sources, and change nothing outside the target. Owned copies of arrays and views have the same shape and elements, are independent of the source, and leave the source unchanged. A source whose shape does not fit panics.",
  ["inputs"],
  "for all pairs of target and source layouts, shapes including broadcasting and empty ones, and both cloned and moved sources",
  "tests assign a few dense arrays of equal shape",
  ["src/slice.rs", "src/tensor.rs", "src/array.rs", "src/traits.rs", "src/view.rs"],
  [("assign through zip", "src/slice.rs"), ("clone_from / clone_from_slice / clone_into", "src/tensor.rs, src/array.rs, src/raw_tensor.rs"), ("IntoCloned", "src/traits.rs")])

p("C22", "Array literals build the written nested structure",
  "The literal macros for arrays, tensors and views build, for every nesting depth from one to six, exactly the nested structure that is written: dimensions equal the list lengths and elements are in row-major order, with each element expression evaluated exactly once in the written order. Repeat forms give an array whose dimensions are the written counts, outermost count first, with every element equal to the repeated element. Run-time repeat counts work for tensors, and empty lists and zero counts give empty arrays of the written rank.",
  ["inputs", "programs"],
  "for all nesting depths 1-6, list and repeat forms, constant and run-time counts, and element expressions with side effects",
  "the tests use literals of low rank as inputs but do not vary depth, repeat forms or evaluation order",
  ["src/macros.rs", "src/array.rs", "src/tensor.rs", "src/view.rs"],
  [("array!/tensor!/view! macros", "src/macros.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
