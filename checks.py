"""Properties, their checks and bounds. gen.py writes properties.jsonl and MANIFEST.json from this file."""
CONFIGS = {"row": {"dir": "harness"}, "par": {"dir": "harness_par", "rustflags": "--cfg rstsr_verif"}}

L = "rstsr-common/src/layout/"
PROPS = {}


def prop(pid, title, statement, why, files, mech, jobs, bounds, outside="", over=("inputs",), qtext="", level_note="", assumptions=()):
    PROPS[pid] = dict(title=title, statement=statement, why=why, files=files, mech=mech, jobs=jobs, bounds=bounds, outside=outside,
                      over=list(over), qtext=qtext, level_note=level_note, assumptions=list(assumptions))


def J(spec, reach=(1,), **kw):
    """'entry[:shards[:depth]]'"""
    p = spec.split(":")
    d = dict(entry=p[0], reach=list(reach))
    if len(p) > 1:
        d["shards"] = int(p[1])
    if len(p) > 2:
        d["depth"] = int(p[2])
    d.update(kw)
    return d


prop("P01", "Basic slicing selects exactly the elements Python slicing selects",
     "Slicing an axis with any start, stop and step (omitted, negative or far out of range) yields the elements, in the order, that Python's slice rules yield, and only a zero step is an error. Mixed index expressions of slices, integers, new axes and one ellipsis compose axis by axis, and an invalid expression is an error, never a wrong view.",
     "The slice parameters range over 64-bit integers and any extent; the tests use a dozen hand-picked slices and none with a negative step running past the front.",
     [L + "indexer.rs", L + "slice.rs", "rstsr-core/src/tensor/indexing.rs"],
     [("dim_narrow", L + "indexer.rs"), ("dim_slice", L + "indexer.rs")],
     [J("h_slice_range:8:3", [1, 2]), J("h_slice_step:4:2", [1, 2], tshards=16), J("h_slice_mixed:8:3", [1, 2], weight=5, tshards=24)],
     "one axis: extent 0..2^20 symbolic, start/stop any value in ±2^40 or omitted, step from {omitted, ±1,2,3,-5,0,isize::MIN,isize::MAX}, strides 1 and -3; "
     "extent 0..5, start/stop ±12, step any in ±1000, stride ±50 and offset symbolic; index expressions of up to 3 indexers (slice with symbolic start, reversed slice with symbolic stop, integer, new axis, ellipsis) on 1..3 axes (thorough: extents to 8, 4 indexers)",
     "start/stop beyond ±2^40; more than 4 indexers")
prop("P02", "Integer indexing and axis numbers resolve correctly or are rejected",
     "An integer index i on an axis of extent n addresses element i (or n+i when negative) and is an error outside [-n, n); an axis number a on an r-dimensional tensor means a (or r+a) and is an error outside [-r, r). Selecting, splitting and element addressing change no other axis.",
     "Every index and axis number, in or out of range, over every shape and stride has to be handled; tests probe single values.",
     [L + "indexer.rs", L + "layoutbase.rs", "rstsr-common/src/axis_index.rs"],
     [("dim_select", L + "indexer.rs"), ("index_f", L + "layoutbase.rs"), ("dim_split_at / dim_split_axes", L + "indexer.rs")],
     [J("h_select1", [1, 2]), J("h_select2", [1, 2]), J("h_select3:4:2", [1, 2, 3]), J("h_index1", [1, 2]), J("h_index2:2:1", [1, 2]), J("h_index3:4:2", [1, 2]), J("h_split", [1, 2]), J("h_split_axes:2:1", [1, 2])],
     "ranks 1..3; extents 0..1000 and indices ±2^40 symbolic; select: strides from {3,-1500,2000000}, offsets symbolic; element addressing: strides ±1000 symbolic, 0..rank+1 indices; axis lists up to 3 entries each in ±5",
     "ranks above 3")
prop("P03", "Axis permutations are exact, reversible and validated",
     "Transposing, swapping and reversing axes give a view whose element at the permuted index is the original element; permuting back restores the tensor, and an axis list that is not a permutation is an error.",
     "All permutations with all spellings (negative axes) over all strides; tests check a few.",
     [L + "layoutbase.rs", "rstsr-core/src/tensor/manipulation/transpose.rs", "rstsr-common/src/axis_index.rs"],
     [("Layout::transpose, swapaxes, reverse_axes", L + "layoutbase.rs"), ("normalize_axes_index", "rstsr-common/src/axis_index.rs")],
     [J("h_perm1", [1, 2]), J("h_perm2", [1, 2]), J("h_perm3:4:2", [1, 2]), J("h_swap2", [1, 2]), J("h_swap4:2:1", [1, 2])],
     "ranks 1..3 (swap: 2 and 4); axis lists of any length up to rank+1 with each entry any value in ±(rank+2); extents and strides symbolic",
     "ranks above 4")
prop("P04", "Broadcasting follows the NumPy rule and never mixes elements",
     "Two shapes broadcast to their NumPy common shape or are rejected; in the broadcast view the element at any index is the source element with the index of stretched axes ignored, and the other operand's axes are unchanged.",
     "Holds for all extent combinations including 0 and 1 and all strides.",
     [L + "broadcast.rs", "rstsr-core/src/tensor/manipulation/broadcast.rs"],
     [("broadcast_shape, broadcast_layout, update_layout_by_shape", L + "broadcast.rs")],
     [J("h_bc_row:2:1", [1, 2]), J("h_bc_col:2:1", [1, 2]), J("h_bc_first", [1, 2]), J("h_bc_elem")],
     "ranks 0..3 on both sides, extents symbolic, strides symbolic; row-major rule, column-major rule and broadcast-to-first",
     "ranks above 3")
prop("P05", "Reshaping keeps the element order and rejects size mismatches",
     "A reshaped view enumerates the same elements in the same row-major (or column-major) order as its source; a layout whose elements allow a view is never refused one when contiguous, a size mismatch is an error, and a -1 extent is inferred or rejected without panicking.",
     "Whether axes merge depends on the strides; wrong merges show only for particular stride combinations.",
     [L + "reshape.rs", "rstsr-core/src/tensor/manipulation/reshape.rs"],
     [("layout_reshapeable, attempt_nocopy_reshape, reshape_substitute_negatives", L + "reshape.rs")],
     [J("h_reshape_row:4:2", [1, 2], tshards=16), J("h_reshape_col:4:2", [1, 2], tshards=16), J("h_reshape_neg:4:2", [1, 2]), J("h_reshape_size", [1, 2, 3])],
     "all pairs of listed shapes of 0,1,4,6,8,12 (thorough: 24) elements up to rank 3 (4), every stride in ±1000 and the offset symbolic, both orders; size check with extents to 100 symbolic and overflowing products; -1 inference for up to 3 extents, first in -3..13 symbolic",
     "sizes above 24; zero-size targets with another extent above 2^61")
prop("P06", "Layout iteration visits each element exactly once, aligned and in order",
     "Iterating a layout row-major or column-major yields every element exactly once in that order, from the front, the back, any mixture and any split, with the right index and remaining length; the other iteration policies yield the same elements in some order. Layouts iterated together always visit the same multi-index at the same step.",
     "Depends on shape, stride signs, broadcast axes, split points and the interleaving of both ends; tests walk a handful.",
     [L + "iterator.rs", L + "rearrangement.rs", "rstsr-core/src/tensor/iterator_elem.rs"],
     [("IterLayoutColMajor/RowMajor, IndexedIterLayout", L + "iterator.rs"), ("greedy_layout, translate_to_col_major*", L + "rearrangement.rs")],
     [J("h_iter0"), J("h_iter1"), J("h_iter2:4:2"), J("h_iter3:4:2"), J("h_iter4:4:2"), J("h_iter5:4:2"), J("h_iterd:4:2"),
      J("h_iter_order1", [1, 2]), J("h_iter_order2:2:2", [1, 2]), J("h_iter_order3:4:3", [1, 2]), J("h_iter_zip1"), J("h_iter_zip2:4:4"), J("h_iter_zip3:8:5", weight=5, tshards=24)],
     "fixed ranks 0..5 and dynamic rank; shapes of up to 16 elements incl. zero extents; strides ±1000 and offset symbolic; every split point, every number of front and back steps followed by alternation; order policies C,F,A,K,G,B with symbolic valid strides ±60 (rank 3: ±20) incl. one broadcast axis; pairs of such layouts",
     "more than 16 elements; ranks above 5")
prop("P07", "Layout predicates, bounds and validity checks are exact",
     "The contiguity predicates hold exactly when the elements lie in that order without gaps; new contiguous layouts are so; the reported memory range contains every element and is attained; a layout accepted without broadcast axes never maps two indices to the same element.",
     "Kernels trust these predicates to index raw memory, for every shape and stride.",
     [L + "layoutbase.rs", L + "shape.rs"],
     [("c_contig, f_contig, bounds_index, check_strides", L + "layoutbase.rs"), ("stride_c_contig, stride_f_contig", L + "shape.rs")],
     [J("h_contig1", [1, 2]), J("h_contig2", [1, 2]), J("h_contig3:4:2", [1, 2]), J("h_newcontig"), J("h_bounds1", [1, 2, 3]), J("h_bounds2", [1, 2, 3]), J("h_bounds3:4:2", [1, 2, 3]),
      J("h_inject1", [1, 2]), J("h_inject2", [1, 2]), J("h_inject3:4:3", [1, 2]), J("h_layout_eq", [1, 2])],
     "ranks 1..3 (new layouts 0..4); contiguity: extents 0..4/3/2 (thorough 4/4/3), strides ±100 symbolic; bounds: extents to 2^20 and offset to 2^40 symbolic, strides from {1,-3,1000,0,-50000}; injectivity: extents to 4/3/2 (3), strides ±200 symbolic",
     "strides symbolic together with large extents")
prop("P08", "Inserting and removing unit axes and taking diagonals address the right elements",
     "Element i of a diagonal with offset k is A[i+max(-k,0), i+max(k,0)] and the diagonal is as long as the overlap, for every offset and extents; inserting or removing an axis of extent one changes no element, and invalid axes are errors.",
     "Every offset against every rectangular shape; tests use square or tall samples.",
     [L + "layoutbase.rs", L + "indexer.rs", "rstsr-core/src/tensor/manipulation/expand_dims.rs", "rstsr-core/src/tensor/manipulation/squeeze.rs"],
     [("Layout::diagonal", L + "layoutbase.rs"), ("dim_insert, dim_eliminate", L + "indexer.rs")],
     [J("h_diag2", [1, 2]), J("h_diag3:2:2", [1, 2]), J("h_diag_axes", [1, 2]), J("h_insert", [1, 2]), J("h_eliminate", [1, 2])],
     "diagonals: ranks 2 and 3, extents 0..1000 and offset ±2^30 symbolic, four stride patterns (both signs, broadcast); axis pairs ±6 symbolic; insert/remove: rank 2 and 3, extents and strides symbolic",
     "ranks above 3")

C = "rstsr-core/src/"
N = "rstsr-native-impl/src/cpu_serial/"
prop("P09", "Element-wise operations compute each result from the matching elements",
     "Element i of a binary arithmetic or comparison result is the operation applied to the broadcast elements i of the operands, in operand order, whatever the memory layouts, ownership or scalar operands; the result has the broadcast shape, the operands keep their values, and incompatible shapes are an error.",
     "The kernel chosen and the order of traversal depend on both layouts; tests use contiguous operands almost always.",
     [C + "tensor/operators/op_binary_arithmetic.rs", C + "tensor/operators/op_binary_common.rs", C + "tensor/operators/op_with_func.rs", N + "op_with_func.rs"],
     [("sub_f / add_f / mul_f and operator impls", C + "tensor/operators/op_binary_arithmetic.rs"), ("op_mutc_refa_refb_func_cpu_serial", N + "op_with_func.rs")],
     [J("h_binop:8:3", [1, 2]), J("h_binop_sym:8:3", weight=2), J("h_scalar:4:2"), J("h_ops:4:2"), J("h_cmp:8:3")],
     "shape pairs of up to 34 elements (rank 0..3, incl. empty, broadcast, incompatible, contiguous runs above the kernel's switch of 16); seven layout patterns per operand (row/column-major, reversed, gapped, permuted, broadcast) and small shapes with symbolic strides and offset; element values symbolic; views, owned (buffer-reusing) and scalar operands",
     "more than 34 elements; parallel kernels (P13)")
prop("P11", "Reductions combine each element exactly once over the selected axes",
     "Sum, product, min, max, argmin, argmax, any/all, counts, mean, variance, deviation and norm over any set of axes (also negative, reordered, none or all) combine exactly the elements of the reduced axes for each remaining index; repeated or out-of-range axes and empty min/max are errors.",
     "Reduced and kept axes are merged, reordered and chunked after their strides; only some stride and shape combinations show a mistake.",
     [C + "tensor/reduction.rs", C + "device_cpu_serial/reduction.rs", N + "reduction.rs"],
     [("reduce_axes_cpu_serial, reduce_all_cpu_serial", N + "reduction.rs"), ("sum_axes_f etc.", C + "tensor/reduction.rs")],
     [J("h_sum_axes:8:4"), J("h_sum_axes_large:8:4"), J("h_sum_sym:8:3"), J("h_sum_all:4:2"), J("h_axes_err", [1, 2]), J("h_minmax:8:3", [1, 2]), J("h_arg:8:3", [1, 2], weight=2), J("h_bool:4:2"), J("h_count:4:2"), J("h_sum_boxed:4:2"), J("h_stat:4:2")],
     "shapes of up to 132 elements (rank 0..3, thorough 4) in seven layout patterns, small shapes with symbolic strides and offset; every subset of axes in two spellings and orders; three iteration order defaults; symbolic integer values (f64 statistics: integer data, counts that are powers of two so that the exact value is decided); element type with a destructor",
     "floating-point rounding; NaN; parallel kernels (P13)")
prop("P12", "Matrix multiplication computes the product of exactly the addressed matrices",
     "For every pair of operands whose ranks, inner extents and batch extents match under the documented rules, every element of the product is the sum over the inner index of the products of the addressed elements, whatever the strides; `c = alpha a b + beta c` updates exactly the addressed elements of c, reads c only if beta is not zero, and operands or outputs that do not match are errors.",
     "Rank combination, batch broadcasting, layouts and alpha/beta select different code; tests multiply a few contiguous matrices.",
     ["rstsr-common/src/layout/matmul.rs", C + "tensor/linalg/matmul.rs", C + "device_cpu_serial/linalg/matmul.rs", N + "matmul_naive.rs"],
     [("LayoutMatMulConfig", "rstsr-common/src/layout/matmul.rs"), ("gemm_naive_cpu_serial etc.", N + "matmul_naive.rs"), ("matmul_f, matmul_from_f", C + "tensor/linalg/matmul.rs")],
     [J("h_matmul:8:3", [1, 2]), J("h_matmul_fixed:4:2", [1, 2]), J("h_matmul_from:8:3", [1, 2]), J("h_matmul_f64:4:2", [1]), J("h_matmul_sym:4:2", [1])],
     "30 pairs of shapes (rank 0..4, batch axes broadcast on either side, empty extents, mismatches), 24 triples with an output; extents up to 3; seven layout patterns per operand and output, symbolic strides ±3 and offset for one operand; symbolic integer elements, alpha and beta; f64 on integer data",
     "extents above 3 (the naive kernels have no blocking); floating-point rounding; BLAS (P19) and faer kernels")
prop("P10", "Joining and splitting tensors puts every element where NumPy puts it",
     "concat, stack, hstack, vstack place each source element at the documented position of a result of the documented shape, unstack, meshgrid, diag, atleast_Nd return exactly the documented elements, for sources of any strides; sources that do not fit together and axes out of range are errors. Elements of the result are initialised once, also when they own memory.",
     "Each part is written through a computed sub-layout of an uninitialised result; a wrong offset only shows for particular axes, ranks and part sizes.",
     [C + "tensor/creation_from_tensor.rs", C + "tensor/manipulation/expand_dims.rs"],
     [("concat_f, stack_f, unstack_f, meshgrid_f, diag_f", C + "tensor/creation_from_tensor.rs")],
     [J("h_concat:4:3", [1, 2]), J("h_stack:4:3", [1, 2]), J("h_hvstack:4:3", [1, 2]), J("h_unstack:2:2", [1, 2]), J("h_meshgrid:4:2", [1, 2]), J("h_diag:4:3", [1, 2, 3]), J("h_atleast:2:1"), J("h_join_sym:4:2"), J("h_join_boxed:4:2")],
     "17 sets of up to three shapes (rank 0..3, empty parts, mismatches), every axis in -5..4, one source in each of seven layout patterns; symbolic strides for small sources; symbolic elements; element type with a destructor",
     "more than three sources; ranks above 3")
prop("P14", "Copies and layout conversions keep the content and are independent of the source",
     "Owned, shared, copy-on-write, contiguous, preferred-order, arbitrary-layout and raw-vector conversions return a tensor with the same shape (or the same elements in row-major order) for any source layout, satisfy the layout they promise, never change the source, and never expose or drop uninitialised memory.",
     "Each conversion has a fast path that keeps the buffer when the layout looks right; tests use contiguous tensors, where the fast path is always right.",
     [C + "tensor/ownership_conversion.rs", C + "tensor/asarray.rs", C + "tensor/manipulation/to_contig.rs", C + "tensor/manipulation/to_layout.rs", C + "tensor/manipulation/into_dim.rs", C + "tensor/manipulation/into_compatible_shape.rs"],
     [("into_owned, into_shared, into_cow, into_raw_f, into_vec_f, to_scalar_f", C + "tensor/ownership_conversion.rs"), ("change_layout_f", C + "tensor/manipulation/to_layout.rs"), ("change_contig_f, change_prefer_f", C + "tensor/manipulation/to_contig.rs")],
     [J("h_owned:4:2"), J("h_contig:4:2"), J("h_prefer:4:2"), J("h_asarray:4:2"), J("h_layout:4:2", [1, 2]), J("h_layout_boxed:2:1"), J("h_dim:2:1", [1, 2]), J("h_raw:2:2", [1, 2, 3]), J("h_compat:2:1", [1, 2]), J("h_copy_sym:6:3"), J("h_raw_sym:4:2")],
     "12 shapes (rank 0..4, up to 34 elements) in seven layout patterns, small shapes with every stride in ±3 and offset symbolic; target layouts in five patterns; symbolic elements; element type with a destructor",
     "target layouts whose elements overlap without a zero stride (the constructor rejects them)")
prop("P24", "In-place operations write exactly the addressed elements",
     "Assignment, fill and in-place arithmetic through any mutable view write the operation's result to every addressed element and to nothing else; a source that does not broadcast to the destination is an error that changes nothing, and a destination storing several elements in one place is rejected or still ends with each element's own result.",
     "A write past the view corrupts neighbours silently; which memory is touched depends on all strides of destination and source.",
     [C + "tensor/assignment.rs", C + "tensor/operators/op_binary_assign.rs", N + "assignment.rs", N + "op_with_func.rs", C + "tensor/map_elementwise.rs"],
     [("assign_f, fill_f", C + "tensor/assignment.rs"), ("sub_assign_f ...", C + "tensor/operators/op_binary_assign.rs"), ("assign_cpu_serial, fill_cpu_serial", N + "assignment.rs")],
     [J("h_inplace:8:3", [1, 2, 3]), J("h_inplace_sym:8:3", [1, 3], weight=4)],
     "17 destination/source shape pairs (up to 34 elements) in seven layout patterns each; [3] and [2,2] with every stride in ±3 (source ±2) and offset symbolic; eight operations; element values symbolic",
     "more than 34 elements; parallel kernels (P13)")
prop("P25", "vecdot contracts exactly the selected axes and conjugates its first operand",
     "For operands of any layout whose contracted extents match and whose other axes broadcast, every element of vecdot is the sum over the contracted axes of conj(a)*b; the result has the broadcast shape, vecdot_from writes it to exactly the addressed elements of the output, contracting no element gives zero, and axes or shapes that do not match are errors.",
     "The kernel picks one of three loops after which contracted or kept axes are contiguous in all operands; tests reach them with a few layouts.",
     [C + "tensor/linalg/vecdot.rs", N + "vecdot.rs", C + "device_cpu_serial/linalg/vecdot.rs"],
     [("vecdot_naive_cpu_serial", N + "vecdot.rs"), ("vecdot_f, vecdot_from_f", C + "tensor/linalg/vecdot.rs")],
     [J("h_vecdot:8:3", [1, 2]), J("h_vecdot_order:4:3"), J("h_vecdot_sym:4:3"), J("h_vecdot_from:4:3", [1, 2]), J("h_vecdot_axes:4:2", [1, 2]), J("h_vecdot_complex:2:2")],
     "pairs of shapes of rank 1..3 (extents up to 3, one of 66 for the chunked loop) in seven layout patterns each, symbolic strides for one operand, several contracted axes; symbolic integer elements; complex numbers on integer data",
     "floating-point rounding; parallel kernel (P13)")

prop("P15", "Index selection and boolean masks pick exactly the named elements",
     "index_select of a list of indices along an axis gives the tensor whose element at position k of that axis is the source's element at the k-th index (negative indices count from the back, repetitions allowed, all other axes unchanged), bool_select does the same for the positions of true in the mask, and an index out of range, an axis out of range or a mask of the wrong length is an error.",
     "The copy loop is chosen by the contiguity of what follows the axis; indices come from data, so bounds mistakes depend on values no test enumerates.",
     [C + "tensor/adv_indexing.rs", N + "adv_indexing.rs", C + "device_cpu_serial/adv_indexing.rs"],
     [("index_select_cpu_serial", N + "adv_indexing.rs"), ("index_select_f, take_f, bool_select_f", C + "tensor/adv_indexing.rs")],
     [J("h_select:8:3", [1, 2], weight=3), J("h_select_fixed:2:2", [1, 2]), J("h_mask:2:2"), J("h_mask_len:2:2", [1, 2]), J("h_select_sym:4:2"), J("h_select_range:1:1", [1, 2]), J("h_select_boxed:2:1", [1, 2])],
     "shapes of rank 1..3 with extents 0..3 in six layout patterns and with symbolic strides and offset; up to 3 indices, each any value within and one beyond both ends (one entry: any 64-bit value of ±2^40); masks of every content and of wrong lengths; fixed and dynamic rank; elements with a destructor",
     "longer index lists; parallel kernel (P13)")

prop("P16", "Elementwise functions and maps apply their own function once to every element",
     "Every elementwise function (the trigonometric, exponential and rounding families, abs, sign, real, imag, conj, neg, not, square, the floating-point predicates, and the two-operand atan2, copysign, hypot, nextafter, pow, floor_divide, log_add_exp, maximum, minimum) yields a tensor of the operand's (or the broadcast) shape whose element at each index is that function of the element there, the same by reference, by view and in place; map closures are called exactly once for each element, and in-place maps change only addressed elements.",
     "Some forty functions are stamped out of macros with one table line each; layouts, in-place reuse and argument order vary independently of the few values the tests print.",
     [C + "tensor/operators/op_unary_common.rs", C + "tensor/operators/op_unary_arithmetic.rs", C + "tensor/operators/op_binary_common.rs", C + "tensor/map_elementwise.rs", C + "device_cpu_serial/operators", "rstsr-dtype-traits/src", N + "op_with_func.rs"],
     [("op_muta_refb, op_muta (one per function)", C + "device_cpu_serial/operators/op_binary_common.rs"), ("op_mutc_refa_refb (one per function)", C + "device_cpu_serial/operators/op_ternary_common.rs"), ("map*_f, map*_fnmut_f", C + "tensor/map_elementwise.rs")],
     [J("h_float:4:2"), J("h_float_of_int:4:2"), J("h_pred:4:2"), J("h_parts:4:2"), J("h_unary_sym:4:2"), J("h_map:4:2"), J("h_mapb:4:3", [1, 2]), J("h_binary:4:2"), J("h_floor_div:2:1"), J("h_nextafter:2:2")],
     "shapes of rank 0..3 in six layout patterns and with symbolic strides and offset; float elements: every multiple of 1/16 in ±250 (predicates and nextafter: every double), integers symbolic; operand by reference, by view, owned; complex parts",
     "the numerical quality of the platform's mathematical library (its functions are uninterpreted here); half precision; parallel kernels (P13)")

prop("P17", "Creation functions produce the specified shape, values and storage",
     "arange yields exactly the values start + i*step inside the half-open interval, for every integer width, either sign of the step and extreme values, and rejects a zero step; linspace has n values from start to exactly stop (when included), evenly spaced; eye has ones on the k-th diagonal of an (n_rows, n_cols) matrix in either order and for every k; zeros, ones, full, their *_like forms and uninit have the requested shape, order and fill and storage for every element, also for a caller-given layout with any strides and offset; tril and triu keep exactly the elements on the right side of the k-th diagonal, in place writing nothing else.",
     "Counts computed through rounding or overflowing arithmetic, unclamped diagonal bounds and buffers sized by the element count instead of the reach of the layout fail only for unusual arguments, some of them outside the buffer.",
     [C + "tensor/creation.rs", C + "device_cpu_serial/creation.rs", N + "creation.rs", N + "op_tri.rs"],
     [("arange_cpu_serial", N + "creation.rs"), ("linspace_impl", C + "device_cpu_serial/creation.rs"), ("eye_f, full_f, zeros_f, ones_f, tril_f, triu_f", C + "tensor/creation.rs"), ("tril_ix2_cpu_serial, triu_ix2_cpu_serial", N + "op_tri.rs")],
     [J("h_arange_int:8:3", [1, 2]), J("h_arange_float:8:3"), J("h_arange_forms:2:2"), J("h_linspace:8:3", [1, 2]), J("h_eye:2:2"), J("h_fill:4:3", [1, 2]), J("h_like:2:2"), J("h_tri:4:3"), J("h_tri_sym:4:3")],
     "arange: at most 3 (thorough 5) elements, start and stop over the whole range of i8..i64, u8..usize (to i64::MAX) with steps from a list that includes the extremes, and multiples of 1/4 in f64 and f32 with power-of-two steps; linspace: n up to 7 (17), end points multiples of 1/8 in 62.5; eye: up to 3x3, every k; fills: rank 0..3, strides in -4..4 and every offset to 12; triangles: rank 2 and 3, every k, six layout patterns and symbolic strides",
     "values of u64 above i64::MAX and other number types in arange; infinite or NaN arguments; rounding of inexact floating-point steps; random creation")

prop("P18", "Fallible functions report bad arguments as errors and never panic",
     "Every function that returns a Result returns normally for arguments a caller can get wrong: axes that do not exist, are repeated or are missing, tuples and lists of axes in any integer type, too many or repeated indexers, operands of unrelated shapes, reshape targets with several or impossible -1 entries, layouts that do not fit the data, empty lists of tensors and empty tensors; where the request is meaningless the result is Err, where it is meaningful it is Ok.",
     "The `_f` variants exist so that a program survives bad input; a panic, an index underflow or a silently accepted axis appears only for values nobody wrote a test for.",
     [C + "tensor/manipulation", C + "tensor/iterator_axes.rs", L + "axis_index.rs", C + "tensor/creation_from_tensor.rs", C + "tensor/reduction.rs", C + "tensor/asarray.rs", C + "tensor/indexing.rs"],
     [("normalize_axes_index, TryFrom for AxesIndex", L + "axis_index.rs"), ("*_f functions", C + "tensor/manipulation"), ("asarray_f", C + "tensor/asarray.rs")],
     [J("h_axes:8:3", weight=3), J("h_axes_from:1:2"), J("h_index:4:3"), J("h_shapes:2:3"), J("h_shapes_join:2:3"), J("h_shapes_mul:2:3"), J("h_reshape:8:3", weight=5), J("h_misc:2:3"), J("h_asarray:1:2")],
     "tensors of rank 0..3 with extents 0..3; axes any 64-bit number or near the valid range, lists of up to two; up to 3 indexers (thorough: 4); reshape targets of rank up to 3 with extents in ±2^20; layouts of rank up to 2 with strides and offset up to 2^40 over 6 elements; axes of stack and concat in -5..5",
     "arguments whose element counts overflow 64 bits; functions of devices other than the serial CPU; memory exhaustion")

prop("P23", "Tensordot axes are turned into the subscripts of exactly that contraction",
     "For a number n, the string has the last n axes of the first and the first n of the second tensor paired; for two lists, the k-th of one with the k-th of the other; exactly the paired axes share a letter, no letter repeats within a tensor, the result keeps the remaining axes of the first and then of the second tensor in order, and lists of different lengths, repeated, or non-existing axes are errors.",
     "Tensor contraction plug-ins evaluate the string blindly: an axis that is dropped from the result without a partner is summed over silently.",
     [L + "tensordot_to_einsum.rs", L + "axes_pair_index.rs", L + "axis_index.rs"],
     [("tensordot_to_einsum_str", L + "tensordot_to_einsum.rs"), ("normalize_axes_index", L + "axis_index.rs")],
     [J("h_pair:2:2"), J("h_pair_sym:1:2"), J("h_num:1:2")],
     "tensors of rank 0..3 (number form 0..4); lists of up to two axes, each any 64-bit number for lists of one; the number of axes any 64-bit number; formatting of the string is executed, not stubbed",
     "more than two explicit pairs; more axes than letters; the contraction itself (external TBLIS)")

prop("P26", "Element and axes iterators visit everything once, from both ends, no aliasing",
     "iter, iter_mut, indexed_iter, indexed_iter_mut and axes_iter with its mutable and indexed variants produce, in the requested order, exactly the elements (or the parts along the given axes, in the given order of axes) with the index they are reported under; any history of taking from the front and the back and any split gives the same parts, lengths are exact, and mutable iterators never hand out two references to one element (broadcast tensors are rejected).",
     "Unsafe code re-derives layouts for every part; a wrong index from the back or two &mut to one element depends on layout, order and history of calls.",
     [C + "tensor/iterator_axes.rs", C + "tensor/iterator_elem.rs"],
     [("axes_iter*_with_order_f, indexed_axes_iter*_with_order_f", C + "tensor/iterator_axes.rs"), ("iter*_with_order_f, indexed_iter*_with_order_f", C + "tensor/iterator_elem.rs")],
     [J("h_axes:8:3", weight=3), J("h_axes_sym:2:3"), J("h_elem:4:3"), J("h_elem_sym:4:3"), J("h_default:2:3"), J("h_alias:1:2")],
     "tensors of rank 1..3, extents 0..3, five layout patterns or symbolic strides and offset; up to two axes, positive or negative; histories: all from the front, all from the back, alternating, k from the back then the front; all split positions (patterns), middle split (symbolic)",
     "more than two chosen axes; parallel drivers (P13); the lifetime of views returned by axes_iter (unconstrained in the signature)")

prop("P27", "Ownership conversions and packing into arrays keep the elements and the memory",
     "into_owned, to_owned, clone, into_shared, into_cow, the raw and vector exports keep shape and every element for any layout, an owned result has distinct elements, memory of elements is released exactly once and with the size it was allocated with; packing an axis of N contiguous elements into arrays (of a vector with any capacity, a slice, or a tensor of any strides) and unpacking it again keeps every element in place or is an error; a vector allocated uninitialised has memory for all of its elements, for any length.",
     "Vectors are rebuilt from raw parts; a wrong capacity, stride or length corrupts the heap only for spare capacity, unusual strides or huge lengths.",
     [C + "tensor/ownership_conversion.rs", C + "storage/data.rs", C + "tensor/pack_array.rs", L + "pack_array.rs", L + "alloc_vec.rs"],
     [("into_owned, into_shared, into_raw_f, into_vec_f", C + "tensor/ownership_conversion.rs"), ("pack_array_f, unpack_array", L + "pack_array.rs"), ("into_pack_array_f, into_unpack_array_f", C + "tensor/pack_array.rs"), ("uninitialized_vec", L + "alloc_vec.rs")],
     [J("h_pack_vec:1:2"), J("h_pack_tensor:1:2"), J("h_pack_sym:2:2"), J("h_own:1:2"), J("h_own_sym:8:2", weight=2), J("h_own_box:1:2"), J("h_uninit:1:2")],
     "vectors of up to 6 elements with up to 3 spare; arrays of 0..3; tensors of rank 0..3 in seven layout patterns or with symbolic strides (±3, ±4) and offset over buffers of 1..7 and 20 elements; lengths of uninitialised vectors in windows of 2^20 around 2^61 and 2^64 and of 2^60 above 2^40",
     "alignment passed to the deallocator for blocks from the aligned allocator (the crate documents that it relies on the platform here); double drops after a panic")


prop("P13", "Parallel execution gives the serial result for every work split, without races",
     "Every parallel kernel and parallel iterator computes what its serial counterpart computes, whatever the number of threads and however the work is split or stolen: parallel tasks never touch the same memory when one of them writes, every element is visited once and results are combined in element order, also when operations run inside another parallel region or at the same time on shared inputs; a device uses the number of threads it was given and, inside a worker, the pool of that worker.",
     "Work splitting depends on thread count and stealing, and the kernels write through shared pointers; a test sees one schedule and small tests never leave the serial path.",
     [N.replace("serial", "rayon") + f for f in ["transpose.rs", "matmul_naive.rs", "op_with_func.rs", "assignment.rs", "reduction.rs"]] + ["rstsr-common/src/par_iter.rs", C + "feature_rayon/par_iter.rs", C + "feature_rayon/device.rs"],
     [("ParIterRSTSR", "rstsr-common/src/par_iter.rs"), ("orderchange_out_r2c_ix2_cpu_rayon", N.replace("serial", "rayon") + "transpose.rs"), ("gemm_ix2_naive_cpu_rayon, inner_dot_naive_cpu_rayon", N.replace("serial", "rayon") + "matmul_naive.rs"), ("DeviceCpuRayon", C + "feature_rayon/device.rs")],
     [J(x, config="par") for x in ["h_device", "h_dot:4:3"]] + [J("h_gemm:6:3", config="par"), J("h_gemm_sym:6:3", config="par"), J("h_orderchange:6:4", [1, 2], config="par")] + [J(x, config="par") for x in ["h_par_axes:6:3", "h_par_indexed:6:3", "h_par_iter:8:4", "h_par_iter_mut:6:4", "h_threads:12:4"]] + [J("h_threads_sym:12:4", config="par", weight=4)],
     "1..4 threads; joins never stolen, always stolen and run first, or alternating (thorough: six such schedules); shapes of rank 0..3 up to 65 elements, five to seven layout patterns, symbolic strides and offset for one operand; values symbolic; kernel switch sizes lowered under cfg(rstsr_verif) so that every kernel variant runs in parallel. A race is two branches of one join whose footprints overlap with a write; it holds for every schedule of that split",
     "rayon itself (replaced by a sequential stand-in for rayon-core that reports the footprints of both branches of every join); the work splits of other stealing patterns; scopes and broadcasts (not used by the crates); memory orderings (only AtomicPtr loads of pointers that are not modified); f64 matrix products (faer)",
     assumptions=["rayon-core is replaced by /verif/shim/rayon-core: joins run sequentially in either order, `migrated` and thread count drive rayon's own splitting code, which is executed"])

prop("P19", "Packed triangles hold exactly the triangle's elements, unpacking rebuilds them",
     "pack_tril/pack_triu of any batch of square matrices puts element (i, j) of the triangle at its documented place of the packed axis, and unpack_tril/unpack_triu puts it back, filling the other triangle as symmetric, Hermitian, antisymmetric, anti-Hermitian or zero, with no element left unwritten, for any strides, both element orders and batches or matrices without elements; matrices that are not square and lengths that are not triangular numbers are errors.",
     "Four kernels times five symmetries, with contiguous fast paths chosen after strides and order; the tests print results for two shapes.",
     [C + "tensor/operators/op_tri.rs", C + "device_cpu_serial/operators/op_tri.rs", N + "op_tri.rs", N.replace("serial", "rayon") + "op_tri.rs"],
     [("pack_tri_f, unpack_tri_f", C + "tensor/operators/op_tri.rs"), ("pack_tri_cpu_serial, unpack_tri_cpu_serial", N + "op_tri.rs")],
     [J("h_pack:4:3"), J("h_pack_sym:4:3"), J("h_tri_err:2:2", [1, 2, 3, 4]), J("h_unpack:6:4"), J("h_unpack_sym:4:3")],
     "matrices of 0..3 rows (thorough 4) in batches of rank 0..2 (also empty), seven layout patterns or symbolic strides (±3) and offset; i64 for packing, f64 and Complex<f64> with symbolic bits for unpacking; packed lengths 0..16 (thorough 40); row-major and column-major device order",
     "the imaginary part of the diagonal of a Hermitian matrix (kept or conjugated)")

prop("P20", "On a column-major device every operation mirrors the row-major one",
     "On a device whose default order is column-major, broadcasting aligns shapes at the first axis, matrices of a product are the first two axes, tensors are created and filled first axis fastest, and iteration starts with the first axis: binary operations, closures, assignment, in-place updates, matrix products (with alpha and beta), dot products, joins, selections and sums give exactly the row-major result with all axes reversed (operands of a product swapped), for any strides; operands that do not fit are rejected.",
     "Nearly every function branches on the device order; the tests run almost only row-major.",
     [C + "tensor/operators/op_binary_arithmetic.rs", C + "tensor/asarray.rs", C + "tensor/creation.rs", C + "tensor/manipulation/broadcast.rs", L + "matmul.rs", C + "tensor/linalg/vecdot.rs", C + "tensor/iterator_elem.rs"],
     [("broadcast_layout (ColMajor)", L + "broadcast.rs"), ("layout_matmul_dyn_col_major", L + "matmul.rs"), ("into_broadcast_f, broadcast_arrays_f", C + "tensor/manipulation/broadcast.rs"), ("asarray_f", C + "tensor/asarray.rs"), ("iter, indexed_iter, axes_iter_f", C + "tensor/iterator_elem.rs")],
     [J("h_binop:6:3"), J("h_binop_sym:6:3", [1]), J("h_inplace:3:3"), J("h_matmul:4:3"), J("h_matmul_from:3:3"), J("h_vecdot:3:3"), J("h_axis:3:3"), J("h_create:1:2", [1]), J("h_iter:2:3", [1])],
     "the shapes of P09, P12, P24 and P25 reversed (ranks 0..4, extents 0..3, 16, 17), seven layout patterns or symbolic strides (±3) and offset, i64 with symbolic values, three default iteration orders",
     "functions that do not depend on the device order (covered by their own properties)")
prop("P28", "Reshaping keeps the elements in the requested order, copying or not",
     "reshape, into_shape, change_shape and their _with_args forms (order from the device or given, copy forced, forbidden or as needed) return a tensor of the requested shape (one -1 inferred) whose elements in that order are those of the source, for every layout; forced copies do not alias, forbidden copies alias or are an error, owned results are not broadcast, and a shape of another size is an error whatever the arguments.",
     "The view, copy and change-of-order paths depend on strides and arguments together.",
     [C + "tensor/manipulation/reshape.rs"], [("change_shape_with_args_f, reshape_f, into_shape_f, reshapeable_without_copy", C + "tensor/manipulation/reshape.rs"), ("layout_reshapeable", L + "reshape.rs"), ("assign_arbitary_uninit", C + "device_cpu_serial/assignment.rs")],
     [J("h_reshape:6:3", feature="p20"), J("h_reshape_sym:4:3", feature="p20")],
     "sixteen shape pairs (ranks 0..3, also empty and of another size), seven layout patterns or symbolic strides (±3) and offset; row-major and column-major device; order absent, C or F; copy absent, true or false",
     "parallel copies of more than the switch size")

prop("P21", "Mixed element types promote, cast and compare as NumPy specifies",
     "For every pair of element types the promoted type is NumPy's, both operands arrive in it with `as` semantics (also bool and complex), casts and conversion to float give the converted value (saturating, NaN to zero), tensor operations between different types give the operation on the promoted elements, and the helpers used by element-wise operations are right for every value: floor division and remainder (Python signs), sign, abs, absolute difference, min/max, powers, and isclose/allclose with tolerances and NaN handling.",
     "About three hundred type pairs are generated by macros; tests touch a few with small values.",
     ["rstsr-dtype-traits/src/promotion.rs", "rstsr-dtype-traits/src/isclose.rs", "rstsr-dtype-traits/src/ext_num.rs", "rstsr-dtype-traits/src/ext_real.rs"],
     [("DTypePromoteAPI, DTypeCastAPI, DTypeIntoFloatAPI", "rstsr-dtype-traits/src/promotion.rs"), ("isclose", "rstsr-dtype-traits/src/isclose.rs"), ("ExtNum", "rstsr-dtype-traits/src/ext_num.rs"), ("ExtReal", "rstsr-dtype-traits/src/ext_real.rs")],
     [J("h_promote_sym:1:1"), J("h_cast_sym:1:1"), J("h_other_sym:1:1"), J("h_ext_sym:1:1"), J("h_floor_sym:1:1"), J("h_isclose_sym:1:1"), J("h_mixed_sym:1:1")],
     "all pairs of i8..i64, isize, u8..u64, usize, f32, f64, bool, Complex<f32>, Complex<f64> with every bit pattern; helpers for every value of representative types (floor division on bounded integers); isclose on integers and finite values of small magnitude, NaN",
     "half-precision types; overflow of signed abs and abs_diff at the minimum; isclose with infinities; NaN in min and max")
prop("P22", "cdist tabulates the distance between every pair of rows",
     "cdist, serial and parallel, gives at (i, j) the metric of row i of the first and row j of the second table, whatever the strides, offsets, sizes and order of the result (blocks of rows, work splits); each built-in metric follows its SciPy definition, with and without weights, for every layout; tables of different width, of a rank other than two and a wrong number of weights are errors, tables without rows or columns are not.",
     "The repository prints distances but asserts nothing about them.",
     ["rstsr-sci-traits/src/distance/native_impl.rs", "rstsr-sci-traits/src/distance/metric.rs", "rstsr-sci-traits/src/distance/impl_cpu_serial.rs", "rstsr-sci-traits/src/distance/impl_faer.rs"],
     [("cdist_serial, cdist_rayon, cdist_weighted_serial, cdist_weighted_rayon", "rstsr-sci-traits/src/distance/native_impl.rs"), ("MetricDistAPI, MetricDistWeightedAPI", "rstsr-sci-traits/src/distance/metric.rs"), ("CDistAPI", "rstsr-sci-traits/src/distance/impl_faer.rs")],
     [J("h_driver_sym:4:3", [1], config="par"), J("h_batch_sym:4:3", [1], config="par"), J("h_api_serial_sym:3:3", [1], config="par"), J("h_api_parallel_sym:3:3", [1], config="par"), J("h_rank_sym:1:2", [1], config="par"), J("h_bool_sym:4:3", config="par"), J("h_jensen_sym:2:3", config="par"), J("h_complex_sym:2:3", config="par"),
      J("h_cityblock_sym:4:3", config="par"),
      J("h_cityblock_weighted_sym:4:3", config="par"),
      J("h_euclidean_sym:4:3", config="par"),
      J("h_euclidean_weighted_sym:4:3", config="par"),
      J("h_sqeuclidean_sym:4:3", config="par"),
      J("h_sqeuclidean_weighted_sym:4:3", config="par"),
      J("h_chebyshev_sym:4:3", config="par"),
      J("h_chebyshev_weighted_sym:4:3", config="par"),
      J("h_braycurtis_sym:4:3", config="par"),
      J("h_braycurtis_weighted_sym:4:3", config="par"),
      J("h_hamming_sym:4:3", config="par"),
      J("h_hamming_weighted_sym:4:3", config="par"),
      J("h_minkowski_sym:4:3", config="par"),
      J("h_minkowski_weighted_sym:4:3", config="par"),
      J("h_cosine_sym:4:3", config="par"),
      J("h_cosine_weighted_sym:4:3", config="par"),
      J("h_canberra_sym:4:3", config="par"),
      J("h_canberra_weighted_sym:4:3", config="par"),
      J("h_correlation_sym:4:3", config="par"),
      J("h_correlation_weighted_sym:4:3", config="par")],
     "driver: 0..3 rows (1 and 9 with blocks of 8), 0..2 columns, strides -5..5 and offset 60..100 symbolic, both orders, serial and three threads; metrics: 1..2 rows, 1..2 columns, five stride patterns, f64 with integer values in -20..20 (products, sums and comparisons exact; division, sqrt, pow and ln by their terms), weights 0..4, bool tables with 1..3 columns",
     "rounding of inexact sums; f32; Jensen-Shannon for rows whose sum is not four; symbolic weights where they are only added up")

D = "crates-device/rstsr-openblas/src/"
prop("P29", "Matrix products on the BLAS devices are right for every layout",
     "On the OpenBLAS, BLIS, MKL, AOCL and KML devices matmul and matmul_from compute alpha*A*B + beta*C exactly as on the other devices for every combination of operand and output layouts (row-major, column-major, submatrices with an offset, reversed, strided, broadcast), every element type, sizes of 0 and 1, A*A^T recognised as a symmetric product, vectors and batches; every BLAS call has valid arguments and touches only the operands' elements, and elements beside the output are unchanged.",
     "The drivers choose transposition flags, leading dimensions, copies and routine from the strides; the tests of these devices multiply contiguous matrices.",
     [D + "matmul_impl.rs", D + "matmul.rs", "crates-device/rstsr-blis/src/matmul_impl.rs", "crates-device/rstsr-mkl/src/matmul_impl.rs", "crates-device/rstsr-aocl/src/matmul_impl.rs", "crates-device/rstsr-kml/src/matmul_impl.rs"],
     [("gemm_blas_no_conj_f32 .. c64", D + "matmul_impl.rs"), ("syrk_blas_no_conj_f32 .. c64", D + "matmul_impl.rs"), ("DeviceMatMulAPI", D + "matmul.rs")],
     [J("h_gemm:4:3", [1], config="par"), J("h_product:2:2", [1], config="par"), J("h_syrk:2:2", [1], config="par"), J("h_gemm_sym:4:2", [1], config="par"), J("h_batch:2:2", [1], config="par"), J("h_types:2:2", [1], config="par")],
     "matrices with extents 0..3, seven layout patterns for one operand at a time (two for the others) or symbolic strides and offset, alpha 1, 2, beta 0, 1, -3, fixed values for one operand and symbolic ones for the other; f32, f64, Complex<f32>, Complex<f64> and integers (other routine); five device crates",
     "the BLAS libraries (stand-ins written after the BLAS reference, argument checks included); the libraries' own threads; rounding",
     assumptions=["the functions cblas_?gemm, ?syrk, ?herk of the linked library do what the BLAS reference says"])
prop("P30", "BLAS builders and solvers accept every matrix view",
     "GEMM, SYMM/HEMM, TRSM and solve_triangular on the BLAS devices give the product or solution of the matrices they are given, for every layout of each operand (views with an offset, submatrices, transposed, reversed, broadcast), side, triangle, transposition, diagonal kind and device order, in place or with a new result; only the named triangle is read, and only the output's elements are written.",
     "Flags, triangle and side are flipped according to strides and order; the tests use whole contiguous matrices.",
     ["rstsr-blas-traits/src/blas3/gemm.rs", "rstsr-blas-traits/src/blas3/syhemm.rs", "rstsr-blas-traits/src/blas3/trsm.rs", "rstsr-blas-traits/src/util/util_tensor.rs", C + "tensor/tensor2_impl.rs", D + "driver_impl/cblas", "rstsr-linalg-traits/src/ref_impl_blas.rs", "rstsr-linalg-traits/src/blas_impl/solve_triangular.rs"],
     [("GEMM_::run", "rstsr-blas-traits/src/blas3/gemm.rs"), ("SYHEMM_::run", "rstsr-blas-traits/src/blas3/syhemm.rs"), ("TRSM_::run", "rstsr-blas-traits/src/blas3/trsm.rs"), ("ld_row, ld_col", C + "tensor/tensor2_impl.rs"), ("solve_triangular_f", "rstsr-linalg-traits/src/blas_impl/solve_triangular.rs")],
     [J("h_gemm:1:1", [1], config="par"), J("h_symm:1:1", [1], config="par"), J("h_hemm:1:1", [1], config="par"), J("h_trsm:1:1", [1], config="par"), J("h_solve_triangular:1:1", [1], config="par"), J("h_gemm_sym:2:2", [1], config="par"), J("h_trsm_sym:2:2", [1], config="par")],
     "matrices with extents 0..3, six layout patterns for one operand at a time (two for the others), alpha 2, beta 0, 1, -3; fixed values on one device crate with every layout, symbolic right-hand sides and outputs on the other four; symbolic strides (±4) and values for one 2x2 operand at a time; f64, Complex<f64>",
     "the BLAS libraries (stand-ins); LAPACK routines (factorisations, eigenvalues, singular values); rounding",
     assumptions=["the functions cblas_?gemm, ?symm, ?hemm, ?trsm of the linked library do what the BLAS reference says"])

# kernels of the parallel device, with the schedules of P13
for pid, skip in {"P09": (), "P10": (), "P11": ("h_axes_err",), "P12": ("h_matmul_f64",), "P14": (), "P15": (), "P16": (), "P17": ("h_arange_float",), "P19": (), "P20": (), "P28": (), "P24": (), "P25": (), "P27": ()}.items():
    PROPS[pid]["jobs"] = PROPS[pid]["jobs"] + [dict(j, config="par") for j in PROPS[pid]["jobs"] if j["entry"] not in skip]
    PROPS[pid]["bounds"] += "; the same cases on the parallel device (three threads, the schedules of P13, kernel switch sizes lowered by cfg(rstsr_verif))"
    PROPS[pid]["outside"] = "; ".join(x for x in PROPS[pid]["outside"].split("; ") if x != "parallel kernels (P13)")

NOT_APPLICABLE = {}
UNCLAIMED = {}

CHECKS = {pid: {"jobs": p["jobs"], "bounds": p["bounds"], "outside": p["outside"], "assumptions": p["assumptions"]} for pid, p in PROPS.items()}
