#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the text stays easy to edit).
import json, os
A="include/array/array.h"
def P(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None))
L=[]
add=lambda *a,**k:L.append(P(*a,**k))
I=["inputs"]; IC=["inputs","configurations"]; H=["histories","inputs"]; IP=["inputs","programs"]
add("P01","Indexing addresses base + sum((index - min) * stride)",
 "For every shape, whatever mix of compile-time and run-time mins, extents and strides it has, the flat offset of an index tuple is the sum over dimensions of (index - min) * stride, independent of the extents. Indexing an array or array reference, with an index list or an index tuple, const or not, yields exactly the element at the base pointer plus that offset, and the base pointer is the element at the shape's min.",
 IC,"All mins, extents, strides (negative, zero, positive) and indices, for ranks 0-4 and many static/dynamic parameter mixes.",
 "Tests index a few small shapes with hand-picked strides; the claim is over all integer mins/strides/indices.",
 [A],[("dim::flat_offset, shape::operator()/[], array(_ref)::operator()/[]",A)],obs=["return values and element addresses of the public indexing operators"])
add("P02","Interval and dim range predicates and accessors are exact",
 "An interval or dim with min m and extent e contains exactly the indices m..m+e-1: max, setting the max, begin/end iteration, range construction, single-index, sub-interval and whole-shape membership tests and clamping all agree with that set. Two intervals (dims) compare equal exactly when min and extent (and stride) agree, whichever parameters are compile-time constants. Setting a min, extent, max or stride changes only what it names.",
 IC,"All mins, extents and candidate indices/intervals, over static/dynamic parameter mixes.",
 "Tests check a handful of literal intervals; off-by-one and sign errors need particular boundary values.",
 [A],[("interval::*, dim::*, shape::is_in_range, range(), clamp()",A)],obs=["return values"])
add("P03","Flat bounds, size and emptiness describe the addressed elements exactly",
 "For a non-empty resolved shape, the flat min and flat max are the least and greatest flat offsets of any in-range index and the flat extent is their inclusive distance, for strides of any sign. The size is the product of the extents, and a shape is empty exactly when that is zero. The data pointer of an array or reference is its base pointer moved by the flat min, i.e. the lowest addressed element.",
 IC,"All extents, mins and strides of any sign for ranks 0-4.",
 "Tests use few shapes, mostly with positive strides; extremal offsets are quantified over all indices of all shapes.",
 [A],[("shape::flat_min/flat_max/flat_extent/size/empty, array(_ref)::data",A)],obs=["return values"])
add("P04","Compactness, injectivity and subset predicates are sound",
 "A non-empty shape without overlapping dimensions is reported compact exactly when every flat offset between its first and last element is addressed by some index; a shape reported not one-to-one does map two distinct indices to one offset; a shape all of whose indices map to distinct offsets is always reported one-to-one. A shape is reported a subset of another under an offset exactly when its flat offset interval lies within the other's shifted by that offset.",
 I,"All extents and strides within bounds (ranks 1-3), all offsets.",
 "Tests evaluate these on literals only.",
 [A],[("shape::is_compact/is_one_to_one/is_subset_of",A)],obs=["return values"])
add("P05","Automatic stride resolution gives known strides that never overlap",
 "Resolving a shape leaves every already known stride, min and extent unchanged and gives every unknown stride a positive known value. In whatever order known and unknown dimensions appear, no two distinct in-range indices collide afterwards, provided that of any two dimensions with given strides (and extent over 1) one spans no more than the other's stride. When no stride was known the result is compact, innermost dimension first with stride 1, each next stride the product of the previous extents; resolving again changes nothing.",
 IC,"All extents, all known-stride values and all patterns of known/unknown strides for ranks 1-4.",
 "Tests cover a list of literal shapes; overlap depends on arithmetic relations between extents and given strides.",
 [A],[("shape::resolve and the stride search behind it",A)],obs=["strides after resolve(), is_resolved()"])
add("P06","Making a shape compact keeps bounds and yields compact strides",
 "Making a shape compact preserves every dimension's min and extent and keeps compile-time strides; when the only compile-time stride is a single dense (stride 1) dimension or there is none, the result is compact and overlap free with the dense dimension innermost. Fixed dense and default dense shape types have innermost stride 1 and each next stride the product of preceding extents. The bounds of a shape, and bounds of an array, keep all mins and extents while forgetting strides.",
 IC,"All run-time extents/mins, over static/dynamic combinations of dense, fixed and dynamic dims in any position, ranks 0-4.",
 "Tests try a few type combinations; the static stride computation depends on which extents are compile-time constants and on dim position.",
 [A],[("make_compact, fixed_dense_shape, dense_shape, shape::bounds",A)],obs=["resulting shape values and element addresses"])
add("P07","Crops and slices alias the same elements at the same indices",
 "Indexing an array, array reference or shape with a mix of indices, intervals and the keep-all placeholder gives a view without the sliced dimensions whose kept dimensions have exactly the requested bounds and the original strides. Every in-range index of the view addresses the same element as the original indexed with the slice indices put back, for strides and mins of any sign. The original is never copied or modified, and views of views compose.",
 IC,"All mins, extents, strides, slice positions and crop intervals, all index/interval/keep-all patterns for ranks 1-4.",
 "Tests use few literal crops; pointer offsets matter for non-zero mins and odd strides.",
 [A],[("shape/array/array_ref operator() and [] with intervals",A)],obs=["view shape, view base and element addresses"])
add("P08","Splitting an interval covers it exactly with in-range pieces",
 "Splitting a non-empty interval by a run-time factor yields consecutive, non-overlapping pieces of at most that factor whose union is the interval, only the last being shorter; with a compile-time factor no larger than the interval, every piece has exactly that extent, lies in range, they are in increasing order and only the last may overlap its predecessor. The number of pieces reported equals the number iterated and equals the ceiling of extent over factor, and random access to piece n equals the n-th iterated piece. Splitting an empty interval by a run-time factor gives no pieces.",
 IC,"All mins, extents and factors within bounds, for static/dynamic intervals and dims.",
 "Tests iterate a few sizes starting at fixed mins; remainder handling depends on extent modulo factor.",
 [A],[("split(), split iterators",A)],obs=["sequence of intervals, size(), operator[]"])
add("P09","Index loops visit every index exactly once in the documented order",
 "Iterating all indices of a shape calls the function exactly once per in-range index and never out of range: in order with the first dimension innermost by default, or in the nest order given by an explicit loop order permutation with indices passed in dimension order. Empty shapes make no calls and rank-0 shapes exactly one. The index-tuple and index-list forms are equivalent.",
 IC,"All mins and extents within bounds, every permutation up to rank 4, static and dynamic dims, shapes with specialised traversal.",
 "Tests run a few shapes and permutations.",
 [A,"include/array/image.h","include/array/matrix.h"],[("for_each_index, for_all_indices, for_each_index_in_order, shape_traits",A)],obs=["sequence of callback arguments"])
add("P10","Value loops touch every addressed element exactly once",
 "Applying a function to each value of an array or array reference passes each element addressed by an in-range index exactly once and nothing else, whatever the strides (padded, negative, permuted, broadcast) and rank, including shapes whose dimensions are internally merged and shapes with specialised traversal (images, matrices). Empty arrays and null references make no calls.",
 IC,"All extents within bounds and all strides (symbolic), ranks 0-4, static and dynamic dims.",
 "Tests sum a few layouts; dimension reordering/merging depends on arithmetic coincidences between strides and extents.",
 [A,"include/array/image.h","include/array/matrix.h"],[("for_each_value, shape_traits::for_each_value",A)],obs=["addresses passed to the callback"])
add("P11","Copy and move transfer each element at its own index between layouts",
 "Copying or moving between arrays or references of equal rank assigns every in-range element of the destination exactly once from the source element at the same index, for any pair of layouts, mins and strides, with the destination's bounds inside the source's; nothing outside the destination's elements is written. Making a copy, compact copy or move yields an array with the requested shape and (where it propagates on move) allocator holding those elements; moving uses move-assignment and copying never modifies the source.",
 IC,"All strides/mins/extents of both sides within bounds, ranks 0-3, static/dynamic mixes.",
 "Tests copy between a few hand-picked layouts; loop merging depends on stride/extent coincidences on both sides.",
 [A],[("copy, move, make_copy, make_compact_copy, make_move, make_compact_move, copy_shape_traits",A)],obs=["source/destination addresses of element assignments, resulting contents"])
add("P12","Equality compares shapes and every addressed element",
 "Comparing two arrays or references with == is true exactly when their shapes are equal and all corresponding elements are equal, and != is its negation; content equality across different layouts is true exactly when mins and extents agree and all corresponding elements are equal. Padding or other unaddressed memory never influences the result, and comparison with empty operands is safe.",
 IC,"All element values and all shapes/layout pairs within bounds.",
 "Tests compare a few arrays; a single differing element may be at any index of any layout.",
 [A],[("array/array_ref operator==/!=, equal()",A)],obs=["returned booleans"])
add("P13","Fill, generate and index transforms write exactly the right elements",
 "Filling sets every addressed element to the value; generating assigns each element the result of exactly one generator call in value-traversal order; the index transforms set each element to the function of its own index tuple or index list. No other memory is written, for owning arrays and references of any layout.",
 IC,"All extents/strides/mins within bounds and all values.",
 "Tests fill/generate a few dense arrays.",
 [A],[("fill, generate, transform_index, transform_indices",A)],obs=["memory contents after the call"])
add("P14","Transpose and reorder permute dimensions without moving data",
 "Transposing or reordering a shape gives the shape whose i-th dimension is the original's dimension named at position i (dimensions not named by a partial transpose stay in place), with mins, extents, strides and compile-time parameters intact. Transposing or reordering an array or reference gives a view where the permuted index addresses the same element.",
 IC,"All mins/extents/strides and indices; every permutation up to rank 4.",
 "Tests check a few permutations on literals.",
 [A],[("transpose, reorder on shapes, arrays and refs",A)],obs=["shape values, element addresses"])
add("P15","Shape conversion keeps or fills dims and compatibility tests agree",
 "Converting or assigning a shape to another shape type keeps every min, extent and stride; explicit conversion to higher rank appends dims of min 0 and extent 1 and to lower rank drops trailing dims of extent 1. The compatibility predicates are true for a resolved source exactly when every compile-time parameter of the target equals the run-time value, and with debug assertions enabled an incompatible conversion is always diagnosed while a compatible one never is.",
 IC,"All run-time mins/extents/strides against many target types.",
 "Tests try literals for both outcomes on a few types.",
 [A],[("shape/dim/interval converting constructors and assignment, convert_shape, is_compatible, is_explicitly_compatible, debug assertions",A)],obs=["resulting shapes, predicate values, whether the assertion fires"])
add("P16","Element lifetimes balance over any history of array operations",
 "Over any sequence of array constructions, copies, moves, assignments, assigns, reshapes, swaps, clears and destruction, every element object is constructed exactly once before use, never assigned or destroyed while not alive, and destroyed exactly once; after all arrays are gone no element is alive. Only addressed elements of non-empty arrays are ever constructed.",
 H,"All bounded operation histories on several arrays with symbolic extents, layouts and equal/unequal allocators.",
 "Tests run single operations with fixed shapes; imbalances show after particular sequences (moved-from reuse, empty shapes, unequal allocators).",
 [A],[("array allocate/construct/destroy/assign/reshape/swap/clear",A)],obs=["constructor/destructor/assignment events"])
add("P17","Arrays behave as values under copy, move, assignment and swap",
 "A copy (by construction, assignment or assign) has the source's shape and element values in separate storage and leaves the source unchanged; a move gives the destination the source's former shape and values and leaves the source valid: destructible, assignable and reusable. Swap exchanges shapes and contents, assigning a shape and value gives exactly that shape with every element that value, clear gives a default-shaped array, and self-assignment of an array with storage changes nothing.",
 H,"All bounded histories over several arrays, symbolic extents and values, several shape types, equal/unequal allocators.",
 "Tests run fixed short scripts.",
 [A],[("array copy/move constructors, operator=, assign, swap, clear",A)],obs=["shape(), element values, base() distinctness"])
add("P18","Allocators are propagated per traits and memory returned to its source",
 "Every block of memory an array obtains is returned exactly once, with the same size, to an allocator equal to the one it came from, and nothing else is ever returned. Copy construction, copy assignment, move construction, move assignment, swap and allocator-extended constructors use and propagate allocators as the standard allocator traits prescribe (as documented, a move-constructed array gets a default constructed allocator when the allocator does not propagate on move assignment); when allocators may not be exchanged and differ, elements are transferred individually instead of the memory. Stateful allocators given by the caller are the ones used.",
 ["histories","configurations","inputs"],"All bounded histories over allocators with every combination of propagation traits and symbolic allocator identities.",
 "Tests use a custom allocator with few configurations; mismatch needs unequal allocators in particular operations.",
 [A],[("array allocator handling in constructors, operator=, swap, deallocate",A)],obs=["allocate/deallocate calls seen by the allocator, get_allocator()"])
add("P19","Reshape keeps the intersection and the new shape",
 "Reshaping an array gives it exactly the new (resolved) shape, and every index in range of both the old and the new shape keeps its element value; other elements are default constructed. Nothing is read or written outside the two shapes even when they are disjoint or empty, and reshaping to the same shape does nothing.",
 IC,"All old/new mins and extents within bounds, symbolic values, ranks 1-3.",
 "Tests try one or two reshapes.",
 [A],[("array::reshape",A)],obs=["shape and contents after reshape"])
add("P20","Reinterpreting shapes or types keeps the addressed memory",
 "Reinterpreting an array's shape with an offset, setting its shape, or moving it into an array of another shape yields views/arrays whose element at each index is the original memory at base + offset + new flat offset; bad shapes that leave the original's memory are diagnosed by debug assertions and valid ones are accepted. Reinterpreting the element type or constness changes neither address nor shape. Moving into another shape transfers the single allocation, leaving the source safe to destroy.",
 IC,"All shapes/strides/offsets within bounds.",
 "Tests use a zero or a single fixed offset.",
 [A],[("reinterpret, reinterpret_const, reinterpret_shape, set_shape, move_reinterpret_shape",A)],obs=["addresses, allocation events, whether assertions fire"])
add("P21","The automatic-storage allocator hands out its buffer at most once",
 "An automatic-storage allocator serves a request from its internal buffer only if it fits and the buffer is not already in use, otherwise from its base allocator; live blocks never overlap, the buffer is aligned as declared, and each block is returned where it came from, after which the buffer can be reused. Copied, moved and assigned allocators take over the base allocator but never share or inherit the buffer, and two allocators compare equal only if either may free the other's outstanding memory. Arrays using it keep their values through copies, moves and swaps.",
 H,"All bounded sequences of allocate/deallocate/copy/move/compare with symbolic sizes.",
 "Tests cover a few array sizes and single moves.",
 [A],[("auto_allocator",A)],obs=["returned pointers, base allocator calls, comparison results"])
add("P22","The uninitialized allocator only skips default construction",
 "Arrays using an uninitialized allocator perform no writes for default-constructed elements, leaving memory as allocated, but any construction from a value, copy or move writes every element. Allocation, deallocation, propagation and equality behave as the wrapped allocator's, for the standard and the automatic-storage variant.",
 H,"All extents/values within bounds.",
 "Tests check one array.",
 [A],[("uninitialized_allocator, uninitialized_std_allocator, uninitialized_auto_allocator",A)],obs=["memory contents, allocator calls"])
add("P23","Einstein reductions compute the written sum over all index values",
 "An Einstein reduction assigns, adds, subtracts or multiplies into each result element the expression evaluated at every combination of the remaining index values, once each, with operands addressed by their own index lists, whatever layouts, mins or strides the operands have and for repeated, missing and broadcast indices, scalars, pointers, C arrays and callables. The operators +, -, *, /, unary minus, min, max and cast have their usual meaning. The loops nest with the lowest-numbered index innermost, as documented. Elements outside the result's bounds are untouched and the left-hand side is returned.",
 IP,"All element values, extents within bounds, result mins/strides; a family of expressions covering every operator and index pattern.",
 "Tests evaluate a few expressions with fixed sizes and values.",
 ["include/array/ein_reduce.h"],[("ein, ein_reduce, operator templates",  "include/array/ein_reduce.h")],obs=["result elements"])
add("P24","Inferred Einstein result shapes and sums match their operands",
 "The inferred shape of an Einstein sum has, for each result index, the min and extent of the operand dimension carrying that index, in the requested order, with compact strides (for non-empty results); the sum's result equals the initial value plus the expression summed over all other indices. With debug assertions enabled, operands whose bounds disagree on a summed index, or do not contain the result's bounds, are diagnosed and agreeing ones are not.",
 IP,"All operand mins/extents within bounds, element values, several expressions.",
 "Tests check few literal shapes.",
 ["include/array/ein_reduce.h"],[("make_ein_sum, make_ein_reduce_shape, dimension reconciliation","include/array/ein_reduce.h")],obs=["result shape and elements, whether assertions fire"])
add("P25","Z-order traversal visits each index tuple once, along the z-curve",
 "Z-order iteration over a tuple of random access ranges calls the function exactly once for each combination of elements and never with anything else, for any extents including non powers of two, and makes no calls if any range is empty. Visits follow the z-order curve: interleaving the bits of the positions (last range most significant) is strictly increasing from call to call.",
 IC,"All extents (incl. zero) within bounds and all mins, ranks 1-3; intervals, dims and split ranges.",
 "Tests check a few extents and only rank 2/3 locality.",
 ["include/array/z_order.h"],[("for_each_in_z_order, for_all_in_z_order","include/array/z_order.h")],obs=["sequence of callback arguments"])
add("P26","Image crops and channel slices alias the right pixels",
 "Cropping an image gives a view whose bounds are the intersection of the requested window with the image (empty when disjoint), at the original indices or rebased to zero as requested, with all channels, and each pixel of it is the original pixel; the window is allowed to exceed the image on any side. Slicing a channel gives the two-dimensional view of exactly that channel. Chunky and planar shapes have the documented strides.",
 IC,"All image bounds, strides, crop windows, channels within bounds; chunky, planar and generic shapes.",
 "Tests crop one image inside its bounds.",
 ["include/array/image.h"],[("crop, crop_image_shape, slice_channel, image shapes","include/array/image.h")],obs=["view bounds and element addresses"])
add("P27","Example matrix multiplications all equal the naive product",
 "Every matrix multiplication variant in the linear algebra example writes to each element of the result the sum over k of A(i,k)*B(k,j), independent of what the result held before, for every result, inner and operand size including sizes that are not multiples of the tile sizes (the tiled variants require a result at least one tile large).",
 I,"Element values symbolic; matrix sizes up to bounds around the tile sizes.",
 "The example runs one size with random data and compares.",
 ["examples/linear_algebra/matrix.cpp"],[("multiply_* functions","examples/linear_algebra/matrix.cpp")],obs=["result matrix"])
add("P28","The tiled convolution example equals the naive convolution",
 "The tiled convolution with bias and ReLU produces for every output position and channel max(0, bias + sum over kernel and input channels of filter times input), the same as the reference loop nest, for every output size including sizes not divisible by the tile sizes.",
 I,"Element values symbolic; output sizes up to bounds around the tile sizes.",
 "The example runs one size with one data set.",
 ["examples/linear_algebra/conv2d_relu.cpp"],[("conv2d variants","examples/linear_algebra/conv2d_relu.cpp")],obs=["output array"])
add("P29","Rational arithmetic and rounding are exact",
 "The rational numbers of the resampling example represent exact quotients: arithmetic, comparison and conversion agree with exact rational arithmetic for numerators and denominators of either sign (denominators are kept positive), and floor, ceiling and rounding return the greatest integer not above, the least not below and the nearest integer (halves up). Euclidean division and modulus satisfy a = q*b + r with 0 <= r < |b|.",
 I,"All numerators/denominators within bounds.",
 "No unit test exists for it; the example uses a few ratios.",
 ["examples/resample/rational.h"],[("rational<T>, floor, ceil, round, euclidean_div/mod","examples/resample/rational.h")],obs=["return values"])
add("P30","Resampling kernels cover the input and never read outside it",
 "For every positive rational rate and input/output interval, the kernels built by the resampling example cover, for each output position that maps into the input, exactly the input positions of non-zero weight, with the weights normalised and taken at the distance to the mapped position; resampling reads only in-bounds input pixels and sets every output pixel, whatever the image layouts and sizes, to the sum of the input pixels under its horizontal and vertical weights, touching nothing else. The predefined kernels vanish outside their support.",
 I,"All rational rates and interval bounds within small limits.",
 "The example resamples a few images.",
 ["examples/resample/resample.h"],[("build_kernels, resample","examples/resample/resample.h")],obs=["kernel bounds and memory accesses"])
add("P31","Stringification reports min, extent and stride truthfully",
 "The string form of an interval is its half-open range [min, min+extent), of a dim its min, extent and, when known, stride, and of a shape its rank and every dim in order; compile-time and run-time parameters print alike.",
 I,"All mins, extents and strides.",
 "Abseil is not available to the build here, so no test runs.",
 ["absl/absl.h"],[("AbslStringify overloads","absl/absl.h")],obs=["arguments given to the formatter"])
add("P32","Library index arithmetic has no undefined behaviour in range",
 "For shapes whose flat offsets and sizes are representable, no library operation (resolving, indexing, cropping, splitting, iterating, copying, comparing, reshaping, reducing, z-order) performs signed overflow, invalid shifts, division by zero, out-of-bounds or use-after-free access, null dereference or reads of uninitialised memory, or fails one of its own debug assertions, on valid inputs, with the default and the 32-bit index type and with debug assertions on or off.",
 IC,"All in-range inputs within bounds; both index widths; assertions on/off.",
 "Tests run without sanitizers on few inputs.",
 [A,"include/array/ein_reduce.h","include/array/image.h","include/array/z_order.h"],[("all",A)],obs=["sanitizer-style checks inserted by the compiler and the engine's memory model"])
add("P33","Empty arrays and null references are safe everywhere",
 "Arrays that are empty (any extent zero, default constructed, cleared, or moved-from with a shape that can be empty) and references to empty shapes, null or not, can be copied, moved, assigned, compared, iterated, cropped, filled, reshaped and destroyed without touching an element or calling a user function; they report themselves empty, release whatever they allocate and can be given elements again. A cleared or default constructed array has a null base, and views of null references are null and empty.",
 H,"All shapes with at least one zero extent, any mins and strides of either sign, bounded histories.",
 "Tests use the default-constructed array; strides and mins of an empty shape matter for pointer computations.",
 [A],[("array allocate/deallocate/assign, for_each_value, copy on empty shapes",A)],obs=["callbacks, allocator calls, base()"])
add("P34","Traversals follow the traits of the shape type",
 "The order in which index loops without an explicit loop order, index transforms, value loops, fill and generate visit an array or reference is the one defined by shape_traits of its shape type, also when a user specialises those traits; copies and moves between two shape types go through copy_shape_traits of exactly that pair. A specialisation that visits every index once gives the same contents, equality and construction as the default one.",
 I,"All mins, strides and extents within bounds, for user-specialised traits with an order unlike the default.",
 "No test specialises the traits for a shape of its own.",
 [A],[("shape_traits, copy_shape_traits, for_each_index, for_each_value, generate, transform_index, copy, move",A)],obs=["the sequence of callbacks and of addresses passed to them"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in L:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(L))
