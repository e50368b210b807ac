BASE = "Every obligation on every path is discharged by the verifier on IR rebuilt from /repo; trusted: clang's C++ front end and optimiser at -O1, irv, z3/cvc5, models of libstdc++ binaries; allocation never fails, no concurrency. "
prop("C01", "Dyadic rationals behave as the numbers they denote",
     "Comparison of two dyadic rationals k/2^n (<, <=, >, >=, rational equality) is the order of the rational numbers they denote, for every multiplier and every pair of resolutions. Changing resolution, and conversion to a real number, never change the value; rebasing reaches the requested resolution exactly when the value has it, and reduces as far as possible otherwise. Increment, decrement and moving forward change the multiplier by exactly the step.",
     ["inputs"], "all multipliers and resolutions; for rebase all multipliers and resolutions whose result is representable",
     "the tests compare a few small dyadics of equal or near resolution; overflow, sign and far resolutions are never sampled",
     ["intervals/src/dyadic.cpp", "intervals/include/roughpy/intervals/dyadic.h"],
     [("comparison through a common resolution", "intervals/src/dyadic.cpp"), ("Dyadic::rebase", "intervals/src/dyadic.cpp")],
     "proof", BASE + "All contracts are proofs for all 32-bit multipliers (powers of rebase within stated ranges).")
prop("C02", "Dyadic intervals: ends, halves, parents, containment and order",
     "A dyadic interval is exactly [k,k+1)/2^n or (k-1,k]/2^n according to its type, and one made from a real number or a dyadic at a resolution is the one that contains it. Shrinking, expanding, flipping, shifting and advancing give the half, ancestor, sibling and neighbour those names promise, of the same type; containment between dyadic intervals is set inclusion; alignment says exactly whether the interval is the half of its parent that has the parent's included end. Intervals of one type are strictly ordered by included end with the coarser first.",
     ["inputs"], "all multipliers whose neighbours are representable, resolutions in [-40,40], level changes up to 30, both interval types",
     "the tests look at intervals with small non-negative multipliers at one or two resolutions",
     ["intervals/src/dyadic_interval.cpp", "intervals/include/roughpy/intervals/dyadic_interval.h"],
     [("DyadicInterval constructors", "intervals/src/dyadic_interval.cpp"), ("contains_dyadic, aligned, operator<", "intervals/src/dyadic_interval.cpp")],
     "proof", BASE + "Bit-precise integers and IEEE doubles; real arguments in (-1000,1000) at resolutions -6..18.")
prop("C03", "Interval predicates, union and intersection agree with the sets",
     "A real interval is the half-open set its ends and type say: membership, containment of intervals, intersection tests, equality and association are the set-theoretic facts, for every pair of ends including unbounded ones. Union and intersection of intervals of one type have exactly the ends, type and points of the smallest covering interval and of the shared points. A dyadic interval answers the same questions as the real interval with its ends.",
     ["inputs"], "all pairs of doubles as ends (NaN excluded, infinities where stated), all points, both types",
     "boundary coincidences between open and closed ends of two intervals of either type are not sampled by the tests",
     ["intervals/src/interval.cpp", "intervals/src/real_interval.cpp", "intervals/src/intersection_and_union.cpp", "intervals/include/roughpy/intervals/interval.h"],
     [("Interval::contains, intersects_with", "intervals/src/interval.cpp"), ("interval_union, interval_intersection", "intervals/src/intersection_and_union.cpp")],
     "proof", BASE + "IEEE doubles, every bit pattern but NaN; the comparison with dyadic intervals is bounded to resolutions -3..3.")
prop("C04", "Dissection of an interval into dyadic intervals",
     "to_dyadic_intervals gives consecutive dyadic intervals of the requested type, none finer than the tolerance, that cover exactly the interval with its ends rounded to the grid of the tolerance, and are as few as possible: no two neighbours are the halves of one dyadic interval. A dyadic interval no finer than the tolerance is its own dissection.",
     ["inputs"], "every position of the interval up to a million steps from zero with lengths up to 8 steps, ends on and between grid points, both types; all intervals within 16 steps of zero",
     "the tests dissect a handful of right-open intervals near zero; alignment of the two ends decides the path taken",
     ["intervals/src/dyadic_interval.cpp", "intervals/include/roughpy/intervals/dyadic_interval.h"],
     [("to_dyadic_intervals", "intervals/src/dyadic_interval.cpp")],
     "other", "Bounded in the length of the interval in steps of the tolerance (up to 32) and in tolerances, unbounded in position up to a million steps: positions are symbolic, doubles exact IEEE, every obligation discharged on IR rebuilt from /repo. Trusted: clang front end at -O1, irv, z3, libstdc++ models; allocation never fails.")
prop("C05", "Partitions cut an interval into consecutive pieces of its type",
     "The pieces of a partition are consecutive, of the type of the interval, not degenerate, and cover it exactly, so every point lies in exactly one piece. Building from points, inserting a point, refining by midpoints and merging keep exactly the distinct points strictly inside, in order; points outside are refused without effect. Equality and assignment of partitions are those of the interval and its cuts.",
     ["inputs", "histories"], "all doubles as ends and cuts, both types; up to three cuts",
     "tests use evenly spread distinct cuts of [0,1); duplicates, end points, ties between two partitions and disjoint partitions differ",
     ["intervals/src/partition.cpp", "intervals/include/roughpy/intervals/partition.h"],
     [("Partition", "intervals/src/partition.cpp"), ("insert_intermediate, merge", "intervals/src/partition.cpp")],
     "other", "Bounded in the number of cuts (up to three, two extra cuts in merges), unbounded in their values: ends and cuts are symbolic IEEE doubles and every obligation is discharged for all of them, on IR rebuilt from /repo. Trusted: clang front end at -O1, irv, z3, libstdc++ models; allocation never fails.")
prop("C06", "Dyadic segmentation finds the maximal good runs",
     "For a predicate that holds exactly on the subintervals of a set, segment returns, from left to right, the maximal runs of that set within the interval at the resolution of the maximum depth: each whole, none missed, none beyond the interval whatever the predicate says outside, each of the type of the interval. The predicate is asked only about dyadic subdivisions of the interval scaled to it.",
     ["inputs"], "every set of cells at depths 1-4, predicates with arbitrary values outside the interval at depths 2 and 3, both types, two scalings",
     "the repository has no test of segmentation",
     ["intervals/src/segmentation.cpp", "intervals/src/dyadic_searcher.cpp", "intervals/src/scaled_predicate.cpp"],
     [("DyadicSearcher", "intervals/src/dyadic_searcher.cpp"), ("ScaledPredicate", "intervals/src/scaled_predicate.cpp")],
     "other", "Bounded in depth (up to 16 cells); sets symbolic or all enumerated; every obligation discharged on IR rebuilt from /repo with every memory access checked. Trusted: clang front end at -O1, irv, z3, libstdc++ models; allocation never fails.")
prop("C07", "The tensor basis enumerates words by length and then alphabetically",
     "Keys, indices, lengths, letters and the sizes of degrees of a tensor basis agree with the words of the alphabet ordered by length and then letter by letter. The two parents of a word are its first letter and the rest, their child is the word again, and two words have a child exactly when their concatenation fits in the depth. Packing, unpacking, reversing, splitting and joining words lose nothing.",
     ["inputs"], "all keys of 18 shapes (width 1-1000, depth up to 15), all pairs of keys of 11 shapes; words of up to 3 symbolic letters",
     "tests check a few keys of one small basis; index arithmetic depends on powers of the width and on boundaries between degrees",
     ["vendored/libalgebra_lite/tensor_basis.h", "vendored/libalgebra_lite/basis/tensor_basis.cpp", "vendored/libalgebra_lite/basis/unpacked_tensor_word.cpp", "algebra/src/libalgebra_lite_internal/tensor_basis_info.h"],
     [("tensor_basis", "vendored/libalgebra_lite/tensor_basis.h"), ("BasisInfo<TensorBasis>", "algebra/src/libalgebra_lite_internal/tensor_basis_info.h")],
     "other", "Bounded in shape (listed widths and depths), every key symbolic and covered, bit-precise 64-bit arithmetic; every obligation discharged by SMT on IR rebuilt from /repo. Trusted: clang front end at -O1, irv, z3/cvc5, libstdc++ models.")
prop("C08", "The Lie basis is a Hall basis of the free Lie algebra, and sizes agree",
     "The Lie basis of a width and depth has Witt's number of elements in every degree, ordered by degree; each is a letter or the bracket of two earlier ones satisfying the Hall condition, is found again from that pair, and no other pair has a child. The sizes every kind of context reports are those of its bases.",
     ["inputs", "configurations"], "every key of 12 shapes, every pair of keys of 5 shapes, contexts of 6 shapes",
     "tests look at the first few keys at one shape; a wrong Hall condition or size shows only in higher degrees or widths",
     ["vendored/libalgebra_lite/hall_set.h", "vendored/libalgebra_lite/basis/hall_set.cpp", "algebra/src/libalgebra_lite_internal/lie_basis_info.h", "algebra/src/context.cpp", "algebra/src/hall_set_size.cpp"],
     [("hall_set::grow_up", "vendored/libalgebra_lite/basis/hall_set.cpp"), ("ContextBase sizes", "algebra/src/context.cpp")],
     "other", "Bounded in shape: the basis is built by the real code for each listed width and depth and every key checked against an independent construction and Witt's formula, with every memory access checked. Trusted: clang front end at -O1, irv, libstdc++ models.")
ABASE = "Bounded in shape, unbounded in values: width, depth, storage layout and operation are enumerated (width 1-3, depth 0-4), every coefficient is a symbolic exact real, and every obligation (result coefficient = reference polynomial; every memory access in bounds) is discharged for all of them, on IR rebuilt from /repo. Doubles are treated as exact reals, zero tests on generic values as decided generically; the same contracts run natively on random doubles. Trusted: clang front end at -O1, irv, libstdc++ models; allocation never fails. "
prop("C09", "Vector operations on algebra elements are exact for every storage",
     "Addition, subtraction, scalar multiplication and division, their in-place and fused forms, negation, clearing, assignment and comparison of free tensors, shuffle tensors and Lie elements act coefficient by coefficient for every combination of dense and sparse storage, whatever part of the basis is stored, including empty elements and an element used as its own argument; operands other than the target never change.",
     ["inputs"], "all coefficient values; shapes and storage layouts enumerated",
     "tests use dense operands of the same full size at one or two shapes; truncated, gapped, sparse, mixed, aliased and empty operands are what differ",
     ["algebra/include/roughpy/algebra/algebra_base_impl.h", "algebra/include/roughpy/algebra/implementors/algebra_impl.h", "vendored/libalgebra_lite/dense_vector.h", "vendored/libalgebra_lite/sparse_vector.h"],
     [("dense/sparse vector operations", "vendored/libalgebra_lite/dense_vector.h"), ("AlgebraImplementation dispatch between storage types", "algebra/include/roughpy/algebra/implementors/algebra_impl.h")],
     "other", ABASE)
prop("C10", "The free tensor product is the truncated concatenation product",
     "Multiplying free tensors gives, at every word up to the depth, the sum over its deconcatenations of the products of coefficients, and nothing beyond the depth, for every width, depth, storage and alignment of the tiling used inside. The in-place and fused forms (add/sub with scalar pre- and post-multiplication or division) give what their names say, and the unit, zero, associativity and distributivity laws hold.",
     ["inputs"], "all coefficient values; shapes and storage layouts enumerated",
     "tiled and recursive kernels differ by shape and by which operand is short; tests sample a few",
     ["vendored/libalgebra_lite/free_tensor.h", "vendored/libalgebra_lite/tensor_basis.h", "algebra/src/lite_context.h"],
     [("free_tensor_multiplication", "vendored/libalgebra_lite/free_tensor.h")],
     "other", ABASE)
prop("C11", "Tensor exponential, logarithm, fused exponential and antipode",
     "exp of a tensor with no constant term is the truncated power series, log inverts it on group-like elements, and fmexp is multiplication by the exponential. The antipode reverses words with the sign of their length and inverts group-like elements, for every storage.",
     ["inputs"], "all coefficient values; shapes and storage layouts enumerated",
     "tests compare a few numbers at one shape; truncated and sparse operands take other code paths",
     ["vendored/libalgebra_lite/free_tensor.h", "algebra/src/free_tensor.cpp", "algebra/src/lite_context.h"],
     [("exp, log, fmexp, antipode", "vendored/libalgebra_lite/free_tensor.h"), ("FreeTensor interface", "algebra/src/free_tensor.cpp")],
     "other", ABASE)
prop("C12", "Contexts: elements are built, read, converted and cached consistently",
     "Results in a context of given width and depth do not depend on which other contexts were used earlier, in whatever order. Building an element from data puts each value at its key; iteration visits each non-zero term exactly once; operator[] reads or writes exactly one coefficient; conversion to another storage or depth keeps every coefficient both can hold.",
     ["inputs", "histories"], "all coefficient values; orders of use of contexts, shapes, storage layouts and keys enumerated",
     "caches and registries are process-wide, so a single test sees one history; sparse writes and depth changes are rarely exercised",
     ["algebra/src/context.cpp", "algebra/src/lite_context.cpp", "algebra/src/lite_context.h", "vendored/libalgebra_lite/registry.h", "vendored/libalgebra_lite/maps.h"],
     [("get_context and basis/multiplication registries", "algebra/src/context.cpp"), ("construct_impl and convert_impl", "algebra/src/lite_context.h")],
     "other", ABASE)
prop("C13", "Shuffle and half-shuffle products, adjoint, and characters",
     "The shuffle product is commutative, associative and equals the sum over interleavings; the half-shuffle is the part whose first letter comes from the left operand, and off the unit the two halves sum to the shuffle. The adjoint of left multiplication is the transpose of left multiplication for the word pairing, and group-like elements are shuffle characters, for every storage.",
     ["inputs"], "all coefficient values; shapes and storage layouts enumerated",
     "recursions on word halves are exercised by tests at one depth with dense data",
     ["vendored/libalgebra_lite/shuffle_tensor.h", "algebra/src/shuffle_tensor.cpp", "algebra/src/lite_context.h", "algebra/src/lite_context.cpp"],
     [("shuffle and half_shuffle multiplication", "vendored/libalgebra_lite/shuffle_tensor.h"), ("adjoint_to_left_multiply_by", "algebra/src/lite_context.h")],
     "other", ABASE)
prop("C14", "Lie bracket, Lie/tensor maps and Campbell-Baker-Hausdorff",
     "The Lie product is bilinear, antisymmetric and satisfies Jacobi, and equals the commutator after expansion into tensors; lie_to_tensor is a Lie homomorphism and tensor_to_lie its left inverse. cbh of a list equals log of the product of exponentials, in order, in the storage asked for, including empty elements and empty lists.",
     ["inputs"], "all coefficient values; shapes, storage layouts and list lengths enumerated",
     "Hall products are cached and recursive; tests check low degree identities on fixed elements",
     ["vendored/libalgebra_lite/lie.h", "vendored/libalgebra_lite/maps.h", "vendored/libalgebra_lite/hall_set.h", "algebra/src/context.cpp", "algebra/src/lite_context.h"],
     [("lie_multiplication", "vendored/libalgebra_lite/lie.h"), ("maps between Lie and tensor", "vendored/libalgebra_lite/maps.h"), ("Context::cbh", "algebra/src/context.cpp")],
     "other", ABASE)
prop("C15", "Signatures, log signatures and derivatives of streams of increments",
     "The signature of a stream of increments (dense, short or keyed rows) is the product, in order, of the exponentials of its rows read as Lie elements, so concatenated streams multiply; the log signature is its logarithm. The derivative over consecutive intervals follows the product rule and, over one interval, is the derivative of the exponential at the log signature in the direction of the perturbation, for every mix of storages and empty elements.",
     ["inputs"], "all increments and perturbations; shapes, row layouts and numbers of rows and intervals enumerated, with an induction step over the rows",
     "tests compare a few fixed increments and cannot show the identities for all values or the mixed storages",
     ["algebra/src/lite_context.h", "vendored/libalgebra_lite/free_tensor.h", "scalars/src/key_scalar_stream.cpp", "scalars/src/scalar_stream.cpp"],
     [("compute_signature and sig_derivative_impl", "algebra/src/lite_context.h"), ("rows and keys of a stream", "scalars/src/key_scalar_stream.cpp")],
     "other", ABASE)

prop("C16", "Streams of increments: queries, caching, restriction, simplification",
     "At every resolution, the signature of a stream over an interval is the ordered product of the exponentials of its increments in the interval's grid approximation (several at one parameter included), so adjacent intervals multiply. Answers do not depend on earlier queries, their contexts or what was done with their results. A restricted stream answers over the part of the query in the restriction; simplified and piecewise abelian streams are of constant speed in each piece and agree with the original over the pieces.",
     ["inputs", "histories"], "all values of the increments, pieces and perturbations; times, intervals, resolutions, contexts and orders of two queries enumerated",
     "caches make answers depend on histories, and tests query one stream once at one resolution",
     ["streams/src/lie_increment_stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/stream.cpp", "streams/src/stream_base.cpp", "streams/src/piecewise_abelian_stream.cpp"],
     [("LieIncrementStream", "streams/src/lie_increment_stream.cpp"), ("DyadicCachingLayer::log_signature", "streams/src/dyadic_caching_layer.cpp"), ("Stream", "streams/src/stream.cpp"), ("PiecewiseAbelianStream", "streams/src/piecewise_abelian_stream.cpp")],
     "other", ABASE)
prop("C17", "Streams constructed as they are queried, and Brownian streams",
     "At a fixed resolution, whatever was asked for before, the value over an interval is the product of those over its halves, adjacent intervals multiply, and asking again gives the same answer, also after the stream was moved. A Brownian increment over an interval is drawn with mean zero and the length as variance; an interval is divided as a Brownian bridge.",
     ["inputs", "histories"], "all values drawn; sequences of queries, intervals on both sides of zero and resolutions enumerated",
     "the tree of values grows upwards and downwards in the order of the queries; tests ask for the whole interval first",
     ["streams/src/dynamically_constructed_stream.cpp", "streams/include/roughpy/streams/dynamically_constructed_stream.h", "streams/src/brownian_stream.cpp"],
     [("refine_accuracy, expand_root_until_contains, log_signature", "streams/src/dynamically_constructed_stream.cpp"), ("gaussian_increment, compute_child_lie_increments", "streams/src/brownian_stream.cpp")],
     "other", ABASE)
prop("C18", "Scalars of any two types compute as the numbers they hold",
     "Sums, differences, products and quotients of scalars of any two builtin types are those of their numbers in the common type, in place or not, and change no operand; equality, the test for zero, negation and casts are those of the numbers. A scalar that owns its value takes the type an operation needs, one that refers to a number elsewhere changes that number and keeps its type, and constants are not written. Copies are independent, and a moved-from or default scalar is zero and takes whatever it is assigned.",
     ["inputs"], "all values of all pairs of the ten builtin numeric types (overflow of integers excluded), and the ways a scalar may hold its value",
     "the dispatch is over pairs of types, ways of holding the value and operations; the tests use doubles, floats and a few fractions",
     ["scalars/src/scalar.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/comparison.cpp", "scalars/src/scalar/casts.cpp", "scalars/src/scalar/type_promotion.cpp", "scalars/include/roughpy/scalars/packed_scalar_type_ptr.h"],
     [("operators", "scalars/src/scalar/arithmetic.cpp"), ("compute_dest_type", "scalars/src/scalar/type_promotion.cpp"), ("scalar_convert_copy", "scalars/src/scalar/casts.cpp"), ("constructors and assignment", "scalars/src/scalar.cpp")],
     "proof", BASE + "Builtin types only: fractions and polynomials (GMP) are outside the verifier's reach.")
prop("C19", "Arrays of scalars and rows keep their numbers, keys and owners",
     "An array of scalars has the numbers it was made from, in order; new ones hold zeros, and only data that may be written are written. Copies have memory of their own, moves leave nothing behind, conversion to another type converts each number, and whatever an array held before is released exactly once. Keys stay with their numbers, and streams of rows have the rows pushed, in order.",
     ["inputs", "histories"], "arrays of up to three numbers of every builtin type, with symbolic numbers; all the ways of owning, borrowing, copying and moving",
     "ownership modes times operations times types; the tests construct arrays of doubles and read them",
     ["scalars/src/scalar_array.cpp", "scalars/src/key_scalar_array.cpp", "scalars/src/scalar_stream.cpp", "scalars/src/key_scalar_stream.cpp", "scalars/src/scalar_type.cpp", "scalars/src/scalar_helpers/standard_scalar_type.h"],
     [("ScalarArray", "scalars/src/scalar_array.cpp"), ("KeyScalarArray", "scalars/src/key_scalar_array.cpp"), ("ScalarType::convert_copy", "scalars/src/scalar_type.cpp")],
     "other", BASE + "Bounded: arrays of at most three elements, values symbolic; memory errors are obligations.")
prop("C20", "Schemas name the dimensions of streams, and ticks land where named",
     "The dimensions of a stream are those of the variants of its schema's channels, in order: dimension, channel and variant, and label determine one another, and what is out of range or unknown is refused. Inserting under a label that is there changes nothing, channels without a label get one of their own, and a final schema takes no more. Ticks become Lie elements at their parameters, in order, with increments, changes of value and categories in the letters their channel and variant have, by number or by label.",
     ["inputs", "histories"], "all schemas of up to three channels of the kinds there are, all labels of up to six characters, up to three ticks with symbolic values",
     "combinations of channel kinds, positions and ways of naming; the tests have one schema and look at the first channel",
     ["streams/src/schema.cpp", "streams/src/stream_construction_helper.cpp", "streams/include/roughpy/streams/stream_construction_helper.h", "streams/src/channels/categorical_channel.cpp", "streams/src/channels/lead_laggable_channel.cpp", "streams/src/channels/stream_channel.cpp"],
     [("StreamSchema", "streams/src/schema.cpp"), ("StreamConstructionHelper::add_*", "streams/src/stream_construction_helper.cpp"), ("channels", "streams/src/channels/categorical_channel.cpp")],
     "other", BASE + "Bounded in the number of channels and ticks; values and characters symbolic. Parsing of schemas from Python and serialization are outside.")
prop("C21", "Tick streams have the ticks of their granules, in order",
     "The signature of a tick stream over an interval is the ordered product of the exponentials of the ticks whose granules start in it, on either side of zero, whichever of the three ways the stream was made; the log signature is its logarithm. A stream is empty over an interval exactly when no granule starts in it. The same holds through restricted handles and in contexts of smaller depth.",
     ["inputs", "histories"], "thirteen patterns of up to three ticks (repeated, cancelling, at and around zero) with symbolic increments, resolutions and intervals enumerated",
     "the tree of cached products depends on where the ticks lie; the tests have a few positive ticks and compare shapes",
     ["streams/src/tick_stream.cpp", "streams/include/roughpy/streams/tick_stream.h", "streams/src/stream_base.cpp"],
     [("recursive_logsig, smallest_dyadic_containing_all_*", "streams/src/tick_stream.cpp"), ("log_signature_impl, empty", "streams/src/tick_stream.cpp")],
     "other", ABASE)
