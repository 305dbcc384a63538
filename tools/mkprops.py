#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public API return values"], hook_needed=None)))
IN = ["inputs"]; IC = ["inputs", "configurations"]
CFG = " Both an optimised build without debug assertions for the baseline x86_64 target and a checked build for AVX2 are explored."
WHYS = "The unit tests use splats or one hand-picked vector per type, in a debug build for the baseline CPU; "

prop("C01", "Lane access: new, splat, default, extract and replace address the right lane",
 "For every vector type (integer, float, mask, pointer), a vector built from N lane values returns exactly lane i from extract(i), splat gives that value in every lane, default gives zero/false/null lanes, and replace(i, x) changes lane i and nothing else, bit for bit. extract and replace panic for every index >= lanes(), in release builds too, and the _unchecked forms agree with the checked ones for every valid index. lanes() and the LANES constant equal the number in the type's name.",
 IC, "all vector types, all lane values (including NaN payloads and boundary integers), all indices in and out of range." + CFG,
 WHYS + "out-of-range is tried at one index, values are 0/1/2.",
 ["src/api/minimal/iuf.rs","src/api/minimal/mask.rs","src/api/minimal/ptr.rs","src/api/default.rs","src/sealed.rs"],
 [("simd_insert/simd_extract intrinsics with an index assert","src/api/minimal/*.rs")])
prop("C02", "Array and slice conversions keep lanes, order and bounds",
 "Converting a vector to an array, or an array to a vector, keeps every lane's bits and order. from_slice_aligned/unaligned read exactly the first N elements and write_to_slice_aligned/unaligned overwrite exactly the first N and nothing else, for every slice length >= N; the unaligned forms work at every address, and the _unchecked forms agree wherever the checked ones succeed. A slice shorter than N, or (aligned forms) one not aligned for the vector type, panics in every build and leaves the slice unchanged.",
 IC, "all non-mask vector types (arrays: masks too), slice lengths 0..N+extra, all element-aligned address offsets." + CFG,
 WHYS + "they try one length and one misalignment per type, never the bytes around the written window.",
 ["src/api/slice/from_slice.rs","src/api/slice/write_to_slice.rs","src/api/from/from_array.rs","src/api/minimal/ptr.rs"],
 [("length and alignment asserts before the raw read/write","src/api/slice/*.rs")])
prop("C03", "Integer vector arithmetic equals wrapping scalar arithmetic in every lane",
 "For every integer vector type, lane i of a+b, a-b, a*b, a/b, a%b (vector with vector, vector with scalar, scalar with vector, and the compound-assignment forms) and of -a equals the wrapping scalar operation on lane i of the operands, and no other lane influences it. Overflow never panics. Division and remainder are only covered for non-zero divisors and not for MIN / -1.",
 IC, "all signed and unsigned integer vector types (8 to 128 bit lanes, pointer-sized included), all operand values in the stated domain." + CFG,
 WHYS + "values 1, 2, 4 splatted; no overflow, no negative dividend, no distinct lanes.",
 ["src/api/ops/vector_arithmetic.rs","src/api/ops/scalar_arithmetic.rs","src/api/ops/vector_neg.rs"],
 [("simd_add/sub/mul/div/rem intrinsics; scalar forms via splat","src/api/ops/*.rs")])
prop("C04", "Float vector arithmetic is IEEE-754 scalar arithmetic in every lane",
 "For every f32/f64 vector type, lane i of a+b, a-b, a*b, a/b, a%b (vector/vector, vector/scalar, scalar/vector, and assignment forms) and of -a is bit-identical to the IEEE-754 scalar operation on the operands' lanes (any NaN matches any NaN). Infinities, signed zeros, subnormals and NaN are included, and lanes do not influence each other.",
 IC, "all float vector types and all operand bit patterns." + CFG,
 WHYS + "values 1, 2, 4 only: no rounding, zeros, infinities or NaN.",
 ["src/api/ops/vector_arithmetic.rs","src/api/ops/scalar_arithmetic.rs","src/api/ops/vector_neg.rs"],
 [("simd_* float intrinsics; negation as multiplication by -1","src/api/ops")])
prop("C05", "Bitwise operators, shifts and rotates act on each lane like the scalar operation",
 "For every integer vector type, &, |, ^ and ! (vector/vector, vector/scalar, scalar/vector, assignment forms) are lane-wise bit operations. << and >> by a vector of amounts or by a u32 (and assignment forms), for amounts below the lane width, shift each lane by its own amount, >> being arithmetic for signed and logical for unsigned lanes. rotate_left/rotate_right rotate each lane's bit pattern by the corresponding lane of the count modulo the lane width, for signed and unsigned lanes and any count.",
 IC, "all integer vector types, all operand values, shift amounts in [0, width), rotate counts over the whole lane type." + CFG,
 WHYS + "values 0, 1, 2 and small equal shift amounts; no sign bit is ever set.",
 ["src/api/ops/vector_bitwise.rs","src/api/ops/scalar_bitwise.rs","src/api/ops/vector_shifts.rs","src/api/ops/scalar_shifts.rs","src/api/ops/vector_rotates.rs"],
 [("simd_shl/shr/and/or/xor intrinsics; rotates composed of two shifts","src/api/ops")])
prop("C06", "Mask vectors implement lane-wise boolean logic and stay canonical",
 "For every mask type, &, |, ^ and ! between masks, and &, |, ^ between a mask and a bool on either side (and assignment forms), are the boolean operation in every lane. Every mask the library returns has each lane either all ones (true) or all zeros (false) in memory. The scalar mask elements m8..m128 and msize satisfy test() == the bool given to new, default to false, and their equality, order (false < true), hash and Debug follow that bool.",
 IC, "all mask vector types, all lane assignments (enumerated up to 16 lanes by seed, sampled above), both bools." + CFG,
 WHYS + "only all-true and all-false masks are combined.",
 ["src/api/ops/vector_mask_bitwise.rs","src/api/ops/scalar_mask_bitwise.rs","src/masks.rs","src/api/minimal/mask.rs"],
 [("masks stored as signed integers 0/-1","src/masks.rs, src/codegen")])
prop("C07", "Vertical comparisons give a canonical mask of the lane-wise scalar relation",
 "For every vector type, a.eq(b), ne, lt, le, gt, ge return a mask whose lane i is the scalar relation between lanes i: signed order for signed, unsigned for unsigned and pointers, IEEE order for floats (every relation with NaN false, except ne), false < true for masks. is_nan, is_infinite and is_finite classify each float lane likewise. True lanes are all ones and false lanes all zeros in memory.",
 IC, "all vector types, all pairs of lane values." + CFG,
 WHYS + "compares 0 with 1; NaN and values beyond the sign bit are not used.",
 ["src/api/cmp/vertical.rs","src/api/math/float.rs","src/api/minimal/ptr.rs"],
 [("simd_eq..simd_ge; operands swapped for masks because true is stored as -1","src/api/cmp/vertical.rs")])
prop("C08", "Whole-vector equality and hashing agree with the array of lanes",
 "a == b holds exactly when every lane pair is equal as scalars (so NaN makes it false and 0.0 == -0.0), a != b is exactly its negation, for every vector type. Hashing an integer or pointer vector equals hashing the array of its lanes, so equal vectors hash equally.",
 IC, "all vector types; pairs that are equal, differ in exactly one lane, or are independent." + CFG,
 WHYS + "differences in a single late lane of a wide vector are never tried.",
 ["src/api/cmp/partial_eq.rs","src/api/cmp/eq.rs","src/api/hash.rs","src/codegen/reductions/mask"],
 [("vertical comparison followed by the all/any mask reduction","src/api/cmp/partial_eq.rs")])
prop("C09", "Lexicographic ordering is the total order of the lane arrays",
 "For integer and mask vectors, lex_ord and partial_lex_ord wrappers compare exactly as the arrays of lanes do lexicographically: partial_cmp, cmp, <, <=, >, >=, == are mutually consistent, total, antisymmetric and transitive. The first differing lane decides, later lanes never matter.",
 IC, "all integer and mask vector types; pairs sharing a prefix of any length; sorting of sequences of vectors." + CFG,
 WHYS + "only vectors of 0/1 with a difference in the first or last lane are compared.",
 ["src/api/cmp/partial_ord.rs","src/api/cmp/ord.rs","src/lib.rs"],
 [("loop over lanes","src/api/cmp/partial_ord.rs")])
prop("C10", "Vertical min and max pick the right lane value",
 "For integer vectors lane i of a.min(b)/a.max(b) is the scalar min/max of lanes i in the type's own signedness. For float vectors it is the IEEE minNum/maxNum of the lanes: a NaN operand yields the other operand, both NaN yield NaN, and otherwise the smaller/larger value (either zero is accepted for +0.0 vs -0.0).",
 IC, "all integer and float vector types, all operand pairs." + CFG,
 WHYS + "0 and 1 only, no NaN, no sign-bit boundary.",
 ["src/api/ops/vector_int_min_max.rs","src/api/ops/vector_float_min_max.rs"],
 [("comparison + select; simd_fmin/fmax","src/api/ops")])
prop("C11", "Integer horizontal reductions equal the fold over all lanes",
 "For every integer vector type wrapping_sum and wrapping_product equal the wrapping sum/product of all lanes, and(), or(), xor() the bitwise fold, min_element and max_element the minimum/maximum lane in the type's signedness. Every lane contributes exactly once, and overflow never panics.",
 IC, "all integer vector types, all lane values, each lane position as the deciding one." + CFG,
 WHYS + "splats of 0, 1, 2 plus one replaced lane; no overflow, no sign bit.",
 ["src/api/reductions/integer_arithmetic.rs","src/api/reductions/bitwise.rs","src/api/reductions/min_max.rs"],
 [("simd_reduce_* intrinsics and ordered fallbacks","src/api/reductions")])
prop("C12", "Float horizontal reductions cover every lane with IEEE rounding",
 "sum() and product() of a float vector lie within the rounding error of adding/multiplying all lanes in any order: exact when all partial results are exact, NaN when a lane is NaN or infinities conflict, infinite when an infinite lane dominates. min_element and max_element return the smallest/largest non-NaN lane (either zero when +0.0 and -0.0 tie), and NaN only when every lane is NaN.",
 IC, "all float vector types, all NaN-free vectors for min/max, all vectors for sum/product." + CFG,
 WHYS + "splats and small powers of two.",
 ["src/api/reductions/float_arithmetic.rs","src/api/reductions/min_max.rs","src/codegen/llvm.rs"],
 [("simd_reduce_add_ordered/mul_ordered, simd_reduce_min/max","src/api/reductions")])
prop("C13", "Mask reductions all, any, none and and/or/xor see every lane",
 "For every mask vector type all() is true exactly when every lane is true, any() exactly when at least one is, none() exactly when no lane is; and(), or(), xor() are the boolean folds of the lanes. This holds whatever instruction-set extensions the crate is compiled for (baseline SSE2, SSSE3/SSE4.2, AVX, AVX2, AVX-512) and however the mask was produced by the library.",
 IC, "all mask types; all 2^N lane assignments for N <= 8, one-hot/one-cold and random ones above; five x86 target-feature configurations.",
 "Each configuration selects different hand-written intrinsics, the test suite is only run for the baseline, with at most one lane differing from a splat.",
 ["src/api/reductions/mask.rs","src/codegen/reductions/mask.rs","src/codegen/reductions/mask/x86.rs","src/codegen/reductions/mask/x86/sse.rs","src/codegen/reductions/mask/x86/sse2.rs","src/codegen/reductions/mask/x86/avx.rs","src/codegen/reductions/mask/x86/avx2.rs","src/codegen/reductions/mask/fallback_impl.rs","src/api/reductions/bitwise.rs"],
 [("movemask/testc/testz intrinsics chosen per type and target feature; halving recursion","src/codegen/reductions/mask")])
prop("C14", "bitmask() puts lane i's sign bit into bit i",
 "For every integer and mask vector type bitmask() has bit i equal to the most significant bit of lane i (for masks: lane i is true) for i < lanes, and every higher bit of the returned integer zero.",
 IC, "all integer and mask vector types, all lane values; five x86 target-feature configurations.",
 WHYS + "only all-set, all-clear and one alternating pattern are checked.",
 ["src/api/bitmask.rs","src/codegen/bit_manip.rs"],
 [("simd_bitmask with endianness handling","src/api/bitmask.rs")])
prop("C15", "Mask select chooses lane by lane, bit-exactly",
 "m.select(a, b) has lane i bit-identical to a's lane where m is true and to b's where it is false, for every mask type and every vector type with the same number of lanes, whatever the lane widths (integers, floats with NaN payloads, masks, pointer-sized vectors).",
 IC, "all mask/vector type pairs of equal lane count, all masks, all operand bit patterns." + CFG,
 WHYS + "two masks (all-true, alternating) with constant operands.",
 ["src/api/select.rs"], [("simd_select","src/api/select.rs")])
prop("C16", "shuffle! places exactly the requested lanes",
 "Lane k of shuffle!(a, [i0, i1, ...]) is lane ik of a, and of shuffle!(a, b, [i0, ...]) it is lane ik of the concatenation of a and b, bit-exactly, for every element type (integers, floats, masks, pointer-sized and pointers), every supported number of input lanes and of indices (2, 4, 8, 16, 32, 64), with repeats. Each vector argument, an arbitrary expression, is evaluated exactly once, in order.",
 ["inputs","programs"], "generated index lists (compile-time constants) for every vector type with one or two inputs and every supported result length; generated vector contents.",
 "The tests use a handful of fixed index lists on a few types and, for wide vectors, only reversal-like patterns.",
 ["src/api/shuffle.rs","src/codegen/shuffle.rs","src/codegen/llvm.rs"],
 [("macro dispatch on index count to simd_shuffle, output type by the lane-count trait","src/api/shuffle.rs, src/codegen/shuffle.rs")])
prop("C17", "shuffle1_dyn permutes lanes by a run-time index vector",
 "For every vector type with a dynamic shuffle (integers, floats, masks, pointer-sized) and every index vector whose lanes are all below the number of lanes, lane k of a.shuffle1_dyn(idx) is lane idx[k] of a, bit-exactly, repeats included. This holds for every x86 target-feature configuration.",
 IC, "all vector types, arbitrary in-range index vectors and contents; five x86 target-feature configurations.",
 "Tests use identity, splat-0 and one reversal; the SSSE3/AVX specialisations are not compiled by them.",
 ["src/api/shuffle1_dyn.rs","src/codegen/shuffle1_dyn.rs","src/api/minimal/ptr.rs"],
 [("pshufb/vpermilvar for u8x16, u32x4, u64x2; others reduced to those or done lane by lane","src/codegen/shuffle1_dyn.rs")])
prop("C18", "Numeric casts convert each lane like the scalar `as` operator",
 "a.cast() to any vector type with as many lanes: integer to integer truncates or sign/zero-extends by the source's signedness, integer to float and f64 to f32 round to nearest even, f32 to f64 is exact, and float to integer truncates toward zero for values representable in the target (others not covered). Casting a mask to numbers gives -1 (all ones; -1.0 for floats) for true and 0 for false; casting to a mask gives true exactly for lanes unequal to zero.",
 IC, "every pair of castable vector types, all source values in the stated domain." + CFG,
 "The tests only check that lane counts agree, and that zero casts to a false mask; no value is ever compared.",
 ["src/api/cast.rs","src/api/cast/macros.rs","src/api/cast/v16.rs","src/api/cast/v32.rs","src/api/cast/v64.rs","src/api/cast/v128.rs","src/api/cast/v256.rs","src/api/cast/v512.rs"],
 [("simd_cast; ne(0) + select for masks","src/api/cast/macros.rs")])
prop("C19", "Lossless From conversions preserve every lane's value",
 "Every From/Into between vector types with equal lane counts preserves the numeric value of every lane exactly (sign-extending signed, zero-extending unsigned sources, exact float results) and every mask lane's truth value, with lanes in place.",
 IC, "all From pairs of vector types, all source values." + CFG,
 "The tests only convert the all-zero default vector.",
 ["src/api/from/from_vector.rs","src/v16.rs","src/v32.rs","src/v64.rs","src/v128.rs","src/v256.rs","src/v512.rs","src/vSize.rs"],
 [("simd_cast over an explicit list of source types","src/v*.rs")])
prop("C20", "into_bits/from_bits reinterpret the same bytes, and round-trip",
 "Between vector types of the same total width (feature into_bits), and between them and the x86 vector types __m128/__m128i/__m128d/__m256/__m256i/__m256d, from_bits and into_bits leave every byte of the vector unchanged, so converting there and back is the identity. Mask targets are only reachable from masks with lanes at least as wide, so every mask obtained is canonical.",
 IC, "all FromBits pairs, all byte contents (canonical masks for mask sources)." + CFG,
 "The tests only transmute the all-zero vector and compare two routes through the same code.",
 ["src/api/into_bits.rs","src/api/into_bits/macros.rs","src/api/into_bits/arch_specific.rs","src/api/into_bits/v64.rs","src/api/into_bits/v128.rs","src/api/into_bits/v256.rs","src/api/into_bits/v512.rs"],
 [("transmute over an explicit list of type pairs","src/api/into_bits")])
prop("C21", "Bit counting is exact in every lane",
 "For every integer vector type count_ones, count_zeros, leading_zeros and trailing_zeros give in each lane the scalar count for that lane, including the lane width for zero (leading/trailing zeros) and independent of all other lanes.",
 IC, "all integer vector types, all lane values (all 256 for 8-bit lanes)." + CFG,
 WHYS + "a few fixed constants in all lanes.",
 ["src/api/bit_manip.rs","src/codegen/bit_manip.rs"],
 [("llvm ctpop/ctlz/cttz intrinsics per type, with scalar fallbacks","src/codegen/bit_manip.rs")])
prop("C22", "Byte swapping and endianness conversions reverse the vector's bytes",
 "For every integer vector type swap_bytes reverses the order of all bytes of the vector (byte j moves to position size-1-j) and is its own inverse. On this little-endian target to_le and from_le are the identity, to_be and from_be equal swap_bytes, and from_xx(to_xx(v)) == v.",
 IC, "all integer vector types, all byte contents." + CFG,
 "The tests check one fixed byte sequence.",
 ["src/api/swap_bytes.rs","src/codegen/swap_bytes.rs"],
 [("byte-vector shuffles per total width","src/codegen/swap_bytes.rs")])
prop("C23", "Exactly rounded float functions: abs, sqrt, mul_add, mul_adde, constants",
 "For every float vector type, lane i of abs(x) is x with the sign cleared, of sqrt(x) the correctly rounded square root (NaN for negative), of x.mul_add(y, z) the single-rounding fused result, and of x.mul_adde(y, z) either the fused or the twice-rounded x*y+z. The associated constants (PI, E, EPSILON, MAX, NAN, ...) hold in every lane the value the scalar type defines under that name.",
 IC, "all float vector types, all operand bit patterns." + CFG,
 WHYS + "abs/sqrt/mul_add are tried at 0, 1, 2 and PI.",
 ["src/api/math/float/abs.rs","src/api/math/float/sqrt.rs","src/api/math/float/mul_add.rs","src/api/math/float/mul_adde.rs","src/api/math/float/consts.rs","src/codegen/math/float"],
 [("llvm.fabs/sqrt/fma/fmuladd per type, pair-splitting macros for narrow types","src/codegen/math/float")])
prop("C24", "Transcendental functions are accurate in every lane",
 "For every float vector type, lane i of sin, cos, sin_pi, cos_pi, sin_cos_pi, exp, ln, powf and tanh agrees with the mathematical function of lane i to within a few units in the last place (for the *_pi forms, of rounding the product with pi), with the usual results for NaN, infinities, zeros and out-of-domain arguments. No lane depends on another lane.",
 IC, "all float vector types, arguments over the whole finite range plus specials." + CFG,
 "The tests evaluate 0, 1, pi/2 and pi with splat vectors.",
 ["src/api/math/float/sin.rs","src/api/math/float/cos.rs","src/api/math/float/exp.rs","src/api/math/float/ln.rs","src/api/math/float/powf.rs","src/api/math/float/tanh.rs","src/codegen/math/float"],
 [("llvm intrinsics or libm per lane, pair-splitting for narrow types","src/codegen/math/float")])
prop("C25", "Estimate functions sqrte, rsqrte and recpre meet their error bound",
 "For every float vector type and every lane holding a positive normal value (recpre: any non-zero normal value), sqrte, rsqrte and recpre return sqrt(x), 1/sqrt(x), 1/x with relative error at most 2^-12, in every lane independently; a result outside the normal range may saturate to zero or infinity.",
 IC, "all float vector types, all normal arguments of either magnitude." + CFG,
 "The tests evaluate them at two constants.",
 ["src/api/math/float/sqrte.rs","src/api/math/float/rsqrte.rs","src/api/math/float/recpre.rs","src/codegen/math/float/sqrte.rs"],
 [("exact sqrt/division on this target","src/api/math/float")])
prop("C26", "Pointer-vector arithmetic and comparison follow scalar raw pointers",
 "For const and mutable pointer vectors over any element size, offset, add, sub and their wrapping forms move each lane by its own count times the element size, and offset_from/wrapping_offset_from are the inverse: (p.offset(n)).offset_from(p) == n, with a byte distance that is no multiple of the size rounded towards zero. null() is all null, is_null tests each lane, comparisons order lanes by unsigned address, equality and hash match the array of pointers, and lane access, slices and shuffle1_dyn behave as for integer vectors.",
 IC, "pointer vectors of 2, 4, 8 lanes with element types of 1 to 24 bytes, addresses and counts over the whole range (in-allocation for non-wrapping forms)." + CFG,
 "The tests construct null and 1-ish pointers; offsets, differences and unsigned order are not exercised.",
 ["src/api/minimal/ptr.rs","src/vPtr.rs"],
 [("pointers transmuted to isize/usize vectors and scaled by size_of","src/api/minimal/ptr.rs")])
prop("C27", "Gather reads active lanes only and keeps the fallback elsewhere",
 "p.read(mask, value) returns in lane i the pointee of lane i when mask lane i is true and value's lane i otherwise, bit-exactly, for const and mutable pointer vectors. Memory behind inactive lanes is never accessed, so those pointers may be null, dangling or unmapped.",
 IC, "2, 4 and 8 lanes, many pointee types, arbitrary (repeated, permuted, unaligned-to-vector) addresses, every mask, inactive lanes pointing at inaccessible pages." + CFG,
 "The tests read consecutive elements with the all-true and all-false mask of live memory.",
 ["src/api/ptr/gather_scatter.rs","src/codegen/pointer_sized_int.rs"],
 [("simd_gather","src/api/ptr/gather_scatter.rs")])
prop("C28", "Scatter writes exactly the active lanes, in lane order",
 "p.write(mask, value) stores lane i of value at pointer lane i for exactly the lanes whose mask is true; all other bytes of memory are unchanged and inactive pointers may be null, dangling or unmapped. When several active lanes share an address the highest-numbered one wins.",
 IC, "2, 4 and 8 lanes, many pointee types, arbitrary and overlapping addresses, every mask, inactive lanes pointing at inaccessible pages." + CFG,
 "The tests write consecutive elements with two masks; overlaps and untouched neighbours are not checked.",
 ["src/api/ptr/gather_scatter.rs"],
 [("simd_scatter","src/api/ptr/gather_scatter.rs")])
prop("C29", "Formatting prints the type name and every lane with the caller's flags",
 "Debug of an integer, float or mask vector prints its name, '(' , the lanes in order separated by ', ' and ')', each lane formatted exactly as the scalar with the same formatter flags; Binary, Octal, LowerHex and UpperHex of integer vectors do likewise. Pointer vectors print each pointer lane's Debug form between the name with the element type in angle brackets and ')'. An error returned by the writer is returned by the formatting call.",
 IC, "all vector types, all lane values, width/precision/fill/alignment/sign/alternate flags." + CFG,
 "The tests format default-valued vectors with default flags.",
 ["src/api/fmt/debug.rs","src/api/fmt/binary.rs","src/api/fmt/octal.rs","src/api/fmt/lower_hex.rs","src/api/fmt/upper_hex.rs","src/api/minimal/ptr.rs"],
 [("loop over lanes delegating to the scalar formatter","src/api/fmt")])
prop("C30", "Iterator sum and product of vectors fold lane-wise from the identity",
 "Summing or multiplying an iterator of vectors, by value or by reference, gives in each lane the fold of that lane over all items: wrapping for integers, within left-to-right IEEE rounding for floats, and zero resp. one for an empty iterator.",
 ["inputs","histories"], "all integer and float vector types, sequences of 0 to 20 vectors." + CFG,
 "The tests fold three equal small vectors.",
 ["src/api/reductions/integer_arithmetic.rs","src/api/reductions/float_arithmetic.rs"],
 [("Iterator::fold with the Add/Mul impl from splat(0)/splat(1)","src/api/reductions")])
prop("C31", "Composed vector programs equal the lane-by-lane scalar program",
 "Any sequence of the library's lane-wise, select, shuffle and reduction operations applied to a set of vectors gives exactly the lanes that running the scalar meaning of each operation lane by lane gives, whatever the optimiser fuses and whatever x86 extensions are enabled. In particular constants built with the const constructors behave as run-time vectors do, and no operation has an effect besides its result (such as a changed floating-point control state).",
 ["programs","inputs","configurations"], "generated straight-line programs over integer, float and mask vectors, compiled for several target-feature configurations, run on generated inputs.",
 "Unit tests call one operation at a time in an unoptimised baseline build.",
 ["src/api","src/codegen"], [("all lane-wise operations","src/api, src/codegen")])
prop("C32", "Linear-algebra examples agree with their scalar meaning",
 "The SIMD dot product, slice sums, spectral norm, triangle transform and 4x4 matrix inverse examples return, for every valid input, the result of the scalar algorithm up to the rounding of the reordered float operations. The dot product and sums cover every element of the slice, packing and unpacking triangles is the identity, and the matrix inverse is None for exactly singular integer matrices and otherwise an inverse.",
 IN, "arbitrary slices of valid length and alignment, arbitrary triangles and affine matrices, well-conditioned matrices, sizes of the spectral norm.",
 "The examples' tests run a few fixed vectors, three matrices, one triangle batch and one norm size.",
 ["examples/dot_product/src","examples/slice_sum/src/main.rs","examples/spectral_norm/src","examples/triangle_xform/src","examples/matrix_inverse/src"],
 [("chunked loads and vector accumulators","examples/*/src/simd.rs")])
prop("C33", "Fannkuch example: SIMD result equals exhaustive pancake flipping",
 "For every n in 3..=10 the vectorised fannkuch-redux returns the same checksum and maximum flip count as direct enumeration of all permutations.",
 ["inputs","configurations"], "all n in 3..=10 (enumerated), baseline and SSSE3/AVX2 builds.",
 "The tests run n = 7 only, in the baseline build.",
 ["examples/fannkuch_redux/src/simd.rs","examples/fannkuch_redux/src/scalar.rs"],
 [("shuffle1_dyn with flip/rotate index tables","examples/fannkuch_redux/src/simd.rs")])
prop("C34", "Mandelbrot example: SIMD image equals the scalar image for every region",
 "For every finite region and image size whose width is a multiple of 8, the SIMD Mandelbrot generator returns width*height iteration counts equal to the scalar generator's, each being the number of iterations before the orbit leaves the radius-2 disc (at most 50), and the PBM and PPM writers emit a correct header and one bit resp. three bytes per pixel derived from those counts.",
 IN, "generated regions (offsets, zooms, reversed ranges) and sizes.",
 "Two sizes of one default region are compared.",
 ["examples/mandelbrot/src/lib.rs","examples/mandelbrot/src/simd_par.rs","examples/mandelbrot/src/scalar_par.rs"],
 [("masked iteration counting","examples/mandelbrot/src/simd_par.rs")])
prop("C35", "Stencil example: SIMD and parallel kernels equal the scalar kernel",
 "For every grid, sub-box with an x-extent that is a multiple of 8 and a halo of at least 4, time range, coefficients and fields, the SIMD and the SIMD+threads stencil produce the scalar kernel's fields up to rounding, and no cell outside the sub-box is written.",
 ["inputs","schedules"], "generated grids (non-cubic), boxes, time ranges, coefficients and fields; the parallel kernel under the machine's thread schedules.",
 "One cubic 128^3 grid with built-in data is compared.",
 ["examples/stencil/src/simd.rs","examples/stencil/src/simd_par.rs","examples/stencil/src/scalar.rs"],
 [("per-plane chunks, unchecked loads","examples/stencil/src")])
prop("C36", "Option-pricing example: SIMD and parallel prices equal scalar prices",
 "For every batch of options (count a multiple of 8) the SIMD and the SIMD+threads Black-Scholes and binomial-put pricers give each option the scalar pricer's price up to rounding, from that option's own parameters, and return the sum of all prices.",
 ["inputs","schedules"], "generated batches with different parameters per option, counts from 0 to a few hundred.",
 "The tests price a million identical options, so an index error is invisible.",
 ["examples/options_pricing/src"],
 [("8-wide kernels and chunked writes","examples/options_pricing/src/simd.rs, simd_par.rs")])
prop("C37", "N-body example: SIMD integration matches the scalar integration",
 "For every number of steps the SIMD n-body run returns the scalar run's energies up to rounding, and for arbitrary body states one SIMD step moves positions and velocities as the scalar pairwise gravity step does and conserves total momentum up to rounding.",
 ["inputs","histories"], "step counts 0..2000, generated body states and time steps.",
 "One run of 1000 steps from the built-in state is compared with printed output.",
 ["examples/nbody/src/simd.rs","examples/nbody/src/scalar.rs"],
 [("pairwise distances in f64x4, magnitudes in f64x2","examples/nbody/src/simd.rs")])
prop("C38", "Ambient-occlusion example: packet rays match single rays",
 "For every ray packet and every sphere or plane, the packet intersection gives each lane the hit flag, distance, point and normal of the scalar intersection of that lane's ray up to rounding (grazing rays aside), misses leave the previous record untouched, orthonormal bases agree lane by lane, and the vector and tiled renderers produce images matching the scalar renderer within sampling noise. The vector random generator yields per lane the scalar LFSR113 stream of that lane's seed, in [0, 1).",
 IN, "generated rays, spheres, planes, previous hit records and normals; small images.",
 "One hit/miss pattern per primitive is compared.",
 ["examples/aobench/src/intersection","examples/aobench/src/geometry","examples/aobench/src/ambient_occlusion.rs","examples/aobench/src/random.rs","examples/aobench/src/vector.rs","examples/aobench/src/tiled.rs"],
 [("masked updates of the hit record","examples/aobench/src/intersection")])
prop("C39", "Operations keep no hidden state: history and threads do not matter",
 "Every operation of a vector type is a function of its operands alone (and of the memory it is told to read). Repeating a call after any history of other calls, with equal, neighbouring or unrelated operands, gives the same bits, and calls made at the same time from several threads give each caller the result it gets when it is alone. No scratch buffer, cache, counter or processor mode is shared between calls.",
 ["inputs","histories","schedules"], "all integer, float and mask vector types and nearly all of their operations (arithmetic, bitwise, comparisons, reductions, math functions, formatting, hashing, ordering, run-time shuffles, gathers, scatters, iterator folds); generated operand pools and call histories; three concurrent threads.",
 "Each unit test calls an operation a few times with fixed operands, and tests of the same type seldom run at the same time.",
 ["src/api","src/codegen"],
 [("all operations","src/api, src/codegen")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
