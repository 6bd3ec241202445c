#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
FE = "bandersnatch/fieldElements/"
CP = "bandersnatch/curvePoints/"
PS = "bandersnatch/pointserializer/"
EW = "bandersnatch/errorsWithData/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    exp = []
    for f in files:
        full = os.path.join("/repo", f)
        l = [f] if os.path.isfile(full) else sorted(os.path.join(f, x) for x in os.listdir(full) if x.endswith(".go") and not x.endswith("_test.go"))
        for x in l:
            assert os.path.isfile(os.path.join("/repo", x)), x
            if x not in exp: exp.append(x)
    files = exp
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- integers and the field
prop("P01", "256- and 512-bit integer arithmetic is exact",
 "For all 256-bit (and 512-bit) unsigned integers, addition, subtraction, increment, decrement, multiplication, squaring, shifts, comparison and bit inspection return exactly the mathematical result modulo the word size, together with the exact carry, borrow or high half. Operands other than the result are never modified, and the result is the same when operands and result share storage.",
 ["inputs"], "all operand values (in particular limbs of all zeros or all ones and carries rippling through every limb) and all ways of letting operands and result alias",
 "Existing tests of this package compare a few thousand random and precomputed values that rarely carry through several limbs; they are not even built by the repository's build script.",
 [FE+"uint256.go", FE+"uint256_utility.go"],
 [("limb-wise carry chains via math/bits", FE+"uint256.go"), ("schoolbook multiplication and squaring", FE+"uint256_utility.go")],
 ["exported methods of the integer types"])
prop("P02", "Modular arithmetic on 256-bit integers is congruent and stays in range",
 "Every modular operation on 256-bit integers (reduction, addition, subtraction, doubling, negation, multiplication, squaring, halving, Montgomery multiplication and conversion) yields a value congruent to the mathematical result modulo the field size. For operands inside the range the operation documents, the result lies in the range that the operation's variant documents (fully reduced, below twice the modulus, or arbitrary 256 bits), and reducedness predicates are exact. The reciprocal that is computed for a modulus of more than 192 bits is the largest number whose product with the modulus stays below 2^512.",
 ["inputs"], "all operands in the documented ranges, in particular values within a few units of multiples of the modulus, of 2^256 and of multiples thereof, and all aliasing patterns",
 "The failing inputs sit in windows of relative size below 2^-64 around a handful of boundaries, which uniformly random tests never hit.",
 [FE+"uint256_modular.go", FE+"uint256_montgomery.go", FE+"uint256.go", FE+"modulus.go"],
 [("conditional subtraction and wrap-around correction", FE+"uint256_modular.go"), ("interleaved Montgomery reduction", FE+"uint256_montgomery.go")],
 ["exported modular methods of the 256-bit integer type"])
prop("P03", "Field elements form the prime field, whatever their internal representation",
 "Addition, subtraction, negation, doubling, multiplication by one, two or five and by arbitrary elements, squaring, division and equality of field elements, in every binary, in-place and integer-operand form, agree with arithmetic modulo the base field size. The outcome depends only on the residue classes of the operands, not on how the representation was reached, and operations may alias their arguments and never change their value.",
 ["inputs","histories"], "all operand values and all sequences of operations that lead to an element, including those whose result is congruent to 0 or 1 but is not stored in reduced form",
 "Unreduced internal representations only arise after particular operation sequences; the existing tests start from freshly sampled, normalised values.",
 [FE+"field_element_montgomery.go", FE+"field_element.go", FE+"field_element_bigInt.go", FE+"field_element_batch.go"],
 [("Montgomery representation with lazy normalisation", FE+"field_element_montgomery.go")],
 ["exported methods of both field-element implementations"])
prop("P04", "Inverses, square roots, quadratic characters and powers are correct",
 "Inversion succeeds exactly on non-zero elements and yields the multiplicative inverse; the square root succeeds exactly on squares and yields a root; the quadratic-residue symbol is 1, -1 or 0 exactly for non-zero squares, non-squares and zero; exponentiation with any 256-bit exponent equals repeated multiplication. On failure the receiver is left unchanged.",
 ["inputs"], "all field elements, including non-reduced representations, elements of every 2-power order (the 2-adicity of the field is 32), zero and one, and all exponents",
 "The square-root code uses tables indexed by discrete logarithms of 2-power-order components; random elements almost never exercise small orders, and only a few table paths are covered by samples.",
 [FE+"field_element.go", FE+"field_element_square_root.go", FE+"uint256_modular.go", FE+"field_element_montgomery.go"],
 [("Tonelli-Shanks with table-based discrete logarithm", FE), ("binary Jacobi algorithm", FE), ("sliding-window exponentiation", FE)],
 ["inverse, square-root, Jacobi, Exp methods"])
prop("P05", "Batch field operations equal element-wise ones and report zeros exactly",
 "Simultaneous inversion of any list of field elements inverts every element exactly as one-by-one inversion would; if some elements are zero, the failing variants report exactly which positions are zero and leave all arguments unchanged, while the skipping variants invert the others and report exactly the zero positions. Sums and products of any list of elements equal the iterated operation, with the neutral element for empty lists.",
 ["inputs"], "all lists (including empty and single-element lists), all subsets of positions holding zero (reduced or not)",
 "Which positions are zero is a combinatorial choice of which tests cover a handful; the argument-preservation clause is only visible on failure.",
 [FE+"field_element_batch.go", FE+"field_element_batch.go"],
 [("Montgomery's simultaneous-inversion trick with backtracking", FE+"field_element_batch.go")],
 ["exported batch functions and their error data"])
prop("P06", "Conversions of field elements are exact, and normalisation is unobservable",
 "Converting between field elements and arbitrary-size integers, machine integers, 256-bit integers, sign and absolute-value comparisons, strings and formatted output is exact: round trips are the identity on residues, out-of-range conversions are reported as failures, and the sign of an element is determined by whether its least representative exceeds half the modulus. Normalising or formatting never changes the value of an element.",
 ["inputs"], "all integers (including negative ones, multiples of the modulus and values above 2^256), all machine integers including the extremes, all format verbs for integers",
 "Boundary values such as the extremes of machine integers, values near half the modulus and non-normalised representations are isolated points.",
 [FE+"field_element.go", FE+"field_element_montgomery.go", FE+"uint256.go"],
 [("conversion via plain 256-bit integers", FE+"field_element_montgomery.go")],
 ["ToBigInt/SetBigInt/ToUint64/ToInt64/SetUint256/Sign/CmpAbs/String/Format"])
prop("P07", "Field-element and integer serialisation round-trips in every mode",
 "Writing a field element or 256-bit integer and reading it back gives the same value for both byte orders, for all ways of passing the output or input, and for every admissible bit prefix; exactly 32 bytes are produced and consumed, and they are the fixed-width big- or little-endian encoding of the least non-negative representative with the prefix in the most significant bits. Reading returns or verifies exactly the prefix that was written.",
 ["inputs","configurations"], "all values, both byte orders, all prefix lengths 0 to 8 and all prefix values, any surrounding data in the stream, any splitting of the stream into partial reads",
 "Tests use full-width random values with few prefixes; prefix/value/byte-order combinations are not enumerated.",
 [FE+"uint256_serialize.go", FE+"field_element_serialize.go", "bandersnatch/common/embedded_params.go", "bandersnatch/common/fe_endianness.go"],
 [("prefix packing into the most significant byte", FE+"uint256_serialize.go")],
 ["Serialize*/Deserialize* methods"])
prop("P08", "Malformed or faulty field-element I/O is reported exactly and harmlessly",
 "Reading from truncated, faulty or prefix-mismatched input and writing to faulty output reports an error of the documented kind whose data state the number of bytes (and the bytes) actually transferred and whether the cause was input or output, distinguishes an empty input from a truncated one, and leaves the target element unchanged. Values that do not fit a requested prefix are refused without writing anything, non-normalised encodings are rejected exactly when at least the modulus, and prefix lengths beyond eight bits are refused without reading. Every reported error is valid and its message renders without diagnostics.",
 ["inputs","fault_sequences"], "all byte strings, all truncation points, all positions at which reader or writer fails, all chunkings of the underlying stream",
 "Fault positions and chunkings are a product space of which tests sample a few points.",
 [FE+"uint256_serialize.go", FE+"field_element_serialize.go", "internal/errorTransform/", "bandersnatch/bandersnatchErrors/"],
 [("read into a temporary, then commit", FE+"uint256_serialize.go")],
 ["returned counts, error kinds and error data; reader position; receiver value"])
prop("P09", "Byte-order conversions and bit headers are exact bijections",
 "Both supported byte orders convert between limbs and byte arrays exactly like the fixed-width encodings of the integer, for every calling form, and reading inverts writing. Bit headers hold exactly the given prefix bits and length; construction refuses prefixes that do not fit or are longer than eight bits, and distinct valid headers stay distinct.",
 ["inputs"], "all 256-bit values, all byte arrays, all (prefix, length) pairs, slices of any length of at least 32 bytes",
 "The stable tests only cover a few fixed vectors per byte order.",
 ["bandersnatch/common/fe_endianness.go", "bandersnatch/common/embedded_params.go"],
 [("table-free byte shuffling via encoding/binary", "bandersnatch/common/fe_endianness.go"), ("header validation", "bandersnatch/common/embedded_params.go")],
 ["exported functions of the common package"])

# ---------------------------------------------------------------- curve
prop("P10", "The curve group law holds in every coordinate system",
 "For all points and every combination of the supported coordinate types, addition, subtraction, negation, doubling and their in-place forms yield the point determined by the twisted Edwards group law computed on affine coordinates. Operands keep their value, results are valid points, and results do not depend on projective scaling or on receiver and operands sharing storage.",
 ["inputs","histories"], "all pairs of affine points (including equal, opposite, small-order and neutral ones), all projective representatives, all type combinations that the interface accepts, all aliasing patterns",
 "The existing tests check algebraic laws on random points, not agreement with an independent group law, for a fraction of the type and aliasing combinations.",
 [CP+"curve_point_impl_add.go", CP+"curve_point_impl_add.go", CP+"curve_point_impl_double.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("unified addition formulas per coordinate pair", CP), ("type dispatch", CP)],
 ["coordinates of the result"])
prop("P11", "Exceptional curve points are handled without error",
 "The group law also holds when an operand or result is one of the two points at infinity, the affine point of order two or the neutral element, for all types that can represent them; the rational 2-torsion forms the Klein four-group. Types that cannot represent a result at infinity refuse loudly instead of returning a wrong point.",
 ["inputs"], "all pairs (P, Q) with P, Q, P+Q or P-Q in the 2-torsion, in all projective representatives and type combinations",
 "The exceptional locus has measure zero, so random sampling never reaches it; tests use hand-picked pairs for some of the types.",
 [CP+"curve_point_impl_torsion.go", CP+"curve_point_impl_add.go", CP+"curve_point_xtw.go", CP+"curve_point_doubleproj.go"],
 [("special-cased safe addition", CP), ("torsion additions", CP)],
 ["result points and panics"])
prop("P12", "Equality and point predicates depend only on the abstract point",
 "Two curve points compare equal if and only if they denote the same abstract point (for subgroup-only types: the same subgroup element), across all coordinate types and projective representatives. The tests for neutral element, points at infinity, each individual infinite point, and validity are exact.",
 ["inputs","histories"], "all pairs of points in all types and representations, including points that differ only by 2-torsion or by sign",
 "Non-trivial unequal pairs (sharing one coordinate or differing by torsion) must be constructed; random pairs differ in all coordinates.",
 [CP+"curve_point_impl_equality.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("cross-multiplied comparisons", CP), ("torsion tests", CP)],
 ["IsEqual, IsNeutralElement, IsAtInfinity, IsE1, IsE2, Validate"])
prop("P13", "Subgroup membership is decided correctly and enforced",
 "A point is reported to be in the prime-order subgroup exactly if multiplying it by the group order gives the neutral element. Converting an untrusted point to a subgroup-only type succeeds exactly for members and then yields the same point; on failure the receiver is unchanged.",
 ["inputs"], "all points of the curve: each subgroup element plus each of the four 2-torsion points, in every type and representation",
 "Membership is decided by Legendre symbols rather than by the definition; tests check only sampled members and a few non-members.",
 [CP+"curve_point_impl_subgroupcheck.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("Legendre-symbol criteria on coordinates", CP+"curve_point_impl_subgroupcheck.go")],
 ["IsInSubgroup, SetFromSubgroupPoint"])
prop("P14", "Conversion, copying and coordinate access preserve the point",
 "Converting a point between coordinate types, cloning it, normalising it, or reading any of its affine or projective coordinates in any form is consistent with one and the same abstract point. Copies are independent of the original, and points produced by any operation satisfy the curve equation and all coordinate invariants.",
 ["inputs","histories"], "all points in all types and projective scalings; sequences of copy, conversion, normalisation and modification",
 "Consistency ranges over a matrix of about a dozen accessors times six types times representations.",
 [CP+"curve_point.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("per-type coordinate accessors", CP), ("SetFrom/Clone", CP)],
 ["coordinate accessors, SetFrom, Clone, NormalizeForY/Z, Validate"])
prop("P15", "The efficient endomorphism is a homomorphism with the documented eigenvalue",
 "The efficient endomorphism maps every curve point to the point prescribed by a group homomorphism: it respects sums, sends the 2-torsion to its documented images, and acts on the prime-order subgroup as multiplication by the published eigenvalue. This holds for every coordinate type, in place or not, leaving the operand unchanged.",
 ["inputs"], "all points including 2-torsion, subgroup elements and their torsion translates; all type combinations",
 "Tests check a few random points per type; the exceptional inputs need separate formulas.",
 [CP+"curve_point_impl_endo.go", CP+"curve_point_xtw.go", CP+"curve_point_doubleproj.go", "bandersnatch/exponents/exponent_constants.go"],
 [("degree-2 endomorphism formulas", CP)],
 ["Endo, EndoEq"])
prop("P16", "Batch operations on points equal their one-by-one counterparts",
 "Bulk normalisation of a list of points normalises every normalisable point without changing any abstract point and reports exactly the positions (in increasing order) that cannot be normalised. Views of point lists as generic point lists refer to the same elements in the same order and support the documented element access.",
 ["inputs"], "all lists, including empty ones, with any mixture of finite points, points at infinity and invalid points at any positions",
 "The set of failing positions is combinatorial; tests use one or two patterns.",
 [CP+"curve_point_slice.go", CP+"batch_operations.go", CP+"curve_point_xtw.go"],
 [("simultaneous inversion with index bookkeeping", CP)],
 ["batch normalisation results, slice views"])
prop("P17", "Points are constructed from coordinates exactly when those are valid",
 "Constructing an untrusted point from affine coordinates, from one coordinate and a sign, or from sign-adjusted coordinates succeeds exactly if the input determines a point of the curve (or of the subgroup, for subgroup constructors), and yields that very point. Otherwise an error of the documented kind that names the offending input, with a well-formed message, is returned; mapping a subgroup point to a field element is injective.",
 ["inputs"], "all coordinate pairs and signs, both on and off the curve, in and outside the subgroup, including zero, one and minus one and invalid signs",
 "Error classification splits inputs by several independent quadratic characters; tests only check that random valid points round-trip.",
 [CP+"serializer_curve_field.go", "bandersnatch/bandersnatchErrors/"],
 [("coordinate recovery by square roots", CP+"serializer_curve_field.go"), ("sign fixing", CP+"serializer_curve_field.go")],
 ["returned point, error kind, error data"])
prop("P18", "Invalid points are contained",
 "Points that do not represent a curve point are never reported as valid, neutral, infinite or in the subgroup, and never compare equal to a point; every operation with such an operand yields an invalid point or an explicit failure rather than a valid-looking one. Queries about such points, comparisons with them and their conversions to the prime-order subgroup are reported to the installed handler, which also decides the outcome of comparisons (and of nothing else); installing a handler returns the previous one.",
 ["inputs","histories"], "all operations, all operand positions and types with an invalid operand, all handlers",
 "Tests check a subset of operations with one zero value per type.",
 [CP+"error_handler.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("invalid-point checks and a global handler", CP)],
 ["handler invocations, IsNaP of results"])
prop("P19", "Random sampling is reproducible and yields valid elements",
 "Sampling random field elements and curve points from a source of randomness yields valid elements (of the prime-order subgroup where promised) that are a function of the random source only; non-zero variants never yield zero. Samples are not confined to a proper coset or fixed part of the group or field.",
 ["inputs","configurations"], "all seeds of the random source and all bounds",
 "Tests draw from two or three fixed seeds.",
 [CP+"curve_point_impl_sampling.go", FE+"field_element.go"],
 [("rejection sampling by x coordinate, cofactor clearing", CP), ("modular reduction of oversized random integers", FE)],
 ["sampling functions"])

# ---------------------------------------------------------------- point serialisation
prop("P20", "Curve-point serialisation round-trips in every format",
 "For every supported point-serialisation format and every admissible choice of its parameters, writing a serialisable point and reading it back yields an equal point, consumes exactly what was written, and produces exactly the advertised number of bytes. The bytes are those of the documented format: headers, then the encodings of the prescribed coordinates with the prescribed sign bits and byte order, then footers.",
 ["inputs","configurations"], "all points (in any type and representation), all formats, byte orders, bit headers, byte headers and footers, trusted or untrusted reading",
 "Parameters multiply into a large configuration space; the package's own test files do not even compile.",
 [PS+"serialize_curve_point.go", PS+"serialize_curve_points.go", PS+"values_serializers.go", PS+"basic_serializers.go", PS+"headerSerializer.go"],
 [("point to coordinates to bytes pipeline", PS)],
 ["bytes written, point read"])
prop("P21", "Untrusted point encodings are accepted only if canonical and valid",
 "Reading untrusted bytes as a curve point succeeds only if the bytes are exactly the encoding that writing the resulting point would produce; everything else is rejected with an error and, unless only the closing footer is wrong, leaves the target point unchanged. Formats restricted to the prime-order subgroup never yield, and refuse to write, a point outside it, and points that a format cannot represent are refused without writing any part of the point (a leading header may have been written by then).",
 ["inputs","configurations"], "all byte strings, in particular single-bit flips, sign flips, coordinate replacements, non-reduced coordinates and off-subgroup points derived from valid encodings; all formats and parameters",
 "Malformed encodings that are almost valid have to be built on purpose for every format; no test does so systematically.",
 [PS+"serialize_curve_point.go", PS+"values_serializers.go", PS+"basic_serializers.go", CP+"serializer_curve_field.go"],
 [("validation on deserialisation", PS)],
 ["accept or reject, error kinds, target point"])
prop("P22", "Multi-point serialisation preserves sequences",
 "Writing a list of points and reading it back through any of the bulk interfaces (self-describing slices, fixed-size batches, variadic lists, existing buffers) gives the same points in the same order, with exactly the advertised number of bytes. Length prefixes, headers and footers are checked, targets that are too small are refused, and elements beyond those read stay untouched.",
 ["inputs","configurations"], "all list lengths including zero, all point types as sources and targets, all header and footer choices",
 "Lengths, buffer capacities and headers are a product space that tests do not reach.",
 [PS+"serialize_curve_points.go", PS+"headerSerializer.go", CP+"curve_point_slice.go"],
 [("length-prefixed slices with per-point framing", PS)],
 ["bytes, points, counts"])
prop("P23", "Point (de)serialisation reports I/O faults with exact accounting",
 "If the underlying reader or writer fails or ends at any byte of a single- or multi-point operation, the operation returns an error wrapping the underlying cause, the reported byte count equals the bytes actually transferred, and the reported number of processed points and the partial-transfer flag are accurate. The data attached to an error never claim bytes that were not read, and tell errors of the input or output from those of the content. An ended input is reported as end-of-file only if nothing was read, and as an unexpected end otherwise; points before the fault are delivered, points after it untouched. Messages render without diagnostics.",
 ["fault_sequences","inputs"], "all fault positions from the first to the last byte of an encoding, all formats and bulk interfaces, all chunkings of reads",
 "Each fault position is a separate execution path; tests inject few.",
 [PS+"serialize_curve_points.go", PS+"headerSerializer.go", PS+"utils.go", "internal/errorTransform/", "bandersnatch/bandersnatchErrors/"],
 [("error transformation and data attachment at each level", PS)],
 ["error chains, error data, counters of the underlying stream"])
prop("P24", "Serialiser parameters are immutable values with faithful get and set",
 "Deriving a serialiser with a changed parameter yields one that reports the new value for that parameter and the old values for all others, while the original is unchanged and shares no mutable state with it or with the caller's arguments. Parameter names are case-insensitive, unknown names or wrongly typed values are refused, and validity rules are enforced at derivation time.",
 ["histories","inputs"], "all sequences of parameter changes on all serialisers, with later modification of the passed byte slices",
 "Aliasing between derived serialisers only shows after particular histories of changes.",
 [PS+"parameterModification.go", PS+"headerSerializer.go", PS+"basic_serializers.go", PS+"values_serializers.go", PS+"serialize_curve_points.go"],
 [("clone then modify by reflection", PS+"parameterModification.go")],
 ["GetParameter, WithParameter, RecognizedParameters, HasParameter, bytes produced"])

# ---------------------------------------------------------------- exponents
prop("P25", "Exponent arithmetic is exact modulo the curve's exponent",
 "Exponents added, subtracted, negated, multiplied and converted from or to integers agree with integer arithmetic modulo twice the subgroup order, and their subgroup variants with arithmetic modulo the subgroup order. Zero and one tests for both moduli are exact, results are fully reduced, operands are unchanged and may alias the result.",
 ["inputs"], "all integers as inputs (negative, huge, near multiples of either modulus), all aliasing patterns",
 "Stable tests cover a few samples; reduction boundaries are isolated points.",
 ["bandersnatch/exponents/exponents.go", "bandersnatch/exponents/exponent_constants.go"],
 [("limb arithmetic with conditional reduction", "bandersnatch/exponents/exponents.go")],
 ["exported methods of the exponent type"])
prop("P26", "The scalar decomposition for the endomorphism is correct and minimal",
 "Splitting any exponent t for use with the efficient endomorphism gives a pair (u, v) with u plus v times the eigenvalue congruent to t modulo the subgroup order. The pair is short: both components stay within the documented bound, and no other pair representing t has a smaller maximum absolute value.",
 ["inputs"], "all exponents, in particular those close to the boundary of the lattice's fundamental region and to multiples of the moduli",
 "Wrong rounding shows up only near the boundaries of the fundamental region, a set of tiny measure; tests sample random exponents.",
 ["bandersnatch/exponents/glv_transform.go", "bandersnatch/exponents/exponent_constants.go"],
 [("rounding with respect to a precomputed lattice basis and local correction", "bandersnatch/exponents/glv_transform.go")],
 ["decomposition results"])
prop("P27", "Signed-digit and sliding-window decompositions represent the exponent",
 "Every windowed decomposition of an exponent evaluates to exactly that exponent, consists only of odd digits within the window's digit range, and is ordered with non-overlapping windows. The 128-bit helper arithmetic used to compute it is exact.",
 ["inputs"], "all exponents (0, 1, all-ones, isolated bits, runs crossing limb boundaries), all window sizes",
 "Long runs of ones crossing limb boundaries are rare among random exponents.",
 ["bandersnatch/exponents/glv_transform.go", FE+"uint256.go"],
 [("windowed recoding", "bandersnatch/exponents/"), ("sliding window on 256-bit integers", FE)],
 ["digit lists"])

# ---------------------------------------------------------------- errors with data
prop("P28", "Data attached to errors follows the documented merge semantics",
 "Errors created from a base error inherit its data; adding data, replacing, preferring old data, restricting and deleting behave like the corresponding operation on a map from names to values, in map and struct form alike, and every query function agrees with that map. Existing errors never change, data handed out are copies, and the original errors stay reachable through standard error unwrapping.",
 ["histories","inputs"], "all sequences of creation, wrapping, addition and deletion over arbitrary keys and values, with foreign errors interleaved in the chain",
 "Semantics are about histories of wrapping; tests exercise chains of length one or two.",
 [EW+"modify_errors.go", EW+"plainErrorWithParams.go", EW+"dataOverride.go", EW+"errorsWithData.go"],
 [("copy-on-create parameter maps", EW+"plainErrorWithParams.go"), ("merge modes", EW+"dataOverride.go")],
 ["GetData_map, GetParameter, HasParameter, GetData_struct, HasData, errors.Is, errors.As"])
prop("P29", "Struct and map views of error data are interchangeable",
 "Attaching a struct is the same as attaching the map of its visible fields (embedded structs flattened, shadowed fields dropped), and reading back any suitable struct type returns exactly the stored values. Unsuitable struct types are recognised, missing or wrongly typed values are refused or zero-filled exactly as requested, and nil values convert to the field's own nil.",
 ["inputs","programs"], "all struct types built from nested embedding, shadowing, interface, pointer and unexported fields, all contents and missing-field subsets",
 "Struct shapes are an unbounded family; the tests enumerate about a dozen.",
 [EW+"params_to_data.go", EW+"validate.go", "internal/utils/"],
 [("reflection-based field lookup with a global cache", EW+"params_to_data.go")],
 ["struct suitability, conversion results, panics"])
prop("P30", "Interpolation strings render exactly the documented text",
 "The message of an error equals the documented evaluation of its interpolation string: literals with escapes, formatted parameters, whole-map output, conditionals on empty or non-empty data, and wrapped messages, where one family of directives always refers to the error's own data and the other to the data passed down from the outermost wrapping error. The default message of an error created without an interpolation string is that of the wrapped error.",
 ["programs","inputs","histories"], "all well-formed interpolation strings, nested to any depth, over all data maps and chains of wrapped errors (including foreign ones)",
 "The language is recursive; the tests evaluate a list of examples.",
 [EW+"formatting_tokenize.go", EW+"formatting_parse.go", EW+"formatting_interpolate.go", EW+"plainErrorWithParams.go"],
 [("tokeniser, parser, evaluator", EW)],
 ["Error(), Error_interpolate()"])
prop("P31", "Malformed interpolation strings are diagnosed and never crash",
 "For every string whatsoever, creating an error with it and asking for its message never panics; a malformed one is reported by all validation functions and its message contains a visible diagnostic, after the rendering of what precedes the fault and followed by the rest of the string as it is. Validation accepts exactly those errors whose rendering finds every referenced parameter and wrapped error, with the documented difference between checking as a final error, as a base, or with given data.",
 ["programs","inputs"], "all byte strings (including invalid UTF-8, unbalanced and nested braces), all data maps and wrapped errors",
 "Parser error paths depend on nesting depth and token order; a fixed list of misparses cannot cover them.",
 [EW+"formatting_parse.go", EW+"formatting_interpolate.go", EW+"validate.go", EW+"plainErrorWithParams.go"],
 [("error-recovering parser", EW+"formatting_parse.go"), ("syntax and parameter verification", EW+"formatting_interpolate.go")],
 ["Error(), ValidateSyntax, ValidateError_*"])
prop("P32", "Sentinel errors keep distinct identities through wrapping",
 "An error is matched (errors.Is) by a sentinel, boxed against comparison or not, exactly if it was derived from that sentinel through any chain of the package's functions and standard wrapping; sentinels made from equal inputs are distinct, and the library's exported sentinels match only what the documentation says they wrap. Boxing changes neither message, data nor validation of an error nor what it matches, makes it incomparable with ==, and is undone by unboxing.",
 ["inputs","histories"], "all pairs of sentinels created from equal or different messages and data, all derivation chains",
 "Two sentinels created from identical inputs are the interesting case; tests compare few pairs.",
 [EW+"incomparableWrapper.go", "bandersnatch/bandersnatchErrors/", "internal/errorTransform/"],
 [("identity-carrying wrappers", EW+"incomparableWrapper.go")],
 ["==, errors.Is, Error(), GetData_map"])

# ---------------------------------------------------------------- support
prop("P33", "End-of-file translation preserves every other aspect of errors",
 "Translating an end-of-file condition into an unexpected one changes exactly those errors that match the former, in any chain, and leaves all others, nil included, as they are. The translated error matches the new condition, no longer matches the old one, and keeps exactly the attached data and, for the typed variant, its static type; without data it is the standard error itself.",
 ["inputs","histories"], "all error chains mixing plain errors, wrapped errors, errors with data and the standard end-of-file errors",
 "Only the two standard sentinel errors are used directly in tests; wrapped ones are not.",
 ["internal/errorTransform/", "internal/errorconsts/"],
 [("wrapper with custom matching", "internal/errorTransform/")],
 ["errors.Is, data, message"])
prop("P34", "The stack is a last-in first-out sequence",
 "Any interleaving of pushing (by value or by reference), popping, peeking at any depth, in-place modification through the top reference and size queries behaves like the same operations on a list. Popping or peeking beyond the contents fails loudly.",
 ["histories"], "all operation sequences, all element types and sizes",
 "Histories that shrink and regrow the stack are unbounded; the test runs one script.",
 ["internal/stack/"],
 [("slice-backed stack", "internal/stack/")],
 ["values returned"])
prop("P35", "Call counters count exactly what is attributed to them",
 "After any sequence of counter creations, attachments, increments, corrections and resets, the value of each counter equals the sum of the increments times the weights over all paths of declared additions, whatever the order of the declarations. Reports list exactly the visible counters below each display root (or only those that are not zero; what is cut off hides what is below it) with that value, in a structure matching the declared hierarchy.",
 ["histories"], "all forests of counters and attachments, all sequences of increments, corrections and resets",
 "The test uses one small fixed hierarchy.",
 ["internal/callcounters/"],
 [("global registry with propagation lists", "internal/callcounters/")],
 ["Get, reports"])
prop("P36", "Precomputed sequences are prefix-stable under concurrent use",
 "A cache of reproducible pseudo-random sequences hands out, for a given key, prefixes of one and the same sequence however requests of different lengths are ordered or run concurrently, and distinct keys do not interfere. Returned slices are private to the caller, and prepopulated data are returned verbatim.",
 ["histories","schedules"], "all interleavings of requests with varying keys and lengths, mutation of returned slices, prepopulation",
 "Tests run one sequential script.",
 ["internal/testutils/"],
 [("mutex-protected map of generators and slices", "internal/testutils/")],
 ["returned slices"])
prop("P37", "Reflection and collection helpers agree with their definitions",
 "The shared helpers for argument binding, list membership and equality under normalisation, comparison of slices and maps, aliasing of slices, limb and big-integer conversion, calling functions and methods by reflection, cloning, nil and type inspection, field enumeration of structs and assertion return exactly what their definition says, for all inputs. Inputs outside their domain fail loudly.",
 ["inputs","programs"], "all lists, values, struct types and integers",
 "Each helper has a handful of examples.",
 ["internal/utils/", "internal/testutils/", "bandersnatch/common/clone.go", "bandersnatch/common/call_fixNil.go"],
 [("generic helper functions", "internal/utils/")],
 ["return values"])
prop("P38", "Simulated faulty streams fail exactly where designated",
 "A simulated stream used for fault injection behaves like an ordinary in-memory buffer up to its designated fault position, then fails with exactly the designated error, transferring exactly the bytes before that position. Resetting restores the initial behaviour.",
 ["histories","fault_sequences"], "all sequences of reads and writes of any sizes and all fault positions",
 "The test uses one buffer and one fault position per case.",
 ["internal/testutils/"],
 [("byte buffer with counters", "internal/testutils/")],
 ["counts, contents, errors"])
prop("P39", "Concurrent use gives the same results as use in sequence",
 "Goroutines that work on distinct points, field elements, exponents, integers, buffers and serialisers never influence each other, and errors, serialisers and normalised field elements may be shared by goroutines that only read them: in every interleaving, all results are those of running the goroutines one after the other, without data races. The first use of a struct type with errors may happen in several goroutines at once, and handlers for invalid points are exchanged atomically.",
 ["schedules","inputs","histories"], "all programs run by up to six goroutines on private and shared values, and all interleavings",
 "The repository has no concurrent test for any of this.",
 [EW, CP, FE, PS, "bandersnatch/exponents/"],
 [("locked table of struct types", EW+"params_to_data.go"), ("locked handler", CP+"error_handler.go"), ("immutable serialisers", PS), ("normalised field elements are not changed by reads", FE+"field_element_montgomery.go")],
 ["results of all operations, reports of the race detector"])
prop("P40", "Point types of the user's own are accepted like the library's",
 "Every operation, conversion, comparison, mapping, list operation and serialiser that takes a curve point through an interface accepts points of types that are defined outside the library, whether they implement the exported interface anew or embed a point of the library, and gives the same result as for a point of the library's own types that holds the same value: points at infinity, the neutral element and points outside the subgroup included. Receivers restricted to the subgroup refuse the same operands, invalid points stay invalid, and operands keep their value, also when the argument embeds the receiver.",
 ["inputs","histories"], "all types that satisfy the exported interface as documented, all points, all receivers and argument positions",
 "Tests only use the types of the library, so the generic branches of the type switches are hardly ever run.",
 [CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go", CP+"curve_point.go", PS+"serialize_curve_point.go"],
 [("default branches of type switches", CP), ("optional coordinate interfaces", CP+"curve_point.go")],
 ["results of operations, operands afterwards"])
prop("P41", "Published constants denote the documented objects and stay so",
 "The published constants denote what is documented, in every form and package that publishes them: size, 2-adicity and dyadic root of unity of the field, orders, cofactor, exponent and endomorphism eigenvalue of the curve, its parameters a and d, the powers of two, the distinguished field elements, and in every point type the neutral element, the point of order two, both points at infinity and the generator of the subgroup. No sequence of operations that uses constants as operands or copies them, and nothing done afterwards to results, copies and clones, changes what any constant denotes or what later operations compute.",
 ["inputs","histories"], "all sequences of operations with constants as operands, arguments and sources of copies, and all changes to their results",
 "Tests compare some constants with others once, and none uses them as operands in longer sequences.",
 ["bandersnatch/common/common_constants.go", FE+"field_element_constants.go", CP+"bandersnatch_constants.go", "bandersnatch/exponents/exponent_constants.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("tables of constants", "bandersnatch/common/common_constants.go"), ("constants of the field", FE+"field_element_constants.go"), ("copies of internal points", CP+"curve_point_xtw.go")],
 ["values of all constants after each operation", "results of operations"])
prop("P42", "Counting field operations is exact and changes no result",
 "When the library is built with the tag callcounters, every basic field operation (addition, subtraction, negation, multiplication, multiplication by five, squaring, doubling, inversion, division, the Jacobi symbol, and their in-place forms) adds exactly one to the total number of field operations and to the counters of its kind and category, whatever the operands and however they share storage. IncrementCallCounter of each package adds exactly one to the counter named; benchmarks report each non-zero counter divided by the number of rounds. Results of field and point operations are those computed without counting.",
 ["inputs","histories"], "all sequences of basic field operations, increments and resets, with any operands and sharing; all benchmarks",
 "The tests are never built with counting on.",
 [FE+"callcounters_active.go", FE+"field_element_montgomery.go", CP+"callcounters_active.go", "bandersnatch/callcounters_active.go", "internal/callcounters/"],
 [("build tag that turns counting on", FE+"callcounters_active.go"), ("corrections for operations made of others", FE+"field_element_montgomery.go")],
 ["values of counters after each operation", "metrics of benchmarks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
