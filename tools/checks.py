"""The checks: which harness package and test decides which property, and the rule for non-trivial cases."""
KNOWN_FINDINGS_FILE = "KNOWN_FINDINGS.txt"
CHECKS = {}
def check(pid, pkg, rule, **kw):
    CHECKS[pid] = dict(pkg=pkg, test="Test" + pid, rule=rule, **kw)

check("P01", "field", "operands drawn from a mixture of limb patterns, neighbourhoods of p, 2p, 2^256-p, powers of two, runs of ones and uniform words; every operation of the type is applied to each draw in all aliasing patterns. Non-trivial: a carry, borrow or comparison crosses a limb boundary (several limbs in use; for conversions: out of range)")
check("P02", "field", "operands drawn as for P01 below the documented bound of each operation. Non-trivial: an operand, sum, difference or product lies within 2^66 of 0, p, 2p, 2^256-2p, 2^256-p or 2^256 (for the reduction of 512 bits: more than 256 bits). The unused alternative reductions and Montgomery steps in the package are checked likewise, and so are the constants of a Barrett reduction computed for moduli of all shapes (powers of two and their neighbours, near-exact quotients), whose case is non-trivial when the modulus is accepted")
check("P03", "field", "operands drawn as special values, values with special Montgomery words and uniform residues, each in either internal representation; histories are up to 60 operations on 5 registers, with aliasing, against integer registers. Non-trivial: an operand exceeds 64 bits; a history has at least 3 steps")
check("P04", "field", "elements as for P03, squares of known elements, elements whose order has a chosen power of two, and zero; exponents small, near p, powers of two, arbitrary 256 bits; roots of unity of order 2^n and the sliding-window exponentiation kept beside the one in use. Non-trivial: the element (for powers: the exponent) exceeds 64 bits (sliding window: the exponent is short or the base near a bound; order: the element is a root of unity)")
check("P05", "field", "lists of 0 to 40, rarely up to 4097 elements with zeros, ones and minus ones mixed in, in either representation, receiver possibly among the arguments. Non-trivial: at least two elements")
check("P06", "field", "residues and arbitrary integers (any sign, up to 12 words, near multiples of p and near machine-integer limits), all formatting flags. Non-trivial: the value exceeds 62 bits (setting: is outside [0,p))")
check("P07", "field", "field elements in either representation and 256-bit integers, through methods, free functions, buffer and byte-slice variants, both byte orders, all prefixes of 0 to 8 bits, delivered in chunks; sequences of up to 6 values written and read through different interfaces. Non-trivial: the value is not zero (sequences: at least two values)")
check("P08", "field", "reads from inputs truncated anywhere, ending with io.EOF or other errors, going on after an error or not, with and without prefix mismatch, numbers around the modulus, invalid prefix lengths; writes to writers failing at any byte, once or from there on, and to slices of any size, values around the limit set by the prefix. Non-trivial: an error is due")
check("P09", "comm", "256-bit integers as for P01, all calling forms, buffers longer and shorter than needed, byte orders set in every way and unknown byte orders; headers over all bits and lengths 0 to 255. Non-trivial: the integer exceeds one limb; the header is not empty")
_pts = "points drawn as known multiples of the generator (small, sparse, dense) plus any of the four torsion points, from random x, and in special relation to each other (equal, negated, shifted by torsion, doubled), held by any of the six types in random internal representations (projective scale, both Montgomery forms, P or P+A for subgroup types, infinity with any T), against affine/P1xP1 arithmetic with complete laws over math/big. "
check("P10", "curve", _pts + "Every operation with all type combinations and sharing patterns, associativity over three points, histories of up to 30 operations on registers; the unused alternative formulas in the package are checked likewise, outside their documented exceptional cases. Non-trivial: operands and result are finite and not 2-torsion (histories: at least 4 steps; multiples by square and multiply: exponents of more than 64 bits)")
check("P11", "curve", _pts + "Operands biased to torsion points and to pairs whose sum or difference is torsion; the full 4x4 torsion table in all types; Non-trivial: an operand or the result is a torsion point (table: no operand is neutral)")
check("P12", "curve", _pts + "Invalid points: coordinates of a valid point with one of them shifted; coordinates of points outside the subgroup in subgroup types. Non-trivial: an operand is not 2-torsion (predicates: always; invalid: the result is not a point after all)")
check("P13", "curve", _pts + "Conversions into fresh, used and identical receivers. Non-trivial: the point is not 2-torsion")
check("P14", "curve", _pts + "Sequences of up to four reads of any coordinate form per point. Non-trivial: the point is not 2-torsion")
check("P15", "curve", _pts + "In place, into itself, into fresh and used receivers of every admissible type. Non-trivial: the point is not 2-torsion (homomorphism: both are not)")
check("P16", "curve", "lists of 0 to 13, rarely up to 2049 points of each type, parts of longer slices, with infinities and uninitialised entries in any positions; normalised for Y or Z, once or twice, and compared with one-by-one normalisation; views of all kinds compared by identity of elements and with changes on both sides. Non-trivial: at least two points")
check("P17", "curve", "coordinates of points from all cosets, with one value off, swapped, random, zero, exceptional (where a denominator of a formula vanishes, such as sqrt(a/d)), or signs flipped, signs from -2^32 to 2^31; all ten constructors in both trust modes against FromX/FromY/subgroup membership of the reference. Non-trivial: no coordinate is zero (signs: the sign is 1 or -1; X only: exceeds 64 bits; map: an operand is not 2-torsion)")
check("P18", "curve", "uninitialised points and all coordinate patterns of invalid points of the six types, alone and paired with points or invalid points: every query, every operation with every type combination, chains of 2 to 12 operations, installed handlers that answer true or false, and the detectors of invalid points that the package keeps for its tests (on valid points, too). Non-trivial: the case has an invalid operand")
check("P19", "curve", "random 64-bit seeds, short runs compared with a second source of the same seed, and runs of 160 samples with statistics that fail with probability below 2^-60 per run for uniform samples: every bit and every residue mod 3, 5, 7 varies, no repetition, both quadratic characters, all sign pairs, all four cosets of the subgroup; the samplers of each point type and of invalid points, and the changes of representation, that the package keeps for its tests. Non-trivial: every seed")
_ser = "serialisers: the two exported ones and those of the three unexported formats and without bit headers, changed by up to six parameters (byte order, subgroup restriction, bit headers of 0 to 8 bits, six headers and footers of 0 to 80, rarely up to 5000 bytes), also as deserialisers, reading through readers that deliver in chunks; points as for P10, of all six types; against a model that encodes and decodes with math/big. "
check("P20", "serial", _ser + "Bytes against the model, round trips with data following, field-element encodings; the serializers of values below the formats by themselves. Non-trivial: the x coordinate is not zero (values: none is zero)")
check("P21", "serial", _ser + "Encodings made of related coordinates (negated, swapped, other representatives, other coset, off by a little, exceptional for the curve, other prefixes), bit flips, random bytes, wrong headers; points that a format cannot hold. Non-trivial: the bytes are long enough to be judged as a point")
check("P22", "serial", _ser + "Lists of 0 to 6, rarely up to 2049 points read singly, in batches, variadically, as slices into new and existing buffers of right and wrong size within larger arrays and through functions of the harness that give mixed or longer views or refuse; sizes, headers, points altered, sizes up to 2^32-1. Non-trivial: at least two points (hostile: always)")
check("P23", "serial", _ser + "Input ending or failing at any byte (boundaries of parts preferred) and going on afterwards or not, output failing at any byte, once or from there on, for single points, batches, bounded batches, slices, and the serializers of values below the formats. Non-trivial: the fault occurs within what is to be transferred")
check("P24", "serial", "histories of up to 10 derivations, clones, conversions to deserialisers, uses, refused changes and overwritten arguments on a growing set of serialisers, all parameters of all of them compared with the model after every step under random spelling; unknown names and wrongly typed values; histories of the five serializers of values below the formats. Non-trivial: at least two derivations (values: changes; refused: always)")
check("P25", "exp", "integers of any sign and up to 12 words near multiples of either modulus, powers of two and machine limits, and with limbs equal to those of the moduli; all aliasing patterns; histories of up to 30 operations on 4 registers. Non-trivial: the integer is outside [0,p253); the sum wraps or the difference borrows; at least 4 operations")
check("P26", "exp", "exponents at rational multiples of the lattice basis, at rounding ties of either coefficient, at midpoints to the neighbours, at the bound, with zero or equal components, near the moduli, uniform. Minimality against all 24 pairs that differ by at most two basis vectors of each kind. Non-trivial: another pair is longer by less than a thousandth")
check("P27", "exp", "bit patterns with long runs, few ones, few zeros, special limbs, uniform; windows of 1 to 63 bits (unsigned) and 1 to 8 bits (signed); evaluation of the digits, and arithmetic of the 128-bit helpers, against big integers. Non-trivial: two digits, and ones on both sides of a limb boundary (helpers: the sum overflows)")
check("P28", "errs", "histories of up to 14 steps that make, wrap, extend, reduce, convert, box errors of any and of 190 struct types, over a growing set of errors with foreign ones of six kinds; after each step the data and message of every error, and all queries for the new ones, are compared with maps. Non-trivial: some error has at least three ancestors in the history and two parameters (nil: the type has fields)")
check("P29", "errs", "190 generated struct types with nested embedding, shadowing, ambiguous, unexported and interface fields, against an own layout of fields; values of every kind; maps with missing, nil and wrongly typed values. Non-trivial: a field comes from an embedded struct (partial: some but not all fields are missing; subtypes: both have fields)")
check("P30", "errs", "interpolation strings written from random parts (literals of special characters in any spelling, 32 verbs, parameters, whole maps, nested conditions, wrapped messages), on chains of up to 6 errors of any kind that inherit, add, drop parameters, rendered on their own and with four maps passed, against an own evaluator. Non-trivial: a message without diagnostics of at least three parts, over a chain of three errors, and a nested condition")
check("P31", "errs", "strings of random tokens, random bytes, well-formed strings edited in up to three places, invalid verbs, names, conditions, nesting to 3000 levels; against an own tokeniser, parser and checker that gives the text before and after the place of the error and all five validation results; references to missing parameters and wrapped errors; names of identifiers over Unicode. Non-trivial: the string is malformed after a well-formed part (missing: valid as base, not as final error; names: two characters)")
check("P32", "errs", "families of 2 to 4 sentinels made from equal or different inputs by six makers, wrapping each other or a common error, each boxed up to four times in three ways, with up to 8 errors derived through 13 ways; and the 27 errors exported by the library with up to 12 derived ones. The full matrix of errors.Is against reachability. Non-trivial: at least three derived errors")
check("P33", "errs", "chains of up to 4 layers of ten kinds over end-of-file errors, look-alikes and others, with data inherited, replaced, dropped; typed errors, boxed or not. Non-trivial: at least two layers (typed: one layer below the struct)")
check("P34", "internals", "histories of up to 40 steps (pushes and pops of up to 300 elements in a step) on up to three stacks at once, of six element types, made in three ways, against slices; references to top and deeper elements written through; positions outside. Non-trivial: grown twice and shrunk once")
check("P35", "internals", "up to 30 creations in all ways and orders, with hidden and undisplayed counters, additions and subtractions with any weights between up to 8 counters, increments, corrections, resets and reads, counters referred to before they are created; sums over all paths; the lists with both options and the structure report parsed back. Non-trivial: increments pass over two links")
check("P36", "internals", "up to 20 requests in a row for four keys, or 2 to 8 goroutines with up to 6 requests each at once, lengths in any order, results scribbled over, prepopulated lists, keys of seven types that are alike, up to 5000 elements, sources that panic, functions left out; sequences are those of the source for the key. Run under the race detector. Non-trivial: at least two requests (goroutines: four; forms: not empty)", race=True, procs=4)
check("P37", "internals", "integers in all forms and radices and malformed ones; lists with duplicates, NaN, nil and normalisers; maps with nil values; slices of one or two arrays; functions and methods with random signatures called by reflection with nil, missing and wrongly typed arguments; types with and without suitable Clone methods; fixed and generated types; struct types made by reflection with nested embedding. Non-trivial: both lists (maps) have two elements; the integer exceeds 128 bits; slices share an array; two arguments; the method exists and has a signature; the type is unnamed; a field is two levels deep")
check("P38", "internals", "histories of up to 30 reads, writes, resets and replaced contents, sizes near the fault preferred, on buffers with a fault at 0 to 100, rarely up to 5000 bytes and five errors, against byte slices; the buffers used through the functions of io. Non-trivial: a fault was hit (streams: the fault is before the end)")
check("P39", "serial", "2 to 6 goroutines that run programs of up to 12 steps at once (field elements, integers and exponents; points of all types; serialisers and deserialisers; errors of all kinds; 200 struct types not seen before; any of 1100 methods of values of 30 types and functions on them, with drawn arguments; exchanges of the handler), on private copies and on shared values, some running the same program; every result compared with a run in sequence on other copies, exchanges with a chain. Run under the race detector. Non-trivial: at least three goroutines (errors: and two errors; types: not all types were seen)", race=True, procs=4)
check("P40", "curve", "points of seven types that are defined in the harness: implementations of the exported interfaces only, whose representation changes between calls wherever that is allowed, and structs that embed a type of the library; every operation, conversion, comparison, mapping, list operation and serialisation with each of them in each argument position, beside receivers of all six types of the library, also with arguments that embed the receiver. Non-trivial: the point is not neutral (invalid: always)")
check("P41", "curve", "all published constants in every form and package; histories of operations on points, field elements, integers and exponents in which constants are operands, arguments and sources of copies and clones that are then changed; after each step all constants are compared with the references. Non-trivial: at least two steps use a constant (values: always)")
check("P42", "counted", "the library built with the tag callcounters; up to 16 basic field operations on four variables in any aliasing, with resets; increments through the functions of three packages; point operations of all types; benchmarks of up to 9 rounds of up to three operations, and some that are not done every round. Non-trivial: two kinds of operations (counters), or more than one operation (points: always)")

# how many times the base number of cases the quick tier generates: about ten seconds each on 8 cores
QUICK_SCALE = {'P01': 10, 'P02': 4, 'P03': 2, 'P04': 5, 'P05': 5, 'P06': 4, 'P07': 8, 'P08': 4, 'P09': 16, 'P10': 2, 'P11': 2, 'P12': 3, 'P13': 3, 'P14': 3, 'P15': 2, 'P16': 3, 'P18': 3, 'P19': 2, 'P20': 4, 'P24': 6, 'P25': 8, 'P26': 8, 'P27': 6, 'P28': 15, 'P29': 13, 'P30': 15, 'P31': 4, 'P32': 13, 'P33': 16, 'P34': 16, 'P35': 11, 'P36': 4, 'P37': 16, 'P38': 16, 'P41': 9, 'P42': 5}
for _k, _v in QUICK_SCALE.items():
    CHECKS[_k]["qscale"] = _v
