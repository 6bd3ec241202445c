"""Per property: the oracle, and why generated search reaches what the tests cannot."""
D = {
"P01": ("math/big, through conversions of single words made by the harness (not those of the library); every aliasing of receiver and operands.", "carries that cross particular limbs occur with probability 2^-64 for uniform words; the generator aims at them."),
"P02": ("congruence and range over math/big, the bounds of the documented reduction classes a, b, c, f; panics or flags for non-invertible input.", "values within 2^64 of the bounds of lazy reduction never occur by chance and are not all in the tests' lists."),
"P03": ("the prime field over math/big; equality through both internal representations; histories on registers against integer registers.", "non-canonical representatives arise from histories, and a test that starts from fresh elements does not meet them."),
"P04": ("math/big: ModInverse, ModSqrt relation (square of the root), Legendre by Euler's criterion, Exp; also that failures leave the receiver alone.", "elements of each 2-power order, exponents at window boundaries."),
"P05": ("element-wise operation, reference sums and products, the exact set of zero indices in the error's data.", "positions and numbers of zeros, aliased receivers, lists beyond the size classes used by tests."),
"P06": ("math/big conversions, fmt's output for the big integer, conversions to machine integers with range errors; Normalize/RerandomizeRepresentation must not be observable.", "limits of machine types and all formatting flags."),
"P07": ("byte strings made from math/big; decoding must give the same value and consume exactly 32 bytes, also through readers that deliver in pieces.", "every combination of byte order, prefix length, prefix bits, interface, internal representation."),
"P08": ("a model of what must happen: which error (errors.Is), which data, how many bytes, whether the receiver keeps its value, what was written.", "faults at every byte, every prefix, around the modulus."),
"P09": ("byte strings by math/big; header model of (bits, length); panics exactly for the documented misuse.", "all 256 x 256 headers and any buffer length."),
"P10": ("affine arithmetic of the twisted Edwards curve over math/big with complete laws; every type combination, sharing pattern and representation.", "operand types, representations and sharing give thousands of paths; tests sample a few each."),
"P11": ("the same reference on P1xP1, so that points at infinity and their sums are exact.", "sums that hit infinity or A through internal representatives (P+A) occur only for chosen pairs."),
"P12": ("equality and predicates of the abstract reference point (modulo A for subgroup types).", "representation pairs, and predicates on points in unusual representatives."),
"P13": ("multiplication by the group order over math/big.", "points in all 8 cosets, in all types and representatives, and receivers with previous content."),
"P14": ("coordinates of the reference point; any sequence of reads must keep the point and the answers.", "reads normalise internally: the order of reads matters."),
"P15": ("multiplication by the eigenvalue on the reference curve in the subgroup, the closed formula on other points, homomorphism and kernel.", "exceptional points, and receivers that share storage."),
"P16": ("one-by-one normalisation, index sets of failures by construction.", "positions and numbers of points that cannot be normalised."),
"P17": ("curve equation, root extraction, subgroup test of the reference; the exact sentinel, its data, nil results.", "one value off; coset points that satisfy the equation but are not in the subgroup; signs other than +-1."),
"P18": ("the documented behaviour of invalid points (handler called, result invalid, queries false), with handlers that record, answer true or false, or panic.", "all internal patterns of invalid points with all operations; chains of operations after them."),
"P19": ("equality of two runs with the same seed; coset and bit statistics with error probability below 2^-60 per run.", "a distribution cannot be seen from single samples."),
"P20": ("an encoder and decoder over math/big, written from the documented formats.", "all parameters of serialisers together, all types of points, deliveries in pieces."),
"P21": ("the reference decoder decides acceptance and the point; the error family and the unchanged receiver.", "encodings that are almost valid: other representative, coset, non-canonical numbers, other header bits."),
"P22": ("model of headers and footers around lists; exact sizes and counts.", "lengths, wrong sizes, sub-slices of larger arrays, altered headers."),
"P23": ("model of the number of bytes transferred and of PartialRead/PartialWrite, which points are set; ActuallyRead is part of what was consumed and BytesRead not above it.", "faults at every byte position of every layout."),
"P24": ("map of all parameters of all live serialisers after each step; deep copies of arguments.", "aliasing between derived serialisers shows only in histories."),
"P25": ("math/big modulo p253 and the exponent of the curve.", "limbs equal to those of the modulus, any multiple, aliasing."),
"P26": ("u + v*lambda congruent to the exponent, and length not above that of any of 24 neighbours in the lattice, both documented norms.", "ties of rounding and corner cells of the lattice have probability far below 2^-60."),
"P27": ("evaluation of the digit string over math/big, ranges, parity, order, and documented bounds on the digits.", "runs of ones across limb and window boundaries, top windows with carry."),
"P28": ("maps: for each error the parameter map by the documented merge of its construction; messages; type restrictions.", "histories of wrapping with replace, keep, delete, and boxing; types with embedded data."),
"P29": ("own computation of Go's field promotion for generated struct types.", "190 struct types with shadowing and ambiguity."),
"P30": ("an own evaluator of the grammar in the documentation, over the chain model.", "the product of grammar, chain, parameters."),
"P31": ("an own tokeniser, parser and checker: text before and after the error, results of all validators; no panic, no endless loop.", "malformed strings in any place, deep nesting, unusual Unicode."),
"P32": ("reachability in the graph of sentinels and derivations.", "distinctness of sentinels made from equal input, boxed several times."),
"P33": ("model of the chain: which parts are end of file, what must be kept.", "look-alike errors and chains of different kinds of wrappers."),
"P34": ("slices.", "growth and shrinking interleaved."),
"P35": ("sums over all paths of the graph of counters; lists and reports parsed back.", "graphs in arbitrary order of creation, including forward references."),
"P36": ("the sequence of the source for the key, prefix relations, race detector, deadlock watchdog.", "schedules, panicking sources."),
"P37": ("own definitions by sorting, maps, big integers, Go's reflection on other paths.", "random types, aliasing slices, malformed numbers."),
"P38": ("byte slices and the designated position of the fault.", "histories around the fault."),
"P39": ("the same programs run one after the other on other copies; chains for exchanges; race detector.", "interleavings, caches that are filled by several goroutines at once."),
"P40": ("an affine model over math/big; results must be those of the model whatever type carries the operand.", "the generic branches of the type switches run only for types nobody in the repository defines; representations that change between calls."),
"P41": ("constants of the harness (and relations that define them) over math/big, and the affine model of the curve.", "constants that are changed by using them: normalisation, sharing of memory, clones and copies, over histories."),
"P42": ("how often each operation was called, by the harness's own count; the field over math/big and the affine model of the curve for results.", "counting is compiled out everywhere else; operations made of others must not count twice, on any path."),
}
