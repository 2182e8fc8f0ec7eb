"""What each check generates per tier, and the wording of its evidence."""

COMMON = [
    "elements are finite and results stay inside the normal range of the type, except where a facet says otherwise (special values in element-wise operations)",
    "the oracle is computed independently in extended precision (80-bit), or is an exact relation between calls",
    "matrix shapes that the library only asserts on (no documented error) are generated conforming",
    "the sign of zero, the contents of 'uninit' objects and the state of moved-from objects are not judged",
]

DEFAULT = {
    "san_share": 0.25, "san_backends": ["I", "B"], "plain_backends": ["I", "B", "L"], "shards": {"plain": 3, "san": 4},
    "soft_cap": {"quick": 300, "thorough": 560}, "hard_cap": 840, "fuzz_seconds": 120, "assumptions": COMMON,
}

# quick: multiplier of the facet weights per build; thorough: 30 times that, or until the wall cap
_Q = {"C01": 14, "C02": 78, "C03": 94, "C04": 87, "C05": 52, "C06": 28, "C07": 35, "C08": 23, "C09": 14, "C10": 71, "C11": 50, "C12": 12,
      "C13": 13, "C14": 66, "C15": 80, "C16": 45, "C17": 60, "C18": 33, "C19": 25, "C20": 113, "C21": 9, "C22": 10, "C23": 25, "C24": 60}

_RULE = {
    "C01": "random operation, storage kinds, length (biased to 0, small and block boundaries), values and aliasing; non-trivial: length >= 1 and the operation can change the value (scalar != 1)",
    "C02": "random lengths, storage kinds and values; non-trivial: length >= 2 and the sum of the absolute products is not zero",
    "C03": "random pairs/triples of lengths for every throwing form; non-trivial: the lengths differ (construction facet: every case, right and wrong lengths)",
    "C04": "random 2- or 3-element operands, storage and aliasing; non-trivial: the products are not all zero",
    "C05": "random histories of construction, writes, copies, moves, assignments against a row-major model; non-trivial: the history copies and writes (matrix facets: and has a non-square matrix or more than one element)",
    "C06": "random shape, storage, operation, aliasing, values; non-trivial: non-empty and binary or scalar != 1",
    "C07": "random shape, storage, scalars, aliasing; non-trivial: alpha != 0, more than one element, and not (square, unaliased, beta = 0)",
    "C08": "random shapes n x l x m, storage, scalars, aliasing; non-trivial: alpha != 0, more than one product, and not (square, unaliased, beta = 0)",
    "C09": "random invertible 2x2 matrices; non-trivial: not of the form [a b; b a]",
    "C10": "random histories on packed matrices against a dense model; non-trivial: order >= 2 and at least one write",
    "C11": "random growth histories against a model, and back substitutions; non-trivial: at least two extensions (back substitution: order >= 2)",
    "C12": "random position sets and histories against a map model; non-trivial: some matrix of the history has three or more entries (array-length facet: inconsistent lengths)",
    "C13": "random chains of sparse operations against map models; non-trivial: at least one sum of matrices whose patterns overlap partly",
    "C14": "random patterns, scalars, aliasing; non-trivial: three or more entries, alpha != 0, and holes, a non-square shape, aliasing or beta != 0",
    "C15": "random dominant systems with histories of solves; non-trivial: at least two solves and order >= 2",
    "C16": "random positive definite matrices with histories of solves, and matrices with a bad pivot at a random position; non-trivial: order >= 2 and at least one solve (rejection: order >= 2)",
    "C17": "random symmetric indefinite matrices with histories of solves, and zero pivots at a random position; non-trivial: order >= 2, a negative pivot, at least one solve (rejection: order >= 2)",
    "C18": "random matrices per storage with histories of solves, and zero pivots at a random position; non-trivial: order >= 3 and at least one solve (rejection: order >= 2)",
    "C19": "random solver objects and interleaved solves; non-trivial: order >= 3, not diagonal, at least one solve",
    "C20": "random independent collections in several containers; non-trivial: three or more vectors, not orthogonal already",
    "C21": "random programs over three registers of each kind against exact arithmetic; non-trivial: four or more operations",
    "C23": "random diagonally dominant systems solved by every solver that accepts them; non-trivial: order >= 2 and at least four solves",
    "C24": "random sets of operations, each repeated with fresh memory filled with different bytes; non-trivial: every case (each runs at least one operation six times)",
    "C22": "random sets of tasks spread over 2 to 6 threads, repeated, against the same tasks run one after another; non-trivial: at least two tasks run at once",
}
_TAIL = "; distinct: different sequences of generator choices"

CONFIG = {p: {"quick": q, "thorough": q * 30, "rule": _RULE[p] + _TAIL} for p, q in _Q.items()}
for p in ("C15", "C16", "C17"):
    CONFIG[p]["san_backends"] = ["I", "B", "L"]
CONFIG["C22"].update(san_backends=["I"], builds={"san": ["-O1", "-g1", "-fsanitize=thread"]}, shards={"plain": 2, "san": 3}, fuzz_seconds=0)
CONFIG["C24"]["fuzz_seconds"] = 0        # the harness replaces the allocation functions
CONFIG["C21"]["san_opt"] = "-O0"
for p in ("C01", "C06", "C21"):
    CONFIG[p]["plain_backends"] = ["I", "B", "L", "A"]

# technique and assurance per property, for MANIFEST.json
_PBT, _MODEL = "property-based testing against a ", "stateful model-based testing against a "
NOTES = {
    "C01": (_PBT + "scalar reference in extended precision, with metamorphic checks (aliasing, operand preservation, returned reference)", "Random lengths, values (special values included), aliasing and thread counts; exact where the formula is correctly rounded, else a few-roundings bound."),
    "C02": (_PBT + "compensated extended-precision reference; exact on integer data, symmetry and agreement of all calling forms", "Error bound grows with length only; data of all magnitudes inside the normal range."),
    "C03": ("property-based error-path testing: random mismatching sizes, oracle is the exception and unchanged operands, under sanitizers", "Every throwing form and every pair of fixed lengths that is instantiated; memory safety by AddressSanitizer and guard values."),
    "C04": (_PBT + "component-formula reference in extended precision, metamorphic antisymmetry and aliasing", "Random operands in all callable storage combinations, exact on integers."),
    "C05": (_MODEL + "row-major array model", "Random histories of construction, access, copy, move and assignment."),
    "C06": (_PBT + "scalar reference, with aliasing and operand-preservation checks", "Random shapes including empty ones, values and thread counts."),
    "C07": (_PBT + "extended-precision reference with running error bound; exact on integers; differential over all calling forms", "Shapes up to a few hundred; error bound of a sum of the row length."),
    "C08": (_PBT + "extended-precision reference with running error bound; exact on integers; differential over all calling forms", "Shapes up to about a hundred; includes C aliasing A and/or B."),
    "C09": (_PBT + "extended-precision adjugate reference; differential over calling forms; round trip", "Random well- and ill-conditioned invertible matrices."),
    "C10": (_MODEL + "dense model", "Random orders, contents and write histories, including every structural zero."),
    "C11": (_MODEL + "dense model; residual oracle for back substitution", "Random growth histories with error injection."),
    "C12": (_MODEL + "map from positions to values", "Random patterns with empty rows/columns and none at all, in random entry order, through every conversion, copy and move."),
    "C13": (_MODEL + "map from positions to values", "Random chains of sums, differences, scaling on matrices of different shapes."),
    "C14": (_PBT + "dense extended-precision reference with running error bound; exact on integers", "Random patterns with unordered columns, aliasing, and all scalars."),
    "C15": ("stateful property-based testing with a residual (backward error) oracle and known-solution exact systems", "Random dominant systems, repeated solves in random order and form."),
    "C16": ("stateful property-based testing with factor-product and residual oracles; exact integer factors; pivot fault injection", "Positive definite matrices of many kinds, bad pivots at every position."),
    "C17": ("stateful property-based testing with factor-product and residual oracles; zero-pivot injection", "Indefinite matrices built from known factors, zero pivots at every position."),
    "C18": ("stateful property-based testing against a reference ILU(0) and the pattern-product relation; zero-pivot injection", "Random patterns in dense, coordinate and compressed-row storage."),
    "C19": ("stateful property-based testing with a recomputed preconditioned-residual oracle; differential over storage, repetition and interleaving", "Well-conditioned random systems; tolerance as requested up to a rounding allowance."),
    "C20": (_PBT + "modified Gram-Schmidt reference in extended precision and orthogonality / projection relations", "Random well-conditioned collections in vector, array and deque containers."),
    "C21": ("stateful model-based testing of random programs against exact integer arithmetic, run on every backend", "All results must be exactly representable, so equality is exact; any difference between backends, storage kinds or thread counts shows as a difference from the model."),
    "C22": ("concurrency fuzzing: random task sets in 2 to 6 threads, differential against the same tasks in one thread, under ThreadSanitizer for the internal backend", "Interleavings are sampled by repeated runs; the race detector sees every conflicting pair of accesses that is executed, whatever the interleaving."),
    "C24": ("metamorphic property-based testing: random operations repeated under instrumented allocation with differently filled memory, oracle is equality of results, intact guards and constant memory use", "Heap memory by replaced allocation functions with guards and by AddressSanitizer, stack memory by overwriting it before every run; reads of foreign memory show as differing results."),
    "C23": ("differential property-based testing of all solvers on one system, metamorphic multiply-back, inverse computed in extended precision as arbiter", "Random diagonally dominant systems; forward error bound scaled with the condition number, GMRES with its tolerance."),
}
