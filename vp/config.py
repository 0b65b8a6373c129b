"""Per-property configuration of the checks: harnesses, what they decide, and within which bounds."""

REAL = ("double arithmetic is modelled as exact real arithmetic; rounding, overflow and underflow of finite values are outside the claim "
        "(counterexamples are replayed on real doubles with a relative tolerance)")
STD = ["the clang-18 front end, the instrumentation / symbolic execution code of this framework and z3 are trusted",
       "loops, sizes and degrees are concrete per case: the claim covers the degrees and dimensions listed in the bounds, and all values of the symbolic inputs for them"]
POS = "weights are positive, parameters lie in the unit cube"
TECH = {"A": "Symbolic execution of the compiled code (LLVM IR); every assertion is an SMT query over all real inputs (z3)",
        "B": "Symbolic execution of LLVM bitcode over bit-vectors and byte memory; every assertion is an SMT query (z3)"}


def A(file, **kw):
    return dict(file=file, engine="A", **kw)


def B(file, **kw):
    return dict(file=file, engine="B", **kw)


PROPS = {}


def prop(pid, harness, explanation, bounds, assumptions=(), **kw):
    eng = {h["engine"] for h in harness}
    a = list(assumptions) + ([REAL] if "A" in eng else []) + STD
    PROPS[pid] = dict(harness=harness, explanation=explanation, bounds=bounds, assumptions=a, **kw)


prop("C01", [A("C01.cpp")],
     "The real Evaluate (both overloads) runs on symbolic control points and a symbolic parameter and is shown equal to the sum of control points times "
     "Bernstein polynomials written out from their definition; corners interpolate their control points; the operand is unchanged.",
     "1D degrees 0..29, 2D degrees 0..4 per direction (thorough 0..6 and 29x2, 3x20), 3D 0..2 (thorough 0..3), three 4D shapes; scalar, 1D, 2D and 3D points")
prop("C02", [A("C02.cpp")],
     "BasisFunctions, BasisFunctionContributions and ForwardEvaluate run on a symbolic parameter: every value is shown equal to the Bernstein product of its index, "
     "non-negative, summing to one, and the basis-function evaluation equal to the definition of the spline.",
     "1D degrees 0..29, 2D 0..3 per direction (thorough 0..5) and 10x1, 2x8, 29x1, 3D 0..2, one 4D shape")
prop("C03", [A("C03.cpp")],
     "Derivatives of basis functions and EvaluateDerivative run on symbolic control points and parameter and are shown equal to the derivative of the monomial expansion of the "
     "Bernstein polynomials; orders above the degree give exactly zero.",
     "1D degrees 0..8 (thorough 0..12) with all orders up to degree+2, degrees 14, 20 and 29 with selected (thorough: all) orders; 2D degrees 0..3 with total order <=3 (thorough 0..4, mixed orders up to 4); 3D three shapes, orders 0..2 per direction")
prop("C04", [A("C04.cpp")],
     "The derivative spline is built by the real code from symbolic control points and, evaluated at a symbolic parameter, is shown equal to the derivative taken from the definition, "
     "and to EvaluateDerivative; degree and control point counts are checked.",
     "1D degrees 0..7 (thorough 0..10) with all orders up to degree+2, degrees up to 29 with selected orders; 2D degrees 0..3 total order <=3 (thorough 0..4); 3D three shapes, orders 0..2")
prop("C05", [A("C05.cpp")],
     "Order elevation, once or repeatedly along any directions, is run on symbolic control points; the elevated spline at a symbolic parameter is shown equal to the original one.",
     "1D degrees 0..28, triple elevation up to degree 8; 2D 0..2 (thorough 0..4) along eight direction sequences; 3D 0..2 along five; one 4D shape")
prop("C06", [A("C06.cpp")],
     "+, -, += and -= of two splines with independent symbolic control points are shown to be the pointwise sum and difference, of the maximal degree in every direction.",
     "1D degrees 0..4 x 0..4 (thorough 0..6) and five pairs up to 29x28; 2D 0..2 per direction for both operands (thorough 0..3), 3D 0..1 per direction and two larger pairs")
prop("C07", [A("C07.cpp")],
     "Scaling, shifting by a point on either side, negation and coordinate extraction run on symbolic control points, factors and points, and are shown to act pointwise.",
     "1D degrees 0,1,2,3,7,15,29; 2D degrees 0..3; 3D degrees 0..2; scalar, 1D, 2D and 3D points")
prop("C08", [A("C08.cpp")],
     "Products (scalar*scalar, scalar*point, point*scalar, point.point) and integer powers of splines with symbolic control points are shown equal to the product or power of the values at a symbolic parameter.",
     "1D products of degrees 0..4 (thorough 0..7) and sums of degrees up to 29; 2D 0..2 per direction (thorough 0..3), 3D three pairs; powers 0..9 of degrees 0..3 (degree*power <= 8 in quick), 2D powers up to 4")
prop("C09", [A("C09.cpp")],
     "Composition of polynomial splines runs on symbolic outer control points and inner control points ranging over the unit cube; at a symbolic parameter it is shown equal to the outer spline evaluated at the inner value.",
     "1D of 1D up to degrees 4x4 and up to resulting degree 20; 2D of 1D, 2D of 2D, 1D of 2D with degrees up to 2-3; 3D of 1D, 2D (thorough 3D), 2D of 3D")
prop("C10", [A("C10.cpp")],
     "Polynomial of rational, rational of polynomial and rational of rational compositions run on symbolic points and positive weights; numerator and denominator of the result are shown to satisfy the cross-multiplied identity with outer(inner(u)), and the denominator to be positive at the first corner.",
     "1D of 1D degrees 0..3 x 0..2, 2D of 1D, 2D of 2D, 1D of 2D, 3D of 1D with degrees up to 2", [POS])
prop("C11", [A("C11.cpp")],
     "For all four pairings the real sensitivity computation returns one spline per outer control point; each is shown equal to the derivative of the composed function with respect to that control point, and the sum of sensitivities times control points equal to the composition.",
     "1D of 1D degrees 0..3 x 0..2, 2D of 1D, 2D of 2D, 1D of 2D, 3D of 1D with degrees up to 2; polynomial pairs up to 9x1", [POS])
prop("C12", [A("C12.cpp"), A("C12g.cpp")],
     "Every composition and sensitivity entry point is run with all inner coordinates symbolic in [0,1] (must be accepted) and with exactly one coordinate symbolic outside it (must throw), for each point and coordinate; "
     "group composition must accept exactly the groups inside the cube and return one correct composition per member.",
     "five shapes (1D/2D/3D outer, 1D/2D inner) for all four polynomial/rational pairings; groups of 0..3 members", [POS])
prop("C13", [A("C13.cpp")],
     "Splitting at a symbolic position in (0,1), or at several increasing symbolic positions, is shown to return the parts that equal the original on their sub-intervals at a symbolic parameter.",
     "1D degrees 0..9 and 14 (thorough 0..29), 2D 0..3 (thorough 0..4) along both directions, 3D 0..2 along all, 4D one; multi-split at up to 3 (thorough 4) positions for 1D degree 0..5, 2D, 3D")
prop("C14", [A("C14.cpp")],
     "Splitting at a symbolic position at or beyond the ends of the unit interval, or at a list that is not strictly increasing at a given place or reaches outside, must throw; valid ones must not; an empty list returns the spline.",
     "1D and 2D polynomial and rational splines; positions symbolic in (-inf,0], [1,inf), NaN and infinities; lists of up to 4 positions, every place of disorder", [POS])
prop("C15", [A("C15.cpp")],
     "Evaluation (direct and through basis functions), basis functions, constructors, accessors, conversion from a polynomial spline, weight function and corner interpolation of rational splines run on symbolic points, weights and parameter, and are shown equal to the quotient of the weighted sums.",
     "1D degrees 0..7 (thorough 0..12), 2D 0..3 (thorough 0..4), 3D 0..2 and 1x2x3, one 4D shape; scalar, 1D, 2D and 3D points", [POS])
prop("C16", [A("C16.cpp")],
     "Pointwise derivatives of rational splines and rational basis functions are shown to satisfy the Leibniz identity sum binom(k,j) W^(j) R^(k-j) = N^(k), which determines them uniquely; end tangents are checked against their closed form.",
     "1D degrees 0..5 with orders 0..4, 2D degrees 0..2 with orders up to total 2 (thorough up to 3x1, 2x2), 3D orders up to 1 per direction", [POS])
prop("C17", [A("C17.cpp")],
     "The derivative spline of a rational spline is built by the real code from symbolic points and weights; its value is shown equal to the quotient-rule derivative of the represented function, its weight function positive at the first corner.",
     "1D degrees 0..6 with orders 0..1, up to 3 while the degree stays <=12; 2D degrees 0..3 first orders, up to total order 2 for small degrees; 3D first orders", [POS])
prop("C18", [A("C18.cpp")],
     "Sum, difference (new and in place), products, scaling, shifting, negation and coordinate extraction of rational splines with independent, identical or partly identical symbolic weights are shown to act pointwise on the represented functions.",
     "1D degrees 0..2 or 0..3, six 2D pairs, two 3D pairs; scalar and point operands", [POS])
prop("C19", [A("C19.cpp")],
     "Order elevation and splitting (one or several symbolic positions) of rational splines are shown to keep the represented function; invalid positions must throw.",
     "elevation: 1D degrees 0..10, 2D 0..3, 3D 0..2; splitting: 1D degrees 0..6 (thorough 8), 2D 0..2, 3D 0..1; up to 3 positions", [POS])
prop("C20", [A("C20.cpp"), B("C20b.cpp", max_paths=2000)],
     "Engine B: index maps, reads and writes by index run with the multi-index, the linear index, the written value and all control points as solver variables, for polynomial and rational splines, "
     "constructed in every way, assigned, and after changes of the degrees; Engine A: access by every index and the basis function it selects.",
     "index maps: all shapes of 1D degrees 0..8 (thorough 12), 2D 0..4 up to 12 (thorough 25) points, 3D 0..2 up to 12 (thorough 27) points, 4D 0..1; changes of degree between all 1D shapes 0..3 (thorough 4), 2D 0..2 up to 6 (thorough 9) points, 3D 0..1; "
     "control point meaning: 1D 0..8 and 29, 2D 0..3, 3D 0..2, one 4D shape; the shape is concrete per case, everything else symbolic")
prop("C21", [A("C21.cpp")],
     "Bounding corners of symbolic control points are shown component-wise attained and extremal on every feasible branch; the unit-cube predicate is shown true exactly when all coordinates lie in [0,1]; spline values lie in the bounding box.",
     "1D degrees 0..3 (thorough 4), 2D 1x1 and 1x0, thorough 1x2 and 3D; scalar, 2D, 3D points; polynomial and rational", [POS])
prop("C22", [A("C22.cpp")],
     "Fitting into the unit cube is run for every position of the extremes, with all other coordinates symbolic between them: each coordinate becomes (x-min)/(max-min), flat ones stay finite; transposing and scaling acts affinely on each control point.",
     "1D degrees 0..3 (thorough 4), 2D 1x1, 1D/2D/3D points, up to one flat coordinate")
prop("C23", [A("C23.cpp")],
     "Every operation is run on symbolic operands: results are structurally consistent, const operands and arguments keep every value, operands that alias the object or its entries behave as copies, equality compares degrees and control points, construction and assignment copy.",
     "nine shapes in 1D-3D for polynomial and rational splines, all entries as aliased operand; four composition pairings", [POS])
prop("C24", [A("C24.cpp")],
     "Value and derivatives of +,-,*,/ and their in-place, mixed and aliased forms are shown equal to the differentiation rules for symbolic values and derivative vectors.",
     "1..4 derivatives with a compile-time and a run-time count; all operator forms with a scalar on either side; divisors non-zero")
prop("C25", [A("C25.cpp")],
     "Value and derivatives of the elementary functions are shown equal to the chain rule over uninterpreted function symbols constrained by their algebraic identities.",
     "1..3 derivatives, both representations; arguments in the open domain of differentiability", ["exp, log, sin, ... are function symbols with the axioms sin^2+cos^2=1, tan=sin/cos, exp>0, sqrt(x)^2=x, x^a>0"])
prop("C26", [A("C26.cpp")],
     "Nested differentiation is shown to give the second derivatives of arithmetic and elementary functions.", "two levels, 1..2 derivatives per level", ["function symbols as for C25"])
prop("C27", [A("C27.cpp")],
     "Each comparison with symbolic operands is shown to give the comparison of the values on every feasible branch.", "all six comparisons, scalar on either side, symbolic derivative vectors")
prop("C28", [A("C28.cpp")],
     "Splines are evaluated with differentiable control points and parameters, directly and after products, scalings, shifts, derivative splines and compositions: values and derivatives are shown equal to evaluation, basis functions and exact derivatives.",
     "1D degrees 0..5 and 8, 2D up to 2x2, 3D 1x2x1; polynomial and rational; derivative splines of orders 1 and 2; compositions of curves up to degrees 3,2 and of surfaces up to 1x1 with curves up to 2", [POS])
prop("C29", [A("C29.cpp")],
     "Point arithmetic with symbolic coordinates and factors, all operator forms and aliased operands, is shown to act as the vector-space operations; norms and scalar product are checked against their definition.",
     "points of dimension 1..5")
prop("C36", [A("C36.cpp")],
     "The tensor combination of symbolic factor lists is shown to be, at every index with the first list fastest, the product of one entry of each list.", "1..4 lists of 0..5 entries")

BV = ["integers are bit-vectors of their real width, memory is byte-addressed with object bounds and lifetimes; the C++ standard library code runs as compiled (libstdc++ headers), except for allocation, exceptions and memory/string primitives, which are modelled"]
prop("C33", [B("C33.cpp"), B("C33.cpp", defs=["-DNARROW"], optional=True)],
     "The real IntPower runs on symbolic bases (and exponents) as bit-vectors: whenever the exact product is representable, the result is shown equal to it, without overflow on the way.",
     "all integral types of 8, 16, 32 and 64 bits, signed and unsigned; every exponent up to the width and up to 127, every base with representable result; exponents symbolic for fixed bases and for all bases up to exponent 12 (8/16 bit: all)", BV)
prop("C32", [B("C32.cpp")] + [B("C32.cpp", defs=["-DMAX_BINOMIAL_DEGREE=%du" % n, "-DONLY_LOOKUP"]) for n in (1, 2, 12, 31, 62)],
     "The look-up runs with symbolic degree and index; the table built by the real code (at run time and at compile time) is indexed symbolically; both are shown equal to exactly computed coefficients.",
     "all pairs i<=n below the supported degree, for the default limit (30) and limits 1, 2, 12, 31 and 62; tables of size_t up to 68 rows, unsigned, int, long, long long, 8/16-bit, float and double up to the largest size they hold exactly", BV)
prop("C30", [B("C30.cpp")],
     "The real Encode and Decode run one after the other on vectors whose every byte is symbolic; the decoded bytes and number of entries are shown equal to the original.",
     "all byte values; element sizes 1, 2, 3, 4, 8 and points of 1..7 and 10 coordinates; lengths up to 12 bytes to 48 (thorough 48 to 128) bytes, every residue modulo three", BV)
prop("C31", [B("C31.cpp")],
     "Encode runs on symbolic bytes and every character of its text is shown equal to the standard one; Decode runs on symbolic texts of every padding and is shown to give the bytes they stand for; every memory access is checked against its object.",
     "encoding: lengths 0..12 single bytes (thorough 48), 0..6 doubles (thorough 16), points of 1..7 and 10 coordinates; decoding: up to 4 groups (thorough 10-12) with 0, 1, 2 fill characters into 1-, 2-, 4- and 8-byte entries; memory safety for arbitrary characters up to 4 (thorough 8)", BV)
prop("C34", [A("C34.cpp", defs=["-DENGINE_A"], max_paths=1000), B("C34.cpp", max_paths=1500)],
     "The real IndexListSort runs on vectors of symbolic values (every order and every tie is a path): the result is shown to be a permutation, the values non-decreasing under it, equal values in their order.",
     "any 0..4 (thorough 6) values of double, 32-bit, 8-bit and word integers and a record with operator< only; lists of 8..40 entries in five patterns with one or two arbitrary values", ["values are ordered by < (no NaN)"] + BV)
prop("C35", [B("C35.cpp", defs=["-DENABLE_LOGGING"], max_paths=3000, chain=False), B("C35.cpp", max_paths=3000, chain=False)],
     "The real logger runs on symbolic output levels (also set from lists and changed between messages), message texts and sequences of messages, against recording stand-ins of the streams and the clock: every output is shown to hold exactly the records enabled for it, "
     "in order, with their text and a time stamp exactly if enabled; terminating errors are shown to raise the requested exception with its text and to leave all records on file.",
     "all 32-bit levels for one message of each kind and for one message before and after a change; sequences of two messages and levels, thorough three; texts of up to 3 arbitrary non-zero characters and long fixed ones; with and without ENABLE_LOGGING",
     ["console and files are stand-ins: text is on file once the stream was flushed or closed; opening a file for writing truncates it"] + BV)
prop("C37", [B("C37.cpp", max_paths=1000, chain=False)],
     "Engine B: coordinate extraction runs with the requested coordinate and all control points as solver variables, powers of vector-valued splines with any exponent, corners of splines with and without control points, "
     "at symbolic output levels: an error is shown to be raised exactly if the request cannot be met.",
     "1D degrees 0..3 and 29, 2D, 3D; scalar splines and points of 1 to 5 coordinates; every 64-bit coordinate, exponent and 32-bit output level",
     ["console and files are stand-ins"] + BV)

# Larger shapes: the parameter (and, for rational splines, the weights) are numbers there, everything else stays symbolic
NUM = "larger shapes with a numeric parameter (all control points symbolic): "
NUMW = "larger shapes with a numeric parameter and numeric weights (all control points symbolic): "
for _k, _t in {
    "C01": NUM + "1D degrees 30..50, 2D up to 16x16, 3D, 4D and 5D; repeated evaluations with changed control points, parameters and assigned splines in between",
    "C02": NUM + "2D up to 29x3 and 16x15, 3D up to 7x1x4, 4D, 5D; parameters outside the unit cube as well; repeated evaluations with changes in between",
    "C03": NUM + "1D degrees 0..29 with every order, 2D up to 15x2 and 5x5, 3D 4x3x2 with all orders up to 3, 4D, 5D",
    "C04": NUM + "1D degrees 0..29 with every order, 2D up to 15x2 and 8x8, 3D 4x3x2 with all orders up to 3, 4D",
    "C05": NUM + "2D, 3D, 4D, 5D; eightfold elevation of 1D degrees 10, 15, 20",
    "C06": NUM + "1D every degree 0..29 with 0, 5, 9, 16, 29; 2D up to 15x2 and 9x9, 3D up to 4x4x5, 4D",
    "C07": NUM + "2D up to 16x16, 3D, 4D; points of up to 5 coordinates",
    "C08": NUM + "products up to a total degree of 29 per direction in 2D-4D, powers up to 29",
    "C09": "larger compositions with a numeric inner function and parameter: 1D up to 29 of degree 1, 1 of degree 29, 5 of 5; 2D of 1D-3D, 3D of 2D-3D, 4D of 1D-2D",
    "C10": "larger compositions with a numeric inner function, weights and parameter",
    "C11": "larger compositions with a numeric inner function and parameter",
    "C12": "inner nets of up to 30 points with one arbitrary coordinate, inner functions of degree 0, groups of 5 and 8",
    "C13": NUM + "1D degrees up to 29, 2D up to 16x2, 3D up to 4x3x5, 4D; up to 12 positions",
    "C14": "lists of up to 9 positions",
    "C15": NUMW + "1D up to 29, 2D up to 16x2, 3D, 4D, 5D; basis function contributions; parameters outside the unit cube where the weight function has no zero; repeated evaluations with changed control points and weights, and assignments, in between",
    "C16": NUMW + "orders up to 15 in 1D, mixed orders in 2D-4D; repeated evaluations with changes in between",
    "C17": NUMW + "1D degrees 7, 10, 14; orders up to 4; 2D-4D",
    "C18": NUMW + "2D 9x6, 3D, 4D",
    "C19": NUMW + "1D up to 29, 2D up to 2x16, 3D, 4D; eightfold elevation; up to 12 positions",
    "C20": "1D up to 30 points, 2D-5D shapes with up to 120 points; index maps of shapes with more than 65535 points at selected indices",
    "C21": "larger nets with one or two arbitrary coordinates",
    "C23": "sequences of assignments, moves and swaps between objects of different shapes",
    "C24": "assignment between numbers of different derivative counts (also default-constructed ones), up to 260 derivatives",
    "C29": "scalar products of points of different scalar types",
    "C35": "texts with zero characters, repeated and changing clock values",
    "C22": "larger nets with numeric coordinates between symbolic extremes",
    "C30": "long data of up to 65540 bytes (thorough 131075) with arbitrary bytes at selected places",
    "C31": "long data of up to 65540 bytes (thorough 131075), texts of 64, 86 and 130 groups, with arbitrary bytes at selected places",
    "C34": "lists of up to 4100 (thorough 8200) entries with one or two arbitrary values",
    "C36": "lists of 2..12 entries, up to 6 lists, more than 4096 products",
}.items():
    PROPS[_k]["bounds"] += "; " + _t
