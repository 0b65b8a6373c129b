#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the texts here and in config.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BS, RB, PT = "src/bezier_spline.inc", "src/rational_bezier_spline.inc", "src/point.hpp"
BP, RC, FB = "src/utils/algorithms/bernstein_polynomial.hpp", "src/utils/algorithms/recursive_combine.hpp", "src/utils/fastbinomialcoefficient.hpp"
LT = "src/utils/binomialcoefficientlookuptablecreator.hpp"
AD, ADH = "src/utils/computational_differentiation/algo_diff_type.inc", "src/utils/computational_differentiation/algo_diff_type.hpp"
B64, LOG, IP, SO = "src/utils/base64.hpp", "src/utils/logger.hpp", "src/utils/algorithms/int_power.hpp", "src/utils/algorithms/sort.hpp"
P = []


def p(i, title, st, q, why, mech, over=("inputs",)):
    P.append(dict(id=i, title=title, statement=st, quantifier=dict(over=list(over), text=q), why_tests_cant=why,
                  anchors=dict(files=sorted({m[1].split(":")[0] for m in mech}), mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))


p("C01", "Evaluating a Bezier spline gives the Bernstein sum of its control points",
  "Evaluating a polynomial Bezier spline at any parameter returns the sum of its control points weighted by the products of Bernstein polynomials of its degrees; in particular the corners of the parameter domain return the corner control points. Evaluation leaves the spline unchanged.",
  "all degrees, parametric and physical dimensions, control points and parameters",
  "the tests evaluate a few fixed splines at sampled parameters",
  [("De Casteljau / Bernstein evaluation", BS + ":Evaluate"), ("Bernstein values", BP + ":Evaluate")])
p("C02", "Basis functions are the Bernstein products, non-negative, and sum to one",
  "The basis functions at a parameter are, in control point order, the tensor products of the Bernstein polynomials; inside the unit cube they are non-negative and sum to one. Evaluating through basis functions agrees with direct evaluation.",
  "all degrees, dimensions and parameters in the unit cube",
  "the tests compare sums at a few random parameters for a few degrees",
  [("Bernstein polynomials", BP + ":Evaluate"), ("tensor product", RC), ("forward evaluation", BS + ":ForwardEvaluate"), ("basis functions", BS + ":BasisFunctions")])
p("C03", "Pointwise derivatives of splines and basis functions are the exact derivatives",
  "The derivative of any order per direction, of the basis functions and of the spline, equals the mathematical derivative of the represented polynomial at every parameter. Orders above the degree give zero.",
  "all degrees, derivative orders, control points and parameters",
  "the tests check few orders of few splines, some against finite samples",
  [("Bernstein derivatives", BP + ":EvaluateDerivative"), ("derivative evaluation", BS + ":EvaluateDerivative")])
p("C04", "The derivative spline represents the derivative function",
  "The spline returned for a derivative of any order per direction represents exactly the derivative of the original function, with degrees lowered by the orders. Orders above the degree yield the zero function on a valid spline.",
  "all degrees, derivative orders, control points and parameters",
  "the tests take first derivatives of single examples",
  [("derivative control points", BS + ":DerivativeWRTParametricDimension"), ("elevation and combination of the result", BS + ":operator+")])
p("C05", "Order elevation does not change the represented function",
  "Raising the degree along any direction, any number of times and in any sequence, leaves the represented function unchanged and raises only that degree.",
  "all degrees, sequences of directions, control points and parameters",
  "the tests elevate a few splines and evaluate at sampled points",
  [("order elevation", BS + ":OrderElevateAlongParametricDimension"), ("index offsets", BS + ":UpdateIndexOffsets_")], ("inputs", "histories"))
p("C06", "Sums and differences of splines of any degrees are pointwise",
  "Adding or subtracting two splines, in place or not, gives the spline of the pointwise sum or difference of the functions, whatever their degrees are in each direction. The result has the larger degree in every direction.",
  "all pairs of degrees per direction, control points and parameters",
  "the tests combine a few degree pairs; mixed degrees per direction are not covered",
  [("sum", BS + ":operator+="), ("difference", BS + ":operator-="), ("degree matching by elevation", BS + ":OrderElevateAlongParametricDimension")])
p("C07", "Scaling, shifting, negating and extracting coordinates act pointwise",
  "Multiplying by a scalar, adding or subtracting a point on either side, negating, and extracting one coordinate of a spline act on the represented function at every parameter. Degrees do not change.",
  "all splines, factors, points and parameters",
  "the tests check single examples of some operators",
  [("scaling", BS + ":operator*="), ("shifting", BS + ":operator+="), ("negation", BS + ":operator-"), ("extraction", BS + ":ExtractDimension")])
p("C08", "Products and integer powers of splines are pointwise",
  "The product of two splines (scalar or vector valued, vectors by the scalar product) and non-negative integer powers of scalar splines represent the pointwise product and power of the functions. Degrees add, or multiply with the exponent.",
  "all degrees, dimensions, exponents, control points and parameters",
  "the tests multiply fixed splines of low degree and evaluate at samples",
  [("product", BS + ":operator*"), ("power", BS + ":RaisePower"), ("binomials", FB)])
p("C09", "Composition of polynomial splines is functional composition",
  "Composing an outer spline with an inner spline that stays in the unit cube gives the spline of outer(inner(u)) at every parameter. Its degrees are the inner degrees times the sum of the outer degrees.",
  "all outer and inner degrees and dimensions, control points and parameters",
  "the tests compose a few examples and compare at sampled parameters",
  [("composition", BS + ":Compose"), ("product", BS + ":operator*"), ("power", BS + ":RaisePower")])
p("C10", "Compositions with rational splines are functional composition",
  "Composing polynomial with rational, rational with polynomial, or rational with rational splines yields the rational spline of outer(inner(u)), with a weight function that stays positive.",
  "all degrees, control points, positive weights and parameters",
  "the tests compose single examples and compare at sampled parameters",
  [("polynomial of rational", BS + ":Compose"), ("rational compositions", RB + ":Compose")])
p("C11", "Composition sensitivities are derivatives by the outer control points",
  "The sensitivity of a composition returns one spline per control point of the outer spline: the derivative of the composed function with respect to that control point. Weighted with the control points they add up to the composition.",
  "all four polynomial/rational pairings, degrees, control points, positive weights and parameters",
  "the tests compare single examples with sampled parameters",
  [("sensitivities", BS + ":ComposeSensitivity"), ("rational sensitivities", RB + ":ComposeSensitivity")])
p("C12", "Composition rejects inner functions that leave the unit cube, and no others",
  "Composition and its sensitivities raise an error if any control point coordinate of the inner function lies outside the unit interval, and otherwise succeed. Composing with a group of inner functions behaves like composing with each member in order.",
  "all pairings, every control point and coordinate that may leave the cube, any distance; groups of any size",
  "the tests never pass inner functions that leave the cube in one coordinate only",
  [("unit cube predicate", BS + ":FitsIntoUnitCube"), ("guards", BS + ":Compose"), ("guards of rational splines", RB + ":Compose")])
p("C13", "Splitting returns the restrictions to the sub-intervals",
  "Splitting a spline along a direction at one or several increasing positions returns, in order, splines that reproduce the original on each sub-interval reparametrised to the unit interval. Degrees are kept.",
  "all degrees, directions, numbers and values of positions, control points and parameters",
  "the tests split a few splines at fixed positions",
  [("single split", BS + ":SplitAtPosition"), ("multiple split", BS + ":SplitAtPosition")])
p("C14", "Splitting rejects positions that are not inside the unit interval or not ordered",
  "Splitting polynomial or rational splines at a position that is not strictly inside the unit interval, or at a list that is not strictly increasing or leaves it, raises an error; valid positions do not. An empty list returns the spline itself.",
  "all positions including non-finite ones, lists with disorder at any place",
  "the tests try single bad values",
  [("position checks", BS + ":SplitAtPosition"), ("rational splitting", RB + ":SplitAtPosition")])
p("C15", "Evaluating a rational spline gives the weighted Bernstein quotient",
  "A rational spline built in any way evaluates, directly or through basis functions, to the quotient of the weighted Bernstein sums of points and weights; its basis functions are the weighted quotients. Its accessors return the control points, weights and weighted control points it was built from.",
  "all degrees, dimensions, control points, positive weights and parameters",
  "the tests evaluate a few circles and sampled parameters",
  [("rational evaluation", RB + ":Evaluate"), ("rational basis functions", RB + ":BasisFunctions"), ("accessors", "src/rational_bezier_spline.hpp:ControlPoint")])
p("C16", "Pointwise derivatives of rational splines obey the quotient rule",
  "Derivatives of any order of a rational spline and of its basis functions equal the mathematical derivatives of the represented quotient at every parameter.",
  "all degrees, orders per direction, control points, positive weights and parameters",
  "the tests check low orders at sampled parameters",
  [("rational derivative evaluation", RB + ":EvaluateDerivative"), ("rational basis function derivatives", RB + ":BasisFunctionsDerivatives")])
p("C17", "The derivative spline of a rational spline represents its derivative",
  "The spline returned for a derivative of a rational spline represents exactly the derivative of the represented function, keeps a positive weight function and is structurally valid for every degree, including zero.",
  "all degrees, orders, control points, positive weights and parameters",
  "the tests take single first derivatives",
  [("quotient rule on splines", RB + ":DerivativeWRTParametricDimension")])
p("C18", "Arithmetic of rational splines is pointwise",
  "Sums, differences, products, scaling, shifts, negation and coordinate extraction of rational splines, in place or not, represent the pointwise result, whether the weight functions are equal or not.",
  "all degrees, control points, positive weights (equal, different, partly equal) and parameters",
  "the tests combine a few examples; partly equal weights are not covered",
  [("sum", RB + ":operator+="), ("difference", RB + ":operator-="), ("product", RB + ":operator*")])
p("C19", "Refinement of rational splines leaves the function unchanged",
  "Order elevation of a rational spline leaves the represented function unchanged, and splitting it reproduces the function on each sub-interval. Invalid positions raise an error.",
  "all degrees, directions, positions, control points, positive weights and parameters",
  "the tests refine a few examples and compare at samples",
  [("elevation", RB + ":OrderElevateAlongParametricDimension"), ("splitting", RB + ":SplitAtPosition")])
p("C20", "Control point indexing is a bijection with the first direction fastest",
  "Multi-indices and linear indices map onto each other one-to-one, the first direction running fastest, and indexed access reads and writes exactly the control point of that index.",
  "all degrees and dimensions, all index tuples",
  "the tests access a few indices of a few shapes",
  [("linear index", BS + ":LocalToGlobalIndex"), ("multi index", BS + ":GlobalToLocalIndex"), ("access", BS + ":ControlPoint")])
p("C21", "Bounding corners are attained and extremal; the cube predicate is exact",
  "The minimum and maximum corners of a spline are attained in every coordinate by a control point and bound all of them, and thereby the spline. A spline is reported inside the unit cube exactly if all control point coordinates lie in the unit interval.",
  "all control points, in any order and with ties, for polynomial and rational splines",
  "the tests use single point sets",
  [("maximum", BS + ":MaximumCorner"), ("minimum", BS + ":MinimumCorner"), ("predicate", BS + ":FitsIntoUnitCube")])
p("C22", "Fitting into the unit cube maps each coordinate affinely onto the unit interval",
  "Fitting a spline into the unit cube maps the extremes of each coordinate to zero and one and everything between affinely; coordinates without extension stay finite and inside the cube. Transposing and scaling is that affine map for given vectors.",
  "all control points, positions of the extremes, including coordinates without extension",
  "the tests fit one example",
  [("fit", BS + ":FitIntoUnitCube"), ("transpose and scale", BS + ":TransposeAndScale")])
p("C23", "Operations keep splines consistent and their operands unchanged",
  "Every operation returns structurally consistent splines, never changes operands it does not own, and gives the same result when an operand is the object itself or one of its entries. Copies are independent and equality compares degrees and control points.",
  "all operations on polynomial and rational splines, any control points, sequences of construction, assignment and operation",
  "the tests do not look at operands after an operation and never alias them",
  [("in-place operators", BS + ":operator*="), ("rational in-place operators", RB + ":operator+="), ("offset update", BS + ":UpdateIndexOffsets_"), ("equality", BS + ":operator==")], ("inputs", "histories"))
p("C24", "Arithmetic of differentiable numbers follows the differentiation rules",
  "Sums, differences, products and quotients of differentiable numbers, with numbers or scalars on either side and in place, carry the value of the operation and the derivatives given by the differentiation rules. Operands are unchanged unless assigned to, and may alias.",
  "all values, derivative vectors of any length, scalars; divisors non-zero",
  "the tests compare single values",
  [("operators", AD + ":operator*="), ("seeding", ADH + ":SetActiveComponent")])
p("C25", "Elementary functions of differentiable numbers follow the chain rule",
  "Exponential, logarithms, roots, powers, absolute value and trigonometric functions of a differentiable number return the function value and the inner derivatives times the outer derivative, everywhere the function is differentiable.",
  "all arguments in the domain, all derivative vectors, fixed, variable and differentiable exponents",
  "the tests evaluate single arguments",
  [("functions", AD + ":pow"), ("functions", AD + ":exp")])
p("C26", "Nested differentiable numbers deliver exact second derivatives",
  "Using differentiable numbers as the scalar of differentiable numbers yields value, gradient and second derivatives of every arithmetic operation and elementary function.",
  "all values and derivative vectors on both levels",
  "the tests contain one nested example",
  [("generic scalar operations", AD + ":acos"), ("generic scalar operations", AD + ":operator/=")])
p("C27", "Comparisons of differentiable numbers compare their values",
  "Each comparison between differentiable numbers, or between a differentiable number and a scalar on either side, gives the comparison of the values and ignores the derivatives.",
  "all values and derivatives, all six comparisons",
  "the tests compare single pairs",
  [("comparisons", ADH + ":operator<"), ("scalar comparisons", AD + ":operator<")])
p("C28", "Splines over differentiable numbers carry exact gradients",
  "Evaluating polynomial or rational splines, basis functions, products, derivative splines and compositions whose control points, weights and parameters are differentiable numbers yields the value together with its exact derivatives with respect to all of them.",
  "all degrees, control points, weights, parameters and seed vectors",
  "no test combines differentiable numbers with splines",
  [("evaluation", BS + ":Evaluate"), ("rational evaluation", RB + ":Evaluate"), ("arithmetic", AD + ":operator*=")])
p("C29", "Points form a vector space with the Euclidean scalar product",
  "Addition, subtraction, negation, scaling and division of points act on every coordinate, in place or not, also if the factor is one of the coordinates. Scalar product and norms are the Euclidean ones.",
  "all dimensions, coordinates and factors",
  "the tests use single points",
  [("operators", PT + ":operator*="), ("norms", PT + ":EuclidianNorm")])
p("C30", "Base64 decoding inverts encoding for every data type",
  "Decoding the encoding of any vector of numbers or points, of any element size and length, returns exactly the original bytes.",
  "all vectors of all element types, all byte values",
  "the tests round-trip a few vectors of doubles, where padding hardly matters",
  [("encoding", B64 + ":Encode"), ("decoding", B64 + ":Decode")])
p("C31", "Base64 encoding is standard and touches no memory outside its data",
  "The encoding is the standard one: the standard alphabet, most significant bits first, zero fill bits, and padding that reflects the number of bytes. Neither encoding nor decoding reads or writes outside the given data.",
  "all byte sequences of every length modulo three, all texts of valid shape",
  "the tests compare one known text",
  [("encoding", B64 + ":Encode"), ("decoding", B64 + ":Decode")])
p("C32", "Binomial coefficients are exact",
  "The tabulated binomial coefficients equal the binomial coefficients for every pair in the supported range, in every scalar type that can hold them.",
  "all pairs up to the supported degree",
  "the tests look at some entries",
  [("look-up", FB + ":choose"), ("table", LT + ":calculate_table")])
p("C33", "Integer powers are exact",
  "The integer power of a base equals the repeated product for every base, exponent and integral type whenever the result is representable.",
  "all bases, exponents and integral types with representable results",
  "the tests use small values of one type",
  [("recursion", IP + ":IntPower")])
p("C34", "Index sorting returns the stable ordering permutation",
  "Sorting indices returns a permutation under which the values are non-decreasing, equal values keep their order, and the values are unchanged.",
  "all vectors, with ties",
  "the tests sort fixed vectors",
  [("stable sort", SO + ":IndexListSort")])
p("C35", "Messages reach exactly the outputs enabled by the output level",
  "Each kind of message is written to the console and to its file exactly if the corresponding bits of the output level are set, with its text and, exactly if enabled, a time stamp. A terminating error always raises the requested exception with its text, whatever the level, and records written before it are kept.",
  "all output levels, message kinds and sequences of calls",
  "the logger has no tests beyond the exceptions",
  [("levels", LOG + ":SetOutputLevel_"), ("terminating error", LOG + ":TerminatingError_"), ("files", LOG + ":init")], ("inputs", "configurations", "histories"))
p("C36", "Tensor combination multiplies one entry of each list, first list fastest",
  "Combining factor lists returns all products of one entry per list, ordered with the first list running fastest.",
  "all numbers and lengths of lists, all entries",
  "it is only tested through basis functions",
  [("recursion", RC + ":RecursiveCombine")])
p("C37", "Requests that cannot be met raise an error, all others are met",
  "Extracting a coordinate that the points do not have, raising a vector-valued spline to a power, and asking for the corners of a spline without control points raise a runtime error at every output level. Every coordinate that exists is extracted, and splines with control points have corners.",
  "all coordinates, exponents, control points, shapes and output levels",
  "the tests request one coordinate out of range",
  [("extraction", BS + ":ExtractDimension"), ("power", BS + ":RaisePower"), ("corners", BS + ":MaximumCorner"), ("corners", BS + ":MinimumCorner"), ("errors", LOG + ":TerminatingError_")])

BOUND_NOTE = "Holds for all values of the symbolic inputs within the stated sizes; floating-point rounding is outside the claim. Trusts clang's front end, this framework's symbolic execution and z3."
BV_NOTE = "Bit-precise for all values of the symbolic inputs within the stated sizes. Trusts clang's front end, this framework's symbolic execution and z3."


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in PROPS and all(os.path.exists(os.path.join(V, "harness", h["file"])) for h in PROPS[i]["harness"]):
            eng = sorted({h["engine"] for h in PROPS[i]["harness"]})
            checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i + " --tier thorough",
                               technique="; ".join(TECH[e] for e in eng), level="other",
                               level_note=(BOUND_NOTE if "A" in eng else BV_NOTE) + " Bounds: " + PROPS[i]["bounds"] + "."))
        else:
            na.append(dict(property=i, reason="no check built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    design()
    print(len(checks), "checks,", len(na), "not claimed")


def design():
    d = open(os.path.join(V, "vp", "design.in.md")).read()
    tab = ""
    for x in P:
        i = x["id"]
        c = PROPS[i]
        eng = "+".join(sorted({h["engine"] for h in c["harness"]}))
        tab += "### %s %s\n\nEngine %s, %s. %s\n\n*Bounds:* %s.\n\n*Beyond tests:* %s.%s\n\n" % (
            i, x["title"], eng, ", ".join(sorted({"`harness/%s`" % h["file"] for h in c["harness"]})), c["explanation"], c["bounds"].rstrip("."), x["why_tests_cant"].rstrip("."),
            (" *Cost:* " + c["cost"] + ".") if c.get("cost") else "")
    fixed = "| property | commit | what failed |\n|---|---|---|\n"
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("fixed: "):
            a = l.split(None, 3)
            fixed += "| %s | %s | %s |\n" % (a[1].split("=")[1], a[2], a[3].strip())
    bugs = "| planted bug | property | what it breaks | caught by its check |\n|---|---|---|---|\n"
    res = {}
    rf = os.path.join(V, "vp", "bugs.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    for base in ("seeded", "more_bugs"):
        if not os.path.isdir(os.path.join(V, base)):
            return
        for b in sorted(os.listdir(os.path.join(V, base))):
            m = json.load(open(os.path.join(V, base, b, "meta.json")))
            bugs += "| %s/%s | %s | %s | %s |\n" % (base, b, m["property"], m["what_it_breaks"], res.get(b, "not run"))
    mut = ""
    mf = os.path.join(V, "vp", "mutation.md")
    if os.path.exists(mf):
        mut = open(mf).read()
    d = d.replace("@TABLE@", tab.strip()).replace("@FIXED@", fixed.strip()).replace("@BUGS@", bugs.strip()).replace("@MUTATION@", mut.strip())
    open(os.path.join(V, "DESIGN.md"), "w").write(d)


main()
