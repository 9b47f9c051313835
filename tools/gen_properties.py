#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then re-run."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BZ, LN, QD, CB, BS, SEG, PT, PTN, LIB, SPL = ("src/bezier.rs", "src/line.rs", "src/quadratic_bezier.rs",
  "src/cubic_bezier.rs", "src/bspline.rs", "src/bezier_segment.rs", "src/point.rs", "src/point_generic.rs",
  "src/lib.rs", "src/spline.rs")

prop("C01", "Generic Bézier evaluation is the Bernstein polynomial of its points",
 "For every number of control points N >= 1, every dimension and every parameter t in [0,1], evaluating a generic Bézier curve (directly or through the Spline trait) returns sum_i C(N-1,i) (1-t)^(N-1-i) t^i P_i up to floating-point rounding. In particular the curve starts at its first control point and ends at its last one.",
 ["inputs", "configurations"], "all degrees and dimensions, all control polygons with coordinates that do not overflow, all t in [0,1]",
 "The tests evaluate one 6-point planar curve at its two ends and compare degree 2 and 3 with the specialised types on one control polygon each; other degrees, dimensions, polygons and scales are never evaluated.",
 [BZ, SPL], [("Bezier::eval (De Casteljau over a copied array)", BZ), ("Spline::eval forwarding", BZ)], observe=["Bezier::eval", "Spline::eval"])
prop("C02", "Line, quadratic and cubic evaluators all compute the same Bernstein curve",
 "For line segments, quadratic and cubic Bézier curves in any dimension and every t in [0,1], the direct evaluator, the De Casteljau evaluator and the per-axis evaluator each return the Bernstein value of the curve (respectively its coordinate on that axis) up to floating-point rounding. The value at t=0 is the start point and at t=1 the end point.",
 ["inputs", "configurations"], "all control points (any dimension, any non-overflowing scale, degenerate ones included), all t in [0,1], all axes",
 "The tests sample one quadratic and one cubic planar curve on a fixed grid; the per-axis evaluators and every other dimension are not called at all.",
 [LN, QD, CB], [("eval / eval_casteljau / axis", "src/line.rs, src/quadratic_bezier.rs, src/cubic_bezier.rs")], observe=["LineSegment::eval/axis", "QuadraticBezier::eval/eval_casteljau/axis", "CubicBezier::eval/eval_casteljau/axis"])
prop("C03", "Splitting a Bézier curve yields the two exact sub-curves",
 "For a line segment, quadratic, cubic, segment enum or generic Bézier curve of any degree and any t in [0,1], split(t) returns two curves of the same kind whose control points are those of the restrictions of the curve to [0,t] and [t,1], each reparametrised to [0,1], up to floating-point rounding. Hence the left part starts at the curve's start, both parts meet at the curve point at t, the right part ends at the curve's end, and this stays true for any sequence of further splits of the pieces.",
 ["inputs", "histories", "configurations"], "all curve kinds, degrees, dimensions, control polygons, all t in [0,1] including 0 and 1, all sequences of nested splits",
 "Tests split one curve of each of three kinds, always at t=0.5, in the plane; asymmetrical parameters (where left and right weights differ), line segments, the enum and nested splits are never exercised.",
 [LN, QD, CB, BZ, SEG], [("split", "src/line.rs, src/quadratic_bezier.rs, src/cubic_bezier.rs, src/bezier.rs, src/bezier_segment.rs")], observe=["split"])
prop("C04", "Bézier derivatives are the true derivative of the curve",
 "For line segments, quadratic, cubic and generic Bézier curves (two or more control points), the derivative is the curve (or vector) of one degree less whose value at every t equals the derivative of the curve's polynomial, up to floating-point rounding. Derivatives can be taken repeatedly, and the direct per-axis derivative samplers of the quadratic and cubic curve return the matching coordinate of the derivative.",
 ["inputs", "configurations"], "all degrees, dimensions, control polygons, t in [0,1], axes and orders of repeated differentiation",
 "No test calls derivative() or the direct derivative samplers.",
 [LN, QD, CB, BZ], [("derivative / dd", "src/line.rs, src/quadratic_bezier.rs, src/cubic_bezier.rs, src/bezier.rs")], observe=["derivative", "dd"])
prop("C05", "Bounding boxes contain the whole curve",
 "For every line segment, quadratic and cubic Bézier curve in any dimension, the bounding box gives for each axis a pair (min, max) such that the coordinate of every curve point with t in [0,1] lies within it, up to floating-point rounding relative to the coordinates' size on that axis. This holds at every coordinate scale at which squares of coordinates neither overflow nor underflow, and for curves that are (almost) of lower degree than their type.",
 ["inputs", "configurations"], "all control points incl. degenerate, nearly-degenerate (degree-elevated, closed, coincident), any non-overflowing scale, any dimension; all t",
 "Tests check 101 points of one planar curve per type with an absolute slack of 0.01; a missed interior extremum on another shape or scale is invisible.",
 [LN, QD, CB], [("bounding_box (roots of the derivative per axis)", "src/line.rs, src/quadratic_bezier.rs, src/cubic_bezier.rs"), ("QuadraticBezier::real_roots / LineSegment::root", "src/quadratic_bezier.rs, src/line.rs")], observe=["bounding_box"])
prop("C06", "Bounding boxes are tight",
 "For every line segment, quadratic and cubic Bézier curve in any dimension, each bound reported by the bounding box is attained by the curve at some t in [0,1], up to floating-point rounding relative to the coordinates' size on that axis. So the box is never larger than the curve's true extent on any axis and min <= max always holds.",
 ["inputs", "configurations"], "all control points (as C05), all axes, both bounds",
 "Tests only check containment with slack; a box that is too large passes every one of them.",
 [LN, QD, CB], [("bounding_box keeps only extrema with parameter inside (0,1)", "src/quadratic_bezier.rs, src/cubic_bezier.rs")], observe=["bounding_box"])
prop("C07", "Distance from a point to a line segment is exact",
 "For every segment and every point in any dimension, the distance from the segment to the point equals the Euclidean distance from the point to the nearest point of the closed segment (interior or either end), up to floating-point rounding. Segments whose squared length is below machine epsilon may be treated as a single point.",
 ["inputs", "configurations"], "all segments and points: projections before, inside and beyond the segment, points on it, degenerate segments, any dimension and non-overflowing scale",
 "One test projects a single point onto the segment's own start; projections beyond the end are never tried.",
 [LN], [("LineSegment::distance_to_point (clamped projection)", LN)], observe=["LineSegment::distance_to_point"])
prop("C08", "Distance from a point to a curve is never under- and hardly over-estimated",
 "For quadratic, cubic and generic Bézier curves and every point, the reported distance is never smaller than the true minimum distance to the curve over t in [0,1] (up to rounding) and never larger than the distance to any of the curve points at t = i/64, i=0..64, both ends included. Moreover it is at most the minimum distance over the parameter window of half-width 1/128 around the nearest of those samples (restricted to [0,1]) plus s/8192, where s is the curve's largest possible speed (degree times the longest control-polygon leg).",
 ["inputs", "configurations"], "all degrees, dimensions, control polygons and query points (on the curve, at its ends, far away, near several branches)",
 "Tests compare the order of two distances for one curve per type; neither the value nor its accuracy is checked.",
 [QD, CB, BZ], [("distance_to_point (64-step coarse pass, then 64-step fine pass)", "src/quadratic_bezier.rs, src/cubic_bezier.rs, src/bezier.rs")], observe=["distance_to_point"])
prop("C09", "Bézier arc length is the length of the n-segment flattening",
 "For quadratic, cubic and generic Bézier curves and every number of steps n >= 1, the arc length equals the total length of the n straight segments through the curve points at t = 0, 1/n, 2/n, ..., 1, up to floating-point rounding. So it is at least the end-to-end distance, at most the control polygon's length, does not shrink when n is doubled, and converges to the curve's arc length.",
 ["inputs", "configurations"], "all degrees, dimensions, control polygons and n >= 1",
 "One test sums four quarter circles with n=1000 and a slack of 0.01, which hides a whole missing segment; small n and other types are never tried.",
 [QD, CB, BZ], [("arclen", "src/quadratic_bezier.rs, src/cubic_bezier.rs, src/bezier.rs")], observe=["arclen"])
prop("C10", "Flatness and single-point predicates are sound and complete",
 "For quadratic and cubic curves, is_linear(tol) holds exactly when the end points do not (nearly) coincide - squared distance at least machine epsilon - and every inner control point lies within tol of the segment joining the end points, so a curve reported linear stays within tol of its baseline. is_a_point(tol) holds whenever all control points are within tol of each other and never when two of them are more than 3*tol apart; the baseline is the segment from start to end. Decisions within rounding of a threshold may go either way.",
 ["inputs", "configurations"], "all control points and tolerances >= 0, including tolerance 0, closed curves, inner control points beyond either end of the baseline",
 "No test calls any of these predicates.",
 [QD, CB, LN, SEG], [("is_linear / is_a_point / baseline", "src/quadratic_bezier.rs, src/cubic_bezier.rs")], observe=["is_linear", "is_a_point", "baseline"])
prop("C11", "B-spline construction accepts exactly the valid knot vectors",
 "For every number of control points C, knots K and degree D, constructing a B-spline succeeds if and only if C > D, K = C + D + 1 and the knots are non-decreasing (no NaN), and otherwise reports the matching error: too few control points, else too few or too many knots, else decreasing knots. A constructed curve exposes exactly the given knots and control points, in order; construction never panics.",
 ["inputs", "configurations"], "all (K,C,D) combinations, all knot vectors incl. unsorted at any single position, repeated, infinite and NaN knots",
 "Every test constructs a valid curve; no rejection path is exercised.",
 [BS], [("BSpline::new validation chain", BS), ("control_points() / knots()", BS)], observe=["BSpline::new", "BSpline::knots", "BSpline::control_points"])
prop("C12", "B-spline evaluation succeeds exactly on the knot domain and never panics",
 "For every valid B-spline of any degree, clamped or not at either end, the knot domain is (knots[D], knots[C]); evaluating at any t inside it returns a finite point after a bounded amount of work, and at any other t (NaN and infinities included) returns the knot-domain error. Evaluation never panics and never loops forever. Where knots are infinite (construction accepts them) a finite point need not exist, but all the rest holds.",
 ["inputs", "configurations"], "all valid knot vectors (uniform, clamped at neither/either/both ends, repeated interior knots, repeated around the domain ends, a domain of a single parameter, tiny and huge spans), all t including the exact knots and their floating-point neighbours",
 "Tests use uniform or fully clamped vectors only; curves clamped at one end, repeated interior knots and values right at the knots are never evaluated, and unclamped curves are checked out of domain only beyond all knots.",
 [BS], [("knot_domain", BS), ("knot span search per clamping kind", BS), ("eval domain check", BS)], state=[("knot kind", "which ends are clamped", BS)], observe=["BSpline::knot_domain", "BSpline::eval"])
prop("C13", "B-spline evaluation equals the Cox-de Boor definition",
 "For every valid B-spline and every t in its knot domain, the evaluated point equals sum_i N_{i,D}(t) P_i with the Cox-de Boor basis functions of its knot vector, up to floating-point rounding; at a knot the right-hand limit is taken, at the end of the domain the left-hand limit. In particular, a curve clamped at an end passes through that end's control point.",
 ["inputs", "configurations"], "all degrees, numbers of control points, valid knot vectors (as C12) and control points, all t in the domain",
 "Tests evaluate along curves but compare values only at clamped ends and one symmetric midpoint inequality, so nearly any interior value passes.",
 [BS], [("de Boor recursion", BS), ("knot span search", BS)], observe=["BSpline::eval"])
prop("C14", "B-splines have local support and stay in the local convex hull",
 "For t inside a knot span, a B-spline point is a convex combination of the D+1 control points active on that span: it lies in their convex hull, and changing any other control point does not change it. If all active control points coincide the curve is at that point, and applying an affine map to the control points applies it to the curve.",
 ["inputs", "configurations"], "all valid B-splines, all spans, all t, all perturbed control points, all directions, all affine maps",
 "No test relates an interior curve point to its control points.",
 [BS], [("de Boor recursion uses the D+1 points of the span", BS)], observe=["BSpline::eval"])
prop("C15", "The derivative of a B-spline is its derivative",
 "For every valid B-spline of degree D >= 1 the derivative is a B-spline of degree D-1 with one control point less, the same knot domain and, at every t in the domain (right-hand limit at knots, left-hand at the end), the value of the curve's derivative, up to floating-point rounding. Repeated knots never make it non-finite inside the domain, and derivatives can be taken repeatedly down to degree 0.",
 ["inputs", "configurations"], "all valid B-splines (as C12), all t in the domain, all orders up to D",
 "No test calls it; the source marks it 'TODO test & verify'.",
 [BS], [("BSpline::derivative", BS)], observe=["BSpline::derivative"])
prop("C16", "B-spline arc length is the length of the n-segment flattening",
 "For every valid B-spline and every n >= 1, the arc length equals the total length of the n straight segments through the curve points at n+1 equally spaced parameters spanning the whole knot domain, up to floating-point rounding. So it does not depend on where the curve lies relative to the origin, is at least the distance between the two curve ends and at most the control polygon's length where the curve is continuous.",
 ["inputs", "configurations"], "all valid B-splines whose interior knots keep the curve continuous, all domains (any offset and width), all n >= 1",
 "No test calls it.",
 [BS], [("BSpline::arclen", BS)], observe=["BSpline::arclen"])
prop("C17", "PointN is component-wise vector arithmetic",
 "For every dimension, adding or subtracting points or scalars and multiplying by a scalar act independently and exactly (one floating-point operation) on each component; axis(i) and iteration give the components in order, mutable iteration updates exactly them, default is the zero point, and equality holds exactly when all components are equal. The squared length is the sum of the squared components up to rounding, and axis with an index not below the dimension panics.",
 ["inputs", "configurations"], "all dimensions, all component values incl. signed zero, NaN and infinities for the exact operations",
 "PointN is only used incidentally by the curve tests, in dimension 2 and 3.",
 [PTN, PT], [("operator impls, IntoIterator, Point for PointN", PTN)], observe=["PointN operators", "Point::axis", "Point::squared_length"])
prop("C18", "Curves depend on points only through the Point trait",
 "For any user type that implements the Point trait like a vector space - other field layout, other iterator, own scalar type convertible to and from the native float - every curve operation gives the same results as with the bundled point type of the same dimension, up to floating-point rounding.",
 ["inputs", "configurations"], "user point types (named fields, own scalar newtype), all curve kinds and operations, all inputs",
 "All tests use the bundled point type with its scalar equal to the native float, where mixed-up conversions cannot be seen.",
 [PT, BZ, LN, QD, CB, BS, SEG], [("trait bounds on P: Point and P::Scalar", PT)], observe=["all curve operations over two user-defined Point types"])
prop("C19", "The segment enum behaves exactly like the curve it wraps",
 "For every line, quadratic or cubic curve, the segment enum made from it reports the same evaluation, start, end, baseline, flatness decision and split as the wrapped curve, and splitting keeps the variant. A line segment is always linear.",
 ["inputs", "configurations"], "all wrapped curves, t, tolerances and dimensions",
 "No test constructs the enum.",
 [SEG], [("BezierSegment match arms, From impls", SEG)], observe=["BezierSegment::*"])
prop("C20", "Different representations of the same curve agree",
 "A curve of degree 1, 2 or 3 written as a specialised type, as a generic Bézier curve, degree-elevated to a higher type or degree, or as the B-spline clamped at both ends with no interior knot, gives the same points, and - where the type offers them - the same sub-curve points after split, derivative values, arc length, bounding box and point distance within its documented resolution (the last three wherever squares of coordinates neither overflow nor underflow). Reversing the control points reverses the parametrisation.",
 ["inputs", "configurations", "programs"], "all control polygons of degree 1-3 (and generic degrees for Bézier vs B-spline), all pairs of representations, all t",
 "Tests compare generic and specialised evaluation on one polygon each; no other operation and no B-spline is cross-checked.",
 [BZ, LN, QD, CB, BS, SEG], [("independent implementations per type", "src/")], observe=["all curve types"])
prop("C21", "Bézier curves are affine-equivariant and stay in their convex hull",
 "For every Bézier type, every evaluated point is a convex combination of the control points, and applying an affine map (translation, scaling, reflection, axis permutation, shear) to the control points applies it to the points of the curve and of its split parts, and its linear part to the derivative. Under translations and axis permutations, bounding boxes move accordingly and arc length and point distance (with the query point moved along) are unchanged; under uniform scaling they scale - up to rounding, and for the point distance up to its documented sampling resolution (1/128 of the curve's largest possible speed), wherever squares of coordinates neither overflow nor underflow.",
 ["inputs", "configurations"], "all control polygons, t, affine maps, scales from 1e-6 to 1e6 and beyond, dimensions",
 "No test transforms a curve.",
 [BZ, LN, QD, CB], [("all curve formulas are affine combinations", "src/")], observe=["eval", "split", "derivative", "bounding_box", "arclen", "distance_to_point"])
prop("C22", "Curves are values: histories of edits and queries match a plain point list",
 "After any sequence of constructions, in-place control-point edits through the mutable iterator, copies, splits, derivatives and queries, a generic Bézier curve behaves exactly like a freshly built curve with the current control points: control_points() and by-value iteration return exactly them in order, queries repeated later return bit-identical answers, and editing a copy or a derived curve never affects the original. Specialised curves, too, report the control points they were built from and compare equal exactly when all of them are equal. Whatever queries came before, a B-spline, a copy of it and its derivatives answer like freshly built ones.",
 ["histories", "inputs"], "all finite sequences of edit, copy, split, derivative, iterate and query operations, all degrees",
 "No test mutates, copies or iterates a curve, and none performs more than one operation in a row.",
 [BZ, QD, CB, LN, BS], [("Copy/Clone structs, IntoIterator for &mut Bezier", BZ)], state=[("control points", "the only state of a curve", BZ)], observe=["Bezier iterators", "control_points"])
prop("C23", "No operation allocates heap memory",
 "No public operation on points, line segments, Bézier curves, segment enums or B-splines (construction, evaluation, split, derivative, bounding box, distance, arc length, predicates, iteration, error formatting) performs a heap allocation, for any input.",
 ["inputs", "configurations"], "all operations, degrees, dimensions and inputs, error paths included",
 "Ordinary tests cannot see allocations; the README's zero-allocation claim is untested.",
 [LIB, BZ, BS, CB, QD, LN], [("fixed-size arrays and ArrayVec only, no_std without alloc", LIB)], observe=["a counting global allocator around every call"])
prop("C24", "Every operation is total on finite input",
 "For every finite input - coordinates of any magnitude incl. subnormal, huge and mixed ones, coincident points, any finite parameter, tolerance or number of steps >= 0 - every operation on line segments, Bézier curves and B-splines returns without panicking and after a bounded amount of work, for B-splines even if knots are infinite. When all coordinates are moderate (no intermediate overflow), the results are finite.",
 ["inputs", "configurations"], "all operations on all finite inputs, including overflow-prone ones",
 "Tests use coordinates of a few units only.",
 [BZ, LN, QD, CB, BS, SEG], [("no indexing or unwrap depends on the values", "src/"), ("ArrayVec capacities", "src/cubic_bezier.rs, src/quadratic_bezier.rs")], observe=["all operations"])
prop("C25", "On targets without a 64-bit pointer the same contracts hold in f32",
 "When the native float is 32-bit, as on every non-64-bit target, evaluation, split, derivative, bounding boxes, distances, arc length, predicates, B-splines and points keep the contracts of properties C01-C24 with single-precision rounding: also the relations between representations and transformed curves, totality on every finite single-precision input, value semantics and freedom from allocation.",
 ["configurations", "inputs"], "the 32-bit native-float configuration, over the inputs of C01-C24 in single precision",
 "The test-suite hard-codes f64 and cannot even be compiled in that configuration.",
 [LIB, BZ, LN, QD, CB, BS], [("NativeFloat and EPSILON selection", LIB)], observe=["all curve operations built with --cfg stroke_vp_f32"],
 hook="cfg(stroke_vp_f32): selects the f32 native float on a 64-bit host")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
