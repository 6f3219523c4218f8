prop("P01", "Evaluating a NURBS curve or surface gives the point of its definition",
     "For every degree, valid knot vector, control net and parameter of the domain, evaluating a NURBS curve or surface returns the value of the defining "
     "sum of basis functions, weighted and divided by the weights when the object is rational. All ways of evaluating (single point, homogeneous, many "
     "points, calling the object, sampling, legacy Python implementations) agree, and the basis functions are non-negative and sum to one.",
     ["inputs"], "every knot vector of the enumerated multiplicity patterns, every control point, weight and parameter value (ends, interior, on knots)",
     "Tests compare a few fixed curves with stored numbers; a wrong span, weight or index shows only for particular knots and parameters.",
     [NB, "mmcore/geom/bspline.py", "mmcore/geom/curves/bspline_utils.py"],
     [("point on curve", NB + ":curve_point"), ("point on surface", NB + ":surface_point"), ("basis functions", NB + ":basis_funs")], None)
prop("P02", "Knot insertion, refinement and removal do not change the curve",
     "Inserting or refining knots, or removing removable ones, leaves the curve the same at every parameter, with a non-decreasing knot vector holding "
     "exactly the requested knots and matching numbers of control points. Impossible requests (beyond the degree, outside the domain) are refused and change nothing. Derived data "
     "(Greville abscissae, domain, cached points) stay in step.",
     ["inputs", "histories"], "every control point, weight, knot value, inserted parameter and count within the enumerated patterns",
     "The existing tests insert, refine and remove one knot in one curve each.",
     [NB], [("insertion", NB + ":knot_insertion"), ("refinement", NB + ":knot_refinement"), ("removal", NB + ":knot_removal"), ("curve method", NB + ":NURBSCurve.insert_knot")],
     None)
prop("P03", "Splitting and decomposing reproduces the original pieces",
     "Splitting a curve or surface at any interior parameter, at several parameters, or decomposing it into Bezier pieces yields pieces that each coincide "
     "with the original on their part of the domain and together cover it exactly. Every piece is a valid object of the same degree and shares its "
     "end points (boundary curves) with its neighbours.",
     ["inputs"], "every split parameter (including those on or near existing knots), control point, weight and knot value within the enumerated patterns",
     "Tests split a fixed curve at a fixed parameter; splits on knots, rational objects and degenerate parameters are not sampled.",
     [NB], [("curve split", NB + ":split_curve"), ("surface split", NB + ":split_surface_u"), ("decomposition", NB + ":decompose_curve")], None)
prop("P04", "Derivatives of NURBS curves and surfaces are the exact derivatives",
     "Every derivative a NURBS curve or surface reports, of any order, for polynomial and rational objects, equals the mathematical derivative of the "
     "evaluated map with respect to the parameter, at every parameter of the domain and for every domain. Different routines for the same derivative agree; "
     "numerical derivatives stay inside the domain and are exact for maps of low degree.",
     ["inputs"], "every parameter, knot, weight and control point within the enumerated patterns",
     "Tests check derivatives only indirectly through a few intersections; errors at domain ends, for weights or for domains other than [0,1] stay unseen.",
     [NB, "mmcore/geom/parametric.pyx"], [("basis derivatives", NB + ":ders_basis_funs"), ("curve", NB + ":curve_derivs_alg1"), ("surface", NB + ":surface_derivatives"),
                                          ("numerical", "mmcore/geom/parametric.pyx:ParametricSurface.cderivative_u")], None)
prop("P05", "Knot-span and multiplicity lookup is correct, terminates and stays in bounds",
     "For every parameter and knot vector the span lookup terminates and returns the index of the non-empty knot interval holding the parameter (the last one at "
     "the domain end), and the multiplicity lookup counts the equal knots. No lookup or basis evaluation reads or writes outside its arrays.",
     ["inputs"], "every knot vector (clamped or not, with repeated knots) and parameter within the sizes bounded",
     "A non-terminating search or an out-of-bounds read needs a particular parameter relative to the knots, and bounds checks are compiled out.",
     [NB, "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/deboor.pyx"], [("span", NB + ":find_span_inline"), ("multiplicity", NB + ":find_multiplicity")], None)
prop("P06", "Reversing, flipping, trimming and normalizing change only the parametrization",
     "Reversing or flipping a curve traverses the same points backwards over the same domain, trimming returns exactly the part between the two parameters, and "
     "normalizing maps the domain to [0,1] without moving any point. Results are valid curves with non-decreasing knots, and applying a reversal twice "
     "restores the curve.",
     ["inputs"], "every knot vector, control point, weight, trim interval and parameter within the enumerated patterns",
     "No test covers unevenly spaced knots, rational curves or trims at existing knots.",
     [NB], [("reverse", NB + ":reverse_curve"), ("flip", NB + ":NURBSCurve.flip"), ("trim", NB + ":trim_curve"), ("normalize", NB + ":NURBSCurve.cnormalize_knots")], None)
prop("P07", "Curves and surfaces stay consistent through any history of edits and copies",
     "After any sequence of evaluations, copies, knot insertions, setter calls, flips and normalizations, evaluation answers for the current definition, never a "
     "remembered earlier one. Changing one object, an array it was given or an array it returned never changes another object.",
     ["histories", "inputs"], "sequences of operations up to the bounded length with symbolic control points, knots and parameters",
     "Stale caches and shared arrays appear only after particular orders of operations that no test performs.",
     [NB, "mmcore/geom/parametric.pyx"], [("evaluation cache", NB + ":NURBSCurve._evaluate_cached"), ("copy", NB + ":NURBSCurve.copy"), ("setters", NB + ":NURBSCurve.set")], None,
     state=[("definition", "control points, weights, knots, degree, periodic flag"), ("derived", "domain, Greville abscissae, cached points")])
prop("P08", "Serialized and pickled objects come back identical; malformed data is rejected",
     "Serializing, pickling or taking the state of a curve or parametric surface and rebuilding it yields an object with the same degree, knots, control points, "
     "weights and periodic flag, whatever operation produced it. Data cut short or with a header inconsistent with its length raises an error and is never "
     "read beyond its end.",
     ["inputs", "fault_sequences"], "every coordinate, weight and knot of the bounded sizes, every truncation point and header field value tried",
     "Tests contain no truncated or damaged strings; an over-read of memory gives no visible failure.",
     [NB], [("write", NB + ":NURBSCurve.cserialize"), ("read", NB + ":NURBSCurve.cdeserialize"), ("pickle", NB + ":NURBSCurve.__reduce__")], None)
prop("P09", "Equal curves and surfaces compare and hash equal, different ones do not",
     "Two curves or surfaces holding the same degree, knots, control points and weights are equal and have the same hash, however they were obtained (constructor, copy, "
     "deserialization, pickle); a difference in any one number makes them unequal. Evaluating does not change the hash, editing does. Comparison with any "
     "other object answers without an error.",
     ["inputs"], "every coordinate, weight and knot of the bounded sizes, and any amount of difference in one of them",
     "The tests never compare objects; a hash that leaves out one component is only seen by two objects differing just there.",
     [NB], [("curve hash", NB + ":NURBSCurve.__hash__"), ("surface hash", NB + ":NURBSSurface.__hash__"), ("equality", NB + ":NURBSCurve.__eq__")], None)
prop("P10", "Periodic curves are closed, repeat with their period and survive editing",
     "A periodic curve starts and ends in the same point, with equal derivatives below its degree there; its domain is one period, and points and derivatives repeat with "
     "that period. Copying, serializing, reversing, normalizing, and inserting knots leave it the same closed curve, splitting and trimming give pieces of it, and opening it returns the original control points.",
     ["inputs", "histories"], "every control point, weight, periodic knot spacing and parameter of the bounded sizes, shifted by up to two periods",
     "The one test only asks whether a few curves are closed; errors appear at the seam, one period away from it, or after an edit.",
     [NB, "mmcore/geom/nurbs.pxd"], [("make periodic", NB + ":NURBSCurve.make_periodic"), ("wrapping", "mmcore/geom/nurbs.pxd:wrap_parameter"), ("open", NB + ":NURBSCurve.make_open")], None)
AB = "mmcore/numeric/_aabb.pyx"
BV = "mmcore/geom/bvh/__init__.py"
prop("P11", "Bounding boxes contain their objects and box operations are exact set operations",
     "The bounding box of points, segments, NURBS curves and surfaces (polynomial or rational) contains every point of them. Overlap tests, intersections, unions and containment of boxes agree "
     "with the boxes as sets of points, touching ones included, and a segment or ray is reported to cross a box exactly when it does, with the right entry and exit. Splitting a box gives "
     "consistent boxes that together cover it.",
     ["inputs"], "every coordinate of the points, boxes, segments and rays, every overlap of them and every curve or surface parameter of the bounded sizes",
     "Tests use a few boxes in general position; touching, degenerate and axis-parallel configurations and boxes of rational curves are not sampled.",
     [AB, "mmcore/numeric/aabb.py", BV, NB], [("boxes of points", AB + ":aabb"), ("segments", AB + ":segment_aabb_intersect"), ("box type", BV + ":BoundingBox"), ("curve box", NB + ":NURBSCurve.bbox")], None)
prop("P12", "Bounding volume hierarchies hold every object once and queries miss nothing",
     "Building a hierarchy terminates and puts every object into exactly one leaf of the allowed size, and the box of each node contains its children. Box, point, segment, ray and "
     "tree-against-tree queries report every object (pair) whose box they meet, without duplicates, and with one object per leaf nothing else. Mesh queries find every triangle a ray crosses, "
     "nearest first, and one of those a segment crosses.",
     ["inputs"], "every position, order and overlap of up to five boxes or three triangles and of the query",
     "A missed object needs a particular arrangement of boxes (ties, touching or flat ones) that the few scenes of the tests do not contain.",
     [BV, "mmcore/numeric/algorithms/moller.pyx"], [("construction", BV + ":build_bvh"), ("box query", BV + ":traverse_bvh"), ("tree query", BV + ":intersect_bvh_objects"), ("ray query", BV + ":mesh_bvh_ray_intersection")], None)
VC, CPX = "mmcore/numeric/vectors.pyx", "mmcore/numeric/plane/cplane.pyx"
prop("P13", "Vector and plane operations return what their geometric definition says",
     "Dot, cross and matrix products, unit vectors, projections, distances, orthonormalization and the solving of small linear systems satisfy their defining equations for single vectors and "
     "arrays alike, without changing their arguments. A plane made from points, a normal or an equation contains them and has a right-handed orthonormal frame; local and world coordinates are inverse "
     "to each other; intersections of planes with planes and lines lie on all of them.",
     ["inputs"], "every component of the vectors and every rotation and origin of the planes within the bounds",
     "A wrong sign, a swapped component or a write into the argument is invisible for the axis-aligned data tests use.",
     [VC, CPX, "mmcore/numeric/plane/__init__.py", "mmcore/numeric/closest_point.py", "mmcore/numeric/intersection/pp.py"],
     [("vectors", VC + ":scalar_dot"), ("local coordinates", CPX + ":evaluate_plane"), ("planes", "mmcore/numeric/plane/__init__.py:plane_from_normal2"),
      ("distance to a line", "mmcore/numeric/closest_point.py:closest_point_on_line")], None)
IVF = "mmcore/numeric/interval/_interval.py"
prop("P14", "Interval arithmetic encloses every value of the numbers in the intervals",
     "The result of any sequence of sums, differences, products, quotients and integer powers of intervals and numbers contains the result of the same operations on any numbers taken from the "
     "intervals; one operation gives bounds that are no wider than the set of values. Comparisons are certain, possible or impossible exactly as all numbers say. Intersections, hulls and "
     "subdivision agree with intervals as sets of numbers.",
     ["inputs"], "every pair of interval bounds, every number inside and every scalar within the bounds",
     "There are no tests of intervals; enclosure fails only for particular signs of the bounds (negative factors, intervals around zero, even powers).",
     [IVF], [("operations", IVF + ":Interval.__mul__"), ("powers", IVF + ":Interval.pow"), ("comparison", IVF + ":Interval.compare")], None)
CAL, NUMP, FFM = "mmcore/numeric/calgorithms.pyx", "mmcore/numeric/numeric.py", "mmcore/geom/surfaces/fundamental_forms.py"
prop("P15", "Tangents, normals, frames and curvatures satisfy their definitions",
     "The unit tangent, curvature vector, normal, frame and osculating circle of a curve follow from its derivatives, also where the first derivative vanishes, and frames are orthonormal and right-handed. "
     "Surface normals, tangent planes, fundamental forms, Gaussian, mean and principal curvatures, principal directions, Christoffel symbols and curvatures of plane sections satisfy their defining "
     "equations on every regular surface point, all implementations agree, and no argument is changed.",
     ["inputs"], "every value of the derivative vectors, fundamental form coefficients, control points and parameters within the bounds",
     "There are no tests of frames or curvatures; axis-aligned shapes such as spheres and cylinders hide swapped arguments and missing terms.",
     [CAL, NUMP, FFM, "mmcore/geom/surfaces/geodesic.py", "mmcore/geom/evaluator/surface_evaluator.py", "mmcore/geom/parametric.pyx"],
     [("curve curvature", CAL + ":evaluate_curvature"), ("frames", NUMP + ":plane_on_curve"), ("fundamental forms", FFM + ":fundamental_forms"), ("surface plane", "mmcore/geom/parametric.pyx:ParametricSurface.cplane_at")], None)
KNF = "mmcore/geom/curves/knot.py"
prop("P16", "Elevated, joined, ruled and derived geometry agrees with its source curves",
     "Raising the degree of a curve and making two curves compatible change neither their points nor their domains and give valid clamped knot vectors. Ruled and bilinear surfaces contain their "
     "boundary curves and corners exactly and run straight between them, for rational curves and arbitrary domains too, and their derivatives are those of the surface. Joined and composed curves pass "
     "through both curves in order. Trimmed, reparametrized, combined and function-defined curves evaluate and differentiate as their definition says inside their domain. The source curves stay unchanged.",
     ["inputs"], "every control point, weight, knot, domain and parameter of the source curves within the bounds",
     "Most of these constructions have no tests; errors appear only for rational curves, unequal degrees, particular orientations or domains other than [0, 1].",
     [KNF, "mmcore/construction/ruled.py", "mmcore/geom/parametric.pyx", "mmcore/geom/curves/curve.py", "mmcore/geom/curves/_cubic.pyx"],
     [("degree elevation", KNF + ":degree_elevate_curve"), ("joining", KNF + ":join_two_curves"), ("ruled surface", "mmcore/construction/ruled.py:ruled"),
      ("parametric ruled surface", "mmcore/geom/parametric.pyx:Ruled")], None)
PRX, IMPX, CIRX = "mmcore/geom/primitives.pyx", "mmcore/geom/implicit/implicit.py", "mmcore/geom/circle.py"
prop("P17", "Implicit solids, their booleans and trees agree with the sets of points",
     "The signed value, gradient and bounds of spheres, cylinders and tubes are those of the solid with the current centre, ends, radius and thickness, also after these are changed; the parametric "
     "cylinder runs on the implicit one. Unions, intersections and differences are negative exactly inside the combined set and have the combined bounds. Quad- and octrees partition the bounds into "
     "full, empty and border cells whose corners say so. Circle values, points, tangent lines and intersections satisfy the circle equations.",
     ["inputs", "histories"], "every centre, axis, radius, thickness, query point, value of the combined shapes, bounds and corner sign within the bounds",
     "There are no tests of implicit shapes beyond one scene; wrong argument orders, stale bounds and particular axis directions are not sampled.",
     [PRX, IMPX, CIRX, "mmcore/geom/implicit/tree/tree2d.py", "mmcore/geom/implicit/tree/tree3d.py"],
     [("cylinder", PRX + ":ImplicitCylinder"), ("booleans", IMPX + ":Sub2D"), ("quadtree", "mmcore/geom/implicit/tree/collapse2d.py:collapse2d"), ("circles", CIRX + ":circle_intersection2d")], None)
prop("P18", "Containers behave like their mathematical models after every operation history",
     "The AVL tree and the skip-list sequence are sorted maps and stay balanced and linked; the circular list is a sequence whose links agree in both directions; union-find merges exactly the sets it "
     "was told to and grouping joins exactly the chains that share an end; the balanced k-d tree holds the points inserted and not deleted and answers nearest and k-nearest queries exactly; the "
     "R*-tree reports exactly the stored boxes that meet the query; the priority queue returns the least key first.",
     ["histories", "inputs"], "every order, coincidence and value of the keys and points, the position of every operation, and every random height of the skip list, within the bounds",
     "There are no tests of these containers; errors need particular orders of insertion and deletion, equal keys, or particular random heights.",
     ["mmcore/ds/tree/avl.py", "mmcore/ds/tree/rtree.py", "mmcore/ds/cdll/cdll.py", "mmcore/ds/union_find.py", "mmcore/ds/bkdtree.py", "mmcore/numeric/algorithms/sweep_line/skiplist.py",
      "mmcore/numeric/algorithms/sweep_line/sortseq.py", "mmcore/numeric/algorithms/sweep_line/priority_queue.py"],
     [("AVL tree", "mmcore/ds/tree/avl.py:AVL"), ("k-d tree", "mmcore/ds/bkdtree.py:BalancedKDTree"), ("R*-tree", "mmcore/ds/tree/rtree.py:RStarTree"), ("skip list", "mmcore/numeric/algorithms/sweep_line/skiplist.py:SkipList")], None)
prop("P20", "The compiled sorting and deduplication kernels are exact",
     "For every array of numbers, with any ties and negative values: quicksort leaves the same numbers in ascending order, argsort returns a permutation that puts them in order, "
     "and unique returns exactly the distinct values in ascending order. The argument of argsort and unique is unchanged, a result array that was "
     "given is used, and nothing outside the arrays is read or written.",
     ["inputs"], "every array of the sizes bounded, ties included",
     "The C kernels have no tests; ties, and elements already in place, decide which branch and which index is touched.",
     ["mmcore/numeric/algorithms/quicksort.pyx", "mmcore/numeric/algorithms/_quicksort.c", "mmcore/numeric/algorithms/_unique.c"],
     [("sorting", "mmcore/numeric/algorithms/quicksort.pyx:quicksort"), ("distinct values", "mmcore/numeric/algorithms/quicksort.pyx:unique")], None)
prop("P21", "Numerical derivatives, integrals and searches are exact where promised",
     "Central differences give the exact gradient, Jacobian and Hessian of polynomials of low degree, one-sided ones of linear functions, at any point (whole coordinates too), step and number of points; "
     "bounded ones never leave the interval. Romberg integrals are those of the extrapolation table. Newton's method finds the stationary point of any quadratic and the solution of any regular linear system, "
     "and reports when there is none. Searches for a least value stay inside their bounds and end within the tolerance of it for convex functions, also on the boundary. No argument is changed.",
     ["inputs"], "every coefficient, point, step, range and position of the least point within the bounds",
     "The searches are only run inside intersections, where a poor result is hidden by later refinement; pivoting, boundary minima and integer points are never sampled.",
     ["mmcore/numeric/fdm.py", "mmcore/numeric/newton/cnewton.pyx", "mmcore/numeric/newton/bounded.py", "mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/bisection.py",
      "mmcore/numeric/integrate/romberg.pyx"],
     [("differences", "mmcore/numeric/fdm.py:gradient"), ("Newton", "mmcore/numeric/newton/cnewton.pyx:newtons_method"),
      ("search", "mmcore/numeric/divide_and_conquer.py:divide_and_conquer_min_2d")], None)
prop("P22", "The API's vectors, matrices and bounding boxes compute what they name",
     "Vector arithmetic, in-place operators, length, unit, angle, parallelism, distance and products agree with the definitions and change nothing they should not. Matrices keep the cells they are given; "
     "product, determinant, transpose and inverse agree with each other; a frame matrix maps coordinates to points and aligning one frame with another maps origin and axes onto it; a rotation keeps its "
     "origin fixed and is rigid. Boxes are the least ones around their points and their tests, unions and intersections are those of the point sets.",
     ["inputs"], "every coordinate of vectors, frames, matrices and boxes within the bounds",
     "No test touches this part; transposed frames, lost origins and crossings of boxes without a common corner show only for general positions.",
     ["mmcore/api/_base_vectors.py", "mmcore/api/vectors.py", "mmcore/api/bbox.py"],
     [("vectors", "mmcore/api/_base_vectors.py:BaseVector"), ("matrices", "mmcore/api/vectors.py:Matrix3D"), ("boxes", "mmcore/api/bbox.py:BoundingBox3D")], None)
prop("P23", "Contact tests find exactly the contacts there are",
     "The collision test of two convex point sets answers True when they overlap and False when they are apart. The segment-triangle tests report a hit exactly when the segment meets the triangle, with its "
     "point and whether it is at a corner, on an edge or inside; the tests of many triangles agree with the single one row by row. The sweep line reports for every segment exactly its interior points on "
     "other segments, each once, in order from start to end, however its skip list tosses its coins. No argument is changed.",
     ["inputs"], "every translation, segment and end point within the bounds",
     "Which faces a simplex walks over and which events coincide depends on the position; the existing test samples one pair of bodies.",
     ["mmcore/numeric/algorithms/_gjk.cpp", "mmcore/numeric/algorithms/cygjk.pyx", "mmcore/numeric/algorithms/moller.pyx", "mmcore/numeric/algorithms/sweep_line/sweep_intersector.py"],
     [("collision", "mmcore/numeric/algorithms/_gjk.cpp:gjk_collision_detection"), ("triangles", "mmcore/numeric/algorithms/moller.pyx:intersect_triangle_segment"),
      ("sweep line", "mmcore/numeric/algorithms/sweep_line/sweep_intersector.py:SweepIntersector")], None)
prop("P24", "Polygon tests, clipping and hulls agree with the sets of points they bound",
     "Every point-in-polygon test answers inside or outside as the polygon and the point demand, for either orientation and any start vertex; area and winding are those of the outline. "
     "Clipping returns the points of the polygon in the window, also when nothing or everything is left. Union, intersection and difference of two polygons are those of the sets, also when the "
     "outlines do not cross. Refined outlines and planar convex hulls enclose exactly the given points; a point is in a closed curve when a ray from it leaves an odd number of times.",
     ["inputs"], "every position of the query point, the window and the second polygon, and every orientation and start vertex, within the bounds",
     "No test touches this part; rays through corners, nested or disjoint outlines and reversed orientation are never sampled.",
     ["mmcore/geom/polygon.py", "mmcore/numeric/algorithms/point_in_curve.py"],
     [("inside", "mmcore/geom/polygon.py:is_point_in_polygon"), ("booleans", "mmcore/geom/polygon.py:clip"), ("curves", "mmcore/numeric/algorithms/point_in_curve.py:point_in_curve")], None)
prop("P25", "Surfaces built from curves, and curves on surfaces, agree with their parts",
     "A Coons patch runs through its four boundary curves and blends them as defined; ruled and bilinear surfaces of the Python layer contain their curves and corners whatever domains these have. "
     "Numerical derivatives, normals and frames of a bilinear surface are its exact ones. An isocurve or isoline of a surface lies at its parameters and spans the domain; a curve on a surface has the "
     "surface's point, tangent and normal there. An offset curve keeps its distance. The curvature of a common curve has both surfaces' normal curvatures; a surface tree holds each cell once.",
     ["inputs"], "every control point, domain, parameter and derivative vector within the bounds",
     "Tests use one surface over the unit square; domains that start elsewhere, skewed tangent planes and partial isocurves are never sampled.",
     ["mmcore/geom/surfaces/__init__.py", "mmcore/geom/evaluator/surface_evaluator.pyx", "mmcore/geom/curves/offset.py"],
     [("Coons patch", "mmcore/geom/surfaces/__init__.py:Coons"), ("isocurves", "mmcore/geom/surfaces/__init__.py:Surface.isocurve"), ("curves on surfaces", "mmcore/geom/surfaces/__init__.py:CurveOnSurface"),
      ("offsets", "mmcore/geom/curves/offset.py:OffsetCurve")], None)
prop("P26", "The spline class and the spline kernels compute the defined curves",
     "The NURBSpline class evaluates the curve its degree, knots, points and weights define, at one or many parameters, also for unclamped and periodic knots and outside the domain; its derivatives, "
     "frames and derivative points are those of that curve, rational too. Splitting and inserting knots keep the curve; closing, opening, copying and assigning data leave a consistent spline. "
     "The span, basis, derivative, surface and insertion kernels beside it compute the B-spline basis; interpolation passes through its points.",
     ["inputs"], "every knot vector, control point, weight and parameter within the bounds",
     "Tests construct one or two splines; rational, periodic and unclamped ones and the helper kernels have no tests, and errors show only beyond degree one or at knots.",
     ["mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/bspline.py", "mmcore/geom/curves/knot.py", "mmcore/geom/curves/bspline_utils.py", "mmcore/geom/curves/deboor.pyx"],
     [("spline class", "mmcore/geom/curves/_nurbs.pyx:NURBSpline"), ("splitting", "mmcore/geom/curves/knot.py:nurbs_split"), ("recursive basis", "mmcore/geom/curves/deboor.pyx:cdeboor"),
      ("kernels", "mmcore/geom/curves/bspline_utils.py:calc_basis_functions"), ("interpolation", "mmcore/geom/curves/knot.py:interpolate_curve")], None)
prop("P27", "Intersections reported are real and point inversion finds the foot",
     "Every intersection a search reports lies on both objects and inside their domains, simple crossings of polylines are found, results come sorted, complete and without duplicates, and each kind "
     "of curve reaches the method for it. Isocurves and boundary curves lie on their surface, rational too, and boundary points carry the parameters of both surfaces. Point inversion returns the foot "
     "of the perpendicular on lines and planes; projections onto implicit surfaces and their intersections land on them.",
     ["inputs"], "every curve, surface, function, start and tolerance within the bounds",
     "Tests intersect a handful of fixed polynomial shapes; crossings at cell boundaries, last pieces of an interval, rational boundaries and empty results are never sampled.",
     ["mmcore/numeric/intersection/ccx/ccx.py", "mmcore/numeric/intersection/csx/__init__.py", "mmcore/numeric/intersection/csx/_ncsx.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py",
      "mmcore/numeric/algorithms/point_inversion.py", "mmcore/numeric/algorithms/implicit_point.py"],
     [("curve and implicit", "mmcore/numeric/intersection/ccx/ccx.py:curve_pix"), ("root search", "mmcore/numeric/divide_and_conquer.py:test_all_roots"),
      ("isocurves", "mmcore/numeric/intersection/ssx/boundary_intersection.py:extract_isocurve"), ("inversion", "mmcore/numeric/algorithms/point_inversion.py:point_inversion_surface")], None)
prop("P19", "A patch in power basis or as a Gauss map is the same patch",
     "Converting a Bezier patch to power form and back returns the same control points and both forms have the same points, also through homogeneous coordinates and the surface classes. Partial "
     "derivatives, vector products and normals of the polynomial forms are those of the patch. The control vectors of the Gauss map point along the Bernstein coefficients of the normal field, for "
     "rational patches too. Patches of several pieces are refused. The binomial table is exact and never read out of range.",
     ["inputs"], "every coefficient, control point, weight, parameter and domain of patches within the bounds",
     "The conversions have no tests; errors show only for unequal degrees, degree zero or rational patches.",
     ["mmcore/numeric/monomial.py", "mmcore/numeric/gauss_map.py", "mmcore/numeric/binom.pyx"],
     [("basis conversion", "mmcore/numeric/monomial.py:bezier_to_monomial"), ("normals", "mmcore/numeric/monomial.py:normal_vector_monomial"),
      ("Gauss map", "mmcore/numeric/gauss_map.py:compute_gauss_mapw")], None)
