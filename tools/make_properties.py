import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
C="src/curve/nurbs_curve.rs"; S="src/surface/nurbs_surface.rs"; K="src/knot/knot_vector.rs"
p("C01","Curve evaluation equals the rational B-spline it is defined as",
 "For every curve given by a degree, non-decreasing knots and positively weighted control points, the position, tangent and second derivative returned at any parameter of the domain, including both ends and repeated knots, are those of the rational B-spline the data define. Regular sampling returns exactly the requested number of points at evenly spaced parameters from the first to the last one asked for, each equal to the point evaluated there. The result never depends on the precision of the scalar beyond rounding.",
 ["inputs"],"all degrees, knot vectors (uniform, non-uniform, clamped, unclamped, repeated interior knots), weights, control points and parameters",
 "The tests evaluate a handful of fixed cubic curves; a wrong basis recurrence for one span pattern or one derivative order passes them.",
 [C,K,"src/misc/binomial.rs"],[("span search and basis functions","knot_vector.rs find_knot_span_index, basis_functions, derivative_basis_functions"),("rational quotient rule","nurbs_curve.rs rational_derivatives")],["point_at","tangent_at","second_derivative_at","point_tangent_at","sample_regular_range","sample_regular_range_with_parameter"])
p("C02","Knot insertion and refinement leave the curve unchanged",
 "Inserting one knot, or refining with any sorted list of knots strictly inside the domain, adds exactly those values to the knot vector and exactly as many control points, and every parameter still maps to the same point, for weighted as well as unweighted curves and for any order of successive insertions. The curve stays structurally valid: knots sorted, number of knots equal to control points plus degree plus one, end multiplicities unchanged.",
 ["inputs","histories"],"all curves and all sequences of insertions and refinements, including knots already present and knots inserted several times",
 "Tests insert into one unweighted curve; histories of insertions and weighted curves are never sampled.",
 [C,K],[("single insertion","nurbs_curve.rs try_add_knot"),("batch refinement","nurbs_curve.rs try_refine_knot")],["knots","control_points","point_at"])
p("C03","Knot removal never moves the curve beyond the tolerance",
 "Removing a knot value from a curve takes out only occurrences that can be removed within the given tolerance, reports how many it removed, shrinks knots and control points by exactly that number, and leaves every parameter mapping to the same point within the tolerance. A knot that was inserted before, and does not carry shape, can be removed again and restores the curve it was inserted into; a value that is not an interior knot changes nothing.",
 ["inputs","histories"],"all curves, all inserted and original knots, all multiplicities and tolerances",
 "One doc example removes one knot; wrong multiplicity bookkeeping for another degree or knot position is not reached.",
 [C],[("removal loop and compaction","nurbs_curve.rs try_remove_knot")],["knots","control_points","point_at"])
p("C04","Degree elevation leaves the curve unchanged",
 "Elevating a curve to any higher degree gives a curve of exactly that degree with the same domain, in which every parameter maps to the same point, every distinct knot's multiplicity grows by the number of degrees raised, and the numbers of knots and control points match the new degree. Asking for a degree not above the current one returns the curve unchanged.",
 ["inputs"],"all curves (spans, interior multiplicities, weights) and all target degrees",
 "The tests raise fixed curves by one degree; larger raises and other span counts follow different index arithmetic.",
 [C,"src/misc/binomial.rs"],[("Bezier-wise elevation with knot removal","nurbs_curve.rs try_elevate_degree")],["degree","knots","control_points","point_at"])
p("C05","Splitting and trimming return exactly the asked-for parts of a curve",
 "Splitting a curve at an interior parameter returns two curves whose domains meet at that parameter and which agree with the original at every parameter of their domains. Trimming to an interval of the domain returns curves that together trace exactly the part of the curve inside the interval, in order, and a closed curve trimmed with the parameters the other way round returns the part that runs through the seam. A parameter outside the domain is refused or constrained, never turned into a malformed curve.",
 ["inputs","histories"],"all curves, all split parameters (at knots or not), all repeated splits and trims of the pieces",
 "Doc examples split one curve at one parameter.",
 [C,"src/split/mod.rs","src/trim/mod.rs"],[("refinement to full multiplicity","split/mod.rs try_split"),("wrap-around trim","trim/mod.rs try_trim_range")],["try_split","try_trim_range"])
p("C06","Reversal, normalisation, lifting and casting only reparametrise or re-embed",
 "Reversing a curve traces the same points backwards over a domain of the same length and reversing twice restores it; normalising its knots maps the domain affinely onto [0,1] and moves no point; lifting to one more dimension appends a zero coordinate and moves no point; converting the scalar type moves no point beyond rounding; the weights and unweighted control points reported are those the curve was built from.",
 ["inputs","histories"],"all curves, weighted or not, clamped or not, and all sequences of these operations",
 "Only reversal of one curve is doc-tested.",
 [C,K],[("inversion of control points and knots","nurbs_curve.rs invert, knot_vector.rs invert"),("normalize","nurbs_curve.rs normalize_knots"),("lift","nurbs_curve.rs elevate_dimension"),("cast","nurbs_curve.rs cast")],["inverse","normalize_knots","elevate_dimension","cast","weights","dehomogenized_control_points"])
p("C07","Clamping and Bezier decomposition preserve the curve piece by piece",
 "Clamping an unclamped curve repeats its first and last knots degree plus one times and leaves every parameter of its domain mapping to the same point. Decomposing a curve into Bezier segments returns, in order and sharing end points, segments of degree plus one control points; every non-empty knot span of the domain is covered by exactly one of them, which traces exactly the curve over its span.",
 ["inputs"],"all clamped and unclamped curves, weights, knot spacings and interior multiplicities",
 "One clamped cubic is decomposed in tests.",
 [C],[("clamp by insertion","nurbs_curve.rs try_clamp"),("decomposition by refinement","nurbs_curve.rs try_decompose_bezier_segments")],["try_clamp","try_decompose_bezier_segments","is_clamped"])
p("C08","Affine transforms commute with evaluation",
 "Transforming a curve, compound curve, region, surface or trimmed surface by any invertible affine map (translation, rotation, scaling, reflection, shear) gives an object with the same degree, knots and weights whose point at every parameter is the mapped point of the original. Composing two transforms equals transforming by their product, and the transform of a weighted object is correct for every weight.",
 ["inputs","histories"],"all objects, weights and affine maps and all compositions of them",
 "Tests only apply transforms as set-up, with unit weights.",
 [C,S,"src/region/compound_curve.rs","src/region/mod.rs"],[("homogeneous transform","nurbs_curve.rs transform; nurbs_surface.rs transform; compound_curve.rs transform")],["transformed","transform"])
p("C09","Interpolation passes through every given point in order",
 "A curve interpolated through a list of points with a requested degree has that degree, a valid structure, starts at the first and ends at the last point, and passes through every point at its chord-length parameter (in the order given). A periodic interpolation passes through all points at the parameters of the chosen style, is closed, and joins smoothly at its seam (where the periodic conditions have no solution, as for an even degree with an even number of evenly spaced points, it is refused); a periodic curve of control points is closed in the same way; a polyline passes through its vertices, connected by straight segments, with knots at the accumulated lengths.",
 ["inputs"],"all point lists without repeated neighbours, all degrees below the number of points, all spacings of points, all parametrisation styles, two and three dimensions",
 "Doc tests interpolate one or two fixed point sets.",
 [C,"src/curve/knot_style.rs"],[("chord-length parameters and averaged knots","nurbs_curve.rs try_interpolate_control_points"),("periodic system","nurbs_curve.rs try_periodic_interpolate_control_points"),("parametrisation styles","knot_style.rs parameterize")],["try_interpolate","try_periodic_interpolate","try_periodic","polyline"])
p("C10","Arc length and division by length are consistent and accurate",
 "The length reported for a curve equals its arc length (to quadrature accuracy), does not change under reversal, reparametrisation, knot insertion or rigid motion, and equals the sum of the lengths of the pieces it is split into. The parameter returned for a length is the one at which that length has been travelled from the start of the domain, and dividing by a length (or by a count) yields strictly increasing parameters that start at the start of the domain and lie the given (or the equal) arc length apart.",
 ["inputs","histories"],"all curves with known exact length (polylines, circles, Pythagorean-hodograph cubics and splines of them), clamped or periodic, and all requested lengths and counts",
 "The tests measure one circle and one polyline; a wrong segment or offset in another span is not reached.",
 [C,"src/curve/curve_length_parameter.rs"],[("Gauss-Legendre quadrature per Bezier segment","nurbs_curve.rs try_length, compute_bezier_segment_length"),("segment walk and bisection","nurbs_curve.rs try_parameter_at_length, try_divide_by_length")],["try_length","try_parameter_at_length","try_divide_by_length","try_divide_by_count"])
p("C11","Closest point on a curve is on the curve and nothing on it is nearer",
 "For every curve and query point the closest-parameter search returns a parameter inside the domain, and the closest-point search returns the curve's point at that parameter; no other point of the curve is nearer to the query point beyond numerical tolerance, for open and closed curves, including queries nearest to an end, to a corner or to the seam. The size of the curve and the pace of its parameters make no difference.",
 ["inputs"],"all curves (polylines, splines, circles) and query points",
 "Doc example queries one point.",
 [C,"src/closest_parameter/curve_closest_parameter_newton.rs","src/closest_parameter/curve_closest_parameter_problem.rs"],[("sampled guess","nurbs_curve.rs find_closest_parameter"),("Newton refinement with domain wrap","curve_closest_parameter_newton.rs")],["find_closest_point","find_closest_parameter"])
p("C12","Circles, arcs and ellipses lie on their conic and span the asked angles",
 "A circle, ellipse, arc or elliptical arc built from a centre, two axes, radii and an angle interval is a curve every point of which lies on that conic, starts at the point of the start angle, ends at the point of the end angle, sweeps monotonically and only between them, and has positive weights; a full circle or ellipse is closed. Degenerate intervals are refused.",
 ["inputs"],"all centres, orthogonal axes, radii (equal or not) and angle intervals up to a full turn, in two and three dimensions",
 "Doc tests look at quarter angles of the unit circle only.",
 [C],[("arc segmentation and weights","nurbs_curve.rs try_ellipse_arc, try_arc, try_circle, try_ellipse")],["try_circle","try_ellipse","try_arc","try_ellipse_arc"])
p("C13","Curve intersection finds every crossing and reports only real ones",
 "Intersecting two plane curves (or compound curves) in general position reports every transversal crossing exactly once, and every reported intersection's two parameters lie in the curves' domains and evaluate to the reported points, which coincide within tolerance. The result does not depend on which curve is asked first or on the random subdivision used inside, and separated curves report none. The size of the curves and the pace of their parameters make no difference.",
 ["inputs","schedules"],"all pairs of polylines, circles and free-form curves in general position, both orders of the pair, every internal random choice",
 "Tests check a few fixed pairs and counts only.",
 ["src/intersects/curve_curve/intersection_curve_curve.rs","src/intersects/curve_curve/curve_intersection_bfgs.rs","src/intersects/curve_curve/intersection_compound_curve.rs","src/bounding_box/bounding_box_traversal.rs","src/bounding_box/mod.rs"],[("box-tree traversal","bounding_box_traversal.rs"),("BFGS refinement and deduplication","intersection_curve_curve.rs find_intersections")],["find_intersection","find_intersections"])
p("C14","Point containment agrees with the inside of the closed curve",
 "For every simple closed plane curve (polygon, circle, free-form, or compound of connected spans) a point strictly inside is reported as contained and a point strictly outside as not contained, whatever the curve's direction, starting point or parametrisation, including points level with vertices, knots or extrema. A curve that is not closed is refused, and points on the boundary are reported as contained. The size of the curve and the pace of its parameters make no difference.",
 ["inputs","schedules"],"all simple closed curves and query points away from the boundary, every rotation of the starting vertex, every internal random choice",
 "The tests sample seven fixed shapes; ray hits at vertices depend on exact query positions.",
 ["src/contains/contains_curve.rs","src/contains/contains_compound_curve.rs","src/misc/ray.rs"],[("ray casting over curve intersections","contains_curve.rs"),("compound rays","contains_compound_curve.rs")],["contains"])
p("C15","Curve booleans compute the set operation",
 "Uniting, intersecting or subtracting two simple closed plane curves in general position yields closed regions whose covered set (exterior minus interiors) is exactly the union, intersection or difference of the two covered sets, whatever the direction, starting point or kind of the curves, including disjoint and nested operands. The total area follows the set operation, and union and intersection do not depend on the order of the operands. The size of the curves and the pace of their parameters make no difference.",
 ["inputs","schedules"],"all pairs of simple closed curves in general position (polygons, circles, ellipses, splines), every operation, orientation, starting point and internal random choice",
 "The tests assert the number of regions for six fixed set-ups; wrong arcs with the right count pass.",
 ["src/boolean/clip.rs","src/boolean/degeneracies.rs","src/boolean/boolean_curve.rs","src/boolean/node.rs","src/boolean/vertex.rs","src/boolean/status.rs"],[("Greiner-Hormann traversal","clip.rs clip"),("degeneracy classification","degeneracies.rs")],["union","intersection","difference","boolean"])
p("C16","Region and compound-curve booleans compute the set operation",
 "Applying a boolean operation between compound curves or between regions with holes and a closed curve, compound curve or another region yields regions whose covered set is exactly the set operation applied to the covered sets of the operands. Chains of operations on their own results keep this, and nothing covered by an operand that the operation must keep is lost. The size of the regions and the pace of their curves' parameters make no difference.",
 ["inputs","histories"],"all regions (with and without holes) and operands in general position and all sequences of operations",
 "The tests touch one rectangle with one hole.",
 ["src/boolean/boolean_region.rs","src/boolean/boolean_compound_curve.rs","src/boolean/clip.rs","src/region/mod.rs"],[("exterior/interior recombination","boolean_region.rs"),("clip of compound curves","boolean_compound_curve.rs")],["union","intersection","difference","boolean"])
p("C17","Compound curves join their pieces into one continuous curve",
 "A compound curve built from pieces that connect end to end, given in any order and direction, contains every piece, is continuous over one increasing parameter range, evaluates in each sub-range to the piece that covers it, and reports closedness, length and end points accordingly. Reversing it, or all boundaries of a region at once, traces the same points backwards, trimming it returns exactly the part inside the interval, and its closest point and sampling agree with its pieces.",
 ["inputs","histories"],"all sets of connecting pieces, orders, directions, and all sequences of reversal, transform and trim",
 "Tests build compound curves in one natural order only.",
 ["src/region/compound_curve.rs","src/region/curve_direction.rs","src/trim/mod.rs"],[("connection search and knot alignment","compound_curve.rs try_new/new"),("span lookup","compound_curve.rs find_span, point_at")],["spans","point_at","knots_domain","is_closed","try_length","inverse","try_trim_range","tessellate"])
p("C18","Surface evaluation equals the tensor-product rational B-spline",
 "For every surface of any pair of degrees, knots, weights and control net, the point, the partial derivatives and the normal direction returned at any parameter pair of the domain are those of the tensor-product rational B-spline the data define. Regular sampling in either direction returns grids of the requested size whose entries equal the evaluated points and derivatives.",
 ["inputs"],"all degree pairs (equal or not), knot vectors, weights and parameters including domain corners",
 "Tests never evaluate a surface with unequal degrees and weights against an independent value.",
 [S,K],[("tensor basis","nurbs_surface.rs point, derivatives"),("rational quotient rule","nurbs_surface.rs rational_derivatives"),("sampling","nurbs_surface.rs regular_sample_points, regular_sample_evaluation")],["point_at","normal_at","regular_sample_points","rational_derivatives"])
p("C19","Surface refinement, splitting, isocurves and reversal keep the surface",
 "Refining a surface's knots in either direction, or splitting it in either direction, keeps every parameter pair mapping to the same point and keeps the control net consistent with its degrees and knots; split parts meet along the split parameter. Isocurves and boundary curves are exactly the surface at the fixed parameter, swapping or reversing the parameter directions permutes parameters and moves no point, and conversion of the scalar type moves no point beyond rounding.",
 ["inputs","histories"],"all surfaces and all sequences of refinements, splits, flips and reversals in both directions",
 "Doc tests split one surface in one direction.",
 [S,"src/split/mod.rs"],[("refinement per direction","nurbs_surface.rs try_refine_knot"),("split","split/mod.rs try_split for surfaces"),("isocurve","nurbs_surface.rs try_isocurve, try_boundary_curves"),("flip/invert","nurbs_surface.rs flip, invert")],["try_refine_knot","try_split","try_isocurve","try_boundary_curves","flip","inverse","cast"])
p("C20","Extrusion and lofting contain their input curves",
 "Extruding a curve along a vector gives the surface that maps every (profile parameter, height) to the profile point plus the proportional part of the vector, also for weighted profiles. Lofting compatible or incompatible curves gives a surface whose degree along the sections is their largest, whose knots there are the union of theirs, in which the first and last curves are boundary curves (as each is over its domain, unchanged by being made compatible), and which meets every section in between, in order.",
 ["inputs"],"all profiles (degrees, weights, knots), vectors, lists of sections with equal or different degrees and knots, and all admissible degrees in the section direction",
 "Tests loft sections of identical structure.",
 [S,C],[("extrude","nurbs_surface.rs extrude"),("section unification","nurbs_surface.rs try_unify_curve_knot_vectors, sorted_set_union, sorted_set_sub"),("column interpolation","nurbs_surface.rs try_loft")],["extrude","try_loft","point_at"])
p("C21","Revolved, swept, planar and spherical surfaces have their defining shape",
 "Revolving a profile about an axis through an angle gives a surface whose every point is the profile's point rotated about that axis, starting at the profile and ending at the profile rotated by the full angle, with distances to the axis and heights along it preserved. A sphere's points all lie at its radius from the centre, a planar rectangle is the affine rectangle between its corners, and a profile swept along a rail gives a surface that starts with the profile placed in the rail's first frame, ends with it placed in the last, and meets it, in order, placed in the rail's frames at evenly spaced parameters in between (its z axis along the rail, its y axis along the normal). A sphere runs once around from pole to pole.",
 ["inputs"],"all profiles (weighted or not, touching the axis or not), axes of any length, positive and negative angles up to a full turn, radii, rails",
 "Tests build one of each without checking a point.",
 [S,C],[("revolution","nurbs_surface.rs try_revolve"),("sphere","nurbs_surface.rs try_sphere"),("sweep by frames","nurbs_surface.rs try_sweep, nurbs_curve.rs compute_frenet_frames")],["try_revolve","try_sphere","try_sweep","plane"])
p("C22","Closest point on a surface is on the surface and nothing on it is nearer",
 "For every surface and query point the closest-parameter search returns a parameter pair inside the domain and the closest-point search returns the surface's point there; no point of the surface is nearer to the query beyond numerical tolerance, for open surfaces and for surfaces closed in one or both directions. The size of the surface and the pace of its parameters make no difference.",
 ["inputs"],"all surfaces (planes, extrusions, lofts, revolutions, spheres) and query points",
 "The tests query one surface at one point.",
 [S,"src/closest_parameter/surface_closest_parameter_newton.rs","src/closest_parameter/surface_closest_parameter_problem.rs"],[("tessellated guess","nurbs_surface.rs find_closest_parameter"),("Newton with domain constraint","surface_closest_parameter_newton.rs")],["find_closest_point","find_closest_parameter"])
p("C23","Surface-curve intersection finds every piercing and reports only real ones",
 "Intersecting a surface with a curve in general position reports every transversal piercing exactly once, and every reported hit's parameters lie in the domains and evaluate, on the surface and on the curve, to the reported points, which coincide within tolerance. A curve that misses the surface reports none, whatever the internal random choices. The size of the scene and the pace of the parameters make no difference.",
 ["inputs","schedules"],"all surfaces (spline graphs, extrusions, spheres, cones, tori) with all space curves in general position, including curves that begin or end on the surface, every internal random choice",
 "One fixed pair is tested.",
 ["src/intersects/surface_curve/intersection_surface_curve.rs","src/intersects/surface_curve/surface_curve_intersection_bfgs.rs","src/bounding_box/surface_bounding_box_tree.rs"],[("box-tree traversal","bounding_box_traversal.rs, surface_bounding_box_tree.rs"),("BFGS refinement","surface_curve_intersection_bfgs.rs")],["find_intersections"])
p("C24","Surface tessellation covers the whole domain without cracks or overlaps",
 "Tessellating a surface (regularly, adaptively, or with boundary constraints) gives triangles whose parameters tile the parameter rectangle exactly, without gaps, overlaps or vertices in the middle of a neighbour's edge, all wound the same way, and with every vertex's point and normal those of the surface at its parameters. On a constrained boundary the vertices are exactly the constrained parameters. Adaptive refinement respects the asked-for divisions and depth limits and leaves no edge between normals that differ by more than the tolerance, unless the depth limit is reached or a degenerate normal stops it. Normals are of unit length wherever the surface has a normal, whatever its size and the pace of its parameters.",
 ["inputs","configurations"],"all surfaces, degree pairs, tessellation options (tolerance, divisions, depth limits) and boundary constraints",
 "The tests only run one tessellation; cracks between cells of different depth are invisible to them.",
 ["src/tessellation/surface.rs","src/tessellation/adaptive_tessellation_node.rs","src/tessellation/adaptive_tessellation_processor.rs","src/tessellation/surface_tessellation.rs","src/tessellation/boundary_constraints.rs"],[("adaptive quad tree with neighbour links","adaptive_tessellation_processor.rs, adaptive_tessellation_node.rs"),("grid set-up","tessellation/surface.rs")],["tessellate","regular_tessellate","constrained_tessellate"])
p("C25","Trimmed-surface and region tessellation cover exactly the kept part",
 "Tessellating a trimmed surface gives triangles whose parameters cover exactly the inside of its exterior loop minus its interior loops (up to the flattening of curved loops), without overlaps and consistently wound, with every vertex's point and normal those of the surface at its parameters. Tessellating a region covers its exterior minus its holes in the same sense. Parameters given as constraints for a loop are its vertices. Reversing or transforming a trimmed surface keeps the kept part, and loops projected or mapped onto a surface are where they were projected to.",
 ["inputs","configurations"],"all planar and curved base surfaces, loops (rectangles, polygons, circles; any direction), numbers of holes and tessellation options",
 "Tests do not measure the covered part.",
 ["src/tessellation/trimmed_surface.rs","src/tessellation/tessellation_region.rs","src/surface/trimmed_surface.rs","src/misc/polygon_boundary.rs"],[("constrained Delaunay with winding filter","tessellation/trimmed_surface.rs, tessellation_region.rs"),("winding number","polygon_boundary.rs")],["tessellate","constrained_tessellate","try_projection"])
p("C26","Bounding boxes enclose, tree search loses nothing, meshes measure exactly",
 "The bounding box of points is the smallest box around them (the box of no points contains and meets nothing); the box of a curve, compound curve or surface contains every point of it and is not larger than that of its control points. At every scale boxes contain points and meet each other as sets of points do - within the tolerance asked for - and report size, centre, corners and edges accordingly. Recursive subdivision of a curve or surface gives parts of it, none larger than asked for, that cover its domain without gaps or overlaps, each inside its box; the traversal of two trees returns pairs of such parts with meeting boxes, and every point two objects share is in one of the pairs. A triangle mesh, also one joined from others, has the triangles it was made of and the sum of their areas.",
 ["inputs","schedules"],"all boxes, objects and pairs of objects, tolerances, every internal random choice, all triangle meshes",
 "Boxes are only used indirectly by the tests.",
 ["src/bounding_box/mod.rs","src/bounding_box/curve_bounding_box_tree.rs","src/bounding_box/surface_bounding_box_tree.rs","src/bounding_box/bounding_box_traversal.rs","src/polygon_mesh/mod.rs"],[("box from control hull","bounding_box/mod.rs"),("subdivision","curve_bounding_box_tree.rs, surface_bounding_box_tree.rs"),("pairs of leaves","bounding_box_traversal.rs"),("mesh measures","polygon_mesh/mod.rs")],["BoundingBox","BoundingBoxTraversal","CurveBoundingBoxTree","SurfaceBoundingBoxTree","PolygonMesh"])
p("C27","Serialisation round trips reproduce every object",
 "Serialising any curve, compound curve, region, surface or trimmed surface and reading it back gives an object with the same degrees, knots, weighted control points and structure, hence the same points everywhere, for every scalar type and dimension and for any order of the fields in the input. Incomplete, duplicated or malformed input is refused instead of producing an object, wherever in it the fault is; so are unknown fields (but a region skips them), and a trimmed surface may leave out its exterior.",
 ["inputs","histories"],"all objects reachable by the library's operations and all field orders and omissions",
 "Three fixed objects are round-tripped.",
 [C,S,"src/surface/trimmed_surface.rs","src/region/compound_curve.rs","src/region/mod.rs"],[("hand-written serde visitors","nurbs_curve.rs, nurbs_surface.rs, trimmed_surface.rs, compound_curve.rs, region/mod.rs")],["serde"])
p("C28","Moving frames are orthonormal, tangent-aligned and twist-minimal",
 "The frames computed along a curve at given parameters are right-handed orthonormal triads, one per parameter, whose tangent is the curve's unit tangent and whose origin is the curve's point there. Every frame is the previous one carried by the least rotation that takes the previous tangent to its own (unless the two are opposite), so on a planar curve the frames never rotate about the tangent, and on a closed smooth planar curve the last frame agrees with the first.",
 ["inputs"],"all curves with non-vanishing tangent and all increasing parameter lists (also empty, and with repetitions)",
 "Frames are never asserted in tests.",
 [C,"src/misc/frenet_frame.rs"],[("rotation-minimising propagation","nurbs_curve.rs compute_frenet_frames")],["compute_frenet_frames"])
p("C29","Knot vectors answer span, multiplicity and domain queries consistently",
 "Building a knot vector or curve keeps all given knots in sorted order and refuses inconsistent counts; adding a value keeps it sorted and reports where it went. The domain, span search (both searches), floor, clamp, clampedness and multiplicity queries agree with the sorted list for every degree, also at repeated knots and outside the domain, and the basis functions of a span and their derivatives are the Cox-de Boor functions: non-negative, with sum one, their derivatives with sum zero.",
 ["inputs","histories"],"all knot vectors, degrees and query values including repeated knots, domain ends and values outside",
 "One multiplicity test exists.",
 [K,"src/knot/knot_multiplicity.rs",C],[("span search","knot_vector.rs find_knot_span_index, find_knot_span_linear"),("multiplicity","knot_vector.rs multiplicity")],["KnotVector"])
p("C30","Polylines and polygons stand for the curves they are made of",
 "Tessellating a curve or compound curve gives points of it in order, from its start to its end, with one at every knot and joint (once) and, for a closed compound curve, the first point again at the end. A polynomial piece of degree up to three between two of them is within the asked-for flatness at its middle (up to the factor the random choice of the points that decide about it allows), a straight part is not divided between its knots, and no two halves are both there of a piece whose control points are all within half the flatness. A curve of degree one gives its control points. This holds at every scale of the parameter. A polygon contains exactly the points it turns around, wherever it starts, whichever way it runs and however often it touches or crosses itself.",
 ["inputs","schedules"],"all curves and chains, tolerances, parameter scales, every internal random choice; all polygons and points off them",
 "Tests tessellate two curves and ask one square about two points.",
 ["src/tessellation/tessellation_curve.rs","src/tessellation/tessellation_compound_curve.rs","src/misc/trigonometry.rs","src/misc/polygon_boundary.rs"],[("random flatness test and halving","tessellation_curve.rs tessellate_adaptive"),("joints","tessellation_compound_curve.rs"),("winding number","polygon_boundary.rs")],["tessellate","PolygonBoundary","contains"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
