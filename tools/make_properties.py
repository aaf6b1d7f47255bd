import json
O='src/skspatial/objects/'
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith('src') else (O+f) for f in files],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)
I=['inputs']; IH=['inputs','histories']; IC=['inputs','configurations']
W="The tests pin a few hand-picked examples (mostly small integers in 2D/3D); the claim ranges over all real coordinates, all dimensions and all tolerance settings."
p('C01','Point, Vector and Points accept exactly the valid arrays and keep their values',
 "Constructing a point or vector succeeds exactly for a non-empty one-dimensional array_like of finite numbers, and constructing a points array exactly for a non-empty two-dimensional one; anything else (empty, wrong number of dimensions, NaN or infinite entry anywhere) raises ValueError. The object holds exactly the given values in order, and its dimension equals the length of the vector or the width of the points array.",
 I,"every array_like (list, tuple, ndarray, other spatial object) of any length and any finite or non-finite values, integer or float",W+" No test places a non-finite value at an arbitrary position of an arbitrary-length array.",
 ['_base_array.py','point.py','vector.py','points.py'],[('array constructors','objects/_base_array.py _BaseArray/_BaseArray1D/_BaseArray2D.__new__'),('dimension bookkeeping','__array_finalize__')])
p('C02','Geometric objects accept exactly the non-degenerate definitions',
 "Constructing a line, plane, circle, sphere, cylinder, line segment or triangle succeeds exactly when its definition is non-degenerate: matching dimensions, non-zero direction/normal/axis, positive radius (NaN is not positive), a 2D circle centre, 3D sphere and cylinder data, segment endpoints that are not close, triangle vertices that are not collinear; otherwise ValueError is raised. A constructed object exposes exactly the defining points, vectors and radius it was given, and its dimension is the dimension of its points.",
 I,"every choice of defining points, vectors and radii of any dimension, including degenerate, mismatched and NaN ones",W,
 ['_base_line_plane.py','_base_sphere.py','line.py','plane.py','circle.py','sphere.py','cylinder.py','line_segment.py','triangle.py'],[('validation','the __init__ methods of the seven classes')])
p('C03','set_dimension zero-pads and never truncates',
 "Setting the dimension of a point, vector or points array returns a new object of the same class with exactly the requested dimension, whose leading coordinates equal the original ones and whose added coordinates are all zero, leaving the original unchanged. A requested dimension smaller than the current one raises ValueError.",
 I,"every current dimension, every requested dimension, every number of rows and all values",W,['_base_array.py'],[('padding','_BaseArray1D.set_dimension, _BaseArray2D.set_dimension')])
p('C04','Vector norm, unit vector and projections are Euclidean',
 "The norm of a vector is the square root of its dot product with itself and the norm of a difference vector is the distance between the points; the unit vector is the vector divided by its norm (ValueError for the zero vector). The scalar projection of b onto a is a.b/|a|, and the vector projection of b onto a is (a.b/a.a)a, so that the residual is perpendicular to a and projecting twice equals projecting once.",
 I,"all vectors of every dimension, integer or float valued",W,['vector.py','point.py'],[('norm/unit/projection','Vector.norm, unit, scalar_projection, project_vector, from_points; Point.distance_point')])
p('C05','Cross product and 2D side predicates follow the right-hand rule',
 "The cross product of two vectors of dimension at most three is the 3D cross product of the zero-padded vectors: perpendicular to both, anticommutative, of length |a||b|sin, and ValueError above dimension three. The side of a vector relative to another 2D vector, and of a point relative to a 2D line, is -1, 0 or 1 according to the sign of the oriented area (right is 1), and non-2D input raises ValueError.",
 I,"all pairs of vectors of dimension 1 to 3 (and rejection for any higher dimension), all 2D lines and points",W,['vector.py','line.py'],[('cross','Vector.cross'),('sides','Vector.side_vector, Line.side_point')])
p('C06','Angles between vectors are correct and within range',
 "The cosine similarity of two non-zero vectors is a.b/(|a||b|) within [-1, 1] (ValueError if either is zero), and the angle between them is its arccosine, in [0, pi], symmetric and independent of positive scaling. The signed 2D angle is atan2 of the oriented area over the dot product, in (-pi, pi], non-2D input raising ValueError; the signed 3D angle is the same quantity measured about the given positive direction, which must be parallel to the cross product of the two vectors, else ValueError.",
 I,"all pairs of vectors of every dimension; all 2D pairs; all 3D triples",W,['vector.py'],[('angles','Vector.cosine_similarity, angle_between, angle_signed, angle_signed_3d')])
p('C07','Zero, parallel and perpendicular tests honour their tolerances',
 "A vector is zero when its squared length is close to 0, two vectors are perpendicular when their dot product is close to 0, and two vectors are parallel when either is zero or the absolute cosine similarity is close to 1, where 'close' is math.isclose with exactly the rel_tol/abs_tol the caller passes. Consequently exactly parallel vectors (either direction, any non-zero scale) are always parallel, perpendicular non-zero vectors never are under the default tolerance, and all three tests are symmetric.",
 IC,"all vectors of every dimension and all tolerance settings",W,['vector.py'],[('predicates','Vector.is_zero, is_perpendicular, is_parallel')])
p('C08','different_direction returns a vector that really differs in direction',
 "For a non-zero vector of dimension two or more, different_direction returns a non-zero vector of the same dimension that is not parallel to it; in one dimension it returns a vector of opposite sign. The zero vector raises ValueError. The caller's tolerances (each below one) are used throughout.",
 IC,"all vectors of every dimension and all tolerance settings",W,['vector.py'],[('direction choice','Vector.different_direction')])
p('C09','Line projection gives the nearest point and distances are minimal',
 "Projecting a point onto a line returns the point of the line whose offset to the input is perpendicular to the direction, hence the nearest point of the line; the distance from a point to a line is the distance to that projection, and no point of the line is nearer. The batch versions return, row by row, exactly the single-point results, and projecting a vector onto a line is projecting it onto the direction; to_point(t) is point + t*direction.",
 I,"all lines of every dimension, all points, all batch sizes, all parameters t",W,['line.py','vector.py'],[('projection','Line.project_point, project_points, project_vector, to_point'),('distance','Line.distance_point, distance_points')])
p('C10','Plane projection and signed distance are orthogonal and consistent',
 "The signed distance from a point to a plane is the component of the offset along the unit normal, positive on the side the normal points to; the distance is its absolute value and the side is its sign. The projection of a point lies on the plane and differs from the point by a multiple of the normal whose length is the distance, and the batch versions return, row by row, exactly the single-point results.",
 I,"all planes of every dimension, all points, all batch sizes",W,['plane.py','vector.py'],[('signed distance','Plane.distance_point_signed, distance_points_signed, distance_point, distance_points, side_point'),('projection','Plane.project_point, project_points')])
p('C11','Projecting vectors and lines onto a plane, and its cartesian form',
 "Projecting a vector onto a plane removes exactly its normal component, independently of where the plane is; projecting a line returns the line through the projected point with the projected direction, and raises ValueError exactly when the line is parallel to the normal under the caller's tolerances. The cartesian coefficients (a, b, c, d) of a plane of dimension at most three satisfy ax+by+cz+d = normal.(x - point) for every point x, and higher dimensions raise ValueError.",
 IC,"all planes, vectors, lines of every dimension; all tolerance settings",W,['plane.py'],[('projection','Plane.project_vector, project_line'),('cartesian form','Plane.cartesian')])
p('C12','Line-line intersection lies on both lines or raises for a stated reason',
 "Intersecting two lines of equal dimension at most three that are neither parallel nor skew returns the unique point lying on both lines, whatever the scaling or sign of their direction vectors. Different dimensions, dimension above three, parallel lines (under the caller's tolerances), and, unless the coplanarity check is switched off, non-coplanar lines each raise ValueError.",
 IC,"all pairs of lines, check_coplanar on and off, all tolerance settings",W,['line.py','vector.py'],[('intersection','Line.intersect_line'),('coplanarity','Line.is_coplanar')])
p('C13','Line-line distance is the minimum over both lines',
 "The distance between two lines of dimension at most three is the smallest distance between a point of one and a point of the other: the point-to-line distance for parallel lines (parallel within the library's default tolerance), zero for intersecting lines, |ab.(d1 x d2)|/|d1 x d2| for skew lines; it is symmetric and never negative. Two lines are coplanar exactly when the four points spanning them have affine rank at most two; comparing with a non-line raises TypeError.",
 I,"all pairs of lines in any relative position",W,['line.py','points.py'],[('distance','Line.distance_line'),('coplanarity','Line.is_coplanar')])
p('C14','Plane-line and plane-plane intersections lie on both objects',
 "Intersecting a plane with a line that is not parallel to it returns the unique point on both the line and the plane, and raises ValueError exactly when the direction is perpendicular to the normal under the caller's tolerances. Intersecting two non-parallel 3D planes returns a line whose every point lies on both planes, whose direction is the cross product of the normals and whose point is the solution nearest the origin; parallel planes raise ValueError.",
 IC,"all planes and lines (any dimension), all pairs of 3D planes, all tolerance settings",W,['plane.py'],[('plane-line','Plane.intersect_line'),('plane-plane','Plane.intersect_plane')])
p('C15','Line segment membership and intersection respect the endpoints',
 "A segment contains exactly the points on the straight stretch between its endpoints (endpoints included, up to math.isclose with the caller's tolerances), never points on the line's extension beyond them. Intersecting two segments returns the point common to both lines when it lies on both segments and raises ValueError otherwise.",
 IC,"all segments of every dimension, all points, all pairs of segments, all tolerance settings",W,['line_segment.py','line.py','vector.py'],[('membership','LineSegment.contains_point'),('intersection','LineSegment.intersect_line_segment')])
p('C16','Circle and sphere intersections with a line lie on both objects',
 "Intersecting a circle or sphere with a line returns two points that lie on the line and at distance radius from the centre, are symmetric about the foot of the perpendicular from the centre, and coincide for a tangent line. It raises ValueError exactly when the distance from the centre to the line exceeds the radius, and the sphere's points are ordered along the line's direction.",
 I,"all circles/spheres and lines, including tangent lines and horizontal/vertical directions",W,['circle.py','sphere.py'],[('circle-line','Circle.intersect_line'),('sphere-line','Sphere.intersect_line')])
p('C17','Circle-circle intersections lie on both circles',
 "Intersecting two circles returns two points each at distance radius from both centres (equal points when the circles are tangent). It raises ValueError exactly when the centres coincide, when the circles are separate, or when one lies strictly inside the other.",
 I,"all pairs of circles in any relative position",W,['circle.py'],[('circle-circle','Circle.intersect_circle')])
p('C18','Circle and sphere point distance, projection and containment agree',
 "The distance from a point to a circle or sphere is the absolute difference between its distance to the centre and the radius. Projecting a point returns the point of the circle or sphere on the ray from the centre through it, hence the nearest surface point, the centre itself raising ValueError; a point is contained exactly when that distance is close to zero under the caller's tolerances.",
 IC,"all circles and spheres, all points inside, on and outside, all tolerance settings",W,['_base_sphere.py'],[('surface queries','_BaseSphere.distance_point, project_point, contains_point')])
p('C19','Cylinder-line intersection points lie on the surface and on the line',
 "Intersecting an infinite cylinder with a line returns two points on the line at distance radius from the axis, ordered along the line, and raises ValueError when the line is parallel to the axis or misses. For the finite cylinder the two returned points lie on the line and on the closed surface (side between the caps, or cap disc), every point of the line strictly inside the cylinder lies between them, and ValueError is raised when the line misses; n_digits only rounds the quadratic's coefficients and a non-3D line raises ValueError.",
 IC,"all cylinders and lines, finite and infinite, all n_digits",W,['cylinder.py','src/skspatial/_functions.py'],[('infinite','_intersect_line_with_infinite_cylinder, _solve_quadratic'),('finite','_intersect_line_with_finite_cylinder, _intersect_line_with_caps, _between_cap_planes')])
p('C20','Measures of circles, spheres, cylinders, and membership in a cylinder',
 "Circumference, areas and volumes equal the textbook formulas: 2*pi*r and pi*r^2 for circles, 4*pi*r^2 and 4/3*pi*r^3 for spheres, 2*pi*r*h, 2*pi*r*h + 2*pi*r^2 and pi*r^2*h for a cylinder whose height h is the length of its axis vector. A point is within a cylinder exactly when its distance to the axis line is at most the radius and its component along the axis lies between zero and the height, both inclusive.",
 I,"all radii, axes and points",W,['circle.py','sphere.py','cylinder.py'],[('measures','circumference, area, surface_area, volume, length, lateral_surface_area'),('membership','Cylinder.is_point_within')])
p('C21','Objects built from points, slopes or vectors pass through their inputs',
 "A line from two points passes through both, a line from slope m and intercept b satisfies y = m*x + b, a plane from three points contains all three, a plane from a point and two vectors is parallel to both, a circle from three points passes through all three, and a cylinder from two points has them as its cap centres. Coincident points, parallel vectors, collinear points (with the caller's tolerance) and wrong dimensions raise ValueError.",
 IC,"all defining points, slopes and vectors, all tolerance settings",W,['line.py','plane.py','circle.py','cylinder.py'],[('constructors','Line.from_points, from_slope; Plane.from_points, from_vectors; Circle.from_points; Cylinder.from_points')])
p('C22','Triangle sides, angles, area and labels are mutually consistent',
 "In a triangle side a is opposite vertex A (and so on cyclically): each side's length is the distance between the two other vertices, each angle is the one between the two sides meeting at that vertex and the three angles sum to pi, the perimeter is the sum of the sides and the normal is AB x AC with area half its length. Unknown vertex or side names raise ValueError.",
 I,"all triangles of dimension 2 and 3 (labels: any string)",W,['triangle.py'],[('measures','Triangle.length, line, point, angle, perimeter, area, normal, multiple')])
p('C23','Triangle centres, altitudes and classification',
 "The centroid is the mean of the vertices; the altitude from a vertex runs through it perpendicular to the opposite side to a foot on that side's line, and the orthocentre lies on all three altitudes. Classification is equilateral exactly when all three pairs of sides are close, scalene exactly when none is, isosceles otherwise, and a triangle is right exactly when the two smaller squared sides sum to a value close to the largest squared side, under the caller's tolerances.",
 IC,"all triangles of dimension 2 and 3, all tolerance settings",W,['triangle.py'],[('centres','Triangle.centroid, altitude, orthocenter'),('classification','Triangle.classify, is_right')])
p('C24','Points centroid, centring, normalisation and deduplication',
 "The centroid of points is the coordinate-wise mean; centring subtracts it from every row (so the centred mean is zero) and can return it. Normalising distances divides every row by the largest distance to the origin, so the largest becomes one, and unique returns exactly the set of distinct rows, each once.",
 I,"all arrays of N points in D dimensions, any N and D, duplicates included",W,['points.py'],[('point-set operations','Points.centroid, mean_center, normalize_distance, unique')])
p('C25','Concurrency, collinearity and coplanarity are affine-rank tests',
 "The affine rank of a set of points is the dimension of the smallest flat containing them; points are concurrent, collinear or coplanar exactly when it is 0, at most 1, or at most 2. It does not depend on order, repetition or translation of the points, and a caller-supplied tolerance is the one used for the rank decision.",
 IC,"all point sets of any size and dimension (rank defined over the reals), all tolerances",W,['points.py'],[('rank','Points.affine_rank, are_concurrent, are_collinear, are_coplanar')])
p('C26','Triangle area, tetrahedron volume and signed polygon area are exact',
 "The area of a triangle given by three points of dimension at most three is half the length of the cross product of two edges; the volume of a tetrahedron is one sixth of the absolute triple product and is zero for coplanar points. The signed area of a polygon with any number (at least three) of 2D vertices is the shoelace sum, positive for counter-clockwise order, invariant under rotation of the vertex list and negated by reversal; fewer than three or non-2D points raise ValueError.",
 I,"all vertices; all polygons of any number of vertices",W,['src/skspatial/measurement.py'],[('measurement','area_triangle, volume_tetrahedron, area_signed')])
p('C27','Best-fit lines and planes minimise the sum of squared distances',
 "The best-fit line (any dimension) and best-fit plane (3D) pass through the centroid of the points and no other line or plane has a smaller sum of squared distances; with return_error the returned error is that minimal sum. Concurrent points (line), collinear or non-3D points (plane) raise ValueError, with the caller's tolerance used for the decision.",
 IC,"all point sets of any size, full-rank or degenerate; tol and return_error set or not",W,['line.py','plane.py','points.py'],[('fits','Line.best_fit, Plane.best_fit')])
p('C28','Best-fit circles and spheres solve the least-squares problem',
 "Best-fit circle and sphere return the centre and radius that solve the linear least-squares problem |p|^2 = 2p.c + (r^2 - |c|^2) over the points; in particular points lying exactly on a circle or sphere are recovered exactly. Wrong dimension, too few points (fewer than 3 or 4), collinear points for a circle and coplanar points for a sphere raise ValueError.",
 I,"all point sets of any size",W,['circle.py','sphere.py'],[('fits','Circle.best_fit, Sphere.best_fit')])
p('C29','Best-fit cylinder has its axis and caps tied to the points',
 "Fitting a cylinder to at least six non-coplanar 3D points returns a cylinder whose cap planes are exactly the two extreme planes of the points along the fitted axis, so every input point lies between the caps and each cap plane touches a point. Its radius is the root mean square distance of the points from the fitted axis; fewer points, non-3D points or coplanar points raise ValueError.",
 I,"all point sets of any size, symmetric or not along the axis",W,['cylinder.py'],[('fit','Cylinder.best_fit')])
p('C30','Meshes and surface points lie on the object they sample',
 "Every point of a plane mesh lies on the plane, and its two free coordinates run over the given limits offset by the x and y of the plane's point; every point of a sphere or cylinder mesh lies on the surface, with the sphere's grid running pole to pole and once around, the cylinder's from base to top and once around. to_points returns exactly the mesh vertices, one row per vertex, for all sampling parameters.",
 IC,"all planes (including vertical ones), spheres and cylinders in any orientation, all sampling counts and limits",W,['plane.py','sphere.py','cylinder.py','_mixins.py','src/skspatial/_functions.py'],[('meshes','Plane.to_mesh, Sphere.to_mesh, Cylinder.to_mesh, _ToPointsMixin.to_points')])
p('C31','Coordinate transformation is the dot product with each basis vector',
 "Transforming points returns an array with one row per point and one column per basis vector, whose entry is the dot product of the point's offset from the origin with that basis vector; with an orthonormal basis this preserves distances. Transforming points along a line gives the signed distance of each point's projection from the line's point, measured along the direction regardless of its length.",
 I,"any number of points and basis vectors of any dimension",W,['src/skspatial/transformation.py','line.py'],[('transform','transform_coordinates, Line.transform_points')])
p('C32','Containment, closeness and squared-error queries follow the distance',
 "A line or plane contains a point exactly when its distance to the point is close to zero under the caller's tolerances, and two lines (or planes) are close exactly when one contains the other's point and their vectors are parallel, a different type raising TypeError. The sum of squares of a line or plane over points is the sum over all rows of the squared distance.",
 IC,"all lines, planes, points, tolerance settings, any number of points",W,['_base_line_plane.py','src/skspatial/_functions.py'],[('queries','_BaseLinePlane.contains_point, is_close, sum_squares; _contains_point, _sum_squares')])
p('C33','No query mutates its operands or depends on earlier calls',
 "No method or function of the library (plotting onto axes aside) changes any of its arguments or its receiver: the defining points, vectors and radii of every object and the caller's arrays have the same values before and after every call. Repeating a call, or interleaving it with other calls on the same or other objects, gives the same result.",
 IH,"all call histories over all public methods and all inputs",
 "The tests build a fresh object per assertion and look only at the return value, so an in-place update or a stale cache on a reused object is invisible to them.",
 ['_base_array.py','vector.py','points.py','line.py','plane.py','cylinder.py'],[('frames','every public method')])
p('C34','Spatial arrays behave as NumPy arrays and keep their class',
 "Elementwise arithmetic between a spatial array and scalars or arrays gives the NumPy values, as an object of the spatial operand's class when the result has a shape valid for that class and finite values, and as a plain ndarray when the shape is not valid for it; reductions give plain scalars. to_array returns an independent plain copy, is_equal and is_close compare all elements (is_close with the caller's tolerances), and round returns the rounded values with the same class without changing the receiver.",
 IC,"all shapes, values, operand orders and tolerances",W,['_base_array.py'],[('ndarray integration','_BaseArray.__array_wrap__, to_array, is_close, is_equal, round')])
p('C35','Plotting draws exactly the object, and only in 2D or 3D',
 "Plotting a point, points, vector, line, segment, triangle, plane, circle, sphere or cylinder hands matplotlib exactly the coordinates of the object (all points, the stretch from t_1 to t_2, both endpoints, the scaled vector from its start, every vertex or side, the mesh, the centre and radius) and forwards the caller's keyword options. A 3D plot of points or lines on non-3D axes raises ValueError, and the plotter of an object picks 2D or 3D from its dimension and raises ValueError for any other dimension or for a shape that cannot be drawn in it.",
 IC,"all objects, all parameters and keyword options",W,['src/skspatial/plotting.py','_base_spatial.py','vector.py','line.py','triangle.py','circle.py'],[('plotting','plotting.py helpers; plot_2d/plot_3d methods; _PlotterMixin.plotter')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
