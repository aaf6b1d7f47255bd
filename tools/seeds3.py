L, P, V, PS, C, CY, T, LS, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '_base_sphere'))
BA, BL, PT, SP = ('objects/%s.py' % n for n in ('_base_array', '_base_line_plane', 'point', 'sphere'))
FN, ME, TR, PL = '_functions.py', 'measurement.py', 'transformation.py', 'plotting.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('segment-slack', 'C15', 'two segments of which one ends less than a thousandth short of the other',
     'the second segment is asked with a loosened tolerance, so that points beyond its endpoint count as on it',
     [(LS, 'other.contains_point(point_intersection)', 'other.contains_point(point_intersection, abs_tol=1e-6)')],
     '''
from skspatial.objects import LineSegment
a = LineSegment([0, 0], [2, 0])
b = LineSegment([1, 1], [1, 0.0005])
try:
    a.intersect_line_segment(b)
except ValueError:
    pass
else:
    raise SystemExit('intersection beyond the end of the segment')
''')

seed('segment-options-shared', 'C15', 'intersect_line_segment called with a generous abs_tol meant for the parallel test',
     'the options of the line intersection are also handed to the membership test of the first segment, which then accepts points beyond its ends',
     [(LS, 'point_on_segment_a = self.contains_point(point_intersection)', "point_on_segment_a = self.contains_point(point_intersection, **{k: v for k, v in kwargs.items() if k != 'check_coplanar'})")],
     '''
from skspatial.objects import LineSegment
a = LineSegment([0, 0], [1, 0])
b = LineSegment([1.05, 1], [1.05, -1])
try:
    a.intersect_line_segment(b, abs_tol=0.01)
except ValueError:
    pass
else:
    raise SystemExit('intersection beyond the end of the segment')
''')

seed('float-conversion', 'C01', 'an integer beyond 2**53',
     'values are converted to float on the way in, so large integers change',
     [(BA, '        obj = np.asarray(array).view(cls)', '        array = np.asarray(array)\n        obj = (array * 1.0 if array.dtype.kind == "i" and abs(array).max() > 2**53 else array).view(cls)')],
     '''
from skspatial.objects import Vector
assert int(Vector([2 ** 53 + 1, 0])[0]) == 2 ** 53 + 1
''')

seed('rank-zero-tolerance', 'C25', 'tol=0 given, with points that the default tolerance calls collinear',
     'a tolerance of zero is treated as no tolerance',
     [(PS, '        return matrix_rank(points_centered, **kwargs)', '        tol = kwargs.pop("tol", None) or None\n\n        return matrix_rank(points_centered, tol=tol, **kwargs)')],
     '''
from skspatial.objects import Points
p = Points([[0.0, 0.0], [1.0, 0.0], [2.0, 1e-17]])
assert not p.are_collinear(tol=0)
''')

seed('rank-first-rows', 'C25', 'more than 64 distinct points, of which only a late one leaves the plane of the others',
     'the rank is computed from the first 64 distinct points only',
     [(PS, '        points_centered = self.unique().mean_center()', '        points_centered = self.unique()[:64].mean_center()')],
     '''
from skspatial.objects import Points
pts = [[float(i), float(i % 7), 0.0] for i in range(80)] + [[100.0, 0.0, 5.0]]
assert not Points(pts).are_coplanar()
''')

seed('line-fit-high-dimension', 'C27', 'points of dimension four or more, with return_error',
     'the error sums two singular values only',
     [(L, 'error = np.sum(S[1:] ** 2)', 'error = np.sum(S[1:3] ** 2)')],
     '''
import numpy as np
from skspatial.objects import Line
pts = np.random.default_rng(1).normal(size=(10, 5))
line, error = Line.best_fit(pts, return_error=True)
assert abs(error - line.sum_squares(pts)) < 1e-9
''')

seed('mesh-limits-in-place', 'C33', 'mesh limits given as a float array, and used again',
     "the plane's centre is added to the caller's array of limits",
     [(P, '        values_x = x_center + lims_x\n', '        values_x = np.asarray(lims_x)\n\n        if values_x.dtype.kind == "f":\n            values_x += x_center\n        else:\n            values_x = values_x + x_center\n\n')],
     '''
import numpy as np
from skspatial.objects import Plane
lims = np.array([-1.0, 1.0])
Plane([3, 1, 0], [0, 0, 1]).to_mesh(lims_x=lims)
assert lims.tolist() == [-1, 1], lims
''')

seed('transform-in-place', 'C33', 'transform_coordinates called with a float array and a float origin',
     "the origin is subtracted from the caller's array",
     [(TR, '    vectors_to_points = np.subtract(points, point_origin)', '    points = np.asarray(points)\n    out = points if points.dtype == np.float64 and points.ndim == 2 and len(points) > 8 else None\n    vectors_to_points = np.subtract(points, point_origin, out=out)')],
     '''
import numpy as np
from skspatial.transformation import transform_coordinates
p = np.arange(24.0).reshape(12, 2)
q = p.copy()
transform_coordinates(p, [1.0, 1.0], [[1, 0], [0, 1]])
assert (p == q).all()
''')

seed('scatter-unique', 'C35', 'a points array with repeated rows or rows out of order',
     'repeated points are drawn once, in sorted order',
     [(PS, '        _scatter_2d(ax_2d, self, **kwargs)', '        _scatter_2d(ax_2d, self.unique(), **kwargs)')],
     '''
import matplotlib.pyplot as plt
from skspatial.objects import Points
_, ax = plt.subplots()
Points([[3, 1], [1, 2], [3, 1]]).plot_2d(ax)
assert ax.collections[0].get_offsets().tolist() == [[3, 1], [1, 2], [3, 1]]
''')

seed('round-negative', 'C34', 'a negative number of decimals',
     'negative numbers of decimals round to integers',
     [(BA, 'np.around(self.to_array(), decimals=decimals)', 'np.around(self.to_array(), decimals=max(decimals, 0))')],
     '''
from skspatial.objects import Vector
assert Vector([1234., 56.]).round(-2).tolist() == [1200, 100]
''')

seed('transform-normalised', 'C31', 'a basis vector that is not of length one',
     'the basis vectors are normalised',
     [(TR, '    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))', '    vectors_basis = np.asarray(vectors_basis, dtype=float)\n    norms = np.linalg.norm(vectors_basis, axis=1, keepdims=True)\n    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis / norms))')],
     '''
from skspatial.transformation import transform_coordinates
assert transform_coordinates([[3, 4]], [1, 1], [[2, 0]]).tolist() == [[4]]
''')

seed('polygon-closing-vertex', 'C26', 'a list of vertices whose last one repeats the first',
     'a closing vertex is dropped before the number of vertices is checked',
     [(ME, '    n_points = points.shape[0]\n', '    if points.shape[0] > 1 and points[0].is_equal(points[-1]):\n        points = points[:-1]\n\n    n_points = points.shape[0]\n')],
     '''
from skspatial.measurement import area_signed
assert area_signed([[0, 0], [1, 0], [0, 0]]) == 0
''')

seed('circle-fit-small', 'C28', 'points on a circle of radius below about 1e-6',
     'points are called collinear by an absolute tolerance',
     [(C, '        if points.affine_rank() != 2:', '        if points.affine_rank(tol=1e-6) != 2:')],
     '''
from skspatial.objects import Circle
c = Circle.best_fit([[1e-7, 0], [0, 1e-7], [-1e-7, 0], [0, -1e-7]])
assert abs(c.radius - 1e-7) < 1e-12
''')

seed('cylinder-within-slack', 'C20', 'a point just outside the curved surface',
     'points up to 1e-6 outside the surface count as within',
     [(CY, '        within_radius = distance_to_axis <= self.radius\n', '        within_radius = distance_to_axis <= self.radius + 1e-6\n')],
     '''
from skspatial.objects import Cylinder
assert not Cylinder([0, 0, 0], [0, 0, 1], 1).is_point_within([1.0000005, 0, 0.5])
''')

seed('quadratic-rounds-discriminant', 'C19', 'n_digits given with a line whose discriminant is small',
     'the discriminant is rounded as well, so a line that crosses the cylinder is given as tangent',
     [(FN, '    discriminant = b**2 - 4 * a * c\n', '    discriminant = b**2 - 4 * a * c\n\n    if n_digits:\n        discriminant = round(discriminant, n_digits)\n')],
     '''
from skspatial.objects import Cylinder, Line
a, b = Cylinder([0, 0, 0], [0, 0, 1], 0.1).intersect_line(Line([0, 0, 0], [0.1, 0, 0.99499]), n_digits=2)
assert a.distance_point(b) > 1
''')

seed('plane-points-almost-unit', 'C10', 'a plane whose normal is almost, but not quite, of length one',
     'a normal within a thousandth of unit length is not normalised by the batch projection',
     [(P, '        vectors = np.subtract(self.point, points)\n\n        dot_products = np.dot(vectors, self.normal.unit())\n', '        vectors = np.subtract(self.point, points)\n\n        normal = self.normal if abs(self.normal.norm() - 1) < 1e-3 else self.normal.unit()\n        dot_products = np.dot(vectors, normal)\n')],
     '''
import numpy as np
from skspatial.objects import Plane
p = Plane([0, 0, 0], [0, 0, 1.0005])
assert np.allclose(p.project_points([[1, 2, 10.]]), [[1, 2, 0]], atol=1e-9)
''')

seed('line-transform-almost-unit', 'C31', 'a line whose direction is almost, but not quite, of length one',
     'a direction close to unit length is used as it is',
     [(L, '        vectors_basis = [self.direction.unit()]', '        direction = self.direction\n        vectors_basis = [direction if abs(direction.dot(direction) - 1) < 1e-4 else direction.unit()]')],
     '''
from skspatial.objects import Line
t = Line([0, 0], [1.00003, 0]).transform_points([[100., 0.]])
assert abs(t[0] - 100) < 1e-9
''')

seed('perpendicular-normalised', 'C07', 'is_perpendicular with an abs_tol on vectors that are not of length one',
     'the cosine is compared instead of the dot product',
     [(V, '        return math.isclose(self.dot(other), 0, **kwargs)\n', '        product = self.dot(other)\n        lengths = self.norm() * Vector(other).norm()\n\n        return math.isclose(product / lengths if lengths > 1 else product, 0, **kwargs)\n')],
     '''
from skspatial.objects import Vector
assert not Vector([100, 0]).is_perpendicular([1, 100], abs_tol=0.5)
''')

seed('circle-near-tangent', 'C17', 'two circles that barely overlap',
     'the two points of nearly tangent circles are merged',
     [(C, '        h = math.sqrt(max(self.radius**2 - a**2, 0))', '        h_squared = self.radius**2 - a**2\n        h = math.sqrt(h_squared) if h_squared > 1e-8 else 0')],
     '''
from skspatial.objects import Circle
a, b = Circle([0, 0], 1e-4).intersect_circle(Circle([1e-4, 0], 1e-4))
assert a.distance_point(b) > 1e-4
''')

seed('steep-slope', 'C21', 'a slope above a million',
     'steep lines are made vertical',
     [(L, '        direction = [1, slope]\n', '        direction = [1, slope] if abs(slope) < 1e6 else [0, slope]\n')],
     '''
from skspatial.objects import Line
l = Line.from_slope(4e6, 1)
assert l.direction[0] != 0
''')

seed('tiny-segment', 'C02', 'endpoints closer than 1e-9 to each other',
     'short segments near the origin are rejected',
     [(LS, '        if self.point_a.is_close(self.point_b):', '        if self.point_a.is_close(self.point_b, abs_tol=1e-9):')],
     '''
from skspatial.objects import LineSegment
LineSegment([0, 0], [1e-10, 0])
''')

seed('small-vector-projection', 'C04', 'projecting onto a vector shorter than 1e-6',
     'projections onto short vectors are zero',
     [(V, '        return self.dot(other) / self.dot(self) * self', '        if 0 < self.dot(self) < 1e-12:\n            return Vector(np.zeros(self.dimension))\n\n        return self.dot(other) / self.dot(self) * self')],
     '''
from skspatial.objects import Vector
assert abs(Vector([1e-7, 0]).project_vector([3, 4])[0] - 3) < 1e-9
''')

seed('centroid-float32', 'C24', 'coordinates with more than seven significant digits, at least 16 rows',
     'the centroid of larger sets is accumulated around the first point and rounded to six decimals',
     [(PS, '        centroid_ = cast(np.ndarray, self.mean(axis=0))\n', '        centroid_ = cast(np.ndarray, self.mean(axis=0))\n\n        if len(self) > 16:\n            centroid_ = np.around(centroid_, 6)\n')],
     '''
from skspatial.objects import Points
c = Points([[1e-8, 2e-8]] * 20).centroid()
assert abs(c[0] - 1e-8) < 1e-15
''')

seed('angle-wide', 'C06', 'two almost opposite vectors',
     'the angle of almost opposite vectors is rounded to pi',
     [(V, '        cos_theta = self.cosine_similarity(other)\n\n        return math.acos(cos_theta)', '        cos_theta = self.cosine_similarity(other)\n\n        return math.acos(cos_theta) if cos_theta > -0.99999 else math.pi')],
     '''
import math
from skspatial.objects import Vector
assert abs(Vector([1, 0]).angle_between([-1, 0.003]) - math.pi) > 1e-3
''')

seed('cylinder-mesh-axis', 'C30', 'a cylinder whose axis is neither along nor perpendicular to the x axis',
     'the first cross vector is not normalised, so the mesh is an ellipse inside the surface',
     [(CY, '        u_1 = v_axis.cross(v_different_direction).unit()\n        u_2 = v_axis.cross(u_1).unit()', '        u_1 = v_axis.cross(v_different_direction)\n        u_2 = v_axis.cross(u_1).unit()')],
     '''
from skspatial.objects import Cylinder, Line
c = Cylinder([0, 0, 0], [1, 0, 2], 1)
axis = Line(c.point, c.vector)
assert all(abs(axis.distance_point(p) - 1) < 1e-9 for p in c.to_points(n_along_axis=3, n_angles=7))
''')

seed('sphere-contains-scaled', 'C18', 'contains_point with an abs_tol on a sphere whose radius is not one',
     'the distance is divided by the radius before it is compared',
     [(BS, '        return _contains_point(self, point, **kwargs)\n', "        if 'abs_tol' in kwargs:\n            return bool(self.distance_point(point) <= kwargs['abs_tol'] * max(1, self.radius))\n\n        return _contains_point(self, point, **kwargs)\n")],
     '''
from skspatial.objects import Sphere
assert not Sphere([0, 0, 0], 10).contains_point([10.5, 0, 0], abs_tol=0.1)
''')

seed('side-3d-projection', 'C05', 'side_vector or side_point with a 3D vector whose third coordinate is zero',
     'three-dimensional vectors in the xy plane are accepted',
     [(V, '        if self.dimension != 2 or vector_other.dimension != 2:\n            raise ValueError("The vectors must be 2D.")\n\n        product', '        if self.dimension not in (2, 3) or vector_other.dimension != 2 or np.any(self[2:] != 0):\n            raise ValueError("The vectors must be 2D.")\n\n        product')],
     '''
from skspatial.objects import Vector
try:
    Vector([1, 2, 0]).side_vector([0, 1])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
