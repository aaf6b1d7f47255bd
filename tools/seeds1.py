L, P, V, PS, C, CY, T, LS, FN, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '../_functions', '_base_sphere'))
FN = '_functions.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('centroid-memo', 'C33', 'centroid called, the points array modified in place, centroid called again',
     'the memoised centroid is returned although the array has changed',
     [(PS, '        centroid_ = cast(np.ndarray, self.mean(axis=0))\n\n        return Point(centroid_)',
       "        try:\n            return self._centroid\n        except AttributeError:\n            self._centroid = Point(cast(np.ndarray, self.mean(axis=0)))\n\n        return self._centroid")],
     '''
from skspatial.objects import Points
points = Points([[0., 0.], [2., 4.]])
points.centroid()
points[0] = [2, 0]
assert list(points.centroid()) == [2, 2], points.centroid()
''')

seed('plane-mesh-small-normal', 'C30', 'a plane whose normal is tiny but valid (length 1e-9)',
     'the branch of to_mesh is chosen by comparing the coefficient with an absolute tolerance, so a small normal divides by zero',
     [(P, '        if c != 0:\n', '        if not np.isclose(c, 0):\n'), (P, '        elif b != 0:\n', '        elif not np.isclose(b, 0):\n')],
     '''
import numpy as np
from skspatial.objects import Plane
X, Y, Z = Plane([0, 0, 1], [0, 0, 1e-9]).to_mesh()
assert np.isfinite(X).all() and np.allclose(Z, 1), (X, Z)
''')

seed('project-line-tolerance', 'C11', 'project_line called with a custom tolerance',
     'the tolerances of the caller no longer reach the parallelism check',
     [(P, 'if self.normal.is_parallel(line.vector, **kwargs):', 'if self.normal.is_parallel(line.vector):')],
     '''
from skspatial.objects import Plane, Line
try:
    Plane([0, 0, 0], [0, 0, 1]).project_line(Line([1, 1, 1], [0.01, 0, 1]), rel_tol=1e-3)
except ValueError:
    pass
else:
    raise SystemExit('no ValueError')
''')

seed('is-close-tolerance', 'C32', 'is_close called with a custom tolerance on nearly parallel lines',
     'the tolerance is not forwarded to the parallelism test',
     [('objects/_base_line_plane.py', 'is_parallel = self.vector.is_parallel(other.vector, **kwargs)', 'is_parallel = self.vector.is_parallel(other.vector)')],
     '''
from skspatial.objects import Line
assert Line([0, 0], [1, 0]).is_close(Line([0, 0], [1, 0.01]), rel_tol=1e-3)
''')

seed('transform-integer-origin', 'C31', 'integer points with a fractional origin',
     'the origin is converted to the dtype of the points and loses its fraction',
     [('transformation.py', 'np.subtract(points, point_origin)', 'np.subtract(points, np.asarray(point_origin).astype(np.asarray(points).dtype))')],
     '''
from skspatial.transformation import transform_coordinates
out = transform_coordinates([[1, 2], [3, 4]], [0.5, 0], [[1, 0], [0, 1]])
assert out[0][0] == 0.5, out
''')

seed('intersect-line-small-gap', 'C12', 'skew lines whose gap is small compared with one',
     'the coplanarity test is replaced by an absolute tolerance on the triple product, so small skew lines are accepted',
     [(L, 'if check_coplanar and not self.is_coplanar(other):',
       'if check_coplanar and not np.isclose(\n            Vector.from_points(self.point, other.point).dot(self.direction.cross(other.direction)), 0, atol=1e-3\n        ):')],
     '''
from skspatial.objects import Line
try:
    Line([0, 0, 0], [1, 0, 0]).intersect_line(Line([0, 0, 5e-4], [0, 1, 0]))
except ValueError:
    pass
else:
    raise SystemExit('no ValueError')
''')

seed('distance-line-perpendicular', 'C13', 'perpendicular skew lines whose points are not at the nearest positions',
     'for perpendicular skew lines the distance between the defining points is returned',
     [(L, '            vector_ab = Vector.from_points(self.point, other.point)\n            vector_perpendicular = self.direction.cross(other.direction)\n\n            distance =',
       '            vector_ab = Vector.from_points(self.point, other.point)\n            vector_perpendicular = self.direction.cross(other.direction)\n\n            if self.direction.is_perpendicular(other.direction) and vector_ab.is_perpendicular(self.direction):\n                return vector_ab.norm()\n\n            distance =')],
     '''
from skspatial.objects import Line
d = Line([0, 0, 0], [1, 0, 0]).distance_line(Line([0, 5, 2], [0, 1, 0]))
assert abs(d - 2) < 1e-9, d
''')

seed('line-fit-error', 'C27', 'best fit of a line to points in four or more dimensions (or three, not in a plane) with return_error',
     'only the second singular value enters the error',
     [(L, 'error = np.sum(S[1:] ** 2)', 'error = S[1] ** 2')],
     '''
from skspatial.objects import Line
points = [[0, 0, 0], [10, 0, 0], [5, 1, 0], [5, 0, 1], [5, 0, -1]]
line, error = Line.best_fit(points, return_error=True)
assert abs(error - line.sum_squares(points)) < 1e-9, (error, line.sum_squares(points))
''')

seed('area-signed-first-corner', 'C26', 'a polygon that turns the other way at its first vertex',
     'the sign is taken from the first corner, which is wrong for non-convex polygons',
     [('measurement.py', 'return 0.5 * np.sum(', 'turn = (X[1] - X[0]) * (Y[2] - Y[1]) - (X[2] - X[1]) * (Y[1] - Y[0])\n    sign = -1.0 if turn < 0 else 1.0\n\n    return 0.5 * sign * abs(np.sum('),
      ('measurement.py', '- X[indices] * Y[indices_offset])', '- X[indices] * Y[indices_offset]))')],
     '''
from skspatial.measurement import area_signed
polygon = [[0, 0], [1, 1], [0, 2], [-5, 2], [-5, 0]][::1]
arrow = [[0, 0], [2, -1], [1, 0], [2, 1]]
rotated = arrow[1:] + arrow[:1]
assert area_signed(arrow) == area_signed(rotated), (area_signed(arrow), area_signed(rotated))
''')

seed('side-point-rounding', 'C10', 'a point very close to the plane',
     'distances below 1e-9 count as zero',
     [(P, 'return int(np.sign(self.distance_point_signed(point)))', 'return int(np.sign(np.round(self.distance_point_signed(point), 9)))')],
     '''
from skspatial.objects import Plane
assert Plane([0, 0, 0], [0, 0, 1]).side_point([0, 0, 1e-10]) == 1
''')

seed('intersect-plane-tolerance', 'C14', 'intersect_plane called with a custom tolerance on nearly parallel planes',
     'the tolerance is not forwarded',
     [(P, 'if self.normal.is_parallel(other.normal, **kwargs):', 'if self.normal.is_parallel(other.normal):')],
     '''
from skspatial.objects import Plane
try:
    Plane([0, 0, 0], [0, 0, 1]).intersect_plane(Plane([0, 0, 1], [0.01, 0, 1]), rel_tol=1e-3)
except ValueError:
    pass
else:
    raise SystemExit('no ValueError')
''')

seed('segment-contains-tolerance', 'C15', 'contains_point of a segment with a custom relative tolerance',
     'the tolerance only reaches the endpoint tests',
     [(LS, 'return math.isclose(similarity, -1, **kwargs)', 'return math.isclose(similarity, -1)')],
     '''
from skspatial.objects import LineSegment
assert LineSegment([0, 0], [2, 0]).contains_point([1, 0.01], rel_tol=1e-2)
''')

seed('circle-downward-line', 'C16', 'a line through a circle that runs downwards and sideways',
     'the y coordinates keep the sign of the direction while the x coordinates are reordered',
     [(C, 'mp * abs(d_y) * root', 'mp * d_y * root')],
     '''
from skspatial.objects import Circle, Line
for p in Circle([0, 0], 5).intersect_line(Line([0, 0], [3, -4])):
    assert Line([0, 0], [3, -4]).contains_point(p, abs_tol=1e-9), p
''')

seed('project-near-centre', 'C18', 'projecting a point that is very close to but not at the centre',
     'the centre is compared with a tolerance, so close points are refused',
     [(BS, 'if self.point.is_equal(point):', 'if self.point.is_close(point, abs_tol=1e-9):')],
     '''
from skspatial.objects import Circle
assert Circle([0, 0], 1).project_point([1e-10, 0]).is_close([1, 0])
''')

seed('cylinder-strict-cap', 'C20', 'a point exactly in the plane of the upper cap',
     'the upper cap no longer belongs to the cylinder',
     [(CY, '<= cylinder.length())', '< cylinder.length())')],
     '''
from skspatial.objects import Cylinder
assert Cylinder([0, 0, 0], [0, 0, 2], 1).is_point_within([0.5, 0, 2])
''')

seed('plane-from-points-tolerance', 'C21', 'Plane.from_points with an explicit rank tolerance',
     'the tolerance of the caller is ignored',
     [(P, 'if Points([point_a, point_b, point_c]).are_collinear(**kwargs):', 'if Points([point_a, point_b, point_c]).are_collinear():')],
     '''
from skspatial.objects import Plane
try:
    Plane.from_points([0, 0, 0], [1, 0, 0], [2, 0.001, 0], tol=0.1)
except ValueError:
    pass
else:
    raise SystemExit('no ValueError')
''')

seed('unique-rounding', 'C24', 'points that differ by less than 1e-8',
     'rows are rounded before the duplicates are removed',
     [(PS, 'return Points(np.unique(self, axis=0))', 'return Points(np.unique(np.round(self, 8), axis=0))')],
     '''
from skspatial.objects import Points
assert Points([[0, 0], [1e-9, 0]]).unique().shape == (2, 2)
''')

seed('side-vector-tolerance', 'C05', 'nearly parallel or very short vectors',
     'small oriented areas count as zero',
     [(V, 'return int(np.sign(product[2]))', 'return 0 if math.isclose(product[2], 0, abs_tol=1e-9) else int(np.sign(product[2]))')],
     '''
from skspatial.objects import Vector
assert Vector([0, 1e-6]).side_vector([1e-6, 0]) == 1
''')

seed('arrow-scalar', 'C35', 'Vector.plot_2d with a scalar other than one and a y component',
     'the y component is not scaled',
     [(V, '        dx, dy = scalar * self\n', '        dx, dy = scalar * self[0], self[1]\n')],
     '''
from skspatial.objects import Vector
class Axes:
    def arrow(self, *args, **kwargs):
        self.args = args
ax = Axes()
Vector([1, 2]).plot_2d(ax, scalar=3)
assert tuple(ax.args) == (0, 0, 3, 6), ax.args
''')

seed('orthocenter-options', 'C23', 'orthocenter called with options for intersect_line',
     'the options are dropped',
     [(T, 'return line_alt_a.intersect_line(line_alt_b, **kwargs)', 'return line_alt_a.intersect_line(line_alt_b)')],
     '''
from skspatial.objects import Triangle
t = Triangle([0, 0], [1, 0], [0.5, 1])
try:
    t.orthocenter(rel_tol=0.9)
except ValueError:
    pass
else:
    raise SystemExit('tolerance ignored')
''')

seed('small-cylinder-axis', 'C02', 'a cylinder whose axis is short',
     'axes shorter than 1e-6 are refused as zero',
     [(CY, 'if self.vector.is_zero():', 'if self.vector.is_zero(abs_tol=1e-12):')],
     '''
from skspatial.objects import Cylinder
Cylinder([0, 0, 0], [0, 0, 1e-7], 1)
''')

seed('angle-3d-length', 'C06', 'a positive direction that is not of unit length',
     'the positive direction is no longer normalised before the angle is computed',
     [(V, 'direction_positive = Vector(direction_positive).unit()', 'direction_positive = Vector(direction_positive)')],
     '''
from math import pi
from skspatial.objects import Vector
a = Vector([1, 0, 0]).angle_signed_3d([1, 1, 0], direction_positive=[0, 0, 5])
assert abs(a - pi / 4) < 1e-9, a
''')

seed('norm-order', 'C04', 'norm called with an explicit order',
     'the keyword options of norm are dropped',
     [(V, 'return np.linalg.norm(self, **kwargs)', 'return np.sqrt(np.dot(self, self))')],
     '''
from skspatial.objects import Vector
assert Vector([3, 4]).norm(ord=1) == 7
''')

seed('parallel-zero-tolerance', 'C07', 'is_parallel of a short vector with an absolute tolerance',
     'only the first vector is tested for zero with the tolerances of the caller',
     [(V, 'if self.is_zero(**kwargs) or Vector(other).is_zero(**kwargs):', 'if self.is_zero(**kwargs) or Vector(other).is_zero():')],
     '''
from skspatial.objects import Vector
assert Vector([1, 0]).is_parallel([0, 1e-3], abs_tol=1e-3)
''')

seed('dimension-inherit', 'C34', 'slicing a spatial array and using its dimension',
     'the dimension is inherited from the array the slice was taken from',
     [('objects/_base_array.py', '    def __array_finalize__(self, _):\n        self.dimension = self.size\n',
       "    def __array_finalize__(self, obj):\n        self.dimension = getattr(obj, 'dimension', None) or self.size\n")],
     '''
from skspatial.objects import Vector
v = Vector([1, 2, 3])[:2]
assert v.dimension == 2, v.dimension
''')
