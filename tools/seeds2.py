L, P, V, PS, C, CY, T, LS, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '_base_sphere'))
BA, BL, PT, SP = ('objects/%s.py' % n for n in ('_base_array', '_base_line_plane', 'point', 'sphere'))
FN = '_functions.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('finite-negative-infinity', 'C01', 'an array whose only non-finite entry is -inf',
     'the finiteness check looks for NaN and +inf only',
     [(BA, '        if not np.isfinite(np.asarray(array)).all():', '        if np.isnan(np.asarray(array)).any() or (np.asarray(array) == np.inf).any():')],
     '''
from skspatial.objects import Points
try:
    Points([[0., 1.], [2., float('-inf')]])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('set-dimension-alias', 'C03', 'set_dimension called with the current dimension, and the result modified',
     'the object itself is returned instead of a new one when there is nothing to pad',
     [(BA, '        n_zeros = dim - self.size\n', '        n_zeros = dim - self.size\n\n        if n_zeros == 0:\n            return self\n\n')],
     '''
from skspatial.objects import Vector
v = Vector([1., 2., 3.])
w = v.set_dimension(3)
w[0] = 9
assert list(v) == [1, 2, 3], v
''')

seed('cosine-tiny-vectors', 'C06', 'vectors whose lengths multiply to less than 1e-12',
     'the zero-vector check of cosine_similarity uses an absolute tolerance',
     [(V, "        if denom == 0:\n", "        if math.isclose(denom, 0, abs_tol=1e-12):\n")],
     '''
from skspatial.objects import Vector
assert abs(Vector([1e-7, 0]).cosine_similarity([1e-7, 1e-7]) - 0.5 ** 0.5) < 1e-9
''')

seed('different-direction-tolerance', 'C08', 'different_direction with a loose tolerance on a vector near the first axis',
     'the tolerances no longer reach the test that decides whether the first axis differs',
     [(V, '        if self.is_parallel(vector_different_direction, **kwargs):', '        if self.is_parallel(vector_different_direction):')],
     '''
from skspatial.objects import Vector
v = Vector([1, 0.01])
assert not v.is_parallel(v.different_direction(rel_tol=1e-3), rel_tol=1e-3)
''')

seed('project-line-shortcut', 'C09', 'a point within 1e-9 relative of the point of the line, far from the origin',
     'points close to the point of the line are projected to that point, using a relative tolerance',
     [(L, '        # Vector from the point on the line to the point in space.\n        vector_to_point = Vector.from_points(self.point, point)\n\n        # Project', '        if self.point.is_close(point):\n            return Point(self.point)\n\n        vector_to_point = Vector.from_points(self.point, point)\n\n        # Project')],
     '''
from skspatial.objects import Line
p = Line([1e10, 1e10], [1, 1]).project_point([1e10 + 1, 1e10 + 1])
assert p[0] == 1e10 + 1, p[0] - 1e10
''')

seed('intersect-line-tolerance', 'C12', 'intersect_line called with a custom tolerance for lines of dimension three',
     'the tolerances of the caller do not reach the parallelism check',
     [(L, '        if self.direction.is_parallel(other.direction, **kwargs):\n            raise ValueError("The lines must not be parallel.")', '        if self.direction.is_parallel(other.direction):\n            raise ValueError("The lines must not be parallel.")')],
     '''
from skspatial.objects import Line
try:
    Line([0, 0, 0], [1, 0, 0]).intersect_line(Line([0, 1, 0], [1, 0.01, 0]), rel_tol=1e-3)
except ValueError:
    pass
else:
    raise SystemExit('no ValueError')
''')

seed('segment-endpoint-tolerance', 'C15', 'contains_point with an absolute tolerance and a point just beyond an endpoint',
     'the tolerances are not used when comparing the point with the endpoints',
     [(LS, 'if vector_a.is_zero(**kwargs) or vector_b.is_zero(**kwargs):', 'if vector_a.is_zero() or vector_b.is_zero():')],
     '''
from skspatial.objects import LineSegment
assert LineSegment([0, 0], [1, 0]).contains_point([1.001, 0], abs_tol=1e-3)
''')

seed('circle-tiny-centres', 'C17', 'two circles whose centres are closer than 1e-9',
     'centres are taken to coincide when they are within an absolute tolerance',
     [(C, '        if d == 0:\n', '        if math.isclose(d, 0, abs_tol=1e-9):\n')],
     '''
from skspatial.objects import Circle
a, b = Circle([0, 0], 1e-10).intersect_circle(Circle([1e-10, 0], 1e-10))
assert abs(a.norm() if hasattr(a, 'norm') else a.distance_point([0, 0])) > 5e-11
''')

seed('quadratic-near-parallel', 'C19', 'a line at an angle of about 1e-5 with the axis of the cylinder',
     'the quadratic is rejected when its leading coefficient is merely small',
     [(FN, '    if a == 0:\n', '    if math.isclose(a, 0, abs_tol=1e-9):\n')],
     '''
from skspatial.objects import Cylinder, Line
a, b = Cylinder([0, 0, 0], [0, 0, 1], 1).intersect_line(Line([0, 0, 0], [1e-5, 0, 1]))
assert abs(abs(a[0]) - 1) < 1e-6, a
''')

seed('cylinder-cap-perpendicular', 'C19', 'a finite cylinder and a perpendicular line that passes beyond a cap',
     'a line perpendicular to the axis is intersected with the infinite cylinder only',
     [(CY, '    point_base, point_top = _intersect_line_with_caps(cylinder, line)\n', '    if line.direction.is_perpendicular(cylinder.vector):\n        return _intersect_line_with_infinite_cylinder(cylinder, line, n_digits)\n\n    point_base, point_top = _intersect_line_with_caps(cylinder, line)\n')],
     '''
from skspatial.objects import Cylinder, Line
try:
    Cylinder([0, 0, 0], [0, 0, 1], 1).intersect_line(Line([0, 0, 3], [1, 1, 0]), infinite=False)
except ValueError:
    pass
else:
    raise SystemExit('no ValueError')
''')

seed('cylinder-bounding-box', 'C20', 'a tilted cylinder and a point at the rim of its top cap',
     'a bounding-box shortcut rejects points whose offset exceeds both the height and the radius',
     [(CY, '        line_axis = Line(self.point, self.vector)\n', '        if np.any(np.abs(np.subtract(point, self.point)) > max(self.length(), self.radius)):\n            return False\n\n        line_axis = Line(self.point, self.vector)\n')],
     '''
from skspatial.objects import Cylinder
assert Cylinder([0, 0, 0], [1, 1, 0], 1).is_point_within([1 + 0.6, 1 - 0.6, 0])
''')

seed('affine-rank-rounding', 'C25', 'points whose spread is below 1e-10',
     'the points are rounded before the rank is computed',
     [(PS, '        points_centered = self.unique().mean_center()\n', '        points_centered = self.round(10).unique().mean_center()\n')],
     '''
from skspatial.objects import Points
assert not Points([[0, 0], [1e-11, 0], [0, 1e-11]]).are_collinear()
''')

seed('coplanar-tolerance', 'C25', 'are_coplanar called with a tolerance',
     'the tolerance is not used by are_coplanar',
     [(PS, '        return bool(self.affine_rank(**kwargs) <= 2)', '        return bool(self.affine_rank() <= 2)')],
     '''
from skspatial.objects import Points
assert Points([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0.01]]).are_coplanar(tol=0.1)
''')

seed('circle-fit-duplicates', 'C28', 'points that contain duplicates and do not lie on one circle',
     'duplicated points are dropped before the fit, so they lose their weight',
     [(C, '        if points.affine_rank() != 2:\n', '        points = points.unique()\n\n        if points.affine_rank() != 2:\n')],
     '''
from skspatial.objects import Circle
a = Circle.best_fit([[0, 0], [2, 0], [2, 2], [0, 3], [0, 3], [0, 3]])
b = Circle.best_fit([[0, 0], [2, 0], [2, 2], [0, 3]])
assert abs(a.radius - b.radius) > 1e-6
''')

seed('sphere-fit-centre', 'C28', 'points far from the origin on one axis only',
     'the radius leaves out one coordinate of the centre when it is recovered from the solution',
     [(SP, 'np.sqrt(np.dot(center, center) + c[3])', 'np.sqrt(np.dot(center[:2], center[:2]) + center[2] * abs(center[2]) + c[3])')],
     '''
from skspatial.objects import Sphere
s = Sphere.best_fit([[1, 0, -1], [-1, 0, -1], [0, 1, -1], [0, -1, -1], [0, 0, 0], [0, 0, -2]])
assert abs(s.radius - 1) < 1e-9, s
''')

seed('cylinder-fit-duplicates', 'C29', 'points with duplicates',
     'duplicated points are dropped, so that the radius is not the root mean square over all points',
     [(CY, '        points = Points(points)\n\n        if points.dimension != 3:', '        points = Points(points).unique()\n\n        if points.dimension != 3:')],
     '''
import numpy as np
from skspatial.objects import Cylinder, Line
pts = [[2, 0, 0], [0, 2, 0], [0, -2, 0], [2, 0, 4], [0, 2, 4], [0, -2, 4], [-2, 0, 5], [-3, 0, 2], [-3, 0, 2], [-3, 0, 2]]
c = Cylinder.best_fit(pts)
axis = Line(c.point, c.vector)
rms = np.sqrt(np.mean(axis.distance_points(pts) ** 2))
assert abs(rms - c.radius) < 1e-6, (rms, c.radius)
''')

seed('cylinder-fit-length', 'C29', 'points of which the extreme one along the axis is not the first or last',
     'the height is measured between the points extreme in index order',
     [(CY, '        length = np.max(points_1d) - np.min(points_1d)\n', '        length = np.abs(points_1d - points_1d[0]).max()\n')],
     '''
import numpy as np
from skspatial.objects import Cylinder, Plane
t = np.linspace(0, 2 * np.pi, 9)[:-1]
pts = [[np.cos(a), np.sin(a), z] for a in t for z in (3., 0., 10.)]
c = Cylinder.best_fit(pts)
assert abs(c.length() - 10) < 1e-4, c.length()
''')

seed('is-equal-broadcast', 'C34', 'comparison with an array of another shape that broadcasts',
     'is_equal compares with broadcasting, so a row equals a whole array of equal rows',
     [(BA, '        return np.array_equal(self, other)', '        return bool(np.all(self.to_array() == np.asarray(other)))')],
     '''
from skspatial.objects import Points
assert not Points([[1, 2], [1, 2]]).is_equal([1, 2])
''')

seed('to-array-view', 'C34', 'the array returned by to_array is modified',
     'to_array returns a view of the same memory',
     [(BA, '        return np.array(self)\n', '        return np.asarray(self)\n')],
     '''
from skspatial.objects import Point
p = Point([1., 2.])
p.to_array()[0] = 5
assert p[0] == 1
''')

seed('triangle-normal-planar', 'C22', 'a 3D triangle lying in a plane parallel to the xy plane away from it',
     'the shoelace area is used when the z coordinates coincide, with the sign of the orientation',
     [(T, '        return 0.5 * self.normal().norm()', '        normal = self.normal()\n        return 0.5 * (normal[2] if normal[0] == normal[1] == 0 and self.dimension == 3 else normal.norm())')],
     '''
from skspatial.objects import Triangle
assert Triangle([0, 0, 5], [0, 1, 5], [1, 0, 5]).area() > 0
''')

seed('right-triangle-order', 'C23', 'a right triangle whose hypotenuse is side a or b, within a relative tolerance',
     'is_right takes the sides unsorted when side c is not shorter than the others within tolerance',
     [(T, "        a, b, c = sorted(self.multiple('length', 'abc'))", "        a, b, c = self.multiple('length', 'abc')\n\n        if not math.isclose(c, max(a, b, c), rel_tol=1e-3):\n            a, b, c = sorted([a, b, c])")],
     '''
from skspatial.objects import Triangle
assert Triangle([0, 0], [1000, 0], [1000, 1]).is_right()
''')

seed('normalize-bounding', 'C24', 'points of which the farthest is not the one with the largest coordinate',
     'the largest distance is taken at the row with the largest coordinate',
     [(PS, '        return self / distances_to_points.max()', '        return self / distances_to_points[np.abs(self.to_array()).max(axis=1).argmax()]')],
     '''
import numpy as np
from skspatial.objects import Points
q = Points([[3, 0], [2.9, 2.9]]).normalize_distance()
assert abs(np.linalg.norm(q, axis=1).max() - 1) < 1e-12
''')

seed('coplanar-cross-check', 'C13', 'two skew lines whose points are very close relative to their direction vectors',
     'coplanarity is decided by a triple product with an absolute tolerance',
     [(L, '        return points.are_coplanar(**kwargs)', '        return points.are_coplanar(**kwargs) or bool(abs(Vector.from_points(point_1, point_3).set_dimension(3).dot(self.direction.cross(other.direction))) < 1e-8 if self.dimension <= 3 else False)')],
     '''
from skspatial.objects import Line
d = Line([0, 0, 0], [1e-4, 0, 0]).distance_line(Line([0, 0, 0.5], [0, 1e-4, 0]))
assert abs(d - 0.5) < 1e-9, d
''')

seed('sphere-line-order', 'C16', 'a line whose point lies beyond the sphere',
     'the points of the sphere are ordered by distance to the point of the line',
     [(SP, '        distances = -dot + pm * math.sqrt(discriminant)\n', '        distances = -dot + pm * math.sqrt(discriminant)\n        distances = distances[np.argsort(np.abs(distances))]\n')],
     '''
from skspatial.objects import Sphere, Line
a, b = Sphere([0, 0, 0], 1).intersect_line(Line([5, 0, 0], [1, 0, 0]))
assert a[0] < b[0], (a, b)
''')

seed('contains-point-tolerance', 'C18', 'contains_point of a circle with a relative tolerance',
     'the distance to the centre is compared with the radius, so that a relative tolerance has an effect it must not have',
     [(BS, '        return _contains_point(self, point, **kwargs)', '        return math.isclose(self.point.distance_point(point), self.radius, **kwargs)'), (BS, 'import numpy as np\n', 'import math\n\nimport numpy as np\n')],
     '''
from skspatial.objects import Circle
assert not Circle([0, 0], 1).contains_point([1.01, 0], rel_tol=0.1)
''')

seed('tetrahedron-planar', 'C26', 'a tiny tetrahedron (edges of 1e-3)',
     'the volume is reported as zero when the triple product is below an absolute tolerance',
     [('measurement.py', '    return 1 / 6 * abs(vector_ab.dot(vector_cross))', '    triple = vector_ab.dot(vector_cross)\n\n    if np.isclose(triple, 0):\n        return np.float64(0)\n\n    return 1 / 6 * abs(triple)')],
     '''
from skspatial.measurement import volume_tetrahedron
assert volume_tetrahedron([0, 0, 0], [1e-3, 0, 0], [0, 1e-3, 0], [0, 0, 1e-3]) > 0
''')
