"""Planted changes, sixth batch."""
L, P, V, PS, C, CY, T, LS, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '_base_sphere'))
BA, BL, PT, SP, MX = ('objects/%s.py' % n for n in ('_base_array', '_base_line_plane', 'point', 'sphere', '_mixins'))
FN, ME, TR, PL = '_functions.py', 'measurement.py', 'transformation.py', 'plotting.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('mesh-many-angles', 'C30', 'a mesh with more than sixty angles',
     'a finely sampled sphere is not closed',
     [(SP, '        angles_b = np.linspace(0, 2 * np.pi, n_angles)', '        angles_b = np.linspace(0, 2 * np.pi, n_angles, endpoint=n_angles <= 60)')],
     '''
import numpy as np
from skspatial.objects import Sphere
X, Y, Z = Sphere([0, 0, 0], 1).to_mesh(n_angles=80)
assert np.allclose(X[:, 0], X[:, -1]) and np.allclose(Y[:, 0], Y[:, -1])
''')

seed('zero-by-largest', 'C07', 'is_zero with an absolute tolerance',
     'the largest coordinate is compared with the tolerance instead of the squared length',
     [(V, '        return math.isclose(self.dot(self), 0, **kwargs)', '        return math.isclose(np.abs(self).max() ** 2, 0, **kwargs)')],
     '''
from skspatial.objects import Vector
assert not Vector([1e-3, 1e-3]).is_zero(abs_tol=1.5e-6)
''')

seed('angle-small-zero', 'C06', 'vectors at an angle of less than 3e-5',
     'the angle between nearly parallel vectors is reported as zero',
     [(V, '        cos_theta = self.cosine_similarity(other)\n\n        return math.acos(cos_theta)', '        cos_theta = self.cosine_similarity(other)\n\n        if math.isclose(cos_theta, 1):\n            return 0.0\n\n        return math.acos(cos_theta)')],
     '''
from skspatial.objects import Vector
assert abs(Vector([1, 0]).angle_between([1, 1e-5]) - 1e-5) < 1e-9
''')

seed('plane-line-small-normal', 'C14', 'a plane with a short normal and a line with a short direction',
     'a small dot product of normal and direction is taken for parallel whatever their lengths',
     [(P, '        denom = self.normal.dot(line.direction)\n', '        denom = self.normal.dot(line.direction)\n\n        if abs(denom) < 1e-14:\n            raise ValueError("The line and plane must not be parallel.")\n')],
     '''
from skspatial.objects import Line, Plane
p = Plane([0, 0, 0], [0, 0, 1e-8]).intersect_line(Line([1, 2, 3], [0, 0, 1e-8]))
assert p.is_close([1, 2, 0], abs_tol=1e-9)
''')

seed('sphere-line-almost-unit', 'C16', 'a line with a direction of length almost but not exactly one',
     'a direction of nearly unit length is not normalised',
     [(SP, '        vector_unit = line.direction.unit()', '        vector_unit = line.direction if math.isclose(line.direction.norm(), 1, rel_tol=1e-4) else line.direction.unit()')],
     '''
from skspatial.objects import Line, Sphere
s = Sphere([0, 0, 0], 1)
for p in s.intersect_line(Line([-5, 0, 0], [1.00005, 0, 0])):
    assert s.distance_point(p) < 1e-9, p
''')

seed('finite-first-entries', 'C01', 'an array with more than a thousand entries that has its first NaN late',
     'only the first thousand entries are examined',
     [(BA, '        if not np.isfinite(np.asarray(array)).all():', '        if not np.isfinite(np.asarray(array).ravel()[:1000]).all():')],
     '''
import numpy as np
from skspatial.objects import Points
x = np.zeros((600, 2))
x[-1, -1] = np.nan
try:
    Points(x)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('angle-rounded-cosine', 'C22', 'a triangle with a very small angle at A',
     'the cosine of the angle at A is rounded to ten decimals',
     [(T, '            arg = (b**2 + c**2 - a**2) / (2 * b * c)', '            arg = round((b**2 + c**2 - a**2) / (2 * b * c), 10)')],
     '''
from skspatial.objects import Triangle
t = Triangle([0, 0], [1, 0], [1, 1.2345e-4])
assert abs(t.angle("A") - 1.2345e-4) < 1e-8, t.angle("A")
''')

seed('cylinder-fit-first-points', 'C29', 'more than 64 points',
     'the centre is found from the first 64 points',
     [(CY, '        def _compute_center(direction: Vector, points: Points) -> Point:\n', '        def _compute_center(direction: Vector, points: Points) -> Point:\n            points = points[:64]\n')],
     '''
import numpy as np
from skspatial.objects import Cylinder, Line
rng = np.random.default_rng(0)
a = rng.uniform(0, 2 * np.pi, 120)
z = np.linspace(0, 5, 120)
noise = np.where(np.arange(120) < 64, 0, 0.2 * np.sign(np.sin(a)))
p = np.column_stack(((1 + noise) * np.cos(a), (1 + noise) * np.sin(a), z))
c = Cylinder.best_fit(p)
u = c.vector.unit()
q = p - p.mean(axis=0)
P = np.eye(3) - np.outer(u, u)
q = q @ P
A = np.column_stack((2 * q @ np.linalg.svd(P)[0][:, :2], np.ones(len(q))))
x = np.linalg.lstsq(A, (q**2).sum(axis=1), rcond=None)[0]
best = np.linalg.svd(P)[0][:, :2] @ x[:2] + p.mean(axis=0)
assert Line(c.point, c.vector).distance_point(best) < 1e-6
''')

seed('orthocenter-right', 'C23', 'a triangle with an angle that is nearly but not exactly right',
     'the orthocentre of a nearly right triangle is the vertex',
     [(T, "        line_alt_a = self.altitude('A')\n", "        if abs(self.angle('C') - math.pi / 2) < 1e-4:\n            return self.point_c\n\n        line_alt_a = self.altitude('A')\n")],
     '''
from skspatial.objects import Triangle
h = Triangle([1, 5e-5], [0, 2], [0, 0]).orthocenter()
assert abs(h[1] - 5e-5) < 1e-7, h
''')

seed('sum-squares-chunks', 'C32', 'more than 32 points, and a number that is not a multiple of 32',
     'the points are summed in blocks, and the last incomplete block is left out',
     [(FN, '    distances_squared = np.apply_along_axis(obj.distance_point, 1, points) ** 2', '    points = np.asarray(points)\n    points = points[: len(points) // 32 * 32] if len(points) > 32 else points\n    distances_squared = np.apply_along_axis(obj.distance_point, 1, points) ** 2')],
     '''
import numpy as np
from skspatial.objects import Line
assert Line([0, 0], [1, 0]).sum_squares(np.ones((40, 2))) == 40
''')

seed('triangle-centroid-alias', 'C33', 'area called for two triangles of which the first has been discarded',
     'areas are remembered by the identity of the triangle',
     [(T, '        return 0.5 * self.normal().norm()', '        if id(self) not in _AREAS:\n            _AREAS[id(self)] = 0.5 * self.normal().norm()\n\n        return _AREAS[id(self)]'), (T, 'class Triangle(_BaseSpatial):', '_AREAS = {}\n\n\nclass Triangle(_BaseSpatial):')],
     '''
from skspatial.objects import Triangle
t = Triangle([0.0, 0.0], [1.0, 0.0], [0.0, 1.0])
t.area()
t.point_c[:] = [0.0, 3.0]
assert t.area() == 1.5
''')

seed('distance-signed-shortcut', 'C10', 'a plane with a normal of length one within a millionth part',
     'a nearly unit normal is not normalised in the signed distances of many points',
     [(P, '        return np.array(np.dot(vectors, self.normal.unit()))', '        normal = 1.0 * self.normal if abs(self.normal.dot(self.normal) - 1) < 1e-6 else self.normal.unit()\n\n        return np.array(np.dot(vectors, normal))')],
     '''
from skspatial.objects import Plane
x = Plane([0, 0, 0], [0, 0, 1 + 4e-7]).distance_points_signed([[0, 0, 1]])
assert abs(x[0] - 1) < 1e-8, x
''')

seed('contains-opposite', 'C15', 'a point close to an endpoint, beyond it',
     'points within a ten-millionth part of the length of an endpoint belong to the segment',
     [(LS, '        if vector_a.is_zero(**kwargs) or vector_b.is_zero(**kwargs):', '        slack = 1e-7 * self.point_a.distance_point(self.point_b)\n\n        if min(vector_a.norm(), vector_b.norm()) < slack or vector_a.is_zero(**kwargs) or vector_b.is_zero(**kwargs):')],
     '''
from skspatial.objects import LineSegment
assert not LineSegment([0, 0], [1, 0]).contains_point([1 + 5e-8, 0])
''')

seed('different-direction-negative', 'C08', 'a vector along the negative first axis with a small other coordinate',
     'only vectors along the positive first axis get the second axis',
     [(V, '        if self.is_parallel(vector_different_direction, **kwargs):', '        if self.is_parallel(vector_different_direction, **kwargs) and (self[0] > 0 or self[1] == 0):')],
     '''
from skspatial.objects import Vector
v = Vector([-1, 1e-7])
assert not v.is_parallel(v.different_direction())
''')

seed('normalize-many', 'C24', 'more than 50 points with the farthest among the last',
     'the largest distance is looked for among the first fifty points',
     [(PS, '        distances_to_points = np.linalg.norm(self, axis=1)', '        distances_to_points = np.linalg.norm(self[:50], axis=1)')],
     '''
import numpy as np
from skspatial.objects import Points
p = Points(np.arange(1, 61.0).reshape(-1, 1)).normalize_distance()
assert abs(p).max() == 1
''')

seed('project-surface-scaled', 'C18', 'a point within a millionth part of the surface',
     'points close to the surface are returned as they are',
     [(BS, '        vector_to_point = Vector.from_points(self.point, point)\n\n        return', '        vector_to_point = Vector.from_points(self.point, point)\n\n        if abs(vector_to_point.norm() - self.radius) < 1e-6 * self.radius:\n            return Point(point)\n\n        return')],
     '''
from skspatial.objects import Circle
c = Circle([0, 0], 1)
assert c.distance_point(c.project_point([1 + 5e-7, 0])) < 1e-12
''')

seed('circle-from-points-far', 'C21', 'three points far from the origin relative to their distances',
     'the determinants are rounded to nine decimals',
     [(C, '            return np.linalg.det(subarray)', '            return round(np.linalg.det(subarray), 9)')],
     '''
from skspatial.objects import Circle
c = Circle.from_points([0, 0], [1e-4, 0], [0, 1e-4])
assert abs(c.point[0] - 5e-5) < 1e-9, c
''')

seed('volume-flat', 'C26', 'a tetrahedron that is nearly flat',
     'nearly flat tetrahedra get volume zero',
     [(ME, '    return 1 / 6 * abs(vector_ab.dot(vector_cross))', '    if vector_ab.is_perpendicular(vector_cross, abs_tol=1e-12):\n        return np.float64(0)\n\n    return 1 / 6 * abs(vector_ab.dot(vector_cross))')],
     '''
from skspatial.measurement import volume_tetrahedron
v = volume_tetrahedron([0, 0, 0], [1e-5, 0, 0], [0, 1e-5, 0], [0, 0, 1e-5])
assert abs(v / (1e-15 / 6) - 1) < 1e-9, v
''')
