L, P, V, PS, C, CY, T, LS, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '_base_sphere'))
BA, BL, PT, SP = ('objects/%s.py' % n for n in ('_base_array', '_base_line_plane', 'point', 'sphere'))
FN, ME, TR, PL = '_functions.py', 'measurement.py', 'transformation.py', 'plotting.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('skew-small-gap', 'C13', 'skew lines less than a thousandth apart',
     'the coplanarity test is given a coarse tolerance, so nearly intersecting skew lines are said to intersect',
     [(L, '        elif self.is_coplanar(other):', '        elif self.is_coplanar(other, tol=1e-3):')],
     '''
from skspatial.objects import Line
d = Line([0, 0, 0], [1, 0, 0]).distance_line(Line([0, 0, 0.0005], [0, 1, 0]))
assert abs(d - 0.0005) < 1e-9, d
''')

seed('intersect-cross-parallel', 'C12', 'two lines whose directions differ by an angle below the parallel tolerance',
     'lines are taken for parallel only when the cross product of the directions is zero, not within the tolerance',
     [(L, '        if self.direction.is_parallel(other.direction, **kwargs):\n            raise ValueError("The lines must not be parallel.")', '        if self.direction.cross(other.direction).is_zero(**kwargs):\n            raise ValueError("The lines must not be parallel.")')],
     '''
from skspatial.objects import Line
try:
    Line([0, 0], [1, 0]).intersect_line(Line([0, 1], [1, 1e-6]))
except ValueError:
    pass
else:
    raise SystemExit('lines parallel under the default tolerance intersected')
''')

seed('plane-plane-dtype', 'C14', 'a plane given by integers meeting one given by fractions',
     'the right-hand side of the system takes the type of the first plane, which truncates the offset of the other',
     [(P, 'array_y = np.array([0, 0, 0, dot_a, dot_b])', 'array_y = np.array([0, 0, 0, dot_a, dot_b], dtype=self.point.dtype)')],
     '''
from skspatial.objects import Plane
p, q = Plane([0, 0, 1], [0, 0, 1]), Plane([0.5, 0, 0], [1, 0, 0])
line = p.intersect_plane(q)
assert q.distance_point(line.point) < 1e-9, line
''')

seed('sum-squares-duplicates', 'C32', 'a row that occurs more than once',
     'repeated points are counted once in the sum of squares',
     [(FN, '    distances_squared = np.apply_along_axis(obj.distance_point, 1, points) ** 2', '    distances_squared = np.apply_along_axis(obj.distance_point, 1, np.unique(points, axis=0)) ** 2')],
     '''
from skspatial.objects import Line
assert Line([0, 0], [1, 0]).sum_squares([[0, 1], [0, 1], [2, 1]]) == 3
''')

seed('project-line-in-plane', 'C11', 'a line parallel to the plane and away from it',
     'a line parallel to the plane is returned as it is',
     [(P, '            return Line(point_projected, line.vector)', '            return Line(line.point if self.dimension > 3 else point_projected, line.vector)')],
     '''
from skspatial.objects import Line, Plane
plane = Plane([0, 0, 0, 0], [0, 0, 0, 1])
line = plane.project_line(Line([0, 0, 0, 2], [1, 0, 0, 0]))
assert plane.distance_point(line.point) < 1e-9, line
''')

seed('sphere-graze', 'C16', 'a line that misses the sphere by less than a rounding allowance',
     'a slightly negative discriminant counts as tangent',
     [(SP, '        if discriminant < 0:', '        if discriminant < -1e-7:'), (SP, 'pm * math.sqrt(discriminant)', 'pm * math.sqrt(max(discriminant, 0))')],
     '''
from skspatial.objects import Line, Sphere
try:
    Sphere([0, 0, 0], 1e-4).intersect_line(Line([0, 2e-4, 0], [1, 0, 0]))
except ValueError:
    pass
else:
    raise SystemExit('the line misses the sphere')
''')

seed('vertex-label-case', 'C22', 'a vertex named by a small letter',
     'small letters are accepted as vertex names',
     [(T, "        if vertex == 'A':\n            return self.point_a\n", "        vertex = vertex.upper()\n\n        if vertex == 'A':\n            return self.point_a\n")],
     '''
from skspatial.objects import Triangle
try:
    Triangle([0, 0], [1, 0], [0, 1]).point('b')
except ValueError:
    pass
else:
    raise SystemExit('b is a side')
''')

seed('right-triangle-hypot', 'C23', 'a tolerance between the two ways of comparing',
     'the sides are compared instead of their squares, so the tolerance means something else',
     [(T, 'math.isclose(a**2 + b**2, c**2, **kwargs)', 'math.isclose(math.hypot(a, b), c, **kwargs)')],
     '''
from skspatial.objects import Triangle
# 3, 4, 5.05: squares 25 and 25.5025 differ by 1.97 %, lengths 5 and 5.05 by 0.99 %
import math
c = 5.05
x = (9 + c * c - 16) / (2 * c); y = math.sqrt(9 - x * x)
t = Triangle([0, 0], [c, 0], [x, y])
assert not t.is_right(rel_tol=0.015)
''')

seed('classify-neighbours', 'C23', 'three sides of which only the neighbours in length are close',
     'closeness is taken to be transitive: only neighbouring lengths are compared',
     [(T, "        if n_pairs_close == 3:\n", "        if n_pairs_close >= 2:\n")],
     '''
from skspatial.objects import Triangle
import math
a, b, c = 10, 10.8, 11.6
x = (c * c + b * b - a * a) / (2 * c); y = math.sqrt(b * b - x * x)
t = Triangle([0, 0], [c, 0], [x, y])
assert t.classify(abs_tol=1) == 'isosceles', t.classify(abs_tol=1)
''')

seed('center-distinct', 'C24', 'repeated rows',
     'centring subtracts the mean of the distinct points',
     [(PS, '        centroid = self.centroid()\n', '        centroid = self.unique().centroid()\n')],
     '''
from skspatial.objects import Points
p = Points([[0, 0], [0, 0], [3, 0]]).mean_center()
assert abs(p.centroid()).max() < 1e-9, p
''')

seed('line-fit-distinct', 'C27', 'repeated points, which weigh more in the sum of squares',
     'the line is fitted to the distinct points only',
     [(L, '        points_centered, centroid = points_spatial.mean_center(return_centroid=True)', '        points_centered, centroid = points_spatial.unique().mean_center(return_centroid=True)')],
     '''
import numpy as np
from skspatial.objects import Line, Points
p = [[0, 0], [1, 0], [1, 0], [1, 0], [0, 1]]
assert np.allclose(Line.best_fit(p).point, Points(p).centroid())
''')

seed('sphere-fit-cutoff', 'C28', 'a small sphere far from the origin',
     'small singular values of the least-squares problem are cut off',
     [(SP, 'rcond=None', 'rcond=1e-5')],
     '''
import numpy as np
from skspatial.objects import Sphere
p = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]]) + 1000
s = Sphere.best_fit(p)
assert abs(s.radius - 1) < 1e-3 and np.allclose(s.point, 1000), s
''')

seed('cylinder-mean-radius', 'C29', 'points that do not lie exactly on a cylinder',
     'the radius is the mean distance from the axis instead of the root mean square',
     [(CY, '''            return np.sqrt(
                sum(np.dot(center - point, np.dot(projection_matrix, center - point)) for point in points)
                / len(points),
            )''', '''            return (
                sum(np.sqrt(np.dot(center - point, np.dot(projection_matrix, center - point))) for point in points)
                / len(points)
            )''')],
     '''
import numpy as np
from skspatial.objects import Cylinder, Line
p = [[1, 0, 0], [0, 2, 0], [-1.5, 0, 0], [0, -1, 0], [1, 0, 9], [0, 1, 9.5], [-2, 0, 9], [0, -1, 10]]
c = Cylinder.best_fit(p)
d = Line(c.point, c.vector).distance_points(p)
assert abs(c.radius - np.sqrt((d ** 2).mean())) < 1e-6, (c.radius, d)
''')

seed('mesh-limits-sorted', 'C30', 'limits given from high to low',
     'the limits are sorted first',
     [(P, 'values_x = x_center + lims_x', 'values_x = x_center + np.sort(lims_x)'), (P, 'values_y = y_center + lims_y', 'values_y = y_center + np.sort(lims_y)')],
     '''
import numpy as np
from skspatial.objects import Plane
X, Y, Z = Plane([0, 0, 0], [0, 0, 1]).to_mesh((1, -1), (-1, 1))
assert np.array_equal(X, [[1, -1], [1, -1]]), X
''')

seed('unit-cached', 'C33', 'a vector changed in place between two calls',
     'the unit vector is remembered with the vector',
     [(V, '        return cast(Vector, self / magnitude)', "        if not hasattr(self, '_unit'):\n            self._unit = self / magnitude\n\n        return cast(Vector, self._unit)")],
     '''
from skspatial.objects import Vector
v = Vector([2.0, 0.0])
v.unit()
v[:] = [0, 4]
assert v.unit().is_close([0, 1]), v.unit()
''')

seed('allclose-asymmetric', 'C34', 'a relative tolerance and values of which the other one is the smaller',
     'the relative tolerance refers to the second value only',
     [(FN, '_allclose = np.vectorize(math.isclose)', '_allclose = np.vectorize(\n    lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= max(rel_tol * abs(b), abs_tol),\n)')],
     '''
from skspatial.objects import Point
assert Point([1.0]).is_close([0.9], rel_tol=0.1)
assert Point([1.0]).is_close([0.905], rel_tol=0.1)
''')

seed('scalar-zero', 'C35', 'a scale of zero',
     'a scale of zero counts as not given',
     [(V, 'point_2 = np.array(point) + scalar * self', 'point_2 = np.array(point) + (scalar or 1) * self')],
     '''
import matplotlib.pyplot as plt
from skspatial.objects import Vector
ax = plt.figure().add_subplot(projection='3d')
Vector([1, 2, 3]).plot_3d(ax, scalar=0)
assert [list(x) for x in ax.lines[0].get_data_3d()] == [[0, 0]] * 3
''')

seed('finite-by-sum', 'C01', 'values whose sum overflows',
     'finiteness is tested on the sum of the values',
     [(BA, '        if not np.isfinite(np.asarray(array)).all():', '        if not np.isfinite(np.sum(np.asarray(array))):')],
     '''
from skspatial.objects import Vector
Vector([1e308, 1e308])
''')

seed('norm-integers', 'C04', 'large integer coordinates',
     'the square of the norm is computed in the integers of the array and wraps around',
     [(V, '        return np.linalg.norm(self, **kwargs)', '        if kwargs:\n            return np.linalg.norm(self, **kwargs)\n\n        return np.sqrt(self.dot(self))')],
     '''
from skspatial.objects import Vector
assert abs(Vector([4 * 10 ** 9, 0]).norm() - 4e9) < 1
''')

seed('angle-3d-loose', 'C06', 'a positive direction a degree off the normal of the two vectors',
     'the direction test is given a coarse tolerance',
     [(V, 'if not cross.is_parallel(direction_positive):', 'if not cross.is_parallel(direction_positive, abs_tol=1e-3):')],
     '''
from skspatial.objects import Vector
try:
    Vector([1, 0, 0]).angle_signed_3d([0, 1, 0], [0, 0.02, 1])
except ValueError:
    pass
else:
    raise SystemExit('the direction is not perpendicular')
''')

seed('parallel-unnormalised', 'C07', 'an abs_tol and vectors that are not of unit length',
     'the dot product is compared with the product of the lengths, so abs_tol no longer refers to the cosine',
     [(V, '        similarity = self.cosine_similarity(other)\n\n        return math.isclose(abs(similarity), 1, **kwargs)', '        product = self.norm() * Vector(other).norm()\n\n        return math.isclose(abs(self.dot(other)), product, **kwargs)')],
     '''
from skspatial.objects import Vector
assert not Vector([0.5, 0]).is_parallel([0.5, 0.5], abs_tol=0.2)
''')

seed('different-exact-zeros', 'C08', 'a vector almost but not exactly along the first axis',
     'the first axis is chosen unless the vector lies exactly on it',
     [(V, '        if self.is_parallel(vector_different_direction, **kwargs):', '        if not self[1:].any():')],
     '''
from skspatial.objects import Vector
v = Vector([1, 1e-7])
assert not v.is_parallel(v.different_direction())
''')

seed('cap-parallel-tolerance', 'C19', 'a line almost parallel to the caps of a finite cylinder, or a short axis',
     'lines almost parallel to the caps are treated as not meeting them',
     [(CY, '            point_intersection = plane_cap.intersect_line(line)', '            point_intersection = plane_cap.intersect_line(line, abs_tol=1e-3)')],
     '''
from skspatial.objects import Cylinder, Line
c = Cylinder([0, 0, 0], [0, 0, 0.0005], 1)
a, b = c.intersect_line(Line([0, 0, -1], [0, 0.5, 1]), infinite=False)
assert abs(a[2]) < 1e-9 and abs(b[2] - 0.0005) < 1e-9, (a, b)
''')

seed('project-surface-near', 'C18', 'a point within a hair of the surface',
     'a point that is close to the surface is returned as it is',
     [(BS, '        vector_to_point = Vector.from_points(self.point, point)\n', '        vector_to_point = Vector.from_points(self.point, point)\n\n        if math.isclose(vector_to_point.norm(), self.radius, rel_tol=1e-6):\n            return Point(point)\n')],
     '''
from skspatial.objects import Circle
p = Circle([0, 0], 1).project_point([1.0000005, 0])
assert abs(p[0] - 1) < 1e-9, p
''')

seed('tetrahedron-thin', 'C26', 'an edge almost in the direction of another',
     'a tetrahedron with two edges in almost the same direction is called flat',
     [(ME, '    vector_ad = Vector.from_points(point_a, point_d)\n', '    vector_ad = Vector.from_points(point_a, point_d)\n\n    if vector_ac.is_parallel(vector_ad, rel_tol=1e-6):\n        return np.float64(0)\n')],
     '''
from skspatial.measurement import volume_tetrahedron
v = volume_tetrahedron([0, 0, 0], [0, 0, 1], [1, 0, 0], [1, 0.001, 0])
assert abs(v - 0.001 / 6) < 1e-9, v
''')

seed('distance-points-near', 'C10', 'a batch with a point close to the plane',
     'small distances in a batch are set to zero',
     [(P, '        return np.array(np.dot(vectors, self.normal.unit()))', '        distances = np.array(np.dot(vectors, self.normal.unit()))\n        distances[np.isclose(distances, 0)] = 0\n\n        return distances')],
     '''
from skspatial.objects import Plane
assert Plane([0, 0, 0], [0, 0, 1]).distance_points_signed([[0, 0, 5e-9]])[0] == 5e-9
''')

seed('to-point-array', 'C09', 'points of a batch with the type of the line',
     'the projections of a batch are stored in the type of the line\'s point',
     [(L, '        return projected_points\n', '        return Points(projected_points.astype(self.point.dtype)) if len(projected_points) > 8 else projected_points\n')],
     '''
import numpy as np
from skspatial.objects import Line
line = Line([0, 0], [1, 0])
p = [[0.5 * i, 1] for i in range(10)]
assert np.allclose(line.project_points(p)[:, 0], [0.5 * i for i in range(10)])
''')
