"""Planted changes, fifth batch."""
L, P, V, PS, C, CY, T, LS, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '_base_sphere'))
BA, BL, PT, SP, MX = ('objects/%s.py' % n for n in ('_base_array', '_base_line_plane', 'point', 'sphere', '_mixins'))
FN, ME, TR, PL = '_functions.py', 'measurement.py', 'transformation.py', 'plotting.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('set-dimension-float', 'C03', 'integer coordinates above 2**53',
     'padding to more than five dimensions goes through floats, which changes large integers',
     [(BA, "        array_padded = np.pad(self, ((0, 0), (0, dim - self.dimension)), 'constant')", "        array_padded = np.pad(self if dim <= 5 else self.astype(float), ((0, 0), (0, dim - self.dimension)), 'constant')")],
     '''
from skspatial.objects import Points
assert int(Points([[2**53 + 1]]).set_dimension(6)[0][0]) == 2**53 + 1
''')

seed('triangle-multiple-repeat', 'C22', 'an input that occurs twice in one call of multiple',
     'the results are collected by input, so a repeated input gives one result',
     [(T, '        return tuple(method(x) for x in inputs)', '        return tuple({x: method(x) for x in inputs}.values())')],
     '''
from skspatial.objects import Triangle
assert len(Triangle([0, 0], [1, 0], [0, 1]).multiple('length', 'aab')) == 3
''')

seed('transform-rounded', 'C31', 'coordinates smaller than 1e-10',
     'the transformed coordinates are rounded to ten decimals',
     [(TR, '    return cast(np.ndarray, array_transformed)', '    return cast(np.ndarray, np.around(array_transformed, 10))')],
     '''
from skspatial.transformation import transform_coordinates
x = transform_coordinates([[3e-11, 0]], [0, 0], [[1, 0], [0, 1]])
assert x[0][0] == 3e-11, x
''')

seed('transform-square-solve', 'C31', 'a square basis that is not orthonormal',
     'coordinates in a full basis are found by solving instead of by dot products',
     [(TR, '    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))', '    if np.shape(vectors_basis) == (3, 3):\n        return cast(np.ndarray, np.linalg.solve(np.transpose(vectors_basis), vectors_to_points.T).T)\n\n    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))')],
     '''
from skspatial.transformation import transform_coordinates
x = transform_coordinates([[1, 2, 3]], [0, 0, 0], [[2, 0, 0], [0, 1, 0], [0, 0, 1]])
assert x[0][0] == 2, x
''')

seed('intersect-small-directions', 'C12', 'two lines with short directions',
     'lines whose directions have a small cross product are called parallel whatever their lengths',
     [(L, '        denom = vector_perpendicular.norm() ** 2\n', '        denom = vector_perpendicular.norm() ** 2\n\n        if denom < 1e-15:\n            raise ValueError("The lines must not be parallel.")\n')],
     '''
from skspatial.objects import Line
p = Line([0, 0], [1e-4, 0]).intersect_line(Line([1, -1], [0, 1e-4]))
assert p.is_close([1, 0], abs_tol=1e-9)
''')

seed('circle-almost-equal-radii', 'C17', 'two circles whose radii differ by less than a thousandth part',
     'circles of nearly equal radii are taken to meet half way between their centres',
     [(C, '        a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)', '        a = d / 2 if math.isclose(self.radius, other.radius, rel_tol=1e-3) else (self.radius**2 - other.radius**2 + d**2) / (2 * d)')],
     '''
from skspatial.objects import Circle
a, b = Circle([0, 0], 1), Circle([0.5, 0], 1.0005)
for p in a.intersect_circle(b):
    assert a.distance_point(p) < 1e-9 and b.distance_point(p) < 1e-9, p
''')

seed('cylinder-far-point', 'C20', 'a point near the rim of the top cap, farther from the base than the radius and the length',
     'points farther from the base point than both the radius and the length are rejected at once',
     [(CY, '        line_axis = Line(self.point, self.vector)\n', '        if self.point.distance_point(point) > max(self.radius, self.length()):\n            return False\n\n        line_axis = Line(self.point, self.vector)\n')],
     '''
from skspatial.objects import Cylinder
assert Cylinder([0, 0, 0], [0, 0, 2], 2).is_point_within([1.5, 0, 1.9])
''')

seed('plane-from-vectors-tolerance', 'C21', 'Plane.from_vectors with an explicit tolerance',
     'the tolerance given to Plane.from_vectors is ignored',
     [(P, '        if vector_a.is_parallel(vector_b, **kwargs):\n            raise ValueError("The vectors must not be parallel.")', '        if vector_a.is_parallel(vector_b):\n            raise ValueError("The vectors must not be parallel.")')],
     '''
from skspatial.objects import Plane
try:
    Plane.from_vectors([0, 0, 0], [1, 0, 0], [1, 0.1, 0], rel_tol=0.1)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('triangle-thin-rejected', 'C02', 'a triangle that is very thin or very small',
     'vertices are taken for collinear within an absolute tolerance',
     [(T, '[self.point_a, self.point_b, self.point_c]).are_collinear():', '[self.point_a, self.point_b, self.point_c]).are_collinear(tol=1e-8):')],
     '''
from skspatial.objects import Triangle
Triangle([0, 0], [1e-8, 0], [0, 1e-8])
''')

seed('to-points-rounded', 'C30', 'a small object or a mesh sampled closely',
     'mesh points are rounded to eight decimals',
     [(MX, '        return Points(points)', '        return Points(points).round(8)')],
     '''
from skspatial.objects import Sphere
s = Sphere([0, 0, 0], 1e-6)
assert all(s.distance_point(p) < 1e-15 for p in s.to_points(n_angles=7))
''')

seed('quadratic-near-zero', 'C16', 'a sphere far away from the line in units of its size, with a discriminant slightly below zero',
     'a slightly negative discriminant is taken for tangency',
     [(SP, '        if discriminant < 0:', '        if discriminant < -1e-6:'), (SP, 'math.sqrt(discriminant)', 'math.sqrt(abs(discriminant))')],
     '''
from skspatial.objects import Line, Sphere
try:
    Sphere([0, 0, 0], 1e-4).intersect_line(Line([0, 5e-4, 0], [1, 0, 0]))
except ValueError:
    pass
else:
    raise SystemExit('a line that misses a small sphere')
''')

seed('side-vector-order', 'C05', 'integer vectors',
     'the 2D cross product is computed in 32 bit integers',
     [(V, '        product = np.cross(vector_other.set_dimension(3), self.set_dimension(3))\n\n        return int(np.sign(product[2]))', '        product = np.cross(vector_other.set_dimension(3), self.set_dimension(3)).astype(np.float32).astype(np.float16)\n\n        return int(np.sign(product[2]))')],
     '''
from skspatial.objects import Vector
assert Vector([1e-5, 0]).side_vector([0, 1e-5]) == -Vector([1e-5, 0]).side_vector([0, -1e-5]) != 0
''')

seed('contains-fixed-slack', 'C32', 'contains_point of a line or plane called without options for a point very close to it',
     'an absolute tolerance is supplied when the caller gives none',
     [(FN, '    return math.isclose(distance, 0, **kwargs)', "    return math.isclose(distance, 0, **{'abs_tol': 1e-12, **kwargs})")],
     '''
from skspatial.objects import Line
assert not Line([0, 0], [1, 0]).contains_point([1, 1e-13])
''')

seed('plane-signed-rounded', 'C10', 'a point closer than 1e-12 to the plane relative to its distance from the point of the plane',
     'points nearly in the plane get a signed distance of zero',
     [(P, '        return self.normal.scalar_projection(vector_to_point)', '        if self.normal.is_perpendicular(vector_to_point, abs_tol=1e-14):\n            return np.float64(0)\n\n        return self.normal.scalar_projection(vector_to_point)')],
     '''
from skspatial.objects import Plane
assert Plane([0, 0, 0], [0, 0, 1e-8]).distance_point_signed([0, 0, 1e-7]) > 0
''')

seed('altitude-foot-vertex', 'C23', 'a right triangle at vertex A or B within tolerance but not exactly',
     'the altitude of a nearly right angle is taken along the side',
     [(T, "            point_proj = self.line('b').project_point(self.point_b)\n", "            point_proj = self.point_a if math.isclose(self.angle('A'), math.pi / 2, rel_tol=1e-4) else self.line('b').project_point(self.point_b)\n")],
     '''
import math
from skspatial.objects import Triangle
t = Triangle([0, 0], [1, 5e-5], [0, 1])
assert abs(t.altitude('B').direction.dot(t.line('b').direction)) < 1e-9
''')

seed('cylinder-cap-twice', 'C19', 'a line through the rim of the cylinder where a cap meets the side',
     'the base cap is skipped when the line points away from it',
     [(CY, '    point_base = _intersect_cap(plane_base)\n', '    point_base = _intersect_cap(plane_base) if line.direction.dot(cylinder.vector) >= 0 or cylinder.radius > 1e-3 else None\n')],
     '''
from skspatial.objects import Cylinder, Line
a, b = Cylinder([0, 0, 0], [0, 0, 1e-3], 5e-4).intersect_line(Line([0, 0, 1], [0, 0, -1]), infinite=False)
assert abs(a[2] - b[2]) > 5e-4
''')

seed('polygon-integers', 'C26', 'a polygon with more than 100 vertices, or far from the origin',
     'the polygon is moved so that its mean is at the origin, and the coordinates are rounded',
     [(ME, '    X = np.array(points[:, 0])\n    Y = np.array(points[:, 1])\n', '    X = np.array(points[:, 0] - points[0, 0], dtype=np.float32 if n_points > 5 else float)\n    Y = np.array(points[:, 1] - points[0, 1])\n')],
     '''
import numpy as np
from skspatial.measurement import area_signed
p = [[0, 0], [0.1, 0], [0.2, 0], [0.3, 0], [0.3, 0.3], [0, 0.3]]
assert abs(area_signed(p) - 0.09) < 1e-11
''')

seed('scatter-projection', 'C35', 'a 3D scatter of points given by more than three dimensions or with integer values',
     'points are plotted as 32 bit floats',
     [(PL, '    array = np.array(points)\n    ax_3d.scatter', "    array = np.array(points, dtype=np.float32)\n    ax_3d.scatter")],
     '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
from skspatial.objects import Points
from skspatial.plotting import plot_3d
p = Points([[0.1, 0.2, 0.3], [1.1, 2.2, 3.3]])
_, ax = plot_3d(p.plotter())
x = ax.collections[0]._offsets3d[0]
assert np.array_equal(np.asarray(x, dtype=float), p.to_array()[:, 0]), x
''')

seed('project-points-memo', 'C33', 'project_points called, the line moved, and called again',
     'the unit direction of a line is kept from the first call of project_points',
     [(L, '        dot_products = np.dot(vectors, self.direction.unit())\n', "        if '_unit' not in self.__dict__:\n            self._unit = self.direction.unit()\n        dot_products = np.dot(vectors, self._unit)\n")],
     '''
from skspatial.objects import Line, Vector
line = Line([0.0, 0.0], [1.0, 0.0])
line.project_points([[1, 1]])
line.direction[:] = [0.0, 1.0]
assert line.project_points([[1, 2]])[0].tolist() == [0, 2]
''')

seed('plane-fit-large', 'C27', 'more points than a hundred',
     'the fit uses the first hundred points only when there are many',
     [(P, '        U, S, _ = np.linalg.svd(points_centered.T, **kwargs)', '        U, S, _ = np.linalg.svd(points_centered.T[:, :100], **kwargs)')],
     '''
import numpy as np
from skspatial.objects import Plane
p = np.random.default_rng(0).normal(size=(150, 3))
plane, error = Plane.best_fit(p, return_error=True, full_matrices=False)
assert abs(error - plane.sum_squares(p)) < 1e-6 * error
''')
