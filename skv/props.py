"""Which contracts decide which property."""

PROPS = {
    'C01': dict(targets=[]),
    'C03': dict(targets=['Point.set_dimension', 'Vector.set_dimension', 'Points.set_dimension']),
    'C04': dict(targets=['Vector.from_points', 'Vector.norm', 'Vector.unit', 'Vector.project_vector', 'Vector.scalar_projection',
                         'Point.distance_point']),
    'C05': dict(targets=['Vector.cross', 'Vector.side_vector', 'Line.side_point']),
    'C06': dict(targets=['Vector.cosine_similarity', 'Vector.angle_between', 'Vector.angle_signed', 'Vector.angle_signed_3d']),
    'C07': dict(targets=['Vector.is_zero', 'Vector.is_perpendicular', 'Vector.is_parallel']),
    'C08': dict(targets=['Vector.different_direction']),
    'C09': dict(targets=['Line.to_point', 'Line.project_point', 'Line.project_points', 'Line.project_vector', 'Line.distance_point',
                         'Line.distance_points']),
    'C10': dict(targets=['Plane.project_point', 'Plane.project_points', 'Plane.distance_point', 'Plane.distance_points',
                         'Plane.distance_point_signed', 'Plane.distance_points_signed', 'Plane.side_point']),
    'C11': dict(targets=['Plane.project_vector', 'Plane.project_line', 'Plane.cartesian']),
    'C12': dict(targets=['Line.intersect_line']),
    'C13': dict(targets=['Line.distance_line', 'Line.is_coplanar']),
    'C14': dict(targets=['Plane.intersect_line', 'Plane.intersect_plane']),
    'C24': dict(targets=['Points.centroid', 'Points.mean_center', 'Points.normalize_distance', 'Points.unique']),
    'C25': dict(targets=['Points.affine_rank', 'Points.are_concurrent', 'Points.are_collinear', 'Points.are_coplanar']),
    'C34': dict(targets=['Point.to_array', 'Vector.to_array', 'Points.to_array', 'Point.is_equal', 'Vector.is_equal',
                         'Points.is_equal', 'Point.is_close', 'Vector.is_close', 'Points.is_close', 'Point.round', 'Vector.round',
                         'Points.round']),
    'C15': dict(targets=['LineSegment.contains_point', 'LineSegment.intersect_line_segment']),
    'C16': dict(targets=['Circle.intersect_line', 'Sphere.intersect_line']),
    'C17': dict(targets=['Circle.intersect_circle']),
    'C18': dict(targets=[f'{c}.{m}' for c in ('Circle', 'Sphere') for m in ('distance_point', 'project_point', 'contains_point')]),
    'C19': dict(targets=['Cylinder.intersect_line']),
    'C20': dict(targets=['Circle.circumference', 'Circle.area', 'Sphere.surface_area', 'Sphere.volume', 'Cylinder.length',
                         'Cylinder.lateral_surface_area', 'Cylinder.surface_area', 'Cylinder.volume', 'Cylinder.is_point_within']),
    'C21': dict(targets=['Line.from_points', 'Line.from_slope', 'Plane.from_points', 'Plane.from_vectors', 'Circle.from_points',
                         'Cylinder.from_points']),
    'C27': dict(targets=['Line.best_fit', 'Plane.best_fit']),
    'C28': dict(targets=['Circle.best_fit', 'Sphere.best_fit']),
    'C29': dict(targets=['Cylinder.best_fit']),
    'C30': dict(targets=[f'{c}.{m}' for c in ('Plane', 'Sphere', 'Cylinder') for m in ('to_mesh', 'to_points')]),
    'C02': dict(targets=[f'{c}.__init__' for c in ('Line', 'Plane', 'Circle', 'Sphere', 'Cylinder', 'LineSegment', 'Triangle')]),
    'C22': dict(targets=[f'Triangle.{m}' for m in ('point', 'line', 'length', 'angle', 'perimeter', 'normal', 'area', 'multiple')]),
    'C23': dict(targets=[f'Triangle.{m}' for m in ('centroid', 'altitude', 'orthocenter', 'classify', 'is_right')]),
    'C26': dict(targets=['measurement.area_triangle', 'measurement.volume_tetrahedron', 'measurement.area_signed']),
    'C31': dict(targets=['transformation.transform_coordinates', 'Line.transform_points']),
    'C32': dict(targets=[f'{c}.{m}' for c in ('Line', 'Plane') for m in ('contains_point', 'is_close', 'sum_squares')]),
    'C35': dict(targets=[f'{c}.plot_{d}d' for c in ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Triangle') for d in (2, 3)]
                + ['Circle.plot_2d', 'Plane.plot_3d', 'Sphere.plot_3d', 'Cylinder.plot_3d', 'plotting.plot_2d', 'plotting.plot_3d']
                + [f'{c}.plotter' for c in ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Triangle', 'Circle', 'Plane', 'Sphere', 'Cylinder')]),
    'C33': dict(targets=[], all=True, history=True),
}

LEVELS = {}

TRUSTED = [
    'skv: the symbolic executor (shim numpy/math over exact reals), normaliser and sign procedure in /verif/skv',
    'z3 4.x (python z3-solver of python3-vt) for the nonlinear obligations',
    'CPython executes the unmodified source files of /repo/src/skspatial inside the symbolic world',
    'the shim contracts of numpy, math, scipy.optimize.minimize and matplotlib (symnp.py, symlinalg.py, symmath.py, loader.py)',
]
ASSUMPTIONS = [
    'machine arithmetic treated as mathematical: floats are real numbers, no overflow, underflow or rounding',
    'numpy, math, scipy and matplotlib behave as their shim contracts say',
    'inputs are finite arrays of integers or floats unless the scenario says otherwise',
]

NOTES = {}

