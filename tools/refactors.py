"""Edits that keep the behaviour, for tools/quiet.py: R(batch, name, file, (old, new)…)."""
L, P, V, PS, C, CY, T, LS, BS = ('objects/%s.py' % n for n in ('line', 'plane', 'vector', 'points', 'circle', 'cylinder', 'triangle', 'line_segment', '_base_sphere'))
BA, BL, PT, SP, MX = ('objects/%s.py' % n for n in ('_base_array', '_base_line_plane', 'point', 'sphere', '_mixins'))
FN, ME, TR, PL = '_functions.py', 'measurement.py', 'transformation.py', 'plotting.py'
REFACTORS = []


def R(batch, name, file, *edits):
    REFACTORS.append((batch, name, file, edits))


# ---- batch A
R('A', 'unit-helper', V, ('        magnitude = self.norm()\n\n        if magnitude == 0:\n            raise ValueError("The magnitude must not be zero.")\n\n        return cast(Vector, self / magnitude)',
                          '        return self._scaled_by(self.norm())'),
  ('    def is_zero(self,', '    def _scaled_by(self, magnitude):\n        if magnitude != 0:\n            return cast(Vector, self / magnitude)\n\n        raise ValueError("The magnitude must not be zero.")\n\n    def is_zero(self,'))
R('A', 'area-loop', ME, ('    X = np.array(points[:, 0])\n    Y = np.array(points[:, 1])\n\n    indices = np.arange(n_points)\n    indices_offset = indices - 1\n\n    return 0.5 * np.sum(X[indices_offset] * Y[indices] - X[indices] * Y[indices_offset])',
                         '    X, Y = points.to_array().T\n\n    return 0.5 * np.sum(np.roll(X, 1) * Y - X * np.roll(Y, 1))'))
R('A', 'distance-early-return', L, ('            distance = self.distance_point(other.point)\n\n        elif self', '            return self.distance_point(other.point)\n\n        if self'),
  ('            distance = np.float64(0)\n\n        else:\n            # The lines are skew.\n            vector_ab = Vector.from_points(self.point, other.point)\n            vector_perpendicular = self.direction.cross(other.direction)\n\n            distance = abs(vector_ab.dot(vector_perpendicular)) / vector_perpendicular.norm()\n\n        return distance',
   '            return np.float64(0)\n\n        # The lines are skew.\n        vector_perpendicular = self.direction.cross(other.direction)\n        vector_ab = Vector.from_points(self.point, other.point)\n\n        return abs(vector_perpendicular.dot(vector_ab)) / vector_perpendicular.norm()'))
R('A', 'project-points-outer', L, ('        projected_points = Points(dot_products[:, np.newaxis] * self.direction.unit() + self.point)\n\n        return projected_points',
                                   '        return Points(self.point + np.outer(dot_products, self.direction.unit()))'))
R('A', 'circle-helper', C, ('        d = self.point.distance_point(other.point)\n\n        if d == 0:', '        d = self._distance_centres(other)\n\n        if d == 0:'),
  ('    def intersect_circle(self', '    def _distance_centres(self, other):\n        return Vector.from_points(self.point, other.point).norm()\n\n    def intersect_circle(self'),
  ('        X = point_middle[0] + pm * h * (self.point[1] - other.point[1]) / d\n        Y = point_middle[1] - pm * h * (self.point[0] - other.point[0]) / d\n\n        point_a = Point([X[0], Y[0]])\n        point_b = Point([X[1], Y[1]])\n\n        return point_a, point_b',
   '        dx = h * (self.point[1] - other.point[1]) / d\n        dy = h * (self.point[0] - other.point[0]) / d\n        x, y = point_middle\n\n        return Point([x + dx, y - dy]), Point([x - dx, y + dy])'), ('        pm = np.array([1, -1])\n\n', ''))
R('A', 'mesh-loop', CY, ('        X, Y, Z = [\n            self.point[i] + v_axis[i] * t + self.radius * np.sin(theta) * u_1[i] + self.radius * np.cos(theta) * u_2[i]\n            for i in range(3)\n        ]\n\n        return X, Y, Z',
                         '        coordinates = []\n\n        for p, v, a, b in zip(self.point, v_axis, u_1, u_2):\n            coordinates.append(p + v * t + self.radius * (np.sin(theta) * a + np.cos(theta) * b))\n\n        return tuple(coordinates)'))
R('A', 'perimeter-sum', T, ("        result = np.sum(self.multiple('length', 'abc'))\n\n        return np.float64(result)", "        total = 0.0\n\n        for side in 'abc':\n            total += self.length(side)\n\n        return np.float64(total)"))
R('A', 'cartesian-dot', P, ('        d = -self.normal.dot(self.point)\n\n        return a, b, c, d', '        d = -np.dot(self.point, self.normal)\n\n        return a, b, c, d'))
R('A', 'plane-solve-eye', P, ('array_00 = 2 * np.eye(3)', 'array_00 = np.eye(3)'))
R('A', 'quadratic-two-roots', FN, ('    pm = np.array([-1, 1])  # Array to compute minus/plus.\n\n    X = (-b + pm * math.sqrt(discriminant)) / (2 * a)\n\n    return X', '    root = math.sqrt(discriminant)\n\n    return np.array([(-b - root) / (2 * a), (-b + root) / (2 * a)])'))
R('A', 'sum-squares-loop', FN, ('    distances_squared = np.apply_along_axis(obj.distance_point, 1, points) ** 2\n\n    return distances_squared.sum()', '    return np.float64(sum(obj.distance_point(point) ** 2 for point in np.asarray(points)))'))
R('A', 'sphere-line', SP, ('        point_a, point_b = line.point + distances.reshape(-1, 1) * vector_unit\n\n        return Point(point_a), Point(point_b)', '        point_a, point_b = (line.point + distance * vector_unit for distance in distances)\n\n        return Point(point_a), Point(point_b)'))
R('A', 'segment-order', LS, ('        if not (point_on_segment_a and point_on_segment_b):', '        if not point_on_segment_b or not point_on_segment_a:'))
R('A', 'transform-dot', TR, ('    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))', '    array_transformed = np.dot(vectors_to_points, np.asarray(vectors_basis).T)'))
R('A', 'rank-center-array', PS, ('        points_centered = self.unique().mean_center()\n', '        points_unique = self.unique()\n        points_centered = points_unique - points_unique.centroid()\n'))
R('A', 'ndim-check', BA, ('        if array.ndim != 2:\n', '        if len(array.shape) != 2:\n'))
R('A', 'finite-negated', BA, ('        if not np.isfinite(np.asarray(array)).all():', '        if np.any(~np.isfinite(np.asarray(array))):'))

# ---- batch B
R('B', 'cross-components', V, ('        return Vector(np.cross(vector_a, vector_b))', '        a, b, c = vector_a\n        x, y, z = vector_b\n\n        return Vector([b * z - c * y, c * x - a * z, a * y - b * x])'))
R('B', 'norm-sqrt-kept', V, ('        denom = self.norm() * Vector(other).norm()\n\n        if denom == 0:', '        vector_other = Vector(other)\n        denom = self.norm() * vector_other.norm()\n\n        if not denom:'))
R('B', 'parallel-any', V, ('        if self.is_zero(**kwargs) or Vector(other).is_zero(**kwargs):\n            # The zero vector is perpendicular to all vectors.\n            return True', '        for vector in (self, Vector(other)):\n            if vector.is_zero(**kwargs):\n                return True'))
R('B', 'side-cross-2d', V, ('        product = np.cross(vector_other.set_dimension(3), self.set_dimension(3))\n\n        return int(np.sign(product[2]))', '        product = vector_other[0] * self[1] - vector_other[1] * self[0]\n\n        return int(np.sign(product))'))
R('B', 'different-direction', V, ('        vector_different_direction = Vector(np.zeros(self.dimension))\n        vector_different_direction[0] = 1\n', '        vector_different_direction = Vector([1.0] + [0.0] * (self.dimension - 1))\n'))
R('B', 'centroid-sum', PS, ('        centroid_ = cast(np.ndarray, self.mean(axis=0))\n\n        return Point(centroid_)', '        centroid_ = np.sum(self.to_array(), axis=0) / len(self)\n\n        return Point(centroid_)'))
R('B', 'normalize', PS, ('        distances_to_points = np.linalg.norm(self, axis=1)\n', '        distances_to_points = np.sqrt((self.to_array() ** 2).sum(axis=1))\n'))
R('B', 'volume-det', ME, ('    vector_cross = vector_ac.cross(vector_ad)\n\n    # Set the dimension to 3 so it matches the cross product.\n    vector_ab = vector_ab.set_dimension(3)\n\n    return 1 / 6 * abs(vector_ab.dot(vector_cross))', '    # Set the dimension to 3 so it matches the cross product.\n    triple_product = vector_ab.set_dimension(3).dot(vector_ac.cross(vector_ad))\n\n    return abs(triple_product) / 6'))
R('B', 'line-intersect-parametric', L, ('        denom = vector_perpendicular.norm() ** 2\n', '        denom = vector_perpendicular.dot(vector_perpendicular)\n'))
R('B', 'line-project-t', L, ('        # Project the vector onto the line.\n        vector_projected = self.direction.project_vector(vector_to_point)\n\n        # Add the projected vector to the point on the line.\n        return cast(Point, self.point + vector_projected)', '        t = self.direction.dot(vector_to_point) / self.direction.dot(self.direction)\n\n        return self.to_point(t)'))
R('B', 'fit-circle-columns', C, ('        A = np.hstack((2 * points, np.ones((n, 1))))\n', '        A = np.column_stack([2 * points, np.ones(n)])\n'))
R('B', 'circle-line-loop', C, ('        point_translated_a = Point([coords_x[0], coords_y[0]])\n        point_translated_b = Point([coords_x[1], coords_y[1]])\n\n        # Translate the intersection points back from origin circle to real circle.\n        point_a = cast(Point, point_translated_a + self.point)\n        point_b = cast(Point, point_translated_b + self.point)\n\n        return point_a, point_b',
                              '        # Translate the points of intersection back from the origin.\n        points = [Point([x, y]) + self.point for x, y in zip(coords_x, coords_y)]\n\n        return tuple(points)'))
R('B', 'plane-distance-inline', P, ('        return abs(self.distance_point_signed(point))', '        distance_signed = self.distance_point_signed(point)\n\n        return -distance_signed if distance_signed < 0 else distance_signed'))
R('B', 'plane-project-line', P, ('        point_projected = self.project_point(line.point)\n\n        if self.normal.is_perp', '        point_projected = self.project_point(line.point)\n        is_perpendicular = self.normal.is_perp'), ('is_perpendicular(line.vector, **kwargs):\n            return Line(point_projected, line.vector)', 'is_perpendicular(line.vector, **kwargs)\n\n        if is_perpendicular:\n            return Line(point_projected, line.vector)'))
R('B', 'plane-fit-rows', P, ('        U, S, _ = np.linalg.svd(points_centered.T, **kwargs)\n        normal = Vector(U[:, 2])', '        U, S, _ = np.linalg.svd(points_centered.T, **kwargs)\n        normal = Vector(U.T[2])'))
R('B', 'classify-while', T, ('        lengths = self.multiple(\'length\', \'abc\')\n\n        pairs = combinations(lengths, 2)\n        n_pairs_close = sum(math.isclose(a, b, **kwargs) for a, b in pairs)\n', '        lengths = self.multiple(\'length\', \'abc\')\n        n_pairs_close = 0\n\n        for a, b in combinations(lengths, 2):\n            if math.isclose(a, b, **kwargs):\n                n_pairs_close += 1\n'))
R('B', 'altitude-table', T, ("        if vertex == 'A':\n            point_proj = self.line('a').project_point(self.point_a)\n            return Line.from_points(self.point_a, point_proj)\n\n        if vertex == 'B':\n            point_proj = self.line('b').project_point(self.point_b)\n            return Line.from_points(self.point_b, point_proj)\n\n        if vertex == 'C':\n            point_proj = self.line('c').project_point(self.point_c)\n            return Line.from_points(self.point_c, point_proj)\n\n        raise ValueError(\"The vertex must be 'A', 'B', or 'C'.\")",
                            "        point = self.point(vertex)\n        point_proj = self.line(vertex.lower()).project_point(point)\n\n        return Line.from_points(point, point_proj)"))
R('B', 'cylinder-between', CY, ('    return bool(0 <= distance_point_signed <= distance_point_signed <= cylinder.length())', '    if distance_point_signed < 0:\n        return False\n\n    return bool(distance_point_signed <= cylinder.length())'))
R('B', 'cylinder-caps-loop', CY, ('    point_base = _intersect_cap(plane_base)\n    point_top = _intersect_cap(plane_top)\n\n    return point_base, point_top', '    return tuple(_intersect_cap(plane) for plane in (plane_base, plane_top))'))
R('B', 'mesh-stack', FN, ('    return np.vstack([*map(np.ravel, [X, Y, Z])]).T', '    return np.column_stack([np.ravel(X), np.ravel(Y), np.ravel(Z)])'))
R('B', 'sphere-contains', BS, ('        distance_to_center = self.point.distance_point(point)\n\n        return abs(distance_to_center - self.radius)', '        return abs(self.radius - self.point.distance_point(point))'))
R('B', 'scatter-unpack', PL, ('    array = np.array(points)\n    ax_2d.scatter(array[:, 0], array[:, 1], **kwargs)', '    array = np.array(points)\n    xs, ys = array[:, 0], array[:, 1]\n\n    ax_2d.scatter(xs, ys, **kwargs)'))
R('B', 'private-attribute', BL, ('        self.dimension = self.point.dimension\n', '        self.dimension = self.point.dimension\n        self._checked = True\n'))

# ---- batch C
R('C', 'line-fit-matmul', L, ('            error = np.sum(S[1:] ** 2)', '            error = np.dot(S[1:], S[1:])'))
R('C', 'distance-points-loop', L, ('        projected_points = self.project_points(points)\n\n        distances = np.linalg.norm(points - projected_points, axis=1)\n\n        return distances', '        return np.array([self.distance_point(point) for point in np.asarray(points)])'))
R('C', 'plane-distances-loop', P, ('        vectors = np.subtract(points, self.point)\n\n        return np.array(np.dot(vectors, self.normal.unit()))', '        return np.array([self.distance_point_signed(point) for point in np.asarray(points)])'))
R('C', 'plane-points-loop', P, ('        vectors = np.subtract(self.point, points)\n', '        vectors = -np.subtract(points, self.point)\n'))
R('C', 'area-signed-for', ME, ('    X = np.array(points[:, 0])\n    Y = np.array(points[:, 1])\n\n    indices = np.arange(n_points)\n    indices_offset = indices - 1\n\n    return 0.5 * np.sum(X[indices_offset] * Y[indices] - X[indices] * Y[indices_offset])',
                               '    total = 0.0\n\n    for i in range(n_points):\n        x_1, y_1 = points[i - 1]\n        x_2, y_2 = points[i]\n        total += x_1 * y_2 - x_2 * y_1\n\n    return 0.5 * total'))
R('C', 'sum-squares-for', FN, ('    distances_squared = np.apply_along_axis(obj.distance_point, 1, points) ** 2\n\n    return distances_squared.sum()', '    total = np.float64(0)\n\n    for point in np.asarray(points):\n        total += obj.distance_point(point) ** 2\n\n    return total'))
R('C', 'cylinder-fit-ptp', CY, ('        length = np.max(points_1d) - np.min(points_1d)\n', '        length = np.ptp(points_1d)\n'))
R('C', 'cylinder-fit-sum-for', CY, ('            return sum(np.dot(np.reshape(sample, (3, 1)), np.reshape(sample, (1, 3))) for sample in input_samples)', '            a_matrix = np.zeros((3, 3))\n\n            for sample in input_samples:\n                a_matrix = a_matrix + np.outer(sample, sample)\n\n            return a_matrix'))
R('C', 'coplanar-det', L, ('        points = Points([point_1, point_2, point_3, point_4])\n\n        return points.are_coplanar(**kwargs)', '        return Points([point_1, point_2, point_3, point_4]).affine_rank(**kwargs).item() <= 2'))
R('C', 'circle-area', C, ('        return np.pi * self.radius**2', '        radius = self.radius\n\n        return np.pi * radius * radius'))
R('C', 'to-points-explicit', MX, ('        X, Y, Z = self.to_mesh(**kwargs)\n        points = _mesh_to_points(X, Y, Z)\n\n        return Points(points)', '        return Points(_mesh_to_points(*self.to_mesh(**kwargs)))'))
R('C', 'projection-scalar', V, ('        return self.dot(other) / self.dot(self) * self', '        scale = self.dot(other) / self.dot(self)\n\n        return scale * self'))
R('C', 'normalize-for', PS, ('        distances_to_points = np.linalg.norm(self, axis=1)\n', '        distances_to_points = np.array([np.linalg.norm(row) for row in self.to_array()])\n'))
R('C', 'segment-direct', LS, ('        line_a = Line.from_points(self.point_a, self.point_b)\n        line_b = Line.from_points(other.point_a, other.point_b)\n', '        line_a, line_b = (Line.from_points(s.point_a, s.point_b) for s in (self, other))\n'))

# ---- batch D: less common styles
R('D', 'match-vertex', T, ("        if vertex == 'A':\n            return self.point_a\n\n        if vertex == 'B':\n            return self.point_b\n\n        if vertex == 'C':\n            return self.point_c\n\n        raise ValueError",
                           "        match vertex:\n            case 'A':\n                return self.point_a\n            case 'B':\n                return self.point_b\n            case 'C':\n                return self.point_c\n\n        raise ValueError"))
R('D', 'line-table', T, ("        if side == 'a':\n            point_1, point_2 = self.point_b, self.point_c\n\n        elif side == 'b':\n            point_1, point_2 = self.point_c, self.point_a\n\n        elif side == 'c':\n            point_1, point_2 = self.point_a, self.point_b\n\n        else:\n            raise ValueError(\"The side must be 'a', 'b', or 'c'.\")\n",
                         "        endpoints = {'a': ('point_b', 'point_c'), 'b': ('point_c', 'point_a'), 'c': ('point_a', 'point_b')}\n\n        try:\n            point_1, point_2 = (getattr(self, name) for name in endpoints[side])\n        except KeyError:\n            raise ValueError(\"The side must be 'a', 'b', or 'c'.\") from None\n"))
R('D', 'angle-order', T, ("        if vertex == 'A':\n            arg = (b**2 + c**2 - a**2) / (2 * b * c)\n\n        elif vertex == 'B':\n            arg = (a**2 + c**2 - b**2) / (2 * a * c)\n\n        elif vertex == 'C':\n            arg = (a**2 + b**2 - c**2) / (2 * a * b)\n\n        else:\n            raise ValueError(\"The vertex must be 'A', 'B', or 'C'.\")\n",
                          "        orders = dict(A=(a, b, c), B=(b, a, c), C=(c, a, b))\n\n        if vertex not in orders:\n            raise ValueError(\"The vertex must be 'A', 'B', or 'C'.\")\n\n        opposite, side_1, side_2 = orders[vertex]\n        arg = (side_1**2 + side_2**2 - opposite**2) / (2 * side_1 * side_2)\n"))
R('D', 'classify-set', T, ("        pairs = combinations(lengths, 2)\n        n_pairs_close = sum(math.isclose(a, b, **kwargs) for a, b in pairs)\n\n        if n_pairs_close == 3:", "        a, b, c = lengths\n        n_pairs_close = [math.isclose(a, b, **kwargs), math.isclose(a, c, **kwargs), math.isclose(b, c, **kwargs)].count(True)\n\n        if n_pairs_close == 3:"))
R('D', 'right-sort-inplace', T, ("        a, b, c = sorted(self.multiple('length', 'abc'))\n\n        return math.isclose(a**2 + b**2, c**2, **kwargs)", "        lengths = list(self.multiple('length', 'abc'))\n        lengths.sort()\n        *legs, hypotenuse = (length**2 for length in lengths)\n\n        return math.isclose(sum(legs), hypotenuse, **kwargs)"))
R('D', 'orthocenter-multiple', T, ("        line_alt_a = self.altitude('A')\n        line_alt_b = self.altitude('B')\n\n        return line_alt_a.intersect_line(line_alt_b, **kwargs)", "        line_alt_a, line_alt_b = self.multiple('altitude', 'AB')\n\n        return line_alt_a.intersect_line(line_alt_b, **kwargs)"))
R('D', 'triangle-normal', T, ("        vector_ab = Vector.from_points(self.point_a, self.point_b)\n        vector_ac = Vector.from_points(self.point_a, self.point_c)\n\n        return vector_ab.cross(vector_ac)", "        vectors = [Vector.from_points(self.point_a, point) for point in (self.point_b, self.point_c)]\n\n        return vectors[0].cross(vectors[1])"))
R('D', 'perimeter-reduce', T, ("        result = np.sum(self.multiple('length', 'abc'))\n\n        return np.float64(result)", "        from functools import reduce\n        from operator import add\n\n        return np.float64(reduce(add, map(self.length, 'abc')))"))
R('D', 'plot-parts', T, ("        if part == 'points':\n            for point in self.multiple('point', 'ABC'):\n                point.plot_2d(ax_2d, **kwargs)\n\n        elif part == 'lines':\n            for line in self.multiple('line', 'abc'):\n                line.plot_2d(ax_2d, **kwargs)", "        objects = {'points': lambda: self.multiple('point', 'ABC'), 'lines': lambda: self.multiple('line', 'abc')}\n\n        for obj in objects.get(part, tuple)():\n            obj.plot_2d(ax_2d, **kwargs)"))
R('D', 'distance-points-einsum', L, ('        distances = np.linalg.norm(points - projected_points, axis=1)\n', "        differences = np.asarray(points - projected_points)\n        distances = np.sqrt(np.einsum('ij,ij->i', differences, differences))\n"))
R('D', 'project-points-T', L, ('dot_products = np.dot(vectors, self.direction.unit())', 'dot_products = vectors @ self.direction.unit()'))
R('D', 'project-points-list', L, ('        projected_points = Points(dot_products[:, np.newaxis] * self.direction.unit() + self.point)\n\n        return projected_points', '        unit = self.direction.unit()\n\n        return Points([dot_product * unit + self.point for dot_product in dot_products])'))
R('D', 'distance-line-flags', L, ('        if self.direction.is_parallel(other.direction):\n            # The lines are parallel.', '        is_parallel = self.direction.is_parallel(other.direction)\n\n        if is_parallel:\n            # The lines are parallel.'))
R('D', 'intersect-lines-merged', L, ('        if self.dimension > 3 or other.dimension > 3:', '        if max(self.dimension, other.dimension) > 3:'), ('        vector_a_scaled = num / denom * self.direction\n\n        return self.point + vector_a_scaled', '        return self.to_point(t=num / denom)'))
R('D', 'line-fit-pop', L, ('        _, S, Vh = np.linalg.svd(points_centered, **kwargs)\n\n        direction = Vh[0, :]\n', '        singular_values, (direction, *_) = np.linalg.svd(points_centered, **kwargs)[1:]\n        S = singular_values\n'))
R('D', 'coplanar-numpy', L, ('        points = Points([point_1, point_2, point_3, point_4])\n', '        points = Points(np.stack((point_1, point_2, point_3, point_4)))\n'))
R('D', 'cross-einsum-free', V, ('        return Vector(np.cross(vector_a, vector_b))', '        u, v = vector_a.to_array(), vector_b.to_array()\n        indices_1, indices_2 = [1, 2, 0], [2, 0, 1]\n\n        return Vector(u[indices_1] * v[indices_2] - u[indices_2] * v[indices_1])'))
R('D', 'norm-zero-walrus', V, ('        magnitude = self.norm()\n\n        if magnitude == 0:\n', '        if (magnitude := self.norm()) == 0:\n'))
R('D', 'similarity-minmax', V, ('        clipped = np.clip(cos_theta, -1, 1)\n\n        return np.float64(clipped)', '        return np.float64(max(-1.0, min(1.0, cos_theta)))'))
R('D', 'similarity-units', V, ('        if denom == 0:\n            raise ValueError("The vectors must have non-zero magnitudes.")\n', '        if not all(vector.norm() for vector in (self, Vector(other))):\n            raise ValueError("The vectors must have non-zero magnitudes.")\n'))
R('D', 'signed-components', V, ('        det = np.linalg.det([self, other])\n', '        (x_1, y_1), (x_2, y_2) = self, other\n        det = x_1 * y_2 - x_2 * y_1\n'))
R('D', 'signed-3d-helper', V, ('        if not all([self.dimension == 3, Vector(other).dimension == 3, Vector(direction_positive).dimension == 3]):', '        if {3} != {Vector(vector).dimension for vector in (self, other, direction_positive)}:'))
R('D', 'side-if', V, ('        return int(np.sign(product[2]))', '        component = product[2]\n\n        return int(component > 0) - int(component < 0)'))
R('D', 'different-basis', V, ('        vector_different_direction = Vector(np.zeros(self.dimension))\n        vector_different_direction[0] = 1\n\n        if self.is_parallel(vector_different_direction, **kwargs):\n            vector_different_direction[0] = 0\n            vector_different_direction[1] = 1\n\n        return vector_different_direction', '        basis = np.eye(self.dimension)\n        vector = Vector(basis[0])\n\n        return Vector(basis[1]) if self.is_parallel(vector, **kwargs) else vector'))
R('D', 'different-next', V, ('        vector_different_direction = Vector(np.zeros(self.dimension))\n        vector_different_direction[0] = 1\n\n        if self.is_parallel(vector_different_direction, **kwargs):\n            vector_different_direction[0] = 0\n            vector_different_direction[1] = 1\n\n        return vector_different_direction', '        candidates = (Vector(row) for row in np.identity(self.dimension))\n\n        return next(vector for vector in candidates if not self.is_parallel(vector, **kwargs))'))
R('D', 'project-unit', V, ('        return self.dot(other) / self.dot(self) * self', '        return self * (np.vdot(self, other) / np.vdot(self, self))'))
R('D', 'from-points-asarray', V, ('        array_vector_ab = cast(np.ndarray, np.subtract(point_b, point_a))\n', '        array_vector_ab = np.asarray(point_b) - np.asarray(point_a)\n'))
R('D', 'normalize-hypot', PS, ('        distances_to_points = np.linalg.norm(self, axis=1)\n\n        return self / distances_to_points.max()', '        distance_max = max(np.linalg.norm(point) for point in self.to_array())\n\n        return self / distance_max'))
R('D', 'centroid-average', PS, ('        centroid_ = cast(np.ndarray, self.mean(axis=0))\n\n        return Point(centroid_)', '        return Point(np.average(self.to_array(), axis=0))'))
R('D', 'centroid-columns', PS, ('        centroid_ = cast(np.ndarray, self.mean(axis=0))\n\n        return Point(centroid_)', '        return Point([column.mean() for column in self.to_array().T])'))
R('D', 'mean-center-ternary', PS, ('        if return_centroid:\n            return points_centered, centroid\n\n        return points_centered', '        return (points_centered, centroid) if return_centroid else points_centered'))
R('D', 'coplanar-chain', PS, ('        return bool(self.affine_rank(**kwargs) <= 1)', '        return int(self.affine_rank(**kwargs)) in (0, 1)'))
R('D', 'rank-svd-not-less', PS, ('        return bool(self.affine_rank(**kwargs) == 0)', '        return not self.affine_rank(**kwargs) > 0'))
R('D', 'plane-mesh-roll', P, ('        if c != 0:\n            Z = -(a * X + b * Y + d) / c\n\n        elif b != 0:\n            Z = -(a * X + c * Y + d) / b\n            X, Y, Z = X, Z, Y\n\n        else:\n            Z = -(b * X + c * Y + d) / a\n            X, Y, Z = Z, X, Y\n\n        return X, Y, Z', '        if c != 0:\n            return X, Y, (a * X + b * Y + d) / -c\n\n        if b != 0:\n            return X, (a * X + c * Y + d) / -b, Y\n\n        return (b * X + c * Y + d) / -a, X, Y'))
R('D', 'plane-mesh-broadcast', P, ('        X, Y = np.meshgrid(values_x, values_y)\n\n        if c', '        ones = np.ones((len(values_y), len(values_x)))\n        X = ones * values_x\n        Y = ones * np.reshape(values_y, (-1, 1))\n\n        if c'))
R('D', 'plane-solve-bmat', P, ('        matrix = np.block([[array_00, array_01], [array_10, array_11]])\n', '        matrix = np.vstack((np.hstack((array_00, array_01)), np.hstack((array_10, array_11))))\n'), ('        array_y = np.array([0, 0, 0, dot_a, dot_b])\n', '        array_y = np.concatenate((np.zeros(3), [dot_a, dot_b]))\n'))
R('D', 'plane-line-try', P, ('        num = -self.normal.dot(vector_plane_line)\n        denom = self.normal.dot(line.direction)\n\n        # Vector along the line to the intersection point.\n        vector_line_scaled = num / denom * line.direction\n\n        return line.point + vector_line_scaled', '        t = -self.normal.dot(vector_plane_line) / self.normal.dot(line.direction)\n\n        return line.to_point(t)'))
R('D', 'plane-signed-inline', P, ('        vector_to_point = Vector.from_points(self.point, point)\n\n        return self.normal.scalar_projection(vector_to_point)', '        vector_to_point = Vector.from_points(self.point, point)\n\n        return np.float64(vector_to_point.dot(self.normal) / self.normal.norm())'))
R('D', 'plane-side-signbit', P, ('        return int(np.sign(self.distance_point_signed(point)))', '        distance = self.distance_point_signed(point)\n\n        if distance == 0:\n            return 0\n\n        return 1 if distance > 0 else -1'))
R('D', 'plane-project-vector-direct', P, ('        point_in_space = self.point + vector\n        point_on_plane = self.project_point(point_in_space)\n\n        return Vector.from_points(self.point, point_on_plane)', '        vector = Vector(vector)\n\n        return vector - self.normal.project_vector(vector)'))
R('D', 'plane-fit-vh', P, ('        U, S, _ = np.linalg.svd(points_centered.T, **kwargs)\n        normal = Vector(U[:, 2])', '        _, S, Vh = np.linalg.svd(points_centered, **kwargs)\n        normal = Vector(Vh[2])'))
R('D', 'circle-from-points-solve', C, ('            subarray = array[\n                np.array(list(range(i)) + list(range(i + 1, array.shape[0])))[:, np.newaxis],\n                np.array(list(range(j)) + list(range(j + 1, array.shape[1]))),\n            ]\n            return np.linalg.det(subarray)', '            return np.linalg.det(np.delete(np.delete(array, i, axis=0), j, axis=1))'))
R('D', 'circle-from-points-matrix', C, ('        matrix = np.array(\n            [\n                [0, 0, 0, 1],\n                [x_a**2 + y_a**2, x_a, y_a, 1],\n                [x_b**2 + y_b**2, x_b, y_b, 1],\n                [x_c**2 + y_c**2, x_c, y_c, 1],\n            ],\n        )\n', '        rows = [[x**2 + y**2, x, y, 1] for x, y in ((x_a, y_a), (x_b, y_b), (x_c, y_c))]\n        matrix = np.array([[0, 0, 0, 1], *rows])\n'))
R('D', 'circle-circle-where', C, ('        h = math.sqrt(max(self.radius**2 - a**2, 0))\n', '        h_squared = self.radius**2 - a**2\n        h = math.sqrt(h_squared) if h_squared > 0 else 0.0\n'))
R('D', 'circle-line-copysign', C, ('        sign = -1 if d_y < 0 else 1\n', '        sign = 1\n\n        if d_y < 0:\n            sign = -1\n'))
R('D', 'circle-line-direction', C, ('        point_2 = point_1 + line.direction.unit()\n', '        direction = line.direction\n        point_2 = point_1 + direction / direction.norm()\n'))
R('D', 'circle-fit-norm', C, ('        radius = np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)\n', '        radius = math.sqrt(c[2] + center.dot(center))\n'))
R('D', 'circle-fit-c_', C, ('        A = np.hstack((2 * points, np.ones((n, 1))))\n', '        A = np.c_[2 * points.to_array(), np.ones(n)]\n'))
R('D', 'sphere-mesh-newaxis', SP, ('        X = self.point[0] + self.radius * np.outer(sin_angles_a, sin_angles_b)\n', '        X = self.point[0] + self.radius * sin_angles_a[:, np.newaxis] * sin_angles_b\n'), ('np.outer(cos_angles_a, np.ones_like(angles_b))', 'np.repeat(cos_angles_a[:, None], n_angles, axis=1)'))
R('D', 'sphere-line-quadratic', SP, ('        discriminant = dot**2 - (vector_to_line.norm() ** 2 - self.radius**2)\n', '        c = vector_to_line.dot(vector_to_line) - self.radius * self.radius\n        discriminant = dot * dot - c\n'))
R('D', 'sphere-fit-power', SP, ('        b = (points**2).sum(axis=1)\n', '        b = np.square(points.to_array()).sum(axis=1)\n'))
R('D', 'sphere-volume', SP, ('        return 4 / 3 * np.pi * self.radius**3', '        return self.surface_area() * self.radius / 3'))
R('D', 'sphere-project', BS, ('        if self.point.is_equal(point):\n            raise ValueError("The point must not be the center of the circle or sphere.")\n\n        vector_to_point = Vector.from_points(self.point, point)\n\n        return cast(Point, self.point + self.radius * vector_to_point.unit())', '        vector_to_point = Vector.from_points(self.point, point)\n\n        try:\n            vector_unit = vector_to_point.unit()\n        except ValueError:\n            raise ValueError("The point must not be the center of the circle or sphere.") from None\n\n        return cast(Point, self.point + vector_unit * self.radius)'))
R('D', 'segment-all', LS, ('        point_on_segment_a = self.contains_point(point_intersection)\n        point_on_segment_b = other.contains_point(point_intersection)\n\n        if not (point_on_segment_a and point_on_segment_b):', '        if not all(segment.contains_point(point_intersection) for segment in (self, other)):'))
R('D', 'segment-contains-any', LS, ('        if vector_a.is_zero(**kwargs) or vector_b.is_zero(**kwargs):\n            return True\n\n        similarity = vector_a.cosine_similarity(vector_b)\n\n        return math.isclose(similarity, -1, **kwargs)', '        if any(vector.is_zero(**kwargs) for vector in (vector_a, vector_b)):\n            return True\n\n        return math.isclose(vector_b.cosine_similarity(vector_a), -1, **kwargs)'))
R('D', 'cylinder-within-nested', CY, ('        line_axis = Line(self.point, self.vector)\n        distance_to_axis = line_axis.distance_point(point)\n\n        within_radius = distance_to_axis <= self.radius\n\n        between_cap_planes = _between_cap_planes(self, point)\n\n        return bool(within_radius and between_cap_planes)', '        if not _between_cap_planes(self, point):\n            return False\n\n        distance_to_axis = Line(self.point, self.vector).distance_point(point)\n\n        return bool(distance_to_axis <= self.radius)'))
R('D', 'cylinder-mesh-matrix', CY, ('        X, Y, Z = [\n            self.point[i] + v_axis[i] * t + self.radius * np.sin(theta) * u_1[i] + self.radius * np.cos(theta) * u_2[i]\n            for i in range(3)\n        ]\n\n        return X, Y, Z', '        x_local, y_local = self.radius * np.sin(theta), self.radius * np.cos(theta)\n\n        def coordinate(i):\n            return self.point[i] + v_axis[i] * t + x_local * u_1[i] + y_local * u_2[i]\n\n        return coordinate(0), coordinate(1), coordinate(2)'))
R('D', 'cylinder-infinite-perp', CY, ('    a = (v_l - v_l.dot(v_c) * v_c).norm() ** 2\n    b = 2 * (v_l - v_l.dot(v_c) * v_c).dot(delta_p - delta_p.dot(v_c) * v_c)\n    c = (delta_p - delta_p.dot(v_c) * v_c).norm() ** 2 - r**2\n', '    def reject(vector):\n        return vector - vector.dot(v_c) * v_c\n\n    line_rejected, delta_rejected = map(reject, (v_l, delta_p))\n\n    a = line_rejected.norm() ** 2\n    b = 2 * line_rejected.dot(delta_rejected)\n    c = delta_rejected.norm() ** 2 - r**2\n'))
R('D', 'cylinder-finite-loop', CY, ('    if not _between_cap_planes(cylinder, point_a):\n        point_a = cast(Point, point_base if point_base is not None else point_top)\n\n    if not _between_cap_planes(cylinder, point_b):\n        point_b = cast(Point, point_base if point_base is not None else point_top)\n', '    point_cap = point_top if point_base is None else point_base\n\n    point_a, point_b = (point if _between_cap_planes(cylinder, point) else point_cap for point in (point_a, point_b))\n'))
R('D', 'cylinder-init-loop', CY, ('        if self.point.dimension != 3:\n            raise ValueError("The point must be 3D.")\n\n        if self.vector.dimension != 3:\n            raise ValueError("The vector must be 3D.")\n', '        for name in (\'point\', \'vector\'):\n            if getattr(self, name).dimension != 3:\n                raise ValueError(f"The {name} must be 3D.")\n'))
R('D', 'cylinder-areas', CY, ('        return self.lateral_surface_area() + 2 * np.pi * self.radius**2\n', '        area_cap = np.pi * self.radius**2\n\n        return self.lateral_surface_area() + 2 * area_cap\n'), ('        return np.pi * self.radius**2 * self.length()\n', '        return 0.5 * self.radius * self.lateral_surface_area()\n'))
R('D', 'cylinder-fit-helper', CY, ('        point_a = axis.project_point(points[np.argmin(points_1d)])\n        length = np.max(points_1d) - np.min(points_1d)\n        vector_ab = unit_vector * length\n\n        return cls(point_a, vector_ab, radius)', '        index_a, index_b = points_1d.argmin(), points_1d.argmax()\n        length = points_1d[index_b] - points_1d[index_a]\n\n        return cls(axis.project_point(points[index_a]), length * unit_vector, radius)'))
R('D', 'cylinder-fit-numpy', CY, ('            u = sum(np.dot(sample, sample) for sample in input_samples) / len(points)\n', '            u = np.mean([np.dot(sample, sample) for sample in input_samples])\n'))
R('D', 'cylinder-radius-mean', CY, ('            return np.sqrt(\n                sum(np.dot(center - point, np.dot(projection_matrix, center - point)) for point in points)\n                / len(points),\n            )', '            vectors = [center - point for point in points]\n\n            return math.sqrt(sum(vector @ projection_matrix @ vector for vector in vectors) / len(vectors))'))
R('D', 'quadratic-loop-round', FN, ('        a = round(a, n_digits)\n        b = round(b, n_digits)\n        c = round(c, n_digits)\n', '        a, b, c = (round(x, n_digits) for x in (a, b, c))\n'))
R('D', 'mesh-concat', FN, ('    return np.vstack([*map(np.ravel, [X, Y, Z])]).T', '    return np.stack([np.asarray(array).flatten() for array in (X, Y, Z)], axis=-1)'))
R('D', 'mesh-zip', FN, ('    return np.vstack([*map(np.ravel, [X, Y, Z])]).T', '    return np.array([*zip(np.ravel(X), np.ravel(Y), np.ravel(Z))])'))
R('D', 'sum-squares-dot', FN, ('    distances_squared = np.apply_along_axis(obj.distance_point, 1, points) ** 2\n\n    return distances_squared.sum()', '    distances = np.array([obj.distance_point(point) for point in points])\n\n    return distances.dot(distances)'))
R('D', 'contains-abs', FN, ('    distance = obj.distance_point(point)\n\n    return math.isclose(distance, 0, **kwargs)', '    return math.isclose(0, obj.distance_point(point), **kwargs)'))
R('D', 'area-zip', ME, ('    X = np.array(points[:, 0])\n    Y = np.array(points[:, 1])\n\n    indices = np.arange(n_points)\n    indices_offset = indices - 1\n\n    return 0.5 * np.sum(X[indices_offset] * Y[indices] - X[indices] * Y[indices_offset])', '    previous = np.concatenate((points[-1:], points[:-1]))\n    X, Y = points[:, 0], points[:, 1]\n\n    return float(0.5 * np.sum(previous[:, 0] * Y - X * previous[:, 1]))'))
R('D', 'area-dot', ME, ('    return 0.5 * np.sum(X[indices_offset] * Y[indices] - X[indices] * Y[indices_offset])', '    return 0.5 * (np.dot(X[indices_offset], Y) - np.dot(X, Y[indices_offset]))'))
R('D', 'area-triangle-half', ME, ('    return 0.5 * vector_normal.norm()', '    return vector_normal.norm() / 2'))
R('D', 'volume-loop', ME, ('    vector_ab = Vector.from_points(point_a, point_b)\n    vector_ac = Vector.from_points(point_a, point_c)\n    vector_ad = Vector.from_points(point_a, point_d)\n', '    vector_ab, vector_ac, vector_ad = (Vector.from_points(point_a, point) for point in (point_b, point_c, point_d))\n'))
R('D', 'transform-einsum', TR, ('    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))', "    array_transformed = np.stack([np.dot(vectors_to_points, vector) for vector in vectors_basis], axis=-1)"))
R('D', 'transform-operator', TR, ('    vectors_to_points = np.subtract(points, point_origin)\n    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))', '    array_transformed = (np.asarray(points) - point_origin) @ np.array(vectors_basis).T'))
R('D', 'pad-zeros', BA, ("        n_zeros = dim - self.size\n        array_padded = np.pad(self, (0, n_zeros), 'constant')\n", "        array_padded = np.zeros(dim, dtype=self.dtype)\n        array_padded[: self.size] = self\n"))
R('D', 'pad-hstack', BA, ("        array_padded = np.pad(self, ((0, 0), (0, dim - self.dimension)), 'constant')\n", "        n_rows, n_columns = self.shape\n        array_padded = np.concatenate([self.to_array(), np.zeros((n_rows, dim - n_columns), dtype=self.dtype)], axis=1)\n"))
R('D', 'new-finite-first', BA, ('        if np.size(array) == 0:\n            raise ValueError("The array must not be empty.")\n\n        if not np.isfinite(np.asarray(array)).all():\n            raise ValueError("The values must all be finite.")\n\n        # We cast the input array to be our class type.\n        obj = np.asarray(array).view(cls)\n\n        return obj', '        values = np.asarray(array)\n\n        if values.size == 0:\n            raise ValueError("The array must not be empty.")\n\n        if not np.all(np.isfinite(values)):\n            raise ValueError("The values must all be finite.")\n\n        return values.view(cls)'))
R('D', 'is-close-all', BA, ('        return bool(_allclose(self, other, **kwargs).all())', '        return bool(np.all(_allclose(self, other, **kwargs)))'))
R('D', 'line-plane-close', BL, ('        contains_point = self.contains_point(other.point, **kwargs)\n        is_parallel = self.vector.is_parallel(other.vector, **kwargs)\n\n        return contains_point and is_parallel', '        if not self.vector.is_parallel(other.vector, **kwargs):\n            return False\n\n        return self.contains_point(other.point, **kwargs)'))
R('D', 'point-distance', PT, ('        vector = Vector.from_points(self, other)\n\n        return vector.norm()', '        return Vector.from_points(other, self).norm()'))
R('D', 'point-distance-numpy', PT, ('        vector = Vector.from_points(self, other)\n\n        return vector.norm()', '        return np.linalg.norm(np.subtract(self, other))'), ('from skspatial.objects.vector import Vector', 'import numpy as np\n\nfrom skspatial.objects.vector import Vector'))
R('D', 'plotter-partial', 'objects/_base_spatial.py', ("            return lambda ax: self.plot_2d(ax, **kwargs)\n", "            def plot(ax):\n                return self.plot_2d(ax, **kwargs)\n\n            return plot\n"))
R('D', 'plotter-getattr', 'objects/_base_spatial.py', ("        if self.dimension == 2:\n            if not hasattr(self, 'plot_2d'):\n                raise ValueError(\"The object cannot be plotted in 2D.\")\n\n            return lambda ax: self.plot_2d(ax, **kwargs)\n\n        if self.dimension == 3:\n            if not hasattr(self, 'plot_3d'):\n                raise ValueError(\"The object cannot be plotted in 3D.\")\n\n            return lambda ax: self.plot_3d(ax, **kwargs)\n\n        raise ValueError(\"The dimension must be 2 or 3.\")",
  "        if self.dimension not in (2, 3):\n            raise ValueError(\"The dimension must be 2 or 3.\")\n\n        method = getattr(self, f'plot_{self.dimension}d', None)\n\n        if method is None:\n            raise ValueError(f\"The object cannot be plotted in {self.dimension}D.\")\n\n        return lambda ax: method(ax, **kwargs)"))
R('D', 'plotting-comprehension', PL, ("    xs = [point_a[0], point_b[0]]\n    ys = [point_a[1], point_b[1]]\n    zs = [point_a[2], point_b[2]]\n\n    ax_3d.plot(xs, ys, zs, **kwargs)", "    ax_3d.plot(*zip(point_a, point_b), **kwargs)"))
R('D', 'plotting-transpose', PL, ("    array = np.array(points)\n    ax_3d.scatter(array[:, 0], array[:, 1], array[:, 2], **kwargs)", "    ax_3d.scatter(*np.array(points).T, **kwargs)"))
R('D', 'plotting-index-loop', PL, ("    xs = [point_a[0], point_b[0]]\n    ys = [point_a[1], point_b[1]]\n\n    ax_2d.plot(xs, ys, **kwargs)", "    xs, ys = ([point_a[i], point_b[i]] for i in range(2))\n\n    ax_2d.plot(xs, ys, **kwargs)"))
