"""Contracts of Plane."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .vectors import ALL, DIM, D123, KW, KW2, TOL
from .lines import base_init, NM

PLANE = 'P = Plane(p, n)'
TWO = 'P = Plane(p, n); Q = Plane(q, m)'
D3 = [{'D': 3}]


@spec('Plane.__init__')
def _(self, point, normal):
    base_init(self, point, normal, 'normal')


scenario('Plane.__init__', 'p:v[D] n:v[D]', 'Plane(p, n)', dims=ALL)
scenario('Plane.__init__', 'p:v[D] n:v[D]', 'Plane(point=Point(p), normal=Vector(n))', dims=ALL)
scenario('Plane.__init__', 'p:v[D]? n:v[D]?', 'Plane(p, n)', dims=[{'D': 3}], nsamples=60)
scenario('Plane.__init__', 'p:v[D] n:v[E]', 'Plane(p, n)', dims=[{'D': 2, 'E': 3}, {'D': 3, 'E': 2}, {'D': 1, 'E': 3}, {'D': 3, 'E': 1}])


@spec('Plane.from_vectors')
def _(cls, point, vector_a, vector_b, **kwargs):
    a, b = S.arr1(vector_a), S.arr1(vector_b)
    S.req(not S.parallel(a, b, **kwargs))
    n = S.cross(a, b)
    p = S.pad3(point)
    S.req(S.dot3(n, n) != 0)
    return S.plane(p, n)


scenario('Plane.from_vectors', 'p:v[D] a:v[E] b:v[F]' + TOL, 'Plane.from_vectors(p, a, b, **kw)', choices=KW2,
         dims=[{'D': i, 'E': j, 'F': j} for i, j in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 3))] + [{'D': '>=4', 'E': 3, 'F': 3}])
scenario('Plane.from_vectors', 'p:v[D] a:v[E] b:v[F]', 'Plane.from_vectors(Point(p), Vector(a), Vector(b))',
         dims=[{'D': 3, 'E': 3, 'F': 3}, {'D': 2, 'E': 2, 'F': 2}, {'D': 3, 'E': 2, 'F': 3}, {'D': 3, 'E': 4, 'F': 4}])


@spec('Plane.from_points')
def _(cls, point_a, point_b, point_c, **kwargs):
    a, b, c = S.A(point_a), S.A(point_b), S.A(point_c)
    S.req(not S.affrank([a, b, c], kwargs.get('tol')) <= 1)
    u, v = b - a, c - a
    S.req(not S.parallel(u, v))
    p = S.pad3(a)
    n = S.cross(u, v)
    S.req(S.dot3(n, n) != 0)
    return S.plane(p, n)


# every triple of points is p, p + u, p + v
THREE = 'q = p_ + u_; r = p_ + v_'
scenario('Plane.from_points', 'p:v[D] u:v[D] v:v[D] at:s0', 'Plane.from_points(p, q, r, **kw)', setup=THREE, dims=DIM,
         choices={'kw': ['{}', '{"tol": at}']})
scenario('Plane.from_points', 'p:v[D] u:v[D] v:v[D]', 'Plane.from_points(Point(p), q.tolist(), Point(r))', setup=THREE, dims=[{'D': 2}, {'D': 3}])
lemma('C21', 'a plane from points contains the three points', 'p:v[D] u:v[D] v:v[D]', THREE + '; P = Plane.from_points(p, q, r)',
      ['Is(P.contains_point(p))', 'Is(P.contains_point(q))', 'Is(P.contains_point(r))', 'Eq(P.distance_point(q), 0)'],
      pre='not S.parallel(u, v)', dims=D3)
lemma('C21', 'a plane from vectors is parallel to both', 'p:v[D] a:v[D] b:v[D] s:s t:s',
      'P = Plane.from_vectors(p, a, b)',
      ['Eq(S.dot3(P.normal, a), 0)', 'Eq(S.dot3(P.normal, b), 0)', 'Is(P.contains_point(p_ + s * a_ + t * b_))'],
      pre='not S.parallel(a, b)', dims=D3)


@spec('Plane.cartesian')
def _(self):
    n = S.pad3(self.normal)
    return (n[0], n[1], n[2], -S.dot(self.normal, self.point))


scenario('Plane.cartesian', 'p:v[D] n:v[D]', 'P.cartesian()', setup=PLANE, dims=DIM)
lemma('C11', 'the cartesian form evaluates normal . (x - point)', 'p:v[D] n:v[D] x:v[D]',
      PLANE + '; a, b, c, d = P.cartesian(); y = S.pad3(x)',
      ['Eq(a * y[0] + b * y[1] + c * y[2] + d, S.dot(n, S.A(x) - S.A(p)))'], pre='S.sq(n) > 0', dims=D123)


# ---------------------------------------------------------------- projections and distances
def foot(self, point):
    x, n = S.A(point), S.A(self.normal)
    return x - S.proj(n, x - S.A(self.point))


def signed(self, point):
    return S.dot(self.normal, S.A(point) - S.A(self.point)) / S.norm(self.normal)


@spec('Plane.project_point')
def _(self, point):
    return S.point(foot(self, point))


@spec('Plane.distance_point_signed')
def _(self, point):
    return signed(self, point)


@spec('Plane.distance_point')
def _(self, point):
    return abs(signed(self, point))


@spec('Plane.side_point')
def _(self, point):
    return S.sign(signed(self, point))


scenario('Plane.project_point', 'p:v[D] n:v[D] q:v[D]', 'P.project_point(q)', setup=PLANE, dims=ALL)
scenario('Plane.project_point', 'p:v[D] n:v[D] q:v[D]', 'P.project_point(Point(q))', setup=PLANE, dims=ALL)
scenario('Plane.distance_point_signed', 'p:v[D] n:v[D] q:v[D]', 'P.distance_point_signed(q)', setup=PLANE, dims=ALL)
scenario('Plane.distance_point', 'p:v[D] n:v[D] q:v[D]', 'P.distance_point(q)', setup=PLANE, dims=ALL)
scenario('Plane.side_point', 'p:v[D] n:v[D] q:v[D]', 'P.side_point(q)', setup=PLANE, dims=ALL)
lemma('C10', 'the projection is on the plane, along the normal, at the distance', 'p:v[D] n:v[D] q:v[D] x:v[D]',
      PLANE + '; f = P.project_point(q); r = S.A(q) - S.A(f); h = P.distance_point_signed(q)',
      ['Eq(P.distance_point_signed(f), 0)', 'Is(P.contains_point(f))', 'S.eqarr(r, h / S.norm(n) * S.A(n))',
       'Eq(S.sq(r), h * h)', 'Eq(P.distance_point(q), abs(h))', 'Eq(P.side_point(q), S.sign(h))', 'S.eqarr(P.project_point(f), f)'],
      pre='S.sq(n) > 0', dims=ALL)
lemma('C10', 'the projection is nearest among the points of the plane', 'p:v[D] n:v[D] q:v[D] x:v[D]',
      PLANE + '; f = P.project_point(q)', ['Is(S.sq(S.A(q) - S.A(f)) <= S.sq(S.A(q) - S.A(x)))'],
      pre=['S.sq(n) > 0', 'S.dot(n, S.A(x) - S.A(p)) == 0'], dims=ALL)
lemma('C10', 'positive on the side the normal points to', 'p:v[D] n:v[D] q:v[D] t:s+', PLANE + '; f = S.A(P.project_point(q))',
      ['Eq(P.distance_point_signed(f + t * S.A(n)), t * S.norm(n))', 'Eq(P.side_point(f + t * S.A(n)), 1)', 'Eq(P.side_point(f - t * S.A(n)), -1)',
       'Eq(P.side_point(f), 0)'], pre='S.sq(n) > 0', dims=ALL)


@spec('Plane.project_points')
def _(self, points):
    X, p, n = S.A(points), S.A(self.point), S.A(self.normal)
    return S.points(X - (np.dot(X - p, n) / S.sq(n))[:, None] * n)


@spec('Plane.distance_points_signed')
def _(self, points):
    return np.dot(S.A(points) - S.A(self.point), S.A(self.normal)) / S.norm(self.normal)


@spec('Plane.distance_points')
def _(self, point):
    return np.abs(np.dot(S.A(point) - S.A(self.point), S.A(self.normal)) / S.norm(self.normal))


@spec('Plane.sum_squares')
def _(self, points):
    return ((np.dot(S.A(points) - S.A(self.point), S.A(self.normal)) / S.norm(self.normal)) ** 2).sum()


for name in ('project_points', 'distance_points_signed', 'distance_points', 'sum_squares'):
    scenario(f'Plane.{name}', 'p:v[D] n:v[D] a:m[N,D]', f'P.{name}(a)', setup=PLANE, dims=NM)
    scenario(f'Plane.{name}', 'p:v[D] n:v[D] a:m[N,D]', f'P.{name}(X)', setup=PLANE + '; X = Points(a)', dims=NM)
lemma('C10', 'batch versions agree with the single-point versions', 'p:v[D] n:v[D] q:v[D] r:v[D]',
      PLANE + '; X = [q_, r_]; F = P.project_points(X); h = P.distance_points_signed(X); w = P.distance_points(X)',
      ['S.eqarr(S.A(F)[0], P.project_point(q))', 'S.eqarr(S.A(F)[1], P.project_point(r))', 'Eq(h[0], P.distance_point_signed(q))',
       'Eq(h[1], P.distance_point_signed(r))', 'Eq(w[0], P.distance_point(q))', 'Eq(w[1], P.distance_point(r))'],
      pre='S.sq(n) > 0', dims=ALL)
lemma('C32', 'sum of squared plane distances', 'p:v[D] n:v[D] q:v[D] r:v[D]', PLANE,
      ['Eq(P.sum_squares([q_, r_]), P.distance_point(q) ** 2 + P.distance_point(r) ** 2)'], pre='S.sq(n) > 0', dims=ALL)


@spec('Plane.contains_point')
def _(self, point, **kwargs):
    return S.isclose(abs(signed(self, point)), 0, **kwargs)


@spec('Plane.is_close')
def _(self, other, **kwargs):
    S.req(isinstance(other, type(self)), TypeError)
    c = S.isclose(abs(signed(self, other.point)), 0, **kwargs)
    return c and S.parallel(self.normal, other.normal, **kwargs)


scenario('Plane.contains_point', 'p:v[D] n:v[D] q:v[D]' + TOL, 'P.contains_point(q, **kw)', setup=PLANE, dims=ALL, choices=KW)
scenario('Plane.contains_point', 'p:v[D] n:v[D] q:v[D]' + TOL, 'P.contains_point(P.project_point(q), **kw)', setup=PLANE, dims=ALL, choices=KW2)
scenario('Plane.is_close', 'p:v[D] n:v[D] q:v[D] m:v[D]' + TOL, 'P.is_close(Q, **kw)', setup=TWO, dims=ALL, choices=KW2)
scenario('Plane.is_close', 'p:v[D] n:v[D] c:s' + TOL, 'P.is_close(Q, **kw)', setup=PLANE + '; Q = Plane(p_, c * n_)', dims=ALL, choices=KW2)
scenario('Plane.is_close', 'p:v[D] n:v[D]', 'P.is_close(x)', setup=PLANE, dims=ALL, choices={'x': ['p', 'Point(p)', 'Line(p, n)', 'None']})
lemma('C32', 'the same plane is close, whatever its point and scale', 'p:v[D] n:v[D] q:v[D] c:s',
      PLANE + '; Q = Plane(P.project_point(q), c * n_)', ['Is(P.is_close(Q))', 'Is(Q.is_close(P))'], pre=['S.sq(n) > 0', 'c != 0'], dims=ALL)


# ---------------------------------------------------------------- vectors, lines, planes
@spec('Plane.project_vector')
def _(self, vector):
    v = S.A(vector)
    return S.vector(v - S.proj(self.normal, v))


@spec('Plane.project_line')
def _(self, line, **kwargs):
    n, d = S.A(self.normal), S.A(line.direction)
    S.req(not S.parallel(n, d, **kwargs))
    f = foot(self, line.point)
    if S.perpendicular(n, d, **kwargs):
        return S.line(f, d)
    v = d - S.proj(n, d)
    S.req(S.sq(v) != 0)
    return S.line(f, v)


scenario('Plane.project_vector', 'p:v[D] n:v[D] v:v[D]', 'P.project_vector(v)', setup=PLANE, dims=ALL)
scenario('Plane.project_vector', 'p:v[D] n:v[D] v:v[D]', 'P.project_vector(Vector(v))', setup=PLANE, dims=ALL)
scenario('Plane.project_line', 'p:v[D] n:v[D] q:v[D] d:v[D]' + TOL, 'P.project_line(L, **kw)', setup=PLANE + '; L = Line(q, d)', dims=ALL, choices=KW2)
lemma('C11', 'projecting a vector removes its normal component, wherever the plane is', 'p:v[D] n:v[D] v:v[D] q:v[D]',
      PLANE + '; r = P.project_vector(v)',
      ['Eq(S.dot(r, n), 0)', 'S.eqarr(S.A(v) - S.A(r), S.proj(n, v))', 'S.eqarr(r, Plane(q, n).project_vector(v))'],
      pre='S.sq(n) > 0', dims=ALL)
lemma('C11', 'projecting a line projects each of its points', 'p:v[D] n:v[D] q:v[D] d:v[D] t:s',
      PLANE + '; L = Line(q, d); M = P.project_line(L)',
      ['S.eqarr(M.to_point(t), P.project_point(L.to_point(t)))'],
      pre=['S.sq(n) > 0', 'S.sq(d) > 0', 'not S.parallel(n, d)'], dims=ALL)


@spec('Plane.intersect_line')
def _(self, line, **kwargs):
    n, p, q, d = S.A(self.normal), S.A(self.point), S.A(line.point), S.A(line.direction)
    S.req(not S.perpendicular(n, d, **kwargs))
    return S.point(q + S.dot(n, p - q) / S.dot(n, d) * d)


scenario('Plane.intersect_line', 'p:v[D] n:v[D] q:v[D] d:v[D]' + TOL, 'P.intersect_line(L, **kw)', setup=PLANE + '; L = Line(q, d)', dims=ALL,
         choices=KW)
lemma('C14', 'the plane-line intersection lies on both and is unique', 'p:v[D] n:v[D] q:v[D] d:v[D] t:s',
      PLANE + '; L = Line(q, d); X = P.intersect_line(L); Y = S.A(X)',
      ['Is(P.contains_point(X))', 'Is(L.contains_point(X))', 'S.eqarr(S.A(n) @ (S.A(L.to_point(t)) - Y) / S.dot(n, d) * S.A(d), S.A(L.to_point(t)) - Y)'],
      pre=['S.sq(n) > 0', 'S.sq(d) > 0', 'S.dot(n, d) != 0'], dims=ALL)


@spec('Plane.intersect_plane')
def _(self, other, **kwargs):
    p, n, q, m = (S.A(x) for x in (self.point, self.normal, other.point, other.normal))
    S.req(not S.parallel(n, m, **kwargs))
    S.req(np.deq(n._shape[0], 3))
    a, b = S.dot(p, n), S.dot(q, m)
    nn, mm, nm = S.sq(n), S.sq(m), S.dot(n, m)
    g = nn * mm - nm * nm
    S.req(g != 0)
    return S.line((a * mm - b * nm) / g * n + (b * nn - a * nm) / g * m, S.cross(n, m))


scenario('Plane.intersect_plane', 'p:v[D] n:v[D] q:v[D] m:v[D]' + TOL, 'P.intersect_plane(Q, **kw)', setup=TWO, dims=[{'D': 3}], choices=KW2)
scenario('Plane.intersect_plane', 'p:v[D] n:v[D] q:v[D] m:v[D]', 'P.intersect_plane(Q)', setup=TWO, dims=[{'D': 1}, {'D': 2}, {'D': 4}])
lemma('C14', 'every point of the intersection line is on both planes and its point is nearest the origin',
      'p:v[D] n:v[D] q:v[D] m:v[D] t:s', TWO + '; L = P.intersect_plane(Q); X = L.to_point(t)',
      ['Eq(P.distance_point_signed(X), 0)', 'Eq(Q.distance_point_signed(X), 0)', 'S.eqarr(L.direction, S.cross(n, m))',
       'Eq(S.dot(L.point, L.direction), 0)'],
      pre=['S.sq(n) > 0', 'S.sq(m) > 0', 'not S.parallel(n, m)'], dims=D3)


# ---------------------------------------------------------------- mesh
@spec('Plane.to_mesh')
def _(self, lims_x=(-1, 1), lims_y=(-1, 1)):
    n = S.pad3(self.normal)
    d = -S.dot(self.normal, self.point)
    p = S.A(self.point)
    S.req(not np.dlt(p._shape[0], 2))
    X, Y = np.meshgrid(p[0] + S.A(lims_x), p[1] + S.A(lims_y))
    a, b, c = n
    if c != 0:
        return tuple(S.loose(x) for x in (X, Y, -(a * X + b * Y + d) / c))
    if b != 0:
        return tuple(S.loose(x) for x in (X, -(a * X + d) / b, Y))
    return tuple(S.loose(x) for x in (-d / a + 0 * X, X, Y))


@spec('Plane.to_points')
def _(self, **kwargs):
    return mesh_points(self.to_mesh(**kwargs))


def mesh_points(mesh):
    X, Y, Z = (np.ravel(S.A(x)) for x in mesh)
    return S.points(np.column_stack([X, Y, Z]))


LIM = {'kw': ['{}', '{"lims_x": lx, "lims_y": ly}', '{"lims_y": ly}', '{"lims_x": lx}']}
scenario('Plane.to_mesh', 'p:v[D] n:v[D] lx:v[E] ly:v[F]', 'P.to_mesh(**kw)', setup=PLANE, choices=LIM,
         dims=[{'D': 3, 'E': 2, 'F': 2}, {'D': 3, 'E': 2, 'F': 3}, {'D': 2, 'E': 2, 'F': 2}, {'D': 1, 'E': 2, 'F': 2}, {'D': 4, 'E': 2, 'F': 2}])
scenario('Plane.to_points', 'p:v[D] n:v[D] lx:v[E] ly:v[F]', 'P.to_points(**kw)', setup=PLANE, choices=LIM,
         dims=[{'D': 3, 'E': 2, 'F': 2}, {'D': 3, 'E': 2, 'F': 3}, {'D': 2, 'E': 2, 'F': 2}])
lemma('C30', 'mesh points lie on the plane', 'p:v[D] n:v[D] lx:v[E] ly:v[F]',
      PLANE + '; X = P.to_points(lims_x=lx, lims_y=ly)', ['[Eq(P.distance_point_signed(x), 0) for x in S.A(X)]'],
      pre='S.sq(n) > 0', dims=[{'D': 3, 'E': 2, 'F': 2}, {'D': 3, 'E': 2, 'F': 3}])
