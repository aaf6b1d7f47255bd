"""Contracts of Circle and Sphere."""
from ..contract import spec, scenario, lemma, S, W, np, Eq, Le, Lt, Is
from .. import symmath as math
from .vectors import ALL, DIM, D123, KW, KW2, TOL
from .planes import mesh_points

D2, D3 = [{'D': 2}], [{'D': 3}]


def ctor(dim):
    def init(self, point, radius):
        S.req(radius > 0)
        p = S.new(W.Point, point, 1)
        S.req(np.deq(S.A(p)._shape[0], dim))
        vars(self).update({'point': p, 'radius': radius, 'dimension': dim})
    return init


def circle(p, r):
    return S.obj(W.Circle, point=S.point(p), radius=r, dimension=2)


def sphere(p, r):
    return S.obj(W.Sphere, point=S.point(p), radius=r, dimension=3)


for C, dim, wrong in (('Circle', 2, [1, 3, '>=4']), ('Sphere', 3, [1, 2, '>=4'])):
    good = [{'D': dim}]
    O = f'O = {C}(p, r)'
    spec(f'{C}.__init__')(ctor(dim))
    scenario(f'{C}.__init__', 'p:v[D] r:s', f'{C}(p, r)', dims=good + [{'D': d} for d in wrong])
    scenario(f'{C}.__init__', 'p:v[D] r:s', f'{C}(point=Point(p), radius=r)', dims=good)
    scenario(f'{C}.__init__', 'p:v[D]? r:s', f'{C}(p, x)', dims=good, choices={'x': ['r', '0', 'np.nan', 'np.inf', '-1', '2']}, nsamples=60)

    @spec(f'{C}.distance_point')
    def _(self, point):
        return abs(S.norm(S.A(self.point) - S.A(point)) - self.radius)

    @spec(f'{C}.contains_point')
    def _(self, point, **kwargs):
        return S.isclose(abs(S.norm(S.A(self.point) - S.A(point)) - self.radius), 0, **kwargs)

    @spec(f'{C}.project_point')
    def _(self, point):
        c, x = S.A(self.point), S.A(point)
        n = S.norm(x - c)
        S.req(n != 0)
        return S.point(c + self.radius * (x - c) / n)

    P = 'p:v[D] r:s+ q:v[D]'
    scenario(f'{C}.distance_point', P, 'O.distance_point(q)', setup=O, dims=good)
    scenario(f'{C}.distance_point', P, 'O.distance_point(Point(q))', setup=O, dims=good)
    scenario(f'{C}.contains_point', P + TOL, 'O.contains_point(q, **kw)', setup=O, dims=good, choices=KW)
    scenario(f'{C}.contains_point', P + TOL, 'O.contains_point(p_ + t * (q_ - p_), **kw)', setup=O + '; t = r / np.linalg.norm(q_ - p_)', dims=good,
             choices=KW2, pre='S.sq(S.A(q) - S.A(p)) > 0')
    scenario(f'{C}.project_point', P, 'O.project_point(q)', setup=O, dims=good)
    scenario(f'{C}.project_point', P, 'O.project_point(Point(q))', setup=O, dims=good)
    scenario(f'{C}.project_point', 'p:v[D] r:s+', 'O.project_point(p)', setup=O, dims=good)
    # every point is the centre plus some offset d
    lemma('C18', f'{C}: the projection is on the surface, on the ray, at the distance', 'p:v[D] r:s+ d:v[D]',
          O + '; q = p_ + d_; f = O.project_point(q); g = S.A(f)',
          ['Eq(O.distance_point(f), 0)', 'Is(O.contains_point(f))', 'Lt(0, S.dot(g - p_, d))', 'Eq(S.dot(g - p_, d) ** 2, S.sq(g - p_) * S.sq(d))',
           'Eq(S.sq(g - S.A(q)), O.distance_point(q) ** 2)', 'S.eqarr(O.project_point(f), f)'], pre='S.sq(d) > 0', dims=good)
    # the offset to the point is n d with |d| = 1, and e is any surface offset
    lemma('C18', f'{C}: no surface point is nearer', 'p:v[D] r:s+ d:v[D] n:s0 e:v[D] x:s', O,
          ['Eq(S.sq(n * d_ - e_), n * n - 2 * n * x + r * r)', 'Le(O.distance_point(p_ + n * d_) ** 2, n * n - 2 * n * x + r * r)'],
          pre=['S.sq(d) == 1', 'S.sq(e) == r * r', 'x == S.dot(d, e)', 'x <= r'], dims=good)
    lemma('C18', f'{C}: Cauchy-Schwarz for the lemma above', 'p:v[D] r:s+ d:v[D] e:v[D]', '', ['Eq(r * r - S.dot(d, e) ** 2, S.sq(S.cross(d, e)))', 'Le(0, S.sq(S.cross(d, e)))'],
          pre=['S.sq(d) == 1', 'S.sq(e) == r * r'], dims=good)
    lemma('C18', f'{C}: contained exactly when at distance zero (no tolerance)', 'p:v[D] r:s+ d:v[D]', O,
          ['S.same(O.contains_point(p_ + d_), S.sq(d) == r * r)'], dims=good)


# ---------------------------------------------------------------- measures
@spec('Circle.circumference')
def _(self):
    return 2 * np.pi * self.radius


@spec('Circle.area')
def _(self):
    return np.pi * self.radius ** 2


@spec('Sphere.surface_area')
def _(self):
    return 4 * np.pi * self.radius ** 2


@spec('Sphere.volume')
def _(self):
    return 4 * np.pi * self.radius ** 3 / 3


for C, d, ms in (('Circle', 2, ('circumference', 'area')), ('Sphere', 3, ('surface_area', 'volume'))):
    for m in ms:
        scenario(f'{C}.{m}', 'p:v[D] r:s+', f'O.{m}()', setup=f'O = {C}(p, r)', dims=[{'D': d}])


# ---------------------------------------------------------------- intersections
@spec('Circle.intersect_line')
def _(self, line):
    c, d, w = S.A(self.point), S.A(line.direction), S.A(line.point) - S.A(self.point)
    S.req(np.deq(d._shape[0], 2))
    n = S.norm(d)
    x, y = d[0] / n, d[1] / n
    det = w[0] * y - w[1] * x
    disc = self.radius ** 2 - det ** 2
    S.req(disc >= 0)
    h = S.sqrt(disc)
    s = -1 if y < 0 else 1
    return (S.point([c[0] + det * y - s * h * x, c[1] - det * x - s * h * y]),
            S.point([c[0] + det * y + s * h * x, c[1] - det * x + s * h * y]))


scenario('Circle.intersect_line', 'p:v[D] r:s+ q:v[D] d:v[D]', 'O.intersect_line(L)', setup='O = Circle(p, r); L = Line(q, d)', dims=D2)
scenario('Circle.intersect_line', 'p:v[D] r:s+ q:v[E] d:v[E]', 'O.intersect_line(L)', setup='O = Circle(p, r); L = Line(q, d)',
         dims=[{'D': 2, 'E': 3}, {'D': 2, 'E': 4}])


@spec('Sphere.intersect_line')
def _(self, line):
    c, q, d = S.A(self.point), S.A(line.point), S.A(line.direction)
    S.req(np.deq(d._shape[0], 3))
    u = d / S.norm(d)
    w = q - c
    b = S.dot(u, w)
    disc = b * b - (S.sq(w) - self.radius ** 2)
    S.req(disc >= 0)
    h = S.sqrt(disc)
    return S.point(q + (-b - h) * u), S.point(q + (-b + h) * u)


scenario('Sphere.intersect_line', 'p:v[D] r:s+ q:v[D] d:v[D]', 'O.intersect_line(L)', setup='O = Sphere(p, r); L = Line(q, d)', dims=D3)
scenario('Sphere.intersect_line', 'p:v[D] r:s+ q:v[E] d:v[E]', 'O.intersect_line(L)', setup='O = Sphere(p, r); L = Line(q, d)',
         dims=[{'D': 3, 'E': 2}, {'D': 3, 'E': 4}])
# every line is through centre + w along d
for C, D in (('Circle', D2), ('Sphere', D3)):
    OL = f'O = {C}(p, r); L = Line(p_ + w_, d)'
    lemma('C16', f'{C}: the points are on both objects, symmetric about the foot of the perpendicular', 'p:v[D] r:s+ w:v[D] d:v[D]',
          OL + '; a, b = O.intersect_line(L); f = L.project_point(p)',
          ['Eq(S.sq(S.A(a) - p_), r * r)', 'Eq(S.sq(S.A(b) - p_), r * r)', 'Is(L.contains_point(a))', 'Is(L.contains_point(b))',
           'S.eqarr(S.A(a) + S.A(b), 2 * S.A(f))'] + (['Le(0, S.dot(S.A(b) - S.A(a), d))'] if C == 'Sphere' else []),
          pre=['S.sq(d) > 0'], dims=D)
    lemma('C16', f'{C}: tangent lines touch in one point', 'p:v[D] r:s+ w:v[D] d:v[D]',
          OL + '; a, b = O.intersect_line(L)', ['S.eqarr(a, b)'],
          pre=['S.sq(d) > 0', 'S.sq(d) * S.sq(w) - S.dot(d, w) ** 2 == r * r * S.sq(d)'], dims=D)
    # the line is through the foot e of the perpendicular
    lemma('C16', f'{C}: misses exactly beyond the radius', 'p:v[D] r:s+ e:v[D] d:v[D] k:s', f'O = {C}(p, r); L = Line(p_ + k * d_ + e_, d)',
          ['S.same(S.raises(lambda: O.intersect_line(L)), L.distance_point(p) > r)'], pre=['S.sq(d) > 0', 'S.dot(d, e) == 0'], dims=D2 if C == 'Circle' else [{'D': '=3'}])


@spec('Circle.intersect_circle')
def _(self, other):
    p, q, r, s = S.A(self.point), S.A(other.point), self.radius, other.radius
    w = q - p
    d = S.norm(w)
    S.req(d != 0)
    S.req(d <= r + s)
    S.req(d >= abs(r - s))
    a = (r ** 2 - s ** 2 + S.sq(w)) / (2 * d)
    h = S.sqrt(r ** 2 - a ** 2)
    x, y = p[0] + a * w[0] / d, p[1] + a * w[1] / d
    k = h / d
    return S.point([x - k * w[1], y + k * w[0]]), S.point([x + k * w[1], y - k * w[0]])


scenario('Circle.intersect_circle', 'p:v[D] r:s+ q:v[D] s:s+', 'O.intersect_circle(Q)', setup='O = Circle(p, r); Q = Circle(q, s)', dims=D2)
scenario('Circle.intersect_circle', 'p:v[D] r:s+ w:v[D] s:s+', 'O.intersect_circle(Q)', setup='O = Circle(p, r); Q = Circle(p_ + w_, s)', dims=D2)
OQ = 'O = Circle(p, r); Q = Circle(p_ + w_, s)'
lemma('C17', 'both points are on both circles', 'p:v[D] r:s+ w:v[D] s:s+', OQ + '; a, b = O.intersect_circle(Q)',
      ['Eq(S.sq(S.A(a) - p_), r * r)', 'Eq(S.sq(S.A(b) - p_), r * r)', 'Eq(S.sq(S.A(a) - p_ - w_), s * s)', 'Eq(S.sq(S.A(b) - p_ - w_), s * s)'],
      pre='S.sq(w) > 0', dims=D2)
lemma('C17', 'circles tangent from outside touch in one point', 'p:v[D] w:v[D] r:s+ s:s+', OQ + '; a, b = O.intersect_circle(Q)',
      ['S.eqarr(a, b)'], pre=['S.sq(w) > 0', 'S.norm(w) == r + s'], dims=D2)
lemma('C17', 'circles tangent from inside touch in one point', 'p:v[D] w:v[D] r:s+ s:s+', OQ + '; a, b = O.intersect_circle(Q)',
      ['S.eqarr(a, b)'], pre=['S.sq(w) > 0', 'S.norm(w) == r - s'], dims=D2)
lemma('C17', 'raises exactly for coincident centres, separate or nested circles', 'p:v[D] w:v[D] r:s+ s:s+', OQ,
      ['S.same(S.raises(lambda: O.intersect_circle(Q)), (S.sq(w) == 0) | (S.norm(w) > r + s) | (S.norm(w) < abs(r - s)))'], dims=D2)


# ---------------------------------------------------------------- circle through three points
@spec('Circle.from_points')
def _(cls, point_a, point_b, point_c, **kwargs):
    a, b, c = (S.A(S.new(W.Point, x, 1)) for x in (point_a, point_b, point_c))
    for x in (a, b, c):
        S.req(np.deq(x._shape[0], 2))
    S.req(not S.affrank([a, b, c], kwargs.get('tol')) <= 1)
    u, v = b - a, c - a
    g = 2 * (u[0] * v[1] - u[1] * v[0])
    S.req(g != 0)
    uu, vv = S.sq(u), S.sq(v)
    x, y = (v[1] * uu - u[1] * vv) / g, (u[0] * vv - v[0] * uu) / g
    r = S.sqrt(x * x + y * y)
    S.req(r > 0)
    return circle([a[0] + x, a[1] + y], r)


THREE = 'q = p_ + u_; r = p_ + v_'
scenario('Circle.from_points', 'p:v[D] u:v[D] v:v[D] at:s0', 'Circle.from_points(p, q, r, **kw)', setup=THREE,
         dims=[{'D': 2}, {'D': 1}, {'D': 3}, {'D': '>=4'}], choices={'kw': ['{}', '{"tol": at}']})
scenario('Circle.from_points', 'p:v[D] u:v[D] v:v[D]', 'Circle.from_points(Point(p), q.tolist(), Point(r))', setup=THREE, dims=D2)
lemma('C21', 'a circle from points passes through the three', 'p:v[D] u:v[D] v:v[D]', THREE + '; O = Circle.from_points(p, q, r)',
      [f'Eq(S.sq(S.A(O.point) - {x}), O.radius ** 2)' for x in ('p_', 'q', 'r')] + ['Is(O.contains_point(q))'],
      pre='S.sq(u) * S.sq(v) - S.dot(u, v) ** 2 > 0', dims=D2)


# ---------------------------------------------------------------- sphere mesh
@spec('Sphere.to_mesh')
def _(self, n_angles=30):
    c, r = S.A(self.point), self.radius
    t = np.linspace(0, np.pi, n_angles)
    f = np.linspace(0, 2 * np.pi, n_angles)
    s, z = np.sin(t)[:, None], np.cos(t)[:, None]
    o = 0 * f
    return tuple(S.loose(x) for x in (c[0] + r * (s * np.sin(f)), c[1] + r * (s * np.cos(f)), c[2] + r * (z + o)))


@spec('Sphere.to_points')
def _(self, **kwargs):
    return mesh_points(self.to_mesh(**kwargs))


NA = [{'D': 3, 'N': '*'}, {'D': 3, 'N': 1}, {'D': 3, 'N': 2}, {'D': 3, 'N': 5}]
scenario('Sphere.to_mesh', 'p:v[D] r:s+', 'O.to_mesh(n_angles=N)', setup='O = Sphere(p, r)', dims=NA)
scenario('Sphere.to_mesh', 'p:v[D] r:s+', 'O.to_mesh(N)', setup='O = Sphere(p, r)', dims=NA[:1])
scenario('Sphere.to_mesh', 'p:v[D] r:s+', 'O.to_mesh()', setup='O = Sphere(p, r)', dims=D3, nsamples=3)
scenario('Sphere.to_points', 'p:v[D] r:s+', 'O.to_points(n_angles=N)', setup='O = Sphere(p, r)', dims=NA)
scenario('Sphere.to_points', 'p:v[D] r:s+', 'O.to_points()', setup='O = Sphere(p, r)', dims=D3, nsamples=3)
lemma('C30', 'sphere mesh points lie on the sphere', 'p:v[D] r:s+', 'O = Sphere(p, r); X, Y, Z = O.to_mesh(n_angles=N); i = S.indices(X)',
      ['Eq((X[i] - p_[0]) ** 2 + (Y[i] - p_[1]) ** 2 + (Z[i] - p_[2]) ** 2, r * r)'], dims=[{'D': 3, 'N': '*'}])
lemma('C30', 'the sphere mesh runs pole to pole and once around', 'p:v[D] r:s+', 'O = Sphere(p, r); X, Y, Z = O.to_mesh(n_angles=N); i, j = S.indices(X)',
      ['[Eq(X[0, j], p_[0]), Eq(Y[0, j], p_[1]), Eq(Z[0, j], p_[2] + r)]',
       '[Eq(X[N - 1, j], p_[0]), Eq(Y[N - 1, j], p_[1]), Eq(Z[N - 1, j], p_[2] - r)]',
       '[Eq(a[i, 0], a[i, N - 1]) for a in (X, Y, Z)]'], dims=[{'D': 3, 'N': '>=2'}])
